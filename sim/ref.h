// Reference models, written from the Unicode standard annexes and the documentation in the headers.
// They read the Unicode Character Database themselves and share no code with the library.
#pragma once
#include "common.h"

namespace sim::ref
{

enum GCB : u8 { G_Other, G_CR, G_LF, G_Control, G_Extend, G_ZWJ, G_RI, G_Prepend, G_SpacingMark, G_L, G_V, G_T, G_LV, G_LVT };
enum WB : u8
{
    W_Other, W_CR, W_LF, W_Newline, W_Extend, W_ZWJ, W_Format, W_RI, W_Katakana, W_Hebrew, W_ALetter, W_SQ, W_DQ,
    W_MidNumLet, W_MidLetter, W_MidNum, W_Numeric, W_ExtendNumLet, W_WSegSpace
};
enum INCB : u8 { I_None, I_Consonant, I_Linker, I_Extend };

struct Ucd
{
    vector<u8> gcb, wb, incb, extpict, ccc, mc, virama, vsbase, ccs /* emoji flags: 1 presentation, 2 modifier, 4 modifier base, 8 emoji */;
    vector<u8> exclusion; // Full_Composition_Exclusion
    vector<u8> width;     // columns: 0 for controls, formats, marks, separators and surrogates; 2 for emoji presentation and East Asian wide
    vector<u8> emojiCat;  // token of emoji_presentation_scanner.rl, 255 for none
    vector<string> scriptNames;
    vector<uint16_t> script;               // index of scriptNames; 0: not listed in Scripts.txt
    std::map<u32, vector<uint16_t>> scriptExt; // in the order of the file
    std::map<u32, vector<u32>> canon, compat; // one-step mappings
    std::map<u32, string> tag;                // <font> and so on of the compatibility mappings, without the brackets
    std::map<u64, u32> compose;
    std::map<u32, vector<u32>> fullCanon, fullCompat; // recursive
    vector<u8> quick;                                 // quick check: NFC in bits 0-1 (1 no, 2 maybe), NFKC in bits 2-3, NFD no bit 4, NFKD no bit 5
    vector<u8> letter;                                // 1: general category Lu, Ll or Lt; 2: case-ignorable by general category or word break
    struct Case
    {
        std::map<u32, u32> simple;
        std::map<u32, vector<u32>> special; // unconditional full mappings
    };
    Case lower, upper, title, fold;
    bool ok = false;
};

Ucd const& ucd();
void load(); // aborts the process with status 2 if the UCD cannot be read

// break before text[i], for i in 0..n (sot and eot break unless the text is empty)
bool graphemeBreakBefore(u32string_view, size_t i); // whether a cluster starts at codepoint i
vector<bool> graphemeBreaks(u32string_view text);
vector<bool> wordBreaks(u32string_view text);

enum Form { NFC, NFD, NFKC, NFKD };
u32string normalize(u32string_view text, Form form);
u8 ccc(u32 cp);

// Case: the unconditional full mappings of SpecialCasing.txt and CaseFolding.txt (C + F) over the simple ones.
u32 simpleCase(Ucd::Case const& c, u32 cp);
u32string fullCase(Ucd::Case const& c, u32 cp);
u32string mapCase(Ucd::Case const& c, u32string_view text);
// The first letter (Lu, Ll, Lt) of each word in title case, its other letters in lower case.
u32string titleCase(u32string_view text);

string encode(u32 cp);
string encode(u32string_view text);

// One unit of a UTF-8 stream: a structurally complete sequence (lead C0..F7 with its continuation
// bytes, ASCII included), or an ill-formed one.
struct Unit
{
    size_t at = 0;
    size_t len = 0;
    bool good = false;
    bool truncatedAtEnd = false; // ill-formed only because the text ends
    u32 cp = 0;
};
vector<Unit> decodeUtf8(string_view text);

// Width of a cluster by the rules documented in width.h, over per-codepoint widths.
struct Width
{
    u32 base = 0;
    int baseWidth = 0;
    unsigned baseOwn = 0; // the base's own width
    bool open = false;
    int closed = 0, current = 0;
    bool virama = false, skip = false;
    unsigned ri = 0;
    void push(u32 cp, unsigned cpWidth);
    unsigned width() const { return closed + current > 0 ? static_cast<unsigned>(closed + current) : 0; }
};

} // namespace sim::ref
