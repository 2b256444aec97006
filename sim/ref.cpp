#include "ref.h"

#include <algorithm>
#include <cstdio>
#include <fstream>
#include <iterator>

namespace sim::ref
{

namespace
{
    Ucd g;

    string_view trim(string_view s)
    {
        while (!s.empty() && (s.front() == ' ' || s.front() == '\t' || s.front() == '\r'))
            s.remove_prefix(1);
        while (!s.empty() && (s.back() == ' ' || s.back() == '\t' || s.back() == '\r'))
            s.remove_suffix(1);
        return s;
    }

    string dir()
    {
        auto const* e = getenv("SIM_UCD_DIR");
        return e ? e : "/usr/share/unicode";
    }

    string slurp(string const& name)
    {
        std::ifstream f(dir() + "/" + name, std::ios::binary);
        if (!f)
        {
            fprintf(stderr, "cannot read %s/%s\n", dir().c_str(), name.c_str());
            std::exit(2);
        }
        return { std::istreambuf_iterator<char>(f), {} };
    }

    u32 hexval(string_view s)
    {
        u32 v = 0;
        for (char c: s)
            v = v * 16 + static_cast<u32>(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
        return v;
    }

    template <typename F>
    void lines(string const& text, F f)
    {
        string_view t = text;
        vector<string_view> fields;
        while (!t.empty())
        {
            auto const e = std::min(t.find('\n'), t.size());
            auto line = t.substr(0, e);
            t.remove_prefix(std::min(e + 1, t.size()));
            line = line.substr(0, line.find('#'));
            if (trim(line).empty())
                continue;
            fields.clear();
            for (size_t i = 0;;)
            {
                auto const j = line.find(';', i);
                fields.push_back(trim(line.substr(i, j == string_view::npos ? j : j - i)));
                if (j == string_view::npos)
                    break;
                i = j + 1;
            }
            f(fields);
        }
    }

    template <typename F>
    void ranges(string const& file, F f)
    {
        lines(slurp(file), [&](vector<string_view> const& w) {
            auto const dots = w[0].find("..");
            auto const lo = hexval(w[0].substr(0, dots));
            auto const hi = dots == string_view::npos ? lo : hexval(w[0].substr(dots + 2));
            f(lo, hi, w);
        });
    }

    void expand(u32 cp, bool compat, vector<u32>& out)
    {
        if (cp >= 0xAC00 && cp < 0xAC00 + 11172)
        {
            auto const s = cp - 0xAC00;
            out.push_back(0x1100 + s / 588);
            out.push_back(0x1161 + s % 588 / 28);
            if (s % 28)
                out.push_back(0x11A7 + s % 28);
            return;
        }
        vector<u32> const* m = nullptr;
        if (auto const i = g.canon.find(cp); i != g.canon.end())
            m = &i->second;
        else if (compat)
            if (auto const j = g.compat.find(cp); j != g.compat.end())
                m = &j->second;
        if (!m)
            out.push_back(cp);
        else
            for (auto c: *m)
                expand(c, compat, out);
    }
} // namespace

Ucd const& ucd() { return g; }

void load()
{
    if (g.ok)
        return;
    constexpr size_t N = 0x110000;
    for (auto* v: { &g.gcb, &g.wb, &g.incb, &g.extpict, &g.ccc, &g.mc, &g.virama, &g.vsbase, &g.ccs, &g.exclusion, &g.quick, &g.letter })
        v->assign(N, 0);
    auto const fill = [](vector<u8>& v, u32 lo, u32 hi, u8 x) { std::fill(v.begin() + lo, v.begin() + hi + 1, x); };

    std::map<string_view, u8> const gcbNames { { "CR", G_CR }, { "LF", G_LF }, { "Control", G_Control }, { "Extend", G_Extend }, { "ZWJ", G_ZWJ }, { "Regional_Indicator", G_RI }, { "Prepend", G_Prepend }, { "SpacingMark", G_SpacingMark }, { "L", G_L }, { "V", G_V }, { "T", G_T }, { "LV", G_LV }, { "LVT", G_LVT } };
    ranges("auxiliary/GraphemeBreakProperty.txt", [&](u32 lo, u32 hi, auto const& w) { fill(g.gcb, lo, hi, gcbNames.at(w[1])); });
    std::map<string_view, u8> const wbNames { { "CR", W_CR }, { "LF", W_LF }, { "Newline", W_Newline }, { "Extend", W_Extend }, { "ZWJ", W_ZWJ }, { "Format", W_Format }, { "Regional_Indicator", W_RI }, { "Katakana", W_Katakana }, { "Hebrew_Letter", W_Hebrew }, { "ALetter", W_ALetter }, { "Single_Quote", W_SQ }, { "Double_Quote", W_DQ }, { "MidNumLet", W_MidNumLet }, { "MidLetter", W_MidLetter }, { "MidNum", W_MidNum }, { "Numeric", W_Numeric }, { "ExtendNumLet", W_ExtendNumLet }, { "WSegSpace", W_WSegSpace } };
    ranges("auxiliary/WordBreakProperty.txt", [&](u32 lo, u32 hi, auto const& w) { fill(g.wb, lo, hi, wbNames.at(w[1])); });
    ranges("DerivedCoreProperties.txt", [&](u32 lo, u32 hi, auto const& w) {
        if (w[1] == "InCB" && w.size() > 2)
            fill(g.incb, lo, hi, w[2] == "Consonant" ? I_Consonant : w[2] == "Linker" ? I_Linker : I_Extend);
    });
    ranges("emoji/emoji-data.txt", [&](u32 lo, u32 hi, auto const& w) {
        u8 bit = 0;
        if (w[1] == "Extended_Pictographic")
            fill(g.extpict, lo, hi, 1);
        else if (w[1] == "Emoji_Presentation")
            bit = 1;
        else if (w[1] == "Emoji_Modifier")
            bit = 2;
        else if (w[1] == "Emoji_Modifier_Base")
            bit = 4;
        else if (w[1] == "Emoji")
            bit = 8;
        for (u32 c = lo; c <= hi; ++c)
            g.ccs[c] = static_cast<u8>(g.ccs[c] | bit);
    });
    lines(slurp("emoji/emoji-variation-sequences.txt"), [&](auto const& w) { g.vsbase[hexval(w[0].substr(0, w[0].find(' ')))] = 1; });
    ranges("IndicSyllabicCategory.txt", [&](u32 lo, u32 hi, auto const& w) {
        if (w[1] == "Virama" || w[1] == "Invisible_Stacker")
            fill(g.virama, lo, hi, 1);
    });
    ranges("DerivedNormalizationProps.txt", [&](u32 lo, u32 hi, auto const& w) {
        if (w[1] == "Full_Composition_Exclusion")
            fill(g.exclusion, lo, hi, 1);
        else if (w.size() > 2)
        {
            u8 const bits = w[1] == "NFC_QC"    ? w[2] == "N" ? 1 : 2
                            : w[1] == "NFKC_QC" ? w[2] == "N" ? 4 : 8
                            : w[1] == "NFD_QC"  ? 16
                            : w[1] == "NFKD_QC" ? 32
                                                : 0;
            for (u32 c = lo; c <= hi; ++c)
                g.quick[c] = static_cast<u8>(g.quick[c] | bits);
        }
    });
    auto const sequence = [](string_view d) {
        vector<u32> m;
        for (size_t i = 0; i < d.size();)
        {
            auto const j = std::min(d.find(' ', i), d.size());
            m.push_back(hexval(d.substr(i, j - i)));
            i = j + 1;
        }
        return m;
    };
    lines(slurp("SpecialCasing.txt"), [&](auto const& w) {
        if (w.size() > 4 && !w[4].empty())
            return; // conditional
        auto const cp = hexval(w[0]);
        g.lower.special[cp] = sequence(w[1]);
        g.title.special[cp] = sequence(w[2]);
        g.upper.special[cp] = sequence(w[3]);
    });
    lines(slurp("CaseFolding.txt"), [&](auto const& w) {
        auto const cp = hexval(w[0]);
        if (w[1] == "C" || w[1] == "S")
            g.fold.simple[cp] = hexval(w[2]);
        else if (w[1] == "F")
            g.fold.special[cp] = sequence(w[2]);
    });
    for (u32 c = 0; c < N; ++c)
        g.letter[c] = g.wb[c] == W_MidLetter || g.wb[c] == W_MidNumLet || g.wb[c] == W_SQ ? 2 : 0;
    ranges("extracted/DerivedGeneralCategory.txt", [&](u32 lo, u32 hi, auto const& w) {
        u8 const bits = w[1] == "Lu" || w[1] == "Ll" || w[1] == "Lt" ? 1 : w[1] == "Mn" || w[1] == "Me" || w[1] == "Cf" || w[1] == "Lm" || w[1] == "Sk" ? 2 : 0;
        for (u32 c = lo; c <= hi; ++c)
            g.letter[c] = static_cast<u8>(g.letter[c] | bits);
    });
    lines(slurp("UnicodeData.txt"), [&](auto const& w) {
        auto const cp = hexval(w[0]);
        for (auto [f, c]: { std::pair { 12, &g.upper }, std::pair { 13, &g.lower }, std::pair { 14, &g.title } })
            if (auto const k = w[static_cast<size_t>(f)].empty() && f == 14 ? 12 : f; !w[static_cast<size_t>(k)].empty())
                c->simple[cp] = hexval(w[static_cast<size_t>(k)]);
        g.ccc[cp] = static_cast<u8>(std::atoi(string(w[3]).c_str()));
        g.mc[cp] = w[2] == "Mc";
        auto d = w[5];
        if (d.empty())
            return;
        bool const compat = d[0] == '<';
        if (compat)
        {
            g.tag[cp] = string(d.substr(1, d.find('>') - 1));
            d = trim(d.substr(d.find('>') + 1));
        }
        vector<u32> m;
        for (size_t i = 0; i < d.size();)
        {
            auto const j = std::min(d.find(' ', i), d.size());
            m.push_back(hexval(d.substr(i, j - i)));
            i = j + 1;
        }
        (compat ? g.compat : g.canon)[cp] = m;
        if (!compat && m.size() == 2 && !g.exclusion[cp])
            g.compose[(u64 { m[0] } << 32) | m[1]] = cp;
    });
    // columns of a codepoint
    vector<u8> zero(N, 0);
    ranges("extracted/DerivedGeneralCategory.txt", [&](u32 lo, u32 hi, auto const& w) {
        for (auto const* k: { "Cc", "Me", "Cf", "Zl", "Mn", "Zp", "Mc", "Cs" })
            if (w[1] == k)
                for (u32 c = lo; c <= hi; ++c)
                    zero[c] = !(w[1] == "Cf" && (g.gcb[c] == G_Prepend || c == 0xAD)); // formats that are drawn
    });
    g.width.assign(N, 1);
    ranges("EastAsianWidth.txt", [&](u32 lo, u32 hi, auto const& w) {
        if (w[1] == "W" || w[1] == "F")
            fill(g.width, lo, hi, 2);
    });
    for (u32 c = 0; c < N; ++c)
        g.width[c] = zero[c] || g.gcb[c] == G_V || g.gcb[c] == G_T ? u8 { 0 } : g.ccs[c] & 1 ? u8 { 2 } : g.width[c];
    // emoji tokens
    g.emojiCat.assign(N, 255);
    for (u32 c = 0; c < N; ++c)
    {
        auto& k = g.emojiCat[c];
        auto const f = g.ccs[c];
        if (c == 0x20E3)
            k = 8;
        else if (c == 0x20E0)
            k = 9;
        else if (c == 0x200D)
            k = 10;
        else if (c == 0xFE0E)
            k = 11;
        else if (c == 0xFE0F)
            k = 12;
        else if (c == 0x1F3F4)
            k = 13;
        else if ((c >= 0xE0030 && c <= 0xE0039) || (c >= 0xE0061 && c <= 0xE007A))
            k = 14;
        else if (c == 0xE007F)
            k = 15;
        else if (f & 4)
            k = 3;
        else if (f & 2)
            k = 4;
        else if (g.gcb[c] == G_RI)
            k = 6;
        else if ((c >= '0' && c <= '9') || c == '#' || c == '*')
            k = 7;
        else if (f & 1)
            k = 2;
        else if (f & 8)
            k = 1;
    }
    // scripts
    g.scriptNames.push_back("");
    g.script.assign(N, 0);
    std::map<string, uint16_t> scriptNo;
    auto const number = [&](string const& name) {
        auto const [i, fresh] = scriptNo.emplace(name, static_cast<uint16_t>(g.scriptNames.size()));
        if (fresh)
            g.scriptNames.push_back(name);
        return i->second;
    };
    ranges("Scripts.txt", [&](u32 lo, u32 hi, auto const& w) { std::fill(g.script.begin() + lo, g.script.begin() + hi + 1, number(string(w[1]))); });
    std::map<string, uint16_t, std::less<>> abbreviated;
    lines(slurp("PropertyValueAliases.txt"), [&](auto const& w) {
        if (w[0] == "sc")
            abbreviated[string(w[1])] = number(string(w[2]));
    });
    ranges("ScriptExtensions.txt", [&](u32 lo, u32 hi, auto const& w) {
        vector<uint16_t> v;
        for (string_view d = w[1]; !d.empty();)
        {
            auto const j = std::min(d.find(' '), d.size());
            if (auto const k = trim(d.substr(0, j)); !k.empty())
                v.push_back(abbreviated.find(k)->second);
            d.remove_prefix(std::min(j + 1, d.size()));
        }
        for (u32 c = lo; c <= hi; ++c)
            g.scriptExt[c] = v;
    });
    // ranges (<..., First>) carry no combining class or decomposition, so single entries are enough
    for (auto const* m: { &g.canon, &g.compat })
        for (auto const& [cp, _]: *m)
        {
            vector<u32> a, b;
            expand(cp, false, a);
            expand(cp, true, b);
            if (a.size() != 1 || a[0] != cp)
                g.fullCanon[cp] = a;
            g.fullCompat[cp] = b;
        }
    g.ok = true;
}

namespace
{
    u8 at(vector<u8> const& v, u32 cp) { return cp < v.size() ? v[cp] : u8 { 0 }; }
} // namespace

u8 ccc(u32 cp) { return at(g.ccc, cp); }

namespace
{
// `indicators`: how many regional indicators stand before i, if known
bool breakBefore(u32string_view t, size_t i, size_t indicators)
{
    if (i == 0 || i >= t.size())
        return true;
    // values beyond U+10FFFF, as damaged UTF-8 may decode to, are taken as U+0000
    auto const G = [&](size_t i) { return t[i] < 0x110000 ? at(g.gcb, t[i]) : u8 { G_Control }; };
    auto const isCtl = [](u8 x) { return x == G_Control || x == G_CR || x == G_LF; };
    auto const a = G(i - 1), b = G(i);
    bool brk = true;
    if (a == G_CR && b == G_LF) // GB3
        brk = false;
    else if (isCtl(a) || isCtl(b)) // GB4, GB5
        brk = true;
    else if (a == G_L && (b == G_L || b == G_V || b == G_LV || b == G_LVT)) // GB6
        brk = false;
    else if ((a == G_LV || a == G_V) && (b == G_V || b == G_T)) // GB7
        brk = false;
    else if ((a == G_LVT || a == G_T) && b == G_T) // GB8
        brk = false;
    else if (b == G_Extend || b == G_ZWJ) // GB9
        brk = false;
    else if (b == G_SpacingMark) // GB9a
        brk = false;
    else if (a == G_Prepend) // GB9b
        brk = false;
    else
    {
        if (at(g.incb, t[i]) == I_Consonant) // GB9c
        {
            bool linker = false;
            for (size_t k = i; k-- > 0;)
            {
                auto const x = at(g.incb, t[k]);
                if (x == I_Linker)
                    linker = true;
                else if (x == I_Extend)
                    continue;
                else
                {
                    if (x == I_Consonant && linker)
                        brk = false;
                    break;
                }
            }
        }
        if (brk && a == G_ZWJ && at(g.extpict, t[i])) // GB11
        {
            size_t k = i - 1;
            while (k > 0 && G(k - 1) == G_Extend)
                --k;
            if (k > 0 && at(g.extpict, t[k - 1]))
                brk = false;
        }
        if (brk && a == G_RI && b == G_RI) // GB12, GB13
        {
            size_t count = 0;
            if (indicators != string::npos)
                count = indicators;
            else
                for (size_t k = i; k-- > 0 && G(k) == G_RI;)
                    ++count;
            if (count % 2 == 1)
                brk = false;
        }
    }
    return brk;
}
} // namespace

bool graphemeBreakBefore(u32string_view t, size_t i) { return breakBefore(t, i, string::npos); }

vector<bool> graphemeBreaks(u32string_view t)
{
    vector<bool> r(t.size() + 1, true);
    size_t indicators = 0;
    for (size_t i = 1; i < t.size(); ++i)
    {
        indicators = t[i - 1] < 0x110000 && at(g.gcb, t[i - 1]) == G_RI ? indicators + 1 : 0;
        r[i] = breakBefore(t, i, indicators);
    }
    return r;
}

vector<bool> wordBreaks(u32string_view t)
{
    auto const n = t.size();
    vector<bool> r(n + 1, true);
    if (!n)
        return r;
    auto const W = [&](size_t i) { return at(g.wb, t[i]); };
    auto const transparent = [](u8 x) { return x == W_Extend || x == W_Format || x == W_ZWJ; };
    auto const nl = [](u8 x) { return x == W_Newline || x == W_CR || x == W_LF; };
    auto const ahl = [](u8 x) { return x == W_ALetter || x == W_Hebrew; };
    auto const mnlq = [](u8 x) { return x == W_MidNumLet || x == W_SQ; };
    // index of the last codepoint before i that WB4 does not ignore, or npos
    auto const before = [&](size_t i) -> size_t {
        while (i > 0)
        {
            --i;
            if (!transparent(W(i)))
                return i;
            if (i == 0 || nl(W(i - 1))) // not preceded by anything to attach to: it stands for itself
                return i;
        }
        return string::npos;
    };
    auto const after = [&](size_t i) -> size_t {
        for (++i; i < n; ++i)
            if (!transparent(W(i)))
                return i;
        return string::npos;
    };
    auto const val = [&](size_t i) -> u8 {
        if (i == string::npos)
            return W_Other;
        auto const x = W(i);
        return transparent(x) ? u8 { W_Other } : x;
    };
    // regional indicators up to and with i, not counting what WB4 ignores
    vector<size_t> indicators(n, 0);
    for (size_t i = 0; i < n; ++i)
        if (W(i) == W_RI)
        {
            auto const k = before(i);
            indicators[i] = 1 + (k == string::npos ? 0 : indicators[k]);
        }
    for (size_t i = 1; i < n; ++i)
    {
        auto const rawA = W(i - 1), b = W(i);
        bool brk = true;
        if (rawA == W_CR && b == W_LF) // WB3
            brk = false;
        else if (nl(rawA) || nl(b)) // WB3a, WB3b
            brk = true;
        else if (rawA == W_ZWJ && at(g.extpict, t[i])) // WB3c
            brk = false;
        else if (rawA == W_WSegSpace && b == W_WSegSpace) // WB3d
            brk = false;
        else if (transparent(b)) // WB4
            brk = false;
        else
        {
            auto const ia = before(i);
            auto const a = val(ia);
            auto const ib = ia == string::npos ? string::npos : before(ia);
            auto const aa = val(ib);
            auto const ic = after(i);
            auto const c = val(ic);
            if (ahl(a) && ahl(b)) // WB5
                brk = false;
            else if (ahl(a) && (b == W_MidLetter || mnlq(b)) && ahl(c)) // WB6
                brk = false;
            else if (ahl(aa) && (a == W_MidLetter || mnlq(a)) && ahl(b)) // WB7
                brk = false;
            else if (a == W_Hebrew && b == W_SQ) // WB7a
                brk = false;
            else if (a == W_Hebrew && b == W_DQ && c == W_Hebrew) // WB7b
                brk = false;
            else if (aa == W_Hebrew && a == W_DQ && b == W_Hebrew) // WB7c
                brk = false;
            else if (a == W_Numeric && b == W_Numeric) // WB8
                brk = false;
            else if (ahl(a) && b == W_Numeric) // WB9
                brk = false;
            else if (a == W_Numeric && ahl(b)) // WB10
                brk = false;
            else if (aa == W_Numeric && (a == W_MidNum || mnlq(a)) && b == W_Numeric) // WB11
                brk = false;
            else if (a == W_Numeric && (b == W_MidNum || mnlq(b)) && c == W_Numeric) // WB12
                brk = false;
            else if (a == W_Katakana && b == W_Katakana) // WB13
                brk = false;
            else if ((ahl(a) || a == W_Numeric || a == W_Katakana || a == W_ExtendNumLet) && b == W_ExtendNumLet) // WB13a
                brk = false;
            else if (a == W_ExtendNumLet && (ahl(b) || b == W_Numeric || b == W_Katakana)) // WB13b
                brk = false;
            else if (a == W_RI && b == W_RI) // WB15, WB16
            {
                if (indicators[ia] % 2 == 1)
                    brk = false;
            }
        }
        r[i] = brk;
    }
    return r;
}

u32string normalize(u32string_view text, Form form)
{
    bool const compat = form == NFKC || form == NFKD;
    bool const compose = form == NFC || form == NFKC;
    vector<u32> d;
    for (u32 c: text)
    {
        if (c >= 0xAC00 && c < 0xAC00 + 11172)
            expand(c, compat, d);
        else
        {
            auto const& m = compat ? g.fullCompat : g.fullCanon;
            if (auto const i = m.find(c); i != m.end())
                d.insert(d.end(), i->second.begin(), i->second.end());
            else
                d.push_back(c);
        }
    }
    for (size_t i = 0; i < d.size();)
    {
        if (!ccc(d[i]))
        {
            ++i;
            continue;
        }
        size_t j = i;
        while (j < d.size() && ccc(d[j]))
            ++j;
        std::stable_sort(d.begin() + static_cast<long>(i), d.begin() + static_cast<long>(j), [](u32 a, u32 b) { return ccc(a) < ccc(b); });
        i = j;
    }
    if (compose)
    {
        constexpr size_t none = ~size_t { 0 };
        vector<u32> o;
        size_t starter = none;
        for (auto const c: d)
        {
            bool done = false;
            if (starter != none)
            {
                bool const adjacent = o.size() - 1 == starter;
                // blocked if something between has ccc 0 or ccc >= ccc(c)
                bool const blocked = !adjacent && (ccc(o.back()) == 0 || ccc(o.back()) >= ccc(c));
                if (!blocked)
                {
                    u32 const s = o[starter];
                    u32 p = 0;
                    if (s >= 0x1100 && s < 0x1113 && c >= 0x1161 && c < 0x1176)
                        p = 0xAC00 + ((s - 0x1100) * 21 + (c - 0x1161)) * 28;
                    else if (s >= 0xAC00 && s < 0xAC00 + 11172 && (s - 0xAC00) % 28 == 0 && c > 0x11A7 && c < 0x11C3)
                        p = s + (c - 0x11A7);
                    else if (auto const i = g.compose.find((u64 { s } << 32) | c); i != g.compose.end())
                        p = i->second;
                    if (p)
                    {
                        o[starter] = p;
                        done = true;
                    }
                }
            }
            if (!done)
            {
                o.push_back(c);
                if (!ccc(c))
                    starter = o.size() - 1;
            }
        }
        d = std::move(o);
    }
    return { d.begin(), d.end() };
}

u32 simpleCase(Ucd::Case const& c, u32 cp)
{
    auto const i = c.simple.find(cp);
    return i == c.simple.end() ? cp : i->second;
}

u32string fullCase(Ucd::Case const& c, u32 cp)
{
    if (auto const i = c.special.find(cp); i != c.special.end())
        return { i->second.begin(), i->second.end() };
    return u32string(1, static_cast<char32_t>(simpleCase(c, cp)));
}

u32string mapCase(Ucd::Case const& c, u32string_view text)
{
    u32string r;
    for (auto const cp: text)
        r += fullCase(c, static_cast<u32>(cp));
    return r;
}

u32string titleCase(u32string_view text)
{
    auto const breaks = wordBreaks(text);
    u32string r;
    bool inWord = false; // a letter of this word has been seen
    for (size_t i = 0; i < text.size(); ++i)
    {
        auto const cp = static_cast<u32>(text[i]);
        inWord = inWord && !breaks[i];
        if (cp >= 0x110000 || !(g.letter[cp] & 1))
            r += text[i];
        else
        {
            r += fullCase(inWord ? g.lower : g.title, cp);
            inWord = true;
        }
    }
    return r;
}

string encode(u32 c)
{
    string r;
    if (c < 0x80)
        r += static_cast<char>(c);
    else if (c < 0x800)
    {
        r += static_cast<char>(0xC0 | c >> 6);
        r += static_cast<char>(0x80 | (c & 63));
    }
    else if (c < 0x10000)
    {
        r += static_cast<char>(0xE0 | c >> 12);
        r += static_cast<char>(0x80 | (c >> 6 & 63));
        r += static_cast<char>(0x80 | (c & 63));
    }
    else
    {
        r += static_cast<char>(0xF0 | (c >> 18 & 7));
        r += static_cast<char>(0x80 | (c >> 12 & 63));
        r += static_cast<char>(0x80 | (c >> 6 & 63));
        r += static_cast<char>(0x80 | (c & 63));
    }
    return r;
}

string encode(u32string_view t)
{
    string r;
    for (auto c: t)
        r += encode(static_cast<u32>(c));
    return r;
}

vector<Unit> decodeUtf8(string_view t)
{
    vector<Unit> r;
    for (size_t i = 0; i < t.size();)
    {
        auto const b = static_cast<u8>(t[i]);
        size_t const len = b < 0x80 ? 1 : (b & 0xE0) == 0xC0 ? 2 : (b & 0xF0) == 0xE0 ? 3 : (b & 0xF8) == 0xF0 ? 4 : 0;
        if (!len)
        {
            r.push_back({ i, 1, false, false, 0 });
            ++i;
            continue;
        }
        u32 cp = len == 1 ? b : b & (0x7Fu >> len);
        size_t k = 1;
        while (k < len && i + k < t.size() && (static_cast<u8>(t[i + k]) & 0xC0) == 0x80)
        {
            cp = cp << 6 | (static_cast<u8>(t[i + k]) & 0x3F);
            ++k;
        }
        r.push_back({ i, k, k == len, k < len && i + k == t.size(), cp });
        i += k;
    }
    return r;
}

void Width::push(u32 cp, unsigned cpWidth)
{
    bool const isRi = at(g.gcb, cp) == G_RI;
    auto const riBefore = ri;
    ri = isRi ? ri + 1 : 0;
    if (skip) // swallowed by the ZWJ before it
    {
        skip = false;
        return;
    }
    if (cp == 0x200D)
    {
        if (!virama)
        {
            skip = true;
            baseWidth = 0;
        }
        return;
    }
    if (cp == 0xFE0F && open)
    {
        if (at(g.vsbase, base) && baseOwn == 1)
            current = 2;
        open = false;
        return;
    }
    if (cp == 0xFE0E && open)
    {
        if (at(g.vsbase, base) && baseWidth == 2)
            closed -= 1;
        return;
    }
    if (isRi && riBefore % 2 == 1)
    {
        base = cp;
        baseOwn = cpWidth;
        return;
    }
    if (cp >= 0x1F3FB && cp <= 0x1F3FF && (at(g.extpict, base) || at(g.gcb, base) == G_RI))
        return;
    if (cpWidth)
    {
        if (virama)
            current = 2;
        else
        {
            closed += current;
            current = static_cast<int>(cpWidth);
        }
        base = cp;
        baseOwn = cpWidth;
        baseWidth = static_cast<int>(cpWidth);
        open = true;
        virama = false;
        return;
    }
    if (at(g.virama, cp))
    {
        virama = true;
        return;
    }
    if (at(g.mc, cp) && open)
    {
        current = 2;
        open = false;
    }
    virama = false;
}

} // namespace sim::ref
