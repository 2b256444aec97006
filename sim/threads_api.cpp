#include "threads_api.h"

#include <libunicode/capi.h>
#include <libunicode/case_mapping.h>
#include <libunicode/codepoint_properties.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_fmt.h>
#include <libunicode/ucd_ostream.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>

#include <iterator>
#include <format>
#include <sstream>
#include <variant>

namespace sim::thr
{
namespace
{
    using namespace unicode;
    using u64 = std::uint64_t;

    struct Digest
    {
        u64 h = 0xcbf29ce484222325ull;
        void num(u64 v) { h = (h ^ v) * 0x100000001b3ull, h ^= h >> 31; }
        template <typename C>
        void seq(C const& c)
        {
            num(static_cast<u64>(c.size()));
            for (auto x: c)
                num(static_cast<u64>(x));
        }
    };

    struct Receiver final: grapheme_cluster_receiver
    {
        Digest& d;
        char const* base;
        Receiver(Digest& to, char const* b): d { to }, base { b } {}
        void add(u64 w, std::string_view t, size_t n)
        {
            d.num(w);
            d.num(static_cast<u64>(t.data() - base));
            d.num(t.size());
            d.num(n);
        }
        void receiveAsciiSequence(std::string_view t) noexcept override { add(1, t, 0); }
        void receiveGraphemeCluster(std::string_view t, size_t n) noexcept override { add(2, t, n); }
        void receiveInvalidGraphemeCluster() noexcept override { d.num(3); }
    };

    char const* const names[] { "scan_text", "scan_text with its default receiver", "UTF-8 to UTF-32", "UTF-8 to UTF-16", "UTF-32 to UTF-8", "UTF-16 to UTF-32", "from_utf8 and to_utf8", "normalize UTF-32", "normalize UTF-8", "is_normalized", "quick_check and equivalence",
                                "streaming normalizer", "streaming UTF-8 normalizer", "decompositions", "case mapping UTF-32", "case mapping UTF-8", "case folding", "grapheme segmenter", "UTF-8 grapheme segmenter", "word segmenter", "emoji segmenter", "script segmenter",
                                "run segmenter", "cluster width", "C counting and measuring", "C stream", "C conversion", "codepoint properties", "codepoint names", "UCD queries", "UCD ranges",
                                "case mapping of codepoints", "quick checks and Hangul", "comparisons", "incremental segmentation", "wide strings and single codepoints", "formatting" };

    u64 scan(Shared const& in, unsigned v, bool receiver)
    {
        Digest d;
        scan_state st {};
        std::string_view rest = in.utf8;
        size_t const columns = v % 3 == 0 ? 1000 : 4 + v % 77;
        for (int guard = 0; !rest.empty() && guard < 64; ++guard)
        {
            auto const* const base = rest.data();
            Receiver r { d, base };
            auto const res = receiver ? scan_text(st, rest, columns, r) : scan_text(st, rest, columns);
            d.num(res.count);
            d.num(static_cast<u64>(res.start - base));
            d.num(static_cast<u64>(res.end - base));
            d.num(static_cast<u64>(st.next - base));
            auto const used = static_cast<size_t>(st.next - base);
            if (used >= rest.size())
                break;
            // a control character, or the end of the line
            rest.remove_prefix(used ? used : 1);
            st.next = nullptr;
        }
        return d.h;
    }
} // namespace

int const apiCount = static_cast<int>(std::size(names));
char const* apiName(int api) { return names[api]; }

u64 callApi(int api, Shared const& in, unsigned v)
{
    Digest d;
    std::u32string_view const t = in.u32;
    std::string_view const s = in.utf8;
    auto const form = static_cast<Normalization_Form>(v & 3);
    switch (api)
    {
        case 0: return scan(in, v, true);
        case 1: return scan(in, v, false);
        case 2: d.seq(convert_to<char32_t>(s)); break;
        case 3: d.seq(convert_to<char16_t>(s)); break;
        case 4: d.seq(convert_to<char>(t)); break;
        case 5: d.seq(convert_to<char32_t>(std::u16string_view(in.u16))); break;
        case 6: {
            utf8_decoder_state st {};
            for (char c: s)
            {
                auto const r = from_utf8(st, static_cast<std::uint8_t>(c));
                d.num(r.index());
                if (std::holds_alternative<Success>(r))
                    d.num(std::get<Success>(r).value);
            }
            d.seq(to_utf8(t));
            break;
        }
        case 7: d.seq(normalize(t, form)); break;
        case 8: d.seq(normalize(s, form)); break;
        case 9:
            d.num(is_normalized(t, form));
            d.num(is_normalized(s, form));
            break;
        case 10:
            d.num(static_cast<u64>(quick_check(t, form)));
            d.num(static_cast<u64>(quick_check(s, form)));
            d.num(is_canonically_equivalent(t, t.substr(0, t.size() / 2)));
            d.num(is_compatibility_equivalent(t, t));
            break;
        case 11: {
            normalizer n(form);
            for (auto c: t)
                d.seq(n.feed(c));
            d.seq(n.flush());
            break;
        }
        case 12: {
            utf8_normalizer n(form);
            for (size_t i = 0; i < s.size(); i += 1 + v % 7)
                d.seq(n.feed(s.substr(i, 1 + v % 7)));
            d.seq(n.flush());
            break;
        }
        case 13:
            for (auto c: t)
            {
                d.seq(canonical_decomposition(c));
                d.seq(compatibility_decomposition(c));
                d.num(canonical_combining_class(c));
                d.num(static_cast<u64>(decomposition_type(c)));
            }
            break;
        case 14:
            d.seq(to_uppercase(t));
            d.seq(to_lowercase(t));
            d.seq(to_titlecase(t));
            break;
        case 15:
            d.seq(to_uppercase(s));
            d.seq(to_lowercase(s));
            d.seq(to_titlecase(s));
            break;
        case 16:
            d.seq(casefold(t));
            d.seq(casefold(s));
            d.num(casefold_equals(s, s));
            break;
        case 17:
            for (auto seg = grapheme_segmenter(t);; ++seg)
            {
                d.seq(*seg);
                if (!seg.codepointsAvailable())
                    break;
            }
            break;
        case 18: {
            utf8_grapheme_segmenter const seg(s);
            for (auto const& c: seg)
                d.seq(c);
            break;
        }
        case 19:
            for (auto seg = word_segmenter(t);; ++seg)
            {
                d.seq(*seg);
                if (!seg.codepointsAvailable())
                    break;
            }
            break;
        case 20: {
            emoji_segmenter seg(t);
            size_t size = 0;
            PresentationStyle style {};
            for (size_t k = 0; k <= t.size() && seg.consume(out(size), out(style)); ++k)
            {
                d.num(size);
                d.num(static_cast<u64>(style));
            }
            break;
        }
        case 21: {
            script_segmenter seg(t);
            for (size_t k = 0; k <= t.size(); ++k)
            {
                auto const r = seg.consume();
                if (!r)
                    break;
                d.num(r->size);
                d.num(static_cast<u64>(r->script));
            }
            break;
        }
        case 22: {
            run_segmenter seg(t);
            run_segmenter::range r;
            for (size_t k = 0; k <= t.size() && seg.consume(out(r)); ++k)
            {
                d.num(r.start);
                d.num(r.end);
                d.num(static_cast<u64>(std::get<Script>(r.properties)));
                d.num(static_cast<u64>(std::get<PresentationStyle>(r.properties)));
            }
            break;
        }
        case 23:
            d.num(static_cast<u64>(grapheme_cluster_width(t)));
            for (auto c: t)
                d.num(static_cast<u64>(width(c)));
            break;
        case 24: {
            auto const* const p = reinterpret_cast<u32_char_t const*>(t.data());
            d.num(static_cast<u64>(u32_gc_count(p, t.size())));
            d.num(static_cast<u64>(u8_gc_count(s.data(), s.size())));
            d.num(static_cast<u64>(u32_gc_width(p, t.size(), 1)));
            d.num(static_cast<u64>(u8_gc_width(s.data(), s.size(), static_cast<int>(v & 1))));
            break;
        }
        case 25: {
            auto h = u8u32_stream_convert_create();
            u32_char_t o = 0;
            for (char c: s)
                if (u8u32_stream_convert_run(h, c, &o))
                    d.num(o);
            u8u32_stream_convert_destroy(&h);
            break;
        }
        case 26: {
            char buf[600];
            auto const n = u32u8_convert(reinterpret_cast<u32_char_t const*>(t.data()), t.size(), buf, sizeof buf);
            d.num(static_cast<u64>(n));
            if (n > 0)
                d.seq(std::string_view(buf, static_cast<size_t>(n)));
            break;
        }
        case 27:
            for (auto c: t)
            {
                auto const p = codepoint_properties::get(c);
                auto const* const b = reinterpret_cast<unsigned char const*>(&p);
                for (size_t i = 0; i < sizeof p; ++i)
                    d.num(b[i]);
            }
            break;
        case 28:
            for (auto c: t)
                d.seq(codepoint_properties::name(c));
            break;
        case 29:
            for (auto c: t)
            {
                d.num(static_cast<u64>(general_category::get(c)));
                d.num(static_cast<u64>(script(c)));
                if (auto const e = script_extensions(c))
                    for (auto x: *e)
                        d.num(static_cast<u64>(x));
                d.num(static_cast<u64>(block(c)));
                d.num(static_cast<u64>(grapheme_cluster_break(c)));
                d.num(static_cast<u64>(east_asian_width(c)));
                d.num(is_emoji(c) | is_emoji_component(c) << 1 | is_emoji_modifier(c) << 2 | is_extended_pictographic(c) << 3);
                d.num(is_mirrored(c));
                d.num(bidi_mirroring_glyph(c));
                d.num(static_cast<u64>(plane(c)));
            }
            break;
        case 31:
            for (auto c: t)
            {
                d.num(simple_uppercase(c));
                d.num(simple_lowercase(c));
                d.num(simple_titlecase(c));
                d.num(simple_casefold(c));
                for (auto const& r: { full_uppercase(c), full_lowercase(c), full_titlecase(c), full_casefold(c) })
                {
                    d.num(r.length);
                    d.num(r.is_identity());
                    for (size_t i = 0; i < r.length; ++i)
                        d.num(r.codepoints[i]);
                }
                d.num(is_cased(c) | is_case_ignorable(c) << 1 | changes_when_uppercased(c) << 2 | changes_when_lowercased(c) << 3 | changes_when_titlecased(c) << 4 | changes_when_casefolded(c) << 5);
            }
            break;
        case 32:
            for (auto c: t)
            {
                d.num(static_cast<u64>(nfc_quick_check(c)));
                d.num(static_cast<u64>(nfkc_quick_check(c)));
                d.num(nfd_quick_check(c) | nfkd_quick_check(c) << 1 | is_composition_exclusion(c) << 2 | is_full_composition_exclusion(c) << 3);
                char32_t const syllable = 0xAC00 + (c * 2654435761u) % 11172;
                char32_t jamo[3] {};
                auto const n = hangul_decompose(syllable, jamo);
                d.num(n);
                d.num(hangul_compose(jamo[0], jamo[1], n > 2 ? jamo[2] : 0));
                d.num(is_hangul_syllable(c) | is_hangul_l_jamo(c) << 1 | is_hangul_v_jamo(c) << 2 | is_hangul_t_jamo(c) << 3);
            }
            break;
        case 33: {
            std::u32string const other(t.rbegin(), t.rend());
            auto const other8 = to_utf8(other);
            d.num(static_cast<u64>(casefold_compare(t, other) > 0));
            d.num(static_cast<u64>(casefold_compare(s, other8) > 0));
            d.num(casefold_equals(t, other));
            d.num(casefold_equals(t, to_uppercase(t)));
            d.num(is_canonically_equivalent(s, other8));
            d.num(is_compatibility_equivalent(s, other8));
            d.num(is_canonically_equivalent(t, normalize(t, form)));
            d.num(is_compatibility_equivalent(t, normalize(t, form)));
            break;
        }
        case 34:
            if (!t.empty())
            {
                grapheme_segmenter_state g {};
                word_segmenter_state w {};
                grapheme_process_init(t[0], g);
                word_process_init(t[0], w);
                for (size_t i = 1; i < t.size(); ++i)
                {
                    d.num(grapheme_process_breakable(t[i], g));
                    d.num(word_process_breakable(t[i], t.data() + i + 1, t.size() - i - 1, w));
                    d.num(static_cast<u64>(u32_grapheme_unbreakable(t[i - 1], t[i])));
                }
            }
            break;
        case 35: {
            d.seq(convert_to<wchar_t>(s));
            d.seq(convert_to<char16_t>(t));
            d.seq(convert_to<char>(std::u16string_view(in.u16)));
            d.seq(from_utf8<char32_t>(s));
            d.num(grapheme_cluster_width(s));
            for (auto c: t.substr(0, 8))
            {
                auto const one = to_utf8(c);
                size_t n = 0;
                auto const r = from_utf8(one.data(), &n);
                d.num(r.index());
                d.num(n);
            }
            break;
        }
        case 36:
            for (auto c: t.substr(0, 6))
            {
                auto const p = codepoint_properties::get(c);
                d.seq(std::format("{} {} {} {} {} {}", p.script, p.grapheme_cluster_break, p.general_category, block(c), p.word_break, p.age));
                std::ostringstream os;
                os << p.east_asian_width << p.script << p.general_category;
                d.seq(os.str());
                d.seq(to_string(static_cast<EastAsianWidth>(static_cast<unsigned>(c) % 7)));
            }
            break;
        default:
            for (auto c: t)
            {
                for (int k = 0; k < 10; ++k)
                    d.num(contains(static_cast<Core_Property>((v + static_cast<unsigned>(k)) % 19), c));
                d.num(contains(static_cast<General_Category>(v % 30), c));
            }
            for (char const* a: { "1.1", "15.0", "9.0", "x" })
                d.num(make_age(a) ? static_cast<u64>(*make_age(a)) : 1000);
            break;
    }
    return d.h;
}
} // namespace sim::thr
