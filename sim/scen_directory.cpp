// C21, C22: a directory of names, replicated over a lossy network by nodes that keep names in different forms.
#include "ref.h"
#include "scen.h"
#include "text.h"

#include <libunicode/case_mapping.h>
#include <libunicode/convert.h>
#include <libunicode/normalization.h>

#include <algorithm>
#include <memory>

namespace sim
{
namespace
{
    // CREATE {node, time, id, name, variant}; MESSAGE {node, time, id, decoder, damage, where, value}; CRASH {node, time, torn, down for};
    // CUT {nodes, time, for}; SYNC {node, time}; NAME {index, times} b
    enum : int { K_NAME = 1, K_CREATE = 10, K_MESSAGE = 11, K_CRASH = 12, K_CUT = 13, K_SYNC = 14 };
    using unicode::Normalization_Form;
    using unicode::Quick_Check_Result;
    constexpr Normalization_Form forms[] { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
    constexpr ref::Form refForms[] { ref::NFC, ref::NFD, ref::NFKC, ref::NFKD };
    constexpr char const* formNames[] { "NFC", "NFD", "NFKC", "NFKD" };

    // A text in memory of exactly its size.
    template <typename T>
    struct Exact
    {
        std::unique_ptr<T[]> p;
        std::basic_string_view<T> v;
        explicit Exact(std::basic_string_view<T> s): p { new T[s.size()] }, v { p.get(), s.size() } { std::copy(s.begin(), s.end(), p.get()); }
    };

    struct Name
    {
        u32string raw;
        string bytes;
        explicit Name(u32string r): raw(std::move(r)), bytes(ref::encode(raw)) {}
    };

    bool scalar(u32string_view s)
    {
        return std::all_of(s.begin(), s.end(), [](char32_t c) { return c < 0xD800 || (c >= 0xE000 && c < 0x110000); });
    }

    int sign(int x) { return x < 0 ? -1 : x > 0; }

    // ---------------------------------------------------------------- C21

    void inspectForm(Name const& x, Ctx& ctx)
    {
        Exact<char32_t> const t(x.raw);
        Exact<char> const b(x.bytes);
        auto const& u = ref::ucd();
        for (int f = 0; f < 4; ++f)
        {
            bool const is = ref::normalize(x.raw, refForms[f]) == x.raw;
            for (bool utf8: { false, true })
            {
                auto const q = utf8 ? unicode::quick_check(b.v, forms[f]) : unicode::quick_check(t.v, forms[f]);
                ctx.log.num(static_cast<u64>(q));
                if (is ? q == Quick_Check_Result::No : q == Quick_Check_Result::Yes)
                    return ctx.violate("quick-check", string(formNames[f]) + (is ? " No for " : " Yes for ") + show(x.raw));
                if ((f & 1) && q == Quick_Check_Result::Maybe)
                    return ctx.violate("quick-check-maybe", string(formNames[f]) + " Maybe for " + show(x.raw));
                if ((utf8 ? unicode::is_normalized(b.v, forms[f]) : unicode::is_normalized(t.v, forms[f])) != is)
                    return ctx.violate("is-normalized", string(formNames[f]) + (is ? " denied for " : " claimed for ") + show(x.raw));
            }
            bool const named[] { f == 0 ? unicode::is_nfc(t.v) : f == 1 ? unicode::is_nfd(t.v) : f == 2 ? unicode::is_nfkc(t.v) : unicode::is_nfkd(t.v),
                                 f == 0 ? unicode::is_nfc(b.v) : f == 1 ? unicode::is_nfd(b.v) : f == 2 ? unicode::is_nfkc(b.v) : unicode::is_nfkd(b.v) };
            if (named[0] != is || named[1] != is)
                return ctx.violate("is-normalized", string(formNames[f]) + " (by name) is wrong for " + show(x.raw));
        }
        auto last = char32_t { 0xFFFFFFFF };
        size_t seen = 0;
        for (size_t i = 0; i < x.raw.size(); ++i)
        {
            auto const c = x.raw[i];
            auto const cp = static_cast<u32>(c);
            if (c == last || ++seen > 64)
                continue;
            last = c;
            auto const wrong = [&](char const* what) { ctx.violate(what, "of " + show(u32string(1, c))); };
            if (unicode::canonical_combining_class(c) != u.ccc[cp])
                return wrong("combining-class");
            auto const q = u.quick[cp];
            if (unicode::nfc_quick_check(c) != ((q & 1) ? unicode::NFC_Quick_Check::No : (q & 2) ? unicode::NFC_Quick_Check::Maybe : unicode::NFC_Quick_Check::Yes)
                || unicode::nfkc_quick_check(c) != ((q & 4) ? unicode::NFKC_Quick_Check::No : (q & 8) ? unicode::NFKC_Quick_Check::Maybe : unicode::NFKC_Quick_Check::Yes)
                || unicode::nfd_quick_check(c) != !(q & 16) || unicode::nfkd_quick_check(c) != !(q & 32))
                return wrong("quick-check-property");
            if (unicode::is_full_composition_exclusion(c) != static_cast<bool>(u.exclusion[cp]))
                return wrong("composition-exclusion");
            for (bool compat: { false, true })
            {
                auto const d = compat ? unicode::compatibility_decomposition(c) : unicode::canonical_decomposition(c);
                auto const full = ref::normalize(u32string(1, c), compat ? ref::NFKD : ref::NFD);
                if (d.empty() ? full != u32string(1, c) : ref::normalize(u32string(d.begin(), d.end()), compat ? ref::NFKD : ref::NFD) != full)
                    return wrong("decomposition");
            }
            bool const syllable = cp >= 0xAC00 && cp < 0xAC00 + 11172;
            {
                using T = unicode::Decomposition_Type;
                static std::map<string_view, T> const types { { "circle", T::Circle }, { "compat", T::Compat }, { "final", T::Final }, { "font", T::Font }, { "fraction", T::Fraction }, { "initial", T::Initial }, { "isolated", T::Isolated }, { "medial", T::Medial }, { "narrow", T::Narrow }, { "noBreak", T::Nobreak }, { "small", T::Small }, { "square", T::Square }, { "sub", T::Sub }, { "super", T::Super }, { "vertical", T::Vertical }, { "wide", T::Wide } };
                auto const tag = u.tag.find(cp);
                if (unicode::decomposition_type(c) != (syllable || u.canon.count(cp) ? T::Canonical : tag == u.tag.end() ? T::None : types.at(tag->second)))
                    return wrong("decomposition-type");
            }
            bool const l = cp >= 0x1100 && cp <= 0x1112, v = cp >= 0x1161 && cp <= 0x1175, k = cp >= 0x11A8 && cp <= 0x11C2;
            if (unicode::is_hangul_syllable(c) != syllable || unicode::is_hangul_l_jamo(c) != l || unicode::is_hangul_v_jamo(c) != v || unicode::is_hangul_t_jamo(c) != k)
                return wrong("hangul-class");
            if (i + 1 < x.raw.size())
            {
                // the next two codepoints, whatever they are
                auto const a = x.raw[i + 1];
                auto const z = i + 2 < x.raw.size() && x.raw[i + 2] ? x.raw[i + 2] : char32_t { 0 };
                auto const whole = [](u32string s, bool jamo) { // the one syllable that s composes to
                    auto const r = ref::normalize(s, ref::NFC);
                    return jamo && r.size() == 1 && r[0] >= 0xAC00 && r[0] < 0xAC00 + 11172 ? r[0] : char32_t { 0 };
                };
                if (unicode::hangul_compose(c, a) != whole({ c, a }, l))
                    return ctx.violate("hangul-compose", show(u32string { c, a }));
                if (z && unicode::hangul_compose(c, a, z) != whole({ c, a, z }, l && a >= 0x1161 && a <= 0x1175))
                    return ctx.violate("hangul-compose", show(u32string { c, a, z }));
            }
        }
    }

    void comparePair(Name const& a, Name const& b, Ctx& ctx)
    {
        Exact<char32_t> const x(a.raw), y(b.raw);
        Exact<char> const p(a.bytes), q(b.bytes);
        for (bool compat: { false, true })
        {
            auto const f = compat ? ref::NFKD : ref::NFD;
            bool const want = ref::normalize(a.raw, f) == ref::normalize(b.raw, f);
            bool const got[] { compat ? unicode::is_compatibility_equivalent(x.v, y.v) : unicode::is_canonically_equivalent(x.v, y.v),
                               compat ? unicode::is_compatibility_equivalent(y.v, x.v) : unicode::is_canonically_equivalent(y.v, x.v),
                               compat ? unicode::is_compatibility_equivalent(p.v, q.v) : unicode::is_canonically_equivalent(p.v, q.v),
                               compat ? unicode::is_compatibility_equivalent(q.v, p.v) : unicode::is_canonically_equivalent(q.v, p.v) };
            for (bool g: got)
            {
                ctx.log.num(g);
                if (g != want)
                    return ctx.violate(compat ? "compatibility-equivalence" : "canonical-equivalence", show(a.raw) + " and " + show(b.raw) + (want ? " are equivalent, denied" : " are not equivalent, claimed"));
            }
            ctx.st.hit(want ? "pairs_equivalent" : "pairs_different");
        }
    }

    // ---------------------------------------------------------------- C22

    void inspectCase(Name const& x, Ctx& ctx)
    {
        Exact<char32_t> const t(x.raw);
        Exact<char> const b(x.bytes);
        auto const& u = ref::ucd();
        u32string const want[] { ref::mapCase(u.upper, x.raw), ref::mapCase(u.lower, x.raw), ref::titleCase(x.raw), ref::mapCase(u.fold, x.raw) };
        u32string const got[] { unicode::to_uppercase(t.v), unicode::to_lowercase(t.v), unicode::to_titlecase(t.v), unicode::casefold(t.v) };
        string const got8[] { unicode::to_uppercase(b.v), unicode::to_lowercase(b.v), unicode::to_titlecase(b.v), unicode::casefold(b.v) };
        static constexpr char const* what[] { "uppercase", "lowercase", "titlecase", "casefold" };
        for (int k = 0; k < 4; ++k)
        {
            ctx.log.str(u32string_view(got[k]));
            if (got[k] != want[k])
                return ctx.violate(what[k], "of " + show(x.raw) + ": got " + show(got[k]) + " expected " + show(want[k]));
            if (got8[k] != ref::encode(want[k]))
                return ctx.violate(what[k], "of UTF-8 " + show(x.raw) + ": got " + show(string_view(got8[k])) + " expected " + show(want[k]));
        }
        size_t seen = 0;
        auto last = char32_t { 0xFFFFFFFF };
        for (auto const c: x.raw)
        {
            auto const cp = static_cast<u32>(c);
            if (c == last || ++seen > 64)
                continue;
            last = c;
            using Simple = char32_t (*)(char32_t) noexcept;
            using Full = unicode::case_mapping_result (*)(char32_t) noexcept;
            using Changes = bool (*)(char32_t) noexcept;
            static constexpr Simple simple[] { unicode::simple_uppercase, unicode::simple_lowercase, unicode::simple_titlecase, unicode::simple_casefold };
            static constexpr Full full[] { unicode::full_uppercase, unicode::full_lowercase, unicode::full_titlecase, unicode::full_casefold };
            static constexpr Changes changes[] { unicode::changes_when_uppercased, unicode::changes_when_lowercased, unicode::changes_when_titlecased, unicode::changes_when_casefolded };
            ref::Ucd::Case const* const model[] { &u.upper, &u.lower, &u.title, &u.fold };
            for (int k = 0; k < 4; ++k)
            {
                auto const s = static_cast<char32_t>(ref::simpleCase(*model[k], cp));
                auto const f = ref::fullCase(*model[k], cp);
                if (simple[k](c) != s)
                    return ctx.violate("simple-mapping", string(what[k]) + " of " + show(u32string(1, c)));
                auto const r = full[k](c);
                if (f == u32string(1, c) ? !r.is_identity() && u32string(r.view()) != f : u32string(r.view()) != f)
                    return ctx.violate("full-mapping", string(what[k]) + " of " + show(u32string(1, c)));
                if (changes[k](c) != (f != u32string(1, c) || s != c))
                    return ctx.violate("changes-when", string(what[k]) + " of " + show(u32string(1, c)));
            }
            if (unicode::is_cased(c) != static_cast<bool>(u.letter[cp] & 1))
                return ctx.violate("is-cased", show(u32string(1, c)));
            if (unicode::is_case_ignorable(c) != static_cast<bool>(u.letter[cp] & 2))
                return ctx.violate("is-case-ignorable", show(u32string(1, c)));
        }
    }

    void compareCaseless(Name const& a, Name const& b, Ctx& ctx)
    {
        Exact<char32_t> const x(a.raw), y(b.raw);
        Exact<char> const p(a.bytes), q(b.bytes);
        auto const& u = ref::ucd();
        auto const want = sign(ref::mapCase(u.fold, a.raw).compare(ref::mapCase(u.fold, b.raw)));
        int const got[] { unicode::casefold_compare(x.v, y.v), -sign(unicode::casefold_compare(y.v, x.v)), unicode::casefold_compare(p.v, q.v), -sign(unicode::casefold_compare(q.v, p.v)) };
        for (int g: got)
        {
            ctx.log.num(static_cast<u64>(sign(g) + 1));
            if (sign(g) != want)
                return ctx.violate("casefold-compare", show(a.raw) + " and " + show(b.raw) + ": got " + std::to_string(sign(g)) + " expected " + std::to_string(want));
        }
        bool const same[] { unicode::casefold_equals(x.v, y.v), unicode::casefold_equals(y.v, x.v), unicode::casefold_equals(p.v, q.v), unicode::casefold_equals(q.v, p.v) };
        for (bool s: same)
            if (s != (want == 0))
                return ctx.violate("casefold-equals", show(a.raw) + " and " + show(b.raw));
        ctx.st.hit(want ? "pairs_different" : "pairs_equivalent");
    }

    // ---------------------------------------------------------------- the system

    struct Less32
    {
        bool operator()(u32string const& a, u32string const& b) const { return unicode::casefold_compare(u32string_view(a), u32string_view(b)) < 0; }
    };
    struct Less8
    {
        bool operator()(string const& a, string const& b) const { return unicode::casefold_compare(string_view(a), string_view(b)) < 0; }
    };

    struct Node
    {
        bool caseless = false, compat = false;
        int style = 0;
        vector<Name> names; // one of each class
        std::map<u32string, size_t> key32;
        std::map<string, size_t> key8;
        std::map<u32string, size_t, Less32> less32;
        std::map<string, size_t, Less8> less8;
        string journal; // names in UTF-8, each ended by 0xFF
        size_t synced = 0;
        u64 downUntil = 0;

        string streamed(Name const& n) const
        {
            // through the streaming normalizer, as a reader of a socket would
            unicode::utf8_normalizer u { forms[(compat ? 2 : 0) + (style & 1)] };
            string r;
            string_view s = n.bytes;
            for (size_t k = 1; !s.empty(); k = k * 3 % 7 + 1)
            {
                auto const c = s.substr(0, k);
                r += u.feed(c);
                s.remove_prefix(c.size());
            }
            r += u.flush();
            return r;
        }

        // The entry that is the same name for the library, or size().
        size_t find(Name const& n) const
        {
            auto const in = [&](auto const& m, auto const& k) {
                auto const i = m.find(k);
                return i == m.end() ? names.size() : i->second;
            };
            u32string_view const t = n.raw;
            string_view const b = n.bytes;
            if (caseless)
                switch (style)
                {
                    case 0: return in(less32, n.raw);
                    case 1: return in(less8, n.bytes);
                    case 2: return in(key32, unicode::casefold(t));
                    case 3: return in(key8, unicode::casefold(b));
                    default: break;
                }
            else
                switch (style)
                {
                    case 0: return in(key32, compat ? unicode::to_nfkd(t) : unicode::to_nfd(t));
                    case 1: return in(key8, compat ? unicode::to_nfkc(b) : unicode::to_nfc(b));
                    case 2:
                    case 3: return in(key8, streamed(n));
                    default: break;
                }
            for (size_t i = 0; i < names.size(); ++i)
            {
                auto const& o = names[i];
                if (caseless   ? (style & 1) ? unicode::casefold_equals(string_view(o.bytes), b) : unicode::casefold_equals(u32string_view(o.raw), t)
                    : compat ? (style & 1) ? unicode::is_compatibility_equivalent(string_view(o.bytes), b) : unicode::is_compatibility_equivalent(u32string_view(o.raw), t)
                             : (style & 1) ? unicode::is_canonically_equivalent(string_view(o.bytes), b) : unicode::is_canonically_equivalent(u32string_view(o.raw), t))
                    return i;
            }
            return names.size();
        }
        void insert(Name const& n)
        {
            auto const i = names.size();
            names.push_back(n);
            u32string_view const t = n.raw;
            string_view const b = n.bytes;
            if (caseless)
                switch (style)
                {
                    case 0: less32.emplace(n.raw, i); break;
                    case 1: less8.emplace(n.bytes, i); break;
                    case 2: key32.emplace(unicode::casefold(t), i); break;
                    case 3: key8.emplace(unicode::casefold(b), i); break;
                    default: break;
                }
            else
                switch (style)
                {
                    case 0: key32.emplace(compat ? unicode::to_nfkd(t) : unicode::to_nfd(t), i); break;
                    case 1: key8.emplace(compat ? unicode::to_nfkc(b) : unicode::to_nfc(b), i); break;
                    case 2:
                    case 3: key8.emplace(streamed(n), i); break;
                    default: break;
                }
        }
        u32string key(u32string_view t) const // by the model
        {
            return caseless ? ref::mapCase(ref::ucd().fold, t) : ref::normalize(t, compat ? ref::NFKD : ref::NFD);
        }
        void forget()
        {
            names.clear();
            key32.clear();
            key8.clear();
            less32.clear();
            less8.clear();
        }
    };

    void run(Plan const& plan, Ctx& ctx, bool caseless)
    {
        auto const n = static_cast<size_t>(std::clamp<i64>(plan.get("nodes", 2), 1, 6));
        vector<Node> nodes(n);
        for (size_t i = 0; i < n; ++i)
        {
            nodes[i].caseless = caseless;
            nodes[i].compat = plan.get("compat");
            nodes[i].style = static_cast<int>(plan.get(("style" + std::to_string(i)).c_str()) % 6);
        }
        vector<u32string> pool;
        vector<Op const*> ev;
        for (auto const& o: plan.ops)
            if (o.kind == K_NAME)
            {
                u32string s;
                for (auto const& u: ref::decodeUtf8(o.b))
                    if (u.good)
                        s += static_cast<char32_t>(u.cp);
                u32string all;
                for (i64 k = std::clamp<i64>(o.a.size() > 1 ? o.a[1] : 1, 1, 6000); k--;)
                    all += s;
                pool.push_back(scalar(all) ? all : U"x");
            }
            else if (o.kind >= K_CREATE && o.a.size() >= (o.kind == K_SYNC ? 2 : 3))
                ev.push_back(&o);
        if (pool.empty())
            pool.push_back(U"x");
        std::stable_sort(ev.begin(), ev.end(), [](Op const* a, Op const* b) { return a->a[1] < b->a[1]; });
        if (!ev.empty())
            ctx.st.simMicros += static_cast<u64>(std::max<i64>(0, ev.back()->a[1]));
        ctx.st.steps += ev.size();

        std::map<i64, std::pair<size_t, Name>> sent; // by id: who sent it, and what
        vector<std::pair<u64, u64>> cuts;              // nodes on one side, until
        auto const inspect = [&](Name const& x) { caseless ? inspectCase(x, ctx) : inspectForm(x, ctx); };
        auto const compare = [&](Name const& a, Name const& b) { caseless ? compareCaseless(a, b, ctx) : comparePair(a, b, ctx); };
        // A node learns a name.
        auto const learn = [&](size_t i, Name const& x, bool write) {
            auto& d = nodes[i];
            auto const k = d.key(x.raw);
            size_t want = 0;
            while (want < d.names.size() && d.key(d.names[want].raw) != k)
                ++want;
            auto const got = d.find(x);
            ctx.log.num(got);
            if (got != want)
                return ctx.violate("lookup", "node " + std::to_string(i) + " style " + std::to_string(d.style) + ": " + show(x.raw) + (got < d.names.size() ? " taken for " + show(d.names[got].raw) : " not found, though " + show(d.names[want].raw) + " is there"));
            if (got == d.names.size())
                d.insert(x);
            else if (d.names[got].raw != x.raw)
            {
                ctx.nontrivial = true;
                ctx.st.hit("found_in_another_form");
            }
            if (write)
            {
                d.journal += x.bytes;
                d.journal += '\xFF';
            }
            u64 h = mix(d.style, d.names.size());
            for (auto const c: u32string_view(x.raw).substr(0, 4))
                h = mix(h, caseless ? ref::ucd().letter[c] * 8u + static_cast<u32>(ref::fullCase(ref::ucd().fold, static_cast<u32>(c)).size()) : ref::ccc(static_cast<u32>(c)) * 64u + ref::ucd().quick[c]);
            ctx.st.state(h);
        };
        auto const restart = [&](size_t i) { // from the journal
            auto& d = nodes[i];
            d.forget();
            string const disk = std::move(d.journal);
            d.journal.clear();
            for (size_t from = 0, to; (to = disk.find('\xFF', from)) != string::npos; from = to + 1)
            {
                Exact<char> const rec(string_view(disk).substr(from, to - from));
                auto const text = unicode::convert_to<char32_t>(rec.v);
                if (ref::encode(text) != rec.v)
                    return ctx.violate("journal", "record read back as " + show(text));
                learn(i, Name(text), true);
            }
            d.synced = d.journal.size();
        };
        for (auto const* o: ev)
        {
            if (ctx.failed)
                return;
            auto const now = static_cast<u64>(std::max<i64>(0, o->a[1]));
            auto const i = static_cast<size_t>(std::max<i64>(0, o->a[0])) % n;
            std::erase_if(cuts, [&](auto const& c) { return c.second <= now; });
            if (o->kind == K_CUT)
            {
                cuts.emplace_back(static_cast<u64>(o->a[0]), now + static_cast<u64>(std::max<i64>(0, o->a[2])));
                continue;
            }
            bool const up = nodes[i].downUntil <= now;
            if (o->kind == K_CRASH && o->a.size() >= 4 && up)
            {
                auto& d = nodes[i];
                auto const tail = d.journal.size() - d.synced;
                auto const keep = tail ? static_cast<size_t>(std::max<i64>(0, o->a[2])) % (tail + 1) : 0;
                d.journal.resize(d.synced + keep);
                ctx.st.hit("fault_crash");
                if (keep && keep < tail && d.journal.back() != '\xFF')
                    ctx.st.hit("fault_torn_record");
                d.downUntil = now + static_cast<u64>(std::max<i64>(0, o->a[3]));
                restart(i); // nothing reaches it before it is up
            }
            else if (o->kind == K_SYNC && up)
                nodes[i].synced = nodes[i].journal.size();
            else if (o->kind == K_CREATE && o->a.size() >= 5 && up)
            {
                auto const& base = pool[static_cast<size_t>(std::max<i64>(0, o->a[3])) % pool.size()];
                auto const v = static_cast<u64>(o->a[4]);
                Exact<char32_t> const t(base);
                auto const bytes = ref::encode(base);
                Exact<char> const b(bytes);
                u32string text = base;
                if (auto const k = v / 2 % 5; k && !caseless)
                    text = v % 2 ? unicode::convert_to<char32_t>(string_view(unicode::normalize(b.v, forms[k - 1]))) : unicode::normalize(t.v, forms[k - 1]);
                else if (k)
                {
                    if (v % 2)
                        text = unicode::convert_to<char32_t>(string_view(k == 1 ? unicode::to_uppercase(b.v) : k == 2 ? unicode::to_lowercase(b.v) : k == 3 ? unicode::to_titlecase(b.v) : unicode::casefold(b.v)));
                    else
                        text = k == 1 ? unicode::to_uppercase(t.v) : k == 2 ? unicode::to_lowercase(t.v) : k == 3 ? unicode::to_titlecase(t.v) : unicode::casefold(t.v);
                }
                Name const x(text);
                inspect(Name(base));
                if (!ctx.failed)
                    inspect(x);
                if (!ctx.failed)
                    compare(Name(base), x);
                if (!ctx.failed)
                    learn(i, x, true);
                sent.erase(o->a[2]);
                sent.emplace(o->a[2], std::pair(i, x));
            }
            else if (o->kind == K_MESSAGE && o->a.size() >= 7)
            {
                auto const s = sent.find(o->a[2]);
                if (s == sent.end() || s->second.first == i)
                    continue;
                auto const from = s->second.first;
                bool const cut = std::any_of(cuts.begin(), cuts.end(), [&](auto const& c) { return (c.first >> from & 1) != (c.first >> i & 1); });
                if (cut || !up)
                {
                    ctx.st.hit(cut ? "fault_partitioned" : "fault_lost_receiver_down");
                    continue;
                }
                auto wire = s->second.second.bytes;
                if (o->a[4] && !wire.empty())
                {
                    auto const at = static_cast<size_t>(std::max<i64>(0, o->a[5])) % wire.size();
                    switch (o->a[4] % 5)
                    {
                        case 1: wire[at] = static_cast<char>(o->a[6]); break;
                        case 2: wire.erase(at, 1); break;
                        case 3: wire.resize(at); break;
                        case 4: wire.insert(at, 1, static_cast<char>(o->a[6])); break;
                        default: wire[at] = static_cast<char>(wire[at] ^ 1 << (o->a[6] & 7)); break;
                    }
                    ctx.st.hit("damage_message");
                }
                u32string text;
                if (Exact<char> const got { string_view(wire) }; o->a[3] % 2)
                    text = unicode::convert_to<char32_t>(got.v);
                else
                {
                    unicode::decoder<char> dec {}; // byte by byte
                    for (auto const c: got.v)
                        if (auto const cp = dec(static_cast<u8>(c)))
                            text += *cp;
                }
                if (!scalar(text))
                {
                    ctx.st.hit("rejected");
                    continue;
                }
                Name const x(text);
                inspect(x);
                if (!ctx.failed)
                    compare(s->second.second, x);
                size_t left = 4;
                for (auto const& y: nodes[i].names)
                    if (!ctx.failed && left && left--)
                        compare(x, y);
                if (!ctx.failed)
                    learn(i, x, true);
                ctx.st.hit("messages");
            }
        }
        if (ctx.failed)
            return;
        // The faults are over: everybody tells everybody what they have, once.
        for (size_t i = 0; i < n && !ctx.failed; ++i)
            for (size_t j = 0; j < n && !ctx.failed; ++j)
                if (i != j)
                    for (auto const& x: vector<Name>(nodes[i].names))
                        if (!ctx.failed)
                            learn(j, x, false);
        for (size_t i = 0; i + 1 < n && !ctx.failed; ++i) // what came in late passes on
            for (auto const& x: vector<Name>(nodes[n - 1].names))
                if (!ctx.failed)
                    learn(i, x, false);
        if (ctx.failed)
            return;
        for (size_t i = 0; i < n; ++i)
        {
            auto const& d = nodes[i];
            if (d.names.size() != nodes[0].names.size())
                return ctx.violate("diverged", "node " + std::to_string(i) + " has " + std::to_string(d.names.size()) + " names, node 0 has " + std::to_string(nodes[0].names.size()));
            for (auto const& x: d.names)
                if (nodes[0].find(x) == nodes[0].names.size())
                    return ctx.violate("diverged", "node 0 lacks " + show(x.raw));
            if (caseless && d.style < 2)
            {
                vector<u32string> list;
                if (d.style == 0)
                    for (auto const& [k, _]: d.less32)
                        list.push_back(d.key(k));
                else
                    for (auto const& [_, at]: d.less8)
                        list.push_back(d.key(d.names[at].raw));
                if (!std::is_sorted(list.begin(), list.end()) || list.size() != d.names.size())
                    return ctx.violate("listing", "node " + std::to_string(i) + " lists its names out of order");
            }
        }
        if (n > 1)
            ctx.st.hit("converged");
    }

    void run21(Plan const& plan, Ctx& ctx) { run(plan, ctx, false); }
    void run22(Plan const& plan, Ctx& ctx) { run(plan, ctx, true); }

    vector<u32> cased, composed; // codepoints with case, and with decompositions (the longer, the more often)

    void init()
    {
        text::init();
        if (!cased.empty())
            return;
        auto const& u = ref::ucd();
        for (auto const* c: { &u.upper, &u.lower, &u.title, &u.fold })
        {
            for (auto const& [k, v]: c->simple)
            {
                cased.push_back(k);
                cased.push_back(v);
            }
            for (int times = 20; times--;) // there are few of these
                for (auto const& [k, v]: c->special)
                    cased.push_back(k);
        }
        for (auto const* m: { &u.fullCanon, &u.fullCompat })
            for (auto const& [k, v]: *m)
                composed.insert(composed.end(), v.size() > 2 ? v.size() * v.size() : 1, k);
        for (u32 c = 0; c < 0x110000; ++c)
            if (c > 1 && u.letter[c] != u.letter[c - 1] && (c < 0xD801 || c > 0xE000))
            {
                cased.push_back(c);
                cased.push_back(c - 1);
            }
    }

    u32string casedPiece(Rng& r)
    {
        static constexpr u32 between[] { '\'', 0x2019, '.', ':', 0xB7, '_', ' ', '-', ',', 0x200D, 0xAD, 0x301, 0x345, 0x307, '1', 0x2B0, 0xA0, '\n', 0x3A3, 0x130, 0x131, 'I', 'i', 0xDF, 0x1E9E, 0x1C5, 0x149, 0x1F0, 0xFB03 };
        u32string s;
        for (auto k = 1 + r.below(5); k--;)
            s += static_cast<char32_t>(r.chance(45) ? r.pick(cased) : r.chance(50) ? static_cast<u32>((r.chance(50) ? 'a' : 'A') + r.below(26)) : between[r.below(std::size(between))]);
        return s;
    }

    Plan make(Rng& r, int tier, bool caseless)
    {
        using namespace text;
        Plan p;
        auto const n = r.range(2, tier ? 4 : 3);
        p.cfg["nodes"] = n;
        if (!caseless)
            p.cfg["compat"] = r.chance(50);
        for (i64 i = 0; i < n; ++i)
            p.cfg["style" + std::to_string(i)] = static_cast<i64>(r.below(6));
        auto const themes = caseless ? pickThemes(r, 1u << Ascii | 1u << Latin | 1u << Words | 1u << Decomp | 1u << Odd | 1u << Scripts | 1u << Hangul | 1u << Emoji)
                                     : pickThemes(r, 1u << Latin | 1u << Indic | 1u << Hangul | 1u << Marks | 1u << Decomp | 1u << Odd | 1u << Ascii | 1u << Cjk);
        vector<u32string> names;
        auto const count = 1 + r.below(tier ? 7 : 5);
        while (names.size() < count)
        {
            u32string s;
            if (!names.empty() && r.chance(45))
            {
                s = r.pick(names); // nearly one of the others
                auto const at = s.empty() ? 0 : r.below(s.size());
                switch (r.below(4))
                {
                    case 0:
                        if (at + 1 < s.size())
                            std::swap(s[at], s[at + 1]);
                        break;
                    case 1:
                        if (!s.empty())
                            s.erase(at, 1);
                        break;
                    case 2: s.insert(at, caseless ? casedPiece(r) : piece(r, themes)); break;
                    default:
                        if (!s.empty())
                            s[at] = static_cast<char32_t>(caseless ? r.pick(cased) : codepoint(r, Marks));
                        break;
                }
            }
            else if (!caseless && r.chance(20))
                for (auto k = 1 + r.below(2); k--;)
                    s += static_cast<char32_t>(r.pick(composed));
            else
                for (auto k = r.chance(3) ? 0 : 1 + r.below(r.chance(95) ? 5 : 60); k--;)
                    s += caseless && r.chance(70) ? casedPiece(r) : piece(r, themes);
            for (auto& c: s)
                if (c >= 0xD800 && (c < 0xE000 || c >= 0x110000))
                    c = U'x';
            names.push_back(std::move(s));
        }
        for (size_t i = 0; i < names.size(); ++i)
        {
            Op o { K_NAME, { static_cast<i64>(i) }, ref::encode(names[i]) };
            if (r.permille(6) && !names[i].empty())
                o.a.push_back(static_cast<i64>(1 + (r.chance(50) ? r.below(40) : 700 / names[i].size())));
            p.ops.push_back(std::move(o));
        }
        auto const creates = 2 + r.below(tier ? 14 : 8);
        i64 t = 0;
        bool const faults = r.chance(75);
        for (u64 k = 0; k < creates; ++k)
        {
            t += static_cast<i64>(r.skewed(20000));
            auto const node = r.range(0, n - 1);
            p.ops.push_back({ K_CREATE, { node, t, static_cast<i64>(k), static_cast<i64>(r.below(names.size())), static_cast<i64>(r.below(10)) }, {} });
            for (i64 to = 0; to < n; ++to)
            {
                if (to == node || (faults && r.chance(12)))
                    continue;
                for (auto times = faults && r.chance(12) ? 2 : 1; times--;)
                    p.ops.push_back({ K_MESSAGE, { to, t + 1 + static_cast<i64>(r.skewed(60000)), static_cast<i64>(k), static_cast<i64>(r.below(8)), faults && r.chance(20) ? r.range(1, 5) : 0, static_cast<i64>(r.below(1000)), static_cast<i64>(r.below(256)) }, {} });
            }
            if (r.chance(30))
                p.ops.push_back({ K_SYNC, { node, t + static_cast<i64>(r.skewed(20000)) }, {} });
            if (faults && r.chance(15))
                p.ops.push_back({ K_CRASH, { r.range(0, n - 1), t + static_cast<i64>(r.skewed(30000)), static_cast<i64>(r.below(1000)), static_cast<i64>(r.skewed(30000)) }, {} });
            if (faults && r.chance(10))
                p.ops.push_back({ K_CUT, { r.range(1, (1 << n) - 2), t + static_cast<i64>(r.skewed(20000)), static_cast<i64>(r.skewed(60000)) }, {} });
        }
        return p;
    }
    Plan gen21(Rng& r, int tier) { return make(r, tier, false); }
    Plan gen22(Rng& r, int tier) { return make(r, tier, true); }
} // namespace

void addDirectory(vector<Scenario>& v)
{
    v.push_back({ "C21", gen21, run21, init, "2-4 nodes replicate a directory of 1-7 names, keyed by canonical or compatibility equivalence in different ways, over a network that loses, duplicates, reorders, damages and cuts, with crashes and torn journals; non-trivial: a name was found under another form of it" });
    v.push_back({ "C22", gen22, run22, init, "2-4 nodes replicate a directory of 1-7 names, keyed without regard to case in different ways, over a network that loses, duplicates, reorders, damages and cuts, with crashes and torn journals; non-trivial: a name was found under another form of it" });
}
} // namespace sim
