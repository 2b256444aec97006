// C06, C07: interleaved streaming normalizers against the normalization forms of UAX #15.
#include "ref.h"
#include "scen.h"
#include "streams.h"

#include <libunicode/normalization.h>

#include <algorithm>
#include <memory>

namespace sim
{
namespace
{
    enum : int { K_FLUSH = 12, K_WIDE = 4 };
    using unicode::Normalization_Form;
    constexpr Normalization_Form forms[] { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
    constexpr ref::Form refForms[] { ref::NFC, ref::NFD, ref::NFKC, ref::NFKD };
    constexpr char const* formNames[] { "NFC", "NFD", "NFKC", "NFKD" };

    template <typename Char>
    struct Object
    {
        using View = std::basic_string_view<Char>;
        using Str = std::basic_string<Char>;
        std::unique_ptr<unicode::normalizer> n;
        std::unique_ptr<unicode::utf8_normalizer> u;
        int form = 0;
        Str part; // output since the last flush
        View last {};
        Str lastCopy;
        // The view handed out stays valid until the next call.
        bool stale() const { return Str(last) != lastCopy; }
        void got(View v)
        {
            last = v;
            lastCopy = Str(v);
            part += v;
        }
    };

    template <typename T>
    std::unique_ptr<T[]> exact(std::basic_string_view<T> s)
    {
        std::unique_ptr<T[]> p { new T[s.size()] };
        std::copy(s.begin(), s.end(), p.get());
        return p;
    }

    // Whole-text functions on one part.
    void whole(u32string_view part, Ctx& ctx)
    {
        auto const x = exact(part);
        u32string_view const sv { x.get(), part.size() };
        for (int f = 0; f < 4; ++f)
        {
            auto const want = ref::normalize(part, refForms[f]);
            auto const got = unicode::normalize(sv, forms[f]);
            if (got != want)
                return ctx.violate("whole", string(formNames[f]) + " of " + show(part) + ": got " + show(got) + " expected " + show(want));
            if (!unicode::is_normalized(u32string_view(got), forms[f]))
                return ctx.violate("check-rejects", string(formNames[f]) + " " + show(got));
            if (unicode::is_normalized(sv, forms[f]) != (want == part))
                return ctx.violate("check", string(formNames[f]) + " is_normalized is wrong for " + show(part));
        }
    }

    void run06(Plan const& plan, Ctx& ctx)
    {
        auto const w = buildWire(plan, ctx.st);
        auto const n = w.got.size();
        vector<u32string> text(n);
        for (size_t i = 0; i < n; ++i)
            for (auto const& u: ref::decodeUtf8(w.got[i]))
                text[i] += static_cast<char32_t>(u.cp);
        for (auto const& o: plan.ops)
            if (o.kind == K_WIDE && o.a.size() >= 3)
            {
                auto& t = text[static_cast<size_t>(o.a[0]) % n];
                t.insert(static_cast<size_t>(o.a[1]) % (t.size() + 1), 1, static_cast<char32_t>(o.a[2]));
            }
        struct Stream
        {
            vector<Object<char32_t>> obj;
            size_t pos = 0, partFrom = 0;
        };
        vector<Stream> st(n);
        for (size_t i = 0; i < n; ++i)
        {
            auto const mask = plan.get(("forms" + std::to_string(i)).c_str(), 15);
            for (int f = 0; f < 4; ++f)
                if (mask >> f & 1)
                {
                    Object<char32_t> o;
                    o.form = f;
                    o.n = std::make_unique<unicode::normalizer>(forms[f]);
                    st[i].obj.push_back(std::move(o));
                }
        }
        u64 calls = 0;
        auto const feed = [&](size_t i, size_t cps) {
            auto& s = st[i];
            cps = std::min(cps, text[i].size() - s.pos);
            for (size_t k = 0; k < cps; ++k, ++s.pos)
                for (auto& o: s.obj)
                {
                    if (o.stale())
                        return ctx.violate("view-invalidated", "stream " + std::to_string(i) + " " + formNames[o.form]), false;
                    o.got(o.n->feed(text[i][s.pos]));
                    ctx.log.str(u32string_view(o.last));
                    ++calls;
                }
            u64 h = 0;
            for (size_t k = 0; k < 4 && k < s.pos - s.partFrom; ++k)
            {
                auto const c = static_cast<u32>(text[i][s.pos - 1 - k]);
                h = mix(h, ref::ccc(c) * 8u + (ref::normalize(u32string_view(&text[i][s.pos - 1 - k], 1), ref::NFD).size() & 7));
            }
            ctx.st.state(h);
            return true;
        };
        auto const flush = [&](size_t i) {
            auto& s = st[i];
            u32string_view const part = u32string_view(text[i]).substr(s.partFrom, s.pos - s.partFrom);
            for (auto& o: s.obj)
            {
                if (o.stale())
                    return ctx.violate("view-invalidated", "stream " + std::to_string(i) + " " + formNames[o.form]), false;
                o.got(o.n->flush());
                ctx.log.str(u32string_view(o.last));
                auto const want = ref::normalize(part, refForms[o.form]);
                if (o.part != want)
                    return ctx.violate("streamed", "stream " + std::to_string(i) + " " + formNames[o.form] + " of " + show(part) + ": got " + show(o.part) + " expected " + show(want)), false;
                o.part.clear();
            }
            if (part.size() > 1)
                ctx.st.hit("parts");
            whole(part, ctx);
            s.partFrom = s.pos;
            return !ctx.failed;
        };
        for (auto const& e: timeline(plan, ctx.st))
        {
            auto const i = static_cast<size_t>(e.op->a[0]) % n;
            if (e.op->kind == K_DELIVER && e.op->a.size() >= 3)
            {
                if (!feed(i, static_cast<size_t>(std::max<i64>(0, e.op->a[2]))))
                    return;
            }
            else if (e.op->kind == K_FLUSH)
            {
                if (st[i].pos < text[i].size() && ref::ccc(static_cast<u32>(text[i][st[i].pos])))
                {
                    ctx.st.hit("flush_inside_sequence");
                    ctx.nontrivial = true;
                }
                if (!flush(i))
                    return;
            }
        }
        for (size_t i = 0; i < n; ++i)
        {
            if (!feed(i, ~size_t { 0 } >> 1) || !flush(i))
                return;
            for (auto& o: st[i].obj) // nothing is left
                if (!o.n->flush().empty())
                    return ctx.violate("flush-twice", "stream " + std::to_string(i));
        }
        for (size_t i = 0; i < n; ++i)
            for (size_t k = 1; k < text[i].size(); ++k)
                if (ref::ccc(static_cast<u32>(text[i][k])))
                    ctx.nontrivial = true;
        ctx.st.hit("feed_calls", calls);
    }

    void run07(Plan const& plan, Ctx& ctx)
    {
        auto const w = buildWire(plan, ctx.st);
        auto const n = w.got.size();
        struct Stream
        {
            vector<Object<char>> obj;
            size_t pos = 0, partFrom = 0;
        };
        vector<Stream> st(n);
        for (size_t i = 0; i < n; ++i)
        {
            auto const mask = plan.get(("forms" + std::to_string(i)).c_str(), 15);
            for (int f = 0; f < 4; ++f)
                if (mask >> f & 1)
                {
                    Object<char> o;
                    o.form = f;
                    o.u = std::make_unique<unicode::utf8_normalizer>(forms[f]);
                    st[i].obj.push_back(std::move(o));
                }
        }
        auto const inside = [&](size_t i, size_t pos) { // does pos cut a unit?
            for (auto const& u: ref::decodeUtf8(w.got[i]))
                if (pos > u.at && pos < u.at + u.len)
                    return true;
            return false;
        };
        auto const feed = [&](size_t i, size_t bytes) {
            auto& s = st[i];
            bytes = std::min(bytes, w.got[i].size() - s.pos);
            auto const chunk = exact(string_view(w.got[i]).substr(s.pos, bytes));
            for (auto& o: s.obj)
            {
                if (o.stale())
                    return ctx.violate("view-invalidated", "stream " + std::to_string(i) + " " + formNames[o.form]), false;
                o.got(o.u->feed(string_view(chunk.get(), bytes)));
                ctx.log.str(string_view(o.last));
            }
            s.pos += bytes;
            if (s.pos < w.got[i].size() && inside(i, s.pos))
            {
                ctx.nontrivial = true;
                ctx.st.hit("cut_inside_character");
            }
            u64 h = 0;
            for (size_t k = 0; k < 6 && k < s.pos - s.partFrom; ++k)
            {
                auto const b = static_cast<u8>(w.got[i][s.pos - 1 - k]);
                h = mix(h, b < 0x80 ? 0u : b < 0xC0 ? 1u : b < 0xE0 ? b : b < 0xF8 ? b & ~3u : 255u);
            }
            ctx.st.state(h);
            return true;
        };
        auto const flush = [&](size_t i) {
            auto& s = st[i];
            string_view const part = string_view(w.got[i]).substr(s.partFrom, s.pos - s.partFrom);
            u32string cps;
            bool allGood = true;
            for (auto const& u: ref::decodeUtf8(part))
            {
                cps += static_cast<char32_t>(u.good ? u.cp : 0xFFFD);
                allGood = allGood && u.good;
                if (u.truncatedAtEnd)
                    ctx.st.hit("flush_inside_character");
                else if (!u.good)
                    ctx.st.hit("ill_formed");
            }
            for (auto& o: s.obj)
            {
                if (o.stale())
                    return ctx.violate("view-invalidated", "stream " + std::to_string(i) + " " + formNames[o.form]), false;
                o.got(o.u->flush());
                ctx.log.str(string_view(o.last));
                auto const want = ref::encode(ref::normalize(cps, refForms[o.form]));
                if (o.part != want)
                    return ctx.violate("streamed", "stream " + std::to_string(i) + " " + formNames[o.form] + " of " + show(part) + ": got " + show(o.part) + " expected " + show(want)), false;
                o.part.clear();
                if (allGood && ref::encode(cps) == part) // an overlong form would come back shorter
                {
                    auto const x = exact(part);
                    string_view const sv { x.get(), part.size() };
                    if (auto const got = unicode::normalize(sv, forms[o.form]); got != want)
                        return ctx.violate("whole", string(formNames[o.form]) + " of " + show(part) + ": got " + show(string_view(got)) + " expected " + show(string_view(want))), false;
                    if (unicode::is_normalized(sv, forms[o.form]) != (want == part))
                        return ctx.violate("check", string(formNames[o.form]) + " is_normalized is wrong for " + show(part)), false;
                }
            }
            s.partFrom = s.pos;
            return true;
        };
        for (auto const& e: timeline(plan, ctx.st))
        {
            auto const i = static_cast<size_t>(e.op->a[0]) % n;
            if (e.op->kind == K_DELIVER && e.op->a.size() >= 3)
            {
                if (!feed(i, static_cast<size_t>(std::max<i64>(0, e.op->a[2]))))
                    return;
            }
            else if (e.op->kind == K_FLUSH && !flush(i))
                return;
        }
        for (size_t i = 0; i < n; ++i)
            if (!feed(i, ~size_t { 0 } >> 1) || !flush(i))
                return;
    }

    void init() { text::init(); }

    Plan make(Rng& r, unsigned damage, int tier)
    {
        using namespace text;
        Plan p;
        StreamGen g;
        g.longest = 8000;
        g.plainLong = true;
        g.maxStreams = 3;
        g.themes = 1u << Latin | 1u << Indic | 1u << Hangul | 1u << Marks | 1u << Decomp | 1u << Odd | 1u << Ascii | 1u << Cjk;
        g.damage = damage;
        g.rawNoise = 15;
        g.controls = 3;
        g.tokens = tier && r.chance(10) ? 40 : 8;
        auto const n = genStreams(r, p, g);
        for (int i = 0; i < n; ++i)
            p.cfg["forms" + std::to_string(i)] = r.chance(50) ? 15 : 1 << r.below(4);
        if (!damage && r.chance(15))
            for (auto k = 1 + r.below(3); k--;)
                p.ops.push_back({ K_WIDE, { r.range(0, n - 1), static_cast<i64>(r.below(1000)), static_cast<i64>(r.chance(50) ? 0xD800 + r.below(0x800) : r.chance(50) ? 0x110000 + r.below(0x1000) : 0xFFFFFFFFu - r.below(3)) }, {} });
        genDeliveries(r, p, n);
        // flushes in the middle
        if (r.chance(50))
        {
            vector<Op> out;
            for (auto& o: p.ops)
            {
                auto const s = o.kind >= ScheduledFrom ? o.a[0] : -1;
                out.push_back(std::move(o));
                if (s >= 0 && r.chance(12))
                    out.push_back({ K_FLUSH, { s, static_cast<i64>(r.skewed(1000)) }, {} });
            }
            p.ops = std::move(out);
        }
        return p;
    }
    Plan gen06(Rng& r, int tier) { return make(r, 0, tier); }
    Plan gen07(Rng& r, int tier) { return make(r, 60, tier); }
} // namespace

void addNormalize(vector<Scenario>& v)
{
    v.push_back({ "C06", gen06, run06, init, "a run is 1-3 interleaved codepoint streams fed to normalizers of one or all four forms, with flushes at seeded points; non-trivial: some mark follows another codepoint or a flush separates a mark from what it follows" });
    v.push_back({ "C07", gen07, run07, init, "1-3 interleaved UTF-8 streams in seeded chunks, 60% of runs with transmission damage, with flushes at seeded points; non-trivial: at least one chunk ended inside a character" });
}
} // namespace sim
