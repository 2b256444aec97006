// C12: cluster widths measured codepoint by codepoint, by whole clusters and by whole texts.
#include "ref.h"
#include "scanmodel.h"
#include "scen.h"
#include "streams.h"

#include <libunicode/capi.h>
#include <libunicode/width.h>

#include <algorithm>
#include <memory>

namespace sim
{
namespace
{
    enum : int { K_WIDE = 4 };
    using Acc = unicode::grapheme_cluster_width_accumulator;

    void run(Plan const& plan, Ctx& ctx)
    {
        auto const w = buildWire(plan, ctx.st);
        vector<u32string> text(w.got.size());
        for (size_t i = 0; i < text.size(); ++i)
            for (auto const& u: ref::decodeUtf8(w.got[i]))
                if (u.good)
                    text[i] += static_cast<char32_t>(u.cp);
        for (auto const& o: plan.ops)
            if (o.kind == K_WIDE && o.a.size() >= 4)
            {
                auto& s = text[static_cast<size_t>(o.a[0]) % text.size()];
                s.insert(static_cast<size_t>(o.a[1]) % (s.size() + 1), static_cast<size_t>(std::max<i64>(1, o.a[3])), static_cast<char32_t>(o.a[2]));
            }
        struct Meter
        {
            vector<bool> breaks;
            Acc acc;
            ref::Width model;
            size_t pos = 0, from = 0;
            bool raw = false; // never reset: any sequence of codepoints is measured as one cluster
        };
        vector<Meter> ms(text.size());
        for (size_t i = 0; i < text.size(); ++i)
        {
            ms[i].breaks = ref::graphemeBreaks(text[i]);
            ms[i].raw = plan.get(("raw" + std::to_string(i)).c_str());
        }
        auto const describe = [&](size_t i) { return "text " + std::to_string(i) + " prefix " + show(u32string_view(text[i]).substr(ms[i].from, ms[i].pos - ms[i].from)); };
        auto const push = [&](size_t i, size_t count, i64 flags) {
            auto& m = ms[i];
            count = std::min(count, text[i].size() - m.pos);
            if (flags & 1)
            {
                Acc copy = m.acc;
                for (char32_t const c: U"\U0001F600\uFE0F\u200D")
                    m.acc.push(c);
                m.acc = copy;
                ctx.st.hit("state_copied");
            }
            while (count--)
            {
                auto const c = text[i][m.pos];
                if (m.breaks[m.pos] && !m.raw)
                {
                    if (m.pos)
                    {
                        if (flags & 2)
                            m.acc = Acc {};
                        else
                        {
                            m.acc.reset();
                            ctx.st.hit("reset_reused");
                        }
                    }
                    m.model = {};
                    m.from = m.pos;
                }
                m.acc.push(c);
                m.model.push(static_cast<u32>(c), static_cast<unsigned>(cpWidth(static_cast<u32>(c))));
                ++m.pos;
                auto const got = m.acc.width();
                ctx.log.num(got);
                if (got != m.model.width())
                    return ctx.violate("prefix", describe(i) + ": " + std::to_string(got) + " columns, expected " + std::to_string(m.model.width())), false;
                auto const size = m.pos - m.from;
                if (size < 200 || size % 509 == 0 || m.pos == text[i].size()) // of a very long cluster, some prefixes
                {
                    std::unique_ptr<char32_t[]> p { new char32_t[size] }; // exact size
                    std::copy_n(text[i].data() + m.from, size, p.get());
                    if (auto const whole = unicode::grapheme_cluster_width(u32string_view(p.get(), size)); whole != got)
                        return ctx.violate("whole-cluster", describe(i) + ": " + std::to_string(whole) + " columns, " + std::to_string(got) + " when fed one by one"), false;
                }
                if (size > 1)
                {
                    ctx.nontrivial = true;
                    ctx.st.hit("cluster_prefixes");
                }
                ctx.st.state(mix(mix(m.model.width(), m.model.baseWidth * 8 + m.model.open * 4 + m.model.virama * 2 + m.model.skip), mix(m.model.ri & 1, std::min<size_t>(size, 6))));
            }
            return true;
        };
        for (auto const& e: timeline(plan, ctx.st))
            if (e.op->kind == K_DELIVER && e.op->a.size() >= 4)
                if (!push(static_cast<size_t>(e.op->a[0]) % text.size(), static_cast<size_t>(std::max<i64>(0, e.op->a[2])), e.op->a[3]))
                    return;
        for (size_t i = 0; i < text.size(); ++i)
        {
            if (!push(i, text[i].size(), 0))
                return;
            unsigned sum = 0, bases = 0;
            ref::Width m;
            for (size_t k = 0; k < text[i].size(); ++k)
            {
                auto const c = static_cast<u32>(text[i][k]);
                if (ms[i].breaks[k])
                {
                    sum += m.width();
                    m = {};
                    bases += static_cast<unsigned>(cpWidth(c));
                }
                m.push(c, static_cast<unsigned>(cpWidth(c)));
            }
            sum += m.width();
            std::unique_ptr<char32_t[]> p { new char32_t[text[i].size()] };
            std::copy(text[i].begin(), text[i].end(), p.get());
            auto const s = ref::encode(text[i]);
            std::unique_ptr<char[]> q { new char[s.size()] };
            std::copy(s.begin(), s.end(), q.get());
            auto const* u = reinterpret_cast<u32_char_t const*>(p.get());
            auto const n = text[i].size();
            unsigned const got[] { unicode::grapheme_cluster_width(string_view(q.get(), s.size())), static_cast<unsigned>(u32_gc_width(u, n, GC_WIDTH_MODE_MODIFIABLE)), static_cast<unsigned>(u8_gc_width(q.get(), s.size(), GC_WIDTH_MODE_MODIFIABLE)),
                                   static_cast<unsigned>(u32_gc_width(u, n, GC_WIDTH_MODE_NON_MODIFIABLE)), static_cast<unsigned>(u8_gc_width(q.get(), s.size(), GC_WIDTH_MODE_NON_MODIFIABLE)) };
            unsigned const want[] { sum, sum, sum, bases, bases };
            for (int k = 0; k < 5; ++k)
            {
                ctx.log.num(got[k]);
                static constexpr char const* names[] { "text-utf8", "text-u32_gc_width", "text-u8_gc_width", "text-u32_gc_width-base", "text-u8_gc_width-base" };
                if (got[k] != want[k])
                    return ctx.violate(names[k], std::to_string(got[k]) + " columns, expected " + std::to_string(want[k]) + " for " + show(text[i]));
            }
        }
    }

    void init() { text::init(); }

    Plan gen(Rng& r, int tier)
    {
        using namespace text;
        Plan p;
        StreamGen g;
        g.maxStreams = 4;
        g.themes = r.chance(75) ? 1u << Emoji | 1u << Flags | 1u << Indic | 1u << Hangul | 1u << Marks | 1u << Latin | 1u << Odd | 1u << Cjk : ~0u;
        g.controls = 3;
        g.tokens = tier && r.chance(10) ? 60 : 10;
        auto const n = genStreams(r, p, g);
        for (int i = 0; i < n; ++i)
            p.cfg["raw" + std::to_string(i)] = r.chance(20);
        static constexpr u32 special[] { 0xFE0E, 0xFE0F, 0x200D, 0x1F3FB, 0x1F1E6, 0x094D, 0x093E, 0x2714, 0x263A, 0x23, 0x20E3 };
        if (r.chance(40))
            for (auto k = 1 + r.below(6); k--;)
                p.ops.push_back({ K_WIDE, { r.range(0, n - 1), static_cast<i64>(r.below(1000)), static_cast<i64>(special[r.below(std::size(special))]), r.chance(90) ? 1 : r.range(2, 300) }, {} });
        genDeliveries(r, p, n, [](Rng& q, Op& o) { o.a.push_back((q.chance(10) ? 1 : 0) | (q.chance(30) ? 2 : 0)); });
        return p;
    }
} // namespace

void addWidth(vector<Scenario>& v)
{
    v.push_back({ "C12", gen, run, init, "a run is 1-4 interleaved width accumulators fed the clusters of a text (or, for a fifth of them, the text as one cluster) one codepoint at a time, copied and reset by the schedule; non-trivial: a cluster of more than one codepoint" });
}
} // namespace sim
