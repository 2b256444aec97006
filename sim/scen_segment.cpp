// C09-C11: interleaved, suspended and copied segmentations against UAX #29 and the emoji and script grammars.
#include "asan.h"
#include "ref.h"
#include "scen.h"
#include "segmodel.h"
#include "streams.h"

#include <libunicode/capi.h>
#include <libunicode/codepoint_properties.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_ostream.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/word_segmenter.h>

#include <algorithm>
#include <memory>
#include <optional>
#include <sstream>

namespace sim
{
namespace
{
    enum : int { K_WIDE = 4, K_STEP = 13 };

    template <typename T>
    struct Exact
    {
        std::unique_ptr<T[]> p;
        size_t n;
        explicit Exact(std::basic_string_view<T> s): p { new T[s.size()] }, n { s.size() }
        {
            std::copy(s.begin(), s.end(), p.get());
        }
        std::basic_string_view<T> view() const { return { p.get(), n }; }
    };

    vector<u32string> texts(Plan const& plan, Ctx& ctx)
    {
        auto const w = buildWire(plan, ctx.st);
        vector<u32string> t(w.got.size());
        for (size_t i = 0; i < t.size(); ++i)
            for (auto const& u: ref::decodeUtf8(w.got[i]))
                if (u.good)
                    t[i] += static_cast<char32_t>(u.cp);
        for (auto const& o: plan.ops)
            if (o.kind == K_WIDE && o.a.size() >= 4)
            {
                auto& s = t[static_cast<size_t>(o.a[0]) % t.size()];
                s.insert(static_cast<size_t>(o.a[1]) % (s.size() + 1), static_cast<size_t>(std::max<i64>(1, o.a[3])), static_cast<char32_t>(o.a[2]));
            }
        return t;
    }

    // An iterator over a text whose segments are known, stepped by the schedule.
    template <typename Iter, typename Next>
    bool checkSegment(Ctx& ctx, char const* what, size_t who, u32string_view text, vector<bool> const& breaks, size_t& at, u32string_view seg, Next&& why)
    {
        (void) why;
        size_t end = at + 1;
        while (end < text.size() && !breaks[end])
            ++end;
        auto const want = text.substr(at, end - at);
        ctx.log.num(seg.size());
        if (seg != want)
        {
            ctx.violate(what, "text " + std::to_string(who) + " at " + std::to_string(at) + ": got " + show(seg) + " expected " + show(want) + " in " + show(text));
            return false;
        }
        at = end;
        return true;
    }

    // ---- C09 and C10 ----

    struct Graphemes
    {
        using State = unicode::grapheme_segmenter_state;
        using Iter = unicode::grapheme_segmenter;
        static vector<bool> breaks(u32string_view t) { return ref::graphemeBreaks(t); }
        static bool transparent(u32) { return false; }
        static void start(char32_t c, State& s) { unicode::grapheme_process_init(c, s); }
        static bool test(char32_t const* p, size_t, State& s) { return unicode::grapheme_process_breakable(*p, s); }
        static constexpr bool words = false;
    };
    struct Words
    {
        using State = unicode::word_segmenter_state;
        using Iter = unicode::word_segmenter;
        static vector<bool> breaks(u32string_view t) { return ref::wordBreaks(t); }
        static bool transparent(u32 c)
        {
            auto const& wb = ref::ucd().wb;
            return c < wb.size() && (wb[c] == ref::W_Extend || wb[c] == ref::W_Format || wb[c] == ref::W_ZWJ);
        }
        static void start(char32_t c, State& s) { unicode::word_process_init(c, s); }
        static bool test(char32_t const* p, size_t rest, State& s) { return unicode::word_process_breakable(*p, p + 1, rest, s); }
        static constexpr bool words = true;
    };

    template <typename Kind>
    void runBreaks(Plan const& plan, Ctx& ctx)
    {
        auto const text = texts(plan, ctx);
        struct Text
        {
            vector<bool> breaks;
            std::unique_ptr<Exact<char32_t>> mem;
            string utf8;
            std::unique_ptr<Exact<char>> mem8;
            // incremental: one state for the whole stream, and one initialised anew at each boundary
            typename Kind::State running {}, perSegment {};
            size_t delivered = 0, tested = 0;
            // iterators
            std::optional<typename Kind::Iter> iter;
            size_t iterAt = 0;
            bool iterDone = false;
            std::optional<unicode::utf8_grapheme_segmenter::iterator> iter8;
            size_t iter8At = 0;
        };
        vector<Text> ts(text.size());
        for (size_t i = 0; i < text.size(); ++i)
        {
            auto& t = ts[i];
            t.breaks = Kind::breaks(text[i]);
            t.mem = std::make_unique<Exact<char32_t>>(u32string_view(text[i]));
            t.iter.emplace(t.mem->view());
            if constexpr (!Kind::words)
            {
                t.utf8 = ref::encode(text[i]);
                t.mem8 = std::make_unique<Exact<char>>(string_view(t.utf8));
                t.iter8.emplace(unicode::utf8_grapheme_segmenter(t.mem8->view()).begin());
            }
        }
        auto const deliver = [&](size_t i, size_t cps, size_t extra, bool copy, bool last) {
            auto& t = ts[i];
            auto const& s = text[i];
            t.delivered = std::min(s.size(), t.delivered + cps);
            if (copy)
            {
                auto const a = t.running, b = t.perSegment;
                // the copy goes on for a while on another text and is thrown away
                auto c = a;
                for (char32_t const x: U"a\u0300\U0001F1E6\u200D")
                    Kind::test(&x, 0, c);
                t.running = a;
                t.perSegment = b;
                ctx.st.hit("state_copied");
            }
            while (t.tested < t.delivered)
            {
                auto const p = t.tested;
                // lookahead up to the next codepoint that is not transparent, and as much more as the schedule says
                size_t need = 0;
                if (Kind::words)
                {
                    size_t k = p + 1;
                    while (k < s.size() && Kind::transparent(static_cast<u32>(s[k])))
                        ++k;
                    need = k < s.size() ? k - p : s.size() - p - 1;
                    if (p + 1 + need > t.delivered && !last)
                    {
                        ctx.st.hit("waited_for_lookahead");
                        return true;
                    }
                }
                auto const rest = std::min(s.size() - p - 1, std::min(t.delivered - p - 1, need + extra));
                // only what is ahead may be looked at
                auto* const mem = t.mem->p.get();
                ASAN_POISON_MEMORY_REGION(mem + p + 1 + rest, (s.size() - p - 1 - rest) * sizeof(char32_t));
                bool a = true, b = true;
                if (p == 0)
                {
                    Kind::start(mem[0], t.running);
                    Kind::start(mem[0], t.perSegment);
                }
                else
                {
                    a = Kind::test(mem + p, rest, t.running);
                    b = Kind::test(mem + p, rest, t.perSegment);
                    if (b)
                        Kind::start(mem[p], t.perSegment);
                }
                ASAN_UNPOISON_MEMORY_REGION(mem, s.size() * sizeof(char32_t));
                ctx.log.byte(a);
                ctx.log.byte(b);
                bool const want = t.breaks[p];
                if (a != want || b != want)
                {
                    ctx.violate(a != want ? "running-state" : "segment-state", "text " + std::to_string(i) + " before codepoint " + std::to_string(p) + ": " + (want ? "break" : "no break") + " expected, lookahead " + std::to_string(rest) + ", in " + show(s));
                    return false;
                }
                if (!want && p)
                {
                    ctx.st.hit("joined");
                    ctx.nontrivial = true;
                }
                ++t.tested;
            }
            u64 h = 0;
            for (size_t k = 0; k < 5 && k < t.tested; ++k)
            {
                auto const c = static_cast<u32>(s[t.tested - 1 - k]);
                auto const& u = ref::ucd();
                h = mix(h, c < 0x110000 ? (Kind::words ? u.wb[c] * 2u + u.extpict[c] : (u.gcb[c] * 4u + u.incb[c]) * 2u + u.extpict[c]) : 999u);
            }
            ctx.st.state(h);
            return true;
        };
        auto const step = [&](size_t i, size_t count, int mode) {
            auto& t = ts[i];
            auto const& s = text[i];
            while (count-- && t.iterAt < s.size())
            {
                if (mode & 1)
                {
                    // suspended and resumed as a copy; the original runs to the end meanwhile
                    auto copy = *t.iter;
                    for (size_t k = 0; k < 3; ++k)
                        ++*t.iter;
                    if (mode & 2)
                        t.iter = std::move(copy);
                    else
                        t.iter.emplace(copy);
                    ctx.st.hit("iterator_copied");
                }
                auto const from = t.iterAt;
                if (!checkSegment<void>(ctx, "iterator", i, s, t.breaks, t.iterAt, **t.iter, 0))
                    return false;
                if ((*t.iter).operator*().data() != t.mem->p.get() + from)
                    return ctx.violate("iterator-view", "text " + std::to_string(i)), false;
                if (t.iter->codepointsAvailable() != (t.iterAt < s.size()) || static_cast<bool>(*t.iter) != (t.iterAt < s.size()))
                    return ctx.violate("iterator-available", "text " + std::to_string(i) + " at " + std::to_string(t.iterAt) + " in " + show(s)), false;
                auto const before = *t.iter;
                auto const sameAsCopy = before == *t.iter;
                ++*t.iter;
                // A segmenter equals one at the same segment; all that have nothing left ahead are equal too.
                bool const bothDone = !before.codepointsAvailable() && t.iterAt >= s.size();
                if (!sameAsCopy || (before == *t.iter) != bothDone || (*t.iter == before) != bothDone)
                    return ctx.violate("iterator-equality", "text " + std::to_string(i) + " at " + std::to_string(t.iterAt) + " in " + show(s)), false;
                if constexpr (Kind::words)
                    if (t.iter->empty() != (t.iterAt >= s.size()))
                        return ctx.violate("iterator-empty", "text " + std::to_string(i) + " at " + std::to_string(t.iterAt) + " in " + show(s)), false;
                if constexpr (!Kind::words)
                {
                    if (mode & 1)
                    {
                        auto copy = *t.iter8;
                        ++*t.iter8;
                        t.iter8 = copy;
                    }
                    u32string const seg = **t.iter8;
                    if (!checkSegment<void>(ctx, "utf8-iterator", i, s, t.breaks, t.iter8At, seg, 0))
                        return false;
                    auto const before8 = *t.iter8;
                    bool const same8 = before8 == *t.iter8 && !(before8 != *t.iter8);
                    if (mode & 4)
                    {
                        auto const old = (*t.iter8)++;
                        if (*old != seg || old.value() != seg)
                            return ctx.violate("utf8-iterator-postfix", "text " + std::to_string(i) + " at " + std::to_string(t.iter8At) + " in " + show(s)), false;
                    }
                    else
                        ++*t.iter8;
                    if (!same8 || before8 == *t.iter8 || !(before8 != *t.iter8))
                        return ctx.violate("utf8-iterator-equality", "text " + std::to_string(i) + " at " + std::to_string(t.iter8At) + " in " + show(s)), false;
                    bool const end = *t.iter8 == unicode::utf8_grapheme_segmenter(t.mem8->view()).end();
                    if (end != (t.iter8At >= s.size()))
                        return ctx.violate("utf8-iterator-end", "text " + std::to_string(i) + " at " + std::to_string(t.iter8At) + " in " + show(s)), false;
                }
            }
            return true;
        };
        for (auto const& e: timeline(plan, ctx.st))
        {
            auto const i = static_cast<size_t>(e.op->a[0]) % text.size();
            auto const& a = e.op->a;
            if (e.op->kind == K_DELIVER && a.size() >= 5)
            {
                if (!deliver(i, static_cast<size_t>(std::max<i64>(0, a[2])), static_cast<size_t>(std::max<i64>(0, a[3])), a[4] & 1, false))
                    return;
            }
            else if (e.op->kind == K_STEP && a.size() >= 4)
                if (!step(i, static_cast<size_t>(std::max<i64>(0, a[2])), static_cast<int>(a[3])))
                    return;
        }
        for (size_t i = 0; i < text.size(); ++i)
        {
            if (!deliver(i, text[i].size(), 3, false, true) || !step(i, text[i].size(), 0))
                return;
            if constexpr (!Kind::words)
            {
                auto const& s = text[i];
                auto const& t = ts[i];
                int count = 0;
                for (size_t k = 0; k < s.size(); ++k)
                    count += t.breaks[k];
                auto const c32 = u32_gc_count(reinterpret_cast<u32_char_t const*>(t.mem->p.get()), s.size());
                auto const c8 = u8_gc_count(t.mem8->p.get(), t.utf8.size());
                if (c32 != count || c8 != count)
                    return ctx.violate("capi-count", "text " + std::to_string(i) + ": " + std::to_string(c32) + " / " + std::to_string(c8) + ", expected " + std::to_string(count) + " for " + show(s));
                for (size_t k = 1; k < s.size(); ++k)
                {
                    char32_t const two[] { s[k - 1], s[k] };
                    if ((u32_grapheme_unbreakable(s[k - 1], s[k]) != 0) == ref::graphemeBreaks(u32string_view(two, 2))[1])
                        return ctx.violate("capi-unbreakable", show(u32string_view(two, 2)));
                }
            }
        }
    }

    Plan genBreaks(Rng& r, int tier, unsigned themes, bool words)
    {
        Plan p;
        StreamGen g;
        if (words)
            g.longest = 12000; // looking ahead over marks takes quadratic time
        g.maxStreams = 4;
        g.themes = themes;
        g.controls = 4;
        g.tokens = tier && r.chance(10) ? 60 : 12;
        auto const n = genStreams(r, p, g);
        if (words && r.chance(2)) // what decides about a boundary is far away
        {
            static constexpr u32 side[] { 'a', 'a', 0x5D0, 0x5D0, '1', '1', 0x30A2, '_', ' ' };
            static constexpr u32 mid[] { '\'', '\'', '.', ':', '"', ',', 0x2019, ' ', 0x1F1E6 };
            static constexpr u32 mark[] { 0x0301, 0x200D, 0x00AD, 0xFE0F, 0x1F3FB, 0x2060 };
            i64 const s = r.range(0, n - 1);
            auto const put = [&](u32 c, u64 times) { p.ops.push_back({ K_TEXT, { s, static_cast<i64>(times) }, ref::encode(u32string(1, static_cast<char32_t>(c))) }); };
            auto const before = side[r.below(std::size(side))];
            put(before, 1);
            for (auto k = r.below(3); k--;)
                put(mark[r.below(std::size(mark))], r.skewed(3000));
            put(mid[r.below(std::size(mid))], 1);
            for (auto k = 1 + r.below(2); k--;)
                put(mark[r.below(std::size(mark))], r.skewed(r.chance(50) ? 5000 : 300));
            put(r.chance(60) ? before : side[r.below(std::size(side))], 1);
        }
        if (r.chance(12))
            for (auto k = 1 + r.below(3); k--;)
                p.ops.push_back({ K_WIDE, { r.range(0, n - 1), static_cast<i64>(r.below(1000)), static_cast<i64>(r.chance(40) ? 0xD800 + r.below(0x800) : 0x110000 + r.below(0x1000)), 1 }, {} });
        if (r.chance(4)) // a very long run of one codepoint
        {
            static constexpr u32 c[] { 0x1F1E6, 0x1F1E6, 0x0301, 0x200D, 0x094D, 0x1100, 0x0020, 0x30A2, 0x05D0, 0x00AD };
            p.ops.push_back({ K_WIDE, { r.range(0, n - 1), static_cast<i64>(r.below(1000)), static_cast<i64>(c[r.below(std::size(c))]), r.range(100, 600) }, {} });
        }
        genDeliveries(r, p, n, [](Rng& q, Op& o) {
            o.a.push_back(static_cast<i64>(q.chance(50) ? 0 : q.skewed(64)));
            o.a.push_back(q.chance(8) ? 1 : 0);
        });
        auto const steps = r.below(20);
        for (u64 k = 0; k < steps; ++k)
            p.ops.push_back({ K_STEP, { r.range(0, n - 1), static_cast<i64>(r.skewed(20000)), static_cast<i64>(1 + r.skewed(8)), static_cast<i64>((r.chance(25) ? 1 + 2 * r.below(2) : 0) | (r.chance(30) ? 4 : 0)) }, {} });
        return p;
    }

    // ---- C11 ----

    using unicode::PresentationStyle;
    using unicode::Script;
    using namespace segmodel;
    using ScriptFirst = unicode::run_segmenter;
    using EmojiFirst = unicode::basic_run_segmenter<unicode::emoji_segmenter, unicode::script_segmenter>;

    void run11(Plan const& plan, Ctx& ctx)
    {
        auto const text = texts(plan, ctx);
        struct Text
        {
            std::unique_ptr<Exact<char32_t>> mem;
            vector<Segment> script, emoji;
            vector<Run> runs;
            std::optional<unicode::script_segmenter> s;
            std::optional<unicode::emoji_segmenter> e;
            std::optional<ScriptFirst> r;
            std::optional<EmojiFirst> r2;
            size_t at[4] {};
            bool done[4] {};
        };
        vector<Text> ts(text.size());
        for (size_t i = 0; i < text.size(); ++i)
        {
            auto& t = ts[i];
            t.mem = std::make_unique<Exact<char32_t>>(u32string_view(text[i]));
            t.script = scriptSegments(text[i]);
            t.emoji = emojiSegments(text[i]);
            t.runs = segmodel::runs(t.script, t.emoji);
            if (t.runs.size() > 1)
                ctx.nontrivial = true;
            u32string_view const v = t.mem->view();
            t.s.emplace(v.data(), v.size());
            t.e.emplace(v.data(), v.size());
            t.r.emplace(v);
            t.r2.emplace(v.data(), v.size());
            for (auto const& x: t.runs)
                ctx.st.state(mix(mix(x.script, x.emoji), mix(std::min<size_t>(x.end - x.start, 4), category(text[i][x.start]) + 2)));
        }
        auto const describe = [&](size_t i) { return "text " + std::to_string(i) + " " + show(text[i]); };
        // one step; false: violation
        auto const step = [&](size_t i, int which, int copy) {
            auto& t = ts[i];
            auto& k = t.at[which];
            auto const size = text[i].size();
            if (copy)
                ctx.st.hit("segmenter_copied");
            auto const expect = [&](char const* name, bool more, size_t end, u32 prop, vector<Segment> const& want, size_t before) {
                ctx.log.byte(more);
                ctx.log.num(end);
                ctx.log.num(prop);
                if (more != (k < want.size()))
                    return ctx.violate(string(name) + "-end", describe(i) + ": segment " + std::to_string(k) + (more ? " is one too many" : " is missing")), false;
                if (!more)
                {
                    if (end != before)
                        return ctx.violate(string(name) + "-output", describe(i) + ": output changed at the end"), false;
                    t.done[which] = true;
                    return true;
                }
                if (want[k] != Segment { end, prop })
                    return ctx.violate(name, describe(i) + ": segment " + std::to_string(k) + " ends at " + std::to_string(end) + " with property " + std::to_string(prop) + ", expected " + std::to_string(want[k].end) + " and " + std::to_string(want[k].prop)), false;
                ++k;
                ctx.st.hit("segments");
                return true;
            };
            size_t end = 4242;
            switch (which)
            {
                case 0: {
                    if (copy)
                    {
                        auto c = *t.s;
                        (void) t.s->consume();
                        (void) t.s->consume();
                        if (copy & 2)
                            t.s = c;
                        else
                            t.s.emplace(c);
                    }
                    Script p = Script::Invalid;
                    bool more;
                    if (k % 2)
                        more = t.s->consume(unicode::out<size_t>(end), unicode::out<Script>(p));
                    else if (auto const r = t.s->consume())
                    {
                        more = true;
                        end = r->size;
                        p = r->script;
                    }
                    else
                        more = false;
                    return expect("script", more, end, static_cast<u32>(p), t.script, 4242);
                }
                case 1: {
                    if (copy)
                    {
                        auto c = *t.e;
                        PresentationStyle p {};
                        size_t x = 0;
                        (void) t.e->consume(unicode::out<size_t>(x), unicode::out<PresentationStyle>(p));
                        if (copy & 2)
                            t.e = c;
                        else
                            t.e.emplace(c);
                    }
                    auto const from = k ? t.emoji[k - 1].end : 0;
                    PresentationStyle p {};
                    bool const more = t.e->consume(unicode::out<size_t>(end), unicode::out<PresentationStyle>(p));
                    if (!expect("emoji", more, end, more ? static_cast<u32>(p) : 0, t.emoji, 4242))
                        return false;
                    if (more && (t.e->isEmoji() != (p == PresentationStyle::Emoji) || t.e->isText() == t.e->isEmoji() || t.e->substr() != u32string_view(text[i]).substr(from, end - from) || t.e->currentCursorBegin() != from || t.e->currentCursorEnd() != end))
                        return ctx.violate("emoji-accessors", describe(i) + " segment " + std::to_string(k - 1)), false;
                    return true;
                }
                default: {
                    size_t start = 0;
                    u32 sc = 0, em = 0;
                    bool more, fin;
                    auto const go = [&](auto& seg, auto script, auto style) {
                        if (copy)
                        {
                            auto c = *seg;
                            typename std::remove_reference_t<decltype(*seg)>::range x;
                            (void) seg->consume(unicode::out(x));
                            seg.emplace(c);
                        }
                        typename std::remove_reference_t<decltype(*seg)>::range x;
                        more = seg->consume(unicode::out(x));
                        fin = seg->finished();
                        start = x.start;
                        end = x.end;
                        sc = static_cast<u32>(script(x));
                        em = static_cast<u32>(style(x));
                    };
                    auto const byType = [](auto const& x) { return std::get<Script>(x.properties); };
                    auto const byStyle = [](auto const& x) { return std::get<PresentationStyle>(x.properties); };
                    if (which == 2)
                        go(t.r, byType, byStyle);
                    else
                        go(t.r2, byType, byStyle);
                    ctx.log.byte(more);
                    ctx.log.num(end);
                    if (more != (k < t.runs.size()))
                        return ctx.violate("run-end", describe(i) + ": run " + std::to_string(k) + (more ? " is one too many" : " is missing")), false;
                    if (!more)
                    {
                        t.done[which] = true;
                        return true;
                    }
                    auto const& w = t.runs[k];
                    if (start != w.start || end != w.end || sc != w.script || em != w.emoji)
                        return ctx.violate("run", describe(i) + ": run " + std::to_string(k) + " is [" + std::to_string(start) + "," + std::to_string(end) + ") " + std::to_string(sc) + "/" + std::to_string(em) + ", expected [" + std::to_string(w.start) + "," + std::to_string(w.end) + ") " + std::to_string(w.script) + "/" + std::to_string(w.emoji)), false;
                    ++k;
                    if (fin != (w.end == size))
                        return ctx.violate("run-finished", describe(i)), false;
                    ctx.st.hit("runs_consumed");
                    return true;
                }
            }
        };
        for (auto const& ev: timeline(plan, ctx.st))
        {
            if (ev.op->kind != K_STEP || ev.op->a.size() < 5)
                continue;
            auto const i = static_cast<size_t>(ev.op->a[0]) % text.size();
            auto const which = static_cast<int>(ev.op->a[3] & 3);
            for (i64 k = 0; k < ev.op->a[2]; ++k)
                if (!step(i, which, k ? 0 : static_cast<int>(ev.op->a[4])))
                    return;
        }
        for (size_t i = 0; i < text.size(); ++i)
            for (int which = 0; which < 4; ++which)
            {
                // bounded: at most one segment per codepoint
                for (size_t k = 0; k <= text[i].size() && !ts[i].done[which]; ++k)
                    if (!step(i, which, 0))
                        return;
                if (!ts[i].done[which])
                    return ctx.violate("no-progress", describe(i));
                if (!step(i, which, 0)) // and it stays finished
                    return;
            }
    }

    void init()
    {
        text::init();
        initScripts();
    }

    Plan gen09(Rng& r, int tier) { return genBreaks(r, tier, ~0u, false); }
    Plan gen10(Rng& r, int tier)
    {
        using namespace text;
        return genBreaks(r, tier, r.chance(75) ? 1u << text::Words | 1u << Latin | 1u << Flags | 1u << Emoji | 1u << Odd | 1u << Marks | 1u << Cjk : ~0u, true);
    }
    Plan gen11(Rng& r, int tier)
    {
        using namespace text;
        Plan p;
        StreamGen g;
        g.minStreams = 1;
        g.maxStreams = 4;
        g.themes = r.chance(80) ? 1u << Emoji | 1u << Flags | 1u << Scripts | 1u << Latin | 1u << Indic | 1u << Cjk | 1u << Odd | 1u << Ascii : ~0u;
        g.controls = 3;
        g.tokens = tier && r.chance(10) ? 60 : 10;
        auto const n = genStreams(r, p, g);
        if (r.chance(5))
            p.ops.push_back({ K_WIDE, { r.range(0, n - 1), static_cast<i64>(r.below(1000)), static_cast<i64>(r.chance(40) ? 0xD800 + r.below(0x800) : 0x110000 + r.below(0x1000)), 1 }, {} });
        auto const steps = 2 + r.below(40);
        for (u64 k = 0; k < steps; ++k)
            p.ops.push_back({ K_STEP, { r.range(0, n - 1), static_cast<i64>(r.skewed(20000)), static_cast<i64>(1 + r.skewed(4)), static_cast<i64>(r.below(4)), static_cast<i64>(r.chance(20) ? 1 + r.below(3) : 0) }, {} });
        return p;
    }
} // namespace

void addSegment(vector<Scenario>& v)
{
    v.push_back({ "C09", gen09, runBreaks<Graphemes>, init, "a run is 1-4 texts, each segmented by a running state, by a state initialised at each boundary, by both iterator classes and by the C API, interleaved, suspended and copied by the schedule; non-trivial: some codepoint joins the cluster before it" });
    v.push_back({ "C10", gen10, runBreaks<Words>, init, "a run is 1-4 texts, each segmented by a running state and by a state initialised at each boundary, with lookahead from the least allowed upwards, and by the iterator, interleaved, suspended and copied by the schedule; non-trivial: some codepoint joins the word before it" });
    v.push_back({ "C11", gen11, run11, init, "a run is 1-4 texts, each consumed by a script, an emoji and two combined run segmenters, interleaved, suspended and copied by the schedule; non-trivial: some text has more than one run" });
}
} // namespace sim
