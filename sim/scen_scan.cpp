// C01-C04: terminals fed from damaged, fragmented lines, against a reference scanner.
#include "asan.h"
#include "scanmodel.h"
#include "scen.h"
#include "streams.h"

#include <libunicode/scan.h>

#include <algorithm>
#include <memory>

namespace sim
{
namespace
{
    struct Receiver final: unicode::grapheme_cluster_receiver
    {
        char const* base = nullptr;
        vector<ScanEvent> ev;
        unsigned every = 0, seen = 0; // every so many events the receiver scans something else itself
        u64 nested = 0;
        bool disturbed = false;
        void receiveAsciiSequence(string_view t) noexcept override
        {
            ev.push_back({ 'A', static_cast<size_t>(t.data() - base), static_cast<size_t>(t.data() + t.size() - base), 0 });
            interrupt();
        }
        void receiveGraphemeCluster(string_view t, size_t n) noexcept override
        {
            ev.push_back({ 'G', static_cast<size_t>(t.data() - base), static_cast<size_t>(t.data() + t.size() - base), n });
            interrupt();
        }
        void receiveInvalidGraphemeCluster() noexcept override
        {
            ev.push_back({ 'I', 0, 0, 0 });
            interrupt();
        }
        void interrupt() noexcept;
    };

    // What a receiver may look at meanwhile: a status line, say.
    constexpr std::array<string_view, 8> asides { "status: 42%\x1b", "e\xCC\x81\xCC\x81x", "\xE6\xBC\xA2\xE5\xAD\x97 abc", "\xF0\x9F\x91\xA9\xE2\x80\x8D\xF0\x9F\x91\xA9\xF0\x9F\x87", "\xFF\xC3x\xE2\x82", "\xE0\xA4\x95\xE0\xA5\x8D\xE0\xA4\xB7\xE0\xA4\xBF", "0123456789012345678901234567890123456789012345678901234567890123456789", "\xE2\x9D\xA4\xEF\xB8\x8F\xE2\x9D\xA4" };
    struct Aside
    {
        size_t count = 0, end = 0;
        vector<ScanEvent> ev;
        bool operator==(Aside const&) const = default;
    };
    Aside lookAside(string_view s)
    {
        Receiver r;
        r.base = s.data();
        unicode::scan_state st {};
        auto const x = unicode::scan_text(st, s, 20, r);
        return { x.count, static_cast<size_t>(x.end - s.data()), r.ev };
    }
    vector<Aside> asidesAlone;
    void Receiver::interrupt() noexcept
    {
        if (!every || ++seen % every)
            return;
        auto const k = seen / every % asides.size();
        disturbed |= !(lookAside(asides[k]) == asidesAlone[k]);
        ++nested;
    }

    string showEvents(vector<ScanEvent> const& ev)
    {
        string r;
        for (auto const& e: ev)
            r += string(1, e.what) + "[" + std::to_string(e.from) + "," + std::to_string(e.to) + ")" + (e.what == 'G' ? "=" + std::to_string(e.cols) : "") + " ";
        return r;
    }

    // Columns of the stream, run by run (a run ends at a control), measured on the whole text.
    vector<size_t> wholeColumns(string_view t)
    {
        vector<size_t> runs { 0 };
        std::u32string cl;
        ref::Width w;
        auto const close = [&] {
            runs.back() += cl.empty() ? 0 : w.width();
            cl.clear();
            w = {};
        };
        for (auto const& u: ref::decodeUtf8(t))
        {
            if (u.truncatedAtEnd)
                break;
            bool const ctl = u.good ? u.cp < 0x20 && u.len == 1 : u.len == 1 && isC1Byte(t[u.at]);
            if (ctl || !u.good)
            {
                close();
                if (ctl)
                    runs.push_back(0);
                else
                    ++runs.back();
                continue;
            }
            if (u.len == 1)
                close();
            cl += static_cast<char32_t>(u.cp);
            if (cl.size() > 1 && ref::graphemeBreakBefore(cl, cl.size() - 1))
            {
                cl.pop_back();
                close();
                cl = static_cast<char32_t>(u.cp);
            }
            // an ASCII character takes one column, DEL included
            w.push(u.cp, u.len == 1 ? 1 : cpWidth(u.cp));
        }
        close();
        return runs;
    }

    struct Term
    {
        string const* wire = nullptr;
        std::unique_ptr<RecvBuffer> buf;
        unicode::scan_state st {};
        ScanModel model;
        Receiver recv;
        vector<ScanEvent> all;
        size_t pos = 0; // where the next call starts
        size_t tile = 0; // everything before it is accounted for
        size_t line = 0, col = 0; // 0: unlimited
        size_t boost = 1;
        bool byNull = false, useReceiver = true;
        vector<size_t> stops;
        vector<size_t> runColumns { 0 };
        bool narrowed = false;
        u64 calls = 0;
    };

    bool step(Term& t, Ctx& ctx, int who, bool& again)
    {
        again = false;
        auto const b = t.buf->delivered;
        char const* base = t.buf->data;
        size_t const budget = t.line ? (t.line * t.boost > t.col ? t.line * t.boost - t.col : 0) : t.byNull ? ~size_t { 0 } : size_t { 1 } << 30;
        vector<ScanEvent> want;
        auto const m = t.model.call(string_view(*t.wire), t.pos, b, budget, want);

        if (t.byNull)
            t.st.next = nullptr;
        else if (t.st.next)
            t.st.next = base + t.pos;
        string_view const chunk { base + t.pos, b - t.pos };
        t.recv.base = base;
        t.recv.ev.clear();
        auto const r = t.useReceiver ? unicode::scan_text(t.st, chunk, budget, t.recv) : unicode::scan_text(t.st, chunk, budget);
        ++t.calls;
        ctx.st.hit("scan_calls");
        auto const start = static_cast<size_t>(r.start - base), end = static_cast<size_t>(r.end - base), next = static_cast<size_t>(t.st.next - base);
        ctx.log.num(r.count);
        ctx.log.num(start);
        ctx.log.num(end);
        ctx.log.num(next);
        for (auto const& e: t.recv.ev)
        {
            ctx.log.num(static_cast<u64>(e.what));
            ctx.log.num(e.from);
            ctx.log.num(e.to);
            ctx.log.num(e.cols);
        }
        auto const where = "stream " + std::to_string(who) + " call " + std::to_string(t.calls) + " on [" + std::to_string(t.pos) + "," + std::to_string(b) + ") budget " + std::to_string(budget) + ": ";
        auto const bytes = [&] { return " bytes " + show(string_view(*t.wire).substr(t.tile > 16 ? t.tile - 16 : 0, 64)); };
        if (r.count > budget)
            ctx.violate("over-budget", where + "reported " + std::to_string(r.count) + " columns");
        else if (start != t.tile || end < start || next < end || next > b)
            ctx.violate("tiling", where + "[" + std::to_string(start) + "," + std::to_string(end) + ") next " + std::to_string(next) + ", accounted up to " + std::to_string(t.tile) + bytes());
        else if (r.count != m.count)
            ctx.violate("columns", where + "count " + std::to_string(r.count) + ", expected " + std::to_string(m.count) + bytes());
        else if (start != m.start || end != m.end || next != m.next)
            ctx.violate("range", where + "start/end/next " + std::to_string(start) + "/" + std::to_string(end) + "/" + std::to_string(next) + ", expected " + std::to_string(m.start) + "/" + std::to_string(m.end) + "/" + std::to_string(m.next) + bytes());
        else if (t.useReceiver && t.recv.ev != want)
            ctx.violate("receiver", where + "got " + showEvents(t.recv.ev) + "expected " + showEvents(want) + bytes());
        else if (t.recv.disturbed)
            ctx.violate("nested", where + "a text scanned by the receiver meanwhile gave another result than alone");
        if (ctx.failed)
            return false;
        if (t.recv.nested)
        {
            ctx.st.hit("fault_receiver_scans_meanwhile", t.recv.nested);
            t.recv.nested = 0;
        }
        for (auto const& e: want)
            ctx.st.hit(e.what == 'A' ? "ascii_runs" : e.what == 'G' ? "cluster_pieces" : "ill_formed");
        t.all.insert(t.all.end(), t.recv.ev.begin(), t.recv.ev.end());
        t.tile = end;
        t.runColumns.back() += r.count;
        if (t.line)
            t.col += r.count;
        if (m.why == 'E' && t.model.pend)
        {
            ctx.st.hit("cut_inside_character");
            ctx.nontrivial = true;
        }
        else if (m.why == 'E' && t.model.cluster.size() && next == b && t.calls > 1)
            ctx.st.hit("cut_with_open_cluster");
        ctx.st.state(mix(t.model.shape(), mix(static_cast<u64>(m.why), std::min<size_t>(budget - r.count, 4))));

        if (next < b && (isControlByte(base[next]) || (isC1Byte(base[next]) && !t.model.pend && m.why == 'C')) && next == end && m.why == 'C')
        {
            // the caller handles the control
            ctx.st.hit("stopped_at_control");
            t.stops.push_back(next);
            t.runColumns.push_back(0);
            t.pos = t.tile = next + 1;
            t.boost = 1;
            if (base[next] == '\n' || base[next] == '\r')
                t.col = 0;
            again = t.pos < b;
            return true;
        }
        if (m.why == 'W')
        {
            ctx.st.hit("stopped_at_budget");
            ctx.nontrivial = true;
            // wrap, or widen the line if even a whole line cannot hold the next cluster
            if (next == t.pos && r.count == 0 && t.col == 0)
            {
                ctx.st.hit("line_too_narrow");
                t.boost *= 2;
            }
            else
                t.boost = 1;
            t.col = 0;
            t.pos = next;
            again = t.pos < b || t.model.pend;
            if (t.boost > 4 * (t.wire->size() + 16)) // no cluster is wider than that
            {
                ctx.violate("no-progress", where + "stuck" + bytes());
                return false;
            }
            return true;
        }
        if (next != b)
        {
            ctx.violate("early-stop", where + "stopped at " + std::to_string(next) + bytes());
            return false;
        }
        t.pos = b;
        return true;
    }

    void run(Plan const& plan, Ctx& ctx)
    {
        auto const w = buildWire(plan, ctx.st);
        auto const n = w.got.size();
        vector<Term> term(n);
        for (size_t i = 0; i < n; ++i)
        {
            auto& t = term[i];
            t.wire = &w.got[i];
            t.buf = std::make_unique<RecvBuffer>(t.wire->size());
            t.line = static_cast<size_t>(std::max<i64>(0, plan.get(("line" + std::to_string(i)).c_str())));
            auto const style = plan.get(("style" + std::to_string(i)).c_str(), 2);
            t.byNull = style & 1;
            t.recv.every = static_cast<unsigned>(std::max<i64>(0, plan.get(("meanwhile" + std::to_string(i)).c_str())));
            if (t.recv.every && asidesAlone.empty())
                for (auto const& s: asides)
                    asidesAlone.push_back(lookAside(s));
            t.useReceiver = style & 2;
        }
        u64 order = 0;
        auto const deliver = [&](size_t i, size_t bytes) {
            auto& t = term[i];
            bytes = std::min(bytes, t.wire->size() - t.buf->delivered);
            t.buf->deliver(t.wire->data(), bytes);
            order = mix(order, i * 1000 + bytes);
            // Bounded: every call either advances, or wraps, or widens the line.
            for (size_t k = 0, cap = 8 * t.wire->size() + 64;; ++k)
            {
                bool again = false;
                if (!step(t, ctx, static_cast<int>(i), again))
                    return false;
                if (!again)
                    return true;
                if (k > cap)
                {
                    ctx.violate("no-progress", "stream " + std::to_string(i) + " needs more than " + std::to_string(cap) + " calls");
                    return false;
                }
            }
        };
        for (auto const& e: timeline(plan, ctx.st))
        {
            if (e.op->kind != K_DELIVER || e.op->a.size() < 3)
                continue;
            if (!deliver(static_cast<size_t>(e.op->a[0]) % n, static_cast<size_t>(std::max<i64>(0, e.op->a[2]))))
                return;
        }
        for (size_t i = 0; i < n; ++i)
            if (!deliver(i, ~size_t { 0 } >> 1))
                return;

        // The whole history, against the whole stream.
        for (size_t i = 0; i < n; ++i)
        {
            auto& t = term[i];
            string_view const s = *t.wire;
            auto const stops = controlStops(s);
            auto const who = "stream " + std::to_string(i) + " ";
            if (t.stops != stops)
                return ctx.violate("stops", who + "controls: " + std::to_string(t.stops.size()) + " stops, expected " + std::to_string(stops.size()) + " in " + show(s));
            // columns, unless something was narrowed after it had been reported
            if (s.find("\xEF\xB8\x8E") == string_view::npos)
                if (auto const want = wholeColumns(s); t.runColumns != want)
                    for (size_t k = 0; k < want.size() && k < t.runColumns.size(); ++k)
                        if (want[k] != t.runColumns[k])
                            return ctx.violate("run-columns", who + "run " + std::to_string(k) + ": " + std::to_string(t.runColumns[k]) + " columns, expected " + std::to_string(want[k]) + " in " + show(s));
            if (t.useReceiver)
            {
                size_t at = 0;
                size_t k = 0, off = 0;
                auto const next = [&]() -> i64 { // next delivered byte, -1 for ill-formed, -2 for the end
                    while (k < t.all.size() && t.all[k].what != 'I' && t.all[k].from + off >= t.all[k].to)
                        ++k, off = 0;
                    if (k == t.all.size())
                        return -2;
                    if (t.all[k].what == 'I')
                        return ++k, off = 0, -1;
                    return static_cast<i64>(t.all[k].from + off++);
                };
                for (auto const& u: ref::decodeUtf8(s))
                {
                    if (u.truncatedAtEnd)
                        break;
                    if (!u.good && !(u.len == 1 && isC1Byte(s[u.at])))
                    {
                        if (next() != -1)
                            return ctx.violate("ill-formed-lost", who + "ill-formed sequence at " + std::to_string(u.at) + " not announced in " + show(s));
                        continue;
                    }
                    if (!u.good || (u.len == 1 && u.cp < 0x20))
                        continue;
                    for (at = u.at; at < u.at + u.len; ++at)
                        if (auto const g = next(); g != static_cast<i64>(at))
                            return ctx.violate("bytes-lost", who + "byte " + std::to_string(at) + " expected by the receiver, got " + std::to_string(g) + " in " + show(s));
                }
                if (auto const g = next(); g != -2)
                    return ctx.violate("bytes-extra", who + "receiver got more than the text, " + std::to_string(g));
            }
        }
        ctx.log.num(order);
    }

    void init() { text::init(); }

    Plan make(Rng& r, StreamGen const& g, unsigned unlimitedPercent, int tier)
    {
        Plan p;
        auto gg = g;
        if (tier && r.chance(10))
            gg.tokens *= 6;
        auto const n = genStreams(r, p, gg);
        static constexpr int widths[] { 1, 2, 3, 4, 5, 7, 8, 10, 16, 17, 33, 64, 80, 132 };
        for (int i = 0; i < n; ++i)
        {
            p.cfg["line" + std::to_string(i)] = r.chance(unlimitedPercent) ? 0 : widths[r.below(std::size(widths))];
            if (r.chance(15))
                p.cfg["meanwhile" + std::to_string(i)] = static_cast<i64>(1 + r.below(4));
            p.cfg["style" + std::to_string(i)] = static_cast<i64>(r.chance(10) ? r.below(2) : 2 + r.below(2));
        }
        // A line wider than any screen, and enough text to fill it.
        if (r.permille(8))
        {
            static constexpr int wide[] { 255, 256, 257, 1000, 2048, 4096, 5000, 10'000, 32'768, 65'535, 65'536, 70'000 };
            auto const columns = r.pick(wide) + (r.chance(30) ? static_cast<int>(r.below(40)) : 0);
            for (auto tries = 0; tries < 8; ++tries)
            {
                auto& o = p.ops[r.below(p.ops.size())];
                if (o.kind != K_TEXT || o.b.empty() || static_cast<u8>(o.b[0]) < 0x20)
                    continue;
                if (r.chance(50))
                    o.b.erase(std::find_if(o.b.begin() + 1, o.b.end(), [&](char c) { return static_cast<u8>(c) < 0x20 || static_cast<u8>(c) >= 0x80 || static_cast<u8>(o.b[0]) >= 0x80; }), o.b.end());
                o.a.resize(1);
                o.a.push_back(static_cast<i64>(1 + (static_cast<u64>(columns) * (50 + r.below(200)) / 100) / o.b.size()));
                if (unlimitedPercent < 100)
                    p.cfg["line" + std::to_string(o.a[0])] = columns;
                break;
            }
        }
        genDeliveries(r, p, n);
        return p;
    }
    Plan gen01(Rng& r, int tier)
    {
        StreamGen g;
        return make(r, g, 100, tier);
    }
    Plan gen02(Rng& r, int tier)
    {
        StreamGen g;
        g.damage = 35;
        g.rawNoise = 15;
        return make(r, g, 50, tier);
    }
    Plan gen03(Rng& r, int tier)
    {
        StreamGen g;
        g.damage = 25;
        g.rawNoise = 15;
        g.controls = 4;
        return make(r, g, 0, tier);
    }
    Plan gen04(Rng& r, int tier)
    {
        StreamGen g;
        g.damage = 100;
        g.rawNoise = 12;
        return make(r, g, 70, tier);
    }
} // namespace

void addScan(vector<Scenario>& v)
{
    v.push_back({ "C01", gen01, run, init, "a run is 1-3 terminals whose well-formed byte streams (text pieces of a random subset of 13 themes, C0/C1 controls) arrive in seeded fragments interleaved by simulated time; non-trivial: at least one call ended inside a character" });
    v.push_back({ "C02", gen02, run, init, "1-3 terminals, line widths limited for half the streams, 35% of runs with transmission damage; non-trivial: at least one call ended inside a character or at the column budget" });
    v.push_back({ "C03", gen03, run, init, "1-3 terminals with line widths 1-132 that wrap, 25% of runs with transmission damage; non-trivial: at least one call ended at its column budget or inside a character" });
    v.push_back({ "C04", gen04, run, init, "1-3 terminals, every run with transmission damage (drop, duplicate, corrupt, truncate, insert, reorder, bit flip; 70% aimed into multi-byte characters); non-trivial: at least one call ended inside a character or at the column budget" });
}
} // namespace sim
