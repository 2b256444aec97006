// C13: simulated threads use the library at the same time, starting with the process's first calls.
#include "reboot.h"
#include "ref.h"
#include "scen.h"
#include "simthreads.h"
#include "streams.h"
#include "threads_api.h"

#include <algorithm>

namespace sim
{
namespace
{
    enum : int { K_CALL = 20, K_PREEMPT = 21 };

    struct Call
    {
        size_t stream;
        int api;
        unsigned variant;
    };

    void run(Plan const& plan, Ctx& ctx)
    {
        auto const w = buildWire(plan, ctx.st);
        auto const n = w.got.size();
        vector<thr::Shared> in(n);
        for (size_t i = 0; i < n; ++i)
        {
            in[i].utf8 = w.got[i];
            for (auto const& u: ref::decodeUtf8(in[i].utf8))
                if (u.good && u.cp < 0x110000)
                    in[i].u32 += static_cast<char32_t>(u.cp);
            for (auto c: in[i].u32)
                if (c < 0x10000)
                    in[i].u16 += static_cast<char16_t>(c);
                else
                {
                    in[i].u16 += static_cast<char16_t>(0xD7C0 + (c >> 10));
                    in[i].u16 += static_cast<char16_t>(0xDC00 + (c & 0x3FF));
                }
        }
        auto const threads = static_cast<size_t>(std::clamp<i64>(plan.get("threads", 2), 1, thr::maxThreads));
        vector<vector<Call>> calls(threads);
        vector<thr::Preempt> preempts;
        for (auto const& o: plan.ops)
        {
            if (o.kind == K_CALL && o.a.size() >= 4 && o.a[0] >= 0 && o.a[1] >= 0 && o.a[2] >= 0 && o.a[3] >= 0)
                calls[static_cast<size_t>(o.a[0]) % threads].push_back({ static_cast<size_t>(o.a[1]) % n, static_cast<int>(o.a[2] % thr::apiCount), static_cast<unsigned>(o.a[3]) });
            else if (o.kind == K_PREEMPT && o.a.size() >= 3)
                preempts.push_back({ static_cast<int>(o.a[0] & 1), static_cast<u64>(o.a[1]), static_cast<u64>(o.a[2]) });
        }
        size_t busy = 0;
        for (auto const& c: calls)
            busy += !c.empty();

        vector<vector<u64>> got(threads), want(threads);
        auto const body = [&](size_t t, vector<vector<u64>>& out) {
            return [&, t] {
                for (size_t k = 0; k < calls[t].size(); ++k)
                    out[t][k] = thr::callApi(calls[t][k].api, in[calls[t][k].stream], calls[t][k].variant);
            };
        };
        // What each thread gets when it has the process to itself.
        for (size_t t = 0; t < threads; ++t)
        {
            got[t].resize(calls[t].size());
            want[t].resize(calls[t].size());
            reboot::boot();
            thr::alone(body(t, want));
        }
        reboot::boot();
        vector<std::function<void()>> bodies;
        for (size_t t = 0; t < threads; ++t)
            bodies.emplace_back(body(t, got));
        auto const r = thr::run(bodies, preempts);
        ctx.st.steps += r.steps;
        ctx.st.hit("fault_preemption", r.switches);
        ctx.st.hit("blocked_on_another_thread", r.contended);
        ctx.st.hit("accesses_to_statics", r.staticAccesses);
        ctx.log.num(r.switches);
        ctx.log.num(r.contended);
        ctx.log.num(r.steps);
        ctx.log.num(r.interleaving);
        ctx.log.str(r.failure);
        ctx.st.state(r.interleaving);
        if (!r.failure.empty())
            return ctx.violate(r.failure, r.detail);
        if (r.switches && busy > 1)
            ctx.nontrivial = true;
        for (size_t t = 0; t < threads; ++t)
            for (size_t k = 0; k < calls[t].size(); ++k)
            {
                ctx.log.num(got[t][k]);
                ctx.st.hit("calls_compared");
                if (got[t][k] != want[t][k])
                {
                    auto const& c = calls[t][k];
                    return ctx.violate("different-result", "thread " + std::to_string(t) + ", call " + std::to_string(k) + " (" + thr::apiName(c.api) + " of " + show(string_view(in[c.stream].utf8)) + ") returned something else than it does alone");
                }
            }
    }

    void init()
    {
        text::init();
        reboot::init();
    }

    Plan gen(Rng& r, int tier)
    {
        Plan p;
        StreamGen g;
        g.longest = 0;
        g.minStreams = 1;
        g.maxStreams = 2;
        g.tokens = 2 + r.below(8);
        g.damage = 10;
        g.rawNoise = 5;
        genStreams(r, p, g);
        std::map<i64, size_t> room; // each access is a step of the scheduler: short texts do
        for (auto& o: p.ops)
            if (o.kind == K_TEXT)
            {
                auto& used = room[o.a[0]];
                size_t keep = std::min(o.b.size(), 600 - std::min<size_t>(600, used));
                while (keep < o.b.size() && keep && (static_cast<u8>(o.b[keep]) & 0xC0) == 0x80)
                    --keep;
                o.b.resize(keep);
                used += keep;
            }
        auto const n = p.get("streams", 1);
        auto const threads = r.range(2, r.chance(70) ? 2 : 4);
        p.cfg["threads"] = threads;
        // threads that start with the same function meet in its first use
        bool const same = r.chance(50);
        auto const api = r.range(0, thr::apiCount - 1);
        for (i64 t = 0; t < threads; ++t)
            for (auto k = 1 + r.below(tier ? 8 : 4); k--;)
                p.ops.push_back({ K_CALL, { t, r.range(0, n - 1), same && r.chance(80) ? (r.chance(70) ? api : r.range(0, 3)) : r.range(0, thr::apiCount - 1), static_cast<i64>(r.below(400)) }, {} });
        auto const style = r.below(4);
        for (auto k = style == 0 ? r.below(3) : style == 1 ? 1 + r.below(6) : 10 + r.below(tier ? 400 : 120); k--;)
        {
            i64 const kind = style == 3 ? 0 : r.chance(60);
            i64 const steps = kind ? static_cast<i64>(r.skewed(12)) : style == 3 ? static_cast<i64>(r.below(4)) : static_cast<i64>(r.skewed(4000));
            p.ops.push_back({ K_PREEMPT, { kind, steps, r.range(0, 3) }, {} });
        }
        return p;
    }
} // namespace

void addThreads(vector<Scenario>& v)
{
    v.push_back({ "C13", gen, run, init, "a run starts a process in which 2-4 threads call seeded public functions on shared texts, the scheduler switching between them at seeded memory accesses and synchronisation operations; non-trivial: two threads had calls to make and the scheduler switched between them" });
}
} // namespace sim
