// Runner: seeded batches over forked workers, fork-per-candidate minimisation, replay.
#include "common.h"
#include "reboot.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace
{

using Clock = std::chrono::steady_clock; // pacing of the batch only, never seen by a run

double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

u64 hashText(string_view s)
{
    Log l;
    l.str(s);
    return l.hash;
}

Plan makePlan(Scenario const& sc, u64 seed, u64 index, int tier)
{
    u64 s = mix(mix(seed, hashText(sc.prop)), index);
    Rng rng { s };
    auto p = sc.gen(rng, tier);
    p.prop = sc.prop;
    p.seed = s;
    return p;
}

struct Outcome
{
    bool failed = false;
    string cls;
    string detail;
    u64 hash = 0;
    bool operator==(Outcome const& o) const { return failed == o.failed && cls == o.cls && hash == o.hash; }
};

string slurpFd(int fd)
{
    string r;
    char buf[4096];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;)
        r.append(buf, static_cast<size_t>(n));
    return r;
}

// Executes a plan. With SIM_FRESH, as the first thing in a process, as far as the library can tell: its writable
// statics and thread-local variables are as they were at the start.
void perform(Scenario const& sc, Plan const& plan, Ctx& ctx)
{
#if defined(SIM_FRESH)
    reboot::boot();
    reboot::bootThread();
#endif
    sc.run(plan, ctx);
}

// One plan, or a plan and those that a process performed before it.
using Plans = vector<Plan>;

// Runs the plans in a child of its own, so that crashes and hangs are outcomes, too. The first that fails decides.
Outcome execute(Scenario const& sc, Plans const& plans, int timeoutSeconds)
{
    int pfd[2];
    if (pipe(pfd))
        std::exit(2);
    int const err = memfd_create("stderr", 0);
    fflush(nullptr);
    pid_t const pid = fork();
    if (!pid)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(pfd[0]);
        dup2(err, 2);
        Stats st;
        for (size_t k = 0; k + 1 < plans.size(); ++k)
        {
            Ctx before { st };
            perform(sc, plans[k], before);
            if (before.failed)
                break;
        }
        Ctx ctx { st };
        perform(sc, plans.back(), ctx);
        string out = std::to_string(ctx.failed) + "\n" + std::to_string(ctx.log.hash) + "\n" + ctx.fail.cls + "\n" + ctx.fail.detail;
        size_t off = 0;
        while (off < out.size())
        {
            auto const n = write(pfd[1], out.data() + off, out.size() - off);
            if (n <= 0)
                break;
            off += static_cast<size_t>(n);
        }
        _exit(0);
    }
    close(pfd[1]);
    string out;
    auto const t0 = Clock::now();
    bool hang = false;
    for (;;)
    {
        pollfd p { pfd[0], POLLIN, 0 };
        int const left = static_cast<int>((timeoutSeconds - since(t0)) * 1000);
        if (left <= 0)
        {
            hang = true;
            kill(pid, SIGKILL);
            break;
        }
        if (poll(&p, 1, left) <= 0)
            continue;
        char buf[4096];
        auto const n = read(pfd[0], buf, sizeof buf);
        if (n <= 0)
            break;
        out.append(buf, static_cast<size_t>(n));
    }
    close(pfd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    auto const errText = slurpFd(err);
    close(err);
    Outcome o;
    if (hang)
        return { true, "hang", "no result within " + std::to_string(timeoutSeconds) + " s", 0 };
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0 || out.empty())
    {
        o.failed = true;
        o.cls = "crash";
        if (auto const i = errText.find("ERROR: AddressSanitizer: "); i != string::npos)
        {
            auto k = errText.substr(i + 25);
            k = k.substr(0, k.find_first_of(" \n"));
            o.cls = "crash:" + k;
            o.detail = errText.substr(i, 1500);
        }
        else
        {
            o.cls = WIFSIGNALED(status) ? "crash:signal" + std::to_string(WTERMSIG(status)) : "crash:exit" + std::to_string(WEXITSTATUS(status));
            o.detail = errText.substr(0, 1500);
        }
        return o;
    }
    auto next = [&]() {
        auto const e = out.find('\n');
        auto r = out.substr(0, e);
        out = e == string::npos ? string {} : out.substr(e + 1);
        return r;
    };
    o.failed = next() == "1";
    o.hash = std::strtoull(next().c_str(), nullptr, 10);
    o.cls = next();
    o.detail = out;
    return o;
}

// Delta debugging over the ops, then shrinking of their arguments, keeping the violation class.
template <typename Still, typename Time>
Plan minimise(Plan plan, Still const& still, Time const& time)
{
    for (bool progress = true; progress && time();)
    {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, plan.ops.size() / 2);; chunk /= 2)
        {
            for (size_t i = 0; i < plan.ops.size();)
            {
                auto cand = plan;
                auto const n = std::min(chunk, cand.ops.size() - i);
                cand.ops.erase(cand.ops.begin() + static_cast<long>(i), cand.ops.begin() + static_cast<long>(i + n));
                if (still(cand))
                {
                    plan = std::move(cand);
                    progress = true;
                }
                else
                    i += n;
            }
            if (chunk <= 1)
                break;
        }
        for (size_t i = 0; i < plan.ops.size(); ++i)
        {
            for (size_t len = plan.ops[i].b.size() / 2; len >= 1; len /= 2)
                for (size_t at = 0; at + len <= plan.ops[i].b.size();)
                {
                    auto cand = plan;
                    cand.ops[i].b.erase(at, len);
                    if (still(cand))
                    {
                        plan = std::move(cand);
                        progress = true;
                    }
                    else
                        at += len;
                }
            for (size_t k = 0; k < plan.ops[i].a.size(); ++k)
                for (i64 const v: { i64 { 0 }, i64 { 1 }, plan.ops[i].a[k] / 2, plan.ops[i].a[k] - 1 })
                    if (v >= 0 && v < plan.ops[i].a[k])
                    {
                        auto cand = plan;
                        cand.ops[i].a[k] = v;
                        if (still(cand))
                        {
                            plan = std::move(cand);
                            progress = true;
                            break;
                        }
                    }
        }
    }
    return plan;
}

Plans minimise(Scenario const& sc, Plans plans, string const& cls, double budget, u64& execs)
{
    auto const t0 = Clock::now();
    bool const slow = cls == "hang";
    auto const holds = [&](Plans const& p) {
        if (since(t0) > budget)
            return false;
        ++execs;
        auto const o = execute(sc, p, slow ? 5 : 20);
        return o.failed && o.cls == cls;
    };
    for (size_t chunk = plans.size() / 2; chunk; chunk /= 2)
        for (size_t i = 0; i + 1 < plans.size();)
        {
            auto cand = plans;
            auto const n = std::min(chunk, cand.size() - 1 - i);
            cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + n));
            if (holds(cand))
                plans = std::move(cand);
            else
                i += n;
        }
    for (auto& plan: plans)
    {
        auto const still = [&](Plan const& p) {
            auto cand = plans;
            cand[static_cast<size_t>(&plan - plans.data())] = p;
            return holds(cand);
        };
        plan = minimise(plan, still, [&] { return since(t0) < budget; });
    }
    return plans;
}

struct Slot
{
    std::atomic<u64> cur { ~u64 { 0 } };
    std::atomic<u64> beat { 0 };
};
struct Shared
{
    std::atomic<u64> minViolation { ~u64 { 0 } };
    std::atomic<u64> nondet { ~u64 { 0 } };
    Slot slot[64];
};

void lower(std::atomic<u64>& a, u64 v)
{
    for (u64 old = a.load(); v < old && !a.compare_exchange_weak(old, v);)
        ;
}

void writeStats(Stats const& st, string const& path)
{
    FILE* f = fopen(path.c_str(), "w");
    fprintf(f, "runs %llu\nsteps %llu\nsimMicros %llu\nrerun %llu\ndropped %llu\n", (unsigned long long) st.runs,
            (unsigned long long) st.steps, (unsigned long long) st.simMicros, (unsigned long long) st.rerun, (unsigned long long) st.statesDropped);
    for (auto const& [k, v]: st.counters)
        fprintf(f, "c %s %llu\n", k.c_str(), (unsigned long long) v);
    for (auto h: st.states)
        fprintf(f, "s %llx\n", (unsigned long long) h);
    for (auto h: st.distinct)
        fprintf(f, "d %llx\n", (unsigned long long) h);
    fclose(f);
}

void readStats(string const& path, Stats& st)
{
    FILE* f = fopen(path.c_str(), "r");
    if (!f)
        return;
    char key[32], name[128];
    unsigned long long v;
    while (fscanf(f, "%31s", key) == 1)
    {
        string const k = key;
        if (k == "c" && fscanf(f, "%127s %llu", name, &v) == 2)
            st.counters[name] += v;
        else if (k == "s" && fscanf(f, "%llx", &v) == 1)
            st.states.insert(v);
        else if (k == "d" && fscanf(f, "%llx", &v) == 1)
            st.distinct.insert(v);
        else if (fscanf(f, "%llu", &v) == 1)
        {
            if (k == "runs")
                st.runs += v;
            else if (k == "steps")
                st.steps += v;
            else if (k == "simMicros")
                st.simMicros += v;
            else if (k == "rerun")
                st.rerun += v;
            else if (k == "dropped")
                st.statesDropped += v;
        }
    }
    fclose(f);
}

bool performedTwice(u64 index, unsigned workers) { return (index / workers) % 50 == 0; }

// What a worker performed up to a run, the last `tail` indices of it.
Plans history(Scenario const& sc, u64 seed, u64 index, u64 first, unsigned workers, u64 tail, int tier)
{
    Plans r;
    for (u64 k = std::min(tail, (index - first) / workers) + 1; k--;)
    {
        auto const i = index - k * workers;
        r.push_back(makePlan(sc, seed, i, tier));
        if (performedTwice(i, workers))
            r.push_back(r.back());
    }
    return r;
}

string toText(Plans const& plans)
{
    string r;
    for (auto const& p: plans)
        r += toText(p);
    return r;
}
bool fromText(string const& text, Plans& plans)
{
    for (size_t at = 0; at < text.size();)
    {
        auto const e = text.find("\nend\n", at);
        if (e == string::npos)
            break;
        plans.emplace_back();
        if (!fromText(string_view(text).substr(at, e + 5 - at), plans.back()))
            return false;
        at = e + 5;
    }
    return !plans.empty();
}

void worker(Scenario const& sc, Shared& sh, unsigned w, unsigned workers, u64 seed, u64 first, u64 runs, double cap, int tier, string const& statsPath)
{
    Stats st;
    auto const* const slowLog = getenv("SIM_SLOW_LOG"); // to find workloads that come near the time limit of a run
    auto const t0 = Clock::now();
    for (u64 i = first + w; i < first + runs; i += workers)
    {
        if (sh.minViolation.load() < i || since(t0) > cap)
            break;
        sh.slot[w].cur.store(i);
        sh.slot[w].beat.fetch_add(1);
        auto const plan = makePlan(sc, seed, i, tier);
        Ctx ctx { st };
        auto const begun = Clock::now();
        perform(sc, plan, ctx);
        ++st.runs;
        if (slowLog && since(begun) > 1.5)
            if (FILE* f = fopen(slowLog, "a"))
            {
                fprintf(f, "%s seed %llu index %llu tier %d: %.1f s\n", sc.prop, (unsigned long long) seed, (unsigned long long) i, tier, since(begun));
                fclose(f);
            }
        if (ctx.nontrivial && st.distinct.size() < 400'000)
            st.distinct.insert(ctx.log.hash);
        if (ctx.failed)
        {
            lower(sh.minViolation, i);
            break;
        }
        if (performedTwice(i, workers))
        {
            Stats scratch;
            Ctx again { scratch };
            perform(sc, plan, again);
            ++st.rerun;
            if (again.failed)
            {
                lower(sh.minViolation, i);
                break;
            }
            if (again.log.hash != ctx.log.hash)
                lower(sh.nondet, i);
        }
    }
    sh.slot[w].cur.store(~u64 { 0 });
    writeStats(st, statsPath);
    _exit(0);
}

string jsonStr(string_view s)
{
    string r = "\"";
    for (char c: s)
    {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if (c == '\n')
            r += "\\n";
        else if (static_cast<u8>(c) < 0x20 || static_cast<u8>(c) >= 0x7F)
            r += '?';
        else
            r += c;
    }
    return r + "\"";
}

Scenario const* find(string_view prop)
{
    for (auto const& s: scenarios())
        if (prop == s.prop)
            return &s;
    return nullptr;
}

void put(string const& path, string const& text)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f)
        std::exit(2);
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
}

string get(string const& path)
{
    string r;
    FILE* f = fopen(path.c_str(), "r");
    if (!f)
        return r;
    char buf[65536];
    for (size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;)
        r.append(buf, n);
    fclose(f);
    return r;
}

} // namespace

int main(int argc, char** argv)
{
    // The same addresses in every process, so that even a run that reads stray memory repeats.
    if (auto const now = personality(0xffffffff); now != -1 && !(now & ADDR_NO_RANDOMIZE) && !getenv("SIM_ADDRESSES_FIXED") && personality(static_cast<unsigned long>(now) | ADDR_NO_RANDOMIZE) != -1)
    {
        setenv("SIM_ADDRESSES_FIXED", "1", 1);
        execv("/proc/self/exe", argv);
    }
    reboot::init();
    std::map<string, string> opt;
    string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2)
        opt[argv[i]] = argv[i + 1];
    auto const num = [&](char const* k, u64 d) { return opt.count(k) ? std::strtoull(opt[k].c_str(), nullptr, 10) : d; };
    rlimit const noCore { 0, 0 };
    setrlimit(RLIMIT_CORE, &noCore);
    int const tier = opt["--tier"] == "thorough" ? 1 : 0;

    if (mode == "replay")
    {
        Plans plan;
        if (!fromText(get(opt["--file"]), plan))
        {
            fprintf(stderr, "unreadable plan\n");
            return 2;
        }
        auto const* sc = find(plan.back().prop);
        if (!sc)
            return 2;
        if (sc->init)
            sc->init();
        auto const o = execute(*sc, plan, static_cast<int>(num("--timeout", 60)));
        printf("{\"failed\": %s, \"class\": %s, \"hash\": \"%llx\", \"detail\": %s}\n", o.failed ? "true" : "false", jsonStr(o.cls).c_str(),
               (unsigned long long) o.hash, jsonStr(o.detail).c_str());
        return o.failed ? 1 : 0;
    }
    if (mode == "dump")
    {
        auto const* sc = find(opt["--prop"]);
        if (!sc)
            return 2;
        if (sc->init)
            sc->init();
        auto const plan = makePlan(*sc, num("--seed", 1), num("--index", 0), tier);
        fputs(toText(plan).c_str(), stdout);
        return 0;
    }
    if (mode != "run")
        return 2;

    auto const* sc = find(opt["--prop"]);
    if (!sc)
    {
        fprintf(stderr, "no such property\n");
        return 2;
    }
    auto const seed = num("--seed", 1);
    auto const first = num("--first", 0);
    auto const runs = num("--runs", 1000);
    auto const workers = static_cast<unsigned>(std::min<u64>(num("--workers", 8), 64));
    auto const cap = std::strtod(opt.count("--cap") ? opt["--cap"].c_str() : "30", nullptr);
    auto const out = opt["--out"]; // directory
    int const hangAfter = static_cast<int>(num("--hang", 30));

    if (sc->init)
        sc->init();

    auto* sh = new (mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Shared {};
    vector<pid_t> pids;
    auto const t0 = Clock::now();
    for (unsigned w = 0; w < workers; ++w)
    {
        fflush(nullptr);
        pid_t const pid = fork();
        if (!pid)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int const fd = open((out + "/worker" + std::to_string(w) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            worker(*sc, *sh, w, workers, seed, first, runs, cap, tier, out + "/worker" + std::to_string(w) + ".stats");
        }
        pids.push_back(pid);
    }
    vector<u64> beat(workers, 0);
    vector<Clock::time_point> seen(workers, Clock::now());
    unsigned alive = workers;
    bool workerTrouble = false;
    while (alive)
    {
        usleep(20'000);
        for (unsigned w = 0; w < workers; ++w)
        {
            if (!pids[w])
                continue;
            int status = 0;
            if (waitpid(pids[w], &status, WNOHANG) == pids[w])
            {
                pids[w] = 0;
                --alive;
                if (!WIFEXITED(status) || WEXITSTATUS(status))
                {
                    auto const cur = sh->slot[w].cur.load();
                    if (cur == ~u64 { 0 })
                        workerTrouble = true;
                    else
                        lower(sh->minViolation, cur);
                }
                continue;
            }
            if (auto const b = sh->slot[w].beat.load(); b != beat[w])
            {
                beat[w] = b;
                seen[w] = Clock::now();
            }
            else if (since(seen[w]) > hangAfter)
            {
                lower(sh->minViolation, sh->slot[w].cur.load());
                kill(pids[w], SIGKILL);
                seen[w] = Clock::now();
            }
        }
    }
    double const runWall = since(t0);

    Stats st;
    for (unsigned w = 0; w < workers; ++w)
        readStats(out + "/worker" + std::to_string(w) + ".stats", st);

    string violation = "null";
    int rc = 0;
    if (workerTrouble)
    {
        fprintf(stderr, "a worker failed outside a run\n");
        rc = 2;
    }
    if (auto const nd = sh->nondet.load(); nd != ~u64 { 0 })
    {
        fprintf(stderr, "run %llu is not deterministic\n", (unsigned long long) nd);
        put(out + "/nondet.plan", toText(makePlan(*sc, seed, nd, tier)));
        rc = 2;
    }
    if (auto const v = sh->minViolation.load(); v != ~u64 { 0 })
    {
        Plans plan { makePlan(*sc, seed, v, tier) };
        auto const begun = Clock::now();
        auto const repeats = [&](Plans const& p, int attempts, Outcome& o1, Outcome& o2) {
            o1 = execute(*sc, p, hangAfter * 2);
            o2 = execute(*sc, p, hangAfter * 2);
            for (int k = 0; k < attempts && !(o1.failed && o2.failed && o1.cls == o2.cls); ++k)
            {
                // what the code under test does depends on more than its inputs
                if (o2.failed)
                    o1 = o2;
                o2 = execute(*sc, p, hangAfter * 2);
            }
            return o1.failed && o2.failed && o1.cls == o2.cls;
        };
        Outcome first1, first2;
        if (!repeats(plan, 6, first1, first2))
            // ... or it depends on what the process did before, which the boot at the start of a run cannot undo
            for (u64 tail = 0; since(begun) < 120; tail = tail * 4 + 1)
            {
                plan = history(*sc, seed, v, first, workers, tail, tier);
                if (repeats(plan, 1, first1, first2) || tail > v)
                    break;
            }
        if (!first1.failed || !first2.failed || first1.cls != first2.cls)
        {
            fprintf(stderr, "run %llu failed but does not repeat: %s / %s / %s\n", (unsigned long long) v, first1.cls.c_str(),
                    first2.cls.c_str(), first1.detail.c_str());
            put(out + "/unrepeatable.plan", toText(plan));
            rc = 2;
        }
        else
        {
            u64 execs = 0;
            auto const opsOf = [](Plans const& ps) {
                size_t n = 0;
                for (auto const& p: ps)
                    n += p.ops.size();
                return n;
            };
            auto const before = opsOf(plan);
            auto small = minimise(*sc, plan, first1.cls, std::strtod(opt.count("--mincap") ? opt["--mincap"].c_str() : "25", nullptr), execs);
            auto o = execute(*sc, small, hangAfter * 2);
            if (!o.failed || o.cls != first1.cls)
            {
                small = plan;
                o = first1;
            }
            string text = "# class " + o.cls + "\n# hash ";
            char buf[32];
            snprintf(buf, sizeof buf, "%llx", (unsigned long long) o.hash);
            text += buf;
            text += "\n# run index " + std::to_string(v) + " of VERIF_SEED " + std::to_string(seed) + ", minimised from " + std::to_string(before) + " to " + std::to_string(opsOf(small)) + " ops in " + std::to_string(execs) + " executions\n";
            {
                string d = o.detail;
                std::replace(d.begin(), d.end(), '\n', '|');
                text += "# " + d + "\n";
            }
            put(out + "/violation.plan", text + toText(small));
            violation = "{\"class\": " + jsonStr(o.cls) + ", \"detail\": " + jsonStr(o.detail) + ", \"hash\": \"" + buf + "\", \"index\": " + std::to_string(v) + ", \"opsBefore\": " + std::to_string(before) + ", \"ops\": " + std::to_string(opsOf(small)) + "}";
            rc = 1;
        }
        if (rc == 1)
            unlink((out + "/nondet.plan").c_str());
    }

    string js = "{\"runs\": " + std::to_string(st.runs) + ", \"steps\": " + std::to_string(st.steps) + ", \"simMicros\": " + std::to_string(st.simMicros) + ", \"rerun\": " + std::to_string(st.rerun) + ", \"states\": " + std::to_string(st.states.size()) + ", \"statesDropped\": " + std::to_string(st.statesDropped) + ", \"distinct\": " + std::to_string(st.distinct.size()) + ", \"wall\": " + std::to_string(runWall) + ", \"rule\": " + jsonStr(sc->rule) + ", \"violation\": " + violation + ", \"counters\": {";
    bool firstc = true;
    for (auto const& [k, v]: st.counters)
    {
        js += (firstc ? "" : ", ") + jsonStr(k) + ": " + std::to_string(v);
        firstc = false;
    }
    js += "}}\n";
    put(out + "/result.json", js);
    return rc;
}
