// C17, C18, C19: the table generator on a simulated machine whose disk, memory and power fail.
#include "scen.h"
#include "vfs.h"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <iterator>

int sim_tablegen_main(int argc, char const* argv[]);

namespace sim
{
namespace
{
    enum : int { K_BOOT = 40, K_FAULT = 41, K_STALE = 42, K_POWER = 43, K_GONE = 44 };
    using Files = std::map<string, string>;
    using namespace vfs;

    struct Corpus
    {
        Files in, out;
        Files used; // of in: what the generator reads
        u64 ops[ClassCount] {};
        u64 bytes = 0;
    };
    vector<Corpus> corpora; // the last one is the whole database

    int program(string const& in, string const& out, u64&)
    {
        char const* argv[] { "unicode_tablegen", in.c_str(), out.c_str(), nullptr };
        return sim_tablegen_main(3, argv);
    }

    string sampled(string const& whole, bool all, size_t head, size_t every, size_t offset)
    {
        string r;
        size_t n = 0;
        for (size_t i = 0; i < whole.size();)
        {
            auto const e = std::min(whole.find('\n', i), whole.size() - 1) + 1;
            bool const data = whole[i] != '#' && whole[i] != '@' && whole[i] != '\n' && whole[i] != '\r';
            if (all || (data ? n < head || (n + offset) % every == 0 : whole.compare(i, 2, "# ") == 0))
                r.append(whole, i, e - i);
            n += data;
            i = e;
        }
        return r;
    }

    Files whole;
    constexpr size_t minis = 5;
    void prepare()
    {
        char const* const env = std::getenv("SIM_UCD_DIR");
        string const dir = env && *env ? env : "/usr/share/unicode";
        // Whatever text files the database has, so that a generator that reads others finds them.
        for (auto const& e: std::filesystem::recursive_directory_iterator(dir))
            if (e.is_regular_file() && e.path().extension() == ".txt")
                if (auto f = std::ifstream(e.path()))
                    whole[e.path().lexically_relative(dir).string()] = string(std::istreambuf_iterator<char>(f), {});
        corpora.resize(minis + 1);
    }
    // The database sampled in one way or another, and what the generator makes of it.
    Corpus const& corpus(i64 which)
    {
        auto const v = static_cast<size_t>(which) % corpora.size();
        auto& c = corpora[v];
        if (!c.out.empty())
            return c;
        if (v < minis)
            for (auto const& [k, text]: whole)
                c.in[k] = sampled(text, k == "PropertyValueAliases.txt", 60 + v * 120, 997 - 150 * v, v * 5);
        else
            c.in = whole;
        clearDisk();
        auto const o = boot(c.in, {}, {}, program);
        c.out = outputs();
        for (auto const& [k, text]: c.in)
            if (std::find(o.opened.begin(), o.opened.end(), hashOf(("/sim/ucd/" + k).c_str())) != o.opened.end())
                c.used[k]; // the name is all
        if (!o.exited || o.status || c.out.empty() || c.used.empty())
        {
            if (v == minis)
            {
                fprintf(stderr, "the table generator fails on an undisturbed machine (exited %d, status %d, signal %d, runaway %d, threw %d, files %zu): %s\n",
                    o.exited, o.status, o.signal, o.runaway, o.threw, c.out.size(), o.said.c_str());
                std::exit(2);
            }
            // it may ask for more than a sample offers
            c = corpus(static_cast<i64>(minis));
            return c;
        }
        std::copy_n(o.ops, ClassCount, c.ops);
        for (auto const& [k, text]: c.out)
            c.bytes += text.size();
        return c;
    }

    string where(string const& a, string const& b)
    {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
            ++i;
        return a == b ? "" : "differs from byte " + std::to_string(i) + " on (" + std::to_string(a.size()) + " bytes, should be " + std::to_string(b.size()) + ")";
    }
    // What is wrong with the generated files, if anything.
    string compare(Corpus const& c, Files const& got)
    {
        for (auto const& [name, text]: c.out)
        {
            auto const i = got.find(name);
            if (i == got.end())
                return name + " is missing";
            if (i->second != text)
                return name + " " + where(i->second, text);
        }
        return {};
    }

    struct Boot
    {
        Machine m;
        u64 capacity = ~u64 { 0 };
        vector<Fault> faults;
        vector<i64> gone; // input files that are not there
    };
    string nameOf(Files const& files, string const& dir, i64 k)
    {
        auto it = files.begin();
        std::advance(it, static_cast<long>(static_cast<u64>(k) % files.size()));
        return dir + it->first;
    }
    string targetOf(Corpus const& c, i64 cls, i64 k)
    {
        if (!k)
            return {};
        bool const input = cls == OpenRead || cls == Read || cls == CloseRead;
        return input ? nameOf(c.used, "/sim/ucd/", k) : nameOf(c.out, "/sim/out/", k);
    }

    void stale(Corpus const& c, Op const& op)
    {
        auto it = c.out.begin();
        std::advance(it, static_cast<long>(static_cast<u64>(op.a[0]) % c.out.size()));
        auto text = it->second;
        auto const arg = static_cast<u64>(op.a[2]);
        switch (op.a[1] % 6)
        {
            case 0: text = text.substr(0, text.empty() ? 0 : arg % text.size()); break; // torn
            case 1: text += text.substr(0, 1 + arg % 9000); break;                       // longer than it will be
            case 2:                                                                      // same size, other content
                if (!text.empty())
                    text[arg % text.size()] ^= 1;
                break;
            case 3: text.assign(1 + arg % 70'000, '\0'); break;
            case 4: text.clear(); break;
            default: break; // up to date
        }
        putOutput(it->first, text);
    }

    void run(Plan const& plan, Ctx& ctx)
    {
        auto const& c = corpus(plan.get("corpus"));
        bool const c19 = plan.prop == "C19";
        clearDisk();
        unsigned boots = 0;
        bool disturbed = false;

        auto report = [&](Outcome const& o) {
            ctx.log.num(o.trace);
            ctx.log.num(static_cast<u64>(o.status) + 1000 * static_cast<u64>(o.signal) + 1'000'000 * (o.crashed + 2 * o.runaway + 4 * o.threw));
            u64 fired = 0;
            for (int k = 0; k < KindCount; ++k)
                if (o.fired[k])
                {
                    fired = mix(fired, static_cast<u64>(k));
                    disturbed = true;
                    ctx.st.hit((string("fault_") + kindName(k)).c_str(), o.fired[k]);
                }
            for (int k = 0; k < ClassCount; ++k)
                ctx.st.steps += k == Alloc ? 0 : o.ops[k];
            ctx.st.simMicros += o.nanos / 1000;
            ctx.st.hit(o.crashed ? "ended_by_power_loss" : o.exited && !o.status ? "reported_success" : "reported_failure");
            ctx.st.state(mix(mix(fired, static_cast<u64>(o.status)), mix(o.ops[OpenRead] * 64 + o.ops[OpenWrite], o.ops[Read] * 4096 + o.ops[Write])));
            ++boots;
        };
        auto go = [&](Boot const& b, bool last) {
            capacity = b.capacity;
            auto in = b.gone.empty() ? Files {} : c.in;
            for (auto const k: b.gone)
            {
                in.erase(nameOf(c.used, "", k));
                ctx.st.hit("fault_missing_file");
                disturbed = true;
            }
            auto const o = boot(b.gone.empty() ? c.in : in, b.m, b.faults, program);
            report(o);
            auto const got = outputs();
            for (auto const& [k, v]: got)
            {
                ctx.log.str(k);
                ctx.log.num(v.size());
            }
            if (o.runaway)
                return ctx.violate("runaway", "the generator does not come to an end");
            bool const success = o.exited && !o.status && !o.threw;
            if (success)
                if (auto const bad = compare(c, got); !bad.empty())
                {
                    ctx.log.str(bad);
                    if (c19 && last)
                        return ctx.violate("different-tables", "an undisturbed run after " + std::to_string(boots - 1) + " others: " + bad);
                    if (!c19)
                        return ctx.violate("silently-different", "the generator reports success, but " + bad);
                }
            bool const memory = o.fired[F_NOMEM];
            if (!memory && !o.crashed && (o.signal == 11 || o.signal == 7 || o.signal == 8 || o.signal == 4))
                return ctx.violate("crashed", "the generator was ended by signal " + std::to_string(o.signal));
            if (last && c19 && !success)
                return ctx.violate("not-repaired", "an undisturbed run after " + std::to_string(boots - 1) + " others fails (status " + std::to_string(o.status) + ", signal " + std::to_string(o.signal) + ")");
            // powerless parts of the disk
            if (o.crashed)
            {
                ctx.log.num(powerLoss(b.faults.empty() ? 0 : b.faults[0].arg));
            }
        };

        Boot current;
        bool pending = false;
        for (auto const& op: plan.ops)
        {
            if (ctx.failed)
                return;
            if (op.kind == K_FAULT && pending)
                current.faults.push_back({ static_cast<int>(op.a[0]), static_cast<u64>(op.a[1]), static_cast<int>(op.a[2]), static_cast<u64>(op.a[3]), targetOf(c, op.a[0], op.a.size() > 4 ? op.a[4] : 0) });
            else if (op.kind == K_GONE && pending)
                current.gone.push_back(op.a[0]);
            else if (op.kind == K_BOOT || op.kind == K_STALE || op.kind == K_POWER)
            {
                if (pending)
                    go(current, false);
                pending = false;
                if (op.kind == K_STALE)
                    stale(c, op);
                else if (op.kind == K_POWER)
                    ctx.log.num(powerLoss(static_cast<u64>(op.a[0])));
                else
                {
                    current = {};
                    current.m = { static_cast<u64>(op.a[2]), 1000, static_cast<u64>(op.a[3]), static_cast<u64>(op.a[0]), static_cast<int>(op.a[1]) };
                    current.capacity = op.a[4] < 0 ? ~u64 { 0 } : static_cast<u64>(op.a[4]);
                    pending = true;
                }
            }
        }
        if (ctx.failed)
            return;
        if (pending)
            go(current, false);
        if (ctx.failed)
            return;
        if (c19)
        {
            Boot last;
            last.m = { static_cast<u64>(plan.get("clock")), 1000, static_cast<u64>(plan.get("latency", 1000)), static_cast<u64>(plan.get("layout")), static_cast<int>(plan.get("style")) };
            go(last, true);
            disturbed = true;
        }
        if (disturbed)
            ctx.nontrivial = true;
    }

    i64 pickCorpus(Rng& r, int tier)
    {
        return r.permille(tier ? 60 : 12) ? static_cast<i64>(corpora.size()) - 1 : r.range(0, static_cast<i64>(corpora.size()) - 2);
    }
    Op machineOp(Rng& r, i64 cap)
    {
        // layout: bits 0-15 start, 8-15 junk, 16-23 stack, 24- pid, 32- order
        return { K_BOOT, { static_cast<i64>(r.next() >> 1) * (r.chance(80) ? 1 : 0), static_cast<i64>(r.below(80)), static_cast<i64>(r.below(u64 { 1 } << 61)), static_cast<i64>(r.skewed(20'000'000)), cap }, {} };
    }

    Plan gen17(Rng& r, int tier)
    {
        Plan p;
        p.cfg["corpus"] = pickCorpus(r, tier);
        auto const& c = corpus(p.cfg["corpus"]);
        for (auto k = r.chance(20) ? 1 + r.below(4) : 0; k--;)
            p.ops.push_back({ K_STALE, { static_cast<i64>(r.below(64)), static_cast<i64>(r.below(6)), static_cast<i64>(r.below(1 << 20)) }, {} });
        p.ops.push_back(machineOp(r, -1));
        for (auto k = 1 + (r.chance(30) ? r.below(4) : 0); k--;)
        {
            static constexpr int classes[] { OpenRead, Read, Read, Read, Read, Read, CloseRead, Alloc, Other };
            auto const cls = r.pick(classes);
            static constexpr int opens[] { F_NOENT, F_ACCES, F_MFILE, F_EIO, F_EINTR };
            static constexpr int reads[] { F_EIO, F_EIO, F_EIO_STAY, F_EINTR, F_SHORT, F_SHORT };
            auto const kind = cls == OpenRead ? r.pick(opens) : cls == Read ? r.pick(reads) : cls == Alloc ? F_NOMEM : F_EIO;
            if (c.ops[cls])
                p.ops.push_back({ K_FAULT, { cls, static_cast<i64>(r.below(c.ops[cls])), kind, static_cast<i64>(r.below(1 << 20)) }, {} });
        }
        if (r.chance(35)) // one file in particular
        {
            auto const file = static_cast<i64>(1 + r.below(c.used.size()));
            static constexpr int classes[] { Read, Read, Read, CloseRead, OpenRead, OpenRead };
            static constexpr int reads[] { F_EIO, F_EIO_STAY, F_EINTR, F_SHORT };
            static constexpr int codes[] { EACCES, EIO, EMFILE, ENFILE, ENOMEM, ELOOP, ESTALE };
            auto const cls = r.pick(classes);
            if (cls == OpenRead && r.chance(50))
                p.ops.push_back({ K_GONE, { file }, {} });
            else if (cls == OpenRead)
                p.ops.push_back({ K_FAULT, { cls, 0, F_DENIED, r.pick(codes), file }, {} });
            else
                p.ops.push_back({ K_FAULT, { cls, static_cast<i64>(r.chance(60) ? r.below(2) : r.skewed(40)), cls == Read ? r.pick(reads) : F_EIO, static_cast<i64>(r.below(1 << 20)), file }, {} });
        }
        if (r.chance(10)) // a reader that always gets little
            for (auto k = 5 + r.below(40); k--;)
                p.ops.push_back({ K_FAULT, { Read, static_cast<i64>(r.below(c.ops[Read] + 20)), r.chance(70) ? F_SHORT : F_EINTR, static_cast<i64>(r.below(1 << 20)) }, {} });
        return p;
    }

    Plan gen18(Rng& r, int tier)
    {
        Plan p;
        p.cfg["corpus"] = pickCorpus(r, tier);
        auto const& c = corpus(p.cfg["corpus"]);
        for (auto k = r.chance(30) ? 1 + r.below(6) : 0; k--;)
            p.ops.push_back({ K_STALE, { static_cast<i64>(r.below(64)), static_cast<i64>(r.below(6)), static_cast<i64>(r.below(1 << 20)) }, {} });
        // A disk that is too small, most often just too small.
        i64 cap = -1;
        if (r.chance(35))
            cap = r.chance(50) ? static_cast<i64>(c.bytes - std::min(c.bytes, r.skewed(c.bytes))) : static_cast<i64>(r.below(c.bytes + c.bytes / 8));
        p.ops.push_back(machineOp(r, cap));
        if (cap < 0 || r.chance(20))
            for (auto k = 1 + (r.chance(30) ? r.below(4) : 0); k--;)
            {
                static constexpr int classes[] { OpenWrite, OpenWrite, Write, Write, Write, CloseWrite, CloseWrite, Other };
                auto const cls = r.pick(classes);
                static constexpr int opens[] { F_NOENT, F_ACCES, F_MFILE, F_EIO, F_EINTR, F_NOSPC, F_FULL };
                static constexpr int writes[] { F_EIO, F_EIO_STAY, F_EINTR, F_SHORT, F_TORN, F_NOSPC, F_FULL };
                static constexpr int closes[] { F_EIO, F_NOSPC };
                auto const kind = cls == OpenWrite ? r.pick(opens) : cls == Write ? r.pick(writes) : cls == CloseWrite ? r.pick(closes) : F_EIO;
                if (c.ops[cls])
                    p.ops.push_back({ K_FAULT, { cls, static_cast<i64>(r.below(c.ops[cls])), kind, static_cast<i64>(r.below(1 << 20)) }, {} });
            }
        if (r.chance(35)) // one file in particular
        {
            auto const file = static_cast<i64>(1 + r.below(c.out.size()));
            static constexpr int classes[] { Write, Write, CloseWrite, OpenWrite };
            static constexpr int writes[] { F_EIO, F_EIO_STAY, F_EINTR, F_SHORT, F_TORN, F_NOSPC };
            static constexpr int codes[] { EACCES, EROFS, EISDIR, EPERM, ETXTBSY, EDQUOT, ENAMETOOLONG };
            auto const cls = r.pick(classes);
            auto const kind = cls == Write ? r.pick(writes) : cls == CloseWrite ? F_EIO : F_DENIED;
            p.ops.push_back({ K_FAULT, { cls, static_cast<i64>(r.chance(60) ? r.below(2) : r.skewed(60)), kind, kind == F_DENIED ? r.pick(codes) : static_cast<i64>(r.below(1 << 20)), file }, {} });
        }
        if (r.chance(10))
            for (auto k = 5 + r.below(40); k--;)
                p.ops.push_back({ K_FAULT, { Write, static_cast<i64>(r.below(c.ops[Write] + 20)), r.chance(70) ? F_SHORT : F_EINTR, static_cast<i64>(r.below(1 << 20)) }, {} });
        return p;
    }

    Plan gen19(Rng& r, int tier)
    {
        Plan p;
        p.cfg["corpus"] = pickCorpus(r, tier);
        auto const& c = corpus(p.cfg["corpus"]);
        u64 total = 0;
        for (int k = 0; k < Alloc; ++k)
            total += c.ops[k];
        for (auto k = r.chance(40) ? 1 + r.below(8) : 0; k--;)
            p.ops.push_back({ K_STALE, { static_cast<i64>(r.below(64)), static_cast<i64>(r.below(6)), static_cast<i64>(r.below(1 << 20)) }, {} });
        for (auto k = r.below(tier ? 6 : 4); k--;)
        {
            p.ops.push_back(machineOp(r, -1));
            auto const arg = static_cast<i64>(r.below(1 << 30));
            switch (r.below(6))
            {
                case 0: break; // an undisturbed run before
                case 1: p.ops.push_back({ K_FAULT, { -1, static_cast<i64>(r.below(total)), F_CRASH, arg }, {} }); break;
                case 2:
                    if (c.ops[OpenWrite])
                        p.ops.push_back({ K_FAULT, { OpenWrite, static_cast<i64>(r.below(c.ops[OpenWrite])), F_CRASH, arg }, {} });
                    break;
                case 3:
                    if (c.ops[CloseWrite])
                        p.ops.push_back({ K_FAULT, { CloseWrite, static_cast<i64>(r.below(c.ops[CloseWrite])), F_CRASH, arg }, {} });
                    break;
                case 4:
                    if (c.ops[Write])
                        p.ops.push_back({ K_FAULT, { Write, static_cast<i64>(r.below(c.ops[Write])), r.chance(70) ? F_CRASH : r.chance(50) ? F_TORN : F_FULL, arg }, {} });
                    break;
                default: p.ops.push_back({ K_FAULT, { Write, static_cast<i64>(r.below(c.ops[Write] + 1)), F_CRASH, arg }, {} }); break;
            }
            if (r.chance(20)) // the power fails after the run
                p.ops.push_back({ K_POWER, { static_cast<i64>(r.below(1 << 30)) }, {} });
            if (r.chance(15))
                p.ops.push_back({ K_STALE, { static_cast<i64>(r.below(64)), static_cast<i64>(r.below(6)), static_cast<i64>(r.below(1 << 20)) }, {} });
        }
        p.cfg["clock"] = static_cast<i64>(r.below(u64 { 1 } << 61));
        p.cfg["layout"] = static_cast<i64>(r.next() >> 1);
        p.cfg["style"] = static_cast<i64>(r.below(80));
        p.cfg["latency"] = static_cast<i64>(r.skewed(20'000'000));
        return p;
    }
} // namespace

void addTablegen(vector<Scenario>& v)
{
    v.push_back({ "C17", gen17, run, prepare, "a fault met the generator" });
    v.push_back({ "C18", gen18, run, prepare, "a fault met the generator" });
    v.push_back({ "C19", gen19, run, prepare, "an undisturbed run was compared after the history" });
}
} // namespace sim
