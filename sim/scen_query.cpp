// C20: the inspection tool on a simulated machine whose standard output is slow, full, interrupted or gone.
// The program is linked statically, so that everything it writes, by whatever interface, comes through
// the write calls wrapped here.
#include "ref.h"
#include "scen.h"
#include "segmodel.h"
#include "streams.h"

#include <libunicode/ucd.h>
#include <libunicode/ucd_ostream.h>

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

int sim_query_main(int argc, char const* argv[]);

namespace sim
{
namespace
{
    enum : int { K_CODEPOINT = 5, K_BOOT = 50, K_FAULT_OUT = 51 };
    enum Kind : int { F_EIO, F_EIO_STAY, F_EINTR, F_SHORT, F_NOSPC, F_FULL, F_PIPE, F_CLOSE, F_CAPACITY, KindCount };
    constexpr char const* kindNames[] { "fault_eio", "fault_eio_persistent", "fault_eintr", "fault_short_write", "fault_enospc", "fault_disk_full", "fault_reader_gone", "fault_close", "fault_no_room_left" };
    enum Mode : int { M_Clusters, M_Runs, M_Properties, M_Implicit, ModeCount };

    struct OutFault
    {
        u64 nth;
        int kind;
        u64 arg;
    };
    struct Boot
    {
        int tty = 0;
        u64 buffer = 4096;
        u64 capacity = ~u64 { 0 };
        vector<OutFault> faults;
    };

    // What the process leaves behind.
    constexpr size_t outMax = 8 << 20;
    struct Shared
    {
        u64 len, ops, fired[KindCount];
        bool runaway, returned;
        size_t errLen;
        char err[512];
        char out[outMax];
    };
    Shared* shared = nullptr;
    bool active = false;
    Boot const* machine = nullptr;
    int sticky = 0;

    ssize_t simulatedWrite(char const* p, size_t n)
    {
        auto& s = *shared;
        if (!n)
            return 0;
        auto const op = s.ops++;
        auto const fail = [&](int e) -> ssize_t { return errno = e, -1; };
        if (sticky)
            return fail(sticky);
        for (auto const& f: machine->faults)
            if (f.nth == op && f.kind != F_CLOSE)
            {
                if (f.kind != F_SHORT || n > 1)
                    ++s.fired[f.kind];
                switch (f.kind)
                {
                    case F_EIO: return fail(EIO);
                    case F_EIO_STAY: return fail(sticky = EIO);
                    case F_EINTR: return fail(EINTR);
                    case F_NOSPC: return fail(ENOSPC);
                    case F_FULL: return fail(sticky = ENOSPC);
                    case F_PIPE:
                        raise(SIGPIPE);
                        return fail(sticky = EPIPE);
                    default:
                        if (n > 1)
                            n = 1 + f.arg % (n - 1);
                        break;
                }
            }
        if (s.len + n > machine->capacity)
        {
            ++s.fired[F_CAPACITY];
            if (s.len >= machine->capacity)
                return fail(ENOSPC);
            n = static_cast<size_t>(machine->capacity - s.len);
        }
        if (s.len + n > outMax || s.ops > 4'000'000)
        {
            s.runaway = true;
            _exit(99);
        }
        std::memcpy(s.out + s.len, p, n);
        s.len += n;
        return static_cast<ssize_t>(n);
    }
    ssize_t simulatedError(char const* p, size_t n)
    {
        auto const k = std::min(n, sizeof shared->err - shared->errLen);
        std::memcpy(shared->err + shared->errLen, p, k);
        shared->errLen += k;
        return static_cast<ssize_t>(n);
    }
} // namespace
} // namespace sim

#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__)
#define WRITE(name)                                            \
    REAL(ssize_t, name, int, void const*, size_t);             \
    extern "C" ssize_t __wrap_##name(int fd, void const* p, size_t n) \
    {                                                          \
        using namespace sim;                                   \
        if (active && fd == 1)                                 \
            return simulatedWrite(static_cast<char const*>(p), n); \
        if (active && fd == 2)                                 \
            return simulatedError(static_cast<char const*>(p), n); \
        return __real_##name(fd, p, n);                        \
    }
WRITE(write)
WRITE(__write)
WRITE(__write_nocancel)
#define WRITEV(name)                                           \
    REAL(ssize_t, name, int, iovec const*, int);               \
    extern "C" ssize_t __wrap_##name(int fd, iovec const* v, int k) \
    {                                                          \
        if (!sim::active || (fd != 1 && fd != 2))              \
            return __real_##name(fd, v, k);                    \
        std::string all;                                       \
        for (int i = 0; i < k; ++i)                            \
            all.append(static_cast<char const*>(v[i].iov_base), v[i].iov_len); \
        return __wrap_write(fd, all.data(), all.size());       \
    }
WRITEV(writev)
WRITEV(__writev)
#define ISATTY(name)                          \
    REAL(int, name, int);                     \
    extern "C" int __wrap_##name(int fd)      \
    {                                         \
        if (!sim::active || fd < 0 || fd > 2) \
            return __real_##name(fd);         \
        if (!sim::machine->tty)               \
            errno = ENOTTY;                   \
        return sim::machine->tty;             \
    }
ISATTY(isatty)
ISATTY(__isatty)
#define CLOSE(name)                                                  \
    REAL(int, name, int);                                            \
    extern "C" int __wrap_##name(int fd)                             \
    {                                                                \
        using namespace sim;                                         \
        auto const r = __real_##name(fd);                            \
        if (!active || fd != 1)                                      \
            return r;                                                \
        for (auto const& f: machine->faults)                         \
            if (f.kind == F_CLOSE)                                   \
            {                                                        \
                ++shared->fired[F_CLOSE];                            \
                errno = EIO;                                         \
                return -1;                                           \
            }                                                        \
        return r;                                                    \
    }
CLOSE(close)
CLOSE(__close)
CLOSE(__close_nocancel)

namespace sim
{
namespace
{
    struct Outcome
    {
        int status = -1, signal = 0;
        bool runaway = false;
        u64 ops = 0, fired[KindCount] {};
        string out, err;
        bool success() const { return status == 0; }
    };

    Outcome boot(vector<string> const& args, Boot const& b)
    {
        static pid_t owner = 0;
        if (owner != getpid()) // one region for each worker
        {
            owner = getpid();
            shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        }
        auto& s = *shared;
        s.len = s.ops = s.errLen = 0;
        s.runaway = s.returned = false;
        std::fill_n(s.fired, static_cast<size_t>(KindCount), 0);
        fflush(nullptr);
        pid_t const pid = fork();
        if (!pid)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            rlimit const cpu { 20, 20 }, core { 0, 0 };
            setrlimit(RLIMIT_CPU, &cpu);
            setrlimit(RLIMIT_CORE, &core);
            for (int sig: { SIGABRT, SIGSEGV, SIGPIPE, SIGFPE, SIGBUS, SIGILL })
                signal(sig, SIG_DFL);
            int const null = open("/dev/null", O_RDONLY);
            dup2(null, 0);
            vector<char const*> argv { "unicode-query" };
            for (auto const& a: args)
                argv.push_back(a.c_str());
            argv.push_back(nullptr);
            // as the C library would have it on a machine of this kind
            setvbuf(stdout, nullptr, b.tty ? _IOLBF : _IOFBF, b.buffer);
            machine = &b;
            sticky = 0;
            active = true;
            auto const rc = sim_query_main(static_cast<int>(argv.size() - 1), argv.data());
            s.returned = true;
            std::exit(rc);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
            ;
        Outcome o;
        if (WIFEXITED(st))
            o.status = WEXITSTATUS(st);
        else
            o.signal = WTERMSIG(st);
        o.runaway = s.runaway || o.signal == SIGXCPU || o.signal == SIGKILL;
        o.ops = s.ops;
        std::copy_n(s.fired, static_cast<size_t>(KindCount), o.fired);
        o.out.assign(s.out, s.len);
        o.err.assign(s.err, s.errLen);
        return o;
    }

    // ---- what the tool should print ----

    string escape(string const& text, bool all)
    {
        string r;
        for (char const c: text)
        {
            auto const u = static_cast<u8>(c);
            if (all ? u < 0x20 || u > 0x7E || u == '"' : u < 0x20)
            {
                char b[8];
                snprintf(b, sizeof b, "\\x%02x", u);
                r += b;
            }
            else
                r += c;
        }
        return r;
    }

    template <typename E>
    string named(u32 value)
    {
        std::ostringstream o;
        o << static_cast<E>(value);
        return o.str();
    }

    struct Expected
    {
        bool usage = false; // asks for help by mistake
        string out;
        vector<u32> codepoints;
    };

    void codepointsOf(string_view a, vector<u32>& out)
    {
        auto const strip = [&] {
            bool const s = a.size() >= 3 && a.substr(0, 2) == "U+";
            if (s)
                a.remove_prefix(2);
            return s;
        };
        if (!strip())
        {
            for (auto const& u: ref::decodeUtf8(a))
                if (u.good)
                    out.push_back(u.cp);
            return;
        }
        strip();
        u64 v = 0;
        for (char c: a)
        {
            auto const d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0 || v >> 28)
                return; // not a codepoint
            v = v << 4 | static_cast<u64>(d);
        }
        out.push_back(static_cast<u32>(v));
    }

    Expected expected(Mode mode, vector<string> const& rest, bool tty)
    {
        Expected e;
        size_t i = 0;
        if (mode == M_Properties || mode == M_Implicit)
        {
            for (auto const& a: rest)
                codepointsOf(a, e.codepoints);
            return e;
        }
        bool all = false;
        for (; i < rest.size(); ++i)
        {
            if (rest[i] == "-e")
                all = true;
            else if (rest[i] == "--")
            {
                ++i;
                break;
            }
            else if (!rest[i].empty() && rest[i][0] == '-')
            {
                e.usage = true;
                return e;
            }
            else
                break;
        }
        for (; i < rest.size(); ++i)
        {
            u32string good, replaced;
            for (auto const& u: ref::decodeUtf8(rest[i]))
            {
                if (u.good)
                    good += static_cast<char32_t>(u.cp);
                replaced += static_cast<char32_t>(u.good ? u.cp : 0xFFFD);
            }
            if (mode == M_Clusters)
            {
                auto const breaks = ref::graphemeBreaks(replaced);
                for (size_t from = 0; from < replaced.size();)
                {
                    auto to = from + 1;
                    while (!breaks[to])
                        ++to;
                    e.out += escape(ref::encode(u32string_view(replaced).substr(from, to - from)), all) + "\n";
                    from = to;
                }
                continue;
            }
            for (auto const& r: segmodel::runs(segmodel::scriptSegments(good), segmodel::emojiSegments(good)))
            {
                e.out += std::to_string(r.start) + "-" + std::to_string(r.end - 1) + " (" + std::to_string(r.end - r.start) + "): " + named<unicode::Script>(r.script) + " " + named<unicode::PresentationStyle>(r.emoji) + "\n\"";
                e.out += (tty ? "\033[32m" : "") + escape(ref::encode(u32string_view(good).substr(r.start, r.end - r.start)), all) + (tty ? "\033[m" : "") + "\"\n\n";
            }
        }
        return e;
    }

    // The codepoints whose properties were printed.
    vector<u32> printed(string const& out)
    {
        vector<u32> r;
        std::istringstream in(out);
        for (string l; std::getline(in, l);)
            if (l.starts_with("Codepoint "))
                if (auto const p = l.find("U+"); p != string::npos)
                    r.push_back(static_cast<u32>(std::strtoul(l.c_str() + p + 2, nullptr, 16)));
        return r;
    }

    string where(string const& got, string const& want)
    {
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i])
            ++i;
        return "differs from byte " + std::to_string(i) + " on (" + std::to_string(got.size()) + " bytes, should be " + std::to_string(want.size()) + "): got " + show(string_view(got).substr(i, 24)) + " expected " + show(string_view(want).substr(i, 24));
    }

    void run(Plan const& plan, Ctx& ctx)
    {
        auto const w = buildWire(plan, ctx.st);
        auto const mode = static_cast<Mode>(static_cast<u64>(plan.get("mode")) % ModeCount);
        vector<string> rest;
        if (mode == M_Clusters || mode == M_Runs)
        {
            if (plan.get("escape"))
                rest.push_back("-e");
            if (plan.get("dashes"))
                rest.push_back("--");
        }
        for (auto const& op: plan.ops)
            if (op.kind == K_CODEPOINT && !op.a.empty())
            {
                char b[24];
                snprintf(b, sizeof b, op.a.size() > 1 && op.a[1] ? "U+%04X" : "U+%x", static_cast<unsigned>(op.a[0]));
                rest.push_back(b);
            }
        for (auto s: w.got)
        {
            std::replace(s.begin(), s.end(), '\0', '\x01'); // arguments end at a zero byte
            rest.push_back(s.substr(0, 100'000));           // and are limited by the system
        }
        vector<string> args;
        if (mode != M_Implicit)
            args.push_back(mode == M_Clusters ? "gc" : mode == M_Runs ? "runs" : "properties");
        else if (rest.empty() || rest[0] == "gc" || rest[0] == "runs" || rest[0] == "help" || rest[0] == "properties")
            return;
        args.insert(args.end(), rest.begin(), rest.end());
        string const who = "unicode-query " + (args.empty() ? "" : args[0]) + " with " + std::to_string(rest.size()) + " arguments, the last " + (rest.empty() ? "none" : show(string_view(rest.back()).substr(0, 64))) + ": ";

        Outcome calm[2];
        bool known[2] {};
        auto const note = [&](Outcome const& o) {
            ctx.log.str(o.out);
            ctx.log.num(static_cast<u64>(o.status + 1) + 1000 * static_cast<u64>(o.signal));
            ctx.log.num(o.ops);
            ctx.st.steps += o.ops + 1;
            ctx.st.simMicros += 1000 + 100 * o.ops;
            u64 fired = 0;
            for (int k = 0; k < KindCount; ++k)
                if (o.fired[k])
                {
                    fired |= u64 { 1 } << k;
                    ctx.st.hit(kindNames[k], o.fired[k]);
                }
            if (fired)
                ctx.nontrivial = true;
            ctx.st.state(mix(mix(fired, static_cast<u64>(o.status + 1) * 64 + static_cast<u64>(o.signal)), mix(static_cast<u64>(mode), mix(std::min<u64>(o.ops, 64), std::min<u64>(o.out.size() / 64, 64)))));
            if (o.runaway)
                return ctx.violate("runaway", who + "does not come to an end");
            if (o.signal && !(o.signal == SIGPIPE && o.fired[F_PIPE]))
                return ctx.violate("crashed", who + "ended by signal " + std::to_string(o.signal) + " (" + o.err + ")");
        };
        auto const calmly = [&](Boot const& b) -> Outcome const& {
            auto& o = calm[b.tty];
            if (known[b.tty])
                return o;
            known[b.tty] = true;
            Boot quiet;
            quiet.tty = b.tty;
            o = boot(args, quiet);
            note(o);
            if (ctx.failed)
                return o;
            auto const e = expected(mode, rest, b.tty);
            if (e.usage)
            {
                ctx.st.hit("usage_errors");
                if (o.success())
                    ctx.violate("usage-error-unreported", who + "exit status 0 for an unknown option");
            }
            else if (mode == M_Clusters || mode == M_Runs)
            {
                if (!o.success())
                    ctx.violate("fails", who + "exit status " + std::to_string(o.status) + " on an undisturbed machine");
                else if (o.out != e.out)
                    ctx.violate("wrong-output", who + where(o.out, e.out));
            }
            else if (auto const p = printed(o.out); p != e.codepoints)
                ctx.violate("wrong-codepoints", who + std::to_string(p.size()) + " codepoints shown, " + std::to_string(e.codepoints.size()) + " given");
            ctx.st.hit(b.tty ? "on_a_terminal" : "into_a_file");
            return o;
        };
        vector<Boot> boots;
        for (auto const& op: plan.ops)
            if (op.kind == K_BOOT && op.a.size() >= 3)
                boots.push_back({ op.a[0] != 0, static_cast<u64>(std::max<i64>(op.a[1], 1)), op.a[2] < 0 ? ~u64 { 0 } : static_cast<u64>(op.a[2]), {} });
            else if (op.kind == K_FAULT_OUT && op.a.size() >= 3 && !boots.empty())
                boots.back().faults.push_back({ static_cast<u64>(op.a[0]), static_cast<int>(static_cast<u64>(op.a[1]) % F_CAPACITY), static_cast<u64>(op.a[2]) });
        for (auto& b: boots)
        {
            auto const& c = calmly(b);
            if (ctx.failed)
                return;
            // positions are relative to what there is
            if (b.capacity != ~u64 { 0 })
                b.capacity %= c.out.size() + 1 + c.out.size() / 8;
            auto const writes = b.buffer >= 1024 && !b.tty ? c.out.size() / b.buffer + 1 : c.ops + 1;
            for (auto& f: b.faults)
                f.nth %= writes + 1;
            auto const o = boot(args, b);
            note(o);
            if (ctx.failed)
                return;
            if (o.success() && (o.out != c.out || !c.success()))
                return ctx.violate("silent-loss", who + "exit status 0, but the output " + where(o.out, c.out));
            bool fired = false;
            for (int k = 0; k < KindCount; ++k)
                fired |= k != F_SHORT && o.fired[k];
            if (!fired && (o.status != c.status || o.out != c.out))
                return ctx.violate("short-writes-matter", who + "exit status " + std::to_string(o.status) + " instead of " + std::to_string(c.status) + ", the output " + (o.out == c.out ? "is the same" : where(o.out, c.out)));
            ctx.st.hit(o.success() ? "reported_success" : "reported_failure");
        }
    }

    void init()
    {
        text::init();
        segmodel::initScripts();
    }

    Plan gen(Rng& r, int tier)
    {
        Plan p;
        auto const mode = r.chance(40) ? M_Clusters : r.chance(55) ? M_Runs : r.chance(50) ? M_Properties : M_Implicit;
        p.cfg["mode"] = mode;
        p.cfg["escape"] = r.chance(50);
        p.cfg["dashes"] = r.chance(30);
        bool const listing = mode == M_Properties || mode == M_Implicit;
        StreamGen g;
        g.damage = 50;
        g.rawNoise = 20;
        g.maxStreams = listing ? 2 : 4;
        g.tokens = listing ? 5 : 14;
        g.longest = listing ? 400 : r.chance(4) ? 90'000 : 9000;
        genStreams(r, p, g);
        if (listing)
            for (auto k = r.below(4); k--;)
                p.ops.push_back({ K_CODEPOINT, { static_cast<i64>(r.chance(90) ? text::codepoint(r, static_cast<text::Theme>(r.below(text::ThemeCount))) : r.below(0x120000)), r.chance(50) }, {} });
        for (auto k = 1 + r.below(tier ? 6 : 4); k--;)
        {
            // a disk that is too small, most often just too small, or single faults
            i64 const cap = r.chance(25) ? static_cast<i64>(r.next() >> 1) : -1;
            static constexpr i64 buffers[] { 4096, 4096, 1024, 65536, 64, 1 };
            p.ops.push_back({ K_BOOT, { r.chance(30), r.pick(buffers), cap }, {} });
            if (cap < 0 || r.chance(20))
                for (auto f = r.below(4); f--;)
                {
                    static constexpr int kinds[] { F_EIO, F_EIO_STAY, F_EINTR, F_SHORT, F_SHORT, F_NOSPC, F_FULL, F_PIPE, F_CLOSE };
                    p.ops.push_back({ K_FAULT_OUT, { static_cast<i64>(r.chance(40) ? r.below(3) : r.next() >> 1), r.pick(kinds), static_cast<i64>(r.below(1 << 20)) }, {} });
                }
        }
        return p;
    }
} // namespace

void addQuery(vector<Scenario>& v)
{
    v.push_back({ "C20", gen, run, init, "a run starts the inspection tool with seeded arguments, first undisturbed and then on 1-4 machines whose standard output is a file or a terminal and fails in seeded ways; non-trivial: a fault met the tool" });
}
} // namespace sim
