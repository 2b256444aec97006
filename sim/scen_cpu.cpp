// C14: simulated machines boot the library and process text lying against unmapped memory.
#include "ref.h"
#include "reboot.h"
#include "scanmodel.h"
#include "scen.h"
#include "scen_cpu.h"
#include "streams.h"

#include <libunicode/convert.h>
#include <libunicode/scan.h>

#include <algorithm>
#include <array>
#include <memory>
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <ucontext.h>

// The processor seam. The library's cpuid() and xgetbv() are replaced by these, and its vector
// functions of 256 and 512 bits are entered through the wrappers below, which act as the processor
// that raises an invalid-opcode exception.
namespace sim
{
namespace
{
    enum Bit : u32 { B_XSAVE = 1, B_OSXSAVE = 2, B_AVX = 4, B_AVX2 = 8, B_F = 16, B_BW = 32, B_BITALG = 64, B_XSSE = 128, B_XYMM = 256, B_XOPMASK = 512, B_XZMMHI = 1024, B_XHI16 = 2048, B_LEAF7 = 4096, BitCount = 13, AllBits = (1 << 13) - 1 };

    struct Machine
    {
        u32 bits = AllBits;
        u32 noise = 0; // what unrelated and undefined registers read
        bool avx() const { return has(B_OSXSAVE | B_AVX | B_XSSE | B_XYMM); }
        bool can256() const { return avx() && has(B_LEAF7 | B_AVX2); }
        bool can512() const { return can256() && has(B_F | B_BW | B_BITALG | B_XOPMASK | B_XZMMHI | B_XHI16); }
        bool has(u32 b) const { return (bits & b) == b; }
        unsigned width() const { return can512() ? 512 : can256() ? 256 : 128; }
    };
    Machine machine;
    bool simulated = false;
    u64 cpuidCalls = 0, xgetbvCalls = 0;
    unsigned deepest = 128; // the widest vector code entered
    char const* invalidOpcode = nullptr;
    sigjmp_buf processor;

    [[noreturn]] void trap(char const* what)
    {
        invalidOpcode = what;
        siglongjmp(processor, 1);
    }

    void enter(unsigned width)
    {
        deepest = std::max(deepest, width);
        if (simulated && ((width == 256 && !machine.can256()) || (width == 512 && !machine.can512())))
            trap(width == 256 ? "AVX2" : "AVX-512");
    }

    // The processor, one instruction at a time: the code of this program (the library among it) is single-stepped,
    // and what the simulated machine does not know or its operating system has not enabled is an invalid opcode.
    u64 stepped = 0, wideInstructions = 0;

    enum class Needs { Nothing, Avx, Avx2, Avx512 };

    Needs instructionSet(u8 const* p)
    {
        while (*p == 0x2E || *p == 0x36 || *p == 0x3E || *p == 0x26 || *p == 0x64 || *p == 0x65 || *p == 0x67)
            ++p;
        if (*p == 0x62)
            return Needs::Avx512;
        if (*p != 0xC4 && *p != 0xC5)
            return Needs::Nothing;
        bool const three = *p == 0xC4;
        unsigned const map = three ? p[1] & 0x1F : 1, last = three ? p[2] : p[1], op = three ? p[3] : p[2];
        bool const wide = last & 4;
        if (map == 1)
        {
            if ((op >= 0x41 && op <= 0x4B) || (op >= 0x90 && op <= 0x93) || op == 0x98 || op == 0x99)
                return Needs::Avx512; // opmask registers
            if (wide && (last & 3) == 1 && ((op >= 0x60 && op <= 0x6D) || (op >= 0x71 && op <= 0x76) || (op >= 0xD1 && op <= 0xE5 && op != 0xD6) || (op >= 0xE8 && op <= 0xEF) || (op >= 0xF1 && op <= 0xFE)))
                return Needs::Avx2;
        }
        if (map == 2)
        {
            if (op == 0x58 || op == 0x59 || op == 0x5A || op == 0x78 || op == 0x79)
                return Needs::Avx2;
            if (wide && (op <= 0x0B || (op >= 0x1C && op <= 0x25) || op == 0x28 || op == 0x29 || op == 0x2B || (op >= 0x30 && op <= 0x40)))
                return Needs::Avx2;
        }
        if (map == 3 && (op == 0x38 || op == 0x39 || op == 0x46 || op == 0x00 || op == 0x01 || (wide && (op == 0x0E || op == 0x0F))))
            return Needs::Avx2;
        return Needs::Avx;
    }

    extern "C" char __executable_start, etext;

    void onStep(int, siginfo_t*, void* context)
    {
        auto& u = *static_cast<ucontext_t*>(context);
        auto const ip = static_cast<u64>(u.uc_mcontext.gregs[REG_RIP]);
        if (ip < reinterpret_cast<u64>(&__executable_start) || ip >= reinterpret_cast<u64>(&etext))
            return;
        ++stepped;
        auto const needs = instructionSet(reinterpret_cast<u8 const*>(ip));
        if (needs == Needs::Nothing)
            return;
        ++wideInstructions;
        if ((needs == Needs::Avx && !machine.avx()) || (needs == Needs::Avx2 && !machine.can256()) || (needs == Needs::Avx512 && !machine.can512()))
            trap(needs == Needs::Avx ? "an AVX instruction" : needs == Needs::Avx2 ? "an AVX2 instruction" : "an AVX-512 instruction");
    }

    void stepping(bool on)
    {
        if (on)
            asm volatile("sub $128, %%rsp\n pushfq\n orq $0x100, (%%rsp)\n popfq\n add $128, %%rsp" ::: "memory", "cc");
        else
            asm volatile("sub $128, %%rsp\n pushfq\n andq $~0x100, (%%rsp)\n popfq\n add $128, %%rsp" ::: "memory", "cc");
    }
} // namespace
} // namespace sim

void cpuid(int32_t out[4], int32_t eax, int32_t ecx)
{
    using namespace sim;
    ++cpuidCalls;
    auto const& m = machine;
    u32 const n = m.noise;
    u32 r[4] { n, n * 3, n * 5, n * 7 };
    auto const put = [](u32& reg, unsigned bit, bool on) { reg = on ? reg | (1u << bit) : reg & ~(1u << bit); };
    switch (static_cast<u32>(eax))
    {
        case 0: r[0] = m.has(B_LEAF7) ? 7 + n % 20 : 1 + n % 6; break;
        case 1:
            put(r[2], 26, m.has(B_XSAVE));
            put(r[2], 27, m.has(B_OSXSAVE));
            put(r[2], 28, m.has(B_AVX));
            break;
        case 7:
            // without leaf 7 the processor returns whatever its highest leaf holds
            if (m.has(B_LEAF7) && ecx == 0)
            {
                put(r[1], 5, m.has(B_AVX2));
                put(r[1], 16, m.has(B_F));
                put(r[1], 30, m.has(B_BW));
                put(r[2], 12, m.has(B_BITALG));
            }
            break;
        default: break;
    }
    for (int i = 0; i < 4; ++i)
        out[i] = static_cast<int32_t>(r[i]);
}

uint64_t xgetbv(unsigned index)
{
    using namespace sim;
    ++xgetbvCalls;
    if (!machine.has(B_OSXSAVE) || index > 1)
        trap("xgetbv");
    if (index == 1)
        return machine.noise;
    u64 x = 1 | (u64 { machine.noise } << 9 & 0xFFFF0000u) | (machine.noise & 0x18);
    x |= machine.has(B_XSSE) ? 2 : 0;
    x |= machine.has(B_XYMM) ? 4 : 0;
    x |= machine.has(B_XOPMASK) ? 0x20 : 0;
    x |= machine.has(B_XZMMHI) ? 0x40 : 0;
    x |= machine.has(B_XHI16) ? 0x80 : 0;
    return x;
}

#if defined(SIM_DETECTOR)
extern "C" size_t sim_real_max_simd_size();
namespace unicode::detail
{
auto max_simd_size() -> size_t
{
    // If the detector does not ask through the seam, the machine decides instead.
    auto const calls = sim::cpuidCalls;
    auto const r = sim_real_max_simd_size();
    return sim::cpuidCalls == calls ? sim::machine.width() : r;
}
} // namespace unicode::detail
#endif

#define WRAP(name, sym, width, ret, params, args)                                        \
    ret sim_real_##name params asm("__real_" sym) __attribute__((weak));                 \
    ret sim_wrap_##name params asm("__wrap_" sym);                                       \
    ret sim_wrap_##name params                                                           \
    {                                                                                    \
        sim::enter(width);                                                               \
        return sim_real_##name args;                                                     \
    }
WRAP(s256, "_ZN7unicode6detail23scan_for_text_ascii_256ESt17basic_string_viewIcSt11char_traitsIcEEm", 256, size_t, (std::string_view t, size_t n), (t, n))
WRAP(s512, "_ZN7unicode6detail23scan_for_text_ascii_512ESt17basic_string_viewIcSt11char_traitsIcEEm", 512, size_t, (std::string_view t, size_t n), (t, n))
WRAP(a256, "_ZN7unicode6detail25convert_utf8_to_utf16_256EPKcmPDs", 256, size_t, (char const* i, size_t n, char16_t* o), (i, n, o))
WRAP(a512, "_ZN7unicode6detail25convert_utf8_to_utf16_512EPKcmPDs", 512, size_t, (char const* i, size_t n, char16_t* o), (i, n, o))
WRAP(b256, "_ZN7unicode6detail25convert_utf8_to_utf32_256EPKcmPDi", 256, size_t, (char const* i, size_t n, char32_t* o), (i, n, o))
WRAP(b512, "_ZN7unicode6detail25convert_utf8_to_utf32_512EPKcmPDi", 512, size_t, (char const* i, size_t n, char32_t* o), (i, n, o))

namespace sim
{
namespace cpu
{
    char* arena = nullptr;
    Variant* variants = nullptr;
    unsigned boundWidth() { return machine.width(); }
} // namespace cpu
namespace
{
    using namespace cpu;
    unsigned hostWidth = 128;

    vector<u64> callModel(int kind, string const& bytes, vector<i64> const& a)
    {
        vector<u64> out;
        if (kind == K_SCAN)
        {
            ScanModel m;
            vector<ScanEvent> ev;
            auto const r = m.call(bytes, 0, bytes.size(), static_cast<size_t>(a[5]), ev);
            for (auto const& e: ev)
                out.insert(out.end(), { static_cast<u64>(e.what), e.from, e.to, e.cols });
            out.insert(out.end(), { r.count, r.start, r.end, r.next });
            return out;
        }
        for (auto const& u: ref::decodeUtf8(bytes))
        {
            if (!u.good)
                continue;
            if (kind == K_TO32)
                out.push_back(u.cp);
            else if (u.cp < 0xD800 || (u.cp >= 0xE000 && u.cp < 0x10000))
                out.push_back(u.cp);
            else if (u.cp >= 0x10000 && u.cp < 0x110000)
            {
                out.push_back(0xD800 + ((u.cp - 0x10000) >> 10));
                out.push_back(0xDC00 + ((u.cp - 0x10000) & 0x3FF));
            }
        }
        return out;
    }

    string showOut(vector<u64> const& v)
    {
        string r;
        for (auto x: v)
        {
            if (r.size() > 400)
                return r + "...";
            char b[32];
            snprintf(b, sizeof b, "%llx ", static_cast<unsigned long long>(x));
            r += b;
        }
        return r;
    }

    struct Call
    {
        int kind;
        vector<i64> a;
        string bytes;
    };

    void run(Plan const& plan, Ctx& ctx)
    {
        auto const w = buildWire(plan, ctx.st);
        auto const n = w.got.size();
        vector<Machine> ms;
        for (auto const& o: plan.ops)
            if (o.kind == K_BOOT && o.a.size() >= 4)
                ms.push_back({ static_cast<u32>(o.a[2]) & AllBits, static_cast<u32>(o.a[3]) });
        if (ms.empty())
            return;
        vector<Call> calls;
        for (auto const& e: timeline(plan, ctx.st))
        {
            auto const& a = e.op->a;
            if (e.op->kind < K_SCAN || e.op->kind > K_TO16 || a.size() < 8 || a[5] < 0 || a[7] < 0 || a[6] < 0)
                continue;
            auto const& s = w.got[static_cast<size_t>(a[2]) % n];
            auto const from = s.empty() ? 0 : static_cast<size_t>(a[3]) % s.size();
            // the call goes to all machines: they must agree
            calls.push_back({ e.op->kind, a, s.substr(from, static_cast<size_t>(a[4])) });
        }
        auto const steps = static_cast<size_t>(std::max<i64>(0, plan.get("steps", 0)));
        vector<vector<u64>> want;
        for (auto const& c: calls)
            want.push_back(callModel(c.kind, c.bytes, c.a));
        for (size_t k = 0; k < ms.size(); ++k)
        {
            auto const& m = ms[k];
            machine = m;
            simulated = true;
            cpuidCalls = xgetbvCalls = 0;
            deepest = 128;
            invalidOpcode = nullptr;
            reboot::boot();
            string const who = "machine " + std::to_string(k) + " (features " + std::to_string(m.bits) + ", supports " + std::to_string(m.width()) + " bits): ";
            if (sigsetjmp(processor, 1))
            {
                stepping(false);
                simulated = false;
                return ctx.violate("invalid-opcode", who + "raised by " + invalidOpcode);
            }
            u64 chosen = 0;
#if defined(SIM_DETECTOR)
            chosen = unicode::detail::max_simd_size();
#endif
            ctx.log.num(chosen);
            if (cpuidCalls + xgetbvCalls)
                ctx.st.hit("machines_asked_through_the_seam");
            if ((chosen == 512 && !m.can512()) || (chosen == 256 && !m.can256()))
                return ctx.violate("unsupported-width", who + "selected " + std::to_string(chosen) + " bits");
            static constexpr std::array<char const*, BitCount> names { "fault_no_xsave", "fault_no_osxsave", "fault_no_avx", "fault_no_avx2", "fault_no_avx512f", "fault_no_avx512bw", "fault_no_bitalg", "fault_os_without_sse_state", "fault_os_without_ymm_state", "fault_os_without_opmask_state", "fault_os_without_zmm_hi_state", "fault_os_without_hi16_zmm_state", "fault_no_leaf7" };
            for (unsigned b = 0; b < BitCount; ++b)
                if (!(m.bits >> b & 1))
                    ctx.st.hit(names[b]);
            // what this host cannot execute is only simulated as far as the choice
            if (std::max<u64>(chosen, m.width()) > hostWidth)
            {
                ctx.st.hit("machines_beyond_the_host");
                continue;
            }
            for (size_t c = 0; c < want.size(); ++c)
            {
                auto const& call = calls[c];
                bool const step = c < steps && call.bytes.size() < 200;
                stepped = wideInstructions = 0;
                if (step)
                    stepping(true);
                auto got = cpu::call(call.kind, call.bytes, call.a);
                for (auto v: got)
                    ctx.log.num(v);
                if (step)
                {
                    stepping(false);
                    ctx.st.hit("calls_single_stepped");
                    ctx.st.hit("instructions_single_stepped", stepped);
                    ctx.st.hit("vector_instructions_single_stepped", wideInstructions);
                }
                string built;
                for (auto* v = cpu::variants; v && got == want[c]; v = v->next)
                {
                    got = v->call(call.kind, call.bytes, call.a);
                    built = string("built ") + v->name + ", ";
                    ctx.st.hit((string("calls_compared_built_") + v->name).c_str());
                }
                if (got != want[c])
                    return ctx.violate("different-result", who + built + (call.kind == K_SCAN ? "scan_text, budget " + std::to_string(call.a[5]) : string(call.kind == K_TO32 ? "UTF-8 to UTF-32" : "UTF-8 to UTF-16")) + " of " + show(string_view(call.bytes)) + ": got " + showOut(got) + "expected " + showOut(want[c]));
                ctx.st.hit("calls_compared");
                ctx.st.state(mix(m.width(), mix(static_cast<u64>(call.kind), mix(call.bytes.size(), static_cast<u64>(call.a[7] % 16)))));
            }
            ctx.st.hit(deepest == 512 ? "ran_512" : deepest == 256 ? "ran_256" : "ran_128");
            if (deepest > 128)
                ctx.nontrivial = true;
            ctx.log.num(deepest);
            simulated = false;
        }
    }

    void init()
    {
        text::init();
        reboot::init();
        auto* const m = static_cast<char*>(mmap(nullptr, arenaSize + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        arena = m + page;
        mprotect(arena, arenaSize, PROT_READ | PROT_WRITE);
        std::fill_n(arena, arenaSize, 'x');
        struct sigaction sa {};
        sa.sa_sigaction = onStep;
        sa.sa_flags = SA_SIGINFO;
        sigaction(SIGTRAP, &sa, nullptr);
        __builtin_cpu_init();
        hostWidth = __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw") ? 512 : __builtin_cpu_supports("avx2") ? 256 : 128;
    }

    Plan gen(Rng& r, int tier)
    {
        Plan p;
        auto const n = static_cast<int>(r.range(1, 2));
        p.cfg["streams"] = n;
        // stretches of ASCII around multiples of the vector sizes, each ended by something else
        for (int s = 0; s < n; ++s)
            for (auto k = 1 + r.below(tier ? 14 : 9); k--;)
            {
                string t;
                auto const unit = r.chance(40) ? 64u : r.chance(50) ? 32u : 16u;
                auto len = static_cast<i64>(unit * r.below(5)) + r.range(-3, 4);
                if (r.chance(15))
                    len = r.range(0, 300);
                for (; len > 0; --len)
                    t += static_cast<char>(r.chance(8) ? "\x20\x7F\x7E\x21"[r.below(4)] : r.range(0x20, 0x7F));
                switch (r.below(8))
                {
                    case 0: t += static_cast<char>(r.below(0x20)); break;
                    case 1: t += static_cast<char>(r.chance(50) ? 0x1F : 0x80); break;
                    case 2: t += static_cast<char>(r.range(0x80, 0xFF)); break;
                    case 3: break;
                    default: t += ref::encode(text::piece(r, text::pickThemes(r))); break;
                }
                p.ops.push_back({ K_TEXT, { s }, t });
            }
        for (auto k = 1 + r.below(3); k--;)
        {
            u32 bits = AllBits;
            switch (r.below(6))
            {
                case 0: break;                                      // everything
                case 1: bits &= ~(B_F | B_BW | B_BITALG); break;     // AVX2 machine
                case 2: bits &= ~(B_AVX2 | B_F | B_BW | B_BITALG); break;
                default:
                    for (auto x = 1 + r.below(3); x--;)
                        bits &= ~(1u << r.below(BitCount));
                    break;
            }
            p.ops.push_back({ K_BOOT, { 0, 0, static_cast<i64>(bits), static_cast<i64>(r.next() & 0xFFFFFFFF) }, {} });
        }
        if (r.below(1000) < 15)
            p.cfg["steps"] = static_cast<i64>(1 + r.below(3));
        // now and then text beyond what small counters hold
        bool const huge = r.chance(3);
        if (huge)
        {
            string t;
            for (auto k = 1 + r.below(64); k--;)
                t += static_cast<char>(r.range(0x20, 0x7F));
            p.ops.push_back({ K_TEXT, { 0, static_cast<i64>((r.chance(50) ? 70000 : 33000) / t.size()) }, t });
        }
        for (auto k = 4 + r.below(tier ? 100 : 40); k--;)
        {
            if (huge && r.chance(10))
            {
                p.ops.push_back({ static_cast<int>(K_SCAN + r.below(3)), { r.range(0, 2), 0, 0, static_cast<i64>(r.below(300)), 1 << 20, 1 << 30, 0, static_cast<i64>(r.below(64)) }, {} });
                continue;
            }
            auto const kind = static_cast<int>(K_SCAN + r.below(3));
            i64 const len = r.chance(60) ? static_cast<i64>(16 * r.below(12)) + r.range(0, 2) : static_cast<i64>(r.below(400));
            i64 const budget = r.chance(50) ? 1 << 30 : std::max<i64>(0, static_cast<i64>(16 * r.below(10)) + r.range(-2, 2));
            p.ops.push_back({ kind, { r.range(0, 2), static_cast<i64>(r.skewed(1000)), r.range(0, n - 1), r.chance(40) ? 0 : static_cast<i64>(r.below(400)), len, budget, static_cast<i64>(r.below(3)), static_cast<i64>(r.below(64)) }, {} });
        }
        return p;
    }
} // namespace

void addCpu(vector<Scenario>& v)
{
    v.push_back({ "C14", gen, run, init, "a run boots 1-3 simulated machines, each with seeded processor and operating-system features, and has all of them scan and convert the same text, placed against unmapped or poisoned memory at seeded alignments; non-trivial: a machine ran 256- or 512-bit code" });
}
} // namespace sim
