// Deterministic simulation framework: seeded choices, plans, logs and statistics.
//
// One integer decides a run: gen(Rng(seed)) makes a Plan (workload + schedule + faults) and run(Plan)
// executes it against the real library. run() is a pure function of the plan and the code under test:
// it draws no random number, reads no clock and depends on no address.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <iterator>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace sim
{

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using std::string;
using std::string_view;
using std::u32string;
using std::u32string_view;
using std::vector;

inline u64 splitmix(u64& x)
{
    u64 z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Rng
{
    u64 s;
    explicit Rng(u64 seed): s { seed } {}
    u64 next() { return splitmix(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + static_cast<i64>(below(static_cast<u64>(hi - lo + 1))); }
    bool chance(unsigned percent) { return below(100) < percent; }
    bool permille(unsigned n) { return below(1000) < n; }
    template <typename C>
    auto const& pick(C const& c)
    {
        return c[below(std::size(c))];
    }
    // mostly small, sometimes large
    u64 skewed(u64 max)
    {
        auto const bits = below(64 - static_cast<u64>(__builtin_clzll(max | 1)) + 1);
        auto const v = bits ? below(u64 { 1 } << bits) : 0;
        return v > max ? max : v;
    }
};

// One entry of a plan: a piece of workload, a scheduling decision, or a fault.
struct Op
{
    int kind = 0;
    vector<i64> a;
    string b;
};

struct Plan
{
    string prop;
    u64 seed = 0;
    std::map<string, i64> cfg;
    vector<Op> ops;

    i64 get(char const* key, i64 fallback = 0) const
    {
        auto const i = cfg.find(key);
        return i == cfg.end() ? fallback : i->second;
    }
};

string toText(Plan const& plan);
bool fromText(string_view text, Plan& plan);

// What happened in a run. `hash` covers every observed output, in order.
struct Log
{
    u64 hash = 0xcbf29ce484222325ull;
    void byte(u8 b)
    {
        hash = (hash ^ b) * 0x100000001b3ull;
    }
    void num(u64 v)
    {
        hash = (hash ^ v) * 0x100000001b3ull;
        hash ^= hash >> 29;
    }
    void str(string_view s)
    {
        num(s.size());
        for (char c: s)
            byte(static_cast<u8>(c));
    }
    void str(u32string_view s)
    {
        num(s.size());
        for (char32_t c: s)
            num(c);
    }
};

struct Stats
{
    std::map<string, u64> counters; // fault kinds that fired, probes that were hit
    std::unordered_set<u64> states; // distinct states or interleavings, by the property's measure
    u64 statesDropped = 0;          // beyond the cap below
    u64 runs = 0;
    u64 steps = 0;                  // simulated events
    u64 simMicros = 0;              // simulated time
    u64 rerun = 0;                  // runs executed twice, hash compared
    std::unordered_set<u64> distinct; // distinct non-trivial histories (by event-log hash)
    void hit(char const* name, u64 n = 1) { counters[name] += n; }
    void state(u64 h)
    {
        if (states.size() < 400'000)
            states.insert(h);
        else
            ++statesDropped;
    }
};

struct Fail
{
    string cls;    // violation class: stays the same while minimising
    string detail; // human-readable
};

struct Ctx
{
    Stats& st;
    Log log {};
    Fail fail {};
    bool failed = false;
    bool nontrivial = false; // the run met the scenario's rule
    explicit Ctx(Stats& s): st { s } {}
    // Records the first violation of the run.
    void violate(string cls, string detail)
    {
        if (!failed)
            fail = Fail { std::move(cls), std::move(detail) };
        failed = true;
    }
};

struct Scenario
{
    char const* prop;
    Plan (*gen)(Rng& rng, int tier);
    void (*run)(Plan const& plan, Ctx& ctx);
    void (*init)(); // once per process, before forking
    // Description of the workload for the evidence file.
    char const* rule;
};

vector<Scenario> const& scenarios();

string hex(string_view s);
string unhex(string_view s);
string show(u32string_view s);
string show(string_view s);

inline u64 mix(u64 a, u64 b)
{
    u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
    return splitmix(x);
}

} // namespace sim
