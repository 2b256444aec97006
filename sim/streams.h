// Byte streams of simulated terminals: text, transmission damage, and a discrete-event schedule of deliveries.
#pragma once
#include "common.h"
#include "text.h"

namespace sim
{

// Op kinds. TEXT {stream, times} b; FAULT {stream, what, pos, len, val, snap}; everything from ScheduledFrom
// on is {actor, delay in microseconds, ...} and takes place at a simulated time.
enum : int { K_TEXT = 1, K_FAULT = 2, ScheduledFrom = 10, K_DELIVER = 10, K_RESET = 11 };

enum Damage : int { D_DROP, D_DUP, D_CORRUPT, D_TRUNCATE, D_INSERT, D_SWAP, D_FLIP, DamageKinds };

struct StreamGen
{
    unsigned themes = (1u << text::ThemeCount) - 1; // allowed themes
    int minStreams = 1, maxStreams = 3;
    unsigned controls = 10;    // percent of tokens that are C0/C1 controls
    unsigned damage = 0;       // percent of runs with damage
    unsigned rawNoise = 0;     // percent of tokens that are raw bytes, when damage is on
    size_t tokens = 14;        // typical tokens per stream
    bool plainLong = false;    // beyond longest / 8, the very long stream repeats a single codepoint
    size_t longest = 140000;   // bytes that the rare very long stream may have
};

// Adds TEXT and FAULT ops; returns the number of streams.
int genStreams(Rng& rng, Plan& plan, StreamGen const& g);
// Adds DELIVER ops {stream, delay, nbytes, extra...}; `extra` fills further arguments.
void genDeliveries(Rng& rng, Plan& plan, int streams, std::function<void(Rng&, Op&)> const& extra = {});

// The streams as sent, and as they arrive after the damage.
struct Wire
{
    vector<string> sent, got;
    vector<vector<u8>> fresh; // got[i] byte is original and in order (not touched by the damage)
    bool damaged = false;
};
Wire buildWire(Plan const& plan, Stats& st, int streams = -1);

// Scheduled ops in simulated-time order.
struct Event
{
    u64 at;
    Op const* op;
};
vector<Event> timeline(Plan const& plan, Stats& st);

} // namespace sim
