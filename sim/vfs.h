// A simulated machine for one batch program: disk, files, clock, heap and stack behind the C library's
// interface. The program runs in a child process; the disk outlives it.
#pragma once
#include "common.h"

namespace sim::vfs
{

enum Class : int { OpenRead, Read, CloseRead, OpenWrite, Write, CloseWrite, Other, Alloc, ClassCount };
char const* className(int c);

enum Kind : int
{
    F_EIO,      // the operation fails once
    F_EIO_STAY, // and keeps failing, for this file
    F_EINTR,    // is interrupted 1-3 times
    F_SHORT,    // transfers fewer bytes
    F_TORN,     // write: a part, then an error
    F_NOSPC,    // write, open, close: the disk is full, once
    F_FULL,     // the disk stays full
    F_NOENT,
    F_ACCES,
    F_MFILE,
    F_CRASH,    // the machine loses power at this point
    F_NOMEM,    // the allocation fails
    F_DENIED,   // the path cannot be opened, this time and whenever it is tried again; arg: the error code
    KindCount
};
char const* kindName(int k);

struct Fault
{
    int cls = 0; // Class, or -1 for any file operation
    u64 nth = 0;
    int kind = 0;
    u64 arg = 0;
    string file; // the nth operation on this path only
};

// What the program sees of its machine, besides the disk.
struct Machine
{
    u64 clock = 0;        // nanoseconds
    u64 tick = 1000;      // per reading of the clock
    u64 latency = 90'000; // of each file operation
    u64 layout = 0;       // where the heap lies, and what unused memory contains
    int style = 0;        // how paths are spelled, what the environment contains
};

struct Outcome
{
    bool exited = false, crashed = false, runaway = false, threw = false;
    int status = 0; // exit status
    int signal = 0;
    u64 digest = 0; // of the program's result, if it has one in memory
    u64 ops[ClassCount] {};
    u64 fired[KindCount] {};
    u64 nanos = 0; // simulated time
    u64 trace = 0; // hash of all file operations and their results
    string said; // what it printed last
    vector<u64> opened; // hashes of the paths of the files it opened
};

u64 hashOf(char const* path);

void init();
// The disk's output side.
void clearDisk();
std::map<string, string> outputs();
void putOutput(string const& name, string const& content);
void dropOutput(string const& name);
// Loses what a power failure loses: seeded parts of what was written to each file since it was synced.
// Returns how many files are affected.
unsigned powerLoss(u64 seed);
extern u64 capacity; // of the disk, in bytes

// Runs `program` as a process of the machine. inputs: path (relative to the input directory) -> content.
Outcome boot(std::map<string, string> const& inputs, Machine const& m, vector<Fault> const& faults, std::function<int(string const& in, string const& out, u64& digest)> const& program);

} // namespace sim::vfs
