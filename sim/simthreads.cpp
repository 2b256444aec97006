#include "simthreads.h"

#include "reboot.h"

#include <algorithm>
#include <array>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

extern "C" char __executable_start, _end;
extern "C" void __libc_free(void*);
extern "C" std::size_t malloc_usable_size(void*);

namespace sim::thr
{
namespace
{
    constexpr size_t stackSize = 1 << 20;
    constexpr u64 fairness = 5'000, runawayLimit = 20'000'000;
    using Clocks = std::array<u32, maxThreads>;

    void join(Clocks& a, Clocks const& b)
    {
        for (size_t i = 0; i < a.size(); ++i)
            a[i] = std::max(a[i], b[i]);
    }

    enum State { Ready, Blocked, Done };
    struct Thread
    {
        int id = 0;
        int go = 0; // futex
        State state = Ready;
        void const* waitsFor = nullptr;
        Clocks vc {};
        std::function<void()> const* body = nullptr;
        pthread_t os {};
    };

    struct Mutex
    {
        int owner = -1;
        int readers = 0;
        Clocks vc {};
    };
    struct Cell
    {
        u8 wmask = 0, wthr = 0;
        u32 wclk = 0;
        std::array<u8, maxThreads> rmask {};
        Clocks rclk {};
    };

    struct World
    {
        bool active = false;
        vector<Thread> threads;
        vector<Preempt> const* preempts = nullptr;
        size_t nextPreempt = 0;
        u64 since[2] {}; // steps since the last switch
        Result r;
        int finished = 0; // futex: everything is over
        std::unordered_map<void const*, Mutex> mutexes;
        std::unordered_map<void const*, Clocks> syncs; // atomics, guards, once flags
        std::unordered_map<void const*, int> guards;   // in progress by
        std::unordered_map<u64, Cell> cells, acells;
        std::unordered_map<void const*, u64> freed; // start and size of blocks given back and not handed out again
        std::unordered_map<u64, u8> dead;           // bytes of such blocks
        vector<void*> held;                         // given back by the program, not yet to the heap
        bool hold = false;
        char* stacks = nullptr;
    } w;

    __thread Thread* self = nullptr;
    __thread bool inside = false; // in this file: what it does itself is not simulated
    struct In
    {
        In() { inside = true; }
        ~In() { inside = false; }
    };

    long kernel(long n, long a, long b, long c, long d, long e, long f)
    {
        register long r10 asm("r10") = d;
        register long r8 asm("r8") = e;
        register long r9 asm("r9") = f;
        long r;
        asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return r;
    }
    void futexWait(int* p, int v) { kernel(SYS_futex, reinterpret_cast<long>(p), FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
    void futexWake(int* p) { kernel(SYS_futex, reinterpret_cast<long>(p), FUTEX_WAKE_PRIVATE, INT_MAX, 0, 0, 0); }

    void park(Thread& t)
    {
        while (!__atomic_load_n(&t.go, __ATOMIC_ACQUIRE))
            futexWait(&t.go, 0);
        __atomic_store_n(&t.go, 0, __ATOMIC_RELAXED);
    }
    void unpark(Thread& t)
    {
        __atomic_store_n(&t.go, 1, __ATOMIC_RELEASE);
        futexWake(&t.go);
    }
    void over()
    {
        __atomic_store_n(&w.finished, 1, __ATOMIC_RELEASE);
        futexWake(&w.finished);
    }
    [[noreturn]] void stop(char const* what, string detail)
    {
        w.active = false;
        if (w.r.failure.empty())
        {
            w.r.failure = what;
            w.r.detail = std::move(detail);
        }
        over();
        for (;;)
            pause();
    }

    Thread* pick(u64 n)
    {
        vector<Thread*> ready;
        for (auto& t: w.threads)
            if (t.state == Ready && &t != self)
                ready.push_back(&t);
        return ready.empty() ? nullptr : ready[n % ready.size()];
    }
    Thread* nextInTurn()
    {
        for (size_t k = 1; k < w.threads.size(); ++k)
            if (auto& t = w.threads[(static_cast<size_t>(self->id) + k) % w.threads.size()]; t.state == Ready)
                return &t;
        return nullptr;
    }
    void switchTo(Thread& t)
    {
        ++w.r.switches;
        w.since[0] = w.since[1] = 0;
        auto& me = *self;
        w.r.interleaving = mix(w.r.interleaving, static_cast<u64>(100 + t.id));
        unpark(t);
        park(me);
    }
    u64 targetNow()
    {
        auto const& p = *w.preempts;
        return w.nextPreempt < p.size() ? p[w.nextPreempt].target : 0;
    }

    // A place where the scheduler may switch.
    void step(int kind)
    {
        ++w.r.steps;
        if (w.r.steps > runawayLimit)
            stop("runaway", "no end after " + std::to_string(w.r.steps) + " steps");
        ++w.since[0];
        if (kind)
            ++w.since[1];
        auto const& p = *w.preempts;
        bool go = false;
        u64 target = 0;
        if (w.nextPreempt < p.size())
        {
            auto const& x = p[w.nextPreempt];
            if (w.since[x.kind & 1] > x.steps)
            {
                go = true;
                target = x.target;
                ++w.nextPreempt;
            }
        }
        // no thread waits for ever for one that is not scheduled
        bool const fair = !go && w.since[0] > fairness;
        if (go || fair)
        {
            w.since[0] = w.since[1] = 0;
            if (auto* const t = fair ? nextInTurn() : pick(target))
                switchTo(*t);
        }
    }

    void block(void const* on)
    {
        ++w.r.contended;
        self->state = Blocked;
        self->waitsFor = on;
        auto* const t = pick(targetNow());
        if (!t)
        {
            string who;
            for (auto const& x: w.threads)
                who += " thread " + std::to_string(x.id) + (x.state == Done ? " has finished;" : " is blocked;");
            stop("deadlock", who);
        }
        switchTo(*t);
    }
    void wake(void const* on)
    {
        for (auto& t: w.threads)
            if (t.state == Blocked && t.waitsFor == on)
                t.state = Ready;
    }

    enum Where { Stack, Static, Heap, Fixed };
    Where classify(char const* p)
    {
        if (w.stacks && p >= w.stacks && p < w.stacks + stackSize * maxThreads)
            return Stack;
        if ((p >= __start_simstate && p < __stop_simstate) || (p >= __start_simbss && p < __stop_simbss))
            return Static;
        if (p >= &__executable_start && p < &_end)
            return Fixed;
        return Heap;
    }
    string name(char const* p)
    {
        if (p >= __start_simstate && p < __stop_simstate)
            return "a static variable of the library (data+" + std::to_string(p - __start_simstate) + ")";
        if (p >= __start_simbss && p < __stop_simbss)
            return "a static variable of the library (bss+" + std::to_string(p - __start_simbss) + ")";
        return "memory shared through the library";
    }

    void race(char const* p, bool write, int other)
    {
        stop("data-race", "thread " + std::to_string(self->id) + (write ? " writes " : " reads ") + name(p) + " unsynchronised with an access by thread " + std::to_string(other));
    }

    void check(std::unordered_map<u64, Cell>& cells, char const* at, u64 key, u8 m, bool write)
    {
        auto const i = cells.find(key);
        if (i == cells.end())
            return;
        auto const& c = i->second;
        auto const& me = *self;
        if ((c.wmask & m) && c.wthr != me.id && c.wclk > me.vc[c.wthr])
            race(at, write, c.wthr);
        if (write)
            for (int t = 0; t < maxThreads; ++t)
                if (t != me.id && (c.rmask[static_cast<size_t>(t)] & m) && c.rclk[static_cast<size_t>(t)] > me.vc[static_cast<size_t>(t)])
                    race(at, write, t);
    }
    void record(std::unordered_map<u64, Cell>& cells, u64 key, u8 m, bool write)
    {
        auto& c = cells[key];
        auto const me = static_cast<size_t>(self->id);
        if (write)
        {
            bool const same = c.wthr == me && c.wclk == self->vc[me];
            c.wmask = same ? static_cast<u8>(c.wmask | m) : m;
            c.wthr = static_cast<u8>(me);
            c.wclk = self->vc[me];
        }
        else
        {
            c.rmask[me] = c.rclk[me] == self->vc[me] ? static_cast<u8>(c.rmask[me] | m) : m;
            c.rclk[me] = self->vc[me];
        }
    }

    void note(int what)
    {
        w.r.interleaving = mix(w.r.interleaving, static_cast<u64>(self->id * 16 + what));
    }

    void touch(char const* p, size_t n, bool write, bool atomic);
    void access(void const* ptr, size_t n, bool write, bool atomic = false)
    {
        if (!self || !w.active || inside || !n)
            return;
        In const in;
        auto const* const p = static_cast<char const*>(ptr);
        auto const where = classify(p);
        if (where == Stack || where == Fixed)
            return;
        if (where == Static)
        {
            ++w.r.staticAccesses;
            note(write ? 2 : 1);
        }
        step(where == Static || atomic);
        touch(p, n, write, atomic);
    }
    void touch(char const* p, size_t n, bool write, bool atomic)
    {
        auto const a = reinterpret_cast<u64>(p);
        for (u64 k = a >> 3; k <= (a + n - 1) >> 3; ++k)
        {
            u8 m = 0;
            for (u64 b = 0; b < 8; ++b)
                if ((k << 3) + b >= a && (k << 3) + b < a + n)
                    m |= static_cast<u8>(1u << b);
            if (!w.dead.empty())
                if (auto const i = w.dead.find(k); i != w.dead.end() && (i->second & m))
                    stop("use-after-free", "thread " + std::to_string(self->id) + (write ? " writes" : " reads") + " memory that was given back");
            check(w.cells, p, k, m, write);
            if (!atomic)
                check(w.acells, p, k, m, write);
            record(atomic ? w.acells : w.cells, k, m, write);
        }
    }

    bool acquires(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
    bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
    void acquire(void const* p)
    {
        if (auto const i = w.syncs.find(p); i != w.syncs.end())
            join(self->vc, i->second);
    }
    void release(void const* p, bool rmw)
    {
        auto& c = w.syncs[p];
        if (!rmw)
            c = {};
        join(c, self->vc);
        ++self->vc[static_cast<size_t>(self->id)];
    }
    bool simulated() { return self && w.active && !inside; }

    void* entry(void* arg)
    {
        auto& t = *static_cast<Thread*>(arg);
        self = &t;
        park(t);
        (*t.body)();
        inside = true;
        t.state = Done;
        if (!w.active)
            for (;;)
                pause();
        auto* const next = pick(targetNow());
        self = nullptr;
        if (next)
        {
            w.since[0] = w.since[1] = 0;
            w.r.interleaving = mix(w.r.interleaving, static_cast<u64>(200 + next->id));
            unpark(*next);
            return nullptr;
        }
        for (auto const& x: w.threads)
            if (x.state == Blocked)
            {
                w.r.failure = "deadlock";
                w.r.detail = "thread " + std::to_string(x.id) + " waits for ever";
                break;
            }
        over();
        return nullptr;
    }

    void* entryAlone(void* arg)
    {
        (*static_cast<std::function<void()> const*>(arg))();
        return nullptr;
    }

    void stacks()
    {
        if (!w.stacks)
            w.stacks = static_cast<char*>(mmap(nullptr, stackSize * maxThreads, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
    pthread_t create(int slot, void* (*f)(void*), void* arg)
    {
        stacks();
        pthread_attr_t attr;
        pthread_attr_init(&attr);
        pthread_attr_setstack(&attr, w.stacks + stackSize * static_cast<size_t>(slot), stackSize);
        pthread_t t;
        if (pthread_create(&t, &attr, f, arg))
            std::exit(2);
        pthread_attr_destroy(&attr);
        return t;
    }
} // namespace

void alone(std::function<void()> const& body)
{
    auto const t = create(0, entryAlone, const_cast<std::function<void()>*>(&body));
    pthread_join(t, nullptr);
}

Result run(vector<std::function<void()>> const& bodies, vector<Preempt> const& preempts)
{
    w.threads.assign(bodies.size(), Thread {});
    w.preempts = &preempts;
    w.nextPreempt = 0;
    w.since[0] = w.since[1] = 0;
    w.r = {};
    w.finished = 0;
    w.mutexes.clear();
    w.syncs.clear();
    w.guards.clear();
    w.cells.clear();
    w.acells.clear();
    w.freed.clear();
    w.dead.clear();
    // With the blocks held back, a use of one after its end is seen; otherwise the heap hands them out again, as it does.
    w.hold = preempts.size() % 2;
    for (size_t i = 0; i < bodies.size(); ++i)
    {
        auto& t = w.threads[i];
        t.id = static_cast<int>(i);
        t.body = &bodies[i];
        t.vc[i] = 1;
        t.os = create(static_cast<int>(i), entry, &t);
    }
    w.active = true;
    unpark(w.threads[targetNow() % w.threads.size()]);
    while (!__atomic_load_n(&w.finished, __ATOMIC_ACQUIRE))
        futexWait(&w.finished, 0);
    bool const stuck = !w.r.failure.empty();
    w.active = false;
    if (!stuck)
        for (auto& t: w.threads)
            pthread_join(t.os, nullptr);
    for (auto* const p: w.held)
        __libc_free(p);
    w.held.clear();
    return w.r;
}

} // namespace sim::thr

using namespace sim::thr;

// Fresh memory has no history.
namespace
{
void forget(void* p, std::size_t n)
{
    if (!simulated() || (w.cells.empty() && w.acells.empty() && w.dead.empty()))
        return;
    auto const a = reinterpret_cast<sim::u64>(p);
    In const in;
    w.freed.erase(p);
    n = std::max(n, malloc_usable_size(p));
    for (auto k = a >> 3; k <= (a + n) >> 3; ++k)
    {
        w.cells.erase(k);
        w.acells.erase(k);
        w.dead.erase(k);
    }
}
// A block is given back: nobody may be using it, now or later.
void giveBack(void* p)
{
    if (!p)
        return;
    if (!simulated())
        return __libc_free(p);
    {
        In const in;
        step(0);
        if (w.freed.count(p))
            stop("double-free", "thread " + std::to_string(self->id) + " gives a block back for the second time");
        auto const n = malloc_usable_size(p);
        auto const a = reinterpret_cast<sim::u64>(p);
        touch(static_cast<char const*>(p), n, true, false);
        w.freed.emplace(p, n);
        for (auto k = a >> 3; k < (a + n) >> 3; ++k)
            w.dead[k] = 0xFF;
        if (w.hold)
            return w.held.push_back(p);
    }
    __libc_free(p);
}
void* fresh(void* p, std::size_t n)
{
    if (p)
        forget(p, n);
    return p;
}
} // namespace
extern "C"
{
    void* __libc_malloc(std::size_t);
    void* __libc_calloc(std::size_t, std::size_t);
    void* __libc_realloc(void*, std::size_t);
    void* __libc_memalign(std::size_t, std::size_t);
    void* malloc(std::size_t n) { return fresh(__libc_malloc(n), n); }
    void* calloc(std::size_t a, std::size_t b) { return fresh(__libc_calloc(a, b), a * b); }
    void free(void* p) { giveBack(p); }
    void* realloc(void* p, std::size_t n)
    {
        if (!p || !simulated())
            return fresh(__libc_realloc(p, n), n);
        void* const q = malloc(n);
        if (q)
        {
            {
                In const in;
                std::memcpy(q, p, std::min(n, malloc_usable_size(p)));
            }
            free(p);
        }
        return q;
    }
    void* aligned_alloc(std::size_t a, std::size_t n) { return fresh(__libc_memalign(a, n), n); }
    void* memalign(std::size_t a, std::size_t n) { return fresh(__libc_memalign(a, n), n); }
    int posix_memalign(void** to, std::size_t a, std::size_t n)
    {
        void* const p = fresh(__libc_memalign(a, n), n);
        if (!p)
            return ENOMEM;
        *to = p;
        return 0;
    }
    void* reallocarray(void* p, std::size_t a, std::size_t b)
    {
        std::size_t n;
        if (__builtin_mul_overflow(a, b, &n))
            return nullptr;
        return realloc(p, n);
    }
}
// {{{ function-local statics
extern "C" int __cxa_guard_acquire(long long* g)
{
    auto* const b = reinterpret_cast<char*>(g);
    if (!simulated())
        return *b == 0;
    In const in;
    step(1);
    note(3);
    for (;;)
    {
        if (*b)
        {
            acquire(g);
            return 0;
        }
        auto const i = w.guards.find(g);
        if (i == w.guards.end())
        {
            w.guards[g] = self->id;
            return 1;
        }
        if (i->second == self->id)
            stop("deadlock", "a static variable's initialisation enters itself");
        block(g);
    }
}
extern "C" void __cxa_guard_release(long long* g)
{
    if (!simulated())
    {
        *reinterpret_cast<char*>(g) = 1;
        return;
    }
    In const in;
    step(1);
    note(4);
    *reinterpret_cast<char*>(g) = 1;
    release(g, true);
    w.guards.erase(g);
    wake(g);
    step(1);
}
extern "C" void __cxa_guard_abort(long long* g)
{
    if (!simulated())
        return;
    In const in;
    w.guards.erase(g);
    wake(g);
}
// }}}
// {{{ pthread synchronisation
namespace
{
template <typename F>
F real(F, char const* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(f) static auto const next = real(&f, #f)
void lockExclusive(void const* m)
{
    step(1);
    note(5);
    for (;;)
    {
        auto& x = w.mutexes[m];
        if (x.owner < 0 && !x.readers)
        {
            x.owner = self->id;
            join(self->vc, x.vc);
            return;
        }
        block(m);
    }
}
void unlock(void const* m)
{
    note(6);
    auto& x = w.mutexes[m];
    join(x.vc, self->vc);
    ++self->vc[static_cast<size_t>(self->id)];
    if (x.owner == self->id)
        x.owner = -1;
    else if (x.readers)
        --x.readers;
    wake(m);
    step(1);
}
} // namespace
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (!simulated())
    {
        REAL(pthread_mutex_lock);
        return next(m);
    }
    In const in;
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && w.mutexes[m].owner == self->id)
        return ++w.mutexes[m].readers, 0; // depth
    lockExclusive(m);
    return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!simulated())
    {
        REAL(pthread_mutex_trylock);
        return next(m);
    }
    In const in;
    step(1);
    auto& x = w.mutexes[m];
    if (x.owner >= 0)
        return 16; // EBUSY
    lockExclusive(m);
    return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (!simulated())
    {
        REAL(pthread_mutex_unlock);
        return next(m);
    }
    In const in;
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && w.mutexes[m].readers)
        return --w.mutexes[m].readers, 0;
    unlock(m);
    return 0;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    if (!simulated())
    {
        REAL(pthread_rwlock_wrlock);
        return next(m);
    }
    In const in;
    lockExclusive(m);
    return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    if (!simulated())
    {
        REAL(pthread_rwlock_rdlock);
        return next(m);
    }
    In const in;
    step(1);
    note(7);
    for (;;)
    {
        auto& x = w.mutexes[m];
        if (x.owner < 0)
        {
            ++x.readers;
            join(self->vc, x.vc);
            return 0;
        }
        block(m);
    }
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    if (!simulated())
    {
        REAL(pthread_rwlock_unlock);
        return next(m);
    }
    In const in;
    unlock(m);
    return 0;
}
extern "C" int pthread_once(pthread_once_t* o, void (*f)()) noexcept(false)
{
    if (!simulated())
    {
        REAL(pthread_once);
        return next(o, f);
    }
    {
        In const in;
        step(1);
        note(8);
        for (;;)
        {
            if (*o == 2)
            {
                acquire(o);
                return 0;
            }
            auto const i = w.guards.find(o);
            if (i == w.guards.end())
                break;
            if (i->second == self->id)
                stop("deadlock", "call_once enters itself");
            block(o);
        }
        w.guards[o] = self->id;
    }
    try
    {
        f();
    }
    catch (...)
    {
        In const in;
        w.guards.erase(o);
        wake(o);
        throw;
    }
    In const in;
    *o = 2;
    release(o, true);
    w.guards.erase(o);
    wake(o);
    step(1);
    return 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!simulated())
    {
        REAL(pthread_cond_wait);
        return next(c, m);
    }
    In const in;
    unlock(m);
    block(c);
    lockExclusive(m);
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (!simulated())
    {
        REAL(pthread_cond_broadcast);
        return next(c);
    }
    In const in;
    wake(c);
    step(1);
    return 0;
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (!simulated())
    {
        REAL(pthread_cond_signal);
        return next(c);
    }
    In const in;
    for (auto& t: w.threads)
        if (t.state == Blocked && t.waitsFor == c)
        {
            t.state = Ready;
            break;
        }
    step(1);
    return 0;
}
namespace
{
void yield()
{
    if (!simulated())
        return;
    In const in;
    step(1);
    if (auto* const t = nextInTurn())
        switchTo(*t);
}
} // namespace
extern "C" int sched_yield() noexcept
{
    yield();
    return 0;
}
// Time passes only by the steps that threads make.
extern "C" int nanosleep(timespec const*, timespec*)
{
    yield();
    return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, timespec const*, timespec*)
{
    yield();
    return 0;
}
extern "C" int usleep(unsigned)
{
    yield();
    return 0;
}
// std::atomic::wait() and notify
extern "C" long syscall(long n, ...) noexcept
{
    va_list l;
    va_start(l, n);
    long a[6];
    for (auto& x: a)
        x = va_arg(l, long);
    va_end(l);
    if (n == SYS_futex && simulated())
    {
        In const in;
        auto* const p = reinterpret_cast<int*>(a[0]);
        step(1);
        if ((a[1] & 0x7F) == FUTEX_WAIT || (a[1] & 0x7F) == FUTEX_WAIT_BITSET)
        {
            if (*p != static_cast<int>(a[2]))
            {
                errno = EAGAIN;
                return -1;
            }
            block(p);
            return 0;
        }
        wake(p);
        return 0;
    }
    auto const r = kernel(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096)
    {
        errno = static_cast<int>(-r);
        return -1;
    }
    return r;
}
// }}}
// {{{ the instrumentation's callbacks
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW(n)                                                                   \
    void __tsan_read##n(void* p) { access(p, n, false); }                       \
    void __tsan_write##n(void* p) { access(p, n, true); }                       \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); }             \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true); }             \
    void __tsan_read_write##n(void* p) { access(p, n, false), access(p, n, true); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, false), access(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false); }              \
    void __tsan_volatile_write##n(void* p) { access(p, n, true); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_vptr_read(void** p) { access(p, 8, false); }
    void __tsan_vptr_update(void** p, void* v)
    {
        if (*p != v)
            access(p, 8, true);
    }
    void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
    void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
    void* __tsan_memcpy(void* d, void const* s, unsigned long n)
    {
        access(s, n, false);
        access(d, n, true);
        return __builtin_memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, void const* s, unsigned long n)
    {
        access(s, n, false);
        access(d, n, true);
        return __builtin_memmove(d, s, n);
    }
    void* __tsan_memset(void* d, int c, unsigned long n)
    {
        access(d, n, true);
        return __builtin_memset(d, c, n);
    }
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(bits, T)                                                                   \
    T __tsan_atomic##bits##_load(T const volatile* p, int mo)                              \
    {                                                                                     \
        access(const_cast<T const*>(p), sizeof(T), false, true);                           \
        if (simulated() && acquires(mo))                                                         \
        {                                                                                 \
            In const in;                                                                  \
            acquire(const_cast<T const*>(p));                                              \
        }                                              \
        return *p;                                                                        \
    }                                                                                     \
    void __tsan_atomic##bits##_store(T volatile* p, T v, int mo)                           \
    {                                                                                     \
        access(const_cast<T*>(p), sizeof(T), true, true);                                  \
        if (simulated())                                                                        \
        {                                                                                 \
            In const in;                                                                  \
            if (releases(mo))                                                             \
                release(const_cast<T*>(p), false);                                         \
            else                                                                          \
                w.syncs.erase(const_cast<T*>(p));                                          \
        }                                                                                 \
        *p = v;                                                                           \
    }                                                                                     \
    static void rmw##bits(T volatile* p, int mo)                                           \
    {                                                                                     \
        access(const_cast<T*>(p), sizeof(T), true, true);                                  \
        if (!simulated())                                                                       \
            return;                                                                       \
        In const in;                                                                      \
        if (acquires(mo))                                                                 \
            acquire(const_cast<T*>(p));                                                    \
        if (releases(mo))                                                                 \
            release(const_cast<T*>(p), true);                                              \
    }                                                                                     \
    T __tsan_atomic##bits##_exchange(T volatile* p, T v, int mo)                           \
    {                                                                                     \
        rmw##bits(p, mo);                                                                 \
        T const o = *p;                                                                   \
        *p = v;                                                                           \
        return o;                                                                         \
    }                                                                                     \
    T __tsan_atomic##bits##_fetch_add(T volatile* p, T v, int mo) { rmw##bits(p, mo); T const o = *p; *p = static_cast<T>(o + v); return o; }     \
    T __tsan_atomic##bits##_fetch_sub(T volatile* p, T v, int mo) { rmw##bits(p, mo); T const o = *p; *p = static_cast<T>(o - v); return o; }     \
    T __tsan_atomic##bits##_fetch_and(T volatile* p, T v, int mo) { rmw##bits(p, mo); T const o = *p; *p = static_cast<T>(o & v); return o; }     \
    T __tsan_atomic##bits##_fetch_or(T volatile* p, T v, int mo) { rmw##bits(p, mo); T const o = *p; *p = static_cast<T>(o | v); return o; }      \
    T __tsan_atomic##bits##_fetch_xor(T volatile* p, T v, int mo) { rmw##bits(p, mo); T const o = *p; *p = static_cast<T>(o ^ v); return o; }     \
    T __tsan_atomic##bits##_fetch_nand(T volatile* p, T v, int mo) { rmw##bits(p, mo); T const o = *p; *p = static_cast<T>(~(o & v)); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* e, T v, int mo, int)  \
    {                                                                                     \
        rmw##bits(p, mo);                                                                 \
        if (*p == *e)                                                                     \
            return *p = v, 1;                                                             \
        return *e = *p, 0;                                                                \
    }                                                                                     \
    int __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* e, T v, int mo, int f)  \
    {                                                                                     \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, f);              \
    }                                                                                     \
    T __tsan_atomic##bits##_compare_exchange_val(T volatile* p, T e, T v, int mo, int)        \
    {                                                                                     \
        rmw##bits(p, mo);                                                                 \
        T const o = *p;                                                                   \
        if (o == e)                                                                       \
            *p = v;                                                                       \
        return o;                                                                         \
    }
    ATOMIC(8, unsigned char)
    ATOMIC(16, unsigned short)
    ATOMIC(32, unsigned)
    ATOMIC(64, unsigned long)
    ATOMIC(128, unsigned __int128)
}
// }}}
