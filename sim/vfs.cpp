#include "vfs.h"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdexcept>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

extern "C"
{
    void* __libc_malloc(size_t);
    void* __libc_calloc(size_t, size_t);
    void* __libc_realloc(void*, size_t);
    void* __libc_memalign(size_t, size_t);
    void __libc_free(void*);
}

namespace sim::vfs
{
u64 hashOf(char const* p)
{
    u64 h = 0xcbf29ce484222325ull;
    for (; *p; ++p)
        h = (h ^ static_cast<u8>(*p)) * 0x100000001b3ull;
    return h ? h : 1;
}

u64 capacity = ~u64 { 0 };

namespace
{
    constexpr int maxFiles = 48, maxDirs = 32, firstFd = 1000, maxHandles = 64;
    constexpr u64 fileRoom = 24 << 20;
    constexpr u64 opLimit = 400'000;
    constexpr u64 stackRoom = 8 << 20, stackFill = 256 << 10;
    constexpr u64 heapBase = 0x2000'0000'0000, heapRoom = u64 { 16 } << 30, stackBase = 0x2F00'0000'0000;
    char const* const inDir = "/sim/ucd/";
    char const* const outDir = "/sim/out/";

    struct File
    {
        bool exists;
        char name[160]; // absolute
        u64 size;
        // what is certainly on the disk
        bool durableExists, dirty;
        u64 durableSize; // of the content as of the last sync; kept in `old`
    };
    struct Dir
    {
        bool exists, durable;
        char name[160];
    };
    struct SharedState
    {
        File files[maxFiles];
        Dir dirs[maxDirs]; // those that were created
        u64 ops[ClassCount], fired[KindCount], trace, total, digest, clock;
        bool crashed, runaway, threw, done;
        int status;
        char said[400];
        u64 saidSize;
        u64 opened[128]; // hashes of paths
    };
    SharedState* sh = nullptr;
    pid_t owner = 0;
    char* room = nullptr;    // contents
    char* oldRoom = nullptr; // contents as of the last sync

    char* content(int f) { return room + static_cast<u64>(f) * fileRoom; }
    char* oldContent(int f) { return oldRoom + static_cast<u64>(f) * fileRoom; }

    struct Handle
    {
        bool used = false, isInput = false, isDir = false, canRead = false, canWrite = false, append = false, broken = false;
        int file = -1;
        string const* input = nullptr;
        u64 pos = 0;
        FILE* fp = nullptr;
        char dir[160] {}; // of a directory: which
        u64 path = 0;     // of a file: hash of its path
    };

    // The state of the simulated process, in the child only.
    bool inside = false;
    std::map<string, string> const* inputs = nullptr;
    vector<Fault> const* faults = nullptr;
    Handle handles[maxHandles];
    Machine machine;
    string cwd;
    int interruptions = 0;
    u64 entropy = 0;
    bool full = false;
    bool outOfHandles = false;
    // Operations per file, for the faults that strike a certain file.
    struct Counts
    {
        u64 path = 0;
        u64 ops[ClassCount] {};
    };
    Counts perFile[256];
    vector<u64> const* faultPaths = nullptr; // hashes of faults' paths

    // The machine's own work does not use the simulated process's memory.
    struct Own
    {
        bool was = inside;
        Own() { inside = false; }
        ~Own() { inside = was; }
    };

    // {{{ heap
    struct Free
    {
        Free* next;
    };
    struct Header
    {
        u64 cls;
        u64 size;
    };
    Free* bins[48];
    u64 brk_ = 0, top = heapRoom;
    u64 order = 0; // decides where blocks lie relative to each other
    u64 shuffle()
    {
        if (!order)
            return 0; // ascending
        return splitmix(order) >> 7;
    }
    u8 junk = 0;
    bool ours(void const* p) { return reinterpret_cast<u64>(p) >= heapBase && reinterpret_cast<u64>(p) < heapBase + heapRoom; }
    bool allocFault()
    {
        auto const n = sh->ops[Alloc]++;
        for (auto const& f: *faults)
            if (f.cls == Alloc && (f.nth == n || (f.arg % 4 == 1 && n > f.nth && n < f.nth + 40)))
            {
                ++sh->fired[F_NOMEM];
                return true;
            }
        return false;
    }
    void* take(u64 n, u64 align)
    {
        if (n >= heapRoom || allocFault())
        {
            errno = ENOMEM;
            return nullptr;
        }
        if (align > 16)
        {
            auto const at = (heapBase + brk_ + sizeof(Header) + align - 1) & ~(align - 1);
            if (at + n + 16 > heapBase + top)
                return nullptr;
            brk_ = ((at + n + 15) & ~u64 { 15 }) - heapBase;
            auto* const h = reinterpret_cast<Header*>(at) - 1;
            *h = { 47, n };
            return reinterpret_cast<void*>(at);
        }
        u64 cls = 5;
        while ((u64 { 1 } << cls) < n + sizeof(Header))
            ++cls;
        Header* h;
        if (bins[cls])
        {
            h = reinterpret_cast<Header*>(bins[cls]) - 1;
            bins[cls] = bins[cls]->next;
        }
        else
        {
            if (cls > 12)
            {
                // large blocks only take what they need, from either end
                auto const want = (n + sizeof(Header) + 4095) & ~u64 { 4095 };
                if (brk_ + want > top)
                    return nullptr;
                if (shuffle() & 1)
                    top -= want, h = reinterpret_cast<Header*>(heapBase + top);
                else
                    h = reinterpret_cast<Header*>(heapBase + brk_), brk_ += want;
                *h = { 46, n };
                memset(h + 1, junk, std::min<u64>(n, 65536));
                return h + 1;
            }
            // small ones come in groups; their order within the group is part of the layout
            constexpr u64 group = 32;
            auto const size = u64 { 1 } << cls;
            if (brk_ + size * group > top)
                return nullptr;
            auto const step = shuffle() | 1, start = shuffle();
            for (u64 i = 0; i < group; ++i)
            {
                auto* const f = reinterpret_cast<Free*>(heapBase + brk_ + ((start + i * step) & (group - 1)) * size + sizeof(Header));
                f->next = bins[cls];
                bins[cls] = f;
            }
            brk_ += size * group;
            h = reinterpret_cast<Header*>(bins[cls]) - 1;
            bins[cls] = bins[cls]->next;
        }
        *h = { cls, n };
        memset(h + 1, junk, n);
        return h + 1;
    }
    void give(void* p)
    {
        auto* const h = static_cast<Header*>(p) - 1;
        if (h->cls < 46)
        {
            auto const cls = h->cls;
            memset(p, junk ^ 0x55, h->size);
            auto* const f = static_cast<Free*>(p);
            f->next = bins[cls];
            bins[cls] = f;
        }
        else if (h->size > 65536)
        {
            auto const a = (reinterpret_cast<u64>(p) + 4095) & ~u64 { 4095 }, b = (reinterpret_cast<u64>(p) + h->size) & ~u64 { 4095 };
            if (b > a)
                madvise(reinterpret_cast<void*>(a), b - a, MADV_DONTNEED);
        }
    }
    // }}}

    template <typename F>
    F real(F, char const* name)
    {
        return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    }
#define REAL(f) static auto const next = real(&f, #f)

    string absolute(char const* path, string const& base)
    {
        string p = path[0] == '/' ? path : base + "/" + path;
        vector<string> parts;
        for (size_t i = 0; i < p.size();)
        {
            auto const e = std::min(p.find('/', i), p.size());
            auto const w = p.substr(i, e - i);
            if (w == "..")
            {
                if (!parts.empty())
                    parts.pop_back();
            }
            else if (!w.empty() && w != ".")
                parts.push_back(w);
            i = e + 1;
        }
        string r;
        for (auto const& w: parts)
            r += "/" + w;
        return r.empty() ? "/" : r;
    }
    string absolute(char const* path) { return absolute(path, cwd); }
    bool fixedDirectory(string const& p) { return p == "/" || p == "/sim" || p == "/sim/ucd" || p == "/sim/out" || p == "/sim/work" || p == "/tmp"; }
    int findDir(string const& p)
    {
        for (int i = 0; i < maxDirs; ++i)
            if (sh->dirs[i].exists && p == sh->dirs[i].name)
                return i;
        return -1;
    }
    bool below(char const* name, string const& dir) { return !strncmp(name, dir.c_str(), dir.size()) && name[dir.size()] == '/'; }
    bool isDirectory(string const& p)
    {
        if (fixedDirectory(p) || findDir(p) >= 0)
            return true;
        for (auto const& [k, v]: *inputs)
            if ((string(inDir) + k).compare(0, p.size() + 1, p + "/") == 0)
                return true;
        return false;
    }
    int findFile(string const& p)
    {
        for (int i = 0; i < maxFiles; ++i)
            if (sh->files[i].exists && p == sh->files[i].name)
                return i;
        return -1;
    }
    string const* findInput(string const& p)
    {
        if (p.compare(0, strlen(inDir), inDir) != 0)
            return nullptr;
        auto const i = inputs->find(p.substr(strlen(inDir)));
        return i == inputs->end() ? nullptr : &i->second;
    }

    void mark(u64 v) { sh->trace = mix(sh->trace, v); }
    void mark(string const& s)
    {
        for (char c: s)
            sh->trace = (sh->trace ^ static_cast<u8>(c)) * 0x100000001b3ull;
    }

    [[noreturn]] void end()
    {
        inside = false;
        _exit(0);
    }

    // Counts the operation and says which fault meets it.
    Fault const* operation(int cls, u64 path = 0)
    {
        auto const n = sh->ops[cls]++;
        auto const all = sh->total++;
        mark(static_cast<u64>(cls) + 77);
        machine.clock += machine.latency;
        sh->clock = machine.clock;
        if (sh->total > opLimit)
        {
            sh->runaway = true;
            end();
        }
        u64 here = 0;
        for (auto& c: perFile)
            if (path && (!c.path || c.path == path))
            {
                c.path = path;
                here = c.ops[cls]++;
                break;
            }
        for (size_t i = 0; i < faults->size(); ++i)
        {
            auto const& f = (*faults)[i];
            if (f.file.empty() ? (f.cls == cls && f.nth == n) || (f.cls < 0 && f.nth == all)
                               : path == (*faultPaths)[i] && f.cls == cls && (f.nth == here || f.kind == F_DENIED))
            {
                if (f.kind == F_CRASH)
                {
                    ++sh->fired[F_CRASH];
                    sh->crashed = true;
                    end();
                }
                return &f;
            }
        }
        return nullptr;
    }
    int fail(int kind, int e)
    {
        ++sh->fired[kind];
        mark(static_cast<u64>(e) + 1000);
        errno = e;
        return -1;
    }
    bool interrupted(Fault const* f)
    {
        if (f && f->kind == F_EINTR)
            interruptions = static_cast<int>(f->arg % 3) + 1;
        if (!interruptions)
            return false;
        --interruptions;
        fail(F_EINTR, EINTR);
        return true;
    }

    Handle* handle(int fd) { return inside && fd >= firstFd && fd < firstFd + maxHandles && handles[fd - firstFd].used ? &handles[fd - firstFd] : nullptr; }

    void touch(int f)
    {
        auto& x = sh->files[f];
        if (x.dirty)
            return;
        x.dirty = true;
    }
    void sync(int f)
    {
        auto& x = sh->files[f];
        memcpy(oldContent(f), content(f), x.size);
        x.durableSize = x.size;
        x.durableExists = true;
        x.dirty = false;
    }
    u64 used()
    {
        u64 n = 0;
        for (auto const& f: sh->files)
            if (f.exists)
                n += f.size;
        return n;
    }

    // Where paths relative to this descriptor start.
    string baseOf(int fd)
    {
        auto const i = fd - firstFd;
        return fd != AT_FDCWD && i >= 0 && i < maxHandles && handles[i].used && handles[i].isDir ? handles[i].dir : cwd;
    }

    int openAt(int base, char const* path, int flags)
    {
        Own const own;
        auto const p = absolute(path, baseOf(base));
        bool const writing = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
        auto const* const f = operation(writing ? OpenWrite : OpenRead, hashOf(p.c_str()));
        mark(p);
        for (auto& x: sh->opened)
            if (!x || x == hashOf(p.c_str()))
            {
                x = hashOf(p.c_str());
                break;
            }
        if (outOfHandles)
            return fail(F_MFILE, EMFILE);
        if (f)
            switch (f->kind)
            {
                case F_EINTR: return fail(F_EINTR, EINTR);
                case F_NOENT: return fail(F_NOENT, ENOENT);
                case F_ACCES: return fail(F_ACCES, EACCES);
                case F_MFILE:
                    outOfHandles = f->arg & 1; // for good
                    return fail(F_MFILE, EMFILE);
                case F_DENIED: return fail(F_DENIED, static_cast<int>(f->arg));
                case F_NOSPC: return fail(F_NOSPC, ENOSPC);
                case F_FULL: full = true; return fail(F_FULL, ENOSPC);
                default: return fail(F_EIO, EIO);
            }
        Handle h;
        h.used = true;
        h.path = hashOf(p.c_str());
        h.canRead = (flags & O_ACCMODE) != O_WRONLY;
        h.canWrite = (flags & O_ACCMODE) != O_RDONLY;
        h.append = flags & O_APPEND;
        if (auto const* const in = findInput(p))
        {
            if (writing)
            {
                errno = EROFS;
                return -1;
            }
            h.isInput = true;
            h.input = in;
        }
        else if (isDirectory(p))
        {
            if (writing)
            {
                errno = EISDIR;
                return -1;
            }
            if (p.size() >= sizeof h.dir)
            {
                errno = ENAMETOOLONG;
                return -1;
            }
            h.isDir = true;
            strcpy(h.dir, p.c_str());
        }
        else if (flags & O_DIRECTORY)
        {
            errno = findFile(p) >= 0 ? ENOTDIR : ENOENT;
            return -1;
        }
        else
        {
            int i = findFile(p);
            if (i < 0)
            {
                auto const dir = p.substr(0, p.rfind('/'));
                if (!(flags & O_CREAT) || !isDirectory(dir.empty() ? "/" : dir) || p.size() >= sizeof(File::name) || p.compare(0, strlen(inDir), inDir) == 0)
                {
                    errno = ENOENT;
                    return -1;
                }
                if (full)
                    return fail(F_FULL, ENOSPC);
                // a slot whose former file has not survived either
                for (i = 0; i < maxFiles && (sh->files[i].exists || sh->files[i].durableExists); ++i)
                    ;
                if (i == maxFiles)
                {
                    errno = ENOSPC;
                    return -1;
                }
                auto& x = sh->files[i];
                x = {};
                x.exists = true;
                strcpy(x.name, p.c_str());
                touch(i);
            }
            else if ((flags & O_CREAT) && (flags & O_EXCL))
            {
                errno = EEXIST;
                return -1;
            }
            if (flags & O_TRUNC)
            {
                touch(i);
                sh->files[i].size = 0;
            }
            h.file = i;
        }
        for (int i = 0; i < maxHandles; ++i)
            if (!handles[i].used)
            {
                handles[i] = h;
                return firstFd + i;
            }
        errno = EMFILE;
        return -1;
    }

    ssize_t readAt(Handle& h, char* to, size_t n, u64& pos)
    {
        auto const* const f = operation(Read, h.path);
        if (h.isDir)
        {
            errno = EISDIR;
            return -1;
        }
        if (!h.canRead)
        {
            errno = EBADF;
            return -1;
        }
        if (interrupted(f))
            return -1;
        if (h.broken)
            return fail(F_EIO_STAY, EIO);
        auto const size = h.isInput ? h.input->size() : sh->files[h.file].size;
        auto const* const from = h.isInput ? h.input->data() : content(h.file);
        auto k = pos < size ? std::min<u64>(n, size - pos) : 0;
        if (f)
            switch (f->kind)
            {
                case F_EIO: return fail(F_EIO, EIO);
                case F_EIO_STAY: h.broken = true; return fail(F_EIO_STAY, EIO);
                case F_SHORT:
                    if (k > 1)
                    {
                        k = 1 + f->arg % (k - 1);
                        ++sh->fired[F_SHORT];
                    }
                    break;
                default: return fail(F_EIO, EIO);
            }
        memcpy(to, from + pos, k);
        pos += k;
        mark(k);
        return static_cast<ssize_t>(k);
    }

    ssize_t writeAt(Handle& h, char const* from, size_t n, u64& pos)
    {
        auto const* const f = operation(Write, h.path);
        if (!h.canWrite || h.file < 0)
        {
            errno = EBADF;
            return -1;
        }
        if (interrupted(f))
            return -1;
        if (h.broken)
            return fail(F_EIO_STAY, EIO);
        if (full)
            return fail(F_FULL, ENOSPC);
        auto k = static_cast<u64>(n);
        int torn = -1;
        if (f)
            switch (f->kind)
            {
                case F_EIO: return fail(F_EIO, EIO);
                case F_EIO_STAY: h.broken = true; return fail(F_EIO_STAY, EIO);
                case F_NOSPC: return fail(F_NOSPC, ENOSPC);
                case F_FULL: full = true; return fail(F_FULL, ENOSPC);
                case F_SHORT:
                    if (k > 1)
                    {
                        k = 1 + f->arg % (k - 1);
                        ++sh->fired[F_SHORT];
                    }
                    break;
                case F_TORN:
                    torn = EIO;
                    k = k ? f->arg % k : 0;
                    break;
                default: return fail(F_EIO, EIO);
            }
        auto& x = sh->files[h.file];
        if (h.append)
            pos = x.size;
        if (pos + k > x.size && used() + (pos + k - x.size) > capacity)
        {
            auto const left = capacity - std::min(capacity, used());
            auto const fits = x.size + left > pos ? x.size + left - pos : 0;
            if (!fits)
                return fail(F_FULL, ENOSPC);
            k = std::min(k, fits);
            ++sh->fired[F_SHORT];
        }
        if (pos + k > fileRoom)
        {
            errno = EFBIG;
            return -1;
        }
        touch(h.file);
        if (pos > x.size)
            memset(content(h.file) + x.size, 0, pos - x.size);
        memcpy(content(h.file) + pos, from, k);
        pos += k;
        x.size = std::max(x.size, pos);
        mark(k);
        if (torn >= 0)
            return fail(F_TORN, torn);
        return static_cast<ssize_t>(k);
    }

    int closeAt(Handle& h)
    {
        auto const* const f = operation(h.canWrite ? CloseWrite : CloseRead, h.path);
        auto const file = h.file;
        bool const writing = h.canWrite && file >= 0;
        h = {};
        if (!f)
            return 0;
        switch (f->kind)
        {
            case F_EINTR: return fail(F_EINTR, EINTR);
            default:
                // delayed write-back: the error comes with the loss of what was written last
                if (writing)
                    sh->files[file].size -= std::min(sh->files[file].size, f->arg % 5000);
                return fail(f->kind == F_NOSPC || f->kind == F_FULL ? F_NOSPC : F_EIO, f->kind == F_NOSPC || f->kind == F_FULL ? ENOSPC : EIO);
        }
    }

    off_t seekAt(Handle& h, off_t off, int whence)
    {
        operation(Other);
        if (h.isDir)
            return 0;
        auto const size = static_cast<off_t>(h.isInput ? h.input->size() : sh->files[h.file].size);
        auto const to = off + (whence == SEEK_CUR ? static_cast<off_t>(h.pos) : whence == SEEK_END ? size : 0);
        if (to < 0)
        {
            errno = EINVAL;
            return -1;
        }
        h.pos = static_cast<u64>(to);
        return to;
    }

    template <typename S>
    int statPath(char const* path, S* st, int base = AT_FDCWD)
    {
        Own const own;
        auto const p = absolute(path, baseOf(base));
        operation(Other);
        memset(st, 0, sizeof *st);
        st->st_nlink = 1;
        st->st_blksize = 4096;
        st->st_mtime = static_cast<time_t>(machine.clock / 1'000'000'000);
        if (auto const* const in = findInput(p))
        {
            st->st_mode = S_IFREG | 0444;
            st->st_size = static_cast<off_t>(in->size());
            return 0;
        }
        if (isDirectory(p))
        {
            st->st_mode = S_IFDIR | 0755;
            return 0;
        }
        if (auto const i = findFile(p); i >= 0)
        {
            st->st_mode = S_IFREG | 0644;
            st->st_size = static_cast<off_t>(sh->files[i].size);
            st->st_ino = static_cast<ino_t>(i + 10);
            return 0;
        }
        errno = ENOENT;
        return -1;
    }
    template <typename S>
    int statFd(int fd, S* st)
    {
        auto const* const h = handle(fd);
        operation(Other);
        memset(st, 0, sizeof *st);
        st->st_nlink = 1;
        st->st_blksize = 4096;
        st->st_mode = h->isDir ? S_IFDIR | 0755 : S_IFREG | 0644;
        if (!h->isDir)
            st->st_size = static_cast<off_t>(h->isInput ? h->input->size() : sh->files[h->file].size);
        return 0;
    }

    ssize_t cookieRead(void* c, char* p, size_t n)
    {
        auto& h = handles[reinterpret_cast<intptr_t>(c)];
        return readAt(h, p, n, h.pos);
    }
    ssize_t cookieWrite(void* c, char const* p, size_t n)
    {
        auto& h = handles[reinterpret_cast<intptr_t>(c)];
        auto const r = writeAt(h, p, n, h.pos);
        return r < 0 ? 0 : r;
    }
    int cookieSeek(void* c, off64_t* off, int whence)
    {
        auto const r = seekAt(handles[reinterpret_cast<intptr_t>(c)], *off, whence);
        if (r < 0)
            return -1;
        *off = r;
        return 0;
    }
    int cookieClose(void* c) { return closeAt(handles[reinterpret_cast<intptr_t>(c)]); }

    FILE* wrap(int fd, char const* mode)
    {
        auto* const fp = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd - firstFd)), mode, { cookieRead, cookieWrite, cookieSeek, cookieClose });
        if (fp)
            handles[fd - firstFd].fp = fp;
        return fp;
    }
    FILE* openFile(char const* path, char const* mode)
    {
        int flags = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
        for (char const* m = mode + 1; *m && *m != ','; ++m)
        {
            if (*m == '+')
                flags = (flags & ~O_ACCMODE) | O_RDWR;
            if (*m == 'x')
                flags |= O_EXCL;
        }
        auto const fd = openAt(AT_FDCWD, path, flags);
        if (fd < 0)
            return nullptr;
        auto* const fp = wrap(fd, mode);
        if (!fp)
            handles[fd - firstFd] = {};
        return fp;
    }

    // {{{ directories and names
    bool inputSide(string const& p) { return p.compare(0, strlen(inDir), inDir) == 0; }
    int refuse(int e)
    {
        errno = e;
        return -1;
    }
    int faulty(Fault const* f)
    {
        return f->kind == F_EINTR ? fail(F_EINTR, EINTR) : f->kind == F_ACCES ? fail(F_ACCES, EACCES) : f->kind == F_NOSPC || f->kind == F_FULL ? fail(F_NOSPC, ENOSPC) : fail(F_EIO, EIO);
    }
    string parent(string const& p)
    {
        auto const d = p.substr(0, p.rfind('/'));
        return d.empty() ? "/" : d;
    }
    int makeDir(string const& p)
    {
        mark(p);
        if (auto const* const f = operation(Other))
            return faulty(f);
        if (isDirectory(p) || findFile(p) >= 0 || findInput(p))
            return refuse(EEXIST);
        if (!isDirectory(parent(p)))
            return refuse(ENOENT);
        if (inputSide(p))
            return refuse(EROFS);
        if (p.size() >= sizeof(Dir::name))
            return refuse(ENAMETOOLONG);
        if (full)
            return fail(F_FULL, ENOSPC);
        for (auto& d: sh->dirs)
            if (!d.exists)
            {
                d = {};
                d.exists = true;
                strcpy(d.name, p.c_str());
                return 0;
            }
        return refuse(ENOSPC);
    }
    int dropDir(string const& p)
    {
        mark(p);
        if (auto const* const f = operation(Other))
            return faulty(f);
        auto const i = findDir(p);
        if (i < 0)
            return refuse(fixedDirectory(p) ? EBUSY : isDirectory(p) ? EROFS : findFile(p) >= 0 ? ENOTDIR : ENOENT);
        for (auto const& f: sh->files)
            if (f.exists && below(f.name, p))
                return refuse(ENOTEMPTY);
        for (auto const& d: sh->dirs)
            if (d.exists && below(d.name, p))
                return refuse(ENOTEMPTY);
        sh->dirs[i] = {};
        return 0;
    }
    int dropFile(string const& p)
    {
        mark(p);
        if (auto const* const f = operation(Other))
            return faulty(f);
        auto const i = findFile(p);
        if (i < 0)
            return refuse(isDirectory(p) ? EISDIR : findInput(p) ? EROFS : ENOENT);
        // An open file lives on without its name.
        for (auto& h: handles)
            if (h.used && h.file == i)
            {
                strcpy(sh->files[i].name, "/");
                return 0;
            }
        sh->files[i] = {};
        return 0;
    }
    int moveTo(string const& from, string const& to)
    {
        mark(from);
        mark(to);
        if (auto const* const f = operation(Other))
            return faulty(f);
        if (to.size() >= sizeof(File::name))
            return refuse(ENAMETOOLONG);
        if (inputSide(from) || inputSide(to))
            return refuse(EROFS);
        if (!isDirectory(parent(to)))
            return refuse(ENOENT);
        if (auto const d = findDir(from); d >= 0)
        {
            if (below(to.c_str(), from))
                return refuse(EINVAL);
            if (from == to)
                return 0;
            if (findFile(to) >= 0)
                return refuse(ENOTDIR);
            if (isDirectory(to))
            {
                inside = true; // the fault, if any, has been met
                auto const n = sh->ops[Other], t = sh->total;
                auto const r = findDir(to) < 0 ? refuse(EBUSY) : (faults = nullptr, dropDir(to));
                sh->ops[Other] = n, sh->total = t;
                inside = false;
                if (r)
                    return r;
            }
            auto const move = [&](char* name) {
                if (!below(name, from))
                    return true;
                auto const n = to + (name + from.size());
                if (n.size() >= sizeof(File::name))
                    return false;
                strcpy(name, n.c_str());
                return true;
            };
            for (auto& f: sh->files)
                if (f.exists && !move(f.name))
                    return refuse(ENAMETOOLONG);
            for (auto& e: sh->dirs)
                if (e.exists && !move(e.name))
                    return refuse(ENAMETOOLONG);
            strcpy(sh->dirs[d].name, to.c_str());
            return 0;
        }
        auto const i = findFile(from);
        if (i < 0)
            return refuse(isDirectory(from) ? EBUSY : ENOENT);
        if (isDirectory(to))
            return refuse(EISDIR);
        if (auto const j = findFile(to); j >= 0 && j != i)
        {
            // What the disk held under this name is what it may hold again after a power failure.
            auto const old = sh->files[j];
            sh->files[j] = {};
            if (!sh->files[i].durableExists && old.durableExists)
            {
                sh->files[i].durableExists = true;
                sh->files[i].durableSize = old.durableSize;
                memcpy(oldContent(i), oldContent(j), old.durableSize);
            }
        }
        touch(i);
        strcpy(sh->files[i].name, to.c_str());
        return 0;
    }
    struct Listing
    {
        char magic[8];
        int fd, count, next;
        dirent at;
        char names[maxFiles + maxDirs + 64][64];
        unsigned char types[maxFiles + maxDirs + 64];
    };
    Listing listings[4];
    Listing* listing(void* d)
    {
        for (auto& l: listings)
            if (inside && d == &l)
                return &l;
        return nullptr;
    }
    void fill(Listing& l)
    {
        Own const own;
        string const p = handles[l.fd - firstFd].dir;
        std::map<string, unsigned char> names { { ".", DT_DIR }, { "..", DT_DIR } };
        auto const add = [&](string const& full, unsigned char type) {
            if (!below(full.c_str(), p == "/" ? "" : p))
                return;
            auto const rest = full.substr(p == "/" ? 1 : p.size() + 1);
            auto const slash = rest.find('/');
            names[rest.substr(0, slash)] = slash == string::npos ? type : static_cast<unsigned char>(DT_DIR);
        };
        for (auto const& f: sh->files)
            if (f.exists && strcmp(f.name, "/"))
                add(f.name, DT_REG);
        for (auto const& d: sh->dirs)
            if (d.exists)
                add(d.name, DT_DIR);
        for (auto const* d: { "/sim/ucd", "/sim/out", "/sim/work", "/tmp" })
            add(d, DT_DIR);
        for (auto const& [k, v]: *inputs)
            add(inDir + k, DT_REG);
        // A disk has no particular order of names.
        vector<std::pair<string, unsigned char>> all(names.begin(), names.end());
        auto x = mix(machine.layout, 5);
        for (size_t i = all.size(); i > 1; --i)
            std::swap(all[i - 1], all[splitmix(x) % i]);
        l.count = l.next = 0;
        for (auto const& [name, type]: all)
            if (name.size() < sizeof l.names[0] && l.count < static_cast<int>(std::size(l.names)))
            {
                strcpy(l.names[l.count], name.c_str());
                l.types[l.count++] = type;
            }
    }
    DIR* list(int fd)
    {
        for (auto& l: listings)
            if (!l.magic[0])
            {
                l.magic[0] = 1;
                l.fd = fd;
                fill(l);
                return reinterpret_cast<DIR*>(&l);
            }
        errno = EMFILE;
        return nullptr;
    }
    // }}}
    void say(char const* p, size_t n)
    {
        for (size_t i = 0; i < n && sh->saidSize < sizeof sh->said - 1; ++i)
            sh->said[sh->saidSize++] = p[i];
    }

    ucontext_t outer, inner;
    std::function<int(string const&, string const&, u64&)> const* program = nullptr;
    void entry()
    {
        string in = "/sim/ucd", out = "/sim/out";
        switch (machine.style % 5)
        {
            case 1: in = "/sim/../sim/ucd/", out = "/sim/out/"; break;
            case 2: cwd = "/sim/work", in = "../ucd", out = "../out"; break;
            case 3: cwd = "/sim/out", in = "/sim/ucd", out = "."; break;
            case 4: cwd = "/sim", in = "ucd", out = "./out/."; break;
            default: break;
        }
        u64 digest = 0;
        try
        {
            sh->status = (*program)(in, out, digest);
        }
        catch (std::exception const&)
        {
            sh->threw = true;
        }
        catch (...)
        {
            sh->threw = true;
        }
        sh->digest = digest;
        sh->done = true;
        end();
    }
} // namespace

char const* className(int c)
{
    static char const* const n[] { "open-for-reading", "read", "close-after-reading", "open-for-writing", "write", "close-after-writing", "other", "allocation" };
    return c < 0 ? "file-operation" : n[c % ClassCount];
}
char const* kindName(int k)
{
    static char const* const n[] { "EIO", "EIO_persistent", "EINTR", "short_transfer", "torn_write", "ENOSPC", "disk_full", "ENOENT", "EACCES", "EMFILE", "power_loss", "alloc", "denied_for_good" };
    return n[k % KindCount];
}

void init()
{
    owner = static_cast<pid_t>(syscall(SYS_getpid));
    auto* const m = mmap(nullptr, sizeof(SharedState) + 4096 + 2 * maxFiles * fileRoom, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED)
        std::exit(2);
    sh = static_cast<SharedState*>(m);
    room = static_cast<char*>(m) + ((sizeof(SharedState) + 4095) & ~size_t { 4095 });
    oldRoom = room + maxFiles * fileRoom;
}

void clearDisk()
{
    // a disk is shared with the simulated processes, but not with other simulators
    if (!sh || owner != static_cast<pid_t>(syscall(SYS_getpid)))
        init();
    for (auto& f: sh->files)
        f = {};
    for (auto& d: sh->dirs)
        d = {};
    capacity = ~u64 { 0 };
}
std::map<string, string> outputs()
{
    std::map<string, string> r;
    for (int i = 0; i < maxFiles; ++i)
        if (auto const& f = sh->files[i]; f.exists && !strncmp(f.name, outDir, strlen(outDir)))
            r[f.name + strlen(outDir)] = string(content(i), f.size);
    return r;
}
void putOutput(string const& name, string const& text)
{
    auto const p = outDir + name;
    int i = findFile(p);
    if (i < 0)
        for (i = 0; sh->files[i].exists; ++i)
            ;
    auto& f = sh->files[i];
    f = {};
    f.exists = true;
    strcpy(f.name, p.c_str());
    memcpy(content(i), text.data(), text.size());
    f.size = text.size();
    sync(i);
}
void dropOutput(string const& name)
{
    if (auto const i = findFile(outDir + name); i >= 0)
        sh->files[i] = {};
}

unsigned powerLoss(u64 seed)
{
    unsigned n = 0;
    // A directory that was created last may be gone, with everything in it.
    for (int i = 0; i < maxDirs; ++i)
        if (auto& d = sh->dirs[i]; d.exists && !d.durable)
        {
            d.durable = true;
            if (mix(seed, static_cast<u64>(1000 + i)) % 3)
                continue;
            ++n;
            for (auto& f: sh->files)
                if (f.exists && below(f.name, d.name))
                    f = {};
            for (auto& e: sh->dirs)
                if (&e != &d && e.exists && below(e.name, d.name))
                    e = {};
            d = {};
        }
    for (auto& f: sh->files) // without a name, and nobody has it open any more
        if (f.exists && !strcmp(f.name, "/"))
            f = {};
    for (int i = 0; i < maxFiles; ++i)
    {
        auto& f = sh->files[i];
        if (!f.exists && !f.durableExists)
            continue;
        Rng r { mix(seed, static_cast<u64>(i)) };
        if (f.dirty || !f.exists)
        {
            ++n;
            switch (r.below(6))
            {
                case 0: break;                                 // all of it reached the disk
                case 1: f.size = f.size ? r.below(f.size) : 0; break; // a prefix
                case 2: f.size = 0; break;                     // only the truncation
                case 3:                                        // blocks that were never written
                    if (f.size)
                    {
                        auto const a = r.below(f.size) & ~u64 { 511 };
                        auto const b = std::min(f.size, a + 512 * (1 + r.below(64)));
                        memset(content(i) + a, 0, b - a);
                    }
                    break;
                case 4: // what was there before
                    f.exists = f.durableExists;
                    f.size = f.durableSize;
                    memcpy(content(i), oldContent(i), f.size);
                    break;
                default: // the start of the new content on top of the old one
                    if (f.durableExists)
                    {
                        auto const k = f.size ? r.below(f.size) : 0;
                        if (k < f.durableSize)
                        {
                            memcpy(content(i) + k, oldContent(i) + k, f.durableSize - k);
                            f.size = f.durableSize;
                        }
                        else
                            f.size = k;
                        f.exists = true;
                    }
                    else
                        f.exists = false;
                    break;
            }
        }
        if (f.exists)
            sync(i);
        else
            f = {};
    }
    return n;
}

Outcome boot(std::map<string, string> const& in, Machine const& m, vector<Fault> const& fl, std::function<int(string const&, string const&, u64&)> const& prog)
{
    if (!sh || owner != static_cast<pid_t>(syscall(SYS_getpid)))
        clearDisk();
    std::fill_n(sh->ops, ClassCount, 0);
    std::fill_n(sh->fired, KindCount, 0);
    sh->trace = sh->total = sh->digest = sh->saidSize = 0;
    sh->crashed = sh->runaway = sh->threw = sh->done = false;
    sh->status = 0;
    std::fill_n(sh->opened, std::size(sh->opened), 0);
    sh->clock = m.clock;
    fflush(nullptr);
    auto const pid = fork();
    if (!pid)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        rlimit const cpu { 25, 25 }, core { 0, 0 };
        setrlimit(RLIMIT_CPU, &cpu);
        setrlimit(RLIMIT_CORE, &core);
        auto const null = static_cast<int>(syscall(SYS_open, "/dev/null", O_RDWR, 0));
        dup2(null, 0);
        dup2(null, 1);
        dup2(null, 2);
        clearenv();
        static char const* const locales[] { "C", "en_US.UTF-8", "tr_TR.UTF-8", "de_DE", "POSIX" };
        setenv("LC_ALL", locales[static_cast<size_t>(m.style) % 5], 1);
        setenv("TZ", m.style % 2 ? "UTC" : "Asia/Kathmandu", 1);
        inputs = &in;
        faults = &fl;
        auto* const hashes = new vector<u64>;
        for (auto const& f: fl)
            hashes->push_back(hashOf(f.file.c_str()));
        faultPaths = hashes;
        program = &prog;
        machine = m;
        entropy = mix(m.clock, m.layout);
        cwd = "/sim/work";
        if (mmap(reinterpret_cast<void*>(heapBase), heapRoom, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED)
            _exit(99);
        auto* const stack = mmap(reinterpret_cast<void*>(stackBase), stackRoom, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (stack == MAP_FAILED)
            _exit(99);
        junk = static_cast<u8>(m.layout >> 8);
        brk_ = (m.layout & 0xFFFF) * 16;
        order = m.layout >> 32;
        memset(static_cast<char*>(stack) + stackRoom - stackFill, junk ^ 0x3C, stackFill);
        getcontext(&inner);
        inner.uc_stack.ss_sp = stack;
        inner.uc_stack.ss_size = stackRoom - (m.layout >> 16 & 0xFF) * 16;
        inner.uc_link = &outer;
        makecontext(&inner, entry, 0);
        inside = true;
        swapcontext(&outer, &inner);
        _exit(98);
    }
    int status = 0;
    if (pid < 0 || waitpid(pid, &status, 0) != pid)
    {
        fprintf(stderr, "cannot run the simulated process\n");
        std::exit(2);
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) >= 98)
    {
        fprintf(stderr, "cannot set up the simulated process\n");
        std::exit(2);
    }
    Outcome o;
    o.crashed = sh->crashed;
    o.runaway = sh->runaway || (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL));
    if (WIFSIGNALED(status))
        o.signal = WTERMSIG(status);
    else if (sh->done)
        o.exited = true, o.status = sh->status, o.threw = sh->threw;
    else if (!o.crashed && !o.runaway) // exit() from within
        o.exited = true, o.status = WEXITSTATUS(status);
    o.digest = sh->digest;
    std::copy_n(sh->ops, ClassCount, o.ops);
    std::copy_n(sh->fired, KindCount, o.fired);
    o.trace = sh->trace;
    o.nanos = sh->clock - m.clock;
    for (auto const x: sh->opened)
        if (x)
            o.opened.push_back(x);
    o.said.assign(sh->said, sh->saidSize);
    return o;
}

} // namespace sim::vfs

using namespace sim::vfs;

// {{{ the C library's interface
extern "C"
{
    void* malloc(size_t n) { return inside ? take(n, 16) : __libc_malloc(n); }
    void* calloc(size_t a, size_t b)
    {
        if (!inside)
            return __libc_calloc(a, b);
        size_t n;
        if (__builtin_mul_overflow(a, b, &n))
            return nullptr;
        auto* const p = take(n, 16);
        if (p)
            memset(p, 0, n);
        return p;
    }
    void* realloc(void* p, size_t n)
    {
        if (!inside)
            return __libc_realloc(p, n);
        if (!p)
            return take(n, 16);
        if (!ours(p))
            return __libc_realloc(p, n);
        auto* const q = take(n, 16);
        if (q)
        {
            memcpy(q, p, std::min<size_t>(n, (static_cast<Header*>(p) - 1)->size));
            give(p);
        }
        return q;
    }
    void free(void* p)
    {
        if (!p)
            return;
        if (ours(p))
            give(p);
        else if (!inside)
            __libc_free(p);
    }
    void* aligned_alloc(size_t a, size_t n) { return inside ? take(n, a) : __libc_memalign(a, n); }
    void* memalign(size_t a, size_t n) { return inside ? take(n, a) : __libc_memalign(a, n); }
    int posix_memalign(void** to, size_t a, size_t n)
    {
        *to = inside ? take(n, a) : __libc_memalign(a, n);
        return *to ? 0 : ENOMEM;
    }

    // Whatever variable the program looks for may be set, to anything.
    char* getenv(char const* name)
    {
        REAL(getenv);
        if (!inside)
            return next ? next(name) : nullptr;
        Own const own;
        auto* const set = next(name);
        if (set || machine.style < 40 || !strncmp(name, "LC_", 3) || !strncmp(name, "LANG", 4))
            return set;
        static char values[8][16] { "1", "0", "", "yes", "/sim/work", "1700000000", "unicode", "16" };
        auto const h = sim::mix(hashOf(name), static_cast<sim::u64>(machine.style));
        return h % 3 ? values[h / 3 % 8] : nullptr;
    }
    char* secure_getenv(char const* name) noexcept { return getenv(name); }

    FILE* fopen(char const* path, char const* mode)
    {
        REAL(fopen);
        return inside ? openFile(path, mode) : next(path, mode);
    }
    FILE* fopen64(char const* path, char const* mode)
    {
        REAL(fopen);
        return inside ? openFile(path, mode) : next(path, mode);
    }
    int fileno(FILE* f) noexcept
    {
        if (inside)
            for (int i = 0; i < maxHandles; ++i)
                if (handles[i].used && handles[i].fp == f)
                    return firstFd + i;
        REAL(fileno);
        return next(f);
    }
    static int openVa(char const* path, int flags, va_list l)
    {
        if (inside)
            return openAt(AT_FDCWD, path, flags);
        auto const mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(l, int) : 0;
        return static_cast<int>(syscall(SYS_open, path, flags, mode));
    }
    int open(char const* path, int flags, ...)
    {
        va_list l;
        va_start(l, flags);
        auto const r = openVa(path, flags, l);
        va_end(l);
        return r;
    }
    int open64(char const* path, int flags, ...)
    {
        va_list l;
        va_start(l, flags);
        auto const r = openVa(path, flags, l);
        va_end(l);
        return r;
    }
    int openat(int dir, char const* path, int flags, ...)
    {
        va_list l;
        va_start(l, flags);
        auto const mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(l, int) : 0;
        va_end(l);
        return inside ? openAt(dir, path, flags) : static_cast<int>(syscall(SYS_openat, dir, path, flags, mode));
    }
    // what checking headers make of them
    int __openat_2(int dir, char const* path, int flags) { return openat(dir, path, flags); }
    int __openat64_2(int dir, char const* path, int flags) { return openat(dir, path, flags); }
    int __open_2(char const* path, int flags) { return open(path, flags); }
    int __open64_2(char const* path, int flags) { return open(path, flags); }
    int openat64(int dir, char const* path, int flags, ...)
    {
        va_list l;
        va_start(l, flags);
        auto const mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(l, int) : 0;
        va_end(l);
        return openat(dir, path, flags, mode);
    }
    int creat(char const* path, mode_t mode) { return open(path, O_WRONLY | O_CREAT | O_TRUNC, mode); }
    int close(int fd)
    {
        if (auto* const h = handle(fd))
            return closeAt(*h);
        return static_cast<int>(syscall(SYS_close, fd));
    }
    ssize_t read(int fd, void* p, size_t n)
    {
        if (auto* const h = handle(fd))
            return readAt(*h, static_cast<char*>(p), n, h->pos);
        return syscall(SYS_read, fd, p, n);
    }
    ssize_t pread(int fd, void* p, size_t n, off_t off)
    {
        if (auto* const h = handle(fd))
        {
            auto pos = static_cast<sim::u64>(off);
            return readAt(*h, static_cast<char*>(p), n, pos);
        }
        return syscall(SYS_pread64, fd, p, n, off);
    }
    ssize_t write(int fd, void const* p, size_t n)
    {
        if (auto* const h = handle(fd))
            return writeAt(*h, static_cast<char const*>(p), n, h->pos);
        if (inside)
        {
            if (fd == 2)
                say(static_cast<char const*>(p), n);
            return static_cast<ssize_t>(n);
        }
        return syscall(SYS_write, fd, p, n);
    }
    ssize_t writev(int fd, iovec const* v, int n)
    {
        auto* const h = handle(fd);
        if (!h)
            return syscall(SYS_writev, fd, v, n);
        Own const own;
        std::string all;
        for (int i = 0; i < n; ++i)
            all.append(static_cast<char const*>(v[i].iov_base), v[i].iov_len);
        return writeAt(*h, all.data(), all.size(), h->pos);
    }
    off_t lseek(int fd, off_t off, int whence) noexcept
    {
        if (auto* const h = handle(fd))
            return seekAt(*h, off, whence);
        return syscall(SYS_lseek, fd, off, whence);
    }
    off64_t lseek64(int fd, off64_t off, int whence) noexcept { return lseek(fd, off, whence); }
    int fsync(int fd)
    {
        auto* const h = handle(fd);
        if (!h)
            return static_cast<int>(syscall(SYS_fsync, fd));
        auto const* const f = operation(Other);
        if (f)
            return fail(F_EIO, EIO);
        if (h->file >= 0)
            sync(h->file);
        return 0;
    }
    int fdatasync(int fd) { return fsync(fd); }
    int ftruncate(int fd, off_t n) noexcept
    {
        auto* const h = handle(fd);
        if (!h)
            return static_cast<int>(syscall(SYS_ftruncate, fd, n));
        if (auto const* const f = operation(Other))
            return fail(F_EIO, EIO);
        auto& x = sh->files[h->file];
        touch(h->file);
        if (static_cast<sim::u64>(n) > x.size)
            memset(content(h->file) + x.size, 0, static_cast<sim::u64>(n) - x.size);
        x.size = static_cast<sim::u64>(n);
        return 0;
    }
    int rename(char const* a, char const* b) noexcept
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_rename, a, b));
        Own const own;
        return moveTo(absolute(a), absolute(b));
    }
    int renameat(int da, char const* a, int db, char const* b) noexcept
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_renameat, da, a, db, b));
        Own const own;
        return moveTo(absolute(a, baseOf(da)), absolute(b, baseOf(db)));
    }
    int unlink(char const* a) noexcept
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_unlink, a));
        Own const own;
        return dropFile(absolute(a));
    }
    int rmdir(char const* a) noexcept
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_rmdir, a));
        Own const own;
        return dropDir(absolute(a));
    }
    int unlinkat(int base, char const* a, int flags) noexcept
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_unlinkat, base, a, flags));
        Own const own;
        return flags & AT_REMOVEDIR ? dropDir(absolute(a, baseOf(base))) : dropFile(absolute(a, baseOf(base)));
    }
    int remove(char const* a) noexcept
    {
        REAL(remove);
        if (!inside)
            return next(a);
        Own const own;
        auto const p = absolute(a);
        return isDirectory(p) ? dropDir(p) : dropFile(p);
    }
    int mkdir(char const* a, mode_t mode) noexcept
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_mkdir, a, mode));
        Own const own;
        return makeDir(absolute(a));
    }
    int mkdirat(int base, char const* a, mode_t mode) noexcept
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_mkdirat, base, a, mode));
        Own const own;
        return makeDir(absolute(a, baseOf(base)));
    }
    int chdir(char const* a) noexcept
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_chdir, a));
        Own const own;
        auto const p = absolute(a);
        if (!isDirectory(p))
            return refuse(ENOENT);
        cwd = p;
        return 0;
    }
    int link(char const* a, char const* b) noexcept { return inside ? refuse(EPERM) : static_cast<int>(syscall(SYS_link, a, b)); }
    int symlink(char const* a, char const* b) noexcept { return inside ? refuse(EPERM) : static_cast<int>(syscall(SYS_symlink, a, b)); }
    ssize_t readlink(char const* a, char* to, size_t n) noexcept
    {
        if (!inside)
            return syscall(SYS_readlink, a, to, n);
        struct stat st;
        return statPath(a, &st) ? -1 : refuse(EINVAL);
    }
    char* realpath(char const* a, char* to) noexcept
    {
        if (!inside)
        {
            REAL(realpath);
            return next(a, to);
        }
        struct stat st;
        if (statPath(a, &st))
            return nullptr;
        char p[4096];
        {
            Own const own;
            strncpy(p, absolute(a).c_str(), sizeof p - 1);
            p[sizeof p - 1] = 0;
        }
        if (!to)
            to = static_cast<char*>(malloc(strlen(p) + 1));
        return to ? strcpy(to, p) : nullptr;
    }
    char* canonicalize_file_name(char const* a) noexcept { return realpath(a, nullptr); }
    int truncate(char const* a, off_t n) noexcept
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_truncate, a, n));
        auto const fd = open(a, O_WRONLY);
        if (fd < 0)
            return -1;
        auto const r = ftruncate(fd, n);
        close(fd);
        return r;
    }
    int chmod(char const* a, mode_t m) noexcept
    {
        struct stat st;
        return inside ? statPath(a, &st) : static_cast<int>(syscall(SYS_chmod, a, m));
    }
    int fchmod(int fd, mode_t m) noexcept { return handle(fd) ? 0 : static_cast<int>(syscall(SYS_fchmod, fd, m)); }
    int fchmodat(int base, char const* a, mode_t m, int) noexcept
    {
        struct stat st;
        return inside ? statPath(a, &st, base) : static_cast<int>(syscall(SYS_fchmodat, base, a, m));
    }
    int utimensat(int base, char const* a, timespec const* t, int flags) noexcept { return inside ? 0 : static_cast<int>(syscall(SYS_utimensat, base, a, t, flags)); }
    int futimens(int fd, timespec const* t) noexcept { return handle(fd) ? 0 : static_cast<int>(syscall(SYS_utimensat, fd, nullptr, t, 0)); }
    int statvfs(char const* a, struct statvfs* to) noexcept
    {
        if (!inside)
        {
            REAL(statvfs);
            return next(a, to);
        }
        memset(to, 0, sizeof *to);
        to->f_bsize = to->f_frsize = 4096;
        to->f_blocks = 1 << 20;
        to->f_bfree = to->f_bavail = full ? 0 : std::min<sim::u64>(1 << 20, (capacity - std::min(capacity, used())) / 4096);
        to->f_namemax = 100;
        return 0;
    }
    int statvfs64(char const* a, struct statvfs64* to) noexcept { return statvfs(a, reinterpret_cast<struct statvfs*>(to)); }
    DIR* opendir(char const* a)
    {
        if (!inside)
        {
            REAL(opendir);
            return next(a);
        }
        auto const fd = openAt(AT_FDCWD, a, O_RDONLY | O_DIRECTORY);
        return fd < 0 ? nullptr : list(fd);
    }
    DIR* fdopendir(int fd)
    {
        if (auto* const h = handle(fd))
        {
            if (h->isDir)
                return list(fd);
            errno = ENOTDIR;
            return nullptr;
        }
        REAL(fdopendir);
        return next(fd);
    }
    dirent* readdir(DIR* d)
    {
        auto* const l = listing(d);
        if (!l)
        {
            REAL(readdir);
            return next(d);
        }
        if (auto const* const f = operation(Read))
            return faulty(f), nullptr;
        if (l->next == l->count)
            return nullptr;
        l->at.d_type = l->types[l->next];
        l->at.d_ino = static_cast<ino_t>(l->next + 1);
        strcpy(l->at.d_name, l->names[l->next++]);
        return &l->at;
    }
    dirent64* readdir64(DIR* d) { return reinterpret_cast<dirent64*>(readdir(d)); }
    void rewinddir(DIR* d) noexcept
    {
        if (auto* const l = listing(d))
            return fill(*l);
        REAL(rewinddir);
        next(d);
    }
    int dirfd(DIR* d) noexcept
    {
        if (auto* const l = listing(d))
            return l->fd;
        REAL(dirfd);
        return next(d);
    }
    int closedir(DIR* d)
    {
        if (auto* const l = listing(d))
        {
            l->magic[0] = 0;
            return close(l->fd);
        }
        REAL(closedir);
        return next(d);
    }
    ssize_t sendfile(int to, int from, off_t* off, size_t n) noexcept
    {
        auto *const a = handle(from), *const b = handle(to);
        if (!a || !b)
            return syscall(SYS_sendfile, to, from, off, n);
        auto pos = off ? static_cast<sim::u64>(*off) : a->pos;
        Own const own;
        std::string buf(std::min<size_t>(n, 1 << 20), '\0');
        auto const k = readAt(*a, buf.data(), buf.size(), pos);
        if (k <= 0)
            return k;
        auto const w = writeAt(*b, buf.data(), static_cast<size_t>(k), b->pos);
        if (w > 0)
            (off ? *reinterpret_cast<sim::u64*>(off) : a->pos) = pos - static_cast<sim::u64>(k - w);
        return w;
    }
    ssize_t sendfile64(int to, int from, off64_t* off, size_t n) noexcept { return sendfile(to, from, off, n); }
    ssize_t copy_file_range(int from, off64_t* fo, int to, off64_t* out, size_t n, unsigned flags)
    {
        return handle(from) || handle(to) ? refuse(EXDEV) : syscall(SYS_copy_file_range, from, fo, to, out, n, flags);
    }
    FILE* fdopen(int fd, char const* mode) noexcept
    {
        if (handle(fd))
            return wrap(fd, mode);
        REAL(fdopen);
        return next(fd, mode);
    }
    int mkostemp(char* name, int flags)
    {
        if (!inside)
        {
            REAL(mkostemp);
            return next(name, flags);
        }
        auto const n = strlen(name);
        if (n < 6 || strcmp(name + n - 6, "XXXXXX"))
            return refuse(EINVAL);
        for (int k = 0; k < 6; ++k)
            name[n - 1 - static_cast<size_t>(k)] = static_cast<char>('a' + sim::splitmix(entropy) % 26);
        return open(name, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
    }
    int mkstemp(char* name) { return mkostemp(name, 0); }
    int mkstemp64(char* name) { return mkostemp(name, 0); }
    char* mkdtemp(char* name) noexcept
    {
        if (!inside)
        {
            REAL(mkdtemp);
            return next(name);
        }
        auto const n = strlen(name);
        if (n < 6 || strcmp(name + n - 6, "XXXXXX"))
            return errno = EINVAL, nullptr;
        for (int k = 0; k < 6; ++k)
            name[n - 1 - static_cast<size_t>(k)] = static_cast<char>('a' + sim::splitmix(entropy) % 26);
        return mkdir(name, 0700) ? nullptr : name;
    }
    FILE* tmpfile()
    {
        if (!inside)
        {
            REAL(tmpfile);
            return next();
        }
        char name[] = "/tmp/tmpfXXXXXX";
        auto const fd = mkostemp(name, 0);
        if (fd < 0)
            return nullptr;
        unlink(name);
        return fdopen(fd, "w+");
    }
    FILE* tmpfile64() { return tmpfile(); }
    ssize_t pwrite(int fd, void const* p, size_t n, off_t off)
    {
        if (auto* const h = handle(fd))
        {
            auto pos = static_cast<sim::u64>(off);
            return writeAt(*h, static_cast<char const*>(p), n, pos);
        }
        return syscall(SYS_pwrite64, fd, p, n, off);
    }
    ssize_t pwrite64(int fd, void const* p, size_t n, off64_t off) { return pwrite(fd, p, n, off); }
    ssize_t pread64(int fd, void* p, size_t n, off64_t off) { return pread(fd, p, n, off); }
    ssize_t readv(int fd, iovec const* v, int n)
    {
        auto* const h = handle(fd);
        if (!h)
            return syscall(SYS_readv, fd, v, n);
        return n ? readAt(*h, static_cast<char*>(v[0].iov_base), v[0].iov_len, h->pos) : 0;
    }
    int posix_fadvise(int fd, off_t a, off_t n, int what) noexcept { return handle(fd) ? 0 : static_cast<int>(syscall(SYS_fadvise64, fd, a, n, what)); }
    int posix_fallocate(int fd, off_t a, off_t n)
    {
        auto* const h = handle(fd);
        if (!h)
        {
            REAL(posix_fallocate);
            return next(fd, a, n);
        }
        auto const end = static_cast<sim::u64>(a + n);
        return h->file < 0 || sh->files[h->file].size >= end ? 0 : ftruncate(fd, a + n) ? errno : 0;
    }
    int fcntl(int fd, int what, ...) noexcept
    {
        va_list l;
        va_start(l, what);
        auto* const arg = va_arg(l, void*);
        va_end(l);
        if (auto* const h = handle(fd))
            return what == F_GETFL ? h->canRead && h->canWrite ? O_RDWR : h->canWrite ? O_WRONLY : O_RDONLY : 0;
        return static_cast<int>(syscall(SYS_fcntl, fd, what, arg));
    }
    int flock(int fd, int what) noexcept { return handle(fd) ? 0 : static_cast<int>(syscall(SYS_flock, fd, what)); }
    void sync() noexcept
    {
        if (!inside)
        {
            syscall(SYS_sync);
            return;
        }
        operation(Other);
        for (int i = 0; i < maxFiles; ++i)
            if (sh->files[i].exists)
                sim::vfs::sync(i);
        for (auto& d: sh->dirs)
            d.durable = d.exists;
    }
    int syncfs(int fd) noexcept
    {
        if (!handle(fd))
            return static_cast<int>(syscall(SYS_syncfs, fd));
        ::sync();
        return 0;
    }
    int fstatat(int base, char const* a, struct stat* st, int flags) noexcept { return inside ? statPath(a, st, base) : static_cast<int>(syscall(SYS_newfstatat, base, a, st, flags)); }
    int fstatat64(int base, char const* a, struct stat64* st, int flags) noexcept { return inside ? statPath(a, st, base) : static_cast<int>(syscall(SYS_newfstatat, base, a, st, flags)); }
    int faccessat(int base, char const* a, int mode, int flags) noexcept
    {
        struct stat st;
        return inside ? statPath(a, &st, base) : static_cast<int>(syscall(SYS_faccessat, base, a, mode, flags));
    }
    int euidaccess(char const* a, int mode) noexcept
    {
        struct stat st;
        return inside ? statPath(a, &st) : static_cast<int>(syscall(SYS_access, a, mode));
    }
    int nanosleep(timespec const* t, timespec* rest)
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_nanosleep, t, rest));
        machine.clock += static_cast<sim::u64>(t->tv_sec) * 1'000'000'000 + static_cast<sim::u64>(t->tv_nsec);
        operation(Other);
        return 0;
    }
    int clock_nanosleep(clockid_t, int, timespec const* t, timespec*) { return nanosleep(t, nullptr); }
    // A thread of the program runs when it is created: one of the schedules it has to expect.
    int pthread_create(pthread_t* to, pthread_attr_t const* attr, void* (*f)(void*), void* arg) noexcept
    {
        if (!inside)
        {
            REAL(pthread_create);
            return next(to, attr, f, arg);
        }
        static unsigned long ids = 1;
        *to = 0x5100'0000ul + ids++;
        f(arg);
        return 0;
    }
    int pthread_join(pthread_t t, void** result)
    {
        if (!inside)
        {
            REAL(pthread_join);
            return next(t, result);
        }
        if (result)
            *result = nullptr;
        return 0;
    }
    int pthread_detach(pthread_t t) noexcept
    {
        if (!inside)
        {
            REAL(pthread_detach);
            return next(t);
        }
        return 0;
    }
    int access(char const* a, int mode) noexcept
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_access, a, mode));
        struct stat st;
        return statPath(a, &st);
    }
    int stat(char const* a, struct stat* st) noexcept { return inside ? statPath(a, st) : static_cast<int>(syscall(SYS_stat, a, st)); }
    int stat64(char const* a, struct stat64* st) noexcept { return inside ? statPath(a, st) : static_cast<int>(syscall(SYS_stat, a, st)); }
    int lstat(char const* a, struct stat* st) noexcept { return inside ? statPath(a, st) : static_cast<int>(syscall(SYS_lstat, a, st)); }
    int fstat(int fd, struct stat* st) noexcept { return handle(fd) ? statFd(fd, st) : static_cast<int>(syscall(SYS_fstat, fd, st)); }
    int fstat64(int fd, struct stat64* st) noexcept { return handle(fd) ? statFd(fd, st) : static_cast<int>(syscall(SYS_fstat, fd, st)); }
    int ioctl(int fd, unsigned long what, ...) noexcept
    {
        va_list l;
        va_start(l, what);
        auto* const arg = va_arg(l, void*);
        va_end(l);
        if (auto* const h = handle(fd))
        {
            if (what == FIONREAD && !h->isDir)
            {
                auto const size = h->isInput ? h->input->size() : sh->files[h->file].size;
                *static_cast<int*>(arg) = static_cast<int>(size > h->pos ? size - h->pos : 0);
                return 0;
            }
            errno = ENOTTY;
            return -1;
        }
        return static_cast<int>(syscall(SYS_ioctl, fd, what, arg));
    }
    int poll(pollfd* p, nfds_t n, int timeout)
    {
        if (inside && n == 1 && handle(p[0].fd))
        {
            p[0].revents = p[0].events;
            return 1;
        }
        return static_cast<int>(syscall(SYS_poll, p, n, timeout));
    }
    char* getcwd(char* to, size_t n) noexcept
    {
        if (!inside)
        {
            REAL(getcwd);
            return next(to, n);
        }
        if (!to)
            to = static_cast<char*>(malloc(n ? n : cwd.size() + 1));
        strcpy(to, cwd.c_str());
        return to;
    }
    int clock_gettime(clockid_t id, timespec* t) noexcept
    {
        if (!inside)
            return static_cast<int>(syscall(SYS_clock_gettime, id, t));
        machine.clock += machine.tick;
        t->tv_sec = static_cast<time_t>(machine.clock / 1'000'000'000);
        t->tv_nsec = static_cast<long>(machine.clock % 1'000'000'000);
        return 0;
    }
    time_t time(time_t* to) noexcept
    {
        timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        if (to)
            *to = t.tv_sec;
        return t.tv_sec;
    }
    int gettimeofday(timeval* to, void*) noexcept
    {
        timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        to->tv_sec = t.tv_sec;
        to->tv_usec = t.tv_nsec / 1000;
        return 0;
    }
    // randomness
    ssize_t getrandom(void* p, size_t n, unsigned flags)
    {
        if (!inside)
            return syscall(SYS_getrandom, p, n, flags);
        for (size_t i = 0; i < n; ++i)
            static_cast<unsigned char*>(p)[i] = static_cast<unsigned char>(sim::splitmix(entropy));
        return static_cast<ssize_t>(n);
    }
    int getentropy(void* p, size_t n) { return getrandom(p, n, 0) == static_cast<ssize_t>(n) ? 0 : -1; }
    unsigned _ZNSt13random_device9_M_getvalEv(void*)
    {
        unsigned v = 0;
        getrandom(&v, sizeof v, 0);
        return v;
    }
    void* mmap64(void* at, size_t n, int prot, int flags, int fd, off64_t off) noexcept
    {
        auto* const h = handle(fd);
        if (!h)
            return reinterpret_cast<void*>(syscall(SYS_mmap, at, n, prot, flags, fd, off));
        if ((flags & MAP_SHARED) && (prot & PROT_WRITE))
        {
            errno = ENODEV;
            return MAP_FAILED;
        }
        auto* const p = reinterpret_cast<void*>(syscall(SYS_mmap, at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        auto pos = static_cast<sim::u64>(off);
        // A mapping is never short and never interrupted; what cannot be read is reported here instead of by a signal.
        for (size_t done = 0; p != MAP_FAILED && done < n;)
        {
            auto const got = readAt(*h, static_cast<char*>(p) + done, n - done, pos);
            if (got == 0)
                break;
            if (got > 0)
                done += static_cast<size_t>(got);
            else if (errno != EINTR)
            {
                syscall(SYS_munmap, p, n);
                return MAP_FAILED;
            }
        }
        return p;
    }
    void* mmap(void* at, size_t n, int prot, int flags, int fd, off_t off) noexcept { return mmap64(at, n, prot, flags, fd, off); }
    pid_t getpid() noexcept { return inside ? static_cast<pid_t>(2 + (machine.layout >> 24) % 30000) : static_cast<pid_t>(syscall(SYS_getpid)); }
}
// }}}
