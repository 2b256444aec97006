// A simulated process starts: the library's writable statics lie in sections of their own (see
// state_seam() in tools/simbuild.py) and are put back to what they were before the first call.
#pragma once
#include "common.h"

#include <link.h>

extern "C" char __start_simstate[] __attribute__((weak));
extern "C" char __stop_simstate[] __attribute__((weak));
extern "C" char __start_simbss[] __attribute__((weak));
extern "C" char __stop_simbss[] __attribute__((weak));

namespace sim::reboot
{
inline vector<char> data, bss, tls;

// The thread-local variables of the program itself (not of shared libraries) in this thread.
inline char* tlsBlock(size_t& size)
{
    struct Found
    {
        char* at = nullptr;
        size_t size = 0;
    } found;
    dl_iterate_phdr(
        [](dl_phdr_info* info, size_t, void* p) {
            auto& f = *static_cast<Found*>(p);
            for (int i = 0; i < info->dlpi_phnum; ++i)
                if (info->dlpi_phdr[i].p_type == PT_TLS)
                {
                    f.at = static_cast<char*>(info->dlpi_tls_data);
                    f.size = info->dlpi_phdr[i].p_memsz;
                }
            return 1; // the program comes first
        },
        &found);
    size = found.at ? found.size : 0;
    return found.at;
}

#if defined(__clang__)
__attribute__((no_sanitize("address", "coverage"), noinline))
#else
__attribute__((no_sanitize_address, noinline))
#endif
inline void copyRaw(char volatile* to, char const volatile* from, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        to[i] = from[i];
}
inline size_t dataSize() { return __start_simstate ? static_cast<size_t>(__stop_simstate - __start_simstate) : 0; }
inline size_t bssSize() { return __start_simbss ? static_cast<size_t>(__stop_simbss - __start_simbss) : 0; }
inline void init()
{
    data.resize(dataSize());
    bss.resize(bssSize());
    copyRaw(data.data(), __start_simstate, data.size());
    copyRaw(bss.data(), __start_simbss, bss.size());
    size_t n = 0;
    auto const* const p = tlsBlock(n);
    tls.resize(n);
    copyRaw(tls.data(), p, n);
}
inline void boot()
{
    copyRaw(__start_simstate, data.data(), data.size());
    copyRaw(__start_simbss, bss.data(), bss.size());
}
// Only for programs without thread-local variables of the simulator's own.
inline void bootThread()
{
    if (tls.empty())
        return;
    size_t n = 0;
    auto* const p = tlsBlock(n);
    copyRaw(p, tls.data(), n);
}
} // namespace sim::reboot
