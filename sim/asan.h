// Marks undelivered bytes as unreadable, when built with AddressSanitizer.
#pragma once
#include <cstddef>
#if defined(__SANITIZE_ADDRESS__)
    #include <sanitizer/asan_interface.h>
#elif defined(__has_feature)
    #if __has_feature(address_sanitizer)
        #include <sanitizer/asan_interface.h>
    #endif
#endif
#if !defined(ASAN_POISON_MEMORY_REGION)
    #define ASAN_POISON_MEMORY_REGION(p, n) ((void) (p), (void) (n))
    #define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void) (p), (void) (n))
#endif

namespace sim
{
// A receive buffer: bytes become readable as they are delivered; reading on is an error.
struct RecvBuffer
{
    char* data;
    size_t size, delivered = 0;
    explicit RecvBuffer(size_t n): data { new char[(n + 15) / 8 * 8] }, size { n }
    {
        for (size_t i = 0; i < (n + 15) / 8 * 8; ++i)
            data[i] = '\xFF';
        ASAN_POISON_MEMORY_REGION(data, (n + 15) / 8 * 8);
    }
    RecvBuffer(RecvBuffer const&) = delete;
    ~RecvBuffer()
    {
        ASAN_UNPOISON_MEMORY_REGION(data, (size + 15) / 8 * 8);
        delete[] data;
    }
    void deliver(char const* from, size_t n)
    {
        ASAN_UNPOISON_MEMORY_REGION(data + delivered, n);
        __builtin_memcpy(data + delivered, from + delivered, n);
        delivered += n;
    }
};
} // namespace sim
