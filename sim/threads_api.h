// Public functions as called by simulated threads; compiled with the library's instrumentation.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>

namespace sim::thr
{
// Inputs that all threads share and none writes.
struct Shared
{
    std::string utf8;
    std::u32string u32;
    std::u16string u16;
};
extern int const apiCount;
char const* apiName(int api);
// Calls one function and returns a digest of everything it gave back.
std::uint64_t callApi(int api, Shared const& in, unsigned variant);
} // namespace sim::thr
