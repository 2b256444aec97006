// C14: one call of the library, on text placed at a chosen alignment against memory that must not be
// touched. Included once for the library itself and, with the namespace renamed, once for every other
// way of building it (other processors get other builds).
#pragma once
#include "common.h"

#include <libunicode/convert.h>
#include <libunicode/scan.h>

#include <algorithm>
#include <memory>

namespace sim::cpu
{
enum : int { K_BOOT = 20, K_SCAN = 21, K_TO32 = 22, K_TO16 = 23 };

// Two pages of text-like bytes between two unmapped ones.
constexpr size_t page = 4096;
constexpr size_t arenaSize = 2 * page;
extern char* arena;
unsigned boundWidth(); // the vector width the simulated machine has been given

namespace
{
    struct Placed
    {
        std::unique_ptr<char[]> heap;
        char* at = nullptr;
        size_t n;
        Placed(string_view s, i64 place, i64 align): n { s.size() }
        {
            if (place % 3 == 0 || n > arenaSize) // heap, redzone directly behind
            {
                heap.reset(new char[n + static_cast<size_t>(align)]);
                std::fill_n(heap.get(), static_cast<size_t>(align), 'x');
                at = heap.get() + align;
            }
            else
                at = place % 3 == 1 ? arena + arenaSize - n : arena;
            std::copy(s.begin(), s.end(), at);
        }
        Placed(Placed const&) = delete;
        ~Placed()
        {
            if (!heap)
                std::fill_n(at, n, 'x');
        }
    };

    struct Receiver final: unicode::grapheme_cluster_receiver
    {
        char const* base = nullptr;
        vector<u64>* out = nullptr;
        void add(char w, string_view t, size_t n)
        {
            out->insert(out->end(), { static_cast<u64>(w), static_cast<u64>(t.data() - base), static_cast<u64>(t.data() + t.size() - base), n });
        }
        void receiveAsciiSequence(string_view t) noexcept override { add('A', t, 0); }
        void receiveGraphemeCluster(string_view t, size_t n) noexcept override { add('G', t, n); }
        void receiveInvalidGraphemeCluster() noexcept override { add('I', string_view(base, 0), 0); }
    };

    vector<u64> call(int kind, string_view bytes, vector<i64> const& a)
    {
        vector<u64> out;
        Placed const p { bytes, a[6], a[7] % 64 };
        string_view const s { p.at, bytes.size() };
        switch (kind)
        {
            case K_SCAN: {
                Receiver r;
                r.base = p.at;
                r.out = &out;
                unicode::scan_state st {};
                auto const budget = static_cast<size_t>(a[5]);
                auto const res = unicode::scan_text(st, s, budget, r);
                out.insert(out.end(), { res.count, static_cast<u64>(res.start - p.at), static_cast<u64>(res.end - p.at), static_cast<u64>(st.next - p.at) });
                break;
            }
            case K_TO32: {
                auto const r = unicode::convert_to<char32_t>(s);
                out.insert(out.end(), r.begin(), r.end());
                break;
            }
            default: {
                auto const r = unicode::convert_to<char16_t>(s);
                out.insert(out.end(), r.begin(), r.end());
                break;
            }
        }
        return out;
    }
} // namespace

struct Variant
{
    char const* name;
    vector<u64> (*call)(int, string_view, vector<i64> const&);
    Variant* next;
};
extern Variant* variants; // the other builds of the library in this program
} // namespace sim::cpu
