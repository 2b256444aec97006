// C15: memory allocations inside library calls fail.
#include "reboot.h"
#include "ref.h"
#include "scen.h"
#include "streams.h"

#include <libunicode/capi.h>
#include <libunicode/case_mapping.h>
#include <libunicode/convert.h>
#include <libunicode/normalization.h>
#include <libunicode/utf8.h>

#include <algorithm>
#include <memory>
#include <new>

// The allocator seam: every allocation of the process goes through here, and fails when the plan says so.
namespace
{
struct Heap
{
    long live = 0;
    unsigned long allocs = 0; // since armed
    unsigned failAt = 0;      // 1-based; 0: never
    bool failOn = false;      // everything from failAt on fails
    unsigned failed = 0;
} heap;

void* take(std::size_t n, std::size_t align)
{
    if (heap.failAt)
    {
        ++heap.allocs;
        if (heap.allocs == heap.failAt || (heap.failOn && heap.allocs > heap.failAt))
        {
            ++heap.failed;
            return nullptr;
        }
    }
    void* const p = align > alignof(std::max_align_t) ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (p)
        ++heap.live;
    return p;
}
void* takeOrThrow(std::size_t n, std::size_t align)
{
    if (void* const p = take(n, align))
        return p;
    throw std::bad_alloc {};
}
void give(void* p)
{
    if (p)
        --heap.live;
    std::free(p);
}
} // namespace
void* operator new(std::size_t n) { return takeOrThrow(n, 1); }
void* operator new[](std::size_t n) { return takeOrThrow(n, 1); }
void* operator new(std::size_t n, std::align_val_t a) { return takeOrThrow(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return takeOrThrow(n, static_cast<std::size_t>(a)); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return take(n, 1); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return take(n, 1); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { give(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { give(p); }

namespace sim
{
namespace
{
    enum : int { K_CALL = 20, K_OBJ = 21 };
    using unicode::Normalization_Form;
    constexpr Normalization_Form forms[] { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
    constexpr ref::Form refForms[] { ref::NFC, ref::NFD, ref::NFKC, ref::NFKD };

    // All results as 64-bit numbers, so that they compare without caring for types.
    using Out = vector<u64>;
    template <typename C>
    Out values(std::basic_string<C> const& s)
    {
        Out o;
        for (auto c: s)
            o.push_back(static_cast<u64>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<C, char>, signed char, int>>>(c)));
        return o;
    }

    struct Input
    {
        string utf8, other8;
        u32string u32, other32;
        std::u16string u16;
        int form;
        std::wstring wide;
    };

    constexpr char const* apiNames[] { "normalize-utf32", "normalize-utf8", "is_normalized-utf32", "is_normalized-utf8", "quick_check-utf8", "canonically_equivalent-utf32", "compatibility_equivalent-utf8", "canonical_decomposition",
                                       "compatibility_decomposition", "to_uppercase-utf32", "to_lowercase-utf32", "to_titlecase-utf32", "casefold-utf32", "to_uppercase-utf8", "to_lowercase-utf8", "to_titlecase-utf8", "casefold-utf8",
                                       "casefold_compare-utf32", "casefold_equals-utf8", "utf8-to-utf32", "utf8-to-utf16", "utf32-to-utf8", "utf16-to-utf32", "to_utf8", "from_utf8", "u8_gc_count", "u8_gc_width", "c-handle", "utf32-to-utf16", "utf8-to-wide",
                                       "casefold_compare-utf8", "casefold_equals-utf32", "canonically_equivalent-utf8", "compatibility_equivalent-utf32", "quick_check-utf32", "utf16-to-utf8", "wide-to-utf8" };
    constexpr int apis = static_cast<int>(std::size(apiNames));

    // Calls the API and hands its result to the sink, which must not allocate before the result is complete.
    template <typename Sink>
    void call(int api, Input const& x, Sink&& sink)
    {
        using namespace unicode;
        u32string_view const t = x.u32, t2 = x.other32;
        string_view const s = x.utf8, s2 = x.other8;
        auto const f = forms[x.form & 3];
        switch (api)
        {
            case 0: return sink(normalize(t, f));
            case 1: return sink(normalize(s, f));
            case 2: return sink(is_normalized(t, f));
            case 3: return sink(is_normalized(s, f));
            case 4: return sink(static_cast<int>(quick_check(s, f)));
            case 5: return sink(is_canonically_equivalent(t, t2));
            case 6: return sink(is_compatibility_equivalent(s, s2));
            case 7: return sink(canonical_decomposition(t.empty() ? U'a' : t[0]));
            case 8: return sink(compatibility_decomposition(t.empty() ? U'a' : t[0]));
            case 9: return sink(to_uppercase(t));
            case 10: return sink(to_lowercase(t));
            case 11: return sink(to_titlecase(t));
            case 12: return sink(casefold(t));
            case 13: return sink(to_uppercase(s));
            case 14: return sink(to_lowercase(s));
            case 15: return sink(to_titlecase(s));
            case 16: return sink(casefold(s));
            case 17: {
                auto const c = casefold_compare(t, t2);
                return sink(c < 0 ? 0 : c > 0 ? 2 : 1);
            }
            case 18: return sink(casefold_equals(s, s2));
            case 19: return sink(convert_to<char32_t>(s));
            case 20: return sink(convert_to<char16_t>(s));
            case 21: return sink(convert_to<char>(t));
            case 22: return sink(convert_to<char32_t>(std::u16string_view(x.u16)));
            case 23: return sink(to_utf8(t));
            case 24: return sink(from_utf8<char32_t>(s));
            case 25: return sink(u8_gc_count(s.data(), s.size()));
            case 26: return sink(u8_gc_width(s.data(), s.size(), 1));
            case 27: {
                auto h = u8u32_stream_convert_create();
                u32_char_t o = 0;
                u64 sum = 0;
                for (char c: s)
                    if (u8u32_stream_convert_run(h, c, &o))
                        sum = sum * 31 + o;
                u8u32_stream_convert_destroy(&h);
                return sink(static_cast<int>(sum & 0x7FFFFFFF));
            }
            case 28: return sink(convert_to<char16_t>(t));
            case 29: return sink(convert_to<wchar_t>(s));
            case 30: {
                auto const c = casefold_compare(s, s2);
                return sink(c < 0 ? 0 : c > 0 ? 2 : 1);
            }
            case 31: return sink(casefold_equals(t, t2));
            case 32: return sink(is_canonically_equivalent(s, s2));
            case 33: return sink(is_compatibility_equivalent(t, t2));
            case 34: return sink(static_cast<int>(quick_check(t, f)));
            case 35: return sink(convert_to<char>(std::u16string_view(x.u16)));
            default: return sink(convert_to<char>(std::wstring_view(x.wide)));
        }
    }
    struct Collect
    {
        Out out;
        void operator()(bool b) { out.push_back(b); }
        void operator()(int v) { out.push_back(static_cast<u64>(v)); }
        template <typename C>
        void operator()(std::basic_string<C> const& s)
        {
            out = values(s);
        }
        void operator()(vector<char32_t> const& v) { out.assign(v.begin(), v.end()); }
    };
    // Compares without allocating.
    struct Compare
    {
        Out const& want;
        bool same = false;
        void operator()(bool b) { same = want.size() == 1 && want[0] == b; }
        void operator()(int v) { same = want.size() == 1 && want[0] == static_cast<u64>(v); }
        template <typename C>
        void operator()(std::basic_string<C> const& s)
        {
            same = s.size() == want.size();
            for (size_t i = 0; same && i < s.size(); ++i)
                same = want[i] == static_cast<u64>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<C, char>, signed char, int>>>(s[i]));
        }
        void operator()(vector<char32_t> const& v)
        {
            same = v.size() == want.size();
            for (size_t i = 0; same && i < v.size(); ++i)
                same = want[i] == v[i];
        }
    };

    struct Armed
    {
        explicit Armed(i64 nth, i64 on)
        {
            heap.allocs = 0;
            heap.failed = 0;
            heap.failOn = on != 0;
            heap.failAt = static_cast<unsigned>(nth);
        }
        ~Armed() { heap.failAt = 0; }
    };

    void run(Plan const& plan, Ctx& ctx)
    {
        {
            auto const w = buildWire(plan, ctx.st);
            auto const n = w.got.size();
            vector<Input> in(n);
            for (size_t i = 0; i < n; ++i)
            {
                in[i].utf8 = w.got[i];
                for (auto const& u: ref::decodeUtf8(in[i].utf8))
                    if (u.good)
                        in[i].u32 += static_cast<char32_t>(u.cp);
                in[i].utf8 = ref::encode(in[i].u32);
                for (auto c: in[i].u32)
                    if (c < 0x10000)
                        in[i].u16 += static_cast<char16_t>(c);
                    else
                    {
                        in[i].u16 += static_cast<char16_t>(0xD7C0 + (c >> 10));
                        in[i].u16 += static_cast<char16_t>(0xDC00 + (c & 0x3FF));
                    }
                in[i].wide.assign(in[i].u32.begin(), in[i].u32.end());
                in[i].form = static_cast<int>(plan.get(("form" + std::to_string(i)).c_str()) & 3);
            }
            for (size_t i = 0; i < n; ++i)
            {
                in[i].other8 = i % 2 ? in[(i + 1) % n].utf8 : ref::encode(ref::normalize(in[i].u32, ref::NFD));
                in[i].other32 = i % 2 ? in[(i + 1) % n].u32 : ref::normalize(in[i].u32, ref::NFD);
            }
            // What every call has to return: computed before anything fails, and for normalization by the reference.
            std::map<std::pair<size_t, int>, Out> want;
            auto const events = timeline(plan, ctx.st);
            for (auto const& e: events)
            {
                auto const& a = e.op->a;
                if (e.op->kind != K_CALL || a.size() < 6)
                    continue;
                auto const i = static_cast<size_t>(a[2]) % n;
                auto const api = static_cast<int>(a[3] % apis);
                if (want.count({ i, api }))
                    continue;
                Collect c;
                call(api, in[i], c);
                if (api == 0)
                {
                    auto const r = ref::normalize(in[i].u32, refForms[in[i].form]);
                    c.out.assign(r.begin(), r.end());
                }
                want[{ i, api }] = c.out;
            }
            reboot::boot();
            reboot::bootThread();
            // The history proper: from the library's point of view the first thing in its process, and repeated in
            // that same process only to tell what is lost every time from what the library keeps for later.
            auto const drive = [&](Ctx& ctx, string& lost) -> long {
            long left = 0;
            struct Object
            {
                std::unique_ptr<unicode::normalizer> n;
                std::unique_ptr<unicode::utf8_normalizer> u;
                u32string fed, out32;
                string out8;
                bool broken = false;
                long balance = 0; // blocks the object has taken and not given back
            };
            vector<Object> ob(n);
            for (size_t i = 0; i < n; ++i)
            {
                auto const f = forms[in[i].form];
                bool const utf8 = plan.get(("utf8_" + std::to_string(i)).c_str());
                auto const before = heap.live;
                if (utf8)
                    ob[i].u = std::make_unique<unicode::utf8_normalizer>(f);
                else
                    ob[i].n = std::make_unique<unicode::normalizer>(f);
                ob[i].balance += heap.live - before;
                // room to collect results without allocating
                ob[i].fed.reserve(1024);
                ob[i].out32.reserve(1 << 15);
                ob[i].out8.reserve(1 << 17);
            }
            for (auto const& e: events)
            {
                auto const& a = e.op->a;
                if (e.op->kind == K_CALL && a.size() >= 6)
                {
                    auto const i = static_cast<size_t>(a[2]) % n;
                    auto const api = static_cast<int>(a[3] % apis);
                    Compare cmp { want[{ i, api }] };
                    long const live = heap.live;
                    bool threw = false, other = false;
                    unsigned failed = 0, allocs = 0;
                    {
                        Armed armed { a[4] ? a[4] : 1'000'000, a[5] };
                        try
                        {
                            call(api, in[i], cmp);
                        }
                        catch (std::bad_alloc const&)
                        {
                            threw = true;
                        }
                        catch (...)
                        {
                            other = true;
                        }
                        failed = heap.failed;
                        allocs = static_cast<unsigned>(heap.allocs);
                    }
                    long const after = heap.live;
                    if (failed)
                    {
                        ctx.st.hit(a[5] ? "fault_alloc_persistent" : "fault_alloc");
                        ctx.nontrivial = true;
                    }
                    ctx.st.hit(threw ? "threw_bad_alloc" : "returned");
                    ctx.st.state(mix(static_cast<u64>(api), mix(allocs, mix(failed, threw))));
                    ctx.log.num(static_cast<u64>(threw));
                    ctx.log.num(allocs);
                    auto const what = [&] { return string(apiNames[api]) + " with allocation " + std::to_string(a[4]) + (a[5] ? " and later ones" : "") + " failing, text " + show(in[i].u32); };
                    if (other)
                        return ctx.violate("other-exception", what()), 0L;
                    if (threw && !failed)
                        return ctx.violate("spurious-bad_alloc", what()), 0L;
                    if (!threw && !cmp.same)
                        return ctx.violate("wrong-result", what()), 0L;
                    left += after - live;
                    if (after > live && lost.empty())
                        lost = what() + ": " + std::to_string(after - live) + " blocks";
                }
                else if (e.op->kind == K_OBJ && a.size() >= 6)
                {
                    auto const i = static_cast<size_t>(a[2]) % n;
                    auto& o = ob[i];
                    bool threw = false, other = false;
                    unsigned failed = 0;
                    auto const guarded = [&](auto&& f) {
                        auto const before = heap.live;
                        Armed armed { a[4] ? a[4] : 1'000'000, a[5] };
                        try
                        {
                            f();
                        }
                        catch (std::bad_alloc const&)
                        {
                            threw = true;
                        }
                        catch (...)
                        {
                            other = true;
                        }
                        failed = heap.failed;
                        o.balance += heap.live - before;
                    };
                    auto const k = a[3] & 7;
                    if (o.broken || k == 7)
                    {
                        auto const before = heap.live;
                        if (o.n)
                            o.n->reset();
                        else
                            o.u->reset();
                        o.balance += heap.live - before;
                        ctx.st.hit(o.broken ? "reset_after_failure" : "reset");
                        o.broken = false;
                        o.fed.clear();
                        o.out32.clear();
                        o.out8.clear();
                        if (k == 7)
                            continue;
                    }
                    bool const flush = k >= 5;
                    bool carried = false;
                    bool const carryOn = a[5] == 0 && (a[4] & 1);
                    auto const room = o.fed.size() + in[i].u32.size() <= 1024;
                    if (!flush && !room)
                        continue;
                    string const bytes = ref::encode(in[i].u32);
                    guarded([&] {
                        if (o.n)
                        {
                            // A feed() or flush() that failed left the normalizer as it was: a caller that carries
                            // on repeats it, once there is memory again, and loses nothing.
                            auto const step = [&](auto&& f) {
                                try
                                {
                                    o.out32 += f();
                                }
                                catch (std::bad_alloc const&)
                                {
                                    if (!carryOn || !heap.failed)
                                        throw;
                                    heap.failAt = 0;
                                    carried = true;
                                    o.out32 += f();
                                }
                            };
                            if (flush)
                                step([&] { return o.n->flush(); });
                            else
                                for (auto c: in[i].u32)
                                    step([&] { return o.n->feed(c); });
                        }
                        else if (flush)
                            o.out8 += o.u->flush();
                        else
                            o.out8 += o.u->feed(bytes);
                    });
                    if (failed)
                    {
                        ctx.st.hit("fault_alloc_streaming");
                        ctx.nontrivial = true;
                    }
                    if (carried)
                        ctx.st.hit("carried_on_after_failure");
                    if (!flush)
                        o.fed += in[i].u32;
                    ctx.log.num(static_cast<u64>(threw));
                    auto const what = [&] { return string(o.n ? "normalizer" : "utf8_normalizer") + (flush ? " flush" : " feed") + " after " + show(o.fed); };
                    if (other)
                        return ctx.violate("other-exception", what()), 0L;
                    if (threw && !failed)
                        return ctx.violate("spurious-bad_alloc", what()), 0L;
                    if (threw)
                    {
                        o.broken = true;
                        continue;
                    }
                    if (flush)
                    {
                        auto const r = ref::normalize(o.fed, refForms[in[i].form]);
                        if (o.n ? o.out32 != r : o.out8 != ref::encode(r))
                            return ctx.violate("streamed", what() + ": got " + (o.n ? show(o.out32) : show(string_view(o.out8))) + " expected " + show(r)), 0L;
                        o.fed.clear();
                        o.out32.clear();
                        o.out8.clear();
                    }
                }
            }
            // Objects go, with everything they hold: what was allocated for them minus what is freed is nothing.
            for (size_t i = 0; i < n; ++i)
            {
                auto const before = heap.live;
                ob[i].n.reset();
                ob[i].u.reset();
                ob[i].balance += heap.live - before;
                left += ob[i].balance;
                if (ob[i].balance > 0 && lost.empty())
                    lost = string(forms[in[i].form] == forms[0] ? "NFC" : "other form") + " normalizer: " + std::to_string(ob[i].balance) + " blocks remain after the object is destroyed";
            }
            return left;
            };
            string lost;
            auto left = drive(ctx, lost);
            ctx.log.num(static_cast<u64>(left > 0));
            for (int again = 0; again < 3 && left > 0 && !ctx.failed; ++again)
            {
                Ctx repeated { ctx.st };
                lost.clear();
                left = drive(repeated, lost);
                if (repeated.failed)
                    return ctx.violate(repeated.fail.cls, repeated.fail.detail + " (when repeated)");
            }
            if (left > 0 && !ctx.failed)
                ctx.violate("leak", lost.empty() ? string("blocks are left behind every time") : lost);
        }
    }

    void init() { text::init(); }

    Plan gen(Rng& r, int tier)
    {
        using namespace text;
        Plan p;
        StreamGen g;
        g.longest = 8000;
        g.minStreams = 2;
        g.maxStreams = 4;
        g.themes = ~0u;
        g.controls = 2;
        g.tokens = tier && r.chance(10) ? 40 : 8;
        auto const n = genStreams(r, p, g);
        for (int i = 0; i < n; ++i)
        {
            p.cfg["form" + std::to_string(i)] = static_cast<i64>(r.below(4));
            p.cfg["utf8_" + std::to_string(i)] = static_cast<i64>(r.below(2));
        }
        auto const rate = r.chance(20) ? 90u : 50u;
        auto const calls = 3 + r.below(20);
        for (u64 k = 0; k < calls; ++k)
        {
            i64 const nth = r.chance(rate) ? static_cast<i64>(1 + r.skewed(r.chance(80) ? 7 : 60)) : 0;
            if (r.chance(55))
                p.ops.push_back({ K_CALL, { r.range(0, 2), static_cast<i64>(r.skewed(2000)), r.range(0, n - 1), static_cast<i64>(r.below(apis)), nth, r.chance(25) }, {} });
            else
                p.ops.push_back({ K_OBJ, { r.range(0, 2), static_cast<i64>(r.skewed(2000)), r.range(0, n - 1), static_cast<i64>(r.below(8)), nth, r.chance(25) }, {} });
        }
        for (int i = 0; i < n; ++i) // once the faults have stopped, everything works
            p.ops.push_back({ K_OBJ, { 0, 5000, i, 7, 0, 0 }, {} }), p.ops.push_back({ K_OBJ, { 0, 0, i, 0, 0, 0 }, {} }), p.ops.push_back({ K_OBJ, { 0, 0, i, 5, 0, 0 }, {} });
        return p;
    }
} // namespace

void addAlloc(vector<Scenario>& v)
{
    v.push_back({ "C15", gen, run, init, "a run is up to 3 clients calling every allocating function and 2-4 streaming normalizers in a seeded order, half of the calls with a seeded allocation failing (a quarter of those with all later ones failing, too); non-trivial: at least one allocation failed" });
}
} // namespace sim
