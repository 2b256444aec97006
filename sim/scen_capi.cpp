// C16: C clients with buffers of all sizes, and many stream handles with interleaved lives.
#include "ref.h"
#include "scanmodel.h"
#include "scen.h"
#include "streams.h"

#include <libunicode/capi.h>

#include <algorithm>
#include <memory>
#include <new>

namespace
{
long live = 0; // blocks taken from operator new and not given back
}
void* operator new(std::size_t n)
{
    if (void* const p = std::malloc(n ? n : 1))
        return ++live, p;
    throw std::bad_alloc {};
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return ++live, std::malloc(n ? n : 1); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return ++live, std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept
{
    if (p)
        --live;
    std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { operator delete(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

namespace sim
{
namespace
{
    enum : int { K_ONCE = 20, K_RETRY = 21, K_PIECES = 22, K_MEASURE = 23, K_FEED = 24, K_CREATE = 25, K_DESTROY = 26 };
    constexpr size_t handles = 4;

    // A buffer of exactly n bytes: the byte before and the byte after are out of bounds for everybody (AddressSanitizer).
    struct Exact
    {
        std::unique_ptr<char[]> p;
        size_t n;
        explicit Exact(size_t size): p { new char[size] }, n { size } { std::fill_n(p.get(), n, '\x5A'); }
    };

    // Text at the exact end of an allocation.
    template <typename T>
    struct ExactText
    {
        std::unique_ptr<T[]> p;
        size_t n;
        template <typename S>
        explicit ExactText(S const& s): p { new T[s.size()] }, n { s.size() }
        {
            for (size_t i = 0; i < n; ++i)
                p[i] = static_cast<T>(s[i]);
        }
    };

    struct Handle
    {
        u8u32_stream_state_t h = nullptr;
        size_t stream = 0, pos = 0;
        size_t base = 0; // where in the stream the handle began
        std::map<size_t, u32> ends; // offset of a character's last byte: its codepoint
        long balance = 0;
    };

    std::pair<int, int> measure(u32string const& t, bool whole)
    {
        if (t.empty())
            return { 0, 0 };
        auto const brk = ref::graphemeBreaks(t);
        int clusters = 0, width = 0;
        for (size_t i = 0; i < t.size();)
        {
            ref::Width w;
            size_t j = i;
            do
                w.push(t[j], cpWidth(t[j])), ++j;
            while (j < t.size() && !brk[j]);
            ++clusters;
            width += static_cast<int>(whole ? w.width() : cpWidth(t[i]));
            i = j;
        }
        return { clusters, width };
    }

    // Returns how many blocks are left behind.
    long drive(Plan const& plan, Ctx& ctx, string& lost)
    {
        long left = 0;
        auto const w = buildWire(plan, ctx.st);
        auto const n = w.got.size();
        vector<u32string> text(n);
        for (size_t i = 0; i < n; ++i)
            for (auto const& u: ref::decodeUtf8(w.got[i]))
                if (u.good)
                    text[i] += static_cast<char32_t>(u.cp);
        vector<Handle> hs(handles);
        auto const destroy = [&](size_t k) {
            auto& h = hs[k];
            auto const before = live;
            u8u32_stream_convert_destroy(&h.h);
            h.balance += live - before;
            if (h.h)
                ctx.violate("handle-not-cleared", "destroy leaves the handle set");
            left += h.balance;
            if (h.balance > 0 && lost.empty())
                lost = "handle " + std::to_string(k) + " leaves " + std::to_string(h.balance) + " blocks";
            h.h = nullptr;
        };
        for (auto const& e: timeline(plan, ctx.st))
        {
            auto const& a = e.op->a;
            if (a.size() < 5)
                continue;
            auto const i = static_cast<size_t>(a[2]) % n;
            auto const& t = text[i];
            auto const from = t.empty() ? 0 : static_cast<size_t>(a[3]) % t.size();
            u32string const part = t.substr(from, e.op->kind == K_MEASURE && a.size() > 5 && a[5] ? static_cast<size_t>(a[5]) : e.op->kind == K_MEASURE || (a.size() > 6 && a[5]) ? string::npos : 64);
            bool const big = a.size() > 6 && a[5];
            string const want = ref::encode(part);
            switch (e.op->kind)
            {
                case K_ONCE:
                case K_RETRY: {
                    // a[4]: around the size needed, or anything below
                    size_t size = a[4] >= 100 ? static_cast<size_t>(a[4] - 100) % (want.size() + 9) : want.size() + static_cast<size_t>(a[4] % 9) > 4 ? want.size() + static_cast<size_t>(a[4] % 9) - 4 : 0;
                    if (a.size() > 6)
                        size += static_cast<size_t>(a[6]);
                    for (int tries = 0;; ++tries)
                    {
                        ExactText<u32_char_t> const src { part };
                        Exact dst { size };
                        auto const before = live;
                        auto const r = u32u8_convert(src.p.get(), src.n, dst.p.get(), dst.n);
                        left += live - before;
                        ctx.log.num(static_cast<u64>(r));
                        ctx.st.state(mix(part.size(), mix(size, static_cast<u64>(r))));
                        if (size < want.size())
                            ctx.st.hit("fault_buffer_too_small"), ctx.nontrivial = true;
                        else if (size == want.size())
                            ctx.st.hit("exact_fit"), ctx.nontrivial = true;
                        int const expect = size < want.size() ? -1 : static_cast<int>(want.size());
                        if (r != expect)
                            return ctx.violate("return-value", show(part) + " into " + std::to_string(size) + " bytes: " + std::to_string(r) + ", expected " + std::to_string(expect)), 0L;
                        if (r >= 0 && string_view(dst.p.get(), want.size()) != want)
                            return ctx.violate("encoding", show(part) + " into " + std::to_string(size) + " bytes: " + show(string_view(dst.p.get(), want.size()))), 0L;
                        if (r >= 0)
                            for (size_t k = want.size(); k < size; ++k)
                                if (dst.p[k] != '\x5A')
                                    return ctx.violate("wrote-beyond", show(part) + " into " + std::to_string(size) + " bytes: byte " + std::to_string(k) + " written"), 0L;
                        if (r >= 0 || e.op->kind == K_ONCE)
                            break;
                        size += 1 + size * static_cast<size_t>(big ? 1 + a[3] % 2 : a[3] % 3) / 2;
                        ctx.st.hit("retries");
                    }
                    break;
                }
                case K_PIECES: {
                    // a client with one small buffer that converts its text piece by piece, taking less when it does not fit
                    size_t const size = 4 + static_cast<size_t>(a[4]) % 16;
                    string out;
                    size_t piece = 16;
                    for (size_t at = 0; at < part.size();)
                    {
                        ExactText<u32_char_t> const src { part.substr(at, piece) };
                        Exact dst { size };
                        auto const before = live;
                        auto const r = u32u8_convert(src.p.get(), src.n, dst.p.get(), dst.n);
                        left += live - before;
                        if (r < 0 && src.n == 1)
                            return ctx.violate("return-value", "one codepoint does not fit in " + std::to_string(size) + " bytes: " + show(part.substr(at, 1))), 0L;
                        if (r < 0)
                        {
                            ctx.st.hit("fault_buffer_too_small");
                            ctx.nontrivial = true;
                            piece = src.n / 2;
                            continue;
                        }
                        if (static_cast<size_t>(r) > size)
                            return ctx.violate("return-value", "more bytes than the buffer has"), 0L;
                        out.append(dst.p.get(), static_cast<size_t>(r));
                        at += src.n;
                        piece = 1 + (piece * 2 + static_cast<size_t>(a[3])) % 16;
                    }
                    ctx.log.str(string_view(out));
                    if (out != want)
                        return ctx.violate("encoding", "piecewise conversion of " + show(part) + " gives " + show(string_view(out))), 0L;
                    break;
                }
                case K_MEASURE: {
                    bool const whole = a[4] & 1;
                    ExactText<u32_char_t> const s32 { part };
                    ExactText<char> const s8 { want };
                    auto const before = live;
                    int const mode = whole ? GC_WIDTH_MODE_MODIFIABLE : GC_WIDTH_MODE_NON_MODIFIABLE;
                    int const got[] { u32_gc_count(s32.p.get(), s32.n), u32_gc_width(s32.p.get(), s32.n, mode), u8_gc_count(s8.p.get(), s8.n), u8_gc_width(s8.p.get(), s8.n, mode) };
                    left += live - before;
                    if (live > before && lost.empty())
                        lost = "counting or measuring " + show(part) + " leaves " + std::to_string(live - before) + " blocks";
                    // UTF-8 decodes to what the text is, except that overlong forms and the like stay what they are
                    auto const m = measure(part, whole);
                    int const expect[] { m.first, m.second, m.first, m.second };
                    for (int k = 0; k < 4; ++k)
                    {
                        ctx.log.num(static_cast<u64>(got[k]));
                        if (got[k] != expect[k])
                            return ctx.violate(k % 2 ? "width" : "count", string(k < 2 ? "UTF-32" : "UTF-8") + (whole ? " whole" : " base") + ": " + show(part) + " gives " + std::to_string(got[k]) + ", expected " + std::to_string(expect[k])), 0L;
                    }
                    ctx.st.hit("measured");
                    break;
                }
                case K_CREATE: {
                    auto const k = static_cast<size_t>(a[3]) % handles;
                    if (hs[k].h)
                        break;
                    hs[k] = {};
                    auto const before = live;
                    hs[k].h = u8u32_stream_convert_create();
                    hs[k].balance = live - before;
                    hs[k].stream = i;
                    hs[k].base = hs[k].pos = w.got[i].empty() ? 0 : static_cast<size_t>(a[4]) % w.got[i].size();
                    for (auto const& u: ref::decodeUtf8(string_view(w.got[i]).substr(hs[k].base)))
                        if (u.good)
                            hs[k].ends[hs[k].base + u.at + u.len - 1] = u.cp;
                    ctx.st.hit("handles_created");
                    break;
                }
                case K_DESTROY: {
                    auto const k = static_cast<size_t>(a[3]) % handles;
                    if (!hs[k].h)
                        break;
                    auto const& b = w.got[hs[k].stream];
                    if (hs[k].pos > hs[k].base && static_cast<u8>(b[hs[k].pos - 1]) >= 0x80 && !hs[k].ends.count(hs[k].pos - 1))
                        ctx.st.hit("fault_abandoned_inside_character");
                    destroy(k);
                    break;
                }
                case K_FEED: {
                    auto const k = static_cast<size_t>(a[3]) % handles;
                    auto& h = hs[k];
                    if (!h.h)
                        break;
                    auto const& b = w.got[h.stream];
                    int others = 0;
                    for (auto const& x: hs)
                        others += x.h != nullptr;
                    if (others > 1)
                        ctx.nontrivial = true;
                    for (i64 c = 0; c < a[4] && h.pos < b.size(); ++c, ++h.pos)
                    {
                        auto const sentinel = static_cast<u32_char_t>(0xA5A50000u ^ static_cast<u32>(h.pos));
                        auto out = std::make_unique<u32_char_t>(sentinel);
                        auto const before = live;
                        auto const r = u8u32_stream_convert_run(h.h, b[h.pos], out.get());
                        h.balance += live - before;
                        ctx.log.num(static_cast<u64>(r));
                        ctx.log.num(*out);
                        auto const want1 = h.ends.find(h.pos);
                        auto const what = [&] { return "handle " + std::to_string(k) + " after byte " + std::to_string(h.pos - h.base) + " of " + show(string_view(b).substr(h.base, h.pos - h.base + 1)) + ": returned " + std::to_string(r) + ", output " + std::to_string(*out); };
                        if (r != 0 && r != 1)
                            return ctx.violate("stream-return", what()), 0L;
                        if (r == 0 && *out != sentinel)
                            return ctx.violate("output-touched", what()), 0L;
                        if ((r == 1) != (want1 != h.ends.end()))
                            return ctx.violate("stream-return", what()), 0L;
                        if (r == 1 && *out != want1->second)
                            return ctx.violate("stream-codepoint", what() + ", expected " + std::to_string(want1->second)), 0L;
                    }
                    ctx.st.hit("fed");
                    ctx.st.state(mix(k, mix(static_cast<u64>(others), h.pos && h.pos < b.size() ? static_cast<u8>(b[h.pos - 1]) >> 3 : 0)));
                    break;
                }
                default: break;
            }
            if (ctx.failed)
                return 0;
        }
        for (size_t k = 0; k < handles; ++k)
            if (hs[k].h)
                destroy(k);
        return left;
    }

    void run(Plan const& plan, Ctx& ctx)
    {
        string lost;
        auto left = drive(plan, ctx, lost);
        ctx.log.num(static_cast<u64>(left > 0));
        // What the library keeps for later is not lost: only what is left behind every time is.
        for (int again = 0; again < 3 && left > 0 && !ctx.failed; ++again)
        {
            Ctx repeated { ctx.st };
            lost.clear();
            left = drive(plan, repeated, lost);
            if (repeated.failed)
                return ctx.violate(repeated.fail.cls, repeated.fail.detail + " (when repeated)");
        }
        if (left > 0 && !ctx.failed)
            ctx.violate("leak", lost.empty() ? string("blocks are left behind every time") : lost);
    }

    void init() { text::init(); }

    Plan gen(Rng& r, int tier)
    {
        Plan p;
        StreamGen g;
        // Whole texts, and buffers much larger than needed, by amounts around what small integers hold.
        auto const extra = [&](Op o) {
            if (r.chance(12))
            {
                o.a.push_back(r.chance(60));
                o.a.push_back(r.chance(50) ? 0 : static_cast<i64>((u64 { 1 } << (r.chance(70) ? 16 : 7 + r.below(11))) - std::min<u64>(o.a[4] >= 100 ? 0 : 8, r.below(9))));
            }
            p.ops.push_back(std::move(o));
        };
        g.minStreams = 1;
        g.maxStreams = 3;
        g.controls = 3;
        g.damage = 40;
        g.rawNoise = 15;
        g.tokens = tier && r.chance(10) ? 40 : 8;
        auto const n = genStreams(r, p, g);
        auto const calls = 4 + r.below(30);
        auto const client = [&] { return r.range(0, 2); };
        auto const delay = [&] { return static_cast<i64>(r.skewed(2000)); };
        auto const kind = r.below(3); // handles, buffers, both
        for (u64 k = 0; k < calls; ++k)
        {
            auto const s = r.range(0, n - 1);
            if (kind == 1 || (kind == 2 && r.chance(50)))
                switch (r.below(5))
                {
                    case 0:
                    case 1: extra({ K_ONCE, { client(), delay(), s, static_cast<i64>(r.below(64)), r.chance(60) ? static_cast<i64>(r.below(9)) : static_cast<i64>(100 + r.below(200)) }, {} }); break;
                    case 2: extra({ K_RETRY, { client(), delay(), s, static_cast<i64>(r.below(64)), static_cast<i64>(100 + r.below(200)) }, {} }); break;
                    case 3: p.ops.push_back({ K_PIECES, { client(), delay(), s, static_cast<i64>(r.below(64)), static_cast<i64>(r.below(64)) }, {} }); break;
                    default: p.ops.push_back({ K_MEASURE, { client(), delay(), s, r.chance(50) ? 0 : static_cast<i64>(r.below(64)), static_cast<i64>(r.below(2)), r.chance(60) ? r.range(1, 4) : 0 }, {} }); break;
                }
            else
            {
                auto const h = r.range(0, static_cast<i64>(handles) - 1);
                auto const what = r.below(10);
                if (what < 3)
                    p.ops.push_back({ K_CREATE, { client(), delay(), s, h, r.chance(70) ? 0 : static_cast<i64>(r.below(64)) }, {} });
                else if (what == 3)
                    p.ops.push_back({ K_DESTROY, { client(), delay(), s, h, 0 }, {} });
                else
                    p.ops.push_back({ K_FEED, { client(), delay(), s, h, static_cast<i64>(1 + r.skewed(30)) }, {} });
            }
        }
        return p;
    }
} // namespace

void addCapi(vector<Scenario>& v)
{
    v.push_back({ "C16", gen, run, init, "a run is up to 3 C clients converting, counting, measuring and running up to 4 stream handles over 1-3 (possibly damaged) texts in a seeded order, with buffers of seeded sizes around what is needed; non-trivial: a buffer was too small or fitted exactly, or two handles were alive" });
}
} // namespace sim
