// C05: receivers decode damaged, fragmented byte streams in every way the library offers.
#include "ref.h"
#include "scen.h"
#include "streams.h"

#include <libunicode/capi.h>
#include <libunicode/convert.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>

#include <algorithm>
#include <memory>

namespace sim
{
namespace
{
    enum : int { K_UNITFAULT = 3 };

    // A copy of exactly the right size, so that reading on is an error; never null.
    template <typename T>
    struct Exact
    {
        std::unique_ptr<T[]> p;
        size_t n;
        explicit Exact(std::basic_string_view<T> s): p { new T[s.size()] }, n { s.size() }
        {
            std::copy(s.begin(), s.end(), p.get());
        }
        std::basic_string_view<T> view() const { return { p.get(), n }; }
    };

    std::u16string toUtf16(u32string_view t)
    {
        std::u16string r;
        for (u32 c: t)
        {
            if (c >= 0x110000 || (c >= 0xD800 && c < 0xE000))
                continue;
            if (c < 0x10000)
                r += static_cast<char16_t>(c);
            else
            {
                r += static_cast<char16_t>(0xD800 + ((c - 0x10000) >> 10));
                r += static_cast<char16_t>(0xDC00 + ((c - 0x10000) & 0x3FF));
            }
        }
        return r;
    }
    u32string fromUtf16(std::u16string_view s)
    {
        u32string r;
        for (size_t i = 0; i < s.size(); ++i)
        {
            u32 const c = s[i];
            if (c < 0xD800 || c >= 0xE000)
                r += static_cast<char32_t>(c);
            else if (c < 0xDC00)
            {
                // a high surrogate takes the next unit along
                if (i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000)
                    r += static_cast<char32_t>(0x10000 + ((c - 0xD800) << 10) + (s[i + 1] - 0xDC00u));
                ++i;
            }
        }
        return r;
    }

    struct Handle
    {
        u8u32_stream_state_t h = u8u32_stream_convert_create();
        Handle() = default;
        Handle(Handle const&) = delete;
        ~Handle() { u8u32_stream_convert_destroy(&h); }
    };

    struct Receiver
    {
        unicode::utf8_decoder_state a {}, b {};
        unicode::decoder<char> d {};
        Handle h;
        u32string outA, outB, outD, outH;
        size_t pos = 0;
    };

    string diff(char const* what, u32string_view got, u32string_view want)
    {
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i])
            ++i;
        return string(what) + " differs at codepoint " + std::to_string(i) + " of " + std::to_string(want.size()) + ": got " + show(got.substr(std::min(i, got.size()), 4)) + " expected " + show(want.substr(std::min(i, want.size()), 4));
    }

    void whole(string_view bytes, Ctx& ctx)
    {
        auto const units = ref::decodeUtf8(bytes);
        u32string good, replaced;
        for (auto const& u: units)
        {
            if (u.good)
                good += static_cast<char32_t>(u.cp);
            replaced += static_cast<char32_t>(u.good ? u.cp : 0xFFFD);
        }
        auto const in = [&] { return " in " + show(bytes.substr(0, 96)); };
        auto const check = [&](char const* name, u32string_view got, u32string_view want) {
            ctx.log.str(got);
            if (got != want)
                ctx.violate(string("convert-") + name, diff(name, got, want) + in());
        };
        ctx.st.hit("whole_conversions");
        Exact<char> const x { bytes };
        auto const sv = x.view();
        check("from_utf8", unicode::from_utf8<char32_t>(sv), good);
        check("utf8-to-utf32", unicode::convert_to<char32_t>(sv), good);
        {
            u32string o;
            unicode::convert_to<char32_t>(sv, std::back_inserter(o));
            check("utf8-to-utf32-iter", o, good);
            std::wstring const w = unicode::convert_to<wchar_t>(sv);
            check("utf8-to-wide", u32string(w.begin(), w.end()), good);
        }
        {
            auto const want = toUtf16(good);
            auto const got = unicode::convert_to<char16_t>(sv);
            std::u16string it;
            unicode::convert_to<char16_t>(sv, std::back_inserter(it));
            check("utf8-to-utf16", u32string(got.begin(), got.end()), u32string(want.begin(), want.end()));
            check("utf8-to-utf16-iter", u32string(it.begin(), it.end()), u32string(want.begin(), want.end()));
        }
        {
            auto const breaks = ref::graphemeBreaks(replaced);
            auto const seg = unicode::utf8_grapheme_segmenter(sv);
            u32string got;
            auto it = seg.begin();
            size_t steps = 0;
            for (; it != seg.end(); ++steps)
            {
                auto const& cl = steps % 3 == 2 ? it.value() : *it;
                auto const from = got.size();
                got += cl;
                if (cl.empty() || got.size() > replaced.size() || steps > bytes.size())
                    return ctx.violate("iterator-tiling", "cluster " + std::to_string(steps) + " has " + std::to_string(cl.size()) + " codepoints" + in());
                for (size_t i = from; i <= got.size(); ++i)
                    if (breaks[i] != (i == from || i == got.size()))
                        return ctx.violate("iterator-boundary", "cluster " + std::to_string(steps) + " " + show(cl) + " of " + show(replaced) + in());
                if (steps % 2)
                    ++it;
                else
                {
                    auto const before = cl;
                    auto const old = it++;
                    if (*old != before)
                        return ctx.violate("iterator-copy", "copy changed" + in());
                }
            }
            check("grapheme-iterator", got, replaced);
        }
        // back again
        {
            Exact<char32_t> const y { u32string_view(good) };
            auto const want = ref::encode(good);
            auto const a = unicode::convert_to<char>(y.view());
            auto const b = unicode::to_utf8(y.view());
            if (a != want || b != want)
                ctx.violate("utf32-to-utf8", show(string_view(a)) + " / " + show(string_view(b)) + " from " + show(good));
            auto const want16 = toUtf16(good);
            u32string const wanted16(want16.begin(), want16.end());
            auto const wide16 = [](std::u16string const& s) { return u32string(s.begin(), s.end()); };
            auto const bytesOf = [](string const& s) { u32string r; for (auto const c: s) r += static_cast<u8>(c); return r; };
            check("utf32-to-utf16", wide16(unicode::convert_to<char16_t>(y.view())), wanted16);
            auto const w = unicode::convert_to<wchar_t>(y.view());
            check("utf32-to-wide", u32string(w.begin(), w.end()), good);
            {
                std::wstring const ww(good.begin(), good.end());
                Exact<wchar_t> const z { std::wstring_view(ww) };
                check("wide-to-utf32", unicode::convert_to<char32_t>(z.view()), good);
                check("wide-to-utf8", bytesOf(unicode::convert_to<char>(z.view())), bytesOf(want));
                check("wide-to-utf16", wide16(unicode::convert_to<char16_t>(z.view())), wanted16);
            }
            // one codepoint at a time
            string c8, t8;
            std::u16string c16;
            for (auto const c: good)
            {
                c8 += unicode::convert_to<char>(c);
                t8 += unicode::to_utf8(c);
                c16 += unicode::convert_to<char16_t>(c);
            }
            check("codepoints-to-utf8", bytesOf(c8), bytesOf(want));
            check("codepoints-to_utf8", bytesOf(t8), bytesOf(want));
            check("codepoints-to-utf16", wide16(c16), wanted16);
        }
    }

    void wholeUtf16(std::u16string_view s, Ctx& ctx)
    {
        Exact<char16_t> const x { s };
        auto const want = fromUtf16(s);
        auto const got = unicode::convert_to<char32_t>(x.view());
        auto const bytes = unicode::convert_to<char>(x.view());
        std::wstring const w = unicode::convert_to<wchar_t>(x.view());
        ctx.st.hit("utf16_conversions");
        ctx.log.str(got);
        u32string const units(s.begin(), s.end());
        if (got != want)
            ctx.violate("utf16-to-utf32", diff("utf16-to-utf32", got, want) + " in " + show(units));
        else if (u32string(w.begin(), w.end()) != want)
            ctx.violate("utf16-to-wide", diff("utf16-to-wide", u32string(w.begin(), w.end()), want) + " in " + show(units));
        else if (bytes != ref::encode(want))
            ctx.violate("utf16-to-utf8", show(string_view(bytes)) + " from " + show(units));
    }

    void run(Plan const& plan, Ctx& ctx)
    {
        auto const w = buildWire(plan, ctx.st);
        auto const n = w.got.size();
        vector<std::unique_ptr<Receiver>> rx;
        vector<vector<u8>> endOf(n); // 1: a well-formed character ends with this byte
        vector<vector<u32>> cpAt(n);
        vector<std::u16string> wide(n);
        for (size_t i = 0; i < n; ++i)
        {
            rx.push_back(std::make_unique<Receiver>());
            endOf[i].assign(w.got[i].size(), 0);
            cpAt[i].assign(w.got[i].size(), 0);
            u32string good;
            for (auto const& u: ref::decodeUtf8(w.got[i]))
                if (u.good)
                {
                    endOf[i][u.at + u.len - 1] = 1;
                    cpAt[i][u.at + u.len - 1] = u.cp;
                    good += static_cast<char32_t>(u.cp);
                }
            wide[i] = toUtf16(good);
        }
        for (auto const& o: plan.ops)
            if (o.kind == K_UNITFAULT && o.a.size() >= 4)
            {
                auto& s = wide[static_cast<size_t>(o.a[0]) % n];
                if (s.empty())
                    continue;
                auto at = static_cast<size_t>(o.a[2]) % s.size();
                for (size_t k = 0; k < s.size(); ++k) // prefer surrogates
                    if (auto const p = (at + k) % s.size(); s[p] >= 0xD800 && s[p] < 0xE000)
                    {
                        at = p;
                        break;
                    }
                switch (o.a[1] % 4)
                {
                    case 0: s.erase(at, 1); ctx.st.hit("damage_unit_drop"); break;
                    case 1: s.insert(at, 1, s[at]); ctx.st.hit("damage_unit_duplicate"); break;
                    case 2: s[at] = static_cast<char16_t>(o.a[3]); ctx.st.hit("damage_unit_corrupt"); break;
                    default: s.resize(at + (o.a[3] & 1)); ctx.st.hit("damage_unit_truncate"); break;
                }
            }

        auto const deliver = [&](size_t i, size_t bytes, i64 flags) {
            auto& r = *rx[i];
            auto const& s = w.got[i];
            bytes = std::min(bytes, s.size() - r.pos);
            if (flags & 2) // the receiver moves house: decoding goes on from copies of its state
            {
                auto const a = r.a, b = r.b;
                auto const d = r.d;
                auto next = std::make_unique<Receiver>();
                next->a = a;
                next->b = b;
                next->d = d;
                std::swap(next->h.h, r.h.h);
                next->pos = r.pos;
                rx[i] = std::move(next);
                ctx.st.hit("state_copied");
            }
            auto& q = *rx[i];
            for (size_t k = 0; k < bytes; ++k, ++q.pos)
            {
                auto const byte = static_cast<u8>(s[q.pos]);
                i64 const want = endOf[i][q.pos] ? static_cast<i64>(cpAt[i][q.pos]) : -1;
                i64 got[4] { -1, -1, -1, -1 };
                auto const ra = unicode::from_utf8(q.a, byte);
                if (auto const* ok = std::get_if<unicode::Success>(&ra))
                    got[0] = ok->value;
                auto const rb = unicode::from_utf8i(q.b, byte);
                if (rb != static_cast<unsigned>(-1) && rb != static_cast<unsigned>(-2))
                    got[1] = rb;
                if (std::holds_alternative<unicode::Invalid>(ra) != (rb == static_cast<unsigned>(-2)))
                    ctx.violate("from_utf8i", "differs from from_utf8 at byte " + std::to_string(q.pos));
                if (auto const rd = q.d(byte))
                    got[2] = *rd;
                u32_char_t out = 0xDEADBEEF;
                auto const rc = u8u32_stream_convert_run(q.h.h, static_cast<char>(byte), &out);
                if (rc == 1)
                    got[3] = out;
                else if (rc != 0 || out != 0xDEADBEEF)
                    ctx.violate("capi-output", "result " + std::to_string(rc) + ", output touched");
                static constexpr char const* names[] { "from_utf8", "from_utf8i", "decoder", "capi-stream" };
                for (int m = 0; m < 4; ++m)
                {
                    ctx.log.num(static_cast<u64>(got[m]));
                    if (got[m] != want)
                        ctx.violate(string("incremental-") + names[m], "stream " + std::to_string(i) + " byte " + std::to_string(q.pos) + ": got " + std::to_string(got[m]) + ", expected " + std::to_string(want) + " in " + show(string_view(s).substr(q.pos > 8 ? q.pos - 8 : 0, 16)));
                }
                if (ctx.failed)
                    return false;
            }
            auto const head = string_view(s).substr(0, q.pos);
            size_t tail = 0;
            while (tail < head.size() && tail < 4 && !endOf[i][head.size() - 1 - tail])
                ++tail;
            if (tail)
            {
                ctx.nontrivial = true;
                ctx.st.hit("cut_inside_character");
            }
            u64 shape = tail;
            for (size_t k = 0; k < 8 && k < head.size(); ++k)
            {
                auto const b = static_cast<u8>(head[head.size() - 1 - k]);
                shape = mix(shape, b < 0x80 ? 0u : b < 0xC0 ? 1u : b < 0xE0 ? 2u : b < 0xF0 ? 3u : b < 0xF8 ? 4u : 5u);
            }
            ctx.st.state(shape);
            if (flags & 1)
            {
                whole(head, ctx);
                auto const m = std::min(q.pos, wide[i].size());
                wholeUtf16(std::u16string_view(wide[i]).substr(0, m), ctx);
            }
            return !ctx.failed;
        };
        for (auto const& e: timeline(plan, ctx.st))
            if (e.op->kind == K_DELIVER && e.op->a.size() >= 4)
                if (!deliver(static_cast<size_t>(e.op->a[0]) % n, static_cast<size_t>(std::max<i64>(0, e.op->a[2])), e.op->a[3]))
                    return;
        for (size_t i = 0; i < n; ++i)
        {
            if (!deliver(i, ~size_t { 0 } >> 1, 0))
                return;
            whole(w.got[i], ctx);
            wholeUtf16(wide[i], ctx);
            // the converters work on blocks of ASCII: buffers that end before, at and behind the end of a block
            {
                auto const& s = w.got[i];
                size_t best = 0, start = 0;
                for (size_t k = 0, from = 0; k <= s.size(); ++k)
                    if (k == s.size() || static_cast<u8>(s[k]) >= 0x80)
                    {
                        if (k - from > best)
                            best = k - from, start = from;
                        from = k + 1;
                    }
                for (size_t const block: { size_t { 16 }, size_t { 32 }, size_t { 64 } })
                    for (size_t const size: { block - 1, block, block + 1, 2 * block - 1 })
                        if (size <= best && !ctx.failed)
                        {
                            ctx.st.hit("ascii_block_edges");
                            whole(string_view(s).substr(start, size), ctx);
                        }
            }
            // character by character, each in a buffer of its own
            for (auto const& u: ref::decodeUtf8(w.got[i]))
                if (u.good && !ctx.failed)
                {
                    Exact<char> const x { string_view(w.got[i]).substr(u.at, u.len) };
                    size_t len = 0;
                    auto const r = unicode::from_utf8(x.p.get(), &len);
                    auto const* ok = std::get_if<unicode::Success>(&r);
                    if (!ok || ok->value != u.cp || len != u.len)
                        ctx.violate("from_utf8-single", "character at " + std::to_string(u.at) + " length " + std::to_string(len) + " in " + show(w.got[i]));
                    auto const* at = x.p.get();
                    auto const r2 = unicode::decoder<char> {}(at);
                    if (!r2 || *r2 != u.cp || at != x.p.get() + u.len)
                        ctx.violate("decoder-single", "character at " + std::to_string(u.at) + " in " + show(w.got[i]));
                }
                else if (auto const lead = static_cast<u8>(w.got[i][u.at]); lead >= 0xC2 && lead <= 0xF4 && !ctx.failed)
                {
                    // As many bytes as the first one promises, but one of them does not continue it.
                    size_t const len = lead < 0xE0 ? 2 : lead < 0xF0 ? 3 : 4;
                    auto const bytes = string_view(w.got[i]).substr(u.at, len);
                    auto broken = false;
                    for (size_t k = 1; k < bytes.size(); ++k)
                        broken |= (static_cast<u8>(bytes[k]) & 0xC0) != 0x80;
                    if (bytes.size() < len || !broken)
                        continue;
                    Exact<char> const x { bytes };
                    auto const* at = x.p.get();
                    if (auto const r = unicode::decoder<char> {}(at); r || at > x.p.get() + len)
                        ctx.violate("decoder-ill-formed", "taken for a character at " + std::to_string(u.at) + " in " + show(w.got[i]));
                    ctx.st.hit("ill_formed_single");
                }
        }
    }

    void init() { text::init(); }

    Plan gen(Rng& r, int tier)
    {
        Plan p;
        StreamGen g;
        g.maxStreams = 4;
        g.damage = 75;
        g.rawNoise = 20;
        g.tokens = tier && r.chance(10) ? 60 : 10;
        auto const n = genStreams(r, p, g);
        if (r.chance(50))
            for (auto k = 1 + r.below(3); k--;)
                p.ops.push_back({ K_UNITFAULT, { r.range(0, n - 1), static_cast<i64>(r.below(4)), static_cast<i64>(r.below(10000)), static_cast<i64>(r.chance(60) ? 0xD800 + r.below(0x800) : r.below(0x10000)) }, {} });
        auto const rate = r.chance(30) ? 30u : 6u;
        genDeliveries(r, p, n, [&](Rng& q, Op& o) { o.a.push_back((q.chance(rate) ? 1 : 0) | (q.chance(5) ? 2 : 0)); });
        return p;
    }
} // namespace

void addDecode(vector<Scenario>& v)
{
    v.push_back({ "C05", gen, run, init, "a run is 1-4 interleaved byte streams, 75% of runs with transmission damage, decoded in step by four incremental decoders (whose state may be copied), with the converters applied to what has arrived; UTF-16 streams of the same text with unit damage; non-trivial: at least one delivery ended inside a character" });
}
} // namespace sim
