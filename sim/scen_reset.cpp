// C08: objects with a history are reset, and compared with new ones from there on.
#include "asan.h"
#include "ref.h"
#include "scen.h"
#include "streams.h"

#include <libunicode/capi.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/utf8.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>

#include <algorithm>
#include <memory>

namespace sim
{
namespace
{
    enum Kind : int { R_Normalizer, R_Utf8Normalizer, R_Width, R_Grapheme, R_Word, R_Scan, R_CHandle, R_Utf8State, R_Decoder, R_Emoji, R_Script, R_Kinds };
    constexpr char const* kindNames[] { "normalizer", "utf8_normalizer", "width_accumulator", "grapheme_state", "word_state", "scan_state", "c_stream_handle", "utf8_decoder_state", "decoder", "emoji_segmenter", "script_segmenter" };

    using Out = vector<u64>;

    struct Obj
    {
        virtual ~Obj() = default;
        virtual void reset() = 0;
        // bytes [from, to) of the stream, which lies at base
        virtual void feed(char const* base, size_t from, size_t to, u32string_view cps, i64 arg, Out& out) = 0;
    };

    void put(Out& out, u32string_view s)
    {
        out.push_back(s.size());
        out.insert(out.end(), s.begin(), s.end());
    }
    void put(Out& out, string_view s)
    {
        out.push_back(s.size());
        for (char c: s)
            out.push_back(static_cast<u8>(c));
    }

    constexpr unicode::Normalization_Form forms[] { unicode::Normalization_Form::NFC, unicode::Normalization_Form::NFD, unicode::Normalization_Form::NFKC, unicode::Normalization_Form::NFKD };

    struct ONormalizer final: Obj
    {
        unicode::normalizer n;
        explicit ONormalizer(i64 f): n { forms[f & 3] } {}
        void reset() override { n.reset(); }
        void feed(char const*, size_t, size_t, u32string_view cps, i64 arg, Out& out) override
        {
            for (auto c: cps)
                put(out, n.feed(c));
            if (arg % 5 == 0)
                put(out, n.flush());
        }
    };
    struct OUtf8Normalizer final: Obj
    {
        unicode::utf8_normalizer n;
        explicit OUtf8Normalizer(i64 f): n { forms[f & 3] } {}
        void reset() override { n.reset(); }
        void feed(char const* base, size_t from, size_t to, u32string_view, i64 arg, Out& out) override
        {
            put(out, n.feed(string_view(base + from, to - from)));
            if (arg % 5 == 0)
                put(out, n.flush());
        }
    };
    struct OWidth final: Obj
    {
        unicode::grapheme_cluster_width_accumulator a;
        void reset() override { a.reset(); }
        void feed(char const*, size_t, size_t, u32string_view cps, i64, Out& out) override
        {
            for (auto c: cps)
            {
                a.push(c);
                out.push_back(a.width());
            }
        }
    };
    struct OGrapheme final: Obj
    {
        unicode::grapheme_segmenter_state s {};
        bool first = true;
        void reset() override { first = true; } // the next codepoint initialises
        void feed(char const*, size_t, size_t, u32string_view cps, i64, Out& out) override
        {
            for (auto c: cps)
            {
                if (first)
                    unicode::grapheme_process_init(c, s);
                else
                    out.push_back(unicode::grapheme_process_breakable(c, s));
                first = false;
            }
        }
    };
    struct OWord final: Obj
    {
        unicode::word_segmenter_state s {};
        bool first = true;
        void reset() override { first = true; }
        void feed(char const*, size_t, size_t, u32string_view cps, i64, Out& out) override
        {
            for (size_t i = 0; i < cps.size(); ++i)
            {
                if (first)
                    unicode::word_process_init(cps[i], s);
                else
                    out.push_back(unicode::word_process_breakable(cps[i], cps.data() + i + 1, cps.size() - i - 1, s));
                first = false;
            }
        }
    };
    struct OScan final: Obj
    {
        unicode::scan_state s {};
        void reset() override { s = unicode::scan_state {}; }
        struct Recv final: unicode::grapheme_cluster_receiver
        {
            Out* out = nullptr;
            char const* base = nullptr;
            void receiveAsciiSequence(string_view t) noexcept override { add('A', t, 0); }
            void receiveGraphemeCluster(string_view t, size_t n) noexcept override { add('G', t, n); }
            void receiveInvalidGraphemeCluster() noexcept override { out->push_back('I'); }
            void add(u64 w, string_view t, size_t n) { out->insert(out->end(), { w, static_cast<u64>(t.data() - base), t.size(), n }); }
        };
        void feed(char const* base, size_t from, size_t to, u32string_view, i64 arg, Out& out) override
        {
            size_t pos = from;
            size_t const line = arg % 3 == 0 ? 1'000'000 : static_cast<size_t>(arg % 7 + 1);
            size_t budget = line;
            Recv r;
            r.out = &out;
            r.base = base;
            for (size_t k = 0; k < 16 * (to - from) + 64; ++k)
            {
                auto const x = unicode::scan_text(s, string_view(base + pos, to - pos), budget, r);
                out.insert(out.end(), { x.count, static_cast<u64>(x.start - base), static_cast<u64>(x.end - base), static_cast<u64>(s.next - base) });
                auto const next = static_cast<size_t>(s.next - base);
                auto const old = pos;
                pos = next;
                if (pos >= to)
                    return;
                auto const b = static_cast<u8>(base[pos]);
                if (x.count < budget && (b < 0x20 || (b >= 0x80 && b < 0xA0)))
                {
                    s.next = base + ++pos;
                    budget = line;
                }
                else // wrap, onto a wider line if this one is too narrow for the next cluster
                    budget = pos == old && x.count == 0 ? budget * 2 : line;
                if (pos >= to)
                    return;
            }
        }
    };
    struct OCHandle final: Obj
    {
        u8u32_stream_state_t h = u8u32_stream_convert_create();
        ~OCHandle() override { u8u32_stream_convert_destroy(&h); }
        void reset() override
        {
            u8u32_stream_convert_destroy(&h);
            h = u8u32_stream_convert_create();
        }
        void feed(char const* base, size_t from, size_t to, u32string_view, i64, Out& out) override
        {
            for (size_t i = from; i < to; ++i)
            {
                u32_char_t o = 0xABCDEF;
                out.push_back(static_cast<u64>(u8u32_stream_convert_run(h, base[i], &o)));
                out.push_back(o);
            }
        }
    };
    struct OUtf8State final: Obj
    {
        unicode::utf8_decoder_state s {};
        void reset() override { s = {}; }
        void feed(char const* base, size_t from, size_t to, u32string_view, i64, Out& out) override
        {
            for (size_t i = from; i < to; ++i)
                out.push_back(unicode::from_utf8i(s, static_cast<u8>(base[i])));
        }
    };
    struct ODecoder final: Obj
    {
        unicode::decoder<char> s {};
        void reset() override { s = {}; }
        void feed(char const* base, size_t from, size_t to, u32string_view, i64, Out& out) override
        {
            for (size_t i = from; i < to; ++i)
                out.push_back(s(static_cast<u8>(base[i])).value_or(0xFFFFFFFF));
        }
    };
    // Segmenters are re-initialised by assigning a new one; a text is a delivery, abandoned half way.
    template <typename Segmenter, typename Property>
    struct OSegmenter final: Obj
    {
        Segmenter s {};
        void reset() override { s = Segmenter {}; }
        void feed(char const*, size_t, size_t, u32string_view cps, i64 arg, Out& out) override
        {
            auto const text = std::make_shared<u32string>(cps);
            texts.push_back(text);
            s = Segmenter { text->data(), text->size() };
            for (size_t k = 0; k < 2 + static_cast<size_t>(arg % 16) && k <= cps.size(); ++k)
            {
                size_t end = 7777;
                Property p {};
                out.push_back(s.consume(unicode::out<size_t>(end), unicode::out<Property>(p)));
                out.push_back(end);
                out.push_back(static_cast<u64>(p));
            }
        }
        vector<std::shared_ptr<u32string>> texts;
    };

    std::unique_ptr<Obj> makeObj(int kind, i64 form)
    {
        switch (kind)
        {
            case R_Normalizer: return std::make_unique<ONormalizer>(form);
            case R_Utf8Normalizer: return std::make_unique<OUtf8Normalizer>(form);
            case R_Width: return std::make_unique<OWidth>();
            case R_Grapheme: return std::make_unique<OGrapheme>();
            case R_Word: return std::make_unique<OWord>();
            case R_Scan: return std::make_unique<OScan>();
            case R_CHandle: return std::make_unique<OCHandle>();
            case R_Utf8State: return std::make_unique<OUtf8State>();
            case R_Decoder: return std::make_unique<ODecoder>();
            case R_Emoji: return std::make_unique<OSegmenter<unicode::emoji_segmenter, unicode::PresentationStyle>>();
            default: return std::make_unique<OSegmenter<unicode::script_segmenter, unicode::Script>>();
        }
    }

    void run(Plan const& plan, Ctx& ctx)
    {
        auto const w = buildWire(plan, ctx.st);
        auto const n = w.got.size();
        struct Pair
        {
            int kind = 0;
            i64 form = 0;
            std::unique_ptr<Obj> old, fresh;
            std::unique_ptr<RecvBuffer> buf;
            unsigned resets = 0;
        };
        vector<Pair> ps(n);
        for (size_t i = 0; i < n; ++i)
        {
            ps[i].kind = static_cast<int>(plan.get(("kind" + std::to_string(i)).c_str()) % R_Kinds);
            ps[i].form = plan.get(("form" + std::to_string(i)).c_str());
            ps[i].old = makeObj(ps[i].kind, ps[i].form);
            ps[i].fresh = makeObj(ps[i].kind, ps[i].form);
            ps[i].buf = std::make_unique<RecvBuffer>(w.got[i].size());
        }
        auto const feed = [&](size_t i, size_t bytes, i64 arg) {
            auto& p = ps[i];
            auto const from = p.buf->delivered;
            bytes = std::min(bytes, w.got[i].size() - from);
            p.buf->deliver(w.got[i].data(), bytes);
            u32string cps;
            for (auto const& u: ref::decodeUtf8(string_view(w.got[i]).substr(from, bytes)))
                if (u.good)
                    cps += static_cast<char32_t>(u.cp);
            Out a, b;
            p.old->feed(p.buf->data, from, from + bytes, cps, arg, a);
            p.fresh->feed(p.buf->data, from, from + bytes, cps, arg, b);
            for (auto x: a)
                ctx.log.num(x);
            if (a != b)
            {
                size_t k = 0;
                while (k < a.size() && k < b.size() && a[k] == b[k])
                    ++k;
                ctx.violate(string("reset-") + kindNames[p.kind], "stream " + std::to_string(i) + " after " + std::to_string(p.resets) + " resets, result " + std::to_string(k) + ": " + (k < a.size() ? std::to_string(a[k]) : "none") + ", a new object gives " + (k < b.size() ? std::to_string(b[k]) : "none") + " for " + show(string_view(w.got[i]).substr(from, bytes)));
                return false;
            }
            return true;
        };
        for (auto const& e: timeline(plan, ctx.st))
        {
            auto const i = static_cast<size_t>(e.op->a[0]) % n;
            auto& p = ps[i];
            if (e.op->kind == K_DELIVER && e.op->a.size() >= 4)
            {
                if (!feed(i, static_cast<size_t>(std::max<i64>(0, e.op->a[2])), e.op->a[3]))
                    return;
            }
            else if (e.op->kind == K_RESET)
            {
                p.old->reset();
                p.fresh = makeObj(p.kind, p.form);
                ++p.resets;
                ctx.st.hit("resets");
                auto const at = p.buf->delivered;
                string_view const s = w.got[i];
                if (at && at < s.size() && static_cast<u8>(s[at]) >= 0x80)
                {
                    ctx.nontrivial = true;
                    ctx.st.hit((static_cast<u8>(s[at]) & 0xC0) == 0x80 ? "reset_inside_character" : "reset_between_characters");
                    u64 h = static_cast<u64>(p.kind);
                    for (size_t k = at > 3 ? at - 3 : 0; k < std::min(at + 3, s.size()); ++k)
                        h = mix(h, static_cast<u8>(s[k]) >> 2);
                    ctx.st.state(h);
                }
            }
        }
        for (size_t i = 0; i < n; ++i)
            if (!feed(i, ~size_t { 0 } >> 1, 1))
                return;
    }

    void init() { text::init(); }

    Plan gen(Rng& r, int tier)
    {
        Plan p;
        StreamGen g;
        g.longest = 8000;
        g.plainLong = true;
        g.minStreams = 2;
        g.maxStreams = 4;
        g.damage = 30;
        g.rawNoise = 10;
        g.controls = 5;
        g.tokens = tier && r.chance(10) ? 40 : 9;
        auto const n = genStreams(r, p, g);
        for (int i = 0; i < n; ++i)
        {
            p.cfg["kind" + std::to_string(i)] = static_cast<i64>(r.below(R_Kinds));
            p.cfg["form" + std::to_string(i)] = static_cast<i64>(r.below(4));
        }
        genDeliveries(r, p, n, [](Rng& q, Op& o) { o.a.push_back(static_cast<i64>(q.below(1000))); });
        auto const rate = 5 + static_cast<unsigned>(r.below(40));
        vector<Op> out;
        for (auto& o: p.ops)
        {
            auto const s = o.kind >= ScheduledFrom ? o.a[0] : -1;
            out.push_back(std::move(o));
            if (s >= 0 && r.chance(rate))
                out.push_back({ K_RESET, { s, static_cast<i64>(r.skewed(1000)) }, {} });
        }
        p.ops = std::move(out);
        return p;
    }
} // namespace

void addReset(vector<Scenario>& v)
{
    v.push_back({ "C08", gen, run, init, "a run is 2-4 interleaved objects (11 kinds) fed seeded deliveries, reset at seeded moments and compared from then on with an object made new at that moment; non-trivial: a reset fell inside a character or before a non-ASCII character" });
}
} // namespace sim
