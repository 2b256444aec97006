// C23: streams of any length on small machines: bounded memory, and nothing is held back longer than it has to be.
#include "ref.h"
#include "scen.h"
#include "streams.h"

#include <libunicode/capi.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/scan.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>

#include <algorithm>
#include <malloc.h>
#include <memory>
#include <new>

// The machine's memory: what library calls allocate is counted, and refused beyond the machine's size or while
// other programs have taken the rest.
namespace
{
struct Memory
{
    bool inLibrary = false;
    long used = 0, peak = 0;
    long limit = 1L << 40;
    bool shortage = false;
    unsigned refused = 0; // by a shortage
    bool exhausted = false;
    bool quiet = false; // refusals are final for calls that cannot report them, so there are none

    bool grant(std::size_t n)
    {
        if (!inLibrary)
            return true;
        if (quiet)
        {
            exhausted = exhausted || used + static_cast<long>(n) > limit;
            return true;
        }
        if (shortage)
        {
            ++refused;
            return false;
        }
        if (used + static_cast<long>(n) > limit)
        {
            exhausted = true;
            return false;
        }
        return true;
    }
} memory;

void* take(std::size_t n, std::size_t align)
{
    if (!memory.grant(n))
        return nullptr;
    void* const p = align > alignof(std::max_align_t) ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (p && memory.inLibrary)
    {
        memory.used += static_cast<long>(malloc_usable_size(p));
        memory.peak = std::max(memory.peak, memory.used);
    }
    return p;
}
void* takeOrThrow(std::size_t n, std::size_t align)
{
    if (void* const p = take(n, align))
        return p;
    throw std::bad_alloc {};
}
void give(void* p)
{
    if (p && memory.inLibrary)
        memory.used -= static_cast<long>(malloc_usable_size(p));
    std::free(p);
}
} // namespace
void* operator new(std::size_t n) { return takeOrThrow(n, 1); }
void* operator new[](std::size_t n) { return takeOrThrow(n, 1); }
void* operator new(std::size_t n, std::align_val_t a) { return takeOrThrow(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return takeOrThrow(n, static_cast<std::size_t>(a)); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return take(n, 1); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return take(n, 1); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { give(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { give(p); }

namespace sim
{
namespace
{
    enum : int { K_FLUSH = 12, K_RENEW = 13, K_SHORTAGE = 14 };
    using unicode::Normalization_Form;
    constexpr Normalization_Form forms[] { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
    constexpr ref::Form refForms[] { ref::NFC, ref::NFD, ref::NFKC, ref::NFKD };
    constexpr char const* formNames[] { "NFC", "NFD", "NFKC", "NFKD" };

    struct InLibrary
    {
        explicit InLibrary(bool quiet = false)
        {
            memory.inLibrary = true;
            memory.quiet = quiet;
        }
        ~InLibrary() { memory.inLibrary = memory.quiet = false; }
    };

    size_t expanded(u32 c)
    {
        if (c >= 0xAC00 && c < 0xD7A4)
            return 3;
        auto const& m = ref::ucd().fullCompat;
        auto const it = m.find(c);
        return it == m.end() ? 1 : std::max<size_t>(1, it->second.size());
    }

    // UAX #15, section 9: no text before such a codepoint interacts with it or with what follows.
    bool safeBoundary(u32 c, int form)
    {
        if (c >= 0x110000 || (c >= 0xD800 && c < 0xE000) || ref::ccc(c))
            return false;
        auto const q = ref::ucd().quick[c];
        switch (form)
        {
            case 0: return !(q & 3);
            case 2: return !(q & 12);
            default: {
                auto const& m = form == 1 ? ref::ucd().fullCanon : ref::ucd().fullCompat;
                auto const it = m.find(c);
                return it == m.end() || it->second.empty() || !ref::ccc(it->second[0]);
            }
        }
    }

    enum Kind { Wide, Bytes, Pipeline, Kinds };

    struct Channel
    {
        int kind = 0, form = 0;
        std::unique_ptr<unicode::normalizer> n;
        std::unique_ptr<unicode::utf8_normalizer> u;
        u8u32_stream_state_t h = nullptr;
        unicode::grapheme_segmenter_state graphemes {};
        unicode::word_segmenter_state words {};
        unicode::grapheme_cluster_width_accumulator width {};
        unicode::scan_state scan {};
        bool first = true;

        size_t pos = 0;          // fed, in units of the channel
        size_t partFrom = 0;     // since the object was new or flushed
        size_t boundary = 0;     // the last safe boundary of the part
        size_t due = 0;          // what must have come out: the normalization of [partFrom, boundary)
        size_t came = 0;         // units that have come out
        size_t stretch = 16;     // longest it had to hold, expanded
        size_t held = 0;         // what it holds now, expanded
    };

    void run(Plan const& plan, Ctx& ctx)
    {
        auto const w = buildWire(plan, ctx.st);
        auto const n = w.got.size();
        struct Text
        {
            string bytes;
            u32string cps;          // of the units
            vector<size_t> end;     // of the units in bytes
            vector<size_t> known;   // number of bytes that tell what the unit is
            };
        vector<Text> text(n);
        for (size_t i = 0; i < n; ++i)
        {
            text[i].bytes = w.got[i];
            for (auto const& u: ref::decodeUtf8(w.got[i]))
            {
                text[i].cps += static_cast<char32_t>(u.good ? u.cp : 0xFFFD);
                text[i].end.push_back(u.at + u.len);
                // that a sequence goes no further is known from the byte behind it
                text[i].known.push_back(u.at + u.len + !u.good);
            }
        }
        memory = {};
        vector<Channel> ch(n);
        auto const open = [&](Channel& c) {
            {
                InLibrary const in { true };
                c.n.reset();
                c.u.reset();
                if (c.h)
                    u8u32_stream_convert_destroy(&c.h);
                c.h = nullptr;
                if (c.kind == Wide)
                    c.n = std::make_unique<unicode::normalizer>(forms[c.form]);
                else if (c.kind == Bytes)
                    c.u = std::make_unique<unicode::utf8_normalizer>(forms[c.form]);
                else
                    c.h = u8u32_stream_convert_create();
            }
            c.graphemes = {};
            c.words = {};
            c.width.reset();
            c.scan = {};
            c.first = true;
            c.partFrom = c.boundary = c.pos;
            c.due = c.came = c.held = 0; // not the stretch: buffers may be kept for the next object
        };
        // What the library sets up once for all, it may keep.
        {
            static constexpr char32_t sample[] { U'A', 0x30A, 0xC5, 0x1E9B, 0x323, 0xAC00, 0x1100, 0x1161, 0x11A8, 0xFDFA, 0x0F73, 0x0F71, 0x4E00, 0x1F1E6, 0x1F1E6, 0xFB01, 0x1F600, 0xFE0F, U'a', 0 };
            for (int f = 0; f < 4; ++f)
            {
                unicode::normalizer a { forms[f] };
                unicode::utf8_normalizer b { forms[f] };
                for (auto const* p = sample; *p; ++p)
                    (void) a.feed(*p), (void) b.feed(ref::encode(static_cast<u32>(*p)));
                (void) a.flush(), (void) b.flush();
            }
        }
        for (size_t i = 0; i < n; ++i)
        {
            ch[i].kind = static_cast<int>(plan.get(("kind" + std::to_string(i)).c_str()) % Kinds);
            ch[i].form = static_cast<int>(plan.get(("form" + std::to_string(i)).c_str()) & 3);
            open(ch[i]);
        }
        auto const what = [&](size_t i) { return string("stream ") + std::to_string(i) + " (" + (ch[i].kind == Wide ? "normalizer " : ch[i].kind == Bytes ? "utf8_normalizer " : "decoder and segmenters ") + (ch[i].kind == Pipeline ? "" : formNames[ch[i].form]) + ")"; };
        auto const machine = [&] {
            long sum = 48 * 1024;
            for (auto const& c: ch)
                sum += 128 * static_cast<long>(c.stretch);
            memory.limit = sum;
        };
        auto const exhausted = [&](size_t i) {
            if (!memory.exhausted && memory.used <= memory.limit)
                return false;
            ctx.violate("memory-grows", what(i) + ": after " + std::to_string(ch[i].pos - ch[i].partFrom) + " codepoints or bytes the machine's " + std::to_string(memory.limit) + " bytes are used up, though no more than " + std::to_string(ch[i].stretch) + " codepoints had to be held");
            return true;
        };
        u64 fed = 0;

        // The codepoints [from, to) of the channel's text are now known to it.
        auto const account = [&](Channel& c, Text const& t, size_t from, size_t to) {
            for (size_t k = from; k < to; ++k)
            {
                if (k > c.boundary && safeBoundary(static_cast<u32>(t.cps[k]), c.form))
                {
                    auto const out = ref::normalize(u32string_view(t.cps).substr(c.boundary, k - c.boundary), refForms[c.form]);
                    c.due += c.kind == Wide ? out.size() : ref::encode(out).size();
                    c.boundary = k;
                }
            }
        };
        auto const measure = [&](Channel& c, Text const& t, size_t from, size_t to) {
            size_t here = 0;
            for (size_t k = from; k < to; ++k)
                here += expanded(static_cast<u32>(t.cps[k]));
            c.stretch = std::max(c.stretch, c.held + here + 4);
            machine();
        };
        auto const settle = [&](Channel& c, Text const& t, size_t from, size_t to) {
            for (size_t k = from; k < to; ++k)
                c.held = (k == c.boundary ? 0 : k < c.boundary ? 0 : c.held) + expanded(static_cast<u32>(t.cps[k]));
        };
        auto const late = [&](size_t i) {
            auto const& c = ch[i];
            if (c.came >= c.due)
                return false;
            ctx.violate("held-back", what(i) + ": " + std::to_string(c.came) + " units have come out where " + std::to_string(c.due) + " are complete, after " + show(u32string_view(text[i].cps).substr(c.boundary > 8 ? c.boundary - 8 : 0, 12)));
            return true;
        };

        // A call that lacks memory is repeated until the shortage is over.
        auto const patient = [&](auto&& call) {
            for (int tries = 0;; ++tries)
                try
                {
                    InLibrary const in;
                    return call();
                }
                catch (std::bad_alloc const&)
                {
                    memory.inLibrary = false;
                    if (memory.exhausted || !memory.shortage)
                        throw;
                    ctx.st.hit("fault_out_of_memory_for_a_while");
                    ctx.nontrivial = true;
                    if (tries == 2)
                        memory.shortage = false;
                }
        };

        vector<size_t> unit(n); // codepoints the channel has seen completely
        auto const feed = [&](size_t i, size_t amount) -> bool {
            auto& c = ch[i];
            auto const& t = text[i];
            if (c.kind == Wide)
            {
                amount = std::min(amount, t.cps.size() - c.pos);
                for (size_t k = 0; k < amount; ++k)
                {
                    measure(c, t, c.pos, c.pos + 1);
                    try
                    {
                        c.came += patient([&] { return c.n->feed(t.cps[c.pos]); }).size();
                    }
                    catch (std::bad_alloc const&)
                    {
                    }
                    if (exhausted(i))
                        return false;
                    account(c, t, c.pos, c.pos + 1);
                    settle(c, t, c.pos, c.pos + 1);
                    ++c.pos;
                    ++fed;
                    if (late(i))
                        return false;
                }
                unit[i] = c.pos;
                ctx.log.num(c.came);
                return true;
            }
            amount = std::min(amount, t.bytes.size() - c.pos);
            size_t const to = c.pos + amount;
            size_t known = unit[i];
            while (known < t.end.size() && t.known[known] <= to)
                ++known;
            measure(c, t, unit[i], std::min(known + 1, t.cps.size()));
            auto const chunk = std::make_unique<char[]>(amount);
            std::copy_n(t.bytes.data() + c.pos, amount, chunk.get());
            if (c.kind == Bytes)
            {
                bool lost = false;
                try
                {
                    InLibrary const in;
                    c.came += c.u->feed(string_view(chunk.get(), amount)).size();
                }
                catch (std::bad_alloc const&)
                {
                    lost = true;
                }
                if (exhausted(i))
                    return false;
                c.pos = to;
                if (lost)
                {
                    // The caller gives this text up and starts over behind the character it is in.
                    ctx.st.hit("fault_out_of_memory_for_a_while");
                    ctx.nontrivial = true;
                    {
                        InLibrary const in;
                        c.u->reset();
                    }
                    while (known < t.end.size() && t.end[known] <= to)
                        ++known;
                    if (known < t.end.size() && (known ? t.end[known - 1] : 0) < to)
                        c.pos = t.end[known++];
                    memory.shortage = false;
                    c.due = c.came = c.held = 0;
                    c.boundary = c.partFrom = known;
                }
                else
                {
                    account(c, t, unit[i], known);
                    settle(c, t, unit[i], known);
                }
                unit[i] = known;
                ctx.log.num(c.came);
                ++fed;
                return !late(i);
            }
            // Decoder, segmentation, width and terminal scanner: they keep the same few bytes whatever passes.
            {
                InLibrary const in { true };
                u32_char_t cp = 0;
                for (size_t k = 0; k < amount; ++k)
                    if (u8u32_stream_convert_run(c.h, chunk[k], &cp) > 0)
                    {
                        ++c.came;
                        bool const starts = c.first || unicode::grapheme_process_breakable(cp, c.graphemes);
                        if (c.first)
                        {
                            unicode::grapheme_process_init(cp, c.graphemes);
                            unicode::word_process_init(cp, c.words);
                        }
                        else
                            unicode::word_process_breakable(cp, nullptr, 0, c.words);
                        if (starts)
                            c.width.reset();
                        c.width.push(cp);
                        c.first = false;
                    }
                // the terminal reads into one buffer, so that chunks are adjacent
                for (size_t k = c.pos; k < to;)
                {
                    c.scan.next = nullptr;
                    auto const r = unicode::scan_text(c.scan, string_view(t.bytes).substr(k, to - k), 80);
                    (void) r;
                    auto const next = static_cast<size_t>(c.scan.next - t.bytes.data());
                    k = next > k ? next : k + 1;
                }
            }
            c.pos = to;
            unit[i] = known;
            ctx.log.num(c.came);
            ++fed;
            return !exhausted(i);
        };
        auto const flush = [&](size_t i) -> bool {
            auto& c = ch[i];
            auto const& t = text[i];
            if (c.kind == Pipeline)
                return true;
            c.stretch += 4;
            machine();
            size_t got = 0;
            try
            {
                if (c.kind == Wide)
                    got = patient([&] { return c.n->flush(); }).size();
                else
                {
                    memory.shortage = false;
                    InLibrary const in;
                    got = c.u->flush().size();
                }
            }
            catch (std::bad_alloc const&)
            {
            }
            if (exhausted(i))
                return false;
            c.came += got;
            // now all of the part is out
            size_t last = unit[i];
            u32string rest { u32string_view(t.cps).substr(c.boundary, last - c.boundary) };
            if (c.kind == Bytes && (last ? t.end[last - 1] : 0) < c.pos)
            {
                rest += char32_t { 0xFFFD }; // the incomplete character
                ctx.st.hit("flush_inside_character");
                // its remaining bytes would be ill-formed on their own: the stream goes on behind them
                c.pos = t.end[last];
                unit[i] = ++last;
            }
            auto const out = ref::normalize(rest, refForms[c.form]);
            c.due += c.kind == Wide ? out.size() : ref::encode(out).size();
            if (late(i))
                return false;
            c.due = c.came = c.held = 0;
            c.boundary = c.partFrom = last;
            ctx.st.hit("flushes");
            return true;
        };

        for (auto const& e: timeline(plan, ctx.st))
        {
            auto const i = static_cast<size_t>(e.op->a[0]) % n;
            auto& c = ch[i];
            switch (e.op->kind)
            {
                case K_DELIVER:
                    if (e.op->a.size() >= 3 && !feed(i, static_cast<size_t>(std::clamp<i64>(e.op->a[2], 0, 400))))
                        return;
                    break;
                case K_FLUSH:
                    if (!flush(i))
                        return;
                    break;
                case K_RENEW: // the connection breaks, another one takes its place at the next character
                    if (c.kind != Wide)
                    {
                        while (unit[i] < text[i].end.size() && (unit[i] ? text[i].end[unit[i] - 1] : 0) < c.pos)
                            ++unit[i];
                        c.pos = unit[i] ? text[i].end[unit[i] - 1] : 0;
                    }
                    open(c);
                    c.boundary = c.partFrom = unit[i];
                    ctx.st.hit("fault_connection_lost");
                    break;
                case K_SHORTAGE:
                    memory.shortage = true;
                    ctx.st.hit("shortages");
                    break;
                default: break;
            }
            ctx.st.state(mix(static_cast<u64>(c.kind * 4 + c.form), mix(std::min<size_t>(c.held, 40), mix(memory.shortage, static_cast<u64>(__builtin_clzll(c.pos - std::min(c.pos, c.partFrom) + 1))))));
        }
        for (size_t i = 0; i < n; ++i)
        {
            auto const step = static_cast<size_t>(std::clamp<i64>(plan.get(("chunk" + std::to_string(i)).c_str(), 64), 1, 400));
            auto const size = ch[i].kind == Wide ? text[i].cps.size() : text[i].bytes.size();
            if (size > 20'000)
            {
                ctx.st.hit("long_streams");
                ctx.nontrivial = true;
            }
            while (ch[i].pos < size)
                if (!feed(i, step))
                    return;
        }
        memory.shortage = false;
        // Iterating over what has been received takes the memory of one cluster.
        for (size_t i = 0; i < n; ++i)
            if (ch[i].kind == Pipeline)
            {
                auto const breaks = ref::graphemeBreaks(text[i].cps);
                size_t longest = 0;
                for (size_t k = 0, from = 0; k < breaks.size(); ++k)
                    if (breaks[k])
                        longest = std::max(longest, k - from), from = k;
                ch[i].stretch = std::max(ch[i].stretch, longest + 16);
                machine();
                size_t clusters = 0;
                {
                    InLibrary const in { true };
                    for (auto const& cluster: unicode::utf8_grapheme_segmenter(string_view(text[i].bytes)))
                        clusters += !cluster.empty();
                }
                ctx.log.num(clusters);
                if (exhausted(i))
                    return;
            }
        for (size_t i = 0; i < n; ++i)
        {
            auto const partial = ch[i].due;
            if (!flush(i))
                return;
            if (partial)
                ctx.nontrivial = true;
        }
        ctx.log.num(static_cast<u64>(memory.used > 0 ? 1 : 0));
        ctx.st.hit("calls", fed);
        // Everything the objects held comes back when they go.
        for (auto& c: ch)
        {
            InLibrary const in { true };
            c.n.reset();
            c.u.reset();
            if (c.h)
                u8u32_stream_convert_destroy(&c.h);
        }
    }

    void init() { text::init(); }

    Plan gen(Rng& r, int tier)
    {
        using namespace text;
        Plan p;
        StreamGen g;
        g.longest = 0;
        g.maxStreams = 4;
        g.themes = r.chance(70) ? 1u << Latin | 1u << Indic | 1u << Hangul | 1u << Marks | 1u << Decomp | 1u << Odd | 1u << Ascii | 1u << Cjk : ~0u;
        g.damage = 40;
        g.rawNoise = 10;
        g.controls = 3;
        g.tokens = tier && r.chance(10) ? 60 : 12;
        auto const n = genStreams(r, p, g);
        for (int i = 0; i < n; ++i)
        {
            auto const s = std::to_string(i);
            p.cfg["kind" + s] = static_cast<i64>(r.chance(85) ? r.below(2) : 2);
            p.cfg["form" + s] = static_cast<i64>(r.below(4));
            p.cfg["chunk" + s] = static_cast<i64>(r.chance(50) ? 1 + r.below(16) : 1 + r.below(256));
        }
        // A line that is open for a long time.
        if (r.chance(4))
        {
            vector<Op*> texts;
            for (auto& o: p.ops)
                if (o.kind == K_TEXT)
                    texts.push_back(&o);
            auto& o = *texts[r.below(texts.size())];
            if (r.chance(70) || o.b.empty())
                o.b += static_cast<char>('a' + r.below(26));
            bool rests = false; // somewhere in it text may be given out
            for (auto const& u: ref::decodeUtf8(o.b))
                rests |= u.good && safeBoundary(u.cp, 0) && safeBoundary(u.cp, 1) && safeBoundary(u.cp, 2) && safeBoundary(u.cp, 3);
            if (!rests)
                o.b += 'a';
            auto const total = 60'000 + r.below(tier ? 600'000 : 160'000);
            o.a.resize(1);
            o.a.push_back(static_cast<i64>(1 + total / o.b.size()));
        }
        auto const events = 5 + r.below(60);
        vector<unsigned> mode(static_cast<size_t>(n));
        for (auto& m: mode)
            m = static_cast<unsigned>(r.below(3));
        auto const faults = r.chance(60);
        for (u64 k = 0; k < events; ++k)
        {
            auto const s = r.range(0, n - 1);
            auto const delay = static_cast<i64>(r.skewed(20000));
            auto const m = mode[static_cast<size_t>(s)];
            if (faults && r.chance(6))
                p.ops.push_back({ K_SHORTAGE, { s, delay }, {} });
            else if (r.chance(5))
                p.ops.push_back({ K_FLUSH, { s, delay }, {} });
            else if (faults && r.chance(4))
                p.ops.push_back({ K_RENEW, { s, delay }, {} });
            else
                p.ops.push_back({ K_DELIVER, { s, delay, static_cast<i64>(m == 0 ? 1 : m == 1 ? 1 + r.below(8) : r.below(200)) }, {} });
        }
        return p;
    }
} // namespace

void addStream(vector<Scenario>& v)
{
    v.push_back({ "C23", gen, run, init, "a run is 1-4 interleaved streams through normalizers, UTF-8 normalizers or a pipeline of decoder, segmenters, width accumulator and terminal scanner, on a machine whose memory is a constant plus a multiple of what has to be held; 4% of runs keep a line open for more than 60,000 bytes; memory shortages, lost connections, flushes and transmission damage at seeded points; non-trivial: output became due before the end, a shortage or a long stream" });
}
} // namespace sim
