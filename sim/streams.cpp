#include "streams.h"

#include "ref.h"

#include <algorithm>

namespace sim
{

namespace
{
    // The edges of the encoding: surrogates, values beyond U+10FFFF, limits of each length, overlong forms.
    string oddSequence(Rng& r)
    {
        static constexpr std::array<u32, 20> edges { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0xFFFFF, 0x100000, 0x10FFFF, 0x110000, 0x1FFFFF };
        auto const c = r.chance(70) ? r.pick(edges) : static_cast<u32>(r.below(0x200000));
        auto const least = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
        auto const len = r.chance(70) ? std::max(2, least) : static_cast<int>(r.range(std::max(2, least), 4));
        string s(1, static_cast<char>((0xF0 << (4 - len)) | (c >> (6 * (len - 1)))));
        for (int k = len - 2; k >= 0; --k)
            s += static_cast<char>(0x80 | ((c >> (6 * k)) & 0x3F));
        return s;
    }
} // namespace

int genStreams(Rng& r, Plan& plan, StreamGen const& g)
{
    int const n = static_cast<int>(r.range(g.minStreams, r.chance(50) ? g.minStreams : g.maxStreams));
    plan.cfg["streams"] = n;
    auto const themes = text::pickThemes(r, g.themes);
    size_t const first = plan.ops.size();
    bool const damage = r.chance(g.damage);
    unsigned const ctl = r.chance(70) ? g.controls : r.chance(50) ? 0 : g.controls * 3;
    for (int s = 0; s < n; ++s)
    {
        size_t const tokens = 1 + (r.chance(85) ? r.below(g.tokens) : r.below(g.tokens * 4));
        for (size_t t = 0; t < tokens; ++t)
        {
            Op o { K_TEXT, { s }, {} };
            if (r.chance(ctl))
            {
                u32 const c = r.chance(50) ? "\r\n\t\x1b\b\0"[r.below(6)] : static_cast<u32>(r.below(0x20));
                // a raw C1 byte is a control of its own, the codepoint U+0080..9F is text
                if (g.controls && r.chance(20))
                    o.b = string(1, static_cast<char>(0x80 + r.below(0x20)));
                else
                    o.b = string(1, static_cast<char>(c));
            }
            else if (damage && r.chance(g.rawNoise) && r.chance(25))
                o.b = oddSequence(r);
            else if (damage && r.chance(g.rawNoise))
                for (auto k = 1 + r.below(4); k--;)
                    o.b += static_cast<char>(r.chance(50) ? r.range(0x80, 0xFF) : r.range(0xC0, 0xF7));
            else
                o.b = ref::encode(text::piece(r, themes));
            plan.ops.push_back(std::move(o));
        }
    }
    // A long stream: one token comes many times over, beyond the range of small counters.
    if (g.longest && r.chance(2))
    {
        auto& o = plan.ops[first + r.below(plan.ops.size() - first)];
        size_t total = 100 + r.below(2000);
        if (!r.chance(95))
        {
            total = g.longest / 8 + r.below(g.longest);
            if (g.plainLong && r.chance(60))
            {
                // One mark (mostly), more often than 8 or 16 bits count, and then others that may have to go before it.
                auto const units = ref::decodeUtf8(r.chance(70) ? ref::encode(text::piece(r, 1u << text::Marks)) : o.b);
                auto const& u = units[r.below(units.size())];
                if (u.good)
                    o.b = ref::encode(u32string(1, static_cast<char32_t>(u.cp)));
                total = (r.chance(50) ? 66'000 : r.skewed(20'000)) * o.b.size();
                // What decomposes into marks that change places takes quadratic time to sort.
                if (auto const d = u.good ? ref::ucd().fullCompat.find(u.cp) : ref::ucd().fullCompat.end(); d != ref::ucd().fullCompat.end() && d->second.size() > 1)
                    total = std::min<size_t>(total, 3000 * o.b.size());
                Op more { K_TEXT, { o.a[0] }, ref::encode(text::piece(r, 1u << text::Marks)) };
                auto const at = static_cast<size_t>(&o - plan.ops.data());
                o.a.push_back(static_cast<i64>(1 + total / std::max<size_t>(1, o.b.size())));
                plan.ops.insert(plan.ops.begin() + static_cast<long>(at) + 1, std::move(more));
                total = 0;
            }
        }
        if (total)
            o.a.push_back(static_cast<i64>(1 + total / std::max<size_t>(1, o.b.size())));
    }
    if (damage)
    {
        unsigned kinds = 0;
        for (auto k = 1 + r.below(3); k--;)
            kinds |= 1u << r.below(DamageKinds);
        auto const count = 1 + r.below(r.chance(80) ? 4 : 16);
        for (u64 i = 0; i < count; ++i)
        {
            int k = 0;
            do
                k = static_cast<int>(r.below(DamageKinds));
            while (!(kinds >> k & 1));
            if (k == D_TRUNCATE && r.chance(60))
                k = D_DROP;
            plan.ops.push_back({ K_FAULT, { r.range(0, n - 1), k, static_cast<i64>(r.below(100000)), static_cast<i64>(r.chance(70) ? 1 : 1 + r.below(6)), static_cast<i64>(r.below(256)), r.chance(70) ? 1 : 0 }, {} });
        }
    }
    return n;
}

void genDeliveries(Rng& r, Plan& plan, int streams, std::function<void(Rng&, Op&)> const& extra)
{
    vector<size_t> size(static_cast<size_t>(streams));
    for (auto const& o: plan.ops)
        if (o.kind == K_TEXT)
            size[static_cast<size_t>(o.a[0])] += o.b.size() * static_cast<size_t>(o.a.size() > 1 ? o.a[1] : 1);
    // Where a sender may flush: between pieces, and where ASCII begins or ends. Fast paths look at whole chunks.
    vector<vector<size_t>> joints(static_cast<size_t>(streams));
    {
        vector<size_t> at(joints.size());
        for (auto const& o: plan.ops)
            if (o.kind == K_TEXT)
            {
                auto const s = static_cast<size_t>(o.a[0]);
                for (size_t k = 1; k < o.b.size() && at[s] < 2000; ++k)
                    if ((static_cast<u8>(o.b[k]) < 0x80) != (static_cast<u8>(o.b[k - 1]) < 0x80))
                        joints[s].push_back(at[s] + k);
                at[s] += o.b.size() * static_cast<size_t>(o.a.size() > 1 ? o.a[1] : 1);
                joints[s].push_back(at[s]);
            }
    }
    for (int s = 0; s < streams; ++s)
    {
        // a line's character: bytewise, small packets, whole reads, bursts, or flushed at joints
        auto const mode = r.below(5);
        auto const& joint = joints[static_cast<size_t>(s)];
        size_t nextJoint = 0;
        bool const isLong = size[static_cast<size_t>(s)] > 2000;
        size_t left = size[static_cast<size_t>(s)];
        while (left)
        {
            size_t n = 1;
            switch (mode)
            {
                case 0: n = r.chance(90) ? 1 : r.below(3); break;
                case 1: n = r.below(6); break;
                case 2: n = 1 + r.below(80); break;
                case 4: {
                    auto const at = size[static_cast<size_t>(s)] - left;
                    while (nextJoint < joint.size() && joint[nextJoint] <= at)
                        ++nextJoint;
                    auto const k = nextJoint + (r.chance(80) ? 0 : r.below(4));
                    n = r.chance(90) && k < joint.size() ? joint[k] - at : r.skewed(64);
                    break;
                }
                default: n = r.skewed(64); break;
            }
            if (isLong && r.chance(30))
                n = r.below(left * 2);
            if (n > left)
                n = left;
            Op o { K_DELIVER, { s, static_cast<i64>(r.skewed(20000)), static_cast<i64>(n) }, {} };
            if (extra)
                extra(r, o);
            plan.ops.push_back(std::move(o));
            left -= n;
            if (r.chance(2))
                break; // the rest comes in one piece at the end
        }
    }
}

Wire buildWire(Plan const& plan, Stats& st, int streams)
{
    Wire w;
    auto const n = static_cast<size_t>(streams >= 0 ? streams : std::max<i64>(1, plan.get("streams", 1)));
    w.sent.resize(n);
    for (auto const& o: plan.ops)
        if (o.kind == K_TEXT && !o.a.empty())
            for (i64 k = 0; k < std::max<i64>(1, o.a.size() > 1 ? o.a[1] : 1); ++k)
                w.sent[static_cast<size_t>(o.a[0]) % n] += o.b;
    w.got = w.sent;
    w.fresh.resize(n);
    for (size_t i = 0; i < n; ++i)
        w.fresh[i].assign(w.got[i].size(), 1);
    for (auto const& o: plan.ops)
    {
        if (o.kind != K_FAULT || o.a.size() < 6)
            continue;
        auto const s = static_cast<size_t>(o.a[0]) % n;
        auto& b = w.got[s];
        auto& f = w.fresh[s];
        if (b.empty())
            continue;
        size_t at = static_cast<size_t>(o.a[2]) % b.size();
        auto const len = static_cast<size_t>(std::max<i64>(1, o.a[3]));
        if (o.a[5]) // somewhere into the next multi-byte character
            for (size_t k = 0; k < b.size(); ++k)
            {
                auto const p = (at + k) % b.size();
                if (static_cast<u8>(b[p]) >= 0xC0)
                {
                    auto const l = static_cast<u8>(b[p]) >= 0xF0 ? 4u : static_cast<u8>(b[p]) >= 0xE0 ? 3u : 2u;
                    at = std::min(p + static_cast<size_t>(o.a[4]) % l, b.size() - 1);
                    break;
                }
            }
        auto const m = std::min(len, b.size() - at);
        auto const off = static_cast<long>(at);
        auto const cut = static_cast<long>(at + m);
        switch (o.a[1])
        {
            case D_DROP:
                b.erase(at, m);
                f.erase(f.begin() + off, f.begin() + cut);
                st.hit("damage_drop");
                break;
            case D_DUP:
                b.insert(at + m, b.substr(at, m));
                f.insert(f.begin() + cut, m, u8 { 0 });
                st.hit("damage_duplicate");
                break;
            case D_CORRUPT:
                b[at] = static_cast<char>(o.a[4]);
                f[at] = 0;
                st.hit("damage_corrupt");
                break;
            case D_TRUNCATE:
                b.resize(at);
                f.resize(at);
                st.hit("damage_truncate");
                break;
            case D_INSERT:
                b.insert(at, m, static_cast<char>(o.a[4]));
                f.insert(f.begin() + off, m, u8 { 0 });
                st.hit("damage_insert");
                break;
            case D_SWAP: {
                auto const k = std::min(m, b.size() - at - m);
                for (size_t i = 0; i < k; ++i)
                {
                    std::swap(b[at + i], b[at + m + i]);
                    f[at + i] = f[at + m + i] = 0;
                }
                if (k)
                    st.hit("damage_reorder");
                break;
            }
            default:
                b[at] = static_cast<char>(b[at] ^ (1 << (o.a[4] & 7)));
                f[at] = 0;
                st.hit("damage_bitflip");
                break;
        }
        w.damaged = true;
    }
    return w;
}

vector<Event> timeline(Plan const& plan, Stats& st)
{
    std::map<i64, u64> clock;
    vector<Event> ev;
    for (auto const& o: plan.ops)
    {
        if (o.kind < ScheduledFrom || o.a.size() < 2)
            continue;
        auto& t = clock[o.a[0]];
        t += static_cast<u64>(std::max<i64>(0, o.a[1]));
        ev.push_back({ t, &o });
    }
    std::stable_sort(ev.begin(), ev.end(), [](Event const& a, Event const& b) { return a.at < b.at; });
    if (!ev.empty())
        st.simMicros += ev.back().at;
    st.steps += ev.size();
    return ev;
}

} // namespace sim
