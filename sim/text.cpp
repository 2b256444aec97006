#include "text.h"

#include "ref.h"

#include <array>

namespace sim::text
{

namespace
{
    vector<u32> byGcb[14], byWb[19], byIncb[4], extpict, emojiPres, modBase, vsBase, spacing, virama, marks, decomposable, composeFirst, composeSecond, exclusions, starterDecompToMark, assignedWide;
    vector<std::pair<u32, u32>> pairs;
    bool ready = false;

    u32 anyScalar(Rng& r)
    {
        switch (r.below(5))
        {
            case 0: return static_cast<u32>(r.range(0xA0, 0x2FFF));
            case 1: return static_cast<u32>(r.range(0x3000, 0xD7FF));
            case 2: return static_cast<u32>(r.range(0xE000, 0xFFFF));
            case 3: return static_cast<u32>(r.range(0x10000, 0x1FFFF));
            default: return static_cast<u32>(r.range(0x20000, 0x10FFFF));
        }
    }

    // where some property changes from one codepoint to the next
    vector<u32> edges, extended;
    vector<vector<u32>> byScript;

    u32 from(Rng& r, vector<u32> const& v) { return v.empty() ? 'x' : r.pick(v); }
} // namespace

void init()
{
    if (ready)
        return;
    ref::load();
    auto const& u = ref::ucd();
    for (u32 c = 0xA0; c < 0x110000; ++c)
    {
        if (c >= 0xD800 && c < 0xE000)
            continue;
        if (auto x = u.gcb[c]; x && byGcb[x].size() < 4000)
            byGcb[x].push_back(c);
        if (auto x = u.wb[c]; x && byWb[x].size() < 4000)
            byWb[x].push_back(c);
        if (auto x = u.incb[c]; x && x != ref::I_Extend)
            byIncb[x].push_back(c);
        if (u.extpict[c] && byGcb[0].size() < 100000)
            extpict.push_back(c);
        if (u.ccs[c] & 1)
            emojiPres.push_back(c);
        if (u.ccs[c] & 4)
            modBase.push_back(c);
        if (u.vsbase[c])
            vsBase.push_back(c);
        if (u.mc[c])
            spacing.push_back(c);
        if (u.virama[c])
            virama.push_back(c);
        if (u.ccc[c])
            marks.push_back(c);
        if (u.exclusion[c])
            exclusions.push_back(c);
    }
    for (u32 c = 0x20; c < 0x110000; ++c)
        if (c < 0xD800 || c > 0xE000)
            for (auto const* v: { &u.gcb, &u.wb, &u.incb, &u.extpict, &u.ccc, &u.mc, &u.virama, &u.vsbase, &u.ccs, &u.exclusion, &u.width, &u.emojiCat })
                if ((*v)[c] != (*v)[c - 1])
                {
                    edges.push_back(c);
                    edges.push_back(c - 1);
                    break;
                }
    byScript.resize(u.scriptNames.size());
    for (u32 c = 0x20; c < 0x110000; ++c)
        if (auto& v = byScript[u.script[c]]; u.script[c] && v.size() < 300)
            v.push_back(c);
    std::erase_if(byScript, [](auto const& v) { return v.empty(); });
    for (auto const& [c, _]: u.scriptExt)
        extended.push_back(c);
    for (u32 c = 0; c < 0x80; ++c)
        if (auto x = u.wb[c])
            for (int k = 0; k < 20; ++k)
                byWb[x].push_back(c);
    for (auto const& [c, m]: u.fullCompat)
    {
        decomposable.push_back(c);
        if (!u.ccc[c] && u.ccc[m[0]])
            starterDecompToMark.push_back(c);
    }
    for (auto const& [k, c]: u.compose)
    {
        pairs.emplace_back(static_cast<u32>(k >> 32), static_cast<u32>(k));
        composeFirst.push_back(static_cast<u32>(k >> 32));
        composeSecond.push_back(static_cast<u32>(k));
    }
    for (u32 c = 0x4E00; c < 0x4F00; ++c)
        assignedWide.push_back(c);
    for (u32 c = 0x3041; c < 0x3097; ++c)
        assignedWide.push_back(c);
    for (u32 c = 0xFF01; c < 0xFF5F; ++c)
        assignedWide.push_back(c);
    ready = true;
}

u32 codepoint(Rng& r, Theme t)
{
    auto const p = piece(r, t);
    return static_cast<u32>(p[r.below(p.size())]);
}

u32string piece(Rng& r, Theme t)
{
    u32string s;
    auto const add = [&](u32 c) { s += static_cast<char32_t>(c); };
    switch (t)
    {
        case Ascii: {
            static constexpr std::array<int, 12> edges { 15, 16, 17, 31, 32, 33, 63, 64, 65, 79, 127, 130 };
            auto const n = r.chance(85) ? r.range(1, 12) : r.chance(60) ? r.pick(edges) : r.range(1, 140);
            for (i64 i = 0; i < n; ++i)
                add(static_cast<u32>(r.chance(2) ? 0x7F : r.range(0x20, 0x7E)));
            break;
        }
        case Latin: {
            if (r.chance(8))
            {
                // a plain run, whose last letter is marked nonetheless
                static constexpr std::array<int, 6> lengths { 8, 16, 32, 64, 80, 128 };
                for (auto n = r.below(3) + r.pick(lengths); n--;)
                    add(static_cast<u32>(r.range(0x20, 0x7E)));
                add(static_cast<u32>(r.chance(50) ? r.range('a', 'z') : r.range('A', 'Z')));
                add(r.chance(50) ? from(r, composeSecond) : static_cast<u32>(r.range(0x300, 0x36F)));
                break;
            }
            add(r.chance(50) ? static_cast<u32>(r.range('a', 'z')) : static_cast<u32>(r.range(0xC0, 0x24F)));
            for (auto n = r.below(3); n--;)
                add(static_cast<u32>(r.range(0x300, 0x36F)));
            break;
        }
        case Emoji: {
            auto const one = [&] {
                switch (r.below(6))
                {
                    case 0: add(from(r, extpict)); break;
                    case 1: add(from(r, emojiPres)); break;
                    case 2:
                        add(from(r, modBase));
                        if (r.chance(60))
                            add(static_cast<u32>(r.range(0x1F3FB, 0x1F3FF)));
                        break;
                    case 3:
                        add(from(r, vsBase));
                        if (r.chance(70))
                            add(r.chance(50) ? 0xFE0F : 0xFE0E);
                        break;
                    case 4:
                        add(0x2764);
                        if (r.chance(60))
                            add(r.chance(60) ? 0xFE0F : 0xFE0E);
                        break;
                    default: add(static_cast<u32>(r.range(0x1F600, 0x1F64F))); break;
                }
            };
            switch (r.below(10))
            {
                case 0: // keycap
                    add(static_cast<u32>("0123456789#*"[r.below(12)]));
                    if (r.chance(80))
                        add(0xFE0F);
                    if (r.chance(80))
                        add(0x20E3);
                    break;
                case 1: // tag sequence
                    add(0x1F3F4);
                    for (auto n = r.below(6); n--;)
                        add(static_cast<u32>(r.range(0xE0061, 0xE007A)));
                    if (r.chance(80))
                        add(0xE007F);
                    break;
                case 2:
                    add(r.chance(50) ? 0x200D : r.chance(50) ? 0xFE0F : 0xFE0E);
                    break;
                case 3:
                    add(static_cast<u32>(r.range(0x1F3FB, 0x1F3FF)));
                    break;
                case 4:
                    one();
                    add(r.chance(70) ? 0x20E0 : 0x20E3);
                    break;
                case 5:
                    one();
                    add(static_cast<u32>(r.range(0x300, 0x304)));
                    break;
                default:
                    one();
                    for (auto n = r.chance(50) ? r.below(4) : 0; n--;)
                    {
                        add(0x200D);
                        if (r.chance(5))
                            add(0x200D);
                        one();
                    }
                    break;
            }
            break;
        }
        case Flags:
            for (auto n = 1 + r.below(r.chance(80) ? 4 : 12); n--;)
                add(static_cast<u32>(r.range(0x1F1E6, 0x1F1FF)));
            if (r.chance(15))
                add(r.chance(50) ? 0xFE0F : 0x200D);
            break;
        case Indic: {
            auto const mark = [&] {
                switch (r.below(5))
                {
                    case 0: add(from(r, spacing)); break;
                    case 1: add(from(r, virama)); break;
                    case 2: add(from(r, byIncb[ref::I_Linker])); break;
                    case 3: add(r.chance(50) ? 0x200D : 0x200C); break;
                    default: add(0x94D); break;
                }
            };
            add(r.chance(50) ? static_cast<u32>(r.range(0x915, 0x939)) : from(r, byIncb[ref::I_Consonant]));
            for (auto n = r.below(4); n--;)
            {
                mark();
                if (r.chance(60))
                    add(r.chance(50) ? static_cast<u32>(r.range(0x915, 0x939)) : from(r, byIncb[ref::I_Consonant]));
            }
            break;
        }
        case Hangul: {
            auto const L = [&] { add(static_cast<u32>(r.chance(80) ? r.range(0x1100, 0x1112) : r.range(0x1113, 0x115F))); };
            auto const V = [&] { add(static_cast<u32>(r.chance(80) ? r.range(0x1161, 0x1175) : r.range(0x1160, 0x11A7))); };
            auto const T = [&] { add(static_cast<u32>(r.chance(80) ? r.range(0x11A7, 0x11C2) : r.range(0x11A7, 0x11FF))); };
            switch (r.below(7))
            {
                case 0: L(); break;
                case 1: L(); V(); break;
                case 2: L(); V(); T(); break;
                case 3: add(static_cast<u32>(r.range(0xAC00, 0xD7A3))); break;
                case 4: add(static_cast<u32>(0xAC00 + 28 * r.range(0, 398))); T(); break;
                case 5: V(); if (r.chance(50)) T(); break;
                default: T(); break;
            }
            break;
        }
        case Cjk:
            for (auto n = 1 + r.below(4); n--;)
                add(from(r, assignedWide));
            if (r.chance(10))
                add(0xFE00 + static_cast<u32>(r.below(16)));
            break;
        case Words: {
            auto const k = r.below(18) + 1;
            add(from(r, byWb[k]));
            if (r.chance(30))
                add(from(r, byWb[r.chance(50) ? ref::W_Extend : r.chance(50) ? ref::W_Format : ref::W_ZWJ]));
            if (r.chance(30))
                add(static_cast<u32>("a1'\".,:_ -"[r.below(10)]));
            if (r.chance(10))
            {
                add(0xD);
                if (r.chance(70))
                    add(0xA);
            }
            break;
        }
        case Marks:
            for (auto n = 1 + (r.chance(90) ? r.below(5) : r.below(60)); n--;)
                add(from(r, marks));
            break;
        case Decomp:
            switch (r.below(7))
            {
                case 0: add(from(r, decomposable)); break;
                case 1: add(from(r, composeFirst)); break;
                case 2: add(from(r, composeSecond)); break;
                case 3: {
                    auto const& p = r.pick(pairs);
                    add(p.first);
                    if (r.chance(40))
                        add(from(r, marks));
                    add(p.second);
                    break;
                }
                case 4: add(from(r, exclusions)); break;
                case 5: add(from(r, starterDecompToMark)); break;
                default: add(from(r, marks)); break;
            }
            break;
        case Odd:
            switch (r.below(10))
            {
                case 8: add(from(r, edges)); break;
                case 9: {
                    // what code names by number: the ends of such ranges and their neighbours
                    static constexpr std::array<u32, 22> named { 0x80, 0xA0, 0xAD, 0x0300, 0x0800, 0x1100, 0x1113, 0x1161, 0x1176, 0x11A8, 0x11C3, 0x200D, 0x20E3, 0x3000, 0xAC00, 0xD7A4, 0xFE0E, 0xFE10, 0x10000, 0x1F1E6, 0x1F3FB, 0x1F400 };
                    add(r.pick(named) - 2 + static_cast<u32>(r.below(4)));
                    break;
                }
                case 0: add(from(r, byGcb[ref::G_Prepend])); break;
                case 1: add(from(r, byGcb[ref::G_Control])); break;
                case 2: add(static_cast<u32>(r.range(0x80, 0x9F))); break;
                case 3: add(static_cast<u32>(r.range(0xFDD0, 0xFDEF))); break;
                case 4: add(static_cast<u32>(r.range(0x10FFF0, 0x10FFFF))); break;
                case 5: add(0x200B + static_cast<u32>(r.below(5))); break;
                case 6: add(from(r, byGcb[ref::G_SpacingMark])); break;
                default: add(anyScalar(r)); break;
            }
            break;
        case Scripts: {
            if (auto const k = r.below(10); k < 4)
            {
                for (auto n = 1 + r.below(3); n--;)
                    add(from(r, k == 0 ? r.pick(byScript) : extended));
                break;
            }
            static constexpr std::array<std::pair<int, int>, 16> blocks { { { 0x41, 0x5A }, { 0x391, 0x3C9 }, { 0x410, 0x44F }, { 0x5D0, 0x5EA }, { 0x621, 0x64A }, { 0x905, 0x965 }, { 0x985, 0x9B9 }, { 0xE01, 0xE3A }, { 0x10D0, 0x10FA }, { 0x3041, 0x30FF }, { 0x4E00, 0x4E40 }, { 0xAC00, 0xAC40 }, { 0x2000, 0x206F }, { 0x3000, 0x301C }, { 0x1CD0, 0x1CF9 }, { 0x660, 0x669 } } };
            auto const& b = r.pick(blocks);
            for (auto n = 1 + r.below(3); n--;)
                add(static_cast<u32>(r.range(b.first, b.second)));
            if (r.chance(20))
                add(r.chance(50) ? 0x20 : 0x301);
            break;
        }
        case Classes: {
            // Rules on pairs of equal classes are met only where classes repeat.
            std::array<u64, 4> palette {};
            auto const k = 1 + r.below(palette.size());
            for (u64 i = 0; i < k; ++i)
                palette[i] = r.below(19 + 14 + 4 + 5);
            for (auto n = 2 + r.below(r.chance(90) ? 5 : 20); n--;)
            {
                auto const c = palette[r.below(k)];
                if (c < 19)
                    add(from(r, byWb[c]));
                else if (c < 33)
                    add(from(r, byGcb[c - 19]));
                else if (c < 37)
                    add(from(r, byIncb[c - 33]));
                else if (c == 37)
                    add(from(r, extpict));
                else if (c == 38)
                    add(r.chance(50) ? 0xFE0F : 0xFE0E);
                else if (c == 39)
                    add(0x200D);
                else
                    add(static_cast<u32>("  a1'-"[r.below(6)]));
            }
            break;
        }
        case ThemeCount: break;
    }
    return s;
}

namespace
{
    // Nearly all of a text below some value: code that takes short cuts asks for that.
    constexpr std::array<u32, 6> ceilings { 0x80, 0x100, 0x300, 0x800, 0x3400, 0x10000 };
    constexpr unsigned ceilingShift = 24;
    static_assert(ThemeCount < ceilingShift);

    u32string below(Rng& r, u32string s, u32 ceiling)
    {
        std::erase_if(s, [&](char32_t c) { return c >= ceiling; });
        if (s.empty())
            for (auto n = 1 + r.below(6); n--;)
                s += static_cast<char32_t>(r.range(r.chance(50) ? 0x20 : ceiling / 2, (ceiling == 0x10000 ? 0xD800 : ceiling) - 1));
        return s;
    }
} // namespace

unsigned pickThemes(Rng& r, unsigned allowed)
{
    for (;;)
    {
        unsigned m = 0;
        auto const n = 1 + r.below(4);
        for (u64 i = 0; i < n; ++i)
            m |= 1u << r.below(ThemeCount);
        m &= allowed;
        if (r.chance(40))
            m |= allowed & 1;
        if (m)
            return r.chance(12) ? m | static_cast<unsigned>(1 + r.below(ceilings.size())) << ceilingShift : m;
    }
}

namespace
{
    Theme pickOne(Rng& r, unsigned themes)
    {
        for (;;)
            if (auto const t = r.below(ThemeCount); themes >> t & 1)
                return static_cast<Theme>(t);
    }
} // namespace

u32string piece(Rng& r, unsigned themes)
{
    auto s = piece(r, pickOne(r, themes));
    if (auto const c = themes >> ceilingShift; c && !r.chance(4))
        s = below(r, std::move(s), ceilings[c - 1]);
    switch (auto const k = r.below(200); k)
    {
        case 0: // the same over and over
            for (auto const once = s; s.size() < 40 + once.size() * 3 || (s.size() < 600 && r.chance(98));)
                s += once;
            break;
        case 1:
        case 2:
        case 3:
        case 4: { // a codepoint next to the one meant
            auto& c = s[r.below(s.size())];
            auto const x = c + (r.chance(50) ? 1 : -1);
            if (x >= 0x20 && x < 0x110000 && (x < 0xD800 || x >= 0xE000) && (x < 0x7F) == (c < 0x7F))
                c = x;
            break;
        }
        case 5:
        case 6:
        case 7:
        case 8:
        case 9:
        case 10:
        case 11:
        case 12: // single codepoints of all kinds
            for (auto n = 1 + r.below(6); n--;)
                s += static_cast<char32_t>(codepoint(r, pickOne(r, themes)));
            break;
        default: break;
    }
    return s;
}

} // namespace sim::text
