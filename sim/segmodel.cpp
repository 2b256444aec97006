// Scripts, emoji presentation and combined runs, from the Unicode Character Database and the grammar.
#include "segmodel.h"

#include <libunicode/ucd.h>
#include <libunicode/ucd_ostream.h>

#include <algorithm>
#include <sstream>

namespace sim::segmodel
{
using unicode::PresentationStyle;
using unicode::Script;
int category(char32_t c)
{
    auto const k = c < 0x110000 ? ref::ucd().emojiCat[c] : u8 { 255 };
    return k == 255 ? -1 : k;
}

// The library's enumerators, by the names of the Unicode Character Database; 0: no script listed.
static vector<Script> scriptByNumber;
void initScripts()
{
    std::map<string, Script> byName;
    for (int i = 0; i < 256; ++i)
    {
        std::ostringstream o;
        o << static_cast<Script>(i);
        byName.emplace(o.str(), static_cast<Script>(i));
    }
    auto const& names = ref::ucd().scriptNames;
    scriptByNumber.assign(names.size(), Script::Unknown);
    for (size_t i = 1; i < names.size(); ++i)
        if (auto const k = byName.find(names[i]); k != byName.end())
            scriptByNumber[i] = k->second;
        else if (auto const& all = ref::ucd().script; true)
            scriptByNumber[i] = unicode::script(static_cast<char32_t>(std::find(all.begin(), all.end(), i) - all.begin()));
}
static Script scriptOf(char32_t c) { return c < 0x110000 ? scriptByNumber[ref::ucd().script[c]] : Script::Unknown; }

// Tokens of the emoji presentation grammar (emoji_presentation_scanner.rl), longest match first.
vector<Segment> emojiSegments(u32string_view t)
{
    vector<int> c;
    for (auto x: t)
        c.push_back(category(x));
    auto const at = [&](size_t i) { return i < c.size() ? c[i] : -2; };
    auto const any = [&](size_t i) { auto const x = at(i); return x == 0 || x == 1 || x == 2 || x == 3 || x == 7 || x == 13; };
    vector<Segment> r;
    for (size_t i = 0; i < t.size();)
    {
        size_t best = 0;
        auto const match = [&](bool ok, size_t len) {
            if (ok)
                best = std::max(best, len);
        };
        match(at(i) == 2 || at(i) == 13 || at(i) == 3, 1);
        match(any(i) && at(i + 1) == 12, 2);
        match(at(i) == 3 && at(i + 1) == 4, 2);
        match(at(i) == 6 && at(i + 1) == 6, 2);
        match(any(i) && at(i + 1) == 9, 2);
        match(at(i) == 7 && at(i + 1) == 12 && at(i + 2) == 8, 3);
        if (at(i) == 13)
        {
            size_t k = i + 1;
            while (at(k) == 14)
                ++k;
            match(k > i + 1 && at(k) == 15, k + 1 - i);
        }
        // element (ZWJ element)+
        auto const ends = [&](size_t p, size_t* out) -> size_t {
            size_t m = 0;
            if (any(p))
                out[m++] = p + 1;
            if (any(p) && at(p + 1) == 12)
                out[m++] = p + 2;
            if (at(p) == 3 && at(p + 1) == 4)
                out[m++] = p + 2;
            return m;
        };
        size_t e[3];
        auto m = ends(i, e);
        size_t from = 0;
        for (size_t k = 0; k < m; ++k)
            if (at(e[k]) == 10)
                from = e[k] + 1;
        while (from)
        {
            m = ends(from, e);
            size_t next = 0;
            for (size_t k = 0; k < m; ++k)
            {
                match(true, e[k] - i);
                if (at(e[k]) == 10)
                    next = e[k] + 1;
            }
            from = next;
        }
        bool const text15 = any(i) && at(i + 1) == 11;
        bool emoji = best > 0;
        size_t len = std::max<size_t>(best, 1);
        if (text15 && best <= 2)
        {
            emoji = false;
            len = 2;
        }
        i += len;
        if (!r.empty() && r.back().prop == emoji)
            r.back().end = i;
        else
            r.push_back({ i, emoji });
    }
    return r;
}

// Scripts of a run: the Script_Extensions of its codepoints intersect.
vector<Segment> scriptSegments(u32string_view t)
{
    auto const plain = [](Script s) { return s == Script::Invalid || s == Script::Common || s == Script::Inherited; };
    vector<Segment> r;
    vector<Script> cur { Script::Common };
    Script common = Script::Common;
    auto const resolve = [&] { return static_cast<u32>(cur[0] == Script::Common ? common : cur[0]); };
    for (size_t i = 0; i < t.size(); ++i)
    {
        auto const sc = scriptOf(t[i]);
        vector<Script> next;
        if (auto const ext = ref::ucd().scriptExt.find(t[i]); ext != ref::ucd().scriptExt.end())
            for (auto const k: ext->second)
                next.push_back(scriptByNumber[k]);
        else
            next.push_back(sc);
        if (auto const k = std::find(next.begin(), next.end(), sc); k != next.end())
            std::swap(*k, next[0]);
        else
            next.push_back(sc);
        if (plain(next[0]))
        {
            if (next.size() == 2 && plain(cur[0]) && common == Script::Common)
                common = next[1];
            continue;
        }
        if (plain(cur[0]))
        {
            cur = next;
            continue;
        }
        auto const has = [](vector<Script> const& v, Script s) { return std::find(v.begin(), v.end(), s) != v.end(); };
        vector<Script> both;
        if (has(next, cur[0]))
            both.push_back(cur[0]);
        else if (has(cur, next[0]))
            both.push_back(next[0]);
        for (size_t k = 1; k < cur.size(); ++k)
            if (has(next, cur[k]) && !has(both, cur[k]))
                both.push_back(cur[k]);
        if (both.empty())
        {
            r.push_back({ i, resolve() });
            cur = next;
        }
        else
            cur = both;
    }
    if (!t.empty())
        r.push_back({ t.size(), resolve() });
    return r;
}

vector<Run> runs(vector<Segment> const& script, vector<Segment> const& emoji)
{
    vector<Run> r;
    size_t a = 0, b = 0;
    for (size_t from = 0; a < script.size() && b < emoji.size();)
    {
        auto const end = std::min(script[a].end, emoji[b].end);
        r.push_back({ from, end, script[a].prop, emoji[b].prop });
        if (script[a].end == end)
            ++a;
        if (emoji[b].end == end)
            ++b;
        from = end;
    }
    return r;
}
} // namespace sim::segmodel
