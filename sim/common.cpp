#include "common.h"

#include <cstdio>

namespace sim
{

string hex(string_view s)
{
    static char const* d = "0123456789abcdef";
    string r;
    for (char c: s)
    {
        r += d[static_cast<u8>(c) >> 4];
        r += d[static_cast<u8>(c) & 15];
    }
    return r;
}

string unhex(string_view s)
{
    auto const v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}

string show(u32string_view s)
{
    string r = "<";
    char buf[16];
    size_t n = 0;
    for (auto c: s)
    {
        if (n++ >= 64)
        {
            r += " ...";
            break;
        }
        std::snprintf(buf, sizeof buf, "%s%04X", n == 1 ? "" : " ", static_cast<unsigned>(c));
        r += buf;
    }
    return r + ">";
}

string show(string_view s)
{
    return "[" + hex(s.substr(0, 200)) + (s.size() > 200 ? "..." : "") + "]";
}

string toText(Plan const& p)
{
    string r = "libunicode-sim-plan 1\nprop " + p.prop + "\nseed " + std::to_string(p.seed) + "\n";
    for (auto const& [k, v]: p.cfg)
        r += "cfg " + k + " " + std::to_string(v) + "\n";
    for (auto const& o: p.ops)
    {
        r += "op " + std::to_string(o.kind);
        for (auto v: o.a)
            r += " " + std::to_string(v);
        if (!o.b.empty())
            r += " x" + hex(o.b);
        r += "\n";
    }
    return r + "end\n";
}

bool fromText(string_view t, Plan& p)
{
    p = {};
    bool ended = false, header = false;
    while (!t.empty())
    {
        auto e = t.find('\n');
        if (e == string_view::npos)
            e = t.size();
        auto const line = t.substr(0, e);
        t.remove_prefix(e < t.size() ? e + 1 : e);
        vector<string> w;
        for (size_t i = 0; i < line.size();)
        {
            auto j = line.find(' ', i);
            if (j == string_view::npos)
                j = line.size();
            if (j > i)
                w.emplace_back(line.substr(i, j - i));
            i = j + 1;
        }
        if (w.empty() || w[0][0] == '#')
            continue;
        if (w[0] == "libunicode-sim-plan")
            header = true;
        else if (w[0] == "prop" && w.size() == 2)
            p.prop = w[1];
        else if (w[0] == "seed" && w.size() == 2)
            p.seed = std::strtoull(w[1].c_str(), nullptr, 10);
        else if (w[0] == "cfg" && w.size() == 3)
            p.cfg[w[1]] = std::strtoll(w[2].c_str(), nullptr, 10);
        else if (w[0] == "op" && w.size() >= 2)
        {
            Op o;
            o.kind = std::atoi(w[1].c_str());
            for (size_t i = 2; i < w.size(); ++i)
                if (w[i][0] == 'x')
                    o.b = unhex(string_view(w[i]).substr(1));
                else
                    o.a.push_back(std::strtoll(w[i].c_str(), nullptr, 10));
            p.ops.push_back(std::move(o));
        }
        else if (w[0] == "end")
            ended = true;
    }
    return header && ended && !p.prop.empty();
}

} // namespace sim
