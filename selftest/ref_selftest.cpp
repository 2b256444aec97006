// Holds the reference models in sim/ref.cpp against the conformance tests published with the Unicode Character Database.
#include "../sim/ref.h"

#include <fstream>
#include <iostream>
#include <sstream>

using namespace sim;

static long lines = 0, bad = 0;

static void breaks(char const* path, vector<bool> (*f)(u32string_view))
{
    std::ifstream in(path);
    if (!in)
    {
        std::cerr << "cannot read " << path << "\n";
        exit(2);
    }
    for (string l; getline(in, l);)
    {
        l = l.substr(0, l.find('#'));
        u32string text;
        vector<bool> want;
        std::istringstream s(l);
        for (string w; s >> w;)
            if (w == "\xC3\xB7")
                want.push_back(true);
            else if (w == "\xC3\x97")
                want.push_back(false);
            else
                text += static_cast<char32_t>(stoul(w, nullptr, 16));
        if (text.empty())
            continue;
        ++lines;
        if (f(text) != want)
        {
            ++bad;
            std::cerr << path << ": " << l << "\n";
        }
    }
}

static void normalization()
{
    // NormalizationTest.txt arrives on standard input
    for (string l; getline(std::cin, l);)
    {
        l = l.substr(0, l.find('#'));
        if (l.empty() || l[0] == '@')
            continue;
        vector<u32string> c;
        std::istringstream s(l);
        for (string col; getline(s, col, ';');)
        {
            std::istringstream t(col);
            u32string x;
            for (string w; t >> w;)
                x += static_cast<char32_t>(stoul(w, nullptr, 16));
            c.push_back(x);
        }
        if (c.size() < 5)
            continue;
        ++lines;
        bool ok = true;
        for (int i = 0; i < 5; ++i)
        {
            bool const k = i > 2;
            ok = ok && ref::normalize(c[i], ref::NFC) == c[k ? 3 : 1] && ref::normalize(c[i], ref::NFD) == c[k ? 4 : 2] && ref::normalize(c[i], ref::NFKC) == c[3] && ref::normalize(c[i], ref::NFKD) == c[4];
        }
        if (!ok)
        {
            ++bad;
            std::cerr << "NormalizationTest: " << l << "\n";
        }
    }
}

int main(int argc, char** argv)
{
    string const dir = argc > 1 ? argv[1] : "/usr/share/unicode";
    ref::load();
    breaks((dir + "/auxiliary/GraphemeBreakTest.txt").c_str(), ref::graphemeBreaks);
    breaks((dir + "/auxiliary/WordBreakTest.txt").c_str(), ref::wordBreaks);
    normalization();
    std::cout << lines << " conformance test lines, " << bad << " wrong\n";
    return bad != 0;
}
