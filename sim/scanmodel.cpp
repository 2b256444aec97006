#include "scanmodel.h"

#include <algorithm>

namespace sim
{

unsigned cpWidth(u32 cp) { return ref::ucd().width[cp < 0x110000 ? cp : 0]; }

void ScanModel::closeCluster()
{
    cluster.clear();
    width = {};
    reported = 0;
}

u64 ScanModel::shape() const
{
    u64 h = pend;
    h = mix(h, std::min<size_t>(cluster.size(), 8));
    h = mix(h, reported);
    h = mix(h, (width.virama ? 1u : 0u) | (width.skip ? 2u : 0u) | (width.open ? 4u : 0u) | (width.ri % 2 ? 8u : 0u));
    for (size_t i = cluster.size() > 3 ? cluster.size() - 3 : 0; i < cluster.size(); ++i)
    {
        auto const c = cluster[i];
        auto const& u = ref::ucd();
        h = mix(h, c < 0x110000 ? u.gcb[c] * 8u + u.incb[c] * 2u + u.extpict[c] : 99u);
    }
    return h;
}

// Scans multi-byte characters until the end, an ASCII byte, a control, or until something does not fit.
size_t ScanModel::multi(string_view s, size_t a, size_t b, size_t max, size_t& start, size_t& end, size_t& next, char& why, vector<ScanEvent>& ev)
{
    size_t cp = a - pend; // where the character being decoded starts
    size_t pos = a;
    start = end = cp;
    size_t piece = cp; // where this call's piece of the open cluster starts
    size_t count = 0, here = 0;
    ScanModel atPiece = *this; // to go back to when the piece is put back
    atPiece.pend = 0;
    why = 'E';

    auto const deliver = [&](size_t to) {
        if (to > piece)
            ev.push_back({ 'G', piece, to, reported });
        piece = to;
    };
    auto const need = [&](size_t at) -> size_t {
        auto const c = static_cast<u8>(s[at]);
        return c >= 0xF8 ? 0 : c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 0;
    };
    for (;;)
    {
        // gather one character [cp, pos)
        bool good = false, ill = false;
        if (cp == pos)
        {
            if (pos == b)
                break;
            char const c = s[pos];
            if (static_cast<u8>(c) < 0x80 || isC1Byte(c))
            {
                deliver(pos);
                closeCluster();
                end = pos;
                why = 'C';
                break;
            }
            ++pos;
            if (!need(cp))
                ill = true;
        }
        if (!ill)
        {
            auto const len = need(cp);
            while (pos < b && pos - cp < len && (static_cast<u8>(s[pos]) & 0xC0) == 0x80)
                ++pos;
            if (pos - cp == len)
                good = true;
            else if (pos == b)
                break; // incomplete: wait for more
            else
                ill = true;
        }
        if (ill)
        {
            if (count + 1 > max)
            {
                pos = cp;
                why = 'W';
                break;
            }
            deliver(cp);
            ++count;
            ev.push_back({ 'I', 0, 0, 0 });
            closeCluster();
            here = 0;
            atPiece = {};
            piece = cp = end = pos;
            continue;
        }
        (void) good;
        u32 const c = ref::decodeUtf8(s.substr(cp, pos - cp))[0].cp;
        cluster.push_back(static_cast<char32_t>(c));
        bool brk = true;
        if (cluster.size() > 1)
            brk = ref::graphemeBreakBefore(cluster, cluster.size() - 1);
        if (brk)
        {
            ref::Width w;
            w.push(c, cpWidth(c));
            if (count + w.width() > max)
            {
                deliver(cp);
                pos = cp;
                closeCluster();
                why = 'W';
                break;
            }
            deliver(cp);
            cluster = static_cast<char32_t>(c);
            width = w;
            reported = here = w.width();
            count += here;
            atPiece = {};
        }
        else
        {
            width.push(c, cpWidth(c));
            size_t const now = width.width();
            if (now >= reported)
            {
                auto const more = now - reported;
                if (more && count + more > max)
                {
                    count -= here;
                    pos = end = piece;
                    *this = atPiece;
                    why = 'W';
                    next = pos;
                    pend = 0;
                    return count;
                }
                count += more;
                here += more;
            }
            else
            {
                auto const less = std::min(reported - now, here);
                count -= less;
                here -= less;
            }
            reported = now;
        }
        end = cp = pos;
    }
    deliver(end);
    next = pos;
    pend = pos - cp;
    return count;
}

ScanModel::Result ScanModel::call(string_view s, size_t a, size_t b, size_t max, vector<ScanEvent>& ev)
{
    Result r { 0, a, a, a, 'E' };
    size_t at = a;
    if (pend)
    {
        r.count = multi(s, a, b, max, r.start, r.end, r.next, r.why, ev);
        at = r.end;
        if (pend)
            return r;
        if (r.why == 'W')
            return r;
    }
    while (at < b)
    {
        if (r.count >= max)
        {
            r.why = 'W';
            return r;
        }
        if (isControlByte(s[at]))
        {
            closeCluster();
            r.why = 'C';
            return r;
        }
        if (isAsciiText(s[at]))
        {
            auto const from = at;
            while (at < b && isAsciiText(s[at]) && r.count < max)
                ++at, ++r.count;
            ev.push_back({ 'A', from, at, 0 });
            cluster = static_cast<char32_t>(static_cast<u8>(s[at - 1]));
            width = {};
            width.push(cluster[0], cpWidth(cluster[0]));
            reported = 1;
            r.end = r.next = at;
            r.why = 'E';
            continue;
        }
        size_t st = 0;
        auto const e0 = r.end;
        r.count += multi(s, at, b, max - r.count, st, r.end, r.next, r.why, ev);
        at = r.end;
        if (r.why == 'W' || pend || (r.end == e0 && r.why == 'C' && at < b && isC1Byte(s[at])))
            return r;
        if (r.why == 'C' && at < b && isC1Byte(s[at]))
            return r;
    }
    return r;
}

vector<size_t> controlStops(string_view t)
{
    vector<size_t> r;
    for (auto const& u: ref::decodeUtf8(t))
        if (u.good ? u.cp < 0x20 && u.len == 1 : u.len == 1 && isC1Byte(t[u.at]))
            r.push_back(u.at);
    return r;
}

} // namespace sim
