// Reference model of scan_text(), over absolute offsets of a stream.
#pragma once
#include "common.h"
#include "ref.h"

namespace sim
{

struct ScanEvent
{
    char what; // 'A'scii run, 'G' cluster piece, 'I'll-formed
    size_t from = 0, to = 0;
    size_t cols = 0;
    bool operator==(ScanEvent const&) const = default;
};

struct ScanModel
{
    size_t pend = 0;      // bytes of the incomplete trailing character
    std::u32string cluster;  // the open cluster
    ref::Width width;
    size_t reported = 0;

    struct Result
    {
        size_t count = 0, start = 0, end = 0, next = 0;
        char why = 'E'; // 'E'nd of input, 'C'ontrol, 'W'on't fit or budget used up
    };

    // One call on [a, b) of the stream.
    Result call(string_view stream, size_t a, size_t b, size_t max, vector<ScanEvent>& ev);
    void closeCluster();
    u64 shape() const; // for the coverage measure

  private:
    size_t multi(string_view s, size_t a, size_t b, size_t max, size_t& start, size_t& end, size_t& next, char& why, vector<ScanEvent>& ev);
};

inline bool isControlByte(char c) { return static_cast<u8>(c) < 0x20; }
inline bool isC1Byte(char c) { return static_cast<u8>(c) >= 0x80 && static_cast<u8>(c) < 0xA0; }
inline bool isAsciiText(char c) { return static_cast<u8>(c) >= 0x20 && static_cast<u8>(c) < 0x80; }

unsigned cpWidth(u32 cp); // the library's per-codepoint width

// Offsets at which a control stops the scan: every C0 byte, and every C1 byte at a character boundary.
vector<size_t> controlStops(string_view stream);

} // namespace sim
