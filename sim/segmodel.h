// Reference models of script, emoji-presentation and combined runs.
#pragma once
#include "ref.h"

#include <libunicode/emoji_segmenter.h>
#include <libunicode/script_segmenter.h>

namespace sim::segmodel
{
struct Segment
{
    size_t end;
    u32 prop; // the library's enumerator
    bool operator==(Segment const&) const = default;
};
struct Run
{
    size_t start, end;
    u32 script, emoji;
};
void initScripts(); // after ref::load()
int category(char32_t c); // token of the emoji grammar, -1 for none
vector<Segment> emojiSegments(u32string_view t);
vector<Segment> scriptSegments(u32string_view t);
vector<Run> runs(vector<Segment> const& script, vector<Segment> const& emoji);
} // namespace sim::segmodel
