// Workload generator: text made of pieces that create in-flight state in the library.
#pragma once
#include "common.h"

namespace sim::text
{

void init(); // after ref::load()

enum Theme
{
    Ascii,      // printable ASCII, runs up to several vector widths
    Latin,      // letters with marks
    Emoji,      // pictographs, modifiers, ZWJ sequences, presentation selectors, keycaps, tags
    Flags,      // regional indicators
    Indic,      // consonants, viramas, spacing marks
    Hangul,     // jamo and syllables
    Cjk,        // wide characters
    Words,      // word break classes: letters, digits, mid letters, quotes, katakana, Hebrew
    Marks,      // long runs of marks of various combining classes
    Decomp,     // characters with decompositions, and their parts
    Odd,        // controls, format, prepend, unassigned, noncharacters, anything
    Scripts,    // characters of many scripts and with script extensions
    Classes,    // short sequences over very few break classes, each with itself and the others
    ThemeCount
};

u32string piece(Rng& rng, Theme theme);
u32 codepoint(Rng& rng, Theme theme);

// A random subset of themes, as a bit mask (swarm testing), never empty.
unsigned pickThemes(Rng& rng, unsigned allowed = (1u << ThemeCount) - 1);
u32string piece(Rng& rng, unsigned themes);

} // namespace sim::text
