From 62801665eb29fdb5adae4dce3d99d08cf6259484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 01/22] fix: NFC/NFKC composition emits uncomposed marks after
 their starter

compose() appended combining marks that do not compose to the result
before the starter they belong to, so to_nfc(U"q\u0307") returned the
mark first. 10651 lines of NormalizationTest.txt failed.
---
 src/libunicode/normalization.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index a617c64..3d76b6f 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -202,7 +202,9 @@ namespace
         if (i >= decomposed.size())
             return result;
 
-        char32_t starter = decomposed[i++];
+        // The starter is emitted before the marks that follow it, and updated in place as they compose.
+        auto starterIndex = result.size();
+        result.push_back(decomposed[i++]);
         uint8_t last_ccc = 0;
 
         while (i < decomposed.size())
@@ -214,19 +216,19 @@ namespace
             char32_t composed = 0;
             if (last_ccc < ccc || last_ccc == 0)
             {
-                composed = try_compose(starter, cp);
+                composed = try_compose(result[starterIndex], cp);
             }
 
             if (composed != 0 && !is_composition_exclusion(composed))
             {
                 // Composition succeeded
-                starter = composed;
+                result[starterIndex] = composed;
             }
             else if (ccc == 0)
             {
                 // New starter
-                result.push_back(starter);
-                starter = cp;
+                starterIndex = result.size();
+                result.push_back(cp);
                 last_ccc = 0;
             }
             else
@@ -239,7 +241,6 @@ namespace
             ++i;
         }
 
-        result.push_back(starter);
         return result;
     }
 
-- 
2.43.0


From 37271efb1038b3c7700e6503f73b66cd95057b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 02/22] fix: Hangul composition must not swallow U+11A7

TBase is one below the first trailing jamo; composing LV with it dropped
the codepoint U+11A7.
---
 src/libunicode/normalization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 3d76b6f..daa6e71 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -104,9 +104,9 @@ namespace
         {
             if ((first - hangul::SBase) % hangul::TCount == 0)
             {
-                if (second >= hangul::TBase && second < hangul::TBase + hangul::TCount)
+                if (second > hangul::TBase && second < hangul::TBase + hangul::TCount)
                 {
-                    // LV + T -> LVT
+                    // LV + T -> LVT (TBase itself is not a trailing jamo)
                     return first + (second - hangul::TBase);
                 }
             }
-- 
2.43.0


From 4820647f9452e9c51da0796a19c8aa73a9f1c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 03/22] fix: streaming NFD/NFKD must not split before starters
 that decompose to marks

U+0F73 and friends have combining class 0 but decompose to non-starters
that reorder with the preceding marks; halfwidth voicing marks do so under
NFKD. Segments emitted before them were not in the normalization form.
---
 src/libunicode/normalization.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index daa6e71..146f5a1 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -156,6 +156,20 @@ namespace
             decompose_recursive(c, output, compatibility);
     }
 
+    /// Returns the first codepoint of the full decomposition of @p cp.
+    [[nodiscard]] char32_t first_decomposed(char32_t cp, bool compatibility) noexcept
+    {
+        for (;;)
+        {
+            auto decomp = find_decomposition(detail::canonical_decomposition_table, cp);
+            if (decomp.empty() && compatibility)
+                decomp = find_decomposition(detail::compatibility_decomposition_table, cp);
+            if (decomp.empty())
+                return cp;
+            cp = decomp.front();
+        }
+    }
+
     // Canonical ordering of combining marks
     void canonical_order(std::u32string& text)
     {
@@ -548,9 +562,10 @@ bool normalizer::is_boundary(char32_t codepoint) const noexcept
     if (canonical_combining_class(codepoint) != 0)
         return false;
 
-    // For decomposition forms, every starter is a safe boundary
+    // For decomposition forms, a starter is a safe boundary unless its decomposition begins with
+    // a non-starter (e.g. U+0F73), which has to be reordered with the marks already pending.
     if (_form == Normalization_Form::NFD || _form == Normalization_Form::NFKD)
-        return true;
+        return canonical_combining_class(first_decomposed(codepoint, _form == Normalization_Form::NFKD)) == 0;
 
     // For composition forms, a starter is safe only if its quick-check value
     // is Yes (it cannot compose with the preceding segment)
-- 
2.43.0


From 6fa66dd5b9c115d5a51049664554897403b727cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 04/22] fix: UTF-8 decoders must not complete a truncated
 sequence with a foreign byte

After a lead byte any non-lead byte was taken as a continuation byte, so a
truncated character swallowed the ASCII character (or a lead byte, in the
byte-wise decoder) behind it and produced a codepoint that is not in the
text.
---
 src/libunicode/convert.h | 5 +++++
 src/libunicode/utf8.cpp  | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index 5b57e0b..1e57e9c 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -69,6 +69,11 @@ struct decoder<char> // {{{
 
     constexpr std::optional<char32_t> operator()(uint8_t byte)
     {
+        // A byte that does not continue the pending sequence ends it: the incomplete sequence is
+        // dropped and the byte is decoded on its own.
+        if (expectedLength && (byte & 0b1100'0000) != 0b1000'0000)
+            expectedLength = 0;
+
         if (!expectedLength)
         {
             if ((byte & 0b1000'0000) == 0)
diff --git a/src/libunicode/utf8.cpp b/src/libunicode/utf8.cpp
index 082e607..1da9fb1 100644
--- a/src/libunicode/utf8.cpp
+++ b/src/libunicode/utf8.cpp
@@ -63,6 +63,13 @@ ConvertResult from_utf8(utf8_decoder_state& state, uint8_t value) noexcept
         from_utf8(state, value);
         return { Invalid {} };
     }
+    else if ((value & 0b1100'0000) != 0b1000'0000)
+    {
+        // Not a continuation byte, so the previous codepoint was incomplete. It must not be completed
+        // with this byte. A US-ASCII character stands for itself, everything else is invalid, too.
+        state = {};
+        return from_utf8(state, value);
+    }
     else
     {
         state.character <<= 6;
-- 
2.43.0


From 60fc84e144e2988c36f4a84b8eee8781e67b2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 05/22] fix: convert_to() must not read past the end of
 truncated input

The iterator based UTF-8 and UTF-16 decoders read the remaining units of a
sequence without knowing where the input ends. A truncated sequence at the
end made convert_to() read behind the input and, as the end was jumped
over, never stop.
---
 src/libunicode/convert.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index 1e57e9c..78f4176 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -347,7 +347,25 @@ OutputIterator convert_to(std::basic_string_view<S> input, OutputIterator output
         encoder<T> write {};
         while (i != e)
         {
-            auto const outChar = read(i);
+            // The multi-unit decoders read ahead, so they must not be started on a sequence that the
+            // end of the input truncates: UTF-8 is decoded byte-wise, and a high surrogate that ends
+            // UTF-16 input is dropped.
+            auto const outChar = [&]() -> std::optional<char32_t> {
+                if constexpr (std::is_same_v<S, char>)
+                    return read(static_cast<uint8_t>(*i++));
+                else
+                {
+                    if constexpr (sizeof(S) == 2)
+                    {
+                        if ((*i >> 10) == 0x36 && std::next(i) == e)
+                        {
+                            ++i;
+                            return std::nullopt;
+                        }
+                    }
+                    return read(i);
+                }
+            }();
             if (outChar.has_value())
                 output = write(outChar.value(), output);
         }
-- 
2.43.0


From fa12320ae86730e26642e434ba61b2e39a9b75fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 06/22] fix: UTF-8 streaming normalizer reports truncated
 sequences and forgets them on flush

A sequence still incomplete at flush() was dropped silently and its state
kept, so that the first bytes fed for the next text completed it. A
truncated sequence before another character is reported as U+FFFD.
---
 src/libunicode/normalization.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 146f5a1..aa58cab 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -621,8 +621,21 @@ std::string_view utf8_normalizer::feed(std::string_view utf8Data)
 {
     _utf8Output.clear();
 
+    auto const feedCodepoint = [this](char32_t codepoint) {
+        auto segment = _inner.feed(codepoint);
+        if (!segment.empty())
+            convert_to<char>(segment, std::back_inserter(_utf8Output));
+    };
+
     for (auto byte: utf8Data)
     {
+        // A byte that does not continue the incomplete sequence ends it.
+        if (_utf8State.expectedLength && (static_cast<uint8_t>(byte) & 0b1100'0000) != 0b1000'0000)
+        {
+            _utf8State = {};
+            feedCodepoint(char32_t { 0xFFFD });
+        }
+
         auto const result = from_utf8(_utf8State, static_cast<uint8_t>(byte));
 
         char32_t cp {};
@@ -633,9 +646,7 @@ std::string_view utf8_normalizer::feed(std::string_view utf8Data)
         else
             continue; // Incomplete: continue buffering UTF-8 bytes
 
-        auto segment = _inner.feed(cp);
-        if (!segment.empty())
-            convert_to<char>(segment, std::back_inserter(_utf8Output));
+        feedCodepoint(cp);
     }
 
     return _utf8Output;
@@ -645,6 +656,16 @@ std::string_view utf8_normalizer::flush()
 {
     _utf8Output.clear();
 
+    // The input is complete, so a sequence that is still incomplete is invalid. It must not be
+    // continued by what is fed next.
+    if (_utf8State.expectedLength)
+    {
+        _utf8State = {};
+        auto segment = _inner.feed(char32_t { 0xFFFD });
+        if (!segment.empty())
+            convert_to<char>(segment, std::back_inserter(_utf8Output));
+    }
+
     auto segment = _inner.flush();
     if (!segment.empty())
         convert_to<char>(segment, std::back_inserter(_utf8Output));
-- 
2.43.0


From bd40ea5eb73e97caa498eafe0da6aa3a659addf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 07/22] fix: UTF-8 grapheme iterator reports a truncated
 sequence as U+FFFD

A sequence truncated by the end of the text came out as U+0000, one
truncated by an ASCII character was not reported at all.
---
 src/libunicode/utf8_grapheme_segmenter.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/utf8_grapheme_segmenter.h b/src/libunicode/utf8_grapheme_segmenter.h
index 37dc094..5bfdd1d 100644
--- a/src/libunicode/utf8_grapheme_segmenter.h
+++ b/src/libunicode/utf8_grapheme_segmenter.h
@@ -117,6 +117,9 @@ inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
     _nextCodepointStart = _nextUtf8;
     while (_nextUtf8 != _end)
     {
+        if (_utf8_decoder_state.expectedLength && (uint8_t(*_nextUtf8) & 0b1100'0000) != 0b1000'0000)
+            break; // The sequence was truncated, and this byte is not part of it.
+
         _result = from_utf8(_utf8_decoder_state, uint8_t(*_nextUtf8++));
         if (std::holds_alternative<Success>(_result))
         {
@@ -131,8 +134,10 @@ inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
             return result;
         }
     }
+    // Nothing is left, or the sequence is incomplete, in which case it is invalid.
     auto const result = _nextCodepoint;
-    _nextCodepoint = 0;
+    _nextCodepoint = _utf8_decoder_state.expectedLength ? ReplacementChar : 0;
+    _utf8_decoder_state = {};
     return result;
 }
 
-- 
2.43.0


From e62fe168c5e07da5c8039179baf7d0aa6f415af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 08/22] fix: u32u8_convert() accepts a destination that fits
 exactly

dlen is the number of bytes that may be written, but a result of exactly
dlen bytes was rejected.
---
 src/libunicode/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index cb2b105..dafa4dd 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -110,7 +110,7 @@ int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t
         u8_char_t buf[4];
         auto const bufEnd = conv(source[i], buf);
         auto const bufLength = static_cast<size_t>(std::distance(buf, bufEnd));
-        if (!(bufLength < dlen))
+        if (bufLength > dlen)
             return -1;
 
         for (size_t k = 0; k < bufLength; ++k)
-- 
2.43.0


From 018f43a36dd5247aa59a44c465336a84ad584571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 09/22] fix: u32_gc_width() of an empty text must not access
 its first codepoint

---
 src/libunicode/capi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index dafa4dd..c4d9213 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -43,6 +43,9 @@ int u8_gc_count(u8_char_t const* codepoints, size_t size)
 
 int u32_gc_width(u32_char_t const* codepoints, size_t size, int mode)
 {
+    if (!size)
+        return 0;
+
     auto const text = std::u32string_view(reinterpret_cast<char32_t const*>(codepoints), size);
     auto totalWidth = 0;
     auto segmenter = unicode::grapheme_segmenter(text);
-- 
2.43.0


From dd8764b3da6c722bb77f290a2593b2c5b76acb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 10/22] fix: word_process_init() resets the whole state

Initialising a used state kept the flag that a transparent codepoint was
seen, which breaks the first pair of spaces of the next text apart.
---
 src/libunicode/word_segmenter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/word_segmenter.cpp b/src/libunicode/word_segmenter.cpp
index c3a50d0..b1d840f 100644
--- a/src/libunicode/word_segmenter.cpp
+++ b/src/libunicode/word_segmenter.cpp
@@ -88,6 +88,7 @@ void word_process_init(char32_t firstCodepoint, word_segmenter_state& state) noe
 
     state.raw_prev_wb = wb;
     state.prev_prev_wb = Word_Break::Other;
+    state.saw_transparent = false;
 
     if (is_transparent(wb))
     {
-- 
2.43.0


From cb60e58f806e5b1be0c27398fed088028370c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 11/22] fix: grapheme segmentation counts regional indicators
 wherever their run starts

The run length was only right when the run started with the codepoint the
state was initialised with, so driving grapheme_process_breakable() over a
stream (as scan_text() does) split every flag that follows other text.
---
 src/libunicode/grapheme_segmenter.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index c71e5fa..c832bff 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -41,15 +41,16 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     state.previousCodepoint = b;
     state.previousProperties = Pb;
 
-    {
-        // Set state.ri_counter to zero if the next codepoint is not of category Regional_Indicator.
-        //
-        // We move the state.ri_counter out to help GCC optimize
-        // this code to be branchless.
-        // Sadly only GCC succeeds in doing this and Clang fails.
-        auto const ri_counter = state.ri_counter;
-        state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? ri_counter : 0;
-    }
+    // Count the run of Regional_Indicator codepoints (modulo 2), or set it to zero if the next
+    // codepoint is not of category Regional_Indicator. A run may start anywhere, not just with the
+    // first codepoint the state was initialized with.
+    //
+    // We move the state.ri_counter out to help GCC optimize
+    // this code to be branchless.
+    // Sadly only GCC succeeds in doing this and Clang fails.
+    auto const prev_ri_counter = state.ri_counter;
+    state.ri_counter =
+        (B == Grapheme_Cluster_Break::Regional_Indicator) ? static_cast<uint8_t>((prev_ri_counter + 1) % 2) : 0;
 
     // GB3: Do not break between a CR and LF. Otherwise, break before and after controls.
     if (A == Grapheme_Cluster_Break::CR && B == Grapheme_Cluster_Break::LF)
@@ -143,11 +144,8 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     // GB12/GB13: Do not break within emoji flag sequences.
     // That is, do not break between regional indicator (RI) symbols
     // if there is an odd number of RI characters before the break point.
-    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 1)
-    {
-        state.ri_counter = static_cast<uint8_t>((state.ri_counter + 1) % 2);
+    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && prev_ri_counter == 1)
         return false;
-    }
 
     // GB999: Otherwise, break everywhere.
     return true;
-- 
2.43.0


From 61c4908fe3984243f5cd358000507315f97c09b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 12/22] fix: scan_text accounts for ill-formed UTF-8 at the
 place it is in

---
 src/libunicode/scan.cpp | 60 ++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 70b8aa0..72334f6 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -55,6 +55,12 @@ namespace
         return value >= 0x80 && value <= 0x9F;
     }
 
+    // Tests if the given byte can only continue a UTF-8 sequence.
+    constexpr bool is_continuation(char ch) noexcept
+    {
+        return (static_cast<uint8_t>(ch) & 0b1100'0000) == 0b1000'0000;
+    }
+
     // Tests if given UTF-8 byte is part of a complex Unicode codepoint, that is, a value greater than U+7E.
     constexpr bool is_complex(char ch) noexcept
     {
@@ -90,8 +96,6 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
     char const* input = start;
     char const* clusterStart = start;
 
-    unsigned byteCount = 0; // bytes consumed for the current codepoint
-
     // How much of the open cluster's width THIS call has contributed. The cluster may have been
     // opened by an earlier call, whose columns are already spent and cannot be taken back here, so
     // this -- not state.reportedClusterWidth -- bounds what a rewind may subtract from count.
@@ -100,6 +104,9 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
     char const* resultStart = state.utf8.expectedLength ? start - state.utf8.currentLength : start;
     char const* resultEnd = resultStart;
 
+    // Start of the codepoint being decoded, which an earlier call may have begun.
+    char const* codepointStart = resultStart;
+
     // Hands over the cluster spanning [clusterStart, clusterEnd). Called at every cluster boundary
     // and once more when the scan ends, so the last cluster is not dropped. A cluster put back
     // because it did not fit leaves the range empty and is correctly not delivered.
@@ -110,8 +117,34 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         clusterStart = clusterEnd;
     };
 
+    // Accounts for the ill-formed sequence [codepointStart, sequenceEnd), which takes one column.
+    // Returns false, putting the sequence back, if that column is not left.
+    auto const acceptInvalid = [&](char const* sequenceEnd) noexcept {
+        state.utf8 = {};
+        if (count + 1 > maxColumnCount)
+        {
+            input = codepointStart;
+            return false;
+        }
+        flushOpenCluster(codepointStart);
+        count++;
+        receiver.receiveInvalidGraphemeCluster();
+        clusterWidthCountedHere = 0;
+        state.clusterWidth.reset();
+        state.reportedClusterWidth = 0;
+        state.lastCodepointHint = 0;
+        state.graphemeState = {};
+        clusterStart = codepointStart = resultEnd = sequenceEnd;
+        return true;
+    };
+
     while (input != end && count <= maxColumnCount)
     {
+        // A byte that does not continue the incomplete sequence ends it. The byte itself may well be
+        // the start of the next codepoint, or a control.
+        if (state.utf8.expectedLength && !is_continuation(*input) && !acceptInvalid(input))
+            break;
+
         // Stop at a C1 control (0x80..0x9F) sitting at a character boundary: it is a control, not
         // text, so -- like a C0 control -- it is left for the caller. The expectedLength guard keeps
         // a continuation byte that merely falls in 0x80..0x9F (e.g. the middle byte of U+2018) as
@@ -121,13 +154,6 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
             // A control ends whatever cluster was open, so hand it over before dropping the state.
             flushOpenCluster(input);
 
-            // Incomplete UTF-8 sequence hit. That's invalid as well.
-            if (state.utf8.expectedLength)
-            {
-                ++count;
-                receiver.receiveInvalidGraphemeCluster();
-                state.utf8 = {};
-            }
             state.lastCodepointHint = 0;
             state.graphemeState = {};
             state.clusterWidth.reset();
@@ -137,7 +163,6 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         }
 
         auto const result = from_utf8(state.utf8, static_cast<uint8_t>(*input++));
-        ++byteCount;
 
         if (holds_alternative<Incomplete>(result))
             continue;
@@ -146,8 +171,6 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         {
             auto const prevCodepoint = state.lastCodepointHint;
             auto const nextCodepoint = get<Success>(result).value;
-            char const* const codepointStart = input - byteCount;
-            byteCount = 0;
             state.lastCodepointHint = nextCodepoint;
 
             bool const breakable = [&] {
@@ -217,20 +240,13 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 state.reportedClusterWidth = updatedWidth;
                 resultEnd = input;
             }
+            codepointStart = input;
         }
         else
         {
             assert(holds_alternative<Invalid>(result));
-            flushOpenCluster(input - byteCount);
-            count++;
-            receiver.receiveInvalidGraphemeCluster();
-            clusterWidthCountedHere = 0;
-            state.clusterWidth.reset();
-            state.reportedClusterWidth = 0;
-            state.lastCodepointHint = 0;
-            state.graphemeState = {};
-            state.utf8.expectedLength = 0;
-            byteCount = 0;
+            if (!acceptInvalid(input))
+                break;
         }
     }
 
-- 
2.43.0


From 1b4492312b75292c27ca9e6c0dc4b8fe56bd4db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 13/22] fix: scan_text puts a cluster back together with the
 state it began in

---
 src/libunicode/scan.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 72334f6..6b9bcb5 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -107,6 +107,11 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
     // Start of the codepoint being decoded, which an earlier call may have begun.
     char const* codepointStart = resultStart;
 
+    // The state as of clusterStart, to go back to when the open cluster is put back: a later call will
+    // see its codepoints again, and must not take them for a continuation of themselves.
+    auto clusterStartState = state;
+    clusterStartState.utf8 = {};
+
     // Hands over the cluster spanning [clusterStart, clusterEnd). Called at every cluster boundary
     // and once more when the scan ends, so the last cluster is not dropped. A cluster put back
     // because it did not fit leaves the range empty and is correctly not delivered.
@@ -134,6 +139,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         state.reportedClusterWidth = 0;
         state.lastCodepointHint = 0;
         state.graphemeState = {};
+        clusterStartState = {};
         clusterStart = codepointStart = resultEnd = sequenceEnd;
         return true;
     };
@@ -192,12 +198,15 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 if (count + nextWidth > maxColumnCount)
                 {
                     // Currently scanned grapheme cluster won't fit. Break at its start.
+                    flushOpenCluster(codepointStart);
                     input = codepointStart;
+                    state = {};
                     break;
                 }
 
                 // The cluster that just ended spans everything up to this codepoint.
                 flushOpenCluster(codepointStart);
+                clusterStartState = {};
 
                 count += nextWidth;
                 clusterWidthCountedHere = nextWidth;
@@ -224,8 +233,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                         count -= clusterWidthCountedHere;
                         input = clusterStart;
                         resultEnd = clusterStart;
-                        state.clusterWidth.reset();
-                        state.reportedClusterWidth = 0;
+                        state = clusterStartState;
                         break;
                     }
                     count += added;
-- 
2.43.0


From 999c78af2425922329d7cfa260202b75118502aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 14/22] fix: scan_text hands over whole codepoints, each byte
 once

---
 src/libunicode/scan.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 6b9bcb5..a4cc8ca 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -94,8 +94,6 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
     char const* start = text.data();
     char const* end = start + text.size();
     char const* input = start;
-    char const* clusterStart = start;
-
     // How much of the open cluster's width THIS call has contributed. The cluster may have been
     // opened by an earlier call, whose columns are already spent and cannot be taken back here, so
     // this -- not state.reportedClusterWidth -- bounds what a rewind may subtract from count.
@@ -103,6 +101,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
 
     char const* resultStart = state.utf8.expectedLength ? start - state.utf8.currentLength : start;
     char const* resultEnd = resultStart;
+    char const* clusterStart = resultStart;
 
     // Start of the codepoint being decoded, which an earlier call may have begun.
     char const* codepointStart = resultStart;
@@ -258,8 +257,8 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         }
     }
 
-    // Hand over whatever cluster the scan ended inside of.
-    flushOpenCluster(input);
+    // Hand over whatever cluster the scan ended inside of, but no byte of a codepoint still incomplete.
+    flushOpenCluster(resultEnd);
 
     assert(resultStart <= resultEnd);
 
-- 
2.43.0


From 1648be99533db50d46740c6a6bfb1c6c94072c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 15/22] fix: scan_text ends the open cluster at a C0 control
 starting a call

---
 src/libunicode/scan.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index a4cc8ca..ae42a39 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -314,7 +314,17 @@ scan_result scan_text(scan_state& state,
             case NextState::Trivial: {
                 auto const count = detail::scan_for_text_ascii(text, maxColumnCount - result.count);
                 if (!count)
+                {
+                    // A control ends whatever cluster an earlier call left open.
+                    if (is_control(text.front()))
+                    {
+                        state.lastCodepointHint = 0;
+                        state.graphemeState = {};
+                        state.clusterWidth.reset();
+                        state.reportedClusterWidth = 0;
+                    }
                     return result;
+                }
                 receiver.receiveAsciiSequence(text.substr(0, count));
 
                 // A cluster does not have to respect the boundary between the two scanners: the last
-- 
2.43.0


From 1fe245704a7217c83331e2cb01325a0200862131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 16/22] fix: GB11 allows exactly one ZWJ, directly before the
 pictograph

---
 src/libunicode/grapheme_segmenter.cpp | 8 +++++---
 src/libunicode/grapheme_segmenter.h   | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index c832bff..b9b1453 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -88,8 +88,10 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     {
         if (Pb.is_extended_pictographic())
             state.extpic_state = 1;
-        else if ((B == Grapheme_Cluster_Break::Extend || B == Grapheme_Cluster_Break::ZWJ) && prev_extpic_state == 1)
-            ; // keep state - Extend/ZWJ extend the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::Extend && prev_extpic_state == 1)
+            ; // keep state - Extend extends the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::ZWJ && prev_extpic_state == 1)
+            state.extpic_state = 2; // the one ZWJ, which has to be the last codepoint of the chain
         else
             state.extpic_state = 0;
     }
@@ -138,7 +140,7 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
 
     // GB11: Do not break within emoji modifier sequences or emoji zwj sequences.
     // Full rule: \p{Extended_Pictographic} Extend* ZWJ × \p{Extended_Pictographic}
-    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 1)
+    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 2)
         return false;
 
     // GB12/GB13: Do not break within emoji flag sequences.
diff --git a/src/libunicode/grapheme_segmenter.h b/src/libunicode/grapheme_segmenter.h
index faa0c2d..7e7eec3 100644
--- a/src/libunicode/grapheme_segmenter.h
+++ b/src/libunicode/grapheme_segmenter.h
@@ -41,7 +41,8 @@ struct grapheme_segmenter_state
 
     /// GB11 Extended Pictographic tracking state:
     /// 0 = no ExtPic context
-    /// 1 = saw ExtPic (or ExtPic followed by Extend*/ZWJ chain)
+    /// 1 = saw ExtPic Extend*
+    /// 2 = saw ExtPic Extend* ZWJ (ready for GB11)
     uint8_t extpic_state = 0;
 };
 
-- 
2.43.0


From 1446d257f459d6a8db3339d6b13efa0270a2d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 17/22] fix: a read error while loading the UCD is an error,
 not the end of the file

---
 src/libunicode/codepoint_properties_loader.cpp | 2 ++
 src/libunicode/tablegen/ucd_parser.cpp         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/libunicode/codepoint_properties_loader.cpp b/src/libunicode/codepoint_properties_loader.cpp
index 146edce..12ee3ae 100644
--- a/src/libunicode/codepoint_properties_loader.cpp
+++ b/src/libunicode/codepoint_properties_loader.cpp
@@ -462,6 +462,8 @@ namespace
             auto f = ifstream(filePath);
             if (!f.good())
                 throw std::runtime_error("Could not open file: "s + filePath);
+            // A read error must not be mistaken for the end of the file.
+            f.exceptions(std::ios::badbit);
             while (f.good())
             {
                 string line;
diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index f2d46f7..44d9800 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -69,6 +69,8 @@ namespace
         auto f = std::ifstream(path);
         if (!f.is_open())
             throw std::runtime_error("Failed to open file: " + path);
+        // A read error must not be mistaken for the end of the file.
+        f.exceptions(std::ios::badbit);
         return f;
     }
     /// Parsed result from a standard UCD data line.
-- 
2.43.0


From aab3889828a0bf7b85073786420ecf20e97b0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 18/22] fix: tablegen reports failing to create, write or close
 a generated file

---
 src/libunicode/tablegen/case_norm_generator.cpp  |  3 ++-
 src/libunicode/tablegen/enum_generator.cpp       |  9 ++++++---
 src/libunicode/tablegen/enum_utils.h             | 13 +++++++++++++
 src/libunicode/tablegen/multistage_generator.cpp | 10 +++++++---
 src/libunicode/tablegen/ucd_api_generator.cpp    |  6 ++++--
 5 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/libunicode/tablegen/case_norm_generator.cpp b/src/libunicode/tablegen/case_norm_generator.cpp
index 09d5381..7b7d0e6 100644
--- a/src/libunicode/tablegen/case_norm_generator.cpp
+++ b/src/libunicode/tablegen/case_norm_generator.cpp
@@ -290,7 +290,7 @@ namespace
 
 void generateCaseNormFile(UcdParser const& parser, std::string const& outputDir)
 {
-    auto out = std::ofstream(outputDir + "/case_normalization_data.h", std::ios::binary);
+    auto out = openOutputFile(outputDir + "/case_normalization_data.h", std::ios::binary);
 
     out << licenseHeader;
     out << R"(
@@ -364,6 +364,7 @@ namespace unicode::detail
     out << "// clang-format on\n";
     out << "\n";
     out << "} // namespace unicode::detail\n";
+    out.close();
 }
 
 } // namespace tablegen
diff --git a/src/libunicode/tablegen/enum_generator.cpp b/src/libunicode/tablegen/enum_generator.cpp
index 86b451a..82803d3 100644
--- a/src/libunicode/tablegen/enum_generator.cpp
+++ b/src/libunicode/tablegen/enum_generator.cpp
@@ -234,7 +234,7 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
 
     // ---- ucd_enums.h ----
     {
-        auto out = std::ofstream(outputDir + "/ucd_enums.h", std::ios::binary);
+        auto out = openOutputFile(outputDir + "/ucd_enums.h", std::ios::binary);
         out << licenseHeader;
         out << "#pragma once\n";
         out << "\n";
@@ -244,11 +244,12 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         for (auto const& def: enums)
             writeEnumClass(out, def);
         out << "} // namespace unicode\n";
+        out.close();
     }
 
     // ---- ucd_ostream.h ----
     {
-        auto out = std::ofstream(outputDir + "/ucd_ostream.h", std::ios::binary);
+        auto out = openOutputFile(outputDir + "/ucd_ostream.h", std::ios::binary);
         out << licenseHeader;
         out << "#pragma once\n";
         out << "\n";
@@ -260,11 +261,12 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         for (auto const& def: enums)
             writeEnumOstream(out, def);
         out << "} // namespace unicode\n";
+        out.close();
     }
 
     // ---- ucd_fmt.h ----
     {
-        auto out = std::ofstream(outputDir + "/ucd_fmt.h", std::ios::binary);
+        auto out = openOutputFile(outputDir + "/ucd_fmt.h", std::ios::binary);
         out << licenseHeader;
         out << "#pragma once\n";
         out << "\n";
@@ -274,6 +276,7 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         out << "\n";
         for (auto const& def: enums)
             writeEnumFormatter(out, def);
+        out.close();
     }
 }
 
diff --git a/src/libunicode/tablegen/enum_utils.h b/src/libunicode/tablegen/enum_utils.h
index 77e5789..78c1c41 100644
--- a/src/libunicode/tablegen/enum_utils.h
+++ b/src/libunicode/tablegen/enum_utils.h
@@ -15,8 +15,11 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <fstream>
+#include <ios>
 #include <map>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -40,6 +43,16 @@ constexpr std::string_view licenseHeader = R"(/**
 */
 )";
 
+/// Opens a file to be generated. Failing to open, to write or to close() it throws.
+inline auto openOutputFile(std::string const& path, std::ios::openmode mode = std::ios::out) -> std::ofstream
+{
+    auto out = std::ofstream(path, mode);
+    if (!out.is_open())
+        throw std::runtime_error("Failed to create file: " + path);
+    out.exceptions(std::ios::failbit | std::ios::badbit);
+    return out;
+}
+
 /// Build name -> enum integer index map for a given enum, using the exact same
 /// member ordering as the generated ucd_enums.h.
 ///
diff --git a/src/libunicode/tablegen/multistage_generator.cpp b/src/libunicode/tablegen/multistage_generator.cpp
index 5c58c09..42e65f5 100644
--- a/src/libunicode/tablegen/multistage_generator.cpp
+++ b/src/libunicode/tablegen/multistage_generator.cpp
@@ -655,9 +655,9 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
     auto implPath = outputDir + "/codepoint_properties_data.cpp";
     auto namesPath = outputDir + "/codepoint_properties_names.cpp";
 
-    auto header = std::ofstream(headerPath);
-    auto impl = std::ofstream(implPath);
-    auto namesFile = std::ofstream(namesPath);
+    auto header = openOutputFile(headerPath);
+    auto impl = openOutputFile(implPath);
+    auto namesFile = openOutputFile(namesPath);
 
     // Header
     header << disclaimer;
@@ -727,6 +727,10 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
     namesFile << "} // end namespace " << namespaceName << "\n";
 
     header << "\n} // end namespace " << namespaceName << "\n";
+
+    header.close();
+    impl.close();
+    namesFile.close();
 }
 
 } // namespace tablegen
diff --git a/src/libunicode/tablegen/ucd_api_generator.cpp b/src/libunicode/tablegen/ucd_api_generator.cpp
index 7cfd1d2..1bd5703 100644
--- a/src/libunicode/tablegen/ucd_api_generator.cpp
+++ b/src/libunicode/tablegen/ucd_api_generator.cpp
@@ -103,8 +103,8 @@ namespace
 
 void generateUcdApiFiles(UcdParser const& parser, std::string const& outputDir)
 {
-    auto header = std::ofstream(outputDir + "/ucd.h", std::ios::binary);
-    auto impl = std::ofstream(outputDir + "/ucd.cpp", std::ios::binary);
+    auto header = openOutputFile(outputDir + "/ucd.h", std::ios::binary);
+    auto impl = openOutputFile(outputDir + "/ucd.cpp", std::ios::binary);
 
     // ---- File headers ----
     header << licenseHeader;
@@ -614,6 +614,8 @@ namespace unicode
     // ---- File footers ----
     header << "} // namespace unicode\n";
     impl << "} // namespace unicode\n";
+    header.close();
+    impl.close();
 }
 
 } // namespace tablegen
-- 
2.43.0


From daeaed0af1ff0c82f14c790b3f7cfb7db95ae87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 19/22] fix: unicode-query escapes control codes only, with two
 digits

On platforms with a signed char every byte of a non-ASCII character was taken
for a control code, and codes below 16 were padded with a space.
---
 src/tools/unicode-query.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 18bf2cd..c732a51 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -44,8 +44,8 @@ std::string escapeControlCodes(std::string const& text)
     auto result = stringstream {};
     for (char const ch: text)
     {
-        if (ch < 0x20)
-            result << "\\x" << setw(2) << std::hex << (unsigned(ch) & 0xFF);
+        if (static_cast<unsigned char>(ch) < 0x20)
+            result << "\\x" << setfill('0') << setw(2) << std::hex << (unsigned(ch) & 0xFF);
         else
             result << ch;
     }
@@ -57,10 +57,10 @@ std::string escaped(std::string const& text)
     auto result = stringstream {};
     for (char const ch: text)
     {
-        if (std::isprint(ch) && ch != '"')
+        if (std::isprint(static_cast<unsigned char>(ch)) && ch != '"')
             result << ch;
         else
-            result << "\\x" << setw(2) << std::hex << (unsigned(ch) & 0xFF);
+            result << "\\x" << setfill('0') << setw(2) << std::hex << (unsigned(ch) & 0xFF);
     }
     return result.str();
 }
-- 
2.43.0


From a8e13f61f50b46d67294d3d13fcd92af64be7da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 20/22] fix: unicode-query shows codepoints that are not
 assigned

Their age is not a version: the assertion failed, or the name lost its first letter.
---
 src/tools/unicode-query.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index c732a51..9a286b8 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -131,6 +131,8 @@ string prettyAge(unicode::Age age)
     // clang-format off
     string str = [=]() { auto s = ostringstream(); s << age; return s.str(); }();
     // clang-format on
+    if (age == unicode::Age::Unassigned)
+        return str;
     assert(str.at(0) == 'V');
     str = str.substr(1);
     replace(str.begin(), str.end(), '_', '.');
-- 
2.43.0


From e28b9aa3ce3a97d48a4771d7f701b2f04440ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 21/22] fix: unicode-query reports output that it could not
 write

It ended with status 0 however much of its output was lost.
---
 src/tools/unicode-query.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 9a286b8..ca938f1 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -24,6 +24,7 @@
 
 #include <cassert>
 #include <charconv>
+#include <cstdio>
 #include <iomanip>
 #include <iostream>
 #include <optional>
@@ -271,17 +272,8 @@ int showRuns(int argc, char const* argv[])
     return EXIT_SUCCESS;
 }
 // }}}
-} // namespace
 
-// Example usage:
-//
-// unicode-query [properties] U+1234 [U+5678 ...]
-//
-// unicode-query analyze "Text string"
-//
-//     Analyzes the given input string for common Unicode properties
-//     and prints out each segments with the gathered information.
-int main(int argc, char const* argv[])
+int query(int argc, char const* argv[])
 {
     if (argc == 1)
         return printUsage(EXIT_FAILURE);
@@ -307,3 +299,20 @@ int main(int argc, char const* argv[])
 
     return showCodepointProperties(argc - argIndex, argv + argIndex);
 }
+} // namespace
+
+// Example usage:
+//
+// unicode-query [properties] U+1234 [U+5678 ...]
+//
+// unicode-query analyze "Text string"
+//
+//     Analyzes the given input string for common Unicode properties
+//     and prints out each segments with the gathered information.
+int main(int argc, char const* argv[])
+{
+    auto const result = query(argc, argv);
+
+    // Output that did not get out is a failure. The C library does not always tell the stream.
+    return cout.flush() && !ferror(stdout) ? result : EXIT_FAILURE;
+}
-- 
2.43.0


From c622a51d855787c1a8623f365d5424b5f3a69cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:36 +0000
Subject: [PATCH 22/22] fix: is_full_composition_exclusion() covers singletons
 and non-starter decompositions

---
 src/libunicode/normalization.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index aa58cab..f25973f 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -312,7 +312,9 @@ bool is_composition_exclusion(char32_t codepoint) noexcept
 
 bool is_full_composition_exclusion(char32_t codepoint) noexcept
 {
-    return is_composition_exclusion(codepoint);
+    // Besides the script-specific and post-composition exclusions, that is singletons and non-starter
+    // decompositions: exactly the codepoints with NFC_Quick_Check=No.
+    return contains_codepoint(detail::nfc_qc_no_table, codepoint);
 }
 
 // ============================================================================
-- 
2.43.0

