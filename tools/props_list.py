I = ["inputs"]; H = ["inputs", "histories"]
T_ENUM = "bounded exhaustive enumeration of the real code against a reference model"

# ---------------------------------------------------------------- bidi
p("B01", "Bidi paragraphs: split and base direction",
  "For every text, the bidi analysis splits the text into paragraphs that cover it exactly, each ending at its paragraph separator or at the end of the text, and it records for every byte the bidi class of the character it belongs to. Each paragraph's base level is the requested one, or else the one rules P2 and P3 of UAX #9 give (first strong character outside isolates, left-to-right when there is none), and an FSI behaves as RLI or LRI by the same rules applied to its content.",
  I, "every text, with every requested base level (none, left-to-right, right-to-left)",
  "The BidiTest.txt conformance lists are sampled by the existing tests (and the known-failing ones are counted, not fixed); interactions of isolates, separators and multi-byte characters need every word over the bidi classes.",
  ["unic/bidi/src/bidi_info.rs", "unic/bidi/src/prepare.rs", "unic/bidi/src/explicit.rs"],
  [("paragraph scan with isolate stack and FSI resolution", "unic/bidi/src/bidi_info.rs InitialInfo/BidiInfo construction")],
  ["BidiInfo::paragraphs", "BidiInfo::original_classes", "ParagraphInfo level/range"],
  T_ENUM, "Every word over the bidi classes up to the stated length, plus deep nesting; oracle is a literal transcription of UAX #9 P1-P3, X5c.")
p("B02", "Bidi levels: every byte gets the level of UAX #9",
  "For every text and requested base level, the level computed for each character is the one that rules X1-X8, W1-W7, N0-N2, I1 and I2 of UAX #9 give, no level exceeds 126, nesting beyond the depth limit is handled by the overflow rules, and all bytes of a character have the same level. Resolving never panics and never hangs.",
  I, "every text, with every requested base level",
  "The conformance tests list fixed cases, tolerate failures by design, and stop at short lines; overflow counters, removed characters (X9) inside isolating runs, and multi-byte runs interact only in combinations.",
  ["unic/bidi/src/explicit.rs", "unic/bidi/src/prepare.rs", "unic/bidi/src/implicit.rs"],
  [("directional status stack with overflow counters", "unic/bidi/src/explicit.rs"), ("isolating run sequences", "unic/bidi/src/prepare.rs"), ("weak, neutral and implicit rules", "unic/bidi/src/implicit.rs")],
  ["BidiInfo::levels"], T_ENUM,
  "All words over all classes to length 4, over the classes of each rule group to length 6-7, and depth/overflow patterns; oracle is a literal transcription of UAX #9. N0 (bracket pairs) is documented as missing: known finding.")
p("B03", "Bidi lines: display reordering is a permutation by rules L1 and L2",
  "For every text, paragraph and line range on character boundaries, the reordered line contains exactly the line's characters, each once and whole, in the order rules L1 and L2 give for the line's levels. The visual runs of the line partition it, each has one level, and the levels after L1 reset separators and trailing whitespace to the paragraph level; whether a text is reported as having right-to-left content agrees with its levels.",
  I, "every text, base level, and line range in a paragraph",
  "Tests reorder a few dozen whole paragraphs; lines that start or end inside a paragraph, and trailing whitespace split across lines, are not sampled.",
  ["unic/bidi/src/bidi_info.rs", "unic/bidi/src/level.rs"],
  [("visual runs and run reversal", "unic/bidi/src/bidi_info.rs visual_runs/reorder_line")],
  ["BidiInfo::reorder_line", "BidiInfo::visual_runs", "BidiInfo::reordered_levels", "BidiInfo::has_rtl"], T_ENUM,
  "Every short text over the L1/L2-relevant classes, every line range of it; oracle is a literal transcription of L1 and L2.")
p("B04", "Bidi level numbers stay in range under every operation",
  "Every bidi level value reachable through the public API, by construction, by raising, lowering or by deserialization, is in the range its constructor allows, and an operation that would leave the range reports an error and leaves the level unchanged. Parity decides the direction, and the level's class, comparisons, conversions and serialized form agree with its number.",
  H, "every level number, every operation and operand, every history of operations",
  "Tests try a handful of numbers; the guarantee is over all 127 levels, 256 operands and their histories.",
  ["unic/bidi/src/level.rs"], [("checked constructors and checked raise/lower", "unic/bidi/src/level.rs")],
  ["Level::new", "Level::raise*", "Level::lower*", "serde"], "explicit-state exploration of all reachable Level states on the real type",
  "Complete: breadth-first search closes over all reachable levels, all operands.")

# ---------------------------------------------------------------- normalization
p("N01", "Normalization forms are those of UAX #15 for every string",
  "For every string, the NFD, NFC, NFKD and NFKC iterators yield exactly the characters that the normalization algorithm of UAX #15 yields with Unicode 10.0 data: full decomposition, canonical ordering by combining class, then composition of non-blocked pairs other than the composition exclusions.",
  I, "every string, four forms",
  "NormalizationTest.txt tests single characters and fixed sequences; blocking, reordering across composed starters, Hangul sequences and long runs of marks depend on arbitrary combinations.",
  ["unic/normal/src/decompose.rs", "unic/normal/src/recompose.rs", "unic/ucd/normal/src"],
  [("stable sort of the pending marks", "unic/normal/src/decompose.rs"), ("composition state machine", "unic/normal/src/recompose.rs")],
  ["StrNormalForm::nfd/nfc/nfkd/nfkc"], T_ENUM,
  "Every scalar alone and in context, every word over an alphabet that exercises each state of the composition machine; oracle is a separate UAX #15 implementation on Unicode 10.0 data from Go's x/text.")
p("N02", "Normalization iterators stream: idempotent, lazy, fused, form-stable",
  "Each normalization form is idempotent, the canonical forms agree with each other on every string (the NFC of the NFD is the NFC, and so for the other pairs), and a string and the iterator over its characters normalize alike. The iterators yield the same characters however they are stepped, cloned or formatted, keep yielding nothing after the end, and give length bounds that hold.",
  H, "every string, and every history of calls on the iterator",
  "Tests collect the whole iterator at once; cloning or formatting a half-consumed iterator, and resuming after the end, are never tried.",
  ["unic/normal/src/decompose.rs", "unic/normal/src/recompose.rs", "unic/normal/src/lib.rs"],
  [("buffered iterator states", "unic/normal/src/recompose.rs")], ["Iterator impls", "Display impls", "Clone"], T_ENUM,
  "All words over the composition alphabet, all positions at which the iterator is cloned, formatted or polled past the end.")
p("N03", "Canonical composition and decomposition primitives agree with the UCD",
  "For every character, the canonical and compatibility decompositions are the full ones of Unicode 10.0, and for every pair of characters composition returns the primary composite and nothing else; Hangul syllables decompose and compose algorithmically, and composing the decomposition of a composable character gives it back.",
  I, "every character and every pair of characters",
  "Tests try under twenty pairs; the pair space (starters with every possible second character, and the Hangul boundaries) is not sampled.",
  ["unic/ucd/normal/src/composition.rs", "unic/ucd/normal/src/decomposition.rs", "unic/ucd/normal/src/lib.rs", "unic/ucd/hangul/src/hangul.rs"],
  [("composition tables and Hangul arithmetic", "unic/ucd/normal, unic/ucd/hangul")], ["compose", "decompose_canonical", "decompose_compatible"], T_ENUM,
  "Complete over characters; complete over pairs (any first that composes with anything, or Hangul, with every second; plus all pairs over a dense subset).")
# ---------------------------------------------------------------- segmentation
p("S01", "Grapheme clusters are those of UAX #29, forwards and backwards",
  "For every string, the extended and the legacy grapheme cluster iterators split it at exactly the boundaries that UAX #29 gives with Unicode 10.0 data; the pieces are whole, in order and concatenate to the string, the reported offsets are the pieces' offsets, and iterating backwards or from both ends yields the same pieces.",
  H, "every string, extended and legacy, every interleaving of steps from the front and the back",
  "GraphemeBreakTest.txt has 800 short strings, mostly pairs; regional-indicator and emoji sequences need unbounded look-behind, and mixed front/back stepping is not tested.",
  ["unic/segment/src/grapheme.rs", "unic/ucd/segment/src/grapheme_cluster_break.rs"],
  [("pair table plus look-behind states", "unic/segment/src/grapheme.rs")], ["Graphemes", "GraphemeIndices"], T_ENUM,
  "Every word over the break classes up to the bound, forwards, backwards and every front/back interleaving; oracle is a declarative transcription of GB1-GB999.")
p("S02", "The grapheme cursor answers the same whatever chunks it is given",
  "For every string, however it is cut into chunks and wherever the cursor starts, the cursor's answers to boundary, next and previous queries, after supplying the context it asks for, are the ones it gives for the whole string. It asks only for context that exists, asks a bounded number of times, and repositioning a cursor is the same as making a new one there.",
  H, "every string, every chunking, every cursor position, every history of queries and repositionings",
  "Tests cover four hand-written chunkings; the protocol is a state machine over chunk histories.",
  ["unic/segment/src/grapheme.rs"], [("cursor state with pending context", "GraphemeCursor in unic/segment/src/grapheme.rs")],
  ["GraphemeCursor::{is_boundary,next_boundary,prev_boundary,provide_context,set_cursor}"],
  "exhaustive exploration of the cursor protocol's histories on the real code",
  "Every short word over the break classes, every chunking, every start and query history to the bound; oracle is the whole-string boundary set.")
p("S03", "Word boundaries are those of UAX #29",
  "For every string, the word-boundary iterator splits it at exactly the boundaries that UAX #29 gives with Unicode 10.0 data, pieces are whole, in order and concatenate to the string, and the reported offsets are the pieces' offsets.",
  I, "every string", "WordBreakTest.txt has 1,800 short strings; rules that look two characters ahead or behind across ignorable characters need arbitrary combinations.",
  ["unic/segment/src/word.rs", "unic/ucd/segment/src/word_break.rs"], [("forward state machine", "unic/segment/src/word.rs")],
  ["WordBounds", "WordBoundIndices"], T_ENUM,
  "Every word over the word-break classes up to the bound; oracle is a declarative transcription of WB1-WB999.")
p("S04", "Word iteration from the back, from both ends and filtered agrees with forward",
  "For every string, iterating word boundaries backwards, or by any interleaving of steps from the front and the back, yields exactly the pieces of forward iteration; the remaining text reported at any moment is the part not yet yielded; and the filtered word iterator yields exactly the pieces its filter accepts, in either direction.",
  H, "every string, every interleaving of next and next_back",
  "Tests iterate fully in one direction; mixed stepping over strings with ignorables and regional indicators is a history property.",
  ["unic/segment/src/word.rs"], [("backward state machine", "unic/segment/src/word.rs DoubleEndedIterator for WordBounds")],
  ["WordBounds", "WordBoundIndices", "Words"], T_ENUM,
  "Every word over the word-break classes up to the bound, and every front/back interleaving of short ones.")
# ---------------------------------------------------------------- IDNA
p("I01", "Punycode encoding and decoding are those of RFC 3492",
  "For every string, Punycode encoding yields the RFC 3492 encoding, and decoding it gives the string back; decoding any text yields the RFC 3492 result or a failure, never a panic, a hang or an invalid character, and what it accepts is what the RFC defines. Encoding and decoding fail only on overflow or malformed input.",
  I, "every string to encode and every text to decode",
  "Tests use the RFC's 19 samples; malformed input, overflow and all delta/bias paths are unbounded.",
  ["unic/idna/punycode/src/lib.rs"], [("generalized variable-length integers with bias adaptation", "unic/idna/punycode/src/lib.rs")],
  ["encode", "encode_str", "decode", "decode_to_string"], T_ENUM,
  "Every word over the digit alphabet to the bound, every short sequence of code points at the boundaries; oracle is a big-integer transcription of RFC 3492.")
p("I02", "The IDNA mapping table gives every character's UTS #46 status",
  "For every character, the status (valid, mapped with its replacement, ignored, deviation, disallowed, and the STD3 variants) that domain processing uses is the one UTS #46 version 10.0 gives.",
  I, "every character", "The conformance test uses 2,400 domains, touching a small part of the 8,000 table ranges.",
  ["unic/idna/mapping/src/mapping.rs", "unic/idna/mapping/tables"], [("range table lookup", "unic/idna/mapping")], ["Mapping::of"], T_ENUM,
  "Complete over all scalar values; oracle is the IDNA 10.0.0 table of Go's x/net.")
p("I03", "Domain conversion follows the UTS #46 processing steps",
  "For every domain string and every choice of flags, conversion to ASCII and to Unicode gives the string and the success or failure that the UTS #46 steps give: map, normalize to NFC, split into labels, decode the ACE labels, and check each label for validity, for the bidi rule, and for lengths when asked.",
  I, "every domain string, every combination of the flags",
  "The conformance list fixes the flags and a few thousand domains; flags interact with mapping, ACE labels, bidi labels and lengths.",
  ["unic/idna/src/process.rs"], [("uts46 processing and validity check", "unic/idna/src/process.rs")], ["to_ascii", "to_unicode"], T_ENUM,
  "Every word over an alphabet with a member of every status and bidi class, all flags; oracle is a separate transcription of UTS #46 section 4 and RFC 5893.")
p("I04", "Converted domains are stable: ASCII, bounded and round-tripping",
  "Whenever conversion to ASCII succeeds, the result is all ASCII and lower case where mapped, converting it again gives it unchanged, and, when lengths are verified, each label has 1 to 63 characters and the name at most 253. Without transitional processing, a domain that converts to ASCII also converts to Unicode, its Unicode form converts to the same ASCII name, and its ASCII name shows as the same Unicode form, so that equal domains in any spelling (case, full-width letters, dots, ignored characters) get one name.",
  I, "every domain string, every combination of the flags",
  "Security of IDNA lookups rests on this for all inputs; tests only compare listed pairs.",
  ["unic/idna/src/process.rs", "unic/idna/punycode/src/lib.rs"], [("processing pipeline", "unic/idna/src/process.rs")], ["to_ascii", "to_unicode"], T_ENUM,
  "Every word over the IDNA alphabet to the bound, length families around the limits 63 and 253.")
# ---------------------------------------------------------------- char
p("C01", "Character ranges iterate every scalar value once, from both ends",
  "For every range of characters and every interleaving of steps from the front and the back, the iterator yields exactly the range's scalar values in order, never a surrogate, and its reported length, last, minimum and maximum are those of what remains. After it is finished it stays finished.",
  H, "every range, every history of iterator calls",
  "Tests walk the full range once in each direction; ends at U+0000, U+10FFFF and around the surrogate gap, with mixed steps, form the state space.",
  ["unic/char/range/src/iter.rs", "unic/char/range/src/step.rs"], [("inclusive low/high state with swapped-ends finish", "unic/char/range/src/iter.rs")],
  ["CharIter"], "explicit-state exploration of iterator states and call histories on the real code",
  "Every range with ends near U+0000, the surrogate gap and U+10FFFF, every history of calls to the bound.")
p("C02", "Character range constructors and predicates agree with set semantics",
  "For every pair of ends, the closed, open, half-open, bounded and macro-built ranges contain exactly the characters their name promises, and membership, comparison with a character, emptiness, length, equality and the iterator agree with one another.",
  I, "every pair of ends, every character",
  "Doc examples use 'a'..'d'; adjacent ends, equal ends, reversed ends and the edges of the code space are not sampled.",
  ["unic/char/range/src/range.rs", "unic/char/range/src/macros.rs"], [("constructors via the iterator", "unic/char/range/src/range.rs")],
  ["CharRange::*", "chars!"], T_ENUM, "Every pair of ends from a set dense at the edges, every probe character from the same set; lengths over all ends.")
p("C03", "Parallel range iteration yields the same characters as sequential",
  "For every range, the parallel iterator yields exactly the characters of the sequential one, each once, with the same length and, when collected in order, the same order, whatever the number of threads and however the work is split.",
  ["inputs", "schedules"], "every range, every way to split the work",
  "Tests collect the full range once; other ranges and split points are never tried.",
  ["unic/char/range/src/par_iter.rs"], [("compaction of the surrogate gap", "unic/char/range/src/par_iter.rs")],
  ["IntoParallelIterator for CharRange"], "exhaustive exploration of all split trees of the real producer, with no thread pool nondeterminism",
  "Every range with ends near the edges; every recursive split sequence of short ranges through the producer interface.")
p("C04", "Lookup in a property table finds exactly its entries",
  "For every well-formed property table, direct or by ranges, and every character, lookup returns the value of the entry that holds the character, or nothing (or the default) when none does, containment agrees with lookup, and iteration yields every entry once in order.",
  I, "every well-formed table, every character",
  "Tests use three tiny tables; binary search errors hide at first, last and gap positions of tables of particular sizes.",
  ["unic/char/property/src/tables.rs", "unic/char/range/src/range.rs"], [("binary search", "unic/char/property/src/tables.rs")], ["CharDataTable::*"], T_ENUM,
  "Every table over a small universe (all subsets, all value assignments), all probes; for both layouts.")
p("C05", "Property value names round-trip for every property type",
  "For every property type, each value's abbreviated and long names, in any letter case, parse back to that value, no other name is accepted, displaying gives the human-readable name, the list of all values is complete and without repetition, the default is the value of characters the data does not list, and the property's own names are those of the UCD.",
  I, "every property type, every value, every spelling",
  "Tests parse a few names; clashes between abbreviations and case-insensitive matching over all values are not covered.",
  ["unic/char/property/src/macros.rs", "unic/char/property/src/range_types.rs"], [("char_property! macro", "unic/char/property/src/macros.rs")],
  ["FromStr", "Display", "EnumeratedCharProperty", "BinaryCharProperty"], T_ENUM,
  "Complete over all property types and values; spellings: every case variant of every name, plus near-miss words.")
p("C06", "Displaying a value writes its whole text or reports the failure",
  "Displaying a character name, code point notation, property value, combining class, bidi level, bidi analysis, Unicode version or partly consumed normalization iterator writes exactly the text of the value. When the sink refuses any write, once or for good, or runs out of room anywhere, displaying reports an error, and what a full or broken sink got is the beginning of the text.",
  ["inputs", "crash_points"], "every displayable value, every point at which the sink fails",
  "Tests format into strings, which never fail; an error that is dropped or overwritten in the middle of a multi-part text is invisible to them.",
  ["unic/ucd/name/src/name.rs", "unic/normal/src/decompose.rs", "unic/normal/src/recompose.rs", "unic/common/src/version.rs", "unic/char/basics/src/notation.rs", "unic/char/property/src/macros.rs"],
  [("names in pieces, syllables jamo by jamo", "unic/ucd/name/src/name.rs"), ("normalization character by character", "unic/normal/src")],
  ["Display impls"], "exhaustive fault injection into the sink of the real formatting code, against the reference text",
  "Complete over characters, property values, levels; all short texts for normalization; every write refused, once or for good, and every amount of room.")
p("C07", "Values compare and hash as what they stand for",
  "For every two values of every comparable type (property values, ages, versions, combining classes, names, alias types, bidi levels and analyses), they are equal exactly when they stand for the same thing, equal values and their clones hash alike, and where the type has an order, every form of comparison, the minimum, the maximum and sorting agree with one total order: numbers by number, ages by time, names by text.",
  I, "every pair of values", "Tests compare a handful of values; a comparison that skips a part, or a hash that disagrees with equality, breaks sets and maps only for particular pairs.",
  ["unic/char/property/src/macros.rs", "unic/ucd/age/src/age.rs", "unic/ucd/name/src/name.rs", "unic/bidi/src/level.rs", "unic/bidi/src/bidi_info.rs", "unic/common/src/version.rs", "unic/ucd/normal/src/canonical_combining_class.rs"],
  [("hand-written orders of ages and names", "unic/ucd/age/src/age.rs"), ("derived comparisons", "unic/char/property/src/macros.rs")],
  ["Eq, Ord and Hash impls"], "exhaustive enumeration of the pairs of values of the real types, against the order of what they stand for",
  "Complete over pairs of property values, ages, levels and combining classes; versions over 7 numbers per part; names: every neighbouring pair and all pairs of 694; analyses of all texts to 2.")
p("H01", "Answers depend on the question alone",
  "What a lookup, conversion, analysis or segmentation answers depends on its arguments alone: not on what was asked before, in which order, by which thread or about which text at the same place in memory; and an iterator yields the same items whatever other iterators are advanced between its steps.",
  ["histories", "schedules"], "every ordered pair of questions, every order of two threads' turns over them, every interleaving of two iterators' steps",
  "Tests ask each question once in a fresh process; state kept between calls (a cache with a lossy key, a remembered position) answers wrongly only after particular other calls.",
  ["unic/ucd", "unic/char/property/src/tables.rs", "unic/bidi/src", "unic/normal/src", "unic/segment/src", "unic/idna/src"],
  [("no state outside the arguments", "unic/char/property/src/tables.rs"), ("iterators that own their state", "unic/segment/src/grapheme.rs")],
  ["property lookups", "BidiInfo", "StrNormalForm", "Graphemes", "WordBounds", "to_ascii", "to_unicode"],
  "exhaustive enumeration of call histories, of the turns of two threads, and of the interleavings of two iterators on the real code, against a process of its own per question and the reference data",
  "Histories a b a over all pairs of 832 questions, and over all pairs of up to 250 characters per lookup function; a b c over 34 texts per operation; two threads at the granularity of calls; 8 iterator steps. Preemption within one call is not controlled (the crates hold no shared state to race on).")
# ---------------------------------------------------------------- UCD
UW = "Tests sample a few dozen of 1,114,112 code points; a wrong range end or a lost entry anywhere is invisible to them."
p("U01", "General category of every character, and its groupings",
  "For every character the general category is the one of Unicode 10.0, and the grouping predicates (letter, cased letter, mark, number, punctuation, symbol, separator, other) are the unions the standard defines.",
  I, "every character, every predicate", UW, ["unic/ucd/category/src/category.rs", "unic/ucd/category/tables"], [("range table", "unic/ucd/category/tables")],
  ["GeneralCategory::of"], T_ENUM, "Complete over all scalar values; oracle: regex-syntax's Unicode 10.0 tables.")
p("U02", "Age of every character, ordered by time",
  "For every character the age is the Unicode version that first assigned it, or none; ages order by time so that the older character has the greater age, consistently in every comparison and sort.",
  I, "every character, every pair and triple of ages", UW, ["unic/ucd/age/src/age.rs", "unic/ucd/age/tables"], [("range table, reversed order", "unic/ucd/age/src/age.rs")],
  ["Age::of", "Ord", "PartialOrd"], T_ENUM, "Complete over all scalar values and all pairs of age values.")
p("U03", "Block of every character, and the list of blocks",
  "For every character the block is the one of Unicode 10.0, or none, and listing the blocks yields each once, in order and disjoint, with the range and name of the standard.",
  I, "every character, every block", UW, ["unic/ucd/block/src/block.rs", "unic/ucd/block/tables"], [("range table", "unic/ucd/block")], ["Block::of", "BlockIter"], T_ENUM,
  "Complete over all scalar values; oracle: Perl's Unicode blocks restricted to those of 10.0.")
p("U04", "Names of every character",
  "For every character the name is the one of Unicode 10.0, computed for Hangul syllables and ideographs, or none; its reported length is that of the name as displayed, and names compare as their text does.",
  I, "every character, every pair of names", UW + " Name order is defined piecewise and compared in no test across kinds.",
  ["unic/ucd/name/src/name.rs", "unic/ucd/name/tables"], [("pieces table, Hangul rule, prefixes", "unic/ucd/name/src/name.rs")], ["Name::of", "Name::len", "Display", "Ord"], T_ENUM,
  "Complete over all scalar values; oracle: Go's runenames 10.0.0. Order: all adjacent pairs of the sorted list and all pairs of a mixed sample of each kind.")
p("U05", "Name aliases of every character",
  "For every character the name aliases of each type are those of Unicode 10.0, in the standard's order, and the aliases by type and the list of types agree.",
  I, "every character, every alias type", UW, ["unic/ucd/name_aliases/src/name_aliases.rs", "unic/ucd/name_aliases/tables"], [("per-type tables", "unic/ucd/name_aliases")],
  ["NameAliasType::of", "name_aliases_of"], T_ENUM, "Complete over all scalar values and types.")
p("U06", "Bidi properties of every character and of strings",
  "For every character the bidi class, bidi control and bidi mirrored properties are those of Unicode 10.0, the direction categories and predicates group the classes as the standard does, and for every string the has-left-to-right, has-right-to-left and has-explicit-formatting questions are answered by whether one of its characters is.",
  I, "every character, every class, every short string", UW, ["unic/ucd/bidi/src", "unic/ucd/bidi/tables"], [("range tables and class predicates", "unic/ucd/bidi/src/bidi_class.rs")],
  ["BidiClass::of", "StrBidiClass", "CharBidiClass"], T_ENUM, "Complete over all scalar values; strings over all class representatives to the bound.")
p("U07", "Combining class and decomposition type of every character",
  "For every character the canonical combining class, its named value and predicates, the decomposition type, and the combining-mark predicate (with and without the category tables) are those of Unicode 10.0.",
  I, "every character, both build configurations", UW, ["unic/ucd/normal/src", "unic/ucd/normal/tables"], [("range tables", "unic/ucd/normal/tables")],
  ["CanonicalCombiningClass::of", "DecompositionType::of", "is_combining_mark"], T_ENUM, "Complete over all scalar values.")
p("U08", "Segmentation properties of every character",
  "For every character the grapheme cluster break, word break and sentence break values are those of Unicode 10.0.",
  I, "every character", UW, ["unic/ucd/segment/src", "unic/ucd/segment/tables"], [("range tables", "unic/ucd/segment/tables")],
  ["GraphemeClusterBreak::of", "WordBreak::of", "SentenceBreak::of"], T_ENUM, "Complete over all scalar values.")
p("U09", "Binary case and common properties of every character",
  "For every character the alphabetic, alphanumeric, control, numeric, white space, lowercase, uppercase, cased, case-ignorable and changes-when properties are those of Unicode 10.0, through the property type, the function and the trait alike.",
  I, "every character, every access path", UW, ["unic/ucd/common/src", "unic/ucd/case/src"], [("range tables", "unic/ucd/common/tables, unic/ucd/case/tables")],
  ["is_* functions", "property types"], T_ENUM, "Complete over all scalar values.")
p("U10", "Identifier properties of every character",
  "For every character the ID_Start, ID_Continue, XID_Start, XID_Continue, Pattern_Syntax and Pattern_White_Space properties are those of Unicode 10.0, through every access path, and the closures the standard promises hold: every start character continues, and no identifier character is pattern syntax or white space.",
  I, "every character", UW, ["unic/ucd/ident/src", "unic/ucd/ident/tables"], [("range tables", "unic/ucd/ident/tables")], ["is_id_start etc."], T_ENUM, "Complete over all scalar values.")
p("U11", "Emoji properties of every character",
  "For every character the Emoji, Emoji_Presentation, Emoji_Modifier, Emoji_Modifier_Base and Emoji_Component properties are those of the emoji data version the library reports.",
  I, "every character", UW, ["unic/emoji/char/src", "unic/emoji/char/tables"], [("range tables", "unic/emoji/char/tables")], ["is_emoji etc."], T_ENUM, "Complete over all scalar values.")
p("U12", "Character basics: noncharacters, private use, notation, Hangul",
  "For every character the noncharacter and private-use questions and the U+ notation are answered as the standard defines, for every pair of characters Hangul composition gives the syllable exactly when the pair is composable, and each of the 11,172 syllables decomposes to the jamo it is composed of.",
  I, "every character, every pair of jamo and syllables", UW, ["unic/char/basics/src", "unic/ucd/hangul/src/hangul.rs"], [("range matches, Hangul arithmetic", "unic/char/basics, unic/ucd/hangul")],
  ["is_noncharacter", "is_private_use", "unicode_notation", "compose_syllable", "decompose_syllable"], T_ENUM, "Complete over all scalar values, and over all pairs near the Hangul ranges.")
# ---------------------------------------------------------------- generator, tools, versions
p("G01", "The table generator writes tables that mean what its input says",
  "For every well-formed set of Unicode data files, the tables that the generator writes look up, for every character, exactly the value that the files assign (surrogates left out), as sorted disjoint ranges with no two mergeable neighbours, and they keep the values in the form the library includes.",
  I, "every well-formed data file",
  "Four unit tests cover two tiny maps; run merging, First/Last ranges, defaults, surrogates and multi-valued properties are functions of arbitrary files.",
  ["gen/src/source", "gen/src/writer"], [("regex line parsers", "gen/src/source"), ("range-merging table writers", "gen/src/writer/utils/tables")],
  ["unic-gen command, output tables"], T_ENUM,
  "The real generator is run on data files packed with every small range layout; written tables are parsed back and compared with the assignment for each code point.")
p("G02", "The generator reproduces the committed tables from the data they encode",
  "Given the data files that the committed tables describe, the generator writes the committed tables again, byte for byte, for every component, and for a chosen component it rewrites only that component's folders; it never reports success when a file could not be read or a table could not be written.",
  ["inputs", "configurations"], "the whole Unicode 10.0 database, every component choice",
  "The generator is never run by a test.",
  ["gen/src/main.rs", "gen/src/writer"], [("component generators", "gen/src/writer/*")], ["unic-gen command"], T_ENUM,
  "Data files are derived from the committed tables, the generator is run for each of the 32 component subsets, and every file is compared; every input missing, every output folder locked, every file cut short around each table's length.")
p("A01", "Command line input and output formats convert without loss",
  "For every text, each of the command-line tool's output formats written by it and read back by the matching input format gives the text, and each input format accepts exactly the notations its help describes, rejecting others with an error rather than wrong text, however long the text is and however the writer takes what it is given, and output that cannot be written is a reported failure; string literal formats escape what their help says and read back as the text, and the inspector shows each character's code point, name and category.",
  I, "every text, every format, every notation variant",
  "Tests run the tool on about ten fixed strings per format.",
  ["apps/cli/src/parsers.rs", "apps/cli/src/writers.rs", "apps/cli/src/bin/unic-echo.rs"], [("token split and hex parse", "apps/cli/src/parsers.rs")],
  ["unic-echo", "parsers::*", "writers::*"], T_ENUM, "Every scalar, every short sequence of boundary characters and long runs of them through every format pair; every short word over the notation alphabet for the parsers; every point where the writer fails, fills up or is interrupted.")
p("V01", "All components report one Unicode version, in every view of it",
  "Every component that carries data reports the same Unicode version, 10.0.0 (and the emoji component its emoji version), and version values convert between tuple, text and ordered forms consistently: parsing, displaying and comparing agree with the numbers.",
  ["inputs", "configurations"], "every component, every version value",
  "Tests compare two of the components and a few version values.",
  ["unic/common/src/version.rs", "unic/ucd/version/src", "unic/*/src/lib.rs"], [("per-crate version tables", "unic/**/tables/unicode_version.rsv")],
  ["UNICODE_VERSION constants", "UnicodeVersion"], T_ENUM, "Complete over components; all version triples over a boundary set, all pairs.")
BUILT = [x["id"] for x in P]
for x in P:
    if x["id"] not in BUILT: x["technique"] = None
