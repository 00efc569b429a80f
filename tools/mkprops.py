#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                               observe_at=observe, hook_needed=None)))


NT = "The official NormalizationTest strings sample about 20k short inputs; "
p("C01", "NFD and NFKD output is the exact canonically ordered decomposition",
  "For every text, the NFD (NFKD) iterator yields exactly the full canonical (compatibility) decomposition of each character under Unicode 16.0, algorithmic Hangul included, with every maximal run of non-starters stably sorted by canonical combining class. Nothing is lost, duplicated, reordered across a starter, or reordered among equal classes, whatever the text's length or the length of its combining sequences.",
  ["inputs"], "all finite sequences of Unicode scalar values, both decomposition kinds",
  NT + "none has a run of non-starters longer than a handful, so spilling buffers, stability of the sort for long runs and most character combinations are never exercised.",
  ["src/decompose.rs", "src/normalize.rs", "src/lookups.rs", "src/tables.rs"],
  [("buffer/ready", "decomposed characters: ready to emit | pending non-starters", "src/decompose.rs Decompositions")],
  [("push_back + sort_pending", "src/decompose.rs"), ("decompose, decompose_hangul", "src/normalize.rs"), ("mph_lookup", "src/perfect_hash.rs")],
  ["str/char/Iterator::nfd, nfkd"])
p("C02", "NFC and NFKC output is the exact canonical composition",
  "For every text, the NFC (NFKC) iterator yields exactly the canonical composition (UAX #15 / D117) of the text's canonical (compatibility) decomposition: each unblocked character with a primary composite with the last starter is absorbed, composition exclusions are honoured, blocked characters are not absorbed. Hangul jamo, starters that combine with a preceding starter, and supplementary-plane pairs are included.",
  ["inputs"], "all finite sequences of Unicode scalar values, both composition kinds",
  NT + "interactions of blocking, cascaded composition, starter+starter composition and the state carried from one combining sequence to the next are infinite and only sampled.",
  ["src/recompose.rs", "src/decompose.rs", "src/normalize.rs", "src/tables.rs"],
  [("composee,last_ccc,buffer,state", "current starter, class of last uncomposed mark, marks held back, compose/purge/finish phase", "src/recompose.rs Recompositions")],
  [("Recompositions::next state machine", "src/recompose.rs"), ("compose, compose_hangul, composition_table", "src/normalize.rs, src/lookups.rs")],
  ["str/char/Iterator::nfc, nfkc"])
p("C03", "Normal forms are stable, absorb one another, and decide equivalence",
  "Normalizing an already normalized text changes nothing; applying one form after another gives what the two forms' combination must give (NFC of NFD is NFC, NFD of NFC is NFD, any form after a compatibility form is the corresponding compatibility form, and so on), including when one iterator feeds the other directly. Two texts that are canonically (compatibility) equivalent have identical NFC and NFD (NFKC and NFKD), and inequivalent texts never do.",
  ["inputs", "programs"], "all texts, all pairs and chains of normal forms, all pairs of equivalent and inequivalent texts",
  "The official test file checks the sixteen form pairs on its own strings only; equivalence is a relation between arbitrary pairs of texts, which no finite list settles.",
  ["src/decompose.rs", "src/recompose.rs", "src/normalize.rs", "src/tables.rs"],
  [("normal form", "the emitted text of an adapter or chain of adapters", "src/lib.rs UnicodeNormalization")],
  [("decomposition then composition", "src/decompose.rs, src/recompose.rs")],
  ["chained nfc/nfd/nfkc/nfkd adapters"])
p("C04", "Authoritative normalization checks are exact",
  "The authoritative checks for NFC, NFD, NFKC and NFKD return true for a text exactly when normalizing that text to the form returns the same text, i.e. when it is in the form according to Unicode 16.0. This includes texts on which the quick check cannot decide.",
  ["inputs"], "all strings, all four forms",
  "Tests call the checks on the normalized columns of the official file and on a few negatives; the undecided (Maybe) path and multi-segment strings are barely reached.",
  ["src/quick_check.rs", "src/tables.rs"],
  [("last_cc, result", "class of the previous character; verdict so far", "src/quick_check.rs quick_check")],
  [("quick_check with full-normalization fallback", "src/quick_check.rs")],
  ["is_nfc, is_nfd, is_nfkc, is_nfkd"])
p("C05", "Quick checks never lie and are as decisive as the standard's algorithm",
  "A quick check answers Yes only for a text that is in the form and No only for a text that is not. It answers exactly what the UAX #15 quick-check algorithm prescribes with Unicode 16.0 properties: No for a disallowed character or misordered combining classes anywhere, otherwise Maybe if some character may combine with what precedes it, otherwise Yes; the two decomposed forms are never Maybe.",
  ["inputs"], "all character sequences, the four plain forms",
  "Only three-valued results of a few strings are asserted; the property relates each answer to full normalization for every text.",
  ["src/quick_check.rs", "src/tables.rs"],
  [("last_cc, result", "class of the previous character; verdict so far", "src/quick_check.rs quick_check")],
  [("quick_check", "src/quick_check.rs"), ("qc_nfc, qc_nfd, qc_nfkc, qc_nfkd", "src/tables.rs")],
  ["is_nfc_quick, is_nfd_quick, is_nfkc_quick, is_nfkd_quick"])
p("C06", "The stream-safe adapter performs exactly the Stream-Safe Text Process",
  "For every text, the stream-safe adapter emits the same text with a U+034F inserted exactly where UAX15-D4 prescribes: before a character whose compatibility decomposition's leading non-starters would make a run of more than 30 non-starters. Its output never has more than 30 consecutive non-starters in NFKD, deleting the inserted characters gives back the input, and a text that already satisfies the limit is unchanged.",
  ["inputs"], "all character sequences, in particular runs mixing characters with several or with only leading/trailing non-starters in their decompositions",
  "Unit tests use three hand-written runs of single-class marks; characters that add 2-4 non-starters at once or start/end a run around the limit are not combined.",
  ["src/stream_safe.rs", "src/tables.rs"],
  [("nonstarter_count", "length of the current run of non-starters in NFKD", "src/stream_safe.rs StreamSafe")],
  [("StreamSafe::next", "src/stream_safe.rs"), ("classify_nonstarters", "src/stream_safe.rs"), ("stream_safe_leading_nonstarters, TRAILING_NONSTARTERS", "src/tables.rs")],
  ["stream_safe()"])
p("C07", "Stream-safe normalization checks are exact",
  "The authoritative stream-safe NFC (NFD) check returns true exactly when the text is in NFC (NFD) and has no run of more than 30 non-starters in its NFKD. The corresponding quick checks answer No for every text exceeding the limit, otherwise exactly what the plain quick check of the form answers; they never contradict the authoritative check.",
  ["inputs"], "all strings, both forms, all positions and shapes of long runs",
  "Two hand-written runs per form are tested; resets of the count by starters, ASCII and partially-non-starter characters are not combined with the undecided path.",
  ["src/quick_check.rs", "src/stream_safe.rs"],
  [("nonstarter_count", "length of the current run of non-starters", "src/quick_check.rs quick_check")],
  [("quick_check(stream_safe = true)", "src/quick_check.rs"), ("fallback through stream_safe().nfc()/nfd()", "src/quick_check.rs")],
  ["is_nfc_stream_safe(_quick), is_nfd_stream_safe(_quick)"])
p("C08", "Stream-safety and normalization preserve each other",
  "Making an NFC (NFD) text stream-safe leaves it in NFC (NFD), and normalizing a stream-safe text to any form leaves it stream-safe; both hold for chained adapters in either order, and the stream-safe checks accept the results. Texts that contain no over-long run are normalized identically with or without the stream-safe step.",
  ["inputs", "programs"], "all texts, all chains of one stream-safe step and one normalization",
  "One regression string is tested; the claim depends on how runs split by inserted joiners interact with reordering and composition.",
  ["src/stream_safe.rs", "src/quick_check.rs", "src/recompose.rs"],
  [("pipeline", "stream-safe and normalizing adapters stacked on one source", "src/lib.rs UnicodeNormalization")],
  [("StreamSafe over Decompositions/Recompositions and vice versa", "src/stream_safe.rs")],
  ["stream_safe().nfc() / nfc().stream_safe() and the other forms"])
p("C09", "Adapters read no further ahead than the next output needs",
  "An adapter reads its source only on demand, and only while no output is settled by what it has read: a decomposing adapter delivers everything before the pending trailing non-starters, a composing adapter everything before the last starter that could still change, the others everything, before it reads one more character. Hence on stream-safe text the read-ahead between two outputs is bounded by the 30-non-starter limit plus the next starter, however long the text or endless the source, and constructing an adapter or asking its size reads nothing.",
  ["inputs", "histories"], "all (also endless) sources, all adapters and chains of adapters, every prefix of the sequence of next() calls",
  "No repository test observes source consumption (only a fuzz target that is not run); all tests collect whole outputs.",
  ["src/decompose.rs", "src/recompose.rs", "src/stream_safe.rs", "src/replace.rs", "fuzz/fuzz_targets/streaming.rs"],
  [("ready range", "how much of the buffer is settled", "src/decompose.rs"), ("state", "Purging drains held output before reading", "src/recompose.rs")],
  [("while ready.end == 0 loop", "src/decompose.rs"), ("Purging/Composing phases", "src/recompose.rs")],
  ["an instrumented source iterator under each adapter"])
p("C10", "Adapters obey the iterator protocol",
  "Every way of consuming an adapter (next, nth, fold, count, last, collect, for_each, by-reference partial consumption, skip, step_by and mixtures) sees the same sequence; it ends after finitely many items on a finite source. After the end is reported it stays reported when the source is fused, and the normalizing adapters never poll a source again after it has reported its end. At every point the size hint's lower bound is at most, and its upper bound if any at least, the number of items still to come.",
  ["inputs", "histories"], "all sources, all adapters, all histories of calls including calls after the end",
  "Tests only collect whole strings; mid-stream size hints, post-end calls, non-fused sources and mixed consumption are never exercised.",
  ["src/decompose.rs", "src/recompose.rs", "src/replace.rs", "src/stream_safe.rs"],
  [("remaining sequence", "items an adapter has still to yield", "all adapters")],
  [("Fuse<I>, FusedIterator impls, size_hint", "src/decompose.rs, src/recompose.rs, src/replace.rs"), ("Finished state", "src/recompose.rs")],
  ["Iterator methods of all adapters"])
p("C11", "Clones and Display are faithful, side-effect-free snapshots",
  "At any point of an iteration, a clone of a normalizing or replacing adapter yields exactly the items the original has still to yield, and using either does not influence the other. Formatting such an adapter prints exactly the items still to come and leaves it unchanged.",
  ["inputs", "histories"], "all texts, all adapters that can be cloned or displayed, every point of the iteration",
  "to_string is only tested on fresh adapters; clones in the middle of a combining sequence, of a replacement pair or of a purge are never taken.",
  ["src/decompose.rs", "src/recompose.rs", "src/replace.rs"],
  [("adapter state", "buffers and phase that a snapshot must carry", "Decompositions, Recompositions, Replacements")],
  [("derive(Clone), Display via clone", "src/decompose.rs, src/recompose.rs, src/replace.rs")],
  ["Clone, Display, to_string"])
p("C12", "Every entry point and source type gives the same result",
  "For each transformation, calling it on a string slice, on a single character, on any character iterator (borrowed, boxed, filtered, chained, reversed, by reference) or through the adapter's public constructor yields the same sequence for the same characters. Splitting, chaining or otherwise producing the same characters differently makes no difference.",
  ["inputs", "programs"], "all texts and all iterator types producing them, all six transformations",
  "Only NFD is tested through two entry points, on ten strings.",
  ["src/lib.rs"],
  [("source", "the character sequence an entry point presents to its adapter", "src/lib.rs impls of UnicodeNormalization")],
  [("three impls of UnicodeNormalization, new_* constructors", "src/lib.rs, src/decompose.rs, src/recompose.rs, src/replace.rs, src/stream_safe.rs")],
  ["UnicodeNormalization methods, new_canonical, new_compatible, new_cjk_compat_variants, StreamSafe::new"])
p("C13", "Per-character decomposition is exact for every code point",
  "For every Unicode scalar value the canonical and compatibility decomposition functions emit exactly that character's full decomposition in Unicode 16.0 (the character itself if it has none), in order and each character once. Hangul syllables decompose arithmetically into their two or three jamo, and no other character does.",
  ["inputs"], "all 1,112,064 scalar values, both kinds",
  "The official file covers assigned characters with decompositions as whole strings; the callback functions are not called over the whole code space, so false positives on other characters go unseen.",
  ["src/normalize.rs", "src/lookups.rs", "src/perfect_hash.rs", "src/tables.rs"],
  [("decomposition tables", "code point to full decomposition", "src/tables.rs")],
  [("decompose, decompose_hangul", "src/normalize.rs"), ("mph_lookup key comparison", "src/perfect_hash.rs")],
  ["char::decompose_canonical, char::decompose_compatible"])
p("C14", "compose() is exactly the primary-composite function",
  "compose(a, b) returns c exactly when c is the primary composite of the pair in Unicode 16.0 - the canonical two-character mappings that are not composition-excluded, plus the Hangul L+V and LV+T rules - and nothing for every other pair of scalar values. Every primary composite's canonical decomposition composes back to it.",
  ["inputs"], "all pairs of scalar values",
  "One pair and one Hangul regression are asserted directly; 1.2e12 pairs exist, and a table or key-packing fault answers some pair no test asks about.",
  ["src/normalize.rs", "src/lookups.rs", "src/tables.rs"],
  [("composition table", "pair to composite, packed for BMP and matched for supplementary planes", "src/tables.rs")],
  [("compose, compose_hangul, composition_table", "src/normalize.rs, src/lookups.rs")],
  ["char::compose"])
p("C15", "Character property lookups are exact for every code point",
  "For every scalar value the canonical combining class, the combining-mark predicate (General_Category Mark) and the public-assigned predicate (assigned and not private use) return the Unicode 16.0 value, and the advertised Unicode version is 16.0.0.",
  ["inputs"], "all 1,112,064 scalar values",
  "About 130 code points are asserted; a perfect-hash lookup can be wrong for any single key or return a hit for a non-key.",
  ["src/lookups.rs", "src/perfect_hash.rs", "src/tables.rs", "src/lib.rs"],
  [("property tables", "minimal perfect hashes and match arms", "src/tables.rs")],
  [("mph_lookup", "src/perfect_hash.rs"), ("is_public_assigned", "src/tables.rs")],
  ["char::canonical_combining_class, char::is_combining_mark, char::is_public_assigned, UNICODE_VERSION"])
p("C16", "CJK variant replacement maps exactly the compatibility ideographs",
  "The CJK replacement adapter and per-character function replace exactly the CJK compatibility ideographs that have standardized variation sequences by that sequence (the unified ideograph followed by its variation selector) and pass every other character, Hangul included, through unchanged and in order. The result is unaffected by canonical or compatibility normalization as far as the replaced characters go: normalizing afterwards keeps every inserted pair, and dropping the inserted selectors gives the plain normal form.",
  ["inputs", "histories"], "all scalar values, all texts, consecutive replacements, every point of the iteration",
  "Two ideographs and one Hangul string are tested out of 1002 mappings.",
  ["src/replace.rs", "src/normalize.rs", "src/lookups.rs", "src/tables.rs"],
  [("buffer", "second half of a pending replacement", "src/replace.rs Replacements")],
  [("decompose_cjk_compat_variants", "src/normalize.rs"), ("Replacements::next", "src/replace.rs")],
  ["cjk_compat_variants(), char::decompose_cjk_compat_variants"])
p("C17", "Results depend only on the input, not on history or interleaving",
  "Every operation's result is a function of its input alone: interleaving the steps of any number of adapters and checks in any order, on one thread or on many, repeating an operation, or dropping an adapter part-way never changes what any of them returns.",
  ["schedules", "histories"], "all interleavings of the steps of several live adapters and checks, on one or several threads",
  "Tests run each operation once from start to end with one live adapter per thread.",
  ["src/decompose.rs", "src/recompose.rs", "src/stream_safe.rs", "src/replace.rs", "src/quick_check.rs"],
  [("adapter-local state", "all mutable state lives in the adapter value", "all adapters")],
  [("no shared mutable state; tables are constants", "src/tables.rs")],
  ["all public operations"])
p("C18", "All build configurations behave identically",
  "The crate built with the default std feature and without it (no_std + alloc), with and without optimisation, overflow checks and debug assertions gives identical results for every public operation.",
  ["configurations", "inputs"], "the feature and profile matrix of the crate, all inputs",
  "The same small test list is run with the two feature sets in debug mode only; optimised builds are never tested and the builds are never compared.",
  ["Cargo.toml", "src/lib.rs", "src/__test_api.rs"],
  [("feature std", "std versus core+alloc", "Cargo.toml")],
  [("cfg(feature = \"std\") sites", "src/lib.rs, src/stream_safe.rs")],
  ["all public operations in each build"])
p("C19", "The table generator reproduces exact tables from any character database",
  "Given the Unicode character data files of a version, the table generator emits tables with which the crate implements exactly that data: its lookups, decompositions, compositions, quick-check values, stream-safe counts and CJK variants equal those derived from the files for every code point, and the emitted conformance tests equal the test file. On the data of the supported version it reproduces the behaviour of the committed tables.",
  ["inputs", "configurations"], "all well-formed character databases (characters added or removed, new pairs, exclusions, decompositions, classes and assigned ranges)",
  "The generator needs the network and runs in CI only on the one published version; no test runs it on other data.",
  ["scripts/unicode.py", "src/tables.rs", "src/perfect_hash.rs"],
  [("UnicodeData", "parsed UCD and derived tables", "scripts/unicode.py")],
  [("_compute_fully_decomposed, _compute_canonical_comp, _compute_stream_safe_tables, minimal_perfect_hash", "scripts/unicode.py")],
  ["tables.rs and normalization_tests.rs written by scripts/unicode.py"])
p("C20", "Normalization is local: boundaries separate, prefixes settle",
  "If the second of two texts begins with a character that neither is a non-starter nor can combine with what precedes it (its form's quick-check value is Yes and its class is 0), then normalizing their concatenation gives the concatenation of their normal forms, for every form; likewise the authoritative check of that form accepts the concatenation exactly when it accepts both texts. Text before such a boundary never influences what is produced after it, and vice versa.",
  ["inputs", "histories"], "all pairs of texts meeting at a normalization boundary, all forms and checks, any number of segments",
  "Tests normalize isolated short strings from a fresh state; state leaking from one segment into the next is not visible in them.",
  ["src/decompose.rs", "src/recompose.rs", "src/quick_check.rs"],
  [("carried state", "composee, last class, buffers, non-starter count at a boundary", "src/recompose.rs, src/decompose.rs, src/quick_check.rs")],
  [("state reset at starters", "src/recompose.rs, src/decompose.rs, src/quick_check.rs")],
  ["nfc, nfd, nfkc, nfkd, is_* on concatenations"])
p("C21", "All operations are total with bounded expansion",
  "No public operation panics, overflows, hangs or yields an invalid character on any input, of any length and with combining sequences of any length. Canonical forms have at most 4 and compatibility forms at most 18 characters per input character, composed forms are never longer than decomposed ones, non-empty text never normalizes to nothing, and the stream-safe adapter adds at most one character per input character.",
  ["inputs"], "all scalar values, all texts, also very long ones and ones with very long combining sequences",
  "Tests use short well-formed text; lengths beyond small-buffer capacity, 8/16-bit counts or the sort's insertion threshold do not occur.",
  ["src/decompose.rs", "src/recompose.rs", "src/normalize.rs", "src/lookups.rs", "src/stream_safe.rs", "src/quick_check.rs"],
  [("buffers and counters", "spill storage, ready range, non-starter count", "src/decompose.rs, src/recompose.rs, src/stream_safe.rs")],
  [("TinyVec spill, range arithmetic, from_u32_unchecked bounds", "src/decompose.rs, src/recompose.rs, src/normalize.rs")],
  ["all public operations"])

p("C22", "Adapters work on endless input in bounded memory",
  "An adapter needs no end of input: over a source that never ends, every call returns with the item that the same adapter would deliver on the text cut off later, as long as the source keeps delivering something that decomposes to a starter - and, behind the stream-safe adapter, whatever it delivers. What an adapter holds is bounded by the longest run of non-starters (behind the stream-safe adapter by a constant), never growing with the amount of text that has passed through, and is given back when it is dropped. Size hints stay true (no upper bound) and computable when the source promises usize::MAX items.",
  ["inputs", "histories"], "all endless inputs (periodic and random), all chains of adapters, any number of calls",
  "Tests drain finite strings of a few characters; something kept per character, waiting for an end, or a sum with usize::MAX does not show in them.",
  ["src/decompose.rs", "src/recompose.rs", "src/stream_safe.rs", "src/replace.rs"],
  [("buffers", "pending and ready characters, consumed prefix", "src/decompose.rs, src/recompose.rs")],
  [("reset_buffer, Purging", "src/decompose.rs, src/recompose.rs")],
  ["nfc, nfd, nfkc, nfkd, stream_safe, cjk_compat_variants over endless iterators"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
