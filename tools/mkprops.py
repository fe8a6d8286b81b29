#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
T_PRINT = "dawg_test.go builds one 11-key and one degenerate dictionary and only prints the answers: it asserts nothing."
p("C01", "Exact lookup answers like a map from keys to values",
  "For every accepted set of keys (byte strings without NUL bytes, inserted in ascending byte order, values 0..2^31-1, of any number and of any length up to a mebibyte), the built dictionary reports every inserted key as contained with exactly its value. Every other byte string, including ones containing NUL, near-misses, prefixes and extensions of keys, is reported as not contained: the value-returning forms give -1, and the forms with an output parameter return false and leave it untouched. All lookup forms (whole string or explicit length) agree, and no lookup crashes.",
  ["inputs"], "all key sets (any alphabet, length, size incl. > 2^21 units), all value assignments, all query strings",
  T_PRINT + " Collisions in the double array depend on the whole key set and on the value bits.",
  ["dictionary.go", "dictionary_builder.go", "dictionary_unit.go", "dawg_builder.go", "link_table.go"],
  [("double-array layout: offsets, used/fixed marks, labels of unused units", "dictionary_builder.go arrangeChildNodes/isGoodOffset/fixBlock"),
   ("leaf bit separates values from labels", "dictionary_unit.go dictLabel/dictSetValue"),
   ("offset extension for distances >= 2^21", "dictionary_unit.go dictSetOffset/dictOffset"),
   ("state merging by structural equality", "dawg_builder.go findUnit/areEqual")],
  ["ContainsString", "ContainsStringLen", "FindString", "FindStringLen", "FindStringValue", "FindStringLenValue"])
p("C02", "Stepwise navigation mirrors exactly the prefixes of the stored keys",
  "Starting at the root, following a byte string succeeds if and only if it is a prefix of some stored key, whatever mix of one-byte and string steps is used; this includes the empty dictionary, from which nothing can be followed. At each position reached, a value is reported if and only if the bytes followed so far are a key, and it is that key's value. A failed one-byte step leaves the position unchanged; a failed string step leaves the position after its longest followable prefix, and the counting forms add exactly the number of bytes followed to the counter.",
  ["inputs"], "all key sets and values, all byte strings, all ways of splitting a string into steps",
  T_PRINT + " Phantom transitions only show when all 256 labels are tried at every state.",
  ["dictionary.go", "dictionary_builder.go", "dictionary_unit.go"],
  [("xor addressing plus label check", "dictionary.go Follow"), ("labels of unused units chosen so that no state reaches them", "dictionary_builder.go fixBlock"),
   ("hasLeaf flag", "dictionary_builder.go arrangeChildNodes, buildDictionaryIndices")],
  ["Follow", "FollowString", "FollowStringLen", "FollowStringCount", "FollowStringLenCount", "HasValue", "Value"])
p("C03", "Insertion accepts exactly the valid keys in order; a refusal changes nothing",
  "An insertion is accepted if and only if the key contains no NUL byte, the value is not negative, and the key is not smaller (bytewise) than the last accepted key. Re-inserting the last accepted key replaces its value; only the first `length` bytes of the buffer count and the buffer may be reused by the caller. After any sequence of attempts the finished dictionary contains exactly the accepted keys with their last accepted values, as if the refused attempts had never been made.",
  ["histories", "inputs"], "all sequences of insertion attempts in any order, with valid and invalid keys and values",
  "The tests insert only sorted keys once and ignore the returned flag.",
  ["dawg_builder.go"], [("order check against the unfixed path", "dawg_builder.go InsertKeyValue"), ("separating unit and fixing of finished suffixes", "dawg_builder.go fixUnits")],
  ["InsertKeyValue", "InsertStringValue", "InsertString", "Finish + Build + lookups"])
p("C04", "Builds are deterministic, and builders and automata can be reused",
  "The dictionary, guides and index written for a given list of keys and values are byte-for-byte the same whatever the builder's initial table size (>= 1) and whatever the builders (of automata, dictionaries, guides and indices), or the objects receiving their results, were used for before. A builder of automata that has finished starts afresh: new keys need not sort after the old ones and nothing of the old ones is left. Building a dictionary does not change the automaton, so it can be built from again, and all earlier results stay valid when their builder or automaton object is reused or cleared.",
  ["histories", "configurations"], "all histories of insert/finish/build/clear over several builders and automata, all initial table sizes",
  "Each test uses one builder once with the default size.",
  ["dawg_builder.go", "dawg.go", "dictionary_builder.go", "bit_pool.go"],
  [("pool swap and reset at the end of a build", "dawg_builder.go Finish/clear"), ("growth of the state table", "dawg_builder.go expandHashTable"), ("object clearing", "dawg.go Clear")],
  ["Dictionary.Write", "Guide.Write", "RankedGuide.Write", "Index.Write", "Finish", "Build"])
p("C05", "The automaton is minimal, complete and its statistics are exact",
  "The finished automaton, walked from its root over children and siblings, spells exactly the stored keys with their values, siblings appearing in ascending label order. It is minimal: two prefixes lead to the same state if and only if they have the same set of continuations with the same values. The reported numbers of states, transitions, merged states, merged transitions and merging states equal those of the minimal automaton computed from the key set.",
  ["inputs"], "all key sets and value assignments, including ones large enough to grow the state table many times",
  T_PRINT + " No test reads a statistic or compares sizes; a missed merge is invisible to lookups.",
  ["dawg_builder.go", "dawg.go", "dawg_unit.go", "base_unit.go", "bit_pool.go"],
  [("hash lookup of equal states", "dawg_builder.go findUnit/hashUnit/hashTransition/areEqual"), ("rehash when filling up", "dawg_builder.go expandHashTable"), ("counters", "dawg_builder.go fixUnits/Finish")],
  ["Dawg.Root/Child/Sibling/Label/IsLeaf/Value/IsMerging", "NumOfStates", "NumOfTransitions", "NumOfMergedStates", "NumOfMergedTransitions", "NumOfMergingStates"])
p("C06", "Completion lists exactly the keys with a prefix, in ascending byte order",
  "Starting the completer at the position reached by following any prefix of a stored key, successive calls produce every stored key with that prefix exactly once, in ascending byte order, each with its value; then they keep reporting the end. The reported key is the given prefix text followed by the remaining bytes and nothing else, and its reported length matches. The completer can be restarted anywhere at any time, including in the middle of an enumeration, and the empty key is handled like any other.",
  ["inputs", "histories"], "all key sets incl. the empty set and the empty key, all prefixes, all restart points",
  "No test uses a completer.",
  ["completer.go", "guide.go", "guide_builder.go", "guide_unit.go"],
  [("first-child / next-sibling labels", "guide_builder.go buildIndices"), ("depth-first iteration with explicit stack", "completer.go Next/FindTerminal"), ("reset on start", "completer.go StartStringLen")],
  ["Completer.Start/StartString/StartStringLen/Next/Key/Value/Length"])
p("C07", "Ranked completion lists exactly the keys with a prefix, best value first",
  "With a ranked guide built in the default order, starting the ranked completer at the position reached by any prefix produces every stored key with that prefix exactly once, with its value, in non-increasing order of value, and then keeps reporting the end. Keys and lengths are reported as for plain completion, and restarting at any time forgets the previous enumeration completely.",
  ["inputs", "histories"], "all key sets and value assignments (ties, extremes, empty key), all prefixes, all restart points",
  "No test uses a ranked completer or ranked guide.",
  ["ranked_completer.go", "ranked_completer_candidate.go", "ranked_completer_node.go", "ranked_guide_builder.go", "ranked_guide_link.go"],
  [("lazy best-first expansion with a priority queue", "ranked_completer.go Next/findSibling/findTerminal"), ("children sorted by best value below them", "ranked_guide_builder.go buildIndices/turnLinksToUnits")],
  ["RankedCompleter.Start/StartString/StartStringLen/Next/Key/Value/Length"])
p("C08", "A ranked guide orders continuations by the caller's comparator",
  "For any strict weak ordering of values given as comparator, the ranked guide lists at each position every continuation (each next byte, and the end of a key if the position is one) exactly once. They are listed so that the best value reachable through one is never worse, under the comparator, than that through a later one, and continuations whose best values rank equal under the comparator are listed by ascending byte with the end of key first. Hence always taking the first continuation leads to a key of best value below that position.",
  ["inputs", "configurations"], "all key sets, values and comparators that are strict weak orders (ascending, descending, by masked bits, by digit...)",
  "No test builds a ranked guide, let alone with a custom comparator.",
  ["ranked_guide_builder.go", "ranked_guide_link.go", "ranked_guide.go"],
  [("stable sort of links by best value", "ranked_guide_builder.go buildIndices"), ("best value of an already visited state", "ranked_guide_builder.go findMaxValue"), ("sibling chain incl. the terminal", "ranked_guide_builder.go turnLinksToUnits")],
  ["BuildRankedGuide", "BuildRankedGuideCmp", "RankedGuide.Child/Sibling"])
p("C09", "The index is the bijection between keys and their lexicographic ranks",
  "With an index built from a dictionary and either kind of guide, the i-th stored key in ascending byte order has index i, and index i gives back that key; the total count is the number of keys, and the count stored for a position is the number of keys at or below it. Strings that are not keys are reported as not found, and indices beyond the last key yield no key. This holds for an empty dictionary (count 0, nothing found) as well.",
  ["inputs"], "all key sets and values, both guide kinds, all query strings and indices",
  "No test builds an index.",
  ["index.go", "index_builder.go", "indexer.go"],
  [("subtree counts memoised per position", "index_builder.go buildIndices"), ("summing counts of smaller siblings", "indexer.go BytesToIndex"), ("descending by counts", "indexer.go IndexToBytes")],
  ["Indexer.StringToIndex/BytesToIndex/IndexToString/IndexToBytes/TotalCount", "Index.ChildCount/TotalCount"])
p("C10", "Everything written can be read back and behaves identically",
  "Writing a dictionary, a guide of either kind or an index produces exactly the announced file size in bytes, and reading that stream back, whatever chunk sizes the stream delivers, yields an object that writes the same bytes and answers every query as the original does. Objects written one after another into one stream can be read back one after another in the same order, reading never consuming bytes beyond the object's own. Reading replaces the previous contents of the object completely.",
  ["inputs", "histories"], "all dictionaries (empty and huge ones included), all orders of objects in a stream, all chunkings",
  "No test writes or reads anything.",
  ["dictionary.go", "guide.go", "ranked_guide.go", "index.go"],
  [("size header then little-endian units", "dictionary.go Read/Write, guide.go Read/Write, ranked_guide.go Read/Write, index.go Read/Write")],
  ["Read", "Write", "ReadDictionary", "ReadGuide", "ReadRankedGuide", "ReadIndex", "Size", "TotalSize", "FileSize"])
p("C11", "The stored image is a valid dawgdic file with exact space accounting",
  "The bytes written are the dawgdic on-disk format: a 4-byte little-endian unit count followed by that many units (4-byte little-endian dictionary units with label, leaf flags, offset and extension; 2-byte child/sibling guide units; 4-byte little-endian index counts). An independent reader of that format, given only the bytes, finds exactly the stored keys and values, in order through the guide and with the right counts through the index, and files written earlier in that format remain readable. The unit count is a whole number of 256-unit blocks, and the number of unused units reported by the build is exactly the number of units no stored key uses; as long as there are at most 2^21 units, a state shared in the minimal automaton takes its units only once.",
  ["inputs"], "all key sets and values; images read without the library, and library reading a previously written image",
  "No test looks at the bytes; a change made consistently in writer and reader passes every round trip and still breaks existing files.",
  ["dictionary_unit.go", "dictionary.go", "dictionary_builder.go", "guide.go", "ranked_guide.go", "index.go", "test/dictionary.dawg"],
  [("unit bit layout", "dictionary_unit.go"), ("header and byte order", "dictionary.go Write"), ("unused-unit counting", "dictionary_builder.go fixBlock, BuildWithUnused")],
  ["Write output bytes", "BuildWithUnused"])
p("C12", "I/O failures are reported and never half-applied",
  "If the output fails at any byte, writing reports failure; if it accepts everything, writing reports success. If the input ends or fails at any byte before the object is complete, reading reports failure (no object from the constructor forms) and an existing object keeps answering exactly as before. After any sequence of successful and failed reads, writes and clears, each object holds what was last successfully put into it.",
  ["fault_sequences", "histories"], "all failure positions (every byte offset) and kinds, all histories of operations on one object",
  "No test performs I/O.",
  ["dictionary.go", "guide.go", "ranked_guide.go", "index.go"],
  [("error checks on header and body", "Read/Write in dictionary.go, guide.go, ranked_guide.go, index.go"), ("assign only after a complete read", "Read in the same files")],
  ["Read", "Write", "ReadDictionary", "ReadGuide", "ReadRankedGuide", "ReadIndex", "Clear"])
p("C13", "UTF-C encoding is lossless and free of zero bytes",
  "For every valid UTF-8 string, decoding its UTF-C encoding gives the string back, and the encoding contains no zero byte. Bytes that are not valid UTF-8 come back as U+FFFD each, as when ranging over a Go string. Neither direction crashes on such inputs.",
  ["inputs"], "all strings over all 1,112,064 code points, i.e. all encoder states and transitions between them",
  "utfc_test.go round-trips about 60 fixed strings; the encoder has thousands of reachable states and its zero markers need particular code points in particular states.",
  ["utfc.go"], [("state machine offs/auxOffs/is21Bit kept in step by encoder and decoder", "utfc.go Follow, UtfcDecode"), ("zero markers", "utfc.go marker0..marker11"), ("range re-indexing", "utfc.go encodeRanges/decodeRanges")],
  ["UtfcEncode", "UtfcDecode"])
p("C14", "UTF-C encoding is incremental, prefix-preserving and free of hidden state",
  "Encoding a string rune by rune with a state object gives the same bytes as encoding it at once, so the encoding of a prefix is a prefix of the encoding; a copied state continues exactly like the original and independently of it, and a cleared one like a new one. A follower receives exactly the encoding's bytes in order; when it refuses a byte it receives no further one and the call reports false, otherwise the call reports true. A follower may encode and decode other texts while it is called. No call influences the result of another one, and an encoding handed out earlier stays unchanged by later calls.",
  ["histories", "inputs"], "all histories of encode/follow/copy/clear calls, all strings and split points, all refusal points",
  "Tests only encode whole strings and never keep two results.",
  ["utfc.go"], [("explicit state object", "utfc.go UtfcState.Follow/Copy/Clear"), ("early abort", "utfc.go UtfcFollow"), ("result buffer handling", "utfc.go UtfcEncode")],
  ["UtfcState.Follow", "UtfcState.Copy", "UtfcState.Clear", "NewUtfcState", "UtfcFollow", "UtfcEncode"])
p("C15", "UTF-C is a fixed, compact format",
  "The encoding of a string is a fixed function of its text, so that stored encodings stay searchable and decodable: its bytes follow the published scheme of windows, auxiliary alphabet, extra ranges and zero markers, and decoding bytes produced by that scheme yields the text. NUL-free ASCII text encodes to itself; no code point takes more than three bytes, none below U+2600 or in the extra ranges more than two, and further characters of the 128-code-point window selected by the previous character take one byte.",
  ["inputs"], "all strings over all code points",
  "Round-trip tests accept any change made consistently in encoder and decoder, although it breaks stored data or compactness.",
  ["utfc.go"], [("window selection and auxiliary alphabet table", "utfc.go UtfcState.Follow, auxOffset"), ("extra ranges", "utfc.go rangesExtra")],
  ["UtfcEncode", "UtfcDecode"])
p("C16", "Dictionaries of UTF-C keys answer like sets of strings",
  "For any set of strings whose UTF-C encodings are inserted in ascending order of encoded bytes, looking up the encoding of a string finds it with its value if and only if it was inserted, also when the dictionary is followed byte by byte while encoding and the encoding is abandoned at the first missing byte. Completing from the encoding of any prefix and decoding the results yields exactly the inserted strings that start with that prefix.",
  ["inputs"], "all sets of valid strings, all query strings and prefixes",
  "No test combines UTF-C with a dictionary.",
  ["utfc.go", "dictionary.go", "completer.go", "dawg_builder.go"],
  [("prefix-preserving, zero-free encoding", "utfc.go UtfcState.Follow"), ("follower interface", "utfc.go UtfcFollower")],
  ["UtfcEncode + InsertKeyValue", "UtfcFollow + Dictionary.Follow", "Completer.Key + UtfcDecode"])
p("C17", "dawgtool builds and queries what the lexicon says under every option",
  "For every lexicon and every combination of the value (-t), guide (-g, -r), index (-i), sort (-s) and UTF-C (-u) options, building succeeds for lexicons in key order, or in any order with -s, and querying with the same options prints for each query line exactly the matches the lexicon implies: its non-empty stored prefixes, shortest first, without a guide, or all completions in byte order (-g) or by descending value (-r), with their values. With an index it also prints each query's rank or that it is not found, the number of words, and all words in order. With -t the first two tab-separated fields of a line are its key and its value. Lines end in LF or CR LF, blank lines are skipped, the last value wins for a repeated key, and out-of-range values are clamped to 0 and 2^31-1 with a warning. The build's summary gives the number of lexicon lines used, the statistics of the minimal automaton and the sizes as they are in the file.",
  ["inputs", "configurations"], "all lexicons (any bytes but NUL/newline/CR/tab in keys, lines of any length), query files and option combinations",
  "The command has no tests at all.",
  ["cmd/dawgtool/main.go"], [("line parsing and clamping", "cmd/dawgtool/main.go processLine"), ("sorting by key bytes", "cmd/dawgtool/main.go handleBuildDict"), ("query output", "cmd/dawgtool/main.go handleLoadDict")],
  ["dawgtool stdout, exit status and dictionary file"])
p("C18", "dawgtool fails loudly instead of producing a wrong dictionary",
  "If the lexicon is not in key order and -s is not given, if a value is missing or cannot be parsed, if a file cannot be opened or read, if the dictionary file cannot be written completely, or if the dictionary file to query is cut short at any byte, dawgtool ends with a non-zero status. Whenever building ends with status 0, the dictionary file is complete and contains every key of the lexicon.",
  ["fault_sequences", "inputs"], "all unsorted lexicons, malformed values, truncation points of every option combination, full output devices",
  "The command has no tests at all.",
  ["cmd/dawgtool/main.go"], [("fatal exits on insertion, parse, read and write failures", "cmd/dawgtool/main.go")],
  ["dawgtool exit status and dictionary file"])
p("C19", "Queries never disturb the dictionary or each other",
  "Lookups, navigation, completion, ranked completion and index queries leave the dictionary, guides and index byte-for-byte unchanged, and any number of completers and indexers over the same objects, used in any interleaving or from different goroutines at once, each behave exactly as if used alone. Repeating a query gives the same answer, and answers given out earlier stay as they were.",
  ["schedules", "histories"], "all interleavings of query operations of several readers on shared objects, sequential and concurrent",
  "No test uses two readers or goroutines.",
  ["dictionary.go", "completer.go", "ranked_completer.go", "indexer.go", "guide.go", "ranked_guide.go", "index.go"],
  [("read-only shared arrays, per-reader mutable state", "completer.go, ranked_completer.go, indexer.go")],
  ["all query methods", "Write before and after", "Go race detector"])
p("C20", "Building, writing and reading are reentrant",
  "Separate builders, and any number of builds of dictionaries, guides and indices from one finished automaton and dictionary, may run at the same time from different goroutines, together with queries on the shared objects, with writing them and with reading other objects. Each gives byte for byte what it gives alone, and the shared automaton, dictionary, guides and index stay unchanged.",
  ["schedules", "histories"], "all sets of concurrent building, writing, reading and querying jobs over shared finished objects",
  "No test uses goroutines, and no test builds twice from one automaton.",
  ["dawg_builder.go", "dictionary_builder.go", "guide_builder.go", "ranked_guide_builder.go", "index_builder.go", "dawg.go"],
  [("builders keep their working state to themselves", "dictionary_builder.go BuildDictionary, guide_builder.go Build, ranked_guide_builder.go Build, index_builder.go Build")],
  ["Build*, Write, Read*, queries", "Go race detector"])
p("C21", "Reading takes exactly what the stream announces",
  "For every byte stream, reading a dictionary, a guide of either kind or an index succeeds if and only if the stream holds a 4-byte little-endian count and all the units it announces. Then exactly these bytes are consumed, sizes are the announced ones, the units are as they stood in the stream, and writing the object gives the same bytes back. Otherwise, however many units are announced, the failure is reported after using memory in proportion to the bytes actually there, the constructor forms give nil, and the object keeps what it held.",
  ["inputs", "fault_sequences"], "all byte streams (announced counts within memory), ways of delivering them, sequences of reads into one object",
  "No test performs I/O; only streams written by the library itself are usually tried.",
  ["dictionary.go", "guide.go", "ranked_guide.go", "index.go"],
  [("count, then exactly count units", "Read in dictionary.go, guide.go, ranked_guide.go, index.go")],
  ["Read", "ReadDictionary", "ReadGuide", "ReadRankedGuide", "ReadIndex", "Write", "Size", "TotalSize", "FileSize"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
