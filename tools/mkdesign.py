import json,glob,os
p='/verif/DESIGN.md'
doc=r'''# Verification of deNULL/dawg by property-based testing and fuzzing

## What is verified

`properties.jsonl` lists 21 properties (C01..C21) covering the automaton builder, the double-array
dictionary, both guides and completers, the index, the stream format, UTF-C, the `dawgtool` command, and
sharing and concurrency of all of them. All of them are decided by generated-input search against an explicit
oracle; none is under `not_applicable`.

## Machinery

* `harness/` is a Go module (rapid v1.3.0, `replace github.com/deNULL/dawg => /repo`). It uses only the
  exported API of the package and the `dawgtool` binary, so it judges behaviour and survives
  refactorings. No hook in /repo is needed. (The builder types, exported but needed by nobody, are used by C04 under a build tag of the
  harness, which is dropped should they become unexported.)
* `check.sh <property>` builds the harness (and, where needed, `dawgtool`) from /repo's working tree into a
  scratch directory, runs it and removes the directory. Tier and seed come from `VERIF_TIER`, `VERIF_SEED`.
  C19 and C20 are built with the race detector.
* A case is a plain JSON value (key list or generator parameters, operations, fault position...). Rapid draws
  cases and shrinks failures; the shrunk case is saved as `replays/<id>-<hash>.json` and
  `check.sh --replay FILE` re-runs it without rapid. Every choice is drawn by rapid or derived from a drawn
  seed; a run is a function of (code, VERIF_SEED, tier). Besides the drawn cases each property has systematically
  enumerated ones (boundary shapes, exhaustive sweeps), which do not depend on the seed.
* The parent process starts 8 worker processes with derived seeds (process isolation also covers the
  package's global UTF-C state). A worker that dies of an unrecoverable error (stack overflow, out of memory,
  data race report) is re-run with tracing to find the case. A case that burns > 120 s CPU (typical:
  milliseconds) or whose live heap passes 2.5 GiB (typical: below 0.3) is reported as runaway; the workers' address
  space is limited, so that a runaway allocation cannot take the sandbox down. Any other trouble (build failure, time-out,
  killed worker) ends with exit status 2, never with a VIOLATION.
* Failures under the race detector end the process, so rapid cannot shrink them: C19 and C20 cases have a
  `Smaller()` method (drop readers, operations, keys) and a minimiser runs each candidate in a child process.
* Evidence: evaluations, distinct non-trivial cases (64-bit hash of the case), label counts and samples are
  counted in the run.
* `tools/mkprops.py` and `tools/mkmanifest.py` regenerate properties.jsonl and MANIFEST.json.

## Case generation

Lexicons come from: explicit key lists drawn byte by byte over small/large alphabets (shrinkable), and
parametrised shapes expanded from a drawn seed: uniform random, prefix x suffix products (heavy merging, also
with merged parts hundreds of states deep), dense tries, ladders (states that hold a key end and one child, at every depth), chains a, aa, aaa..., full fan-out (all 255 labels),
common long prefixes, keys of every length from 0 to 1100 one inside the other, keys of up to 70,000 bytes (fixed cases: up to 1 MiB), counters, UTF-8 words, and huge ones whose double array exceeds
2^21 units (offset extension): `fixedlen`, `far` (states whose units lie far before those of their children, with
whole blocks filled) and `edge` (child blocks on both sides of, and exactly at, the limit of short offsets).
Values: constant, small range, rank, reverse rank, random 31 bit, boundary values (0, 2^31-1, bits 8/9/31
neighbourhood), values determined by the last bytes (so that suffixes merge), and values whose low byte equals
labels in use (provokes label/value confusion).
UTF-C strings come from code-point classes (each window, window edges, extra-range edges, zero-low-byte and
zero-high-byte code points, aux alphabets) plus systematic enumeration: state-setting prelude x all 1,112,064 code
points; every 128-code-point window left for each of 8 alphabets and tried again; all pairs (thorough: triples) of
representatives, all 4-tuples of a core set; texts of every length up to 1100, of more than 65,536 code points and of more than 1 MiB.

## Per property

| id | generated | oracle | non-trivial | what tests cannot reach |
|----|-----------|--------|-------------|--------------------------|
| C01 | lexicon x mutated queries (truncate, extend, substitute, NUL, neighbours), six lookup forms, explicit lengths shorter than the string | sorted map; value cells untouched on a miss | >= 2 keys and both hit and miss queries | value/label collisions, block recycling, extended offsets |
| C02 | lexicon, all 256 labels at every trie node; random splits into steps, counting forms | trie of the keys | >= 1 branching node | phantom transitions |
| C03 | sequences of insertion attempts (valid, out of order, NUL, negative, repeated; reused key buffers; keys up to 4 MiB refused at the end) | list model of accepted keys; image equals the image of a clean build | >= 1 refusal and >= 2 acceptances | refusal side effects |
| C04 | histories over several builders/automata (sizes, finish, build, clear, reuse), also building with the exported builder types into objects used throughout | image of a fresh default build | >= 1 reuse or non-default size | stale state after reuse |
| C05 | lexicons | independent hash-consed minimal automaton, whole automaton walked in step | >= 1 merged state | missed or wrong merges after table growth |
| C06 | lexicon, prefixes, restart points, calls past the end | sorted slice | >= 2 keys under some prefix | resume/backtrack paths |
| C07 | lexicon with ties and extremes, prefixes, restarts | multiset + non-increasing values | >= 2 keys, >= 2 values | heap/terminal interplay |
| C08 | lexicon x comparator family (total orders, classes of equivalent values; nonsense for values that are not stored) | brute-force best values per trie node | >= 1 node with >= 2 continuations of different best value | custom order |
| C09 | lexicon x both guides, all ranks, mutated queries, up to 750,000 keys | sorted slice; count at every trie node | >= 2 keys | terminal in the middle of ranked siblings |
| C10 | lexicon, object orders in one stream, chunkings (also empty reads), early EOF; completers and indexers kept over objects that are read again with other sets | byte equality + query equality + bytes consumed | >= 1 key | chunked streams |
| C11 | lexicon; foreign images | independent decoder of the dawgdic format (every unit explained), independent writer whose images must be readable, number of used units = 1 + transitions of the minimal automaton (sharing); an embedded older image | >= 1 key | symmetric format changes |
| C12 | histories of reads/writes/clears with a fault at every byte offset, lasting or transient, of many error kinds (EOF, unexpected EOF, timeouts, wrapped, custom), writers that accept all, part or none of the failing block; objects of more than 2^20 units with faults around powers of two | last-successful-content model | >= 1 injected fault | faults |
| C13 | strings; systematic prelude x all code points | identity | >= 2 windows or a zero marker | encoder state space |
| C14 | histories of encode/follow/copy/clear with refusal points and followers that themselves encode; every result kept and compared again after each later call | whole-string encoding | >= 2 calls | aliasing, abort |
| C15 | strings, systematic prelude x code point | independent reference encoder/decoder + size bounds | as C13 | symmetric changes |
| C16 | string sets, queries, prefixes, abandoned queries; sweep over the code points (every other one stored alone, before, behind and inside another text, all of them looked up) | string-set model | >= 2 strings, >= 1 non-ASCII | composition |
| C17 | lexicon files x all 64 option combinations x query files; lines of every length up to 600 over 1 MiB and of 70 MiB, more than 65,536 lines, indices of 140,000 words, fields after the value, LF and CR LF, no final newline, NUL in queries and -u keys, older output file present, invalid UTF-8 under -u | expected output computed from the lexicon; build summary computed from the minimal automaton and from the file | >= 2 keys and >= 1 match | whole CLI |
| C18 | unsorted/malformed lexicons, a line of more than 2^31 bytes (sparse file; the read fails midway), every truncation class, write limits, full device, missing files | exit status, file content | a fault was injected or the lexicon must be refused | whole CLI |
| C19 | several scripted readers, generated interleavings; goroutines under -race on untouched (fresh or reloaded) objects | solo run of each script; images before and after | >= 2 readers on shared objects | sharing, lazy caches |
| C20 | sets of building, writing, reading and querying jobs over shared finished objects, from goroutines under -race | each job alone, byte for byte; statistics and images of the shared objects before and after | >= 2 jobs that share an object | builders sharing working state |
| C21 | sequences of arbitrary streams (any count, any bytes, any cut, any delivery, up to more than 2^21 units) read into one object or by constructors | the stream itself: count + units; accessors unit by unit; write-back | a complete stream of >= 1 unit, or >= 2 streams | streams not written by the library |

Costs (idle 8-core machine): quick 1-20 s each, about three minutes in all; thorough 20-100 times as many drawn cases, more
huge lexicons, stride-1 fault sweeps and all UTF-C preludes, a few minutes each.

## Bounds and what is deliberately not claimed

* Search, not proof: nothing is claimed beyond the counted cases. Lexicons have at most about 1.5 million keys, keys at
  most 2^20 bytes (builders recurse per byte; keys of many MB meet the Go stack limit).
* The order of equal values in ranked completion; the order produced by RankedCompleter with a guide built with a
  custom comparator (the code says "this does not allow custom comparator").
* Queries on dictionaries with arbitrarily corrupted contents,
  `UtfcDecode` on bytes no encoder produces, guides built from a dictionary of another automaton.
* `NewDawgBuilderWithSize` with a size below 1; use of a cleared Dawg other than as target of Finish.
* Sharing one completer, indexer or builder between goroutines, and the UTF-C functions from several goroutines (the
  source calls them thread-unsafe).
* dawgtool: lines without a tab under -t, columns after the value, carriage returns, failing writes to standard output, an empty key
  among the prefixes printed without a guide, the wording of messages other than the warnings and the summary.
* Layout choices of the double array (which offsets are taken), table sizes and speed.

## Defects found and repaired

Eighteen "fix:" commits in /repo, listed with the property that exposed them in `known_findings.txt`. There is no open finding.
Two false alarms were met while building and corrected in the checks: the order of ties in ranked completion (left open now), and the
sharing oracle of C11 beyond 2^21 units, where offsets may not be shareable (bounded now).

## Planted bugs

`seeded/` holds the planted bugs, each with patch, demonstration and what it needs; each was written from the property and the code, and kept
whether caught or not (s36 was missed first: C14 now keeps every result and compares it after each later call; s20 was missed by C16 first: it sweeps over the code points now; the far-offset one led to
the `far` shape). All of them are caught by the quick check of their property:

'''
rows=['| bug | caught by | needs |','|-----|-----------|-------|']
extra=json.load(open('/tmp/also.json')) if os.path.exists('/tmp/also.json') else {}
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); n=os.path.basename(d)
    rows.append('| %s | %s | %s |'%(n,m['property'],m['needs']))
doc+='\n'.join(rows)+r'''

Besides these, a sweep over mechanically generated mutants (operators, constants, conditions, deleted statements, early returns; 2,551 in all, in
random order) runs the related quick checks at 0.3 of their size. Reviewed survivors are equivalent (unreachable error returns, hash functions, table
sizes, stricter placement conditions, unused table entries, progress output) or change only speed or the order of ties. Hand-written narrow
variants (16-bit lengths and counters, limits on probes, depth, queues and line lengths, pooled buffers, off-by-one at 2^21) led to the deep merged
shapes, the `edge` shape and the long texts and lines.

False alarms were tested with behaviour-preserving rewrites of nearly every file at once (own stream code with buffering, map-based
link table, boolean bit pool, other table sizes, reordered unit recycling, rewritten completer paths, reversed tie order, local UTF-C buffers,
memoised index builder, buffered dawgtool output, another number of unfixed blocks): all 21 checks stay quiet.
'''
open(p,'w').write(doc)
