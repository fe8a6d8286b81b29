#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand when the list of checks changes)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("generated lexicons and near-miss queries against a map", "Lexicons up to > 2^21 units; every key and derived misses in all six lookup forms."),
 "C02": ("generated lexicons, all 256 labels at every trie node and random step splits, against a trie", "Every trie node of each generated lexicon is visited with all labels."),
 "C03": ("model-based sequences of insertion attempts", "The finished dictionary is compared with the accepted-keys model and with a clean build byte for byte."),
 "C04": ("stateful histories over several builders and automata, images compared with a fresh build", "Byte equality of dictionary, guides and index."),
 "C05": ("generated lexicons against an independently computed minimal automaton", "All statistics and the whole automaton are compared."),
 "C06": ("generated lexicons, prefixes and restart histories against a sorted slice", "Small lexicons from every trie node."),
 "C07": ("generated lexicons with ties and extremes, restart histories, against a multiset in value order", "Order among equal values is left open."),
 "C08": ("generated lexicons and comparators against brute-force best values", "Comparators are strict weak orders."),
 "C09": ("generated lexicons with both guides against ranks in the sorted key list", "Every rank (sampled above 12,000 keys), every position count."),
 "C10": ("round trips over generated objects, stream orders and chunkings", "Byte and query equality."),
 "C11": ("differential testing against an independent decoder and an independent writer of the format", "Trusts the harness' own reading of the dawgdic format; an image written earlier is embedded."),
 "C12": ("histories of reads, writes and clears with a fault injected at every byte offset", "Faults: short input, input error, output error at every offset (enumerated for small objects)."),
 "C13": ("round trip of generated strings and systematic prelude x code point sweeps", "All code points after a set of state-setting preludes."),
 "C14": ("histories of encode/follow/copy/clear with refusal points against whole-string encoding", "States outside UtfcState are observed through results only."),
 "C15": ("differential testing against an independent reference codec, plus size bounds", "Trusts the harness' own statement of the published scheme."),
 "C16": ("generated string sets against a string-set model", "Composition of UTF-C, builder, dictionary and completer."),
 "C17": ("generated lexicon and query files x all option combinations against expected output", "Runs the real dawgtool binary in a scratch directory."),
 "C18": ("fault injection on dawgtool runs: bad lexicons, cut files, write limits, missing files", "Write faults by RLIMIT_FSIZE and /dev/full, in a scratch directory."),
 "C19": ("generated interleavings of several readers against solo runs; goroutines under the race detector", "Go race detector (happens-before) on generated concurrent runs."),
 "C20": ("generated sets of building, writing and reading jobs run at once from goroutines under the race detector, against each job alone", "Go race detector (happens-before) on generated concurrent runs; byte equality."),
 "C21": ("generated arbitrary streams (any count, any units, any cut, any delivery) read into one object, against the stream itself", "Model of the format: count and units; write-back and accessor equality."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
assert ids == list(T)
checks = [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
           "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + T[i][0], "level": "exploration",
           "level_note": T[i][1] + " Assurance is that of a search: no violation among the generated cases counted in the evidence."} for i in ids]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the harness uses the exported API and the dawgtool binary. Defects found and repaired: known_findings.txt."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f: f.write(json.dumps(m, indent=1) + "\n")
