#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
T = {
 "C01": ("property-based testing; exhaustive enumeration over Unicode scalars; round-trip and metamorphic oracle", "items are walked over the tokens of the real line; every Unicode scalar between digits (thorough: in five contexts)"),
 "C02": ("property-based testing; exhaustive enumeration over Unicode scalars and short strings; differential oracle", "independent statement of the cutting and tagging rules on top of unicode-segmentation; all scalars in five contexts and all strings of up to 3 (thorough 4) of 75 representative characters"),
 "C03": ("property-based testing and enumeration over Unicode scalars against a reference model", "positions recomputed from the token texts and the case's size function (six measures, sizes to 2^50); every Unicode scalar in context"),
 "C04": ("property-based testing and enumeration over Unicode scalars against a reference model", "all queries and forward searches of a fresh line against the list of supplied attributes; every Unicode scalar as a token"),
 "C05": ("model-based property testing of run histories", "after every layer all queries and the tokens are compared with the list-of-assignments model"),
 "C06": ("model-based property testing; cross-view differential oracle", "query, forward search, backward matches at every token and displayed rows are compared with each other and the model"),
 "C07": ("property-based testing against a reference model", "hits of generated basic matchers at every position in both directions"),
 "C08": ("property-based testing against a reference model (generated matcher expressions)", "hits of generated, nested matcher expressions at every position in both directions"),
 "C09": ("property-based testing against a reference model", "all search operations on generated selections"),
 "C10": ("property-based testing against a reference model", "all growing operations on generated selections"),
 "C11": ("property-based testing against a reference model", "pieces against the maximal uncovered runs of a coverage bitmap"),
 "C12": ("property-based testing against a reference model", "parts against index sets; selections of another line must be refused"),
 "C13": ("property-based testing against a reference model", "the three trimming operations on generated selections"),
 "C14": ("stateful model-based property testing", "generated operation histories run on the real selections and on plain intervals; positions observed through finished values"),
 "C15": ("property-based testing and enumeration over Unicode scalars against a reference model", "the whole display string is rebuilt independently from tokens and assignments; every Unicode scalar in a span, tokens up to 70,000 columns"),
 "C16": ("property-based testing and enumeration over cased characters against a reference model", "tokens looked up naively in the list of entries; every character with a case, in 36 combinations of key and text"),
 "C17": ("property-based testing; exhaustive enumeration over Unicode scalars and short token sequences; differential oracle", "an independent left-to-right reading of the tokens; values compared as exact decimal text; every scalar as delimiter and as decimal point, all short sequences of digits, delimiters and decimal points"),
 "C18": ("property-based testing; round-trip oracle plus documented examples", "numbers are generated, written with the preset's delimiters in context, and read back"),
 "C19": ("property-based testing; enumeration of the dictionary and of Unicode scalars; differential oracle", "tags against a direct dictionary lookup per word token"),
 "C20": ("property-based testing and enumeration over cased characters against a reference model", "keywords against a naive membership test per token"),
 "C21": ("property-based testing and enumeration of short token sequences against a reference model", "clauses against a direct reading of the documented rule over tokens and keyword marks; all short lines over seven symbols"),
 "C22": ("metamorphic property testing (permutations, subsets, repetition)", "all views of generated pipelines compared across repetition, order and subsets"),
 "C23": ("property-based fuzzing; enumeration over Unicode scalars; invariant oracle", "arbitrary Unicode through arbitrary pipelines; panics, out-of-range and overlapping spans are failures; every scalar among numbers and words"),
 "C24": ("property-based testing; round-trip oracle", "generated sequences of extraction attempts, and values read back off a line"),
 "C25": ("property-based testing; metamorphic and reference-model oracle", "recognisers applied to generated parts of lines through a delegating recogniser, compared with the whole-line results and the readings used for C17 and C21"),
 "C26": ("property-based testing of concurrent use; differential oracle (sequential run)", "generated lines and recogniser sequences run by up to four threads at once, and on one line passed around and shared, against the same on one thread; interleavings are whatever the scheduler gives"),
 "C27": ("stateful property testing with instance-counting values and a counting allocator", "the set of living values is compared with the values on the line after every step; memory held must not grow with every repetition of a case"),
 "C28": ("model-based property testing of generated rule cascades", "each rule's matches are evaluated on the list-of-assignments model and all queries compared"),
}
m = {
 "version": 1,
 "setup_cmd": "bash check.sh --build",
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"bash check.sh {p['id']} quick",
   "thorough_cmd": f"bash check.sh {p['id']} thorough",
   "technique": T[p["id"]][0],
   "level": "exploration",
   "level_note": f"Generated-input search over the public API, seeded by VERIF_SEED: {T[p['id']][1]}. Shows the property on the cases explored (counts in the evidence), not for all inputs; trusts std, proptest and the third-party crates named in the evidence.",
 } for p in props],
 "not_applicable": [],
 "notes": "No hooks: everything goes through the public API. check.sh rebuilds the harness from /repo's working tree by content hash. check.sh <ID> --replay FILE runs one saved case. The thorough tier adds a coverage-guided stage (the same strategies drawn from mutated byte streams kept for new edges and comparisons, in a second, instrumented build).",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
