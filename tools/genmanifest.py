#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, re, glob

NOTES = {
    "C01": "real parser against a reference parser on all token sequences, trees and edits within the bound",
    "C02": "real parser against the reference parser on all spellings of gaps and trees within the bound",
    "C03": "real parser against the reference reader of literals on all texts within the bound",
    "C04": "real parser and matcher against the reference reader of fields on all segment sequences within the bound",
    "C05": "real parser and matcher against the reference rules on all value lists and places within the bound",
    "C06": "positions from the real parser against those counted in the text",
    "C07": "real walk against a model of the walk for all visitor decisions within the bound",
    "C08": "real reader entry point against parsing the text at once, for all deliveries and failure points within the bound",
    "C09": "allocations of the real parser at every depth against its own small depths",
    "C10": "real matcher against the boolean formula over its own comparisons",
    "C11": "real matcher against a model of selection on all small documents and paths",
    "C12": "real matcher on arrays against its own results for single scalars",
    "C13": "real matcher against exact rational arithmetic; integers beyond 2^53 are known findings",
    "C14": "real matcher against a reference search on all small terms and texts",
    "C15": "real matcher against Go's regexp on all small expressions",
    "C16": "real matcher against day and nanosecond arithmetic on all pairs of chosen instants",
    "C17": "real matcher against bit comparison on all prefix lengths and flipped bits",
    "C18": "real matcher on lists against its own results for the values alone",
    "C19": "real matcher against a model on all pairs of value types",
    "C20": "real matcher on all spellings of a document against the compact one",
    "C21": "real matcher against a reference JSON recognizer on all small byte strings",
    "C22": "real matcher against counters and fixed results over all short histories",
    "C23": "all schedules of the instrumented real matcher up to a preemption bound, and the race detector",
    "C24": "messages of real matchers against a model of the advice on all places within the bound",
    "C25": "real sampler against a model of key paths on all small documents",
    "C26": "real sampler against sets of keys per document over all short histories",
    "C27": "real sampler on all small byte strings, at every point of short histories",
    "C28": "real sampler and matcher against each other on all small documents",
    "C29": "real formatter on all positions and widths against a decomposition of the query",
    "C30": "DOT text of real graphs, read back, against the tree of the query",
    "C31": "real commands in scratch directories against the library for all argument combinations",
    "C32": "real wasm module under node against the parser for all inputs within the bound",
    "C33": "real handlers in a scratch directory on all spellings of paths within the bound",
    "C34": "committed parser and one generated from the grammar file, compared on all texts within the bound",
    "C35": "real printing on all queries and messages within the bound, against the model's printing of its own tree",
}
LEVEL = {}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
have = set()
for f in glob.glob("/verif/harness/**/*.go", recursive=True):
    have |= set(re.findall(r'^\s*ID:\s*"(C\d\d)"', open(f).read(), re.M))
checks = []
for p in props:
    i = p["id"]
    if i not in have:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash run.sh {i}",
        "thorough_cmd": f"bash run.sh {i}",
        "technique": "bounded exhaustive model checking of the real code",
        "level": LEVEL.get(i, "model_checking"),
        "level_note": NOTES[i],
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check compiles the harness with /repo's working tree through a build overlay; see DESIGN.md.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
