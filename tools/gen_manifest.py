#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
TEXT = "explicit enumeration of bounded query spaces; an independent reference model of the language is replayed against the real parser on every enumerated text"
SPECIAL = {
 "P20": "stateless exploration of the real code under a controlled scheduler: every interleaving of concurrent Parse calls up to a preemption bound, from a cold start and warm, each execution watched by the race detector",
 "P21": "explicit enumeration of all histories of Parse calls and caller-side modifications up to a bound, of map iteration orders and of clock readings, on an instrumented copy of the real code",
 "P22": "explicit enumeration of bounded spaces of query texts and of API-built query values, each sent through the real encoder and decoder",
 "P23": "explicit enumeration of bounded spaces of texts and of all call sequences up to a bound, executed on the compiled module in a JavaScript engine and compared with the native parser",
 "P24": "exhaustive enumeration of repetition families (every construct, every pair, every kind of break) with step counts from an instrumented copy of the real code",
}
NOTE = "Every text of the stated bounded spaces (evidence: spaces, deviation bounds, exhaustive flags) is parsed by the real code and compared with the model. Trusted: the reference model (mc/ref), small scope outside the bounds."
NOTES = {
 "P20": "Pre-emption points are uses of shared variables, synchronization operations and (bound 1) every function entry of the instrumented parser and its parser-combinator library. Trusted: the instrumenter, the Go race detector, small scope (2-3 goroutines, 1-2 preemptions).",
 "P21": "Trusted: the instrumenter and the deep dump of results. Small scope: the pool of texts, histories of two calls exhaustively and some long ones, map orders up to the deviation bound.",
 "P22": NOTE,
 "P23": "Every enumerated call runs on the module compiled from the current tree under node. Trusted: node, the native build of the same parser as oracle (its own results are decided by P01-P22).",
 "P24": "Every family is parsed with 4, 8, 16, 32 (thorough: 128) repetitions; steps are function entries and loop iterations. Small scope: longer texts grow like shorter ones.",
}
CLAIMED = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24".split()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + SPECIAL.get(i, TEXT),
                       "level": "model_checking", "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
