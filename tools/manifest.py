#!/usr/bin/env python3
"""Writes MANIFEST.json and checks that it agrees with properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import jobs
N = {
 "C01": "byte strings of up to 3 (quick) or 5 (thorough) arbitrary bytes behind each of 27 prefixes that reach the decoder's states, all option sets listed, call orders of up to 4 picks",
 "C15": "frames of up to 8 arbitrary pixels of 1-8 bits; longer ones (to 100000 pixels) with concrete patterns and up to 2 arbitrary pixels",
 "C20": "images of up to 5 arbitrary pixels at speed 1 to 30 with up to 256 colours; the NeuQuant path for more colours is outside of the claim",
}
D = "all values of the symbolic inputs of every listed harness instance; sizes, sequence lengths and options as listed under bounds in the evidence; nothing beyond them"
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    assert p in jobs.Q
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                   "technique": "symbolic execution of the LLVM IR of the real code, every path and assertion decided by Z3 over bit-vectors; counterexamples and sampled paths replayed natively",
                   "level": "model_checking", "level_note": "bounded: " + N.get(p, D)})
json.dump({"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": []}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
