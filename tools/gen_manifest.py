#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rules of the analyser (run after check.sh build)."""
import json, subprocess, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = [l.rstrip("\n").split("\t") for l in subprocess.check_output([root + "/bin/wampcheck", "-list"], text=True).splitlines()]
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
NA = {
    "C44": "A statement about the distribution of random choices: no argument about the source bounds frequencies; it needs sampling and a statistical test. That the choice is drawn from the full callee list by a uniform generator is decided under C11.",
    "C45": "What bytes interoperate depends on the third-party JSON, MessagePack and CBOR codecs and on other WAMP implementations, whose source is not this repository's; it needs the encoders to run against an external oracle. The structure handed to the codecs is decided under C27.",
}
NOTE = ("Holds for every input and history as far as the analysis models the code: all ways through the entry points are enumerated from SSA "
        "(loops summarised, calls followed within the module), an undecided obligation counts as a violation. Trusts the Go type checker, x/tools/go/ssa and the models of "
        "library functions in wampcheck/models.go. ")
checks = []
for i, tech, what in rules:
    assert i in ids, i
    checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                   "technique": "static analysis: " + tech, "level": "other", "level_note": NOTE + what})
claimed = {c["property"] for c in checks}
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "Not decided yet: the rule is being written.")} for i in ids if i not in claimed],
     "notes": "One analyser (wampcheck, Go, over go/ssa) decides all properties; see DESIGN.md. No hooks in /repo are needed. Known findings: known-findings.txt."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
