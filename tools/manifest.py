#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]

OPS = "explicit-state exploration of the real code: every operation sequence within the bounds, in lockstep with a reference model"
INP = "explicit enumeration of every input within the bounds on the real code, compared with an independent reference model"
SESS = "stateless model checking of the real session on a simulated network and clock: every server, delivery and application behaviour within the bounds"
SCHED = "stateless model checking under a controlled scheduler: every interleaving up to a preemption bound on the real code"
tech = {
 "C01": OPS, "C02": INP, "C03": OPS, "C04": INP, "C05": OPS, "C06": INP, "C07": INP, "C08": INP, "C09": INP, "C10": INP,
 "C11": OPS, "C12": INP, "C13": OPS, "C14": INP, "C15": INP, "C16": INP, "C17": INP, "C18": OPS, "C19": INP, "C20": INP, "C21": INP, "C34": OPS,
 "C22": SESS, "C23": SESS, "C24": SESS, "C25": SESS, "C26": SESS, "C27": SCHED, "C28": SESS, "C29": SESS, "C30": SESS, "C31": SESS, "C32": SESS, "C33": SESS, "C35": SESS, "C36": SESS, "C37": OPS, "C38": SCHED, "C39": SESS, "C40": SESS,
}
PURE = "Exhaustive within the bounds that the evidence file lists per driver; the explored system is the compiled code of the current tree itself, so there is no model to drift. Trusts the reference model in harness/pure and the Go toolchain."
SIM = "Exhaustive within the bounds that the evidence file lists per driver, on the current tree's own code copied with its uses of net, sync, log, os.Exit and go statements redirected to simulated ones (harness/cmd/vprep, harness/shim). Trusts those stand-ins, testing/synctest and the oracle in harness/sess."
not_applicable = []
PENDING = {}
checks = []
for p in props:
    i = p["id"]
    if i in PENDING:
        not_applicable.append({"property": i, "reason": PENDING[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check %s quick" % i,
        "thorough_cmd": "./check %s thorough" % i,
        "technique": tech[i],
        "level": "model_checking",
        "level_note": SIM if tech[i] in (SESS, SCHED) else PURE,
    })
m = {"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": not_applicable,
     "notes": "No hooks in /repo: the checks work on a copy of the current tree prepared at build time. See DESIGN.md."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(not_applicable), "not applicable")
