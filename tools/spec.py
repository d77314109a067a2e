#!/usr/bin/env python3
"""Source of properties.jsonl, checks.json and MANIFEST.json: `python3 tools/spec.py` rewrites them."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
HOOKS = ["c42e5a951b4061c6a16621dd125204abe90cd7b8"]


def prop(id, title, statement, over, text, why, files, mech, explain, bounds, **k):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why=why,
                  files=files, mech=mech, explain=explain, bounds=bounds, k=k))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

COMMON = [
    "Kani's translation of MIR and CBMC's decision procedure are correct; memory safety, UB and integer overflow inside std are not the subject",
    "threads, channels, the clock, hash maps, stdout and panic! are the models in /verif/env (sequential consistency; a participant runs without interleaving between two of its API calls unless it would block)",
    "no allocation failure",
]
NOTE = ("Kani/CBMC executes the real functions of /repo symbolically (from the compiler's MIR, regenerated on every run); unwinding "
        "assertions are on, so within the bounds (evidence, 'bounds') the verdict covers every value and schedule; nothing is claimed outside. "
        "Trusted: Kani, CBMC, the environment model in /verif/env. Counterexamples are replayed natively against the real code before being reported.")
NA = json.load(open(os.path.join(ROOT, "tools", "na.json")))

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"],
                                why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                             observe_at=p["k"].get("observe", ["results of the public API and the messages in the channels"]),
                                             hook_needed="--cfg mpst_verif (std facade)"))) + "\n")
    for n in NA:
        f.write(json.dumps(n["prop"]) + "\n")
checks = {"_common": {"assumptions": COMMON}}
man = {"version": 1, "setup_cmd": "true",
       "hooks": {"guard": "mpst_verif", "enable": 'RUSTFLAGS="--cfg mpst_verif"', "source_commits": HOOKS},
       "checks": [], "not_applicable": [dict(property=n["prop"]["id"], reason=n["reason"]) for n in NA]}
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    checks[p["id"]] = dict(explain=p["explain"], bounds=p["bounds"], **{a: b for a, b in p["k"].items() if a not in ("observe", "note")})
    man["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
                              thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                              technique=p["k"].get("technique", "bounded symbolic execution of the real MIR (Kani/CBMC, SAT)"), level="model_checking",
                              level_note=NOTE + (" " + p["k"]["note"] if p["k"].get("note") else "")))
json.dump(checks, open(os.path.join(ROOT, "checks.json"), "w"), indent=1)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
