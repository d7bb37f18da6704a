#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), claimed=False, note="", na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, claimed=claimed, note=note, na=na))

IDX = ["pkg/idxtable/table.go", "pkg/idxtable/iterator.go", "pkg/idxtable/entry.go"]
TT = ["pkg/table/table16/table16.go", "pkg/table/table32/table32.go", "pkg/table/table64/table64.go"]
IP = ["pkg/iptable/iptable.go"]
ID = ["pkg/tree/id%d/%s%d.go" % (w, n, w) for w in (16, 32, 64) for n in ("id", "myuint")] + ["pkg/tree/gtree/gtree.go"]
RG = ["pkg/tree/id%d/range%d.go" % (w, w) for w in (16, 32, 64)]
SET = ["pkg/tree/id%d/idset.go" % w for w in (16, 32, 64)]
TR = ["pkg/tree/tree.go", "pkg/tree/tree_manual.go", "pkg/tree/node.go"]
TN = ["pkg/tree/tree16/tree16.go", "pkg/tree/tree32/tree32.go", "pkg/tree/tree64/tree64.go"]
H = ["inputs", "histories"]

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                              mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=list(p["observe"]), hook_needed=None))
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(o) + "\n")
TECH = "deductive verification: contracts on the real Go functions, obligations generated from go/ssa of the current source and discharged by z3/cvc5"
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="verif", enable="no hooks are needed: contracts live in /verif/contracts and the generator reads /repo's sources as they are", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="bash check.sh " + p["id"], thorough_cmd="bash check.sh " + p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=TECH, level="proof", level_note=p["note"] or NOTE, theorems=[])
                 for p in P if p["claimed"]],
         not_applicable=[dict(property=p["id"], reason=p["na"] or "no contract for it has been discharged yet") for p in P if not p["claimed"]],
         notes="Contracts: /verif/contracts. Generator: /verif/gover. Bounded runs of the real code (/verif/harness) look for a failing input when an obligation fails; they are reported apart and never counted as proof.")
for c in m["checks"]:
    del c["theorems"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
