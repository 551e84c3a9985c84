"""write properties.jsonl and MANIFEST.json from vc/props.py"""
import json
import os
from vc.props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for pid, p in sorted(PROPS.items()):
            d = dict(id=pid, title=p["title"], statement=p["statement"], quantifier=p["quantifier"],
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            assert len(d["title"]) <= 80, (pid, len(d["title"]))
            f.write(json.dumps(d) + "\n")
        for d in NOT_APPLICABLE:
            q = dict(d)
            q.pop("reason")
            f.write(json.dumps(q) + "\n")
    checks = []
    for pid, p in sorted(PROPS.items()):
        checks.append(dict(property=pid, quick_cmd="./check %s --tier quick" % pid,
                           thorough_cmd="./check %s --tier thorough" % pid,
                           technique=p.get("technique", "contract-based deductive verification of the compiled real source (inferred loop invariants, SMT-discharged obligations)"),
                           level=p.get("level", "proof"),
                           level_note=p.get("note", "Every obligation over the functions named is discharged for all inputs; "
                                                    "assumes exact real arithmetic for doubles and trusts clang's IR, z3/cvc5 and the verifier in vc/.")))
    m = dict(version=1, setup_cmd="python3-vt -m compileall -q vc", checks=checks,
             not_applicable=[dict(property=d["id"], reason=d["reason"]) for d in NOT_APPLICABLE],
             notes="vc/props.py is the source of properties.jsonl and of this file (python3-vt -m vc.gen).")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
