"""Writes properties.jsonl and MANIFEST.json from the definitions below.
Run from /verif:  python3 tools/mk.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, q, why, files, mech, state, observe, level="proof", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files,
                  mech=mech, state=state, observe=observe, level=level, note=note))


XL = "pandalone/xleash/"
exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": p["state"], "observe_at": [p["observe"]],
                        "hook_needed": None}}) + "\n")
NA = globals().get("NA", [])
m = {"version": 1, "setup_cmd": "chmod +x bin/py bin/check",
     "checks": [{"property": p["id"],
                 "quick_cmd": "bin/check %s --tier quick" % p["id"],
                 "thorough_cmd": "bin/check %s --tier thorough" % p["id"],
                 "technique": "contract-based deductive verification: contracts on the functions of "
                 "/repo's current source, obligations generated by path-wise symbolic execution with "
                 "loop invariants (pyvc) and discharged by z3/cvc5, each contract also executed "
                 "against the real function",
                 "level": p["level"], "level_note": p["note"]}
                for p in P if p["id"] not in {n["property"] for n in NA}],
     "not_applicable": NA}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
