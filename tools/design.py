"""Refreshes the generated tables of DESIGN.md (contracts, planted changes).
Run from /verif:  bin/py tools/design.py"""
import glob, importlib, json, os, re, sys
HERE = "/verif"
MODS = "capture jsonpointer mappings parsing filters lasso sheets cells models visitor codec utils components".split()


def contracts():
    out = ["| property | contract | function of /repo | how it is decided |", "|---|---|---|---|"]
    rows = []
    for m in MODS:
        if not os.path.exists(os.path.join(HERE, "contracts", m + ".py")):
            continue
        for c in importlib.import_module("contracts." + m).CONTRACTS:
            p = ", ".join([c.prop] if isinstance(c.prop, str) else c.prop)
            if not p:
                continue
            how = "**bounded, not proved**: " + c.bounded if c.bounded else \
                "obligations discharged " + c.proof_bound if c.proof_bound else "proved"
            if c.assumes:
                how += "; assumes " + "; ".join(c.assumes)
            rows.append((p, "| %s | %s.%s | `%s` | %s |" % (p, m, c.__name__, c.target.replace("pandalone.", "", 1), how)))
    return "\n".join(out + [r for _, r in sorted(rows, key=lambda r: r[0])])


def seeds():
    out = ["| planted change | check | needs |", "|---|---|---|"]
    for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
        m = json.load(open(d))
        out.append("| %s | %s | %s |" % (d.split("/")[-2], m["property"], m["needs"]))
    return "\n".join(out)


f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
for name, text in (("contracts", contracts()), ("seeds", seeds())):
    a, b = "<!-- %s -->" % name, "<!-- end of %s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + text + "\n" + s[j:]
open(f, "w").write(s)
