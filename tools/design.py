"""Fills the generated tables of DESIGN.md: planted bugs, repaired defects, bounds of the checks."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "checks", "c[0-9]*.py"))):
        for c in ast.parse(open(f).read()).body:
            if isinstance(c, ast.ClassDef):
                d = {}
                for n in c.body:
                    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                        try:
                            d[n.targets[0].id] = ast.literal_eval(n.value)
                        except ValueError:
                            pass
                if "id" in d:
                    out[d["id"]] = d
    return out


def main():
    p = os.path.join(HERE, "DESIGN.md")
    text = open(p).read()
    bounds = "| property | quick: programs / cap | thorough: programs / cap |\n|---|---|---|\n"
    for k, d in consts().items():
        q, t = d["quick"], d["thorough"]
        bounds += "| %s | %d / %d s | %d / %d s |\n" % (k, q[0], q[1], t[0], t[1])
    seeds = "| planted bug | needs | breaks | caught by |\n|---|---|---|---|\n"
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        seeds += "| %s | %s | %s | %s |\n" % (d, m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"]))
    fixed = ""
    for f in json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]:
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", f)
        fixed += "* %s, commit `%s`: %s\n" % m.groups()
    for name, body in (("bounds", bounds), ("seeds", seeds), ("fixed", fixed)):
        a, b = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
        i, j = text.index(a) + len(a), text.index(b)
        text = text[:i] + body + text[j:]
    open(p, "w").write(text)


main()
