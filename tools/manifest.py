"""Writes MANIFEST.json from the checks that exist (run: python3 tools/manifest.py)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
    "default": ("runtime monitoring: randomized API programs against the real code, SVG-level oracle from an independent reference model",
                "exploration",
                "Held on the generated executions (counts in the evidence file); trusts the reference model and, for text widths, a deterministic stand-in for the Inkscape process validated against its shell protocol."),
}
SPECIFIC = json.load(open(os.path.join(HERE, "tools", "techniques.json")))

NA = {}


def main():
    checks = []
    props = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
    na = []
    for p in props:
        if os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
            t, lv, n = NOTES["default"]
            s = SPECIFIC.get(p, {})
            checks.append({
                "property": p,
                "quick_cmd": "python3 run.py %s" % p,
                "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p,
                "technique": s.get("technique", t),
                "level": s.get("level", lv),
                "level_note": s.get("level_note", n),
            })
        else:
            na.append({"property": p, "reason": NA.get(p, "check under construction")})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", [x["property"] for x in na], "not claimed")


main()
