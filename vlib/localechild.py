"""Renders decks of C07 in a process of another locale:  python localechild.py JOB.json
JOB: {"home", "repo", "bin", "folder", "cases"}; the answer is written into folder/answer.json (ASCII)."""
import json
import sys

if __name__ == "__main__":
    with open(sys.argv[1], encoding="ascii") as f:
        job = json.load(f)
    sys.path[:0] = [job["home"], job["repo"]]
    from checks import c07

    try:
        out = {"pages": c07.render_all(job["cases"], job["bin"], job["folder"], job["ora"]), "encoding": open(sys.argv[1]).encoding}
    except Exception:
        import traceback

        out = {"error": traceback.format_exc()[-1500:]}
    with open(job["folder"] + "/answer.json", "w", encoding="ascii") as f:
        json.dump(out, f)
