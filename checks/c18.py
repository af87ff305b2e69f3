import json
import os
import resource
import signal
import threading

from vlib import session
from vlib.core import Check, Violation

from . import gen

FILES = {"backend": ["elsie/render/backends/svg/backend.py"],
         "all": ["elsie/render/backends/svg/backend.py", "elsie/render/backends/svg/query.py", "elsie/render/inkscape.py", "elsie/slides/slidedeck.py", "elsie/utils/cache.py"]}
# Inkscape versions and the factor by which their measurements differ
VERSIONS = [("1.2.2 (b0a8486541, 2022-12-01)", 1.0), ("1.2.2 (b0a8486541, 2022-12-02)", 1.25), ("1.3 (x)", 0.5)]
EVERSIONS = [None, "9.9.1", "9.9.2"]
BROKEN = ["", "null", "[]", "{}", "5", "\"x\"", "{\"version\": 1}", "[" * 3000, "{\"queries\": [", "\x00\x00\x00", "nul", "{'version': 1}"]
# wrong values for "queries"
QUERIES = [5, None, "abc", {"a": 1}, [1, 2], [["a", 1]], [[["inkscape-w"], 1.0]], [[["inkscape-w", "x", "y"], 1.0]], [[["inkscape-w", "x"], "abc"]],
           [[["inkscape-w", "x"], None]], [[["inkscape-w", "x"], [1.0]]], [[["inkscape-w", ["x"]], 1.0]], [[5, 1.0]], [["inkscape-w", "x", 1.0]]]

WORDS = ["Hello", "a", "Wide words everywhere", "x < y & 'z'", "Řeka", "two\nlines", "", "  spaces  ", "iiii", "WWWW"]


def text(rng):
    if rng.random() < 0.04:
        # long texts that differ in a few characters
        pad = "w " * rng.choice([100, 600, 2500, 40000])
        return {"k": "text", "s": rng.choice([pad + "a%s z", "a%s z" + pad, pad + "a%s z" + pad]) % rng.choice(["i", "WW"]), "size": 10, "bold": False}
    return {"k": rng.choice(["text", "text", "text", "inline", "fit", "code"]), "s": rng.choice(WORDS), "size": rng.choice([10, 20, 28, 28]),
            "bold": rng.random() < 0.2}


class C18(Check):
    id = "C18"
    rule = ("random histories of elsie processes sharing a cache directory (also at the same time): decks of texts with inline boxes, scaling and code are built, rendered repeatedly with and "
            "without pruning and saving, edited after renders, by two decks of one backend; between processes the measurement file is truncated at a random byte, replaced by garbage, by "
            "JSON of other shapes or other entry types, removed, or left as a killed process left it (killed before the n-th line executed in the backend code, by failures of Inkscape "
            "while measuring, by a full disk); versions of elsie and of Inkscape vary, and Inkscape versions measure differently. The SVG of every render is compared with that of the same program in an "
            "empty cache directory, and the log of measurements with a model of what the cache holds. Non-trivial: some measurement was reused or a damaged file was met.")
    assumptions = ["Inkscape is a stand-in with deterministic text metrics", "a damaged file is one that is not a complete file written by elsie; values changed by hand in a well-formed file are not detected"]
    level = "fault_enumeration"
    quick = (900, 110)
    thorough = (40000, 800)
    workers = 12
    required = ("sessions", "measurements", "measurements_reused", "crashes", "crash_in_backend", "damaged_files", "shape_damages", "truncations", "version_changes", "pruned_renders",
                "dropped_by_pruning", "second_renders", "failed_measurements", "parallel_sessions", "two_deck_sessions", "unsaved_renders", "partly_saved", "full_disk_sessions", "default_backends")

    def gen(self, rng, i, tier):
        pool = [text(rng) for _ in range(rng.randint(2, 6))]
        steps = []
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            crash = fault = None
            if r < 0.25:
                crash = {"files": rng.choice(["backend", "backend", "all"]), "at": int(rng.choice([20, 100, 250]) * rng.random()) + 1}
            elif r < 0.37:
                fault = {"kind": rng.choice(["garbage", "exit"]), "cmd": rng.choice(["query-width", "query-height", "query-x"]), "at": rng.randint(1, 5)}
            full = rng.randint(600, 3000) if 0.37 < r < 0.47 else None
            ops = []
            for _ in range(rng.randint(1, 3)):
                for _ in range(rng.randint(1, 2)):
                    ops.append({"op": "slide", "deck": int(rng.random() < 0.15), "texts": [rng.randrange(len(pool)) for _ in range(gen.many(rng, rng.randint(1, 3), 0.02))]})
                if rng.random() < 0.25:
                    ops.append({"op": "edit", "texts": [rng.randrange(len(pool))]})
                ops.append({"op": "render", "deck": int(rng.random() < 0.1), "prune": rng.random() < 0.5, "save": rng.random() < 0.85})
            damage = None
            if rng.random() < 0.35:
                damage = rng.choice([["cut", rng.random()], ["cut", 1 - rng.random() * 0.02], ["broken", rng.randrange(len(BROKEN))], ["bytes", rng.random()],
                                     ["queries", rng.randrange(len(QUERIES))], ["field", rng.choice(["version", "inkscape", "queries"])], ["entry", rng.random()], ["remove", 0]])
            steps.append({"ops": ops, "crash": crash, "fault": fault, "full": full, "version": rng.choice([0] * 6 + [1, 2]), "eversion": rng.choice([0] * 7 + [1, 2]), "damage": damage,
                          "parallel": rng.random() < 0.1, "default": rng.random() < 0.3})
        return {"kind": "sessions", "pool": pool, "steps": steps}

    def shrink(self, case):
        for c in super().shrink(case):
            yield c

    def life(self, cx, case, step, cache, log, ev, full=None):
        hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]

        def limit(n):
            resource.setrlimit(resource.RLIMIT_FSIZE, (n or hard, hard))

        def mark(k):
            limit(None)
            with open(log, "a") as f:
                f.write(json.dumps({"mark": k}) + "\n")
            limit(full)

        def fn():
            try:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                os.chdir(os.path.dirname(log))
                limit(full)
                return program()
            finally:
                limit(None)

        def program():
            import elsie as e

            if ev:
                e = session.reload_elsie(ev)
            from elsie.render.backends import InkscapeBackend
            from elsie.render.inkscape import InkscapeShell

            if own_backend(step):
                # the deck creates its backend
                decks = [e.SlideDeck(800, 600, cache_dir=cache)]
            else:
                backend = InkscapeBackend(InkscapeShell(cx.fake_bin()), cache)
                decks = [e.SlideDeck(800, 600, backend=backend, cache_dir=cache)]
            out = []
            last = None

            def put(box, k):
                t = case["pool"][k]
                style = e.TextStyle(size=t["size"], bold=t["bold"])
                if t["k"] == "inline":
                    x = box.box().text("pre ~#I{mid %s} post" % t["s"].replace("\n", " ").strip(), style, escape_char="~")
                    x.inline_box("#I").rect(color="red")
                elif t["k"] == "fit":
                    box.box(width=300, height=80).text(t["s"], style, scale_to_fit=True)
                elif t["k"] == "code":
                    box.box().code("python", t["s"] + " = 1", style=style)
                else:
                    box.box().text(t["s"], style)

            for k, op in enumerate(step["ops"]):
                while op.get("deck", 0) >= len(decks):
                    decks.append(e.SlideDeck(800, 600, backend=backend, cache_dir=cache))
                if op["op"] == "slide":
                    last = decks[op["deck"]].new_slide()
                    for t in op["texts"]:
                        put(last, t)
                elif op["op"] == "edit":
                    if last is not None:
                        for t in op["texts"]:
                            put(last, t)
                else:
                    try:
                        units = decks[op["deck"]].render(None, return_units=True, prune_cache=op["prune"], save_cache=op["save"])
                    except Exception as x:
                        if "No slides" not in str(x):
                            raise
                        units = None
                    out.append(None if units is None else [u.get_svg() for u in units])
                mark(k)
            return out

        return fn

    def events(self, log, nops):
        """-> measurements per operation and how many operations ended"""
        out = [[] for _ in range(nops + 1)]
        k = 0
        if os.path.exists(log):
            for ln in open(log):
                ev = json.loads(ln)
                if "mark" in ev:
                    k = ev["mark"] + 1
                elif ev.get("cmd", "").startswith("query-") and ev.get("value") is not None:
                    out[k].append((ev["cmd"], ev["sha"]))
        return out, k

    def run(self, case, cx):
        folder = cx.dir()
        cache = os.path.join(folder, "cache")
        os.makedirs(cache)
        # possible contents: (version, eversion, measurements)
        cands = [(None, None, frozenset())]
        refs = {}
        last = None
        for si, step in enumerate(case["steps"] + [dict(case["steps"][-1], crash=None, fault=None, full=None, damage=None, parallel=False, version=0, eversion=0)]):
            conf = (step["version"], step["eversion"])
            if last is not None and last != conf:
                cx.count("version_changes")
            last = conf
            ver, metric = VERSIONS[conf[0]]
            ev = EVERSIONS[conf[1]]
            path = next((os.path.join(cache, n) for n in sorted(os.listdir(cache)) if not n.startswith("cache.")), None)
            if step["damage"] and path is not None and self.damage(path, step["damage"], cx):
                # only a single entry is damaged: the others may be used
                cands = [(None, None, frozenset())] + (cands if step["damage"][0] == "entry" else [])
            env = {"ELSIE_INKSCAPE": cx.fake_bin(), "FAKEINK_VERSION": ver, "FAKEINK_METRIC": str(metric), "FAKEINK_FAULT": "{}"}
            # the same program in an empty directory
            key = json.dumps([step["ops"], conf])
            if key not in refs:
                rdir = os.path.join(folder, "ref%d" % si)
                os.makedirs(os.path.join(rdir, "c"))
                log = os.path.join(rdir, "log")
                r = session.run(self.life(cx, case, step, os.path.join(rdir, "c"), log, ev), rdir, dict(env, FAKEINK_LOG=log))
                if r.status != "ok":
                    raise Violation("session-failed", "cold: %s" % (r.trace or r.status))
                need, _ = self.events(log, len(step["ops"]))
                flat = sum(need, [])
                cx.expect(len(flat) == len(set(flat)), "measured-twice", lambda: "%r" % ([k for k in flat if flat.count(k) > 1],))
                refs[key] = (r.value, need)
            want, need = refs[key]
            if any(op["op"] != "edit" and op["deck"] for op in step["ops"]):
                cx.count("two_deck_sessions")
            if own_backend(step):
                cx.count("default_backends")
            n = 2 if step["parallel"] else 1
            crash = dict(step["crash"], files=FILES[step["crash"]["files"]]) if step["crash"] else None
            results, logs = [None] * n, [os.path.join(folder, "log%d-%d" % (si, k)) for k in range(n)]

            def life(k):
                sub = os.path.join(folder, "p%d" % k)
                os.makedirs(sub, exist_ok=True)
                e = dict(env, FAKEINK_LOG=logs[k])
                if k == 0:
                    e["FAKEINK_FAULT"] = json.dumps(step["fault"] or {})
                try:
                    results[k] = session.run(self.life(cx, case, step, cache, logs[k], ev, step["full"] if k == 0 else None), sub, e, crash if k == 0 else None)
                except Violation as v:
                    results[k] = v

            if n == 1:
                life(0)
            else:
                cx.count("parallel_sessions")
                ts = [threading.Thread(target=life, args=(k,)) for k in range(n)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            cx.count("sessions", n)
            after = []
            starts = list(cands)
            for k, r in enumerate(results):
                if isinstance(r, Violation):
                    raise r
                got, ended = self.events(logs[k], len(step["ops"]))
                if r.status == "killed":
                    cx.expect(r.where is not None, "died", "session died by itself: %r" % step)
                    cx.count("crashes")
                    if r.where.startswith("backend"):
                        cx.count("crash_in_backend")
                elif r.status == "exception":
                    if k == 0 and step["full"] and r.value.startswith("OSError"):
                        cx.count("full_disk_sessions")
                    elif k or step["fault"] is None:
                        raise Violation("session-failed", "%s" % r.trace)
                    cx.count("failed_measurements")
                else:
                    cx.expect(len(r.value) == len(want), "geometry-changed", "")
                    for a, b in zip(r.value, want):
                        cx.expect(a == b, "geometry-changed", lambda: "session %d: %s" % (si, diff(a, b)))
                ok = None
                tried = []
                # while another process runs, the file may change before it is read
                for cand in (starts if n == 1 else starts + self.saves(step, need, starts, conf)):
                    res = self.simulate(step, need, cand, conf, got, ended, r.status == "ok", cx)
                    if isinstance(res, str):
                        tried.append(res)
                    else:
                        ok = (ok or []) + res[0]
                        stat = res[1]
                if ok is None:
                    raise Violation("wrong-measurements", "session %d, %s" % (si, "; or ".join(tried)))
                for name, c in stat.items():
                    cx.count(name, c)
                after += ok
            cands = dedupe(after)
            if len(cands) > 1:
                cx.count("partly_saved")

    def saves(self, step, need, starts, conf):
        """every state a healthy process may leave in the file meanwhile"""
        out = []
        for s in starts:
            known = set(s[2]) if s[:2] == conf else set()
            used = set()
            for k, op in enumerate(step["ops"]):
                known |= set(need[k])
                used |= set(need[k])
                if op["op"] == "render":
                    if op["prune"]:
                        known = set(used)
                    if op["save"]:
                        out.append(conf + (frozenset(known),))
        return dedupe(out)

    def simulate(self, step, need, cand, conf, got, ended, complete, cx):
        """What the process does when it starts with cand -> possible states of the file, or a
        message if the observed measurements differ"""
        loaded = set(cand[2]) if cand[:2] == conf else set()
        known = set(loaded)
        used = set()
        state = cand
        stat = {"measurements": 0, "measurements_reused": 0, "pruned_renders": 0, "dropped_by_pruning": 0, "unsaved_renders": 0, "second_renders": -1}
        for k, op in enumerate(step["ops"]):
            expected = [q for q in need[k] if q not in known]
            if k < ended or complete:
                if got[k] != expected:
                    return "operation %d: %d measurements instead of %d (%d of %d known); unexpected %r, missing %r" % (
                        k, len(got[k]), len(expected), len(need[k]) - len(expected), len(need[k]),
                        [q for q in got[k] if q not in expected][:3], [q for q in expected if q not in got[k]][:3])
            elif got[k] != expected[:len(got[k])]:
                return "operation %d: measurements %r do not start %r" % (k, got[k], expected)
            stat["measurements"] += len(got[k])
            stat["measurements_reused"] += len(need[k]) - len(expected)
            if k == ended and not complete:
                # the operation it died in
                if op["op"] == "render" and op["save"]:
                    return [state, conf + (frozenset(used if op["prune"] else known),)], stat
                return [state], stat
            known |= set(need[k])
            used |= set(need[k])
            if op["op"] == "render":
                # a render of a deck without slides fails before anything is pruned
                if not any(o["op"] == "slide" and o["deck"] == op["deck"] for o in step["ops"][:k]):
                    continue
                stat["second_renders"] += 1
                if op["prune"]:
                    stat["pruned_renders"] += 1
                    stat["dropped_by_pruning"] += len(known - used)
                    known = set(used)
                if op["save"]:
                    state = conf + (frozenset(known),)
                else:
                    stat["unsaved_renders"] += 1
        stat["second_renders"] = max(0, stat["second_renders"])
        return [state], stat

    def damage(self, path, d, cx):
        """-> is nothing of the cache usable any more"""
        data = open(path, "rb").read()
        kind, a = d
        if kind == "cut":
            n = int(len(data) * a)
            if n >= len(data):
                return False
            data = data[:n]
            cx.count("truncations")
        elif kind == "broken":
            data = BROKEN[a].encode()
        elif kind == "bytes":
            n = int(len(data) * a)
            data = data[:n] + b"\xff\xfe\x00" + data[n + 3:]
        elif kind == "remove":
            os.remove(path)
            return True
        else:
            try:
                c = json.loads(data)
            except ValueError:
                return False
            cx.count("shape_damages")
            if not isinstance(c, dict) or not isinstance(c.get("queries"), list):
                return False
            if kind == "queries":
                c["queries"] = QUERIES[a]
            elif kind == "field":
                c.pop(a, None)
            else:
                if not c["queries"]:
                    return False
                c["queries"][int(a * len(c["queries"]))] = [["inkscape-w"], "w"]
            data = json.dumps(c).encode()
        with open(path, "wb") as f:
            f.write(data)
        cx.count("damaged_files")
        return True


def dedupe(cands):
    out = []
    for c in cands:
        if c not in out:
            out.append(c)
    return out


def diff(a, b):
    if a is None or b is None or len(a) != len(b):
        return "%r pages, %r expected" % (a and len(a), b and len(b))
    for x, y in zip(a, b):
        if x != y:
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return "...%s, expected ...%s" % (x[max(0, i - 60):i + 60], y[max(0, i - 60):i + 60])
    return "?"


def own_backend(step):
    """decks that create their backends do not share it"""
    return step.get("default") and not any(op["op"] != "edit" and op["deck"] for op in step["ops"])


CHECK = C18()
