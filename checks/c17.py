import json
import os
import random
import sys
import threading
import time

from vlib import outputs, scene, session
from vlib.core import Check, Violation

from . import gen

FILES = {"cache": ["elsie/utils/cache.py"], "all": ["elsie/utils/cache.py", "elsie/render/render.py", "elsie/render/inkscape.py", "elsie/slides/slidedeck.py",
                                                  "elsie/render/pdfmerge.py"]}
VERSIONS = ["1.2.2 (b0a8486541, 2022-12-01)", "1.2.2 (b0a8486541, 2022-12-02)", "1.3 (x)"]
EVERSIONS = [None, "9.9.1", "9.9.2"]


def mark(k):
    return "#e%05x" % k


def pad(root, size):
    """about so many bytes of a document"""
    if size:
        root.line([(k % 100, 5) for k in range(size // 6)], color="#808080")


class C17(Check):
    id = "C17"
    rule = ("(a) random histories of elsie processes sharing a cache directory, which build decks (shapes and ORA images), render them once or repeatedly with edits, prune, fail or die: "
            "the Inkscape stand-in fails, writes partial files or kills elsie before, within or after the n-th export, or elsie is killed before the n-th line executed in its cache and "
            "render code; versions of elsie and Inkscape and text-to-path vary. Every produced page is read back and compared with what exporting it afresh gives; the export log and "
            "the directory are checked after every session. (b) threads requesting overlapping sets of entries from one FsCache with random delays injected at every line of it, some "
            "constructions failing; calls, results and file contents are checked. Non-trivial: a page was read back in a warm cache or a collision occurred; distinct by program.")
    assumptions = ["Inkscape is a stand-in that writes files identifying the document, version and options of an export",
                   "files of other processes in the cache directory that never belonged to elsie are left alone only if not named cache.*"]
    level = "fault_enumeration"
    quick = (2200, 110)
    thorough = (60000, 800)
    workers = 12
    required = ("sessions", "cached_pages_reused", "crashes", "crash_by_inkscape", "crash_by_line", "failed_exports", "recovered_after_failure", "version_changes", "option_changes",
                "pruned_sessions", "files_pruned", "second_renders", "thread_cases", "collisions", "failed_constructions", "parallel_sessions", "ora_conversions", "large_documents")

    def setup(self, cx):
        import elsie.ext  # noqa: sessions are forked with everything imported

        scene.new_deck(cx)

    def gen(self, rng, i, tier):
        if i % 4 == 3:
            return {"kind": "threads", "seed": rng.randrange(10 ** 9), "threads": rng.randint(2, 8), "keys": rng.randint(1, 4),
                    "calls": [[rng.choice(["ensure", "ensure", "get", "file"]), rng.randrange(4)] for _ in range(rng.randint(2, 14))],
                    "fail": rng.choice([0, 0, 1, 2, 5]), "delay": rng.choice([0, 0.0005, 0.002]), "p": rng.choice([0.05, 0.2, 0.5]),
                    "warm": rng.random() < 0.3}
        steps = []
        main = rng.choice(["pdf", "pdf", "png", "svg"])
        few = rng.choice([1, 2, 5])
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            fault = crash = None
            if r < 0.35:
                kind = rng.choice(["partial", "partial", "kill_before", "kill_after", "no_output", "exit"])
                fault = {"kind": kind, "cmd": "export-do", "at": rng.randint(1, 4)}
                if kind == "partial":
                    fault["kill_parent"] = rng.random() < 0.5
            elif r < 0.6:
                crash = {"files": rng.choice(["cache", "cache", "all"]), "at": int(rng.choice([30, 90, 300]) * rng.random()) + 1}
            steps.append({
                "slides": [rng.randint(0, few) for _ in range(gen.many(rng, rng.randint(1, 4), 0.03))], "ora": rng.random() < 0.2, "fault": fault, "crash": crash,
                "version": rng.choice([0] * 8 + [1, 2]), "eversion": rng.choice([0] * 10 + [1, 2]), "paths": rng.random() < 0.12, "prune": rng.random() < 0.4,
                "type": main if rng.random() < 0.9 else rng.choice(["pdf", "png", "svg"]), "again": rng.choice([None, None, None, 6, 0]), "parallel": rng.random() < 0.12})
        large = rng.choice([None] * 12 + [[0, 70000], [70000, 0], [40000, 40000], [1500, 1500], [130000, 900]])
        if large:
            for s in steps:
                del s["slides"][5:]
        return {"kind": "sessions", "steps": steps, "large": large}

    def run(self, case, cx):
        if case["kind"] == "threads":
            return self.threads(case, cx)
        if case.get("large"):
            cx.count("large_documents")
        folder = cx.dir()
        cache = os.path.join(folder, "cache")
        os.makedirs(cache)
        with open(os.path.join(cache, "notes.txt"), "w") as f:
            f.write("mine")
        cached = {}  # identity -> file name, exported by sessions that ended well
        last = None
        self.ora = None
        for si, step in enumerate(case["steps"]):
            step = dict(step, large=case.get("large"))
            version, ev = VERSIONS[step["version"]], EVERSIONS[step["eversion"]]
            conf = (version.replace(" ", "_"), ev, step["paths"])
            if last is not None and last[:2] != conf[:2]:
                cx.count("version_changes")
            if last is not None and last[2] != conf[2]:
                cx.count("option_changes")
            last = conf
            before = self.listing(cache)
            # entries that are in the cache now, of the kind this session may use
            avail = {k for k, name in cached.items() if k[0] == conf and before.get(name, (None, None))[1] == k[1:]}
            log = os.path.join(folder, "log%d" % si)
            env = {"FAKEINK_LOG": log, "FAKEINK_FAULT": json.dumps(step["fault"] or {}), "FAKEINK_VERSION": version}
            out = os.path.join(folder, "out%d" % si)
            crash = dict(step["crash"], files=FILES[step["crash"]["files"]]) if step["crash"] else None
            n = 1
            if step["parallel"] and not step["prune"]:
                n = 2
                cx.count("parallel_sessions")
            results = self.sessions(cx, n, step, cache, out, folder, env, crash, ev)
            cx.count("sessions", n)
            events = [json.loads(ln) for ln in open(log)] if os.path.exists(log) else []
            for r in results:
                if r.status == "killed":
                    cx.expect(crash is not None and r.where is not None or step["fault"] is not None, "died", "session died by itself: %r" % step)
                    cx.count("crashes")
                    cx.count("crash_by_line" if r.where else "crash_by_inkscape")
                    if r.where:
                        cx.count("crash_at_" + r.where.split(":")[0])
                elif r.status == "exception":
                    if step["fault"] is None:
                        raise Violation("session-failed", "%r\n%s" % (step, r.trace))
                    cx.count("failed_exports")
                else:
                    self.judge(cx, step, r.value, conf, cached, avail, cache, before)
            if all(r.status == "ok" for r in results) and n == 1:
                self.exports(cx, step, events, conf, avail, results[0].value, before)
            # forget what is not there any more
            now = self.listing(cache)
            for k in list(cached):
                if now.get(cached[k], (None, None))[1] != k[1:]:
                    del cached[k]
            cx.expect(open(os.path.join(cache, "notes.txt")).read() == "mine", "foreign-file", "")
        # whatever happened, a healthy process gets everything right
        step = {"slides": [0, 1, 2, 3, 4, 5], "ora": True, "version": 0, "eversion": 0, "paths": False, "prune": True, "type": case["steps"][0]["type"], "again": None,
                "fault": None, "crash": None, "large": case.get("large")}
        conf = (VERSIONS[0].replace(" ", "_"), None, False)
        before = self.listing(cache)
        r = self.sessions(cx, 1, step, cache, os.path.join(folder, "final"), folder, {"FAKEINK_LOG": "", "FAKEINK_FAULT": "{}", "FAKEINK_VERSION": VERSIONS[0]}, None, None)[0]
        if r.status != "ok":
            raise Violation("session-failed", "final session: %s" % (r.trace,))
        self.judge(cx, step, r.value, conf, cached, set(), cache, before)

    def listing(self, cache):
        """name -> (is complete, identity) of exported pages; others are ignored"""
        out = {}
        for name in os.listdir(cache):
            kind = name.rsplit(".", 1)[-1]
            path = os.path.join(cache, name)
            with open(path, "rb") as f:
                data = f.read()
            if kind in ("pdf", "png", "svg") and b"ELSIE " in data and outputs.complete(data, kind):
                p = outputs.read_file(path)[0]
                out[name] = (True, (kind, tuple(m[0] for m in p.marks), p.version, p.paths))
        return out

    def sessions(self, cx, n, step, cache, out, folder, env, crash, ev):
        def life(k):
            import elsie

            if ev:
                elsie = session.reload_elsie(ev)
            from elsie.render.backends import InkscapeBackend
            from elsie.render.inkscape import InkscapeShell

            shell = InkscapeShell(cx.fake_bin(), text_to_path=step["paths"])
            deck = elsie.SlideDeck(200, 100, backend=InkscapeBackend(shell, cache), cache_dir=cache)
            roots = []
            for s in step["slides"]:
                root = deck.new_slide()
                large = step.get("large") or [0, 0]
                pad(root, large[0])
                root.rect(color=mark(s))
                pad(root, large[1])
                if step["ora"]:
                    from vlib import images

                    path = os.path.join(folder, "pic.ora")
                    if not os.path.exists(path):
                        data = images.ora({"kind": "ora", "w": 4, "h": 4, "stack": [{"layer": {"w": 4, "h": 4, "box": [0, 0, 4, 4], "color": [1, 2, 3]}, "attrs": {"name": "a"}}]})
                        with open(path + str(os.getpid()), "wb") as f:
                            f.write(data)
                        os.rename(path + str(os.getpid()), path)
                    root.image(path)
                    root.rect(color=mark(15))  # a different document
                roots.append(root)
            failed = 0
            renders = []
            docs = [[mark(s)] + [mark(15)] * step["ora"] for s in step["slides"]]

            def render(name):
                res = deck.render(name, export_type=step["type"], prune_cache=step["prune"])
                files = [name] if step["type"] == "pdf" else res
                pages = []
                for f in files:
                    for p in outputs.read_file(f):
                        pages.append([[m[0] for m in p.marks], p.version, p.paths])
                    if step["type"] != "pdf" and not outputs.complete(open(f, "rb").read(), step["type"]):
                        raise Violation("incomplete-page", f)
                renders.append([pages, [list(d) for d in docs]])

            for again in range(2):
                try:
                    render(out + "-%d-%d.pdf" % (k, again))
                except Violation:
                    raise
                except Exception:
                    failed += 1
                    if step["fault"] is None or shell.process.poll() is not None or again:
                        raise
                    # the same deck is rendered again with the same, still living Inkscape
                    render(out + "-%d-retry.pdf" % k)
                if step["again"] is None or again:
                    break
                docs[0] = docs[0] + [mark(step["again"])]
                roots[0].rect(color=mark(step["again"]))
            return {"renders": renders, "failed": failed}

        if n == 1:
            r = session.run(lambda: life(0), folder, env, crash)
            self.raise_violation(r)
            return [r]
        res = []

        def th(k):
            sub = os.path.join(folder, "p%d" % k)
            os.makedirs(sub, exist_ok=True)
            try:
                res.append(session.run(lambda: life(k), sub, env, crash if k == 0 else None))
            except Violation as e:
                res.append(e)

        # both lives are started before either is waited for
        ts = [threading.Thread(target=th, args=(k,)) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for r in res:
            if isinstance(r, Violation):
                raise r
            self.raise_violation(r)
        return res

    def raise_violation(self, r):
        if r.status == "exception" and r.value.startswith("Violation: "):
            kind, _, detail = r.value[len("Violation: "):].partition(": ")
            raise Violation(kind, detail)

    def judge(self, cx, step, value, conf, cached, avail, cache, before):
        if value["failed"]:
            cx.count("recovered_after_failure")
            cx.count("failed_exports")
        allowed = set()
        for pages, docs in value["renders"]:
            cx.expect([p[0] for p in pages] == docs, "wrong-pages", lambda: "%r, expected %r (%r)" % (pages, docs, step))
            for p in pages:
                cx.expect(p[1] == conf[0], "page-of-another-version", lambda: "%r, expected %r" % (p, conf))
                cx.expect(p[2] == conf[2], "page-of-other-options", lambda: "%r, expected %r" % (p, conf))
            allowed |= {(step["type"], tuple(d), conf[0], conf[2]) for d in docs}
        if len(value["renders"]) > 1:
            cx.count("second_renders")
        if step["ora"]:
            cx.count("ora_conversions")
        now = self.listing(cache)
        have = {}
        for name, (_, ident) in now.items():
            have.setdefault(ident, []).append(name)
        if step["prune"] and not value["failed"]:
            cx.count("pruned_sessions")
            for name, (_, ident) in now.items():
                cx.expect(ident in allowed, "unused-page-kept", lambda: "%s %r is not used by %r" % (name, ident, step))
            cx.count("files_pruned", len(set(before) - set(now)))
        for pages, docs in value["renders"]:
            for d in docs:
                ident = (step["type"], tuple(d), conf[0], conf[2])
                cx.expect(ident in have, "used-page-missing", lambda: "%r not in %r" % (ident, sorted(now)))
                new = [name for name in have[ident] if name not in before]
                if len(new) == 1:  # more of them: a died process left its own copy
                    cached[(conf,) + ident] = new[0]

    def exports(self, cx, step, events, conf, avail, value, before):
        done = {}
        for e in events:
            if e.get("cmd") == "export-do" and "sha" in e:
                done[(e["sha"], e["type"])] = done.get((e["sha"], e["type"]), 0) + 1
        for k, c in done.items():
            cx.expect(c == 1, "exported-twice", "%r %d times in one process" % (k, c))
        if value["failed"]:
            return
        need = {(conf, step["type"], tuple(d), conf[0], conf[2]) for _, docs in value["renders"] for d in docs}
        if step["prune"]:  # pages that were not in the first render are pruned after it
            first = {tuple(d) for d in value["renders"][0][1]}
            avail = {k for k in avail if k[2] in first}
        reused = len(need & avail)
        cx.count("cached_pages_reused", reused)
        cx.expect(len(done) <= len(need) - reused, "cached-page-exported", lambda: "%d exports for %d documents, %d of them cached (%r)" % (len(done), len(need), reused, step))
        # processes that died may have left complete pages too
        there = {v[1] for v in before.values()}
        absent = len([k for k in need if k[1:] not in there])
        cx.expect(len(done) >= absent, "page-not-exported", lambda: "%d exports, %d documents not in the cache (%r)" % (len(done), absent, step))

    # ---------------------------------------------------------------- threads
    def threads(self, case, cx):
        from elsie.utils.cache import FsCache

        folder = cx.dir()
        rng = random.Random(case["seed"])
        if case["warm"]:
            w = FsCache(folder, "v")
            w.ensure("key0", "txt", lambda d, t, k: self.write(t, "key0"))
        cache = FsCache(folder, "v")
        lock = threading.Lock()
        runs = {}
        active = {}
        fails = {}
        problems = []
        rets = []
        files = {}
        for k in range(4):
            p = os.path.join(folder, "in%d" % k)
            self.write(p, "key%d" % k)
            files[k] = p

        def construct(key, write):
            with lock:
                runs[key] = runs.get(key, 0) + 1
                active[key] = active.get(key, 0) + 1
                if active[key] > 1:
                    problems.append(("built-concurrently", "entry %s" % key))
                if runs[key] > 1:
                    pass
                fail = fails.get(key, 0) < case["fail"] and rng.random() < 0.7
                if fail:
                    fails[key] = fails.get(key, 0) + 1
                d = rng.random() * case["delay"] * 3
            try:
                return write(fail, d)
            finally:
                with lock:
                    active[key] -= 1

        def call(kind, k):
            key = "key%d" % k
            expect = self.content(key)
            if kind == "get":
                def cons(data):
                    def w(fail, d):
                        time.sleep(d)
                        if fail:
                            raise RuntimeError("no " + key)
                        return expect
                    return construct(key + "g", w)

                return "got", cache.get("g" + key, "txt", cons), expect, key + "g"

            def cons(data, target, typ):
                def w(fail, d):
                    with open(target, "w") as f:
                        f.write(expect[:100])
                        f.flush()
                        time.sleep(d)
                        if fail:
                            raise RuntimeError("no " + key)
                        f.write(expect[100:])
                return construct(key, w)

            if kind == "file":
                path = cache.ensure_by_file(files[k], "txt", cons)
            else:
                path = cache.ensure(key, "txt", cons)
            with open(path) as f:
                return "path", f.read(), expect, key

        def body(t):
            # delays at random lines of the cache code
            r = random.Random("%d %d" % (case["seed"], t))

            def local(frame, event, arg):
                if event == "line" and r.random() < case["p"]:
                    time.sleep(r.random() * case["delay"])
                return local

            if case["delay"]:
                sys.settrace(lambda fr, ev, a: local if fr.f_code.co_filename.endswith("elsie/utils/cache.py") else None)
            order = list(case["calls"])
            r.shuffle(order)
            for kind, k in order:
                k %= case["keys"]
                try:
                    _, got, want, key = call(kind, k)
                    if got != want:
                        problems.append(("incomplete-entry", "%s: %d of %d characters" % (key, len(got), len(want))))
                    with lock:
                        rets.append(("ok", key))
                except RuntimeError:
                    with lock:
                        rets.append(("failed", kind))
                except Exception as e:
                    import traceback

                    problems.append(("request-failed", "%s %r\n%s" % (kind, e, traceback.format_exc()[-800:])))
            sys.settrace(None)

        old = sys.getswitchinterval()
        sys.setswitchinterval(rng.choice([1e-6, 1e-5, 5e-3]))
        ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(case["threads"])]
        for t in ts:
            t.start()
        end = time.monotonic() + 25
        for t in ts:
            t.join(max(0.01, end - time.monotonic()))
        sys.setswitchinterval(old)
        if any(t.is_alive() for t in ts):
            raise Violation("hang", "a request never returned (%r)" % case)
        for kind, detail in problems:
            raise Violation(kind, detail)
        cx.count("thread_cases")
        n_fail = len([r for r in rets if r[0] == "failed"])
        cx.count("failed_constructions", sum(fails.values()))
        cx.count("collisions", len(rets) - sum(runs.values()))
        cx.expect(n_fail <= sum(fails.values()) * case["threads"], "failures", "")
        for key, n in runs.items():
            ok = n - fails.get(key, 0)
            cx.expect(ok <= 1, "built-twice", "entry %s was completely built %d times" % (key, ok))
            if case["warm"] and key == "key0":
                cx.expect(False, "cached-entry-rebuilt", key)
            if any(r == ("ok", key) for r in rets):
                cx.expect(ok == 1, "not-built", key)
        # later requests see complete entries, in this and in another process
        for kind, k in case["calls"]:
            k %= case["keys"]
            for _ in range(10):
                try:
                    _, got, want, key = call(kind, k)
                    break
                except RuntimeError:
                    continue
            cx.expect(got == want, "incomplete-entry", "later request of %s" % key)
        again = FsCache(folder, "v")
        for kind, k in case["calls"]:
            key = ("gkey%d" if kind == "get" else "key%d") % (k % case["keys"])
            p = again.ensure(key, "txt", lambda *a: problems.append("rebuilt"))
            cx.expect(not problems, "cached-entry-rebuilt", key)
            cx.expect(open(p).read() == self.content(key[-4:]), "incomplete-entry", key)

    def content(self, key):
        return key + "0123456789" * 50

    def write(self, path, key):
        with open(path, "w") as f:
            f.write(self.content(key) if path.endswith("txt") else key)


CHECK = C17()
