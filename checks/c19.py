import json
import os
import signal
import xml.etree.ElementTree as ET

from vlib import fakeink, outputs
from vlib.core import Check, Violation

CHATTER = ["Some warning line > here\n", "(inkscape:77): Gtk-WARNING **: > cannot open display\n", "Řeka — 5 > 4\n", "a\nb\nc\n", "12.5\nWarning: 12.5 \n", "\n", "\n\n\n", ">x\n", "W" * 3000 + "\n",
           "x >\n", ">>  >\n", " > \n"]
GARBAGE = ["not-a-number", "", "12,5", "5 px", "12.5.6", "None", "1e", "--3", "0x10", "select: no object", "w=12.5", "12.5 >"]
BENIGN = ("slow", "stderr", "chatty", "banner", "dribble", "crlf", None)


def svg_doc(d):
    body = {"text": '<text x="%d" y="50" font-size="%d" font-family="sans-serif" text-anchor="%s" id="%s"><tspan>%s</tspan></text>' % (d["x"], d["size"], d["anchor"], d["id"], d["s"]),
            "rect": '<rect x="%d" y="5" width="30" height="%d" stroke="#e0000%d"/>' % (d["x"], d["size"], d["x"] % 10)}[d["k"]]
    s = '<?xml version="1.0" encoding="UTF-8"?><svg xmlns="http://www.w3.org/2000/svg" width="300" height="200">%s</svg>' % body
    return s[:len(s) // 2] if d["broken"] else s


class C19(Check):
    id = "C19"
    rule = ("random sequences of measurements and exports of random (also unloadable) documents on one Inkscape process, and random decks built and rendered with it, with a fault at a random "
            "command: death (also with a half-printed answer), nonsense answers, missing output, noise on stdout and stderr (up to 400 kB), slowness, output in single characters, "
            "no start at all. Every returned value and file is compared with the one computed independently for that very document; the command log of the stand-in is checked "
            "against the protocol; every call has a time limit. Non-trivial: every case; distinct by program and fault.")
    assumptions = ["Inkscape is a stand-in speaking the shell protocol", "answers nan/inf and noise containing a line that looks like the prompt are not distinguishable from correct answers and excluded"]
    level = "fault_enumeration"
    quick = (9000, 100)
    thorough = (100000, 800)
    workers = 10
    required = ("queries", "exports", "text_to_path_exports", "benign_noise", "deaths", "half_answers", "garbage_answers", "missing_outputs", "unloadable_documents", "missing_objects", "refused_starts",
                "calls_after_death", "calls_after_failure", "deck_cases", "deck_failures", "stderr_floods", "binaries_chosen")

    def gen(self, rng, i, tier):
        kind = rng.choice(["exit", "exit", "exit", "garbage", "no_output", "slow", "stderr", "chatty", "chatty", "banner", "dribble", "crlf", None, "no_start"])
        fault = None
        if kind:
            fault = {"kind": kind}
            if kind == "exit":
                fault["code"] = rng.choice([0, 1, 1, 137])
                fault["at"] = rng.randint(1, 40)
                if rng.random() < 0.6:
                    fault["cmd"] = rng.choice(["file-open", "select", "query-width", "query-height", "query-x", "export-do", "export-type", "file-close", "inkscape-version"])
                    fault["at"] = rng.randint(1, 4)
                if rng.random() < 0.5:
                    fault["text"] = rng.choice(["12", "12.5\n", "12.5\n>", "Segmentation fault\n", ">"])
            elif kind == "garbage":
                fault.update(text=rng.choice(GARBAGE), at=rng.choice([1, 1, 2, 3]), cmd=rng.choice(["query-width", "query-height", "query-x"]))
            elif kind == "no_output":
                fault.update(at=rng.choice([1, 1, 2, 3]), cmd="export-do")
            elif kind == "slow":
                fault.update(delay=0.02, at=rng.randint(1, 20))
            elif kind == "stderr":
                fault.update(size=rng.choice([3000, 70000, 400000]), at=rng.choice([None, rng.randint(1, 20)]))
                if fault["at"] is None:
                    fault["size"] = 20000
            elif kind == "chatty":
                fault.update(text=rng.choice(CHATTER), at=rng.choice([None, rng.randint(1, 30)]))
            elif kind == "banner":
                fault["text"] = rng.choice(CHATTER)
        paths = rng.random() < 0.3
        if rng.random() < 0.02:
            arg = rng.choice([None, "a", "b", "shell"])
            return {"kind": "binary", "fault": None, "paths": False, "arg": arg, "env": rng.choice([None, "", "a", "b"] if arg else ["a", "b"]), "deck": rng.random() < 0.3}
        if rng.random() < 0.25:
            return {"kind": "deck", "fault": fault, "paths": paths, "type": rng.choice(["pdf", "pdf", "png", "svg"]),
                    "slides": [[rng.choice(["text", "fit", "inline", "rect", "code"]) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]}
        ops = []
        for _ in range(rng.randint(1, 8)):
            doc = {"k": rng.choice(["text", "text", "rect"]), "x": rng.randint(-50, 200), "size": rng.randint(5, 60), "anchor": rng.choice(["start", "middle", "end"]),
                   "id": rng.choice(["target", "target", "t2"]), "s": rng.choice(["Hello", "iiii", "Příliš", "a &lt; b", ""]), "broken": rng.random() < 0.08}
            r = rng.random()
            if r < 0.6:
                doc["k"] = "text"
                ops.append({"op": rng.choice(["w", "h", "x"]), "doc": doc, "id": doc["id"] if rng.random() < 0.9 else "nowhere"})
            elif r < 0.95:
                ops.append({"op": "export", "doc": doc, "type": rng.choice(["pdf", "png", "svg", "pdf"])})
            else:
                ops.append({"op": "version"})
        return {"kind": "shell", "fault": fault, "paths": paths, "ops": ops}

    def sample(self, case):
        return case

    def start(self, cx, case, log):
        from elsie.render.inkscape import InkscapeShell

        old = {k: os.environ.get(k) for k in ("FAKEINK_LOG", "FAKEINK_FAULT")}
        os.environ["FAKEINK_LOG"] = log
        os.environ["FAKEINK_FAULT"] = json.dumps(case["fault"] or {})
        try:
            if case["paths"]:
                return InkscapeShell(cx.fake_bin(), text_to_path=True)
            return InkscapeShell(cx.fake_bin())
        finally:
            for k, v in old.items():
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v

    def run(self, case, cx):
        signal.setitimer(signal.ITIMER_REAL, 12, 3)  # nothing here takes so long
        folder = cx.dir()
        log = os.path.join(folder, "log")
        kind = (case["fault"] or {}).get("kind")
        procs = []
        import subprocess

        real = subprocess.Popen

        class Popen(real):
            def __init__(s, *a, **kw):
                procs.append(s)
                super().__init__(*a, **kw)

        subprocess.Popen = Popen
        try:
            if case["kind"] == "binary":
                self.binary(case, cx, folder, procs)
                return
            try:
                shell = self.start(cx, case, log)
            except Exception as e:
                cx.expect(kind == "no_start" or kind == "exit", "start-failed", "%r with %r" % (e, case["fault"]))
                cx.count("refused_starts")
                return
            cx.expect(kind != "no_start", "death-unnoticed", "a process that did not start is used")
            if kind in BENIGN:
                cx.count("benign_noise")
            if kind == "stderr" and case["fault"]["size"] > 65536:
                cx.count("stderr_floods")
            if case["kind"] == "shell":
                self.shell_ops(case, cx, shell, folder, log)
            else:
                self.deck(case, cx, shell, folder, log)
        finally:
            subprocess.Popen = real
            for p in procs:
                p.kill()
                p.wait()
                for f in (p.stdin, p.stdout):
                    try:
                        f and f.close()
                    except OSError:
                        pass

    def dead(self, shell):
        # a process that is about to exit needs a moment
        try:
            shell.process.wait(0.3)
        except Exception:
            return False
        return True

    def shell_ops(self, case, cx, shell, folder, log):
        from elsie.render.inkscape import export_by_inkscape

        fault = case["fault"] or {}
        kind = fault.get("kind")
        pos = 0
        died = failed = False
        with open(log) as f:
            f.read()
            pos = f.tell()
        for k, op in enumerate(case["ops"]):
            doc = op.get("doc")
            svg = svg_doc(doc) if doc else None
            target = os.path.join(folder, "my out", "f%d.%s" % (k, op.get("type")))
            os.makedirs(os.path.dirname(target), exist_ok=True)
            error = value = None
            try:
                if op["op"] == "w":
                    value = shell.get_width(svg, op["id"])
                elif op["op"] == "h":
                    value = shell.get_height(svg, op["id"])
                elif op["op"] == "x":
                    value = shell.get_x(svg, op["id"])
                elif op["op"] == "export":
                    export_by_inkscape(shell, svg.encode(), target, op["type"])
                else:
                    value = shell.get_version()
            except Exception as e:
                error = e
            with open(log) as f:
                f.seek(pos)
                data = f.read()
                pos = f.tell()
            events = [json.loads(ln) for ln in data.splitlines()]
            if died:
                cx.expect(error is not None, "death-unnoticed", lambda: "%r returned %r by a dead process" % (op, value))
                cx.count("calls_after_death")
                continue
            if kind == "exit" and error is not None and self.dead(shell):
                died = True
                cx.count("deaths")
                if fault.get("text"):
                    cx.count("half_answers")
                continue
            hit = [e for e in events if e.get("fault") in ("garbage", "no_output")]
            bad = doc is not None and doc["broken"]
            if doc is not None:
                names = [e["cmd"] for e in events if e.get("fault") != "chatty"]
                cx.expect(names.count("file-close") == 1 and names[-1] == "file-close", "document-left-open", lambda: "%r: %r" % (op, names))
            if bad or hit or (op["op"] in "whx" and op["id"] != doc["id"]):
                cx.expect(error is not None, "failure-unnoticed", lambda: "%r returned %r; %r" % (op, value, events))
                cx.count("unloadable_documents" if bad else ("missing_objects" if not hit else ("garbage_answers" if hit[0]["fault"] == "garbage" else "missing_outputs")))
                failed = True
                continue
            if error is not None:  # noqa
                raise Violation("call-failed", "%r raised %r with %r" % (op, error, fault))
            if failed:
                cx.count("calls_after_failure")
            if op["op"] == "version":
                cx.expect(value == "Inkscape 1.2.2 (b0a8486541, 2022-12-01)", "wrong-answer", lambda: "version %r" % value)
                continue
            self.protocol(cx, events, svg, case, op, target if op["op"] == "export" else None)
            if op["op"] == "export":
                cx.count("exports")
                if case["paths"]:
                    cx.count("text_to_path_exports")
                page = outputs.read_file(target)[0]
                cx.expect(page.sha == fakeink.svg_hash(svg).decode() and outputs.complete(open(target, "rb").read(), op["type"]), "wrong-output", lambda: "%r" % page)
                cx.expect(page.paths == case["paths"], "wrong-options", lambda: "%r" % page)
            else:
                cx.count("queries")
                want = fakeink.measure(ET.fromstring(svg.encode()), op["id"])["xwh".index(op["op"])]
                cx.expect(value == want, "wrong-answer", lambda: "%r: %r, expected %r" % (op, value, want))

    def protocol(self, cx, events, svg, case, op, target):
        """the commands of one call"""
        ev = [e for e in events if e.get("fault") != "chatty"]
        names = [e["cmd"] for e in ev]
        cx.expect(not any(e.get("unknown") for e in ev), "unknown-command", lambda: "%r" % names)
        cx.expect(names.count("file-open") == 1 and names[0] == "file-open" and names.count("file-close") == 1 and names[-1] == "file-close" and ev[-1]["open"], "protocol", lambda: "%r" % names)
        cx.expect(ev[0]["sha"] == fakeink.svg_hash(svg).decode(), "wrong-document", lambda: "opened another document than %s" % svg)
        done = [e for e in ev if e["cmd"] == "export-do" or e["cmd"].startswith("query-")]
        cx.expect(len(done) == 1, "protocol", lambda: "%r" % names)
        if target is None:
            q = {"w": "query-width", "h": "query-height", "x": "query-x"}[op["op"]]
            sel = [e["arg"] for e in ev[:ev.index(done[0])] if e["cmd"] == "select"]
            cx.expect(done[0]["cmd"] == q and sel and sel[-1] == op["id"], "protocol", lambda: "%r %r" % (names, sel))
        else:
            o = done[0]
            cx.expect(o["target"] == target and o["type"] == op["type"], "wrong-options", lambda: "%r" % o)
            cx.expect(("export-text-to-path" in o["opts"]) == case["paths"], "wrong-options", lambda: "%r" % o)
            cx.expect("export-area-page" in o["opts"], "wrong-options", lambda: "not the whole page: %r" % o)

    def binary(self, case, cx, folder, procs):
        """the Inkscape that is used: the given one, else the one named by the environment"""
        import elsie
        from elsie.render.backends import InkscapeBackend
        from elsie.render.inkscape import InkscapeShell

        paths = {}
        for n in ("a", "b"):
            paths[n] = os.path.join(folder, "ink scape " + n)
            with open(paths[n], "w") as f:
                f.write("#!/bin/sh\nexec '%s' \"$@\"\n" % cx.fake_bin())
            os.chmod(paths[n], 0o755)
        old = os.environ.get("ELSIE_INKSCAPE")
        os.environ.pop("ELSIE_INKSCAPE", None)
        if case["env"] is not None:
            os.environ["ELSIE_INKSCAPE"] = paths.get(case["env"], "")
        try:
            arg, want = paths.get(case["arg"]), paths.get(case["arg"] or case["env"])
            if case["arg"] == "shell":
                arg, want = InkscapeShell(paths["b"]), paths["b"]
            if case["deck"] and arg is None:
                backend = elsie.SlideDeck(cache_dir=folder).backend
            else:
                backend = InkscapeBackend(arg, folder)
            used = backend.inkscape.process.args[0]
            cx.expect(used == want and len(procs) == 1, "wrong-inkscape", lambda: "%s used, expected %s; started: %r" % (used, want, [p.args for p in procs]))
            cx.count("binaries_chosen")
        finally:
            os.environ.pop("ELSIE_INKSCAPE", None)
            if old is not None:
                os.environ["ELSIE_INKSCAPE"] = old

    # ------------------------------------------------------------------ decks
    def build(self, case, backend, folder, name):
        import elsie

        cache = os.path.join(folder, name)
        os.makedirs(cache, exist_ok=True)
        backend.cache_dir = cache
        backend.query_cache.clear()
        deck = elsie.SlideDeck(800, 600, backend=backend, cache_dir=cache)
        for s, items in enumerate(case["slides"]):
            root = deck.new_slide()
            for k, it in enumerate(items):
                label = "%d-%d Žába & <b>" % (s, k)
                if it == "text":
                    root.box().text(label)
                elif it == "fit":
                    root.box(width=200, height=50).text(label, scale_to_fit=True)
                elif it == "inline":
                    root.box().text("~#A{%s} x" % label).inline_box("#A").rect(color="#e00001")
                elif it == "code":
                    root.box().code("python", "x = %d" % k)
                else:
                    root.box(width=50, height=20).rect(color="#e0000%d" % k)
        return deck

    def result(self, deck, case, out):
        res = deck.render(out, export_type=case["type"])
        files = [out] if case["type"] == "pdf" else res
        return [(p.sha, p.paths) for f in files for p in outputs.read_file(f)]

    def deck(self, case, cx, shell, folder, log):
        from elsie.render.backends import InkscapeBackend

        cx.count("deck_cases")
        kind = (case["fault"] or {}).get("kind")
        ref = InkscapeBackend(cx.shell(), folder)
        want = [fakeink.svg_hash(u.get_svg()).decode() for u in self.build(case, ref, folder, "ref").render(None, return_units=True)]
        for attempt in range(3):
            try:
                backend = InkscapeBackend(shell, folder)
                deck = self.build(case, backend, folder, "c%d" % attempt)
                pages = self.result(deck, case, os.path.join(folder, "out.pdf"))
            except Violation:
                raise
            except Exception as e:
                if kind in BENIGN:
                    raise Violation("call-failed", "%r with %r" % (e, case["fault"]))
                cx.count("deck_failures")
                if kind != "exit":
                    cx.expect(attempt == 0, "failure-persists", lambda: "%r at attempt %d with %r" % (e, attempt, case["fault"]))
                continue
            cx.expect(kind != "exit" or attempt == 0, "death-unnoticed", "rendered by a dead process")
            cx.expect([p[0] for p in pages] == want, "wrong-output", lambda: "%r, expected %r with %r" % (pages, want, case["fault"]))
            cx.expect(all(p[1] == case["paths"] for p in pages), "wrong-options", "")
            break


CHECK = C19()
