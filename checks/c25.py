import base64
import contextlib
import hashlib
import html.parser
import io
import json
import os
import subprocess

from vlib import outputs, scene
from vlib.core import Check

from . import gen
from vlib import core

VOID = {"img", "br", "hr", "input", "meta", "link", "path", "rect"}


class Tree(html.parser.HTMLParser):
    """Elements with their attributes and direct text."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.root = {"tag": "root", "attrs": {}, "children": [], "text": ""}
        self.stack = [self.root]
        self.problem = None
        self.feed(text)
        self.close()
        if len(self.stack) != 1:
            self.problem = "unclosed %s" % self.stack[-1]["tag"]

    def handle_starttag(self, tag, attrs):
        e = {"tag": tag, "attrs": {k: v or "" for k, v in attrs}, "children": [], "text": ""}
        self.stack[-1]["children"].append(e)
        if tag not in VOID:
            self.stack.append(e)

    def handle_startendtag(self, tag, attrs):
        self.stack[-1]["children"].append({"tag": tag, "attrs": {k: v or "" for k, v in attrs}, "children": [], "text": ""})

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        if self.stack[-1]["tag"] != tag:
            self.problem = self.problem or "</%s> closes <%s>" % (tag, self.stack[-1]["tag"])
            return
        self.stack.pop()

    def handle_data(self, d):
        self.stack[-1]["text"] += d


def find(e, cls):
    out = []
    for c in e["children"]:
        if cls in c["attrs"].get("class", "").split():
            out.append(c)
        out += find(c, cls)
    return out


def by_tag(e, tag):
    out = []
    for c in e["children"]:
        if c["tag"] == tag:
            out.append(c)
        out += by_tag(c, tag)
    return out


def snapshot(folder):
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, folder)] = h.read()
    return out


def queries(snap):
    for k, v in snap.items():
        if k.endswith("queries3.cache"):
            return {json.dumps(x) for x in json.loads(v)["queries"]}
    return set()


class C25(Check):
    id = "C25"
    rule = ("random histories of building decks of rich slides, displaying slides (through the root box, a nested box or the slide; PNG or SVG; deck debug on and off), editing, "
            "replacing and rendering with and without pruning over one cache; every view is parsed: its steps must show, in order, exactly the documents a deck that was never "
            "displayed gives for the slide's fragments, controls must exist exactly with several fragments; in a part of the histories the scripts of all views are run together in "
            "a small DOM, random buttons are clicked and the visible steps, counters and disabled buttons compared with a counter model; files and queries present before a display "
            "must be there afterwards and pages rendered after displays must equal the undisplayed ones. Non-trivial: two displays.")
    assumptions = ["Inkscape is a stand-in whose PNGs identify the exported document", "the DOM stand-in implements the calls a browser would answer; scripts using others are not judged"]
    quick = (3000, 75)
    thorough = (40000, 700)
    required = ("displays", "svg_displays", "one_fragment", "several_fragments", "pages_after_display", "clicks", "views_in_one_dom", "redisplayed_after_edit", "files_kept", "queries_kept",
                "replaced_displayed", "files_of_an_earlier_session")

    def gen(self, rng, i, tier):
        specs, imgs = gen.rich_images(rng, 1)
        steps = []
        n = 0
        for _ in range(rng.randint(1, 2)):
            n += 1
            steps.append({"do": "new", "name": "s%d" % n, "ops": gen.rich_slide(rng, rng.randint(1, 3), imgs, prefix="n%d" % n), "bg": rng.choice([None, "#eee"])})
        for _ in range(rng.randint(3, 7)):
            r = rng.random()
            if r < 0.55:
                steps.append({"do": "show", "slide": rng.randint(0, 3), "how": rng.choice(["root", "nested", "slide", "svg"])})
            elif r < 0.7:
                steps.append({"do": "extend", "slide": rng.randint(0, 3), "ops": gen.rich_slide(rng, 1, imgs, prefix="e%d" % len(steps))})
            elif r < 0.8:
                n += 1
                steps.append({"do": "new", "name": rng.choice(["s%d" % n, "s1"]), "ops": gen.rich_slide(rng, 1, imgs, prefix="n%d" % n), "bg": None})
            else:
                steps.append({"do": "render", "prune": rng.random() < 0.5, "pdf": rng.random() < 0.3})
        steps.append({"do": "render", "prune": rng.random() < 0.5, "pdf": False})
        return {"specs": specs, "steps": steps, "debug": rng.random() < 0.1, "js": rng.random() < 0.2, "warm": rng.random() < 0.3, "clicks": [[rng.randint(0, 5), rng.choice(["elsie-next", "elsie-next", "elsie-previous"])] for _ in range(rng.randint(2, 10))]}

    def apply(self, st, k, step, sources):
        if step["do"] == "new":
            root = st["deck"].new_slide(step["name"], bg_color=step["bg"])
            st["live"] = [x for x in st["live"] if x[0] != step["name"]] + [(step["name"], root, k)]
            st["all"].append((step["name"], root, k))
            objs = {"root": root}
        else:
            root = st["all"][step["slide"] % len(st["all"])][1]
            objs = {"root": root}
        for op in gen.with_sources(scene.valid_ops(step["ops"]), sources):
            scene.apply_op(op, objs)
        for o in objs.values():
            if hasattr(o, "_repr_html_") and o is not root:
                st.setdefault("nested", {}).setdefault(id(root), []).append(o)

    def reference(self, cx, case, history, sources):
        """Pages by index of creation in a deck that was never displayed or rendered."""
        st = {"deck": scene.new_deck(cx, name_policy="ignore"), "live": [], "all": []}
        for k, step in history:
            self.apply(st, k, step, sources)
        units = st["deck"].render(None, return_units=True, prune_cache=False, save_cache=False)
        by = {}
        for u in units:
            by.setdefault(id(u.slide), []).append(u.get_svg())
        return [by[id(root.slide)] for _, root, _ in st["all"]]

    def warm(self, cx, case, sources, cache):
        """What an earlier session left in the cache."""
        st = {"deck": scene.new_deck(cx, name_policy="ignore", cache_dir=cache), "live": [], "all": []}
        for k, step in enumerate(case["steps"]):
            if step["do"] == "new":
                self.apply(st, k, step, sources)
        with contextlib.redirect_stdout(io.StringIO()):
            cx.count("files_of_an_earlier_session", len(st["deck"].render(None, export_type="png")))

    def run(self, case, cx):
        folder = cx.dir()
        cache = os.path.join(folder, "cache")
        sources = gen.resolve_images(cx, case["specs"], folder)
        if case.get("warm"):
            self.warm(cx, case, sources, cache)
        st = {"deck": scene.new_deck(cx, name_policy="replace", cache_dir=cache, debug=case["debug"]), "live": [], "all": []}
        deck = st["deck"]
        history = []
        views = []
        ids = set()
        displays = 0
        shown = {}
        for k, step in enumerate(case["steps"]):
            if step["do"] in ("new", "extend"):
                if step["do"] == "extend" and not st["all"]:
                    continue
                self.apply(st, k, step, sources)
                history.append((k, step))
                continue
            if not st["live"]:
                continue
            if step["do"] == "render":
                if step["pdf"]:
                    deck.render(folder + "/out.pdf", prune_cache=step["prune"])
                    continue
                got = scene.svgs(deck, prune_cache=step["prune"], save_cache=step["prune"])
                ref = self.reference(cx, case, history, sources)
                want = []
                for nm, root, _ in st["live"]:
                    want += ref[[r for _, r, _ in st["all"]].index(root)]
                cx.expect(got == want, "display-changed-pages", "step %d, after %d displays" % (k, displays))
                if displays:
                    cx.count("pages_after_display", len(got))
                continue
            j = step["slide"] % len(st["all"])
            name, root, _ = st["all"][j]
            if not any(r is root for _, r, _ in st["live"]):
                cx.count("replaced_displayed")
            pages = self.reference(cx, case, history, sources)[j]
            if j in shown and shown[j] != pages:
                cx.count("redisplayed_after_edit")
            shown[j] = pages
            before = snapshot(cache)
            text = self.display(st, root, step["how"])
            after = snapshot(cache)
            displays += 1
            cx.count("displays")
            for f, v in before.items():
                if f.endswith("queries3.cache"):
                    continue
                cx.expect(f in after, "display-deletes-cache", f)
                cx.expect(after[f] == v or (case["debug"] and f.endswith(".svg")), "display-changes-cache", f)
                cx.count("files_kept")
            q = queries(before)
            cx.expect(q <= queries(after), "display-drops-queries", "%d queries before, %d of them after" % (len(q), len(q & queries(after))))
            cx.count("queries_kept", len(q))
            tree = Tree(text)
            self.view(cx, tree, text, pages, step["how"], ids)
            views.append((tree, len(pages)))
        if case["js"] and views:
            self.dom(cx, case, views)
        if displays < 2:
            cx.case_checks = 0

    def display(self, st, root, how):
        with contextlib.redirect_stdout(io.StringIO()):
            if how == "root":
                return root._repr_html_()
            if how == "nested":
                return st.get("nested", {}).get(id(root), [root])[-1]._repr_html_()
            if how == "slide":
                return root.slide._repr_html_()
            from elsie.render.jupyter import render_slide_html

            return render_slide_html(root.slide, "svg")

    def view(self, cx, tree, text, pages, how, ids):
        cx.expect(tree.problem is None, "malformed-html", tree.problem)
        steps = find(tree.root, "elsie-step")
        cx.expect(len(steps) == len(pages), "step-count", "%d steps for %d fragments" % (len(steps), len(pages)))
        for n, (s, page) in enumerate(zip(steps, pages), 1):
            if how == "svg":
                cx.expect(page in text, "step-image", "the document of fragment %d is not in the view" % n)
                cx.count("svg_displays")
                continue
            img = by_tag(s, "img")
            cx.expect(len(img) == 1, "step-image", "%d images in step %d" % (len(img), n))
            head, _, data = img[0]["attrs"]["src"].partition(",")
            cx.expect(head.replace(" ", "") == "data:image/png;base64", "step-image", head)
            got = outputs.Page(base64.b64decode(data))
            cx.expect(got.sha == hashlib.sha256(page.encode()).hexdigest(), "step-image", "step %d shows another document" % n)
        if how == "svg":
            at = [text.index(p) for p in dict.fromkeys(pages)]
            cx.expect(at == sorted(at), "step-order", at)
        wrappers = [c for c in find(tree.root, "elsie-wrapper")]
        cx.expect(len(wrappers) == 1, "wrapper", len(wrappers))
        own = tuple(sorted(set(wrappers[0]["attrs"]["class"].split()) - {"elsie-wrapper"}) + ([wrappers[0]["attrs"]["id"]] if "id" in wrappers[0]["attrs"] else []))
        cx.expect(own and own not in ids, "identifier-not-unique", own)
        ids.add(own)
        nav = [len(find(tree.root, c)) for c in ("elsie-next", "elsie-previous")]
        cx.expect(nav == ([1, 1] if len(pages) > 1 else [0, 0]), "navigation", "%r buttons for %d fragments" % (nav, len(pages)))
        scripts = by_tag(tree.root, "script")
        cx.expect(bool(scripts) == (len(pages) > 1), "navigation", "%d scripts for %d fragments" % (len(scripts), len(pages)))
        cx.count("several_fragments" if len(pages) > 1 else "one_fragment")

    def dom(self, cx, case, views):
        clicks = [[v % len(views), c] for v, c in case["clicks"]]
        data = {"views": [{"html": slim(t.root)["children"], "scripts": [s["text"] for s in by_tag(t.root, "script")]} for t, _ in views], "clicks": clicks}
        p = subprocess.run(["node", os.path.join(core.HERE, "vlib", "dom.js")], input=json.dumps(data).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50)
        if p.returncode:
            raise RuntimeError("node: %s" % p.stderr.decode()[-500:])
        res = json.loads(p.stdout)
        if "error" in res:
            if res["real"]:
                cx.fail("script-error", res["error"])
            cx.count("unsupported_scripts")
            return
        if len(views) > 1:
            cx.count("views_in_one_dom")
        at = [1] * len(views)
        for k, states in enumerate(res["log"]):
            if k:
                v, c = clicks[k - 1]
                n = views[v][1]
                if n > 1:
                    at[v] = min(n, at[v] + 1) if c == "elsie-next" else max(1, at[v] - 1)
                cx.count("clicks")
            for v, s in enumerate(states):
                n = views[v][1]
                cx.expect(s["steps"] == [j + 1 == at[v] for j in range(n)] if n > 1 else s["steps"] == [True], "visible-step",
                          lambda: "view %d after %r: %r, expected step %d of %d" % (v, clicks[:k], s["steps"], at[v], n))
                if n > 1:
                    cx.expect(bool(s["next"]) == (at[v] == n) and bool(s["prev"]) == (at[v] == 1), "button-state", lambda: "%r at %d of %d" % (s, at[v], n))
                    cx.expect(str(at[v]) in s["text"], "counter", s["text"])


def slim(e):
    if e["tag"] in ("img", "svg", "script", "style"):
        return {"tag": e["tag"], "attrs": {}, "children": [], "text": ""}
    return {"tag": e["tag"], "attrs": e["attrs"], "children": [slim(c) for c in e["children"]], "text": e["text"]}


CHECK = C25()
