import os
import sys
import types

from vlib import outputs, scene, svg
from vlib.core import Check, Violation

from . import gen


NAMES = ["a", "b", "c", "the_slide", ""]
DEBUG = "#ff00ff"
BACKGROUNDS = ["#eeeee%d" % k for k in range(5)]


class C20(Check):
    id = "C20"
    rule = ("random histories of creating slides (new_slide and the decorator, named, unnamed, with names of the wrong type or an invalid view box), adding external PDFs, looking "
            "names up, editing and rendering (selections, grids, debug output) under each name policy; after every step the sequence of live slides, every lookup and the debug "
            "files are compared with a list model. Non-trivial: at least one name collision.")
    assumptions = ["under 'ignore' a lookup may return any live slide of the name"]
    quick = (24000, 90)
    thorough = (200000, 700)
    required = ("refused_duplicates", "replaced", "ignored_duplicates", "refused_names", "decorated", "extern", "lookups", "lookup_misses", "renders", "debug_files",
                "replaced_then_debug", "refused_view_box", "pages_dressed", "view_boxes", "own_backgrounds", "deck_backgrounds", "no_backgrounds", "debug_boxes", "default_size", "auto_plain", "auto_ipython", "auto_notebook")

    def gen(self, rng, i, tier):
        steps = []
        for _ in range(gen.many(rng, rng.randint(2, 14), 0.02)):
            r = rng.random()
            if r < 0.6:
                nm = rng.choice(NAMES[:rng.choice([2, 3, 5])] + [None])
                if rng.random() < 0.05:
                    nm = rng.choice([3, ["a"], True])
                steps.append({"do": "new", "name": nm, "deco": rng.random() < 0.4 and (nm is None or isinstance(nm, str)), "frags": rng.choice([1, 1, 2, 3]),
                              "fn": rng.choice(["the_slide", "a", "other"]),
                              "vb": rng.choice([None, None, None, None, [0, 0, 10, 10], [rng.randint(-9, 9), rng.choice([0, 2.5]), rng.randint(50, 2000), rng.randint(50, 900)], "bad"]),
                              "bg": rng.choice([None, None] + BACKGROUNDS), "boxes": rng.random() < 0.15,
                              "z": rng.choice([None] * 6 + [-1, -7, -300, -4000, -70000, -999999, 3])})
            elif r < 0.72:
                steps.append({"do": "pdf"})
            elif r < 0.8:
                steps.append({"do": "edit", "at": rng.randint(0, 9)})
            else:
                steps.append({"do": "render", "grid": rng.random() < 0.2, "select": rng.choice([None, None, [rng.randint(0, 9) for _ in range(3)]])})
        steps.append({"do": "render", "grid": False, "select": None})
        return {"size": rng.choice([None, [1024, 768], [rng.randint(40, 2000), rng.randint(40, 1500)], [800, 600]]), "bg": rng.choice([None, None] + BACKGROUNDS), "policy": rng.choice(["unique", "replace", "ignore", "unique", "replace", "ignore", "auto"]), "python": rng.choice(["plain", "ipython", "notebook", "notebook"]),
                "debug": rng.random() < 0.5, "steps": steps}

    def run(self, case, cx):
        policy = case["policy"]
        folder = cx.dir()
        cache = os.path.join(folder, "cache")
        deck = self.new_deck(cx, case, cache)
        if policy == "auto":
            policy = "replace" if case["python"] == "notebook" else "ignore"
        live = []  # dicts: slide, name, marks (None for PDFs)
        n = 0
        collided = False
        replaced = False
        for step in case["steps"]:
            if step["do"] == "new":
                n += 1
                nm = step["name"]
                if step["deco"] and nm is None:
                    nm = step["fn"]
                dup = [x for x in live if x["marks"] and nm is not None and x["name"] == nm]
                refuse = None
                if step["vb"] == "bad":
                    refuse = "refused_view_box"
                elif policy != "ignore":
                    if nm is None:
                        refuse = "refused_names" if policy == "replace" else None
                    elif not isinstance(nm, str):
                        refuse = "refused_names"
                    elif policy == "unique" and dup:
                        refuse = "refused_duplicates"
                elif nm is not None and not isinstance(nm, str):
                    continue
                vb = None if step["vb"] is None else (0, 0, 10) if step["vb"] == "bad" else tuple(step["vb"])
                dress = {"view_box": vb}
                if step["bg"] is not None:
                    dress["bg_color"] = step["bg"]
                if step["boxes"]:
                    dress["debug_boxes"] = True
                called = []
                marks = ["#%02x%04x" % (f, n) for f in range(1, step["frags"] + 1)]

                def body(root):
                    called.append(root)
                    for f, m in enumerate(marks, 1):
                        root.box(x=0, y=0, width="100%", height="100%", show=str(f), z_level=step.get("z")).rect(color=m)

                body.__name__ = step["fn"]
                try:
                    if step["deco"]:
                        slide = deck.slide(name=step["name"], **dress)(body)
                        cx.count("decorated")
                        cx.expect(len(called) == 1 and slide is called[0].slide, "decorator-result", slide)
                    else:
                        root = deck.new_slide(nm, **dress)
                        body(root)
                        slide = root.slide
                except Violation:
                    raise
                except Exception as e:
                    if refuse is None:
                        raise
                    cx.expect(not called, "refused-after-drawing", repr(e))
                    cx.count(refuse)
                    if dup:
                        collided = True
                else:
                    if refuse:
                        cx.fail("not-refused", "%s under %s: %r" % (refuse, policy, step))
                    if dup and policy == "replace":
                        cx.expect(len(dup) == 1, "several-live", dup)
                        live.remove(dup[0])
                        cx.count("replaced")
                        collided = replaced = True
                    elif dup:
                        cx.count("ignored_duplicates")
                        collided = True
                    live.append({"slide": slide, "name": nm, "marks": [[m] for m in marks], "n": n, "vb": vb, "bg": step["bg"] or case["bg"], "own": step["bg"], "boxes": step["boxes"], "z": step.get("z")})
                    cx.expect(slide.name == nm, "slide-name", slide.name)
            elif step["do"] == "pdf":
                n += 1
                path = os.path.join(folder, "e%d.pdf" % n)
                outputs.extern_pdf(path, n, 1)
                deck.add_pdf(path)
                live.append({"slide": None, "name": None, "marks": None, "n": n})
                cx.count("extern")
            elif step["do"] == "edit":
                real = [x for x in live if x["marks"]]
                if real:
                    x = real[step["at"] % len(real)]
                    n += 1
                    m = "#ff%04x" % n
                    x["slide"].box().box(x=0, y=0, width="100%", height="100%", z_level=x["z"]).rect(color=m)
                    for k in x["marks"]:
                        k.append(m)
            else:
                self.render(cx, deck, step, live, cache, case, replaced)
            for nm in NAMES + ["other", "nope"]:
                got = deck.get_slide_by_name(nm)
                want = [x["slide"] for x in live if x["marks"] and x["name"] == nm]
                if not want:
                    cx.expect(got is None, "lookup-of-missing", nm)
                    cx.count("lookup_misses")
                else:
                    cx.expect(any(got is w for w in want), "lookup", lambda: "%r gives %r" % (nm, got))
                    cx.count("lookups")
        if not collided:
            cx.case_checks = 0

    def new_deck(self, cx, case, cache):
        """a deck created by the interpreter, an IPython shell or a notebook"""
        kw = {"debug": case["debug"], "cache_dir": cache}
        if case["size"] is not None:
            kw["width"], kw["height"] = case["size"]
        else:
            cx.count("default_size")
        if case["bg"] is not None:
            kw["bg_color"] = case["bg"]
        if case["policy"] != "auto":
            return self.create(cx, name_policy=case["policy"], **kw)
        old = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "IPython"}
        ipython = types.ModuleType("IPython")
        config = {"IPKernelApp": {"connection_file": "k.json"}} if case["python"] == "notebook" else {"TerminalIPythonApp": {}}
        shell = None if case["python"] == "plain" else types.SimpleNamespace(config=config)
        ipython.get_ipython = lambda: shell
        ipython.core = types.ModuleType("IPython.core")
        ipython.core.getipython = types.ModuleType("IPython.core.getipython")
        ipython.core.getipython.get_ipython = ipython.get_ipython
        sys.modules["IPython"] = ipython
        sys.modules["IPython.core"] = ipython.core
        sys.modules["IPython.core.getipython"] = ipython.core.getipython
        try:
            cx.count("auto_" + case["python"])
            return self.create(cx, **kw)
        finally:
            for k in [k for k in sys.modules if k.split(".")[0] == "IPython"]:
                del sys.modules[k]
            sys.modules.update(old)

    def create(self, cx, **kw):
        import elsie
        from elsie.render.backends import InkscapeBackend

        return elsie.SlideDeck(backend=InkscapeBackend(cx.shell(), kw["cache_dir"]), **kw)

    def dressed(self, cx, text, slide, shown, case):
        """the page has the size, view box, background and debug boxes asked for"""
        doc = svg.Doc(text)
        w, h = case["size"] or [1024, 768]
        cx.expect((doc.width, doc.height) == (w, h), "page-size", lambda: "%r instead of %r" % ((doc.width, doc.height), (w, h)))
        vb = slide["vb"]
        if vb is None:
            # no view box: the page shows the area of the slide
            cx.expect(doc.view_box in (None, (0, 0, w, h)), "view-box", lambda: "%r instead of none" % (doc.view_box,))
        else:
            cx.expect(doc.view_box == tuple(float(v) for v in vb), "view-box", lambda: "%r instead of %r" % (doc.view_box, vb))
            cx.count("view_boxes")
        grounds = [d for d in doc.draws if d.fill in BACKGROUNDS]
        if slide["bg"] is None:
            cx.expect(not grounds, "background", lambda: "%r on a page without one" % [d.fill for d in grounds])
            cx.count("no_backgrounds")
        else:
            cx.expect([d.fill for d in grounds] == [slide["bg"]], "background", lambda: "%r instead of %s" % ([d.fill for d in grounds], slide["bg"]))
            cx.expect(doc.draws[0] is grounds[0] and grounds[0].rect() == (0, 0, w, h), "background-place", lambda: "%r" % (grounds[0].rect(),))
            cx.count("own_backgrounds" if slide["own"] else "deck_backgrounds")
        frames = [d for d in doc.draws if d.stroke == DEBUG and d.tag == "rect"]
        if slide["boxes"]:
            cx.expect(len(frames) >= 1 + len(shown), "debug-boxes", lambda: "%d frames for %d boxes" % (len(frames), 1 + len(shown)))
            cx.count("debug_boxes")
        else:
            cx.expect(not frames, "debug-boxes", lambda: "%d frames on a slide without" % len(frames))
        cx.count("pages_dressed")

    def render(self, cx, deck, step, live, cache, case, replaced):
        if not live:
            return
        chosen = live
        kw = {}
        if step["select"]:
            real = [x for x in live if x["marks"]]
            if not real:
                return
            chosen = [real[k % len(real)] for k in step["select"]]
            kw["select_slides"] = [x["slide"] for x in chosen]
        if step["grid"]:
            kw["slides_per_page"] = (2, 2)
        units = deck.render(None, return_units=True, prune_cache=False, save_cache=False, **kw)
        cx.count("renders")
        want = []
        for x in chosen:
            if not x["marks"]:
                want.append(("pdf", x["n"], x))
            else:
                want += [("marks", tuple(m), x) for m in x["marks"]]
        if not step["grid"]:
            cx.expect(len(units) == len(want), "page-count", "%d pages, expected %r" % (len(units), want))
            for u, w in zip(units, want):
                if w[0] == "pdf":
                    cx.expect(u.get_svg() is None and os.path.basename(u.export(deck.fs_cache, "pdf")) == "e%d.pdf" % w[1], "slide-order", w)
                else:
                    text = u.get_svg()
                    cx.expect(marks(text) == w[1], "slide-order", lambda: "%r instead of %r" % (marks(text), w[1]))
                    self.dressed(cx, text, w[2], w[1], case)
        if case["debug"]:
            files = []
            for f in sorted(os.listdir(cache)):
                if f.endswith(".svg"):
                    with open(os.path.join(cache, f)) as h:
                        files.append(marks(h.read()))
            for w in set(w[1] for w in want if w[0] == "marks"):
                cx.expect(w in files, "debug-file-missing", lambda: "no debug file shows %r" % (w,))
                cx.count("debug_files")
                if replaced:
                    cx.count("replaced_then_debug")


def marks(text):
    import re

    return tuple(m for m in re.findall(r"stroke:(#[0-9a-f]{6})", text) if m != DEBUG)


CHECK = C20()
