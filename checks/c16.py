import os

from vlib import outputs, scene
from vlib.core import Check, Discard

from . import gen


def mark(k, f):
    return "#e%03x%02x" % (k, f)


class PptxStub:
    """What export_pptx needs of python-pptx (which is not installed): remembers the pictures of the slides."""

    NAMES = ["Title Slide", "Title and Content", "Section Header", "Two Content", "Comparison", "Title Only", "Blank", "Content with Caption", "Picture with Caption"]

    class Layout:
        def __init__(self, name):
            self.name = name

    class Layouts(list):
        def get_by_name(self, name, default=None):
            return next((x for x in self if x.name == name), default)

        def index(self, x):
            return list.index(self, x)

    class Shapes:
        def __init__(self):
            self.pictures = []

        def add_picture(self, image_file, left, top, width=None, height=None):
            data = image_file.read() if hasattr(image_file, "read") else open(image_file, "rb").read()
            name = getattr(image_file, "name", image_file)
            self.pictures.append((str(name), data, left, top, width, height))
            return self.pictures[-1]

    class Slide:
        def __init__(self, layout):
            self.slide_layout = layout
            self.shapes = PptxStub.Shapes()

    class Slides(list):
        def add_slide(self, layout):
            assert isinstance(layout, PptxStub.Layout)
            self.append(PptxStub.Slide(layout))
            return self[-1]

    def __init__(self, names):
        self.slide_layouts = self.Layouts(self.Layout(n) for n in names)
        self.slides = self.Slides()
        self.slide_width, self.slide_height = 9144000, 6858000
        self.saved = []

    def save(self, f):
        self.saved.append((f, [(s.slide_layout.name, list(s.shapes.pictures)) for s in self.slides]))


def export_pptx(cx, deck, folder, names, **kw):
    """-> files of the saved presentation in order, or None if it was refused"""
    import sys
    import types

    from elsie.ext.export import export_pptx as export

    made = []

    def presentation(*a):
        made.append(PptxStub(names))
        return made[-1]

    mod = types.ModuleType("pptx")
    mod.Presentation = presentation
    old = sys.modules.get("pptx")
    sys.modules["pptx"] = mod
    try:
        export(deck, os.path.join(folder, "out.pptx"), **kw)
    finally:
        if old is None:
            sys.modules.pop("pptx", None)
        else:
            sys.modules["pptx"] = old
    saved = [x for m in made for x in m.saved]
    cx.expect(len(saved) == 1 and saved[0][0] == os.path.join(folder, "out.pptx"), "pptx-not-written", [x[0] for x in saved])
    files = []
    pr = [m for m in made if m.saved][0]
    for layout, pics in saved[0][1]:
        cx.expect(layout == "Blank" and len(pics) == 1, "pptx-slide", "%s with %d pictures" % (layout, len(pics)))
        name, data, left, top, width, height = pics[0]
        cx.expect((left, top, width, height) == (0, 0, pr.slide_width, pr.slide_height), "pptx-picture-place", pics[0][2:])
        path = os.path.join(folder, "pptx%d.png" % len(files))
        with open(path, "wb") as f:
            f.write(data)
        files.append(path)
    cx.count("pptx_slides", len(files))
    return files


class C16(Check):
    id = "C16"
    rule = ("random histories over one cache directory of building decks (slides with fragments, repeated identical slides, external PDFs of several pages, postprocessing), "
            "editing slides and rendering (selections in any order, grids, both mergers or none, pdf/png/svg/ps export, presentations through a stand-in of python-pptx, text-to-path, warm and pruned caches, new decks or the same "
            "one); every page of the written files is identified by the marks of the document the Inkscape process exported for it and the sequence, and the cell of every slide "
            "in a grid, compared with a reference sequence. Non-trivial: a file with at least two pages was read back.")
    assumptions = ["Inkscape is a stand-in that writes files identifying the exported document; pdfunite and PyPDF2 are the real ones"]
    quick = (8000, 75)
    thorough = (60000, 700)
    required = ("pdf_pages", "merger_pypdf", "merger_pdfunite", "merger_none", "extern_pages", "extern_inside_grid", "grid_pages", "partial_grid", "other_formats", "selections",
                "reordered", "repeated_slides", "warm_renders", "edited", "new_deck", "postprocessed", "fragments", "pptx_slides")

    def gen(self, rng, i, tier):
        def slide():
            if rng.random() < 0.2:
                return {"pdf": rng.randint(1, 3)}
            return {"mark": rng.randint(0, 6), "frags": gen.many(rng, rng.choice([1, 1, 2, 3]), 0.04)}

        steps = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            et = rng.choice(["pdf", "pdf", "pdf", "png", "svg", "ps", "pptx"])
            steps.append({
                "new": rng.random() < 0.5, "add": [slide() for _ in range(rng.randint(0, 2))],
                "edit": rng.choice([None, None, 0, 1, 2]), "type": et,
                "merger": rng.choice(["pypdf", "pypdf", "pypdf", "pdfunite", None]),
                "grid": rng.choice([None, None, [1, 1], [2, 1], [1, 2], [2, 2], [3, 2], [1, 4], [4, 5]]),
                "select": rng.choice([None, None, None, [rng.randint(0, 5) for _ in range(gen.many(rng, rng.randint(1, 4)))]]),
                "prune": rng.random() < 0.6, "save": rng.random() < 0.5, "post": rng.random() < 0.2, "debug": rng.random() < 0.1})
        return {"slides": [slide() for _ in range(gen.many(rng, rng.randint(1, 5), 0.04))], "steps": steps, "w": rng.choice([1024, 300, 640.5]), "h": rng.choice([768, 200]),
                "styled": rng.random() < 0.5}

    def run(self, case, cx):
        folder = cx.dir()
        cache = os.path.join(folder, "cache")
        os.makedirs(cache)
        w, h = case["w"], case["h"]
        spec = [dict(s, id=i) for i, s in enumerate(case["slides"])]
        pdfs = {}
        deck = None
        n_id = len(spec)
        renders = 0
        for si, step in enumerate(case["steps"]):
            fresh = deck is None or step["new"]
            if fresh:
                deck = scene.new_deck(cx, w, h, cache_dir=cache, debug=step["debug"])
                objs = {}
                todo = list(spec)
                if renders:
                    cx.count("new_deck")
            else:
                todo = []
            for s in step["add"]:
                s = dict(s, id=n_id)
                n_id += 1
                spec.append(s)
                todo.append(s)
            for s in todo:
                if "pdf" in s:
                    path = os.path.join(folder, "ext%d.pdf" % s["id"])
                    if not os.path.exists(path):
                        outputs.extern_pdf(path, s["id"], s["pdf"])
                    deck.add_pdf(path)
                    continue
                root = deck.new_slide()
                for f in range(1, s["frags"] + 1):
                    root.box(show=str(f), x=0, y=0, width="100%", height="100%").rect(color=mark(s["mark"], f))
                for m in s.get("extra", []):
                    root.box(x=0, y=0, width="100%", height="100%").rect(color=m)
                objs[s["id"]] = root
            real = [s for s in spec if "pdf" not in s]
            if step["edit"] is not None and real:
                s = real[step["edit"] % len(real)]
                c = "#ef%02x%02x" % (si, s["id"])
                s.setdefault("extra", []).append(c)
                objs[s["id"]].box(x=0, y=0, width="100%", height="100%").rect(color=c)
                if renders:
                    cx.count("edited")
            if step["type"] != "pdf" and any("pdf" in s for s in spec):
                step = dict(step, type="pdf")
            chosen = list(spec)
            select = None
            if step["select"] is not None:
                if not real:
                    continue
                idx = [k % len(real) for k in step["select"]]
                chosen = [real[k] for k in idx]
                select = [objs[s["id"]].slide for s in chosen]
                cx.count("selections")
                if idx != sorted(idx):
                    cx.count("reordered")
            kw = {}
            if step["post"] and len({s["id"] for s in chosen}) == len(chosen):
                seen = []
                extra = "#ee%04x" % si

                def post(roots):
                    seen.append(list(roots))
                    for r in roots:
                        r.box(x=0, y=0, width="100%", height="100%").rect(color=extra)

                kw["slide_postprocessing"] = post
            if step["grid"]:
                kw["slides_per_page"] = tuple(step["grid"])
            out = os.path.join(folder, "out.pdf")
            if step["type"] == "pptx":
                names = PptxStub.NAMES[si % 3:] if si % 2 else PptxStub.NAMES[::-1]
                res = export_pptx(cx, deck, folder, names, prune_cache=step["prune"], save_cache=step["save"], select_slides=select, **kw)
                step = dict(step, type="png")
            else:
                res = deck.render(out, export_type=step["type"], pdf_merger=step["merger"], prune_cache=step["prune"], save_cache=step["save"], select_slides=select, **kw)
            if "slide_postprocessing" in kw:
                want_roots = [objs[s["id"]] for s in chosen if "pdf" not in s]
                cx.expect(len(seen) == 1 and len(seen[0]) == len(want_roots) and all(a is b for a, b in zip(seen[0], want_roots)), "postprocessing-boxes", seen)
                for s in chosen:
                    if "pdf" not in s:
                        s.setdefault("extra", []).append(extra)
                cx.count("postprocessed")
            files = None
            if step["type"] == "pdf" and step["merger"] is not None:
                cx.expect(res is None, "return-value", res)
                pages = outputs.read_pdf(out)
                cx.count("merger_" + step["merger"])
            else:
                cx.expect(isinstance(res, list), "return-value", res)
                for f in res:
                    cx.expect(os.path.isfile(f), "missing-file", f)
                    cx.expect(f.endswith("." + step["type"]), "file-type", f)
                pages = [p for f in res for p in outputs.read_file(f)]
                cx.count("merger_none" if step["type"] == "pdf" else "other_formats")
                files = res
            self.compare(cx, step, chosen, pages, files, w, h)
            if renders:
                cx.count("warm_renders")
            renders += 1
            if len(pages) < 2:
                cx.case_checks = 0

    def compare(self, cx, step, chosen, pages, files, w, h):
        seq = []
        for s in chosen:
            if "pdf" in s:
                seq.append(("ext", s["id"], s["pdf"]))
                cx.count("extern_pages", s["pdf"])
            else:
                if s["frags"] > 1:
                    cx.count("fragments")
                for f in range(1, s["frags"] + 1):
                    seq.append(("page", [mark(s["mark"], f)] + s.get("extra", [])))
        if len({id(s) for s in chosen}) < len(chosen) or len({(s.get("mark"), tuple(s.get("extra", []))) for s in chosen if "mark" in s}) < len([s for s in chosen if "mark" in s]):
            cx.count("repeated_slides")
        grid = step["grid"] or [1, 1]
        cols, rows = grid
        limit = cols * rows
        want = []
        cell = None
        for item in seq:
            if item[0] == "ext":
                if cell:
                    cx.count("extern_inside_grid")
                for p in range(1, item[2] + 1):
                    want.append(("ext", item[1], p))
                cell = None
                continue
            if limit == 1:
                want.append(("marks", [(c, 0.0, 0.0) for c in item[1]]))
                continue
            if cell is None or cell[1] == limit:
                cell = [[], 0]
                want.append(("marks", cell[0]))
            cell[0] += [(c, (cell[1] % cols) * w, (cell[1] // cols) * h) for c in item[1]]
            cell[1] += 1
        if cell and cell[1] < limit:
            cx.count("partial_grid")
        cx.expect(len(pages) == len(want), "page-count", lambda: "%d pages %r, expected %d %r" % (len(pages), pages, len(want), want))
        for k, (p, e) in enumerate(zip(pages, want)):
            if e[0] == "ext":
                cx.expect(p.extern == (e[1], e[2]), "page-order", lambda: "page %d is %r, expected %r" % (k, p, e))
                continue
            got = [(c, x, y) for c, x, y, _ in p.marks]
            cx.expect(len(got) == len(e[1]) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-6 * 1e4 and abs(a[2] - b[2]) < 1e-2 for a, b in zip(got, e[1])),
                      "page-order", lambda: "page %d shows %r, expected %r" % (k, got, e[1]))
            if p.size:
                cx.near(p.size[0], w * cols, "page-size", k)
                cx.near(p.size[1], h * rows, "page-size", k)
            cx.count("pdf_pages")
            if limit > 1:
                cx.count("grid_pages")
        if files is not None and not any("pdf" in s for s in chosen):
            cx.expect(len(files) == len(want), "one-file-per-page", files)


CHECK = C16()
