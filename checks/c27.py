import contextlib
import hashlib
import io
import json
import os
import re
import subprocess
import sys
import xml.etree.ElementTree as ET

from vlib import core, fakelatex, images, scene, svg
from vlib.core import Check, Discard

from . import gen

NAMES = [["a", "a1", "a10", "a1b2c3", "abc", "def", "b"], ["glyph0-%d" % i for i in (0, 1, 10, 11, 2)] + ["clip1", "clip12", "surface1"],
         ["x", "xx", "x-x", "x.1", "x:1", "u_1", "x1y"]]
URL = re.compile(r"""url\(\s*['"]?#([^)'"]*)['"]?\s*\)""")


class Popen(subprocess.Popen):
    """Starts the stand-ins instead of the absolute paths the code calls."""

    def __init__(self, args, *a, **kw):
        if not isinstance(args, (str, bytes)):
            args = list(args)
            name = os.path.basename(str(args[0]))
            if name in ("pdflatex", "pdf2svg"):
                args[:1] = [sys.executable, "-I", "-S", os.path.join(core.HERE, "vlib", "fakelatex.py"), name]
        super().__init__(args, *a, **kw)


@contextlib.contextmanager
def stand_ins(home):
    old = subprocess.Popen
    subprocess.Popen = Popen
    os.environ["VLATEX"] = home
    try:
        yield
    finally:
        subprocess.Popen = old
        os.environ.pop("VLATEX", None)


def local(tag):
    return tag.split("}")[-1]


def resolved(e, ids, depth=0):
    """What an element shows: references are replaced by what they point to."""
    attrs = []
    for k, v in sorted(e.attrib.items()):
        k = local(k)
        if k == "id":
            continue
        if k == "href" and v.startswith("#"):
            attrs.append((k, target(v[1:], ids, depth)))
        elif URL.search(v):
            attrs.append((k, URL.sub("url()", v), [target(i, ids, depth) for i in URL.findall(v)]))
        else:
            attrs.append((k, v))
    return (local(e.tag), attrs, (e.text or "").strip(), [resolved(c, ids, depth) for c in e if isinstance(c.tag, str)])


def target(i, ids, depth):
    if depth > 6:
        return "..."
    e = ids.get(i)
    return "missing" if e is None else resolved(e, ids, depth + 1)


def id_map(root):
    out = {}
    for e in root.iter():
        if e.get("id"):
            out.setdefault(e.get("id"), e)
    return out


class C27(Check):
    id = "C27"
    rule = ("random decks with several LaTeX elements (same and different sources, long common parts, headers, tails, scales, fragments) on pages that also hold SVG images with the same ids; stand-ins of "
            "pdflatex and pdf2svg log every source they get and produce pictures with random id graphs (prefixes of one another, colours spelled like references, several references "
            "in an attribute, references before definitions); on every page each picture, with all its references resolved in the page, must show what its own source compiled to, "
            "centred in its box at its scale; ids of different sources are disjoint; a source compiles once per cache over several decks and sessions; compilations failing in fifteen "
            "ways (permanently or once) are reported, leave nothing in the cache and are repeated. Non-trivial: two LaTeX pictures compared.")
    assumptions = ["pdflatex and pdf2svg are stand-ins (neither is installed); pdf2svg's references are href and url() attributes"]
    quick = (700, 75)
    thorough = (12000, 700)
    required = ("pictures", "pictures_with_references", "several_references_in_attribute", "prefix_ids", "compiled_once", "failures_reported", "repeated_after_failure", "second_session",
                "scaled", "later_fragments", "same_source_twice", "custom_header", "foreign_ids", "colors_like_ids", "grouped", "long_sources")

    def gen(self, rng, i, tier):
        sources = []
        for k in range(rng.randint(2, 4)):
            names = list(rng.choice(NAMES))
            rng.shuffle(names)
            spec = {"seed": rng.randrange(10**6), "ids": [n for n in names[:rng.randint(0, 6)]], "nodes": rng.randint(1, 5), "w": rng.choice(["20pt", "13.5pt", "30", "7.25mm", "41px"]),
                    "h": rng.choice(["10pt", "8.125pt", "22", "17px"]), "after": rng.random() < 0.3, "comment": rng.random() < 0.2}
            if rng.random() < 0.4:
                spec["surface"] = rng.choice([n for n in names if n not in spec["ids"]])
            text = rng.choice(["$x$", "\\alpha \u00e9", "a & b \\\\\n\n c", " lead", "\\def\\x{1}\\x\n", "<&>\"'", "$x$"])
            sources.append({"text": "%s\n%%SVG %s\n" % (text, json.dumps(spec)), "header": rng.choice([None, None, None, "\\documentclass{x}\\begin{document}", ""]),
                            "tail": rng.choice([None, None, None, "\\end{document} %", ""])})
            if rng.random() < 0.2:
                sources[-1]["text"] += "%%FAIL %s%s\n" % (rng.choice(["", "once-"]), rng.choice(fakelatex.FAILS))
        if rng.random() < 0.3:
            # the same picture description from a different source
            s = dict(rng.choice(sources))
            s["text"] = "other " + s["text"]
            sources.append(s)
        if rng.random() < 0.35:
            # Sources that differ only after (or before) a long common part
            pad = "%% %s\n" % ("pad " * rng.choice([20, 70, 300, 2500]))
            where = rng.choice(["header", "tail", "begin", "end"])
            for s in sources:
                if where == "header":
                    s["header"] = "\\documentclass{x}" + pad
                elif where == "tail":
                    s["tail"] = pad
                elif where == "begin":
                    s["text"] = pad + s["text"]
                else:
                    s["text"] += pad
        decks = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            slides = []
            for _ in range(rng.randint(1, 2)):
                elements = []
                for _ in range(gen.many(rng, rng.randint(1, 4), 0.03)):
                    box = {}
                    if rng.random() < 0.5:
                        box["show"] = rng.choice(["1", "2", "2+", "1-2", "3"] * 4 + ["10", "9+"])
                    if rng.random() < 0.3:
                        box["width"] = rng.choice([5, 100, "50%", "fill"])
                    if rng.random() < 0.3:
                        box["height"] = rng.choice([5, 60, "10%"])
                    elements.append({"source": rng.randrange(len(sources)), "scale": rng.choice([1.0, 1.0, None, 2, 0.5, 1.75]), "box": box, "on": rng.choice(["box", "box", "item"])})
                slides.append({"elements": elements, "image": rng.random() < 0.3})
            decks.append({"slides": slides, "finish": rng.choice(["none", "render", "render"]), "grid": rng.choice([None, None, [2, 1], [2, 2]]), "cache": rng.choice([0, 0, 0, 1])})
        return {"sources": sources, "decks": decks}

    def run(self, case, cx):
        home = cx.dir()
        compiled = {}
        self.failed_once = set()
        with stand_ins(home):
            for n, d in enumerate(case["decks"]):
                self.deck(cx, case, d, n, home, compiled)

    def log(self, home, start=0):
        try:
            with open(os.path.join(home, "log")) as f:
                return [json.loads(line) for line in f][start:]
        except FileNotFoundError:
            return []

    def deck(self, cx, case, d, n, home, compiled):
        from elsie.ext.latex import latex

        cache = os.path.join(home, "cache%d" % d["cache"])
        os.makedirs(cache, exist_ok=True)
        if n and any(k[0] == d["cache"] for k in compiled):
            cx.count("second_session")
        deck = scene.new_deck(cx, cache_dir=cache)
        slides = []
        img = os.path.join(home, "image.svg")
        with open(img, "w") as f:
            f.write('<svg xmlns="http://www.w3.org/2000/svg" width="9" height="9"><defs>%s</defs></svg>' % "".join(
                '<symbol id="%s"><path d="M 1 2 L 3 4"/></symbol>' % i for ns in NAMES for i in ns))
        for sn, s in enumerate(d["slides"]):
            root = deck.new_slide()
            if s["image"]:
                root.box().image(img)
                cx.count("foreign_ids")
            elements = []
            for k, e in enumerate(s["elements"]):
                src = case["sources"][e["source"]]
                color = scene.color_of(sn * 100 + k)
                box = root.box(**e["box"])
                on = box.rect(color=color)
                if e["on"] == "box":
                    on = box
                args = {a: src[a] for a in ("header", "tail") if src[a] is not None}
                if e["scale"] is not None:
                    args["scale"] = e["scale"]
                if args.get("scale", 1.0) != 1.0:
                    cx.count("scaled")
                if len("%s%s%s" % (src["header"], src["text"], src["tail"])) > 4000:
                    cx.count("long_sources")
                if "header" in args or "tail" in args:
                    cx.count("custom_header")
                start = len(self.log(home))
                before = sorted(f for f in os.listdir(cache))
                fail = fakelatex.directive(src["text"], "FAIL") or ""
                key = (d["cache"], src["header"], src["text"], src["tail"])
                # differently split parts may give the same source
                known = compiled.get(key)
                once = fail.startswith("once-") and (src["header"], src["text"], src["tail"]) in self.failed_once
                expect_fail = bool(fail) and not once and known is None
                error = None
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        latex(on, src["text"], **args)
                except Exception as ex:
                    if core.in_repo(ex.__traceback__) or expect_fail:
                        error = ex
                    else:
                        raise
                calls = self.log(home, start)
                tex = [c["tex"] for c in calls if c["program"] == "pdflatex"]
                cx.expect(len(tex) <= 1 and len(calls) <= 2, "compiled-twice", "%d calls" % len(calls))
                for t in tex:
                    self.source(cx, src, t)
                if expect_fail:
                    cx.expect(error is not None, "failure-not-reported", fail)
                    sha = hashlib.sha256(tex[0].encode()).hexdigest()[:12] if tex else "?"
                    if fail.replace("once-", "") in ("pdflatex", "pdflatex-latin", "pdflatex-partial", "pdflatex-complete", "pdflatex-complete-signal", "pdf2svg", "pdf2svg-latin", "pdf2svg-partial", "pdf2svg-complete"):
                        cx.expect(sha in str(error), "failure-without-reason", "%s: %s" % (fail, str(error)[:200]))
                    cx.expect(tex, "failure-cached", "%s: not compiled again" % fail)
                    after = sorted(f for f in os.listdir(cache))
                    cx.expect(after == before, "failure-cached", "%s leaves %s" % (fail, sorted(set(after) - set(before))))
                    cx.count("failures_reported")
                    if fail.startswith("once-"):
                        self.failed_once.add((src["header"], src["text"], src["tail"]))
                    continue
                if error is not None:
                    raise error
                if once and known is None:
                    cx.count("repeated_after_failure")
                if known is None:
                    same = [t for k2, t in compiled.items() if k2[0] == d["cache"]]
                    if not tex:
                        # a source made of other parts
                        whole = "%s\n%s\n%s" % (src["header"], src["text"], src["tail"])
                        cx.expect(whole in same, "not-compiled", repr(src)[:300])
                        tex = [whole]
                    else:
                        cx.expect(tex[0] not in same, "compiled-twice", "another element had this source")
                    compiled[key] = tex[0]
                else:
                    cx.expect(not calls, "compiled-twice", "%d calls for a source in the cache" % len(calls))
                    cx.count("compiled_once")
                elements.append((color, compiled[key], args.get("scale", 1.0), e["box"]))
            slides.append((root, elements))
        for _, elements in slides:
            if len({t for _, t, _, _ in elements}) < len(elements):
                cx.count("same_source_twice")
        if not any(el for _, el in slides):
            return
        units = deck.render(None, return_units=True, prune_cache=False, save_cache=False)
        for u in units:
            elements = next(el for r, el in slides if r.slide is u.slide)
            if u.step > 1:
                cx.count("later_fragments")
            self.page(cx, u.get_svg(), elements, u.step)
        if d["grid"]:
            units = deck.render(None, return_units=True, prune_cache=False, save_cache=False, slides_per_page=tuple(d["grid"]))
            for u in units:
                self.grouped(cx, u.get_svg())
        if d["finish"] == "render":
            with contextlib.redirect_stdout(io.StringIO()):
                deck.render(os.path.join(home, "out.pdf"))
            used = {t for _, el in slides for _, t, _, _ in el}
            # pruning removes what this deck did not use
            for k in [k for k, t in compiled.items() if k[0] == d["cache"] and t not in used]:
                del compiled[k]

    def source(self, cx, src, tex):
        head, tail = src["header"], src["tail"]
        want = "\n" + src["text"] + "\n"
        cx.expect(want in tex, "source", "the text is not in %r" % tex[:300])
        before, after = tex.split(want, 1)
        if head is not None:
            cx.expect(before == head, "source", "header %r" % before)
        else:
            cx.expect("\\documentclass" in before and "\\begin{document}" in before, "source", "header %r" % before)
        if tail is not None:
            cx.expect(after == tail, "source", "tail %r" % after)
        else:
            cx.expect("\\end{document}" in after, "source", "tail %r" % after)

    def page(self, cx, text, elements, step):
        root = ET.fromstring(text)
        ids = id_map(root)
        want = []
        for color, tex, scale, box in elements:
            if scene.Show(box.get("show"), 1).visible(step):
                want.append((color, tex, scale, box))
        boxes = {}
        pictures = []
        doc = svg.Doc(text, root)
        for dr in doc.draws:
            if dr.tag == "rect" and not dr.path and dr.stroke and dr.stroke.startswith("#10"):
                boxes[dr.stroke] = dr.rect()
        for e in root:
            if local(e.tag) == "g":
                inner = [c for c in e.iter() if local(c.tag) == "svg"]
                cx.expect(len(inner) == 1, "picture-structure", "%d documents in a group" % len(inner))
                if any(c.get("d") == "M 1 2 L 3 4" for c in e.iter()):
                    continue
                pictures.append((e, inner[0]))
        cx.expect(len(pictures) == len(want), "picture-count", "%d instead of %d at step %d" % (len(pictures), len(want), step))
        owner = {}
        for (g, e), (color, tex, scale, box) in zip(pictures, want):
            original = ET.fromstring(fakelatex.make_svg(tex).encode())
            a = resolved(e, ids)
            oids = id_map(original)
            b = resolved(original, oids)
            cx.expect(a == b, "picture-differs", lambda: "picture %s:\n %r\ninstead of\n %r" % (color, first_difference(a, b), first_difference(b, a)))
            cx.count("pictures")
            refs = [v for x in original.iter() for v in x.attrib.values() if v.startswith("#") and v[1:] in oids or URL.search(v)]
            if refs:
                cx.count("pictures_with_references")
            if any(len(URL.findall(v)) > 1 for v in refs):
                cx.count("several_references_in_attribute")
            if any(x != y and y.startswith(x) for x in oids for y in oids):
                cx.count("prefix_ids")
            if any(v.startswith("#") and (k == "fill" or k == "style") for x in original.iter() for k, v in x.attrib.items()):
                cx.count("colors_like_ids")
            for x in e.iter():
                i = x.get("id")
                if i:
                    cx.expect(owner.setdefault(i, tex) == tex, "id-shared", i)
            # place
            m = svg.IDENT
            m = svg.mat_mul(m, svg.parse_transform(g.get("transform")))
            w = images.length_px(original.get("width"))
            h = images.length_px(original.get("height"))
            x0, y0 = svg.apply(m, 0, 0)
            x1, y1 = svg.apply(m, w, h)
            cx.expect((e.get("width"), e.get("height")) == (original.get("width"), original.get("height")), "picture-size", "%s %s" % (e.get("width"), e.get("height")))
            bx, by, bw, bh = boxes[color]
            cx.near(x1 - x0, w * scale, "picture-scale", "width of %s" % color, tol=1e-3)
            cx.near(y1 - y0, h * scale, "picture-scale", "height of %s" % color, tol=1e-3)
            cx.near((x0 + x1) / 2, bx + bw / 2, "picture-place", "x of %s" % color, tol=1e-3)
            cx.near((y0 + y1) / 2, by + bh / 2, "picture-place", "y of %s" % color, tol=1e-3)
            if "width" not in box:
                cx.near(bw, w * scale, "box-size", "width of %s" % color, tol=1e-3)
            if "height" not in box:
                cx.near(bh, h * scale, "box-size", "height of %s" % color, tol=1e-3)

    def grouped(self, cx, text):
        """All references of a page of several slides still lead somewhere, and to one picture."""
        root = ET.fromstring(text)
        ids = id_map(root)
        for e in root.iter():
            for k, v in e.attrib.items():
                for i in ([v[1:]] if local(k) == "href" and v.startswith("#") else URL.findall(v)):
                    cx.expect(i in ids, "dangling-reference", i)
        by = {}
        for e in root.iter():
            if e.get("id"):
                r = json.dumps(resolved(e, ids))
                cx.expect(by.setdefault(e.get("id"), r) == r, "id-shared", e.get("id"))
        cx.count("grouped")


def first_difference(a, b):
    if type(a) is not type(b) or not isinstance(a, (tuple, list)) or len(a) != len(b):
        return repr(a)[:300]
    for x, y in zip(a, b):
        if x != y:
            return first_difference(x, y)
    return None


CHECK = C27()
