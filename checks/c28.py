import json
import os
import re

from vlib import scene
from vlib.core import Check

from . import gen

# Values no documented format allows.
SIZES = ["abc", "10px", "-5", "5%%", "%", "fill(", "fill()", "fill(x)", "fill(2))", "fill(-1)", "fill2", "Fill", "2*fill", "10 %",
         "[50%]", "1e3", "0x10", "50%;", "100%%", "fill(1)(2)", "auto", {"t": [1, 2]}, [50], {"o": 1}, {"b": "10"}]
POSITIONS = ["abc", "10px", "-3", "5%%", "%", "fill", "[50]", "[50%", "50%]", "[%]", "[50%]%", "[[50%]]", "(50%)", "center", "[50%,50%]",
             "1e3", {"t": [1, 2]}, [50], {"o": 1}, {"b": "10"}, "", {"t": []}]
SHOWS = ["", "x", "1-", "-1", "3-1", "1,,2", "1;2", "2-next", "1-last", "next-", "1+,2+", "next+,last+", "1.5", 1.5, [1], {"t": [1, 2]}, "1-2-3", "+1", "1++",
         "1+2", "nxt", "Next", "last-0", "2,", ",2", "all", {"o": 1}, "1 2", "1_0", "next,next-0"]
POINTS = [5, "ab", {"t": [1]}, {"t": [1, 2, 3]}, None, {"t": ["x", 1]}, {"t": [1, "10px"]}, {"t": []}, {"t": ["50%", "[50%"]}, {"t": [{"o": 1}, 1]}, {"o": 1}]
COMMANDS = [[["X", [0, 0]]], [["M", [0, 0]], ["C", [1, 1], [2, 2]]], [["M", [0, 0]], []], [["M", [0, 0]], "L"], [5], [["m", [0, 0]]], [["M", [0, 0]], ["Q", [1, 1]]],
            [["M", 5]], [["M", [0, 0]], ["L", [1]]], [["M", [0, 0]], ["S", [1, 1], [2, 2], [3, 3]]], [["M", [0, 0]], ["Z"], ["L", [1, 1]]], [["M", [0, 0]], ["L", ["a", 1]]]]
TEXTS = ["~emph{open", "a\n~tt{b ~emph{c} d", "~emph{x} ~tt{", "~emph", "a ~", "~emph x", "ok ~undefined{x}", "~emph{~nostyle{y}}", 5, None, {"b": "x"}]
ESCAPES = ["", "!!", "~{}}", "abcd"]
STYLE_ATTRS = [("size", "12"), ("size", [1]), ("color", 5), ("font", 3), ("bold", "yes"), ("bold", 1), ("italic", 0), ("align", "centered"), ("align", 1),
               ("line_spacing", "1"), ("variant_numeric", "old"), ("priority", None)]


def mutate(rng, seeds, alphabet, ok):
    """a random string near the valid ones that is not valid"""
    while True:
        s = rng.choice(seeds)
        for _ in range(rng.randint(1, 2)):
            i = rng.randint(0, len(s))
            r = rng.random()
            if r < 0.5:
                s = s[:i] + rng.choice(alphabet) + s[i:]
            elif r < 0.75:
                s = s[:i] + s[i + 1:]
            else:
                s = s[:i] + rng.choice(alphabet) + s[i + 1:]
        if s and not ok(s):
            return s


def size_like(s):
    return re.fullmatch(r"[0-9]+%?|fill(\([0-9]+\))?", s)


def pos_like(s):
    return re.fullmatch(r"[0-9]+%?|\[[0-9]+%\]", s)


def show_like(s):
    items = s.split(",")
    return all(re.fullmatch(r"([0-9]+|next|last)(\+|-[0-9]+)?", x) for x in items) and s.count("+") < 2


def bad_size(rng):
    return rng.choice(SIZES) if rng.random() < 0.5 else mutate(rng, ["10", "33%", "fill", "fill(2)", "fill(10)"], "0123fil%()[].-+x", size_like)


def bad_pos(rng):
    return rng.choice(POSITIONS) if rng.random() < 0.5 else mutate(rng, ["10", "33%", "[50%]", "[5%]", "0"], "0123fil%()[].-+x", pos_like)


def bad_show(rng):
    return rng.choice(SHOWS) if rng.random() < 0.5 else mutate(rng, ["1", "2+", "1-3", "1,3", "next", "last+", "2-4,6+", "next,5"], "0123+-,.nextlas*", show_like)


def dec(v):
    if isinstance(v, dict):
        if "t" in v:
            return tuple(dec(x) for x in v["t"])
        if "b" in v:
            return v["b"].encode()
        if "o" in v:
            return object()
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


class C28(Check):
    id = "C28"
    rule = ("random rich slides (all element kinds) built twice, once with 1-6 malformed calls in between (sizes, positions, selectors, siblings for above/below, points, path "
            "commands, texts with open or unknown spans, unknown styles and languages, broken or missing images and labels, slide names, view boxes, list items, style values; "
            "on any box or item): every such call has to raise and afterwards pages, fragments, styles and slides have to be those of the deck built without it. Non-trivial: a "
            "malformed call was made; distinct by program.")
    assumptions = ["what a deck without malformed calls shows is decided by the other properties; 'malformed' is only what no documented format allows"]
    quick = (6000, 60)
    thorough = (150000, 600)
    required = ("refused", "size", "pos", "show", "sibling", "points", "path", "text", "code", "image", "label", "setstyle", "styleattr", "newslide", "item", "lineinline", "render", "deck",
                "calls_after_a_refusal", "relative_selector_after_a_refusal")

    KINDS = ["size", "size", "pos", "pos", "show", "show", "show", "sibling", "sibling", "points", "path", "text", "code", "image", "label", "setstyle", "styleattr",
             "newslide", "item", "item", "lineinline", "render", "deck"]

    def bad(self, rng, boxes, items, texts, lists, styleds, n):
        k = rng.choice(self.KINDS)
        b = {"bad": k, "on": rng.choice(boxes + items)}
        good = {}
        if rng.random() < 0.6:
            for key, vals in (("width", [50, "fill", "30%"]), ("height", [40, "fill(2)", "20%"]), ("x", [3, "[50%]"]), ("y", ["10%", 8]), ("show", ["1+", "7", "next"]),
                              ("p_x", [5]), ("padding", [9]), ("prepend", [True]), ("z_level", [3]), ("horizontal", [True])):
                if rng.random() < 0.25:
                    good[key] = rng.choice(vals)
        if k in ("size", "pos", "show", "sibling"):
            b["method"] = rng.choice(["box", "box", "box", "fbox", "sbox", "overlay"])
            if k == "size":
                good[rng.choice(["width", "height"])] = bad_size(rng)
            elif k == "pos":
                good[rng.choice(["x", "y"])] = bad_pos(rng)
            elif k == "show":
                good["show"] = bad_show(rng)
            else:
                b["rel"] = rng.choice(["above", "below", "both"])
                b["who"] = rng.choice(["root", "self", "stranger", "other", "string"])
                b["other"] = rng.choice(boxes)
            b["args"] = good
        elif k == "points":
            pts = [[1, 2], ["50%", 3], [9, "20%"]][:rng.randint(2, 3)]
            b["shape"] = rng.choice(["line", "polygon", "line1"])
            pts[rng.randrange(len(pts))] = rng.choice(POINTS)
            b["points"] = pts
        elif k == "path":
            b["commands"] = rng.choice(COMMANDS)
        elif k == "text":
            r = rng.random()
            b["args"] = {}
            b["text"] = "fine ~emph{x}"
            if r < 0.6:
                b["text"] = rng.choice(TEXTS)
            elif r < 0.75:
                b["args"]["escape_char"] = rng.choice(ESCAPES)
            else:
                b["args"]["style"] = rng.choice(["nosuchstyle", 5, {"o": 1}])
            b["args"].update({"scale_to_fit": True} if rng.random() < 0.3 else {})
        elif k == "code":
            b["lang"], b["text"], b["args"] = "python", "x = 1", {}
            r = rng.random()
            if r < 0.3:
                b["lang"] = rng.choice(["nosuchlanguage", "???", 5])
            elif r < 0.7:
                b["lang"] = rng.choice(["python", "", "c"])
                b["text"] = rng.choice(["x ~emph{= 1", "~tt", "f(~tt{a, ~emph{b})"])
                b["args"] = {"use_styles": True}
            elif r < 0.85:
                b["args"] = {"escape_char": rng.choice(ESCAPES)}
            else:
                b["args"] = {"style": rng.choice(["nosuchstyle", 5])}
            if rng.random() < 0.3:
                b["args"]["line_numbers"] = True
        elif k == "image":
            b["what"] = rng.choice(["missing.png", "missing.svg", "missing.ora", "x.gif", "noext", "bytes", "bytes-svg", "bytes-ora", "bytes-tiff", "corrupt.png", "corrupt.svg", "corrupt.ora",
                                    "nomime.ora", "nosize.svg", "badsize.svg", "select.svg", "select.ora", "begin.svg"])
        elif k == "label":
            b["label"] = "a **" + rng.choice([s for s in SHOWS if isinstance(s, str)]) if rng.random() < 0.5 else "a **" + mutate(rng, ["1", "2+", "1-3", "1,3", "2-4,6+"], "0123+-,.x", show_like)
            b["ora"] = rng.random() < 0.3
        elif k == "setstyle":
            b["on"] = rng.choice(styleds)
            b["call"] = rng.choice([["set_style", "tt", "red"], ["set_style", 5, {"style": {"color": "red"}}], ["set_style", "mine", {"style": {"color": "red"}}, "nobase"],
                                    ["update_style", "missing", {"style": {"color": "red"}}], ["update_style", "tt", 5], ["update_style", "default", None],
                                    ["set_style", "emph", None], ["update_style", 7, {"style": {"size": 5}}], ["get_style", "missing"], ["get_style", 5]])
        elif k == "styleattr":
            b["attr"] = rng.choice(STYLE_ATTRS)
            b["how"] = rng.choice(["new", "set"])
        elif k == "newslide":
            b["args"] = rng.choice([{"view_box": "0 0 1 1"}, {"view_box": {"t": [0, 0, 1]}}, {"view_box": [0, 0, 5, 5]}, {"view_box": {"t": [0, 0, 5, "5"]}},
                                    {"name": "s0"}, {"name": "s0", "bg_color": "red"}, {"name": 5}, {"name": {"t": ["a"]}}, {"name": "s0", "view_box": {"t": [0, 0, 9, 9]}},
                                    {"name": "s0", "view_box": [0, 0, 9, 9]}, {"name": "s0", "view_box": {"t": [0, 0, 9]}}, {"name": None}])
            b["deco"] = rng.random() < 0.3 and isinstance(b["args"].get("name", "x"), str) and "name" in b["args"]
        elif k == "item":
            b["what"] = rng.choice(["show", "label", "size", "ulshow", "olstart", "olshow", "newlist"])
            b["show"] = bad_show(rng)
            b["size"] = bad_size(rng)
        elif k == "lineinline":
            b["what"] = rng.choice(["line-show", "line-size", "line-pos", "inline-missing", "inline-nth", "inline-zero", "inline-show"])
            b["show"] = bad_show(rng)
        elif k == "render":
            b["args"] = rng.choice([{"select_slides": []}, {"slides_per_page": {"t": [2]}}, {"slides_per_page": {"t": [2, 2, 2]}}, {"slides_per_page": {"t": ["2", 1]}},
                                    {"slides_per_page": {"t": [1, 2.5]}}])
        elif k == "deck":
            b["on"] = "deck"
            b["args"] = rng.choice([{"name_policy": v} for v in ("Unique", "", None, "none", "replaced", "auto ", 5, ["unique"])] + [{"pygments_theme": "nosuchtheme"}])
        return b

    def gen(self, rng, i, tier):
        specs, imgs = gen.rich_images(rng, 1)
        slides = []
        for s in range(rng.choice([1, 1, 2])):
            ops = gen.rich_slide(rng, rng.randint(1, 5), imgs, prefix="s%d" % s)
            out = []
            boxes, items, texts, lists, styleds = ["root"], [], [], [], ["root", "deck"]
            spots = sorted(rng.randint(0, len(ops)) for _ in range(rng.randint(1, 3)))
            for j in range(len(ops) + 1):
                while spots and spots[0] == j:
                    spots.pop(0)
                    out.append(self.bad(rng, boxes, items, texts, lists, styleds, j))
                if j == len(ops):
                    break
                op = ops[j]
                out.append(op)
                if op["op"] in ("box", "line_box", "inline_box"):
                    boxes.append(op["id"])
                    styleds.append(op["id"])
                elif op["op"] in ("rect", "ellipse", "line", "polygon", "path", "text", "code", "image"):
                    items.append(op["id"])
            slides.append(out)
        return {"specs": specs, "policy": rng.choice(["unique", "unique", "replace", "ignore"]), "slides": [{"ops": s} for s in slides]}

    # ---- malformed calls
    def call(self, cx, b, objs, deck, root, folder):
        """a function that makes the call (anything it needs is prepared here)"""
        import elsie
        import elsie.ext as ext

        k = b["bad"]
        on = objs[b["on"]] if b["on"] != "deck" else deck
        args = {a: dec(v) for a, v in b.get("args", {}).items()}
        if k in ("size", "pos", "show"):
            return lambda: getattr(on, b["method"])(**args)
        if k == "sibling":
            if b["rel"] == "both":
                child = self.own_child(on)
                if child is None:
                    return None
                args["above"] = args["below"] = child
            else:
                who = {"root": root, "self": on, "stranger": self.stranger, "other": objs[b["other"]], "string": "x"}[b["who"]]
                box = on if hasattr(on, "children") else on._get_box()
                if who in box.children:
                    return None
                args[b["rel"]] = who
            return lambda: getattr(on, b["method"])(**args)
        if k == "points":
            if b["shape"] == "line1":
                return lambda: on.line([(1, 2)])
            return lambda: getattr(on, b["shape"])([dec(p) for p in b["points"]])
        if k == "path":
            return lambda: on.path([dec(c) for c in b["commands"]])
        if k == "text":
            return lambda: on.text(dec(b["text"]), **args)
        if k == "code":
            return lambda: on.code(b["lang"], b["text"], **args)
        if k == "image":
            return self.image(b["what"], on, folder)
        if k == "label":
            path = os.path.join(folder, "label%d.svg" % len(os.listdir(folder)))
            with open(path, "w") as f:
                f.write('<svg xmlns="http://www.w3.org/2000/svg" xmlns:inkscape="http://www.inkscape.org/namespaces/inkscape" '
                        'width="140" height="120"><g inkscape:label="%s"/></svg>' % b["label"])
            return lambda: on.image(path)
        if k == "setstyle":
            c = b["call"]
            a = [scene.mk_style(v["style"]) if isinstance(v, dict) else v for v in c[1:]]
            return lambda: getattr(on, c[0])(*a)
        if k == "styleattr":
            name, v = b["attr"]
            if b["how"] == "new":
                return lambda: elsie.TextStyle(**{name: v})
            st = root.get_style("tt")

            def f():
                before = look(st)
                try:
                    setattr(st, name, v)
                finally:
                    cx.expect(look(st) == before, "style-changed", "%s after %s=%r" % (look(st), name, v))
            return f
        if k == "newslide":
            vb = args.get("view_box")
            if not (vb is not None and not (isinstance(vb, tuple) and len(vb) == 4 and not isinstance(vb[3], str))):
                # a matter of the policy
                name = args.get("name")
                if self.policy == "ignore" or self.policy == "replace" and isinstance(name, str) or self.policy == "unique" and name is None:
                    return None
            if b.get("deco"):
                def f():
                    @deck.slide(**args)
                    def fn(slide):
                        slide.box(height=500)
                    fn()
                return f
            return lambda: deck.new_slide(**args)
        if k == "item":
            if self.list is None:
                return None
            w = b["what"]
            if w == "newlist":
                return None
            lst = self.list
            show = dec(b["show"])
            return {"show": lambda: lst.item(show=show), "label": lambda: lst.item(label=5), "size": lambda: lst.item(height=dec(b["size"])),
                    "ulshow": lambda: lst.ul(show=show), "olshow": lambda: lst.ol(show=show), "olstart": lambda: lst.ol(start=0)}[w]
        if k == "lineinline":
            t = self.text
            if t is None:
                return None
            show = dec(b["show"])
            return {"line-show": lambda: t.line_box(0, show=show), "line-size": lambda: t.line_box(0, width="10px"), "line-pos": lambda: t.line_box(0, x="[5"),
                    "inline-missing": lambda: t.inline_box("nosuch"), "inline-nth": lambda: t.inline_box("emph", 3), "inline-zero": lambda: t.inline_box("emph", 0),
                    "inline-show": lambda: t.inline_box("emph", show=show)}[b["what"]]
        if k == "render":
            return lambda: deck.render(None, return_units=True, save_cache=False, prune_cache=False, **args)
        if k == "deck":
            return lambda: scene.new_deck(cx, **args)
        raise AssertionError(k)

    def own_child(self, on):
        box = on if hasattr(on, "children") else on._get_box()
        return box.children[0] if box.children else None

    def image(self, what, on, folder):
        import zipfile

        path = os.path.join(folder, what)
        if what.startswith("bytes"):
            kind = what[6:]
            return lambda: on.image(b"\x89PNG", **({"image_type": kind} if kind else {}))
        if what.startswith("corrupt"):
            with open(path, "w") as f:
                f.write("<svg width='5' height='5'><g></svg>" if what.endswith("svg") else "not an image")
        elif what == "nomime.ora":
            with zipfile.ZipFile(path, "w") as z:
                z.writestr("mimetype", "text/plain")
                z.writestr("stack.xml", "<image w='5' h='5'><stack/></image>")
        elif what in ("nosize.svg", "badsize.svg"):
            with open(path, "w") as f:
                f.write("<svg xmlns='http://www.w3.org/2000/svg' %s/>" % ("" if what[0] == "n" else "width='9' height='wide'"))
        elif what.split(".")[0] in ("select", "begin"):
            path = os.path.join(folder, what)
            if what.endswith("ora"):
                from vlib import images

                path = images.materialize({"kind": "ora", "w": 120, "h": 100, "stack": [
                    {"layer": {"w": 12, "h": 10, "box": [1, 2, 8, 9], "color": [200, 2, 3]}, "attrs": {"name": "a"}}]}, folder, "sel%d" % len(os.listdir(folder)))[0]
            else:
                with open(path, "w") as f:
                    f.write("<svg xmlns='http://www.w3.org/2000/svg' width='130' height='130'><rect width='5' height='5'/></svg>")
            if what.startswith("begin"):
                return lambda: on.image(path, show_begin="x")
            return lambda: on.image(path, select_fragments=3)
        return lambda: on.image(path)

    def build(self, cx, case, sources, folder, bad):
        import elsie.ext as ext

        deck = scene.new_deck(cx, name_policy=case["policy"])
        self.policy = case["policy"]
        trace = []
        stranger_deck = scene.new_deck(cx)
        self.stranger = stranger_deck.new_slide().box()
        refused = 0
        for n, s in enumerate(case["slides"]):
            root = deck.new_slide("s%d" % n)
            self.list = ext.ordered_list(root.box())
            self.list.item().rect(color="#123123")
            self.text = root.box().text("one ~emph{two} three\nfour")
            objs = {"root": root}
            for op in s["ops"]:
                if "bad" in op:
                    if op["on"] not in objs and op["on"] != "deck":
                        continue
                    if not bad:
                        continue
                    f = self.call(cx, op, objs, deck, root, folder)
                    if f is None:
                        continue
                    before = state(deck, root)
                    try:
                        r = f()
                    except Exception as e:
                        if type(e).__name__ == "Violation":
                            raise
                        refused += 1
                        cx.count("refused")
                        cx.count(op["bad"])
                        after = state(deck, root)
                        cx.expect(before == after, "refused-call-left-traces", lambda: "%s: %s became %s" % (json.dumps(op), before, after))
                        continue
                    cx.fail("accepted", "%s gave %r" % (json.dumps(op), r))
                else:
                    if op["op"] in ("set_style", "update_style") and not hasattr(objs.get(op["on"]), op["op"]):
                        continue
                    op = gen.with_sources([op], sources)[0]
                    scene.apply_op(op, objs)
                    if bad and refused:
                        cx.count("calls_after_a_refusal")
                        if isinstance(op.get("args"), dict) and isinstance(op["args"].get("show"), str) and op["args"]["show"][0] in "nl":
                            cx.count("relative_selector_after_a_refusal")
            # later content: what a trace of a refused call would move or renumber
            root.box(width=30, height=20, show="next+").rect(color="#321321")
            self.list.item().text("last")
            self.list.ol().item().text("sub")
            self.text.inline_box("emph", show="last").rect(color="#444")
            trace.append(root.current_fragment())
        return deck, trace, refused

    def run(self, case, cx):
        folder = cx.dir()
        sources = gen.resolve_images(cx, case["specs"], folder)
        case = dict(case, slides=[dict(s, ops=valid(s["ops"])) for s in case["slides"]])
        a, fa, refused = self.build(cx, case, sources, folder, True)
        b, fb, _ = self.build(cx, case, sources, folder, False)
        cx.expect(fa == fb, "fragments", "%r with, %r without the refused calls" % (fa, fb))
        pa, pb = scene.svgs(a), scene.svgs(b)
        cx.expect(len(pa) == len(pb), "pages", "%d with, %d without the refused calls" % (len(pa), len(pb)))
        from .c15 import diff

        for n, (x, y) in enumerate(zip(pa, pb)):
            cx.expect(x == y, "page-differs", lambda: "page %d: %s" % (n, diff(x, y)))
        cx.count("pages", len(pa))


def valid(ops):
    good = {id(o) for o in ops if "bad" in o}
    keep = scene.valid_ops([o for o in ops if "bad" not in o])
    ids = {id(o) for o in keep}
    return [o for o in ops if id(o) in good or id(o) in ids]


def look(st):
    return [(a, getattr(st, a)) for a in ("font", "size", "align", "line_spacing", "color", "bold", "italic", "variant_numeric", "opacity", "priority")]


def state(deck, root):
    """public observations that do not need a render"""
    return {"fragment": root.current_fragment(), "slides": [(n, id(deck.get_slide_by_name(n))) for n in ("s0", "s1", "fn")],
            "styles": {n: deck.has_style(n) and look(deck.get_style(n)) for n in ("tt", "emph", "mine", "default", "missing")}}


CHECK = C28()
