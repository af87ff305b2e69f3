import json

from vlib import images, scene, svg
from vlib.core import Check

from . import gen

SHOWS = ["1", "2", "3", "1+", "2+", "3+", "4+", "1-2", "2-3", "1-4", "2-5", "1,3", "2,4+", "1-2,4", "1,3-4,6+",
         "next", "next+", "last", "last+", "next,1", "1-1", " 2 , 3 ", 1, 2, 3, 5, "3+,1", "4+,1-2", "3,1", "next+,1", "last+,next"]


def signature(d):
    """everything that determines what a draw looks like"""
    if d.tag == "text":
        body = [(ln.x, ln.y, [c.key() for c in ln.chars]) for ln in d.lines()]
        extra = d.e.get("text-anchor")
    else:
        body = sorted((k, v) for k, v in d.e.attrib.items() if k not in ("style", "transform", "id"))
        extra = None
    paint = sorted((k, v) for k, v in d.paint.items())
    return (d.tag, tuple(round(x, 9) for x in d.matrix), json.dumps(paint), json.dumps(body), extra)


def tag_of(d, colors):
    """id of the item that painted d"""
    for c in (d.stroke, d.fill):
        if c in colors:
            return colors[c]
    if d.tag == "text":
        for ln in d.lines():
            for c in ln.chars:
                if c.fill in colors:
                    return colors[c.fill]
    return None


def add_items(rng, ops, deep=True):
    """Give every box several uniquely coloured items of different kinds."""
    out = []
    colors = {}
    k = 0
    handles = {"root": ["root"]}

    def col(id):
        nonlocal k
        k += 1
        c = scene.color_of(0x1000 + k)
        colors[c] = id
        return c

    def items(b):
        res = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            id = "i%d" % (k + 1)
            c = col(id)
            kind = rng.choice(["rect", "rect", "ellipse", "line", "polygon", "path", "text", "text", "image"])
            on = rng.choice(handles[b])
            if kind in ("rect", "ellipse"):
                args = {rng.choice(["color", "bg_color"]): c}
                res.append({"op": kind, "on": on, "id": id, "args": args})
            elif kind == "line":
                args = {"color": c}
                if rng.random() < 0.3:
                    args["end_arrow"] = {"size": 5}
                res.append({"op": "line", "on": on, "id": id, "args": args,
                            "points": [["0%", 3], [20.123, "50%"], ["100%", "100%"]]})
            elif kind == "polygon":
                res.append({"op": "polygon", "on": on, "id": id, "args": {"bg_color": c},
                            "points": [[0, 0], ["100%", 0], ["50%", "100%"]]})
            elif kind == "path":
                res.append({"op": "path", "on": on, "id": id, "args": {"color": c},
                            "commands": [["M", [0, 0]], ["Q", ["50%", 9], ["100%", "100%"]]]})
            elif kind == "image":
                args = {}
                n = rng.choice([1, 2, 3, 5, 2, 3, 11])
                if rng.random() < 0.3:
                    args["show_begin"] = rng.choice([2, 3])
                if rng.random() < 0.2:
                    args["select_fragments"] = [rng.choice([None, 1, 2, 3]) for _ in range(rng.randint(1, 4))]
                elif rng.random() < 0.2:
                    args["fragments"] = False
                res.append({"op": "image", "on": on, "id": id, "args": args, "n": n, "color": c})
                for j in range(n):
                    col(id)
            else:
                t = rng.choice(["abc", "two\nlines", "with ~tt{tele} type", "a\n\nb"])
                res.append({"op": "text", "on": on, "id": id, "text": t,
                            "args": {"style": {"color": c, "size": rng.choice([5, 8])}}})
            handles[b].append(id)
        return res

    for op in ops:
        out.append(op)
        if op["op"] == "box":
            handles[op["id"]] = [op["id"]]
            out += items(op["id"])
            if rng.random() < 0.25:
                b = rng.choice(list(handles))
                out += items(b)
    return out, colors


def colors_of(ops):
    out = {}
    for op in ops:
        if op["op"] == "box" or not op.get("id"):
            continue
        a = op.get("args") or {}
        if op["op"] == "image":
            k = int(op["color"][1:], 16)
            for j in range(op["n"] + 1):
                out["#%06x" % (k + j)] = op["id"]
        for c in (a.get("color"), a.get("bg_color"), (a.get("style") or {}).get("color")
                  if isinstance(a.get("style"), dict) else None):
            if c:
                out[c] = op["id"]
    return out


def picture(op):
    """An image whose k-th part carries the label **k+ and the k-th color after op's own."""
    k = int(op["color"][1:], 16)
    body = '<rect width="9" height="9" fill="%s"/>' % op["color"]
    for j in range(1, op["n"] + 1):
        body += '<g inkscape:label="part **%d+"><rect width="%d" height="5" fill="#%06x"/></g>' % (j, j, k + j)
    return {"kind": "svg", "w": "30", "h": "20", "body": body}


def image_steps(op):
    a = op["args"]
    if a.get("select_fragments") is not None:
        return len(a["select_fragments"])
    return 1 if a.get("fragments") is False else op["n"]


def image_parts(op, step):
    """How many elements of the picture appear on a page."""
    a = op["args"]
    k = step - (a.get("show_begin") or 1) + 1
    if k < 1:
        return 0
    sel = a.get("select_fragments")
    if sel is not None:
        if k > len(sel) or sel[k - 1] is None:
            return 0
        k = sel[k - 1]
    elif a.get("fragments") is False:
        k = op["n"]
    return 1 + min(k, op["n"])


class C04(Check):
    id = "C04"
    rule = ("random box trees with random fragment selectors at every level (numbers, ranges, open and comma lists, "
            "next/last), z-levels and every element kind in a unique color, with a background box; each page's set of "
            "painted elements is compared with a reference visibility model, and each element's complete drawing must be "
            "identical on all pages showing it. Non-trivial: at least two pages and one hidden element.")
    quick = (20000, 60)
    thorough = (250000, 700)
    required = ("images", "hidden", "visible_on_several_pages", "nested_hidden")

    def gen(self, rng, i, tier):
        shows = gen.late_shows(rng, SHOWS)

        def extra(rng, args, b, p, boxes):
            if rng.random() < 0.5:
                args["show"] = rng.choice(shows)
            if rng.random() < 0.2:
                args["z_level"] = rng.choice([-5, -1, 0, 1, 2])

        base = gen.layout_tree(rng, gen.many(rng, rng.randint(2, 9)), texts=0, rects=False, extra=extra)
        ops, _ = add_items(rng, base)
        return {"ops": ops, "bg": rng.choice([None, None, "#fffffe"])}

    def run(self, case, cx):
        ops = []
        folder = None
        for op in scene.valid_ops(case["ops"]):
            if op["op"] == "image":
                folder = folder or cx.dir()
                op = dict(op, _steps=image_steps(op), _source=images.materialize(picture(op), folder, op["id"])[0])
            ops.append(op)
        colors = colors_of(ops)
        tree = scene.Tree(ops, bg_color=case["bg"])
        deck = scene.new_deck(cx)
        scene.build(deck.new_slide(bg_color=case["bg"]), ops)
        pages = scene.svgs(deck)
        cx.expect(len(pages) == tree.fragments(), "page-count", "%d pages, model %d" % (len(pages), tree.fragments()))
        kinds = {op["id"]: op["op"] for op in ops if op.get("id")}
        first = {}
        hidden = False
        for step, page in enumerate(pages, 1):
            doc = svg.Doc(page)
            got = {}
            for d in doc.draws:
                t = tag_of(d, colors)
                if t is None and d.fill == "#fffffe":
                    t = "__bgrect"
                if t is None:
                    cx.fail("unidentified-element", "%s %s" % (d.tag, d.e.attrib))
                got.setdefault(t, []).append(signature(d))
            want = {}
            for it in tree.painted(step):
                if it.op["op"] == "image":
                    want[it.id] = image_parts(it.op, step)
                    cx.count("images")
                    continue
                want[it.id] = 2 if "end_arrow" in (it.op.get("args") or {}) else 1
            for id in set(want) | set(got):
                cx.expect(len(got.get(id, ())) == want.get(id, 0), "visibility",
                          lambda: "page %d element %s painted %d times, expected %d" % (
                              step, id, len(got.get(id, ())), want.get(id, 0)))
            for it in list(tree.items.values()):
                if it.id not in want:
                    cx.count("hidden")
                    hidden = True
                    if it.node.show.visible(step):
                        cx.count("nested_hidden")
            for id, s in got.items():
                if kinds.get(id) == "image":
                    # the picture's own fragments may differ between the pages
                    s = s[:1]
                if id in first:
                    cx.count("visible_on_several_pages")
                    cx.expect(first[id][1] == s, "moved-between-fragments",
                              lambda: "element %s: page %d %r, page %d %r" % (id, first[id][0], first[id][1], step, s))
                else:
                    first[id] = (step, s)
        if not (hidden and len(pages) > 1):
            cx.case_checks = 0


CHECK = C04()
