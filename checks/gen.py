"""Shared scene generators."""
from vlib import scene

WORDS = ["alpha", "be", "gamma ray", "d", "epsilon zeta eta", "x  y", "theta", "io", "kappa\nlam",
         "mu\n\nnu", "omicron pi rho\nsigma", "t"]


def many(rng, n, p=0.05):
    """n, or now and then a lot more"""
    return n if rng.random() >= p else n * rng.randint(3, 6) + rng.randint(0, 3)


def num(rng, lo, hi, strings=True):
    v = rng.choice([rng.randint(lo, hi), round(rng.uniform(lo, hi), 2), rng.randint(lo, hi)])
    if strings and rng.random() < 0.2:
        return str(int(v))
    return v


def size(rng, cap, fill=0.25):
    r = rng.random()
    if r < 0.35:
        return None
    if r < 0.35 + fill:
        return rng.choice(["fill", "fill", "fill(1)", "fill(2)", "fill(3)", "fill(7)", "fill(%d)" % rng.randint(8, 150)])
    if r < 0.8:
        return "%d%%" % rng.choice([0, 10, 15, 25, 30, 33, 50, 75, 100, rng.randint(1, 99)])
    return num(rng, 0, cap)


def pos(rng, cap):
    r = rng.random()
    if r < 0.4:
        return num(rng, 0, cap)
    if r < 0.7:
        return "%d%%" % rng.choice([0, 10, 33, 50, 75, 100, rng.randint(1, 120)])
    return "[%d%%]" % rng.choice([0, 10, 33, 50, 75, 100, rng.randint(1, 120)])


def paddings(rng, args, cap=12):
    if rng.random() < 0.55:
        return
    for k in rng.sample(["p_left", "p_right", "p_top", "p_bottom", "p_x", "p_y", "padding"],
                        rng.randint(1, 3)):
        args[k] = rng.choice([0, 0, 1, 3, 5.5, cap, rng.randint(0, cap)])


def layout_tree(rng, n_boxes, position_p=0.25, fill=0.25, texts=0.4, prepend=0.2, rects=True,
                extra=None):
    """A random tree of boxes; every box gets a uniquely coloured rect first."""
    ops = []
    boxes = ["root"]
    horiz = {"root": False}
    depth = {"root": 0}
    handles = {"root": ["root"]}
    k = 0
    deepest = 16 if rng.random() < 0.06 else 5
    if rects:
        ops.append({"op": "rect", "on": "root", "id": "r_root",
                    "args": {"color": scene.color_of(0)}})
        handles["root"].append("r_root")
    for i in range(1, n_boxes + 1):
        cand = boxes if rng.random() < 0.5 else boxes[-3:] if deepest == 5 else boxes[-1:]
        p = rng.choice(cand)
        if depth[p] > deepest:
            p = "root"
        b = "b%d" % i
        kind = rng.choices(["box", "fbox", "sbox", "overlay"], [10, 1.5, 2, 0.7])[0]
        args = {}
        if kind == "box":
            for key in ("width", "height"):
                s = size(rng, 120 // (1 + depth[p]), fill)
                if s is not None:
                    args[key] = s
        if kind != "overlay":
            for key in ("x", "y"):
                if rng.random() < position_p:
                    args[key] = pos(rng, 100)
        paddings(rng, args)
        if rng.random() < 0.4:
            args["horizontal"] = rng.random() < 0.85
        if rng.random() < prepend:
            args["prepend"] = True
        if extra:
            extra(rng, args, b, p, boxes)
        on = rng.choice(handles[p])
        ops.append({"op": "box", "kind": kind, "on": on, "id": b, "args": args})
        boxes.append(b)
        depth[b] = depth[p] + 1
        horiz[b] = bool(args.get("horizontal"))
        handles[b] = [b]
        if rects:
            ops.append({"op": "rect", "on": b, "id": "r_" + b,
                        "args": {"color": scene.color_of(i)}})
            handles[b].append("r_" + b)
        if rng.random() < texts:
            st = {"size": rng.choice([4, 6, 8, 10, 5.5]),
                  "line_spacing": rng.choice([1.0, 1.2, 1.5]),
                  "bold": rng.random() < 0.3,
                  "font": rng.choice(["sans-serif", "monospace", "serif"])}
            ops.append({"op": "text", "on": rng.choice(handles[b]), "id": "t_" + b,
                        "text": rng.choice(WORDS), "args": {"style": st}})
            handles[b].append("t_" + b)
    return ops


def box_rects(cx, doc, ops):
    """observed inner rectangles by box id, read from the uniquely coloured rects"""
    out = {}
    want = {}
    for op in ops:
        if op["op"] == "rect" and op["id"].startswith("r_"):
            want[op["args"]["color"]] = op["id"][2:]
    for d in doc.draws:
        if d.tag == "rect" and d.stroke in want:
            b = want[d.stroke]
            if b in out:
                cx.fail("painted-twice", "box %s" % b)
            out[b] = d.rect()
    for c, b in want.items():
        if b not in out:
            cx.fail("not-painted", "rect of box %s" % b)
    return out


# selectors of fragments beyond the first few
LATE_SHOWS = ["7+", "9", "10", "9-11", "10+", "2,10", "8-10,12+", "3,1", "5-6,2", "1,3,5,7,9", "11", 12]


def late_shows(rng, shows, p=0.06):
    """the selectors to use in a slide: rarely some with many fragments"""
    if rng.random() >= p:
        return shows
    return shows + LATE_SHOWS + [",".join(str(k) for k in rng.sample(range(1, 19), rng.randint(2, 4))) + rng.choice(["", "", "", ",20+", ",4-9"]) for _ in range(6)]


RICH_SHOWS = ["1", "2", "1+", "2+", "3+", "1-2", "1,3", "next", "next+", "last", "last+", 2, 1, "3+,1"]
CODE = ["def f(x):\n    return x + 1\n", "x = 'a'  # c\nwhile 1:\n\tpass", "a ~tt{b} c\n~emph{d\ne}"]
MD = ["# Head\n\npara *em* **strong**\n\n- one\n- two\n", "1. a\n2. b\n\n> quote\n", "text\n\n```python\nx = 1\n```\n"]


def rich_slide(rng, n_boxes=None, images=(), shows=True, prefix="", lists=True, texts=0.35):
    """A slide program over all kinds of content; `images` are (source index, kind) pairs."""
    selectors = late_shows(rng, RICH_SHOWS, 0.03)

    def extra(rng, args, b, p, boxes):
        if shows and rng.random() < 0.3:
            args["show"] = rng.choice(selectors)
        if rng.random() < 0.15:
            args["z_level"] = rng.choice([-5, -1, 1, 2])

    base = layout_tree(rng, n_boxes or rng.randint(1, 5), texts=0, rects=rng.random() < 0.5, extra=extra)
    ops = []
    handles = {"root": ["root"]}
    names = ["root"]
    k = [0]

    def col():
        return rng.choice(["red", "#123456", "#0a0", "black", "blue"])

    def arrow():
        return {"size": rng.choice([5, 10]), "angle": rng.choice([30, 40]), "inner": rng.choice([1.0, 0.6]),
                "stroke_width": rng.choice([None, None, 2])}

    def pt():
        r = rng.random()
        if r < 0.6:
            return [rng.choice(["0%", "50%", "100%", 3, 20]), rng.choice(["0%", "50%", "100%", 3, 20])]
        if r < 0.8:
            return {"mid": rng.choice(names)}
        return {"p": [rng.choice(names), "100%", 5], "add": [rng.randint(-20, 20), 4]}

    def content(b):
        k[0] += 1
        id = "%si%d" % (prefix, k[0])
        on = rng.choice(handles[b])
        kind = rng.choices(["rect", "ellipse", "line", "polygon", "path", "text", "code", "image", "list", "markdown", "style", "todo"],
                           [3, 2, 2, 2, 2, 8 * texts, 4 * texts, 3 if images else 0, 1 if lists else 0, 1 if lists else 0, 1, 0.5])[0]
        if kind in ("rect", "ellipse"):
            a = {rng.choice(["color", "bg_color"]): col()}
            if rng.random() < 0.3:
                a["rotation"] = rng.choice([30, -45])
            if rng.random() < 0.3:
                a["stroke_width"] = rng.choice([2, 0.5])
            out = [{"op": kind, "on": on, "id": id, "args": a}]
        elif kind == "line":
            a = {"color": col()}
            pts = [["0%", 3], [20.123, "50%"], ["100%", "100%"]] if rng.random() < 0.5 else [[0, 0], [30, 40]]
            for e in ("start_arrow", "end_arrow"):
                if rng.random() < 0.4:
                    a[e] = arrow()
            if not any(e in a for e in ("start_arrow", "end_arrow")):
                pts = [pt() for _ in range(rng.randint(2, 4))]
            out = [{"op": "line", "on": on, "id": id, "args": a, "points": pts}]
        elif kind == "polygon":
            out = [{"op": "polygon", "on": on, "id": id, "args": {"bg_color": col()}, "points": [pt() for _ in range(3)]}]
        elif kind == "path":
            a = {"color": col()}
            n = rng.choice([2, 3])
            if rng.random() < 0.5 and n == 2:
                a["end_arrow"] = arrow()
            out = [{"op": "path", "on": on, "id": id, "args": a,
                    "commands": [["M", [0, 0]], ["Q", ["50%", 9], [70, 30]], ["L", [90, 90]]][:n]}]
        elif kind == "text":
            a = {"style": rng.choice(["default", "code", "tt", {"size": 8, "color": col()}, {"size": 12, "align": "left"}])}
            if rng.random() < 0.3:
                a["scale_to_fit"] = True
            if rng.random() < 0.15:
                a["rotation"] = 20
            t = rng.choice(["abc", "two\nlines here", "with ~tt{tele} type", "~emph{a ~tt{b}}\n\nc", "~alert{x\ny} z"])
            out = [{"op": "text", "on": on, "id": id, "text": t, "args": a}]
            if rng.random() < 0.4:
                out.append({"op": "line_box", "on": id, "id": id + "l", "index": 0, "args": {}})
                handles[b].append(id + "l")
                out.append({"op": "rect", "on": id + "l", "id": id + "lr", "args": {"color": col()}})
            if "~" in t and rng.random() < 0.5:
                nm = "tt" if "~tt" in t else "alert"
                if nm == "tt":
                    out.append({"op": "inline_box", "on": id, "id": id + "n", "name": nm, "args": {}})
                    out.append({"op": "rect", "on": id + "n", "id": id + "nr", "args": {"color": col()}})
        elif kind == "code":
            a = {"style": {"size": 7}}
            if rng.random() < 0.4:
                a["line_numbers"] = True
            a["use_styles"] = rng.random() < 0.5
            if rng.random() < 0.2:
                a["scale_to_fit"] = True
            out = [{"op": "code", "on": on, "id": id, "lang": rng.choice(["python", "c", "", "rust"]), "text": rng.choice(CODE), "args": a}]
        elif kind == "image":
            src, ik = rng.choice(images)
            a = {}
            if rng.random() < 0.4:
                a["scale"] = rng.choice([0.5, 1.0, 2])
            if rng.random() < 0.2:
                a["rotation"] = 33
            if ik in ("svg", "ora"):
                if shows and rng.random() < 0.3:
                    a["show_begin"] = 2
                r = rng.random()
                if r < 0.2 and shows:
                    a["select_fragments"] = [2, None, 1]
                elif r < 0.35 or not shows:
                    a["fragments"] = False
            out = [{"op": "image", "on": on, "id": id, "file": src, "args": a}]
        elif kind == "list":
            items = [{"text": "one"}, {"text": "two", "args": {"show": "next+"} if shows and rng.random() < 0.5 else {}},
                     {"sub": [{"text": "deep"}, {"text": "er"}], "ordered": rng.random() < 0.5}, {"text": "end"}]
            out = [{"op": "list", "on": on, "id": id, "items": items[:rng.randint(1, 4)], "ordered": rng.random() < 0.5, "args": {}}]
        elif kind == "markdown":
            out = [{"op": "markdown", "on": on, "id": id, "text": rng.choice(MD)}]
        elif kind == "todo":
            # the name of the box is used unless given; items have none
            out = [{"op": "todo", "on": on, "id": id, "names": [rng.choice(["later", ""])] if on not in names or rng.random() < 0.5 else []}]
        else:
            nm = rng.choice(["default", "tt", "emph", "mine"])
            st = {"color": col()} if rng.random() < 0.5 else {"size": rng.choice([6, 9])}
            return [{"op": rng.choice(["set_style", "update_style"]) if nm in ("tt", "emph") else "set_style" if nm == "mine" else "update_style",
                     "on": b, "name": nm, "style": st}]
        handles[b].append(id)
        return out

    for op in base:
        ops.append(op)
        if op["op"] == "box":
            handles[op["id"]] = [op["id"]]
            names.append(op["id"])
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops += content(rng.choice(names))
    return ops


def rich_images(rng, n=2):
    """(specs, [(index, kind)])"""
    specs = []
    for _ in range(n):
        kd = rng.choice(["png", "svg", "svg", "ora"])
        if kd == "png":
            specs.append({"kind": "png", "w": rng.randint(1, 30), "h": rng.randint(1, 30), "color": [rng.randint(0, 255) for _ in range(3)]})
        elif kd == "svg":
            specs.append({"kind": "svg", "w": "30", "h": "20px", "body":
                          '<g inkscape:label="x **2+"><rect id="a" width="5" height="6" fill="#00f"/></g><g inkscape:label="y **1-2">'
                          '<circle cx="5" cy="5" r="3"/>t</g><rect x="3" y="3" width="9" height="9" inkscape:label="**3" fill="red"/>'})
        else:
            specs.append({"kind": "ora", "w": 12, "h": 10, "stack": [
                {"layer": {"w": 12, "h": 10, "box": [1, 2, 8, 9], "color": [200, 2, 3]}, "attrs": {"name": "a **2+"}},
                {"layer": {"w": 12, "h": 10, "box": [0, 0, 5, 5], "color": [20, 200, 3]}, "attrs": {"name": "b", "opacity": "0.5"}}]})
    return specs, [(i, s["kind"]) for i, s in enumerate(specs)]


def resolve_images(cx, specs, folder):
    from vlib import images

    return [images.materialize(sp, folder, "im%d" % i) for i, sp in enumerate(specs)]


def with_sources(ops, sources):
    out = []
    for op in ops:
        if op["op"] == "image":
            op = dict(op)
            op["_source"], op["_type"] = sources[op["file"]][:2]
        out.append(op)
    return out
