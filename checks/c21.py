import math

from vlib import scene, svg
from vlib.core import Check, Discard

from . import gen

LEN = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}
DASH = [None, None, None, "4 2", "1", "10 4 3"]


def num(rng, lo, hi):
    return rng.choice([rng.randint(lo, hi), round(rng.uniform(lo, hi), 3)])


class C21(Check):
    id = "C21"
    rule = ("random shapes (rect, ellipse, polygon, line, path) with random colors, fills, widths, dashes, radii and rotations in random boxes, lines and paths with random arrow heads "
            "of any size, angle, inner shape and stroke at random directions including axis-parallel and reversed ones; the drawn primitive is compared attribute by attribute, and the "
            "heads and shortened ends with vector geometry derived from the requested points. Non-trivial: every case; distinct by program.")
    assumptions = ["the layout model gives the box rectangles", "polygons turn about the mean of their vertices", "heads on segments shorter than a thousandth have no direction, only their number is judged"]
    quick = (50000, 60)
    thorough = (400000, 700)
    required = ("rect", "ellipse", "polygon", "line", "path", "rotated", "radii", "dashed", "no_stroke", "filled_heads", "stroked_heads", "inner_heads", "start_heads", "path_heads", "smooth_tangents",
                "zero_width", "degenerate_arrows", "poly_commands")

    def gen(self, rng, i, tier):
        ops = []
        boxes = ["root"]
        for k in range(rng.randint(1, 3)):
            args = {"x": num(rng, 0, 300), "y": rng.choice([num(rng, 0, 300), "[50%]"]), "width": rng.choice([num(rng, 10, 300), "50%", 20]),
                    "height": rng.choice([num(rng, 10, 300), "40%", 20])}
            gen.paddings(rng, args, 4)
            ops.append({"op": "box", "on": rng.choice(boxes), "id": "b%d" % k, "args": args})
            boxes.append("b%d" % k)

        def paint(keys):
            a = {}
            if "bg_color" in keys and rng.random() < 0.6:
                a["bg_color"] = rng.choice(["green", "#123", "rgb(1,2,3)"])
            if rng.random() < 0.75:
                a["color"] = rng.choice(["red", "#00ff00", "hsl(20,30%,40%)", "black"])
            if rng.random() < 0.5:
                a["stroke_width"] = rng.choice([1, 2, 0.5, 10, 3.25, 0])
            if rng.random() < 0.4:
                a["stroke_dasharray"] = rng.choice(DASH)
            return a

        def pt():
            r = rng.random()
            if r < 0.6:
                return [num(rng, -50, 200), num(rng, -50, 200)]
            if r < 0.85:
                return [rng.choice(["0%", "100%", "33%", "[50%]", 10]), rng.choice(["0%", "100%", "33%", "[50%]", -10])]
            if r < 0.93:
                return {"mid": rng.choice(boxes)}
            return {"p": [rng.choice(boxes), "100%", 3], "add": [num(rng, -40, 40), num(rng, -40, 40)]}

        def arrow():
            a = {}
            if rng.random() < 0.8:
                a["size"] = num(rng, 2, 60)
            if rng.random() < 0.7:
                a["angle"] = rng.choice([30, 40, 45, 20.5, 60, 85, 10])
            r = rng.random()
            if r < 0.3:
                a["stroke_width"] = rng.choice([1, 2, 5.5])
            if rng.random() < 0.4:
                a["inner"] = rng.choice([0.3, 0.8, 1.0, 1.5, 2])
            return a

        for k in range(rng.randint(1, 4)):
            kind = rng.choice(["rect", "ellipse", "polygon", "line", "line", "line", "path", "path"])
            op = {"op": kind, "on": rng.choice(boxes), "id": "s%d" % k}
            if kind in ("rect", "ellipse", "polygon"):
                a = paint(("bg_color",))
                if rng.random() < 0.5:
                    a["rotation"] = rng.choice([0, 45, 90, -30, 360, 12.5, 180, num(rng, -720, 720)])
                if kind == "rect":
                    for r in ("rx", "ry"):
                        if rng.random() < 0.3:
                            a[r] = rng.choice([0, 5, 20, 7.5])
                if kind == "polygon":
                    op["points"] = [pt() for _ in range(gen.many(rng, rng.randint(1, 6), 0.03))]
            elif kind == "line":
                a = paint(())
                op["points"] = [pt() for _ in range(gen.many(rng, rng.choice([2, 2, 3, 5]), 0.03))]
                if rng.random() < 0.3:
                    # straight through a direction of the compass
                    x, y = num(rng, 0, 100), num(rng, 0, 100)
                    dx, dy = rng.choice([(0, 70), (70, 0), (0, -70), (-70, 0), (60, 60), (-60, 60), (-60, -60), (60, -60)])
                    op["points"] = [[x, y], [x + dx, y + dy]]
                for e in ("start_arrow", "end_arrow"):
                    if rng.random() < 0.5:
                        a[e] = arrow()
            else:
                a = paint(("bg_color",))
                cmds = [["M", pt()]]
                for _ in range(gen.many(rng, rng.randint(1, 4), 0.04)):
                    c = rng.choice("LCSQTM")
                    cmds.append([c] + [pt() for _ in range(LEN[c] * rng.choice([1, 1, 1, 2]))])
                if cmds[-1][0] in "CSQT" and rng.random() < 0.7:
                    a["end_arrow"] = arrow()
                op["commands"] = cmds
            op["args"] = a
            ops.append(op)
        return {"ops": ops, "twice": rng.random() < 0.2}

    def run(self, case, cx):
        ops = scene.valid_ops(case["ops"])
        tree = scene.Tree(ops)
        tree.layout(scene.plain_text_size)
        deck = scene.new_deck(cx)
        scene.build(deck.new_slide(), ops)
        pages = scene.svgs(deck)
        if case["twice"]:
            cx.expect(scene.svgs(deck) == pages, "second-render", "")
        cx.expect(len(pages) == 1, "page-count", len(pages))
        draws = list(svg.Doc(pages[0]).draws)
        judged = 0
        for it in tree.painted(1):
            op = it.op
            expected = self.expected(op, tree, it.node)
            for e in expected:
                cx.expect(draws, "missing-element", op)
                d = draws.pop(0)
                if e.get("skip"):
                    cx.count("degenerate_arrows")
                    continue
                self.compare(cx, d, e, op)
                judged += 1
            cx.count(op["op"])
        cx.expect(not draws, "extra-element", lambda: [d.tag for d in draws])
        if not judged:
            raise Discard("nothing judged")

    # ---- reference
    def expected(self, op, tree, node):
        a = op["args"]
        kind = op["op"]
        default = "black" if kind in ("line", "path") else None
        paint = {"fill": a.get("bg_color"), "stroke": a.get("color", default), "width": a.get("stroke_width", 1), "dash": a.get("stroke_dasharray")}
        r = node.rect
        if kind == "rect":
            return [{"tag": "rect", "rect": r, "rx": a.get("rx"), "ry": a.get("ry"), "rotation": a.get("rotation"), "centre": (r[0] + r[2] / 2, r[1] + r[3] / 2), "paint": paint}]
        if kind == "ellipse":
            return [{"tag": "ellipse", "rect": r, "rotation": a.get("rotation"), "centre": (r[0] + r[2] / 2, r[1] + r[3] / 2), "paint": paint}]
        if kind == "polygon":
            pts = [tree.point(p, node) for p in op["points"]]
            c = (sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts))
            return [{"tag": "polygon", "points": pts, "rotation": a.get("rotation"), "centre": c, "paint": paint}]
        if kind == "line":
            pts = [tree.point(p, node) for p in op["points"]]
            out = []
            drawn = list(pts)
            heads = []
            degenerate = False
            for key, tip, prev in (("start_arrow", 0, 1), ("end_arrow", -1, -2)):
                if a.get(key) is None:
                    continue
                h = self.head(a[key], pts[prev], pts[tip], a.get("color", "black"))
                h["which"] = key
                if h["end"] is None:
                    degenerate = True
                    h["end"] = pts[tip]
                heads.append(h)
                drawn[tip] = h["end"]
            return [{"tag": "polyline", "points": drawn, "paint": paint, "skip": degenerate}] + heads
        cmds = []
        for c in op["commands"]:
            cmds.append((c[0], [tree.point(p, node) for p in c[1:]]))
        heads = []
        if a.get("end_arrow") is not None:
            h = self.head(a["end_arrow"], self.before_end(cmds), cmds[-1][1][-1], a.get("color", "black"))
            h["which"] = "path"
            h["smooth"] = cmds[-1][0] == "T"
            heads = [h]
            if h["end"] is None:
                return [{"skip": True}, {"skip": True}]
            cmds[-1][1][-1] = h["end"]
        return [{"tag": "path", "commands": cmds, "paint": paint}] + heads

    def before_end(self, cmds):
        """The point the curve comes from at its end: the last control point."""
        cur = None
        ctrl = None
        for name, pts in cmds:
            n = LEN[name]
            for k in range(0, len(pts), n):
                seg = pts[k:k + n]
                if name == "Q":
                    ctrl = seg[0]
                    last = seg[0]
                elif name == "T":
                    ctrl = (2 * cur[0] - ctrl[0], 2 * cur[1] - ctrl[1]) if ctrl is not None else cur
                    last = ctrl
                elif name in "CS":
                    last = seg[-2]
                    ctrl = None
                else:
                    ctrl = None
                    last = cur
                cur = seg[-1]
        return last

    def head(self, arrow, p1, p2, color):
        size = arrow.get("size", 10)
        ang = math.radians(arrow.get("angle", 40))
        dx, dy = p2[0] - p1[0], p2[1] - p1[1]
        ln = math.hypot(dx, dy)
        if ln < 1e-3:
            # no direction: only the number of elements is judged
            return {"skip": True, "end": None}
        ux, uy = dx / ln, dy / ln
        along, across = size * math.cos(ang), size * math.sin(ang)

        def at(d, s):
            return (p2[0] - d * ux - s * uy, p2[1] - d * uy + s * ux)

        sw = arrow.get("stroke_width")
        pts = [at(along, across), p2, at(along, -across)]
        if arrow.get("inner") and sw is None:
            pts.append(at(arrow["inner"] * along, 0))
        cut = along / 2 if sw is None else sw / 2
        return {"tag": "polygon" if sw is None else "polyline", "points": pts, "mirrored": True, "end": at(cut, 0),
                "paint": {"fill": color, "stroke": None} if sw is None else {"fill": None, "stroke": color, "width": sw, "dash": None}, "inner": bool(arrow.get("inner") and sw is None)}

    # ---- comparison
    def compare(self, cx, d, e, op):
        where = lambda: "%s in %r" % (e["tag"], op)  # noqa
        cx.expect(d.tag == e["tag"], "element", lambda: "%s drawn for %s" % (d.tag, where()))
        if d.tag == "rect":
            for g, w in zip(d.rect(), e["rect"]):
                cx.near(g, w, "rect-geometry", where)
            got = self.radii(d.e.get("rx"), d.e.get("ry"))
            cx.expect(got == self.radii(e["rx"], e["ry"]), "corner-radii", lambda: "%r %s" % (got, where()))
            if e["rx"] or e["ry"]:
                cx.count("radii")
        elif d.tag == "ellipse":
            r = e["rect"]
            for k, w in (("cx", r[0] + r[2] / 2), ("cy", r[1] + r[3] / 2), ("rx", r[2] / 2), ("ry", r[3] / 2)):
                cx.near(d.f(k), w, "ellipse-geometry", where)
        elif d.tag == "path":
            cmds = d.commands()
            flat = [(c, v) for c, v in cmds]
            cx.expect([c for c, _ in flat] == [c for c, _ in e["commands"]], "path-commands", lambda: "%r %s" % (d.e.get("d"), where()))
            for (c, v), (_, pts) in zip(flat, e["commands"]):
                self.points(cx, list(zip(v[::2], v[1::2])), pts, "path-points", where)
                if len(pts) > LEN[c]:
                    cx.count("poly_commands")
        else:
            pts = e["points"]
            got = d.points()
            if e.get("mirrored"):
                # the order around the head does not matter
                alt = [pts[2], pts[1], pts[0]] + pts[3:]
                if len(got) == len(alt) and math.dist(got[0], alt[0]) < math.dist(got[0], pts[0]):
                    pts = alt
                cx.count("filled_heads" if d.tag == "polygon" else "stroked_heads")
                cx.count({"start_arrow": "start_heads", "end_arrow": "end_heads", "path": "path_heads"}[e["which"]])
                if e.get("smooth"):
                    cx.count("smooth_tangents")
                if e["inner"]:
                    cx.count("inner_heads")
            self.points(cx, got, pts, "head-points" if e.get("mirrored") else "points", where)
        rot = e.get("rotation") or 0
        c = e.get("centre", (0, 0))
        a = math.radians(rot)
        m = svg.mat_mul((1, 0, 0, 1, c[0], c[1]), svg.mat_mul((math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0), (1, 0, 0, 1, -c[0], -c[1])))
        for g, w in zip(d.matrix, m):
            cx.near(g, w, "rotation", where)
        if rot % 360:
            cx.count("rotated")
        p = e["paint"]
        fill = d.paint.get("fill", "black")
        cx.expect(fill == (p["fill"] or "none"), "fill", lambda: "%r %s" % (fill, where()))
        width = svg.fnum(d.paint.get("stroke-width", "1"))
        stroke = d.paint.get("stroke", "none")
        visible = stroke != "none" and width > 0
        want = p["stroke"] is not None and p["width"] > 0
        if p["stroke"] is not None and p.get("width") == 0:
            cx.count("zero_width")
        cx.expect(visible == want, "stroke-visible", lambda: "stroke %s width %s, %s" % (stroke, width, where()))
        if want:
            cx.expect(stroke == p["stroke"], "stroke-color", lambda: "%r %s" % (stroke, where()))
            cx.near(width, p["width"], "stroke-width", where)
            dash = d.paint.get("stroke-dasharray", "none")
            cx.expect(dash.replace(",", " ").split() == (p["dash"] or "none").replace(",", " ").split(), "dashes", lambda: "%r %s" % (dash, where()))
            if p["dash"]:
                cx.count("dashed")
        else:
            cx.count("no_stroke")
        cx.near(d.paint.get("opacity*", 1.0), 1.0, "opacity", where)

    def radii(self, rx, ry):
        rx, ry = (None if v is None else float(v) for v in (rx, ry))
        if rx is None and ry is None:
            return (0.0, 0.0)
        rx, ry = (ry if rx is None else rx), (rx if ry is None else ry)
        return (rx, ry) if rx and ry else (0.0, 0.0)

    def points(self, cx, got, want, kind, where):
        cx.expect(len(got) == len(want), kind, lambda: "%d points, expected %d: %s" % (len(got), len(want), where()))
        for g, w in zip(got, want):
            cx.near(g[0], w[0], kind, where)
            cx.near(g[1], w[1], kind, where)


CHECK = C21()
