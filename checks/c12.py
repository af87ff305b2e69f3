import math

from vlib import scene, svg, textmodel as tm
from vlib.core import Check, Discard

from . import gen


class C12(Check):
    id = "C12"
    rule = ("random box trees (sizes, paddings, fill, percentages, fragments) whose texts mostly use scale_to_fit, with alignments, "
            "line spacings and rotations, rendered by a random sequence of full and partial renders with the slide extended in between; "
            "on every page of every render the scale, position and rotation of each such text and the rectangle of its box are compared "
            "with an independent model. Non-trivial: a scaled text was compared; distinct by program.")
    assumptions = ["text widths come from a deterministic stand-in for the Inkscape process"]
    quick = (24000, 60)
    thorough = (300000, 700)
    required = ("scaled_texts", "limited_by_width", "limited_by_height", "repeated_renders", "later_fragments", "rotated",
                "undefined_size", "enlarged", "shrunk", "resized_between_renders")

    def gen(self, rng, i, tier):
        shows = gen.late_shows(rng, ["1", "2", "2+", "1-2", "3"])

        def extra(rng, args, b, p, boxes):
            if rng.random() < 0.15:
                args["show"] = rng.choice(shows)

        ops = gen.layout_tree(rng, gen.many(rng, rng.randint(1, 6), 0.04), position_p=0.2, fill=0.3, texts=0.75, prepend=0.1, extra=extra)
        for op in ops:
            if op["op"] == "text":
                op["args"]["style"]["align"] = rng.choice(["left", "middle", "right"])
                if rng.random() < 0.7:
                    op["args"]["scale_to_fit"] = True
                    op["args"]["style"]["size"] = rng.choice([3, 10, 28, 64])
                if rng.random() < 0.2:
                    op["args"]["rotation"] = rng.choice([30, -45, 90, 180])
        renders = [rng.choice(["all", "all", "slide", "other"]) for _ in range(rng.choice([1, 2, 2, 3]))]
        return {"ops": ops, "steps": renders, "grow": rng.choice([None, None, {"width": "100%", "height": 60}, {"height": "fill"}])}

    def run(self, case, cx):
        ops = scene.valid_ops(case["ops"])
        deck = scene.new_deck(cx)
        other = deck.new_slide()
        other.box(width=100, height=100).text("hello", scale_to_fit=True)
        root = deck.new_slide()
        scene.build(root, ops)
        n = 0
        for r, how in enumerate(case["steps"]):
            if r == 1 and case["grow"]:
                op = {"op": "box", "on": "root", "id": "grown", "args": dict(case["grow"])}
                scene.apply_op(op, {"root": root})
                ops = ops + [op]
                cx.count("resized_between_renders")
            tree = scene.Tree(ops)
            tree.layout(scene.plain_text_size)
            sel = {"all": None, "slide": [root.slide], "other": [other.slide]}[how]
            pages = scene.svgs(deck, select_slides=sel)
            if how == "other":
                continue
            if how == "all":
                pages = pages[1:]
            cx.expect(len(pages) == tree.fragments(), "page-count", len(pages))
            for step, page in enumerate(pages, 1):
                self.page(cx, svg.Doc(page), tree, step, r)
                n += 1

    def page(self, cx, doc, tree, step, r):
        want = tree.painted(step)
        texts = []
        for it in want:
            if it.op["op"] != "text":
                continue
            nd = it.node
            tw, th = scene.plain_text_size(it)
            x, y, w, h = nd.rect
            if it.op["args"].get("scale_to_fit"):
                s = min(w / tw, h / th)
                if s <= 1e-5 + 1e-9:
                    if s > 0.9e-5:
                        raise Discard("scale at the drawing threshold")
                    continue
            else:
                s = None
            texts.append((it, s, tw, th))
        got = [d for d in doc.draws if d.tag == "text"]
        cx.expect(len(got) == len(texts), "text-count", "%d painted, %d expected" % (len(got), len(texts)))
        for d in doc.draws:
            if d.tag != "rect":
                continue
            it = next((i for i in want if (i.op.get("args") or {}).get("color") == d.stroke), None)
            cx.expect(it is not None, "unexpected-rect", d.stroke)
            for k in range(4):
                cx.near(d.rect()[k], it.node.rect[k], "box-geometry", "component %d of %s %r" % (k, it.node.id, it.node.args))
        for d, (it, s, tw, th) in zip(got, texts):
            nd = it.node
            x, y, w, h = nd.rect
            st = dict(tm.PREDEFINED["default"], **it.op["args"]["style"])
            lines = it.op["text"].split("\n")
            f = 1.0 if s is None else s
            cx.expect([ln.text for ln in d.lines() if ln.text] == [ln for ln in lines if ln], "text-content", it.op["text"])
            left = tm.anchor_x(nd.rect, st["align"])
            top = y + (h - th * f) / 2
            base = (left, top + st["size"] * f)
            a = math.radians(it.op["args"].get("rotation") or 0)
            cxx, cyy = x + w / 2, y + h / 2

            def rot(p):
                dx, dy = p[0] - cxx, p[1] - cyy
                return cxx + dx * math.cos(a) - dy * math.sin(a), cyy + dx * math.sin(a) + dy * math.cos(a)

            m = d.matrix
            rows = d.lines()
            p = svg.apply(m, rows[0].x, rows[0].y)
            q = svg.apply(m, rows[0].x + 1, rows[0].y)
            v = svg.apply(m, rows[0].x, rows[0].y + 1)
            e = rot(base)
            where = "render %d fragment %d %r in %r" % (r, step, it.op, nd.rect)
            cx.near(p[0], e[0], "text-x", where)
            cx.near(p[1], e[1], "text-y", where)
            cx.near(q[0] - p[0], f * math.cos(a), "text-scale", where)
            cx.near(q[1] - p[1], f * math.sin(a), "text-scale", where)
            cx.near(v[0] - p[0], -f * math.sin(a), "text-scale", where)
            cx.near(v[1] - p[1], f * math.cos(a), "text-scale", where)
            cx.expect(d.e.get("text-anchor") == tm.ANCHOR[st["align"]], "text-anchor", where)
            last = [ln for ln in lines]
            for k, ln in enumerate(rows):
                rel = (ln.y - rows[0].y) / (st["size"] * st["line_spacing"])
                cx.near(rel, round(rel), "line-spacing", where)
            if s is not None:
                cx.count("scaled_texts")
                cx.count("limited_by_width" if w / tw < h / th else "limited_by_height")
                cx.count("enlarged" if s > 1 else "shrunk")
                if r:
                    cx.count("repeated_renders")
                if step > 1:
                    cx.count("later_fragments")
                if a:
                    cx.count("rotated")
                if nd.args.get("width") is None or nd.args.get("height") is None:
                    cx.count("undefined_size")


CHECK = C12()
