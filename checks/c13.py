import math

from vlib import images, scene, svg
from vlib.core import Check, Discard

from . import gen

UNITS = ["", "px", "mm", "cm", "in", "pt", "pc", "Q"]


def tree_of(e):
    return (e.tag, sorted(e.attrib.items()), e.text or "", [(tree_of(c), c.tail or "") for c in e if isinstance(c.tag, str)])


class C13(Check):
    id = "C13"
    rule = ("random box trees whose boxes hold PNG, JPEG, SVG (all CSS units, view boxes, encodings, nested content) and ORA images, given as file, bytes or "
            "stream, with and without scale and rotation, in boxes without size, with one or two fixed sizes, percentages and fill; on every page the corners of "
            "each image, the box rectangles, the embedded bytes and the embedded SVG tree are compared with an independent model. Non-trivial: an image was compared.")
    assumptions = ["the image files do not change while the deck is built",
                   "boxes with a fixed size and an image have no padding (elsie rounds their growth up)"]
    quick = (30000, 60)
    thorough = (150000, 700)
    required = ("around_content", "png", "jpeg", "svg", "ora", "form_bytes", "form_stream", "form_path", "rotated", "scaled", "fitted", "one_fixed", "both_fixed",
                "undefined", "one_zero", "percent_or_fill", "reused_source", "later_fragments", "turned_photos") + tuple("unit_" + (u or "none") for u in UNITS)

    def spec(self, rng):
        k = rng.choice(["png", "jpeg", "svg", "svg", "ora"])
        if k in ("png", "jpeg"):
            sp = {"kind": k, "w": rng.randint(1, 60), "h": rng.randint(1, 60), "color": [rng.randint(0, 255) for _ in range(3)],
                  "mode": rng.choice(["RGB", "L"] if k == "jpeg" else ["RGB", "RGBA", "L", "P"])}
            if k == "jpeg" and rng.random() < 0.3:
                # photos are stored as the camera was held
                sp["exif"] = rng.randint(1, 8)
            return sp
        if k == "svg":
            def ln():
                u = rng.choice(UNITS)
                v = rng.uniform(1, 80) / images.PX[u]
                v = rng.choice([str(round(v, 3)), str(max(1, round(v))), repr(v)])
                return v + u
            body = ""
            for _ in range(rng.randint(0, 3)):
                body += rng.choice([
                    '<rect x="1" y="2" width="3" height="4" fill="red"/>',
                    '<g id="gr%d" transform="translate(1 2)"><circle cx="3" cy="4" r="5"/> tail </g>' % rng.randint(0, 3),
                    "<!-- a comment --><text xml:space=\"preserve\">a &lt;b&gt; &amp; &quot;c&quot;  \u00e9</text>",
                    '<style>.a{fill:red}</style><path class="a" d="M 0 0 L 1 1"/>',
                    '<defs><linearGradient id="lg"><stop offset="0"/></linearGradient></defs><rect fill="url(#lg)"/><use xlink:href="#lg"/>',
                    '<g inkscape:label="Layer 1"><ellipse rx="3"/></g>',
                ])
            return {"kind": "svg", "w": ln(), "h": ln(), "body": body, "vb": rng.choice([None, "0 0 10 20", "-3 4 5 6"]),
                    "enc": rng.choice(["UTF-8", "UTF-8", "ISO-8859-1", "UTF-16"]), "decl": True}
        w, h = rng.randint(2, 40), rng.randint(2, 40)
        return {"kind": "ora", "w": w, "h": h, "stack": [
            {"layer": {"w": w, "h": h, "box": [0, 0, w, h], "color": [1, 2, 3]},
             "attrs": {"x": 0, "y": 0, "opacity": "1.0", "visibility": "visible", "name": "a"}}]}

    def gen(self, rng, i, tier):
        def extra(rng, args, b, p, boxes):
            if rng.random() < 0.15:
                args["show"] = rng.choice(["1", "2", "2+", "1-2", "3"])

        base = gen.layout_tree(rng, gen.many(rng, rng.randint(1, 6), 0.04), position_p=0.25, fill=0.2, texts=0.1, prepend=0.1, extra=extra)
        specs = [self.spec(rng) for _ in range(rng.randint(1, 3))]
        ops = []
        textual = {op["on"].split("_")[-1] for op in base if op["op"] == "text"}
        for op in base:
            ops.append(op)
            if op["op"] != "rect":
                continue
            b = op["on"]
            bop = next((o for o in base if o["id"] == b), None)
            if b in textual or rng.random() < 0.2:
                continue
            n = 1
            if bop is not None:
                eff = scene.effective_args(bop, scene.Node("q", None, {}, None, 0, True))
                if any(scene.fixed(eff.get(k)) for k in ("width", "height")):
                    for k in list(bop["args"]):
                        if k.startswith("p_") or k == "padding":
                            del bop["args"][k]
                elif eff.get("width") is None and eff.get("height") is None:
                    n = rng.choice([1, 1, 2])
            for _ in range(n):
                s = rng.randrange(len(specs))
                args = {}
                if rng.random() < 0.4:
                    args["scale"] = rng.choice([1, 1.0, 0.5, 2, 0.1, 1.7, 3])
                if rng.random() < 0.4:
                    args["rotation"] = rng.choice([0, 30, -45, 90, 180, 360, 12.5])
                ops.append({"op": "image", "on": rng.choice([b, op["id"]]), "id": "i%d" % len(ops), "spec": s, "args": args,
                            "form": rng.choice(["path", "path", "bytes", "stream"])})
        # one image may be drawn when its box has its content
        full = [op for op in base if op["op"] == "box" and op["id"] not in textual and any(scene.fixed(op["args"].get(k)) for k in ("width", "height"))
                and all(op["args"].get(k) is None or scene.fixed(op["args"].get(k)) for k in ("width", "height"))
                and scene.effective_args(op, scene.Node("q", None, {}, None, 0, True)) == op["args"]
                and any(o["op"] == "box" and o["on"].split("_")[-1] == op["id"] for o in base) and not any(o["op"] == "image" and o["on"].split("_")[-1] == op["id"] for o in ops)]
        if full and rng.random() < 0.5:
            b = rng.choice(full)
            for k in list(b["args"]):
                if k.startswith("p_") or k == "padding":
                    del b["args"][k]
            ops.append({"op": "image", "on": b["id"], "id": "i%d" % len(ops), "spec": rng.randrange(len(specs)), "args": {}, "form": "path", "late": True})
        return {"ops": ops, "specs": specs}

    def run(self, case, cx):
        ops = scene.valid_ops([dict(op) for op in case["ops"]])
        folder = cx.dir()
        used = set()
        for op in ops:
            if op["op"] != "image":
                continue
            sp = case["specs"][op["spec"]]
            form = op["form"] if sp["kind"] in ("png", "jpeg") else "path"
            ext = {"jpeg": "jpg" if op["spec"] % 2 else "jpeg"}.get(sp["kind"], sp["kind"])
            op["_source"], op["_type"], op["_data"] = images.materialize(sp, folder, "im%d" % op["spec"], form, ext)
            op["nat"] = images.natural(sp)
            op["_form"] = form
            if op["spec"] in used:
                cx.count("reused_source")
            used.add(op["spec"])
        if not used:
            raise Discard("no image")
        deck = scene.new_deck(cx)
        root = deck.new_slide()
        scene.build(root, ops)
        tree = scene.Tree(ops)
        tree.layout(scene.plain_text_size)
        if any(a < 0 for n in tree.all_nodes for a in n.rect[2:]):
            raise Discard("negative size")
        pages = scene.svgs(deck)
        cx.expect(len(pages) == tree.fragments(), "page-count", len(pages))
        for step, page in enumerate(pages, 1):
            self.page(cx, page, tree, step, case["specs"])

    def page(self, cx, page, tree, step, specs):
        doc = svg.Doc(page)
        painted = tree.painted(step)
        want = [it for it in painted if it.op["op"] == "image"]
        top = []
        # image elements at slide level, in paint order
        for e in doc.root:
            t = e.tag.split("}")[-1]
            if t == "image":
                top.append(("bitmap", e))
            elif t == "g":
                kids = list(e)
                cx.expect(len(kids) == 1 and kids[0].tag == svg.SVG + "svg", "image-structure", "group of %d" % len(kids))
                top.append(("svg", e))
        cx.expect(len(top) == len(want), "image-count", "%d painted, %d expected" % (len(top), len(want)))
        # the units mm, pt, ... may be rounded to six digits
        big = max([1024.0] + [v for n in tree.all_nodes for v in n.rect[2:]])
        rects = {it.op["args"]["color"]: it.node for it in painted if it.op["op"] == "rect"}
        for d in doc.draws:
            if d.tag == "rect" and not d.path:
                nd = rects.get(d.stroke)
                cx.expect(nd is not None, "unexpected-rect", d.stroke)
                for k in range(4):
                    cx.near(d.rect()[k], nd.rect[k], "box-geometry", "component %d of %s %r" % (k, nd.id, nd.args), tol=1e-5 * big)
        for (kind, e), it in zip(top, want):
            sp = specs[it.op["spec"]]
            if sp.get("exif", 1) > 4:
                cx.count("turned_photos")
            nd = it.node
            nw, nh = it.op["nat"]
            x, y, w, h = nd.rect
            args = it.op["args"]
            s = args.get("scale")
            if s is None:
                if (0 < w < 1e-6) or (0 < h < 1e-6):
                    raise Discard("almost empty box")
                if min(w, h) == 0 and max(w, h) > 0 and not any(nd.args.get(k) in (0, "0", "0%") for k in ("width", "height")):
                    # what remains for a "fill" is nothing up to rounding
                    continue
                c = [b / a for a, b in ((nw, w), (nh, h)) if b]
                s = min(c) if c else 0
                if len(c) == 1:
                    cx.count("one_zero")
                if it.op.get("late"):
                    cx.count("around_content")
                cx.count("fitted")
            else:
                cx.count("scaled")
            a = math.radians(args.get("rotation") or 0)
            mx, my = x + w / 2, y + h / 2

            def at(u, v):
                dx, dy = (u - 0.5) * nw * s, (v - 0.5) * nh * s
                return mx + dx * math.cos(a) - dy * math.sin(a), my + dx * math.sin(a) + dy * math.cos(a)

            where = "fragment %d, %r in %r of %r, image %r" % (step, args, nd.rect, nd.args, sp)
            cx.expect((kind == "svg") == (sp["kind"] in ("svg", "ora")), "image-kind", where)
            m = svg.parse_transform(e.get("transform"))
            if kind == "bitmap":
                bx, by, bw, bh = [svg.fnum(e.get(k)) for k in ("x", "y", "width", "height")]
                cx.expect(e.get("preserveAspectRatio") in (None, "none", "xMidYMid meet", "xMidYMid"), "image-aspect", where)
                head, data = images.href_data(e.get(svg.XLINK + "href"))
                cx.expect(data == it.op["_data"], "image-bytes", where)
                cx.expect(head == "data:image/%s;base64" % sp["kind"], "image-mime", head)
                pts = [(bx, by), (bx + bw, by), (bx, by + bh)]
            else:
                inner = list(e)[0]
                ox, oy = svg.fnum(inner.get("x") or "0"), svg.fnum(inner.get("y") or "0")
                pts = [(ox, oy), (ox + nw, oy), (ox, oy + nh)]
                if sp["kind"] == "svg":
                    src = svg.parse(it.op["_data"])
                    cx.expect(tree_of(src) == tree_of(inner), "embedded-svg", lambda: "%r\n%r\n%s" % (tree_of(src), tree_of(inner), where))
                    for k in ("w", "h"):
                        u = sp[k].lstrip("-0123456789.e")
                        cx.count("unit_" + (u or "none"))
                else:
                    cx.near(svg.fnum(inner.get("width")), nw, "ora-size", where)
                    cx.near(svg.fnum(inner.get("height")), nh, "ora-size", where)
            for (px, py), (u, v) in zip(pts, ((0, 0), (1, 0), (0, 1))):
                g, t = svg.apply(m, px, py), at(u, v)
                cx.near(g[0], t[0], "image-position", "corner %r: %s" % ((u, v), where), tol=1e-5 * big)
                cx.near(g[1], t[1], "image-position", "corner %r: %s" % ((u, v), where), tol=1e-5 * big)
            cx.count(sp["kind"])
            if a:
                cx.count("rotated")
            if step > 1:
                cx.count("later_fragments")
            cx.count("form_" + it.op["_form"])
            f = [bool(scene.fixed(nd.args.get(k))) for k in ("width", "height")]
            if all(f):
                cx.count("both_fixed")
            elif any(f):
                cx.count("one_fixed")
            elif nd.args.get("width") is None and nd.args.get("height") is None:
                cx.count("undefined")
            else:
                cx.count("percent_or_fill")


CHECK = C13()
