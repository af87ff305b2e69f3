from xml.sax.saxutils import escape, quoteattr

from vlib import images, scene, svg
from vlib.core import Check, Discard

from . import gen

from .c13 import tree_of

SELECTORS = ["1", "2", "3", "1+", "2+", "3+", "1-2", "2-3", "1,3", "2,4+", "1,2", "5", " 2 , 3-4", "4+,1"]
LATE = ["9", "10+", "9-11", "2,10", "11-12,14", "3,1", "10"]


def markup(nodes, keep):
    out = []
    for n in nodes:
        if keep(n):
            attrs = dict(n.get("attrs") or {})
            if n.get("label") is not None:
                attrs["inkscape:label"] = n["label"]
            a = "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in attrs.items())
            out.append("<%s%s>%s%s</%s>" % (n["tag"], a, escape(n.get("text", "")), markup(n.get("kids", []), keep), n["tag"]))
        out.append(escape(n.get("tail", "")))
    return "".join(out)


def walk(nodes, kids):
    for n in nodes:
        yield n
        yield from walk(n.get(kids, []), kids)


def show_of(label):
    if label is None or "**" not in label:
        return None
    return scene.Show(label.split("**")[1], None)


def label_of(n):
    return (n.get("attrs") or {}).get("name") if "layer" in n or "stack" in n else n.get("label")


class C14(Check):
    id = "C14"
    rule = ("random decks with several uses of generated SVG (nested groups, shapes, text runs) and ORA (stacks, layers, opacity, visibility, offsets) files whose labels "
            "carry selectors at any depth, with show_begin, select_fragments, fragments=False and selectors of enclosing boxes; on every page the embedded element tree "
            "(SVG) or the painted layers (ORA) are compared with a reference pruning, as is the number of pages and current_fragment(). Non-trivial: an image was compared on "
            "a page; distinct by program.")
    assumptions = ["labels on the root element and the 0th fragment are not used"]
    quick = (16000, 60)
    thorough = (150000, 700)
    required = ("svg_pages", "ora_pages", "pruned", "nested_hidden", "selected", "selected_none", "unselected", "past_selection", "show_begin", "no_fragments", "tails",
                "same_file_again", "not_yet_begun", "only_first", "hidden_layer", "opacity", "relative_after_image", "label_in_hidden")

    late = False

    def label(self, rng):
        r = rng.random()
        if r < 0.45:
            return rng.choice([None, None, "layer", "a*b", "x * * 2"])
        return rng.choice(["Foo ", "", "a-b", "L1 * "]) + "**" + rng.choice(SELECTORS + LATE if self.late else SELECTORS)

    def svg_nodes(self, rng, depth=0, n=None):
        out = []
        n = [0] if n is None else n
        for _ in range(rng.randint(1, 3 if depth else 4)):
            n[0] += 1
            r = rng.random()
            if r < 0.4 and depth < 4:
                nd = {"tag": "g", "attrs": {"id": "g%d" % n[0]}, "kids": self.svg_nodes(rng, depth + 1, n)}
                if rng.random() < 0.3:
                    nd["attrs"]["transform"] = "translate(1 2)"
            elif r < 0.6:
                kids = [{"tag": "tspan", "attrs": {"id": "t%d" % (n[0] + k)}, "text": "s%d" % k, "label": self.label(rng), "tail": rng.choice(["", " tail%d " % k])}
                        for k in range(rng.randint(0, 3))]
                nd = {"tag": "text", "attrs": {"x": 1}, "text": rng.choice(["", "abc "]), "kids": kids}
            else:
                nd = {"tag": "rect", "attrs": {"fill": scene.color_of(n[0]), "width": n[0] % 7}}
            nd["label"] = self.label(rng)
            nd["tail"] = rng.choice(["", "", "\n  "])
            out.append(nd)
        return out

    def ora_nodes(self, rng, w, h, depth=0):
        out = []
        for _ in range(rng.randint(1, 3)):
            attrs = {"name": self.label(rng)}
            if attrs["name"] is None:
                del attrs["name"]
            if rng.random() < 0.8:
                attrs["visibility"] = "hidden" if rng.random() < 0.2 else "visible"
            if rng.random() < 0.7:
                attrs["opacity"] = rng.choice(["1.0", "1", "0.5", "0.25"])
            if rng.random() < 0.35 and depth < 3:
                if rng.random() < 0.8:
                    attrs.update(x=rng.choice([0, 0, 3]), y=rng.choice([0, 0, -2]))
                out.append({"stack": self.ora_nodes(rng, w, h, depth + 1), "attrs": attrs})
            else:
                if rng.random() < 0.8:
                    attrs.update(x=rng.choice([0, 0, 3, 7]), y=rng.choice([0, 0, 5, -2]))
                x0, y0 = rng.randint(0, w - 1), rng.randint(0, h - 1)
                box = [x0, y0, rng.randint(x0, w), rng.randint(y0, h)]
                if rng.random() < 0.2:
                    out.append({"layer": {"w": w, "h": h, "box": [0, 0, w, h], "color": rng.choice([[0, 0, 0], [0, 9, 0]]), "opaque": True}, "attrs": attrs})
                    continue
                out.append({"layer": {"w": w, "h": h, "box": box, "color": [rng.randint(0, 255), rng.randint(0, 255), rng.randint(0, 9)]}, "attrs": attrs})
        return out

    def gen(self, rng, i, tier):
        files = []
        self.late = rng.random() < 0.05
        for _ in range(rng.randint(1, 2)):
            if rng.random() < 0.75:
                files.append({"kind": "svg", "nodes": self.svg_nodes(rng)})
            else:
                w, h = rng.randint(4, 20), rng.randint(4, 20)
                files.append({"kind": "ora", "w": w, "h": h, "stack": self.ora_nodes(rng, w, h),
                              "root": rng.choice([{}, {"visibility": "visible", "opacity": "1.0", "x": 0, "y": 0}])})
        slides = []
        for s in range(rng.choice([1, 1, 2])):
            ops = []
            boxes = ["root"]
            for k in range(gen.many(rng, rng.randint(1, 5), 0.02)):
                if rng.random() < 0.45:
                    b = "b%d" % k
                    args = {"width": 40, "height": 40}
                    if rng.random() < 0.5:
                        args["show"] = rng.choice(["1", "2", "2+", "1-2", "3", "next", "next+", "last", "last+"])
                    ops.append({"op": "box", "on": rng.choice(boxes), "id": b, "args": args})
                    boxes.append(b)
                else:
                    args = {}
                    if rng.random() < 0.35:
                        args["show_begin"] = rng.choice([1, 2, 3, 4])
                    r = rng.random()
                    if r < 0.3:
                        args["select_fragments"] = [rng.choice([1, 2, 3, 4, 5, None]) for _ in range(gen.many(rng, rng.choice([0, 1, 1, 2, 3, 4]), 0.03))]
                    elif r < 0.45:
                        args["fragments"] = False
                    ops.append({"op": "image", "on": rng.choice(boxes), "id": "i%d" % k, "args": args, "file": rng.randrange(len(files))})
            slides.append({"ops": ops})
        return {"files": files, "slides": slides}

    def steps(self, f):
        key = "stack" if f["kind"] == "ora" else "kids"
        top = 1
        hidden = self.hidden_ids(f)
        for n in walk(f["stack" if f["kind"] == "ora" else "nodes"], key):
            s = show_of(label_of(n))
            if s is not None and id(n) not in hidden:
                top = max(top, s.top)
        return top

    def hidden_ids(self, f):
        """ORA layers that are invisible in the file are not part of the picture"""
        out = set()
        if f["kind"] != "ora":
            return out

        def rec(n, hid):
            a = n.get("attrs") or {}
            hid = hid or a.get("visibility") == "hidden" or ("layer" in n and self.empty(n))
            if hid:
                out.add(id(n))
            for c in n.get("stack", []):
                rec(c, hid)

        for n in f["stack"]:
            rec(n, False)
        return out

    def empty(self, n):
        x0, y0, x1, y1 = n["layer"]["box"]
        return x1 <= x0 or y1 <= y0

    def run(self, case, cx):
        folder = cx.dir()
        paths = []
        for k, f in enumerate(case["files"]):
            if f["kind"] == "svg":
                spec = {"kind": "svg", "w": "30", "h": "20", "body": markup(f["nodes"], lambda n: True)}
            else:
                spec = dict(f)
                spec["stack"] = f["stack"]
            data = images.content(spec)
            path = folder + "/f%d.%s" % (k, f["kind"])
            if f["kind"] == "ora" and f.get("root"):
                data = self.with_root_attrs(spec, f["root"])
            with open(path, "wb") as fh:
                fh.write(data)
            paths.append(path)
        deck = scene.new_deck(cx)
        trees = []
        used = set()
        for sl in case["slides"]:
            ops = scene.valid_ops([dict(op) for op in sl["ops"]])
            root = deck.new_slide()
            objs = {"root": root}
            seen_image = False
            for op in ops:
                if op["op"] == "image":
                    f = case["files"][op["file"]]
                    op["_source"] = paths[op["file"]]
                    op["nat"] = (30.0, 20.0) if f["kind"] == "svg" else (float(f["w"]), float(f["h"]))
                    a = op["args"]
                    if a.get("select_fragments") is not None:
                        op["_steps"] = len(a["select_fragments"])
                    elif a.get("fragments") is False:
                        op["_steps"] = 1
                    else:
                        op["_steps"] = self.steps(f)
                    if op["file"] in used:
                        cx.count("same_file_again")
                    used.add(op["file"])
                    seen_image = True
                elif seen_image and str(op["args"].get("show", "")).startswith(("next", "last")):
                    cx.count("relative_after_image")
                scene.apply_op(op, objs)
            tree = scene.Tree(ops)
            cx.expect(root.current_fragment() == tree.fragments(), "current-fragment", "%d, expected %d" % (root.current_fragment(), tree.fragments()))
            trees.append(tree)
        if not used:
            raise Discard("no image")
        for _ in range(2):
            pages = scene.svgs(deck)
            cx.expect(len(pages) == sum(t.fragments() for t in trees), "page-count", "%d pages" % len(pages))
            k = 0
            for t in trees:
                for step in range(1, t.fragments() + 1):
                    self.page(cx, svg.parse(pages[k]), t, step, case["files"])
                    k += 1

    def with_root_attrs(self, spec, attrs):
        import io
        import zipfile

        data = images.ora(spec)
        z = zipfile.ZipFile(io.BytesIO(data))
        out = io.BytesIO()
        w = zipfile.ZipFile(out, "w")
        for n in z.namelist():
            b = z.read(n)
            if n == "stack.xml":
                a = "".join(' %s="%s"' % kv for kv in attrs.items())
                b = b.replace(b"<stack>", b"<stack%s>" % a.encode(), 1)
            w.writestr(n, b)
        w.close()
        return out.getvalue()

    def page(self, cx, root, tree, step, files):
        want = []
        for it in tree.painted(step):
            if it.op["op"] != "image":
                continue
            a = it.op["args"]
            k = step - (a.get("show_begin") or 1) + 1
            if k < 1:
                cx.count("not_yet_begun")
                continue
            sel = a.get("select_fragments")
            if sel is not None:
                if k > len(sel):
                    cx.count("past_selection")
                    continue
                k = sel[k - 1]
                if k is None:
                    cx.count("selected_none")
                    continue
                cx.count("selected")
            elif a.get("fragments") is False:
                k = None
                cx.count("no_fragments")
            else:
                cx.count("unselected")
            if (a.get("show_begin") or 1) > 1:
                cx.count("show_begin")
            want.append((it, k))
        got = [g for g in root if g.tag == svg.SVG + "g"]
        cx.expect(len(got) == len(want), "image-visibility", "%d images painted in fragment %d, expected %r" % (
            len(got), step, [(it.id, k) for it, k in want]))
        for g, (it, k) in zip(got, want):
            f = files[it.op["file"]]
            inner = list(g)[0]
            where = "fragment %d, image fragment %r, %r" % (step, k, it.op["args"])
            if f["kind"] == "svg":
                self.svg_image(cx, f, inner, k, where)
            else:
                self.ora_image(cx, f, inner, k, where)

    def svg_image(self, cx, f, inner, k, where):
        def keep(n):
            s = show_of(n.get("label"))
            if k is None or s is None or s.visible(k):
                return True
            cx.count("pruned")
            if n.get("tail", "").strip():
                cx.count("tails")
            if any(c.get("label") for c in walk(n.get("kids", []), "kids")):
                cx.count("nested_hidden")
                if any(show_of(c.get("label")) and show_of(c["label"]).top > 1 for c in walk(n.get("kids", []), "kids")):
                    cx.count("label_in_hidden")
            return False

        spec = {"kind": "svg", "w": "30", "h": "20", "body": markup(f["nodes"], keep)}
        exp = tree_of(svg.parse(images.content(spec)))
        cx.expect(exp == tree_of(inner), "image-fragment-content", lambda: "%s\nexpected %s\nobserved %s" % (where, exp, tree_of(inner)))
        if self.steps(f) == 1 and k is not None and k > 1:
            cx.count("only_first")
        cx.count("svg_pages")

    def ora_image(self, cx, f, inner, k, where):
        exp = []

        def rec(nodes, dx, dy, op):
            for n in reversed(nodes):
                a = n.get("attrs") or {}
                if a.get("visibility") == "hidden":
                    cx.count("hidden_layer")
                    continue
                s = show_of(a.get("name"))
                if k is not None and s is not None and not s.visible(k):
                    cx.count("pruned")
                    continue
                x, y = dx + float(a.get("x", 0)), dy + float(a.get("y", 0))
                o = op * float(a.get("opacity", 1))
                if "stack" in n:
                    rec(n["stack"], x, y, o)
                elif not self.empty(n):
                    b = n["layer"]["box"]
                    exp.append((x + b[0], y + b[1], b[2] - b[0], b[3] - b[1], tuple(n["layer"]["color"]), o))

        rec(f["stack"], 0.0, 0.0, 1.0)
        doc = svg.Doc(None, root=inner)
        cx.expect(all(d.tag == "image" for d in doc.draws), "ora-elements", where)
        got = [self.layer(d, cx) for d in doc.draws]
        cx.expect(len(got) == len(exp), "ora-layer-count", "%d layers, expected %d: %s" % (len(got), len(exp), where))
        for g, e in zip(got, exp):
            for q in range(4):
                cx.near(g[q], e[q], "ora-layer-geometry", where)
            cx.expect(g[4] == e[4], "ora-layer-color", "%r expected %r %s" % (g[4], e[4], where))
            cx.near(g[5], e[5], "ora-layer-opacity", where)
            if e[5] < 1:
                cx.count("opacity")
        cx.count("ora_pages")

    def layer(self, d, cx):
        import io

        from PIL import Image

        _, data = images.href_data(d.href())
        img = Image.open(io.BytesIO(data)).convert("RGBA")
        x, y, w, h = d.rect()
        x0, y0 = svg.apply(d.matrix, x, y)
        # the part of the embedded picture that is not transparent
        box = img.getchannel("A").getbbox()
        cx.expect(box is not None, "ora-empty-layer", "")
        sx, sy = w / img.size[0], h / img.size[1]
        cols = img.crop(box).getcolors()
        cx.expect(len(cols) == 1 and cols[0][1][3] == 255, "ora-layer-pixels", cols)
        return (x0 + box[0] * sx, y0 + box[1] * sy, (box[2] - box[0]) * sx, (box[3] - box[1]) * sy, cols[0][1][:3], d.paint["opacity*"])


CHECK = C14()
