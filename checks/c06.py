from vlib import scene, svg
from vlib.core import Check

from . import gen

from . import c04


class C06(Check):
    id = "C06"
    rule = ("random programs that create boxes and draw elements in arbitrary interleaving on any box or item, with "
            "prepend, above= and below= any sibling (box or element) and z-levels incl. negative, fractional and inherited ones, "
            "fragments and background; the sequence of painted elements on every page equals the reference model's. "
            "Non-trivial: at least three elements on a page and one reordering feature used; distinct by program.")
    quick = (24000, 60)
    thorough = (250000, 700)
    required = ("above", "below", "prepend", "z_explicit", "z_inherited", "ordered_pairs")

    def gen(self, rng, i, tier):
        ops = []
        boxes = ["root"]
        handles = {"root": ["root"]}
        children = {"root": []}
        k = 0
        zs = rng.choice([[0, 1], [-1, 0, 1, 2], [-1000001, -3, 0, 5, 100], [0.5, 1, -0.5], [9, 10, 11, 100, -10, -9], [10 ** 9, -10 ** 9, 1]])
        for _ in range(gen.many(rng, rng.randint(4, 26))):
            b = rng.choice(boxes) if rng.random() < 0.6 else boxes[-1]
            on = rng.choice(handles[b])
            if rng.random() < 0.45:
                id = "b%d" % len(boxes)
                args = {"width": 20, "height": 10}
                r = rng.random()
                if r < 0.2:
                    args["prepend"] = True
                elif r < 0.4 and children[b]:
                    args["above"] = rng.choice(children[b])
                elif r < 0.6 and children[b]:
                    args["below"] = rng.choice(children[b])
                if args.get("above") or args.get("below"):
                    if rng.random() < 0.15:
                        args["prepend"] = True
                if rng.random() < 0.35:
                    args["z_level"] = rng.choice(zs)
                if rng.random() < 0.12:
                    args["show"] = rng.choice(["2", "1", "2+", "1-2"])
                ops.append({"op": "box", "kind": rng.choice(["box", "box", "overlay", "fbox", "sbox"]), "on": on,
                            "id": id, "args": args})
                boxes.append(id)
                handles[id] = [id]
                children[id] = []
                children[b].append(id)
            else:
                k += 1
                id = "i%d" % k
                c = scene.color_of(k)
                kind = rng.choice(["rect", "ellipse", "line", "polygon", "path", "text"])
                op = {"op": kind, "on": on, "id": id, "args": {"color": c}}
                if kind == "line":
                    op["points"] = [[0, 0], [5, 5]]
                elif kind == "polygon":
                    op["points"] = [[0, 0], [5, 5], [5, 0]]
                elif kind == "path":
                    op["commands"] = [["M", [0, 0]], ["L", [5, 5]]]
                elif kind == "text":
                    op["text"] = "t"
                    op["args"] = {"style": {"color": c, "size": 5}}
                ops.append(op)
                handles[b].append(id)
                children[b].append(id)
        return {"ops": ops, "bg": rng.choice([None, None, "#fffffe"])}

    def run(self, case, cx):
        ops = scene.valid_ops(case["ops"])
        colors = c04.colors_of(ops)
        colors["#fffffe"] = "__bgrect"
        tree = scene.Tree(ops, bg_color=case["bg"])
        deck = scene.new_deck(cx)
        scene.build(deck.new_slide(bg_color=case["bg"]), ops)
        pages = scene.svgs(deck)
        feats = 0
        for op in ops:
            a = op.get("args") or {}
            for f in ("above", "below", "prepend"):
                if a.get(f):
                    cx.count(f)
                    feats += 1
            if "z_level" in a:
                cx.count("z_explicit")
                feats += 1
        best = 0
        cx.expect(len(pages) == tree.fragments(), "page-count", len(pages))
        for step, page in enumerate(pages, 1):
            got = [c04.tag_of(d, colors) for d in svg.Doc(page).draws]
            painted = tree.painted(step)
            want = [it.id for it in painted]
            for it in painted:
                if it.z and "z_level" not in it.node.args:
                    cx.count("z_inherited")
            cx.count("ordered_pairs", len(want) * (len(want) - 1) // 2)
            cx.expect(got == want, "paint-order", lambda: "page %d painted %s expected %s" % (step, got, want))
            best = max(best, len(want))
        if best < 3 or not feats:
            cx.case_checks = 0


CHECK = C06()
