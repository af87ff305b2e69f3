from vlib import scene, svg
from vlib.core import Check, Discard, Violation, in_repo

from . import gen

OFFS = [0, 10, -7, 33.5, "10", "0%", "25%", "50%", "100%", "130%", "[0%]", "[50%]", "[100%]", "[70%]"]


def lazy(rng, boxes, axis=None):
    ax = axis or rng.choice("xy")
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append(rng.choice([["add", rng.randint(-30, 30)], ["add", 2.25], ["mul", 2], ["mul", 0.5]]))
    return {"lazy": {"box": rng.choice(boxes), "axis": ax, "v": rng.choice(OFFS), "ops": ops}}


def point(rng, boxes):
    r = rng.random()
    if r < 0.25:
        return [rng.choice(OFFS), rng.choice(OFFS)]
    if r < 0.4:
        return [lazy(rng, boxes, "x") if rng.random() < 0.6 else rng.choice(OFFS),
                lazy(rng, boxes, "y") if rng.random() < 0.6 else rng.choice(OFFS)]
    if r < 0.55:
        p = {"mid": rng.choice(boxes)}
    else:
        p = {"p": [rng.choice(boxes), rng.choice(OFFS), rng.choice(OFFS)]}
    if rng.random() < 0.5:
        p["add"] = [rng.choice([0, 5, -12.5, 40]), rng.choice([0, 5, -12.5, 40])]
    return p


class C03(Check):
    id = "C03"
    rule = ("random box trees in which boxes, lines, polygons and paths use dynamic values and points of arbitrary "
            "boxes and items, with add/map chains, interleaved with later insertions that move the referenced boxes and with renders in the middle of the construction; "
            "drawn coordinates are compared with an independent layout model. About 3% of the programs position a box "
            "relative to a box laid out after it (known finding). Non-trivial: at least one dynamic coordinate was "
            "observed; distinct by program.")
    assumptions = ["text widths come from a deterministic stand-in for the Inkscape process"]
    quick = (24000, 60)
    thorough = (400000, 700)
    required = ("shape_points", "lazy_boxes", "item_refs", "late_moves", "renders_while_building", "lazy_boxes_with_content")

    def gen(self, rng, i, tier):
        n = gen.many(rng, rng.randint(2, 8))
        base = gen.layout_tree(rng, n, position_p=0.2, fill=0.15, texts=0.4)
        forward = rng.random() < 0.03
        ops = []
        handles = ["root"]
        k = 500
        for op in base:
            ops.append(op)
            if op.get("id"):
                handles.append(op["id"])
            while rng.random() < 0.3:
                k += 1
                on = rng.choice(handles)
                kind = rng.choice(["line", "line", "polygon", "path", "lbox"])
                c = scene.color_of(k)
                if kind == "line":
                    ops.append({"op": "line", "on": on, "args": {"color": c}, "id": "s%d" % k,
                                "points": [point(rng, handles) for _ in range(rng.randint(2, 4))]})
                elif kind == "polygon":
                    ops.append({"op": "polygon", "on": on, "args": {"color": c}, "id": "s%d" % k,
                                "points": [point(rng, handles) for _ in range(rng.randint(3, 5))]})
                elif kind == "path":
                    cmds = [["M", point(rng, handles)]]
                    for _ in range(rng.randint(1, 3)):
                        cm, na = rng.choice([("L", 1), ("C", 3), ("S", 2), ("Q", 2), ("T", 1)])
                        cmds.append([cm] + [point(rng, handles) for _ in range(na)])
                    ops.append({"op": "path", "on": on, "args": {"color": c}, "id": "s%d" % k,
                                "commands": cmds})
                else:
                    args = {}
                    for key, ax in (("x", "x"), ("y", "y"), ("width", "x"), ("height", "y")):
                        if rng.random() < 0.5:
                            args[key] = lazy(rng, handles, ax)
                    args.setdefault("x", rng.choice(OFFS[4:]) if rng.random() < 0.3 else lazy(rng, handles, "x"))
                    args.setdefault("y", lazy(rng, handles, "y"))
                    args.setdefault("width", 20)
                    args.setdefault("height", 15)
                    if args["x"] == "130%":
                        args["x"] = "30%"
                    b = "l%d" % k
                    if rng.random() < (0.5 if forward else 0.1):
                        args["prepend"] = True
                    ops.append({"op": "box", "on": on, "id": b, "args": args})
                    ops.append({"op": "rect", "on": b, "id": "r_" + b, "args": {"color": c}})
                    handles.append(b)
                    if rng.random() < 0.3:
                        # content, possibly larger than the box
                        ops.append({"op": "box", "on": b, "id": b + "c", "args": {"width": rng.choice([5, 40, 170]), "height": rng.choice([4, 30, 120]), "p_left": rng.choice([0, 0, 7])}})
                        handles.append(b + "c")
        cuts = []
        if not forward and rng.random() < 0.4:
            cuts = sorted(rng.randint(1, len(ops)) for _ in range(rng.choice([1, 1, 2])))
        return {"ops": ops, "forward": forward, "cuts": cuts}

    def run(self, case, cx):
        ops = scene.valid_ops(case["ops"])
        tree = scene.Tree(ops)
        forward = False
        try:
            tree.layout(scene.plain_text_size)
        except Discard as e:
            if "forward" not in str(e) or not case["forward"]:
                raise
            forward = True
        deck = scene.new_deck(cx)
        objs = {"root": deck.new_slide()}
        # a render in the middle of the construction must not freeze anything
        cuts = set(case.get("cuts") or ())
        for k, op in enumerate(ops):
            if k in cuts and not forward:
                part = scene.Tree(ops[:k])
                try:
                    part.layout(scene.plain_text_size)
                except Discard:
                    pass
                else:
                    self.compare(cx, svg.Doc(scene.svgs(deck)[0]), ops[:k], part)
                    cx.count("renders_while_building")
            scene.apply_op(op, objs)
        if forward:
            try:
                scene.svgs(deck)
            except AttributeError as e:
                if in_repo(e.__traceback__) is not None and "NoneType" in str(e):
                    raise Violation("forward-dynamic-reference",
                                    "box positioned relative to a box that is laid out after it: %r" % e)
                raise
            raise Discard("forward reference worked")
        self.compare(cx, svg.Doc(scene.svgs(deck)[0]), ops, tree)

    def compare(self, cx, doc, ops, tree):
        obs = gen.box_rects(cx, doc, ops)
        for b, r in obs.items():
            n = tree.nodes[b]
            for i in range(4):
                cx.near(r[i], n.rect[i], "box-geometry", lambda: "component %d of %s %r" % (i, b, n.args))
            if b.startswith("l"):
                cx.count("lazy_boxes")
                if b + "c" in tree.nodes:
                    cx.count("lazy_boxes_with_content")
        shapes = {d.stroke: d for d in doc.draws if d.tag in ("polyline", "polygon", "path")}
        for j, op in enumerate(ops):
            if op["op"] not in ("line", "polygon", "path"):
                continue
            d = shapes.get(op["args"]["color"])
            if d is None:
                cx.fail("shape-missing", op)
            node = tree.node_of(op["on"])
            if op["op"] == "path":
                want = []
                for c in op["commands"]:
                    want += [tree.point(p, node) for p in c[1:]]
                got = []
                cmds = d.commands()
                cx.expect([c[0] for c in cmds] == [c[0] for c in op["commands"]], "path-commands", d.e.get("d"))
                for _, v in cmds:
                    got += list(zip(v[::2], v[1::2]))
            else:
                want = [tree.point(p, node) for p in op["points"]]
                got = d.points()
            cx.expect(len(want) == len(got), "point-count", op)
            for a, b in zip(got, want):
                cx.near(a[0], b[0], "point-x", lambda: repr(op))
                cx.near(a[1], b[1], "point-y", lambda: repr(op))
                cx.count("shape_points")
            if any(r.startswith(("t_", "r_")) for r in scene.op_refs(op)):
                cx.count("item_refs")
            if any(o["op"] == "box" for o in ops[j + 1:]):
                cx.count("late_moves")


CHECK = C03()
