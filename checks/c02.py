from vlib import scene, svg
from vlib.core import Check, Discard

from . import gen


class C02(Check):
    id = "C02"
    rule = ("random trees of boxes as for C01 with a high share of explicit positions and prepends; from the "
            "observed rectangles alone, every parent/child and sibling relation is checked (contiguous "
            "stacking in layout order, centring of the group and on the cross axis, N / NN% / [NN%] offsets). "
            "Non-trivial: at least one placed child; distinct by program.")
    assumptions = ["text widths come from a deterministic stand-in for the Inkscape process"]
    quick = (40000, 75)
    thorough = (60000, 780)
    required = ("stacked_children", "groups_centred", "groups_with_fill", "explicit_x", "explicit_y",
                "cross_centred", "prepended", "explicit_in_horizontal")

    def gen(self, rng, i, tier):
        n = rng.randint(1, 6) if rng.random() < 0.4 else gen.many(rng, rng.randint(5, 16), 0.04)
        return {"w": rng.choice([1024, 800, 1600]), "h": rng.choice([768, 600, 1200]),
                "ops": gen.layout_tree(rng, n, position_p=rng.choice([0.1, 0.35, 0.6]), fill=0.12,
                                       prepend=0.3, texts=0.3)}

    def run(self, case, cx):
        ops = scene.valid_ops(case["ops"])
        tree = scene.Tree(ops, case["w"], case["h"])
        tree.layout(scene.plain_text_size)  # only for the domain (raises Discard)
        deck = scene.new_deck(cx, case["w"], case["h"])
        scene.build(deck.new_slide(), ops)
        out = scene.svgs(deck)
        obs = gen.box_rects(cx, svg.Doc(out[0]), ops)
        if any(n.id not in obs for n in tree.all_nodes):
            raise Discard("box without a rect")
        r = obs["root"]
        for i, v in enumerate((0, 0, case["w"], case["h"])):
            cx.near(r[i], v, "root-rect", "component %d" % i)

        def outer(n):
            x, y, w, h = obs[n.id]
            return (x - n.pl, y - n.pt, w + n.pl + n.pr, h + n.pt + n.pb)

        for p in tree.all_nodes:
            if not p.kids:
                continue
            pr = obs[p.id]
            ax = 0 if p.horizontal else 1
            stacked = [k for k in p.kids if tree.managed(k)]
            if stacked:
                total = sum(outer(k)[ax + 2] for k in stacked)
                fills = any(scene.fill_of(k.args.get("width" if p.horizontal else "height"))
                            for k in stacked)
                cur = pr[ax] if fills else pr[ax] + (pr[ax + 2] - total) / 2
                cx.count("groups_with_fill" if fills else "groups_centred")
                for k in stacked:
                    cx.near(outer(k)[ax], cur, "stack-position",
                            lambda: "child %s of %s" % (k.id, p.id))
                    cur += outer(k)[ax + 2]
                    cx.count("stacked_children")
                    if k.args.get("prepend"):
                        cx.count("prepended")
            for k in p.kids:
                o = outer(k)
                for axis, key in ((0, "x"), (1, "y")):
                    spec = k.args.get(key)
                    if spec is None and axis == ax:
                        continue
                    e = scene.place(spec, pr[axis], pr[axis + 2], o[axis + 2], tree)
                    cx.near(o[axis], e, "position-" + key,
                            lambda: "child %s of %s %r" % (k.id, p.id, k.args))
                    cx.count("cross_centred" if spec is None else "explicit_" + key)
                    if spec is not None and p.horizontal:
                        cx.count("explicit_in_horizontal")


CHECK = C02()
