from vlib import scene, svg
from vlib.core import Check

from . import gen


class C01(Check):
    id = "C01"
    rule = ("random trees of 2-16 boxes (number / string / NN% / fill / fill(N) sizes, explicit and "
            "automatic positions, all padding spellings, horizontal and vertical stacking, prepend, texts "
            "with several lines) on decks of random size; every box draws a uniquely coloured rect whose "
            "size in the rendered SVG is compared with an independent size model. Non-trivial: at least "
            "one box outside the root was compared; distinct by program.")
    assumptions = ["text widths come from a deterministic stand-in for the Inkscape process",
                   "inputs whose fixed content leaves negative room for fill boxes are out of scope"]
    quick = (40000, 75)
    thorough = (60000, 780)
    required = ("fill_boxes", "percent_boxes", "text_boxes", "padded_boxes", "horizontal_parents",
                "unmanaged_fill")

    def gen(self, rng, i, tier):
        n = rng.randint(1, 6) if rng.random() < 0.4 else gen.many(rng, rng.randint(5, 16), 0.04)
        return {"w": rng.choice([1024, 800, 1600]), "h": rng.choice([768, 600, 1200]),
                "ops": gen.layout_tree(rng, n)}

    def run(self, case, cx):
        ops = scene.valid_ops(case["ops"])
        ops = with_rects(ops)
        tree = scene.Tree(ops, case["w"], case["h"])
        tree.layout(scene.plain_text_size)
        deck = scene.new_deck(cx, case["w"], case["h"])
        scene.build(deck.new_slide(), ops)
        out = scene.svgs(deck)
        cx.expect(len(out) == 1, "page-count", len(out))
        obs = gen.box_rects(cx, svg.Doc(out[0]), ops)
        for b, (x, y, w, h) in obs.items():
            n = tree.nodes[b]
            cx.near(w, n.rect[2], "width", lambda: "box %s %r" % (b, n.args))
            cx.near(h, n.rect[3], "height", lambda: "box %s %r" % (b, n.args))
            if n.parent is None:
                continue
            a = n.args
            cx.count("boxes")
            for k in ("width", "height"):
                if scene.fill_of(a.get(k)):
                    cx.count("fill_boxes")
                    if k == ("width" if n.parent.horizontal else "height") and not tree.managed(n):
                        cx.count("unmanaged_fill")
                if isinstance(a.get(k), str) and a[k].endswith("%"):
                    cx.count("percent_boxes")
            if n.texts:
                cx.count("text_boxes")
            if n.pl or n.pr or n.pt or n.pb:
                cx.count("padded_boxes")
            if n.parent.horizontal:
                cx.count("horizontal_parents")


def with_rects(ops):
    """after shrinking: keep only rects of existing boxes (the ops are self-contained)"""
    return ops


CHECK = C01()
