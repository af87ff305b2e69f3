import contextlib
import io
import os
import re

from vlib import scene, svg
from vlib.core import Check

from . import gen
from .c04 import SHOWS

FRAME = "#ff00ff"
BOX_NAMES = ["n", "box 1", "a & <b>", "[3,4]", "ščě", "\"q\"", " lead", "two  spaces", "~tt{x}", "0"]


class C26(Check):
    id = "C26"
    rule = ("random slides rendered with and without debug_boxes, and in decks with and without debug mode: (a) box trees with names, fragments, z-levels, paddings and a background, "
            "whose frames are compared one by one with a layout model (position, size, label, exactly once per visible box and page); (b) rich slides of every element kind, where "
            "removing the frames must give exactly the drawing without debugging. Non-trivial: at least two frames were checked.")
    assumptions = ["text widths come from a deterministic stand-in for the Inkscape process", "the debug color #ff00ff identifies the frames; the workload does not use it",
                   "a frame of a box thinner than 0.1 may be widened to 0.1"]
    quick = (9000, 60)
    thorough = (200000, 700)
    required = ("frames", "labels", "hidden_boxes", "rich_pages", "fragments", "thin_boxes", "named", "deck_debug", "rerenders", "view_boxes")

    def gen(self, rng, i, tier):
        if rng.random() < 0.35:
            specs, imgs = gen.rich_images(rng, 2)
            return {"kind": "rich", "specs": specs, "ops": gen.rich_slide(rng, rng.randint(1, 4), imgs), "bg": rng.choice([None, "#fffffe"]),
                    "vb": rng.choice([None, None, [0, 0, 500, 300]]), "render_first": rng.random() < 0.5}

        shows = gen.late_shows(rng, SHOWS)

        def extra(rng, args, b, p, boxes):
            if rng.random() < 0.4:
                args["show"] = rng.choice(shows)
            if rng.random() < 0.2:
                args["z_level"] = rng.choice([-5, -1, 0, 1, 2])
            if rng.random() < 0.5:
                args["name"] = rng.choice(BOX_NAMES)

        return {"kind": "tree", "ops": gen.layout_tree(rng, gen.many(rng, rng.randint(1, 9), 0.03), extra=extra), "bg": rng.choice([None, None, "#fffffe"]),
                "name": rng.choice([None, "slide", "s & 1"]), "vb": rng.choice([None, None, [0, 0, 500, 300]]), "again": rng.random() < 0.3}

    def run(self, case, cx):
        if case["kind"] == "rich":
            return self.rich(case, cx)
        ops = scene.valid_ops(case["ops"])
        tree = scene.Tree(ops, bg_color=case["bg"])
        tree.layout(scene.plain_text_size)
        vb = tuple(case["vb"]) if case["vb"] else None
        if vb:
            cx.count("view_boxes")
        pages = {}
        for debug in (False, True):
            deck = scene.new_deck(cx, name_policy="ignore")
            scene.build(deck.new_slide(case["name"], bg_color=case["bg"], debug_boxes=debug, view_box=vb), ops)
            pages[debug] = scene.svgs(deck)
            if case["again"]:
                again = scene.svgs(deck)
                cx.expect(again == pages[debug], "second-render", "debug=%r" % debug)
                cx.count("rerenders")
        cx.expect(len(pages[True]) == len(pages[False]) == tree.fragments(), "page-count", "%d and %d" % (len(pages[True]), len(pages[False])))
        if len(pages[True]) > 1:
            cx.count("fragments")
        for step, (p, d) in enumerate(zip(pages[False], pages[True]), 1):
            plain, frames, labels = self.split(cx, p, d)
            self.frames(cx, tree, step, frames, labels, case["name"])
        self.deck_debug(cx, case["name"], case["bg"], vb, ops, pages[False])
        if len(tree.all_nodes) < 2:
            cx.case_checks = 0

    def deck_debug(self, cx, name, bg, vb, ops, want):
        deck = scene.new_deck(cx, name_policy="ignore", debug=True)
        scene.build(deck.new_slide(name, bg_color=bg, view_box=vb), ops)
        with contextlib.redirect_stdout(io.StringIO()):
            got = scene.svgs(deck)
        cx.expect(got == want, "deck-debug-changes-pages", "")
        cx.count("deck_debug")

    def split(self, cx, plain, debug):
        a = svg.Doc(plain)
        b = svg.Doc(debug)
        cx.expect((a.width, a.height, a.view_box) == (b.width, b.height, b.view_box), "page-geometry", "")
        frames = [d for d in b.draws if d.tag == "rect" and d.stroke == FRAME]
        labels = [d for d in b.draws if d.tag == "text" and d.lines() and any(c.fill == FRAME for ln in d.lines() for c in ln.chars)]
        extra = set(map(id, frames)) | set(map(id, labels))
        rest = [sig(d) for d in b.draws if id(d) not in extra]
        base = [sig(d) for d in a.draws]
        cx.expect(len(rest) == len(base), "other-elements", "%d elements besides the frames, %d without debugging" % (len(rest), len(base)))
        for x, y in zip(rest, base):
            cx.expect(x == y, "element-changed", lambda: "%r instead of %r" % (x, y))
        cx.expect(len(frames) == len(labels), "frames-and-labels", "%d frames, %d labels" % (len(frames), len(labels)))
        return a, frames, labels

    def frames(self, cx, tree, step, frames, labels, slide_name):
        visible = [n for n in tree.all_nodes if n.visible(step)]
        cx.count("hidden_boxes", len(tree.all_nodes) - len(visible))
        cx.expect(len(frames) == len(visible), "frame-count", "page %d: %d frames for %d visible boxes" % (step, len(frames), len(visible)))
        todo = list(visible)
        for d, t in zip(frames, labels):
            r = d.rect()
            cx.expect(d.matrix == svg.IDENT, "frame-transform", d.matrix)
            lines = t.lines()
            cx.expect(len(lines) == 1, "label-lines", len(lines))
            text = lines[0].text
            m = re.match(r"^[↖↙] (.*)\[([-0-9.e]+),([-0-9.e]+)\]$", text)
            cx.expect(m is not None, "label-format", repr(text))
            for n in todo:
                name = slide_name if n.id == "root" else n.args.get("name")
                if all(abs(a - b) < 1e-6 * max(1, abs(a)) for a, b in zip(r, shown(n.rect))) and m.group(1) == (name + " " if name else ""):
                    break
            else:
                cx.fail("frame", "page %d: frame %r labelled %r belongs to no remaining visible box of %r" % (
                    step, r, text, [(n.id, n.rect, n.args.get("name")) for n in todo]))
            todo = [x for x in todo if x is not n]
            cx.count("frames")
            if n.args.get("name"):
                cx.count("named")
            if min(n.rect[2:]) < 0.1:
                cx.count("thin_boxes")
            for k in (2, 3):
                cx.expect(abs(float(m.group(k)) - n.rect[k]) <= (0.1 + 1e-6 if n.rect[k] < 0.1 else 0.006), "label-size", "%r for %r" % (text, n.rect))
            cx.near(lines[0].x, r[0], "label-place", text)
            y = lines[0].y
            cx.expect(min(abs(y - r[1]), abs(y - r[1] - r[3])) <= 14, "label-place", "y=%r for %r" % (y, r))
            cx.count("labels")

    def rich(self, case, cx):
        sources = gen.resolve_images(cx, case["specs"], cx.dir())
        ops = gen.with_sources(scene.valid_ops(case["ops"]), sources)
        vb = tuple(case["vb"]) if case["vb"] else None
        pages = {}
        for debug in (False, True):
            deck = scene.new_deck(cx)
            root = deck.new_slide(bg_color=case["bg"], debug_boxes=debug, view_box=vb)
            objs = {"root": root}
            half = len(ops) // 2
            for k, op in enumerate(ops):
                if k == half and case["render_first"]:
                    scene.svgs(deck)
                scene.apply_op(op, objs)
            pages[debug] = scene.svgs(deck)
        cx.expect(len(pages[True]) == len(pages[False]), "page-count", "%d and %d" % (len(pages[True]), len(pages[False])))
        for p, d in zip(pages[False], pages[True]):
            _, frames, _ = self.split(cx, p, d)
            cx.expect(len(frames) >= 1, "frame-count", "")
            cx.count("rich_pages")


def shown(rect):
    return (rect[0], rect[1], max(rect[2], 0.1), max(rect[3], 0.1))


def sig(d):
    import xml.etree.ElementTree as ET

    return (d.tag, d.matrix, sorted((k, str(v)) for k, v in d.paint.items()), ET.tostring(d.e))


CHECK = C26()
