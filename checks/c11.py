import re

from vlib import metrics, scene, svg, textmodel as tm
from vlib.core import Check, Discard

from . import gen

USER = {"a": {"color": "red"}, "b": {"bold": True, "size": 15}, "c": {"font": "serif", "italic": True}, "d": {"size": 3, "priority": 2},
        "#e": {"bold": True}}
NAMES = ["a", "b", "c", "d", "#e", "#x", "#y", "tt"]
FRAG = ["alpha", "be", " ", "x  y", "gamma", "i", "theta = 1", "(", "def", "\n", "\n", "\n\n"]


def rtext(rng, depth=0):
    out = []
    for _ in range(rng.choice([1, 2, 3]) if depth else gen.many(rng, rng.choice([1, 2, 3]))):
        if rng.random() < 0.55 or depth > 3:
            out.append(rng.choice(FRAG))
        else:
            out.append("~" + rng.choice(NAMES) + "{" + rng.choice(["p", "q r", "zz"]) + rtext(rng, depth + 1) + "}")
    return "".join(out)


class C11(Check):
    id = "C11"
    rule = ("texts and listings with nested, repeated and multi-line inline styles in random box trees (alignments, paddings, "
            "explicit positions, scaling, horizontal layouts, line numbers, later insertions), with line_box/inline_box of random "
            "lines and spans, also with overridden arguments; the rectangle of each such box is compared with where the named "
            "characters are actually painted on the page, and the rest of the page with the same slide without these boxes. "
            "Non-trivial: a line or inline box was compared; distinct by program.")
    assumptions = ["a line's box may be up to one unit taller than its lines (a deliberate overlap in elsie)",
                   "spans beginning with a line break and styles split by syntax highlighting are out of scope",
                   "text widths come from a deterministic stand-in for the Inkscape process"]
    quick = (20000, 60)
    thorough = (300000, 700)
    required = ("line_boxes", "inline_boxes", "scaled", "second_lines", "later_spans", "aligned_right", "nested_spans", "numbered",
                "rejected_missing")

    def gen(self, rng, i, tier):
        ops = gen.layout_tree(rng, gen.many(rng, rng.randint(1, 5), 0.03), position_p=0.25, fill=0.2, texts=0.15)
        boxes = [o["id"] for o in ops if o["op"] == "box"]
        text = rng.choice(["", "pre "]) + rtext(rng) + "w"
        here = re.findall(r"~(#?\w+){", text) or NAMES
        calls = []
        for _ in range(rng.choice([1, 2, 4, 6])):
            if rng.random() < 0.45:
                c = {"kind": "line", "index": rng.randint(0, max(4, text.count("\n"))), "n": rng.choice([None, 1, 1, 2, 3])}
            else:
                c = {"kind": "inline", "name": rng.choice(here if rng.random() < 0.85 else NAMES), "nth": rng.choice([1, 1, 1, 2, 2, 3])}
            c["args"] = {}
            if rng.random() < 0.2:
                k, v = rng.choice([("width", 13), ("height", 7), ("x", "[50%]"), ("y", 4), ("z_level", -1), ("height", "100%")])
                c["args"][k] = v
            if rng.random() < 0.25:
                c["args"][rng.choice(["p_x", "p_left", "padding", "p_y", "p_bottom"])] = rng.choice([1, 2.5])
            c["nested"] = rng.random() < 0.15
            calls.append(c)
        style = {"size": rng.choice([5, 8, 10, 12.5]), "line_spacing": rng.choice([1.0, 1.2, 1.7]),
                 "align": rng.choice(["left", "middle", "right"])}
        if rng.random() < 0.2:
            style["bold"] = True
        return {"ops": ops, "on": rng.choice(boxes), "at": rng.randint(0, len(ops)), "text": text,
                "style": style, "scale": rng.random() < 0.35,
                "fn": rng.choice(["text", "text", "code", "lines", "lexed"]), "later": rng.random() < 0.5, "calls": calls}

    def build(self, cx, case, with_calls, log):
        deck = scene.new_deck(cx)
        for n, s in USER.items():
            deck.set_style(n, scene.mk_style(s))
        root = deck.new_slide()
        ops = case["ops"]
        at = max(case["at"], next((k + 1 for k, o in enumerate(ops) if o.get("id") == case["on"]), len(ops) + 1))
        if at > len(ops):
            raise Discard("box was shrunk away")
        objs = {"root": root}
        for op in ops[:at]:
            scene.apply_op(op, objs)
        style = scene.mk_style(case["style"])
        kw = {"scale_to_fit": True} if case["scale"] else {}
        on = objs[case["on"]]
        on.rect(color="#00ff01")
        if case["fn"] == "text":
            t = on.text(case["text"], style, **kw)
        else:
            t = on.code("text" if case["fn"] == "lexed" else "", case["text"], style=style, use_styles=True, line_numbers=case["fn"] == "lines", **kw)

        def calls():
            if not with_calls:
                return
            for k, c in enumerate(case["calls"]):
                args = dict(c["args"])
                try:
                    if c["kind"] == "line":
                        if c["n"] is not None:
                            b = t.line_box(c["index"], c["n"], **args)
                        else:
                            b = t.line_box(c["index"], **args)
                    else:
                        b = t.inline_box(c["name"], c["nth"], **args)
                except Exception:
                    log[k] = "rejected"
                    continue
                log[k] = "ok"
                if c["nested"]:
                    b = b.overlay()
                b.rect(color="#aa%04x" % k)

        if not case["later"]:
            calls()
        for op in ops[at:]:
            scene.apply_op(op, objs)
        if case["later"]:
            calls()
        return svg.Doc(scene.svgs(deck)[0])

    def run(self, case, cx):
        chars = tm.parse(case["text"])
        lines = tm.lines_of(tm.strip_trailing(chars))
        if case["fn"] == "lexed" and case["text"].startswith("\n"):
            raise Discard("leading line breaks of listings")
        log = {}
        doc = self.build(cx, case, True, log)
        plain = self.build(cx, case, False, {})
        n_calls = len(case["calls"])
        rest = [d for d in doc.draws if not (d.tag == "rect" and (d.stroke or "").startswith("#aa"))]
        cx.expect(len(rest) == len(plain.draws), "other-content", "%d draws, %d without the boxes" % (len(rest), len(plain.draws)))
        for a, b in zip(rest, plain.draws):
            cx.expect(a.e.attrib == b.e.attrib and [x.text for x in a.e.iter()] == [x.text for x in b.e.iter()],
                      "layout-disturbed", lambda: "%r, without the boxes %r" % (a.e.attrib, b.e.attrib))
        area = [d for d in doc.draws if d.stroke == "#00ff01"][0].rect()
        if area[2] < 0 or area[3] < 0:
            raise Discard("padding exceeds the box")
        ours = [d for d in doc.draws if d.tag == "text" and "w" in "".join(ln.text for ln in d.lines())[-1:]]
        if len(ours) != 1:
            raise Discard("text is not drawn (scale 0)" if not ours else "ambiguous text")
        t = ours[0]
        m = t.matrix
        if abs(m[1]) > 1e-9 or abs(m[2]) > 1e-9:
            cx.fail("text-transform", t.e.get("transform"))
        s = m[0]
        base = tm.compose(tm.PREDEFINED["default"], case["style"])
        rows, x0, y0 = tm.place_lines(t, base, cx)
        lh = base["size"] * base["line_spacing"]
        if case["scale"]:
            cx.count("scaled")
        numbered = case["fn"] == "lines"
        if numbered:
            cx.count("numbered")
        pre = len(str(len(lines))) + 1 if numbered else 0
        # painted horizontal extents of every character
        pos = {}
        for k, ln in enumerate(lines):
            got = rows[k].chars if k in rows else []
            if len(got) != len(ln) + pre:
                cx.fail("text-content", "line %d: %r" % (k, "".join(c.ch for c in got)))
            adv = [metrics.advance(c.ch, c.font, c.size, c.bold, c.italic) for c in got]
            anchor = {"left": 0, "middle": 0.5, "right": 1}[base["align"]]
            x = x0 - anchor * sum(adv)
            for j, a in enumerate(adv):
                if j >= pre:
                    pos[(k, j - pre)] = (m[4] + s * x, m[4] + s * (x + a))
                x += a
        spans = {}
        for k, ln in enumerate(lines):
            for j, (c, sp) in enumerate(ln):
                for q in sp:
                    spans.setdefault(q.n, (q.name, []))[1].append((k, j))
        # line on which a span opens: spans starting with a line break are excluded by the generator
        order = sorted(spans)
        boxes = {d.stroke: d.rect() for d in doc.draws if d.tag == "rect" and (d.stroke or "").startswith("#aa")}
        tol = 2e-6
        for k, c in enumerate(case["calls"]):
            if c["kind"] == "inline":
                mine = [n for n in order if spans[n][0] == c["name"]]
                if c["nth"] > len(mine):
                    cx.expect(log.get(k) == "rejected", "missing-span-accepted", c)
                    cx.count("rejected_missing")
                    continue
                n = mine[c["nth"] - 1]
                first = min(spans[n][1])
                cells = [p for p in spans[n][1] if p[0] == first[0]]
                left, right = pos[min(cells)][0], pos[max(cells)][1]
                row, rows_n = first[0], 1
                cx.count("inline_boxes")
                if row:
                    cx.count("second_lines")
                if c["nth"] > 1:
                    cx.count("later_spans")
                if any(len(lines[p[0]][p[1]][1]) > 1 for p in cells):
                    cx.count("nested_spans")
                if base["align"] == "right":
                    cx.count("aligned_right")
            else:
                left, right = area[0], area[0] + area[2]
                row, rows_n = c["index"], c["n"] or 1
                cx.count("line_boxes")
            cx.expect(log.get(k) == "ok", "box-rejected", c)
            key = "#aa%04x" % k
            cx.expect(key in boxes, "box-not-painted", c)
            r = list(boxes[key])
            a = c["args"]
            pad = lambda *names: next((a[q] for q in names if q in a), 0)
            pl, pr = pad("p_left", "p_x", "padding"), pad("p_right", "p_x", "padding")
            pt, pb = pad("p_top", "p_y", "padding"), pad("p_bottom", "p_y", "padding")
            r = [r[0] - pl, r[1] - pt, r[2] + pl + pr, r[3] + pt + pb]
            top = m[5] + s * (y0 + row * lh - base["size"])
            hgt = s * lh * rows_n
            where = "%r in %r" % (c, case["text"])
            if pt + pb > hgt or pl + pr > right - left:
                continue  # padding exceeds the box
            if "width" in a:
                cx.near(r[2], max(a["width"], pl + pr), "given-width", where)
            else:
                cx.near(r[2], right - left, "width", where, tol)
            if "height" in a:
                cx.near(r[3], max(area[3] if a["height"] == "100%" else a["height"], pt + pb), "given-height", where)
            else:
                cx.expect(hgt - 1e-6 <= r[3] <= hgt + 1 + 1e-6, "height", "%s: %r for lines of %r" % (where, r[3], hgt))
            if "x" in a:
                cx.near(r[0], area[0] + (area[2] - r[2]) * 0.5, "given-x", where)
            else:
                cx.near(r[0], left, "x", where, tol)
            if "y" in a:
                cx.near(r[1], area[1] + a["y"], "given-y", where)
            else:
                cx.near(r[1], top, "y", where, tol)
        if not case["calls"]:
            cx.case_checks = 0


CHECK = C11()
