"""C22: pages of the Cairo backend against the SVG pages of the same program, as pictures."""
import base64
import json
import math
import os
import subprocess

from vlib import images, scene, svg
from vlib.core import Check
from vlib.raster import Rasteriser

from .c27 import stand_ins

LEN = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}
# Odd lengths: it is a matter of rounding whether a dash as long as the line ends in its corner
DASH = [None, None, "4.37 2.16", "6.29", "10.31 4.17 3.03", "5.23,3.11"]
COLORS = ["red", "#00ff00", "blue", "black", "#f0a", "orange", "darkslategray", "#123456", "rgb(200,20,90)", "hsl(200,80%,40%)", "RoyalBlue"]
TEXT_COLORS = ["red", "#00a000", "blue", "black", "#c0c"]
TOL = 56


def num(rng, lo, hi):
    return rng.choice([rng.randint(lo, hi), round(rng.uniform(lo, hi), 2)])


def png_of(path, background):
    from PIL import Image

    img = Image.open(path).convert("RGBA")
    out = Image.new("RGBA", img.size, background)
    out.alpha_composite(img)
    return out.convert("RGB")


def outliers(a, b, radius, tol, margin):
    """Pixels of b that no pixel of a in the neighbourhood explains."""
    from PIL import ImageChops, ImageFilter

    n = 2 * radius + 1
    lo = a.filter(ImageFilter.MinFilter(n))
    hi = a.filter(ImageFilter.MaxFilter(n))
    over = ImageChops.subtract(b, hi)
    under = ImageChops.subtract(lo, b)
    bad = ImageChops.lighter(over, under)
    m = None
    for band in bad.split():
        t = band.point(lambda v: 255 if v > tol else 0)
        m = t if m is None else ImageChops.lighter(m, t)
    # Neighbours may be out of the page
    m = m.crop((margin, margin, m.size[0] - margin, m.size[1] - margin))
    return m.histogram()[255], m.getbbox()


class C22(Check):
    id = "C22"
    rule = ("random decks (shapes, lines, paths, arrows, bitmaps, SVG and ORA images with fragments, rotated and scaled, LaTeX pictures, nested boxes with z-levels and fragment selectors, view boxes, background colors, "
            "debug boxes, texts) are rendered by the Cairo backend to PNG and PDF and by the Inkscape backend, whose SVG pages the real Inkscape rasterises; the pictures are compared pixel by pixel with a "
            "tolerance of one pixel; boxes of texts, their lines and inline parts have to be around the ink of their text. Non-trivial: a page with a drawn element; distinct by program.")
    assumptions = ["Inkscape's PNG export is the reference of what an SVG page shows", "antialiasing differences stay inside of one pixel"]
    quick = (1200, 90)
    thorough = (20000, 800)
    required = ("op_rect", "op_ellipse", "op_polygon", "op_line", "op_path", "op_png", "op_jpeg", "op_svg", "op_ora", "op_latex", "op_text", "op_inline_box", "op_line_box", "rotation", "stroke_dasharray", "rx",
                "start_arrow", "end_arrow", "z_level", "show", "scale_to_fit", "rotated_fit", "bitmap_exif", "bitmap_mode", "view_box", "bg_color", "debug_boxes", "png_pages", "pdf_pages", "ink_pages", "ink_boxes", "ink_anonymous")

    def gen_text(self, rng):
        """One text and boxes in it."""
        W, H = rng.choice([(200, 150), (160, 160), (240, 120)])
        deck = {"width": W, "height": H}
        zoom = 1
        if rng.random() < 0.35:
            deck["view_box"] = [rng.choice([0, 20, -30, 12.5]), rng.choice([0, 10, -20, 7.5]), rng.choice([W, W // 2, W * 2]), rng.choice([H, H // 2, H * 2])]
            zoom = min(W / deck["view_box"][2], H / deck["view_box"][3])
        words = ["Hi", "xgX", "MMM", "iil", "a b", "Wq", "01", "\u017elu\u0165", "(&<)"]

        # The reference does not slant fonts without an italic variant
        mono = rng.random() < 0.3

        def style(full=False):
            st = {}
            if mono:
                st["font"] = "monospace"
                if rng.random() < 0.4:
                    st["italic"] = rng.choice([True, False])
            for k, v, p in (("size", [10, 16, 24.5, 30], 0.4), ("color", TEXT_COLORS + ["rgb(0,90,200)"], 0.5), ("bold", [True, False], 0.35), ("font", ["monospace"] if mono else ["monospace", "serif", "sans-serif"], 0.3),
                            ("opacity", [0.5, 1, 0.2, 0.75, 0], 0.2)):
                if rng.random() < p or full and k == "size":
                    st[k] = rng.choice(v)
            return st

        st = style(True)
        if rng.random() < 0.6:
            st["align"] = rng.choice(["left", "middle", "right"])
        if rng.random() < 0.4:
            st["line_spacing"] = rng.choice([1, 1.5, 2, 0.9])
        ops = []
        if rng.random() < 0.7:
            a = {"x": rng.choice([num(rng, 0, W // 2), "[50%]"]), "y": rng.choice([num(rng, 0, H // 2), "[50%]"])}
            if rng.random() < 0.6:
                a["width"], a["height"] = rng.choice([num(rng, 10, W), "50%"]), rng.choice([num(rng, 10, H), "40%"])
            ops.append({"op": "box", "on": "root", "id": "b1", "args": a})
        on = "b1" if ops else "root"
        names, lines, chars = [], [], 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            if lines and rng.random() < 0.2:
                lines.append("")
            line, n = "", 0
            for _ in range(rng.choice([1, 1, 2])):
                w = rng.choice(words)
                n += len(w)
                r = rng.random()
                if r < 0.35:
                    names.append("%ss%d" % (rng.choice(["", "", "", "#"]), len(names)))
                    v = rng.choice(words)
                    n += len(v)
                    if rng.random() < 0.3:
                        names.append("%ss%d" % (rng.choice(["", "#"]), len(names)))
                        v = "~%s{%s}%s" % (names[-1], v, rng.choice(["", "z"]))
                        w = "~%s{%s}%s" % (names[-2], v, w)
                    else:
                        w = "~%s{%s}%s" % (names[-1], v, w)
                line += w
            lines.append(line)
            chars = max(chars, n)
        inline = list(names)
        if len(lines) > 1 and rng.random() < 0.5:
            # spans of several lines
            a, b = sorted(rng.sample(range(len(lines)), 2))
            for _ in range(rng.choice([1, 1, 2, 3])):
                names.append("%ss%d" % (rng.choice(["", "", "", "#"]), len(names)))
                lines[a] = "~%s{%s" % (names[-1], lines[a])
                lines[b] += "}"
                a, b = rng.randint(0, a), rng.randint(b, len(lines) - 1)
        for n in names:
            if n[0] == "#":
                continue
            ops.append({"op": "set_style", "on": on, "name": n, "style": style()})
        a = {"style": st}
        fit = False
        if rng.random() < 0.25:
            a["rotation"] = rng.choice([45, 90, -30, 12.5, 180])
        if rng.random() < (0.8 if "rotation" in a else 0.4) and ops and ops[0].get("args", {}).get("width"):
            fit = a["scale_to_fit"] = True
        ops.append({"op": "text", "on": on, "id": "t", "text": "\n".join(lines), "args": a})
        if not a.get("rotation"):
            for k, n in enumerate(rng.sample(inline, min(len(inline), rng.choice([0, 0, 1, 2])))):
                ops.append({"op": "inline_box", "on": "t", "name": n, "id": "i%d" % k, "args": {}})
                ops.append({"op": "rect", "on": "i%d" % k, "id": "ir%d" % k, "args": {"color": "#777", "stroke_width": 3}})
            if rng.random() < 0.2:
                k = rng.randrange(len(lines))
                ops.append({"op": "line_box", "on": "t", "index": k, "n": 1, "id": "l", "args": {}})
                ops.append({"op": "rect", "on": "l", "id": "lr", "args": {"color": "#777", "stroke_width": 3}})
        scale = zoom
        if fit:
            h = ops[0]["args"]["height"]
            h = H * 0.4 if isinstance(h, str) else h
            scale *= max(1, h / (len(lines) * st["size"] * st.get("line_spacing", 1.2)))
        return {"deck": deck, "ops": ops, "pdf": rng.random() < 0.3, "slack": 2.5 + 0.5 * chars * scale}

    def gen_ink(self, rng):
        """A text with a red part: the boxes of the part, its line and the text have to be around the ink."""
        W, H = 700, 400
        words = ["HM", "\u017dX", "NH", "M\u00c9H", "HHHH", "X", "\u5b57H", "\u00c4\u00d6H"]
        size = rng.choice([16, 20, 24.5, 30])
        st = {"size": size, "color": "black", "font": rng.choice(["monospace", "sans-serif", "serif"]), "align": rng.choice(["left", "middle", "right"])}
        if rng.random() < 0.3:
            st["bold"] = True
        if rng.random() < 0.3:
            st["line_spacing"] = rng.choice([1.5, 2, 1])
        n = rng.choice([1, 1, 2, 3])
        at = rng.randrange(n)
        lines = []
        for k in range(n):
            line = "".join(rng.choice([rng.choice(words), "~o{%s}" % rng.choice(words), " "]) for _ in range(rng.choice([0, 1, 2])))
            if k == at:
                part = rng.choice(words)
                if rng.random() < 0.3:
                    part += " " + rng.choice(words)
                if rng.random() < 0.3:
                    part = "%s~o{%s}%s" % (rng.choice(words), part, rng.choice(["", rng.choice(words)]))
                part = "~#t{~t{%s}}" % part if rng.random() < 0.4 else "~t{%s}" % part
                if rng.random() < 0.3:
                    part = "~o{%s%s}" % (rng.choice(words), part)
                line += part
            line += rng.choice(["", rng.choice(words), "~o{%s}" % rng.choice(words)])
            lines.append(line or "H")
        other = {}
        if rng.random() < 0.5:
            other["size"] = rng.choice([12, size])
        if rng.random() < 0.3:
            other["bold"] = True
        a = {"x": num(rng, 10, 60), "y": num(rng, 10, 60)}
        if rng.random() < 0.5:
            a["width"] = rng.randint(200, 320)
        fit = "width" in a and rng.random() < 0.3
        if fit:
            a["height"] = rng.randint(80, 200)
        name = "#t" if "~#t{" in lines[at] else "t"
        ops = [{"op": "box", "on": "root", "id": "b", "args": a},
               {"op": "set_style", "on": "b", "name": "o", "style": other},
               {"op": "set_style", "on": "b", "name": "t", "style": {"color": "#ff0000"}},
               {"op": "text", "on": "b", "id": "x", "text": "\n".join(lines), "args": dict({"style": st}, **({"scale_to_fit": True} if fit else {}))}]
        rects = [{"op": "rect", "on": "x", "id": "rx", "args": {"color": "#0000f1"}},
                 {"op": "inline_box", "on": "x", "name": name, "id": "i", "args": {}}, {"op": "rect", "on": "i", "id": "ri", "args": {"color": "#0000f2"}},
                 {"op": "line_box", "on": "x", "index": at, "n": 1, "id": "l", "args": {}}, {"op": "rect", "on": "l", "id": "rl", "args": {"color": "#0000f3"}}]
        return {"deck": {"width": W, "height": H}, "ops": ops, "rects": rects, "ink": True, "size": size, "line": at, "fit": fit}

    def reference(self, cx, folder, d):
        from elsie.render.backends import CairoBackend, InkscapeBackend

        os.mkdir(os.path.join(folder, "m"))

        class Reference(InkscapeBackend):
            """Texts are as large as Cairo says, so that both layouts are the same."""
            cairo = CairoBackend(os.path.join(folder, "m"))

        for n in ("compute_text_width", "compute_text_height", "compute_text_x"):
            def f(self, *a, n=n, **k):
                self.cairo.set_dimensions(d["width"], d["height"])
                return getattr(self.cairo, n)(*a, **k)
            setattr(Reference, n, f)
        return Reference(cx.shell(), os.path.join(folder, "r"))

    def run_ink(self, case, cx):
        import elsie
        from elsie.render.backends import CairoBackend

        folder = cx.dir()
        d = case["deck"]

        def deck(backend, name, ops):
            dk = elsie.SlideDeck(d["width"], d["height"], backend=backend, cache_dir=os.path.join(folder, name))
            scene.build(dk.new_slide(), scene.valid_ops(ops))
            return dk

        page = svg.Doc(scene.svgs(deck(self.reference(cx, folder, d), "rr", case["ops"] + case["rects"]))[0])
        boxes = {r.stroke: r.rect() for r in page.draws if r.tag == "rect" and r.stroke}
        boxes = {name: boxes.get(c) for name, c in (("text", "#0000f1"), ("part", "#0000f2"), ("line", "#0000f3"))}
        cx.expect(all(boxes.values()), "box-missing", boxes)
        boxes = {n: (x, y, x + w, y + h) for n, (x, y, w, h) in boxes.items()}
        img = png_of(deck(CairoBackend(os.path.join(folder, "cc")), "cc", case["ops"]).render(None, export_type="png")[0], (255, 255, 255, 255))
        red = where(img, lambda r, g, b: r > 190 and g < 120 and b < 120)
        dark = where(img, lambda r, g, b: r + g + b < 450)
        cx.seen(json.dumps(case["ops"]))
        scale = 1
        if case["fit"]:
            scale = (boxes["line"][3] - boxes["line"][1]) / (case["size"] * case["ops"][3]["args"]["style"].get("line_spacing", 1.2))
        cx.expect(red is not None and dark is not None, "text-missing", "")
        em = case["size"] * max(scale, 1)
        tol = 2 + 0.05 * em
        for name, b, inner in (("text", boxes["text"], dark), ("part", boxes["part"], red), ("line", boxes["line"], red)):
            cx.expect(b[0] - tol <= inner[0] and inner[2] <= b[2] + tol, "ink-out-of-box", lambda: "%s: ink %s box %s" % (name, inner, b))
            # spaces have no ink
            if name == "part" or name == "text" and "width" not in case["ops"][0]["args"] and " " not in case["ops"][3]["text"]:
                cx.expect(inner[0] - b[0] <= tol + 0.2 * em and b[2] - inner[2] <= tol + 0.2 * em, "box-around-more", lambda: "%s: ink %s box %s" % (name, inner, b))
            cx.expect(b[1] - tol - 0.15 * em <= inner[1] and inner[3] <= b[3] + tol + 0.15 * em, "ink-out-of-line", lambda: "%s: ink %s box %s" % (name, inner, b))
        cx.count("ink_boxes")
        if "~#t{" in case["ops"][3]["text"]:
            cx.count("ink_anonymous")

    def gen(self, rng, i, tier):
        if rng.random() < 0.06:
            return self.gen_ink(rng)
        if rng.random() < 0.35:
            return self.gen_text(rng)
        W, H = rng.choice([(200, 150), (160, 160), (240, 120)])
        deck = {"width": W, "height": H}
        pdf = rng.random() < 0.3
        if rng.random() < 0.5:
            deck["bg_color"] = rng.choice(["white", "#eef", "lightyellow"])
        if rng.random() < 0.35:
            deck["view_box"] = [rng.choice([0, 20, -30, 12.5]), rng.choice([0, 10, -20, 7.5]), rng.choice([W, W // 2, W * 2, 100]), rng.choice([H, H // 2, H * 2, 100])]
        slack = None
        if rng.random() < 0.06:
            deck["debug_boxes"] = True
            slack = 12
        ops = []
        boxes = ["root"]

        def show():
            return rng.choice(["2", "1-2", "2+", "next", "next+", "last", "3"]) if rng.random() < 0.2 else None

        def box():
            k = len(boxes)
            a = {"x": rng.choice([num(rng, 0, W * 2 // 3), "[50%]", "10%"]), "y": rng.choice([num(rng, 0, H * 2 // 3), "[50%]", "5%"]),
                 "width": rng.choice([num(rng, 10, W), "50%", 40]), "height": rng.choice([num(rng, 10, H), "40%", 30])}
            if rng.random() < 0.04:
                a[rng.choice(["width", "height"])] = 0
            if rng.random() < 0.2:
                a["z_level"] = rng.randint(-2, 2)
            s = show()
            if s:
                a["show"] = s
            if rng.random() < 0.3:
                a["padding"] = rng.randint(0, 4)
            ops.append({"op": "box", "on": rng.choice(boxes), "id": "b%d" % k, "args": a})
            boxes.append("b%d" % k)

        def pt():
            r = rng.random()
            if r < 0.7:
                return [num(rng, -20, 100), num(rng, -20, 100)]
            if r < 0.9:
                return [rng.choice(["0%", "100%", "33%", "[50%]", 10]), rng.choice(["0%", "100%", "33%", "[50%]", -10])]
            return {"mid": rng.choice(boxes)}

        def paint(keys, a):
            if "bg_color" in keys and rng.random() < 0.6:
                a["bg_color"] = rng.choice(COLORS)
            if rng.random() < 0.75:
                a["color"] = rng.choice(COLORS)
            if rng.random() < 0.6:
                a["stroke_width"] = rng.choice([1, 2, 0.5, 10, 3.25, 5, 0])
            if rng.random() < 0.35:
                a["stroke_dasharray"] = rng.choice(DASH)
            return a

        def rot(a, p=0.4):
            if rng.random() < p:
                a["rotation"] = rng.choice([0, 45, 90, -30, 12.5, 180, num(rng, -360, 360)])
            return a

        def arrow():
            a = {"size": num(rng, 4, 30)}
            if rng.random() < 0.7:
                a["angle"] = rng.choice([30, 40, 45, 20.5, 60])
            if rng.random() < 0.3:
                a["stroke_width"] = rng.choice([1, 2, 5.5])
            if rng.random() < 0.4:
                a["inner"] = rng.choice([0.5, 0.8, 1.0, 1.5, 2])
            return a

        for k in range(rng.randint(1, 5)):
            if rng.random() < 0.6:
                box()
            kind = rng.choice(["rect", "rect", "ellipse", "polygon", "line", "path", "bitmap", "svg"] + ["latex"] * (rng.random() < 0.3))
            op = {"op": kind, "on": rng.choice(boxes), "id": "s%d" % k}
            a = {}
            if kind in ("rect", "ellipse", "polygon"):
                paint(("bg_color",), a)
                rot(a)
                if kind == "ellipse" and a.get("stroke_dasharray") and (a.get("stroke_width") or 0) > 2:
                    a["stroke_width"] = 2
                if kind == "rect":
                    for r in ("rx", "ry"):
                        if rng.random() < 0.3:
                            a[r] = rng.choice([0, 5, 20, 7.5, 200])
                    if len({bool(a.get("rx")), bool(a.get("ry"))}) == 2 and "rx" in a and "ry" in a:
                        # Inkscape takes a zero for a missing value
                        a["rx"] = a["ry"] = 0
                if kind == "polygon":
                    op["points"] = [pt() for _ in range(rng.randint(1, 6))]
            elif kind == "line":
                paint((), a)
                op["points"] = [pt() for _ in range(rng.choice([2, 2, 3, 5]))]
                for e in ("start_arrow", "end_arrow"):
                    if rng.random() < 0.4:
                        a[e] = arrow()
            elif kind == "path":
                paint(("bg_color",), a)
                cmds = [["M", pt()]]
                for _ in range(rng.randint(1, 4)):
                    c = rng.choice("LCSQTM")
                    cmds.append([c] + [pt() for _ in range(LEN[c] * rng.choice([1, 1, 2]))])
                if cmds[-1][0] in "CSQT" and rng.random() < 0.5:
                    a["end_arrow"] = arrow()
                op["commands"] = cmds
            elif kind == "bitmap":
                op["op"] = "image"
                op["spec"] = {"kind": rng.choice(["png", "jpeg"]), "w": rng.choice([20, 33, 60]), "h": rng.choice([20, 41, 10]), "cells": rng.choice([[1, 1], [2, 1], [2, 2], [1, 3]]), "seed": rng.randint(0, 99),
                              "alpha": rng.random() < 0.3 and not pdf}
                if op["spec"]["kind"] == "jpeg" and rng.random() < 0.3:
                    op["spec"]["exif"] = rng.randint(1, 8)
                if rng.random() < 0.4:
                    op["spec"]["mode"] = rng.choice(["L"] if op["spec"]["kind"] == "jpeg" else ["L", "LA", "P", "1", "I"])
                rot(a)
                if rng.random() < 0.4:
                    a["scale"] = rng.choice([0.5, 1, 2, 1.3])
            elif kind == "svg":
                op["op"] = "image"
                op["spec"] = self.svg_spec(rng)
                rot(a)
                if rng.random() < 0.4:
                    a["scale"] = rng.choice([0.5, 1, 2, 1.3]) / (8 if op["spec"]["kind"] == "ora" else 1)
                r = rng.random()
                if r < 0.15:
                    a["fragments"] = False
                elif r < 0.3:
                    a["select_fragments"] = [rng.choice([1, 2, None]) for _ in range(rng.randint(1, 3))]
                if rng.random() < 0.2:
                    a["show_begin"] = rng.randint(1, 3)
            elif kind == "latex":
                op["text"] = "%%PICTURE %s\n" % base64.b64encode(self.latex_picture(rng).encode()).decode()
                if rng.random() < 0.6:
                    a["scale"] = rng.choice([0.5, 1, 2, 1.3, 3])
            op["args"] = a
            ops.append(op)
        return {"deck": deck, "ops": ops, "pdf": pdf, "slack": slack}

    def latex_picture(self, rng):
        """Something like the output of pdf2svg."""
        w, h = rng.choice([(30, 20), (25, 25), (40.5, 12), (12, 40)])
        glyphs = ["M 0 0 L %d 0 L %d -%d L 0 -%d Z" % (x, x, y, y) for x, y in ((rng.randint(3, 6), rng.randint(3, 8)) for _ in range(rng.randint(1, 3)))]
        defs = "".join('<symbol overflow="visible" id="glyph0-%d"><path style="stroke:none;" d="%s"/></symbol>' % (k, g) for k, g in enumerate(glyphs))
        uses = "".join('<use xlink:href="#glyph0-%d" x="%s" y="%s"/>' % (rng.randrange(len(glyphs)), num(rng, 1, int(w) - 7), num(rng, 9, int(h) - 1)) for _ in range(rng.randint(1, 4)))
        rule = '<rect x="1" y="%d" width="%d" height="1.5" fill="%s"/>' % (rng.randint(1, int(h) - 3), int(w) - 2, rng.choice(COLORS[:4]))
        return ('<?xml version="1.0" encoding="UTF-8"?>\n<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" width="%spt" height="%spt" viewBox="0 0 %s %s" version="1.1">\n'
                '<defs>\n<g>%s</g></defs>\n<g id="surface1"><g style="fill:rgb(0%%,0%%,0%%);fill-opacity:1;">%s</g>%s</g>\n</svg>\n' % (w, h, w, h, defs, uses, rng.choice(["", rule])))

    def svg_spec(self, rng):
        w, h = rng.choice([(40, 30), (30, 30), (25, 50)])
        # Inkscape does not clip the content of nested pictures, so it stays inside of them
        vb = rng.choice([None, None, [0, 0, w, h], [0, 0, 2 * w, 2 * h], [5, 5, w, h], [-4, 3, w / 2, h / 2]])
        ox, oy, vw, vh = vb or [0, 0, w, h]
        els = []
        for _ in range(rng.randint(1, 3)):
            x, y = rng.randint(0, int(vw) // 2), rng.randint(0, int(vh) // 2)
            label = rng.choice([None, None, "a **1", "b **2", "c **2+", "d **1-2"])
            els.append({"x": ox + x, "y": oy + y, "w": rng.randint(4, int(vw) - x - 1), "h": rng.randint(4, int(vh) - y - 2), "fill": rng.choice(["red", "#00ff00", "#0000ff", "#222"]), "label": label,
                        "shape": rng.choice(["rect", "ellipse", "g", "image"])})
        if rng.random() < 0.25:
            # Large layers: how pixels are blown up is up to the renderer
            for e in els:
                e["x"], e["y"], e["w"], e["h"] = 8 * (e["x"] - ox), 8 * (e["y"] - oy), 8 * e["w"], 8 * e["h"]
            return {"kind": "ora", "w": 8 * w, "h": 8 * h, "els": els}
        return {"kind": "svg", "w": w, "h": h, "els": els, "unit": rng.choice(["", "px", "mm", "pt"]), "vb": " ".join("%s" % v for v in vb) if vb else None}

    # ---- pictures
    def picture(self, spec, folder, name):
        path = os.path.join(folder, name + "." + spec["kind"])
        if spec["kind"] in ("png", "jpeg"):
            import random

            from PIL import Image

            r = random.Random(spec["seed"])
            nx, ny = spec["cells"]
            mode = "RGBA" if spec["alpha"] and spec["kind"] == "png" else "RGB"
            img = Image.new(mode, (spec["w"], spec["h"]))
            for ix in range(nx):
                for iy in range(ny):
                    c = tuple(r.choice([0, 255, 120]) for _ in range(3))
                    if mode == "RGBA":
                        c += (r.choice([0, 255, 128]),)
                    img.paste(c, (spec["w"] * ix // nx, spec["h"] * iy // ny, spec["w"] * (ix + 1) // nx, spec["h"] * (iy + 1) // ny))
            to = spec.get("mode")
            if to == "LA" and mode != "RGBA":
                to = "L"
            if to == "I":
                # 16 bits per pixel
                img = img.convert("L").convert("I").point(lambda v: v * 257)
            elif to == "P":
                img = img.convert("RGB").convert("P", palette=Image.ADAPTIVE)
            elif to:
                img = img.convert(to)
            if spec.get("exif"):
                exif = Image.Exif()
                exif[0x112] = spec["exif"]
                img.save(path, quality=95, exif=exif)
            else:
                img.save(path, quality=95) if spec["kind"] == "jpeg" else img.save(path)
            return path
        if spec["kind"] == "ora":
            stack = [{"layer": {"w": spec["w"], "h": spec["h"], "box": [e["x"], e["y"], min(spec["w"], e["x"] + e["w"]), min(spec["h"], e["y"] + e["h"])], "color": [200, 30 * k, 255 - 60 * k]},
                      "attrs": {"name": e["label"] or "x", "x": 0, "y": 0}} for k, e in enumerate(spec["els"])]
            data = images.ora({"kind": "ora", "w": spec["w"], "h": spec["h"], "stack": stack})
        else:
            body = ""
            for e in spec["els"]:
                lab = ' inkscape:label="%s"' % e["label"] if e["label"] else ""
                if e["shape"] == "ellipse":
                    body += '<ellipse%s cx="%s" cy="%s" rx="%s" ry="%s" style="fill:%s"/>' % (lab, e["x"] + e["w"] / 2, e["y"] + e["h"] / 2, e["w"] / 2, e["h"] / 2, e["fill"])
                elif e["shape"] == "image":
                    data = base64.b64encode(images.bitmap({"kind": "png", "w": 16 * e["w"], "h": 16 * e["h"], "color": [200, 20, 120]})).decode()
                    body += '<image%s x="%s" y="%s" width="%s" height="%s" xlink:href="data:image/png;base64,%s"/>' % (lab, e["x"], e["y"], e["w"], e["h"], data)
                else:
                    r = '<rect%s x="%s" y="%s" width="%s" height="%s" fill="%s"/>' % (lab if e["shape"] == "rect" else "", e["x"], e["y"], e["w"], e["h"], e["fill"])
                    body += r if e["shape"] == "rect" else '<g%s transform="translate(0 1)">%s</g>' % (lab, r)
            data = images.svg_text({"kind": "svg", "w": "%s%s" % (spec["w"], spec["unit"]), "h": "%s%s" % (spec["h"], spec["unit"]), "body": body, "vb": spec["vb"]})
        with open(path, "wb") as f:
            f.write(data)
        return path

    def inkscape(self, cx):
        if getattr(cx, "rasteriser", None) is None:
            cx.rasteriser = Rasteriser()
        return cx.rasteriser

    def run(self, case, cx):
        if case.get("ink"):
            return self.run_ink(case, cx)
        if any(op["op"] == "latex" for op in case["ops"]):
            with stand_ins(cx.dir()):
                return self.run_pages(case, cx)
        return self.run_pages(case, cx)

    def run_pages(self, case, cx):
        import elsie
        from elsie.render.backends import CairoBackend

        folder = cx.dir()
        ops = scene.valid_ops(case["ops"])
        for op in ops:
            if "spec" in op:
                op["_source"] = self.picture(op["spec"], folder, op["id"])
        real = self.inkscape(cx)
        d = case["deck"]

        def deck(backend, name):
            dk = elsie.SlideDeck(d["width"], d["height"], bg_color=d.get("bg_color"), backend=backend, cache_dir=os.path.join(folder, name))
            s = dk.new_slide(view_box=tuple(d["view_box"]) if d.get("view_box") else None, debug_boxes=d.get("debug_boxes", False))
            scene.build(s, ops)
            return dk

        pages = scene.svgs(deck(self.reference(cx, folder, d), "rr"))
        shown = deck(CairoBackend(os.path.join(folder, "cc")), "cc").render(None, export_type="png")
        cx.expect(len(shown) == len(pages), "page-count", lambda: (len(shown), len(pages)))
        # Edges of pictures in pictures cover what is below them as renderers like
        mixed = any(e["shape"] == "image" for op in ops for e in op.get("spec", {}).get("els", ()))
        refs = []
        back = (255, 255, 255, 255)
        for k, p in enumerate(pages):
            t = os.path.join(folder, "ref%d.png" % k)
            real.png(p.encode(), t)
            refs.append(png_of(t, back))
        imgs = [png_of(x, back) for x in shown]
        for k, (a, b) in enumerate(zip(refs, imgs)):
            self.compare(cx, a, b, "png", k, case.get("slack"), mixed)
        if any(len(x.getcolors(100000) or "many") > 1 for x in refs):
            cx.seen(json.dumps([case["deck"], case["ops"]], sort_keys=True))
        for op in ops:
            a = op.get("args") or {}
            cx.count("op_" + (op["spec"]["kind"] if "spec" in op else op["op"]))
            for name in ("rotation", "stroke_dasharray", "rx", "start_arrow", "end_arrow", "z_level", "show", "scale_to_fit"):
                if a.get(name):
                    cx.count(name)
            for name in ("exif", "mode"):
                if op.get("spec", {}).get(name) not in (None, 1):
                    cx.count("bitmap_" + name)
            if a.get("rotation") and a.get("scale_to_fit"):
                cx.count("rotated_fit")
        for name in ("view_box", "bg_color", "debug_boxes"):
            if d.get(name):
                cx.count(name)
        if case["pdf"]:
            out = os.path.join(folder, "out.pdf")
            deck(CairoBackend(os.path.join(folder, "cp")), "cp").render(out)
            subprocess.run(["pdftocairo", "-r", "384", "-png", out, os.path.join(folder, "pp")], check=True)
            pp = sorted(x for x in os.listdir(folder) if x.startswith("pp"))
            cx.expect(len(pp) == len(pages), "pdf-page-count", lambda: (len(pp), len(pages)))
            for k, (p, x) in enumerate(zip(pages, pp)):
                t = os.path.join(folder, "big%d.png" % k)
                real.png(enlarged(p, 4), t)
                a = png_of(t, back).reduce(4)
                self.compare(cx, a, png_of(os.path.join(folder, x), back).reduce(4), "pdf", k, case.get("slack"), mixed)

    def compare(self, cx, a, b, what, k, slack=None, mixed=False):
        cx.expect(a.size == b.size, what + "-size", lambda: (a.size, b.size))
        radius, tol = 1, 128 if mixed else TOL
        if slack:
            # A thin stem may cover one pixel or halves of two
            tol = 150
            # Pango puts letters on whole pixels
            radius = min(math.ceil(slack), 40)
            ia, ib = ink(a), ink(b)
            w, h = a.size
            inner = (radius, radius, w - radius, h - radius)
            # Text over the border of the page is cut
            if max(ia) > 30 and max(ink(a.crop(inner))) > max(ia) - 1 and max(ink(b.crop(inner))) > max(ib) - 1:
                cx.count("ink_pages")
                for x, y in zip(ia, ib):
                    cx.expect(abs(x - y) <= 0.12 * max(x, y) + 25, "%s-text-ink" % what, lambda: "page %d: %s %s" % (k, ia, ib))
            cx.count("text_pages")
        for x, y, n in ((a, b, "extra"), (b, a, "missing")):
            c, box = outliers(x, y, radius, tol, radius)
            cx.expect(c <= (10 if slack else 2), "%s-picture" % what, lambda: "page %d: %d pixels of %s in %s" % (k, c, n, box))
        cx.count("pixels", a.size[0] * a.size[1])
        cx.count(what + "_pages")


def enlarged(svg, n):
    """The page in n times more pixels: both pictures have to be made from the same number of samples."""
    import lxml.etree as et

    root = et.fromstring(svg.encode())
    w, h = float(root.get("width")), float(root.get("height"))
    if root.get("viewBox") is None:
        root.set("viewBox", "0 0 %s %s" % (w, h))
    root.set("width", str(w * n))
    root.set("height", str(h * n))
    return et.tostring(root)


def where(img, test):
    px = img.load()
    p = [(x, y) for x in range(img.width) for y in range(img.height) if test(*px[x, y])]
    return (min(x for x, y in p), min(y for x, y in p), max(x for x, y in p), max(y for x, y in p)) if p else None


def ink(img):
    """Amount of color in whole pixels, by channels."""
    return [sum((255 - v) * n for v, n in enumerate(band.histogram())) / 255 for band in img.split()]


CHECK = C22()
