"""Semantic reader of the SVG documents elsie produces: what is painted, in which
order, where and how - independent of how the markup spells it."""
import math
import re
import xml.etree.ElementTree as ET

from .core import Violation

SVG = "{http://www.w3.org/2000/svg}"
XLINK = "{http://www.w3.org/1999/xlink}"
XML_SPACE = "{http://www.w3.org/XML/1998/namespace}space"

SHAPES = ("rect", "ellipse", "circle", "polygon", "polyline", "path", "line", "image", "text", "use")


def css(s):
    out = {}
    for part in (s or "").split(";"):
        if ":" in part:
            k, v = part.split(":", 1)
            out[k.strip()] = v.strip()
    return out


def fnum(v):
    return float(re.match(r"\s*([-+]?[0-9.]+(?:[eE][-+]?\d+)?)", v).group(1))


def mat_mul(a, b):
    return (
        a[0] * b[0] + a[2] * b[1],
        a[1] * b[0] + a[3] * b[1],
        a[0] * b[2] + a[2] * b[3],
        a[1] * b[2] + a[3] * b[3],
        a[0] * b[4] + a[2] * b[5] + a[4],
        a[1] * b[4] + a[3] * b[5] + a[5],
    )


IDENT = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


def parse_transform(s):
    m = IDENT
    for name, args in re.findall(r"(\w+)\s*\(([^)]*)\)", s or ""):
        v = [float(x) for x in re.split(r"[\s,]+", args.strip()) if x]
        if name == "translate":
            t = (1, 0, 0, 1, v[0], v[1] if len(v) > 1 else 0)
        elif name == "scale":
            t = (v[0], 0, 0, v[1] if len(v) > 1 else v[0], 0, 0)
        elif name == "rotate":
            a = math.radians(v[0])
            c, sn = math.cos(a), math.sin(a)
            t = (c, sn, -sn, c, 0, 0)
            if len(v) == 3:
                t = mat_mul((1, 0, 0, 1, v[1], v[2]), mat_mul(t, (1, 0, 0, 1, -v[1], -v[2])))
        elif name == "matrix":
            t = tuple(v)
        else:
            raise Violation("svg-transform", "unknown transform %r" % name)
        m = mat_mul(m, t)
    return m


def apply(m, x, y):
    return (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5])


class Char:
    __slots__ = ("ch", "font", "size", "fill", "opacity", "bold", "italic", "numeric", "ids")

    def __init__(self, ch, st, ids):
        self.ch = ch
        self.font = st["font"]
        self.size = st["size"]
        self.fill = st["fill"]
        self.opacity = st["opacity"]
        self.bold = st["bold"]
        self.italic = st["italic"]
        self.numeric = st["numeric"]
        self.ids = ids

    def key(self):
        return (self.ch, self.font, self.size, self.fill, self.opacity, self.bold, self.italic)


class Line:
    def __init__(self, x, y):
        self.x = x
        self.y = y
        self.chars = []

    @property
    def text(self):
        return "".join(c.ch for c in self.chars)


def derive(st, e):
    st = dict(st)
    a = {}
    for k in ("font-family", "font-size", "font-weight", "font-style", "fill",
              "fill-opacity", "opacity", "font-variant-numeric", XML_SPACE):
        if e.get(k) is not None:
            a[k] = e.get(k)
    for k, v in css(e.get("style")).items():
        a[k] = v
    if "font-family" in a:
        st["font"] = a["font-family"].strip("\"'") if a["font-family"][:1] in "\"'" else a["font-family"]
    if "font-size" in a:
        st["size"] = fnum(a["font-size"])
    if "fill" in a:
        st["fill"] = a["fill"]
    if "fill-opacity" in a:
        st["opacity"] = fnum(a["fill-opacity"])
    if "font-weight" in a:
        st["bold"] = a["font-weight"] in ("bold", "700", "bolder")
    if "font-style" in a:
        st["italic"] = a["font-style"] in ("italic", "oblique")
    if "font-variant-numeric" in a:
        st["numeric"] = a["font-variant-numeric"]
    if XML_SPACE in a:
        st["preserve"] = a[XML_SPACE] == "preserve"
    return st


INITIAL = {"font": None, "size": 16.0, "fill": "black", "opacity": 1.0, "bold": False,
           "italic": False, "numeric": None, "preserve": False}


def read_text(text):
    """-> list of Line"""
    base = derive(INITIAL, text)
    x = fnum(text.get("x", "0"))
    y = fnum(text.get("y", "0"))
    lines = [Line(x, y)]

    def emit(s, st, ids):
        if not s:
            return
        for ch in s:
            if ch == "\u00a0":
                lines[-1].chars.append(Char(" ", st, ids))
                continue
            if ch in "\n\r" and not st["preserve"]:
                continue
            if ch in " \t\n\r":
                if not st["preserve"]:
                    prev = lines[-1].chars[-1] if lines[-1].chars else None
                    if prev is None or prev.ch == "\ue000":
                        continue
                    c = Char("\ue000", st, ids)
                    lines[-1].chars.append(c)
                    continue
                ch = " "
            lines[-1].chars.append(Char(ch, st, ids))

    def walk(e, st, ids):
        if e is not text:
            st = derive(st, e)
            if e.get("id"):
                ids = ids | {e.get("id")}
            # without a character there is nothing to place (SVG 1.1, 10.5)
            if (e.get("x") is not None or e.get("y") is not None or e.get("dy") is not None) and any(e.itertext()):
                nx = fnum(e.get("x")) if e.get("x") is not None else lines[-1].x
                ny = fnum(e.get("y")) if e.get("y") is not None else lines[-1].y
                ny += fnum(e.get("dy")) if e.get("dy") is not None else 0
                if ny != lines[-1].y or e.get("x") is not None:
                    lines.append(Line(nx, ny))
        emit(e.text, st, ids)
        for c in e:
            if c.tag not in (SVG + "tspan", SVG + "textPath", SVG + "a"):
                raise Violation("svg-text-structure", "unexpected %s inside text" % c.tag)
            walk(c, st, ids)
            emit(c.tail, st, ids)

    walk(text, base, frozenset())
    for ln in lines:
        while ln.chars and ln.chars[-1].ch == "\ue000":
            ln.chars.pop()
        for c in ln.chars:
            if c.ch == "\ue000":
                c.ch = " "
    return lines


class Draw:
    def __init__(self, tag, e, matrix, paint, path):
        self.tag = tag
        self.e = e
        self.matrix = matrix
        self.paint = paint
        self.path = path

    def f(self, name, default=0.0):
        v = self.e.get(name)
        return default if v is None else fnum(v)

    @property
    def fill(self):
        return self.paint.get("fill")

    @property
    def stroke(self):
        return self.paint.get("stroke")

    def points(self):
        v = [float(x) for x in re.split(r"[\s,]+", (self.e.get("points") or "").strip()) if x]
        return list(zip(v[::2], v[1::2]))

    def commands(self):
        toks = re.findall(r"[A-Za-z]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", self.e.get("d") or "")
        out = []
        for t in toks:
            if re.match(r"[A-Za-z]$", t):
                out.append((t, []))
            else:
                out[-1][1].append(float(t))
        return out

    def lines(self):
        return read_text(self.e)

    def rect(self):
        return (self.f("x"), self.f("y"), self.f("width"), self.f("height"))

    def href(self):
        return self.e.get(XLINK + "href") or self.e.get("href")


PAINT = ("fill", "stroke", "stroke-width", "stroke-dasharray", "fill-opacity", "opacity",
         "stroke-opacity", "display", "visibility")


def parse(text):
    try:
        if isinstance(text, str):
            text = text.encode("utf-8")
        return ET.fromstring(text)
    except ET.ParseError as e:
        raise Violation("malformed-svg", "%s in %r" % (e, context(text, e)))


def context(text, e):
    line, col = getattr(e, "position", (1, 0))
    lines = text.split(b"\n")
    s = lines[line - 1] if line - 1 < len(lines) else b""
    return s[max(0, col - 60):col + 40]


class Doc:
    def __init__(self, text, root=None):
        self.root = parse(text) if root is None else root
        if self.root.tag != SVG + "svg":
            raise Violation("svg-root", "root is %r" % self.root.tag)
        r = self.root
        self.width = fnum(r.get("width")) if r.get("width") else None
        self.height = fnum(r.get("height")) if r.get("height") else None
        self.view_box = None
        if r.get("viewBox"):
            self.view_box = tuple(float(v) for v in re.split(r"[\s,]+", r.get("viewBox").strip()))
        self.draws = []
        self._walk(r, IDENT, {}, ())

    def _walk(self, e, m, paint, path):
        for c in e:
            if not isinstance(c.tag, str):
                continue
            tag = c.tag.split("}")[-1]
            if tag in ("defs", "metadata", "namedview", "title", "desc", "style", "clipPath",
                       "mask", "linearGradient", "radialGradient"):
                continue
            cm = mat_mul(m, parse_transform(c.get("transform"))) if c.get("transform") else m
            p = {}
            for k in ("fill", "stroke", "stroke-width", "stroke-dasharray"):
                if k in paint:
                    p[k] = paint[k]
            op = paint.get("opacity*", 1.0)
            for k in PAINT:
                if c.get(k) is not None:
                    p[k] = c.get(k)
            p.update({k: v for k, v in css(c.get("style")).items()})
            if "opacity" in p:
                op *= fnum(p["opacity"])
            p["opacity*"] = op
            if tag in SHAPES:
                self.draws.append(Draw(tag, c, cm, p, path))
            elif tag in ("g", "svg", "a"):
                if tag == "svg":
                    if c.get("x") or c.get("y"):
                        cm = mat_mul(cm, (1, 0, 0, 1, fnum(c.get("x") or "0"), fnum(c.get("y") or "0")))
                    if c.get("viewBox"):
                        cm = mat_mul(cm, viewbox_matrix(c))
                self._walk(c, cm, p, path + (c,))
            else:
                raise Violation("svg-unknown-element", tag)

    def by_color(self, color):
        """draws whose fill or stroke is `color`"""
        return [d for d in self.draws if d.fill == color or d.stroke == color]


def viewbox_matrix(e):
    vb = [float(v) for v in re.split(r"[\s,]+", e.get("viewBox").strip())]
    w = fnum(e.get("width")) if e.get("width") else vb[2]
    h = fnum(e.get("height")) if e.get("height") else vb[3]
    s = min(w / vb[2], h / vb[3])
    return (s, 0, 0, s, (w - vb[2] * s) / 2 - vb[0] * s, (h - vb[3] * s) / 2 - vb[1] * s)
