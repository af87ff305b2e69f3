"""Reference model of inline-styled texts: which characters, in which lines, with
which effective style."""
from . import metrics
from .core import Discard, Violation

ATTRS = ("font", "size", "align", "line_spacing", "color", "bold", "italic", "variant_numeric", "opacity")

PREDEFINED = {
    "default": {"font": "sans-serif", "color": "black", "size": 28, "line_spacing": 1.20,
                "align": "middle", "variant_numeric": "lining-nums"},
    "tt": {"font": "monospace"},
    "emph": {"italic": True},
    "alert": {"bold": True, "color": "red"},
    "code": {"font": "monospace", "align": "left", "color": "#222", "line_spacing": 1.20, "size": 20},
    "code_lineno": {"color": "gray"},
}


def compose(a, b):
    r = dict(a)
    for k, v in b.items():
        if v is not None:
            r[k] = v
    return r


class Span:
    __slots__ = ("name", "n")

    def __init__(self, name, n):
        self.name, self.n = name, n


def parse(text, esc="~", begin="{", end="}"):
    """-> list of (char, tuple of Span); raises Discard on malformed input"""
    out = []
    stack = []
    n = 0
    i = 0
    while i < len(text):
        c = text[i]
        if esc is not None and c == esc:
            if text[i + 1:i + 2] == esc:
                out.append((c, tuple(stack)))
                i += 2
                continue
            j = text.find(begin, i + 1)
            if j < 0:
                raise Discard("malformed inline style")
            stack.append(Span(text[i + 1:j], n))
            n += 1
            i = j + 1
        elif c == end and stack:
            stack.pop()
            i += 1
        else:
            out.append((c, tuple(stack)))
            i += 1
    if stack:
        raise Discard("unclosed inline style")
    return out


def strip_trailing(chars):
    while chars and chars[-1][0] == "\n":
        chars = chars[:-1]
    return chars


def lines_of(chars):
    lines = [[]]
    for c, st in chars:
        if c == "\n":
            lines.append([])
        else:
            lines[-1].append((c, st))
    return lines


def effective(base, spans, styles):
    """effective attributes of a character; base: full style dict"""
    cur = dict(base)
    prio = base.get("priority") or 0
    for sp in spans:
        name = sp.name if isinstance(sp, Span) else sp
        s = styles.get(name)
        if s is None:
            if name.startswith("#"):
                continue
            raise Discard("unknown style " + name)
        p = s.get("priority") or 0
        if prio > p:
            continue
        prio = p
        cur = compose(cur, s)
    return cur


def char_width(ch, st):
    return metrics.advance(ch, st.get("font"), st["size"], bool(st.get("bold")), bool(st.get("italic")))


def line_width(line, base, styles):
    return sum(char_width(c, effective(base, sp, styles)) for c, sp in line)


def text_size(lines, base, styles):
    w = max(line_width(ln, base, styles) for ln in lines)
    return w, len(lines) * base["size"] * base["line_spacing"]


def expected_lines(lines, base, styles, numeric=False):
    out = []
    for ln in lines:
        row = []
        for c, sp in ln:
            e = effective(base, sp, styles)
            key = (c, e.get("font"), float(e["size"]), e.get("color"),
                   1.0 if e.get("opacity") is None else float(e["opacity"]),
                   bool(e.get("bold")), bool(e.get("italic")))
            if numeric:
                key = key + (e.get("variant_numeric"),)
            row.append(key)
        out.append(row)
    return out


def observed_lines(draw, numeric=False):
    """Lines of an SVG text as rows of character keys; consecutive lines separated by
    k line heights are padded with empty rows by the caller via positions."""
    return [[c.key() + ((c.numeric,) if numeric else ()) for c in ln.chars] for ln in draw.lines()]


def place_lines(draw, base, cx, where=""):
    """Map observed lines to row numbers by their y offsets -> {row: Line}, x, y0"""
    lns = draw.lines()
    lh = base["size"] * base["line_spacing"]
    y0 = lns[0].y
    rows = {}
    for ln in lns:
        if lh == 0:
            raise Discard("zero line height")
        r = (ln.y - y0) / lh
        k = round(r)
        if abs(r - k) > 1e-6:
            cx.fail("line-spacing", "%s line at y=%r, first %r, line height %r" % (where, ln.y, y0, lh))
        if k in rows:
            if rows[k].chars and ln.chars:
                cx.fail("lines-overlap", "%s two lines at row %d" % (where, k))
            if rows[k].chars:
                continue
        rows[k] = ln
        if abs(ln.x - lns[0].x) > 1e-9:
            cx.fail("line-x", "%s line starts at x=%r, first at %r" % (where, ln.x, lns[0].x))
    return rows, lns[0].x, y0


def compare(draw, lines, base, styles, cx, numeric=False, where=""):
    """Full comparison of an SVG text with the model (content, styles, spacing)."""
    rows, x, y0 = place_lines(draw, base, cx, where)
    want = expected_lines(lines, base, styles, numeric)
    for k, w in enumerate(want):
        ln = rows.get(k)
        got = [c.key() + ((c.numeric,) if numeric else ()) for c in ln.chars] if ln else []
        gt, wt = "".join(c[0] for c in got), "".join(c[0] for c in w)
        cx.expect(gt == wt, "text-content", lambda: "%s line %d: painted %r expected %r" % (where, k, gt, wt))
        cx.count("characters", len(w))
        for g, e in zip(got, w):
            if g != e:
                if numeric and g[:-1] == e[:-1]:
                    cx.fail("numeric-variant", "%s line %d: %r expected %r" % (where, k, g, e))
                cx.fail("char-style", "%s line %d %r: %r expected %r" % (where, k, wt, g, e))
        cx.ok(n=len(w))
    for k, ln in rows.items():
        if k >= len(want) or k < 0:
            cx.expect(not ln.chars, "extra-line", lambda: "%s row %d: %r" % (where, k, ln.text))
    return x, y0


def anchor_x(rect, align):
    return rect[0] + rect[2] * {"left": 0.0, "middle": 0.5, "right": 1.0}[align]


ANCHOR = {"left": "start", "middle": "middle", "right": "end"}


def check_position(draw, rect, lines, base, cx, where=""):
    """x / anchor by alignment and vertical centring in rect (unscaled text)"""
    rows = draw.lines()
    lh = base["size"] * base["line_spacing"]
    cx.expect(draw.e.get("text-anchor") == ANCHOR[base["align"]], "text-anchor",
              "%s %r" % (where, draw.e.get("text-anchor")))
    cx.near(rows[0].x, anchor_x(rect, base["align"]), "text-x", where)
    top = rect[1] + (rect[3] - lh * len(lines)) / 2
    cx.near(rows[0].y, top + base["size"], "text-y", where)
