from vlib import scene, svg, textmodel as tm
from vlib.core import Check, Discard, Violation

from . import gen

from .gen import WORDS

NUMERIC = [None, None, None, "normal", "ordinal", "slashed-zero", "lining-nums", "oldstyle-nums", "proportional-nums", "tabular-nums", "diagonal-fractions", "stacked-fractions"]
STYLE_NAMES = ["a", "b", "c", "long name", "tt", "emph", "alert", "#dummy", "#def", "x-1", "ž"]
ESCAPES = [None, None, None, "!", "@()", "\\<>", "~[]", "|{}"]


def rstyle(rng):
    s = {}
    if rng.random() < 0.4:
        s["color"] = rng.choice(["red", "blue", "#00ff00", "rgb(1,2,3)", "black"])
    if rng.random() < 0.35:
        s["bold"] = rng.random() < 0.6
    if rng.random() < 0.35:
        s["italic"] = rng.random() < 0.6
    if rng.random() < 0.3:
        s["size"] = rng.choice([8, 12, 30, 17.5])
    if rng.random() < 0.3:
        s["font"] = rng.choice(["serif", "monospace", "Fira Sans"])
    if rng.random() < 0.2:
        s["opacity"] = rng.choice([0, 0.25, 0.5, 1.0])
    if rng.random() < 0.2:
        s["variant_numeric"] = rng.choice(NUMERIC[3:])
    if rng.random() < 0.15:
        s["line_spacing"] = rng.choice([0.5, 2.0])
    if rng.random() < 0.15:
        s["align"] = rng.choice(["left", "middle", "right"])
    if rng.random() < 0.35:
        s["priority"] = rng.choice([-2, -1, 1, 2, 3, 1.5])
    return s


def rtext(rng, names, esc, begin, end, depth=0, limit=None):
    out = []
    if limit is None:
        limit = 12 if rng.random() < 0.03 else 4
    for _ in range(rng.choice([1, 2, 2, 3]) if depth else gen.many(rng, rng.choice([1, 2, 2, 3]))):
        r = rng.random()
        if r < 0.45 or depth > limit:
            out.append(rng.choice(WORDS))
        elif r < 0.55:
            out.append("\n" * rng.choice([1, 1, 2]))
        elif r < 0.6 and esc not in "\\":
            out.append(esc * 2)
        elif r < 0.64 and depth == 0:
            out.append(end)  # unbalanced end characters are plain text outside of spans
        elif r < 0.67:
            out.append(begin)
        elif r < 0.7:
            out.append(esc + rng.choice(names) + begin + end + "w")
        else:
            out.append(esc + rng.choice(names) + begin + rtext(rng, names, esc, begin, end, depth + 1, limit) + end)
    return "".join(out)


class C08(Check):
    id = "C08"
    rule = ("texts with random nestings of inline styles (over line breaks, empty spans, doubled escape characters, six escape "
            "syntaxes), style tables with random attributes and priorities defined on deck, slide and box, base styles named or "
            "given; every painted character and its effective font/size/color/weight/slant/opacity/numeric variant is compared "
            "with an independent model, and the width the box got with the model's measurement of the styled text. Ill-formed "
            "texts must be rejected. Non-trivial: at least one span was compared; distinct by program.")
    assumptions = ["text widths come from a deterministic stand-in for the Inkscape process",
                   "empty inline styles after trailing line breaks are out of scope"]
    quick = (36000, 60)
    thorough = (400000, 700)
    required = ("characters", "spans", "multi_line_spans", "suppressed_by_priority", "rejected_unknown",
                "rejected_unclosed", "dummy_spans")

    def gen(self, rng, i, tier):
        esc = rng.choice(ESCAPES)
        e, b, en = {None: "~{}"}.get(esc, esc if esc and len(esc) == 3 else (esc or "~") + "{}")
        styles = {}
        for n in ["a", "b", "c", "long name", "x-1", "ž"]:
            styles[n] = rstyle(rng)
        if rng.random() < 0.7:
            styles["#def"] = rstyle(rng)
        if rng.random() < 0.3:
            styles["emph"] = rstyle(rng)
        names = STYLE_NAMES
        case = {"styles": [[n, s, rng.choice(["deck", "slide", "box"])] for n, s in styles.items()], "esc": esc,
                "prefix": rng.choice(["", "", "pre\n", "1 "]),
                "text": rtext(rng, names, e, b, en),
                "base": rng.choice(["default", "default", "a", "emph", "tt"]) if rng.random() < 0.5 else rstyle(rng),
                "numeric": rng.random() < 0.04}
        if isinstance(case["base"], dict) and case["base"].get("priority", 0) > 1:
            if rng.random() < 0.5:
                del case["base"]["priority"]
        r = rng.random()
        if r < 0.03:
            case["bad"] = "unknown"
            case["text"] += e + "nosuchstyle" + b + "x" + en
        elif r < 0.06:
            case["bad"] = "unclosed"
            case["text"] = e + "a" + b + case["text"].replace(en, "")
        return case

    def run(self, case, cx):
        import elsie

        esc = case["esc"] or "~"
        syn = esc if len(esc) == 3 else esc + "{}"
        deck = scene.new_deck(cx)
        styles = {k: dict(v) for k, v in tm.PREDEFINED.items()}
        for n, s, where in case["styles"]:
            if where == "deck":
                deck.set_style(n, scene.mk_style(s))
            styles[n] = s
        slide = deck.new_slide()
        for n, s, where in case["styles"]:
            if where == "slide":
                slide.set_style(n, scene.mk_style(s))
        box = slide.box(x=100, y=50)
        for n, s, where in case["styles"]:
            if where == "box":
                box.set_style(n, scene.mk_style(s))
        box.rect(color="#123456")
        text = case["prefix"] + case["text"]
        base = case["base"]
        kw = {"escape_char": case["esc"]} if case["esc"] else {}
        bstyle = scene.mk_style(base) if isinstance(base, dict) else base
        bad = case.get("bad")
        if bad:
            try:
                chars = tm.parse(text, *syn)
                if bad == "unclosed":
                    raise Discard("well-formed")
            except Discard:
                if bad == "unknown":
                    raise
            try:
                box.text(text, bstyle, **kw)
                scene.svgs(deck)
            except Exception as e:
                cx.ok()
                cx.count("rejected_" + bad)
                return
            cx.fail("accepted-" + bad, text)
        chars = tm.parse(text, *syn)
        full = tm.compose(styles["default"], styles[base] if isinstance(base, str) else base)
        kept = tm.strip_trailing(chars)
        inner = set(kept[-1][1]) if kept else set()
        if any(set(sp) - inner for _, sp in chars[len(kept):]):
            raise Discard("inline style around trailing line breaks only")
        lines = tm.lines_of(kept)
        for c, sp in chars:
            tm.effective(full, sp, styles)
        box.text(text, bstyle, **kw)
        doc = svg.Doc(scene.svgs(deck)[0])
        t = [d for d in doc.draws if d.tag == "text"]
        cx.expect(len(t) == 1, "text-count", len(t))
        rect = [d for d in doc.draws if d.tag == "rect"][0].rect()
        tm.compare(t[0], lines, full, styles, cx)
        w, h = tm.text_size(lines, full, styles)
        cx.near(rect[2], w, "measured-width", text, tol=1e-5)
        cx.near(rect[3], h, "text-height", text)
        tm.check_position(t[0], rect, lines, full, cx)
        self.numeric(case, cx, t[0], lines, full, styles)
        spans = set()
        for ln_no, ln in enumerate(lines):
            for c, sp in ln:
                prio = full.get("priority") or 0
                for s in sp:
                    spans.add((s.n, s.name))
                    st = styles.get(s.name)
                    if st is None:
                        cx.count("dummy_spans")
                    elif prio > (st.get("priority") or 0):
                        cx.count("suppressed_by_priority")
                    else:
                        prio = st.get("priority") or 0
        cx.count("spans", len(spans))
        if len(lines) > 1 and spans:
            cx.count("multi_line_spans")
        if not spans:
            cx.case_checks = 0

    def numeric(self, case, cx, draw, lines, full, styles):
        known = None
        rows, _, _ = tm.place_lines(draw, full, cx)
        for k, ln in enumerate(lines):
            got = rows[k].chars if k in rows else []
            for (c, sp), g in zip(ln, got):
                e = tm.effective(full, sp, styles).get("variant_numeric")
                norm = lambda v: None if v == "normal" else v
                if norm(g.numeric) == norm(e):
                    cx.count("numeric_checked")
                    continue
                inline = tm.effective({"size": 1, "priority": full.get("priority")}, sp, styles)
                if k > 0 and g.numeric is None and inline.get("variant_numeric") is None:
                    known = (k, c, e)
                    continue
                cx.fail("numeric-variant", "line %d %r: %r expected %r" % (k, c, g.numeric, e))
        if known and case["numeric"]:
            raise Violation("base-numeric-variant-lost", "line %d: %r is drawn without %r" % known)


CHECK = C08()
