from vlib import scene, svg, textmodel as tm
from vlib.core import Check, Discard, Violation

from . import gen

LANGS = ["python", "python", "c", "rust", "yaml", "html", "bash", "json", "java", "prolog", "haskell", "make", "diff",
         "ini", "javascript", "sql", "tex", "text", "console", "scala", "css", "go", "lua", "postgresql", "", ""]
PIECES = {
    None: ["if", "x", "y1", " ", " ", "  ", "=", "==", "(", ")", "+", "1", "0x1F", "3.14", '"str"', "'s t'", '"""doc\nmore\n"""',
           "# comment\n", "// c\n", "/* multi\n line */", "\n", "\n", "\n\n", "\n\n\n", "\t", "def f", "class A:\n", "return", "for", "in",
           "- item\n", "key: value\n", "[a, b]", "<b>", "</b>", "&", "é", "日本", "import os", "@deco\n", "None", "true", ";", ":", ",",
           "$ ls -l\n", "foo(X) :- a.\n", "select \"a\" from t", "$VAR", "%", "\\n", "\\section", "^", "*", "    ", "lambda x: x"],
}
THEMES = ["default", "default", "monokai", "friendly", "colorful", "vim"]
ESC = ["§«»", "~‹›", "¤⟦⟧"]
USER = {"u1": {"color": "#aa0001"}, "u2": {"bold": True, "size": 31}, "u3": {"italic": True, "color": "#aa0003", "priority": 1},
        "u4": {"font": "serif", "priority": 2}, "u5": {"color": "#aa0005", "bold": False, "italic": False}}


def lex(language, theme, text):
    """[(start, end, style dict)] by pygments itself; nearest standard ancestor's style"""
    from pygments.lexers import get_lexer_by_name
    from pygments.styles import get_style_by_name
    from pygments.token import STANDARD_TYPES

    style = get_style_by_name(theme)
    out = []
    joined = ""
    for ttype, value in get_lexer_by_name(language).get_tokens(text):
        while ttype not in STANDARD_TYPES:
            ttype = ttype.parent
        s = style.style_for_token(ttype)
        d = {}
        if s["color"]:
            d["color"] = "#" + s["color"]
        if s["bold"]:
            d["bold"] = True
        if s["italic"]:
            d["italic"] = True
        out.append((len(joined), len(joined) + len(value), d, str(ttype)))
        joined += value
    if joined.rstrip("\n") != text.strip("\n"):
        raise Discard("the lexer changes the text")
    return out


class C10(Check):
    id = "C10"
    rule = ("sources assembled from code fragments of many languages (multi-line strings and comments, tabs, blank lines, "
            "markup characters), drawn by code() in 24 languages and 5 themes with every combination of use_styles (random laminar "
            "spans crossing tokens and lines), line_numbers, tabsize and base style; every painted character and its style is "
            "compared with pygments' own token stream combined with the spans by an independent rule. Non-trivial: a highlighted, "
            "styled or numbered listing was compared; distinct by program.")
    assumptions = ["blank lines at the very beginning of a highlighted source may be dropped (pygments strips them)",
                   "sources a pygments lexer itself alters (CR, BOM) are out of scope",
                   "text widths come from a deterministic stand-in for the Inkscape process"]
    quick = (24000, 60)
    thorough = (250000, 750)
    required = ("characters", "merged", "crossing_spans", "numbered", "literal_markup", "multi_line_tokens", "highlighted")

    def gen(self, rng, i, tier):
        text = "".join(rng.choice(PIECES[None]) for _ in range(gen.many(rng, rng.choice([1, 3, 6, 10, 16]), 0.02) * rng.choice([1] * 60 + [12])))
        case = {"lang": rng.choice(LANGS), "text": text, "theme": rng.choice(THEMES), "numbers": rng.random() < 0.35,
                "use": rng.random() < 0.65, "tab": rng.choice([None, 1, 2, 8]), "esc": rng.choice(ESC),
                "style": rng.choice(["code", "code", "tt", {"size": 11, "bold": True, "align": "right"}, {"color": "#0000aa", "priority": 1}]),
                "items": []}
        n = len(text)
        spans = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
            if spans and rng.random() < 0.3:
                a = rng.choice(spans)[0]
                b = max(b, a)
            if b == a:
                continue
            if any(a < c < b < d or c < a < d < b for c, d, _ in spans) or (a, b) in [(c, d) for c, d, _ in spans]:
                continue
            spans.append((a, b, rng.choice(list(USER) + ["#x", "emph"])))
        case["items"] = [list(s) for s in spans]
        return case

    def run(self, case, cx):
        esc, begin, end = case["esc"]
        text = case["text"]
        spans = sorted((s for s in case["items"] if s[1] <= len(text)), key=lambda s: (s[0], -s[1]))
        raw = []
        for i in range(len(text) + 1):
            raw += [end for s in spans if s[1] == i]
            raw += [esc + s[2] + begin for s in spans if s[0] == i]
            raw.append(text[i:i + 1])
        raw = "".join(raw)
        tab = " " * (case["tab"] if case["tab"] is not None else 4)
        kw = {}
        if case["tab"] is not None:
            kw["tabsize"] = case["tab"]
        if case["numbers"]:
            kw["line_numbers"] = True
        if case["use"]:
            kw["use_styles"] = True
        kw["escape_char"] = case["esc"]
        style = case["style"]
        if not isinstance(style, str):
            kw["style"] = scene.mk_style(style)
        elif style != "code":
            kw["style"] = style
        deck = scene.new_deck(cx, pygments_theme=case["theme"])
        styles = {k: dict(v) for k, v in tm.PREDEFINED.items()}
        for n, s in USER.items():
            deck.set_style(n, scene.mk_style(s))
            styles[n] = s
        box = deck.new_slide().box(x=50, y=40)
        box.rect(color="#123456")
        base = tm.compose(styles["default"], styles[style] if isinstance(style, str) else style)
        base.setdefault("priority", 0)

        # --- model
        exp = raw.replace("\t", tab)
        chars = tm.parse(exp, esc, begin, end) if case["use"] else [(c, ()) for c in exp]
        kept = tm.strip_trailing(chars)
        if not kept:
            raise Discard("empty")
        inner = set(kept[-1][1])
        if any(set(sp) - inner for _, sp in chars[len(kept):]):
            raise Discard("inline style around trailing line breaks only")
        if not case["use"] and spans:
            cx.count("literal_markup")
        plain = "".join(c for c, _ in kept)
        lead = len(plain) - len(plain.lstrip("\n"))
        toks = []
        if case["lang"]:
            cx.count("highlighted")
            toks = [(a + lead, b + lead, d, t) for a, b, d, t in lex(case["lang"], case["theme"], plain[lead:])]
        # events: every user span with its extent (trailing line breaks do not count)
        ext = {}
        for k, (c, sp) in enumerate(kept):
            for s in sp:
                ext.setdefault(s, [k, k])
                if c != "\n":
                    ext[s][1] = k + 1
        for s, (a, b) in ext.items():
            ext[s][1] = max(a, b)
        rows = [[]]
        ti = 0
        for k, (c, sp) in enumerate(kept):
            while toks and toks[ti][1] <= k:
                ti += 1
            tok = toks[ti] if toks else None
            if c == "\n":
                rows.append([])
                continue
            if tok and "\n" in plain[tok[0]:tok[1]].strip("\n"):
                cx.count("multi_line_tokens")
            chain = [(ext[s][0], -ext[s][1], 0, j, styles.get(s.name)) for j, s in enumerate(sp)]
            if tok:
                tend = tok[1]
                while tend > tok[0] and plain[tend - 1:tend] in ("\n", ""):
                    tend -= 1
                chain.append((tok[0], -tend, 1, 0, tok[2]))
                if sp:
                    cx.count("merged")
                    for s in sp:
                        a, b = ext[s]
                        if a < tok[0] < b < tend or tok[0] < a < tend < b:
                            cx.count("crossing_spans")
            chain.sort(key=lambda e: e[:4])
            cur, prio = dict(base), base.get("priority") or 0
            for e in chain:
                st = e[4]
                if st is None:
                    continue
                p = st.get("priority") or 0
                if prio > p:
                    continue
                prio = p
                cur = tm.compose(cur, st)
            rows[-1].append((c, cur))
        # --- real code
        box.code(case["lang"], raw, **kw)
        doc = svg.Doc(scene.svgs(deck)[0])
        t = [d for d in doc.draws if d.tag == "text"]
        cx.expect(len(t) == 1, "text-count", len(t))
        rect = [d for d in doc.draws if d.tag == "rect"][0].rect()
        obs, _, _ = tm.place_lines(t[0], base, cx)
        # leading blank lines
        if lead and case["lang"]:
            got = [obs[k].text if k in obs else "" for k in range(max(obs) + 1)]
            n_all = round(rect[3] / (base["size"] * base["line_spacing"]))
            if n_all == len(rows) - lead and not case["use"]:
                rows = rows[lead:]
                cx.count("leading_lines_dropped")
        if case["numbers"]:
            cx.count("numbered")
        nd = len(str(len(rows)))
        width = 0.0
        for k, row in enumerate(rows):
            got = obs[k].chars if k in obs else []
            pre = ("%0*d " % (nd, k + 1)) if case["numbers"] else ""
            want = pre + "".join(c for c, _ in row)
            gt = "".join(c.ch for c in got)
            cx.expect(gt == want, "code-text", lambda: "line %d: painted %r expected %r in %r" % (k, gt, want, raw))
            for g in got[:len(pre)]:
                # the number is drawn in code_lineno (gray) unless a style of higher priority encloses it
                if g.fill != "gray" and case["style"] in ("code", "tt") and not any(s[2] in ("u3", "u4") for s in spans):
                    cx.fail("lineno-style", "line %d %r: %r" % (k, g.ch, g.key()))
                cx.count("lineno_chars")
            for g, (c, e) in zip(got[len(pre):], row):
                key = (c, e.get("font"), float(e["size"]), e.get("color"), 1.0 if e.get("opacity") is None else float(e["opacity"]),
                       bool(e.get("bold")), bool(e.get("italic")))
                cx.count("characters")
                if g.key() != key:
                    cx.fail("code-style", "line %d %r: %r expected %r" % (k, want, g.key(), key))
            w = sum(tm.metrics.advance(c.ch, c.font, c.size, c.bold, c.italic) for c in got)
            width = max(width, w)
            cx.ok(n=len(row))
        for k in obs:
            cx.expect(k < len(rows) or not obs[k].chars, "extra-line", k)
        cx.near(rect[2], width, "measured-width", raw, tol=1e-5)
        cx.near(rect[3], len(rows) * base["size"] * base["line_spacing"], "text-height", raw)
        tm.check_position(t[0], rect, rows, base, cx)
        if not (case["lang"] or spans or case["numbers"]):
            cx.case_checks = 0


CHECK = C10()
