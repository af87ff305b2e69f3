import contextlib
import io

from vlib import scene, svg, textmodel
from vlib.core import Check, Discard

from . import gen

WORDS = ["a", "bc", "def", "Word", "\u00e9t\u00e9", "x1", "q9z", "\u65e5\u672c", "i"]
RAW = ["a-b", "x=1", "(y)", "50%", "a,b", "f(x);", "}", "{", "a}b", "it's", "\"q\"", "a: b", "c.", "$5", "snake_case", "a|b", "x+y", "@me", "a#1"]
# no backtick: marko 1.2 takes two escaped backticks inside of emphasis for a code span
LITERALS = "\\*_{}[]()#+-.!<>|~\"$%&/:;=?@^'"
ENTITIES = {"&amp;": "&", "&lt;": "<", "&gt;": ">", "&copy;": "\u00a9", "&#65;": "A", "&#x42;": "B", "&eacute;": "\u00e9", "&quot;": '"', "&unknown;": "&unknown;", "&nbsp;": " ", "&emsp;": "\u2003"}
MD = {"em": "md-italic", "st": "md-bold", "ln": "md-link", "auto": "md-link"}
DEFAULTS = {"md-paragraph": {"align": "left"}, "md-bold": {"align": "left", "bold": True}, "md-italic": {"align": "left", "italic": True},
            "md-link": {"align": "left", "color": "#0EBFE9"}, "md-blockquote": {"align": "left", "color": "#A9A9A9"}}
for level in range(6):
    DEFAULTS["md-h%d" % (level + 1)] = {"align": "left", "size": 40 - 2 * level}


class Gen:
    def __init__(self, rng, esc):
        self.rng = rng
        self.esc = esc
        self.refs = 0

    def word(self):
        return ["t", self.rng.choice(WORDS)]

    def piece(self, depth, inside, plain=False):
        rng = self.rng
        r = rng.random()
        if r < 0.4 or (plain and r < 0.6):
            return self.word()
        if r < 0.5:
            w = rng.choice(RAW)
            if any(c in w for c in self.esc[:1]) or ("sty" in inside and any(c in w for c in (self.esc[1:] or "{}"))):
                return self.word()
            return ["t", w]
        if r < 0.58:
            return ["lit", rng.choice(LITERALS)]
        if r < 0.62:
            return ["ent", rng.choice(sorted(ENTITIES))]
        if r < 0.65:
            return ["esc"]
        if r < 0.67 and "ln" not in inside:
            return ["auto", rng.choice(["http://x.cz/a", "https://e.org/~me?a=1", "mailto:a@b.c", "a@b.cz"])]
        if depth > 2:
            return self.word()
        if r < 0.76:
            k = rng.choice([k for k in ("em", "st") if k not in inside] or ["x"])
            if k == "x":
                return self.word()
            form = rng.choice(["*", "_"])
            if inside and inside[-1][:2] in ("em", "st"):
                form = "_" if inside[-1].endswith("*") else "*"
            return [k, self.inline(depth + 1, inside + (k, k + form)), form]
        if r < 0.82 and "ln" not in inside:
            self.refs += 1
            return ["ln", self.inline(depth + 1, inside + ("ln",)), rng.choice(["(u)", "(http://a.b 'x \"y')", "[r%d]" % self.refs, "(<a b>)"])]
        if r < 0.92 and "sty" not in inside or r < 0.85:
            return ["sty", rng.choice(["tt", "emph", "alert", "cust", "#box", "my_st-1"]), self.inline(depth + 1, inside + ("sty",))]
        return self.word()

    def inline(self, depth=0, inside=(), single=False):
        rng = self.rng
        if depth == 0:
            self.single = single
        single = self.single
        out = [self.word()]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            out.append(self.sep(single))
            out.append(self.piece(depth, inside))
        if len(out) > 1:
            out += [self.sep(single), self.word()]
        if depth == 0 and rng.random() < 0.3:
            # a line may start with something else
            p = self.piece(0, ())
            if p[0] not in ("t",) and p != ["ent", "&#65;"]:
                out = [p, ["sp"]] + out
        return out

    def sep(self, single):
        r = self.rng.random()
        if single or r < 0.85:
            return ["sp"]
        return ["br", self.rng.choice(["\n", "\n", "  \n", "\\\n"])]

    def blocks(self, depth, n, where=""):
        rng = self.rng
        out = []
        for _ in range(n):
            r = rng.random()
            if r < 0.45:
                b = {"b": "para", "in": self.inline()}
            elif r < 0.6 and where != "item":
                b = {"b": "head", "level": rng.randint(1, 6), "in": self.inline(single=True), "form": rng.choice(["atx", "atx", "closed", "setext"])}
                if b["form"] == "setext":
                    b["level"] = rng.randint(1, 2)
            elif r < 0.72 and depth < 3:
                b = {"b": "quote", "c": self.blocks(depth + 1, rng.randint(1, 2), "quote")}
            elif r < 0.82:
                b = {"b": "code", "lang": rng.choice(["", "python", "c", "python"]), "fence": rng.choice(["```", "~~~", "````"]), "extra": rng.random() < 0.2,
                     "text": rng.choice(["x", "def f(x):\n    return {x: '~tt{1}'}", "a\n\n b", "# no *head*\n- no list\n> q", "int main() {\n  return \"a\\n\"; }", "  lead & <x>", "a }} ~~ b", "a\tb\n  c d\te"])}
            elif depth < 3 and not (out and out[-1]["b"] == "list"):
                b = self.list(depth)
            else:
                b = {"b": "para", "in": self.inline()}
            out.append(b)
        if where == "item":
            # sublists stay behind, see the known finding
            last = [b for b in out if b["b"] == "list"]
            out = [b for b in out if b["b"] != "list"] + last[:1]
        return out

    def list(self, depth):
        rng = self.rng
        ordered = rng.random() < 0.5
        items = []
        for _ in range(gen.many(rng, rng.randint(1, 3), 0.02)):
            items.append(self.blocks(depth + 1, rng.choice([1, 1, 1, 2]), "item"))
        return {"b": "list", "ordered": ordered, "start": rng.choice([1, 1, 1, 2, 7, 98, 0 if not depth else 3]), "bullet": rng.choice("-*"), "items": items, "loose": rng.random() < 0.3,
                "same": rng.random() < 0.3}


def md_inline(parts, esc, refs):
    out = ""
    b, e = (esc[1], esc[2]) if len(esc) == 3 else ("{", "}")
    for p in parts:
        k = p[0]
        if k == "t":
            out += p[1]
        elif k == "sp":
            out += " "
        elif k == "br":
            out += p[1]
        elif k == "lit":
            out += "\\" + p[1]
        elif k == "ent":
            out += p[1]
        elif k == "esc":
            out += esc[0] * 2
        elif k == "auto":
            out += "<%s>" % p[1]
        elif k in ("em", "st"):
            m = p[2] * (1 if k == "em" else 2)
            out += m + md_inline(p[1], esc, refs) + m
        elif k == "ln":
            out += "[%s]%s" % (md_inline(p[1], esc, refs), p[2])
            if p[2].startswith("["):
                refs.append(p[2])
        elif k == "sty":
            out += esc[0] + p[1] + b + md_inline(p[2], esc, refs) + e
    return out


def chars(parts, esc, spans=()):
    out = []
    for p in parts:
        k = p[0]
        if k in ("t", "lit", "auto"):
            out += [(c, spans + ((MD["auto"],) if k == "auto" else ())) for c in p[1]]
        elif k == "sp":
            out.append((" ", spans))
        elif k == "br":
            out.append(("\n", spans))
        elif k == "ent":
            out += [(c, spans) for c in ENTITIES[p[1]]]
        elif k == "esc":
            out.append((esc[0], spans))
        elif k in ("em", "st", "ln"):
            out += chars(p[1], esc, spans + (MD[k],))
        elif k == "sty":
            out += chars(p[2], esc, spans + (p[1],))
    return out


def md_blocks(blocks, esc, refs, tight=False):
    lines = []
    for i, b in enumerate(blocks):
        if i and not (tight and b["b"] == "list" and (not b["ordered"] or b["start"] == 1) and blocks[i - 1]["b"] == "para"):
            lines.append("")
        k = b["b"]
        if k == "para":
            lines += md_inline(b["in"], esc, refs).split("\n")
        elif k == "head":
            text = md_inline(b["in"], esc, refs)
            if b["form"] == "setext":
                lines += [text, "=-"[b["level"] - 1] * 3]
            else:
                lines.append("#" * b["level"] + " " + text + (" ##" if b["form"] == "closed" else ""))
        elif k == "quote":
            lines += [("> " + ln).rstrip() if not ln.endswith("  ") else "> " + ln for ln in md_blocks(b["c"], esc, refs)]
        elif k == "code":
            lines += [b["fence"] + b["lang"] + (" x=1" if b["lang"] and b["extra"] else "")] + b["text"].split("\n") + [b["fence"]]
        else:
            n = b["start"]
            for j, item in enumerate(b["items"]):
                mark = "%d. " % n if b["ordered"] else b["bullet"] + " "
                n += 0 if b["same"] and j else 1
                if j and b["loose"]:
                    lines.append("")
                sub = md_blocks(item, esc, refs, not b["loose"])
                lines.append(mark + sub[0])
                lines += [(" " * len(mark) + ln) if ln else "" for ln in sub[1:]]
    return lines


class C24(Check):
    id = "C24"
    rule = ("random documents of paragraphs, headings (both forms), quotes, fenced code and nested lists with emphasis, strong, links (inline, reference, auto), escaped characters, "
            "character references, line breaks and inline elsie styles (several escape characters, literal braces) are written as Markdown, rendered in a slide with random md-*, code "
            "and default styles, and the texts of the page are compared in order with the document: every character with its font, size, color, weight and slant, list labels, list "
            "numbering, vertical order and indentation. Non-trivial: three blocks.")
    assumptions = ["only the documented subset of Markdown is generated", "text widths come from a deterministic stand-in for the Inkscape process"]
    quick = (12000, 60)
    thorough = (150000, 700)
    required = ("paragraphs", "headings", "setext_headings", "quotes", "lists_in_quotes", "quotes_in_lists", "codes", "highlighted_codes", "items", "nested_items", "numbered_from_start", "em", "st", "ln", "auto",
                "sty", "lit", "ent", "esc", "line_breaks", "overridden_styles", "other_escape", "indented_source", "blank_source", "brace_in_style", "nested_spans", "ignored_marks")

    def gen(self, rng, i, tier):
        if i == 0:
            return {"kf": "- aa\n\n  - bb\n\n  cc"}
        if rng.random() < 0.01:
            return {"blank": rng.choice(["", " ", "\n", "  \n \n"])}
        esc = rng.choice(["~", "~", "~", "$", "%", "!", "\u00a7", "~()"])
        g = Gen(rng, esc)
        styles = {}
        def style():
            d = {}
            for k, vs in (("size", [10, 33.5]), ("color", ["red", "#123456"]), ("bold", [True, False]), ("italic", [True, False]), ("font", ["serif"]), ("align", ["right", "left"])):
                if rng.random() < 0.3:
                    d[k] = rng.choice(vs)
            return d
        for name in list(DEFAULTS) + ["code", "default"]:
            if rng.random() < 0.1:
                styles[name] = style()
        return {"blocks": g.blocks(0, gen.many(rng, rng.randint(1, 6), 0.02)), "esc": esc, "styles": styles, "cust": {"color": "blue", "italic": True}, "indent": rng.choice([0, 0, 0, 4, 3]), "pad": rng.choice(["", "\n", "\n\n"]),
                "at": rng.choice(["root", "box", "box"]), "show": rng.choice([None, None, None, "2+"])}

    def shrink(self, case):
        from vlib.core import generic_shrink

        return generic_shrink(case)

    def run(self, case, cx):
        import elsie
        from elsie.ext import markdown

        deck = scene.new_deck(cx, 1024, 768)
        root = deck.new_slide()
        if "kf" in case:
            return self.finding(cx, case, deck, root)
        if "blank" in case:
            with contextlib.redirect_stdout(io.StringIO()):
                markdown(root, case["blank"])
            doc = svg.Doc(scene.svgs(deck)[0])
            cx.expect(not any(ln.text for d in doc.draws if d.tag == "text" for ln in d.lines()), "text-from-nothing", case["blank"])
            cx.count("blank_source")
            return
        box = root if case["at"] == "root" else root.box(**({"show": case["show"]} if case["show"] else {}))
        known = {k: dict(v) for k, v in textmodel.PREDEFINED.items()}
        known.update({k: dict(v) for k, v in DEFAULTS.items()})
        for name in ("cust", "my_st-1"):
            box.set_style(name, elsie.TextStyle(**case["cust"]))
            known[name] = case["cust"]
        for name, st in sorted(case["styles"].items()):
            if name == "default":
                box.update_style(name, elsie.TextStyle(**st))
                known[name] = textmodel.compose(known[name], st)
            else:
                box.set_style(name, elsie.TextStyle(**st))
                known[name] = st
            cx.count("overridden_styles")
        esc = case["esc"]
        if esc != "~":
            cx.count("other_escape")
        refs = []
        try:
            lines = md_blocks(case["blocks"], esc, refs)
        except (KeyError, IndexError, TypeError):
            raise Discard("shrunk too far")
        lines += [""] + ["%s: http://r.r" % r for r in dict.fromkeys(refs)] if refs else []
        if case["indent"]:
            cx.count("indented_source")
        source = case["pad"] + "\n".join(" " * case["indent"] + ln if ln else "" for ln in lines) + case["pad"]
        with contextlib.redirect_stdout(io.StringIO()):
            markdown(box, source, **({} if esc == "~" else {"escape_char": esc}))
        self.known = known
        self.esc = esc
        want = []
        self.expect_blocks(cx, case["blocks"], known["default"], want, 0, ())
        pages = scene.svgs(deck)
        step = 2 if case["at"] != "root" and case["show"] else 1
        if step == 2:
            cx.expect(not svg.Doc(pages[0]).draws, "hidden-text", "drawn in a hidden box")
        self.compare(cx, svg.Doc(pages[step - 1]), want, source)

    def expect_blocks(self, cx, blocks, default, want, depth, where):
        for b in blocks:
            k = b["b"]
            if k in ("para", "head"):
                cs = textmodel.strip_trailing(chars(b["in"], self.esc))
                name = "md-paragraph" if k == "para" else "md-h%d" % b["level"]
                want.append({"kind": "text", "chars": cs, "base": textmodel.compose(default, self.known[name])})
                cx.count("paragraphs" if k == "para" else "headings")
                if b.get("form") == "setext":
                    cx.count("setext_headings")
                self.tally(cx, b["in"])
            elif k == "quote":
                cx.count("quotes")
                if "list" in where:
                    cx.count("quotes_in_lists")
                self.expect_blocks(cx, b["c"], textmodel.compose(default, self.known["md-blockquote"]), want, depth, where + ("quote",))
            elif k == "code":
                want.append({"kind": "code" if b["lang"] else "text", "chars": [(c, ()) for c in b["text"].replace("\t", "    ")], "base": textmodel.compose(default, self.known["code"]), "code": True})
                cx.count("highlighted_codes" if b["lang"] else "codes")
            else:
                if "quote" in where:
                    cx.count("lists_in_quotes")
                inner = textmodel.compose(default, {"align": "left"})
                # the rows are children of the list, sublists are siblings of the rows
                for j, item in enumerate(b["items"]):
                    label = "%d." % (b["start"] + j) if b["ordered"] else b["bullet"]
                    if b["ordered"] and b["start"] != 1:
                        cx.count("numbered_from_start")
                    if b["ordered"] and b["same"] and j:
                        cx.count("ignored_marks")
                    cx.count("nested_items" if "list" in where else "items")
                    mark = {"kind": "label", "chars": [(c, ()) for c in label], "base": inner, "depth": depth}
                    want.append(mark)
                    n = len(want)
                    subs = [x for x in item if x["b"] == "list"]
                    self.expect_blocks(cx, [x for x in item if x["b"] != "list"], inner, want, depth + 1, where + ("list",))
                    mark["own"] = list(range(n, len(want)))
                    # the default style of the row does not hold for its sublists
                    self.expect_blocks(cx, subs, default, want, depth + 1, where + ("list",))

    def tally(self, cx, parts, depth=0):
        for p in parts:
            if p[0] in ("em", "st", "ln", "auto", "sty", "lit", "ent", "esc"):
                cx.count(p[0])
            if p[0] == "br":
                cx.count("line_breaks")
            if p[0] == "t" and "}" in p[1] and depth:
                cx.count("brace_in_style")
            if p[0] in ("em", "st", "ln", "sty"):
                if depth:
                    cx.count("nested_spans")
                self.tally(cx, p[2] if p[0] == "sty" else p[1], depth + 1)

    def compare(self, cx, doc, want, source):
        got = [d for d in doc.draws if d.tag == "text" and any(ln.chars for ln in d.lines())]
        texts = ["\n".join(ln.text for ln in d.lines()) for d in got]
        expected = ["".join(c for c, _ in w["chars"]) for w in want]
        cx.expect(len(doc.draws) == len([d for d in doc.draws if d.tag == "text"]), "other-elements", "")
        cx.expect(len(got) == len(want), "text-count", lambda: "%r\ninstead of\n%r\nfor %s" % (texts, expected, source))
        if len(want) < 3:
            cx.case_checks = 0
        y = None
        first = {}
        for n, (d, w) in enumerate(zip(got, want)):
            where = lambda: "text %d of %s" % (n, source)
            lines = textmodel.lines_of(w["chars"])
            if w["kind"] == "code":
                rows, _, _ = textmodel.place_lines(d, w["base"], cx, where())
                for k, ln in enumerate(lines):
                    g = rows.get(k)
                    cx.expect((g.text if g else "") == "".join(c for c, _ in ln), "code-text", lambda: "%r instead of %r" % (g.text if g else "", ln))
                    for c in g.chars if g else ():
                        cx.expect(c.font == w["base"]["font"] and c.size == float(w["base"]["size"]), "code-style", lambda: "%r" % (c.key(),))
                cx.expect(max(rows) < len(lines), "extra-line", where())
            else:
                textmodel.compare(d, lines, w["base"], self.known, cx, where=where())
            # vertical order
            if w["kind"] == "label":
                first[n] = d
                continue
            top = d.lines()[0].y - w["base"]["size"]
            if y is not None:
                cx.expect(top > y - 1e-6, "order", lambda: "%r starts at %r above the end %r of the text before it in\n%s" % (texts[n], top, y, source))
            y = max(ln.y for ln in d.lines()) - w["base"]["size"]
            y += 0.5
        labels = []
        for n, w in enumerate(want):
            if w["kind"] != "label":
                continue
            d = got[n]
            x = d.lines()[0].x
            while labels and labels[-1][0] >= w["depth"]:
                labels.pop()
            if labels:
                cx.expect(x > labels[-1][1], "indentation", lambda: "label at %r under a label at %r" % (x, labels[-1][1]))
            labels.append((w["depth"], x))
            ly = d.lines()[0].y
            width = textmodel.line_width(textmodel.lines_of(w["chars"])[0], w["base"], self.known)
            for m in w["own"]:
                o = got[m]
                if o.e.get("text-anchor") == "start" and want[m]["base"]["align"] == "left":
                    cx.expect(o.lines()[0].x >= x + width - 1e-6, "label-overlap", lambda: "%r at %r, label %r ends at %r" % (texts[m], o.lines()[0].x, texts[n], x + width))
            own = [m for m in w["own"] if want[m]["kind"] != "label"]
            if own:
                bottom = max(ln.y for m in own for ln in got[m].lines())
                top = min(got[m].lines()[0].y - want[m]["base"]["size"] for m in own)
                cx.expect(top - 1e-6 - w["base"]["size"] * 2 <= ly <= bottom + w["base"]["size"] * 2, "label-row", lambda: "label at %r, its item from %r to %r in\n%s" % (ly, top, bottom, source))

    def finding(self, cx, case, deck, root):
        from elsie.ext import markdown

        with contextlib.redirect_stdout(io.StringIO()):
            markdown(root, case["kf"])
        doc = svg.Doc(scene.svgs(deck)[0])
        ys = {d.lines()[0].text: d.lines()[0].y for d in doc.draws if d.tag == "text"}
        cx.expect(set(ys) >= {"aa", "bb", "cc"}, "text-count", sorted(ys))
        if not ys["aa"] < ys["bb"] < ys["cc"]:
            cx.fail("block-after-sublist", "the paragraph after a sublist is drawn at %r, the sublist at %r" % (ys["cc"], ys["bb"]))


CHECK = C24()
