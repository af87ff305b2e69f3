import glob
import hashlib
import json
import os
import subprocess
import sys

from vlib import core, images, scene, svg, textmodel as tm
from vlib.core import Check

from . import gen

PIECES = ["a", "b", "Z", "0", "hello", "<", ">", "&", "'", '"', "&amp;", "&#160;", "&lt;b&gt;", "<b>", "</tspan>", "]]>",
          "<!--", "-->", "<?xml?>", "  ", " ", "   ", "{", "}", "{}", "\\", "\\'", "'''", "%s", "%", "#", ";", ":", "=",
          "é", "ß", "ﬁ", "Ω", "–", "„", "日本", "🙂", "👩‍👩‍👧", "é", "\u200b", "\u202e", "\ufeff", "\u2028", "|", "`", "$", "^",
          "/", "@", "fill:red", "{b}", "\\n", "$x$"]
FONTS = [None, "sans-serif", "O'Reilly Sans", 'Font "Q"', "A & B <C>", "Čapek", "x;y", "monospace"]
COLORS = ["red", "#123456", "rgb(1, 2, 3)", "hsl(30, 100%, 50%)", "#abc"]
NAMES = ["plain", "it's", "<&>", 'q"q', "日本", "a'b'c <x>", "]]>"]


def any_text(rng):
    out = []
    for _ in range(gen.many(rng, rng.choice([1, 1, 2, 3, 5, 9]), 0.03)):
        r = rng.random()
        if r < 0.75:
            out.append(rng.choice(PIECES))
        elif r < 0.92:
            out.append("\n" * rng.choice([1, 1, 1, 2, 3]))
        else:
            while True:
                c = rng.choice([rng.randint(0x21, 0x7e), rng.randint(0xa1, 0x24f), rng.randint(0x370, 0x2fff),
                                rng.randint(0x3041, 0xd7ff), rng.randint(0x1f300, 0x1f6ff)])
                ch = chr(c)
                if ch not in "~" and not ch.isspace() and c not in (0x85, 0xa0):
                    break
            out.append(ch)
    return "".join(out)


def draw(deck, case):
    """Makes the slide of the case; elements of its items are marked by rectangles."""
    import elsie

    slide = deck.new_slide(name=case["slide"], debug_boxes=case["debug"])
    for k, t in enumerate(case["items"]):
        box = slide.box(name=t["name"], **t["box"])
        box.rect(color=scene.color_of(k))
        style = elsie.TextStyle(**t["style"])
        if t["fn"] == "code":
            kw = {} if t["tabsize"] is None else {"tabsize": t["tabsize"]}
            box.code("", t["text"], style=style, **kw)
        else:
            kw = {} if t.get("esc") is None else {"escape_char": t["esc"]}
            box.text(C07.double(t["text"], (t.get("esc") or "~")[0]), style, **kw)
    return slide


def render_all(cases, binary, folder, ora):
    """Pages, exported files and debug output of a deck of all the cases."""
    import elsie
    from elsie.render.backends import InkscapeBackend

    backend = InkscapeBackend(binary, folder)
    try:
        deck = elsie.SlideDeck(1024, 768, backend=backend, cache_dir=folder, debug=True)
        for case in cases:
            slide = draw(deck, case)
        slide.box().image(ora)
        pages = [u.get_svg() for u in deck.render(None, return_units=True)]
        files = deck.render(None, export_type="png")
        digests = []
        for name in files + sorted(glob.glob(os.path.join(glob.escape(folder), "*.svg"))):
            with open(name, "rb") as f:
                digests.append(hashlib.sha256(f.read()).hexdigest())
        return [pages, digests]
    finally:
        backend.inkscape.process.stdin.close()
        backend.inkscape.process.wait(5)


class C07(Check):
    id = "C07"
    rule = ("decks with 1-4 texts assembled from markup fragments, quotes, spaces, line breaks and characters from many Unicode "
            "ranges, drawn with text() (default or custom escape characters, escape characters doubled) and code('') (tabs), with "
            "hostile font names, colors and box names; the SVG must parse as XML and every text must contain exactly the given "
            "characters in the given lines, evenly spaced, aligned and centred in its box; decks built in a process whose locale has another encoding (ASCII) give the same pages, exported files and debug output. Non-trivial: some text was compared; "
            "distinct by program.")
    assumptions = ["control characters XML cannot carry, CR, and no-break spaces (drawn like spaces) are out of scope"]
    quick = (24000, 60)
    thorough = (250000, 700)
    required = ("characters", "multi_line", "hostile_fonts", "debug_names", "code_texts", "pages_in_other_locale")

    def gen(self, rng, i, tier):
        if i % 500 == 250:
            return {"locale": [self.gen_deck(rng) for _ in range(8)]}
        return self.gen_deck(rng)

    def gen_deck(self, rng):
        texts = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            t = {"text": any_text(rng), "fn": "code" if rng.random() < 0.2 else "text"}
            st = {"font": rng.choice(FONTS), "color": rng.choice(COLORS), "size": rng.choice([10, 12.5, 28, 7]),
                  "line_spacing": rng.choice([None, 1.0, 1.5, 0.8]), "align": rng.choice([None, "left", "middle", "right"]),
                  "bold": rng.choice([None, True, False]), "opacity": rng.choice([None, None, 0.5])}
            t["style"] = {k: v for k, v in st.items() if v is not None}
            if t["fn"] == "code":
                t["tabsize"] = rng.choice([None, 2, 8])
                t["text"] = t["text"].replace("b", "\t")
            else:
                r = rng.random()
                if r < 0.5:
                    t["text"] = t["text"].replace("a", "~~")
                elif r < 0.8:
                    t["esc"] = rng.choice(["!", "§", "^", "~{}", "!<>", "@()", "\\[]"])
                    t["text"] = t["text"].replace("0", t["esc"][0] * 2)
            t["box"] = rng.choice([{}, {"width": 300}, {"width": "50%", "height": 100}, {"x": 10, "y": 20, "width": 200},
                                   {"width": "fill"}, {"p_left": 13, "p_top": 5}])
            t["name"] = rng.choice(NAMES)
            texts.append(t)
        return {"items": texts, "debug": rng.random() < 0.25, "slide": rng.choice(NAMES)}

    def run_locale(self, case, cx):
        folders = [os.path.join(cx.dir(), name) for name in ("here", "there")]
        for f in folders:
            os.mkdir(f)
        ora = os.path.join(folders[0], "x.ora")
        with open(ora, "wb") as f:
            f.write(images.ora({"kind": "ora", "w": 9, "h": 8, "stack": [
                {"layer": {"w": 9, "h": 8, "box": [0, 0, 5, 5], "color": [20, 200, 3]}, "attrs": {"name": n}} for n in ("\u010d **2+", "\u5b57")]}))
        want = render_all(case["locale"], cx.fake_bin(), folders[0], ora)
        job = os.path.join(folders[0], "job.json")
        with open(job, "w") as f:
            json.dump({"home": core.HERE, "repo": core.REPO, "bin": cx.fake_bin(), "folder": folders[1], "cases": case["locale"], "ora": ora}, f)
        env = dict(os.environ, LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        subprocess.run([sys.executable, "-B", os.path.join(core.HERE, "vlib", "localechild.py"), job], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=50, check=True)
        with open(os.path.join(folders[1], "answer.json")) as f:
            got = json.load(f)
        cx.expect("error" not in got, "locale-error", lambda: got["error"])
        if "utf" in got["encoding"].lower():
            return
        for name, x, y in zip(("pages", "files"), want, got["pages"]):
            cx.expect(x == y, "locale-" + name, lambda: "%d and %d %s, the first that differ: %s" % (len(x), len(y), name, next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), None)))
        cx.count("pages_in_other_locale", len(want[0]))
        cx.seen(json.dumps(case))

    def run(self, case, cx):
        if "locale" in case:
            return self.run_locale(case, cx)
        deck = scene.new_deck(cx)
        draw(deck, case)
        page = scene.svgs(deck)[0]
        doc = svg.Doc(page)
        if case["debug"]:
            cx.count("debug_names")
        rects = {d.stroke: d.rect() for d in doc.draws if d.tag == "rect"}
        draws = [d for d in doc.draws if d.tag == "text" and d.fill != "#ff00ff"]
        cx.expect(len(draws) == len(case["items"]), "text-count", len(draws))
        for k, t in enumerate(case["items"]):
            base = tm.compose(tm.PREDEFINED["default"], t["style"])
            if t["fn"] == "code":
                text = t["text"].replace("\t", " " * (t["tabsize"] or 4))
                chars = [(c, ()) for c in text]
                cx.count("code_texts")
            else:
                esc = t.get("esc") or "~"
                chars = tm.parse(self.double(t["text"], esc[0]), esc[0], *(esc[1:] or "{}"))
            lines = tm.lines_of(tm.strip_trailing(chars))
            if len(lines) > 1:
                cx.count("multi_line")
            if t["style"].get("font") in FONTS[2:6]:
                cx.count("hostile_fonts")
            where = "text %d %r" % (k, t["text"])
            tm.compare(draws[k], lines, base, {}, cx, where=where)
            tm.check_position(draws[k], rects[scene.color_of(k)], lines, base, cx, where)

    @staticmethod
    def double(text, esc):
        """Escape every lone escape character so that the text has no inline styles."""
        return (esc * 2).join(text.split(esc)) if esc * 2 not in text else text.replace(esc * 2, "\0").replace(
            esc, esc * 2).replace("\0", esc * 2)


CHECK = C07()
