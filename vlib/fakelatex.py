"""Stand-ins of pdflatex and pdf2svg.

pdflatex "compiles" content.tex into a content.pdf that carries the source, pdf2svg turns it into
make_svg(source).  Comments in the source direct what happens:
  %SVG <json>    what the picture is made of
  %PICTURE <base64>  the picture
  %FAIL <kind>   which of the programs fails and how ("once-" prefix: only the first time)
Every call is appended to $VLATEX/log.  Run as: python -I fakelatex.py pdflatex|pdf2svg ARGS
"""
import base64
import hashlib
import json
import os
import random
import re
import sys


def directive(tex, name):
    m = re.search("%" + name + " (.*)", tex)
    return m.group(1).strip() if m else None


def make_svg(tex):
    picture = directive(tex, "PICTURE")
    if picture:
        return base64.b64decode(picture).decode()
    spec = json.loads(directive(tex, "SVG") or "{}")
    rng = random.Random(spec.get("seed", 0))
    mark = int(hashlib.sha256(tex.encode()).hexdigest()[:8], 16)
    ids = list(spec.get("ids", []))
    kinds = {}
    defs = []
    n = 0

    def shape():
        nonlocal n
        n += 1
        return '<path d="M %d %d L %d 9"/>' % (mark % 9973, n, mark // 9973 % 9973)

    def ref(kind):
        c = [i for i in ids if kinds.get(i) == kind]
        return rng.choice(c) if c else None

    for i in ids:
        kinds[i] = rng.choice(["glyph", "glyph", "clip", "mask", "grad"])
    for i in ids:
        k = kinds[i]
        if k == "glyph":
            defs.append('<symbol overflow="visible" id="%s">%s</symbol>' % (i, shape()))
        elif k == "clip":
            defs.append('<clipPath id="%s">%s</clipPath>' % (i, shape()))
        elif k == "mask":
            inner = ref("glyph")
            defs.append('<mask id="%s">%s%s</mask>' % (i, shape(), '<use xlink:href="#%s"/>' % inner if inner else ""))
        else:
            base = ref("grad")
            link = ' xlink:href="#%s"' % base if base and ids.index(base) < ids.index(i) else ""
            defs.append('<linearGradient id="%s"%s><stop offset="%d"/></linearGradient>' % (i, link, mark % 97 + n))
            n += 1

    def url(i):
        return rng.choice(["url(#%s)", "url(#%s)", "url('#%s')"]) % i

    def node(depth):
        r = rng.random()
        style = []
        attrs = ""
        for kind, prop in (("clip", "clip-path"), ("mask", "mask"), ("grad", "fill"), ("grad", "stroke")):
            i = ref(kind)
            if i and rng.random() < 0.35:
                if rng.random() < 0.6:
                    style.append("%s:%s" % (prop, url(i)))
                else:
                    attrs += ' %s="%s"' % (prop, url(i))
        if rng.random() < 0.3 and "fill" not in attrs and not any(s.startswith("fill") for s in style):
            color = rng.choice(["#abc", "#a10", "#def", "#a1b2c3", "red"])
            if rng.random() < 0.5:
                attrs += ' fill="%s"' % color
            else:
                style.append("fill:" + color)
        if style:
            attrs += ' style="%s"' % ";".join(style)
        if r < 0.45 and ref("glyph"):
            return '<use %s="#%s" x="%d" y="2"%s/>' % (rng.choice(["xlink:href", "xlink:href", "href"]), ref("glyph"), rng.randint(0, 50), attrs)
        if r < 0.7 or depth > 2:
            return '<rect width="%d" height="3"%s/>' % (rng.randint(1, 9), attrs)
        return "<g%s>%s</g>" % (attrs, "".join(node(depth + 1) for _ in range(rng.randint(1, 3))))

    # an id may also be on what is drawn
    body = []
    for _ in range(spec.get("nodes", 3)):
        body.append(node(0))
    if spec.get("surface"):
        body = ['<g id="%s">%s</g>' % (spec["surface"], "".join(body))]
    blocks = ["<defs>%s</defs>" % "".join(defs), "".join(body)]
    if spec.get("after"):
        blocks.reverse()
    text = '<path d="M %d 0"/>' % mark + "".join(blocks) + ("<!-- a comment #%s -->" % ids[0] if ids and spec.get("comment") else "")
    return '<?xml version="1.0" encoding="UTF-8"?>\n<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" width="%s" height="%s" viewBox="0 0 %s %s" version="1.1">\n%s\n</svg>\n' % (
        spec.get("w", "20pt"), spec.get("h", "10pt"), 20, 10, text)


def main():
    home = os.environ["VLATEX"]
    program = sys.argv[1]

    def log(**kw):
        with open(os.path.join(home, "log"), "a") as f:
            f.write(json.dumps(dict(kw, program=program)) + "\n")

    if program == "pdflatex":
        with open([a for a in sys.argv[2:] if not a.startswith("-")][-1], newline="") as f:
            tex = f.read()
        base = os.path.splitext([a for a in sys.argv[2:] if not a.startswith("-")][-1])[0]
    else:
        with open(sys.argv[2], newline="") as f:
            tex = f.read()[len("%PDF-fake\n"):]
    fail = directive(tex, "FAIL") or ""
    if fail.startswith("once-"):
        fail = fail[5:]
        flag = os.path.join(home, "once-" + hashlib.sha256(tex.encode()).hexdigest())
        if os.path.exists(flag):
            fail = ""
        elif fail.startswith(program):
            open(flag, "w").close()
    if program == "pdflatex":
        log(tex=tex)
        if fail == "pdflatex-nolog":
            sys.exit(1)
        with open(base + ".log", "wb") as f:
            f.write(b"This is pdfTeX\n! Undefined control sequence %s.\n" % hashlib.sha256(tex.encode()).hexdigest()[:12].encode())
            if fail == "pdflatex-latin":
                f.write(b"l.7 caf\xe9\n")
        if fail == "pdflatex-partial":
            with open(base + ".pdf", "w") as f:
                f.write("%PDF-fa")
        if fail.startswith("pdflatex-complete"):
            with open(base + ".pdf", "w", newline="") as f:
                f.write("%PDF-fake\n" + tex)
        if fail.endswith("-signal") and fail.startswith("pdflatex"):
            os.kill(os.getpid(), 9)
        if fail.startswith("pdflatex"):
            sys.stdout.write("x" * 100000)
            sys.exit(1)
        with open(base + ".pdf", "w", newline="") as f:
            f.write("%PDF-fake\n" + tex)
        sys.stdout.write("x" * 100000)
    else:
        log(tex=tex)
        svg = make_svg(tex)
        if fail == "pdf2svg-partial":
            with open(sys.argv[3], "w") as f:
                f.write(svg[:len(svg) // 2])
        if fail.startswith("pdf2svg-complete"):
            with open(sys.argv[3], "w") as f:
                f.write(svg)
        if fail in ("pdf2svg-signal", "pdf2svg-complete-signal"):
            os.kill(os.getpid(), 9)
        if fail == "pdf2svg-truncated":
            # reports success
            with open(sys.argv[3], "w") as f:
                f.write(svg[:-20])
            sys.exit(0)
        if fail == "pdf2svg-missing":
            sys.exit(0)
        if fail.startswith("pdf2svg"):
            if fail == "pdf2svg-latin":
                os.write(2, b"caf\xe9\n")
            sys.stderr.write("cannot read pdf %s\n" % hashlib.sha256(tex.encode()).hexdigest()[:12])
            sys.exit(1)
        with open(sys.argv[3], "w") as f:
            f.write(svg)


FAILS = ["pdflatex", "pdflatex-latin", "pdflatex-nolog", "pdflatex-partial", "pdflatex-signal", "pdflatex-complete", "pdflatex-complete-signal", "pdf2svg", "pdf2svg-latin", "pdf2svg-partial", "pdf2svg-complete", "pdf2svg-signal", "pdf2svg-complete-signal",
         "pdf2svg-truncated", "pdf2svg-missing"]

if __name__ == "__main__":
    main()
