import contextlib
import importlib
import io
import os
import re
import shutil
import subprocess
import sys
import types

from vlib import core, outputs, scene
from vlib.core import Check, Violation

from .c25 import CHECK as VIEW
from .c25 import Tree

PROSE = ["Some text with `code` and more.", "", "", "- an item", "    an indented line", "# Heading", "> quote", "<b>html</b>", "a | b", "* * *", "`` x ``", "Use `elsie` here, not ``there``.", "slide.box()",
         "trailing spaces  ", "Žluťoučký kůň", "\ttab", "elsie,width=200", "~~deleted~~ text", "[`box`](elsie.box) and [x](y.md)"]
OTHER = ["x = 1", "", "slide.box().rect(color='#ff0000')", "raise Exception('not to be run')", "    indented", "elsie", "# comment `tick`", "def f():", "    pass"]
KEYS = ["elsie.box.Box", "elsie.deck", "a.b.c", "a.b", "x"]


def stub_mkdocs():
    for n in ("mkdocs", "mkdocs.config", "mkdocs.config.config_options", "mkdocs.config.base", "mkdocs.plugins", "mkdocs.structure", "mkdocs.structure.pages", "mkdocs.structure.files"):
        m = types.ModuleType(n)
        m.__path__ = []
        m.__getattr__ = lambda name: type(name, (), {"__init__": lambda self, *a, **kw: None})
        sys.modules[n] = m

    class BasePlugin:
        config_scheme = ()
        config = {}

        def __class_getitem__(cls, item):
            return cls

    sys.modules["mkdocs.plugins"].BasePlugin = BasePlugin


def fence_of(line):
    m = re.match(r"\s*(`{3,}|~{3,})\s*(.*?)\s*$", line)
    return (m.group(1), m.group(2)) if m else None


def parse_page(text):
    """[("text", line) or ("fence", header, lines, closing)] by the rules of Markdown"""
    out = []
    lines = text.splitlines()
    i = 0
    while i < len(lines):
        f = fence_of(lines[i])
        if not f:
            out.append(["text", lines[i]])
            i += 1
            continue
        j = i + 1
        while j < len(lines):
            g = fence_of(lines[j])
            if g and g[0][0] == f[0][0] and len(g[0]) >= len(f[0]) and not g[1]:
                break
            j += 1
        out.append(["fence", lines[i], lines[i + 1:j], lines[j] if j < len(lines) else None])
        i = j + 1
    return out


def options(info):
    lang, *rest = info.split(",")
    args = {}
    for r in rest:
        k, _, v = r.partition("=")
        args[k] = v or "yes"
    return lang, args


class C29(Check):
    id = "C29"
    rule = ("every page of the documentation and every example, and random pages of prose and fences (other languages, nested, with ~ or `, indented, library blocks, every option, failing code) processed by "
            "the documentation plugins (several pages per plugin): the produced page is compared line by line with the source, and each drawing with the pages that elsie gives for the same code run "
            "directly by the harness; links to the API are compared with a model, and in the documentation resolved to real objects; examples must produce as many pages as their committed PDFs. "
            "Non-trivial: a drawing, link or example was compared; distinct by page.")
    assumptions = ["mkdocs itself is replaced by stubs of its base classes", "Inkscape and pdflatex are stand-ins", "fences follow the rules of CommonMark except that they may be indented arbitrarily"]
    quick = (1200, 80)
    thorough = (30000, 600)
    required = ("doc_pages", "doc_links", "examples", "pages", "drawings", "fragments", "lib_blocks", "skipped_lines", "skipped_ends", "unskipped", "no_border", "debug_blocks", "indented_blocks", "nested_fences", "tilde_fences", "long_fences", "unclosed_fences",
                "verbatim_fences", "failing_blocks", "second_pages", "links", "unknown_links", "svg_pages", "png_pages")

    def docs(self):
        out = []
        root = os.path.join(core.REPO, "docs")
        for d, _, fs in os.walk(root):
            out += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith(".md")]
        return sorted(out)

    def examples(self):
        root = os.path.join(core.REPO, "examples")
        return sorted(d for d in os.listdir(root) if os.path.isfile(os.path.join(root, d, d + ".py")))

    # ------------------------------------------------------------ generation
    def code(self, rng, n, libs):
        """lines of a snippet, drawing in colours of its own"""
        lines = []
        col = [0]

        def color():
            col[0] += 1
            return "#%02x%02x%02x" % (n % 256, col[0], rng.randint(0, 255))

        for k in range(rng.randint(1, 4)):
            r = rng.random()
            show = rng.choice(["", "", 'show="%s"' % rng.choice(["1", "2", "2+", "1-2", "3", "next+", "10+"])])
            if r < 0.35:
                lines.append('slide.box(%s).rect(color="%s")' % (", ".join(x for x in ["width=%d" % rng.randint(5, 50), "height=10", show] if x), color()))
            elif r < 0.5:
                lines += ["box = slide.box(%s)" % show, "", 'box.rect(bg_color="%s")' % color(), 'box.text("Text %d")' % k]
            elif r < 0.6:
                lines += ["for k in range(2):", '    slide.box(width=k + 1, height=3).rect(color="%s")' % color(), "", "    slide.box(show=str(k + 1)).text(str(k))"]
            elif r < 0.7:
                lines += ['own = globals().get("name_of_another")', 'slide.box().rect(color="%s" if own else "%s")' % (color(), color()), "name_of_another = %d" % n]
            elif r < 0.8 and libs:
                lines.append('lib_%s(slide, "%s")' % (rng.choice(libs), color()))
            elif r < 0.9:
                lines += ['known = [k for k in sorted(globals()) if k.startswith("lib_")]', "slide.box().text(str(known))"]
            else:
                lines += ["# a comment", 'slide.box().code("python", """', "def f(x):", "    return 1", '""")']
        return lines

    def page(self, rng, p):
        blocks = []
        libs = []
        for n in range(rng.randint(1, 5) if rng.random() < 0.97 else rng.randint(10, 15)):
            blocks.append(["text", ["P%d-%d" % (p, n)] + [rng.choice(PROSE) for _ in range(rng.randint(0, 4))]])
            r = rng.random()
            mark = rng.choice(["```", "```", "```", "~~~", "~~~", "````", "~~~~~"])
            indent = rng.choice(["", "", "", "  ", "    "])
            if r < 0.2:
                lines = [rng.choice(OTHER) for _ in range(rng.randint(0, 5))]
                if rng.random() < 0.3:
                    other = "~~~" if mark[0] == "`" else "```"
                    inner = rng.choice([other, other, mark[:3]]) if len(mark) > 3 else other
                    lines[1:1] = [inner + rng.choice(["python", "elsie", "elsie,width=20"]), "slide.boom()"] + ([inner] if rng.random() < 0.7 else [])
                blocks.append(["fence", indent + mark + rng.choice(["python", "", "bash", "elsietext", "Elsie", "python,elsie"]), [indent + x if x else x for x in lines], indent + mark])
            elif r < 0.4:
                nm = "%d_%d" % (p, n)
                lines = ["def lib_%s(box, color):" % nm, "", '    box.box(width=%d, height=4).rect(color=color)' % (n + 1)]
                if rng.random() < 0.3 and libs:
                    lines.append("    lib_%s(box, color)" % rng.choice(libs))
                libs.append(nm)
                blocks.append(["fence", mark + "elsie,type=lib", lines, mark])
            else:
                lines = self.code(rng, p * 16 + n, libs)
                args = []
                if rng.random() < 0.4:
                    args.append("width=%d" % rng.choice([100, 200, 321]))
                if rng.random() < 0.4:
                    args.append("height=%d" % rng.choice([100, 150, 77]))
                if rng.random() < 0.3:
                    args.append(rng.choice(["border=no", "border=yes"]))
                if rng.random() < 0.3:
                    args.append(rng.choice(["debug", "debug=yes", "debug=no"]))
                if rng.random() < 0.2:
                    args.append("type=render")
                if rng.random() < 0.3:
                    head = rng.choice([["@slides.slide()", "def a_slide(slide):"], ["import something_missing"], ["1 / 0", "# more", "x ="], []])
                    if head and head[0][0] == "@":
                        lines = ["    " + x if x else x for x in lines]
                        lines = [x for x in lines if "globals" not in x and "own" not in x] if any('"""' in x for x in lines) else lines
                    tail = rng.choice([[], ["slides.render('no.pdf')"], ["", "1 / 0"]])
                    form = rng.choice(["%d", "%d:"]) % len(head) if not tail else "%s:-%d" % (len(head) or rng.choice(["0", ""]), len(tail))
                    args.append("skip=" + form)
                    lines = head + lines + tail
                elif rng.random() < 0.06:
                    lines = rng.choice([["# nothing"], lines + ["", "1 / 0"], ["slide.no_such_method()"]])
                rng.shuffle(args)
                blocks.append(["fence", indent + ",".join([mark + "elsie"] + args), [indent + x if x else rng.choice([x, x, indent]) for x in lines], indent + mark])
        if rng.random() < 0.05:
            blocks.append(["fence", rng.choice(["```", "~~~"]) + rng.choice(["elsie", "python", "elsie,width=20"]), ["slide.boom()", "", "text"][:rng.randint(0, 3)], None])
        elif rng.random() < 0.7:
            blocks.append(["text", ["P%d-end" % p] + [rng.choice(PROSE) for _ in range(rng.randint(0, 2))]])
        return blocks

    def gen(self, rng, i, tier):
        docs, examples = self.docs(), self.examples()
        if i < 2 * len(docs):
            return {"kind": "doc", "page": docs[i // 2], "format": ["svg", "png"][i % 2]}
        i -= 2 * len(docs)
        if i < len(examples):
            return {"kind": "example", "name": examples[i]}
        if rng.random() < 0.2:
            keys = {k: rng.choice(["Box.html#Box", "a/b.html", "m.html#%s" % k, "x"]) for k in KEYS if rng.random() < 0.9}
            lines = []
            for _ in range(rng.randint(1, 6)):
                parts = []
                for _ in range(rng.randint(0, 4)):
                    k = rng.choice(list(keys) or ["x"]) if rng.random() < 0.97 else "no.such"
                    parts.append(rng.choice([["link", rng.choice(["`box`", "`x` and `y`", "`a(b)`", "`" + k + "`"]), k]] * 3 + [["text", " %s " % k], ["text", "[x](%s)" % k], ["text", " `code` "], ["text", "(%s)" % k], ["text", " [`y`] "]]))
                lines.append(parts)
            return {"kind": "links", "keys": keys, "site": rng.choice([None, "", "https://e.org", "https://e.org/", "https://e.org/elsie/"]), "items": lines, "missing": rng.random() < 0.05}
        return {"kind": "pages", "items": [self.page(rng, p) for p in range(rng.choice([1, 1, 2]))], "format": rng.choice(["svg", "svg", "png", None])}

    # --------------------------------------------------------------- running
    def setup(self, cx):
        stub_mkdocs()
        for d in ("mkdocs-elsie-plugin", "mkdocs-nedoc-plugin"):
            sys.path.insert(0, os.path.join(core.REPO, "docs", d))

    def run(self, case, cx):
        self.cx = cx
        folder = cx.dir()
        old = dict(os.environ)
        os.environ["ELSIE_INKSCAPE"] = cx.fake_bin()
        cwd = os.getcwd()
        procs = []
        real = subprocess.Popen

        class Popen(real):
            def __init__(s, *a, **kw):
                procs.append(s)
                super().__init__(*a, **kw)

        subprocess.Popen = Popen
        try:
            getattr(self, case["kind"])(case, cx, folder)
        finally:
            subprocess.Popen = real
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(old)
            for p in procs:
                if cx._shell is not None and p is cx._shell.process:
                    continue
                p.kill()
                p.wait()
                for f in (p.stdin, p.stdout):
                    with contextlib.suppress(Exception):
                        f and f.close()

    def plugin(self, fmt):
        p = importlib.import_module("mkdocs_elsie_plugin").ElsiePlugin()
        p.config = {} if fmt is None else {"render_format": fmt}
        return p

    def expected(self, cx, lines, args, libs, docs, indent):
        """the fragments the code draws: None if it fails"""
        import elsie  # noqa

        body = [x for x in lines]
        skip = args.get("skip", "0")
        if ":" in skip:
            a, b = [int(x) if x else None for x in skip.split(":")]
            cx.count("skipped_ends" if b is not None else "skipped_lines")
        else:
            a, b = int(skip), None
            cx.count("skipped_lines" if a else "unskipped")
        body = body[a:b]
        widths = [len(x) - len(x.lstrip()) for x in body if x.strip()]
        body = [x[min(widths):] for x in body] if widths else []
        import elsie.render.jupyter
        from elsie.boxtree.box import Box

        deck = scene.new_deck(cx, int(args.get("width", 300)), int(args.get("height", 300)), name_policy="ignore")
        kw = {"debug_boxes": True} if args.get("debug", "no") == "yes" else {}
        names = {"elsie": elsie, "Box": Box, "elsie_render_slide": None}
        cwd = os.getcwd()
        os.chdir(docs)
        try:
            exec("\n".join(libs), names)
            slide = deck.new_slide(bg_color="white", **kw)
            names.update(slides=deck, slide=slide)
            if args.get("border", "yes") == "yes":
                slide.rect(color="black")
            else:
                cx.count("no_border")
            exec("\n".join(body), names)
            units = deck.render(None, return_units=True)
        except Exception:
            return None
        finally:
            os.chdir(cwd)
        if kw:
            cx.count("debug_blocks")
        return [u.get_svg() for u in units if u.slide is units[-1].slide]

    def check_page(self, cx, plugin, text, docs, fmt):
        """one page through the plugin"""
        blocks = parse_page(text)
        libs = []
        want = []  # lines, or list of documents
        failing = False
        for b in blocks:
            if b[0] == "text":
                want.append(b[1])
                continue
            mark, info = fence_of(b[1])
            indent = b[1][:len(b[1]) - len(b[1].lstrip())]
            lang, args = options(info)
            header, pages = b[1], None
            if mark[0] == "~":
                cx.count("tilde_fences")
            if len(mark) > 3:
                cx.count("long_fences")
            if indent:
                cx.count("indented_blocks")
            if any(fence_of(x) for x in b[2]):
                cx.count("nested_fences")
            if lang == "elsie" and b[3] is None:
                cx.count("unclosed_fences")
            elif lang == "elsie":
                header = indent + mark + "python"
                if args.get("type", "render") == "lib":
                    libs += b[2]
                    cx.count("lib_blocks")
                else:
                    pages = self.expected(cx, b[2], args, libs, docs, indent)
                    if pages is None:
                        failing = True
                        break
            else:
                cx.count("verbatim_fences")
            want.append(header)
            want += b[2]
            if b[3] is not None:
                want.append(b[3])
            if pages is not None:
                want.append(pages)
        page = types.SimpleNamespace(url="x", file=types.SimpleNamespace(src_path="x.md"))
        cwd = os.getcwd()
        error = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                got = plugin.on_page_markdown(text, page=page, config={"docs_dir": docs, "site_url": "https://e.org"}, files=[])
        except Exception as e:
            error = e
        cx.expect(os.getcwd() == cwd, "directory-changed", os.getcwd())
        if failing:
            cx.expect(error is not None, "failing-code-unnoticed", text)
            cx.count("failing_blocks")
            return
        if error is not None:
            raise Violation("page-refused", "%r with\n%s" % (error, text))
        got = got.split("\n")
        ids = set()
        i = 0
        for k, w in enumerate(want):
            if isinstance(w, str):
                cx.expect(i < len(got) and got[i] == w, "page-text", lambda: "line %d is %r, expected %r in\n%s" % (i, got[i] if i < len(got) else None, w, text))
                i += 1
                continue
            j = i
            while j < len(got) and not got[j].rstrip().endswith("</style>"):
                j += 1
            html = "\n".join(got[i:j + 1])
            cx.expect("elsie-wrapper" in html, "drawing-missing", lambda: "no drawing at line %d: %r in\n%s" % (i, got[i:i + 2], text))
            try:
                VIEW.view(cx, Tree(html), html, w, "png" if fmt == "png" else "svg", ids)
            except Violation as e:
                raise Violation("drawing", "%s at line %d of\n%s" % (e, i, text))
            cx.count("drawings")
            cx.count("fragments", len(w))
            i = j + 1
        cx.expect(i == len(got), "page-text", lambda: "superfluous lines %r in\n%s" % (got[i:], text))
        cx.count("%s_pages" % ("png" if fmt == "png" else "svg"))

    def pages(self, case, cx, folder):
        docs = os.path.join(folder, "docs")
        os.mkdir(docs)
        plugin = self.plugin(case["format"])
        for n, blocks in enumerate(case["items"]):
            lines = []
            for b in blocks:
                lines += b[1] if b[0] == "text" else [b[1]] + b[2] + [b[3]] * (b[3] is not None)
            self.check_page(cx, plugin, "\n".join(lines) + "\n", docs, case["format"])
            cx.count("pages")
            if n:
                cx.count("second_pages")

    def links(self, case, cx, folder):
        import json

        os.makedirs(folder + "/apidoc")
        if not case["missing"]:
            with open(folder + "/apidoc/map.json", "w") as f:
                json.dump(case["keys"], f)
        keys = {} if case["missing"] else case["keys"]
        p = importlib.import_module("mkdocs_nedoc_plugin").NedocPlugin()
        config = {"docs_dir": folder}
        if case["site"] is not None:
            config["site_url"] = case["site"]
        base = (case["site"] or "/")
        base += "" if base.endswith("/") else "/"
        with contextlib.redirect_stdout(io.StringIO()):
            p.on_config(config)
        text, want = [], []
        bad = False
        for parts in case["items"]:
            text.append("".join("[%s](%s)" % (x[1], x[2]) if x[0] == "link" else x[1] for x in parts))
            for x in parts:
                if x[0] == "link":
                    bad = bad or x[2] not in keys
            want.append("".join("[%s](%sapidoc/%s)" % (x[1], base, keys.get(x[2])) if x[0] == "link" else x[1] for x in parts))
        try:
            got = p.on_page_markdown("\n".join(text + ["end"]), page=None, config=config, files=[])
        except Exception as e:
            cx.expect(bad, "link-refused", lambda: "%r: %r" % (e, text))
            cx.count("unknown_links")
            return
        cx.expect(not bad, "unknown-link", text)
        cx.expect(got.split("\n") == want + ["end"], "link", lambda: "%r\nbecomes %r\nexpected %r" % (text, got, want))
        cx.count("links")

    def doc(self, case, cx, folder):
        docs = os.path.join(folder, "docs")
        shutil.copytree(os.path.join(core.REPO, "docs"), docs, ignore=shutil.ignore_patterns("elsie-cache", "*.gif"))
        with open(os.path.join(docs, case["page"])) as f:
            text = f.read()
        for b in parse_page(text):
            if b[0] == "fence":
                continue
            for key in re.findall(r"\[`[^`]*`\]\(([^)]*)\)", b[1]):
                cx.expect(resolves(key), "dead-api-link", lambda: "%s in %s" % (key, case["page"]))
                cx.count("doc_links")
        self.check_page(cx, self.plugin(case["format"]), text, docs, case["format"])
        cx.count("doc_pages")

    def example(self, case, cx, folder):
        for d in ("docs", "examples"):
            shutil.copytree(os.path.join(core.REPO, d), os.path.join(folder, d), ignore=shutil.ignore_patterns("elsie-cache", "*.gif"))
        work = os.path.join(folder, "examples", case["name"])
        pdf = os.path.join(work, case["name"] + ".pdf")
        from PyPDF2 import PdfFileReader

        with open(pdf, "rb") as f:
            want = PdfFileReader(f, strict=False).getNumPages()
        os.remove(pdf)
        env = dict(os.environ, PYTHONPATH=core.REPO + os.pathsep + os.environ.get("PYTHONPATH", ""), PYTHONDONTWRITEBYTECODE="1")
        tools = os.path.join(folder, "bin")
        os.mkdir(tools)
        for n in ("pdflatex", "pdf2svg"):
            with open(os.path.join(tools, n), "w") as f:
                f.write("#!/bin/sh\nexec '%s' -I -S '%s' %s \"$@\"\n" % (sys.executable, os.path.join(core.HERE, "vlib", "fakelatex.py"), n))
            os.chmod(os.path.join(tools, n), 0o755)
        env["VLATEX"] = folder
        p = subprocess.run([sys.executable, "-c", LAUNCH, tools, case["name"] + ".py"], cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=50)
        cx.expect(p.returncode == 0, "example-fails", lambda: "%s: %s" % (case["name"], p.stdout.decode(errors="replace")[-1500:]))
        pdfs = [f for f in os.listdir(work) if f.endswith(".pdf")]
        cx.expect(len(pdfs) == 1, "example-output", lambda: "%s: %r" % (case["name"], pdfs))
        got = len(outputs.read_file(os.path.join(work, pdfs[0])))
        cx.expect(got == want, "example-output", lambda: "%s gives %d pages, %d in the committed PDF" % (case["name"], got, want))
        cx.count("examples")


# LaTeX programs are taken from another folder
LAUNCH = """
import os, runpy, subprocess, sys
real = subprocess.Popen
class Popen(real):
    def __init__(self, args, *a, **kw):
        if not isinstance(args, str) and os.path.basename(args[0]) in ("pdflatex", "pdf2svg"):
            args = [os.path.join(sys.argv[1], os.path.basename(args[0]))] + list(args[1:])
        super().__init__(args, *a, **kw)
subprocess.Popen = Popen
sys.path.insert(0, "")
runpy.run_path(sys.argv[2], run_name="__main__")
"""


def resolves(key):
    parts = key.split(".")
    for n in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module(".".join(parts[:n]))
        except ImportError:
            continue
        try:
            for p in parts[n:]:
                obj = getattr(obj, p)
        except AttributeError:
            return False
        return True
    return False


CHECK = C29()
