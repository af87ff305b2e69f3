"""A stand-in for `inkscape --shell`.

Speaks the part of the shell protocol elsie uses, measures text with the
deterministic metrics in metrics.py, exports one-page PDFs / PNGs that carry the
hash of the SVG document they were made from, and (optionally) logs every
command and injects faults.  Run as:  python -I fakeink.py --shell
Environment:
  FAKEINK_LOG      append one JSON line per event to this file
  FAKEINK_FAULT    JSON: {"kind": ..., "at": n, ...} see Faults below
  FAKEINK_VERSION  version string
  FAKEINK_METRIC   factor of all measurements
"""
import json
import os
import re
import sys
import hashlib
import struct
import time
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import xml.etree.ElementTree as ET  # noqa

from metrics import advance  # noqa

SVG = "{http://www.w3.org/2000/svg}"
XML_SPACE = "{http://www.w3.org/XML/1998/namespace}space"


def parse_style(s):
    out = {}
    for part in (s or "").split(";"):
        if ":" in part:
            k, v = part.split(":", 1)
            out[k.strip()] = v.strip()
    return out


def num(v, default=0.0):
    m = re.match(r"\s*([-+0-9.eE]+)", v or "")
    return float(m.group(1)) if m else default


class Style:
    __slots__ = ("font", "size", "bold", "italic")

    def __init__(self, font="sans-serif", size=16.0, bold=False, italic=False):
        self.font, self.size, self.bold, self.italic = font, size, bold, italic

    def derive(self, e):
        s = Style(self.font, self.size, self.bold, self.italic)
        a = dict(e.attrib)
        css = parse_style(a.get("style"))
        a.update(css)
        if "font-family" in a:
            s.font = a["font-family"]
        if "font-size" in a:
            s.size = num(a["font-size"], s.size)
        if "font-weight" in a:
            s.bold = a["font-weight"] in ("bold", "700", "bolder")
        if "font-style" in a:
            s.italic = a["font-style"] in ("italic", "oblique")
        return s


def layout_text(text):
    """-> list of lines; line = list of (element path ids set, ch, advance);
    plus anchor, x"""
    lines = [[]]
    state = {"anchor": text.get("text-anchor", "start"), "x": num(text.get("x"))}

    def emit(s, style, path):
        for ch in s or "":
            if ch == "\n":
                ch = " "
            if ch == "\u00a0":
                ch = " "
            lines[-1].append(
                (path, advance(ch, style.font, style.size, style.bold, style.italic))
            )

    def walk(e, style, path):
        if e is not text:
            style = style.derive(e)
            path = path | {id(e)}
            if (e.get("x") is not None or num(e.get("dy")) != 0) and any(e.itertext()):
                lines.append([])
        emit(e.text, style, path)
        for c in e:
            walk(c, style, path)
            emit(c.tail, style, path)

    walk(text, Style().derive(text), frozenset([id(text)]))
    return lines, state


def measure(root, target_id):
    """bbox (x, width, height) of the element with id target_id"""
    target = None
    text = None
    for t in root.iter(SVG + "text"):
        for e in t.iter():
            if e.get("id") == target_id:
                target, text = e, t
                break
        if target is not None:
            break
    if target is None:
        return None
    lines, st = layout_text(text)
    x0 = None
    x1 = None
    size = Style().derive(text).size
    hits = 0
    for line in lines:
        total = sum(a for _, a in line)
        if st["anchor"] == "middle":
            pos = st["x"] - total / 2
        elif st["anchor"] == "end":
            pos = st["x"] - total
        else:
            pos = st["x"]
        used = False
        for path, a in line:
            if id(target) in path:
                used = True
                x0 = pos if x0 is None else min(x0, pos)
                x1 = pos + a if x1 is None else max(x1, pos + a)
            pos += a
        hits += used
    if x0 is None:
        return 0.0, 0.0, 0.0
    return x0, x1 - x0, hits * size


def marks_of(root):
    """Places (in translated coordinates) of rectangles in marking colors (#e.....), in paint
    order, as b"color:x:y:width" items."""
    out = []

    def walk(e, dx, dy):
        for c in e:
            if not isinstance(c.tag, str):
                continue
            x, y = dx, dy
            m = re.match(r"translate\(\s*([-+0-9.e]+)[\s,]+([-+0-9.e]+)\s*\)", c.get("transform") or "")
            if m:
                x, y = dx + float(m.group(1)), dy + float(m.group(2))
            if c.tag == SVG + "rect":
                col = c.get("stroke") or ""
                found = re.search(r"#e[0-9a-f]{5}", col + (c.get("style") or ""))
                if found:
                    out.append(b"%s:%g:%g:%g" % (found.group(0).encode(), x + num(c.get("x")), y + num(c.get("y")), num(c.get("width"))))
            walk(c, x, y)

    walk(root, 0.0, 0.0)
    return b" ".join(out)


def make_pdf(width, height, marker):
    content = b"%%ELSIE %s\n0 0 m\n" % marker
    objs = [
        b"<< /Type /Catalog /Pages 2 0 R >>",
        b"<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
        b"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 %s %s] /Contents 4 0 R /Resources << >> >>"
        % (repr(width).encode(), repr(height).encode()),
        b"<< /Length %d >>\nstream\n" % len(content) + content + b"\nendstream",
    ]
    out = b"%PDF-1.4\n"
    offs = []
    for i, o in enumerate(objs, 1):
        offs.append(len(out))
        out += b"%d 0 obj\n" % i + o + b"\nendobj\n"
    xref = len(out)
    out += b"xref\n0 5\n0000000000 65535 f \n"
    for o in offs:
        out += b"%010d 00000 n \n" % o
    out += b"trailer\n<< /Size 5 /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n" % xref
    return out


def make_png(marker):
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))

    return (
        b"\x89PNG\r\n\x1a\n"
        + chunk(b"IHDR", struct.pack(">IIBBBBB", 1, 1, 8, 6, 0, 0, 0))
        + chunk(b"tEXt", b"Comment\0ELSIE " + marker)
        + chunk(b"IDAT", zlib.compress(b"\0\0\0\0\0"))
        + chunk(b"IEND", b"")
    )


def svg_hash(data):
    if isinstance(data, str):
        data = data.encode()
    return hashlib.sha256(data).hexdigest().encode()


class Shell:
    def __init__(self):
        self.log = None
        if os.environ.get("FAKEINK_LOG"):
            self.log = open(os.environ["FAKEINK_LOG"], "a", buffering=1)
        self.fault = json.loads(os.environ.get("FAKEINK_FAULT") or "{}")
        self.version = os.environ.get("FAKEINK_VERSION", "1.2.2 (b0a8486541, 2022-12-01)")
        self.metric = float(os.environ.get("FAKEINK_METRIC") or 1)
        self.doc = None
        self.docname = None
        self.raw = None
        self.selected = None
        self.opts = {}
        self.counts = {}
        self.ncmd = 0

    def event(self, **kw):
        if self.log:
            kw["pid"] = os.getpid()
            kw["t"] = time.monotonic()
            self.log.write(json.dumps(kw) + "\n")

    def out(self, s):
        sys.stdout.write(s)
        sys.stdout.flush()

    def main(self):
        if self.fault.get("kind") == "no_start":
            sys.exit(3)
        if self.fault.get("kind") == "banner":
            self.out(self.fault.get("text", "Inkscape interactive shell mode. Type 'action-list' > to list.\n"))
        self.out("> ")
        while True:
            line = sys.stdin.readline()
            if not line:
                return
            line = line.rstrip("\n")
            self.ncmd += 1
            f = self.fault
            kind, _, arg = line.partition(":")
            self.counts[kind] = self.counts.get(kind, 0) + 1
            if f.get("kind") == "exit" and self._hit(kind):
                self.event(cmd=line, fault="exit")
                if f.get("text"):
                    self.out(f["text"])
                os._exit(f.get("code", 1))
            if f.get("kind") == "stderr" and self._hit(kind):
                sys.stderr.write(("W" * 79 + "\n") * (f.get("size", 200000) // 80))
                sys.stderr.flush()
            if f.get("kind") == "slow" and self._hit(kind):
                time.sleep(f.get("delay", 0.05))
            try:
                resp = self.command(kind, arg, line)
            except Exception as e:  # a document Inkscape cannot load
                self.event(cmd=line, error=repr(e))
                sys.stderr.write("error: %r\n" % (e,))
                sys.stderr.flush()
                resp = ""
            if f.get("kind") == "chatty" and self._hit(kind):
                resp = f.get("text", "Some warning line > here\n") + (resp or "")
                self.event(cmd=kind, fault="chatty")
            resp = (resp + "\n" if resp else "") + "> "
            if f.get("kind") == "crlf":
                resp = resp.replace("\n", "\r\n")
            if f.get("kind") == "dribble":
                for ch in resp:
                    self.out(ch)
            else:
                self.out(resp)

    def _hit(self, kind):
        f = self.fault
        if f.get("cmd") is not None and f["cmd"] != kind:
            return False
        n = self.counts[kind] if f.get("cmd") is not None else self.ncmd
        at = f.get("at")
        return at is None or n == at

    def command(self, kind, arg, line):
        f = self.fault
        if kind == "file-open":
            self.doc = None
            self.raw = None
            self.opts = {}
            self.selected = None
            with open(arg, "rb") as fh:
                self.raw = fh.read()
            self.docname = arg
            self.event(cmd="file-open", sha=svg_hash(self.raw).decode(), arg=arg)
            self.doc = ET.fromstring(self.raw)
            return ""
        if kind == "file-close":
            self.event(cmd="file-close", open=self.raw is not None)
            self.doc = self.raw = None
            return ""
        if kind == "select":
            self.selected = arg
            self.event(cmd="select", arg=arg)
            return ""
        if kind in ("query-width", "query-height", "query-x"):
            if f.get("kind") == "garbage" and self._hit(kind):
                self.event(cmd=kind, fault="garbage")
                return f.get("text", "not-a-number")
            box = measure(self.doc, self.selected) if self.doc is not None else None
            sha = svg_hash(self.raw).decode() if self.raw is not None else None
            if box is None:
                self.event(cmd=kind, sha=sha, value=None)
                return ""
            v = box[{"query-x": 0, "query-width": 1, "query-height": 2}[kind]] * self.metric
            self.event(cmd=kind, sha=sha, value=v)
            return repr(v)
        if kind.startswith("export-") and kind not in ("export-do",):
            self.opts[kind] = arg or True
            self.event(cmd=kind, arg=arg)
            return ""
        if kind == "export-do":
            target = self.opts.get("export-filename")
            typ = self.opts.get("export-type")
            if self.doc is None:
                raise ValueError("no document")
            if f.get("kind") == "no_output" and self._hit(kind):
                self.event(cmd="export-do", fault="no_output", target=target)
                return ""
            h = svg_hash(self.raw)
            if "export-text-to-path" in self.opts:
                h += b" paths"
            h += b" v" + self.version.replace(" ", "_").encode()
            marks = marks_of(self.doc)
            if marks:
                h += b" [" + marks + b"]"
            w = num(self.doc.get("width"), 100.0)
            hh = num(self.doc.get("height"), 100.0)
            if typ == "pdf":
                data = make_pdf(w, hh, h)
            elif typ == "png":
                data = make_png(h)
            else:
                data = b"ELSIE " + h + b" " + typ.encode()
            if f.get("kind") == "partial" and self._hit(kind):
                with open(target, "wb") as fh:
                    fh.write(data[: len(data) // 3])
                self.event(cmd="export-do", fault="partial", target=target)
                if f.get("kill_parent"):
                    os.kill(os.getppid(), 9)
                os._exit(1)
            if f.get("kind") == "kill_before" and self._hit(kind):
                os.kill(os.getppid(), 9)
                os._exit(1)
            with open(target, "wb") as fh:
                fh.write(data)
            self.event(
                cmd="export-do", sha=h.decode().split()[0], target=target, type=typ,
                opts={k: v for k, v in self.opts.items() if k != "export-filename"},
            )
            if f.get("kind") == "kill_after" and self._hit(kind):
                os.kill(os.getppid(), 9)
                os._exit(1)
            return ""
        if kind == "inkscape-version":
            return "Inkscape " + self.version
        self.event(cmd=line, unknown=True)
        return "Unknown action: " + kind


if __name__ == "__main__":
    import resource  # a limit set for elsie is not meant for its Inkscape

    _hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    resource.setrlimit(resource.RLIMIT_FSIZE, (_hard, _hard))
    Shell().main()
