"""Reads back the files the Inkscape stand-in produced: which document is on every page."""
import re

from . import fakeink
from .core import Violation

HEX = re.compile(rb"ELSIE ([0-9a-f]{64})( paths)?(?: v(\S*?\)))?(?: \[([^\]]*)\])?")
EXT = re.compile(rb"EXTERN (\d+) (\d+)")


class Page:
    """sha: hash of the exported document; marks: [(color, x, y, width)]; extern: (file, page)"""

    def __init__(self, data):
        self.sha = None
        self.marks = []
        self.paths = False
        self.version = None
        self.extern = None
        self.size = None
        m = HEX.search(data)
        if m:
            self.sha = m.group(1).decode()
            self.paths = bool(m.group(2))
            self.version = (m.group(3) or b"").decode()
            for part in (m.group(4) or b"").split():
                c, x, y, w = part.decode().split(":")
                self.marks.append((c, float(x), float(y), float(w)))
        m = EXT.search(data)
        if m:
            self.extern = (int(m.group(1)), int(m.group(2)))
        if self.sha is None and self.extern is None:
            raise Violation("unreadable-output", "page without identification: %r" % data[:100])

    def __repr__(self):
        return repr(self.extern or (self.marks, self.sha))


def read_pdf(path):
    from PyPDF2 import PdfFileReader

    with open(path, "rb") as f:
        try:
            r = PdfFileReader(f, strict=False)
            out = []
            for i in range(r.getNumPages()):
                p = r.getPage(i)
                pg = Page(p.getContents().getData())
                b = p.mediaBox
                pg.size = (float(b[2]), float(b[3]))
                out.append(pg)
            return out
        except Violation:
            raise
        except Exception as e:
            raise Violation("unreadable-output", "%s: %r" % (path, e))


def complete(data, kind):
    """Is data a completely written output file of the stand-in?"""
    if kind == "pdf":
        return data.startswith(b"%PDF") and data.endswith(b"%%EOF\n")
    if kind == "png":
        return data.startswith(b"\x89PNG") and data.endswith(b"IEND\xaeB`\x82")
    return bool(re.match(rb"ELSIE [0-9a-f]{64}.* " + kind.encode() + rb"$", data))


def read_file(path):
    """-> list of pages"""
    if path.endswith(".pdf"):
        return read_pdf(path)
    with open(path, "rb") as f:
        return [Page(f.read())]


def extern_pdf(path, number, pages):
    from PyPDF2 import PdfFileReader, PdfFileWriter
    import io

    w = PdfFileWriter()
    keep = []
    for k in range(1, pages + 1):
        data = fakeink.make_pdf(200.0, 100.0, b"EXTERN %d %d" % (number, k))
        f = io.BytesIO(data)
        keep.append(f)
        w.addPage(PdfFileReader(f).getPage(0))
    with open(path, "wb") as f:
        w.write(f)

