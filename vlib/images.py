"""Image files for the workloads, written from JSON specifications."""
import base64
import io
import os
import zipfile

PX = {"": 1.0, "px": 1.0, "mm": 96 / 25.4, "cm": 96 / 2.54, "in": 96.0, "pt": 96 / 72, "pc": 16.0, "Q": 96 / 101.6}


def bitmap(spec):
    """{"kind": "png"|"jpeg", "w":, "h":, "color": [r,g,b], "mode":, "exif": orientation of a JPEG} -> bytes"""
    from PIL import Image

    mode = spec.get("mode", "RGB")
    c = tuple(spec["color"])
    if mode == "RGBA":
        c = c + (spec.get("alpha", 255),)
    elif mode == "L":
        c = c[0]
    elif mode == "P":
        c = c[0] % 4
    img = Image.new(mode, (spec["w"], spec["h"]), c)
    if mode == "P":
        img.putpalette([10, 20, 30, 200, 100, 50, 1, 2, 3, 255, 255, 0] + [0] * 756)
    f = io.BytesIO()
    if spec.get("exif"):
        exif = Image.Exif()
        exif[0x112] = spec["exif"]
        img.save(f, "JPEG", exif=exif)
    else:
        img.save(f, "JPEG" if spec["kind"] == "jpeg" else "PNG")
    return f.getvalue()


def svg_text(spec):
    """{"kind": "svg", "w": text, "h": text, "body": markup, "vb": text or None, "enc":}"""
    ns = ' xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"'
    ns += ' xmlns:inkscape="http://www.inkscape.org/namespaces/inkscape"'
    vb = ' viewBox="%s"' % spec["vb"] if spec.get("vb") else ""
    enc = spec.get("enc") or "UTF-8"
    head = '<?xml version="1.0" encoding="%s"?>\n' % enc if spec.get("decl", True) else ""
    return ('%s<svg%s width="%s" height="%s"%s>%s</svg>\n' % (head, ns, spec["w"], spec["h"], vb, spec.get("body", ""))).encode(enc)


def length_px(text):
    t = text
    unit = ""
    while t and t[-1].isalpha():
        unit = t[-1] + unit
        t = t[:-1]
    return float(t) * PX[unit]


def natural(spec):
    if spec["kind"] == "svg":
        return length_px(spec["w"]), length_px(spec["h"])
    if spec.get("exif", 1) > 4:
        # viewers show the photo upright
        return float(spec["h"]), float(spec["w"])
    return float(spec["w"]), float(spec["h"])


def ora(spec):
    """{"kind": "ora", "w":, "h":, "stack": node}; node = {"layer": bitmap spec, attrs..} or
    {"stack": [node..], attrs..}.  Layers are listed from top to bottom as in the format."""
    from xml.sax.saxutils import quoteattr

    f = io.BytesIO()
    z = zipfile.ZipFile(f, "w")
    z.writestr("mimetype", "image/openraster")
    n = [0]
    names = {}

    def attrs(d):
        return "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in sorted((d.get("attrs") or {}).items()))

    def out(nd):
        if "layer" in nd:
            key = repr(sorted(nd["layer"].items()))
            if key not in names:
                # a file name alone does not identify a layer
                names[key] = "data/%d/l%d.png" % (n[0], n[0] % 2)
                n[0] += 1
                z.writestr(names[key], layer_png(nd["layer"]))
            return '<layer src="%s"%s/>' % (names[key], attrs(nd))
        return "<stack%s>%s</stack>" % (attrs(nd), "".join(out(c) for c in nd["stack"]))

    body = "".join(out(c) for c in spec["stack"])
    z.writestr("stack.xml", '<?xml version="1.0" encoding="UTF-8"?>\n<image w="%d" h="%d"><stack>%s</stack></image>' % (
        spec["w"], spec["h"], body))
    z.close()
    return f.getvalue()


def layer_png(spec):
    """A transparent picture with a filled rectangle: {"w","h","box":[x0,y0,x1,y1],"color"}"""
    from PIL import Image

    if spec.get("opaque"):
        img = Image.new("RGB", (spec["w"], spec["h"]), tuple(spec["color"]))
        f = io.BytesIO()
        img.save(f, "PNG")
        return f.getvalue()
    img = Image.new("RGBA", (spec["w"], spec["h"]), (0, 0, 0, 0))
    x0, y0, x1, y1 = spec["box"]
    if x1 > x0 and y1 > y0:
        img.paste(tuple(spec["color"]) + (255,), (x0, y0, x1, y1))
    f = io.BytesIO()
    img.save(f, "PNG")
    return f.getvalue()


def content(spec):
    return {"png": bitmap, "jpeg": bitmap, "svg": svg_text, "ora": ora}[spec["kind"]](spec)


def materialize(spec, folder, name, form="path", ext=None):
    """-> (source argument, image_type argument, bytes)"""
    data = content(spec)
    if form == "path":
        path = os.path.join(folder, name + "." + (ext or spec["kind"]))
        if not os.path.exists(path):
            with open(path, "wb") as f:
                f.write(data)
        return path, None, data
    if form == "bytes":
        return data, spec["kind"], data
    return io.BytesIO(data), spec["kind"], data


def href_data(href):
    head, _, b = href.partition(",")
    return head, base64.b64decode(b)
