"""Scenes: JSON programs of elsie API calls, the builder that executes them, and the
reference models (fragments, layout, paint order) that predict their meaning."""
import re

from . import metrics
from .core import Discard

# ------------------------------------------------------------------ programs


def refs_of_value(v):
    if isinstance(v, dict):
        if "lazy" in v:
            return [v["lazy"]["box"]]
        if "p" in v:
            return [v["p"][0]]
        if "mid" in v:
            return [v["mid"]]
    if isinstance(v, list):
        out = []
        for x in v:
            out += refs_of_value(x)
        return out
    return []


def op_refs(op):
    out = [op["on"]]
    a = op.get("args") or {}
    for k, v in a.items():
        if k in ("above", "below"):
            if v is not None:
                out.append(v)
        else:
            out += refs_of_value(v)
    for k in ("points",):
        out += refs_of_value(op.get(k))
    for c in op.get("commands") or []:
        out += refs_of_value(c[1:])
    return out


def valid_ops(ops):
    """Drop operations that refer to objects that were never created (after shrinking)."""
    known = {"root"}
    boxes = {}
    out = []
    for op in ops:
        if any(r not in known for r in op_refs(op)):
            continue
        out.append(op)
        if op.get("id"):
            known.add(op["id"])
    return out


def mk_value(v, objs):
    if isinstance(v, dict) and "lazy" in v:
        z = v["lazy"]
        lv = getattr(objs[z["box"]], z["axis"])(z["v"])
        for o, n in z.get("ops", []):
            if o == "add":
                lv = lv.add(n)
            elif o == "mul":
                lv = lv.map(lambda q, n=n: q * n)
        return lv
    return v


def mk_point(p, objs):
    if isinstance(p, dict):
        if "mid" in p:
            lp = objs[p["mid"]].mid_point()
        else:
            b, x, y = p["p"]
            lp = objs[b].p(x, y)
        if p.get("add"):
            lp = lp.add(*p["add"])
        return lp
    return (mk_value(p[0], objs), mk_value(p[1], objs))


def mk_style(d):
    import elsie

    return elsie.TextStyle(**d)


def mk_arrow(d):
    import elsie

    return elsie.Arrow(**d) if d is not None else None


def build(root, ops):
    """Execute the program on a slide's root box; returns {id: object}."""
    objs = {"root": root}
    for op in ops:
        apply_op(op, objs)
    return objs


def apply_op(op, objs):
    on = objs[op["on"]]
    kind = op["op"]
    args = dict(op.get("args") or {})
    if kind == "box":
        for k in ("x", "y", "width", "height"):
            if k in args:
                args[k] = mk_value(args[k], objs)
        for k in ("above", "below"):
            if args.get(k) is not None:
                args[k] = objs[args[k]]
        r = getattr(on, op.get("kind", "box"))(**args)
    elif kind in ("rect", "ellipse"):
        r = getattr(on, kind)(**args)
    elif kind == "polygon":
        r = on.polygon([mk_point(p, objs) for p in op["points"]], **args)
    elif kind == "line":
        for k in ("start_arrow", "end_arrow"):
            if k in args:
                args[k] = mk_arrow(args[k])
        r = on.line([mk_point(p, objs) for p in op["points"]], **args)
    elif kind == "path":
        if "end_arrow" in args:
            args["end_arrow"] = mk_arrow(args["end_arrow"])
        cmds = [tuple([c[0]] + [mk_point(p, objs) for p in c[1:]]) for c in op["commands"]]
        r = on.path(cmds, **args)
    elif kind == "text":
        style = args.pop("style", "default")
        if isinstance(style, dict):
            style = mk_style(style)
        r = on.text(op["text"], style, **args)
    elif kind == "image":
        r = on.image(op["_source"], image_type=op.get("_type"), **args)
    elif kind == "code":
        style = args.pop("style", "code")
        if isinstance(style, dict):
            style = mk_style(style)
        r = on.code(op["lang"], op["text"], style=style, **args)
    elif kind == "line_box":
        r = on.line_box(op["index"], op.get("n", 1), **args)
    elif kind == "inline_box":
        r = on.inline_box(op["name"], op.get("nth", 1), **args)
    elif kind == "list":
        import elsie.ext

        fn = elsie.ext.ordered_list if op.get("ordered") else elsie.ext.unordered_list
        r = on.box()
        build_list(fn(r, **args), op["items"])
    elif kind == "latex":
        from elsie.ext.latex import latex

        r = latex(on, op["text"], **args)
    elif kind == "todo":
        from elsie.ext.todo import todo_placeholder

        r = todo_placeholder(on, *(op["names"] or ([] if hasattr(on, "name") else ["x"])))
    elif kind == "markdown":
        import elsie.ext

        r = on.box()
        elsie.ext.markdown(r, op["text"], **args)
    elif kind == "set_style":
        r = on.set_style(op["name"], mk_style(op["style"]), **args)
    elif kind == "update_style":
        r = on.update_style(op["name"], mk_style(op["style"]))
    else:
        raise ValueError(kind)
    if op.get("id"):
        objs[op["id"]] = r
    return r


def build_list(lst, items):
    for it in items:
        if "sub" in it:
            sub = lst.ol(**it.get("args", {})) if it.get("ordered") else lst.ul(**it.get("args", {}))
            build_list(sub, it["sub"])
        else:
            lst.item(**it.get("args", {})).text(it["text"])


# ------------------------------------------------------------------ fragments

SHOW_RE = re.compile(r"^(\d+|next|last)(?:(\+)|-(\d+))?$")


class Show:
    """Fragment selector as documented."""

    def __init__(self, spec, current):
        self.numbers = set()
        self.open = None
        self.top = 1
        if spec is None:
            self.open = 1
            return
        if isinstance(spec, int):
            self.numbers = {spec}
            self.top = max(1, spec)
            return
        for part in spec.split(","):
            m = SHOW_RE.match(part.strip())
            if not m:
                raise Discard("bad show")
            a = m.group(1)
            a = current + 1 if a == "next" else current if a == "last" else int(a)
            if m.group(2):
                if self.open is not None:
                    raise Discard("two open intervals")
                self.open = a
                self.top = max(self.top, a)
            else:
                b = int(m.group(3)) if m.group(3) else a
                if b < a:
                    raise Discard("reversed interval")
                self.numbers |= set(range(a, b + 1))
                self.top = max(self.top, b)

    def visible(self, step):
        return step in self.numbers or (self.open is not None and step >= self.open)


# ------------------------------------------------------------------ tree model


class Node:
    def __init__(self, id, parent, args, show, z, horizontal):
        self.id = id
        self.parent = parent
        self.args = args
        self.show = show
        self.z = z
        self.horizontal = horizontal
        self.paint = []  # Nodes and Items in paint order
        self.kids = []  # Nodes in layout order
        self.texts = []
        self.rect = None  # inner rectangle
        pad = args.get
        base = args.get("padding")

        def pick(*names):
            for n in names:
                if args.get(n) is not None:
                    return args[n]
            return 0

        self.pl = pick("p_left", "p_x", "padding")
        self.pr = pick("p_right", "p_x", "padding")
        self.pt = pick("p_top", "p_y", "padding")
        self.pb = pick("p_bottom", "p_y", "padding")

    def visible(self, step):
        n = self
        while n is not None:
            if not n.show.visible(step):
                return False
            n = n.parent
        return True


class Item:
    def __init__(self, id, node, op):
        self.id = id
        self.node = node
        self.op = op
        self.z = node.z
        self.at_fragment = None


def effective_args(op, parent):
    args = dict(op.get("args") or {})
    kind = op.get("kind", "box")
    d = {}
    if kind == "overlay":
        d = {"x": 0, "y": 0, "width": "100%", "height": "100%"}
    elif kind == "fbox":
        d = {"width": "fill", "height": "fill"}
    elif kind == "sbox":
        d = {"height": "fill"} if parent.horizontal else {"width": "fill"}
    for k, v in d.items():
        args.setdefault(k, v)
    return args


class Tree:
    """Reference model of a slide: executes the program abstractly."""

    def __init__(self, ops, width=1024, height=768, bg_color=None):
        self.width, self.height = width, height
        self.root = Node("root", None, {}, Show(None, None), 0, False)
        self.nodes = {"root": self.root}
        self.items = {}
        self.all_nodes = [self.root]
        self.top = 1
        self.fragment_log = []  # current_fragment() after every op
        if bg_color:
            n = Node("__bg", self.root, {"x": 0, "y": 0, "width": "100%", "height": "100%"},
                     Show(None, None), -1000000, False)
            self.root.paint.append(n)
            self.root.kids.append(n)
            self.all_nodes.append(n)
            n.paint.append(Item("__bgrect", n, {"op": "rect"}))
        for op in ops:
            self._apply(op)
            self.fragment_log.append(self.top)

    def node_of(self, id):
        if id in self.nodes:
            return self.nodes[id]
        return self.items[id].node

    def _apply(self, op):
        parent = self.node_of(op["on"])
        if op["op"] in ("set_style", "update_style"):
            return
        if op["op"] != "box":
            it = Item(op.get("id"), parent, op)
            parent.paint.append(it)
            if op.get("id"):
                self.items[op["id"]] = it
            if op["op"] == "text":
                parent.texts.append(it)
            if op["op"] == "image" and "_steps" in op:
                self.top = max(self.top, ((op.get("args") or {}).get("show_begin") or 1) - 1 + op["_steps"])
            return
        args = effective_args(op, parent)
        show = Show(args.get("show"), self.top)
        self.top = max(self.top, show.top)
        z = args.get("z_level")
        n = Node(op["id"], parent, args, show, parent.z if z is None else z,
                 bool(args.get("horizontal")))
        self.nodes[op["id"]] = n
        self.all_nodes.append(n)

        def ref(i):
            return self.nodes.get(i) or self.items[i]

        if args.get("above") is not None and args.get("below") is not None:
            raise Discard("above and below")
        if args.get("below") is not None:
            r = ref(args["below"])
            if r not in parent.paint:
                raise Discard("below is not a sibling")
            parent.paint.insert(parent.paint.index(r), n)
        elif args.get("above") is not None:
            r = ref(args["above"])
            if r not in parent.paint:
                raise Discard("above is not a sibling")
            parent.paint.insert(parent.paint.index(r) + 1, n)
        elif args.get("prepend"):
            parent.paint.insert(0, n)
        else:
            parent.paint.append(n)
        if args.get("prepend"):
            parent.kids.insert(0, n)
        else:
            parent.kids.append(n)

    # ---- fragments
    def fragments(self):
        return self.top

    # ---- paint order of visible items
    def painted(self, step):
        out = []

        def rec(n):
            if not n.show.visible(step):
                return
            for c in n.paint:
                if isinstance(c, Node):
                    rec(c)
                else:
                    out.append(c)

        rec(self.root)
        return sorted(out, key=lambda it: it.z)

    # ---- layout
    def layout(self, text_size):
        """text_size(item) -> (w, h).  Sets node.rect (inner rectangles)."""
        self.text_size = text_size
        self.min_free = None
        self._place(self.root, (0.0, 0.0, float(self.width), float(self.height)))

    def managed(self, n):
        """Is n stacked by its parent (no explicit position on the main axis)?"""
        key = "x" if n.parent.horizontal else "y"
        return n.args.get(key) is None

    def request(self, n):
        """Minimal outer size (w, h)."""
        if getattr(n, "_req", None) is not None:
            return n._req
        w = h = 0.0
        for t in n.texts:
            tw, th = self.text_size(t)
            if (t.op.get("args") or {}).get("scale_to_fit"):
                tw = tw if n.args.get("width") is None else 0
                th = th if n.args.get("height") is None else 0
            w, h = max(w, tw), max(h, th)
        kids = [self.request(k) for k in n.kids if self.managed(k)]
        cw = ch = 0.0
        if kids:
            if n.horizontal:
                cw, ch = sum(k[0] for k in kids), max(k[1] for k in kids)
            else:
                cw, ch = max(k[0] for k in kids), sum(k[1] for k in kids)
        for it in n.paint:
            if isinstance(it, Item) and it.op["op"] == "image":
                iw, ih = it.op["nat"]
                if n.args.get("width") is None and n.args.get("height") is None:
                    sc = (it.op.get("args") or {}).get("scale") or 1
                    w, h = max(w, iw * sc), max(h, ih * sc)
                else:
                    # an image drawn after the content of its box respects it
                    late = it.op.get("late")
                    w, h = (max(w, max(fixed(n.args.get("height")), ch if late else 0) * iw / ih),
                            max(h, max(fixed(n.args.get("width")), cw if late else 0) * ih / iw))
        w, h = max(w, cw), max(h, ch)
        w += n.pl + n.pr
        h += n.pt + n.pb
        w = max(w, fixed(n.args.get("width")))
        h = max(h, fixed(n.args.get("height")))
        n._req = (w, h)
        return n._req

    def _place(self, n, outer):
        x, y, w, h = outer
        n.outer = outer
        n.rect = (x + n.pl, y + n.pt, w - n.pl - n.pr, h - n.pt - n.pb)
        x, y, w, h = n.rect
        if w < -1e-9 or h < -1e-9:
            raise Discard("padding exceeds the box")
        ax = 0 if n.horizontal else 1
        size = (w, h)[ax]
        start = (x, y)[ax]
        used = 0.0
        shares = 0
        dims = {}
        for k in n.kids:
            if not self.managed(k):
                continue
            spec = k.args.get("width" if n.horizontal else "height")
            f = fill_of(spec)
            if f:
                shares += f
                continue
            s = extent(spec, size, self.request(k)[ax], self)
            dims[k] = s
            used += s
        free = size - used
        if shares:
            if free < -1e-9:
                raise Discard("no space left for fill boxes")
            unit = free / shares
            for k in n.kids:
                if self.managed(k):
                    f = fill_of(k.args.get("width" if n.horizontal else "height"))
                    if f:
                        if unit * f < self.request(k)[ax] - 1e-9:
                            raise Discard("fill share smaller than the content")
                        dims[k] = unit * f
            pos = start
        else:
            pos = start + free / 2
        for k in n.kids:
            rq = self.request(k)
            wspec, hspec = k.args.get("width"), k.args.get("height")
            if k in dims and n.horizontal:
                kw = dims[k]
            else:
                kw = extent(wspec, w, rq[0], self, whole=True)
            if k in dims and not n.horizontal:
                kh = dims[k]
            else:
                kh = extent(hspec, h, rq[1], self, whole=True)
            if n.horizontal and k in dims:
                kx = pos
                pos += kw
            else:
                kx = place(k.args.get("x"), x, w, kw, self)
            if not n.horizontal and k in dims:
                ky = pos
                pos += kh
            else:
                ky = place(k.args.get("y"), y, h, kh, self)
            self._place(k, (kx, ky, kw, kh))

    # ---- dynamic values
    def lazy(self, v):
        z = v["lazy"]
        n = self.node_of(z["box"])
        if n.rect is None:
            raise Discard("forward dynamic reference")
        i = 0 if z["axis"] == "x" else 1
        r = place(z["v"], n.rect[i], n.rect[i + 2], 0, self)
        for o, a in z.get("ops", []):
            r = r + a if o == "add" else r * a
        return r

    def point(self, p, node):
        if isinstance(p, dict):
            if "mid" in p:
                n = self.node_of(p["mid"])
                x, y = "50%", "50%"
            else:
                n = self.node_of(p["p"][0])
                x, y = p["p"][1:]
            dx, dy = p.get("add") or (0, 0)
        else:
            n = node
            x, y = p
            dx = dy = 0
        r = n.rect

        def val(v, o, s):
            if isinstance(v, dict):
                return self.lazy(v)
            return place(v, o, s, 0, self)

        return val(x, r[0], r[2]) + dx, val(y, r[1], r[3]) + dy


def fixed(spec):
    if spec is None or isinstance(spec, dict):
        return 0.0
    if isinstance(spec, (int, float)):
        return float(spec)
    if spec.isdigit():
        return float(spec)
    return 0.0


def fill_of(spec):
    if isinstance(spec, str) and spec.startswith("fill"):
        return int(spec[5:-1]) if "(" in spec else 1
    return 0


def extent(spec, full, minimum, tree, whole=False):
    if isinstance(spec, dict):
        return tree.lazy(spec)
    if fill_of(spec):
        assert whole
        return full
    if isinstance(spec, str) and spec.endswith("%"):
        return max(minimum, full * float(spec[:-1]) / 100.0)
    return minimum


def place(spec, origin, full, size, tree):
    if spec is None:
        return origin + (full - size) / 2
    if isinstance(spec, dict):
        return tree.lazy(spec)
    if isinstance(spec, (int, float)):
        return origin + spec
    if spec.startswith("["):
        return origin + (full - size) * float(spec[1:-2]) / 100.0
    if spec.endswith("%"):
        return origin + full * float(spec[:-1]) / 100.0
    return origin + float(spec)


# ------------------------------------------------------------------ text sizes

DEFAULT_STYLE = {"font": "sans-serif", "size": 28, "line_spacing": 1.2, "bold": False,
                 "italic": False, "align": "middle", "color": "black",
                 "variant_numeric": "lining-nums", "opacity": None, "priority": 0}


def plain_text_size(item):
    """Size of an unstyled text (no escape characters) under the stand-in metrics."""
    st = dict(DEFAULT_STYLE)
    style = (item.op.get("args") or {}).get("style")
    if isinstance(style, dict):
        st.update({k: v for k, v in style.items() if v is not None})
    lines = item.op["text"].rstrip("\n").split("\n")
    w = max(metrics.text_width((c, st["font"], st["size"], st["bold"], st["italic"]) for c in ln)
            for ln in lines)
    return w, len(lines) * st["size"] * st["line_spacing"]


# ------------------------------------------------------------------ decks

def color_of(i):
    return "#%06x" % (0x100000 + i)


def new_deck(cx, width=1024, height=768, **kw):
    import elsie
    from elsie.render.backends import InkscapeBackend

    d = kw.pop("cache_dir", None) or cx.dir()
    backend = kw.pop("backend", None) or InkscapeBackend(cx.shell(), d)
    return elsie.SlideDeck(width, height, backend=backend, cache_dir=d, **kw)


def svgs(deck, **kw):
    kw.setdefault("prune_cache", False)
    kw.setdefault("save_cache", False)
    units = deck.render(None, return_units=True, **kw)
    return [u.get_svg() for u in units]
