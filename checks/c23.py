from vlib import metrics, scene, svg
from vlib.core import Check

from . import gen

SHOWS = ["1", "2+", "1-2", "next", "next+", "last+", "last", "3+", 2, 1, None, "3+,1"]


class LNode:
    """A list, a sublist or a row of the reference model."""

    def __init__(self, parent, show, kind):
        self.parent = parent
        self.show = show
        self.kind = kind
        self.kids = []
        if parent is not None:
            parent.kids.append(self)

    def visible(self, step):
        n = self
        while n is not None:
            if n.show is not None and not n.show.visible(step):
                return False
            n = n.parent
        return True


class C23(Check):
    id = "C23"
    rule = ("random programs over several list builders on a slide: items and (un)ordered sublists added in any order to any builder created before (also to outer lists after their "
            "sublists, and lists inside items), with starts, given levels, indents, paddings, string and function labels per list and item, show selectors and extra box arguments, "
            "with renders in between; the drawn texts of every page are compared with a counter and visibility model, label positions with their items. Non-trivial: at least three items.")
    assumptions = ["text widths come from a deterministic stand-in for the Inkscape process", "how indents of several levels add up is not judged, only that they are at least the requested ones"]
    quick = (12000, 60)
    thorough = (200000, 700)
    required = ("rows", "label_calls", "nested_rows", "interleaved", "given_level", "function_labels", "string_labels", "hidden_rows", "item_labels", "lists_in_items", "renders_between",
                "indents", "empty_labels", "mutating_labels", "multiline")

    def gen(self, rng, i, tier):
        ops = []
        n = 1
        shows = gen.late_shows(rng, SHOWS)

        def label(p):
            r = rng.random()
            if r < 1 - p:
                return None
            return rng.choice(["-", "*", "a)", "", {"fn": "plain"}, {"fn": "plain"}, {"fn": "mutate"}, {"fn": "last"}])

        def args(sub=False):
            a = {}
            if rng.random() < 0.25:
                a["show"] = rng.choice(shows)
            if rng.random() < 0.15:
                a[rng.choice(["p_top", "p_bottom"])] = rng.choice([5, 12.5])
            if rng.random() < 0.1:
                a["name"] = "nm"
            return a

        def top(op):
            op["ordered"] = rng.random() < 0.5
            op["label"] = label(0.3)
            if op["ordered"] and rng.random() < 0.4:
                op["start"] = rng.choice([1, 2, 5, 10, 99])
            if rng.random() < 0.4:
                op["indent"] = rng.choice([0, 5, 20, 33.5])
            if rng.random() < 0.3:
                op["label_padding"] = rng.choice([0, 5, 40])
            op["args"] = args()
            return op

        ops.append(top({"do": "list", "in": None}))
        items = 0
        for _ in range(gen.many(rng, rng.randint(3, 14), 0.04)):
            r = rng.random()
            if r < 0.62:
                op = {"do": "item", "on": rng.choice([n - 1, rng.randrange(n)]), "text": rng.choice(["w%d", "w%d", "w%d", "w%d\nmore"]) % len(ops), "label": label(0.2), "args": args(), "nest": rng.random() < 0.4}
                if rng.random() < 0.2:
                    op["label_padding"] = rng.choice([0, 7, 50])
                ops.append(op)
                items += op["nest"]
            elif r < 0.87:
                op = {"do": "sub", "on": rng.choice([n - 1, rng.randrange(n)]), "ordered": rng.random() < 0.6, "label": label(0.3), "args": args(True)}
                if rng.random() < 0.3:
                    op["indent"] = rng.choice([0, 5, 20])
                if op["ordered"]:
                    if rng.random() < 0.4:
                        op["start"] = rng.choice([1, 2, 4, 10])
                    if rng.random() < 0.25:
                        op["level"] = [rng.randint(1, 9) for _ in range(rng.randint(0, 3))]
                ops.append(op)
                n += 1
            elif r < 0.95:
                ops.append(top({"do": "list", "in": rng.choice([None, rng.randrange(items) if items else None])}))
                n += 1
            else:
                ops.append({"do": "render"})
        return {"ops": ops, "style": rng.choice([None, None, {"size": 12}, {"bold": True, "size": 20}]), "with": rng.random() < 0.3}

    def run(self, case, cx):
        import elsie.ext

        deck = scene.new_deck(cx)
        root = deck.new_slide()
        if case["style"]:
            root.update_style("default", scene.mk_style(case["style"]))
        st = dict(scene.DEFAULT_STYLE)
        st.update(case["style"] or {})
        M = LNode(None, None, "root")
        builders = []  # (ListBuilder, model)
        rows = []
        item_boxes = []
        self.top = 1
        calls = []

        def mk_label(lb):
            if not isinstance(lb, dict):
                return lb

            def fn(box, counters, how=lb["fn"]):
                calls.append((list(counters), counters))
                if how == "last":
                    box.text("[%d]" % counters[-1])
                else:
                    box.text("<%s>" % "/".join(map(str, counters)))
                if how == "mutate":
                    counters.append(1000)
                    counters[0] = 77
                    cx.count("mutating_labels")

            return fn

        def show_of(a, inherited):
            spec = a["show"] if "show" in a else inherited
            s = scene.Show(spec, self.top)
            self.top = max(self.top, s.top)
            return s

        last = None
        for op in case["ops"]:
            a = dict(op.get("args") or {})
            if op["do"] == "render":
                if any(b for b in builders):
                    scene.svgs(deck)
                    cx.count("renders_between")
                continue
            if op["do"] == "list":
                parent, mp = root, M
                if op["in"] is not None and item_boxes:
                    parent, mp = item_boxes[op["in"] % len(item_boxes)]
                    cx.count("lists_in_items")
                kw = {k: op[k] for k in ("start", "indent", "label_padding") if k in op}
                if op["label"] is not None:
                    kw["label"] = mk_label(op["label"])
                b = (elsie.ext.ordered_list if op["ordered"] else elsie.ext.unordered_list)(parent, **kw, **a)
                m = LNode(mp, None, "list")
                m.update = None
                m.show_spec = a.get("show", "last+")
                m.level = [op.get("start", 1) - 1]
                m.label = op["label"] if op["label"] is not None else ("<ol>" if op["ordered"] else "•")
                m.padding = op.get("label_padding", 25)
                m.indent = op.get("indent", 10)
                m.min_x = 0
                builders.append((b, m))
            elif op["do"] == "sub":
                b, m = builders[op["on"] % len(builders)]
                kw = {k: op[k] for k in ("start", "indent", "level") if k in op}
                if op["label"] is not None:
                    kw["label"] = mk_label(op["label"])
                nb = (b.ol if op["ordered"] else b.ul)(**kw, **a)
                if case["with"]:
                    with nb as q:
                        cx.expect(q is nb, "with", q)
                nm = LNode(m, show_of(a, m.show_spec), "list")
                nm.show_spec = a.get("show", m.show_spec)
                nm.level = list(op["level"] if "level" in op else m.level) + [op.get("start", 1) - 1]
                if "level" in op:
                    cx.count("given_level")
                nm.label = op["label"] if op["label"] is not None else ("<ol>" if op["ordered"] else "•")
                nm.padding = m.padding
                nm.indent = op.get("indent", m.indent)
                builders.append((nb, nm))
            else:
                k = op["on"] % len(builders)
                b, m = builders[k]
                kw = {}
                if op["label"] is not None:
                    kw["label"] = mk_label(op["label"])
                    cx.count("item_labels")
                if "label_padding" in op:
                    kw["label_padding"] = op["label_padding"]
                before = len(calls)
                box = b.item(**kw, **a)
                (box.sbox() if op["nest"] else box).text(op["text"])
                if last is not None and last > k:
                    cx.count("interleaved")
                last = k
                r = LNode(m, show_of(a, m.show_spec), "row")
                m.level[-1] += 1
                lb = op["label"] if op["label"] is not None else m.label
                r.padding = op.get("label_padding", m.padding)
                r.text = op["text"]
                if "\n" in r.text:
                    cx.count("multiline")
                if isinstance(lb, dict):
                    cx.expect(len(calls) == before + 1, "label-calls", "%d calls for an item" % (len(calls) - before))
                    cx.expect(calls[-1][0] == m.level, "label-counters", lambda: "%r instead of %r" % (calls[-1][0], m.level))
                    cx.count("label_calls")
                    cx.count("function_labels")
                    r.label = "[%d]" % m.level[-1] if lb["fn"] == "last" else "<%s>" % "/".join(map(str, m.level))
                else:
                    cx.expect(len(calls) == before, "label-calls", "a foreign label function was called")
                    r.label = ".".join(map(str, m.level)) + "." if lb == "<ol>" else lb
                    cx.count("string_labels" if lb else "empty_labels")
                rows.append(r)
                if op["nest"]:
                    item_boxes.append((box, r))
        if not rows:
            cx.case_checks = 0
            return
        total = len(calls)
        pages = scene.svgs(deck)
        cx.expect(len(calls) == total, "label-calls", "labels are called again by a render")
        cx.expect(len(pages) == self.top, "page-count", "%d instead of %d" % (len(pages), self.top))
        for step, page in enumerate(pages, 1):
            self.page(cx, svg.Doc(page), M, step, st)
        if len(rows) < 3:
            cx.case_checks = 0

    def page(self, cx, doc, M, step, st):
        order = []

        def walk(n):
            if n.show is not None and not n.show.visible(step):
                cx.count("hidden_rows")
                return
            if n.kind == "row":
                order.append(n)
            for k in n.kids:
                walk(k)

        walk(M)
        want = []
        for r in order:
            if r.label:
                want.append(r.label)
            want.append(r.text)
        texts = []
        for d in doc.draws:
            cx.expect(d.tag == "text" and d.matrix == svg.IDENT, "element", d.tag)
            lines = d.lines()
            t = "\n".join(ln.text for ln in lines)
            if t:
                texts.append((t, lines, d))
        cx.expect([t for t, _, _ in texts] == want, "texts", lambda: "page %d shows %r, expected %r" % (step, [t for t, _, _ in texts], want))
        it = iter(texts)
        prev_y = None
        xs = {}
        for r in order:
            label = next(it) if r.label else None
            t, lines, d = next(it)
            x, y = lines[0].x, lines[0].y
            cx.expect(d.e.get("text-anchor") == "start", "alignment", d.e.get("text-anchor"))
            if label:
                lx, ly = label[1][0].x, label[1][0].y
                cx.expect(label[2].e.get("text-anchor") == "start", "alignment", "label")
                w = metrics.text_width((c, st["font"], st["size"], st["bold"], st["italic"]) for c in label[0])
                cx.near(lx + w + r.padding, x, "label-padding", lambda: "%r of %r" % (label[0], t))
                cx.near(ly, y, "label-line", lambda: "%r of %r" % (label[0], t))
                left = lx
            else:
                left = x - r.padding
            if prev_y is not None:
                cx.expect(y > prev_y, "row-order", lambda: "%r is not below the row before it" % t)
            prev_y = lines[-1].y
            lst = r.parent
            if id(lst) in xs:
                cx.near(left, xs[id(lst)][0], "row-left", t)
            xs[id(lst)] = (left, lst)
            cx.count("rows")
        for left, lst in list(xs.values()):
            p = lst.parent
            total = lst.indent
            while p is not None and p.kind == "list":
                if id(p) in xs:
                    cx.expect(left >= xs[id(p)][0] + total - 1e-6, "indent", lambda: "sublist at %r, its parent at %r, indent %r" % (left, xs[id(p)][0], total))
                    cx.count("nested_rows")
                    if total:
                        cx.count("indents")
                total += p.indent
                p = p.parent


CHECK = C23()
