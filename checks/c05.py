import os

from vlib import scene
from vlib.core import Check

from . import gen

SHOWS = [None, 1, 2, 4, "1", "2", "3", "5", "1+", "2+", "4+", "2-3", "1-4", "1,3", "2,4+", "next", "next", "next+",
         "next+", "last", "last", "last+", "next,2", "1,last", "last,next+", "3+,1"]
LABELS = ["layer", "x **2", "bg**1+", "**2-3", "a**1,3", "b **4+", "c**3", "plain2", "**1", "d **11", "e**9-10"]


def write_svg(path, labels):
    body = "".join(
        '<g inkscape:label="%s"><rect x="%d" y="0" width="3" height="3"/></g>' % (lb, i * 4)
        for i, lb in enumerate(labels))
    with open(path, "w") as f:
        f.write('<svg xmlns="http://www.w3.org/2000/svg" '
                'xmlns:inkscape="http://www.inkscape.org/namespaces/inkscape" '
                'width="40" height="20">%s</svg>' % body)


def label_top(lb):
    if "**" not in lb:
        return 1
    return scene.Show(lb.split("**", 2)[1], None).top


class C05(Check):
    id = "C05"
    rule = ("histories of 3-20 calls on 1-3 interleaved slides: boxes, overlays, line/inline boxes, lists, sublists, list items and "
            "fragmented SVG images with absolute and relative selectors; after every call current_fragment() of random "
            "boxes, and finally the number of pages of every slide, are compared with a running-maximum model. "
            "Non-trivial: a relative selector or an image was used; distinct by program.")
    quick = (16000, 60)
    thorough = (200000, 600)
    required = ("relative", "images", "list_items", "current_fragment_checks", "pages")

    def gen(self, rng, i, tier):
        ns = rng.choice([1, 1, 2, 3])
        ops = []
        shows = gen.late_shows(rng, SHOWS)
        boxes = [["root"] for _ in range(ns)]
        lists = [[] for _ in range(ns)]
        texts = [[] for _ in range(ns)]
        for k in range(gen.many(rng, rng.randint(3, 20))):
            s = rng.randrange(ns)
            r = rng.random()
            id = "o%d" % k
            show = rng.choice(shows)
            if r < 0.5:
                ops.append({"op": "box", "s": s, "on": rng.choice(boxes[s]), "id": id, "show": show,
                            "kind": rng.choice(["box", "box", "overlay", "fbox", "sbox"])})
                boxes[s].append(id)
            elif r < 0.6:
                ops.append({"op": "list", "s": s, "on": rng.choice(boxes[s]), "id": id, "show": show,
                            "ordered": rng.random() < 0.5, "default": rng.random() < 0.6})
                lists[s].append(id)
            elif r < 0.75 and lists[s]:
                ops.append({"op": "item", "s": s, "on": rng.choice(lists[s]), "id": id, "show": show,
                            "default": rng.random() < 0.5})
                boxes[s].append(id)
            elif r < 0.8 and lists[s]:
                ops.append({"op": "sublist", "s": s, "on": rng.choice(lists[s]), "id": id, "show": show,
                            "default": rng.random() < 0.6, "ordered": rng.random() < 0.5})
                lists[s].append(id)
            elif r < 0.9:
                op = {"op": "image", "s": s, "on": rng.choice(boxes[s]), "id": id,
                      "labels": rng.sample(LABELS, rng.randint(1, 4)), "show_begin": rng.choice([1, 1, 2, 3])}
                q = rng.random()
                if q < 0.25:
                    op["select"] = [rng.choice([1, 2, 3, None]) for _ in range(rng.randint(1, 4))]
                elif q < 0.4:
                    op["fragments"] = False
                ops.append(op)
            elif r < 0.95 or not texts[s]:
                ops.append({"op": "text", "s": s, "on": rng.choice(boxes[s]), "id": id})
                texts[s].append(id)
            else:
                ops.append({"op": rng.choice(["line_box", "inline_box"]), "s": s, "on": rng.choice(texts[s]), "id": id,
                            "show": show})
                boxes[s].append(id)
            if rng.random() < 0.8:
                ops[-1]["probe"] = rng.choice(boxes[s])
        return {"ns": ns, "ops": ops}

    def run(self, case, cx):
        import elsie.ext as ext

        deck = scene.new_deck(cx)
        d = cx.dir()
        roots = [deck.new_slide(bg_color=None if j % 2 else "white") for j in range(case["ns"])]
        objs = [{"root": r} for r in roots]
        cur = [1] * case["ns"]
        listshow = [{} for _ in roots]
        nontrivial = False

        def use(s, show):
            cur[s] = max(cur[s], scene.Show(show, cur[s]).top)

        for k, op in enumerate(case["ops"]):
            s = op["s"]
            on = objs[s].get(op["on"])
            if on is None:
                continue
            show = op.get("show")
            kw = {} if show is None else {"show": show}
            if isinstance(show, str) and ("next" in show or "last" in show):
                nontrivial = True
                cx.count("relative")
            t = op["op"]
            if t == "box":
                r = getattr(on, op["kind"])(**kw)
                use(s, show)
            elif t == "text":
                r = on.text("ab ~emph{cd}\nef")
            elif t == "line_box":
                r = on.line_box(0, **kw)
                use(s, show)
            elif t == "inline_box":
                r = on.inline_box("emph", **kw)
                use(s, show)
            elif t == "list":
                if op["default"]:
                    kw, show = {}, "last+"
                r = (ext.ordered_list if op["ordered"] else ext.unordered_list)(on, **kw)
                listshow[s][op["id"]] = show
            elif t == "sublist":
                if op["default"]:
                    kw, show = {}, listshow[s][op["on"]]
                elif show is None:
                    kw = {"show": None}
                r = (on.ol if op["ordered"] else on.ul)(**kw)
                use(s, show)
                listshow[s][op["id"]] = show
            elif t == "item":
                if op["default"]:
                    kw, show = {}, listshow[s][op["on"]]
                elif show is None:
                    kw = {"show": None}
                r = on.item(**kw)
                use(s, show)
                cx.count("list_items")
            elif t == "image":
                path = os.path.join(d, "i%d.svg" % k)
                write_svg(path, op["labels"])
                kw = {"show_begin": op["show_begin"]}
                steps = max([label_top(lb) for lb in op["labels"]] + [1])
                if "select" in op:
                    kw["select_fragments"] = op["select"]
                    steps = len(op["select"])
                elif op.get("fragments") is False:
                    kw["fragments"] = False
                    steps = 1
                r = on.image(path, **kw)
                cur[s] = max(cur[s], op["show_begin"] - 1 + steps)
                nontrivial = True
                cx.count("images")
            objs[s][op["id"]] = r
            p = objs[s].get(op.get("probe"))
            if p is not None:
                got = p.current_fragment()
                cx.count("current_fragment_checks")
                cx.expect(got == cur[s], "current-fragment", lambda: "after %r: %r, model %r" % (op, got, cur[s]))
        pages = scene.svgs(deck)
        cx.expect(len(pages) == sum(cur), "page-count", "%d pages, model %r" % (len(pages), cur))
        cx.count("pages", len(pages))
        for j, r in enumerate(roots):
            n = len(scene.svgs(deck, select_slides=[r.slide]))
            cx.expect(n == cur[j], "slide-page-count", "slide %d: %d pages, model %d" % (j, n, cur[j]))
        if not nontrivial:
            cx.case_checks = 0


CHECK = C05()
