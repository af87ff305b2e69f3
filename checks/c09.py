from vlib import scene, svg, textmodel as tm
from vlib.core import Check, Discard

from . import gen

ATTRS = ("font", "size", "align", "line_spacing", "color", "bold", "italic", "variant_numeric", "opacity", "priority")
NAMES = ["a", "b", "c", "default", "tt", "code", "new1", "new2"]


def value(rng, attr):
    return {
        "font": lambda: rng.choice(["serif", "monospace", "Fira", "serif", "monospace", "Fira", ""]),
        "size": lambda: rng.choice([7, 9, 12.5, 21, 7, 9, 12.5, 21, 0]),
        "align": lambda: rng.choice(["left", "middle", "right"]),
        "line_spacing": lambda: rng.choice([1.0, 1.5, 1.0, 1.5, 0]),
        "color": lambda: "#%06x" % rng.randint(0, 0xffffff),
        "bold": lambda: rng.random() < 0.6,
        "italic": lambda: rng.random() < 0.6,
        "variant_numeric": lambda: rng.choice(["normal", "tabular-nums"]),
        "opacity": lambda: rng.choice([0.25, 1.0, 0.5, 0]),
        "priority": lambda: rng.choice([0, 0, 1]),
    }[attr]()


def rstyle(rng):
    return {a: value(rng, a) for a in rng.sample(ATTRS, rng.choice([1, 1, 2, 3]))}


def norm(d):
    r = {a: None for a in ATTRS}
    r["priority"] = 0
    r.update(d)
    return r


def upd(a, b):
    r = dict(a)
    for k, v in b.items():
        if v is not None:
            r[k] = v
    return r


class C09(Check):
    id = "C09"
    rule = ("random histories over a deck, its slides and nested boxes: define, update, rebase, read back and copy named styles, edit "
            "style objects passed to or returned by elsie, create boxes and slides and draw texts (named, given and inline styles) "
            "at any moment; every read is compared with, and every character of every text finally rendered carries, the style an "
            "independent by-value model predicts. Non-trivial: a text was drawn in a history with at least two style operations; "
            "distinct by history.")
    assumptions = ["text widths come from a deterministic stand-in for the Inkscape process"]
    quick = (30000, 60)
    thorough = (400000, 700)
    required = ("texts", "edits_of_shared_objects", "reads", "rejected_unknown", "rebased", "style_ops_after_draw")

    def gen(self, rng, i, tier):
        ops = []
        conts = ["deck", "s0"]
        boxes = ["s0"]
        vars_ = []
        n_text = 0
        ops.append(["slide", "s0"])
        for k in range(gen.many(rng, rng.randint(4, 22), 0.04)):
            r = rng.random()
            c = rng.choice(conts)
            name = rng.choice(NAMES)

            def ref():
                return {"var": rng.choice(vars_)} if vars_ and rng.random() < 0.5 else {"new": rstyle(rng), "as": new()}

            def new():
                v = "v%d" % len(vars_)
                vars_.append(v)
                return v

            if name == "default" and r < 0.18 and rng.random() < 0.85:
                r = 0.2
            if r < 0.18:
                st = ref()
                ops.append(["set", c, name, st, rng.choice([None, None, None, "default", "a", "tt", "code"]), new()])
            elif r < 0.32:
                st = ref()
                ops.append(["update", c, name, st, new()])
            elif r < 0.42:
                ops.append(["get", c, name, rng.random() < 0.5, new()])
            elif r < 0.55 and vars_:
                a = rng.choice(ATTRS)
                ops.append(["edit", rng.choice(vars_), a, value(rng, a)])
            elif r < 0.6 and len(vars_) > 1:
                how = rng.choice(["update", "compose", "copy"])
                a, b = rng.choice(vars_), rng.choice(vars_)
                ops.append(["combine", how, a, b, new()])
            elif r < 0.72:
                b = "b%d" % k
                ops.append(["box", rng.choice(boxes), b])
                boxes.append(b)
                conts.append(b)
            elif r < 0.76:
                s = "s%d" % k
                ops.append(["slide", s])
                boxes.append(s)
                conts.append(s)
            else:
                n_text += 1
                inl = [rng.choice(NAMES + ["emph"]) for _ in range(rng.choice([0, 1, 1, 2]))]
                st = rng.choice(NAMES) if rng.random() < 0.6 else ref()
                ops.append(["text", rng.choice(boxes), n_text, st, inl, rng.random() < 0.2])
        n_text += 1
        ops.append(["text", rng.choice(boxes), n_text, rng.choice(NAMES), [rng.choice(NAMES)], False])
        return {"ops": ops}

    def run(self, case, cx):
        import elsie

        deck = scene.new_deck(cx)
        objs = {"deck": deck}
        tabs = {"deck": {k: norm(v) for k, v in tm.PREDEFINED.items()}}
        rv, mv = {}, {}
        texts = {}
        slides = []
        changes = 0

        def take(st):
            if "var" in st:
                if st["var"] not in rv:
                    raise Discard("variable was shrunk away")
                return rv[st["var"]], mv[st["var"]]
            v = st["as"]
            rv[v] = elsie.TextStyle(**st["new"])
            mv[v] = norm(st["new"])
            return rv[v], mv[v]

        def same(real, model, where):
            got = {a: getattr(real, a) for a in ATTRS}
            cx.expect(got == model, "style-read", lambda: "%s: %r expected %r" % (where, got, model))

        for op in case["ops"]:
            k = op[0]
            if k == "slide":
                objs[op[1]] = deck.new_slide(name=op[1])
                tabs[op[1]] = dict(tabs["deck"])
                slides.append(op[1])
                continue
            if k not in ("edit", "combine") and op[1] not in objs:
                raise Discard("object was shrunk away")
            used = {"set": op[3:4], "update": op[3:4], "text": op[3:4], "edit": [{"var": op[1]}],
                    "combine": [{"var": v} for v in op[2:4]]}.get(k, [])
            if any(isinstance(u, dict) and "var" in u and u["var"] not in rv for u in used):
                continue  # the variable was never assigned (the operation was rejected)
            if k == "box":
                objs[op[2]] = objs[op[1]].box()
                tabs[op[2]] = dict(tabs[op[1]])
            elif k in ("set", "update"):
                changes += 1
                if texts:
                    cx.count("style_ops_after_draw")
                r, m = take(op[3])
                t = tabs[op[1]]
                need = op[4] if k == "set" else op[2]
                if k == "set" and need in (None, "default"):
                    need = None
                if need is not None and need not in t:
                    try:
                        if k == "set":
                            objs[op[1]].set_style(op[2], r, base=op[4])
                        else:
                            objs[op[1]].update_style(op[2], r)
                    except Exception:
                        cx.ok()
                        cx.count("rejected_unknown")
                        continue
                    cx.fail("unknown-style-accepted", op)
                if k == "set":
                    kw = {} if op[4] is None else {"base": op[4]}
                    res = objs[op[1]].set_style(op[2], r, **kw)
                    new = dict(m)
                    if need is not None:
                        new = upd(t[need], m)
                        cx.count("rebased")
                else:
                    res = objs[op[1]].update_style(op[2], r)
                    new = upd(t[op[2]], m)
                t = tabs[op[1]] = dict(t)
                t[op[2]] = new
                same(res, new, "returned by %s" % k)
                var = op[5] if k == "set" else op[4]
                if res is r:
                    # handing back the caller's own object is fine: it is one variable then
                    cx.count("returned_argument")
                    src = op[3].get("var") or op[3].get("as")
                    rv[var], mv[var] = rv[src], mv[src]
                else:
                    rv[var], mv[var] = res, dict(new)
            elif k == "get":
                t = tabs[op[1]]
                cx.expect(objs[op[1]].has_style(op[2]) == (op[2] in t), "has-style", op)
                cx.count("reads")
                if op[2] not in t:
                    try:
                        objs[op[1]].get_style(op[2], full_style=op[3])
                    except Exception:
                        cx.count("rejected_unknown")
                        continue
                    cx.fail("unknown-style-accepted", op)
                res = objs[op[1]].get_style(op[2], full_style=op[3])
                m = upd(t["default"], t[op[2]]) if op[3] and op[2] != "default" else dict(t[op[2]])
                same(res, m, "get_style%r" % (op[1:],))
                rv[op[4]], mv[op[4]] = res, m
            elif k == "edit":
                if op[1] not in rv:
                    raise Discard("variable was shrunk away")
                setattr(rv[op[1]], op[2], op[3])
                mv[op[1]][op[2]] = op[3]
                cx.count("edits_of_shared_objects")
            elif k == "combine":
                how, a, b, v = op[1:]
                if a not in rv or b not in rv:
                    raise Discard("variable was shrunk away")
                if how == "update":
                    rv[a].update(rv[b])
                    mv[a].update(upd(mv[a], mv[b]))
                    rv[v], mv[v] = rv[a], mv[a]
                elif how == "compose":
                    rv[v] = rv[a].compose(rv[b])
                    mv[v] = upd(mv[a], mv[b])
                else:
                    rv[v] = rv[a].copy()
                    mv[v] = dict(mv[a])
                same(rv[v], mv[v], "combine %s" % how)
            elif k == "text":
                _, on, n, st, inl, code = op
                t = tabs[on]
                inl = [x for x in inl if x in t]
                if isinstance(st, str):
                    if st not in t:
                        continue
                    real, base = st, upd(t["default"], t[st]) if st != "default" else dict(t[st])
                else:
                    real, m = take(st)
                    base = upd(t["default"], m)
                for need in ("size", "align", "line_spacing"):
                    if base.get(need) is None:
                        raise Discard("default style without %s" % need)
                if base["color"] is None:
                    base = dict(base, color="black")
                text = "T%d " % n + "".join("~%s{i%s}" % (x, x) for x in inl) + "".join(
                    "~%s{" % x for x in inl) + "n" + "}" * len(inl)
                if code:
                    objs[on].code("", text, style=real, use_styles=True)
                else:
                    objs[on].text(text, real)
                texts[n] = (text, base, t, op)
        if not texts or changes < 2:
            cx.case_checks = 0
        seen = set()
        for page in scene.svgs(deck):
            for d in svg.Doc(page).draws:
                if d.tag != "text":
                    continue
                s = "".join(c.ch for c in d.lines()[0].chars)
                n = int(s.split(" ")[0][1:])
                cx.expect(n in texts and n not in seen, "text-count", s)
                seen.add(n)
                text, base, t, op = texts[n]
                tm.compare(d, tm.lines_of(tm.parse(text)), base, t, cx, where=repr(op))
                cx.expect(d.e.get("text-anchor") == tm.ANCHOR[base["align"]], "text-anchor", repr(op))
                cx.count("texts")
        cx.expect(seen == set(texts), "text-count", (sorted(seen), sorted(texts)))


CHECK = C09()
