import json

from vlib import images, scene
from vlib.core import Check, Discard, Violation

from . import gen


class C15(Check):
    id = "C15"
    rule = ("random decks of rich slides (all element kinds, images with fragments shared between slides, arrows, scaled texts, code, lists, markdown) driven through random "
            "histories of building, extending, replacing and rendering (all, subsets in any order, grids, debug, with and without pruning, HTML views); after every render each "
            "page must equal that of a deck built the same way and rendered for the first time, and each slide that of a deck holding only this slide. Non-trivial: a page was "
            "compared after an earlier render; distinct by program.")
    assumptions = ["the reference runs the same elsie code in fresh objects; what such a single render shows is decided by the other properties"]
    quick = (4500, 75)
    thorough = (100000, 700)
    required = ("pages_after_a_render", "subset", "reordered", "extended_after_render", "nested_extended_after_render", "replaced_after_render", "new_after_render", "grids", "isolated_slides", "html", "pruned", "edited_files")

    def gen(self, rng, i, tier):
        specs, imgs = gen.rich_images(rng, rng.randint(1, 3))
        steps = []
        n = 0

        def new():
            nonlocal n
            n += 1
            return {"do": "new", "name": rng.choice(["s%d" % n, "s%d" % n, "s1"]), "bg": rng.choice([None, None, "#eee"]),
                    "vb": rng.choice([None, None, None, [0, 0, 500, 400]]), "debug": rng.random() < 0.15,
                    "ops": gen.rich_slide(rng, rng.randint(1, 4), imgs, prefix="n%d" % n), "deco": rng.random() < 0.3}

        steps.append(new())
        if rng.random() < 0.7:
            steps.append(new())
        for _ in range(gen.many(rng, rng.randint(2, 5), 0.03)):
            r = rng.random()
            if r < 0.5:
                sel = rng.choice([None, None, "some"])
                if sel:
                    sel = [rng.randint(0, 3) for _ in range(rng.randint(1, 3))]
                steps.append({"do": "render", "select": sel, "prune": rng.random() < 0.4, "save": rng.random() < 0.4,
                              "grid": rng.choice([None, None, None, [2, 1], [2, 2]]), "how": rng.choice(["units", "units", "units", "pdf", "html"])})
            elif r < 0.57:
                # the author edits a picture
                j = rng.randrange(len(specs))
                steps.append({"do": "file", "image": j, "spec": self.another(rng, specs[j])})
            elif r < 0.67:
                steps.append(new())
            elif r < 0.76:
                steps.append({"do": "deckstyle", "name": rng.choice(["tt", "emph", "default"]), "style": rng.choice([{"color": "#777"}, {"size": 11}])})
            else:
                steps.append({"do": "extend", "slide": rng.randint(0, 3), "at": rng.choice([0, rng.randint(1, 40)]), "ops": gen.rich_slide(rng, rng.randint(1, 2), imgs, prefix="e%d" % len(steps))})
        steps.append({"do": "render", "select": None, "prune": False, "save": False, "grid": None, "how": "units"})
        return {"specs": specs, "steps": steps}

    def another(self, rng, spec):
        """a different picture of the same kind"""
        spec = json.loads(json.dumps(spec))
        if spec["kind"] == "png":
            spec.update(w=rng.randint(1, 30), color=[rng.randint(0, 255) for _ in range(3)])
        elif spec["kind"] == "svg":
            spec["w"] = rng.choice(["30", "45"])
            spec["body"] = spec["body"].replace("#00f", "#0%xf" % rng.randint(0, 15)).replace("**2+", rng.choice(["**2+", "**3+", ""]))
        else:
            spec["stack"][0]["layer"]["color"][1] = rng.randint(3, 255)
            spec["stack"][0]["attrs"]["name"] = rng.choice(["a **2+", "a", "a **4"])
        return spec

    def build(self, cx, history, sources, only=None, deck=None):
        """Execute the building steps; returns (deck, live slides in order)."""
        deck = deck or scene.new_deck(cx, name_policy="replace")
        for path, _, data in sources:
            write(path, data)
        st = {"deck": deck, "live": [], "objs": {}}
        for k, step in history:
            self.step(cx, st, k, step, sources, only)
        return st

    def step(self, cx, st, k, step, sources, only=None):
        deck = st["deck"]
        if step["do"] == "file":
            if step["image"] < len(sources):
                write(sources[step["image"]][0], images.content(step["spec"]))
            return
        if step["do"] == "deckstyle":
            deck.update_style(step["name"], scene.mk_style(step["style"]))
            return
        if step["do"] == "new":
            st["live"] = [x for x in st["live"] if x[1] != step["name"]]
            if only is not None and k != only:
                st["live"].append((k, step["name"], None))
                return
            kw = dict(bg_color=step["bg"], view_box=tuple(step["vb"]) if step["vb"] else None, debug_boxes=step["debug"])
            if step["deco"]:
                got = []

                @deck.slide(name=step["name"], **kw)
                def the_slide(root):
                    got.append(root)

                root = got[0] if got else the_slide() and got[0]
            else:
                root = deck.new_slide(step["name"], **kw)
            objs = {"root": root}
            for op in gen.with_sources(scene.valid_ops(step["ops"]), sources):
                scene.apply_op(op, objs)
            st["live"].append((k, step["name"], root))
            st["objs"][k] = objs
            return
        if step["do"] == "extend":
            if not st["live"]:
                return
            k0, _, root = st["live"][step["slide"] % len(st["live"])]
            if root is None:
                return
            # the new content goes into the root or into a box or item created earlier
            first = st["objs"][k0]
            keys = list(first)
            target = first[keys[step.get("at", 0) % len(keys)]]
            if not hasattr(target, "box"):
                target = root
            objs = {"root": target}
            for op in gen.with_sources(scene.valid_ops(step["ops"]), sources):
                if op["op"] in ("set_style", "update_style") and not hasattr(objs[op["on"]], op["op"]):
                    continue
                scene.apply_op(op, objs)

    def run(self, case, cx):
        folder = cx.dir()
        sources = gen.resolve_images(cx, case["specs"], folder)
        st = {"deck": scene.new_deck(cx, name_policy="replace"), "live": [], "objs": {}}
        history = []
        rendered = 0
        flags = set()
        for k, step in enumerate(case["steps"]):
            if step["do"] != "render":
                if step["do"] == "file":
                    flags.add("edited_files")
                if rendered and step["do"] in ("new", "extend"):
                    if step["do"] == "new" and any(x[1] == step["name"] for x in st["live"]):
                        flags.add("replaced_after_render")
                    if step["do"] == "extend" and step.get("at"):
                        flags.add("nested_extended_after_render")
                    flags.add({"new": "new_after_render", "extend": "extended_after_render"}[step["do"]])
                self.step(cx, st, k, step, sources)
                history.append((k, step))
                continue
            if not st["live"]:
                continue
            live = st["live"]
            idx = list(range(len(live)))
            if step["select"] is not None:
                idx = [s % len(live) for s in step["select"]]
                cx.count("subset")
                if idx != sorted(idx):
                    cx.count("reordered")
            if step["prune"]:
                cx.count("pruned")
            grid = tuple(step["grid"]) if step["grid"] else None
            select = [live[j][2].slide for j in idx] if step["select"] is not None else None
            if step["how"] == "html":
                for j in idx:
                    html = live[j][2]._repr_html_()
                    cx.expect("<img" in html, "html-view", html[:100])
                cx.count("html")
                rendered += 1
                continue
            if step["how"] == "pdf":
                st["deck"].render(folder + "/o%d.pdf" % k, select_slides=select, prune_cache=step["prune"], save_cache=step["save"], slides_per_page=grid)
                rendered += 1
                continue
            got = scene.svgs(st["deck"], select_slides=select, prune_cache=step["prune"], save_cache=step["save"], slides_per_page=grid)
            ref = self.build(cx, history, sources)
            ref_pages = {}
            for j, (_, _, root) in enumerate(ref["live"]):
                ref_pages[j] = None
            if grid:
                cx.count("grids")
                want = scene.svgs(ref["deck"], select_slides=[ref["live"][j][2].slide for j in idx], slides_per_page=grid)
                cx.expect(got == want, "grid-pages", "step %d: %d pages, a fresh deck gives %d" % (k, len(got), len(want)))
                rendered += 1
                continue
            # one first render of every slide
            units = ref["deck"].render(None, return_units=True, prune_cache=False, save_cache=False)
            by = {}
            for u in units:
                by.setdefault(id(u.slide), []).append(u.get_svg())
            want = [p for j in idx for p in by[id(ref["live"][j][2].slide)]]
            cx.expect(len(got) == len(want), "page-count", "step %d: %d pages, a fresh deck gives %d" % (k, len(got), len(want)))
            for n, (a, b) in enumerate(zip(got, want)):
                cx.expect(a == b, "page-changed", lambda: "step %d (render %d), page %d: %s" % (k, rendered, n, diff(a, b)))
            if rendered:
                cx.count("pages_after_a_render", len(got))
                for f in flags:
                    cx.count(f)
            if k == len(case["steps"]) - 1:
                for j, (k0, _, root) in enumerate(live):
                    solo = self.build(cx, history, sources, only=k0)
                    pages = scene.svgs(solo["deck"])
                    mine = by[id(ref["live"][j][2].slide)]
                    cx.expect(pages == mine, "slide-depends-on-others", lambda: "slide %d: %s" % (j, diff("".join(pages), "".join(mine))))
                    cx.count("isolated_slides")
            rendered += 1


def write(path, data):
    with open(path, "wb") as f:
        f.write(data)


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "...%s... instead of ...%s..." % (a[max(0, i - 60):i + 60], b[max(0, i - 60):i + 60])
    return "lengths %d and %d" % (len(a), len(b))


CHECK = C15()
