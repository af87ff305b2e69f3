"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files.split(),
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


SVGOBS = ["SVG of the render units returned by SlideDeck.render(return_units=True)"]

p("C01", "Boxes get the sizes their definitions ask for",
  "In every slide, the rendered width and height of a box is at least its fixed size and what its content "
  "(texts, images and automatically placed children, plus its own padding) needs; NN% is that fraction of the "
  "parent's inner size if larger, and fill / fill(N) boxes share the space their stacked siblings leave in "
  "proportion to N on the stacking axis, and cover the whole parent on the other axis or when explicitly "
  "positioned. Padding reduces the inner area by exactly the most specific of p_left/p_right/p_top/p_bottom, p_x/p_y, padding.",
  "inputs programs", "every tree of boxes, sizes, paddings and contents that fits its parents",
  "Tests compare a few fixed decks with stored SVGs; the guarantee is about every combination of size kinds, nesting, padding and stacking direction.",
  "elsie/boxtree/layout.py elsie/boxtree/value.py elsie/boxtree/boxmixin.py elsie/text/textboxitem.py",
  [("two-pass layout: size requests up, rectangles down", "elsie/boxtree/layout.py: Layout.compute_size_request, set_rect"),
   ("size definitions", "elsie/boxtree/value.py: SizeValue")], SVGOBS,
  [("rect", "inner rectangle of a box after layout", "Layout.rect")])

p("C02", "Boxes are placed where stacking and positions say",
  "Children without a position on the parent's stacking axis are stacked without gaps or overlaps in layout order "
  "(prepended ones first), the group being centred in the parent unless fill boxes take up the rest; without a "
  "position on the other axis a child is centred. A position N, NN% or [NN%] puts the child at that offset, that "
  "fraction of the parent, or that alignment within the parent, on each axis independently.",
  "inputs programs", "every tree of boxes and every mix of automatic and explicit positions",
  "Stored SVGs cover about thirty hand-written layouts; nested horizontal/vertical mixes with explicit positions are not among them (two defects lived there).",
  "elsie/boxtree/layout.py elsie/boxtree/value.py",
  [("placement loop", "elsie/boxtree/layout.py: Layout.set_rect"), ("position definitions", "elsie/boxtree/value.py: PosValue")], SVGOBS)

p("C03", "Dynamic coordinates resolve to the final geometry",
  "A value or point obtained from a box or box item with x(), y(), p() or mid_point(), also through add() and map(), "
  "denotes the position of that box in the finished layout, whenever it was created: shapes, lines and boxes using it "
  "are drawn at exactly the referenced place plus the offset. Points given as numbers or strings are relative to the box they are drawn in.",
  "inputs programs", "every program that draws shapes or boxes relative to boxes already placed, whatever is added to the slide later",
  "The position is only known after the whole slide is built; tests use a handful of references in fixed slides.",
  "elsie/boxtree/lazy.py elsie/boxtree/layout.py elsie/boxtree/boxmixin.py elsie/boxtree/value.py",
  [("deferred evaluation", "elsie/boxtree/lazy.py: LazyValue, LazyPoint, unpack_point")], SVGOBS)

p("C04", "Exactly the boxes selected for a fragment are visible in it",
  "On every page of a slide an element is painted exactly once if its box and all enclosing boxes are selected for "
  "that fragment (default: always; N, N-M, N+, next, last and comma lists), and not at all otherwise. "
  "Hiding never moves or resizes anything: every element that is visible on two pages of a slide is drawn identically on both.",
  "inputs programs", "every nesting of fragment selectors and every element kind",
  "Tests check a few selectors on flat slides; hiding interacts with nesting, z-levels and all element kinds.",
  "elsie/slides/show.py elsie/boxtree/box.py elsie/slides/slide.py",
  [("selector", "elsie/slides/show.py: ShowInfo"), ("visibility pruning", "elsie/boxtree/box.py: Box.get_painters")], SVGOBS)

p("C05", "A slide has as many pages as its highest fragment; next and last follow it",
  "A slide yields exactly as many pages as the highest fragment mentioned anywhere in it (at least one), also by nested boxes, "
  "list items and image fragments. At any moment of building, current_fragment() is that maximum so far, 'last' denotes it and 'next' the one after.",
  "histories programs", "every sequence of boxes, lists and images with absolute and relative selectors",
  "The meaning of next/last depends on the whole history of calls; tests use two or three calls.",
  "elsie/slides/show.py elsie/slides/slide.py elsie/boxtree/boxmixin.py elsie/boxtree/box.py",
  [("running maximum", "elsie/slides/slide.py: Slide.max_step, steps"), ("relative selectors", "elsie/slides/show.py: replace_relative_steps")],
  ["number of render units per slide", "Box.current_fragment()"])

p("C06", "Paint order is tree order refined by z-level",
  "Elements are painted in the order in which they stand in their parents, where new ones are appended last, or first with prepend, or directly "
  "after (above=) or before (below=) the given sibling, a box's elements forming one run at its place. Elements of a box with a smaller z-level are "
  "painted before all those of larger ones, equal levels keeping tree order, and boxes inherit the z-level of their parent.",
  "inputs programs histories", "every order of creating boxes and drawing elements with prepend/above/below and z-levels",
  "What overlaps what depends on the whole sequence of insertions; tests compare two small slides.",
  "elsie/boxtree/box.py elsie/boxtree/boxmixin.py elsie/boxtree/boxitem.py elsie/render/backends/svg/backend.py",
  [("child insertion", "elsie/boxtree/box.py: Box.add_child"), ("painter sort", "elsie/render/backends/svg/backend.py: create_render_unit")], SVGOBS)

p("C07", "Text arrives in the slide character for character",
  "Every text drawn with text() or code() appears in the page with exactly its characters, in its lines (only trailing line breaks are dropped, tabs in code become "
  "spaces), for every Unicode text XML can carry, markup characters included, and the page is well-formed XML whatever names, colors, fonts and texts were used, in every locale. "
  "Lines of a text, empty ones included, are line_spacing times size apart and the block is centred vertically in its box, aligned left, middle or right in it.",
  "inputs", "every text, font name and style combination",
  "A few ASCII strings are compared; escaping and line handling must hold for every character.",
  "elsie/text/textparser.py elsie/utils/sxml.py elsie/render/backends/svg/draw.py elsie/text/textboxitem.py",
  [("XML writer", "elsie/utils/sxml.py: Xml"), ("tokenizer", "elsie/text/textparser.py: parse_text"), ("text painter", "elsie/render/backends/svg/draw.py: draw_text")], SVGOBS)

p("C08", "Inline styles apply to exactly their spans",
  "In a text with inline styles (~name{...}, nested, over line breaks, with custom escape characters) every character is drawn with its base style overridden by all "
  "enclosing inline styles from outside in, except those with a lower priority than the current one; the markup itself never shows. Names starting with '#' change nothing "
  "unless defined, unknown styles and unclosed spans are rejected.",
  "inputs", "every well-formed nesting of inline styles, style definitions and priorities",
  "Tests cover single and doubly nested spans; newlines inside nested spans with priorities (which broke the markup) are not covered.",
  "elsie/text/textparser.py elsie/text/textstyle.py elsie/render/backends/svg/draw.py",
  [("style stack", "elsie/render/backends/svg/draw.py: draw_text"), ("tokenizer", "elsie/text/textparser.py: parse_text, normalize_tokens")], SVGOBS)

p("C09", "Styles are inherited by value and never leak",
  "set_style and update_style on a deck, slide or box affect only things created there afterwards: never its parents, siblings, already created children, texts already drawn, or other slides, "
  "and a style object passed to or obtained from elsie can be changed without effect on anything drawn before. A text's style is the default style visible at its box overridden by the named "
  "or given style's defined attributes; update merges, set replaces (optionally on top of a base).",
  "histories programs", "every interleaving of style definitions, reads, in-place edits and drawing over a deck's objects",
  "Aliasing bugs show only in particular histories of definitions and edits; tests check a few.",
  "elsie/text/stylecontainer.py elsie/text/textstyle.py elsie/boxtree/box.py elsie/slides/slidedeck.py",
  [("copy-on-write style tables", "elsie/text/stylecontainer.py"), ("composition", "elsie/text/textstyle.py: compose_style")],
  SVGOBS + ["StyleContainer.get_style()/has_style()"])

p("C10", "Code listings show the code, with numbers and styles on top",
  "A code() element shows exactly the given source, tabs expanded, whatever the language, with inline styles (use_styles) removed from the text and applied to exactly their characters "
  "over the highlighting, and without them the text taken literally (where highlighting and inline styles overlap, the one starting later, or the shorter, is the inner one; blank lines at the very beginning of highlighted code may be dropped). With line_numbers, the lines carry consecutive numbers from 1 padded to equal width, in the style code_lineno (on top of styles spanning the line break), and nothing else changes.",
  "inputs", "every source text, language, nesting of inline styles and option combination",
  "Merging two independently nested token streams is tested on a few pairs; every overlap pattern must work.",
  "elsie/text/highlight.py elsie/text/textparser.py elsie/boxtree/boxmixin.py",
  [("token merge", "elsie/text/textparser.py: tokens_merge"), ("line numbers", "elsie/text/textparser.py: add_line_numbers"), ("highlighter", "elsie/text/highlight.py")], SVGOBS)

p("C11", "line_box and inline_box enclose the text they name",
  "line_box(i, n) covers exactly lines i to i+n-1 of its text, over the full width of the text's box; inline_box(style, k) covers exactly the k-th span of that inline style on its line, horizontally as measured and "
  "vertically the whole line (at most one unit taller). Spans starting with a line break and those split by highlighting are out of scope. This holds for every alignment, position, line spacing and scaling of the text, wherever the text's box ends up.",
  "inputs programs", "every text, span, alignment, box placement and scaling",
  "The boxes depend on late layout, alignment and text measurement; tests sample a few left-aligned texts.",
  "elsie/text/textboxitem.py elsie/text/textparser.py elsie/render/backends/svg/backend.py",
  [("line geometry", "elsie/text/textboxitem.py: line_box, _text_box_helper"), ("line extraction", "elsie/text/textparser.py: extract_line")], SVGOBS)

p("C12", "Scaled texts fit their box exactly",
  "A text or code with scale_to_fit is drawn uniformly scaled by the largest factor for which it fits the inner rectangle of its box, centred vertically and aligned as its style says, and does not enlarge a box whose size is defined. "
  "This does not depend on how often, in which fragments or after which other renders the slide is rendered.",
  "inputs histories", "every text, box size and number of renders",
  "The scale is computed by a callback during layout; tests render once.",
  "elsie/text/textboxitem.py elsie/boxtree/layout.py elsie/render/backends/svg/rcontext.py",
  [("layout callback", "elsie/text/textboxitem.py: TextBoxItem.__init__")], SVGOBS)

p("C13", "Images keep aspect ratio and fill or scale as requested",
  "An image (PNG, JPEG, SVG, ORA) is drawn undistorted and centred in its box: with scale, at its natural size times scale; without, as large as fits the box. A box without size takes the natural (scaled) size and one "
  "with a fixed dimension grows in the other one as the ratio needs (one defined only by percentage or fill does not). The natural size of an SVG is its width and height in CSS pixels in every unit, that of a photo (JPEG) its size in its EXIF orientation, and the image data embedded is the source's, byte for byte for bitmaps; rotation is about the image's centre.",
  "inputs", "every image size, unit, source kind, scale, box definition and rotation",
  "Image comparisons in the test-suite mostly fail or skip in this environment and use three files.",
  "elsie/boxtree/boxmixin.py elsie/boxtree/layout.py elsie/render/backends/svg/utils.py elsie/render/backends/svg/draw.py elsie/render/backends/svg/rcontext.py",
  [("image scaling", "elsie/boxtree/boxmixin.py: scaler, _image_bitmap, _image_svg"), ("image size request", "elsie/boxtree/layout.py: set_image_size_request"), ("units", "elsie/render/backends/svg/utils.py: svg_size_to_pixels")], SVGOBS)

p("C14", "Image fragments follow layer labels",
  "In an SVG or ORA image an element whose label ends in **selector is shown exactly in the fragments selected (relative to show_begin), hidden ones with everything inside them, everything else being unaffected; the slide gets as "
  "many fragments as the labels need. select_fragments=[..] shows the listed image fragment (None: nothing) in each fragment; fragments=False shows everything from show_begin on.",
  "inputs", "every nesting of labels, selectors, show_begin and select_fragments, also several images of the same file",
  "The stored-SVG tests for image fragments fail in this environment; the image tree is shared between uses and pages.",
  "elsie/render/image.py elsie/render/ora.py elsie/boxtree/boxmixin.py elsie/slides/show.py",
  [("layer filter", "elsie/render/image.py: create_image_data, get_image_steps"), ("ORA import", "elsie/render/ora.py: convert_ora_to_svg")], SVGOBS)

p("C15", "Rendering is repeatable and slides are independent",
  "Rendering a deck again, any subset of its slides in any order, or the same slide from another deck built the same way yields identical pages; rendering never alters what a later render shows, slides added or replaced later included. "
  "No slide's pages depend on the other slides of the deck, also when a picture file is changed between making them.",
  "histories programs", "every sequence of building, rendering, selecting and extending decks",
  "Tests render each deck once; state left over from a render only shows in the next one.",
  "elsie/slides/slidedeck.py elsie/slides/slide.py elsie/boxtree/layout.py elsie/text/textboxitem.py elsie/render/backends/svg/backend.py",
  [("prepare / make_render_unit", "elsie/slides/slide.py"), ("shared caches", "elsie/slides/slidedeck.py: temp_cache, fs_cache")], SVGOBS)

p("C16", "The output holds every page exactly once and in order",
  "The rendered PDF contains, for the selected slides in order, every fragment of each slide in order, external PDFs with all their pages at their place, nothing lost, duplicated or out of date; other formats return one file per page in that order, and export_pptx makes a presentation with one slide per page, the page's picture covering it. "
  "slides_per_page groups consecutive pages row by row into grids without changing their order or content, an external PDF keeping its place. Both PDF mergers give the same sequence.",
  "inputs histories configurations", "every deck, selection, grid shape, merger, export type and pre-existing cache",
  "The suite checks page counts of one or two decks; ordering depends on caches, external files and grouping together.",
  "elsie/slides/slidedeck.py elsie/render/render.py elsie/render/pdfmerge.py elsie/slides/slide.py elsie/ext/export.py",
  [("unit loop and merge", "elsie/slides/slidedeck.py: SlideDeck.render"), ("grouping", "elsie/render/render.py: per_page_grouping"), ("mergers", "elsie/render/pdfmerge.py")],
  ["pages of the written PDF", "returned file list", "commands received by the Inkscape process"])

p("C17", "The page cache is transparent, crash-safe and race-free",
  "Whatever the history of renders, edits, version changes, failures and crashes sharing a cache directory, every exported page is what exporting it afresh would give: a cached file is used only if it was completely produced from the same document by the same version. "
  "A page in the cache is not exported again; after a successful render with pruning no cached page remains that the deck has not used since its creation, and none it used in the render is missing. "
  "Concurrent requests for one entry build it once and all see the complete result, also when building it fails.",
  "histories schedules crash_points fault_sequences", "every history of renders over a shared cache, every crash or failure point in an export, every interleaving of concurrent requests",
  "Tests only exercise cold caches; staleness, truncated files, failed exports and races need histories and faults.",
  "elsie/utils/cache.py elsie/render/render.py elsie/render/inkscape.py elsie/slides/slidedeck.py",
  [("FsCache", "elsie/utils/cache.py: FsCache.ensure, remove_unused")],
  ["files in the cache directory", "pages of the output", "commands received by the Inkscape process", "FsCache.ensure() calls"],
  [("cache_files / touched_files / in_progress", "what is complete, used, being built", "FsCache")])

p("C18", "The text measurement cache never changes results and survives anything",
  "The geometry of a deck is the same with an empty, warm, pruned, foreign-version, truncated or damaged measurement cache, and after any history of renders, failures and crashes of processes sharing the cache directory. "
  "No text is measured twice with a warm cache, measurements made under another elsie or Inkscape version are not used, all of them are kept in the deck's cache directory, and pruning drops exactly the measurements that were not used since the backend was created.",
  "histories crash_points", "every history of decks and renders over a cache directory, every crash point while saving",
  "Tests run with cold caches and never crash or re-render.",
  "elsie/render/backends/svg/backend.py elsie/render/backends/svg/query.py elsie/slides/slidedeck.py",
  [("query cache", "elsie/render/backends/svg/backend.py: process_query, prune_cache, save_cache, _load_query_cache")],
  ["queries received by the Inkscape process", "SVG of render units"])

p("C19", "Inkscape is driven correctly and its failures surface",
  "Every measurement and export is performed on exactly the document it belongs to, in one open/select/query or open/export/close cycle with the requested type, target and text-to-path option, and its own answer is returned. "
  "Whatever Inkscape prints, and if it fails, dies, produces nothing or answers nonsense, elsie neither hangs nor goes on with a wrong value: the call raises, and later calls on a still living Inkscape are unaffected. The Inkscape used is the one given to the backend, else the one named by ELSIE_INKSCAPE.",
  "fault_sequences histories", "every sequence of queries and exports, every fault of the Inkscape process at any command",
  "Tests never see a failing Inkscape.",
  "elsie/render/inkscape.py elsie/render/backends/svg/query.py elsie/render/backends/svg/backend.py elsie/render/render.py",
  [("shell protocol", "elsie/render/inkscape.py: InkscapeShell")], ["commands and documents received by the Inkscape process"])

p("C20", "Slides keep their order and name policies hold",
  "Slides are rendered in creation order; under 'unique' a second slide of the same name is refused and changes nothing, under 'replace' it removes the older slide and is appended, under 'ignore' both stay, external PDFs never interfering; the default is 'replace' in a notebook and 'ignore' elsewhere. "
  "The @slide() decorator and new_slide behave the same, looking up a name returns the live slide of that name, and debug output of distinct pages never collides. "
  "Every page has the size of the deck, the view box of its slide, the slide's or else the deck's background behind everything else, and frames of boxes only where they were asked for.",
  "histories", "every sequence of slide creations, replacements, lookups and external PDFs",
  "Tests check single collisions only.",
  "elsie/slides/slidedeck.py elsie/slides/slide.py",
  [("name policy", "elsie/slides/slidedeck.py: _apply_name_policy")], ["order and identity of render units", "SlideDeck.get_slide_by_name()"])

p("C21", "Shapes, lines and arrows are drawn as specified",
  "rect, ellipse, polygon, line and path draw exactly the geometry, colors, stroke, dashes, corner radii and rotation (about the shape's centre) requested, relative to their box. "
  "Arrow heads have their tip exactly at the requested end of the line, point along its last segment with the given size, angle and inner shape in the line's color, and the line itself is shortened so that it does not show past the head but keeps its direction and all other points.",
  "inputs", "every shape, option combination and arrow geometry",
  "Fixed pictures cover a few orientations; direction and rotation formulas must hold for every angle.",
  "elsie/boxtree/boxmixin.py elsie/shapes/arrow.py elsie/shapes/path.py elsie/utils/geom.py elsie/render/backends/svg/draw.py",
  [("arrow geometry", "elsie/shapes/arrow.py"), ("SVG primitives", "elsie/render/backends/svg/draw.py")], SVGOBS)

p("C22", "The Cairo backend draws the same picture as the SVG backend",
  "For every slide, the page rendered by the Cairo backend shows the same picture as the SVG produced by the Inkscape backend for the same program: the same shapes, images and texts with the same places, sizes, colors, strokes, z-order, fragments, rotation, scaling and view box, in PNG and PDF (up to antialiasing and the widths of glyphs, which Pango rounds to pixels).",
  "programs configurations", "every slide built from shapes, images, styled texts, fragments and boxes",
  "The suite's Cairo comparisons fail in this environment or have a tolerance that hides displaced shapes.",
  "elsie/render/backends/cairo/rcontext.py elsie/render/backends/cairo/draw.py elsie/render/backends/cairo/shapes.py elsie/render/backends/cairo/svg.py elsie/render/backends/cairo/text.py elsie/render/backends/cairo/backend.py",
  [("Cairo primitives", "elsie/render/backends/cairo/")], ["PNG/PDF pages of the Cairo backend against a rasterisation of the SVG pages"])

p("C23", "Lists number, label, indent and nest correctly",
  "Ordered lists number their items consecutively from start at every nesting depth, prefixed by the numbers of the enclosing items (or the given level); labels may be strings or functions and are called once per item with the right counters. "
  "Items appear in order, each label on the line of its item and left of it by the label padding, sublists further right than their parents, and items are shown from the fragment current at their creation unless told otherwise.",
  "programs histories", "every sequence of items and sublists at any depth with any options",
  "Counters live in shared mutable state across builders; tests exercise two fixed trees.",
  "elsie/ext/list.py", [("ListBuilder", "elsie/ext/list.py")], SVGOBS)

p("C24", "Markdown renders its whole content in order with the right styles",
  "Every paragraph, heading, list, quote and code block of a supported Markdown document appears once, in document order, with its text complete and its emphasis, strong, link, heading, quote and code styling on exactly the marked characters, "
  "ordered lists numbered as written. User-defined md-* styles and inline elsie styles are honoured.",
  "inputs", "every document over the supported Markdown subset",
  "Tests render fixed documents; several of them fail in this environment.",
  "elsie/ext/markdown.py elsie/ext/list.py", [("node builders", "elsie/ext/markdown.py")], SVGOBS)

p("C25", "The Jupyter view shows every fragment of the slide",
  "The HTML of a slide contains, per fragment and in order, exactly the image rendered for it, navigation exactly when there are several fragments, with bounds matching their number, and identifiers unique per call. "
  "Displaying a slide never changes what is rendered later and deletes nothing from the caches.",
  "histories", "every slide and every interleaving of displaying, editing and rendering",
  "One test checks that HTML is produced.",
  "elsie/render/jupyter.py elsie/boxtree/box.py", [("render_slide_html", "elsie/render/jupyter.py")], ["Box._repr_html_()", "later renders"])

p("C26", "Debugging never changes the slides",
  "With debug_boxes every visible box is additionally framed at its real position with its name and true size, exactly once, and everything else is drawn the same at the same place; deck debug mode only adds output. "
  "Hidden boxes are not framed.",
  "programs", "every slide, with and without debugging",
  "Tests compare one debug slide.",
  "elsie/boxtree/box.py elsie/slides/slidedeck.py elsie/render/render.py", [("debug frames", "elsie/boxtree/box.py: _debug_paint")], SVGOBS)

p("C27", "Several LaTeX images on a page keep their own glyphs",
  "A LaTeX element shows the picture its own source compiled to: ids in different elements never collide and every reference inside one (also several in an attribute, or ids that are prefixes of one another) still points to its own definition. "
  "The same source is compiled once per cache, different sources never share a result, and a failing compilation is reported and not cached.",
  "inputs histories fault_sequences", "every set of converted documents and every history of compilations sharing a cache",
  "No LaTeX is installed where the tests run.",
  "elsie/ext/latex.py elsie/render/backends/svg/utils.py elsie/utils/cache.py",
  [("id renaming", "elsie/render/backends/svg/utils.py: rename_ids"), ("LaTeX pipeline", "elsie/ext/latex.py")],
  SVGOBS + ["invocations of stand-in pdflatex / pdf2svg programs"])

p("C28", "Malformed calls are refused and leave the slide as it was",
  "A call with arguments that no documented format allows raises an exception: a size, position or fragment selector that is not well-formed, above/below naming no child of the box (or both given), bad points or path commands, "
  "an unclosed or unknown inline style, an unknown style, language or image type, a missing or broken image file or a malformed selector in an image's label, a bad style attribute, view box or (under 'unique') slide name, a list label that is neither string nor function, an empty slide selection, an unknown name policy. "
  "After it, slides, fragments, styles, list counters and all pages are the same as if the call had never been made, so the author can go on (in a notebook, say) with the corrected one.",
  "inputs histories programs", "every malformed argument of every call, at any moment of building a deck, on any box or item",
  "Tests check that a few bad arguments raise, never what the slide looks like afterwards (three defects lived there).",
  "elsie/boxtree/boxmixin.py elsie/boxtree/box.py elsie/boxtree/value.py elsie/boxtree/lazy.py elsie/slides/show.py elsie/slides/slidedeck.py elsie/shapes/path.py elsie/text/textstyle.py elsie/text/textparser.py elsie/text/stylecontainer.py elsie/ext/list.py",
  [("size and position formats", "elsie/boxtree/value.py"), ("selector format", "elsie/slides/show.py: ShowInfo.parse"), ("box creation", "elsie/boxtree/boxmixin.py: BoxMixin.box"),
   ("image loading", "elsie/boxtree/boxmixin.py: _image_svg")], ["exceptions of the API calls"] + SVGOBS)

p("C29", "The documentation shows its code and exactly what the code draws",
  "The documentation plugins keep every line of a page as it is, except that a fence of an elsie block names python and links to API keys get their URLs (an unknown key is refused). After every elsie block, and nowhere else, stands the "
  "slide that the block's code draws, preceded only by the library blocks of the same page: each fragment once and in order, with the block's size, border and debug options, without the skipped lines and in the configured format; "
  "code that fails fails the build. Every sample of the documentation and every example runs, examples giving as many pages as their committed PDFs, and every API link names an existing object.",
  "inputs programs", "every page with any fences, options, library blocks, code and links",
  "No test runs the plugins, the samples or the examples (four defects lived there).",
  "docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py docs/mkdocs-nedoc-plugin/mkdocs_nedoc_plugin/__init__.py elsie/render/jupyter.py",
  [("page rewriting", "docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py: iterate_fences, render_slide"), ("API links", "docs/mkdocs-nedoc-plugin/mkdocs_nedoc_plugin/__init__.py: on_page_markdown"),
   ("samples", "docs/userguide/*.md, docs/cookbook/*.md, examples/*/*.py")], ["the Markdown pages the plugins return, with the drawings in them", "PDF files written by the examples"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
