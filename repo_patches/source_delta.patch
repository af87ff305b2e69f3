From b6179565bfe22c17d53e529d7b41bfb93962c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 01/76] fix: resolve relative y of children of horizontal boxes
 against the parent height

---
 elsie/boxtree/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index dd2039b..7de68a5 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -162,7 +162,7 @@ class Layout:
                 w = w.compute(rect.width, fill_unit)
                 h = h.compute(rect.height, None)
                 if child._y is not None:
-                    y = child._y.compute(rect.y, rect.width, h)
+                    y = child._y.compute(rect.y, rect.height, h)
                 else:
                     y = rect.y + (rect.height - h) / 2
                 if child._x is None:
-- 
2.43.0


From 2bf4483500c35635810a4835aa9a33753bae0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 02/76] fix: fill size of explicitly positioned boxes covers
 the parent instead of a sibling share

---
 elsie/boxtree/layout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index 7de68a5..0949773 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -146,9 +146,11 @@ class Layout:
 
         for child in self.children:
             w, h = child.compute_size_request()
+            # Only managed children share the free space
+            unit = fill_unit if child.is_managed(self.horizontal) else None
             if not self.horizontal:
                 w = w.compute(rect.width, None)
-                h = h.compute(rect.height, fill_unit)
+                h = h.compute(rect.height, unit)
                 if child._x is not None:
                     x = child._x.compute(rect.x, rect.width, w)
                 else:
@@ -159,7 +161,7 @@ class Layout:
                 else:
                     y = child._y.compute(rect.y, rect.height, h)
             else:
-                w = w.compute(rect.width, fill_unit)
+                w = w.compute(rect.width, unit)
                 h = h.compute(rect.height, None)
                 if child._y is not None:
                     y = child._y.compute(rect.y, rect.height, h)
-- 
2.43.0


From 5be2a5f0a0acdf0ca6ba8e8a175e7b9c5e2179bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 03/76] fix: escape apostrophes in XML attribute values

---
 elsie/utils/sxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index a190d65..385de41 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -22,9 +22,10 @@ class Xml:
 
     def set(self, name, value, escape=True):
         assert self.is_open
+        value = escape_text(str(value))
         if escape:
-            value = str(value).replace("'", "\\'")
-        self.chunks.append(" {}='{}'".format(name, escape_text(value)))
+            value = value.replace("'", "&apos;")
+        self.chunks.append(" {}='{}'".format(name, value))
 
     def text(self, text):
         self._close()
-- 
2.43.0


From 037d5377f9171a91858531627849f916616956ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 04/76] fix: doubled escape character in texts stands for
 itself, as documented

---
 elsie/text/textparser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 81860e0..8e29493 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -61,7 +61,12 @@ def parse_text(text, escape_char="~", begin_char="{", end_char="}"):
     counter = 0
     while i < len(text):
         c = text[i]
-        if c == escape_char:
+        if c == escape_char and text[i + 1 : i + 2] == escape_char:
+            # Doubled escape character stands for the character itself
+            result.append(("text", text[start : i + 1]))
+            i += 2
+            start = i
+        elif c == escape_char:
             result.append(("text", text[start:i]))
             i += 1
             start = i
-- 
2.43.0


From 5b6e16c4b2602aa2b549b027f1a74394f5c9886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 05/76] fix: keep markup and priorities balanced when dummy or
 suppressed inline styles span lines

---
 elsie/render/backends/svg/draw.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 6b52060..7ae3554 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -82,14 +82,13 @@ def draw_text(
             for _ in active_styles:
                 xml.close("tspan")  # tspan
             for j, s in enumerate(active_styles):
-                if s is None:
-                    continue
                 xml.element("tspan")
                 xml.set("xml:space", "preserve")
                 if j == 0:
                     xml.set("x", x)
                     xml.set("dy", line_size * value)
-                set_font_from_style(xml, s)
+                if s is not None:
+                    set_font_from_style(xml, s)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
@@ -110,14 +109,16 @@ def draw_text(
         elif token_type == "end":
             xml.close("tspan")
             active_styles.pop()
-            if active_styles and active_styles[-1] is not None:
-                current_priority = active_styles[-1].priority
+            # Go back to the priority of the innermost style that has an effect
+            for s in reversed(active_styles):
+                if s is not None:
+                    current_priority = s.priority
+                    break
         else:
             raise Exception("Invalid token")
 
-    for s in active_styles:
-        if s is not None:
-            xml.close("tspan")
+    for _ in active_styles:
+        xml.close("tspan")
     xml.close("text")
 
 
-- 
2.43.0


From af71084129750e27c9ae86c70ddc06baf9a204dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 06/76] fix: inline styles can switch bold and italic off

---
 elsie/render/backends/svg/draw.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 7ae3554..f8af833 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -16,10 +16,10 @@ def set_font_from_style(xml, style):
         s += "fill:{};".format(style.color)
     if style.opacity is not None:
         s += f"fill-opacity:{style.opacity};"
-    if style.bold:
-        s += "font-weight: bold;"
-    if style.italic:
-        s += "font-style: italic;"
+    if style.bold is not None:
+        s += "font-weight: bold;" if style.bold else "font-weight: normal;"
+    if style.italic is not None:
+        s += "font-style: italic;" if style.italic else "font-style: normal;"
     if s:
         xml.set("style", s)
 
-- 
2.43.0


From d855d546999bc163cdbdac108aa1b2890cc7f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 07/76] fix: honour variant_numeric of inline styles

---
 elsie/render/backends/svg/draw.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index f8af833..9245122 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -89,6 +89,8 @@ def draw_text(
                     xml.set("dy", line_size * value)
                 if s is not None:
                     set_font_from_style(xml, s)
+                    if j > 0 and s.variant_numeric:
+                        xml.set("font-variant-numeric", s.variant_numeric)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
@@ -106,6 +108,8 @@ def draw_text(
             xml.set("xml:space", "preserve")
             if s:
                 set_font_from_style(xml, s)
+                if s.variant_numeric:
+                    xml.set("font-variant-numeric", s.variant_numeric)
         elif token_type == "end":
             xml.close("tspan")
             active_styles.pop()
-- 
2.43.0


From 4db81d2858bdd33643bbd8277e1b81cddabb2a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 08/76] fix: store named styles by value, later edits of a
 style object do not restyle drawn texts

---
 elsie/text/stylecontainer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/text/stylecontainer.py b/elsie/text/stylecontainer.py
index 15dda3c..1c0b97a 100644
--- a/elsie/text/stylecontainer.py
+++ b/elsie/text/stylecontainer.py
@@ -18,7 +18,7 @@ class StyleContainer:
         old_style.update(style)
         self._styles = self._styles.copy()
         self._styles[style_name] = old_style
-        return old_style
+        return old_style.copy()
 
     def set_style(self, style_name: str, style: TextStyle, base="default"):
         """
@@ -40,8 +40,9 @@ class StyleContainer:
             base_style = self.get_style(base)
             base_style.update(style)
             style = base_style
+        # Store a copy, texts that were already drawn refer to the stored styles
         self._styles = self._styles.copy()
-        self._styles[style_name] = style
+        self._styles[style_name] = style.copy()
         return style
 
     def get_style(self, style: Union[str, TextStyle], full_style=False) -> TextStyle:
-- 
2.43.0


From 7ec9dd76a8d6b6f2b30f3e31a33bf73f91c37ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 09/76] fix: code in languages with non-standard pygments
 tokens (e.g. yaml) can be drawn

---
 elsie/text/highlight.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elsie/text/highlight.py b/elsie/text/highlight.py
index de12711..570b805 100644
--- a/elsie/text/highlight.py
+++ b/elsie/text/highlight.py
@@ -2,6 +2,7 @@ from pygments import highlight
 from pygments.formatter import Formatter
 from pygments.lexers import get_lexer_by_name
 from pygments.styles import get_style_by_name
+from pygments.token import STANDARD_TYPES
 
 from .textparser import NEWLINE_1, normalize_tokens
 from .textstyle import TextStyle
@@ -18,6 +19,10 @@ class MyFormatter(Formatter):
             if value == "\n":
                 stream.append(NEWLINE_1)
             else:
+                # Themes define styles only for standard tokens, the other ones
+                # are drawn as their closest standard ancestor
+                while ttype not in STANDARD_TYPES:
+                    ttype = ttype.parent
                 stream.append(("begin", "pygments-" + str(ttype)))
                 if "\n" in value:
                     for t in value.split("\n"):
-- 
2.43.0


From c8f939873bda8ef34d8adc4f383f89f420776369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 10/76] fix: inline styles of code can start with line breaks
 at the beginning of the text

---
 elsie/boxtree/boxmixin.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 369e28f..343535e 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -717,25 +717,18 @@ class BoxMixin:
 
         if language:
             if use_styles:
-                # pygments strips newlines at the beginning
-                # of whole text
-                # and it makes a problem with mering styles
-                # therefore we strips newlines right away
-
-                start_newlines = 0
-                while text.startswith("\n"):
-                    start_newlines += 1
-                    text = text[1:]
-
                 ptext = parse_text(
                     text, escape_char, begin_char=begin_char, end_char=end_char
                 )
                 text = tokens_to_text_without_style(ptext)
             parsed_text = highlight_code(text, language)
             if use_styles:
-                parsed_text = tokens_merge(parsed_text, ptext)
+                # pygments strips newlines at the beginning of the whole text,
+                # give them back as they can also be inside of inline styles
+                start_newlines = len(text) - len(text.lstrip("\n"))
                 if start_newlines:
                     parsed_text.insert(0, ("newline", start_newlines))
+                parsed_text = tokens_merge(parsed_text, ptext)
         else:
             parsed_text = parse_text(
                 text,
-- 
2.43.0


From 3ddc208626f579c7095b04623935e2a77f70327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 11/76] fix: keep nesting of inline styles in highlighted code
 when a token ends inside of them

---
 elsie/text/textparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 8e29493..00cd474 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -190,7 +190,7 @@ def tokens_merge(tokens1, tokens2):
             else:
                 break
         del opened[pos]
-        result.extend(reopen)
+        result.extend(reversed(reopen))
     assert not opened
     return normalize_tokens(result)
 
-- 
2.43.0


From 3a03bff9edd21f2a9bedec365734a44a8ff47c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 12/76] fix: ignore empty tokens of lexers when combining
 inline styles with highlighting

---
 elsie/text/highlight.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/text/highlight.py b/elsie/text/highlight.py
index 570b805..fdc07e8 100644
--- a/elsie/text/highlight.py
+++ b/elsie/text/highlight.py
@@ -16,6 +16,8 @@ class MyFormatter(Formatter):
     def format(self, tokensource, outfile):
         stream = self.stream
         for ttype, value in tokensource:
+            if not value:
+                continue  # Some lexers produce empty tokens
             if value == "\n":
                 stream.append(NEWLINE_1)
             else:
-- 
2.43.0


From 2f9950e2f2d021693429ba4da040b2ad3f5624f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 13/76] fix: texts with scale_to_fit keep their scale when a
 slide is rendered again

---
 elsie/text/textboxitem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textboxitem.py b/elsie/text/textboxitem.py
index b92b1c4..ded4331 100644
--- a/elsie/text/textboxitem.py
+++ b/elsie/text/textboxitem.py
@@ -34,9 +34,11 @@ class TextBoxItem(BoxItem):
         self._make_query(box.slide.slides.backend)
 
         if scale_to_fit:
+            # The callback is called in each layout computation,
+            # the scale has to be always computed from the original size
+            tw, th = self._text_size
 
             def callback(rect):
-                tw, th = self._text_size
                 if tw > 0.00001 and th > 0.00001:
                     scale = min(rect.width / tw, rect.height / th)
                     self._text_size = (tw * scale, th * scale)
-- 
2.43.0


From 95ed7d2cc2cd4030ac37a5a484ba5a84a9f70f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 14/76] fix: natural size of SVG images given in in, pc and Q

---
 elsie/render/backends/svg/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index a123166..d66d44d 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -33,6 +33,12 @@ def svg_size_to_pixels(text):
         factor = 37.7953
     elif suffix == "pt":
         factor = 1.33333
+    elif suffix == "in":
+        factor = 96.0
+    elif suffix == "pc":
+        factor = 16.0
+    elif suffix == "Q":
+        factor = 0.944882
     else:
         factor = 1.0
     return float(text) * factor
-- 
2.43.0


From 7902afaaa7c95ccfe30aa73e45cd02c5f023e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 15/76] fix: fragment labels of images are honoured even if
 they mention only the first fragment

---
 elsie/boxtree/boxmixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 343535e..335b15d 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -616,7 +616,7 @@ class BoxMixin:
 
         image_data = None
 
-        if image_steps == 1 and not select_fragments:
+        if not fragments and select_fragments is None:
             image_data = et.tostring(root).decode()
 
         def draw(ctx):
-- 
2.43.0


From eaec73c043accc11c76554083d8b5fd0bf28ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 16/76] fix: hiding an element of an image keeps the text that
 follows it

---
 elsie/render/image.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/elsie/render/image.py b/elsie/render/image.py
index bb50de6..8cc7eb8 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -33,5 +33,12 @@ def create_image_data(root, step):
     root = deepcopy(root)
     find_hidden_elements(root)
     for element, child in hidden:
+        # The text following the hidden element does not belong to it
+        if child.tail:
+            previous = child.getprevious()
+            if previous is not None:
+                previous.tail = (previous.tail or "") + child.tail
+            else:
+                element.text = (element.text or "") + child.tail
         element.remove(child)
     return et.tostring(root).decode()
-- 
2.43.0


From 434937e99f8205fad6f1acdfbca564e3fabec98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 17/76] fix: optional attributes of layers and stacks in ORA
 images

---
 elsie/render/ora.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/elsie/render/ora.py b/elsie/render/ora.py
index 1bd7297..0e8ef30 100644
--- a/elsie/render/ora.py
+++ b/elsie/render/ora.py
@@ -62,20 +62,20 @@ def convert_ora_to_svg(filename):
 
 
 def _check_visibility(element):
-    return element.get("visibility") == "visible"
+    return element.get("visibility", "visible") == "visible"
 
 
 def _stack_to_svg(element, xml, sources):
     if not _check_visibility(element):
         return
     xml.element("g")
-    x, y = element.get("x"), element.get("y")
+    x, y = element.get("x", "0"), element.get("y", "0")
     if x != "0" or y != "0":
         xml.set("transform", "translate({}, {})".format(x, y))
-    opacity = float(element.get("opacity"))
+    opacity = float(element.get("opacity", 1.0))
     if opacity < 0.9999:
         xml.set("opacity", opacity)
-    xml.set("inkscape:label", element.get("name"))
+    xml.set("inkscape:label", element.get("name", ""))
     _children_to_svg(element, xml, sources)
     xml.close("g")
 
@@ -87,14 +87,14 @@ def _layer_to_svg(element, xml, sources):
     if source is None:
         return
     data, mime, x, y, image_width, image_height = source
-    extra_args = [("inkscape:label", element.get("name"))]
-    opacity = float(element.get("opacity"))
-    if opacity is not None and opacity < 0.9999:
+    extra_args = [("inkscape:label", element.get("name", ""))]
+    opacity = float(element.get("opacity", 1.0))
+    if opacity < 0.9999:
         extra_args.append(("opacity", opacity))
     draw_bitmap(
         xml,
-        float(element.get("x")) + x,
-        float(element.get("y")) + y,
+        float(element.get("x", 0)) + x,
+        float(element.get("y", 0)) + y,
         image_width,
         image_height,
         mime,
-- 
2.43.0


From a32c916e631a292ce234a03c1dc9e2eea410042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 18/76] fix: black parts of ORA layers without alpha channel
 are drawn

---
 elsie/render/ora.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/render/ora.py b/elsie/render/ora.py
index 0e8ef30..e7fbcc4 100644
--- a/elsie/render/ora.py
+++ b/elsie/render/ora.py
@@ -25,7 +25,10 @@ def convert_ora_to_svg(filename):
             if src is not None and src not in sources:
                 with archive.open(src) as f:
                     img = Image.open(f)
-                    box = img.getbbox()
+                    if "A" in img.getbands():
+                        box = img.getbbox()
+                    else:
+                        box = (0, 0) + img.size
 
                     if box is None:
                         sources[src] = None
-- 
2.43.0


From 523506f459b77373413ccc12e90996b0ad8f3014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 19/76] fix: entries of the file cache are built once and only
 complete files are used, also after failures and crashes

---
 elsie/utils/cache.py | 74 ++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 2ba5f68..e13735e 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -41,42 +41,64 @@ class FsCache:
         full_path = self._full_path(cache_file)
         with self.lock:
             self.touched_files.add(cache_file)
-            condition = self.in_progress.get(cache_file)
-            if condition is not None:
-                if wait_on_collision:
-                    condition.wait()
-                    assert cache_file in self.cache_files
-                return full_path
-            if cache_file in self.cache_files:
+            while not self._is_cached(cache_file):
+                condition = self.in_progress.get(cache_file)
+                if condition is None:
+                    condition = threading.Condition(self.lock)
+                    self.in_progress[cache_file] = condition
+                    break
+                if not wait_on_collision:
+                    return full_path
+                condition.wait()
+            else:
                 return full_path
 
-        condition = threading.Condition(self.lock)
-        self.in_progress[cache_file] = condition
-        constructor(input_data, full_path, data_type)
-        with self.lock:
-            self.cache_files.add(cache_file)
-            del self.in_progress[cache_file]
-            condition.notify_all()
+        created = False
+        try:
+            self._create(
+                cache_file, lambda target: constructor(input_data, target, data_type)
+            )
+            created = True
+        finally:
+            with self.lock:
+                if created:
+                    self.cache_files.add(cache_file)
+                del self.in_progress[cache_file]
+                condition.notify_all()
         return full_path
 
+    def _is_cached(self, cache_file):
+        # The file may be removed by another user of the cache directory
+        return cache_file in self.cache_files and os.path.isfile(
+            self._full_path(cache_file)
+        )
+
+    def _create(self, cache_file, write_fn):
+        """Creates a cache file by calling `write_fn` with a temporary path. The file gets its
+        final name when it is complete, hence a failed or interrupted call of `write_fn`
+        never leaves a partial file in the cache."""
+        temp_path = self._full_path(
+            "cache.{}.tmp.{}".format(next(tempfile._get_candidate_names()), cache_file)
+        )
+        try:
+            write_fn(temp_path)
+            os.replace(temp_path, self._full_path(cache_file))
+        finally:
+            if os.path.isfile(temp_path):
+                os.remove(temp_path)
+
     def remove_unused(self):
         for filename in self.cache_files.difference(self.touched_files):
             os.remove(self._full_path(filename))
 
     def get(self, input_data, data_type, constructor):
-        cache_file = self._get_filename(input_data, data_type)
-        self.touched_files.add(cache_file)
-        full_path = os.path.join(self.cache_dir, cache_file)
-
-        if cache_file in self.cache_files:
-            with open(full_path, "r") as f:
-                return f.read()
+        def write_file(input_data, target, _data_type):
+            result = constructor(input_data)
+            with open(target, "w") as f:
+                f.write(result)
 
-        result = constructor(input_data)
-        with open(full_path, "w") as f:
-            f.write(result)
-        self.cache_files.add(cache_file)
-        return result
+        with open(self.ensure(input_data, data_type, write_file), "r") as f:
+            return f.read()
 
 
 def get_cache_file_path(directory: str, extension: str) -> str:
-- 
2.43.0


From 08c77678c6b99814fbda2bb7efc79b5758d5dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:22 +0000
Subject: [PATCH 20/76] fix: files pruned from the cache are not considered
 cached in next renders

---
 elsie/utils/cache.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index e13735e..cc5a6ed 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -1,3 +1,4 @@
+import contextlib
 import hashlib
 import os
 import tempfile
@@ -88,8 +89,12 @@ class FsCache:
                 os.remove(temp_path)
 
     def remove_unused(self):
-        for filename in self.cache_files.difference(self.touched_files):
-            os.remove(self._full_path(filename))
+        with self.lock:
+            unused = self.cache_files.difference(self.touched_files)
+            self.cache_files.difference_update(unused)
+        for filename in unused:
+            with contextlib.suppress(FileNotFoundError):
+                os.remove(self._full_path(filename))
 
     def get(self, input_data, data_type, constructor):
         def write_file(input_data, target, _data_type):
-- 
2.43.0


From 56b64cbff66019b82a49f836ca26422d859bcb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 21/76] fix: pruning of the query cache keeps queries used
 before the previous render

---
 elsie/render/backends/svg/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 3135c28..c792d44 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -80,8 +80,7 @@ class InkscapeBackend(Backend):
         return SvgRenderUnit(slide, step, ctx.render(), self.inkscape)
 
     def prune_cache(self):
-        self.query_cache = self.used_query_cache
-        self.used_query_cache = {}
+        self.query_cache = self.used_query_cache.copy()
 
     def save_cache(self):
         self._save_query_cache(self.query_cache)
-- 
2.43.0


From 2ca508a20e2157b9a0e27b54ec13d4c17a5ab17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 22/76] fix: damaged query cache is dropped and the cache is
 saved atomically

---
 elsie/render/backends/svg/backend.py | 34 ++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index c792d44..0899b91 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -3,6 +3,7 @@ import os
 import re
 from typing import Union
 
+from ....utils.cache import get_cache_file_path
 from ....utils.sxml import Xml
 from ....version import VERSION
 from ...inkscape import InkscapeShell
@@ -115,17 +116,25 @@ class InkscapeBackend(Backend):
     def _load_query_cache(self):
         cache_file = self._query_cache_file()
         if os.path.isfile(cache_file):
-            with open(cache_file) as f:
-                cache_config = json.load(f)
-            if cache_config.get("version") != VERSION:
+            try:
+                with open(cache_file) as f:
+                    cache_config = json.load(f)
+                version = cache_config.get("version")
+                inkscape = cache_config.get("inkscape")
+                queries = {
+                    (method, data): float(value)
+                    for (method, data), value in cache_config.get("queries", ())
+                }
+            except (ValueError, TypeError, AttributeError, RecursionError):
+                print("Query cache is damaged; cache dropped")
+                return {}
+            if version != VERSION:
                 print("Elsie version changed; cache dropped")
                 return {}
-            if cache_config.get("inkscape") != self.inkscape_version:
+            if inkscape != self.inkscape_version:
                 print("Inkscape version changed; cache dropped")
                 return {}
-            return dict(
-                (tuple(key), value) for key, value in cache_config.get("queries", ())
-            )
+            return queries
         else:
             return {}
 
@@ -136,5 +145,12 @@ class InkscapeBackend(Backend):
             "inkscape": self.inkscape_version,
             "queries": list(cache.items()),
         }
-        with open(cache_file, "w") as f:
-            json.dump(cache_config, f)
+        # The file is replaced at once to never leave a partially written cache
+        temp_file = get_cache_file_path(self.cache_dir, "tmp")
+        try:
+            with open(temp_file, "w") as f:
+                json.dump(cache_config, f)
+            os.replace(temp_file, cache_file)
+        finally:
+            if os.path.isfile(temp_file):
+                os.remove(temp_file)
-- 
2.43.0


From 304a68a1729063f4c726b08bccfecd1031cf0d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 23/76] fix: failure of the Inkscape process is reported
 instead of waiting forever

---
 elsie/render/inkscape.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 87ef6b6..293a816 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -37,6 +37,11 @@ class InkscapeShell:
         stdout = self.process.stdout
         while True:
             character = stdout.read(1)
+            if not character:
+                raise Exception(
+                    "Inkscape was terminated unexpectedly, its last output: "
+                    f"{repr(''.join(chars))}"
+                )
             if (
                 character == " "
                 and chars
-- 
2.43.0


From 07ab914ef40486359cbd8d362f843a33288d5e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 24/76] fix: error output of Inkscape cannot block it

---
 elsie/render/inkscape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 293a816..b250fcd 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -22,7 +22,7 @@ class InkscapeShell:
             [inkscape_bin, "--shell"],
             stdout=subprocess.PIPE,
             stdin=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            stderr=subprocess.DEVNULL,
             universal_newlines=True,
         )
         self.wait_for_prompt()
-- 
2.43.0


From 4af1e4e33fc1f1efc41317df0623f3b294f936ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 25/76] fix: document is closed in Inkscape also when its
 processing fails

---
 elsie/render/inkscape.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index b250fcd..94eab81 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -11,8 +11,10 @@ def svg_file_input(inkscape, svg: str, binary=False):
         f.write(svg)
         f.flush()
         inkscape.run_command(f"file-open:{f.name}")
-        yield
-        inkscape.run_command("file-close")
+        try:
+            yield
+        finally:
+            inkscape.run_command("file-close")
 
 
 class InkscapeShell:
-- 
2.43.0


From d170878c6473b505aa9fe2f4ccc8ac245b89f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 26/76] fix: pages exported with and without text_to_path do
 not share cached files

---
 elsie/render/backends/svg/backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 0899b91..23adab0 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -70,7 +70,10 @@ class InkscapeBackend(Backend):
         self.used_query_cache = {}
 
     def get_version(self, elsie_version: str) -> str:
-        return f"{elsie_version}/{self.inkscape_version}"
+        version = f"{elsie_version}/{self.inkscape_version}"
+        if self.inkscape.text_to_path:
+            version += "/text-to-path"
+        return version
 
     def create_render_unit(self, slide, step, export_type):
         ctx = SvgRenderingContext(slide, step, slide.debug_boxes)
-- 
2.43.0


From 2c8e1db65ad4f0102265dd376292472ba39264a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 27/76] fix: names of slides can be used in decks with external
 PDFs

---
 elsie/slides/slide.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elsie/slides/slide.py b/elsie/slides/slide.py
index 541636f..aa88042 100644
--- a/elsie/slides/slide.py
+++ b/elsie/slides/slide.py
@@ -70,6 +70,7 @@ class Slide:
 class ExternPdfSlide:
     def __init__(self, filename):
         self.filename = os.path.abspath(filename)
+        self.name = None
 
     def prepare(self):
         pass
-- 
2.43.0


From 3dbd14d4a2785d22b6b53659133be92d4470b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 28/76] fix: slide_postprocessing works in decks with external
 PDFs

---
 elsie/slides/slidedeck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index e948eca..a2497ee 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -331,7 +331,9 @@ class SlideDeck(StyleContainer):
                 )
 
         if slide_postprocessing:
-            slide_postprocessing([slide.box() for slide in select_slides])
+            slide_postprocessing(
+                [slide.box() for slide in select_slides if isinstance(slide, Slide)]
+            )
 
         if prune_cache:
             self.backend.prune_cache()
-- 
2.43.0


From 6f1e4409d5f8e3d4a9d7f33bb22bac1b115e0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 29/76] fix: external PDF keeps its place when more slides are
 put on a page

---
 elsie/render/render.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/render/render.py b/elsie/render/render.py
index 62574f7..67a0749 100644
--- a/elsie/render/render.py
+++ b/elsie/render/render.py
@@ -91,7 +91,10 @@ def per_page_grouping(backend, units, count_x, count_y, width, height):
     for unit in units:
         svg = unit.get_svg()
         if svg is None:
+            close()
             new_units.append(unit)
+            xml = new()
+            idx = 0
             continue
 
         if idx == limit:
-- 
2.43.0


From 9142cec830b183e105ed471ead46c5b713769049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 30/76] fix: debug files of a replacing slide do not overwrite
 those of another slide

---
 elsie/slides/slidedeck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index a2497ee..257ba74 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -78,6 +78,7 @@ class SlideDeck(StyleContainer):
         self.debug = debug
         self.bg_color = bg_color
         self._slides = []
+        self._new_slide_index = 0
         styles = {
             "default": TextStyle(
                 font="sans-serif",
@@ -150,7 +151,7 @@ class SlideDeck(StyleContainer):
 
         slide = Slide(
             self,
-            len(self._slides),
+            self._new_slide_index,
             self.width,
             self.height,
             self._styles.copy(),
@@ -160,6 +161,7 @@ class SlideDeck(StyleContainer):
             name,
             debug_boxes,
         )
+        self._new_slide_index += 1
         self._slides.append(slide)
         box = slide.box()
         if bg_color is None:
@@ -214,6 +216,7 @@ class SlideDeck(StyleContainer):
     def add_pdf(self, filename: str):
         """Adds raw PDF into the resulting slides."""
         self._slides.append(ExternPdfSlide(filename))
+        self._new_slide_index += 1
 
     def _show_progress(self, name, value=0, max_value=0, first=False, last=False):
         if not first:
-- 
2.43.0


From 84adb802f565464f26476e7f5b587a55ea447bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 31/76] fix: edges of shapes with zero stroke width are not
 drawn

---
 elsie/render/backends/cairo/draw.py | 2 +-
 elsie/render/backends/svg/draw.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index ad6268e..940e0d5 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -39,7 +39,7 @@ def fill_shape(ctx, callback, bg_color):
 
 def stroke_shape(ctx, callback, color, stroke_width=None, stroke_dasharray=None):
     ctx.set_source_rgb(*get_rgb_color(color))
-    stroke_width = stroke_width or 1
+    stroke_width = 1 if stroke_width is None else stroke_width
     ctx.set_line_width(stroke_width)
     if stroke_dasharray:
         ctx.set_dash([float(v) for v in stroke_dasharray.split()])
diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 9245122..d561954 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -34,7 +34,7 @@ def set_paint_style(
         styles.append("fill:none")
 
     if color:
-        stroke_width = stroke_width or 1
+        stroke_width = 1 if stroke_width is None else stroke_width
         styles.append(f"stroke:{color}")
         styles.append(f"stroke-width:{stroke_width}")
         if stroke_dasharray:
-- 
2.43.0


From c7aaad1a9c3531769532e2dba3558b92b6c4310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 32/76] fix: zero radius of rectangle corners is not replaced
 by the other radius

---
 elsie/render/backends/svg/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index d561954..7226df9 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -152,9 +152,9 @@ def draw_rect(xml, rect: Rect, rx=None, ry=None, rotation=None, **kwargs):
     xml.set("y", rect.y)
     xml.set("width", rect.width)
     xml.set("height", rect.height)
-    if rx:
+    if rx is not None:
         xml.set("rx", rx)
-    if ry:
+    if ry is not None:
         xml.set("ry", ry)
     if rotation:
         apply_rotation(xml, rotation, rect.mid_point)
-- 
2.43.0


From d56ac6e30db6a73af47ff32e35d0dad9a2e7a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 33/76] fix: arrow after a smooth quadratic curve points along
 the curve

---
 elsie/shapes/path.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/elsie/shapes/path.py b/elsie/shapes/path.py
index 701f7a1..94c9234 100644
--- a/elsie/shapes/path.py
+++ b/elsie/shapes/path.py
@@ -39,13 +39,34 @@ def path_points_for_end_arrow(commands):
             "Current version supports path when last command is 'C', 'S', 'Q' ot 'T' "
             "(got '{}')".format(name)
         )
-    if len(pairs) >= 2:
+    if name == "T":
+        # The control point is not written, it follows from the previous segments
+        control = _smooth_control_point(commands)
+        if control is not None:
+            return control, pairs[-1]
+    elif len(pairs) >= 2:
         return pairs[-2], pairs[-1]
-    if len(commands) >= 2:
-        return commands[-2][1][-1], pairs[-1]
     else:
         raise Exception("Unsuported commands for end errow")
 
 
+def _smooth_control_point(commands):
+    """Control point of the last segment of a path that ends with 'T'"""
+    position = None
+    control = None
+    for name, pairs in commands:
+        nargs = COMMAND_NARGS[name]
+        for i in range(0, len(pairs), nargs):
+            if name == "T":
+                if control is None or position is None:
+                    control = position
+                else:
+                    control = tuple(2 * p - c for p, c in zip(position, control))
+            else:
+                control = pairs[i] if name == "Q" else None
+            position = pairs[i + nargs - 1]
+    return control
+
+
 def path_update_end_point(commands, point):
     commands[-1][1][-1] = point
-- 
2.43.0


From 1d569e27ee20012905a5a0fa0fabe117922ccca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 34/76] fix: arrows of lines with zero length do not make
 rendering fail

---
 elsie/utils/geom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/utils/geom.py b/elsie/utils/geom.py
index 541c471..9265215 100644
--- a/elsie/utils/geom.py
+++ b/elsie/utils/geom.py
@@ -82,6 +82,9 @@ def segment_len(p1, p2):
 def segment_resize(p1, p2, len_change):
     dx, dy = segment_delta(p1, p2)
     ln = segment_len(p1, p2)
+    if ln == 0:
+        # Without a direction there is nothing to resize
+        return p2
     t = 1 + (len_change / ln)
     return p1[0] + dx * t, p1[1] + dy * t
 
-- 
2.43.0


From bd276398024c3e02903e0448808575e6b752bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 35/76] fix: label functions of lists get their own copy of the
 counters

---
 elsie/ext/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 82f8e3a..3c810ef 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -147,7 +147,7 @@ class ListBuilder:
         if actual_label is not None:
             label_box = box.box(y="[0%]")
             if callable(actual_label):
-                actual_label(label_box, self.level)
+                actual_label(label_box, list(self.level))
             elif isinstance(actual_label, str):
                 label_box.text(actual_label)
             else:
-- 
2.43.0


From 845bb3dd00d38789f2852a4e4e1fdee2fa24ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 36/76] fix: empty labels of lists are not replaced by the
 default ones

---
 elsie/ext/list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 3c810ef..09455e7 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -168,7 +168,7 @@ class ListBuilder:
 
         return ListBuilder(
             box,
-            label or default_label,
+            label if label is not None else default_label,
             indent,
             level=level,
             total_indent=total_indent,
@@ -215,7 +215,7 @@ def unordered_list(
     """
     return ListBuilder(
         parent.sbox(),
-        label=label or default_ul_label,
+        label=label if label is not None else default_ul_label,
         default_indent=indent,
         label_padding=label_padding,
         **default_box_args
@@ -254,7 +254,7 @@ def ordered_list(
     """
     return ListBuilder(
         parent.sbox(),
-        label=label or default_ol_label,
+        label=label if label is not None else default_ol_label,
         default_indent=indent,
         label_padding=label_padding,
         start=start,
-- 
2.43.0


From 6f7d6f4e6b4bc66eff8690605aeaad2a21ed09d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 37/76] fix: references in LaTeX pictures are renamed one by
 one

An id that is a prefix of another one, several references in an attribute or
a color that looks like an id gave references that led nowhere.
---
 elsie/render/backends/svg/utils.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index d66d44d..da3502a 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -1,8 +1,13 @@
+import re
 from typing import TYPE_CHECKING, Tuple
 
 if TYPE_CHECKING:
     from ....utils.sxml import Xml
 
+# References to elements in attributes
+HREF_REGEX = re.compile(r"^(#)(.*)()$", re.DOTALL)
+URL_REGEX = re.compile(r"""(url\(\s*["']?#)([^)"']*?)(["']?\s*\))""")
+
 
 def svg_begin(xml, width=None, height=None, view_box=None, inkscape_namespace=False):
     xml.element("svg")
@@ -45,18 +50,25 @@ def svg_size_to_pixels(text):
 
 
 def rename_ids(root, suffix):
-    ids = []
+    ids = set()
     for e in root.iter():
         e_id = e.get("id")
         if e_id:
-            ids.append("#" + e_id)
+            ids.add(e_id)
             e.set("id", e_id + suffix)
 
+    def rename(match):
+        start, e_id, end = match.groups()
+        return f"{start}{e_id}{suffix}{end}" if e_id in ids else match.group(0)
+
     for e in root.iter():
         for name, value in e.attrib.items():
-            for e_id in ids:
-                if e_id in value:
-                    e.set(name, value.replace(e_id, e_id + suffix))
+            if name == "href" or name.endswith("}href"):
+                new_value = HREF_REGEX.sub(rename, value)
+            else:
+                new_value = URL_REGEX.sub(rename, value)
+            if new_value != value:
+                e.set(name, new_value)
 
 
 def apply_rotation(xml: "Xml", rotation: float, center: Tuple[float, float]):
-- 
2.43.0


From 7a9439987b940c1631016f7732afe9d12d7fee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 38/76] fix: failed LaTeX compilation is reported when its log
 is not in UTF-8

---
 elsie/ext/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index f8c8435..a08d70c 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -100,7 +100,7 @@ def _render_latex(text):
 
         _stdout, _stderr = p.communicate()
         if p.returncode != 0:
-            with open(os.path.join(wdir, "content.log")) as f:
+            with open(os.path.join(wdir, "content.log"), errors="replace") as f:
                 error = f.read()
             raise Exception("pdflatex failed:\n" + error)
 
-- 
2.43.0


From 90441b7b010b1200aebb4d73b3911424b8865b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 39/76] fix: underlined headings of Markdown are rendered

---
 elsie/ext/markdown.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 9047981..faba130 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -1,5 +1,14 @@
 import marko
-from marko.block import BlankLine, FencedCode, Heading, List, ListItem, Paragraph, Quote
+from marko.block import (
+    BlankLine,
+    FencedCode,
+    Heading,
+    List,
+    ListItem,
+    Paragraph,
+    Quote,
+    SetextHeading,
+)
 from marko.inline import Emphasis, LineBreak, Link, RawText, StrongEmphasis
 
 from ..boxtree.box import Box
@@ -131,6 +140,7 @@ def build_list_top(ctx: MarkdownContext, list_node: List):
 
 MD_BUILD_FNS = {
     Heading: build_heading,
+    SetextHeading: build_heading,
     Paragraph: build_paragraph,
     BlankLine: build_blank_line,
     Quote: build_quote,
-- 
2.43.0


From da1035af40a490030e281504e2fd35c411edd1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 40/76] fix: lists in Markdown quotes in lists are drawn inside
 of the quotes

---
 elsie/ext/markdown.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index faba130..e8c9c5a 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -110,7 +110,8 @@ def build_blank_line(ctx: MarkdownContext, blank_line: BlankLine):
 def build_quote(ctx: MarkdownContext, quote: Quote):
     container = ctx.box.sbox()
     container.update_style("default", container.get_style(MD_BLOCKQUOTE_STYLE))
-    parent_ctx = ctx.copy(box=container)
+    # Lists in the quote belong into it, even when the quote is in a list
+    parent_ctx = ctx.copy(box=container, active_list=None)
     for child in quote.children:
         build(parent_ctx, child)
 
-- 
2.43.0


From aaf2554a975fe6175be8fa912de9f1372667a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 41/76] fix: Markdown without any text does not raise an error

---
 elsie/text/textparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 00cd474..5540273 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -297,5 +297,7 @@ def _tokens_merge_helper(tokens1, tokens2):
 def trim_indent(text: str) -> str:
     """Find the smallest common indent from the left in the text and remove it from the text."""
     lines = text.splitlines(keepends=False)
-    min_indent = min(len(line) - len(line.lstrip()) for line in lines if line.strip())
+    min_indent = min(
+        (len(line) - len(line.lstrip()) for line in lines if line.strip()), default=0
+    )
     return "\n".join(line[min_indent:] for line in lines)
-- 
2.43.0


From c7ee6f3ad4a08fc16fa13eaf136ab4378613a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 42/76] fix: user guide names styles of Markdown headings as
 they are

---
 docs/userguide/markdown.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/userguide/markdown.md b/docs/userguide/markdown.md
index 0432aba..1c5d085 100644
--- a/docs/userguide/markdown.md
+++ b/docs/userguide/markdown.md
@@ -126,7 +126,7 @@ Here is a list of the Markdown styles that you can override:
 | `"md-italic"` | Italic text | `MD_ITALIC_STYLE` |
 | `"md-link"` | Links | `MD_LINK_STYLE` |
 | `"md-blockquote"` | Blockquotes | `MD_BLOCKQUOTE_STYLE`|
-| `"md-heading-<level>"` | Headings of the given `level` (`1-6`) | `MD_HEADING_<level>_STYLE` |
+| `"md-h<level>"` | Headings of the given `level` (`1-6`) | `MD_HEADING_<level>_STYLE` |
 
 You can either use the names directly or import them from the `elsie.ext.markdown` module.
 
-- 
2.43.0


From 5e6d7060fda4ba4a60e28dddfabf1e172b126d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 43/76] fix: escaped characters, character references and
 autolinks of Markdown are not left out

---
 elsie/ext/markdown.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index e8c9c5a..b9f2837 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -1,3 +1,7 @@
+import html
+import re
+from html.entities import html5
+
 import marko
 from marko.block import (
     BlankLine,
@@ -9,7 +13,15 @@ from marko.block import (
     Quote,
     SetextHeading,
 )
-from marko.inline import Emphasis, LineBreak, Link, RawText, StrongEmphasis
+from marko.inline import (
+    AutoLink,
+    Emphasis,
+    LineBreak,
+    Link,
+    Literal,
+    RawText,
+    StrongEmphasis,
+)
 
 from ..boxtree.box import Box
 from ..text.textparser import trim_indent
@@ -54,16 +66,33 @@ class MarkdownContext:
         return f"{self.escape_char}{style}{{{text}}}"
 
 
+CHARACTER_REFERENCE = re.compile(r"&(#\d{1,7}|#[xX][0-9a-fA-F]{1,6}|\w+);")
+
+
+def replace_character_reference(match):
+    if match.group(1)[0] == "#" or match.group(1) + ";" in html5:
+        return html.unescape(match.group(0))
+    return match.group(0)
+
+
 def get_raw_text(ctx: MarkdownContext, node) -> str:
     text = ""
     for child in node.children:
         if isinstance(child, RawText):
+            if child.escape:
+                text += CHARACTER_REFERENCE.sub(replace_character_reference, child.children)
+            else:
+                text += child.children
+        elif isinstance(child, Literal):
+            # Characters escaped by a backslash
             text += child.children
+            if child.children == ctx.escape_char:
+                text += child.children
         elif isinstance(child, Emphasis):
             text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_ITALIC_STYLE)
         elif isinstance(child, StrongEmphasis):
             text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_BOLD_STYLE)
-        elif isinstance(child, Link):
+        elif isinstance(child, (Link, AutoLink)):
             text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_LINK_STYLE)
         elif isinstance(child, LineBreak):
             text += "\n"
-- 
2.43.0


From 078cc29c36c394dde1c9e54e113770e85e8f6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 44/76] fix: braces in styled Markdown text do not end the
 styles of Markdown

---
 elsie/ext/markdown.py | 109 +++++++++++++++++++++++++++++++++---------
 1 file changed, 86 insertions(+), 23 deletions(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index b9f2837..cb9657d 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -52,7 +52,6 @@ class MarkdownContext:
     def __init__(self, box: Box, escape_char: str, active_list=None):
         self.box = box
         self.escape_char = escape_char
-        self.text_kwargs = {"escape_char": escape_char}
         self.active_list = active_list
 
     def copy(self, **kwargs):
@@ -62,9 +61,6 @@ class MarkdownContext:
         args.update(kwargs)
         return MarkdownContext(**args)
 
-    def wrap_text_with_style(self, text: str, style: str):
-        return f"{self.escape_char}{style}{{{text}}}"
-
 
 CHARACTER_REFERENCE = re.compile(r"&(#\d{1,7}|#[xX][0-9a-fA-F]{1,6}|\w+);")
 
@@ -75,28 +71,95 @@ def replace_character_reference(match):
     return match.group(0)
 
 
-def get_raw_text(ctx: MarkdownContext, node) -> str:
-    text = ""
+class MarkdownTextBuilder:
+    """
+    Builds text with inline styles of both Markdown and the user. Their delimiters are replaced
+    by Unicode noncharacters, hence all other characters of the text stay as they are.
+    """
+
+    DELIMITERS = "\ufdd0\ufdd1\ufdd2"
+
+    def __init__(self, escape_char: str):
+        if len(escape_char) == 1:
+            escape_char += "{}"
+        self.escape_char, self.begin_char, self.end_char = escape_char
+        self.text = ""
+        self.opened = []
+
+    def begin(self, source: str, style: str):
+        self.opened.append((source, style))
+        self.text += f"{self.DELIMITERS[0]}{style}{self.DELIMITERS[1]}"
+
+    def end(self, source: str):
+        """Ends the last opened style from the given source."""
+        reopen = []
+        while self.opened[-1][0] != source:
+            reopen.append(self.opened.pop())
+            self.text += self.DELIMITERS[2]
+        self.opened.pop()
+        self.text += self.DELIMITERS[2]
+        for source, style in reversed(reopen):
+            self.begin(source, style)
+
+    def add_raw_text(self, text: str):
+        i = 0
+        while i < len(text):
+            reference = CHARACTER_REFERENCE.match(text, i)
+            if reference:
+                self.text += replace_character_reference(reference)
+                i = reference.end()
+            elif text.startswith(self.escape_char * 2, i):
+                self.text += self.escape_char
+                i += 2
+            elif text[i] == self.escape_char:
+                name_end = text.find(self.begin_char, i)
+                if name_end == -1:
+                    raise Exception("Invalid format, unclosed command")
+                self.begin("user", text[i + 1 : name_end])
+                i = name_end + 1
+            elif text[i] == self.end_char and "user" in (s for s, _ in self.opened):
+                self.end("user")
+                i += 1
+            else:
+                self.text += text[i]
+                i += 1
+
+
+def build_inline(builder: MarkdownTextBuilder, node):
     for child in node.children:
         if isinstance(child, RawText):
-            if child.escape:
-                text += CHARACTER_REFERENCE.sub(replace_character_reference, child.children)
-            else:
-                text += child.children
+            builder.add_raw_text(child.children)
         elif isinstance(child, Literal):
             # Characters escaped by a backslash
-            text += child.children
-            if child.children == ctx.escape_char:
-                text += child.children
+            builder.text += child.children
         elif isinstance(child, Emphasis):
-            text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_ITALIC_STYLE)
+            build_styled_text(builder, child, MD_ITALIC_STYLE)
         elif isinstance(child, StrongEmphasis):
-            text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_BOLD_STYLE)
-        elif isinstance(child, (Link, AutoLink)):
-            text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_LINK_STYLE)
+            build_styled_text(builder, child, MD_BOLD_STYLE)
+        elif isinstance(child, Link):
+            build_styled_text(builder, child, MD_LINK_STYLE)
+        elif isinstance(child, AutoLink):
+            builder.begin("markdown", MD_LINK_STYLE)
+            builder.text += get_source(child)
+            builder.end("markdown")
         elif isinstance(child, LineBreak):
-            text += "\n"
-    return text
+            builder.text += "\n"
+
+
+def build_styled_text(builder: MarkdownTextBuilder, node, style: str):
+    builder.begin("markdown", style)
+    build_inline(builder, node)
+    builder.end("markdown")
+
+
+def get_styled_text(ctx: MarkdownContext, node) -> str:
+    builder = MarkdownTextBuilder(ctx.escape_char)
+    build_inline(builder, node)
+    return builder.text
+
+
+def get_source(node) -> str:
+    return "".join(child.children for child in node.children)
 
 
 def create_root_md_box(box: Box) -> Box:
@@ -121,15 +184,15 @@ def create_root_md_box(box: Box) -> Box:
 
 def build_text(ctx: MarkdownContext, text: str, style: str):
     container = ctx.box.sbox()
-    container.text(text, style=style, **ctx.text_kwargs)
+    container.text(text, style=style, escape_char=MarkdownTextBuilder.DELIMITERS)
 
 
 def build_heading(ctx: MarkdownContext, heading: Heading):
-    build_text(ctx, get_raw_text(ctx, heading), md_heading_style_name(heading.level))
+    build_text(ctx, get_styled_text(ctx, heading), md_heading_style_name(heading.level))
 
 
 def build_paragraph(ctx: MarkdownContext, paragraph: Paragraph):
-    build_text(ctx, get_raw_text(ctx, paragraph), MD_PARAGRAPH_STYLE)
+    build_text(ctx, get_styled_text(ctx, paragraph), MD_PARAGRAPH_STYLE)
 
 
 def build_blank_line(ctx: MarkdownContext, blank_line: BlankLine):
@@ -147,7 +210,7 @@ def build_quote(ctx: MarkdownContext, quote: Quote):
 
 def build_fenced_code(ctx: MarkdownContext, fenced_code: FencedCode):
     container = ctx.box.sbox()
-    container.code(fenced_code.lang, get_raw_text(ctx, fenced_code))
+    container.code(fenced_code.lang, get_source(fenced_code))
 
 
 def build_list_top(ctx: MarkdownContext, list_node: List):
-- 
2.43.0


From 73e8e0183ee3de5d5b617cd0416473ed20c6db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 45/76] fix: Cairo backend draws rgb() and hsl() colors

---
 elsie/render/backends/cairo/utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/elsie/render/backends/cairo/utils.py b/elsie/render/backends/cairo/utils.py
index e1e6abb..08a06c3 100644
--- a/elsie/render/backends/cairo/utils.py
+++ b/elsie/render/backends/cairo/utils.py
@@ -1,16 +1,12 @@
 from typing import Tuple
 
 import lxml.etree as et
-import webcolors
+from PIL import ImageColor
 
 
 def get_rgb_color(color) -> Tuple[float, float, float]:
     if isinstance(color, str):
-        if color and color[0] == "#":
-            color = webcolors.normalize_hex(color)
-            return normalize_color(webcolors.hex_to_rgb(color))
-        else:
-            return normalize_color(webcolors.name_to_rgb(color))
+        return normalize_color(ImageColor.getrgb(color)[:3])
 
     assert len(color) == 3
     for v in color:
-- 
2.43.0


From 9f0a6efc748c2b572c121837ae84570394cdbeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 46/76] fix: Cairo backend accepts commas in stroke_dasharray

---
 elsie/render/backends/cairo/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index 940e0d5..0278651 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -42,7 +42,7 @@ def stroke_shape(ctx, callback, color, stroke_width=None, stroke_dasharray=None)
     stroke_width = 1 if stroke_width is None else stroke_width
     ctx.set_line_width(stroke_width)
     if stroke_dasharray:
-        ctx.set_dash([float(v) for v in stroke_dasharray.split()])
+        ctx.set_dash([float(v) for v in stroke_dasharray.replace(",", " ").split()])
     callback()
     ctx.stroke()
 
-- 
2.43.0


From 70d16ef0ef7724fd49a5cd652beff513a347ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 47/76] fix: rounded corners are not deformed by the Cairo
 backend

---
 elsie/render/backends/cairo/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index 0278651..44ff2ba 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -21,11 +21,11 @@ def rounded_rectangle(ctx: cairo.Context, x, y, w, h, rx, ry):
     ctx.new_path()
     ctx.move_to(x + rx, y)
     ctx.rel_line_to(w - 2 * rx, 0.0)
-    ctx.rel_curve_to(c1, 0.0, rx, c2, rx, ry)
+    ctx.rel_curve_to(c1, 0.0, rx, ry - c2, rx, ry)
     ctx.rel_line_to(0, h - 2 * ry)
     ctx.rel_curve_to(0.0, c2, c1 - rx, ry, -rx, ry)
     ctx.rel_line_to(-w + 2 * rx, 0)
-    ctx.rel_curve_to(-c1, 0, -rx, -c2, -rx, -ry)
+    ctx.rel_curve_to(-c1, 0, -rx, c2 - ry, -rx, -ry)
     ctx.rel_line_to(0, -h + 2 * ry)
     ctx.rel_curve_to(0.0, -c2, rx - c1, -ry, rx, -ry)
     ctx.close_path()
-- 
2.43.0


From efd647960df93d9b6e7d1dd7b472f1cb92459ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 48/76] fix: polygons of the Cairo backend are closed

---
 elsie/render/backends/cairo/rcontext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 4c91287..148ce21 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -140,8 +140,9 @@ class CairoRenderingContext(RenderingContext):
 
             def draw():
                 self.ctx.move_to(*points[0])
-                for p in points[1:] + [points[0]]:
+                for p in points[1:]:
                     self.ctx.line_to(*p)
+                self.ctx.close_path()
 
             fill_stroke_shape(self.ctx, draw, **kwargs)
 
-- 
2.43.0


From 7c63a593e64e8b76ee230a773ba028c487dd40f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:58 +0000
Subject: [PATCH 49/76] fix: Cairo backend uses the same miter limit as SVG

---
 elsie/render/backends/cairo/rcontext.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 148ce21..3d1e8d0 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -75,6 +75,8 @@ class CairoRenderingContext(RenderingContext):
         else:
             assert False
 
+        # Default of SVG
+        self.ctx.set_miter_limit(4.0)
         self.line_scaling = 1.0
         if viewbox:
             self.line_scaling = apply_viewbox(self.ctx, width, height, viewbox)
-- 
2.43.0


From 0417b6b2e20cad8ef0b19f4a7d78c2f47f2a77de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 50/76] fix: paths of the Cairo backend draw all segments and
 smooth curves of SVG

---
 elsie/render/backends/cairo/shapes.py | 45 +++++++++++++++++----------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 0afe8ae..08a6dcf 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -1,5 +1,8 @@
 import cairocffi
 
+# Number of points of one segment
+COMMAND_SIZES = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}
+
 
 def reflect(cp, anchor):
     """
@@ -10,35 +13,45 @@ def reflect(cp, anchor):
     return (anchor[0] + neg[0], anchor[1] + neg[1])
 
 
+def split_commands(commands):
+    """
+    Yield a command for each segment of the path, commands may have points of more segments.
+    """
+    for name, args in commands:
+        size = COMMAND_SIZES[name]
+        for i in range(0, len(args), size):
+            yield name, args[i : i + size]
+            if name == "M":
+                name = "L"
+
+
 def draw_path(ctx: cairocffi.Context, commands):
     last_cubic_cp = None
     last_quadratic_cp = None
-    for name, args in commands:
+    for name, args in split_commands(commands):
         location = ctx.get_current_point()
+        cubic_cp = None
+        quadratic_cp = None
         if name == "M":
-            last_cubic_cp = None
-            last_quadratic_cp = None
             ctx.move_to(*args[0])
         elif name == "L":
-            last_cubic_cp = None
-            last_quadratic_cp = None
             ctx.line_to(*args[0])
         elif name == "C":
-            last_cubic_cp = args[1]
-            last_quadratic_cp = None
+            cubic_cp = args[1]
             ctx.curve_to(*args[0], *args[1], *args[2])
         elif name == "S":
-            last_cubic_cp = reflect(last_cubic_cp or location, location)
-            last_quadratic_cp = None
-            ctx.curve_to(*last_cubic_cp, *args[0], *args[1])
+            cubic_cp = args[0]
+            ctx.curve_to(
+                *reflect(last_cubic_cp or location, location), *args[0], *args[1]
+            )
         elif name == "Q":
-            last_cubic_cp = None
-            last_quadratic_cp = args[0]
-            draw_quadratic_bezier(ctx, location, args[1], last_quadratic_cp)
+            quadratic_cp = args[0]
+            draw_quadratic_bezier(ctx, location, args[1], quadratic_cp)
         elif name == "T":
-            last_cubic_cp = None
-            last_quadratic_cp = reflect(last_quadratic_cp or location, location)
-            draw_quadratic_bezier(ctx, location, args[0], last_quadratic_cp)
+            quadratic_cp = reflect(last_quadratic_cp or location, location)
+            draw_quadratic_bezier(ctx, location, args[0], quadratic_cp)
+        last_cubic_cp = cubic_cp
+        last_quadratic_cp = quadratic_cp
 
 
 def draw_quadratic_bezier(ctx, p1, p2, cp):
-- 
2.43.0


From 026f4fed1be02bd616161b5fea3cb0aba0af7c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 51/76] fix: colors of transparent pixels in PNGs of the Cairo
 backend

---
 elsie/render/backends/cairo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/backend.py b/elsie/render/backends/cairo/backend.py
index f9e475a..d8cab6f 100644
--- a/elsie/render/backends/cairo/backend.py
+++ b/elsie/render/backends/cairo/backend.py
@@ -71,7 +71,7 @@ class CairoRenderUnit(RenderUnit):
                 (self.ctx.width, self.ctx.height),
                 self.ctx.surface.get_data(),
                 "raw",
-                "BGRA",
+                "BGRa",
                 0,
                 1,
             )
-- 
2.43.0


From 2cb6169f2c8a853561681be4ba7757cbd5e3e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 52/76] fix: edges of bitmaps are not blurred by the Cairo
 backend

---
 elsie/render/backends/cairo/rcontext.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 3d1e8d0..5586f66 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -234,8 +234,10 @@ class CairoRenderingContext(RenderingContext):
         with ctx_scope(self.ctx):
             transform(self.ctx, center, rotation=rotation)
             self.ctx.set_source_surface(surface, x, y)
-            self.ctx.move_to(x, y)
-            self.ctx.paint()
+            # Do not blend edges of a scaled image with its transparent surroundings
+            self.ctx.get_source().set_extend(cairo.EXTEND_PAD)
+            self.ctx.rectangle(x, y, width, height)
+            self.ctx.fill()
 
     def draw_svg(
         self,
-- 
2.43.0


From ba4ea60fbc881d12549e76ce1ec54256381cf609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 53/76] fix: SVG images of the Cairo backend respect the view
 box and the rest of the slide

---
 elsie/render/backends/cairo/rcontext.py | 23 +++++++++++-----------
 elsie/render/backends/cairo/svg.py      | 26 ++++++++-----------------
 2 files changed, 19 insertions(+), 30 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 5586f66..d3acbd8 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -61,7 +61,6 @@ class CairoRenderingContext(RenderingContext):
             )
             self.reference_ctx = self.ctx = cairo.Context(self.surface)
             self.ctx.scale(RESOLUTION_SCALE, RESOLUTION_SCALE)
-            self.cairosvg_dpi = TARGET_DPI
         elif export_format == "png":
             self.surface = cairo.ImageSurface(cairo.FORMAT_ARGB32, width, height)
             self.ctx = cairo.Context(self.surface)
@@ -71,7 +70,6 @@ class CairoRenderingContext(RenderingContext):
             )
             self.reference_ctx = cairo.Context(reference_surface)
             self.reference_ctx.scale(RESOLUTION_SCALE, RESOLUTION_SCALE)
-            self.cairosvg_dpi = CAIRO_DPI
         else:
             assert False
 
@@ -252,13 +250,14 @@ class CairoRenderingContext(RenderingContext):
         root = et.fromstring(svg)
         normalized = normalize_svg(root)
         normalized_svg = et.tostring(normalized, encoding="utf8")
-        render_svg(
-            self.surface,
-            svg=normalized_svg.decode(),
-            x=x,
-            y=y,
-            width=width,
-            height=height,
-            rotation=rotation,
-            dpi=self.cairosvg_dpi,
-        )
+        with ctx_scope(self.ctx):
+            render_svg(
+                self.ctx,
+                svg=normalized_svg.decode(),
+                x=x,
+                y=y,
+                width=width,
+                height=height,
+                rotation=rotation,
+                dpi=TARGET_DPI,
+            )
diff --git a/elsie/render/backends/cairo/svg.py b/elsie/render/backends/cairo/svg.py
index fb0663e..ead3fcb 100644
--- a/elsie/render/backends/cairo/svg.py
+++ b/elsie/render/backends/cairo/svg.py
@@ -10,7 +10,7 @@ from .draw import transform
 class CairoSurface(Surface):
     def __init__(
         self,
-        surface,
+        context,
         x,
         y,
         tree,
@@ -27,8 +27,7 @@ class CairoSurface(Surface):
         map_image=None,
         rotation=None,
     ):
-        self.surface = surface
-        self.cairo = None
+        self.cairo = context.get_target()
         self.context_width, self.context_height = parent_width, parent_height
         self.cursor_position = [0, 0]
         self.cursor_d_position = [0, 0]
@@ -75,20 +74,14 @@ class CairoSurface(Surface):
             width *= scale
             height *= scale
 
-        # Actual surface dimensions: may be rounded on raster surfaces types
-        self.cairo, self.width, self.height = self._create_surface(
-            width * self.device_units_per_user_units,
-            height * self.device_units_per_user_units,
-        )
+        self.width, self.height = width, height
 
         if 0 in (self.width, self.height):
             raise ValueError("The SVG size is undefined")
 
-        self.context = cairo.Context(self.cairo)
-        # We must scale the context as the surface size is using physical units
-        self.context.scale(
-            self.device_units_per_user_units, self.device_units_per_user_units
-        )
+        # The image is drawn in the coordinates of the slide
+        self.context = context
+        self.context.new_path()
         center = (x + width / 2, y + height / 2)
         transform(self.context, center, rotation=rotation)
         self.context.translate(x, y)
@@ -103,16 +96,13 @@ class CairoSurface(Surface):
         self.map_rgba = map_rgba
         self.map_image = map_image
 
-    def _create_surface(self, width, height):
-        return self.surface, width, height
-
 
 def render_svg(
-    surface: cairo.Surface, svg: str, x, y, width, height, rotation=None, dpi=96
+    context: cairo.Context, svg: str, x, y, width, height, rotation=None, dpi=96
 ):
     tree = Tree(bytestring=svg.encode())
     instance = CairoSurface(
-        surface=surface,
+        context=context,
         rotation=rotation,
         x=x,
         y=y,
-- 
2.43.0


From 6719ed9443eb2c784a7151728bbaf1ce06b15717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 54/76] fix: Cairo backend draws bitmaps embedded in SVG and
 ORA images

---
 elsie/render/backends/cairo/svg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/svg.py b/elsie/render/backends/cairo/svg.py
index ead3fcb..ae78bf1 100644
--- a/elsie/render/backends/cairo/svg.py
+++ b/elsie/render/backends/cairo/svg.py
@@ -3,6 +3,7 @@ from cairosvg.colors import color
 from cairosvg.helpers import node_format, size
 from cairosvg.parser import Tree
 from cairosvg.surface import Surface
+from cairosvg.url import fetch
 
 from .draw import transform
 
@@ -100,7 +101,8 @@ class CairoSurface(Surface):
 def render_svg(
     context: cairo.Context, svg: str, x, y, width, height, rotation=None, dpi=96
 ):
-    tree = Tree(bytestring=svg.encode())
+    # Images in the SVG (also the embedded ones) are not loaded without a fetcher
+    tree = Tree(bytestring=svg.encode(), url_fetcher=fetch)
     instance = CairoSurface(
         context=context,
         rotation=rotation,
-- 
2.43.0


From 8b078ce45a99ea0741fa62472b0c54c906132c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 55/76] fix: ellipses of the Cairo backend are not joined with
 the current point

---
 elsie/render/backends/cairo/rcontext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index d3acbd8..0c66a82 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -120,6 +120,7 @@ class CairoRenderingContext(RenderingContext):
         center = rect.mid_point
 
         def draw():
+            self.ctx.new_path()
             self.ctx.arc(center[0], center[1], dim_larger / 2.0, 0, 2 * math.pi)
 
         with ctx_scope(self.ctx):
-- 
2.43.0


From a12ed25b4a2e3044630bb28f366cc54aac81cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 56/76] fix: dashes of an ellipse do not stay for other shapes
 of the Cairo backend

---
 elsie/render/backends/cairo/rcontext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 0c66a82..f499fa0 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -133,7 +133,8 @@ class CairoRenderingContext(RenderingContext):
                 draw()
         # Do not apply transform to stroke (https://www.cairographics.org/cookbook/ellipses/)
         if color:
-            stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
+            with ctx_scope(self.ctx):
+                stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
 
     def draw_polygon(self, points, rotation=None, **kwargs):
         with ctx_scope(self.ctx):
-- 
2.43.0


From 943bf5398735a4b4eefea41e043775975dfbf074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 57/76] fix: shapes without an area do not break the Cairo
 backend

---
 elsie/render/backends/cairo/rcontext.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index f499fa0..b419649 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -94,6 +94,10 @@ class CairoRenderingContext(RenderingContext):
         if ry is None:
             ry = rx
 
+        # As in SVG, a shape without an area is not drawn
+        if rect.width <= 0 or rect.height <= 0:
+            return
+
         with ctx_scope(self.ctx):
             transform(self.ctx, rect.mid_point, rotation)
 
@@ -111,6 +115,9 @@ class CairoRenderingContext(RenderingContext):
     def draw_ellipse(
         self, rect: Rect, rotation=None, color=None, bg_color=None, **kwargs
     ):
+        if rect.width <= 0 or rect.height <= 0:
+            return
+
         dim_larger = rect.width
         dim_smaller = rect.height
         if dim_larger < dim_smaller:
@@ -219,6 +226,9 @@ class CairoRenderingContext(RenderingContext):
 
     def draw_bitmap(self, x, y, width, height, data, rotation=None, **kwargs):
         assert isinstance(data, bytes)
+        if width <= 0 or height <= 0:
+            return
+
         image = Image.open(io.BytesIO(data))
         if image.mode != "RGBA":
             image = image.convert("RGBA")
@@ -249,6 +259,9 @@ class CairoRenderingContext(RenderingContext):
         rotation=None,
         **kwargs,
     ):
+        if width <= 0 or height <= 0:
+            return
+
         root = et.fromstring(svg)
         normalized = normalize_svg(root)
         normalized_svg = et.tostring(normalized, encoding="utf8")
-- 
2.43.0


From 2bb3694bf01fadfebaa49ba9faabedd012657ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 58/76] fix: inline boxes of nested styles in the Cairo backend

---
 elsie/render/backends/cairo/text.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 70f1cb9..47d9eec 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -171,9 +171,10 @@ def get_extents(layout: pangocffi.Layout, ink=True) -> Rect:
 
 
 def get_byte_range(parsed_text, id_index) -> Tuple[int, int]:
-    stack = []
+    depth = 0
     byte_count = 0
     start = None
+    start_depth = None
 
     for i, (type, value) in enumerate(parsed_text):
         if type == "text":
@@ -183,10 +184,11 @@ def get_byte_range(parsed_text, id_index) -> Tuple[int, int]:
         elif type == "begin":
             if i == id_index:
                 start = byte_count
-            stack.append(value)
+                start_depth = depth
+            depth += 1
         elif type == "end":
-            stack.pop()
-            if start is not None and not stack:
+            depth -= 1
+            if start is not None and depth == start_depth:
                 return (start, byte_count)
     assert False
 
-- 
2.43.0


From c05d8d37f9aa0ad41fb5af79f355a592cdbdf184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 59/76] fix: lines of text are where the layout expects them in
 the Cairo backend

---
 elsie/render/backends/cairo/rcontext.py |  47 +++++------
 elsie/render/backends/cairo/text.py     | 100 +++++++-----------------
 2 files changed, 51 insertions(+), 96 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index b419649..6e7f080 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -25,7 +25,7 @@ from .text import (
     compute_subtext_extents,
     from_pango_units,
     get_extents,
-    to_pango_units,
+    split_lines,
 )
 from .utils import normalize_svg
 
@@ -75,11 +75,9 @@ class CairoRenderingContext(RenderingContext):
 
         # Default of SVG
         self.ctx.set_miter_limit(4.0)
-        self.line_scaling = 1.0
-        if viewbox:
-            self.line_scaling = apply_viewbox(self.ctx, width, height, viewbox)
 
-        self.pctx = pangocairocffi.create_context(self.reference_ctx)
+        if viewbox:
+            apply_viewbox(self.ctx, width, height, viewbox)
 
     def draw_rect(
         self,
@@ -174,9 +172,7 @@ class CairoRenderingContext(RenderingContext):
             fill_stroke_shape(self.ctx, draw, **kwargs)
 
     def compute_text_extents(self, parsed_text, style: TextStyle, styles) -> Rect:
-        layout = build_layout(
-            self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE
-        )
+        layout = build_layout(self.ctx, parsed_text, style, styles)
         return get_extents(layout)
 
     def compute_subtext_extents(
@@ -184,9 +180,7 @@ class CairoRenderingContext(RenderingContext):
     ) -> Rect:
         from ....text.textboxitem import text_x_in_rect
 
-        layout = build_layout(
-            self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE
-        )
+        layout = build_layout(self.ctx, parsed_text, style, styles)
         extents = get_extents(layout)
         start_x = text_x_in_rect(Rect(x=0, width=extents.width), style)
         x, width = compute_subtext_extents(layout, parsed_text, id_index)
@@ -204,25 +198,26 @@ class CairoRenderingContext(RenderingContext):
         scale=None,
         **kwargs,
     ):
+        from ....text.textboxitem import text_x_in_rect
+
         # TODO: try basic Cairo text API
         with ctx_scope(self.ctx):
-            layout = build_layout(
-                self.reference_ctx,
-                self.pctx,
-                parsed_text,
-                style,
-                styles,
-                resolution_scale=RESOLUTION_SCALE,
-                spacing_scale=self.line_scaling,
-                text_scale=scale,
-            )
-            layout.set_width(to_pango_units(rect.width))
-            baseline = from_pango_units(layout.get_baseline())
-
             if rotation is not None:
                 transform(self.ctx, rect.mid_point, rotation=rotation)
-            self.ctx.move_to(rect.x, y - baseline)
-            pangocairocffi.show_layout(self.ctx, layout)
+            if scale is not None:
+                self.ctx.scale(scale, scale)
+                x, y = x / scale, y / scale
+
+            line_size = style.size * style.line_spacing
+            for number, line in split_lines(parsed_text):
+                layout = build_layout(self.reference_ctx, line, style, styles)
+                width = get_extents(layout).width
+                baseline = from_pango_units(layout.get_baseline())
+                self.ctx.move_to(
+                    x - text_x_in_rect(Rect(x=0, width=width), style),
+                    y + number * line_size - baseline,
+                )
+                pangocairocffi.show_layout(self.ctx, layout)
 
     def draw_bitmap(self, x, y, width, height, data, rotation=None, **kwargs):
         assert isinstance(data, bytes)
diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 47d9eec..5007838 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -3,8 +3,9 @@ from typing import List, Tuple
 import cairocffi as cairo
 import pangocairocffi
 import pangocffi
-from pangocffi import Attribute, AttrList, FontDescription, Layout, Rectangle, ffi
+from pangocffi import Attribute, AttrList, Layout, Rectangle
 
+from ....text.textparser import END_MARKER
 from ....text.textstyle import TextStyle
 from ....utils.geom import Rect
 from .utils import get_rgb_color
@@ -24,18 +25,8 @@ def to_pango_color(color: Tuple[float, float, float]) -> Tuple[int, int, int]:
     return (int(r * max), int(g * max), int(b * max))
 
 
-def attr_from_scale(scale_factor: float, start_index: int, end_index: int):
-    scale_factor = ffi.cast("double", scale_factor)
-    attr = Attribute._init_pointer(
-        pangocffi.pango.pango_attr_scale_new(scale_factor),
-    )
-    attr.start_index = start_index
-    attr.end_index = end_index
-    return attr
-
-
 def style_to_attributes(
-    style: TextStyle, text_scale: float, start_index: int, end_index: int
+    style: TextStyle, start_index: int, end_index: int
 ) -> List[Attribute]:
     kwargs = dict(start_index=start_index, end_index=end_index)
     attrs = [
@@ -45,8 +36,6 @@ def style_to_attributes(
             *to_pango_color(get_rgb_color(style.color)), **kwargs
         ),
     ]
-    if text_scale is not None:
-        attrs.append(attr_from_scale(text_scale, **kwargs))
 
     weight = pangocffi.Weight.BOLD if style.bold else pangocffi.Weight.NORMAL
     attrs.append(Attribute.from_weight(weight, **kwargs))
@@ -56,15 +45,12 @@ def style_to_attributes(
     return attrs
 
 
-INVISIBLE_SPACE = "⠀"  # this is not a normal space, but U+2800
-
-
 def byte_length(text):
     return len(text.encode("utf8"))
 
 
 def get_text_and_attributes(
-    parsed_text, style: TextStyle, styles, text_scale: float
+    parsed_text, style: TextStyle, styles
 ) -> Tuple[str, AttrList]:
     attr_list = AttrList()
     base_style = [styles["default"].compose(style)]
@@ -72,24 +58,17 @@ def get_text_and_attributes(
     text = ""
 
     def push_attrs(style, start_index, end_index):
-        for attr in style_to_attributes(style, text_scale, start_index, end_index):
+        for attr in style_to_attributes(style, start_index, end_index):
             attr_list.insert(attr)
 
     def active_style():
         return [style for style in reversed(base_style) if style is not None][0]
 
-    line = ""
     for (token, value) in parsed_text:
         if token == "text":
-            line += value
             text += value
         elif token == "newline":
-            for _ in range(value):
-                if not line:
-                    # This fixes the height of empty lines
-                    text += INVISIBLE_SPACE
-                text += "\n"
-                line = ""
+            text += "\n" * value
         elif token == "begin":
             push_attrs(active_style(), start, byte_length(text))
             start = byte_length(text)
@@ -114,45 +93,37 @@ def get_text_and_attributes(
     return text, attr_list
 
 
-def get_text_height(pctx: pangocffi.Context, style: TextStyle, resolution_scale: float):
-    font = FontDescription()
-    font.set_family(style.font)
-    font.set_absolute_size(to_pango_units(style.size))
-    ret = pangocffi.pango.pango_context_get_metrics(
-        pctx.get_pointer(), font.get_pointer(), pangocffi.ffi.NULL
-    )
-
-    descent = from_pango_units(pangocffi.pango.pango_font_metrics_get_descent(ret))
-    ascent = from_pango_units(pangocffi.pango.pango_font_metrics_get_ascent(ret))
-    return (ascent + descent) * resolution_scale
-
-
-def build_layout(
-    ctx: cairo.Context,
-    pctx: pangocffi.Context,
-    parsed_text,
-    style: TextStyle,
-    styles,
-    resolution_scale: float,
-    spacing_scale: float = 1.0,
-    text_scale: float = 1.0,
-) -> pangocffi.Layout:
+def split_lines(parsed_text):
+    """
+    Yield the number of the line and its tokens for lines of the text.
+    """
+    number = 0
+    line = []
+    opened = []
+    for token in parsed_text:
+        name, value = token
+        if name == "newline":
+            yield number, line + [END_MARKER] * len(opened)
+            number += value
+            line = list(opened)
+            continue
+        if name == "begin":
+            opened.append(token)
+        elif name == "end":
+            opened.pop()
+        line.append(token)
+    yield number, line + [END_MARKER] * len(opened)
+
+
+def build_layout(ctx: cairo.Context, parsed_text, style: TextStyle, styles) -> Layout:
     # TODO: fix letter spacing
     style = styles["default"].compose(style)
     layout = pangocairocffi.create_layout(ctx)
     layout.set_ellipsize(pangocffi.EllipsizeMode.NONE)
 
-    layout.set_alignment(get_pango_alignment(style))
-    text, attributes = get_text_and_attributes(parsed_text, style, styles, text_scale)
+    text, attributes = get_text_and_attributes(parsed_text, style, styles)
     layout.set_text(text)
     layout.set_attributes(attributes)
-
-    height = get_text_height(pctx, style, resolution_scale)
-
-    assert style.line_spacing >= 1.0
-    spacing = (style.line_spacing * style.size) - height
-    layout.set_spacing(to_pango_units(spacing * spacing_scale))
-
     return layout
 
 
@@ -218,14 +189,3 @@ def compute_subtext_extents(
             break
     assert x is not None
     return (x, width)
-
-
-PANGO_ALIGNMENTS = {
-    "middle": pangocffi.Alignment.CENTER,
-    "left": pangocffi.Alignment.LEFT,
-    "right": pangocffi.Alignment.RIGHT,
-}
-
-
-def get_pango_alignment(style: TextStyle):
-    return PANGO_ALIGNMENTS[style.align]
-- 
2.43.0


From 75f5f36a6859b3ab381053142426fc2d60c7bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 60/76] fix: Cairo backend draws opacity of text

---
 elsie/render/backends/cairo/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 5007838..c5b7f18 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -37,6 +37,10 @@ def style_to_attributes(
         ),
     ]
 
+    if style.opacity is not None:
+        alpha = max(1, min(int(style.opacity * (2**16 - 1)), 2**16 - 1))
+        attrs.append(Attribute.from_foreground_alpha(alpha, **kwargs))
+
     weight = pangocffi.Weight.BOLD if style.bold else pangocffi.Weight.NORMAL
     attrs.append(Attribute.from_weight(weight, **kwargs))
 
-- 
2.43.0


From 7aa3068b50b1a17ffbc515a68e1329ae756e6fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 61/76] fix: a box refused because of its fragments or siblings
 leaves no gap in the layout

---
 elsie/boxtree/box.py      | 10 ++++++++--
 elsie/boxtree/boxmixin.py |  6 +++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/elsie/boxtree/box.py b/elsie/boxtree/box.py
index b1e5b1f..1783022 100644
--- a/elsie/boxtree/box.py
+++ b/elsie/boxtree/box.py
@@ -59,8 +59,7 @@ class Box(BoxMixin, StyleContainer):
         """Semi-internal function, you can add your child if you know what you are doing."""
         assert isinstance(obj, Box) or isinstance(obj, BoxItem)
 
-        if above is not None and below is not None:
-            raise Exception("'above' and 'below' cannot be both set")
+        self._check_siblings(above, below)
         if below is not None:
             self.children.insert(self.children.index(below), obj)
         elif above is not None:
@@ -70,6 +69,13 @@ class Box(BoxMixin, StyleContainer):
         else:
             self.children.append(obj)
 
+    def _check_siblings(self, above, below):
+        if above is not None and below is not None:
+            raise Exception("'above' and 'below' cannot be both set")
+        for sibling in (above, below):
+            if sibling is not None and sibling not in self.children:
+                raise Exception("'above' and 'below' have to be children of the box")
+
     @property
     def _box_children(self):
         return [child for child in self.children if isinstance(child, Box)]
diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 335b15d..80f0f7a 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -134,6 +134,11 @@ class BoxMixin:
             Name of the box (used for debugging purposes).
         """
         box = self._get_box()
+
+        # Refuse invalid arguments before anything is changed
+        show = ShowInfo.parse(show, box.slide.max_step)
+        box._check_siblings(above, below)
+
         layout = box.layout.add(
             x=x,
             y=y,
@@ -153,7 +158,6 @@ class BoxMixin:
         if z_level is None:
             z_level = box.z_level
 
-        show = ShowInfo.parse(show, box.slide.max_step)
         box.slide.max_step = max(box.slide.max_step, show.max_step())
 
         new_box = box.__class__(box.slide, layout, box._styles, show, z_level, name)
-- 
2.43.0


From 0451027e9a20994b3888fb4b2075c25974e14e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 62/76] fix: size strings with superfluous closing parentheses
 are refused

---
 elsie/boxtree/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/value.py b/elsie/boxtree/value.py
index 36f42ec..35b4e5b 100644
--- a/elsie/boxtree/value.py
+++ b/elsie/boxtree/value.py
@@ -6,7 +6,7 @@ from .lazy import LazyValue
 
 class SizeValue:
     parser = re.compile(
-        r"^(?P<min_size>\d+)$|^(?P<ratio>\d+)%$|^(?P<fill_1>fill)$|^fill[(](?P<fill>\d+)[)]+$"
+        r"^(?P<min_size>\d+)$|^(?P<ratio>\d+)%$|^(?P<fill_1>fill)$|^fill[(](?P<fill>\d+)[)]$"
     )  # noqa
 
     def __init__(self, min_size=0, ratio=None, fill=0, lazy_value=None):
-- 
2.43.0


From d26ccb3dafff12e2b12b14a30189858ffa16b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 63/76] fix: an image refused because of its fragments does not
 resize its box

---
 elsie/boxtree/boxmixin.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 80f0f7a..66e65f4 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -604,10 +604,6 @@ class BoxMixin:
         image_width = svg_size_to_pixels(root.get("width"))
         image_height = svg_size_to_pixels(root.get("height"))
 
-        self._get_box().layout.set_image_size_request(
-            image_width * (scale or 1), image_height * (scale or 1)
-        )
-
         if select_fragments is not None:
             image_steps = len(select_fragments)
         else:
@@ -618,6 +614,11 @@ class BoxMixin:
 
         self._get_box()._ensure_steps(show_begin - 1 + image_steps)
 
+        # Only now, as an image with invalid fragments must not occupy any space
+        self._get_box().layout.set_image_size_request(
+            image_width * (scale or 1), image_height * (scale or 1)
+        )
+
         image_data = None
 
         if not fragments and select_fragments is None:
-- 
2.43.0


From 651f2ecd67f92b1b05bf0a906a4cf683c3023ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 64/76] fix: a refused list item does not use up a number

---
 elsie/ext/list.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 09455e7..0d9ae14 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -131,27 +131,31 @@ class ListBuilder:
             Additional arguments that will be passed to the box of the list item.
             These arguments will be combined with the `box_args` of the current list.
         """
-        self.level[-1] += 1
-
         label_padding = (
             label_padding if label_padding is not None else self.label_padding
         )
+        actual_label = label if label is not None else self.label
+        if not (
+            actual_label is None
+            or callable(actual_label)
+            or isinstance(actual_label, str)
+        ):
+            raise Exception("Label must be either a string or a function")
 
         args = dict(self.box_args)
         args.update(box_args)
         box_args["horizontal"] = True
         box, _ = self._create_box(self.parent, indent=0, **box_args)
+        # Counted only now, as the creation of the item may be refused
+        self.level[-1] += 1
         box.update_style("default", TextStyle(align="left"))
 
-        actual_label = label if label is not None else self.label
         if actual_label is not None:
             label_box = box.box(y="[0%]")
             if callable(actual_label):
                 actual_label(label_box, list(self.level))
-            elif isinstance(actual_label, str):
-                label_box.text(actual_label)
             else:
-                raise Exception("Label must be either a string or a function")
+                label_box.text(actual_label)
         return box.box(p_left=label_padding, width="fill")
 
     def _create_sublist(
-- 
2.43.0


From b604c1294892fa9ccd6aa248a2a6be013ec0697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 65/76] fix: the docs plugin recognizes indented elsie blocks

---
 docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index b486023..e734e23 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -34,7 +34,7 @@ def is_fence_delimiter(line):
 
 
 def get_fence_char(header):
-    return "`" if header[0] == "`" else "~"
+    return "`" if header.lstrip()[0] == "`" else "~"
 
 
 def parse_fence_header(header):
-- 
2.43.0


From 15272ee62685e15afedafcc685a2bcb631492f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 66/76] fix: blank lines do not keep the docs plugin from
 trimming the indentation

---
 docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index e734e23..3bba565 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -70,7 +70,9 @@ class CodeContext:
 
 
 def trim_indent(lines):
-    min_indent = min(len(line) - len(line.lstrip()) for line in lines)
+    min_indent = min(
+        (len(line) - len(line.lstrip()) for line in lines if line.strip()), default=0
+    )
     return [line[min_indent:] for line in lines]
 
 
-- 
2.43.0


From 3535af4be7acf8832056d43a9813dcce63500f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 67/76] fix: the docs plugin accepts open slices as skipped
 lines

---
 docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index 3bba565..a8b0843 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -195,7 +195,9 @@ class ElsiePlugin(BasePlugin):
 
                     if ":" in skip:
                         start, end = skip.split(":")
-                        skip_slice = slice(int(start), int(end))
+                        skip_slice = slice(
+                            int(start) if start else None, int(end) if end else None
+                        )
                     else:
                         skip_slice = slice(int(skip), None)
 
-- 
2.43.0


From 0b03921adfc37ecb1c9efce67f9733c2ea02dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:48 +0000
Subject: [PATCH 68/76] fix: the docs plugin closes fences only by matching
 delimiters and keeps unclosed ones

---
 .../mkdocs_elsie_plugin/__init__.py           | 58 ++++++++++---------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index a8b0843..1167d8f 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -37,6 +37,14 @@ def get_fence_char(header):
     return "`" if header.lstrip()[0] == "`" else "~"
 
 
+def is_closing_delimiter(line, header):
+    fence_char = get_fence_char(header)
+    header = header.strip()
+    length = len(header) - len(header.lstrip(fence_char))
+    line = line.strip()
+    return len(line) >= length and not line.strip(fence_char)
+
+
 def parse_fence_header(header):
     fence_char = get_fence_char(header)
     items = header.strip(f" {fence_char}").split(",")
@@ -131,39 +139,33 @@ def iterate_fences(src: str, handle_fence):
     fence_content = []
     inside_fence = False
     fence_header = None
-    nested = 0
 
     for line in src.splitlines(keepends=False):
-        if is_fence_delimiter(line):
-            if inside_fence:
-                # Handle nested fenced code blocks
-                if len(line.strip()) != 3:
-                    nested += 1
-                    fence_content.append(line)
-                    continue
-                elif nested > 0:
-                    nested -= 1
-                    fence_content.append(line)
-                    continue
-                assert nested == 0
-                assert fence_header is not None
-                header, after = handle_fence(fence_header, fence_content)
-                lines.append(header)
-                lines += fence_content
-                lines.append(line)
-                lines += after or []
-
-                fence_content = []
-                inside_fence = False
-                fence_header = None
-            else:
-                inside_fence = True
-                fence_header = line
-        elif inside_fence:
-            fence_content.append(line)
+        if inside_fence:
+            # Everything but a matching delimiter belongs to the code, e.g. other fences
+            if not is_closing_delimiter(line, fence_header):
+                fence_content.append(line)
+                continue
+            header, after = handle_fence(fence_header, fence_content)
+            lines.append(header)
+            lines += fence_content
+            lines.append(line)
+            lines += after or []
+
+            fence_content = []
+            inside_fence = False
+            fence_header = None
+        elif is_fence_delimiter(line):
+            inside_fence = True
+            fence_header = line
         else:
             lines.append(line)
 
+    if inside_fence:
+        # Keep the content of an unclosed fence
+        lines.append(fence_header)
+        lines += fence_content
+
     return "\n".join(lines)
 
 
-- 
2.43.0


From 30409aadd60249e2865131e91cadba60646cf88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 69/76] fix: a picture that changes on disk is not drawn from
 the earlier content

---
 elsie/boxtree/boxmixin.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 66e65f4..d854a24 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -517,29 +517,20 @@ class BoxMixin:
             raise Exception("Unknown image type: {}".format(image_type))
 
     def _image_bitmap(self, source, scale: float, rotation: float):
-        if isinstance(source, str) or isinstance(source, bytes):
-            key = (source, "bitmap")
-            entry = self._get_box().slide.temp_cache.get(key)
-        else:
-            key = None
-            entry = None
+        # Identified by the content, as the file may change while the deck is being built
+        data = read_helper(source)
+        key = (data, "bitmap")
+        entry = self._get_box().slide.temp_cache.get(key)
 
         if entry is None:
-            data = read_helper(source)
             img = Image.open(io.BytesIO(data))
             mime = Image.MIME[img.format]
             image_width, image_height = img.size
             del img
 
-            if key is not None:
-                self._get_box().slide.temp_cache[key] = (
-                    image_width,
-                    image_height,
-                    mime,
-                    data,
-                )
+            self._get_box().slide.temp_cache[key] = (image_width, image_height, mime)
         else:
-            image_width, image_height, mime, data = entry
+            image_width, image_height, mime = entry
 
         self._get_box().layout.set_image_size_request(
             image_width * (scale or 1), image_height * (scale or 1)
@@ -571,7 +562,7 @@ class BoxMixin:
     def _image_ora(
         self, filename, scale, fragments, show_begin, select_fragments, rotation
     ):
-        key = (filename, "svg")
+        key = (read_helper(filename), "svg")
         slide = self._get_box().slide
         if key not in slide.temp_cache:
 
@@ -595,7 +586,8 @@ class BoxMixin:
         select_fragments: List[int] = None,
         rotation: float = None,
     ):
-        key = (filename, "svg")
+        # Identified by the content, as the file may change while the deck is being built
+        key = (read_helper(filename), "svg")
         root = self._get_box().slide.temp_cache.get(key)
         if root is None:
             root = et.parse(filename).getroot()
-- 
2.43.0


From 50fab2ed612dc9564ef1d5e27c8ed9469ed05436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:40 +0000
Subject: [PATCH 70/76] fix: the numeric font variant is spelled
 proportional-nums

---
 docs/userguide/text.md  | 2 +-
 elsie/text/textstyle.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/userguide/text.md b/docs/userguide/text.md
index c68fabe..e39ac3a 100644
--- a/docs/userguide/text.md
+++ b/docs/userguide/text.md
@@ -33,7 +33,7 @@ parameters:
     - `"slashed-zero"`
     - `"lining-nums"`
     - `"oldstyle-nums"`
-    - `"proportinal-nums"`
+    - `"proportional-nums"`
     - `"tabular-nums"`
     - `"diagonal-fractions"` 
     - `"stacked-fractions"`
diff --git a/elsie/text/textstyle.py b/elsie/text/textstyle.py
index ce9e24b..59d75a4 100644
--- a/elsie/text/textstyle.py
+++ b/elsie/text/textstyle.py
@@ -58,7 +58,7 @@ class TextStyle:
         "slashed-zero",
         "lining-nums",
         "oldstyle-nums",
-        "proportinal-nums",
+        "proportional-nums",
         "tabular-nums",
         "diagonal-fractions",
         "stacked-fractions",
-- 
2.43.0


From ce650b42f2a08c65824693a4756b48b013f38a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:07 +0000
Subject: [PATCH 71/76] fix: the Cairo backend draws LaTeX pictures in their
 own size

The size of the whole box was passed to draw_svg, which made a picture in a larger box too big.
---
 elsie/ext/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index a08d70c..ba026a9 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -77,8 +77,8 @@ def _draw(parent, svg, svg_width, svg_height, scale, ctx):
         svg=svg,
         x=x,
         y=y,
-        width=rect.width,
-        height=rect.height,
+        width=svg_width,
+        height=svg_height,
         scale=scale,
     )
 
-- 
2.43.0


From 6e1cc2c67575bf3110cef56052da29edfa40fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:06 +0000
Subject: [PATCH 72/76] fix: documents, names and cached files are exchanged in
 UTF-8 in every locale

In a locale with another encoding, texts, layers of ORA images and LaTeX
sources with other characters raised an error or were written wrongly.
---
 elsie/boxtree/boxmixin.py | 2 +-
 elsie/ext/latex.py        | 2 +-
 elsie/render/inkscape.py  | 8 +++++---
 elsie/render/render.py    | 2 +-
 elsie/utils/cache.py      | 5 +++--
 elsie/utils/sxml.py       | 2 +-
 6 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index d854a24..b6712df 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -568,7 +568,7 @@ class BoxMixin:
 
             def constructor(_content, output, _data_type):
                 svg = convert_ora_to_svg(filename)
-                with open(output, "w") as f:
+                with open(output, "w", encoding="utf-8") as f:
                     f.write(svg)
 
             cache_file = slide.fs_cache.ensure_by_file(filename, "svg", constructor)
diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index ba026a9..1e7478f 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -87,7 +87,7 @@ def _render_latex(text):
     args = ("/usr/bin/pdflatex", "-interaction=batchmode", "content.tex")
 
     with TemporaryDirectory(prefix="elsie-") as wdir:
-        with open(os.path.join(wdir, "content.tex"), "w") as f:
+        with open(os.path.join(wdir, "content.tex"), "w", encoding="utf-8") as f:
             f.write(text)
 
         p = subprocess.Popen(
diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 94eab81..a181021 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -7,8 +7,8 @@ import tempfile
 
 @contextlib.contextmanager
 def svg_file_input(inkscape, svg: str, binary=False):
-    with tempfile.NamedTemporaryFile("wb" if binary else "w", suffix=".svg") as f:
-        f.write(svg)
+    with tempfile.NamedTemporaryFile("wb", suffix=".svg") as f:
+        f.write(svg if binary else svg.encode("utf-8"))
         f.flush()
         inkscape.run_command(f"file-open:{f.name}")
         try:
@@ -25,7 +25,9 @@ class InkscapeShell:
             stdout=subprocess.PIPE,
             stdin=subprocess.PIPE,
             stderr=subprocess.DEVNULL,
-            universal_newlines=True,
+            # Independent of the locale; names of files may have arbitrary bytes
+            encoding="utf-8",
+            errors="surrogateescape",
         )
         self.wait_for_prompt()
 
diff --git a/elsie/render/render.py b/elsie/render/render.py
index 67a0749..0cf9d84 100644
--- a/elsie/render/render.py
+++ b/elsie/render/render.py
@@ -34,7 +34,7 @@ class SvgRenderUnit(RenderUnit):
         svg_file = os.path.join(
             out_dir, "{}-{}.svg".format(self.slide.index, self.step)
         )
-        with open(svg_file, "w") as f:
+        with open(svg_file, "w", encoding="utf-8") as f:
             f.write(self.svg)
 
     def export(self, fs_cache, export_type):
diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index cc5a6ed..deb3e8e 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -99,10 +99,11 @@ class FsCache:
     def get(self, input_data, data_type, constructor):
         def write_file(input_data, target, _data_type):
             result = constructor(input_data)
-            with open(target, "w") as f:
+            with open(target, "w", encoding="utf-8") as f:
                 f.write(result)
 
-        with open(self.ensure(input_data, data_type, write_file), "r") as f:
+        path = self.ensure(input_data, data_type, write_file)
+        with open(path, "r", encoding="utf-8") as f:
             return f.read()
 
 
diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index 385de41..9e95c6e 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -54,7 +54,7 @@ class Xml:
 
     def write(self, filename):
         assert len(self.stack) == 0, "Empty stack"
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding="utf-8") as f:
             for chunk in self.chunks:
                 f.write(chunk)
 
-- 
2.43.0


From a736dfa263165e72c9f146f94d1c397c65a171d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:26 +0000
Subject: [PATCH 73/76] fix: report a failing pdf2svg whose messages are not
 UTF-8

As for pdflatex, bytes that cannot be decoded must not replace the reason
of the failure by a UnicodeDecodeError (property C27).
---
 elsie/ext/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index 1e7478f..476655a 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -118,7 +118,7 @@ def _render_latex(text):
 
         _stdout, stderr = p.communicate()
         if p.returncode != 0:
-            raise Exception("pdf2svg failed:\n" + stderr.decode())
+            raise Exception("pdf2svg failed:\n" + stderr.decode(errors="replace"))
 
         root = et.parse(svg_name).getroot()
 
-- 
2.43.0


From ef8fb590de26fbfcd9caf79e064242428e0e09a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:16 +0000
Subject: [PATCH 74/76] fix: keep lines of inline styles without any character

A tspan without a character does not move the text in SVG, so a line in
which an inline style only begins or ends (e.g. "a\n~emph{\nb}") was lost
in the rendered page, though the layout counted it (properties C07, C08, C10).
---
 elsie/render/backends/svg/draw.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 7226df9..a6e1889 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -45,6 +45,17 @@ def set_paint_style(
     xml.set("style", ";".join(styles))
 
 
+def has_line_text(parsed_text, start):
+    """Returns True if there is a text between the token at `start` and the end of its line."""
+    for i in range(start, len(parsed_text)):
+        token_type = parsed_text[i][0]
+        if token_type == "text":
+            return True
+        if token_type == "newline":
+            break
+    return False
+
+
 def draw_text(
     xml, x, y, parsed_text, style, styles, id=None, id_index=None, transform=None
 ):
@@ -74,19 +85,23 @@ def draw_text(
         xml.set("font-variant-numeric", style.variant_numeric)
 
     current_priority = style.priority
+    # A line without any character has no position, the next one has to be moved instead of it
+    skipped_lines = 0
 
     for i, (token_type, value) in enumerate(parsed_text):
         if token_type == "text":
             xml.text(value)
         elif token_type == "newline":
+            skipped_lines += value
             for _ in active_styles:
                 xml.close("tspan")  # tspan
             for j, s in enumerate(active_styles):
                 xml.element("tspan")
                 xml.set("xml:space", "preserve")
-                if j == 0:
+                if j == 0 and has_line_text(parsed_text, i + 1):
                     xml.set("x", x)
-                    xml.set("dy", line_size * value)
+                    xml.set("dy", line_size * skipped_lines)
+                    skipped_lines = 0
                 if s is not None:
                     set_font_from_style(xml, s)
                     if j > 0 and s.variant_numeric:
-- 
2.43.0


From 2be52cc1f1fc13cdeeae00a61caa9a94bad53c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:51 +0000
Subject: [PATCH 75/76] fix: respect the EXIF orientation of photos

SVG renderers show a JPEG in its EXIF orientation; its size was that of the
unrotated data, so a turned photo was shrunk in its box, and the Cairo
backend drew it sideways (properties C13, C22).
---
 elsie/boxtree/boxmixin.py               |  4 +--
 elsie/render/backends/cairo/rcontext.py |  3 +-
 elsie/render/image.py                   | 41 +++++++++++++++++++++++++
 3 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index b6712df..4f7bbf0 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -6,7 +6,7 @@ import lxml.etree as et
 from PIL import Image
 
 from ..render.backends.svg.utils import svg_size_to_pixels
-from ..render.image import create_image_data, get_image_steps
+from ..render.image import create_image_data, get_bitmap_size, get_image_steps
 from ..render.ora import convert_ora_to_svg
 from ..shapes import arrow
 from ..shapes.path import (
@@ -525,7 +525,7 @@ class BoxMixin:
         if entry is None:
             img = Image.open(io.BytesIO(data))
             mime = Image.MIME[img.format]
-            image_width, image_height = img.size
+            image_width, image_height = get_bitmap_size(img)
             del img
 
             self._get_box().slide.temp_cache[key] = (image_width, image_height, mime)
diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 6e7f080..e60e49f 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -8,6 +8,7 @@ from PIL import Image
 
 from ....text.textstyle import TextStyle
 from ....utils.geom import Rect, find_centroid
+from ...image import orient_bitmap
 from ..rcontext import RenderingContext
 from .draw import (
     apply_viewbox,
@@ -224,7 +225,7 @@ class CairoRenderingContext(RenderingContext):
         if width <= 0 or height <= 0:
             return
 
-        image = Image.open(io.BytesIO(data))
+        image = orient_bitmap(Image.open(io.BytesIO(data)))
         if image.mode != "RGBA":
             image = image.convert("RGBA")
         img_width, img_height = image.width, image.height
diff --git a/elsie/render/image.py b/elsie/render/image.py
index 8cc7eb8..36976a9 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -1,10 +1,51 @@
 from copy import deepcopy
 
 import lxml.etree as et
+from PIL import Image
 
 from ..slides.show import ShowInfo
 
 
+EXIF_ORIENTATION = 0x0112
+
+# How to show bitmaps stored in other orientations
+TRANSPOSITIONS = {
+    2: Image.FLIP_LEFT_RIGHT,
+    3: Image.ROTATE_180,
+    4: Image.FLIP_TOP_BOTTOM,
+    5: Image.TRANSPOSE,
+    6: Image.ROTATE_270,
+    7: Image.TRANSVERSE,
+    8: Image.ROTATE_90,
+}
+
+
+def get_bitmap_orientation(image):
+    """
+    Returns the EXIF orientation in which a bitmap is shown by viewers of SVG. They follow it only
+    in photos (JPEG) and ignore damaged metadata.
+    """
+    if image.format not in ("JPEG", "MPO"):
+        return 1
+    try:
+        orientation = image.getexif().get(EXIF_ORIENTATION)
+    except Exception:
+        return 1
+    return orientation if orientation in TRANSPOSITIONS else 1
+
+
+def get_bitmap_size(image):
+    """Returns the size of a bitmap as it is shown."""
+    width, height = image.size
+    return (height, width) if get_bitmap_orientation(image) > 4 else (width, height)
+
+
+def orient_bitmap(image):
+    """Returns a bitmap as it is shown."""
+    orientation = get_bitmap_orientation(image)
+    return image if orientation == 1 else image.transpose(TRANSPOSITIONS[orientation])
+
+
 def parse_show_info_from_label(element):
     label = element.get("{http://www.inkscape.org/namespaces/inkscape}label")
     return ShowInfo.from_label(label)
-- 
2.43.0


From 55857869841bae2ecf67113df6a1193596d70ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:10 +0000
Subject: [PATCH 76/76] fix: draw bitmaps with 16 bits per pixel by the Cairo
 backend

All their pixels were clipped to white (property C22).
---
 elsie/render/backends/cairo/rcontext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index e60e49f..f840e50 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -226,6 +226,9 @@ class CairoRenderingContext(RenderingContext):
             return
 
         image = orient_bitmap(Image.open(io.BytesIO(data)))
+        if image.mode.startswith("I"):
+            # 16 bits per pixel
+            image = image.convert("I").point(lambda v: v * (1 / 256)).convert("L")
         if image.mode != "RGBA":
             image = image.convert("RGBA")
         img_width, img_height = image.width, image.height
-- 
2.43.0

