From 72f30897df0d413475d5d49338ace529a11546bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 01/70] fix: honour the width argument of GopherHTMLParser

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 66a705d..edfad85 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -373,7 +373,7 @@ class GopherHTMLParser(HTMLParser):
         else:
             # TODO: Maybe a default top margin as well?
             self._box = Box(
-                width=67
+                width=width
             )
         self._output_format = output_format
         self._link_placement = link_placement
-- 
2.43.0


From e4ee059b5d30648e386926e1f443e2b9074422c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 02/70] fix: do not crash on a class attribute without a value

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index edfad85..7864ce7 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -51,7 +51,7 @@ class TagParser(object):
 
     def __extract_classes(self):
         if 'class' in self.attrs:
-            self.attrs['class'] = self.attrs['class'].split()
+            self.attrs['class'] = (self.attrs['class'] or '').split()
             return self.attrs['class']
         return []
 
-- 
2.43.0


From 83261bbb342610a61a45e7e0049aef84379ed172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 03/70] fix: leave preformatted mode when the parser is reset

---
 gopher_render/_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 7864ce7..ef13d3e 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -632,3 +632,4 @@ class GopherHTMLParser(HTMLParser):
         self.tree = DocumentParser()
         self._next_link_number = 1
         self._footer_pending_links = []
+        self._in_pre = False
-- 
2.43.0


From ba065bc65135af21c3e9bcd71395c1805c683e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 04/70] fix: do not count text nodes when numbering ordered
 list items

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7ea2f0a..383ea94 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1092,7 +1092,7 @@ class OrderedListItemRenderer(ListItemRenderer):
         super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
-        return (tag.parent.children.index(tag) * step) + start_index
+        return (tag.parent.tag_children().index(tag) * step) + start_index
 
 
 class DefinitionListRenderer(BlockRenderer):
-- 
2.43.0


From e86a49700d65d76d21972118cd3bfc578e9a3aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 05/70] fix: apply configured settings to ordered list item
 numbering

---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 383ea94..c1cc7d3 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1077,11 +1077,12 @@ class OrderedListItemRenderer(ListItemRenderer):
         step=1,
     )
 
-    def __init__(self, tag, **kwargs):
+    def _adjust_settings(self):
+        super()._adjust_settings()
         # Determine the ordinal and prepare a template based on it before the
         # box gets generated, otherwise the width will be incorrect.
         self.order = self._get_ordinal(
-            tag,
+            self.tag,
             self.settings.start_index,
             self.settings.step,
         )
@@ -1089,7 +1090,6 @@ class OrderedListItemRenderer(ListItemRenderer):
             self.order,
             '{}'
         )
-        super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
         return (tag.parent.tag_children().index(tag) * step) + start_index
-- 
2.43.0


From 497cb78884a5a4665f1270d4d9fd75d3b1fb0bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 06/70] fix: pass configured settings to extracted and inlined
 link renderers

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index ef13d3e..59d428d 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -226,10 +226,10 @@ class LinkParser(TagParser):
             renderer = self.link_renderer
             renderer_settings = self.link_renderer_settings
 
-        render_inst = renderer(self, **render_context)
         if renderer_settings is not None:
             render_context['settings'] = renderer_settings
 
+        render_inst = renderer(self, **render_context)
         try:
             box = render_inst.box
         except AttributeError:
-- 
2.43.0


From 5a88e6cd1c02230ce5ada44ec799699aeba43dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 07/70] fix: do not crash on top level links placed after their
 block

---
 gopher_render/_parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 59d428d..4d7032a 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -286,6 +286,15 @@ class DocumentParser(object):
     """
     def __init__(self):
         self.children = []
+        self._pending_links = []
+
+    def add_pending_link(self, link):
+        self._pending_links.append(link)
+
+    def render_pending_links(self, box):
+        if not self._pending_links:
+            return ''
+        return '\n' + ''.join([l.link_render(box) for l in self._pending_links])
 
     def tag_children(self):
         """
@@ -298,6 +307,7 @@ class DocumentParser(object):
 
     def reset(self):
         self.children = []
+        self._pending_links = []
 
 
 RendererMapping = namedtuple('RendererMapping', 'selector, renderer')
@@ -602,6 +612,7 @@ class GopherHTMLParser(HTMLParser):
 
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
+        self._parsed.append(self.tree.render_pending_links(self._box))
 
         if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
-- 
2.43.0


From 5f5a13b59e77b0b8625e3bac911ecdced1270e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 08/70] fix: render image links placed in the footer whatever
 the link placement

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 4d7032a..db420e8 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -614,7 +614,7 @@ class GopherHTMLParser(HTMLParser):
             self._parsed.append(t.render(self._box))
         self._parsed.append(self.tree.render_pending_links(self._box))
 
-        if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
+        if len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
             for l in self._footer_pending_links:
                 self._parsed.append(l.link_render(self._box))
-- 
2.43.0


From d212f73610fb73d1a3a5ed4f7c298da379ac883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 09/70] fix: render image links inside of links exactly once
 after the block

---
 gopher_render/_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index db420e8..abaed85 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -510,7 +510,14 @@ class GopherHTMLParser(HTMLParser):
             if placement == 'footer':
                 self._footer_pending_links.append(t)
             elif placement == 'after_block':
-                parent.add_pending_link(t)
+                # The content of a link may be rendered again as the description
+                # of the link, so anything pending has to be left outside of it.
+                owner = ancestor = parent
+                while ancestor is not self.tree:
+                    if isinstance(ancestor, LinkParser):
+                        owner = ancestor.parent
+                    ancestor = ancestor.parent
+                owner.add_pending_link(t)
             if placement != 'inline':
                 self._next_link_number += 1
         else:
-- 
2.43.0


From 615a2cfbbdf05913ad8c2f46744193401bf47ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 10/70] fix: do not crash on malformed link URLs

---
 gopher_render/_parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index abaed85..f142c8b 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -151,7 +151,14 @@ class LinkParser(TagParser):
         Parse the href of the link and return a dictionary containing the
         elements of a gophermap link
         """
-        parsed = urlparse(self.href)
+        try:
+            parsed = urlparse(self.href)
+            port = parsed.port
+        except ValueError:
+            # Malformed URL: nothing can be made of it here, so treat it the
+            # same as an unknown protocol.
+            parsed = urlparse('malformed:')
+            port = None
         if parsed.scheme in ("http", "https"):
             return dict(
                 type='h',
@@ -165,7 +172,7 @@ class LinkParser(TagParser):
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
                 host=parsed.hostname,
-                port=parsed.port,
+                port=port,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
-- 
2.43.0


From 6ddd1b85694c6b77f9674ac94606741aa5d9e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 11/70] fix: use the default gopher port for gopher URLs that
 do not specify one

---
 gopher_render/_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index f142c8b..50b4a1e 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -171,8 +171,8 @@ class LinkParser(TagParser):
             return dict(
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
-                host=parsed.hostname,
-                port=port,
+                host=parsed.hostname or self._context['gopher_host'],
+                port=70 if port is None else port,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
-- 
2.43.0


From 180b3d2ff8a755b7bcee40c2a629c6d7e74fe355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 12/70] fix: ignore dots in directory names when guessing the
 type of a link

---
 gopher_render/_parser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 50b4a1e..4718b56 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -1,4 +1,5 @@
 import re
+from posixpath import splitext
 from html.parser import HTMLParser
 from urllib.parse import urlparse
 from collections import namedtuple
@@ -129,17 +130,18 @@ class LinkParser(TagParser):
 
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
-        p = path.rpartition('.')
-        if p[0] == "":
+        extension = splitext(path)[1]
+        if extension == "":
             # No file extension, so gopher menu?
             return 1
-        elif p[2] in ("html", "htm"):
+        extension = extension[1:]
+        if extension in ("html", "htm"):
             return 'h'
-        elif p[2] == 'gif':
+        elif extension == 'gif':
             return 'g'
-        elif p[2] in ('jpg', 'jpeg', 'png', 'bmp', 'tiff'):
+        elif extension in ('jpg', 'jpeg', 'png', 'bmp', 'tiff'):
             return 'I'
-        elif p[2] in ('txt', 'csv', 'tsv', 'md'):
+        elif extension in ('txt', 'csv', 'tsv', 'md'):
             return 0
         else:
             # Default to binary for all other files
-- 
2.43.0


From 0031c262f34bef3b3ef881d05992530a36dfc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 13/70] fix: do not render anchors without a href as links to
 None

---
 gopher_render/_parser.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 4718b56..e5c7a84 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -117,6 +117,7 @@ class LinkParser(TagParser):
             **context
         )
         self.link_renderer = None
+        self.link_renderer_settings = None
         if tag == 'a':
             # If set, this will be used as the link description
             self.title = self.attrs.get('title', None)
@@ -125,7 +126,7 @@ class LinkParser(TagParser):
         elif tag == 'img':
             # If set, this will be used as the link description
             self.title = self.attrs.get('alt', None)
-            self.href = self.attrs.get('src', None)
+            self.href = self.attrs.get('src', None) or ''
             self.gopher_link = self._parse_href()
 
     # TODO: This needs a lot more work to be comprehensive
@@ -210,6 +211,10 @@ class LinkParser(TagParser):
     # original location, unless 'link_placement' is 'inline', in which case
     # link rendering occurs in the original location.
     def render(self, box):
+        if self.href is None:
+            # Not actually a link (a named anchor, for example), so there is
+            # nothing to render but the content.
+            return "".join([c.render(box) for c in self.children])
         placement = self._context['image_placement'] if self.tag == 'img' else self._context['link_placement']
         if placement != 'inline':
             return super().render(box)
@@ -516,7 +521,10 @@ class GopherHTMLParser(HTMLParser):
                 gopher_port=self._gopher_port,
             )
             placement = self._image_placement if tag == 'img' else self._link_placement
-            if placement == 'footer':
+            if t.href is None:
+                # Just an anchor, there is nothing to link to.
+                pass
+            elif placement == 'footer':
                 self._footer_pending_links.append(t)
             elif placement == 'after_block':
                 # The content of a link may be rendered again as the description
@@ -527,7 +535,7 @@ class GopherHTMLParser(HTMLParser):
                         owner = ancestor.parent
                     ancestor = ancestor.parent
                 owner.add_pending_link(t)
-            if placement != 'inline':
+            if placement != 'inline' and t.href is not None:
                 self._next_link_number += 1
         else:
             t = TagParser(
-- 
2.43.0


From 094de24e5ffcc665bf53e86326078d20d06a8426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 14/70] fix: keep line breaks and tabs in URLs out of link
 references

---
 gopher_render/_parser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index e5c7a84..61483a9 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -121,14 +121,23 @@ class LinkParser(TagParser):
         if tag == 'a':
             # If set, this will be used as the link description
             self.title = self.attrs.get('title', None)
-            self.href = self.attrs.get('href', None)
+            self.href = self._clean_href(self.attrs.get('href', None))
             self.gopher_link = self._parse_href()
         elif tag == 'img':
             # If set, this will be used as the link description
             self.title = self.attrs.get('alt', None)
-            self.href = self.attrs.get('src', None) or ''
+            self.href = self._clean_href(self.attrs.get('src', None) or '')
             self.gopher_link = self._parse_href()
 
+    def _clean_href(self, href):
+        """
+        Remove line breaks and tabs, which are not part of a URL, but would
+        break up the line of a link reference or a gophermap item.
+        """
+        if href is None:
+            return None
+        return re.sub('[\t\r\n]', '', href)
+
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
         extension = splitext(path)[1]
-- 
2.43.0


From 2e03376cb1eb20c66ed81ca23b997e6eb5046ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 15/70] fix: keep extracted link descriptions on a single line

---
 gopher_render/rendering.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index c1cc7d3..56449f8 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -86,6 +86,10 @@ def capitalize(text):
     return text.upper()
 
 
+def collapse_whitespace(text):
+    return ' '.join(text.split())
+
+
 def spread(text, spread_char, count):
     s = spread_char * count
     return s.join(text)
@@ -735,17 +739,18 @@ class ExtractedLinkRenderer(BlockRenderer):
         settings = self.settings
         output_format = self.context['output_format']
         href = self.context['href']
-        title = self.context['title']
+        title = collapse_whitespace(self.context['title'] or '')
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
+        content = collapse_whitespace(content)
         trimming = len(content) > max_link_description
-        content = content.strip()[:max_link_description]
+        content = content[:max_link_description]
         if trimming:
             content = "{}...".format(content)
 
         if output_format == 'gophermap':
-            description = title if title is not None else content
+            description = title if title else content
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
@@ -844,14 +849,14 @@ class ExtractedImageLinkRenderer(BlockRenderer):
         output_format = self.context['output_format']
         href = self.context['href']
         if 'title' in self.context and self.context['title']:
-            title = self.context['title']
+            title = collapse_whitespace(self.context['title'])
         else:
             title = "Image"
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
         trimming = len(title) > max_link_description
-        trimmed_title = title.strip()[:max_link_description]
+        trimmed_title = title[:max_link_description]
         if trimming:
             trimmed_title = "{}...".format(trimmed_title)
 
-- 
2.43.0


From 7865e3edc2f5716283bc922b40bba35d01cf40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 16/70] fix: use the alternative text in references to
 extracted images

---
 gopher_render/_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 61483a9..7b7ac02 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -71,6 +71,8 @@ class TagParser(object):
             parent_box=box,
         )
         render_context.update(self._context)
+        if self.tag == 'img':
+            render_context['title'] = self.title
 
         if self.renderer_settings is not None:
             render_context['settings'] = self.renderer_settings
-- 
2.43.0


From 183d6abbb224a20bd534b2087fbcaf129fbf68f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 17/70] fix: match all of the forms of nth-child arguments, and
 only existing positions

---
 gopher_render/_selectors.py | 41 ++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index de6e5fa..c053062 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -10,6 +10,7 @@ from cssselect.parser import (
     Attrib,
     Hash,
     CombinedSelector,
+    parse_series,
 )
 
 
@@ -175,18 +176,33 @@ def _combination_matches(tag, selector):
 
 # Pseudo Classes
 
+def _nth_position_matches(arguments, position):
+    """
+    Determine if a (one based) position is included in the series described by
+    the arguments of an nth-child style selector - "3", "odd", "2n+1", etc.
+    """
+    try:
+        a, b = parse_series(arguments)
+    except ValueError:
+        return False
+    if a == 0:
+        return position == b
+    n, remainder = divmod(position - b, a)
+    return remainder == 0 and n >= 0
+
+
 def _nth_child_matches(tag, selector):
     if not hasattr(tag, 'parent') or tag.parent is None:
         return False
     if hasattr(tag, 'data'):
         return False
-    # A lot of ways this could fail!
-    # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
-    n = int(selector.arguments[0].value)
-    tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
+    if tag.tag is None:
         return False
-    return tag_children[n - 1] is tag and _selector_matches(tag, selector.selector)
+    position = tag.parent.tag_children().index(tag) + 1
+    return (
+        _nth_position_matches(selector.arguments, position) and
+        _selector_matches(tag, selector.selector)
+    )
 
 
 def _nth_last_child_matches(tag, selector):
@@ -194,13 +210,14 @@ def _nth_last_child_matches(tag, selector):
         return False
     if hasattr(tag, 'data'):
         return False
-    # A lot of ways this could fail!
-    # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
-    n = int(selector.arguments[0].value)
-    tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
+    if tag.tag is None:
         return False
-    return tag_children[-n] is tag and _selector_matches(tag, selector.selector)
+    tag_children = tag.parent.tag_children()
+    position = len(tag_children) - tag_children.index(tag)
+    return (
+        _nth_position_matches(selector.arguments, position) and
+        _selector_matches(tag, selector.selector)
+    )
 
 
 def _first_child_matches(tag, selector):
-- 
2.43.0


From 8b139bb3ad20ab44f689ab267f633a2f4b4495df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 18/70] fix: do not crash matching selectors against attributes
 without a value

---
 gopher_render/_selectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index c053062..3319671 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -140,6 +140,9 @@ def _attribute_matches(tag, selector):
         if selector.operator == 'exists':
             return True
         attr_val = tag.attrs[selector.attrib]
+        if attr_val is None:
+            # An attribute without a value has the empty string as its value.
+            attr_val = ''
         if selector.attrib == 'class':
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
-- 
2.43.0


From b8346ae141b9b424be61f0c9119fb73d605c30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 19/70] fix: do not match every element that has the attribute
 when looking for an empty substring

---
 gopher_render/_selectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 3319671..5f6873c 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -154,6 +154,10 @@ def _attribute_matches(tag, selector):
             return selector.value in split_val
         if selector.operator == '|=':
             return attr_val == selector.value or attr_val.startswith("{}-".format(selector.value))
+        if selector.value == '':
+            # The remaining operators all look for a substring, and never match
+            # if it is empty.
+            return False
         if selector.operator == '^=':
             return attr_val.startswith(selector.value)
         if selector.operator == '$=':
-- 
2.43.0


From f8dea96eded5d361746898a7c629117eb9e22273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 20/70] fix: do not match selectors for pseudo elements against
 the element itself

---
 gopher_render/_selectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 5f6873c..d7c4800 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -349,6 +349,10 @@ def tag_matches(tag, selector):
     matched = False
     best_specificity = None
     for s in selector:
+        if s.pseudo_element is not None:
+            # Pseudo elements are not supported - in particular, they should not
+            # match the element they belong to.
+            continue
         is_match = _selector_matches(tag, s.parsed_tree)
         if is_match:
             if _more_specific(s.specificity(), best_specificity):
-- 
2.43.0


From 20ef8ee752f8381e8a5ee623a81a0af81ca5be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 21/70] fix: do not expect end tags for void elements other
 than br and img

---
 gopher_render/_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 7b7ac02..b832504 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -24,6 +24,13 @@ from .rendering import DefinitionListRenderer, DefinitionListTermHeaderRenderer,
 from .rendering import AnsiEscapeCodeRenderer
 
 
+# Elements that never have any content, and therefore have no end tag.
+_void_elements = (
+    'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta',
+    'param', 'source', 'track', 'wbr',
+)
+
+
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
 
@@ -31,7 +38,7 @@ class TagParser(object):
         self.tag = tag
         self.parent = parent
         self.children = []
-        self.closed = tag in ('br', 'img')
+        self.closed = tag in _void_elements
         self.attrs = {}
         self.classes = []
         self.id = None
@@ -562,8 +569,8 @@ class GopherHTMLParser(HTMLParser):
             self.tree.append(t)
 
     def handle_endtag(self, tag):
-        if tag in ('br', 'img'):
-            # br and img tags are inherently self-closing, so if we encounter an end tag
+        if tag in _void_elements:
+            # br and img tags, for example, are inherently self-closing, so if we encounter an end tag
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-- 
2.43.0


From 3024ca9ebde107c0fdf5614f0452c61b25adc102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 22/70] fix: do not crash on blocks nested too deeply to have
 any width left

---
 gopher_render/rendering.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 56449f8..36b19ba 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -619,7 +619,9 @@ class ParagraphRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        width = self.box.inner_width_excluding_line_template
+        # Deeply nested blocks may have nothing left, but there has to be room
+        # for at least one character in order to wrap the content.
+        width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         #template = settings['template']
@@ -1060,7 +1062,9 @@ class ListItemRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        width = self.box.inner_width_excluding_line_template
+        # Deeply nested blocks may have nothing left, but there has to be room
+        # for at least one character in order to wrap the content.
+        width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         justified = justify_func(inner, width, **justify_args)
@@ -1175,7 +1179,9 @@ class DefinitionListItemRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        width = self.box.inner_width_excluding_line_template
+        # Deeply nested blocks may have nothing left, but there has to be room
+        # for at least one character in order to wrap the content.
+        width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         justified = justify_func(inner, width, **justify_args)
-- 
2.43.0


From 208583f0ba47b600c7a5f6735a1f93db6be39a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 23/70] fix: exclude the padding and border of containing boxes
 from the width of a box

---
 gopher_render/rendering.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 36b19ba..7d6c0ef 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -184,21 +184,24 @@ class Box(object):
     def padded_width():
         doc = "The width of the element including the padding."
         def fget(self):
-            # This has to include the width of the local line template
+            # This has to include the width of the local padding and line template
             # but exclude any added by further up the hierarchy.
             return self.width - (
                 self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
                 self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
+                (self.total_padding[BoxSide.LEFT] - self.padding[BoxSide.LEFT]) +
+                (self.total_padding[BoxSide.RIGHT] - self.padding[BoxSide.RIGHT]) +
                 (self.total_line_template_padding - self.line_template_padding)
             )
         return locals()
     padded_width = property(**padded_width())
 
     def bordered_width():
-        doc = "The width of the element including the padding."
+        doc = "The width of the element including the padding and border."
         def fget(self):
-            return self.width - (
-                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT]
+            return (
+                self.padded_width +
+                self.border[BoxSide.LEFT] + self.border[BoxSide.RIGHT]
             )
         return locals()
     bordered_width = property(**bordered_width())
-- 
2.43.0


From 5dc892f213188efcc0bc754855a3b594a0f60188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 24/70] fix: exclude the line templates of containing boxes
 from the width of a header

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7d6c0ef..9f2ac8f 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -506,7 +506,7 @@ class HeaderRenderer(BlockRenderer):
         capitalize_func = capitalize if settings.capitalized else _noop
         spread_func = spread if settings.spread > 0 else _noop
         box = self.box
-        width = box.inner_width
+        width = box.inner_width_excluding_line_template
         inner = settings.template.format(
             spread_func(
                 capitalize_func(
-- 
2.43.0


From b61e0f36ae3cb7cd2ef22fff4de728f4d5b94d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 25/70] fix: do not break ANSI escape sequences when breaking
 long words

---
 gopher_render/_textwrap.py | 40 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 17a3cab..ce47743 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -20,11 +20,31 @@ _escape_regex = regex = re.compile(
     """, re.VERBOSE
 )
 
+def strip_escapes(text):
+    return _escape_regex.sub("", text)
+
+
 def _len(obj):
     if not isinstance(obj, str):
         return len(obj)
-    actual = _escape_regex.sub("", obj)
-    return len(actual)
+    return len(strip_escapes(obj))
+
+
+def _visible_index(text, count):
+    """
+    The index in text immediately after the specified number of visible
+    characters.
+    """
+    index = 0
+    while True:
+        escape = _escape_regex.match(text, index)
+        if escape and count > 0:
+            index = escape.end()
+        elif count > 0 and index < len(text):
+            index += 1
+            count -= 1
+        else:
+            return index
 
 
 class AnsiAwareTextWrapper(TextWrapper):
@@ -33,6 +53,22 @@ class AnsiAwareTextWrapper(TextWrapper):
     the length of wrapped lines.
     """
 
+    def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
+        """
+        Break long words according to their visible characters, keeping any
+        escape sequences intact.
+        """
+        chunk = reversed_chunks[-1]
+        visible = strip_escapes(chunk)
+        if visible == chunk or not self.break_long_words:
+            super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
+            return
+        broken = []
+        super()._handle_long_word([visible], broken, cur_len, width)
+        end = _visible_index(chunk, len(broken[0]))
+        cur_line.append(chunk[:end])
+        reversed_chunks[-1] = chunk[end:]
+
     def _wrap_chunks(self, chunks):
         """
         An exact reimplementation of the method from the base class, but using
-- 
2.43.0


From 0ac0d3a12bef7b189a5f9382e072f33222d7a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 26/70] fix: ignore ANSI escape sequences when aligning text
 and padding lines

---
 gopher_render/rendering.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 9f2ac8f..3696cab 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -14,9 +14,9 @@ def full_justify(text, width, *args, **kwargs):
     lines = textwrap.wrap(text, width, *args, **kwargs)
     out_lines = []
     for line in lines[:-1]:
-        orig_len = len(line)
+        orig_len = textwrap._len(line)
         ls = line.lstrip()
-        indent = ' ' * (orig_len - len(ls))
+        indent = ' ' * (len(line) - len(ls))
         padding_spaces = width - orig_len
         rs = ls.rstrip()
         #padding_spaces = len(ls) - len(rs)
@@ -61,13 +61,15 @@ def center_justify(text, width, *args, **kwargs):
 def center(text, width, *args, **kwargs):
     if not width:
         return _noop(text)
-    return text.center(width, *args, **kwargs)
+    visible = textwrap.strip_escapes(text)
+    return visible.center(width, *args, **kwargs).replace(visible, text, 1)
 
 
 def right(text, width, *args, **kwargs):
     if not width:
         return _noop(text)
-    return text.rjust(width, *args, **kwargs)
+    visible = textwrap.strip_escapes(text)
+    return visible.rjust(width, *args, **kwargs).replace(visible, text, 1)
 
 
 justifications = {
@@ -450,7 +452,7 @@ class BlockRenderer(Renderer):
                 borders[BoxSide.LEFT],
                 ' ' * box.padding[BoxSide.LEFT],
                 l,
-                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + len(l))),
+                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + textwrap._len(l))),
                 borders[BoxSide.RIGHT]
             ) for l in lines
         ]
@@ -518,7 +520,7 @@ class HeaderRenderer(BlockRenderer):
         )
         underline = ""
         if settings['underlined']:
-            underline_len = width if settings.underline_full else len(inner)
+            underline_len = width if settings.underline_full else textwrap._len(inner)
             underline = "{}".format(settings.underline_char * underline_len, width)
             return "{}\n{}".format(
                 center_func(inner, width),
-- 
2.43.0


From 3cc2e772ed9223e03c5d9498bb612996a8cd668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 27/70] fix: do not modify ANSI escape sequences when
 capitalising or spreading text

---
 gopher_render/_textwrap.py | 14 ++++++++++++++
 gopher_render/rendering.py | 13 +++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index ce47743..40f9872 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -24,6 +24,20 @@ def strip_escapes(text):
     return _escape_regex.sub("", text)
 
 
+def map_visible(function, text):
+    """
+    Apply a function to the parts of the text between any escape sequences.
+    """
+    mapped = []
+    index = 0
+    for escape in _escape_regex.finditer(text):
+        mapped.append(function(text[index:escape.start()]))
+        mapped.append(escape.group())
+        index = escape.end()
+    mapped.append(function(text[index:]))
+    return "".join(mapped)
+
+
 def _len(obj):
     if not isinstance(obj, str):
         return len(obj)
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 3696cab..bc7820e 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -85,7 +85,7 @@ justifications = {
 # should probably match the method name
 # TODO: Should may deal with casing the same way as the justifications...
 def capitalize(text):
-    return text.upper()
+    return textwrap.map_visible(str.upper, text)
 
 
 def collapse_whitespace(text):
@@ -94,7 +94,16 @@ def collapse_whitespace(text):
 
 def spread(text, spread_char, count):
     s = spread_char * count
-    return s.join(text)
+    visible = textwrap.strip_escapes(text)
+    if visible == text:
+        return s.join(text)
+    # The spacing goes after every visible character but the last one.
+    remaining = len(visible)
+    def _spread(part):
+        nonlocal remaining
+        remaining -= len(part)
+        return s.join(part) + (s if remaining > 0 and part else '')
+    return textwrap.map_visible(_spread, text)
 
 
 class BoxSide:
-- 
2.43.0


From 332c52cebb5b5d34d64502803a30e4a1d2c9d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 28/70] fix: do not cut off ANSI escape sequences in the
 description of extracted links

---
 gopher_render/rendering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index bc7820e..7f4c0ce 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -760,9 +760,10 @@ class ExtractedLinkRenderer(BlockRenderer):
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
         content = collapse_whitespace(content)
-        trimming = len(content) > max_link_description
-        content = content[:max_link_description]
+        trimming = textwrap._len(content) > max_link_description
         if trimming:
+            # Styles would be left active if their escape sequences got trimmed.
+            content = textwrap.strip_escapes(content)[:max_link_description]
             content = "{}...".format(content)
 
         if output_format == 'gophermap':
-- 
2.43.0


From 46d325a3351628a38261c894aa8313b0ea39db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 29/70] fix: do not crash on the font setting of the ANSI
 renderer

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7f4c0ce..fae33c1 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1345,7 +1345,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
 
         # Fonts
         if settings.font is not None:
-            enable.append(ANSI_ESCAPE_SEQUENCE.format(setting.font + ANSI_FONT_OFFSET))
+            enable.append(ANSI_ESCAPE_SEQUENCE.format(settings.font + ANSI_FONT_OFFSET))
             if not normalise:
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
-- 
2.43.0


From addb4892ef4102a46ee632bac45642b8712ca840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 30/70] fix: do not ignore colour 0 of the 8-bit ANSI palette

---
 gopher_render/rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index fae33c1..3452415 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1350,7 +1350,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
         # Colours
-        if settings.foreground_colour:
+        if settings.foreground_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
@@ -1361,7 +1361,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
             if not normalise:
                 # Default foreground
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(39))
-        if settings.background_colour:
+        if settings.background_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
-- 
2.43.0


From 169e12cd7857f4aec0e2dcc7b41a77c90be09307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 31/70] fix: do not skip renderer settings that are equal to
 those of a base class

---
 gopher_render/rendering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 3452415..39a3eb6 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -321,8 +321,9 @@ class Renderer(metaclass=_RendererMeta):
         all_bases = []
         for klass in all_classes[::-1]:
             if hasattr(klass, 'settings'):
-                if klass.settings not in all_bases:
-                    all_bases.append(klass.settings)
+                # Settings that happen to be equal to those of a base class
+                # still have to override any intermediate class.
+                all_bases.append(klass.settings)
         for base in all_bases:
             s.update(base)
 
-- 
2.43.0


From 007e1be39a1614faf3b6a1af58bd85ba6589ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 32/70] fix: do not indent list items and definitions by white
 space at the start of their content

---
 gopher_render/rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 39a3eb6..79fcd8a 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1083,7 +1083,7 @@ class ListItemRenderer(BlockRenderer):
         width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
+        justified = justify_func(inner.strip(), width, **justify_args)
         just_split = justified.split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
@@ -1200,7 +1200,7 @@ class DefinitionListItemRenderer(BlockRenderer):
         width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
+        justified = justify_func(inner.strip(), width, **justify_args)
         just_split = justified.split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
-- 
2.43.0


From b997c544e8eca0fca19d0cd7163fb42dc72563db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 33/70] fix: do not render source layout white space as the
 indentation of list items and quotes

---
 gopher_render/_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index b832504..b03bcef 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -599,6 +599,13 @@ class GopherHTMLParser(HTMLParser):
         #     if len(data) == 0 or data.isspace():
         #         return
         parent = self._get_top()
+        if parent and data.isspace() and not self._in_pre:
+            # The layout of the source in between the items of a list, or before
+            # the first block of a quote, is not part of the content.
+            if parent.tag in ('ul', 'ol', 'dl'):
+                return
+            if parent.tag == 'blockquote' and len(parent.children) == 0:
+                return
         d = DataParser(parent, data, in_pre=self._in_pre)
         if parent:
             parent.children.append(d)
-- 
2.43.0


From a774f1fcf837f758d2f1fcfb056e347a173d2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 34/70] fix: do not duplicate the document if the parser is
 closed more than once

---
 gopher_render/_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index b03bcef..1bf9f9b 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -649,6 +649,7 @@ class GopherHTMLParser(HTMLParser):
     def close(self):
         super().close()
         # Compile the parsed string
+        self._parsed = []
         # Anything being left in _tag_stack probably indicates an unclosed tag...
         # Pop everything off anyway and add any root tags to the tree.
         while len(self._tag_stack) > 0:
-- 
2.43.0


From 23a6ebd94b8940c971243177d2540c6ac4bf2562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 35/70] fix: do not indent the links in the footer of a
 gophermap

---
 gopher_render/_parser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 1bf9f9b..e2173cf 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -664,22 +664,26 @@ class GopherHTMLParser(HTMLParser):
             self._parsed.append(t.render(self._box))
         self._parsed.append(self.tree.render_pending_links(self._box))
 
+        footer = []
         if len(self._footer_pending_links) > 0:
-            self._parsed.append("\n")
+            footer.append("\n")
             for l in self._footer_pending_links:
-                self._parsed.append(l.link_render(self._box))
+                footer.append(l.link_render(self._box))
+        if self._output_format != 'gophermap':
+            self._parsed.extend(footer)
+            footer = []
 
         # TODO: Some variation here within our box model:
         # Gophermap links should definitely not be indented, but this naively
-        # indents everything. If link placement is footer this should be easy
-        # enough to avoid, but for inter-block links it will be troublesome.
+        # indents everything except for the footer. For inter-block links it
+        # will be troublesome.
         # Could perhaps identify the points where links need to be inserted
         # and indent everything around them separately.
         # Addition of padding and border to box model complicate this even further
         indented = self._indent_body()
         self.parsed = "{}{}{}".format(
             "\n" * self._box.margin[BoxSide.TOP],
-            indented,
+            indented + "".join(footer),
             "\n" * self._box.margin[BoxSide.BOTTOM]
         )
         if self._optimise:
-- 
2.43.0


From fc2a4646f58b97f0f76f0d5eb9eb8949ed16dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 36/70] fix: write the output of the command to the destination
 file

---
 gopher_render/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/cli.py b/gopher_render/cli.py
index c17e14f..9b69722 100644
--- a/gopher_render/cli.py
+++ b/gopher_render/cli.py
@@ -63,8 +63,8 @@ def main():
     parser.feed(source_text)
     parser.close()
 
-    #with open(args.destination, 'w') as out_file:
-    #    out_file.write(parser.parsed)
+    with open(args.destination, 'w') as out_file:
+        out_file.write(parser.parsed)
 
     print(parser.parsed)
 
-- 
2.43.0


From e8552e484af5e0e68656d5033cea294ed881c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 37/70] fix: do not let tabs in the text of a gophermap turn
 lines into links

---
 gopher_render/_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index e2173cf..904db7b 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -672,6 +672,9 @@ class GopherHTMLParser(HTMLParser):
         if self._output_format != 'gophermap':
             self._parsed.extend(footer)
             footer = []
+        elif 'after_block' not in (self._link_placement, self._image_placement):
+            # A line with a tab in it would be taken for a link.
+            self._parsed = ["".join(self._parsed).expandtabs()]
 
         # TODO: Some variation here within our box model:
         # Gophermap links should definitely not be indented, but this naively
-- 
2.43.0


From 206b04942f2427d36d10f88a88cf1da7d55b737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 38/70] fix: stay in preformatted mode until the outermost pre
 element is closed

---
 gopher_render/_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 904db7b..737fdb8 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -574,8 +574,6 @@ class GopherHTMLParser(HTMLParser):
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-        if tag == 'pre':
-            self._in_pre = False
         if not top:
             print("Unsupported or mismatched end tag, ignoring: " + tag)
             return
@@ -588,6 +586,7 @@ class GopherHTMLParser(HTMLParser):
             # TODO: This will have to determine if links should be rendered
             # after the closed tag if link_placement is 'after_block'
             self._tag_stack.pop()
+            self._in_pre = any([t.tag == 'pre' for t in self._tag_stack])
 
     def handle_data(self, data):
         # Ignore any whitespace data on its own, unless in a pre tag
-- 
2.43.0


From 6c76dc791b3c673feb239d37f5602053c3e30bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 39/70] fix: compare attributes with the text of the value in a
 selector, not with its token

---
 gopher_render/_selectors.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index d7c4800..d3160c9 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -147,23 +147,25 @@ def _attribute_matches(tag, selector):
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
+        # cssselect provides a token rather than the text of the value.
+        value = getattr(selector.value, 'value', selector.value)
         if selector.operator == '=':
-            return attr_val == selector.value
+            return attr_val == value
         if selector.operator == '~=':
             split_val = attr_val.split()
-            return selector.value in split_val
+            return value in split_val
         if selector.operator == '|=':
-            return attr_val == selector.value or attr_val.startswith("{}-".format(selector.value))
-        if selector.value == '':
+            return attr_val == value or attr_val.startswith("{}-".format(value))
+        if value == '':
             # The remaining operators all look for a substring, and never match
             # if it is empty.
             return False
         if selector.operator == '^=':
-            return attr_val.startswith(selector.value)
+            return attr_val.startswith(value)
         if selector.operator == '$=':
-            return attr_val.endswith(selector.value)
+            return attr_val.endswith(value)
         if selector.operator == '*=':
-            return selector.value in attr_val
+            return value in attr_val
     return False
 
 
-- 
2.43.0


From 62d904254e1b9e5996c0ea0af8e274132cdffc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 40/70] fix: do not pad the items for images in a gophermap

---
 gopher_render/rendering.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 79fcd8a..125b576 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -904,6 +904,31 @@ class ExtractedImageLinkRenderer(BlockRenderer):
                 **keywords
             )
 
+    def _outer_render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A left margin would not be acceptable for gophermap links, so only
+            # apply the top and bottom margins, if any.
+            box = self.box
+            return "{}{}{}".format(
+                '\n' * box.margin[BoxSide.TOP],
+                content,
+                '\n' * box.margin[BoxSide.BOTTOM],
+            )
+        return super()._outer_render(content)
+
+    def render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A border would not be acceptable for gophermap links, so skip
+            # that render step.
+            return self._outer_render(
+                self._inner_render(
+                    content
+                )
+            )
+        return super().render(content)
+
 
 # TODO: i tags should also have a renderer for icons
 class EmRenderer(InlineRenderer):
-- 
2.43.0


From 2e2672be44f7400f454f42c8f75e749fc0551b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 41/70] fix: do not render white space around the text of a
 header

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 125b576..63c31ce 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -522,7 +522,7 @@ class HeaderRenderer(BlockRenderer):
         inner = settings.template.format(
             spread_func(
                 capitalize_func(
-                    super()._inner_render(content)
+                    super()._inner_render(content).strip()
                 ),
                 settings.spread_char,
                 settings.spread
-- 
2.43.0


From 9768ea5e75c03df7c9f424b7c13ce9233e13a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 42/70] fix: treat text as a whole when it arrives in several
 pieces

---
 gopher_render/_parser.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 737fdb8..f685442 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -494,6 +494,7 @@ class GopherHTMLParser(HTMLParser):
         self._extracted_link_renderer_map = RendererMap(self.extracted_link_renderers)
         self._next_link_number = 1
         self._footer_pending_links = []
+        self._data = []
         self._in_pre = False
         self._optimise = optimise
 
@@ -522,6 +523,7 @@ class GopherHTMLParser(HTMLParser):
         return renderer
 
     def handle_starttag(self, tag, attrs):
+        self._flush_data()
         parent = self._get_top() or self.tree
         t = None
         if tag == 'pre':
@@ -578,6 +580,7 @@ class GopherHTMLParser(HTMLParser):
             print("Unsupported or mismatched end tag, ignoring: " + tag)
             return
         if top.tag == tag:
+            self._flush_data()
             top.closed = True
         else:
             # TODO: Consider instead just accepting mismatched tags and closing the top tag?
@@ -589,6 +592,14 @@ class GopherHTMLParser(HTMLParser):
             self._in_pre = any([t.tag == 'pre' for t in self._tag_stack])
 
     def handle_data(self, data):
+        # The parser may provide the text in several pieces.
+        self._data.append(data)
+
+    def _flush_data(self):
+        data = "".join(self._data)
+        self._data = []
+        if not data:
+            return
         # Ignore any whitespace data on its own, unless in a pre tag
         # Pretty printed html includes a lot of this.
         # Removing ths because it removes significant whitespace between
@@ -647,6 +658,7 @@ class GopherHTMLParser(HTMLParser):
 
     def close(self):
         super().close()
+        self._flush_data()
         # Compile the parsed string
         self._parsed = []
         # Anything being left in _tag_stack probably indicates an unclosed tag...
@@ -697,6 +709,7 @@ class GopherHTMLParser(HTMLParser):
         self.parsed = ""
         self._tag_stack = []
         self.tree = DocumentParser()
+        self._data = []
         self._next_link_number = 1
         self._footer_pending_links = []
         self._in_pre = False
-- 
2.43.0


From 1b0fe43bd9f6e2b8e564668126ec0b906a2f2a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 43/70] fix: do not render source layout white space at the end
 of a quote as a line

---
 gopher_render/_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index f685442..093e6ad 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -581,6 +581,12 @@ class GopherHTMLParser(HTMLParser):
             return
         if top.tag == tag:
             self._flush_data()
+            if tag == 'blockquote' and top.children and not self._in_pre:
+                # The layout of the source after the last block of a quote is
+                # not part of the content either.
+                last = top.children[-1]
+                if last.tag is None and last.data.isspace():
+                    top.children.pop()
             top.closed = True
         else:
             # TODO: Consider instead just accepting mismatched tags and closing the top tag?
-- 
2.43.0


From 74b436c9b91e40f13a5b1fc8930ba33aa114dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:11 +0000
Subject: [PATCH 44/70] fix: break lines and end sentences in the same places
 whether or not text is styled

---
 gopher_render/_textwrap.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 40f9872..05d311c 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -67,6 +67,42 @@ class AnsiAwareTextWrapper(TextWrapper):
     the length of wrapped lines.
     """
 
+    def _split(self, text):
+        """
+        Split the text in the same places as if there were no escape sequences
+        in it.
+        """
+        chunks = super()._split(strip_escapes(text))
+        split = []
+        index = 0
+        for i, chunk in enumerate(chunks):
+            end = index + _visible_index(text[index:], len(chunk))
+            followed_by_space = i == len(chunks) - 1 or chunks[i + 1].isspace()
+            if not chunk.isspace():
+                # White space may be dropped, so it must not include the
+                # sequences that end the style of the word before it.
+                while followed_by_space and _escape_regex.match(text, end):
+                    end = _escape_regex.match(text, end).end()
+                split.append(text[index:end])
+            else:
+                split.extend([
+                    s for s in re.split(r'(\x1b\[[;\d]*m)', text[index:end]) if s
+                ])
+            index = end
+        if index < len(text):
+            split.append(text[index:])
+        return split
+
+    def _fix_sentence_endings(self, chunks):
+        """
+        Correct the sentence endings in the visible part of the text.
+        """
+        visible = [strip_escapes(chunk) for chunk in chunks]
+        super()._fix_sentence_endings(visible)
+        for i, chunk in enumerate(visible):
+            if chunk.isspace():
+                chunks[i] = chunk
+
     def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
         """
         Break long words according to their visible characters, keeping any
-- 
2.43.0


From 2814661672596bd41f0042d7d107c6159b5f5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 45/70] fix: do not try to break chunks of nothing but escape
 sequences for ever

---
 gopher_render/_textwrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 05d311c..b43af59 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -116,8 +116,13 @@ class AnsiAwareTextWrapper(TextWrapper):
         broken = []
         super()._handle_long_word([visible], broken, cur_len, width)
         end = _visible_index(chunk, len(broken[0]))
+        if not strip_escapes(chunk[end:]):
+            # Only escape sequences are left, which fit on any line.
+            end = len(chunk)
         cur_line.append(chunk[:end])
         reversed_chunks[-1] = chunk[end:]
+        if not reversed_chunks[-1]:
+            reversed_chunks.pop()
 
     def _wrap_chunks(self, chunks):
         """
-- 
2.43.0


From 0aaa35fb4b46fd057e3ecb66219ca2b7861b7cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 46/70] fix: render the background colours of the github theme

---
 gopher_render/code_themes/github.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopher_render/code_themes/github.py b/gopher_render/code_themes/github.py
index ac50b88..d82bb0a 100644
--- a/gopher_render/code_themes/github.py
+++ b/gopher_render/code_themes/github.py
@@ -23,20 +23,20 @@ _NAVY = "#000080"
 
 renderers = {
     ".highlight .c": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
-    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background-colour": "#e3d2d2", }),
+    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background_colour": "#e3d2d2", }),
     ".highlight .k": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .o": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .cm": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True }),
     ".highlight .c1": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cs": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True, "italic": True }),
-    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffdddd", }),
-    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffaaaa", }),
+    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffdddd", }),
+    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffaaaa", }),
     ".highlight .ge": (AnsiEscapeCodeRenderer, { "italic": True }),
     ".highlight .gr": (AnsiEscapeCodeRenderer, { "foreground_colour": "#aa0000", }),
     ".highlight .gh": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", }),
-    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ddffdd", }),
-    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#aaffaa", }),
+    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ddffdd", }),
+    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#aaffaa", }),
     ".highlight .go": (AnsiEscapeCodeRenderer, { "foreground_colour": "#888888", }),
     ".highlight .gp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#555555", }),
     ".highlight .gs": (AnsiEscapeCodeRenderer, { "bold": True }),
@@ -83,5 +83,5 @@ renderers = {
     ".highlight .vg": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .vi": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .il": (AnsiEscapeCodeRenderer, { "foreground_colour": "#009999", }),
-    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background-colour": "#EAF2F5", }),
+    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background_colour": "#EAF2F5", }),
 }
-- 
2.43.0


From 13b754bf6c15a9c907192f5ab48b0ffc7af6288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:08 +0000
Subject: [PATCH 47/70] fix: define the base foreground colours of the themes

---
 gopher_render/code_themes/darkly.py         | 2 +-
 gopher_render/code_themes/monokai.py        | 2 +-
 gopher_render/code_themes/tomorrow.py       | 2 +-
 gopher_render/code_themes/tomorrow_night.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gopher_render/code_themes/darkly.py b/gopher_render/code_themes/darkly.py
index ae48550..5196a7a 100644
--- a/gopher_render/code_themes/darkly.py
+++ b/gopher_render/code_themes/darkly.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#343642"
-foreground_colour: "#C1C2C3"
+foreground_colour = "#C1C2C3"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#ffc" }),
diff --git a/gopher_render/code_themes/monokai.py b/gopher_render/code_themes/monokai.py
index 900df20..d098f04 100644
--- a/gopher_render/code_themes/monokai.py
+++ b/gopher_render/code_themes/monokai.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#343642"
-foreground_colour: "#C1C2C3"
+foreground_colour = "#C1C2C3"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#49483e" }),
diff --git a/gopher_render/code_themes/tomorrow.py b/gopher_render/code_themes/tomorrow.py
index da71889..a4b63f4 100644
--- a/gopher_render/code_themes/tomorrow.py
+++ b/gopher_render/code_themes/tomorrow.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#ffffff"
-foreground_colour: "#4d4d4c"
+foreground_colour = "#4d4d4c"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#d6d6d6" }),
diff --git a/gopher_render/code_themes/tomorrow_night.py b/gopher_render/code_themes/tomorrow_night.py
index bb18381..8ae3525 100644
--- a/gopher_render/code_themes/tomorrow_night.py
+++ b/gopher_render/code_themes/tomorrow_night.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#1d1f21"
-foreground_colour: "#c5c8c6"
+foreground_colour = "#c5c8c6"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#373b41" }),
-- 
2.43.0


From bf49ec44d2bbbb20667c31246b95773b5ad62020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 48/70] fix: do not render the end of a style after the last
 line break of a pre as a line

---
 gopher_render/rendering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 63c31ce..5d03cbc 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -698,6 +698,9 @@ class PreRenderer(BlockRenderer):
         settings = self.settings
 
         lines = content.splitlines()
+        if len(lines) > 1 and lines[-1] and not textwrap.strip_escapes(lines[-1]):
+            # Only the end of a style follows the last line break
+            lines[-2:] = ["".join(lines[-2:])]
         formatted = []
         for line in lines:
             formatted.append(
-- 
2.43.0


From 7859755d7aa78b544cd17761cb2424adaea89518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:10 +0000
Subject: [PATCH 49/70] fix: form feeds and Unicode separators are not line
 breaks

---
 gopher_render/_parser.py   |  4 +++-
 gopher_render/_textwrap.py | 14 ++++++++++++++
 gopher_render/rendering.py |  7 +++----
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 093e6ad..3887d9c 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -7,6 +7,8 @@ import cssselect
 
 from ._selectors import tag_matches, Specificity
 
+from ._textwrap import split_lines
+
 from .rendering import full_justify
 
 from .rendering import Box, BoxSide
@@ -633,7 +635,7 @@ class GopherHTMLParser(HTMLParser):
     def _indent_body(self):
         box = self._box
         parsed = "".join(self._parsed)
-        lines = parsed.splitlines(keepends=True)
+        lines = split_lines(parsed, keepends=True)
         return "".join([
             "{}{}".format(' ' * self._box.margin[BoxSide.LEFT], l)
             for l in lines
diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index b43af59..f95688b 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -20,6 +20,20 @@ _escape_regex = regex = re.compile(
     """, re.VERBOSE
 )
 
+_line_regex = re.compile(r"([^\r\n]*)(\r\n|\r|\n|$)")
+
+
+def split_lines(text, keepends=False):
+    """
+    Split the text into lines, like str.splitlines, but only at line breaks. Form
+    feeds, and the separators of Unicode, are characters like any other.
+    """
+    return [
+        line.group(0 if keepends else 1)
+        for line in _line_regex.finditer(text) if line.group()
+    ]
+
+
 def strip_escapes(text):
     return _escape_regex.sub("", text)
 
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 5d03cbc..70b777e 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -433,8 +433,7 @@ class BlockRenderer(Renderer):
 
     def _outer_render(self, content):
         box = self.box
-        # Not sure if splitlines of split('\n') is best here
-        lines = content.splitlines(keepends=True)
+        lines = textwrap.split_lines(content, keepends=True)
         indented = "".join([
             "{}{}".format(' ' * box.margin[BoxSide.LEFT], l)
             for l in lines
@@ -697,7 +696,7 @@ class PreRenderer(BlockRenderer):
     def _inner_render(self, content):
         settings = self.settings
 
-        lines = content.splitlines()
+        lines = textwrap.split_lines(content)
         if len(lines) > 1 and lines[-1] and not textwrap.strip_escapes(lines[-1]):
             # Only the end of a style follows the last line break
             lines[-2:] = ["".join(lines[-2:])]
@@ -1030,7 +1029,7 @@ class BlockQuoteRenderer(BlockRenderer):
 
         width = self.box.inner_width
 
-        content_split = content.splitlines()
+        content_split = textwrap.split_lines(content)
         template = self.settings.line_template
 
         return "\n".join(
-- 
2.43.0


From fd86e272bc204954c9b20f738afe2471bbb66e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 50/70] fix: non-breaking spaces are content, carriage returns
 and form feeds are layout

---
 gopher_render/_parser.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 3887d9c..18b5a04 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -293,16 +293,9 @@ class DataParser(TagParser):
             # This produces different results than how browsers handle whitespace.
             # However, the paragraph renderer will also strip whitespace from the
             # start and end of its content, minimising the impact of this.
-            data_split = data.split('\n')
-            if len(data_split) > 1:
-                data_stripped = []
-                data_stripped.append(data_split[0].rstrip())
-                if len(data_split) > 2:
-                    data_stripped.extend([l.strip() for l in data_split[1:-1]])
-                data_stripped.append(data_split[-1].lstrip())
-                data_split = data_stripped
-            data = ' '.join(data_split)
-            data = re.sub('[ \t]+', ' ', data)
+            # Only the white space of HTML is formatting; other kinds, such as
+            # non-breaking spaces, are content.
+            data = re.sub('[ \t\r\n\f]+', ' ', data)
         self.data = data
         self.closed = True
 
-- 
2.43.0


From a8449fe982aaecc3dc198c06ef7e552d25b0323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:12 +0000
Subject: [PATCH 51/70] fix: white space around the only code or pre of a
 paragraph does not matter

---
 gopher_render/rendering.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 70b777e..4d32b6e 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -610,8 +610,15 @@ class ParagraphRenderer(BlockRenderer):
         # TODO: There may be other circumstances where we need to skip
         # However, every instance I've encountered so far has been resolvable
         # by correcting markdown or the markdown parser settings, so...
-        if settings.skip_for_code_or_pre and self._skip(self.tag.children):
-            return content
+        # The layout of the source around the children is not part of the content
+        children = self.tag.children[:]
+        start, end = 0, len(content)
+        if children and children[0].tag is None and children[0].data.isspace():
+            start = len(children.pop(0).data)
+        if children and children[-1].tag is None and children[-1].data.isspace():
+            end -= len(children.pop().data)
+        if settings.skip_for_code_or_pre and self._skip(children):
+            return content[start:end]
 
         justify_func = justifications[settings.justification]
         capitalize_func = capitalize if settings.capitalized else _noop
-- 
2.43.0


From 50279f08e60dcd82ef219514f0651d18f01cc9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 52/70] fix: wrapping with an indent wider than the line comes
 to an end

---
 gopher_render/_textwrap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index f95688b..c01e392 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -126,6 +126,10 @@ class AnsiAwareTextWrapper(TextWrapper):
         visible = strip_escapes(chunk)
         if visible == chunk or not self.break_long_words:
             super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
+            if reversed_chunks and not reversed_chunks[-1]:
+                # Nothing is left of the word. An empty chunk would not fit on
+                # any line either where the indent is wider than the line.
+                reversed_chunks.pop()
             return
         broken = []
         super()._handle_long_word([visible], broken, cur_len, width)
-- 
2.43.0


From 4b7b9f41dacbad9dbf9f02af6b9c55b222eb4784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 53/70] fix: the capitalized setting of images has an effect

---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 4d32b6e..4f2d450 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -845,12 +845,12 @@ class ImageRenderer(InlineRenderer):
             if "title" in self.context and self.context["title"]:
                 return settings.templates["inline"].format(
                     href=self.context["href"],
-                    title=self.context["title"],
+                    title=capitalize_func(self.context["title"]),
                 )
             else:
                 return settings.templates["inline"].format(
                     href=self.context["href"],
-                    title="Image",
+                    title=capitalize_func("Image"),
                 )
         else:
             if "title" in self.context and self.context["title"]:
@@ -858,7 +858,7 @@ class ImageRenderer(InlineRenderer):
             else:
                 title = "Image"
             return settings.templates["reference"].format(
-                title=title,
+                title=capitalize_func(title),
                 link_reference=self.context["link_reference"]
             )
 
-- 
2.43.0


From 4eed0919a6270fad0210cf012b4775f1c22bfefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 54/70] fix: the template of a line break is applied once

---
 gopher_render/rendering.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 4f2d450..7961e9b 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -992,11 +992,8 @@ class BreakRenderer(InlineRenderer):
     )
 
     def render(self, content):
-        settings = self.settings
         # These tags should not have content, so it is ignored.
-        return settings.template.format(
-            super().render('\n')
-        )
+        return super().render('\n')
 
 
 class BlockQuoteRenderer(BlockRenderer):
-- 
2.43.0


From adb9c5ec746a867c38a7f4827c0bbb7ea1b7d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 55/70] fix: settings without a class keep the default renderer
 of their selector

---
 gopher_render/_parser.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 18b5a04..f585029 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -340,6 +340,33 @@ class DocumentParser(object):
 RendererMapping = namedtuple('RendererMapping', 'selector, renderer')
 
 
+def _split_renderer(renderer):
+    """
+    Return the class and the settings of a renderer specification.
+    """
+    try:
+        return renderer[0], renderer[1]
+    except TypeError:
+        return renderer, None
+
+
+def _override_renderers(defaults, renderers):
+    """
+    Override default renderers. Settings without a class are for the default
+    renderer of the same selector, if there is one.
+    """
+    overridden = dict(defaults)
+    for selector, renderer in renderers.items():
+        # The order among the overriding renderers is the one they are in.
+        default = overridden.pop(selector, None)
+        if renderer is not None:
+            renderer_class, settings = _split_renderer(renderer)
+            if renderer_class is None:
+                renderer = (_split_renderer(default)[0], settings)
+        overridden[selector] = renderer
+    return overridden
+
+
 class RendererMap(object):
     """
     Provides a mapping of CSS selectors to Renderer specifications.
@@ -477,12 +504,15 @@ class GopherHTMLParser(HTMLParser):
             'del': StrikethroughRenderer,
             'span': InlineRenderer,
         }
-        self.renderers.update(renderers)
+        self.renderers = _override_renderers(self.renderers, renderers)
         self.extracted_link_renderers = {
             'a': ExtractedLinkRenderer,
             'img': ExtractedImageLinkRenderer,
         }
-        self.extracted_link_renderers.update(extracted_link_renderers)
+        self.extracted_link_renderers = _override_renderers(
+            self.extracted_link_renderers,
+            extracted_link_renderers
+        )
         self._default_renderer = self.renderers['']
         del self.renderers['']
         self._renderer_map = RendererMap(self.renderers)
-- 
2.43.0


From ab92237b661bdefde0a8a1e85617552a850740b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 56/70] fix: settings of elements without a renderer of their
 own are for the default one

---
 gopher_render/_parser.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index f585029..12931a5 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -378,7 +378,7 @@ class RendererMap(object):
             selector = cssselect.parse(key)
             self._map.append(RendererMapping(selector, renderer_dict[key]))
 
-    def get_for_tag(self, tag):
+    def get_for_tag(self, tag, default=None):
         all_matches = []
         for mapping in self._map:
             match, specificity = tag_matches(tag, mapping.selector)
@@ -392,13 +392,12 @@ class RendererMap(object):
         all_matches.sort(key=lambda m: m[0])
         renderer = None
         renderer_settings = {}
+        if default is not None:
+            # Anything that matches is more specific than the default.
+            renderer, s = _split_renderer(default)
+            renderer_settings.update(s or {})
         for s, mapping in all_matches:
-            try:
-                r = mapping.renderer[0]
-                s = mapping.renderer[1]
-            except TypeError:
-                r = mapping.renderer
-                s = None
+            r, s = _split_renderer(mapping.renderer)
             if r is not None:
                 renderer = r
             if s is not None:
@@ -532,10 +531,7 @@ class GopherHTMLParser(HTMLParser):
         return t
 
     def _get_renderer(self, tag):
-        renderer = self._renderer_map.get_for_tag(tag)
-        if not renderer:
-            renderer = self._default_renderer
-        return renderer
+        return self._renderer_map.get_for_tag(tag, self._default_renderer)
 
     def _get_extracted_link_renderer(self, tag):
         try:
-- 
2.43.0


From 1f15d01fcea7f18865fa3c10da2d80ecac1b7655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 57/70] fix: the case of a file name extension does not matter
 for the type of a link

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 12931a5..3abfac1 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -155,7 +155,7 @@ class LinkParser(TagParser):
         if extension == "":
             # No file extension, so gopher menu?
             return 1
-        extension = extension[1:]
+        extension = extension[1:].lower()
         if extension in ("html", "htm"):
             return 'h'
         elif extension == 'gif':
-- 
2.43.0


From 3359a8014ab61c83cbd17aec127ef01ad218167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 58/70] fix: code anywhere in a pre element is formatted by the
 pre element

---
 gopher_render/rendering.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7961e9b..5e0f142 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -683,10 +683,12 @@ class CodeRenderer(InlineRenderer):
     def render(self, content):
         settings = self.settings
 
-        parent = self.tag.parent
-        if parent and hasattr(parent, 'tag') and parent.tag == 'pre':
-            # The pre will handle the formatting
-            return content
+        ancestor = self.tag.parent
+        while hasattr(ancestor, 'tag'):
+            if ancestor.tag == 'pre':
+                # The pre will handle the formatting
+                return content
+            ancestor = ancestor.parent
         if '\n' in content:
             return settings['block_template'].format(content)
         return settings['inline_template'].format(content)
-- 
2.43.0


From b87ee8cd49bda14964a2b4f0e59724dd1650ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 59/70] fix: complain about mismatched end tags on stderr,
 stdout is for the output

---
 gopher_render/_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 3abfac1..5d6a579 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from posixpath import splitext
 from html.parser import HTMLParser
 from urllib.parse import urlparse
@@ -598,7 +599,7 @@ class GopherHTMLParser(HTMLParser):
             return
         top = self._get_top()
         if not top:
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            print("Unsupported or mismatched end tag, ignoring: " + tag, file=sys.stderr)
             return
         if top.tag == tag:
             self._flush_data()
@@ -611,7 +612,7 @@ class GopherHTMLParser(HTMLParser):
             top.closed = True
         else:
             # TODO: Consider instead just accepting mismatched tags and closing the top tag?
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            print("Unsupported or mismatched end tag, ignoring: " + tag, file=sys.stderr)
         if top.closed:
             # TODO: This will have to determine if links should be rendered
             # after the closed tag if link_placement is 'after_block'
-- 
2.43.0


From 7ee5dc3dbc30d9e2f3abe1249a899e70a89960f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 60/70] fix: lay out every line of a header that has line
 breaks

---
 gopher_render/rendering.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 5e0f142..e5eb609 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -519,24 +519,21 @@ class HeaderRenderer(BlockRenderer):
         box = self.box
         width = box.inner_width_excluding_line_template
         inner = settings.template.format(
-            spread_func(
-                capitalize_func(
-                    super()._inner_render(content).strip()
-                ),
-                settings.spread_char,
-                settings.spread
-            )
+            "\n".join([
+                spread_func(
+                    capitalize_func(line.strip()),
+                    settings.spread_char,
+                    settings.spread
+                )
+                for line in super()._inner_render(content).strip().split("\n")
+            ])
         )
-        underline = ""
+        lines = inner.split("\n")
         if settings['underlined']:
-            underline_len = width if settings.underline_full else textwrap._len(inner)
-            underline = "{}".format(settings.underline_char * underline_len, width)
-            return "{}\n{}".format(
-                center_func(inner, width),
-                center_func(underline, width),
-            )
-        else:
-            return center_func(inner, width)
+            text_len = max([textwrap._len(line) for line in lines])
+            underline_len = width if settings.underline_full else text_len
+            lines.append(settings.underline_char * underline_len)
+        return "\n".join([center_func(line, width) for line in lines])
 
 
 class MarkdownHeaderRenderer(HeaderRenderer):
-- 
2.43.0


From 3ec6d4a4fd4293e9705939a0aefcbf7a41dea8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 61/70] fix: keep the line breaks in list items and definitions

---
 gopher_render/rendering.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index e5eb609..dbebbb4 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1047,6 +1047,30 @@ class ListRenderer(BlockRenderer):
     )
 
 
+def _contains_blocks(tag):
+    """
+    Whether anything in the tag is rendered as a block.
+    """
+    if tag._pending_links:
+        return True
+    return any([
+        (isinstance(c.renderer, type) and issubclass(c.renderer, BlockRenderer)) or _contains_blocks(c)
+        for c in tag.tag_children()
+    ])
+
+
+def _split_item(tag, content):
+    """
+    Split the content of an item at the line breaks in it, and into the lines of
+    any blocks in it, for each to be wrapped separately.
+    """
+    lines = content.strip().split("\n")
+    if _contains_blocks(tag):
+        # The lines of the blocks are indented already
+        return [line.rstrip() for line in lines if line.strip()] or [""]
+    return [line.strip() for line in lines]
+
+
 class ListItemRenderer(BlockRenderer):
     settings = dict(
         line_template="* {}",
@@ -1113,8 +1137,9 @@ class ListItemRenderer(BlockRenderer):
         width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner.strip(), width, **justify_args)
-        just_split = justified.split("\n")
+        just_split = []
+        for line in _split_item(self.tag, inner):
+            just_split.extend(justify_func(line, width, **justify_args).split("\n"))
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
         # are just padded by its width.
@@ -1230,8 +1255,9 @@ class DefinitionListItemRenderer(BlockRenderer):
         width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner.strip(), width, **justify_args)
-        just_split = justified.split("\n")
+        just_split = []
+        for line in _split_item(self.tag, inner):
+            just_split.extend(justify_func(line, width, **justify_args).split("\n"))
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
         # are just padded by its width.
-- 
2.43.0


From a2034ddd05f574d1f2c61df88043c40725348de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 62/70] fix: white space that has escape sequences in it is
 dropped at line breaks like any other

---
 gopher_render/_textwrap.py | 53 ++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index c01e392..1c624f3 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -52,6 +52,14 @@ def map_visible(function, text):
     return "".join(mapped)
 
 
+def _escapes(text):
+    return "".join(_escape_regex.findall(text))
+
+
+def _is_space(text):
+    return strip_escapes(text).strip() == ''
+
+
 def _len(obj):
     if not isinstance(obj, str):
         return len(obj)
@@ -93,18 +101,16 @@ class AnsiAwareTextWrapper(TextWrapper):
             end = index + _visible_index(text[index:], len(chunk))
             followed_by_space = i == len(chunks) - 1 or chunks[i + 1].isspace()
             if not chunk.isspace():
-                # White space may be dropped, so it must not include the
-                # sequences that end the style of the word before it.
+                # The sequences that end the style of a word have to stay on
+                # the line it is on.
                 while followed_by_space and _escape_regex.match(text, end):
                     end = _escape_regex.match(text, end).end()
-                split.append(text[index:end])
-            else:
-                split.extend([
-                    s for s in re.split(r'(\x1b\[[;\d]*m)', text[index:end]) if s
-                ])
+            split.append(text[index:end])
             index = end
-        if index < len(text):
-            split.append(text[index:])
+        if split:
+            split[-1] += text[index:]
+        elif text:
+            split.append(text)
         return split
 
     def _fix_sentence_endings(self, chunks):
@@ -114,8 +120,8 @@ class AnsiAwareTextWrapper(TextWrapper):
         visible = [strip_escapes(chunk) for chunk in chunks]
         super()._fix_sentence_endings(visible)
         for i, chunk in enumerate(visible):
-            if chunk.isspace():
-                chunks[i] = chunk
+            if chunk != strip_escapes(chunks[i]):
+                chunks[i] = chunks[i].replace(" ", "  ", 1)
 
     def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
         """
@@ -181,8 +187,13 @@ class AnsiAwareTextWrapper(TextWrapper):
 
             # First chunk on line is whitespace -- drop it, unless this
             # is the very beginning of the text (ie. no lines started yet).
-            if self.drop_whitespace and chunks[-1].strip() == '' and lines:
-                del chunks[-1]
+            # Any escape sequences in it have to be kept.
+            if self.drop_whitespace and _is_space(chunks[-1]) and lines:
+                escapes = _escapes(chunks.pop())
+                if chunks:
+                    chunks[-1] = escapes + chunks[-1]
+                else:
+                    lines[-1] += escapes
 
             while chunks:
                 l = _len(chunks[-1])
@@ -203,9 +214,17 @@ class AnsiAwareTextWrapper(TextWrapper):
                 cur_len = sum(map(_len, cur_line))
 
             # If the last chunk on this line is all whitespace, drop it.
-            if self.drop_whitespace and cur_line and cur_line[-1].strip() == '':
+            if self.drop_whitespace and cur_line and _is_space(cur_line[-1]):
                 cur_len -= _len(cur_line[-1])
-                del cur_line[-1]
+                escapes = _escapes(cur_line.pop())
+                if cur_line:
+                    cur_line[-1] += escapes
+                elif chunks:
+                    chunks[-1] = escapes + chunks[-1]
+                elif lines:
+                    lines[-1] += escapes
+                elif escapes:
+                    lines.append(escapes)
 
             if cur_line:
                 if (self.max_lines is None or
@@ -213,13 +232,13 @@ class AnsiAwareTextWrapper(TextWrapper):
                     (not chunks or
                      self.drop_whitespace and
                      len(chunks) == 1 and
-                     not chunks[0].strip()) and cur_len <= width):
+                     _is_space(chunks[0])) and cur_len <= width):
                     # Convert current line back to a string and store it in
                     # list of all lines (return value).
                     lines.append(indent + ''.join(cur_line))
                 else:
                     while cur_line:
-                        if (cur_line[-1].strip() and
+                        if (not _is_space(cur_line[-1]) and
                             cur_len + len(self.placeholder) <= width):
                             cur_line.append(self.placeholder)
                             lines.append(indent + ''.join(cur_line))
-- 
2.43.0


From 8422c20e41d0b4e4fa1ce6e1936c298c212c59e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 63/70] fix: white space at the ends of styled text is removed
 like any other

---
 gopher_render/_textwrap.py | 36 ++++++++++++++++++++++++++++++++++++
 gopher_render/rendering.py | 30 +++++++++++++++++++++---------
 2 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 1c624f3..5ca03f5 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -52,6 +52,42 @@ def map_visible(function, text):
     return "".join(mapped)
 
 
+def strip(text, left=True, right=True):
+    """
+    Remove white space from the ends of the visible text.
+    """
+    visible = strip_escapes(text)
+    if right:
+        end = _visible_index(text, len(visible.rstrip()))
+        text = text[:end] + _escapes(text[end:])
+        visible = visible.rstrip()
+    if left:
+        start = _visible_index(text, len(visible) - len(visible.lstrip()))
+        text = _escapes(text[:start]) + text[start:]
+    return text
+
+
+def collapse_whitespace(text):
+    """
+    Reduce white space in the visible text to single spaces, with none at the ends.
+    """
+    space = True
+    def _collapse(part):
+        nonlocal space
+        collapsed = ' '.join(part.split())
+        if collapsed:
+            if part[0].isspace() and not space:
+                collapsed = ' ' + collapsed
+            if part[-1].isspace():
+                collapsed += ' '
+            space = part[-1].isspace()
+        elif part and not space:
+            collapsed = ' '
+            space = True
+        return collapsed
+    return strip(map_visible(_collapse, text))
+
+
 def _escapes(text):
     return "".join(_escape_regex.findall(text))
 
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index dbebbb4..e49efbf 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -89,7 +89,7 @@ def capitalize(text):
 
 
 def collapse_whitespace(text):
-    return ' '.join(text.split())
+    return textwrap.collapse_whitespace(text)
 
 
 def spread(text, spread_char, count):
@@ -521,11 +521,11 @@ class HeaderRenderer(BlockRenderer):
         inner = settings.template.format(
             "\n".join([
                 spread_func(
-                    capitalize_func(line.strip()),
+                    capitalize_func(textwrap.strip(line)),
                     settings.spread_char,
                     settings.spread
                 )
-                for line in super()._inner_render(content).strip().split("\n")
+                for line in textwrap.strip(super()._inner_render(content)).split("\n")
             ])
         )
         lines = inner.split("\n")
@@ -648,7 +648,7 @@ class ParagraphRenderer(BlockRenderer):
         for chunk in inner_split:
             # I think we can safely strip here because the paragraph renderer
             # is expected to reformat its contents...
-            j = justify_func(chunk.strip(), width, **justify_args)
+            j = justify_func(textwrap.strip(chunk), width, **justify_args)
             justified.append(j)
         justified = '\n'.join(justified)
         just_split = justified.split("\n")
@@ -1064,11 +1064,23 @@ def _split_item(tag, content):
     Split the content of an item at the line breaks in it, and into the lines of
     any blocks in it, for each to be wrapped separately.
     """
-    lines = content.strip().split("\n")
-    if _contains_blocks(tag):
-        # The lines of the blocks are indented already
-        return [line.rstrip() for line in lines if line.strip()] or [""]
-    return [line.strip() for line in lines]
+    lines = textwrap.strip(content).split("\n")
+    if not _contains_blocks(tag):
+        return [textwrap.strip(line) for line in lines]
+    # The lines of the blocks are indented already
+    split = []
+    escapes = ""
+    for line in lines:
+        line = escapes + textwrap.strip(line, left=False)
+        if textwrap.strip_escapes(line):
+            split.append(line)
+            escapes = ""
+        else:
+            escapes = line
+    if not split:
+        return [escapes]
+    split[-1] += escapes
+    return split
 
 
 class ListItemRenderer(BlockRenderer):
-- 
2.43.0


From d8a91e0584b7059eeb1bf6922beba75b52c969d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 64/70] fix: escape sequences do not count when tabs are
 expanded

---
 gopher_render/_parser.py   |  4 ++--
 gopher_render/_textwrap.py | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 5d6a579..81c5bd1 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -8,7 +8,7 @@ import cssselect
 
 from ._selectors import tag_matches, Specificity
 
-from ._textwrap import split_lines
+from ._textwrap import expand_tabs, split_lines
 
 from .rendering import full_justify
 
@@ -713,7 +713,7 @@ class GopherHTMLParser(HTMLParser):
             footer = []
         elif 'after_block' not in (self._link_placement, self._image_placement):
             # A line with a tab in it would be taken for a link.
-            self._parsed = ["".join(self._parsed).expandtabs()]
+            self._parsed = [expand_tabs("".join(self._parsed))]
 
         # TODO: Some variation here within our box model:
         # Gophermap links should definitely not be indented, but this naively
diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 5ca03f5..e0aa11c 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -52,6 +52,19 @@ def map_visible(function, text):
     return "".join(mapped)
 
 
+def expand_tabs(text, tabsize=8):
+    """
+    Expand tabs according to the visible columns they are in.
+    """
+    column = 0
+    def _expand(part):
+        nonlocal column
+        expanded = (' ' * column + part).expandtabs(tabsize)
+        start, column = column, len(re.split('[\r\n]', expanded)[-1])
+        return expanded[start:]
+    return map_visible(_expand, text)
+
+
 def strip(text, left=True, right=True):
     """
     Remove white space from the ends of the visible text.
@@ -125,6 +138,11 @@ class AnsiAwareTextWrapper(TextWrapper):
     the length of wrapped lines.
     """
 
+    def _munge_whitespace(self, text):
+        if self.expand_tabs:
+            text = expand_tabs(text, self.tabsize)
+        return super()._munge_whitespace(text)
+
     def _split(self, text):
         """
         Split the text in the same places as if there were no escape sequences
-- 
2.43.0


From 69a719fb02c3c6be107ecd37c6101e33d97e638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 65/70] fix: full justification keeps the indentation of lines
 that start with escape sequences

---
 gopher_render/rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index e49efbf..9e048e0 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -15,10 +15,10 @@ def full_justify(text, width, *args, **kwargs):
     out_lines = []
     for line in lines[:-1]:
         orig_len = textwrap._len(line)
-        ls = line.lstrip()
+        ls = textwrap.strip(line, right=False)
         indent = ' ' * (len(line) - len(ls))
         padding_spaces = width - orig_len
-        rs = ls.rstrip()
+        rs = textwrap.strip(ls, left=False)
         #padding_spaces = len(ls) - len(rs)
         if padding_spaces == 0:
             out_lines.append(line)
-- 
2.43.0


From b6e17b24b797bcafec21393437ee3c6e5081c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 66/70] fix: the width of a line template is that of what is
 visible of it

---
 gopher_render/rendering.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 9e048e0..306e886 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -114,8 +114,7 @@ class BoxSide:
 
 
 def _get_template_width(template):
-    # TODO: This needs to be more sophisticated
-    return len(template) - 2
+    return textwrap._len(template.format(''))
 
 
 class Box(object):
-- 
2.43.0


From 6ccbe5c1fb1517c2406c395e1ed309be5d8606a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 67/70] fix: the width of a border is that of what is visible
 of it

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 306e886..94936b9 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -404,7 +404,7 @@ class BlockRenderer(Renderer):
         super().__init__(tag, **kwargs)
         # TODO: What if None, or wrong length?
         border = self.settings.border
-        self._border_width = [ len(b) for b in border ]
+        self._border_width = [textwrap._len(b) for b in border]
         self.box = self._generate_box()
 
     def _generate_box(self):
-- 
2.43.0


From a8b6bd77bc32aec5c05be84128e608a63c871d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 68/70] fix: semicolons are part of the path of a link

---
 gopher_render/_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 81c5bd1..2691444 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -2,7 +2,7 @@ import re
 import sys
 from posixpath import splitext
 from html.parser import HTMLParser
-from urllib.parse import urlparse
+from urllib.parse import urlsplit
 from collections import namedtuple
 import cssselect
 
@@ -176,12 +176,12 @@ class LinkParser(TagParser):
         elements of a gophermap link
         """
         try:
-            parsed = urlparse(self.href)
+            parsed = urlsplit(self.href)
             port = parsed.port
         except ValueError:
             # Malformed URL: nothing can be made of it here, so treat it the
             # same as an unknown protocol.
-            parsed = urlparse('malformed:')
+            parsed = urlsplit('malformed:')
             port = None
         if parsed.scheme in ("http", "https"):
             return dict(
-- 
2.43.0


From e9e401158f226eec3627fa991b5f8d9bef00d60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 69/70] fix: the case of the names of elements and attributes
 does not matter in selectors

---
 gopher_render/_selectors.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index d3160c9..04ca123 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -24,7 +24,8 @@ def _element_matches(tag, element):
     if hasattr(tag, 'data'):
         return False
     # element.element will be None for the universal selector ('*')
-    return tag.tag == element.element or element.element is None
+    # The names of elements are always in lower case in the tree.
+    return element.element is None or tag.tag == element.element.lower()
 
 
 def _hash_matches(tag, hash):
@@ -136,14 +137,16 @@ def _attribute_matches(tag, selector):
     # not handled here.
     # There are also options related to how to compare the values case-wise
     # but that is apparently not handled by cssselect.
-    if selector.attrib in tag.attrs:
+    # The names of attributes are always in lower case in the tree.
+    attrib = selector.attrib.lower()
+    if attrib in tag.attrs:
         if selector.operator == 'exists':
             return True
-        attr_val = tag.attrs[selector.attrib]
+        attr_val = tag.attrs[attrib]
         if attr_val is None:
             # An attribute without a value has the empty string as its value.
             attr_val = ''
-        if selector.attrib == 'class':
+        if attrib == 'class':
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
-- 
2.43.0


From dc9338c79f70611c8e8d2bdc233423c84900f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 70/70] fix: only count the items of an ordered list

---
 gopher_render/rendering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 94936b9..4460755 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1183,7 +1183,9 @@ class OrderedListItemRenderer(ListItemRenderer):
         )
 
     def _get_ordinal(self, tag, start_index, step):
-        return (tag.parent.tag_children().index(tag) * step) + start_index
+        # Other elements in the list do not have a number.
+        items = [t for t in tag.parent.tag_children() if t.tag == tag.tag]
+        return (items.index(tag) * step) + start_index
 
 
 class DefinitionListRenderer(BlockRenderer):
-- 
2.43.0

