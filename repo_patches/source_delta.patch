From df7e5fb0cd5ca98496a295b6e89dbf580c690f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 01/69] fix: escape backslashes and carriage returns in PDF
 strings

---
 pdfme/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 4aafb09..5b3391d 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -82,7 +82,9 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, (int, float)):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
-        return ('(' + re.sub(r'([()])', r'\\\1', obj) + ')').encode('latin')
+        # a raw carriage return inside a PDF string is read as a line feed
+        escaped = re.sub(r'([\\()])', r'\\\1', obj).replace('\r', '\\r')
+        return ('(' + escaped + ')').encode('latin')
 
 
 def parse_dict(obj: dict) -> bytes:
-- 
2.43.0


From a1a52ba8c3c1cb629adb2b00ef6dd94ebd3fd2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 02/69] fix: never write numbers in exponential notation

---
 pdfme/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 5b3391d..9f354b9 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -1,4 +1,5 @@
 import re
+from decimal import Decimal
 from typing import Iterable, Union
 class PDFObject:
     """A class that represents a PDF object.
@@ -80,7 +81,11 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, bool):
         return b'true' if obj else b'false'
     elif isinstance(obj, (int, float)):
-        return str(obj).encode('latin')
+        number = str(obj)
+        if 'e' in number:
+            # PDF numbers can't be written in exponential notation
+            number = format(Decimal(number), 'f')
+        return number.encode('latin')
     elif isinstance(obj, str):
         # a raw carriage return inside a PDF string is read as a line feed
         escaped = re.sub(r'([\\()])', r'\\\1', obj).replace('\r', '\\r')
-- 
2.43.0


From 9815471f32269f09a06148cae438d607ab7f9f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 03/69] fix: escape the characters of dict keys not allowed in
 PDF names

---
 pdfme/parser.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 9f354b9..d808251 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -104,13 +104,27 @@ def parse_dict(obj: dict) -> bytes:
     """
     bytes_ = b'<<'
     for key, value in obj.items():
-        bytes_ += b'/' + key.encode('latin')
+        bytes_ += b'/' + parse_name(key)
         ret = parse_obj(value)
         if not ret[0] in [b'/', b'(', b'<']: bytes_ += b' '
         bytes_ += ret
 
     return bytes_ + b'>>'
 
+def parse_name(name: str) -> bytes:
+    """Function to convert a python string to the characters of a PDF Name,
+    without the leading slash, escaping the ones that are not allowed in it.
+
+    Args:
+        name (str): the string to be converted.
+
+    Returns:
+        bytes: bytes representing the corresponding PDF Name.
+    """
+    return re.sub(
+        r'[^!-~]|[#()<>\[\]{}/%]', lambda m: '#{:02X}'.format(ord(m.group())), name
+    ).encode('latin')
+
 def parse_list(obj: Iterable) -> bytes:
     """Function to convert a python iterable to a bytes object representing the
     corresponding PDF Array.
-- 
2.43.0


From e1da2fe2617c961005673bb69a81b31c308687ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 04/69] fix: justify the line before the last one, and fit the
 last one in the paragraph width

---
 pdfme/text.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 7e05300..d07a37f 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -700,8 +700,6 @@ class PDFTextBase:
                 for w in re.split('( +)', words)
                 if w != ''
             ]
-        is_last_part = part_index == len(self.content) - 1
-
         for word_index in range(self.last_word, len(words)):
             word = words[word_index]
             ans = self.current_line.add_word(word)
@@ -709,9 +707,7 @@ class PDFTextBase:
                 self.last_part_added = part_index
                 self.last_word_added = word_index + 1
             elif ans['status'] == 'finished':
-                continue_ = self.add_current_line(
-                    is_last_part and word_index == len(words) - 1
-                )
+                continue_ = self.add_current_line()
                 ans['new_line'].max_width = self.width - (
                     self.list_indent if self.list_text else 0
                 )
@@ -816,7 +812,7 @@ class PDFTextBase:
         x = self.list_indent if self.list_text else 0
         line_height = line.height
         full_line_height = line_height
-        ignore_factor = self.text_align != 'j' or is_last or spaces_width == 0
+        ignore_factor = self.text_align != 'j' or spaces_width == 0
         factor_width = self.width - words_width - x
         adjusted_indent = 0
         if self.text_align in ['r', 'c']:
@@ -894,6 +890,9 @@ class PDFTextBase:
         self.y_ -= full_line_height
 
         factor = 1 if ignore_factor else factor_width / spaces_width
+        if is_last:
+            # the last line is not expanded, but it could need to be compressed
+            factor = max(line.justify_min_factor, min(1, factor))
 
         for part in line.line_parts:
             text = self.clean_words(part.words)
-- 
2.43.0


From 446d36feb053bf170a1a4853328fe8c220e8fc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 05/69] fix: horizontal position of indented, aligned and list
 paragraph lines

---
 pdfme/text.py | 113 +++++++++++++++++++++-----------------------------
 1 file changed, 47 insertions(+), 66 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index d07a37f..502d3b5 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -468,7 +468,6 @@ class PDFTextBase:
         self.content = content
         self.finished = False
         self.is_first_line = True
-        self.correct_indent = True
         self.list_setup_done = False
 
     @property
@@ -607,7 +606,7 @@ class PDFTextBase:
             self.fonts, line_width, self.text_align, self.line_height
         )
 
-        self.last_indent = 0
+        self.last_x = 0
         self.last_state = self.last_factor = self.last_fill = None
         self.last_color = self.last_stroke_width = None
 
@@ -809,84 +808,66 @@ class PDFTextBase:
                 paragraph (True) or not (False).
         """
         words_width, spaces_width = line.get_widths()
-        x = self.list_indent if self.list_text else 0
-        line_height = line.height
-        full_line_height = line_height
+        left = self.list_indent if self.list_text else 0
+        indent = self.indent if self.is_first_line else 0
+        full_line_height = line.height
         ignore_factor = self.text_align != 'j' or spaces_width == 0
-        factor_width = self.width - words_width - x
-        adjusted_indent = 0
+        factor_width = self.width - words_width - left - indent
+
+        # x is the start of the line, relative to the left of the rectangle
         if self.text_align in ['r', 'c']:
-            indent = self.width - words_width - spaces_width
+            x = self.width - words_width - spaces_width - left
             if self.text_align == 'c':
-                indent /= 2
-            x += indent
-            adjusted_indent = indent - self.last_indent
-            self.last_indent = indent
+                x /= 2
+            x += left
+        else:
+            x = left + indent
 
         if not self.started:
             self.started = True
-            if self.is_first_line:
-                factor_width -= self.indent
-                x += self.indent
-                self.is_first_line = False
-
-                first_indent = (
-                    adjusted_indent if self.text_align in ['r', 'c']
-                    else self.indent
+            if self.is_first_line and self.list_text:
+                if self.list_state.size > full_line_height:
+                    full_line_height = self.list_state.size
+
+                style = self.list_style
+                font_family = style.get('f', None)
+                if not font_family:
+                    current_line_style = self.current_line.line_parts[0].style
+                    font_family = current_line_style.get('f', None)
+
+                font = None
+                if font_family not in STANDARD_FONTS:
+                    mode = 'n'
+                    if 'b' in style:
+                        mode = 'b'
+                    if 'i' in style:
+                        if mode == 'b':
+                            mode += 'i'
+                        else:
+                            mode = 'i'
+
+                    font = self.fonts.get_font(font_family, mode)
+
+                self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
+                    round(full_line_height, 3),
+                    self.list_state.compare(self.last_state),
+                    (font.encode_text(self.list_text) if
+                        font else self.list_text),
+                    round(x, 3)
                 )
-
-                if self.list_text:
-                    first_indent += self.list_indent
-                    if self.list_state.size > full_line_height:
-                        full_line_height = self.list_state.size
-
-                    style = self.list_style
-                    font_family = style.get('f', None)
-                    if not font_family:
-                        current_line_style = self.current_line.line_parts[0].style
-                        font_family = current_line_style.get('f', None)
-
-                    font = None
-                    if font_family not in STANDARD_FONTS:
-                        mode = 'n'
-                        if 'b' in style:
-                            mode = 'b'
-                        if 'i' in style:
-                            if mode == 'b':
-                                mode += 'i'
-                            else:
-                                mode = 'i'
-
-                        font = self.fonts.get_font(font_family, mode)
-
-                    self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
-                        round(full_line_height, 3),
-                        self.list_state.compare(self.last_state),
-                        (font.encode_text(self.list_text) if
-                            font else self.list_text),
-                        first_indent
-                    )
-                else:
-                    self.text += ' {} -{} Td'.format(
-                        round(first_indent, 3), round(full_line_height, 3)
-                    )
             else:
-                first_indent = adjusted_indent
-                if self.list_text:
-                    first_indent += self.list_indent
                 self.text += ' {} -{} Td'.format(
-                    round(first_indent, 3), round(full_line_height, 3)
+                    round(x, 3), round(full_line_height, 3)
                 )
+            self.is_first_line = False
         else:
-            if self.correct_indent:
-                self.correct_indent = False
-                adjusted_indent -= self.indent
-
             full_line_height *= self.line_height
 
-            self.text += ' {} -{} Td'.format(round(adjusted_indent, 3),
-                                        round(full_line_height, 3))
+            self.text += ' {} -{} Td'.format(
+                round(x - self.last_x, 3), round(full_line_height, 3)
+            )
 
+        self.last_x = x
         self.y_ -= full_line_height
 
         factor = 1 if ignore_factor else factor_width / spaces_width
-- 
2.43.0


From 9a4568aeba71632d1d9e7d41162cfb1c143b0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 06/69] fix: keep the list indent in every rectangle and after
 line breaks

---
 pdfme/text.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 502d3b5..8c5322f 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -601,10 +601,7 @@ class PDFTextBase:
         self.current_height = 0
         self.lines = []
 
-        line_width = self.width - (self.indent if self.is_first_line else 0)
-        self.current_line = PDFTextLine(
-            self.fonts, line_width, self.text_align, self.line_height
-        )
+        self.current_line = self.create_line()
 
         self.last_x = 0
         self.last_state = self.last_factor = self.last_fill = None
@@ -612,6 +609,26 @@ class PDFTextBase:
 
         self.y_ = 0
 
+    def create_line(self) -> PDFTextLine:
+        """Function to create a line, with the width that is available to the
+        next line of the paragraph.
+
+        Returns:
+            PDFTextLine: the new line.
+        """
+        width = self.width
+        if self.is_first_line:
+            width -= self.indent
+        if self.list_setup_done:
+            width -= self.list_indent
+            if self.is_first_line:
+                self.current_line_used_fonts.add(
+                    (self.list_state.font_family, self.list_state.font_mode)
+                )
+        return PDFTextLine(
+            self.fonts, width, self.text_align, self.line_height
+        )
+
     def run(
         self, x: Number=None, y: Number=None, width: Number=None,
         height: Number=None
@@ -643,10 +660,7 @@ class PDFTextBase:
                     self.last_part_added = part_index + 1
                     self.last_word_added = 0
                     continue_ = self.add_current_line(True)
-                    self.current_line = PDFTextLine(
-                        self.fonts, self.width, self.text_align,
-                        self.line_height
-                    )
+                    self.current_line = self.create_line()
                     if not continue_:
                         return self.result
             else:
-- 
2.43.0


From b8d6f79416662729d86b97108298d6a16eabc417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 07/69] fix: escape the list text and use the font of each text
 part to encode it

---
 pdfme/text.py | 57 ++++++++++++++++-----------------------------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 8c5322f..012f6bd 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -843,30 +843,10 @@ class PDFTextBase:
                 if self.list_state.size > full_line_height:
                     full_line_height = self.list_state.size
 
-                style = self.list_style
-                font_family = style.get('f', None)
-                if not font_family:
-                    current_line_style = self.current_line.line_parts[0].style
-                    font_family = current_line_style.get('f', None)
-
-                font = None
-                if font_family not in STANDARD_FONTS:
-                    mode = 'n'
-                    if 'b' in style:
-                        mode = 'b'
-                    if 'i' in style:
-                        if mode == 'b':
-                            mode += 'i'
-                        else:
-                            mode = 'i'
-
-                    font = self.fonts.get_font(font_family, mode)
-
                 self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
                     round(full_line_height, 3),
                     self.list_state.compare(self.last_state),
-                    (font.encode_text(self.list_text) if
-                        font else self.list_text),
+                    self.encode_text(self.list_state, str(self.list_text)),
                     round(x, 3)
                 )
             else:
@@ -890,7 +870,7 @@ class PDFTextBase:
             factor = max(line.justify_min_factor, min(1, factor))
 
         for part in line.line_parts:
-            text = self.clean_words(part.words)
+            text = ''.join(part.words)
             self.text += self.output_text(part, text, factor)
             part_width = part.current_width(factor)
             part_size = round(part.state.size, 3)
@@ -926,6 +906,21 @@ class PDFTextBase:
             text = text.replace('\\',r'\\').replace('(','\\(').replace(')','\\)')
         return text
 
+    def encode_text(self, state: PDFState, text: str) -> str:
+        """This function transforms ``text`` into the contents of a PDF string,
+        to be shown with the font in ``state``.
+
+        Args:
+            state (PDFState): the state with the font of the text.
+            text (str): the text to be transformed.
+
+        Returns:
+            str: the contents of the PDF string.
+        """
+        if state.font_family in STANDARD_FONTS:
+            return self.clean_words([text])
+        return state.font.encode_text(text)
+
     def output_text(self, part: PDFTextLinePart, text, factor: Number=1) -> str:
         """Function that creates a piece of PDF stream (only the text), from
         the PDFTextLinePart and the ``text`` arguments.
@@ -952,23 +947,7 @@ class PDFTextBase:
             self.last_factor = tw
 
         if text != '':
-            style = part.style
-            if ((font_family := style.get('f', None)) and 
-                font_family not in STANDARD_FONTS):
-            
-                mode = 'n'
-                if 'b' in style:
-                    mode = 'b'
-                if 'i' in style:
-                    if mode == 'b':
-                        mode += 'i'
-                    else:
-                        mode = 'i'
-
-                font = part.fonts.get_font(font_family, mode)
-                stream += ' ({})Tj'.format(font.encode_text(text))
-            else:
-                stream += ' ({})Tj'.format(text)
+            stream += ' ({})Tj'.format(self.encode_text(part.state, text))
         return stream
 
     def output_graphics(
-- 
2.43.0


From 98362f141323b9ac9c6176aaa8283eeea9e5b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 08/69] fix: account for the list text in the height of the
 first line

---
 pdfme/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 012f6bd..328b45c 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -748,6 +748,8 @@ class PDFTextBase:
             )
 
         line_height = self.current_line.height
+        if self.is_first_line and self.list_setup_done:
+            line_height = max(line_height, self.list_state.size)
         if self.first_line_added:
             line_height *= self.line_height
         else:
-- 
2.43.0


From cf8b9124b2a8727267853643db454af50b8d4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 09/69] fix: accept "b", "i" and "u" with a value in style
 strings

---
 pdfme/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 45f12ab..03bf1bb 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -196,7 +196,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element "{}" must be 0 or 1: {}'
                         .format(attr, value)
                     )
-            if attr == "f":
+            elif attr == "f":
                 if value not in fonts.fonts:
                     font_found = False
 
-- 
2.43.0


From 589dfdcdb2e11fe7d5b750a16ff89e95dbefad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 10/69] fix: collapse consecutive spaces of different text
 parts anywhere in the line

---
 pdfme/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 328b45c..c5c5481 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -340,6 +340,7 @@ class PDFTextLine:
                 if self.is_last_word_space:
                     return {'status': 'ignored'}
                 else:
+                    self.is_last_word_space = True
                     self.add_accumulated()
                     return {'status': 'added'}
             else:
-- 
2.43.0


From 9c40544cabb9b4a4d5c42497cf4630f00769e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 11/69] fix: keep the first destination and only one outline of
 texts split in several pages

---
 pdfme/pdf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 6e2c145..28b5fcd 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -170,6 +170,7 @@ class PDF:
         self.pages = []
         self.running_sections = []
         self.outlines = []
+        self.outlines_ids = set()
 
         self.base = PDFBase()
         self.root = self.base.add({ 'Type': b'/Catalog'})
@@ -598,6 +599,9 @@ class PDF:
             if len(rects) == 0:
                 continue
             if id_.startswith('$label:'):
+                if id_[7:] in self.dests:
+                    # the destination is the place where the label starts
+                    continue
                 d = rects[0]
                 x_ref = x + d[0]
                 self.dests[id_[7:]] = [
@@ -630,6 +634,10 @@ class PDF:
                         ]
                     )
             elif id_.startswith('$outline:'):
+                if id_ in self.outlines_ids:
+                    # continuation, maybe in other page, of the outline text
+                    continue
+                self.outlines_ids.add(id_)
                 outline_data = json.loads(id_[9:])
                 outline = self.outlines
                 for _ in range(outline_data['level'] - 1):
-- 
2.43.0


From 348f7fec323e30e9f68ec9bcb160945f60031198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 12/69] fix: restore the whole state of a paragraph, to run it
 again from there

---
 pdfme/text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index c5c5481..5bfc5f5 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -549,8 +549,9 @@ class PDFTextBase:
                 word of the last part that was added the last time method
                 ``run`` was called.
         """
-        self.last_part = last_part
-        self.last_word = last_word
+        self.last_part = self.last_part_line = last_part
+        self.last_word = self.last_word_line = last_word
+        self.is_first_line = last_part == 0 and last_word == 0
 
     def setup(
         self, x: Number=None, y:Number=None, width: Number=None,
-- 
2.43.0


From bca1efd1d5eaae817fd5e7762fd89bdb6c3f21b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 13/69] fix: restore the delayed cells and the first row mark
 of a table

---
 pdfme/table.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ae4f59e..3dd49c1 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -228,10 +228,13 @@ class PDFTable:
             dict: a dict with the state of this table.
         """
         return {
-            'current_index': self.current_index, 'delayed': copy(self.delayed)
+            'current_index': self.current_index, 'delayed': copy(self.delayed),
+            'first_row': self.first_row
         }
 
-    def set_state(self, current_index: int=None, delayed: dict=None) -> None:
+    def set_state(
+        self, current_index: int=None, delayed: dict=None, first_row: bool=None
+    ) -> None:
         """Method to set the state of this table.
         
         The arguments of this method define the current state of this table,
@@ -242,11 +245,14 @@ class PDFTable:
                 added.
             delayed (dict, optional): a dict with delayed cells that should be
                 added before the next row.
+            first_row (bool, optional): whether no row has been added yet.
         """
         if current_index is not None:
             self.current_index = current_index
-        elif delayed is not None:
-            self.delayed = delayed
+        if delayed is not None:
+            self.delayed = copy(delayed)
+        if first_row is not None:
+            self.first_row = first_row
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
-- 
2.43.0


From 4cfef4ba4842f4afc8a87d2f74e5b24a218b0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 14/69] fix: remove the lines and fills of tables when the
 columns of a content box are balanced

---
 pdfme/content.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 983f1ed..5a3ba3e 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -388,12 +388,20 @@ class PDFContentPart:
         self.delayed = copy(self.section_delayed) # current delayed elements
         self.will_reset = False
         self.resetting = False
-        self.parts_index = len(self.p.parts)
+        self.save_indexes()
 
         self.minim_diff_last = None
         self.minim_diff = None
         self.minim_forward = None
 
+    def save_indexes(self) -> None:
+        """Function to save how many parts, lines and fills were added to the
+        rectangle before the ones of this element.
+        """
+        self.parts_index = len(self.p.parts)
+        self.lines_index = len(self.p.lines)
+        self.fills_index = len(self.p.fills)
+
     def get_state(self) -> dict:
         """Method to get the current state of this content box. This can be used
         later in method :meth:`pdfme.content.PDFContentPart.set_state` to
@@ -649,6 +657,8 @@ class PDFContentPart:
 
         self.will_reset = False
         self.p.parts = self.p.parts[:self.parts_index]
+        self.p.lines = self.p.lines[:self.lines_index]
+        self.p.fills = self.p.fills[:self.fills_index]
         self.go_to_beginning()
 
         if self.minim_diff is None:
@@ -726,7 +736,7 @@ class PDFContentPart:
                     return ret
                 self.min_y = ret['min_y']
                 self.min_x = ret['min_x']
-                self.parts_index = len(self.p.parts)
+                self.save_indexes()
                 self.go_to_beginning()
                 return 'retry' if children_memory is None else ret
         else:
-- 
2.43.0


From 49a1e4751f5ff1ed099bcdefd412b6350c4e5de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 15/69] fix: show the spanned cells of the first row, and make
 room for them before a page break

---
 pdfme/table.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 3dd49c1..c38a0c4 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -556,9 +556,11 @@ class PDFTable:
             if move_next:
                 continue
 
+        span_height = max(self.heights_mem.values(), default=0)
+
         if self.first_row:
             self.first_row = False
-            if self.max_height == 0:
+            if self.max_height == 0 and span_height <= 0:
                 return 'cancel'
 
         ret = True
@@ -569,6 +571,9 @@ class PDFTable:
                 ret = False
                 break
 
+        if not ret and span_height > self.max_height:
+            self.max_height = span_height
+
         self.x_abs = self.x + self.width
         last_border = self.get_border(self.current_index, len(row), True)
         self.process_borders(len(row), last_border, {})
-- 
2.43.0


From f49cb79ec88e0609e594053e9beaf09736a72737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 16/69] fix: evaluate slices of table positions like Python
 slices

---
 pdfme/table.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index c38a0c4..7f6226f 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -306,15 +306,11 @@ class PDFTable:
         """
         data = ':' if data == '' else data
         if ':' in data:
-            parts = data.split(':')
-            num = 0 if parts[0].strip() == '' else int(parts[0])
-            parts[0] = num if num >= 0 else count + num
-            if len(parts) > 1:
-                num = count if parts[1].strip() == '' else int(parts[1])
-                parts[1] = num if num >= 0 else count + num
-            if len(parts) > 2:
-                parts[2] = 1 if parts[2].strip() == '' else int(parts[2])
-            return range(*parts)
+            parts = [
+                None if part.strip() == '' else int(part)
+                for part in data.split(':')
+            ]
+            return range(*slice(*parts).indices(count))
         else:
             return [
                 count + int(i) if int(i) < 0 else int(i)
-- 
2.43.0


From 372cd699fcae723d6a3895c529b8a3a48d45ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 17/69] fix: let the fills of a table overwrite its default
 cell fill

---
 pdfme/table.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 7f6226f..42da151 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -694,6 +694,7 @@ class PDFTable:
             style = {}
         else:
             style = copy(self.style)
+            default_fill = style.pop('cell_fill', None)
 
             if element is None:
                 element = ''
@@ -720,6 +721,7 @@ class PDFTable:
                 )
             style.pop(attr, None)
             cell_style['cell_fill'] = style.pop('cell_fill', None)
+            cell_style['default_fill'] = default_fill
         element = copy(element)
         return element, style, cell_style
 
@@ -739,7 +741,9 @@ class PDFTable:
 
         if fill_color is None:
             fill_color = (
-                self.fills_defs.get(self.current_index, {}).get(col, None)
+                self.fills_defs.get(self.current_index, {}).get(
+                    col, cell_style.get('default_fill', None)
+                )
             )
 
         if fill_color is not None:
-- 
2.43.0


From 413e19209924bb4402926dd22370b86fb6941bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 18/69] fix: keep the fill of a cell that spans rows of several
 pages

---
 pdfme/table.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 42da151..90f4865 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -726,7 +726,8 @@ class PDFTable:
         return element, style, cell_style
 
     def _setup_cell_fill(
-        self, col: int, cell_style: dict, width: Number, rowspan: int
+        self, col: int, cell_style: dict, width: Number, rowspan: int,
+        row: int
     ) -> None:
         """Method to optionally add the fill color in ``cell`style`` to
         attribute ``fills_mem``
@@ -736,12 +737,13 @@ class PDFTable:
             cell_style (dict): the cell style.
             width (Number): the width of the cell.
             rowspan (int): the rowspan of the cell.
+            row (int): the index of the first row of the cell.
         """
         fill_color = cell_style.get('cell_fill', None)
 
         if fill_color is None:
             fill_color = (
-                self.fills_defs.get(self.current_index, {}).get(
+                self.fills_defs.get(row, {}).get(
                     col, cell_style.get('default_fill', None)
                 )
             )
@@ -800,7 +802,9 @@ class PDFTable:
             'rowspan': element.get('rowspan', 1), 'row': row_added
         }
 
-        self._setup_cell_fill(col, cell_style, width + padd_x, rowspan)
+        self._setup_cell_fill(
+            col, cell_style, width + padd_x, rowspan, row_added
+        )
 
         keys = [key for key in element.keys() if key.startswith('.')]
 
-- 
2.43.0


From 3f4b43bf8ad85fc4ccde6266f50eae3760bcb0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 19/69] fix: keep the span of cells without more text in the
 rows of the next page

---
 pdfme/table.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 90f4865..7cb5261 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -473,6 +473,7 @@ class PDFTable:
         self.fills_mem = {}
         self.heights_mem = {}
         self.rowspan = {}
+        self.span_cells = {}
         self.vert_lines = [
             {'list': [], 'interrupted': True}
             for i in range(self.cols_count + 1)
@@ -567,8 +568,14 @@ class PDFTable:
                 ret = False
                 break
 
-        if not ret and span_height > self.max_height:
-            self.max_height = span_height
+        if not ret:
+            if span_height > self.max_height:
+                self.max_height = span_height
+            # cells without more content that span rows of the next rectangle
+            for col, cell in self.span_cells.items():
+                last_row = cell['row'] + cell['rowspan'] - 1
+                if last_row >= self.current_index:
+                    self.delayed.setdefault(col, cell)
 
         self.x_abs = self.x + self.width
         last_border = self.get_border(self.current_index, len(row), True)
@@ -790,8 +797,6 @@ class PDFTable:
         row_added = element.get('row', self.current_index)
         rowspan = element.get('rowspan', 1) - 1 - self.current_index + \
             row_added
-        if rowspan > 0:
-            self.rowspan[col] = {'rows': rowspan, 'cols': self.colspan}
 
         x, y, width, height, padd_x, padd_y = self.get_cell_dimensions(
             col, border_left, border_top, cell_style, rowspan, self.colspan
@@ -802,6 +807,12 @@ class PDFTable:
             'rowspan': element.get('rowspan', 1), 'row': row_added
         }
 
+        if rowspan > 0:
+            self.rowspan[col] = {'rows': rowspan, 'cols': self.colspan}
+
+        if delayed['rowspan'] > 1:
+            self.span_cells[col] = dict(delayed, delayed=None, type='empty')
+
         self._setup_cell_fill(
             col, cell_style, width + padd_x, rowspan, row_added
         )
@@ -809,7 +820,7 @@ class PDFTable:
         keys = [key for key in element.keys() if key.startswith('.')]
 
         real_height = 0
-        did_finished = False
+        did_finished = self._is_delayed_type(element, 'empty')
         if len(keys) > 0 or self._is_delayed_type(element, 'text'):
             real_height, did_finished = self.process_text(
                 element, x, y, width, height, style, delayed
-- 
2.43.0


From 23d3f03b5d808c02612e4456db7b886a3f4fd2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 20/69] fix: draw the whole top border of cells at the right of
 a row span

---
 pdfme/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 7cb5261..631def1 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -671,7 +671,7 @@ class PDFTable:
         elif not is_delayed:
             rowspan_memory['rows'] -= 1
             self.colspan = rowspan_memory['cols']
-            self.is_rowspan = True
+            self.is_rowspan = self.colspan > 0
             border_top['width'] = 0
 
             if rowspan_memory['rows'] == 0:
-- 
2.43.0


From 28ecd364d44a1e7cae2f9670dc73b4eb91050d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 21/69] fix: keep the column span and the style of finished
 cells in the next page

---
 pdfme/table.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 631def1..ae6d6a6 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -473,7 +473,7 @@ class PDFTable:
         self.fills_mem = {}
         self.heights_mem = {}
         self.rowspan = {}
-        self.span_cells = {}
+        self.row_cells = {}
         self.vert_lines = [
             {'list': [], 'interrupted': True}
             for i in range(self.cols_count + 1)
@@ -560,6 +560,10 @@ class PDFTable:
             if self.max_height == 0 and span_height <= 0:
                 return 'cancel'
 
+        for col, cell in list(self.delayed.items()):
+            if cell.get('type') == 'empty':
+                self.delayed.pop(col)
+
         ret = True
         if sum(v['colspan'] for v in self.delayed.values()) == self.cols_count:
             ret = False
@@ -571,8 +575,8 @@ class PDFTable:
         if not ret:
             if span_height > self.max_height:
                 self.max_height = span_height
-            # cells without more content that span rows of the next rectangle
-            for col, cell in self.span_cells.items():
+            # cells without more content, to keep them in the next rectangle
+            for col, cell in self.row_cells.items():
                 last_row = cell['row'] + cell['rowspan'] - 1
                 if last_row >= self.current_index:
                     self.delayed.setdefault(col, cell)
@@ -810,8 +814,7 @@ class PDFTable:
         if rowspan > 0:
             self.rowspan[col] = {'rows': rowspan, 'cols': self.colspan}
 
-        if delayed['rowspan'] > 1:
-            self.span_cells[col] = dict(delayed, delayed=None, type='empty')
+        self.row_cells[col] = dict(delayed, delayed=None, type='empty')
 
         self._setup_cell_fill(
             col, cell_style, width + padd_x, rowspan, row_added
-- 
2.43.0


From ec569411e165981a1e9c73a7a06b31e81ec236a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 22/69] fix: count only the consecutive attempts to fit an
 image or a group

---
 pdfme/content.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 5a3ba3e..76ddd10 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -945,7 +945,8 @@ class PDFContentPart:
                 })
         else:
             self.y = initial_y
-            if element.setdefault('tries', 0) >= 50:
+            tries = element.get('tries', 0)
+            if tries >= 50:
                 raise Exception(
                     'Image element could not be fitted in the document (try '
                     'adding "min_height" style property to this image for us'
@@ -953,9 +954,8 @@ class PDFContentPart:
                     ': {}'
                     .format(element)
                 )
-            element['tries'] += 1
             image_place = style.get('image_place', 'flow')
-            ret['delayed'] = element
+            ret['delayed'] = dict(element, tries=tries + 1)
             if image_place == 'normal':
                 ret['next'] = True
             elif image_place == 'flow':
@@ -1155,14 +1155,17 @@ class PDFContentPart:
                 element, style, add_element=False, add_top_margin=i != 0
             )
             if not (isinstance(ans, dict) and ans.get('delayed') is None):
-                if group_element.setdefault('tries', 0) >= 50:
+                tries = group_element.get('tries', 0)
+                if tries >= 50:
                     raise Exception(
                         'Group element could not be fitted in the document: {}'
                         .format(group_element)
                     )
-                group_element['tries'] += 1
                 self.y = initial_y
-                return {'delayed': group_element, 'next': False, 'flow': True}
+                return {
+                    'delayed': dict(group_element, tries=tries + 1),
+                    'next': False, 'flow': True
+                }
 
         new_images_size = images_size + self.y - self.max_y
         image_ratio = new_images_size / images_size if len(images) else 1
-- 
2.43.0


From 6aadcd4efa984bc10664aaf734918b18be23b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 23/69] fix: forget the partial state of nested boxes when
 columns are balanced again

---
 pdfme/content.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/content.py b/pdfme/content.py
index 76ddd10..aa814e6 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -676,6 +676,7 @@ class PDFContentPart:
 
         self.element_index = self.section_element_index
         self.delayed = copy(self.section_delayed)
+        self.partial_children_memory = None
 
         return True
 
-- 
2.43.0


From 12550b7a29fd26c2e2f390c66588951e338734d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 24/69] fix: keep the state of a nested box when only delayed
 elements of its parent move to the next section

---
 pdfme/content.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index aa814e6..f82350f 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -721,13 +721,15 @@ class PDFContentPart:
                     'index': self.element_index,
                     'delayed': copy(self.delayed)
                 }
-                if children_memory is None:
-                    self.children_memory = []
-                    new_children_memory = [new_index]
-                else:
+                if children_memory is not None:
                     self.children_memory = copy(children_memory)
-                    new_children_memory = copy(children_memory)
-                    new_children_memory.append(new_index)
+                elif self.partial_children_memory is not None:
+                    self.children_memory = self.partial_children_memory
+                else:
+                    self.children_memory = []
+                self.partial_children_memory = None
+                new_children_memory = copy(self.children_memory)
+                new_children_memory.append(new_index)
 
                 if self.is_root:
                     return 'interrupt'
@@ -1048,19 +1050,19 @@ class PDFContentPart:
             element, self.p, self.get_min_x(), self.col_width, self.y,
             self.max_y, self, last, style.copy()
         )
-        down_condition1 = len(self.children_memory) > 0 and \
+        down_condition1 = self.partial_children_memory is not None
+        down_condition2 = len(self.children_memory) > 0 and \
             self.element_index == self.section_element_index
-        down_condition2 = self.partial_children_memory is not None
 
         if down_condition1 or down_condition2:
-            child = self.children_memory[-1] if down_condition1 else \
-                self.partial_children_memory[-1]
+            children_memory = self.partial_children_memory \
+                if down_condition1 else self.children_memory
+            child = children_memory[-1]
             pdf_content.section_element_index = child['index']
             pdf_content.section_delayed = copy(child['delayed'])
             pdf_content.element_index = child['index']
             pdf_content.delayed = copy(child['delayed'])
-            pdf_content.children_memory = self.children_memory[:-1] \
-                if down_condition1 else self.partial_children_memory[:-1]
+            pdf_content.children_memory = children_memory[:-1]
 
             self.partial_children_memory = None
 
-- 
2.43.0


From 8423c4cd0be5f1ccdb81a3b1387d4ff6a12cb4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 25/69] fix: do not balance the columns of a box before its
 delayed elements are added

---
 pdfme/content.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index f82350f..0249d8e 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -634,7 +634,10 @@ class PDFContentPart:
         """
 
         parent = self.parent
-        if parent and self.last  and parent.cols_n > 1:
+        if (
+            parent and self.last and parent.cols_n > 1
+            and len(parent.delayed) == 0
+        ):
             parent.start_resetting()
             return
 
-- 
2.43.0


From cae5bb93274317fbf709bcef27a14d41ec32a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 26/69] fix: do not move the page position when the parts of a
 box or table are added

---
 pdfme/pdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 28b5fcd..a6aaa19 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -906,6 +906,7 @@ class PDF:
         Args:
             parts (list, tuple): the iterable just explained.
         """
+        x, y = self.page.x, self.page._y
         for part in parts:
             part = part.copy()
             type_ = part.pop('type')
@@ -913,6 +914,8 @@ class PDF:
                 self._add_text(**part)
             elif type_ == 'image':
                 self.add_image(**part)
+        # the parts are placed already, and should not move the page position
+        self.page.x, self.page._y = x, y
 
     def _build_pages_tree(self, page_list:list, first_level:bool=True) -> None:
         """Method to build the PDF pages tree.
-- 
2.43.0


From 691ba639f9eea5e7105f7484e8676ceb441fda16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 27/69] fix: a table that does not fit what is left of a
 rectangle draws nothing there

---
 pdfme/table.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ae6d6a6..b42e263 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -195,7 +195,6 @@ class PDFTable:
         self.set_default_border()
         self.setup_borders([] if borders is None else borders)
         self.setup_fills([] if fills is None else fills)
-        self.first_row = True
 
     def setup(
         self, x: Number=None, y: Number=None,
@@ -228,12 +227,11 @@ class PDFTable:
             dict: a dict with the state of this table.
         """
         return {
-            'current_index': self.current_index, 'delayed': copy(self.delayed),
-            'first_row': self.first_row
+            'current_index': self.current_index, 'delayed': copy(self.delayed)
         }
 
     def set_state(
-        self, current_index: int=None, delayed: dict=None, first_row: bool=None
+        self, current_index: int=None, delayed: dict=None
     ) -> None:
         """Method to set the state of this table.
         
@@ -245,14 +243,11 @@ class PDFTable:
                 added.
             delayed (dict, optional): a dict with delayed cells that should be
                 added before the next row.
-            first_row (bool, optional): whether no row has been added yet.
         """
         if current_index is not None:
             self.current_index = current_index
         if delayed is not None:
             self.delayed = copy(delayed)
-        if first_row is not None:
-            self.first_row = first_row
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
@@ -479,7 +474,9 @@ class PDFTable:
             for i in range(self.cols_count + 1)
         ]
         self.current_height = 0
+        self.first_row = True
 
+        action = None
         can_continue = True
         if len(self.delayed) > 0:
             can_continue = False
@@ -489,7 +486,7 @@ class PDFTable:
                 self.current_index += 1
                 can_continue = True
 
-        cancel = False
+        cancel = action == 'cancel'
         if can_continue:
             while self.current_index < len(self.content):
                 action = self.add_row(self.content[self.current_index])
@@ -556,9 +553,11 @@ class PDFTable:
         span_height = max(self.heights_mem.values(), default=0)
 
         if self.first_row:
-            self.first_row = False
             if self.max_height == 0 and span_height <= 0:
-                return 'cancel'
+                if any(v.get('type') != 'empty' for v in self.delayed.values()):
+                    return 'cancel'
+                self.max_height = 4
+            self.first_row = False
 
         for col, cell in list(self.delayed.items()):
             if cell.get('type') == 'empty':
-- 
2.43.0


From c6ba8d15e56ee3923848f4889e9ca603e4b8b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 28/69] fix: groups keep their place, and their images are
 shrunk only as needed

---
 pdfme/content.py | 78 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 21 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 0249d8e..bc073ec 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -902,7 +902,7 @@ class PDFContentPart:
 
     def process_image(
         self, element: dict, style: dict, add_parts: bool=True,
-        add_top_margin: bool=True
+        add_top_margin: bool=True, in_group: bool=False
     ) -> dict:
         """Function that tries to add an image to the current column rectangle,
         and add it to the delayed list if it can't add it.
@@ -910,6 +910,8 @@ class PDFContentPart:
         Args:
             element (dict): The image to be added
             style (dict): The style of the image.
+            in_group (bool, optional): Whether or not this image is part of a
+                group, and takes its minimum height.
 
         Returns:
             dict: Containing instructions to the caller.
@@ -931,7 +933,15 @@ class PDFContentPart:
         min_height = style.get('min_height', float('inf'))
 
         can_add = False
-        if height < self.max_height:
+        if in_group and 'min_height' in style:
+            min_height = min(min_height, height)
+            ret['heights'] = (min_height, height, style.get('shrink', 0))
+            if min_height <= self.max_height:
+                can_add = True
+                x += (width - width * min_height / height) / 2
+                width = width * min_height / height
+                height = min_height
+        elif height < self.max_height:
             can_add = True
         elif min_height <= self.max_height:
             can_add = True
@@ -1115,9 +1125,8 @@ class PDFContentPart:
                 element, style, element_style, add_element, add_top_margin
             )
         elif 'image' in element:
-            style['shrink'] = True
             return self.process_image(
-                element, style, add_element, add_top_margin
+                element, style, add_element, add_top_margin, in_group=True
             )
         elif 'table' in element or 'table_delayed' in element:
             return self.process_table(
@@ -1128,6 +1137,36 @@ class PDFContentPart:
                 'Element not allowed in a group element: {}'.format(element)
             )
 
+    def get_group_images_heights(self, images: dict, space: Number) -> dict:
+        """Function that shares the space left by a group, when its images have
+        their minimum heights, between these images.
+
+        Args:
+            images (dict): the minimum height, the full height and the value of
+                style ``shrink`` of each shrinkable image in the group.
+            space (int, float): the space left by the group.
+
+        Returns:
+            dict: the height of each image.
+        """
+        if space >= sum(full - min_ for min_, full, _ in images.values()):
+            return {i: full for i, (_, full, _) in images.items()}
+
+        heights = {i: min_ for i, (min_, _, _) in images.items()}
+        pending = {i: v for i, v in images.items() if not v[2]}
+        space = max(0, space - 0.001)
+        while sum(min_ for min_, _, _ in pending.values()) > 0:
+            ratio = 1 + space / sum(min_ for min_, _, _ in pending.values())
+            is_full = [
+                i for i, (min_, full, _) in pending.items()
+                if min_ * ratio >= full
+            ]
+            for i in is_full or list(pending):
+                min_, full, _ = pending.pop(i)
+                heights[i] = min(full, min_ * ratio)
+                space -= heights[i] - min_
+        return heights
+
     def process_group(self, group_element: dict, style: dict):
         """Function that tries to add a group element to the current column
         rectangle, and add it to the delayed list if it can't add it. If after
@@ -1142,25 +1181,20 @@ class PDFContentPart:
             dict: Containing instructions to the caller.
         """
         initial_y = self.y
+        initial_last_bottom = self.last_bottom
+        initial_starting = self.starting
 
         if not self.starting:
             self.y -=  style.get('margin_top', 0)
 
+        group_y = self.y
         images = {}
-        images_size = 0
 
         for i, element in enumerate(group_element['group']):
-            if isinstance(element, dict) and 'image' in element:
-                image_style, _ = self.get_element_styles(element, style)
-                if 'min_height' in image_style:
-                    min_height = image_style['min_height']
-                    images[i] = min_height
-                    images_size += min_height
-
             ans = self.process_group_element(
                 element, style, add_element=False, add_top_margin=i != 0
             )
-            if not (isinstance(ans, dict) and ans.get('delayed') is None):
+            if ans.get('delayed') is not None:
                 tries = group_element.get('tries', 0)
                 if tries >= 50:
                     raise Exception(
@@ -1168,23 +1202,25 @@ class PDFContentPart:
                         .format(group_element)
                     )
                 self.y = initial_y
+                self.last_bottom = initial_last_bottom
+                self.starting = initial_starting
                 return {
                     'delayed': dict(group_element, tries=tries + 1),
                     'next': False, 'flow': True
                 }
+            if 'heights' in ans:
+                images[i] = ans['heights']
+
+        heights = self.get_group_images_heights(images, self.y - self.max_y)
 
-        new_images_size = images_size + self.y - self.max_y
-        image_ratio = new_images_size / images_size if len(images) else 1
-        self.y = initial_y
+        self.y = group_y
+        self.last_bottom = initial_last_bottom
+        self.starting = initial_starting
 
         for i, element in enumerate(group_element['group']):
-            min_height = None
-            if i in images:
-                min_height = images[i]
-                min_height *= 1 if style.get('shrink', 0) else image_ratio
             self.process_group_element(
                 element, style, add_element=True, add_top_margin=i != 0,
-                min_height=min_height
+                min_height=heights.get(i)
             )
 
         return {'delayed': None, 'next': False}
-- 
2.43.0


From 51fa5b9de0096d6cf1b36854b388e592f9621dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 29/69] fix: the strip of a row that does not fit stays inside
 the rectangle

---
 pdfme/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index b42e263..42ef228 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -846,7 +846,10 @@ class PDFTable:
         else:
             self.delayed[col] = delayed
 
-        real_height += padd_y if real_height>0 else (0 if self.first_row else 4)
+        if real_height > 0:
+            real_height += padd_y
+        elif not self.first_row:
+            real_height = min(4, self.row_max_height)
         if rowspan > 0:
             self.heights_mem[col] = real_height
             real_height = 0
-- 
2.43.0


From 7169c6cd49e198b5a381b3cb5b598a74d446ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 30/69] fix: page settings of a section or page range do not
 leak to the following pages

---
 pdfme/document.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index d7881f9..61250a9 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -172,6 +172,10 @@ class PDFDocument:
         )
 
         self.style = style
+        self.page_args = {
+            'page_size': (self.pdf.page_width, self.pdf.page_height),
+            'rotate_page': self.pdf.rotate_page, 'margin': self.pdf.margin
+        }
 
         self.pdf.context.update(context)
 
@@ -316,7 +320,7 @@ class PDFDocument:
         while True:
             page_n = len(self.pdf.pages)
 
-            page_args = section_page_args.copy()
+            page_args = dict(self.page_args, **section_page_args)
 
             running_sections = set(section.get('running_sections', []))
 
-- 
2.43.0


From 78323f12bf6cfb28da3eff047ee44782314684c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 31/69] fix: keys of a running section that are None take their
 default values

---
 pdfme/document.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 61250a9..634e115 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -256,7 +256,10 @@ class PDFDocument:
         """
         self.pdf.running_sections = []
         for name in running_sections:
-            section = copy(self.running_sections[name])
+            section = {
+                k: v for k, v in copy(self.running_sections[name]).items()
+                if v is not None
+            }
 
             if section.get('width') in ['left', 'right']:
                 section['width'] = margin[section.get('width')]
-- 
2.43.0


From d8dce6158b7f4b56374e0e461cf8bd13037c7e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 32/69] fix: page ranges without end

---
 pdfme/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 03bf1bb..d4755c7 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from typing import Any, Iterable, Union
 
 page_sizes = {
@@ -411,9 +412,11 @@ def parse_range_string(range_str: str) -> MuiltiRange:
             first = range_parts[0].strip()
             range_parts[0] = 0 if first == '' else int(first)
             if len(range_parts) > 1:
-                range_parts[1] = int(range_parts[1].strip())
+                last = range_parts[1].strip()
+                range_parts[1] = sys.maxsize if last == '' else int(last)
             if len(range_parts) > 2:
-                range_parts[2] = int(range_parts[2].strip())
+                step = range_parts[2].strip()
+                range_parts[2] = 1 if step == '' else int(step)
             multi_range.add(*range_parts)
 
     return multi_range
-- 
2.43.0


From bea69895014d810550d128621df4e1ae86df9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 33/69] fix: footnotes drawn in a page are the ones marked in
 it

The footnotes of a page are known after reserving the space for them, so their
numbers and place come from the last layout of the page. Footnotes may also use
the name of a style.
---
 pdfme/document.py | 102 ++++++++++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 44 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 634e115..1b04918 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -380,39 +380,51 @@ class PDFDocument:
                 'children_memory': []
             }
 
-        self.section.run(height=self.height)
-        footnotes_obj = self._process_footnotes()
-
-        if footnotes_obj is None:
-            self.pdf._add_graphics([*self.section.fills,*self.section.lines])
-            self.pdf._add_parts(self.section.parts)
-            self.pdf.page._y -= self.section.current_height
-        else:
-            footnotes_height = footnotes_obj.current_height
-            if footnotes_height >= self.height - self.footnotes_margin - 20:
-                raise Exception(
-                    "footnotes are very large and don't fit in one page"
-                )
-            new_height = self.height - footnotes_obj.current_height \
-                - self.footnotes_margin
-
-            if section_state is not None:
-                self.section.set_state(**section_state)
-                self.section.finished = False
-            self.pdf._content(self.section, height=new_height)
-
-            footnotes_obj = self._process_footnotes()
+        footnotes_obj, footnotes = None, []
+        footnotes_height = renumbered = 0
+
+        # the footnotes, and their numbers, depend on what is left in the page
+        # after reserving the space for them, so we try until they don't change
+        while True:
+            self.section.run(height=self.height - footnotes_height)
+
+            last_footnotes = footnotes
+            footnotes_obj, footnotes = self._process_footnotes()
 
             if footnotes_obj is not None:
-                self.pdf.page._y = self.pdf.margin['bottom'] + footnotes_height
-                self.pdf.page.x = self.x
+                new_height = footnotes_obj.current_height + self.footnotes_margin
+                if new_height >= self.height - 20:
+                    raise Exception(
+                        "footnotes are very large and don't fit in one page"
+                    )
+            else:
+                new_height = 0
+
+            if new_height > footnotes_height:
+                footnotes_height = new_height
+            elif footnotes == last_footnotes or renumbered == 5:
+                break
+            else:
+                renumbered += 1
 
-                x_line = round(self.pdf.page.x, 3)
-                y_line = round(self.pdf.page._y + self.footnotes_margin/2, 3)
-                self.pdf.page.add(' q 0 G 0.5 w {} {} m {} {} l S Q'.format(
-                    x_line, y_line, x_line + 150, y_line
-                ))
-                self.pdf._content(footnotes_obj, height=self.height)
+            self.section.set_state(**section_state)
+            self.section.finished = False
+
+        self.pdf._add_graphics([*self.section.fills,*self.section.lines])
+        self.pdf._add_parts(self.section.parts)
+        self.pdf.page._y -= self.section.current_height
+
+        if footnotes_obj is not None:
+            self.pdf.page._y = self.pdf.margin['bottom'] \
+                + footnotes_obj.current_height
+            self.pdf.page.x = self.x
+
+            x_line = round(self.pdf.page.x, 3)
+            y_line = round(self.pdf.page._y + self.footnotes_margin/2, 3)
+            self.pdf.page.add(' q 0 G 0.5 w {} {} m {} {} l S Q'.format(
+                x_line, y_line, x_line + 150, y_line
+            ))
+            self.pdf._content(footnotes_obj, height=self.height)
 
     def _check_footnote(self, ids: dict, page_footnotes: list) -> None:
         """Method that extract the footnotes from the ids passed as argument,
@@ -421,14 +433,14 @@ class PDFDocument:
         Args:
             ids (dict): the ids list.
             page_footnotes (list): the list of the page footnotes to save the
-                footnotes found in the ids.
+                indexes of the footnotes found in the ids.
         """
         for id_, rects in ids.items():
             if len(rects) == 0:
                 continue
             if id_.startswith('$footnote:'):
                 index = int(id_[10:])
-                page_footnotes.append(self.footnotes[index])
+                page_footnotes.append(index)
                 self.pdf.context[id_] = len(page_footnotes)
 
     def _check_footnotes(self, page_footnotes: list) -> None:
@@ -437,7 +449,7 @@ class PDFDocument:
 
         Args:
             page_footnotes (list): the list of the page footnotes to save the
-                footnotes found in the ids.
+                indexes of the footnotes found in the ids.
         """
         for part in self.section.parts:
             if part['type'] == 'paragraph':
@@ -448,18 +460,18 @@ class PDFDocument:
         the current page.
 
         Args:
-            page_footnotes (list): the list of the page footnotes
+            page_footnotes (list): the list of the indexes of the page footnotes
 
         Returns:
             PDFContent: object containing the footnotes.
         """
         content = {'style': '$footnotes', 'content': []}
-        for index, footnote in enumerate(page_footnotes):
-            footnote = copy(footnote)
-            style = footnote.setdefault('style', {})
-            style.update(dict(
-                list_text=str(index + 1) + ' ', list_style='$footnote'
-            ))
+        for number, index in enumerate(page_footnotes, 1):
+            footnote = copy(self.footnotes[index])
+            footnote['style'] = dict(
+                process_style(footnote.get('style', {}), self.pdf),
+                list_text=str(number) + ' ', list_style='$footnote'
+            )
             content['content'].append(footnote)
 
         footnote_obj = self.pdf._create_content(
@@ -468,19 +480,21 @@ class PDFDocument:
         footnote_obj.run()
         return footnote_obj
 
-    def _process_footnotes(self) -> 'PDFContent':
+    def _process_footnotes(self) -> tuple:
         """Method to extract the footnotes from the current section parts, and
         create the PDFContent object containing the footnotes of
         the current page.
 
         Returns:
-            PDFContent: object containing the footnotes.
+            tuple: the object containing the footnotes, a PDFContent (None if
+                there are no footnotes in this page), and a list with the
+                indexes of the footnotes.
         """
         page_footnotes = []
         self._check_footnotes(page_footnotes)
         if len(page_footnotes) == 0:
-            return None
-        return self._get_footnotes_obj(page_footnotes)
+            return None, page_footnotes
+        return self._get_footnotes_obj(page_footnotes), page_footnotes
 
     def output(self, buffer: Any) -> None:
         """Method to create the PDF file.
-- 
2.43.0


From 62756549b7e3e0cbb8ebdfa4fa3fcc01c47f7cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 34/69] fix: strings with characters outside of latin-1

They are written as UTF-16 text strings, and the destinations names are sorted
by their bytes.
---
 pdfme/parser.py | 17 +++++++++++++++--
 pdfme/pdf.py    |  4 ++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index d808251..6d10ac9 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -88,9 +88,22 @@ def parse_obj(obj: ObjectType) -> bytes:
         return number.encode('latin')
     elif isinstance(obj, str):
         # a raw carriage return inside a PDF string is read as a line feed
-        escaped = re.sub(r'([\\()])', r'\\\1', obj).replace('\r', '\\r')
-        return ('(' + escaped + ')').encode('latin')
+        escaped = re.sub(rb'([\\()])', rb'\\\1', encode_text(obj))
+        return b'(' + escaped.replace(b'\r', b'\\r') + b')'
 
+def encode_text(text: str) -> bytes:
+    """Function to convert a python string to the bytes of a PDF string.
+
+    Args:
+        text (str): the string to be converted.
+
+    Returns:
+        bytes: the bytes of the PDF string, before escaping them.
+    """
+    try:
+        return text.encode('latin')
+    except UnicodeEncodeError:
+        return b'\xfe\xff' + text.encode('UTF-16-BE')
 
 def parse_dict(obj: dict) -> bytes:
     """Function to convert a python dict to a bytes object representing the
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index a6aaa19..a38eb8b 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1007,7 +1007,7 @@ class PDF:
         dests = list(self.dests.keys())
         if len(dests) == 0:
             return
-        dests.sort()
+        dests.sort(key=encode_text)
         self._build_dests_tree(dests, [self.dests[k] for k in dests])
 
     def _build_outlines_tree(
@@ -1087,7 +1087,7 @@ from .content import PDFContent
 from .fonts import PDFFonts
 from .image import PDFImage
 from .page import PDFPage
-from .parser import PDFObject
+from .parser import PDFObject, encode_text
 from .table import PDFTable
 from .text import PDFText
 from .utils import (
-- 
2.43.0


From 61613463ac42edfd0980763789c65ab5033d8759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 35/69] fix: closed outlines count their children

---
 pdfme/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index a38eb8b..8bf301d 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1047,7 +1047,7 @@ class PDF:
                     count += count_
                     obj['Count'] = count_
                 else:
-                    obj['Count'] = -1
+                    obj['Count'] = -count_
 
         parent['Last'] = obj.id
         return count
-- 
2.43.0


From 95048b3e7f0efdc9f572445142decb595e1b6e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 36/69] fix: outlines without an outline of the previous level
 before them

---
 pdfme/pdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 8bf301d..72405d5 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -641,6 +641,9 @@ class PDF:
                 outline_data = json.loads(id_[9:])
                 outline = self.outlines
                 for _ in range(outline_data['level'] - 1):
+                    if len(outline) == 0:
+                        # there is no outline of the previous level
+                        break
                     outline = outline[-1].setdefault('children', [])
 
                 outline.append(outline_data)
-- 
2.43.0


From 68bc7c62e69bc7cdd5601bb7cef164db9480fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 37/69] fix: default text of outlines with styled parts and
 variables

---
 pdfme/text.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 5bfc5f5..b57425f 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -1,6 +1,6 @@
 import json
 import re
-from typing import Optional, Union
+from typing import Any, Optional, Union
 from uuid import uuid4
 
 PARAGRAPH_DEFAULTS = {'text_align': 'l', 'line_height': 1.1, 'indent': 0}
@@ -1287,7 +1287,7 @@ class PDFText(PDFTextBase):
             text_part['ids'].append('$uri:' + uri)
         outline = content.get('outline')
         if isinstance(outline, dict):
-            text = outline.get('text', ''.join(str(e) for e in elements))
+            text = outline.get('text', self._plain_text(content))
             level = outline.get('level', 1)
             if label is None:
                 outline_label = str(uuid4())
@@ -1329,6 +1329,28 @@ class PDFText(PDFTextBase):
         if text_part is not None and text_part['text'] == '':
             self.content.remove(text_part)
 
+    def _plain_text(self, content: Any) -> str:
+        """Method to get the text of a part of a paragraph, without styles.
+
+        Args:
+            content (str, int, float, list, tuple, dict): the part of the
+                paragraph.
+
+        Returns:
+            str: the text of the part, and the parts inside it.
+        """
+        if isinstance(content, (list, tuple)):
+            return ''.join(self._plain_text(child) for child in content)
+        if not isinstance(content, dict):
+            return str(content)
+        if content.get('var') is not None:
+            context = {} if self.pdf is None else self.pdf.context
+            return str(context.get(content['var'], ''))
+        for key, value in content.items():
+            if key.startswith('.'):
+                return self._plain_text(value)
+        return ''
+
 from .color import PDFColor
 from .fonts import PDFFonts, STANDARD_FONTS
 from .pdf import PDF
-- 
2.43.0


From c45816c7fe0c85b5156b6ffc2baad0729a41a58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 38/69] fix: registered fonts in more than one document

The fonts loaded belong to each document, the ones registered are shared. A
mode that was not registered uses other mode of the family.
---
 pdfme/fonts.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 68ad665..478cd78 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -80,7 +80,6 @@ class PDFFont(abc.ABC):
     """
 
     registered_fonts = {}
-    loaded_fonts = []
 
     def __init__(self, ref: str) -> None:
         self._ref = ref
@@ -411,6 +410,7 @@ class PDFFonts:
     """
     def __init__(self) -> None:
         self.fonts = {}
+        self.loaded_fonts = set()
         self.index = 1
         for font_family, modes in STANDARD_FONTS.items():
             self.fonts[font_family] = {}
@@ -433,19 +433,17 @@ class PDFFonts:
         """
         if font_family in STANDARD_FONTS:
             family = self.fonts[font_family]
-        else:
-            font_type = (font_family, mode)
-            if font_type in PDFFont.registered_fonts:
-                if font_type not in PDFFont.loaded_fonts:
-                    self.load_font(PDFFont.registered_fonts[font_type],
-                        font_family,
-                        mode)
-                    PDFFont.loaded_fonts.append(font_type)
-                family = self.fonts[font_family]
-            else:
-                raise ValueError('Unknown font family requested!')
-            
-        return family['n'] if mode not in family else family[mode]
+            return family['n'] if mode not in family else family[mode]
+
+        for mode_ in [mode, 'n', 'b', 'i', 'bi']:
+            font_type = (font_family, mode_)
+            path = PDFFont.registered_fonts.get(font_type)
+            if path is not None and font_type not in self.loaded_fonts:
+                self.load_font(path, font_family, mode_)
+            if font_type in self.loaded_fonts:
+                return self.fonts[font_family][mode_]
+
+        raise ValueError('Unknown font family requested!')
 
     def load_font(self, path: str, font_family: str, mode: str='n') -> None:
         """Method to add a TrueType font to this instance.
@@ -460,6 +458,7 @@ class PDFFonts:
         if not font_family in self.fonts:
             self.fonts[font_family] = {'n': font}
         self.fonts[font_family][mode] = font
+        self.loaded_fonts.add((font_family, mode))
         self.index += 1
 
 from .parser import PDFObject
-- 
2.43.0


From e92e79091358289dba226e1e218dc67aafee1c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:52 +0000
Subject: [PATCH 39/69] fix: documents don't change the contents they are built
 from

The same description, or parts of it, can be used in several places and several
documents without repeating its footnotes.
---
 pdfme/document.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 1b04918..8c02c34 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -192,18 +192,16 @@ class PDFDocument:
             new_range_dict['pages'] = parse_range_string(range_dict['pages'])
             self.per_page.append(new_range_dict)
 
-        self.sections = document.get('sections', [])
-
         self.x = self.y = self.width = self.height = 0
 
         self.footnotes = []
-        self._traverse_document_footnotes(self.sections)
+        self.sections = self._traverse_document_footnotes(
+            document.get('sections', [])
+        )
 
         self.footnotes_margin = 10
 
-    def _traverse_document_footnotes(
-        self, element: Union[list, tuple, dict]
-    ) -> None:
+    def _traverse_document_footnotes(self, element: Any) -> Any:
         """Method to traverse the document sections, trying to find footnotes
         dicts, to prepare them for being processed by the inner PDF instance.
 
@@ -212,12 +210,20 @@ class PDFDocument:
 
         Raises:
             TypeError:
+
+        Returns:
+            list, tuple, dict: a copy of the element, with the footnotes
+                prepared. The element passed is not changed, because it can be
+                used in other places of this document, and in other documents.
         """
         if isinstance(element, (list, tuple)):
-            for child in element:
-                self._traverse_document_footnotes(child)
+            children = [
+                self._traverse_document_footnotes(child) for child in element
+            ]
+            return children if isinstance(element, list) else tuple(children)
         elif isinstance(element, dict):
             if 'footnote' in element:
+                element = copy(element)
                 element.setdefault('ids', [])
                 name = '$footnote:' + str(len(self.footnotes))
                 element['ids'].append(name)
@@ -239,10 +245,12 @@ class PDFDocument:
                     )
 
                 self.footnotes.append(footnote)
-            else:
-                for value in element.values():
-                    if isinstance(value, (list, tuple, dict)):
-                        self._traverse_document_footnotes(value)
+                return element
+            return {
+                key: self._traverse_document_footnotes(value)
+                for key, value in element.items()
+            }
+        return element
 
     def _set_running_sections(
         self, running_sections: Iterable, page_width: 'Number',
-- 
2.43.0


From 0f894f02f3cf79477382d6df7afadbed2d8de8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 40/69] fix: methods that add elements don't change the dicts
 they get

---
 pdfme/content.py | 5 ++---
 pdfme/pdf.py     | 5 ++---
 pdfme/table.py   | 9 ++++-----
 3 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index bc073ec..bb823c3 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -872,10 +872,9 @@ class PDFContentPart:
             par_style = {
                 v: style.get(v) for v in PARAGRAPH_PROPERTIES if v in style
             }
-            element['style'] = style.copy()
             pdf_text = PDFText(
-                element, self.width, self.max_height, self.x, self.y,
-                fonts=self.p.fonts, pdf=self.p.pdf, **par_style
+                dict(element, style=style.copy()), self.width, self.max_height,
+                self.x, self.y, fonts=self.p.fonts, pdf=self.p.pdf, **par_style
             )
             remaining = {'paragraph': pdf_text, 'style': element_style}
 
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 72405d5..d1ebd9a 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -510,7 +510,7 @@ class PDF:
             if len(style_str) > 0:
                 style.update(parse_style_str(style_str[0], self.fonts))
             style.update(process_style(content.get('style'), self))
-            content['style'] = style
+            content = dict(content, style=style)
         return content
 
     def _position_and_size(
@@ -826,9 +826,8 @@ class PDF:
             PDFContent: object that represents a content box.
         """
         style = self._default_content_style()
-        content = content.copy()
         style.update(process_style(content.get('style'), self))
-        content['style'] = style
+        content = dict(content, style=style)
         pdf_content = PDFContent(content, self.fonts, x, y, width, height, self)
         return pdf_content
 
diff --git a/pdfme/table.py b/pdfme/table.py
index 42ef228..609fa36 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -887,10 +887,9 @@ class PDFTable:
             par_style = {
                 v: style.get(v) for v in PARAGRAPH_PROPS if v in style
             }
-            element['style'] = style
             pdf_text = PDFText(
-                element, width, height, x, y, fonts=self.fonts, pdf=self.pdf,
-                **par_style
+                dict(element, style=style), width, height, x, y,
+                fonts=self.fonts, pdf=self.pdf, **par_style
             )
 
         result = pdf_text.run()
@@ -971,9 +970,9 @@ class PDFTable:
             pdf_content.set_state(**element['state'])
             pdf_content.finished = False
         else:
-            element['style'] = style
             pdf_content = PDFContent(
-                element, self.fonts, x, y, width, height, self.pdf
+                dict(element, style=style), self.fonts, x, y, width, height,
+                self.pdf
             )
 
         pdf_content.run()
-- 
2.43.0


From 2b64ae2e6b3cd46ab00005c26c6b54a495e9896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 41/69] fix: state of a content box that was not run yet

---
 pdfme/content.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/content.py b/pdfme/content.py
index bb823c3..b7d503c 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -266,6 +266,11 @@ class PDFContent:
         Returns:
             dict: a dict with the state of this content box.
         """
+        if self.pdf_content_part is None:
+            return {
+                'section_element_index': 0, 'section_delayed': [],
+                'children_memory': []
+            }
         return self.pdf_content_part.get_state()
 
     def set_state(
-- 
2.43.0


From ae7549d8e1f0f7967dee02d5aefc1568082b10e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 42/69] fix: size of JPEG files with fill bytes, and truncated
 JPEG files

---
 pdfme/image.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pdfme/image.py b/pdfme/image.py
index e45d28f..270e8e5 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -92,21 +92,28 @@ class PDFImage:
                 image.
         """
         try:
+            if bytes_.read(2) != b"\xff\xd8":
+                raise SyntaxError("Not a JPEG file")
             while True:
                 markerHigh, markerLow = struct.unpack("BB", bytes_.read(2))
+                # a marker can be preceded by any number of fill bytes
+                while markerHigh == 0xFF and markerLow == 0xFF:
+                    (markerLow,) = struct.unpack("B", bytes_.read(1))
                 if markerHigh != 0xFF or markerLow < 0xC0:
                     raise SyntaxError("No JPEG marker found")
-                elif markerLow == 0xDA:
+                elif markerLow in (0xD9, 0xDA):
                     raise SyntaxError("No JPEG SOF marker found")
                 elif (
                     markerLow == 0xC8
-                    or (markerLow >= 0xD0 and markerLow <= 0xD9)
+                    or (markerLow >= 0xD0 and markerLow <= 0xD8)
                     or (markerLow >= 0xF0 and markerLow <= 0xFD)
                 ):
                     continue
                 else:
                     (data_size,) = struct.unpack(">H", bytes_.read(2))
                     data = bytes_.read(data_size - 2) if data_size > 2 else b""
+                    if len(data) != data_size - 2:
+                        raise SyntaxError("Wrong JPEG segment size")
                     if (
                         (markerLow >= 0xC0 and markerLow <= 0xC3)
                         or (markerLow >= 0xC5 and markerLow <= 0xC7)
@@ -114,6 +121,8 @@ class PDFImage:
                         or (markerLow >= 0xCD and markerLow <= 0xCF)
                     ):
                         depth, h, w, layers = struct.unpack_from(">BHHB", data)
+                        if len(data) < 6 + 3 * layers:
+                            raise SyntaxError("Wrong JPEG SOF segment size")
 
                         if layers == 3:
                             colspace = b"/DeviceRGB"
-- 
2.43.0


From 1567b6eb76845519f79bf465f5860c9a3846936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 43/69] fix: 16 bits grayscale PNG images turned white

---
 pdfme/image.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/image.py b/pdfme/image.py
index 270e8e5..b759786 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -169,7 +169,11 @@ class PDFImage:
         """
         from PIL import Image  # type: ignore
 
-        im = Image.open(bytes_).convert("RGB")
+        im = Image.open(bytes_)
+        if im.mode.startswith("I"):
+            # 16 bits grayscale images are clipped by ``convert``
+            im = im.convert("I").point(lambda v: v * (1 / 256)).convert("L")
+        im = im.convert("RGB")
         bytes_io = BytesIO()
         im.save(bytes_io, "JPEG")
         bytes_io.seek(0)
-- 
2.43.0


From 5369d002526c77b66434ae2acdcd70688a7b7caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 44/69] fix: position of the images added with PDF.add_image

---
 pdfme/pdf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index d1ebd9a..15a6af0 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -415,12 +415,15 @@ class PDF:
         if x is not None:
             self.page.x = x
         if y is not None:
-            self.page._y = y
+            self.page.y = y
 
+        # the page position is the top of the image, and it's drawn from its
+        # bottom
+        self.page.y += height
         self.page.add_image(image_obj.id, width, height)
 
-        if move == 'bottom':
-            self.page.y += height
+        if move != 'bottom':
+            self.page.y -= height
         if move == 'next':
             self.page.x += width
 
@@ -903,7 +906,8 @@ class PDF:
         for images. The other keys in a ``text`` part are the ones obtained from
         PDFText ``result`` property, and the other keys in a ``image`` part,
         should be the same as the arguments for :meth:`pdfme.pdf.PDF.add_image`
-        method.
+        method, except for ``y`` that is the y coordinate of the bottom of the
+        image.
 
         Args:
             parts (list, tuple): the iterable just explained.
@@ -915,6 +919,8 @@ class PDF:
             if type_ == 'paragraph':
                 self._add_text(**part)
             elif type_ == 'image':
+                # the y coordinate of the parts is the one of their bottom
+                part['y'] = self.page.height - part['y'] - part['height']
                 self.add_image(**part)
         # the parts are placed already, and should not move the page position
         self.page.x, self.page._y = x, y
-- 
2.43.0


From ed8570a8fad2119f371eec92ffd1dad125c588c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 45/69] fix: color strings with spaces and wrong number of
 color values

---
 pdfme/color.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfme/color.py b/pdfme/color.py
index 4809c0c..c6bcc82 100644
--- a/pdfme/color.py
+++ b/pdfme/color.py
@@ -235,8 +235,7 @@ def parse_color(color: ColorType) -> list:
         elif color in colors:
             return colors[color]
         elif color[0] == '#' and len(color) in [4,5,7,9]:
-            try: int(color[1:], 16)
-            except:
+            if re.fullmatch('[0-9a-fA-F]+', color[1:]) is None:
                 raise TypeError("Couldn't parse hexagesimal color value: {}".format(color))
 
             n = len(color)
@@ -245,7 +244,7 @@ def parse_color(color: ColorType) -> list:
             else:
                 return [int(color[i:2+i], 16)/255 for i in range(1,7,2)]
         else:
-            color = re.split(',| ', color)
+            color = re.split(',\\s*|\\s+', color.strip())
 
     if not isinstance(color, (list, tuple)):
         raise TypeError('Invalid color value type: {}'.format(type(color)))
@@ -266,5 +265,7 @@ def parse_color(color: ColorType) -> list:
             return [float(c) for c in color[:4]]
         except:
             raise TypeError("Couldn't parse numeric color value: {}".format(color))
+    else:
+        raise TypeError("Invalid number of color values: {}".format(color))
 
 from .utils import copy
-- 
2.43.0


From 47b30ac3cee6411659698e33050dad60e5f9d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 46/69] fix: margin strings with one number and tuples of 3
 margins

---
 pdfme/utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index d4755c7..d4adc7c 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -112,11 +112,7 @@ def parse_margin(margin: MarginType) -> dict:
         return margin
 
     if isinstance(margin, str):
-        margin = re.split(',| ', margin)
-        if len(margin) == 1:
-            margin = float(margin)
-        else:
-            margin = [float(x) for x in margin]
+        margin = [float(x) for x in re.split(',\\s*|\\s+', margin.strip())]
 
     if isinstance(margin, (int, float)):
         margin = [margin] * 4
@@ -129,7 +125,7 @@ def parse_margin(margin: MarginType) -> dict:
         elif len(margin) == 2:
             margin = margin * 2
         elif len(margin) == 3:
-            margin = margin + [margin[1]]
+            margin = [*margin, margin[1]]
         elif len(margin) > 4:
             margin = margin[0:4]
 
-- 
2.43.0


From 15a6bfc479f0c6b4f36d5852b1dd986f5a3edd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 47/69] fix: style strings with spaces before attributes s and
 r

---
 pdfme/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index d4adc7c..a4becc7 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -213,7 +213,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                 style['c'] = PDFColor(value)
             elif attr == "bg":
                 style['bg'] = PDFColor(value)
-            elif attrs[0] == "s":
+            elif attr == "s":
                 try:
                     v = float(value)
                     if int(v) == v:
@@ -224,7 +224,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element value for "s" is wrong:'
                         ' {}'.format(value)
                     )
-            elif attrs[0] == 'r':
+            elif attr == 'r':
                 try: style['r'] = float(value)
                 except:
                     raise ValueError(
-- 
2.43.0


From d755875e3d252ce2f77394ea414fad456478fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 48/69] fix: ToUnicode maps of TrueType fonts

---
 pdfme/fonts.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 478cd78..de1c32e 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -37,17 +37,27 @@ STANDARD_FONTS = {
 
 def get_tounicode_cmap(cmap_mappings):
     '''Method returns cmap for Unicode mappings.'''
-    def cmap_hex_format(hex_str: str) -> str:
-        if hex_str.startswith('0x'):
-            hex_str = hex_str[2:]
-        if len(hex_str) != 4:
-            hex_str = hex_str.zfill(4)
-        return f'<{hex_str.upper()}>'
-
-    mappings = []
-    for (cid, gid) in cmap_mappings.items():
-        mappings.append(
-            f'{cmap_hex_format(hex(int(gid)))} {cmap_hex_format(hex(int(cid)))}')
+    # a glyph can be used by more than one character, but it can have only one
+    # mapping
+    chars = {}
+    for char, gid in cmap_mappings.items():
+        chars.setdefault(int(gid), int(char))
+
+    mappings = [
+        '<{:04X}> <{}>'.format(
+            gid, chr(char).encode('UTF-16-BE', 'surrogatepass').hex().upper()
+        )
+        for gid, char in sorted(chars.items())
+    ]
+
+    # bfchar sections can't have more than 100 mappings
+    sections = []
+    for i in range(0, len(mappings), 100):
+        section = mappings[i:i + 100]
+        sections.append(
+            '{} beginbfchar\n{}\nendbfchar'
+            .format(len(section), '\n'.join(section))
+        )
 
     return f'''/CIDInit /ProcSet findresource begin
         12 dict begin
@@ -62,9 +72,7 @@ def get_tounicode_cmap(cmap_mappings):
         1 begincodespacerange
         <0000> <FFFF>
         endcodespacerange
-        {len(mappings)} beginbfchar
-        {'\n'.join(mappings)}
-        endbfchar
+        {'\n'.join(sections)}
         endcmap
         CMapName currentdict /CMap defineresource pop
         end
-- 
2.43.0


From e97d594f0cead0aab13cf0ed794a5534a441c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 49/69] fix: names of TrueType fonts, and fonts without OS/2
 table

---
 pdfme/fonts.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index de1c32e..c1716e8 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -1,3 +1,4 @@
+import re
 import abc
 from io import BytesIO
 from pathlib import Path
@@ -281,7 +282,8 @@ class PDFTrueTypeFont(PDFFont):
         Returns:
             dict: dict representing this font's "font descriptor".
         """
-        self._base_font = self.font['name'].names[6].toStr()
+        name = self.font['name'].getDebugName(6) or Path(self.filename).stem
+        self._base_font = re.sub(r'[^!-~]|[()<>\[\]{}/%#]', '', name)
         head = self.font["head"]
         self.units_per_em = head.unitsPerEm
         scale = self.scale = 1000 / self.units_per_em
@@ -314,7 +316,7 @@ class PDFTrueTypeFont(PDFFont):
             if hhea is None:
                 ascent = yMax
                 descent = yMin
-            capHeight = self.ascent
+            capHeight = ascent
 
         stemV = 50 + int(pow((usWeightClass / 65.0),2))
 
-- 
2.43.0


From 981ed3f97f38ceb2a7938c2b6865bac20c7493b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 50/69] fix: codes and widths of the characters of TrueType
 fonts

---
 pdfme/fonts.py | 34 +++++++++++++---------------------
 pdfme/utils.py |  3 ++-
 2 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index c1716e8..6b1500a 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -386,32 +386,24 @@ class PDFTrueTypeFont(PDFFont):
         })
 
     def encode_text(self, text: str):
-        return ''.join(as_hex(chr(self.cids2gids[ord(c)])) for c in text)
+        # characters the font doesn't have are shown with glyph 0 (.notdef)
+        gids = (self.cids2gids.get(ord(c), 0) for c in text)
+        codes = b''.join(gid.to_bytes(2, 'big') for gid in gids)
+        return escape_string(codes.decode('latin'))
 
     def compute_char_widths(self):
-        glyph_set = self.glyph_set
-        cmap = self.cmap
         font = self.font
-        scale = self.scale
+        glyphs = {0: '.notdef'}
+        for glyph in self.cmap.values():
+            glyphs[font.getGlyphID(glyph)] = glyph
 
         widths = []
-        current_width_group = []
-
         prev_glyph_id = None
-        for c in cmap:
-            current_glyph_id = font.getGlyphID(cmap[c])
-            if not widths:
-                widths.append(current_glyph_id)
-                prev_glyph_id = current_glyph_id
-            elif (current_glyph_id - prev_glyph_id) != 1:
-                widths.append(current_width_group)
-                widths.append(current_glyph_id)
-                current_width_group = []
-                prev_glyph_id = current_glyph_id
-
-            current_width_group.append(glyph_set[cmap[c]].width * scale)
-
-        widths.append(current_width_group)
+        for glyph_id, glyph in sorted(glyphs.items()):
+            if prev_glyph_id is None or glyph_id != prev_glyph_id + 1:
+                widths.extend([glyph_id, []])
+            widths[-1].append(self.glyph_set[glyph].width * self.scale)
+            prev_glyph_id = glyph_id
 
         return widths
 
@@ -473,4 +465,4 @@ class PDFFonts:
 
 from .parser import PDFObject
 from .base import PDFBase
-from .utils import as_hex, subs
+from .utils import escape_string, subs
diff --git a/pdfme/utils.py b/pdfme/utils.py
index a4becc7..2d93b02 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -437,7 +437,8 @@ def escape_string(text):
     Returns:
         str: Escaped text.
     '''
-    return text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+    return text.replace('\\', '\\\\').replace('(', '\\(') \
+        .replace(')', '\\)').replace('\r', '\\r')
 
 from .color import PDFColor
 from .fonts import PDFFonts, PDFFont
-- 
2.43.0


From b45e9ab99158a828f84d8d3b853874e579d31bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 51/69] fix: embed a font used for more than one mode once

---
 pdfme/pdf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 15a6af0..fea3eff 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -341,9 +341,14 @@ class PDF:
         if f in self.used_fonts:
             return self.used_fonts[f]
         font = self.fonts.get_font(*f)
+        # the same font could have been added already for another mode
+        for font_args in self.used_fonts.values():
+            if font_args[0] == font.ref:
+                self.used_fonts[f] = font_args
+                return font_args
         font_obj = font.add_font(self.base)
-        self.used_fonts[(font_family, mode)] = (font.ref, font_obj.id)
-        return font.ref, font_obj.id
+        self.used_fonts[f] = (font.ref, font_obj.id)
+        return self.used_fonts[f]
 
     def _used_font(self, font_family: str, mode: str) -> None:
         """Method to add a font to the current page.
-- 
2.43.0


From aa6dcaa48e10493184ef5f02d96c9af8824a75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 52/69] fix: justified text with TrueType fonts

---
 pdfme/text.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index b57425f..674b0bb 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -950,7 +950,17 @@ class PDFTextBase:
             stream += ' {} Tw'.format(tw)
             self.last_factor = tw
 
-        if text != '':
+        if text == '':
+            return stream
+
+        if tw != 0 and part.state.font_family not in STANDARD_FONTS:
+            # word spacing is not applied to fonts with 2 bytes characters
+            space = ') {} ('.format(round(-tw * 1000 / part.state.size, 3))
+            stream += ' [({})]TJ'.format(space.join(
+                self.encode_text(part.state, word)
+                for word in re.split('(?<= )', text)
+            ))
+        else:
             stream += ' ({})Tj'.format(self.encode_text(part.state, text))
         return stream
 
-- 
2.43.0


From 229dc0289973ebfcb8003332a5f622befb0e2e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 53/69] fix: list paragraphs without text in their first line

---
 pdfme/text.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 674b0bb..5dc5442 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -1197,7 +1197,14 @@ class PDFText(PDFTextBase):
         self.pdf = pdf
         self.fonts = fonts
         self.content = []
-        self._recursive_content_parse(content, TEXT_DEFAULTS, [])
+        style = self._recursive_content_parse(content, TEXT_DEFAULTS, [])
+        if list_text and (len(self.content) == 0 or 'type' in self.content[0]):
+            # the list text is added along with the first text part, that has
+            # to be in the first line
+            styles = (part['style'] for part in self.content if 'style' in part)
+            self.content.insert(
+                0, {'style': next(styles, style), 'text': '', 'ids': []}
+            )
         super().__init__(
             self.content, width, height, x, y, fonts, text_align, line_height,
             indent, list_text, list_indent, list_style, pdf
@@ -1231,7 +1238,7 @@ class PDFText(PDFTextBase):
 
     def _recursive_content_parse(
         self, content: ContentType, parent_style: dict, ids: list
-    ) -> None:
+    ) -> dict:
         """Function to be called recursively by this class, to transform the
         content passed to this instance into a list of parts compatible with
         :class:`pdfme.text.PDFTextBase`.
@@ -1247,6 +1254,9 @@ class PDFText(PDFTextBase):
         Raises:
             TypeError: If the content part passed doesn't have the format
                 described in the documentation of this class.
+
+        Returns:
+            dict: the style of this part.
         """
         style = parent_style.copy()
         ids = ids.copy()
@@ -1339,6 +1349,8 @@ class PDFText(PDFTextBase):
         if text_part is not None and text_part['text'] == '':
             self.content.remove(text_part)
 
+        return style
+
     def _plain_text(self, content: Any) -> str:
         """Method to get the text of a part of a paragraph, without styles.
 
-- 
2.43.0


From 62abaea834a22bd0230338e38df93dadd85ef597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 54/69] fix: PDF texts use the line_height and indent of the
 document

---
 pdfme/pdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index fea3eff..e5b384c 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -563,7 +563,7 @@ class PDF:
 
     def _create_text(
         self, content: TextType, width: Number=None, height: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None
     ) -> 'PDFText':
         """Method to create a paragraph.
@@ -664,7 +664,7 @@ class PDF:
     def _text(
         self, content: Union[TextType, 'PDFText'], width: Number=None,
         height: Number=None, x: Number=None, y: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None,
         move: str='bottom'
     ) -> 'PDFText':
@@ -696,8 +696,8 @@ class PDF:
         return pdf_text
 
     def text(
-        self, content: TextType, text_align: str=None, line_height: Number=1.1,
-        indent: Number=0, list_text: str=None, list_indent: Number=None,
+        self, content: TextType, text_align: str=None, line_height: Number=None,
+        indent: Number=None, list_text: str=None, list_indent: Number=None,
         list_style: dict=None
     ) -> None:
         """Method to create and add a paragraph to this document. This method
-- 
2.43.0


From da6d2e314583fe7bce24dcc3db58985777125088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:46 +0000
Subject: [PATCH 55/69] fix: numbers as elements of content boxes

PDFContentPart.parse_element returned a string instead of a paragraph
element, so a number in a content box raised an error.
---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index b7d503c..91fed94 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -803,7 +803,7 @@ class PDFContentPart:
 
     def parse_element(self, element: ProcessElement) -> dict:
         if not isinstance(element, (dict, str, list, tuple)):
-            return str(element)
+            element = str(element)
         if isinstance(element, (str, list, tuple)):
             return {'.': element}
 
-- 
2.43.0


From 2feb3fd1fc710e2798581adbb362004b86fc1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 56/69] fix: tables without rows or columns

PDFTable left the attributes of empty tables unset, so running them
raised an error; now they are finished tables without parts.
---
 pdfme/table.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 609fa36..6cae80b 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -169,11 +169,10 @@ class PDFTable:
         self.fonts = fonts
         self.pdf = pdf
         self.finished = False
-        if len(content) == 0 or len(content[0]) == 0:
-            return
-
-        self.cols_count = len(content[0])
+        self.cols_count = 0 if len(content) == 0 else len(content[0])
         self.delayed = {}
+        if self.cols_count == 0:
+            return
 
         if widths is not None:
             if not isinstance(widths, (list, tuple)):
@@ -476,6 +475,10 @@ class PDFTable:
         self.current_height = 0
         self.first_row = True
 
+        if self.cols_count == 0:
+            self.finished = True
+            return
+
         action = None
         can_continue = True
         if len(self.delayed) > 0:
-- 
2.43.0


From d2ac1fc7e6eb6ac601e1bffff71f3b86309c7d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 57/69] fix: encoding of fonts Symbol and ZapfDingbats

The encoding was set for all the standard fonts, although these two have
their own.
---
 pdfme/fonts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 6b1500a..b2cc4fc 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -191,8 +191,7 @@ class PDFStandardFont(PDFFont):
         font = base.add({
             'Type': b'/Font',
             'Subtype': b'/Type1',
-            'BaseFont': subs('/{}', self.base_font),
-            'Encoding': b'/WinAnsiEncoding'
+            'BaseFont': subs('/{}', self.base_font)
         })
         if self.base_font not in ['Symbol', 'ZapfDingbats']:
             font['Encoding'] = b'/WinAnsiEncoding'
-- 
2.43.0


From 79ea2c7dfb3336ae7643571eae70b356b94765eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 58/69] fix: order of the running sections

The running sections of a page were kept in a set, so the order in which they
were painted depended on the hash seed of the interpreter.
---
 pdfme/document.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 8c02c34..516f2d0 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -333,7 +333,9 @@ class PDFDocument:
 
             page_args = dict(self.page_args, **section_page_args)
 
-            running_sections = set(section.get('running_sections', []))
+            running_sections = dict.fromkeys(
+                section.get('running_sections', [])
+            )
 
             for range_dict in self.per_page:
                 if page_n in range_dict['pages']:
@@ -345,9 +347,10 @@ class PDFDocument:
                         })
                     if 'running_sections' in range_dict:
                         per_page_rs = range_dict['running_sections']
-                        running_sections -= set(per_page_rs.get('exclude', []))
+                        for name in per_page_rs.get('exclude', []):
+                            running_sections.pop(name, None)
                         running_sections.update(
-                            set(per_page_rs.get('include', []))
+                            dict.fromkeys(per_page_rs.get('include', []))
                         )
 
             self.pdf.setup_page(**page_args)
-- 
2.43.0


From 50ea4630790a2172da1ebeca93f79f11f3ff838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 59/69] fix: text lost in groups that fill exactly their column

When the images of a group fit with their full heights and no space was
left, the rounding of the heights could leave less than a line for the
last paragraph, that was then not shown at all.
---
 pdfme/content.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 91fed94..3fd1d00 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -1153,12 +1153,13 @@ class PDFContentPart:
         Returns:
             dict: the height of each image.
         """
+        # a margin for the rounding of the sums of heights
+        space = max(0, space - 0.001)
         if space >= sum(full - min_ for min_, full, _ in images.values()):
             return {i: full for i, (_, full, _) in images.items()}
 
         heights = {i: min_ for i, (min_, _, _) in images.items()}
         pending = {i: v for i, v in images.items() if not v[2]}
-        space = max(0, space - 0.001)
         while sum(min_ for min_, _, _ in pending.values()) > 0:
             ratio = 1 + space / sum(min_ for min_, _, _ in pending.values())
             is_full = [
-- 
2.43.0


From 5ace7165c81c0dc8a99fbfa973d565e12369cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:57 +0000
Subject: [PATCH 60/69] fix: tables with cells that are not allowed never ended

A cell without any of the keys of the elements of a table (a group, for
example) was delayed again on every page, so building the document never
ended.
---
 pdfme/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index 6cae80b..1623c0c 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -843,6 +843,10 @@ class PDFTable:
             real_height, did_finished = self.process_table(
                 element, x, y, width, height, style, delayed
             )
+        elif not did_finished:
+            raise Exception(
+                'Element not allowed in a table cell: {}'.format(element)
+            )
 
         if did_finished:
             self.delayed.pop(col, None)
-- 
2.43.0


From b1a5ea7679602c0c4d50a1a0e2d4d60d191f55c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 61/69] fix: fills and spans lost in rows that wait for their
 place

---
 pdfme/table.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index 1623c0c..a02256d 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -479,6 +479,9 @@ class PDFTable:
             self.finished = True
             return
 
+        last_delayed = dict(self.delayed)
+        last_rowspan = {col: dict(v) for col, v in self.rowspan.items()}
+
         action = None
         can_continue = True
         if len(self.delayed) > 0:
@@ -505,6 +508,9 @@ class PDFTable:
             self.parts = []
             self.lines = []
             self.fills = []
+            # nothing was added, so the cells stay as they were
+            self.delayed = last_delayed
+            self.rowspan = last_rowspan
             return
 
         self.top_lines = []
-- 
2.43.0


From 300645a558e15fd48b8d35b0f40430ed9d1fff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 62/69] fix: documents with many images or groups were refused

Images and groups were tried at most 50 times, even in columns that have
something else already, so that the 51st image of an album was refused.
---
 pdfme/content.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 3fd1d00..81fb466 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -965,8 +965,9 @@ class PDFContentPart:
                 })
         else:
             self.y = initial_y
-            tries = element.get('tries', 0)
-            if tries >= 50:
+            # only the tries in an empty column tell that it does not fit
+            tries = element.get('tries', 0) + int(self.starting)
+            if tries > 50:
                 raise Exception(
                     'Image element could not be fitted in the document (try '
                     'adding "min_height" style property to this image for us'
@@ -975,7 +976,7 @@ class PDFContentPart:
                     .format(element)
                 )
             image_place = style.get('image_place', 'flow')
-            ret['delayed'] = dict(element, tries=tries + 1)
+            ret['delayed'] = dict(element, tries=tries)
             if image_place == 'normal':
                 ret['next'] = True
             elif image_place == 'flow':
@@ -1200,8 +1201,9 @@ class PDFContentPart:
                 element, style, add_element=False, add_top_margin=i != 0
             )
             if ans.get('delayed') is not None:
-                tries = group_element.get('tries', 0)
-                if tries >= 50:
+                # only the tries in an empty column tell that it does not fit
+                tries = group_element.get('tries', 0) + int(initial_starting)
+                if tries > 50:
                     raise Exception(
                         'Group element could not be fitted in the document: {}'
                         .format(group_element)
@@ -1210,7 +1212,7 @@ class PDFContentPart:
                 self.last_bottom = initial_last_bottom
                 self.starting = initial_starting
                 return {
-                    'delayed': dict(group_element, tries=tries + 1),
+                    'delayed': dict(group_element, tries=tries),
                     'next': False, 'flow': True
                 }
             if 'heights' in ans:
-- 
2.43.0


From 03db9feb085a8ad355f4887f0e3d6c93d5bb6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:57 +0000
Subject: [PATCH 63/69] fix: elements that fit no page were tried for ever

The pages where nothing of an element could be added are counted, and an
exception is raised after 50 in a row, like images and groups do.
---
 pdfme/document.py |  3 +++
 pdfme/pdf.py      | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/pdfme/document.py b/pdfme/document.py
index 516f2d0..7a6cc69 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -328,6 +328,7 @@ class PDFDocument:
             k: section_style[k] for k in PAGE_PROPS if k in section_style
         }
 
+        tries = 0
         while True:
             page_n = len(self.pdf.pages)
 
@@ -377,6 +378,8 @@ class PDFDocument:
             if self.section.finished:
                 break
 
+            tries = self.pdf._count_tries(self.section, tries)
+
     def _add_content(self) -> None:
         """Method to add the section contents to the current page.
 
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index e5b384c..5d5362d 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -712,13 +712,42 @@ class PDF:
             text_align=text_align, line_height=line_height, indent=indent,
             list_text=list_text, list_indent=list_indent, list_style=list_style
         )
+        tries = 0
         while not pdf_text.finished:
+            tries = self._count_tries(pdf_text, tries)
             self.add_page()
             pdf_text = self._text(pdf_text, self.page.content_width,
                 self.page.content_height, self.page.margin_left,
                 self.page.margin_top
             )
 
+    def _count_tries(
+        self, element: Union['PDFText', 'PDFTable', 'PDFContent'], tries: int
+    ) -> int:
+        """Method to count the pages in a row where nothing of ``element``
+        could be added, because what comes next does not fit in them.
+
+        Args:
+            element (PDFText, PDFTable, PDFContent): the element that was just
+                added to a page, and has not finished.
+            tries (int): the number of pages in a row, before the last one.
+
+        Raises:
+            Exception: if nothing could be added to the last 50 pages.
+
+        Returns:
+            int: the number of pages in a row, with the last one.
+        """
+        if isinstance(element, PDFText):
+            added = element.current_height > 0
+        else:
+            added = any(part['height'] > 0 for part in element.parts)
+        if added:
+            return 0
+        if tries > 50:
+            raise Exception('Element could not be fitted in the document')
+        return tries + 1
+
     def _default_content_style(self) -> dict:
         """This method returns a dict with the PDF default values used by
         content boxes.
@@ -814,7 +843,9 @@ class PDF:
             content, widths=widths, style=style, borders=borders, fills=fills,
             x=self.page.margin_left, width=self.page.content_width
         )
+        tries = 0
         while not pdf_table.finished:
+            tries = self._count_tries(pdf_table, tries)
             self.add_page()
             pdf_table = self._table(
                 pdf_table, self.page.content_width, self.page.content_height,
@@ -886,7 +917,9 @@ class PDF:
         pdf_content = self._content(
             content, x=self.page.margin_left, width=self.page.content_width
         )
+        tries = 0
         while not pdf_content.finished:
+            tries = self._count_tries(pdf_content, tries)
             self.add_page()
             pdf_content = self._content(pdf_content,
                 self.page.content_width, self.page.content_height,
-- 
2.43.0


From 38e4909cb0f51320085c68231acb092b31770218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:55 +0000
Subject: [PATCH 64/69] fix: refuse counts of columns that are not whole
 numbers greater than 0, they never ended building

---
 pdfme/content.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/content.py b/pdfme/content.py
index 81fb466..d7bca7e 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -385,6 +385,11 @@ class PDFContentPart:
         self.last_bottom = 0
 
         self.cols_n = self.column_info.get('count', 1)
+        if self.cols_n < 1 or self.cols_n % 1 != 0:
+            raise ValueError(
+                'the count of columns must be a whole number greater than 0: {}'
+                .format(self.cols_n)
+            )
         self.cols_gap = self.column_info.get('gap', max(width / 25, 7))
         cols_spaces = self.cols_gap * (self.cols_n - 1)
         self.col_width = (width - cols_spaces) / self.cols_n
-- 
2.43.0


From dda56d6e266a686bf34674c638be83481c602b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:55 +0000
Subject: [PATCH 65/69] fix: refuse an image_place other than normal and flow,
 an image that did not fit was tried for ever

---
 pdfme/content.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index d7bca7e..956fb0b 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -925,6 +925,12 @@ class PDFContentPart:
         Returns:
             dict: Containing instructions to the caller.
         """
+        image_place = style.get('image_place', 'flow')
+        if image_place not in ('normal', 'flow'):
+            raise ValueError(
+                'image_place must be "normal" or "flow": {}'.format(image_place)
+            )
+
         initial_y = self.y
         if not self.starting and add_top_margin:
             self.y -=  style.get('margin_top', 0)
@@ -980,7 +986,6 @@ class PDFContentPart:
                     ': {}'
                     .format(element)
                 )
-            image_place = style.get('image_place', 'flow')
             ret['delayed'] = dict(element, tries=tries)
             if image_place == 'normal':
                 ret['next'] = True
-- 
2.43.0


From b85230aa665751bb985641da51727efc7c5a4afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:18 +0000
Subject: [PATCH 66/69] fix: a column or row span that goes beyond the table
 lost its fill and its height

---
 pdfme/table.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index a02256d..dd9b011 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -804,6 +804,13 @@ class PDFTable:
 
         element, style, cell_style = self.get_cell_style(element)
 
+        # a span ends at the last column and row of the table
+        rows_left = len(self.content) - element.get('row', self.current_index)
+        if element.get('rowspan', 1) > rows_left:
+            element['rowspan'] = rows_left
+        if element.get('colspan', 1) > self.cols_count - col:
+            element['colspan'] = self.cols_count - col
+
         colspan_original = element.get('colspan', 1)
         self.colspan = colspan_original - 1
         row_added = element.get('row', self.current_index)
-- 
2.43.0


From b0bbf0dcebe0f9cbefefdc1877d0571680e73210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:26 +0000
Subject: [PATCH 67/69] fix: the fill of a cell was painted over the fills of
 the tables in it

---
 pdfme/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index dd9b011..3e2ef7d 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -602,7 +602,8 @@ class PDFTable:
             fill['height'] += self.max_height
             if not fill.get('add_later', False) or not ret:
                 fill['y'] -= fill['height']
-                self.fills.append(fill)
+                # below the fills of the elements of the cells
+                self.fills.insert(0, fill)
                 self.fills_mem.pop(col)
 
         self.current_height += self.max_height
-- 
2.43.0


From 0818132607f3eb305a25b0ca1e2d74ca8aa114ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:56 +0000
Subject: [PATCH 68/69] fix: a page whose lines have many footnotes was
 refused, although less lines fit in it with theirs

---
 pdfme/document.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 7a6cc69..c1692d1 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -396,6 +396,7 @@ class PDFDocument:
 
         footnotes_obj, footnotes = None, []
         footnotes_height = renumbered = 0
+        max_height = self.height - 20
 
         # the footnotes, and their numbers, depend on what is left in the page
         # after reserving the space for them, so we try until they don't change
@@ -407,7 +408,9 @@ class PDFDocument:
 
             if footnotes_obj is not None:
                 new_height = footnotes_obj.current_height + self.footnotes_margin
-                if new_height >= self.height - 20:
+                if new_height >= max_height > footnotes_height + 0.5:
+                    new_height = max_height
+                elif new_height >= max_height:
                     raise Exception(
                         "footnotes are very large and don't fit in one page"
                     )
@@ -415,7 +418,11 @@ class PDFDocument:
                 new_height = 0
 
             if new_height > footnotes_height:
-                footnotes_height = new_height
+                # less contents could have less footnotes, so the space for
+                # them is not reserved at once
+                footnotes_height = min(new_height, footnotes_height + max(
+                    0.5, (max_height - footnotes_height) / 8
+                ))
             elif footnotes == last_footnotes or renumbered == 5:
                 break
             else:
-- 
2.43.0


From 06f589610dad48ff0654400acb228bd27a4d66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:04 +0000
Subject: [PATCH 69/69] fix: a footnote in another footnote was not shown, and
 neither was its mark

---
 pdfme/document.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index c1692d1..9f0d5f3 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -225,7 +225,8 @@ class PDFDocument:
             if 'footnote' in element:
                 element = copy(element)
                 element.setdefault('ids', [])
-                name = '$footnote:' + str(len(self.footnotes))
+                index = len(self.footnotes)
+                name = '$footnote:' + str(index)
                 element['ids'].append(name)
                 element['style'] = '$footnote'
                 element['var'] = name
@@ -245,6 +246,9 @@ class PDFDocument:
                     )
 
                 self.footnotes.append(footnote)
+                # a footnote can have other footnotes
+                self.footnotes[index] = \
+                    self._traverse_document_footnotes(footnote)
                 return element
             return {
                 key: self._traverse_document_footnotes(value)
@@ -461,18 +465,21 @@ class PDFDocument:
                 continue
             if id_.startswith('$footnote:'):
                 index = int(id_[10:])
-                page_footnotes.append(index)
-                self.pdf.context[id_] = len(page_footnotes)
+                if index not in page_footnotes:
+                    page_footnotes.append(index)
+                    self.pdf.context[id_] = len(page_footnotes)
 
-    def _check_footnotes(self, page_footnotes: list) -> None:
-        """Method that loops through the current section parts, extracting the
-        footnotes from each part's ids.
+    def _check_footnotes(self, parts: list, page_footnotes: list) -> None:
+        """Method that loops through the parts passed as argument, extracting
+        the footnotes from each part's ids.
 
         Args:
+            parts (list): the parts of the current section, or the ones of its
+                footnotes.
             page_footnotes (list): the list of the page footnotes to save the
                 indexes of the footnotes found in the ids.
         """
-        for part in self.section.parts:
+        for part in parts:
             if part['type'] == 'paragraph':
                 self._check_footnote(part['ids'], page_footnotes)
 
@@ -512,10 +519,13 @@ class PDFDocument:
                 indexes of the footnotes.
         """
         page_footnotes = []
-        self._check_footnotes(page_footnotes)
-        if len(page_footnotes) == 0:
-            return None, page_footnotes
-        return self._get_footnotes_obj(page_footnotes), page_footnotes
+        self._check_footnotes(self.section.parts, page_footnotes)
+        footnotes_obj, n = None, 0
+        while n < len(page_footnotes):
+            n = len(page_footnotes)
+            footnotes_obj = self._get_footnotes_obj(page_footnotes)
+            self._check_footnotes(footnotes_obj.parts, page_footnotes)
+        return footnotes_obj, page_footnotes
 
     def output(self, buffer: Any) -> None:
         """Method to create the PDF file.
-- 
2.43.0

