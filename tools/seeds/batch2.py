SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


P = 'pdfme/parser.py'
T = 'pdfme/text.py'
C = 'pdfme/content.py'
TB = 'pdfme/table.py'
PG = 'pdfme/page.py'
PD = 'pdfme/pdf.py'
D = 'pdfme/document.py'
U = 'pdfme/utils.py'
F = 'pdfme/fonts.py'
I = 'pdfme/image.py'
CO = 'pdfme/color.py'

seed('c10-gap-three', 'C10', 'three or more columns',
     'only one gap is discounted for three columns, so the last column goes out of the box',
     [(C, "        cols_spaces = self.cols_gap * (self.cols_n - 1)\n", "        cols_spaces = self.cols_gap * (self.cols_n // 2)\n")],
     '''
d = view(build({'style': {'page_size': (300, 200), 'margin': 10, 's': 8}, 'sections': [{'cols': {'count': 3, 'gap': 20}, 'content': [{'.': 'aa ' * 120, 'style': {'text_align': 'j'}}]}]}))
right = max(c[2] for t in d[0].texts for c in t.chars if c[0] != ' ')
assert right <= 291, right
''')

seed('c10-child-margin-right', 'C10', 'a nested box with a right margin, on the second column of its parent',
     'the width of an element with margins is computed from the whole width when the element is in another column',
     [(C, "        self.width = self.col_width - \\\n            s.get('margin_left', 0) - s.get('margin_right', 0)\n",
       "        self.width = self.col_width - s.get('margin_left', 0)\n        if self.column < 1:\n            self.width -= s.get('margin_right', 0)\n")],
     '''
d = view(build({'style': {'page_size': (220, 200), 'margin': 10, 's': 8}, 'sections': [{'cols': {'count': 2, 'gap': 20}, 'content': [
    {'.': 'aa ' * 80, 'style': {'text_align': 'j', 'margin_right': 30}}, {'.': 'bb ' * 80, 'style': {'text_align': 'j', 'margin_right': 30}}]}]}))
right = max(c[2] for t in d[0].texts for c in t.chars if c[0] != ' ')
assert right <= 210 - 30 + 1, right
''')

seed('c11-image-margin', 'C11', 'a group whose image does not fit although the texts before it do, with a following element in the same page',
     'the position of the column is not restored when an element of the group does not fit, so the next elements start lower and a hole is left',
     [(C, "                self.y = initial_y\n                self.last_bottom = initial_last_bottom\n", "                self.y = initial_y if i == 0 else self.y\n                self.last_bottom = initial_last_bottom\n")],
     '''
jpg = bytes.fromhex('ffd8ffe000104a46494600010100000100010000ffc0001108006400640301110002110003110' '0ffda000c03010002000300003f0000ffd9')
img = {'image': io.BytesIO(jpg), 'extension': 'jpg', 'image_name': 'x'}
d = view(build({'style': {'page_size': (120, 170), 'margin': 10, 's': 8}, 'sections': [{'content': [
    {'.': 'a\\nb\\nc'}, {'group': [{'.': 'd'}, {'.': 'e'}, img]}, {'.': 'f'}]}]}))
y = {t.text.strip(): t.y for t in d[0].texts}
assert 'f' in y and y['c'] - y['f'] < 20, y
''')

seed('c12-page-width', 'C12', 'a page range that changes the page size inside a section',
     'the contents keep the width of the first page of the section',
     [(D, "            self.section.setup(self.x, self.y, self.width, self.height)\n",
       "            self.section.setup(\n                self.x, self.y, self.width if page_n == 0 else None, self.height\n            )\n")],
     '''
d = view(build({'style': {'page_size': (200, 100), 'margin': 10, 's': 8, 'text_align': 'j'}, 'per_page': [{'pages': '1:3', 'style': {'page_size': (400, 100)}}],
                'sections': [{'content': ['aa ' * 300]}]}))
right = max(c[2] for t in d[1].texts for c in t.chars if c[0] != ' ')
assert abs(right - 390) < 1, right
''')

seed('c12-exclude', 'C12', 'two per page rules where the first one includes the running section that the second one excludes',
     'a running section included by a rule cannot be excluded by a later rule that selects the same page',
     [(D, "                        running_sections -= set(per_page_rs.get('exclude', []))\n",
       "                        running_sections -= set(per_page_rs.get('exclude', [])) \\\n                            & set(section.get('running_sections', []))\n")],
     '''
d = view(build({'style': {'page_size': (200, 100), 'margin': 20, 's': 8},
                'running_sections': {'h': {'x': 'left', 'y': 'top', 'height': 'top', 'content': ['HEAD']}},
                'per_page': [{'pages': '0:5', 'running_sections': {'include': ['h']}}, {'pages': '0', 'running_sections': {'exclude': ['h']}}],
                'sections': [{'content': ['aa ' * 200]}]}))
txt = [''.join(t.text for t in p.texts) for p in d]
assert 'HEAD' not in txt[0] and 'HEAD' in txt[1], txt
''')

seed('c13-second-reset', 'C13', 'a numbering reset in a section that follows another reset or an offset',
     'the reset is computed from the numbering in force instead of from the number of pages',
     [(D, "            self.pdf.page_numbering_offset = -len(self.pdf.pages)\n", "            self.pdf.page_numbering_offset -= len(self.pdf.pages)\n")],
     '''
sec = lambda **k: {'style': k, 'content': [{'.': ['p', {'var': '$page'}]}]}
d = view(build({'style': {'page_size': (100, 100), 'margin': 10, 's': 8}, 'sections': [
    sec(), sec(page_numbering_reset=True), sec(page_numbering_reset=True)]}))
txt = [''.join(t.text for t in p.texts) for p in d]
assert txt == ['p1', 'p1', 'p1'], txt
''')

seed('c13-roman-format', 'C13', 'roman page numbers from 400 on',
     'the hundreds of roman numerals are written with the wrong letter for ten hundreds',
     [(U, "        roman = _roman_ten(int(n[-3]), 'C', 'D', 'M') + roman\n", "        roman = _roman_ten(int(n[-3]), 'C', 'D', '') + roman\n")],
     '''
d = view(build({'style': {'page_size': (100, 100), 'margin': 10, 's': 8, 'page_numbering_style': 'roman', 'page_numbering_offset': 899},
                'sections': [{'content': [{'.': ['p', {'var': '$page'}]}]}, {'content': [{'.': ['p', {'var': '$page'}]}]}]}))
txt = [''.join(t.text for t in p.texts) for p in d]
assert txt == ['pCM', 'pCMI'], txt
''')

seed('c14-tuple', 'C14', 'a footnote inside a paragraph given as a tuple',
     'footnotes inside tuples are not found',
     [(D, "        if isinstance(element, (list, tuple)):\n            children = [", "        if isinstance(element, list):\n            children = [")],
     '''
d = view(build({'style': {'page_size': (200, 200), 'margin': 10, 's': 8}, 'sections': [{'content': [('aa ', {'footnote': 'zzz'})]}]}))
txt = ''.join(t.text for t in d[0].texts)
assert 'zzz' in txt, txt
''')

seed('c15-names-order', 'C15', 'more than 49 labels',
     'the limits of the upper levels of the destination tree use the first key of the last node',
     [(PD, "                obj['Limits'][1] = key if first_level else val[1]\n", "                obj['Limits'][1] = key if first_level else vals[i - i % k][1]\n")],
     '''
pdf = PDF(page_size=(200, 2000), margin=10)
pdf.add_page()
for i in range(60):
    pdf.text({'.': 'a%d' % i, 'label': 'l%03d' % i})
from pv.pdfread import Pdf
p = Pdf(out(pdf))
def walk(n):
    n = p.get(n)
    if 'Names' in n:
        ks = n['Names'][::2]
    else:
        ks = [k for q in n['Kids'] for k in walk(q)]
    if 'Limits' in n:
        assert list(n['Limits']) == [ks[0], ks[-1]], (n['Limits'], ks[0], ks[-1])
    return ks
assert len(walk(p.get(p.get(p.root['Names'])['Dests']))) == 60
''')

seed('c15-outline-prev', 'C15', 'an outline three levels deep whose inner outlines have children',
     'the number of visible outlines counts the children of the inner outlines only once',
     [(PD, "                    count += count_\n", "                    count += len(children)\n")],
     '''
pdf = PDF(page_size=(200, 2000), margin=10)
pdf.outlines_level = 3
pdf.add_page()
for lv in (1, 2, 3, 3, 2, 3):
    pdf.text({'.': 'a', 'outline': {'level': lv}})
from pv.pdfread import Pdf
p = Pdf(out(pdf))
o = p.get(p.root['Outlines'])
assert o['Count'] == 6, o
''')

seed('c16-resumed-font', 'C16', 'a part with a font of its own that is split in the middle by the end of a page',
     'the page where the part goes on does not declare its font',
     [(T, "        self.current_line_used_fonts.add((\n            new_line_part.state.font_family,\n            new_line_part.state.font_mode\n        ))\n",
       "        if self.last_word == 0:\n            self.current_line_used_fonts.add((\n                new_line_part.state.font_family,\n                new_line_part.state.font_mode\n            ))\n")],
     '''
from pv.pdfread import Pdf
import re, zlib
p = Pdf(build({'style': {'page_size': (100, 60), 'margin': 10, 's': 8}, 'sections': [{'content': [{'.': 'aa ' * 80, 'style': {'f': 'Times'}}]}]}))
n = 0
for _, q in p.pages():
    fonts = set(p.get(p.get(q['Resources']).get('Font', {})))
    used = set(x.decode() for x in re.findall(rb'/(F[0-9]+) ', p.get(q['Contents']).data))
    assert used <= {str(f).lstrip('/') for f in fonts}, (used, fonts)
    n += 1
assert n > 2
''')

seed('c17-format-cache', 'C17', 'two documents of the same process with different formats of the same name',
     'named styles are cached for the process',
     [(U, "        return copy(pdf.formats[style])\n    elif isinstance(style, dict):",
       "        if style not in _named_styles or style.startswith('$'):\n            _named_styles[style] = copy(pdf.formats[style])\n        return copy(_named_styles[style])\n    elif isinstance(style, dict):"),
      (U, "def get_page_size(size: Union", "_named_styles = {}\n\ndef get_page_size(size: Union")],
     '''
def doc(s):
    return build({'style': {'page_size': (200, 200), 'margin': 10, 's': 8}, 'formats': {'t': {'s': s}}, 'sections': [{'content': [{'.': 'a', 'style': 't'}]}]})
a, b = view(doc(10))[0].texts[0].size, view(doc(20))[0].texts[0].size
assert (a, b) == (10, 20), (a, b)
''')

seed('c18-nested-table', 'C18', 'a state of a table taken while a nested table was split, restored before the nested table has finished',
     'a nested table goes on from where it is instead of from the restored state, unless it had finished',
     [(TB, "            pdf_table.set_state(**element['state'])\n            pdf_table.finished = False\n", "            if pdf_table.finished:\n                pdf_table.set_state(**element['state'])\n            pdf_table.finished = False\n")],
     '''
from pdfme.table import PDFTable
pdf = PDF(page_size=(300, 300), margin=0, font_size=8)
pdf.add_page()
t = PDFTable([['x', {'table': [['r%d' % i] for i in range(12)]}]], pdf.fonts, 0, 300, 100, 45, style={'s': 8, 'cell_margin': 2}, pdf=pdf)
t.run()
s = t.get_state()
t.run(0, 300, 100, 45)
one = [p.get('content', str(p)) for p in t.parts]
t.set_state(**s)
t.finished = False
t.run(0, 300, 100, 45)
two = [p.get('content', str(p)) for p in t.parts]
assert one == two, (one, two)
''')

seed('c19-height-only', 'C19', 'an image drawn with only a height that gives it a fractional width',
     'the width of an image drawn with only a height is rounded, so its proportions change',
     [(PD, "            width = height * w/h\n", "            width = height * w//h\n")],
     '''
jpg = bytes.fromhex('ffd8ffe000104a46494600010100000100010000ffc00011080190006403011100021100031100ffda000c03010002000300003f0000ffd9')
pdf = PDF(page_size=(300, 300), margin=0)
pdf.add_page()
pdf.image(io.BytesIO(jpg), 'jpg', 'x', height=50)
m = view(out(pdf))[0].images[0]
assert m[2:4] == (12.5, 50), m
''')

seed('c20-short-hex', 'C20', 'a color given with 4 hexadecimal digits',
     'the digits of #rgba colors are taken by pairs',
     [(CO, "            if n in [4, 5]:\n", "            if n == 4:\n")],
     '''
from pdfme.color import parse_color
assert list(parse_color('#f00f'))[:3] == [1, 0, 0], parse_color('#f00f')
''')

seed('c21-units', 'C21', 'a TrueType font whose units per em are not 1000 and with hhea metrics',
     'the bounding box of the font descriptor is not scaled',
     [(F, "        xMax = head.xMax * scale\n", "        xMax = head.xMax * min(scale, 1)\n")],
     '''
import glob
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'small.ttf')
from fontTools.fontBuilder import FontBuilder
from fontTools.pens.ttGlyphPen import TTGlyphPen
fb = FontBuilder(500, isTTF=True)
fb.setupGlyphOrder(['.notdef', 'A'])
fb.setupCharacterMap({65: 'A'})
pen = TTGlyphPen(None)
pen.moveTo((0, 0)); pen.lineTo((0, 350)); pen.lineTo((300, 350)); pen.closePath()
g = pen.glyph()
fb.setupGlyf({'.notdef': g, 'A': g})
fb.setupHorizontalMetrics({'.notdef': (300, 0), 'A': (310, 0)})
fb.setupHorizontalHeader(ascent=400, descent=-100)
fb.setupNameTable({'familyName': 'T', 'styleName': 'R', 'psName': 'T-R'})
fb.setupOS2(); fb.setupPost()
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f.ttf')
    fb.save(p)
    pdf = PDF()
    pdf.add_font(p, 'Fam', 'n')
    pdf.add_page()
    pdf.text({'.': 'A', 'style': {'f': 'Fam'}})
    from pv.pdfread import Pdf
    q = Pdf(out(pdf))
    bb = [o for o in q.objects.values() if isinstance(o, dict) and 'FontBBox' in o][0]['FontBBox']
    assert bb == [0, 0, 600, 700], bb
''')

seed('c22-footnotes-height', 'C22', 'a document whose first page has footnotes, with more pages',
     'the room for the footnotes of a page is kept in the following pages of the document',
     [(D, "            self.section.run(height=self.height - footnotes_height)\n", "            footnotes_height = max(footnotes_height, self.footnotes_height)\n            self.section.run(height=self.height - footnotes_height)\n"),
      (D, "            self.pdf.page._y = self.pdf.margin['bottom'] \\\n", "            self.footnotes_height = footnotes_obj.current_height\n            self.pdf.page._y = self.pdf.margin['bottom'] \\\n"),
      (D, "        self.footnotes_margin = 10\n", "        self.footnotes_margin = 10\n        self.footnotes_height = 0\n")],
     '''
d = view(build({'style': {'page_size': (200, 120), 'margin': 10, 's': 8}, 'sections': [{'content': [{'.': ['a', {'footnote': 'zzz'}]}, {'.': 'b\\n' * 40}]}]}))
n = [len(lines(p)) for p in d]
assert n[1] >= 10, n
''')

seed('c22-delayed-wait', 'C22', 'an image that does not fit followed by several elements that do',
     'when an image is delayed twice the elements after it wait for it although there is room for them',
     [(C, "            self.element_index >= len(self.elements) - 1\n        ):\n            return 'next'", "            self.element_index >= min(len(self.elements) - 1, 3)\n        ):\n            return 'next'")],
     '''
jpg = bytes.fromhex('ffd8ffe000104a46494600010100000100010000ffc0001108006400640301110002110003110' '0ffda000c03010002000300003f0000ffd9')
def img(i):
    return {'image': io.BytesIO(jpg), 'extension': 'jpg', 'image_name': 'x%d' % i}
d = view(build({'style': {'page_size': (120, 160), 'margin': 10, 's': 8}, 'sections': [{'content': [
    {'.': 'a\\n' * 5}, img(1), img(2), {'.': 'b\\n' * 10}, {'.': 'c'}, {'.': 'd\\nd'}, {'.': 'e'}]}]}))
n = [(len(p.images), ''.join(t for y, t in lines(p)).replace(' ', '')) for p in d]
assert 'c' in n[1][1], n
''')
