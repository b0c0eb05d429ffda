exec(open(__file__.replace('batch3', 'batch2') if '__file__' in globals() else '/verif/tools/seeds/batch2.py').read().split("seed('c10-gap-three'")[0])
B = 'pdfme/base.py'

seed('c01-size-stale', 'C01', 'an output, more additions and another output',
     'the trailer keeps the Size of the first output',
     [(B, "        self.trailer['Size'] = self.count\n", "        self.trailer.setdefault('Size', self.count)\n")],
     '''
import re
pdf = PDF(page_size=100, margin=10)
pdf.add_page()
pdf.text('a')
out(pdf)
pdf.add_page()
pdf.text('b')
d = out(pdf)
n = len(re.findall(rb'^\\d+ 0 obj', d, re.M))
assert int(re.search(rb'/Size (\\d+)', d).group(1)) == n + 1
''')

seed('c02-negative-number', 'C02', 'a list with a negative number after another number',
     'no separator is written before negative numbers, so two numbers are read as one',
     [(P, "        if not ret[0] in [b'/', b'(', b'<'] and i != 0: bytes_ += b' '\n", "        if ret[:1] not in (b'/', b'(', b'<', b'-') and i != 0: bytes_ += b' '\n")],
     '''
from pdfme.parser import parse_obj
b = parse_obj([5, -3.5, 'x', -2])
import re
assert re.findall(rb'-?[0-9.]+', b) and re.search(rb'5\\s+-3\\.5', b), b
''')

seed('c04-trailing-space', 'C04', 'a right aligned, centered or justified paragraph with lines that mix styles',
     'the space after the last word of a full line is kept when the line has several parts, so the line does not end at the right edge',
     [(T, "                        len(self.line_parts[-1].words) and\n", "                        len(self.line_parts) == 1 and\n                        len(self.line_parts[-1].words) and\n")],
     '''
d = view(build({'style': {'page_size': (120, 200), 'margin': 10, 's': 8}, 'sections': [{'content': [{'.': ['aa aa aa ', {'.b': 'bb bb bb bb bb bb bb bb bb bb bb'}], 'style': {'text_align': 'r'}}]}]}))
ends = {}
for t in d[0].texts:
    for c in t.chars:
        if c[0] != ' ':
            ends[round(t.y, 1)] = max(ends.get(round(t.y, 1), 0), c[2])
assert all(abs(e - 110) < 0.1 for e in ends.values()), ends
''')

seed('c05-rise-leak', 'C05', 'a paragraph that ends in raised text, followed by another in the same page',
     'the rise of the last part of a paragraph is kept in the first part of the next one, because it is only set when it is not 0',
     [(T, "        if other is None or self.rise != other.rise:\n", "        if self.rise != (0 if other is None else other.rise):\n")],
     '''
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
pdf.text(['a', {'.r:0.5': 'b'}])
pdf.text('c')
d = view(out(pdf))
t = [t for t in d[0].texts if t.text == 'c'][0]
assert t.rise == 0, t.rise
''')

seed('c06-uri-key', 'C06', 'two links whose addresses only differ in a trailing slash, fragment or letter case',
     'links whose addresses are equal up to the fragment share the action of the first one',
     [(PD, "                link = id_[5:]\n                if not link in self.uris:\n", "                uri_ = id_[5:]\n                link = uri_.partition('#')[0]\n                if not link in self.uris:\n"),
      (PD, "                        {'Type': b'/Action', 'S': b'/URI', 'URI': link}\n", "                        {'Type': b'/Action', 'S': b'/URI', 'URI': uri_}\n")],
     '''
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
pdf.text([{'.': 'a', 'uri': 'http://x.y/z#a'}, ' ', {'.': 'b', 'uri': 'http://x.y/z#b'}])
d = out(pdf)
assert b'(http://x.y/z#a)' in d and b'(http://x.y/z#b)' in d
''')

seed('c07-span-block-height', 'C07', 'a cell with both rowspan and colspan that is taller than its rows',
     'the last row of a cell that spans rows and columns is not enlarged to the height of the cell',
     [(TB, "                if self.heights_mem.get(col, 0) > self.max_height:\n", "                if not self.is_rowspan and \\\n                        self.heights_mem.get(col, 0) > self.max_height:\n")],
     '''
pdf = PDF(page_size=200, margin=10, font_size=8)
pdf.add_page()
pdf.table([[{'.': 'a\\\\na\\\\na\\\\na\\\\na\\\\na\\\\na'.replace('\\\\n', chr(10)), 'rowspan': 2, 'colspan': 2}, None, 'b'], [None, None, 'c'], ['d', 'e', 'f']])
d = view(out(pdf))
y = {}
for t in d[0].texts:
    for c in t.text.strip():
        y[c] = t.y
assert y['d'] < y['a'], y
''')

seed('c08-last-border', 'C08', 'a border position with a negative vertical line index',
     'negative indexes of vertical lines count from the last column instead of the last line',
     [(TB, "            counts = (rows, cols + 1) if is_vert else (rows + 1, cols)\n", "            counts = (rows, cols) if is_vert else (rows + 1, cols)\n")],
     '''
pdf = PDF(page_size=200, margin=10, font_size=8)
pdf.add_page()
pdf.table([['a', 'b']], style={'border_width': 0}, borders=[{'pos': 'v0;-1', 'width': 2}])
d = view(out(pdf))
xs = [round(l[0]) for l in d[0].lines]
assert xs == [190], xs
''')

seed('c09-flow-pop', 'C09', 'two postponed images where the second fits a column in which the first does not',
     'when the second postponed element is added the first one is removed from the list',
     [(C, "                self.delayed.pop(n)\n", "                self.delayed.pop(0)\n")],
     '''
import struct
def jpg(w, h):
    return io.BytesIO(b'\\xff\\xd8\\xff\\xc0\\x00\\x11\\x08' + struct.pack('>HH', h, w) + b'\\x03\\x01\\x11\\x00\\x02\\x11\\x00\\x03\\x11\\x00\\xff\\xd9')
ims = [{'image': jpg(100, h), 'extension': 'jpg', 'image_name': 'i%d' % h} for h in (60, 61, 31)]
d = view(build({'style': {'page_size': (120, 120), 'margin': 10, 's': 8}, 'sections': [{'content': ['\\n'.join('aaaaaaaa')] + ims + ['b', 'c']}]}))
n = sorted(round(i[3]) for p in d for i in p.images)
assert n == [31, 60, 61], n
''')

seed('c10-child-bottom', 'C10', 'a nested box whose last element has its own bottom margin, followed by another element',
     'the margin below a nested box is the one of its last element, instead of its own',
     [(C, "            if current_height > 0:\n                self.y -= current_height\n                self.starting = False\n                self.last_bottom = style.get('margin_bottom', 0)\n",
       "            if current_height > 0:\n                self.y -= current_height\n                self.starting = False\n                self.last_bottom = pdf_content.last_bottom\n")],
     '''
d = view(build({'style': {'page_size': (220, 200), 'margin': 10, 's': 8}, 'sections': [{'content': [
    {'content': ['a', {'.': 'b', 'style': {'margin_bottom': 0}}], 'style': {'margin_bottom': 30}}, 'c']}]}))
y = {t.text.strip(): t.y for t in d[0].texts}
assert abs(y['b'] - y['c'] - 30 - 9.1) < 0.1, y
''')

seed('c12-rotated-right', 'C12', 'a running section at the right margin of a rotated page',
     'the right of rotated pages is computed from their unrotated width',
     [(D, "                section['x'] = page_width - margin['right']\n", "                section['x'] = self.pdf.page_width - margin['right']\n")],
     '''
d = view(build({'style': {'page_size': (200, 300), 'rotate_page': True, 'margin': 30, 's': 8}, 'running_sections': {'r': {'x': 'right', 'width': 'right', 'content': ['#']}},
                'sections': [{'running_sections': ['r'], 'content': ['a']}]}))
x = [t.x for t in d[0].texts if t.text == '#']
assert x and abs(x[0] - 270) < 0.1, x
''')

seed('c13-var-cached', 'C13', 'a paragraph with a variable that continues in another page',
     'the value of a variable is taken only the first time a paragraph is arranged',
     [(T, "        if 'var' in part and self.pdf:\n", "        if 'var' in part and self.pdf and isinstance(part['text'], str):\n")],
     '''
d = view(build({'style': {'page_size': (100, 60), 'margin': 10, 's': 8}, 'sections': [{'content': [
    'a\\nb\\nc', {'.': ['x ', {'var': '$page'}, ' y']}]}]}))
t = ''.join(t.text for t in d[1].texts)
assert t.split() == ['x', '2', 'y'], t
''')

seed('c15-open-count', 'C15', 'nested outlines with outlines_level of 2 or more',
     'the count of the outline tree misses the entries shown below its first level',
     [(PD, "                    count += count_\n                    obj['Count'] = count_\n", "                    obj['Count'] = count_\n")],
     '''
import re
pdf = PDF(page_size=200, margin=10, outlines_level=2)
pdf.add_page()
for i, l in enumerate([1, 2, 2, 1]):
    pdf.text({'.': 't%d' % i, 'outline': {'level': l}})
d = out(pdf)
c = re.search(rb'/Type/Outlines(?:(?!endobj).)*?/Count (-?\\d+)|/Type /Outlines(?:(?!endobj).)*?/Count (-?\\d+)', d, re.S)
assert int(c.group(1) or c.group(2)) == 4, c.group()
''')

seed('c15-upper-limits', 'C15', 'more than 49 labels',
     'the upper levels of the destination tree have limits that do not cover their last child',
     [(PD, "                obj['Limits'][1] = key if first_level else val[1]\n", "                obj['Limits'][1] = key if first_level else val[0]\n")],
     '''
from pv.pdfread import Pdf
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
for i in range(60):
    pdf.text({'.': 'x', 'label': 'l%03d' % i})
d = out(pdf)
import re
lims = [(a, b) for a, b in re.findall(rb'/Limits ?\\[\\((l\\d+)\\) ?\\((l\\d+)\\)', d)]
names = [b'l%03d' % i for i in range(60)]
# every name is inside of the limits of a node of the second level (a wide node)
wide = [l for l in lims if int(l[1][1:]) - int(l[0][1:]) > 7]
assert all(any(a <= n <= b for a, b in wide) for n in names), wide
''')

seed('c16-image-basename', 'C16', 'two images with the same file name in different folders',
     'images are identified by the last part of their name, so the second one shows the first',
     [(PD, "        if pdf_image.image_name not in self.images:\n            image_obj = self.base.add(pdf_image.pdf_obj)\n            self.images[pdf_image.image_name] = image_obj.id\n        else:\n            image_obj = self.base[self.images[pdf_image.image_name]]\n",
       "        name = pdf_image.image_name.rpartition('/')[-1]\n        if name not in self.images:\n            image_obj = self.base.add(pdf_image.pdf_obj)\n            self.images[name] = image_obj.id\n        else:\n            image_obj = self.base[self.images[name]]\n")],
     '''
import struct
def jpg(w, h):
    return io.BytesIO(b'\\xff\\xd8\\xff\\xc0\\x00\\x11\\x08' + struct.pack('>HH', h, w) + b'\\x03\\x01\\x11\\x00\\x02\\x11\\x00\\x03\\x11\\x00\\xff\\xd9')
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
pdf.image(jpg(10, 20), 'jpg', 'a/x.jpg', height=10)
pdf.image(jpg(33, 20), 'jpg', 'b/x.jpg', height=10)
assert b'/Width 33' in out(pdf)
''')

seed('c17-cols-gap', 'C17', 'the same content with columns and without gap used in boxes of different widths',
     'the default gap of the first use is stored in the description of the user',
     [(C, "        self.cols_gap = self.column_info.get('gap', max(width / 25, 7))\n", "        self.cols_gap = self.column_info.setdefault('gap', max(width / 25, 7))\n")],
     '''
def doc(w, sec):
    pdf = PDF(page_size=(w, 200), margin=10, font_size=8)
    pdf.add_page()
    pdf.content(sec)
    return out(pdf)
def xs(d):
    return sorted({round(t.x, 1) for t in view(d)[0].texts})
mk = lambda: {'cols': {'count': 2}, 'content': ['aa'] * 8}
want = xs(doc(120, mk()))
sec = mk()
doc(600, sec)
assert xs(doc(120, sec)) == want
''')

seed('c19-depth', 'C19', 'a JPEG image with 12 bits per component',
     'the depth of every image is 8',
     [(I, '            "BitsPerComponent": int(depth),\n', '            "BitsPerComponent": 8,\n')],
     '''
import struct
b = io.BytesIO(b'\\xff\\xd8\\xff\\xc0\\x00\\x11\\x0c' + struct.pack('>HH', 20, 10) + b'\\x03\\x01\\x11\\x00\\x02\\x11\\x00\\x03\\x11\\x00\\xff\\xd9')
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
pdf.image(b, 'jpg', 'a')
assert b'/BitsPerComponent 12' in out(pdf)
''')

seed('c22-row-slack', 'C22', 'a table row that fits the rest of the page by less than one point',
     'rows are sent to the next page when they leave less than one point free',
     [(TB, "        self.row_max_height = self.height - self.current_height\n", "        self.row_max_height = self.height - self.current_height - 1\n")],
     '''
pdf = PDF(page_size=(100, 20 + 4 * 19.6 + 0.5), margin=10, font_size=8)
pdf.add_page()
pdf.table([['a'], ['b'], ['c'], ['d']])
assert len(pdf.pages) == 1, len(pdf.pages)
''')

seed('c23-margin-alias', 'C23', 'a page added with its own margins, followed by other pages',
     'the margins of a page are kept for the following ones',
     [(PD, "        margin_ = copy(self.margin)\n", "        margin_ = self.margin\n")],
     '''
pdf = PDF(page_size=200, margin=10)
pdf.add_page(margin=50)
pdf.add_page()
assert (pdf.page.x, pdf.page.y) == (10, 10), (pdf.page.x, pdf.page.y)
''')

seed('c21-font-index', 'C21', 'two families of registered fonts, one of them with a bold font',
     'two registered fonts get the same resource name',
     [(F, "        self.loaded_fonts.add((font_family, mode))\n        self.index += 1\n", "        self.loaded_fonts.add((font_family, mode))\n        if mode == 'n':\n            self.index += 1\n")],
     '''
import glob
from pdfme.fonts import PDFFonts
f = 'fonts/OpenSans-Regular.ttf'
fonts = PDFFonts()
fonts.load_font(f, 'x', 'n')
fonts.load_font(f, 'x', 'b')
fonts.load_font(f, 'y', 'n')
refs = [fonts.get_font(a, m).ref for a, m in (('x', 'n'), ('x', 'b'), ('y', 'n'))]
assert len(set(refs)) == 3, refs
''')

seed('c03-blank-part', 'C03', 'a part with only spaces between two styled parts, followed by more text in the same list',
     'parts with only spaces are dropped like the empty ones, so two words are merged',
     [(T, "        if last_part is not None and last_part['text'] == '':\n", "        if last_part is not None and last_part['text'].strip() == '':\n")],
     '''
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
pdf.text([{'.b': 'aa'}, ' ', {'.b': 'bb'}, ' cc'])
t = ''.join(t.text for t in view(out(pdf))[0].texts)
assert t.split() == ['aa', 'bb', 'cc'], t
''')

seed('c18-text-rewind', 'C18', 'a paragraph resumed from an earlier state by the same object',
     'a resumed paragraph of a content box goes on where it was left by its last run, instead of in the state restored',
     [(C, "            pdf_text.set_state(**element['state'])\n            pdf_text.finished = False\n", "            pdf_text.finished = False\n")],
     '''
from pdfme.content import PDFContent
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
c = PDFContent({'content': [' '.join('a%d' % i for i in range(100)), 'bb']}, pdf.fonts, 0, 200, 100, 40, pdf)
c.run()
s = c.get_state()
c.run(0, 200, 100, 40)
one = [p['text_stream'] for p in c.parts]
c.set_state(**s)
c.finished = False
c.run(0, 200, 100, 40)
assert [p['text_stream'] for p in c.parts] == one
''')

seed('c20-jis-b4', 'C20', 'pages of size jis-b4',
     'two digits of the height of a page size are swapped',
     [(U, "    'jis-b4': (728.504, 1031.812),\n", "    'jis-b4': (728.504, 1031.182),\n")],
     '''
from pdfme.utils import get_page_size
a, b = get_page_size('jis-b4')
assert abs(b - 364 / 25.4 * 72) < 0.05, b
''')
