SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


P = 'pdfme/parser.py'
T = 'pdfme/text.py'
C = 'pdfme/content.py'
TB = 'pdfme/table.py'
PG = 'pdfme/page.py'
PD = 'pdfme/pdf.py'

seed('c01-skip-filter', 'C01', 'a second output() of a document that has an image',
     'the already encoded JPEG stream is encoded again, as the marker that prevents it is only kept until the first output',
     [(P, "    if skip_filter:\n        obj['__skip_filter__'] = True\n    return ret", "    return ret")],
     '''
jpg = bytes.fromhex('ffd8ffe000104a46494600010100000100010000ffc0001108000200040301110002110003110' '0ffda000c03010002000300003f0000ffd9')
pdf = PDF()
pdf.add_page()
pdf.image(io.BytesIO(jpg), 'jpg', 'x', width=40)
a = out(pdf)
b = out(pdf)
assert jpg in a
assert jpg in b, 'image lost in the second output'
''')

seed('c01-stream-cache', 'C01', 'an output followed by more additions to the same page and a second output',
     'the bytes of a stream that was already encoded are reused although the page got more contents',
     [(P, "    stream = encode_stream(stream_str, obj['Filter']) \\\n        if 'Filter' in obj and not skip_filter else stream_str\n",
       "    if 'Filter' in obj and not skip_filter:\n        # the first chunks of a stream never change\n        cached = obj.pop('__encoded__', None)\n"
       "        if cached is not None and stream_str.startswith(cached[0][:64]):\n            stream = cached[1]\n        else:\n"
       "            stream = encode_stream(stream_str, obj['Filter'])\n        encoded = (stream_str, stream)\n    else:\n        encoded = None\n        stream = stream_str\n"),
      (P, "    obj['__stream__'] = stream_\n", "    obj['__stream__'] = stream_\n    if encoded is not None:\n        obj['__encoded__'] = encoded\n")],
     '''
pdf = PDF()
pdf.add_page()
pdf.text('first paragraph with enough text to be longer than the prefix that is compared')
out(pdf)
pdf.text('second')
p = view(out(pdf))
assert any('second' in t for y, t in lines(p[0])), lines(p[0])
''')

seed('c02-dict-space', 'C02', 'a negative number as the direct value of a dictionary',
     'the space between a key and a negative number is omitted, so the number becomes part of the name',
     [(P, "        if not ret[0] in [b'/', b'(', b'<']: bytes_ += b' '\n        bytes_ += ret\n\n    return bytes_ + b'>>'",
       "        if not ret[:1] in [b'/', b'(', b'<', b'[', b'-']: bytes_ += b' '\n        bytes_ += ret\n\n    return bytes_ + b'>>'")],
     '''
from pdfme.base import PDFBase
b = PDFBase()
b.trailer['Root'] = b.add({'Type': b'/Catalog', 'A': 5, 'B': -5, 'C': -0.5}).id
f = io.BytesIO()
b.output(f)
from pv.pdfread import Pdf
r = Pdf(f.getvalue()).root
assert r.get('A') == 5 and r.get('B') == -5 and r.get('C') == -0.5, r
''')

seed('c03-break-resume', 'C03', 'a paragraph whose rectangle ends right after a line break, after a line with several words',
     'the position inside the part is kept after a line break, so words are skipped when the paragraph continues',
     [(T, "                    self.last_part_added = part_index + 1\n                    self.last_word_added = 0\n",
       "                    self.last_part_added = part_index + 1\n")],
     '''
pdf = PDF(page_size=(200, 60), margin=10, font_size=10)
pdf.add_page()
pdf.text(['a b c d\\ne f g h\\ni j k l\\nm n o p\\nq r s t\\nu v w x'], line_height=1.2)
got = ' '.join(t for p in view(out(pdf)) for y, t in lines(p)).split()
assert got == list('abcdefghijklmnopqrstuvwx'), got
''')

seed('c04-first-line-height', 'C04', 'a paragraph with line height other than 1 that needs a second rectangle',
     'the first line of the second and following rectangles is separated from the top of the rectangle as if there were a line above',
     [(T, "        self.first_line_added = False\n", "")
      , (T, "        self.finished = False\n        self.is_first_line = True\n", "        self.finished = False\n        self.first_line_added = False\n        self.is_first_line = True\n")],
     '''
from pdfme.text import PDFText
pdf = PDF(page_size=(300, 300), margin=0)
pdf.add_page()
t = PDFText({'.s:10': 'aaa ' * 40}, 100, 50, 10, 200, fonts=pdf.fonts, pdf=pdf, line_height=1.5)
h = []
while not t.finished:
    t.run(10, 200, 100, 50)
    h.append(t.current_height)
assert len(h) > 2 and all(abs(x - h[0]) < 0.01 for x in h[:-1]) and abs(h[0] - 41.5) < 0.01, h
''')

seed('c05-font-size', 'C05', 'two consecutive parts of a paragraph whose sizes differ by less than a point',
     'the change of size is not written, so the second text is drawn with the size of the first',
     [(T, "            self.font_mode != other.font_mode or self.size != other.size\n",
       "            self.font_mode != other.font_mode or\n            int(self.size) != int(other.size)\n")],
     '''
pdf = PDF()
pdf.add_page()
pdf.text({'.': [{'.s:10': 'aaa '}, {'.s:10.6': 'bbb '}, {'.s:12': 'ccc'}]})
got = {t.text.strip(): t.size for t in view(out(pdf))[0].texts if t.text.strip()}
assert got == {'aaa': 10, 'bbb': 10.6, 'ccc': 12}, got
''')

seed('c05-background-next-page', 'C05', 'a paragraph with a background that continues on another page',
     'the color of the background is not set again, so it is drawn in black on the following page',
     [(T, "        self.last_state = self.last_factor = self.last_fill = None\n", "        self.last_state = self.last_factor = None\n"),
      (T, "        self.finished = False\n        self.is_first_line = True\n", "        self.finished = False\n        self.last_fill = None\n        self.is_first_line = True\n")],
     '''
pdf = PDF(page_size=(200, 100), margin=10)
pdf.add_page()
pdf.text({'.bg:#ff0000': 'aaa ' * 100})
pages = view(out(pdf))
assert len(pages) > 1
for p in pages:
    assert p.rects and all(tuple(r[4]) == (1, 0, 0) for r in p.rects), [r[4] for r in p.rects]
''')

seed('c06-uri-page', 'C06', 'two links whose addresses differ only after the first 40 characters',
     'long addresses are shortened when used as a key, so the second link leads to the first address',
     [(PD, "                link = id_[5:]\n                if not link in self.uris:\n", "                link = id_[5:]\n                key = link[:40]\n                if not key in self.uris:\n"),
      (PD, "                    self.uris[link] = uri.id\n", "                    self.uris[key] = uri.id\n"),
      (PD, "                        self.uris[link],\n", "                        self.uris[key],\n")],
     '''
pdf = PDF()
pdf.add_page()
u = 'https://example.com/a/long/path/of/a/document?page='
pdf.text({'.': [{'.': 'one', 'uri': u + '1'}, ' ', {'.': 'two', 'uri': u + '2'}]})
data = out(pdf)
assert (u + '1').encode() in data and (u + '2').encode() in data
''')

seed('c06-annots-alias', 'C06', 'a page with at least one link followed by other pages with links',
     'the list of annotations is shared by the pages, so links are clickable on other pages',
     [(PG, "        if not 'Annots' in self.page:\n            self.page['Annots'] = []\n", "        if not 'Annots' in self.page:\n            self.page['Annots'] = self.annots\n"),
      (PG, "class PDFPage:\n", "class PDFPage:\n    annots = []\n")],
     '''
pdf = PDF()
for i in range(3):
    pdf.add_page()
    pdf.text({'.': [{'.': 'link%d' % i, 'uri': 'http://example.com/%d' % i}]})
n = [len(p.annots) for p in view(out(pdf))]
assert n == [1, 1, 1], n
''')

seed('c07-rowspan-resume', 'C07', 'a cell with a row span whose text continues on the next page after the rows it spans were partly shown',
     'the rows already shown are not subtracted from the span, so the cell covers rows below it',
     [(TB, "        rowspan = element.get('rowspan', 1) - 1 - self.current_index + \\\n            row_added\n", "        rowspan = element.get('rowspan', 1) - 1\n")],
     '''
pdf = PDF(page_size=(300, 100), margin=10, font_size=8)
pdf.add_page()
pdf.table([[{'rowspan': 3, '.': 'aaa ' * 400}, 'b ' * 120], [None, 'c ' * 150], [None, 'd'], ['e', 'f'], ['g', 'h']])
words = ''.join(t for p in view(out(pdf)) for y, t in lines(p)).replace(' ', '')
for l in 'efgh':
    assert words.count(l) == 1, (l, words.count(l))
''')

seed('c07-bottom-padding', 'C07', 'a cell with a row span above a thick border',
     'the padding of the cell takes the border below its first row instead of the one below its last row',
     [(TB, "            self.current_index + rowspan + 1, col, False\n", "            self.current_index + 1, col, False\n")],
     '''
def height(rs):
    pdf = PDF(page_size=(300, 800), margin=10, font_size=8)
    pdf.add_page()
    t = pdf._table([[{'rowspan': 2, '.': 'aaa ' * 60}, 'b'], [None, 'c'], ['d', 'e']], x=10, y=10, width=100, height=700,
                   borders=[{'pos': 'h2;0', 'width': 20}, {'pos': 'h1;:', 'width': rs}])
    return t.current_height
# the border between the spanned rows is not under the spanning cell
assert abs(height(0.5) - height(9)) < 0.01, (height(0.5), height(9))
''')

seed('c08-line-style', 'C08', 'two adjacent border segments that differ only in their line style',
     'segments with a different line style are merged, and the second one gets the style of the first',
     [(TB, "for attr in ['width', 'color', 'style'])", "for attr in ['width', 'color'])")],
     '''
pdf = PDF(page_size=(300, 300), margin=10)
pdf.add_page()
pdf.table([['a', 'b', 'c']], borders=[{'pos': 'h0;1', 'style': 'dashed'}])
p = view(out(pdf))[0]
top = 290
n = [bool(l[6][0]) for l in sorted(p.lines) if abs(l[1] - top) < .01 and abs(l[3] - top) < .01]
assert n == [False, True, False], p.lines
''')

seed('c09-delayed-alias', 'C09', 'a nested multi-column box, in a multi-column box, that moves to the next column with a delayed image',
     'the list of delayed elements saved for the section is emptied while they are added, so they are lost when the columns are balanced again',
     [(C, "                self.section_element_index = self.element_index\n                self.section_delayed = copy(self.delayed)\n",
       "                self.section_element_index = self.element_index\n                self.section_delayed = self.delayed\n")],
     '''
from pv.pdfread import Pdf
def jpg(w, h):
    return io.BytesIO(bytes.fromhex('ffd8ffe000104a46494600010100000100010000ffc00011' '08') + h.to_bytes(2, 'big') + w.to_bytes(2, 'big')
                      + bytes.fromhex('030111000211000311' '00ffda000c03010002000300003f0000ffd9'))
for h in range(60, 400, 7):
    for n in (20, 60, 110):
        for m in (1, 40):
            pdf = PDF(page_size=(240, h), margin=10, font_size=8)
            pdf.add_page()
            pdf.content({'cols': {'count': 2}, 'content': [
                'aa ' * n, {'cols': {'count': 2}, 'content': [
                    'bb ' * n, {'image': jpg(100, 60), 'extension': 'jpg', 'image_name': 'i'}, 'cc ' * m]}, 'dd ' * m]})
            pages = view(out(pdf))
            t = ''.join(q.text for p in pages for q in p.texts)
            assert t.count('a') == 2 * n and t.count('b') == 2 * n and t.count('c') == 2 * m and t.count('d') == 2 * m, (h, n, m)
            assert sum(len(p.images) for p in pages) == 1, (h, n, m)
''')

