exec(open('/verif/tools/seeds/batch2.py').read().split("seed('c10-gap-three'")[0])

seed('c03-no-break', 'C03', 'words with no-break spaces',
     'paragraphs are split at every kind of space, so words joined by no-break spaces are separated and their characters replaced',
     [(T, "re.split('( +)', words)", "re.split(r'(\\s+)', words)")],
     '''
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
pdf.text('10\\xa0km and 5\\xa0\\xa0m')
d = view(out(pdf))
assert ''.join(t.text for t in d[0].texts) == '10\\xa0km and 5\\xa0\\xa0m', [t.text for t in d[0].texts]
''')

seed('c07-span-right-border', 'C07', 'a cell that spans columns, with an inner line of another width than the one at its right',
     'the padding of the cell takes the border at the right of its first column',
     [(TB, "            self.current_index, col + colspan + 1, True\n", "            self.current_index, col + 1, True\n")],
     '''
def width(w):
    pdf = PDF(page_size=(220, 200), margin=10)
    pdf.add_page()
    pdf.table([[{'colspan': 2, '.': 'aa', 'style': {'text_align': 'r'}}, None]], borders=[{'pos': 'v:;1', 'width': w}])
    p = view(out(pdf))[0]
    return max(c[2] for t in p.texts for c in t.chars)
assert abs(width(0.5) - width(14)) < 0.01, (width(0.5), width(14))
''')

seed('c14-formats', 'C14', 'a document that redefines the format of the footnote marks',
     'the default formats of footnotes replace the ones of the document',
     [(D, "        self.pdf.formats['$footnote'] = {'r': 0.5, 's': 6}\n        self.pdf.formats['$footnotes'] = {'s': 10, 'c': 0}\n        self.pdf.formats.update(document.get('formats', {}))\n",
       "        self.pdf.formats.update(document.get('formats', {}))\n        self.pdf.formats['$footnote'] = {'r': 0.5, 's': 6}\n        self.pdf.formats['$footnotes'] = {'s': 10, 'c': 0}\n")],
     '''
d = view(build({'style': {'page_size': 200, 'margin': 10}, 'formats': {'$footnotes': {'s': 7}}, 'sections': [{'content': [{'.': ['a', {'footnote': 'note'}]}]}]}))
t = [t for t in d[0].texts if t.text == 'note'][0]
assert t.size == 7, t.size
''')

seed('c06-own-ids', 'C06', 'a part with ids inside a part that is a link',
     'the ids of a part replace the links and tags of the parts around it',
     [(T, "        text_part['ids'].extend(content.get('ids', []))\n", "        text_part['ids'] = list(content.get('ids', text_part['ids']))\n")],
     '''
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
pdf.text([{'uri': 'http://a', '.': ['one ', {'.b': 'two', 'ids': ['t']}, ' three']}])
p = view(out(pdf))[0]
right = max(c[2] for t in p.texts for c in t.chars)
three = [t for t in p.texts if 'three' in t.text][0]
assert any(a['Rect'][0] <= three.chars[-1][1] and a['Rect'][2] >= three.chars[-1][2] - 0.05 for a in p.annots), p.annots
two = [t for t in p.texts if 'two' in t.text][0]
assert any(a['Rect'][0] <= two.chars[0][1] + 0.05 and a['Rect'][2] >= two.chars[2][2] - 0.05 for a in p.annots), p.annots
''')

seed('c05-list-style', 'C05', 'a list marker whose style differs from the one of its paragraph',
     'the style of the paragraph wins over the one of the list marker',
     [(T, "        style.update(self.list_style)\n        line_part", "        style = dict(self.list_style, **style)\n        line_part")],
     '''
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
pdf.text('aaa', list_text='1. ', list_style={'b': True, 's': 14, 'c': 'red'})
t = view(out(pdf))[0].texts[0]
assert (t.size, t.color, t.font) == (14, (1, 0, 0), 'Helvetica-Bold'), (t.size, t.color, t.font)
''')
