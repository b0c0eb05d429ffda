exec(open('/verif/tools/seeds/batch2.py').read().split("seed('c10-gap-three'")[0])

seed('c24-late-margin', 'C24', 'add_page with a margin that is not allowed',
     'the page is already part of the document when its margin is refused',
     [(PD, "        margin_ = copy(self.margin)\n        if margin is not None:\n            margin_.update(parse_margin(margin))\n\n        page = PDFPage(self.base, page_width, page_height,\n            **{'margin_' + side: value for side, value in margin_.items()}\n        )\n\n        self.pages.append(page)\n",
       "        page = PDFPage(self.base, page_width, page_height)\n        self.pages.append(page)\n        margin_ = copy(self.margin)\n        if margin is not None:\n            margin_.update(parse_margin(margin))\n        for side, value in margin_.items():\n            setattr(page, 'margin_' + side, value)\n")],
     '''
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
try:
    pdf.add_page(margin=lambda: 3)
except Exception:
    pass
pdf.text('aa')
d = view(out(pdf))
assert len(d) == 1, len(d)
''')

seed('c24-short-row', 'C24', 'a row, not the first one, with fewer cells than the others',
     'rows with fewer cells are accepted, and the following cells and borders are missing',
     [(TB, "        if not len(row) == self.cols_count:\n", "        if len(row) > self.cols_count:\n")],
     '''
try:
    build({'style': {'page_size': 200, 'margin': 10}, 'sections': [{'content': [{'table': [['a', 'b', 'c'], ['d', 'e', 'f'], ['g', 'h']]}]}]})
except Exception:
    sys.exit(0)
raise SystemExit('a row with two cells in a table of three columns was accepted')
''')

seed('c24-group-group', 'C24', 'a group inside a group',
     'the groups inside of a group are ignored, and their contents lost, without an error',
     [(C, "        else:\n            raise Exception(\n                'Element not allowed in a group element: {}'.format(element)\n            )\n",
       "        elif 'group' not in element:\n            raise Exception(\n                'Element not allowed in a group element: {}'.format(element)\n            )\n        return {'height': 0}\n")],
     '''
try:
    data = build({'style': {'page_size': 200, 'margin': 10}, 'sections': [{'content': ['x', {'group': ['a', {'group': ['b', 'c']}]}]}]})
except Exception:
    sys.exit(0)
t = ''.join(t.text for p in view(data) for t in p.texts)
assert t == 'xabc', t
''')

seed('c24-flag-value', 'C24', 'a style string where a flag has a value that is not 0 or 1',
     'any value other than 1 is read as 0',
     [(U, "                elif value == '0':\n                    style[attr] = False\n                else:\n", "                elif value == '0' or value.isdigit():\n                    style[attr] = False\n                else:\n")],
     '''
try:
    build({'style': {'page_size': 200, 'margin': 10}, 'sections': [{'content': [{'.b:2': 'aa'}]}]})
except Exception:
    sys.exit(0)
raise SystemExit('b:2 was accepted')
''')

seed('c09-group-first', 'C09', 'a group that has to wait for its place while an image is already waiting',
     'groups that wait go before the images that wait, so they are shown out of order',
     [(C, "                self.delayed.append(ret['delayed'])\n",
       "                self.delayed.insert(\n                    0 if 'group' in ret['delayed'] else len(self.delayed),\n                    ret['delayed']\n                )\n")],
     '''
jpg = bytes.fromhex('ffd8ffe000104a46494600010100000100010000ffc0001108006400640301110002110003110' '0ffda000c03010002000300003f0000ffd9')
img = lambda n: {'image': io.BytesIO(jpg), 'extension': 'jpg', 'image_name': 'x%d' % n}
d = view(build({'style': {'page_size': (120, 170), 'margin': 10, 's': 8}, 'sections': [{'content': [
    'a\\nb\\nc\\nd\\ne\\nf', img(1), {'group': ['p' + '\\nq' * 5, 'u' + '\\nv' * 5]}, 'z']}]}))
i = [n for n, p in enumerate(d) if p.images][0]
p = d[i]
g = [(n, t.y) for n, pp in enumerate(d) for t in pp.texts if t.text == 'p'][0]
assert g[0] > i or (g[0] == i and g[1] < p.images[0][1]), (i, g, p.images)
''')

seed('c04-lowered-sum', 'C04', 'a line with two or more lowered parts',
     'the space under the line is the sum of what its parts are lowered, and not the biggest',
     [(T, "            if part.state.rise < 0 and -part.state.rise > bottom:\n                bottom = -part.state.rise\n", "            if part.state.rise < 0:\n                bottom += -part.state.rise\n")],
     '''
def pitch(parts):
    pdf = PDF(page_size=200, margin=10)
    pdf.add_page()
    pdf.text(parts + [' ' + 'w' * 20])
    ys = lines(view(out(pdf))[0])
    return ys[0][0] - [y for y, t in ys if 'ww' in t][0]
low = lambda t: {'.': t, 'style': {'r': -0.5}}
a = pitch(['aa ', low('bb')])
b = pitch(['aa ', low('bb '), 'cc ', low('dd')])
assert abs(a - b) < 0.01, (a, b)
''')

seed('c13-back', 'C13', 'going back to a previous page and writing its number there',
     'the page number is only updated when going to a new page',
     [(PD, "        self._page_index = page_index\n        self.context['$page'] = self.get_page_number()\n",
       "        is_new = page_index >= getattr(self, '_page_index', 0)\n        self._page_index = page_index\n        if is_new:\n            self.context['$page'] = self.get_page_number()\n")],
     '''
pdf = PDF(page_size=200, margin=10)
for i in range(3):
    pdf.add_page()
pdf.page_index = 1
pdf.text(['page ', {'var': '$page'}])
d = view(out(pdf))
assert ''.join(t.text for t in d[1].texts) == 'page 2', [t.text for t in d[1].texts]
''')

seed('c07-top-padding', 'C07', 'a horizontal line whose width differs from the default one',
     'the padding over the contents of a cell is the one of the default border',
     [(TB, "        padd_y_top = border_top.get('width', 0) / 2 + \\\n", "        padd_y_top = self.default_border['width'] / 2 + \\\n")],
     '''
def top(w):
    pdf = PDF(page_size=200, margin=10)
    pdf.add_page()
    pdf.table([['aa', 'b'], ['c', 'd']], borders=[{'pos': 'h1;', 'width': w}])
    return [t.y for t in view(out(pdf))[0].texts if t.text == 'c'][0]
assert abs(top(0.5) - top(20.5) - 20) < 0.1, (top(0.5), top(20.5))     # half over, half under the line
''')

seed('c24-widths-more', 'C24', 'more widths than columns',
     'the widths left over are taken into account, so the table does not fill its width',
     [(TB, "            if len(widths) != self.cols_count:\n", "            if len(widths) < self.cols_count:\n")],
     '''
pdf = PDF(page_size=200, margin=10)
pdf.add_page()
try:
    pdf.table([['aa', 'b'], ['c', 'd']], widths=[1, 2, 3])
except Exception:
    sys.exit(0)
raise SystemExit('three widths for two columns were accepted')
''')
