exec(open('/verif/tools/seeds/batch2.py').read().split("seed('c10-gap-three'")[0])

seed('c04-many-parts', 'C04', 'a line of more than six parts, where a later one is the largest',
     'the height of a line is computed from its first parts only, so a large part after them goes over the line above',
     [(T, "        height_ = 0\n        for part in self.line_parts:\n", "        height_ = 0\n        for part in self.line_parts[:6]:\n")],
     '''
parts = [{'.': c * 2} for c in 'abcdefgh'] + [{'.': 'ii', 'style': {'s': 30}}]
d = view(build({'style': {'page_size': 400, 'margin': 10, 's': 8}, 'sections': [{'content': ['first line', {'.': parts}]}]}))
y = {t.text.strip(): t.y for t in d[0].texts}
top = max(t.y for t in d[0].texts)
low = min(t.y for t in d[0].texts)
assert top - low > 30, (top, low)
''')

seed('c14-first-width', 'C14', 'three footnotes or more in a page that is not as wide as the first one',
     'the footnotes of the page are broken in the width of the first page, so the space reserved for them is not the one they take, and they go below the bottom margin',
     [(D, "            content, self.width, self.height, self.x, self.y\n        )\n        footnote_obj.run()",
       "            content, self.width if len(page_footnotes) < 3\n            else self.pdf.pages[0].content_width, self.height, self.x, self.y\n        )\n        footnote_obj.run()")],
     '''
def note(k):
    return {'.': [k, {'footnote': 'word ' * 30 + 'end'}]}
d = view(build({'style': {'margin': 10, 's': 8}, 'sections': [
    {'style': {'page_size': (500, 300)}, 'content': [note('A')]},
    {'style': {'page_size': (200, 400)}, 'content': [note('B'), note('C'), note('D')]}]}))
low = min(t.y for t in d[1].texts if t.text.strip())
assert abs(low - 10) < 0.1, low
''')

seed('c16-image-name', 'C16', 'more than 50 objects between two images of the same page',
     'the names of the images in a page are taken from their object numbers modulo 50, so one of two images is shown twice and the other is lost',
     [(PG, "            image_id = 'Im{}'.format(len(self.page['Resources']['XObject']))", "            image_id = 'Im{}'.format(image_obj_id % 50)")],
     '''
head = bytes.fromhex('ffd8ffe000104a46494600010100000100010000ffc00011080002')
tail = bytes.fromhex('0301110002110003110' '0ffda000c03010002000300003f0000ffd9')
pdf = PDF(page_size=700, margin=10)
pdf.add_page()
for k in range(120):
    pdf.image(io.BytesIO(head + bytes([1, k]) + tail), 'jpg', 'i%d' % k, width=4)
data = out(pdf)
d = view(data)
used = {q[4] for q in d[0].images}
assert len(used) == 120, len(used)
''')

seed('c23-image-tall', 'C23', 'PDF.image with a height that makes the image wider than the contents of the page',
     'the width is limited but not the height, so the proportion of the image is lost',
     [(PD, "        elif width is None:\n            width = height * w/h\n", "        elif width is None:\n            width = min(height * w/h, self.page.content_width)\n")],
     '''
jpg = bytes.fromhex('ffd8ffe000104a46494600010100000100010000ffc0001108006400c80301110002110003110' '0ffda000c03010002000300003f0000ffd9')
pdf = PDF(page_size=200, margin=20)
pdf.add_page()
pdf.image(io.BytesIO(jpg), 'jpg', 'x', x=0, y=10, height=100)
q = view(out(pdf))[0].images[0]
assert abs(q[2] - 200) < 0.01 and abs(q[3] - 100) < 0.01, q
''')
