exec(open('/verif/tools/seeds/batch2.py').read().split("seed('c10-gap-three'")[0])

seed('c14-hundred', 'C14', 'a document with more than a hundred footnotes',
     'the footnotes after the hundredth are taken for the one of their first two digits, so a wrong text is shown at the bottom of the page',
     [(D, "                index = int(id_[10:])\n", "                index = int(id_[10:12])\n")],
     '''
d = view(build({'style': {'page_size': (300, 400), 'margin': 10, 's': 8}, 'sections': [{'content': [
    {'.': ['word %d' % k, {'footnote': 'note%d' % k}]} for k in range(130)]}]}))
shown = ''.join(''.join(c[0] for c in t.chars) for p in d for t in p.texts)
lost = [k for k in range(130) if 'note%d' % k not in shown]
assert not lost, lost
''')

seed('c05-underline-under', 'C05', 'a text with an underline and a background',
     'the background is painted after the underline of the text, and hides it',
     [(T, """        graphics = ''
        if part.background is not None and not part.background.color is None:
            if part.background != self.last_fill:
                self.last_fill = part.background
                graphics += ' ' + str(self.last_fill)

            graphics += ' {} {} {} {} re F'.format(
                round(x, 3),
                round(y + part.state.rise - part.state.size*0.25, 3),
                round(part_width, 3), round(part.state.size*1.2, 3)
            )

""", "        graphics = ''\n"),
      (T, """                round(x, 3), y_u, round(x + part_width, 3), y_u
            )

        return graphics
""", """                round(x, 3), y_u, round(x + part_width, 3), y_u
            )

        if part.background is not None and not part.background.color is None:
            if part.background != self.last_fill:
                self.last_fill = part.background
                graphics += ' ' + str(self.last_fill)

            graphics += ' {} {} {} {} re F'.format(
                round(x, 3),
                round(y + part.state.rise - part.state.size*0.25, 3),
                round(part_width, 3), round(part.state.size*1.2, 3)
            )

        return graphics
""")],
     '''
d = view(build({'style': {'page_size': (300, 200), 'margin': 10, 's': 8}, 'sections': [{'content': [
    {'.u': 'text', 'style': {'bg': 'yellow'}}]}]}))
rect, line = d[0].rects[0], d[0].lines[0]
assert rect[-1] < line[-1], (rect, line)
''')
