"""C14: footnotes are shown once, on the page of their mark, in order."""
import itertools
import re

from mc.engine import Family
from mc.box import *
from mc import nav

PROPERTY = 'C14'
EXPLANATION = (
    'Bounded exhaustive enumeration of documents whose paragraphs, tables, columns, nested boxes, groups and lists carry footnote marks, '
    'over page heights, footnote lengths and forms.  On every page the marks painted, their numbers, the footnotes at the bottom, their order '
    'and numbers, their position and the space left to the contents are compared; contents are conserved.')
ASSUMPTIONS = ['the footnotes of a page and one line of text fit together in a page']
W = 300.0
MARGIN = 10
FOOT = 10       # size of footnotes
NL = {0: 4, 1: 30, 2: 60}     # letters pairs of short and long footnotes


class Build:
    def __init__(self, foots, forms):
        self.foots = foots      # cycle of lengths
        self.forms = forms
        self.marks = []         # anchor letters in order
        self.text = []          # body chars in order of the elements
        self.nimg = 0
        self.links = set()

    def linked(self, a):
        return a in self.links

    def mark(self):
        """[anchor, footnote]"""
        k = len(self.marks)
        a = LETTERS[26 + k]
        l = LETTERS[k]
        self.marks.append(a)
        n = NL[self.foots[k % len(self.foots)]]
        t = ' '.join([l * 2] * n)
        form = self.forms[k % len(self.forms)]
        f = {'s': t, 'l': [t], 'b': {'.b': t}, 'd': {'.': [t], 'style': {'text_align': 'r'}}, 'n': {'.': t, 'style': 'named'},
             'p': [t[:3], {'.i': t[3:]}], 't': (t[:3], {'.b': (t[3:],)})}[form]
        self.text.append(a)
        return [a, {'footnote': f}]

    def fill(self, n, ch='='):
        self.text.append(ch * n)
        return ch * n

    def words(self, n):
        self.text.append('==' * n)
        return ' '.join(['=='] * n) + ' '

    def el(self, k):
        if k == 'o':
            return {'.': self.fill(3)}
        if k == 'p':
            return {'.': [self.fill(2), *self.mark(), self.fill(1)]}
        if k == 'q':
            return {'.': [*self.mark(), ' ', *self.mark()]}
        if k == 'e':
            return [self.fill(2), {'.b': self.mark()}]
        if k == 'u':
            return (self.fill(2), {'.b': tuple(self.mark())})
        if k == 'v':
            return {'table': ((tuple(self.mark()), {'.': (self.fill(1), *self.mark())}),), 'style': {'cell_margin': 1}}
        if k == 'P':
            return {'.': [self.words(8), *self.mark(), ' ', self.words(100), *self.mark(), ' ', self.words(60), *self.mark()], 'style': {'text_align': 'j'}}
        if k == 'l':
            return {'.': [self.words(40), *self.mark(), ' ', self.words(3)], 'style': {'list_text': '- '}}
        if k == 't':
            return {'table': [[{'.': self.mark()}, {'.': [self.fill(2), *self.mark()]}]], 'style': {'cell_margin': 1}}
        if k == 'T':
            return {'table': [[{'.': [self.words(60), *self.mark()]}, {'.': [*self.mark(), self.fill(4)]}]], 'style': {'cell_margin': 1}}
        if k == 'r':
            return {'table': [[{'.': self.mark()}], [{'.': self.fill(2)}], [{'.': self.mark()}]], 'style': {'cell_margin': 0}}
        if k == 'c':
            return {'cols': {'count': 2}, 'content': [{'.': self.mark()}, {'.': self.fill(3)}, {'.': self.mark()}, {'.': self.fill(2)}]}
        if k == 'n':
            return {'content': [{'.': self.mark()}, {'content': [{'.': self.mark()}]}]}
        if k == 'g':
            return {'group': [{'.': self.fill(2)}, {'.': self.mark()}]}
        if k == 'G':
            return {'group': [{'.': self.fill(2)}, {'.': self.mark()}, {'.': self.words(60)}]}
        if k == 'i':
            self.nimg += 1
            return {'image': jpg_io(1000 + self.nimg, 120), 'extension': 'jpg', 'image_name': 'i%d' % self.nimg}
        if k == 'V':    # the number of its page, twice
            return {'.': [self.words(40), {'.': [{'var': '$page'}], 'style': {'s': 7}}, ' ', self.words(50), *self.mark(), {'.': ['.', {'var': '$page'}], 'style': {'s': 7}}]}
        if k in 'LM':
            a = LETTERS[26 + len(self.marks)]
            self.links.add(a)
            before = self.words(20 if k == 'L' else 1)
            part = {'.': self.mark(), 'label': 'l' + a, 'uri': 'http://' + a, 'outline': {'text': a}}
            return {'.': [before, part, self.fill(2)]} if k == 'L' else {'table': [[{'.': [before, part]}, {'.': self.fill(2)}]], 'style': {'cell_margin': 1}}
        if k == 'x':
            return {'table': [[{'content': [{'.': self.mark()}, {'table': [[{'.': self.mark()}]]}]}]], 'style': {'cell_margin': 1}}
        raise ValueError(k)


def footnote_lines(p, pi, foot, left, right, r):
    """the numbers are at the left margin; the lines are between the margins, and could not take one word more"""
    ends = {(id(t), x0): x1 for t in p.texts for ch, x0, x1 in t.chars}
    rows, indent, digits = {}, {}, 0
    for k, (ch, x, y, t) in enumerate(foot):
        if ch.isdigit():
            if not digits and not r.expect(near(x, left, 0.02), 'footnote-number-x', lambda: 'page %d: number at %.2f, left margin %.2f' % (pi, x, left)):
                return False
            digits += 1
            continue
        if digits:
            indent[ch] = (digits * 0.556 + 0.278) * 6
            digits = 0
        rows.setdefault(round(y, 2), []).append((x, ends[id(t), x], ch, t.size))
    rows = [sorted(rows[y]) for y in sorted(rows, reverse=True)]
    for a, b in zip(rows, rows[1:] + [None]):
        ch, x0, x1 = a[0][2], a[0][0], max(q[1] for q in a)
        lo = left + indent[ch]
        if not r.expect(x0 > lo - 0.02 and x1 < right + 0.02, 'footnote-inside', lambda: 'page %d: line from %.2f to %.2f, expected inside of %.2f to %.2f' % (pi, x0, x1, lo, right)):
            return False
        if b and b[0][2] == ch:
            word = b[1][1] - b[0][0] + 0.278 * b[0][3]
            if not r.expect(x1 - x0 + word > right - lo - 0.02, 'footnote-width', lambda: 'page %d: a line of %.2f in %.2f could take the next word, of %.2f' % (pi, x1 - x0, right - lo, word)):
                return False
    return True


def verify(seq, cols, h, foots, forms, r, sections=1, styles=(), per_page=(), geo=None, extra=None):
    b = Build(foots, forms)
    secs = []
    for k in range(sections):
        s = {'content': [b.el(k) for k in seq]}
        if styles:
            s['style'] = dict(styles[k % len(styles)])
        if cols > 1:
            s['cols'] = {'count': cols}
        secs.append(s)
    doc = {'style': {'s': 8, 'page_size': (W + 2 * MARGIN, h + 2 * MARGIN), 'margin': MARGIN}, 'sections': secs,
           'formats': {'named': {'c': 'red'}}}
    if per_page:
        doc['per_page'] = per_page
    if extra:
        doc.update(extra)
        for q in secs:
            q['running_sections'] = sorted(extra['running_sections'])
    try:
        d = view(doc)
    except Exception as e:
        # the documented refusal, when the footnotes are more than a page can take
        total = 30 + sum(5 + 11.1 * (1 + NL[foots[k % len(foots)]] // (7 if geo else 12)) for k in range(len(b.marks)))
        if 'very large' in str(e) and total > h:
            r.state('refused')
            return
        raise
    r.trans += len(d.pages)
    body_all = []
    mark_page = {}
    foot_page = {}
    shown_marks = []
    images = 0
    for pi, p in enumerate(d.pages):
        images += len(p.images)
        top_m, right_m, bottom_m, left_m = geo[p.width, p.height] if geo else (MARGIN,) * 4
        sep = [l for l in p.lines if near(l[0], left_m) and near(l[2], left_m + 150) and near(l[1], l[3])]
        cs = [c for c in chars(p) if not extra or c[3].size not in (5, 7)]
        body, foot = [], []
        for c in cs:
            # footnotes and their numbers use lower case and small digits below the separator
            (foot if sep and c[2] < sep[-1][1] else body).append(c)
        txt = ''.join(c[0] for c in body)
        if re.search('[a-z]', txt):
            r.fail('footnote-place', 'page %d: footnote text %r above the separator' % (pi, txt))
            return
        marks = re.findall(r'([A-Z])(\d*)', txt)
        for a, n in marks:
            if a in mark_page:
                r.fail('mark-repeated', 'mark %s on pages %d and %d' % (a, mark_page[a], pi))
                return
            mark_page[a] = pi
        body_all.append(re.sub(r'\d', '', txt))
        ft = ''.join(c[0] for c in foot)
        notes = re.findall(r'(\d+)([a-z]+)', ft)
        if re.sub(r'(\d+)([a-z]+)', '', ft):
            r.fail('footnote-text', 'page %d: %r' % (pi, ft))
            return
        # the separator of a page without footnotes must not be there
        r.expect(bool(sep) == bool(notes), 'separator', lambda: 'page %d: %d separators, footnotes %s' % (pi, len(sep), notes))
        want_n = [str(k + 1) for k in range(len(marks))]
        if not r.expect([n for a, n in marks] == want_n, 'mark-numbers', lambda: 'page %d: marks %s' % (pi, marks)):
            return
        if not r.expect([n for n, t in notes] == want_n, 'footnote-numbers', lambda: 'page %d: marks %s, footnotes %s' % (pi, marks, [(n, t[:3]) for n, t in notes])):
            return
        for (a, n), (m, t) in zip(marks, notes):
            k = b.marks.index(a)
            full = LETTERS[k] * 2 * NL[foots[k % len(foots)]]
            if not r.expect(t == full, 'footnote-of-mark', lambda: 'page %d: mark %s%s, footnote %r (%d chars), expected %r (%d)' % (pi, a, n, t[:4], len(t), full[:4], len(full))):
                return
            foot_page[a] = pi
        for c in body:
            if c[0].isdigit():
                r.expect(near(c[3].size, 6, 0.001) and near(c[3].rise, 3, 0.001), 'mark-style', lambda: 'page %d: mark drawn with size %s, rise %s' % (pi, c[3].size, c[3].rise))
        ph = p.height
        if foot:
            # bottom anchored, stacked, below the contents
            low = min(c[2] for c in foot)
            r.expect(near(low, bottom_m, 0.03), 'footnote-bottom', lambda: 'page %d: last footnote line at %.3f, bottom margin %d' % (pi, low, bottom_m))
            if not footnote_lines(p, pi, foot, left_m, p.width - right_m, r):
                return
            top = max(c[2] for c in foot) + FOOT
            ys = sorted({round(c[2], 2) for c in foot if not c[0].isdigit()})
            r.expect(all(b2 - a2 > FOOT - 0.01 for a2, b2 in zip(ys, ys[1:])), 'footnote-overlap', lambda: 'page %d: %s' % (pi, ys))
            r.expect(top <= sep[-1][1] + 0.01, 'separator-place', lambda: 'page %d: separator at %.2f, footnotes start at %.2f' % (pi, sep[-1][1], top))
            lim = sep[-1][1]
        else:
            lim = bottom_m
        for c in body:
            if c[2] < lim - 0.02 or c[2] + c[3].size > ph - top_m + 0.02 and not c[0].isdigit():
                r.fail('contents-overlap', 'page %d: %r at %.2f, limit %.2f' % (pi, c[0], c[2], lim))
                return
        for q in p.images:
            r.expect(q[1] >= lim - 0.02, 'contents-overlap', lambda: 'page %d: image at %.2f, limit %.2f' % (pi, q[1], lim))
    if set(mark_page) != set(b.marks):
        r.fail('mark-lost', 'marks shown %s, expected %s' % (sorted(mark_page), b.marks))
        return
    got = ''.join(body_all)
    want = ''.join(b.text)
    if 'l' in seq:
        got = got.replace('-', '')
    if not r.expect(sorted(got) == sorted(want), 'contents-lost', lambda: 'shown %r, expected %r' % (got, want)):
        return
    r.expect(images == b.nimg, 'images-lost', lambda: '%d images, expected %d' % (images, b.nimg))
    if cols == 1 and not set(seq) & set('tTicvgGM'):
        r.expect(got == want, 'contents-order', lambda: 'shown %r, expected %r' % (got, want))
    r.compared += 1
    r.state(doc_digest(d))
    return d, b, mark_page


ALPHA = 'opqPltTrcngixeuv'


def gen_flow(tier):
    if tier == 'quick':
        for seq in seqs(ALPHA, 2, 1):
            for h in (90, 111, 150, 260):
                yield (''.join(seq), 1, h, (0,), 's')
        for seq in itertools.product('opPTic', repeat=3):
            for h in (90, 130):
                yield (''.join(seq), 1, h, (0, 1), 's')
    else:
        for seq in seqs(ALPHA, 3, 1):
            for h in (88, 93, 100, 111, 130, 150, 200, 260):
                yield (''.join(seq), 1, h, (0,), 's')
        for seq in itertools.product('opPTic', repeat=4):
            for h in (90, 111, 130, 170):
                yield (''.join(seq), 1, h, (0, 1), 's')


def run_flow(case, r):
    seq, cols, h, foots, forms = case
    # the footnotes that can meet on a page must fit it
    verify(seq, cols, h, foots, forms, r)


def gen_heights(tier):
    """every page height: the line of a mark, or its footnote, is the last that fits"""
    step = 1.5 if tier == 'quick' else 0.5
    for seq in ('oooopooo', 'ooopppoo', 'PP', 'opopopop', 'oTo', 'ooqooqoo', 'lpl', 'oocooc', 'ioppi', 'rror', 'oogppp', 'oooGpqp', 'oGpGpe', 'GqpG', 'ooGGpoq'):
        for foots in ((0,), (1, 0), (0, 1)):
            h = (125.0 if 1 in foots else 105) if 'G' in seq else 88.0 if 1 in foots else 75
            while h < 200:
                yield (seq, 1, h, foots, 's')
                h += step


def gen_cols(tier):
    for cols in (2, 3):
        for seq in seqs('opqPtcgi' if tier == 'quick' else 'opqPltTrcngi', 2 if tier == 'quick' else 3, 1):
            for h in ((95, 180) if tier == 'quick' else (95, 120, 180)):
                yield (''.join(seq), cols, h, (0,), 's')
        for seq in ('oooopooo', 'PPp', 'pppppp', 'PPPP', 'olplo'):
            for h in range(95, 200, 7 if tier == 'quick' else 2):
                yield (seq, cols, h, (0,), 's')


def gen_forms(tier):
    for seq in ('p', 'pp', 'opqp', 'Pt', 'uv'):
        for f in itertools.chain(itertools.product('slbdnpt', repeat=1), itertools.product('slbdnpt', repeat=2)):
            for foots in ((0,), (1,), (0, 1)):
                for h in (120, 200):
                    yield (seq, 1, h, foots, ''.join(f))


def gen_many(tier):
    """more than nine marks on a page, and many pages"""
    for n in range(1, 25):
        for k in ('p', 'q', 'e'):
            if n * (2 if k == 'q' else 1) <= 24:
                for h in (150, 420, 700):
                    yield (k * n, 1, h, (0,), 's', 1)
    for seq in ('pp', 'po', 'PP', 'q', 'tp'):
        for ns in (1, 2, 3, 4):
            for h in (90, 120, 300):
                yield (seq, 1, h, (0,), 's', ns)


def run_many(case, r):
    seq, cols, h, foots, forms, ns = case
    verify(seq, cols, h, foots, forms, r, sections=ns)


# -- pages of different sizes --------------------------------------------------------

SHEETS = [   # every sheet has its own size: (style, (width, height), margins top, right, bottom, left)
    ({'page_size': (320, 190), 'margin': 10}, (320, 190), (10, 10, 10, 10)),
    ({'page_size': (220, 260), 'margin': [30, 15, 40, 20]}, (220, 260), (30, 15, 40, 20)),
    ({'page_size': (430, 170), 'margin': [10, 60, 12, 35]}, (430, 170), (10, 60, 12, 35)),
    ({'page_size': (300, 240), 'margin': [5, 25, 15, 10], 'rotate_page': True}, (240, 300), (5, 25, 15, 10)),
]
GEO = {s: m for _, s, m in SHEETS}
# the rotated sheet is 240 wide
SEQS = ['p', 'pp', 'q', 'pq', 'qq', 'PP', 'pppp', 'qpT', 'lcq', 'ooooopoooooooooq', 'PqP']


def gen_sheets(tier):
    n = len(SHEETS)
    for seq in SEQS:
        for foots in ((0,), (1,), (0, 1)):
            for forms in ('s' if foots[0] else 'd',) if tier == 'quick' else ('s', 'd', 'l', 'bn'):
                for a in range(n):
                    for b in range(n):
                        yield (seq, foots, forms, (a, b), ())
                    for per in itertools.product([None, *range(n)], repeat=2 if tier == 'quick' else 3):
                        yield (seq, foots, forms, (a,), per)


def run_sheets(case, r):
    seq, foots, forms, sts, per = case
    per_page = [{'pages': str(k), 'style': dict(SHEETS[v][0])} for k, v in enumerate(per) if v is not None]
    for q in per_page:
        q['style'].setdefault('rotate_page', False)
    verify(seq, 1, 148, foots, forms, r, sections=len(sts), geo=GEO, per_page=per_page,
           styles=[dict({'rotate_page': False}, **SHEETS[k][0]) for k in sts])


# -- styles --------------------------------------------------------------------------

MARKS = [None, {'s': 5, 'r': 0.25}, {'c': 'red', 's': 6, 'r': 0.5}, {'b': True, 's': 7}, {'f': 'Courier', 's': 4.5, 'r': 0}]
NOTES = [None, {'s': 7}, {'s': 12, 'c': 'blue'}, {'f': 'Times', 'i': True}, {'s': 9, 'text_align': 'r'}]


def gen_formats(tier):
    for a, b in itertools.product(range(len(MARKS)), range(len(NOTES))):
        for own in range(3):
            for secs in (1, 2):
                for n in (1, 2, 3):
                    yield (a, b, own, secs, n)


def run_formats(case, r):
    """the marks have the format $footnote, the footnotes $footnotes and what their own style says"""
    a, b, own, secs, n = case
    fm = {k: dict(v) for k, v in (('$footnote', MARKS[a]), ('$footnotes', NOTES[b])) if v}
    fm['own'] = {'c': 'green', 's': 8}
    mine = [{}, {'c': 'green', 's': 8}, {'u': True, 'b': True}][own]

    def note(k):
        t = LETTERS[k] * 4
        return {'footnote': [t, {'.': t, 'style': 'own'}, {'.b;u': t}][own]}
    content = [{'.': [LETTERS[26 + k], note(k), '=']} for k in range(n)]
    d = view({'style': {'s': 8, 'c': 0.3, 'page_size': (W, 200), 'margin': MARGIN}, 'formats': fm,
              'sections': [{'content': [dict(e) for e in content]} for _ in range(secs)]})
    mk = dict({'s': 6, 'r': 0.5}, f='Helvetica', c=0.3) if MARKS[a] is None else dict({'f': 'Helvetica', 'c': 0.3, 's': 8}, **MARKS[a])
    nt = dict({'f': 'Helvetica', 's': 10, 'c': 0} if NOTES[b] is None else dict({'f': 'Helvetica', 's': 8, 'c': 0.3}, **NOTES[b]), **mine)
    num = dict(nt, **(MARKS[a] or {'s': 6, 'r': 0.5}))
    r.expect(len(d.pages) == secs, 'pages', lambda: '%d pages' % len(d.pages))
    for pi, p in enumerate(d.pages):
        low = [l for l in p.lines if near(l[2] - l[0], 150)][0][1]
        for ch, x, y, t in chars(p):
            st = nt if ch.islower() else None
            if ch.isdigit():
                st = num if y < low else mk
            if st is None:
                continue
            want = (st['s'], st.get('r', 0) * st['s'])
            r.expect(near(t.size, want[0], 0.001) and near(t.rise, want[1], 0.001), 'footnote-format',
                     lambda: 'page %d: %r drawn with size %s and rise %s, expected %s' % (pi, ch, t.size, t.rise, want))
            col = {'red': (1, 0, 0), 'blue': (0, 0, 1), 'green': (0, 0.504, 0)}.get(st['c'], (st['c'],))
            r.expect(tuple(t.color) == col, 'footnote-format', lambda: 'page %d: %r drawn in %s, expected %s' % (pi, ch, t.color, col))
            mode = ('b' if st.get('b') else '') + ('i' if st.get('i') else '')
            r.expect(t.font == FONT[st['f'], mode], 'footnote-format', lambda: 'page %d: %r drawn with %s' % (pi, ch, t.font))
    r.compared += 1
    r.trans += n
    r.state(doc_digest(d))


FONT = {('Helvetica', ''): 'Helvetica', ('Helvetica', 'b'): 'Helvetica-Bold', ('Courier', ''): 'Courier', ('Courier', 'b'): 'Courier-Bold',
        ('Times', 'i'): 'Times-Italic', ('Times', 'bi'): 'Times-BoldItalic', ('Courier', 'i'): 'Courier-Oblique', ('Courier', 'bi'): 'Courier-BoldOblique',
        ('Helvetica', 'i'): 'Helvetica-Oblique', ('Helvetica', 'bi'): 'Helvetica-BoldOblique', ('Times', ''): 'Times-Roman', ('Times', 'b'): 'Times-Bold'}

# -- with the other features of a document ------------------------------------------

ROMAN = 'i ii iii iv v vi vii viii ix x xi xii xiii xiv xv xvi xvii xviii xix xx'.upper().split()


def gen_features(tier):
    for seq in list(seqs('oPVLMtc', 2 if tier == 'quick' else 3, 1)) + list('VLo VVV PLVL LLLLLL MMMMM LcLcL VMVMV PPPPL ooLooVooM'.split()):
        seq = ''.join(seq)
        if len(seq) > 2 or set(seq) & set('VLM'):
            for cols in (1, 2) if tier == 'quick' else (1, 2, 3):
                for h in (100, 118, 171) if tier == 'quick' else (95, 100, 109, 118, 133, 171):
                    for opt in range(4):
                        yield (seq, cols, h, opt)


def run_features(case, r):
    seq, cols, h, opt = case
    head = {'x': 'left', 'y': 1, 'height': 8, 'style': {'s': 5}, 'content': [{'.': ['@', {'var': '$page'}, '@'], 'uri': 'http://head'} if opt & 1 else {'.': ['@', {'var': '$page'}, '@']}]}
    style = {'s': 8, 'page_size': (W + 2 * MARGIN, h + 2 * MARGIN), 'margin': MARGIN}
    off = 0
    if opt & 2:
        off = 7
        style.update(page_numbering_offset=off, page_numbering_style='roman')
    res = verify(seq, cols, h, (0,), 's', r, sections=1 if opt != 3 else 2, extra={'style': style, 'running_sections': {'head': head}})
    if not res:
        return
    d, b, mark_page = res
    for pi, p in enumerate(d.pages):
        num = ROMAN[pi + off] if opt & 2 and pi + off < len(ROMAN) else str(pi + 1 + off)
        if opt & 2 and pi + off >= len(ROMAN):
            continue
        small = ''.join(c[0] for c in chars(p) if c[3].size == 5)
        r.expect(small == '@%s@' % num, 'header', lambda: 'page %d: header %r, expected @%s@' % (pi, small, num))
        inner = [''.join(ch for ch, a, b in t.chars).strip(' .') for t in p.texts if t.size == 7]
        r.expect(all(x in ('', num) for x in inner), 'page-number', lambda: 'page %d: numbers %s, expected %s' % (pi, inner, num))
        at = {}
        for c in chars(p):
            if c[0].isupper() and c[3].size == 8:
                at.setdefault(c[0], (c[1], c[2]))
        got = {}
        for a in p.annots:
            got.setdefault(nav.link_target(d.pdf, a)[1], []).append(a['Rect'])
        want = {'http://' + a for a, pg in mark_page.items() if pg == pi and b.linked(a)} | ({'http://head'} if opt & 1 else set())
        r.expect(set(got) == want, 'links', lambda: 'page %d: links %s, expected %s' % (pi, sorted(got), sorted(want)))
        for k, rects in got.items():
            r.expect(len(set(map(tuple, rects))) == len(rects), 'links-repeated', lambda: 'page %d: %s %s' % (pi, k, rects))
            if k != 'http://head' and k[-1] in at:
                x, y = at[k[-1]]
                r.expect(any(q[0] - 0.02 <= x <= q[2] + 0.02 and q[1] <= y <= q[3] for q in rects), 'link-place', lambda: 'page %d: %s at %s, its mark at %s' % (pi, k, rects, (x, y)))
    ds = nav.dests(d)
    labels = [a for a in b.marks if b.linked(a)]
    r.expect(sorted(k for k in ds if k.startswith('l')) == sorted('l' + a for a in labels), 'labels', lambda: '%s' % sorted(ds))
    for a in labels:
        if 'l' + a in ds:
            r.expect(ds['l' + a][0] == mark_page[a], 'label-page', lambda: 'label of %s on page %d leads to page %d' % (a, mark_page[a], ds['l' + a][0]))
    outs, mode = nav.outlines(d)
    r.expect([o.title for o in outs] == labels, 'outlines', lambda: '%s, expected %s' % (outs, labels))
    for o in outs:
        r.expect(o.dest in ds and ds[o.dest][0] == mark_page.get(o.title), 'outline-page', lambda: '%s %s' % (o, ds))


# pages with more footnotes than they can take together with all of their lines
def code(k):
    return ''.join(LETTERS[k // 26 ** q % 26] for q in (2, 1, 0))


def gen_dense(tier):
    for kind in 'pqtTnc':
        for n in (7, 30, 130) if tier == 'quick' else (7, 16, 30, 61, 130, 400):
            for h in (70, 90, 130, 180, 300) if tier == 'quick' else tuple(range(70, 200, 5)) + (300, 400, 600):
                for w in (0, 1, 5):
                    for cols in (1, 2):
                        # the footnotes of one line in every column must fit
                        line = 13 if kind == 'c' else cols * (2 if kind in 'qt' else 1)
                        if line * 16 + 10 < h - 30 and (n < 100 or w == 1 or tier == "thorough"):
                            yield (kind, n, h, w, cols)


def run_dense(case, r):
    kind, n, h, w, cols = case
    order = []

    def mark():
        k = len(order)
        order.append(code(k))
        return [code(k).upper(), {'footnote': code(k) + ' ..........' * w}]
    content = []
    while len(order) < n:
        if kind == 'p':
            content.append({'.': mark()})
        elif kind == 'q':
            content.append({'.': [*mark(), ' ', *mark()]})
        elif kind == 'n':
            content.append({'content': [{'.': mark()}, {'.': mark()}]})
        elif kind == 't':
            content.append({'table': [[{'.': mark()}, {'.': mark()}]], 'style': {'cell_margin': 1}})
        elif kind == 'T':
            content.append({'table': [[{'.': mark()}] for _ in range(n)], 'style': {'cell_margin': 1}})
        else:
            content.append({'.': [x for _ in range(n) for x in (*mark(), ' ')]})
    sec = {'content': content}
    if cols > 1:
        sec['cols'] = {'count': cols}
    d = view({'style': {'s': 8, 'page_size': (W + 2 * MARGIN, h + 2 * MARGIN), 'margin': MARGIN}, 'sections': [sec]})
    r.trans += len(d.pages)
    seen = []
    for pi, p in enumerate(d.pages):
        sep = [l for l in p.lines if near(l[0], MARGIN) and near(l[2], MARGIN + 150) and near(l[1], l[3])]
        if not r.expect(len(sep) == 1, 'separator', lambda: 'page %d: %s' % (pi, p.lines)):
            return
        lim = sep[0][1]
        body = [c for c in chars(p) if c[2] > lim]
        foot = [c for c in chars(p) if c[2] < lim]
        r.expect(not any(c[0].islower() for c in body) and not any(c[0].isupper() for c in foot), 'contents-overlap', lambda: 'page %d: separator at %.2f, contents and footnotes are mixed: %r | %r' % (pi, lim, ''.join(c[0] for c in body), ''.join(c[0] for c in foot)))
        marks = re.findall(r'([A-Z]{3})(\d+)', ''.join(c[0] for c in body))
        notes = re.findall(r'(\d+)([a-z]{3})(\.*)', ''.join(c[0] for c in foot))
        numbers = [str(k + 1) for k in range(len(marks))]
        r.expect(len(marks) > 0, 'page-empty', lambda: 'page %d shows nothing' % pi)
        r.expect(sorted(int(m[1]) for m in marks) == [int(k) for k in numbers] and (kind == 't' or [m[1] for m in marks] == numbers), 'mark-numbers', lambda: 'page %d: %s' % (pi, marks))
        r.expect([m[0] for m in notes] == numbers, 'footnote-numbers', lambda: 'page %d: %s' % (pi, notes))
        r.expect(sorted((m[1], m[0].lower()) for m in marks) == sorted(m[:2] for m in notes), 'footnote-of-mark', lambda: 'page %d: marks %s, footnotes %s' % (pi, marks, notes))
        r.expect(all(len(m[2]) == 10 * w for m in notes), 'footnote-text', lambda: 'page %d: %s' % (pi, notes))
        r.expect(min((c[2] for c in foot), default=MARGIN) > MARGIN - 0.03 and max((c[2] for c in chars(p)), default=0) < h + MARGIN, 'page-limits', lambda: 'page %d' % pi)
        ys = sorted({round(c[2], 2) for c in foot if not c[0].isdigit()})
        r.expect(all(b - a > FOOT - 0.01 for a, b in zip(ys, ys[1:])), 'footnote-overlap', lambda: 'page %d: %s' % (pi, ys))
        seen.extend(sorted(m[0].lower() for m in marks) if kind == 't' else [m[0].lower() for m in marks])
    r.expect(seen == order, 'contents-lost', lambda: 'shown %s, expected %s' % (seen, order))
    r.compared += 1
    r.state(doc_digest(d))


# what a footnote can hold: page numbers, variables, links, labels, outlines
def gen_inside(tier):
    for n in (1, 2, 3, 7) if tier == 'quick' else (1, 2, 3, 5, 7, 12):
        for fill in (0, 20, 70):
            for h in (120, 160) if tier == 'quick' else (120, 131, 160, 240):
                for kinds in range(32):
                    for kind in 'pt':
                        yield (n, fill, h, kinds, kind)


def run_inside(case, r):
    n, fill, h, kinds, kind = case
    content = []
    for k in range(n):
        c = code(k)
        tail = {'.': 'tail' + c}
        if kinds & 1:
            tail['uri'] = 'http://' + c
        if kinds & 2:
            tail['label'] = 'l' + c
        if kinds & 4:
            tail['outline'] = {'text': 'o' + c}
        note = {'.': [c, *([' <', {'var': '$page'}, '> '] if kinds & 8 else [' <> ']), *(['(', {'var': 'name'}, ') '] if kinds & 16 else []), tail]}
        par = {'.': [c.upper(), {'footnote': note}, ' ', '== ' * fill]}
        content.append(par if kind == 'p' else {'table': [[par, {'.': '-'}]], 'style': {'cell_margin': 1}})
    d = view({'style': {'s': 8, 'page_size': (W + 2 * MARGIN, h + 2 * MARGIN), 'margin': MARGIN, 'page_numbering_offset': 4}, 'sections': [{'content': content}]}, {'name': 'val'})
    r.trans += len(d.pages)
    page_of = {}
    for pi, p in enumerate(d.pages):
        sep = [l for l in p.lines if near(l[0], MARGIN) and near(l[2], MARGIN + 150) and near(l[1], l[3])]
        lim = sep[0][1] if sep else 0
        body = ''.join(c[0] for c in chars(p) if c[2] > lim)
        foot = [c for c in chars(p) if c[2] < lim]
        marks = re.findall('([A-Z]{3})([0-9]+)', body)
        want = ''
        for q, (m, num) in enumerate(marks):
            page_of[m.lower()] = pi
            want += '%d%s<%s>%stail%s' % (q + 1, m.lower(), pi + 5 if kinds & 8 else '', '(val)' if kinds & 16 else '', m.lower())
        got = ''.join(c[0] for c in foot)
        if not r.expect(got == want, 'footnote-text', lambda: 'page %d: footnotes %r, expected %r' % (pi, got, want)):
            return
        links = [(nav.link_target(d.pdf, a)[1], a['Rect']) for a in p.annots]
        r.expect(sorted(x[0] for x in links) == sorted('http://' + m.lower() for m, num in marks if kinds & 1), 'links', lambda: 'page %d: %s, marks %s' % (pi, links, marks))
        pos = {}
        for i, c in enumerate(foot):
            if got[i:i + 4] == 'tail':
                pos[got[i + 4:i + 7]] = (c[1], c[2])
        for u, rect in links:
            x, y = pos[u[7:]]
            r.expect(abs(rect[0] - x) < 0.1 and rect[1] <= y + 0.1 <= rect[3], 'link-place', lambda: 'page %d: %s at %s, its text at %s' % (pi, u, rect, (x, y)))
        for name, (pg, x, y) in ((q, v) for q, v in nav.dests(d).items() if v[0] == pi and kinds & 2 and q[0] == 'l'):
            r.expect(name[1:] in pos and abs(x - pos[name[1:]][0]) < 0.1 and 0 < y - pos[name[1:]][1] < 20, 'label-place', lambda: '%s at %s, texts %s' % (name, (pg, x, y), pos))
    r.expect(sorted(page_of) == [code(k) for k in range(n)], 'mark-lost', lambda: '%s' % page_of)
    ds = nav.dests(d)
    if kinds & 2:
        r.expect({k: v[0] for k, v in ds.items() if k[0] == 'l'} == {'l' + k: v for k, v in page_of.items()}, 'labels', lambda: '%s, marks %s' % (ds, page_of))
    outs, mode = nav.outlines(d)
    r.expect([o.title for o in outs] == (['o' + code(k) for k in range(n)] if kinds & 4 else []), 'outlines', lambda: '%s' % (outs,))
    for o in outs:
        r.expect(o.dest in ds and ds[o.dest][0] == page_of[o.title[1:]], 'outline-page', lambda: '%s %s' % (o, ds))
    r.compared += 1
    r.state(full_digest(d))


# footnotes of footnotes
def forests(n):
    """all ordered forests of n nodes, as nested tuples"""
    if n == 0:
        yield ()
        return
    for k in range(n):
        for kids in forests(k):
            for rest in forests(n - 1 - k):
                yield ((kids,), *rest)


def gen_tree(tier):
    for n in range(1, 6 if tier == 'quick' else 8):
        for f in forests(n):
            for h in (130, 170) if tier == 'quick' else (130, 150, 170, 210):
                for fill in (0, 40):
                    for kind in 'pt':
                        yield (f, h + 14 * max(0, n - 3), fill, kind)


def run_tree(case, r):
    forest, h, fill, kind = case
    kids, names = {}, []

    def note(tree):
        k = len(names)
        c = code(k)
        names.append(c)
        kids[c] = []
        parts = [c]
        for t in tree[0]:
            n, d = note(t)
            kids[c].append(n)
            parts.append({'footnote': d})
            parts.append(' ')
        return c, {'.': parts} if k % 2 else [*parts, 'z']

    content, roots = [], []
    for t in forest:
        c, d = note(t)
        roots.append(c)
        par = {'.': [c.upper(), {'footnote': d}, ' ', '== ' * fill]}
        content.append(par if kind == 'p' else {'table': [[par, {'.': '-'}]], 'style': {'cell_margin': 1}})
    d = view({'style': {'s': 8, 'page_size': (W + 2 * MARGIN, h + 2 * MARGIN), 'margin': MARGIN}, 'sections': [{'content': content}]})
    r.trans += len(d.pages)
    seen = []
    for pi, p in enumerate(d.pages):
        sep = [l for l in p.lines if near(l[0], MARGIN) and near(l[2], MARGIN + 150) and near(l[1], l[3])]
        lim = sep[0][1] if sep else 0
        body = ''.join(c[0] for c in chars(p) if c[2] > lim)
        foot = ''.join(c[0] for c in chars(p) if c[2] < lim)
        marks = re.findall('([A-Z]{3})([0-9]+)', body)
        seen.extend(m.lower() for m, num in marks)
        order = [m.lower() for m, num in marks]
        for c in order:
            order.extend(kids[c])
        number = {c: str(k + 1) for k, c in enumerate(order)}
        r.expect(all(number[m.lower()] == num for m, num in marks), 'mark-numbers', lambda: 'page %d: %s, expected %s' % (pi, marks, number))
        want = ''.join(number[c] + c + ''.join(number[x] for x in kids[c]) + ('' if names.index(c) % 2 else 'z') for c in order)
        r.expect(foot == want, 'footnote-text', lambda: 'page %d: footnotes %r, expected %r' % (pi, foot, want))
        if foot:
            r.expect(near(min(c[2] for c in chars(p)), MARGIN, 0.03), 'footnote-bottom', lambda: 'page %d' % pi)
    r.expect(seen == roots, 'mark-lost', lambda: 'shown %s, expected %s' % (seen, roots))
    r.compared += 1
    r.state(doc_digest(d))


# footnotes of paragraphs that are not in the contents of a section
def gen_elsewhere(tier):
    yield ('in a running section',)


def run_elsewhere(case, r):
    mark = [{'.': 'M'}, {'footnote': 'the inner note'}]
    doc = {'style': {'s': 8, 'page_size': 200, 'margin': 30}, 'sections': [{'content': [{'.': ['A']}], 'running_sections': ['head']}],
           'running_sections': {'head': {'x': 'left', 'y': 2, 'height': 20, 'content': [{'.': mark}]}}}
    d = view(doc)
    shown = ''.join(c[0] for p in d.pages for c in chars(p) if c[0] != ' ')
    r.expect('M' in shown and 'A' in shown, 'content', shown)
    r.expect(shown.count('theinnernote') == 1, 'footnote-lost', 'the footnote of a paragraph %s is shown %d times: %s' % (case[0], shown.count('theinnernote'), shown))


FAMILIES = [
    Family('flow', gen_flow, run_flow, 'sequences of 2-3 (3-4) elements of 14 kinds with marks x page heights'),
    Family('heights', gen_heights, run_flow, '15 documents over page heights in steps of 1.5 (0.5) points'),
    Family('columns', gen_cols, run_flow, 'sections of 2 and 3 columns'),
    Family('forms', gen_forms, run_flow, 'footnotes as strings, lists, dicts with styles and named styles'),
    Family('sheets', gen_sheets, run_sheets, '11 documents in pages of 4 sizes, margins and orientations, by section and by page'),
    Family('formats', gen_formats, run_formats, '5 formats of marks x 5 of footnotes x 3 of one footnote, 1-3 marks in 1-2 sections'),
    Family('features', gen_features, run_features, 'sequences of up to 2 (3) elements of 7 kinds and 9 longer ones with page numbers, links, labels and outlines among the marks, with a running header, in 1 and 2 (3) columns, 3 (6) heights'),
    Family('elsewhere', gen_elsewhere, run_elsewhere, 'footnotes in a running section'),
    Family('tree', gen_tree, run_tree, 'footnotes of footnotes: all trees of up to 5 (7) footnotes in paragraphs and tables, page heights'),
    Family('dense', gen_dense, run_dense, '7 to 130 (400) footnotes in one-line paragraphs, pairs, tables and one paragraph, in 1 and 2 columns, over page heights: pages with more footnotes than fit with all of their lines'),
    Family('inside', gen_inside, run_inside, 'footnotes with page numbers, variables, links, labels and outlines, in all combinations, 1 to 7 (12) of them in paragraphs and tables'),
    Family('many', gen_many, run_many, 'up to 24 marks on a page, up to 4 sections'),
]
