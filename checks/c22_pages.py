"""C22: building terminates, and adds only the pages that are needed."""
import contextlib
import itertools

from mc.engine import Family
from mc.box import *

PROPERTY = 'C22'
EXPLANATION = (
    'Bounded exhaustive enumeration of sequences of paragraphs, tables, images and groups, page heights, columns, margins, running sections, footnotes and degenerate elements.  '
    'At every end of a column or page the element (line, row, image, group) that should come next is compared with the room left there; '
    'every page must show contents; every execution runs under a page limit and a CPU-time limit.')
ASSUMPTIONS = ['every indivisible element fits an empty page or column', 'columns of the last page of a box are balanced, so they are not expected to be full',
               'an image or group that does not fit may let the following elements come first', 'room reserved for footnotes is not free']
FIRST, NEXT, ROW = 9.1, 8.8, 19.6
EPS = 0.05
LIMIT = 60


class Runaway(Exception):
    pass


@contextlib.contextmanager
def page_limit(n):
    """no more than n pages can be added"""
    orig = PDF.add_page
    count = [0]

    def add_page(self, *a, **k):
        count[0] += 1
        if count[0] > n:
            raise Runaway('more than %d pages' % n)
        return orig(self, *a, **k)
    PDF.add_page = add_page
    try:
        yield
    finally:
        PDF.add_page = orig


def guarded(f, r, n=LIMIT):
    try:
        with page_limit(n):
            return f()
    except Runaway as e:
        r.fail('no-termination', str(e))
        return None


class Leaf:
    """an element: its identity, how many fragments it has and the height they need"""

    def __init__(self, ids, n, first, nxt, top, bottom, flow=False, tol=EPS):
        self.ids, self.n, self.first, self.nxt = ids, n, first, nxt
        self.top, self.bottom, self.flow, self.tol = top, bottom, flow, tol


WIDE = 'abcdeghknopqsuvxyzABCDEFGHKLNOPQRSTUVXYZ'      # letters of about the same width
MARGINS = [(0, None), (6, 9), (0, 0), (15, 2)]


class Seq:
    def __init__(self, kinds, cw):
        self.mk = Maker()
        self.leaves = []
        self.els = []
        self.cw = cw
        word = int(cw * 0.65 / 4.45)     # letters of a word: two of them don't fit a line
        for k in kinds:
            self.els.append(self.el(k, word))

    def lines(self, n, word):
        l = WIDE[self.mk.n]
        self.mk.n += 1
        self.mk.count[l] = word * n
        return l, ' '.join([l * word] * n)

    def el(self, k, word):
        kind, n = k[0], int(k[1])
        top, bottom = MARGINS[int(k[2]) if len(k) > 2 else 0]
        style = {}
        if top:
            style['margin_top'] = top
        if bottom is not None:
            style['margin_bottom'] = bottom
        b = 5 if bottom is None else bottom
        if kind == 'p':
            l, t = self.lines(n, word)
            self.leaves.append(Leaf([l], n, FIRST, NEXT, top, b))
            el = {'.': t}
        elif kind == 't':
            l, _ = self.lines(n, 3)
            self.leaves.append(Leaf([l], n, ROW, ROW, top, b, tol=0.7))
            el = {'table': [[l * 3]] * n}
        elif kind in 'iI':
            h = n * 7.3
            d = self.mk.image(h / self.cw, None if kind == 'i' else 'normal')
            i = self.mk.order[-1]
            w, hp = self.mk.img[i]
            self.leaves.append(Leaf([i], 1, self.cw * hp / w, 0, top, b, flow=kind == 'i'))
            el = d
        elif kind == 'g':
            l, t = self.lines(1, word)
            if n % 2:
                d = self.mk.image(8.0 / self.cw)
                i = self.mk.order[-1]
                w, hp = self.mk.img[i]
                ids, need, m = [l, i], FIRST + b + self.cw * hp / w, 2
            else:
                l2, t2 = self.lines(2, word)
                d = {'.': t2}
                ids, need, m = [l, l2], FIRST + b + FIRST + NEXT, 3
            self.leaves.append(Leaf(ids, m, need, 0, top, b, flow=True))
            # the margins of the group are inherited by its elements
            self.leaves[-1].first += top
            el = {'group': [{'.': t}, d]}
        else:
            raise ValueError(k)
        if style:
            el['style'] = dict(el.get('style') or {}, **style)
        return el

    def fit(self, h):
        return all(max(l.first, l.nxt) + 0.8 < h for l in self.leaves)


def check_fill(sq, ats, region, ncols, pages, r, balanced=True, slack=0.0):
    """region(page) -> (top, bottom) of the contents; ats: atoms of the box in painting order"""
    who = {i: l for l in sq.leaves for i in l.ids}
    gap = max(BW / 25, 7)
    done = {id(l): 0 for l in sq.leaves}
    cols = {}
    for a in ats:
        c = int((a.x0 + 1) // (sq.cw + gap)) if ncols > 1 else 0
        cols.setdefault((a.page, c), []).append(a)
    if not pages:
        return
    last = max(p for p, _ in cols) if cols else -1
    if not r.expect(last == pages[-1], 'empty-page', lambda: 'pages up to %d, contents up to %d' % (pages[-1], last)):
        return
    for p in pages:
        if not r.expect(any((p, c) in cols for c in range(ncols)), 'empty-page', lambda: 'page %d of %d shows nothing' % (p, len(pages))):
            return
        for c in range(ncols):
            col = cols.get((p, c), [])
            top, bottom = region(p)
            y, prev = top, None
            for a in col:
                l = who[a.id]
                done[id(l)] += 1
                y, prev = a.bottom - (5 if l.first == ROW else 0), l
            pend = [l for l in sq.leaves if done[id(l)] < l.n]
            if not pend or (balanced and ncols > 1 and p == last):
                continue
            cand = [pend[0]]
            if pend[0].flow:
                # the first element that is not delayed; the last one waits for the delayed ones
                rest = [l for l in pend if not l.flow]
                if rest and rest[0] is not sq.leaves[-1]:
                    cand.append(rest[0])
            for l in cand:
                need = l.nxt if l is prev else l.first
                tol = max(l.tol, prev.tol if prev else 0)
                if prev is None:
                    room = y - bottom
                elif l is prev:
                    room = y - bottom
                else:
                    room = y - bottom - prev.bottom - l.top
                if need + tol + slack < room:
                    r.fail('early-break', 'page %d column %d: %s needs %.2f and there is room for %.2f (done %d of %d)' % (p, c, l.ids, need, room, done[id(l)], l.n))
                    return
                r.trans += 1


def conserved_all(sq, ats, r):
    got = {}
    for a in ats:
        got[a.id] = got.get(a.id, 0) + 1
    for l in sq.leaves:
        n = sum(got.get(i, 0) for i in l.ids)
        if not r.expect(n == l.n, 'fragments', lambda: '%s: %d fragments shown, expected %d' % (l.ids, n, l.n)):
            return False
    return True


# ---- documents -------------------------------------------------------------------------

def cwidth(cols):
    gap = max(BW / 25, 7)
    return (BW - gap * (cols - 1)) / cols


KINDS = ['p1', 'p2', 'p4', 't1', 't2', 'i3', 'I3', 'g0', 'g1', 'p11', 'p22', 'i31', 't12', 'g03']


def gen_fill(tier):
    n = 3 if tier == 'quick' else 4
    kinds = KINDS if tier == 'quick' else KINDS[:9] + ['p11', 'i31', 't12']
    heights = (27.6, 33.2, 36.1, 44.9, 57.3) if tier == 'quick' else (27.6, 30.5, 33.2, 36.1, 40.4, 44.9, 50.1, 57.3, 70.2)
    for m in range(1, n + 1):
        for ks in itertools.product(kinds, repeat=m):
            for cols in (1, 2, 3):
                for h in heights:
                    if cols == 3 and m == n and h not in heights[::2]:
                        continue
                    yield (ks, cols, h)
    # long sequences
    for a, b in itertools.product(kinds, repeat=2):
        for cols in (1, 2, 3):
            for h in heights[::2]:
                yield ((a, b) * 5 + ('p1',), cols, h)


def run_fill(case, r):
    ks, cols, h = case
    sq = Seq(ks, cwidth(cols))
    if not sq.fit(h):
        r.state('too high')
        return
    sec = {'content': sq.els}
    if cols > 1:
        sec['cols'] = {'count': cols}
    doc = {'style': {'s': S, 'page_size': (BW, h), 'margin': 0}, 'sections': [sec]}
    d = guarded(lambda: view(doc), r)
    if d is None:
        return
    ats = atoms(d)
    if conserved_all(sq, ats, r):
        check_fill(sq, ats, lambda p: (h, 0), cols, list(range(len(d.pages))), r)
    r.compared += 1
    r.state((ks, cols, len(d.pages)))


# ---- methods that add pages -------------------------------------------------------------

def gen_direct(tier):
    offs = (0, 5, 13.4, 26.2, 40, 59.5) if tier == 'quick' else [k * 2.3 for k in range(27)]
    n = 2 if tier == 'quick' else 3
    for h in (45.3, 60, 27.7):
        for off in offs:
            if off > h:
                continue
            for k in range(1, 9):
                for what in ('text', 'table'):
                    yield (what, k, h, off)
            for ks in seqs(KINDS[:9], n, 1):
                for cols in (1, 2):
                    yield (ks, cols, h, off)


def run_direct(case, r):
    what, k, h, off = case
    pdf = PDF(page_size=(BW + 20, h + 30), margin=(10, 10, 20, 10), font_size=S)
    pdf.add_page()
    pdf.page.y += off
    cols = 1
    if what == 'text':
        sq = Seq(['p%d' % k], BW)
        f = lambda: pdf.text(sq.els[0])
    elif what == 'table':
        sq = Seq(['t%d' % k], BW)
        f = lambda: pdf.table(sq.els[0]['table'])
    else:
        cols = k
        sq = Seq(what, cwidth(cols))
        c = {'content': sq.els}
        if cols > 1:
            c['cols'] = {'count': cols}
        f = lambda: pdf.content(c)
    if not sq.fit(h):
        r.state('too high')
        return
    if guarded(lambda: (f(), 1), r) is None:
        return
    d = Doc(output(pdf))
    ats = [shift(a) for a in atoms(d)]
    if conserved_all(sq, ats, r):
        pages = list(range(len(d.pages)))
        if all(a.page != 0 for a in ats):
            # nothing fits the first page
            room = h - off
            l = sq.leaves[0]
            if cols == 1 or len(pages) > 2:
                r.expect(room < l.first + l.tol, 'early-break', lambda: 'nothing in the first page, with room for %.2f' % room)
            pages = pages[1:]
            r.expect(pages, 'no-page', 'nothing shown')
        check_fill(sq, ats, lambda p: (20 + h - (off if p == 0 else 0), 20), cols, pages, r)
    # and the page position is below the contents, so the next call goes on there
    y = pdf.page.height - pdf.page.y
    low = min([a.bottom for a in ats if a.page == len(d.pages) - 1] or [y])
    r.expect(y < low + 3, 'page-position', lambda: 'position %.2f, contents down to %.2f' % (y, low))
    r.compared += 1
    r.state((what, k, len(d.pages)))


def shift(a):
    a.x0 -= 10
    a.x1 -= 10
    return a


# ---- nested boxes ---------------------------------------------------------------------------

def gen_nested(tier):
    heights = (33.2, 44.9, 61.3) if tier == 'quick' else (33.2, 38.7, 44.9, 52.6, 61.3, 75)
    inner = ['p1', 'p3', 'i2', 't1']
    outer = ['', 'p1', 'p2', 'i2', 't2']
    m = 3 if tier == 'quick' else 4
    for h in heights:
        for cols in (1, 2):
            for a in outer:
                for b in ('', 'p1', 'p4'):
                    for ks in seqs(inner, m, 1):
                        yield (a, ks, b, cols, h)


def run_nested(case, r):
    """an element, a box and another element"""
    a, ks, b, cols, h = case
    sa, sb = Seq([a] if a else [], BW), None
    si = Seq([], cwidth(cols))
    si.mk = sa.mk
    word = int(si.cw * 0.65 / 4.45)
    els = [si.el(k, word) for k in ks]
    si.els = els
    sb = Seq([], BW)
    sb.mk = sa.mk
    bl = [sb.el(b, int(BW * 0.65 / 4.45))] if b else []
    if not (sa.fit(h) and si.fit(h) and sb.fit(h)):
        r.state('too high')
        return
    box = {'content': els}
    if cols > 1:
        box['cols'] = {'count': cols}
    doc = {'style': {'s': S, 'page_size': (BW, h), 'margin': 0}, 'sections': [{'content': sa.els + [box] + bl}]}
    d = guarded(lambda: view(doc), r)
    if d is None:
        return
    ats = atoms(d)
    ok = all([conserved_all(s, [x for x in ats if x.id in {i for l in s.leaves for i in l.ids}], r) for s in (sa, si, sb)])
    if not ok:
        return
    ida = {i for l in sa.leaves for i in l.ids}
    idb = {i for l in sb.leaves for i in l.ids}
    aa = [x for x in ats if x.id in ida]
    ab = [x for x in ats if x.id in idb]
    ai = [x for x in ats if x.id not in ida and x.id not in idb]
    for p in range(len(d.pages)):
        r.expect(any(x.page == p for x in ats), 'empty-page', lambda: 'page %d of %d shows nothing' % (p, len(d.pages)))
    first, last = min(x.page for x in ai), max(x.page for x in ai)
    r.trans += len(d.pages)
    r.compared += 1
    r.state((a, ks, b, cols, len(d.pages)))
    if any(l.flow for l in sa.leaves) and aa and aa[0].page > 0:
        return      # the image was delayed: the box came first
    # the outer element is not broken early
    def bot(l, x):
        return x.bottom - (5 if l.first == ROW else 0)
    if aa:
        la = sa.leaves[0]
        pages = sorted({x.page for x in aa})
        for p in pages[:-1]:
            low = bot(la, [x for x in aa if x.page == p][-1])
            if not r.expect(low < la.nxt + la.tol, 'early-break', lambda: 'page %d: %s goes on in the next page with room for %.2f' % (p, a, low)):
                return
        start = bot(la, aa[-1]) - la.bottom
        pa = aa[-1].page
    else:
        start, pa = h, 0
    l0 = si.leaves[0]
    if first > pa:
        single = cols == 1 or True
        need = l0.first
        if not r.expect(start < need + l0.tol, 'early-break', lambda: 'the box starts in page %d with room for %.2f in page %d' % (first, start, pa)):
            return
        start = h
    if first == pa or True:
        top0 = start if first == pa else h
        check_fill(si, ai, lambda p: (top0 if p == first else h, 0), cols, list(range(first, last + 1)), r, slack=0.0)
    if ab:
        l = sb.leaves[0]
        p0 = ab[0].page
        if p0 > last and not any(x.flow for x in si.leaves):
            low = min(bot(next(q for q in si.leaves if x.id in q.ids), x) for x in ai if x.page == last)
            # boxes with columns end at the height they were balanced to
            room = low - 5 - 5 * (cols == 1) * 0 - (3 if cols > 1 else 0)
            worst = max(q.bottom for q in si.leaves)
            r.expect(room - worst < l.first + l.tol, 'early-break', lambda: '%s starts in page %d with room for %.2f in page %d' % (b, p0, room - worst, last))
        for p in sorted({x.page for x in ab})[:-1]:
            low = bot(l, [x for x in ab if x.page == p][-1])
            r.expect(low < l.nxt + l.tol, 'early-break', lambda: 'page %d: %s goes on in the next page with room for %.2f' % (p, b, low))


# ---- sections and running sections -------------------------------------------------------------

def gen_sections(tier):
    ns = (0, 1, 2, 3, 4, 5, 6, 9) if tier != 'quick' else (0, 1, 3, 4, 5, 8)
    for h in (28.0, 45.2, 36.4, 36.5, 36.6):
        for rs in ((), ('header',), ('footer',), ('header', 'footer', 'side')):
            for secs in seqs(ns, 3 if tier == 'quick' else 4, 1):
                if 0 in secs:
                    continue
                yield (secs, h, rs)


def run_sections(case, r):
    """sections of single lines: as many pages as needed, whatever the running sections"""
    secs, h, rs = case
    mk = []
    for i, n in enumerate(secs):
        mk.append({'content': [{'.': ' '.join([LETTERS[i] * 26] * n)}], 'style': {'margin_bottom': 0}})
    doc = {'style': {'s': S, 'page_size': (BW, h + 40), 'margin': [20, 0, 20, 0]}, 'sections': mk,
           'running_sections': {'header': {'x': 'left', 'y': 'top', 'height': 'top', 'style': {'margin': 1}, 'content': [{'.': 'HHH'}]},
                                'footer': {'x': 'left', 'y': 'bottom', 'height': 'bottom', 'content': [{'.': ['FFF ', {'var': '$page'}]}]},
                                'side': {'x': 150, 'y': 22, 'width': 40, 'height': 10, 'content': [{'.': 'G'}]}}}
    for s in mk:
        s['running_sections'] = list(rs)
    d = guarded(lambda: view(doc), r)
    if d is None:
        return
    per = 1 + int((h - FIRST + 1e-9) // NEXT)
    want = []
    for i, n in enumerate(secs):
        left = n
        while left > 0:
            want.append((LETTERS[i], min(per, left)))
            left -= per
    got = []
    for p in d.pages:
        t = ''.join(ch for x in p.texts for ch in x.text if ch in LETTERS[:len(secs)])
        got.append((t[:1], len(t) // 26))
    r.expect(got == want, 'pages', lambda: '%s, expected %s' % (got, want))
    r.trans += len(got)
    r.compared += 1
    r.state(case)


# ---- footnotes --------------------------------------------------------------------------------------

def gen_footnotes(tier):
    n = 7 if tier == 'quick' else 9
    for h in ((60, 75.5, 120.3) if tier == 'quick' else (60, 75.5, 90, 120.3, 131)):
        for lens in ((1,), (2, 1)):
            for marks in range(1, 1 << n):
                yield (n, marks, h, lens)


def run_footnotes(case, r):
    """lines with footnotes: a line goes to the next page only if there is no room for it beside the footnotes"""
    n, marks, h, lens = case
    content = []
    foot = {}
    k = 0
    for i in range(n):
        c = LETTERS[i]
        if marks >> i & 1:
            q = lens[k % len(lens)]
            k += 1
            content.append({'.': [c * 20, {'footnote': ' '.join([LETTERS[26 + i] * 20] * q)}], 'style': {'margin_bottom': 0}})
            foot[i] = 11.1 * q + 5
        else:
            content.append({'.': c * 20, 'style': {'margin_bottom': 0}})
            foot[i] = 0
    doc = {'style': {'s': S, 'page_size': (BW, h), 'margin': 0}, 'sections': [{'content': content}]}
    try:
        d = guarded(lambda: view(doc), r)
    except Exception as e:
        # the documented refusal: the footnotes of one line are more than the page
        if 'very large' in str(e) and any(f + 15 >= h - 20 for f in foot.values()):
            r.state('refused')
            return
        raise
    if d is None:
        return
    lines = []
    for p in d.pages:
        t = [ch for x in p.texts for ch in x.text if ch in LETTERS[:n]]
        lines.append(sorted({LETTERS.index(ch) for ch in t}))
    if not r.expect(sorted(sum(lines, [])) == list(range(n)), 'lines', lambda: str(lines)):
        return
    r.expect(all(lines), 'empty-page', lambda: str(lines))
    i = 0
    for p, ls in enumerate(lines):
        # lines that fill the page without footnotes, whose footnotes could be reserved
        full = max(1, int((h - 1e-6) // FIRST))
        cand = range(i, min(n, i + full))
        f = sum(foot[j] for j in cand)
        room = h - (f + 10 + 5 if f else 0)
        least = min(len(cand), max(1, int((room - 0.3) // FIRST)))
        if not r.expect(len(ls) >= least, 'early-break', lambda: 'page %d shows lines %s, there is room for %d: %s' % (p, ls, least, lines)):
            return
        i += len(ls)
        r.trans += 1
    r.compared += 1
    r.state((case[1:], tuple(map(len, lines))))


# ---- degenerate elements -------------------------------------------------------------------------------

ODD = ['', ' ', '\n', [], [''], {'.': ''}, {'.': ['', ' \n\n ']}, {'.': 'a', 'style': {'margin_top': 500}}, {'.': 'a', 'style': {'margin_bottom': 500}},
       {'.': 'a' * 90}, {'.': 'a b c', 'style': {'indent': 150}}, {'content': []}, {'content': [], 'cols': {'count': 2}}, {'content': ['', '']},
       {'content': ['a', {'content': [], 'cols': {'count': 3}}], 'cols': {'count': 2}}, {'group': []}, {'group': ['']}, {'group': ['a', ['b']]},
       {'table': [['']]}, {'table': [['', ''], ['', '']]}, {'table': [[{'content': []}]]}, {'table': [[{'content': ['a', 'b'], 'cols': {'count': 2}}]]},
       {'table': [[{'.': 'a', 'rowspan': 2}, ''], [None, '']]}, {'table': [[{'.': 'a', 'colspan': 2}, None], ['', '']]},
       {'table': [[{'table': [['']]}]]}, 'IMG', 'IMGm', {'.': 'a', 'style': {'list_text': '- '}}, {'.': 'a\n\nb\n'}, {'.b': 'a', 'style': {'s': 3}},
       {'content': ['a'], 'style': {'margin_left': 30, 'margin_right': 30}}, {'content': ['a b', 'IMG'], 'cols': {'count': 3, 'gap': 0}},
       {'table': []}, {'table': [[]]}, {'table': [[{'table': [[], []]}, {'content': [{'table': []}, 'a']}]]}, {'group': ['a', {'table': []}]},
       {'.': ['a', {'footnote': ''}]}, {'.': ['a', {'footnote': 'b'}]}]


def odd(x):
    if x == 'IMG':
        return {'image': jpg_io(1000, 60), 'extension': 'jpg', 'image_name': 'i'}
    if x == 'IMGm':
        return {'image': jpg_io(1001, 3000), 'extension': 'jpg', 'image_name': 'j', 'style': {'min_height': 15}}
    if isinstance(x, dict):
        return {k: odd(v) if k in ('content', 'group', 'table') else copy.deepcopy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [odd(v) for v in x]
    return x


def gen_odd(tier):
    idx = range(len(ODD))
    for cols in (1, 2, 3):
        for h in (50, 62.5, 100):
            for m in (1, 2):
                for ks in itertools.product(idx, repeat=m):
                    yield (ks, cols, h)
            for k in idx:
                yield ((k,) * 12, cols, h)
                yield ((9, k) * 6, cols, h)
    if tier != 'quick':
        for ks in itertools.product(idx, repeat=3):
            for cols in (1, 2):
                yield (ks, cols, 62.5)


def count_a(x):
    if isinstance(x, str):
        return sum(ch in 'abc' for ch in x) if x[:1] != 'I' else 0
    if isinstance(x, dict):
        return sum(count_a(v) for k, v in x.items() if k not in ('style', 'cols', 'colspan', 'rowspan'))
    if isinstance(x, (list, tuple)):
        return sum(count_a(v) for v in x)
    return 0


def run_odd(case, r):
    ks, cols, h = case
    els = [odd(ODD[k]) for k in ks]
    sec = {'content': els}
    if cols > 1:
        sec['cols'] = {'count': cols}
    doc = {'style': {'s': S, 'page_size': (BW, h), 'margin': 0}, 'sections': [sec]}
    try:
        d = guarded(lambda: view(doc), r, 8 + 4 * len(ks))
    except Exception as e:
        n = sum('footnote' in repr(ODD[k]) for k in ks)
        if 'very large' in str(e) and n > 1 and 16.2 * n + 10 >= h - 20:
            r.state('refused')
            return
        raise
    if d is None:
        return
    got = sum(ch in 'abc' for p in d.pages for t in p.texts for ch in t.text)
    want = sum(count_a(ODD[k]) for k in ks)
    r.expect(got == want, 'text', lambda: '%d letters shown, expected %d' % (got, want))
    r.trans += len(d.pages)
    r.state((ks, cols, h, len(d.pages)))


FAMILIES = [
    Family('fill', gen_fill, run_fill, 'sequences of up to 3 of 14 kinds of elements (4 of 12 thorough) and repetitions, 1 to 3 columns, 5 (9) page heights'),
    Family('direct', gen_direct, run_direct, 'PDF.text, table and content from 6 (27) positions of the page, 3 page heights, sequences of up to 2 (3) elements'),
    Family('nested', gen_nested, run_nested, 'a box of up to 3 (4) elements and 1 or 2 columns between two elements, 3 (6) page heights'),
    Family('sections', gen_sections, run_sections, 'up to 3 (4) sections, page heights at exact fits, running sections'),
    Family('footnotes', gen_footnotes, run_footnotes, 'all placements of footnotes in 7 (9) lines, 2 lengths, 2 (5) page heights'),
    Family('odd', gen_odd, run_odd, '%d degenerate elements, pairs (triples) and repetitions, 1 to 3 columns, 3 page heights' % len(ODD)),
]
