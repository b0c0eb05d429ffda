"""C10: content box elements stay inside their column and never overlap."""
import itertools

from mc.engine import Family
from mc.box import *
from mc.metrics import AFM

PROPERTY = 'C10'
EXPLANATION = (
    'Bounded exhaustive enumeration of content boxes with margins, columns, gaps and nesting.  Each painted line, '
    'image and table is assigned to the column whose left edge it starts at (none: violation); inside every column the '
    'distances between consecutive elements must be exactly their margins, columns start at the height of their box, '
    'paragraph lines take all the words that fit the column, and no two painted areas overlap.')
ASSUMPTIONS = ['every image, line and table row fits an empty column',
               'the bottom of a balanced multi-column box is found by bisection: what follows may be up to SLACK points lower']
SLACK = 1.6
LH = 1.1
CELL = 5.25
SIDES = ('top', 'right', 'bottom', 'left')


def M(**k):
    return {'margin_' + s: v for s, v in k.items()}


class Node:
    """kind is a leaf kind, or None for a box"""

    def __init__(self, t, parent, inherited):
        self.parent = parent
        self.kids = []
        self.kind = None
        self.cols, self.gap, style = 1, None, {}
        if isinstance(t, str):
            self.kind = t
        elif isinstance(t[0], str):
            self.kind, style = t
        else:
            self.cols = t[0]
            if len(t) > 2:
                style = t[2]
            if len(t) > 3:
                self.gap = t[3]
        self.style = style
        self.m = dict(inherited)
        self.m.update(style)
        if self.kind is None:
            self.kids = [Node(k, self, self.m) for k in t[1]]

    def leaves(self):
        if self.kind:
            return [self]
        return [l for k in self.kids for l in k.leaves()]

    def margin(self, side):
        return self.m.get('margin_' + side, 5 if side == 'bottom' else 0)

    def build(self, mk):
        if self.kind:
            n0 = len(mk.order)
            el = mk.leaf(self.kind, self.style or None)
            self.ids = mk.order[n0:]
            return el
        d = {'content': [k.build(mk) for k in self.kids]}
        if self.cols != 1 or self.gap is not None:
            d['cols'] = {'count': self.cols}
            if self.gap is not None:
                d['cols']['gap'] = self.gap
        if self.style:
            d['style'] = dict(self.style)
        return d

    def columns(self, x, w):
        gap = max(w / 25, 7) if self.gap is None else self.gap
        cw = (w - gap * (self.cols - 1)) / self.cols
        return [(x + i * (cw + gap), cw) for i in range(self.cols)]

    def path(self):
        return (self.parent.path() if self.parent else []) + [self]

    def slots(self, x, w):
        """{column path: (x, w)} available to a leaf, margins subtracted"""
        cur = {(): (x, w)}
        for b in self.path()[:-1]:
            nxt = {}
            for k, (cx, cw) in cur.items():
                for i, (q, qw) in enumerate(b.columns(cx, cw)):
                    nxt[k + (i,)] = (q, qw)
            cur = nxt
        return {k: (a + self.margin('left'), b - self.margin('left') - self.margin('right')) for k, (a, b) in cur.items()}


class Piece:
    __slots__ = ('leaf', 'page', 'slot', 'top', 'bottom', 'exact', 'atoms')


def node_fits(n, w, h):
    if n.kind:
        w = w - n.margin('left') - n.margin('right')
        return w > 25 and fits(n.kind, w, h)
    return all(node_fits(k, n.columns(0, w)[0][1], h) for k in n.kids)


def find_pieces(root, ats, rects, r):
    owner = {i: l for l in root.leaves() for i in l.ids}
    pieces = {}
    for a in ats:
        l = owner[a.id]
        x, y, w, h = rects[min(a.page, len(rects) - 1)]
        got = None
        cell = CELL if l.kind in 'tT' else 0
        for s, (sx, sw) in l.slots(x, w).items():
            if l.kind == 't':
                starts = (sx + CELL, sx + sw / 2 + CELL)
                ok = any(near(a.x0, q, 0.03) for q in starts) and a.x1 <= (sx + sw / 2 if near(a.x0, starts[0], 0.03) else sx + sw) - CELL + 0.05
            elif a.n:
                ok = near(a.x0, sx + cell, 0.03) and a.x1 <= sx + sw - cell + 0.05
            else:
                ok = near(a.x0, sx, 0.03) and near(a.x1, sx + sw, 0.03)
            if ok:
                got = s
                break
        if got is None:
            r.fail('column', '%r (%s) is in none of its columns %s' % (
                a, l.kind, sorted((round(p, 2), round(p + q, 2)) for p, q in l.slots(x, w).values())))
            return None
        p = pieces.get((l, a.page, got))
        if p is None:
            p = pieces[(l, a.page, got)] = Piece()
            p.leaf, p.page, p.slot, p.atoms = l, a.page, got, []
        p.atoms.append(a)
    for p in pieces.values():
        top = max(a.top for a in p.atoms)
        bottom = min(a.bottom for a in p.atoms)
        if p.leaf.kind in 'tT':
            top += LH + CELL
            bottom -= CELL
        elif p.atoms[0].n:
            top += LH
        p.top, p.bottom = top, bottom
    return list(pieces.values())


def greedy(pieces, rects, r):
    """lines of paragraphs have all the words that fit the column"""
    for p in pieces:
        if p.leaf.kind not in 'pPQs':
            continue
        x, y, w, h = rects[min(p.page, len(rects) - 1)]
        sw = p.leaf.slots(x, w)[p.slot][1]
        l = p.leaf.ids[0]
        ww = 2 * AFM['Helvetica'][ord(l)] / 1000 * S
        sp = AFM['Helvetica'][32] / 1000 * S
        n = 1
        while n * (ww + sp) + ww < sw - 1e-6:
            n += 1
        for a in p.atoms[:-1]:
            if a.n != 2 * n and abs(n * ww + (n - 1) * sp - sw) > 0.02:
                r.fail('line-width', '%r has %d words, %d fit %.2f' % (a, a.n / 2, n, sw))
                return


def region(pieces, node, page, prefix):
    ls = set(node.leaves())
    ps = [p for p in pieces if p.leaf in ls and p.page == page and p.slot[:len(prefix)] == prefix]
    if not ps:
        return None
    return max(p.top for p in ps), min(p.bottom for p in ps)


def multi(node):
    return node.kind is None and (node.cols > 1 or any(multi(k) for k in node.kids))


def chain(pieces, box, page, prefix, top, r):
    """box region on a page, below `top`, in the column path `prefix` of its parent"""
    for c in range(box.cols):
        pre = prefix + (c,)
        regs = []
        for k in box.kids:
            g = region(pieces, k, page, pre)
            if g:
                regs.append((g, k))
        regs.sort(key=lambda v: -v[0][0])
        prev = None
        for g, k in regs:
            if prev is None:
                want = top
                slack = 0
            else:
                (pt, pb), pk = prev
                want = pb - pk.margin('bottom') - k.margin('top')
                slack = SLACK if multi(pk) else 0
            if not (want - slack - 0.04 <= g[0] <= want + 0.04):
                r.fail('distance' if prev else 'column-top', 'page %d column %s: element %s starts at %.3f, expected %.3f%s' % (
                    page, pre, k.kind or 'box', g[0], want, ' (after %s)' % (prev[1].kind or 'box') if prev else ''))
                return False
            if k.kind is None:
                if not chain(pieces, k, page, pre, g[0], r):
                    return False
            prev = (g, k)
    return True


def overlaps(ats, r):
    by = {}
    for a in ats:
        by.setdefault(a.page, []).append(a)
    for l in by.values():
        l.sort(key=lambda a: -a.top)
        act = []
        for a in l:
            act = [b for b in act if b.bottom < a.top - 0.02]
            for b in act:
                if a.x0 < b.x1 - 0.02 and b.x0 < a.x1 - 0.02:
                    r.fail('overlap', '%r and %r' % (a, b))
                    return
            act.append(a)


def verify(t, rects, r):
    root = Node(t, None, {})
    mk = Maker()
    pdf, heights, fin = run_box(root.build(mk), rects)
    r.trans += len(heights)
    if not r.expect(fin, 'never-finished', lambda: '%d rectangles' % len(heights)):
        return
    d = Doc(output(pdf))
    ats = atoms(d)
    check_all(root, mk, d, ats, rects, heights, r)


def check_all(root, mk, d, ats, rects, heights, r):
    if not conserved(ats, mk, r):
        return
    overlaps(ats, r)
    pieces = find_pieces(root, ats, rects, r)
    if pieces is None:
        return
    for page, p in enumerate(d.pages):
        x, y, w, h = rects[min(page, len(rects) - 1)]
        top = p.height - y
        for q in p.lines:
            if not (min(q[1], q[3]) >= top - h - 0.3 and max(q[1], q[3]) <= top + 0.3 and min(q[0], q[2]) >= x - 0.3 and max(q[0], q[2]) <= x + w + 0.3):
                r.fail('line-outside', 'page %d: line %s, rectangle x %.2f..%.2f y %.2f..%.2f' % (page, q[:4], x, x + w, top - h, top))
                return
    greedy(pieces, rects, r)
    for page in range(len(d.pages)):
        x, y, w, h = rects[min(page, len(rects) - 1)]
        top = d.pages[page].height - y
        if not chain(pieces, root, page, (), top, r):
            return
        g = region(pieces, root, page, ())
        if g:
            if not r.expect(g[1] >= top - h - 0.02, 'below-rectangle', lambda: 'bottom %.3f, rectangle %.3f' % (g[1], top - h)):
                return
            tables = any(l.kind in 'tT' for l in root.leaves())
            used = top - g[1]
            # the strip of a table row that did not fit may follow
            up = SLACK if multi(root) else 4.6 if tables and page < len(d.pages) - 1 else 0
            if multi(root) and page < len(d.pages) - 1:
                up = h
            r.expect(used - 0.04 <= heights[page] <= used + up + 0.04, 'reported-height',
                     lambda: 'page %d: reported %.3f, used %.3f' % (page, heights[page], used))
    r.compared += 1
    r.state(doc_digest(d))


BIG = [(30, 1000, BW, 900)]

# -- margins -------------------------------------------------------------------

STYLES = [{}, M(top=4), M(bottom=0), M(bottom=11, top=2), M(left=15), M(right=40, bottom=1), M(left=10, right=20, top=3, bottom=7.5)]


def gen_margins(tier):
    ks = 'pQit'
    for a, b in itertools.product(ks, repeat=2):
        for s1, s2 in itertools.product(STYLES, repeat=2):
            yield (1, ((a, s1), (b, s2)))
    for a, b, c in itertools.product('pit', repeat=3):
        for s1, s2, s3 in itertools.product(STYLES[1:4] if tier == 'quick' else STYLES, repeat=3):
            yield (1, ((a, s1), (b, s2), (c, s3)))
    # inherited from the box, and overridden by the element
    for s0 in STYLES:
        for s1, s2 in itertools.product(STYLES[:4] + STYLES[-1:], repeat=2):
            for a, b in (('p', 'i'), ('t', 'p'), ('Q', 'Q')):
                yield (1, ((a, s1), (b, s2), a), s0)
                yield (1, (a, (1, (b, (a, s2)), s1), b), s0)
    # fractional and negative-free small margins
    for v in (0.1, 0.25, 1 / 3, 33.333):
        for a, b in itertools.product(ks, repeat=2):
            yield (1, ((a, M(bottom=v)), (b, M(top=v, left=v, right=v))))


def run_margins(case, r):
    verify(case, BIG, r)


# -- columns -------------------------------------------------------------------

def gen_columns(tier):
    gaps = (None, 0, 5, 30)
    kinds = 'pPiIt' if tier == 'quick' else 'pPQiIjJtT'
    hs = (45, 80, 130, 400) if tier == 'quick' else (34, 45, 60, 80, 100, 130, 200, 400)
    for cols in (1, 2, 3, 4):
        for gap in gaps:
            for seq in seqs(kinds, 2 if tier == 'quick' else 3, 1):
                for h in hs:
                    for st in ({}, M(left=5, top=3)):
                        t = (cols, seq, st, gap)
                        if node_fits(Node(t, None, {}), BW, h):
                            yield (t, h)
    # margins of the elements themselves
    own = [{}, M(right=20), M(left=10, right=5, top=3, bottom=8)]
    for cols in (2, 3):
        for seq in itertools.product('pPit', repeat=2):
            for s1, s2 in itertools.product(own, repeat=2):
                for st in ({}, M(right=9)) if tier == 'quick' else ({}, M(right=9), M(left=4, top=2)):
                    for h in (60, 110) if tier == 'quick' else (45, 60, 80, 110, 400):
                        t = (cols, ((seq[0], s1), (seq[1], s2), 'P'), st, None)
                        if node_fits(Node(t, None, {}), BW, h):
                            yield (t, h)
    if tier == 'quick':
        for cols in (2, 3):
            for seq in itertools.product('pPit', repeat=3):
                for h in (60, 110):
                    t = (cols, seq, {}, None)
                    if node_fits(Node(t, None, {}), BW, h):
                        yield (t, h)


def run_columns(case, r):
    t, h = case
    verify(t, [(30, 1000, BW, h), (51, 777, BW, h)], r)


# -- nesting -------------------------------------------------------------------

def gen_nested(tier):
    kinds = 'pPi' if tier == 'quick' else 'pPit'
    inner = [(c, seq, st) for c in (1, 2, 3) for seq in seqs(kinds, 2, 1) for st in ({}, M(left=6, bottom=9, top=2))]
    ends = ['', 'p', 'P', 'i']
    for oc in (1, 2, 3):
        for n in inner:
            for a in ends:
                for b in ends:
                    for h in ((75, 300) if tier == 'quick' else (45, 60, 75, 100, 150, 300)):
                        t = (oc, tuple(a) + (n,) + tuple(b))
                        if node_fits(Node(t, None, {}), BW, h):
                            yield (t, h)
    # two nested boxes and three levels
    small = [(c, seq) for c in (1, 2) for seq in (('p',), ('P',), ('i', 'p'), ('P', 'p'))]
    for oc in (1, 2):
        for n1, n2 in itertools.product(small, repeat=2):
            for h in ((75, 300) if tier == 'quick' else (60, 75, 100, 150, 300)):
                for t in ((oc, (n1, n2)), (oc, (n1, 'p', n2)), (oc, ((2, (n1, 'p')), n2)), (oc, ('p', (1, (n1, n2)), 'p'))):
                    if node_fits(Node(t, None, {}), BW, h):
                        yield (t, h)


def run_nested(case, r):
    t, h = case
    verify(t, [(30, 1000, BW, h)], r)


# -- more elements, columns and levels ----------------------------------------------

def gen_large(tier):
    q = tier == 'quick'
    pats = ['p', 'P', 'i', 't', 'pP', 'Pi', 'pt', 'It', 'pPi', 'tiP', 'PPPi', 'pIjt']
    own = [{}, M(top=4, bottom=9), M(left=8, right=3, top=2.5)]
    for k, pat in enumerate(pats):
        for n in (5, 9, 16) if q else (4, 5, 6, 8, 10, 13, 16, 21):
            for cols in (1, 4, 5, 7) if q else (1, 2, 3, 4, 5, 6, 7):
                for gap in (None, 12) if cols > 1 else (None,):
                    for h in (75, 210) if q else (40, 52, 75, 110, 140, 210, 400):
                        if cols == 7 and 't' in pat:
                            continue        # words would not fit the cells
                        els = tuple((c, own[(i + k) % 3]) for i, c in enumerate((pat * n)[:n]))
                        t = (cols, els, own[(k + n) % 3], gap)
                        if node_fits(Node(t, None, {}), 430, h):
                            yield (t, h)
    for depth in range(4, 7):
        for cs in itertools.product((1, 2), repeat=depth):
            if cs.count(2) > 3 or q and cs.count(2) > 2:
                continue
            for k, (a, b, c) in enumerate((('P', 'p', ''), ('p', 'P', 'p'), ('', 'P', 'i'), ('i', 'pPi', 'p'))):
                t = (cs[-1], tuple(b), own[k % 3])
                for i, m in enumerate(cs[-2::-1]):
                    t = (m, tuple(a) + (t,) + tuple(c), own[(i + k) % 3])
                for h in (47, 75, 160) if not q else (75,) if len(cs) > 5 else (60, 160):
                    if node_fits(Node(t, None, {}), 430, h):
                        yield (t, h)


def run_large(case, r):
    t, h = case
    verify(t, [(30, 1000, 430, h)], r)


# -- what follows on the page --------------------------------------------------

def gen_follow(tier):
    trees = [(c, seq, st) for c in (1, 2, 3) for seq in seqs('pPit', 2, 1) for st in ({}, M(left=7, bottom=3))]
    trees += [(oc, ('p', (c, seq)), {}) for oc in (1, 2) for c in (1, 2) for seq in seqs('pP', 2, 1)]
    for t in trees:
        for nxt in 'pit':
            for h in (120, 500):
                yield (t, nxt, h)


def run_follow(case, r):
    """PDF.content twice: the second box starts where the first one ends"""
    t, nxt, h = case
    size = (BW + 40, h)
    pdf = PDF(page_size=size, margin=(10, 20), font_size=S)
    pdf.add_page()
    mk = Maker()
    a = Node(t, None, {})
    if not node_fits(a, BW, h - 20):
        return
    pdf.content(a.build(mk))
    b = Node((1, (nxt,)), None, {})
    pdf.content(b.build(mk))
    d = Doc(output(pdf))
    r.trans += len(d.pages)
    ats = atoms(d)
    if not conserved(ats, mk, r):
        return
    overlaps(ats, r)
    rects = [(20, 10, BW, h - 20)]
    ids = set(b.leaves()[0].ids)
    mine = [x for x in ats if x.id in ids]
    rest = [x for x in ats if x.id not in ids]
    pa = find_pieces(a, rest, rects, r)
    pb = find_pieces(b, mine, rects, r)
    if pa is None or pb is None:
        return
    for pi, p in enumerate(d.pages):
        ga, gb = region(pa, a, pi, ()), region(pb, b, pi, ())
        for g in (ga, gb):
            if g:
                r.expect(g[0] <= h - 10 + 0.02 and g[1] >= 10 - 0.02, 'outside-margins', lambda: repr(g))
        if ga:
            chain(pa, a, pi, (), h - 10, r)
        if gb:
            want = ga[1] if ga else h - 10
            slack = SLACK if multi(a) and ga else 0
            r.expect(want - slack - 0.04 <= gb[0] <= want + 0.04, 'following-box', lambda: 'starts at %.3f, the box before ends at %.3f' % (gb[0], want))
    r.compared += 1
    r.state(doc_digest(d))


FAMILIES = [
    Family('margins', gen_margins, run_margins, 'one-column boxes of 2 or 3 elements of 3-4 kinds x margin styles of every element, of the box and of a nested box'),
    Family('columns', gen_columns, run_columns, '1-4 columns x 4 gaps x sequences of 2 (3) elements x heights, with and without margins'),
    Family('nested', gen_nested, run_nested, 'boxes in boxes of 1-3 columns with elements before and after; pairs of boxes; three levels'),
    Family('large', gen_large, run_large, '12 patterns of 5 to 16 (21) elements with margins in 1 to 7 columns, chains of 4 to 6 boxes'),
    Family('follow', gen_follow, run_follow, 'two consecutive PDF.content calls'),
]
