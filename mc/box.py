"""Content boxes: elements with an identity, driving, and reading them back."""
from .tab import *

BW = 200.0
S = 8


def words(l, n):
    return ' '.join([l * 2] * n)


class Maker:
    """Builds elements; every leaf gets a letter or an image number."""

    def __init__(self):
        self.n = 0          # letters
        self.m = 0          # images
        self.order = []     # ids in reading order
        self.count = {}     # letter -> number of chars
        self.img = {}       # image id -> (w, h) pixels
        self.flow = set()   # ids of images that may be delayed
        self.leaves = []    # (kind, ids)

    def letter(self, n):
        l = LETTERS[self.n]
        self.n += 1
        self.count[l] = 2 * n
        self.order.append(l)
        return words(l, n)

    def image(self, ratio, place=None, style=None):
        k = self.m
        self.m += 1
        wpx = 1000 + k
        hpx = max(1, int(round(wpx * ratio)))
        d = {'image': jpg_io(wpx, hpx), 'extension': 'jpg', 'image_name': 'img%d' % k}
        st = dict(style or {})
        if place:
            st['image_place'] = place
        if st:
            d['style'] = st
        i = '#%d' % k
        self.img[i] = (wpx, hpx)
        self.order.append(i)
        if place != 'normal':
            self.flow.add(i)
        return d

    def leaf(self, kind, style=None):
        """p: one line, P: many lines, i/j: flow images, I/J: normal images,
        t: table with a row, T: table with three rows, s: plain string, n: number, u: tuple,
        z: table without cells"""
        n0 = len(self.order)
        if kind == 'p':
            el = {'.': self.letter(2)}
        elif kind == 's':
            el = self.letter(3)
        elif kind == 'P':
            el = {'.': self.letter(60)}
        elif kind == 'Q':
            el = [self.letter(25)]
        elif kind == 'u':
            a = self.letter(2)
            el = (a, {'.b': ' ' + self.letter(1)})
        elif kind in 'ij':
            el = self.image(0.15 if kind == 'i' else 0.3)
        elif kind in 'IJ':
            el = self.image(0.15 if kind == 'I' else 0.3, 'normal')
        elif kind == 't':
            el = {'table': [[self.letter(1), self.letter(2)]]}
        elif kind == 'n':
            k = str(sum(q.isdigit() for q in self.order) + 1)
            self.count[k] = 2
            self.order.append(k)
            el = int(k * 2)
        elif kind == 'z':
            el = {'table': [[] for _ in range(self.n % 3)]}
        elif kind == 'T':
            el = {'table': [[self.letter(1)], [self.letter(8)], [self.letter(1)]]}
        else:
            raise ValueError(kind)
        if style:
            if not isinstance(el, dict):
                el = {'.': el}
            el['style'] = dict(el.get('style') or {}, **style)
        self.leaves.append((kind, tuple(self.order[n0:])))
        return el

    def tree(self, t, style=None):
        """t: kind string or (cols, [children]) or (cols, [children], extra)"""
        if isinstance(t, str):
            return self.leaf(t, style)
        cols, kids = t[0], t[1]
        d = {'content': [self.tree(k) for k in kids]}
        if cols != 1 or len(t) > 2:
            d['cols'] = {'count': cols}
            if len(t) > 2:
                d['cols'].update(t[2])
        if style:
            d['style'] = style
        return d


IMG_RATIO = {'i': 0.15, 'I': 0.15, 'j': 0.3, 'J': 0.3}


def fits(t, w, h):
    """every indivisible element of the tree fits an empty rectangle"""
    if isinstance(t, str):
        if t in IMG_RATIO:
            return w * IMG_RATIO[t] + 0.5 < h
        if t in 'tT':
            return h > 10.5 + S + 1.1 + 0.5 and w / 2 > 10.5 + 9
        return h > S + 1.1 + 0.5
    cols = t[0]
    gap = max(w / 25, 7)
    cw = (w - gap * (cols - 1)) / cols
    return all(fits(k, cw, h) for k in t[1])


def run_box(content, rects, pdf=None, limit=60):
    """Lays a content box over rects [(x, ytop, w, h)], one page each."""
    if pdf is None:
        pdf = PDF(page_size=(PW, PH), margin=0, font_size=S)
    obj = content
    heights = []
    i = 0
    while True:
        x, y, w, h = rects[min(i, len(rects) - 1)]
        pdf.add_page()
        obj = pdf._content(obj, w, h, x, y)
        heights.append(obj.current_height)
        i += 1
        if obj.finished:
            return pdf, heights, True
        if i >= limit:
            return pdf, heights, False


class Atom:
    """A painted line of text or image."""
    __slots__ = ('id', 'page', 'x0', 'x1', 'top', 'bottom', 'seq', 'n', 'block')

    def __repr__(self):
        return '%s p%d x %.1f..%.1f y %.2f..%.2f' % (self.id, self.page, self.x0, self.x1, self.top, self.bottom)


def atoms(d, maker=None, s=S):
    """Painted lines (grouped by letter and baseline) and images of every page,
    in painting order: images come where they were painted.  Tops are those of
    the paragraph lines (baseline plus font size)."""
    out = []
    dims = {}
    for pi, p in enumerate(d.pages):
        cur = None
        items = [(t.seq, 't', t) for t in p.texts] + [(q[5], 'i', q) for q in p.images]
        for seq, k, q in sorted(items, key=lambda v: v[0]):
            if k == 't':
                for ch, x0, x1 in q.chars:
                    if ch == ' ':
                        continue
                    if cur is not None and cur.id == ch and cur.page == pi and cur.block == q.block and cur.bottom == q.y and x0 > cur.x0:
                        cur.x1 = x1
                        cur.n += 1
                        continue
                    a = Atom()
                    a.id, a.page, a.x0, a.x1, a.bottom, a.top, a.seq, a.n = ch, pi, x0, x1, q.y, q.y + q.size, seq, 1
                    a.block = q.block
                    out.append(a)
                    cur = a
            else:
                x, y, w, h, ref, sq = q
                if ref not in dims:
                    o = d.pdf.get(Ref(ref, 0))
                    dims[ref] = '#%d' % (o.dict['Width'] - 1000)
                a = Atom()
                a.id, a.page, a.x0, a.x1, a.bottom, a.top, a.seq, a.n = dims[ref], pi, x, x + w, y, y + h, seq, 0
                a.block = None
                out.append(a)
                cur = None
    return out


def conserved(ats, mk, r):
    """Every element shown exactly once."""
    got = {}
    for a in ats:
        if a.id not in mk.count and a.id not in mk.img:
            r.fail('extra-element', 'painted %r' % a)
            return False
        got[a.id] = got.get(a.id, 0) + (a.n or 1)
    for k, n in list(mk.count.items()) + [(k, 1) for k in mk.img]:
        if got.get(k, 0) != n:
            r.fail('lost-text' if got.get(k, 0) < n else 'repeated-text' if k in mk.count else 'repeated-image',
                   'element %s: %d shown, expected %d (elements %s)' % (k, got.get(k, 0), n, mk.order))
            return False
    return True
