"""C23: elements added with the methods of PDF use its defaults and its position."""
import itertools

from mc.engine import Family
from mc.par import *

PROPERTY = 'C23'
EXPLANATION = (
    'Bounded exhaustive enumeration of sequences of operations on a PDF object (texts, tables, boxes, images, new pages, changes '
    'of page, position, page layout and defaults, running sections, outputs) against a model with one position per page and the current defaults. '
    'Every character painted must be where the model says, in the style the defaults and arguments give, and the position reported after every '
    'operation must be the one of the model.')
ASSUMPTIONS = ['one line fits an empty page', 'images are not moved to another page by the methods of PDF']
LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
CELL = 5.25


class Model:
    def __init__(self, **d):
        self.kw = dict(page_size=(150, 120), margin=(10, 13, 17, 21), font_size=8)
        self.kw.update(d)
        self.pdf = PDF(**self.kw)
        self.size = self.kw['page_size']
        self.margin = self.kw['margin']
        self.d = {'f': d.get('font_family', 'Helvetica'), 's': self.kw['font_size'], 'c': d.get('font_color', 0.1)}
        self.align = d.get('text_align', 'l')
        self.lh = d.get('line_height', 1.1)
        self.indent = d.get('indent', 0)
        self.rotate = False
        self.pages = []       # [size, margin, x, y]
        self.cur = None
        self.want = []        # per page [(char, x, baseline from the top, Style)]
        self.imgs = []
        self.k = 0
        self.rs = []

    def new_page(self, page_size=None, rotate_page=None, margin=None):
        m = self.margin if margin is None else margin
        w, h = page_size or self.size
        rot = self.rotate if rotate_page is None else rotate_page
        self.pages.append([(h, w) if rot else (w, h), m, m[3], m[0]])
        self.want.append([])
        self.imgs.append([])
        self.cur = len(self.pages) - 1
        for ch, x, y in self.rs:
            self.want[-1].append((ch, x, y + self.d['s'] + self.lh, style_of(self.d)))

    def letters(self, n):
        l = LET[self.k]
        self.k += 1
        return ' '.join([l * 3] * n)

    def lines(self, t, x, w, st, lh, align, indent, left=0, mark=None, pad=0):
        """pours a text from the current position; pad: padding of a table cell"""
        ls = break_lines([(t, st)], w, align, indent, left)
        words = t.split(' ')
        i = 0
        while True:
            p = self.pages[self.cur]
            y = p[3] + pad
            low = p[0][1] - p[1][2] - pad
            n = 0
            while i < len(ls):
                h = lh * st.s if n else st.s + lh
                if abs(y + h - low) < 1e-6:
                    raise Tie()
                if y + h > low:
                    break
                y += h
                n += 1
                exp, s, e, f = place(ls[i], w, align, indent, left)
                if mark and i == 0:
                    q = x
                    for ch in mark:
                        if ch != ' ':
                            self.want[self.cur].append((ch, q, y, st))
                        q += st.w(ch)
                for ch, cx, cs in exp:
                    self.want[self.cur].append((ch, x + cx, y, cs))
                i += 1
                words = words[len(ls[i - 1].words):]
            if n:
                p[3] = y + pad
            if i >= len(ls):
                return
            self.new_page()
            self.pages[self.cur][2] = self.pages[self.cur][1][3]
            x = self.pages[self.cur][1][3] + pad
            if abs(self.content_width() - 2 * pad - w) > 1e-9:
                # the rest is broken again in the width of the new page
                w = self.content_width() - 2 * pad
                rest = break_lines([(' '.join(words), st)], w, align, 0 if i else indent, left)
                for ln in rest:
                    ln.first = ln.first and not i
                ls[i:] = rest

    def content_width(self):
        p = self.pages[self.cur]
        return p[0][0] - p[1][1] - p[1][3]

    def do(self, op):
        pdf = self.pdf
        name, a = op[0], op[1:]
        if self.cur is None and name not in ('page', 'setup', 'set', 'running'):
            return False
        if name == 'page':
            kw, = a
            pdf.add_page(**dict(kw))
            self.new_page(**dict(kw))
        elif name == 'text':
            n, kw, own = a
            kw, own = dict(kw), dict(own)
            t = self.letters(n)
            pdf.text({'.': t, 'style': dict(own)} if own else t, **kw)
            st = style_of(dict(self.d, **own))
            p = self.pages[self.cur]
            p[2] = p[1][3]
            mark = kw.get('list_text')
            self.lines(t, p[1][3], self.content_width(), st, kw.get('line_height', self.lh), kw.get('text_align') or self.align,
                       kw.get('indent', self.indent), left=st.w(mark) if mark else 0, mark=mark)
        elif name == 'table':
            n, = a
            t = self.letters(n)
            pdf.table([[t]])
            p = self.pages[self.cur]
            p[2] = p[1][3]
            self.lines(t, p[1][3] + CELL, self.content_width() - 2 * CELL, style_of(self.d), self.lh, self.align, self.indent, pad=CELL)
        elif name == 'content':
            n, = a
            t = self.letters(n)
            pdf.content({'content': [t]})
            p = self.pages[self.cur]
            p[2] = p[1][3]
            self.lines(t, p[1][3], self.content_width(), style_of(self.d), self.lh, self.align, self.indent)
        elif name in ('boxed', 'celled'):
            # an image in a content box, or in a table
            p = self.pages[self.cur]
            p[2] = p[1][3]
            pad = CELL if name == 'celled' else 0
            ml = 0 if pad else 31
            w = self.content_width() - ml - 2 * pad
            h = w * 20 / 37
            if p[3] + h + 2 * pad + 1 > p[0][1] - p[1][2]:
                raise Tie()
            im = {'image': jpg_io(37, 20), 'extension': 'jpg', 'image_name': 'i'}
            if pad:
                pdf.table([[im]])
            else:
                pdf.content({'content': [dict(im, style={'margin_left': ml, 'margin_bottom': 0})]})
            self.imgs[self.cur].append((p[1][3] + ml + pad, p[0][1] - p[3] - h - pad, w, h))
            p[3] += h + 2 * pad
        elif name == 'image':
            kw, = a
            kw = dict(kw)
            pdf.image(jpg_io(37, 20), 'jpg', 'i', **kw)
            p = self.pages[self.cur]
            p[2] = kw.get('x', p[2])
            p[3] = kw.get('y', p[3])
            w, h = kw.get('width'), kw.get('height')
            if w is None and h is None:
                w = self.content_width()
            if w is None:
                w = h * 37 / 20
            if h is None:
                h = w * 20 / 37
            self.imgs[self.cur].append((p[2], p[0][1] - p[3] - h, w, h))
            if kw.get('move') == 'next':
                p[2] += w
            else:
                p[3] += h
        elif name == 'go':
            i, = a
            if not -len(self.pages) <= i < len(self.pages):
                return False
            pdf.page_index = i
            self.cur = i % len(self.pages)
        elif name == 'at':
            x, y = a
            p = self.pages[self.cur]
            if x is not None:
                pdf.page.x = p[2] = x
            if y is not None:
                pdf.page.y = p[3] = y
        elif name == 'begin':
            pdf.page.go_to_beginning()
            p = self.pages[self.cur]
            p[2], p[3] = p[1][3], p[1][0]
        elif name == 'setup':
            size, rot, margin = a
            kw = {}
            if size is not None:
                self.size = size
                kw['page_size'] = size
            if rot is not None:
                kw['rotate_page'] = self.rotate = rot
            if margin is not None:
                self.margin = margin
                kw['margin'] = margin
            pdf.setup_page(**kw)
        elif name == 'set':
            k, v = a
            setattr(pdf, k, v)
            if k.startswith('font'):
                self.d[{'font_size': 's', 'font_color': 'c', 'font_family': 'f'}[k]] = v
            else:
                setattr(self, {'text_align': 'align', 'line_height': 'lh'}.get(k, k), v)
        elif name == 'running':
            pdf.add_running_section({'content': ['#']}, 50, 30, 3, 2)
            self.rs.append(('#', 3 + (self.indent if self.align in 'lj' else 0), 2))
        elif name == 'output':
            output(pdf)
        else:
            raise ValueError(name)
        return True

    def check_position(self, r, op):
        if self.cur is None:
            return True
        p = self.pages[self.cur]
        q = self.pdf.page
        ok = r.expect((self.pdf.width, self.pdf.height) == p[0] == (q.width, q.height) and near(q.content_width, self.content_width(), 1e-6)
                      and near(q.content_height, p[0][1] - p[1][0] - p[1][2], 1e-6) and self.pdf.page_index % len(self.pages) == self.cur, 'page',
                      lambda: 'after %r: page %s of %s x %s, expected page %s of %s' % (op, self.pdf.page_index, self.pdf.width, self.pdf.height, self.cur, p[0]))
        return ok and r.expect(near(q.x, p[2], 0.02) and near(q.y, p[3], 0.02), 'position',
                        lambda: 'after %r on page %d: (%.3f, %.3f), expected (%.3f, %.3f)' % (op, self.cur, q.x, q.y, p[2], p[3]))

    def check(self, r):
        if not r.expect(len(self.pdf.pages) == len(self.pages), 'pages', lambda: '%d pages, expected %d' % (len(self.pdf.pages), len(self.pages))):
            return None
        d = Doc(output(self.pdf))
        for i, (pg, want, im) in enumerate(zip(d.pages, self.want, self.imgs)):
            size = self.pages[i][0]
            key = lambda c: (c[0], -round(c[2], 1), c[1])        # equal characters are paired from the top and from the left
            got = sorted(chars(pg), key=key)
            exp = sorted(((ch, x, size[1] - y, st) for ch, x, y, st in want), key=key)
            if not r.expect([g[0] for g in got] == [e[0] for e in exp], 'page-text',
                            lambda: 'page %d shows %r, expected %r' % (i, ''.join(g[0] for g in got), ''.join(e[0] for e in exp))):
                return None
            for g, e in zip(got, exp):
                if not r.expect(near(g[1], e[1], 0.05) and near(g[2], e[2], 0.03), 'place',
                                lambda: 'page %d: %r at (%.3f, %.3f), expected (%.3f, %.3f)' % (i, g[0], g[1], g[2], e[1], e[2])):
                    return None
                if e[0] != '#':
                    n = len(r.viol)
                    check_style(g[3], e[3], r, 'page %d' % i)
                    if len(r.viol) > n:
                        return None
            r.expect(len(im) == len(pg.images) and all(near(a, b, 0.03) for p, q in zip(im, pg.images) for a, b in zip(p, q[:4])), 'image-place',
                     lambda: 'page %d: images %s, expected %s' % (i, [tuple(round(v, 3) for v in q[:4]) for q in pg.images], im))
        r.compared += 1
        return d


def go(m, ops, r):
    try:
        for op in ops:
            if not m.do(op):
                return
            r.trans += 1
            if not m.check_position(r, op):
                return
        d = m.check(r)
        if d:
            r.state(doc_digest(d))
    except Tie:
        pass


# -- operations -------------------------------------------------------------------

def F(**k):
    return tuple(sorted(k.items()))


OPS = [('text', 3, F(), F()), ('text', 52, F(), F()), ('text', 5, F(text_align='r', indent=7), F()),
       ('table', 4), ('table', 40), ('content', 12), ('boxed',), ('celled',), ('image', F()), ('image', F(height=9, move='next')), ('image', F(x=33, y=40, width=20)),
       ('page', F()), ('page', F(page_size=(171, 111), margin=(3, 4, 60, 6))), ('page', F(rotate_page=True)), ('go', 0), ('go', -2), ('at', 50, None), ('at', None, 77.5), ('begin',), ('setup', (131, 143), None, None), ('setup', None, True, None), ('setup', (160, 97), False, (20, 5, 6, 9)),
       ('set', 'font_size', 6.5), ('running',), ('output',)]


def gen_ops(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for seq in itertools.product(range(len(OPS)), repeat=k):
            if any(OPS[a][0] == OPS[b][0] and OPS[a][0] in ('begin', 'output', 'setup') and a == b for a, b in zip(seq, seq[1:])):
                continue
            yield seq


def run_ops(case, r):
    m = Model()
    # ends with texts on the current and on the next page
    go(m, (('page', F()),) + tuple(OPS[i] for i in case) + (('text', 4, F(), F()), ('content', 2), ('page', F()), ('text', 2, F(), F())), r)


# -- defaults and arguments ---------------------------------------------------------

DEF = [('font_family', ('Times', 'Courier')), ('font_size', (5, 13.5)), ('font_color', (0.5, (0.2, 0.4, 0.6))),
       ('text_align', ('r', 'c', 'j')), ('line_height', (1, 1.7, 2.5)), ('indent', (11, 30.5))]
ARG = [('text_align', ('l', 'r', 'c', 'j')), ('line_height', (1.1, 1.6)), ('indent', (0, 19)), ('list_text', ('- ', '1. '))]
OWN = [('f', ('Helvetica', 'Times')), ('s', (7, 15)), ('c', (0.1, 0.8))]


def pairs(opts):
    flat = [(k, v) for k, vs in opts for v in vs]
    yield ()
    for a in flat:
        yield (a,)
    for a, b in itertools.combinations(flat, 2):
        if a[0] != b[0]:
            yield (a, b)


def gen_defaults(tier):
    for d in pairs(DEF):
        for how in (0, 1):        # given to the constructor, or set afterwards
            if how == 1 and not d:
                continue
            for el in (('text', 15, F(), F()), ('text', 2, F(), F()), ('content', 15), ('table', 12)):
                yield (d, how, (el,))
            if len(d) < 2 or tier != 'quick':
                for a in pairs(ARG):
                    yield (d, how, (('text', 9, a, F()),))
                for o in pairs(OWN):
                    yield (d, how, (('text', 9, F(), o),))
    # a default changed between two elements
    els = [('text', 7, F(), F()), ('content', 7), ('table', 7)]
    for a in [(k, v) for k, vs in DEF for v in vs]:
        for e1, e2 in itertools.product(els, repeat=2):
            yield ((), 0, (e1, ('set',) + a, e2))
            for b in [(k, v) for k, vs in DEF for v in vs]:
                if tier != 'quick' or e1 == e2:
                    yield ((), 0, (e1, ('set',) + a, e2, ('set',) + b, e1))


def run_defaults(case, r):
    d, how, els = case
    big = dict(page_size=(190, 400), margin=(10, 13, 17, 21))
    if how == 0:
        m = Model(**dict(big, **dict(d)))
        ops = ()
    else:
        m = Model(**big)
        ops = tuple(('set',) + x for x in d)
    go(m, ops + (('page', F()),) + els, r)


# -- images ---------------------------------------------------------------------------

def image_args():
    for w, h, x, y, mv in itertools.product((None, 20, 200), (None, 9, 150), (None, 0, 33), (None, 0, 40), (None, 'bottom', 'next')):
        yield tuple((k, v) for k, v in (('height', h), ('move', mv), ('width', w), ('x', x), ('y', y)) if v is not None)


def gen_images(tier):
    every = list(image_args())
    some = every if tier != 'quick' else every[::19]
    for rot in (False, True):
        for a in every:
            for b in some:
                yield (rot, a, b)


def run_images(case, r):
    rot, a, b = case
    m = Model()
    go(m, (('page', F(rotate_page=rot)), ('text', 3, F(), F()), ('image', a), ('image', b), ('text', 2, F(), F())), r)


FAMILIES = [
    Family('operations', gen_ops, run_ops, 'all sequences of up to 3 (thorough: 4) of %d operations' % len(OPS) + ', followed by texts'),
    Family('images', gen_images, run_images, 'a text, two images with every combination of sizes, positions and moves, and a text'),
    Family('defaults', gen_defaults, run_defaults, 'all pairs of default values, given to the constructor or set later, with all pairs of arguments or own styles of an element; changes between elements'),
]
