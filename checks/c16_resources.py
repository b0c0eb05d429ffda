"""C16: pages declare the resources they use; nothing dangles; resources are stored once."""
import itertools

from mc.engine import Family
from mc.par import *
from mc import nav

PROPERTY = 'C16'
EXPLANATION = (
    'Bounded exhaustive enumeration of sequences of elements using every standard font, images and links over pages, columns, tables, groups, lists, '
    'footnotes and running sections, and of sequences of operations that move between pages.  Every painted string must be shown in the font asked for, '
    'through the resources of its own page; every painted image must be the one asked for; every reference must resolve; every font and image is stored once.')
ASSUMPTIONS = ['images with the same name have the same contents']

FONTS = {'Helvetica': {'n': 'Helvetica', 'b': 'Helvetica-Bold', 'i': 'Helvetica-Oblique', 'bi': 'Helvetica-BoldOblique'},
         'Times': {'n': 'Times-Roman', 'b': 'Times-Bold', 'i': 'Times-Italic', 'bi': 'Times-BoldItalic'},
         'Courier': {'n': 'Courier', 'b': 'Courier-Bold', 'i': 'Courier-Oblique', 'bi': 'Courier-BoldOblique'},
         'Symbol': dict.fromkeys(['n', 'b', 'i', 'bi'], 'Symbol'), 'ZapfDingbats': dict.fromkeys(['n', 'b', 'i', 'bi'], 'ZapfDingbats')}
ALL = [(f, m) for f in FONTS for m in FONTS[f]]
BASE = {FONTS[f][m]: (f, m) for f, m in ALL}
LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def fstyle(k):
    f, m = ALL[k % len(ALL)]
    return {'f': f, 'b': 'b' in m, 'i': 'i' in m}


def fname(k):
    f, m = ALL[k % len(ALL)]
    return FONTS[f][m]


PIX = {}     # image name -> jpeg bytes


def pic(n, w=None, h=40):
    """image n of the pool: 100 + n pixels wide"""
    return jpeg(100 + n, h)


class M:
    def __init__(self):
        self.font = {}    # letter -> base font name
        self.links = []
        self.labels = set()
        self.images = []  # drawn images (pixel widths), in any order
        self.names = set()
        self.k = 0

    def l(self, k=0):
        a = LET[self.k]
        self.k += 1
        self.font[a] = fname(k)
        return a


def check_res(data, m, r, order=None, everything=True):
    d = Doc(data)
    pdf = d.pdf
    ds = nav.dests(d)
    todo = list(nav.outlines(d)[0])
    while todo:
        o = todo.pop()
        todo += o.kids
        r.expect(o.dest in ds, 'dangling-outline', lambda: repr(o))
    seen = set()
    drawn = []
    fobj = {}
    for pi, p in enumerate(d.pages):
        for t in p.texts:
            for c in t.text:
                if c in m.font:
                    seen.add(c)
                    if not r.expect(t.font == m.font[c], 'wrong-font', lambda: 'page %d: %r shown in %s, expected %s' % (pi, t.text, t.font, m.font[c])):
                        return d
        fonts = pdf.get(pdf.get(p.dict.get('Resources')).get('Font')) or {}
        for n, ref in fonts.items():
            if not r.expect(isinstance(ref, Ref), 'font-reference', lambda: repr(ref)):
                return d
            b = str(pdf.get(ref).get('BaseFont'))
            fobj.setdefault(b, set()).add(ref.num)
        for q in p.images:
            st = pdf.objects[q[4]]
            drawn.append(st.dict['Width'])
            w = st.dict['Width'] - 100
            r.expect(st.data == pic(w), 'image-data', lambda: 'page %d: image object %d of width %d does not hold its file' % (pi, q[4], w + 100))
        for a in p.annots:
            k, v = nav.link_target(pdf, a)
            r.expect(k == 'uri' or v in ds or v not in m.labels, 'dangling-link', lambda: repr(v))
    if everything:
        r.expect(seen == set(m.font), 'text-missing', lambda: 'shown %s, expected %s' % (sorted(seen), sorted(m.font)))
        r.expect(sorted(drawn) == sorted(100 + i for i in m.images), 'images-drawn', lambda: 'widths drawn %s, expected %s' % (sorted(drawn), sorted(100 + i for i in m.images)))
    for b, s in fobj.items():
        r.expect(len(s) == 1, 'font-twice', lambda: '%s is in objects %s' % (b, sorted(s)))
    nf = {}
    ni = {}
    for num, o in pdf.objects.items():
        if isinstance(o, dict) and o.get('Type') == 'Font' and o.get('Subtype') == 'Type1':
            nf.setdefault(str(o['BaseFont']), []).append(num)
        if isinstance(o, Stream) and o.dict.get('Subtype') == 'Image':
            ni.setdefault(o.dict['Width'], []).append(num)
    r.expect(all(len(v) == 1 for v in nf.values()), 'font-twice', lambda: str(nf))
    r.expect(all(len(v) == 1 for v in ni.values()), 'image-twice', lambda: str(ni))
    for path, ref in pdf.walk_refs():
        r.expect(ref.num in pdf.objects, 'dangling-ref', lambda: '%r %r' % (path, ref))
        r.trans += 1
    r.compared += 1
    r.state((doc_digest(d), tuple(sorted((b, len(s)) for b, s in fobj.items()))))
    return d


# ---- documents -------------------------------------------------------------------

class B(M):
    def img(self, n, **k):
        self.images.append(n)
        self.names.add(n)
        return dict({'image': io.BytesIO(pic(n)), 'image_name': 'pic%d' % n, 'extension': 'jpg'}, **k)

    def txt(self, k):
        return {'.': self.l(k), 'style': fstyle(k)}

    def el(self, kind, k):
        if kind == 'p':
            return self.txt(k)
        if kind == 'q':      # two fonts, long: breaks over pages
            a, b = self.l(k), self.l(k + 5)
            return {'.': [{'.': (a * 3 + ' ') * 30, 'style': fstyle(k)}, {'.': (b * 3 + ' ') * 40, 'style': fstyle(k + 5)}]}
        if kind == 'l':
            a, b = self.l(k), self.l(k + 1)
            return {'.': b, 'style': dict(fstyle(k + 1), list_text=a, list_style=fstyle(k))}
        if kind == 't':
            return {'table': [[self.txt(k), self.txt(k + 3)], [self.txt(k + 6), self.img(k % 3)]]}
        if kind == 's':      # rowspan over rows, fonts of each
            a, b = self.l(k), self.l(k + 2)
            return {'table': [[{'rowspan': 2, '.': (a * 2 + ' ') * 30, 'style': fstyle(k)}, self.txt(k + 4)], [None, {'.': (b * 2 + ' ') * 30, 'style': fstyle(k + 2)}]]}
        if kind == 'c':
            return {'cols': {'count': 2}, 'content': [self.txt(k), self.txt(k + 1), self.txt(k + 2)]}
        if kind == 'n':
            return {'style': fstyle(k), 'content': [self.l(k), {'content': [self.l(k), self.img((k + 1) % 3)]}]}
        if kind == 'g':
            return {'group': [self.img(k % 3), self.txt(k)]}
        if kind == 'i':
            return self.img(k % 3)
        if kind == 'f':
            a, b = self.l(k), self.l(k + 1)
            self.font.update({})
            return {'.': [{'.': a, 'style': fstyle(k)}, {'footnote': {'.': b, 'style': fstyle(k + 1)}}]}
        if kind == 'u':
            n = self.k
            self.labels.add('L%d' % n)
            return {'.': [{'.': self.l(k), 'style': fstyle(k), 'label': 'L%d' % n}, {'.': '-', 'ref': 'L%d' % n}, {'.': '-', 'ref': 'nowhere'},
                          {'.': '-', 'uri': 'http://u'}], 'outline': {'text': 't'}}
        raise ValueError(kind)


KINDS = 'pqltscngifu'


def gen_docs(tier):
    for s in seqs(KINDS, 2, 1):
        for h in (90, 180):
            for cols in (1, 2):
                for rs in (0, 1):
                    yield (''.join(s), h, cols, rs)
    for s in itertools.product(KINDS, repeat=3):
        for h in ((90, 180, 500) if tier != 'quick' else (90, 140)):
            yield (''.join(s), h, 1, 1)
            if h == 140:
                yield (''.join(s), h, 2, 0)
    if tier != 'quick':
        for s in itertools.product('pqtgif', repeat=4):
            yield (''.join(s), 120, 1, 1)
            yield (''.join(s), 120, 2, 0)


def run_docs(case, r):
    seq, h, cols, rs = case
    b = B()
    els = [b.el(k, 3 * i + 1) for i, k in enumerate(seq)]
    sec = {'content': els}
    if cols > 1:
        sec['cols'] = {'count': cols}
    doc = {'style': {'s': 8, 'page_size': (240, h + 50), 'margin': 25}, 'sections': [sec]}
    rl = None
    if rs:
        hd = B()
        hd.k = len(LET) - 4
        rl = hd
        head = {'.': hd.l(7), 'style': fstyle(7)}
        foot = [hd.txt(9)]
        doc['running_sections'] = {'h': {'x': 'left', 'y': 20, 'width': 100, 'height': 20, 'style': {'s': 8}, 'content': [head]},
                                   'f': {'x': 'right', 'y': 'bottom', 'width': 100, 'height': 20, 'style': {'s': 8}, 'content': foot}}
        sec['running_sections'] = ['h', 'f']
        b.font.update(hd.font)
    check_res(build(doc), b, r)


# ---- fonts -------------------------------------------------------------------------

def gen_fonts(tier):
    n = len(ALL)
    for s in itertools.product(range(n), repeat=2):
        for form in ('part', 'par', 'page'):
            yield (s, form)
    for s in itertools.product(range(n) if tier != 'quick' else (0, 3, 5, 8, 12, 13), repeat=3):
        for form in ('part', 'par', 'page', 'dot'):
            yield (s, form)
    yield (tuple(range(n)), 'part')
    yield (tuple(range(n)), 'page')
    yield (tuple(reversed(range(n))) + tuple(range(n)), 'page')


def run_fonts(case, r):
    s, form = case
    m = M()
    pdf = PDF(page_size=(600, 400), margin=20)
    pdf.add_page()
    parts = []
    for k in s:
        f, md = ALL[k]
        if form == 'dot':
            p = {'.f:%s;%s' % (f, ''.join(x + ';' for x in md if x != 'n')): m.l(k)}
        else:
            p = {'.': m.l(k), 'style': fstyle(k)}
        parts.append(p)
    if form in ('part', 'dot'):
        pdf.text([x for p in parts for x in (p, ' ')])
    else:
        for p in parts:
            pdf.text(p)
            if form == 'page':
                pdf.add_page()
    check_res(output(pdf), m, r)


# ---- operations over pages -----------------------------------------------------------

OPS = ['page', 'back', 't0', 't1', 'i0', 'i1', 'cell', 'box', 'out']


def gen_ops(tier):
    n = 4 if tier == 'quick' else 5
    for s in seqs(OPS, n, 1):
        if s[0] != 'back' and s[-1] != 'out':
            yield s
    for s in itertools.product(('page', 'back', 't0', 'i0', 'i1', 'cell'), repeat=n + 1):
        if s[0] == 'page':
            yield s


def run_ops(case, r):
    m = M()
    pdf = PDF(page_size=(300, 900), margin=10)
    pdf.add_page()
    want = [([], [])]
    cur = 0

    def image(n):
        m.images.append(n)
        want[cur][1].append(100 + n)
        return io.BytesIO(pic(n)), 'jpg', 'pic%d' % n
    for i, op in enumerate(case):
        if op == 'page':
            pdf.add_page()
            want.append(([], []))
            cur = len(want) - 1
        elif op == 'back':
            cur = (cur - 1) % len(want)
            pdf.page_index = cur
        elif op[0] == 't':
            k = 4 + int(op[1])
            l = m.l(k)
            want[cur][0].append(l)
            pdf.text(l, **{'text_align': 'l'}) if k < 0 else pdf.text({'.': l, 'style': fstyle(k)})
        elif op[0] == 'i':
            pdf.image(*image(int(op[1])), width=20)
        elif op == 'cell':
            l = m.l(8)
            want[cur][0].append(l)
            im = image(0)
            pdf.table([[{'.': l, 'style': fstyle(8)}, {'image': im[0], 'extension': im[1], 'image_name': im[2]}]], widths=[1, 1])
        elif op == 'box':
            l = m.l(5)
            want[cur][0].append(l)
            im = image(1)
            pdf.content({'cols': {'count': 2}, 'content': [{'.': l, 'style': fstyle(5)}, {'image': im[0], 'extension': im[1], 'image_name': im[2]}]})
            # contents that do not fit continue in new pages
            while len(pdf.pages) > len(want):
                want.append(None)
        elif op == 'out':
            check_res(output(pdf), m, r)
            if r.viol:
                return
        if any(w is None for w in want):
            return
    d = check_res(output(pdf), m, r)
    got = [([c[0] for c in chars(p)], [d.pdf.objects[q[4]].dict['Width'] for q in p.images]) for p in d.pages]
    r.expect([(sorted(a), sorted(b)) for a, b in got] == [(sorted(a), sorted(b)) for a, b in want], 'wrong-page', lambda: '%s, expected %s' % (got, want))


# ---- images ---------------------------------------------------------------------------

def gen_images(tier):
    n = 5 if tier == 'quick' else 7
    for s in seqs('012p', n, 1):
        yield s
    for s in seqs('012', 5 if tier == 'quick' else 7, 1):
        for h in (60, 120):
            yield ('box', s, h)
    for a in NAMES:
        for b in NAMES:
            for how in ('page', 'box', 'pages'):
                yield ('names', a, b, how)


def gen_many(tier):
    for n in (8, 11, 24, 50) if tier == 'quick' else (8, 9, 10, 11, 12, 16, 17, 24, 33, 50, 101):
        for uniq in (3, 9, 10, 13, 40, 101):
            for per in (1, 4, 11, 100):
                for how in ('page', 'box', 'back'):
                    if uniq <= n + 3:
                        yield ('many', n, uniq, per, how)
    for n in (60, 130) if tier == 'quick' else range(20, 300, 20):
        for per in (11, 64, 1000):
            for how in ('page', 'box', 'back'):
                yield ('many', n, 1000, per, how)     # all different


def run_many(case, r):
    _, n, uniq, per, how = case
    m = M()
    seq = [(i * i + i // uniq) % uniq if uniq < 1000 else i for i in range(n)]
    want = []
    pdf = PDF(page_size=(300, 700), margin=10)
    pages = [seq[i:i + per] for i in range(0, n, per)]
    if how == 'back':
        # the pages first, and then an image on each page in turn
        for q in pages:
            pdf.add_page()
        todo = [(j, pi, k) for pi, q in enumerate(pages) for j, k in enumerate(q)]
        order = sorted(todo)
    else:
        order = [(j, pi, k) for pi, q in enumerate(pages) for j, k in enumerate(q)]
    want = [[100 + k for k in q] for q in pages]
    if how == 'box':
        for q in pages:
            pdf.add_page()
            pdf.content({'style': {'margin_bottom': 0}, 'content': [{'image': io.BytesIO(pic(k)), 'extension': 'jpg', 'image_name': 'many%d' % k, 'style': {'margin_bottom': 0, 'margin_right': 250}} for k in q[:40]]})
        want = [q[:40] for q in want]
        order = [o for o in order if o[0] < 40]
    else:
        cur = None
        for j, pi, k in order:
            if how == 'back':
                pdf.page_index = pi
            elif pi != cur:
                pdf.add_page()
                cur = pi
            pdf.image(io.BytesIO(pic(k)), 'jpg', 'many%d' % k, width=9)
            if j % 3 == 0 and m.k < 50:
                pdf.page.x = 10
                pdf.text({'.': m.l(m.k), 'style': dict(fstyle(m.k - 1), s=4)})
    m.images = [o[2] for o in order]
    d = check_res(output(pdf), m, r)
    got = [[d.pdf.objects[q[4]].dict['Width'] for q in p.images] for p in d.pages]
    r.expect(got == want, 'image-page', lambda: '%s, expected %s' % (got, want))


NAMES = ['a', 'b', 'A', 'a.jpg', 'a.png', 'b.jpg', '/x/a.jpg', '/y/a.jpg', 'x/a.jpg', './a', '../a', 'a ', ' a', 'a/', '', 'Im0', 'Im1', '0', '1', 'é', 'e\u0301', '\u4e2d', 'a' * 200, 'a' * 201, 'a#1', 'a?1', '$a', 'C:\\a', 'C:\\b']


def run_images(case, r):
    b = B()
    if case[0] == 'names':
        _, a, c, how = case
        pdf = PDF(page_size=(300, 300), margin=10)
        pdf.add_page()
        want = [[]]
        for i, n in enumerate((a, c, a)):
            w = 100 + (n != a)
            kw = {'image': io.BytesIO(jpeg(w, 40)), 'extension': 'jpg', 'image_name': n}
            if how == 'box':
                pdf.content({'content': [kw], 'style': {'margin_right': 200}})
            else:
                if how == 'pages' and i:
                    pdf.add_page()
                    want.append([])
                pdf.image(width=30, **kw)
            want[-1].append(w)
        b.images = [w - 100 for w in want[0] + (want[1] if how == 'pages' else []) + (want[2] if how == 'pages' else [])]
        d = check_res(output(pdf), b, r)
        got = [[d.pdf.objects[q[4]].dict['Width'] for q in p.images] for p in d.pages]
        r.expect(got == want, 'image-name', lambda: '%s, expected %s' % (got, want))
        return
    if case[0] == 'box':
        _, s, h = case
        doc = {'style': {'page_size': (100, h), 'margin': 5}, 'sections': [{'content': [b.img(int(c)) for c in s]}]}
        check_res(build(doc), b, r)
        return
    pdf = PDF(page_size=(300, 300), margin=10)
    pdf.add_page()
    want = [[]]
    for c in case:
        if c == 'p':
            pdf.add_page()
            want.append([])
        else:
            n = int(c)
            b.images.append(n)
            want[-1].append(100 + n)
            pdf.image(io.BytesIO(pic(n)), 'jpg', 'pic%d' % n, width=30)
    d = check_res(output(pdf), b, r)
    got = [[d.pdf.objects[q[4]].dict['Width'] for q in p.images] for p in d.pages]
    r.expect(got == want, 'image-page', lambda: '%s, expected %s' % (got, want))


FAMILIES = [
    Family('documents', gen_docs, run_docs, 'sequences of 1-2 (3-4) elements of 11 kinds over page heights, columns and running sections'),
    Family('fonts', gen_fonts, run_fonts, 'all pairs and triples of the 14 standard fonts as parts, paragraphs and pages'),
    Family('operations', gen_ops, run_ops, 'all sequences of 9 operations up to 4 (5) on pages visited in any order, with outputs in between'),
    Family('images', gen_images, run_images, 'all sequences of 3 images and page breaks up to 5 (7), in pages and in boxes; all pairs of 29 similar names'),
    Family('many', gen_many, run_many, '8 to 130 (280) drawings of 3 to 130 (280) images, 1 to all of them on a page, in order or page by page in turn, with texts in all the fonts'),
]
