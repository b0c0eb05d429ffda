"""C15: page, destination and outline trees are well formed and lead to the right place."""
import itertools

from mc.engine import Family
from mc.par import *
from mc import nav

PROPERTY = 'C15'
EXPLANATION = (
    'Bounded exhaustive enumeration of documents with every count of pages, labels and outlines, every outline level sequence, label name and '
    'order, and of histories with several outputs; the three trees are read back strictly and every entry is compared with the painted text it belongs to.')
ASSUMPTIONS = ['labels are unique and are on parts with visible text',
               'an outline whose level skips levels is nested as deep as the outlines before it allow',
               'the zoom of a destination is not specified']


# ---- model ---------------------------------------------------------------------

class Node:
    def __init__(self, title, level):
        self.title, self.level, self.kids = title, level, []


def forest(entries):
    """[(title, level)] -> top nodes"""
    top = []
    for title, level in entries:
        at = top
        d = 1
        while d < level and at:
            at = at[-1].kids
            d += 1
        at.append(Node(title, d))
    return top


def same(model, real, openlevel, r, dests, places, path=()):
    if not r.expect(len(model) == len(real), 'outline-structure', lambda: 'below %s: %s, expected %s' % (path, [o.title for o in real], [m.title for m in model])):
        return
    for m, o in zip(model, real):
        if not r.expect(o.title == m.title, 'outline-title', lambda: '%r, expected %r' % (o.title, m.title)):
            return
        if m.kids:
            r.expect((o.count > 0) == (m.level < openlevel), 'outline-open', lambda: '%r of level %d has Count %d with outlines_level %d' % (m.title, m.level, o.count, openlevel))
        if places is not None:
            d = dests.get(o.dest)
            p = places.get(m.title)
            if not r.expect(d is not None and p is not None and d[0] == p[0] and near(d[1], p[1], 0.03) and near(d[2], p[2], 0.03), 'outline-place', lambda: 'outline %r leads to %s, its text is at %s' % (m.title, d, p)):
                return
        same(m.kids, o.kids, openlevel, r, dests, places, path + (m.title,))


def starts(doc):
    """{word: (page, left, top)} of words '<letters><digits>' painted in 11 point or given size"""
    out = {}
    for pi, p in enumerate(doc.pages):
        for t in p.texts:
            word, x = '', None
            for ch, x0, x1 in list(t.chars) + [(' ', 0, 0)]:
                if ch == ' ':
                    if word:
                        out.setdefault(word, (pi, x, t.y + 0.75 * t.size))
                    word = ''
                else:
                    if not word:
                        x = x0
                    word += ch
    return out


def check_nav(data, r, labels, entries, openlevel=1, pages=None):
    d = Doc(data)
    where = starts(d)
    ds = nav.dests(d)
    real, mode = nav.outlines(d)
    r.trans += len(ds) + len(entries)
    if pages is not None:
        got = [''.join(c[0] for c in chars(p)) for p in d.pages]
        r.expect(got == pages, 'page-order', lambda: '%s, expected %s' % (got, pages))
    for lab, word in labels.items():
        g, w = ds.get(lab), where.get(word)
        if not r.expect(g is not None and w is not None and g[0] == w[0] and near(g[1], w[1], 0.03) and near(g[2], w[2], 0.03), 'label-place', lambda: 'label %r leads to %s, its text %r is at %s' % (lab, g, word, w)):
            return d
    ol = set()

    def coll(os_):
        for o in os_:
            ol.add(o.dest)
            coll(o.kids)
    coll(real)
    r.expect(set(ds) == set(labels) | ol, 'labels', lambda: 'destinations %s, labels %s, outlines %s' % (sorted(ds), sorted(labels), sorted(ol)))
    same(forest([(e[0], e[1]) for e in entries]), real, openlevel, r, ds, {e[0]: where.get(e[2]) for e in entries} if entries else None)
    r.expect((mode == 'UseOutlines') == bool(entries), 'page-mode', lambda: 'PageMode %s with %d outlines' % (mode, len(entries)))
    for p in d.pages:
        for a in p.annots:
            k, v = nav.link_target(d.pdf, a)
            r.expect(k != 'ref' or v in ds, 'dangling-link', lambda: repr(v))
    r.compared += 1
    r.state(doc_digest(d) + (tuple(sorted(labels)), str(real)))
    return d


# ---- page tree -----------------------------------------------------------------

def gen_pages(tier):
    for n in range(1, 101 if tier == 'quick' else 601):
        yield (n, 0)
    for n in range(1, 45 if tier == 'quick' else 300):
        yield (n, 1)


def run_pages(case, r):
    n, kind = case
    if kind == 0:
        pdf = PDF(page_size=(200, 300), margin=10)
        want = []
        for i in range(n):
            pdf.add_page((200 + i, 300))
            pdf.text('p%d' % i)
            want.append('p%d' % i)
        d = check_nav(output(pdf), r, {}, [], pages=want)
        r.expect([round(p.width) for p in d.pages] == [200 + i for i in range(n)], 'page-boxes', lambda: str([p.width for p in d.pages]))
    else:
        doc = {'style': {'s': 11, 'page_size': (200, 40), 'margin': 10},
               'sections': [{'content': [{'.': 'p%d' % i, 'label': 'l%d' % i, 'outline': {'level': 1 + i % 3, 'text': 't%d' % i}, 'ref': 'l%d' % (n - 1 - i)}]} for i in range(n)]}
        check_nav(build(doc), r, {'l%d' % i: 'p%d' % i for i in range(n)}, [('t%d' % i, 1 + i % 3, 'p%d' % i) for i in range(n)], pages=['p%d' % i for i in range(n)])


# ---- destination tree ------------------------------------------------------------

def orders(n, o):
    ks = list(range(n))
    if o == 'down':
        ks.reverse()
    elif o == 'mix':
        ks = sorted(ks, key=lambda k: (k * 7 % 11, k))
    return ks


def gen_labels(tier):
    for n in range(0, 131 if tier == 'quick' else 701):
        for o in ('up', 'down', 'mix'):
            yield (n, o, 'n')
    for n in range(0, 80 if tier == 'quick' else 400):
        yield (n, 'mix', 'z')


def run_labels(case, r):
    n, o, form = case
    pdf = PDF(page_size=(400, 300), margin=10)
    pdf.add_page()
    labels = {}
    i = 0
    ks = orders(n, o)
    while i < n:
        parts = []
        for k in ks[i:i + 25]:
            name = 'k%d' % k if form == 'n' else 'k' + chr(33 + k % 90) * (1 + k // 90)
            parts += [{'.': 'w%d' % k, 'label': name, 'ref': name}, ' ']
            labels[name] = 'w%d' % k
        pdf.text(parts)
        i += 25
        if i % 100 == 0:
            pdf.add_page()
    check_nav(output(pdf), r, labels, [])


NAMES = ['', 'a', 'A', 'b', ' ', '(', ')', '\\', '\n', '\r', '\t', '\xe9', '\xff', '0', '/', '<', '>', '%', '#', '\x01', '~', '\x80', '\u0142', '\u4e2d', '\uffe5', '\U0001F600']


def gen_names(tier):
    base = [''.join(s) for s in seqs(NAMES[1:], 1, 1)]
    two = [''.join(s) for s in seqs(NAMES[1:], 2, 2)]
    yield tuple(base)
    for i in range(0, len(two), 40):
        yield tuple(base + two[i:i + 40])
    allp = base + (two if tier != 'quick' else two[::7])
    for a, b in itertools.combinations(allp, 2):
        yield (a, b)
    yield tuple(base + two)


def enc(s):
    """text string of a PDF: the bytes shown by the reader as latin-1"""
    try:
        return s.encode('latin-1').decode('latin-1')
    except UnicodeEncodeError:
        return (b'\xfe\xff' + s.encode('utf-16-be')).decode('latin-1')


def run_names(case, r):
    pdf = PDF(page_size=(1500, 1500), margin=10)
    pdf.add_page()
    labels = {}
    parts = []
    for k, name in enumerate(case):
        parts += [{'.': 'w%d' % k, 'label': name}, ' ']
        labels[enc(name)] = 'w%d' % k
    pdf.text(parts)
    check_nav(output(pdf), r, labels, [])


# ---- outlines ------------------------------------------------------------------

def levels(n, top=9, skip=0):
    """all level sequences of length n, each at most `skip`+1 deeper than the one before"""
    def rec(pre, depth):
        if len(pre) == n:
            yield tuple(pre)
            return
        for l in range(1, min(depth + 1 + skip, top) + 1):
            yield from rec(pre + [l], l)
    return rec([], 0)


def gen_levels(tier):
    m = 7 if tier == 'quick' else 9
    for n in range(1, m + 1):
        for s in levels(n):
            for lv in ((1, 2, 3, 9) if n < m else (2,)):
                yield (s, lv, 0)
    for n in range(1, (4 if tier == 'quick' else 5) + 1):
        for s in itertools.product((1, 2, 3, 4), repeat=n):
            yield (s, 2, 0)
    for n in range(1, 6 if tier == 'quick' else 8):
        for s in levels(n, 3):
            for lv in (0, 1, 2, 3, 4):
                yield (s, lv, 1)
    for n in (range(8, 60, 5) if tier == 'quick' else range(8, 400, 7)):
        for k in (1, 2, 3, 5):
            yield (tuple(1 + i % k for i in range(n)), 2, 0)
        yield (tuple(range(1, n + 1)), 3, 0)
        yield ((1,) + (2,) * (n - 1), 1, 0)


def run_levels(case, r):
    s, lv, kind = case
    ents = [('t%d' % i, l, 'w%d' % i) for i, l in enumerate(s)]
    if kind == 0:
        pdf = PDF(page_size=(400, 400), margin=10, outlines_level=lv)
        pdf.add_page()
        for i in range(0, len(s), 10):
            parts = []
            for t, l, w in ents[i:i + 10]:
                parts += [{'.': w, 'outline': {'text': t, 'level': l}}, '\n']
            pdf.text(parts)
            if i % 50 == 40:
                pdf.add_page()
        data = output(pdf)
    else:
        doc = {'style': {'s': 11, 'page_size': (200, 60), 'margin': 10, 'outlines_level': lv},
               'sections': [{'content': [{'.': ['-', {'.': w, 'outline': {'text': t, 'level': l}}]} for t, l, w in ents]}]}
        data = build(doc)
    check_nav(data, r, {}, ents, lv)


# ---- where outlines and labels are -----------------------------------------------

def gen_places(tier):
    kinds = 'pnlthcgdoi' if tier == 'quick' else 'pnlthcgdoixrmbf'
    for s in seqs(kinds, 3, 1):
        for h in (70, 130) if tier == 'quick' else (70, 90, 130, 400):
            yield (''.join(s), h + 40 * s.count('f'))
    if tier == 'quick':
        for s in seqs('pxrmbf', 2, 1):
            for h in (70, 130):
                yield (''.join(s), h + 40 * s.count('f'))


class Places:
    def __init__(self):
        self.n = 0
        self.labels = {}
        self.entries = []
        self.img = 0

    def part(self, label=True, outline=True, level=1, default=False):
        n = self.n
        self.n += 1
        w = 'w%d' % n
        p = {'.': w}
        if label:
            p['label'] = 'L%d' % n
            self.labels['L%d' % n] = w
        if outline:
            p['outline'] = {} if default else {'text': 't%d' % n, 'level': level}
            self.entries.append((w if default else 't%d' % n, 1 if default else level, w))
        return p

    def el(self, k):
        if k == 'p':
            return self.part()
        if k == 'n':
            return {'.': ['-- ', {'.b': [self.part(outline=False)]}, ' -- ', self.part(label=False)]}
        if k == 'l':
            return dict(self.part(default=True), style={'list_text': '* '})
        if k == 't':
            return {'table': [[self.part(), self.part(label=False)], ['-', self.part(outline=False)]]}
        if k == 'h':
            return {'table': [[self.part(), '-'], ['-', '-'], [self.part(level=2), '-'], ['-', self.part()], ['-', '-']], 'style': {'cell_margin': 0}}
        if k == 'c':
            return {'cols': {'count': 2}, 'content': [self.part(), self.part(level=2)]}
        if k == 'g':
            return {'group': [self.part(), self.part(outline=False)]}
        if k == 'd':
            return {'.': [self.part(label=False, default=True), ' --']}
        if k == 'o':
            return {'.': '--'}
        if k == 'i':
            self.img += 1
            return {'image': jpg_io(1000 + self.img, 150), 'extension': 'jpg', 'image_name': 'i%d' % self.img}
        if k == 'x':
            return {'table': [[{'content': [self.part(), {'table': [[self.part(level=2)]]}]}]]}
        if k == 'r':
            return {'.': [{'.': ['-- ' * 60]}, self.part(), ' -- ' * 50, self.part(outline=False)], 'style': {'text_align': 'r'}}
        if k == 'm':
            return {'.': ['-- ' * 30, dict(self.part(), **{'uri': 'http://x'}), ' -- ' * 20], 'style': {'text_align': 'j', 'indent': 20}}
        if k == 'b':
            p = self.part()
            p['.'] = [p['.'] + ' ' + 'end ' * 60]
            return p
        if k == 'f':
            # footnotes are shown at the end of the page
            return {'.': ['--', {'footnote': '-- --'}, ' ', self.part()]}
        raise ValueError(k)


def run_places(case, r):
    seq, h = case
    b = Places()
    els = [b.el(k) for k in seq]
    doc = {'style': {'s': 11, 'page_size': (220, h), 'margin': 10, 'outlines_level': 2}, 'sections': [{'content': els}]}
    data = build(doc)
    entries = b.entries
    if set(seq) & set('ig'):
        # an image or group that does not fit lets the next elements come first
        d = Doc(data)
        wh = starts(d)
        if any(e[2] not in wh for e in entries):
            r.fail('text-lost', str(entries))
            return
        entries = sorted(entries, key=lambda e: wh[e[2]][0])
    check_nav(data, r, b.labels, entries, 2)


# ---- default titles ----------------------------------------------------------------

TITLE_PARTS = ['s', 'n', 'b', 'd', 'v', 'l', 'N', 'u', 'e', 'x']


def gen_titles(tier):
    for s in seqs(TITLE_PARTS, 3 if tier == 'quick' else 4, 1):
        yield s
    for t in NAMES[1:]:
        yield ('T', t)
        yield ('T', 'a' + t + 'b')
    for s in seqs(NAMES[1:], 2, 2):
        yield ('T', ''.join(s))


def run_titles(case, r):
    pdf = PDF(page_size=(400, 400), margin=10)
    pdf.context['v'] = 'Var'
    pdf.add_page()
    if case[0] == 'T':
        pdf.text({'.': 'w0', 'outline': {'text': case[1]}})
        check_nav(output(pdf), r, {}, [(enc(case[1]), 1, 'w0')])
        return
    els = ['w0']
    title = ['w0']
    for k in case:
        e, t = {'s': ('one two', 'one two'), 'n': (12.5, '12.5'), 'b': ({'.b': 'bold'}, 'bold'), 'd': ({'.': ['in ', 'side'], 'style': {'s': 8}}, 'in side'),
                'v': ({'var': 'v'}, 'Var'), 'l': (' \xe9 (', ' \xe9 ('), 'N': ({'.': [{'.i': ['deep', 3]}, 'er']}, 'deep3er'),
                'u': ({'.': 'link', 'uri': 'http://x'}, 'link'), 'e': ('', ''), 'x': (7, '7')}[k]
        els.append(e)
        title.append(t)
    pdf.text({'.': els, 'outline': {}})
    d = Doc(output(pdf))
    real, _ = nav.outlines(d)
    r.expect(len(real) == 1 and real[0].title == ''.join(title), 'default-title', lambda: '%s, expected %r' % (real, ''.join(title)))
    r.compared += 1
    r.state(real[0].title)


# ---- histories -----------------------------------------------------------------

def gen_history(tier):
    for s in seqs('plaKO', 5 if tier == 'quick' else 7, 1):
        if s[0] == 'p':
            yield s
    for n in (6, 7, 8, 14, 49, 50):
        for m in (1, 7, 50):
            yield ('p',) + ('K%d' % n, 'O', 'K%d' % m, 'O', 'p', 'a', 'K1')


def run_history(case, r):
    pdf = PDF(page_size=(400, 400), margin=10, outlines_level=1)
    labels, entries = {}, []
    n = 0
    for op in case:
        if op == 'p':
            pdf.add_page()
        elif op == 'l':
            pdf.text({'.': 'w%d' % n, 'label': 'L%d' % n, 'ref': 'L0'} if 'L0' in labels else {'.': 'w%d' % n, 'label': 'L%d' % n})
            labels['L%d' % n] = 'w%d' % n
        elif op == 'a':
            pdf.text({'.': 'w%d' % n, 'outline': {'text': 't%d' % n, 'level': 1 + len(entries) % 2}})
            entries.append(('t%d' % n, 1 + len(entries) % 2, 'w%d' % n))
        elif op[0] == 'K':
            parts = []
            for j in range(int(op[1:] or 8)):
                parts += [{'.': 'w%dx%d' % (n, j), 'label': 'K%dx%d' % (n, j)}, ' ']
                labels['K%dx%d' % (n, j)] = 'w%dx%d' % (n, j)
            pdf.text(parts)
        elif op == 'O':
            check_nav(output(pdf), r, dict(labels), list(entries), 1)
            if r.viol:
                return
        n += 1
    check_nav(output(pdf), r, labels, entries, 1)


FAMILIES = [
    Family('pages', gen_pages, run_pages, 'every number of pages up to 100 (600), documents with a label, a link and an outline per page up to 44 (300) pages'),
    Family('labels', gen_labels, run_labels, 'every number of labels up to 130 (700) in 3 orders'),
    Family('label-names', gen_names, run_names, 'all pairs of label names, and sets of them, over 25 characters'),
    Family('outline-levels', gen_levels, run_levels, 'every outline level sequence up to 7 (9) outlines, levels 1-4 in any order, up to 59 (399) outlines x outlines_level'),
    Family('places', gen_places, run_places, 'sequences of up to 3 elements of 15 kinds holding labels and outlines over pages'),
    Family('titles', gen_titles, run_titles, 'default titles of all nestings up to 3 (4) parts, titles over 25 characters'),
    Family('history', gen_history, run_history, 'all histories of pages, labels, outlines and outputs up to 5 (7) steps'),
]
