"""C06: links, references, labels and tagged areas match their text."""
import itertools

from mc.engine import Family
from mc.par import *
from mc import nav

PROPERTY = 'C06'
EXPLANATION = (
    'Bounded exhaustive enumeration of placements of links, references, labels and ids in '
    'paragraphs, columns, tables, running sections and footnotes over line, column and page '
    'breaks; every annotation and destination is compared with the painted text.')
ASSUMPTIONS = ['labels are unique and are on parts with visible text', 'the zoom of a destination is not specified']

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


class Model:
    """letter -> attributes of its text"""

    def __init__(self):
        self.keys = {}
        self.labels = {}   # label -> set of letters of its text
        self.ids = {}
        self.size = {}     # letter -> (size, rise)

    def letter(self, keys=(), labels=(), ids=(), size=11, rise=0):
        l = LETTERS[len(self.keys)]
        self.keys[l] = tuple(keys)
        for x in labels:
            self.labels.setdefault(x, set()).add(l)
        for x in ids:
            self.ids.setdefault(x, set()).add(l)
        self.size[l] = (size, rise * size)
        return l

    def size_of(self, ch):
        return self.size.get(ch, (11, 0))


def check(data, m, r, strict_labels=True):
    d = Doc(data)
    n = 0
    for p in d.pages:
        areas = []
        for a in p.annots:
            rc = a['Rect']
            areas.append((nav.link_target(d.pdf, a), rc[0], rc[1], rc[2], rc[3]))
            n += 1
        nav.cover(p, lambda ch: m.keys.get(ch, ()), m.size_of, areas, r, 'link')
    ds = nav.dests(d)
    r.expect(set(ds) == set(m.labels), 'labels', lambda: '%s, expected %s' % (sorted(ds), sorted(m.labels)))
    for lab, letters in m.labels.items():
        if lab not in ds:
            continue
        for pi, p in enumerate(d.pages):
            cs = [c for c in chars(p) if c[0] in letters]
            if cs:
                break
        else:
            r.fail('label-text-missing', lab)
            continue
        ch, x, y, t = cs[0]
        s, rise = m.size_of(ch)
        pg, dx, dy = ds[lab]
        top = y + rise + 0.75 * s
        # the line of the label starts at its first character or at a space before it
        sp = max([0] + [x1 - x0 for tt in p.texts for c, x0, x1 in tt.chars if c == ' ' and tt.y == t.y])
        r.expect(pg == pi and near(dy, top, 0.02) and x - sp - 0.03 <= dx <= x + 0.03, 'label-position',
                 lambda: 'label %r leads to page %d (%.3f, %.3f), its text starts on page %d at (%.3f, %.3f)' % (lab, pg, dx, dy, pi, x, top))
    r.trans += n + len(ds)
    r.compared += 1
    r.state((doc_digest(d), tuple(sorted(ds.items()))))
    return d


def check_ids(doc, objs, m, r):
    """objs: results of each rectangle, one page each"""
    for p, res in zip(doc.pages, objs):
        areas = []
        for k, rects in res['ids'].items():
            if k.startswith('$'):
                continue
            for a in rects:
                areas.append((k, res['x'] + a[0], res['y'] + a[1], res['x'] + a[2], res['y'] + a[3]))
        inv = {}
        for k, ls in m.ids.items():
            for l in ls:
                inv.setdefault(l, []).append(k)
        nav.cover(p, lambda ch: inv.get(ch, ()), m.size_of, areas, r, 'id-area')


# -- part kinds ------------------------------------------------------------------

def make(kind, i, m, text):
    """part of one kind; text(letter) -> string"""
    if kind == '.':
        return text(m.letter())
    if kind == 'u':
        return {'.': text(m.letter([('uri', 'http://u/a')])), 'uri': 'http://u/a'}
    if kind == 'v':
        return {'.': text(m.letter([('uri', 'http://v')], size=8, rise=0.5)), 'uri': 'http://v', 'style': {'s': 8, 'r': 0.5}}
    if kind == 'r':
        return {'.': text(m.letter([('ref', 'R')])), 'ref': 'R', 'style': {'s': 14}} if False else {'.': text(m.letter([('ref', 'R')])), 'ref': 'R'}
    if kind == 'l':
        lab = 'lab%d' % i
        return {'.': text(m.letter(labels=[lab])), 'label': lab}
    if kind == 'd':
        return {'.': text(m.letter(ids=['id'])), 'ids': ['id']}
    if kind == 'n':   # nested: link around plain and a label inside
        lab = 'in%d' % i
        k = [('uri', 'http://n')]
        a, b, c = m.letter(k, ids=['o']), m.letter(k + [('ref', 'Q')], [lab], ['o', 'i']), m.letter(k, ids=['o'])
        return {'.': [text(a), {'.b': text(b), 'label': lab, 'ids': ['i'], 'ref': 'Q'}, text(c)], 'uri': 'http://n', 'ids': ['o']}
    if kind == 'o':   # outline with label around two texts
        lab = 'ol%d' % i
        a, b = m.letter(labels=[lab]), m.letter(labels=[lab])
        return {'.': [text(a), {'.i': text(b)}], 'label': lab, 'outline': {'text': 't'}}
    raise ValueError(kind)


KINDS = '.uvrldno'
TEXTS = [lambda l: l * 3 + ' ' + l * 2 + ' ', lambda l: l * 2, lambda l: l * 3 + ' ' + l * 4 + ' ' + l * 2 + ' ' + l, lambda l: ' ' + l * 3 + '\n' + l]
RECTS = (((10, 900, 600, 500),), ((10, 900, 75, 500),), ((10, 900, 75, 30), (17, 800, 75, 47)))


def gen_par(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for s in itertools.product(KINDS, repeat=k):
            if tier == 'quick' and k == 3 and not (set(s) - set('.')):
                continue
            for ri in range(3):
                for ti in range(4):
                    if k < n or (sum(KINDS.index(c) for c in s) + ti) % 2 == 0:
                        yield (''.join(s), ri, ti, 'lrcj'[(ti + ri + k) % 4])


def run_par(case, r):
    s, ri, ti, al = case
    m = Model()
    parts = [make(k, i, m, TEXTS[ti]) for i, k in enumerate(s)]
    pdf, res, fin = run_rects(parts, RECTS[ri], {'text_align': al})
    r.expect(fin, 'never-finished', '')
    d = check(output(pdf), m, r)
    check_ids(d, res, m, r)


# -- containers ------------------------------------------------------------------

def gen_cont(tier):
    places = ('par', 'cols', 'cell', 'nested', 'group', 'cellcontent', 'footnote', 'list', 'mixed')
    for pl in places:
        for k in (1, 2) if tier == 'quick' else (1, 2, 3):
            for s in itertools.product('.urln', repeat=k):
                for h in (60, 75, 110, 300) if tier == 'quick' else range(55, 130, 5):
                    for pad in (0, 1, 2):
                        yield (pl, ''.join(s), h, pad)


def run_cont(case, r):
    pl, s, h, pad = case
    if pl == 'footnote' and h < 110:
        h += 60
    m = Model()
    t = TEXTS[2] if pad != 1 else TEXTS[0]
    parts = [make(k, i, m, t) for i, k in enumerate(s)]
    para = {'.': parts}
    fill = {'.': (m.letter() + ' ') * (14 * pad)}
    ctn = [fill] if pad else []
    if pl == 'par':
        ctn += [para]
    elif pl == 'cols':
        ctn += [{'cols': {'count': 2, 'gap': 10}, 'content': [para, (m.letter() + ' ') * 9]}]
    elif pl == 'cell':
        ctn += [{'table': [[{'.': m.letter()}, para], [m.letter(), None]] if False else [[m.letter(), para]], 'widths': [1, 3]}]
    elif pl == 'nested':
        ctn += [{'style': {'margin_left': 10}, 'content': [{'content': [para, m.letter()]}]}]
    elif pl == 'group':
        ctn += [{'group': [para if h >= 75 else {'.': make('u', 9, m, TEXTS[1])}, m.letter()]}] if h >= 300 else [{'group': [{'.': parts[:1]}]}] if h >= 110 else [para]
        if 110 <= h < 300:
            # only the first part is used
            used = set()
            m2 = Model()
            parts = [make(k, i, m2, t) for i, k in enumerate(s[:1])]
            fill = {'.': (m2.letter() + ' ') * (14 * pad)}
            ctn = ([fill] if pad else []) + [{'group': [{'.': parts}]}]
            m = m2
    elif pl == 'cellcontent':
        ctn += [{'table': [[{'content': [para, m.letter()]}, m.letter()]], 'widths': [2, 1]}]
    elif pl == 'footnote':
        m2 = Model()
        parts = [make(k, i, m2, TEXTS[1]) for i, k in enumerate(s)]
        m = m2
        for l in list(m.size):
            m.size[l] = (m.size[l][0] if m.size[l][0] != 11 else 10, m.size[l][1])
        x = m.letter()
        ctn = [{'.': (x + ' ') * (14 * pad + 1)}, {'.': [m.letter(), {'footnote': {'.': parts}}]}]
    elif pl == 'list':
        ctn += [dict(para, style={'list_text': '* ', 'text_align': 'r'})]
    elif pl == 'mixed':
        a = m.letter([('uri', 'http://m')])
        ctn = [{'cols': {'count': 2, 'gap': 10}, 'content': ctn + [{'table': [[para, {'.': a, 'uri': 'http://m'}]], 'widths': [3, 1]}, m.letter()]}]
    doc = {'style': {'page_size': (140, h), 'margin': 10}, 'sections': [{'content': ctn}]}
    check(build(doc), m, r)


# -- running sections repeat their links on every page ---------------------------

def gen_run(tier):
    for k in 'urn':
        for n in (1, 30, 80):
            for two in (False, True):
                yield (k, n, two)


def run_run(case, r):
    k, n, two = case
    m = Model()
    if k == 'n':
        head = make('u', 0, m, TEXTS[0])
        other = make('r', 1, m, TEXTS[1])
        cont = [head, ' ', other]
    else:
        cont = [make(k, 0, m, TEXTS[1])]
    f = m.letter()
    doc = {'style': {'page_size': (200, 120), 'margin': 30},
           'running_sections': {'h': {'x': 'left', 'y': 118, 'height': 28, 'content': [{'.': cont}]}},
           'sections': [{'running_sections': ['h'], 'content': [(f + ' ') * n]}] * (2 if two else 1)}
    doc['sections'] = [dict(x) for x in doc['sections']]
    d = check(build(doc), m, r)
    for p in d.pages:
        r.expect(len(p.annots) >= 1, 'running-link-missing', 'page without its running link')


# -- targets that look alike -------------------------------------------------------

LONG = 'https://example.com/a/rather/long/path/to/some/document/that/needs/many/characters/index.html?page='
TARGETS = ['a', 'b', 'A', 'aa', 'a a', ' a', 'a ', 'a.', '#a', '$a', 'label:a', '$label:a', '$ref:a', '$uri:a', '0', '00', 'a(', 'a)', '\\', 'é', 'è',
           LONG + '1', LONG + '2', LONG[1:] + '1', 'http://a', 'http://a/', 'http://A', 'HTTP://a', 'https://a', '//a', 'http://a#b', 'http://a#c', 'http://a/#b', 'http://a?b', 'http://a?b=1', 'http://a?b=1&c', 'http://a?b=2', 'http://a:80', 'http://a/%20', 'http://a/ ', 'http://a/+', 'http://a//', 'http://a/b', 'http://a/b/../', 'mailto:a', 'a' * 127, 'a' * 128, '{"a": 1}', '[a]', 'None']


def gen_targets(tier):
    for a in TARGETS:
        for b in TARGETS:
            for k in ('uri', 'ref', 'label', 'ids', 'mix'):
                if k == 'ids' and '$' in (a[:1], b[:1]):
                    continue    # ids that start with $ are reserved
                if a != b or k in ('uri', 'ref', 'mix'):
                    yield (k, a, b)


def run_targets(case, r):
    k, a, b = case
    m = Model()
    parts = []
    for i, t in enumerate((a, b) if k != 'mix' else (a, b, a)):
        if k in ('uri', 'ref'):
            parts.append({'.': m.letter([(k, t)]) * 3 + ' ', k: t})
        elif k == 'label':
            parts.append({'.': m.letter(labels=[t]) * 3 + ' ', k: t})
        elif k == 'ids':
            parts.append({'.': m.letter(ids=[t]) * 3 + ' ', k: [t]})
        else:
            kk = ('label', 'uri', 'ref')[i]
            if kk == 'label':
                parts.append({'.': m.letter(labels=[t]) * 3 + ' ', kk: t})
            else:
                parts.append({'.': m.letter([(kk, t)]) * 3 + ' ', kk: t})
    pdf, res, fin = run_rects(parts, ((10, 900, 75, 500),), {})
    d = check(output(pdf), m, r)
    check_ids(d, res, m, r)


# -- many links --------------------------------------------------------------------

def gen_many(tier):
    for n in (5, 12, 26, 45):
        for k in KINDS[1:-2] + '*':
            for words in (1, 12, 40):
                for ri in range(len(RECTS)):
                    yield (n, k, words, ri)


def run_many(case, r):
    n, k, words, ri = case
    m = Model()
    parts = []
    for i in range(n):
        kind = k if k != '*' else 'urvld'[i % 5]
        t = lambda l: ' '.join([l * 2] * (words if i % 4 == 0 else 1)) + ' '
        q = make(kind, i, m, t)
        if isinstance(q, dict) and i % 3:
            l = LETTERS[i]
            if 'uri' in q:
                q['uri'] = 'http://many/%d' % i
                m.keys[l] = (('uri', q['uri']),)
            elif 'ref' in q:
                q['ref'] = 'many%d' % i
                m.keys[l] = (('ref', q['ref']),)
            elif 'ids' in q:
                q['ids'] = ['many%d' % i]
                m.ids['id'].discard(l)
                m.ids.setdefault(q['ids'][0], set()).add(l)
        parts.append(q)
    pdf, res, fin = run_rects(parts, RECTS[ri], {})
    r.expect(fin, 'never-finished', '')
    d = check(output(pdf), m, r)
    check_ids(d, res, m, r)


# -- areas added directly to the pages -----------------------------------------------

RAW = ('link', 'link2', 'ref', 'annot', 'own', 'text', 'rtext', 'page', 'back', 'out')


def gen_direct(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(1, n + 1):
        for s in itertools.product(RAW, repeat=k):
            if set(s) & set(RAW[:5]):
                yield s


def run_direct(case, r):
    pdf = PDF(page_size=(300, 400), margin=20)
    pdf.add_page()
    uris = [pdf.base.add({'Type': b'/Action', 'S': b'/URI', 'URI': 'http://raw%d' % i}) for i in range(2)]
    want = [[]]         # per page: what must be clickable there, in order
    for i, op in enumerate(case):
        rect = [10 + i, 20.5 + i, 30 + 2 * i, 40 + i]
        at = want[pdf.page_index]
        if op in ('link', 'link2'):
            k = op == 'link2'
            pdf.page.add_link(uris[k].id, rect)
            at.append(('Link', rect, 'uri', 'http://raw%d' % k, None))
        elif op == 'ref':
            pdf.page.add_reference('dest%d' % i, rect)
            at.append(('Link', rect, 'ref', 'dest%d' % i, None))
        elif op == 'annot':
            obj = {'Subtype': b'/Text', 'Contents': 'note %d' % i}
            pdf.page.add_annot(obj, rect)
            r.expect(obj == {'Subtype': b'/Text', 'Contents': 'note %d' % i}, 'annotation-changed', lambda: '%r' % (obj,))
            at.append(('Text', rect, None, None, 'note %d' % i))
        elif op == 'own':
            pdf.page.add_annot({'Dest': 'own%d' % i, 'Border': [0, 0, 1]}, rect)
            at.append(('Link', rect, 'ref', 'own%d' % i, None))
        elif op == 'text':
            pdf.text({'.': 'aa', 'uri': 'http://raw0'})
            at.append(('Link', None, 'uri', 'http://raw0', None))
        elif op == 'rtext':
            pdf.text({'.': 'bb', 'ref': 'own0'})
            at.append(('Link', None, 'ref', 'own0', None))
        elif op == 'page':
            pdf.add_page()
            want.append([])
        elif op == 'back':
            pdf.page_index = 0
        elif op == 'out':
            output(pdf)
        r.trans += 1
    d = Doc(output(pdf))
    r.expect(len(d.pages) == len(want), 'pages', lambda: '%s: %d' % (case, len(d.pages)))
    for n, (p, w) in enumerate(zip(d.pages, want)):
        got = []
        for a in p.annots:
            act = d.pdf.get(a.get('A'))
            if act is not None:
                k, t = 'uri', act.get('URI')
            elif 'Dest' in a:
                k, t = 'ref', a['Dest']
            else:
                k = t = None
            got.append((a.get('Subtype'), list(a.get('Rect')), k, t, a.get('Contents')))
        txt = lambda x: x.decode('latin-1') if isinstance(x, bytes) else x
        got = [(g[0], g[1], g[2], txt(g[3]), txt(g[4])) for g in got]
        ok = len(got) == len(w) and all(g[0] == x[0] and g[2:] == x[2:] and (x[1] is None or g[1] == x[1]) for g, x in zip(got, w))
        r.expect(ok, 'direct-areas', lambda: '%s: page %d has %s\nexpected %s' % (case, n + 1, got, w))
        r.compared += 1
    r.state(tuple(len(w) for w in want))


FAMILIES = [
    Family('targets', gen_targets, run_targets, 'all ordered pairs of 50 similar, long or special targets, as addresses, references, labels, ids or a mix'),
    Family('paragraphs', gen_par, run_par, 'all sequences of up to 3 (thorough 4) parts of 8 kinds x 3 rectangle sequences x 4 text shapes'),
    Family('containers', gen_cont, run_cont, 'all sequences of up to 2 (3) parts of 5 kinds in 9 containers x page heights x fill levels'),
    Family('many', gen_many, run_many, '5 to 45 links, references, labels and ids of one kind or mixed, with texts of 1 to 40 words, in 3 rectangle sequences'),
    Family('direct', gen_direct, run_direct, 'all sequences of up to 4 (5) of 10 operations: links, references and annotations added to the pages, texts with links, pages, outputs'),
    Family('running', gen_run, run_run, 'links in running sections over 1..5 pages and 1..2 sections'),
]
