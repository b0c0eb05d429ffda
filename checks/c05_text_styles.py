"""C05: every piece of text is drawn with exactly its own style."""
import itertools

from mc.engine import Family
from mc.par import *
from mc import decor

PROPERTY = 'C05'
EXPLANATION = (
    'Bounded exhaustive enumeration of sequences and nestings of style changes; '
    'every letter identifies the part it comes from, and the graphics state in '
    'which each character is painted is compared with an independent cascade.')
ASSUMPTIONS = ['two style sources of one part: the style key is applied after the dot key']

# style changes; colors as numbers (notations are covered by C20)
CH = {
    '0': {}, 'b': {'b': True}, 'i': {'i': True}, 'B': {'b': False}, 'I': {'i': False},
    's': {'s': 7}, 'S': {'s': 14.5}, 'c': {'c': [1, 0, 0]}, 'C': {'c': 0.5}, 'k': {'c': 0.1},
    'u': {'u': True}, 'U': {'u': False}, 'g': {'bg': 0.8}, 'h': {'bg': [0, 1, 0]}, 'G': {'bg': None},
    'r': {'r': 0.4}, 'R': {'r': 0}, 'd': {'r': -0.3}, 'f': {'f': 'Times'}, 'F': {'f': 'Helvetica'}, 'm': {'f': 'Courier'},
    'n': {'f': 'Courier', 'b': True, 'u': True, 'bg': 0.9, 's': 9, 'c': [0, 0, 1]},
    'q': {'b': True, 'i': True, 'u': True, 'r': 0.25},
}


def dot_key(d):
    """style dict -> dot key string"""
    out = []
    for k, v in d.items():
        if isinstance(v, bool):
            out.append(k if v else k + ':0')
        elif v is None:
            out.append(k + ':')
        elif isinstance(v, list):
            out.append('%s:%s' % (k, ' '.join(str(x) for x in v)))
        else:
            out.append('%s:%s' % (k, v))
    return '.' + ';'.join(out)


DEFAULT = {'f': 'Helvetica', 's': 11, 'c': 0.1}


def resolve(*dicts):
    d = dict(DEFAULT)
    for x in dicts:
        d.update(x)
    return style_of(d)


def part(ch, content, how, formats, extra=None):
    """a paragraph part with style change `ch` given in notation `how`"""
    d = CH[ch]
    if how == 'dot':
        p = {dot_key(d): content}
    elif how == 'style':
        p = {'.': content, 'style': dict(d)}
    else:
        name = 'fmt_' + ch
        formats[name] = dict(d)
        p = {'.': content, 'style': name}
    p.update(extra or {})
    return p


def check_doc(data, styles, r, decorate=True):
    d = Doc(data)
    for p in d.pages:
        decor.check_page(p, styles.get, r, decorate)
    want = set(styles)
    seen = {ch for p in d.pages for t in p.texts for ch in t.text if ch != ' '}
    r.expect(want <= seen, 'text-missing', lambda: sorted(want - seen))
    r.compared += 1
    r.trans += sum(p.p.nops for p in d.pages)
    r.state(doc_digest(d))
    return d


# -- sequences of parts -----------------------------------------------------

SEQ_A = '0bisScCugrfhmdn'
RECTS = (((10, 900, 600, 500),), ((10, 900, 70, 500),), ((10, 900, 70, 30), (10, 900, 70, 44)))


def gen_seq(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for s in itertools.product(SEQ_A, repeat=k):
            for ri in range(3):
                for sp in ((0, 1) if k < 4 else (1,)):
                    yield (''.join(s), ri, sp)
    if tier == 'quick':
        for s in itertools.product('0buSgrf', repeat=4):
            yield (''.join(s), 1, 1)
            yield (''.join(s), 2, 0)


def run_seq(case, r):
    s, ri, sp = case
    parts = []
    styles = {}
    for i, ch in enumerate(s):
        l = LETTERS[i]
        styles[l] = resolve(CH[ch])
        t = (l * 2 + ' ' + l * 3) + (' ' if sp else '')
        parts.append({'.': t, 'style': dict(CH[ch])})
    pdf, res, fin = run_rects(parts, RECTS[ri], {'text_align': 'lrcj'[(len(s) + ri) % 4]})
    r.expect(fin, 'never-finished', '')
    check_doc(output(pdf), styles, r)


LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'

# -- close values ---------------------------------------------------------------

VALUES = {
    's': [9.6, 10, 10.002, 10.04, 10.4, 10.6, 11, 11.5, 100.25],
    'r': [0, 0.1, 0.4, -0.1, 0.104, 0.45, -0.104, 1, 0.001],
    'c': [0, 0.1, 0.101, 0.104, 0.2, [0.1, 0.1, 0.1], [0.1, 0.1, 0.101], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], 1],
    'bg': [None, 0, 0.1, 0.101, [0.1, 0.1, 0.1], [1, 0, 0], [0, 1, 0], [1, 1, 0.004], 1],
    'f': ['Helvetica', 'Times', 'Courier'],
}


def gen_values(tier):
    for k, vs in VALUES.items():
        for a in vs:
            for b in vs:
                for u in (False, True):
                    yield (({k: a, 'u': u}, {k: b, 'u': u}), 0)
                    yield (({k: a, 'u': u}, {k: b, 'u': u}, {k: a, 'u': u}), 1)
                    yield (({k: a, 'u': u}, {k: b, 'u': u}), 2)
    # far values
    for k, vs in {'s': [1, 3, 4.5, 30, 72, 73, 90, 140], 'r': [-2.5, -1.01, -1, 1.01, 2, 5], 'c': [0.004, 0.996, [0.004, 1, 1], [1, 0.996, 1]]}.items():
        for a in vs:
            for b in vs:
                for how in (0, 2):
                    yield (({k: a}, {k: b}), how)
                    yield (({k: a, 'u': True, 'bg': 0.7}, {k: b, 'b': True}, {'s': 11}), how)
    # two attributes change at once
    keys = sorted(VALUES)
    for k1, k2 in itertools.combinations(keys, 2):
        # (areas of backgrounds that nearly coincide are not told apart by the reader)
        v1, v2 = [VALUES[k][:4] if k != 's' else [9.6, 10, 10.4, 11.5] for k in (k1, k2)]
        for a in v1:
            for b in v2:
                for a2 in v1:
                    for b2 in v2:
                        yield (({k1: a, k2: b}, {k1: a2, k2: b2}), (len(k1) + len(k2)) % 2)
    # modes of every family
    modes = [{'f': f, 'b': b, 'i': i} for f in VALUES['f'] for b in (False, True) for i in (False, True)]
    for a, b in itertools.product(modes, repeat=2):
        yield ((a, b), 0)
        yield ((a, b), 2)


def run_values(case, r):
    ds, how = case
    styles = {}
    parts = []
    for i, d in enumerate(ds):
        styles[LETTERS[i]] = resolve(d)
        parts.append({'.': LETTERS[i] * 2 + ' ' + LETTERS[i], 'style': dict(d)})
    if how == 2:
        # separate paragraphs and table cells
        pdf = PDF(page_size=(500, 700), margin=20)
        pdf.add_page()
        pdf.content({'content': parts + [{'table': [[{'.': 'zz'}]], 'style': {'border_width': 0}}]})
        styles['z'] = resolve()
        check_doc(output(pdf), styles, r)
    else:
        pdf, res, fin = run_rects(parts, (((10, 600, 400, 500),), ((10, 600, 40, 500),))[how], {})
        check_doc(output(pdf), styles, r)


# -- nesting ------------------------------------------------------------------

NEST = '0bBisScukgGrRfF'


def gen_nest(tier):
    hows = ('dot', 'style', 'format')
    for a, b, c in itertools.product(NEST, repeat=3):
        if tier == 'quick':
            k = (NEST.index(a) + NEST.index(b) + NEST.index(c)) % 3
            yield (a, b, c, (hows[k], hows[(k + 1) % 3], hows[(k + 2) % 3]))
        else:
            for h in itertools.product(hows, repeat=3):
                yield (a, b, c, h)
    for a, b in itertools.product('0bBusScgGrfnq', repeat=2):
        yield (a, b, None, ('both', 'dot', 'dot'))
        for h in itertools.product(hows, repeat=2):
            yield (a, b, None, h + ('dot',))


def run_nest(case, r):
    a, b, c, hows = case
    formats = {}
    S = {}
    S['a'] = S['e'] = None
    if hows[0] == 'both':
        # one part with a dot key and a style key
        root = {dot_key(CH[a]): ['aa ', part(b, ['bb'], 'dot', formats), ' aa'], 'style': dict(CH[b])}
        styles = {'a': resolve(CH[a], CH[b]), 'b': resolve(CH[a], CH[b], CH[b])}
    elif c is None:
        inner = part(b, ['bb ', 'b'], hows[1], formats)
        root = part(a, ['aa', inner, ' a'], hows[0], formats)
        styles = {'a': resolve(CH[a]), 'b': resolve(CH[a], CH[b])}
    else:
        inner = part(c, ['ccc'], hows[2], formats)
        mid = part(b, ['bb ', inner, 'b '], hows[1], formats)
        sib = part(c, 'dd', hows[1], formats)
        root = part(a, ['aa ', mid, 'a', sib, ' e'], hows[0], formats)
        styles = {'a': resolve(CH[a]), 'b': resolve(CH[a], CH[b]), 'c': resolve(CH[a], CH[b], CH[c]),
                  'd': resolve(CH[a], CH[c]), 'e': resolve(CH[a])}
    pdf = PDF(page_size=(300, 300), margin=20)
    pdf.formats.update(formats)
    pdf.add_page()
    pdf.text(root)
    check_doc(output(pdf), styles, r)


def gen_deep(tier):
    pats = ['bi', '0b', 'Bb', 'sS', 'cC', 'ug', 'bBuU', 'sbcf', 'gGhG', 'rdR', 'fmF', 'ucgrsbif', 'nq', 'n0000', 'q0B0']
    if tier != 'quick':
        pats += [''.join(x) for x in itertools.permutations('bsug', 3)] + [a + b for a in 'nqbs' for b in NEST]
    for pat in pats:
        for depth in (4, 5, 7, 12, 20):
            for ri in range(3):
                for hows in (('dot',), ('style',), ('format',), ('dot', 'format', 'style')):
                    yield ('deep', pat, depth, ri, hows)
        for n in (5, 9, 17, 50):
            for ri in range(3):
                for hows in (('dot',), ('style', 'format')):
                    yield ('chain', pat, n, ri, hows)


def run_deep(case, r):
    kind, pat, n, ri, hows = case
    formats = {}
    styles = {}
    how = lambda i: hows[i % len(hows)]
    ch = lambda i: pat[i % len(pat)]
    if kind == 'chain':
        parts = []
        for i in range(n):
            styles[LETTERS[i]] = resolve(CH[ch(i)])
            parts.append(part(ch(i), LETTERS[i] * (1 + i % 3) + ' ' * (i % 2), how(i), formats))
        root = {'.': parts}
    else:
        root = None
        for i in reversed(range(n)):
            st = resolve(*[CH[ch(k)] for k in range(i + 1)])
            a, b = LETTERS[i], LETTERS[i + 26]
            styles[a] = styles[b] = st
            root = part(ch(i), [a * 2 + ' '] + ([root] if root else []) + [b + ' ' + b], how(i), formats)
    rects = {0: RECTS[0], 1: ((10, 2900, 70, 2800),), 2: ((10, 900, 90, 30), (10, 900, 120, 44), (10, 2900, 100, 2800))}[ri]
    pdf = PDF(page_size=(700, 3000), margin=20)
    pdf.formats.update(formats)
    pdf.add_page()
    rest = root
    for i, (x, y, w, h) in enumerate(rects):
        if i:
            pdf.add_page()
        rest = pdf._text(rest, x=x, y=y, width=w, height=h)
        if rest.finished:
            break
    check_doc(output(pdf), styles, r)


# -- levels of a document -----------------------------------------------------

LEV = ('0', 'b', 'S', 'c', 'f', 'u', 'g')


def gen_doc(tier):
    L = LEV if tier != 'quick' else ('0', 'b', 'S', 'c', 'f')
    for a, b, c, e in itertools.product(L, repeat=4):
        yield (a, b, c, e)
    if tier == 'quick':
        for a, b, c in itertools.product(('u', 'g', 'r', '0'), repeat=3):
            yield (a, b, c, '0')
            yield ('0', a, b, c)


def run_doc(case, r):
    a, b, c, e = case
    formats = {'fe': dict(CH[e]), 'fc': dict(CH[c])}
    D, S, C, E = CH[a], CH[b], CH[c], CH[e]
    # style keys a PDF applies to everything
    pd = {k: v for k, v in D.items() if k in ('f', 's', 'c')}
    table = {'table': [['GG', {'.': 'HH', 'style': 'fe'}, {'style': dict(E), 'content': ['II', {'.': 'JJ'}]}]],
             'style': dict(C, border_width=0)}
    doc = {
        'style': dict(D, page_size=(500, 400), margin=50), 'formats': formats,
        'running_sections': {'head': {'style': dict(E), 'x': 'left', 'y': 400, 'height': 40, 'content': ['YY', {'.': 'ZZ', 'style': 'fc'}]}},
        'sections': [
            {'style': dict(S), 'running_sections': ['head'], 'content': [
                'AA',
                {'.': 'BB', 'style': dict(E)},
                {'style': dict(C), 'content': ['CC', {'.': ['DD', {'.': 'EE', 'style': 'fe'}], 'style': dict(C)},
                                               {'style': 'fe', 'cols': {'count': 2}, 'content': ['FF']}]},
                table,
                {'style': 'fc', 'group': ['KK', {'.': 'LL', 'style': dict(E)}]},
                'MM']},
            {'running_sections': ['head'], 'content': ['NN', {'.': 'OO', 'style': 'fc'}]},
            {'content': [{'.': ['PP', {'footnote': {'.': 'QQ', 'style': dict(E)}}]}, {'.': 'RR'}]},
        ]}
    styles = {
        'A': resolve(D, S), 'B': resolve(D, S, E), 'C': resolve(D, S, C), 'D': resolve(D, S, C, C),
        'E': resolve(D, S, C, C, E), 'F': resolve(D, S, C, E), 'G': resolve(D, S, C), 'H': resolve(D, S, C, E),
        'I': resolve(D, S, C, E), 'J': resolve(D, S, C, E), 'K': resolve(D, S, C), 'L': resolve(D, S, C, E),
        'M': resolve(D, S), 'N': resolve(D), 'O': resolve(D, C), 'P': resolve(D), 'R': resolve(D),
        'Q': resolve(pd, {'s': 10, 'c': 0}, E), 'Y': resolve(pd, E), 'Z': resolve(pd, E, C),
    }
    data = build(doc)
    d = Doc(data)
    fn = resolve(D, {'r': 0.5, 's': 6})
    ln = resolve(pd, {'s': 10, 'c': 0}, E, {'r': 0.5, 's': 6})
    for p in d.pages:
        # the mark and the number of the footnote are both "1"
        ones = [t for t in p.texts if '1' in t.text]
        mark = {id(ones[0]): fn, id(ones[-1]): ln} if ones else {}
        r.expect(len(ones) in (0, 2), 'footnote-marks', repr(ones))
        line = [l for l in p.lines if near(l[2] - l[0], 150) and l[4] == 0.5] if ones else []
        two = {'1': None}
        check_ones(ones, (fn, ln), r)
        keep = p.texts
        p.texts = [t for t in p.texts if t not in ones]
        one_lines = []
        if any(s.u or s.bg for s in (fn, ln)):
            # decorations of the marks are checked by the sequences family
            decor.check_page(p, styles.get, r, not ones)
        else:
            decor.check_page(p, styles.get, r, True, lines=[l for l in p.lines if l not in line])
        p.texts = keep
    seen = {ch for p in d.pages for t in p.texts for ch in t.text if ch != ' '}
    r.expect(set(styles) <= seen, 'text-missing', lambda: sorted(set(styles) - seen))
    r.compared += 1
    r.trans += sum(p.p.nops for p in d.pages)
    r.state(doc_digest(d))


def check_ones(ones, sts, r):
    for t, st in zip(ones, sts):
        r.expect(t.font == st.base and near(t.size, st.s, .0006) and near(t.rise, st.r * st.s, .0006)
                 and len(t.color) == len(st.c) and all(near(x, y, 0.0006) for x, y in zip(t.color, st.c)), 'footnote-mark-style',
                 lambda: '%r, expected %s %s %s %s' % (t, st.base, st.s, st.c, st.r))


# -- sequences of elements: nothing leaks ------------------------------------------

ELS = 'pnurtcfgiL'


def gen_leak(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for s in itertools.product(ELS, repeat=k):
            for h in (300, 75) if k > 1 else (300,):
                for api in ('content', 'calls'):
                    if api == 'calls' and any(x in 'gc' for x in s):
                        continue
                    yield (''.join(s), h, api)


def run_leak(case, r):
    s, h, api = case
    content = []
    styles = {}
    calls = []
    pdf = PDF(page_size=(250, h), margin=12, font_size=10)
    base = {'s': 10}

    def letter():
        l = LETTERS[len(styles)]
        styles[l] = None
        return l

    for i, e in enumerate(s):
        if e in 'pnurfL':
            l = letter()
            d = {'p': {}, 'n': CH['n'], 'u': {'u': True}, 'r': {'r': 0.5, 'i': True}, 'f': {'bg': 0.7, 'c': 0.3},
                 'L': {'b': True}}[e]
            styles[l] = resolve(base, d)
            el = {'.': l * 3 + ' ' + l, 'style': dict(d)}
            kw = {}
            if e == 'L':
                l2 = letter()
                kw = {'list_text': l2 + ' ', 'list_style': {'c': [0, 0, 1], 's': 8}}
                styles[l2] = resolve(base, d, kw['list_style'])
            calls.append(('text', el, kw))
            content.append(dict(el, style=dict(d, **kw)))
        elif e == 't':
            l, l2 = letter(), letter()
            d = {'c': [0, 0.5, 0], 'i': True, 'cell_margin': 1, 'border_width': 0}
            rows = [[l * 2, {'.': l2, 'style': {'s': 8, 'bg': 0.95}}]]
            styles[l] = resolve(base, d and {'c': d['c'], 'i': True})
            styles[l2] = resolve(base, {'c': d['c'], 'i': True, 's': 8, 'bg': 0.95})
            content.append({'table': rows, 'style': d})
            calls.append(('table', rows, {'style': d}))
        elif e == 'c':
            l = letter()
            styles[l] = resolve(base, {'f': 'Times', 'u': True})
            content.append({'style': {'f': 'Times', 'u': True}, 'cols': {'count': 2}, 'content': [l + l, l]})
        elif e == 'g':
            l, l2 = letter(), letter()
            styles[l] = resolve(base, {'f': 'Courier'})
            styles[l2] = resolve(base, {'f': 'Courier', 'b': True, 'c': 0.6})
            content.append({'style': {'f': 'Courier'}, 'group': [l, {'.b;c:0.6': l2}]})
        elif e == 'i':
            content.append({'image': jpg_io(10, 1), 'extension': 'jpg', 'image_name': 'im'})
            calls.append(('image', None, {}))
    pdf.add_page()
    if api == 'content':
        pdf.content({'content': content})
    else:
        for m, el, kw in calls:
            if m == 'image':
                pdf.image(jpg_io(10, 1), 'jpg', 'im')
                pdf.page.x = pdf.page.margin_left
            else:
                getattr(pdf, m)(el, **kw)
    check_doc(output(pdf), styles, r)


# -- redundant style changes ----------------------------------------------------

def gen_red(tier):
    for a in NEST + 'qnhmd':
        for b in NEST + 'qnhmd':
            yield (a, b)


def run_red(case, r):
    a, b = case
    variants = [
        [part(a, 'aa bb ', 'style', {}), part(b, 'cc dd', 'style', {})],
        [part(a, [part('0', 'aa ', 'dot', {}), part(a, 'bb ', 'dot', {})], 'style', {}), {'.': [part(b, 'cc ', 'dot', {}), part(b, 'dd', 'style', {})]}],
        [part(a, 'aa ', 'dot', {}), part(a, ['bb', ' '], 'style', {}), {'.': [{'.': part(b, 'cc dd', 'style', {})['.'], 'style': dict(CH[b])}]}],
    ]
    digs = []
    for v in variants:
        pdf = PDF(page_size=(300, 300), margin=20)
        pdf.add_page()
        pdf.text(v)
        d = Doc(output(pdf))
        p = d.pages[0]
        st = {'a': CH[a], 'b': CH[a], 'c': CH[b], 'd': CH[b]}
        decor.check_page(p, lambda ch: resolve(st[ch]), r)
        digs.append([(c, x, y) for c, x, y, t in chars(p)])
    for d in digs[1:]:
        r.expect(len(d) == len(digs[0]) and all(p[0] == q[0] and near(p[1], q[1], 0.03) and near(p[2], q[2]) for p, q in zip(d, digs[0])), 'redundant-style-visible', lambda: '%r vs %r' % (d, digs[0]))
    r.compared += 1
    r.state([(c, round(x, 2), round(y, 2)) for c, x, y in digs[0]])


FAMILIES = [
    Family('values', gen_values, run_values, 'all ordered pairs (and a-b-a) of close values of every attribute, pairs of attributes, and font modes, in one paragraph or separate ones'),
    Family('sequences', gen_seq, run_seq, lambda t: 'all sequences of up to %d parts over 15 styles x 3 rectangle sequences' % (3 if t == 'quick' else 4)),
    Family('nesting', gen_nest, run_nest, 'all nestings of 3 parts over 15 style changes, as style strings, dicts and named formats'),
    Family('deep', gen_deep, run_deep, 'nestings of 4 to 20 parts and sequences of 5 to 50 parts in 15 cycles of style changes, in 3 notations, in 3 sequences of rectangles'),
    Family('document-levels', gen_doc, run_doc, 'document, section, box and element style over 4-7 styles each; cells, groups, columns, running sections, footnotes'),
    Family('leaks', gen_leak, run_leak, 'all sequences of up to 3 (thorough 4) elements of 10 kinds x page heights'),
    Family('redundant', gen_red, run_red, 'all pairs of 20 styles written in 3 equivalent ways'),
]
