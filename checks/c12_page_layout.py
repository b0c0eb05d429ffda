"""C12: sections and pages have exactly the layout they were given."""
import itertools

from mc.engine import Family
from mc.box import *

PROPERTY = 'C12'
EXPLANATION = (
    'Bounded exhaustive enumeration of documents whose style, sections and per-page rules set page size, rotation, margins and '
    'running sections.  Lines of one letter, left and right aligned, fill the pages: size, all four margins and running sections '
    'of every page are read from the output and compared with an independent evaluation of the settings.')
ASSUMPTIONS = ['margin dictionaries have the four sides', 'no page number of a per-page rule is negative']
FS = 40
LH = 1.1
LINE = FS + LH
SIZES = {'a5': (419.528, 595.276), 'a4': (595.276, 841.89), 'b5': (498.898, 708.661), 'letter': (612, 792)}
DEFAULT = dict(size='a4', rot=False, margin=(56.693,) * 4)

# name -> (style, resolved)
LAY = {
    '-': {},
    'm': {'margin': 40},
    'M': {'margin': [30, 50]},
    '4': {'margin': (20, 35, 50, 65)},
    'D': {'margin': {'top': 61, 'right': 17, 'bottom': 23, 'left': 71}},
    'S': {'page_size': (300, 260)},
    'A': {'page_size': 'a5', 'rotate_page': True},
    'R': {'rotate_page': True},
    'N': {'rotate_page': False},
    'B': {'page_size': 'b5', 'margin': 70},
    'q': {'page_size': 333, 'margin': '10,15,40,25'},
}


def four(m):
    if isinstance(m, dict):
        return tuple(m[k] for k in ('top', 'right', 'bottom', 'left'))
    if isinstance(m, str):
        m = [float(v) for v in m.split(',')]
    if isinstance(m, (int, float)):
        m = [m]
    m = list(m)
    if len(m) == 1:
        return tuple(m * 4)
    if len(m) == 2:
        return tuple(m * 2)
    if len(m) == 3:
        return (m[0], m[1], m[2], m[1])
    return tuple(m[:4])


def resolve(*styles):
    d = dict(DEFAULT)
    for s in styles:
        if 'page_size' in s:
            d['size'] = s['page_size']
        if 'rotate_page' in s:
            d['rot'] = s['rotate_page']
        if 'margin' in s:
            d['margin'] = four(s['margin'])
    z = d['size']
    w, h = (z, z) if isinstance(z, (int, float)) else SIZES[z] if isinstance(z, str) else z
    if d['rot']:
        w, h = h, w
    return w, h, d['margin']


def cap(w, h, m):
    return int((h - m[0] - m[2]) / LINE + 1e-9)


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clone(v) for v in x]
    return x


def ranges(text):
    """python style indexes and slices"""
    out = []
    for p in text.split(','):
        q = [v.strip() for v in p.split(':')]
        if len(q) == 1:
            out.append((int(q[0]), int(q[0]) + 1, 1))
        else:
            out.append((int(q[0]) if q[0] else 0, int(q[1]) if q[1] else 10**6, int(q[2]) if len(q) > 2 and q[2] else 1))
    return lambda n: any(n in range(*t) for t in out)


def plan(doc, sections, rules):
    """sections: [(style, pages)] -> [(section, layout)] for each page"""
    out = []
    for si, (st, n) in enumerate(sections):
        for k in range(n):
            styles = [doc, st]
            for pages, style in rules:
                if ranges(pages)(len(out)):
                    styles.append(style)
            out.append((si, resolve(*styles)))
    return out


def lines_for(pages):
    """number of lines per page of a section: all full but the last"""
    caps = [cap(*p) for p in pages]
    return caps[:-1] + [min(2, caps[-1])]


def margins_shown(p, lay, letters, r, what):
    """lines of one letter each: left/right aligned alternately"""
    w, h, m = lay
    if not (near(p.width, w, 0.002) and near(p.height, h, 0.002)):
        r.fail('page-size', '%s: %.2f x %.2f, expected %.2f x %.2f' % (what, p.width, p.height, w, h))
        return
    y = h - m[0]
    for i, (ch, al, q) in enumerate(letters):
        y -= LINE if i == 0 else LINE
        x = m[3] if al == 'l' else w - m[1] - AFM_H[ord(ch)] / 1000 * FS
        if not (near(q[1], x, 0.02) and near(q[2], y, 0.02)):
            r.fail('margins', '%s: line %d (%s) at %.2f, %.2f; expected %.2f, %.2f' % (what, i, al, q[1], q[2], x, y))
            return


from mc.metrics import AFM
AFM_H = AFM['Helvetica']


def make_doc(docst, sections, rules, extra=None):
    pl = plan(docst, sections, rules)
    secs = []
    expect = []
    n = 0
    for si, (st, k) in enumerate(sections):
        pages = [l for s, l in pl if s == si]
        counts = lines_for(pages)
        content = []
        for c in counts:
            row = []
            for _ in range(c):
                al = 'l' if len(content) % 2 == 0 else 'r'
                ch = LETTERS[(si * 7 + len(content)) % 26]
                content.append({'.': ch, 'style': {'text_align': al}})
                row.append((ch, al))
            expect.append(row)
        s = {'style': clone(st), 'content': content}
        secs.append(s)
    d = {'style': dict(clone(docst), s=FS, margin_bottom=0), 'sections': secs}
    if rules:
        d['per_page'] = [{'pages': p, 'style': clone(s)} for p, s in rules]
    return d, pl, expect


def check_doc(d, pl, expect, r, marks=()):
    v = view(d)
    r.trans += len(v.pages)
    if not r.expect(len(v.pages) == len(pl), 'page-count', lambda: '%d pages, expected %d' % (len(v.pages), len(pl))):
        return None
    for i, (p, (si, lay), row) in enumerate(zip(v.pages, pl, expect)):
        cs = [c for c in chars(p) if near(c[3].size, FS, 0.01)]
        got = ''.join(c[0] for c in cs)
        want = ''.join(c for c, _ in row)
        if got != want:
            r.fail('page-contents', 'page %d shows %r, expected %r' % (i, got, want))
            return None
        margins_shown(p, lay, [(ch, al, c) for (ch, al), c in zip(row, cs)], r, 'page %d (section %d)' % (i, si))
    r.compared += 1
    r.state(doc_digest(v))
    return v


# -- sections ------------------------------------------------------------------

def gen_sections(tier):
    ks = '-m4SRNA' if tier == 'quick' else ''.join(LAY)
    for d in ks + ('DqBM' if tier == 'quick' else ''):
        for a in LAY:
            for n in (1, 2, 3):
                yield (d, ((a, n),))
        for a, b in itertools.product(ks, repeat=2):
            for n in ((1, 1), (2, 1), (1, 2)):
                yield (d, ((a, n[0]), (b, n[1])))
    for d in '-mSR':
        for t in itertools.product('-4SRNq' if tier == 'quick' else LAY, repeat=3):
            yield (d, tuple((a, 1) for a in t))
    if tier != 'quick':
        for t in itertools.product('-4SRNA', repeat=4):
            yield ('-', tuple((a, 1 + (i == 1)) for i, a in enumerate(t)))


def run_sections(case, r):
    d, secs = case
    check_doc(*make_doc(LAY[d], [(LAY[a], n) for a, n in secs], []), r)


# -- per page ------------------------------------------------------------------

PAGES = ('0', '1', '2', '0:2', '1:3', ':2', '0,2', '0:4:2', '1:4:2', ' 1 , 2 ', '1:', '::2', '5', '2:5', '3,0', '2:0:-1')


def gen_per_page(tier):
    sets = [('-', (('-', 3),)), ('m', (('-', 2), ('S', 2))), ('-', (('R', 1), ('-', 2))), ('S', (('-', 1), ('M', 1), ('-', 1)))]
    if tier != 'quick':
        sets += [('A', (('-', 2), ('4', 2), ('N', 1))), ('-', (('4', 1), ('q', 1), ('-', 3)))]
    for d, secs in sets:
        for pg in PAGES:
            for s in 'm4SRNAq' if tier == 'quick' else list(LAY)[1:]:
                yield (d, secs, ((pg, s),))
        for p1, p2 in itertools.product(PAGES[:5] if tier == 'quick' else PAGES, repeat=2):
            for s1, s2 in itertools.product('4SR' if tier == 'quick' else '4SRNAq', repeat=2):
                yield (d, secs, ((p1, s1), (p2, s2)))


def run_per_page(case, r):
    d, secs, rules = case
    check_doc(*make_doc(LAY[d], [(LAY[a], n) for a, n in secs], [(p, LAY[s]) for p, s in rules]), r)


# -- running sections: place -----------------------------------------------------

def gen_place(tier):
    xs = (0, None, 'left', 'right', 33)
    ys = (0, None, 'top', 'bottom', 44)
    ws = (0, None, 'left', 'right', 'full', 111)
    hs = (0, None, 'top', 'bottom', 'full', 77)
    lays = ('4', 'A', 'S') if tier == 'quick' else ('4', 'A', 'S', 'D', 'q', '-', 'R')
    for x, y, w, h in itertools.product(xs, ys, ws, hs):
        for l in lays:
            yield (x, y, w, h, l, 'section')
            if tier != 'quick':
                yield (x, y, w, h, l, 'doc')


def run_place(case, r):
    """0 stands for a key that is not there"""
    x, y, w, h, l, where = case
    rs = {k: v for k, v in zip(('x', 'y', 'width', 'height'), (x, y, w, h)) if v != 0}
    rs['content'] = [{'.': 'L', 'style': {'s': 5, 'margin_bottom': 0}}, {'.': 'R', 'style': {'s': 5, 'text_align': 'r', 'margin_bottom': 0}}] + [
        {'.': 'Z', 'style': {'s': 5, 'margin_bottom': 0}}] * 3
    lay = LAY[l]
    d, pl, expect = make_doc(lay if where == 'doc' else {}, [({} if where == 'doc' else lay, 2)], [])
    d['running_sections'] = {'run': rs}
    d['sections'][0]['running_sections'] = ['run']
    v = check_doc(d, pl, expect, r)
    if v is None:
        return
    pw, ph, (mt, mr, mb, ml) = pl[0][1]
    ex = {'left': ml, 'right': pw - mr}.get(x, x or 0)
    ey = {'top': mt, 'bottom': ph - mb}.get(y, y or 0)
    ew = {'left': ml, 'right': mr, 'full': pw}.get(w, w or pw - ml - mr)
    eh = {'top': mt, 'bottom': mb, 'full': ph}.get(h, h or ph - mt - mb)
    LN = 5 + LH
    n = min(5, int(eh / LN + 1e-6))
    for i, p in enumerate(v.pages):
        cs = [c for c in chars(p) if near(c[3].size, 5, 0.01)]
        got = ''.join(c[0] for c in cs)
        if not r.expect(got == 'LRZZZ'[:n], 'running-section-text', lambda: 'page %d: %r, expected %r' % (i, got, 'LRZZZ'[:n])):
            return
        for k, c in enumerate(cs):
            wx = ex + ew - AFM_H[ord('R')] / 1000 * 5 if c[0] == 'R' else ex
            wy = ph - ey - (k + 1) * LN
            if not r.expect(near(c[1], wx, 0.03) and near(c[2], wy, 0.03), 'running-section-place',
                            lambda: 'page %d: line %d at %.2f, %.2f; expected %.2f, %.2f' % (i, k, c[1], c[2], wx, wy)):
                return


# -- running sections: selection ---------------------------------------------------

RUN = {'h': 'H', 'f': 'F', 'k': 'K'}
SUB = [(), ('h',), ('f',), ('h', 'f'), ('f', 'h', 'k'), None]


def gen_select(tier):
    rules = [()]
    acts = [(('h',), ()), ((), ('h',)), (('f',), ('h',)), (('h', 'f'), ()), ((), ('h', 'f', 'k')), (('h',), ('h',)), ((), ())]
    pgs = ('0', '1', '1:3', '0,3', '::2')
    rules += [((p, a),) for p in pgs for a in acts]
    two = [((p, a), (q, b)) for p in pgs[:3] for q in pgs[:3] for a in acts[:6] for b in acts[:6]]
    for s1 in SUB:
        for s2 in SUB:
            for ru in rules:
                yield ((s1, s2), ru)
    for s1 in SUB[:4] if tier == 'quick' else SUB:
        for ru in two:
            yield ((s1, s1), ru)
            if tier != 'quick':
                yield ((s1, ('f',)), ru)
    for t in itertools.product(SUB, repeat=3):
        yield (t, ())


def run_select(case, r):
    secs, rules = case
    n = 2 if len(secs) == 2 else 1
    d, pl, expect = make_doc(LAY['S'], [({}, n) for _ in secs], [])
    d['running_sections'] = {k: {'x': 'left', 'y': 3 + 12 * i, 'height': 12, 'content': [{'.': t, 'style': {'s': 6}}]} for i, (k, t) in enumerate(RUN.items())}
    for s, names in zip(d['sections'], secs):
        if names is not None:
            s['running_sections'] = list(names)
    if rules:
        d['per_page'] = []
        for p, (exc, inc) in rules:
            e = {'pages': p, 'running_sections': {}}
            if exc:
                e['running_sections']['exclude'] = list(exc)
            if inc:
                e['running_sections']['include'] = list(inc)
            d['per_page'].append(e)
    v = check_doc(d, pl, expect, r)
    if v is None:
        return
    for i, (p, (si, lay)) in enumerate(zip(v.pages, pl)):
        want = set(secs[si] or ())
        for pg, (exc, inc) in rules:
            if ranges(pg)(i):
                want -= set(exc)
                want |= set(inc)
        got = sorted(c[0] for c in chars(p) if near(c[3].size, 6, 0.01))
        ex = sorted(RUN[k] for k in want)
        if not r.expect(got == ex, 'running-sections', lambda: 'page %d shows %s, expected %s' % (i, got, ex)):
            return


# -- more sections, running sections and pages ------------------------------------------

def gen_many(tier):
    big = ('3:', ':20:3', '7,9,15', '12:16', '0:100:5', '10')
    for k in (4, 5, 6, 8) if tier == 'quick' else range(4, 13):
        for o in range(len(LAY)):
            for n in (1, 2):
                yield (k, o, n, 3, ())
            for g in (range(len(big)) if tier != 'quick' else ((o + k) % len(big), (o + k + 2) % len(big))):
                yield (k, o, 3, 2, ((big[g], o + 1),))
    for k in (1, 2, 3, 7):
        for m in range(4, 11):
            for g in (range(len(big)) if tier != 'quick' else ((m + k) % len(big), (m + k + 3) % len(big))):
                yield (k, 0, 12 // k, m, ((big[g], -1),))
    for n in (13, 21, 34):
        for g in range(len(big)):
            for o in (1, 5, 7):
                yield (1, 5, n, 1, ((big[g], o), (big[(g + 1) % len(big)], o + 2)))


def run_many(case, r):
    k, o, n, m, rules = case
    names = list(LAY)
    secs = [(LAY[names[(o + i * 3) % len(names)]], n + (i % 2 if n < 10 else 0)) for i in range(k)]
    lrules = [(p, LAY[names[s % len(names)]]) for p, s in rules if s >= 0]
    d, pl, expect = make_doc(LAY['S'], secs, lrules)
    runs = ['r%d' % i for i in range(m)]
    d['running_sections'] = {q: {'x': 'left', 'y': 2 + 7 * i, 'height': 7, 'width': 50, 'content': [{'.': 'GHIJKLMNOP'[i], 'style': {'s': 5, 'margin_bottom': 0}}]}
                             for i, q in enumerate(runs)}
    mine = []
    for i, s in enumerate(d['sections']):
        sel = [q for j, q in enumerate(runs) if (i >> j % 3 & 1) == 0 or j % 4 == 0]
        mine.append(sel)
        if sel:
            s['running_sections'] = sel if i % 2 else sel[::-1]
    for p, s in rules:
        if s < 0:
            d['per_page'] = d.get('per_page', []) + [{'pages': p, 'running_sections': {'exclude': runs[::2], 'include': runs[-2:]}}]
    v = check_doc(d, pl, expect, r)
    if v is None:
        return
    for i, (p, (si, lay)) in enumerate(zip(v.pages, pl)):
        want = set(mine[si])
        for pg, s in rules:
            if s < 0 and ranges(pg)(i):
                want = (want - set(runs[::2])) | set(runs[-2:])
        cs = [c for c in chars(p) if near(c[3].size, 5, 0.01)]
        got = sorted(c[0] for c in cs)
        ex = sorted('GHIJKLMNOP'[runs.index(q)] for q in want)
        if not r.expect(got == ex, 'running-sections', lambda: 'page %d shows %s, expected %s' % (i, got, ex)):
            return
        for c in cs:
            y = lay[1] - 2 - 7 * 'GHIJKLMNOP'.index(c[0]) - 5 - LH
            if not r.expect(near(c[1], lay[2][3], 0.03) and near(c[2], y, 0.03), 'running-section-place',
                            lambda: 'page %d: %s at %.2f, %.2f; expected %.2f, %.2f' % (i, c[0], c[1], c[2], lay[2][3], y)):
                return


# -- PDF.setup_page, PDF.add_page ----------------------------------------------

def gen_api(tier):
    setups = [{}, {'margin': (20, 35, 50, 65)}, {'page_size': (300, 260)}, {'rotate_page': True}, {'rotate_page': False, 'page_size': 'a5'}, {'margin': 0}]
    adds = [{}, {'margin': 33}, {'page_size': (310, 220)}, {'rotate_page': True}, {'rotate_page': False}, {'margin': {'top': 7, 'left': 70}},
            {'page_size': 'letter', 'rotate_page': True, 'margin': [9, 90]}, {'margin': 0}]
    ops = [('s', s) for s in setups[1:]] + [('a', a) for a in adds]
    ini = [{}, {'rotate_page': True}, {'page_size': (400, 300), 'margin': [25, 10, 45]}, {'margin': '15,30,45,60', 'page_size': 'b5', 'rotate_page': True}]
    for i in ini if tier == 'quick' else ini + setups[1:]:
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            if n == 4 and i not in ini:
                continue
            for seq in itertools.product(range(len(ops)), repeat=n):
                if ops[seq[-1]][0] == 'a':
                    yield (tuple(sorted(i.items(), key=str)), tuple(seq))


def run_api(case, r):
    ini, seq = case
    setups = [{}, {'margin': (20, 35, 50, 65)}, {'page_size': (300, 260)}, {'rotate_page': True}, {'rotate_page': False, 'page_size': 'a5'}, {'margin': 0}]
    adds = [{}, {'margin': 33}, {'page_size': (310, 220)}, {'rotate_page': True}, {'rotate_page': False}, {'margin': {'top': 7, 'left': 70}},
            {'page_size': 'letter', 'rotate_page': True, 'margin': [9, 90]}, {'margin': 0}]
    ops = [('s', s) for s in setups[1:]] + [('a', a) for a in adds]
    ini = {k: (v if not isinstance(v, tuple) or k == 'page_size' else list(v)) for k, v in ini}
    pdf = PDF(font_size=FS, **clone(ini))
    base = [ini]
    want = []
    for k in seq:
        op, args = ops[k]
        r.trans += 1
        if op == 's':
            pdf.setup_page(**clone(args))
            base.append(args)
        else:
            a = dict(args)
            cur = resolve(*base)
            if isinstance(a.get('margin'), dict):
                a['margin'] = [a['margin'].get(sd, cur[2][j]) for j, sd in enumerate(('top', 'right', 'bottom', 'left'))]
            want.append(resolve(*(base + [a])))
            pdf.add_page(**clone(args))
            c = cap(*want[-1])
            row = []
            pdf.text('a')
            pdf.text('b', text_align='r')
    v = Doc(output(pdf))
    if not r.expect(len(v.pages) == len(want), 'page-count', lambda: '%d pages, expected %d' % (len(v.pages), len(want))):
        return
    for i, (p, lay) in enumerate(zip(v.pages, want)):
        cs = chars(p)
        if not r.expect(''.join(c[0] for c in cs) == 'ab', 'page-contents', lambda: 'page %d: %r' % (i, cs)):
            return
        margins_shown(p, lay, [('a', 'l', cs[0]), ('b', 'r', cs[1])], r, 'page %d' % i)
    # the bottom margin decides when a new page is needed
    w, h, m = want[-1]
    k = cap(w, h, m)
    for _ in range(k - 2):
        pdf.text('c')
    if not r.expect(len(pdf.pages) == len(want), 'page-too-early', lambda: '%d lines fit the last page' % k):
        return
    pdf.text('d')
    r.expect(len(pdf.pages) == len(want) + 1, 'bottom-margin', lambda: 'only %d lines fit the last page' % k)
    v = Doc(output(pdf))
    p = v.pages[-1]
    margins_shown(p, resolve(*base), [('d', 'l', chars(p)[0])], r, 'page added by text()')
    r.compared += 1
    r.state(doc_digest(v))


FAMILIES = [
    Family('sections', gen_sections, run_sections, 'document and 1-3 section layouts of 11 kinds, 1-3 pages each'),
    Family('per_page', gen_per_page, run_per_page, 'one or two per-page layout rules, 16 page ranges, over 4 documents'),
    Family('place', gen_place, run_place, 'every combination of the documented values of x, y, width and height of a running section'),
    Family('select', gen_select, run_select, 'running sections of 2-3 sections and include/exclude rules'),
    Family('many', gen_many, run_many, '4 to 8 (12) sections, 1 to 10 running sections, 12 to 34 pages, with per-page rules'),
    Family('api', gen_api, run_api, 'sequences of setup_page and add_page calls of up to 3 (4) operations'),
]
