"""C08: table borders and fills are exactly the ones configured."""
import itertools

from mc.engine import Family
from mc.grid import *
from mc.tab import *
from checks.c07_table_cells import geometry, text, S, cells_letters

PROPERTY = 'C08'
EXPLANATION = (
    'Bounded exhaustive enumeration of tables with border and fill rules: all slices and index lists, '
    'pairs of rules, span arrangements and page splits.  Every painted line and rectangle is mapped to '
    'the grid segments and cells it covers, and compared with an independent evaluation of the rules.')
ASSUMPTIONS = ['at a page break the border of the cut row may be the one above or the one below the row',
               'where rows are thinner than their borders, or a cut row leaves a choice of borders, line ends may be off by half the widest border']

COLORS = {'red': (1, 0, 0), '#0f0': (0, 1, 0), 'blue': (0, 0, 1), '#808': None}
BLACK = (0,)


def rule(pos, width=None, color=None, style=None):
    d = {'pos': pos}
    if width is not None:
        d['width'] = width
    if color is not None:
        d['color'] = color
        d['rgb'] = COLORS[color]
    if style is not None:
        d['style'] = style
    return d


def user(rules):
    return [{k: v for k, v in q.items() if k != 'rgb'} for q in rules]


def check(tiling, rows, cols, lens, brules, frules, tstyle, cellfills, r, default=(0.5, BLACK, 'solid'), widths=None,
          tfill=None, w=230.7):
    """One rectangle, exact comparison."""
    rect = (31, 2500, w, 2400)
    ls = cells_letters(tiling)
    lines = Lines(rows, cols, default, brules)
    mg = [(5, 5, 5, 5)] * len(tiling)
    try:
        tops, boxes = geometry(tiling, rows, cols, lens, widths, rect[2], mg, lines.width)
    except Tie:
        return
    els = []
    for k, (l, n) in enumerate(zip(ls, lens)):
        el = {'.': text(l, n)}
        if cellfills and cellfills.get(k):
            el['style'] = {'cell_fill': cellfills[k]}
        els.append(el)
    style = {'s': S}
    style.update(tstyle or {})
    pdf, heights, fin = run_table(content_of(tiling, rows, cols, els), [rect], widths, style, user(brules or []), user(frules or []))
    d = Doc(output(pdf))
    r.trans += 1
    p = d.pages[0]
    ytop = p.height - rect[1]
    xs = [rect[0] + x for x in col_x(widths, cols, rect[2])]
    ys = [ytop - t for t in tops]
    corner = max([b[0] for b in lines.d.values()]) / 2
    check_lines(p, xs, ys, lines.drop_spans(tiling), r, corner)
    fl = fills_of(rows, cols, frules)
    want = []
    for k, (i, j, rs, cs) in enumerate(tiling):
        c = fl.get((i, j), tfill)
        if cellfills and cellfills.get(k):
            c = COLORS[cellfills[k]]
        if c is not None:
            want.append((xs[j], ys[i], xs[j + cs] - xs[j], ys[i] - ys[i + rs], c))
    check_fills(p, want, r)
    r.compared += 1
    r.state(doc_digest(d))


def grid1(rows, cols):
    return tuple((i, j, 1, 1) for i in range(rows) for j in range(cols))


# -- position strings ------------------------------------------------------------

def parts(n, tier):
    idx = [''] + [str(v) for v in range(-n - 1, n + 2)]
    out = ['', ':'] + [str(v) for v in range(-n, n)]
    for a in idx:
        for b in idx:
            for st in (None, '', '1', '2', '-1') if tier == 'quick' else (None, '', '1', '2', '3', '-1', '-2'):
                out.append(a + ':' + b + ('' if st is None else ':' + st))
    for a in range(-n, n):
        for b in range(-n, n):
            out.append('%d,%d' % (a, b))
    out += ['0, %d' % (n - 1), ' 0 , -1 ', ','.join(str(v) for v in range(n)), ' : ', '0 : 2', '-1 : ', ' :: 2']
    return out


def gen_pos(tier):
    for kind in 'hvf':
        for which in (0, 1):
            n = 3
            if kind == 'h' and which == 0 or kind == 'v' and which == 1:
                n = 4
            for p in parts(n, tier):
                for other in (('1', ':', None) if tier == 'quick' else ('1', ':', None, '::2', '-1')):
                    if other is None and (which == 1 or tier == 'quick' and p.count(':') > 1):
                        continue
                    yield (kind, which, p, other)


def run_pos(case, r):
    kind, which, p, other = case
    if other is None:
        pos = p
    else:
        pos = p + ';' + other if which == 0 else other + ';' + p
    t = grid1(3, 3)
    if kind == 'f':
        check(t, 3, 3, (1,) * 9, [], [{'pos': pos, 'color': '#0f0', 'rgb': (0, 1, 0)}], None, None, r)
    else:
        check(t, 3, 3, (1,) * 9, [rule((kind if len(p) % 2 else kind.upper()) + pos, 2, 'red', 'dashed')], [], None, None, r)


# -- spans x rules ---------------------------------------------------------------

RULES = [[], [rule('h:;:', 0)], [rule('v:;:', 0)], [rule('h1;:', 3, 'red', 'dotted')], [rule('v:;1', 4, 'blue', 'solid')],
         [rule('h;:', 1, '#0f0', 'solid'), rule('v1;:', 2, 'red', 'dashed')],
         [rule('h::2;::2', 3, 'blue', 'solid'), rule('v::2;::2', 0)],
         [rule('h0,-1;:', 2), rule('v:;0,-1', 2)], [rule('h1:-1;:', 0), rule('v:;1:-1', 0)]]
FILLS = [[], [{'pos': '::2;:', 'color': 'red', 'rgb': (1, 0, 0)}], [{'pos': ':;::2', 'color': 'blue', 'rgb': (0, 0, 1)}, {'pos': '0;0', 'color': '#0f0', 'rgb': (0, 1, 0)}]]


def gen_spans(tier):
    for rows, cols in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)) + (((4, 2), (2, 4)) if tier != 'quick' else ()):
        for ti, t in enumerate(tilings(rows, cols)):
            for bi in range(len(RULES)):
                for fi in range(len(FILLS)):
                    if tier == 'quick' and rows * cols == 9 and fi and fi != 1 + (ti + bi) % 2:
                        continue
                    yield (rows, cols, ti, bi, fi)


def run_spans(case, r):
    rows, cols, ti, bi, fi = case
    t = tilings(rows, cols)[ti]
    lens = tuple(1 + (3 * k + ti) % 5 for k in range(len(t)))
    check(t, rows, cols, lens, RULES[bi], FILLS[fi], None, None, r, widths=(None, [2, 1, 1.5, 1][:cols])[ti % 2])


# -- rules: pairs, defaults, cell styles -------------------------------------------

PAIR = ['h0;:', 'h1;0', 'h:;1', 'h-1;:', 'v:;0', 'v0;1', 'v:;-1', 'v1:;1']
LOOK = [(0, 'red', 'solid'), (2, 'red', 'dashed'), (1, 'blue', 'dotted'), (0.5, '#0f0', 'solid')]
DEFS = [({}, (0.5, BLACK, 'solid')), ({'border_width': 0}, (0, BLACK, 'solid')),
        ({'border_width': 2, 'border_color': 'blue'}, (2, (0, 0, 1), 'solid')),
        ({'border_style': 'dotted', 'border_color': [1, 0, 0]}, (0.5, (1, 0, 0), 'dotted')),
        ({'border_style': 'dashed', 'border_width': 1}, (1, BLACK, 'dashed'))]


def gen_pairs(tier):
    for a, b in itertools.product(range(len(PAIR)), repeat=2):
        for la, lb in itertools.product(range(len(LOOK)), repeat=2):
            for di in range(len(DEFS)):
                if tier == 'quick' and di != (a + b + la + lb) % len(DEFS):
                    continue
                yield (a, b, la, lb, di)


def run_pairs(case, r):
    a, b, la, lb, di = case
    st, default = DEFS[di]
    t = grid1(2, 2)
    check(t, 2, 2, (1, 4, 2, 1), [rule(PAIR[a], *LOOK[la]), rule(PAIR[b], *LOOK[lb])], [], st, None, r, default=default)


PARTIAL = [{'width': 3}, {'color': 'red', 'rgb': (1, 0, 0)}, {'style': 'dashed'}, {'width': 2, 'style': 'dotted'}, {}]


def gen_defaults(tier):
    for di in range(len(DEFS)):
        for p in PAIR:
            for pi in range(len(PARTIAL)):
                yield ('border', di, p, pi)
    fpos = ['0;0', ':;1', '1;:', '::2;::2', ':;:']
    cf = [None, 'red', 'blue']
    for tf in (None, '#0f0'):
        for cells in itertools.product(range(3), repeat=4):
            for p in [None] + fpos:
                yield ('fill', tf, cells, p)
    for p, q in itertools.product(fpos, repeat=2):
        yield ('fills', p, q)
    for k in range(3):
        for p in PAIR:
            yield ('none', p, k)


def run_defaults(case, r):
    t = grid1(2, 2)
    if case[0] == 'border':
        st, default = DEFS[case[1]]
        check(t, 2, 2, (1, 4, 2, 1), [dict(PARTIAL[case[3]], pos=case[2])], [], st, None, r, default=default)
    elif case[0] == 'none':
        # rules that select nothing, at every place of the list
        b, f = [rule(case[1], 2, 'red', 'dashed'), rule('h1;1', 3)], [{'pos': '0;:', 'color': 'red', 'rgb': (1, 0, 0)}, {'pos': '1;1', 'color': 'blue', 'rgb': (0, 0, 1)}]
        b.insert(case[2], {'width': 4, 'color': 'blue', 'rgb': (0, 0, 1)})
        f.insert(case[2], {'color': '#0f0', 'rgb': (0, 1, 0)})
        check(t, 2, 2, (1, 4, 2, 1), b, f, None, None, r)
    elif case[0] == 'fill':
        _, tf, cells, p = case
        names = [None, 'red', 'blue']
        fr = [{'pos': p, 'color': '#ff0', 'rgb': (1, 1, 0)}] if p else []
        check(t, 2, 2, (1, 4, 2, 1), [], fr, {'cell_fill': tf} if tf else None,
              {k: names[c] for k, c in enumerate(cells)}, r, tfill=COLORS[tf] if tf else None)
    else:
        check(t, 2, 2, (1, 4, 2, 1), [], [{'pos': case[1], 'color': 'red', 'rgb': (1, 0, 0)},
                                          {'pos': case[2], 'color': 'blue', 'rgb': (0, 0, 1)}], None, None, r)


# -- page splits --------------------------------------------------------------------

PRULES = [[], [rule('h1;:', 3, 'red', 'dashed')], [rule('v:;1', 2, 'blue', 'solid'), rule('h0;:', 2, '#0f0', 'solid'), rule('h-1;:', 2, '#0f0', 'solid')],
          [rule('v1;:', 0), rule('v0;1', 2, 'red', 'dotted')]]


def splittable(tiling, rows):
    return {t[0] for t in tiling} == set(range(rows))


def gen_pages(tier):
    hs = (40, 52, 64, 90) if tier == 'quick' else range(34, 110, 4)
    for rows, cols in ((1, 2), (2, 1), (3, 1), (2, 2), (3, 2), (2, 3)) + (((3, 3),) if tier != 'quick' else ()):
        for ti, t in enumerate(tilings(rows, cols)):
            if not splittable(t, rows):
                continue
            m = len(t)
            for lens in [(6,) * m] + [tuple(9 if i == k else 1 for i in range(m)) for k in range(m)]:
                for h in hs:
                    for bi in range(len(PRULES)):
                        if tier == 'quick' and rows * cols == 6 and (bi + ti + h) % 2:
                            continue
                        yield (rows, cols, ti, lens, h, bi)


def run_pages(case, r):
    rows, cols, ti, lens, h, bi = case
    t = tiling_of(rows, cols, ti if isinstance(ti, int) else tuple(ti))
    lines = Lines(rows, cols, (0.5, BLACK, 'solid'), PRULES[bi])
    drawn = lines.drop_spans(t)
    ls = cells_letters(t)
    frules = [{'pos': '::2;:', 'color': 'red', 'rgb': (1, 0, 0)}, {'pos': '1;-1', 'color': 'blue', 'rgb': (0, 0, 1)}]
    fl = fills_of(rows, cols, frules)
    own = {}
    if bi in (0, 3):
        own = {k: ((0, 1, 0), (1, 1, 0))[k % 2] for k in range(len(t)) if (k + rows) % 3 != 2}
    content = content_of(t, rows, cols, [dict({'.': text(l, n)}, **({'style': {'cell_fill': own[k]}} if k in own else {}))
                                         for k, (l, n) in enumerate(zip(ls, lens))])
    rects = [(21, 2900, 60.0 * cols, h)]
    pdf, heights, fin = run_table(content, rects, None, {'s': S}, user(PRULES[bi]), user(frules))
    r.trans += len(heights)
    if not r.expect(fin, 'never-finished', lambda: '%d rectangles' % len(heights)):
        return
    d = Doc(output(pdf))
    corner = max(b[0] for b in lines.d.values()) / 2
    xs = [21 + x for x in col_x(None, cols, 60.0 * cols)]
    # where the text of each cell is
    where = []
    for p in d.pages:
        by = {}
        for c, x, y, g in chars(p):
            by.setdefault(c, []).append(y)
        where.append(by)
    seen = set()
    row = 0          # row at the top of the current page
    last_page = {c: max([pi for pi, by in enumerate(where) if c in by], default=-1) for c in ls}
    for pi, (p, by) in enumerate(zip(d.pages, where)):
        ytop = p.height - 2900
        bottom = ytop - heights[pi]
        if not by:
            if pi or heights[pi]:
                return      # only an empty strip: nothing to locate the rows with
            r.expect(not p.lines and not p.rects, 'empty-page-graphics', lambda: '%s %s' % (p.lines, p.rects))
            continue
        ys = [ytop]
        rws = [row]
        while rws[-1] + 1 < rows:
            i = rws[-1] + 1
            st = [k for k, q in enumerate(t) if q[0] == i and ls[k] in by and ls[k] not in seen]
            if not st:
                break
            # all the cells of the row start at the same top
            tops = {round(max(by[ls[k]]) + S + 1.1 + 5 + lines.width('h', i, t[k][1]) / 2, 1) for k in st}
            if len(tops) != 1 and max(tops) - min(tops) > 0.21:
                r.fail('row-top', 'row %d starts at %s' % (i, sorted(tops)))
                return
            k = st[0]
            ys.append(max(by[ls[k]]) + S + 1.1 + 5 + lines.width('h', i, t[k][1]) / 2)
            rws.append(i)
        last = rws[-1]
        seen |= set(by)
        more = pi + 1 < len(d.pages)
        cut = None      # row cut by the end of the page
        if more:
            ended = [k for k, q in enumerate(t) if q[0] + q[2] - 1 == last]
            if any(last_page[ls[k]] > pi for k in ended):
                cut = last
            else:
                # row `last` is complete: its bottom, then a strip of the next row
                if not ended or any(ls[k] not in by for k in ended):
                    return      # the row has no text here that tells its height
                bots = [min(by[ls[k]]) - 5 - lines.width('h', last + 1, t[k][1]) / 2 for k in ended]
                if not any(last_page[ls[k]] > pi for k, q in enumerate(t) if q[0] + q[2] - 1 == last + 1):
                    return      # the strip can hold several rows
                # cells that span further rows can make the strip higher
                ys.append(min(bots))
                rws.append(last + 1)
                cut = last + 1
        ys.append(bottom)
        if any(a < b - 0.02 for a, b in zip(ys, ys[1:])):
            r.fail('row-limits', 'page %d: rows %s have limits %s' % (pi, rws, rnd(ys)))
            return
        want = {}
        either = {}
        for q, i in enumerate(rws):
            for j in range(cols + 1):
                if ('v', i, j) in drawn:
                    want['v', q, j] = drawn['v', i, j]
            for j in range(cols):
                inside = any(a < i < a + rs and b <= j < b + cs for a, b, rs, cs in t)
                if q == 0 and pi > 0:
                    # row that continues: top edge of the page
                    opts = [lines.d['h', i, j], lines.d['h', i + 1, j]]
                    either['h', 0, j] = [o if o[0] else None for o in opts] + ([None] if inside else [])
                elif ('h', i, j) in drawn:
                    want['h', q, j] = drawn['h', i, j]
        n = len(rws)
        for j in range(cols):
            if cut is None:
                if ('h', rows, j) in drawn:
                    want['h', n, j] = drawn['h', rows, j]
            else:
                opts = [lines.d['h', cut, j], lines.d['h', cut + 1, j]]
                either['h', n, j] = [o if o[0] else None for o in opts]
        v0 = len(r.viol)
        check_lines(p, xs, ys, want, r, corner, either)
        # fills
        fw = []
        for k, (a, b, rs, cs) in enumerate(t):
            c = own.get(k, fl.get((a, b)))
            on = [q for q, i in enumerate(rws) if a <= i < a + rs]
            if c is None or not on:
                continue
            fw.append((xs[b], ys[on[0]], xs[b + cs] - xs[b], ys[on[0]] - ys[on[-1] + 1], c))
        check_fills(p, fw, r)
        if len(r.viol) > v0:
            return
        row = cut if cut is not None else rows
    r.compared += 1
    r.state(doc_digest(d))


# -- larger tables --------------------------------------------------------------------

def gen_large(tier):
    rows, cols = 6, 7
    for k, sp in enumerate(one_spans(rows, cols)):
        for bi in range(len(RULES)):
            if tier != 'quick' or bi == k % len(RULES):
                yield ('one', rows, cols, sp, bi, (k + bi) % len(FILLS))
    for rows, cols in [(1, c) for c in range(4, 21)] + [(2, c) for c in range(4, 21)] + [(n, 1) for n in range(4, 53)] + [(n, 2) for n in range(4, 27)]:
        for sp in [(0, 0, 1, 1)] + ([(0, 0, rows, 1)] if cols > 1 and rows > 1 else []) + ([(rows - 1, 0, 1, cols)] if cols > 2 else []):
            for bi in range(len(RULES)):
                if tier != 'quick' or (rows + cols + bi) % 3 == 0:
                    yield ('one', rows, cols, sp, bi, (rows + cols + bi) % len(FILLS))
    for rows, cols in [(n, 1) for n in range(6, 53)] + [(n, 2) for n in range(4, 27)] + [(3, c) for c in range(4, 14)]:
        for h in (70, 97) if tier == 'quick' else (49, 70, 97, 133):
            for bi in range(len(PRULES)):
                if tier != 'quick' or (rows + cols + bi) % 2 == 0:
                    yield ('pages', rows, cols, (0, 0, 1, 1), h, bi)


def run_large(case, r):
    kind, rows, cols, sp, x, y = case
    t = tiling_of(rows, cols, tuple(sp))
    if len(t) > 52:
        return
    lens = tuple(1 + (q[0] * 3 + q[1]) % 4 for q in t)
    if kind == 'one':
        check(t, rows, cols, lens, RULES[x], FILLS[y], None, None, r, widths=(None, [1 + k % 3 / 2 for k in range(cols)])[x % 2], w=45.7 * cols)
    else:
        run_pages((rows, cols, tuple(sp), lens, x, y), r)


# ---- tables inside boxes, groups and cells --------------------------------------------

class Boxed:
    def __init__(self):
        self.color = {}     # letter -> number of its cell
        self.owner = {}     # cell -> cells around it
        self.table = {}     # cell -> table
        self.count = {}
        self.n = 0          # letters
        self.k = 0          # cells
        self.t = 0

    def words(self, n):
        l = LETTERS[self.n]
        self.n += 1
        self.count[l] = 2 * n
        return text(l, n), l

    def cell(self, n, **kw):
        self.k += 1
        t, l = self.words(n)
        self.color[l] = self.k
        self.table[self.k] = self.t
        return dict({'.': t, 'style': {'cell_fill': [self.k / 100, 0.5, 0]}}, **kw)

    def build(self, e):
        if not isinstance(e, str):
            cols, kids = e
            b = {'content': [self.build(q) for q in kids]}
            if cols > 1:
                b['cols'] = {'count': cols}
            return b
        if e in 'pP':
            return self.words(1 if e == 'p' else 30)[0]
        self.t += 1
        if e == 'a':
            return {'table': [[self.cell(1), self.cell(1)]]}
        if e == 'b':
            return {'table': [[self.cell(9)], [self.cell(1)]]}
        if e == 'c':
            return {'table': [[self.cell(6, rowspan=2), self.cell(1)], [None, self.cell(1)]]}
        if e == 'n':
            self.k += 1
            k = self.k
            self.table[k] = self.t
            inner = {'table': [[self.cell(1)], [self.cell(4)]], 'style': {'cell_margin': 2, 'cell_fill': [k / 100, 0.5, 0]}}
            return {'table': [[inner]]}
        return {'group': [self.words(1)[0], {'table': [[self.cell(1), self.cell(2)]]}]}


def gen_boxes(tier):
    kinds = 'pabcng'
    for cols in (1, 2, 3):
        for seq in seqs(kinds, 2 if tier == 'quick' else 3, 1):
            if any(k in 'abcng' for k in seq):
                for h in ((55, 80, 400) if tier == 'quick' else (46, 55, 66, 80, 110, 400)):
                    yield ((cols, seq), h)
    for oc in (1, 2):
        for ic in (1, 2):
            for seq in [(k,) for k in 'abcng'] + [('p', 'a'), ('b', 'p'), ('P', 'a'), ('a', 'P')]:
                for pre, post in (((), ()), (('p',), ()), (('a',), ('p',)), ((), ('P',)), (('P',), ('b',))):
                    for h in ((60, 90, 400) if tier == 'quick' else (50, 60, 75, 90, 120, 400)):
                        yield ((oc, pre + ((ic, seq),) + post), h)


def run_boxes(case, r):
    t, h = case
    w = 320.0
    bx = Boxed()
    content = bx.build(t)
    x0, y0 = 30, 1000
    pdf = PDF(page_size=(PW, PH), margin=0, font_size=S)
    obj = content
    n = 0
    while n < 60:
        pdf.add_page()
        try:
            obj = pdf._content(obj, w, h, x0, y0)
        except Exception as e:
            if type(e) is Exception and 'could not be fitted' in str(e):
                r.state('refused')
                return
            raise
        n += 1
        if obj.finished:
            break
    if not r.expect(obj.finished, 'never-finished', '%d rectangles' % n):
        return
    d = Doc(output(pdf))
    got = {}
    for p in d.pages:
        top = p.height - y0
        rects = [(q[0], q[1], q[0] + q[2], q[1] + q[3], int(round(q[4][0] * 100)) if len(q[4]) == 3 else q[4]) for q in p.rects]
        for a in rects:
            if not r.expect(a[4] in bx.table, 'fill-color', lambda: 'page %d: %s' % (p.num, a)):
                return
            if not r.expect(top - h - 0.1 <= a[1] and a[3] <= top + 0.1 and x0 - 0.1 <= a[0] and a[2] <= x0 + w + 0.1, 'fill-outside', lambda: 'page %d: %s' % (p.num, a)):
                return
        for m, n in itertools.combinations(rects, 2):
            if min(m[2], n[2]) - max(m[0], n[0]) > 0.05 and min(m[3], n[3]) - max(m[1], n[1]) > 0.05:
                inside = any(u[0] <= v[0] + 0.05 and u[1] <= v[1] + 0.05 and u[2] >= v[2] - 0.05 and u[3] >= v[3] - 0.05 and u[4] < v[4] and bx.table[u[4]] == bx.table[v[4]]
                             for u, v in ((m, n), (n, m)))
                if not r.expect(inside, 'fills-overlap', lambda: 'page %d: fills of cells %s and %s' % (p.num, m, n)):
                    return
        cs = chars(p)
        for c, x, y, q in cs:
            got[c] = got.get(c, 0) + 1
            if c in bx.color:
                k = bx.color[c]
                m = [u for u in rects if u[4] == k and u[0] < x < u[2] and u[1] < y < u[3]]
                if not r.expect(len(m) == 1, 'cell-fill', lambda: 'page %d: %r of cell %d at (%.2f, %.2f) is on %d fills of the cell: %s' % (p.num, c, k, x, y, len(m), rects)):
                    return
        for u in rects:
            m = [c for c, x, y, q in cs if c in bx.color and bx.table[bx.color[c]] == bx.table[u[4]] and u[1] < y < u[3] and u[0] - w < x < u[2] + w]
            if not r.expect(m or u[3] - u[1] < 13, 'stale-fill', lambda: 'page %d: fill %s without text' % (p.num, u)):
                return
        for x1, y1, x2, y2, lw, color, dash, cap, seq in p.lines:
            if near(y1, y2, 0.01):
                m = [(u[0], u[2]) for u in rects if near(u[1], y1, 0.02) or near(u[3], y1, 0.02)]
                a, b = min(x1, x2), max(x1, x2)
            else:
                m = [(u[1], u[3]) for u in rects if near(u[0], x1, 0.02) or near(u[2], x1, 0.02)]
                a, b = min(y1, y2), max(y1, y2)
            at = a + 0.3
            for lo, hi in sorted(m):
                if lo <= at + 0.6:
                    at = max(at, hi)
            if not r.expect(at >= b - 0.6, 'stale-line', lambda: 'page %d: line %s is not the border of a cell: %s' % (p.num, (x1, y1, x2, y2), rects)):
                return
        for u in rects:
            for kind, pos, lo, hi in (('h', u[1], u[0], u[2]), ('h', u[3], u[0], u[2]), ('v', u[0], u[1], u[3]), ('v', u[2], u[1], u[3])):
                sp = [(min(q[0], q[2]), max(q[0], q[2])) if kind == 'h' else (min(q[1], q[3]), max(q[1], q[3])) for q in p.lines
                      if near(q[1] if kind == 'h' else q[0], pos, 0.02) and near(q[1], q[3], 0.01) == (kind == 'h')]
                at = lo + 0.3
                for a, b in sorted(sp):
                    if a <= at + 0.6:
                        at = max(at, b)
                if not r.expect(at >= hi - 0.6, 'missing-border', lambda: 'page %d: %s side at %.2f of fill %s: %s' % (p.num, kind, pos, u, sp)):
                    return
    r.expect(got == bx.count, 'text', lambda: '%s, expected %s' % (got, bx.count))
    r.trans += len(d.pages)
    r.compared += 1
    r.state(doc_digest(d))


# -- what is painted over what ----------------------------------------------------

LAYER = {'red': (1, 0, 0), 'lime': (0, 1, 0), 'yellow': (1, 1, 0), 'blue': (0, 0, 1), 'aqua': (0, 1, 1), None: None}
INNER = ('table', 'rule', 'box', 'twice', 'span', 'image')


def gen_layers(tier):
    for kind in INNER:
        for outer in (None, 'cell', 'table', 'rule'):
            for inner in (None, 'yellow'):
                for bg in (None, 'aqua'):
                    for shape in ('one', 'pair', 'down', 'wide', 'tall', 'all'):
                        for n in (1, 12) if tier == 'quick' else (1, 5, 12, 25):
                            for h in (300, 75) if tier == 'quick' else (300, 120, 75, 60):
                                for where in range(4):
                                    yield (kind, outer, inner, bg, shape, n, h, where)


def run_layers(case, r):
    """the fill of the innermost cell is the one that is seen, under its text, its images and the borders"""
    kind, outer, inner, bg, shape, n, h, where = case
    seen = {}       # letter -> colors that must be seen around it

    def par(l, n, *colors):
        seen[l] = ([c for c in colors if c] or [None])[-1]
        t = {'.': text(l, n)}
        if bg and l in 'bd':
            t['style'] = {'bg': bg}
            seen[l] = bg
        return t

    o = 'red' if outer else None
    i = inner
    if kind in ('table', 'rule', 'span', 'image', 'box'):
        rows = [[par('a', n, o, i), par('b', 1, o, i)], [par('c', 2, o, i), par('d', n, o, i)]]
        if kind == 'span':
            rows[0] = [dict(rows[0][0], rowspan=2), rows[0][1]]
            rows[1][0] = None
            del seen['c']
        if kind == 'image':
            rows[1][0] = {'image': jpg_io(40, 8), 'extension': 'jpg', 'image_name': 'x'}
            del seen['c']
        el = {'table': rows}
        if inner and kind == 'rule':
            el['fills'] = [{'pos': ':;:', 'color': inner}]
        elif inner:
            el['style'] = {'cell_fill': inner}
        if kind == 'box':
            el = {'content': [el]}
    else:
        deep = {'table': [[par('a', n, o, i, 'lime'), par('b', 1, o, i, 'lime')]], 'style': {'cell_fill': 'lime'}}
        el = {'table': [[deep], [par('d', 1, o, i)]], 'style': {'cell_fill': inner} if inner else {}}
    if outer == 'cell':
        el['style'] = dict(el.get('style', {}))
        # cell_fill in the style of a table in a cell is the one of the cell
        if inner and kind not in ('rule', 'box'):
            el = {'content': [el], 'style': {'cell_fill': 'red'}}
        else:
            el['style']['cell_fill'] = 'red'
            if kind == 'twice':
                el = {'content': [dict(el, style={})], 'style': {'cell_fill': 'red'}}
    elif inner and kind not in ('rule', 'box') or kind == 'twice':
        el = {'content': [el]}
    q = lambda l: par(l, 2, o if outer in ('table', 'rule') else None)
    grid = {'one': lambda: [[el]], 'pair': lambda: [[el, q('e')]], 'down': lambda: [[q('e')], [el], [q('f')]], 'wide': lambda: [[dict(el, colspan=2), None], [q('e'), q('f')]],
            'tall': lambda: [[dict(el, rowspan=2), q('e')], [None, q('f')]], 'all': lambda: [[q('e'), dict(el, rowspan=2, colspan=2), None], [q('f'), None, None], [q('g'), q('h'), q('i')]]}[shape]()
    t = {'table': grid, 'style': {'cell_margin': 3, 'border_color': 'blue'}}
    if outer == 'table':
        t['style']['cell_fill'] = 'red'
    if outer == 'rule':
        t['fills'] = [{'pos': ':', 'color': 'red'}]
    if outer is None and not inner and not bg and kind != 'twice':
        seen = {k: None for k in seen}
    if where < 2:
        content = [['zz', t, 'zz'], [{'content': [t]}]][where]
        d = view({'style': {'page_size': (240, h), 'margin': 8, 's': 7}, 'sections': [{'content': content}]})
    else:
        pdf = PDF(page_size=(240, h), margin=8, font_size=7)
        pdf.add_page()
        if where == 2:
            pdf.table(t.pop('table'), **t)
        else:
            pdf.content({'content': [t]})
        d = Doc(output(pdf))
    count = {}
    for p in d.pages:
        rects = [(u[0] - 0.01, u[1] - 0.01, u[0] + u[2] + 0.01, u[1] + u[3] + 0.01, u[4], u[5]) for u in p.rects]

        def top(x, y, first=-1, last=1e9):
            m = [u for u in rects if u[0] <= x <= u[2] and u[1] <= y <= u[3] and first < u[5] < last]
            return max(m, key=lambda u: u[5]) if m else None
        for tx in p.texts:
            for ch, x0, x1 in tx.chars:
                if ch == ' ':
                    continue
                count[ch] = count.get(ch, 0) + 1
                x, y = (x0 + x1) / 2, tx.y + 1
                u = top(x, y, last=tx.seq)
                want = LAYER[seen.get(ch)]
                got = u and tuple(u[4])
                if not r.expect((got is None) == (want is None) and (want is None or all(near(a, b, 0.002) for a, b in zip(got, want))) and (want is None or len(got) == len(want)), 'fill-seen',
                                lambda: 'page %d: %r at (%.2f, %.2f) is seen on %s, expected %s; fills in order %s' % (p.num, ch, x, y, got, want, p.rects)):
                    return
                if not r.expect(top(x, y, first=tx.seq) is None, 'fill-over-text', lambda: 'page %d: %r at (%.2f, %.2f) is below %s' % (p.num, ch, x, y, top(x, y, first=tx.seq))):
                    return
        for x1, y1, x2, y2, lw, color, dash, cap, seq in p.lines:
            u = top((x1 + x2) / 2, (y1 + y2) / 2, first=seq)
            # the background of a text can touch a border
            if not r.expect(u is None or bg and tuple(u[4]) == LAYER['aqua'], 'fill-over-line', lambda: 'page %d: line %s is below %s' % (p.num, (x1, y1, x2, y2), u)):
                return
        for q in p.images:
            u = top(q[0] + q[2] / 2, q[1] + q[3] / 2, first=q[5])
            if not r.expect(u is None, 'fill-over-image', lambda: 'page %d: image %s is below %s' % (p.num, q, u)):
                return
    for l in seen:
        r.expect(count.get(l), 'text', lambda: '%s: %r is not shown: %s' % (case, l, count))
    r.trans += len(d.pages)
    r.compared += 1
    r.state(doc_digest(d))


FAMILIES = [
    Family('positions', gen_pos, run_pos, 'all slices with limits -n-1..n+1 and steps, all pairs and single indices, x h/v/fill x row/column part'),
    Family('spans', gen_spans, run_spans, 'every span arrangement of grids up to 3x3 x 9 border rule sets x 3 fill rule sets'),
    Family('pairs', gen_pairs, run_pairs, 'all pairs of 8 positions x 4 looks x default borders on a 2x2 table'),
    Family('defaults', gen_defaults, run_defaults, 'default borders x partial rules; table, cell and rule fills of a 2x2 table'),
    Family('pages', gen_pages, run_pages, 'span arrangements x text lengths x rectangle heights x 4 rule sets, continued over rectangles'),
    Family('large', gen_large, run_large, 'every spanned cell of a 6x7 grid; tables of up to 20 columns and up to 52 rows, one rectangle or several'),
    Family('layers', gen_layers, run_layers, 'tables in 6 kinds of cells of tables of 6 shapes with fills at each level and backgrounds, over page heights: what is seen around each text, border and image'),
    Family('boxes', gen_boxes, run_boxes, 'tables with filled cells in boxes of 1-3 columns, nested boxes, groups and cells, continued over pages: fills and borders go with the cells'),
]
