"""C07: table cells keep their content, position and spans across pages."""
import itertools

from mc.engine import Family
from mc.tab import *

PROPERTY = 'C07'
EXPLANATION = (
    'Bounded exhaustive enumeration of tables: every partition of the grid into spanned cells, '
    'text lengths, cell kinds, margins, borders, column widths and rectangle heights.  Each letter '
    'identifies its cell; painted positions are compared with a reference geometry (one rectangle) '
    'or with ordering, band and containment rules (several rectangles).')
ASSUMPTIONS = ['every line, and every image, of a cell fits an empty rectangle', 'words fit their cell']

S = 8


def text(l, n):
    return ' '.join([l * 2] * n)


def lens_for(m, tier):
    """text lengths of the m cells: all short, all long, one long, one empty"""
    yield (1,) * m
    yield (9,) * m
    for k in range(m):
        yield tuple(9 if i == k else 1 for i in range(m))
    if tier != 'quick':
        for k in range(m):
            yield tuple(1 if i == k else 7 for i in range(m))
            yield tuple(17 if i == k else 3 for i in range(m))


GRIDS = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)]


def cells_letters(tiling):
    return LETTERS[:len(tiling)]


def geometry(tiling, rows, cols, lens, widths, w, margins, bw, lh=1.1, s=S):
    """Reference for one rectangle: (row tops relative to the table top (down),
    total height, [(left, width)] of the content of each cell).  margins: per
    cell (top, right, bottom, left); bw(kind, i, j): border width."""
    xs = col_x(widths, cols, w)
    st = style_of({'s': s})
    need = []
    boxes = []
    for (i, j, rs, cs), n, l, mg in zip(tiling, lens, cells_letters(tiling), margins):
        left = xs[j] + bw('v', i, j) / 2 + mg[3]
        right = xs[j + cs] - bw('v', i, j + cs) / 2 - mg[1]
        lines = len(break_lines([(text(l, n), st)], right - left, 'l', 0, 0)) if n else 0
        top = bw('h', i, j) / 2 + mg[0]
        bottom = bw('h', i + rs, j) / 2 + mg[2]
        need.append((text_height(lines, s, lh) if n else lh) + top + bottom)
        boxes.append((left, right, top, lines))
    tops = [0.0]
    for i in range(rows):
        h = 0.0
        for (ci, cj, rs, cs), nd in zip(tiling, need):
            if ci + rs - 1 == i:
                h = max(h, nd - (tops[i] - tops[ci]))
        tops.append(tops[-1] + h)
    return tops, boxes


def check_single(tiling, rows, cols, lens, widths, rect, margins, bw, style, borders, r, elements=None):
    ls = cells_letters(tiling)
    content = content_of(tiling, rows, cols, elements or [{'.': text(l, n)} for l, n in zip(ls, lens)])
    try:
        tops, boxes = geometry(tiling, rows, cols, lens, widths, rect[2], margins, bw)
    except Tie:
        return
    pdf, heights, fin = run_table(content, [rect], widths, style, borders)
    d = Doc(output(pdf))
    r.trans += len(tiling)
    r.expect(fin and len(d.pages) == 1, 'not-finished', lambda: '%d rectangles for a table %.1f high' % (len(d.pages), tops[-1]))
    p = d.pages[0]
    ytop = p.height - rect[1]
    by = {}
    for c, x, y, t in chars(p):
        by.setdefault(c, []).append((x, y))
    for (i, j, rs, cs), l, n, (left, right, top, lines) in zip(tiling, ls, lens, boxes):
        got = by.pop(l, [])
        if not r.expect(len(got) == 2 * n, 'cell-text', lambda: 'cell %s shows %d letters, expected %d' % ((i, j), len(got), 2 * n)):
            return
        if not n:
            continue
        x0, y0 = got[0]
        base = ytop - tops[i] - top - S - 1.1
        r.expect(near(x0, rect[0] + left), 'cell-x', lambda: 'cell %s starts at x=%.3f, expected %.3f' % ((i, j), x0, rect[0] + left))
        r.expect(near(y0, base, 0.02), 'cell-y', lambda: 'cell %s starts at y=%.3f, expected %.3f (row tops %s)' % ((i, j), y0, base, tops))
        last = base - (lines - 1) * 1.1 * S
        r.expect(near(got[-1][1], last, 0.02), 'cell-lines', lambda: 'cell %s ends at y=%.3f, expected %.3f' % ((i, j), got[-1][1], last))
        st = style_of({'s': S})
        r.expect(all(x <= rect[0] + right - st.w(l) + 0.02 for x, y in got), 'cell-right', lambda: 'cell %s: %s beyond %.3f' % ((i, j), max(got), rect[0] + right))
    r.expect(not by, 'extra-text', lambda: sorted(by))
    r.expect(near(heights[0], tops[-1], 0.02), 'table-height', lambda: 'height %.3f, expected %.3f' % (heights[0], tops[-1]))
    r.compared += 1
    r.state(doc_digest(d))


def gen_single(tier):
    for rows, cols in GRIDS:
        for ti, t in enumerate(tilings(rows, cols)):
            for lens in lens_for(len(t), tier):
                for wi in ((None, (1, 2, 1.5)) if tier != 'quick' or rows * cols < 9 else (None,)):
                    yield (rows, cols, ti, lens, wi)


def run_single(case, r):
    rows, cols, ti, lens, wi = case
    t = tilings(rows, cols)[ti]
    mg = [(5, 5, 5, 5)] * len(t)
    check_single(t, rows, cols, lens, list(wi[:cols]) if wi else None, (30, 2500, 230.7, 2400), mg,
                 lambda k, i, j: 0.5, {'s': S}, None, r)


MARG = [{}, {'cell_margin': 0}, {'cell_margin': 11}, {'cell_margin_left': 13}, {'cell_margin_top': 12, 'cell_margin': 2},
        {'cell_margin_right': 17}, {'cell_margin_bottom': 9, 'cell_margin_left': 0}]


def sides(*styles):
    out = {}
    d = {'cell_margin': 5}
    for s in styles:
        d.update(s)
    return tuple(d.get('cell_margin_' + k, d['cell_margin']) for k in ('top', 'right', 'bottom', 'left'))


def gen_margins(tier):
    for a, b in itertools.product(range(len(MARG)), repeat=2):
        for bwid in (None, 0, 3, 'rules'):
            for rows, cols, ti in ((1, 2, 0), (2, 2, 0), (2, 2, 2), (2, 2, 4)):
                for lens in ((1, 1, 1, 1), (9, 1, 5, 1), (1, 9, 1, 0)):
                    yield (a, b, bwid, rows, cols, ti, lens)


def run_margins(case, r):
    a, b, bwid, rows, cols, ti, lens = case
    t = tilings(rows, cols)[ti]
    lens = lens[:len(t)]
    ls = cells_letters(t)
    els = []
    mg = []
    for k, (l, n) in enumerate(zip(ls, lens)):
        if k % 2:
            els.append({'.': text(l, n), 'style': dict(MARG[b])})
            mg.append(sides(MARG[a], MARG[b]))
        else:
            els.append({'.': text(l, n)})
            mg.append(sides(MARG[a]))
    style = dict(MARG[a], s=S)
    borders = None
    bw = lambda k, i, j: 0.5
    if bwid == 'rules':
        borders = [{'pos': 'h0;:', 'width': 4}, {'pos': 'v:;1', 'width': 6}, {'pos': 'h-1;:', 'width': 2}]

        def bw(k, i, j):
            if k == 'h':
                return 4 if i == 0 else 2 if i == rows else 0.5
            return 6 if j == 1 else 0.5
    elif bwid is not None:
        style['border_width'] = bwid
        bw = lambda k, i, j: bwid
    check_single(t, rows, cols, lens, None, (30, 2500, 260.3, 2400), mg, bw, style, borders, r, els)


def gen_wide(tier):
    """large margins and borders"""
    ms = (0, 5, 28, 63, 140) if tier == 'quick' else (0, 5, 17, 28, 45, 63, 100, 140, 210)
    for m in itertools.product(ms, repeat=4) if tier != 'quick' else [m for m in itertools.product(ms, repeat=4) if len(set(m)) <= 2]:
        for bwid in (0.5, 23, 90):
            for rows, cols, ti in ((1, 1, 0), (1, 2, 0), (2, 2, 2)):
                yield (m, bwid, rows, cols, ti, 5)
                yield (m, bwid, rows, cols, ti, 90)


def run_wide(case, r):
    m, bwid, rows, cols, ti, n = case
    t = tilings(rows, cols)[ti]
    lens = (n, 1, 3, 2)[:len(t)]
    els = []
    for k, (l, n) in enumerate(zip(cells_letters(t), lens)):
        st = {'cell_margin_' + q: v for q, v in zip(('top', 'right', 'bottom', 'left'), m)} if not k else {}
        els.append({'.': text(l, n), 'style': st})
    check_single(t, rows, cols, lens, None, (30, 2500, 560.3 * cols, 2400), [m] + [(5, 5, 5, 5)] * (len(t) - 1), lambda k, i, j: bwid, {'s': S, 'border_width': bwid}, None, r, els)


# -- every border of another width ----------------------------------------------------

VB = (1, 7, 3, 12)
HB = (2, 9, 4, 14)


def gen_unequal(tier):
    for rows, cols in ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (2, 3)) if tier == 'quick' else GRIDS:
        for ti, t in enumerate(tilings(rows, cols)):
            if rows * cols > 6 and ti % 7:
                continue
            for k in range(len(t)):
                for n in range(1, 28):
                    for rev in (0, 1):
                        yield (rows, cols, ti, k, n, rev)


def run_unequal(case, r):
    rows, cols, ti, k, n, rev = case
    t = tilings(rows, cols)[ti]
    lens = [1] * len(t)
    lens[k] = n
    v, h = (VB[::-1], HB[::-1]) if rev else (VB, HB)
    borders = [{'pos': 'v:;%d' % j, 'width': v[j]} for j in range(cols + 1)] + [{'pos': 'h%d;:' % i, 'width': h[i]} for i in range(rows + 1)]
    check_single(t, rows, cols, tuple(lens), None, (30, 2500, 100.3 + 40 * (cols - 1), 2400), [(5, 5, 5, 5)] * len(t),
                 lambda q, i, j: v[j] if q == 'v' else h[i], {'s': S}, borders, r)


# -- larger tables ------------------------------------------------------------------

def gen_large(tier):
    rows, cols = 6, 7
    for sp in one_spans(rows, cols):
        for n in (1, 12):
            yield (rows, cols, sp, n, 0)
            if (sp[2] + sp[3]) % 2 or tier != 'quick':
                yield (rows, cols, sp, n, 70 + 3 * (sp[0] + sp[3]))
    for rows, cols in [(1, c) for c in range(4, 21)] + [(2, c) for c in range(4, 21)] + [(n, 1) for n in range(4, 53)] + [(n, 2) for n in range(4, 27)]:
        for sp in [(0, 0, 1, 1)] + ([(0, 0, rows, 1)] if cols > 1 and rows > 1 else []) + ([(rows - 1, 0, 1, cols)] if cols > 2 else []):
            for n in (1, 30):
                for h in (0, 70, 97) if tier == 'quick' else (0, 49, 70, 97, 133):
                    yield (rows, cols, sp, n, h)


def run_large(case, r):
    rows, cols, sp, n, h = case
    t = tiling_of(rows, cols, tuple(sp))
    lens = tuple(n if q[:2] == tuple(sp[:2]) else 1 + (q[0] + q[1]) % 2 for q in t)
    if len(t) > 52:
        return
    w = 41.3 * cols
    if not h:
        check_single(t, rows, cols, lens, None, (30, 2800, w, 2700), [(5, 5, 5, 5)] * len(t), lambda k, i, j: 0.5, {'s': S}, None, r)
        return
    ls = cells_letters(t)
    rects = [(20, 2900, w, h)]
    pdf, heights, fin = run_table(content_of(t, rows, cols, [{'.': text(l, m)} for l, m in zip(ls, lens)]), rects, None, {'s': S})
    r.trans += len(heights)
    if not r.expect(fin, 'never-finished', lambda: '%d rectangles' % len(heights)):
        return
    d = Doc(output(pdf))
    table_invariants(d, t, ls, lens, rects, cols, None, r)
    r.expect(all(v <= h + 0.02 for v in heights), 'taller-than-rectangle', lambda: 'heights %s in rectangles %.2f high' % (heights, h))
    r.compared += 1
    r.state(doc_digest(d))


# -- several rectangles ------------------------------------------------------------

def table_invariants(d, tiling, letters, words, rects, cols, widths, r, margin=5, bw=0.5, s=S, sizes=None):
    """Ordering, band and containment of every cell over the pages."""
    pos = {}
    seqs_ = {}
    for pi, p in enumerate(d.pages):
        rect = rects[min(pi, len(rects) - 1)]
        xs = col_x(widths, cols, rect[2])
        ytop = p.height - rect[1]
        for c, x, y, t in chars(p):
            pos.setdefault(c, []).append((pi, y, x))
            seqs_[c] = seqs_.get(c, 0) + 1
            if c not in letters:
                r.fail('extra-text', 'page %d paints %r' % (pi, c))
                return
            k = letters.index(c)
            i, j, rs, cs = tiling[k]
            st = style_of({'s': s})
            lo, hi = rect[0] + xs[j] + margin + bw / 2, rect[0] + xs[j + cs] - margin - bw / 2
            if not (lo - 0.02 <= x and x + st.w(c) <= hi + 0.02):
                r.fail('cell-band', 'page %d: %r of cell %s at %.2f..%.2f, its band is %.2f..%.2f' % (pi, c, (i, j), x, x + st.w(c), lo, hi))
                return
            if not (y <= ytop - margin - bw / 2 - s + 0.02 and y >= ytop - rect[3] - 0.02):
                r.fail('outside-rectangle', 'page %d: %r at y=%.2f, rectangle %.2f..%.2f' % (pi, c, y, ytop - rect[3], ytop))
                return
    for k, n in enumerate(words):
        c = letters[k]
        if seqs_.get(c, 0) != 2 * n:
            r.fail('cell-text', 'cell %s shows %d letters, expected %d' % (tiling[k][:2], seqs_.get(c, 0), 2 * n))
            return
    ext = {}
    for c, ps in pos.items():
        ks = [(pi, -y) for pi, y, x in ps]
        if [(a, round(b, 3)) for a, b in ks] != sorted((a, round(b, 3)) for a, b in ks):
            r.fail('cell-order', 'cell of %r is not painted top to bottom' % c)
        ext[c] = (min(ks), max(ks))
    for a in range(len(tiling)):
        for b in range(len(tiling)):
            ca, cb = letters[a], letters[b]
            if ca not in ext or cb not in ext:
                continue
            if tiling[a][0] + tiling[a][2] <= tiling[b][0]:
                # a ends above the row where b starts
                la, fb = ext[ca][1], ext[cb][0]
                ok = la[0] < fb[0] or (la[0] == fb[0] and fb[1] - la[1] >= s + 2 * margin + bw - 0.05)
                if not ok:
                    r.fail('row-order', 'cell %s ends at %s but cell %s of a lower row starts at %s' % (tiling[a][:2], la, tiling[b][:2], fb))
                    return
            elif tiling[a][0] == tiling[b][0] and a < b:
                fa, fb = ext[ca][0], ext[cb][0]
                # same row: both start together (same page unless one did not fit any line)
                if fa[0] == fb[0] and not near(fa[1], fb[1], 0.02):
                    r.fail('row-top', 'cells %s and %s of one row start at %s and %s' % (tiling[a][:2], tiling[b][:2], fa, fb))
                    return
    # the continuation starts at the top of its rectangle
    for pi, p in enumerate(d.pages):
        if pi == 0:
            continue
        cs = chars(p)
        if cs:
            rect = rects[min(pi, len(rects) - 1)]
            y = max(c[2] for c in cs)
            exp = p.height - rect[1] - margin - bw / 2 - s - 1.1
            r.expect(near(y, exp, 0.02), 'continuation-top', lambda: 'page %d: first text at %.2f, expected %.2f' % (pi, y, exp))


RSEQ = ((55,), (70,), (95,), (30, 60), (60, 44, 200), (130,))


def gen_pages(tier):
    for rows, cols in GRIDS:
        for ti, t in enumerate(tilings(rows, cols)):
            for li, lens in enumerate(lens_for(len(t), 'quick')):
                for hi in range(len(RSEQ)):
                    if tier == 'quick' and rows * cols == 9 and (li + hi + ti) % 3:
                        continue
                    yield (rows, cols, ti, lens, hi)
    if tier != 'quick':
        for rows, cols in ((3, 3), (4, 2)):
            for ti, t in enumerate(tilings(rows, cols)):
                for li, lens in enumerate(lens_for(len(t), tier)):
                    for h in range(34, 140, 7):
                        yield (rows, cols, ti, lens, (h,))


def run_pages(case, r):
    rows, cols, ti, lens, hi = case
    t = tilings(rows, cols)[ti]
    hs = RSEQ[hi] if isinstance(hi, int) else hi
    ls = cells_letters(t)
    content = content_of(t, rows, cols, [{'.': text(l, n)} for l, n in zip(ls, lens)])
    rects = [(20 + 7 * k, 2900 - 13 * k, 190.3, h) for k, h in enumerate(hs)]
    pdf, heights, fin = run_table(content, rects, None, {'s': S})
    r.trans += len(heights)
    if not r.expect(fin, 'never-finished', lambda: '%d rectangles' % len(heights)):
        return
    d = Doc(output(pdf))
    table_invariants(d, t, ls, lens, rects, cols, None, r)
    for k, h in enumerate(heights):
        hh = hs[min(k, len(hs) - 1)]
        r.expect(h <= hh + 0.02, 'taller-than-rectangle', lambda: 'height %.2f in a rectangle %.2f high' % (h, hh))
        low = min([c[2] for c in chars(d.pages[k])], default=None)
        if low is not None:
            bot = d.pages[k].height - rects[min(k, len(rects) - 1)][1] - h
            r.expect(low >= bot + 5.25 - 0.02, 'text-below-table', lambda: 'page %d: text at %.2f but the table ends at %.2f' % (k, low, bot))
    r.compared += 1
    r.state(doc_digest(d))


# -- cell kinds ----------------------------------------------------------------------

KINDS = 'pPiIcCtTlnezd'


def cell(kind, l, l2, k):
    """-> (element, {letter: count}, images)"""
    if kind == 'p':
        return {'.': text(l, 1)}, {l: 2}, 0
    if kind == 'P':
        return {'.': text(l, 14)}, {l: 28}, 0
    if kind == 'n':
        return None, {}, 0
    if kind == 'z':
        return {'table': [[] for _ in range(k)]}, {}, 0
    if kind == 'd':
        return 11 * (k + 1), {str(k + 1): 2}, 0
    if kind == 'e':
        return l * 2 if k % 2 else [l, {'.b': l}], {l: 2}, 0
    if kind == 'i':
        return {'image': jpg_io(40, 10), 'extension': 'jpg', 'image_name': 'a'}, {}, 1
    if kind == 'I':
        return {'image': jpg_io(40, 24), 'extension': 'jpg', 'image_name': 'b', 'style': {'cell_margin': 2}}, {}, 1
    if kind == 'c':
        return {'content': [text(l, 1), {'.': text(l2, 2)}]}, {l: 2, l2: 4}, 0
    if kind == 'C':
        return {'cols': {'count': 2, 'gap': 4}, 'content': [text(l, 7), {'.': text(l2, 5)}]}, {l: 14, l2: 10}, 0
    if kind == 't':
        return {'table': [[text(l, 1), text(l2, 3)]], 'style': {'cell_margin': 1}}, {l: 2, l2: 6}, 0
    if kind == 'T':
        return {'table': [[text(l, 6)], [text(l2, 6)]], 'style': {'cell_margin': 1}}, {l: 12, l2: 12}, 0
    if kind == 'l':
        return {'.': text(l, 5), 'style': {'list_text': l2 + ' ', 'text_align': 'j'}}, {l: 10, l2: 1}, 0
    raise ValueError(kind)


def gen_kinds(tier):
    hs = (62, 88, 120, 300) if tier == 'quick' else tuple(range(62, 130, 6)) + (300,)
    for h in hs:
        for a, b in itertools.product(KINDS, repeat=2):
            for shape in ('row', 'col'):
                yield (a + b, shape, h)
    for h in (62, 88) if tier == 'quick' else hs:
        for a, b, c in itertools.product(KINDS if tier != 'quick' else 'pPicCTl', repeat=3):
            for shape in ('rowspan', 'colspan'):
                if shape == 'colspan' and a == 'I' and h < 123:
                    continue        # an image that never fits
                yield (a + b + c, shape, h)
    for k in KINDS:
        for h in hs:
            yield (k, 'one', h)


SHAPES = {'one': (1, 1, ((0, 0, 1, 1),)), 'row': (1, 2, ((0, 0, 1, 1), (0, 1, 1, 1))),
          'col': (2, 1, ((0, 0, 1, 1), (1, 0, 1, 1))),
          'rowspan': (2, 2, ((0, 0, 2, 1), (0, 1, 1, 1), (1, 1, 1, 1))),
          'colspan': (2, 2, ((0, 0, 1, 2), (1, 0, 1, 1), (1, 1, 1, 1)))}


def run_kinds(case, r):
    kinds, shape, h = case
    rows, cols, tiling = SHAPES[shape]
    els = []
    count = {}
    owner = {}
    nimg = 0
    for k, kd in enumerate(kinds):
        l, l2 = LETTERS[2 * k], LETTERS[2 * k + 1]
        el, cnt, im = cell(kd, l, l2, k)
        els.append(el)
        count.update(cnt)
        nimg += im
        for c in cnt:
            owner[c] = k
    content = [[None] * cols for _ in range(rows)]
    for (i, j, rs, cs), el in zip(tiling, els):
        if isinstance(el, dict):
            el = dict(el)
            if rs > 1:
                el['rowspan'] = rs
            if cs > 1:
                el['colspan'] = cs
        elif rs > 1 or cs > 1:
            el = {'.': el if el is not None else '', 'rowspan': rs, 'colspan': cs}
        content[i][j] = el
    rect = (20, 2900, 100.0 * cols, h)
    pdf, heights, fin = run_table(content, [rect], None, {'s': S, 'margin_bottom': 3})
    r.trans += len(heights)
    if not r.expect(fin, 'never-finished', lambda: '%d rectangles' % len(heights)):
        return
    d = Doc(output(pdf))
    got = {}
    images = []
    spans = {}
    for pi, p in enumerate(d.pages):
        ytop = p.height - rect[1]
        for c, x, y, t in chars(p):
            got[c] = got.get(c, 0) + 1
            k = owner.get(c)
            if k is None:
                r.fail('extra-text', repr(c))
                return
            i, j, rs, cs = tiling[k]
            lo, hi = 20 + 100 * j, 20 + 100 * (j + cs)
            if not (lo - 0.02 <= x and x + t.size * 0.2 <= hi and ytop - h - 0.02 <= y <= ytop - 6):
                r.fail('cell-band', 'page %d: %r at (%.2f, %.2f), band %.2f..%.2f, %.2f..%.2f' % (pi, c, x, y, lo, hi, ytop - h, ytop))
                return
            spans.setdefault(k, []).append((pi, -y - t.size * 0.75, -y + 0.25 * t.size))
        for x, y, w, hh, ref, seq in p.images:
            images.append((pi, x, y, w, hh))
            own = [k for k, kd in enumerate(kinds) if kd in 'iI' and near(x, 20 + 100 * tiling[k][1] + (5.25 if kd == 'i' else 2.25))
                   and near(w, 100 * tiling[k][3] - (10.5 if kd == 'i' else 4.5))]
            if not own:
                r.fail('image-band', 'image at %s' % ((x, y, w, hh),))
                return
            if not (ytop - h - 0.02 <= y and y + hh <= ytop - 2):
                r.fail('image-outside', 'page %d image %s, rectangle %.2f..%.2f' % (pi, (x, y, w, hh), ytop - h, ytop))
            # images of a column of equal kinds: in order
            k = own[0] if len(own) == 1 else own[sum(1 for q in images if q[1] == x) - 1]
            spans.setdefault(k, []).append((pi, -y - hh, -y))
    r.expect(got == count, 'cell-text', lambda: 'shown %s, expected %s' % (got, count))
    r.expect(len(images) == nimg, 'cell-images', lambda: '%d images, expected %d' % (len(images), nimg))
    for a in range(len(tiling)):
        for b in range(len(tiling)):
            if tiling[a][0] + tiling[a][2] <= tiling[b][0] and a in spans and b in spans:
                la = max((pi, bot) for pi, top, bot in spans[a])
                fb = min((pi, top) for pi, top, bot in spans[b])
                r.expect(la[0] < fb[0] or (la[0] == fb[0] and fb[1] >= la[1] - 0.3), 'row-order',
                         lambda: 'cell %s ends at %s but cell %s starts at %s' % (tiling[a], la, tiling[b], fb))
    r.compared += 1
    r.state(doc_digest(d))


# -- spans that go beyond the table ----------------------------------------------------

BEYOND = ((1, 0), (0, 1), (1, 1), (2, 3), (98, 97))


def gen_beyond(tier):
    grids = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)] + ([] if tier == 'quick' else [(3, 3), (1, 4), (4, 1)])
    for rows, cols in grids:
        for ti, tl in enumerate(tilings(rows, cols)):
            edge = [k for k, (i, j, rs, cs) in enumerate(tl) if i + rs == rows or j + cs == cols]
            for b in BEYOND:
                for who in [None] + (edge if tier != 'quick' or rows * cols < 6 else []):
                    for h in (200, 62, 45):
                        for shape in range(3):
                            yield (rows, cols, ti, b, who, h, shape)


def run_beyond(case, r):
    rows, cols, ti, (dr, dc), who, h, shape = case
    tl = tilings(rows, cols)[ti]
    out = []
    for more in (True, False):
        els = []
        for k in range(len(tl)):
            t = text(LETTERS[k], (1, 9, 22)[(k + shape) % 3])
            els.append([{'.': t}, {'content': [t]}, {'.': t, 'style': {'cell_fill': 'yellow'}}][(k * 2 + shape) % 3])
        content = content_of(tl, rows, cols, els)
        if more:
            for k, (i, j, rs, cs) in enumerate(tl):
                if who not in (None, k):
                    continue
                if dr and i + rs == rows:
                    content[i][j]['rowspan'] = rs + dr
                if dc and j + cs == cols:
                    content[i][j]['colspan'] = cs + dc
        doc = {'style': {'page_size': (160, h + 20), 'margin': 10, 's': 8}, 'sections': [{'content': [
            {'table': content, 'borders': [{'pos': 'h0,-1;', 'width': 2}, {'pos': 'v;-1', 'width': 3, 'color': 'red'}], 'fills': [{'pos': '-1;:', 'color': 0.9}]}, 'zz zz']}]}
        d = view(doc)
        out.append([(p.width, p.height, sorted(map(repr, p.lines)), sorted(map(repr, p.rects)), [(t.text, t.x, t.y, t.size) for t in p.texts]) for p in d.pages])
        r.trans += 1
    r.state((ti, len(out[0])))
    r.expect(out[0] == out[1], 'span-beyond', lambda: '%s: spans that go %d rows and %d columns beyond the table\n%s\nexpected as without\n%s' % (case, dr, dc, out[0], out[1]))
    r.compared += 1


FAMILIES = [
    Family('geometry', gen_single, run_single, 'every arrangement of spans of grids up to 3x3 x text lengths x column widths, exact positions'),
    Family('margins', gen_margins, run_margins, 'pairs of 7 margin settings (table, cell) x border widths x 4 grids x text lengths, exact positions'),
    Family('wide', gen_wide, run_wide, 'cell margins of 0 to 140 (210) on every side x borders up to 90 x 3 grids, exact positions'),
    Family('unequal-borders', gen_unequal, run_unequal, 'every arrangement of spans of grids up to 2x3 (3x3), every line of another width, one cell with 1..27 words, exact positions'),
    Family('pages', gen_pages, run_pages, lambda t: 'every arrangement of spans of grids up to 3x3 x text lengths x %s' % ('6 rectangle sequences' if t == 'quick' else '6 sequences and 15 heights')),
    Family('large', gen_large, run_large, 'every spanned cell of a 6x7 grid; tables of up to 20 columns and up to 52 rows, one rectangle (exact positions) or several'),
    Family('beyond', gen_beyond, run_beyond, 'every arrangement of spans of grids up to 3x2 (3x3, 1x4, 4x1), spans of each or all of the cells at the right and the bottom made longer than the table, 3 page heights'),
    Family('kinds', gen_kinds, run_kinds, 'all pairs and triples of 13 cell kinds in 5 shapes x rectangle heights'),
]
