"""Reference for the borders and fills of a table, and the comparison with the
painted ones."""
from .util import near


def positions(text, count):
    """Indices selected by one part of a position string, as documented: an
    integer, a comma-separated list of integers, or a Python slice."""
    text = text.strip()
    if text == '':
        return list(range(count))
    if ':' in text:
        p = [int(v) if v.strip() else None for v in text.split(':')]
        return list(range(count))[slice(*p)]
    out = []
    for v in text.split(','):
        v = int(v)
        out.append(v + count if v < 0 else v)
    return [v for v in out if 0 <= v < count]


class Lines:
    """Border of every segment: default, then the rules in order."""

    def __init__(self, rows, cols, default, rules):
        self.rows, self.cols = rows, cols
        self.d = {}
        for i in range(rows + 1):
            for j in range(cols):
                self.d['h', i, j] = default
        for i in range(rows):
            for j in range(cols + 1):
                self.d['v', i, j] = default
        for rule in rules or ():
            pos = rule.get('pos')
            if pos is None:
                continue
            kind = pos[0].lower()
            parts = (pos[1:].split(';') + [':'])[:2]
            ni, nj = (rows, cols + 1) if kind == 'v' else (rows + 1, cols)
            b = (rule.get('width', default[0]), rule.get('rgb', default[1]), rule.get('style', default[2]))
            for i in positions(parts[0], ni):
                for j in positions(parts[1], nj):
                    self.d[kind, i, j] = b

    def width(self, kind, i, j):
        return self.d[kind, i, j][0]

    def drop_spans(self, tiling):
        """the segments that are drawn"""
        out = dict(self.d)
        for i, j, rs, cs in tiling:
            for a in range(i + 1, i + rs):
                for b in range(j, j + cs):
                    out.pop(('h', a, b), None)
            for a in range(i, i + rs):
                for b in range(j + 1, j + cs):
                    out.pop(('v', a, b), None)
        return {k: v for k, v in out.items() if v[0] > 0}


def fills_of(rows, cols, rules):
    out = {}
    for rule in rules or ():
        if rule.get('pos') is None:
            continue
        parts = (rule['pos'].split(';') + [':'])[:2]
        for i in positions(parts[0], rows):
            for j in positions(parts[1], cols):
                out[i, j] = rule['rgb']
    return out


def line_style(dash, cap):
    if not dash[0]:
        return 'solid'
    if cap == 1 and dash[0][0] == 0:
        return 'dotted'
    if cap == 0 and dash[0][0] > 0:
        return 'dashed'
    return 'unknown %r cap %s' % (dash, cap)


def same(want, got):
    return near(want[0], got[0], 0.0011) and want[2] == got[2] and len(want[1]) == len(got[1]) and \
        all(near(a, b, 0.0011) for a, b in zip(want[1], got[1]))


def crossing(want, kind, at):
    """half the width of the widest line of a kind at a grid point"""
    i, j = at
    segs = ((kind, i - 1, j), (kind, i, j)) if kind == 'v' else ((kind, i, j - 1), (kind, i, j))
    return max([want[s][0] / 2 for s in segs if s in want] or [0])


def check_lines(page, xs, ys, want, r, corner, either=None, lines=None):
    """xs: column limits (page coordinates), ys: row limits downwards (page
    coordinates, decreasing); want: {('h', i, j) or ('v', i, j): border} with i
    indexing ys; either: {(kind, i, j): [borders or None]} segments with several
    acceptable values."""
    cover = {}
    thin = 2 * corner + 0.1     # rows where the line ends meet
    either = either or {}
    exact = not either and all(a - b > thin for a, b in zip(ys, ys[1:]))
    for x1, y1, x2, y2, w, color, dash, cap, seq in (page.lines if lines is None else lines):
        got = (w, color, line_style(dash, cap))
        if near(x1, x2, 0.0015) and near(y1, y2, 0.0015) and cap == 0:
            continue        # paints nothing
        if near(y1, y2, 0.0015):
            i = [k for k, y in enumerate(ys) if near(y, y1, 0.012)]
            a, b = min(x1, x2), max(x1, x2)
            cells = [j for j in range(len(xs) - 1) if a <= (xs[j] + xs[j + 1]) / 2 <= b]
            if not i or not cells:
                r.fail('stray-line', 'page %d: horizontal line %.2f..%.2f at y=%.2f; row limits %s, columns %s' % (page.num, a, b, y1, rnd(ys), rnd(xs)))
                return
            # several limits at the same place (empty rows): any of them
            for j in cells:
                cover.setdefault(('h', tuple(i), j), []).append(got)
            lo, hi = xs[cells[0]], xs[cells[-1] + 1]
        elif near(x1, x2, 0.0015):
            j = [k for k, x in enumerate(xs) if near(x, x1, 0.012)]
            a, b = min(y1, y2), max(y1, y2)
            cells = [i for i in range(len(ys) - 1) if a <= (ys[i] + ys[i + 1]) / 2 <= b and ys[i] - ys[i + 1] > thin]
            if j and not cells and any(a <= ys[i] + corner and b >= ys[i + 1] - corner and ys[i] - ys[i + 1] <= thin for i in range(len(ys) - 1)) \
                    and b - a <= thin + 2 * corner:
                continue    # in a row thinner than the corners
            if not j or not cells:
                r.fail('stray-line', 'page %d: vertical line %.2f..%.2f at x=%.2f; row limits %s, columns %s' % (page.num, a, b, x1, rnd(ys), rnd(xs)))
                return
            for i in cells:
                cover.setdefault(('v', i, j[0]), []).append(got)
            lo, hi = ys[cells[-1] + 1], ys[cells[0]]
            q = cells[-1] + 1
            while a < lo - corner - 0.02 and q + 1 < len(ys) and ys[q] - ys[q + 1] <= thin:
                q += 1
                lo = ys[q]
            q = cells[0]
            while b > hi + corner + 0.02 and q > 0 and ys[q - 1] - ys[q] <= thin:
                q -= 1
                hi = ys[q]
        else:
            r.fail('slanted-line', (x1, y1, x2, y2))
            return
        if exact:
            # a line ends at the far side of the widest line it meets there
            if near(y1, y2, 0.0015):
                e1, e2 = crossing(want, 'v', (i[0], cells[0])), crossing(want, 'v', (i[0], cells[-1] + 1))
            else:
                e1, e2 = crossing(want, 'h', (cells[-1] + 1, j[0])), crossing(want, 'h', (cells[0], j[0]))
            if not (near(a, lo - e1, 0.02) and near(b, hi + e2, 0.02)):
                r.fail('line-corners', 'page %d: line %.2f..%.2f should go from %.2f to %.2f, and be %.2f and %.2f longer at its ends' % (page.num, a, b, lo, hi, e1, e2))
                return
        if not (abs(a - lo) <= corner + 0.02 and abs(b - hi) <= corner + 0.02):
            r.fail('line-ends', 'page %d: line %.2f..%.2f should go from %.2f to %.2f' % (page.num, a, b, lo, hi))
            return
    keys = {}
    for i in range(len(ys)):
        same_y = tuple(k for k in range(len(ys)) if near(ys[k], ys[i], 0.012))
        for j in range(len(xs) - 1):
            keys.setdefault(('h', same_y, j), []).append(('h', i, j))
    for i in range(len(ys) - 1):
        if ys[i] - ys[i + 1] > thin:
            for j in range(len(xs)):
                keys[('v', i, j)] = [('v', i, j)]
    for k, segs in keys.items():
        got = list(cover.pop(k, []))
        exp = [want[s] for s in segs if s in want and s not in either]
        free = [either[s] for s in segs if s in either]
        for e in exp:
            m = [g for g in got if same(e, g)]
            if not m:
                r.fail('border', 'page %d: segment %s painted as %s, expected %s' % (page.num, k, got, exp))
                return
            got.remove(m[0])
        for opts in free:
            m = [g for g in got if any(o is not None and same(o, g) for o in opts)]
            if m:
                got.remove(m[0])
            elif None not in opts:
                r.fail('border-cut', 'page %d: segment %s painted as %s, expected one of %s' % (page.num, k, got, opts))
                return
        if got:
            r.fail('extra-border', 'page %d: segment %s painted as %s besides the expected %s' % (page.num, k, got, exp))
            return


def rnd(v):
    return [round(a, 2) for a in v]


def check_fills(page, want, r, rects=None):
    """want: [(x, ytop, w, h, color)]"""
    got = [list(q) for q in (page.rects if rects is None else rects)]
    for x, y, w, h, c in want:
        m = [g for g in got if near(g[0], x, 0.012) and near(g[1] + g[3], y, 0.012) and near(g[2], w, 0.012) and near(g[3], h, 0.015)
             and len(g[4]) == len(c) and all(near(a, b, 0.0011) for a, b in zip(g[4], c))]
        if not m:
            r.fail('fill', 'page %d: no fill at x=%.2f top=%.2f %.2fx%.2f color %s; painted: %s' % (
                page.num, x, y, w, h, c, [(rnd((g[0], g[1] + g[3], g[2], g[3])), g[4]) for g in got]))
            return
        got.remove(m[0])
        for t in page.texts:
            if t.text.strip() and x <= t.x < x + w and y - h <= t.y < y and t.seq < m[0][5]:
                r.fail('fill-over-text', '%r painted before the fill that covers it' % t)
    if got:
        r.fail('extra-fill', 'page %d: %s' % (page.num, [(rnd((g[0], g[1] + g[3], g[2], g[3])), g[4]) for g in got]))
