"""C11: groups are never split and shrinkable images shrink only as needed."""
import itertools

from mc.engine import Family
from mc.box import *

PROPERTY = 'C11'
EXPLANATION = (
    'Bounded exhaustive enumeration of groups (texts, tables, images with and without a minimum height) after and before '
    'other elements, over page heights around every height where some part of the group stops fitting.  The painted page must '
    'show the group whole, in one column, with the exact distances of its margins; images have their full size when the group fits '
    'with it, else they are reduced together and fill the column; a group only moves on when it does not fit with the minimum heights.')
ASSUMPTIONS = ['groups that do not fit an empty page are only required to raise an error']
LH = 1.1
EPS = 0.05


class El:
    """kinds p, s (1 line), m (3 lines), t (one row), images (ratio, min, shrink)"""

    def __init__(self, spec, gstyle):
        self.spec = spec
        self.style = {}
        k = spec
        if isinstance(spec, tuple) and isinstance(spec[0], tuple):
            k, self.style = spec
        elif isinstance(spec, tuple) and len(spec) == 2 and isinstance(spec[1], dict):
            k, self.style = spec
        self.kind = k if isinstance(k, str) else 'img'
        self.img = None if isinstance(k, str) else k
        self.eff = dict(gstyle, **self.style)

    def m(self, side):
        return self.eff.get('margin_' + side, 5 if side == 'bottom' else 0)

    def build(self, mk):
        n0 = len(mk.order)
        st = dict(self.style)
        if self.kind == 'img':
            ratio, mn, shrink = self.img
            if mn is not None:
                st['min_height'] = mn
            if shrink:
                st['shrink'] = 1
            el = mk.image(ratio, style=st)
        elif self.kind == 'p':
            el = {'.': mk.letter(2)}
        elif self.kind == 's':
            el = mk.letter(1)
        elif self.kind == 'm':
            l = mk.letter(5)
            el = {'.': l[:5] + '\n' + l[6:11] + '\n' + l[12:]}
        elif self.kind == 't':
            el = {'table': [[mk.letter(1), mk.letter(1)]]}
        else:
            raise ValueError(self.kind)
        if self.kind != 'img' and st:
            if not isinstance(el, dict):
                el = {'.': el}
            el['style'] = st
        self.ids = mk.order[n0:]
        return el

    def width(self, w):
        return w - self.m('left') - self.m('right')

    def heights(self, w, mk=None):
        """(minimum, full)"""
        if self.kind in 'ps':
            h = S + LH
        elif self.kind == 'm':
            h = S + LH + 2 * LH * (S + LH)      # lines after line breaks
        elif self.kind == 't':
            h = S + LH + 10.5
        else:
            h = self.width(w) * self.img[0]
            if mk is not None:
                a, b = mk.img[self.ids[0]]
                h = self.width(w) * b / a
            mn = h if self.img[1] is None else min(h, self.img[1])
            return mn, h
        return h, h


def total(els, w, i, mk=None):
    t = 0
    for n, e in enumerate(els):
        if n:
            t += els[n - 1].m('bottom') + e.m('top')
        t += e.heights(w, mk)[i]
    return t


def extent(ats, el):
    """(page, top, bottom, x0, x1) of an element, None when split"""
    mine = [a for a in ats if a.id in el.ids]
    if len({a.page for a in mine}) != 1:
        return None
    top = max(a.top for a in mine)
    bottom = min(a.bottom for a in mine)
    if el.kind == 't':
        top += LH + 5.25
        bottom -= 5.25
    elif el.kind != 'img':
        top += LH
    return mine[0].page, top, bottom, min(a.x0 for a in mine), max(a.x1 for a in mine)


def check_group(els, gstyle, ats, mk, r, w, col_bottom, before, balanced=False, colx=None):
    """before: None or (bottom, margin) of what precedes in the column.
    -> (page, top) of the group or None"""
    ex = []
    for e in els:
        x = extent(ats, e)
        if x is None or x[0] != (ex[0][0] if ex else x[0]):
            r.fail('group-split', 'elements of the group on several pages: %s' % [a for a in ats])
            return None
        ex.append(x)
    for n in range(1, len(els)):
        gap = ex[n - 1][2] - ex[n][1]
        want = els[n - 1].m('bottom') + els[n].m('top')
        if not near(gap, want, 0.04):
            r.fail('group-distance', 'elements %d and %d of the group are %.3f apart, expected %.3f' % (n - 1, n, gap, want))
            return None
    page, top = ex[0][0], ex[0][1]
    x0 = colx[0] if colx else 30
    if colx:
        for q in colx:
            if q - 0.1 <= ex[0][3] <= q + w:
                x0 = q
                break
    hs = []
    for e, x in zip(els, ex):
        left = x0 + e.m('left')
        if e.kind == 'img':
            a, b = mk.img[e.ids[0]]
            h = x[1] - x[2]
            wd = x[4] - x[3]
            mn, full = e.heights(w, mk)
            if not (mn - EPS <= h <= full + EPS):
                r.fail('image-limits', 'image %s is %.3f high, expected %.3f..%.3f' % (e.spec, h, mn, full))
                return None
            r.expect(near(wd * b, h * a, 0.02 * max(a, b)), 'image-shape', lambda: 'image %s drawn %.3f x %.3f, pixels %d x %d' % (e.spec, wd, h, a, b))
            r.expect(near((x[3] + x[4]) / 2, left + e.width(w) / 2, 0.04), 'image-center',
                     lambda: 'image %s spans %.2f..%.2f, its column %.2f..%.2f' % (e.spec, x[3], x[4], left, left + e.width(w)))
            hs.append((h, mn, full, e))
        else:
            cell = 5.25 if e.kind == 't' else 0
            if not near(x[3], left + cell, 0.04):
                r.fail('group-column', 'element %s starts at %.2f, expected %.2f' % (e.spec, x[3], left + cell))
                return None
    if balanced:
        return page, top
    avail = top - col_bottom(page)
    r.expect(ex[-1][2] >= col_bottom(page) - 0.03, 'below-column', lambda: 'group ends at %.3f, column at %.3f' % (ex[-1][2], col_bottom(page)))
    tmin, tfull = total(els, w, 0, mk), total(els, w, 1, mk)
    if tfull < avail - EPS:
        for h, mn, full, e in hs:
            r.expect(near(h, full, 0.04), 'shrunk-in-vain', lambda: 'image %s is %.3f high, %.3f fits (space %.3f, group %.3f)' % (e.spec, h, full, avail, tfull))
    elif tmin < avail - EPS and tfull > avail + EPS:
        used = top - ex[-1][2]
        shr = [q for q in hs if q[3].eff.get('shrink') or q[3].img[2]]
        oth = [q for q in hs if q not in shr and q[3].img[1] is not None]
        for h, mn, full, e in shr:
            r.expect(near(h, mn, 0.04), 'not-shrunk-to-minimum', lambda: 'image %s is %.3f high, minimum %.3f' % (e.spec, h, mn))
        grow = [q for q in oth if q[0] < q[2] - 0.04]
        if len({round(h / mn, 2) for h, mn, full, e in grow if mn}) > 1:
            k = [h / mn for h, mn, full, e in grow]
            if max(k) - min(k) > 0.02:
                r.fail('not-proportional', 'images %s' % [(round(h, 3), mn, round(full, 3)) for h, mn, full, e in grow])
        if grow:
            k = max(h / mn for h, mn, full, e in grow)
            for h, mn, full, e in oth:
                r.expect(h / mn <= k + 0.02, 'not-proportional', lambda: 'images %s' % [(round(h, 3), mn, round(full, 3)) for h, mn, full, e in oth])
            r.expect(near(used, avail, 0.06), 'shrunk-too-much', lambda: 'group takes %.3f of %.3f, images %s' % (
                used, avail, [(round(h, 3), mn, round(full, 3)) for h, mn, full, e in hs]))
    if before is not None:
        b = before(page)
        if b is None:
            r.expect(near(top, before.top(page), 0.04), 'group-not-at-top', lambda: 'group starts at %.3f, column at %.3f' % (top, before.top(page)))
    return page, top


def page_tops(d, rects):
    def f(p):
        return d.pages[p].height - rects[min(p, len(rects) - 1)][1]
    return f


def verify(pre, group, gstyle, post, h, r):
    mk = Maker()
    root = {}
    epre = [El(k, {}) for k in pre]
    els = [El(k, gstyle) for k in group]
    epost = [El(k, {}) for k in post]
    content = [e.build(mk) for e in epre]
    g = {'group': [e.build(mk) for e in els]}
    if gstyle:
        g['style'] = dict(gstyle)
    content.append(g)
    content += [e.build(mk) for e in epost]
    rects = [(30, 1000, BW, h)]
    tmin = total(els, BW, 0, mk)
    try:
        pdf, heights, fin = run_box({'content': content}, rects, limit=80)
    except Exception as e:
        if type(e) is Exception and 'could not be fitted' in str(e) and tmin > h - EPS:
            r.compared += 1
            return
        raise
    r.trans += len(heights)
    if tmin > h + EPS:
        r.fail('too-large-accepted', 'group needs %.3f, page %.3f' % (tmin, h))
        return
    if not r.expect(fin, 'never-finished', lambda: '%d rectangles' % len(heights)):
        return
    d = Doc(output(pdf))
    ats = atoms(d)
    if not conserved(ats, mk, r):
        return
    tops = page_tops(d, rects)

    def bottom(p):
        return tops(p) - h
    got = check_group(els, gstyle, ats, mk, r, BW, bottom, None)
    if got is None:
        return
    page, top = got
    gm = gstyle.get('margin_top', 0)
    # what precedes the group, on its page and on the page before
    exs = [(e, extent(ats, e)) for e in epre + epost]
    if any(x is None and any(a.page == page and a.id in e.ids for a in ats) for e, x in exs):
        return      # part of a paragraph above it
    above = [(x[2], e) for e, x in exs if x and x[0] == page and x[1] > top]
    if above:
        b, e = min(above, key=lambda v: v[0])
        want = b - e.m('bottom') - gm
    else:
        want = tops(page)
    r.expect(near(top, want, 0.04), 'group-place', lambda: 'group starts at %.3f, expected %.3f' % (top, want))
    # next elements
    lows = [extent(ats, els[-1])[2]]
    below = [(x[1], e) for e, x in exs if x and x[0] == page and x[1] < top]
    if below:
        t, e = max(below, key=lambda v: v[0])
        want2 = lows[0] - els[-1].m('bottom') - e.m('top')
        # the group as a whole may use its own bottom margin
        alt = lows[0] - gstyle.get('margin_bottom', 5) - e.m('top')
        r.expect(near(t, want2, 0.04) or near(t, alt, 0.04), 'after-group', lambda: 'next element starts at %.3f, expected %.3f' % (t, want2))
    # pages with a part of an element that continues on the next page
    cut = set()
    for e, x in exs:
        if x is None:
            cut |= {a.page for a in ats if a.id in e.ids}
    # elements on the other pages, also the ones that went before a delayed group
    for p in range(len(d.pages)):
        if p == page or p in cut:
            continue
        seq = sorted(((x[1], x[2], e) for e, x in exs if x and x[0] == p), key=lambda v: -v[0])
        for n, (t, b, e) in enumerate(seq):
            want = seq[n - 1][1] - seq[n - 1][2].m('bottom') - e.m('top') if n else tops(p)
            r.expect(near(t, want, 0.04), 'other-page-place', lambda: 'element %s of page %d starts at %.3f, expected %.3f' % (e.spec, p, t, want))
    # moved on only when it did not fit
    for p in range(page):
        if p in cut:
            continue
        prev = [(x[2], e) for e, x in exs if x and x[0] == p and e in epre]
        if not prev:
            if p < page and not any(x and x[0] >= p and e in epre for e, x in exs):
                r.expect(h <= tmin + EPS, 'group-moved', lambda: 'page %d was free' % p)
            continue
        if any(x and x[0] > p for e, x in exs if e in epre):
            continue        # the elements before it did not end on that page
        b, e = min(prev, key=lambda v: v[0])
        space = b - e.m('bottom') - gm - bottom(p)
        r.expect(tmin >= space - EPS, 'group-moved', lambda: 'group needs %.3f, page %d had %.3f left' % (tmin, p, space))
    r.compared += 1
    r.state(doc_digest(d))


def crit(pre, group, gstyle, tier):
    """page heights around every fit limit"""
    els = [El(k, gstyle) for k in group]
    epre = [El(k, {}) for k in pre]
    used = 0
    for n, e in enumerate(epre):
        used += (epre[n - 1].m('bottom') if n else 0) + (e.m('top') if n else 0) + e.heights(BW)[1]
    gap = (epre[-1].m('bottom') if epre else 0) + (gstyle.get('margin_top', 0) if epre else 0)
    tmin, tfull = total(els, BW, 0), total(els, BW, 1)
    vals = set()
    mid = [tmin + (tfull - tmin) * q for q in ((0.5,) if tier == 'quick' else (0.1, 0.25, 0.5, 0.75, 0.9))]
    part = []
    for n in range(1, len(els)):
        part += [total(els[:n], BW, 0), total(els[:n], BW, 1)]
    for t in [tmin, tfull] + mid + part:
        for base in (0, used + gap):
            for dlt in ((-0.5, 0.5) if tier == 'quick' else (-3, -0.5, -0.11, 0.11, 0.5, 3, 9)):
                vals.add(round(base + t + dlt, 3))
    # exact fits
    vals |= {round(tfull, 3), round(used + gap + tfull, 3), round(used + gap + tmin, 3)}
    vals.add(round(max(used + gap + tfull, 100) + 40, 3))
    # room for what follows the group, but not for the group
    vals.add(round(used + gap + max(tmin - 1, 16), 3))
    low = max([e.heights(BW)[1] for e in epre] + [S + LH]) + 0.6
    return sorted(v for v in vals if v > low and v > tmin + 0.4)


IMGS = [(0.2, None, 0), (0.2, 10, 0), (0.3, 25, 0), (0.3, 25, 1)]
ELS = ['p', 'm', 't'] + IMGS


def gen_single(tier):
    els = ELS if tier == 'full' else ELS
    n = 3
    pres = [(), ('p',), ((0.1, None, 0),)] if tier == 'quick' else [(), ('p',), ('p', 'm'), ((0.1, None, 0),), ('t',)]
    posts = [(), ('s',)] if tier == 'quick' else [(), ('s',), ('s', 's'), ('s', (0.05, None, 0))]
    for grp in seqs(els, n, 1):
        for pre in pres:
            if tier == 'quick' and len(grp) == 3 and (pre == () or grp[0] == 't' or grp[2] == 't'):
                continue
            for post in posts[1:] if tier == 'quick' and len(grp) == 3 else posts:
                yield (pre, grp, (), post)


BIG = (0.1, 30, 0)      # the minimum height is more than the full height


def gen_minimum(tier):
    for grp in [(BIG,), ('p', BIG), (BIG, 'm'), (BIG, BIG), (BIG, (0.3, 25, 0)), ((0.2, 10, 0), BIG, 't'), ((0.1, 30, 1),), ((0.1, 30, 1), (0.3, 25, 1)), ((0.1, 20, 0), 'p')]:
        for gst in ((), (('min_height', 31),), (('shrink', 1),)):
            for pre in ((), ('p',), ('m', 'p')):
                for post in ((), ('s',)):
                    yield (pre, fix_el(grp, gst), gst, post)


def expand(gen):
    def g(tier):
        for pre, grp, gst, post in gen(tier):
            for h in crit(pre, grp, dict(gst), tier):
                yield (pre, grp, gst, post, h)
    return g


def run_single(case, r):
    pre, grp, gst, post, h = case
    verify(pre, grp, dict(gst), post, h, r)


def T(**k):
    return tuple(sorted(k.items()))


GST = [T(margin_left=20, margin_right=30), T(margin_top=4), T(margin_bottom=11), T(margin_bottom=0, margin_top=9), T(shrink=1), T(min_height=12)]
EST = [{}, dict(margin_top=6), dict(margin_bottom=13), dict(margin_left=15, margin_bottom=1)]


def gen_styles(tier):
    kinds = ['p', (0.2, None, 0), (0.25, 15, 0)] if tier == 'quick' else ELS
    for gst in GST:
        for a, b in itertools.product(kinds, repeat=2):
            for s1, s2 in itertools.product(EST, repeat=2):
                for pre in ((), ('p',), (('p', {'margin_bottom': 8}),)):
                    yield (pre, ((a, s1), (b, s2)), gst, ('s',))
    for gst in ((),) + tuple(GST[:4]):
        for s1, s2 in itertools.product(EST, repeat=2):
            for pre in ((), ('p',), (('p', {'margin_bottom': 0}),)):
                yield (pre, (('p', s1), 'p', ('p', s2)), gst, ('s',))


def fix_el(grp, gst):
    # a min_height in the style of the group is inherited by its images
    g = dict(gst)
    if 'min_height' not in g:
        return grp
    out = []
    for e in grp:
        k, s = e if isinstance(e, tuple) and len(e) == 2 and isinstance(e[1], dict) else (e, {})
        if not isinstance(k, str) and k[1] is None:
            k = (k[0], g['min_height'], k[2])
        out.append((k, s))
    return tuple(out)


def gen_styles2(tier):
    for pre, grp, gst, post in gen_styles(tier):
        yield pre, fix_el(grp, gst), gst, post


# -- columns -------------------------------------------------------------------

def gen_cols(tier):
    els = ['p', 'm', 't', (0.3, None, 0), (0.5, 20, 0)]
    for cols in (2, 3):
        for grp in seqs(els, 2 if tier == 'quick' else 3, 1):
            for pre in ((), ('p',), ('m', 'p'), ('m', 'm', 'm')):
                for post in ((), ('p',), ('m', 'm')):
                    for h in ((60, 90, 300) if tier == 'quick' else (50, 60, 75, 90, 120, 300)):
                        for nest in (0, 1) if tier != 'quick' else (0,):
                            yield (cols, pre, grp, post, h, nest)
    for grp in seqs(['p', 'm', (0.3, None, 0)], 2, 1):
        for grp2 in seqs(['p', 'm', (0.3, None, 0)], 2, 1):
            for h in (60, 90, 300):
                yield (2, (), grp, (grp2,), h, 0)
                yield (1, ('p',), grp, (grp2,), h, 0)


def run_cols(case, r):
    cols, pre, grp, post, h, nest = case
    mk = Maker()
    gap = max(BW / 25, 7)
    cw = (BW - gap * (cols - 1)) / cols
    groups = []
    content = []
    for k in pre:
        content.append(El(k, {}).build(mk))
    for k in (grp,) + post:
        if isinstance(k, tuple) and k and not isinstance(k[0], float):
            els = [El(q, {}) for q in k]
            content.append({'group': [e.build(mk) for e in els]})
            groups.append(els)
        else:
            content.append(El(k, {}).build(mk))
    if any(total(els, cw, 0, mk) > h - EPS for els in groups):
        return
    box = {'content': content, 'cols': {'count': cols}}
    if nest:
        box = {'content': [box]}
    rects = [(30, 1000, BW, h)]
    pdf, heights, fin = run_box(box, rects)
    r.trans += len(heights)
    if not r.expect(fin, 'never-finished', lambda: '%d rectangles' % len(heights)):
        return
    d = Doc(output(pdf))
    ats = atoms(d)
    if not conserved(ats, mk, r):
        return
    tops = page_tops(d, rects)
    xs = [30 + i * (cw + gap) for i in range(cols)]
    for els in groups:
        if check_group(els, {}, ats, mk, r, cw, lambda p: tops(p) - h, None, balanced=True, colx=xs) is None:
            return
        for e in els:
            x = extent(ats, e)
            r.expect(x[2] >= tops(x[0]) - h - 0.03, 'below-column', lambda: '%s at %.2f, column ends at %.2f' % (e.spec, x[2], tops(x[0]) - h))
    r.compared += 1
    r.state(doc_digest(d))


# -- many groups ---------------------------------------------------------------

def gen_album(tier):
    """more groups that wait for their place than are tried"""
    for n in (49, 50, 51, 52, 53, 75, 110) if tier == 'quick' else tuple(range(45, 60)) + (75, 99, 100, 101, 102, 110, 150, 210):
        for ratios in ((0.3,), (0.3, 0.15), (0.15, 0.15, 0.3)):
            for caption in (0, 1):
                if caption and n > 75:
                    continue
                for cols in (1, 2, 3):
                    for h in (75, 95, 150) if tier == 'quick' else (75, 85, 95, 120, 150):
                        yield (n, ratios, caption, cols, h)


def run_album(case, r):
    n, ratios, caption, cols, h = case
    mk = Maker()
    content, pairs = [], []
    for k in range(n):
        q = ratios[k % len(ratios)]
        if not caption:
            content.append({'group': [mk.image(q)]})
        elif mk.n < 50:
            content.append({'group': [mk.image(q), {'.': mk.letter(1)}]})
            pairs.append(tuple(mk.order[-2:]))
        else:
            content.append(mk.image(q))
    pdf, heights, fin = run_box({'content': content, 'cols': {'count': cols}}, [(30, 1000, BW, h)], limit=400)
    r.trans += len(heights)
    if not r.expect(fin, 'never-finished', lambda: '%d rectangles' % len(heights)):
        return
    d = Doc(output(pdf))
    ats = atoms(d)
    if not conserved(ats, mk, r):
        return
    at = {a.id: a for a in ats}
    for i, l in pairs:
        a, b = at[i], at[l]
        r.expect(a.page == b.page and abs(a.x0 - b.x0) < BW / cols / 2 and 0 <= a.bottom - b.top < 12, 'apart', lambda: '%r and %r' % (a, b))
    r.compared += 1
    r.state(doc_digest(d))


# -- single images -------------------------------------------------------------

def gen_image(tier):
    for img in ((0.3, None, 0), (0.3, 20, 0), (0.3, 20, 1), (0.3, 59, 0), (0.3, 80, 0), (1.5, 30, 0)):
        for st in ({}, {'margin_left': 20, 'margin_top': 3}):
            for npre in (0, 1, 2, 3):
                for h in ([30, 31, 40, 50, 61, 62, 75, 90, 100, 115, 200, 400] if tier == 'quick' else range(22, 120, 2)):
                    yield (img, st, npre, h)


def run_image(case, r):
    img, st, npre, h = case
    mk = Maker()
    e = El((img, st), {})
    pre = [El('p', {}) for _ in range(npre)]
    content = [q.build(mk) for q in pre] + [e.build(mk)]
    mn, full = e.heights(BW, mk)
    if img[1] is not None:
        mn = img[1]
    if min(mn, full) > h - EPS:
        return
    rects = [(30, 1000, BW, h)]
    pdf, heights, fin = run_box({'content': content}, rects)
    r.trans += len(heights)
    d = Doc(output(pdf))
    ats = atoms(d)
    if not r.expect(fin, 'never-finished', lambda: '') or not conserved(ats, mk, r):
        return
    tops = page_tops(d, rects)
    page, top, bottom, x0, x1 = extent(ats, e)
    hh = top - bottom
    a, b = mk.img[e.ids[0]]
    r.expect(near((x1 - x0) * b, hh * a, 0.02 * max(a, b)), 'image-shape', lambda: '%.2f x %.2f' % (x1 - x0, hh))
    left = 30 + e.m('left')
    r.expect(near((x0 + x1) / 2, left + e.width(BW) / 2, 0.04), 'image-center', lambda: '%.2f..%.2f' % (x0, x1))
    avail = top - tops(page) + h
    if full < avail - EPS:
        want = full
    elif img[2]:
        want = mn
    else:
        want = avail
    if abs(full - avail) > EPS:
        r.expect(near(hh, want, 0.04), 'image-height', lambda: 'height %.3f, expected %.3f (full %.3f, space %.3f)' % (hh, want, full, avail))
    if page > 0:
        prev = [extent(ats, q) for q in pre]
        prev = [x for x in prev if x[0] == page - 1]
        if prev and max(extent(ats, q)[0] for q in pre) == page - 1:
            space = min(x[2] for x in prev) - 5 - e.m('top') - (tops(page - 1) - h)
            r.expect(min(mn, full) >= space - EPS, 'image-moved', lambda: 'needs %.3f, %.3f left' % (min(mn, full), space))
    r.compared += 1
    r.state(doc_digest(d))


def gen_large(tier):
    for grp in seqs(['p', 'm', 't', (0.3, None, 0), (0.3, 40, 0)], 2, 1):
        els = [El(k, {}) for k in grp]
        t = total(els, BW, 0)
        for pre in ((), ('p',)):
            for dlt in (-0.3, -5, -25):
                if t + dlt > 12:
                    yield (pre, grp, (), (), round(t + dlt, 3))


def gen_many(tier):
    pats = [('p',), ('p', 'm'), ((0.3, 25, 0),), ('p', (0.2, 10, 0)), ((0.2, None, 0), (0.3, 25, 1), 't'), ((0.3, 25, 0), (0.2, 10, 0), 'm', (0.4, 33, 1)),
            ('t', (0.3, 25, 1), (0.25, 40, 0), 's', (0.2, None, 0))]
    for n in (4, 5, 6, 8, 11, 14) if tier == 'quick' else range(4, 19):
        for pat in pats:
            for off in range(len(pat)):
                grp = tuple(pat[(i + off) % len(pat)] for i in range(n))
                for pre in ((), ('p',), ('p', (0.1, None, 0), 'm')):
                    for gst in ((), GST[0], GST[1]) if tier != 'quick' else ((), GST[off % 2]):
                        yield (pre, grp, gst, ('s', 'p'))


def expand_many(tier):
    # for every fit limit of the whole group, and of some of its first elements
    for pre, grp, gst, post in gen_many(tier):
        hs = crit(pre, grp, dict(gst), 'quick')
        if tier == 'quick' and len(hs) > 8:
            hs = hs[:2] + hs[2:-3:3] + hs[-3:]
        for h in hs:
            yield (pre, grp, gst, post, h)


FAMILIES = [
    Family('many', expand_many, run_single, 'groups of 4 to 14 (18) elements, all of one kind or mixed, at page heights around every fit limit'),
    Family('single', expand(gen_single), run_single, 'groups of 1-3 elements of 7 kinds, after and before other elements, at page heights around every fit limit'),
    Family('minimum', expand(gen_minimum), run_single, 'images whose minimum height is more than their full height'),
    Family('styles', expand(gen_styles2), run_single, 'groups with margins, shrink and min_height in the style of the group and of its elements'),
    Family('columns', gen_cols, run_cols, 'groups in boxes of 2 and 3 columns, also two groups, over page heights'),
    Family('album', gen_album, run_album, '49 to 110 (210) groups of an image and a caption, or of one image, most of them waiting for their place, in 1 to 3 columns, 3 (5) heights'),
    Family('image', gen_image, run_image, 'images outside of groups with min_height and shrink over space left'),
    Family('large', gen_large, run_single, 'groups that do not fit an empty page raise the documented error'),
]
