"""C09: content boxes show every element exactly once and in order."""
import itertools

from mc.engine import Family
from mc.box import *

PROPERTY = 'C09'
EXPLANATION = (
    'Bounded exhaustive enumeration of content boxes: sequences and nestings of paragraphs, images and '
    'tables, column counts, and rectangle or page heights.  Every element has its own letter or image; '
    'what the content streams paint must be every element once, in order (images that flow may come later).')
ASSUMPTIONS = ['every image, line and table row fits an empty column']


def check_order(ats, mk, r):
    """Painting order of text follows the elements; normal images too."""
    pos = {k: i for i, k in enumerate(mk.order)}
    prev = None
    for a in ats:
        if a.id in mk.flow:
            continue
        if a.id in mk.img:
            # images are painted apart from texts: order among images
            continue
        k = (a.page, pos[a.id])
        if prev is not None and k < prev[0]:
            r.fail('order', '%r is painted after %r' % (a, prev[1]))
            return
        prev = (k, a)


def reading(ats, mk, cols, x0, w, r, gap=None, tableids=()):
    """Flat box: the sequence (page, column, y) follows the elements."""
    gap = max(w / 25, 7) if gap is None else gap
    cw = (w - gap * (cols - 1)) / cols
    pos = {k: i for i, k in enumerate(mk.order)}
    rank = []
    for a in ats:
        c = int((a.x0 - x0 + 0.5) // (cw + gap))
        rank.append(((a.page, c, -a.top), a))
    seen = [(k, a) for k, a in rank if a.id not in mk.flow]
    group = {}
    for kind, ids in mk.leaves:
        for i in ids:
            group[i] = min(pos[q] for q in ids) if kind == 't' else pos[i]
    seen.sort(key=lambda v: (group[v[1].id],))
    # stable within an element: painting order
    last = None
    for k, a in seen:
        if last is not None and (k < last[0]) and not (group[a.id] == group[last[1].id] and a.id != last[1].id and a.page >= last[1].page):
            r.fail('reading-order', '%r comes before %r of a previous element' % (a, last[1]))
            return
        if last is None or k > last[0]:
            last = (k, a)
    # images come in their order, unless a later one is smaller
    flows = sorted((pos[a.id], k, a) for k, a in rank if a.id in mk.flow)
    for n, (p, k, a) in enumerate(flows):
        for p2, k2, a2 in flows[n + 1:n + 12]:
            if k2 > k or mk.img[a2.id][1] * mk.img[a.id][0] < mk.img[a.id][1] * mk.img[a2.id][0]:
                continue
            r.fail('image-order', '%r comes before %r' % (a2, a))
            return
    # a flow image never goes before the elements that precede it
    first = {}
    for k, a in rank:
        if a.id not in mk.flow:
            g = pos[a.id]
            first.setdefault(g, k)
            first[g] = min(first[g], k)
    for k, a in rank:
        if a.id in mk.flow:
            for g, fk in first.items():
                if g < pos[a.id] and fk > k and mk.order[g] not in mk.flow:
                    r.fail('image-too-early', '%r comes before the previous element %s at %s' % (a, mk.order[g], fk))
                    return


def verify(t, rects, r, pdf=None, flat=None, limit=60):
    mk = Maker()
    content = mk.tree(t)
    pdf, heights, fin = run_box(content, rects, pdf, limit)
    r.trans += len(heights)
    if not r.expect(fin, 'never-finished', lambda: '%d rectangles: %s' % (len(heights), t)):
        return
    d = Doc(output(pdf))
    ats = atoms(d)
    if conserved(ats, mk, r):
        check_order(ats, mk, r)
        if flat:
            reading(ats, mk, flat, rects[0][0], rects[0][2], r)
        for a in ats:
            q = rects[min(a.page, len(rects) - 1)]
            top = d.pages[a.page].height - q[1]
            if not (q[0] - 0.02 <= a.x0 and a.x1 <= q[0] + q[2] + 0.02 and a.top <= top + 0.02 and a.bottom >= top - q[3] - 0.02):
                r.fail('outside-rectangle', '%r, rectangle x %.2f..%.2f y %.2f..%.2f' % (a, q[0], q[0] + q[2], top - q[3], top))
                break
    r.compared += 1
    r.state(doc_digest(d))


LEAF = 'pPiIjt'
HS = (34, 52, 75, 130, 400)


def gen_flat(tier):
    alpha = LEAF if tier == 'quick' else 'pPQiIjJtT'
    n = 3 if tier == 'quick' else 4
    hs = HS if tier == 'quick' else HS + (42, 62, 90, 105)
    for seq in seqs(alpha, n, 1):
        for cols in (1, 2, 3):
            t = (cols, seq)
            for h in hs:
                if fits(t, BW, h):
                    yield (t, h)
    if tier == 'quick':
        for seq in itertools.product('pPit', repeat=4):
            for cols in (1, 2):
                for h in (52, 130):
                    t = (cols, seq)
                    if fits(t, BW, h):
                        yield (t, h)
    # elements that are no dicts, numbers, and tables without cells
    for seq in seqs('pnszu' if tier == 'quick' else 'pPinszu', 3 if tier == 'quick' else 4, 1):
        if 'n' in seq or 's' in seq or 'z' in seq or 'u' in seq:
            for cols in (1, 2):
                for h in (34, 52):
                    if fits((cols, seq), BW, h):
                        yield ((cols, seq), h)


def run_flat(case, r):
    t, h = case
    verify(t, [(30, 1000, BW, h)], r, flat=t[0])


def nested_trees(tier):
    leaf = 'pPit' if tier == 'quick' else 'pPiIjtT'
    inner = [(c, seq) for c in (1, 2, 3) for seq in seqs(leaf, 2, 1)]
    ext = ['', 'p', 'P', 'i'] if tier == 'quick' else ['', 'p', 'P', 'i', 'I', 't', 'pP', 'Pi', 'ip']
    for oc in (1, 2, 3):
        for n in inner:
            for a in ext:
                for b in ext:
                    yield (oc, tuple(a) + (n,) + tuple(b))


def gen_nested(tier):
    for k, t in enumerate(nested_trees(tier)):
        for h in ((60, 90, 200) if tier == 'quick' else (45, 60, 75, 90, 130, 200)):
            if fits(t, BW, h):
                yield (t, h)


def run_nested(case, r):
    t, h = case
    verify(t, [(30, 1000, BW, h)], r)


def gen_deep(tier):
    leaf = ['p', 'P', 'i']
    for c1, c2, c3 in itertools.product((1, 2), repeat=3):
        for a in leaf:
            for b in leaf:
                inn = (c3, (a, b))
                for pre, mid, post in itertools.product(('', 'P'), ('', 'p', 'i'), ('', 'P')):
                    t = (c1, tuple(pre) + ((c2, tuple(mid) + (inn,) + tuple(post)),) + tuple(post))
                    for h in ((60, 110, 300) if tier == 'quick' else (50, 60, 80, 110, 150, 300)):
                        if fits(t, BW, h):
                            yield (t, h)
    # an inner box that is continued in the section where the box around it ends
    for c1, c2, c3 in itertools.product((1, 2), (2, 3), (1, 2)):
        for a, b in itertools.product(('P', 'i', 'p'), repeat=2):
            for k in ('', 'p'):
                t = (c1, ((c2, ((c3, (a, b)),) + tuple(k)), 'p'))
                for h in (range(44, 150, 15) if tier == 'quick' else range(40, 200, 6)):
                    if fits(t, BW, h):
                        yield (t, h)
    # two boxes in one
    two = [(c, s) for c in (1, 2) for s in (('p',), ('P',), ('p', 'i'), ('P', 'p'), ('p', 'P'))]
    for oc in (1, 2):
        for a in two:
            for b in two:
                for mid in ('', 'p', 'i', 'P', 'PP') if tier == 'quick' else ('', 'p', 'i', 'P', 'PP', 'PI', 'Pt'):
                    t = (oc, (a,) + tuple(mid) + (b,))
                    for h in (44, 60, 110) if 'P' in mid and tier == 'quick' else ((60, 110, 300) if tier == 'quick' else (50, 60, 80, 110, 150, 300)):
                        if fits(t, BW, h):
                            yield (t, h)


def gen_starts(tier):
    """the first rectangle is partly used"""
    ts = [(c, seq) for c in (1, 2, 3) for seq in seqs('pPiIt', 2, 1)]
    ts += [(oc, ((c, seq),)) for oc in (1, 2) for c in (1, 2) for seq in seqs('pPi', 2, 1)]
    for t in ts:
        for h0 in ((5, 12, 20, 31, 47) if tier == 'quick' else range(3, 75, 4)):
            if fits(t, BW, 80):
                yield (t, h0)


def run_starts(case, r):
    t, h0 = case
    verify(t, [(30, 1000, BW, h0), (44, 1200, BW, 80), (30, 900, BW, 100)], r, flat=None)


def gen_large(tier):
    """more elements, columns and levels"""
    pats = ['p', 'P', 'i', 't', 'pP', 'pi', 'Pi', 'pt', 'iP', 'It', 'jp', 'pPi', 'Ptp', 'pjP', 'tiP', 'pppI', 'PPPi', 'pIjt']
    for pat in pats:
        for n in (5, 8, 13, 21) if tier == 'quick' else (5, 6, 8, 10, 13, 17, 21, 30):
            for cols in (1, 2, 4, 5, 7) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7):
                t = (cols, tuple((pat * n)[:n]))
                for h in (40, 75, 210) if tier == 'quick' else (34, 40, 52, 75, 110, 140, 210, 400):
                    if fits(t, 330, h):
                        yield (t, h)
    # chains of boxes
    for depth in range(4, 7):
        for cs in itertools.product((1, 2), repeat=depth):
            if cs.count(2) > 3 or tier == 'quick' and cs.count(2) > 2:
                continue
            for a, b, c in (('P', 'p', ''), ('p', 'P', 'p'), ('', 'P', 'i'), ('i', 'pPi', 'p'), ('', 'pP', '')):
                t = (cs[-1], tuple(b))
                for k in cs[-2::-1]:
                    t = (k, tuple(a) + (t,) + tuple(c))
                for h in (47, 75, 160) if tier == 'quick' else (40, 47, 60, 75, 110, 160, 300):
                    if fits(t, 330, h):
                        yield (t, h)
    # boxes one after another
    for n in (3, 5, 8):
        for c1, c2 in itertools.product((1, 2, 3), repeat=2):
            for a, b in (('p', 'P'), ('P', 'pi'), ('i', 'p'), ('Pp', 't')):
                t = (1 if c1 == c2 else 2, tuple((c1, tuple(a)) if k % 2 else (c2, tuple(b)) for k in range(n)))
                for h in (47, 75, 160) if tier == 'quick' else (40, 47, 60, 75, 110, 160, 300):
                    if fits(t, 330, h):
                        yield (t, h)


def run_large(case, r):
    t, h = case
    verify(t, [(30, 1000, 330, h)], r, flat=t[0] if all(isinstance(e, str) for e in t[1]) else None)


def gen_album(tier):
    """more elements that wait for their place than are tried"""
    for n in (49, 50, 51, 52, 53, 75, 110) if tier == 'quick' else tuple(range(45, 60)) + (75, 99, 100, 101, 102, 103, 110, 150, 210):
        for pat in ('i', 'ij', 'I', 'iI', 'pi', 'iPi'):
            if pat.count('p') + pat.count('P') and n > 75:
                continue
            for cols in (1, 2, 3):
                for h in (31, 47, 62, 95) if tier == 'quick' else (31, 40, 47, 62, 80, 95, 130):
                    t = (cols, tuple((pat * n)[:n]))
                    if fits(t, BW, h):
                        yield (t, h)


def run_album(case, r):
    t, h = case
    verify(t, [(30, 1000, BW, h)], r, flat=t[0], limit=400)


# kinds of elements that wait, and what is in them
WAIT = {'i': 'i', 'j': 'j', 'g': 'pi', 'k': 'ppp', 'G': 'jpi', 'h': 'pt'}
NEED = {'p': (0, 10.5), 'P': (0, 10.5), 'I': (0.15, 1), 'i': (0.15, 1), 'j': (0.3, 1), 't': (0, 21)}


def needs(seq, cw):
    return max(sum(NEED[q][0] * cw + NEED[q][1] + 5 for q in WAIT.get(k, k)) for k in seq)


def gen_waiting(tier):
    q = tier == 'quick'
    lists = [seqs('pPIijgkGh', 3 if q else 4, 2)]
    lists.append(itertools.product('pjgk', repeat=4 if q else 5))
    lists.append(itertools.product('gki', repeat=5 if q else 7))
    for seq in itertools.chain(*lists):
        if not set(seq) & set('gkGh'):
            continue
        for cols in (1, 2, 3) if len(seq) < 5 else (1, 2):
            cw = (BW - max(BW / 25, 7) * (cols - 1)) / cols
            n = needs(seq, cw)
            for dh in (0, 9, 30) if q else (0, 4, 9, 15, 30, 60, 90):
                yield (cols, tuple(seq), round(n + dh, 2))


def run_waiting(case, r):
    cols, seq, h = case
    mk = Maker()
    units = []
    els = []
    for k in seq:
        n0 = len(mk.order)
        if k in WAIT and len(WAIT[k]) > 1:
            els.append({'group': [mk.leaf(q) for q in WAIT[k]]})
        else:
            els.append(mk.leaf(k))
        units.append((k, mk.order[n0:]))
    pdf, heights, fin = run_box({'content': els, 'cols': {'count': cols}}, [(30, 1000, BW, h)])
    r.trans += len(heights)
    if not r.expect(fin, 'never-finished', lambda: '%d rectangles: %s' % (len(heights), seq)):
        return
    d = Doc(output(pdf))
    ats = atoms(d)
    r.compared += 1
    r.state(doc_digest(d))
    if not conserved(ats, mk, r):
        return
    gap = max(BW / 25, 7)
    cw = (BW - gap * (cols - 1)) / cols
    places = []
    for k, ids in units:
        mine = [a for a in ats if a.id in ids]
        rank = {(a.page, int((a.x0 - 30 + 0.5) // (cw + gap))) for a in mine}
        first = min((a.page, int((a.x0 - 30 + 0.5) // (cw + gap)), -a.top) for a in mine)
        places.append((k, first, max(a.top for a in mine) - min(a.bottom for a in mine), len(rank)))
        if k in WAIT:
            r.expect(len(rank) == 1, 'split', lambda: '%s %s is in %d columns' % (k, ids, len(rank)))
    for n, (k, at, height, _) in enumerate(places):
        for k2, at2, height2, _ in places[n + 1:]:
            if at2 > at:
                continue
            if k in WAIT and k2 in WAIT:
                # a later one is first only when it is smaller than one that waits
                ok = height2 < height + 3
            else:
                ok = k in WAIT
            if not ok:
                r.fail('waiting-order', '%s at %s comes before the previous %s at %s' % (k2, at2, k, at))
                return


def gen_public(tier):
    ts = [(c, seq) for c in (1, 2) for seq in seqs('pPit', 2, 1)]
    ts += [(oc, ('p', (c, seq), 'P')) for oc in (1, 2) for c in (1, 2) for seq in seqs('pPi', 2, 1)]
    ts += [(c, seq) for c in (1, 2) for seq in seqs('pnzu', 3, 1)]
    for t in ts:
        for h in (70, 120):
            for way in ('content', 'twice', 'document', 'sections'):
                if fits(t, BW, h - 20):
                    yield (t, h, way)


def run_public(case, r):
    t, h, way = case
    mk = Maker()
    size = (BW + 40, h)
    if way in ('content', 'twice'):
        pdf = PDF(page_size=size, margin=(10, 20), font_size=S)
        pdf.add_page()
        pdf.content(mk.tree(t))
        if way == 'twice':
            pdf.content(mk.tree(t))
        d = Doc(output(pdf))
    else:
        doc = {'style': {'s': S, 'page_size': size, 'margin': [10, 20]}, 'sections': [mk.tree(t)]}
        if way == 'sections':
            doc['sections'].append(mk.tree(t))
        d = view(doc)
    r.trans += len(d.pages)
    ats = atoms(d)
    if conserved(ats, mk, r):
        check_order(ats, mk, r)
        for a in ats:
            if not (19.98 <= a.x0 and a.x1 <= 20.02 + BW and 9.98 <= a.bottom and a.top <= h - 9.98):
                r.fail('outside-margins', repr(a))
                break
    r.compared += 1
    r.state(doc_digest(d))


FAMILIES = [
    Family('flat', gen_flat, run_flat, 'all sequences of up to 3 (4) elements of 6 (9) kinds x 1-3 columns x 5-9 heights; strings, numbers, tuples and empty tables'),
    Family('nested', gen_nested, run_nested, 'box in a box: outer 1-3 columns, inner 1-3 columns with up to 2 elements, elements before and after'),
    Family('deep', gen_deep, run_nested, 'three levels of boxes, and two boxes in one'),
    Family('starts', gen_starts, run_starts, 'first rectangle of several small heights'),
    Family('large', gen_large, run_large, '18 patterns of 5 to 21 (30) elements in 1 to 7 columns, chains of 4 to 6 boxes, 3 to 8 boxes in a box'),
    Family('album', gen_album, run_album, '49 to 110 (210) images, alone or among paragraphs, most of them waiting for their place, in 1 to 3 columns, 4 (7) heights'),
    Family('waiting', gen_waiting, run_waiting, 'all sequences of 2-3 (4) elements of 9 kinds with groups, of 4 (5) of 4 kinds and 5 (7) of 3 kinds, in 1 to 3 columns, 3 (7) heights from the least one'),
    Family('public', gen_public, run_public, 'PDF.content and build_pdf with one or two sections'),
]
