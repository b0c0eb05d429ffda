"""Readers of the navigation structures of a document, strict."""
from .pdfread import PdfError, Ref, Name


def name_tree(pdf):
    """-> {name bytes: value}; the tree must be well formed (ISO 32000 7.9.6)"""
    names = pdf.get(pdf.root.get('Names'))
    if names is None:
        return {}
    ref = names.get('Dests')
    if ref is None:
        return {}
    out = {}
    order = []
    seen = set()

    def walk(ref, top):
        if isinstance(ref, Ref):
            if ref.num in seen:
                raise PdfError('name tree node %r reached twice' % (ref,))
            seen.add(ref.num)
        elif not top:
            raise PdfError('name tree kid is not a reference')
        d = pdf.get(ref)
        if not isinstance(d, dict):
            raise PdfError('name tree node is not a dict: %r' % (d,))
        lim = pdf.get(d.get('Limits'))
        if top and lim is not None:
            raise PdfError('the root of a name tree has Limits')
        if not top and not (isinstance(lim, list) and len(lim) == 2):
            raise PdfError('name tree node without Limits: %r' % (d,))
        if ('Names' in d) == ('Kids' in d):
            raise PdfError('name tree node needs either Names or Kids: %r' % (d,))
        start = len(order)
        if 'Names' in d:
            arr = pdf.get(d['Names'])
            if len(arr) % 2:
                raise PdfError('odd Names array')
            for i in range(0, len(arr), 2):
                k = arr[i]
                if not isinstance(k, bytes):
                    raise PdfError('name tree key %r is not a string' % (k,))
                if k in out:
                    raise PdfError('name tree key %r twice' % (k,))
                out[k] = pdf.get(arr[i + 1])
                order.append(k)
        else:
            for k in pdf.get(d['Kids']):
                walk(k, False)
        if len(order) == start:
            raise PdfError('empty name tree node')
        if not top and lim != [order[start], order[-1]]:
            raise PdfError('name tree Limits %r, keys %r..%r' % (lim, order[start], order[-1]))
    walk(ref, True)
    if order != sorted(order):
        raise PdfError('name tree keys out of order: %r' % order)
    return out


def dests(doc):
    """{name str: (page index, left, top)}"""
    idx = {p.num: i for i, p in enumerate(doc.pages)}
    out = {}
    for k, v in name_tree(doc.pdf).items():
        if isinstance(v, dict):
            v = doc.pdf.get(v.get('D'))
        if not (isinstance(v, list) and len(v) == 5 and isinstance(v[0], Ref) and v[1] == 'XYZ'):
            raise PdfError('destination %r is %r' % (k, v))
        if v[0].num not in idx:
            raise PdfError('destination %r refers to %r, not a page' % (k, v[0]))
        for c in v[2:]:
            if not isinstance(c, (int, float)) or isinstance(c, bool):
                raise PdfError('destination %r has coordinates %r' % (k, v[2:]))
        out[k.decode('latin-1')] = (idx[v[0].num], v[2], v[3])
    return out


class Outline:
    def __init__(self, title, dest, kids, count):
        self.title, self.dest, self.kids, self.count = title, dest, kids, count

    def __repr__(self):
        return '%s->%s%s%r' % (self.title, self.dest, '' if self.count is None else '(%d)' % self.count, self.kids)


def outlines(doc):
    """-> ([Outline], pagemode); strict about sibling, parent and count links"""
    pdf = doc.pdf
    ref = pdf.root.get('Outlines')
    if ref is None:
        return [], pdf.root.get('PageMode')
    if not isinstance(ref, Ref):
        raise PdfError('Outlines is not a reference')
    seen = set()

    def level(pref):
        d = pdf.get(pref)
        first, last = d.get('First'), d.get('Last')
        if (first is None) != (last is None):
            raise PdfError('outline node with only one of First and Last: %r' % (d,))
        out = []
        prev = None
        cur = first
        while cur is not None:
            if not isinstance(cur, Ref) or cur.num in seen:
                raise PdfError('outline loop or bad link %r' % (cur,))
            seen.add(cur.num)
            o = pdf.get(cur)
            if o.get('Parent') != pref:
                raise PdfError('outline %r has Parent %r, expected %r' % (cur, o.get('Parent'), pref))
            if o.get('Prev') != prev:
                raise PdfError('outline %r has Prev %r, expected %r' % (cur, o.get('Prev'), prev))
            t = o.get('Title')
            if not isinstance(t, bytes):
                raise PdfError('outline Title %r' % (t,))
            dest = o.get('Dest')
            if not isinstance(dest, bytes):
                raise PdfError('outline Dest %r' % (dest,))
            kids = level(cur)
            c = o.get('Count')
            if c is not None and not isinstance(c, int):
                raise PdfError('outline Count %r' % (c,))
            out.append(Outline(t.decode('latin-1'), dest.decode('latin-1'), kids, c))
            prev = cur
            nxt = o.get('Next')
            if nxt is None and cur != last:
                raise PdfError('outline Last is %r but the chain ends at %r' % (last, cur))
            cur = nxt
        return out
    top = level(ref)
    root = pdf.get(ref)

    def shown(os_):
        return sum(1 + (shown(o.kids) if o.kids and (o.count or 0) > 0 else 0) for o in os_)

    def check(os_):
        for o in os_:
            if not o.kids:
                if o.count not in (None, 0):
                    raise PdfError('outline without children has Count %r' % o.count)
            else:
                if o.count is None:
                    raise PdfError('outline with children has no Count')
                n = shown(o.kids)
                if abs(o.count) != n:
                    raise PdfError('outline %r has Count %r, %d items are shown when it is open' % (o.title, o.count, n))
            check(o.kids)
    check(top)
    if root.get('Count') is not None and root.get('Count') != shown(top):
        raise PdfError('outline root Count is %r, %d items are shown' % (root.get('Count'), shown(top)))
    return top, pdf.root.get('PageMode')


def link_target(pdf, a):
    """annotation dict -> ('uri', x) or ('ref', name)"""
    if a.get('Subtype') != 'Link':
        raise PdfError('annotation %r is not a link' % (a,))
    if ('A' in a) == ('Dest' in a):
        raise PdfError('link annotation needs one of A and Dest: %r' % (a,))
    if 'A' in a:
        act = pdf.get(a['A'])
        if act.get('S') != 'URI' or not isinstance(act.get('URI'), bytes):
            raise PdfError('bad action %r' % (act,))
        return ('uri', act['URI'].decode('latin-1'))
    d = pdf.get(a['Dest'])
    if not isinstance(d, bytes):
        raise PdfError('Dest %r' % (d,))
    return ('ref', d.decode('latin-1'))


def cover(page, keys_of_char, size_of, areas, r, what, tol=0.03):
    """Every visible char with key k must be inside an area of key k, on its
    line; every area must only contain chars of its key (and the spaces next
    to them).  areas: [(key, x0, y0, x1, y1)].  size_of(char) -> (size, rise
    in points)."""
    need, may = {}, {}
    boxes = []
    for t in page.texts:
        for ch, x0, x1 in t.chars:
            boxes.append((ch, x0, x1, t.y, t))
    n = len(boxes)

    def kk(ch, y):
        s, rise = size_of(ch)
        y0 = y + rise - 0.25 * s
        return [(k, y0, y0 + s) for k in keys_of_char(ch)]
    for i, (ch, x0, x1, y, t) in enumerate(boxes):
        if ch != ' ':
            for k in kk(ch, y):
                need.setdefault(k, []).append((x0, x1))
        else:
            p, q = i - 1, i + 1
            while p >= 0 and boxes[p][0] == ' ':
                p -= 1
            while q < n and boxes[q][0] == ' ':
                q += 1
            for j in (p, q):
                if 0 <= j < n and boxes[j][3] == y:
                    for k in kk(boxes[j][0], y):
                        may.setdefault(k, []).append((x0, x1))
    got = {}
    for key, x0, y0, x1, y1 in areas:
        for k in list(need) + list(may):
            if k[0] == key and abs(k[1] - y0) < 0.02 and abs(k[2] - y1) < 0.02:
                break
        else:
            r.fail('spurious-' + what, 'page %d: area %s of %r; texts with targets: %s' % (page.num, [x0, y0, x1, y1], key, sorted(need, key=str)[:6]))
            return False
        if not x1 > x0:
            r.fail('empty-' + what, 'page %d: area %s of %r' % (page.num, [x0, y0, x1, y1], key))
        got.setdefault(k, []).append((x0, x1))

    def merge(iv):
        out = []
        for a, b in sorted(iv):
            if out and a <= out[-1][1] + tol:
                out[-1][1] = max(out[-1][1], b)
            else:
                out.append([a, b])
        return out
    for k, iv in need.items():
        g = merge(got.get(k, []))
        # characters of one key separated only by spaces may be covered at once
        for a, b in iv:
            if not any(x <= a + tol and b - tol <= y for x, y in g):
                r.fail('missing-' + what, 'page %d: %r needed on %.2f..%.2f (y %.2f), areas %s' % (page.num, k[0], a, b, k[1], g))
                return False
    for k, iv in got.items():
        al = merge(need.get(k, []) + may.get(k, []))
        for a, b in merge(iv):
            if not any(x <= a + tol and b - tol <= y for x, y in al):
                r.fail('too-wide-' + what, 'page %d: area of %r on %.2f..%.2f, its text is on %s' % (page.num, k[0], a, b, al))
                return False
    return True
