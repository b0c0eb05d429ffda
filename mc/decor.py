"""Style of every visible character, its underline and its background."""
from .util import near


def merge(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 0.03:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def check_page(page, style_of_char, r, decor=True, lines=None, rects=None, tol=0.03):
    """style_of_char: visible char -> parspec.Style (None: not checked).
    Checks font, size, color, rise of every char; underline segments and
    background rectangles cover exactly the characters that ask for them."""
    boxes = []   # (x0, x1, baseline, style or None for a space, text run)
    for t in page.texts:
        if not t.text.strip(' '):
            for ch, x0, x1 in t.chars:
                boxes.append((ch, x0, x1, t.y, None, t))
            continue
        for ch, x0, x1 in t.chars:
            st = None
            if ch != ' ':
                st = style_of_char(ch)
                if st is None:
                    r.fail('unexpected-char', 'page %d paints %r' % (page.num, t))
                    return
                ok = (t.font == st.base and near(t.size, st.s, 0.0006)
                      and len(t.color) == len(st.c) and all(near(a, b, 0.0006) for a, b in zip(t.color, st.c))
                      and near(t.rise, st.r * st.s, 0.0006))
                if not ok:
                    r.fail('style', '%r drawn with font %s size %s color %s rise %s; expected %s %s %s %s' % (
                        ch, t.font, t.size, t.color, t.rise, st.base, st.s, st.c, st.r * st.s))
                    return
                if not near(x1 - x0, st.w(ch), 0.002):
                    r.fail('char-width', '%r is %.3f wide, expected %.3f' % (ch, x1 - x0, st.w(ch)))
            boxes.append((ch, x0, x1, t.y, st, t))
    if not decor:
        return
    need = {}
    may = {}
    owners = {}

    def keys(st, y):
        out = []
        base = y + st.r * st.s
        if st.u:
            out.append(('u', round(base - 0.07 * st.s, 1), round(0.07 * st.s, 2), tuple(round(c, 2) for c in st.c)))
        if st.bg is not None:
            out.append(('b', round(base - 0.25 * st.s, 1), round(1.2 * st.s, 1), tuple(round(c, 2) for c in st.bg)))
        return out

    n = len(boxes)
    for i, (ch, x0, x1, y, st, t) in enumerate(boxes):
        if st is not None:
            for k in keys(st, y):
                need.setdefault(k, []).append((x0, x1))
                owners.setdefault(k, []).append(t)
        else:
            # a run of spaces between two characters
            p = i - 1
            while p >= 0 and boxes[p][4] is None:
                p -= 1
            q = i + 1
            while q < n and boxes[q][4] is None:
                q += 1
            a = boxes[p] if p >= 0 and boxes[p][3] == y else None
            b = boxes[q] if q < n and boxes[q][3] == y else None
            ka = keys(a[4], y) if a else []
            kb = keys(b[4], y) if b else []
            for k in set(ka) | set(kb):
                may.setdefault(k, []).append((x0, x1))
            # inside one part: the space belongs to the part
            if a and b and a[4] is b[4] and (a[5] is t and b[5] is t):
                for k in ka:
                    need.setdefault(k, []).append((x0, x1))
    got = {}
    seqs = {}    # decoration -> (x0, x1, seq) painted
    for x1, y1, x2, y2, w, color, dash, cap, seq in (page.lines if lines is None else lines):
        if not near(y1, y2, 1e-6):
            r.fail('underline-slanted', (x1, y1, x2, y2))
        k = find(need, may, 'u', y1, w, color)
        if k is None:
            r.fail('spurious-underline', 'page %d: line %.2f..%.2f at y=%.3f width %.3f color %s; underlines expected: %s' % (
                page.num, x1, x2, y1, w, color, [q for q in need if q[0] == 'u']))
            return
        if dash[0] or cap:
            r.fail('underline-style', (dash, cap))
        got.setdefault(k, []).append((min(x1, x2), max(x1, x2)))
        seqs.setdefault(k, []).append((min(x1, x2), max(x1, x2), seq))
    for x, y, w, h, color, seq in (page.rects if rects is None else rects):
        k = find(need, may, 'b', y, h, color)
        if k is None:
            r.fail('spurious-background', 'page %d: rectangle %.2f..%.2f at y=%.3f height %.3f color %s; backgrounds expected: %s' % (
                page.num, x, x + w, y, h, color, [q for q in need if q[0] == 'b']))
            return
        got.setdefault(k, []).append((x, x + w))
        seqs.setdefault(k, []).append((x, x + w, seq))
        # a background must be painted before its text
        if any(t.seq < seq and x - tol <= t.x < x + w - tol for t in owners.get(k, ())):
            r.fail('background-over-text', 'rectangle painted after the text')
    # a background must be painted before the underline of the same text
    for ch, x0, x1, y, st, t in boxes:
        if st is None or not st.u or st.bg is None:
            continue
        ku, kb = keys(st, y)
        for a, b, su in seqs.get(ku, ()):
            if a - tol <= x0 and x1 <= b + tol:
                if any(sb > su and p - tol <= x0 and x1 <= q + tol for p, q, sb in seqs.get(kb, ())):
                    r.fail('background-over-underline', '%r: rectangle painted after the underline' % ch)
                    return
    for k, iv in need.items():
        g = merge(got.get(k, []))
        for a, b in merge(iv):
            if not any(x <= a + tol and b - tol <= y for x, y in g):
                r.fail('missing-' + ('underline' if k[0] == 'u' else 'background'),
                       'page %d: %s needed on %.2f..%.2f, painted %s' % (page.num, k, a, b, [[round(v, 2) for v in q] for q in g]))
                return
    for k, iv in got.items():
        allowed = merge(need.get(k, []) + may.get(k, []))
        for a, b in merge(iv):
            if not any(x <= a + tol and b - tol <= y for x, y in allowed):
                r.fail('too-wide-' + ('underline' if k[0] == 'u' else 'background'),
                       'page %d: %s painted on %.2f..%.2f, allowed %s' % (page.num, k, a, b, [[round(v, 2) for v in q] for q in allowed]))
                return


def find(need, may, kind, y, w, color):
    for k in list(need) + list(may):
        if k[0] == kind and near(k[1], y, 0.06) and near(k[2], w, 0.06 if kind == 'b' else 0.011) and \
                len(k[3]) == len(color) and all(near(a, b, 0.011) for a, b in zip(k[3], color)):
            return k
    return None
