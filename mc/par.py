"""Driving paragraphs through the real code and comparing with parspec."""
from .util import *
from .parspec import *

PW, PH = 900, 3000   # page used as canvas


def to_content(parts):
    """[(text, style dict)] -> PDFText content"""
    return [{'.': t, 'style': dict(s)} if s else t for t, s in parts]


def style_of(sd, default=None):
    d = dict(default or {})
    d.update(sd or {})
    kw = {k: d[k] for k in ('f', 'b', 'i', 's', 'r', 'u', 'bg') if k in d}
    if 'c' in d:
        c = d['c']
        kw['c'] = tuple(c) if isinstance(c, (list, tuple)) else (c,)
    if kw.get('bg') is not None:
        bg = kw['bg']
        kw['bg'] = tuple(bg) if isinstance(bg, (list, tuple)) else (bg,)
    return Style(**kw)


def run_rects(content, rects, opts, pdf=None, limit=400):
    """Lays `content` out over rects [(x, ytop, w, h)] (the last one repeats),
    one page each.  -> (pdf, [result per rect], finished)"""
    if pdf is None:
        pdf = PDF(page_size=(PW, PH), margin=0)
    obj = content
    res = []
    i = 0
    while True:
        x, y, w, h = rects[min(i, len(rects) - 1)]
        pdf.add_page()
        obj = pdf._text(obj, w, h, x, y, **(opts if i == 0 else {}))
        res.append(dict(obj.result, rect=(x, y, w, h)))
        i += 1
        if obj.finished:
            return pdf, res, True
        if i >= limit:
            return pdf, res, False


def chars(page):
    """visible characters in painting order: (ch, x, y, glyph run)"""
    out = []
    for t in page.texts:
        for ch, x0, x1 in t.chars:
            if ch != ' ':
                out.append((ch, x0, t.y, t))
    return out


def shown(page):
    return ''.join(c[0] for c in chars(page))


def check_style(t, st, r, what=''):
    r.expect(t.font == st.base, 'font', lambda: '%s: %r drawn in %s, expected %s' % (what, t.text, t.font, st.base))
    r.expect(near(t.size, st.s, 0.0006), 'size', lambda: '%s: %r drawn at %s, expected %s' % (what, t.text, t.size, st.s))
    r.expect(len(t.color) == len(st.c) and all(near(a, b, 0.0006) for a, b in zip(t.color, st.c)),
             'color', lambda: '%s: %r drawn in %s, expected %s' % (what, t.text, t.color, st.c))
    r.expect(near(t.rise, st.r * st.s, 0.0006), 'rise', lambda: '%s: %r rise %s, expected %s' % (what, t.text, t.rise, st.r * st.s))


def check_layout(parts, rects, opts, pages, results, r, list_style=None, geometry=True, styles=True, vtol=TOL):
    """Compare the painted pages with the reference layout.  parts: [(text,
    Style)].  Returns the list of (line, page index, y) for further checks."""
    align = opts.get('text_align') or 'l'
    lh = opts.get('line_height', 1.1)
    indent = opts.get('indent', 0)
    ltext = opts.get('list_text')
    left = 0
    if ltext:
        lst = list_style or next((st for t, st in parts), Style())
        left = opts.get('list_indent')
        if left is None:
            left = lst.w(ltext)
    # the lines depend on the width of the rectangle they are in: widths must
    # be equal for a whole-paragraph layout; otherwise redo per rectangle
    widths = {q[2] for q in rects}
    assert len(widths) == 1
    width = rects[0][2]
    lines = break_lines(parts, width, align, indent, left)
    placed = []
    li = 0
    uniform = len({st.s for _, st in parts} | ({lst.s} if ltext else set())) <= 1 and all(st.r == 0 for _, st in parts) \
        and all(l.words for l in lines)
    for pi, pg in enumerate(pages):
        x0, ytop, w, h = rects[min(pi, len(rects) - 1)]
        top = pg.height - ytop
        cs = chars(pg)
        k = 0
        lastbase = None
        nlines = 0
        if ltext and pi == first_page_with_text(pages):
            lt = [c for c in ltext if c != ' ']
            got = cs[:len(lt)]
            k = len(lt)
            r.expect([c[0] for c in got] == lt, 'list-text', lambda: '%r instead of %r' % (got, ltext))
            xx = x0
            j = 0
            for ch in ltext:
                if ch != ' ' and j < len(got):
                    if geometry:
                        r.expect(near(got[j][1], xx), 'list-text-x', lambda: '%r at %r, expected %.3f' % (ch, got[j], xx))
                    if styles:
                        check_style(got[j][3], lst, r, 'list text')
                    j += 1
                xx += lst.w(ch)
            list_y = got[0][2] if got else None
        else:
            list_y = None
        while k < len(cs):
            if li >= len(lines):
                r.fail('extra-text', 'page %d paints %r after the whole paragraph' % (pi, cs[k][0]))
                return placed
            line = lines[li]
            exp, start, end, factor = place(line, width, align, indent, left)
            got = cs[k:k + len(exp)]
            gs = ''.join(c[0] for c in got)
            es = ''.join(c[0] for c in exp)
            if gs != es:
                r.fail('line-text', 'line %d on rectangle %d: painted %r, expected %r' % (li, pi, gs, es))
                return placed
            k += len(exp)
            li += 1
            if not exp:
                if list_y is not None and line.first:
                    lastbase = list_y       # the marker is alone in its line
                    nlines += 1
                continue
            y = got[0][2]
            if geometry:
                for (ch, gx, gy, g), (_, ex, st) in zip(got, exp):
                    if not near(gx, x0 + ex, 0.02 + 0.0006 * len(line.gaps)):
                        r.fail('char-x', 'line %d (%r) char %r at x=%.3f, expected %.3f' % (li - 1, es, ch, gx, x0 + ex))
                        break
                    if not near(gy, y, 1e-6):
                        r.fail('char-baseline', 'line %d: %r at y=%.3f, line at %.3f' % (li - 1, ch, gy, y))
                        break
                if list_y is not None and nlines == 0 and line.first:
                    r.expect(near(list_y, y), 'list-text-y', lambda: '%r vs %r' % (list_y, y))
                sz = max(sizes(line))
                up = max(0, max(rises(line)))
                nb = [lines[q] for q in (li - 2, li - 1, li) if 0 <= q < len(lines)]
                szmax = max(max(sizes(q)) for q in nb)
                upmax = max(max(0, max(rises(q))) for q in nb)
                dn = max(max(0, -min(rises(lines[q]))) for q in (li - 3, li - 2, li - 1, li) if 0 <= q < len(lines))
                dnprev = max(0, -min(rises(lines[li - 2]))) if li >= 2 and lastbase is not None and not line.brk else 0
                if ltext and line.first:
                    szmax = max(szmax, lst.s)
                if lastbase is None:
                    pitch = top - y
                    lo, hi = sz + up, szmax + upmax + lh
                    if uniform:
                        lo = hi
                else:
                    pitch = lastbase - y
                    lo = lh * (sz + up + dnprev)
                    hi = lh * (szmax + upmax + max(dn, lh if line.brk else 0))
                    if uniform:
                        lo = hi = lh * (sz + (lh if line.brk else 0))
                r.expect(lo - vtol <= pitch <= hi + vtol, 'line-pitch',
                         lambda: 'line %d (%r) is %.3f below the previous one/top, expected %.3f..%.3f' % (li - 1, es, pitch, lo, hi))
                # containment
                r.expect(top - y <= h + vtol, 'below-rectangle', lambda: 'line %d at %.3f below the top of a rectangle %.3f high' % (li - 1, top - y, h))
                if all(wwidth(wd) <= width - left - (indent if line.first else 0) for wd in line.words):
                    last = got[-1]
                    endx = last[1] + exp[-1][2].w(last[0])
                    r.expect(last[1] + exp[-1][2].w(last[0]) <= x0 + w + 0.03 + 0.0006 * len(line.gaps), 'right-overflow', lambda: 'line %d (%r) ends at %.3f, right edge %.3f' % (li - 1, es, endx, x0 + w))
            if styles:
                for (ch, gx, gy, g), (_, ex, st) in zip(got, exp):
                    check_style(g, st, r, 'line %d' % (li - 1))
            placed.append((line, pi, y, exp, got, x0))
            lastbase = y
            nlines += 1
        if geometry and results is not None and nlines:
            res = results[pi]
            r.expect(near(res['height'], top - lastbase, 0.02), 'reported-height',
                     lambda: 'rectangle %d: height %.3f reported, last line %.3f below top' % (pi, res['height'], top - lastbase))
        # maximality: the next line did not fit
        if geometry and uniform and pi + 1 < len(pages) and li < len(lines):
            nxt = lines[li]
            sz = max(sizes(nxt))
            if nlines == 0:
                need = sz + lh
            else:
                need = (top - lastbase) + lh * (sz + (lh if nxt.brk else 0))
            r.expect(need > h - 1e-6, 'rectangle-not-filled',
                     lambda: 'rectangle %d is %.3f high, the next line needed only %.3f' % (pi, h, need))
    r.expect(li == len(lines) or not any(l.words for l in lines[li:]), 'lost-text',
             lambda: 'lines from %d on are missing: %r' % (li, [[t for t, _ in w] for l in lines[li:] for w in l.words]))
    return placed


def first_page_with_text(pages):
    for i, p in enumerate(pages):
        if p.texts and any(t.text.strip() for t in p.texts):
            return i
    return None
