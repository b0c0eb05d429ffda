"""C13: page numbers and variables show the right value on every page."""
import itertools
import re

from mc.engine import Family
from mc.box import *

PROPERTY = 'C13'
EXPLANATION = (
    'Bounded exhaustive enumeration of sequences of sections with numbering settings and page counts, of paragraphs, tables and columns '
    'that split over pages with page numbers in every position, of histories of page additions and numbering changes, all numerals 1..3999, '
    'and context values; the number painted on each page is compared with a reference counter.')
ASSUMPTIONS = ['roman numbering is used with numbers 1..3999', 'variable values have no line breaks']


def roman(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        while n >= v:
            out += s
            n -= v
    return out


def lines_of(page, size=None):
    """texts of the lines of a page, by baseline"""
    out = {}
    for t in page.texts:
        if size is None or near(t.size, size, 0.01):
            out.setdefault(round(t.y, 2), []).append(t)
    return [''.join(t.text for t in sorted(v, key=lambda t: t.x)) for y, v in sorted(out.items(), reverse=True)]


# -- sections ------------------------------------------------------------------

NUM = {'-': {}, 'o': {'page_numbering_offset': 5}, 'z': {'page_numbering_offset': 0}, 'n': {'page_numbering_offset': -1},
       'r': {'page_numbering_style': 'roman'}, 'a': {'page_numbering_style': 'arabic'},
       'R': {'page_numbering_reset': True}, 'F': {'page_numbering_reset': False}, 'B': {'page_numbering_reset': True, 'page_numbering_style': 'roman'},
       'O': {'page_numbering_offset': 9, 'page_numbering_style': 'roman'}, 'X': {'page_numbering_offset': 7, 'page_numbering_reset': True}}
LINE = 41.1


def numbers(doc, secs):
    """reference counter: [(section, text)] of each page"""
    off, sty = doc.get('page_numbering_offset', 0), doc.get('page_numbering_style', 'arabic')
    out = []
    for si, (st, n) in enumerate(secs):
        s = dict(doc, **st)
        off = s.get('page_numbering_offset', off)
        sty = s.get('page_numbering_style', sty)
        if s.get('page_numbering_reset'):
            off = -len(out)
        for _ in range(n):
            v = len(out) + 1 + off
            if sty == 'roman' and not 0 < v < 4000:
                return None
            out.append((si, roman(v) if sty == 'roman' else str(v)))
    return out


def gen_sections(tier):
    docs = '-oRr' if tier == 'quick' else NUM
    for d in NUM:
        for a in NUM:
            for n in (1, 3):
                yield (d, ((a, n),))
        for a, b in itertools.product(NUM, repeat=2):
            for n in ((1, 1), (2, 1), (1, 3)) if d in docs else ((2, 2),):
                yield (d, ((a, n[0]), (b, n[1])))
    for d in '-or' if tier == 'quick' else NUM:
        for t in itertools.product('-oRrBX' if tier == 'quick' else NUM, repeat=3):
            yield (d, tuple(zip(t, (2, 1, 2))))
    if tier != 'quick':
        for t in itertools.product('-oRrBX', repeat=4):
            yield ('-', tuple(zip(t, (2, 3, 1, 2))))


def run_sections(case, r):
    d, secs = case
    ref = numbers(NUM[d], [(NUM[a], n) for a, n in secs])
    if ref is None:
        return
    cap = 2
    out = []
    for si, (a, n) in enumerate(secs):
        l = LETTERS[si]
        content = []
        for k in range(n * cap - (n > 1)):
            v = {'var': '$page'}
            content.append([{'.': [l, v]}, {'table': [[{'.': [l, {'.': [v]}]}]], 'style': {'cell_margin': 0, 'border_width': 0}}][k % 2])
        out.append({'style': dict(NUM[a]), 'content': content, 'running_sections': ['h']})
    doc = {'style': dict(NUM[d], s=40, margin_bottom=0, page_size=(400, 2 * LINE + 45), margin=20), 'sections': out,
           'running_sections': {'h': {'x': 'left', 'y': 2, 'height': 'top', 'content': [{'.': ['N', {'var': '$page'}, 'Z'], 'style': {'s': 5}}]}}}
    v = view(doc)
    r.trans += len(v.pages)
    if not r.expect(len(v.pages) == len(ref), 'page-count', lambda: '%d pages, expected %d' % (len(v.pages), len(ref))):
        return
    for i, (p, (si, num)) in enumerate(zip(v.pages, ref)):
        h = lines_of(p, 5)
        r.expect(h == ['N' + num + 'Z'], 'header-number', lambda: 'page %d header %s, expected number %s' % (i, h, num))
        b = lines_of(p, 40)
        if not r.expect(b and all(q == LETTERS[si] + num for q in b), 'body-number', lambda: 'page %d shows %s, expected %s%s' % (i, b, LETTERS[si], num)):
            return
    r.compared += 1
    r.state(doc_digest(v))


# -- texts over pages ------------------------------------------------------------

def gen_split(tier):
    pats = ['v', 'wv', 'vw', 'wxv', 'v v', 'wv.', 'w v ', 'w{v}', 'v-v w', 'wx{v}x']
    kinds = ('p', 'j', 'list', 'table', 'cell2', 'cols', 'nest', 'content2', 'cellbox')
    for pat in pats:
        for kind in kinds:
            for n in (7, 30) if tier == 'quick' else (3, 7, 14, 30, 60):
                for w in (70, 104) if tier == 'quick' else (60, 70, 80, 91, 104, 150):
                    for h in (25, 37) if tier == 'quick' else (22, 25, 31, 37, 50):
                        for off in (0, 8, 97):
                            yield (pat, kind, n, w, h, off)


def run_split(case, r):
    pat, kind, n, w, h, off = case
    par = []
    for k in range(n):
        for ch in pat:
            if ch == 'v':
                par.append({'var': '$page'})
            elif ch == '{':
                par.append({'.b': []})
            elif ch == '}':
                pass
            else:
                par.append(ch * 2 if ch in 'wx' else ch)
        par.append(' ')
    if '{' in pat:
        q = []
        for e in par:
            if isinstance(e, dict) and '.b' in e:
                q.append(e)
            elif isinstance(e, dict) and q and isinstance(q[-1], dict) and q[-1].get('.b') == []:
                q[-1]['.b'].append(e)
            else:
                q.append(e)
        par = q
    extra = 0
    if kind in ('p', 'content2'):
        el = [{'.': par}]
    elif kind == 'j':
        el = [{'.': par, 'style': {'text_align': 'j'}}]
    elif kind == 'list':
        el = [{'.': par, 'style': {'list_text': '- '}}]
    elif kind == 'table':
        el = [{'table': [[{'.': par}]], 'style': {'cell_margin': 0}}]
    elif kind == 'cell2':
        el = [{'table': [[{'.': par}, {'.': ['y', {'var': '$page'}]}]], 'widths': [3, 1], 'style': {'cell_margin': 0}}]
        w += 60
    elif kind == 'cols':
        el = [{'cols': {'count': 2}, 'content': [{'.': par}]}]
        w *= 2
    elif kind == 'nest':
        el = [{'content': [{'.': par}]}, {'.': [{'var': '$page'}]}]
    else:
        el = [{'table': [[{'content': [{'.': par}]}]], 'style': {'cell_margin': 0}}]
    pdf = PDF(page_size=(w, h), margin=0, font_size=8, page_numbering_offset=off)
    pdf.add_page()
    pdf.content({'content': el})
    d = Doc(output(pdf))
    r.trans += len(d.pages)
    total = 0
    for i, p in enumerate(d.pages):
        num = str(i + 1 + off)
        txt = ''.join(c[0] for c in chars(p))
        nums = re.findall(r'\d+', txt)
        # adjacent variables make a longer run of digits
        bad = [v for v in nums if v != num and v.replace(num, '') != '']
        r.expect(not bad, 'page-number', lambda: 'page %d (number %s) shows %r' % (i, num, txt))
        total += sum(len(v) // len(num) for v in nums if v not in bad)
    want = n * pat.count('v') + (kind in ('cell2', 'nest'))
    r.expect(total == want, 'numbers-lost', lambda: '%d numbers shown, %d expected' % (total, want))
    r.compared += 1
    r.state(doc_digest(d))


# -- numerals ------------------------------------------------------------------

def gen_roman(tier):
    for a in range(1, 4000, 31):
        yield (a, min(4000, a + 31))
    for bad in (0, -1, 4000, 5000):
        yield (bad, None)


def run_roman(case, r):
    a, b = case
    pdf = PDF(page_size=(300, 40), margin=5, font_size=8, page_numbering_style='roman')
    if b is None:
        pdf.page_numbering_offset = a - 1
        try:
            pdf.add_page()
        except Exception:
            r.compared += 1
            return
        r.fail('roman-range', 'page number %d accepted: %r' % (a, pdf.context.get('$page')))
        return
    for n in range(a, b):
        pdf.page_numbering_offset = n - len(pdf.pages) - 1
        pdf.add_page()
        pdf.text({'.': [{'var': '$page'}]})
    d = Doc(output(pdf))
    for n, p in zip(range(a, b), d.pages):
        s = ''.join(c[0] for c in chars(p))
        r.expect(s == roman(n), 'roman', lambda: '%d shown as %r' % (n, s))
    r.compared += 1
    r.state(a)
    r.trans += b - a


# -- histories -----------------------------------------------------------------

OPS = [('page',), ('off', 4), ('off', -1), ('sty', 'roman'), ('sty', 'arabic'), ('goto', 0), ('goto', -1), ('var', 'x', 'ab'), ('var', 'x', 'q r s'), ('var', 'y', 17)]


def gen_history(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(1, n + 1):
        for seq in itertools.product(range(len(OPS)), repeat=k):
            if OPS[seq[-1]][0] in ('off', 'sty'):
                continue
            yield (tuple(seq), 0)
    for k in (1, 2, 3):
        for seq in itertools.product(range(len(OPS)), repeat=k):
            yield (tuple(seq), 1)


def run_history(case, r):
    """after each operation a line with $page, x, y and an undefined name is written to the current page"""
    seq, start_roman = case
    pdf = PDF(page_size=(150, 120), margin=5, font_size=8, page_numbering_style='roman' if start_roman else 'arabic')
    cur = num = None
    off, sty = 0, 'roman' if start_roman else 'arabic'
    ctx = {}
    pages = []

    def number():
        v = cur + 1 + off
        return roman(v) if sty == 'roman' else str(v)
    for k in [0] + list(seq):
        op = OPS[k]
        r.trans += 1
        if op[0] == 'page':
            if sty == 'roman' and len(pages) + 1 + off < 1:
                return
            pdf.add_page()
            pages.append([])
            cur = len(pages) - 1
            num = number()
        elif op[0] == 'off':
            off = op[1]
            pdf.page_numbering_offset = off
            num = None
        elif op[0] == 'sty':
            sty = op[1]
            pdf.page_numbering_style = sty
            num = None
        elif op[0] == 'goto':
            i = 0 if op[1] == 0 else len(pages) - 1
            if sty == 'roman' and i + 1 + off < 1:
                return
            pdf.page_index = i
            cur = i
            num = number()
        else:
            ctx[op[1]] = str(op[2])
            pdf.context[op[1]] = op[2]
        if cur is not None and not (sty == 'roman' and cur + 1 + off < 1):
            r.expect(pdf.get_page_number() == number(), 'page-number', lambda: 'page %d has number %s, expected %s' % (cur, pdf.get_page_number(), number()))
        if num is None:
            continue        # new settings are for the pages to come
        pdf.text({'.': ['P', {'var': '$page'}, 'X', {'.b': [{'var': 'x'}]}, 'Y', {'var': 'y', 'style': {'c': 'red'}}, 'N', {'var': 'none'}, 'Z']})
        pages[cur].append('P%sX%sY%sNZ' % (num, ctx.get('x', ''), ctx.get('y', '')))
    d = Doc(output(pdf))
    for i, (p, want) in enumerate(zip(d.pages, pages)):
        got = lines_of(p)
        r.expect(got == want, 'variables', lambda: 'page %d shows %s, expected %s' % (i, got, want))
    r.compared += 1
    r.state(doc_digest(d))


# -- many pages, many variables -----------------------------------------------------------

def gen_many(tier):
    for n in (9, 10, 11, 25, 50, 99, 101, 130) if tier == 'quick' else tuple(range(8, 60)) + (99, 100, 101, 130, 257, 400, 1001):
        for sty in ('arabic', 'roman'):
            for off in (0, 7, 95, 990) if tier == 'quick' else (0, 7, 9, 95, 400, 990, 3000):
                for nv in (1, 12, 40):
                    for doc in (0, 1):
                        if off + n < 3990 and not (doc and nv == 12):
                            yield (n, sty, off, nv, doc)


def run_many(case, r):
    n, sty, off, nv, doc = case
    names = ['v%d' % k for k in range(nv)]

    def num(k):
        return roman(k + 1 + off) if sty == 'roman' else str(k + 1 + off)

    def value(q, k):
        return q + 'x' * (k % 3)
    show = lambda k: {'.': ['P', {'var': '$page'}, 'Q'] + [{'var': names[(k + j) % nv]} for j in range(3)]}
    want = []
    if doc:
        ctx = {q: value(q, 1) for q in names}
        st = {'page_size': (150, 60), 'margin': 5, 's': 8, 'page_numbering_style': sty, 'page_numbering_offset': off}
        content = []
        for k in range(n):
            content.append(show(k))
            content.append({'group': ['\n'.join('abc')]})
            want.append(['P%sQ%s' % (num(k), ''.join(value(names[(k + j) % nv], 1) for j in range(3))), 'a', 'b', 'c'])
        d = view({'style': st, 'sections': [{'content': content}]}, dict(ctx))
    else:
        pdf = PDF(page_size=(150, 120), margin=5, font_size=8, page_numbering_style=sty, page_numbering_offset=off)
        for q in names:
            pdf.context[q] = value(q, 0)
        for k in range(n):
            pdf.add_page()
            q = names[k % nv]
            pdf.context[q] = value(q, k)
            pdf.text(show(k))
            vals = {names[j % nv]: value(names[j % nv], j) for j in range(k + 1)}
            want.append(['P%sQ%s' % (num(k), ''.join(vals.get(names[(k + j) % nv], names[(k + j) % nv]) for j in range(3)))])
        d = Doc(output(pdf))
    r.trans += len(d.pages)
    if not r.expect(len(d.pages) == n, 'pages', lambda: '%d pages, expected %d' % (len(d.pages), n)):
        return
    for i, (p, w) in enumerate(zip(d.pages, want)):
        got = lines_of(p)
        if not r.expect(got == w, 'variables', lambda: 'page %d shows %s, expected %s' % (i, got, w)):
            return
    r.compared += 1
    r.state(doc_digest(d))


# -- context of documents ----------------------------------------------------------

VALUES = ['v', 'two words', 'a  b', '', 0, 12, -3.5, True, None, 'x' * 30, 'é(\\)', 'one two three four five six seven']


def gen_context(tier):
    for v in range(len(VALUES)):
        for where in ('body', 'header', 'cell', 'link', 'list', 'twice', 'footnote'):
            for w in (60, 90, 200):
                for pre in ('', 'a', 'a '):
                    yield (v, where, w, pre)


def run_context(case, r):
    v, where, w, pre = case
    val = VALUES[v]
    if isinstance(val, str) and len(val) > 20 and w < 200 and ' ' not in val:
        return
    if where == 'header' and w < 200:
        return
    el = {'.': [pre, {'var': 'name'}, 'END']}
    doc = {'style': {'page_size': (w + 20, 400), 'margin': 10, 's': 8}, 'sections': [{'content': []}]}
    s = doc['sections'][0]
    n = 1
    if where == 'body':
        s['content'] = [el]
    elif where == 'header':
        s['content'] = ['']
        s['running_sections'] = ['h']
        doc['running_sections'] = {'h': {'x': 10, 'y': 0, 'height': 50, 'content': [el]}}
    elif where == 'cell':
        s['content'] = [{'table': [[el]]}]
    elif where == 'link':
        el['.'][1] = {'var': 'name', 'uri': 'http://x', 'style': {'u': 1}}
        s['content'] = [el]
    elif where == 'list':
        s['content'] = [dict(el, style={'list_text': '1. '})]
    elif where == 'footnote':
        s['content'] = [{'.': ['T', {'footnote': el}]}]
    else:
        n = 2
        s['content'] = [el, {'content': [{'.b': [pre, {'var': 'name'}, 'END']}]}]
    ctx = {'name': val}
    d = view(doc, ctx)
    r.trans += len(d.pages)
    txt = ''.join(c[0] for p in d.pages for c in chars(p))
    want = (pre + str(val) + 'END').replace(' ', '') * n
    if where == 'list':
        want = '1.' + want
    if where == 'footnote':
        want = 'T11' + want
    r.expect(txt == want, 'variable-value', lambda: 'shown %r, expected %r' % (txt, want))
    r.expect(ctx == {'name': val}, 'context-changed', lambda: repr(ctx))
    r.compared += 1
    r.state(doc_digest(d))


FAMILIES = [
    Family('sections', gen_sections, run_sections, 'document numbering x 1-3 (4) sections with 11 numbering settings and 1-3 pages; numbers in running sections, paragraphs and table cells'),
    Family('split', gen_split, run_split, 'numbers at every position of paragraphs, lists, tables, columns and nested boxes that split over small pages'),
    Family('roman', gen_roman, run_roman, 'all page numbers 1..3999 in roman numerals, and numbers out of range'),
    Family('history', gen_history, run_history, 'histories of page additions, numbering changes, page changes and variable changes up to 4 (5) operations'),
    Family('many', gen_many, run_many, 'up to 130 (1001) pages, 1 to 40 variables, offsets of up to 990 (3000), in a document or page by page'),
    Family('context', gen_context, run_context, '12 context values x 7 places x widths'),
]
