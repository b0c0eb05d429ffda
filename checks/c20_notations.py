"""C20: every notation of colors, margins, sizes, styles, ranges and numerals."""
import itertools
import re

from mc.engine import Family
from mc.util import *
from pdfme.color import PDFColor, parse_color
from pdfme.utils import get_page_size, parse_margin, parse_range_string, parse_style_str, to_roman
from pdfme.fonts import PDFFonts

PROPERTY = 'C20'
EXPLANATION = (
    'Exhaustive enumeration of the inputs of each notation up to a length over its alphabet, compared with reference readers written from the documentation '
    '(and the CSS table of named colors, the ISO and JIS page sizes); equivalent notations are used at every place that accepts them and the documents compared.')
ASSUMPTIONS = ['inputs the documentation does not define (numbers out of range, repeated separators, alpha channels) may be accepted or rejected']

try:
    from PIL.ImageColor import colormap
    CSS = {k: tuple(int(v[i:i + 2], 16) / 255 for i in (1, 3, 5)) for k, v in colormap.items() if isinstance(v, str) and len(v) == 7}
except ImportError:     # pragma: no cover
    CSS = {'red': (1, 0, 0), 'lime': (0, 1, 0), 'blue': (0, 0, 1), 'white': (1, 1, 1), 'black': (0, 0, 0)}


# ---- colors as values --------------------------------------------------------------

NUM = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)$')


def ref_color(s):
    """-> list | None (no color) | 'any' | 'error'"""
    if s == '':
        return None
    if s in CSS:
        return list(CSS[s])
    if s[0] == '#':
        h = s[1:]
        if len(h) not in (3, 4, 6, 8) or not all(c in '0123456789abcdefABCDEF' for c in h):
            return 'error'
        if len(h) < 5:
            return [int(c * 2, 16) / 255 for c in h[:3]]
        return [int(h[i:i + 2], 16) / 255 for i in (0, 2, 4)]
    parts = re.split(', |,| ', s)
    if any(p == '' for p in parts):
        # separators at the ends or repeated are not defined; what is between them must be right
        rest = [p for p in re.split('[, ]+', s) if p]
        if any(not NUM.match(p) for p in rest) or len(rest) not in (1, 3):
            return 'error'
        return 'any'
    if any(not NUM.match(p) for p in parts):
        return 'error'
    v = [float(p) for p in parts]
    if len(v) == 4:
        return 'any'
    if len(v) not in (1, 3):
        return 'error'
    if any(not 0 <= x <= 1 for x in v):
        return 'any'
    return v


def got_color(v, stroke=False):
    """the operands and operator written for a color"""
    try:
        s = str(PDFColor(v, stroke))
    except Exception as e:  # noqa
        return 'error'
    if s == '':
        return None
    p = s.split()
    return [float(x) for x in p[:-1]], p[-1]


def same_color(got, want, tol=0.0045):
    return isinstance(got, tuple) and len(got[0]) == len(want) and all(abs(a - b) <= tol for a, b in zip(got[0], want))


def check_color(v, want, r, stroke=False):
    got = got_color(v, stroke)
    r.trans += 1
    if want == 'any':
        return
    if want == 'error':
        r.expect(got == 'error', 'color-accepted', lambda: '%r accepted as %s' % (v, got))
        return
    if want is None:
        r.expect(got is None, 'color-none', lambda: '%r gives %s, expected no color' % (v, got))
        return
    tol = 0.0045 if isinstance(v, str) and v in CSS else 0.00051
    op = {1: 'gG', 3: ('rg', 'RG')}[len(want)][1 if stroke else 0]
    r.expect(got not in ('error', None) and same_color(got, want, tol) and got[1] == op, 'color-value', lambda: '%r gives %s, expected %s %s' % (v, got, want, op))
    r.compared += 1


def gen_colors(tier):
    for a in '0123456789abcdefABCDEF':
        yield ('hex3', a)
    for k in range(3):
        for a in range(16):
            yield ('hex6', k, a)
    yield ('hex6all', 0, 0)
    yield ('names',)
    alpha = '0#f1. ,-g'
    for a in alpha:
        for b in alpha:
            yield ('str', a + b, 4 if tier == 'quick' else 6)
    yield ('lists',)
    yield ('odd',)


def run_colors(case, r):
    kind = case[0]
    if kind == 'hex3':
        for b, c in itertools.product('0123456789abcdefABCDEF', repeat=2):
            s = '#' + case[1] + b + c
            check_color(s, ref_color(s), r)
            check_color(s + '7', ref_color(s), r)
            check_color(s, ref_color(s), r, True)
    elif kind == 'hex6':
        k, a = case[1:]
        for b in range(16):
            for other in range(0, 256, 51):
                ch = [other, 255 - other, 0x7f]
                ch[k] = a * 16 + b
                for f in ('#%02x%02x%02x', '#%02X%02X%02X'):
                    s = f % tuple(ch)
                    check_color(s, [x / 255 for x in ch], r)
                    check_color(s + '80', [x / 255 for x in ch], r)
    elif kind == 'hex6all':
        for ch in itertools.product(range(0, 256, 17), repeat=3):
            check_color('#%02x%02x%02x' % ch, [x / 255 for x in ch], r)
    elif kind == 'names':
        for n in CSS:
            check_color(n, ref_color(n), r)
            check_color(n, ref_color(n), r, True)
            check_color(n + 'x', 'error', r)
    elif kind == 'str':
        for n in range(0, case[2] - 1):
            for t in itertools.product('0#f1. ,-g', repeat=n):
                s = case[1] + ''.join(t)
                check_color(s, ref_color(s), r)
        if case[1] == '00':
            check_color('', None, r)
            for a in '0#f1. ,-g':
                check_color(a, ref_color(a), r)
    elif kind == 'lists':
        vals = (0, 1, 0.5, 0.125, .333, True)
        for n in (1, 3):
            for v in itertools.product(vals, repeat=n):
                for f in (list, tuple):
                    check_color(f(v), [float(x) for x in v], r)
                    check_color(f(str(float(x)) for x in v), [float(x) for x in v], r)
                    check_color(PDFColor(f(v)), [float(x) for x in v], r, True)
                if n == 3:
                    for sep in (' ', ',', ', '):
                        check_color(sep.join(str(float(x)) for x in v), [float(x) for x in v], r)
        for v in vals:
            check_color(v, [float(v)], r)
            check_color(str(float(v)), [float(v)], r)
        for i in range(1001):
            check_color(i / 1000, [i / 1000], r)
            check_color(str(i / 1000), [i / 1000], r)
        check_color(None, None, r)
    else:
        for v in ([], (), [1, 2], [0, 1], [0] * 5, ['a'], ['a', 0, 0], [None], [[1]], {}, {'c': 1}, b'red', object(), set(), ['0', 'x', '1'], 'Redd', 'rgb(1,2,3)', '0x10', '1 2', '0 1', '0,1', '#', '##ff',
                  '#12', '#12345', '#1234567', '#123456789', '#ggg', '#+1+1+1', '# 1 1 1', '#-1-1-1', '#1_1', 'red blue', '0 0 0 0 0', [0, 0], ('0', '0')):
            check_color(v, 'error', r)
    r.state(case)


# ---- colors at every place --------------------------------------------------------------

NOTES = [
    ([0.2, 0.4, 0.6], [(0.2, 0.4, 0.6), '#336699', '#369', '0.2 0.4 0.6', '.2,.4,.6', '0.2, 0.4, 0.6', ['0.2', '0.4', '0.6'], '#369f', '#336699ff', '#36C'.lower().replace('c', '9')]),
    ([1, 0, 0], ['red', '#f00', '#FF0000', (1, 0, 0), '1 0 0', '1,0,0', '1, 0, 0']),
    ([0.7], [(0.7,), 0.7, '0.7', '.7', ['.7']]),
    ([0], [0, '0', (0,), 0.0, False]),
    ([1], [1, '1', (1,), 1.0]),
    ([0, 1, 1], ['cyan', 'aqua', '#0ff', [0, 1, 1]]),
]


def T(txt, **k):
    return dict({'.': txt}, style=k)


def sinks():
    """place -> document using color v there"""
    def doc(content, **k):
        return dict({'style': {'s': 8, 'page_size': (200, 200), 'margin': 20}, 'sections': [{'content': content}]}, **k)
    s = {}
    s['part'] = lambda v: doc([['a ', T('bb', c=v), ' c']])
    s['par'] = lambda v: doc([T('bb', c=v)])
    s['dot'] = lambda v: doc([{'.b;c:%s' % v: 'bb'}])
    s['dotbg'] = lambda v: doc([['a', {'.bg:%s' % v: 'bb'}]])
    s['bg'] = lambda v: doc([['a', T('bb', bg=v), 'c']])
    s['under'] = lambda v: doc([T('bb', c=v, u=True)])
    s['box'] = lambda v: doc(['x', {'style': {'c': v}, 'content': ['bb']}])
    s['list'] = lambda v: doc([T('bb', list_text='*', list_style={'c': v})])
    s['section'] = lambda v: {'style': {'s': 8, 'page_size': (200, 200), 'margin': 20}, 'sections': [{'style': {'c': v}, 'content': ['bb']}]}
    s['document'] = lambda v: {'style': {'s': 8, 'page_size': (200, 200), 'margin': 20, 'c': v}, 'sections': [{'content': ['bb']}]}
    s['format'] = lambda v: doc([{'.': 'bb', 'style': 'ff'}], formats={'ff': {'c': v}})
    s['cell'] = lambda v: doc([{'table': [[T('bb', cell_fill=v), 'x'], ['y', 'z']]}])
    s['cellfill'] = lambda v: doc([{'table': [['bb', 'x']], 'style': {'cell_fill': v}}])
    s['border'] = lambda v: doc([{'table': [['bb', 'x']], 'style': {'border_color': v}}])
    s['borders'] = lambda v: doc([{'table': [['bb', 'x'], ['z', 'w']], 'borders': [{'pos': 'h1;', 'color': v}]}])
    s['fills'] = lambda v: doc([{'table': [['bb', 'x'], ['z', 'w']], 'fills': [{'pos': '1;', 'color': v}]}])
    s['group'] = lambda v: doc([{'group': [T('bb', c=v), 'x']}])
    s['run'] = lambda v: {'style': {'s': 8, 'page_size': (200, 200), 'margin': 40}, 'running_sections': {'h': {'x': 'left', 'y': 10, 'width': 100, 'height': 20, 'content': [T('bb', c=v)]}},
                          'sections': [{'running_sections': ['h'], 'content': ['q']}]}
    s['foot'] = lambda v: doc([['a', {'footnote': T('bb', c=v)}]])
    return s


SINKS = sinks()


def gen_places(tier):
    for s in sorted(SINKS):
        for k, (v, notes) in enumerate(NOTES):
            for n in range(len(notes)):
                yield (s, k, n)
        if tier != 'quick':
            for name in sorted(CSS):
                yield (s, name, None)


def has_color(d, want, tol=0.0045):
    def eq(c):
        if c is None:
            return False
        c = list(c)
        if len(c) == 1 and len(want) == 3:
            c = c * 3
        w = want * 3 if len(want) == 1 and len(c) == 3 else want
        return len(c) == len(w) and all(abs(a - b) <= tol for a, b in zip(c, w))
    p = d.pages[0]
    return any(eq(t.color) for t in p.texts) or any(eq(q[4]) for q in p.rects) or any(eq(c) for q in p.lines for c in q[5:8] if isinstance(c, tuple))


def run_places(case, r):
    sink, k, n = case
    if n is None:
        want, v, base = list(CSS[k]), k, None
    else:
        want, notes = NOTES[k]
        v, base = notes[n], want
    if sink.startswith('dot') and not isinstance(v, str):
        return
    d = view(SINKS[sink](v))
    r.expect(has_color(d, want), 'place-color', lambda: '%s: color %r is not in the page, expected %s' % (sink, v, want))
    if base is not None:
        b = ', '.join(map(str, base)) if sink.startswith('dot') else base
        ref = view(SINKS[sink](b.replace(', ', ' ') if isinstance(b, str) else b))
        r.expect(doc_digest(ref) == doc_digest(d) or k in (1, 5), 'place-differs', lambda: '%s: %r and %r give different pages: %s\n%s' % (sink, v, base, doc_digest(d), doc_digest(ref)))
    r.trans += 1
    r.compared += 1
    r.state((sink, k, n))


# ---- page sizes and margins ------------------------------------------------------------

MM = 72 / 25.4
SIZES = {'a5': (148 * MM, 210 * MM), 'a4': (210 * MM, 297 * MM), 'a3': (297 * MM, 420 * MM), 'b5': (176 * MM, 250 * MM), 'b4': (250 * MM, 353 * MM),
         'jis-b5': (182 * MM, 257 * MM), 'jis-b4': (257 * MM, 364 * MM), 'letter': (612, 792), 'legal': (612, 1008), 'ledger': (792, 1224)}
PSIZES = [(k, v) for k, v in SIZES.items()] + [(300, (300, 300)), (250.5, (250.5, 250.5)), ((200, 300), (200, 300)), ([310, 200.25], (310, 200.25))]
BADSIZES = ['a6', '', 'A 4', None, {}, (1,), (1, 2, 3), [], 'letter ']

M4 = (11, 22, 33.5, 44)


def margin_notes():
    """(notation, (top, right, bottom, left))"""
    out = []
    for n in (1, 2, 3, 4):
        for v in itertools.product((0, 7, 12.5, 30), repeat=n):
            full = {1: lambda: (v[0],) * 4, 2: lambda: (v[0], v[1], v[0], v[1]), 3: lambda: (v[0], v[1], v[2], v[1]), 4: lambda: v}[n]()
            out.append((list(v), full))
            out.append((tuple(v), full))
            for sep in (' ', ',', ', '):
                if n > 1 or sep == ' ':
                    out.append((sep.join(map(str, v)), full))
            if n == 1:
                out.append((v[0], full))
            if n == 4:
                out.append((dict(zip(('top', 'right', 'bottom', 'left'), v)), full))
    return out


MARGINS = margin_notes()
BADMARGINS = [None, 'a', '1 a', '1;2', object(), b'1', ['a'], {1}]


def gen_pages(tier):
    for i in range(len(PSIZES)):
        for rot in (None, False, True):
            for m in ((0, 3, len(MARGINS) - 1) if tier == 'quick' else range(0, len(MARGINS), 7)):
                for how in ('PDF', 'add', 'doc', 'section', 'setup'):
                    yield (how, i, rot, m)
    for m in range(len(MARGINS)):
        for how in ('PDF', 'add', 'doc', 'section', 'setup') if tier != 'quick' or m % 3 == 0 else ('PDF', 'doc'):
            yield (how, 12, None, m)
    for i in range(len(BADSIZES)):
        yield ('badsize', i, None, 0)
    for i in range(len(BADMARGINS)):
        yield ('badmargin', i, None, 0)


def run_pages(case, r):
    how, i, rot, m = case
    r.trans += 1
    if how.startswith('bad'):
        v = BADSIZES[i] if how == 'badsize' else BADMARGINS[i]
        for f in ((lambda: PDF(page_size=v)), (lambda: build({'style': {'page_size': v}, 'sections': [{'content': ['a']}]}))) if how == 'badsize' else (
                (lambda: PDF(margin=v)), (lambda: parse_margin(v))):
            if how == 'badsize' and v is None:
                continue
            if how == 'badmargin' and v == ['a']:
                continue
            if how == 'badmargin' and v is None:
                f = (lambda: parse_margin(None))
            try:
                p = f()
                if how == 'badsize' and isinstance(v, (list, tuple)):
                    p.add_page()
            except Exception:  # noqa
                continue
            r.fail('accepted', '%s %r accepted' % (how[3:], v))
        return
    note, (w, h) = PSIZES[i]
    mnote, (mt, mr, mb, ml) = MARGINS[m]
    if rot:
        w, h = h, w
    x = lambda: T('xx', s=8)      # noqa
    if how in ('PDF', 'add', 'setup'):
        if how == 'PDF':
            pdf = PDF(page_size=note, rotate_page=bool(rot), margin=mnote)
            pdf.add_page()
        elif how == 'add':
            pdf = PDF()
            pdf.add_page(page_size=note, rotate_page=rot, margin=mnote)
        else:
            pdf = PDF()
            pdf.setup_page(page_size=note, rotate_page=rot, margin=mnote)
            pdf.add_page()
        pdf.text(dict(x(), style={'s': 8, 'bg': 0.5, 'f': 'Courier'}), text_align='r')
        pdf.table([['a']])
        d = Doc(output(pdf))
    else:
        st = {'page_size': note, 'margin': mnote}
        if rot is not None:
            st['rotate_page'] = rot
        body = [{'.': 'xx', 'style': {'s': 8, 'f': 'Courier', 'text_align': 'r'}}, {'table': [['a']]}]
        d = view({'style': st, 'sections': [{'content': body}]} if how == 'doc' else {'sections': [{'style': st, 'content': body}]})
    p = d.pages[0]
    r.expect(abs(p.width - w) < 0.01 and abs(p.height - h) < 0.01, 'page-size', lambda: '%r rotated %s: %s x %s, expected %s x %s' % (note, rot, p.width, p.height, w, h))
    t = [t for t in p.texts if 'x' in t.text]
    if not r.expect(len(t) == 1, 'text', lambda: str([t.text for t in p.texts])):
        return
    t = t[0]
    right = t.chars[-1][2]
    r.expect(abs(right - (w - mr)) < 0.03, 'margin-right', lambda: 'margin %r: text ends at %s, expected %s' % (mnote, right, w - mr))
    r.expect(abs(t.y - (h - mt - 1.1 - 8)) < 0.03, 'margin-top', lambda: 'margin %r: text at %s, expected %s' % (mnote, t.y, h - mt - 9.1))
    xs = [q for ln in p.lines for q in (ln[0], ln[2])]
    r.expect(xs and abs(min(xs) - ml) < 0.28 and abs(max(xs) - (w - mr)) < 0.28, 'margin-left', lambda: 'margin %r: table from %s to %s, expected %s to %s' % (mnote, min(xs), max(xs), ml, w - mr))
    r.compared += 1
    r.state((how, i, rot, m))


# the bottom margin decides where the pages break
def gen_bottom(tier):
    for m in range(0, len(MARGINS), 3 if tier == 'quick' else 1):
        yield ('doc', m)
        yield ('pdf', m)


def run_bottom(case, r):
    how, m = case
    note, (mt, mr, mb, ml) = MARGINS[m]
    H = 200
    text = '\n'.join('x' for _ in range(40))
    if how == 'pdf':
        pdf = PDF(page_size=(200, H), margin=note, font_size=8)
        pdf.add_page()
        pdf.text(text)
        d = Doc(output(pdf))
    else:
        d = view({'style': {'page_size': (200, H), 'margin': note, 's': 8}, 'sections': [{'content': [text]}]})
    ys = [t.y for p in d.pages[:-1] for t in p.texts if 'x' in t.text]
    low = min(ys)
    r.expect(low >= mb - 0.03, 'margin-bottom', lambda: 'margin %r: text at %s, below %s' % (note, low, mb))
    r.expect(low - 1.1 * 9.1 - 3 < mb, 'margin-bottom', lambda: 'margin %r: last text at %s, one more line fits over %s' % (note, low, mb))
    r.trans += 1
    r.compared += 1
    r.state((how, m, round(low, 2)))


# ---- style strings --------------------------------------------------------------------------

ATTRS = {
    'b': [('b', {'b': True}), ('b:1', {'b': True}), ('b:0', {'b': False})],
    'i': [('i', {'i': True}), ('i:1', {'i': True}), ('i:0', {'i': False})],
    'u': [('u', {'u': True}), ('u:1', {'u': True}), ('u:0', {'u': False})],
    'f': [('f:Times', {'f': 'Times'}), ('f:Courier', {'f': 'Courier'})],
    's': [('s:12', {'s': 12}), ('s:7.5', {'s': 7.5}), ('s: 12.0', {'s': 12})],
    'c': [('c:red', {'c': 'red'}), ('c:0.5', {'c': 0.5}), ('c:#0f8', {'c': '#0f8'}), ('c: .1 .2 .3', {'c': [.1, .2, .3]})],
    'bg': [('bg:blue', {'bg': 'blue'}), ('bg:0.9', {'bg': 0.9}), ('bg:', {'bg': None})],
    'r': [('r:0.5', {'r': 0.5}), ('r:-0.25', {'r': -0.25})],
}
BADSTYLES = ['x', 'b:2', 'b:', 's', 's:a', 'r:a', 'f:Nope', 'f', 'c', 'x:1', 'b:1:0', 's:1:2', 'bold', 'c:nope', 'bg:#12', 'b;;x', 'B', 'b,i', 'r', 'bg', 'c:1 2', 'b i']
SEPS = [';', '; ', ' ;', ';;', ' ; ']
WHERE = ['par', 'part', 'inner', 'cell', 'box', 'group', 'pdf', 'foot']


def combos(n):
    names = sorted(ATTRS)
    for k in range(1, n + 1):
        for ns in itertools.permutations(names, k):
            yield ns


def gen_styles(tier):
    for ns in combos(2):
        for vs in itertools.product(*[range(len(ATTRS[x])) for x in ns]):
            for sep in range(len(SEPS)) if len(ns) > 1 else (0,):
                yield ('eq', ns, vs, sep, (sum(vs) + sep) % len(WHERE))
    for x in sorted(ATTRS):
        for v in range(len(ATTRS[x])):
            for wh in range(len(WHERE)):
                yield ('eq', (x,), (v,), 0, wh)
    for ns in itertools.permutations(sorted(ATTRS), 3):
        if tier == 'quick' and ns != tuple(sorted(ns)) and ns[0] < ns[1]:
            continue
        yield ('eq', ns, (0, 0, 0), 0, len(ns[0] + ns[2]) % len(WHERE))
        if tier != 'quick':
            yield ('eq', ns, (1, 1, 1), 1, 0)
    yield ('eq', tuple(sorted(ATTRS)), (0,) * 8, 0, 0)
    yield ('eq', tuple(sorted(ATTRS, reverse=True)), (0,) * 8, 2, 1)
    for x in sorted(ATTRS):      # the style key wins over the string, the last value over the first
        n = len(ATTRS[x])
        for a in range(n):
            for b in range(n):
                yield ('wins', x, a, b, 0)
                yield ('last', x, a, b, 0)
    for s in BADSTYLES:
        for wh in range(len(WHERE)):
            yield ('bad', s, None, None, wh)
    yield ('empty', None, None, None, 0)


def used(where, el):
    """a document with the styled element el (a dict with the text) at where"""
    def doc(c):
        return view({'style': {'s': 9, 'page_size': (200, 200), 'margin': 20}, 'formats': FMT, 'sections': [{'content': c}]})
    if where == 'par':
        return doc([el, 'z'])
    if where == 'part':
        return doc([['a ', el, ' z']])
    if where == 'inner':
        return doc([['a ', {'.': [el, ' q'], 'style': {'i': True}}, ' z']])
    if where == 'cell':
        return doc([{'table': [[el, 'z']]}])
    if where == 'box':
        return doc([{'content': ['q', el]}])
    if where == 'group':
        return doc([{'group': [el, 'z']}])
    if where == 'foot':
        return doc([['a', {'footnote': el}]])
    pdf = PDF(page_size=(200, 200), margin=20, font_size=9)
    pdf.formats.update(FMT)
    pdf.add_page()
    pdf.text(el)
    return Doc(output(pdf))


FMT = {}


def run_styles(case, r):
    kind, ns, vs, sep, wh = case
    where = WHERE[wh]
    r.trans += 1
    FMT.clear()
    if kind == 'bad':
        for f in ((lambda: used(where, {'.' + ns: 'word'})), (lambda: parse_style_str(ns, PDFFonts()))):
            try:
                f()
            except Exception:  # noqa
                continue
            r.fail('style-accepted', 'style string %r accepted' % ns)
        return
    if kind == 'empty':
        a = used('par', {'.': 'word'})
        for s in ('.;', '.;;'):
            r.expect(doc_digest(used('par', {s: 'word'})) == doc_digest(a), 'style-empty', s)
        return
    if kind in ('wins', 'last'):
        sa, da = ATTRS[ns][vs]
        sb, db = ATTRS[ns][sep]
        want = used('par', {'.': 'word', 'style': db})
        got = used('par', {'.' + sa: 'word', 'style': db} if kind == 'wins' else {'.%s;%s' % (sa, sb): 'word'})
        r.expect(doc_digest(got) == doc_digest(want), 'style-' + kind, lambda: '%r then %r: %s, expected %s' % (sa, sb, doc_digest(got), doc_digest(want)))
        r.compared += 1
        return
    s = SEPS[sep].join(ATTRS[n][v][0] for n, v in zip(ns, vs))
    st = {}
    for n, v in zip(ns, vs):
        st.update(ATTRS[n][v][1])
    want = used(where, {'.': 'word', 'style': dict(st)})
    got = used(where, {'.' + s: 'word'})
    r.expect(doc_digest(got) == doc_digest(want), 'style-string', lambda: '%s %r: %s\n%s: %s' % (where, s, doc_digest(got), st, doc_digest(want)))
    FMT['named'] = dict(st)
    got = used(where, {'.': 'word', 'style': 'named'})
    r.expect(doc_digest(got) == doc_digest(want), 'style-named', lambda: '%s named %s: %s, expected %s' % (where, st, doc_digest(got), doc_digest(want)))
    # what is painted
    t = [t for t in want.pages[0].texts if 'word' in t.text]
    if where not in ('inner', 'foot') and r.expect(len(t) == 1, 'style-text', lambda: str([t.text for t in want.pages[0].texts])):
        t = t[0]
        b, i = st.get('b', False), st.get('i', False)
        fam = st.get('f', 'Helvetica')
        name = {'Times': ['Times-Roman', 'Times-Bold', 'Times-Italic', 'Times-BoldItalic'], 'Courier': ['Courier', 'Courier-Bold', 'Courier-Oblique', 'Courier-BoldOblique'],
                'Helvetica': ['Helvetica', 'Helvetica-Bold', 'Helvetica-Oblique', 'Helvetica-BoldOblique']}[fam][b + 2 * i]
        r.expect(t.font == name, 'style-font', lambda: '%s shown in %s, expected %s' % (st, t.font, name))
        size = st.get('s', 9)
        r.expect(near(t.size, size if 'r' not in st else t.size), 'style-size', lambda: '%s shown with size %s' % (st, t.size))
    r.compared += 1
    r.state((ns, vs, where))


# ---- ranges ------------------------------------------------------------------------------

def ref_ranges(s):
    """-> predicate, or None if malformed, or 'any'"""
    out = []
    anyv = False
    for part in s.split(','):
        p = part.split(':')
        if len(p) > 3:
            return None
        v = []
        for x in p:
            x = x.strip()
            if x and not re.match(r'-?\d+$', x):
                return None
            v.append(int(x) if x else None)
        if len(v) == 1:
            if v[0] is None:
                return None
            out.append(lambda n, a=v[0]: n == a)
            continue
        if len(v) == 3 and v[2] is not None and v[2] == 0:
            return None
        if any(x is not None and x < 0 for x in v):
            anyv = True
            continue
        a, b, st = (v + [None])[:3]
        a = 0 if a is None else a
        st = 1 if st is None else st
        out.append(lambda n, a=a, b=b, st=st: n >= a and (b is None or n < b) and (n - a) % st == 0)
    return 'any' if anyv else (lambda n: any(f(n) for f in out))


def gen_ranges(tier):
    alpha = '0123:, -a'
    for a in alpha:
        for b in alpha:
            yield (a + b, 5 if tier == 'quick' else 6)
    yield ('', 1)


def run_ranges(case, r):
    pre, n = case
    for k in range(0, max(0, n - len(pre)) + 1):
        for t in itertools.product('0123:, -a' if n < 6 else '012:,- a', repeat=k):
            check_range(pre + ''.join(t), r)
    if pre == '00':
        for s in ('12:', '10:20:3', ' 5 : 9 ', '7,9,11:', '1:100:10,3', ':', '::', '::4', ':15:', '3:3', '9:4', '100', '30:,5', '1:2:3:4', '1.5', '1:a', '1 2', '+3', ','):
            check_range(s, r)
    r.state(case)


def check_range(s, r):
    want = ref_ranges(s)
    r.trans += 1
    try:
        got = parse_range_string(s)
    except Exception:  # noqa
        got = None
    if want == 'any' or s.strip().startswith('+'):
        return
    if want is None:
        r.expect(got is None, 'range-accepted', lambda: '%r accepted' % s)
        return
    if not r.expect(got is not None, 'range-rejected', lambda: '%r rejected' % s):
        return
    for n in (0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 33, 100, 112, 123, 1000):
        if not r.expect((n in got) == want(n), 'range-value', lambda: '%r: %d is %s, expected %s' % (s, n, n in got, want(n))):
            return
    r.compared += 1


# ---- numerals -------------------------------------------------------------------------------

ROMAN = [(1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')]


def roman(n):
    s = ''
    for v, t in ROMAN:
        while n >= v:
            s += t
            n -= v
    return s


def gen_roman(tier):
    for k in range(40):
        yield ('fn', k)
    for off in (0, 3, 8, 38, 48, 88, 98, 398, 498, 898, 998, 1998, 3990):
        for style in ('roman', 'arabic'):
            for how in ('doc', 'pdf'):
                yield ('pages', (off, style, how))
    yield ('bad', 0)


def run_roman(case, r):
    kind, k = case
    if kind == 'fn':
        for n in range(max(1, k * 100), k * 100 + 100):
            r.expect(to_roman(n) == roman(n), 'roman', lambda: '%d: %r, expected %r' % (n, to_roman(n), roman(n)))
            r.trans += 1
    elif kind == 'bad':
        for n in (0, -1, 4000, 10000, None, 'a'):
            try:
                got = to_roman(n)
            except Exception:  # noqa
                continue
            r.fail('roman-accepted', '%r gives %r' % (n, got))
        return
    else:
        off, style, how = k
        if how == 'doc':
            d = view({'style': {'s': 8, 'page_size': (200, 120), 'margin': 30, 'page_numbering_offset': off, 'page_numbering_style': style},
                      'running_sections': {'f': {'x': 'left', 'y': 5, 'width': 'left', 'height': 20, 'content': []}},
                      'sections': [{'content': [[{'var': '$page'}]], 'style': {'page_numbering_offset': off, 'page_numbering_style': style}} for _ in range(4)]})
        else:
            pdf = PDF(page_size=(200, 120), margin=30, font_size=8, page_numbering_offset=off, page_numbering_style=style)
            for _ in range(4):
                pdf.add_page()
                pdf.text({'var': '$page'})
            d = Doc(output(pdf))
        got = [''.join(t.text for t in p.texts) for p in d.pages]
        want = [(roman if style == 'roman' else str)(i + 1 + off) for i in range(4)]
        r.expect(got == want, 'page-number', lambda: '%s, expected %s' % (got, want))
    r.compared += 1
    r.state(case)


FAMILIES = [
    Family('colors', gen_colors, run_colors, 'all #rgb, 256 values of each channel, 148 names, all strings up to 4 (thorough: 6) of 9 characters, lists of 1 and 3 of 6 values, 1001 grays'),
    Family('places', gen_places, run_places, '19 places, 32 notations of 6 colors (thorough: and 148 names)'),
    Family('pages', gen_pages, run_pages, '14 page sizes, 3 rotations, 1700 margins in all notations of 1 to 4 values, 5 places'),
    Family('bottom', gen_bottom, run_bottom, 'bottom margin of one third of (thorough: all) the margins'),
    Family('styles', gen_styles, run_styles, 'all ordered pairs (and triples with one value) of 8 attributes with all values and 5 separators, 8 places; malformed strings'),
    Family('ranges', gen_ranges, run_ranges, 'all strings up to 5 (thorough: 6) of 9 characters'),
    Family('numerals', gen_roman, run_roman, '1 to 3999; 13 offsets of page numbers'),
]
