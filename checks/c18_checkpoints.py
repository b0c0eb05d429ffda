"""C18: saving, restoring and running again paragraphs, tables and content boxes."""
import itertools

from mc.engine import Family, h8
from mc.util import *
from mc.pdfread import Ref

PROPERTY = 'C18'
EXPLANATION = (
    'Explicit-state exploration of the real layout objects: a state of an object is the list of rectangles it was run in, every state reached is saved, '
    'and all sequences of "run in rectangle k" and "restore the saved state j" operations up to a depth are executed over the same object.  Every run must give '
    'what a new object gives that was only run through the rectangles of the restored state.  A second family runs the objects in translated rectangles.')
ASSUMPTIONS = ['a restored object is marked as not finished, as the documentation and document.py do']

LOREM = 'aa bbb cc dddd e ff ggg hhhh ii jjj kk llll m nn ooo pp qqq rr ss ttt uuu vv ww xxxx yy zz '.split()


def words(n, k=0):
    return ' '.join(LOREM[(i + k) % len(LOREM)] + str(i) for i in range(n))


def img(n=0, h=20):
    return {'image': io.BytesIO(jpeg(100 + n, h)), 'image_name': 'p%d' % n, 'extension': 'jpg'}


# ---- paragraphs ------------------------------------------------------------------

def texts():
    t = {}
    t['plain'] = (lambda: words(60), {})
    t['just'] = (lambda: words(60), {'text_align': 'j', 'indent': 12})
    t['styles'] = (lambda: [words(12), {'.': words(14, 3), 'style': {'s': 11, 'b': True, 'u': True, 'bg': 0.8}}, words(9), {'.c:red;i': words(20, 5)}, words(8)], {'text_align': 'c'})
    t['breaks'] = (lambda: 'one\n\ntwo two\n\n\nthree ' + words(15) + '\nfour\n\n\n\nfive\nsix\nseven\neight\nnine', {})
    t['list'] = (lambda: words(50), {'list_text': '7. ', 'list_style': {'c': 'blue', 'b': True}, 'line_height': 1.4})
    t['links'] = (lambda: [words(5), {'.': words(20), 'label': 'la'}, {'.': words(15, 2), 'ref': 'la'}, ' x ', {'.': words(12), 'uri': 'http://u', 'style': {'r': 0.4}}], {'text_align': 'r'})
    t['vars'] = (lambda: [words(5), {'var': 'v'}, words(20), {'var': 'v'}, {'var': '$page'}, words(20)], {})
    t['sizes'] = (lambda: [{'.': words(3), 'style': {'s': 6 + 5 * (i % 4)}} for i in range(12)], {'text_align': 'j'})
    t['long'] = (lambda: 'ab ' * 5 + 'w' * 40 + ' ' + words(10) + ' ' + 'm' * 30 + words(10), {})
    t['listbreaks'] = (lambda: '\n'.join(words(3 + i % 3, i) for i in range(14)), {'list_text': '7. ', 'list_style': {'c': 'blue'}})
    t['short'] = (lambda: 'one two', {'list_text': '*'})
    t['spaces'] = (lambda: [{'.': 'a  b   c', 'style': {'u': True}}, '   ', {'.': ' d ' * 20, 'style': {'bg': 'red'}}, ' e\n f'], {'text_align': 'j'})
    return t


# ---- tables ------------------------------------------------------------------------

def tables():
    t = {}
    t['rows'] = (lambda: [[words(4 + 3 * i, i), words(9 - i)] for i in range(6)], {})
    t['borders'] = (lambda: [[words(4 + 3 * i, i), words(3), 'x'] for i in range(5)],
                    {'widths': [2, 3, 1], 'borders': [{'pos': 'h0;', 'width': 3}, {'pos': 'v1:;1', 'color': 'red'}, {'pos': 'h::2;', 'style': 'dashed'}],
                     'fills': [{'pos': '::2;', 'color': 'green'}, {'pos': '1;1', 'color': 0.3}]})
    t['rowspan'] = (lambda: [[{'rowspan': 3, '.': words(30)}, words(4)], [None, words(6)], [None, words(5)], [words(3), words(8)]], {'fills': [{'pos': '0:2;', 'color': 0.7}]})
    t['colspan'] = (lambda: [[{'colspan': 2, '.': words(20)}, None, words(6)], [words(7), {'colspan': 2, '.': words(25)}, None], ['a', 'b', words(12)]], {})
    t['both'] = (lambda: [['a', {'rowspan': 2, 'colspan': 2, 'style': {'cell_fill': 0.6}, '.': words(40)}, None], [words(15), None, None], [words(5), 'b', 'c']], {})
    t['nested'] = (lambda: [[words(10), {'table': [[words(8), words(5)], [words(12), 'z'], ['y', words(9)]]}], ['p', words(7)]], {})
    t['box'] = (lambda: [[{'content': [words(8), {'content': [words(12), words(6)], 'cols': {'count': 2}}, words(9)]}, words(5)], [words(5), 'q']], {})
    t['image'] = (lambda: [[img(0, 30), words(20)], [words(3), img(1, 30)], ['x', words(10)]], {})
    t['lists'] = (lambda: [[{'.': words(15), 'style': {'list_text': '- '}}, {'.': [words(5), {'.': words(9), 'style': {'u': True}, 'uri': 'http://x'}]}], ['a', 'b']], {})
    t['listparts'] = (lambda: [[{'.': [{'.' + 'bi'[k % 2]: words(2, k) + ' '} for k in range(14)], 'style': {'list_text': '- '}}, words(12)], ['a', 'b']], {})
    t['listbreaks'] = (lambda: [[{'.': '\n'.join(words(2, i) for i in range(14)), 'style': {'list_text': '- '}}, words(12)], ['a', 'b']], {})
    t['empty'] = (lambda: [[None, ''], ['', words(20)], [None, None], [words(30), '']], {})
    t['deep'] = (lambda: [[{'table': [[{'table': [[words(20)], [words(9)]]}, words(8)], [words(4), words(14)]]}], [words(6)]], {})
    return t


# ---- content boxes -----------------------------------------------------------------

def boxes():
    t = {}
    t['pars'] = (lambda: {'content': [words(12, i) for i in range(5)]}, {})
    t['cols'] = (lambda: {'cols': {'count': 2, 'gap': 10}, 'content': [words(12, i) for i in range(6)]}, {})
    t['cols3'] = (lambda: {'cols': {'count': 3, 'gap': 5}, 'content': [words(9, i) for i in range(7)]}, {})
    t['nested'] = (lambda: {'content': [words(5), {'style': {'margin_left': 10, 's': 9}, 'content': [words(15), {'content': [words(12), words(8)]}, words(10)]}, words(6)]}, {})
    t['nestcols'] = (lambda: {'content': [words(5), {'cols': {'count': 2, 'gap': 10}, 'content': [words(15), words(12), words(10)]}, words(6)]}, {})
    t['colsnest'] = (lambda: {'cols': {'count': 2, 'gap': 10}, 'content': [words(5), {'content': [words(15), words(12), words(10)]}, words(6)]}, {})
    t['colscols'] = (lambda: {'cols': {'count': 2, 'gap': 10}, 'content': [words(5), {'cols': {'count': 2, 'gap': 4}, 'content': [words(6), words(7), words(8)]}, words(6)]}, {})
    t['image'] = (lambda: {'content': [words(8), img(0, 30), words(8, 2), img(1, 20), words(15)]}, {})
    t['place'] = (lambda: {'content': [words(8), dict(img(0, 60), style={'image_place': 'flow'}), words(8, 2), dict(img(1, 40), style={'image_place': 'normal'}), words(15), words(3)]}, {})
    t['album'] = (lambda: {'content': [words(8)] + [img(n, 29) for n in range(7)] + [words(8, 2), words(30)]}, {})
    t['albumcols'] = (lambda: {'cols': {'count': 2, 'gap': 10}, 'content': [words(4)] + [img(n, 60) for n in range(6)] + [{'group': [img(8, 50), 'x']}, {'group': [img(9, 50), 'y']}, words(15)]}, {})
    t['group'] = (lambda: {'content': [words(8), {'group': [words(9), img(0, 20)]}, words(8), {'group': [words(4), words(5)]}, words(9)]}, {})
    t['shrink'] = (lambda: {'content': [words(8), {'group': [dict(img(0, 70), min_height=20), words(5)], 'style': {'shrink': 1}}, words(9), words(9)]}, {})
    t['table'] = (lambda: {'content': [words(5), {'table': [[words(7), words(8)], [words(6), words(14)], ['x', 'y']]}, words(8)]}, {})
    t['tablecols'] = (lambda: {'cols': {'count': 2, 'gap': 10}, 'content': [words(5), {'table': [[words(7)], [words(14)], ['x']]}, words(8)]}, {})
    t['rowspan'] = (lambda: {'content': [{'table': [[{'rowspan': 2, '.': words(25)}, words(8)], [None, words(14)]]}, words(8)]}, {})
    t['list'] = (lambda: {'content': [{'.': words(12, i), 'style': {'list_text': '%d ' % i}} for i in range(4)]}, {})
    t['listparts'] = (lambda: {'content': [{'.': [{'.' + 'bi'[k % 2]: words(2, k) + ' '} for k in range(14)], 'style': {'list_text': '%d ' % i}} for i in range(3)]}, {})
    t['listbreaks'] = (lambda: {'content': [{'.': '\n'.join(words(2 + k, k) for k in range(9)), 'style': {'list_text': '%d ' % i}} for i in range(3)]}, {})
    t['links'] = (lambda: {'content': [{'.': words(12), 'label': 'x'}, {'.': [words(9), {'.': words(9), 'ref': 'x'}]}, {'.': words(9), 'uri': 'http://y'}]}, {})
    t['deepcols'] = (lambda: {'content': [{'content': [words(4), {'cols': {'count': 2, 'gap': 10}, 'content': [words(9), {'content': [words(9), words(9)]}, words(9)]}]}, words(9)]}, {})
    t['boxtable'] = (lambda: {'content': [{'table': [[{'content': [words(9), words(9)]}, words(4)]]}, words(9)]}, {})
    return t


# widths narrow enough that a few runs are needed
RECTS = {
    'text': [(40, 700, 150, 30), (40, 700, 150, 66), (300, 500, 100, 45)],
    'table': [(40, 700, 170, 70), (40, 700, 170, 140), (300, 500, 120, 90)],
    'box': [(40, 700, 150, 60), (40, 700, 150, 110), (300, 500, 120, 80)],
}
ALL = {'text': texts(), 'table': tables(), 'box': boxes()}
STYLE = {'f': 'Helvetica', 's': 8, 'c': 0}


def make(kind, name, pdf):
    content, opts = ALL[kind][name]
    c = content()
    if kind == 'text':
        return pdf._create_text(c, 100, 100, **opts)
    if kind == 'table':
        return pdf._create_table(c, width=100, height=100, **opts)
    return PDFContent(dict(c, style=dict(STYLE, **c.get('style', {}))), pdf.fonts, 0, 0, 100, 100, pdf)


def canon(o, depth=0):
    if isinstance(o, dict):
        return tuple(sorted(((str(k), canon(v, depth + 1)) for k, v in o.items()), key=lambda t: t[0]))
    if isinstance(o, (list, tuple)):
        return tuple(canon(v, depth + 1) for v in o)
    if isinstance(o, (set, frozenset)):
        return tuple(sorted((canon(v, depth + 1) for v in o), key=repr))
    if isinstance(o, float):
        return round(o, 6)
    if o is None or isinstance(o, (int, str, bytes, bool)):
        return o
    if hasattr(o, 'pdf_obj') and hasattr(o, 'width'):
        return ('image', o.width, o.height)
    if hasattr(o, '__dict__') and depth < 12:
        return (type(o).__name__,) + canon({k: v for k, v in vars(o).items() if k in ('color', 'stroke', 'width', 'height')}, depth + 1)
    return type(o).__name__


def outcome(kind, obj, rect):
    """runs obj in rect -> (canonical result, finished)"""
    try:
        res = obj.run(*rect)
    except Exception as e:  # noqa: the same error must come in the same state
        return ('error', type(e).__name__), True
    if kind == 'text':
        res = obj.result
        out = canon(res)
    else:
        out = (canon(obj.parts), canon(obj.lines), canon(obj.fills), round(obj.current_height, 6))
    return (out, bool(obj.finished)), bool(obj.finished)


REFS = {}


def new_pdf():
    pdf = PDF(page_size=(600, 800), margin=20, font_size=8)
    pdf.context['v'] = 'some value'
    pdf.add_page()
    return pdf


def reference(kind, name, path):
    k = (kind, name, path)
    if k not in REFS:
        pdf = new_pdf()
        obj = make(kind, name, pdf)
        out = None
        for i in path:
            out, fin = outcome(kind, obj, RECTS[kind][i])
        REFS[k] = out
    return REFS[k]


def gen(kind):
    def g(tier):
        for name in sorted(ALL[kind]):
            # the first operations are a case, the following ones are explored in it
            for a in range(3):
                for b in range(5):
                    yield (kind, name, a, b, 5 if tier == 'quick' else 6)
    return g


def run(case, r):
    """all continuations of the operations a, b"""
    kind, name, a, b, depth = case
    explore(kind, name, [a], b, depth, r)


def replay_ops(kind, name, ops, r):
    """ops: ('run', k) or ('set', j) with j the index of a previously saved state"""
    pdf = new_pdf()
    obj = make(kind, name, pdf)
    saved = [((), obj.get_state(), False)]
    path, fin = (), False
    for n, (op, k) in enumerate(ops):
        if op == 'run':
            path = path + (k,)
            got, fin = outcome(kind, obj, RECTS[kind][k])
            want = reference(kind, name, path)
            r.trans += 1
            if not r.expect(got == want, 'restored-differs', lambda: '%s %s after %s, rectangles %s: got %s, a new object gives %s' % (
                    kind, name, ops[:n], path, diff(got, want), diff(want, got))):
                return None
            if want[0] == 'error':
                return None
            saved.append((path, obj.get_state(), fin))
        else:
            path, st, fin = saved[k]
            obj.set_state(**st)
            obj.finished = False
            fin = False
    return path, fin, len(saved), [s[2] for s in saved]


def diff(a, b):
    return repr(a)[:600]


def choices(state):
    path, fin, n, fins = state
    c = []
    if not fin:
        c += [('run', k) for k in range(3)]
    c += [('set', j) for j in range(n) if not fins[j]]
    return c


def explore(kind, name, first, b, depth, r):
    ops = [('run', first[0])]
    st = replay_ops(kind, name, ops, r)
    if st is None:
        return
    cs = choices(st)
    if b >= len(cs):
        return
    stack = [ops + [cs[b]]]
    while stack:
        ops = stack.pop()
        # two restores in a row or a restore at the end decide nothing
        if ops[-1][0] == 'set' and len(ops) >= depth:
            continue
        st = replay_ops(kind, name, ops, r)
        if st is None:
            return
        r.compared += 1
        r.state(h8((kind, name, st[0])))
        if len(ops) < depth:
            for c in choices(st):
                if c[0] == 'set' and ops[-1][0] == 'set':
                    continue
                if c[0] == 'run' and len(st[0]) >= 5:
                    continue
                stack.append(ops + [c])


# ---- translated rectangles ------------------------------------------------------------

def painted(kind, name, path, dx, dy):
    """the runs of path, painted in a page each, rectangles moved by dx, dy"""
    pdf = PDF(page_size=(900, 1200), margin=20, font_size=8)
    pdf.context['v'] = 'some value'
    pdf.add_page()
    obj = make(kind, name, pdf)
    hs = []
    for n, k in enumerate(path):
        if n:
            pdf.add_page()
        x, y, w, h = RECTS[kind][k]
        try:
            obj.run(x + dx, y + dy, w, h)
        except Exception as e:  # noqa
            hs.append(type(e).__name__)
            break
        if kind == 'text':
            pdf._add_parts([dict(obj.result, type='paragraph')])
        else:
            pdf._add_graphics([*obj.fills, *obj.lines])
            pdf._add_parts(obj.parts)
            hs.append(obj.current_height)
        if obj.finished:
            break
    out = []
    for p in Doc(output(pdf)).pages:
        out.append([sorted((t.text, t.font, t.size, t.color, t.x - dx, t.y - dy, t.tw) for t in p.texts),
                    sorted((str(q[4]), q[0] - dx, q[1] - dy, q[2], q[3]) for q in p.rects),
                    sorted((str(q[5:8]), q[0] - dx, q[1] - dy, q[2] - dx, q[3] - dy, q[4]) for q in p.lines),
                    sorted((q[4], q[0] - dx, q[1] - dy, q[2], q[3]) for q in p.images),
                    sorted(tuple(a['Rect'][i] - (dx, dy)[i % 2] for i in range(4)) for a in p.annots)])
    return out, hs


def close(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 0.02
    return a == b


def gen_moved(tier):
    for kind in sorted(ALL):
        for name in sorted(ALL[kind]):
            for path in itertools.product(range(3), repeat=3):
                for d in ((128, 0), (0, 64), (64, -128)) if tier != 'quick' else ((64, -128),):
                    yield (kind, name, path, d)


def run_moved(case, r):
    kind, name, path, (dx, dy) = case
    a, ha = painted(kind, name, path, 0, 0)
    b, hb = painted(kind, name, path, dx, dy)
    r.expect(close(ha, hb), 'moved-height', lambda: '%s, moved: %s' % (ha, hb))
    for n, (p, q) in enumerate(zip(a, b)):
        for what, u, v in zip(('text', 'rectangles', 'lines', 'images', 'links'), p, q):
            if not r.expect(close(u, v), 'moved-' + what, lambda: 'run %d: %s\n moved by %s: %s' % (n, [x for x in u if not any(close(x, y) for y in v)][:4], (dx, dy), [x for x in v if not any(close(x, y) for y in u)][:4])):
                return
    r.expect(len(a) == len(b), 'moved-runs', lambda: '%d runs, moved %d' % (len(a), len(b)))
    r.trans += len(a)
    r.compared += 1
    r.state((kind, name, path, len(a)))


# ---- rectangles where nothing fits -------------------------------------------------------

WAIT = {
    'fills': ('table', lambda: [[{'.': words(2), 'style': {'cell_fill': 'red'}}, img(3, 60)], [img(4, 60), {'.': words(20), 'style': {'cell_fill': 'blue'}}]], {}),
    'fill rules': ('table', lambda: [[words(3), img(3, 60)], [img(4, 60), words(20)]], {'fills': [{'pos': '::2;', 'color': 'green'}], 'borders': [{'pos': 'h0;', 'width': 3}, {'pos': 'v1;', 'color': 'red'}]}),
    'colspan': ('table', lambda: [[{'colspan': 2, '.': words(3), 'style': {'cell_fill': 'red'}}, None, img(3, 60)], [words(3), 'a', {'rowspan': 2, 'image': img(4, 60)['image'], 'image_name': 'p4', 'extension': 'jpg'}], ['b', 'c', None]], {}),
    'rowspan': ('table', lambda: [[{'rowspan': 2, '.': words(3), 'style': {'cell_fill': 'red'}}, img(3, 60)], [None, words(9)], ['x', 'y']], {}),
    'rowspan2': ('table', lambda: [['a', {'rowspan': 3, '.': words(12), 'style': {'cell_fill': 'red'}}], [img(3, 60), None], ['b', None]], {}),
    'empty': ('table', lambda: [[{'content': []}, img(3, 60)], [None, words(15)]], {'fills': [{'pos': ':;', 'color': 'green'}]}),
    'tables': ('table', lambda: [[{'table': [[words(3), img(3, 100)], ['a', 'b']], 'style': {'cell_fill': 'red'}}, words(3)]], {}),
    'box': ('box', lambda: {'content': [words(6), {'table': [[words(2), img(3, 70)], ['a', 'b']], 'fills': [{'pos': ':;', 'color': 'green'}]}, words(6)]}, {}),
}


def useless(kind, name, path, at, extra):
    pdf = PDF(page_size=(900, 1200), margin=20, font_size=8)
    pdf.context['v'] = 'some value'
    pdf.add_page()
    if kind == 'wait':
        kind, f, opts = WAIT[name]
        obj = pdf._create_table(f(), width=100, height=100, **opts) if kind == 'table' else PDFContent(dict(f(), style=STYLE), pdf.fonts, 0, 0, 100, 100, pdf)
    else:
        obj = make(kind, name, pdf)
    rects = [RECTS[kind][k] + (0,) for k in path] + [RECTS[kind][1] + (0,)] * 12
    rects[at:at] = [(60, 650, 120, h, 1) for h in extra]
    hs = []
    blank = []
    for n, (x, y, w, h, u) in enumerate(rects):
        if n:
            pdf.add_page()
        obj.run(x, y, w, h)
        if kind == 'text':
            pdf._add_parts([dict(obj.result, type='paragraph')])
        else:
            pdf._add_graphics([*obj.fills, *obj.lines])
            pdf._add_parts(obj.parts)
        (blank if u else hs).append(round(obj.current_height, 4))
        if obj.finished:
            break
    out, empty = [], []
    d = Doc(output(pdf))
    for p, q in zip(d.pages, rects):
        v = [[(t.text, t.font, t.size, t.color, t.x, t.y, t.tw) for t in p.texts],
             sorted((str(q[4]), q[0], q[1], q[2], q[3]) for q in p.rects),
             sorted((str(q[5:8]), q[0], q[1], q[2], q[3], q[4]) for q in p.lines),
             [(d.pdf.get(Ref(q[4], 0)).dict['Width'], q[0], q[1], q[2], q[3]) for q in p.images],
             sorted(tuple(a['Rect']) for a in p.annots)]
        if q[4]:
            empty.append(any(v[k] for k in (1, 2, 3, 4)) or any(t[0].strip() for t in v[0]))
        else:
            out.append(v)
    return out, hs, obj.finished, empty


def gen_useless(tier):
    extras = [(4,), (8.5,), (2, 2), (8, 3, 1)] if tier != 'quick' else [(8,), (3, 3)]
    for kind in sorted(ALL) + ['wait']:
        for name in sorted(set(ALL[kind]) - {'breaks', 'vars'} if kind != 'wait' else WAIT):     # empty lines fit anywhere, page numbers change
            for path in itertools.product(range(3), repeat=3):
                for at in range(4):
                    for e in extras:
                        yield (kind, name, path, at, e)


def run_useless(case, r):
    kind, name, path, at, extra = case
    a, ha, fa, _ = useless(kind, name, path, 9999, ())
    if at >= len(a):
        return
    b, hb, fb, empty = useless(kind, name, path, at, extra)
    r.trans += len(a) + len(b)
    r.expect(fa == fb and len(a) == len(b), 'useless-runs', lambda: '%d runs, %d without the rectangles where nothing fits' % (len(b), len(a)))
    r.expect(not any(empty), 'useless-painted', lambda: 'something is painted where nothing fits')
    for n, (p, q) in enumerate(zip(a, b)):
        for what, u, v in zip(('text', 'rectangles', 'lines', 'images', 'links'), p, q):
            if not r.expect(close(u, v), 'useless-' + what, lambda: 'run %d: %s\n with rectangles where nothing fits before: %s' % (n, [x for x in u if not any(close(x, y) for y in v)][:4], [x for x in v if not any(close(x, y) for y in u)][:4])):
                return
    if kind != 'wait':
        r.expect(close(ha, hb), 'useless-height', lambda: '%s, with rectangles where nothing fits: %s' % (ha, hb))
    r.compared += 1
    r.state((kind, name, path, at, len(a)))


OPS = '%d structures, 3 rectangles, all sequences of up to 5 (thorough: 6) run and restore operations'
FAMILIES = [
    Family('paragraphs', gen('text'), run, OPS % len(ALL['text'])),
    Family('tables', gen('table'), run, OPS % len(ALL['table'])),
    Family('boxes', gen('box'), run, OPS % len(ALL['box'])),
    Family('moved', gen_moved, run_moved, 'all structures, all sequences of 3 rectangles out of 3, moved by 1 (thorough: 3) offsets'),
    Family('useless', gen_useless, run_useless, 'all structures and 8 more, all sequences of 3 rectangles out of 3, one to three rectangles where nothing fits at every place among them'),
]
