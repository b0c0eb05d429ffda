"""C17: a document depends only on its description."""
import copy as cp
import io
import itertools
import os
import tempfile

from mc.engine import Family
from mc.util import *
from mc import pool, ttf, isolate
from mc.isolate import Scheduler
from pdfme.document import PDFDocument
from pdfme.fonts import PDFFont
import pdfme

PROPERTY = 'C17'
EXPLANATION = (
    'Histories: every case runs in a process that has built nothing before; all pairs and triples of descriptions, all repetitions of a description, '
    'all interleavings of the steps of two documents.  Schedules: two documents built in two threads under a controlled scheduler that owns every call '
    '(or line) of the package, for every single preemption point and for pairs of them.  Each document is compared with the one built alone in a new process.')
ASSUMPTIONS = ['the descriptions are those of a pool that uses every feature', 'the file identifier and the names of unnamed outline labels are random']
PKG = os.path.dirname(os.path.abspath(pdfme.__file__))
NAMES = sorted(pool.ALL)


def font_bytes():
    if not FB:
        import fontTools.ttLib.tables  # noqa: loaded once, not in every child
        for fam, mode, w in (('Synth', 'n', 500), ('Synth', 'b', 650), ('Other', 'n', 300)):
            FB[fam, mode] = ttf.make([(ord(c), w + 10 * i) for i, c in enumerate('abc *')], name=fam, style='Bold' if mode == 'b' else 'Regular')
    return FB


FB = {}


def fonts():
    d = tempfile.mkdtemp(prefix='c17')
    for (fam, mode), data in font_bytes().items():
        p = os.path.join(d, fam + mode + '.ttf')
        with open(p, 'wb') as f:
            f.write(data)
        PDFFont.register(font_family=fam, mode=mode, path=p)
    return d


def isolated(fn):
    font_bytes()
    return isolate.isolated(fn)


def needs_fonts(names):
    return any(n.startswith('font') for n in names)


class Fonts:
    def __init__(self, names):
        self.on = needs_fonts(names)

    def __enter__(self):
        self.d = fonts() if self.on else None

    def __exit__(self, *a):
        if self.d:
            for f in os.listdir(self.d):
                os.remove(os.path.join(self.d, f))
            os.rmdir(self.d)


def dig(data):
    return full_digest(Doc(data))


def alone(name):
    def go():
        with Fonts([name]):
            return dig(build(pool.ALL[name](), dict(pool.CONTEXT)))
    return isolated(go)


REF = {}


def ref(name, r):
    if name not in REF:
        REF[name] = alone(name)
    a = REF[name]
    if a[0] != '=':
        r.fail('build-failed', '%s alone: %s %s' % (name, a[1], a[2]))
        return None
    return a[1]


def differ(a, b):
    parts = ('pages', 'outlines', 'page mode', 'destinations', 'links', 'images')
    for p, x, y in zip(parts, a, b):
        if x != y:
            if p == 'pages':
                if len(x) != len(y):
                    return '%d pages instead of %d' % (len(x), len(y))
                for i, (u, v) in enumerate(zip(x, y)):
                    if u != v:
                        for f, s, t in zip(('width', 'height', 'texts', 'rects', 'lines', 'images', 'annotations'), u, v):
                            if s != t:
                                if isinstance(s, tuple):
                                    k = next((k for k, (m, n) in enumerate(zip(s, t)) if m != n), min(len(s), len(t)))
                                    return 'page %d: %s %s instead of %s' % (i, f, s[k:k + 2], t[k:k + 2])
                                return 'page %d: %s %s instead of %s' % (i, f, s, t)
            return '%s %s instead of %s' % (p, x, y)
    return None


def compare(r, got, names, sig, what):
    """got: ('=', [digest...]) of the documents `names`"""
    if got[0] != '=':
        r.fail(sig + '-failed', '%s: %s\n%s' % (what, got[1], got[2]))
        return
    for i, (g, n) in enumerate(zip(got[1], names)):
        w = ref(n, r)
        if w is None:
            return
        e = differ(g, w)
        r.trans += 1
        if e is not None:
            r.fail(sig, '%s: document %d (%s) shows %s' % (what, i, n, e))
            return
        r.compared += 1
    r.state((tuple(names), h8b(repr(got[1]).encode('utf-8', 'replace'))))


# ---- histories of builds -----------------------------------------------------------

def gen_orders(tier):
    for n in NAMES:
        yield (n,)
    for p in itertools.product(NAMES, repeat=2):
        yield p
    three = NAMES if tier != 'quick' else ['foot', 'run', 'formats', 'formats2', 'image', 'font', 'sizes']
    for p in itertools.product(three, repeat=3):
        yield p
    yield tuple(NAMES) + tuple(reversed(NAMES))


def run_orders(case, r):
    def go():
        with Fonts(case):
            return [dig(build(pool.ALL[n](), dict(pool.CONTEXT))) for n in case]
    compare(r, isolated(go), case, 'depends-on-history', 'one after another')


# ---- the same description again -------------------------------------------------------

def gen_again(tier):
    for n in NAMES:
        for k in (2, 3, 5):
            yield (n, k, 'same')
        yield (n, 2, 'copy')
        for v in itertools.product(range(len(LAYOUTS)), repeat=2 if tier == 'quick' else 3):
            yield (n, v, 'layouts')
    for a, b in itertools.product(NAMES, repeat=2):
        yield (a, b, 'around')
        yield (a, b, 'merged')


# other page layouts and defaults for the same sections
LAYOUTS = [{}, {'page_size': (340, 420), 'margin': 30}, {'page_size': 'a4', 's': 11, 'c': 'blue', 'text_align': 'c', 'line_height': 1.6}]
LAYREF = {}


def laid_out(d, v):
    st = d.get('style')
    if isinstance(st, str):
        st = {}
    return dict(d, style=dict(st or {}, **LAYOUTS[v]))


def run_again(case, r):
    a, b, kind = case
    if kind == 'same':
        def go():
            with Fonts([a]):
                d = pool.ALL[a]()
                c = dict(pool.CONTEXT)
                out = [dig(build(d, c)) for _ in range(b)]
                return out, c == pool.CONTEXT
        got = isolated(go)
        if got[0] == '=':
            r.expect(got[1][1], 'context-changed', a)
            got = ('=', got[1][0])
        compare(r, got, [a] * b, 'build-again', 'built %d times' % b)
    elif kind == 'copy':
        # a deep copy of a description that was used already
        def go():
            with Fonts([a]):
                d = pool.ALL[a]()
                out = [dig(build(d, dict(pool.CONTEXT)))]
                out.append(dig(build(cp.deepcopy(d), dict(pool.CONTEXT))))
                return out
        compare(r, isolated(go), [a] * 2, 'build-again', 'copied after building')
    elif kind == 'layouts':
        # the same sections in documents with other pages and defaults
        def go():
            with Fonts([a]):
                d = pool.ALL[a]()
                return [dig(build(laid_out(d, v), dict(pool.CONTEXT))) for v in b]

        def one(v):
            with Fonts([a]):
                return dig(build(laid_out(pool.ALL[a](), v), dict(pool.CONTEXT)))
        got = isolated(go)
        if got[0] != '=':
            r.fail('build-failed', '%s %s: %s' % (a, got[1], got[2]))
            return
        for v, g in zip(b, got[1]):
            if (a, v) not in LAYREF:
                LAYREF[a, v] = isolated(lambda: one(v))
            e = differ(g, LAYREF[a, v][1])
            r.trans += 1
            r.expect(e is None, 'other-layouts', lambda: '%s: layouts %s: %s' % (a, b, e))
            r.compared += 1
        r.state(case)
    elif kind == 'around':
        def go():
            with Fonts([a, b]):
                d = pool.ALL[a]()
                return [dig(build(d, dict(pool.CONTEXT))), dig(build(pool.ALL[b](), dict(pool.CONTEXT))), dig(build(d, dict(pool.CONTEXT)))]
        compare(r, isolated(go), [a, b, a], 'build-again', 'built again after another')
    else:
        # two documents that share the elements of their sections, style and formats objects of the first
        def go():
            with Fonts([a, b]):
                d, e = pool.ALL[a](), pool.ALL[b]()
                x = dict(d)
                y = dict(d)
                y['sections'] = list(d['sections'])
                return [dig(build(x, dict(pool.CONTEXT))), dig(build(e, dict(pool.CONTEXT))), dig(build(y, dict(pool.CONTEXT)))]
        compare(r, isolated(go), [a, b, a], 'build-again', 'shared parts')


# ---- interleaved steps ------------------------------------------------------------------

def interleavings(n, m):
    for pos in itertools.combinations(range(n + m), n):
        s = [1] * (n + m)
        for p in pos:
            s[p] = 0
        yield tuple(s)


INTER = ['foot', 'run', 'formats', 'formats2', 'image', 'image2', 'font', 'font2', 'nav', 'table', 'cols', 'sizes', 'shared', 'var']


def gen_steps(tier):
    names = INTER if tier == 'quick' else NAMES
    for a, b in itertools.combinations_with_replacement(names, 2):
        for s in interleavings(3, 3):
            yield (a, b, s)


def run_steps(case, r):
    a, b, s = case

    def go():
        with Fonts([a, b]):
            def doc(n):
                d = PDFDocument(pool.ALL[n](), dict(pool.CONTEXT))
                yield
                d.run()
                yield
                o = io.BytesIO()
                d.output(o)
                res.append((n, dig(o.getvalue())))
                yield
            res = []
            gs = [doc(a), doc(b)]
            done = [[], []]
            for w in s:
                k = len(res)
                next(gs[w])
                if len(res) > k:
                    done[w] = [res[-1][1]]
            return [done[0][0], done[1][0]]
    compare(r, isolated(go), [a, b], 'interleaved', 'steps %s' % (s,))


# low level operations of two PDF objects

LOW = {
    'A': [('page', (200, 200)), ('text', {'.b': ['bold ', {'.': 'ref', 'label': 'L'}]}), ('image', 1), ('table', [['a', 'b']]), ('page', None), ('box', ['x ' * 20, 'y'])],
    'B': [('page', None), ('image', 2), ('text', {'.f:Times': [{'.': 'other', 'label': 'L', 'outline': {}}, {'.': 'go', 'ref': 'L'}]}), ('head', None), ('page', (150, 300)), ('text', 'z')],
    'C': [('set', None), ('page', None), ('text', {'.c:red': 'C'}), ('var', None), ('text', {'.': [{'var': 'v'}, {'var': '$page'}]}), ('box', ['w ' * 150])],
    'D': [('fmt', None), ('page', None), ('text', {'.': 'D', 'style': 'f'}), ('table', [['c', {'.': 'd', 'style': 'f'}]]), ('page', None), ('text', {'.': 'e', 'uri': 'http://x'})],
    'E': [('page', None), ('content', {'cols': {'count': 2}, 'content': ['p ' * 12, {'cols': {'count': 2}, 'content': ['q ' * 4] * 3}, {'image': 3}, 'r']}),
          ('rows', {'content': [['a ' * 9, 'b'], [{'.': 'c', 'style': {'cell_fill': 'red'}}, {'cols': {'count': 2}, 'content': ['s'] * 4}]], 'widths': [1, 2],
                    'borders': [{'pos': 'h0,1;:', 'color': 'green', 'width': 2}], 'fills': [{'pos': '0;1', 'color': 'blue'}], 'style': {'cell_margin': 3}}),
          ('content', {'style': {'margin_left': 20}, 'content': [{'table': [['t', 'u']], 'widths': [3, 1]}, {'group': ['g ' * 8, {'image': 4}], 'shrink': True}]}),
          ('running', {'content': [{'.': ['f ', {'var': '$page'}], 'style': {'text_align': 'r'}}, {'cols': {'count': 2}, 'content': ['m', 'n']}]})],
}


def pictures(v):
    """puts the images of a description, in place and only once"""
    for c in v['content']:
        if isinstance(c, dict):
            if isinstance(c.get('image'), int):
                c.update(image=io.BytesIO(jpeg(100 + c['image'], 50)), extension='jpg', image_name='pic%d' % c['image'])
            for k in ('content', 'group'):
                if k in c:
                    pictures({'content': c[k]})
    return v


def low(pdf, op):
    k, v = op
    if k == 'page':
        pdf.add_page(v) if v else pdf.add_page()
    elif k == 'text':
        pdf.text(v)
    elif k == 'image':
        pdf.image(io.BytesIO(jpeg(100 + v, 50)), 'jpg', 'pic', width=30 * v)
    elif k == 'table':
        pdf.table(v, style={'cell_margin': 2})
    elif k == 'box':
        pdf.content({'content': v, 'cols': {'count': 2}})
    elif k == 'content':
        pdf.content(pictures(v))
    elif k == 'rows':
        pdf.table(v['content'], v['widths'], v['style'], v['borders'], v['fills'])
    elif k == 'running':
        pdf.add_running_section(v, pdf.page_width - 60, 30, 30, 12)
        pdf.add_page()
    elif k == 'head':
        pdf.add_running_section({'content': [{'.i': ['H', {'var': '$page'}]}]}, 100, 20, 10, 200)
    elif k == 'set':
        pdf.setup_page(page_size=(180, 160), margin=15)
    elif k == 'var':
        pdf.context['v'] = 'V'
    elif k == 'fmt':
        pdf.formats['f'] = {'c': 'blue', 's': 13}


LREF = {}


def gen_low(tier):
    # pairs of operation sequences: all interleavings of the first n operations of each
    n = 4 if tier == 'quick' else 6
    for a, b in itertools.combinations_with_replacement(sorted(LOW), 2):
        for s in interleavings(n, n):
            yield (a, b, s)


def run_low(case, r):
    a, b, s = case

    def go():
        pdfs = [PDF(margin=40), PDF(margin=40)]
        ops = [list(LOW[a]), list(LOW[b])]
        for w in s:
            low(pdfs[w], cp.deepcopy(ops[w].pop(0)))
        for w in (1, 0):
            for op in ops[w]:
                low(pdfs[w], cp.deepcopy(op))
        return [dig(output(p)) for p in pdfs]
    got = isolated(go)
    if got[0] != '=':
        r.fail('operations-failed', '%s %s' % got[1:])
        return
    for n, g in zip((a, b), got[1]):
        if (n, 0) not in LREF:
            LREF[n, 0] = isolated(lambda: low_doc(cp.deepcopy(LOW[n]), 0))
        e = differ(g, LREF[n, 0][1])
        r.trans += len(LOW[n])
        r.expect(e is None, 'interleaved-operations', lambda: '%s: %s' % (n, e))
        r.compared += 1
    r.state((a, b, h8b(repr(got[1]).encode())))


# the same arguments passed again to the same or to other PDF objects

DEFAULTS = {0: {}, 1: dict(font_size=19, font_color='red', font_family='Times', text_align='r', line_height=1.7, indent=9), 2: dict(page_size=(330, 350), margin=20)}


def low_doc(args, v):
    pdf = PDF(**dict(dict(margin=40), **DEFAULTS[v]))
    for op in args:
        low(pdf, op)
    return dig(output(pdf))


def gen_reuse(tier):
    for n in sorted(LOW):
        for k in range(1, 4 if tier == 'quick' else 5):
            for v in itertools.product((0, 1, 2), repeat=k):
                yield (((n,) * k), v)
    for a, b in itertools.product(sorted(LOW), repeat=2):
        for v in itertools.product((0, 1, 2) if tier != 'quick' else (0, 2), repeat=4):
            yield ((a, b, a, b), v)


def run_reuse(case, r):
    names, vs = case

    def go():
        args = cp.deepcopy(LOW)
        return [low_doc(args[n], v) for n, v in zip(names, vs)]
    got = isolated(go)
    if got[0] != '=':
        r.fail('operations-failed', '%s %s' % got[1:])
        return
    for n, v, g in zip(names, vs, got[1]):
        if (n, v) not in LREF:
            LREF[n, v] = isolated(lambda: low_doc(cp.deepcopy(LOW[n]), v))
        e = differ(g, LREF[n, v][1])
        r.trans += 1
        r.expect(e is None, 'reused-arguments', lambda: '%s: %s' % (n, e))
        r.compared += 1
    r.state(case)


# ---- threads -----------------------------------------------------------------------------

T_QUICK = [('foot', 'run'), ('font', 'font2'), ('formats', 'formats2'), ('image', 'image2')]
T_MORE = [('foot', 'foot'), ('nav', 'shared'), ('table', 'cols'), ('sizes', 'var'), ('deep', 'list'), ('font', 'font'), ('run', 'run'), ('tuple', 'foot2')]
# coarse scheduling points: the operations that touch a document, its pages, fonts, formats and images
COARSE = {'__init__', 'run', 'add_page', '_add_content', '_process_footnotes', '_create_content', 'get_font', 'load_font', 'process_style', '_add_text', 'add_image',
          'output', '_build_dests', '_build_outlines', '_build_pages_tree', 'add_font', 'setup_page', '_set_running_sections', 'register', 'add', 'process_table', 'process_content'}


def count_points(name, lines):
    def go():
        with Fonts([name]):
            s = Scheduler(PKG, [], lines)
            s.run([lambda: build(pool.ALL[name](), dict(pool.CONTEXT))])
            return s.points[0]
    return isolated(go)[1]


def count_coarse(name):
    def go():
        with Fonts([name]):
            s = Scheduler(PKG, [], only=COARSE)
            s.run([lambda: build(pool.ALL[name](), dict(pool.CONTEXT))])
            return s.points[0]
    return isolated(go)[1]


def gen_threads(tier):
    for a, b in T_QUICK + (T_MORE if tier != 'quick' else []):
        n = count_points(a, False)
        step = max(1, n // 200) if tier == 'quick' else 1
        for i in range(0, n, step):
            yield (a, b, (i,), 'calls')
    for a, b in (T_QUICK + T_MORE if tier != 'quick' else T_QUICK):
        n, m = count_coarse(a), count_coarse(b)
        k = 13 if tier == 'quick' else 50
        for i in range(0, n, max(1, n // k)):
            for j in range(1, m, max(1, m // k)):
                yield (a, b, (i, j), 'coarse')
    if tier != 'quick':
        for a, b in T_QUICK:
            n = count_points(a, True)
            for i in range(0, n, max(1, n // 6000)):
                yield (a, b, (i,), 'lines')


def run_threads(case, r):
    a, b, sched, how = case

    def go():
        with Fonts([a, b]):
            s = Scheduler(PKG, sched, lines=how == 'lines', only=COARSE if how == 'coarse' else None)
            d, e = pool.ALL[a](), pool.ALL[b]()
            out = s.run([lambda: build(d, dict(pool.CONTEXT)), lambda: build(e, dict(pool.CONTEXT))])
            res = []
            for o in out:
                if o[0] != '=':
                    raise RuntimeError('%s %s' % o[1:])
                res.append(dig(o[1]))
            return res
    compare(r, isolated(go), [a, b], 'threads', 'schedule %s (%s)' % (sched, how))
    r.trans += len(sched)


# -- interpreters with other orders of sets ----------------------------------------------

def d_many():
    rs = {k: {'x': 20 + 3 * i, 'y': 8 + i, 'height': 12, 'width': 60, 'content': [{'.b;c:%s' % c: k}]}
          for i, (k, c) in enumerate(zip(('head', 'foot', 'mark', 'side', 'logo'), ('red', 'green', 'blue', 'black', 'gray')))}
    return {'style': {'page_size': (240, 150), 'margin': 30, 's': 9}, 'running_sections': rs,
            'formats': {n: {'s': 6 + i} for i, n in enumerate(('one', 'two', 'three'))},
            'per_page': [{'pages': '1', 'running_sections': {'exclude': ['foot', 'mark'], 'include': ['logo', 'side', 'foot']}}, {'pages': '2', 'running_sections': {'include': list(rs)}}],
            'sections': [{'running_sections': list(rs)[:4], 'content': ['a ' * 300, {'.': 'x', 'style': 'two'}]},
                         {'running_sections': ['mark', 'head'], 'content': [{'.': 'y', 'style': 'three'}, {'.': [{'.f:Courier': 'p'}, {'.f:Times;b': 'q'}, {'.f:Helvetica;i': 'r'}]}]}]}


def all_digests():
    """{name: digest with the operators of a page in their order} of every description"""
    out = {}
    for n in NAMES + ['many']:
        with Fonts([n]):
            d = Doc(build(d_many() if n == 'many' else pool.ALL[n](), dict(pool.CONTEXT)))
            order = tuple(tuple(t.text for t in p.texts) for p in d.pages)
            out[n] = (dig(d.data), order)
    return out


def gen_seeds(tier):
    for s in range(1, 9 if tier == 'quick' else 65):
        yield (s,)


SEEDREF = {}


def seeded(s):
    import pickle
    import subprocess
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = ("import sys, pickle; sys.path.insert(0, %r); import mc.env; from checks import c17_independence as c; "
            "sys.stdout.buffer.write(pickle.dumps(c.all_digests()))" % here)
    p = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(s), PYTHONDONTWRITEBYTECODE='1'), capture_output=True, timeout=120)
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-1500:])
    return pickle.loads(p.stdout)


def run_seeds(case, r):
    s, = case
    if 0 not in SEEDREF:
        SEEDREF[0] = seeded(0)
    a, b = SEEDREF[0], seeded(s)
    for n in a:
        (da, oa), (db, ob) = a[n], b[n]
        e = differ(db, da)
        r.trans += 1
        r.expect(e is None, 'hash-order', lambda: '%s: %s, in an interpreter with another order of sets' % (n, e))
        r.expect(oa == ob, 'hash-order', lambda: '%s: the texts of a page are painted in another order' % n)
        r.compared += 1
    r.state(case)


FAMILIES = [
    Family('orders', gen_orders, run_orders, 'all pairs of 21 descriptions, all triples of 7 (21), each in a new process'),
    Family('again', gen_again, run_again, 'every description built 2, 3 and 5 times, copied after being built, used again in pages of other sizes with other defaults, and built again around every other'),
    Family('steps', gen_steps, run_steps, 'all interleavings of creating, running and writing two documents, all pairs of 14 (21) descriptions'),
    Family('operations', gen_low, run_low, 'all interleavings of 4 (6) operations on two PDF objects, 15 pairs of sequences'),
    Family('arguments', gen_reuse, run_reuse, 'the same arguments passed to up to 3 (4) PDF objects with 3 kinds of pages and defaults'),
    Family('hash-seeds', gen_seeds, run_seeds, 'every description in 8 (64) new interpreters, each with another order of the members of sets'),
    Family('threads', gen_threads, run_threads, 'two threads: every single preemption at calls (200 of them in quick), a grid of pairs of preemptions at coarse points; (every call of 12 pairs, lines of 4)'),
]
