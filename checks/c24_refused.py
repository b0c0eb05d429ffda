"""C24: what is not allowed is refused with an error, and nothing is left behind."""
import contextlib
import io
import itertools

from mc.engine import Family
from mc.box import *
from pdfme import PDF, build_pdf

PROPERTY = 'C24'
EXPLANATION = (
    'Bounded exhaustive enumeration of descriptions with one part of a kind that is not allowed, of every kind, at every place of a document and '
    'at every depth up to the bound, and of sequences of the methods of PDF with refused calls among them.  Building must end with an exception, '
    'write nothing, leave the description as it was, and change no other document; the pages of a PDF that refused calls must be those '
    'of the same sequence without them.')
ASSUMPTIONS = ['only kinds of parts that the documentation excludes, or that have no meaning, are placed']


class Thing:
    def __repr__(self):
        return 'Thing()'


def jpg(name='x'):
    return io.BytesIO(jpeg(100, 40))


def T(rows, **k):
    return dict({'table': rows}, **k)


# name -> function that gives the value; by the places where it is not allowed
ELEMENTS = {
    'no-keys': lambda: {}, 'only-style': lambda: {'style': {'s': 5}}, 'typo': lambda: {'imag': 'x'}, 'typo2': lambda: {'text': 'x'},
    'group-number': lambda: {'group': 5}, 'group-box': lambda: {'group': ['a', {'content': ['a']}]}, 'group-group': lambda: {'group': [{'group': ['a']}, 'b']},
    'group-typo': lambda: {'group': ['a', {'tabl': [['a']]}]}, 'group-none': lambda: {'group': None},
    'cols-number': lambda: {'cols': 5, 'content': ['a']}, 'cols-list': lambda: {'cols': [2], 'content': ['a']},
    'cols-zero': lambda: {'cols': {'count': 0}, 'content': ['a']}, 'cols-negative': lambda: {'cols': {'count': -1}, 'content': ['a']},
    'cols-half': lambda: {'cols': {'count': 2.5}, 'content': ['a']}, 'cols-more': lambda: {'cols': {'count': 1.5}, 'content': ['a b'] * 9},
    'cols-nan': lambda: {'cols': {'count': float('nan')}, 'content': ['a']}, 'cols-infinite': lambda: {'cols': {'count': float('inf')}, 'content': ['a']},
    'cols-none': lambda: {'cols': {'count': None}, 'content': ['a']},
    'cols-text': lambda: {'cols': {'count': 'x'}, 'content': ['a']}, 'content-number': lambda: {'content': 5}, 'content-none': lambda: {'content': None},
}
TABLES = {
    'table-number': lambda: T(5), 'table-dict': lambda: T({}), 'table-text': lambda: T('ab'), 'table-none': lambda: T(None),
    'longer-row': lambda: T([['a'], ['a', 'b']]), 'shorter-row': lambda: T([['a', 'b'], ['a']]), 'empty-row': lambda: T([['a', 'b'], ['a', 'b'], []]),
    'row-number': lambda: T([5]), 'row-number-2': lambda: T([['a'], 5]), 'row-none': lambda: T([['a', 'b'], None]),
    'few-widths': lambda: T([['a', 'b']], widths=[1]), 'many-widths': lambda: T([['a', 'b']], widths=[1, 2, 3]), 'text-widths': lambda: T([['a', 'b']], widths='ab'),
    'zero-widths': lambda: T([['a', 'b']], widths=[0, 0]), 'string-widths': lambda: T([['a', 'b']], widths=['a', 'b']), 'none-width': lambda: T([['a', 'b']], widths=[1, None]),
    'number-widths': lambda: T([['a', 'b']], widths=5), 'borders-number': lambda: T([['a']], borders=5), 'border-number': lambda: T([['a']], borders=[5]),
    'border-color': lambda: T([['a']], borders=[{'pos': 'h', 'color': 'zzz'}]), 'fill-none': lambda: T([['a']], fills=[{'pos': '0;0'}]),
    'fill-color': lambda: T([['a']], fills=[{'pos': '0;0', 'color': 'zz'}]), 'cell-typo': lambda: T([['a', {'tabl': 5}]]), 'cell-empty': lambda: T([['a', {}], ['b', 'c']]),
    'cell-style': lambda: T([[{'style': {'cell_fill': 'red'}}, 'a']]), 'cell-group': lambda: T([['a', {'group': ['a']}]]), 'span-cell-group': lambda: T([[{'colspan': 2, 'group': ['a']}, None], ['c', 'd']]),
    'rowspan-typo': lambda: T([[{'rowspan': 2, 'tex': 'a'}, 'a'], [None, 'c']]), 'colspan-text': lambda: T([['a', {'colspan': 'x', '.': 'b'}]]),
}
IMAGES = {
    'missing-file': lambda: {'image': '/nonexistent/x.jpg'}, 'image-none': lambda: {'image': None}, 'image-number': lambda: {'image': 5},
    'no-name': lambda: {'image': jpg()}, 'no-extension': lambda: {'image': jpg(), 'image_name': 'x'}, 'gif': lambda: {'image': jpg(), 'image_name': 'x', 'extension': 'gif'},
    'raw-bytes': lambda: {'image': jpeg(100, 40), 'image_name': 'x', 'extension': 'jpg'}, 'not-jpeg': lambda: {'image': io.BytesIO(b'abc'), 'image_name': 'x', 'extension': 'jpg'},
    'extension-number': lambda: {'image': jpg(), 'image_name': 'x', 'extension': 5}, 'cut-jpeg': lambda: {'image': io.BytesIO(jpeg(100, 40)[:12]), 'image_name': 'x', 'extension': 'jpg'},
}
PARTS = {
    'dot-none': lambda: {'.': None}, 'dot-dict': lambda: {'.': {'.': 'a'}}, 'dot-object': lambda: {'.': Thing()}, 'dot-bytes': lambda: {'.': b'a'},
    'part-none': lambda: {'.': ['a', None]}, 'part-list': lambda: {'.': [['a']]}, 'part-tuple': lambda: {'.': ['a', {'.': ['b', ('c',)]}]}, 'part-object': lambda: {'.': ['a', Thing()]},
    'part-bytes': lambda: {'.': [b'a']},
    'style-number': lambda: {'.': 'a', 'style': 5}, 'style-list': lambda: {'.': 'a', 'style': ['b']}, 'format': lambda: {'.': 'a', 'style': 'unknown'},
    'font': lambda: {'.': 'a', 'style': {'f': 'Unknown'}}, 'dot-font': lambda: {'.f:Unknown': 'a'}, 'dot-color': lambda: {'.c:zzz': 'a'}, 'dot-color-2': lambda: {'.c:1 2': 'a'},
    'dot-key': lambda: {'.zz': 'a'}, 'dot-size': lambda: {'.s:x': 'a'}, 'color': lambda: {'.': 'a', 'style': {'c': 'zz'}}, 'background': lambda: {'.': 'a', 'style': {'bg': 'zz'}},
    'size': lambda: {'.': 'a', 'style': {'s': 'x'}}, 'size-none': lambda: {'.': 'a', 'style': {'s': None}},
    'label': lambda: {'.': 'a', 'label': 5}, 'ref': lambda: {'.': 'a', 'ref': 5}, 'uri': lambda: {'.': 'a', 'uri': 5}, 'ids': lambda: {'.': 'a', 'ids': 5},
    'outline-level': lambda: {'.': 'a', 'outline': {'level': 'x'}},
}
PARAGRAPHS = {
    'list-style': lambda: {'.': 'a', 'style': {'list_text': 'x', 'list_style': 5}}, 'list-indent': lambda: {'.': 'a', 'style': {'list_text': 'x', 'list_indent': 'y'}},
    'indent': lambda: {'.': 'a', 'style': {'indent': 'y'}}, 'line-height': lambda: {'.': 'a', 'style': {'line_height': 'y'}},
}
FOOTNOTES = {
    'footnote-part': lambda: {'.': ['a', {'footnote': {'.': [None]}}]}, 'footnote-font': lambda: {'.': ['a', {'footnote': {'.f:Unknown': 'a'}}]},
    'footnote-list': lambda: {'.': ['a', {'footnote': ['a', ['b']]}]},
}
PLACES = {'place-%s' % n: (lambda v: lambda: {'image': jpg(), 'image_name': 'x', 'extension': 'jpg', 'style': {'image_place': v}})(v)
          for n, v in {'other': 'bogus', 'none': None, 'number': 5, 'case': 'Flow', 'empty': ''}.items()}
KINDS = {'place': PLACES, 'element': ELEMENTS, 'table': TABLES, 'image': IMAGES, 'part': PARTS, 'paragraph': PARAGRAPHS, 'footnote': FOOTNOTES}
ALL = {(k, n): f for k, d in KINDS.items() for n, f in d.items()}

# containers of an element: function of the element -> element
WRAP = {
    'box': lambda v, i: {'content': around(v, i)},
    'cols': lambda v, i: {'cols': {'count': 2}, 'content': around(v, i)},
    'cell': lambda v, i: T([['a', 'b'], ['c', v] if i else [v, 'c']]),
    'spanned': lambda v, i: T([[{'colspan': 2, 'content': around(v, i)}, None], ['c', 'd']]),
    'cell-box': lambda v, i: T([['a', {'content': around(v, i)}]]),
    'group': lambda v, i: {'group': around(v, i)},
    'part': lambda v, i: {'.': around(v, i)},
    'bold': lambda v, i: {'.b': [{'.u': around(v, i)}], 'style': {'s': 8}},
}


def around(v, i):
    """among its siblings: only one, first, in the middle, last"""
    return [[v], [v, 'after'], ['before', v, 'after'], ['before', v]][i % 4]


def allowed(path, kind):
    """whether a value of this kind can be placed there"""
    for o, i in zip(path, path[1:]):
        if o in ('part', 'bold') and i not in ('part', 'bold'):
            return False
        if o == 'group' and i in ('box', 'cols', 'group'):
            return False
        if o == 'cell' and i == 'group':
            return False
    if path and path[-1] == 'cell' and kind == 'place':  # images in cells have no place
        return False
    if path and path[-1] in ('part', 'bold'):
        return kind == 'part'
    if path and path[-1] == 'group' and kind == 'element':
        return True
    return True


GOOD = {'style': {'page_size': (200, 200), 'margin': 10}, 'sections': [{'content': ['good', {'.': ['text ', {'.b': 'bold'}]}, {'table': [['a', 'b']]}]}]}


def digest_of(doc):
    return doc_digest(Doc(build(doc)))


def build(doc):
    b = io.BytesIO()
    build_pdf(doc, b)
    return b.getvalue()


def must_refuse(doc, r, show, limit=60):
    before = repr(doc)
    good = digest_of(GOOD)
    b = io.BytesIO()
    err = None
    with contextlib.redirect_stderr(io.StringIO()), pages_at_most(limit):
        try:
            build_pdf(doc, b)
        except (RecursionError, MemoryError):
            raise
        except TooMany as e:
            r.fail('never-ends', '%s: %d pages were added' % (show, limit))
            return
        except Exception as e:
            err = e
    r.trans += 1
    r.expect(err is not None, 'accepted', lambda: '%s was accepted' % (show,))
    r.expect(b.getvalue() == b'', 'something-written', lambda: '%d bytes written: %r' % (len(b.getvalue()), err))
    r.expect(repr(doc) == before, 'description-changed', lambda: '%s\n%s' % (before, doc))
    r.expect(digest_of(GOOD) == good, 'other-document-changed', lambda: repr(err))
    r.compared += 1
    r.state((type(err).__name__, str(err)[:60]))


class TooMany(BaseException):
    pass


@contextlib.contextmanager
def pages_at_most(n):
    orig = PDF.add_page
    count = [0]

    def add_page(self, *a, **k):
        count[0] += 1
        if count[0] > n:
            raise TooMany()
        return orig(self, *a, **k)
    PDF.add_page = add_page
    try:
        yield
    finally:
        PDF.add_page = orig


# ---- places ------------------------------------------------------------------

def gen_places(tier):
    depth = 2 if tier == 'quick' else 3
    for n in range(depth + 1):
        for path in itertools.product(WRAP, repeat=n):
            for key in ALL:
                if not allowed(path, key[0]):
                    continue
                for i in range(4):
                    if n == 2 and tier == 'quick' and i not in (0, 2) or n == 3 and i != (len(key[1]) + len(path[0])) % 4:
                        continue
                    yield (path, key, i, 'section')
                    if n < 2:
                        for where in ('later', 'fifth', 'running', 'style', 'tuple'):
                            yield (path, key, i, where)


def place(path, key, i):
    v = ALL[key]()
    for w in reversed(path):
        v = WRAP[w](v, i)
    return v


def run_places(case, r):
    path, key, i, where = case
    v = place(path, key, i)
    items = around(v, i)
    st = {'page_size': (300, 300), 'margin': 10}
    if where == 'section':
        doc = {'style': st, 'sections': [{'content': items}]}
    elif where == 'tuple':
        doc = {'style': st, 'sections': ({'content': tuple(items)},)}
    elif where == 'later':
        doc = {'style': st, 'sections': [{'content': ['one', 'two']}, {'content': items}, {'content': ['three']}]}
    elif where == 'fifth':
        # on the second page of its section
        doc = {'style': st, 'sections': [{'content': ['x\n' * 30] + items}]}
    elif where == 'style':
        doc = {'style': dict(st, s=9, f='Times', text_align='j'), 'sections': [{'style': {'b': True, 'margin': 20}, 'content': items}]}
    else:
        if key[0] == 'footnote' or 'outline-level' in key:
            return
        doc = {'style': st, 'running_sections': {'h': {'x': 20, 'y': 20, 'width': 200, 'height': 250, 'content': items}},
               'sections': [{'running_sections': ['h'], 'content': ['a']}]}
    must_refuse(doc, r, (case, v))


# ---- parts that fit no page ------------------------------------------------------

def tall(w, h, **k):
    return dict({'image': io.BytesIO(jpeg(w, h)), 'image_name': 'x%d' % h, 'extension': 'jpg'}, **k)


UNFIT = {
    'image': lambda: tall(100, 4000), 'image-normal': lambda: tall(100, 4000, style={'image_place': 'normal'}), 'image-min': lambda: tall(100, 4000, style={'min_height': 900}),
    'group': lambda: {'group': ['b', tall(100, 2000), 'a', tall(100, 2001)]}, 'group-text': lambda: {'group': ['a b', 'line\n' * 60]},
    'group-min': lambda: {'group': [tall(100, 4000, style={'min_height': 200}), tall(100, 4001, style={'min_height': 150})]},
    'cell-image': lambda: T([['a', tall(100, 4000)]]), 'cell-image-2': lambda: T([['a', 'b'], [tall(100, 4000), tall(100, 4001)], ['c', 'd']]),
    'span-image': lambda: T([[{'rowspan': 2, '.': 'a'}, tall(100, 4000)], [None, 'b']]), 'cell-group': lambda: T([['a', {'content': [{'group': ['b', tall(100, 4000)]}]}]]),
    'text': lambda: {'.': 'large', 'style': {'s': 500}}, 'text-part': lambda: {'.': ['small ', {'.s:500': 'large'}, ' small']}, 'text-later': lambda: {'.': ['small ' * 200, {'.s:500': 'large'}]},
    'line-height': lambda: {'.': 'a\nb', 'style': {'line_height': 400}}, 'cell-text': lambda: T([['a', {'.': 'large', 'style': {'s': 500}}]]),
    'cell-margin': lambda: T([['a', 'b']], style={'cell_margin_top': 400}), 'cell-margin-2': lambda: T([['a', 'b'], ['c', {'.': 'd', 'style': {'cell_margin_bottom': 400}}]]),
    'border': lambda: T([['a'], ['b']], borders=[{'pos': 'h1', 'width': 700}]), 'rise': lambda: {'.': [{'.s:20;r:20': 'a'}]},
    'footnote': lambda: {'.': ['a', {'footnote': 'line\n' * 60}]},
}


def gen_unfit(tier):
    for n in range(3 if tier != 'quick' else 2):
        for path in itertools.product([w for w in WRAP if w not in ('part', 'bold')], repeat=n):
            for k in UNFIT:
                if not allowed(path, 'table') or 'group' in path and ('group' in k or k == 'footnote') or path[-1:] == ('cell',) and k.startswith('group'):
                    continue
                for i in range(4):
                    if n == 2 and i != (len(k) + len(path[0])) % 4:
                        continue
                    for where in ('section', 'later', 'fifth', 'style', 'content', 'alone') if n < 2 else ('section', 'content'):
                        if where not in ('section', 'content') and tier == 'quick' and i % 2:
                            continue
                        yield (path, k, i, where)


def run_unfit(case, r):
    path, k, i, where = case
    v = UNFIT[k]()
    for w in reversed(path):
        v = WRAP[w](v, i)
    items = around(v, i)
    st = {'page_size': (300, 300), 'margin': 10}
    if where not in ('content', 'alone'):
        doc = {'style': st, 'sections': [{'content': items}]}
        if where == 'later':
            doc['sections'] = [{'content': ['one', 'two']}, {'content': items}, {'content': ['three']}]
        elif where == 'fifth':
            items.insert(0, 'x\n' * 30)
        elif where == 'style':
            doc = {'style': dict(st, s=9, f='Times'), 'sections': [{'style': {'margin': 20}, 'cols': {'count': 2}, 'content': items}]}
        must_refuse(doc, r, case, 140)
        return
    if k == 'footnote':
        return
    pdf = PDF(page_size=(300, 300), margin=10)
    pdf.add_page()
    pdf.text('before')
    try:
        with pages_at_most(140):
            if where == 'content':
                pdf.content({'content': items})
            else:
                v = UNFIT[k]()
                if 'table' in v:
                    pdf.table(v['table'], **{q: x for q, x in v.items() if q != 'table'})
                elif 'group' in v or 'image' in v:
                    pdf.content({'content': [v]})
                else:
                    pdf.text({q: x for q, x in v.items() if q != 'style'}, **({'line_height': 400} if k == 'line-height' else {})) if k != 'text' else pdf.text(v)
    except TooMany:
        r.fail('never-ends', '%s: %d pages were added' % (case, 140))
        return
    except Exception as e:
        r.state((type(e).__name__, str(e)[:30]))
    else:
        r.fail('accepted', '%s was accepted' % (case,))
    r.trans += 1
    pdf.text('after')
    d = Doc(output(pdf))
    text = ''.join(c for p in (d.pages[0], d.pages[-1]) for t in p.texts for c, _, _ in t.chars)
    r.expect('before' in text and text.endswith('after'), 'other-parts-lost', lambda: '%s: %r' % (case, text[:300]))
    r.compared += 1


# ---- settings of documents -----------------------------------------------------

OK_SECTION = lambda: {'content': ['a', 'b']}
SETTINGS = {
    'page-size': lambda: {'style': {'page_size': 'zz'}}, 'page-size-2': lambda: {'style': {'page_size': [100]}}, 'page-size-3': lambda: {'style': {'page_size': None and 0 or {}}},
    'margin-list': lambda: {'style': {'margin': ['x', 1]}}, 'margin-text': lambda: {'style': {'margin': 'x'}}, 'margin-object': lambda: {'style': {'margin': Thing()}},
    'style-color': lambda: {'style': {'c': 'zz'}}, 'style-font': lambda: {'style': {'f': 'Unknown'}}, 'style-size': lambda: {'style': {'s': 'x'}},
    'section-page-size': lambda: {'sections': [OK_SECTION(), dict(OK_SECTION(), style={'page_size': 'zz'})]},
    'section-margin': lambda: {'sections': [OK_SECTION(), dict(OK_SECTION(), style={'margin': 'x'})]},
    'section-style': lambda: {'sections': [dict(OK_SECTION(), style={'f': 'Unknown'})]}, 'section-format': lambda: {'sections': [dict(OK_SECTION(), style='unknown')]},
    'section-number': lambda: {'sections': [5]}, 'section-none': lambda: {'sections': [OK_SECTION(), None]}, 'section-list': lambda: {'sections': [['a']]}, 'section-text': lambda: {'sections': ['a']},
    'sections-number': lambda: {'sections': 5}, 'sections-none': lambda: {'sections': None}, 'no-sections': lambda: {'sections': []}, 'no-sections-2': lambda: {},
    'running-unknown': lambda: {'sections': [dict(OK_SECTION(), running_sections=['h'])]},
    'running-number': lambda: {'sections': [dict(OK_SECTION(), running_sections=5)]},
    'running-empty': lambda: {'running_sections': {'h': 5}, 'sections': [dict(OK_SECTION(), running_sections=['h'])]},
    'pages-range': lambda: {'per_page': [{'pages': 'x', 'style': {}}], 'sections': [OK_SECTION()]}, 'pages-range-2': lambda: {'per_page': [{'pages': '1:2:3:4', 'style': {}}], 'sections': [OK_SECTION()]},
    'pages-missing': lambda: {'per_page': [{'style': {}}], 'sections': [OK_SECTION()]}, 'pages-margin': lambda: {'per_page': [{'pages': '0', 'style': {'margin': 'x'}}], 'sections': [OK_SECTION()]},
    'pages-size': lambda: {'per_page': [{'pages': ':', 'style': {'page_size': 'zz'}}], 'sections': [OK_SECTION()]},
    'pages-running': lambda: {'per_page': [{'pages': '0', 'running_sections': {'include': ['h']}}], 'sections': [OK_SECTION()]},
    'format-font': lambda: {'formats': {'f': {'f': 'Unknown'}}, 'sections': [{'content': [{'.': 'a', 'style': 'f'}]}]},
    'cols': lambda: {'sections': [dict(OK_SECTION(), cols=5)]}, 'cols-half': lambda: {'sections': [dict(OK_SECTION(), cols={'count': 2.5})]},
    'cols-negative': lambda: {'sections': [OK_SECTION(), dict(OK_SECTION(), cols={'count': -2})]}, 'cols-zero': lambda: {'sections': [dict(OK_SECTION(), cols={'count': 0})]},
}
DOCS = {'number': lambda: 5, 'none': lambda: None, 'list': lambda: [], 'text': lambda: 'abc'}


def gen_settings(tier):
    for k in SETTINGS:
        for rot in range(3):
            for size in range(2):
                yield (k, rot, size)
    for a, b in itertools.combinations(sorted(SETTINGS), 2) if tier != 'quick' else ():
        yield (a + '+' + b, 0, 0)
    for k in DOCS:
        yield (k, 0, 0)


def run_settings(case, r):
    k, rot, size = case
    if k in DOCS:
        must_refuse(DOCS[k](), r, case)
        return
    doc = {}
    for x in k.split('+'):
        doc.update(SETTINGS[x]())
    if rot:
        doc['style'] = dict({'s': 9, 'margin': 20, 'page_size': 'a5'}, **doc.get('style', {}))
    if rot == 2:
        doc.setdefault('formats', {})['g'] = {'b': True}
    if 'sections' not in doc and k != 'no-sections-2':
        doc['sections'] = [OK_SECTION()] * (1 + size)
    must_refuse(doc, r, (case, doc))


# ---- style strings ---------------------------------------------------------------

ATTRS = ('b', 'i', 'u', 'f', 'c', 'bg', 's', 'r', 'B', 'bi', 'size', 'zz', '')
VALUES = (None, '', '0', '1', '2', 'x', 'true', 'red', '1 2', '#ab', '#12345', '#ggg', '#abc', 'Times', 'Unknown', '8', '-.5', '1,5', '1:1', '8pt')


def style_item(a, v):
    """None when nothing says if it is allowed"""
    if v is None:
        return a in ('b', 'i', 'u', '')
    if a in ('b', 'i', 'u'):
        return v in ('0', '1')
    if a == 'f':
        return v == 'Times'
    if a in ('c', 'bg'):
        return None if v in ('', '2', '8', '-.5') else v in ('0', '1', 'red', '#abc')
    if a == 's':
        return v in ('1', '2', '8') or (None if v in ('0', '-.5') else False)
    if a == 'r':
        return v in ('0', '1', '2', '8', '-.5')
    return False


AROUND = (('%s',), (' %s ', 'b;%s', '%s;i', 's:9;%s', '%s;c:red', 'b:1;%s;u', '%s;', ';%s'))
STRING_PLACES = {
    'paragraph': lambda s: {'.' + s: 'aa'}, 'part': lambda s: {'.': ['aa ', {'.' + s: 'bb'}]}, 'inner': lambda s: {'.b': [{'.u': ['aa ', {'.' + s: 'bb'}, ' cc']}]},
    'cell': lambda s: T([['aa', {'.' + s: 'bb'}]]), 'group': lambda s: {'group': ['aa', {'.' + s: 'bb'}]}, 'box': lambda s: {'content': [{'.' + s: 'bb'}], 'cols': {'count': 2}},
}


def gen_strings(tier):
    for a in ATTRS:
        for v in VALUES:
            good = style_item(a, v)
            if good is None:
                continue
            item = a if v is None else a + ':' + v
            for forms in AROUND:
                for form in forms:
                    if item == '' and '%s ' in form:
                        continue
                    for n, where in enumerate(STRING_PLACES):
                        yield (form % item, good, where)
    if tier != 'quick':
        items = [(a if v is None else a + ':' + v, style_item(a, v)) for a in ATTRS for v in VALUES if style_item(a, v) is not None]
        for (x, gx), (y, gy) in itertools.product(items, repeat=2):
            yield (x + ';' + y, gx and gy, 'part')


def run_strings(case, r):
    string, good, where = case
    doc = {'style': {'page_size': (300, 300), 'margin': 10}, 'sections': [{'content': ['one', STRING_PLACES[where](string), 'two']}]}
    if not good:
        must_refuse(doc, r, case)
        return
    try:
        build_pdf(doc, io.BytesIO())
    except Exception as e:
        r.fail('refused', '%r in %s: %s' % (string, where, e))
    r.compared += 1
    r.state(case)


# ---- calls among calls -----------------------------------------------------------

def good_ops():
    return {
        'text': lambda p, n: p.text(['text%d ' % n, {'.b;c:red': 'bold', 'label': 'l%d' % n}]),
        'long': lambda p, n: p.text('word%d ' % n * 150),
        'list': lambda p, n: p.text('item%d' % n, list_text='1. '),
        'table': lambda p, n: p.table([['t%d' % n, 'u'], ['v', {'.i': 'w'}]]),
        'content': lambda p, n: p.content({'cols': {'count': 2}, 'content': ['c%d' % n, 'd', {'.f:Courier': 'e'}]}),
        'image': lambda p, n: p.image(jpg(), 'jpg', 'name%d' % (n % 2), width=50),
        'page': lambda p, n: p.add_page(),
        'out': lambda p, n: p.output(io.BytesIO()),
        'outline': lambda p, n: p.text({'.': 'o%d' % n, 'outline': {'level': 1 + n % 2}}),
    }


def bad_calls():
    out = {}
    for (k, n), f in ALL.items():
        if n == 'outline-level':
            continue        # only known when the paragraph is painted
        if k == 'part':
            out['text:' + n] = lambda p, f=f: p.text(f())
        if k == 'part':
            out['text2:' + n] = lambda p, f=f: p.text([{'.b': 'good', 'label': 'bad', 'uri': 'http://bad', 'outline': {}}, f()])
        if k != 'footnote':
            out['content:' + n] = lambda p, f=f: p.content({'content': ['good', {'.f:Times': 'good', 'label': 'bad', 'uri': 'http://bad', 'outline': {}}, f(), 'more']})
        if k not in ('footnote', 'place'):
            out['table:' + n] = lambda p, f=f: p.table([['good', 'b'], [f(), 'more']])
        if k == 'table':
            out['table2:' + n] = lambda p, f=f: p.table(f()['table'], **{k: v for k, v in f().items() if k != 'table'})
        if k == 'image':
            out['image:' + n] = lambda p, f=f: p.image(width=50, **f())
    out['page:size'] = lambda p: p.add_page(page_size='zz')
    out['page:size2'] = lambda p: p.add_page(page_size=[5])
    out['page:margin'] = lambda p: p.add_page(margin='x')
    out['page:both'] = lambda p: p.add_page(page_size='a5', margin='x')
    out['font'] = lambda p: p.add_font('/nonexistent/font.ttf', 'New')
    out['text:list-style'] = lambda p: p.text('a', list_text='x', list_style=5)
    out['text:list-indent'] = lambda p: p.text('a', list_text='x', list_indent='y')
    out['text:line-height'] = lambda p: p.text('a', line_height='y')
    out['text:number'] = lambda p: p.text(5)
    out['text:none'] = lambda p: p.text(None)
    out['text:align'] = lambda p: p.text('a', indent='x')
    out['content:number'] = lambda p: p.content(5)
    out['content:list'] = lambda p: p.content(['a'])
    return out


def gen_calls(tier):
    good = list(good_ops())
    bad = list(bad_calls())
    for b in bad:
        for g in good:
            yield ((), b, (g,))
            yield ((g,), b, ('text',))
    few = ['text:part-none', 'content:font', 'table:longer-row', 'image:not-jpeg', 'page:margin', 'text2:dot-color', 'content:no-keys', 'table2:cell-group', 'content:missing-file']
    n = 2 if tier == 'quick' else 3
    for b in few if tier == 'quick' else bad:
        for pre in itertools.product(good, repeat=n - (tier != 'quick' and b not in few)):
            for post in good:
                yield (pre, b, (post,))
    for a, b in itertools.product(few, repeat=2):
        for g in good:
            for h in good:
                yield ((g,), a, (b, h))


def new_pdf():
    return PDF(page_size=(200, 260), margin=12, font_size=9)


def run_calls(case, r):
    pre, b, post = case
    good, bad = good_ops(), bad_calls()

    def play(with_bad):
        pdf = new_pdf()
        pdf.add_page()
        pos = []
        for n, op in enumerate(tuple(pre) + (b,) + tuple(post)):
            if op in bad:
                if not with_bad:
                    continue
                before = len(pdf.pages)
                try:
                    with contextlib.redirect_stderr(io.StringIO()), pages_at_most(60):
                        bad[op](pdf)
                except TooMany:
                    r.fail('never-ends', op)
                    return None
                except Exception:
                    if len(pdf.pages) > before and not op.startswith('page'):
                        Doc(output(pdf))
                        return None     # found after a page was completed: the good part stays
                else:
                    r.fail('accepted', '%s was accepted' % op)
                    return None
            else:
                good[op](pdf, n)
            pos.append((len(pdf.pages), round(pdf.page.x, 4), round(pdf.page.y, 4)))
        d = Doc(output(pdf))
        names = sorted((str(k), v) for k, v in (pdf.dests or {}).items() if len(k) < 30) + [(len(pdf.dests or {}), 0)]
        return doc_digest(d), len(d.pages), pos[-1], [k for k, v in names]
    x = play(True)
    if x is None:
        return
    y = play(False)
    r.trans += 2
    r.expect(x[1] == y[1], 'pages-left', lambda: '%d pages, %d without the refused call' % (x[1], y[1]))
    r.expect(x[2] == y[2], 'position-left', lambda: 'at %s, %s without the refused call' % (x[2], y[2]))
    r.expect(x[3] == y[3], 'labels-left', lambda: '%s, %s without the refused call' % (x[3], y[3]))
    r.expect(x[0] == y[0], 'contents-left', lambda: 'the pages differ from those without the refused call')
    r.compared += 1
    r.state(x[0])


FAMILIES = [
    Family('places', gen_places, run_places, lambda t: '%d parts that are not allowed, in all nestings of up to %d of 8 containers, 4 positions among siblings, 6 places of the document' % (len(ALL), 2 if t == 'quick' else 3)),
    Family('unfit', gen_unfit, run_unfit, lambda t: '%d parts that fit no page, in all nestings of up to %d of 6 containers, 4 positions among siblings, 4 places of the document, and in PDF.text, table and content' % (len(UNFIT), 1 if t == 'quick' else 2)),
    Family('settings', gen_settings, run_settings, '%d settings of documents and sections that are not allowed (thorough: and their pairs)' % len(SETTINGS)),
    Family('strings', gen_strings, run_strings, 'style strings: all pairs of %d names and %d values, alone and with others, in %d places (thorough: all pairs of them)' % (len(ATTRS), len(VALUES), len(STRING_PLACES))),
    Family('calls', gen_calls, run_calls, 'refused calls of 5 methods before and after all sequences of up to 2 (thorough 3) of 9 calls; pairs of refused calls'),
]
