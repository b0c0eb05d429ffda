"""C02: every value put into a document is read back unchanged from the file."""
import io
import itertools

from mc.engine import Family
from mc.util import *
from mc import spec_obj
from pdfme.base import PDFBase
from pdfme.parser import PDFObject, PDFRef

PROPERTY = 'C02'
EXPLANATION = (
    'Exhaustive enumeration of Python values up to stated sizes, each added as '
    'an object, written, parsed back by the independent reader and compared '
    'with the documented Python-to-PDF mapping; the same for strings that '
    'reach the file as link targets, outline titles and destination names.')
ASSUMPTIONS = ['strings are PDF text strings: Latin-1 bytes, or UTF-16 with a mark when they have other characters; targets of web links are Latin-1',
               'infinities and NaN have no PDF representation and are not generated']

LATIN = [chr(i) for i in range(256)]
SPECIAL = ['\\', '(', ')', '\n', '\r', 'a', '0', '\xe9', '<', '>', '/', '%', ' ', '\t', '#', '[']


# characters whose UTF-16 bytes are special inside a PDF string
WIDE = ['\u0142', '\u4e2d', '\u0a28', '\u5c29', '\u290d', '\u0d5c', '\u0028\u2829', '\U0001F600', '\ufffd']


def roundtrip(values, r):
    base = PDFBase()
    root = base.add({'Type': b'/Catalog'})
    base.trailer['Root'] = root.id
    ids = [int(base.add(v).id) for v in values]
    for rep in range(2):
        b = io.BytesIO()
        base.output(b)
        p = Pdf(b.getvalue())
        for i, v in zip(ids, values):
            got = p.objects.get(i)
            r.trans += 1
            r.expect(spec_obj.matches(v, got), 'value-changed', lambda: 'wrote %r, file says %r' % (v, got))
            r.expect(not isinstance(got, Stream), 'value-became-stream')
        r.compared += len(values)
    r.state(b.getvalue()[:-200])


def gen_str(tier):
    for a in LATIN:
        yield [''] + [a] + [a + b for b in LATIN]
    n = 3 if tier == 'quick' else 4
    for p in itertools.product(SPECIAL, repeat=n - 1):
        yield [''.join(p) + s for s in SPECIAL]
    for p in itertools.product(SPECIAL[:9] + WIDE, repeat=n - 1):
        yield [''.join(p) + s for s in WIDE] + [s + ''.join(p) for s in WIDE]


def run_str(case, r):
    roundtrip(case, r)


INTS = [0, 1, -1, 7, 10, 255, -256, 65535, 2 ** 31 - 1, -2 ** 31, 123456789]
FLOATS = [0.0, -0.0, 0.5, -0.5, 1.0, 1e-3, 1e-4, 9.9e-5, 1e-5, 1e-7, -2.5e-9, 12345.678,
          1e15, 1e16, 3e17, 0.1 + 0.2, 1 / 3, -1 / 7, 595.276, 1e-10]


def gen_num(tier):
    for v in INTS:
        yield v
    for v in FLOATS:
        yield v
    digits = range(1, 10) if tier == 'thorough' else (1, 5, 9)
    for e in range(-9, 18):
        for d in digits:
            for e2 in range(0, 4):
                for s in (1, -1):
                    yield s * float('%d.%de%d' % (d, e2, e))
    for k in range(-2000, 2000, 1 if tier == 'thorough' else 7):
        yield k / 1000.0


def run_num(case, r):
    roundtrip([case, [case, case], {'A': case, 'B': [case]}], r)


# ---- containers ------------------------------------------------------------

def leaves():
    return [True, False, 0, -3, 1.5, 's', '(', 'x\\', b'/Name', PDFRef(1), '', {}, []]


def trees(depth, width):
    """all trees of the given depth over a leaf alphabet"""
    L = leaves()
    if depth == 0:
        yield from L
        return
    sub = list(trees(depth - 1, width)) if depth > 1 else L
    for n in range(width + 1):
        for combo in itertools.product(sub if n == 1 else L + sub[-4:] if n > 1 else L, repeat=n):
            yield list(combo)
            yield {'K%d' % i: v for i, v in enumerate(combo)}
            if n == 2:
                yield tuple(combo)


def gen_tree(tier):
    yield from ([v] for v in leaves())
    for v in trees(1, 2 if tier == 'quick' else 3):
        yield [v]
    for v in trees(2, 2):
        yield [v]
    # deep nesting
    for d in range(3, 40):
        v = 1
        for i in range(d):
            v = [v] if i % 2 else {'D': v}
        yield [v]
    for s in ({1}, {'(', ')'}, {1, 2, 3}, set()):
        yield [s]


def run_tree(case, r):
    roundtrip(case, r)


def run_key(case, r):
    roundtrip([{k: 1 for k in case}, {k: 'v' for k in case}, [{k: b'/N'} for k in case]], r)


def gen_key(tier):
    for a in LATIN[1:]:
        yield [a, 'K' + a, a + 'K', a + a]
    for a, b in itertools.product(SPECIAL, repeat=2):
        yield [a + b, 'K' + a + b + 'x']


# ---- large values -------------------------------------------------------------

SIZES = sorted({2 ** k + d for k in (5, 6, 7, 8, 9, 10, 12, 15, 16) for d in (-1, 0, 1, 2)} | {20, 50, 100, 200, 500, 1000})


def gen_large(tier):
    sizes = SIZES if tier == 'quick' else sorted(set(SIZES) | set(range(1, 300)))
    for n in sizes:
        for unit in ('x', 'ab (c) ', '\\', ')(', '\n', '\xe9', 'a\u4e2d', '\u5c29'):
            yield ('str', n, unit)
            yield ('text', n, unit)
        yield ('name', min(n, 200), 'N')
        yield ('key', min(n, 200), 'K(')
    for n in [k for k in sizes if k < 3000]:
        for kind in range(7):
            yield ('list', n, kind)
            yield ('dict', n, kind)
    for n in (64, 100, 150, 200):
        for kind in range(3):
            yield ('deep', n, kind)


def run_large(case, r):
    what, n, unit = case
    if what in ('str', 'text', 'key'):
        s = (unit * (n // len(unit) + 1))[:n - 1] + 'Z'
    if what == 'str':
        roundtrip([s, [s, s], {'A': s, 'B': 1}], r)
    elif what == 'key':
        roundtrip([{s: 1, 'B' + s: [s]}], r)
    elif what == 'name':
        roundtrip([b'/' + b'N' * (n - 1), [b'/' + b'N' * (n - 1), 1]], r)
    elif what == 'text':
        run_doc(s, r)
    elif what == 'deep':
        v = [1, 'end', {'K': b'/N'}]
        for i in range(n):
            v = [v] if unit == 0 or unit == 2 and i % 2 else {'D': v}
        roundtrip([v], r)
    else:
        leaf = [lambda i: i, lambda i: 's%d' % i, lambda i: b'/N%d' % i, lambda i: i / 8, lambda i: bool(i % 3), lambda i: [i], lambda i: PDFRef(1 + i % 5)][unit]
        alt = [lambda i: i, lambda i: 's', lambda i: {}]
        mixed = [leaf(i) if i % 4 < 2 else alt[i % 3](i) for i in range(n)]
        if what == 'list':
            roundtrip([[leaf(i) for i in range(n)], tuple(mixed), {'A': mixed, 'B': [mixed]}], r)
        else:
            roundtrip([{'K%d' % i: leaf(i) for i in range(n)}, [{'K%d' % i: v for i, v in enumerate(mixed)}]], r)


# ---- strings that travel through the high level interface ------------------

def gen_doc(tier):
    n = 2 if tier == 'quick' else 3
    for p in itertools.product(SPECIAL + ['\xff', '\x00', '\x80', '$', '{', '"', ':'], repeat=n):
        yield ''.join(p)
    for a in LATIN:
        yield a
    for p in itertools.product(SPECIAL[:9] + WIDE, repeat=n):
        if any(len(c.encode()) > 2 or ord(c[0]) > 255 for c in p):
            yield ''.join(p)


def run_doc(s, r):
    pdf = PDF()
    pdf.add_page()
    enc = spec_obj.text
    u = s if all(ord(c) < 256 for c in s) else ''
    pdf.text([{'.': 'T', 'label': 'L' + s, 'uri': 'U' + u, 'outline': {'text': 'O' + s}},
              {'.': 'R', 'ref': 'L' + s},
              {'.': 'V', 'uri': u + 'U'}])
    d = Doc(output(pdf))
    uris = []
    dests = []
    for a in d.pages[0].annots:
        if 'A' in a:
            act = d.pdf.get(a['A'])
            r.expect(act.get('S') == 'URI' and act.get('Type', 'Action') == 'Action', 'uri-action', repr(act))
            uris.append(act.get('URI'))
        if 'Dest' in a:
            dests.append(a['Dest'])
    r.expect(sorted(uris) == sorted([enc('U' + u), enc(u + 'U')]), 'uri-changed', lambda: repr((s, uris)))
    r.expect(dests == [enc('L' + s)], 'ref-changed', lambda: repr((s, dests)))
    names = d.pdf.get(d.pdf.get(d.pdf.root['Names'])['Dests'])['Names']
    r.expect(names[0] == enc('L' + s), 'label-changed', lambda: repr((s, names)))
    out = d.pdf.get(d.pdf.get(d.pdf.root['Outlines'])['First'])
    r.expect(out.get('Title') == enc('O' + s), 'outline-title-changed', lambda: repr((s, out)))
    r.expect(out.get('Dest') == enc('L' + s), 'outline-dest-changed', lambda: repr((s, out)))
    r.trans += 6
    r.compared += 1
    r.state((s, tuple(uris), tuple(dests)))


# ---- the list of objects of a document ----------------------------------------

ADDS = [lambda n: {'K': n, 'L': [n]}, lambda n: ['a%d' % n, PDFRef(1)], lambda n: {'__stream__': b'data %d' % n, 'K': n}, lambda n: 's%d' % n]
EDITS = [('add', k) for k in range(len(ADDS))] + [(o, i) for o in ('put', 'set', 'del', 'value', 'update') for i in (1, -1)] + [('out', 0)]
TRAILERS = [None, {}, {'Info': {'Title': 'T('}, 'X': [1, 'y']}, {'ID': [b'<00>', b'<FF>']}]


def gen_objects(tier):
    for seq in seqs(EDITS, 4 if tier == 'quick' else 5, 1):
        if seq[-1][0] != 'out':
            yield (seq, 0, '1.5')
    for seq in seqs(EDITS, 2, 1):
        for t in range(len(TRAILERS)):
            for v in ('1.4', '1.5', '1.7', '2.0'):
                yield (seq, t, v)


def same_as(base, model, r, trailer, version):
    b = io.BytesIO()
    base.output(b)
    p = Pdf(b.getvalue())
    r.trans += 1
    if not r.expect(b.getvalue()[:5 + len(version) + 1] == b'%PDF-' + version.encode() + b'\n', 'version', lambda: repr(b.getvalue()[:10])):
        return
    if not r.expect(sorted(p.objects) == list(range(1, len(model) + 1)), 'objects', lambda: '%s, expected %d' % (sorted(p.objects), len(model))):
        return
    for i, v in enumerate(model, 1):
        got = p.objects[i]
        if isinstance(v, dict) and '__stream__' in v:
            want = {k: x for k, x in v.items() if k != '__stream__'}
            ok = isinstance(got, Stream) and got.data == v['__stream__'] and spec_obj.matches(want, {k: x for k, x in got.dict.items() if k != 'Length'})
        else:
            ok = not isinstance(got, Stream) and spec_obj.matches(v, got)
        if not r.expect(ok, 'object', lambda: 'object %d is %r, expected %r' % (i, got, v)):
            return
    t = dict(trailer or {})
    for k, v in t.items():
        if k == 'ID':
            r.expect(p.trailer.get('ID') == [b'\x00', b'\xff'], 'trailer-id', lambda: repr(p.trailer))
        else:
            r.expect(spec_obj.matches(v, p.trailer.get(k)), 'trailer', lambda: repr(p.trailer))
    r.expect(set(p.trailer) == set(t) | {'Root', 'Size', 'ID'}, 'trailer-keys', lambda: repr(sorted(p.trailer)))
    r.state(b.getvalue()[:b.getvalue().rindex(b'trailer')])


def run_objects(case, r):
    seq, t, version = case
    tr = TRAILERS[t]
    base = PDFBase(version, None if tr is None else dict(tr))
    model = [{'Type': b'/Catalog'}]
    base.trailer['Root'] = base.add({'Type': b'/Catalog'}).id
    for n, (op, a) in enumerate(seq):
        r.trans += 1
        i = len(model) if a < 0 else min(2, len(model))
        if op == 'add':
            o = base.add(ADDS[a](n))
            model.append(ADDS[a](n))
            r.expect(int(o.id) == len(model) and o.id.ref == b'%d 0 R' % len(model), 'id', lambda: repr(o.id))
        elif op == 'out':
            same_as(base, model, r, tr, version)
        elif i < 2:
            continue
        elif op == 'put':
            base[i] = PDFObject(PDFRef(i), {'P': n})
            model[i - 1] = {'P': n}
        elif op == 'value':
            base[i].value = ['v', n]
            model[i - 1] = ['v', n]
        elif isinstance(model[i - 1], dict):
            m, o = model[i - 1], base[i]
            if op == 'set':
                o['K'] = m['K'] = 'set%d' % n
            elif op == 'del' and 'K' in m:
                del o['K'], m['K']
            elif op == 'update':
                o['L'] = m['L'] = {'x': [n]}
            r.expect(('K' in o) == ('K' in m) and ('Z' not in o) and all(o[k] == m[k] for k in m), 'dictionary', lambda: repr(o.value))
    r.expect(len(base) == len(model), 'length', lambda: len(base))
    its = list(base)
    r.expect(its[0] is None and base[0] is None and len(its) == len(model) + 1, 'iteration', lambda: repr(its))
    for i in range(1, len(model) + 1):
        r.expect(its[i] is base[i], 'item', i)
    same_as(base, model, r, tr, version)
    same_as(base, model, r, tr, version)
    r.compared += 1


def gen_refused(tier):
    yield from range(len(REFUSED))


REFUSED = [(lambda: PDFBase().add(None), TypeError), (lambda: PDFBase().add(object()), TypeError), (lambda: PDFBase().add(1j), TypeError),
           (lambda: PDFBase(trailer=[1]), ValueError), (lambda: PDFBase(trailer='x'), ValueError), (lambda: PDFBase(trailer=1), ValueError),
           (lambda: PDFObject(1), TypeError), (lambda: PDFObject('1'), TypeError), (lambda: PDFObject(None, {}), TypeError)]


def run_refused(case, r):
    f, e = REFUSED[case]
    try:
        f()
    except e:
        r.state(case)
        r.trans += 1
        return
    r.fail('not-refused', str(case))


FAMILIES = [
    Family('numbers', gen_num, run_num, 'integers, and decimals d.e x 10^k for k in -9..17, standalone and nested'),
    Family('strings', gen_str, run_str,
           lambda t: 'all Latin-1 strings of length <=2, all length-%d strings over 16 special characters and 9 that are not Latin-1' % (3 if t == 'quick' else 4)),
    Family('containers', gen_tree, run_tree, 'all lists/tuples/dicts over 13 leaf kinds to depth 2, deep chains to 40'),
    Family('keys', gen_key, run_key, 'dict keys with every Latin-1 character but NUL, all pairs of special characters'),
    Family('large', gen_large, run_large, 'strings (alone, and as targets, labels and titles) of 20 to 65538 characters in 8 contents, lists and dicts of 20 to 1026 entries of 7 kinds, nestings of 64 to 200'),
    Family('document-strings', gen_doc, run_doc,
           'every Latin-1 character, 9 others, and all strings of special characters as uri, label, ref and outline title'),
    Family('objects', gen_objects, run_objects,
           lambda t: 'all sequences of %d operations out of %d on the list of objects (add, replace, change, delete keys, write); 4 trailers and 4 versions' % (4 if t == 'quick' else 5, len(EDITS))),
    Family('refused', gen_refused, run_refused, 'values that are not allowed'),
]
