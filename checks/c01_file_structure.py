"""C01: every output file is structurally valid, whatever was added, however
often and to whatever sink it is written."""
import io
import itertools

from mc.engine import Family
from mc.util import *
from pdfme.base import PDFBase
from mc import spec_obj

PROPERTY = 'C01'
EXPLANATION = (
    'Explicit enumeration of public operation sequences on the real PDF and '
    'PDFBase objects, every output parsed by an independent strict PDF reader '
    '(header, byte offset of every xref entry, object framing, stream lengths '
    'and filters, startxref, trailer, page tree) and compared with the model '
    'of what was added; sink faults at every write position.')
ASSUMPTIONS = ['mc/pdfread.py implements ISO 32000 syntax correctly (its self test '
               'rejects single-byte corruptions of valid files)']

IMG = jpeg(4, 2)

OPS = ['page', 'page_letter', 'text', 'link', 'label', 'outline', 'image',
       'table', 'content', 'raw', 'output']


class Model:
    def __init__(self):
        self.pages = []      # list of expected (w, h)
        self.texts = []      # per page: words shown
        self.labels = set()
        self.outlines = 0
        self.uris = 0
        self.raw = []


def apply_op(op, pdf, m, n):
    if op == 'page':
        pdf.add_page()
        m.pages.append((595.276, 841.89))
        m.texts.append('')
    elif op == 'page_letter':
        pdf.add_page(page_size='letter', rotate_page=True, margin=20)
        m.pages.append((792, 612))
        m.texts.append('')
    elif op == 'text':
        pdf.text('w%d (x) \\' % n)
        m.texts[-1] += 'w%d(x)\\' % n
    elif op == 'link':
        pdf.text({'.': ['u%d' % n], 'uri': 'http://e/%d?(\\)' % (n % 2)})
        m.texts[-1] += 'u%d' % n
    elif op == 'label':
        pdf.text([{'.': ['l%d' % n], 'label': 'L%d' % n}, {'.': ['r'], 'ref': 'L%d' % n}])
        m.texts[-1] += 'l%dr' % n
        m.labels.add('L%d' % n)
    elif op == 'outline':
        pdf.text({'.': ['o%d' % n], 'outline': {'level': 1, 'text': 'T(%d)\\' % n}})
        m.texts[-1] += 'o%d' % n
        m.outlines += 1
    elif op == 'image':
        pdf.image(io.BytesIO(IMG), 'jpg', 'im%d' % (n % 2), width=20)
    elif op == 'table':
        pdf.table([['a%d' % n, 'b']], widths=[1, 2])
        m.texts[-1] += 'a%db' % n
    elif op == 'content':
        pdf.content({'cols': {'count': 2}, 'content': ['c%d' % n, 'd']})
        m.texts[-1] += 'c%dd' % n
    elif op == 'raw':
        v = [n, 'a\nb', {'K': b'/N', 'S': [True, -1.5]}]
        o = pdf.base.add(v)
        m.raw.append((int(o.id), v))


def check_output(data, m, r):
    d = Doc(data)
    r.expect([(round(p.width, 3), round(p.height, 3)) for p in d.pages] == m.pages,
             'page-sizes', lambda: '%r != %r' % ([(p.width, p.height) for p in d.pages], m.pages))
    got = [''.join(''.join(t.text for t in p.texts).split()) for p in d.pages]
    r.expect(got == m.texts, 'page-text', lambda: '%r != %r' % (got, m.texts))
    for path, ref in d.pdf.walk_refs():
        r.expect(ref.num in d.pdf.objects, 'dangling-ref', lambda: '%r %r' % (path, ref))
    for num, v in m.raw:
        r.expect(spec_obj.matches(v, d.pdf.objects.get(num)), 'object-value',
                 lambda: 'object %d: %r != %r' % (num, d.pdf.objects.get(num), v))
    r.expect(isinstance(d.pdf.trailer.get('ID'), list) and len(d.pdf.trailer['ID']) == 2
             and all(isinstance(x, bytes) and len(x) >= 16 for x in d.pdf.trailer['ID']),
             'trailer-id', lambda: repr(d.pdf.trailer))
    r.compared += 1
    r.state((len(d.pdf.objects), doc_digest(d)))
    return d


def gen_session(tier):
    n = 5 if tier == 'quick' else 6
    for s in seqs(OPS, n, 1):
        if s[0] not in ('page', 'page_letter', 'raw'):
            continue
        if s[-1] == 'output':
            continue
        have = False
        ok = True
        for o in s:
            if o.startswith('page'):
                have = True
            elif o != 'raw' and not have:
                ok = False
                break
        if ok and have:
            yield s


def run_session(s, r):
    pdf = PDF()
    m = Model()
    for n, op in enumerate(s):
        r.trans += 1
        if op == 'output':
            check_output(output(pdf), m, r)
        else:
            apply_op(op, pdf, m, n)
    a = check_output(output(pdf), m, r)
    b = check_output(output(pdf), m, r)
    r.trans += 2
    r.expect(doc_digest(a) == doc_digest(b), 'second-output-differs')


def gen_pages(tier):
    top = 130 if tier == 'quick' else 1200
    for n in range(1, top, 1 if tier == 'quick' else 7):
        yield ('pages', n)
    for n in range(1, top, 3):
        yield ('raws', n)
    # object numbers and counts of more digits
    for n in [10 ** k - d for k in (3, 4) for d in range(-1, 9)] + [2 ** k + d for k in (8, 9, 10, 12) for d in (-6, -5, -4, -3, -2, -1, 0, 1)]:
        yield ('raws', n)
    for n in (333, 499, 512, 700, 1001):
        yield ('pages', n)
    # object sizes that push offsets over decimal digit boundaries
    for n in list(range(0, 140)) + [10 ** k - d for k in (3, 4, 5, 6) for d in range(0, 260, 13)]:
        yield ('pad', n)


def run_pages(case, r):
    kind, n = case
    pdf = PDF()
    m = Model()
    if kind == 'pages':
        for i in range(n):
            apply_op('page' if i % 3 else 'page_letter', pdf, m, i)
            apply_op('text', pdf, m, i)
    elif kind == 'raws':
        apply_op('page', pdf, m, 0)
        for i in range(n):
            apply_op('raw', pdf, m, i)
    else:
        apply_op('page', pdf, m, 0)
        s = 'x' * n
        o = pdf.base.add(s)
        m.raw.append((int(o.id), s))
        apply_op('raw', pdf, m, 1)
    r.trans += (n if kind != "pad" else 2)
    check_output(output(pdf), m, r)


# ---- raw objects and streams through PDFBase ------------------------------

PAY = [b'', b'a', b'\n', b'\r', b'endstream', b'\nendstream\nendobj\n', b'\x00\xff',
       b'stream', b'x' * 300, bytes(range(256))]


def gen_streams(tier):
    pays = [p for p in PAY] + [a + b for a in PAY for b in PAY]
    if tier == 'thorough':
        pays += [a + b + c for a in PAY for b in PAY for c in PAY]
        pays += [bytes([a, b]) for a in range(256) for b in range(256)]
    else:
        pays += [bytes([a]) for a in range(256)]
    # large streams, around the sizes of usual buffers
    for k in (12, 13, 15, 16, 17, 20):
        for d in (-1, 0, 1):
            for unit in (b'x', bytes(range(256)), b'\nendstream\nendobj\n', b'\r\n'):
                n = 2 ** k + d
                pays.append((unit * (n // len(unit) + 1))[:n])
    for p in pays:
        for kind in ('plain', 'flate', 'skip', 'parts', 'parts-flate'):
            yield (kind, p)


def run_streams(case, r):
    kind, pay = case
    base = PDFBase()
    root = base.add({'Type': b'/Catalog'})
    base.trailer['Root'] = root.id
    d = {'A': 1, '__stream__': pay}
    if kind == 'flate':
        d['Filter'] = b'/FlateDecode'
    elif kind == 'skip':
        d['Filter'] = b'/DCTDecode'
        d['__skip_filter__'] = True
    elif kind.startswith('parts'):
        h = len(pay) // 2
        d['__stream__'] = {0: pay[:h], 1: pay[h:]}
        if kind == 'parts-flate':
            d['Filter'] = b'/FlateDecode'
    o = base.add(d)
    after = base.add(['after', 1])
    want = pay
    for rep in range(2):
        b = io.BytesIO()
        base.output(b)
        p = Pdf(b.getvalue())
        s = p.objects[int(o.id)]
        r.expect(isinstance(s, Stream), 'not-a-stream', lambda: repr(s))
        r.expect(s.data == want, 'stream-data', lambda: '%r != %r' % (s.data[:80], want[:80]))
        r.expect(s.dict.get('A') == 1 and s.dict.get('Filter') == (
            None if 'Filter' not in d else d['Filter'][1:].decode()), 'stream-dict', lambda: repr(s.dict))
        r.expect(p.objects[int(after.id)] == [b'after', 1], 'object-after-stream')
        r.trans += 1
        r.state((kind, len(s.raw), b.getvalue()[:60]))
    r.compared += 1


# ---- faulty sinks ----------------------------------------------------------

class Sink:
    """Fails at the k-th write, after taking `part` bytes of it."""

    def __init__(self, k, part):
        self.k = k
        self.part = part
        self.got = b''

    def write(self, b):
        if self.k == 0:
            self.got += b[:self.part]
            raise OSError('disk full')
        self.k -= 1
        self.got += b
        return len(b)


DOCS = [('page', 'text'), ('page', 'link', 'label', 'image'),
        ('page', 'table', 'page_letter', 'outline', 'content', 'raw')]


def gen_fault(tier):
    for ops in DOCS if tier == 'quick' else DOCS + [tuple(OPS[:-1]) * 2]:
        pdf, m = make(ops)
        b = io.BytesIO()
        n = [0]

        class W:
            def write(self, x):
                n[0] += 1
                return len(x)
        pdf.output(W())
        for k in range(n[0]):
            for part in (0, 1):
                for again in (0, 1):
                    yield (ops, k, part, again)


def make(ops):
    pdf = PDF()
    m = Model()
    for i, op in enumerate(ops):
        apply_op(op, pdf, m, i)
    return pdf, m


def run_fault(case, r):
    ops, k, part, again = case
    pdf, m = make(ops)
    s = Sink(k, part)
    try:
        pdf.output(s)
        r.fail('sink-error-swallowed')
    except OSError:
        pass
    r.trans += 1
    if again:
        try:
            pdf.output(Sink(k // 2, part))
        except OSError:
            pass
        r.trans += 1
    if m.pages and again:
        apply_op('text', pdf, m, 77)
    check_output(output(pdf), m, r)
    r.trans += 1


def sink_contract(case, r):
    pass


# ---- every kind of sink ----------------------------------------------------

def gen_sink(tier):
    for ops in DOCS:
        for kind in ('bytesio-prefix', 'append-only', 'file'):
            yield (ops, kind)


def run_sink(case, r):
    ops, kind = case
    pdf, m = make(ops)
    if kind == 'append-only':
        out = []

        class W:
            def write(self, b):
                out.append(bytes(b))
        pdf.output(W())
        data = b''.join(out)
    elif kind == 'file':
        import tempfile
        with tempfile.TemporaryFile() as f:
            pdf.output(f)
            f.seek(0)
            data = f.read()
    else:
        b = io.BytesIO()
        pdf.output(b)
        data = b.getvalue()
    r.trans += 1
    check_output(data, m, r)


FAMILIES = [
    Family('sessions', gen_session, run_session,
           lambda t: 'all sequences of <=%d operations out of %d, outputs allowed anywhere, two final outputs'
           % (5 if t == 'quick' else 6, len(OPS))),
    Family('sizes', gen_pages, run_pages, 'page counts, object counts and object sizes across digit boundaries'),
    Family('streams', gen_streams, run_streams, 'all concatenations of the payload fragments, five stream forms, two outputs'),
    Family('sink-faults', gen_fault, run_fault, 'a sink failing at every write position (0 or 1 byte taken), then a retry'),
    Family('sinks', gen_sink, run_sink, 'in-memory, append-only and file sinks'),
]
