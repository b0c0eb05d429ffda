"""Shared helpers of the checks."""
import base64
import copy
import io
import itertools
import os

from . import env
from .env import PDF, build_pdf, PDFText, PDFTable, PDFContent  # noqa
from .pdfread import Pdf, PdfError, Name, Ref, Stream  # noqa
from .interp import render, run as interp_run  # noqa
from . import metrics

TOL = 0.011     # coordinates are written with three decimals and accumulate
VERIF = env.VERIF


def output(pdf):
    b = io.BytesIO()
    pdf.output(b)
    return b.getvalue()


def build(doc, context=None):
    b = io.BytesIO()
    if context is None:
        build_pdf(doc, b)
    else:
        build_pdf(doc, b, context)
    return b.getvalue()


class Doc:
    """A parsed, rendered document."""

    def __init__(self, data):
        self.data = data
        self.pdf = Pdf(data)
        self.pages = render(self.pdf)


def view(doc, context=None):
    return Doc(build(doc, context))


def near(a, b, tol=TOL):
    return abs(a - b) <= tol


def fmt(v):
    return '%.2f' % v


def page_digest(p):
    return (round(p.width, 2), round(p.height, 2),
            tuple((round(t.x, 2), round(t.y, 2), t.text, t.font, t.size, t.color, round(t.tw, 3))
                  for t in p.texts),
            tuple((round(a, 2), round(b, 2), round(c, 2), round(d, 2), e) for a, b, c, d, e, _ in p.rects),
            tuple(tuple(round(v, 2) for v in l[:5]) + tuple(l[5:8]) for l in p.lines),
            tuple(tuple(round(v, 2) for v in i[:4]) for i in p.images),
            len(p.annots))


def doc_digest(d):
    return tuple(page_digest(p) for p in d.pages)


# ---- images ---------------------------------------------------------------

def jpeg(w=4, h=2, n=3, prog=False, app=b'', fill=b''):
    """A structurally valid JPEG header with the given dimensions."""
    sof = 0xC2 if prog else 0xC0
    out = b'\xff\xd8'
    out += b'\xff\xe0' + (2 + 14).to_bytes(2, 'big') + b'JFIF\0\1\1\0\0\1\0\1\0\0'
    if app:
        out += b'\xff\xe1' + (2 + len(app)).to_bytes(2, 'big') + app
    out += b'\xff\xdb' + (67).to_bytes(2, 'big') + b'\0' + bytes([1] * 64)
    body = bytes([8]) + h.to_bytes(2, 'big') + w.to_bytes(2, 'big') + bytes([n])
    for i in range(n):
        body += bytes([i + 1, 0x11, 0])
    out += bytes([0xff, sof]) + (len(body) + 2).to_bytes(2, 'big') + body
    out += b'\xff\xda' + (6 + 2 * n).to_bytes(2, 'big') + bytes([n]) + b''.join(
        bytes([i + 1, 0]) for i in range(n)) + b'\0\x3f\0'
    out += fill + b'\x00\xff\xd9'
    return out


def jpg_io(w=4, h=2, **k):
    return io.BytesIO(jpeg(w, h, **k))


def seqs(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(alphabet, repeat=n)


def full_digest(d, labels=()):
    """everything a user can see or follow in a document, without the random
    identifiers of unnamed outline labels"""
    from . import nav
    ds = nav.dests(d)
    tree = []

    def walk(os_, lv):
        for o in os_:
            tree.append((lv, o.title, ds.get(o.dest), (o.count or 0) > 0))
            walk(o.kids, lv + 1)
    real, mode = nav.outlines(d)
    walk(real, 1)
    ol = set()

    def coll(os_):
        for o in os_:
            ol.add(o.dest)
            coll(o.kids)
    coll(real)
    named = tuple(sorted((k, v) for k, v in ds.items() if not (k in ol and len(k) == 36)))
    links = []
    for p in d.pages:
        links.append(tuple((nav.link_target(d.pdf, a), tuple(a['Rect'])) for a in p.annots))
    imgs = []
    for p in d.pages:
        imgs.append(tuple(h8b(d.pdf.objects[q[4]].raw if hasattr(d.pdf.objects[q[4]], 'raw') else d.pdf.objects[q[4]].data) for q in p.images))
    return (doc_digest(d), tuple(tree), mode, named, tuple(links), tuple(imgs))


def h8b(b):
    import hashlib
    return hashlib.blake2b(b, digest_size=8).hexdigest()
