"""Self test of the oracles: the reader must accept valid files and reject
damaged ones; the interpreter must reject malformed content streams."""
import io
import re

from .util import *
from .interp import run as irun


def sample():
    pdf = PDF(page_size=(400, 400))
    pdf.add_page()
    pdf.text([{'.': 'a (b) \\ c', 'label': 'L', 'uri': 'http://x'}, {'.b': 'd', 'ref': 'L', 'outline': {'level': 1}}])
    pdf.image(jpg_io(), 'jpg', 'x', width=10)
    return output(pdf)


def main():
    data = sample()
    d = Doc(data)
    assert ''.join(t.text for t in d.pages[0].texts) == 'a (b) \\ cd', d.pages[0].texts
    assert len(d.pages[0].images) == 1 and len(d.pages[0].annots) in (2, 3)
    # structural damage must be noticed
    n = bad = 0
    sx = data.rindex(b'xref\n0 ')
    for pos in list(range(0, 9)) + list(range(sx, len(data) - 6)):
        mut = data[:pos] + b'X' + data[pos + 1:]
        n += 1
        if mut == data:
            continue
        try:
            p = Pdf(mut)
            if p.trailer != d.pdf.trailer or p.offsets != d.pdf.offsets:
                bad += 1
        except PdfError:
            bad += 1
    # a byte inserted anywhere before the xref shifts offsets
    for pos in range(20, sx, 7):
        mut = data[:pos] + b' ' + data[pos:]
        n += 1
        try:
            Pdf(mut)
        except PdfError:
            bad += 1
    assert bad >= n - 60, (bad, n)
    for s in (b'q', b'Q', b'BT', b'(a) Tj', b'1 0 m S x', b'BT /F9 1 Tf ET', b'1 2 3 re F', b'<<', b'(a', b'BT /F1 11 Tf (a)(b) Tj ET'):
        try:
            irun(s, {'F1': metrics.std('Helvetica')}, {})
        except PdfError:
            continue
        raise AssertionError(s)
    print('self test: %d damaged files, %d rejected' % (n, bad))
    return 0
