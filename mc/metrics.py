"""Fonts as a viewer sees them: decode shown strings, glyph widths.

Standard fonts: widths come from /verif/data/afm.json (a snapshot, see
DESIGN.md), never from the tree under test.
"""
import json
import os
import re
from .pdfread import PdfError, Stream, Ref

_here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(_here, 'data', 'afm.json')) as f:
    AFM = json.load(f)   # base font name -> list of 256 widths


class StdFont:
    kind = 'std'

    def __init__(self, base):
        self.base = base
        self.w = AFM[base]

    def decode(self, data):
        return [(c, chr(c), self.w[c], True) for c in data]

    def width(self, text):
        return sum(self.w[ord(c)] for c in text) / 1000.0


class CIDFont:
    kind = 'cid'

    def __init__(self, base, widths, dw, tounicode, desc):
        self.base = base
        self.widths = widths
        self.dw = dw
        self.tounicode = tounicode
        self.desc = desc

    def decode(self, data):
        if len(data) % 2:
            raise PdfError('odd length string for a 2-byte font: %r' % (data,))
        out = []
        for i in range(0, len(data), 2):
            c = data[i] * 256 + data[i + 1]
            out.append((c, self.tounicode.get(c, '\ufffd'),
                        self.widths.get(c, self.dw), False))
        return out


def parse_w(arr, get):
    out = {}
    i = 0
    arr = get(arr) or []
    while i < len(arr):
        first = get(arr[i])
        second = get(arr[i + 1])
        if not isinstance(first, int):
            raise PdfError('bad W array entry %r' % (first,))
        if isinstance(second, list):
            for k, w in enumerate(second):
                w = get(w)
                if not isinstance(w, (int, float)):
                    raise PdfError('bad width %r' % (w,))
                if first + k in out and out[first + k] != w:
                    raise PdfError('W array gives two widths for CID %d' % (first + k))
                out[first + k] = w
            i += 2
        else:
            w = get(arr[i + 2])
            if not isinstance(second, int) or second < first:
                raise PdfError('bad W range')
            for k in range(first, second + 1):
                if k in out and out[k] != w:
                    raise PdfError('W array gives two widths for CID %d' % k)
                out[k] = w
            i += 3
    return out


def parse_tounicode(data):
    """bfchar/bfrange sections -> {code: text}, strict on token lengths."""
    txt = data.decode('latin-1')
    m = re.search(r'begincodespacerange\s*<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>', txt)
    if not m:
        raise PdfError('ToUnicode CMap without a code space range')
    n = len(m.group(1))
    out = {}

    def uni(h):
        if len(h) % 4:
            raise PdfError('ToUnicode destination <%s> is not UTF-16BE' % h)
        try:
            return bytes.fromhex(h).decode('utf-16-be')
        except UnicodeDecodeError:
            raise PdfError('ToUnicode destination <%s> is not UTF-16BE' % h)

    for m in re.finditer(r'(\d+)\s+beginbfchar(.*?)endbfchar', txt, re.S):
        toks = re.findall(r'<([0-9A-Fa-f]*)>', m.group(2))
        if len(toks) != 2 * int(m.group(1)):
            raise PdfError('bfchar count does not match its entries')
        for a, b in zip(toks[::2], toks[1::2]):
            if len(a) != n:
                raise PdfError('bfchar source code <%s> is not %d hex digits' % (a, n))
            out.setdefault(int(a, 16), uni(b))
    for m in re.finditer(r'(\d+)\s+beginbfrange(.*?)endbfrange', txt, re.S):
        for a, b, c in re.findall(r'<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>', m.group(2)):
            for k in range(int(a, 16), int(b, 16) + 1):
                u = uni(c)
                out.setdefault(k, u[:-1] + chr(ord(u[-1]) + k - int(a, 16)))
    return out


_std = {}


def std(base):
    if base not in _std:
        _std[base] = StdFont(base)
    return _std[base]


def font_from_pdf(pdf, ref):
    d = pdf.get(ref)
    if not isinstance(d, dict) or d.get('Type') != 'Font':
        raise PdfError('font resource is not a font: %r' % (d,))
    sub = pdf.get(d.get('Subtype'))
    base = str(pdf.get(d.get('BaseFont')))
    if sub == 'Type1':
        if base not in AFM:
            raise PdfError('unknown standard font %r' % base)
        enc = pdf.get(d.get('Encoding'))
        if base in ('Symbol', 'ZapfDingbats'):
            # fonts with an encoding of their own
            if enc is not None:
                raise PdfError('font %s has encoding %r' % (base, enc))
        elif enc != 'WinAnsiEncoding':
            raise PdfError('font %s has encoding %r' % (base, enc))
        return std(base)
    if sub == 'Type0':
        if pdf.get(d.get('Encoding')) != 'Identity-H':
            raise PdfError('composite font encoding %r' % (d.get('Encoding'),))
        df = pdf.get(pdf.get(d['DescendantFonts'])[0])
        if df.get('Subtype') != 'CIDFontType2' or df.get('Type') != 'Font':
            raise PdfError('bad descendant font %r' % (df,))
        w = parse_w(df.get('W'), pdf.get)
        tu = {}
        if d.get('ToUnicode') is not None:
            s = pdf.get(d['ToUnicode'])
            if not isinstance(s, Stream):
                raise PdfError('ToUnicode is not a stream')
            tu = parse_tounicode(s.data)
        f = CIDFont(base, w, pdf.get(df.get('DW', 1000)), tu, pdf.get(df['FontDescriptor']))
        f.dict = d
        f.cid = df
        return f
    raise PdfError('unexpected font subtype %r' % (sub,))
