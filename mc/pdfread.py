"""A strict, independent reader of the PDF file format (ISO 32000 subset).

It shares no code with pdfme.  Anything that deviates from the grammar raises
PdfError: it is used as the oracle for what a conforming reader sees.
"""
import re
import zlib


class PdfError(Exception):
    pass


class Name(str):
    def __repr__(self):
        return '/' + str(self)


class Ref(tuple):
    def __new__(cls, n, g=0):
        return tuple.__new__(cls, (n, g))

    @property
    def num(self):
        return self[0]

    def __repr__(self):
        return '%d %d R' % self


class Op(str):
    pass


class Stream:
    def __init__(self, d, raw):
        self.dict = d
        self.raw = raw

    @property
    def data(self):
        f = self.dict.get('Filter')
        if f is None:
            return self.raw
        if f == 'FlateDecode':
            try:
                dec = zlib.decompressobj()
                out = dec.decompress(self.raw) + dec.flush()
            except zlib.error as e:
                raise PdfError('bad flate stream: %s' % e)
            if not dec.eof or dec.unused_data:
                raise PdfError('flate stream truncated or followed by garbage')
            return out
        return self.raw

    def __repr__(self):
        return 'Stream(%r,%d)' % (self.dict, len(self.raw))


WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'
NUM = re.compile(rb'^[+-]?(\d+\.?\d*|\.\d+)$')
INT = re.compile(rb'^[+-]?\d+$')
REGSET = bytes(b for b in range(256) if b not in WS and b not in DELIM)
REG = re.compile(b'[^' + re.escape(WS) + re.escape(DELIM) + b']+')
WSRE = re.compile(b'(?:[' + re.escape(WS) + b']+|%[^\r\n]*)*')


class Lexer:
    def __init__(self, data, pos=0, content=False):
        self.d = data
        self.p = pos
        self.content = content

    def skip(self):
        self.p = WSRE.match(self.d, self.p).end()

    def eof(self):
        self.skip()
        return self.p >= len(self.d)

    def obj(self):
        """Parse one object (or an operator when in a content stream)."""
        self.skip()
        d, p = self.d, self.p
        if p >= len(d):
            raise PdfError('unexpected end of data')
        c = d[p]
        if c == 0x2f:
            m = REG.match(d, p + 1)
            if not m:
                self.p = p + 1
                return Name('')
            self.p = m.end()
            raw = m.group()
            if b'#' in raw:
                def h(mm):
                    return bytes([int(mm.group(1), 16)])
                raw = re.sub(rb'#([0-9a-fA-F]{2})', h, raw)
            return Name(raw.decode('latin'))
        if c == 0x28:
            return self.string()
        if c == 0x3c:
            if d[p + 1:p + 2] == b'<':
                return self.dict_()
            e = d.find(b'>', p)
            if e < 0:
                raise PdfError('unterminated hex string')
            hx = re.sub(b'[' + re.escape(WS) + b']', b'', d[p + 1:e])
            if not re.fullmatch(rb'[0-9a-fA-F]*', hx):
                raise PdfError('bad hex string %r' % hx)
            if len(hx) % 2:
                hx += b'0'
            self.p = e + 1
            return bytes.fromhex(hx.decode())
        if c == 0x5b:
            self.p = p + 1
            out = []
            while True:
                self.skip()
                if self.p >= len(d):
                    raise PdfError('unterminated array')
                if d[self.p] == 0x5d:
                    self.p += 1
                    return out
                v = self.obj()
                if isinstance(v, Op):
                    raise PdfError('bare word %r in array' % str(v))
                out.append(v)
        m = REG.match(d, p)
        if not m:
            raise PdfError('unexpected character %r at %d' % (chr(c), p))
        tok = m.group()
        self.p = m.end()
        if NUM.match(tok):
            if INT.match(tok):
                n = int(tok)
                if not self.content and n >= 0 and tok.isdigit():
                    m2 = re.compile(rb'[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+R(?=[' +
                                    re.escape(WS + DELIM) + rb']|$)').match(d, self.p)
                    if m2:
                        self.p = m2.end()
                        return Ref(n, int(m2.group(1)))
                return n
            return float(tok)
        if tok == b'true':
            return True
        if tok == b'false':
            return False
        if tok == b'null':
            return None
        w = tok.decode('latin')
        if self.content:
            return Op(w)
        raise PdfError('bare word %r' % w)

    def string(self):
        d = self.d
        p = self.p + 1
        depth = 1
        out = bytearray()
        n = len(d)
        while True:
            if p >= n:
                raise PdfError('unterminated string')
            c = d[p]
            if c == 0x28:
                depth += 1
                out.append(c)
            elif c == 0x29:
                depth -= 1
                if depth == 0:
                    self.p = p + 1
                    return bytes(out)
                out.append(c)
            elif c == 0x5c:
                p += 1
                if p >= n:
                    raise PdfError('unterminated string')
                e = d[p:p + 1]
                if e in b'nrtbf':
                    out += {b'n': b'\n', b'r': b'\r', b't': b'\t', b'b': b'\b',
                            b'f': b'\f'}[e]
                elif e in b'()\\':
                    out += e
                elif e == b'\r':
                    if d[p + 1:p + 2] == b'\n':
                        p += 1
                elif e == b'\n':
                    pass
                elif e in b'01234567':
                    m = re.compile(rb'[0-7]{1,3}').match(d, p)
                    out.append(int(m.group(), 8) & 255)
                    p = m.end() - 1
                else:
                    out += e
            elif c == 0x0d:
                out.append(0x0a)
                if d[p + 1:p + 2] == b'\n':
                    p += 1
            else:
                out.append(c)
            p += 1

    def dict_(self):
        d = self.d
        self.p += 2
        out = {}
        while True:
            self.skip()
            if d[self.p:self.p + 2] == b'>>':
                self.p += 2
                return out
            if self.p >= len(d):
                raise PdfError('unterminated dict')
            k = self.obj()
            if not isinstance(k, Name):
                raise PdfError('dict key is not a name: %r' % (k,))
            if k in out:
                raise PdfError('duplicate dict key %r' % (k,))
            v = self.obj()
            if isinstance(v, Op):
                raise PdfError('bare word %r in dict' % str(v))
            out[str(k)] = v


def parse_value(data):
    """Parse `data` as exactly one direct object (or stream)."""
    lx = Lexer(data)
    v = lx.obj()
    if isinstance(v, dict):
        s = _stream(lx, v)
        if s is not None:
            v = s
    if not lx.eof():
        raise PdfError('trailing data after object: %r' % data[lx.p:lx.p + 30])
    return v


def _stream(lx, d, resolve=None):
    save = lx.p
    lx.skip()
    if lx.d[lx.p:lx.p + 6] != b'stream':
        lx.p = save
        return None
    p = lx.p + 6
    if lx.d[p:p + 2] == b'\r\n':
        p += 2
    elif lx.d[p:p + 1] == b'\n':
        p += 1
    else:
        raise PdfError('no end of line after stream keyword')
    n = d.get('Length')
    if isinstance(n, Ref) and resolve:
        n = resolve(n)
    if not isinstance(n, int) or isinstance(n, bool) or n < 0:
        raise PdfError('stream without integer Length: %r' % (n,))
    raw = lx.d[p:p + n]
    if len(raw) != n:
        raise PdfError('stream Length beyond end of file')
    m = re.compile(rb'(\r\n|\n|\r)?endstream').match(lx.d, p + n)
    if not m:
        raise PdfError('stream Length %d does not lead to endstream' % n)
    lx.p = m.end()
    return Stream(d, raw)


class Pdf:
    """A parsed PDF file: strict about header, xref offsets, trailer."""

    def __init__(self, data):
        self.data = data
        m = re.match(rb'%PDF-(\d\.\d)[\r\n]+', data)
        if not m:
            raise PdfError('bad header %r' % data[:12])
        self.version = m.group(1).decode()
        if not re.search(rb'%%EOF[\r\n]*\Z', data):
            raise PdfError('missing %%EOF')
        m = re.search(rb'startxref[\r\n ]+(\d+)[\r\n ]+%%EOF[\r\n]*\Z', data)
        if not m:
            raise PdfError('missing startxref')
        sx = int(m.group(1))
        if data[sx:sx + 4] != b'xref':
            raise PdfError('startxref %d does not point at xref' % sx)
        m = re.compile(rb'xref[ ]*(?:\r\n|\n|\r)(\d+) (\d+)[ ]*(?:\r\n|\n|\r)').match(data, sx)
        if not m:
            raise PdfError('bad xref subsection header')
        first, n = int(m.group(1)), int(m.group(2))
        if first != 0:
            raise PdfError('xref does not start at object 0')
        p = m.end()
        self.offsets = {}
        for i in range(n):
            e = data[p:p + 20]
            mm = re.fullmatch(rb'(\d{10}) (\d{5}) ([nf])( \n| \r|\r\n)', e)
            if not mm:
                raise PdfError('bad xref entry %d: %r' % (i, e))
            if i == 0:
                if mm.group(3) != b'f' or mm.group(2) != b'65535':
                    raise PdfError('bad xref entry 0: %r' % e)
            elif mm.group(3) == b'n':
                self.offsets[i] = int(mm.group(1))
            p += 20
        lx = Lexer(data, p)
        lx.skip()
        if data[lx.p:lx.p + 7] != b'trailer':
            raise PdfError('trailer does not follow the %d xref entries' % n)
        lx.p += 7
        self.trailer = lx.obj()
        if not isinstance(self.trailer, dict):
            raise PdfError('trailer is not a dict')
        if self.trailer.get('Size') != n:
            raise PdfError('trailer Size %r but %d xref entries' % (self.trailer.get('Size'), n))
        lx.skip()
        if not data.startswith(b'startxref', lx.p):
            raise PdfError('garbage after trailer')
        self.objects = {}
        ends = []
        for i, off in self.offsets.items():
            mm = re.compile(rb'(\d+) (\d+) obj\b').match(data, off)
            if not mm or int(mm.group(1)) != i or int(mm.group(2)) != 0:
                raise PdfError('xref entry %d (offset %d) does not point at "%d 0 obj": %r'
                               % (i, off, i, data[off:off + 20]))
            lx = Lexer(data, mm.end())
            v = lx.obj()
            if isinstance(v, dict):
                s = _stream(lx, v)
                if s is not None:
                    v = s
            lx.skip()
            if not data.startswith(b'endobj', lx.p):
                raise PdfError('object %d not closed by endobj: %r' % (i, data[lx.p:lx.p + 20]))
            self.objects[i] = v
            ends.append((off, lx.p + 6))
        # objects must tile the space between header and xref
        ends.sort()
        prev = None
        for a, b in ends:
            if prev is not None and data[prev:a].strip():
                raise PdfError('garbage between objects: %r' % data[prev:a][:30])
            prev = b
        if prev is not None and data[prev:sx].strip():
            raise PdfError('garbage before xref: %r' % data[prev:sx][:30])

    def get(self, v):
        n = 0
        while isinstance(v, Ref):
            if v.num not in self.objects:
                raise PdfError('dangling reference %r' % (v,))
            v = self.objects[v.num]
            n += 1
            if n > 20:
                raise PdfError('reference loop')
        return v

    @property
    def root(self):
        r = self.trailer.get('Root')
        if not isinstance(r, Ref):
            raise PdfError('trailer Root is not a reference: %r' % (r,))
        d = self.get(r)
        if not isinstance(d, dict) or d.get('Type') != 'Catalog':
            raise PdfError('Root is not a Catalog: %r' % (d,))
        return d

    def pages(self):
        """[(obj number, page dict)] in document order; checks the page tree."""
        pr = self.root.get('Pages')
        if not isinstance(pr, Ref):
            raise PdfError('Catalog Pages is not a reference')
        out = []
        seen = set()

        def walk(ref, parent, inh):
            if not isinstance(ref, Ref):
                raise PdfError('page tree kid is not a reference: %r' % (ref,))
            if ref.num in seen:
                raise PdfError('object %d appears twice in the page tree' % ref.num)
            seen.add(ref.num)
            d = self.get(ref)
            if not isinstance(d, dict):
                raise PdfError('page tree node is not a dict')
            if parent is not None:
                if d.get('Parent') != parent:
                    raise PdfError('page tree node %r has Parent %r, expected %r'
                                   % (ref, d.get('Parent'), parent))
            inh = dict(inh)
            for k in ('MediaBox', 'Resources', 'Rotate', 'CropBox'):
                if k in d:
                    inh[k] = d[k]
            if d.get('Type') == 'Pages':
                before = len(out)
                for k in self.get(d.get('Kids')):
                    walk(k, ref, inh)
                if d.get('Count') != len(out) - before:
                    raise PdfError('Pages node %r has Count %r but %d leaves'
                                   % (ref, d.get('Count'), len(out) - before))
            elif d.get('Type') == 'Page':
                dd = dict(inh)
                dd.update(d)
                out.append((ref.num, dd))
            else:
                raise PdfError('page tree node %r has Type %r' % (ref, d.get('Type')))
        walk(pr, None, {})
        return out

    def walk_refs(self):
        """Every reference in the file must resolve; yields (path, ref)."""
        def rec(v, path):
            if isinstance(v, Ref):
                yield path, v
            elif isinstance(v, dict):
                for k, x in v.items():
                    yield from rec(x, path + (k,))
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    yield from rec(x, path + (i,))
            elif isinstance(v, Stream):
                yield from rec(v.dict, path)
        for i, v in self.objects.items():
            yield from rec(v, (i,))
        yield from rec(self.trailer, ('trailer',))
