"""Interpreter of page content streams: what a viewer would paint.

Strict: unknown operators, wrong operand counts or types, unbalanced q/Q or
BT/ET, fonts or XObjects missing from the page's resources raise PdfError.
"""
from .pdfread import Lexer, Op, PdfError, Name, Ref, Stream
from . import metrics


def mul(a, b):
    return (a[0]*b[0]+a[1]*b[2], a[0]*b[1]+a[1]*b[3],
            a[2]*b[0]+a[3]*b[2], a[2]*b[1]+a[3]*b[3],
            a[4]*b[0]+a[5]*b[2]+b[4], a[4]*b[1]+a[5]*b[3]+b[5])


def apply(m, x, y):
    return (m[0]*x+m[2]*y+m[4], m[1]*x+m[3]*y+m[5])


ID = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


class GS:
    __slots__ = ('ctm', 'fill', 'stroke', 'lw', 'dash', 'cap', 'font', 'size',
                 'rise', 'tw', 'tc', 'tz', 'leading', 'tr')

    def __init__(self):
        self.ctm = ID
        self.fill = (0,)
        self.stroke = (0,)
        self.lw = 1
        self.dash = ((), 0)
        self.cap = 0
        self.font = None
        self.size = None
        self.rise = 0
        self.tw = self.tc = 0
        self.tz = 100
        self.leading = 0
        self.tr = 0

    def clone(self):
        g = GS.__new__(GS)
        for k in GS.__slots__:
            setattr(g, k, getattr(self, k))
        return g


class Glyphs:
    """One shown string: position, style and decoded text."""
    __slots__ = ('x', 'y', 'text', 'width', 'font', 'size', 'color', 'rise',
                 'tw', 'seq', 'ref', 'chars', 'tr', 'block', 'codes', 'fobj')

    def __repr__(self):
        return 'T(%.2f,%.2f,%r,%s,%s,%s,r=%s,w=%.2f)' % (
            self.x, self.y, self.text, self.font, self.size, self.color,
            self.rise, self.width)


class Painted:
    def __init__(self):
        self.texts = []
        self.rects = []   # (x, y, w, h, color, seq)
        self.lines = []   # (x1, y1, x2, y2, width, color, dash, cap, seq)
        self.images = []  # (x, y, w, h, ref, seq)
        self.used_fonts = set()
        self.used_xobjects = set()
        self.nops = 0


NARGS = {'q': 0, 'Q': 0, 'cm': 6, 're': 4, 'F': 0, 'f': 0, 'f*': 0, 'm': 2,
         'l': 2, 'S': 0, 's': 0, 'n': 0, 'h': 0, 'w': 1, 'J': 1, 'j': 1, 'd': 2,
         'M': 1, 'g': 1, 'G': 1, 'rg': 3, 'RG': 3, 'BT': 0, 'ET': 0, 'Tm': 6,
         'Td': 2, 'TD': 2, 'T*': 0, 'Tf': 2, 'Tw': 1, 'Tc': 1, 'Tz': 1,
         'TL': 1, 'Ts': 1, 'Tr': 1, 'Tj': 1, 'TJ': 1, "'": 1, 'Do': 1, 'k': 4,
         'K': 4, 'i': 1, 'gs': 1, 'B': 0, 'b': 0, 'W': 0}


def run(data, fonts, xobjects):
    """fonts: {name: metrics font}, xobjects: {name: obj}.  -> Painted"""
    lx = Lexer(data, 0, content=True)
    out = Painted()
    gs = GS()
    stack = []
    args = []
    intext = False
    tm = tlm = ID
    path = []
    cur = None
    seq = 0
    block = 0
    nums = (int, float)

    def need(kind):
        for a in args:
            if kind == 'n' and (not isinstance(a, nums) or isinstance(a, bool)):
                raise PdfError('operator %s: operand %r is not a number' % (op, a))

    def show(s):
        nonlocal tm, seq
        if not isinstance(s, bytes):
            raise PdfError('Tj operand is not a string: %r' % (s,))
        if gs.font is None:
            raise PdfError('text shown without a font')
        f = fonts[gs.font]
        t = Glyphs()
        t.chars = []
        x0 = 0.0
        txt = []
        t.codes = []
        t.fobj = f
        for code, ch, w, single in f.decode(s):
            adv = w * gs.size / 1000.0 + gs.tc
            if single and code == 32:
                adv += gs.tw
            adv *= gs.tz / 100.0
            m = mul(tm, gs.ctm)
            px, py = apply(m, x0, 0)
            qx, _ = apply(m, x0 + adv, 0)
            t.chars.append((ch, px, qx))
            txt.append(ch)
            t.codes.append(code)
            x0 += adv
        m = mul(tm, gs.ctm)
        if abs(m[1]) > 1e-9 or abs(m[2]) > 1e-9 or m[0] <= 0 or m[3] <= 0:
            raise PdfError('rotated or mirrored text matrix %r' % (m,))
        t.x, t.y = apply(m, 0, 0)
        ex, _ = apply(m, x0, 0)
        t.width = ex - t.x
        t.text = ''.join(txt)
        t.font = f.base
        t.ref = gs.font
        t.size = gs.size * m[3]
        t.color = gs.fill
        t.rise = gs.rise
        t.tw = gs.tw
        t.tr = gs.tr
        t.seq = seq
        t.block = block
        seq += 1
        out.texts.append(t)
        tm = mul((1, 0, 0, 1, x0, 0), tm)

    while not lx.eof():
        v = lx.obj()
        if not isinstance(v, Op):
            args.append(v)
            continue
        op = str(v)
        out.nops += 1
        if op not in NARGS:
            raise PdfError('unknown operator %r' % op)
        if len(args) != NARGS[op]:
            raise PdfError('operator %s has %d operands: %r' % (op, len(args), args))
        if op == 'q':
            if intext:
                raise PdfError('q inside BT/ET')
            stack.append(gs.clone())
        elif op == 'Q':
            if intext:
                raise PdfError('Q inside BT/ET')
            if not stack:
                raise PdfError('Q without q')
            gs = stack.pop()
        elif op == 'cm':
            need('n')
            gs.ctm = mul(tuple(args), gs.ctm)
        elif op == 're':
            need('n')
            path.append(('re', args[0], args[1], args[2], args[3]))
        elif op in ('F', 'f', 'f*'):
            for p in path:
                if p[0] != 're':
                    raise PdfError('fill of a path that is not a rectangle')
                x, y = apply(gs.ctm, p[1], p[2])
                x2, y2 = apply(gs.ctm, p[1] + p[3], p[2] + p[4])
                out.rects.append((x, y, x2 - x, y2 - y, gs.fill, seq))
                seq += 1
            path = []
        elif op == 'm':
            need('n')
            cur = tuple(args)
        elif op == 'l':
            need('n')
            if cur is None:
                raise PdfError('l without current point')
            path.append(('l', cur, tuple(args)))
            cur = tuple(args)
        elif op == 'S':
            for p in path:
                if p[0] == 'l':
                    a = apply(gs.ctm, *p[1])
                    b = apply(gs.ctm, *p[2])
                    out.lines.append((a[0], a[1], b[0], b[1], gs.lw * gs.ctm[0], gs.stroke,
                                      gs.dash, gs.cap, seq))
                    seq += 1
                else:
                    raise PdfError('stroked rectangle')
            path = []
        elif op == 'n':
            path = []
        elif op == 'w':
            need('n')
            if args[0] < 0:
                raise PdfError('negative line width')
            gs.lw = args[0]
        elif op == 'J':
            if args[0] not in (0, 1, 2):
                raise PdfError('bad line cap %r' % args[0])
            gs.cap = args[0]
        elif op == 'd':
            a = args[0]
            if not isinstance(a, list) or any(not isinstance(q, nums) or q < 0 for q in a) \
                    or (a and not any(a)):
                raise PdfError('bad dash array %r' % (a,))
            gs.dash = (tuple(a), args[1])
        elif op in ('g', 'rg'):
            need('n')
            gs.fill = tuple(args)
            if any(c < -1e-9 or c > 1 + 1e-9 for c in args):
                raise PdfError('colour component out of range %r' % (args,))
        elif op in ('G', 'RG'):
            need('n')
            gs.stroke = tuple(args)
            if any(c < -1e-9 or c > 1 + 1e-9 for c in args):
                raise PdfError('colour component out of range %r' % (args,))
        elif op == 'BT':
            if intext:
                raise PdfError('nested BT')
            intext = True
            block += 1
            tm = tlm = ID
        elif op == 'ET':
            if not intext:
                raise PdfError('ET without BT')
            intext = False
        elif op == 'Tm':
            need('n')
            tm = tlm = tuple(float(a) for a in args)
        elif op in ('Td', 'TD'):
            need('n')
            tlm = mul((1, 0, 0, 1, args[0], args[1]), tlm)
            tm = tlm
            if op == 'TD':
                gs.leading = -args[1]
        elif op == 'T*':
            tlm = mul((1, 0, 0, 1, 0, -gs.leading), tlm)
            tm = tlm
        elif op == 'Tf':
            if not isinstance(args[0], Name):
                raise PdfError('Tf without font name')
            if args[0] not in fonts:
                raise PdfError('font /%s is not in the page resources' % args[0])
            if not isinstance(args[1], nums):
                raise PdfError('Tf size %r' % (args[1],))
            gs.font = str(args[0])
            gs.size = args[1]
            out.used_fonts.add(gs.font)
        elif op in ('Tw', 'Tc', 'TL', 'Ts', 'Tz', 'Tr'):
            need('n')
            setattr(gs, {'Tw': 'tw', 'Tc': 'tc', 'TL': 'leading', 'Ts': 'rise',
                         'Tz': 'tz', 'Tr': 'tr'}[op], args[0])
        elif op == 'Tj':
            if not intext:
                raise PdfError('Tj outside BT/ET')
            show(args[0])
        elif op == "'":
            tlm = mul((1, 0, 0, 1, 0, -gs.leading), tlm)
            tm = tlm
            show(args[0])
        elif op == 'TJ':
            if not intext:
                raise PdfError('TJ outside BT/ET')
            for a in args[0]:
                if isinstance(a, bytes):
                    show(a)
                else:
                    tm = mul((1, 0, 0, 1, -a / 1000.0 * gs.size * gs.tz / 100.0, 0), tm)
        elif op == 'Do':
            if args[0] not in xobjects:
                raise PdfError('XObject /%s is not in the page resources' % args[0])
            x, y = apply(gs.ctm, 0, 0)
            x2, y2 = apply(gs.ctm, 1, 1)
            out.images.append((x, y, x2 - x, y2 - y, xobjects[args[0]], seq))
            out.used_xobjects.add(str(args[0]))
            seq += 1
        else:
            raise PdfError('operator %r not expected' % op)
        args = []
    if args:
        raise PdfError('operands left at end of stream: %r' % (args,))
    if stack:
        raise PdfError('unbalanced q')
    if intext:
        raise PdfError('unbalanced BT')
    return out


class Page:
    def __init__(self, num, d, painted, annots):
        self.num = num
        self.dict = d
        mb = d['MediaBox']
        self.width = mb[2] - mb[0]
        self.height = mb[3] - mb[1]
        self.p = painted
        self.texts = painted.texts
        self.rects = painted.rects
        self.lines = painted.lines
        self.images = painted.images
        self.annots = annots


def render(pdf):
    """Interpret all pages of a pdfread.Pdf; -> [Page]"""
    out = []
    fcache = {}
    for num, d in pdf.pages():
        mb = pdf.get(d.get('MediaBox'))
        if not (isinstance(mb, list) and len(mb) == 4
                and all(isinstance(v, (int, float)) for v in mb)):
            raise PdfError('bad MediaBox %r' % (mb,))
        res = pdf.get(d.get('Resources')) or {}
        fonts = {}
        for n, r in (pdf.get(res.get('Font')) or {}).items():
            key = r.num if isinstance(r, Ref) else None
            if key is None or key not in fcache:
                f = metrics.font_from_pdf(pdf, r)
                if key is not None:
                    fcache[key] = f
            else:
                f = fcache[key]
            fonts[n] = f
        xo = {}
        for n, r in (pdf.get(res.get('XObject')) or {}).items():
            s = pdf.get(r)
            if not isinstance(s, Stream) or s.dict.get('Subtype') != 'Image':
                raise PdfError('XObject /%s is not an image: %r' % (n, s))
            xo[n] = r.num
        c = pdf.get(d.get('Contents'))
        if not isinstance(c, Stream):
            raise PdfError('page Contents is not a stream: %r' % (c,))
        painted = run(c.data, fonts, xo)
        annots = []
        for a in pdf.get(d.get('Annots')) or []:
            a = pdf.get(a)
            if a.get('Type') != 'Annot':
                raise PdfError('bad annotation %r' % (a,))
            r = a.get('Rect')
            if not (isinstance(r, list) and len(r) == 4):
                raise PdfError('bad annotation Rect %r' % (r,))
            annots.append(a)
        out.append(Page(num, d, painted, annots))
    return out
