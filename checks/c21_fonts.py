"""C21: text in TrueType fonts."""
import io
import itertools
import os
import re
import tempfile

from fontTools import ttLib

from mc.engine import Family
from mc.util import *
from mc import ttf
from pdfme.fonts import PDFFont

PROPERTY = 'C21'
EXPLANATION = (
    'Bounded exhaustive enumeration of synthetic TrueType fonts (all assignments of characters to glyphs up to a size, shared and unused glyphs, every glyph index up to a bound, '
    'header and name tables) and of every character of two real fonts.  The written codes, widths, ToUnicode map, embedded file and descriptor are read back and compared with '
    'the font file as fontTools reads it; the layout is recomputed with those widths.')
ASSUMPTIONS = ['fontTools reads fonts correctly', 'characters sharing a glyph can be extracted as any of them', 'characters that the font lacks are drawn with its .notdef glyph']
DATA = os.path.join(VERIF, 'data')


class Truth:
    def __init__(self, data):
        self.data = data
        self.font = ttLib.TTFont(io.BytesIO(data))
        self.cmap = self.font.getBestCmap()
        self.order = self.font.getGlyphOrder()
        self.upem = self.font['head'].unitsPerEm
        self.hmtx = self.font['hmtx'].metrics
        self.ids = {g: i for i, g in enumerate(self.order)}
        self.rev = {}
        for c, g in self.cmap.items():
            self.rev.setdefault(self.ids[g], set()).add(chr(c))

    def gid(self, ch):
        g = self.cmap.get(ord(ch))
        return 0 if g is None else self.ids[g]

    def w(self, gid):
        return self.hmtx[self.order[gid]][0] * 1000.0 / self.upem

    def width(self, s, size):
        return sum(self.w(self.gid(c)) for c in s) * size / 1000


class File:
    """the font in a scratch file"""

    def __init__(self, data):
        self.data = data

    def __enter__(self):
        fd, self.path = tempfile.mkstemp('.ttf', 'c21')
        with os.fdopen(fd, 'wb') as f:
            f.write(self.data)
        return self.path

    def __exit__(self, *a):
        os.remove(self.path)


NAME = re.compile(r'[!-~]+$')


def check_font(f, truth, r, same_file=True, gids=None):
    """the font object of the document against the font file"""
    desc = f.desc
    names = {str(f.dict['BaseFont']), str(f.cid['BaseFont']), str(desc['FontName'])}
    r.expect(len(names) == 1, 'font-name', lambda: 'names differ: %s' % names)
    r.expect(all(NAME.match(n) and not set(n) & set('()<>[]{}/% ') for n in names), 'font-name', lambda: 'bad name %s' % names)
    for g in gids if gids is not None else sorted(set(truth.rev) | {0}):
        got = f.widths.get(g, f.dw)
        if not r.expect(abs(got - truth.w(g)) < 0.51, 'width', lambda: 'glyph %d (%s): width %s in the document, %s in the font' % (g, truth.rev.get(g), got, truth.w(g))):
            return
    for g, cs in truth.rev.items():
        if gids is not None and g not in gids:
            continue
        t = f.tounicode.get(g)
        if not r.expect(t in cs, 'tounicode', lambda: 'glyph %d is %r, expected one of %s' % (g, t, cs)):
            return
    r.expect(f.cid.get('CIDToGIDMap') == 'Identity', 'cidtogid', lambda: repr(f.cid.get('CIDToGIDMap')))


def check_descriptor(pdf, f, truth, r):
    desc = f.desc
    hhea, head, post = truth.font['hhea'], truth.font['head'], truth.font['post']
    k = 1000.0 / truth.upem
    want = {'Ascent': hhea.ascent * k, 'Descent': hhea.descent * k, 'ItalicAngle': post.italicAngle}
    for n, v in want.items():
        r.expect(abs(desc[n] - v) < 0.6, 'descriptor-' + n, lambda: '%s is %s, the font has %s' % (n, desc[n], v))
    bb = [head.xMin * k, head.yMin * k, head.xMax * k, head.yMax * k]
    r.expect(all(abs(a - b) < 0.6 for a, b in zip(desc['FontBBox'], bb)), 'descriptor-bbox', lambda: '%s, expected %s' % (desc['FontBBox'], bb))
    fl = desc['Flags']
    r.expect(bool(fl & 1) == bool(post.isFixedPitch), 'flags-fixed', lambda: str(fl))
    r.expect(bool(fl & 64) == (post.italicAngle != 0), 'flags-italic', lambda: str(fl))
    r.expect(bool(fl & 4) != bool(fl & 32), 'flags-symbolic', lambda: str(fl))
    r.expect(isinstance(desc.get('CapHeight'), (int, float)) and isinstance(desc.get('StemV'), (int, float)), 'descriptor-numbers', lambda: repr(desc))
    check_file(pdf, f, truth, r)


def check_file(pdf, f, truth, r):
    st = pdf.get(f.desc['FontFile2'])
    r.expect(pdf.get(st.dict['Length1']) == len(st.data), 'length1', lambda: '%s, %d bytes' % (st.dict['Length1'], len(st.data)))
    try:
        emb = ttLib.TTFont(io.BytesIO(st.data))
        same = emb.getGlyphOrder() == truth.order and len(emb['glyf'].glyphs) == len(truth.order)
        r.expect(emb['maxp'].numGlyphs == len(truth.order) and same, 'file-glyphs', 'the glyphs of the embedded font are not those of the file')
        r.expect(emb['hmtx'].metrics == truth.hmtx, 'file-widths', 'the widths of the embedded font are not those of the file')
        r.expect(emb['head'].unitsPerEm == truth.upem, 'file-upem', lambda: str(emb['head'].unitsPerEm))
        r.expect(emb.getBestCmap() == truth.cmap, 'file-cmap', 'the characters of the embedded font are not those of the file')
        for g in truth.order:
            if not r.expect(emb['glyf'][g] == truth.font['glyf'][g], 'file-outline', lambda: 'outline of %s' % g):
                break
    except Exception as e:  # noqa
        r.fail('file-unreadable', repr(e))


def runs(d, base=None):
    return [t for p in d.pages for t in p.texts if t.fobj.kind == 'cid']


def check_shown(d, text, truth, r):
    """the codes shown for the visible characters of text"""
    sp = truth.gid(' ') if ord(' ') in truth.cmap else None
    got = [c for t in runs(d) for c in t.codes if c != sp]
    want = [truth.gid(c) for c in text if not c.isspace()]
    want = [g for g in want if g != sp]
    if not r.expect(got == want, 'glyphs', lambda: 'text %r shown with glyphs %s, expected %s' % (text, got[:80], want[:80])):
        return False
    ex = [c for t in runs(d) for c, k in zip(t.text, t.codes) if k != sp]
    for c, e, g in zip([c for c in text if not c.isspace() and truth.gid(c) != sp], ex, got):
        if g and not r.expect(e in truth.rev[g], 'extracted', lambda: '%r is extracted as %r' % (c, e)):
            return False
    return True


def lines_of(d, page=0):
    out = {}
    for t in d.pages[page].texts:
        out.setdefault(round(t.y, 1), []).extend((ch, x0, x1) for ch, x0, x1 in t.chars)
    return [sorted(out[y], key=lambda c: c[1]) for y in sorted(out, reverse=True)]


def widest(line):
    v = [c for c in line if c[0] != ' ']
    return (v[0][1], v[-1][2]) if v else None


def check_layout(d, text, truth, x, width, size, align, r):
    """greedy lines of the paragraph, measured with the widths of the font"""
    words = text.split(' ')
    sp = truth.width(' ', size)
    shrink = 0.7 if align == 'j' else 1      # the spaces of justified lines can shrink
    lines, cur = [], []
    for w in words:
        t = cur + [w]
        if cur and sum(truth.width(k, size) for k in t) + shrink * sp * (len(t) - 1) > width + 1e-6:
            lines.append(cur)
            cur = [w]
        else:
            cur = t
    lines.append(cur)
    got = lines_of(d)
    if not r.expect(len(got) == len(lines), 'lines', lambda: '%d lines, expected %s' % (len(got), lines)):
        return
    for k, (g, want) in enumerate(zip(got, lines)):
        e = widest(g)
        nat = sum(truth.width(w, size) for w in want) + sp * (len(want) - 1)
        last = k == len(lines) - 1
        if align == 'j' and len(want) > 1 and (not last or nat > width):
            we = (x, x + width)
        elif align == 'r':
            we = (x + width - nat, x + width)
        elif align == 'c':
            we = (x + (width - nat) / 2, x + (width + nat) / 2)
        else:
            we = (x, x + nat)
        if not r.expect(abs(e[0] - we[0]) < 0.05 and abs(e[1] - we[1]) < 0.05, 'extent', lambda: 'line %d %s goes from %.3f to %.3f, expected %.3f to %.3f' % (k, want, e[0], e[1], we[0], we[1])):
            return
    r.compared += 1


def draw(path, text, size=10, align='l', width=None, how='add', mode='n', style=None):
    pdf = PDF(page_size=(600, 3000), margin=20)
    if how == 'add':
        pdf.add_font(path, 'Fam', mode)
    pdf.add_page()
    st = dict({'f': 'Fam', 's': size}, **(style or {}))
    if width is None:
        pdf.text({'.': text, 'style': st}, text_align=align)
    else:
        pdf._text({'.': text, 'style': st}, width, 2900, 20, 20, text_align=align)
    return Doc(output(pdf))


# ---- maps from characters to glyphs -------------------------------------------------------

CH = [0x20, ord('a'), ord('b'), 0x3B1, 0x1F600, 0xE9, 0x4E2D]


def gen_maps(tier):
    n = 4 if tier == 'quick' else 5
    for perm in itertools.permutations(range(n)):
        for gaps in range(1 << n):
            yield (n, perm, gaps, 1000, None)
        for upem in (16, 999, 2048, 16384):
            yield (n, perm, 0, upem, None)
        for a, b in itertools.permutations(range(1, n), 2):
            yield (n, perm, 5, 1000, (a, b))
        yield (n, perm, 3, 2048, (5, 0))      # a no-break like character shares the glyph of the space
    for w in itertools.product((0, 1, 333, 500, 1000, 2500), repeat=3):
        yield ('w', w, 0, 1000, None)


def run_maps(case, r):
    n, perm, gaps, upem, shared = case
    if n == 'w':
        chars = [(0x20, 250)] + [(c, w) for c, w in zip(CH[1:4], perm)]
        text = 'a\u03b1b'
    else:
        chars = []
        for i, k in enumerate(perm):
            if gaps >> i & 1:
                chars.append((None, 777 + i))
            chars.append((CH[k], (300 + 40 * k + 7 * i) * upem // 1000))
        present = [chr(CH[k]) for k in range(1, n)]
        text = ''.join(present) + ' ' + ''.join(reversed(present)) + ' ' + present[0] + 'Q' + present[-1]      # Q is not in the font
    sh = None
    if shared:
        sh = {0x1E00: CH[shared[1]]} if shared[0] == 5 else {0x3000 + shared[0]: CH[shared[1]]}
        text += ' a' + chr(list(sh)[0]) + 'b'
    data = ttf.make(chars, upem=upem, shared=sh)
    truth = Truth(data)
    with File(data) as path:
        d = draw(path, text)
        d2 = draw(path, text, align='r', width=200)
    if check_shown(d, text, truth, r):
        check_font(runs(d)[0].fobj, truth, r)
        check_shown(d2, text, truth, r)
        check_layout(d2, text, truth, 20, 200, 10, 'r', r)
    r.trans += len(text)
    r.state((n, perm, gaps, upem, shared))


# ---- every glyph index ---------------------------------------------------------------------

FONT = {}


def big(first, count):
    """a font with characters on the glyphs first..first+count-1"""
    if (first, count) not in FONT:
        FONT.clear()
        chars = [(None, 500)] * (first - 2) + [(0x20, 250)] if first > 1 else []
        chars = chars + [(0xE000 + i if i < 6400 else 0x20000 + i, 300 + i % 700) for i in range(count)]
        data = ttf.make(chars)
        FONT[first, count] = data, Truth(data)
    return FONT[first, count]


def gen_gids(tier):
    yield (2, 1300)
    yield (3320, 280)       # high byte 0x0D: a carriage return in the string
    yield (0x0A00 - 10, 300)
    yield (0x2800 - 4, 280)   # parentheses and backslash as high byte
    if tier != 'quick':
        yield (2, 6000)
        yield (0x5C00 - 4, 300)
        yield (0xD7F0, 0x900)      # glyph numbers that are not characters
        yield (0xFE00, 0x1F0)


def run_gids(case, r):
    first, count = case
    data, truth = big(first, count)
    cs = sorted(truth.cmap)
    cs = [c for c in cs if c != 0x20]
    with File(data) as path:
        texts = [''.join(chr(c) for c in cs[i:i + 50]) for i in range(0, len(cs), 50)]
        pdf = PDF(page_size=(9000, 14000), margin=20)
        pdf.add_font(path, 'Fam', 'n')
        pdf.add_page()
        for t in texts:
            pdf.text({'.': t, 'style': {'f': 'Fam', 's': 10}})
        # every pair of special bytes
        sp = [c for c in cs if truth.gid(chr(c)) & 255 in (10, 13, 40, 41, 92) or truth.gid(chr(c)) >> 8 in (10, 13, 40, 41, 92)][:40]
        for a in sp:
            t = ''.join(chr(a) + chr(b) for b in sp)
            texts.append(t)
            pdf.text({'.': t, 'style': {'f': 'Fam', 's': 10}})
        d = Doc(output(pdf))
    text = ''.join(texts)
    if check_shown(d, text, truth, r):
        check_font(runs(d)[0].fobj, truth, r)
    r.trans += len(text)
    r.compared += 1
    r.state(case)


# ---- real fonts ------------------------------------------------------------------------------

REAL = ['Go-Regular.ttf', 'Go-Mono-Bold-Italic.ttf']
TR = {}


def real(name):
    if name not in TR:
        with open(os.path.join(DATA, name), 'rb') as f:
            TR[name] = Truth(f.read())
    return TR[name]


def gen_real(tier):
    for f in REAL:
        yield (f, 'file', 0)
        for i in range(16):
            yield (f, 'chars', i)
        for align in 'lrcj':
            for width in ((60, 90, 133, 200) if tier == 'quick' else range(40, 240, 7)):
                for t in range(len(SENTENCES)):
                    yield (f, align, (width, t))


SENTENCES = ['The quick brown fox jumps over the lazy dog and runs away from it',
             'a b c d e f g h i j k l m n o p q r s t u v w x y z A B C D E F G H I J K L M N O P Q R S T U V W X Y Z',
             'Ελληνικά και кириллица, “quotes” – dashes… ½ × 3 = 1.5 € ∞ and \u4e2d\u6587 missing',
             '(brackets) [square] {curly} \\back/ (((nested) \\) \\\\ ends\\ (', 'iiiiiiiiii lllllll WWWWWW mmmmmmmm iiii WW ll mm']


def run_real(case, r):
    f, op, k = case
    truth = real(f)
    path = os.path.join(DATA, f)
    if op == 'file':
        d = draw(path, 'abc')
        check_font(runs(d)[0].fobj, truth, r)
        check_descriptor(d.pdf, runs(d)[0].fobj, truth, r)
        text = 'abc'
    elif op == 'chars':
        cs = [c for c in sorted(truth.cmap) if not chr(c).isspace()]
        cs = cs[k::16]
        text = ' '.join(chr(c) * 2 for c in cs)
        d = draw(path, text)
        check_shown(d, text, truth, r)
    else:
        width, t = k
        text = SENTENCES[t]
        d = draw(path, text, align=op, width=width)
        if check_shown(d, text, truth, r):
            check_layout(d, text, truth, 20, width, 10, op, r)
    r.trans += len(text)
    r.compared += 1
    r.state(case)


# ---- mixed parts --------------------------------------------------------------------------------

def gen_mixed(tier):
    n = 3 if tier == 'quick' else 4
    for kinds in itertools.product(('t', 'u', 'h', 'T', 'B'), repeat=n):
        for align in 'jr':
            for width in ((75, 120) if tier == 'quick' else (60, 90, 130)):
                yield (kinds, align, width)


def run_mixed(case, r):
    """parts in TrueType fonts and standard fonts in the same lines: the lines end at the margin"""
    kinds, align, width = case
    truth = real(REAL[0])
    parts = []
    for i, k in enumerate(kinds):
        s = ' '.join('abcdefg'[i] * (1 + (i + j) % 3) for j in range(5)) + ' '
        st = {'t': {'f': 'Fam', 's': 10}, 'T': {'f': 'Fam', 's': 13, 'b': True}, 'B': {'f': 'Fam', 's': 10, 'b': True}, 'u': {'f': 'Fam', 's': 9, 'u': True, 'bg': 0.8}, 'h': {'f': 'Times', 's': 10}}[k]
        parts.append({'.': s, 'style': st})
    parts[-1]['.'] = parts[-1]['.'].strip()
    pdf = PDF(page_size=(600, 800), margin=20)
    pdf.add_font(os.path.join(DATA, REAL[0]), 'Fam', 'n')
    pdf.add_font(os.path.join(DATA, REAL[1]), 'Fam', 'b')
    pdf.add_page()
    pdf._text(parts, width, 700, 20, 20, text_align=align)
    d = Doc(output(pdf))
    got = lines_of(d)
    text = ''.join(c[0] for ln in got for c in ln if c[0] != ' ')
    want = ''.join(p['.'] for p in parts).replace(' ', '')
    r.expect(text == want, 'mixed-text', lambda: '%r, expected %r' % (text, want))
    for i, ln in enumerate(got):
        e = widest(ln)
        if e is None:
            continue
        if i < len(got) - 1 or align == 'r':
            r.expect(abs(e[1] - (20 + width)) < 0.06, 'mixed-extent', lambda: 'line %d %r ends at %.3f, expected %s' % (i, ''.join(c[0] for c in ln), e[1], 20 + width))
        if align == 'j':
            r.expect(abs(e[0] - 20) < 0.06, 'mixed-extent', lambda: 'line %d starts at %.3f' % (i, e[0]))
    # backgrounds cover the parts they belong to
    for q in d.pages[0].rects:
        cov = [c for ln in got for c in ln if c[0] != ' ' and c[1] < q[0] + q[2] - 0.06 and c[2] > q[0] + 0.06]
        r.expect(cov, 'mixed-background', lambda: str(q))
    r.trans += len(got)
    r.compared += 1
    r.state(case)


# ---- header tables ------------------------------------------------------------------------------

NAMES = [None,
         {'familyName': 'Some Family', 'styleName': 'Regular', 'psName': 'SomeFamily-Regular'},
         {'psName': 'OnlyPs'},
         {'copyright': 'c', 'familyName': 'F', 'styleName': 'R', 'uniqueFontIdentifier': 'u i', 'fullName': 'F R', 'version': 'Version 1.0', 'trademark': 'A Trade Mark (tm)', 'psName': 'FR'},
         {'familyName': 'With (odd) /name/', 'styleName': 'Bold', 'fullName': 'With (odd) /name/ Bold', 'psName': 'Odd'}]


def gen_tables(tier):
    for n in range(len(NAMES)):
        for upem in (500, 1000, 2048):
            for italic in (0, -12, 7.5):
                for weight in (100, 400, 600, 900):
                    for fixed in (0, 1):
                        yield (n, upem, italic, weight, fixed, 1)
                yield (n, upem, italic, 400, 0, 0)


def run_tables(case, r):
    n, upem, italic, weight, fixed, os2 = case
    data = ttf.make([(0x20, 250), (ord('a'), 600), (ord('b'), 400)], upem=upem, italic=italic, weight=weight, fixed=fixed, os2=bool(os2), names=NAMES[n])
    truth = Truth(data)
    with File(data) as path:
        d = draw(path, 'ab a')
    if check_shown(d, 'ab a', truth, r):
        f = runs(d)[0].fobj
        check_font(f, truth, r)
        check_descriptor(d.pdf, f, truth, r)
        ps = truth.font['name'].getDebugName(6)
        r.expect(str(f.dict['BaseFont']).split('+')[-1] == ps, 'postscript-name', lambda: '%s, the font has %s' % (f.dict['BaseFont'], ps))
        r.expect(bool(f.desc['Flags'] & 262144) == (weight >= 600 and bool(os2)), 'flags-bold', lambda: '%s for weight %s' % (f.desc['Flags'], weight))
    r.trans += 1
    r.compared += 1
    r.state(case)


# ---- families, weights and slants ----------------------------------------------------------------

MODES = ('n', 'b', 'i', 'bi')
COUNT = [0]


def gen_modes(tier):
    for k in range(1, 16):
        have = tuple(m for i, m in enumerate(MODES) if k >> i & 1)
        for how in ('add', 'register', 'mixed'):
            for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
                for ask in itertools.product(range(4), repeat=n):
                    if n < 3 or len(set(ask)) == n or tier != 'quick':
                        yield (have, how, ask)


SYN = {}


def syn(mode):
    if mode not in SYN:
        data = ttf.make([(0x20, 250), (ord('a'), 500 + 30 * MODES.index(mode))], name='Syn', style={'n': 'Regular', 'b': 'Bold', 'i': 'Italic', 'bi': 'BoldItalic'}[mode])
        path = os.path.join(tempfile.gettempdir(), 'c21-%d-%s.ttf' % (os.getpid(), mode))
        SYN[mode] = data, Truth(data)
    return SYN[mode]


def run_modes(case, r):
    have, how, ask = case
    COUNT[0] += 1
    fam = 'Syn%d' % COUNT[0]
    files = []
    reg = []
    try:
        pdf = PDF(page_size=(300, 300), margin=20)
        for i, m in enumerate(have):
            f = File(syn(m)[0])
            path = f.__enter__()
            files.append(f)
            if how == 'add' or how == 'mixed' and i % 2:
                pdf.add_font(path, fam, m)
            else:
                PDFFont.register(font_family=fam, mode=m, path=path)
                reg.append((fam, m))
        pdf.add_page()
        for a in ask:
            m = MODES[a]
            pdf.text({'.': 'a', 'style': {'f': fam, 's': 10, 'b': 'b' in m, 'i': 'i' in m}})
        d = Doc(output(pdf))
    finally:
        for f in files:
            f.__exit__()
        for k in reg:
            PDFFont.registered_fonts.pop(k, None)
    rs = runs(d)
    if not r.expect(len(rs) == len(ask), 'modes-text', lambda: '%d texts, expected %d' % (len(rs), len(ask))):
        return
    fonts = {}
    for a, t in zip(ask, rs):
        m = MODES[a]
        shown = t.font.split('-')[-1]
        allowed = {'n': 'Regular', 'b': 'Bold', 'i': 'Italic', 'bi': 'BoldItalic'}
        want = [allowed[m]] if m in have else [allowed['n']] if 'n' in have else [allowed[x] for x in have]
        r.expect(shown in want, 'modes-font', lambda: 'asked %s of %s: shown in %s' % (m, have, t.font))
    objs = {}
    for n, o in d.pdf.objects.items():
        if isinstance(o, dict) and o.get('Subtype') == 'Type0':
            objs.setdefault(str(o['BaseFont']), []).append(n)
    r.expect(all(len(v) == 1 for v in objs.values()), 'font-twice', lambda: str(objs))
    r.expect(set(objs) == {t.font for t in rs}, 'fonts-embedded', lambda: '%s, shown %s' % (sorted(objs), sorted({t.font for t in rs})))
    r.trans += len(ask)
    r.compared += 1
    r.state(case)


FAMILIES = [
    Family('maps', gen_maps, run_maps, 'all orders of 4 (thorough: 5) characters, unused glyphs before each, shared glyphs, 4 sizes of the em, all widths of 3 characters out of 6'),
    Family('indexes', gen_gids, run_gids, 'glyphs 2 to 1301 and around those with special bytes (thorough: 2 to 6001, surrogates, the last ones), all pairs of special glyphs'),
    Family('real', gen_real, run_real, 'every character of 2 fonts; 5 texts, 4 alignments, 4 (thorough: 29) widths'),
    Family('mixed', gen_mixed, run_mixed, 'all sequences of 3 (thorough: 4) parts of 4 kinds, 2 alignments, 2 (thorough: 5) widths'),
    Family('tables', gen_tables, run_tables, '5 name tables, 2 em sizes, 3 slants, 4 weights, fixed pitch, with and without OS/2'),
    Family('modes', gen_modes, run_modes, 'all sets of weights and slants, 3 ways to add them, all sequences of up to 3 (thorough: 4) requests'),
]
