"""C19: images are embedded intact and drawn where and as large as asked."""
import contextlib
import io
import itertools
import os
import pathlib
import re
import tempfile

import warnings

from mc.engine import Family
from mc.util import *
from pdfme.image import PDFImage

PROPERTY = 'C19'
warnings.filterwarnings('ignore', category=UserWarning, module='PIL')
EXPLANATION = (
    'Bounded exhaustive enumeration of JPEG files (all sequences of header segments up to a length, every frame type, truncation at every byte, changes of every header byte) '
    'against a reference reader of the JPEG header, of sources and names, of PNG modes and of sequences of drawing operations against a model of the page position.  '
    'The embedded stream must be the file, the dictionary must give its true properties.')
ASSUMPTIONS = ['PNG images are converted with Pillow: colors may differ by the error of JPEG compression', 'images with the same name have the same contents']


# ---- reference reader of the header of a JPEG file (ITU T.81, annex B) ------------------

def ref_jpeg(b):
    """-> (depth, height, width, components) | None if it is not well formed up to
    its frame header | 'any' if the standard leaves it open"""
    if b[:2] != b'\xff\xd8':
        return None
    p = 2
    while True:
        if p + 2 > len(b) or b[p] != 0xFF:
            return None
        while p < len(b) and b[p] == 0xFF:     # fill bytes
            p += 1
        if p >= len(b):
            return None
        m = b[p]
        p += 1
        if m == 0x01 or m == 0xC8 or 0xF0 <= m <= 0xFD or 0x02 <= m <= 0xBF or 0xD0 <= m <= 0xD7 or m == 0xD8 or m == 0xDE:
            return 'any'    # reserved or out of place markers
        if m == 0 or m == 0xD9 or m == 0xDA:
            return None
        if p + 2 > len(b):
            return None
        n = int.from_bytes(b[p:p + 2], 'big')
        if n < 2 or p + n > len(b):
            return None
        body = b[p + 2:p + n]
        p += n
        if 0xC0 <= m <= 0xCF and m not in (0xC4, 0xC8, 0xCC):
            if len(body) < 6:
                return None
            d, h, w, c = body[0], int.from_bytes(body[1:3], 'big'), int.from_bytes(body[3:5], 'big'), body[5]
            if len(body) != 6 + 3 * c:
                return 'any' if len(body) > 6 + 3 * c else None
            if c not in (1, 3, 4) or h == 0 or w == 0 or d == 0:
                return 'any'
            return d, h, w, c


CS = {1: 'DeviceGray', 3: 'DeviceRGB', 4: 'DeviceCMYK'}


def accept(b, r, paint=True, name='x'):
    want = ref_jpeg(b)
    err = io.StringIO()
    src = io.BytesIO(b)
    try:
        with contextlib.redirect_stderr(err):
            im = PDFImage(src, 'jpg', name)
        got = True
    except Exception as e:  # noqa
        got = type(e).__name__
    r.trans += 1
    if want == 'any':
        return
    if want is None:
        r.expect(got is not True, 'accepted', lambda: 'file accepted as a JPEG of %s x %s: %r' % (im.width, im.height, b[:80]))
        return
    if not r.expect(got is True, 'rejected', lambda: '%s: well formed file rejected: %r, frame %s' % (got, b[:80], want)):
        return
    d, h, w, c = want
    r.expect((im.width, im.height) == (w, h), 'size', lambda: 'read %s x %s, file has %s x %s: %r' % (im.width, im.height, w, h, b[:60]))
    r.expect(src.getvalue() == b, 'source-changed', '')
    if not paint:
        return
    pdf = PDF(page_size=(400, 400), margin=10)
    pdf.add_page()
    pdf.add_image(im, width=50)
    doc = Doc(output(pdf))
    q = doc.pages[0].images
    if not r.expect(len(q) == 1, 'not-drawn', lambda: str(q)):
        return
    check_stream(doc.pdf, q[0][4], b, want, r)
    r.expect(near(q[0][2], 50) and near(q[0][3], 50 * h / w, 0.01 + 1e-4 * h / w), 'proportion', lambda: 'drawn %s x %s, image %s x %s' % (q[0][2], q[0][3], w, h))
    r.compared += 1
    r.state(want)


def check_stream(pdf, num, b, want, r):
    d, h, w, c = want
    st = pdf.objects[num]
    r.expect(isinstance(st, Stream) and st.raw == b, 'data', lambda: 'stream of %d bytes is not the file of %d bytes' % (len(st.raw), len(b)))
    have = {k: st.dict.get(k) for k in ('Type', 'Subtype', 'Width', 'Height', 'BitsPerComponent', 'ColorSpace', 'Filter')}
    want = {'Type': 'XObject', 'Subtype': 'Image', 'Width': w, 'Height': h, 'BitsPerComponent': d, 'ColorSpace': CS[c], 'Filter': 'DCTDecode'}
    for k in want:
        v = have[k]
        if isinstance(v, list) and len(v) == 1:
            v = v[0]
        r.expect(v == want[k], 'dict-' + k, lambda: '%s is %r, the file has %r' % (k, have[k], want[k]))


def seg(m, body):
    return bytes([0xff, m]) + (len(body) + 2).to_bytes(2, 'big') + body


def frame(m=0xC0, d=8, h=3, w=5, c=3):
    return seg(m, bytes([d]) + h.to_bytes(2, 'big') + w.to_bytes(2, 'big') + bytes([c]) + b''.join(bytes([i + 1, 0x11, 0]) for i in range(c)))


TAIL = seg(0xDA, b'\x01\x01\x00\x00\x3f\x00') + b'\x12\x34\xff\x00\x56\xff\xd9'
FAKE = b'\xff\xd8' + frame(0xC0, 8, 99, 98, 1)[:15]
SEGS = {
    'jfif': seg(0xE0, b'JFIF\0\1\1\0\0\1\0\1\0\0'),
    'exif': seg(0xE1, b'Exif\0\0' + FAKE + b'x' * 9),          # a thumbnail with its own frame
    'icc': seg(0xE2, b'ICC_PROFILE\0' + bytes(range(256)) * 2),
    'adobe': seg(0xEE, b'Adobe\0d\0\0\0\0\1'),
    'empty': seg(0xEF, b''),
    'com': seg(0xFE, b'a comment \xff\xc0'),
    'dqt': seg(0xDB, b'\0' + bytes([1] * 64)),
    'dht': seg(0xC4, b'\0' + bytes(16)),
    'dac': seg(0xCC, b'\0\0'),
    'dri': seg(0xDD, b'\0\4'),
    'fill': b'\xff',                                             # a fill byte before the next marker
    'fill3': b'\xff\xff\xff',
    'len0': b'\xff\xe3\0\0',
    'len1': b'\xff\xe3\0\1',
    'junk': b'junk',
    'zero': b'\0',
    'eoi': b'\xff\xd9',
    'sos': TAIL,
    'big': seg(0xE5, b'\xff' * 3000),
    'long': b'\xff\xe6\xff\xff' + b'z' * 500,                   # says it is longer than the file
}
GOOD = ('jfif', 'exif', 'icc', 'adobe', 'empty', 'com', 'dqt', 'dht', 'dac', 'dri', 'fill', 'fill3')
FRAMES = [(0xC0 + k) for k in (0, 1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15)]


def gen_headers(tier):
    n = 2 if tier == 'quick' else 3
    for s in seqs(sorted(SEGS), n):
        for c in (1, 3, 4):
            yield ('seq', s, 0xC0, 8, 3, 5, c, True)
        yield ('seq', s, 0xC2, 8, 300, 7, 3, True)
        yield ('seq', s, 0xC0, 8, 3, 5, 3, False)
        yield ('none', s, 0, 0, 0, 0, 0, True)
    for s in itertools.product(GOOD, repeat=n + 1):
        yield ('seq', s, 0xC0, 8, 3, 5, 3, True)
    for m in FRAMES:
        for d in (8, 12, 16):
            for c in (1, 3, 4):
                for h, w in itertools.product((1, 2, 255, 256, 257, 0x1234, 65535), repeat=2):
                    yield ('seq', ('jfif', 'dqt'), m, d, h, w, c, True)


def run_headers(case, r):
    kind, s, m, d, h, w, c, soi = case
    b = (b'\xff\xd8' if soi else b'') + b''.join(SEGS[k] for k in s)
    if kind == 'seq':
        b += frame(m, d, h, w, c)
    b += TAIL
    accept(b, r, paint=len(s) < 3)


FILES = {
    'plain': lambda: b'\xff\xd8' + SEGS['jfif'] + SEGS['dqt'] + frame() + SEGS['dht'] + TAIL,
    'exif': lambda: b'\xff\xd8' + SEGS['exif'] + SEGS['com'] + frame(0xC2, 8, 700, 11, 4) + TAIL,
    'fill': lambda: b'\xff\xd8\xff' + SEGS['adobe'] + b'\xff\xff' + frame(0xC1, 8, 7, 1100, 1) + TAIL,
}


def gen_trunc(tier):
    for k in sorted(FILES):
        for n in range(len(FILES[k]()) + 1):
            yield ('cut', k, n)
    for k in sorted(FILES):
        n = len(FILES[k]())
        for i in range(n):
            yield ('drop', k, i)
            for v in ((0, 1, 2, 8, 0xC0, 0xC4, 0xD8, 0xD9, 0xDA, 0xE0, 0xFE, 0xFF) if tier == 'quick' else range(256)):
                yield ('set', k, (i, v))
    for h in (b'', b'\xff', b'\x89PNG\r\n\x1a\n' + b'\0' * 40, b'GIF89a' + b'\1' * 40, b'%PDF-1.5\n' + b' ' * 30, b'BM' + b'\0' * 40, b'\0' * 50, b'\xff' * 50, b'\xff\xd8' * 20,
              b'RIFF1234WEBP' + b'x' * 30, b'\xff\xd8\xff\xe0', b'II*\0' + b'\0' * 20, b'\xff\xd8\xff\xc0\0\x0b'):
        yield ('raw', h, 0)


def run_trunc(case, r):
    op, k, v = case
    if op == 'raw':
        return accept(k, r)
    b = FILES[k]()
    if op == 'cut':
        b = b[:v]
    elif op == 'drop':
        b = b[:v] + b[v + 1:]
    else:
        b = b[:v[0]] + bytes([v[1]]) + b[v[0] + 1:]
    accept(b, r, paint=op == 'cut')


# ---- sources, names and extensions ------------------------------------------------------

EXTS = {'jpg': 1, 'jpeg': 1, 'JPG': 1, 'JpEg': 1, '.jpg': 1, '.JPEG': 1, ' jpg ': 1, 'jp': 0, 'gif': 0, '': 0, 'bmp': 0, 'jpgg': 0, 'tiff': 0, None: 0}


def gen_sources(tier):
    for src in ('bytes', 'reader', 'buffered'):
        for ext in EXTS:
            for name in ('n', None, 'a name/with.dots'):
                yield (src, ext, name, None)
    for src in ('str', 'path', 'relative'):
        for ext in list(EXTS):
            for fext in ('.jpg', '.JPG', '.jpeg', '.x.jpg', '.png.jpg', '.gif', ''):
                yield (src, ext, None, fext)
    for src in ('int', 'none', 'rawbytes', 'text'):
        yield (src, 'jpg', 'n', None)
    for s in seqs(('str', 'path', 'bytes0', 'bytes1', 'other'), 3 if tier == 'quick' else 5, 2):
        yield ('many', s, None, None)


def run_sources(case, r):
    src, ext, name, fext = case
    d = tempfile.mkdtemp(prefix='c19')
    try:
        _run_sources(case, r, d)
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def _run_sources(case, r, d):
    src, ext, name, fext = case
    data = jpeg(12, 7)
    if src == 'many':
        paths = {}
        for k, n in (('a', 0), ('b', 1)):
            paths[n] = os.path.join(d, k + '.jpg')
            with open(paths[n], 'wb') as f:
                f.write(jpeg(30 + n, 20))
        pdf = PDF(page_size=(400, 400), margin=10)
        pdf.add_page()
        ids = []
        for s in ext:
            if s == 'str':
                pdf.image(paths[0], width=20)
                ids.append(('f', 0))
            elif s == 'path':
                pdf.image(pathlib.Path(paths[0]), width=20)
                ids.append(('f', 0))
            elif s == 'other':
                pdf.image(paths[1], width=20)
                ids.append(('f', 1))
            else:
                n = int(s[5:])
                pdf.image(io.BytesIO(jpeg(40 + n, 20)), 'jpg', 'name %d' % n, width=20)
                ids.append(('b', n))
        doc = Doc(output(pdf))
        want = [30 + n if k == 'f' else 40 + n for k, n in ids]
        got = [doc.pdf.objects[q[4]].dict['Width'] for q in doc.pages[0].images]
        r.expect(got == want, 'drawn', lambda: '%s, expected %s' % (got, want))
        nobj = sum(1 for o in doc.pdf.objects.values() if isinstance(o, Stream) and o.dict.get('Subtype') == 'Image')
        r.expect(nobj == len(set(ids)), 'stored-once', lambda: '%d images stored, %d different ones used' % (nobj, len(set(ids))))
        r.compared += 1
        r.trans += len(ext)
        r.state(ext)
        return
    err = None
    ok = ext is not None and EXTS[ext]
    arg = {'int': 5, 'none': None, 'rawbytes': data, 'text': io.StringIO('a')}.get(src)
    close = None
    if src in ('int', 'none', 'rawbytes', 'text'):
        ok = False
    elif src == 'bytes':
        arg = io.BytesIO(data)
    elif src in ('reader', 'buffered'):
        p = os.path.join(d, 'f.jpg')
        with open(p, 'wb') as f:
            f.write(data)
        arg = close = open(p, 'rb') if src == 'reader' else io.BufferedReader(open(p, 'rb', buffering=0))
    else:
        p = os.path.join(d, 'im' + fext)
        with open(p, 'wb') as f:
            f.write(data)
        if src == 'relative':
            p = os.path.relpath(p)
        arg = pathlib.Path(p) if src == 'path' else p
        if ext is None:
            ok = fext.lower().rpartition('.')[2] in ('jpg', 'jpeg')
    if src in ('bytes', 'reader', 'buffered'):
        ok = ok and name is not None
    fds = len(os.listdir('/proc/self/fd'))
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            im = PDFImage(arg, ext, name)
        got = True
    except Exception as e:  # noqa
        got = type(e).__name__
    r.expect((got is True) == bool(ok), 'source', lambda: '%s: expected %s' % (got, 'an image' if ok else 'an error'))
    r.expect(len(os.listdir('/proc/self/fd')) == fds, 'files-open', 'the number of open files changed')
    if got is True and ok:
        r.expect((im.width, im.height) == (12, 7), 'size', lambda: str((im.width, im.height)))
        if close is not None:
            r.expect(not close.closed, 'closed', 'the file object passed was closed')
        pdf = PDF(page_size=(400, 400), margin=10)
        pdf.add_page()
        pdf.add_image(im, width=50)
        doc = Doc(output(pdf))
        check_stream(doc.pdf, doc.pages[0].images[0][4], data, (8, 7, 12, 3), r)
    if close is not None:
        close.close()
    r.trans += 1
    r.compared += 1
    r.state((src, ok))


# ---- PNG -----------------------------------------------------------------------------------

COLORS = [(0, 0, 0), (255, 255, 255), (200, 40, 90), (10, 220, 130), (128, 128, 128), (30, 60, 240)]


def gen_png(tier):
    for mode in ('1', 'L', 'LA', 'RGB', 'RGBA', 'P', 'I;16', 'L+t', 'RGB+t', 'P+t', 'P+a', 'I;16+t', 'RGB/4', 'P/4'):
        for c in COLORS:
            for w, h in ((1, 1), (7, 3), (2, 9), (16, 16), (33, 8)) + (() if tier == 'quick' else ((1, 300), (257, 2), (64, 65))):
                for src in ('bytes', 'str', 'path'):
                    yield (mode, c, w, h, src)


def run_png(case, r):
    from PIL import Image
    mode, c, w, h, src = case
    mode, _, opt = re.match(r'([^+/]+)([+/]?)(.?)', mode).groups()
    wants = None
    save = {}
    g = round(c[0] * 0.299 + c[1] * 0.587 + c[2] * 0.114)
    want = c
    if mode == '1':
        im = Image.new('1', (w, h), 1 if g > 127 else 0)
        want = (255,) * 3 if g > 127 else (0,) * 3
    elif mode == 'L':
        im, want = Image.new('L', (w, h), g), (g,) * 3
    elif mode == 'LA':
        im, want = Image.new('LA', (w, h), (g, 255)), (g,) * 3
    elif mode == 'I;16':
        im, want = Image.new('I;16', (w, h), g * 257), (g,) * 3
    elif mode == 'RGB':
        im = Image.new('RGB', (w, h), c)
    elif mode == 'RGBA':
        im = Image.new('RGBA', (w, h), c + (255,))
    else:
        im = Image.new('P', (w, h), 1)
        im.putpalette([9, 9, 9] + list(c) + [77, 0, 0])
    if opt == '4':
        # a color in each corner
        w, h = 16 * w + 16, 16 * h + 16
        quad = [COLORS[(COLORS.index(c) + k) % 6] for k in range(4)]
        im = Image.new('RGB', (w, h))
        for k, v in enumerate(quad):
            im.paste(v, (k % 2 * (w // 2), k // 2 * (h // 2), w if k % 2 else w // 2, h if k // 2 else h // 2))
        if mode == 'P':
            im = im.quantize(8)
        wants = {(4, 4): quad[0], (w - 4, 4): quad[1], (4, h - 4): quad[2], (w - 4, h - 4): quad[3]}
    elif opt == 'a':
        save['transparency'] = bytes([0, 255, 90])
    elif opt == 't':
        # a color that no pixel has is the transparent one
        save['transparency'] = {'L': (g + 50) % 256, 'RGB': tuple((v + 60) % 256 for v in c), 'P': 0, 'I;16': (g * 257 + 999) % 65536}[mode]
    b = io.BytesIO()
    im.save(b, 'PNG', **save)
    data = b.getvalue()
    d = tempfile.mkdtemp(prefix='c19')
    p = os.path.join(d, 'x.png')
    try:
        with open(p, 'wb') as f:
            f.write(data)
        pdf = PDF(page_size=(400, 400), margin=10)
        pdf.add_page()
        if src == 'bytes':
            pdf.image(io.BytesIO(data), 'png', 'n', width=30)
        else:
            pdf.image(p if src == 'str' else pathlib.Path(p), width=30)
        doc = Doc(output(pdf))
    finally:
        os.remove(p)
        os.rmdir(d)
    q = doc.pages[0].images
    if not r.expect(len(q) == 1, 'not-drawn', lambda: str(q)):
        return
    st = doc.pdf.objects[q[0][4]]
    out = Image.open(io.BytesIO(st.raw))
    r.expect(out.format == 'JPEG' and out.size == (w, h), 'png-size', lambda: '%s %s, expected %s' % (out.format, out.size, (w, h)))
    check_stream(doc.pdf, q[0][4], st.raw, (8, h, w, len(out.getbands())), r)
    px = out.convert('RGB')
    for x, y in wants or {(0, 0), (w - 1, h - 1), (w // 2, h // 2)}:
        v = px.getpixel((x, y))
        want = wants[x, y] if wants else want
        if not r.expect(all(abs(a - b) <= 8 for a, b in zip(v, want)), 'png-color', lambda: 'pixel %s is %s, the image has %s' % ((x, y), v, want)):
            break
    r.expect(near(q[0][2], 30) and near(q[0][3], 30 * h / w), 'proportion', lambda: 'drawn %s x %s, image %s x %s' % (q[0][2], q[0][3], w, h))
    r.trans += 1
    r.compared += 1
    r.state((mode, c, w, h))


# ---- drawing -------------------------------------------------------------------------------

SHAPES = [(21, 13), (31, 45)]      # proportions that give fractional sizes
SIZES = [(None, None), (60, None), (None, 33), (50, 70)]
PLACES = [(None, None), (77, None), (None, 60), (120.5, 131.25)]


def gen_draw(tier):
    ops = [(s, z, p, mv) for s in range(len(SHAPES)) for z in range(len(SIZES)) for p in range(len(PLACES)) for mv in ('bottom', 'next')]
    for o in ops:
        for api in ('image', 'add'):
            yield (api, (o,), (400, 500), (10, 20, 30, 40))
    small = [o for o in ops if o[1] in (0, 2) and o[2] in (0, 3) or o[1] == 3] if tier == 'quick' else ops
    for a, b in itertools.product(small, repeat=2):
        yield ('image', (a, b), (400, 500), (10, 20, 30, 40))
    for a in itertools.product(('t', 'p', (0, 1, 0, 'bottom'), (1, 2, 0, 'next'), (0, 3, 3, 'bottom'), (0, 1, 1, 'next')), repeat=3 if tier == 'quick' else 5):
        yield ('image', a, (300, 700), (15, 25, 35, 45))


def run_draw(case, r):
    api, ops, size, margin = case
    pdf = PDF(page_size=size, margin=margin, font_size=10)
    pdf.add_page()
    H = size[1]
    cw = size[0] - margin[1] - margin[3]
    x, y = margin[3], margin[0]      # position from the top
    want, texts = [[]], [[]]
    for k, o in enumerate(ops):
        if o == 'p':
            pdf.add_page()
            x, y = margin[3], margin[0]
            want.append([])
            texts.append([])
            continue
        if o == 't':      # a paragraph starts at the position, and moves it
            y0 = pdf.page.y
            r.expect(near(y0, y), 'position', lambda: 'before the paragraph: %s, expected %s' % (y0, y))
            if y > H - margin[2] - 30:
                return
            pdf.text('w%d' % k)
            x = margin[3]
            y = y + 1.1 + 10
            continue
        s, z, p, mv = o
        w0, h0 = SHAPES[s]
        w, h = SIZES[z]
        px, py = PLACES[p]
        kw = {a: b for a, b in (('x', px), ('y', py), ('width', w), ('height', h)) if b is not None}
        if mv != 'bottom':
            kw['move'] = mv
        b = io.BytesIO(jpeg(w0, h0))
        if api == 'image':
            pdf.image(b, 'jpg', 's%d' % s, **kw)
        else:
            pdf.add_image(pdf.create_image(b, 'jpg', 's%d' % s), **kw)
        if w is None and h is None:
            w, h = cw, cw * h0 / w0
        elif w is None:
            w = h * w0 / h0
        elif h is None:
            h = w * h0 / w0
        if px is not None:
            x = px
        if py is not None:
            y = py
        want[-1].append((x, H - y - h, w, h, w0))
        if mv == 'bottom':
            y += h
        else:
            x += w
        r.expect(near(pdf.page.x, x) and near(pdf.page.y, y), 'position', lambda: 'after operation %d: (%s, %s), expected (%s, %s)' % (k, pdf.page.x, pdf.page.y, x, y))
    doc = Doc(output(pdf))
    r.expect(len(doc.pages) == len(want), 'pages', lambda: '%d, expected %d' % (len(doc.pages), len(want)))
    for pg, wp in zip(doc.pages, want):
        got = [(q[0], q[1], q[2], q[3], doc.pdf.objects[q[4]].dict['Width']) for q in pg.images]
        r.expect(len(got) == len(wp) and all(near(a, b) for g, v in zip(got, wp) for a, b in zip(g, v)), 'drawn', lambda: 'drawn (x, bottom, width, height, image) %s, expected %s' % (got, wp))
    n = sum(1 for o in doc.pdf.objects.values() if isinstance(o, Stream) and o.dict.get('Subtype') == 'Image')
    used = len({w[4] for p in want for w in p})
    r.expect(n == used, 'stored-once', lambda: '%d images stored, %d used' % (n, used))
    r.trans += len(ops)
    r.compared += 1
    r.state((size, ops))


FAMILIES = [
    Family('headers', gen_headers, run_headers, 'all sequences of up to 2 (thorough: 3) of 20 segments before the frame, all frame types, depths and components, sizes of 7 values'),
    Family('bytes', gen_trunc, run_trunc, '3 files: truncated at every byte, without each byte, with each byte changed to 12 (thorough: 256) values; 13 foreign files'),
    Family('sources', gen_sources, run_sources, 'all combinations of sources, extensions and names; sequences of up to 3 (thorough: 5) images'),
    Family('png', gen_png, run_png, '14 modes (with transparent colors, palettes, a color in each corner), 6 colors, 5 (thorough: 8) sizes, 3 sources'),
    Family('drawing', gen_draw, run_draw, 'all operations (shape, size, place, move), pairs of operations, sequences of 3 (thorough: 5) of images, texts and pages'),
]
