"""C03: no word is lost, duplicated, reordered or torn, whatever the sequence
of rectangles a paragraph is poured into."""
import itertools
import re

from mc.engine import Family
from mc.par import *

PROPERTY = 'C03'
EXPLANATION = (
    'Bounded exhaustive enumeration of paragraph contents (token sequences with '
    'spaces, breaks, part boundaries, nesting, variables, numbers) poured into '
    'every sequence of rectangles of several widths and heights; the words read '
    'back from the content streams must be exactly the words put in.')
ASSUMPTIONS = ['only printable Latin-1 text is drawn with the standard fonts',
               'the last rectangle of every sequence can hold a line']


def lines_of(page):
    """text of each line: [(y, text)] in painting order"""
    out = []
    for t in page.texts:
        if out and abs(out[-1][0] - t.y) < 1e-6:
            out[-1][1] += t.text
        else:
            out.append([t.y, t.text])
    return out


def read_words(pages, r, strict=True):
    words = []
    for p in pages:
        prev = None
        for y, txt in lines_of(p):
            if prev is not None:
                r.expect(y < prev, 'lines-out-of-order', lambda: '%r after %r' % (y, prev))
            prev = y
            r.expect(not txt.startswith(' ') and '  ' not in txt, 'extra-space', lambda: repr(txt))
            words += txt.split(' ')
        cs = chars(p)
        for a, b in zip(cs, cs[1:]):
            if abs(a[2] - b[2]) < 1e-6:
                r.expect(b[1] > a[1] - 1e-6, 'chars-overlap', lambda: '%r %r' % (a, b))
    return [w for w in words if w]


def check(content, expected, rects, opts, r, context=None, limit=300):
    pdf = PDF(page_size=(PW, PH), margin=0)
    if context:
        pdf.context.update(context)
    pdf, res, fin = run_rects(content, rects, opts, pdf, limit)
    r.trans += len(res)
    if not r.expect(fin, 'never-finished', '%d rectangles' % len(res)):
        return
    d = Doc(output(pdf))
    got = read_words(d.pages, r)
    r.expect(got == expected, 'words', lambda: 'put in %r, painted %r' % (expected, got))
    for p, rs in zip(d.pages, res):
        x, y, w, h = rs['rect']
        for ch, cx, cy, g in chars(p):
            if not r.expect(p.height - y - h - TOL <= cy <= p.height - y and cx >= x - TOL, 'outside-rectangle',
                            lambda: '%r at %.3f,%.3f outside %r' % (ch, cx, p.height - cy, rs['rect'])):
                break
    r.compared += 1
    r.state(doc_digest(d))


TOK = ['a', 'bcde', 'fghijklmno', ' ', '  ', '\n', '|']   # | = new part
STY = [{}, {'b': True}, {'s': 15}, {'f': 'Courier', 'u': True}]


def content_of(toks):
    parts = ['']
    for t in toks:
        if t == '|':
            parts.append('')
        else:
            parts[-1] += t
    out = []
    for i, p in enumerate(parts):
        st = STY[i % 4]
        out.append({'.': p, 'style': dict(st)} if st else p)
    return out, [w for w in re.split('[ \n]+', ''.join(parts)) if w]


def gen_tokens(tier):
    n = 5 if tier == 'quick' else 6
    for toks in seqs(TOK, n, 1):
        if not any(t.strip(' \n|') for t in toks):
            continue
        yield toks


def gen_spaces(tier):
    n = 9 if tier == 'quick' else 11
    for toks in seqs(('a', ' ', '|'), n, 2):
        if toks.count('a') > 1 and toks.count(' ') and toks[0] == 'a':
            yield toks


def gen_nobreak(tier):
    n = 5 if tier == 'quick' else 7
    for toks in seqs(('x\xa0y', 'a\xa0\xa0bc\xadd', 'e', ' ', '|'), n, 1):
        if any('\xa0' in t for t in toks):
            yield toks


def run_tokens(toks, r):
    content, exp = content_of(toks)
    check(content, exp, [(20, 10, 50.3, 18), (500, 300, 80.7, 200)], {}, r)


def gen_rects(tier):
    """one rich paragraph through every sequence of rectangles"""
    W = (30.1, 61.3, 140.7)
    H = (4, 13, 26, 60)
    R = list(itertools.product(W, H))
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for rs in itertools.product(R, repeat=k):
            for v in range(4 if k < n else 3 if tier == 'quick' else 2):
                yield (rs, v)


def run_rects_(case, r):
    rs, v = case
    content = [['one two ', {'.b': 'three fo'}, 'ur five\nsix ', {'.s:15': 'seven eight'}, ' nine ten'],
               ['aaaa bbb\ncc\ndddd eeeee f g hh iii jjjj kkk ll m'],
               ['x ', {'.': ['yy ', {'.i': ['zzz ', {'.u:1;s:8': ' wwww'}, ' v']}, ' tt']}, ' ss rrr'],
               ['t1 t2', {'.b': ' t3 '}, {'.c:red': 't4 t5t5t5t5t5t5 '}, 't6\n', 't7']][v]
    words = [['one', 'two', 'three', 'four', 'five', 'six', 'seven', 'eight', 'nine', 'ten'],
             'aaaa bbb cc dddd eeeee f g hh iii jjjj kkk ll m'.split(),
             'x yy zzz wwww v tt ss rrr'.split(),
             't1 t2 t3 t4 t5t5t5t5t5t5 t6 t7'.split()][v]
    opts = [{}, {'text_align': 'j', 'indent': 12}, {'text_align': 'r'}, {'list_text': None}][v]
    rects = [(20 + 5 * i, 30 + 3 * i, w, h) for i, (w, h) in enumerate(rs)] + [(20, 30, 90.3, 300)]
    check(content, words, rects, opts, r)


def gen_lists(tier):
    H = (4, 13, 26, 60)
    for w in (61.3, 140.7):
        for hs in itertools.product(H, repeat=3):
            for al in 'lrcj':
                for li in (None, 22):
                    for mark in ('1.', '(b)', 7):
                        yield (w, hs, al, li, mark, 0)
    # paragraphs without text, or without text in their first line
    for t in range(1, len(LTEXT)):
        for w in (61.3, 140.7):
            for hs in itertools.product(H, repeat=2):
                for al in 'lrcj':
                    for li in (None, 22):
                        yield (w, hs, al, li, '(b)', t)


LTEXT = ['aaaa bbb\ncc ddd eeeee f\ng', '', ' ', '\n', '\na', '\n\naaaa bbb cc ddd', ['', '\n', {'.b': 'aa'}], [{'.b': ''}, ''], [{'.b': '\n'}, {'.i': 'aaa\n'}], [' \n', 'b']]


def run_lists(case, r):
    w, hs, al, li, mark, t = case
    opts = {'text_align': al, 'list_text': mark, 'indent': 6}
    if li is not None:
        opts['list_indent'] = li
    elif isinstance(mark, str):
        opts['list_text'] = mark = mark + ' '
    exp = (str(mark).strip() + ('' if li is None else '')) if 1 else ''
    words = LTEXT[t]
    content = words if isinstance(words, list) else [words]
    words = ''.join(x if isinstance(x, str) else list(x.values())[0] for x in content)
    pdf = PDF(page_size=(PW, PH), margin=0)
    rects = [(20, 30, w, h) for h in hs] + [(20, 30, w, 300)]
    pdf, res, fin = run_rects(content, rects, opts, pdf)
    r.trans += len(res)
    if not r.expect(fin, 'never-finished'):
        return
    d = Doc(output(pdf))
    txt = ''.join(shown(p) for p in d.pages)
    r.expect(txt == exp + ''.join(words.split()), 'list-text', lambda: '%r instead of %r' % (txt, exp + ''.join(words.split())))
    r.compared += 1
    r.state(doc_digest(d))


def gen_chars(tier):
    pr = [chr(i) for i in list(range(0x21, 0x7f)) + list(range(0xa1, 0x100))]
    for c in pr:
        for fam in ('Helvetica', 'Times', 'Courier') if tier == 'quick' else ('Helvetica', 'Times', 'Courier', 'Symbol', 'ZapfDingbats'):
            yield (c, fam)
    sp = '\\()n/<>[]{}%0'
    for k in (2, 3):
        for p in itertools.product(sp, repeat=k):
            yield (''.join(p), 'Helvetica')


def run_chars(case, r):
    c, fam = case
    exp = [c, 'x' + c, c + 'y', c + c]
    check([{'.': ' '.join(exp), 'style': {'f': fam}}], exp, [(20, 10, 39.7, 13), (20, 10, 200, 200)], {}, r)


def gen_shapes(tier):
    """all nested shapes: a tree of parts whose leaves are words"""
    def trees(n):
        """ordered trees with n leaves: leaf = str, node = list"""
        if n == 1:
            yield 'L'
        for k in range(2, n + 1):
            for comp in compositions(n, k):
                for sub in itertools.product(*[list(trees1(c)) for c in comp]):
                    yield list(sub)

    def trees1(n):
        if n == 1:
            yield 'L'
            yield ['L']
        else:
            yield from trees(n)

    def compositions(n, k):
        if k == 1:
            yield (n,)
            return
        for i in range(1, n):
            for rest in compositions(n - i, k - 1):
                yield (i,) + rest
    n = 4 if tier == 'quick' else 5
    for m in range(1, n + 1):
        for t in trees(m):
            for kind in ('str', 'num', 'var', 'tuple'):
                for sep in ('', ' ', '\n'):
                    yield (t, kind, sep)


def run_shapes(case, r):
    t, kind, sep = case
    count = [0]
    ctx = {}
    texts = []

    def conv(node, top=False):
        if node == 'L':
            i = count[0]
            count[0] += 1
            if kind == 'num':
                v = (i + 1) * 111 if i % 2 else (i + 1) * 1.5
                texts.append(str(v))
                if sep:
                    texts.append(sep)
                return [v, sep] if sep else [v]
            if kind == 'var' and i % 2:
                ctx['v%d' % i] = 'var%d vv' % i
                texts.append('var%d vv' % i + sep)
                return [{'var': 'v%d' % i}, sep] if sep else [{'var': 'v%d' % i}]
            texts.append('w%d%s' % (i, sep))
            return ['w%d%s' % (i, sep)]
        els = []
        for ch in node:
            els += conv(ch)
        if top:
            return els
        return [{'.b' if count[0] % 2 else '.i': tuple(els) if kind == 'tuple' else els}]
    els = conv(t if t != 'L' else ['L'], True)
    check(tuple(els) if kind == 'tuple' else els, ''.join(texts).split(),
          [(20, 10, 47.9, 18), (20, 10, 60.1, 300)], {}, r, ctx)


def gen_pages(tier):
    """PDF.text over real pages: new pages as needed"""
    for n in list(range(1, 60)) + ([200, 700] if tier == 'thorough' else [150]):
        for h in (30, 43, 61.5):
            for al in 'lj':
                for y in (0, 7, 20):
                    yield (n, h, al, y)


def run_pages(case, r):
    n, h, al, y = case
    pdf = PDF(page_size=(120, h + 20), margin=10)
    pdf.add_page()
    pdf.page.y += y
    words = ['w%d' % i for i in range(n)]
    pdf.text(' '.join(words), text_align=al)
    d = Doc(output(pdf))
    got = read_words(d.pages, r)
    r.expect(got == words, 'words', lambda: 'put in %r, painted %r' % (words, got))
    for p in d.pages[1:]:
        r.expect(p.texts, 'blank-page')
    for p in d.pages:
        for ch, cx, cy, g in chars(p):
            r.expect(10 - TOL <= cx and 10 - TOL <= cy <= p.height - 10, 'outside-margins', lambda: '%r %r' % (cx, cy))
    r.trans += len(d.pages)
    r.compared += 1
    r.state(doc_digest(d))


# -- longer paragraphs -------------------------------------------------------------

def gen_large(tier):
    for n in (40, 150, 600) if tier == 'quick' else (40, 80, 150, 300, 600, 1500):
        for per in (1, 4, 23, n):               # words in a part
            for br in (0, 3, 17):               # words in a line
                for rects in range(3):
                    for al in 'lj':
                        yield ('flat', n, per, br, rects, al)
    for depth in (4, 6, 9, 14):
        for n in (1, 3):
            for rects in range(3):
                yield ('deep', depth, n, 0, rects, 'l')


LONG = [[(20, 10, 210.3, 2900)], [(20, 10, 90.3, 47), (40, 100, 150.7, 30)], [(20, 10, 70.1, 320), (30, 20, 300.7, 16), (9, 9, 120.2, 700)]]


def run_large(case, r):
    kind, n, per, br, rects, al = case
    if kind == 'flat':
        words = ['w%d' % i for i in range(n)]
        parts, cur = [], ''
        for i, w in enumerate(words):
            cur += w + ('\n' if br and i % br == br - 1 else ' ')
            if i % per == per - 1:
                st = STY[len(parts) % 4]
                parts.append({'.': cur, 'style': dict(st)} if st else cur)
                cur = ''
        if cur:
            parts.append(cur)
    else:
        words, k = [], [0]

        def w():
            k[0] += 1
            words.append('d%d' % k[0])
            return words[-1]

        def rec(d):
            a = ' '.join(w() for _ in range(per)) + ' '
            kids = [rec(d - 1)] if d else []
            b = ' ' + ' '.join(w() for _ in range(per)) + ' '
            return {'.' + ('b', 'i', '', 's:9')[d % 4]: [a] + kids + [b]}
        parts = [rec(n), rec(2)]
    check(parts, words, LONG[rects] , {'text_align': al}, r, limit=900)


FAMILIES = [
    Family('tokens', gen_tokens, run_tokens, lambda t: 'all sequences of <=%d tokens over {3 words, 1 and 2 spaces, line break, part boundary}' % (5 if t == 'quick' else 6)),
    Family('spaces', gen_spaces, run_tokens, lambda t: 'all sequences of <=%d letters, spaces and part boundaries' % (9 if t == 'quick' else 11)),
    Family('no-break', gen_nobreak, run_tokens, lambda t: 'all sequences of <=%d words with no-break spaces and soft hyphens, words, spaces and part boundaries' % (5 if t == 'quick' else 7)),
    Family('rectangles', gen_rects, run_rects_, lambda t: '4 paragraphs x all sequences of <=%d rectangles out of 12' % (3 if t == 'quick' else 4)),
    Family('lists', gen_lists, run_lists, 'list paragraphs x all sequences of 3 heights out of 4'),
    Family('characters', gen_chars, run_chars, 'every printable Latin-1 character; all strings of <=3 PDF-special characters'),
    Family('shapes', gen_shapes, run_shapes, 'all nestings of parts with <=4 (5) leaves'),
    Family('large', gen_large, run_large, 'paragraphs of 40 to 600 (1500) words, parts of 1 to all of them, line breaks; nestings of 4 to 14 parts; 3 rectangle sequences'),
    Family('pages', gen_pages, run_pages, 'paragraphs of 1..59 words over automatically added pages'),
]
