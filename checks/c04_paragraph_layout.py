"""C04: where the lines of a paragraph are placed."""
import itertools

from mc.engine import Family
from mc.par import *

PROPERTY = 'C04'
EXPLANATION = (
    'Bounded exhaustive enumeration of paragraphs (word length sequences, '
    'styles, alignments, indents, list markers, widths, rectangle heights); '
    'the content stream of every page is interpreted and the position of every '
    'visible character is compared with a reference layout.')
ASSUMPTIONS = ['glyph widths of the standard fonts: snapshot in data/afm.json',
               'words that fit a line exactly (to 1e-6 pt) are excluded',
               'a paragraph does not end with a space, nor a line before a forced break (such a space counts as part of the line)']

LET = 'abcdefghijklmnopqrstuvwxyz'
ALIGN = 'lrcj'


def words(lens):
    return ' '.join((LET[i % 26] * n) for i, n in enumerate(lens))


def go(text_parts, opts, rects, r, default=None):
    parts = [(t, style_of(s)) for t, s in text_parts]
    try:
        break_lines(parts, rects[0][2], opts.get('text_align') or 'l', opts.get('indent', 0),
                    opts.get('list_indent') or 0)
    except Tie:
        return
    lst = None
    if opts.get('list_text'):
        base = dict(text_parts[0][1] or {})
        base.update(opts.get('list_style') or {})
        lst = style_of(base)
    pdf, res, fin = run_rects(to_content(text_parts), rects, opts)
    r.trans += len(res)
    if not r.expect(fin, 'never-finished', '%d rectangles' % len(res)):
        return
    d = Doc(output(pdf))
    try:
        check_layout(parts, rects, opts, d.pages, res, r, lst)
    except Tie:
        return
    r.compared += 1
    r.state(doc_digest(d))


LENS = (1, 4, 9)


def gen_words(tier):
    n = 5 if tier == 'quick' else 7
    for k in range(1, n + 1):
        for lens in itertools.product(LENS, repeat=k):
            for al in ALIGN:
                for indent in (0, 17):
                    for w in (61.3, 97.1):
                        yield (lens, al, indent, w)


def run_words(case, r):
    lens, al, indent, w = case
    go([(words(lens), {})], {'text_align': al, 'indent': indent}, [(30, 40, w, 500)], r)


def gen_rects(tier):
    """the same paragraphs over rectangles holding 0, 1, 2 or 3 lines"""
    n = 4 if tier == 'quick' else 6
    H = (5, 13, 25, 37.2)
    for lens in itertools.product(LENS, repeat=n):
        for al in ALIGN:
            for indent in (0, 17):
                for hs in itertools.product(H, repeat=2):
                    yield (lens, al, indent, hs)


def run_rect(case, r):
    lens, al, indent, hs = case
    go([(words(lens), {})], {'text_align': al, 'indent': indent},
       [(30 + 10 * i, 40 + 7 * i, 61.3, h) for i, h in enumerate(hs + (500,))], r)


def gen_list(tier):
    n = 4 if tier == 'quick' else 5
    for k in (1, 2, 3, n):
        for lens in itertools.product(LENS, repeat=k):
            for al in ALIGN:
                for lt, li, ls in (('1. ', None, None), ('(a) ', 25, {'b': True}), ('*', 31.7, {'f': 'Times', 's': 7}), ('\\)', None, {'c': [1, 0, 0]}), ('#', 20, {'s': 20}), ('- ', 0, None)):
                    for indent in (0, 9):
                        for hs in ((500,), (13, 500), (25, 500), (5, 500)):
                            yield (lens, al, lt, li, ls, indent, hs)


def run_list(case, r):
    lens, al, lt, li, ls, indent, hs = case
    opts = {'text_align': al, 'list_text': lt, 'indent': indent}
    if li is not None:
        opts['list_indent'] = li
    if ls is not None:
        opts['list_style'] = dict(ls)
    go([(words(lens), {})], opts, [(30, 40, 97.1, h) for h in hs], r)


STY = [{}, {'b': True}, {'s': 16}, {'s': 7, 'r': 0.6}, {'r': -0.7}, {'f': 'Times', 'i': True, 's': 12.5}]


def gen_styles(tier):
    """parts joined with or without a space between them"""
    n = 3 if tier == 'quick' else 4
    for k in range(2, n + 1):
        for sts in itertools.product(range(len(STY)), repeat=k):
            for joins in itertools.product(('', ' '), repeat=k - 1):
                for al in ALIGN if tier == 'thorough' else 'lj' if k > 2 else ALIGN:
                    for h in (500, 40):
                        yield (sts, joins, al, h)


def run_styles(case, r):
    sts, joins, al, h = case
    parts = []
    for i, s in enumerate(sts):
        t = LET[3 * i] * 2 + ' ' + LET[3 * i + 1] * 5 + ' ' + LET[3 * i + 2] * 3
        if i < len(joins):
            t += joins[i]
        parts.append((t, STY[s]))
    go(parts, {'text_align': al}, [(30, 40, 72.7, h)], r)


RIS = [{}, {'r': 0.2}, {'r': 0.6}, {'r': 1.5}, {'r': -0.2}, {'r': -0.7}, {'r': -1.5}, {'r': 0.4, 's': 16}, {'r': -0.3, 's': 5}]


def gen_rises(tier):
    """raised and lowered parts, several in a line"""
    n = 3 if tier == 'quick' else 4
    for k in range(2, n + 1):
        for sts in itertools.product(range(len(RIS)), repeat=k):
            for w in (72.7, 240):
                for h in (500, 60) if k < 4 else (500,):
                    yield (sts, w, h)


def run_rises(case, r):
    sts, w, h = case
    parts = [(LET[2 * i] * 2 + ' ' + LET[2 * i + 1] * 4 + ' ', RIS[s]) for i, s in enumerate(sts)]
    parts[-1] = (parts[-1][0].rstrip(), parts[-1][1])
    go(parts, {}, [(30, 40, w, h)], r)


def gen_many_parts(tier):
    """lines of many parts, where one or two of them are different"""
    for n in (7, 12, 20) if tier == 'quick' else (7, 12, 20, 26):
        for i in range(n):
            for a in range(1, len(RIS)):
                for w in (500, 60):
                    yield (n, ((i, a),), w, '')
                    yield (n, ((i, a),), w, ' ')
        if tier == 'quick':
            continue
        for i, j in itertools.combinations(range(n), 2):
            for a, b in itertools.product(range(1, len(RIS)), repeat=2):
                yield (n, ((i, a), (j, b)), 500, '')
                yield (n, ((i, a), (j, b)), 60, ' ')


def run_many_parts(case, r):
    n, odd, w, sep = case
    odd = dict(odd)
    parts = [(LET[i] * 2 + (sep if i < n - 1 else ''), dict(RIS[odd.get(i, 0)], b=bool(i % 2))) for i in range(n)]     # no two in a row are equal
    go(parts, {}, [(30, 40, w, 500)], r)


def gen_list_parts(tier):
    """lists of several parts, continued in other rectangles"""
    n = 3 if tier == 'quick' else 4
    for k in range(2, n + 1):
        for lens in itertools.product((1, 4), repeat=k):
            for joins in itertools.product(('', ' ', '\n'), repeat=k - 1):
                for lt, li in (('1. ', None), ('(a) ', 25)):
                    for al in 'lr':
                        for hs in ((13, 500), (25, 500), (13, 13, 500), (5, 25, 500)):
                            yield (lens, joins, lt, li, al, hs)


def run_list_parts(case, r):
    lens, joins, lt, li, al, hs = case
    opts = {'text_align': al, 'list_text': lt, 'indent': 6}
    if li is not None:
        opts['list_indent'] = li
    parts = [(LET[2 * i] * n + ' ' + LET[2 * i + 1] * 9 + (joins[i] if i < len(joins) else ''), STY[i % 2]) for i, n in enumerate(lens)]
    go(parts, opts, [(30, 40, 97.1, h) for h in hs], r)


def gen_breaks(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(2, n + 1):
        for lens in itertools.product(LENS, repeat=k):
            for seps in itertools.product(' \n', repeat=k - 1):
                if '\n' not in seps:
                    continue
                for al in ALIGN:
                    for lt in (None, '- '):
                        for h in (500, 26):
                            yield (lens, seps, al, lt, h, 0)
                            if k < 4 and lt:
                                # with a break before the text: the marker is alone in the first line
                                yield (lens, seps, al, lt, h, 1)


def run_breaks(case, r):
    lens, seps, al, lt, h, lead = case
    t = '\n' * lead + ''.join(LET[i] * n + (seps[i] if i < len(seps) else '') for i, n in enumerate(lens))
    opts = {'text_align': al}
    if lt:
        opts['list_text'] = lt
    go([(t, {})], opts, [(30, 40, 61.3, h)], r)


def gen_params(tier):
    """line height, indent, size, font sweeps"""
    for lhs in (0.8, 1, 1.1, 1.5, 2, 3.25):
        for ind in (0, 5, 40):
            for f in ('Helvetica', 'Times', 'Courier'):
                for s in (5, 11, 14.5, 30):
                    for al in ALIGN:
                        for h in (500, 3 * s + 10):
                            yield (lhs, ind, f, s, al, h)


def run_params(case, r):
    lhs, ind, f, s, al, h = case
    st = {'f': f, 's': s}
    go([(words((3, 2, 4, 1, 5, 3, 2)), st)], {'text_align': al, 'line_height': lhs, 'indent': ind},
       [(30, 40, 9.13 * s, h)], r)


def gen_large(tier):
    for n in (30, 90, 260) if tier == 'quick' else (20, 30, 60, 90, 150, 260, 600):
        for per in (1, 5, n):
            for al in ALIGN:
                for hs in ((2900,), (47, 700), (16, 30, 90)):
                    for lt in (None, '12345678. '):
                        for ind in (0, 60) if per == 5 else (0,):
                            yield (n, per, al, hs, lt, ind)
    # words of many letters, sizes and widths
    for s in (1, 2, 3.5, 40, 73, 100, 150):
        for al in ALIGN:
            for lens in ((1, 1, 1), (12, 3, 20, 1), (45, 2, 33)):
                for f in (1.07, 3.3):
                    yield (lens, s, al, f)


def run_large(case, r):
    if len(case) == 4:
        lens, s, al, f = case
        t = words(lens)
        w = max(style_of({'s': s}).w(q) for q in t.split(' ')) * f + 0.013
        if w < 900:
            go([(t, {'s': s})], {'text_align': al}, [(30, 40, w, 1500)], r)
        return
    n, per, al, hs, lt, ind = case
    lens = [1 + (i * i + i // 7) % 9 for i in range(n)]
    parts = []
    for i in range(0, n, per):
        parts.append((' '.join(LET[k % 26] * lens[k] for k in range(i, min(n, i + per))) + ' ', STY[(i // per) % len(STY)]))
    parts[-1] = (parts[-1][0].rstrip(' '), parts[-1][1])
    opts = {'text_align': al, 'indent': ind}
    if lt:
        opts['list_text'] = lt
    go(parts, opts, [(30 + 5 * i, 40, 190.3, h) for i, h in enumerate(hs)], r)


FAMILIES = [
    Family('words', gen_words, run_words, lambda t: 'all word length sequences over {1,4,9} up to %d words x 4 alignments x indent x 2 widths' % (5 if t == 'quick' else 7)),
    Family('rectangles', gen_rects, run_rect, '4-word paragraphs (6 thorough) over all pairs of rectangles of 0-3 lines'),
    Family('styles', gen_styles, run_styles, 'all sequences of 2-3 (4) parts over 6 styles, glued or spaced'),
    Family('rises', gen_rises, run_rises, 'all sequences of 2-3 (4) parts over 9 rises and sizes'),
    Family('many-parts', gen_many_parts, run_many_parts, 'lines of 7 to 20 (26) parts, one (or two) with each of 8 sizes and rises, at every place'),
    Family('list-parts', gen_list_parts, run_list_parts, 'lists of 2-3 (4) parts, glued, spaced or broken, over sequences of rectangles'),
    Family('breaks', gen_breaks, run_breaks, 'all placements of forced line breaks in 2-4 (5) words'),
    Family('lists', gen_list, run_list, 'list markers x alignments x indents x rectangles'),
    Family('large', gen_large, run_large, 'paragraphs of 30 to 260 (600) words in 1 to all parts of 6 styles, long markers; sizes 1 to 150, words of up to 45 letters'),
    Family('parameters', gen_params, run_params, 'line height x indent x font x size x alignment'),
]
