"""Reference layout of paragraphs: where every visible character must be.

Independent formulation (whole paragraph at once, words as units, absolute
positions), compared with what the content stream paints.
"""
from . import metrics

BASE = {
    ('Helvetica', 0, 0): 'Helvetica', ('Helvetica', 1, 0): 'Helvetica-Bold',
    ('Helvetica', 0, 1): 'Helvetica-Oblique', ('Helvetica', 1, 1): 'Helvetica-BoldOblique',
    ('Times', 0, 0): 'Times-Roman', ('Times', 1, 0): 'Times-Bold',
    ('Times', 0, 1): 'Times-Italic', ('Times', 1, 1): 'Times-BoldItalic',
    ('Courier', 0, 0): 'Courier', ('Courier', 1, 0): 'Courier-Bold',
    ('Courier', 0, 1): 'Courier-Oblique', ('Courier', 1, 1): 'Courier-BoldOblique',
    ('Symbol', 0, 0): 'Symbol', ('Symbol', 1, 0): 'Symbol', ('Symbol', 0, 1): 'Symbol',
    ('Symbol', 1, 1): 'Symbol',
    ('ZapfDingbats', 0, 0): 'ZapfDingbats', ('ZapfDingbats', 1, 0): 'ZapfDingbats',
    ('ZapfDingbats', 0, 1): 'ZapfDingbats', ('ZapfDingbats', 1, 1): 'ZapfDingbats',
}


class Style:
    """Resolved style of a run of text."""
    __slots__ = ('f', 'b', 'i', 's', 'c', 'r', 'u', 'bg', 'base', 'font', 'ids')

    def __init__(self, f='Helvetica', b=False, i=False, s=11, c=(0.1,), r=0, u=False, bg=None, ids=()):
        self.f, self.b, self.i, self.s, self.c, self.r, self.u, self.bg = f, b, i, s, c, r, u, bg
        self.ids = tuple(ids)
        self.base = BASE[(f, int(bool(b)), int(bool(i)))]
        self.font = metrics.std(self.base)

    def w(self, text):
        return self.font.width(text) * self.s

    def key(self):
        return (self.base, self.s, self.c, self.r, self.u, self.bg)


class Line:
    def __init__(self):
        self.words = []      # [ [(text, style)...] ]
        self.gaps = []       # style of the space before word i (i >= 1)
        self.last = False    # ends the paragraph or a forced line break
        self.first = False   # first line of the paragraph
        self.brk = False     # starts after a forced break


def tokenize(parts):
    """[(text, style)] -> list of segments (split at newlines); a segment is
    (words, gaps): words = [[(text, style)]], gaps[i] = style of the space
    between word i and i+1."""
    segs = []
    words, gaps = [], []
    cur = []
    gap = None

    def endword():
        nonlocal cur, gap
        if cur:
            if words:
                gaps.append(gap)
            words.append(cur)
            cur = []
            gap = None
    for text, st in parts:
        buf = ''
        for ch in text:
            if ch in ' \n':
                if buf:
                    cur.append((buf, st))
                    buf = ''
                endword()
                if ch == ' ':
                    if words and gap is None:
                        gap = st
                else:
                    segs.append((words, gaps))
                    words, gaps = [], []
                    gap = None
            else:
                buf += ch
        if buf:
            cur.append((buf, st))
    endword()
    segs.append((words, gaps))
    return segs


def wwidth(word):
    return sum(st.w(t) for t, st in word)


def break_lines(parts, width, align='l', indent=0, left=0):
    """Greedy line breaking.  left = list indent.  -> [Line]; ties (a word that
    fits exactly, to 1e-6) raise Tie so that callers can skip them."""
    factor = 0.7 if align == 'j' else 1.0
    out = []
    first = True
    for si, (words, gaps) in enumerate(tokenize(parts)):
        line = None
        for i, word in enumerate(words):
            if line is None:
                line = Line()
                line.first = first
                line.brk = si > 0
                first = False
                maxw = width - left - (indent if line.first else 0)
                line.words.append(word)
                used = wwidth(word)
                continue
            sp = gaps[i - 1].w(' ') * factor
            ww = wwidth(word)
            if abs(used + sp + ww - maxw) < 1e-6:
                raise Tie()
            if used + sp + ww < maxw:
                line.words.append(word)
                line.gaps.append(gaps[i - 1])
                used += sp + ww
            else:
                out.append(line)
                line = Line()
                maxw = width - left
                line.words.append(word)
                used = ww
        if line is None:
            line = Line()
            line.first = first
            line.brk = si > 0
            first = False
        line.last = True
        out.append(line)
    return out


class Tie(Exception):
    pass


def natural(line):
    return sum(wwidth(w) for w in line.words), sum(g.w(' ') for g in line.gaps)


def place(line, width, align='l', indent=0, left=0):
    """-> [(char, x, style)] for the visible characters, relative to the left
    of the rectangle, and (start, end) of the line."""
    ww, sw = natural(line)
    ind = indent if line.first else 0
    factor = 1.0
    if align == 'j' and sw > 0:
        room = width - left - ind - ww
        if not line.last:
            factor = room / sw
        else:
            factor = min(1.0, room / sw)
    total = ww + sw * factor
    if align in 'lj':
        x = left + ind
    elif align == 'r':
        x = width - total
    else:
        x = left + (width - left - total) / 2
    start = x
    out = []
    for i, word in enumerate(line.words):
        if i:
            x += line.gaps[i - 1].w(' ') * factor
        for t, st in word:
            for ch in t:
                out.append((ch, x, st))
                x += st.w(ch)
    return out, start, x, factor


def sizes(line):
    return [st.s for w in line.words for _, st in w] or [0]


def rises(line):
    return [st.r * st.s for w in line.words for _, st in w] or [0]
