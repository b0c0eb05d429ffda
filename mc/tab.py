"""Tables: enumeration of span arrangements, driving, reference geometry."""
import functools

from .par import *

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


@functools.lru_cache(None)
def tilings(rows, cols):
    """All partitions of a rows x cols grid into rectangles, each a tuple of
    (row, col, rowspan, colspan) in reading order."""
    out = []
    grid = [[None] * cols for _ in range(rows)]

    def rec(cells):
        for p in range(rows * cols):
            i, j = divmod(p, cols)
            if grid[i][j] is None:
                break
        else:
            out.append(tuple(cells))
            return
        for rs in range(1, rows - i + 1):
            for cs in range(1, cols - j + 1):
                if all(grid[a][b] is None for a in range(i, i + rs) for b in range(j, j + cs)):
                    for a in range(i, i + rs):
                        for b in range(j, j + cs):
                            grid[a][b] = 1
                    rec(cells + [(i, j, rs, cs)])
                    for a in range(i, i + rs):
                        for b in range(j, j + cs):
                            grid[a][b] = None
    rec([])
    return tuple(out)


def tiling_of(rows, cols, ti):
    """index in tilings(rows, cols), or the tiling of a grid with one spanned
    cell (i, j, rs, cs)"""
    if isinstance(ti, int):
        return tilings(rows, cols)[ti]
    i, j, rs, cs = ti
    return tuple((a, b) + ((rs, cs) if (a, b) == (i, j) else (1, 1)) for a in range(rows) for b in range(cols)
                 if (a, b) == (i, j) or not (i <= a < i + rs and j <= b < j + cs))


def one_spans(rows, cols):
    return [(i, j, rs, cs) for i in range(rows) for j in range(cols) for rs in range(1, rows - i + 1) for cs in range(1, cols - j + 1)
            if rs * cs > 1 or i == j == 0]


def content_of(tiling, rows, cols, elements):
    """elements: one dict per cell of the tiling"""
    t = [[None] * cols for _ in range(rows)]
    for (i, j, rs, cs), el in zip(tiling, elements):
        el = dict(el) if isinstance(el, dict) else {'.': el}
        if rs > 1:
            el['rowspan'] = rs
        if cs > 1:
            el['colspan'] = cs
        t[i][j] = el
    return t


def run_table(content, rects, widths=None, style=None, borders=None, fills=None, pdf=None, limit=120):
    """Lays a table over rects [(x, ytop, w, h)], one page each."""
    if pdf is None:
        pdf = PDF(page_size=(PW, PH), margin=0)
    obj = content
    i = 0
    heights = []
    while True:
        x, y, w, h = rects[min(i, len(rects) - 1)]
        pdf.add_page()
        if i == 0:
            obj = pdf._table(obj, w, h, x, y, widths, style, borders, fills)
        else:
            obj = pdf._table(obj, w, h, x, y)
        heights.append(obj.current_height)
        i += 1
        if obj.finished:
            return pdf, heights, True
        if i >= limit:
            return pdf, heights, False


def text_height(nlines, s, lh=1.1):
    return 0 if nlines == 0 else s + lh + (nlines - 1) * lh * s


def col_x(widths, cols, w):
    ws = widths or [1] * cols
    tot = float(sum(ws))
    out = [0.0]
    for v in ws:
        out.append(out[-1] + v / tot * w)
    return out
