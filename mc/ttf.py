"""Synthetic TrueType fonts, built with fontTools."""
import io
import os
import tempfile

from fontTools.fontBuilder import FontBuilder
from fontTools.pens.ttGlyphPen import TTGlyphPen


def box(w, h):
    pen = TTGlyphPen(None)
    pen.moveTo((0, 0))
    pen.lineTo((0, h))
    pen.lineTo((w, h))
    pen.lineTo((w, 0))
    pen.closePath()
    return pen.glyph()


def make(chars, name='Test', upem=1000, style='Regular', gaps=0, shared=None, italic=0, weight=400, fixed=0, order=None, names=None, os2=True):
    """chars: [(codepoint, width)] in glyph order (glyph 1...).  shared:
    {codepoint: other codepoint with the same glyph}.  -> bytes"""
    glyphs = ['.notdef'] + ['g%d' % i for i in range(len(chars))] + ['x%d' % i for i in range(gaps)]
    cmap = {}
    widths = {'.notdef': (500, 0)}
    outl = {'.notdef': box(400, 700)}
    for i, (c, w) in enumerate(chars):
        if c is not None:
            cmap[c] = 'g%d' % i
        widths['g%d' % i] = (w, 0)
        outl['g%d' % i] = box(max(w - 50, 10) + i // 30000, 500 + i % 30000)
    for i in range(gaps):
        widths['x%d' % i] = (600, 0)
        outl['x%d' % i] = box(100, 100)
    for a, b in (shared or {}).items():
        cmap[a] = cmap[b]
    fb = FontBuilder(upem, isTTF=True)
    fb.setupGlyphOrder(glyphs)
    fb.setupCharacterMap(cmap)
    fb.setupGlyf(outl)
    fb.setupHorizontalMetrics(widths)
    fb.setupHorizontalHeader(ascent=int(upem * 0.8), descent=-int(upem * 0.2))
    fb.setupNameTable(names or {'familyName': name, 'styleName': style, 'uniqueFontIdentifier': name + style, 'fullName': name + ' ' + style,
                                'psName': name + '-' + style, 'version': 'Version 1.0'})
    if os2:
        fb.setupOS2(sTypoAscender=int(upem * 0.8), sTypoDescender=-int(upem * 0.2), usWeightClass=weight, sCapHeight=int(upem * 0.7), fsType=0)
    fb.setupPost(keepGlyphNames=len(glyphs) < 30000, italicAngle=italic, isFixedPitch=fixed)
    b = io.BytesIO()
    fb.save(b)
    return b.getvalue()
