"""What a Python value means as a PDF object (the documented mapping)."""
from .pdfread import Name, Ref, Stream


def text(s):
    """bytes of a text string"""
    try:
        return s.encode('latin-1')
    except UnicodeEncodeError:
        return b'\xfe\xff' + s.encode('utf-16-be')


def matches(py, got):
    """Does the parsed PDF object `got` mean the Python value `py`?"""
    from pdfme.parser import PDFObject, PDFRef
    if isinstance(py, PDFObject):
        return matches(py.value, got)
    if isinstance(py, PDFRef):
        return isinstance(got, Ref) and got == Ref(int(py), 0)
    if isinstance(py, bool):
        return got is py
    if isinstance(py, int):
        return isinstance(got, int) and not isinstance(got, bool) and got == py
    if isinstance(py, float):
        return isinstance(got, (int, float)) and not isinstance(got, bool) and \
            abs(got - py) <= 1e-9 * max(1.0, abs(py))
    if isinstance(py, str):
        return type(got) is bytes and got == text(py)
    if isinstance(py, bytes):
        if py[:1] == b'/':
            return isinstance(got, Name) and str(got) == py[1:].decode('latin-1')
        raise ValueError(py)
    if isinstance(py, dict):
        return isinstance(got, dict) and set(py) == {str(k) for k in got} and \
            all(matches(v, got[k]) for k, v in py.items())
    if isinstance(py, (list, tuple)):
        return isinstance(got, list) and len(got) == len(py) and \
            all(matches(a, b) for a, b in zip(py, got))
    if isinstance(py, (set, frozenset)):
        return isinstance(got, list) and len(got) == len(py) and all(
            any(matches(a, b) for b in got) for a in py)
    raise ValueError(py)
