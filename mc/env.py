"""Import pdfme from /repo's working tree, with a deterministic environment."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
import pdfme  # noqa
if not os.path.abspath(pdfme.__file__).startswith(REPO + os.sep):
    raise SystemExit('pdfme was imported from %s, not from %s' % (pdfme.__file__, REPO))
from pdfme.pdf import PDF  # noqa
from pdfme.document import build_pdf  # noqa
from pdfme.text import PDFText  # noqa
from pdfme.table import PDFTable  # noqa
from pdfme.content import PDFContent  # noqa
