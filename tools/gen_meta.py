"""Writes properties.jsonl and MANIFEST.json from one table (run after edits)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, level_note, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
                           'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                           'observe_at': observe, 'hook_needed': hook},
                  level_note=level_note))


TESTS = ('The existing tests only build a handful of (partly random) documents and check that '
         'nothing raises: no produced file is ever read back. ')

prop('C01', 'Every output is a structurally valid PDF file',
     'After any sequence of operations, every output of a document is a well-formed PDF file: each cross-reference '
     'entry is the exact byte offset of its object, stream lengths and filters match the stream bytes, and the trailer, '
     'catalog and page tree lead to exactly the pages that were added, with the sizes and the text they were given. '
     'Output may be repeated, interleaved with further additions, or retried after the sink failed at any write, and '
     'the last successful output is always complete and shows the same pages.',
     ['histories', 'fault_sequences', 'inputs'],
     'all sequences of public operations up to a depth (outputs anywhere), all object counts and payloads at byte-count boundaries, sink failure at every write',
     TESTS + 'Offsets and lengths depend on every byte written before them and on repeated outputs, which tests never do.',
     ['pdfme/base.py', 'pdfme/parser.py', 'pdfme/encoders.py', 'pdfme/pdf.py', 'pdfme/page.py'],
     [('object table and cross-reference writing', 'pdfme/base.py: PDFBase.add, PDFBase.output'),
      ('stream serialisation restores the stream after writing', 'pdfme/parser.py: parse_stream'),
      ('page tree', 'pdfme/pdf.py: _build_pages_tree')],
     ['bytes written by PDF.output / PDFBase.output'],
     'Exhaustive within the bounds in the evidence; an independent strict reader (mc/pdfread.py) is the oracle.')

prop('C02', 'Values stored in a document are read back unchanged',
     'Every number, boolean, string, name, reference, list or dictionary (nested in any way) added to a document is read back '
     'from the output file as the same value under the documented mapping to PDF types. '
     'This includes every Latin-1 string used as a link target, label, reference or outline title.',
     ['inputs'], 'all values up to a size bound over alphabets that contain every PDF-special character and every Latin-1 byte',
     TESTS + 'Escaping errors only show for particular characters in particular contexts.',
     ['pdfme/parser.py', 'pdfme/base.py', 'pdfme/pdf.py'],
     [('serialisation of Python values', 'pdfme/parser.py: parse_obj, parse_dict, parse_list')],
     ['objects of the output file'],
     'Exhaustive within the bounds in the evidence, compared value by value through an independent parser.')

prop('C03', 'Paragraph text is conserved across any rectangles and pages',
     'When a paragraph is poured into any sequence of rectangles or pages, the words painted, read in order, are exactly the words of '
     'its content in order: none is lost, repeated, split or merged, whatever the nesting of its parts, its line breaks, variables, alignment or list marker. '
     'Consecutive spaces collapse into one, lines are painted top to bottom inside their rectangle, and a list marker is shown exactly once.',
     ['inputs', 'histories'], 'all token sequences, part nestings and rectangle sequences up to stated bounds; every printable Latin-1 character',
     TESTS + 'Losing text depends on where a rectangle ends relative to words, parts and breaks: combinations tests do not enumerate.',
     ['pdfme/text.py', 'pdfme/pdf.py'],
     [('word accumulation and line completion', 'pdfme/text.py: PDFTextLine.add_word, add_accumulated'),
      ('resuming after the last line that fitted', 'pdfme/text.py: PDFTextBase.run, add_current_line'),
      ('flattening of nested parts', 'pdfme/text.py: PDFText._recursive_content_parse'),
      ('new pages while unfinished', 'pdfme/pdf.py: PDF.text')],
     ['text shown by the page content streams'],
     'Exhaustive within the bounds in the evidence; text is read by interpreting the content streams.',
     state=[('resume position', 'part and word where the next rectangle starts', 'pdfme/text.py: last_part, last_word')])

prop('C04', 'Paragraph lines are broken, aligned and spaced as specified',
     'Lines are filled greedily with the words that fit the available width, the first line is indented, and every visible character is at the '
     'position given by left, right, centered or justified alignment inside the rectangle (all lines but the last of a justified paragraph end at the right edge). '
     'Baselines are separated by the line height factor times the tallest text of the line, each rectangle takes as many lines as fit its height, and the '
     'reported height is the one used; list paragraphs keep their indentation on every line, rectangle and after line breaks.',
     ['inputs', 'configurations'], 'all word-length sequences, alignments, indents, list markers, style mixes, line heights and rectangle heights up to stated bounds',
     TESTS + 'Geometry is never asserted by any test.',
     ['pdfme/text.py', 'pdfme/utils.py', 'pdfme/fonts.py'],
     [('line widths and justification factor', 'pdfme/text.py: PDFTextLine'),
      ('placing lines', 'pdfme/text.py: add_current_line, add_line_to_stream, setup_list')],
     ['text positions in the page content streams', 'height reported for each rectangle'],
     'Exhaustive within the bounds in the evidence against a reference layout (mc/parspec.py).')

prop('C05', 'Every piece of text is drawn with exactly its own style',
     'Each character is drawn with the font family, weight, slant, size, color and rise that result from cascading the styles of its enclosing parts, '
     'the named formats and the defaults, and each run is underlined and has a background exactly where its style says so, in the right color, position and width. '
     'No style leaks from one part, paragraph, element or page to another, and repeating or omitting a style change has no visible effect.',
     ['inputs', 'histories'], 'all sequences and nestings of style changes up to stated bounds, through style strings, style dicts, named formats, document, section and element styles',
     TESTS + 'Only style changes are emitted, so errors depend on which style preceded, a history property.',
     ['pdfme/text.py', 'pdfme/content.py', 'pdfme/utils.py', 'pdfme/pdf.py', 'pdfme/color.py'],
     [('incremental style output', 'pdfme/text.py: PDFState.compare, output_text, output_graphics'),
      ('style cascade', 'pdfme/text.py: _recursive_content_parse; pdfme/pdf.py: _init_text; pdfme/content.py: process_style')],
     ['graphics state of every painted run'],
     'Exhaustive within the bounds in the evidence against an independent cascade.')

prop('C06', 'Links, references, labels and tagged areas match their text',
     'Every run of text with a web address or reference is covered by clickable areas with that target that bound exactly that text on every line and page it '
     'spans, and nothing else on a page is clickable. Every label resolves, through the destination names, to the page and the position where its text starts, '
     'and the areas reported for user-defined ids are those of their text. Areas added directly to a page stay there as they were given.',
     ['inputs', 'histories'], 'all placements of link, reference, label and id parts in paragraphs, columns and tables over line, column and page breaks, up to stated bounds',
     TESTS + 'No test inspects an annotation or a destination.',
     ['pdfme/text.py', 'pdfme/pdf.py', 'pdfme/page.py', 'pdfme/content.py', 'pdfme/table.py'],
     [('rectangles of parts', 'pdfme/text.py: add_line_to_stream'), ('annotations and destinations', 'pdfme/pdf.py: _add_text'),
      ('annotation objects', 'pdfme/page.py: add_annot, add_link, add_reference')],
     ['annotations of each page', 'destination name tree'],
     'Exhaustive within the bounds in the evidence; areas are compared with the painted text they should cover.')

prop('C07', 'Table cells keep their content, position and spans across pages',
     'Every cell of a table is shown exactly once and in order, inside the horizontal band of the columns it spans and below the rows above it, whatever the column widths, spans, '
     'cell kinds and margins, and however many rectangles or pages the table needs. '
     'A row is as high as its tallest cell, and cell paddings are kept between the text and the cell limits.',
     ['inputs', 'configurations'], 'all tables up to a number of rows and columns with every arrangement of spans and cell kinds, over sequences of rectangle heights',
     TESTS + 'Spans combined with page splits are never checked.',
     ['pdfme/table.py', 'pdfme/pdf.py'],
     [('row processing, spans and delayed cells', 'pdfme/table.py: PDFTable.run, add_row, process_element and related methods'),
      ('resuming after a page', 'pdfme/table.py: get_state, set_state')],
     ['text and images painted by the page content streams'],
     'Exhaustive within the bounds in the evidence.')

prop('C08', 'Table borders and fills are exactly the ones configured',
     'The grid lines and fills painted for a table are exactly the ones selected by the table, border, fill and cell styles: each selected segment once, with its width, '
     'color and line style, at the limits of the rows and columns it names (positions, lists and slices counted as documented), and no line through a spanned cell; where lines meet, the corners are closed and nothing sticks out. '
     'What is seen in a cell is its own fill and not the one of an enclosing cell, and texts, images and borders are painted over the fills. '
     'When the table continues on another page its borders and fills continue there in the right place.',
     ['inputs', 'configurations'], 'all border and fill position rules (indices, lists, slices, negative) over tables up to a size, with spans and page splits',
     TESTS + 'No line or fill position is ever checked.',
     ['pdfme/table.py', 'pdfme/utils.py'],
     [('border and fill rules', 'pdfme/table.py: setup_borders, setup_fills, process_borders'), ('drawing', 'pdfme/utils.py: create_graphics')],
     ['lines and rectangles painted by the page content streams'],
     'Exhaustive within the bounds in the evidence against an independent evaluation of the position rules.')

prop('C09', 'Content boxes show every element exactly once and in order',
     'Every paragraph, image, group, table and nested content box of a content box is shown exactly once and in reading order (down each column, then the next column, then the next page), '
     'whatever the number of columns, nesting, elements, their heights and the space left on the page; images and groups that do not fit wait, in their order, while the text goes on.',
     ['inputs', 'histories'], 'all sequences of element kinds and sizes, nestings and column counts up to stated bounds, over several page heights',
     TESTS + 'Element loss or duplication arises from re-running columns after a failed fit, which depends on exact heights.',
     ['pdfme/content.py', 'pdfme/pdf.py', 'pdfme/document.py'],
     [('columns and resuming', 'pdfme/content.py: PDFContentPart'), ('page loop', 'pdfme/pdf.py: content; pdfme/document.py: _process_section')],
     ['text and images painted by the page content streams'],
     'Exhaustive within the bounds in the evidence.')

prop('C10', 'Content box elements stay inside their column and never overlap',
     'Elements are placed inside their column (columns have equal widths and the configured gap), below the previous element by the configured margins, and no element paints over another or outside the page margins. '
     'Columns of an element-wise balanced box start at the same height, and what follows a multi-column box starts below its tallest column.',
     ['inputs', 'configurations'], 'all combinations of element kinds, margins, columns and nesting up to stated bounds',
     TESTS + 'Geometry is never asserted by any test.',
     ['pdfme/content.py'],
     [('column geometry and margins', 'pdfme/content.py: PDFContentPart.run, update_dimensions, next_section')],
     ['positions of text, images and graphics in the page content streams'],
     'Exhaustive within the bounds in the evidence.')

prop('C11', 'Groups are never split and shrinkable images shrink only as needed',
     'The elements of a group always appear together in the same column, and in a group with shrinkable images these are reduced proportionally, never below the configured minimum and only when needed to keep the group together. '
     'Groups keep all of their elements exactly once.',
     ['inputs', 'configurations'], 'all groups of up to a few elements of several heights at every fill level of the column, with shrink limits',
     TESTS + 'The interesting cases are exact fill levels of a page.',
     ['pdfme/content.py'],
     [('groups', 'pdfme/content.py: group handling in PDFContentPart')],
     ['text and images painted by the page content streams'],
     'Exhaustive within the bounds in the evidence.')

prop('C12', 'Sections and pages have exactly the layout they were given',
     'Each section of a document starts on a new page, and each page has the size, rotation and margins of its section or of the per-page rules that select it, and shows exactly the running sections it must show, once, at their configured place. '
     'A setting of one section or page range never affects other pages.',
     ['configurations', 'histories'], 'all combinations of document, section and per-page layout settings over sequences of sections up to stated bounds',
     TESTS + 'Leaks between sections or pages need particular sequences of settings.',
     ['pdfme/document.py', 'pdfme/pdf.py', 'pdfme/utils.py'],
     [('page setup per section and page', 'pdfme/document.py: _process_section, _set_running_sections'), ('page creation', 'pdfme/pdf.py: setup_page, add_page')],
     ['page sizes, text positions and running sections of each page'],
     'Exhaustive within the bounds in the evidence.')

prop('C13', 'Page numbers and variables show the right value on every page',
     'The page number shown on a page is its position in the document plus the numbering offset in force, restarted where a section says so, in arabic or roman numerals, and a variable shows the value of its context entry, also when text is split over pages or columns. ',
     ['inputs', 'histories'], 'all sequences of sections with numbering settings and page counts up to stated bounds; all roman numerals 1..3999',
     TESTS + 'Numbering depends on the history of pages and sections.',
     ['pdfme/pdf.py', 'pdfme/document.py', 'pdfme/utils.py', 'pdfme/text.py'],
     [('page number', 'pdfme/pdf.py: get_page_number, page_index; pdfme/utils.py: to_roman'), ('variables', 'pdfme/text.py: add_part')],
     ['text of running sections and contents'],
     'Exhaustive within the bounds in the evidence.')

prop('C14', 'Footnotes are shown once, on the page of their mark, in order',
     'Each footnote text (also the one of a mark in another footnote) is shown exactly once, at the bottom of the page where its mark is, numbered from 1 on each page in the order of the marks, and the marks show these numbers. '
     'Footnotes fill the width between the margins of their own page and stand on its bottom margin, never overlap the contents or leave the page, and no content is lost or repeated by making room for them; a page takes only as many lines as fit together with their footnotes, however many they are.',
     ['inputs', 'histories'], 'all placements of footnote marks over paragraphs, tables, columns and pages up to stated bounds, with footnotes of several lengths',
     TESTS + 'Footnotes trigger a second layout of the page whose effect depends on what fits.',
     ['pdfme/document.py', 'pdfme/content.py', 'pdfme/text.py', 'pdfme/table.py'],
     [('two-pass page layout', 'pdfme/document.py: _add_content, _process_footnotes'), ('restoring the section state', 'pdfme/content.py: get_state, set_state')],
     ['text painted on each page'],
     'Exhaustive within the bounds in the evidence.')

prop('C15', 'Navigation structures lead to the right place for any size',
     'The page tree, the destination name tree and the outline tree are well formed for any number of entries: every page, label and outline is reachable exactly once, in order, with correct counts, limits, links between siblings and parents. '
     'Every outline has its title, its nesting level and a destination that is the place of its text, and the initially open levels are the configured ones.',
     ['inputs', 'histories'], 'all label counts up to several hundred, all outline level sequences up to a length, all page counts up to a bound, repeated outputs',
     TESTS + 'Trees with several levels need more entries than the tests create.',
     ['pdfme/pdf.py'],
     [('page tree', 'pdfme/pdf.py: _build_pages_tree'), ('destination names', 'pdfme/pdf.py: _build_dests_tree'), ('outlines', 'pdfme/pdf.py: _build_outlines_tree, _add_text')],
     ['page, name and outline trees of the output file'],
     'Exhaustive within the bounds in the evidence.')

prop('C16', 'Pages declare every resource they use, and nothing dangles',
     'Every font and image used by a page content stream is declared in the resources of that page and refers to the right object, every object reference in the file resolves, and every annotation and outline target exists when its label was defined. '
     'Each font and each named image is stored only once per document.',
     ['inputs', 'histories'], 'all sequences of elements using fonts, images, links and labels over pages, columns, tables, running sections and footnotes up to stated bounds',
     TESTS + 'A missing resource only shows in a viewer, on particular page breaks.',
     ['pdfme/pdf.py', 'pdfme/page.py', 'pdfme/text.py', 'pdfme/fonts.py', 'pdfme/image.py'],
     [('fonts used by a paragraph', 'pdfme/text.py: used_fonts; pdfme/pdf.py: _used_font, _add_or_get_font'), ('images', 'pdfme/pdf.py: add_image; pdfme/page.py: add_image')],
     ['resources and content streams of every page'],
     'Exhaustive within the bounds in the evidence.')

prop('C17', 'Documents built in the same process are independent',
     'The document obtained from a description depends only on that description: building other documents before, in between or concurrently in other threads, or building from the same description again, gives the same pages, and so does building it in another interpreter, whatever its hash seed. '
     'Formats, fonts, images and page settings of one document never affect another one.',
     ['schedules', 'histories'], 'all interleavings of the operations of two documents up to a depth, all thread schedules up to a preemption bound, all orders of building several descriptions repeatedly',
     TESTS + 'Tests build one document per process or never compare documents.',
     ['pdfme/document.py', 'pdfme/pdf.py', 'pdfme/fonts.py', 'pdfme/content.py', 'pdfme/text.py', 'pdfme/table.py'],
     [('per-document state', 'pdfme/pdf.py: PDF.__init__'), ('registered fonts', 'pdfme/fonts.py: PDFFont.register, PDFFonts.get_font'), ('copies of the input', 'pdfme/utils.py: copy')],
     ['output of each document'],
     'Exhaustive within the bounds in the evidence; threads are run under a controlled scheduler.')

prop('C18', 'A layout can be checkpointed and resumed without any difference',
     'Restoring a saved state of a paragraph, table or content box and running it again gives exactly what running it the first time from that point gives, in the same or in different rectangles, any number of times. '
     'A rectangle where nothing fits shows nothing and changes nothing: what follows is laid out as if it had not been there.',
     ['histories'], 'all sequences of run, save and restore operations up to a depth over paragraphs, tables and content boxes with several structures',
     TESTS + 'State restoration is only reached by footnotes and columns in a few documents.',
     ['pdfme/text.py', 'pdfme/table.py', 'pdfme/content.py'],
     [('checkpoints', 'pdfme/text.py, pdfme/table.py, pdfme/content.py: get_state, set_state')],
     ['results of each run'],
     'Exhaustive within the bounds in the evidence: every run is compared with an uninterrupted execution.')

prop('C19', 'Images are embedded intact, once, with the right size and shape',
     'A JPEG image is accepted exactly when it is well formed up to its frame header and is embedded byte for byte with its true dimensions, depth and color space; a truncated or foreign file is rejected with an error. '
     'Images are drawn with the requested size or keeping their proportions, at the requested place, and an image used many times is stored once.',
     ['inputs', 'fault_sequences'], 'all JPEG headers built from segment sequences up to a length, truncation of a file at every byte, all size requests and image kinds',
     TESTS + 'Tests use two valid image files.',
     ['pdfme/image.py', 'pdfme/pdf.py', 'pdfme/page.py', 'pdfme/content.py', 'pdfme/table.py'],
     [('JPEG header', 'pdfme/image.py: parse_jpg'), ('drawing', 'pdfme/pdf.py: add_image')],
     ['image objects and painted images of the output'],
     'Exhaustive within the bounds in the evidence.')

prop('C20', 'Every notation for colors, margins, sizes, ranges and styles is honored',
     'All documented notations of colors, margins, page sizes, style strings, page ranges and roman numerals denote the documented values, equivalent notations give identical documents, and malformed ones are rejected.',
     ['inputs'], 'all inputs of each notation up to a length over its alphabet, all 1..3999 numerals, all 16-bit-class hexadecimal colors',
     TESTS + 'Only a few fixed notations are used by the tests.',
     ['pdfme/color.py', 'pdfme/utils.py', 'pdfme/document.py'],
     [('colors', 'pdfme/color.py: parse_color'), ('margins, sizes, ranges, styles, numerals', 'pdfme/utils.py')],
     ['values returned and documents produced'],
     'Exhaustive within the bounds in the evidence against independent evaluators.')

prop('C21', 'Text in TrueType fonts is drawn, measured and extracted correctly',
     'Text drawn in a registered TrueType font uses the glyph of each character, can be extracted as the original text, and has in the file the widths used to lay it out, whatever the order of glyphs in the font. '
     'The embedded font file is the original font, and registered fonts can be used in any number of documents, weights and slants.',
     ['inputs', 'configurations', 'histories'], 'synthetic fonts with every assignment of characters to glyphs up to a size, every character of two real fonts, all sequences of documents and modes up to a bound',
     TESTS + 'No test reads back text drawn with a custom font.',
     ['pdfme/fonts.py', 'pdfme/text.py', 'pdfme/utils.py'],
     [('encoding and widths', 'pdfme/fonts.py: PDFTrueTypeFont'), ('registration', 'pdfme/fonts.py: PDFFont.register, PDFFonts.get_font')],
     ['content streams, font dictionaries and ToUnicode maps'],
     'Exhaustive within the bounds in the evidence.')

prop('C22', 'Building always terminates and adds only the pages that are needed',
     'Building any document whose indivisible elements fit an empty page terminates, adds no page without contents, and never starts a new page or column while the next element still fits the current one.',
     ['inputs', 'configurations'], 'all sequences of elements and page heights up to stated bounds, with footnotes, groups, tables, columns and running sections',
     TESTS + 'Non termination and spurious pages depend on exact fits.',
     ['pdfme/document.py', 'pdfme/pdf.py', 'pdfme/content.py', 'pdfme/table.py', 'pdfme/text.py'],
     [('page loops', 'pdfme/pdf.py: text, table, content; pdfme/document.py: _process_section')],
     ['pages of the output'],
     'Exhaustive within the bounds in the evidence; every execution runs under a CPU-time guard.')

prop('C23', 'Elements added with the methods of PDF use its defaults and its position',
     'Elements added one after another with the methods of PDF (text, table, content, image) are placed at the current position of the current page (or where the arguments say), use the font, size, color, alignment, line height and indent of the PDF at that moment unless they say otherwise, and go on in new pages, with the size and margins that apply then, when they do not fit; they leave the position right below them (images: or at their right). Running sections and outputs do not move it, and every page keeps its own position and size when another one is made current.',
     ['inputs', 'histories'], 'all sequences of operations on a PDF up to a stated length; all pairs of defaults, given or set later, with all pairs of arguments of an element',
     TESTS + 'A position or default lost between two operations only shows in the particular sequences that use it.',
     ['pdfme/pdf.py', 'pdfme/page.py'],
     [('defaults and positions', 'pdfme/pdf.py: setup_page, add_page, _default_paragraph_style, _position_and_size, _add_text, _add_graphics, text, table, content, image')],
     ['PDF.page.x, PDF.page.y', 'characters and images of the pages'],
     'Exhaustive within the bounds in the evidence.')

prop('C24', 'What is not allowed is refused with an error and leaves nothing behind',
     'A description with a part of a kind that is not allowed, at any place and depth (an element without a known key, a wrong paragraph part, style, format, font or color, '
     'a row with more or fewer cells than the others, wrong widths, a cell or group member that cannot be there, a missing or unknown image, wrong columns, footnotes, '
     'running sections, margins, page sizes or page ranges), or that fits no page, is refused with an exception: building always ends, nothing is written, the description stays as it was, and other documents '
     'are not affected. When a method of PDF refuses an addition before any page is completed, what the PDF had stays, and what is added later, and every output, are as if the refused call had never been made.',
     ['inputs', 'histories', 'fault_sequences'], 'every wrong part of a catalogue at every place, nesting and position among siblings up to stated bounds; all sequences of calls up to a stated length with refused calls in them',
     TESTS + 'No test builds a wrong description, let alone looks at what it leaves.',
     ['pdfme/document.py', 'pdfme/content.py', 'pdfme/table.py', 'pdfme/text.py', 'pdfme/image.py', 'pdfme/pdf.py', 'pdfme/utils.py'],
     [('checks of the parts of documents', 'pdfme/content.py: parse_element, process, process_group_element; pdfme/table.py: __init__, add_row, add_cell; pdfme/text.py: _recursive_content_parse, run'),
      ('what is changed before a part is accepted', 'pdfme/pdf.py: add_page, _text, _table, _content, image, _add_parts')],
     ['exceptions of build_pdf and of the methods of PDF', 'the buffer given to build_pdf', 'the pages of the documents built later'],
     'Exhaustive within the bounds in the evidence.')


def main():
    sys.path.insert(0, ROOT)
    have = {f.split('_')[0].upper() for f in os.listdir(os.path.join(ROOT, 'checks'))
            if f[:1] == 'c' and f[1:3].isdigit() and f.endswith('.py')}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = {k: v for k, v in p.items() if k != 'level_note'}
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    m = {'version': 1, 'setup_cmd': './run.sh --self-test',
         'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks drive the public interface of the unmodified code', 'source_commits': []},
         'checks': [], 'not_applicable': [],
         'notes': 'Every check explores executions of the real code of /repo exhaustively within bounds (see DESIGN.md).'}
    for p in P:
        if p['id'] in have:
            m['checks'].append({
                'property': p['id'], 'quick_cmd': './run.sh %s --tier quick' % p['id'],
                'thorough_cmd': './run.sh %s --tier thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': 'explicit-state model checking of the real code: bounded exhaustive enumeration of executions, each compared with a reference model',
                'level': 'model_checking', 'level_note': p['level_note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': 'check not built yet'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
