"""Descriptions of documents that use every feature, each from a function that
makes a new one."""
import io
import os

from .util import jpeg, PDF

FONT_DIR = None


def pic(n=1, h=25):
    return {'image': io.BytesIO(jpeg(100 + n, h)), 'image_name': 'pic', 'extension': 'jpg'}


def st(**k):
    return dict({'page_size': (240, 150), 'margin': 20, 's': 9}, **k)


def d_text():
    return {'style': st(), 'sections': [{'content': ['one two three', {'.b;c:red': ['bold ', {'.i;bg:0.9': 'italic'}]}, 'word ' * 80]}]}


def d_foot():
    return {'style': st(), 'sections': [{'content': [{'.': ['a', {'footnote': 'first note'}, ' b', {'footnote': {'.i': ['second ', 'note']}}]},
                                                     {'.': ['fill ' * 90, {'footnote': ['third']}]}]}]}


def d_foot2():
    return {'style': st(), 'formats': {'$footnote': {'r': 0.3, 's': 5, 'c': 'blue'}, 'note': {'c': 'red'}},
            'sections': [{'content': [{'.': ['x', {'footnote': {'.': 'styled', 'style': 'note'}}]}]},
                         {'content': [{'.': ['y', {'footnote': {'.': 'other', 'style': {'text_align': 'r'}}}]}]}]}


def d_nav():
    return {'style': st(outlines_level=2), 'sections': [{'content': [
        {'.': 'A', 'outline': {}, 'label': 'a'}, {'.': 'B', 'outline': {'level': 2, 'text': 'Bee'}}, {'.': ['go ', {'.': 'there', 'ref': 'a', 'ids': ['i']}]},
        {'.': 'w ' * 200, 'uri': 'http://u', 'label': 'long'}, {'.': 'C', 'outline': {'level': 1}}]}]}


def d_run():
    return {'style': st(page_numbering_style='roman', page_numbering_offset=3),
            'running_sections': {'h': {'x': 'left', 'y': 18, 'height': 15, 'style': {'text_align': 'r'}, 'content': [{'.b': ['P ', {'var': '$page'}]}]},
                                 'f': {'x': 'left', 'y': 'bottom', 'height': 15, 'content': [{'.': ['T ', {'var': 'title'}]}]}},
            'per_page': [{'pages': '1:9:2', 'style': {'margin': [30, 20]}, 'running_sections': {'exclude': ['h']}}],
            'sections': [{'running_sections': ['h', 'f'], 'content': ['r ' * 200]}, {'style': {'page_numbering_reset': True}, 'running_sections': ['h'], 'content': ['s ' * 100]}]}


def d_formats():
    return {'style': st(c='green'), 'formats': {'title': {'b': 1, 's': 14, 'c': 'red'}, 'cell': {'cell_fill': 0.8}},
            'sections': [{'content': [{'.': 'Title', 'style': 'title'}, {'table': [['a', {'.': 'b', 'style': 'cell'}]], 'style': 'cell'}, 'text']}]}


def d_formats2():
    return {'style': st(c='blue'), 'formats': {'title': {'i': 1, 's': 7}, 'cell': {'cell_margin': 9, 'border_width': 0}},
            'sections': [{'content': [{'.': 'Title', 'style': 'title'}, {'table': [['a', {'.': 'b', 'style': 'cell'}]]}, {'.': 'text'}]}]}


def d_table():
    return {'style': st(), 'sections': [{'content': [{
        'widths': [1, 2, 1], 'style': {'cell_margin': 3, 'border_width': 1, 'border_color': 'red'},
        'fills': [{'pos': '0;:', 'color': 0.9}], 'borders': [{'pos': 'v1;:', 'width': 2, 'color': 'blue', 'style': 'dashed'}],
        'table': [['a', {'colspan': 2, '.': 'b', 'style': {'cell_fill': 'yellow'}}, None]] + [[str(i), {'rowspan': 2, '.': 'r' * i}, 'c'] if i % 2 else [str(i), None, 'd'] for i in range(1, 9)]}]}]}


def d_image():
    return {'style': st(), 'sections': [{'content': [pic(1), 'after', pic(1), {'table': [[pic(1), 'x']]}, {'group': [pic(1), 'caption']}]}]}


def d_image2():
    return {'style': st(), 'sections': [{'content': ['before', pic(2, 30), pic(2, 30)]}]}


def d_cols():
    return {'style': st(text_align='j'), 'sections': [{'cols': {'count': 2, 'gap': 12}, 'content': ['alpha ' * 60, {'.': 'beta', 'style': {'margin_top': 9}}, pic(3, 90), {'content': ['in', 'side'], 'cols': {'count': 2}}, 'gamma ' * 60]}]}


def d_list():
    return {'style': st(line_height=1.4, indent=10), 'sections': [{'content': [{'.': 'item ' * 20, 'style': {'list_text': '* ', 'list_style': {'c': 'red', 'b': 1}, 'list_indent': 15}},
                                                                               {'.': 'second', 'style': {'list_text': '2) ', 'f': 'Times'}}]}]}


def d_sizes():
    return {'style': {'page_size': 'a5', 'rotate_page': True, 'margin': {'top': 50, 'left': 30, 'right': 30, 'bottom': 500 - 180}}, 'sections': [
        {'content': ['x ' * 900]}, {'style': {'page_size': (200, 200), 'rotate_page': False, 'margin': 10}, 'content': ['y ' * 100]}, {'content': ['z']}]}


def d_plain():
    return {'sections': [{'content': ['plain']}]}


def d_var():
    return {'style': st(), 'sections': [{'content': [{'.': ['v:', {'var': 'title'}, {'var': 'n', 'style': {'b': 1}}]}]}]}


def d_font():
    return {'style': st(f='Synth'), 'sections': [{'content': ['abc cab ', {'.b': 'bac'}, {'.f:Times': 'abc'}]}]}


def d_font2():
    return {'style': st(), 'sections': [{'content': ['abc', {'.f:Synth': 'cab'}, {'.f:Other': 'aa'}]}]}


def d_shared():
    cell = {'.': 'same', 'style': {'b': 1}}
    foot = {'footnote': 'shared note'}
    par = {'.': ['p', foot]}
    box = {'content': [par, {'table': [[cell, cell]]}], 'style': {'margin_left': 5}}
    sec = {'content': [par, box, box]}
    return {'style': st(page_size=(240, 230)), 'sections': [sec, sec, {'content': [par, {'.': ['q', foot, foot]}]}]}


def d_tuple():
    return {'style': st(), 'sections': ({'content': ('a', {'.': ('b', {'.b': ('c', 'd')}, {'footnote': ('n', {'.i': 'm'})})}, {'table': (('e', 'f'), ('g', {'.': 'h'}))})},)}


def d_deep():
    p = {'.': ['leaf', {'footnote': 'leaf note'}]}
    for i in range(4):
        p = {'content': [p, 'x%d' % i], 'style': {'margin_left': 4}} if i % 2 else {'table': [[p, 'y']]}
    return {'style': st(), 'sections': [{'content': [p, {'group': [{'.': 'g'}, pic(1)]}]}]}


ALL = {k[2:]: v for k, v in list(globals().items()) if k.startswith('d_')}
CONTEXT = {'title': 'Title', 'n': 5}
