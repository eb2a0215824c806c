"""
Preformatted text is reproduced to the letter.
"""
import re

import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C11'
RULE = (
    'Random lines of code (blank lines, indentation, tabs, markup, very long lines, form feeds and Unicode separators, any line endings) in pre elements '
    'with and without code elements and spans in them, in quotes and boxes, among other blocks, with '
    'random indentation and templates; every line has to be there exactly, with only the prefixes it '
    'should have. Also lines before and after other blocks in a pre element. Non-trivial: at least 2 lines, one with leading or repeated white space.'
)

LINES = gen.CODE_LINES + ['a', '   ', '  two  spaces  ', '\t\t', '#!/bin/sh', '"quoted"  &amp;', '> > x', '1. x', 'é  ü', 'x\\']


@cached
@st.composite
def code_line(draw):
    if draw(ints(0, 2)):
        return draw(choice(LINES))
    return draw(gettext())


@cached
def gettext():
    return st.text(alphabet='ab {}()<>&"\'\t.*#_-=é\u00a0\u2028\x0b\x0c\x85', max_size=40)


@cached
@st.composite
def pre(draw):
    """
    A pre element, and the lines it stands for.
    """
    lines = draw(st.lists(code_line(), min_size=1, max_size=7))
    how = draw(choice(['pre', 'code', 'spans', 'code spans', 'nested', 'breaks']))
    newline = draw(choice(['\n', '\n', '\n', '\r\n', '\r']))
    if not lines[0] and not how.startswith('code'):
        # A line break right at the start of a pre element may be left out.
        lines[0] = ' '
    text = newline.join(lines) + draw(choice(['', newline]) if lines[-1] else st.just(newline))
    content = [text]
    if how.endswith('spans'):
        # As a syntax highlighter would do it.
        content = []
        at = 0
        while at < len(text):
            to = min(len(text), at + draw(ints(1, 25)))
            piece = text[at:to]
            content.append([draw(choice(['span', 'span', 'code', 'x', 'kbd', 'label'])), {}, [piece]] if draw(BOOL) else piece)
            at = to
        content = gen.merge(content)
    if how == 'breaks':
        content = []
        for n, line in enumerate(lines):
            if n:
                content.append(draw(choice([['br', {}, []], '\n'])))
            if line:
                content.append(line)
        content = gen.merge(content)
        if not lines[-1]:
            content.append(['br', {}, []])
    if how.startswith('code'):
        content = [['code', {}, content]]
    if how == 'nested':
        for tag in draw(st.lists(choice(['span', 'code', 'x', 'kbd']), min_size=1, max_size=3)):
            content = [[tag, {}, content]]
    return ['pre', {}, content], lines


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=ints(1, 80)))
    cfg['optimise'] = draw(BOOL)
    settings = {}
    if draw(BOOL):
        settings['indent'] = draw(ints(0, 6))
    if draw(ints(0, 2)) == 0:
        settings['line_template'] = draw(choice(['| {}', '{} ', '>>> {}', '{}']))
    if draw(ints(0, 2)) == 0:
        settings['margin'] = [draw(ints(1, 2)), draw(ints(0, 3)), draw(ints(1, 2)), draw(ints(0, 3))]
    cfg['renderers'] = {'.c': {'settings': settings}}
    sequence = []
    for i in range(draw(ints(1, 3))):
        if draw(ints(0, 2)) == 0:
            sequence.append(['p', draw(gen.phrase(max_words=3, long_words=False, extra=False, pool=['ab', 'c', 'd']))])
        element, lines = draw(pre())
        wrapper = draw(choice(['', '', 'blockquote', 'div', 'section', 'blockquote blockquote']))
        sequence.append(['pre', element, lines, wrapper, draw(BOOL)])
    return {'cfg': cfg, 'sequence': sequence}


def check(case):
    cfg = case['cfg']
    settings = dict({'indent': 4, 'line_template': '{}', 'margin': [1, 0, 1, 0]}, **cfg['renderers']['.c']['settings'])
    page = cfg.get('page_margin', [0, 0, 0, 0])
    nodes = []
    expected = []
    for item in case['sequence']:
        if item[0] == 'p':
            nodes.append(['p', {}, [item[1]]])
            continue
        kind, element, lines, wrapper, styled = item
        element = [element[0], {'class': 'c'} if styled else {}, element[2]]
        s = settings if styled else {'indent': 4, 'line_template': '{}', 'margin': [1, 0, 1, 0]}
        for w in reversed(wrapper.split()):
            element = [w, {}, [element]]
        nodes.append(element)
        prefix = ' ' * page[3] + '> ' * wrapper.split().count('blockquote')
        expected.append([
            prefix + ' ' * s['margin'][3] + ' ' * s['indent'] + s['line_template'].format(l) for l in lines
        ])
    out = [l.rstrip() for l in dom.render(dom.to_html(nodes), **cfg).split('\n')]
    at = 0
    for lines in expected:
        lines = [l.rstrip() for l in lines]
        # The lines have to be there together, in order, after what came before.
        for start in range(at, len(out)):
            if out[start:start + len(lines)] == lines:
                break
        else:
            raise core.Violation('the lines {!r} are not in {!r}'.format(lines, out[at:]))
        at = start + len(lines)
    flat = [l for i in case['sequence'] if i[0] == 'pre' for l in i[2]]
    odd = [l for l in flat if re.search(r'^\s|\s\s|\t', l)]
    return len(flat) >= 2 and bool(odd), ['in ' + i[3] for i in case['sequence'] if i[0] == 'pre']


# Exactly, together with everything around it.

@cached
@st.composite
def exact_cases(draw):
    cfg = draw(gen.page(widths=ints(20, 80)))
    cfg['renderers'] = {'.c0': {'settings': draw(gen.box())}}
    s = cfg['renderers']['.c0']['settings']
    if draw(BOOL):
        s['indent'] = draw(ints(0, 6))
    nodes = []
    for i in range(draw(ints(1, 4))):
        k = draw(ints(0, 2))
        if k < 2:
            element, lines = draw(pre())
            if draw(BOOL):
                element[1]['class'] = 'c0'
            for j in range(draw(ints(0, 2))):
                element = [draw(choice(['blockquote', 'div'])), {}, [element]]
            nodes.append(element)
        else:
            nodes.append(draw(gen.paragraph()))
    return {'cfg': cfg, 'nodes': nodes}


def check_exact(case):
    common.check_model(case)
    return 'pre' in dom.tags(case['nodes']), common.labels_of(case)


# Other blocks in a pre element: the text after them is still preformatted.

@cached
@st.composite
def inner_cases(draw):
    parts = []
    for i in range(draw(ints(1, 3))):
        parts.append([draw(st.lists(code_line(), min_size=1, max_size=4)), draw(choice(['pre', 'pre', 'div', 'section', 'blockquote', 'p', 'code', 'br']))])
    return {'parts': parts, 'last': draw(st.lists(code_line(), min_size=1, max_size=4)), 'depth': draw(ints(1, 3)), 'width': draw(ints(1, 80))}


def check_inner(case):
    content = []
    for lines, tag in case['parts']:
        element = [tag, {}, [] if tag == 'br' else ['inner']]
        if tag == 'pre':
            for i in range(case['depth'] - 1):
                element = ['pre', {}, [element]]
        content += ['first\n' + '\n'.join(lines) + '\n', element, '\n']
    content.append('last\n' + '\n'.join(case['last']) + '\n')
    out = [l.rstrip() for l in dom.render(dom.to_html([['pre', {}, content]]), width=case['width']).split('\n')]
    at = 0
    for lines in [['first'] + l for l, t in case['parts']] + [['last'] + case['last']]:
        lines = [(' ' * 4 + l).rstrip() for l in lines]
        for start in range(at, len(out)):
            if out[start:start + len(lines)] == lines:
                break
        else:
            raise core.Violation('the lines {!r} are not in {!r}'.format(lines, out[at:]))
        at = start + len(lines)
    flat = [l for lines, t in case['parts'] for l in lines] + case['last']
    return any(re.search(r'^\s|\s\s|\t', l) for l in case['last']), ['inside: ' + t for l, t in case['parts']]


FACETS = [
    core.Facet('inner blocks', inner_cases, check_inner, quick=1500),
    core.Facet('lines', cases, check, quick=4000),
    core.Facet('model', exact_cases, check_exact, quick=2000),
]
