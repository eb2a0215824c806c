"""
The markers and numbers of list items, and their indentation.
"""
import re

import core
import common
import dom
import gen
import model
from gen import st, cached, ints, choice, BOOL

ID = 'C15'
RULE = (
    'Ordered, unordered and definition lists of up to 30 items with white space and comments in '
    'between, with random start, step and markers, in quotes and boxes and up to 4 levels inside of each '
    'other; item n has the n-th number and every further line of an item is indented by the width of '
    'its own marker. Also lists of up to 140 items with anything in between, of which only the numbers and their order '
    'are checked. Non-trivial: at least 3 items, or numbers of different widths.'
)
ASSUMPTIONS = [
    'items hold inline content, or short text followed by one nested list of such items',
]


@cached
@st.composite
def items(draw):
    """
    The children of a list: items, with layout in between.
    """
    n = draw(choice([1, 2, 3, 5, 9, 10, 11, 12, 25, 30]))
    texts = draw(st.lists(st.one_of(
        gen.phrase(max_words=2, long_words=False), gen.phrase(max_words=14)), min_size=1, max_size=5))
    layout = draw(choice(['', '\n', '\n  ', ' ', '\n\t']))
    comment = draw(BOOL)
    # Those with a line break in them.
    broken = draw(st.lists(ints(0, 12), max_size=3))
    out = []
    for i in range(n):
        out.append(layout)
        content = [texts[i % len(texts)]]
        if i in broken:
            content += [['br', {}, []], texts[(i + 1) % len(texts)]]
        out.append(['li', {}, content])
        if comment and i % 3 == 0:
            out.append(['!--', {}, ['c']])
    out.append(layout)
    return [o for o in out if o != '']


@cached
@st.composite
def cases(draw):
    width = draw(ints(20, 70))
    cfg = {'width': width}
    settings = {}
    kind = draw(choice(['ul', 'ol', 'ol', 'ol']))
    marker = '* '
    if kind == 'ol':
        if draw(BOOL):
            settings['start_index'] = draw(choice([0, 1, 2, 5, 8, 9, 10, 95, 98, 100, -3, 999]))
        if draw(BOOL):
            settings['step'] = draw(choice([1, 2, 5, 10, -1, 0]))
        if draw(BOOL):
            settings['line_template'] = draw(choice(['{0}) {1}', '({0}) {1}', '{0}: {1}', '{0}{1}', 'number {0}: {1}', '{0}/{0}/{0} {1}']))
    elif draw(BOOL):
        settings['line_template'] = draw(choice(['- {}', '+ {}', '  o {}', '=> {}', '{}', '==========> {}', 'another one: {}']))
    for k in ('initial_indent', 'subsequent_indent'):
        if draw(ints(0, 4)) == 0:
            settings[k] = draw(ints(0, 3))
    how = draw(choice(['tag', 'class']))
    return {
        'cfg': cfg, 'kind': kind, 'settings': settings, 'items': draw(items()),
        'how': how, 'wrapper': draw(choice(['', '', 'blockquote', 'div'])),
        'before': draw(ints(0, 2)),
    }


def check(case):
    kind, settings = case['kind'], case['settings']
    children = case['items']
    if case['how'] == 'class':
        children = [
            c if isinstance(c, str) or c[0] != 'li' else ['li', {'class': 'c'}, c[2]] for c in children
        ]
        selector = '.c'
    else:
        selector = kind + ' > li.c, ' + kind + ' > li'
    nodes = [[kind, {}, children]]
    if case['wrapper']:
        nodes = [[case['wrapper'], {}, nodes]]
    # Another list before this one does not affect its numbers.
    for i in range(case['before']):
        nodes.insert(0, ['ol', {'class': 'other'}, [['li', {'class': 'other'}, ['x']]] * (i + 2)])
    out = dom.render(
        dom.to_html(nodes),
        renderers={selector: {'settings': settings}} if case['before'] == 0 or case['how'] == 'class' else {},
        **case['cfg'])
    if case['before'] and case['how'] != 'class':
        settings = {}
    prefix = '> ' if case['wrapper'] == 'blockquote' else ''
    width = case['cfg']['width'] - len(prefix)
    expected = []
    numbers = []
    n = 0
    for c in children:
        if isinstance(c, str) or c[0] != 'li':
            continue
        if kind == 'ol':
            number = settings.get('start_index', 1) + n * settings.get('step', 1)
            numbers.append(number)
            marker = settings.get('line_template', '{0}. {1}').format(number, '')
        else:
            marker = settings.get('line_template', '* {}').format('')
        n += 1
        lines = []
        for text in c[2][::2]:
            lines += model.wrap(
                text, max(1, width - len(marker)), fix_sentence_endings=True,
                initial_indent=' ' * settings.get('initial_indent', 0),
                subsequent_indent=' ' * settings.get('subsequent_indent', 0),
            )
        for i, l in enumerate(lines):
            expected.append((prefix + (marker if i == 0 else ' ' * len(marker)) + l).rstrip())
    lines = out.split('\n')
    # The lines of this list are the last ones.
    while lines and lines[-1].strip() in ('', '>'):
        lines.pop()
    actual = [l.rstrip() for l in lines[len(lines) - len(expected):]]
    core.expect_equal(actual, expected, 'the lines of the list')
    above = lines[:len(lines) - len(expected)]
    core.expect(not above or above[-1].strip() in ('', '>'), 'there is more than the list: {!r}', above[-3:])
    count = sum(1 for l in above if l.strip() not in ('', '>'))
    core.expect(count == sum(i + 2 for i in range(case['before'])), 'other lines: {!r}', above)
    widths = len(set(len(str(x)) for x in numbers))
    return n >= 3 or widths > 1, [kind, 'items %d' % n, 'number widths %d' % widths, case['how']]


@cached
@st.composite
def model_cases(draw):
    cfg = draw(gen.page(widths=ints(25, 80)))
    renderers = {}
    for c in ('c0', 'c1', 'c2'):
        s = {}
        if draw(BOOL):
            s.update(draw(gen.box()))
        renderers['.' + c] = {'settings': s}
    cfg['renderers'] = renderers
    ia = dict(br=True, max_words=8, links=gen.link(), images=gen.image())
    kinds = ['ul', 'ol', 'dl', 'ul', 'ol', 'dl', 'p', 'blockquote', 'div']
    return {'cfg': cfg, 'nodes': draw(gen.with_classes(
        gen.blocks(depth=2, kinds=kinds, inline_args=ia, max_blocks=4, items=draw(BOOL)), kinds=('ul', 'ol', 'li', 'dl', 'dt', 'dd')))}


def check_in_model(case):
    common.check_model(case)
    n = sum(1 for e, p in dom.elements(case['nodes']) if e[0] in ('li', 'dd'))
    return n >= 3, common.labels_of(case)


# One list inside of another.

SHORT = ['a', 'bc', 'one two', 'item', 'x.', 'end of it', '7', 'e-f']


@cached
@st.composite
def nested_list(draw, depth, most):
    """
    The kind of a list, and the text and the list in every item.
    """
    return [draw(choice(['ul', 'ol'])), [
        [draw(choice(SHORT) if draw(BOOL) else gen.phrase(max_words=16)), draw(nested_list(depth - 1, 4)) if depth and draw(ints(0, 2)) == 0 else None]
        for i in range(draw(ints(1, most)))
    ]]


@cached
@st.composite
def nested_cases(draw):
    return {
        'list': draw(nested_list(draw(choice([1, 1, 2, 3])), 12)), 'width': draw(ints(25, 70)),
        'layout': draw(choice(['', '\n', '\n    '])), 'quote': draw(BOOL),
    }


def marker_of(kind, n):
    return '* ' if kind == 'ul' else '%d. ' % (n + 1)


def check_nested(case):
    layout = case['layout']
    depths = []

    def write(kind, items, indent, depth):
        depths.append(depth)
        lines, children = [], [layout]
        for n, (text, sub) in enumerate(items):
            marker = marker_of(kind, n)
            room = case['width'] - len(indent) - len(marker) - (2 if case['quote'] else 0)
            for i, line in enumerate(model.wrap(text, max(1, room), fix_sentence_endings=True)):
                lines.append(indent + (' ' * len(marker) if i else marker) + line)
            content = [text]
            if sub:
                node, more = write(*sub, indent + ' ' * len(marker), depth + 1)
                content += [layout, node, layout]
                lines += more
            children += [['li', {}, content], layout]
        return [kind, {}, children], lines
    node, expected = write(*case['list'], '', 1)
    nodes = [node]
    before = ''
    if case['quote']:
        nodes = [['blockquote', {}, nodes]]
        expected = ['> ' + l for l in expected]
        before = '>\n'
    out = dom.render(dom.to_html(nodes), width=case['width'])
    common.agree(out, '\n' + before + '\n'.join(expected) + '\n', 'the lists')
    return len(depths) > 1, ['nested lists %d' % min(len(depths) - 1, 4), 'levels %d' % max(depths)]


# Whatever else there is in the list: only the numbers and the order.

@cached
@st.composite
def number_cases(draw):
    children = []
    n = draw(st.one_of(ints(1, 9), ints(1, 9), ints(1, 9), ints(90, 140)))
    often = draw(ints(0, 3))
    for i in range(n):
        for j in range(draw(choice([0, 1, 2]) if often > draw(ints(0, 5)) else choice([0]))):
            children.append(draw(st.one_of(choice([
                'text', ' ', '\n\n', ' more. ', ['!--', {}, [' c ']], ['br', {}, []], ['b', {}, ['bold']], ['img', {'src': '/i'}, []], ['hr', {}, []],
                ['p', {}, ['paragraph']], ['ul', {}, [['li', {}, ['inner']], ['li', {}, ['inner']]]], ['div', {}, []], ['x', {}, ['text']],
                ['ol', {}, [['li', {}, ['inner']], '\n', ['li', {}, ['inner']]]], ['a', {'href': '/x'}, ['link']], ['script', {}, []],
            ]))))
        children.append(['li', {}, ['item%d;' % i]])
    settings = {}
    if draw(BOOL):
        settings = {'start_index': draw(choice([-5, 0, 1, 7, 99, 12345])), 'step': draw(choice([1, 2, -3, 0, 1000]))}
    return {'children': gen.merge(children), 'settings': settings, 'width': draw(ints(30, 80))}


def check_numbers(case):
    settings, children = case['settings'], case['children']
    out = dom.render(
        dom.to_html([['ol', {'class': 'c'}, children]]), renderers={'.c > li': {'settings': settings}} if settings else {}, width=case['width'])
    n = sum(1 for c in children if c[0] == 'li')
    start, step = settings.get('start_index', 1), settings.get('step', 1)
    expected = [(str(start + i * step), str(i)) for i in range(n)]
    core.expect_equal(re.findall(r'(-?\d+)\. item(\d+);', out), expected, 'the numbers of the items')
    other = len([c for c in children if isinstance(c, str) or c[0] != 'li'])
    return n >= 2 and other > 0, ['items %d' % (n if n < 10 else n // 10 * 10), 'others' if other else 'only items']


FACETS = [
    core.Facet('numbers', number_cases, check_numbers, quick=2000),
    core.Facet('markers', cases, check, quick=4000),
    core.Facet('model', model_cases, check_in_model, quick=1200),
    core.Facet('nested', nested_cases, check_nested, quick=2000),
]
