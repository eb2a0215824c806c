"""
Paragraphs, list items and definitions are wrapped to the width that is left for them.
"""
import core
import common
import dom
import gen
import model
from gen import st, cached, ints, choice, BOOL

ID = 'C03'
RULE = (
    'Documents of paragraphs, list items and definitions inside of random stacks of quotes and '
    'boxes, at page widths from 1 to 100 with random wrapping settings, against the textwrap module '
    'of the standard library at the width that is left; and the wrapping functions against textwrap '
    'with all of its options. Non-trivial: something is wrapped to at least 2 lines.'
)
ASSUMPTIONS = ['textwrap of the Python standard library is right']


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=st.one_of(ints(1, 100), ints(15, 60), ints(15, 60), ints(60, 250))))
    ia = dict(br=True, max_words=14, max_items=3, depth=1)
    kinds = ['p', 'p', 'ul', 'ol', 'dl']
    nodes = draw(gen.with_classes(gen.blocks(depth=0, kinds=kinds, inline_args=ia, max_blocks=3, items=True)))
    for i in range(draw(ints(0, 3))):
        tag = draw(choice(['div', 'blockquote']))
        node = [tag, {}, nodes]
        if draw(BOOL):
            node = gen.add_class(node, draw(choice(['b0', 'b1'])))
        nodes = [node]
        if draw(BOOL):
            nodes.append(draw(gen.paragraph(br=True)))
        if draw(BOOL):
            nodes.insert(0, draw(gen.paragraph(br=True)))
    renderers = {}
    for c in ('c0', 'c1', 'c2'):
        s = dict(draw(gen.box()))
        s.update(draw(gen.wrap_options()))
        renderers['.' + c] = {'settings': s}
    for c in ('b0', 'b1'):
        renderers['.' + c] = {'settings': draw(gen.box())}
    cfg['renderers'] = renderers
    return {'cfg': cfg, 'nodes': nodes}


def check(case):
    out = common.check_model(case)
    wrapped = len([l for l in out.split('\n') if l.strip()]) >= 2 + len(case['nodes'])
    return wrapped, common.labels_of(case) + ['width %d' % (case['cfg']['width'] // 20 * 20)]


# The width of the page is the limit, whatever there is between it and the text.

@cached
@st.composite
def limit_cases(draw):
    cfg = draw(gen.page(widths=ints(25, 100)))
    words = gen.words(pool=[w for w in gen.POOL if len(w) < 12], long_words=True)
    text = st.lists(words, min_size=3, max_size=40).map(' '.join)
    nodes = [['p', {}, [draw(text)]]]
    for i in range(draw(ints(0, 4))):
        k = draw(ints(0, 3))
        if k == 0:
            nodes = [['blockquote', {}, nodes]]
        elif k == 1:
            nodes = [['div', {}, nodes]]
        else:
            nodes.append([draw(choice(['ul', 'ol'])), {}, [['li', {}, [draw(text)]], ['li', {}, [draw(text)]]]])
    return {'cfg': cfg, 'nodes': nodes}


def check_limit(case):
    out = dom.render(dom.to_html(case['nodes']), **case['cfg'])
    width = case['cfg']['width']
    if 'page_margin' in case['cfg']:
        width -= case['cfg']['page_margin'][1]
    for line in out.split('\n'):
        core.expect(len(line) <= width, 'a line is longer than {}: {!r}', width, line)
    return len(out.split('\n')) > 4, common.labels_of(case)


@cached
@st.composite
def function_cases(draw):
    pieces = draw(st.lists(st.one_of(gen.words(), choice([' ', '  ', '\t', '\n', '   ', '-', '.', '. '])), max_size=40))
    text = ''.join(p if draw(ints(0, 4)) == 0 else p + ' ' for p in pieces)
    if draw(BOOL):
        text = text.rstrip() + draw(choice(['', ' ', '   ', '\n']))
    if draw(ints(0, 5)) == 0:
        # Many words, in long lines.
        text = (' '.join(draw(st.lists(choice(['a', 'I', 'to', 'b.', 'x-y', 'of', 'end.', 'é', 'the']), min_size=5, max_size=20))) + ' ') * draw(choice([3, 10, 30]))
    options = {}
    for k, v in [
        ('initial_indent', ['', ' ', '  * ']), ('subsequent_indent', ['', '  ', '....']),
        ('expand_tabs', [True, False]), ('replace_whitespace', [True, False]),
        ('fix_sentence_endings', [False, True]), ('break_long_words', [True, False]),
        ('drop_whitespace', [True, False]), ('break_on_hyphens', [True, False]),
        ('tabsize', [8, 4, 1]), ('max_lines', [1, 2, 3, 5]), ('placeholder', [' [...]', '...', '']),
    ]:
        if draw(ints(0, 2)) == 0:
            options[k] = draw(choice(v))
    return {'text': text, 'width': draw(st.one_of(ints(1, 25), ints(1, 80), ints(1, 80), ints(80, 500))), 'options': options}


def check_function(case):
    text, width, options = case['text'], case['width'], case['options']
    try:
        expected = model.wrap(text, width, **options)
    except ValueError:
        return False, ['rejected']
    with core.library('left_justify'):
        actual = dom.rendering().left_justify(text, width, **options)
    core.expect_equal(actual, '\n'.join(expected), 'wrapped to {} with {}'.format(width, options))
    return len(expected) >= 2, ['max_lines' if 'max_lines' in options else 'any number of lines']


FACETS = [
    core.Facet('in boxes', cases, check, quick=3000),
    core.Facet('limit', limit_cases, check_limit, quick=2500),
    core.Facet('functions', function_cases, check_function, quick=3000),
]
