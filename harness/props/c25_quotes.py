"""
Every line of a quote is marked.
"""
import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C25'
RULE = (
    'Random blocks with random boxes in (nested) quotes, with random templates for the lines of the quotes, compared with '
    'the rendering of the content on its own on a page that is narrower by the width of the template, of '
    'which every line is put into the template. Non-trivial: at least 3 lines, and 2 blocks or a nested '
    'quote.'
)

TEMPLATES = ['> {}', '> {}', '| {}', '{}', '>> {} <<', '{} |', ':{}', '    {}', '> > {}', '"{}"', '{0} |', '{{ {} }}', '>{:s}', '{{{0}}}']


@cached
@st.composite
def cases(draw):
    ia = dict(links=gen.link(), images=gen.image(), br=True, max_words=10)
    nodes = draw(gen.with_classes(gen.blocks(depth=1, inline_args=ia, max_blocks=3, items=draw(BOOL)), names=('c0', 'c1'), one_in=3))
    rules = dict(('.c%d' % i, {'settings': draw(gen.box(vertical=5))}) for i in range(2))
    case = {
        'nodes': nodes,
        'width': draw(ints(20, 80)),
        'templates': draw(st.lists(choice(TEMPLATES), min_size=1, max_size=4)),
        'default': draw(ints(0, 2)) == 0,
        'around': draw(BOOL),
        'rules': rules,
    }
    if case['default']:
        case['templates'] = ['> {}'] * len(case['templates'])
    return case


# On its own, the content has to have what the quote would have changed of it: there is
# nothing before its first paragraph, or after its last one.
EDGES = {
    '.edge-first': {'settings': {'margin': [0, 0, 1, 0]}},
    '.edge-last': {'settings': {'margin': [1, 0, 0, 0]}},
    '.edge-both': {'settings': {'margin': [0, 0, 0, 0]}},
}


def edges(nodes):
    out = list(nodes)
    first = bool(out) and out[0][0] == 'p'
    last = bool(out) and out[-1][0] == 'p'
    if len(out) == 1 and first:
        out[0] = gen.add_class(out[0], 'edge-both')
        return out
    if first:
        out[0] = gen.add_class(out[0], 'edge-first')
    if last:
        out[-1] = gen.add_class(out[-1], 'edge-last')
    return out


def check(case):
    nodes, width = case['nodes'], case['width']
    cfg = {'width': width, 'link_placement': 'inline', 'image_placement': 'inline', 'optimise': False}
    renderers = dict(case['rules'])
    quoted = nodes
    for i, t in enumerate(case['templates']):
        # The innermost one is the first.
        attrs = {} if case['default'] else {'class': 't%d' % i}
        if not case['default']:
            renderers['.t%d' % i] = {'settings': {'line_template': t}}
        quoted = [['blockquote', attrs, quoted]]
    before = [['p', {}, ['before']]] if case['around'] else []
    after = [['p', {}, ['after']]] if case['around'] else []
    actual = dom.render(dom.to_html(before + quoted + after), renderers=renderers, **cfg)

    inner_width = width - sum(len(t.format('')) for t in case['templates'])
    text = dom.render(dom.to_html(edges(nodes)), renderers=dict(case['rules'], **EDGES), **dict(cfg, width=inner_width))
    available = inner_width
    for t in case['templates']:
        available += len(t.format(''))
        # As all blocks, the quote is filled up to its width.
        text = '\n' + '\n'.join(t.format(l).ljust(available) for l in dom.lines(text)) + '\n'
    if case['around']:
        text = '\nbefore\n' + text + '\nafter\n'
    common.agree(actual, text, 'the quote')
    lines = actual.count('\n')
    nested = len(case['templates']) > 1
    return lines >= 3 and (nested or len(nodes) > 1), ['depth %d' % len(case['templates'])] + (
        ['default'] if case['default'] else [])


FACETS = [core.Facet('marked lines', cases, check, quick=3000)]
