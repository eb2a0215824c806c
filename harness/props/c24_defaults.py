"""
The layout of a document without any configuration.
"""
import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C24'
RULE = (
    'Random documents of paragraphs, headers, lists, definition lists, quotes, divisions, preformatted '
    'blocks, styles, links, images and line breaks, with the default renderers and random page width '
    '(also the default one), margins and link placement, against an independent reference model of the '
    'whole layout, except for white space at the end of lines. Non-trivial: at least 2 kinds of blocks '
    'and 4 lines.'
)
ASSUMPTIONS = [
    'list items and definitions contain text and inline elements',
    'links that are placed after their block are direct children of it',
]

BLOCKS = {'p', 'div', 'blockquote', 'ul', 'ol', 'dl', 'pre', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6'}


# Elements that have no renderer of their own.
OTHER = ['kbd', 'x', 'label', 'q', 'cite', 'samp', 'var', 'tt', 'sub', 'abbr', 'mark', 'font', 'big', 'x-y', 'h7', 'o:p']


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=st.one_of(ints(12, 90), st.just(67))))
    if draw(ints(0, 4)) == 0:
        cfg = {}
    cfg['image_placement'] = draw(choice(['footer', 'inline']))
    cfg['link_placement'] = draw(choice(['footer', 'inline']))
    if draw(ints(0, 2)) == 0:
        # What the defaults are.
        del cfg['image_placement'], cfg['link_placement']
    ia = dict(links=gen.link(), images=gen.image(), br=True, max_words=12, styles=gen.STYLES + OTHER)
    nodes = draw(gen.blocks(
        depth=2, inline_args=ia, max_blocks=4, items=draw(BOOL),
        kinds=['p', 'p', 'h', 'ul', 'ol', 'dl', 'blockquote', 'pre', 'div']))
    if draw(ints(0, 5)) == 0:
        # Nothing but code.
        codes = draw(st.lists(gen.phrase(max_words=8).map(lambda t: ['code', {}, [t]]), min_size=1, max_size=3))
        nodes = nodes + [['p', {}, codes]]
    return {'cfg': cfg, 'nodes': nodes}


def check(case):
    out = common.check_model(case)
    kinds = dom.tags(case['nodes']) & BLOCKS
    return len(kinds) >= 2 and out.count('\n') >= 4, common.labels_of(case)


FACETS = [core.Facet('documents', cases, check, quick=5000)]
