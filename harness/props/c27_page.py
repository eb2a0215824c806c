"""
The margins of the page.
"""
import core
import common
import dom
import gen
from props import c01_conservation as wild
from gen import st, cached, ints, choice, BOOL

ID = 'C27'
RULE = (
    'Random trees of any elements in one another, with random renderers, formats and placements, rendered '
    'on a page with margins, and on one without them that is as wide as what they leave. The lines of the '
    'first are those of the second, moved to the right by the left margin (but for the links at the end of '
    'a gophermap), with the lines of the margins before and after. Non-trivial: a left or right margin, '
    'and at least 3 lines.'
)
ASSUMPTIONS = ['links of gophermaps are in the footer (those placed after their block are indented with it, see the known findings)']


@cached
@st.composite
def cases(draw):
    case = draw(wild.cases())
    cfg = dict(case['cfg'])
    cfg.pop('page_margin', None)
    if cfg.get('output_format') == 'gophermap':
        for k in ('link_placement', 'image_placement'):
            if cfg[k] == 'after_block':
                cfg[k] = 'footer'
    nodes = case['nodes']
    if draw(ints(0, 3)) == 0:
        # Lines that begin and end with anything.
        nodes = nodes + [['pre', {}, [draw(st.text('ab\t \n\x0c\u2028>*#[=', min_size=1, max_size=12))]]]
        cfg['renderers'] = dict(cfg.get('renderers') or {}, pre={'settings': {'indent': 0}})
    vertical, horizontal = (3, 12) if draw(ints(0, 5)) else (60, 400)
    return {
        'cfg': cfg, 'nodes': nodes,
        'margin': [draw(ints(0, vertical)), draw(ints(0, horizontal)), draw(ints(0, vertical)), draw(ints(0, horizontal))],
        'how': draw(choice(['width', 'box'])),
    }


def check(case):
    cfg, nodes, margin = dict(case['cfg']), case['nodes'], case['margin']
    width = cfg.pop('width')
    source = dom.to_html(nodes)
    top, right, bottom, left = margin
    with_margins = dom.render(source, width=width + left + right, page_margin=margin, **cfg)
    if case['how'] == 'width':
        without = dom.render(source, width=width, **cfg)
    else:
        without = dom.render(source, width=width, page_margin=[0, 0, 0, 0], **cfg)
    footer = ''
    if cfg.get('output_format') == 'gophermap':
        count = len([
            l for l in links(nodes) if cfg['link_placement' if l[0] == 'a' else 'image_placement'] == 'footer'
        ])
        if count:
            size = 1 + sum(len(l) + 1 for l in without.split('\n')[-count - 1:-1])
            without, footer = without[:-size], without[-size:]
    expected = (
        '\n' * top + ''.join(' ' * left + l for l in dom.lines(without, keepends=True)) + footer + '\n' * bottom
    )
    common.agree(with_margins, expected, 'the page with margins')
    return (left + right) > 0 and without.count('\n') >= 3, [cfg.get('output_format', 'text'), case['how']]


def links(nodes):
    return [n for n, p in dom.elements(nodes) if n[0] == 'img' or (n[0] == 'a' and n[1].get('href') is not None)]


FACETS = [core.Facet('margins', cases, check, quick=2500)]
