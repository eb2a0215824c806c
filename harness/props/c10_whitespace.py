"""
How the source is laid out does not matter, outside of preformatted text.
"""
import re

import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C10'
RULE = (
    'Random documents written twice: with single spaces, and with random runs of spaces, tabs and '
    'line breaks (of both kinds) instead of every space, around the content of blocks, around line '
    'breaks and in between blocks and list items. Both have to be rendered the same. Non-trivial: '
    'the second has at least 3 runs that are not a single space.'
)
ASSUMPTIONS = ['white space at the end of output lines is removed, as it is by default']

RUNS = [' ', '  ', '\n', '\n    ', '\t', '\r\n', ' \n', '\n\n', ' \t\n\t ', '\r\n\r\n  ', '   ', '\f', '\n\f\n', '\r']
NONE = ['', '', '\n', '\n  ', '  ', '\r\n\t', ' ', '\f\n', '\r ']
BLOCKS = ('p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'li', 'dt', 'dd')
CONTAINERS = ('ul', 'ol', 'dl', 'blockquote')


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=ints(20, 80)))
    cfg['link_placement'] = draw(choice(['footer', 'inline']))
    cfg['image_placement'] = draw(choice(['footer', 'inline']))
    ia = dict(links=gen.link(), images=gen.image(), br=True, max_words=6)
    nodes = draw(gen.blocks(depth=2, inline_args=ia, max_blocks=3, items='last' if draw(BOOL) else False))
    noise = draw(noises())
    return {'cfg': cfg, 'nodes': nodes, 'noise': noise, 'model': draw(ints(0, 2)) == 0}


@cached
def noises():
    return st.lists(st.integers(0, 131), min_size=1, max_size=60)


class Noise:
    """
    The noise is used over and over, so that a case stays small.
    """
    def __init__(self, numbers):
        self.numbers = numbers
        self.at = 0
        self.used = 0

    def next(self, options):
        n = self.numbers[self.at % len(self.numbers)]
        self.at += 1
        v = options[n % len(options)]
        if v not in ('', ' '):
            self.used += 1
        return v


def noisy(nodes, noise, inside, parent=None):
    """
    inside: 'block' for the content of a block, 'container' for blocks, or 'inline'
    """
    out = []
    for i, n in enumerate(nodes):
        if inside == 'container':
            out.append(noise.next(NONE))
        if isinstance(n, str):
            n = re.sub(' ', lambda m: noise.next(RUNS), n)
            after_br = i > 0 and nodes[i - 1][0] == 'br'
            before_br = i < len(nodes) - 1 and not isinstance(nodes[i + 1], str) and nodes[i + 1][0] == 'br'
            if inside == 'block':
                if i == 0 or after_br:
                    n = noise.next(NONE) + n
                if i == len(nodes) - 1 or before_br:
                    n = n + noise.next(NONE)
            out.append(n)
            continue
        tag, attrs, children = n
        if tag == 'pre':
            out.append(n)
        elif tag in CONTAINERS:
            out.append([tag, attrs, noisy(children, noise, 'container', tag)])
        elif tag in BLOCKS:
            out.append([tag, attrs, noisy(children, noise, 'block', tag)])
        else:
            out.append([tag, attrs, noisy(children, noise, 'inline', tag)])
        if inside == 'block' and tag != 'br' and i == 0:
            out.insert(0, noise.next(NONE))
        if inside == 'block' and tag != 'br' and i == len(nodes) - 1:
            out.append(noise.next(NONE))
    if inside == 'container':
        out.append(noise.next(NONE))
    return out


def check(case):
    cfg, nodes = case['cfg'], case['nodes']
    noise = Noise(case['noise'])
    other = noisy(nodes, noise, 'container')
    expected = dom.render(dom.to_html(nodes), **cfg)
    if case['model']:
        # Nothing of the white space that matters is gone either.
        common.agree(expected, common.model_for(cfg, nodes).render(nodes))
    source = dom.to_html(other)
    actual = dom.render(source, **cfg)
    common.agree(actual, expected, 'the rendering of {!r}'.format(source))
    return noise.used >= 3, common.labels_of(case)




FACETS = [core.Facet('layout of the source', cases, check, quick=3000)]
