"""
Optimised output is the other one without white space at the end of lines.
"""
import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C22'
RULE = (
    'Random documents with random boxes, justifications, link placements and formats, rendered with '
    'and without optimisation. The optimised output has no white space at the end of lines, and is '
    'otherwise the same. Non-trivial: at least 3 lines, of which one is different.'
)


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=ints(10, 80)))
    renderers = {}
    for c in ('c0', 'c1', 'c2'):
        s = dict(draw(gen.box()))
        s.update(draw(gen.wrap_options()))
        renderers['.' + c] = {'settings': s}
    cfg['renderers'] = renderers
    cfg['image_placement'] = draw(choice(['footer', 'inline', 'after_block']))
    cfg['link_placement'] = draw(choice(['footer', 'inline', 'after_block']))
    if draw(ints(0, 3)) == 0:
        cfg.update(output_format='gophermap', gopher_host='gopher.example', link_placement='footer')
    ia = dict(links=gen.link(), images=gen.image(), br=True, max_words=6)
    nodes = draw(gen.with_classes(gen.blocks(depth=2, inline_args=ia, max_blocks=3, items=draw(BOOL))))
    return {'cfg': cfg, 'nodes': nodes, 'extra': draw(choice(['', '', ' ', '\t', '\n ', '\u00a0']))}


def check(case):
    cfg, nodes = case['cfg'], case['nodes']
    source = dom.to_html(nodes) + case['extra']
    default = dom.render(source, **cfg)
    optimised = dom.render(source, optimise=True, **cfg)
    plain = dom.render(source, optimise=False, **cfg)
    core.expect_equal(default, optimised, 'the default')
    lines = optimised.split('\n')
    for line in lines:
        core.expect(line == line.rstrip(), 'white space at the end of {!r}', line)
    core.expect_equal(lines, [l.rstrip() for l in plain.split('\n')], 'the lines')
    return len(lines) >= 3 and optimised != plain, common.labels_of(case)[-1:] + [cfg.get('output_format', 'text')]


FACETS = [core.Facet('documents', cases, check, quick=2500)]
