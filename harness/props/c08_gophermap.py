"""
Gophermaps: every link is a well formed item, and nothing else looks like one.
"""
import re

import core
import common
import dom
import gen
from props import c07_links as c07
from gen import st, cached, ints, choice, BOOL

ID = 'C08'
RULE = (
    'Documents with links in the footer rendered as gophermaps, with tabs, line breaks and other '
    'white space in the text, in code, and in the attributes of links. A line with a tab in it has '
    'to be an item of four fields, and those have to be the links of the document in order. Also '
    'against the model, and combinations of options that have to be rejected. Non-trivial: at least '
    'one link, and a tab or line break somewhere.'
)
ASSUMPTIONS = [
    'links placed after their block are left out (see known-findings.json)',
]

NASTY = ['\t', '\n', '\r\n', '  ', ' \t ', '\t\t']


@cached
@st.composite
def nasty(draw, max_words=4):
    out = draw(gen.words(long_words=False))
    for i in range(draw(ints(0, max_words))):
        out += draw(choice([' ', ' '] + NASTY)) + draw(gen.words(long_words=False))
    if draw(ints(0, 4)) == 0:
        out += draw(choice(NASTY))
    if draw(ints(0, 4)) == 0:
        out = draw(choice(NASTY)) + out
    return out


@cached
@st.composite
def link_node(draw):
    href = draw(choice(['/a', '/dir/b.txt', 'c.gif', 'http://example.com/x', 'gopher://other.host:7000/1/z', 'gopher://h/']))
    if draw(ints(0, 4)) == 0:
        at = draw(ints(0, len(href)))
        href = href[:at] + draw(choice(['\t', '\n', '\r\n', '\n\t '.strip(' ')])) + href[at:]
    if draw(ints(0, 4)) == 0:
        attrs = {'src': href}
        if draw(BOOL):
            attrs['alt'] = draw(nasty())
        return ['img', attrs, []]
    attrs = {'href': href}
    if draw(ints(0, 2)) == 0:
        attrs['title'] = draw(nasty())
    content = [draw(nasty())]
    if draw(ints(0, 4)) == 0:
        content.append([draw(choice(['em', 'code', 'span'])), {}, [draw(gen.phrase(max_words=2))]])
    if draw(ints(0, 6)) == 0:
        content.append(['img', {'src': 'i.png', 'alt': draw(nasty())}, []])
    return ['a', attrs, content]


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page())
    cfg.update(
        output_format='gophermap', link_placement='footer', image_placement=draw(choice(['footer', 'inline'])),
        gopher_host=draw(choice(['my.host', 'localhost', 'h'])), gopher_port=draw(choice([70, 1, 65535])),
        optimise=draw(BOOL),
    )
    nodes = []
    for i in range(draw(ints(1, 4))):
        content = []
        for j in range(draw(ints(1, 4))):
            content.append(draw(nasty()))
            if draw(ints(0, 2)) == 0:
                content.append(draw(link_node()))
        tag = draw(choice(['p', 'h1', 'ul', 'blockquote', 'div', 'pre', 'pre', 'dl', None, 'code']))
        if tag == 'ul':
            content = [['li', {}, content]]
        elif tag == 'dl':
            content = [['dt', {}, ['t\tt']], ['dd', {}, content]]
        elif tag in ('pre', 'code'):
            content = [draw(nasty()) + draw(choice(['\n', '\t\t\tx\n\ty'])) + draw(nasty())]
            if draw(ints(0, 2)) == 0:
                content += [draw(link_node()), draw(nasty())]
        if tag is None:
            nodes.extend(content)
        else:
            nodes.append([tag, {}, content])
    return {'cfg': cfg, 'nodes': nodes}


def check(case):
    cfg, nodes = case['cfg'], case['nodes']
    html = dom.to_html(nodes)
    out = dom.render(html, **cfg)
    items = [l for l in out.split('\n') if '\t' in l]
    links = [
        n for n, p in dom.elements(nodes)
        if (n[0] == 'a' and 'href' in n[1]) or (n[0] == 'img' and cfg['image_placement'] == 'footer')
    ]
    core.expect(len(items) == len(links), 'there are {} links, but {} items: {}', len(links), len(items), items)
    for number, (item, node) in enumerate(zip(items, links), 1):
        href = re.sub('[\t\r\n]', '', node[1].get('href' if node[0] == 'a' else 'src'))
        kind, selector, host, port = common.gopher_target(href, cfg['gopher_host'], cfg['gopher_port'])
        fields = item.split('\t')
        core.expect(len(fields) == 4, 'not an item: {!r}', item)
        core.expect(
            fields[1:] == [selector, host, str(port)],
            'the item of {!r} has {}, not {}', href, fields[1:], [selector, host, str(port)])
        core.expect(
            fields[0].startswith('{}[{}] '.format(kind, number)),
            'item {} is not of type {}: {!r}', number, kind, fields[0])
        label = ' '.join((node[1].get('title') or '').split()) if node[0] == 'a' else ''
        if label:
            core.expect(
                fields[0] == '{}[{}] {}'.format(kind, number, label),
                'item {} is not named by its title {!r}: {!r}', number, label, fields[0])
        core.expect('\r' not in item, 'a line break in {!r}', item)
    labels = common.labels_of(case)
    labels.append('links %d' % min(len(links), 5))
    return len(links) > 0 and ('\t' in html or '\n' in html), labels


@cached
@st.composite
def item_settings(draw):
    s = dict(draw(choice([
        {}, {'max_link_description': 25}, {'max_link_description': 0},
        {'gophermap_template': '{type}{description} ({link_reference})\t{selector}\t{host}\t{port}\n'},
    ])))
    # Of the box of an item, only the vertical margins can be there.
    if draw(ints(0, 2)) == 0:
        s['margin'] = [draw(ints(0, 2)), draw(ints(0, 3)), draw(ints(0, 2)), draw(ints(0, 3))]
    if draw(ints(0, 2)) == 0:
        s['padding'] = [draw(ints(0, 2)) for i in range(4)]
    if draw(ints(0, 2)) == 0:
        s['border'] = draw(choice(gen.BORDERS))
    return s


@cached
@st.composite
def model_cases(draw):
    cfg = draw(gen.page())
    cfg.update(
        output_format='gophermap', link_placement='footer', image_placement=draw(choice(['footer', 'inline'])),
        gopher_host='my.host', gopher_port=draw(ints(1, 65535)),
        extracted_link_renderers={'.x': {'settings': draw(item_settings())}, '.y': {'settings': draw(item_settings())}},
    )
    ia = dict(links=c07.classed(gen.link()), images=c07.classed(gen.image()))
    kinds = ['p', 'p', 'h', 'ul', 'ol', 'dl', 'blockquote', 'div']
    return {'cfg': cfg, 'nodes': draw(gen.blocks(inline_args=ia, kinds=kinds))}


def check_in_model(case):
    out = common.check_model(case)
    n = out.count('\t') // 3
    return n > 0, common.labels_of(case) + ['items %d' % min(n, 5)]


# Options that make no sense together are rejected, before anything is rendered.

@cached
@st.composite
def option_cases(draw):
    return {
        'output_format': draw(choice(['text', 'gophermap'])),
        'link_placement': draw(choice(['footer', 'inline', 'after_block'])),
        'image_placement': draw(choice(['footer', 'inline', 'after_block'])),
        'gopher_host': draw(choice(['', 'my.host'])),
        'width': draw(ints(1, 100)),
    }


def check_options(case):
    bad = case['output_format'] == 'gophermap' and (
        case['link_placement'] == 'inline' or case['gopher_host'] == '')
    try:
        dom.make_parser(case)
        rejected = False
    except ValueError:
        rejected = True
    core.expect(rejected == bad, 'the options {} are {}', case, 'accepted' if bad else 'rejected')
    return bad, ['rejected' if bad else 'accepted']


# The finding: items placed after a block are wrapped along with the block.

@cached
def after_cases():
    return st.just({"nodes": [["p", {}, [["a", {"href": "/x"}, ["x"]]]]]})


def check_after(case):
    out = dom.render(
        dom.to_html(case['nodes']), output_format='gophermap', gopher_host='h', link_placement='after_block')
    core.expect('1[1] x\t/x\th\t70' in out.split('\n'), 'there is no item for the link: {!r}', out)
    return True, []


FACETS = [
    core.Facet('items', cases, check, quick=3500),
    core.Facet('model', model_cases, check_in_model, quick=1500),
    core.Facet('options', option_cases, check_options, quick=200, thorough=400),
]
PINNED = [core.Facet('after block', after_cases, check_after, quick=0)]
