"""
References to links, and the entries they refer to.
"""
import re

import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C07'
RULE = (
    'Documents with links, images, images inside of links and anchors in all kinds of blocks, with '
    'every combination of placements, random settings for the entries, against a model; and an '
    'independent reading of the output in which reference n and entry n have to belong to the n-th '
    'link of the document. Non-trivial: at least 2 links or images that are not inline.'
)


@cached
@st.composite
def entry_settings(draw):
    s = {}
    if draw(BOOL):
        s['max_link_description'] = draw(ints(1, 30))
    if draw(ints(0, 3)) == 0:
        s['templates'] = draw(choice([
            ['\n({link_reference}) {description} <{href}>', '\n({link_reference}) {description} <{href}> ({title})'],
            ['\n{link_reference}: {href}', '\n{link_reference}: {href} - {title} - {description}'],
        ]))
    if draw(ints(0, 2)) == 0:
        # Every entry is a block of its own.
        s['margin'] = [draw(ints(0, 2)), draw(ints(0, 3)), draw(ints(0, 2)), draw(ints(0, 3))]
        if draw(BOOL):
            s['padding'] = [draw(ints(0, 2)), draw(ints(0, 3)), draw(ints(0, 2)), draw(ints(0, 3))]
        if draw(BOOL):
            s['border'] = draw(choice(gen.BORDERS))
    return s


@cached
@st.composite
def classed(draw, nodes):
    name = draw(choice(['x', 'y', '']))
    node = draw(nodes)
    return gen.add_class(node, name) if name else node


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=ints(25, 80)))
    cfg['link_placement'] = draw(choice(['footer', 'footer', 'after_block', 'inline']))
    cfg['image_placement'] = draw(choice(['footer', 'after_block', 'inline']))
    cfg['extracted_link_renderers'] = {'.x': {'settings': draw(entry_settings())}, '.y': {'settings': draw(entry_settings())}}
    if cfg['link_placement'] != 'inline' and draw(ints(0, 3)) == 0:
        cfg.update(output_format='gophermap', gopher_host='my.host', gopher_port=draw(ints(1, 65535)))
    after = 'after_block' in (cfg['link_placement'], cfg['image_placement'])
    if after:
        cfg.pop('output_format', None)
    ia = dict(
        links=classed(gen.link(hrefs=gen.HREFS + [''])), images=classed(gen.image(hrefs=('i.png', '/p/q.gif', 'http://example.com/z.jpg', ''))),
        max_words=4, br=not after, max_items=5,
    )
    kinds = ['p', 'p', 'h', 'ul', 'ol', 'dl', 'blockquote', 'div']
    if after:
        # In a paragraph, or directly in a quote or box.
        kinds = ['p', 'p', 'blockquote', 'div']
        ia['styles'] = ['code']
    nodes = draw(gen.blocks(depth=2, kinds=kinds, inline_args=ia, max_blocks=3, items=draw(BOOL)))
    return {'cfg': cfg, 'nodes': nodes}


def extracted(case):
    cfg, n = case['cfg'], 0
    for (tag, attrs, children), parents in dom.elements(case['nodes']):
        if tag == 'a' and attrs.get('href') is not None and cfg['link_placement'] != 'inline':
            n += 1
        if tag == 'img' and cfg['image_placement'] != 'inline':
            n += 1
    return n


def check(case):
    common.check_model(case)
    n = extracted(case)
    labels = common.labels_of(case)
    labels.append('links {} images {}'.format(case['cfg']['link_placement'], case['cfg']['image_placement']))
    labels.append('links %d' % min(n, 6))
    return n >= 2, labels


# Reading the output: there are no brackets in the text.

@cached
@st.composite
def reading_cases(draw):
    images = draw(BOOL)
    cfg = {
        'width': draw(ints(200, 300)),
        'link_placement': draw(choice(['footer', 'footer', 'after_block'])),
        'image_placement': draw(choice(['footer', 'after_block'])),
    }
    blocks = []
    n = 0
    # Also many of them.
    for i in range(draw(st.one_of(ints(1, 4), ints(1, 4), ints(1, 4), ints(1, 4), ints(1, 50)))):
        content = []
        for j in range(draw(ints(0, 4))):
            n += 1
            kind = draw(choice(['a', 'a', 'img', 'anchor', 'both', 'repeat']))
            if kind == 'a':
                attrs = {'href': '/link%d' % n}
                text = 'text%d' % n + draw(choice(['', ' and more of it', ' x']))
                if draw(BOOL):
                    # Also the same as the text or the address.
                    attrs['title'] = draw(choice(['title%d' % n, 'title%d' % n, text, '/link%d' % n]))
                content.append(['a', attrs, [text]])
            elif kind == 'repeat':
                # The same target and text again is another link.
                content.append(['a', {'href': '/same'}, ['same']])
            elif kind == 'anchor':
                content.append(['a', {'name': 'name%d' % n}, ['anchor%d' % n]])
            elif kind == 'img':
                content.append(['img', {'src': '/image%d' % n, 'alt': 'alt%d' % n}, []])
            else:
                content.append(['a', {'href': '/link%d' % n}, [
                    ['img', {'src': '/image%d' % n, 'alt': 'alt%d' % n}, []]
                ]])
            content.append(' ')
        tag = draw(choice(['p', 'p', 'blockquote']))
        if draw(ints(0, 3)) == 0 and cfg['link_placement'] == 'footer' and cfg['image_placement'] == 'footer':
            blocks.append(['ul', {}, [['li', {}, content or ['x']]]])
        else:
            blocks.append([tag, {}, content or ['x']])
    return {'cfg': cfg, 'nodes': blocks}


def check_reading(case):
    cfg, nodes = case['cfg'], case['nodes']
    out = dom.render(dom.to_html(nodes), **cfg)
    links = [n for n, p in dom.elements(nodes) if n[0] == 'img' or (n[0] == 'a' and 'href' in n[1])]
    entries = {}
    order = []
    body = []
    for line in out.split('\n'):
        m = re.match(r'(?:> )?\[(\d+)\] (.*)$', line)
        if m:
            number = int(m.group(1))
            core.expect(number not in entries, 'there are two entries {}:\n{}', number, out)
            entries[number] = m.group(2)
            order.append(number)
        else:
            body.append(line)
    core.expect(
        sorted(entries) == list(range(1, len(links) + 1)),
        'there are {} links, but the entries are {}:\n{}', len(links), order, out)
    if cfg['link_placement'] == cfg['image_placement'] == 'footer':
        core.expect(order == sorted(order), 'the entries are out of order: {}\n{}', order, out)
        first = next((i for i, l in enumerate(out.split('\n')) if re.match(r'\[\d+\] ', l)), None)
        if first is not None:
            rest = out.split('\n')[first:]
            core.expect(all(re.match(r'\[\d+\] ', l) for l in rest), 'the entries are not at the end, together:\n{}', out)
    body = '\n'.join(body)
    # References in the order in which they end, innermost first.
    for number, node in enumerate(links, 1):
        href = node[1].get('href') or node[1].get('src')
        if node[0] == 'img':
            ref = '[{}][{}]'.format(node[1]['alt'], number)
            entry = '{}: {}'.format(node[1]['alt'], href)
        else:
            inner = dom.text_of(node[2])
            if not inner:
                inner = '[{}][{}]'.format(node[2][0][1]['alt'], number + 1)
            ref = '[{}][{}]'.format(inner, number)
            entry = '{}: {}'.format(inner if len(inner) <= 10 else inner[:10] + '...', href)
            if node[1].get('title'):
                entry += ' "{}"'.format(node[1]['title'])
        core.expect(body.count('[{}]'.format(number)) == 1, 'link {} is not referred to once:\n{}', number, out)
        core.expect(body.count(ref) == 1, 'there is no reference {!r}:\n{}', ref, out)
        core.expect(entries[number].rstrip() == entry, 'entry {} is {!r}, not {!r}', number, entries[number], entry)
    return len(links) >= 2, ['links %d' % (min(len(links), 8) if len(links) < 90 else len(links) // 10 * 10), 'after block' if 'after_block' in cfg.values() else 'footer']


FACETS = [
    core.Facet('model', cases, check, quick=2500),
    core.Facet('reading', reading_cases, check_reading, quick=3500),
]
