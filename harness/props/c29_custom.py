"""
Renderers that are written by the user.
"""
import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C29'
RULE = (
    'Random documents rendered with subclasses of all default renderers that write down what they are called with '
    '(element, attributes, ancestors, content, box): each element once, innermost first, with exactly what its '
    'children were rendered as, in the box of the block around it; the renderers of links and their entries with the number, address, title and '
    'gophermap item of each; documents in which elements have other names, '
    'with the renderers of the original ones configured for those; and documents in which elements are removed with NonRenderer, '
    'against the ones in which they are empty; and renderers that only have a box, against a narrower page. Non-trivial: at least 5 elements, 2 links, or one that is renamed or removed.'
)
ASSUMPTIONS = ['links are inline where the calls are in order, as the content of the others is rendered again for their entries']

CLASSES = {
    'p': 'ParagraphRenderer', 'br': 'BreakRenderer', 'blockquote': 'BlockQuoteRenderer', 'pre': 'PreRenderer',
    'div': 'BlockRenderer', 'ul': 'ListRenderer', 'ol': 'ListRenderer', 'li': 'ListItemRenderer',
    'ol > li': 'OrderedListItemRenderer', 'dl': 'DefinitionListRenderer', 'dt': 'DefinitionListTermHeaderRenderer',
    'dd': 'DefinitionListItemRenderer', 'code': 'CodeRenderer', 'a': 'LinkRenderer', 'img': 'ImageRenderer',
    'em': 'EmRenderer', 'strong': 'StrongRenderer', 'i': 'EmRenderer', 'b': 'StrongRenderer', 'u': 'UnderlineRenderer',
    'ins': 'UnderlineRenderer', 's': 'StrikethroughRenderer', 'del': 'StrikethroughRenderer', 'span': 'InlineRenderer',
    '': 'Renderer',
}
for _n in range(1, 7):
    CLASSES['h%d' % _n] = 'MarkdownHeaderRenderer'


@cached
@st.composite
def documents(draw):
    ia = dict(links=gen.link(anchors=False), images=gen.image(), br=True, max_words=5, depth=3)
    nodes = draw(gen.blocks(depth=2, inline_args=ia, max_blocks=3, kinds=['p', 'p', 'h', 'ul', 'ol', 'dl', 'blockquote', 'div', 'pre']))

    def visit(ns):
        out = []
        for n in ns:
            if isinstance(n, str):
                out.append(n)
                continue
            n = [n[0], dict(n[1]), visit(n[2])]
            k = draw(ints(0, 11))
            if k == 0:
                n[1]['id'] = draw(choice(['x', 'y-1', 'Z', '']))
            elif k == 1:
                n[1]['class'] = draw(choice(['c', 'c d', ' d  c\tc ', '', 'highlight C']))
            elif k == 2:
                n[1][draw(choice(['data-x', 'lang', 'title', 'hidden']))] = draw(choice(['', 'v', 'a "b" <c>', 'x  y', None]))
            elif k == 3 and n[0] != 'br':
                n = [draw(choice(['section', 'x-y', 'font', 'label'])), {'data-w': '1'}, [n]]
            out.append(n)
        return out
    return visit(nodes)


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=ints(8, 90)))
    cfg['link_placement'] = cfg['image_placement'] = 'inline'
    return {'cfg': cfg, 'nodes': draw(documents())}


def recorder(base, log):
    class Recorder(base):
        def render(self, content):
            result = super().render(content)
            log.append((self, content, result))
            return result
    return Recorder


def check(case):
    cfg, nodes = dict(case['cfg']), case['nodes']
    html = dom.to_html(nodes)
    plain = dom.render(html, **cfg)
    log = []
    with core.library():
        r = dom.rendering()
        renderers = dict((k, recorder(getattr(r, name), log)) for k, name in CLASSES.items())
        margin = cfg.pop('page_margin', [0, 0, 0, 0])
        width = cfg.pop('width')
        page = r.Box(width=width, margin=margin)
    out = dom.render_with(html, dict(cfg, box=page), renderers)
    core.expect_equal(out, plain, 'the rendering with subclasses of the default renderers')

    # The elements in the order in which they end.
    expected = []

    def visit(ns, parents):
        for n in ns:
            if not isinstance(n, str):
                visit(n[2], parents + [n])
                expected.append((n, parents))
    visit(nodes, [])
    core.expect_equal([s.tag.tag for s, c, t in log], [n[0] for n, p in expected], 'the elements that are rendered')
    results = {}
    boxes = {}
    for (node, parents), (renderer, content, result) in zip(expected, log):
        tag = renderer.tag
        name = '<{}> in {}'.format(node[0], [p[0] for p in parents])
        attrs = dict(node[1])
        classes = (attrs.get('class') or '').split()
        if 'class' in attrs:
            attrs['class'] = classes
        core.expect_equal(dict(tag.attrs), attrs, 'the attributes of ' + name)
        core.expect_equal(list(tag.classes), classes, 'the classes of ' + name)
        core.expect_equal(tag.id, attrs.get('id'), 'the id of ' + name)
        chain = []
        t = tag.parent
        while t is not None and getattr(t, 'tag', None) is not None:
            chain.insert(0, t.tag)
            t = t.parent
        core.expect_equal(chain, [p[0] for p in parents], 'the ancestors of ' + name)
        core.expect_equal(
            [c.tag for c in tag.children if c.tag is not None], [c[0] for c in node[2] if not isinstance(c, str)], 'the children of ' + name)
        pre = any(p[0] == 'pre' for p in parents) or node[0] == 'pre'
        inner = ''
        for c in node[2]:
            if isinstance(c, str):
                inner += c if pre else ' '.join(('x' + c + 'x').split(' '))[1:-1]
            else:
                inner += results[id(c)]
        core.expect_equal(content, inner, 'the content of ' + name)
        results[id(node)] = result
        boxes[id(node)] = getattr(renderer, 'box', None)
    top = ''.join(n if isinstance(n, str) else results[id(n)] for n in nodes)
    for (node, parents), (renderer, content, result) in zip(expected, log):
        around = next((boxes[id(p)] for p in reversed(parents) if boxes[id(p)] is not None), page)
        given = renderer.context['parent_box']
        core.expect(
            (given.inner_width, given.inner_width_excluding_line_template) ==
            (around.inner_width, around.inner_width_excluding_line_template),
            'the box around <{}> in {} is {!r}, not {!r}', node[0], [p[0] for p in parents], given, around)
    if margin == [0, 0, 0, 0]:
        common.agree(out, top, 'the document')
    return len(expected) >= 5, common.labels_of(case)


# What the renderers of links and of their entries get to know.

@cached
@st.composite
def link_cases(draw):
    cfg = {
        'width': draw(ints(15, 90)),
        'link_placement': draw(choice(['inline', 'footer', 'after_block'])),
        'image_placement': draw(choice(['inline', 'footer', 'after_block'])),
        'gopher_host': draw(choice(['', 'h.example', 'H'])),
        'gopher_port': draw(choice([70, 0, 7070])),
        'output_format': 'text',
    }
    if cfg['gopher_host'] and cfg['link_placement'] != 'inline' and draw(BOOL):
        cfg['output_format'] = 'gophermap'
    ia = dict(links=gen.link(), images=gen.image(), br=True, max_words=5, depth=2)
    return {'cfg': cfg, 'nodes': draw(gen.blocks(depth=1, inline_args=ia, max_blocks=3, kinds=['p', 'p', 'h', 'ul', 'div', 'blockquote']))}


def check_links(case):
    cfg, nodes = case['cfg'], case['nodes']
    # The renderers of the links in the text, and of the entries.
    logs = [[], []]
    with core.library():
        r = dom.rendering()
        renderers = {'a': recorder(r.LinkRenderer, logs[0]), 'img': recorder(r.ImageRenderer, logs[0])}
        entries = {'a': recorder(r.ExtractedLinkRenderer, logs[1]), 'img': recorder(r.ExtractedImageLinkRenderer, logs[1])}
    html = dom.to_html(nodes)
    out = dom.render_with(html, dict(cfg, extracted_link_renderers=entries), renderers)
    core.expect_equal(out, dom.render(html, **cfg), 'the rendering with subclasses of the default renderers of links')
    expected = []
    number = 1
    for (tag, attrs, children), parents in dom.elements(nodes):
        if tag not in ('a', 'img') or (tag == 'a' and attrs.get('href') is None):
            continue
        href = attrs.get('src') or '' if tag == 'img' else attrs['href']
        about = dict((k, cfg[k]) for k in ('link_placement', 'image_placement', 'output_format', 'gopher_host', 'gopher_port'))
        title = attrs.get('alt') if tag == 'img' else attrs.get('title')
        target = dict(zip(('type', 'selector', 'host', 'port'), common.gopher_target(href, cfg['gopher_host'], cfg['gopher_port'])))
        target['type'] = str(target['type'])
        placement = cfg['image_placement' if tag == 'img' else 'link_placement']
        if placement != 'inline':
            about['link_reference'] = number
            number += 1
        expected.append((tag, href, placement, about, dict(href=href, title=title, gopher_link=target)))

    def seen(log):
        out = []
        for renderer, content, result in log:
            context = dict(renderer.context)
            core.expect(context.get('parent_box') is not None, 'a link without a box')
            if 'gopher_link' in context:
                context['gopher_link'] = dict(context['gopher_link'], type=str(context['gopher_link']['type']))
            out.append((renderer.tag, context))
        return out

    def compare(log, expected, what):
        # Entries are rendered with the links in them, which are not links that have been placed.
        found = {}
        for tag, context in seen(log):
            found.setdefault(id(tag), (tag, context))
            first = found[id(tag)][1]
            core.expect_equal(
                dict((k, v) for k, v in context.items() if k != 'parent_box'), dict((k, v) for k, v in first.items() if k != 'parent_box'),
                'what a renderer gets to know again')
        core.expect_equal(len(found), len(expected), 'the number of ' + what)
        for tag, context in found.values():
            matching = [
                e for e in expected
                if e[0] == tag.tag and e[1] == (tag.attrs.get('src') or '' if e[0] == 'img' else tag.attrs['href'])
                and all(k in context and context[k] == v for k, v in e[2].items())
            ]
            core.expect(matching, 'one of the {} for {} {} gets {}, which is none of {}', what, tag.tag, tag.attrs,
                        dict((k, v) for k, v in context.items() if k != 'parent_box'), expected)
            expected.remove(matching[0])
    compare(logs[0], [
        (tag, href, dict(about, **place) if placement == 'inline' else dict(about, **({'title': place['title']} if tag == 'img' else {})))
        for tag, href, placement, about, place in expected
    ], 'links')
    compare(logs[1], [
        (tag, href, dict(about, **place)) for tag, href, placement, about, place in expected if placement != 'inline'
    ], 'entries')
    return len(expected) >= 2, ['links %d' % min(len(expected), 5), cfg['output_format']]


# A renderer does the same for elements of any name.

OTHER_NAMES = ['article', 'x-p', 'section', 'figure', 'center', 'kbd', 'ruby', 'p2']


@cached
@st.composite
def renamed_cases(draw):
    ia = dict(links=gen.link(), images=gen.image(), max_words=6, depth=2)
    renamed = draw(st.permutations(OTHER_NAMES))[:4]
    which = draw(st.permutations(['p', 'div', 'em', 'strong', 'b', 'u', 's', 'span', 'dd', 'ul']))[:4]
    cfg = draw(gen.page(widths=ints(10, 90)))
    cfg['link_placement'] = draw(choice(['inline', 'footer']))
    cfg['renderers'] = {'.c0': {'settings': draw(gen.box())}, '.c1': {'settings': dict(draw(gen.wrap_options()), padding=[0, 1, 0, 1])}}
    nodes = draw(gen.with_classes(gen.blocks(depth=1, inline_args=ia, kinds=['p', 'p', 'h', 'ul', 'dl', 'div']), names=('c0', 'c1')))
    return {'cfg': cfg, 'nodes': nodes, 'names': dict(zip(which, renamed))}


def rename(nodes, names):
    return [n if isinstance(n, str) else [names.get(n[0], n[0]), n[1], rename(n[2], names)] for n in nodes]


def check_renamed(case):
    cfg, nodes, names = case['cfg'], case['nodes'], case['names']
    expected = dom.render(dom.to_html(nodes), **cfg)
    renderers = dict((new, {'class': CLASSES[old]}) for old, new in names.items())
    other = rename(nodes, names)
    actual = dom.render(dom.to_html(other), **dict(cfg, renderers=dict(renderers, **cfg['renderers'])))
    core.expect_equal(actual, expected, 'the rendering with {}'.format(names))
    return other != nodes, common.labels_of(case)


# Elements without a rendering.

@cached
@st.composite
def removed_cases(draw):
    cfg = draw(gen.page(widths=ints(10, 90)))
    selector = draw(choice(['.no', '.no', 'em', 'blockquote', 'p .no', 'li', 'dd']))
    nodes = draw(gen.with_classes(
        documents(), names=('no', 'yes'), one_in=2,
        kinds=('p', 'div', 'blockquote', 'li', 'dt', 'dd', 'pre', 'em', 'span', 'strong', 'h1', 'h2', 'h3', 'section', 'ul', 'br', 'img', 'a')))
    cfg['link_placement'] = cfg['image_placement'] = 'inline'
    return {'cfg': cfg, 'selector': selector, 'nodes': nodes}


def check_removed(case):
    cfg, selector, nodes = case['cfg'], case['selector'], case['nodes']
    removed = 0

    def matches(node, parents):
        if selector.endswith('.no'):
            if 'no' not in (node[1].get('class') or '').split():
                return False
            return selector == '.no' or any(p[0] == 'p' for p in parents)
        return node[0] == selector

    def without(ns, parents):
        nonlocal removed
        out = []
        for n in ns:
            if isinstance(n, str):
                out.append(n)
            elif matches(n, parents):
                removed += 1
                # It still has its place among the others.
                if n[0] == 'li':
                    # and its number.
                    out.append(['li', {'class': 'removed'}, []])
                else:
                    out.append(['x-removed', {}, []])
            else:
                out.append([n[0], n[1], without(n[2], parents + [n])])
        return out
    expected = dom.render(dom.to_html(without(nodes, [])), renderers={'.removed': {'class': 'Renderer'}}, **cfg)
    key = 'li, ol > li' if selector == 'li' else selector
    actual = dom.render(dom.to_html(nodes), renderers={key: {'class': 'NonRenderer'}}, **cfg)
    core.expect_equal(actual, expected, 'the rendering without ' + selector)
    return removed > 0, ['removed ' + selector] if removed else []


# A renderer that is not one of a block may have a box as well, which is then that of what is in it.

@cached
@st.composite
def own_cases(draw):
    ia = dict(links=gen.link(), images=gen.image(), br=True, max_words=8)
    nodes = draw(gen.blocks(depth=1, inline_args=ia, max_blocks=3))
    boxes = []
    for i in range(draw(ints(1, 3))):
        boxes.append(dict((k, [draw(ints(0, 6)) for j in range(4)]) for k in ('margin', 'padding', 'border') if draw(BOOL)))
    return {'width': draw(ints(12, 70)), 'boxes': boxes, 'nodes': nodes, 'inside': draw(choice(['', 'x-y', 'span']))}


def check_own(case):
    with core.library():
        r = dom.rendering()

        class Own(r.Renderer):
            def __init__(self, tag, **kwargs):
                super().__init__(tag, **kwargs)
                self.box = r.Box(parent=kwargs['parent_box'], **case['boxes'][int(tag.attrs['n'])])
    nodes = case['nodes']
    total = 0
    for n, box in enumerate(case['boxes']):
        total += sum(v[1] + v[3] for v in box.values())
        if case['inside']:
            nodes = [[case['inside'], {}, nodes]]
        nodes = [['x-own', {'n': str(n)}, nodes]]
    cfg = {'link_placement': 'inline', 'image_placement': 'inline'}
    expected = dom.render(dom.to_html(case['nodes']), width=case['width'], **cfg)
    actual = dom.render_with(dom.to_html(nodes), dict(cfg, width=case['width'] + total), {'x-own': Own})
    core.expect_equal(actual, expected, 'the rendering in boxes that only make it narrower')
    return total > 0, ['boxes %d' % len(case['boxes'])]


FACETS = [
    core.Facet('calls', cases, check, quick=2500),
    core.Facet('links', link_cases, check_links, quick=1500),
    core.Facet('other names', renamed_cases, check_renamed, quick=2000),
    core.Facet('own boxes', own_cases, check_own, quick=1000),
    core.Facet('removed', removed_cases, check_removed, quick=2000),
]
