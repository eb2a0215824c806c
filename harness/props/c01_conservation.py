"""
Nothing of the document is lost, repeated, or put in another order.
"""
import re

import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C01'
RULE = (
    'Random trees of block, inline and unknown elements (any of them inside of any other), with '
    'comments, entities and source white space, rendered with random widths, boxes, justifications '
    'and placements of links. The characters of the output that are not white space have to be '
    'those of a walk over the tree that knows nothing of layout. Non-trivial: at least 3 elements '
    'on at least 2 levels and at least 10 visible characters. Third, tag soup with Greek text: tags that are '
    'not closed, or closed in the wrong order, and whatever is not quite a tag; the letters have to come out in order. '
    'Non-trivial: 5 letters and 3 tags. Fourth, up to 2000 elements in one, whose words have to be there in order. Non-trivial: more than 1000.'
)
ASSUMPTIONS = [
    'the characters >, | and + only occur as quote markers and borders, and are left out of the comparison',
    'links that are placed after their block have no inline element between them and the block',
]

# No >, | or + in the text.
POOL = [w for w in gen.PLAIN] + ['a&b', '&', 'AT&T', 'Q&A', '100%', '"q"', '{}', '{0}', '\\n', "it's", '<b', 'x<y', '©', '%s', '}{']
INLINE = ['em', 'i', 'strong', 'b', 'u', 'ins', 's', 'del', 'span', 'code', 'x', 'label', 'small', 'x-y']
EMPTY = ['area', 'base', 'col', 'embed', 'hr', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr', 'hr']
BLOCKS = [
    'p', 'p', 'p', 'div', 'ul', 'ol', 'li', 'dl', 'dd', 'dt', 'blockquote', 'pre', 'h1', 'h2', 'h3', 'h6',
    'section', 'table', 'td', 'article',
]
TEMPLATES = {
    'em': '_{}_', 'i': '_{}_', 'strong': '**{}**', 'b': '**{}**', 'u': '_{}_', 'ins': '_{}_',
    's': '~~{}~~', 'del': '~~{}~~',
}
HREFS = [h for h in gen.HREFS]


@cached
@st.composite
def text(draw):
    s = draw(gen.phrase(max_words=6, pool=POOL, any_script=True))
    before = draw(choice(['', ' ', '\n', '  ', ' \n ', '\t']))
    after = draw(choice(['', ' ', '\n', '  ', '\n\n  ']))
    return before + s + after


@cached
@st.composite
def inlines(draw, depth, links, images, in_link=False):
    out = []
    for i in range(draw(ints(1, 3))):
        k = draw(ints(0, 11))
        if k < 5 or depth <= 0:
            out.append(draw(text()))
        elif k < 9:
            tag = draw(choice(INLINE))
            if tag == 'code':
                out.append(['code', {}, [draw(gen.phrase(max_words=3, pool=POOL))]])
            else:
                # Links have to be direct children of the block if they are to be
                # placed after it, which the caller sees to.
                out.append([tag, {}, draw(inlines(depth - 1, links == 'anywhere' and links, images == 'anywhere' and images, in_link))])
        elif k == 9 and links and not in_link:
            a = draw(gen.link(hrefs=HREFS))
            out.append([a[0], a[1], draw(inlines(1, False, images, True))])
        elif k == 10 and images:
            out.append(draw(gen.image()))
        elif draw(BOOL):
            # Without end tags, so nothing is inside of them.
            out.append([draw(choice(EMPTY)), {}, []])
        else:
            out.append(['!--', {}, [' a comment with <b>tags</b> ']])
    return out


@cached
@st.composite
def block(draw, depth, links, images):
    tag = draw(choice(BLOCKS))
    attrs = {}
    if draw(ints(0, 4)) == 0:
        attrs['class'] = draw(choice(['c0', 'c1', 'c0 c1']))
    if tag == 'ol':
        items = draw(st.lists(block_children(depth - 1, links, images), min_size=0, max_size=4)) if depth > 0 else []
        return [tag, attrs, [x for i in items for x in (['li', {}, i], '\n')]]
    if tag == 'pre':
        children = draw(inlines(1, False, False))
        if not dom.text_of(children).strip():
            children.append('code')
        return [tag, attrs, children]
    if tag[0] == 'h':
        return [tag, attrs, draw(inlines(1, links, images))]
    return [tag, attrs, draw(block_children(depth - 1, links, images))]


@cached
@st.composite
def block_children(draw, depth, links, images):
    if depth <= 0 or draw(ints(0, 2)) == 0:
        return draw(inlines(2, links, images))
    out = []
    for i in range(draw(ints(1, 3))):
        out.append(draw(block(depth, links, images)))
        k = draw(ints(0, 5))
        if k == 0:
            out.append('\n  ')
        elif k == 1:
            out.extend(draw(inlines(1, links, images)))
        elif k == 2:
            out.append(['!--', {}, ['c']])
        elif k == 3:
            out.append([draw(choice(EMPTY)), {}, []])
    return out


@cached
@st.composite
def box_settings(draw):
    s = {}
    if draw(BOOL):
        s['margin'] = [draw(ints(0, 2)), draw(ints(0, 5)), draw(ints(0, 2)), draw(ints(0, 5))]
    if draw(BOOL):
        s['padding'] = [draw(ints(0, 1)), draw(ints(0, 3)), draw(ints(0, 1)), draw(ints(0, 3))]
    if draw(BOOL):
        s['border'] = draw(choice([['+', '|', '+', '|'], ['', '', '', '|'], ['+', '', '', ''], ['+', '||', '', '|']]))
    s['justification'] = draw(choice(['left', 'right', 'center', 'full', 'none']))
    if draw(ints(0, 3)) == 0:
        s['break_long_words'] = False
    if draw(ints(0, 3)) == 0:
        s['capitalized'] = True
    return s


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=ints(1, 100)))
    cfg['link_placement'] = draw(choice(['footer', 'inline', 'after_block']))
    cfg['image_placement'] = draw(choice(['footer', 'inline', 'after_block']))
    cfg['optimise'] = draw(BOOL)
    if cfg['link_placement'] != 'inline' and draw(ints(0, 3)) == 0:
        cfg.update(output_format='gophermap', gopher_host='gopher.host', gopher_port=draw(choice([70, 7070])))
    cfg['renderers'] = {'.c0': {'settings': draw(box_settings())}, '.c1': {'settings': draw(box_settings())}}
    links = 'block' if cfg['link_placement'] == 'after_block' else 'anywhere'
    images = 'block' if cfg['image_placement'] == 'after_block' else 'anywhere'
    nodes = draw(st.lists(block(draw(ints(1, 5)), links, images), min_size=1, max_size=3))
    if draw(ints(0, 3)) == 0:
        # Content outside of any element.
        nodes = gen.merge(nodes + draw(inlines(1, links, images)))
    if draw(ints(0, 5)) == 0:
        nodes = gen.merge(draw(inlines(1, links, images)) + nodes)
    if draw(ints(0, 7)) == 0:
        nodes = gen.merge(nodes + [draw(choice(['end', ' AT&T', ' a &', 'the end. ', ' Q&A\n']))])
    return {'cfg': cfg, 'nodes': nodes, 'bare': draw(BOOL)}


class Walk:
    def __init__(self, cfg, nodes):
        self.cfg = cfg
        self.placement = {'a': cfg['link_placement'], 'img': cfg['image_placement']}
        self.model = common.model_for(cfg, nodes)
        self.model.links, self.model.number = [], {}
        self.model._number(nodes)

    def document(self, nodes):
        out = self.content(['', {}, nodes], ())
        out += ''.join(' ' + self.entry(l) for l in self.model.links if self.placement[l[0]] == 'footer')
        return out

    def content(self, node, parents):
        out = ''
        n = 0
        for c in node[2]:
            if isinstance(c, str):
                out += c
            else:
                out += self.node(c, parents + (node,), n)
                n += 1
        for l in self.model.pending(node, parents):
            out += ' ' + self.entry(l)
        return out

    def entry(self, node):
        # The template of the default renderer.
        short, title = self.model.description(node)
        href = node[1].get('href' if node[0] == 'a' else 'src', '')
        n = self.model.number[id(node)]
        if self.cfg.get('output_format') == 'gophermap':
            t = self.model.targets[href]
            return '{}[{}] {} {} {} {}'.format(t[0], n, title or short, *t[1:])
        return '[{}] {}: {}{}'.format(n, short, href, ' "{}"'.format(title) if title else '')

    def node(self, node, parents, index):
        tag = node[0]
        if tag == 'br':
            return ' '
        if tag in EMPTY:
            return ''
        if tag == 'img':
            alt = node[1].get('alt') or 'Image'
            if self.placement['img'] == 'inline':
                return '![{}]({})'.format(alt, node[1].get('src', ''))
            return '[{}][{}]'.format(alt, self.model.number[id(node)])
        content = self.content(node, parents)
        if tag == 'a':
            href = node[1].get('href')
            if href is None:
                return content
            if self.placement['a'] == 'inline':
                title = node[1].get('title')
                return '[{}]({}{})'.format(content, href, ' "{}"'.format(title) if title else '')
            return '[{}][{}]'.format(content, self.model.number[id(node)])
        if tag == 'code':
            return content if parents[-1][0] == 'pre' else '`' + content + '`'
        s = {}
        for name in node[1].get('class', '').split():
            s.update(self.cfg['renderers']['.' + name]['settings'])
        if s.get('capitalized') and tag not in ('div', 'pre', 'ul', 'ol', 'dl', 'blockquote', 'section', 'table', 'td', 'article'):
            only = [c for c in node[2] if not isinstance(c, str) or c.strip()]
            skipped = tag == 'p' and len(only) == 1 and only[0][0] in ('code', 'pre')
            if not skipped:
                content = content.upper()
        if tag in TEMPLATES:
            return TEMPLATES[tag].format(content)
        if len(tag) == 2 and tag[0] == 'h':
            hashes = '#' * int(tag[1])
            return ' {0} {1} {0} '.format(hashes, content)
        if tag == 'li':
            return ' {} {} '.format('%d.' % (index + 1) if parents[-1][0] == 'ol' else '*', content)
        if tag == 'dd':
            return ' : {} '.format(content)
        if tag in BLOCKS:
            return ' ' + content + ' '
        return content


def without_comments(nodes):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
        elif n[0] != '!--':
            out.append([n[0], n[1], without_comments(n[2])])
    return out


def visible(text):
    return ''.join(c for c in text if not c.isspace() and c not in '>|+')


def check(case):
    cfg, nodes = case['cfg'], case['nodes']
    actual = visible(dom.render(dom.to_html(nodes, case.get('bare')), **cfg))
    nodes = without_comments(nodes)
    expected = visible(Walk(cfg, nodes).document(nodes))
    if actual != expected:
        n = next((i for i, (a, b) in enumerate(zip(actual, expected)) if a != b), min(len(actual), len(expected)))
        raise core.Violation('visible characters differ from number {} on:\n  expected {!r}\n  actual   {!r}'.format(
            n, expected[max(0, n - 20):n + 40], actual[max(0, n - 20):n + 40]))
    elements = dom.elements(nodes)
    depth = max([len(p) for n, p in dom.walk(nodes)] + [0])
    labels = common.labels_of(case)
    labels.append('links {}'.format(cfg['link_placement']))
    labels.append('format {}'.format(cfg.get('output_format', 'text')))
    return len(elements) >= 3 and depth >= 2 and len(expected) >= 10, labels


# Words stay whole, and stay apart (breaking them is turned off).

@cached
@st.composite
def word_cases(draw):
    cfg = {
        'width': draw(ints(5, 120)),
        'link_placement': draw(choice(['footer', 'inline', 'after_block'])),
        'image_placement': draw(choice(['footer', 'inline'])),
        'renderers': {'*': {'settings': {'break_on_hyphens': False, 'break_long_words': False}}},
    }
    ia = dict(links=gen.link(), images=gen.image(), br=True, any_script=True)
    if cfg['link_placement'] == 'after_block':
        ia['styles'] = ['code']
    nodes = draw(gen.blocks(depth=3, inline_args=ia, items=draw(BOOL), kinds=['p', 'p', 'p', 'h', 'ul', 'ol', 'dl', 'blockquote']))
    return {'cfg': cfg, 'nodes': nodes}


def check_words(case):
    cfg, nodes = case['cfg'], case['nodes']
    actual = [w for w in dom.render(dom.to_html(nodes), **cfg).split() if w != '>']
    walk = Walk(dict(cfg, renderers={}), nodes)
    expected = walk.document(nodes).split()
    if actual != expected:
        n = next((i for i, (a, b) in enumerate(zip(actual, expected)) if a != b), min(len(actual), len(expected)))
        raise core.Violation('words differ from number {} on:\n  expected {!r}\n  actual   {!r}'.format(
            n, expected[max(0, n - 3):n + 8], actual[max(0, n - 3):n + 8]))
    return len(dom.elements(nodes)) >= 3 and len(expected) >= 8, common.labels_of(case)


# Documents that are not well-formed: elements that are not closed, or in the wrong order.

GREEK = ['αβγ', 'δεζηθ', 'ικ', 'λμνξοπρσ', 'τ', 'υφχψω', 'αααααααααααααααααααααααααααααα', 'ωβ δγ', 'μ\nμ', 'π  ρ']
SOUP = ['p', 'p', 'div', 'ul', 'ol', 'li', 'li', 'dl', 'dt', 'dd', 'blockquote', 'pre', 'code', 'h1', 'h2', 'h6', 'em', 'b', 's',
        'span', 'x', 'a', 'br', 'img', 'hr', 'table', 'tr', 'td', 'section', 'br']


@cached
@st.composite
def malformed_cases(draw):
    cfg = {'width': draw(ints(1, 60)), 'link_placement': 'inline', 'image_placement': 'inline'}
    pieces = []
    opened = []
    for i in range(draw(ints(2, 14))):
        k = draw(ints(0, 9))
        if k < 3:
            pieces.append(draw(choice(GREEK)))
        elif k < 7:
            tag = draw(choice(SOUP))
            attrs = {'a': draw(choice([' href="/x"', '', ' href'])), 'img': draw(choice([' src="i" alt="x"', '']))}.get(tag, '')
            pieces.append('<{}{}{}>'.format(tag, attrs, draw(choice(['', '', '', '', ' /']))))
            opened.append(tag)
        elif k < 9 and opened:
            # Not necessarily the last one that was opened.
            pieces.append('</{}>'.format(opened[-1 - draw(choice([0, 0, 0, 1, 1, 2])) % len(opened)]))
        elif k == 9:
            pieces.append(draw(choice(['</p>', '</b>', '</x>', '</br>', '<!-- c -->', ' ', '\n', '&amp;', '<>', '</>', '< a', '<!x>', '&bogus;'])))
    pieces.append(draw(choice(GREEK)))
    return {'cfg': cfg, 'pieces': pieces}


def greek(text):
    return ''.join(c for c in text if 'α' <= c <= 'ω')


def check_malformed(case):
    source = ''.join(case['pieces'])
    core.expect_equal(greek(dom.render(source, **case['cfg'])), greek(source), 'the text of {!r}'.format(source))
    return len(greek(source)) >= 5 and source.count('<') >= 3, ['pieces %d' % len(case['pieces'])]


# Many elements in one.

@cached
@st.composite
def many_cases(draw):
    return {
        'n': draw(choice([10, 100, 500, 1000, 1500, 2000])) + draw(ints(0, 40)), 'tag': draw(choice(['b', 'a', 'br', 'p', 'li', 'div', 'x', 'img', 'pre', 'dd', 'blockquote', '!--', 'h1'])),
        'around': draw(choice(['', 'p', 'ul', 'div', 'ol', 'dl', 'blockquote', 'x', 'pre'])), 'placement': draw(choice(['footer', 'inline', 'after_block'])),
        'width': draw(ints(10, 80)),
    }


def check_many(case):
    tag, n = case['tag'], case['n']
    children = []
    for i in range(n):
        word = 'w%dw' % i
        if tag in ('br', '!--'):
            children += [word, [tag, {}, ['c'] if tag == '!--' else []], ' ']
        elif tag == 'img':
            children += [['img', {'src': 'x', 'alt': word}, []], ' ']
        else:
            children += [[tag, {'href': 'x'} if tag == 'a' else {}, [word]], ' ']
    nodes = [[case['around'], {}, children]] if case['around'] else children
    out = dom.render(
        dom.to_html(nodes), width=case['width'], link_placement=case['placement'], image_placement='inline',
        extracted_link_renderers={'a': {'settings': {'templates': ['', ''], 'max_link_description': 0}}})
    core.expect_equal([int(w) for w in re.findall(r'w(\d+)w', out)], list(range(n)), 'the words')
    return n > 1000, ['in {}: {}'.format(case['around'] or 'nothing', tag), 'more than %d' % (n // 500 * 500)]


FACETS = [
    core.Facet('many', many_cases, check_many, quick=120),
    core.Facet('any document', cases, check, quick=7000),
    core.Facet('words', word_cases, check_words, quick=4000),
    core.Facet('malformed', malformed_cases, check_malformed, quick=2500),
]
