"""
Inline elements are put into the templates that are configured for them.
"""
import re

import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C28'
RULE = (
    'Documents in which styles, code, links, images and line breaks, nested in one another and in all kinds of '
    'blocks, have random templates and capitalisation configured for their classes, with all placements, against '
    'the model; and single chains of nested elements on a wide page against the composition of their templates. '
    'Non-trivial: at least 2 elements with templates.'
)

STYLE_TEMPLATES = ['{}', '<{}>', '*{}*', '{} ', '({})', '-- {} --', 'x', '{0}{0}', '{{{}}}', '  {}', '[b]{}[/b]', '', '"{}"', '/{}/']
CODE_TEMPLATES = ["'{}'", '{}', '<<{}>>', '$ {}', '{{{}}}']
CODE_BLOCKS = ['~~~\n{}\n~~~\n', '{}', '\n{}', '<pre>\n{}</pre>', '| {} |']
BREAKS = ['{}', '{}{}'.format('{}', ' '), '\\{}', '{}> ', '{}{}'.format('{0}', '{0}'), ' / ']
LINK_REFERENCES = ['[{content}][{link_reference}]', '{content} ({link_reference})', '{link_reference}', '<{content}>^{link_reference}', '{{{content}}}']
LINK_INLINES = [
    ['[{content}]({href})', '[{content}]({href} "{title}")'], ['<{href}>', '<{href}> {title}'], ['{content}: {href}', '{title}, {content}: {href}'],
    ['{content}', '{title}'],
]
IMAGE_REFERENCES = ['[{title}][{link_reference}]', 'image {link_reference}', '{title}', '({title} #{link_reference})']
IMAGE_INLINES = ['![{title}]({href})', '<{href}>', '{title} {href}', '{title}']
NAMES = ('t0', 't1', 't2')


@cached
@st.composite
def rules(draw):
    """
    Settings for all of the inline elements there are. Links and images have a setting of the same
    name, so they have classes of their own.
    """
    out = {}
    for name in NAMES:
        s, a, i = {}, {}, {}
        if draw(ints(0, 3)):
            s['template'] = draw(choice(STYLE_TEMPLATES))
        if draw(BOOL):
            s['inline_template'] = draw(choice(CODE_TEMPLATES))
        if draw(BOOL):
            s['block_template'] = draw(choice(CODE_BLOCKS))
        if draw(ints(0, 3)):
            a['templates'] = {'reference': draw(choice(LINK_REFERENCES)), 'inline': draw(choice(LINK_INLINES))}
        if draw(ints(0, 3)):
            i['templates'] = {'reference': draw(choice(IMAGE_REFERENCES)), 'inline': draw(choice(IMAGE_INLINES))}
        for x in (s, a, i):
            if draw(ints(0, 3)) == 0:
                x['capitalized'] = draw(BOOL)
        b = {'template': draw(choice(BREAKS))} if draw(BOOL) else {}
        for kind, settings in (('s', s), ('a', a), ('i', i), ('b', b)):
            out['.' + kind + name] = {'settings': settings}
    return out


def kind_of(tag):
    return {'a': 'a', 'img': 'i', 'br': 'b'}.get(tag, 's')


@cached
@st.composite
def classed(draw, nodes):
    def visit(ns):
        out = []
        for n in ns:
            if isinstance(n, str):
                out.append(n)
                continue
            n = [n[0], n[1], visit(n[2])]
            if n[0] in gen.STYLES + ['a', 'img', 'br'] and draw(ints(0, 2)):
                n = gen.add_class(n, kind_of(n[0]) + draw(choice(NAMES)))
            out.append(n)
        return out
    return visit(draw(nodes))


@cached
@st.composite
def broken_code(draw):
    """
    Code with line breaks in it, which is put in its other template.
    """
    content = [draw(gen.phrase(max_words=2))] if draw(ints(0, 3)) else []
    for i in range(draw(ints(0, 2))):
        content += [['br', {}, []], draw(gen.phrase(max_words=2))]
    if draw(ints(0, 3)) == 0:
        content.append(['br', {}, []])
    return ['code', {}, content]


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=ints(10, 90)))
    cfg['link_placement'] = draw(choice(['footer', 'inline', 'inline']))
    cfg['image_placement'] = draw(choice(['footer', 'inline', 'inline']))
    cfg['renderers'] = draw(rules())
    ia = dict(links=gen.link(), images=gen.image(), br=True, max_words=5, max_items=4, depth=3)
    blocks = draw(gen.blocks(depth=1, inline_args=ia, max_blocks=3, kinds=['p', 'p', 'h', 'ul', 'ol', 'dl', 'blockquote', 'div']))
    if draw(ints(0, 5)) == 0:
        # The same again and again.
        same = draw(choice([['br', {}, []], ['em', {}, ['x']], ['code', {}, ['x']], ['em', {}, []]]))
        blocks.append(['p', {}, ['a'] + [same] * draw(ints(2, 5)) + ['b']])
    if draw(ints(0, 3)) == 0:
        around = draw(choice(['p', 'p', 'ul li', 'ol li', 'dl dd', 'dl dt', 'h3', 'blockquote p', 'div'])).split()
        node = [around.pop(), {}, gen.merge(['x ', draw(broken_code()), ' y'])]
        while around:
            node = [around.pop(), {}, [node]]
        blocks.insert(0, node)
    if draw(ints(0, 3)) == 0:
        # Without any block around.
        blocks = gen.merge(draw(gen.inline(**ia)))
    return {'cfg': cfg, 'nodes': draw(classed(st.just(blocks)))}


def check(case):
    common.check_model(case)
    n = len([e for e, p in dom.elements(case['nodes']) if e[1].get('class')])
    labels = common.labels_of(case)
    labels.append('elements with templates %d' % min(n, 6))
    return n >= 2, labels


# One in another in another, which comes down to nothing but the templates.

# What is there is kept as it is, but for runs of the white space of HTML.
EDGES = ['', '', '', ' ', '\u00a0', '\u3000', '\x0b', '\x1c', '\x85', '\u2028 ', '.']
IMAGE_EDGES = EDGES + ['\n', '  ', '\t']


@cached
@st.composite
def inner(draw):
    """
    What is inside of all of the others: text, or an image, or (only) line breaks and text.
    """
    text = st.builds(lambda a, b, c: a + b + c, choice(EDGES), gen.phrase(max_words=2, long_words=False, pool=gen.PLAIN, extra=False), choice(EDGES))
    k = draw(ints(0, 5))
    if k < 3:
        return [draw(text)]
    if k == 3:
        return draw(st.lists(st.one_of(st.just(['br', {}, []]), text), min_size=1, max_size=4).map(gen.merge))
    attrs = {'src': '/i.png'}
    if draw(ints(0, 3)):
        attrs['alt'] = draw(choice(IMAGE_EDGES)) + draw(choice(['', 'alt', 'an Alt', 'Image', 'ß'])) + draw(choice(IMAGE_EDGES))
    if draw(BOOL):
        attrs['class'] = 'i' + draw(choice(NAMES))
    return [['img', attrs, []]]


@cached
@st.composite
def chain_cases(draw):
    return {
        'rules': draw(rules()), 'inner': draw(inner()),
        'placements': [draw(choice(['inline', 'footer'])), draw(choice(['inline', 'footer', 'after_block']))],
        'title': draw(choice([None, None, '', 'a title', ' ', '\u00a0', 'x\ny'])),
        'chain': draw(st.lists(st.tuples(choice(gen.STYLES[:-1] + ['a', 'code', 'unknown']), choice(NAMES + (None,))), min_size=1, max_size=5)),
    }


DEFAULTS = {
    'em': '_{}_', 'i': '_{}_', 'strong': '**{}**', 'b': '**{}**', 'u': '_{}_', 'ins': '_{}_', 's': '~~{}~~', 'del': '~~{}~~',
    'span': '{}',
}


def check_chain(case):
    rules, placements, title = case['rules'], case['placements'], case['title']
    chain = []
    seen = set()
    for tag, name in case['chain']:
        if tag not in ('a', 'code') or tag not in seen:
            chain.append((tag, name))
        seen.add(tag)
    numbers = {}
    if placements[0] != 'inline' and 'a' in seen:
        numbers['a'] = 1
    expected = ''
    for n in case['inner']:
        if isinstance(n, str):
            expected += re.sub('[ \t\r\n\f]+', ' ', n)
        elif n[0] == 'br':
            expected += '\n'
        else:
            s = rules['.' + n[1]['class']]['settings'] if 'class' in n[1] else {}
            description = n[1].get('alt') or 'Image'
            if s.get('capitalized'):
                description = description.upper()
            templates = s.get('templates', {'inline': '![{title}]({href})', 'reference': '[{title}][{link_reference}]'})
            if placements[1] == 'inline':
                expected += templates['inline'].format(title=description, href='/i.png')
            else:
                numbers['img'] = len(numbers) + 1
                expected += templates['reference'].format(title=description, link_reference=numbers['img'])
    nodes = case['inner']
    for tag, name in chain:
        s = dict(rules['.' + kind_of(tag) + name]['settings']) if name else {}
        attrs = {'class': kind_of(tag) + name} if name else {}
        if tag == 'a':
            attrs['href'] = '/x'
            if title is not None:
                attrs['title'] = title
        nodes = [[tag, attrs, nodes]]
        if tag == 'unknown':
            continue
        if s.get('capitalized') and tag != 'code':
            expected = expected.upper()
        if tag == 'a':
            t = s.get('templates', {'inline': ['[{content}]({href})', '[{content}]({href} "{title}")'], 'reference': '[{content}][{link_reference}]'})
            if numbers.get('a'):
                expected = t['reference'].format(content=expected, link_reference=1)
            else:
                expected = t['inline'][1 if title else 0].format(content=expected, href='/x', title=title)
        elif tag == 'code' and '\n' in expected:
            expected = s.get('block_template', '```\n{}\n```\n').format(expected)
        elif tag == 'code':
            expected = s.get('inline_template', '`{}`').format(expected)
        else:
            expected = s.get('template', DEFAULTS[tag]).format(expected)
    html = dom.to_html(nodes)
    out = dom.render(html, width=4000, link_placement=placements[0], image_placement=placements[1], renderers=rules, optimise=False)
    if numbers and placements[1] != 'after_block':
        # The entries follow.
        core.expect(out.startswith(expected + '\n'), 'the rendering of {} does not begin with {!r}: {!r}', html, expected, out)
    elif not numbers:
        core.expect_equal(out, expected, 'the rendering of ' + html)
    used = len([1 for t, n in case['chain'] if n])
    return used >= 2, ['chain of %d' % len(case['chain'])]


FACETS = [
    core.Facet('documents', cases, check, quick=3000),
    core.Facet('chains', chain_cases, check_chain, quick=3000),
]
