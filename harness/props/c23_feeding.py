"""
It does not matter in how many pieces a document is fed, nor how it is spelt.
"""
import itertools
import re
from html import escape

import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C23'
RULE = (
    'Random documents, with entities, comments, preformatted text and unusual white space, fed whole, and '
    'in random pieces that are split anywhere: in tags, attributes, entities, words, white space and '
    'comments, down to single characters. The output is the same. Non-trivial: at least 4 pieces, of '
    'which one ends in the middle of a tag or of text. Second, documents spelt in two ways: with names in another '
    'case, attributes with other or no quotes, character references, white space in tags, and comments, '
    'instructions and declarations in between. Third, text in pieces with any kind of white space at their ends and comments in between. '
    'Non-trivial: at least 3 elements, and not the same source, or a piece of nothing but white space.'
)


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=ints(15, 80)))
    cfg['link_placement'] = draw(choice(['footer', 'inline', 'after_block']))
    cfg['image_placement'] = draw(choice(['footer', 'inline']))
    if draw(ints(0, 4)) == 0:
        cfg.update(output_format='gophermap', gopher_host='gopher.example', link_placement='footer')
    ia = dict(links=gen.link(), images=gen.image(), br=True, max_words=6)
    nodes = draw(gen.blocks(depth=2, inline_args=ia, max_blocks=3, items=draw(BOOL)))
    source = dom.to_html(nodes)
    entities = draw(st.lists(ints(0, 999), max_size=8))
    # Some characters are written as entities, some spaces as line breaks.
    for n in entities:
        places = [m.start() for m in re.finditer(r'[ .,a-z](?=[^<>]*<)', source)]
        if not places:
            break
        at = places[n % len(places)]
        c = source[at]
        inside = source.rfind('&', 0, at) > source.rfind(';', 0, at)
        if inside:
            continue
        new = '\n' if c == ' ' and n % 2 else '\r\n  ' if c == ' ' else ['&#%d;' % ord(c), '&#x%x;' % ord(c), c + '<!-- - -->', c][n % 4]
        source = source[:at] + new + source[at + 1:]
    if draw(ints(0, 3)) == 0:
        cuts = list(range(1, len(source)))
    else:
        cuts = sorted(set(draw(st.lists(ints(0, 9999), min_size=1, max_size=20))))
    return {'cfg': cfg, 'source': source, 'cuts': cuts if len(cuts) < 25 else 'every'}


def check(case):
    cfg, source = case['cfg'], case['source']
    if case['cuts'] == 'every':
        cuts = list(range(1, len(source)))
    else:
        cuts = sorted(set(c % len(source) for c in case['cuts'])) if source else []
    pieces = [source[a:b] for a, b in zip([0] + cuts, cuts + [len(source)])]
    pieces = [p for p in pieces if p]
    expected = dom.render(source, **cfg)
    with core.library():
        parser = dom.make_parser(cfg)
        for piece in pieces:
            parser.feed(piece)
        parser.close()
        actual = parser.parsed
    core.expect_equal(actual, expected, 'fed as {!r}'.format(pieces))
    middle = any(p[-1] != '>' for p in pieces[:-1])
    return len(pieces) >= 4 and middle, ['pieces %d' % min(len(pieces), 20)]


# The same document, written in another way.

@cached
@st.composite
def spelling_cases(draw):
    cfg = draw(gen.page(widths=ints(15, 80)))
    cfg['link_placement'] = draw(choice(['footer', 'inline', 'after_block']))
    cfg['image_placement'] = draw(choice(['footer', 'inline']))
    cfg['renderers'] = {
        '.c0': {'settings': {'capitalized': True, 'template': '<{}>'}}, '#i p': {'settings': {'justification': 'right'}},
        '[title] , [href^=http]': {'settings': {'capitalized': True}},
    }
    ia = dict(links=gen.link(), images=gen.image(), br=True, max_words=5)
    kinds = ('p', 'blockquote', 'ul', 'ol', 'dl', 'pre', 'h1', 'h2', 'h4')
    blocks = gen.blocks(depth=2, inline_args=ia, max_blocks=3, items=draw(BOOL))
    if draw(BOOL):
        blocks = gen.with_classes(blocks, kinds=kinds)
    nodes = draw(blocks)
    if draw(ints(0, 3)) == 0:
        nodes = [['div', {'id': 'i'}, nodes]]
    numbers = draw(st.lists(st.integers(0, 9999), min_size=6, max_size=40))
    return {'cfg': cfg, 'nodes': nodes, 'numbers': numbers}


def spell_name(name, n):
    return [name, name, name.upper(), name.capitalize(), ''.join(c.upper() if i % 2 else c for i, c in enumerate(name))][n % 5]


def spell_value(value, numbers):
    k = next(numbers)
    if k % 4 == 0 and value and re.fullmatch('[-a-zA-Z0-9_.:/]+', value) and not value.endswith('/'):
        return value
    escaped = spell_text(value, numbers, False).replace('"', '&quot;').replace("'", ['&#39;', '&apos;'][k % 2])
    return ['"{}"', "'{}'"][k % 2].format(escaped)


def spell_text(text, numbers, comments=True):
    """
    Any character may be a reference, and there may be comments anywhere in between.
    """
    out = []
    every = next(numbers) % 9 + 1
    for i, c in enumerate(text):
        if c in '&<>':
            out.append({'&': '&amp;', '<': '&lt;', '>': '&gt;'}[c])
        elif (i + 1) % every or c in '\x85\xa0' or not c.isprintable():
            out.append(c)
            continue
        else:
            k = next(numbers)
            out.append([c, '&#%d;' % ord(c), '&#x%x;' % ord(c), '&#X%X;' % ord(c), c][k % 5])
        if comments and next(numbers) % (3 if c.isspace() else 11) == 0:
            out.append(['<!-- -->', '<!---->', '<!-- <p> & "-->', '<?php echo "" ?>', '<!-- a\n\n b -->'][next(numbers) % 5])
    return ''.join(out)


def spell(nodes, numbers):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(spell_text(n, numbers))
            continue
        tag, attrs, children = n
        parts = ['<' + spell_name(tag, next(numbers))]
        for k, v in attrs.items():
            space = [' ', ' ', '  ', '\n', '\t'][next(numbers) % 5]
            if v is None:
                parts.append(space + spell_name(k, next(numbers)))
            else:
                equals = ['=', '=', ' = ', '= '][next(numbers) % 4]
                parts.append(space + spell_name(k, next(numbers)) + equals + spell_value(v, numbers))
        k = next(numbers)
        if tag in dom.VOID:
            # A slash right after a value without quotes would be part of it.
            out.append(''.join(parts) + ['>', ' />', ' >', ' / >'][k % 4])
        else:
            out.append(''.join(parts) + ['>', '>', ' >', '\n>'][k % 4])
            out.append(spell(children, numbers))
            out.append('</{}{}>'.format(spell_name(tag, next(numbers)), ['', '', ' ', '\n'][k % 4]))
    return ''.join(out)


def check_spelling(case):
    cfg, nodes = case['cfg'], case['nodes']
    plain = dom.to_html(nodes)
    source = spell(nodes, itertools.cycle(case['numbers']))
    if case['numbers'][0] % 3 == 0:
        source = ['<!DOCTYPE html>', '<!doctype HTML PUBLIC "-//W3C//DTD HTML 4.01//EN">', '<?xml version="1.0"?>'][case['numbers'][1] % 3] + source
    core.expect_equal(dom.render(source, **cfg), dom.render(plain, **cfg), 'written as {!r}'.format(source))
    return len(dom.elements(nodes)) >= 3 and source != plain, common.labels_of(case)


# Text in pieces, each of which may have anything at its ends.

@cached
@st.composite
def text_cases(draw):
    text = st.text(alphabet='ab \n\t\xa0\u3000\x85\u2028\u200b\ufeff\x0b\x0c\x1c', min_size=1, max_size=3)
    pieces = draw(st.lists(st.one_of(text, text, text, choice(['&', 'amp;', 'lt;', '#65;', '<', '<b>'])), min_size=2, max_size=8))
    return {
        'pieces': pieces, 'between': draw(st.lists(choice(['', '<!-- -->', '<!---->', '<?x?>', '</q>', '<!x>']), min_size=len(pieces), max_size=len(pieces))),
        'around': draw(choice(['p', 'p', 'pre', 'div', 'li', 'em', 'h1', 'blockquote', '', 'a href="/x"'])), 'feeds': draw(BOOL),
        'before': draw(choice(['', '<b>x</b>', '<br>'])), 'after': draw(choice(['', '<b>x</b>', '<br>', '<p>'])),
    }


def check_text(case):
    tag = case['around']
    start, end = ('<{}>'.format(tag), '</{}>'.format(tag.split()[0])) if tag else ('', '')
    start, end = start + case['before'], case['after'] + (end if case['after'] != '<p>' else '')
    whole = dom.render(start + ''.join(escape(p) for p in case['pieces']) + end)
    # What looks like markup is text.
    pieces = [escape(p) for p in case['pieces']]
    written = [p + b for p, b in zip(pieces, case['between'])]
    with core.library():
        parser = dom.make_parser({})
        for piece in [start] + (written if case['feeds'] else [''.join(written)]) + [end]:
            parser.feed(piece)
        parser.close()
        actual = parser.parsed
    core.expect_equal(actual, whole, 'written as {!r}'.format(written))
    return any(not p.strip() for p in case['pieces']), ['in ' + (tag or 'nothing'), 'pieces %d' % len(case['pieces'])]


FACETS = [
    core.Facet('text', text_cases, check_text, quick=2000),
    core.Facet('pieces', cases, check, quick=3000),
    core.Facet('spellings', spelling_cases, check_spelling, quick=2000),
]
