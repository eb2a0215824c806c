"""
Which elements a selector matches.
"""
import re

import core
import css
import dom
from gen import st, cached, ints, choice, BOOL

ID = 'C05'
RULE = (
    'Random trees of elements with attributes, ids and classes, interleaved with text and comments, '
    'and random groups of selectors (compounds with classes, ids, attribute operators, first/last/nth '
    'child and negation, joined by all four combinators, and names in any case), and elements with random values of an attribute. A renderer registered for the selector marks '
    'the elements it is used for, which have to be those that match by the CSS specification. '
    'Non-trivial: at least 2 elements, of which some match or the selector is a combination.'
)


# The case of the names in the selector.
NAMES = choice(['lower'] * 6 + ['upper', 'title'])


@cached
@st.composite
def cases(draw):
    nodes = draw(css.element_tree(draw(ints(1, 4)))) if draw(ints(0, 5)) else draw(css.long_tree())
    return {'nodes': nodes, 'selector': draw(css.group()), 'names': draw(NAMES), 'open': draw(ENDS)}


# Whether the last elements have their end tags.
ENDS = st.integers(0, 3).map(lambda n: n == 0)


def number(nodes, counter):
    """
    Every element starts with a text that identifies it.
    """
    out = []
    for n in nodes:
        if isinstance(n, str) or n[0] == '!--':
            out.append(n)
        else:
            me = counter[0]
            counter[0] += 1
            out.append([n[0], n[1], ['{};'.format(me)] + number(n[2], counter)])
    return out


def check(case):
    nodes, group = case['nodes'], case['selector']
    numbered = number(nodes, [0])
    selector = css.write_group(css.recase(group, case.get('names')))
    html = dom.to_html(numbered)
    if case.get('open'):
        html = re.sub('(</[a-z0-9]+>)+$', '', html)
    out = dom.render(html, width=10000, renderers={
        selector: {'class': 'InlineRenderer', 'settings': {'template': '<{}>'}},
    })
    matched = sorted(int(n) for n in re.findall(r'<(\d+);', out))
    everything = list(css.positions(nodes))
    expected = [i for i, pos in enumerate(everything) if css.group_match(group, pos) is not None]
    if matched != expected:
        raise core.Violation('{!r} in {} matches the elements {}, not {}'.format(
            selector, html, matched, expected))
    labels = ['matched none' if not expected else 'matched all' if len(expected) == len(everything) else 'matched some']
    for s in group:
        labels.extend('combinator %r' % c for c in s[1::2])
        labels.extend(p[0] for c in s[::2] for p in c['parts'])
    interesting = bool(expected) or len(group[0]) > 1
    return len(everything) >= 2 and interesting, labels


OPERATORS = css.OPERATORS[1:]


# Selectors made from an element of the tree, so that they are likely to match.

@cached
@st.composite
def aimed_cases(draw):
    nodes = draw(css.element_tree(draw(ints(2, 4)))) if draw(ints(0, 3)) else draw(css.long_tree())
    everything = list(css.positions(nodes))
    if not everything:
        return {'nodes': nodes, 'selector': draw(css.group())}
    pos = everything[draw(ints(0, len(everything) - 1))]
    selector = [draw(aimed_compound(pos))]
    for i in range(draw(ints(0, 3))):
        siblings, at = pos[-1]
        ways = []
        if at > 0:
            ways += ['+', '~']
        if len(pos) > 1:
            ways += ['>', ' ']
        if not ways:
            break
        way = draw(choice(ways))
        if way == '+':
            pos = pos[:-1] + ((siblings, at - 1),)
        elif way == '~':
            pos = pos[:-1] + ((siblings, draw(ints(0, at - 1))),)
        elif way == '>':
            pos = pos[:-1]
        else:
            pos = pos[:draw(ints(1, len(pos) - 1))]
        selector = [draw(aimed_compound(pos)), way] + selector
    if draw(ints(0, 4)) == 0:
        # Or rather, nearly matches.
        n = draw(ints(0, len(selector) // 2)) * 2
        selector[n] = draw(css.compound())
    return {'nodes': nodes, 'selector': [selector], 'names': draw(NAMES), 'open': draw(ENDS)}


@st.composite
def aimed_compound(draw, pos):
    siblings, at = pos[-1]
    tag, attrs, children = siblings[at]
    parts = [['not', {'tag': 'q', 'parts': []}], ['nth', 'nth-child', str(at + 1), 0, at + 1],
             ['nth', 'nth-last-child', str(len(siblings) - at), 0, len(siblings) - at]]
    if at == 0:
        parts.append(['pseudo', 'first-child'])
    if at == len(siblings) - 1:
        parts.append(['pseudo', 'last-child'])
    for name in (attrs.get('class') or '').split():
        parts.append(['class', name])
    if attrs.get('id'):
        parts.append(['id', attrs['id']])
    for name in attrs:
        v = css.attribute(attrs, name)
        parts.append(['attr', name, 'exists', ''])
        parts.append(['attr', name, '=', v])
        for w in v.split():
            parts.append(['attr', name, '~=', w])
            parts.append(['attr', name, '~=', w[:-1]])
        parts.append(['attr', name, '|=', v.split('-')[0]])
        parts.append(['attr', name, '|=', v[:2]])
        for n in range(1, len(v) + 1):
            parts.append(['attr', name, '^=', v[:n]])
            parts.append(['attr', name, '$=', v[-n:]])
            parts.append(['attr', name, '*=', v[n - 1:]])
            # These rather do not match.
            parts.append(['attr', name, '$=', v[:n]])
            parts.append(['attr', name, '^=', v[-n:]])
        for w in (v.strip(), v.strip('/.# -'), v.upper(), v.lower(), v + ' ', ' '.join(v.split())):
            parts.append(['attr', name, draw(choice(OPERATORS)), w])
    # And the opposite of all of them.
    parts += [['not', {'tag': None, 'parts': [p]}] for p in parts if p[0] != 'not']
    return draw(st.tuples(st.sampled_from([None, tag]), st.lists(st.sampled_from(parts), max_size=2)).map(
        lambda t: {'tag': t[0], 'parts': t[1]}))


# Many values of an attribute, and an operator.

@cached
def value():
    return st.one_of(st.text('ab-', max_size=4), st.text("ab-/. A_:#'é0", max_size=4), st.text("ab-/.?&=+%;#~|^$*!@,()[]{}<>\\\"", max_size=4))


@cached
@st.composite
def attribute_cases(draw):
    name = draw(choice(['lang', 'data-a', 'title', 'id', 'href', 'n', 'class']))
    nodes = []
    for i in range(draw(ints(2, 10))):
        v = draw(value())
        if name == 'class' and draw(BOOL):
            v = ' '.join(v)
        nodes.append([draw(choice(css.TAGS)), {name: v}, []])
    v = nodes[draw(ints(0, len(nodes) - 1))][1][name]
    k = draw(ints(0, 4))
    start, end = sorted([draw(ints(0, len(v))), draw(ints(0, len(v)))])
    v = [v, v[start:], v[:end], v[start:end], draw(value())][k]
    return {'nodes': nodes, 'selector': [[{'tag': None, 'parts': [['attr', name, draw(choice(OPERATORS)), v]]}]]}


FACETS = [
    core.Facet('attributes', attribute_cases, check, quick=3000),
    core.Facet('any selector', cases, check, quick=4500),
    core.Facet('aimed selector', aimed_cases, check, quick=4500),
]
