"""
Which renderer and which settings win when several selectors match.
"""
import re

import core
import css
import dom
import gen
from props import c29_custom
from gen import st, cached, ints, choice, BOOL

ID = 'C06'
RULE = (
    'Random style sheets of 1 to 8 selectors with a renderer, settings, or both, and random trees; '
    'the renderer and the settings in effect on every element have to be those of a cascade by '
    'specificity and then by order. The same for long selectors (many ids, classes and types) that all match, for nested lists with rules for the selectors that have renderers by default, '
    'and documents with settings for those selectors, which have to be the same as with the default renderers named. '
    'Non-trivial: on some element at least 2 rules match, or some of the settings are for an element of the document.'
)

KEYS = ['p', 'q', 'r']
# Nothing at all is a value, too.
VALUES = list(range(1, 9)) + [None, False, 0, '', [], {}]


@cached
@st.composite
def cases(draw):
    nodes = draw(css.element_tree(draw(ints(1, 3)), text=False)) if draw(ints(0, 7)) else draw(css.long_tree(text=False))
    rules = []
    seen = set()
    if draw(ints(0, 5)):
        rules.append([[[{'tag': None, 'parts': []}]], 0, None])
        seen.add('*')
    for i in range(draw(ints(1, 7))):
        g = draw(group_or_simple())
        text = css.write_group(g)
        if text in seen:
            continue
        seen.add(text)
        renderer = draw(choice([None, 1, 2, 3]))
        settings = None
        if renderer is None or draw(BOOL):
            settings = draw(settings_dict())
        rules.insert(draw(ints(1, len(rules))) if rules and rules[0][1] == 0 else len(rules), [g, renderer, settings])
    return {'nodes': nodes, 'rules': rules, 'default': draw(st.one_of(st.none(), settings_dict())), 'derived': draw(choice([0, 1, -1]))}


@cached
@st.composite
def group_or_simple(draw):
    if draw(ints(0, 2)):
        return [[draw(css.compound())]]
    return draw(css.group())


@cached
def settings_dict():
    return st.dictionaries(st.sampled_from(KEYS), st.sampled_from(VALUES), max_size=3)


def make_class(name, base=None):
    base = base or dom.rendering().Renderer

    class Marker(base):
        settings = dict((k, 0) for k in KEYS)

        def render(self, content):
            n = self.tag.attrs['number']
            values = ','.join(repr(self.settings[k]) for k in KEYS)
            return '<{}:{}:{}>{}'.format(n, name, values, content)
    return Marker


def number(nodes, counter):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
        else:
            me = counter[0]
            counter[0] += 1
            out.append([n[0], dict(n[1], number=str(me)), number(n[2], counter)])
    return out


def check(case):
    nodes, rules = number(case['nodes'], [0]), case['rules']
    with core.library():
        classes = [make_class(c) for c in 'ABCDE']
        if case.get('derived'):
            # One derived from another, in either direction.
            for n in (range(1, 4) if case['derived'] > 0 else (2, 1, 0)):
                classes[n] = make_class('ABCDE'[n], classes[n - case['derived']])
    default = case.get('default')
    renderers = {'': classes[4] if default is None else (classes[4], dict(default))}
    for g, r, s in rules:
        cls = None if r is None else classes[r]
        renderers[css.write_group(g)] = cls if s is None else (cls, dict(s))
    out = dom.render_with(dom.to_html(nodes), {'width': 10000}, renderers)
    actual = sorted(
        (int(n), name, values) for n, name, values in re.findall(r'<(\d+):(\w):([^>]*)>', out)
    )
    expected = []
    most = 0
    for i, pos in enumerate(css.positions(nodes)):
        matching = []
        for order, (g, r, s) in enumerate(rules):
            m = css.group_match(g, pos)
            if m is not None:
                matching.append((m, order, r, s))
        matching.sort(key=lambda m: m[:2])
        most = max(most, len(matching))
        name = 'E'
        values = dict((k, 0) for k in KEYS)
        values.update(default or {})
        for m, order, r, s in matching:
            if r is not None:
                name = 'ABCDE'[r]
            values.update(s or {})
        expected.append((i, name, ','.join(repr(values[k]) for k in KEYS)))
    if actual != expected:
        wrong = [(a, e) for a, e in zip(actual, expected) if a != e] or [(len(actual), len(expected))]
        raise core.Violation('with the rules {} in {}: (element, renderer, {}) is {}, not {}'.format(
            [[css.write_group(g), r, s] for g, r, s in rules], dom.to_html(nodes), KEYS, *wrong[0]))
    return most >= 2, ['rules matching one element: %d' % min(most, 5)]


# Specificities that are far apart, or equal in some of their parts: long selectors that match the innermost
# element of a chain of elements.

@cached
@st.composite
def chain_cases(draw):
    chain = []
    for i in range(draw(ints(1, 13))):
        attrs = {'class': draw(choice(['k', 'k m', 'm']))}
        if draw(BOOL):
            attrs['id'] = draw(choice(css.IDS))
        chain.append([draw(choice(css.TAGS)), attrs])
    rules = []
    seen = set()

    def selector_of_chain():
        most = draw(choice([(1, 0, 0), (0, 3, 1), (2, 2, 1), (3, 1, 1), (0, 0, 1), (0, 12, 1), (1, 11, 1), (1, 2, 1)]))
        selector = []
        for n, (tag, attrs) in enumerate(chain):
            last = n == len(chain) - 1
            if not last and (not draw(BOOL) if most != (0, 0, 1) else draw(ints(0, 9)) == 0):
                continue
            parts = []
            if 'id' in attrs:
                parts += [['id', attrs['id']]] * draw(ints(0, most[0]))
            classes = attrs['class'].split()
            parts += [['class', draw(choice(classes))] for i in range(draw(ints(0, most[1])))]
            selector.append({'tag': tag if most[2] and draw(ints(0, 3)) else None, 'parts': parts})
            if not last:
                selector.append(' ')
        return selector

    for i in range(draw(st.one_of(ints(2, 6), ints(2, 6), ints(10, 30)))):
        # The most specific one of a list counts, wherever it is.
        group = [selector_of_chain() for j in range(draw(choice([1, 1, 2, 3])))]
        text = css.write_group(group)
        if text not in seen:
            seen.add(text)
            renderer = draw(choice([None, 0, 1, 2, 3]))
            rules.append([group, renderer, draw(settings_dict()) if renderer is None or draw(BOOL) else None])
    nodes = []
    for tag, attrs in chain[::-1]:
        nodes = [[tag, attrs, nodes]]
    return {'nodes': nodes, 'rules': rules, 'derived': draw(choice([0, 1, -1]))}


# Selectors that have a renderer by default are selectors like any other.

def simple(tag, *parts):
    return {'tag': tag, 'parts': list(parts)}


FIRST = ['pseudo', 'first-child']
LIST_SELECTORS = [
    [simple('li')], [simple('ol')], [simple('ul')], [simple('ol'), '>', simple('li')], [simple('ol'), ' ', simple('li')],
    [simple('ul'), '>', simple('li')], [simple('li'), '+', simple('li')], [simple('li', FIRST)], [simple('li', ['class', 'k'])],
    [simple('ol', ['class', 'k']), '>', simple('li')], [simple('li'), ' ', simple('li')], [simple(None)], [simple(None, FIRST)],
    [simple('ol'), '>', simple('li', FIRST)], [simple(None, ['class', 'k'])], [simple('li'), '>', simple('ol')],
]


@cached
@st.composite
def lists(draw, depth):
    out = []
    for i in range(draw(ints(1, 2))):
        items = []
        for j in range(draw(ints(1, 3))):
            content = draw(lists(depth - 1)) if depth and draw(BOOL) else ['t']
            items.append(['li', {'class': 'k'} if draw(ints(0, 2)) == 0 else {}, content])
        out.append([draw(choice(['ol', 'ol', 'ul'])), {'class': 'k'} if draw(ints(0, 2)) == 0 else {}, items])
    return out


@cached
@st.composite
def list_cases(draw):
    rules = []
    # The first four are those that have a renderer by default.
    for i in draw(st.permutations(range(len(LIST_SELECTORS)))):
        if i < 4 or draw(ints(0, 2)) == 0:
            renderer = draw(choice([0, 1, 2, 3] if i < 4 else [None, 0, 1, 2, 3]))
            settings = draw(settings_dict()) if renderer is None or draw(BOOL) else None
            rules.append([[LIST_SELECTORS[i]], renderer, settings])
    return {'nodes': draw(lists(2)), 'rules': rules}


# Settings for one of those, without a class, are for the renderer it has by default.

DEFAULTS = dict((s, c) for s, c in c29_custom.CLASSES.items() if s)
LINK_DEFAULTS = {'a': 'ExtractedLinkRenderer', 'img': 'ExtractedImageLinkRenderer'}
BLOCKS = ('p', 'li', 'ol > li', 'dd', 'dt', 'ul', 'ol', 'dl', 'div', 'blockquote', 'pre', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6')


@cached
@st.composite
def settings_cases(draw):
    cfg = draw(gen.page())
    cfg['link_placement'] = draw(choice(['inline', 'footer', 'after_block']))
    cfg['image_placement'] = draw(choice(['inline', 'footer']))
    ia = dict(links=gen.link(), images=gen.image(), br=True, styles=gen.STYLES if cfg['link_placement'] != 'after_block' else ['code'])
    nodes = draw(gen.blocks(depth=2, inline_args=ia, kinds=['p', 'p', 'h', 'ul', 'ol', 'dl', 'blockquote', 'div', 'pre']))
    there = sorted(dom.tags(nodes)) * 3 + sorted(DEFAULTS)
    rules = {}
    for i in range(draw(ints(1, 5))):
        selector = draw(choice(there))
        if selector == 'li' and draw(BOOL):
            selector = 'ol > li'
        if selector not in DEFAULTS:
            continue
        settings = dict(draw(gen.box())) if selector in BLOCKS else {}
        if DEFAULTS[selector] in ('ParagraphRenderer', 'ListItemRenderer', 'DefinitionListItemRenderer'):
            settings.update(draw(gen.wrap_options()))
        elif DEFAULTS[selector] in ('EmRenderer', 'StrongRenderer', 'InlineRenderer', 'StrikethroughRenderer'):
            settings['template'] = draw(choice(['<{}>', '{}', '={}=']))
        rules[selector] = {'settings': settings}
    entries = {}
    for selector in ('a', 'img'):
        if draw(BOOL):
            entries[selector] = {'settings': dict(draw(gen.box()), max_link_description=draw(choice([3, 10, 40])))}
    return {'cfg': cfg, 'rules': rules, 'entries': entries, 'nodes': nodes}


def check_settings(case):
    html = dom.to_html(case['nodes'])

    def rendered(named):
        out = []
        for rules, classes in ((case['rules'], DEFAULTS), (case['entries'], LINK_DEFAULTS)):
            out.append(dict((s, dict(r, **({'class': classes[s]} if named else {}))) for s, r in rules.items()))
        return dom.render(html, renderers=out[0], extracted_link_renderers=out[1], **case['cfg'])
    core.expect_equal(rendered(False), rendered(True), 'settings without the class of the default renderers')
    used = len([s for s in case['rules'] if s.split()[-1] in dom.tags(case['nodes']) and case['rules'][s]['settings']])
    return used >= 1, ['selectors that are used: %d' % min(used, 4)]


FACETS = [
    core.Facet('cascade', cases, check, quick=6000),
    core.Facet('long selectors', chain_cases, check, quick=1500),
    core.Facet('selectors of defaults', list_cases, check, quick=2000),
    core.Facet('settings of defaults', settings_cases, check_settings, quick=2000),
]
