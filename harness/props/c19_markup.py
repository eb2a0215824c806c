"""
Different ways to write the same document.
"""
import html
import re

import core
import common
import dom
import gen
from props import c01_conservation as wild
from gen import st, cached, ints, choice, BOOL

ID = 'C19'
RULE = (
    'Random trees of any elements in one another, written plainly, and with random tag and attribute case, '
    'quotes, order and spacing of attributes and classes, any character as any kind of character reference, comments, '
    'declarations and processing instructions in between, slashes and end tags for empty elements, end tags '
    'for elements that are not open, and no end tags at the end. Both are rendered the same. Non-trivial: '
    'at least 4 of these in at least 3 kinds.'
)
ASSUMPTIONS = ['end tags for elements that are not open name one that is open nowhere around']

EXTRA = [
    '<!-- -->', '<!---->', '<!-- <p>not here</p> -->', '<!--\n-->', '<?php echo 1 ?>', '<?x?>', '<!-- & -- -->', '<!ELEMENT x>',
]
STRAY = ['</q>', '</article-x>', '</Q>', '</font >', '</abbr>', '</li-x>']
STRAY_VOID = ['</br>', '</img>', '</hr>', '</wbr>', '</input>', '</BR>']


ATTRIBUTES = {
    'id': ['one', 'two', 'Three'], 'class': ['k', 'k m', 'm', 'M'], 'lang': ['en', 'en-GB', 'de'],
    'data-x': ['', 'a b', '"', "it's", '<&>', '&amp;', 'é', None], 'hidden': [None, ''], 'title': ['t', 'a title', 'x > y'],
}
RENDERERS = dict(
    (selector, {'class': 'InlineRenderer', 'settings': {'template': '%d({})' % i}}) for i, selector in enumerate([
        '#one', '#two', '#Three', '.k', '.m', '.M', '[lang|=en]', '[data-x="a b"]', '[data-x=\'"\']', '[data-x="it\'s"]',
        '[data-x="<&>"]', '[data-x="&amp;"]', '[data-x="é"]', '[hidden]', 'em[title^=a]',
    ])
)


def attributed(nodes):
    return st.lists(st.tuples(st.booleans(), st.permutations(list(ATTRIBUTES)), ints(0, 4), ints(0, 41)), min_size=1, max_size=8).map(
        lambda choices: with_attributes(nodes, choices, [0]))


def with_attributes(nodes, choices, at):
    out = []
    for n in nodes:
        if isinstance(n, str) or n[0] == '!--':
            out.append(n)
            continue
        some, names, count, value = choices[at[0] % len(choices)]
        at[0] += 1
        attrs = dict(n[1])
        if some:
            for name in names[:count]:
                values = ATTRIBUTES[name]
                attrs.setdefault(name, values[value % len(values)])
        out.append([n[0], attrs, with_attributes(n[2], choices, at)])
    return out


@cached
@st.composite
def cases(draw):
    case = draw(wild.cases())
    cfg, nodes = case['cfg'], case['nodes']
    if draw(BOOL):
        # What the attributes of an element are for shows in the output.
        nodes = draw(attributed(nodes))
        cfg = dict(cfg, renderers=RENDERERS)
    return {
        'cfg': cfg, 'nodes': nodes, 'noise': draw(st.lists(ints(0, 5039), min_size=2, max_size=60)),
        'doctype': draw(choice(['', '<!DOCTYPE html>', '<!doctype HTML PUBLIC "-//W3C//DTD HTML 4.01//EN">'])),
        'open_end': draw(BOOL),
    }


class Writer:
    def __init__(self, numbers):
        self.numbers = numbers
        self.at = 0
        self.kinds = {}

    def next(self, n):
        v = self.numbers[self.at % len(self.numbers)]
        self.at += 1
        # The same number is not the same choice everywhere.
        return (v // (1 + self.at // len(self.numbers) % 7)) % n

    def used(self, kind):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    def name(self, name):
        k = self.next(4)
        if k == 0:
            self.used('case')
            return name.upper()
        if k == 1:
            self.used('case')
            return name.capitalize()
        return name

    def reference(self, c):
        k = self.next(3)
        self.used('reference')
        named = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', 'é': '&eacute;', '©': '&copy;'}
        if k == 0 and c in named:
            return named[c]
        # HTML gives the numbers of some control characters another meaning
        # (&#133; is an ellipsis), so those can only be written as themselves.
        written = '&#x%X;' % ord(c) if k == 1 else '&#%d;' % ord(c)
        return written if html.unescape(written) == c else c

    def characters(self, text, always):
        return ''.join(self.reference(c) if c in always or self.next(9) == 0 else c for c in text)

    def text(self, text):
        out = self.characters(text, '&<>')
        if len(text) > 1 and self.next(5) == 0:
            self.used('comment in text')
            # Anywhere but in a reference.
            places = [m.start() for m in re.finditer('[a-z ](?![^&]*;)', out)]
            if places:
                at = places[self.next(len(places))]
                out = out[:at] + EXTRA[self.next(len(EXTRA))] + out[at:]
        return out

    def attributes(self, attrs):
        items = list(attrs.items())
        if len(items) > 1 and self.next(2):
            self.used('order')
            at = self.next(len(items))
            items = items[at:] + items[:at]
            if self.next(2):
                items.reverse()
        out = ''
        for k, v in items:
            out += [' ', '  ', '\n', '\t'][self.next(4)]
            out += self.name(k)
            if v is None:
                continue
            if k == 'class':
                v = self.classes(v)
            if v == '' and k in ('title', 'alt', 'hidden', 'data-x') and self.next(2):
                self.used('no value')
                continue
            eq = ['=', '=', ' = '][self.next(3)]
            q = self.next(3)
            if q == 0 and re.fullmatch(r'[\w.:-]+', v):
                self.used('no quotes')
                out += eq + v
            elif q == 1:
                self.used('single quotes')
                out += eq + "'" + self.characters(v, '&<>"\'') + "'"
            else:
                out += eq + '"' + self.characters(v, '&<>"\'') + '"'
        if self.next(4) == 0:
            out += ' '
        return out

    def classes(self, v):
        if self.next(3):
            return v
        self.used('space between classes')
        spaces = [' ', '\t', '\n', '  ', '\f', '\n   ', '\r\n']
        out = [['', '', ' ', '\n'][self.next(4)]]
        for name in v.split():
            out += [name, spaces[self.next(len(spaces))]]
        if self.next(2):
            out.pop()
        return ''.join(out)

    def extra(self):
        k = self.next(8)
        if k == 0:
            self.used('comment')
            return EXTRA[self.next(len(EXTRA))]
        if k == 1:
            self.used('stray end tag')
            return STRAY[self.next(len(STRAY))]
        if k == 2:
            self.used('stray end tag of an empty element')
            return STRAY_VOID[self.next(len(STRAY_VOID))]
        return ''

    def write(self, nodes):
        out = ''
        for i, n in enumerate(nodes):
            if isinstance(n, str):
                # Only a comment does not separate text from the text before it.
                out += self.text(n)
                continue
            tag, attrs, children = n
            out += self.extra()
            if tag == '!--':
                continue
            out += '<' + self.name(tag) + self.attributes(attrs)
            if out[-1] not in '"\' ' and attrs:
                # A slash would be part of a value without quotes.
                out += ' '
            if tag in dom.VOID:
                k = self.next(4)
                if k:
                    self.used('empty element')
                out += ['>', '/>', ' />', '></{}>'.format(tag)][k]
                continue
            out += '>' + self.write(children)
            if not (children and isinstance(children[-1], str)):
                out += self.extra()
            out += '</' + self.name(tag) + ['>', '>', ' >', '\n>'][self.next(4)]
        return out


def merged(nodes):
    """
    Without comments, which do not separate text.
    """
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
        elif n[0] != '!--':
            out.append([n[0], n[1], merged(n[2])])
    return gen.merge(out)


def check(case):
    cfg, nodes = case['cfg'], case['nodes']
    w = Writer(case['noise'])
    other = case['doctype'] + w.write(merged(nodes))
    if case['open_end']:
        m = re.search(r'(</[A-Za-z0-9-]+\s*>)+$', other)
        before = other[:m.start()] if m else ''
        if m and not before[-1:].isspace() and not before.endswith(';'):
            w.used('no end tags at the end')
            other = before
    expected = dom.render(dom.to_html(nodes), **cfg)
    actual = dom.render(other, **cfg)
    core.expect_equal(actual, expected, 'the rendering of {!r}'.format(other))
    total = sum(w.kinds.values())
    return total >= 4 and len(w.kinds) >= 3, sorted(w.kinds)


FACETS = [core.Facet('spellings', cases, check, quick=2500)]
