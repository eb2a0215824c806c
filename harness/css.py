"""
Selectors as JSON-able trees: how to write them, and what they mean according to the
CSS specification (https://www.w3.org/TR/selectors-3/).

A compound selector is {"tag": name or null, "parts": [...]}, with parts
["class", name], ["id", name], ["attr", name, operator, value], ["pseudo", name],
["nth", name, text, a, b] and ["not", compound].  A complex selector is a list
[compound, combinator, compound, ...].  A group is a list of complex selectors.
"""
from gen import st, cached, ints, choice, BOOL

TAGS = ['x', 'y', 'z', 'x-1']
CLASSES = ['k', 'k', 'm', 'm', 'n-o', 'K']
IDS = ['i', 'i', 'j', 'j', 'I', '12', '0']
NAMES = ['data-a', 'lang', 'class', 'id', 'title', 'n']
VALUES = ['', 'a', 'ab', 'abc', 'a b', 'en', 'en-GB', 'k', 'k m', 'b', '-', 'a-b', 'A', '0', "it's", 'é', 'a/', '/a', 'a.', ' a', 'a ',
          'AB', '#a', 'en-', '-a', 'enx', 'en_x', 'ab ab', 'a,b', '10', 'a"b', '*', 'x.y', 'a  b', 'a?b', '?b', '&', 'a&b=c;d', '\\', 'a+b%20', '(a)', '[b]', '{}', '>', '<a', '\u00a0', 'ß', 'É', '~', '|', '$', '^a']
OPERATORS = ['exists', '=', '~=', '|=', '^=', '$=', '*=']


@cached
@st.composite
def nth(draw):
    name = draw(choice(['nth-child', 'nth-last-child']))
    k = draw(ints(0, 9))
    if k == 0:
        return ['nth', name, 'odd', 2, 1]
    if k == 1:
        return ['nth', name, 'even', 2, 0]
    b = draw(st.one_of(ints(-2, 6), ints(-2, 6), ints(-2, 6), ints(-20, 20)))
    if k < 5:
        return ['nth', name, str(b), 0, b]
    a = draw(st.one_of(ints(-3, 4), ints(-3, 4), ints(-3, 4), ints(-12, 12)))
    if k == 5:
        return ['nth', name, {1: 'n', -1: '-n'}.get(a, '%dn' % a), a, 0]
    text = {1: 'n', -1: '-n'}.get(a, '%dn' % a)
    space = draw(choice(['', ' ']))
    text += '{}{}{}{}'.format(space, '+' if b >= 0 else '-', space, abs(b))
    return ['nth', name, text, a, b]


@cached
@st.composite
def part(draw, negation=True):
    k = draw(ints(0, 8 if negation else 6))
    if k == 0:
        return ['id', draw(choice(IDS))]
    if k <= 2:
        return ['class', draw(choice(CLASSES))]
    if k <= 3:
        return ['attr', draw(choice(NAMES)), draw(choice(OPERATORS)), draw(choice(VALUES))]
    if k <= 4:
        return ['pseudo', draw(choice(['first-child', 'last-child']))]
    if k <= 6:
        return draw(nth())
    p = draw(part(False))
    if draw(ints(0, 3)) == 0:
        return ['not', {'tag': draw(choice(TAGS)), 'parts': []}]
    return ['not', {'tag': None, 'parts': [p]}]


@cached
@st.composite
def compound(draw):
    tag = draw(choice([None] + TAGS))
    parts = draw(st.lists(part(), max_size=2))
    return {'tag': tag, 'parts': parts}


@cached
@st.composite
def complex_selector(draw):
    out = [draw(compound())]
    for i in range(draw(choice([0, 0, 1, 1, 2, 3]))):
        out.append(draw(choice([' ', ' ', '>', '+', '~'])))
        out.append(draw(compound()))
    k = draw(ints(0, 24))
    if k == 0:
        # Not supported, so they match nothing.
        out[-1] = {'tag': out[-1]['tag'], 'parts': out[-1]['parts'] + [['element', 'before']]}
    elif k == 1:
        out[-1] = {'tag': out[-1]['tag'], 'parts': out[-1]['parts'] + [['pseudo', 'hover']]}
    return out


@cached
@st.composite
def group(draw):
    return draw(st.lists(complex_selector(), min_size=1, max_size=draw(choice([1, 1, 3]))))


def write_string(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def write_identifier(name):
    if name[:1].isdigit():
        # Not the start of an identifier, unless it is escaped.
        return '\\{:x} {}'.format(ord(name[0]), name[1:])
    return name


def write_compound(c):
    out = c['tag'] or ''
    for p in c['parts']:
        if p[0] == 'class':
            out += '.' + p[1]
        elif p[0] == 'id':
            out += '#' + write_identifier(p[1])
        elif p[0] == 'attr':
            if p[2] == 'exists':
                out += '[' + p[1] + ']'
            else:
                out += '[' + p[1] + p[2] + write_string(p[3]) + ']'
        elif p[0] == 'pseudo':
            out += ':' + p[1]
        elif p[0] == 'element':
            out += '::' + p[1]
        elif p[0] == 'nth':
            out += ':' + p[1] + '(' + p[2] + ')'
        else:
            out += ':not(' + write_compound(p[1]) + ')'
    return out or '*'


def write_complex(s):
    out = ''
    for i, c in enumerate(s):
        if i % 2:
            out += c if c == ' ' else ' ' + c + ' '
        else:
            out += write_compound(c)
    return out


def write_group(g):
    return ', '.join(write_complex(s) for s in g)


def recase(group, how):
    """
    The same group of selectors, with names in another case.
    """
    def change(name):
        return {'upper': name.upper(), 'title': name.title()}.get(how, name) if name else name

    def compound(c):
        parts = []
        for p in c['parts']:
            if p[0] == 'not':
                p = ['not', compound(p[1])]
            elif p[0] == 'attr':
                p = ['attr', change(p[1])] + p[2:]
            elif p[0] in ('pseudo', 'nth'):
                p = [p[0], change(p[1])] + p[2:]
            parts.append(p)
        return {'tag': change(c['tag']), 'parts': parts}
    return [[c if i % 2 else compound(c) for i, c in enumerate(s)] for s in group]


# Meaning. An element is described by its position: a list of (siblings, index), from
# the root of the document down, where siblings are elements only.

def only_elements(nodes):
    return [n for n in nodes if not isinstance(n, str) and n[0] != '!--']


def positions(nodes, above=()):
    siblings = only_elements(nodes)
    for i, n in enumerate(siblings):
        here = above + ((siblings, i),)
        yield here
        yield from positions(n[2], here)


def attribute(attrs, name):
    v = attrs[name]
    if v is None:
        v = ''
    if name == 'class':
        v = ' '.join(v.split())
    return v


def part_matches(p, pos):
    siblings, i = pos[-1]
    tag, attrs, children = siblings[i]
    kind = p[0]
    if kind == 'class':
        return p[1] in (attrs.get('class') or '').split()
    if kind == 'id':
        return attrs.get('id') == p[1]
    if kind == 'element' or p == ['pseudo', 'hover']:
        return False
    if kind == 'pseudo':
        return i == (0 if p[1] == 'first-child' else len(siblings) - 1)
    if kind == 'nth':
        at = i + 1 if p[1] == 'nth-child' else len(siblings) - i
        return any(p[3] * n + p[4] == at for n in range(len(siblings) + 40))
    if kind == 'not':
        return not compound_matches(p[1], pos)
    name, op, value = p[1:]
    if name not in attrs:
        return False
    v = attribute(attrs, name)
    if op == 'exists':
        return True
    if op == '=':
        return v == value
    if op == '~=':
        return value != '' and value in v.split() and not any(c.isspace() for c in value)
    if op == '|=':
        return v == value or v.startswith(value + '-')
    if value == '':
        return False
    return {'^=': v.startswith(value), '$=': v.endswith(value), '*=': value in v}[op]


def compound_matches(c, pos):
    siblings, i = pos[-1]
    if c['tag'] is not None and siblings[i][0] != c['tag']:
        return False
    return all(part_matches(p, pos) for p in c['parts'])


def complex_matches(s, pos):
    if not compound_matches(s[-1], pos):
        return False
    if len(s) == 1:
        return True
    rest, combinator = s[:-2], s[-2]
    siblings, i = pos[-1]
    if combinator == '>':
        return len(pos) > 1 and complex_matches(rest, pos[:-1])
    if combinator == ' ':
        return any(complex_matches(rest, pos[:n]) for n in range(1, len(pos)))
    if combinator == '+':
        return i > 0 and complex_matches(rest, pos[:-1] + ((siblings, i - 1),))
    return any(complex_matches(rest, pos[:-1] + ((siblings, n),)) for n in range(i))


def part_specificity(p):
    if p[0] == 'id':
        return (1, 0, 0)
    if p[0] == 'not':
        return compound_specificity(p[1])
    return (0, 1, 0)


def compound_specificity(c):
    total = [0, 0, 1 if c['tag'] else 0]
    for p in c['parts']:
        for n, v in enumerate(part_specificity(p)):
            total[n] += v
    return tuple(total)


def specificity(s):
    parts = [compound_specificity(c) for c in s[::2]]
    return tuple(sum(p[n] for p in parts) for n in range(3))


def group_match(g, pos):
    """
    The specificity of the best match, or None.
    """
    return max((specificity(s) for s in g if complex_matches(s, pos)), default=None)


# Trees to match against.

@cached
def between():
    # What is not an element does not count.
    return st.sampled_from(['t', ' ', '\n', ['!--', {}, ['c']]])


@cached
@st.composite
def attributes(draw):
    attrs = {}
    if draw(ints(0, 2)) == 0:
        attrs['class'] = draw(choice(CLASSES + ['k m', 'm n-o', 'other k', 'k k', 'm k m', 'k  m', '', None]))
    if draw(ints(0, 3)) == 0:
        attrs['id'] = draw(choice(IDS + ['k', None]))
    if draw(ints(0, 5)) == 0:
        # Not an id.
        attrs['name'] = draw(choice(IDS))
    if draw(ints(0, 2)) == 0:
        attrs[draw(choice(['data-a', 'lang', 'title', 'n']))] = draw(choice(VALUES + [None]))
    return attrs


@cached
@st.composite
def element_tree(draw, depth, text=True):
    out = []
    for i in range(draw(ints(0, 5 if depth > 1 else 3))):
        if text and draw(ints(0, 4)) == 0:
            out.append(draw(between()))
        attrs = draw(attributes())
        children = draw(element_tree(depth - 1, text)) if depth > 0 else []
        out.append([draw(choice(TAGS)), attrs, children])
    if text and draw(ints(0, 2)) == 0:
        out.append(draw(between()))
    return out


@cached
@st.composite
def long_tree(draw, text=True):
    """
    Many levels with hardly any elements, or many elements next to each other.
    """
    out = []
    if draw(BOOL):
        for i in range(draw(ints(5, 14))):
            out = [[draw(choice(TAGS)), draw(attributes()), out]]
            for j in range(draw(choice([0, 0, 1, 2]))):
                out.insert(draw(ints(0, len(out))), [draw(choice(TAGS)), draw(attributes()), []])
    else:
        for i in range(draw(ints(6, 25))):
            out.append([draw(choice(TAGS)), draw(attributes()), []])
            if text and draw(ints(0, 5)) == 0:
                out.append(draw(between()))
    return out
