"""
The values of a namedict are both items and attributes.
"""
import copy
import pickle

import core
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C18'
RULE = (
    'Random histories of operations on several namedicts (made from nothing, dictionaries, pairs, keywords '
    'or each other; items and attributes set, read and deleted; the methods of dictionaries), in step with '
    'plain dictionaries. After every operation everything that can be observed is compared. Non-trivial: '
    'at least 6 operations of at least 4 kinds, of which one is by attribute.'
)
ASSUMPTIONS = ['attributes with the names of the methods of dictionaries stay what they are']

NAMES = ['a', 'b', '__x__', 'x_', '', 'template', 'margin', 'x1', '_private', 'Class', 'settings', 'é']
METHODS = [name for name in dir(dict) if not name.startswith('_')]
VALUES = [None, 0, False, '', 'v', [1], {'k': 1}, 7, True, {}, [], ()]


@cached
@st.composite
def operation(draw):
    k = draw(choice([
        'set item', 'set attribute', 'set attribute', 'delete item', 'delete attribute', 'update', 'pop', 'setdefault', 'clear', 'popitem',
        'new', 'copy', 'deepcopy', 'pickle', 'read', 'read', 'method name', 'method attribute', 'or',
    ]))
    name = draw(choice(NAMES))
    value = draw(choice(VALUES))
    if k in ('update', 'new', 'or'):
        value = draw(st.dictionaries(choice(NAMES + NAMES + METHODS), choice(VALUES), max_size=3))
        name = draw(choice(['dict', 'pairs', 'keywords', 'other']))
    if k.startswith('method '):
        name = draw(choice(METHODS))
    return [k, draw(ints(0, 2)), name, value, draw(ints(0, 2))]


@cached
def cases():
    return st.integers(1, 25).flatmap(lambda n: st.lists(operation(), min_size=n, max_size=n)).map(lambda o: {'operations': o})


def outcome(function):
    try:
        return 'value', function()
    except (KeyError, AttributeError) as e:
        return 'raises', type(e).__name__


def same(actual, expected, what):
    core.expect(
        actual == expected and type(actual[1]) is type(expected[1]),
        '{}: expected {!r}, actual {!r}', what, expected, actual)


def check(case):
    with core.library('importing'):
        namedict = dom.namedict()
    pairs = [(namedict(), {}) for i in range(3)]
    kinds = set()
    for op in case['operations']:
        k, which, name, value, other = op
        kinds.add(k)
        n, d = pairs[which]
        with core.library('an operation on a namedict'):
            value = copy.deepcopy(value)
            if k == 'set item':
                n[name] = value
                d[name] = value
            elif k == 'set attribute':
                setattr(n, name, value)
                d[name] = value
            elif k == 'delete item':
                same(outcome(lambda: n.__delitem__(name)), outcome(lambda: d.__delitem__(name)), op)
            elif k == 'delete attribute':
                expected = ('value', None) if name in d else ('raises', 'AttributeError')
                d.pop(name, None)
                same(outcome(lambda: delattr(n, name)), expected, op)
            elif k in ('update', 'new', 'or'):
                o = pairs[other]
                if name == 'dict':
                    args, kw, margs = (value,), {}, value
                elif name == 'pairs':
                    args, kw, margs = (list(value.items()),), {}, value
                elif name == 'keywords':
                    args, kw, margs = (), value, value
                else:
                    args, kw, margs = (o[0],), {}, dict(o[1])
                if k == 'new':
                    pairs[which] = (namedict(*args, **kw), dict(margs))
                elif k == 'update':
                    n.update(*args, **kw)
                    d.update(margs)
                else:
                    if name in ('dict', 'other'):
                        merged = n | args[0]
                        same(('value', dict(merged)), ('value', d | margs), op)
            elif k == 'pop':
                same(outcome(lambda: n.pop(name)), outcome(lambda: d.pop(name)), op)
            elif k == 'setdefault':
                same(('value', n.setdefault(name, value)), ('value', d.setdefault(name, value)), op)
            elif k == 'clear':
                n.clear()
                d.clear()
            elif k == 'popitem':
                same(outcome(n.popitem), outcome(d.popitem), op)
            elif k == 'copy':
                c = copy.copy(n)
                core.expect(c is not n and isinstance(c, namedict) and c == d, 'not a copy of {}: {!r}', d, c)
                pairs[other] = (c, dict(d))
            elif k == 'deepcopy':
                c = copy.deepcopy(n)
                core.expect(c is not n and isinstance(c, namedict) and c == d, 'not a copy of {}: {!r}', d, c)
                pairs[other] = (c, copy.deepcopy(d))
            elif k == 'pickle':
                c = pickle.loads(pickle.dumps(n))
                core.expect(isinstance(c, namedict) and c == d, 'not the same after pickling {}: {!r}', d, c)
            elif k == 'method name':
                # An item with the name of a method, which still works.
                n[name] = value
                d[name] = value
                core.expect(callable(getattr(n, name)), 'the method {} is not there any more', name)
                if other == 1:
                    # As it is one, it is set as an item.
                    setattr(n, name, 'set')
                    same(('value', n[name]), ('value', 'set'), op)
                if other == 2:
                    delattr(n, name)
                    core.expect(name not in n, 'the item {} is still there', name)
                else:
                    del n[name]
                core.expect(callable(getattr(n, name)), 'the method {} is not there any more', name)
                del d[name]
            elif k == 'method attribute':
                # The names of methods are not names of items as attributes.
                if name in d:
                    continue
                setattr(n, name, value)
                core.expect(name not in n and getattr(n, name) is value, 'the attribute {} is an item', name)
                delattr(n, name)
                core.expect(callable(getattr(n, name)), 'the method {} is not there any more', name)
            for i, (n, d) in enumerate(pairs):
                observe(n, d, '{} after {}'.format(i, op))
    return len(case['operations']) >= 6 and len(kinds) >= 4 and any('attribute' in k for k in kinds), sorted(kinds)


def observe(n, d, what):
    core.expect(isinstance(n, dict), 'not a dictionary: {!r}', n)
    same(('value', list(n.items())), ('value', list(d.items())), what)
    core.expect(n == d and len(n) == len(d) and bool(n) == bool(d), 'not equal to the dictionary, {}: {!r}', what, n)
    core.expect(list(n) == list(d) and list(n.values()) == list(d.values()), 'the keys or values, {}: {!r}', what, n)
    for name in NAMES:
        core.expect((name in n) == (name in d) == hasattr(n, name), 'membership of {}, {}', name, what)
        same(outcome(lambda: n[name]), outcome(lambda: d[name]), '{} as an item, {}'.format(name, what))
        expected = ('value', d[name]) if name in d else ('raises', 'AttributeError')
        same(outcome(lambda: getattr(n, name)), expected, '{} as an attribute, {}'.format(name, what))
        core.expect(getattr(n, name, 'default') == d.get(name, 'default') == n.get(name, 'default'), 'the default for {}, {}', name, what)


FACETS = [core.Facet('histories', cases, check, quick=8000)]
