"""
The settings of a renderer are those of all of its base classes, overridden in order,
and then those of the configuration; and they are its own.
"""
import core
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C17'
RULE = (
    'Random hierarchies of renderer classes (single and multiple inheritance, mixins, with settings '
    'as dictionaries of either kind, or none), and sequences of making renderers with settings and '
    'changing those of one of them, or of a class. The settings of every renderer have to be the merge over the '
    'method resolution order and the settings passed in, whatever came before. In documents, the same '
    'for elements that share classes and rules. Non-trivial: at least 3 classes, of which one has '
    'settings for the same name as another one in its hierarchy.'
)

KEYS = ['k0', 'k1', 'k2', 'template', 'capitalized']
# What the library itself has for those.
KNOWN = {
    'Renderer': {}, 'InlineRenderer': {'template': '{}', 'capitalized': False},
    'EmRenderer': {'template': '_{}_'}, 'StrongRenderer': {'template': '**{}**'},
    'AnsiEscapeCodeRenderer': {}, 'StrikethroughRenderer': {'template': '~~{}~~'},
}
BASES = {
    'Renderer': [], 'InlineRenderer': ['Renderer'], 'EmRenderer': ['InlineRenderer'],
    'StrongRenderer': ['InlineRenderer'], 'AnsiEscapeCodeRenderer': ['InlineRenderer'],
    'StrikethroughRenderer': ['InlineRenderer'],
}


@cached
@st.composite
def some_settings(draw, keys=tuple(KEYS)):
    s = {}
    for k in keys:
        if draw(ints(0, 2)) == 0:
            if k == 'template':
                s[k] = draw(choice(['{}', '<{}>', '({})', '_{}_', '{}!', '']))
            elif k == 'capitalized':
                s[k] = draw(BOOL)
            else:
                s[k] = draw(choice([None, False, 0, 1, 'a', 'b', {}, {'x': 1}, {'x': 2, 'y': 1}, {'z': 0}, '', [], [1], [2, 3], 'template']))
    return s


@cached
@st.composite
def hierarchies(draw):
    classes = []
    for i in range(draw(ints(1, 7))):
        choices = [c['name'] for c in classes] * 3 + list(KNOWN)
        n = draw(choice([1, 1, 1, 2, 2, 3]))
        bases = draw(st.lists(st.sampled_from(choices), min_size=n, max_size=n, unique=True))
        classes.append({
            'name': 'R%d' % i,
            'bases': bases,
            'settings': draw(st.one_of(st.none(), some_settings(), some_settings(), some_settings())),
            'kind': draw(choice(['dict', 'namedict'])),
        })
    return classes


@cached
@st.composite
def cases(draw):
    classes = draw(hierarchies())
    steps = []
    for i in range(draw(ints(1, 6))):
        k = draw(ints(0, 5))
        if k == 5:
            steps.append(['class', draw(ints(0, 6)), draw(choice(KEYS[:3])), draw(choice([5, 'x', None])), draw(choice(['item', 'attribute', 'update', 'replace', 'plain']))])
        elif k <= 2 or not steps:
            steps.append(['make', draw(ints(0, 6)), draw(st.one_of(st.none(), some_settings()))])
        elif k == 3:
            steps.append(['set', draw(ints(0, 5)), draw(choice(KEYS[:3])), draw(choice([5, 'x', None])), draw(choice(['item', 'attribute', 'update']))])
        else:
            steps.append(['delete', draw(ints(0, 5)), draw(choice(KEYS[:3]))])
    return {'classes': classes, 'steps': steps}


def build(classes):
    """
    The classes that can be made (not all orders of bases are consistent).
    """
    r = dom.rendering()
    namedict = dom.namedict()
    made = dict((n, getattr(r, n)) for n in KNOWN)
    own = dict(KNOWN)
    orders = {}
    parents = dict((n, list(b)) for n, b in BASES.items())
    for c in classes:
        bases = [b for b in c['bases'] if b in made]
        order = linearise(c['name'], bases, parents)
        if not bases or order is None:
            continue
        parents[c['name']] = bases
        body = {}
        if c['settings'] is not None:
            body['settings'] = namedict(c['settings']) if c['kind'] == 'namedict' else dict(c['settings'])
        made[c['name']] = type(made[bases[0]])(c['name'], tuple(made[b] for b in bases), body)
        own[c['name']] = c['settings'] or {}
        orders[c['name']] = order
    return made, own, orders


def linearise(name, bases, parents):
    """
    The method resolution order (C3), or None if there isn't any.
    """
    def mro(n):
        return merge(n, parents[n])

    def merge(n, bs):
        lists = [mro(b) for b in bs] + [list(bs)]
        if any(l is None for l in lists):
            return None
        out = [n]
        lists = [list(l) for l in lists]
        while any(lists):
            for l in lists:
                if l and not any(l[0] in o[1:] for o in lists):
                    head = l[0]
                    break
            else:
                return None
            out.append(head)
            for l in lists:
                if l and l[0] == head:
                    del l[0]
        return out
    return merge(name, bases)


def merged(name, own, orders):
    s = {}
    for n in reversed(orders[name]):
        s.update(own[n])
    return s


def view(settings):
    return dict((k, settings[k]) for k in KEYS if k in settings)


def conflicting(own, orders):
    return any(
        len([1 for n in order if k in own[n]]) > 1 for order in orders.values() for k in KEYS
    )


def check(case):
    with core.library('making classes'):
        made, own, orders = build(case['classes'])
    names = sorted(orders)
    if not names:
        return False, ['no classes']
    instances = []
    with core.library('reading the settings of a class'):
        of_classes = dict((n, view(made[n].settings)) for n in names)
    for step in case['steps']:
        if step[0] == 'class':
            # Those of a class count for the renderers made from then on.
            name = names[step[1] % len(names)]
            with core.library('changing the settings of a class'):
                if step[4] == 'item' or (step[4] == 'attribute' and type(made[name].settings) is dict):
                    made[name].settings[step[2]] = step[3]
                elif step[4] == 'attribute':
                    setattr(made[name].settings, step[2], step[3])
                elif step[4] == 'update':
                    made[name].settings.update({step[2]: step[3]})
                else:
                    made[name].settings = (dict if step[4] == 'plain' else dom.namedict())({step[2]: step[3]})
            if step[4] in ('replace', 'plain'):
                own[name] = {}
                of_classes[name] = {}
            own[name] = dict(own[name], **{step[2]: step[3]})
            of_classes[name] = dict(of_classes[name], **{step[2]: step[3]})
        elif step[0] == 'make':
            name = names[step[1] % len(names)]
            passed = None if step[2] is None else dict(step[2])
            with core.library('making a renderer'):
                kwargs = {} if passed is None else {'settings': passed}
                instance = made[name](None, **kwargs)
            s = merged(name, own, orders)
            s.update(step[2] or {})
            instances.append([instance, s, name])
            if passed is not None:
                core.expect_equal(passed, dict(step[2]), 'the settings passed in')
        elif instances:
            instance, s, name = instances[step[1] % len(instances)]
            with core.library('changing settings'):
                if step[0] == 'delete':
                    if step[2] in s:
                        del instance.settings[step[2]]
                        del s[step[2]]
                elif step[4] == 'item':
                    instance.settings[step[2]] = step[3]
                elif step[4] == 'attribute':
                    setattr(instance.settings, step[2], step[3])
                else:
                    instance.settings.update({step[2]: step[3]})
            if step[0] == 'set':
                s[step[2]] = step[3]
        for instance, s, name in instances:
            with core.library('reading settings'):
                actual = view(instance.settings)
                by_attribute = dict((k, getattr(instance.settings, k)) for k in actual)
            core.expect_equal(actual, s, 'the settings of a {} after {}'.format(name, step))
            core.expect_equal(by_attribute, s, 'the settings of a {} as attributes'.format(name))
        for name in names:
            with core.library('reading the settings of a class'):
                actual = view(made[name].settings)
            core.expect_equal(actual, of_classes[name], 'the settings of the class {} after {}'.format(name, step))
    return len(names) >= 3 and conflicting(own, orders), [
        'classes %d' % len(names), 'renderers %d' % len(instances),
        'deepest order %d' % max(len(o) for o in orders.values()),
    ]


@cached
@st.composite
def document_cases(draw):
    classes = draw(hierarchies())
    rules = []
    for i in range(draw(ints(1, 4))):
        rules.append([
            draw(ints(0, 6)),
            draw(st.one_of(st.none(), some_settings(('template', 'capitalized')))),
        ])
    elements = draw(st.lists(
        st.tuples(ints(0, 3), choice(['word', 'Two words', 'x'])), min_size=2, max_size=8))
    return {'classes': classes, 'rules': rules, 'elements': [list(e) for e in elements]}


def check_document(case):
    with core.library('making classes'):
        made, own, orders = build(case['classes'])
    names = [n for n in sorted(orders) if 'InlineRenderer' in orders[n]]
    if not names:
        return False, ['no classes']
    renderers = {}
    expected = []
    for i, (n, s) in enumerate(case['rules']):
        name = names[n % len(names)]
        renderers['.r%d' % i] = made[name] if s is None else (made[name], dict(s))
    nodes = []
    for n, text in case['elements']:
        n = n % len(case['rules'])
        nodes.append(['q', {'class': 'r%d' % n}, [text]])
        name = names[case['rules'][n][0] % len(names)]
        s = merged(name, own, orders)
        s.update(case['rules'][n][1] or {})
        expected.append(s['template'].format(text.upper() if s['capitalized'] else text))
    out = dom.render_with(dom.to_html(nodes), {}, renderers)
    core.expect_equal(out, ''.join(expected), 'the elements')
    return len(names) >= 2 and conflicting(own, orders), ['classes %d' % len(names)]


FACETS = [
    core.Facet('renderers', cases, check, quick=5000),
    core.Facet('documents', document_cases, check_document, quick=2500),
]
