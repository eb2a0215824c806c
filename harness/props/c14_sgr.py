"""
The escape sequences mean what was asked for.
"""
import core
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C14'
RULE = (
    'Random text with nested elements, each with an own random style (colours in all of their forms, '
    'effects, font, normalisation), as settings or as a derived class. The output is read by an '
    'interpreter of SGR sequences (ECMA-48), so that every character has a state, which has to be that '
    'asked for; everything outside has the default state. Non-trivial: at least 2 attributes, and at '
    'least 2 styled elements or a nested one.'
)
ASSUMPTIONS = [
    'an element does not use an attribute of an element around it, because that is not active any '
    'more after the inner one (terminals do not nest styles)',
    'the same goes for normalisation, which is only used by the outermost elements',
]

# Attributes that are deactivated together.
GROUPS = [
    ['bold', 'faint'], ['italic', 'fraktur'], ['underline'], ['slow_blink', 'rapid_blink'], ['invert'], ['conceal'],
    ['crossed_out'], ['framed', 'encircled'], ['overlined'], ['font'], ['foreground_colour'], ['background_colour'],
]
NAMES = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']


@cached
def colour():
    hexadecimal = '0123456789abcdefABCDEF'
    return st.one_of(
        choice(NAMES + ['bright_' + n for n in NAMES]),
        ints(0, 255), choice([0, 1, 7, 8, 15, 16, 231, 232, 255]),
        st.lists(ints(0, 255), min_size=3, max_size=3),
        st.text(alphabet=hexadecimal, min_size=3, max_size=3).map('#{}'.format),
        st.text(alphabet=hexadecimal, min_size=6, max_size=6).map('#{}'.format),
    )


@cached
@st.composite
def style(draw, groups):
    s = {}
    for g in draw(st.lists(choice(groups), min_size=1, max_size=4, unique=True)):
        for name in ([draw(choice(GROUPS[g]))] if draw(ints(0, 3)) else GROUPS[g]):
            if name.endswith('_colour'):
                s[name] = draw(colour())
            elif name == 'font':
                s[name] = draw(ints(0, 9))
            else:
                s[name] = True
    return s


@cached
@st.composite
def content(draw, free, depth):
    """
    [text or {"style", "children", ...}]
    """
    out = []
    for i in range(draw(ints(1, 4))):
        if i:
            out.append(draw(choice([' ', ' ', ''])))
        if depth and free and draw(BOOL):
            s = dict(draw(style(free)))
            used = [g for g in free if set(GROUPS[g]) & set(s)]
            normal = len(free) == len(GROUPS) and draw(ints(0, 3)) == 0
            if normal:
                s['normalise'] = True
            node = {'style': s, 'how': draw(choice(['settings', 'settings', 'class', 'both']))}
            if draw(ints(0, 4)) == 0:
                node['template'] = draw(choice(['<{}>', '_{}_', '{}.']))
            if draw(ints(0, 6)) == 0:
                node['capitalized'] = True
            if not draw(ints(0, 5)):
                node['off'] = draw(choice(['bold', 'font', 'foreground_colour', 'overlined']))
            node['children'] = draw(content(tuple(g for g in free if g not in used), depth - 1))
            out.append(node)
        else:
            out.append(draw(gen.phrase(max_words=4)))
    return gen.merge(out)


@cached
@st.composite
def cases(draw):
    blocks = []
    for i in range(draw(ints(1, 3))):
        blocks.append([draw(choice(['p', 'pre', 'div'])), draw(content(tuple(range(len(GROUPS))), 3))])
    return {'blocks': blocks, 'width': draw(ints(10, 80))}


def translate(items, renderers):
    """
    The document, and its renderers.
    """
    r = dom.rendering()
    out = []
    for item in items:
        if isinstance(item, str):
            out.append(item)
            continue
        name = 'k%d' % len(renderers)
        s = {}
        for k, v in item['style'].items():
            s[k] = tuple(v) if isinstance(v, list) else v
        if 'off' in item and item['off'] not in s:
            s[item['off']] = None if item['off'] in ('font', 'foreground_colour') else False
        for k in ('template', 'capitalized'):
            if k in item:
                s[k] = item[k]
        how = item['how']
        if how == 'settings':
            renderers['.' + name] = (r.AnsiEscapeCodeRenderer, s)
        else:
            cls = type('Style', (r.AnsiEscapeCodeRenderer,), {'settings': dict(s) if how == 'class' else {'bold': True, 'font': 5}})
            if how == 'class':
                renderers['.' + name] = cls
            else:
                renderers['.' + name] = (cls, dict({'bold': False, 'font': None}, **s))
        out.append(['span', {'class': name}, translate(item['children'], renderers)])
    return out


def expected(items, state, upper=False):
    for item in items:
        if isinstance(item, str):
            yield from ((c, state) for c in (item.upper() if upper else item) if not c.isspace())
            continue
        inner = dict(state)
        for k, v in item['style'].items():
            if k.endswith('_colour'):
                inner[k] = meaning(v)
            elif k == 'font':
                if v != 0:
                    inner[k] = v
            elif k != 'normalise':
                inner[k] = True
        before, after = item.get('template', '{}').split('{}')
        yield from ((c, inner) for c in before)
        yield from expected(item['children'], inner, upper or item.get('capitalized', False))
        yield from ((c, inner) for c in after)


def meaning(v):
    if isinstance(v, int):
        return ['palette', v]
    if isinstance(v, list):
        return ['rgb'] + v
    if v[0] == '#':
        digits = [c for c in v[1:] for _ in range(2)] if len(v) == 4 else list(v[1:])
        return ['rgb'] + [int(digits[i] + digits[i + 1], 16) for i in (0, 2, 4)]
    if v.startswith('bright_'):
        return ['basic', NAMES.index(v[7:]) + 8]
    return ['basic', NAMES.index(v)]


ON = {
    1: 'bold', 2: 'faint', 3: 'italic', 4: 'underline', 5: 'slow_blink', 6: 'rapid_blink', 7: 'invert', 8: 'conceal',
    9: 'crossed_out', 20: 'fraktur', 51: 'framed', 52: 'encircled', 53: 'overlined',
}
OFF = {
    22: ['bold', 'faint'], 23: ['italic', 'fraktur'], 24: ['underline'], 25: ['slow_blink', 'rapid_blink'], 27: ['invert'],
    28: ['conceal'], 29: ['crossed_out'], 54: ['framed', 'encircled'], 55: ['overlined'], 39: ['foreground_colour'],
    49: ['background_colour'], 10: ['font'],
}


def interpret(text):
    """
    The visible characters, each with its state, and the state at the end.
    """
    state = {}
    out = []
    at = 0
    while at < len(text):
        c = text[at]
        if c != '\x1b':
            if not c.isspace():
                out.append((c, dict(state)))
            at += 1
            continue
        end = at + 1
        core.expect(text[end:end + 1] == '[', 'not an escape sequence at {!r}', text[at:at + 20])
        end += 1
        while end < len(text) and text[end] in '0123456789;':
            end += 1
        core.expect(text[end:end + 1] == 'm', 'not a SGR sequence at {!r}', text[at:at + 20])
        codes = [int(p or 0) for p in text[at + 2:end].split(';')]
        at = end + 1
        while codes:
            n = codes.pop(0)
            if n == 0:
                state.clear()
            elif n in ON:
                state[ON[n]] = True
            elif n in OFF:
                for k in OFF[n]:
                    state.pop(k, None)
            elif 11 <= n <= 19:
                state['font'] = n - 10
            elif 30 <= n <= 37 or 90 <= n <= 97:
                state['foreground_colour'] = ['basic', n - 30 if n < 40 else n - 82]
            elif 40 <= n <= 47 or 100 <= n <= 107:
                state['background_colour'] = ['basic', n - 40 if n < 50 else n - 92]
            elif n in (38, 48):
                kind = codes.pop(0) if codes else None
                count = {5: 1, 2: 3}.get(kind)
                core.expect(count is not None and len(codes) >= count, 'not a colour: {!r}', text)
                values, codes = codes[:count], codes[count:]
                core.expect(all(0 <= v <= 255 for v in values), 'not a colour: {!r}', values)
                state['foreground_colour' if n == 38 else 'background_colour'] = [{5: 'palette', 2: 'rgb'}[kind]] + values
            else:
                raise core.Violation('an unknown code, {}, in {!r}'.format(n, text))
    return out, state


def check(case):
    renderers = {}
    nodes = [[tag, {}, translate(items, renderers)] for tag, items in case['blocks']]
    out = dom.render_with(dom.to_html(nodes), {'width': case['width']}, renderers)
    actual, end = interpret(out)
    wanted = [e for tag, items in case['blocks'] for e in expected(items, {})]
    core.expect_equal(''.join(c for c, s in actual), ''.join(c for c, s in wanted), 'the text')
    for i, (a, w) in enumerate(zip(actual, wanted)):
        if a != w:
            raise core.Violation('the style of {!r} in {!r}: expected {}, actual {}'.format(
                a[0], out, w[1], a[1]))
    core.expect(not end, 'styles are still active at the end: {} after {!r}', end, out)
    styles = [s for s in map(freeze, (s for c, s in wanted)) if s]
    nested = any(nested_styles(items) for tag, items in case['blocks'])
    attributes = set(k for s in styles for k in s)
    labels = ['nested'] if nested else []
    labels.extend('has ' + k[0] for k in sorted(set((k[0],) for s in styles for k in s)))
    return len(attributes) >= 2 and (nested or len(set(styles)) >= 2), labels


def freeze(state):
    return tuple(sorted((k, str(v)) for k, v in state.items()))


def nested_styles(items):
    return any(
        not isinstance(c, str) for i in items if not isinstance(i, str) for c in i['children']
    )


FACETS = [core.Facet('styles', cases, check, quick=5000)]
