"""
What headers look like.
"""
import core
import common
import dom
import gen
import model
from gen import st, cached, ints, choice, BOOL

ID = 'C26'
RULE = (
    'Random headers (of all levels, and terms of definition lists) with random content and settings: capitals, '
    'spread, alignment, underlines, templates, boxes; with the plain and the Markdown renderer, at random '
    'widths and depths. The text is the content with those settings applied one after the other; the lines '
    'are centered within one column; the underline is as wide as the text, or as the space there is. '
    'Non-trivial: at least 2 settings.'
)


@cached
@st.composite
def settings(draw):
    s = {}
    for k, v in [
        ('capitalized', [True, True, False]), ('spread', [0, 1, 1, 2, 3]), ('spread_char', [' ', '.', '-', 'ab']),
        ('centered', [True, True, False]), ('underlined', [True, True, False]), ('underline_char', ['=', '-', '~', '#']),
        ('underline_full', [True, False]),
    ]:
        if draw(BOOL):
            s[k] = draw(choice(v))
    return s


TEMPLATES = ['{}', '[ {} ]', '== {} ==', '{}:', '# {}']


@cached
@st.composite
def cases(draw):
    headers = []
    for i in range(draw(ints(1, 3))):
        s = dict(draw(settings()))
        s.update(draw(gen.box()))
        s['margin'] = s.get('margin', [1, 0, 1, 0])
        cls = draw(choice(['HeaderRenderer', 'HeaderRenderer', 'MarkdownHeaderRenderer', None]))
        if cls == 'HeaderRenderer' and draw(BOOL):
            s['template'] = draw(choice(TEMPLATES))
        level = draw(ints(1, 6))
        ia = dict(max_items=draw(ints(1, 4)), depth=1, max_words=5, br=True)
        content = draw(gen.inline(**ia))
        if draw(ints(0, 9)) == 0:
            # Nothing, or as good as.
            content = draw(choice([[], [' '], ['\n \t'], [['em', {}, []]], [['x', {}, [' ']]]]))
        headers.append({'level': level, 'class': cls, 'settings': s, 'content': content})
    return {'headers': headers, 'width': draw(ints(12, 80)), 'indent': draw(ints(0, 5)), 'div': draw(BOOL)}


def check(case):
    renderers = {'.around': {'settings': {'margin': [0, case['indent'], 0, case['indent']]}}}
    nodes = []
    expected = []
    width = case['width'] - (2 * case['indent'] if case['div'] else 0)
    used = 0
    for i, h in enumerate(case['headers']):
        d = {'settings': h['settings']}
        if h['class']:
            d['class'] = h['class']
        renderers['.h%d' % i] = d
        nodes.append(['h%d' % h['level'], {'class': 'h%d' % i}, h['content']])
        expected.append(header(h, width))
        used = max(used, len([k for k in h['settings'] if k not in ('margin', 'padding', 'border')]))
    if case['div']:
        nodes = [['div', {'class': 'around'}, nodes]]
    actual = dom.render(dom.to_html(nodes), width=case['width'], renderers=renderers)
    text = ''.join(expected)
    if case['div']:
        text = ''.join(' ' * case['indent'] + l for l in dom.lines(text, keepends=True))
    common.agree(actual, text, 'the headers')
    broken = ['line breaks'] if '<br' in dom.to_html(nodes) else []
    return used >= 2, broken + sorted(set(k for h in case['headers'] for k in h['settings'])) + sorted(
        set(str(h['class']) for h in case['headers']))


def header(h, width):
    s = h['settings']
    m, p, b = s['margin'], s.get('padding', [0] * 4), s.get('border', [''] * 4)
    # With a line for every line break.
    lines = []
    for text in model.Model().render(h['content']).strip().split('\n'):
        text = text.strip()
        if s.get('capitalized'):
            text = text.upper()
        if s.get('spread', 0):
            gap = s.get('spread_char', ' ') * s['spread']
            spread = text[:1]
            for c in text[1:]:
                spread += gap + c
            text = spread
        lines.append(text)
    before, after = '#' * h['level'] + ' ', ' ' + '#' * h['level']
    if h['class'] == 'HeaderRenderer':
        before, after = s.get('template', '{}').split('{}')
    lines[0] = before + lines[0]
    lines[-1] = lines[-1] + after
    outer = width - m[1] - m[3]
    padded = outer - len(b[1]) - len(b[3])
    inner = padded - p[1] - p[3]
    if s.get('underlined'):
        lines.append(s.get('underline_char', '=') * (inner if s.get('underline_full') else max(len(l) for l in lines)))
    if s.get('centered'):
        lines = [centered(l, inner) for l in lines]
    lines = [''] * p[0] + [' ' * p[3] + l for l in lines] + [''] * p[2]
    lines = [b[3] + l + ' ' * (padded - len(l)) + b[1] for l in lines]
    lines = [c * outer for c in b[0]] + lines + [c * outer for c in b[2]]
    return '\n' * m[0] + '\n'.join(' ' * m[3] + l for l in lines) + '\n' * m[2]


def centered(line, width):
    missing = width - len(line)
    if missing <= 0:
        return line
    # Half of the space, or one column off.
    left = missing // 2 + (missing & width & 1)
    return ' ' * left + line + ' ' * (missing - left)


FACETS = [core.Facet('headers', cases, check, quick=4000)]
