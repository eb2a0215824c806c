"""
Highlighted code is rendered in the colours of the theme.
"""
import importlib
import json
import os
import re

import core
import dom
import gen
from gen import st, cached, ints, choice, BOOL
from props import c14_sgr

ID = 'C21'
RULE = (
    'Random code in the markup Pygments produces, as random sequences of tokens of all of the classes '
    'Pygments has, and as random source code highlighted by Pygments itself (several languages, with '
    'and without highlighted lines), rendered with each of the themes. The text is the same as without '
    'the theme, and an interpreter of SGR sequences has to find every character in the style the theme '
    'gives to its token (a table of the palettes, and for monokai and autumn also the styles of the '
    'same name in Pygments), with the default style everywhere else. Non-trivial: at least 3 classes '
    'of tokens the theme has a style for.'
)
ASSUMPTIONS = [
    'tokens do not contain line breaks, which is how Pygments writes them',
    'after a token with a background colour, the background of a highlighted line around it is not active any more',
]

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'themes.json')) as f:
    PALETTES = json.load(f)
THEMES = sorted(PALETTES)


def pygments_classes():
    from pygments.token import STANDARD_TYPES
    return sorted(set(STANDARD_TYPES.values()) - {''})


@cached
@st.composite
def tokens(draw, classes, theme):
    known = sorted(set(k.split()[-1].lstrip('.') for k in PALETTES[theme]) - {'hll', 'highlight'})
    if theme == 'github' and draw(ints(0, 3)) == 0:
        known = ['gd', 'gi', 'c', 'x']
    lines = []
    for i in range(draw(ints(1, 4))):
        line = [draw(choice(['', '', '    ', '  ']))]
        for j in range(draw(ints(1, 7))):
            if j and draw(ints(0, 3)):
                line.append(' ')
            text = draw(choice(['def', 'x', '(', '):', '"a b"', '# no  op', '<>', '&amp;', '==', 'é', '\\n', 'self.x', '{}', '%s']))
            c = draw(choice([''] + known * 3 + list(classes)))
            if c and c in ('gd', 'gi') and draw(BOOL):
                line.append([c, ['-', ['x', [text]], '+']])
            else:
                line.append([c, [text]] if c else text)
        lines.append(line)
    return lines


CODE = [
    ('python', 'def f(x, *args):\n    """Doc."""\n    return "%s" % x  # why\n'),
    ('python', '@dec\nclass A(B):\n    y = 0x1F + 1.5j\n\n    def __init__(self):\n        raise ValueError(\'a\\n\')\n'),
    ('python', 'import os\nfor i in range(3):\n\tprint(i, None, True and not False)\n'),
    ('bash', 'echo "$HOME" | grep -v \'x\' && exit 1 # c\nfor f in *.py; do cat $f; done\n'),
    ('html', '<p class="a">&amp; <!-- c --><b>x</b></p>\n'),
    ('css', 'a:hover, .b { color: #fff; margin: 1px 2em }\n'),
    ('c', '#include <stdio.h>\nint main(void) { /* c */ char c = \'x\'; return c != 0x1F; }\n'),
    ('diff', '--- a\n+++ b\n@@ -1 +1 @@\n-old\n+new\n same\n'),
    ('js', 'var a = /re/g, b = `t${x}`; // c\nfunction f() { return null; }\n'),
    ('rst', 'Title\n=====\n\n*em* **strong** ``lit``\n'),
    ('pycon', '>>> 1/0\nTraceback (most recent call last):\n  File "<stdin>", line 1\nZeroDivisionError: x\n'),
    ('sql', "SELECT a, COUNT(*) FROM t WHERE x = 'y' -- c\n"),
    ('ini', '[a]\nb = c\n; d\n'),
    ('ruby', 'def a(b) @c = :d; puts "#{b}" end\n'),
    ('go', 'package main\nfunc f() (x int) { return 1 }\n'),
]


@cached
@st.composite
def cases(draw):
    theme = draw(choice(THEMES))
    blocks = []
    for i in range(draw(ints(1, 3))):
        k = draw(ints(0, 4))
        if k == 0:
            blocks.append(['p', draw(gen.phrase(max_words=5))])
        elif k == 1:
            language, source = draw(choice(CODE))
            lines = draw(st.lists(choice(source.splitlines()), min_size=0, max_size=4))
            if draw(BOOL):
                source = '\n'.join(lines) + '\n'
            marked = draw(st.lists(ints(1, 4), max_size=2, unique=True)) if draw(ints(0, 2)) == 0 else []
            blocks.append(['source', language, source, marked])
        else:
            blocks.append(['tokens', draw(tokens(tuple(pygments_classes()), theme)), draw(choice(['pre', 'code']))])
    return {'theme': theme, 'blocks': blocks, 'width': draw(ints(20, 80))}


def spans(items):
    return [i if isinstance(i, str) else ['span', {'class': i[0]}, spans(i[1])] for i in items]


def html(blocks):
    """
    The source, and the characters with the classes they are in.
    """
    out = []
    for b in blocks:
        if b[0] == 'p':
            out.append(dom.to_html([['p', {}, [b[1]]]]))
        elif b[0] == 'source':
            from pygments import highlight
            from pygments.formatters import HtmlFormatter
            from pygments.lexers import get_lexer_by_name
            out.append(highlight(b[2], get_lexer_by_name(b[1]), HtmlFormatter(
                cssclass='highlight', wrapcode=True, hl_lines=b[3])))
        else:
            content = []
            for line in b[1]:
                content.extend(spans(line))
                content.append('\n')
            content = gen.merge(content)
            if b[2] == 'code':
                content = [['span', {}, []], ['code', {}, content]]
            out.append(dom.to_html([['div', {'class': 'highlight'}, [['pre', {}, content]]]]))
    return '\n'.join(out) + '\n'


def characters(source, theme):
    """
    The characters of a document that is rendered with a theme, each with the classes
    of the elements it is in and its style.
    """
    from html.parser import HTMLParser

    class Reader(HTMLParser):
        def __init__(self):
            super().__init__(convert_charrefs=True)
            self.stack = []
            self.state = {}
            self.found = []

        def handle_starttag(self, tag, attrs):
            self.stack.append(dict(attrs).get('class', ''))
            self.state = dict(self.state)
            for k, v in self.settings().items():
                self.state[k] = c14_sgr.meaning(v) if k.endswith('_colour') else v

        def handle_endtag(self, tag):
            ended = self.settings()
            self.state = dict((k, v) for k, v in self.state.items() if k not in ended)
            self.stack.pop()

        def settings(self):
            classes = tuple(s for s in self.stack if s)
            return settings_of(theme, classes) if self.stack[-1] else {}

        def handle_data(self, data):
            classes = tuple(s for s in self.stack if s)
            self.found.extend((c, classes, self.state) for c in data if not c.isspace())

    reader = Reader()
    reader.feed(source)
    reader.close()
    return reader.found


def settings_of(theme, classes):
    """
    The settings a theme has for the innermost of some elements (with a class each).
    """
    best = None
    palette = PALETTES[theme]
    for selector, settings in palette.items():
        parts = selector.split()
        if parts[-1] != '.' + classes[-1]:
            continue
        rest = list(classes[:-1])
        for p in reversed(parts[:-1]):
            while rest and '.' + rest[-1] != p:
                rest.pop()
            if not rest:
                break
            rest.pop()
        else:
            if best is None or len(parts) >= best[0]:
                best = (len(parts), settings)
    return best[1] if best else {}


def in_pygments(theme, name):
    """
    The settings for a token according to Pygments' style with the name of the theme.
    """
    from pygments.styles import get_style_by_name
    from pygments.token import STANDARD_TYPES
    types = dict((v, k) for k, v in STANDARD_TYPES.items())
    if name not in types:
        return None
    s = get_style_by_name(theme).style_for_token(types[name])
    wanted = {}
    for key, value in [('color', 'foreground_colour'), ('bgcolor', 'background_colour')]:
        if s[key]:
            wanted[value] = '#' + s[key]
    for key in ('bold', 'italic', 'underline'):
        # The theme has no underlines, and errors have no frames.
        if s[key] and key != 'underline':
            wanted[key] = True
    return wanted


def check(case):
    theme = case['theme']
    with core.library():
        renderers = importlib.import_module('gopher_render.code_themes.' + theme).renderers
    source = html(case['blocks'])
    plain = dom.render_with(source, {'width': case['width']}, {})
    out = dom.render_with(source, {'width': case['width']}, renderers)
    core.expect('\x1b' not in plain, 'escape sequences without a theme: {!r}', plain)
    core.expect_equal(
        dom.rstripped(re.sub('\x1b\\[[0-9;]*m', '', out)), dom.rstripped(plain), 'the text in ' + theme)
    actual, end = c14_sgr.interpret(out)
    core.expect(not end, 'styles are still active at the end: {} after {!r}', end, out)
    wanted = characters(source, theme)
    core.expect_equal(''.join(c for c, s in actual), ''.join(w[0] for w in wanted), 'the text')
    seen = set()
    for (a, state), (w, classes, expected) in zip(actual, wanted):
        if state != expected:
            raise core.Violation('the style of {!r} ({}) in {}, {!r}: expected {}, actual {}'.format(
                a, ' '.join(classes), theme, out, expected, state))
        if classes and settings_of(theme, classes):
            seen.add(classes[-1])
    if theme in ('monokai', 'autumn'):
        for name in sorted(seen - {'hll', 'highlight'}):
            expected = in_pygments(theme, name)
            if expected is not None:
                core.expect_equal(settings_of(theme, ('highlight', name)), expected, name + ' in ' + theme)
    return len(seen) >= 3, ['theme ' + theme] + ['has ' + b[0] for b in case['blocks']]


FACETS = [core.Facet('tokens', cases, check, quick=3000)]
