"""
Styling text with escape sequences does not change how it is laid out.
"""
import itertools
import re

import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C13'
RULE = (
    'Random documents in which some of the text is in (nested) elements that are rendered with ANSI '
    'escape sequences, rendered with and without those renderers, with random widths, boxes, '
    'justifications, headers and link placements. Without the escape sequences, the lines are the '
    'same; and all of the escape sequences are there, whole and in order. Non-trivial: at least 2 '
    'styled elements and 3 lines.'
)
ASSUMPTIONS = [
    'descriptions of links are cut without their styles, so that only links that are not styled inside, or '
    'with descriptions that are not cut, count for the escape sequences',
]

ESCAPE = re.compile('\x1b\\[[0-9;]*m')
COLOURS = ['red', 'bright_cyan', 'black', 0, 7, 255, '#fff', '#012345', [1, 20, 255]]
EFFECTS = [
    'bold', 'faint', 'italic', 'fraktur', 'underline', 'slow_blink', 'rapid_blink', 'invert', 'conceal',
    'crossed_out', 'framed', 'encircled', 'overlined',
]
STYLES = ['s0', 's1', 's2']


@cached
@st.composite
def style(draw):
    s = {}
    if draw(BOOL):
        s['foreground_colour'] = draw(choice(COLOURS))
    if draw(ints(0, 2)) == 0:
        s['background_colour'] = draw(choice(COLOURS))
    for e in draw(st.lists(choice(EFFECTS), max_size=2, unique=True)):
        s[e] = True
    if draw(ints(0, 9)) == 0:
        s['font'] = draw(ints(0, 9))
    if draw(ints(0, 4)) == 0:
        s['normalise'] = True
    if not s:
        s['bold'] = True
    return s


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=ints(8, 80)))
    renderers = {}
    for c in ('c0', 'c1', 'c2'):
        s = dict(draw(gen.box()))
        s.update(draw(gen.wrap_options()))
        for k, v in [
            ('centered', [True]), ('underlined', [True]), ('underline_full', [True]), ('spread', [1, 2]),
            ('spread_char', [' ', '.']), ('indent', [0, 2]),
        ]:
            if draw(ints(0, 3)) == 0:
                s[k] = draw(choice(v))
        renderers['.' + c] = {'settings': s}
    for c in STYLES:
        renderers['.' + c] = {'class': 'AnsiEscapeCodeRenderer', 'settings': draw(style())}
    if draw(ints(0, 3)) == 0:
        renderers['.s0']['settings']['capitalized'] = True
    if draw(ints(0, 5)) == 0:
        renderers['.s1']['settings']['template'] = draw(choice(['<{}>', '{}!', '- {}']))
    # Templates of lines, and borders, may be styled as well.
    for selector, templates in [('blockquote', ['\x1b[2m> \x1b[0m{}', '\x1b[31m{}\x1b[39m', '{} \x1b[1m<\x1b[22m']),
                                ('ul > li', ['\x1b[1m*\x1b[22m {}', '\x1b[38;5;9m-->\x1b[0m {}']),
                                ('ol > li', ['\x1b[1m{0}.\x1b[22m {1}']), ('dd', ['\x1b[1m:\x1b[22m {}']),
                                ('p, pre', ['\x1b[4m{}\x1b[24m', '\x1b[7m \x1b[0m {}'])]:
        if draw(ints(0, 3)) == 0:
            renderers[selector] = {'settings': {'line_template': draw(choice(templates))}}
    for c in ('c0', 'c1', 'c2'):
        s = renderers['.' + c]['settings']
        if 'border' in s and draw(BOOL):
            s['border'] = [s['border'][0]] + ['\x1b[36m{}\x1b[39m'.format(b) if b else '' for b in s['border'][1:2]] + [
                s['border'][2]] + ['\x1b[36m{}\x1b[39m'.format(b) if b else '' for b in s['border'][3:]]
    cfg['renderers'] = renderers
    cfg['link_placement'] = draw(choice(['footer', 'footer', 'inline']))
    cfg['image_placement'] = draw(choice(['footer', 'inline']))
    if cfg['link_placement'] == 'footer' and draw(ints(0, 2)) == 0:
        cfg.update(output_format='gophermap', gopher_host='host.example', gopher_port=70)
    if draw(ints(0, 3)) == 0:
        cfg['extracted_link_renderers'] = {'a, img': {
            'class': 'ExtractedLinkRenderer', 'settings': {'max_link_description': draw(choice([0, 3, 40, 1000]))}}}
    links = gen.link() if draw(BOOL) else None
    ia = dict(
        links=links, br=True, max_words=7, styles=['span', 'span', 'span', 'x', 'em', 'code', 'u'],
        depth=draw(ints(1, 3)), max_items=draw(ints(1, 6)), pool=gen.JOINED,
    )
    nodes = draw(gen.with_classes(
        gen.blocks(depth=1, inline_args=ia, max_blocks=3, items=draw(BOOL)), kinds=(
            'p', 'blockquote', 'ul', 'ol', 'li', 'dl', 'dt', 'dd', 'pre', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6',
        )))
    numbers = draw(st.lists(st.integers(0, 999), min_size=4, max_size=24))
    return {'cfg': cfg, 'nodes': apply(nodes, itertools.cycle(numbers))}


NAMES = STYLES + ['s0', 's1', 's2', 's0 s1', '']


def apply(nodes, numbers):
    """
    Style some of the words, or parts of them, and some of the elements.
    """
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.extend(spans(n, numbers))
            continue
        n = [n[0], n[1], apply(n[2], numbers)]
        if n[0] in ('span', 'x', 'code'):
            name = NAMES[next(numbers) % len(NAMES)]
            text = dom.text_of(n[2])
            if name:
                n = gen.add_class(n, name)
        out.append(n)
    return out


def spans(text, numbers):
    out = []
    at = 0
    while at < len(text):
        start = at + next(numbers) % 16
        end = start + 1 + next(numbers) % 25
        inner = text[start:end]
        if next(numbers) % 3:
            # No white space at either end of it.
            start += len(inner) - len(inner.lstrip())
            inner = inner.strip()
        if not inner:
            out.append(text[at:end])
            at = end
            continue
        end = start + len(inner)
        if start > at:
            out.append(text[at:start])
        out.append(['span', {'class': STYLES[next(numbers) % 3]}, [inner]])
        at = end
    return out


PLAIN = {'class': 'InlineRenderer', 'settings': {}}


def without(settings):
    """
    The same settings, without the escape sequences in them.
    """
    out = {}
    for k, v in settings.items():
        if isinstance(v, str):
            v = ESCAPE.sub('', v)
        elif k == 'border':
            v = [ESCAPE.sub('', b) for b in v]
        out[k] = v
    return out


def plain_config(cfg):
    """
    The styles without the escape sequences.
    """
    out = dict(cfg, renderers={})
    for selector, d in cfg['renderers'].items():
        if d.get('class') == 'AnsiEscapeCodeRenderer':
            d = {'class': 'InlineRenderer', 'settings': dict(
                (k, v) for k, v in d['settings'].items() if k in ('capitalized', 'template'))}
        out['renderers'][selector] = dict(d, settings=without(d['settings']))
    return out


def check(case):
    cfg, nodes = case['cfg'], case['nodes']
    source = dom.to_html(nodes)
    styled = dom.render(source, **cfg)
    plain = dom.render(source, **plain_config(cfg))
    core.expect('\x1b' not in plain, 'escape sequences without a renderer for them')
    visible = ESCAPE.sub('', styled)
    core.expect('\x1b' not in visible, 'an escape sequence is broken: {!r}', visible)
    common.agree(visible, plain, 'the text without the escape sequences')
    count = sum(1 for n, p in dom.elements(nodes) if set(n[1].get('class', '').split()) & set(STYLES))
    return count >= 2 and plain.count('\n') >= 3, common.labels_of(case) + ['styled %d' % min(count, 8)]


# All of the escape sequences, in order: documents without anything that is rendered twice.

@cached
@st.composite
def sequence_cases(draw):
    case = draw(cases())
    case['cfg'].pop('extracted_link_renderers', None)
    case['cfg']['link_placement'] = 'inline'
    case['cfg'].pop('output_format', None)
    for d in case['cfg']['renderers'].values():
        d['settings'] = without(d['settings'])
    return case


def sequences(nodes, cfg, within=()):
    """
    What every character of the document, in order, has around it.
    """
    for n in nodes:
        if isinstance(n, str):
            continue
        names = set(n[1].get('class', '').split()) & set(STYLES)
        inner = list(sequences(n[2], cfg))
        if names:
            merged = {}
            for name in STYLES:
                if name in names:
                    merged.update(cfg['renderers']['.' + name]['settings'])
            before, after = own(merged)
            inner = before + inner + after
        yield from inner


CODES = {
    'bold': (1, 22), 'faint': (2, 22), 'italic': (3, 23), 'fraktur': (20, 23), 'underline': (4, 24),
    'slow_blink': (5, 25), 'rapid_blink': (6, 25), 'invert': (7, 27), 'conceal': (8, 28),
    'crossed_out': (9, 29), 'framed': (51, 54), 'encircled': (52, 54), 'overlined': (53, 55),
}


def own(s):
    """
    The number of sequences at the start and at the end (what they are is another property).
    """
    n = sum(1 for e in CODES if s.get(e)) + sum(
        1 for k in ('font', 'foreground_colour', 'background_colour') if s.get(k) is not None)
    return ['on'] * n, ['off'] * (1 if s.get('normalise') else n)


OFF = {'22', '23', '24', '25', '27', '28', '29', '54', '55', '39', '49', '10', '0'}


def check_sequences(case):
    cfg, nodes = case['cfg'], case['nodes']
    out = dom.render(dom.to_html(nodes), **cfg)
    actual = [('off' if s[2:-1] in OFF else 'on') for s in ESCAPE.findall(out)]
    expected = list(sequences(nodes, cfg))
    # Font 0 is both the default font and how to get back to it.
    if any(d.get('settings', {}).get('font') == 0 for d in cfg['renderers'].values()):
        return False, ['font 0']
    core.expect_equal(actual, expected, 'the escape sequences')
    return len(expected) >= 6, ['sequences %d+' % min(len(expected) // 10 * 10, 50)]


# Headers of several lines.

@cached
@st.composite
def header_cases(draw):
    cfg = draw(gen.page(widths=ints(8, 80)))
    renderers = {}
    tags = ['h1', 'h2', 'h6', 'dt']
    for tag in tags:
        s = {'underlined': True, 'underline_full': draw(ints(0, 3)) == 0, 'centered': draw(BOOL), 'capitalized': draw(ints(0, 3)) == 0}
        if draw(ints(0, 2)) == 0:
            s.update(spread=draw(ints(1, 3)), spread_char=draw(choice([' ', '.', '--'])))
        if draw(ints(0, 2)) == 0:
            s['template'] = draw(choice(['<{}>', '-- {}', '{}\n*']))
        renderers[tag] = {'class': 'HeaderRenderer', 'settings': s}
    for c in STYLES:
        renderers['.' + c] = {'class': 'AnsiEscapeCodeRenderer', 'settings': draw(style())}
    cfg['renderers'] = renderers
    nodes = []
    for i in range(draw(ints(1, 3))):
        content = draw(gen.inline(max_items=3, max_words=4, pool=gen.JOINED, styles=['span', 'x']))
        for j in range(draw(ints(0, 3))):
            content += [['br', {}, []]] + draw(gen.inline(max_items=2, max_words=4, pool=gen.JOINED, styles=['span', 'x']))
        tag = draw(choice(tags))
        nodes.append([tag, {}, content] if tag != 'dt' else ['dl', {}, [[tag, {}, content]]])
    return {'cfg': cfg, 'nodes': apply(nodes, itertools.cycle(draw(st.lists(st.integers(0, 999), min_size=4, max_size=24))))}


# The wrapping and alignment functions themselves.

@cached
@st.composite
def function_cases(draw):
    words = draw(st.lists(gen.words(pool=gen.JOINED), min_size=1, max_size=25))
    spaces = draw(st.lists(choice([' ', ' ', ' ', '  ', '   ', '\t', '\n', '\xa0', ' \n ']), min_size=1, max_size=6))
    text = ''.join(s for pair in zip(words, itertools.cycle(spaces)) for s in pair)
    if draw(BOOL):
        text = text.strip()
    if draw(ints(0, 5)) == 0:
        text = draw(choice(spaces)) + text
    escapes = draw(st.lists(st.tuples(ints(0, 300), choice(['\x1b[1m', '\x1b[0m', '\x1b[38;5;1m', '\x1b[38;2;1;2;3m', '\x1b[m', '\x1b[39m'])), max_size=12))
    at = {}
    for i, e in escapes:
        # Next to a visible character on both sides, or at one end of a word.
        at.setdefault(i % (len(text) + 1), []).append(e)
    styled = []
    for i in range(len(text) + 1):
        styled.extend(at.get(i, []))
        styled.append(text[i:i + 1])
    options = {}
    for k, v in [('initial_indent', ['', '  ']), ('subsequent_indent', ['', '   ']),
                 ('break_long_words', [True, False]), ('break_on_hyphens', [True, False]),
                 ('fix_sentence_endings', [True, False])]:
        if draw(ints(0, 2)) == 0:
            options[k] = draw(choice(v))
    return {'text': ''.join(styled), 'width': draw(st.one_of(ints(1, 6), ints(6, 50))), 'options': options, 'spread': draw(ints(0, 3))}


def check_functions(case):
    text, width, options = case['text'], case['width'], case['options']
    plain = ESCAPE.sub('', text)
    escapes = ESCAPE.findall(text)
    with core.library('the layout functions'):
        r = dom.rendering()
        results = [
            (name, f(text, width, **options), f(plain, width, **options))
            for name, f in (
                ('left', r.left_justify), ('right', r.right_justify), ('center', r.center_justify), ('full', r.full_justify),
            )
        ]
        results.append(('center', r.center(text, width), r.center(plain, width)))
        results.append(('right', r.right(text, width), r.right(plain, width)))
        results.append(('capitalize', r.capitalize(text), plain.upper()))
        if case['spread']:
            results.append(('spread', r.spread(text, '-', case['spread']), ('-' * case['spread']).join(plain)))
    for name, styled, expected in results:
        core.expect_equal(ESCAPE.sub('', styled), expected, name + ' of ' + repr(text))
        core.expect_equal(ESCAPE.findall(styled), escapes, 'the escape sequences, ' + name)
    return len(escapes) >= 2 and plain.count(' ') >= 2, ['escapes %d' % min(len(escapes), 8)]


# Preformatted text, where the styles can start and end anywhere, as those of highlighted
# lines do.

@cached
@st.composite
def pre_cases(draw):
    cfg = draw(gen.page(widths=ints(8, 80)))
    renderers = {'.c0': {'settings': dict(draw(gen.box()))}}
    for c in STYLES:
        renderers['.' + c] = {'class': 'AnsiEscapeCodeRenderer', 'settings': draw(style())}
    cfg['renderers'] = renderers
    if draw(ints(0, 3)) == 0:
        cfg.update(output_format='gophermap', gopher_host='host.example', gopher_port=70)
    nodes = []
    for i in range(draw(ints(1, 3))):
        lines = draw(st.lists(choice(gen.CODE_LINES + ['', 'a', '  two  spaces  ', '   ', 'a\tb', '1234\t\tx\ty']), min_size=1, max_size=6))
        lines[0] = lines[0].strip() or 'first'
        if not lines[-1].strip():
            lines[-1] = 'last'
        text = '\n'.join(lines) + draw(choice(['', '\n', '\n']))
        content = draw(split(text, 2))
        if draw(BOOL):
            content = [['code', {}, content]]
        pre = ['pre', {'class': 'c0'} if draw(BOOL) else {}, content]
        nodes.append(['blockquote', {}, [pre]] if draw(ints(0, 4)) == 0 else pre)
        if draw(ints(0, 2)) == 0:
            nodes.append(['p', {}, ['after']])
    return {'cfg': cfg, 'nodes': nodes}


@st.composite
def split(draw, text, depth):
    out = []
    at = 0
    while at < len(text):
        to = min(len(text), at + draw(choice([1, 2, 3, 5, 8, 13, 30, 100])))
        if draw(ints(0, 3)) == 0:
            to = text.find('\n', at) + 1 or len(text)
        piece = text[at:to]
        if draw(BOOL):
            inner = draw(split(piece, depth - 1)) if depth and draw(BOOL) else [piece]
            out.append(['span', {'class': draw(choice(STYLES))}, inner])
        else:
            out.append(piece)
        at = to
    return gen.merge(out)


FACETS = [
    core.Facet('preformatted', pre_cases, check, quick=1600),
    core.Facet('documents', cases, check, quick=2500),
    core.Facet('headers', header_cases, check, quick=1200),
    core.Facet('sequences', sequence_cases, check_sequences, quick=1200),
    core.Facet('functions', function_cases, check_functions, quick=5000),
]
