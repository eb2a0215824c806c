"""
Aligned and justified text.
"""
import re
import textwrap

import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C12'
RULE = (
    'Random text justified to random widths by the justification functions and by paragraphs, list '
    'items and definitions in documents: the same words in the same lines as without justification, '
    'exactly as wide as asked for, with the gaps as even as they can be; and documents against the '
    'model. Non-trivial: at least 2 lines, of which one is shorter than the width.'
)


@cached
@st.composite
def cases(draw):
    words = draw(st.lists(gen.words(), min_size=1, max_size=30)) * draw(choice([1, 1, 1, 1, 1, 4]))
    options = {'fix_sentence_endings': False}
    for k, v in [('initial_indent', ['', '  ']), ('subsequent_indent', ['', '   ']),
                 ('break_long_words', [True, False]), ('break_on_hyphens', [True, False])]:
        if draw(ints(0, 3)) == 0:
            options[k] = draw(choice(v))
    return {'text': ' '.join(words), 'width': draw(st.one_of(ints(8, 70), ints(8, 70), ints(8, 70), ints(60, 300))), 'options': options}


def check(case):
    text, width, options = case['text'], case['width'], case['options']
    plain = textwrap.wrap(text, width, **options)
    with core.library('the justification functions'):
        r = dom.rendering()
        left = r.left_justify(text, width, **options).split('\n')
        right = r.right_justify(text, width, **options).split('\n')
        center = r.center_justify(text, width, **options).split('\n')
        full = r.full_justify(text, width, **options).split('\n')
    core.expect_equal(left, plain, 'left')
    for name, lines in (('right', right), ('center', center), ('full', full)):
        core.expect_equal([l.split() for l in lines], [l.split() for l in plain], 'the words of the lines, ' + name)
    for p, r_, c, f in zip(plain, right, center, full):
        if len(p) <= width:
            core.expect_equal(r_, ' ' * (width - len(p)) + p, 'right')
            core.expect(len(c) == width and c.strip() == p.strip(), 'not centered to {}: {!r}', width, c)
            # As many spaces on the left as on the right, or one off.
            before = len(c) - len(c.lstrip()) - (len(p) - len(p.lstrip()))
            after = width - len(p) - before
            core.expect(abs(before - after) <= 1, 'not in the center of {}: {!r}', width, c)
        else:
            core.expect(r_ == c == p, 'a line too long for {} is changed: {!r}', width, p)
    for i, (p, f) in enumerate(zip(plain, full)):
        gaps = [len(g) for g in re.findall(' +', f.strip())]
        if i == len(plain) - 1 or len(p) > width or not gaps:
            core.expect_equal(f, p, 'the last line, or one without gaps, in full')
            continue
        core.expect(len(f) == width, 'not justified to {}: {!r}', width, f)
        core.expect_equal(len(f) - len(f.lstrip()), len(p) - len(p.lstrip()), 'the indentation in full')
        core.expect(max(gaps) - min(gaps) <= 1, 'the gaps are uneven: {!r}', f)
    short = [p for p in plain if len(p) < width]
    return len(plain) >= 2 and bool(short), ['lines %d' % min(len(plain), 6)]


@cached
@st.composite
def document_cases(draw):
    cfg = draw(gen.page(widths=st.one_of(ints(12, 80), ints(12, 80), ints(12, 80), ints(80, 300))))
    renderers = {}
    for c in ('c0', 'c1', 'c2'):
        s = dict(draw(gen.box()))
        s['justification'] = draw(choice(['left', 'right', 'center', 'full', 'full', 'none']))
        if draw(BOOL):
            s['initial_indent'] = draw(ints(0, 4))
            s['subsequent_indent'] = draw(ints(0, 4))
        s['fix_sentence_endings'] = draw(BOOL)
        renderers['.' + c] = {'settings': s}
    cfg['renderers'] = renderers
    ia = dict(br=True, max_words=16, depth=1)
    nodes = draw(gen.with_classes(
        gen.blocks(depth=1, kinds=['p', 'p', 'ul', 'ol', 'dl', 'blockquote'], inline_args=ia, max_blocks=3, items=draw(BOOL)),
        kinds=('p', 'li', 'dd'), one_in=0))
    return {'cfg': cfg, 'nodes': nodes}


def check_document(case):
    out = common.check_model(case)
    labels = common.labels_of(case)
    used = set()
    for n, p in dom.elements(case['nodes']):
        for c in n[1].get('class', '').split():
            used.add(case['cfg']['renderers']['.' + c]['settings']['justification'])
    labels.extend('justified ' + u for u in sorted(used))
    return bool(used - {'left', 'none'}) and len(out.split('\n')) > 3, labels


FACETS = [
    core.Facet('functions', cases, check, quick=5000),
    core.Facet('documents', document_cases, check_document, quick=2500),
]
