"""
The margins, padding and borders of nested blocks.
"""
import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C04'
RULE = (
    'Documents of separated blocks of every kind nested up to 4 deep, with random margins, padding '
    'and borders (of several characters, too) on any of them, against a model that frames the content '
    'of each block on its own; and the law that a framed document is the frame around the document '
    'rendered at the smaller width. Non-trivial: at least one block with a frame. Second, chains of boxes '
    'in boxes, and the sums that their widths have to be. Non-trivial: at least two boxes.'
)

KINDS = ['p', 'p', 'h', 'ul', 'ol', 'dl', 'blockquote', 'div', 'div', 'pre']


@cached
@st.composite
def cases(draw):
    cfg = draw(gen.page(widths=ints(20, 90)))
    ia = dict(max_words=8, max_items=2, depth=1)
    nodes = draw(gen.with_classes(gen.blocks(depth=3, kinds=KINDS, inline_args=ia, max_blocks=3, items=draw(BOOL)), one_in=1))
    cfg['renderers'] = dict(
        ('.c%d' % i, {'settings': draw(gen.box())}) for i in range(3)
    )
    return {'cfg': cfg, 'nodes': nodes}


def check(case):
    out = common.check_model(case)
    framed = [
        n for n, p in dom.elements(case['nodes'])
        if n[1].get('class') and case['cfg']['renderers']['.' + n[1]['class']]['settings']
    ]
    labels = common.labels_of(case)
    labels.append('framed %d' % min(len(framed), 4))
    return len(framed) > 0, labels


# The law: there is no model of the blocks here, only of one frame.

@cached
@st.composite
def law_cases(draw):
    ia = dict(max_words=10, max_items=2, depth=1, links=gen.link(), images=gen.image())
    nodes = draw(gen.with_classes(gen.blocks(depth=2, kinds=KINDS, inline_args=ia, max_blocks=3, items=draw(BOOL)))) if draw(ints(0, 15)) else []
    renderers = dict(('.c%d' % i, {'settings': draw(gen.box())}) for i in range(3))
    frame = {
        'margin': [draw(ints(0, 3)), draw(ints(0, 6)), draw(ints(0, 3)), draw(ints(0, 6))],
        'padding': [draw(ints(0, 3)), draw(ints(0, 6)), draw(ints(0, 3)), draw(ints(0, 6))],
        'border': draw(choice(gen.BORDERS)),
    }
    used = sum(frame[k][i] for k in ('margin', 'padding') for i in (1, 3))
    used += len(frame['border'][1]) + len(frame['border'][3])
    width = draw(ints(12, 70))
    return {
        'cfg': {'link_placement': 'inline', 'image_placement': 'inline', 'optimise': draw(BOOL)},
        'renderers': renderers, 'frame': frame, 'width': width, 'outer': width + used, 'nodes': nodes,
    }


def put_frame(lines, frame, inner):
    margin, padding, border = frame['margin'], frame['padding'], frame['border']
    room = inner + padding[1] + padding[3]

    def row(line):
        return border[3] + (' ' * padding[3] + line).ljust(room) + border[1]

    full = room + len(border[1]) + len(border[3])
    out = [c * full for c in border[0]]
    out += [row('')] * padding[0]
    out += [row(l) for l in lines]
    out += [row('')] * padding[2]
    out += [c * full for c in border[2]]
    out = [' ' * margin[3] + l for l in out]
    return '\n' * margin[0] + '\n'.join(out) + '\n' * margin[2]


def check_law(case):
    cfg = dict(case['cfg'], renderers=case['renderers'])
    inner = dom.render(dom.to_html(case['nodes']), **dict(cfg, width=case['width'], optimise=False))
    # Lines that do not fit (code, for example) do not move the frame of the others.
    expected = put_frame(inner.split('\n'), case['frame'], case['width'])
    renderers = dict(case['renderers'])
    renderers['#frame'] = {'settings': case['frame']}
    actual = dom.render(
        dom.to_html([['div', {'id': 'frame'}, case['nodes']]]),
        **dict(cfg, width=case['outer'], renderers=renderers))
    common.agree(actual, expected, 'the framed document')
    f = case['frame']
    framed = any(f['margin']) or any(f['padding']) or any(f['border'])
    return framed, ['border' if any(f['border']) else 'no border']


# The widths of boxes in boxes, which renderers written by the user rely on as well.

TEMPLATES = [None, None, None, '{}', '> {}', '====> {} <====', '   {}   ', '{} |', '* {}', '10. {}', '\x1b[1m>\x1b[0m {}', '']


@cached
@st.composite
def chains(draw):
    boxes = []
    for i in range(draw(st.one_of(ints(1, 6), ints(1, 6), ints(5, 15)))):
        box = {}
        for k in ('margin', 'padding', 'border'):
            kind = draw(ints(0, 3))
            if kind:
                box[k] = None if kind == 3 and draw(BOOL) else draw(st.lists(ints(0, 9), min_size=4, max_size=4))
        # The outermost box is the page, which has no lines of its own.
        t = draw(choice(TEMPLATES))
        if i and t is not None:
            box['line_template'] = t
        boxes.append(box)
    return {'width': draw(ints(-5, 200)), 'boxes': boxes}


def check_chain(case):
    r = dom.rendering()
    sides = []
    templates = []
    made = []
    expected = []
    parent = None
    lists = []
    for i, settings in enumerate(case['boxes']):
        kwargs = dict((k, list(v) if isinstance(v, list) else v) for k, v in settings.items())
        lists.extend((v, list(v)) for v in kwargs.values() if isinstance(v, list))
        if parent is None:
            kwargs['width'] = case['width']
        elif i % 2:
            # That of the parent counts.
            kwargs['width'] = 7
        with core.library('making a box'):
            box = r.Box(parent=parent, **kwargs)
        made.append(box)
        parent = box
        own = dict((k, [(settings.get(k) or [0] * 4)[j] for j in (1, 3)]) for k in ('margin', 'padding', 'border'))
        own_template = len(common.visible(settings.get('line_template') or '{}')) - 2
        sides.append(own)
        templates.append(own_template)

        def total(k, of=None):
            return sum(sum(s[k]) for s in (sides if of is None else of))
        inner = case['width'] - total('margin') - total('padding') - total('border')
        padded = case['width'] - total('margin') - total('border') - total('padding', sides[:-1]) - sum(templates[:-1])
        expected.append({
            'inner_width': inner,
            'inner_width_excluding_line_template': inner - sum(templates),
            'padded_width': padded,
            'bordered_width': padded + sum(own['border']),
            'margin': settings.get('margin') or [0] * 4, 'padding': settings.get('padding') or [0] * 4, 'border': settings.get('border') or [0] * 4,
        })
    for i, (box, e) in enumerate(zip(made, expected)):
        with core.library('reading the widths of a box'):
            actual = dict((k, getattr(box, k)) for k in e)
            repr(box)
        core.expect_equal(actual, e, 'the widths of box number %d' % (i + 1))
    # Each has lists of its own.
    for i, box in enumerate(made):
        for k in ('margin', 'padding', 'border'):
            if isinstance(getattr(box, k), list):
                getattr(box, k)[i % 4] += 100
                expected[i][k] = [v + (100 if j == i % 4 else 0) for j, v in enumerate(expected[i][k])]
    with core.library():
        fresh = r.Box()
    core.expect_equal([fresh.margin, fresh.padding, fresh.border], [[0] * 4] * 3, 'those of a box without any')
    for i, (box, e) in enumerate(zip(made, expected)):
        for k in ('margin', 'padding', 'border'):
            core.expect_equal(getattr(box, k), e[k], 'the %s of box number %d' % (k, i + 1))
    for now, before in lists:
        core.expect_equal(now, before, 'a list that was passed in')
    return len(made) >= 2, ['boxes %d' % len(made)]


FACETS = [
    core.Facet('widths', chains, check_chain, quick=2500),
    core.Facet('nested', cases, check, quick=2500),
    core.Facet('law', law_cases, check_law, quick=1500),
]
