"""
A document is rendered the same whatever has been rendered before it, or at the same time.
"""
import copy
import json
import os
import subprocess
import sys

import core
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C16'
RULE = (
    'Random histories in one process: documents rendered by new parsers, by parsers that are reset or '
    'closed again, fed in turns with other parsers, abandoned in the middle of an element, with the '
    'configuration objects (renderers, boxes) shared by all of them. Every result is compared with that '
    'of a process that has not rendered anything (with another hash seed). The shared objects must not '
    'have changed. Non-trivial: at least 3 results, of which one is with a reused or interleaved parser. '
    'Second, while a document is being rendered, a renderer renders another one with the same configuration, '
    'or raises an exception, after which the parser is reset and used again. Non-trivial: that has happened.'
)

SELECTORS = ['.c0', '.c1', '.c2', 'p', 'li', 'blockquote > p', 'p:first-child', 'em', 'h1']
FRAGMENTS = [
    '<pre>x', '<pre><code> a\n  b', '<ul><li>one', '<ol><li>1<li>2', '<p>text <em>and', '<a href="/x">link', '<blockquote><p>q',
    'text &am', 'text &#6', '<p', '<p class="c0', '<!-- comment', '<script>if (a', '</p>', '<a href="/y"><img src="z"', 'plain',
    '<dl><dt>x', '\n', '<p>one</p>\n<p>two',
]


@cached
@st.composite
def config(draw):
    cfg = draw(gen.page(widths=ints(15, 80)))
    cfg['link_placement'] = draw(choice(['footer', 'footer', 'inline', 'after_block']))
    cfg['image_placement'] = draw(choice(['footer', 'inline']))
    if draw(ints(0, 3)) == 0:
        cfg.update(output_format='gophermap', gopher_host='gopher.example', link_placement='footer')
    if draw(ints(0, 3)) > 0:
        renderers = {}
        for s in draw(st.lists(choice(SELECTORS), min_size=1, max_size=4, unique=True)):
            settings = dict(draw(gen.box()))
            settings.update(draw(gen.wrap_options()))
            if s in ('p', 'li', 'em', 'h1', 'blockquote > p'):
                cls = {'em': 'StrongRenderer', 'li': 'ListItemRenderer', 'h1': 'HeaderRenderer'}.get(s, 'ParagraphRenderer')
                renderers[s] = {'class': cls, 'settings': settings}
                if draw(ints(0, 2)) == 0:
                    renderers[s]['mark'] = draw(choice('12345'))
            else:
                renderers[s] = {'settings': settings}
        cfg['renderers'] = renderers
    return cfg


@cached
@st.composite
def documents(draw):
    ia = dict(links=gen.link(), images=gen.image(), br=True, max_words=5)
    nodes = draw(gen.with_classes(gen.blocks(depth=1, inline_args=ia, max_blocks=3, items=draw(BOOL))))
    source = dom.to_html(nodes)
    if draw(ints(0, 2)) == 0:
        source = source.replace(' ', draw(choice(['  ', '\n', '\n   '])))
    if draw(ints(0, 4)) == 0:
        # Unfinished.
        source = source[:draw(ints(0, max(len(source) - 1, 0)))]
    if draw(ints(0, 3)) == 0:
        source += draw(choice(FRAGMENTS))
    return source


@cached
@st.composite
def alike_configs(draw):
    """
    Up to two configurations, which may differ in one place only.
    """
    configs = [draw(config())]
    k = draw(ints(0, 3))
    if k == 1:
        configs.append(draw(config()))
    elif k > 1:
        other = copy.deepcopy(configs[0])
        renderers = other.get('renderers')
        if renderers and draw(BOOL):
            selector = draw(choice(sorted(renderers)))
            if renderers[selector].get('class') and draw(BOOL):
                renderers[selector]['mark'] = draw(choice('67'))
            elif draw(BOOL):
                renderers[selector]['settings'].update(draw(gen.wrap_options()))
            elif draw(BOOL):
                renderers[draw(choice([s for s in SELECTORS if s not in renderers]))] = renderers.pop(selector)
            else:
                # In another order.
                renderers[selector] = renderers.pop(selector)
        else:
            k = draw(choice(['width', 'link_placement', 'image_placement', 'optimise']))
            if k == 'width':
                other[k] = other.get(k, 67) + draw(choice([-1, 1, 10]))
            elif k == 'optimise':
                other[k] = not other.get(k, True)
            elif 'output_format' not in other:
                other[k] = draw(choice(['footer', 'inline', 'after_block']))
        configs.append(other)
    return configs


@cached
@st.composite
def cases(draw):
    configs = draw(alike_configs())
    docs = draw(st.lists(documents(), min_size=1, max_size=3))
    steps = draw(st.lists(st.tuples(
        choice(['new', 'reset', 'reset', 'again', 'interleave', 'abandon', 'refused']), ints(0, 2), ints(0, 1), ints(0, 2), choice(FRAGMENTS),
    ), min_size=3, max_size=8))
    return {'configs': configs, 'docs': docs, 'steps': [list(s) for s in steps]}


class Pristine:
    process = None
    pid = None
    known = {}

    @classmethod
    def render(cls, source, cfg):
        key = json.dumps([source, cfg], sort_keys=True)
        if key in cls.known:
            return cls.known[key]
        if cls.process is None or cls.pid != os.getpid():
            env = dict(os.environ, PYTHONHASHSEED='4242')
            zygote = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'zygote.py')
            cls.process = subprocess.Popen(
                [sys.executable, '-B', '-W', 'ignore', zygote], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
            cls.pid = os.getpid()
        cls.process.stdin.write(json.dumps({'source': source, 'cfg': cfg}) + '\n')
        cls.process.stdin.flush()
        line = cls.process.stdout.readline()
        if not line:
            raise RuntimeError('the process to compare with is gone')
        answer = json.loads(line)
        if len(cls.known) > 3000:
            cls.known.clear()
        cls.known[key] = answer
        return answer


def kwargs_of(cfg):
    """
    The arguments for the parser, made once.
    """
    kwargs = dict(cfg)
    if 'page_margin' in kwargs:
        kwargs['box'] = dom.rendering().Box(width=kwargs.pop('width'), margin=list(kwargs.pop('page_margin')))
    if 'renderers' in kwargs:
        kwargs['renderers'] = dom.make_renderers(kwargs['renderers'])
    return kwargs


def state(kwargs):
    out = {}
    for k, v in kwargs.items():
        if k == 'box':
            out[k] = copy.deepcopy(vars(v))
        elif k == 'renderers':
            out[k] = [(s, (r[0], copy.deepcopy(r[1])) if isinstance(r, tuple) else r) for s, r in v.items()]
        else:
            out[k] = v
    return out


def check(case):
    with core.library('making the configuration'):
        import gopher_render
        shared = [kwargs_of(c) for c in case['configs']]
    before = [state(k) for k in shared]
    parsers = {}
    results = 0
    reused = 0
    kinds = set()

    def expected(doc, c):
        answer = Pristine.render(doc, case['configs'][c])
        if 'error' in answer:
            raise core.Violation(answer['error'])
        return answer['out']

    for kind, d, c, other, fragment in case['steps']:
        kinds.add(kind)
        c = c % len(shared)
        doc = case['docs'][d % len(case['docs'])]
        second = case['docs'][other % len(case['docs'])]
        what = 'the result of {} with {!r} after {}'.format(kind, doc, sorted(kinds))
        with core.library():
            if kind == 'refused':
                for bad in (dict(output_format='gophermap', link_placement='inline', gopher_host='h'), dict(output_format='gophermap')):
                    try:
                        gopher_render.GopherHTMLParser(**bad)
                    except ValueError:
                        pass
                    else:
                        raise core.Violation('a configuration that cannot work is accepted: {}'.format(bad))
                continue
            if kind == 'abandon':
                p = gopher_render.GopherHTMLParser(**shared[c])
                p.feed(doc)
                p.feed(fragment)
                parsers[c] = p
                continue
            if kind == 'interleave':
                p = gopher_render.GopherHTMLParser(**shared[c])
                q = gopher_render.GopherHTMLParser(**shared[c])
                half, other_half = len(doc) // 2, len(second) // 2
                # Not in the middle of anything.
                half = doc.rfind('<', 0, half + 1) if '<' in doc[:half] else 0
                other_half = second.rfind('<', 0, other_half + 1) if '<' in second[:other_half] else 0
                p.feed(doc[:half])
                q.feed(second[:other_half])
                p.feed(doc[half:])
                p.close()
                q.feed(second[other_half:])
                q.close()
                got = [(p.parsed, doc), (q.parsed, second)]
                parsers[c] = p
                reused += 1
            elif kind == 'new' or c not in parsers:
                p = gopher_render.GopherHTMLParser(**shared[c])
                p.feed(doc)
                p.close()
                got = [(p.parsed, doc)]
                parsers[c] = p
            elif kind == 'reset':
                p = parsers[c]
                p.reset()
                p.feed(doc)
                p.close()
                got = [(p.parsed, doc)]
                reused += 1
            elif kind == 'again':
                p = gopher_render.GopherHTMLParser(**shared[c])
                p.feed(doc)
                p.close()
                first = p.parsed
                p.close()
                got = [(first, doc), (p.parsed, doc)]
                parsers[c] = p
                reused += 1
        for out, source in got:
            core.expect_equal(out, expected(source, c), what)
            results += 1
        core.expect_equal([state(k) for k in shared], before, 'the configuration objects after ' + kind)
    return results >= 3 and reused > 0, sorted(kinds)


# Something else happens while a document is being rendered: a renderer renders another
# document, or fails.


@cached
@st.composite
def meanwhile_cases(draw):
    configs = draw(st.lists(config(), min_size=1, max_size=2))
    for cfg in configs:
        renderers = cfg.setdefault('renderers', {})
        for s, c in [('p', 'ParagraphRenderer'), ('li', 'ListItemRenderer'), ('ol > li', 'OrderedListItemRenderer'), ('em', 'EmRenderer'), ('h1, h2, h3', 'HeaderRenderer'), ('blockquote', 'BlockQuoteRenderer'), ('dt', 'HeaderRenderer')]:
            if s not in renderers and draw(ints(0, 3)):
                renderers[s] = {'class': c, 'settings': {}}
        renderers.setdefault('p', {'class': 'ParagraphRenderer', 'settings': {}})
    docs = draw(st.lists(documents(), min_size=1, max_size=3))
    steps = draw(st.lists(st.tuples(
        choice(['render', 'render', 'fail']), ints(0, 2), ints(0, 1), ints(0, 2), ints(0, 1), choice([0, 0, 0, 0, 1, 1, 2, 3, 5])), min_size=1, max_size=4))
    return {'configs': configs, 'docs': docs, 'steps': [list(s) for s in steps]}


class Interrupt(Exception):
    pass


class Hook:
    def __init__(self):
        self.at = None
        self.action = None

    def __call__(self):
        if self.at is None:
            return
        self.at -= 1
        if self.at < 0:
            self.at = None
            self.action()

    def set(self, renderers):
        """
        The same renderers, except that they call this before they render anything.
        """
        hook = self

        def hooked(cls):
            def render(self, content):
                hook()
                return cls.render(self, content)
            return type(cls.__name__, (cls,), {'render': render})
        return dict(
            (k, (hooked(v[0]), v[1]) if isinstance(v, tuple) and v[0] else v) for k, v in renderers.items())


def check_meanwhile(case):
    hook = Hook()
    with core.library('making the configuration'):
        import gopher_render
        shared = [kwargs_of(c) for c in case['configs']]
        for kwargs in shared:
            kwargs['renderers'] = hook.set(kwargs['renderers'])
    before = [state(k) for k in shared]
    happened = 0

    def run(p, doc):
        p.feed(doc)
        p.close()
        return p.parsed

    def expect(out, doc, c, what):
        answer = Pristine.render(doc, case['configs'][c])
        if 'error' in answer:
            raise core.Violation(answer['error'])
        core.expect_equal(out, answer['out'], what)

    for kind, d, c, other, oc, at in case['steps']:
        c, oc = c % len(shared), oc % len(shared)
        doc = case['docs'][d % len(case['docs'])]
        second = case['docs'][other % len(case['docs'])]
        inner = []

        def nested():
            inner.append(run(gopher_render.GopherHTMLParser(**shared[oc]), second))

        def fail():
            inner.append(None)
            raise Interrupt()

        hook.at = at
        hook.action = nested if kind == 'render' else fail
        with core.library():
            p = gopher_render.GopherHTMLParser(**shared[c])
            try:
                out = run(p, doc)
            except Interrupt:
                hook.at = None
                p.reset()
                out = run(p, doc)
                happened += 1
        hook.at = None
        expect(out, doc, c, 'the result, ' + ('and another one while rendering' if kind == 'render' else 'after a renderer has failed'))
        if kind == 'render' and inner:
            expect(inner[0], second, oc, 'the result of rendering within a renderer')
            happened += 1
        core.expect_equal([state(k) for k in shared], before, 'the configuration objects after ' + kind)
    return happened > 0, ['happened %d' % happened]


FACETS = [
    core.Facet('histories', cases, check, quick=3000),
    core.Facet('meanwhile', meanwhile_cases, check_meanwhile, quick=1500),
]
