"""
Documents as JSON-able trees, and how to hand them to the code under test.

A node is a string (text), or [tag, {attribute: value}, [children]].
"""
import html as _html
import re

import core

VOID = {
    'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta',
    'param', 'source', 'track', 'wbr',
}


def attributes(attrs):
    out = []
    for k, v in attrs.items():
        if v is None:
            out.append(' ' + k)
        else:
            out.append(' {}="{}"'.format(k, _html.escape(v, quote=True)))
    return ''.join(out)


def escape(text, bare=False):
    """
    The source of a text. Ampersands may be bare where they cannot be mistaken for the
    start of a character reference.
    """
    out = _html.escape(text, quote=False)
    if bare and '&' in text and '<' not in text and '>' not in text and _html.unescape(text + ' ') == text + ' ':
        return text
    return out


def to_html(nodes, bare=False):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(escape(n, bare))
        else:
            tag, attrs, children = n
            if tag == '!--':
                out.append('<!--{}-->'.format(''.join(children)))
                continue
            out.append('<{}{}>'.format(tag, attributes(attrs)))
            if tag not in VOID:
                out.append(to_html(children, bare))
                out.append('</{}>'.format(tag))
    return ''.join(out)


def lines(text, keepends=False):
    """
    The lines of a text: only line breaks separate them, and no other characters.
    """
    out = re.findall('[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+', text)
    return out if keepends else [l.rstrip('\r\n') for l in out]


def walk(nodes, parents=()):
    """
    All of the nodes in source order, each with its ancestors (outermost first).
    """
    for n in nodes:
        yield n, parents
        if not isinstance(n, str) and n[0] != '!--':
            yield from walk(n[2], parents + (n,))


def elements(nodes):
    return [(n, p) for n, p in walk(nodes) if not isinstance(n, str) and n[0] != '!--']


def tags(nodes):
    return {n[0] for n, p in elements(nodes)}


def text_of(nodes):
    return ''.join(n for n, p in walk(nodes) if isinstance(n, str))


def rendering():
    import gopher_render.rendering as r
    return r


def namedict():
    # The type of the settings of renderers, whatever module it is in.
    return type(rendering().Renderer.settings)


def marked(base, mark):
    class Marked(base):
        def render(self, content):
            return super().render(mark + content)
    return Marked


def make_renderers(spec):
    """
    Renderers from a JSON-able description: the value for a selector is a dictionary
    with a "class" (a name in gopher_render.rendering), "settings", or both.
    """
    r = rendering()
    out = {}
    for selector, d in spec.items():
        cls = getattr(r, d['class']) if d.get('class') else None
        if d.get('mark'):
            # Classes that have the same name, but not the same results.
            cls = marked(cls, d['mark'])
        if 'settings' in d:
            # Colours can be tuples, which JSON does not have.
            out[selector] = (cls, dict(
                (k, tuple(v) if k.endswith('_colour') and isinstance(v, list) else v)
                for k, v in d['settings'].items()
            ))
        else:
            out[selector] = cls
    return out


def make_parser(cfg):
    """
    A parser from JSON-able configuration. Margins of the page, if there are any,
    are given as page_margin.
    """
    import gopher_render
    kwargs = dict(cfg)
    kwargs.pop('chunks', None)
    if 'page_margin' in kwargs:
        margin = kwargs.pop('page_margin')
        kwargs['box'] = rendering().Box(width=kwargs.pop('width', 67), margin=list(margin))
    if 'renderers' in kwargs:
        kwargs['renderers'] = make_renderers(kwargs['renderers'])
    if 'extracted_link_renderers' in kwargs:
        kwargs['extracted_link_renderers'] = make_renderers(kwargs['extracted_link_renderers'])
    return gopher_render.GopherHTMLParser(**kwargs)


def render(source, **cfg):
    """
    Render HTML with the code under test.
    """
    with core.library():
        parser = make_parser(cfg)
        parser.feed(source)
        parser.close()
        out = parser.parsed
    core.expect(isinstance(out, str), 'the result is not a string: {!r}', out)
    return out


def render_with(source, cfg, renderers):
    """
    The same, with renderer objects rather than a description of them.
    """
    with core.library():
        import gopher_render
        parser = gopher_render.GopherHTMLParser(renderers=renderers, **cfg)
        parser.feed(source)
        parser.close()
        out = parser.parsed
    core.expect(isinstance(out, str), 'the result is not a string: {!r}', out)
    return out


def rstripped(text):
    return '\n'.join(l.rstrip() for l in text.split('\n'))
