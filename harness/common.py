"""
Checks that more than one property uses.
"""
import posixpath
import re
from urllib.parse import urlsplit

import core
import dom
import model


# What a URL means as a gophermap item, per RFC 1436 item types and the "URL:"
# convention for anything that is not gopher.

EXTENSIONS = {'html': 'h', 'htm': 'h', 'gif': 'g'}
EXTENSIONS.update(dict.fromkeys(['jpg', 'jpeg', 'png', 'bmp', 'tiff'], 'I'))
EXTENSIONS.update(dict.fromkeys(['txt', 'csv', 'tsv', 'md'], 0))


def item_type(path):
    name = path.rsplit('/', 1)[-1]
    if '.' not in name.lstrip('.'):
        return 1
    return EXTENSIONS.get(name.rsplit('.', 1)[1].lower(), 9)


def gopher_target(href, host, port):
    """
    (type, selector, host, port) for well formed URLs.
    """
    m = re.match(r'([A-Za-z][A-Za-z0-9+.-]*):', href)
    scheme = m.group(1).lower() if m else ''
    if scheme not in ('', 'gopher'):
        return ('h', 'URL:' + href, host, port)
    rest = href[len(m.group(0)):] if m else href
    authority = None
    if rest.startswith('//'):
        authority, slash, rest = rest[2:].partition('/')
        rest = slash + rest
    path = re.split('[?#]', rest, maxsplit=1)[0]
    if scheme == 'gopher':
        m = re.fullmatch(r'(?:.*@)?(?:\[(.*)\]|([^:]*))(?::(\d*))?', authority or '')
        name = m.group(1) or m.group(2)
        return (item_type(path), path, name.lower() or host, int(m.group(3)) if m.group(3) else 70)
    return (item_type(path), path, host, port)


def page_args(cfg):
    keys = (
        'width', 'page_margin', 'output_format', 'link_placement', 'image_placement',
        'gopher_host', 'gopher_port',
    )
    return dict((k, cfg[k]) for k in keys if k in cfg)


def hrefs_of(nodes):
    out = []
    for (tag, attrs, children), parents in dom.elements(nodes):
        if tag == 'a' and attrs.get('href') is not None:
            out.append(attrs['href'])
        elif tag == 'img':
            out.append(attrs.get('src') or '')
    return out


def model_for(cfg, nodes):
    """
    The reference model for a configuration in which all of the renderers have a
    class selector and nothing but settings.
    """
    rules = {}
    for selector, d in cfg.get('renderers', {}).items():
        assert selector[0] == '.' and 'class' not in d
        rules[selector[1:]] = d['settings']
    extracted = None
    if 'extracted_link_renderers' in cfg:
        extracted = {}
        for selector, d in cfg['extracted_link_renderers'].items():
            assert selector[0] == '.' and 'class' not in d
            extracted[selector[1:]] = d['settings']
    host, port = cfg.get('gopher_host', ''), cfg.get('gopher_port', 70)
    targets = dict((h, gopher_target(h, host, port)) for h in hrefs_of(nodes))
    return model.Model(rules=rules, extracted=extracted, targets=targets, **page_args(cfg))


def agree(actual, expected, what='the rendered text'):
    """
    Equal, except for white space at the end of lines.
    """
    a, e = dom.rstripped(actual), dom.rstripped(expected)
    if a == e:
        return
    al, el = a.split('\n'), e.split('\n')
    at = next((i for i, (x, y) in enumerate(zip(al, el)) if x != y), min(len(al), len(el)))
    raise core.Violation('{} differs from line {} on:\n  expected {!r}\n  actual   {!r}'.format(
        what, at + 1, el[at:at + 4], al[at:at + 4]))


def check_model(case):
    """
    The output for {"cfg", "nodes"} is what the reference model makes of it.
    """
    cfg, nodes = case['cfg'], case['nodes']
    actual = dom.render(dom.to_html(nodes), **cfg)
    expected = model_for(cfg, nodes).render(nodes)
    agree(actual, expected)
    return actual


def labels_of(case, output=None):
    """
    Counters that show what the generator produced.
    """
    nodes = case['nodes']
    labels = ['has ' + t for t in sorted(dom.tags(nodes))]
    depth = max([len(p) for n, p in dom.walk(nodes)] + [0])
    labels.append('depth %d' % min(depth, 6))
    return labels


def visible(text):
    """
    The text without the escape sequences for styles.
    """
    return re.sub('\x1b\\[[0-9;]*m', '', text)
