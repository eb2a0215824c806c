"""
Generators of documents and configurations (all of them JSON-able).
"""
import core  # sets up the path to Hypothesis
import functools

from hypothesis import strategies as st


def _key(v):
    if isinstance(v, (list, tuple)):
        return tuple(_key(i) for i in v)
    if isinstance(v, dict):
        return tuple(sorted((k, _key(i)) for k, i in v.items()))
    return v


def cached(make):
    """
    Make every strategy only once: building them takes longer than drawing from them.
    """
    made = {}

    @functools.wraps(make)
    def wrapper(*args, **kwargs):
        key = (_key(args), _key(kwargs))
        if key not in made:
            # The arguments are kept, because strategies are told apart by identity.
            made[key] = (make(*args, **kwargs), args, kwargs)
        return made[key][0]
    return wrapper


ints = cached(st.integers)
choice = cached(st.sampled_from)
BOOL = st.booleans()

POOL = [
    'a', 'I', 'to', 'of', 'the', 'and', 'cat', 'moss', 'stone', 'river', 'gopher',
    'render', 'seven', 'umbrella', 'lighthouse', 'extraordinary', 'incomprehensible',
    'well-known', 'state-of-the-art', 'up-to-date', 'non-', '-x', 'e-mail', 'a--b',
    'end.', 'stop.', 'what?', 'no!', 'quoted."', "it's", 'said.\'', 'Dr.', 'U.S.', 'x.y',
    'One', 'The', 'But', '42', '1999', '3.14', '1.', '100%', '(see', 'above)', 'and/or',
    'comma,', 'colon:', 'semi;', 'naïve', 'Straße', 'ÅÄÖ', 'café', '中文', 'привет', 'é',
    'a\u00a0b', 'x\u2028y', 'u\x85v', 'soft\u00adhyphen', 'zero\u200bwidth', 'em\u2003space', 'v\x0bt',
    'http://example.com/a/b', 'foo@bar.org', '{}', '{0}', '{x}', '}', '%s', '\\n', '&', '<', '"q"',
]
LONG = [
    'x' * 30, 'abcdefghij' * 9, 'supercalifragilisticexpialidocious', 'one-two-three-four-five-six-seven',
    'ÄÖÜ' * 25,
]
# Without any kind of white space, such as non-breaking spaces.
JOINED = [w for w in POOL if not any(c.isspace() for c in w)]
PLAIN = [w for w in JOINED if not set(w) & set('{}%\\&<"')]


@cached
def words(pool=None, long_words=True, extra=True, any_script=False):
    choices = [st.sampled_from(pool or POOL)] * 6
    if long_words:
        choices.append(st.sampled_from(LONG))
    if extra:
        choices.append(st.text(alphabet='abcdefgzXYZ0129.,!?-éß', min_size=1, max_size=14))
    if any_script:
        # Letters, marks, numbers, punctuation and symbols, of any script.
        choices.append(st.text(alphabet=st.characters(categories=['L', 'M', 'N', 'P', 'S'], exclude_characters='>|+'), min_size=1, max_size=8))
        choices.append(st.characters(min_codepoint=0x80, max_codepoint=0x2fff, categories=['L', 'N', 'P', 'S']))
    return st.one_of(*choices)


@cached
def phrase(min_words=1, max_words=12, **kw):
    return st.lists(words(**kw), min_size=min_words, max_size=max_words).map(' '.join)


def merge(items):
    """
    Join adjacent text.
    """
    out = []
    for i in items:
        if isinstance(i, str) and out and isinstance(out[-1], str):
            out[-1] += i
        else:
            out.append(i)
    return [i for i in out if i != '']


STYLES = ['em', 'i', 'strong', 'b', 'u', 'ins', 's', 'del', 'span', 'code']


@cached
@st.composite
def inline(
    draw, max_items=4, depth=2, styles=STYLES, links=None, images=None, br=False,
    max_words=8, inside_link=False, **kw
):
    """
    The content of a paragraph: text, with styles, and optionally links and images
    (strategies for a node) and line breaks.
    """
    out = []
    n = draw(ints(1, max_items))
    for i in range(n):
        if i:
            out.append(draw(choice([' ', ' ', ' ', ''])))
        kinds = ['text', 'text']
        if depth > 0 and styles:
            kinds.append('style')
        if links is not None and not inside_link:
            kinds.append('link')
        if images is not None:
            kinds.append('image')
        if br and i:
            kinds.append('br')
        kind = draw(choice(kinds))
        if kind == 'text':
            out.append(draw(phrase(max_words=max_words, **kw)))
        elif kind == 'br':
            out.append(['br', {}, []])
        elif kind == 'style':
            tag = draw(choice(styles))
            if tag == 'code':
                out.append(['code', {}, [draw(phrase(max_words=3, **kw))]])
            else:
                out.append([tag, {}, draw(inline(
                    max_items=2, depth=depth - 1, styles=styles, links=links, images=images,
                    max_words=4, inside_link=inside_link, **kw
                ))])
        elif kind == 'link':
            node = draw(links)
            content = draw(inline(
                max_items=2, depth=min(depth, 1), styles=styles, images=images, max_words=5,
                inside_link=True, **kw
            ))
            out.append([node[0], node[1], content])
        else:
            out.append(draw(images))
    return merge(out)


HREFS = [
    '/a', '/b.txt', 'c.html', 'http://example.com/', 'https://example.org/x?y=1&z=2#f',
    'gopher://gopher.example/1/dir', 'gopher://gopher.example:7070/file.txt', 'mailto:x@y.z',
    '#frag', 'd/e.png', '/pics/f.gif', 'archive.tar.gz', '/dir.d/g',
]


@cached
def title():
    return st.one_of(phrase(max_words=4, long_words=False), phrase(max_words=4, long_words=False), st.just(''), phrase(min_words=5, max_words=30, extra=False))


@cached
@st.composite
def link(draw, hrefs=HREFS, anchors=True, titles=True):
    attrs = {}
    if not anchors or draw(ints(0, 9)) > 0:
        attrs['href'] = draw(choice(hrefs))
    else:
        attrs['name'] = 'here'
    if titles and draw(ints(0, 2)) == 0:
        attrs['title'] = draw(title())
        if 'href' in attrs and draw(ints(0, 7)) == 0:
            attrs['title'] = attrs['href']
    return ['a', attrs, []]


@cached
@st.composite
def image(draw, hrefs=('i.png', '/p/q.gif', 'http://example.com/z.jpg')):
    attrs = {'src': draw(choice(hrefs))}
    k = draw(ints(0, 3))
    if k == 1:
        attrs['alt'] = ''
    elif k > 1:
        attrs['alt'] = draw(phrase(max_words=4, long_words=False))
    return ['img', attrs, []]


@cached
def paragraph(**kw):
    return inline(**kw).map(lambda c: ['p', {}, c])


@cached
@st.composite
def blocks(draw, depth=2, min_blocks=1, max_blocks=4, kinds=None, inline_args=None, items=False):
    """
    Blocks that are separated from each other by vertical margins.

    items: whether there are blocks in the items of lists as well ('last' if there is no text after them)
    """
    ia = dict(inline_args or {})
    inside = None
    if items and depth > 0:
        inside = blocks(depth=depth - 1, max_blocks=2, kinds=kinds, inline_args=inline_args, items=items)
    kinds = kinds or ['p', 'p', 'h', 'ul', 'ol', 'dl', 'blockquote', 'pre']
    out = []
    for i in range(draw(ints(min_blocks, max_blocks))):
        kind = draw(choice(kinds))
        if depth <= 0 and kind in ('blockquote', 'div'):
            kind = 'p'
        if kind == 'p':
            out.append(draw(paragraph(**ia)))
        elif kind == 'h':
            n = draw(ints(1, 6))
            out.append(['h%d' % n, {}, draw(inline(**dict(ia, max_items=2, depth=1, max_words=4)))])
        elif kind in ('ul', 'ol'):
            out.append(draw(plain_list(kind, ia, inside, items)))
        elif kind == 'dl':
            entries = []
            for j in range(draw(ints(1, 3))):
                entries.append(['dt', {}, draw(inline(**dict(ia, max_items=1, depth=1, max_words=3)))])
                for k in range(draw(ints(0, 2))):
                    entries.append(['dd', {}, draw(item_content(ia, inside, items))])
            out.append(['dl', {}, entries])
        elif kind == 'blockquote':
            out.append(['blockquote', {}, draw(blocks(
                depth=depth - 1, max_blocks=3, kinds=kinds, inline_args=ia, items=items
            ))])
        elif kind == 'div':
            out.append(['div', {}, draw(blocks(
                depth=depth - 1, max_blocks=3, kinds=kinds, inline_args=ia, items=items
            ))])
        elif kind == 'pre':
            out.append(draw(preformatted()))
    return out


@cached
@st.composite
def item_content(draw, ia, inside=None, items=False):
    """
    inside: a strategy for blocks that may be in an item
    """
    content = draw(inline(**dict(ia, max_items=2)))
    k = draw(ints(0, 5)) if inside is not None else 5
    if k == 0:
        return draw(inside)
    if k == 1:
        return content + draw(inside)
    if k == 2 and items != 'last':
        return draw(inside) + content
    return content


@cached
@st.composite
def plain_list(draw, kind, ia, inside=None, items=False, max_items=4):
    out = []
    for j in range(draw(ints(1, max_items))):
        out.append(['li', {}, draw(item_content(ia, inside, items))])
    return [kind, {}, out]


CODE_LINES = [
    'def f(x):', '    return  x', '', 'if (a < b && c > d) {', '}', '\tindented', 'x  =  1   # two  spaces',
    ' leading', 'very ' * 20 + 'long', '<tag attr="1">', '* item', '> quote', 'don\'t   touch', '{}', '{0} {x}',
    'page\x0cbreak', '\x0c', 'v\x0bt', 'x\u2028y', 'n\u00a0b', '\u3000wide', 'u\x85v', '\x1cq',
]


@cached
def code_lines(lines):
    return st.lists(st.sampled_from(lines), min_size=1, max_size=6)


@cached
@st.composite
def preformatted(draw, lines=CODE_LINES, with_code=True):
    content = draw(code_lines(lines))
    text = '\n'.join(content)
    # Neither the end of the block is certain to have a line break, nor the start.
    if not text.strip():
        text = 'code'
    if with_code and draw(BOOL):
        return ['pre', {}, [['code', {}, [text]]]]
    return ['pre', {}, [text]]


@cached
@st.composite
def page(draw, widths=None, margins=True):
    """
    The width of the page, and its margins.
    """
    cfg = {'width': draw(widths or ints(20, 90))}
    if margins and draw(BOOL):
        cfg['page_margin'] = [
            draw(ints(0, 2)), draw(ints(0, 4)), draw(ints(0, 2)), draw(ints(0, 4))
        ]
    return cfg


BORDERS = [
    ['', '', '', ''], ['-', '|', '-', '|'], ['=', '', '=', ''], ['', '|', '', '|'], ['', ' |', '', '| '],
    ['', '', '', '|'], ['', '||', '', ''], ['-=', '>>', '=-', '<'], ['*', '', '', '*'],
]


@cached
@st.composite
def box(draw, border=True, vertical=2, horizontal=4):
    """
    Settings for the box of a block. There is at least one empty line around it.
    """
    s = {}
    k = draw(ints(0, 3))
    if k != 0:
        s['margin'] = [
            draw(ints(1, max(vertical, 1))), draw(ints(0, horizontal)),
            draw(ints(1, max(vertical, 1))), draw(ints(0, horizontal)),
        ]
    if draw(BOOL):
        s['padding'] = [draw(ints(0, vertical)), draw(ints(0, 3)), draw(ints(0, vertical)), draw(ints(0, 3))]
    if border and draw(BOOL):
        s['border'] = draw(choice(BORDERS))
    return s


@cached
@st.composite
def wrap_options(draw):
    s = {}
    for k, v in [
        ('initial_indent', [0, 1, 3, 12]), ('subsequent_indent', [0, 2, 5, 12]), ('drop_whitespace', [True, False]),
        ('fix_sentence_endings', [False, True]), ('break_long_words', [False, True]),
        ('break_on_hyphens', [False, True]), ('capitalized', [True, False]),
        ('justification', ['left', 'right', 'center', 'full', 'none']),
    ]:
        if draw(ints(0, 2)) == 0:
            s[k] = draw(choice(v))
    return s


def add_class(node, name):
    attrs = dict(node[1])
    attrs['class'] = (attrs.get('class', '') + ' ' + name).strip()
    return [node[0], attrs, node[2]]


@cached
@st.composite
def with_classes(draw, nodes, names=('c0', 'c1', 'c2'), kinds=None, one_in=2):
    """
    The same documents, in which some of the blocks have one of the classes.
    """
    wanted = kinds or (
        'p', 'div', 'blockquote', 'ul', 'ol', 'li', 'dl', 'dt', 'dd', 'pre', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6',
    )

    def visit(ns):
        out = []
        for n in ns:
            if isinstance(n, str):
                out.append(n)
                continue
            n = [n[0], n[1], visit(n[2])]
            if n[0] in wanted and draw(ints(0, one_in)) == 0:
                n = add_class(n, draw(choice(names)))
            out.append(n)
        return out
    return visit(draw(nodes))
