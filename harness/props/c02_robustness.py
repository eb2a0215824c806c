"""
Whatever is fed to the parser is rendered.
"""
import html.parser

import core
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C02'
RULE = (
    'Random sequences of start tags, end tags, text, entities, comments, declarations and fragments of '
    'all of them, in no particular order, fed in random pieces, with random configurations: every '
    'placement and format, widths from 1, random boxes, templates, justifications, renderers and '
    'selectors. Also deep nesting, and something repeated up to 60 times everywhere that there is text or a value, with 40 seconds of '
    'processor time as the limit. Rendering has to end, with a string. Non-trivial: at least 3 tags.'
)
ASSUMPTIONS = [
    'markup that the HTML parser of the standard library refuses itself is skipped',
    'elements are nested at most 60 levels deep, paragraphs, list items, definitions and quotes at most 6 (an item '
    'wraps the markers and borders of what is in it as if they were text, so that the output doubles with every '
    'level once there is no width left), the page is at least 1 wide',
]

TAGS = [
    'p', 'p', 'p', 'div', 'ul', 'ol', 'li', 'li', 'dl', 'dd', 'dt', 'blockquote', 'pre', 'code', 'h1', 'h2',
    'h3', 'h4', 'h5', 'h6', 'a', 'a', 'a', 'img', 'img', 'br', 'em', 'i', 'strong', 'b', 'u', 'ins', 's',
    'del', 'span', 'hr', 'table', 'tr', 'td', 'x', 'x-y', 'script', 'style', 'title', 'body', 'html', 'head', 'input',
    'textarea', 'svg', 'col', 'area', 'meta', 'link', 'embed', 'h7', 'h', 'hgroup', 'header', 'P', 'BR', 'Img', 'a:b', 'wbr',
]
ATTRIBUTES = ['class', 'class', 'class', 'id', 'href', 'href', 'href', 'src', 'src', 'alt', 'title', 'title', 'name', 'lang', 'style', 'data-a', 'HREF', '"', 'a=b', "'"]
VALUES = [
    None, '', ' ', 'c0', 'c1 c2', 'c0\tc1', 'i', '/a', '/b.txt', 'http://x.y/z', 'gopher://h:7/1', 'gopher://h:x/', 'gopher://',
    'http://[', '//[::1', '://', 'mailto:a@b', '#', '?', 'a\nb', 'a\tb', '\x00', '{}', '{0}', '{content}', '%s', 'é', '中', 'javascript:',
    'http://h:99999/', 'gopher://h:99999/', 'gopher://[::1]:70/x', '../..', '/x.', '/.x', '/x.tar.gz', 'a b', '&amp;', '\x1b[31m', 'word ' * 12,
    'data:image/png;base64,AAAA', '\u2028', '\u00a0', 'ftp://\u2100/', 'http://a@b@c:1:2/', '\ud7ff',
]
TEXTS = [
    'word', 'two words', 'One. Two.', ' ', '\n', '\n\n', '\t', '  ', 'x' * 40, 'a-b-c', '{}', '{0}', '{', '}', '{x.y}', '%', '\\', '\x00',
    '\x1b[31mred\x1b[0m', '\x1b[', '\x1b', 'é', '中文' * 9, '\u00a0', '\u00ad', '\u2028', '\x0b', '\x0c', '\x1c', '\x85', '\r\n', '\r',
    '>', '"', "'", '& ', '&amp;', '&lt;', '&#65;', '&#x41;', '&#0;', '&#x110000;', '&#xD800;', '&nope;', '&', '&#', '&#x', '&copy', '&notit;', '&nbsp;',
    '*', '. ', '1.', '- ', '`', '```', '```\n', '\u202e', '\U0001f600', 'e\u0301',
]
MARKUP = [
    '<', '</', '<>', '</>', '< p>', '<p', '<p ', '<p class', '<p class=', '<p class="', '<!', '<!-', '<!--', '-->', '<!-->', '<!--->',
    '<!---->', '<!-- c -->', '<!-- <p> -->', '<!doctype html>', '<!DOCTYPE', '<?', '<?x?>', '<?x >', '<!x>', '<![CDATA[x]]>', '<![', '</p x="1">', '<p/>', '<a/>',
    '<br/>', '</br>', '</img>', '<p/p>', '<a href=/x>', "<a href='y'>", '<a href=x/>', '<a\nhref="x">', '<img src=x alt=y/>', '<pre\n>', '</pre\n>',
    '<ol start=5>', '<li value=x>', '<a href="x', '=', '/>', '">',
]
SELECTORS = [
    'p', 'a', 'img', 'li', 'ol > li', 'blockquote', 'pre', 'code', 'h1', 'div', 'span', '*', '', '.c0', '.c1', '#i', 'p.c0', 'ul li',
    'p:first-child', 'li:nth-child(2n+1)', 'p + p', 'p ~ ul', '[href]', '[class~=c0]', 'a[href^="/"]', 'p:not(.c0)', 'h1, h2', 'x', 'dt', 'dd', 'br', 'em',
    'td:nth-last-child(-n+2)', '[title*="o"]', '[lang|=en]',
]
CLASSES = [
    'Renderer', 'NonRenderer', 'InlineRenderer', 'BlockRenderer', 'HeaderRenderer', 'ParagraphRenderer', 'EmRenderer', 'StrongRenderer', 'BlockQuoteRenderer',
    'PreRenderer', 'CodeRenderer', 'BreakRenderer', 'ListRenderer', 'ListItemRenderer', 'OrderedListItemRenderer', 'DefinitionListItemRenderer',
    'AnsiEscapeCodeRenderer',
]


@cached
@st.composite
def settings(draw):
    s = {}
    if draw(BOOL):
        s['margin'] = [draw(ints(0, 3)) for i in range(4)]
    if draw(BOOL):
        s['padding'] = [draw(ints(0, 3)) for i in range(4)]
    if draw(ints(0, 2)) == 0:
        s['border'] = draw(choice(gen.BORDERS))
    s.update(draw(gen.wrap_options()))
    for k, v in [
        ('capitalized', [True, False]), ('spread', [0, 1, 3]), ('spread_char', [' ', '-', '']), ('centered', [True, False]),
        ('underlined', [True, False]), ('underline_char', ['=', '-~']), ('underline_full', [True, False]), ('indent', [0, 1, 8]),
        ('bold', [True]), ('foreground_colour', ['red', 200, '#abc', '#a0b1c2', [1, 2, 3]]), ('background_colour', ['blue', 0]),
        ('font', [0, 3]), ('normalise', [True, False]), ('start_index', [0, 5, -1]), ('step', [1, -2, 10]), ('max_link_description', [0, 1, 50]),
        ('skip_for_code_or_pre', [True, False]), ('drop_whitespace', [True, False]), ('replace_whitespace', [True, False]),
        ('expand_tabs', [True, False]), ('tabsize', [0, 1, 4]), ('initial_indent', [4, 40]), ('subsequent_indent', [4, 40]),
        ('template', ['{}', '<{}>', '{}.']), ('line_template', ['{}', '| {}', '{} |']),
    ]:
        if draw(ints(0, 7)) == 0:
            s[k] = draw(choice(v))
    return s


@cached
@st.composite
def configs(draw):
    cfg = {'width': draw(st.one_of(ints(1, 12), ints(1, 90)))}
    if draw(BOOL):
        cfg['page_margin'] = [draw(ints(0, 3)) for i in range(4)]
    cfg['link_placement'] = draw(choice(['footer', 'inline', 'after_block']))
    cfg['image_placement'] = draw(choice(['footer', 'inline', 'after_block']))
    if draw(ints(0, 2)) == 0:
        cfg['output_format'] = 'gophermap'
        cfg['gopher_host'] = 'gopher.example'
        if cfg['link_placement'] == 'inline':
            cfg['link_placement'] = 'footer'
    if draw(ints(0, 3)) == 0:
        cfg['optimise'] = False
    renderers = {}
    for i in range(draw(ints(0, 4))):
        d = {}
        k = draw(ints(0, 3))
        selector = draw(choice(SELECTORS))
        if k == 0 and selector != '':
            d['class'] = draw(choice(CLASSES))
        if k != 0 or draw(BOOL):
            # Settings without a renderer, for the one that there is already.
            d['settings'] = draw(settings())
        if selector == '':
            d['class'] = draw(choice(['Renderer', 'NonRenderer', 'InlineRenderer', 'BlockRenderer']))
        renderers[selector] = d
    if renderers:
        cfg['renderers'] = renderers
    if draw(ints(0, 4)) == 0:
        cfg['extracted_link_renderers'] = {draw(choice(['a[href]', '[src]', '*', 'a', 'img'])): {'settings': draw(settings())}}
    return cfg


@cached
@st.composite
def attribute(draw):
    name = draw(choice(ATTRIBUTES))
    value = draw(choice(VALUES))
    if value is None:
        return ' ' + name
    quote = draw(choice(['"', '"', '"', "'", '']))
    return ' {}={}{}{}'.format(name, quote, value, quote)


@cached
def start_tag():
    return st.builds(
        lambda t, a, e: '<{}{}{}>'.format(t, ''.join(a), e),
        choice(TAGS), st.lists(attribute(), max_size=3), choice(['', '', '', '', '/', ' /', ' ']),
    )


@cached
def tokens():
    return st.one_of(
        start_tag(), start_tag(), start_tag(),
        choice(TAGS).map(lambda t: '</{}>'.format(t)),
        choice(TAGS).map(lambda t: '</{}>'.format(t)),
        choice(TEXTS), choice(TEXTS),
        gen.phrase(max_words=12),
        choice(MARKUP),
        st.text(max_size=6),
    )


def refused(pieces):
    """
    Whether it is the parser of the standard library that fails.
    """
    p = html.parser.HTMLParser(convert_charrefs=True)
    try:
        for piece in pieces:
            p.feed(piece)
        p.close()
    except Exception:
        return True
    return False


@cached
@st.composite
def cases(draw):
    n = draw(ints(1, 30))
    return {'cfg': draw(configs()), 'pieces': draw(st.lists(tokens(), min_size=n, max_size=n))}


class Depth(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.open = []
        self.all = self.wrapped = 0

    def handle_starttag(self, tag, attrs):
        if tag not in dom.VOID:
            self.open.append(tag)
            self.all = max(self.all, len(self.open))
            self.wrapped = max(self.wrapped, sum(1 for t in self.open if t in WRAPPED))

    def handle_endtag(self, tag):
        if self.open and self.open[-1] == tag:
            self.open.pop()


def depth(pieces):
    p = Depth()
    for piece in pieces:
        p.feed(piece)
    p.close()
    return p




@cached
def content():
    return st.one_of(
        gen.phrase(max_words=6), choice([t for t in TEXTS if '<' not in t]), st.text(alphabet='ab \n\t.-', max_size=6),
        choice(['<img src="/x" alt="y">', '<br>', '<hr/>', '<!-- c -->', '<b>bold</b>', '<a href="/y" title="t">link</a>', '</x>', '</q>']),
    )


WRAPPED = ('li', 'dd', 'blockquote', 'p')


@cached
@st.composite
def nested_cases(draw):
    """
    Deep nesting, with content on every level.
    """
    # Without settings that make every level a multiple of the one inside of it.
    cfg = dict((k, v) for k, v in draw(configs()).items() if 'renderers' not in k)
    chain = draw(st.lists(choice([
        'p', 'div', 'ul', 'ol', 'li', 'dl', 'dd', 'dt', 'blockquote', 'pre', 'code', 'em', 'a', 'a', 'h2', 'span', 'x', 'table',
    ]), min_size=3, max_size=6))
    depth = draw(ints(4, 60))
    return {'cfg': cfg, 'chain': chain, 'depth': depth, 'content': draw(st.lists(content(), min_size=1, max_size=3))}


def run(cfg, pieces):
    with core.library():
        parser = dom.make_parser(prepare(cfg))
        for piece in pieces:
            parser.feed(piece)
        parser.close()
        out = parser.parsed
    core.expect(isinstance(out, str), 'the result is not a string: {!r}', out)
    return out


def prepare(cfg):
    cfg = dict(cfg)
    if cfg.get('renderers', {}).get('', {}).get('class') is None:
        cfg['renderers'] = dict((k, v) for k, v in cfg.get('renderers', {}).items() if k)
    return cfg


def check(case):
    pieces = case['pieces']
    if refused(pieces):
        return False, ['refused by the standard library']
    cfg = case['cfg']
    d = depth(pieces)
    if d.all > 7:
        # With settings that add something on every level, the output could double
        # with every level.
        cfg = dict((k, v) for k, v in cfg.items() if 'renderers' not in k)
    if d.wrapped > 6:
        return False, ['nested too deeply']
    out = run(cfg, pieces)
    source = ''.join(pieces)
    n = source.count('<')
    return n >= 3, [
        'depth %d' % min(d.all, 10),
        'tags %d+' % (n // 10 * 10), case['cfg'].get('output_format', 'text'),
        'no output' if not out.strip() else 'output',
    ]


def check_nested(case):
    tags = []
    for i in range(case['depth']):
        t = case['chain'][i % len(case['chain'])]
        if t not in WRAPPED or sum(1 for u in tags if u in WRAPPED) < 5:
            tags.append(t)
    pieces = []
    for t in tags:
        pieces.append('<{} href="/x" class="c0">'.format(t))
        pieces.extend(case['content'])
    for t in reversed(tags):
        pieces.append('</{}>'.format(t))
    if refused(pieces):
        return False, ['refused by the standard library']
    run(case['cfg'], pieces)
    return True, ['depth %d+' % (case['depth'] // 10 * 10)]


UNITS = [
    '1', '12;', ';', 'a', 'A', '-', '--', ' ', '\t', '\n', ' \n', '.', '. ', '! ', '"', "'", '&', '&#', '&a', '&lt;', '<', '</', '<!', '<!--', '-->', '\x1b', '\x1b[', '\x1b[m', '\x1b[1', '\x1b[0m',
    '\x1b[1;2;', 'a-', '-a', 'a-b-', '{', '}', '{}', '%', '%2', '\\', '/', ':', '://', '?', '#', '=', '[', ']', '@', '\u00a0', 'é', '中', '\u00ad', 'a ', 'ab. ', '0.', '`', '*', '_', '\r', '\x00',
    'e\u0301', 'x\n', '&nbsp;', '&amp;#', '\x1b[31mx\x1b[0m', '\u2014', 'a\u2014', '&mdash;', '<b>', '</b>', '<br>', '<b>x</b>', '<a href=x>y</a>', '<img src=x>', '<p>',
]
CONTEXTS = [
    '{}', '<p>{}</p>', '<h1>{}</h1>', '<pre>{}</pre>', '<p>a <code>{}</code></p>', '<p>x <a href="/y">{}</a> z</p>', '<ul><li>{}</li></ul>', '<p>x <em>{}</em></p>',
    '<blockquote><p>{}</p></blockquote>', '<dl><dd>{}</dd></dl>', '<p><a href="/x" title="{}">a</a></p>', '<p><a href="{}">a</a></p>', '<p><img src="/x" alt="{}"></p>', '<p><img src="{}"></p>',
    '<p><a href="gopher://h/{}">a</a></p>', '<p><a href="http://{}/">a</a></p>', '<p><a href="//h:{}/">a</a></p>', '<p class="{}">x</p>', '<p id="{}">x</p>', '<p {}>x</p>', '<{}>x', '<!-- {}', '<ol start="{}"><li>x</li></ol>',
]


@cached
@st.composite
def long_cases(draw):
    """
    Something repeated many times, for what takes too long only then.
    """
    cfg = dict((k, v) for k, v in draw(configs()).items() if 'renderers' not in k)
    cfg['width'] = draw(choice([7, 30, 67]))
    if draw(BOOL):
        cfg['renderers'] = {
            draw(choice(['p', 'h1', 'a', 'em', 'pre', 'code', 'li', 'dd', '[class]', '[id]', 'p[class~="x"]'])): {'settings': draw(choice([
                {'bold': True}, {'underline': True, 'foreground_colour': 'red'}, {'justification_method': 'full'}, {'justification_method': 'right', 'normalise': True},
                {'hyphenate': True}, {'fix_sentence_endings': True}, {'spread': 1}, {'break_long_words': False}, {'background_colour': '#abc', 'break_on_hyphens': False},
            ]))},
        }
    return {
        'cfg': cfg, 'context': draw(choice(CONTEXTS)), 'before': draw(choice(['', '', '', '\x1b[', '\x1b[', 'a', ' ', '<', '&', '&#', 'http://', '-', '"'])),
        'unit': draw(choice(UNITS)), 'times': draw(ints(30, 60)), 'after': draw(choice(['', '', 'x', ' x', '!', ' ', '\n', '-', 'm', '<'])),
    }


def check_long(case):
    text = case['before'] + case['unit'] * case['times'] + case['after']
    pieces = [case['context'].replace('{}', text)]
    if refused(pieces):
        return False, ['refused by the standard library']
    if depth(pieces).wrapped > 6:
        return False, ['nested too deeply']
    run(case['cfg'], pieces)
    return True, ['output']


FACETS = [
    core.Facet('anything', cases, check, quick=4000),
    core.Facet('deep', nested_cases, check_nested, quick=800),
    core.Facet('long runs', long_cases, check_long, quick=2400),
]
