"""
What the URL of a link becomes in a gophermap.
"""
import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C09'
RULE = (
    'Random URLs: relative and absolute paths, gopher URLs with and without ports and users, web and '
    'other URLs, with names that have dots, several extensions or none, and dots in directories, as '
    'links and as images; the item type, selector, host and port are compared with a translation '
    'written for this check. Non-trivial: the path has an extension or a host, or is not relative.'
)
ASSUMPTIONS = [
    'queries and fragments are only used in URLs that are not for gopher',
]

NAMES = [
    'a', 'index', 'file', 'README', 'x-y', 'a.b', '.hidden', 'v1.2', 'über', 'a%20b', '1', '~user', 'a,b', 'a=b', '..', '.',
    ';p', 'a;b', "it's", '(x)', 'a+b', '!', '$', '&', '@', 'a@b', '*', '1x', 'C',
]
EXT = ['', '', '', '.txt', '.html', '.htm', '.gif', '.jpg', '.jpeg', '.png', '.bmp', '.tiff', '.csv', '.tsv', '.md',
       '.zip', '.tar.gz', '.mp3', '.pdf', '.txt.gz', '.gif.html', '.html.txt', '.c', '.jpg.d', '.', '.JPG', '.Html', '.TXT', '.GIF', '.Tar.GZ', '.Png']


@cached
@st.composite
def path(draw, absolute=None):
    segments = [
        draw(choice(NAMES)) + draw(choice(['', '', '', '.d', '.txt'])) for i in range(draw(ints(0, 3)))
    ]
    last = draw(choice(NAMES)) + draw(choice(EXT)) if draw(ints(0, 5)) else ''
    p = '/'.join(segments + [last])
    if draw(ints(0, 9)) == 0:
        p += draw(choice([';type=a', ';', ';v=1.2']))
    if absolute or (absolute is None and draw(BOOL)):
        p = '/' + p
        while p.startswith('//'):
            p = p[1:]
    return p


@cached
@st.composite
def url(draw):
    k = draw(ints(0, 9))
    if k < 4:
        return draw(path())
    if k < 7:
        scheme = draw(choice(['gopher', 'gopher', 'GOPHER', 'Gopher']))
        host = draw(choice(['example.org', 'Example.ORG', 'a.b.c', 'localhost', '10.0.0.1', 'h', 'a-b.c', '[::1]', 'x_y', 'über.de']))
        user = draw(choice(['', '', '', 'me@']))
        port = draw(choice(['', '', ':70', ':7070', ':1', ':65535', ':', ':0', ':007']))
        p = draw(path(True)) if draw(ints(0, 5)) else ''
        return scheme + '://' + user + host + port + p
    if k < 9:
        scheme = draw(choice(['http', 'https', 'HTTP', 'https']))
        host = draw(choice(['example.org', 'example.com:8080', 'www.a.b']))
        rest = draw(path(True)) + draw(choice(['', '', '?q=1&r=a/b.txt', '#top', '?x#y', ';p']))
        return scheme + '://' + host + rest
    return draw(choice([
        'mailto:me@example.org', 'ftp://example.org/a.txt', 'tel:123', 'irc://h/c', 'gemini://g.org/x.gmi',
        'finger://x/y', 'data:text/plain,x', 'javascript:void(0)', 'news:a.b.c', 'urn:x:y',
        'c:x.txt', 'C:\\x.txt', 'x:/a', 'view-source:http://x/', 'git+ssh://h/p', 'a.b:c', 'about:', 'file:///x/y.txt', 'gophers://h/x.txt',
        'httpx://h/x.gif', 'sms:1', 'ws://h:1/x', 'cso://h/1',
    ]))


@cached
@st.composite
def cases(draw):
    return {
        'urls': draw(st.lists(st.tuples(st.sampled_from(['a', 'a', 'img']), url()).map(list), min_size=1, max_size=4)),
        'host': draw(choice(['my.host', 'Other.Host', '192.168.0.1'])),
        'port': draw(choice([70, 71, 7070, 0, 65535])),
    }


def check(case):
    nodes = []
    for i, (tag, u) in enumerate(case['urls']):
        if tag == 'a':
            nodes.append(['p', {}, [['a', {'href': u}, ['link%d' % i]]]])
        else:
            nodes.append(['p', {}, [['img', {'src': u, 'alt': 'link%d' % i}, []]]])
    out = dom.render(
        dom.to_html(nodes), output_format='gophermap', link_placement='footer', image_placement='footer',
        gopher_host=case['host'], gopher_port=case['port'])
    items = [l for l in out.split('\n') if '\t' in l]
    expected = []
    labels = []
    for i, (tag, u) in enumerate(case['urls']):
        kind, selector, host, port = common.gopher_target(u, case['host'], case['port'])
        expected.append('{}[{}] link{}\t{}\t{}\t{}'.format(kind, i + 1, i, selector, host, port))
        labels.append('type {}'.format(kind))
    core.expect_equal(items, expected, 'the items for {}'.format(case['urls']))
    return any('.' in u or ':' in u for t, u in case['urls']), labels


FACETS = [core.Facet('urls', cases, check, quick=6000)]
