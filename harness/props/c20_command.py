"""
The command renders files end to end.
"""
import contextlib
import io
import os
import re
import subprocess
import sys
import tempfile
from unittest import mock

import core
import common
import dom
import gen
from gen import st, cached, ints, choice, BOOL

ID = 'C20'
RULE = (
    'Random documents written to a Markdown or an HTML file (with LF or CRLF line endings, metadata, '
    'fenced code), and histories of the command on files: the destination exists already or not, the '
    'source is missing, -d. The destination has to be what the reference model of the layout makes of the '
    'document (for Markdown, of the tree the source was written from), or, for highlighted code and '
    'arbitrary Markdown, what the library renders with the configuration of the command; stdout has the '
    'same, after the HTML with -d; the source, and everything else in the directory, stays as it was. A '
    'sample is run as "python -m gopher_render" in a process of its own. Non-trivial: at least 2 kinds of '
    'blocks, or 2 runs.'
)
ASSUMPTIONS = ['files are UTF-8, which is what the command uses for them where the locale says so']

# What the command renders with.
CONFIG = {
    'width': 67, 'page_margin': [1, 0, 1, 0], 'link_placement': 'footer', 'image_placement': 'inline',
    'gopher_host': 'my.gopher.com',
}
WORDS = [
    'a', 'I', 'to', 'of', 'the', 'and', 'cat', 'moss', 'stone', 'river', 'gopher', 'umbrella', 'lighthouse',
    'incomprehensible', 'well-known', 'state-of-the-art', 'end.', 'stop.', 'what?', 'no!', 'One', 'But',
    '42', '100%', 'comma,', 'semi;', 'naïve', 'Straße', 'ÅÄÖ', '中文', 'привет', 'x' * 80,
]
HREFS = ['/a', '/b.txt', 'c.html', 'http://example.com/', 'https://example.org/x?y=1', 'gopher://gopher.example/1/dir', 'mailto:x@y.z']


@cached
def words(most):
    # No list or header in the making.
    return st.lists(choice(WORDS), min_size=1, max_size=most).map(
        lambda w: ' '.join(['word'] + w if w[0][0].isdigit() else w))


@cached
@st.composite
def inlines(draw, depth=2, most=8, links=True):
    out = []
    for i in range(draw(ints(1, 4))):
        if i:
            out.append(' ')
        kind = draw(choice(['text', 'text', 'em', 'strong', 'code', 'a', 'img']))
        if kind == 'text' or (kind in ('em', 'strong') and not depth) or (kind in ('a', 'img') and not links):
            out.append(draw(words(most)))
        elif kind in ('em', 'strong'):
            inner = draw(words(4))
            if depth > 1 and draw(ints(0, 2)) == 0 and kind == 'strong':
                inner = [draw(words(2)), ' ', ['em', {}, [draw(words(2))]], ' ', draw(words(2))]
            out.append([kind, {}, inner if isinstance(inner, list) else [inner]])
        elif kind == 'code':
            out.append(['code', {}, [draw(choice(['x', 'f(a, b)', 'a < b', 'x = 1', 'x_y_z', '*p', '{}']))]])
        elif kind == 'a':
            attrs = {'href': draw(choice(HREFS))}
            if draw(ints(0, 2)) == 0:
                attrs['title'] = draw(words(3))
            out.append(['a', attrs, draw(inlines(depth=1, most=4, links=False))])
        else:
            out.append(['img', {'alt': draw(words(3)), 'src': draw(choice(['i.png', '/p/q.gif']))}, []])
    return gen.merge(out)


@cached
@st.composite
def blocks(draw, depth=1, most=5):
    out = []
    for i in range(draw(ints(1, most))):
        kind = draw(choice(['p', 'p', 'h', 'ul', 'ol', 'dl', 'blockquote', 'fenced', 'indented']))
        previous = out[-1][0] if out else None
        if kind in ('ul', 'ol', 'dl', 'indented') and previous in ('ul', 'ol', 'dl', 'pre'):
            # Those would become one.
            kind = 'p'
        if kind == 'dl' and previous == 'p':
            kind = 'ul'
        if kind == 'blockquote' and (not depth or previous == 'blockquote'):
            kind = 'p'
        if kind == 'p':
            out.append(['p', {}, draw(inlines())])
        elif kind == 'h':
            out.append(['h%d' % draw(ints(1, 6)), {}, draw(inlines(depth=1, most=4, links=False))])
        elif kind in ('ul', 'ol'):
            out.append([kind, {}, [['li', {}, c] for c in draw(st.lists(inlines(depth=1, most=12), min_size=1, max_size=4))]])
        elif kind == 'dl':
            items = []
            for j in range(draw(ints(1, 3))):
                items.append(['dt', {}, [draw(words(3))]])
                for k in range(draw(ints(1, 2))):
                    items.append(['dd', {}, draw(inlines(depth=1))])
            out.append(['dl', {}, items])
        elif kind == 'blockquote':
            out.append(['blockquote', {}, draw(blocks(depth=depth - 1, most=3))])
        else:
            if depth < 1:
                # Python-Markdown does not support fences in quotes.
                kind = 'indented' if previous not in ('ul', 'ol', 'dl', 'pre') else 'p'
                if kind == 'p':
                    out.append(['p', {}, draw(inlines())])
                    continue
            lines = draw(st.lists(choice([l for l in gen.CODE_LINES if '\t' not in l]), min_size=1, max_size=5))
            lines[0] = lines[0].strip() or 'first'
            lines[-1] = lines[-1].rstrip() or 'last'
            out.append(['pre', {'class': kind}, ['\n'.join(lines)]])
    return out


def markdown_inline(nodes):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
            continue
        tag, attrs, children = n
        inner = markdown_inline(children)
        title = ' "{}"'.format(attrs['title']) if 'title' in attrs else ''
        if tag == 'a':
            out.append('[{}]({}{})'.format(inner, attrs['href'], title))
        elif tag == 'img':
            out.append('![{}]({}{})'.format(attrs['alt'], attrs['src'], title))
        else:
            mark = {'em': '*', 'strong': '**', 'code': '`'}[tag]
            out.append(mark + inner + mark)
    return ''.join(out)


def markdown(nodes):
    out = []
    for tag, attrs, children in nodes:
        if tag == 'p':
            out.append(markdown_inline(children))
        elif tag[0] == 'h':
            out.append('#' * int(tag[1]) + ' ' + markdown_inline(children))
        elif tag == 'ul':
            out.append('\n'.join('* ' + markdown_inline(c[2]) for c in children))
        elif tag == 'ol':
            out.append('\n'.join('{}. {}'.format(i + 1, markdown_inline(c[2])) for i, c in enumerate(children)))
        elif tag == 'dl':
            lines = []
            for i, (kind, a, c) in enumerate(children):
                if kind == 'dt':
                    lines.extend(([''] if i else []) + [markdown_inline(c)])
                else:
                    lines.append(':   ' + markdown_inline(c))
            out.append('\n'.join(lines))
        elif tag == 'blockquote':
            out.append('\n'.join(('> ' + l).rstrip() for l in markdown(children).split('\n')))
        elif attrs['class'] == 'fenced':
            out.append('~~~\n{}\n~~~'.format(children[0]))
        else:
            out.append('\n'.join(('    ' + l).rstrip() for l in children[0].split('\n')))
    return '\n\n'.join(out)


def tree(nodes, highlighted):
    """
    The tree of the HTML. There is an element around highlighted code.
    """
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
        elif n[0] == 'pre':
            pre = ['pre', {}, [['code', {}, n[2]]]]
            out.append(['div', {}, [pre]] if highlighted else pre)
        else:
            out.append([n[0], n[1], tree(n[2], highlighted)])
    return out


# Running the command

def run(arguments):
    """
    The command in this process: what it writes to stdout, or the exception it ends with.
    """
    import gopher_render.cli as cli
    out = io.StringIO()
    with mock.patch.object(sys, 'argv', ['gopher-render'] + arguments), contextlib.redirect_stdout(out), \
            contextlib.redirect_stderr(io.StringIO()):
        try:
            cli.main()
        except Exception as e:
            return out.getvalue(), e
    return out.getvalue(), None


def run_process(arguments, directory):
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONIOENCODING='utf-8', PYTHONUTF8='1')
    p = subprocess.run(
        [sys.executable, '-B', '-W', 'ignore', '-m', 'gopher_render'] + arguments, cwd=directory, env=env,
        stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
    )
    return p.stdout.decode(), None if p.returncode == 0 else p.stderr.decode()


def write(path, text, newline='\n'):
    with open(path, 'w', newline=newline, encoding='utf-8') as f:
        f.write(text)


def read(path):
    with open(path, newline='', encoding='utf-8') as f:
        return f.read()


def contents(directory):
    return dict((n, read(os.path.join(directory, n))) for n in sorted(os.listdir(directory)))


# Only the suffix decides whether a file is Markdown.
NAMES = ['in', 'in', 'in', 'a b', 'x.md', 'x.html', 'md', '-in']
SUFFIXES = ['.html', '.html', '.htm', '.txt', '.', '.mdx', '.xmd', '.MD', '.mD', '.markdown', '.md.html']


@cached
@st.composite
def document_cases(draw):
    return {
        'nodes': draw(blocks()), 'markdown': draw(BOOL), 'crlf': draw(ints(0, 3)) == 0, 'dump': draw(ints(0, 3)) == 0,
        'meta': draw(ints(0, 3)) == 0, 'name': draw(choice(NAMES)), 'suffix': draw(choice(SUFFIXES)), 'end': draw(choice(['', '\n', '\n\n'])),
    }


def check_document(case, process=False):
    nodes = case['nodes']
    expected = model_text(tree(nodes, case['markdown']))
    if case['markdown']:
        source = markdown(nodes) + case['end']
        if case['meta']:
            source = 'title: About\nauthor: me\n\n' + source
    else:
        source = '\n'.join(dom.to_html([n]) for n in tree(nodes, False)) + case['end']
    with tempfile.TemporaryDirectory(prefix='verif-c20.md-') as directory:
        name = case['name'] + ('.md' if case['markdown'] else case['suffix'])
        write(os.path.join(directory, name), source, '\r\n' if case['crlf'] else '\n')
        before = contents(directory)
        arguments = [os.path.join(directory, name), os.path.join(directory, 'out.txt')]
        if case['dump']:
            arguments.insert(0, '-d')
        if process:
            stdout, error = run_process(arguments, directory)
        else:
            stdout, error = run(arguments)
        core.expect(error is None, 'the command ended with {!r}', error)
        after = contents(directory)
    result = after.pop('out.txt', None)
    core.expect_equal(after, before, 'the other files')
    core.expect(result is not None, 'there is no output')
    try:
        # The code is highlighted, whatever language it is taken for.
        common.agree(re.sub('\x1b\\[[0-9;]*m', '', result), expected, 'the output')
    except core.Violation as v:
        raise core.Violation('{!r}: {}'.format(source, v))
    core.expect(stdout.endswith(result + '\n'), 'the output is not on stdout: {!r}', stdout)
    dumped = stdout[:len(stdout) - len(result) - 1]
    if not case['dump']:
        core.expect_equal(dumped, '', 'what else is on stdout')
    elif case['markdown']:
        core.expect(dumped.startswith('<') and dumped.endswith('>\n'), 'not HTML: {!r}', dumped)
        core.expect_equal(letters(re.sub('<[^>]*>', '', dumped)), letters(''.join(text(nodes))), 'the text of the HTML')
    else:
        core.expect_equal(dumped, source + '\n', 'the HTML on stdout')
    return len(dom.tags(nodes) & {'p', 'ul', 'ol', 'dl', 'pre', 'blockquote', 'h1', 'h2', 'h3'}) >= 2, [
        'markdown' if case['markdown'] else 'html'] + ['has ' + t for t in sorted(dom.tags(nodes))]


def letters(s):
    return re.sub('&[a-z]+;|[^a-zA-ZäöüÄÖÜßà-ÿ]', '', s)


def text(nodes):
    for n in nodes:
        if isinstance(n, str):
            yield dom.to_html([n])
        else:
            yield from text(n[2])


def model_text(nodes):
    return common.model_for(CONFIG, nodes).render(nodes)


def check_process(case):
    return check_document(case, process=True)


# Histories of runs on some files

FRAGMENTS = [
    'Some *text* with `code`.', '# Header', '* a\n* b\n    * c', '1. a\n2. b\n\n    more', 'a\n=\n\nb', '```python\ndef f(x):\n    return x\n```',
    '    :::bash\n    echo $A | cat -  # c', '| a | b |\n| - | - |\n| 1 | 2 |', 'x[^1]\n\n[^1]: Note.', '*[HTML]: Hyper\n\nHTML',
    '<div>\n<b>raw</b>\n</div>', '> q\n\n> r', '---', '[a][1]\n\n[1]: http://example.com/ "T"', '![i](j.png)', 'a  \nb', '&amp; &lt; <http://e.com/>',
    '## H {#id .c}', 'Term\n: Def', '<pre>x</pre>', 'naïve — “q”', '{}', '\\*not\\*', '~~~\ncode {x}\n~~~', '<p>stray</b> tags</i></p>', '</div>', '<ul><li>un<b>closed</ul>', '<p>a<br>b</br></p>',
]
BAD = ['missing.md', 'no/such/dir.html']


@cached
@st.composite
def history_cases(draw):
    files = []
    for i in range(draw(ints(1, 3))):
        name = '%s%d%s' % (draw(choice(['a', 'b.c', 'md', 'x y', 'a.md', 'a.html'])), i, draw(choice(['.md', '.md', '.html', '.txt', '', '.mdx', '-md', '.MD', '.markdown'])))
        files.append([name, '\n\n'.join(draw(st.lists(choice(FRAGMENTS), max_size=5)))])
    runs = draw(st.lists(st.tuples(ints(0, 3), choice(['out', 'out2', 'old', 'a0.txt']), BOOL), min_size=1, max_size=4))
    return {'files': files, 'runs': [list(r) for r in runs], 'old': draw(choice(['', 'old\n' * 400]))}


def expected_output(name, source):
    """
    What the library makes of a file with the configuration of the command.
    """
    import markdown as md
    import gopher_render
    from gopher_render.code_themes.iced_gopher import renderers
    if name.endswith('.md'):
        source = md.markdown(
            source, output_format='html5',
            extensions=['markdown.extensions.codehilite', 'markdown.extensions.extra', 'markdown.extensions.meta'],
            extension_configs={'markdown.extensions.codehilite': {'css_class': 'highlight'}},
        )
    parser = gopher_render.GopherHTMLParser(
        output_format='text', gopher_host='my.gopher.com', box=dom.rendering().Box(width=67, margin=[1, 0, 1, 0]),
        link_placement='footer', image_placement='inline', renderers=renderers,
    )
    parser.feed(source)
    parser.close()
    return source, parser.parsed


def check_history(case):
    files = dict(case['files'], old=case['old'])
    ran = 0
    with tempfile.TemporaryDirectory(prefix='verif-c20.md-') as directory:
        for name, source in files.items():
            write(os.path.join(directory, name), source)
        for which, destination, dump in case['runs']:
            arguments = [os.path.join(directory, destination)]
            if which < len(case['files']):
                name = case['files'][which][0]
                with core.library():
                    html, expected = expected_output(name, files[name])
                stdout, error = run([os.path.join(directory, name)] + arguments + (['--dump'] if dump else []))
                core.expect(error is None, 'the command ended with {!r} for {!r}', error, files[name])
                core.expect_equal(stdout, (html + '\n' if dump else '') + expected + '\n', 'stdout')
                files[destination] = expected
                ran += 1
            else:
                stdout, error = run([os.path.join(directory, BAD[which % 2])] + arguments)
                core.expect(isinstance(error, OSError), 'a missing source: {!r}, {!r}', error, stdout)
                core.expect_equal(stdout, '', 'stdout for a missing source')
            core.expect_equal(contents(directory), files, 'the files')
    return ran >= 2, ['runs %d' % ran]


FACETS = [
    core.Facet('documents', document_cases, check_document, quick=2400),
    core.Facet('histories', history_cases, check_history, quick=1200),
    core.Facet('processes', document_cases, check_process, quick=64, thorough=1600),
]
