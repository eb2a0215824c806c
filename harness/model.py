"""
A reference model of the layout, written compositionally: the text of a block
depends on its content and on the width its parent has left for it, and nothing
else.  (The code under test works with totals over all of the ancestors instead.)

It uses the standard library's textwrap, and only deals with text without escape
sequences, with white space already reduced to single spaces.
"""
import textwrap

import dom

TOP, RIGHT, BOTTOM, LEFT = range(4)

INLINE = {
    'em': '_{}_', 'i': '_{}_', 'strong': '**{}**', 'b': '**{}**',
    'u': '_{}_', 'ins': '_{}_', 's': '~~{}~~', 'del': '~~{}~~', 'span': '{}',
}

PARAGRAPH = dict(
    initial_indent=0, subsequent_indent=0, justification='left', capitalized=False,
    fix_sentence_endings=True, break_long_words=True, skip_for_code_or_pre=True,
    margin=[1, 0, 1, 0], line_template='{}',
)
HEADER = dict(
    template='{}', capitalized=False, spread=0, spread_char=' ', centered=False,
    underlined=False, underline_char='=', underline_full=False, margin=[1, 0, 1, 0],
)
ITEM = dict(
    line_template='* {}', margin=[1, 0, 0, 0], initial_indent=0, subsequent_indent=0,
    justification='left', capitalized=False, fix_sentence_endings=True, break_long_words=True,
)
LINK_TEMPLATES = {
    'reference': '[{content}][{link_reference}]',
    'inline': ['[{content}]({href})', '[{content}]({href} "{title}")'],
}
IMAGE_TEMPLATES = {
    'reference': '[{title}][{link_reference}]',
    'inline': '![{title}]({href})',
}
EXTRACTED = dict(
    templates=[
        '\n[{link_reference}] {description}: {href}',
        '\n[{link_reference}] {description}: {href} "{title}"',
    ],
    gophermap_template='{type}[{link_reference}] {description}\t{selector}\t{host}\t{port}\n',
    max_link_description=10,
)
BLOCK = dict(border=['', '', '', ''], margin=[0, 0, 0, 0], padding=[0, 0, 0, 0])

DEFAULTS = {
    'p': PARAGRAPH,
    'blockquote': dict(line_template='> {}', margin=[1, 0, 1, 0]),
    'pre': dict(line_template='{}', indent=4, margin=[1, 0, 1, 0]),
    'div': {},
    'ul': dict(margin=[1, 0, 1, 0]),
    'ol': dict(margin=[1, 0, 1, 0]),
    'li': ITEM,
    'dl': dict(margin=[1, 0, 1, 0]),
    'dt': dict(HEADER, margin=[2, 0, 0, 0]),
    'dd': dict(ITEM, line_template=': {}'),
    'a': dict(templates=LINK_TEMPLATES),
    'img': dict(templates=IMAGE_TEMPLATES),
    'br': dict(template='{}'),
    'code': dict(block_template='```\n{}\n```\n', inline_template='`{}`'),
}
for _n in range(1, 7):
    DEFAULTS['h%d' % _n] = HEADER
for _t, _template in INLINE.items():
    DEFAULTS[_t] = dict(template=_template, capitalized=False)

WRAP_ARGUMENTS = [
    'fix_sentence_endings', 'break_long_words', 'break_on_hyphens', 'placeholder',
    'drop_whitespace', 'replace_whitespace', 'expand_tabs', 'tabsize',
]


def center(line, width):
    return line.center(width) if width else line


class Wrapper(textwrap.TextWrapper):
    """
    That of the standard library keeps an empty chunk when it has broken up a word on lines
    with less room than their indentation takes. It may then stay in a loop forever.
    """

    def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
        super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
        if reversed_chunks and not reversed_chunks[-1]:
            reversed_chunks.pop()


def wrap(text, width, **options):
    return Wrapper(width=width, **options).wrap(text)


def justify(text, width, how, arguments):
    if how == 'none':
        return [text]
    lines = wrap(text, width, **arguments)
    if how == 'left':
        return lines
    if how == 'right':
        return [l.rjust(width) for l in lines]
    if how == 'center':
        return [l.center(width) for l in lines]
    assert how == 'full'
    out = []
    for i, line in enumerate(lines):
        if i == len(lines) - 1:
            out.append(line)
            continue
        stripped = line.lstrip()
        indent = line[:len(line) - len(stripped)]
        words = stripped.rstrip().split(' ')
        missing = width - len(line)
        gaps = len(words) - 1
        if gaps == 0 or missing <= 0:
            out.append(line)
            continue
        # The gaps on the left are the wider ones.
        each, extra = divmod(missing, gaps)
        s = indent + words[0]
        for g, w in enumerate(words[1:]):
            s += ' ' * (1 + each + (1 if g < extra else 0)) + w
        out.append(s)
    return out


class Model:
    def __init__(
        self, width=67, page_margin=(0, 0, 0, 0), output_format='text',
        link_placement='footer', image_placement='inline', gopher_host='', gopher_port=70,
        rules=(), extracted=None, targets=None, **ignored
    ):
        """
        rules: settings for classes, {'name': {...}}, for elements with that class
        extracted: the same for the entries of links
        targets: {href: (type, selector, host, port)}
        """
        self.width = width
        self.page_margin = page_margin
        self.format = output_format
        self.placement = {'a': link_placement, 'img': image_placement}
        self.rules = dict(rules)
        self.extracted = dict(extracted or {})
        self.targets = targets or {}

    def render(self, nodes):
        self.links = []
        self.number = {}
        self._number(nodes)
        self.pending_root = []
        width = self.width - self.page_margin[LEFT] - self.page_margin[RIGHT]
        body = self.children(['', {}, nodes], (), width)
        footer = ''
        links = [l for l in self.links if self.placement[l[0]] == 'footer']
        if links:
            footer = '\n' + ''.join(self.extracted_link(l, width) for l in links)
        if self.format != 'gophermap':
            body += footer
            footer = ''
        body = self.indent(body, self.page_margin[LEFT])
        return '\n' * self.page_margin[TOP] + body + footer + '\n' * self.page_margin[BOTTOM]

    def _number(self, nodes):
        for n in nodes:
            if isinstance(n, str):
                continue
            if n[0] == 'img' or (n[0] == 'a' and n[1].get('href') is not None):
                if self.placement[n[0]] != 'inline':
                    self.links.append(n)
                    self.number[id(n)] = len(self.links)
            self._number(n[2])

    @staticmethod
    def indent(text, by):
        return ''.join(' ' * by + l for l in dom.lines(text, keepends=True))

    def children(self, node, parents, width):
        out = []
        chain = parents + (node,)
        index = 0
        count = len([c for c in node[2] if not isinstance(c, str)])
        for c in node[2]:
            if isinstance(c, str):
                out.append(c)
            else:
                out.append(self.node(c, chain, width, index, count))
                index += 1
        pending = self.pending(node, parents)
        if pending:
            out.append('\n')
            out.extend(self.extracted_link(l, width) for l in pending)
        return ''.join(out)

    def pending(self, node, parents):
        """
        The links placed after the node, which are those that it contains directly.
        What is in a link is placed where the link itself would be.
        """
        if node[0] == 'a' or any(p[0] == 'a' for p in parents):
            return []
        out = []

        def collect(n, inside):
            for c in n[2]:
                if isinstance(c, str):
                    continue
                if id(c) in self.number and self.placement[c[0]] == 'after_block':
                    out.append(c)
                if inside or c[0] == 'a':
                    collect(c, True)
        collect(node, False)
        return out

    def settings(self, node, parents, index, count):
        tag = node[0]
        parent = parents[-1][0]
        s = dict(BLOCK)
        s.update(DEFAULTS.get(tag, {}))
        if tag == 'li' and parent == 'ol':
            s.update(line_template='{0}. {1}', start_index=1, step=1)
        for name in node[1].get('class', '').split():
            s.update(self.rules.get(name, {}))
        first = index == 0
        last = index == count - 1
        if tag == 'li' and first:
            s['margin'] = [0, 0, 0, 0]
            if parent in ('ol', 'ul') and len(parents) > 1 and parents[-2][0] == 'li':
                s['margin'] = [1, 0, 0, 0]
        if tag == 'dt' and first:
            s['margin'] = [0, 0, 0, 0]
        if tag == 'p' and parent == 'blockquote' and (first or last):
            s['margin'] = [0 if first else 1, 0, 0 if last else 1, 0]
        return s

    def node(self, node, parents, width, index, count):
        tag = node[0]
        s = self.settings(node, parents, index, count)
        if tag == 'br':
            return s['template'].format('\n')
        if tag == 'a':
            return self.link(node, parents, width, s)
        if tag == 'img':
            return self.image(node, s)
        if tag == 'code':
            content = self.children(node, parents, width)
            if any(p[0] == 'pre' for p in parents):
                return content
            return s['block_template' if '\n' in content else 'inline_template'].format(content)
        if tag in INLINE:
            content = self.children(node, parents, width)
            if s['capitalized']:
                content = content.upper()
            return s['template'].format(content)
        if tag in DEFAULTS:
            return self.block(node, parents, width, s, index)
        # Not known: only the content is rendered.
        return self.children(node, parents, width)

    def link(self, node, parents, width, s):
        content = self.children(node, parents, width)
        href = node[1].get('href')
        if href is None:
            return content
        if s.get('capitalized'):
            content = content.upper()
        title = node[1].get('title')
        if self.placement['a'] == 'inline':
            t = s['templates']['inline'][1 if title else 0]
            return t.format(content=content, href=href, title=title)
        return s['templates']['reference'].format(content=content, link_reference=self.number[id(node)])

    def image(self, node, s):
        title = node[1].get('alt') or 'Image'
        if s.get('capitalized'):
            title = title.upper()
        href = node[1].get('src', '')
        if self.placement['img'] == 'inline':
            return s['templates']['inline'].format(title=title, href=href)
        return s['templates']['reference'].format(title=title, link_reference=self.number[id(node)])

    def description(self, node):
        """
        What stands for a link in the footer: description and title
        """
        if node[0] == 'img':
            full = ' '.join((node[1].get('alt') or '').split()) or 'Image'
            title = ''
        else:
            full = ' '.join(self.children(node, (['', {}, []],), 1000).split())
            title = ' '.join((node[1].get('title') or '').split())
        limit = self.entry_settings(node)['max_link_description']
        short = full if len(full) <= limit else full[:limit] + '...'
        if node[0] == 'img':
            title = full if len(full) > limit else ''
            if self.format == 'gophermap':
                title = ''
        return short, title

    def entry_settings(self, node):
        s = dict(BLOCK, **EXTRACTED)
        for name in node[1].get('class', '').split():
            s.update(self.extracted.get(name, {}))
        return s

    def extracted_link(self, node, width):
        short, title = self.description(node)
        s = self.entry_settings(node)
        href = node[1].get('href' if node[0] == 'a' else 'src', '')
        n = self.number[id(node)]
        if self.format == 'gophermap':
            type_, selector, host, port = self.targets[href]
            # Only the vertical margins of the box are there.
            return '\n' * s['margin'][TOP] + s['gophermap_template'].format(
                type=type_, link_reference=n, description=title or short,
                selector=selector, host=host, port=port,
            ) + '\n' * s['margin'][BOTTOM]
        t = s['templates'][1 if title else 0]
        text = t.format(link_reference=n, description=short, href=href, title=title)
        return self.boxed(text.split('\n'), s, width)

    def boxed(self, lines, s, width):
        margin, padding, border = s['margin'], s['padding'], s['border']
        padded = width - margin[LEFT] - margin[RIGHT] - len(border[LEFT]) - len(border[RIGHT])
        boxed = [
            border[LEFT] + (' ' * padding[LEFT] + l).ljust(padded) + border[RIGHT]
            for l in lines
        ]
        blank = border[LEFT] + ' ' * padded + border[RIGHT]
        boxed = [blank] * padding[TOP] + boxed + [blank] * padding[BOTTOM]
        full = padded + len(border[LEFT]) + len(border[RIGHT])
        boxed = [c * full for c in border[TOP]] + boxed + [c * full for c in border[BOTTOM]]
        return (
            '\n' * margin[TOP] +
            self.indent('\n'.join(boxed), margin[LEFT]) +
            '\n' * margin[BOTTOM]
        )

    def block(self, node, parents, width, s, index):
        tag = node[0]
        margin, padding = s['margin'], s['padding']
        border = s['border']
        template = None
        if tag in ('p', 'blockquote', 'li', 'dd'):
            template = s.get('line_template')
        if tag == 'li' and 'start_index' in s:
            template = template.format(index * s['step'] + s['start_index'], '{}')
        template_width = len(template) - 2 if template else 0
        padded = width - margin[LEFT] - margin[RIGHT] - len(border[LEFT]) - len(border[RIGHT])
        inner = padded - padding[LEFT] - padding[RIGHT] - template_width

        content = self.children(node, parents, inner)
        lines = self.inner(tag, node, content, inner, s, template, template_width)
        return self.boxed(lines, s, width)

    def inner(self, tag, node, content, inner, s, template, template_width):
        if tag in ('div', 'ul', 'ol', 'dl'):
            return content.split('\n')
        if tag == 'pre':
            return '\n'.join(
                ' ' * s['indent'] + s['line_template'].format(l) for l in dom.lines(content)
            ).split('\n')
        if tag == 'blockquote':
            return '\n'.join(template.format(l) for l in dom.lines(content)).split('\n')
        if tag == 'dt' or tag[0] == 'h':
            return self.header(tag, content, inner, s)

        if tag == 'p' and s['skip_for_code_or_pre']:
            only = [c for c in node[2] if not (isinstance(c, str) and c.strip() == '')]
            if len(only) == 1 and not isinstance(only[0], str) and only[0][0] in ('code', 'pre'):
                return content.split('\n')
        if s['capitalized']:
            content = content.upper()
        arguments = dict((k, s[k]) for k in WRAP_ARGUMENTS if k in s)
        arguments['initial_indent'] = ' ' * s['initial_indent']
        arguments['subsequent_indent'] = ' ' * s['subsequent_indent']
        width = max(inner, 1)
        if tag == 'p':
            lines = []
            for chunk in content.split('\n'):
                lines.extend(justify(chunk.strip(), width, s['justification'], arguments) or [''])
            return [template.format(l) for l in lines]
        # Line breaks, and the lines of the blocks in an item, stay what they are.
        if self.has_blocks(node):
            content = [l.rstrip() for l in content.strip().split('\n') if l.strip()] or ['']
        else:
            content = [l.strip() for l in content.strip().split('\n')]
        lines = []
        for l in content:
            lines.extend(justify(l, width, s['justification'], arguments) or [''])
        return [template.format(lines[0])] + [' ' * template_width + l for l in lines[1:]]

    def has_blocks(self, node):
        for c in node[2]:
            if isinstance(c, str):
                continue
            if c[0] in ('p', 'div', 'ul', 'ol', 'dl', 'li', 'dt', 'dd', 'blockquote', 'pre') or c[0][0] == 'h' and len(c[0]) == 2:
                return True
            if self.placement.get(c[0]) == 'after_block' and id(c) in self.number:
                return True
            if self.has_blocks(c):
                return True
        return False

    def header(self, tag, content, inner, s):
        template = s['template']
        if tag != 'dt':
            hashes = '#' * int(tag[1])
            template = hashes + ' {} ' + hashes
        if s['capitalized']:
            content = content.upper()
        content = [l.strip() for l in content.strip().split('\n')]
        if s['spread'] > 0:
            content = [(s['spread_char'] * s['spread']).join(l) for l in content]
        out = template.format('\n'.join(content)).split('\n')
        if s['underlined']:
            out.append(s['underline_char'] * (inner if s['underline_full'] else max(len(l) for l in out)))
        if s['centered']:
            out = [center(l, inner) for l in out]
        return out
