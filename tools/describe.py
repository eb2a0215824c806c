"""
Writes properties.jsonl and MANIFEST.json: python3 tools/describe.py
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARSER, RENDERING, WRAP, SELECTORS, NAMEDICT, CLI, MAIN, THEMES = [
    'gopher_render/' + n for n in (
        '_parser.py', 'rendering.py', '_textwrap.py', '_selectors.py', '_namedict.py', 'cli.py', '__main__.py', 'code_themes/')
]

P = []


def add(id, title, statement, over, text, why, files, mechanism, technique, note, observe=('GopherHTMLParser(...).feed(), .close(), .parsed',)):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement)
    P.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
        mechanism=[dict(name=n, where=w) for n, w in mechanism], technique=technique, note=note, observe=list(observe)))


add('C01', 'Nothing of a document is lost, repeated, or put in another order',
    'All of the text of a document appears in its rendering exactly once and in document order, together with exactly the '
    'markers, numbers, link references and link entries its elements stand for, however block, inline and unknown elements are '
    'nested (tags that are never closed, or closed in the wrong order, included) and whatever the width, boxes, justification and link placement. Comments, script content apart from its text, and '
    'source layout add nothing visible.',
    ['inputs', 'configurations'], 'every tree of elements, every width from 1 on, every box, justification and placement of links',
    'The tests render about thirty fixed documents; text is dropped or doubled only by particular nestings, widths and placements.',
    [PARSER, RENDERING, WRAP],
    [('building the tree of tags and text from parser events', PARSER), ('rendering children, then the element around them', RENDERING),
     ('text wrapping that keeps every chunk', WRAP)],
    'property-based testing: random trees, invariant over the visible characters (an independent walk of the tree)',
    'Generated trees up to about 40 elements (or 2000 alike in one); characters other than white space, > | and +.')

add('C02', 'Any input is rendered to a string, in bounded time, without an error',
    'For any text fed to the parser, however malformed (unclosed, stray and misnested tags, odd attributes, character references and URLs, '
    'fragments of markup), and any valid configuration, feeding, closing and reading the result end with a string and without an '
    'exception.',
    ['inputs', 'configurations'], 'every sequence of tokens and fragments of HTML, in any pieces, with every documented setting',
    'The tests only feed well formed documents with a handful of configurations.',
    [PARSER, RENDERING, WRAP, SELECTORS],
    [('handling of end tags that match nothing', PARSER), ('boxes and wrapping when there is no width left', RENDERING), ('classification of URLs', PARSER)],
    'fuzzing: random token sequences and grammar-based fragments with random configurations, crash and hang oracle',
    'Depth of nesting is bounded (60, and 5 or 6 for blocks that wrap their content); widths from 1; markup the HTML parser of the standard library refuses is skipped.')

add('C03', 'Text is wrapped to exactly the width that is left for it',
    'Paragraphs, list items and definitions are broken into the lines that greedy word wrapping gives at the page width less the '
    'margins, padding, borders, indentation and markers of the element and everything around it; no line is longer, except where '
    'breaking long words is turned off. The settings for hyphens, long words, sentence endings and indentation have the effect they have in '
    'textwrap of the Python standard library.',
    ['inputs', 'configurations'], 'every text, every width, every stack of boxes and quotes, every combination of wrapping settings',
    'The tests check a few widths with one short text each.',
    [RENDERING, WRAP],
    [('width left by the boxes around an element', 'Box in ' + RENDERING), ('ANSI aware text wrapper', WRAP)],
    'property-based testing: differential against textwrap of the standard library and a compositional model of the width',
    'Trusts textwrap of CPython 3.12.')

add('C04', 'Margins, padding and borders frame every block, at any depth of nesting',
    'A block is rendered as its content at the width that remains, padded to that width, with its padding around that, its '
    'border of the configured characters around the padding, and its margins around the border, and this composes for blocks inside of '
    'each other. The outer width of a bordered block is exactly the width it was given, and the widths that a box reports are those sums. Boxes share nothing with each other, or with what they were made from.',
    ['inputs', 'configurations'], 'every nesting of blocks with any combination of margins, padding and borders',
    'The tests have a single level of boxes with a few settings.',
    [RENDERING],
    [('Box widths and the frames drawn around content', RENDERING)],
    'property-based testing: reference model of framing, and a metamorphic law (a frame is put around the rendering at the smaller width)',
    'Blocks are separated by at least one line of margin; white space at the end of lines is ignored.')

add('C05', 'Renderers apply to exactly the elements their CSS selector matches',
    'A renderer registered for a selector is used for precisely those elements of a document that the selector matches '
    'according to the CSS specification: types, classes, ids, attribute operators, :first-child, :last-child, :nth-child(an+b), '
    ':not(), all four combinators and groups. Text, comments and white space between elements do not count as siblings.',
    ['inputs', 'programs'], 'every supported selector on every tree of elements',
    'The tests try single selectors on one small document each.',
    [SELECTORS, PARSER],
    [('specificity and matching of parsed selectors', SELECTORS), ('siblings, children and attributes of tags', PARSER)],
    'property-based testing: random selectors and trees against an independent CSS matcher',
    'The selector forms that cssselect parses and the library supports; identifiers in ASCII.')

add('C06', 'When several selectors match, specificity and then order decide',
    'If several configured selectors match an element, the renderer class in effect is the one of the most specific matching '
    'selector that has a class, with the later one winning ties, and each setting has the value of the most specific, then '
    'latest, matching selector that sets it. An element for which none of them has a class keeps its default renderer, '
    'with those settings. Selectors that have a renderer by default are no exception.',
    ['configurations', 'inputs'], 'every style sheet of selectors with classes and settings, every element',
    'The tests have two selectors at most.',
    [PARSER, SELECTORS, RENDERING],
    [('collecting matching renderers and merging their settings', PARSER), ('specificity of a selector', SELECTORS)],
    'property-based testing: random style sheets against a cascade written from the specification',
    'Settings are observed through templates and margins of the rendered elements.')

add('C07', 'Link references and link entries correspond, for every link, in every placement',
    'The links and images of a document that are not placed inline are numbered in document order, each is referred to with its number where it '
    'occurs, and listed exactly once, at the end of the document or after its block, with its number, its address in full, its title, and its '
    'description cut to the configured length. Inline links are written with their text, address and title, and anchors without an address are not links.',
    ['inputs', 'configurations'], 'every document with links, images and images in links, every combination of placements and entry settings',
    'The tests have one or two links per document, and few combinations of placements.',
    [PARSER, RENDERING],
    [('extraction and numbering of links', PARSER), ('templates of references and entries', RENDERING)],
    'property-based testing: reference model, and an independent reading of references and entries from the output',
    'Random documents with up to about 15 links.')

add('C08', 'Gophermaps have one well formed item per link, and no other lines like items',
    'With links in the footer of a gophermap, every link and image that is not inline is a line of exactly four fields separated by tabs (type and description, '
    'selector, host, port), in document order, and no other line contains a tab, whatever white space the text, code and '
    'attributes of the document contain. Combinations of options that cannot be honoured are rejected when the parser is made.',
    ['inputs', 'configurations'], 'every document, with tabs and line breaks anywhere in it',
    'The tests check the items for single links without unusual characters.',
    [PARSER, RENDERING],
    [('gophermap template and cleaning of its fields', RENDERING), ('validation of the options', PARSER)],
    'property-based testing: grammar of the gophermap checked on the output, reference model',
    'Items placed after their block are a known finding and left out here.')

add('C09', 'The type, selector, host and port of a gophermap item follow from the URL',
    'A relative or absolute path is an item on the configured host and port with that path as selector; a gopher URL is an item on its own host and port '
    '(70 if it has none); any other URL is an item of type h with the selector "URL:" followed by it. Otherwise the type is given by the extension of the last '
    'part of the path, whatever its case: 0 for text, g for GIF, I for other images, h for HTML, 9 for others, and 1 if there is none.',
    ['inputs', 'configurations'], 'every well formed URL of links and images',
    'The tests have a table of a few URLs.',
    [PARSER],
    [('parsing of URLs and guessing of types', PARSER)],
    'property-based testing: generated URLs against an independent translation',
    'Gopher URLs without query and fragment.')

add('C10', 'White space in the source does not matter outside of preformatted text',
    'Outside of preformatted elements, any run of spaces, tabs and line breaks is rendered like a single space, and white space '
    'between blocks, next to line breaks and at the start and end of blocks and items like none at all.',
    ['inputs'], 'every document and every way to lay it out with white space',
    'The tests use a few fixed documents, laid out in one way.',
    [PARSER, RENDERING],
    [('collapsing of white space in text', PARSER)],
    'property-based testing: metamorphic (the same document laid out in two ways)',
    'Documents with every kind of block.')

add('C11', 'Preformatted text is reproduced to the letter',
    'Every line of a pre element appears exactly as it is in the source, including blank lines, indentation, repeated white space, tabs and characters '
    'with a meaning in HTML, and is never wrapped; only the configured indentation and template, and those of what is around it, are added. '
    'That also goes for code and other inline elements inside of it, while text after it is normal again.',
    ['inputs', 'configurations'], 'every preformatted text, every width, every indentation and quote around it',
    'The tests have a few short pieces of code.',
    [PARSER, RENDERING],
    [('preformatted mode of the parser', PARSER), ('line based rendering of preformatted blocks', RENDERING)],
    'property-based testing: the lines of the source are looked for in the output, and a reference model',
    'Text that begins and ends with a line that is not blank; pre elements are not in list items.')

add('C12', 'Justified and aligned text has the same words and the exact width',
    'Full justification makes every line but the last exactly as wide as the block with the spaces spread as evenly as '
    'possible, centered text is centered, and right aligned text ends at the right edge. In each case the lines have the same words as without it.',
    ['inputs', 'configurations'], 'every text, width and justification',
    'The tests check each justification for one text.',
    [RENDERING, WRAP],
    [('justification functions', RENDERING)],
    'property-based testing: invariants of the lines, and a reference model in documents',
    'Lines of a single word cannot be stretched.')

add('C13', 'Styling text with escape sequences never changes how it is laid out',
    'A document in which text is styled with ANSI escape sequences has, without the sequences, exactly the lines it would have without the styles: wrapping, '
    'justification, headers, boxes (with styled borders and line templates, too), tabs, preformatted text and link descriptions count visible characters only, and white space is removed and joined as if it were not styled. No sequence is ever cut or dropped, and they stay in order.',
    ['inputs', 'configurations'], 'every document with styles on any part of its text, every width and justification',
    'The tests style a single word.',
    [WRAP, RENDERING],
    [('ANSI aware length, splitting and wrapping', WRAP), ('alignment that ignores escape sequences', RENDERING)],
    'property-based testing: differential between the document with and without styles',
    'Descriptions of links are cut without their styles.')

add('C14', 'Escape sequences give every character the configured style, and then end it',
    'For every combination of foreground and background colours (names, palette numbers, RGB, HTML notation), effects and fonts, a terminal that interprets the output shows '
    'each character of a styled element with exactly that style and that of the styled elements around it, and every character outside with the default one. At the end of the document no style is active.',
    ['inputs', 'configurations'], 'every style and nesting of styles that do not use the same attribute',
    'The tests compare a few fixed sequences.',
    [RENDERING],
    [('tables of codes, colours, and the enabling and disabling of each', RENDERING)],
    'property-based testing: an interpreter of SGR sequences as oracle',
    'ECMA-48 and the usual extensions for 8-bit and 24-bit colours.')

add('C15', 'List items have the right marker, number and hanging indentation',
    'The n-th item of an ordered list has the number start + (n-1) * step, whatever else is in the list, and items of other lists have '
    'their marker. Every further line of an item is indented by the width of its own marker, and nested lists are inside their item.',
    ['inputs', 'configurations'], 'every list up to 140 items with any content, numbering, and surroundings',
    'The tests have lists of two or three short items.',
    [RENDERING],
    [('numbering and line templates of items', RENDERING)],
    'property-based testing: reference model of lists',
    'Items of inline content with line breaks, and of text and lists nested up to 4 levels deep.')

add('C16', 'Rendering does not depend on what was rendered before, or meanwhile',
    'A document is rendered the same by a new parser and by one that has been reset, whatever other documents were rendered, abandoned, or are being rendered '
    'by other parsers in turns or by a renderer in the middle of it, even if they share renderers, settings and boxes, and even if a renderer has failed. The configuration that is passed in is never modified, and closing or reading twice changes nothing.',
    ['histories', 'configurations'], 'every sequence of feeding, closing, resetting, abandoning, interleaving, nesting and failing of parsers in one process',
    'The tests use each parser for one document, in one fixed order.',
    [PARSER, RENDERING, NAMEDICT],
    [('reset of the state of the parser', PARSER), ('settings copied for each renderer', RENDERING)],
    'stateful property-based testing: histories in one process against a process that renders only that document',
    'The reference is the code itself in a fresh process with another hash seed.')

add('C17', 'Settings are inherited from all base classes, overridden in order, never shared',
    'The settings of a renderer are those of its base classes merged in method resolution order, so that each class overrides single settings of those after it, and '
    'then those passed to it or configured for the element. Changing the settings of one renderer never changes those of another, of a class, or of the configuration; changing those of a class is for the renderers of it and of derived classes made afterwards.',
    ['programs', 'histories'], 'every hierarchy of renderer classes with single and multiple inheritance',
    'The tests have one hierarchy of two levels.',
    [RENDERING, NAMEDICT, PARSER],
    [('metaclass that collects settings', RENDERING), ('merge of settings on construction', RENDERING)],
    'stateful property-based testing: random class hierarchies against a merge over the method resolution order',
    'Values are compared at the level of settings, that is not merged any deeper.',
    observe=('Renderer(...).settings', 'rendered templates'))

add('C18', 'The entries of a namedict are always the same as items and as attributes',
    'After any sequence of operations on a namedict, its entries are the same read as items and as attributes, it equals the dictionary with the same '
    'operations applied, missing entries raise KeyError or AttributeError respectively, and namedicts made from each other are independent.',
    ['histories'], 'every sequence of the operations of dictionaries, by item, attribute and method',
    'The tests do one operation at a time on a new object.',
    [NAMEDICT],
    [('attribute access on top of a dictionary', NAMEDICT)],
    'stateful property-based testing: histories in step with plain dictionaries',
    'Names of dictionary methods are not used as attributes.',
    observe=('namedict',))

add('C19', 'Different ways to write the same markup are rendered the same',
    'Case of tags and attributes, kind of quotes, order and spacing of attributes, white space around classes, character references, comments, declarations, processing instructions, '
    'slashes in empty elements, end tags for elements that are not open, and end tags that are missing at the end of the document make no difference to the output.',
    ['inputs'], 'every document and every way to write it',
    'The tests write their documents in one way.',
    [PARSER],
    [('HTML events to tree', PARSER)],
    'property-based testing: metamorphic (the same tree written in two ways)',
    'Comments are not put inside of words of preformatted text.')

add('C20', 'The command renders Markdown and HTML files end to end',
    'The command writes to the destination exactly the rendering of the source file (Markdown for .md, HTML otherwise) at width 67 with a line of margin before and after, links in the footer, '
    'images inline and highlighted code, and prints the same, after the HTML if that is asked for. The source and all other files stay as they were, and if the source cannot be read '
    'the destination does too.',
    ['inputs', 'histories'], 'every document in either format, every sequence of runs on the same files',
    'The tests do not run the command at all.',
    [CLI, MAIN, PARSER, RENDERING],
    [('reading, conversion, rendering and writing', CLI)],
    'property-based testing: generated Markdown and HTML files against the reference model and the library; histories of runs',
    'UTF-8 files; Markdown as Python-Markdown 3.2 understands it.',
    observe=('gopher_render.cli.main', 'python -m gopher_render', 'destination file', 'stdout'))

add('C21', 'Highlighted code has the colours of its theme, and unchanged text',
    'With any of the nine code themes, each token of code in Pygments markup is shown with exactly the style the palette of the theme has for its class, '
    'tokens without one and everything else with the default style, and none is left active. The text is the same as without the theme.',
    ['inputs', 'configurations'], 'every sequence of tokens of all classes of Pygments, every theme',
    'The tests do not use the themes.',
    [THEMES, RENDERING, PARSER],
    [('selectors and settings of the themes', THEMES)],
    'property-based testing: generated and highlighted code, an interpreter of SGR sequences and tables of the palettes as oracle',
    'The tables were written down from the themes after comparing them with Pygments (monokai, autumn) and with each other.')

add('C22', 'Optimised output is the other one without white space at the end of lines',
    'With optimisation, which is the default, no line of the output ends with white space; without it the output is the same but for white space at the end of lines.',
    ['inputs', 'configurations'], 'every document, configuration and format',
    'The tests compare optimised output of a few documents.',
    [PARSER],
    [('stripping of the lines of the output', PARSER)],
    'property-based testing: differential between the two',
    'Tabs that end an item of a gophermap do not occur.')

add('C23', 'It does not matter how a document is split into pieces, nor how it is spelt',
    'Feeding a document in any number of pieces, split anywhere (in tags, attributes, character references, comments, words or white space), gives the same output as feeding it as a whole. '
    'So does the same document with names in another case, other quotes, white space within tags, character references, and comments or instructions in between.',
    ['inputs', 'schedules'], 'every document and every way to split and spell it',
    'The tests feed every document at once.',
    [PARSER],
    [('joining of adjacent text', PARSER)],
    'property-based testing: metamorphic (split and whole, one spelling and another)',
    'Pieces down to single characters.')

add('C24', 'Without configuration, documents have the documented default layout',
    'Every default renderer gives its element the default markers, templates, margins, indentation and wrapping, at any page width and for any nesting of blocks: '
    'headers and paragraphs with a line before and after, items with an asterisk or number, quotes with ">", code indented by four or in backticks, '
    'emphasis with underscores, asterisks and tildes, references for links.',
    ['inputs', 'configurations'], 'every document of the supported elements',
    'The tests check single elements.',
    [RENDERING, PARSER],
    [('default renderers of the elements and their settings', RENDERING + ', ' + PARSER)],
    'property-based testing: reference model of the whole layout',
    'List items and definitions contain inline content.')

add('C25', 'Every line of a quote is marked; its content is laid out for the remaining width',
    'A quote is rendered as its content would be on a page narrower by the width of its marker, with every line of that, empty ones included, put into the marker template; nested quotes repeat this. '
    'Only the empty lines before a paragraph at its start and after one at its end are left out.',
    ['inputs', 'configurations'], 'every content of quotes, every depth and template',
    'The tests have one quote of one paragraph.',
    [RENDERING],
    [('line template of quotes', RENDERING)],
    'property-based testing: metamorphic (the content rendered on its own) and model',
    'Quotes of blocks with margins.')

add('C26', 'Headers have exactly the configured look',
    'Every line of a header is capitalised, spread, put into its template, centered and underlined just as configured, for all six levels and for the terms of definition lists; the underline is as wide as the '
    'text, or as the space there is. Markdown headers begin with as many number signs as their level.',
    ['inputs', 'configurations'], 'every header text, every combination of settings, every width',
    'The tests have a few combinations with one text.',
    [RENDERING],
    [('header renderers', RENDERING)],
    'property-based testing: the settings applied one after another, as oracle',
    'Centered lines within one column.')

add('C27', 'The margins of the page move the whole output, and nothing else',
    'A document rendered on a page with margins is the document rendered without them on a page narrower by the left and right margin, '
    'with every line that is not empty moved to the right by the left margin and the lines of the top and bottom margins before and after. Only the links at the end of a gophermap are not moved.',
    ['inputs', 'configurations'], 'every document, margin, width and format',
    'The tests have one page with margins.',
    [PARSER, RENDERING],
    [('the box of the page', PARSER)],
    'property-based testing: metamorphic (with and without margins)',
    'Links in gophermaps are in the footer.')

add('C28', 'Inline elements are put into exactly the templates configured for them',
    'A style, code, link, image or line break is rendered as its template with the rendering of its content in the place of the '
    'placeholder, in capitals if that is configured, and this composes for elements in one another. Code with line breaks has a template of its own, '
    'as have references to links, links with a title and those without.',
    ['inputs', 'configurations'], 'every nesting of inline elements, every template, every placement of links and images',
    'The tests use the default templates only.',
    [RENDERING],
    [('templates of inline renderers', 'InlineRenderer in ' + RENDERING), ('templates of links and images', 'LinkRenderer and ImageRenderer in ' + RENDERING)],
    'property-based testing: reference model, and composition of the templates of random chains of elements',
    'Templates with named or empty placeholders.')

add('C29', 'Renderers written by the user get every element, its content and its box',
    'A renderer class that is configured for an element is used once for every such element, after those inside of it, with the element as it is in the '
    'document (attributes, classes, ancestors, children), its content exactly as its children were rendered, and the box of the block, or of the other renderer with a box, around it. '
    'Renderers of links and of their entries also get the number, address, title, placement and gophermap item of the link. Renderers do the same for elements of any name, and what NonRenderer is configured for is as if it were empty.',
    ['inputs', 'configurations'], 'every document, with subclasses of all renderers, and every choice of elements to be renamed or removed',
    'The tests have no renderers of their own.',
    [PARSER, RENDERING],
    [('rendering of children and context of renderers', 'TagParser.render in ' + PARSER), ('base classes of renderers', RENDERING)],
    'property-based testing: recording renderers against the generated tree, metamorphic renaming and removal of elements',
    'Links and images are inline where calls are recorded.', observe=('GopherHTMLParser(...).feed(), .close(), .parsed', 'Renderer.render()'))


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mechanism'], observe_at=p['observe'], hook_needed=None),
            )) + '\n')
    checks = [dict(
        property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
        technique=p['technique'], level='exploration',
        level_note='Random search with shrinking, not exhaustive. ' + p['note'],
    ) for p in P]
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(
            version=1, setup_cmd='./check --selftest', checks=checks, not_applicable=[],
            notes='No hooks: everything is observed through the public interface. Failing cases: ./check --replay <file>.',
        ), f, indent=1)
        f.write('\n')
    # The texts are there, for every property that has a check and no other.
    names = sorted(n.split('_')[0].upper() for n in os.listdir(os.path.join(VERIF, 'harness', 'props')) if n.startswith('c'))
    assert names == sorted(p['id'] for p in P), set(names) ^ set(p['id'] for p in P)


if __name__ == '__main__':
    main()
