"""C25: the addressable characters of text elements.

Reference: CSS Text white-space processing, character by character over the
whole text, independent of the element structure.
"""
import unicodedata
from xml.sax.saxutils import escape

from svgpy import SVGParser

from mc.engine import expect_eq, outcome, product

SVG = 'http://www.w3.org/2000/svg'
PARSER = SVGParser()
MODES = ('normal', 'nowrap', 'pre', 'pre-wrap', 'pre-line')


def hangul(ch):
    return unicodedata.name(ch, '').startswith('HANGUL')


def wide(ch):
    return unicodedata.east_asian_width(ch) in 'FWH' and not hangul(ch)


def process(chunks):
    """chunks: (string, white-space, owner); returns [(char, owner)]."""
    items = []      # (char, kind, owner, chunk)
    for k, (s, mode, owner) in enumerate(chunks):
        s = s.replace('\r\n', '\n').replace('\r', '\n')
        for ch in s:
            if mode in ('pre', 'pre-wrap'):
                kind = 'break' if ch == '\n' else 'kept'
            elif ch == '\n':
                kind = 'break' if mode == 'pre-line' else 'soft'
            elif ch in ' \t':
                kind = 'space'
            else:
                kind = 'kept'
            items.append((ch, kind, owner, k))
    out = []
    i = 0
    while i < len(items):
        if items[i][1] not in ('space', 'soft'):
            out.append(items[i])
            i += 1
            continue
        j = i
        while j < len(items) and items[j][1] in ('space', 'soft'):
            j += 1
        start = i == 0 or items[i - 1][1] == 'break'
        end = j == len(items) or items[j][1] == 'break'
        drop = start or end
        if not drop and any(x[1] == 'soft' for x in items[i:j]):
            p, n = items[i - 1], items[j]
            if '\u200b' in (p[0], n[0]) or wide(p[0]) and wide(n[0]):
                drop = True
        if not drop:
            out.append((' ', 'space', items[i][2], items[i][3]))
        i = j
    return [(x[0], x[2]) for x in out]


# A node: (kind, attributes, [string or node, ...])
def source(node):
    kind, attrs, content = node
    if kind == '!':
        return '<!--%s-->' % ''.join(content)
    if kind == '?':
        return '<?x %s?>' % ''.join(content)
    return '<%s%s>%s</%s>' % (
        kind, ''.join(' %s="%s"' % a for a in attrs),
        ''.join(escape(c, {'\r': '&#13;', '\t': '&#9;'})
                if isinstance(c, str) else source(c) for c in content),
        kind)


def chunks_of(node, mode, path, out):
    kind, attrs, content = node
    attrs = dict(attrs)
    if kind not in ('text', 'tspan') or attrs.get('display') == 'none' \
            or 'none' in attrs.get('style', '') or 'class' in attrs:
        return
    mode = attrs.get('white-space', mode)
    if 'white-space' in attrs.get('style', ''):
        mode = attrs['style'].split(':')[1]
    k = 0
    for c in content:
        if isinstance(c, str):
            out.append((c, mode, path))
        else:
            chunks_of(c, mode, path + (k,), out)
            k += 1


def elements(node, element, path=()):
    yield node, element, path
    k = 0
    for c in node[2]:
        if not isinstance(c, str):
            if c[0] == 'tspan':
                for x in elements(c, element[k], path + (k,)):
                    yield x
            k += 1


def verify(node, ctx, mode='normal', hidden=False):
    text = source(node)
    root = PARSER.fromstring('<svg xmlns="%s" white-space="%s"%s>%s%s</svg>' % (
        SVG, mode, ' display="none"' if hidden else '', text,
        '<style>.h{display:none}</style>' if 'class' in text else ''))
    before = root.tostring()
    text = root[0]
    chunks = []
    chunks_of(node, mode, (), chunks)
    chars = [] if hidden else process(chunks)
    for n, e, path in elements(node, text):
        want = ''.join(c for c, owner in chars if owner[:len(path)] == path)
        got = e.get_chars()
        expect_eq(got or '', want, 'characters of ' + source(n))
        if len(want) < 4:
            expect_eq(e.get_number_of_chars(), len(want),
                      'number of characters of ' + source(n))
        ctx.step()
        ctx.outcome(min(len(want), 4))
    expect_eq(root.tostring(), before, 'document')


def case_string(case, ctx):
    mode, parts = case
    verify(('text', (), [''.join(parts)]), ctx, mode)


def case_unicode(case, ctx):
    """Every character between line breaks, next to a wide one."""
    start, before, breaks = case
    chars = []
    for i in range(start, min(start + 0x400, 0x10000)):
        ch = chr(i)
        name = unicodedata.name(ch, '')
        if i < 0x21 or not name or 'HANGUL' in name and not (
                name.startswith(('HANGUL SYLL', 'HANGUL LET', 'HANGUL CHO',
                                 'HANGUL JUNG', 'HANGUL JONG'))):
            continue
        chars.append(ch)
    s = ''.join(before + breaks + ch + breaks for ch in chars)
    if s:
        verify(('text', (), [s]), ctx, 'normal')


def case_style(case, ctx):
    """Where the white-space property comes from."""
    outer, how, inner, s = case
    attrs = ()
    if how == 'attribute':
        attrs = (('white-space', inner),)
    elif how == 'style':
        attrs = (('style', 'white-space:' + inner),)
    verify(('text', attrs, [s]), ctx, outer)


def case_chunks(case, ctx):
    """text, child element, tail."""
    outer, kind, a, b, c = case
    attrs, content = (), [b]
    if kind in MODES:
        kind, attrs = 'tspan', (('white-space', kind),)
    elif kind == 'hidden':
        kind, attrs = 'tspan', (('display', 'none'),)
    elif kind == 'hidden by style':
        kind, attrs = 'tspan', (('style', 'display: none'),)
    elif kind == 'hidden by sheet':
        kind, attrs = 'tspan', (('class', 'h'),)
    elif kind == 'nested':
        kind, content = 'tspan', [('tspan', (), [b])]
    elif kind in '!?':
        content = ['x']
    verify(('text', (), [a, (kind, attrs, content), c]), ctx, outer)


def case_tree(case, ctx):
    """text, tspan with a child, tails."""
    mode, outer, inner, (a, b, c, d, e) = case
    i = (('white-space', inner),) if inner else ()
    o = (('white-space', outer),) if outer else ()
    verify(('text', (), [a, ('tspan', o, [b, ('tspan', i, [c]), d]), e]), ctx,
           mode)


def case_siblings(case, ctx):
    kinds, strings, hidden = case
    content = []
    for k, s in zip(kinds, strings):
        if k == 'tspan':
            content.append(('tspan', (), [s]))
        elif k == 'pre':
            content.append(('tspan', (('white-space', 'pre'),), [s]))
        elif k == 'hidden':
            content.append(('tspan', (('display', 'none'),), [s]))
        elif k == '!':
            content.append(('!', (), ['x']))
        elif k == 'empty':
            content.append(('tspan', (), []))
        else:
            content.append(s)
    verify(('text', (), content), ctx, 'normal', hidden)


def case_edit(case, ctx):
    """The characters are those of the current content."""
    root = PARSER.fromstring('<svg xmlns="%s"><g><text id="t">a <tspan>b'
                             '</tspan> c</text></g></svg>' % SVG)
    text = root[0][0]
    span = text[0]
    state = {'text': 'a ', 'span': 'b', 'tail': ' c', 'text-mode': '',
             'span-mode': '', 'text-hidden': False, 'span-hidden': False,
             'group-hidden': False, 'in': True}
    for what, value in case:
        if what == 'text':
            text.text = value
        elif what == 'span':
            span.text = value
        elif what == 'tail':
            span.tail = value
        elif what.endswith('-mode'):
            e = span if what[:4] == 'span' else text
            if value:
                e.set('white-space', value)
            else:
                e.attrib.pop('white-space', None)
        elif what.endswith('-hidden'):
            e = {'t': text, 's': span, 'g': root[0]}[what[0]]
            e.set('display', 'none' if value else 'inline')
        elif what == 'in':
            if value and span.getparent() is None:
                text.append(span)
            elif not value and span.getparent() is not None:
                text.remove(span)
        state[what] = value
        mode = state['text-mode'] or 'normal'
        chunks = [(state['text'], mode, ())]
        if state['in']:
            if not state['span-hidden']:
                chunks.append((state['span'], state['span-mode'] or mode,
                               (0,)))
            chunks.append((state['tail'], mode, ()))
        if state['text-hidden'] or state['group-hidden']:
            chunks = []
        chars = process(chunks)
        want = ''.join(c for c, _ in chars)
        expect_eq(text.get_chars() or '', want, 'text')
        expect_eq(text.get_number_of_chars(), len(want), 'number')
        want = ''.join(c for c, o in chars if o)
        expect_eq(span.get_chars() or '', want, 'tspan')
        expect_eq(span.get_number_of_chars(), len(want), 'number')
        ctx.step()
        ctx.outcome(len(want))


def case_content(case, ctx):
    """text_content of a text is that of its character data."""
    kinds, strings = case
    content, want = [], ''
    for k, s in zip(kinds, strings):
        if k == 'tspan':
            content.append(('tspan', (), [s]))
            want += s
        elif k == 'nested':
            content.append(('tspan', (('display', 'none'),),
                            [('tspan', (), [s]), s]))
            want += s + s
        elif k == '!':
            content.append(('!', (), ['x']))
        else:
            content.append(s)
            want += s
    root = PARSER.fromstring('<svg xmlns="%s">%s</svg>' % (
        SVG, source(('text', (), content))))
    expect_eq(root[0].text_content, want, 'text content')
    ctx.outcome(len(want))


def case_alone(case, ctx):
    kind, where = case
    if where == 'created':
        e = PARSER.create_element_ns(SVG, kind)
        e.text = 'a b'
    else:
        root = PARSER.fromstring('<svg xmlns="%s"><%s><%s>a b</%s></%s></svg>'
                                 % (SVG, where, kind, kind, where))
        e = root[0][0]
    want = 'a b' if kind == 'text' else ''
    expect_eq(e.get_chars() or '', want, 'characters')
    expect_eq(e.get_number_of_chars(), len(want), 'number')
    ctx.outcome(want)


def check(run):
    t = run.thorough
    words = ('a', ' ', '\t', '\n')
    n = 6 if t else 4
    run.cases('strings', [(m, p) for m in (MODES if t else MODES[::2])
                          for k in range(n + 1)
                          for p in product(*[words] * k)]
              + [(m, p) for m in MODES for k in range(4)
                 for p in product(*[words] * k)], case_string,
              bound='strings of up to %d of 4 characters' % n,
              min_outcomes=4)
    words = ('a', ' ', '\n', '\u200b', '\uff28', '\uff8a', '\uac00',
             '\u00a0', '\u3000', '\r', '\u1100', '\u4e00', '\U0001d400', '<&', '&amp;')
    spaces = (' ', '\n', '\n\n', ' \n', '\n \t', '\r', '\r\n', '\r \n')
    run.cases('characters', product(MODES if t else ('normal', 'pre-line'),
                                    product(words, spaces, words)),
              case_string, bound='%d characters around %d white spaces'
              % (len(words), len(spaces)), min_outcomes=3)
    run.cases('all characters', product(range(0, 0x10000, 0x400),
                                        ('\u4e00', 'a', '\uac00'),
                                        ('\n', ' \n\n\t')), case_unicode,
              bound='all characters up to U+FFFF next to 3 characters')
    run.cases('styles', product(MODES, ('', 'attribute', 'style'), MODES,
                                (' a\t\tb \n c ', '\n')), case_style,
              bound='sources of the white-space property', min_outcomes=3)
    strings = ('', 'a', ' ', 'a ', ' b', '\n', 'a\n', '\nb', ' c d \n')
    kinds = MODES + ('tspan', 'hidden', 'hidden by style', 'hidden by sheet',
                     'nested', 'title', 'desc', 'animate', '!', '?')
    run.cases('chunks', product(MODES if t else ('normal', 'pre-line'),
                                kinds, *([strings] * 3 if t else
                                         [strings[1:4], strings[::2],
                                          strings[::3] + strings[4:5]])),
              case_chunks,
              bound='text, one of 15 kinds of children, text',
              min_outcomes=4)
    strings = ('', 'a', ' ', ' b ', '\nc')
    run.cases('trees', product(('normal', 'pre') if t else ('normal',),
                               ('', 'pre', 'pre-line') if t else ('', 'pre'),
                               ('', 'pre', 'normal') if t else ('',),
                               product(*[strings if t else strings[1:4]] * 5)),
              case_tree, bound='nested tspans around all strings of 5',
              min_outcomes=4)
    kinds = ('', 'tspan', 'pre', 'hidden', '!', 'empty')
    strings = ('a', ' ', ' b ') if t else (' ', ' b')
    n = 3
    run.cases('siblings', product(product(*[kinds] * n),
                                  product(*[strings] * n) if t else
                                  [(' b', ' ', ' b'), (' ', ' b', ' ')],
                                  (False, True) if t else (False,)) +
              product(product(*[kinds] * 2), product(*[strings] * 2),
                      (True,)), case_siblings,
              bound='sequences of %d of 6 kinds of children' % n,
              min_outcomes=4)
    edits = [('text', 'x'), ('text', '\n '), ('text', 'y\n'), ('span', ' z '),
             ('span', ''), ('tail', 'q'), ('tail', ' \t'),
             ('text-mode', 'pre'), ('text-mode', ''), ('span-mode', 'pre'),
             ('span-mode', 'pre-line'), ('text-hidden', True),
             ('text-hidden', False), ('span-hidden', True),
             ('span-hidden', False), ('group-hidden', True),
             ('group-hidden', False), ('in', False), ('in', True)]
    n = 3 if t else 2
    run.cases('edits', product(*[edits] * n), case_edit,
              bound='sequences of %d of %d edits' % (n, len(edits)),
              min_outcomes=3)
    run.cases('text content',
              product(product(*[('', 'tspan', 'nested', '!')] * 3),
                      product(*[('a', ' \n')] * 3)), case_content,
              bound='4 kinds of children', min_outcomes=3)
    run.cases('alone', product(('text', 'tspan'),
                               ('created', 'svg', 'g', 'a')), case_alone,
              bound='texts and tspans in 4 places', min_outcomes=2)
