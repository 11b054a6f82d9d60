"""C08: the cascade, selector matching and inheritance of computed styles.

Reference model: a small element tree with its own selector matcher,
specificity, cascade order and inheritance; every document is serialised,
parsed by svgpy and compared through get_computed_style().
"""
from io import StringIO
from urllib.parse import quote
from xml.sax.saxutils import quoteattr

from svgpy import Font, SVGParser, Window
from svgpy.window import SVGDOMImplementation

from mc.engine import Machine, close, expect, expect_eq, product

SVG = 'http://www.w3.org/2000/svg'

# property -> (initial, value 1, value 2); all plain string values
INHERITED = {
    'clip-rule': ('nonzero', 'evenodd', 'nonzero'),
    'color': ('black', 'red', 'blue'),
    'color-interpolation': ('sRGB', 'linearRGB', 'auto'),
    'color-rendering': ('auto', 'optimizeSpeed', 'optimizeQuality'),
    'cursor': ('auto', 'crosshair', 'pointer'),
    'direction': ('ltr', 'rtl', 'ltr'),
    'fill': ('black', 'red', 'blue'),
    'fill-opacity': ('1', '0.5', '0.25'),
    'fill-rule': ('nonzero', 'evenodd', 'nonzero'),
    'font-kerning': ('auto', 'none', 'normal'),
    'font-stretch': ('normal', 'condensed', 'expanded'),
    'font-style': ('normal', 'italic', 'oblique'),
    'font-variant-caps': ('normal', 'small-caps', 'unicase'),
    'font-variant-position': ('normal', 'sub', 'super'),
    'image-rendering': ('auto', 'pixelated', 'crisp-edges'),
    'letter-spacing': ('normal', '2px', '3px'),
    'marker-end': ('none', 'url("#a")', 'url("#b")'),
    'marker-mid': ('none', 'url("#a")', 'url("#b")'),
    'marker-start': ('none', 'url("#a")', 'url("#b")'),
    'paint-order': ('normal', 'stroke', 'markers'),
    'pointer-events': ('visiblePainted', 'fill', 'stroke'),
    'shape-rendering': ('auto', 'crispEdges', 'optimizeSpeed'),
    'stroke': ('none', 'red', 'blue'),
    'stroke-dasharray': ('none', '5', '7'),
    'stroke-dashoffset': ('0', '5', '7'),
    'stroke-linecap': ('butt', 'round', 'square'),
    'stroke-linejoin': ('miter', 'round', 'bevel'),
    'stroke-miterlimit': ('4', '5', '7'),
    'stroke-opacity': ('1', '0.5', '0.25'),
    'text-anchor': ('start', 'middle', 'end'),
    'text-orientation': ('mixed', 'upright', 'sideways'),
    'text-rendering': ('auto', 'optimizeSpeed', 'geometricPrecision'),
    'visibility': ('visible', 'hidden', 'collapse'),
    'white-space': ('normal', 'pre', 'nowrap'),
    'word-spacing': ('normal', '2px', '3px'),
    'writing-mode': ('horizontal-tb', 'vertical-rl', 'vertical-lr'),
}
NON_INHERITED = {
    'overflow': ('visible', 'hidden', 'scroll'),
    'text-decoration': ('none', 'underline', 'overline'),
    'alignment-baseline': ('baseline', 'middle', 'central'),
    'baseline-shift': ('0', 'sub', 'super'),
    'clip-path': ('none', 'url("#a")', 'url("#b")'),
    'dominant-baseline': ('auto', 'middle', 'central'),
    'filter': ('none', 'url("#a")', 'url("#b")'),
    'flood-color': ('black', 'red', 'blue'),
    'flood-opacity': ('1', '0.5', '0.25'),
    'lighting-color': ('white', 'red', 'blue'),
    'opacity': ('1', '0.5', '0.25'),
    'stop-color': ('black', 'red', 'blue'),
    'stop-opacity': ('1', '0.5', '0.25'),
    'unicode-bidi': ('normal', 'embed', 'isolate'),
    'vector-effect': ('none', 'non-scaling-stroke', 'non-scaling-size'),
}
PROPS = dict(INHERITED)
PROPS.update(NON_INHERITED)
UA_HIDDEN = ('defs clipPath mask marker desc title metadata pattern hatch '
             'linearGradient radialGradient script style symbol').split()


# ---------------------------------------------------------------- documents
class Node(object):
    def __init__(self, local, attrs=(), children=(), text=None):
        self.local = local
        self.attrs = dict(attrs)
        self.children = list(children)
        self.text = text
        self.parent = None
        for c in self.children:
            c.parent = self

    def elements(self):
        yield self
        for c in self.children:
            yield from c.elements()

    def index(self):
        return self.parent.children.index(self) if self.parent else 0

    def siblings(self):
        return self.parent.children if self.parent else [self]


def xml(node, ns, top=True):
    name = ('s:' if ns == 'prefix' else '') + node.local
    out = '<' + name
    if top and ns == 'default':
        out += ' xmlns="%s"' % SVG
    elif top and ns == 'prefix':
        out += ' xmlns:s="%s"' % SVG
    for k, v in node.attrs.items():
        out += ' %s=%s' % (k, quoteattr(v))
    inner = (node.text or '').replace('&', '&amp;').replace('<', '&lt;')
    inner += '<!--c-->'.join(xml(c, ns, False) for c in node.children)
    return out + ('>%s</%s>' % (inner, name) if inner else '/>')


def load(node, ns='default', prolog=''):
    root = SVGParser().fromstring(xml(node, ns)) if not prolog else None
    if prolog:
        root = SVGParser().parse(StringIO(prolog + xml(node, ns))).getroot()
    return root, [e for e in root.iter() if isinstance(e.tag, str)]


# ---------------------------------------------------------------- selectors
# simple selector: (kind, ...); compound: tuple of simples;
# complex: (compound, comb, compound, ...)
def s_text(s):
    k = s[0]
    if k == 'type':
        return s[1]
    if k == 'ns':
        return 'svg|' + s[1]
    if k == '*':
        return '*'
    if k == '.':
        return '.' + s[1]
    if k == '#':
        return '#' + s[1]
    if k == '[]':
        return '[%s]' % s[1]
    if k in ('=', '~=', '^=', '$=', '*=', '|='):
        return '[%s%s"%s"]' % (s[1], k, s[2])
    if k == ':not':
        return ':not(%s)' % s_text(s[1])
    if k in (':nth-child', ':nth-last-child', ':nth-of-type'):
        return '%s(%s)' % (k, s[1])
    return k


def s_spec(s):
    k = s[0]
    if k in ('type', 'ns'):
        return (0, 0, 1)
    if k == '*':
        return (0, 0, 0)
    if k == '#':
        return (1, 0, 0)
    if k == ':not':
        return s_spec(s[1])
    return (0, 1, 0)


NTH = {'2': lambda i: i == 2, 'odd': lambda i: i % 2 == 1,
       'even': lambda i: i % 2 == 0, '2n+1': lambda i: i % 2 == 1,
       'n+2': lambda i: i >= 2, '-n+2': lambda i: i <= 2}


def s_match(s, n, ns):
    k = s[0]
    a = n.attrs
    if k == 'type':
        return n.local == s[1]
    if k == 'ns':
        return ns != 'none' and s[1] in ('*', n.local)
    if k == '*':
        return True
    if k == '.':
        return s[1] in a.get('class', '').split()
    if k == '#':
        return a.get('id') == s[1]
    if k == '[]':
        return s[1] in a
    if k in ('=', '~=', '^=', '$=', '*=', '|='):
        if s[1] not in a:
            return False
        v, w = a[s[1]], s[2]
        return {'=': v == w, '~=': w in v.split(), '^=': v.startswith(w),
                '$=': v.endswith(w), '*=': w in v,
                '|=': v == w or v.startswith(w + '-')}[k]
    if k == ':not':
        return not s_match(s[1], n, ns)
    sib = n.siblings()
    i = n.index()
    if k == ':root':
        return n.parent is None
    if k == ':first-child':
        return i == 0
    if k == ':last-child':
        return i == len(sib) - 1
    if k == ':only-child':
        return len(sib) == 1
    if k == ':empty':
        return not n.children and not n.text
    if k == ':nth-child':
        return NTH[s[1]](i + 1)
    if k == ':nth-last-child':
        return NTH[s[1]](len(sib) - i)
    same = [c for c in sib if c.local == n.local]
    if k == ':nth-of-type':
        return NTH[s[1]](same.index(n) + 1)
    if k == ':first-of-type':
        return same[0] is n
    if k == ':last-of-type':
        return same[-1] is n
    raise AssertionError(s)


def c_text(c):
    return ''.join(s_text(s) for s in c)


def sel_text(x):
    return ''.join(c_text(p) if i % 2 == 0 else p for i, p in enumerate(x))


def sel_spec(x):
    out = [0, 0, 0]
    for c in x[::2]:
        for s in c:
            out = [p + q for p, q in zip(out, s_spec(s))]
    return tuple(out)


def sel_match(x, n, ns):
    if not all(s_match(s, n, ns) for s in x[-1]):
        return False
    if len(x) == 1:
        return True
    comb, rest = x[-2].strip(), x[:-2]
    if comb == '':
        cand = []
        p = n.parent
        while p is not None:
            cand.append(p)
            p = p.parent
    elif comb == '>':
        cand = [n.parent] if n.parent else []
    else:
        prev = n.siblings()[:n.index()]
        cand = prev[-1:] if comb == '+' else prev
    return any(sel_match(rest, m, ns) for m in cand)


# ---------------------------------------------------------------- cascade
class Rule(object):
    """selectors: list of complex selectors, decls: (prop, value, imp)."""

    def __init__(self, selectors, decls):
        self.selectors = selectors
        self.decls = decls

    def text(self):
        return '%s { %s }' % (
            ', '.join(sel_text(s) for s in self.selectors),
            '; '.join('%s: %s%s' % (p, v, ' !important' if i else '')
                      for p, v, i in self.decls))


def inline_text(decls):
    return '; '.join('%s: %s%s' % (p, v, ' !important' if i else '')
                     for p, v, i in decls)


def cascaded(node, prop, rules, inline, ns='default'):
    """inline: {node: decls}"""
    cand = []
    if prop == 'display' and node.local in UA_HIDDEN:
        cand.append(((6,), 'none'))
    if prop in node.attrs:
        cand.append(((1,), node.attrs[prop]))
    for order, rule in enumerate(rules):
        specs = [sel_spec(s) for s in rule.selectors
                 if sel_match(s, node, ns)]
        if specs:
            for p, v, imp in rule.decls:
                if p == prop:
                    cand.append(((4 if imp else 2, max(specs), order), v))
    for p, v, imp in inline.get(node, ()):
        if p == prop:
            cand.append(((5 if imp else 3,), v))
    return max(cand)[1] if cand else None


def computed(node, prop, rules, inline, ns='default'):
    v = cascaded(node, prop, rules, inline, ns)
    if prop == 'display':
        n = node
        while n is not None:
            if cascaded(n, prop, rules, inline, ns) == 'none':
                return 'none'
            n = n.parent
        return v or 'inline'
    if v == 'inherit' or (v is None and prop in INHERITED):
        if node.parent is None:
            return PROPS[prop][0]
        return computed(node.parent, prop, rules, inline, ns)
    return PROPS[prop][0] if v is None else v


# ================================================================ 1 selectors
def T(name):
    return ('type', name)


def tree_a():
    return Node('svg', {'id': 'r'}, [
        Node('style'),
        Node('g', {'id': 'g1', 'class': 'a b'}, [
            Node('rect', {'id': 'r1', 'class': 'a'}),
            Node('g', {'data-x': 'v'}, [
                Node('rect', {'id': 'r2', 'class': 'b', 'data-x': 'v-w'}),
            ]),
            Node('circle', {'class': 'a c', 'data-x': 'u v'}),
        ]),
        Node('rect', {'class': 'ab', 'data-x': ''}),
        Node('text', {'id': 't1'}, (), 'x'),
    ])


def tree_b():
    return Node('svg', {}, [
        Node('style'),
        Node('rect', {'class': 'b a', 'id': 'r1'}),
        Node('rect', {'class': 'a', 'data-x': 'v'}),
        Node('circle', {'data-x': 'xv'}),
        Node('svg', {'class': 'a'}, [
            Node('circle', {'class': 'b'}),
            Node('rect', {'class': 'b', 'data-x': 'vx'}),
        ]),
    ])


TREES = {'a': tree_a, 'b': tree_b}
SLOTS = ['fill', 'stroke', 'color', 'flood-color', 'lighting-color',
         'stop-color', 'marker-start', 'marker-mid', 'marker-end',
         'clip-path', 'filter']


def slot_value(prop, i):
    return PROPS[prop][1 + i]


SIMPLES = [
    (T('rect'),), (T('g'),), (T('svg'),), (('*',),), (('.', 'a'),),
    (('.', 'b'),), (('#', 'r1'),), (('#', 'g1'),), (('[]', 'data-x'),),
    (('=', 'data-x', 'v'),), (('~=', 'data-x', 'v'),),
    (('^=', 'data-x', 'v'),), (('$=', 'data-x', 'v'),),
    (('*=', 'data-x', 'v'),), (('|=', 'data-x', 'v'),),
    ((':root',),), ((':first-child',),), ((':last-child',),),
    (T('g'), (':only-child',)), (T('rect'), (':only-child',)), ((':empty',),),
] + [((k, v),) for k in (':nth-child', ':nth-last-child')
     for v in sorted(NTH)] + [
    (T('rect'), (':first-of-type',)), (T('rect'), (':last-of-type',)),
    (T('circle'), (':first-of-type',)),
    (T('rect'), (':nth-of-type', '2')), (T('rect'), (':nth-of-type', 'odd')),
] + [((':not', s),) for s in (T('rect'), ('.', 'a'), ('#', 'r1'),
                              ('[]', 'data-x'), (':first-child',))]
PAIRS = [
    (a, b)
    for a in (T('rect'), T('g'), T('circle'), ('*',))
    for b in (('.', 'a'), ('#', 'r1'), ('[]', 'data-x'),
              (':first-child',), (':last-child',), (':not', ('.', 'a')),
              (':nth-child', '2'), (':not', ('=', 'data-x', 'v')))
] + [(('.', 'a'), ('.', 'b')), (('.', 'a'), ('[]', 'data-x')),
     (('.', 'b'), ('#', 'r1')), ((':root',), ('.', 'a'))]
COMBS = [' ', ' > ', ' + ', ' ~ ', '>', '+', '~', '  ']
PARTS = [(T('rect'),), (T('g'),), (T('svg'),), (('*',),), (('.', 'a'),),
         (('.', 'b'),), (('[]', 'data-x'),), ((':first-child',),),
         ((':not', ('.', 'a')),), (T('rect'), ('.', 'b'))]
SMALL = [(T('rect'),), (T('g'),), (('*',),), (('.', 'a'),)]


def selector_list(thorough):
    out = [(c,) for c in SIMPLES + PAIRS]
    out += [(a, k, b) for a in PARTS for k in COMBS for b in PARTS]
    tri = PARTS if thorough else SMALL
    out += [(a, k, b, m, c) for a in tri for k in COMBS[:4] for b in tri
            for m in COMBS[:4] for c in tri]
    return out


def ns_selectors():
    return [((('ns', 'rect'),),), ((('ns', '*'),),),
            ((('ns', 'g'),), ' > ', (('ns', 'rect'),)),
            ((('ns', 'rect'), ('.', 'b')),),
            (((':not', ('ns', 'rect')),),),
            ((('ns', 'g'),), ' ', (T('rect'),))]


def selectors_case(case, ctx):
    tree, ns, sels = case
    doc = TREES[tree]()
    style = next(n for n in doc.elements() if n.local == 'style')
    text = ''
    if any('svg|' in sel_text(s) for s in sels):
        text += '@namespace svg url(%s);\n' % SVG
    text += '* { %s }\n' % '; '.join(
        '%s: %s' % (p, slot_value(p, 1)) for p in SLOTS)
    # appears later, so wins even when it has no specificity
    for p, s in zip(SLOTS, sels):
        text += '%s { %s: %s }\n' % (sel_text(s), p, slot_value(p, 0))
    style.text = text
    root, elements = load(doc, ns)
    nodes = list(doc.elements())
    for n, e in zip(nodes, elements):
        st = e.get_computed_style()
        for p, s in zip(SLOTS, sels):
            ctx.step()
            m = sel_match(s, n, ns)
            ctx.outcome(m)
            expect_eq(st[p], slot_value(p, 0 if m else 1),
                      '%r %s match <%s %r>' % (
                          sel_text(s), 'should' if m else 'should not',
                          n.local, n.attrs))


# ================================================================ 2 cascade
TARGET_SELS = [
    ((('*',),),), ((T('rect'),),), ((('.', 'c'),),), ((('#', 'i'),),),
    ((T('g'),), ' ', (T('rect'),)), ((T('rect'), ('.', 'c')),),
    ((T('g'),), ' > ', (('.', 'c'),)), ((('[]', 'data-x'),),),
    ((T('circle'),),),
]
EXTRA_SELS = [((T('svg'),), ' ', (T('g'),), ' ', (T('rect'),)),
              ((T('rect'), ('.', 'c'), ('[]', 'data-x')),),
              (((':not', ('#', 'z')),),),
              ((T('rect'), (':first-child',)),),
              ((('.', 'c'), ('.', 'd')),)]
VALUES = {'fill': ['#aa0001', '#aa0002', '#aa0003', '#aa0004', '#aa0005'],
          'opacity': ['0.1', '0.2', '0.3', '0.4', '0.5']}


def norm_value(v):
    return v


def cascade_case(case, ctx):
    prop, attr, rules, inline, split = case
    rect = Node('rect', {'id': 'i', 'class': 'c d', 'data-x': '1'})
    g = Node('g', {}, [rect])
    styles = []
    vals = VALUES[prop]
    if attr:
        rect.attrs[prop] = vals[0]
    rule_objs = [Rule(sels, [(prop, vals[1 + i], imp)])
                 for i, (sels, imp) in enumerate(rules)]
    inl = {}
    if inline:
        inl[rect] = [(prop, vals[4], inline == 'important')]
        rect.attrs['style'] = inline_text(inl[rect])
    texts = [r.text() for r in rule_objs]
    if split:
        styles = [Node('style', {}, (), t) for t in texts]
    elif texts:
        styles = [Node('style', {}, (), '\n'.join(texts))]
    doc = Node('svg', {}, styles + [g])
    root, elements = load(doc)
    nodes = list(doc.elements())
    got = elements[nodes.index(rect)].get_computed_style()
    want = computed(rect, prop, rule_objs, inl)
    ctx.outcome(want)
    expect_eq(str(got[prop]), want, 'computed %s of rect in %s' % (
        prop, xml(doc, 'default')))


def cascade_cases(thorough):
    out = []
    srcs = [([s], i) for s in TARGET_SELS for i in (False, True)]
    groups = [([a, b], False) for a in TARGET_SELS[:5]
              for b in TARGET_SELS[3:]]
    if thorough:
        srcs += [([s], i) for s in EXTRA_SELS for i in (False, True)]
    rule_lists = [()] + [(a,) for a in srcs + groups] \
        + [(a, b) for a in srcs for b in srcs]
    if not thorough:
        rule_lists += [(([a], False), ([b], False)) for a in EXTRA_SELS
                       for b in TARGET_SELS + EXTRA_SELS]
        rule_lists += [(([b], False), ([a], False)) for a in EXTRA_SELS
                       for b in TARGET_SELS]
    rule_lists += [(g, ([s], False)) for g in groups for s in TARGET_SELS[:4]]
    for rl in rule_lists:
        for attr, inline in product((False, True),
                                    (None, 'normal', 'important')):
            out.append(('fill', attr, rl, inline, len(rl) == 2
                        and rl[0][0] != rl[1][0] and attr))
    for rl in rule_lists[:1 + len(srcs)]:
        for attr, inline in product((False, True),
                                    (None, 'normal', 'important')):
            out.append(('opacity', attr, rl, inline, False))
    if thorough:
        base = srcs[:14]
        for a, b, c in product(base, base, base):
            out.append(('fill', True, (a, b, c), None, False))
    return out


# ================================================================ 3 inherit
LEVEL = ['none', 'attr', 'rule', 'inline', 'inherit', 'inherit-rule']


def inherit_case(case, ctx):
    levels, which = case
    shape = Node('rect', {'id': 'n2'})
    g = Node('g', {'id': 'n1'}, [shape])
    style = Node('style')
    doc = Node('svg', {'id': 'n0'}, [style, g])
    nodes = [doc, g, shape]
    rules, inl = [], {}
    for i, (n, lv) in enumerate(zip(nodes, levels)):
        decls = [(p, v[1 + (i + which) % 2], False)
                 for p, v in PROPS.items()]
        sel = [((('#', 'n%d' % i),),)]
        if lv == 'attr':
            n.attrs.update((p, v) for p, v, _ in decls)
        elif lv == 'rule':
            rules.append(Rule(sel, decls))
        elif lv == 'inline':
            inl[n] = decls
            n.attrs['style'] = inline_text(decls)
        elif lv == 'inherit':
            n.attrs.update((p, 'inherit') for p in PROPS)
        elif lv == 'inherit-rule':
            rules.append(Rule(sel, [(p, 'inherit', False) for p in PROPS]))
    style.text = '\n'.join(r.text() for r in rules)
    if not rules:
        doc.children.remove(style)
    root, elements = load(doc)
    order = list(doc.elements())
    for n in nodes:
        st = elements[order.index(n)].get_computed_style()
        for p in PROPS:
            ctx.step()
            want = computed(n, p, rules, inl)
            ctx.outcome((p, want))
            expect_eq(st[p], want, 'computed %s of <%s> with %r' % (
                p, n.local, levels))


DISP = [None, 'none', 'inline', 'block']


def display_case(case, ctx):
    a, b, c, how, tag = case
    leaf = Node(tag, {'id': 'n2'})
    g = Node('g', {'id': 'n1'}, [leaf])
    style = Node('style')
    doc = Node('svg', {'id': 'n0'}, [style, g])
    rules, inl = [], {}
    for i, (n, v) in enumerate(zip((doc, g, leaf), (a, b, c))):
        if v is None:
            continue
        if how == 'attr':
            n.attrs['display'] = v
        elif how == 'inline':
            inl[n] = [('display', v, False)]
            n.attrs['style'] = inline_text(inl[n])
        else:
            rules.append(Rule([((('#', 'n%d' % i),),)],
                              [('display', v, how == 'important')]))
    style.text = '\n'.join(r.text() for r in rules)
    if not rules:
        style.text = '#zz { fill: red }'
    root, elements = load(doc)
    for n, e in zip(doc.elements(), elements):
        if n is style:
            continue
        ctx.step()
        want = computed(n, 'display', rules, inl)
        ctx.outcome((n.local, want))
        expect_eq(e.get_computed_style()['display'], want,
                  'computed display of <%s>' % n.local)


# ================================================================ 4 sheets
SHEETS = ['style', 'style-css', 'style-other', 'style-media-yes',
          'style-media-no', 'at-media-yes', 'at-media-no', 'at-media-nested',
          'link', 'link-media-no', 'link-alternate', 'link-other',
          'import', 'import-media-no', 'import-media-yes', 'pi', 'pi-media-no',
          'pi-alternate', 'bad-selector', 'bad-prefix', 'bad-group']


def data_url(text):
    return 'data:text/css,' + quote(text)


def sheet_parts(kind, value):
    """(prolog, element or None, applies)"""
    css = '.c { fill: %s }' % value
    yes, no = '(min-width: 1px)', '(max-width: 1px)'
    st = lambda text, **kw: Node(
        'style', {k.rstrip('_'): v for k, v in kw.items()}, (), text)
    if kind == 'style':
        return '', st(css), True
    if kind == 'style-css':
        return '', st(css, type='text/css', media='all'), True
    if kind == 'style-other':
        return '', st(css, type='text/plain'), False
    if kind == 'style-media-yes':
        return '', st(css, media='screen and ' + yes), True
    if kind == 'style-media-no':
        return '', st(css, media=no), False
    if kind == 'at-media-yes':
        return '', st('@media %s { %s }' % (yes, css)), True
    if kind == 'at-media-no':
        return '', st('@media print, %s { %s }' % (no, css)), False
    if kind == 'at-media-nested':
        return '', st('@media screen { @media %s { %s } '
                      '@media %s { .c { fill: #00000f } } }'
                      % (yes, css, no)), True
    if kind.startswith('link'):
        n = Node('link', {'rel': 'stylesheet', 'href': data_url(css)})
        if kind == 'link-media-no':
            n.attrs['media'] = no
        elif kind == 'link-alternate':
            n.attrs['rel'] = 'alternate stylesheet'
        elif kind == 'link-other':
            n.attrs['rel'] = 'icon'
        return '', n, kind == 'link'
    if kind.startswith('import'):
        m = {'import': '', 'import-media-no': ' ' + no,
             'import-media-yes': ' screen'}[kind]
        return '', st('@import url("%s")%s;' % (data_url(css), m)), \
            kind != 'import-media-no'
    if kind.startswith('pi'):
        extra = {'pi': '', 'pi-media-no': ' media="print"',
                 'pi-alternate': ' alternate="yes"'}[kind]
        return '<?xml-stylesheet href="%s" type="text/css"%s?>' % (
            data_url(css), extra), None, kind == 'pi'
    if kind == 'bad-selector':
        return '', st('rect:: { fill: %s } .c!c { fill: %s }'
                      % (value, value)), False
    if kind == 'bad-prefix':
        return '', st('undeclared|rect { fill: %s }' % value), False
    if kind == 'bad-group':
        return '', st('rect, .c:no-such-pseudo { fill: %s }' % value), False
    raise AssertionError(kind)


def sheets_case(case, ctx):
    kinds, nested = case
    prolog, nodes, applied = '', [], []
    for i, kind in enumerate(kinds):
        value = '#bb000%d' % (i + 1)
        p, n, applies = sheet_parts(kind, value)
        prolog += p
        if n is not None:
            nodes.append(n)
        if applies:
            # processing instructions precede every sheet of the document
            applied.append((0 if p else 1, i, value))
    rect = Node('rect', {'class': 'c'})
    if nested and nodes:
        # a sheet applies wherever its element is in the document
        nodes = [Node('defs', {}, nodes[:1])] + [rect] + nodes[1:]
        doc = Node('svg', {}, nodes)
    else:
        doc = Node('svg', {}, nodes + [rect])
    w = Window(SVGDOMImplementation())
    parser = w.document.implementation.parser
    root = parser.parse(StringIO(prolog + xml(doc, 'default'))).getroot()
    # the document supplies the window the media queries refer to
    if w.document.document_element is None:
        w.document.append(root)
    else:
        w.document.replace(w.document.document_element, root)
    root = w.document.document_element
    e = [x for x in root.iter() if isinstance(x.tag, str)
         and x.local_name == 'rect'][0]
    want = max(applied)[2] if applied else 'black'
    ctx.outcome(want)
    expect_eq(e.get_computed_style()['fill'], want,
              'computed fill with the sheets %r' % (kinds,))


# ================================================================ 5 fonts
ABS16 = {'xx-small': 10, 'x-small': 10, 'small': 13, 'medium': 16,
         'large': 18, 'x-large': 24, 'xx-large': 32}
SIZES = [None, 'inherit', '20px', '30', '15pt', '2em', '150%', '1.5rem',
         'larger', 'smaller', 'medium', 'x-large', '4px', '50%']

SIZES0 = [None, '20px', '2em', '150%', '1.5rem', 'larger', 'x-large', '4px']


def size_model(chain, default):
    """computed font sizes of a chain of specified values"""
    table = {k: v for k, v in ABS16.items()} if default == 16 else {
        'medium': default, 'x-large': default * 1.5, 'large': default * 1.2,
        'xx-large': default * 2}
    initial = max(10, table['medium'])
    out = []
    px = initial
    for v in chain:
        if v in (None, 'inherit'):
            pass
        elif v in table:
            px = table[v]
        elif v == 'larger':
            px = px * 1.2
        elif v == 'smaller':
            px = px / 1.2
        elif v.endswith('rem'):
            px = float(v[:-3]) * (out[0] if out else initial)
        elif v.endswith('em'):
            px = float(v[:-2]) * px
        elif v.endswith('%'):
            px = float(v[:-1]) / 100 * px
        elif v.endswith('pt'):
            px = float(v[:-2]) * 96 / 72
        else:
            px = float(v.replace('px', ''))
        px = max(10, px)
        out.append(px)
    return out


WEIGHTS = [None, 'inherit', 'normal', 'bold', 'bolder', 'lighter', '100',
           '300', '500', '600', '900']


def weight_model(chain):
    w = 400
    out = []
    for v in chain:
        if v in (None, 'inherit'):
            pass
        elif v == 'normal':
            w = 400
        elif v == 'bold':
            w = 700
        elif v == 'bolder':
            w = 400 if w < 350 else 700 if w < 550 else 900
        elif v == 'lighter':
            w = 100 if w < 550 else 400 if w < 750 else 700
        else:
            w = int(v)
        out.append(w)
    return out


def chain_case(case, ctx):
    prop, chain, how, default = case
    texts = []
    node = None
    nodes = []
    for i in reversed(range(len(chain))):
        kids = [node] if node else []
        local = 'svg' if i == 0 else 'g' if i < len(chain) - 1 else 'text'
        if i == 0 and how == 'rule':
            kids = [Node('style')] + kids
        node = Node(local, {'id': 'n%d' % i}, kids)
        nodes.insert(0, node)
    for i, (n, v) in enumerate(zip(nodes, chain)):
        if v is None:
            continue
        if how == 'attr':
            n.attrs[prop] = v
        elif how == 'inline':
            n.attrs['style'] = '%s: %s' % (prop, v)
        else:
            texts.append('#n%d { %s: %s }' % (i, prop, v))
    if how == 'rule':
        node.children[0].text = '\n'.join(texts) or '#zz{fill:red}'
    saved = Font.default_font_size
    Font.default_font_size = default
    try:
        root, elements = load(node)
        order = list(node.elements())
        want = size_model(chain, default) if prop == 'font-size' \
            else weight_model(chain)
        for n, wv in zip(nodes, want):
            ctx.step()
            got = elements[order.index(n)].get_computed_style()[prop]
            ctx.outcome(round(wv, 3))
            expect(close(got, wv, 1e-6), '%s of <%s> in the chain %r' % (
                prop, n.local, chain), wv, got)
    finally:
        Font.default_font_size = saved


# ================================================================ 6 edits
class Edits(Machine):
    """The computed style always reflects the current document."""
    name = 'document-edits'
    depth = 3

    RULES = [
        Rule([((('.', 'c'),),)], [('fill', '#cc0001', False)]),
        Rule([((T('g'),), ' > ', (T('rect'),))],
             [('fill', '#cc0002', False), ('opacity', '0.5', False)]),
        Rule([((T('g'),),)], [('fill', '#cc0003', True),
                              ('stroke', '#cc0004', False)]),
    ]

    def configs(self):
        return ['plain', 'styled']

    def fresh(self, config):
        model = self.fresh_model(config)
        doc = self.doc(model)
        root, elements = load(doc)
        return {'root': root}, model

    def fresh_model(self, config):
        return {'sheets': [0] if config == 'styled' else [],
                'g': {}, 'rect': {}, 'in_g': True}

    def doc(self, m):
        rect = Node('rect', m['rect'])
        g = Node('g', m['g'], [rect] if m['in_g'] else [])
        kids = [Node('style', {}, (), self.RULES[i].text())
                for i in m['sheets']]
        return Node('svg', {}, kids + [g] + ([] if m['in_g'] else [rect]))

    def menu(self, m):
        ops = []
        if len(m['sheets']) < 2:
            ops += [('add', i) for i in range(3) if i not in m['sheets']]
        if m['sheets']:
            ops += [('drop',), ('retext', 1), ('retext', 2)]
        ops += [('set', 'g', 'fill', '#cc0005'), ('del', 'g', 'fill'),
                ('set', 'rect', 'class', 'c'), ('del', 'rect', 'class'),
                ('set', 'rect', 'style', 'fill: #cc0006'),
                ('del', 'rect', 'style'), ('move',)]
        return ops

    def model_apply(self, m, op):
        if op[0] == 'add':
            m['sheets'].append(op[1])
        elif op[0] == 'drop':
            m['sheets'].pop(0)
        elif op[0] == 'retext':
            m['sheets'][0] = op[1]
        elif op[0] == 'set':
            m[op[1]][op[2]] = op[3]
        elif op[0] == 'del':
            m[op[1]].pop(op[2], None)
        else:
            m['in_g'] = not m['in_g']

    def find(self, root, name):
        return [e for e in root.iter() if isinstance(e.tag, str)
                and e.local_name == name]

    def apply(self, sut, op):
        root = sut['root']
        g = self.find(root, 'g')[0]
        rect = self.find(root, 'rect')[0]
        styles = self.find(root, 'style')
        if op[0] == 'add':
            st = root.owner_document.create_element('style') \
                if root.owner_document is not None else \
                SVGParser().create_element_ns(SVG, 'style')
            st.text = self.RULES[op[1]].text()
            root.insert(len(styles), st)
        elif op[0] == 'drop':
            root.remove(styles[0])
        elif op[0] == 'retext':
            styles[0].text = self.RULES[op[1]].text()
        elif op[0] == 'set':
            (g if op[1] == 'g' else rect).set_attribute(op[2], op[3])
        elif op[0] == 'del':
            (g if op[1] == 'g' else rect).remove_attribute(op[2])
        elif rect.getparent() is g:
            root.append(rect)
        else:
            g.append(rect)

    def observe(self, sut):
        out = []
        for name in ('g', 'rect'):
            st = self.find(sut['root'], name)[0].get_computed_style()
            out.append(tuple(st[p] for p in ('fill', 'stroke', 'opacity')))
        return tuple(out)

    def model_observe(self, m):
        doc = self.doc(m)
        rules = [self.RULES[i] for i in m['sheets']]
        out = []
        for name in ('g', 'rect'):
            n = next(x for x in doc.elements() if x.local == name)
            inl = {}
            if 'style' in n.attrs:
                inl[n] = [('fill', '#cc0006', False)]
            out.append(tuple(computed(n, p, rules, inl)
                             for p in ('fill', 'stroke', 'opacity')))
        return tuple(out)

    def key(self, m, obs):
        return repr((sorted(m['g'].items()), sorted(m['rect'].items()),
                     m['in_g'], m['sheets']))


def check(run):
    th = run.thorough
    sels = selector_list(th)
    n = len(SLOTS)
    groups = [tuple(sels[i:i + n]) for i in range(0, len(sels), n)]
    cases = [(t, ns, g) for t in sorted(TREES)
             for ns in ('default', 'prefix', 'none') for g in groups]
    cases += [(t, ns, tuple(ns_selectors())) for t in sorted(TREES)
              for ns in ('default', 'prefix', 'none')]
    run.cases('selectors', cases, selectors_case,
              '%d selectors on 2 trees x 3 namespace styles, every element'
              % len(sels), min_outcomes=2)
    run.cases('cascade', cascade_cases(th), cascade_case,
              'attribute x 0-2 (thorough 3) rules (specificity, order, '
              '!important, groups, sheets) x inline', min_outcomes=5)
    levels = product(*[LEVEL] * 3)
    run.cases('inheritance', [(lv, w) for lv in levels for w in (0, 1)],
              inherit_case, '%d properties x 3 levels x %d sources'
              % (len(PROPS), len(LEVEL)), min_outcomes=50)
    run.cases('display',
              [(a, b, c, how, tag) for a, b, c in product(DISP, DISP, DISP)
               for how in ('attr', 'inline', 'rule', 'important')
               for tag in (['rect'] if not th else ['rect', 'text'])]
              + [(None, b, c, how, tag) for b in (None, 'none', 'inline')
                 for c in (None, 'inline')
                 for how in ('attr', 'inline', 'rule', 'important')
                 for tag in UA_HIDDEN if tag not in ('script', 'style')],
              display_case, 'display on 3 levels; hidden elements',
              min_outcomes=4)
    kinds = [(k,) for k in SHEETS] + product(SHEETS, SHEETS)
    if th:
        good = ['style', 'at-media-yes', 'link', 'import', 'pi',
                'style-media-no', 'at-media-no', 'bad-selector']
        kinds += product(good, good, good)
    run.cases('sheets', [(k, nst) for k in kinds for nst in (False, True)],
              sheets_case, 'sequences of 1-2 (thorough 3) style sheets of '
              '%d kinds' % len(SHEETS), min_outcomes=3)
    fs = [('font-size', c, how, 16)
          for c in product(SIZES if th else SIZES0, SIZES, SIZES)
          for how in ('attr',)]
    fs += [('font-size', c, how, 16) for c in product(SIZES, SIZES)
           for how in ('inline', 'rule')]
    fs += [
        ('font-size', c, 'attr', d)
        for c in product([None, 'medium', 'larger', '2em', '150%', '1.5rem',
                          'x-large', 'xx-large'],
                         [None, 'medium', 'larger', '2em', '150%', '1.5rem',
                          'smaller'])
        for d in (20, 24)]
    fw = [('font-weight', c, 'attr', 16)
          for c in product(WEIGHTS, WEIGHTS, WEIGHTS)]
    fw += [('font-weight', c, how, 16) for c in product(WEIGHTS, WEIGHTS)
           for how in ('inline', 'rule')]
    if th:
        small = [None, '20px', '2em', '150%', '1.5rem', 'larger', 'smaller']
        fs += [('font-size', c, 'rule', 16)
               for c in product(small, small, small, small)]
        fs += [('font-size', c, how, 16)
               for c in product(SIZES, SIZES, SIZES)
               for how in ('inline', 'rule')]
        fw += [('font-weight', c, 'rule', 16)
               for c in product(WEIGHTS, WEIGHTS, WEIGHTS)]
    run.cases('font-size', fs, chain_case,
              'chains of 2-3 (thorough 4) elements x %d values'
              % len(SIZES), min_outcomes=20)
    run.cases('font-weight', fw, chain_case,
              'chains of 2-3 elements x %d values' % len(WEIGHTS),
              min_outcomes=6)
    run.histories(Edits(), 'edits of style sheets, attributes and tree')
