"""C20: path data and bounding boxes of groups, nested viewports and use.

Reference: the path data of single shapes (decided by C15), transformed and
collected by an independent evaluation of the tree.
"""
import math

from svgpy import SVGParser, SVGPathDataSettings, SVGTransform, \
    SVGTransformList

from mc.engine import expect, expect_eq, outcome, product

SVG = 'http://www.w3.org/2000/svg'
XLINK = 'http://www.w3.org/1999/xlink'
PARSER = SVGParser()

SHAPES = {
    'rect': '<rect x="1" y="2" width="10" height="5"/>',
    'line': '<line x1="1" x2="8" y1="3" y2="3"/>',
    'polyline': '<polyline points="1,1 4,-6 9,2"/>',
    'polygon': '<polygon points="-3,1 4,6 9,2"/>',
    'path': '<path d="M1 2C9 -8 3 14 8 5L2 9z M20 1h3"/>',
    'circle': '<circle cx="3" cy="4" r="2"/>',
    'ellipse': '<ellipse cx="-3" cy="4" rx="5" ry="1"/>',
    'empty': '<rect width="0" height="4"/>',
    'nothing': '<path d=""/>',
}
TRANSFORMS = {
    '': (1, 0, 0, 1, 0, 0),
    'none': (1, 0, 0, 1, 0, 0),
    'translate(10,20)': (1, 0, 0, 1, 10, 20),
    'scale(2,3)': (2, 0, 0, 3, 0, 0),
    'scale(-1)': (-1, 0, 0, -1, 0, 0),
    'matrix(1 .5 -.5 2 3 4)': (1, .5, -.5, 2, 3, 4),
    'rotate(90)': (0, 1, -1, 0, 0, 0),
    'rotate(30)': (math.cos(math.pi / 6), .5, -.5, math.cos(math.pi / 6),
                   0, 0),
    'translate(5) rotate(90)': (0, 1, -1, 0, 5, 0),
}


def mul(m, n):
    a, b, c, d, e, f = m
    g, h, i, j, k, l = n
    return (a * g + c * h, b * g + d * h, a * i + c * j, b * i + d * j,
            a * k + c * l + e, b * k + d * l + f)


IDENTITY = TRANSFORMS['']


def flatten(path_data):
    return [(s.type, tuple(s.values)) for s in path_data]


def settings():
    s = SVGPathDataSettings()
    s.normalize = True
    return s


_SHAPE_DATA = {}


def shape_data(kind):
    if kind not in _SHAPE_DATA:
        shape = PARSER.fromstring('<svg xmlns="%s">%s</svg>' % (
            SVG, SHAPES[kind]))[0]
        _SHAPE_DATA[kind] = flatten(shape.get_path_data(settings()))
    return _SHAPE_DATA[kind]


def moved(data, m):
    a, b, c, d, e, f = m
    out = []
    for t, v in data:
        w = []
        for x, y in zip(v[::2], v[1::2]):
            w += [a * x + c * y + e, b * x + d * y + f]
        out.append((t, tuple(w)))
    return out


def curve_range(p):
    """The range of one coordinate of a cubic curve."""
    p0, p1, p2, p3 = p
    a = -p0 + 3 * p1 - 3 * p2 + p3
    b = 2 * (p0 - 2 * p1 + p2)
    c = p1 - p0
    ts = []
    if abs(a) < 1e-9:
        if abs(b) > 1e-9:
            ts = [-c / b]
    else:
        disc = b * b - 4 * a * c
        if disc >= 0:
            r = math.sqrt(disc)
            ts = [(-b + r) / (2 * a), (-b - r) / (2 * a)]
    vals = [p0, p3]
    for t in ts:
        if 0 < t < 1:
            u = 1 - t
            vals.append(u * u * u * p0 + 3 * u * u * t * p1
                        + 3 * u * t * t * p2 + t * t * t * p3)
    return vals


def bbox(data):
    xs, ys = [], []
    cur = None
    for t, v in data:
        if t == 'C':
            xs += curve_range((cur[0],) + v[::2])
            ys += curve_range((cur[1],) + v[1::2])
        elif t in 'ML':
            xs.append(v[0])
            ys.append(v[1])
        if v:
            cur = v[-2:]
    if not xs:
        return None
    return (min(xs), min(ys), max(xs) - min(xs), max(ys) - min(ys))


# A tree: ('shape', kind, transform, attributes) |
#   ('g' | 'a' | 'defs' | 'symbol' | ..., children, transform, attributes) |
#   ('svg', children, transform, attributes, (x, y, w, h, view box)) |
#   ('use', target name, transform, attributes, (x, y))
def attrs(node):
    out = ''
    if node[2]:
        out += ' transform="%s"' % node[2]
    for k, v in sorted(node[3].items()):
        out += ' %s="%s"' % (k, v)
    return out


def source(node):
    kind = node[0]
    if kind == 'shape':
        s = SHAPES[node[1]]
        return s[:-2] + attrs(node) + '/>'
    if kind == 'use':
        x, y = node[4]
        out = '<use'
        if node[1] is not None:
            out += ' href="%s"' % node[1]
        if x is not None:
            out += ' x="%s"' % x
        if y is not None:
            out += ' y="%s"' % y
        return out + attrs(node) + '/>'
    if kind == 'svg':
        x, y, w, h, vb = node[4]
        out = '<svg x="%g" y="%g" width="%g" height="%g"' % (x, y, w, h)
        if vb:
            out += ' viewBox="%g %g %g %g"' % vb
        return out + attrs(node) + '>' + ''.join(
            source(c) for c in node[1]) + '</svg>'
    return '<%s%s>%s</%s>' % (kind, attrs(node),
                              ''.join(source(c) for c in node[1]), kind)


def matrix(node):
    m = TRANSFORMS[node[2]]
    if node[0] == 'svg':
        x, y, w, h, vb = node[4]
        v = (1, 0, 0, 1, x, y)
        if vb:
            s = min(w / vb[2], h / vb[3])
            v = (s, 0, 0, s, x + (w - s * vb[2]) / 2 - vb[0] * s,
                 y + (h - s * vb[3]) / 2 - vb[1] * s)
        m = mul(v, m)
    return m


def walk(node):
    yield node
    if node[0] not in ('shape', 'use'):
        for c in node[1]:
            for n in walk(c):
                yield n


HIDDEN = [{'display': 'none'}, {'style': 'display: none'},
          {'class': 'hidden'}]
NEVER = ('defs', 'symbol', 'clipPath', 'mask', 'marker', 'pattern',
         'linearGradient', 'unknown-element', 'title')


class Tree:
    """The reference evaluation of a tree."""

    def __init__(self, root):
        self.root = root
        self.ids = {}
        self.parents = {}
        for n in walk(root):
            if n[0] not in ('shape', 'use'):
                for c in n[1]:
                    self.parents[id(c)] = n
            if 'id' in n[3] and n[3]['id'] not in self.ids:
                self.ids[n[3]['id']] = n

    def shown(self, node):
        if node[0] in NEVER:
            return False
        while node[3].get('display') == 'inherit':
            node = self.parents.get(id(node), self.root)
        return not (
            node[3].get('display') == 'none'
            or 'none' in node[3].get('style', '')
            or node[3].get('class') == 'hidden')

    def target(self, use):
        if not use[1] or use[1][0] != '#':
            return None
        return self.ids.get(use[1][1:])

    def circular(self, use):
        todo, seen = [use], []
        while todo:
            t = self.target(todo.pop())
            if t is None or any(t is s for s in seen):
                continue
            seen.append(t)
            for n in walk(t):
                if n is use:
                    return True
                if n[0] == 'use':
                    todo.append(n)
        return False

    def data(self, node, m=IDENTITY):
        """The path data of the content of a node."""
        kind = node[0]
        if kind == 'shape':
            return moved(shape_data(node[1]), m)
        if kind == 'use':
            t = self.target(node)
            if t is None or not self.shown(t) or self.circular(node):
                return []
            x, y = (float(v or 0) for v in node[4])
            return self.data(t, mul(m, mul((1, 0, 0, 1, x, y), matrix(t))))
        out = []
        if kind in NEVER:
            return out
        for c in node[1]:
            if self.shown(c):
                out += self.data(c, mul(m, matrix(c)))
        return out


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1., abs(a), abs(b))


def same_data(got, want):
    if [t for t, v in got] != [t for t, v in want]:
        return False
    return all(near(a, b) for (t, v), (u, w) in zip(got, want)
               for a, b in zip(v, w))


def same_box(got, want):
    if got is None or want is None:
        return got is want
    return all(abs(a - b) <= 1e-5 * max(1., abs(b))
               for a, b in zip(got, want))


def elements(node, element):
    """Pairs of reference nodes and elements."""
    yield node, element
    if node[0] not in ('shape', 'use'):
        for c, e in zip(node[1], element):
            for pair in elements(c, e):
                yield pair


def box_of(e):
    r = e.get_bbox()
    if r.x is None:
        return None
    return (r.x, r.y, r.width, r.height)


GRAPHICS = ('shape', 'use', 'g', 'a', 'svg')


def verify(children, ctx, measured=None):
    """Compares every graphics element of a document with the reference."""
    root = ('svg', children, '', {}, (0, 0, 300, 200, None))
    text = source(root)
    text = text.replace(
        '<svg ', '<svg xmlns="%s" xmlns:xlink="%s" ' % (SVG, XLINK), 1)
    text = text.replace('</svg>', '<style>.hidden{display:none}</style></svg>'
                        ) if text.count('</svg>') == 1 else \
        text[:-6] + '<style>.hidden{display:none}</style></svg>'
    svg = PARSER.fromstring(text)
    before = svg.tostring()
    tree = Tree(root)
    for node, e in elements(root, svg):
        if node[0] not in GRAPHICS:
            if node[0] in ('defs', 'symbol'):
                expect_eq(box_of(e), None, 'bounding box of ' + node[0])
            continue
        if measured is not None and node[0] not in measured:
            continue
        ctx.step()
        want = tree.data(node)
        got = flatten(e.get_path_data(settings()))
        expect(same_data(got, want), 'path data of ' + source(node),
               want, got)
        m = matrix(node)
        got = flatten(e.get_transformed_path_data(settings()))
        if node is not root:
            expect(same_data(got, moved(want, m)),
                   'transformed path data of ' + source(node),
                   moved(want, m), got)
        b = box_of(e)
        expect(same_box(b, bbox(want)), 'bounding box of ' + source(node),
               bbox(want), b)
        ctx.outcome('empty' if not want else node[0])
    expect_eq(svg.tostring(), before, 'document')


def case_chain(case, ctx):
    kind, t0, outer, t1, t2 = case
    node = ('shape', kind, t0, {})
    node = (outer[0], [node], t1, {})
    node = (outer[1], [node], t2, {})
    verify([node], ctx)


def case_children(case, ctx):
    verify([('g', list(case), 'rotate(30)', {})], ctx, ('g', 'svg'))


def case_viewport(case, ctx):
    outer, inner, kind, t0, t1 = case
    node = ('shape', kind, t0, {})
    if inner is not None:
        node = ('svg', [node], '', {}, inner)
    node = ('g', [node], t1, {})
    if outer is not None:
        node = ('svg', [node, ('shape', 'rect', '', {})], '', {}, outer)
    verify([node], ctx)


def case_use(case, ctx):
    target, where, href, pos, t, parent = case
    use = ('use', href, t, {}, pos)
    nodes = [('g', [use], parent, {})]
    place = [target]
    if where == 'defs':
        place = [('defs', place, '', {})]
    elif where == 'hidden':
        place = [('g', place, 'scale(2,3)', {'display': 'none'})]
    elif where == 'group':
        place = [('g', place, 'translate(10,20)', {})]
    nodes = nodes + place if len(repr(case)) % 2 else place + nodes
    verify(nodes, ctx)


def case_graph(case, ctx):
    """Groups that use each other, directly or by way of others."""
    edges, top = case
    groups = []
    for i, refs in enumerate(edges):
        content = [('shape', 'rect', 'translate(10,20)' if i else '', {})]
        for j in refs:
            content.append(('use', '#g%d' % j, 'scale(2,3)', {},
                            (None, '%d' % (i + 1))))
        groups.append(('g', content, '', {'id': 'g%d' % i}))
    uses = [('use', '#g%d' % j, '', {}, ('1', None)) for j in top]
    verify(uses + groups, ctx, ('use', 'svg'))


def case_href(case, ctx):
    """href takes precedence over xlink:href; unusable references."""
    href, xlink, root = case
    svg = PARSER.fromstring(
        '<svg xmlns="%s" xmlns:x="%s"><g><use%s%s/></g><rect id="a" '
        'width="3" height="4"/><rect id="b" width="5" height="6"/>'
        '<g id="e"/><title id="t">x</title><defs id="d"><rect id="a" '
        'width="9" height="9"/></defs></svg>' % (
            SVG, XLINK,
            '' if href is None else ' href="%s"' % href,
            '' if xlink is None else ' x:href="%s"' % xlink))
    g = svg[0]
    use = g[0]
    if root == 'detached':
        svg.remove(g)
        want = {}
    elif root == 'moved':
        svg.remove(g)
        new = PARSER.fromstring(
            '<svg xmlns="%s"><rect id="a" width="7" height="8"/></svg>' % SVG)
        new.append(g)
        want = {'a': (0, 0, 7, 8)}
    else:
        want = {'a': (0, 0, 3, 4), 'b': (0, 0, 5, 6)}
    ref = href or xlink
    box = want.get(ref[1:]) if ref else None
    got = outcome(box_of, use)
    expect_eq(got, ('ok', box), 'bounding box of the use')
    expect_eq(outcome(box_of, g), ('ok', box), 'bounding box of its parent')
    expect_eq(len(use.get_transformed_path_data()) > 0, box is not None,
              'path data')
    ctx.outcome(box)


LIVE = ('<svg xmlns="%s" width="300" height="200"><style>.h{display:none}'
        '</style><g id="g"><rect id="r" x="1" y="2" width="10" height="5"/>'
        '<svg id="s" width="30" height="20"><a id="a"><path id="p" '
        'd="M1 2C9 -8 3 14 8 5L2 9z"/></a></svg></g><use id="u" href="#r"/>'
        '<g id="o"><use id="v" href="#g" x="3"/></g></svg>' % SVG)


def edit(e, name, value):
    if value is None:
        e.attrib.pop(name, None)
    else:
        e.set(name, value)


def edits():
    out = []
    for i in 'grsau':
        out.append(('transform', i, 'rotate(30)'))
    for i in 'gru':
        out.append(('display', i, 'none'))
    out += [('display', 'r', None), ('transform', 'g', None),
            ('class', 'r', 'h'), ('class', 'a', 'h'),
            ('style', 'r', 'display:none'), ('style', 'r', None),
            ('width', 'r', '20'), ('d', 'p', 'M1 1L5 7'),
            ('viewBox', 's', '0 0 5 9'), ('x', 's', '7'), ('x', 'u', '9'),
            ('href', 'u', '#p'), ('href', 'u', '#g'), ('href', 'u', '#u'),
            ('href', 'u', None), ('id', 'r', 'z'), ('id', 'p', 'r'),
            ('sheet', '', '#r{display:none}'), ('sheet', '', ''),
            ('remove', 'r', ''), ('move', 'r', 's'), ('move', 'p', 'o'),
            ('move', 'a', 'g'), ('list', 'g', '')]
    return out


def measure(svg):
    out = []
    for i in 'gu':
        e = svg.get_element_by_id(i)
        out.append((i, box_of(e), flatten(e.get_path_data(settings())),
                    flatten(e.get_transformed_path_data(settings()))))
    out.append(('svg', box_of(svg), [], []))
    return out


def case_edits(case, ctx):
    """Measurements reflect the current state of the document."""
    svg = PARSER.fromstring(LIVE)
    known = {e.get('id'): e for e in svg.iter() if e.get('id')}
    last = measure(svg)
    for name, i, value in case:
        e = known.get(i)
        if name == 'sheet':
            svg[0].text = value
        elif name == 'remove':
            if e.getparent() is not None:
                e.getparent().remove(e)
        elif name == 'move':
            known[value].append(e)
        elif name == 'list':
            tr = e.transform or SVGTransformList()
            tr.append(SVGTransform(
                SVGTransform.SVG_TRANSFORM_SCALE, 2, 3))
            e.transform = tr
        else:
            edit(e, name, value)
        fresh = measure(PARSER.fromstring(svg.tostring().decode()))
        got = measure(svg)
        ctx.step()
        expect_eq([g[0] for g in got], [f[0] for f in fresh], 'elements')
        for g, f in zip(got, fresh):
            expect(same_box(g[1], f[1]), 'bounding box of ' + g[0], f[1],
                   g[1])
            for a, b in zip(g[2:], f[2:]):
                expect(same_data(a, b), 'path data of ' + g[0], b, a)
        ctx.outcome(got == last)
        last = got


def case_text(case, ctx):
    """The boxes of texts are transformed with the text."""
    t0, t1, wrapped = case
    inner = '<text x="5" y="20" font-size="20"%s>Hello</text>'
    svg = PARSER.fromstring('<svg xmlns="%s">%s</svg>' % (SVG, inner % ''))
    x, y, w, h = box_of(svg[0])
    a = ' transform="%s"' % t0 if t0 else ''
    b = ' transform="%s"' % t1 if t1 else ''
    content = inner % a
    if wrapped:
        content = '<g%s>%s</g>' % (b, content)
    svg = PARSER.fromstring('<svg xmlns="%s">%s</svg>' % (SVG, content))
    m = TRANSFORMS[t0]
    if wrapped:
        m = mul(TRANSFORMS[t1], m)

    def box(m):
        pts = moved([('M', (x, y)), ('M', (x + w, y)), ('M', (x, y + h)),
                     ('M', (x + w, y + h))], m)
        return bbox(pts)
    expect(same_box(box_of(svg), box(m)), 'bounding box of the document',
           box(m), box_of(svg))
    e = svg[0]
    if wrapped:
        expect(same_box(box_of(e), box(TRANSFORMS[t0])),
               'bounding box of the group', box(TRANSFORMS[t0]), box_of(e))
        e = e[0]
    expect(same_box(box_of(e), (x, y, w, h)), 'bounding box of the text',
           (x, y, w, h), box_of(e))
    ctx.outcome(wrapped)


def check(run):
    ts = list(TRANSFORMS)
    few = ['', 'translate(10,20)', 'matrix(1 .5 -.5 2 3 4)', 'rotate(30)']
    kinds = list(SHAPES)
    run.cases('nested groups',
              product(kinds, ts, [('g', 'g'), ('a', 'g'), ('g', 'a')], ts,
                      few) if run.thorough else
              product(kinds, ts, [('g', 'g'), ('a', 'g'), ('g', 'a')], few,
                      few[:1]), case_chain,
              bound='9 shapes in 2 groups, 9 (up to 9) transforms each',
              min_outcomes=4)
    items = [('shape', 'rect', '', {}), ('shape', 'line', 'rotate(90)', {}),
             ('shape', 'circle', 'scale(2,3)', {}),
             ('shape', 'empty', 'translate(10,20)', {}),
             ('shape', 'path', '', HIDDEN[0]),
             ('shape', 'path', '', HIDDEN[1]),
             ('g', [('shape', 'path', '', {})], '', HIDDEN[2]),
             ('g', [('shape', 'polygon', 'rotate(30)', {})],
              'translate(10,20)', {}),
             ('g', [], 'translate(10,20)', {}),
             ('svg', [('shape', 'polyline', '', {})], '', {},
              (7, 8, 20, 10, (0, 0, 10, 10))),
             ('g', [('shape', 'ellipse', '', {'display': 'inline'})], '',
              {'style': 'display: none'}),
             ('shape', 'polygon', 'scale(-1)', {'display': 'inline'})]
    items += [('g', [('shape', 'path', '', {'display': 'inherit'}),
                     ('shape', 'line', '', {})], '', {'display': v})
              for v in ('none', 'inherit')]
    items += [('shape', 'path', '', {'visibility': 'hidden'})]
    items += [(k, [('shape', 'path', 'scale(2,3)', {})], '', {})
              for k in NEVER]
    n = 3 if run.thorough else 2
    run.cases('children', [c for i in range(n + 1)
                           for c in product(*[items] * i)], case_children,
              bound='sequences of up to %d of %d kinds of children'
              % (n, len(items)), min_outcomes=3)
    views = [(0, 0, 30, 20, None), (5, 6, 30, 20, None),
             (0, 0, 30, 20, (0, 0, 30, 20)), (5, 6, 30, 20, (1, 2, 15, 40)),
             (-5, 6, 30, 60, (-3, 2, 60, 20))]
    run.cases('viewports', product([None] + views, [None] + views,
                                   *((kinds, few, few) if run.thorough else
                                     (('path', 'ellipse', 'empty'), few[::2], few[::3]))),
              case_viewport,
              bound='two nested viewports, 5 each', min_outcomes=3)
    targets = [('shape', k, t, {'id': 't'}) for k in kinds
               for t in ('', 'rotate(30)')]
    targets += [
        ('g', [('shape', 'rect', 'rotate(90)', {}),
               ('shape', 'circle', '', {'display': 'none'})],
         'scale(2,3)', {'id': 't'}),
        ('a', [('g', [('shape', 'path', '', {})], 'scale(-1)', {})], '',
         {'id': 't'}),
        ('g', [('use', '#u', 'rotate(90)', {}, ('1', '2')),
               ('shape', 'line', 'scale(2,3)', {'id': 'u'})],
         '', {'id': 't'}),
        ('shape', 'rect', '', {'id': 't', 'display': 'none'}),
        ('g', [('shape', 'rect', '', {})], '',
         {'id': 't', 'style': 'display:none'}),
        ('g', [], '', {'id': 't'}),
        ('title', [], '', {'id': 't'}),
        ('linearGradient', [], '', {'id': 't'}),
        ('clipPath', [('shape', 'rect', '', {})], '', {'id': 't'}),
        ('use', '#t', '', {'id': 't'}, (None, None))]
    run.cases('use', product(targets, ('root', 'defs', 'hidden', 'group'),
                             ('#t', '#none', '#', '') if run.thorough
                             else ('#t',),
                             ((None, None), ('3', None), (None, '-4'),
                              ('-3', None), ('-2', '4'), ('0', '5')),
                             *((few, few[:3]) if run.thorough else
                               (few[2:3], few[:1]))), case_use,
              bound='28 targets, 4 places, 4 references, 6 offsets, '
              'transforms', min_outcomes=4)
    subsets = [tuple(j for j in range(3) if m >> j & 1) for m in range(8)]
    graphs = [g for g in product(subsets, subsets, subsets)
              if run.thorough or sum(map(len, g)) < 4]
    run.cases('graphs of uses', product(graphs, [(0, 1, 2)]), case_graph,
              bound='graphs of 3 groups that use each other%s'
              % ('' if run.thorough else ' with up to 3 edges'),
              min_outcomes=3)
    refs = [None, '', '#a', '#b', '#none', '#e', '#t', '#d', '#']
    run.cases('references', product(refs, refs,
                                    ('document', 'detached', 'moved')),
              case_href, bound='9 x 9 references, 3 trees', min_outcomes=3)
    es = edits()
    second = es if run.thorough else es[::6]
    run.cases('edits', [(e,) for e in es] + product(es, second), case_edits,
              bound='all pairs of %d and %d edits' % (len(es), len(second)),
              min_outcomes=2)
    run.cases('texts', product(ts if run.thorough else few,
                               ts if run.thorough else few[::2],
                               (False, True)), case_text,
              bound='up to 9 x 9 transforms', min_outcomes=2)
