"""C15: basic shapes are the outlines SVG 2 defines.

Reference model: shape formulas over numbers; a length attribute is resolved
with its own table (px, mm, em, %, unitless) against the nearest viewBox.
"""
import math

from svgpy import SVGParser, SVGPathDataSettings, formatter
from svgpy.path import PathParser

from mc.engine import Machine, close, expect, expect_eq, outcome, product

VB = (200., 50.)
DIAG = math.sqrt((VB[0] ** 2 + VB[1] ** 2) / 2)
EM = 20.

# attribute alphabet: text -> value per axis
LEN = {None: None, 'auto': 'auto'}
for _t, _f in (('0', 0), ('7', 7), ('-3', -3), ('12.5', 12.5), ('40', 40),
               ('2mm', 2 * 96 / 25.4), ('1.5em', 1.5 * EM), ('6px', 6),
               ('1e1', 10), ('.5', .5), ('100', 100)):
    LEN[_t] = (_f, _f, _f)
for _p in (10, 50, 0, 5, 100):
    LEN['%d%%' % _p] = (VB[0] * _p / 100, VB[1] * _p / 100, DIAG * _p / 100)
HX, VY, DG = 0, 1, 2
AXIS = {'x': HX, 'cx': HX, 'rx': HX, 'width': HX, 'x1': HX, 'x2': HX,
        'y': VY, 'cy': VY, 'ry': VY, 'height': VY, 'y1': VY, 'y2': VY,
        'r': DG}


def length(name, text, default):
    v = LEN[text]
    if v is None:
        v = default
    if isinstance(v, tuple):
        return float(v[AXIS[name]])
    return v


def resolve(tag, attrs):
    g = {}

    def get(*names):
        for n in names:
            g[n] = length(n, attrs.get(n), 0.)
    if tag == 'circle':
        get('cx', 'cy', 'r')
    elif tag == 'line':
        get('x1', 'y1', 'x2', 'y2')
    else:
        if tag == 'ellipse':
            get('cx', 'cy')
        else:
            get('x', 'y', 'width', 'height')
            for n in ('width', 'height'):
                if g[n] == 'auto':
                    g[n] = 0.
        rx = length('rx', attrs.get('rx'), 'auto')
        ry = length('ry', attrs.get('ry'), 'auto')
        if rx == 'auto':
            rx = ry if ry != 'auto' else 0.
        if ry == 'auto':
            ry = rx
        if tag == 'rect':
            rx = min(rx, g['width'] / 2)
            ry = min(ry, g['height'] / 2)
        g['rx'], g['ry'] = rx, ry
    return g


def outline(tag, g):
    if tag == 'circle':
        g = dict(g, rx=g['r'], ry=g['r'])
    if tag in ('circle', 'ellipse'):
        cx, cy, rx, ry = g['cx'], g['cy'], g['rx'], g['ry']
        if rx <= 0 or ry <= 0:
            return []
        return [('M', cx + rx, cy)] + [
            ('A', rx, ry, 0, 0, 1, x, y) for x, y in (
                (cx, cy + ry), (cx - rx, cy), (cx, cy - ry),
                (cx + rx, cy))] + [('Z',)]
    if tag == 'line':
        a, b = (g['x1'], g['y1']), (g['x2'], g['y2'])
        return [] if a == b else [('M',) + a, ('L',) + b]
    x, y, w, h, rx, ry = (g[n] for n in ('x', 'y', 'width', 'height', 'rx',
                                         'ry'))
    if w <= 0 or h <= 0:
        return []
    if rx <= 0 or ry <= 0:
        return [('M', x, y), ('H', x + w), ('V', y + h), ('H', x), ('V', y),
                ('Z',)]

    def arc(px, py):
        return 'A', rx, ry, 0, 0, 1, px, py
    return [('M', x + rx, y), ('H', x + w - rx), arc(x + w, y + ry),
            ('V', y + h - ry), arc(x + w - rx, y + h), ('H', x + rx),
            arc(x, y + h - ry), ('V', y + ry), arc(x + rx, y), ('Z',)]


def perimeter(segs):
    """Length of an outline made of M, H, V, L, quarter arcs and Z."""
    total = 0.
    cur = start = (0., 0.)
    for s in segs:
        if s[0] == 'M':
            cur = start = s[1:]
            continue
        if s[0] == 'A':
            total += quarter(s[1], s[2])
            cur = s[6:]
            continue
        end = {'H': lambda: (s[1], cur[1]), 'V': lambda: (cur[0], s[1]),
               'L': lambda: s[1:], 'Z': lambda: start}[s[0]]()
        total += math.hypot(end[0] - cur[0], end[1] - cur[1])
        cur = end
    return total


def quarter(a, b, n=512):
    """Quarter of an ellipse by Simpson's rule."""
    def f(t):
        return math.hypot(a * math.sin(t), b * math.cos(t))
    h = math.pi / 2 / n
    return h / 3 * sum((1 if i in (0, n) else 4 if i % 2 else 2) * f(i * h)
                       for i in range(n + 1))


def segs_of(path):
    return [(s.type,) + tuple(float(v) for v in s.values) for s in path]


def expect_path(got, want, what):
    got = segs_of(got)
    ok = len(got) == len(want) and all(
        a[0] == b[0] and len(a) == len(b) and all(
            close(p, q, 1e-7) for p, q in zip(a[1:], b[1:]))
        for a, b in zip(got, want))
    expect(ok, what, want, got)


def setup():
    formatter.precision = 6
    parser = SVGParser()
    root = parser.create_element('svg')
    root.attributes.update({'viewBox': '0 0 %g %g' % VB, 'font-size': '%g'
                            % EM})
    return root


def make(parent, tag, attrs):
    e = parent.create_sub_element(tag)
    for k, v in attrs.items():
        if v is not None:
            e.set(k, v)
    return e


def settings(normalize):
    s = SVGPathDataSettings()
    s.normalize = normalize
    return s


def expect_geometry(e, g, what='geometry'):
    got = e.get_computed_geometry()
    expect_eq(sorted(got), sorted(g), what + ': names')
    hidden = g.get('width', 1) <= 0 or g.get('height', 1) <= 0
    for k in g:
        if hidden and k in ('rx', 'ry'):
            continue    # not rendered: radii have no meaning
        expect(close(got[k], g[k], 1e-7), what + ': ' + k, g, got)


def verify(e, g, want):
    expect_geometry(e, g)
    expect_path(e.get_path_data(), want, 'outline')
    n = e.get_path_data(settings(True))
    ref = PathParser.normalize(e.get_path_data(settings(False)))
    expect_path(n, segs_of(ref), 'normalised outline')
    expect(all(s.type in 'MLCZ' for s in n), 'base commands only', None, n)
    if want and want[0][0] == 'M' and any(s[0] == 'A' for s in want):
        ends = [tuple(s.values[-2:]) for s in n if s.type != 'Z']
        for s in want:
            if s[0] == 'A':
                expect(any(close(p[0], s[6], 1e-7) and close(p[1], s[7], 1e-7)
                           for p in ends), 'arc end in the normalised outline',
                       s, ends)
    # asking again gives the same answer
    expect_path(e.get_path_data(), want, 'outline asked again')


def shape_case(case, ctx):
    tag, items = case
    attrs = dict(items)
    e = make(setup(), tag, attrs)
    g = resolve(tag, attrs)
    want = outline(tag, g)
    verify(e, g, want)
    exact = not any(s[0] == 'A' and s[1] != s[2] for s in want)
    if exact:
        expect(close(e.get_total_length(), perimeter(want), 1e-3),
               'total length', perimeter(want), e.get_total_length())
    ctx.step(6)
    ctx.outcome((tag, len(want)))


# ---- points ---------------------------------------------------------------

SEPS = [',', ' ', ', ', ' ,', '\n', '\t ']


def points_case(case, ctx):
    tag, nums, sep, between, how = case
    e = make(setup(), tag, {})
    pts = list(zip(nums[::2], nums[1::2])) if len(nums) % 2 == 0 else []
    text = None
    if how == 'text':
        text = between.join(sep.join('%r' % n for n in nums[i:i + 2])
                            for i in range(0, len(nums), 2))
        e.set('points', ' ' + text + '\n')
    elif how == 'setter':
        e.points = list(pts)
    elif how == 'twice':
        e.points = [(5, 6), (7, 8), (9, 1)]
        e.points = list(pts)
    got = e.points if how != 'none' else e.points
    if how == 'none':
        pts = []
    expect_eq([tuple(float(v) for v in p) for p in got],
              [tuple(float(v) for v in p) for p in pts], 'points')
    got2 = e.points
    got2.append((1, 1))
    del got2[0]
    expect_eq(len(e.points), len(pts), 'points after changing the list')
    want = []
    if pts:
        want = [('M',) + pts[0]] + [('L',) + p for p in pts[1:]]
        if tag == 'polygon' and len(pts) > 1:
            want.append(('Z',))
    expect_path(e.get_path_data(), want, 'outline')
    expect_path(e.get_path_data(settings(True)), want, 'normalised outline')
    expect_eq([tuple(p) for p in e.get_computed_geometry()['points']],
              [tuple(float(v) for v in p) for p in pts], 'geometry')
    expect_path(e.get_path_data(), want, 'outline asked again')
    expect(close(e.get_total_length(), perimeter(want), 1e-7),
           'total length', perimeter(want), e.get_total_length())
    e.points = e.points
    expect_path(e.get_path_data(), want, 'outline after points = points')
    ctx.step(6)
    ctx.outcome((tag, len(want)))


# ---- path element and containers ------------------------------------------

DS = [None, 'none', '', 'M1,2', 'M1,2 L3,4', 'm1,2 3,4 h5 v-6z',
      'M0,0 C1,2 3,4 5,6 s7,8 9,10', 'M0,0 Q1,2 3,4 t5,6',
      'M1,1 a5 5 0 0 1 10 0 Z', 'M0,0 L1,0 Z m5,5 l1,1']


def path_case(case, ctx):
    d, e2 = case
    root = setup()
    e = make(root, 'path', {'d': d})
    want = segs_of(PathParser.parse(d)) if d not in (None, 'none', '') else []
    expect_path(e.get_path_data(), want, 'path data')
    n = segs_of(PathParser.normalize(PathParser.parse(d))) if want else []
    expect_path(e.get_path_data(settings(True)), n, 'normalised path data')
    expect_path(e.get_path_data(), want, 'path data asked again')
    src = make(root, 'path', {'d': e2})
    other = src.get_path_data()
    e.set_path_data(other)
    expect_path(e.get_path_data(), segs_of(other), 'after set_path_data')
    expect_path(src.get_path_data(), segs_of(other), 'source path')
    if not other:
        expect_eq(e.get('d'), 'none', 'empty path data')
    length = PathParser.get_total_length(other) if other else 0
    expect(close(e.get_total_length(), length), 'total length')
    ctx.step(5)
    ctx.outcome(len(want))


LEAVES = {
    'rect': ('rect', {'x': '1', 'y': '2', 'width': '10', 'height': '5'}),
    'circle': ('circle', {'cx': '5', 'cy': '6', 'r': '7'}),
    'ellipse': ('ellipse', {'rx': '7', 'ry': '3'}),
    'line': ('line', {'x2': '3', 'y2': '4'}),
    'polygon': ('polygon', {'points': '0,0 1,0 1,1'}),
    'polyline': ('polyline', {'points': '5,5 6,6'}),
    'path': ('path', {'d': 'M9,9 L8,8'}),
    'empty': ('rect', {}),
}


def leaf_path(kind):
    tag, attrs = LEAVES[kind]
    if tag == 'polygon':
        return [('M', 0, 0), ('L', 1, 0), ('L', 1, 1), ('Z',)]
    if tag == 'polyline':
        return [('M', 5, 5), ('L', 6, 6)]
    if tag == 'path':
        return [('M', 9, 9), ('L', 8, 8)]
    if kind == 'ellipse':
        g = {'cx': 0., 'cy': 0., 'rx': 7., 'ry': 3.}
    else:
        g = {k: 0. for k in ('x', 'y', 'width', 'height', 'rx', 'ry', 'x1',
                             'y1', 'x2', 'y2', 'cx', 'cy', 'r')}
        g.update((k, float(v)) for k, v in attrs.items())
    return outline(tag, g)


def grow(parent, tree):
    """tree: leaf name, ('g', trees...) etc.; returns the expected data."""
    if isinstance(tree, str):
        if tree in ('comment', 'title'):
            if tree == 'title':
                parent.create_sub_element('title')
            else:
                from svgpy import Comment
                parent.append(Comment('x'))
            return []
        make(parent, *LEAVES[tree])
        return leaf_path(tree)
    e = parent.create_sub_element(tree[0])
    want = []
    for t in tree[1:]:
        want += grow(e, t)
    return want if tree[0] in ('g', 'svg', 'a') else []


def container_case(case, ctx):
    root = setup()
    want = []
    for t in case:
        want += grow(root, t)
    expect_path(root.get_path_data(), want, 'container')
    n = root.get_path_data(settings(True))
    expect(all(s.type in 'MLCZ' for s in n), 'base commands only', None, n)
    ends = [tuple(s.values[-2:]) for s in n if s.type != 'Z']
    expect_eq(len([s for s in n if s.type == 'M']),
              len([s for s in want if s[0] == 'M']), 'normalised subpaths')
    expect_eq(len([s for s in n if s.type == 'Z']),
              len([s for s in want if s[0] == 'Z']), 'normalised closepaths')
    expect(bool(ends) == bool(want), 'normalised container')
    ctx.step(2)
    ctx.outcome(len(want))


# ---- attribute histories ----------------------------------------------------

class Edits(Machine):
    name = 'attribute-edits'
    depth = 3
    unmerged = 3

    MENU = {
        'rect': [('width', '40'), ('width', None), ('height', '50%'),
                 ('height', '7'), ('rx', '7'), ('rx', 'auto'), ('ry', '5%'),
                 ('ry', '0'), ('x', '2mm'), ('y', '1.5em')],
        'ellipse': [('rx', '7'), ('rx', 'auto'), ('rx', '10%'), ('ry', '40'),
                    ('ry', None), ('ry', '5%'), ('cx', '50%'),
                    ('cy', '-3')],
        'circle': [('r', '7'), ('r', '10%'), ('r', None), ('r', '0'),
                   ('cx', '6px'), ('cy', '50%')],
        'line': [('x1', '7'), ('x2', '7'), ('y1', '40'), ('y2', '40'),
                 ('x1', None), ('y2', '50%')],
    }

    def configs(self):
        return list(self.MENU)

    def fresh(self, config):
        return make(setup(), config, {}), {'tag': config, 'attrs': {}}

    def menu(self, model):
        return [(how,) + o for o in self.MENU[model['tag']]
                for how in ('set', 'attributes')]

    def apply(self, e, op):
        how, name, value = op
        if value is None:
            if name in e.attributes:
                if how == 'set':
                    e.remove_attribute(name)
                else:
                    e.attributes.pop(name)
        elif how == 'set':
            e.set(name, value)
        else:
            e.attributes.update({name: value})
        return None

    def model_apply(self, model, op):
        model['attrs'][op[1]] = op[2]
        return None

    def observe(self, e):
        return segs_of(e.get_path_data())

    def model_observe(self, model):
        return outline(model['tag'], resolve(model['tag'], model['attrs']))

    def same(self, a, b):
        if a is None or b is None:
            return a is b
        return len(a) == len(b) and all(
            p[0] == q[0] and len(p) == len(q) and all(
                close(x, y, 1e-7) for x, y in zip(p[1:], q[1:]))
            for p, q in zip(a, b))

    def key(self, model, obs):
        return sorted((k, str(v)) for k, v in model['attrs'].items())


def misc_case(case, ctx):
    root = setup()
    ctx.step()
    if case[0] == 'settings':
        e = make(root, case[1], LEAVES[case[1]][1])
        for bad in (True, 'x', {'normalize': True}):
            expect_eq(outcome(e.get_path_data, bad), ('exc', 'TypeError'),
                      'foreign settings')
    elif case[0] == 'bad':
        e = make(root, case[1], LEAVES[case[1]][1])
        e.set(case[2], 'foo')
        expect_eq(outcome(e.get_path_data), ('exc', 'ValueError'),
                  'bad length')
    else:
        g = root.create_sub_element('g')
        g.set('width', case[1])
        e = make(g, 'rect', {'width': 'inherit', 'height': '5'})
        gg = {'x': 0., 'y': 0., 'rx': 0., 'ry': 0., 'height': 5.,
              'width': length('width', case[1], 0.)}
        want = outline('rect', gg)
        expect_path(e.get_path_data(), want, 'inherited width')
    ctx.outcome(case[0])


def check(run):
    R = ['0', '7', '-3', '12.5', '10%', '2mm', '1.5em', None]
    pos = [None, '7', '-3', '50%', '2mm', '1e1']
    cases = [('circle', (('cx', a), ('cy', b), ('r', c))) for a in pos
             for b in pos for c in R + ['.5']]
    cases += [('ellipse', (('cx', a), ('cy', b), ('rx', c), ('ry', d)))
              for a, b in ((None, None), ('7', '-3'), ('50%', '50%'))
              for c in R + ['auto'] for d in R + ['auto']]
    lp = pos if run.thorough else [None, '7', '-3', '50%']
    cases += [('line', (('x1', a), ('y1', b), ('x2', c), ('y2', d)))
              for a in lp for b in lp for c in lp for d in lp]
    size = [None, 'auto', '0', '-3', '40', '10%', '1.5em']
    rad = [None, 'auto', '0', '7', '100', '5%', '50%']
    posn = [(None, None), ('7', '-3'), ('50%', '50%')] \
        if not run.thorough else [(a, b) for a in pos for b in pos]
    cases += [('rect', (('x', p), ('y', q), ('width', w), ('height', h),
                        ('rx', a), ('ry', b)))
              for p, q in posn for w in size for h in size
              for a in rad for b in rad
              if run.thorough or ((p is None or w == '40')
                                  and (w == h or '40' in (w, h)))]
    run.cases('shapes', cases, shape_case,
              'circle, ellipse, line, rect over length alphabets',
              min_outcomes=8)
    nums = [0, 1.5, -2]
    seqs = [()]
    for n in (1, 2, 3, 4, 5):
        seqs += product(*[nums] * n)
    if run.thorough:
        seqs += product(*[nums] * 6)
    seqs += [(0, 0, 3, 0, 3, 4), (1, 1, 1, 1, 1, 1), (0, 0, 1, 0, 0, 0),
             (1e-3, 100, 5, 6, 7, 8, 9, 10), (1, 2, 3, 4, 5, 6, 7)]
    pts = [(t, s, ',', ' ', h) for t in ('polygon', 'polyline') for s in seqs
           for h in ('text', 'setter', 'twice')
           if h == 'text' or len(s) % 2 == 0]
    pts += [(t, s, a, b, 'text') for t in ('polygon', 'polyline')
            for s in ((1, 2, 3, 4), (0, -1.5, 2, 0, 5, 5), (7, 8))
            for a in SEPS for b in SEPS]
    pts += [(t, (), ',', ' ', 'none') for t in ('polygon', 'polyline')]
    run.cases('points', pts, points_case,
              'all sequences of <= 5 of 3 numbers, 6 x 6 separators',
              min_outcomes=6)
    run.cases('paths', product(DS, DS), path_case,
              'all pairs of 10 path data strings', min_outcomes=4)
    leaves = list(LEAVES) + ['comment', 'title']
    trees = [(a, b) for a in leaves for b in leaves]
    trees += [(a, b, c) for a in leaves[:4] for b in leaves for c in leaves]
    for box in ('g', 'svg', 'defs', 'symbol', 'pattern', 'a'):
        trees += [((box, a), b) for a in leaves for b in leaves]
        trees += [(a, (box, b, c)) for a in leaves[:5] for b in leaves
                  for c in leaves[:5]]
        for box2 in ('g', 'svg', 'defs', 'symbol', 'a'):
            trees += [((box, a, (box2, b)), c) for a in leaves[:5]
                      for b in leaves[:5] for c in leaves[:3]]
            trees += [((box,), (box2,), a) for a in leaves[:3]]
    run.cases('containers', trees, container_case,
              'all trees of <= 3 shapes in 6 container kinds, 2 levels',
              min_outcomes=6)
    run.histories(Edits(), 'every sequence of 3 attribute edits per shape')
    misc = [('settings', t) for t in ('rect', 'circle', 'ellipse', 'path')]
    misc += [('bad', t, n) for t, ns in (
        ('rect', ('x', 'width', 'rx', 'ry')), ('circle', ('cx', 'r')),
        ('ellipse', ('rx', 'cy')), ('line', ('x1', 'y2'))) for n in ns]
    misc += [('inherit', v) for v in ('1e1', '50%', '1.5em', '0')]
    run.cases('rules', misc, misc_case, 'settings, bad lengths, inheritance')
