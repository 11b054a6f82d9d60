"""C18: DOMRect / DOMRectReadOnly behave as axis-aligned rectangles.

Reference model: (x, y, width, height) tuples with hull / intersection
computed on sorted edges.
"""
import math

from svgpy import DOMMatrix, DOMRect, DOMRectReadOnly

from mc.engine import Machine, all_close, expect, expect_eq, outcome, product


def valid(r):
    return r[0] is not None and r[1] is not None and r[2] > 0 and r[3] > 0


def hull(points):
    xs = [p[0] for p in points]
    ys = [p[1] for p in points]
    return min(xs), min(ys), max(xs) - min(xs), max(ys) - min(ys)


def corners(r):
    x, y, w, h = r
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]


def m_intersect(a, b):
    if not valid(a) or not valid(b):
        return a
    x1, y1 = max(a[0], b[0]), max(a[1], b[1])
    x2 = min(a[0] + a[2], b[0] + b[2])
    y2 = min(a[1] + a[3], b[1] + b[3])
    if x1 >= x2 or y1 >= y2:
        return a
    return x1, y1, x2 - x1, y2 - y1


def m_unite(a, b):
    """b with a negative size counts as the point (x, y)."""
    if b[0] is None or b[1] is None:
        return a
    pts = corners(b) if b[2] >= 0 and b[3] >= 0 else [(b[0], b[1])]
    if a[0] is not None and a[1] is not None:
        pts += corners(a)
    return hull(pts)


def m_contains(a, b):
    if not valid(a):
        return False
    pts = corners(b) if b[2] >= 0 and b[3] >= 0 else [(b[0], b[1])]
    return all(a[0] <= x <= a[0] + a[2] and a[1] <= y <= a[1] + a[3]
               for x, y in pts)


def m_normalize(a):
    x, y, w, h = a
    if w < 0:
        x, w = (None if x is None else x + w), -w
    if h < 0:
        y, h = (None if y is None else y + h), -h
    return x, y, w, h


def get(r):
    return r.x, r.y, r.width, r.height


def same(a, b):
    return all((p is None and q is None)
               or (p is not None and q is not None
                   and abs(p - q) <= 1e-9 * max(1, abs(p), abs(q)))
               for p, q in zip(a, b))


def eq(got, want, what):
    expect(same(got, want), what, want, got)


def verify(r, m, what):
    eq(get(r), m, what)
    x, y, w, h = m
    right = None if x is None else x + w
    bottom = None if y is None else y + h
    eq((r.left, r.top, r.right, r.bottom), (x, y, right, bottom),
       what + ': edges')
    eq(r.get_coords(), (x, y, right, bottom), what + ': get_coords')
    eq(r.get_rect(), m, what + ': get_rect')
    eq(r.get_size(), (w, h), what + ': get_size')
    m = get(r)      # rounding decides whether a rotated line has an area
    expect_eq(bool(r.isvalid()), valid(m), what + ': isvalid')
    expect_eq(bool(r.isempty()), not valid(m), what + ': isempty')
    j = r.tojson()
    expect_eq(sorted(j), ['height', 'width', 'x', 'y'], what + ': json keys')
    eq((j['x'], j['y'], j['width'], j['height']), m, what + ': tojson')
    for cls in (DOMRect, DOMRectReadOnly):
        o = cls.from_rect(j)
        expect(type(o) is cls, 'from_rect type')
        expect(o == r and r == o and not (o != r), what + ': equality')


MATS = {
    'identity': (1, 0, 0, 1, 0, 0),
    'translate': (1, 0, 0, 1, 5, -7),
    'scale': (2, 0, 0, 3, 1, 1),
    'flipx': (-1, 0, 0, 1, 0, 0),
    'flipy': (1, 0, 0, -2, 4, 0),
    'flipxy': (-1, 0, 0, -1, 3, 5),
    'skewx': (1, 0, .5, 1, 0, 0),
    'skewy': (1, -2, 0, 1, 0, 0),
    'collapse': (0, 0, 0, 0, 3, 4),
    'general': (2, 1, -.5, 3, 7, -11),
    'general2': (-2, 1, 1.5, -3, 7, 2),
}
for _a in (30, 45, 90, 120, 135, 180, 200, 225, 270, 300, 350):
    _t = math.radians(_a)
    _c, _s = round(math.cos(_t), 12), round(math.sin(_t), 12)
    MATS['rot%d' % _a] = (_c, _s, -_s, _c, 1, 2)


def m_transform(a, mat):
    if a[0] is None or a[1] is None or a[2] < 0 or a[3] < 0:
        return a
    p, q, r, s, e, f = MATS[mat]
    return hull([(p * x + r * y + e, q * x + s * y + f)
                 for x, y in corners(a)])


def pair_case(case, ctx):
    ra, rb = case
    ma, mb = tuple(ra), tuple(rb)
    for ca in (DOMRect, DOMRectReadOnly):
        for cb in (DOMRect, DOMRectReadOnly):
            a, b = ca(*ra), cb(*rb)
            wi = m_intersect(ma, mb)
            wu = m_unite(ma, mb)
            for r, w, what in ((a & b, wi, '&'), (a.intersect(b), wi,
                                                 'intersect'),
                               (a | b, wu, '|'),
                               (a.unite(*rb), wu, 'unite')):
                expect(type(r) is DOMRect, 'type of ' + what)
                expect(r is not a and r is not b, 'alias of ' + what)
                eq(get(r), w, what)
            eq(get(a), ma, 'left operand modified')
            eq(get(b), mb, 'right operand modified')
            if rb[0] is not None and rb[1] is not None:
                expect_eq(bool(a.contains(*rb)), m_contains(ma, mb),
                          'contains')
            expect_eq(a == b, ma == mb, '==')
            expect_eq(a != b, ma != mb, '!=')
            ctx.step(6)
    a, b = DOMRect(*ra), DOMRect(*rb)
    a0 = a
    a &= b
    expect(a is a0, '&= rebinds')
    eq(get(a), wi, '&=')
    a = a0 = DOMRect(*ra)
    a |= b
    expect(a is a0, '|= rebinds')
    eq(get(a), wu, '|=')
    a = DOMRect(*ra)
    expect(a.intersect_self(b) is a, 'intersect_self returns another object')
    eq(get(a), wi, 'intersect_self')
    a = DOMRect(*ra)
    expect(a.unite_self(*rb) is a, 'unite_self returns another object')
    eq(get(a), wu, 'unite_self')
    eq(get(b), mb, 'operand modified')
    a = DOMRect(*ra)
    a &= a
    eq(get(a), ma, 'a &= a')
    a |= a
    if valid(ma):
        eq(get(a), ma, 'a |= a')
    ctx.step(6)
    ctx.outcome((wi == ma, wu == ma, m_contains(ma, mb)
                 if rb[0] is not None and rb[1] is not None else None))


def single_case(case, ctx):
    r, ops = case
    ctx.step()
    for cls in (DOMRect, DOMRectReadOnly):
        a = cls(*r)
        verify(a, tuple(r), 'constructor')
        for op in ops:
            res = apply_copy(a, op)
            ctx.step()
            expect(type(res) is DOMRect and res is not a,
                   'type of %r' % (op,))
            want = m_op(tuple(r), op)
            verify(res, want, 'result of %r' % (op,))
            verify(a, tuple(r), 'receiver of %r' % (op,))
            ctx.outcome((op[0], valid(want)))


def apply_copy(a, op):
    k, v = op[0], op[1:]
    if k == 'transform':
        return a.transform(DOMMatrix(list(MATS[v[0]])))
    return getattr(a, k)(*v)


def m_op(a, op):
    k, v = op[0], op[1:]
    x, y, w, h = a
    if k == 'adjust':
        if not valid(a):
            return a
        return x + v[0], y + v[1], w - v[0] + v[2], h - v[1] + v[3]
    if k == 'normalize':
        return m_normalize(a)
    if k == 'transform':
        return m_transform(a, v[0])
    if k == 'translate':
        return x + v[0], y + v[1], w, h
    if k == 'transpose':
        return x, y, h, w
    if k == 'unite':
        return m_unite(a, (v + (0, 0))[:4])
    if k == 'intersect':
        return m_intersect(a, v[0])
    if k == 'move_to':
        return v[0], v[1], w, h
    if k == 'set_coords':
        return v[0], v[1], v[2] - v[0], v[3] - v[1]
    if k == 'set_rect':
        return v
    if k == 'set_size':
        return x, y, v[0], v[1]
    if k == 'set':
        a = list(a)
        a['x y width height'.split().index(v[0])] = v[1]
        return tuple(a)
    raise AssertionError(op)


class Hist(Machine):
    name = 'mutation-histories'
    depth = 3
    unmerged = 2

    def configs(self):
        return [(), (10, 20), (10, 20, 100, 200), (-5, 5, -10, 4),
                (0, 0, 0, 5)]

    def fresh(self, config):
        return DOMRect(*config), self.fresh_model(config)

    def fresh_model(self, config):
        c = list(config) + [None, None, 0, 0][len(config):]
        return {'r': tuple(c)}

    def menu(self, model):
        r = model['r']
        ops = [('adjust', -1, -2, 3, 4), ('adjust', 200, 0, -300, 0),
               ('move_to', 3, 4),
               ('set_coords', 1, 2, 30, 50), ('set_coords', 9, 2, 3, 50),
               ('set_rect', 4, 5, 60, 70), ('set_size', 7, 9),
               ('set_size', -7, 9), ('transpose',),
               ('set', 'x', 12), ('set', 'y', -3), ('set', 'width', 40),
               ('set', 'height', 0), ('set', 'width', -4),
               ('intersect', (0, 0, 50, 50)), ('intersect', (60, 80, 5, 5)),
               ('intersect', (None, None, 0, 0))]
        ops += [('transform', n) for n in
                ('translate', 'scale', 'flipx', 'rot90', 'rot135', 'skewx')]
        if r[0] is not None and r[1] is not None:
            ops += [('translate', 6, -8)]
        if (r[0] is None and r[1] is None and r[2] == 0 and r[3] == 0) or (
                r[0] is not None and r[1] is not None
                and r[2] >= 0 and r[3] >= 0):
            ops += [('unite', 40, 60), ('unite', -4, 300, 10, 10),
                    ('unite', 11, 21, 2, 2)]
        return ops

    def apply(self, sut, op):
        k, v = op[0], op[1:]
        if k == 'set':
            setattr(sut, v[0], v[1])
            return None
        if k == 'transform':
            r = sut.transform_self(DOMMatrix(list(MATS[v[0]])))
        elif k == 'intersect':
            r = sut.intersect_self(DOMRectReadOnly(*v[0]))
        elif k in ('move_to', 'set_coords', 'set_rect', 'set_size'):
            r = getattr(sut, k)(*v)
        else:
            r = getattr(sut, k + '_self')(*v)
        expect(r is sut, '%r does not return itself' % (op,))
        return None

    def model_apply(self, model, op):
        model['r'] = m_op(model['r'], op)
        return None

    def _compare(self, sut, model, op):
        verify(sut, model['r'], 'after %r' % (op,))
        return None

    def key(self, model, obs):
        return tuple(None if v is None else round(v, 6) for v in model['r'])


def misc_case(case, ctx):
    kind = case
    ctx.step()
    if kind == 'foreign operand':
        a = DOMRect(1, 2, 3, 4)
        for f in (lambda: a & 3, lambda: a | (1, 2, 3, 4),
                  lambda: a.intersect((1, 2, 3, 4)),
                  lambda: a.intersect_self(None)):
            expect_eq(outcome(f), ('exc', 'TypeError'), 'foreign operand')
        eq(get(a), (1, 2, 3, 4), 'after a rejected operand')
        expect_eq(a == (1, 2, 3, 4), False, 'foreign equality')
    else:
        a = DOMRectReadOnly(1, 2, 3, 4)
        for n in ('x', 'y', 'width', 'height', 'left', 'right', 'top',
                  'bottom'):
            expect_eq(outcome(setattr, a, n, 9)[1], 'AttributeError',
                      'read-only ' + n)
        verify(a, (1, 2, 3, 4), 'read-only rectangle')
        for n in dir(a):
            expect(not n.endswith('_self'), 'read-only has ' + n)
    ctx.outcome(kind)


def check(run):
    run.histories(Hist(), '25 operations, 5 initial rectangles, depth 3 '
                  '(depth 2 unmerged)')
    n = 5 if run.thorough else 4
    g = range(n)
    rects = [(x, y, w, h) for x in g for y in g for w in g for h in g]
    if not run.thorough:
        # x-extents paired with y-extents, enough to reach all 13*13
        # interval relations between two rectangles
        ext = [(x, w) for x in g for w in g]
        base = [(1, 1, 2, 2), (1, 0, 2, 3), (0, 2, 3, 1), (2, 1, 0, 2),
                (1, 1, 0, 0), (2, 2, 1, 0), (3, 0, 1, 1)]
        pairs = [(a, (x, y, w, h)) for a in base for x, w in ext
                 for y, h in ext]
        pairs += [((x, y, w, h), a) for a in base for x, w in ext
                  for y, h in ext]
    else:
        pairs = [(a, b) for a in rects for b in rects
                 if a[0] <= 2 and a[1] <= 2 and a[2] and a[3]]
    none = [(None, None, 0, 0), (10, 20, 0, 0), (2, 1, 5, 6), (-3, -4, 2, 9),
            (.5, .25, 1.5, 2)]
    pairs += [(a, b) for a in none for b in none]
    run.cases('pairs', pairs, pair_case,
              'all pairs on a %d-grid incl. empty and null' % n,
              min_outcomes=6)
    ops = [('adjust', -1, -2, 3, 4), ('adjust', 1, 1, -1, -1),
           ('adjust', 5, 5, -5, -5), ('normalize',), ('translate', 6, -8),
           ('translate', 0, 0), ('transpose',)]
    ops += [('transform', m) for m in MATS]
    sing = [((x, y, w, h), ops) for x in (-7, 0, 2.5) for y in (-3, 0, 11)
            for w in (-4, 0, 1, 10) for h in (-6, 0, 2, 7.5)]
    nops = [o for o in ops if o[0] != 'translate']
    sing += [((None, None, w, h), nops) for w in (0, 5) for h in (0, 5)]
    run.cases('single-rectangle', sing, single_case,
              '9 origins x 16 signed sizes x %d operations' % len(ops),
              min_outcomes=8)
    run.cases('type-rules', ['foreign operand', 'read-only'], misc_case)
