"""C17: DOMMatrix / DOMMatrixReadOnly obey 4x4 matrix algebra.

Reference model: a 4x4 list of lists plus a 2d flag, written from the
[geometry-1] definitions, no numpy.
"""
import math

from svgpy import DOMMatrix, DOMMatrixReadOnly

from mc.engine import Machine, all_close, close, expect, expect_close, \
    expect_eq, product

NAMES = ['m11', 'm12', 'm13', 'm14', 'm21', 'm22', 'm23', 'm24',
         'm31', 'm32', 'm33', 'm34', 'm41', 'm42', 'm43', 'm44']
ALIAS = {'a': 'm11', 'b': 'm12', 'c': 'm21', 'd': 'm22', 'e': 'm41',
         'f': 'm42'}
IDENT = [1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.]


class M(object):
    """Column-major list m11..m44 and the 2d flag."""

    def __init__(self, v=None, is2d=True):
        self.v = list(v or IDENT)
        self.is2d = is2d

    def copy(self):
        return M(self.v, self.is2d)

    def mul(self, o):
        # result = self * o; column k of the result, row r
        r = [0.] * 16
        for col in range(4):
            for row in range(4):
                r[col * 4 + row] = sum(
                    self.v[k * 4 + row] * o[col * 4 + k] for k in range(4))
        self.v = r

    def point(self, p):
        return [sum(self.v[k * 4 + row] * p[k] for k in range(4))
                for row in range(4)]

    def inverse(self):
        # Gauss-Jordan elimination on rows
        a = [[self.v[c * 4 + r] for c in range(4)]
             + [1. if r == c else 0. for c in range(4)] for r in range(4)]
        for i in range(4):
            p = max(range(i, 4), key=lambda k: abs(a[k][i]))
            if abs(a[p][i]) < 1e-9:
                return None
            a[i], a[p] = a[p], a[i]
            d = a[i][i]
            a[i] = [x / d for x in a[i]]
            for k in range(4):
                if k != i:
                    f = a[k][i]
                    a[k] = [x - f * y for x, y in zip(a[k], a[i])]
        return [a[r][4 + c] for c in range(4) for r in range(4)]


def t_translate(x, y, z):
    v = list(IDENT)
    v[12:15] = [x, y, z]
    return v


def t_scale(x, y, z):
    v = list(IDENT)
    v[0], v[5], v[10] = x, y, z
    return v


def t_rot(x, y, z, deg):
    n = math.sqrt(x * x + y * y + z * z)
    x, y, z = x / n, y / n, z / n
    t = math.radians(deg)
    s, c = math.sin(t), math.cos(t)
    k = 1 - c
    # row-major rotation matrix (Rodrigues)
    r = [[c + x * x * k, x * y * k - z * s, x * z * k + y * s],
         [y * x * k + z * s, c + y * y * k, y * z * k - x * s],
         [z * x * k - y * s, z * y * k + x * s, c + z * z * k]]
    v = list(IDENT)
    for row in range(3):
        for col in range(3):
            v[col * 4 + row] = r[row][col]
    return v


def apply_model(m, op):
    """Effect of the mutating operation op on the model."""
    k, a = op[0], op[1:]
    if k == 'translate':
        x, y, z = (a + (0, 0, 0))[:3]
        m.mul(t_translate(x, y, z))
        if z:
            m.is2d = False
    elif k == 'scale':
        sx = a[0]
        sy = a[1] if len(a) > 1 and a[1] is not None else sx
        sz = a[2] if len(a) > 2 else 1
        ox, oy, oz = (tuple(a[3:]) + (0, 0, 0))[:3]
        m.mul(t_translate(ox, oy, oz))
        m.mul(t_scale(sx, sy, sz))
        m.mul(t_translate(-ox, -oy, -oz))
        if sz != 1 or (oz and not (sx == sy == sz == 1)):
            m.is2d = False
    elif k == 'scale3d':
        s = a[0]
        ox, oy, oz = (tuple(a[1:]) + (0, 0, 0))[:3]
        m.mul(t_translate(ox, oy, oz))
        m.mul(t_scale(s, s, s))
        m.mul(t_translate(-ox, -oy, -oz))
        if s != 1:
            m.is2d = False
    elif k == 'rotate':
        rx, ry, rz = (a + (0, 0, 0))[:3]
        m.mul(t_rot(0, 0, 1, rz))
        m.mul(t_rot(0, 1, 0, ry))
        m.mul(t_rot(1, 0, 0, rx))
        if rx or ry:
            m.is2d = False
    elif k == 'axis':
        x, y, z, d = a
        if x or y or z:
            m.mul(t_rot(x, y, z, d))
            if x or y:
                m.is2d = False
    elif k == 'vector':
        x, y = a
        m.mul(t_rot(0, 0, 1, math.degrees(math.atan2(y, x))))
    elif k == 'skewx':
        v = list(IDENT)
        v[4] = math.tan(math.radians(a[0]))
        m.mul(v)
    elif k == 'skewy':
        v = list(IDENT)
        v[1] = math.tan(math.radians(a[0]))
        m.mul(v)
    elif k == 'flipx':
        m.mul(t_scale(-1, 1, 1))
    elif k == 'flipy':
        m.mul(t_scale(1, -1, 1))
    elif k in ('multiply', 'imul'):
        o = build_model(a[0])
        m.mul(o.v)
        if not o.is2d:
            m.is2d = False
    elif k == 'inverse':
        m.v = m.inverse()
    elif k == 'set':
        name, val = a
        i = NAMES.index(ALIAS.get(name, name))
        m.v[i] = float(val)
        if name not in ALIAS and i not in (0, 1, 4, 5, 12, 13):
            if val != IDENT[i]:
                m.is2d = False
    elif k == 'clear':
        m.v = list(IDENT)
        if a and a[0] is not None:
            m.is2d = a[0]
    else:
        raise AssertionError(op)


def apply_self(m, op):
    k, a = op[0], op[1:]
    if k == 'translate':
        return m.translate_self(*a)
    if k == 'scale':
        return m.scale_self(*a)
    if k == 'scale3d':
        return m.scale3d_self(*a)
    if k == 'rotate':
        return m.rotate_self(*a)
    if k == 'axis':
        return m.rotate_axis_angle_self(*a)
    if k == 'vector':
        return m.rotate_from_vector_self(*a)
    if k == 'skewx':
        return m.skew_x_self(*a)
    if k == 'skewy':
        return m.skew_y_self(*a)
    if k == 'multiply':
        return m.multiply_self(build(a[0]))
    if k == 'imul':
        m0 = m
        m *= build(a[0])
        expect(m is m0, 'in-place product returns another object')
        return m
    if k == 'inverse':
        return m.invert_self()
    if k == 'set':
        setattr(m, a[0], a[1])
        return m
    if k == 'clear':
        return m.clear(*a)
    raise AssertionError(op)


def apply_copy(m, op):
    k, a = op[0], op[1:]
    name = {'translate': 'translate', 'scale': 'scale', 'scale3d': 'scale3d',
            'rotate': 'rotate', 'axis': 'rotate_axis_angle',
            'vector': 'rotate_from_vector', 'skewx': 'skew_x',
            'skewy': 'skew_y', 'inverse': 'inverse', 'flipx': 'flip_x',
            'flipy': 'flip_y'}.get(k)
    if k == 'multiply':
        return m.multiply(build(a[0]))
    if k == 'imul':
        return m * build(a[0])
    return getattr(m, name)(*a)


V6 = (2., 1., -.5, 3., 7., -11.)
V6B = (0., 1., -1., 0., 0., 5.)
V16 = (2., 1., .5, 0., -1., 3., 0., .25, .5, 0., 1.5, 0., 10., 20., 30., 1.)
V16F = (1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 4., 5., 0., 1.)
CONFIGS = {
    'identity': ((), {}),
    'six': ((V6,), {}),
    'quarter': ((V6B,), {}),
    'sixteen': ((V16,), {}),
    'flat16': ((V16F,), {}),
    'named': ((), {'a': 2, 'd': .5, 'm41': 3, 'f': 4}),
    'named3d': ((), {'m43': 9, 'm11': 2}),
}


def build(name, cls=DOMMatrix):
    args, kw = CONFIGS[name]
    return cls(*[list(x) for x in args], **kw)


def build_model(name):
    args, kw = CONFIGS[name]
    if args:
        v = args[0]
        if len(v) == 6:
            m = M()
            m.v[0], m.v[1], m.v[4], m.v[5], m.v[12], m.v[13] = v
            return m
        return M(v, False)
    m = M()
    for k, val in kw.items():
        i = NAMES.index(ALIAS.get(k, k))
        m.v[i] = float(val)
        if i not in (0, 1, 4, 5, 12, 13) and m.v[i] != IDENT[i]:
            m.is2d = False
    return m


OPS = [
    ('translate', 3, -4), ('translate', 5), ('translate', 0, 0, 6),
    ('translate', 0, 2, 0), ('translate',),
    ('scale', 2), ('scale', 2, 3), ('scale', 1, 1, 2), ('scale', -1, .5),
    ('scale', 2, 3, 1, 10, 20), ('scale', 2, None, 1, 0, 7),
    ('scale', 1, 4, 1, 3, 0), ('scale', 3, 1, 1, 5, 6),
    ('scale', 2, 3, 4, 1, 2, 3), ('scale', 2, 2, 1, 0, 0, 9),
    ('scale', 1, 1, 1, 4, 5, 0),
    ('scale3d', 2), ('scale3d', 1), ('scale3d', .5, 1, 2, 3),
    ('rotate', 0, 0, 30), ('rotate', 0, 0, -90), ('rotate', 0, 45, 0),
    ('rotate', 60, 0, 0), ('rotate', 10, 20, 30), ('rotate',),
    ('axis', 0, 0, 1, 25), ('axis', 0, 0, 3, 40), ('axis', 0, 0, -1, 40),
    ('axis', 0, 1, 0, 50), ('axis', 1, 0, 0, 50), ('axis', 0, 0, 0, 50),
    ('axis', 1, 2, 3, 70), ('axis', 0, -2, 0, 15), ('axis', 1, 1, 0, 35),
    ('vector', 1, 1), ('vector', 0, 0), ('vector', -2, 0), ('vector', 0, -3),
    ('skewx', 30), ('skewx', -20), ('skewy', 15), ('skewy', 0),
    ('multiply', 'six'), ('multiply', 'sixteen'), ('multiply', 'flat16'),
    ('imul', 'quarter'), ('imul', 'sixteen'),
    ('multiply', 'identity'), ('imul', 'identity'), ('rotate', 0, 0, 0),
    ('rotate', 0, 0, 180), ('rotate', 0, 0, 360), ('axis', 0, 1, 1, 90),
    ('axis', 0, 1, -2, 180), ('axis', 1, 0, 1, 60), ('scale', 1),
    ('scale', -1), ('skewx', 0), ('translate', 1, 1, 0),
    ('inverse',),
    ('set', 'a', 5), ('set', 'b', -2), ('set', 'c', .5), ('set', 'd', 4),
    ('set', 'e', 9), ('set', 'f', 8), ('set', 'm43', 0),
] + [('set', n, 3) for n in NAMES] + [('set', 'm33', 1), ('set', 'm44', 1),
                                      ('set', 'm13', 0)] + [
    ('clear',), ('clear', True), ('clear', False),
]
COPY_OPS = [op for op in OPS if op[0] not in ('set', 'clear')] \
    + [('flipx',), ('flipy',)]
SMALL = [('translate', 3, -4), ('translate', 0, 0, 6), ('scale', 2, 3),
         ('scale', 2, 3, 1, 10, 20), ('scale3d', 2), ('rotate', 0, 0, 30),
         ('rotate', 10, 20, 30), ('axis', 1, 2, 3, 70), ('vector', 1, 1),
         ('skewx', 30), ('skewy', 15), ('multiply', 'six'),
         ('multiply', 'sixteen'), ('inverse',), ('set', 'm13', 3),
         ('set', 'e', 9), ('set', 'b', -2), ('clear',), ('clear', True)]


def fmt(x):
    s = '%.6f' % x
    s = s.rstrip('0').rstrip('.')
    return '0' if s == '-0' else s


def verify(m, mod, where):
    for i, n in enumerate(NAMES):
        expect_close(getattr(m, n), mod.v[i], where + ': ' + n)
    for a, n in ALIAS.items():
        expect_close(getattr(m, a), mod.v[NAMES.index(n)], where + ': ' + a)
    expect_eq(bool(m.is2d), mod.is2d, where + ': is2d')
    expect_close(m.to_float_array(), mod.v, where + ': to_float_array')
    six = [mod.v[i] for i in (0, 1, 4, 5, 12, 13)]
    want = six if mod.is2d else mod.v
    expect_close(m.tolist(), want, where + ': tolist')
    p = (3., -2., 5., 1.)
    expect_close(m.transform_point(*p), mod.point(p), where + ': point')
    got = m.transform_point(7, -3)
    want = mod.point((7., -3., 0., 1.))
    expect_close(got, want[:2] if mod.is2d else want, where + ': 2d point')


class Hist(Machine):
    name = 'mutation-histories'
    ops = OPS
    depth = 2

    def configs(self):
        return list(CONFIGS)

    def fresh(self, config):
        return build(config), build_model(config)

    def fresh_model(self, config):
        return build_model(config)

    def menu(self, model):
        inv = model.inverse() is not None
        return [op for op in self.ops if op[0] != 'inverse' or inv]

    def apply(self, sut, op):
        r = apply_self(sut, op)
        expect(r is sut, 'mutating operation does not return itself')
        return None

    def model_apply(self, model, op):
        apply_model(model, op)
        return None

    def _compare(self, sut, model, op):
        verify(sut, model, 'after %r' % (op,))
        return None

    def key(self, model, obs):
        return ([round(x, 6) for x in model.v], model.is2d)


class Deep(Hist):
    name = 'mutation-histories-deep'
    ops = SMALL
    depth = 3

    def configs(self):
        return ['identity', 'six', 'sixteen']


def copy_case(case, ctx):
    cname, ro, pre, op = case
    cls = DOMMatrixReadOnly if ro else DOMMatrix
    m = build(cname, cls)
    mod = build_model(cname)
    if pre is not None:
        if ro:
            m = None
            src = build(cname)
            apply_self(src, pre)
            apply_model(mod, pre)
            m = DOMMatrixReadOnly(src.tolist())
        else:
            apply_self(m, pre)
            apply_model(mod, pre)
    ctx.step(2)
    if op[0] == 'inverse' and mod.inverse() is None:
        return
    before = mod.copy()
    r = apply_copy(m, op)
    ctx.step()
    expect(isinstance(r, DOMMatrix), 'result is not a DOMMatrix')
    expect(r is not m, 'copying operation returns the receiver')
    verify(m, before, 'receiver of %r' % (op,))
    apply_model(mod, op)
    verify(r, mod, 'result of %r' % (op,))
    # the result is independent of the receiver
    r.translate_self(1, 2, 3)
    r.m11 = 77
    verify(m, before, 'receiver after changing the result of %r' % (op,))
    ctx.outcome('2d' if mod.is2d else '3d')


def product_case(case, ctx):
    x, y, z = case
    a, b, c = build(x), build(y), build(z)
    ma, mb, mc = build_model(x), build_model(y), build_model(z)
    r = a * b * c
    s = a * (b * c)
    t = a.multiply(b.multiply(c))
    ctx.step(6)
    mod = ma.copy()
    mod.mul(mb.v)
    mod.is2d = mod.is2d and mb.is2d
    mod.mul(mc.v)
    mod.is2d = mod.is2d and mc.is2d
    verify(r, mod, '(a*b)*c')
    verify(s, mod, 'a*(b*c)')
    verify(t, mod, 'a.multiply(b.multiply(c))')
    verify(a, ma, 'left operand')
    verify(b, mb, 'middle operand')
    verify(c, mc, 'right operand')
    # (a*b).point == a.point(b.point)
    p = (2., 3., -1., 1.)
    expect_close((a * b).transform_point(*p),
                 ma.point(mb.point(p)), 'composition of points')
    inv = a.inverse()
    i = a * inv
    expect(all_close(i.to_float_array(), IDENT), 'a * a^-1', IDENT,
           i.to_float_array())
    i = inv * a
    expect(all_close(i.to_float_array(), IDENT), 'a^-1 * a', IDENT,
           i.to_float_array())
    # every product is independent of its operands
    for u in (r, s, t, a * b, b * c, a.multiply(b), b.multiply(a),
              a.inverse(), a.translate(), a.scale(), a.rotate()):
        u.translate_self(1, 2, 3)
        u.m11 = 99
    verify(a, ma, 'left operand after changing the product')
    verify(b, mb, 'middle operand after changing the product')
    verify(c, mc, 'right operand after changing the product')
    ctx.outcome('2d' if mod.is2d else '3d')


def init_case(case, ctx):
    """Dictionary construction and serialisation round trips."""
    ro, keys, vals, flag = case
    cls = DOMMatrixReadOnly if ro else DOMMatrix
    kw = dict(zip(keys, vals))
    if flag is not None:
        kw['is2d'] = flag
    v = list(IDENT)
    conflict = False
    three = False
    seen = {}
    for k, x in zip(keys, vals):
        n = ALIAS.get(k, k)
        if n in seen and seen[n] != x:
            conflict = True
        seen[n] = x
        i = NAMES.index(n)
        v[i] = float(x)
        if i not in (0, 1, 4, 5, 12, 13) and x != IDENT[i]:
            three = True
    try:
        m = cls.from_matrix(dict(kw))
        got = 'ok'
    except ValueError:
        got = 'ValueError'
    ctx.step()
    if conflict or (flag and three):
        expect_eq(got, 'ValueError', 'inconsistent members accepted')
        ctx.outcome('rejected')
        return
    expect_eq(got, 'ok', 'consistent members rejected')
    is2d = (not three) if flag is None else flag
    mod = M(v, is2d)
    expect(isinstance(m, cls), 'type of from_matrix()')
    verify(m, mod, 'from_matrix')
    j = m.tojson()
    expect_eq(bool(j['is2d']), is2d, 'tojson is2d')
    verify(cls.from_matrix(j), mod, 'from_matrix(tojson())')
    verify(cls.from_float_array(m.tolist()), mod,
           'from_float_array(tolist())')
    verify(cls.from_float_array(m.to_float_array()), M(v, False),
           'from_float_array(to_float_array())')
    verify(cls(m.tolist()), mod, 'constructor(tolist())')
    expect(m == cls(m.tolist()), 'equality with a copy')
    ident = all(close(x, y) for x, y in zip(v, IDENT))
    expect_eq(bool(m.isidentity), ident, 'isidentity')
    for delim in (None, ' ', ', ', ','):
        s = m.tostring(delim) if delim is not None else m.tostring()
        name = 'matrix' if is2d else 'matrix3d'
        vals2 = v if not is2d else [v[i] for i in (0, 1, 4, 5, 12, 13)]
        expect_eq(s, '%s(%s)' % (
            name, (delim or ', ').join(fmt(x) for x in vals2)), 'tostring')
    ctx.step(8)
    ctx.outcome('2d' if is2d else '3d')


def decomp_case(case, ctx):
    """Angle / scale / translate getters invert T * R * S."""
    ang, sx, sy, tx, ty = case
    m = DOMMatrix()
    m.translate_self(tx, ty)
    m.rotate_self(rot_z=ang)
    m.scale_self(sx, sy)
    ctx.step(6)
    expect_close(m.get_translate(), [tx, ty], 'get_translate')
    expect_close(m.get_scale(), [sx, sy], 'get_scale')
    want = ang
    while want > 180:
        want -= 360
    while want <= -180:
        want += 360
    got = m.get_angle()
    d = abs(got - want) % 360
    expect(min(d, 360 - d) < 1e-6, 'get_angle', want, got)
    expect_close(m.get_angle(degrees=False), math.radians(got), 'radians')
    ctx.outcome((ang > 90, sx == sy))


def check(run):
    run.histories(Hist(), '%d operations, %d initial matrices, all histories '
                  'of length <= 2' % (len(OPS), len(CONFIGS)))
    deep = Deep()
    if run.thorough:
        deep.depth = 4
    run.histories(deep, '%d operations, depth %d' % (len(SMALL), deep.depth))
    pres = [None, ('rotate', 10, 20, 30), ('scale', 2, 3), ('set', 'm13', 3),
            ('multiply', 'six')]
    run.cases('copying-operations',
              product(list(CONFIGS), [False, True], pres, COPY_OPS),
              copy_case,
              'every initial matrix x read-only/mutable x prefix x operation',
              min_outcomes=2)
    run.cases('products', product(list(CONFIGS), list(CONFIGS),
                                  list(CONFIGS)), product_case,
              'every triple of the initial matrices', min_outcomes=2)
    names = NAMES + list(ALIAS)
    init = []
    for ro in (False, True):
        for flag in (None, True, False):
            init.append((ro, (), (), flag))
            for n in names:
                for x in (0, 1, 2.5):
                    init.append((ro, (n,), (x,), flag))
            for i, n in enumerate(names):
                for k in names[i + 1:]:
                    for x, y in ((1, 1), (2, 2), (0, 3), (3, 0), (1, 0)):
                        init.append((ro, (n, k), (x, y), flag))
    run.cases('construction', init, init_case,
              'every pair of members over 22 names, values {0,1,2,2.5,3}',
              min_outcomes=3)
    run.cases('decomposition', product(
        [0, 15, 45, 90, 135, 179, 180, -30, -90, -135, 270],
        [1, 2, .5], [1, 3, .25], [0, 10, -7], [0, -5, 4]), decomp_case,
        'angles x scales x translations', min_outcomes=2)
