"""C11: SVGLength converts, computes and compares lengths.

Reference model: exact rational numbers; a unit is a rational (or float)
pixel factor that depends on the referencing element only.
"""
import math
from fractions import Fraction

from svgpy import Font, SVGLength, SVGParser, formatter

from mc.engine import Machine, close, expect, expect_eq, outcome, product

ABS = {None: Fraction(1), 'px': Fraction(1), 'in': Fraction(96),
       'cm': Fraction(9600, 254), 'mm': Fraction(960, 254),
       'q': Fraction(240, 254), 'pt': Fraction(96, 72),
       'pc': Fraction(96, 6)}
RES = {'dppx': Fraction(1), 'dpi': Fraction(1, 96),
       'dpcm': Fraction(254, 9600)}
REL = ['%', 'em', 'ex', 'cap', 'ch', 'ic', 'rem', 'vw', 'vh', 'vmin', 'vmax']
UNITS = list(ABS) + list(RES) + REL
LENGTHS = list(ABS) + REL
H, V, U = (SVGLength.DIRECTION_HORIZONTAL, SVGLength.DIRECTION_VERTICAL,
           SVGLength.DIRECTION_UNSPECIFIED)


class Env(object):
    """Font sizes and viewport of a referencing element (or no element)."""

    def __init__(self, default=16, em=None, rem=None, vw=100, vh=100,
                 context=None):
        self.default = default
        self.em = default if em is None else em
        self.rem = default if rem is None else rem
        self.vw = vw
        self.vh = vh
        self.context = context

    def factor(self, unit, direction=None):
        if unit in ABS:
            return ABS[unit]
        if unit in RES:
            return RES[unit]
        if unit == 'em':
            return Fraction(self.em)
        if unit == 'rem':
            return Fraction(self.rem)
        if unit in ('ex', 'cap', 'ch', 'ic'):
            assert self.context is None
            return Fraction(self.em) / 2
        if unit == 'vw':
            return Fraction(self.vw) / 100
        if unit == 'vh':
            return Fraction(self.vh) / 100
        if unit == 'vmin':
            return Fraction(min(self.vw, self.vh)) / 100
        if unit == 'vmax':
            return Fraction(max(self.vw, self.vh)) / 100
        assert unit == '%'
        if direction == H:
            return Fraction(self.vw) / 100
        if direction == V:
            return Fraction(self.vh) / 100
        if direction == U:
            return Fraction(math.sqrt(
                (Fraction(self.vw) ** 2 + Fraction(self.vh) ** 2) / 2)) / 100
        return Fraction(self.em) / 100


def build_env(spec):
    """spec: None, ('default', n) or ('tree', default, root, parent, own,
    viewbox, depth)."""
    Font.default_font_size = 16
    if spec is None:
        return Env()
    if spec[0] == 'default':
        Font.default_font_size = spec[1]
        return Env(spec[1])
    _, default, root_fs, parent_fs, own_fs, vb, kind = spec
    Font.default_font_size = default
    parser = SVGParser()
    root = parser.create_element('svg')
    if vb is not None and kind != 'nested':
        root.attributes.update({'viewBox': '3 4 %g %g' % vb})
    if kind == 'nested':
        root.attributes.update({'viewBox': '0 0 7 9'})
    if vb is None:
        root.attributes.update({'width': '300', 'height': '40'})
    if root_fs is not None:
        root.attributes.update({'font-size': str(root_fs)})
    rem = root_fs or default
    if kind == 'root':
        w, h = vb or (300, 40)
        return Env(default, default, rem, w, h, root)
    parent = root
    if kind == 'nested':
        parent = root.create_sub_element('svg')
        w, h = vb
        parent.attributes.update({'viewBox': '0 0 %g %g' % vb})
    group = parent.create_sub_element('g')
    if parent_fs is not None:
        group.attributes.update({'font-size': str(parent_fs)})
    em = parent_fs or rem
    el = group.create_sub_element('rect')
    if own_fs is not None:
        el.attributes.update({'font-size': str(own_fs)})
    w, h = vb or (300, 40)
    return Env(default, em, rem, w, h, el)


ENVS = [None, ('default', 10), ('default', 20),
        ('tree', 16, None, None, None, (200, 50), 'root'),
        ('tree', 12, 20, None, None, (50, 200), 'root'),
        ('tree', 16, None, None, None, (200, 50), 'leaf'),
        ('tree', 16, 20, None, 40, (200, 50), 'leaf'),
        ('tree', 16, None, 25, None, (60, 80), 'leaf'),
        ('tree', 10, 20, 30, 40, (80, 60), 'leaf'),
        ('tree', 10, 20, 30, 40, (80, 60), 'nested'),
        ('tree', 16, 20, 30, None, None, 'leaf')]


def kind_of(unit):
    return 'resolution' if unit in RES else (
        'absolute' if unit in ABS else 'relative')


def near(a, b):
    return abs(a - b) <= Fraction(1, 10 ** 9) * max(1, abs(a), abs(b))


def val(x, what, want, got=None):
    expect(near(Fraction(x), want), what, float(want), x)


def classes(length, unit):
    k = kind_of(unit)
    expect_eq((bool(length.isabsolute()), bool(length.isrelative()),
               bool(length.isresolution())),
              (k == 'absolute', k == 'relative', k == 'resolution'),
              'isabsolute/isrelative/isresolution of %r' % (unit,))


def fmt(number, unit):
    p = formatter.precision
    s = '%.*f' % (p, number)
    s = s.rstrip('0').rstrip('.') if '.' in s else s
    return ('0' if s in ('-0', '') else s) + (unit or '')


def environment(spec):
    formatter.precision = 6
    SVGLength.rel_tol = SVGLength.abs_tol = 1e-9
    return build_env(spec)


# ---- text ---------------------------------------------------------------

NUMS = ['0', '1', '-1', '+1', '12.5', '.5', '-.25', '1e2', '1.5E-2', '+2e+1',
        '-0', '100']
BAD = ['', ' ', 'abc', 'px', '%', '--1', '+-1', '1 px', '1px 2', '1 2', '1px;',
       '1,2', '1%%', '10px!', '1pxx', '1foo', '1e', '1e+', '.', '-', '1..2',
       '1.2.3', '1px2', '#1', '1/2', 'e5', '1 %', 'calc(1px)', '1p x',
       'auto', '0x10', '1_0', '1\n2', '1mm1', '1kg', '1s', '1deg', '1remm']


def text_case(case, ctx):
    env = environment(None)
    num, unit, up, ws, how = case
    f = Fraction(num)
    shown = unit or ''
    shown = shown.upper() if up == 1 else (
        shown.capitalize() if up == 2 else shown)
    if how == 'text':
        n = SVGLength(ws + num + shown + ws)
    elif how == 'pair':
        n = SVGLength(num, shown)
    elif how == 'float':
        n = SVGLength(float(num), shown or None)
    elif how == 'new':
        n = SVGLength('7em')
        n.new_value(float(num), shown)
    else:
        n = SVGLength(num)
        n.convert('mm')
        n.new_value(num, shown)
    ctx.step(4)
    expect_eq(n.unit, unit, 'unit')
    val(n.value(unit), 'value in its own unit', f)
    classes(n, unit)
    expect_eq(n.tostring(), fmt(float(f), unit), 'tostring')
    m = SVGLength(n.tostring())
    expect_eq(m.unit, unit, 'unit after a round trip')
    val(m.value(unit), 'number after a round trip', f)
    expect(n == m, 'round trip is equal')
    if unit not in RES:
        val(n.value(), 'pixels', f * env.factor(unit))
    ctx.outcome((kind_of(unit), how))


def bad_case(case, ctx):
    environment(None)
    text, how = case
    ctx.step()
    if how == 'text':
        r = outcome(SVGLength, text)
    else:
        n = SVGLength('3cm')
        if how == 'new':
            r = outcome(n.new_value, 5, text)
        elif how == 'value':
            r = outcome(n.value, text)
        elif how == 'tostring':
            r = outcome(n.tostring, text)
        elif how == 'pair':
            r = outcome(SVGLength, 5, text)
        else:
            r = outcome(n.convert, text)
        expect_eq((n.unit, n.tostring()), ('cm', '3cm'),
                  'after a rejected unit')
    expect_eq(r, ('exc', 'ValueError'), '%s accepts %r' % (how, text))
    ctx.outcome(how)


# ---- conversion -----------------------------------------------------------

def conv_case(case, ctx):
    spec, num, unit, direction = case
    env = environment(spec)
    targets = UNITS
    if env.context is not None:
        targets = [u for u in UNITS if u not in ('ex', 'cap', 'ch', 'ic')]
    f = Fraction(num)
    slow = env.context is not None

    def new():
        return SVGLength(num + (unit or ''), context=env.context,
                         direction=direction)
    a = new()
    expect(a.context is env.context, 'context')
    own = env.factor(unit, direction)
    for t in targets:
        if (t in RES) != (unit in RES):
            for fn in (a.value, a.convert, a.tostring):
                if t is None and fn == a.tostring:
                    continue
                expect_eq(outcome(fn, t), ('exc', 'ValueError'),
                          'conversion %r -> %r' % (unit, t))
            expect_eq(a.unit, unit, 'unit after a failed conversion')
            val(a.value(unit), 'number after a failed conversion', f)
            ctx.step(3)
            continue
        want = f * own / env.factor(t, direction)
        if t == unit:
            want = f
        val(a.value(t), 'value(%r)' % (t,), want)
        if t is None:
            val(a.value(''), 'value("")', want)
            expect_eq(a.tostring(''), fmt(a.value(), ''), 'tostring("")')
        else:
            val(a.value(t.upper()), 'value() of upper-case unit', want)
            got = a.tostring(t)
            expect_eq(got, fmt(a.value(t), t), 'tostring(%r)' % t)
        # reading does not change the length
        expect_eq(a.unit, unit, 'unit after value()')
        val(a.value(unit), 'number after value()', f)
        # an explicit direction overrides the stored one
        for d in (H, V, U) if '%' in (t, unit) or not slow else ():
            w = f
            if t != unit:
                w = f * env.factor(unit, d) / env.factor(t, d)
            val(a.value(t, direction=d), 'value(%r, direction=%r)' % (t, d),
                w)
        b = new()
        b.convert(t)
        expect_eq(b.unit, t, 'unit after convert()')
        val(b.value(t), 'number after convert(%r)' % (t,), want)
        classes(b, t)
        expect(b.context is env.context, 'context after convert()')
        for u in targets if not slow else ('mm', 'em', 'dpi'):
            if (u in RES) == (t in RES):
                w = want if u == t else \
                    want * env.factor(t, direction) / env.factor(u, direction)
                val(b.value(u), 'convert(%r).value(%r)' % (t, u), w)
        b.convert(unit)
        val(b.value(unit), 'convert there and back', f)
        ctx.step(8)
    ctx.outcome((kind_of(unit), f == 0))


# ---- arithmetic -----------------------------------------------------------

def pair_case(case, ctx):
    spec, direction, (na, ua), (nb, ub) = case
    env = environment(spec)

    def new(n, u):
        return SVGLength(n + (u or ''), context=env.context,
                         direction=direction)
    fa, fb = Fraction(na), Fraction(nb)
    a, b = new(na, ua), new(nb, ub)
    if (ua in RES) != (ub in RES):
        for fn in (lambda: a + b, lambda: a - b, lambda: a * b,
                   lambda: a / b):
            expect_eq(outcome(fn), ('exc', 'ValueError'),
                      'arithmetic with a resolution')
        ctx.step(4)
        ctx.outcome('mixed')
        return
    res = ub if ua is None else ua

    def to(f, u, t):
        if u == t:
            return f
        return f * env.factor(u, direction) / env.factor(t, direction)
    xa, xb = to(fa, ua, res), to(fb, ub, res)
    want = {'+': xa + xb, '-': xa - xb, '*': xa * xb}
    if xb != 0:
        want['/'] = xa / xb
    for op, w in want.items():
        r = eval('a %s b' % op, {'a': a, 'b': b})
        check_result(env, r, w, res, direction, 'a %s b' % op)
        expect(r is not a and r is not b, 'new object')
        expect_eq((a.unit, b.unit), (ua, ub), 'operands of a %s b' % op)
        val(a.value(ua), 'left operand of a %s b' % op, fa)
        val(b.value(ub), 'right operand of a %s b' % op, fb)
        # the result is independent
        r.new_value(55, 'px')
        val(a.value(ua), 'left operand after changing the result', fa)
        val(b.value(ub), 'right operand after changing the result', fb)
        c = new(na, ua)
        ns = {'c': c, 'b': b}
        exec('c %s= b' % op, ns)
        expect(ns['c'] is c, 'in-place operation returns another object')
        check_result(env, c, w, res, direction, 'c %s= b' % op)
        val(b.value(ub), 'operand of c %s= b' % op, fb)
        ctx.step(2)
    if na == nb and ua == ub:
        for op, w in want.items():
            c = new(na, ua)
            ns = {'c': c}
            exec('c %s= c' % op, ns)
            check_result(env, ns['c'], w, res, direction, 'c %s= c' % op)
            r = eval('b %s b' % op, {'b': b})
            check_result(env, r, w, res, direction, 'b %s b' % op)
    if xb == 0:
        expect_eq(outcome(lambda: a / b)[0], 'exc', 'division by zero')
        val(a.value(ua), 'after a division by zero', fa)
    # comparison
    pa = fa * env.factor(ua, direction)
    pb = fb * env.factor(ub, direction)
    eq = near(pa, pb)
    lt = not eq and pa < pb
    got = (a == b, a != b, a < b, a <= b, a > b, a >= b,
           b == a, b != a, b < a, b <= a, b > a, b >= a)
    gt = not eq and not lt
    expect_eq(tuple(bool(x) for x in got),
              (eq, not eq, lt, lt or eq, gt, gt or eq,
               eq, not eq, gt, gt or eq, lt, lt or eq), 'comparison')
    expect_eq((a.unit, b.unit), (ua, ub), 'units after comparison')
    ctx.step(12)
    ctx.outcome('eq' if eq else 'lt' if lt else 'gt')


def check_result(env, r, w, unit, direction, what):
    expect(isinstance(r, SVGLength), what + ': type')
    expect_eq(r.unit, unit, what + ': unit')
    val(r.value(unit), what + ': number', w)
    expect(r.context is env.context, what + ': context')
    if unit not in RES:
        val(r.value(), what + ': pixels',
            w * env.factor(unit, direction))


def unary_case(case, ctx):
    spec, direction, num, unit, k = case
    env = environment(spec)
    a = SVGLength(num + (unit or ''), context=env.context,
                  direction=direction)
    f = Fraction(num)
    kf = Fraction(k)
    want = {'-a': -f, '+a': f, 'abs(a)': abs(f), 'a * k': f * kf,
            'k * a': f * kf, 'a ** 2': f ** 2, 'a ** 0': Fraction(1),
            'a ** 3': f ** 3}
    if f == 0:
        del want['a ** 0']
    if kf != 0:
        want['a / k'] = f / kf
    for ex, w in want.items():
        r = eval(ex, {'a': a, 'k': k})
        check_result(env, r, w, unit, direction, ex)
        expect(r is not a, ex + ': new object')
        expect_eq(a.unit, unit, ex + ': unit of the operand')
        val(a.value(unit), ex + ': operand', f)
        r.new_value(9, 'px')
        val(a.value(unit), ex + ': operand after changing the result', f)
    for op in '*/':
        if op == '/' and kf == 0:
            continue
        c = SVGLength(num + (unit or ''), context=env.context,
                      direction=direction)
        ns = {'c': c, 'k': k}
        exec('c %s= k' % op, ns)
        expect(ns['c'] is c, 'in-place operation returns another object')
        check_result(env, c, f * kf if op == '*' else f / kf, unit,
                     direction, 'c %s= k' % op)
    for fn in (lambda: a + k, lambda: a - k, lambda: k + a, lambda: k - a,
               lambda: a < k, lambda: a >= k, lambda: a * '2',
               lambda: a / None, lambda: a + '1px'):
        expect_eq(outcome(fn), ('exc', 'TypeError'), 'foreign operand')
    expect_eq((a == k, a != k, a == (num + (unit or ''))),
              (False, True, False), 'foreign equality')
    ctx.step(20)
    ctx.outcome(kind_of(unit))


# ---- histories ------------------------------------------------------------

OPS = [('convert', 'mm'), ('convert', 'em'), ('convert', '%'),
       ('convert', ''), ('convert', 'dpi'), ('convert', 'foo'),
       ('new', 5, 'IN'), ('new', 3, ''), ('new', 1, 'zz'), ('new', 96, 'dpi'),
       ('add', '1in'), ('add', '2'), ('sub', '50%'), ('mul', '2px'),
       ('div', '4'), ('mulk', 3), ('mulk', -0.5), ('divk', 4),
       ('iadd', '1pt'), ('isub', '1vw'), ('imul', '2'), ('imulk', 2),
       ('idiv', '2mm'), ('idivk', -2), ('neg',), ('abs',), ('self+',),
       ('value', 'vh'), ('pos',)]


def split(text):
    for u in sorted((u for u in UNITS if u), key=len, reverse=True):
        if text.endswith(u):
            return Fraction(text[:-len(u)]), u
    return Fraction(text), None


class Hist(Machine):
    name = 'length-histories'
    depth = 3
    unmerged = 2

    def configs(self):
        return [(t, 0, None) for t in ('10', '2.5em', '50%', '96dpi')]

    def fresh(self, config):
        t, s, d = config
        env = environment(ENVS[s])
        n = SVGLength(t, context=env.context, direction=d)
        return {'n': n, 'env': env, 'd': d}, self.fresh_model(config, env)

    def fresh_model(self, config, env=None):
        t, s, d = config
        f, u = split(t)
        return {'f': f, 'u': u, 's': s, 'd': d,
                'env': env or environment(ENVS[s])}

    def menu(self, model):
        return OPS

    def apply(self, sut, op):
        n, env = sut['n'], sut['env']

        def arg():
            return SVGLength(op[1], context=env.context, direction=sut['d'])
        k = op[0]

        def go():
            if k == 'convert':
                return n.convert(op[1])
            if k == 'new':
                return n.new_value(op[1], op[2])
            if k == 'value':
                return None if n.value(op[1]) is not None else 'none'
            if k[0] == 'i':
                m = n
                x = arg() if isinstance(op[1], str) else op[1]
                if k == 'iadd':
                    m += x
                elif k == 'isub':
                    m -= x
                elif k in ('imul', 'imulk'):
                    m *= x
                else:
                    m /= x
                expect(m is n, 'in-place operation returns another object')
                return None
            r = {'add': lambda: n + arg(), 'sub': lambda: n - arg(),
                 'mul': lambda: n * arg(), 'div': lambda: n / arg(),
                 'mulk': lambda: op[1] * n, 'divk': lambda: n / op[1],
                 'neg': lambda: -n, 'abs': lambda: abs(n),
                 'pos': lambda: +n, 'self+': lambda: n + n}[k]()
            expect(r is not n, 'operation returns the operand')
            sut['n'] = r
        return outcome(go)

    def model_apply(self, model, op):
        env, d = model['env'], model['d']
        k = op[0]
        if k in ('convert', 'value'):
            t = op[1] or None
            if t == 'foo' or (t in RES) != (model['u'] in RES):
                return 'exc', 'ValueError'
            if k == 'convert' and t != model['u']:
                model['f'] *= env.factor(model['u'], d) / env.factor(t, d)
                model['u'] = t
            return 'ok', None
        if k == 'new':
            if op[2] == 'zz':
                return 'exc', 'ValueError'
            model['f'] = Fraction(op[1])
            model['u'] = op[2].lower() or None
            return 'ok', None
        if k in ('neg', 'abs', 'pos'):
            f = model['f']
            model['f'] = {'neg': -f, 'abs': abs(f), 'pos': f}[k]
            return 'ok', None
        if k == 'self+':
            model['f'] *= 2
            return 'ok', None
        if not isinstance(op[1], str):
            f = Fraction(op[1])
            model['f'] = model['f'] * f if 'mul' in k else model['f'] / f
            return 'ok', None
        f, u = split(op[1])
        if (u in RES) != (model['u'] in RES):
            return 'exc', 'ValueError'
        if model['u'] is None:
            model['f'] *= env.factor(None) / env.factor(u, d)
            model['u'] = u
        if u != model['u']:
            f *= env.factor(u, d) / env.factor(model['u'], d)
        k = k.lstrip('i')
        model['f'] = {'add': model['f'] + f, 'sub': model['f'] - f,
                      'mul': model['f'] * f,
                      'div': model['f'] / f}[k]
        return 'ok', None

    def observe(self, sut):
        n = sut['n']
        expect(n.context is sut['env'].context, 'context')
        unit = n.unit
        classes(n, unit)
        nums = [n.value(unit)]
        if unit not in RES:
            nums.append(n.value())
            nums.append(n.value('rem'))
        return [unit, nums]

    def model_observe(self, model):
        env = model['env']
        f, u = model['f'], model['u']
        nums = [float(f)]
        if u not in RES:
            px = f * env.factor(u, model['d'])
            nums += [float(px), float(px / env.factor('rem'))]
        return [u, nums]

    def key(self, model, obs):
        return (model['u'], model['f'].limit_denominator(10 ** 9), model['s'])


    def check_result(self, got, want, op):
        expect_eq(got, want, 'result of %r' % (op,))

    def same(self, got, want):
        return got[0] == want[0] and len(got[1]) == len(want[1]) and all(
            close(a, b, 1e-8) for a, b in zip(got[1], want[1]))


class ElementHist(Hist):
    name = 'length-histories-with-element'
    depth = 2

    def configs(self):
        return [(t, s, d) for t in ('10', '2.5em', '50%')
                for s, d in ((8, H), (9, V))]

    def menu(self, model):
        return SMALL


SMALL = [('convert', 'mm'), ('convert', 'em'), ('convert', '%'),
         ('convert', ''), ('new', 5, 'IN'), ('add', '1in'), ('sub', '50%'),
         ('mulk', 3), ('iadd', '1pt'), ('isub', '1vw'), ('idivk', -2),
         ('neg',), ('abs',), ('self+',)]


def tol_case(case, ctx):
    """Equality and order near the tolerance."""
    environment(None)
    base, delta, unit = case
    a = SVGLength(base, unit)
    b = SVGLength(base + delta, unit)
    eq = math.isclose(base, base + delta, rel_tol=1e-9, abs_tol=1e-9)
    ctx.step(6)
    expect_eq((a == b, a != b, a <= b, a >= b, a < b, a > b),
              (eq, not eq, eq or delta > 0, eq or delta < 0,
               not eq and delta > 0, not eq and delta < 0),
              'comparison near the tolerance')
    ctx.outcome(eq)


def check(run):
    units = list(UNITS)
    texts = [(n, u, c, ws, 'text') for n in NUMS for u in units
             for c in (0, 1, 2) for ws in ('', ' ', '\t', '\n ')
             if u or not c]
    texts += [(n, u, c, '', how) for n in NUMS for u in units
              for c in (0, 1) for how in ('pair', 'float', 'new', 'again')
              if u or not c]
    run.cases('texts', texts, text_case, '12 numbers x 22 units x letter case '
              'x white space x 5 ways to set', min_outcomes=6)
    bad = [(t, 'text') for t in BAD]
    bad += [(t, h) for t in ('foo', 'pxx', 'p x', ' px', 'px ', '%%', 'e',
                             'none', '1', 'PXX', 'dp')
            for h in ('new', 'value', 'tostring', 'convert', 'pair')]
    run.cases('malformed', bad, bad_case, 'malformed texts and units',
              min_outcomes=5)
    nums = ['0', '1', '-2.5', '40'] if not run.thorough else \
        ['0', '1', '-2.5', '40', '.125', '1e3', '-7']
    conv = [(s, n, u, d) for s in ENVS for n in nums for u in units
            for d in (None, H, V, U)
            if s is None or s[0] == 'default'
            or (u not in ('ex', 'cap', 'ch', 'ic')
                and (run.thorough or (n == '-2.5' and (
                    u == '%' or (u in REL + [None, 'mm'] and d == H)))))]
    run.cases('conversions', conv, conv_case,
              'all unit pairs x %d environments x directions' % len(ENVS),
              min_outcomes=4)
    vals = ['0', '2.5', '-3'] if not run.thorough else \
        ['0', '2.5', '-3', '96', '1']
    operands = [(n, u) for n in vals for u in units]
    operands += [('1', 'cm'), ('10', 'mm'), ('25.4', 'mm'), ('1', 'in'),
                 ('96', None), ('72', 'pt'), ('6', 'pc')]
    pairs = []
    for s, d in ((None, None), (ENVS[8], H)):
        ops = [o for o in operands if d is None
               or o[1] not in ('ex', 'cap', 'ch', 'ic')]
        if s is not None and not run.thorough:
            ops = [o for o in ops if o[0] == '2.5'
                   and o[1] not in ('pt', 'pc', 'q', 'dpcm', 'in', 'vh',
                                    'vmin')]
        pairs += [(s, d, a, b) for a in ops for b in ops]
    run.cases('pairs', pairs, pair_case,
              'all ordered pairs of %d lengths, with and without an element'
              % len(operands), min_outcomes=4)
    un = [(s, d, n, u, k) for s, d in ((None, None), (ENVS[8], V),
                                       (ENVS[10], U))
          for n in ('0', '1', '-2.5', '7') for u in units
          for k in (0, 1, -1, 2, 0.5, -4)
          if s is None or (u in ('em', '%', 'vw', 'px', 'rem')
                           and n == '-2.5' and k in (1, 2))]
    run.cases('unary', un, unary_case, 'unary operators and scalar factors',
              min_outcomes=3)
    run.cases('tolerance', product(
        [0., 1., -1., 5., 1000., 1e-6],
        [0., 1e-12, -1e-12, 4e-10, 2e-9, -2e-9, 1e-7, -1e-7, 1e-5, .001],
        ['px', '', 'em', 'dppx']), tol_case, 'differences around 1e-9',
        min_outcomes=2)
    h = Hist()
    if run.thorough:
        h.depth = 4
    run.histories(h, '%d operations, 4 initial lengths, depth %d'
                  % (len(OPS), h.depth))
    e = ElementHist()
    if run.thorough:
        e.depth = 3
    run.histories(e, '%d operations, 6 initial lengths with a referencing '
                  'element, depth %d' % (len(SMALL), e.depth))
