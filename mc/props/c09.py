"""C09: Typed OM numeric values: units, conversion, math trees and calc()."""
import itertools
import math
from fractions import Fraction as F

from svgpy import CSS, formatter
from svgpy.css import CSSMathClamp, CSSMathInvert, CSSMathMax, CSSMathMin, \
    CSSMathNegate, CSSMathProduct, CSSMathSum, CSSNumericValue, CSSUnitValue

from mc.engine import close, expect, expect_close, expect_eq, outcome, product

# unit: (base type, canonical unit or None, ratio to the canonical unit)
UNITS = {'number': (None, 'number', F(1)), 'percent': ('percent', None, F(1))}
for _u in 'em ex ch ic rem lh rlh vw vh vi vb vmin vmax'.split():
    UNITS[_u] = ('length', None, F(1))
for _u, _r in (('px', F(1)), ('in', F(96)), ('cm', F(9600, 254)),
               ('mm', F(960, 254)), ('q', F(240, 254)), ('pt', F(96, 72)),
               ('pc', F(16))):
    UNITS[_u] = ('length', 'px', _r)
for _u, _r in (('deg', F(1)), ('grad', F(9, 10)),
               ('rad', F(180) / F(math.pi)), ('turn', F(360))):
    UNITS[_u] = ('angle', 'deg', _r)
for _u, _r in (('ms', F(1)), ('s', F(1000))):
    UNITS[_u] = ('time', 'ms', _r)
for _u, _r in (('hz', F(1)), ('khz', F(1000))):
    UNITS[_u] = ('frequency', 'hz', _r)
for _u, _r in (('dppx', F(1)), ('dpi', F(1, 96)), ('dpcm', F(254, 9600))):
    UNITS[_u] = ('resolution', 'dppx', _r)
UNITS['fr'] = ('flex', None, F(1))
BASES = ('length', 'angle', 'time', 'frequency', 'resolution', 'flex',
         'percent')
FACTORY = {'in': 'in_'}
BAD_UNITS = ['', 'p', 'pxx', 'x', 'foo', '%', 'kmm', 'em ', 'degree']
VALUES = [0, 1, -1, 2.5, -0.125, 96, 360, 1e3]
# text of the unit, as written in CSS
CSS_UNIT = {'number': '', 'percent': '%'}


class Skip(Exception):
    pass


class Invalid(Exception):
    pass


# ---------------------------------------------------------------- the model

def norm_type(t):
    return {k: v for k, v in dict(t).items() if v}


def unit_type(unit):
    base = UNITS[unit][0]
    return {base: 1} if base else {}


def hinted(t, hint):
    t = dict(t)
    t[hint] = t.get(hint, 0) + t.get('percent', 0)
    t['percent'] = 0
    t['percent_hint'] = hint
    return t


def powers(t):
    return {k: v for k, v in t.items() if k != 'percent_hint' and v}


def share_hint(t1, t2):
    h1, h2 = t1.get('percent_hint'), t2.get('percent_hint')
    if h1 and h2 and h1 != h2:
        raise Invalid
    if h1 and not h2:
        t2 = hinted(t2, h1)
    elif h2 and not h1:
        t1 = hinted(t1, h2)
    return t1, t2


def add_types(t1, t2):
    t1, t2 = share_hint(t1, t2)
    if powers(t1) == powers(t2):
        return dict(t1)
    if not (set(powers(t1)) | set(powers(t2))) - {'percent'}:
        # numbers and percentages: accepted by the code (pinned by the tests,
        # refused by the specification)
        raise Skip
    if t1.get('percent') or t2.get('percent'):
        for hint in BASES[:-1]:
            a, b = hinted(t1, hint), hinted(t2, hint)
            if powers(a) == powers(b):
                return a
    raise Invalid


def mul_types(t1, t2):
    t1, t2 = share_hint(t1, t2)
    t = dict(t1)
    for k, v in t2.items():
        if k != 'percent_hint':
            t[k] = t.get(k, 0) + v
    return t


def model_type(tree):
    op = tree[0]
    if op == 'u':
        return unit_type(tree[2])
    types = [model_type(a) for a in tree[1:]]
    t = types[0]
    if op == 'neg':
        return t
    if op == 'inv':
        return {k: v if k == 'percent_hint' else -v for k, v in t.items()}
    for t2 in types[1:]:
        t = (mul_types if op == 'mul' else add_types)(t, t2)
    return t


def sum_value(tree):
    """list of (value, {unit: power}) or None."""
    op = tree[0]
    if op == 'u':
        _, canonical, ratio = UNITS[tree[2]]
        unit = canonical or tree[2]
        return [(F(tree[1]) * ratio, {} if unit == 'number' else {unit: 1})]
    args = [sum_value(a) for a in tree[1:]]
    if op == 'clamp' or any(a is None for a in args):
        return None
    if op == 'neg':
        return [(-v, u) for v, u in args[0]]
    if op == 'inv':
        if len(args[0]) > 1:
            return None
        v, u = args[0][0]
        if v == 0:
            raise Skip
        return [(1 / v, {k: -p for k, p in u.items()})]
    if op == 'mul':
        res = [(F(1), {})]
        for a in args:
            new = []
            for v1, u1 in res:
                for v2, u2 in a:
                    u = dict(u1)
                    for k, p in u2.items():
                        u[k] = u.get(k, 0) + p
                    new.append((v1 * v2, {k: p for k, p in u.items() if p}))
            res = new
        return res
    if op == 'sum':
        res = []
        for a in args:
            for v, u in a:
                for i, (v2, u2) in enumerate(res):
                    if u2 == u:
                        res[i] = (v2 + v, u)
                        break
                else:
                    res.append((v, u))
        return res
    assert op in ('min', 'max')
    if any(len(a) != 1 or a[0][1] != args[0][0][1] for a in args):
        return None
    return [((min if op == 'min' else max)(a[0][0] for a in args),
             args[0][0][1])]


def item_of(term):
    """The single unit value of a sum value's term."""
    v, u = term
    if not u:
        return v, 'number'
    if len(u) == 1 and list(u.values()) == [1]:
        return v, list(u)[0]
    raise Invalid


def model_to(tree, unit):
    terms = sum_value(tree)
    if terms is None or len(terms) != 1:
        raise Invalid
    v, u = item_of(terms[0])
    return convert(v, u, unit), unit


def convert(v, u, unit):
    if u == unit:
        return F(v)
    _, c1, r1 = UNITS[u]
    _, c2, r2 = UNITS[unit]
    if c1 is None or c1 != c2:
        raise Invalid
    return F(v) * r1 / r2


def model_to_sum(tree, units):
    terms = sum_value(tree)
    if terms is None:
        raise Invalid
    items = [item_of(t) for t in terms]
    if not units:
        return sorted(items, key=lambda x: x[1])
    model_type(('sum',) + tuple(('u', 0, unit) for unit in units))
    res = []
    for unit in units:
        total = F(0)
        for it in list(items):
            try:
                total += convert(it[0], it[1], unit)
                items.remove(it)
            except Invalid:
                pass
        res.append((total, unit))
    if items:
        raise Invalid
    return res


# ------------------------------------------------------------ the real thing

CLASS = {'sum': CSSMathSum, 'mul': CSSMathProduct, 'neg': CSSMathNegate,
         'inv': CSSMathInvert, 'min': CSSMathMin, 'max': CSSMathMax,
         'clamp': CSSMathClamp}


def build(tree):
    if tree[0] == 'u':
        return CSSUnitValue(tree[1], tree[2])
    return CLASS[tree[0]](*[build(a) for a in tree[1:]])


def show(tree):
    if tree[0] == 'u':
        return '%s%s' % (tree[1], CSS_UNIT.get(tree[2], tree[2]))
    return '%s(%s)' % (tree[0], ', '.join(show(a) for a in tree[1:]))


def pairs(values):
    return [(v.value, v.unit) for v in values]


def attempt(fn):
    try:
        return fn()
    except Invalid:
        return 'ValueError'


def real(fn):
    o = outcome(fn)
    return 'ValueError' if o == ('exc', 'ValueError') else o


def got(fn):
    try:
        return fn()
    except ValueError:
        return 'ValueError'


def same_items(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return len(a) == len(b) and all(
        x[1] == y[1] and close(float(x[0]), float(y[0])) for x, y in zip(a, b))


def describe(v):
    """Everything observable about a numeric value."""
    return (type(v).__name__, norm_type(v.type()),
            got(lambda: pairs(v.to_sum().values)), v.tostring(),
            (v.value, v.unit) if isinstance(v, CSSUnitValue) else None)


def check_numeric(tree, obj, ctx, units, what):
    expect_eq(norm_type(obj.type()), norm_type(model_type(tree)),
              'type of %s' % what)
    e = attempt(lambda: model_to_sum(tree, []))
    g = got(lambda: pairs(obj.to_sum().values))
    if isinstance(e, list):
        e = [(float(v), u) for v, u in e]
    expect(same_items(g, e), '%s.to_sum() = %s, expected %s' % (what, g, e))
    for unit in units:
        e1 = attempt(lambda: [model_to(tree, unit)])
        g1 = got(lambda: pairs([obj.to(unit)]))
        expect(same_items(g1, e1), '%s.to(%r) = %s, expected %s'
               % (what, unit, g1, e1))
    for us in (['PX'], ['px', 'em'], ['em', 'percent', 'cm'],
               ['number', 'number'], ['px', 'deg']):
        e2 = attempt(lambda: model_to_sum(tree, [u.lower() for u in us]))
        g2 = got(lambda: pairs(obj.to_sum(*us).values))
        expect(same_items(g2, e2), '%s.to_sum(%s) = %s, expected %s'
               % (what, us, g2, e2))
    ctx.outcome('numeric' if isinstance(e, list) else 'no sum value')
    return e


def printable(tree, pos='top'):
    """Negations and inversions written where CSS can express them."""
    op = tree[0]
    if op == 'u':
        return True
    if op == 'neg':
        if pos == 'term':
            return printable(tree[1])
        return tree[1][0] == 'u' and tree[1][1] >= 0
    if op == 'sum':
        return printable(tree[1]) and all(printable(a, 'term')
                                          for a in tree[2:])
    return all(printable(a) for a in tree[1:])


# ----------------------------------------------------------------- cases

def case_unit(case, ctx):
    unit, value = case
    formatter.precision = 6
    base = UNITS[unit]
    for spelled in (unit, unit.upper(), unit.capitalize()):
        v = CSSUnitValue(value, spelled)
        expect_eq((v.value, v.unit), (value, unit), 'unit value')
        expect_eq(norm_type(v.type()), unit_type(unit), 'type')
    made = getattr(CSS, FACTORY.get(unit, unit))(value)
    expect(type(made) is CSSUnitValue, 'factory type')
    expect_eq((made.value, made.unit), (value, unit), 'CSS.%s()' % unit)
    s = made.tostring()
    suffix = CSS_UNIT.get(unit, unit)
    expect(s.endswith(suffix), 'tostring %r' % s)
    expect_close(float(s[:len(s) - len(suffix)]), value, 'tostring %r' % s)
    for text in (s, s.upper(), ' %s ' % s):
        p = CSSNumericValue.parse(text)
        expect(type(p) is CSSUnitValue, 'parse type')
        expect_eq((p.value, p.unit), (value, unit), 'parse(%r)' % text)
        expect_eq(p.tostring(), text, 'text of the parsed value')
        p.value = value + 1
        expect_eq((p.value, p.unit), (value + 1, unit), 'assigned value')
        expect_eq(p.tostring(), CSSUnitValue(value + 1, unit).tostring(),
                  'tostring() after assigning to the value')
    made.value = 7.5
    expect_eq((made.value, made.unit), (7.5, unit), 'assigned value')
    expect_eq(made.tostring(), '7.5' + suffix, 'tostring of assigned')
    check_numeric(('u', value, unit), CSSUnitValue(value, unit), ctx,
                  ['px', 'number', 'deg'], '%s%s' % (value, unit))
    return base[0] or 'number'


def case_bad_unit(case, ctx):
    unit = case
    expect_eq(real(lambda: CSSUnitValue(1, unit)), 'ValueError', 'constructor')
    expect_eq(real(lambda: CSSUnitValue(1, 'px').to(unit)), 'ValueError', 'to')
    expect_eq(real(lambda: CSSMathSum(CSSUnitValue(1, 'px')).to(unit)),
              'ValueError', 'sum.to')
    expect_eq(real(lambda: CSSUnitValue(1, 'px').to_sum(unit)), 'ValueError',
              'to_sum')
    return 'bad'


def case_convert(case, ctx):
    u1, u2 = case
    tags = set()
    for v in VALUES:
        a = CSSUnitValue(v, u1)
        try:
            e = convert(v, u1, u2)
        except Invalid:
            expect_eq(real(lambda: a.to(u2)), 'ValueError', 'to(%r)' % u2)
            for name in ('__eq__', '__lt__', '__gt__', '__le__', '__ge__'):
                expect_eq(real(lambda: getattr(a, name)(CSSUnitValue(1, u2))),
                          'ValueError', name)
            expect_eq(a.equals(CSSUnitValue(v, u2)), False, 'equals')
            expect_eq((a.value, a.unit), (v, u1), 'value after to()')
            tags.add('incompatible')
            continue
        for spelled in (u2, u2.upper()):
            b = a.to(spelled)
            expect(b is not a, 'to() returns a new value')
            expect_eq(b.unit, u2, 'unit')
            expect_close(b.value, float(e), '%s%s to %s' % (v, u1, u2))
            expect_eq(b.type(), a.type(), 'type of converted')
            # (a value parsed in the old unit must not keep its text)
            expect_close(float(b.tostring()[:-len(CSS_UNIT.get(u2, u2))]
                               if CSS_UNIT.get(u2, u2) else b.tostring()),
                         float(e), 'text', tol=2e-6)
        expect_eq((a.value, a.unit), (v, u1), 'value after to()')
        for d, names in ((0, (1, 0, 0, 1, 1)), (1, (0, 1, 0, 1, 0)),
                         (-1, (0, 0, 1, 0, 1))):
            o = CSSUnitValue(float(e) + d, u2)
            want = [bool(x) for x in names]
            res = [a == o, a < o, a > o, a <= o, a >= o]
            expect_eq(res, want, 'comparison of %r with %r' % (a, o))
            expect_eq(a != o, not want[0], '!=')
            res = [o == a, o > a, o < a, o >= a, o <= a]
            expect_eq(res, want, 'comparison of %r with %r' % (o, a))
        if u1 == 'number':
            expect_eq([a == v, a < v + 1, a > v - 1, a == v + 1],
                      [True, True, True, False], 'comparison with a number')
        tags.add('convertible')
        expect_eq(a.equals(CSSUnitValue(v, u2)), u1 == u2, 'equals')
        expect_eq(a.equals(CSSUnitValue(v + 1, u2)), False, 'equals')
    return ','.join(sorted(tags))


LEAVES = [('u', 2, 'number'), ('u', 3, 'px'), ('u', -0.5, 'in'),
          ('u', 4, 'em'), ('u', 8, 'percent'), ('u', 5, 's')]
FEW = LEAVES[:2] + LEAVES[3:5]


def level1(leaves, clamp):
    out = []
    for op in ('sum', 'mul', 'min', 'max'):
        out += [(op, a, b) for a in leaves for b in leaves]
        out += [(op, a) for a in leaves]
    out += [(op, a) for op in ('neg', 'inv') for a in leaves]
    out += [('clamp', a, b, c) for a in clamp for b in clamp for c in clamp]
    return out


def grow(trees, leaves):
    out = []
    for t in trees:
        out += [('neg', t), ('inv', t)]
        for op in ('sum', 'mul', 'min', 'max'):
            out += [(op, t, a) for a in leaves]
            out += [(op, a, t) for a in leaves]
        a = leaves[1]
        out += [('clamp', t, a, a), ('clamp', a, t, a), ('clamp', a, a, t)]
    return out


def case_tree(tree, ctx):
    formatter.precision = 6
    what = show(tree)
    try:
        for a in tree[1:]:
            model_type(a)
    except (Skip, Invalid):
        return 'skipped'
    args = [build(a) for a in tree[1:]]
    before = [describe(a) for a in args]
    try:
        model_type(tree)
        fails = False
    except Skip:
        return 'skipped'
    except Invalid:
        fails = True
    if fails:
        expect_eq(real(lambda: CLASS[tree[0]](*args)), 'ValueError', what)
        expect_eq([describe(a) for a in args], before, 'arguments of ' + what)
        return 'incompatible'
    obj = CLASS[tree[0]](*args)
    expect_eq(obj.operator.value,
              {'sum': 'sum', 'mul': 'product', 'neg': 'negate',
               'inv': 'invert'}.get(tree[0], tree[0]), 'operator')
    if tree[0] == 'clamp':
        kept = [obj.min, obj.val, obj.max]
    elif tree[0] in ('neg', 'inv'):
        kept = [obj.value]
    else:
        kept = list(obj.values)
    expect(len(kept) == len(args) and all(x is y for x, y in zip(kept, args)),
           'arguments are kept in %s' % what)
    try:
        e = check_numeric(tree, obj, ctx, ['px', 'number', 'em', 'percent',
                                           'cm'], what)
    except Skip:
        return 'skipped'
    expect_eq([describe(a) for a in args], before, 'arguments of ' + what)
    other = build(tree)
    expect_eq((obj.equals(other), other.equals(obj), obj.equals(obj)),
              (True, True, True), 'equals() of the same trees ' + what)
    if printable(tree):
        s = obj.tostring()
        try:
            p = CSSNumericValue.parse(s)
        except ValueError:
            expect(False, '%s serialises as %r, which does not parse'
                   % (what, s))
        expect_eq(p.tostring(), s, 'text of the parsed value')
        expect_eq(norm_type(p.type()), norm_type(obj.type()),
                  'type of %s, parsed from %r' % (what, s))
        g = got(lambda: pairs(p.to_sum().values))
        expect(same_items(g, e), '%s serialises as %r, which is %s, not %s'
               % (what, s, g, e))
        fn = tree[0] if tree[0] in ('min', 'max', 'clamp') else 'calc'
        expect(s.startswith(fn + '('), 'function of %r' % s)
    return tree[0]


EQ_TREES = [('u', 1, 'px'), ('u', 2, 'px'), ('u', 1, 'em'), ('u', 1, 'number'),
            ('u', 96, 'px'), ('u', 1, 'in')]
EQ_TREES += [(op, ('u', 1, 'px')) for op in ('sum', 'mul', 'min', 'max',
                                             'neg', 'inv')]
EQ_TREES += [(op, ('u', 2, 'px')) for op in ('sum', 'neg', 'inv')]
EQ_TREES += [(op, ('u', 1, 'px'), ('u', 2, 'px'))
             for op in ('sum', 'mul', 'min', 'max')]
EQ_TREES += [(op, ('u', 2, 'px'), ('u', 1, 'px'))
             for op in ('sum', 'mul', 'min', 'max')]
EQ_TREES += [('clamp', ('u', a, 'px'), ('u', b, 'px'), ('u', c, 'px'))
             for a, b, c in ((1, 2, 3), (2, 2, 3), (1, 3, 3), (1, 2, 4))]
EQ_TREES += [('sum', ('u', 1, 'px'), (op, ('u', 2, 'px')))
             for op in ('sum', 'neg', 'max')]
EQ_TREES += [('mul', ('u', 1, 'px'), (op, ('u', 2, 'px')))
             for op in ('sum', 'inv', 'max')]
EQ_TREES += [('neg', ('neg', ('u', 1, 'px'))), ('inv', ('neg', ('u', 1, 'px')))
             ]


def case_equals(case, ctx):
    a, b = case
    x, y, z = build(a), build(b), build(a)
    expect_eq(x.equals(y), a == b, '%s equals %s' % (show(a), show(b)))
    expect_eq(x.equals(z, y), a == b, 'equals() with two arguments')
    expect_eq(x.equals(y, z), a == b, 'equals() with two arguments')
    if b == ('u', 1, 'number'):
        expect_eq(x.equals(1), a == b, 'equals(1)')
        expect_eq(x.equals(1.5), False, 'equals(1.5)')
    expect_eq(outcome(lambda: x.equals('1px')), ('exc', 'TypeError'),
              'equals of a str')
    return str(a == b)


def case_add(case, ctx):
    """add() of a tree and one or two others."""
    first, rest = case[0], list(case[1:])
    obj = build(first)
    args = [build(a) for a in rest]
    before = [describe(a) for a in [obj] + args]
    parts = (list(first[1:]) if first[0] == 'sum' else [first]) + rest
    what = '%s.add(%s)' % (show(first), ', '.join(show(a) for a in rest))
    if all(p[0] == 'u' for p in parts) and len({p[2] for p in parts}) == 1:
        r = obj.add(*args)
        expect(type(r) is CSSUnitValue, what + ' is a unit value')
        expect_eq(r.unit, parts[0][2], what)
        expect_close(r.value, float(sum(p[1] for p in parts)), what)
        tag = 'unit'
    else:
        tree = ('sum',) + tuple(parts)
        try:
            model_type(tree)
        except Skip:
            return 'skipped'
        except Invalid:
            expect_eq(real(lambda: obj.add(*args)), 'ValueError', what)
            expect_eq([describe(a) for a in [obj] + args], before, 'operands')
            return 'incompatible'
        r = obj.add(*args)
        expect(type(r) is CSSMathSum, what + ' is a sum')
        expect(r.equals(build(tree)), '%s has the terms %s' % (what, show(tree)))
        try:
            check_numeric(tree, r, ctx, ['px', 'em', 'number'], what)
        except Skip:
            pass
        tag = 'sum'
    expect_eq([describe(a) for a in [obj] + args], before,
              'operands of ' + what)
    return tag


# --------------------------------------------------------------- parsing

class P:
    """The calc() grammar, over a list of tokens, evaluated to a tree."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self):
        t = self.peek()
        self.i += 1
        return t

    def sum(self):
        terms = [self.product()]
        while self.peek() in ('+', '-'):
            op = self.take()
            p = self.product()
            terms.append(p if op == '+' else ('neg', p))
        return terms[0] if len(terms) == 1 else ('sum',) + tuple(terms)

    def product(self):
        fs = [self.value()]
        while self.peek() in ('*', '/'):
            op = self.take()
            v = self.value()
            fs.append(v if op == '*' else ('inv', v))
        return fs[0] if len(fs) == 1 else ('mul',) + tuple(fs)

    def value(self):
        t = self.take()
        if isinstance(t, tuple):
            return t
        if t in ('(', 'calc('):
            v = self.sum()
            self.close()
            return v
        if t in ('min(', 'max(', 'clamp('):
            args = [self.sum()]
            while self.peek() == ',':
                self.take()
                args.append(self.sum())
            self.close()
            if t == 'clamp(' and len(args) != 3:
                raise Invalid
            return (t[:-1],) + tuple(args)
        raise Invalid

    def close(self):
        if self.take() != ')':
            raise Invalid


def text_of(toks, sep=' '):
    return sep.join(t if isinstance(t, str) else
                    '%s%s' % (t[1], CSS_UNIT.get(t[2], t[2])) for t in toks)


def check_parse(toks, text, ctx):
    p = P(toks)
    try:
        tree = p.value()
        if p.i != len(toks) or toks[0] == '(':
            raise Invalid
        model_type(tree)
    except Skip:
        return 'skipped'
    except Invalid:
        expect_eq(real(lambda: CSSNumericValue.parse(text)), 'ValueError',
                  'parse(%r)' % text)
        return 'malformed'
    try:
        sum_value(tree)
    except Skip:
        return 'skipped'
    v = CSSNumericValue.parse(text)
    expect_eq(v.tostring(), text, 'text')
    check_numeric(tree, v, ctx, ['px', 'number', 'em'], text)
    kind = type(v).__name__
    root = {'min(': 'CSSMathMin', 'max(': 'CSSMathMax',
            'clamp(': 'CSSMathClamp'}.get(toks[0])
    if root:
        expect_eq(kind, root, 'class of the parsed value')
        if root == 'CSSMathClamp':
            args = [v.min, v.val, v.max]
        else:
            args = list(v.values)
        expect_eq(len(args), len(tree) - 1, 'number of arguments')
    elif toks[0] == 'calc(':
        expect(kind in ('CSSMathSum', 'CSSMathProduct')
               or toks[1] in ('min(', 'max(', 'clamp('),
               'class of the parsed value: ' + kind)
    return 'valid'


N = [('u', v, 'number') for v in (2, 3, 5, 7, 11)]
L = [('u', 2, 'px'), ('u', 3, 'number'), ('u', 5, 'px'), ('u', 7, 'number'),
     ('u', 11, 'em')]


def groupings(lo, hi, depth):
    """Bracketings of operands lo..hi: sets of (open, close) pairs."""
    yield []
    if depth == 0:
        return
    for i in range(lo, hi):
        for j in range(i + 1, hi + 1):
            if (i, j) == (lo, hi):
                continue
            for inner in groupings(i, j, depth - 1):
                yield [(i, j)] + inner
    return


def expr_cases(nops, depth):
    for ops in itertools.product('+-*/', repeat=nops):
        for g in groupings(0, nops, depth):
            for nums in ('N', 'L'):
                for word in ('(', 'calc(') if g else ('',):
                    yield (ops, tuple(g), nums, word)


def case_expr(case, ctx):
    ops, groups, nums, word = case
    nums = N if nums == 'N' else L
    toks = []
    for i in range(len(ops) + 1):
        if i:
            toks.append(ops[i - 1])
        toks += [word] * sum(1 for g in groups if g[0] == i)
        toks.append(nums[i])
        toks += [')'] * sum(1 for g in groups if g[1] == i)
    tag = check_parse(['calc('] + toks + [')'],
                      text_of(['calc('] + toks + [')']), ctx)
    # the same expression as an argument
    for fn in ('max(', 'min('):
        full = [fn] + toks + [',', nums[0], ')']
        check_parse(full, text_of(full), ctx)
        full = [fn, nums[0], ','] + toks + [')']
        check_parse(full, text_of(full).upper(), ctx)
    full = ['clamp(', nums[0], ','] + toks + [',', nums[0], ')']
    check_parse(full, text_of(full), ctx)
    # written without the optional white space
    tight = text_of(['calc('] + toks + [')'])
    for a, b in ((' * ', '*'), (' / ', '/'), ('( ', '('), (' )', ')')):
        tight = tight.replace(a, b)
    check_parse(['calc('] + toks + [')'], tight, ctx)
    return tag


ALPHABET = [('u', 2, 'number'), ('u', 3, 'px'), '+', '-', '*', '/', ',', '(',
            ')', 'max(']


def case_tokens(case, ctx):
    """Every token string (well balanced) inside calc(), max() and clamp()."""
    toks = list(case)
    d = 0
    for t in toks:
        d += t in ('(', 'max(')
        d -= t == ')'
        if d < 0:
            return 'unbalanced'
    if d:
        return 'unbalanced'
    tag = None
    for fn in ('calc(', 'max(', 'clamp('):
        full = [fn] + toks + [')']
        tag = check_parse(full, text_of(full), ctx)
    return tag


def case_top(case, ctx):
    """Malformed text outside of the math functions."""
    expect_eq(real(lambda: CSSNumericValue.parse(case)), 'ValueError',
              'parse(%r)' % case)
    return 'malformed'


TOP = ['', ' ', 'px', 'auto', '"1px"', '1px 2px', '1px,2px', '1 px', '1 %',
       '1pxx', '#123', '1 + 2', '(1)', '(1 + 2)', 'foo(1)', 'rgb(1, 2, 3)',
       'calc(1) calc(2)', 'calc(foo)', 'calc(1 + foo)', 'calc("1")',
       'calc(1 + 2) px', 'calc(1 +2)', 'calc(1px -2px)', 'calc(rgb(1))',
       'calc(1foo)', 'calc(1 2)', 'calc(1 # 2)', 'calc([1])', 'calc({1})',
       'max()', 'min()', 'clamp()', 'clamp(1, 2)', 'clamp(1, 2, 3, 4)',
       'max(1,)', 'max(,1)', 'min(1,,2)', 'max(1 2)', 'url(1)', '1; 2', '-',
       '+', '+px', '--1', 'calc(1 % 2)', 'calc(1 = 2)', 'calc(1px + 2)',
       'calc(1px + 1s)', 'max(1px, 1)', 'clamp(1px, 1s, 2px)']


def tagged(fn):
    def case(case, ctx):
        ctx.outcome(fn(case, ctx))
    return case


def check(run):
    run.cases('unit values', product(sorted(UNITS), VALUES), tagged(case_unit),
              bound='%d units x %d values' % (len(UNITS), len(VALUES)),
              min_outcomes=7)
    run.cases('unknown units', BAD_UNITS, tagged(case_bad_unit),
              bound='%d spellings' % len(BAD_UNITS))
    run.cases('conversion and comparison',
              product(sorted(UNITS), sorted(UNITS)), tagged(case_convert),
              bound='all pairs of %d units, %d values'
              % (len(UNITS), len(VALUES)), min_outcomes=2)
    one = level1(LEAVES, LEAVES[1:4])
    trees = one + grow(level1(LEAVES if run.thorough else FEW, FEW[1:3]), FEW)
    small = [t for t in level1(FEW, FEW[1:2])
             if t[0] in ('sum', 'mul', 'neg', 'inv', 'max')]
    trees += [(op, a, b) for op in ('sum', 'mul', 'max') for a in small
              for b in small]
    if run.thorough:
        trees += grow(grow([t for t in small if t[0] != 'max'], FEW[:3]),
                      FEW[1:3])
    run.cases('math values', trees, tagged(case_tree), bound='%d trees of sum, '
              'product, negate, invert, min, max and clamp, to depth %d, over '
              '%d unit values' % (len(trees), 4 if run.thorough else 3,
                                  len(LEAVES)), min_outcomes=8)
    run.cases('equality', product(EQ_TREES, EQ_TREES), tagged(case_equals),
              bound='all pairs of %d trees' % len(EQ_TREES), min_outcomes=2)
    adds = EQ_TREES + LEAVES
    lists = [(a,) for a in adds] + product(adds, adds)
    lists += product(adds, LEAVES, LEAVES)
    run.cases('addition', lists, tagged(case_add),
              bound='%d operands with none, one and two others' % len(adds),
              min_outcomes=3)
    exprs = []
    for n in range(1, 5 if run.thorough else 4):
        exprs += list(expr_cases(n, 2 if n < 4 else 1))
    if not run.thorough:
        exprs += list(expr_cases(4, 0))
    run.cases('expressions', exprs, tagged(case_expr),
              bound='all operators and bracketings of up to 4 (thorough: 5) '
              'operands, and unbracketed ones of 5', min_outcomes=2)
    toks = []
    for n in range(0, 6 if run.thorough else 5):
        toks += [tuple(x) for x in itertools.product(ALPHABET, repeat=n)]
    run.cases('token strings', toks, tagged(case_tokens),
              bound='all strings of up to %d tokens of %d'
              % (5 if run.thorough else 4, len(ALPHABET)), min_outcomes=3)
    run.cases('malformed text', TOP, tagged(case_top), bound='%d texts' % len(TOP))
