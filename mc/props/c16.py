"""C16: SVGTransform / SVGTransformList.

Reference model: (name, full argument tuple) with matrices composed in plain
Python (shared with the C17 model), and a Python list for the list API.
"""
import math

from svgpy import DOMMatrix, SVGTransform, SVGTransformList

from mc.engine import Machine, expect, expect_close, expect_eq, outcome, \
    product, sequences

T = SVGTransform
TYPES = {'matrix': T.SVG_TRANSFORM_MATRIX,
         'translate': T.SVG_TRANSFORM_TRANSLATE,
         'scale': T.SVG_TRANSFORM_SCALE, 'rotate': T.SVG_TRANSFORM_ROTATE,
         'skewX': T.SVG_TRANSFORM_SKEWX, 'skewY': T.SVG_TRANSFORM_SKEWY}
ARITY = {'matrix': (6,), 'translate': (1, 2), 'scale': (1, 2),
         'rotate': (1, 3), 'skewX': (1,), 'skewY': (1,)}


def full(name, args):
    args = tuple(args)
    if name == 'translate' and len(args) == 1:
        args += (0,)
    if name == 'scale' and len(args) == 1:
        args += args
    if name == 'rotate' and len(args) == 1:
        args += (0, 0)
    return args


def mul(p, q):
    a, b, c, d, e, f = p
    A, B, C, D, E, F = q
    return (a * A + c * B, b * A + d * B, a * C + c * D, b * C + d * D,
            a * E + c * F + e, b * E + d * F + f)


I6 = (1, 0, 0, 1, 0, 0)


def mat(name, args):
    v = full(name, args)
    if name == 'matrix':
        return v
    if name == 'translate':
        return (1, 0, 0, 1) + v
    if name == 'scale':
        return (v[0], 0, 0, v[1], 0, 0)
    if name == 'skewX':
        return (1, 0, math.tan(math.radians(v[0])), 1, 0, 0)
    if name == 'skewY':
        return (1, math.tan(math.radians(v[0])), 0, 1, 0, 0)
    t = math.radians(v[0])
    c, s = math.cos(t), math.sin(t)
    cx, cy = v[1:]
    return mul(mul((1, 0, 0, 1, cx, cy), (c, s, -s, c, 0, 0)),
               (1, 0, 0, 1, -cx, -cy))


def fmt(x):
    s = ('%.6f' % x).rstrip('0').rstrip('.')
    return '0' if s == '-0' else s


def ser(name, args, delim=', '):
    n = [fmt(x) for x in full(name, args)]
    if name == 'rotate' and n[1:] == ['0', '0']:
        n = n[:1]
    elif name == 'scale' and n[0] == n[1]:
        n = n[:1]
    elif name == 'translate' and n[1] == '0':
        n = n[:1]
    return '%s(%s)' % (name, delim.join(n))


def verify(t, name, args, what):
    expect_eq(t.type, TYPES[name], what + ': type')
    v = full(name, args)
    expect_close(t.values, v, what + ': values', 1e-9)
    want = v[0] if name in ('rotate', 'skewX', 'skewY') else 0
    expect_close(t.angle, want, what + ': angle', 1e-9)
    m = t.matrix
    expect(isinstance(m, DOMMatrix) and m.is2d, what + ': matrix class')
    expect_close(m.tolist(), mat(name, args), what + ': matrix', 1e-9)
    for d in (None, ' ', ',', ' , '):
        s = t.tostring() if d is None else t.tostring(d)
        expect_eq(s, ser(name, args, d or ', '), what + ': tostring')
        back = SVGTransformList.parse(s)
        expect_eq(len(back), 1, what + ': reparse count')
        expect_eq(back[0].type, TYPES[name], what + ': reparse type')
        expect_close(back[0].values, v, what + ': reparse values', 2e-6)


NUMS = [('0', 0), ('-0', 0), ('1', 1), ('+2', 2), ('-3.5', -3.5), ('.25', .25),
        ('7.', 7), ('1e2', 100), ('-2.5E-1', -.25), ('30', 30)]
NUMS_S = [('0', 0), ('1', 1), ('-3.5', -3.5), ('.25', .25), ('+2', 2),
          ('1e2', 100)]


def parse_case(case, ctx):
    name, nums, sep, pad, wsp = case
    spell = [n[0] for n in nums]
    if sep == '':       # packed numbers need an explicit sign
        for i in range(1, len(spell)):
            if spell[i][0] not in '+-':
                spell[i] = '+' + spell[i]
    args = [n[1] for n in nums]
    text = '%s%s%s(%s%s%s)%s' % (pad, name, wsp, pad, sep.join(spell), pad,
                                 pad)
    lst = SVGTransformList.parse(text)
    ctx.step()
    expect_eq(len(lst), 1, 'number of functions in %r' % text)
    verify(lst[0], name, args, 'parse(%r)' % text)
    if not pad and not wsp:
        verify(SVGTransform(TYPES[name], *args), name, args, 'constructor')
        t = SVGTransform()
        expect_eq((t.type, t.values, t.matrix, t.tostring()),
                  (T.SVG_TRANSFORM_UNKNOWN, None, None, ''), 'unknown')
        t.set(TYPES[name], *args)
        verify(t, name, args, 'set')
        ctx.step(2)
    ctx.outcome((name, len(args)))


SET = [('translate', (5,)), ('translate', (3, -4)), ('translate', (0, 2)),
       ('scale', (2,)), ('scale', (2, .5)), ('scale', (1, 3)),
       ('rotate', (30,)), ('rotate', (-45, 10, 20)), ('rotate', (90, 0, 5)),
       ('rotate', (60, 7, 0)), ('skewX', (20,)), ('skewY', (-15,)),
       ('matrix', (1, 2, 3, 4, 5, 6)), ('matrix', (0, 1, -1, 0, .5, 0))]


def set_method(t, name, args):
    if name == 'matrix':
        t.set_matrix(DOMMatrix(list(args)))
    else:
        getattr(t, {'translate': 'set_translate', 'scale': 'set_scale',
                    'rotate': 'set_rotate', 'skewX': 'set_skew_x',
                    'skewY': 'set_skew_y'}[name])(*args)


def setter_case(case, ctx):
    t = SVGTransform()
    for op in case:
        if op is None:
            t.set_unknown()
            expect_eq((t.type, t.values, t.angle, t.matrix, t.tostring()),
                      (T.SVG_TRANSFORM_UNKNOWN, None, 0, None, ''),
                      'set_unknown')
        elif op == '3d':
            before = (t.type, t.values, t.angle)
            m = DOMMatrix()
            m.translate_self(0, 0, 3)
            expect_eq(outcome(t.set_matrix, m), ('exc', 'ValueError'),
                      'set_matrix(3d)')
            expect_eq((t.type, t.values, t.angle), before, 'after rejection')
        else:
            set_method(t, *op)
            verify(t, op[0], op[1], 'set_%s%r' % op)
            m = t.matrix
            m.translate_self(100, 100)       # returned matrix is a copy
            verify(t, op[0], op[1], 'after changing .matrix')
            u = SVGTransform.from_matrix(t.matrix)
            verify(u, 'matrix', mat(*op), 'from_matrix')
            u = SVGTransformList.create_svg_transform_from_matrix(t.matrix)
            verify(u, 'matrix', mat(*op), 'create_svg_transform_from_matrix')
        ctx.step()
    ctx.outcome(len(case))


def make(i):
    name, args = SET[i]
    return SVGTransform(TYPES[name], *args)


def compose(idx):
    m = I6
    for i in idx:
        m = mul(m, mat(*SET[i]))
    return m


def list_case(case, ctx):
    idx, sep = case
    items = [make(i) for i in idx]
    text = sep.join(ser(*SET[i]) for i in idx)
    lst = SVGTransformList(items)
    built = [lst, SVGTransformList.parse(text), SVGTransformList(text),
             SVGTransformList(lst), SVGTransformList(tuple(items))]
    want = compose(idx)
    for n, x in enumerate(built):
        expect_eq((len(x), x.length, x.number_of_items),
                  (len(idx),) * 3, 'length')
        for i, t in zip(idx, x):
            verify(t, SET[i][0], SET[i][1], 'item (%d)' % n)
        if idx:
            expect_close(x.matrix.tolist(), want, 'list matrix')
            verify(x.transform, 'matrix', want, 'list transform')
        else:
            expect_eq((x.matrix, x.transform, x.consolidate()),
                      (None,) * 3, 'empty list')
        for d in (None, ' ', ','):
            s = x.tostring() if d is None else x.tostring(d)
            expect_eq(s, ' '.join(ser(SET[i][0], SET[i][1], d or ', ')
                                  for i in idx), 'list tostring')
        ctx.step()
    for i, t in zip(idx, lst):
        expect(t is items[lst.index(t)], 'identity of items')
    if idx:
        y = built[1]
        r = y.consolidate()
        expect(len(y) == 1 and y[0] is r, 'consolidate result')
        verify(r, 'matrix', want, 'consolidate')
        expect_close(y.matrix.tolist(), want, 'matrix after consolidate')
        ctx.step()
    ctx.outcome((len(idx), sep))


class Pool(object):
    def __init__(self, items, names):
        self.names = {id(t): n for n, t in names.items()}
        self.objs = dict(names)
        self.keep = []
        self.lst = SVGTransformList([self.objs[n] for n in items])

    def name(self, t):
        if id(t) in self.names:
            return self.names[id(t)]
        return ('new', t.type, tuple(round(v, 6) for v in t.values))


PSET = {'A': 1, 'B': 6, 'C': 4}


class ListHist(Machine):
    name = 'list-histories'
    depth = 3
    unmerged = 2

    def configs(self):
        return ['', 'AB', 'ABA']

    def fresh(self, config):
        pool = Pool(config, {n: make(i) for n, i in PSET.items()})
        return pool, self.fresh_model(config)

    def fresh_model(self, config):
        return list(config)

    def menu(self, model):
        n = len(model)
        ops = [('initialize', 'C'), ('clear',), ('consolidate',),
               ('extend', 'BC'), ('iadd', 'A'), ('add', 'CB'), ('reverse',),
               ('append', 'A'), ('append_item', 'B'), ('pop',),
               ('bad_append',), ('bad_insert',), ('bad_set',),
               ('bad_replace',), ('bad_initialize_item',),
               ('setslice', 0, 1, 'BC'), ('setslice', 1, 3, ''),
               ('setslice', n, n, 'A'), ('delslice', 0, 2)]
        for i in sorted({0, 1, n, -1, n + 2}):
            ops += [('insert', i, 'C'), ('insert_item_before', i, 'A'),
                    ('get_item', i), ('remove_item', i),
                    ('replace_item', i, 'B'), ('setitem', i, 'C'),
                    ('delitem', i)]
        for x in 'AC':
            ops += [('index', x), ('remove', x), ('count', x)]
        return ops

    def apply(self, p, op):
        k, a = op[0], op[1:]
        lst = p.lst
        o = p.objs
        f = {
            'initialize': lambda: lst.initialize(o[a[0]]),
            'clear': lambda: lst.clear(),
            'consolidate': lambda: lst.consolidate(),
            'extend': lambda: lst.extend([o[x] for x in a[0]]),
            'reverse': lambda: lst.reverse(),
            'append': lambda: lst.append(o[a[0]]),
            'append_item': lambda: lst.append_item(o[a[0]]),
            'pop': lambda: lst.pop(),
            'insert': lambda: lst.insert(a[0], o[a[1]]),
            'insert_item_before':
                lambda: lst.insert_item_before(o[a[1]], a[0]),
            'get_item': lambda: lst.get_item(a[0]),
            'remove_item': lambda: lst.remove_item(a[0]),
            'replace_item': lambda: lst.replace_item(o[a[1]], a[0]),
            'setitem': lambda: lst.__setitem__(a[0], o[a[1]]),
            'delitem': lambda: lst.__delitem__(a[0]),
            'setslice': lambda: lst.__setitem__(
                slice(a[0], a[1]), [o[x] for x in a[2]]),
            'delslice': lambda: lst.__delitem__(slice(a[0], a[1])),
            'index': lambda: lst.index(o[a[0]]),
            'remove': lambda: lst.remove(o[a[0]]),
            'count': lambda: lst.count(o[a[0]]),
            'bad_append': lambda: lst.append('rotate(3)'),
            'bad_insert': lambda: lst.insert(0, None),
            'bad_set': lambda: lst.__setitem__(0, 'x'),
            'bad_replace': lambda: lst.replace_item(DOMMatrix(), 0),
            'bad_initialize_item':
                lambda: lst.insert_item_before('scale(2)', 0),
        }
        if k == 'iadd':
            l0 = p.lst
            p.lst += [o[x] for x in a[0]]
            expect(p.lst is l0, '+= rebinds')
            return 'ok', None
        if k == 'add':
            r = p.lst + [o[x] for x in a[0]]
            expect(r is not p.lst and isinstance(r, SVGTransformList),
                   'result of +')
            return 'ok', r.tostring()
        kind, v = outcome(f[k])
        if isinstance(v, SVGTransform):
            p.keep.append(v)
            v = p.name(v)
        return kind, v

    @staticmethod
    def m6(item):
        if isinstance(item, tuple):
            return item[2]
        return mat(*SET[PSET[item]])

    @staticmethod
    def ser(item):
        if isinstance(item, tuple):
            return ser('matrix', item[2])
        return ser(*SET[PSET[item]])

    def model_apply(self, m, op):
        k, a = op[0], op[1:]

        def go():
            if k == 'initialize':
                m[:] = [a[0]]
                return a[0]
            if k == 'clear':
                m[:] = []
            elif k == 'consolidate':
                if not m:
                    return None
                t = I6
                for x in m:
                    t = mul(t, self.m6(x))
                m[:] = [('new', TYPES['matrix'],
                         tuple(round(v, 6) + 0. for v in t))]
                return m[0]
            elif k in ('extend', 'iadd'):
                m.extend(a[0])
            elif k == 'add':
                return ' '.join(self.ser(x) for x in m + list(a[0]))
            elif k == 'reverse':
                m.reverse()
            elif k in ('append', 'append_item'):
                m.append(a[0])
                return a[0] if k == 'append_item' else None
            elif k == 'pop':
                return m.pop()
            elif k in ('insert', 'insert_item_before'):
                m.insert(a[0], a[1])
                return a[1] if k != 'insert' else None
            elif k == 'get_item':
                return m[a[0]]
            elif k == 'remove_item':
                return m.pop(a[0])
            elif k in ('replace_item', 'setitem'):
                m[a[0]] = a[1]
                return a[1] if k == 'replace_item' else None
            elif k == 'delitem':
                del m[a[0]]
            elif k == 'setslice':
                m[a[0]:a[1]] = list(a[2])
            elif k == 'delslice':
                del m[a[0]:a[1]]
            elif k == 'index':
                return m.index(a[0])
            elif k == 'remove':
                m.remove(a[0])
            elif k == 'count':
                return m.count(a[0])
            else:
                raise TypeError()
        return outcome(go)

    def same(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(
                self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list):
            return self.same(tuple(a), tuple(b))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) <= 1e-4 * max(1, abs(a), abs(b))
        return a == b

    def observe(self, p):
        m = p.lst.matrix
        return ([p.name(t) for t in p.lst], len(p.lst), p.lst.length,
                p.lst.number_of_items,
                None if m is None else m.tolist())

    def model_observe(self, m):
        t = None
        if m:
            t = I6
            for x in m:
                t = mul(t, self.m6(x))
        return (list(m), len(m), len(m), len(m),
                None if t is None else list(t))

    def key(self, model, obs):
        return list(model)


def check(run):
    cases = []
    seps = [',', ' ', ', ', ' , ', '\n', '']
    for name, ns in ARITY.items():
        for n in ns:
            if n == 1:
                sets = product(NUMS)
            elif n == 2:
                sets = product(NUMS, NUMS)
            elif n == 3:
                sets = product(NUMS_S, NUMS_S, NUMS_S)
            else:
                al = NUMS_S[:4] if run.thorough else NUMS_S[1:4]
                sets = product(*[al] * 6)
            for s in sets:
                for sep in (seps if n > 1 else [' ']):
                    for pad, wsp in (('', ''), (' ', ''), ('', ' ')):
                        if n == 6 and (pad or wsp) and sep != ',':
                            continue
                        cases.append((name, s, sep, pad, wsp))
    run.cases('parse-one-function', cases, parse_case,
              'every function, arity, number spelling and separator',
              min_outcomes=9)
    run.cases('setters', sequences(SET + [None, '3d'], 1,
                                   3 if run.thorough else 2), setter_case,
              'every sequence of at most 2 (3) setters', min_outcomes=2)
    idx = range(len(SET))
    lists = [(s, ' ') for s in sequences(idx, 0, 3)]
    lists += [(s, sep) for s in sequences(idx, 2, 2)
              for sep in (',', ' , ', '\n\t', ', ')]
    run.cases('lists', lists, list_case,
              'every list of at most 3 of %d functions' % len(SET),
              min_outcomes=6)
    h = ListHist()
    if run.thorough:
        h.depth = 4
    run.histories(h, 'list operations vs a Python list, depth %d' % h.depth)
