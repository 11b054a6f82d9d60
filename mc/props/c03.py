"""C03: DOMTokenList (class_list) and DOMStringMap (dataset)."""
import re

from svgpy import SVGParser
from svgpy.dom import DOMStringMap, DOMTokenList

from mc.engine import Machine, expect, expect_eq, outcome, product, sequences

SVG = 'http://www.w3.org/2000/svg'


# -- class_list -------------------------------------------------------------
def split(value):
    return list(dict.fromkeys(
        t for t in re.split('[\t\n\f\r ]', value or '') if t))


class Bad(Exception):
    pass


class TL(object):
    def __init__(self, raw):
        self.raw = raw
        self.ops = 0

    def tokens(self):
        return split(self.raw)

    def put(self, tokens):
        tokens = list(dict.fromkeys(t for t in tokens if t))
        if tokens == self.tokens():
            return          # rewriting or keeping the spelling is both fine
        self.raw = ' '.join(tokens) if tokens else None


def valid(*tokens):
    for t in tokens:
        if not t or re.search('[\t\n\f\r ]', t):
            raise Bad('ValueError')


TOKENS = ['a', 'b', 'c', 'A', 'a\u00a0b']
WRONG = ['', 'a b', 'a\tb', '\n', 'x\r', '\fy']


class Tokens(Machine):
    def __init__(self, name, configs, menu, depth, unmerged=None):
        self.name = name
        self._configs = configs
        self._menu = menu
        self.depth = depth
        self.unmerged = unmerged

    def configs(self):
        return self._configs

    def fresh(self, config):
        e = SVGParser().create_element_ns(SVG, 'rect')
        e.set('id', 'keep')
        if config is not None:
            e.set('class', config)
        return e, TL(config)

    def fresh_model(self, config):
        return TL(config)

    def menu(self, m):
        return self._menu(m)

    def model_apply(self, m, op):
        m.ops += 1
        try:
            return 'ok', self._model(m, op)
        except Bad as exp:
            return 'exc', exp.args[0]

    def _model(self, m, op):
        k, a = op[0], op[1:]
        t = m.tokens()
        if k == 'raw':
            m.raw = a[0]
        elif k == 'unset':
            m.raw = None
        elif k == 'class_name':
            m.raw = a[0]
        elif k == 'add':
            valid(*a)
            m.put(t + list(a))
        elif k in ('append', 'extend', 'iadd'):
            a = a if k == 'append' else a[0]
            for x in a:
                valid(x)
                m.put(m.tokens() + [x])
        elif k == 'insert':
            valid(a[1])
            if a[1] not in t:
                t.insert(a[0], a[1])
                m.put(t)
        elif k == 'remove':
            valid(*a)
            m.put([x for x in t if x not in a])
        elif k == 'replace':
            valid(*a)
            if a[0] not in t or a[1] in t:
                return False
            m.put([a[1] if x == a[0] else x for x in t])
            return True
        elif k == 'toggle':
            x, force = a
            if x in t:
                if force:
                    return True
                m.put([y for y in t if y != x])
                return False
            if force is False:
                return False
            m.put(t + [x])
            return True
        elif k == 'pop':
            try:
                x = t.pop(*a)
            except IndexError:
                raise Bad('IndexError')
            m.put(t)
            return x
        elif k == 'del':
            try:
                del t[a[0] if isinstance(a[0], int) else slice(*a[0])]
            except IndexError:
                raise Bad('IndexError')
            m.put(t)
        elif k == 'setitem':
            if a[1] in t:
                return None
            try:
                t[a[0]] = a[1]
            except IndexError:
                raise Bad('IndexError')
            m.put(t)
        elif k == 'setslice':
            s, v = slice(*a[0]), list(a[1])
            rest = list(t)
            del rest[s]
            t[s] = [x for x in dict.fromkeys(v) if x not in rest]
            m.put(t)
        elif k == 'badtype':
            raise Bad('TypeError')
        elif k == 'clear':
            m.put([])
        elif k == 'reverse':
            m.put(t[::-1])
        else:
            raise AssertionError(k)
        return None

    def apply(self, e, op):
        k, a = op[0], op[1:]
        t = e.class_list
        try:
            if k == 'raw':
                e.set('class', a[0])
            elif k == 'unset':
                e.attrib.pop('class', None)
            elif k == 'class_name':
                e.class_name = a[0]
            elif k == 'extend':
                t.extend(a[0])
            elif k == 'iadd':
                t += list(a[0])
            elif k == 'del':
                del t[a[0] if isinstance(a[0], int) else slice(*a[0])]
            elif k == 'setitem':
                t[a[0]] = a[1]
            elif k == 'badtype':
                t[0] = a[0]
            elif k == 'setslice':
                arg = list(a[1])
                t[slice(*a[0])] = arg
                expect_eq(arg, list(a[1]), "the caller's list")
            elif k == 'toggle':
                if a[1] is None:
                    return 'ok', t.toggle(a[0])
                return 'ok', t.toggle(a[0], a[1])
            else:
                return 'ok', getattr(t, k)(*a)
            return 'ok', None
        except Exception as exp:
            if type(exp).__name__ == 'Mismatch':
                raise
            return 'exc', type(exp).__name__

    def observe(self, e):
        out = {}
        for name, t in (('class_list', e.class_list),
                        ('new', DOMTokenList(e, 'class'))):
            n = len(t)
            out[name] = (list(t), [t[i] for i in range(n)],
                         [t.item(i) for i in range(n)], n, t.length,
                         t.value, list(reversed(t)), t[-1] if n else None,
                         list(t[1:]),
                         [t.contains(x) for x in TOKENS],
                         [x in t for x in TOKENS],
                         [t.count(x) for x in TOKENS],
                         [outcome(t.index, x) for x in TOKENS],
                         outcome(lambda: t[n]))
        out['attr'] = ('class' in e.attrib, split(e.get('class')),
                       split(e.class_name))
        out['others'] = [(k, v) for k, v in e.attrib.items() if k != 'class']
        return out

    def model_observe(self, m):
        t = m.tokens()
        n = len(t)
        one = (t, t, t, n, n, ' '.join(t), t[::-1], t[-1] if n else None,
               t[1:], [x in t for x in TOKENS], [x in t for x in TOKENS],
               [t.count(x) for x in TOKENS],
               [('ok', t.index(x)) if x in t else ('exc', 'ValueError')
                for x in TOKENS], ('exc', 'IndexError'))
        return {'class_list': one, 'new': one,
                'attr': (m.raw is not None, t, t), 'others': [('id', 'keep')]}

    def same(self, a, b):
        if isinstance(b, dict):
            if not b['attr'][1]:
                # an attribute without tokens may or may not be dropped by an
                # operation that changes nothing
                if not b['attr'][0] or a['attr'][0]:
                    pass
                else:
                    a = dict(a, attr=b['attr'])
            for k in b:
                expect(a[k] == b[k], k, b[k], a[k])
        return a == b


def token_menu(m):
    out = []
    for x in TOKENS:
        out += [('add', x), ('append', x), ('remove', x), ('insert', 0, x),
                ('insert', 1, x), ('insert', -1, x), ('insert', 9, x),
                ('setitem', 0, x), ('setitem', -1, x), ('setitem', 5, x)]
        out += [('toggle', x, f) for f in (None, True, False)]
        out += [('replace', x, y) for y in TOKENS]
    for w in WRONG:
        out += [('add', w), ('append', w), ('remove', w), ('insert', 0, w),
                ('replace', w, 'b'), ('replace', 'b', w), ('add', 'q', w),
                ('remove', 'a', w)]
    out += [('add',), ('add', 'a', 'd'), ('add', 'd', 'd'), ('add', 'd', 'b'),
            ('remove',), ('remove', 'a', 'b'), ('remove', 'z', 'c'),
            ('remove', 'b', 'b'), ('extend', ('d', 'a', 'e')),
            ('iadd', ('d', 'd')), ('iadd', ()), ('pop',), ('pop', 0),
            ('pop', -2), ('pop', 7), ('del', 0), ('del', -1), ('del', 7),
            ('del', (0, 2)), ('del', (None, None, 2)), ('del', (1, None)),
            ('setitem', 0, ''), ('setitem', 1, ''), ('clear',), ('reverse',),
            ('setslice', (0, 2), ('b', 'x')), ('setslice', (0, 1), ()),
            ('setslice', (1, 1), ('y', 'a', 'y')),
            ('setslice', (None, None), ('c', 'a')),
            ('setslice', (9, 9), ('a', 'n')),
            ('raw', 'b  a\tb'), ('raw', ''), ('raw', 'x'), ('unset',),
            ('class_name', 'c a'), ('badtype', 1), ('badtype', None)]
    return out


def small_token_menu(m):
    return [('add', 'a'), ('add', 'b', 'c'), ('remove', 'a'),
            ('remove', 'b', 'c'), ('toggle', 'a', None),
            ('toggle', 'd', True), ('replace', 'a', 'd'), ('insert', 1, 'e'),
            ('replace', 'b', 'a'), ('pop', 0), ('reverse',), ('clear',),
            ('setitem', 0, 'f'), ('setslice', (0, 2), ('b', 'x')),
            ('raw', 'a b a'), ('unset',)]


# -- dataset ----------------------------------------------------------------
def ref_attr(key):
    out = 'data-'
    for ch in key:
        out += '-' + ch.lower() if 'A' <= ch <= 'Z' else ch
    return out


def ref_bad(key):
    return any(key[i] == '-' and 'a' <= key[i + 1] <= 'z'
               for i in range(len(key) - 1))


def ref_key(attr):
    """Key of an attribute name, None when it is no dataset attribute."""
    if not attr.startswith('data-') or any('A' <= c <= 'Z' for c in attr):
        return None
    s = attr[5:]
    out = ''
    i = 0
    while i < len(s):
        if s[i] == '-' and i + 1 < len(s) and 'a' <= s[i + 1] <= 'z':
            out += s[i + 1].upper()
            i += 2
        else:
            out += s[i]
            i += 1
    return out


KEYS = ['foo', 'fooBar', 'Foo', 'a1', 'x-1', 'a-', 'a\u00c9', '', 'foo-Bar']


class Dataset(Machine):
    def __init__(self, name, configs, menu, depth, unmerged=None):
        self.name = name
        self._configs = configs
        self._menu = menu
        self.depth = depth
        self.unmerged = unmerged

    def configs(self):
        return self._configs

    def fresh(self, config):
        e = SVGParser().create_element_ns(SVG, 'rect')
        for k, v in config:
            e.set(k, v)
        return e, self.fresh_model(config)

    def fresh_model(self, config):
        return dict(config)

    def menu(self, m):
        return self._menu(m)

    def model_apply(self, m, op):
        try:
            return 'ok', self._model(m, op)
        except Bad as exp:
            return 'exc', exp.args[0]

    def _model(self, m, op):
        k, a = op[0], op[1:]
        if k == 'raw':
            m[a[0]] = a[1]
            return None
        if k == 'unset':
            m.pop(a[0], None)
            return None
        if k == 'clear':
            for n in list(m):
                if ref_key(n) is not None:
                    del m[n]
            return None
        if k == 'update':
            for key, v in a[0]:
                self._model(m, ('set', key, v))
            return None
        key = a[0]
        if k == 'set' and not a[1]:
            if ref_bad(key):
                raise Bad('ValueError')
            m.pop(ref_attr(key), None)
            return None
        if ref_bad(key):
            raise Bad('ValueError')
        n = ref_attr(key)
        if k == 'set':
            if ' ' in key or '<' in key:
                raise Bad('InvalidCharacterError')
            m[n] = a[1]
            return None
        if k in ('del', 'pop'):
            if n not in m:
                raise Bad('KeyError')
            v = m.pop(n)
            return v if k == 'pop' else None
        if k == 'setdefault':
            if n not in m:
                m[n] = a[1]
            return m[n]
        raise AssertionError(k)

    def apply(self, e, op):
        k, a = op[0], op[1:]
        d = e.dataset
        try:
            if k == 'raw':
                e.set(*a)
            elif k == 'unset':
                e.attrib.pop(a[0], None)
            elif k == 'set':
                d[a[0]] = a[1]
            elif k == 'del':
                del d[a[0]]
            elif k == 'update':
                d.update(dict(a[0]))
            else:
                return 'ok', getattr(d, k)(*a)
            return 'ok', None
        except Exception as exp:
            return 'exc', type(exp).__name__

    def observe(self, e):
        out = {'attrib': list(e.attrib.items())}
        for name, d in (('dataset', e.dataset),
                        ('new', DOMStringMap(e, 'data-'))):
            out[name] = (list(d), list(d.keys()), list(d.values()),
                         list(d.items()), len(d),
                         [d.get(k) for k in KEYS], [k in d for k in KEYS],
                         [outcome(lambda: d[k]) for k in KEYS],
                         outcome(lambda: d['a-b']))
        return out

    def model_observe(self, m):
        items = [(ref_key(n), v) for n, v in m.items()
                 if ref_key(n) is not None]
        keys = [k for k, v in items]
        by = dict(items)
        one = (keys, keys, [v for k, v in items], items, len(items),
               [by.get(k) for k in KEYS], [k in by for k in KEYS],
               [('ok', by[k]) if k in by else ('exc', 'KeyError')
                for k in KEYS], ('exc', 'ValueError'))
        return {'attrib': list(m.items()), 'dataset': one, 'new': one}

    def same(self, a, b):
        if isinstance(b, dict):
            for k in b:
                expect(a[k] == b[k], k, b[k], a[k])
        return a == b


def data_menu(m):
    out = []
    for k in KEYS + ['a-b', '-x']:
        out += [('set', k, '1'), ('set', k, '2'), ('set', k, ''),
                ('set', k, None), ('del', k), ('pop', k),
                ('setdefault', k, '3')]
    out += [('set', 'a b', '1'), ('set', 'a<', '1'), ('clear',),
            ('update', (('foo', '4'), ('a1', '5'))),
            ('update', (('fooBar', ''), ('x-1', '6'))),
            ('raw', 'data-foo', '7'), ('raw', 'data-foo-bar', '8'),
            ('raw', 'data-fooBar', '9'), ('raw', 'data-a-', '10'),
            ('raw', 'data--foo', '11'), ('raw', 'datafoo', '12'),
            ('raw', 'data', '13'), ('raw', 'data-', '14'),
            ('raw', 'x-data-foo', '15'), ('raw', 'foo', '16'),
            ('unset', 'data-foo'), ('unset', 'data-fooBar')]
    return out


def small_data_menu(m):
    return [('set', 'foo', '1'), ('set', 'fooBar', '2'), ('set', 'foo', ''),
            ('del', 'foo'), ('pop', 'fooBar'), ('set', 'x-1', '3'),
            ('raw', 'data-foo', '4'), ('raw', 'data-fooBar', '5'),
            ('unset', 'data-foo-bar'), ('clear',)]


def key_case(key, ctx):
    """Every key maps to its attribute and back."""
    e = SVGParser().create_element_ns(SVG, 'rect')
    e.set('id', 'keep')
    d = e.dataset
    if ref_bad(key):
        for got in (outcome(lambda: d[key]),
                    outcome(d.__setitem__, key, '1'),
                    outcome(d.__delitem__, key)):
            expect_eq(got, ('exc', 'ValueError'), 'hyphen before a letter')
        expect_eq(list(e.attrib.items()), [('id', 'keep')], 'attributes')
        ctx.outcome('rejected')
        return
    d[key] = 'v'
    expect_eq(list(e.attrib.items()),
              [('id', 'keep'), (ref_attr(key), 'v')], 'attributes')
    expect_eq(list(d.items()), [(key, 'v')], 'items')
    expect_eq((d[key], d.get(key), key in d, len(d)), ('v', 'v', True, 1),
              'lookup')
    d[key] = 'w'
    expect_eq(e.get(ref_attr(key)), 'w', 'reassigned')
    e2 = SVGParser().create_element_ns(SVG, 'g')
    e2.set(ref_attr(key), 'u')
    expect_eq(list(e2.dataset.items()), [(key, 'u')], 'read from attribute')
    del d[key]
    expect_eq(list(e.attrib.items()), [('id', 'keep')], 'deleted')
    expect_eq(len(d), 0, 'len')
    ctx.step(6)
    ctx.outcome(len(key))


def attr_case(rest, ctx):
    """Every attribute name is listed under its key or not at all."""
    e = SVGParser().create_element_ns(SVG, 'rect')
    name = 'data-' + rest
    e.set(name, 'v')
    key = ref_key(name)
    expect_eq(list(e.dataset.items()), [] if key is None else [(key, 'v')],
              'items')
    if key is not None:
        e.dataset.clear()
    expect_eq(dict(e.attrib), {name: 'v'} if key is None else {}, 'clear')
    ctx.outcome(key is None)


def check(run):
    t = run.thorough
    configs = [None, '', 'a', 'a b', ' a  b\tc\n', 'a a b', 'c b a',
               'b\u00a0c a']
    run.histories(Tokens('token-operations', configs, token_menu, 1))
    run.histories(Tokens('token-pairs', configs if t else
                         [None, ' a  b\tc\n', 'a a b'], token_menu, 2,
                         2 if t else 1))
    run.histories(Tokens('token-histories', [None, 'a b a'],
                         small_token_menu, 6 if t else 4, 4 if t else 2))
    configs = [(), (('data-foo', '0'), ('id', 'k'), ('data-foo-bar', '1'),
                    ('data-X', '2'), ('data-x-1', '3'))]
    run.histories(Dataset('dataset-pairs', configs, data_menu, 2,
                          2 if t else 1))
    run.histories(Dataset('dataset-histories', configs, small_data_menu,
                          6 if t else 4, 4 if t else 3))
    chars = ['a', 'b', 'A', 'Z', '-', '1', '_', '.', '\u00c9', '\u00e9']
    run.cases('keys', [''.join(c) for c in
                       sequences(chars, 0, 5 if t else 4)],
              key_case, min_outcomes=3)
    run.cases('attribute-names',
              [''.join(c) for c in sequences(chars, 0, 5 if t else 4)],
              attr_case, min_outcomes=2)
