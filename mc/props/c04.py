"""C04: inline style declaration blocks (CSSStyleDeclaration of an element).

Only properties that belong to no shorthand; shorthands are C05.
"""
import re

from lxml import etree
from svgpy import SVGParser
from svgpy.css import CSSParser, CSSStyleDeclaration

from mc.engine import Machine, Mismatch, expect, expect_eq, product, sequences

SVG = 'http://www.w3.org/2000/svg'

# texts used for the style attribute -> the declarations they contain
# (name -> (value, important, text the declaration keeps when another
# declaration is changed))
TEXTS = {
    'fill: red': [('fill', 'red', False)],
    'fill: red;': [('fill', 'red', False)],
    'fill: blue;': [('fill', 'blue', False)],
    ' fill :red ;;stroke: blue': [('fill', 'red', False),
                                  ('stroke', 'blue', False)],
    'stroke: red !important': [('stroke', 'red', True)],
    'FILL: Red; --X: y; --x: z': [('fill', 'Red', False), ('--X', 'y', False),
                                  ('--x', 'z', False)],
    'fill: url(http://h/p;a:b); stroke: red': [
        ('fill', 'url("http://h/p;a:b")', False), ('stroke', 'red', False)],
    'foo: "a;b:c"; stroke: red': [('foo', '"a;b:c"', False),
                                  ('stroke', 'red', False)],
    'foo: f(a; b: c) {d;e:f}; fill: red': [
        ('foo', 'f(a; b: c) {d;e:f}', False), ('fill', 'red', False)],
    '/* foo: bar; */ fill: red': [('fill', 'red', False)],
    'fill: red; fill: blue': [('fill', 'blue', False)],
    'fill: red !important; fill: blue': [('fill', 'red', True)],
    'fill: red !important; fill: blue !important': [('fill', 'blue', True)],
    'fill; stroke: red': [('stroke', 'red', False)],
    'fill:; stroke: red': [('stroke', 'red', False)],
    'fill: ); stroke: red': [('stroke', 'red', False)],
    '': [],
    '  ;; ': [],
}

# value given to set_property -> value stored (None: the call is ignored)
VALUES = {
    'red': 'red', 'RED': 'RED', 'CurrentColor': 'currentcolor', 'Inherit': 'inherit', 'Foo': 'Foo',
    ' blue ': 'blue', '1px  2px': '1px 2px', 'a\nb': 'a b', '1.50px': '1.50px',
    'red/* x:y; */': 'red', '"a;b"': '"a;b"', "'a:b'": '"a:b"',
    'url(http://h/p;q)': 'url("http://h/p;q")', 'f(a, b)': 'f(a, b)',
    '{a;b:c}': '{a;b:c}', '[x;y]': '[x;y]', '#FFF': '#FFF', 'a, b': 'a, b',
    'a:b': 'a:b', '100%': '100%', '-1': '-1', '1e3': '1e3',
    'red; stroke: blue': None, ';': None, 'red;': None,
    'red !important': None, '! x': None, 'a)': None, 'b]': None, '}': None,
    '/* only */': None,
}

NAMES = ['fill', 'stroke', 'stroke-width', 'foo', '--X', '--x']


def canon(name):
    return name if name.startswith('--') else name.lower()


class Ignore(Exception):
    pass


class Block(object):
    def __init__(self, inline):
        self.inline = inline
        self.text = None        # style attribute
        self.raw = {}           # name -> text in the attribute
        self.decl = {}          # name -> (value, priority), in order
        self.ordered = True
        self.readonly = False
        self.frozen_text = False
        self.ops = 0

    def load(self, text):
        self.text = text
        if self.readonly:
            self.frozen_text = True
            return
        self.frozen_text = False
        found = {n: (v, i) for n, v, i in TEXTS[text or '']}
        self.raw = {n: v + (' !important' if i else '')
                    for n, (v, i) in found.items()}
        for n in list(self.decl):
            if n not in found:
                del self.decl[n]
        for n, (v, i) in found.items():
            old = self.decl.get(n, ('', ''))
            self.decl[n] = (v, 'important' if i else old[1])
        self.ordered = len(self.decl) < 2

    def write(self):
        if self.inline:
            items = sorted('%s: %s;' % i for i in self.raw.items())
            self.text = ' '.join(items) if items else None

    def set(self, name, value, priority=None):
        if self.readonly:
            raise Ignore('NoModificationAllowedError')
        if value.strip() == '':
            self.remove(name)
            return
        name = canon(name)
        if priority is None:
            priority = self.decl.get(name, ('', ''))[1]
        priority = priority.lower()
        v = VALUES[value]
        if priority not in ('', 'important') or v is None:
            return
        self.decl.pop(name, None)
        self.decl[name] = (v, priority)
        self.raw[name] = v
        self.write()

    def remove(self, name):
        if self.readonly:
            raise Ignore('NoModificationAllowedError')
        name = canon(name)
        if name not in self.decl:
            return ''
        self.raw.pop(name, None)
        v = self.decl.pop(name)[0]
        self.write()
        if not self.decl:
            self.ordered = True
        return v


class Style(Machine):
    """kind: 'inline' (element.style) or 'free' (no owner node)."""

    def __init__(self, name, kind, configs, menu, depth, unmerged=None,
                 each=True):
        self.name = name
        self.kind = kind
        self._configs = configs
        self._menu = menu
        self.depth = depth
        self.unmerged = unmerged
        self.observe_each_step = each

    def configs(self):
        return self._configs

    def fresh(self, config):
        if self.kind == 'free':
            return [None, CSSStyleDeclaration()], self.fresh_model(config)
        root = SVGParser().create_element_ns(SVG, 'svg')
        e = SVGParser().create_element_ns(SVG, 'rect')
        root.append(e)
        e.set('id', 'keep')
        if config is not None:
            e.set('style', config)
        return [root, e], self.fresh_model(config)

    def fresh_model(self, config):
        m = Block(self.kind == 'inline')
        if config is not None:
            m.load(config)
        return m

    def menu(self, m):
        return self._menu(m)

    def model_apply(self, m, op):
        m.ops += 1
        k, a = op[0], op[1:]
        try:
            if k == 'set' or k == 'setitem':
                return 'ok', m.set(*a)
            if k == 'update':
                for n, v in a[0]:
                    m.set(n, v)
                return 'ok', None
            if k == 'remove':
                return 'ok', m.remove(a[0])
            if k == 'del':
                m.remove(a[0])
                return 'ok', None
            if k == 'pop':
                return 'ok', m.remove(a[0])
            if k == 'clear':
                if m.decl:
                    for n in list(m.decl):
                        m.remove(n)
                return 'ok', None
            if k == 'raw':
                m.load(a[0])
                return 'ok', None
            if k == 'unset':
                m.load(None)
                return 'ok', None
            if k == 'readonly':
                m.readonly = a[0]
                if not a[0] and m.frozen_text:
                    m.load(m.text)
                return 'ok', None
            if k == 'reparse':
                # priorities are not part of the attribute
                for n in m.decl:
                    v = m.raw.get(n, '')
                    m.decl[n] = (m.decl[n][0], 'important'
                                 if v.endswith('!important') else '')
                m.ordered = len(m.decl) < 2
                return 'ok', None
        except Ignore as exp:
            return 'exc', exp.args[0]
        raise AssertionError(op)

    def apply(self, sut, op):
        k, a = op[0], op[1:]
        e = sut[1]
        s = e if self.kind == 'free' else e.style
        try:
            if k == 'set':
                return 'ok', s.set_property(*a)
            if k == 'setitem':
                s[a[0]] = a[1]
            elif k == 'update':
                s.update(dict(a[0]))
            elif k == 'remove':
                return 'ok', s.remove_property(a[0])
            elif k == 'del':
                del s[a[0]]
            elif k == 'pop':
                return 'ok', s.pop(a[0])
            elif k == 'clear':
                s.clear()
            elif k == 'raw':
                if a[1] == 'set':
                    e.set('style', a[0])
                elif a[1] == 'set_attribute':
                    e.set_attribute('style', a[0])
                else:
                    e.attributes['style'] = a[0]
            elif k == 'unset':
                if a[0] == 'attrib':
                    e.attrib.pop('style', None)
                else:
                    e.remove_attribute('style')
            elif k == 'readonly':
                s.readonly = a[0]
            elif k == 'reparse':
                root = SVGParser().fromstring(etree.tostring(sut[0]).decode())
                sut[:] = [root, root[0]]
            return 'ok', None
        except Mismatch:
            raise
        except Exception as exp:
            return 'exc', type(exp).__name__

    def observe(self, sut):
        e = sut[1]
        s = e if self.kind == 'free' else e.style
        keys = list(s)
        out = {
            'keys': keys,
            'items': {k: v for k, v in s.items()},
            'values': {n: s.get_property_value(n) for n in NAMES},
            'upper': {n: s[n.upper()] for n in NAMES if n[0] != '-'},
            'prio': {n: s.get_property_priority(n.title() if n[0] != '-'
                                                else n) for n in NAMES},
            'in': [n for n in NAMES if n in s],
        }
        expect_eq(len(s), len(keys), 'len')
        expect_eq(s.length, len(keys), 'length')
        expect_eq([s.item(i) for i in range(len(keys))], keys, 'item()')
        expect_eq(list(s.keys()), keys, 'keys()')
        expect_eq([k for k, _ in s.items()], keys, 'items()')
        expect_eq(list(s.values()), [out['items'][k] for k in keys], 'values()')
        if self.kind == 'inline':
            out['text'] = e.get('style')
            out['id'] = e.get('id')
            out['attrs'] = sorted(e.attrib)
        return out

    def model_observe(self, m):
        d = m.decl
        out = {
            'keys': list(d) if m.ordered else frozenset(d),
            'items': dict(d),
            'values': {n: d.get(n, ('', ''))[0] for n in NAMES},
            'upper': {n: d.get(n, ('', ''))[0] for n in NAMES
                      if n[0] != '-'},
            'prio': {n: d.get(n, ('', ''))[1] for n in NAMES},
            'in': [n for n in NAMES if n in d],
        }
        if self.kind == 'inline':
            out['text'] = m.text
            out['id'] = 'keep'
            out['attrs'] = ['id'] + (['style'] if m.text is not None else [])
        return out

    def same(self, a, b):
        if isinstance(b, dict) and isinstance(b.get('keys'), frozenset):
            a, b = dict(a), dict(b)
            a['keys'] = frozenset(a['keys'])
        return a == b

    def key(self, m, obs):
        return repr((sorted(m.decl.items()), m.ordered and list(m.decl),
                     m.text, sorted(m.raw.items()), m.readonly,
                     m.frozen_text))


SET_OPS = [('set', n, v, p) for n in ('fill', 'stroke')
           for v, p in (('red', None), ('blue', ''), ('red', 'Important'),
                        ('red', 'x'), ('', None))] + [
    ('set', 'FILL', 'Foo', ''),
    ('set', '--X', 'y', None), ('set', '--x', 'a:b', 'important'),
    ('set', 'stroke-width', '1px  2px', None),
    ('set', 'fill', 'red; stroke: blue', ''),
    ('set', 'foo', '"a;b"', None),
    ('set', 'foo', 'red !important', None),
    ('setitem', 'stroke', 'red'), ('setitem', 'Stroke', ''),
    ('update', (('stroke-width', '100%'), ('fill', 'red'))),
    ('remove', 'fill'), ('remove', 'Stroke'), ('remove', '--x'),
    ('remove', '--X'), ('del', 'fill'), ('del', 'foo'), ('pop', 'stroke'),
    ('clear',),
]
VALUES['y'] = 'y'
VALUES['blue'] = 'blue'

RAW_OPS = [('raw', t, 'set') for t in TEXTS] + [
    ('raw', 'fill: blue;', 'set_attribute'),
    ('raw', 'stroke: red !important', 'attributes'),
    ('unset', 'attrib'), ('unset', 'remove')]
OTHER = [('readonly', True), ('readonly', False), ('reparse',)]
SMALL = [
    ('set', 'fill', 'red', None), ('set', 'fill', 'blue', 'important'),
    ('set', 'stroke', 'red', ''), ('set', '--X', 'y', None),
    ('setitem', 'fill', ''), ('remove', 'stroke'), ('clear',),
    ('raw', 'fill: blue;', 'set'),
    ('raw', ' fill :red ;;stroke: blue', 'set'),
    ('raw', 'foo: "a;b:c"; stroke: red', 'attributes'),
    ('raw', 'stroke: red !important', 'set_attribute'),
    ('unset', 'attrib'), ('readonly', True), ('readonly', False),
]
PLAIN = [op for op in SMALL if op[0] not in ('readonly',)
         and op[-1] not in ('important', 'set_attribute')] + [('reparse',)]
FREE = [op for op in SET_OPS] + OTHER[:2]
FREE_SMALL = [op for op in SMALL if op[0] not in ('raw', 'unset')] + [
    ('update', (('stroke-width', '100%'), ('fill', 'red')))]


# -- values -----------------------------------------------------------------
def value_case(case, ctx):
    name, start, value, prio = case
    e = SVGParser().create_element_ns(SVG, 'rect')
    if start is not None:
        e.set('style', start)
    m = Block(True)
    if start is not None:
        m.load(start)
    before = (dict(e.style.items()), e.get('style'))
    e.style.set_property(name, value, prio)
    m.set(name, value, prio)
    expect_eq(dict(e.style.items()), dict(m.decl), 'declarations')
    expect_eq(e.get('style'), m.text, 'style attribute')
    want = VALUES[value]
    ctx.outcome('ignored' if want is None else 'set')
    if want is None:
        expect_eq((dict(e.style.items()), e.get('style')), before,
                  'an invalid value changes nothing')
        return
    # the text written is read back as the same declarations
    f = SVGParser().create_element_ns(SVG, 'rect')
    f.set('style', e.get('style'))
    expect_eq({k: v[0] for k, v in f.style.items()},
              {k: v[0] for k, v in m.decl.items()}, 'declarations read back')
    f.style.set_property('zzz', '0')
    expect_eq({k: v[0] for k, v in f.style.items() if k != 'zzz'},
              {k: v[0] for k, v in m.decl.items()}, 'others are untouched')
    f.style.remove_property('zzz')
    expect_eq(f.get('style'), e.get('style'), 'set and remove is a round trip')


# -- blocks of a style rule / style attribute -------------------------------
DECLS = {
    'fill: red': ('fill', 'red', ''),
    'fill: Initial': ('fill', 'initial', ''),
    'FILL: red !important': ('fill', 'red', 'important'),
    'fill: Foo!important': ('fill', 'Foo', 'important'),
    'stroke : url(a;b:c)': ('stroke', 'url("a;b:c")', ''),
    'stroke: "x;y"  ! Important ': ('stroke', '"x;y"', 'important'),
    'stroke:': None,
    'bad': None,
    '/* fill: x; */': None,
    '': None,
}


def block_case(case, ctx):
    seq, kind = case
    want = {}
    for d in seq:
        if DECLS[d] is None:
            continue
        n, v, p = DECLS[d]
        if want.get(n, ('', ''))[1] and not p:
            continue
        want[n] = (v, p)
    text = ';'.join(seq)
    if kind == 'attr':
        e = SVGParser().create_element_ns(SVG, 'rect')
        e.set('style', text)
        s = e.style
    else:
        sheet = CSSParser.fromstring('rect {%s}' % text)
        if not len(sheet):
            raise Mismatch('no rule', 1, 0)
        s = sheet[0].style
    expect_eq(dict(s.items()), want, 'declarations of %r' % text)
    for n in ('fill', 'stroke'):
        expect_eq((s.get_property_value(n), s.get_property_priority(n)),
                  want.get(n, ('', '')), n)
    expect_eq(len(s), len(want), 'len')
    ctx.outcome(len(want))


def check(run):
    th = run.thorough
    run.cases(
        'values',
        product(['fill', 'Foo', '--X'], [None, 'fill: red;',
                                         'foo: "a;b:c"; stroke: red'],
                list(VALUES), [None, '', 'important']),
        value_case, bound='3 names x 3 start texts x %d values x 3 priorities'
        % len(VALUES), min_outcomes=2)
    run.cases(
        'blocks', product(list(sequences(list(DECLS), 0, 4 if th else 3)),
                          ['attr', 'rule']),
        block_case, bound='declaration sequences up to length %d'
        % (4 if th else 3), min_outcomes=3)
    first = SMALL

    def mixed(m):
        if m.ops == 0:
            return SET_OPS + RAW_OPS + OTHER
        return SMALL if m.ops > 1 and not th else SET_OPS + RAW_OPS + OTHER

    run.histories(
        Style('inline-all', 'inline',
              [None, 'stroke: red !important',
               'FILL: Red; --X: y; --x: z'], mixed, 2),
        bound='every operation, depth 2')
    run.histories(
        Style('inline-deep', 'inline', [None, 'fill: red; fill: blue'],
              lambda m: first, 5 if th else 4, unmerged=4 if th else 2),
        bound='%d operations, depth %d'
        % (len(first), 5 if th else 4))
    run.histories(
        Style('inline-unobserved', 'inline',
              [None, ' fill :red ;;stroke: blue'],
              lambda m: PLAIN, 4 if th else 3, each=False),
        bound='%d operations, depth %d, observed only at the end'
        % (len(PLAIN), 4 if th else 3))
    run.histories(
        Style('free-all', 'free', [None], lambda m: FREE, 2),
        bound='every operation, depth 2')
    run.histories(
        Style('free-deep', 'free', [None], lambda m: FREE_SMALL,
              6 if th else 5, unmerged=3),
        bound='%d operations, depth %d' % (len(FREE_SMALL), 6 if th else 5))
