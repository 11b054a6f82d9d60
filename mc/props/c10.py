"""C10: Typed OM style values and style property maps."""
import itertools

from svgpy import CSS, formatter
from svgpy.css import CSSImageValue, CSSKeywordValue, CSSMathMax, \
    CSSMathSum, CSSStyleDeclaration, CSSStyleValue, CSSURLImageValue, \
    CSSUnitValue, CSSUnparsedValue, CSSVariableReferenceValue, \
    PropertyDescriptor, StylePropertyMap, StylePropertyMapReadOnly
from svgpy.window import SVGDOMImplementation, Window

from mc.engine import Machine, expect, expect_eq, outcome, product

# ------------------------------------------------- unparsed values (var())
#
# A piece is (source text, flattened members); a member is a string or
# ('var', name, None or list of members).


def join(members):
    out = []
    for m in members:
        if isinstance(m, str) and out and isinstance(out[-1], str):
            out[-1] += m
        elif m != '':
            out.append(m)
    return out


def text(members):
    s = ''
    for m in members:
        if isinstance(m, str):
            s += m
        else:
            s += 'var(' + m[1]
            if m[2] is not None:
                s += ',' + text(m[2])
            s += ')'
    return s


ATOMS = [('1px', ['1px']), (' ', [' ']), (',', [',']), ('foo', ['foo']),
         ('var(--x)', [('var', '--x', None)]),
         ('VAR( --Y )', [('var', '--Y', None)]),
         ('var(--x,)', [('var', '--x', [])])]
WRAPS = [('(', ')'), ('[', ']'), ('{', '}'), ('calc(', ')'), ('f(', ')'),
         ('var(--z,', ')')]


def seqs(atoms, n, distinct_words=True):
    for k in range(1, n + 1):
        for s in itertools.product(atoms, repeat=k):
            # two words side by side would be one token
            words = [a[0][-1:].isalnum() and b[0][:1].isalnum()
                     and '(' not in a[0] + b[0][:-1]
                     for a, b in zip(s, s[1:])]
            if any(words) or any(
                    a[0][-1:].isalnum() and (b[0][:1] == '(' or
                                             b[0][:3].lower() == 'var' or
                                             b[0][:1].isalnum())
                    for a, b in zip(s, s[1:])):
                continue
            yield (''.join(a[0] for a in s),
                   join([m for a in s for m in a[1]]))


def wrap(item, pre, post):
    if pre.startswith('var('):
        return (pre + item[0] + post, [('var', '--z', item[1])])
    return pre + item[0] + post, join([pre] + item[1] + [post])


def members_of(value):
    out = []
    for m in value:
        if isinstance(m, str):
            out.append(m)
        else:
            expect(type(m) is CSSVariableReferenceValue, 'class of ' + repr(m))
            f = m.fallback
            out.append(('var', m.variable,
                        None if f is None else members_of(f)))
    return out


def build_unparsed(members):
    return CSSUnparsedValue([
        m if isinstance(m, str) else
        CSSVariableReferenceValue(m[1], None if m[2] is None
                                  else build_unparsed(m[2]))
        for m in members])


def has_var(members):
    return any(not isinstance(m, str) for m in members)


def case_unparsed(case, ctx):
    src, members = case
    for name in ('--a', 'width', 'fill', 'unknown-property'):
        if name != '--a' and not has_var(members):
            continue
        for value in (CSSStyleValue.parse(name, src),
                      CSSStyleValue.parse_all(name, src)[0]):
            expect(type(value) is CSSUnparsedValue,
                   '%s: %s is unparsed' % (name, src), 'CSSUnparsedValue',
                   type(value).__name__)
            expect_eq(members_of(value), members, 'members of %r' % src)
            expect_eq(value.length, len(members), 'length')
            expect_eq(len(value), len(members), 'len()')
            expect_eq(value.tostring(), src, 'tostring of the parsed value')
        expect_eq(len(CSSStyleValue.parse_all(name, src)), 1, 'parse_all')
    built = build_unparsed(members)
    expect_eq(built.tostring(), text(members), 'tostring of the built value')
    expect_eq(members_of(CSSStyleValue.parse('--a', text(members))), members,
              'built, serialised and parsed')
    # a change is reflected at once, also in nested fallbacks
    value = CSSStyleValue.parse('--a', src)
    for i, m in enumerate(members):
        if isinstance(m, str):
            value[i] = 'new'
            want = members[:i] + ['new'] + members[i + 1:]
        else:
            value[i].variable = '--new'
            want = members[:i] + [('var', '--new', m[2])] + members[i + 1:]
            if m[2]:
                value[i].fallback[0] = 'fb'
                want[i] = ('var', '--new', ['fb'] + m[2][1:])
        expect_eq(members_of(value), want, 'members after a change')
        expect_eq(value.tostring(), text(want), 'tostring after a change')
        value = CSSStyleValue.parse('--a', src)
    ctx.outcome('var' if has_var(members) else 'text')


class UnparsedList(Machine):
    """CSSUnparsedValue is a list of strings and variable references."""
    name = 'unparsed value as a list'
    REF = {'r1': CSSVariableReferenceValue('--r1'),
           'r2': CSSVariableReferenceValue('--r2', CSSUnparsedValue(['fb']))}

    def configs(self):
        return [(), ('a',), ('a', 'b'), ('a', 'r1', 'b'), ('r1', 'a', 'r2')]

    def val(self, x):
        return self.REF.get(x, x)

    def fresh(self, config):
        return (CSSUnparsedValue([self.val(x) for x in config]),
                [self.val(x) for x in config])

    def menu(self, model):
        ops = []
        n = len(model)
        for i in range(-n - 1, n + 1):
            ops += [('set', i, 'x'), ('set', i, 'r2'), ('del', i),
                    ('insert', i, 'y'), ('get', i)]
        ops += [('append', 'r1'), ('pop',), ('pop', 0), ('extend', 'p', 'r1'),
                ('setslice', 0, 1, 'm', 'n'), ('setslice', 1, 1, 'r1'),
                ('setslice', 0, n), ('delslice', 0, 2), ('reverse',),
                ('clear',), ('remove', 'a'), ('index', 'a'), ('count', 'a'),
                ('has', 'r1'), ('insert', n, 'r2'), ('insert', 5, 'z')]
        for bad in (5.5, None):
            ops += [('append', bad), ('insert', 0, bad), ('set', 0, bad),
                    ('setslice', 0, 1, 'ok', bad)]
        return ops

    def run(self, obj, op, model):
        name, a = op[0], [self.val(x) for x in op[1:]]

        def fn():
            if name == 'set':
                obj[a[0]] = a[1]
            elif name == 'get':
                return repr_of(obj[a[0]])
            elif name == 'del':
                del obj[a[0]]
            elif name == 'setslice':
                obj[a[0]:a[1]] = a[2:]
            elif name == 'delslice':
                del obj[a[0]:a[1]]
            elif name == 'pop':
                return repr_of(obj.pop(*a))
            elif name == 'has':
                return a[0] in obj
            elif name == 'extend':
                obj.extend(a)
            elif name == 'index':
                return obj.index(a[0])
            elif name == 'count':
                return obj.count(a[0])
            else:
                getattr(obj, name)(*a)
        if model and (5.5 in op[1:] or None in op[1:]) and any(
                not isinstance(x, (str, CSSVariableReferenceValue))
                for x in (a[2:] if name == 'setslice' else a[-1:])):
            return ('exc', 'TypeError')
        return outcome(fn)

    def apply(self, sut, op):
        return self.run(sut, op, False)

    def model_apply(self, model, op):
        return self.run(model, op, True)

    def observe(self, sut):
        return ([repr_of(x) for x in sut], len(sut), sut.length,
                sut.tostring(), [repr_of(sut[i]) for i in range(len(sut))])

    def model_observe(self, model):
        return ([repr_of(x) for x in model], len(model), len(model),
                ''.join(x if isinstance(x, str) else x.tostring()
                        for x in model), [repr_of(x) for x in model])

    def key(self, model, obs):
        return repr(obs[0])


def repr_of(x):
    return x if isinstance(x, str) else 'ref:' + x.variable


# ------------------------------------------------------------ reification

K = {}
for _line in '''
alignment-baseline: baseline text-bottom alphabetic ideographic middle central mathematical text-top bottom center top
clip-rule: nonzero evenodd
color-interpolation: auto sRGB linearRGB
color-interpolation-filters: auto sRGB linearRGB
color-rendering: auto optimizeSpeed optimizeQuality
direction: ltr rtl
dominant-baseline: auto text-bottom alphabetic ideographic middle central mathematical hanging text-top
fill-rule: nonzero evenodd
font-kerning: auto normal none
font-optical-sizing: auto none
font-synthesis-style: auto none
font-variant-caps: normal small-caps all-small-caps petite-caps all-petite-caps unicase titling-caps
font-variant-position: normal sub super
image-rendering: auto optimizeQuality optimizeSpeed
isolation: auto isolate
mask-type: luminance alpha
overflow-x: visible hidden clip scroll auto
overflow-y: visible hidden clip scroll auto
pointer-events: auto bounding-box visiblePainted visibleFill visibleStroke visible painted fill stroke all none
shape-rendering: auto optimizeSpeed crispEdges geometricPrecision
stroke-linecap: butt round square
stroke-linejoin: miter miter-clip round bevel arcs
text-align-all: start end left right center justify match-parent
text-align-last: auto start end left right center justify match-parent
text-anchor: start middle end
text-decoration-style: solid double dotted dashed wavy
text-orientation: mixed upright sideways
text-rendering: auto optimizeSpeed optimizeLegibility geometricPrecision
text-wrap: wrap nowrap balance
unicode-bidi: normal embed isolate bidi-override isolate-override plaintext
visibility: visible hidden collapse
white-space: normal pre nowrap pre-wrap pre-line
'''.strip().splitlines():
    _n, _v = _line.split(': ')
    K[_n] = _v.split()

LP = ('px', 'em', 'in', 'percent', 'unitless', 'math')
LEN = ('px', 'em', 'in', 'unitless')
NP = ('number', 'percent')
# property: (numeric forms, keywords)
NUM = {}
for _n in ('cx', 'cy', 'r', 'x', 'y', 'stroke-width', 'stroke-dashoffset',
           'shape-margin'):
    NUM[_n] = (LP, ())
for _n in ('rx', 'ry', 'inline-size'):
    NUM[_n] = (LP, ('auto',))
NUM['baseline-shift'] = (LP, ('sub', 'super'))
NUM['word-spacing'] = (LP, ('normal',))
for _n in ('width', 'height', 'min-width', 'min-height'):
    NUM[_n] = (LP, ('auto', 'min-content', 'max-content'))
for _n in ('max-width', 'max-height'):
    NUM[_n] = (LP, ('none', 'min-content', 'max-content'))
NUM['font-size'] = (LP, ('xx-small', 'x-small', 'small', 'medium', 'large',
                         'x-large', 'xx-large', 'larger', 'smaller'))
NUM['letter-spacing'] = (LEN, ('normal',))
NUM['shape-padding'] = (LEN, ())
for _n in ('opacity', 'fill-opacity', 'flood-opacity', 'stop-opacity',
           'stroke-opacity'):
    NUM[_n] = (NP, ())
for _n in ('stroke-miterlimit', 'shape-image-threshold'):
    NUM[_n] = (('number',), ())
NUM['font-size-adjust'] = (('number',), ('none',))
NUM['font-stretch'] = (('percent',), (
    'normal', 'ultra-condensed', 'extra-condensed', 'condensed',
    'semi-condensed', 'semi-expanded', 'expanded', 'extra-expanded',
    'ultra-expanded'))
NUM['font-weight'] = (('number',), ('normal', 'bold', 'bolder', 'lighter'))
NUM['glyph-orientation-vertical'] = (('deg',), ('auto',))
URLS = ('marker-start', 'marker-mid', 'marker-end')
COLORS = ('color', 'flood-color', 'lighting-color')

FORMS = [('unitless', '0', 0, 'number'), ('unitless', '7', 7, 'number'),
         ('unitless', '-1.5', -1.5, 'number'), ('unitless', '.5', .5,
                                                'number'),
         ('px', '2px', 2, 'px'), ('px', '-3.5PX', -3.5, 'px'),
         ('em', '4em', 4, 'em'), ('in', '1e1in', 10, 'in'),
         ('percent', '50%', 50, 'percent'), ('percent', '-7%', -7, 'percent'),
         ('deg', '90deg', 90, 'deg'), ('s', '2s', 2, 's'),
         ('hz', '3hz', 3, 'hz'), ('fr', '1fr', 1, 'fr'),
         ('dpi', '96dpi', 96, 'dpi'), ('bad', '5foo', 5, None)]
MATHS = [('calc(1px + 2em)', CSSMathSum), ('max(1px, 50%)', CSSMathMax)]
WIDE = ['inherit', 'initial', 'unset', 'revert']
WORDS = sorted({k for ks in K.values() for k in ks}
               | {k for _, ks in NUM.values() for k in ks}
               | {'foo', 'none', 'auto'})
COLOR_VALUES = ['red', '#123', '#a1b2c3', 'rgb(1, 2, 3)', 'rgba(1, 2, 3, .5)',
                'hsl(1, 2%, 3%)']
OTHERS = ['"auto"', '"foo"', 'f(1)', '@foo', '!', '#', '(1px)', '[1px]']


def rejected(name, value, ctx):
    expect_eq(outcome(lambda: CSSStyleValue.parse(name, value)),
              ('exc', 'ValueError'), 'parse(%r, %r)' % (name, value))
    expect_eq(outcome(lambda: CSSStyleValue.parse_all(name, value)),
              ('exc', 'ValueError'), 'parse_all(%r, %r)' % (name, value))
    expect_eq(CSS.supports(name, value), False,
              'supports(%r, %r)' % (name, value))
    ctx.outcome('rejected')


def accepted(name, value, cls, ctx, attrs=None, tostring=None):
    for spelled in (name, name.upper()):
        expect_eq(CSS.supports(spelled, value), True,
                  'supports(%r, %r)' % (spelled, value))
        all_ = CSSStyleValue.parse_all(spelled, value)
        expect_eq(len(all_), 1, 'number of values')
        for v in (CSSStyleValue.parse(spelled, value), all_[0]):
            expect(type(v) is cls, 'class of %s: %s' % (name, value),
                   cls.__name__, type(v).__name__)
            for a, x in (attrs or {}).items():
                expect_eq(getattr(v, a), x, '%s of %s: %s' % (a, name, value))
            expect_eq(v.tostring(), value if tostring is None else tostring,
                      'tostring')
            expect_eq(v.associated_property, name, 'associated property')
    ctx.outcome('accepted')


def case_reify(case, ctx):
    name, kind, value = case
    formatter.precision = 6
    forms, words = NUM.get(name, ((), K.get(name, ())))
    if kind == 'wide':
        for v in (value, value.upper(), value.capitalize()):
            accepted(name, v, CSSKeywordValue, ctx, {'value': value}, value)
        for extra in ('%s %s' % (value, value), value + ' 1px',
                      'auto ' + value):
            rejected(name, extra, ctx)
        rejected(name, '"%s"' % value, ctx)
    elif kind == 'word':
        if value in words or (name in URLS and value == 'none'):
            accepted(name, value, CSSKeywordValue, ctx, {'value': value})
        else:
            rejected(name, value, ctx)
    elif kind == 'form':
        form, src, number, unit = FORMS[value]
        if form == 'unitless':
            if 'number' in forms:
                accepted(name, src, CSSUnitValue, ctx,
                         {'value': number, 'unit': 'number'})
            elif 'unitless' in forms:
                accepted(name, src, CSSUnitValue, ctx,
                         {'value': number, 'unit': 'px'})
            else:
                rejected(name, src, ctx)
        elif form in forms:
            accepted(name, src, CSSUnitValue, ctx,
                     {'value': number, 'unit': unit})
        else:
            rejected(name, src, ctx)
    elif kind == 'math':
        src, cls = MATHS[value]
        if 'math' in forms:
            accepted(name, src, cls, ctx)
        else:
            if forms in (LEN, NP, ('number',), ('percent',), ('deg',)):
                return   # math functions of other types: not decided
            rejected(name, src, ctx)
    elif kind == 'color':
        if name in COLORS:
            accepted(name, value, CSSStyleValue, ctx, {'value': value})
        else:
            rejected(name, value, ctx)
    elif kind == 'url':
        address, src = value
        if name in URLS:
            accepted(name, src, CSSURLImageValue, ctx, {'value': address})
            expect(isinstance(CSSStyleValue.parse(name, src), CSSImageValue),
                   'an image value')
        else:
            rejected(name, src, ctx)
    else:
        rejected(name, value, ctx)


def reify_cases():
    names = sorted(K) + sorted(NUM) + list(URLS) + list(COLORS)
    kinds = [('wide', w) for w in WIDE] + [('word', w) for w in WORDS]
    kinds += [('form', i) for i in range(len(FORMS))]
    kinds += [('math', i) for i in range(len(MATHS))]
    kinds += [('color', c) for c in COLOR_VALUES]
    kinds += [('url', u) for u in (('a.png', 'url(a.png)'),
                                   ('a b', 'url("a b")'),
                                   ('#x', "url('#x')"))]
    kinds += [('other', o) for o in OTHERS]
    for n in names:
        for kind, v in kinds:
            if n in COLORS and (kind == 'word' or v == '"foo"'):
                if v not in ('foo', 'auto', 'none', 'middle'):
                    continue
            if kind == 'other' and v in ('@foo', '!', '#', '(1px)', '[1px]'):
                continue
            yield n, kind, v


LISTED = ['background-image', 'animation-name', 'will-change']


def case_list(case, ctx):
    name, items = case
    src = ', '.join(i[0] for i in items)
    values = CSSStyleValue.parse_all(name, src)
    expect_eq(len(values), len(items), 'number of values of ' + src)
    for v, (t, cls, value) in zip(values, items):
        expect_eq((type(v).__name__, v.value, v.associated_property),
                  (cls, value, name), 'item %s of %s' % (t, src))
    first = CSSStyleValue.parse(name, src)
    expect_eq((type(first).__name__, first.value), items[0][1:], 'first')
    ctx.outcome(str(len(items)))


def case_registered(case, ctx):
    syntax, value, ok = case
    doc = Window(SVGDOMImplementation()).document
    other = Window(SVGDOMImplementation()).document
    before = CSSStyleValue.parse('--reg', value, doc)
    expect_eq(type(before).__name__, 'CSSUnparsedValue', 'before registration')
    CSS.register_property(PropertyDescriptor('--reg', False, syntax), doc)
    expect_eq(outcome(lambda: CSS.register_property(
        PropertyDescriptor('--reg', False, syntax), doc)),
        ('exc', 'ValueError'), 'registered twice')
    expect_eq(outcome(lambda: CSS.register_property(
        PropertyDescriptor('reg', False, syntax), doc)),
        ('exc', 'ValueError'), 'a name without dashes')
    if ok is None:
        expect_eq(outcome(lambda: CSSStyleValue.parse('--reg', value, doc)),
                  ('exc', 'ValueError'), '%s: %s' % (syntax, value))
    else:
        v = CSSStyleValue.parse('--reg', value, doc)
        expect_eq(type(v).__name__, ok, '%s: %s' % (syntax, value))
        expect_eq(v.tostring(), value, 'text')
    for d, n in ((other, '--reg'), (doc, '--REG'), (doc, '--other')):
        v = CSSStyleValue.parse(n, value, d)
        expect_eq(type(v).__name__, 'CSSUnparsedValue', 'not registered')
        expect_eq(v.tostring(), value, 'text')
    v = CSSStyleValue.parse('--reg', 'var(--a)', doc)
    expect_eq(type(v).__name__, 'CSSUnparsedValue', 'with var()')
    ctx.outcome(str(ok))


REGISTERED = [('<length>', '10px', 'CSSUnitValue'), ('<length>', 'foo', None),
              ('<length>', '10%', None), ('<length>', '5s', None),
              ('<percentage>', '10%', 'CSSUnitValue'),
              ('<percentage>', '10px', None),
              ('<length-percentage>', '10%', 'CSSUnitValue'),
              ('<length-percentage>', '10px', 'CSSUnitValue'),
              ('<length-percentage>', 'calc(1px + 2%)', 'CSSMathSum'),
              ('<number>', '1.5', 'CSSUnitValue'), ('<number>', '1px', None),
              ('<angle>', '90deg', 'CSSUnitValue'), ('<angle>', '1px', None),
              ('<time>', '2s', 'CSSUnitValue'), ('<time>', '1deg', None),
              ('<color>', 'red', 'CSSStyleValue'), ('<color>', '1px', None),
              ('a | b', 'a', 'CSSKeywordValue'), ('a | b', 'c', None),
              ('<length> | auto', 'auto', 'CSSKeywordValue'),
              ('<length> | auto', '1px', 'CSSUnitValue'),
              ('<length> | auto', 'none', None), ('*', 'foo',
                                                  'CSSKeywordValue'),
              ('*', '1px', 'CSSUnitValue')]


def case_keyword(case, ctx):
    kind, value = case
    if kind == 'keyword':
        v = CSSKeywordValue(value)
        expect_eq((v.value, v.tostring()), (value, value), 'keyword')
        v.value = 'other'
        expect_eq((v.value, v.tostring()), ('other', 'other'), 'assigned')
        v = CSSStyleValue.parse('foo', value)
        v.value = 'other'
        expect_eq((v.value, v.tostring()), ('other', 'other'), 'assigned')
        for bad in ('', None):
            def assign():
                v.value = bad
            expect_eq(outcome(lambda: CSSKeywordValue(bad)),
                      ('exc', 'ValueError'), 'empty keyword')
            expect_eq(outcome(assign), ('exc', 'ValueError'), 'empty keyword')
            expect_eq(v.value, 'other', 'after the failed assignment')
    else:
        for src in (value, 'url("%s")' % value, 'url(%s)' % value):
            v = CSSURLImageValue(src)
            expect_eq((v.value, v.tostring()), (value, 'url("%s")' % value),
                      'url %r' % src)
        v = CSSStyleValue.parse('marker-start', v.tostring())
        expect_eq(v.value, value, 'round trip')
    ctx.outcome(kind)


# ----------------------------------------------------------- property maps

NAMES = ['width', 'display', '--c', '--C', 'background-image', 'opacity']


def descr(v):
    if v is None:
        return None
    n = type(v).__name__
    if n == 'CSSUnparsedValue':
        return n, v.tostring(), members_of(v)
    if n == 'CSSUnitValue':
        return n, v.tostring(), (v.value, v.unit)
    return n, v.tostring(), v.value


PARSED = {
    '10px': ('CSSUnitValue', '10px', (10, 'px')),
    '3em': ('CSSUnitValue', '3em', (3, 'em')),
    'auto': ('CSSKeywordValue', 'auto', 'auto'),
    'inherit': ('CSSKeywordValue', 'inherit', 'inherit'),
    'none': ('CSSKeywordValue', 'none', 'none'),
    'block': ('CSSKeywordValue', 'block', 'block'),
    '0.5': ('CSSUnitValue', '0.5', (.5, 'number')),
    '50%': ('CSSUnitValue', '50%', (50, 'percent')),
    'calc(1px + 2em)': ('CSSMathSum', 'calc(1px + 2em)', None),
}


def expected(name, value):
    """get_all() of a declaration."""
    if 'var(' in value or name.startswith('--'):
        if value == 'a var(--b, 1)':
            m = ['a ', ('var', '--b', [' 1'])]
        elif value == 'var(--c)':
            m = [('var', '--c', None)]
        else:
            m = [value]
        return [('CSSUnparsedValue', value, m)]
    if value.startswith('url('):
        parts = value.split(', ')
        if len(parts) == 1:
            return [('CSSURLImageValue', value,
                     value[4:-1].strip('"'))]
        return [('CSSURLImageValue', 'url("%s")' % p[4:-1].strip('"'),
                 p[4:-1].strip('"')) for p in parts]
    return [PARSED[value]]


def make(spec):
    kind = spec[0]
    if kind == 's':
        return spec[1]
    if kind == 'u':
        return CSSUnitValue(*spec[1:])
    if kind == 'k':
        return CSSKeywordValue(spec[1])
    if kind == 'url':
        return CSSURLImageValue(spec[1])
    if kind == 'sum':
        return CSSMathSum(CSS.px(1), CSS.em(2))
    if kind == 'v':
        return CSSUnparsedValue(['a ', CSSVariableReferenceValue(
            '--b', CSSUnparsedValue([' 1']))])
    if kind == 'p':
        return CSSStyleValue.parse(spec[1], spec[2])
    return {'none': None, 'int': 5, 'obj': object()}[kind]


# op: (name, values, expected text or the exception)
SETS = [('width', [('s', '10px')], '10px'),
        ('WIDTH', [('u', 3, 'em')], '3em'),
        ('width', [('k', 'auto')], 'auto'),
        ('width', [('sum',)], 'calc(1px + 2em)'),
        ('width', [('v',)], 'a var(--b, 1)'),
        ('width', [('p', 'width', 'inherit')], 'inherit'),
        ('width', [('p', 'height', '10px')], ValueError),
        ('width', [('int',)], TypeError),
        ('width', [('none',)], TypeError),
        ('width', [('s', '10px'), ('obj',)], TypeError),
        ('display', [('s', 'block')], 'block'),
        ('Display', [('k', 'none')], 'none'),
        ('display', [('p', 'width', 'auto')], ValueError),
        ('--c', [('s', '10px')], '10px'),
        ('--c', [('v',)], 'a var(--b, 1)'),
        ('--C', [('s', 'var(--c)')], 'var(--c)'),
        ('--C', [('p', '--c', '10px')], ValueError),
        ('opacity', [('u', 0.5, 'number')], '0.5'),
        ('opacity', [('u', 50, 'percent')], '50%'),
        ('background-image', [('url', 'x.png')], 'url("x.png")'),
        ('background-image', [('url', 'x.png'), ('url', 'y.png')],
         'url("x.png"), url("y.png")'),
        ('background-image', [('s', 'url(z)'), ('url', 'y')],
         'url("z"), url("y")'),
        ('background-image', [('v',), ('url', 'y')], TypeError)]


class MapHistory(Machine):
    """StylePropertyMap over a live declaration block."""
    name = 'style property map'

    def configs(self):
        return [(), (('width', 'auto'), ('--c', '10px'))]

    def fresh(self, config):
        decl = CSSStyleDeclaration()
        for n, v in config:
            decl.set_property(n, v)
        return ((decl, StylePropertyMap(decl), StylePropertyMapReadOnly(decl)),
                dict(config))

    def menu(self, model):
        ops = [('set', i) for i in range(len(SETS))]
        ops += [('item', i) for i in range(len(SETS)) if len(SETS[i][1]) == 1
                and i % 3 == 0]
        ops += [('delete', n) for n in NAMES + ['WIDTH', 'missing']]
        ops += [('del', 'width'), ('del', 'Display'), ('pop', '--c'),
                ('pop', 'missing'), ('popd', 'missing'),
                ('decl', 'width', '10px'), ('decl', 'display', 'block'),
                ('declremove', 'width'), ('declremove', '--c'), ('clear',)]
        return ops

    def low(self, n):
        return n if n.startswith('--') else n.lower()

    def apply(self, sut, op):
        decl, m, _ = sut
        if op[0] in ('set', 'item'):
            name, values, _ = SETS[op[1]]
            values = [make(v) for v in values]
            before = [v.tostring() for v in values
                      if isinstance(v, CSSStyleValue)]
            if op[0] == 'set':
                r = outcome(lambda: m.set(name, *values))
            else:
                def assign():
                    m[name] = values[0]
                r = outcome(assign)
            expect_eq([v.tostring() for v in values
                       if isinstance(v, CSSStyleValue)], before,
                      'values given to set()')
            return r
        if op[0] == 'delete':
            return outcome(lambda: m.delete(op[1]))
        if op[0] == 'del':
            # (deleting what is not there is silent or a KeyError)
            r = outcome(lambda: m.__delitem__(op[1]))
            return ('ok', None) if r == ('exc', 'KeyError') else r
        if op[0] == 'pop':
            return outcome(lambda: [descr(v) for v in m.pop(op[1])])
        if op[0] == 'popd':
            return outcome(lambda: m.pop(op[1], 'default'))
        if op[0] == 'decl':
            return outcome(lambda: decl.set_property(op[1], op[2]))
        if op[0] == 'declremove':
            decl.remove_property(op[1])
            return ('ok', None)
        return outcome(lambda: m.clear())

    def model_apply(self, model, op):
        if op[0] in ('set', 'item'):
            name, values, want = SETS[op[1]]
            if not isinstance(want, str):
                return ('exc', want.__name__)
            n = self.low(name)
            model[n] = want
            return ('ok', None)
        if op[0] in ('delete', 'del', 'declremove'):
            model.pop(self.low(op[1]), None)
            return ('ok', None)
        if op[0] == 'pop':
            if op[1] not in model:
                return ('exc', 'KeyError')
            return ('ok', expected(op[1], model.pop(op[1])))
        if op[0] == 'popd':
            return ('ok', 'default')
        if op[0] == 'decl':
            model[op[1]] = op[2]
            return ('ok', None)
        model.clear()
        return ('ok', None)

    def observe(self, sut):
        decl, m, ro = sut
        out = []
        for mp in (m, ro):
            one = {}
            for n in NAMES + ['WIDTH', 'Opacity', 'missing']:
                all_ = outcome(lambda: [descr(v) for v in mp.get_all(n)])
                item = outcome(lambda: [descr(v) for v in mp[n]])
                one[n] = (mp.has(n), n in mp, all_,
                          outcome(lambda: descr(mp.get(n))), item)
            out.append((one, len(mp), mp.size, sorted(mp), sorted(mp.keys()),
                        sorted((k, [descr(v) for v in vs])
                               for k, vs in mp.items())))
        out.append({n: decl.get_property_value(n) for n in NAMES})
        return out

    def model_observe(self, model):
        one = {}
        for n in NAMES + ['WIDTH', 'Opacity', 'missing']:
            k = self.low(n)
            if k in model:
                e = expected(k, model[k])
                one[n] = (True, True, ('ok', e), ('ok', e[0]), ('ok', e))
            else:
                one[n] = (False, False, ('ok', []), ('ok', None),
                          ('exc', 'KeyError'))
        view = (one, len(model), len(model), sorted(model), sorted(model),
                sorted((k, expected(k, v)) for k, v in model.items()))
        return [view, view, {n: model.get(n, '') for n in NAMES}]

    def key(self, model, obs):
        return repr(sorted(model.items()))


def check(run):
    formatter.precision = 6
    atoms = list(seqs(ATOMS, 4 if run.thorough else 3))
    base = list(seqs(ATOMS, 2))
    groups = [wrap(a, *w) for w in WRAPS for a in base]
    mixed = [p for a in ATOMS[1:6] for g in groups[:None]
             for p in seqs([a, g], 2) if g[0] in p[0]]
    nested = [wrap(g, *w) for w in WRAPS for g in groups]
    if run.thorough:
        nested += [wrap(g, *w) for w in WRAPS for g in mixed]
    cases = {c[0]: c for c in atoms + groups + mixed + nested}
    run.cases('variable references', list(cases.values()), case_unparsed,
              bound='all sequences of up to %d pieces of %d, in up to two '
              'nested blocks, functions and fallbacks'
              % (4 if run.thorough else 3, len(ATOMS)), min_outcomes=2)
    m = UnparsedList()
    m.depth = 3 if run.thorough else 2
    run.histories(m, bound='all list operations to depth %d' % m.depth)
    cases = list(reify_cases())
    run.cases('values of properties', cases, case_reify,
              bound='%d pairs of a property and a value' % len(cases),
              min_outcomes=2)
    items = [('url(a)', 'CSSURLImageValue', 'a'),
             ('url("b c")', 'CSSURLImageValue', 'b c'),
             ('none', 'CSSKeywordValue', 'none'),
             ('foo', 'CSSKeywordValue', 'foo')]
    lists = [(n, c) for n in LISTED for k in (1, 2, 3)
             for c in itertools.product(items, repeat=k)
             if n == 'background-image' or all(x[0] in ('foo', 'none')
                                               for x in c)]
    run.cases('lists', lists, case_list, bound='%d lists' % len(lists),
              min_outcomes=3)
    run.cases('registered custom properties', REGISTERED, case_registered,
              bound='%d syntaxes and values' % len(REGISTERED),
              min_outcomes=4)
    run.cases('keywords and urls',
              [('keyword', k) for k in ('a', 'auto', 'x-y')]
              + [('url', u) for u in ('a', 'b.png', '#id', 'http://a/b?c=d')],
              case_keyword, bound='7 values', min_outcomes=2)
    m = MapHistory()
    m.depth = 3 if run.thorough else 2
    run.histories(m, bound='all histories of %d operations to depth %d'
                  % (len(m.menu({})), m.depth))
