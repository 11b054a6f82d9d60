"""C05: shorthand and longhand properties of a declaration block.

The font-* properties reset by 'font' without being part of it and the mix of
mask with mask-border in one block are left out (see DESIGN.md).
"""
import itertools

from lxml import etree
from svgpy import SVGParser
from svgpy.css import CSSParser, CSSStyleDeclaration

from mc.engine import Machine, Mismatch, expect, expect_eq, product

SVG = 'http://www.w3.org/2000/svg'
WIDE = ('inherit', 'initial', 'unset', 'revert')

VARIANT = ('font-variant-ligatures', 'font-variant-caps',
           'font-variant-alternates', 'font-variant-numeric',
           'font-variant-east-asian', 'font-variant-position')
LONG = {
    'font': ('font-style', 'font-variant', 'font-weight', 'font-stretch',
             'font-size', 'line-height', 'font-family'),
    'font-variant': VARIANT,
    'font-synthesis': ('font-synthesis-weight', 'font-synthesis-style'),
    'mask': ('mask-image', 'mask-position', 'mask-size', 'mask-repeat',
             'mask-origin', 'mask-clip', 'mask-composite', 'mask-mode'),
    'mask-border': ('mask-border-source', 'mask-border-slice',
                    'mask-border-width', 'mask-border-outset',
                    'mask-border-repeat', 'mask-border-mode'),
    'overflow': ('overflow-x', 'overflow-y'),
    'text-decoration': ('text-decoration-line', 'text-decoration-style',
                        'text-decoration-color'),
    'white-space': ('text-space-collapse', 'text-wrap', 'text-space-trim'),
}
WS = {'normal': ('collapse', 'wrap', 'none'),
      'pre': ('preserve', 'nowrap', 'none'),
      'nowrap': ('collapse', 'nowrap', 'none'),
      'pre-wrap': ('preserve', 'wrap', 'none'),
      'pre-line': ('preserve-breaks', 'wrap', 'none')}
FS = {'none': ('none', 'none'), 'weight': ('auto', 'none'),
      'style': ('none', 'auto'), 'weight style': ('auto', 'auto')}


def leaves(name):
    out = []
    for n in LONG[name]:
        out += leaves(n) if n in LONG else [n]
    return out


def prio_of(name, d):
    ps = [prio_of(n, d) if n in LONG else d[n][1]
          for n in LONG[name] if n in LONG or n in d]
    return ps[0] if ps and all(p == ps[0] for p in ps) else ''


def short(name, d):
    """Value of a shorthand for declarations d; '' if it has none."""
    if any(n not in d for n in leaves(name)):
        return ''
    if len({d[n][1] for n in leaves(name)}) > 1:
        return ''
    v = [short(n, d) if n in LONG else d[n][0] for n in LONG[name]]
    if '' in v:
        return ''
    if any(x in WIDE for x in v) and len(set(v)) == 1:
        return v[0]
    wide = [x for x in v if x in WIDE]
    if name in ('mask', 'mask-border', 'text-decoration'):
        wide = [x for x in wide if x != 'initial']
    if wide:
        return ''
    if name == 'font':
        style, var, weight, stretch, size, lh, family = v
        if var not in ('normal', 'small-caps') or '%' in stretch:
            return ''
        out = [x for x in (style, var, weight, stretch) if x != 'normal']
        if lh != 'normal':
            out.append(size + '/' + lh)
        elif size != 'medium':
            out.append(size)
        return ' '.join(out + [family])
    if name == 'font-variant':
        if v[0] == 'none':
            return 'none' if set(v[1:]) == {'normal'} else ''
        return ' '.join(x for x in v if x != 'normal') or 'normal'
    if name == 'font-synthesis':
        return {b: a for a, b in FS.items()}.get(tuple(v), '')
    if name == 'white-space':
        return {b: a for a, b in WS.items()}.get(tuple(v), '')
    if name == 'overflow':
        return v[0] if v[0] == v[1] else ' '.join(v)
    if name == 'text-decoration':
        return ' '.join(x for x in v if x != 'initial')
    if name == 'mask':
        image, pos, size, repeat, origin, clip, comp, mode = v
        if pos == 'initial' and size != 'initial':
            return ''
        if (origin == 'initial') != (clip == 'initial') and clip != 'no-clip':
            return ''       # one box would set both
        out = [image, pos] + (['/', size] if size != 'initial' else [])
        out += [repeat, origin] + ([clip] if clip != origin else [])
        return ' '.join(x for x in out + [comp, mode] if x != 'initial')
    if name == 'mask-border':
        src, sl, wi, ou, rep, mode = v
        if sl == 'initial' and wi != 'initial':
            return ''
        if 'initial' in (sl, wi) and ou != 'initial':
            return ''
        out = [src, sl] + (['/', wi] if wi != 'initial' else [])
        out += (['/', ou] if ou != 'initial' else []) + [rep, mode]
        return ' '.join(x for x in out if x != 'initial')
    raise AssertionError(name)


def text_of(d):
    """Declarations listed by the style attribute: shorthands where possible."""
    done = set()
    out = {}
    for name in ('font', 'font-variant', 'font-synthesis', 'mask',
                 'mask-border', 'overflow', 'text-decoration', 'white-space'):
        v = short(name, d)
        if v and not set(leaves(name)) <= done:
            out[name] = v
            done |= set(leaves(name))
    for n, (v, _) in d.items():
        if n not in done:
            out[n] = v
    return out


def text(d):
    items = sorted('%s: %s;' % i for i in text_of(d).items())
    return ' '.join(items) if items else None


# -- single values ----------------------------------------------------------
def options(name):
    """Longhand values a shorthand value is built from (None: omitted)."""
    if name == 'font':
        return [('normal', 'italic', 'oblique 25deg'),
                ('normal', 'small-caps'),
                ('normal', 'bold', '753', 'lighter'),
                ('normal', 'condensed', 'ultra-expanded'),
                ('12pt', '120%', 'x-large', '1.5em'),
                ('normal', '14pt', '110%'),
                ('fantasy', '"A B", serif', 'x, monospace')]
    if name == 'font-variant':
        return [('normal', 'no-common-ligatures',
                 'common-ligatures contextual'),
                ('normal', 'small-caps', 'titling-caps'),
                ('normal', 'historical-forms', 'swash(a)'),
                ('normal', 'lining-nums', 'oldstyle-nums ordinal'),
                ('normal', 'ruby', 'jis78 full-width'),
                ('normal', 'sub', 'super')]
    if name == 'mask':
        return [('initial', 'none', 'url("#m")'),
                ('initial', '0px 0%', 'center'),
                ('initial', 'auto', '50% auto', 'cover'),
                ('initial', 'repeat-x', 'round space'),
                ('initial', 'border-box', 'view-box'),
                ('initial', 'padding-box', 'no-clip'),
                ('initial', 'add', 'exclude'),
                ('initial', 'alpha', 'match-source')]
    if name == 'mask-border':
        return [('initial', 'none', 'linear-gradient(red, blue)'),
                ('initial', '30', '10% 20 fill'),
                ('initial', '5px', 'auto 3'),
                ('initial', '2px', '1 2px'),
                ('initial', 'round', 'stretch space'),
                ('initial', 'luminance', 'alpha')]
    if name == 'text-decoration':
        return [('initial', 'underline', 'overline line-through', 'none'),
                ('initial', 'dotted', 'wavy'),
                ('initial', 'navy', 'currentcolor', '#0f0')]
    raise AssertionError(name)


def in_words(name, v):
    """Shorthand value spelled out of longhand values, as words."""
    if name == 'font':
        return [x for x in v[:4] if x != 'normal'] + [
            v[4] + ('' if v[5] == 'normal' else '/' + v[5]) + ' ' + v[6]]
    if name == 'mask':
        if v[1] == 'initial' and v[2] != 'initial':
            return None
        pos = v[1] + (' / ' + v[2] if v[2] != 'initial' else '')
        return [x for x in [v[0], pos] + list(v[3:]) if x != 'initial']
    if name == 'mask-border':
        if v[1] == 'initial' and v[2:4] != ('initial', 'initial'):
            return None
        if v[2] == 'initial' and v[3] != 'initial':
            return None
        sl = v[1]
        for x in v[2:4]:
            sl += ' / ' + x if x != 'initial' else ''
        return [x for x in (v[0], sl, v[4], v[5]) if x != 'initial']
    return [x for x in v if x not in ('normal', 'initial')]


def fresh(kind):
    if kind == 'free':
        return None, CSSStyleDeclaration()
    e = SVGParser().create_element_ns(SVG, 'text')
    return e, e.style


def check_block(e, s, d, names, where=''):
    got = {n: s.get_property_value(n) for n in names}
    want = {n: short(n, d) if n in LONG else d.get(n, ('', ''))[0]
            for n in names}
    expect_eq(got, want, 'values' + where)
    got = {n: s.get_property_priority(n) for n in names}
    want = {n: prio_of(n, d) if n in LONG else d.get(n, ('', ''))[1]
            for n in names}
    expect_eq(got, want, 'priorities' + where)
    expect_eq(len(s), len(d), 'number of longhands' + where)
    expect_eq(dict(s.items()), dict(d), 'declarations' + where)
    if e is not None:
        expect_eq(e.get('style'), text(d), 'style attribute' + where)


def expand(name, v):
    """Leaf declarations of shorthand component values."""
    out = {}
    for n, x in zip(LONG[name], v):
        if n == 'font-variant':
            out.update({m: 'normal' for m in VARIANT})
            out['font-variant-caps'] = x
        else:
            out[n] = x
    return out


def value_case(case, ctx):
    name, v, order, prio = case
    words = in_words(name, v)
    if words is None or not words:
        return
    v = list(v)
    if name == 'mask' and v[5] == 'initial':
        v[5] = v[4]
    if name == 'mask' and v[4] == 'initial' and v[5] not in (
            'initial', 'no-clip'):
        v[4] = v[5]     # one box sets both
    if order == 'reversed':
        if name in ('font',):
            words = words[:-1][::-1] + words[-1:]
        else:
            words = words[::-1]
        if name == 'mask' and v[4] != v[5] and v[5] not in ('no-clip',):
            v[4], v[5] = v[5], v[4]
    elif order == 'rotated':
        head = words[:-1] if name == 'font' else words
        head = head[1:] + head[:1]
        words = head + (words[-1:] if name == 'font' else [])
        if name == 'mask' and v[4] != v[5] and v[5] not in (
                'no-clip',) and words[-1] == v[4]:
            v[4], v[5] = v[5], v[4]
    d = {n: (x, prio) for n, x in expand(name, v).items()}
    text_in = ' '.join(words)
    for kind in ('inline', 'free'):
        e, s = fresh(kind)
        s.set_property(name, text_in, prio)
        check_block(e, s, d, [name] + leaves(name), ' (%s)' % kind)
        out = s.get_property_value(name)
        e, t = fresh(kind)
        t.set_property(name, out, prio)
        check_block(e, t, d, [name] + leaves(name), ' (set again)')
        e, t = fresh(kind)
        for n in reversed(leaves(name)):
            t.set_property(n, d[n][0], prio)
        check_block(e, t, d, [name] + leaves(name), ' (by longhand)')
    e, s = fresh('inline')
    e.set('style', '%s: %s%s' % (name, text_in,
                                 ' !important' if prio else ''))
    expect_eq(dict(s.items()), d, 'declarations of a style attribute')
    rule = CSSParser.fromstring('a{%s:%s%s}' % (
        name.upper(), text_in, '!important' if prio else ''))[0].style
    check_block(None, rule, d, [name] + leaves(name), ' (rule)')
    ctx.outcome(short(name, d) == '')


def keyword_case(case, ctx):
    name, value, prio, before = case
    if value.lower() in WIDE:
        vals = {n: value.lower() for n in leaves(name)}
    elif name == 'white-space':
        vals = dict(zip(LONG[name], WS[value]))
    elif name == 'font-synthesis':
        vals = dict(zip(LONG[name], FS[' '.join(sorted(
            value.split(), reverse=True))]))
    elif name == 'font-variant':
        vals = {n: 'normal' for n in VARIANT}
        if value == 'none':
            vals['font-variant-ligatures'] = 'none'
    else:
        w = value.split()
        vals = {'overflow-x': w[0], 'overflow-y': w[-1]}
    for kind in ('inline', 'free'):
        e, s = fresh(kind)
        d = {}
        if before:
            n = leaves(name)[-1]
            s.set_property(n, 'inherit')
            s.set_property('fill', 'red')
            d['fill'] = ('red', '')
        s.set_property(name, value, prio)
        d.update({n: (x, prio) for n, x in vals.items()})
        check_block(e, s, d, [name, 'fill'] + leaves(name), ' ' + kind)
        expect_eq(s.remove_property(name), short(name, d), 'old value')
        d = {'fill': ('red', '')} if before else {}
        check_block(e, s, d, [name, 'fill'] + leaves(name), ' removed')
    ctx.outcome(name)


def invalid_case(case, ctx):
    value, before = case
    for kind in ('inline', 'free'):
        e, s = fresh(kind)
        d = {}
        if before:
            s.set_property('overflow', 'clip auto')
            d = {'overflow-x': ('clip', ''), 'overflow-y': ('auto', '')}
        s.set_property('overflow', value)
        check_block(e, s, d, ['overflow', 'overflow-x', 'overflow-y'])
    ctx.outcome(before)


def mixed_case(case, ctx):
    name, value, kw, order, before, prio = case
    text = {'after': value + ' ' + kw, 'before': kw + ' ' + value,
            'comma': value + ', ' + kw, 'twice': kw + ' ' + kw,
            'solidus': value + '/' + kw}[order]
    for kind in ('inline', 'free'):
        e, s = fresh(kind)
        if before:
            s.set_property(name, before)
        was = observe_block(e, s, name)
        s.set_property(name, text, prio)
        expect_eq(observe_block(e, s, name), was, f'{kind}: {name}: {text}')
    ctx.outcome((name, order, bool(before)))


def observe_block(e, s, name):
    names = [name] + list(LONG[name])
    return (list(s), [(n, s.get_property_value(n), s.get_property_priority(n))
                      for n in names],
            e.get('style') if e is not None else None)


# -- histories --------------------------------------------------------------
SETS = {    # shorthand value -> components
    'font': {'12pt/14pt fantasy': ('normal', 'normal', 'normal', 'normal',
                                   '12pt', '14pt', 'fantasy'),
             'small-caps bold 120% x, serif': (
                 'normal', 'small-caps', 'bold', 'normal', '120%', 'normal',
                 'x, serif'),
             'inherit': None},
    'font-variant': {'small-caps ruby': ('normal', 'small-caps', 'normal',
                                         'normal', 'ruby', 'normal'),
                     'none': ('none',) + ('normal',) * 5, 'unset': None},
    'font-synthesis': dict(FS, inherit=None),
    'mask': {'url("#m") 0px 0% / 50% auto': (
        'url("#m")', '0px 0%', '50% auto') + ('initial',) * 5,
        'none border-box no-clip': ('none', 'initial', 'initial', 'initial',
                                    'border-box', 'no-clip', 'initial',
                                    'initial'), 'initial': None},
    'mask-border': {'none 30 / 5px / 2px round': (
        'none', '30', '5px', '2px', 'round', 'initial'),
        'luminance': ('initial',) * 5 + ('luminance',), 'inherit': None},
    'overflow': {'clip': ('clip', 'clip'), 'clip auto': ('clip', 'auto'),
                 'inherit': None},
    'text-decoration': {'underline dotted': ('underline', 'dotted',
                                             'initial'),
                        'navy': ('initial', 'initial', 'navy'),
                        'inherit': None},
    'white-space': dict(WS, initial=None),
}
LONGSETS = {
    'font': [('font-style', 'italic'), ('font-stretch', '75%'),
             ('font-stretch', 'condensed'), ('line-height', 'normal'),
             ('font-size', 'inherit'), ('font-family', 'fantasy'),
             ('font-variant-caps', 'small-caps'),
             ('font-variant-numeric', 'ordinal')],
    'font-variant': [('font-variant-caps', 'normal'),
                     ('font-variant-ligatures', 'none'),
                     ('font-variant-position', 'sub'),
                     ('font-variant-east-asian', 'unset')],
    'font-synthesis': [('font-synthesis-weight', 'auto'),
                       ('font-synthesis-style', 'none'),
                       ('font-synthesis-style', 'inherit')],
    'mask': [('mask-position', 'initial'), ('mask-size', 'initial'),
             ('mask-size', 'cover'), ('mask-clip', 'border-box'),
             ('mask-origin', 'border-box'), ('mask-mode', 'inherit')],
    'mask-border': [('mask-border-slice', 'initial'),
                    ('mask-border-width', 'initial'),
                    ('mask-border-outset', '3px'),
                    ('mask-border-mode', 'inherit')],
    'overflow': [('overflow-x', 'auto'), ('overflow-y', 'clip'),
                 ('overflow-y', 'inherit')],
    'text-decoration': [('text-decoration-line', 'none'),
                        ('text-decoration-color', 'navy'),
                        ('text-decoration-style', 'inherit')],
    'white-space': [('text-wrap', 'wrap'), ('text-wrap', 'balance'),
                    ('text-space-collapse', 'preserve'),
                    ('text-space-trim', 'none')],
}


class M(object):
    def __init__(self):
        self.d = {}
        self.ops = 0


class Shorthands(Machine):
    observe_each_step = True

    def __init__(self, group, names, kind, menu, depth, unmerged=None):
        self.name = '%s-%s' % (group, kind)
        self.names = names
        self.kind = kind
        self._menu = menu
        self.depth = depth
        self.unmerged = unmerged

    def configs(self):
        return [None]

    def fresh(self, config):
        return list(fresh(self.kind)), M()

    def fresh_model(self, config):
        return M()

    def menu(self, m):
        # the attribute has no priorities: read it back only without any
        return [op for op in self._menu if op[0] != 'reparse'
                or all(p == '' for _, p in m.d.values())]

    def model_apply(self, m, op):
        m.ops += 1
        k, a = op[0], op[1:]
        d = m.d
        if k == 'set':
            name, value, prio = a
            if prio is None:
                prio = prio_of(name, d) if name in LONG else d.get(
                    name, ('', ''))[1]
            if name in LONG:
                v = SETS[name][value]
                vals = expand(name, v) if v else {n: value
                                                  for n in leaves(name)}
            else:
                vals = {name: value}
            for n in vals:
                d.pop(n, None)
            d.update({n: (x, prio) for n, x in vals.items()})
            return None
        if k == 'remove':
            old = short(a[0], d) if a[0] in LONG else d.get(
                a[0], ('', ''))[0]
            for n in leaves(a[0]) if a[0] in LONG else [a[0]]:
                d.pop(n, None)
            return old
        if k == 'reparse':
            for n in d:
                d[n] = (d[n][0], '')
            return None

    def apply(self, sut, op):
        k, a = op[0], op[1:]
        if k == 'set':
            return sut[1].set_property(*a)
        if k == 'remove':
            return sut[1].remove_property(a[0])
        if k == 'reparse':
            e = SVGParser().fromstring(etree.tostring(sut[0]).decode())
            sut[:] = [e, e.style]

    def observe(self, sut):
        e, s = sut
        keys = list(s)
        expect_eq(len(s), len(keys), 'len')
        return (sorted(s.items()),
                [s.get_property_value(n) for n in self.names],
                [s.get_property_priority(n) for n in self.names],
                None if e is None else e.get('style'))

    def model_observe(self, m):
        d = m.d
        return (sorted(d.items()), [short(n, d) for n in self.names],
                [prio_of(n, d) for n in self.names],
                None if self.kind == 'free' else text(d))

    def key(self, m, obs):
        return repr((list(m.d.items()), obs))


def menu(group, kind, thorough):
    names = ['font', 'font-variant'] if group == 'font' else [group]
    ops = [('set', 'fill', 'red', None)]
    for name in names:
        vals = list(SETS[name])
        for i, v in enumerate(vals):
            ops.append(('set', name, v, None))
        ops.append(('set', name, vals[0], 'important'))
        ops.append(('remove', name))
    ls = LONGSETS[group]
    for i, (n, v) in enumerate(ls):
        ops.append(('set', n, v, None))
    ops.append(('set', ls[0][0], ls[0][1], 'important'))
    for n in sorted({n for n, _ in ls}):
        ops.append(('remove', n))
    if kind == 'inline':
        ops.append(('reparse',))
    return ops


def check(run):
    th = run.thorough
    for name in ('font', 'font-variant', 'mask', 'mask-border',
                 'text-decoration'):
        opts = options(name)
        if not th and name in ('font', 'font-variant', 'mask'):
            # pairwise-complete around the default value and around a
            # non-default value: all cases differing from it in <= 3 places
            cases = set()
            for base in ([o[0] for o in opts], [o[1] for o in opts]):
                for pos in itertools.combinations(
                        range(len(opts)), 3 if name != 'mask' else 2):
                    for vals in itertools.product(*[opts[p] for p in pos]):
                        v = list(base)
                        for p, x in zip(pos, vals):
                            v[p] = x
                        cases.add(tuple(v))
            cases = sorted(cases)
        else:
            cases = list(itertools.product(*opts))
        run.cases('values-' + name,
                  product([name], cases, ['as-is', 'reversed', 'rotated'],
                          ['', 'important']), value_case)
    cases = []
    for name in LONG:
        vals = ['inherit', 'INITIAL', 'unset', 'Revert']
        if name == 'white-space':
            vals += list(WS)
        elif name == 'font-synthesis':
            vals += list(FS) + ['style weight']
        elif name == 'font-variant':
            vals += ['normal', 'none']
        elif name == 'overflow':
            kw = ['visible', 'hidden', 'clip', 'scroll', 'auto']
            vals += kw + [' '.join(p) for p in product(kw, kw)]
        cases += product([name], vals, ['', 'important'], [False, True])
    run.cases('keywords', cases, keyword_case, min_outcomes=len(LONG))
    run.cases('invalid', product(
        ['bogus', '1px', 'clip auto scroll', 'clip, auto', '/',
         'inherit initial', 'hidden inherit', 'unset auto'],
        [False, True]), invalid_case)
    cases = []
    for name in LONG:
        vals = list(SETS[name])
        vals = [v for v in vals if v not in WIDE]
        cases += product([name], vals, ['inherit', 'INITIAL', 'unset'],
                         ['after', 'before', 'comma', 'twice', 'solidus'],
                         ['', 'inherit'] + vals[:2], ['', 'important'])
    run.cases('keyword-among-components', cases, mixed_case,
              min_outcomes=2 * len(LONG))
    for group in LONG:
        names = ['font', 'font-variant'] if group == 'font' else [group]
        for kind in ('inline', 'free'):
            small = group in ('overflow', 'font-synthesis',
                              'text-decoration', 'white-space')
            depth = (3 if small else 2) + (1 if th else 0)
            run.histories(
                Shorthands(group, names, kind,
                           menu(group, kind, th), depth, 2 if not th else 3),
                bound='depth %d' % depth)
