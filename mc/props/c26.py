"""C26: the OpenType features of computed styles."""
from svgpy import SVGParser
from svgpy.opentype import features_from_style

from mc.engine import expect_eq, product

SVG = 'http://www.w3.org/2000/svg'
PARSER = SVGParser()

LIG = ('liga', 'clig', 'dlig', 'hlig', 'calt')
CAPS = {'small-caps': 'smcp', 'all-small-caps': 'c2sc smcp',
        'petite-caps': 'pcap', 'all-petite-caps': 'c2pc pcap',
        'unicase': 'unic', 'titling-caps': 'titl'}
# property -> axes; each axis: keyword -> features
AXES = {
    'font-variant-ligatures': [
        {'common-ligatures': {'liga': 1, 'clig': 1},
         'no-common-ligatures': {'liga': 0, 'clig': 0}},
        {'discretionary-ligatures': {'dlig': 1},
         'no-discretionary-ligatures': {'dlig': 0}},
        {'historical-ligatures': {'hlig': 1},
         'no-historical-ligatures': {'hlig': 0}},
        {'contextual': {'calt': 1}, 'no-contextual': {'calt': 0}}],
    'font-variant-numeric': [
        {'lining-nums': {'lnum': 1}, 'oldstyle-nums': {'onum': 1}},
        {'proportional-nums': {'pnum': 1}, 'tabular-nums': {'tnum': 1}},
        {'diagonal-fractions': {'frac': 1}, 'stacked-fractions': {'afrc': 1}},
        {'ordinal': {'ordn': 1}}, {'slashed-zero': {'zero': 1}}],
    'font-variant-east-asian': [
        {'jis78': {'jp78': 1}, 'jis83': {'jp83': 1}, 'jis90': {'jp90': 1},
         'jis04': {'jp04': 1}, 'simplified': {'smpl': 1},
         'traditional': {'trad': 1}},
        {'full-width': {'fwid': 1}, 'proportional-width': {'pwid': 1}},
        {'ruby': {'ruby': 1}}],
    'font-variant-alternates': [{'historical-forms': {'hist': 1}}],
    'font-variant-caps': [{k: {f: 1 for f in v.split()}
                           for k, v in CAPS.items()}],
    'font-variant-position': [{'sub': {'subs': 1}, 'super': {'sups': 1}}],
}
KERNING = {'auto': {}, 'normal': {'kern': 1, 'vkrn': 1},
           'none': {'kern': 0, 'vkrn': 0}}
SETTINGS = {'normal': {}, '"liga"': {'liga': 1}, '"liga" 0': {'liga': 0},
            "'smcp' off, 'kern' on": {'smcp': 0, 'kern': 1},
            '"kern" 0, "zero" 3,"hist" 0': {'kern': 0, 'zero': 3, 'hist': 0},
            '"liga" 1, "liga" off': {'liga': 0},
            '"ss01" 2': {'ss01': 2}, '"LIGA" 7': {'LIGA': 7},
            '"frac", "jp78" 0': {'frac': 1, 'jp78': 0}}


def values(name):
    """All values of a longhand: (value, features)."""
    out = [('', {})]
    for axis in AXES[name]:
        new = []
        for value, features in out:
            new.append((value, features))
            for word, f in axis.items():
                new.append(((value + ' ' + word).strip(),
                            dict(features, **f)))
        out = new
    out[0] = ('normal', {})
    if name == 'font-variant-ligatures':
        out.append(('none', {t: 0 for t in LIG}))
    return out


def features_of(element):
    style = element.get_computed_style()
    before = repr(style)
    features = features_from_style(style)
    expect_eq(repr(style), before, 'computed style')
    out = {}
    for f in features:
        tag, value = f.split('=')
        expect_eq(tag in out, False, 'repeated feature ' + tag)
        out[tag] = int(value)
    return out


def document(*levels):
    """A chain of elements with a list of declarations each."""
    attrs = []
    for how, decls in levels:
        if how == 'style':
            attrs.append(' style=\'%s\'' % ';'.join(
                '%s:%s' % (n, v.replace("'", '"')) for n, v in decls))
        else:
            attrs.append(''.join(' %s=\'%s\'' % (n, v.replace("'", '"'))
                                 for n, v in decls))
    text = '<svg xmlns="%s"><g%s><text%s>a<tspan%s>b</tspan></text></g></svg>'
    return PARSER.fromstring(text % ((SVG,) + tuple(attrs)))


def case_longhand(case, ctx):
    name, (value, want), how = case
    svg = document((how, [(name, value)]), ('', []), ('', []))
    expect_eq(features_of(svg[0][0]), want, 'features of the text')
    expect_eq(features_of(svg[0][0][0]), want, 'features of the tspan')
    ctx.outcome(len(want))


def case_order(case, ctx):
    """Keywords in any order, in the longhand or the shorthand."""
    name, words, shorthand = case
    want = {}
    for axis in AXES[name]:
        for w, f in axis.items():
            if w in words:
                want.update(f)
    svg = document(('', []), ('', [('font-variant' if shorthand else name,
                                    ' '.join(words))]), ('', []))
    expect_eq(features_of(svg[0][0]), want, 'features')
    ctx.outcome(len(want))


def case_shorthand(case, ctx):
    """One keyword of every property in one shorthand value."""
    want = {}
    words = []
    for value, f in case:
        if value != 'normal':
            words.append(value)
            want.update(f)
    svg = document(('', []), ('', [('font-variant', ' '.join(words)
                                    or 'normal')]), ('', []))
    expect_eq(features_of(svg[0][0]), want, 'features')
    ctx.outcome(len(want))


def case_override(case, ctx):
    """font-feature-settings override the other properties."""
    settings, kerning, (name, (value, features)), split = case
    want = dict(KERNING[kerning])
    want.update(features)
    want.update(SETTINGS[settings])
    decls = [('font-feature-settings', settings), ('font-kerning', kerning),
             (name, value)]
    if split:
        svg = document(('', decls[:1]), ('style', decls[1:2]),
                       ('', decls[2:]))
    else:
        svg = document(('', []), ('', []), ('style', decls))
    expect_eq(features_of(svg[0][0][0]), want, 'features')
    ctx.outcome(len(want))


LEVELS = [None, ('font-variant', 'normal'), ('font-variant', 'none'),
          ('font-variant', 'small-caps ordinal ruby'),
          ('font-variant', 'no-contextual super'),
          ('font-variant-caps', 'unicase'), ('font-variant-caps', 'normal'),
          ('font-variant-numeric', 'tabular-nums'),
          ('font-variant-numeric', 'normal'),
          ('font-variant-ligatures', 'none'),
          ('font-variant-ligatures', 'contextual'),
          ('font-variant-east-asian', 'jis04'),
          ('font-variant-position', 'sub'),
          ('font-feature-settings', '"smcp" 0'),
          ('font-feature-settings', 'normal'),
          ('font-kerning', 'none'), ('font-kerning', 'auto')]


def case_cascade(case, ctx):
    """Longhands and shorthands on a text and its ancestors."""
    style = {}
    for how, decl in case:
        if decl is None:
            continue
        name, value = decl
        if name == 'font-variant':
            for n in AXES:
                words = [w for w in value.split()
                         if any(w in axis for axis in AXES[n])]
                style[n] = ' '.join(words) or 'normal'
            if value == 'none':
                style['font-variant-ligatures'] = 'none'
        else:
            style[name] = value
    want = {}
    for name, value in style.items():
        if name in AXES:
            if value == 'none':
                want.update({t: 0 for t in LIG})
            for axis in AXES[name]:
                for w, f in axis.items():
                    if w in value.split():
                        want.update(f)
        elif name == 'font-kerning':
            want.update(KERNING[value])
    if style.get('font-feature-settings', 'normal') != 'normal':
        want['smcp'] = 0
    svg = document(*[(how, [decl] if decl else []) for how, decl in case])
    expect_eq(features_of(svg[0][0][0]), want, 'features')
    ctx.outcome(len(want))


def check(run):
    t = run.thorough
    run.cases('longhands', [(n, v, h) for n in AXES for v in values(n)
                            for h in ('', 'style')], case_longhand,
              bound='all values of 6 properties', min_outcomes=4)
    orders = []
    for n, axes in AXES.items():
        words = [w for axis in axes for w in axis]
        for a in words:
            for b in words:
                if not any(a in axis and b in axis for axis in axes):
                    for s in (False, True):
                        orders.append((n, (a, b), s))
                        for c in words if t else ():
                            if not any(c in axis and (a in axis or b in axis)
                                       for axis in axes):
                                orders.append((n, (a, b, c), s))
    run.cases('order of keywords', orders, case_order,
              bound='pairs (triples) of keywords in any order',
              min_outcomes=2)
    few = []
    for n in AXES:
        v = values(n)
        v = [x for x in v if x[0] != 'none' and ' ' not in x[0]]
        few.append(v if t else v[:2] + v[-1:] if len(v) > 2 else v)
    run.cases('shorthand', product(*few), case_shorthand,
              bound='combinations of keywords of all 6 properties',
              min_outcomes=4)
    singles = [(n, v) for n in AXES for v in values(n)
               if ' ' not in v[0]]
    run.cases('settings', product(SETTINGS, KERNING,
                                  singles if t else singles[::2],
                                  (False, True)), case_override,
              bound='9 font-feature-settings, 3 font-kerning, 35 keywords',
              min_outcomes=4)
    hows = ('', 'style')
    levels = product(hows, LEVELS)
    one = [('', x) for x in LEVELS]
    run.cases('cascade', product(levels if t else one, one,
                                 levels if t else
                                 [('style', x) for x in LEVELS[::2]]),
              case_cascade, bound='declarations on 3 elements',
              min_outcomes=4)
