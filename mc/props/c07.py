"""C07: media query lists, against an independent evaluator.

Left out: features svgpy does not describe, and 'not <type> and (...)', whose
result is pinned by the test suite (see DESIGN.md).
"""
import itertools
import re
from fractions import Fraction

from svgpy import Window
from svgpy.window import SVGDOMImplementation

from mc.engine import Machine, expect_eq, product, sequences

BASE = dict(media='screen', w=1280, h=720, sw=1280, sh=720, angle=0, depth=24,
            mono=0, dpr=1, zoom=1, scan='progressive', update='none',
            gamut='srgb', root=None)
TYPES = ('all', 'print', 'screen', 'speech', 'tv')


def configure(win, env):
    s = win.screen
    s.media = env['media']
    s.width, s.height = env['sw'], env['sh']
    s.orientation.angle = env['angle']
    s.color_depth = env['depth']
    s.monochrome = env['mono']
    s.device_pixel_ratio = env['dpr']
    s.scan = env['scan']
    s.update = env['update']
    s.color_gamut = env['gamut']
    win.inner_width, win.inner_height = env['w'], env['h']
    win.page_zoom_scale = env['zoom']
    root = win.document.document_element
    for name, v in zip(('width', 'height'), env['root'] or (None, None)):
        if root is not None:
            if v is not None:
                root.set(name, v)
            elif name in root.attrib:
                del root.attrib[name]


_WIN = {}


def window():
    if 'w' not in _WIN:
        _WIN['w'] = Window(SVGDOMImplementation())
    return _WIN['w']


# -- the reference evaluator ----------------------------------------------
PX = {'px': Fraction(1), 'in': Fraction(96), 'cm': Fraction(9600, 254),
      'mm': Fraction(960, 254), 'pt': Fraction(96, 72), 'pc': Fraction(16),
      'q': Fraction(960, 1016), 'em': Fraction(16)}
DPPX = {'dppx': Fraction(1), 'dpi': Fraction(1, 96),
        'dpcm': Fraction(254, 9600)}


def env_value(name, env):
    if name in ('width', 'height'):
        i = name == 'height'
        v = env['w' if not i else 'h']
        if env['root'] is not None and env['root'][i] is not None:
            r = env['root'][i]
            if r.endswith('%'):
                return Fraction(r[:-1]) * v / 100
            return Fraction(r)
        return Fraction(v)
    if name == 'aspect-ratio':
        return (env_value('width', env), env_value('height', env))
    if name == 'device-width':
        return Fraction(env['sw'])
    if name == 'device-height':
        return Fraction(env['sh'])
    if name == 'device-aspect-ratio':
        return (Fraction(env['sw']), Fraction(env['sh']))
    if name == 'resolution':
        return Fraction(str(env['dpr'])) * Fraction(str(env['zoom']))
    if name == 'color':
        return Fraction(env['depth'])
    if name == 'color-index':
        return Fraction(1 << env['depth'])
    if name == 'monochrome':
        return Fraction(env['mono'])
    if name == 'grid':
        return Fraction(0)
    if name == 'scan':
        return env['scan']
    if name == 'update':
        return env['update']
    if name == 'color-gamut':
        return env['gamut']
    if name == 'orientation':
        wide = env['sw'] > env['sh']
        return 'landscape' if wide == (env['angle'] in (0, 180)) \
            else 'portrait'
    raise AssertionError(name)


def query_value(name, text):
    if name in ('width', 'height', 'device-width', 'device-height'):
        m = re.fullmatch(r'([-+.\d]+)([a-z]+)', text)
        return Fraction(m.group(1)) * PX[m.group(2)]
    if name in ('aspect-ratio', 'device-aspect-ratio'):
        a, _, b = text.partition('/')
        return (Fraction(a.strip()), Fraction(b.strip() or 1))
    if name == 'resolution':
        m = re.fullmatch(r'([-+.\d]+)([a-z]+)', text)
        return Fraction(m.group(1)) * DPPX[m.group(2)]
    if name in ('color', 'color-index', 'monochrome', 'grid'):
        return Fraction(text)
    return text


def compare(a, op, b):
    if isinstance(a, tuple):
        a, b = a[0] * b[1], b[0] * a[1]
    if isinstance(a, str):
        return op == '=' and a == b
    if op != '=' or a != b:
        near = abs(a - b) < Fraction(1, 10 ** 6) * max(1, abs(a))
        if near and a != b:
            a = b
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
            '=': a == b}[op]


DISCRETE = ('orientation', 'scan', 'grid', 'update', 'color-gamut')


def feature(text, env):
    """text: the inside of one pair of parentheses."""
    text = text.strip()
    if ':' in text:
        name, value = [x.strip() for x in text.split(':')]
        op = '='
        if name[:4] in ('min-', 'max-'):
            op = '>=' if name[:4] == 'min-' else '<='
            name = name[4:]
            if name in DISCRETE:
                return False
        return compare(env_value(name, env), op, query_value(name, value))
    parts = [x.strip() for x in re.split(r'(<=|>=|<|>)', text)]
    if len(parts) == 1:
        v = env_value(text, env)
        if text == 'update':
            return v != 'none'
        if text in ('color', 'color-index', 'monochrome', 'grid'):
            return v > 0
        return True
    name = [p for p in parts[::2] if not re.match(r'[-+.\d]', p)][0]
    vals = [env_value(name, env) if p == name else query_value(name, p)
            for p in parts[::2]]
    return all(compare(a, op, b) for a, op, b
               in zip(vals, parts[1::2], vals[1:]))


class Bad(Exception):
    pass


def evaluate(query, env):
    """Value of one media query (no commas); None: not covered."""
    toks = []
    for m in re.finditer(r'\(|\)|[^\s()]+', query.lower()):
        toks.append((m.group(), m.start(), m.end()))
    q = query.lower()
    pos = [0]

    def peek(k=0):
        return toks[pos[0] + k][0] if pos[0] + k < len(toks) else None

    def take(word=None):
        t = peek()
        if t is None or (word is not None and t != word):
            raise Bad()
        pos[0] += 1
        return t

    def in_parens():
        start = pos[0]
        take('(')
        if peek() == '(' or (peek() == 'not' and peek(1) == '('):
            v = condition()
            take(')')
            return v
        while peek() not in ('(', ')', None):
            take()
        if pos[0] == start + 1:
            raise Bad()
        end = toks[pos[0]][1] if peek() else None
        take(')')
        return feature(q[toks[start][2]:end], env)

    def condition(allow_or=True):
        if peek() == 'not':
            take()
            return not in_parens()
        v = in_parens()
        op = None
        while peek() in ('and', 'or'):
            o = take()
            if op not in (None, o) or (o == 'or' and not allow_or):
                raise Bad()
            op = o
            w = in_parens()
            v = (v and w) if o == 'and' else (v or w)
        return v

    try:
        if peek() == '(' or (peek() == 'not' and peek(1) == '('):
            v = condition()
        else:
            prefix = take() if peek() in ('not', 'only') else None
            t = take()
            if t in ('and', 'or', 'not', 'only', '(', ')'):
                raise Bad()
            v = t == 'all' or t == env['media']
            if peek() == 'and':
                take()
                w = condition(False)
                if pos[0] == len(toks) and prefix == 'not':
                    return None
                v = v and w
            if prefix == 'not':
                v = not v
        if pos[0] != len(toks):
            raise Bad()
        return v
    except Bad:
        return False


def evaluate_list(query, env):
    if not query.strip():
        return True
    vals = [evaluate(x, env) for x in query.split(',')]
    if any(v is True for v in vals):
        return True
    return None if None in vals else False


# -- spaces ---------------------------------------------------------------
def one(query, env, ctx):
    want = evaluate_list(query, env)
    if want is None:
        ctx.outcome('not covered')
        return
    win = window()
    configure(win, env)
    mql = win.match_media(query)
    expect_eq(mql.matches, want, '%r in %r' % (
        query, {k: v for k, v in env.items() if v != BASE[k]}))
    expect_eq(mql.media, query, 'MediaQueryList.media')
    ctx.outcome(want)


TOKENS = ['(color)', '(grid)', 'and', 'or', 'not', '(', ')', 'screen',
          'print', 'only']


def token_case(case, ctx):
    if any(a == '(' and b in ('screen', 'print', 'only', 'and', 'or', ')')
           or a == '(' and b == 'not' and c not in ('(', '(color)', '(grid)')
           for a, b, c in zip(case, case[1:] + ('',), case[2:] + ('', ''))):
        ctx.outcome('unknown feature')
        return
    one(' '.join(case), BASE, ctx)


ATOMS = ['(color)', '(grid)', '(width > 600px)']


def trees(n, depth):
    """All condition texts with n atoms and nesting up to depth."""
    if n == 1:
        base = list(ATOMS)
    else:
        base = []
        if depth:
            for k in range(2, n + 1):
                for sizes in itertools.product(range(1, n), repeat=k):
                    if sum(sizes) != n:
                        continue
                    subs = [parens(s, depth - 1) for s in sizes]
                    for combo in itertools.product(*subs):
                        for op in (' and ', ' or '):
                            base.append(op.join(combo))
    return base


def parens(n, depth):
    out = []
    if n == 1:
        out += ATOMS
        if depth:
            out += ['(not %s)' % a for a in ATOMS] + \
                ['(%s)' % a for a in ATOMS[:1]]
    else:
        for t in trees(n, depth):
            out += ['(%s)' % t, '(not (%s))' % t]
    return out


def tree_texts(n, depth):
    out = []
    for t in trees(n, depth):
        out += [t, 'not (%s)' % t]
        if ' or ' not in strip_parens(t):
            out += ['screen and ' + t, 'only print and ' + t]
        out.append('screen and (%s)' % t)
    return out


def strip_parens(t):
    while True:
        n = re.sub(r'\([^()]*\)', '', t)
        if n == t:
            return t
        t = n


def tree_case(case, ctx):
    text, width = case
    env = dict(BASE, w=width)
    one(text, env, ctx)


FEATURES = {
    'width': (('w', (0, 96, 600, 601)), ('root', (None, ('300', None),
                                                  ('50%', '50%'))),
              ['96px', '1in', '2.54cm', '72pt', '600px', '300px', '37.5em',
               '-1px', '25.4mm', '6pc', '101.6q', '.5in', '48px']),
    'height': (('h', (0, 96, 600)), ('root', (None, (None, '300'),
                                              ('50%', '50%'))),
               ['96px', '1in', '600px', '300px', '150pt', '48px']),
    'aspect-ratio': (('w', (1280, 1281, 960)), ('h', (720, 960, 0)),
                     ['16/9', '4/3', '1/1', '1', '1.3', '32 / 18', '1/0']),
    'device-aspect-ratio': (('sw', (1280, 960)), ('sh', (720, 960)),
                            ['16/9', '4/3', '1/1', '32/18']),
    'device-width': (('sw', (1280, 96)), ('w', (1280, 96)),
                     ['1280px', '1in', '97px']),
    'device-height': (('sh', (720, 96)), ('h', (720, 96)),
                      ['720px', '1in', '95px']),
    'resolution': (('dpr', (1, 2, 0.5)), ('zoom', (1, 2)),
                   ['1dppx', '96dpi', '2dppx', '192dpi', '.5dppx', '-1dpi',
                    '100dpcm', '38dpcm']),
    'color': (('depth', (0, 8, 24)), ('media', ('screen',)),
              ['0', '1', '8', '24']),
    'color-index': (('depth', (0, 8, 24)), ('media', ('screen',)),
                    ['0', '1', '2', '256', '255']),
    'monochrome': (('mono', (0, 1, 8)), ('depth', (24, 0)),
                   ['0', '1', '8']),
    'grid': (('media', ('screen',)), ('w', (100,)), ['0', '1']),
    'scan': (('scan', ('progressive', 'interlace')), ('w', (9,)),
             ['progressive', 'interlace']),
    'update': (('update', ('none', 'slow', 'fast')), ('w', (9,)),
               ['none', 'slow', 'fast']),
    'color-gamut': (('gamut', ('srgb', 'p3', 'rec2020')), ('w', (9,)),
                    ['srgb', 'p3', 'rec2020']),
    'orientation': (('angle', (0, 90, 180, 270)), ('sw', (1280, 500)),
                    ['portrait', 'landscape']),
}


def feature_cases(thorough):
    out = []
    for name, (d1, d2, values) in FEATURES.items():
        texts = ['(%s)' % name, '( %s )' % name, 'not (%s)' % name]
        for v in values:
            for t in ('({}:{})', '( {} :\n{} )', '(min-{}: {})',
                      '(max-{}: {})', 'not (min-{}:{})'):
                texts.append(t.format(name, v))
        if name not in DISCRETE:
            for v in values:
                for op in ('<', '<=', '>', '>='):
                    texts += ['(%s %s %s)' % (name, op, v),
                              '(%s%s%s)' % (v, op, name)]
            for a, b in itertools.product(values, repeat=2):
                for o1, o2 in (('<', '<'), ('<=', '<'), ('<', '<='),
                               ('<=', '<='), ('>', '>'), ('>=', '>'),
                               ('>', '>='), ('>=', '>=')):
                    texts.append('(%s %s %s %s %s)' % (a, o1, name, o2, b))
        for v1 in d1[1]:
            for v2 in d2[1]:
                for t in texts:
                    out.append((t, ((d1[0], v1), (d2[0], v2))))
    return out


def feature_case(case, ctx):
    text, diff = case
    one(text, dict(BASE, **dict(diff)), ctx)


QUERIES = ['screen', 'PRINT', 'not screen', 'only Screen and (color)', '',
           'bad (', '(Width >= 600PX)', 'tv and (color) and (grid)',
           '(color) and (color) or (color)', '\tall\n', 'not all',
           'all and (not (color))', 'and', 'unknown', 'not unknown',
           '(max-width:600px)\tAND\n(color)']


def list_case(case, ctx):
    text, media, width = case
    one(text, dict(BASE, media=media, w=width), ctx)


LIVE = ['(min-width: 600px)', '(orientation: portrait)', 'print',
        '(color) and (resolution >= 2dppx)', 'not (update: fast)',
        '(device-width < 1000px), (monochrome)', '(aspect-ratio: 1/1)']
CHANGES = [('w', 500), ('w', 720), ('media', 'print'), ('angle', 90),
           ('sw', 600), ('depth', 0), ('mono', 1), ('dpr', 2), ('zoom', 2),
           ('update', 'fast'), ('root', ('720', None)), ('h', 1280)]


class Live(Machine):
    """Query lists created once stay right while the environment changes."""
    name = 'live MediaQueryList objects'

    def __init__(self, depth):
        self.depth = depth
        self.unmerged = depth

    def fresh(self, config):
        win = Window(SVGDOMImplementation())
        configure(win, BASE)
        return (win, [win.match_media(q) for q in LIVE], dict(BASE)), \
            dict(BASE)

    def fresh_model(self, config):
        return dict(BASE)

    def menu(self, m):
        return CHANGES

    def model_apply(self, m, op):
        m[op[0]] = op[1]

    def apply(self, sut, op):
        win, mqls, env = sut
        k, v = op
        env[k] = v
        s = win.screen
        if k == 'w':
            win.inner_width = v
        elif k == 'h':
            win.inner_height = v
        elif k == 'media':
            s.media = v
        elif k == 'angle':
            s.orientation.angle = v
        elif k == 'sw':
            s.width = v
        elif k == 'depth':
            s.color_depth = v
        elif k == 'mono':
            s.monochrome = v
        elif k == 'dpr':
            s.device_pixel_ratio = v
        elif k == 'zoom':
            win.page_zoom_scale = v
        elif k == 'update':
            s.update = v
        elif k == 'root':
            win.document.document_element.set('width', v[0])

    def observe(self, sut):
        return [m.matches for m in sut[1]]

    def model_observe(self, m):
        return [evaluate_list(q, m) for q in LIVE]


def check(run):
    n = 6 if run.thorough else 5
    run.cases('token sequences', sequences(TOKENS, 1, n), token_case,
              bound='all sequences of <= %d of %d tokens' % (n, len(TOKENS)),
              min_outcomes=3)
    texts = []
    for k, d in ((1, 2), (2, 3), (3, 3)) + (((4, 3),) if run.thorough
                                           else ()):
        texts += tree_texts(k, d)
    run.cases('condition trees', [(t, w) for t in texts for w in (600, 601)],
              tree_case, bound='all and/or/not trees with <= %d of 3 atoms'
              % (4 if run.thorough else 3), min_outcomes=2)
    run.cases('features', feature_cases(run.thorough), feature_case,
              bound='15 features x all values, min-/max-, one- and two-sided '
                    'ranges x the environments that matter', min_outcomes=2)
    lists = [', '.join(t) for t in sequences(QUERIES, 1, 2)] + \
        [','.join(t) for t in sequences(QUERIES[:9], 3, 3)]
    run.cases('query lists', product(lists, ('screen', 'print', 'tv'),
                                     (500, 700)), list_case,
              bound='lists of <= 2 of 16 and of 3 of 9 queries',
              min_outcomes=2)
    run.histories(Live(4 if run.thorough else 3),
                  bound='7 held query lists under all sequences of 12 '
                        'environment changes')
