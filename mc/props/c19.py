"""C19: viewports, viewBox, preserveAspectRatio and CTMs.

Reference model: a chain of (tag, attributes) from the outermost svg to a
leaf; matrices are 6-tuples computed with the SVG 2 equivalent transform.
"""
import math

from svgpy import SVGParser, SVGPreserveAspectRatio, Window, formatter
from svgpy.window import SVGDOMImplementation

from mc.engine import Machine, close, expect, expect_eq, outcome, product

SCREEN = (1280., 720.)
ALIGNS = ['none'] + ['x%sY%s' % (a, b) for b in ('Min', 'Mid', 'Max')
                     for a in ('Min', 'Mid', 'Max')]
IDENT = (1., 0., 0., 1., 0., 0.)


def mul(p, q):
    a, b, c, d, e, f = p
    g, h, i, j, k, m = q
    return (a * g + c * h, b * g + d * h, a * i + c * j, b * i + d * j,
            a * k + c * m + e, b * k + d * m + f)


TRANSFORMS = {
    None: IDENT, '': IDENT,
    'translate(10 20)': (1, 0, 0, 1, 10, 20),
    'scale(2,3)': (2, 0, 0, 3, 0, 0),
    'rotate(90)': (0, 1, -1, 0, 0, 0),
    'scale(2) translate(1,5)': (2, 0, 0, 2, 2, 10),
    'matrix(1 2 3 4 5 6)': (1, 2, 3, 4, 5, 6),
}


def num(text, size):
    if text.endswith('%'):
        return float(text[:-1]) / 100 * size
    if text.endswith('mm'):
        return float(text[:-2]) * 96 / 25.4
    if text.endswith('px'):
        return float(text[:-2])
    if text.endswith('em'):
        return float(text[:-2]) * 16
    return float(text)


def parse_vb(text):
    if text is None:
        return None
    v = tuple(float(x) for x in text.replace(',', ' ').split())
    return v


def parse_par(text):
    align, mos = 'xMidYMid', 'meet'
    items = (text or '').split()
    if items and items[0] in ALIGNS:
        align = items[0]
    if len(items) > 1 and items[1] in ('meet', 'slice'):
        mos = items[1]
    return align, mos


def equivalent(vb, par, x, y, w, h):
    """The equivalent transform of an SVG viewport."""
    if vb is None:
        return (1, 0, 0, 1, x, y)
    vx, vy, vw, vh = vb
    align, mos = parse_par(par)
    sx, sy = w / vw, h / vh
    if align != 'none':
        sx = sy = min(sx, sy) if mos == 'meet' else max(sx, sy)
    tx, ty = x - vx * sx, y - vy * sy
    if 'xMid' in align:
        tx += (w - vw * sx) / 2
    if 'xMax' in align:
        tx += w - vw * sx
    if 'YMid' in align:
        ty += (h - vh * sy) / 2
    if 'YMax' in align:
        ty += h - vh * sy
    return (sx, 0, 0, sy, tx, ty)


class Model(object):
    """chain: [(tag, attrs), ...], win: initial viewport."""

    def __init__(self, chain, win=SCREEN):
        self.chain = chain
        self.win = win

    def parent_svg(self, i):
        for k in range(i - 1, -1, -1):
            if self.chain[k][0] == 'svg':
                return k
        return None

    def user_size(self, i):
        """Size percentages inside svg i refer to."""
        if i is None:
            return self.win
        vb = parse_vb(self.chain[i][1].get('viewBox'))
        if vb is not None:
            return vb[2:]
        return self.viewport(i)[2:]

    def viewport(self, i):
        a = self.chain[i][1]
        rw, rh = self.user_size(self.parent_svg(i))

        def size(n, r):
            t = a.get(n, 'auto')
            return r if t == 'auto' else num(t, r)
        return (num(a.get('x', '0'), rw), num(a.get('y', '0'), rh),
                size('width', rw), size('height', rh))

    def vtm(self, i):
        a = self.chain[i][1]
        return equivalent(parse_vb(a.get('viewBox')),
                          a.get('preserveAspectRatio'), *self.viewport(i))

    def matrix(self, i):
        tag, a = self.chain[i]
        return self.vtm(i) if tag == 'svg' else TRANSFORMS[a.get('transform')]

    def ctm(self, i):
        m = self.matrix(i)
        k = i
        while k > 0:
            if k != i and self.chain[k][0] == 'svg':
                break
            k -= 1
            m = mul(self.matrix(k), m)
        return m

    def screen(self, i, scale=1, translate=(0, 0)):
        m = (scale, 0, 0, scale) + tuple(translate)
        for k in range(i + 1):
            m = mul(m, self.matrix(k))
        return m


def six(m):
    return m.a, m.b, m.c, m.d, m.e, m.f


def expect_matrix(got, want, what):
    expect(got.is2d, what + ': is2d')
    got = six(got)
    expect(all(close(p, q, 1e-7) for p, q in zip(got, want)), what, want, got)


def build(chain):
    formatter.precision = 6
    parser = SVGParser()
    root = e = None
    els = []
    for tag, attrs in chain:
        e = parser.create_element(tag) if e is None \
            else e.create_sub_element(tag)
        for k, v in attrs.items():
            if v is not None:
                e.set(k, v)
        if root is None:
            root = e
        els.append(e)
    return els


def verify(els, model, scale=1, translate=(0, 0)):
    chain = model.chain
    for i, e in enumerate(els):
        what = '%d:%s ' % (i, chain[i][0])
        expect_matrix(e.get_ctm(), model.ctm(i), what + 'get_ctm')
        expect_matrix(e.get_screen_ctm(), model.screen(i, scale, translate),
                      what + 'get_screen_ctm')
        k = i if chain[i][0] == 'svg' else model.parent_svg(i)
        got = tuple(v.value() for v in e.get_viewport_size())
        want = model.viewport(k)
        expect(all(close(p, q, 1e-7) for p, q in zip(got, want)),
               what + 'get_viewport_size', want, got)
        vb = parse_vb(chain[k][1].get('viewBox'))
        if vb is not None:
            got = e.get_view_box()
            expect(all(close(p.value(), q) for p, q in zip(got, vb)),
                   what + 'get_view_box', vb, got)
            align, mos = parse_par(chain[k][1].get('preserveAspectRatio'))
            expect_eq((got[4].align, got[4].meet_or_slice),
                      (ALIGNS.index(align) + 1, 1 if mos == 'meet' else 2),
                      what + 'preserveAspectRatio')
        else:
            expect(e.get_view_box(recursive=False) is None,
                   what + 'get_view_box without viewBox')
        if chain[i][0] == 'svg':
            g = e.get_computed_geometry()
            want = model.viewport(i)
            expect(all(close(g[n], v, 1e-7) for n, v in zip(
                ('x', 'y', 'width', 'height'), want)), what + 'geometry',
                want, g)
        if chain[i][0] == 'rect':
            w, h = model.user_size(k)
            g = e.get_computed_geometry()
            a = chain[i][1]
            want = [num(a.get(n, '0'), s) for n, s in (
                ('x', w), ('y', h), ('width', w), ('height', h))]
            expect(all(close(g[n], v, 1e-7) for n, v in zip(
                ('x', 'y', 'width', 'height'), want)), what + 'geometry',
                want, g)
        # relations between elements
        expect(e.get_farthest_svg_element() is els[0], what + 'farthest svg')
        expect(e.get_farthest_viewport_element() is els[0],
               what + 'farthest viewport')
        expect(e.get_nearest_svg_element() is els[k], what + 'nearest svg')
        expect(e.get_nearest_viewport_element() is els[k],
               what + 'nearest viewport')
        p = model.parent_svg(i)
        want = None if p is None else els[p]
        expect(e.owner_svg_element is want, what + 'owner_svg_element', want,
               e.owner_svg_element)
        expect(e.viewport_element is want, what + 'viewport_element', want,
               e.viewport_element)


def single_case(case, ctx):
    attrs = dict(case)
    chain = [('svg', attrs), ('g', {'transform': 'translate(10 20)'}),
             ('rect', {'x': '25%', 'width': '50%', 'height': '10%',
                       'transform': 'rotate(90)'})]
    els = build(chain)
    model = Model(chain)
    verify(els, model)
    m = els[0].get_viewport_transformation_matrix()
    expect_matrix(m, model.vtm(0), 'viewport transformation')
    vb = parse_vb(attrs.get('viewBox'))
    if vb is not None:
        # the viewBox centre maps to the viewport centre for xMidYMid
        align, mos = parse_par(attrs.get('preserveAspectRatio'))
        x, y, w, h = model.viewport(0)
        p1 = m.transform_point(vb[0], vb[1])
        p2 = m.transform_point(vb[0] + vb[2], vb[1] + vb[3])
        bw, bh = p2[0] - p1[0], p2[1] - p1[1]
        inside = bw <= w * (1 + 1e-9) and bh <= h * (1 + 1e-9)
        if align == 'none':
            expect(close(bw, w) and close(bh, h), 'none fills the viewport')
        elif mos == 'meet':
            expect(inside and (close(bw, w) or close(bh, h)),
                   'meet fits the viewport')
        else:
            expect(bw >= w * (1 - 1e-9) and bh >= h * (1 - 1e-9)
                   and (close(bw, w) or close(bh, h)),
                   'slice covers the viewport')
        ctx.outcome((align, mos))
    else:
        ctx.outcome('no viewBox')
    ctx.step(12)


def chain_case(case, ctx):
    els = build(case)
    verify(els, Model(case))
    ctx.step(6 * len(case))
    ctx.outcome(tuple(t for t, _ in case))


def percent_case(case, ctx):
    els = build(case)
    model = Model(case)
    got = tuple(v.value() for v in els[1].get_viewport_size())
    want = model.viewport(1)
    expect(all(close(p, q, 1e-7) for p, q in zip(got, want)),
           'get_viewport_size', want, got)


def par_case(case, ctx):
    text, align, mos = case
    formatter.precision = 6
    p = SVGPreserveAspectRatio(text)
    ctx.step(4)
    want = ALIGNS.index(align) + 1, {'meet': 1, 'slice': 2}[mos]
    expect_eq((p.align, p.meet_or_slice), want, 'parse')
    expect_eq(SVGPreserveAspectRatio.parse(text), want, 'static parse')
    s = p.tostring()
    if align != 'xMinYMid':
        expect_eq(s, 'none' if align == 'none' else align + ' ' + mos,
                  'tostring')
    q = SVGPreserveAspectRatio(s)
    if align != 'none':
        expect(p == q and not (p != q), 'round trip')
    else:
        expect_eq(q.align, 1, 'round trip')
    r = SVGPreserveAspectRatio()
    expect_eq((r.align, r.meet_or_slice), (6, 1), 'default')
    r.align, r.meet_or_slice = want
    expect(r == p, 'setters')
    expect_eq(r.tostring(), s, 'tostring after setters')
    e = SVGParser().create_element('svg')
    e.set('preserveAspectRatio', text)
    expect(e.preserve_aspect_ratio == p, 'preserve_aspect_ratio')
    e.remove_attribute('preserveAspectRatio')
    e2 = e.preserve_aspect_ratio
    expect_eq((e2.align, e2.meet_or_slice), (6, 1), 'missing attribute')
    ctx.outcome((align, mos))


def spelling_case(case, ctx):
    """serialised alignment keywords are those of SVG 2."""
    align, mos = case
    p = SVGPreserveAspectRatio(align + ' ' + mos)
    expect_eq(p.tostring(), align + ' ' + mos, 'tostring')
    ctx.outcome(align)


def viewbox_case(case, ctx):
    text, want = case
    e = build([('svg', {'viewBox': text, 'width': '100', 'height': '50'}),
               ('rect', {})])
    ctx.step(3)
    got = e[0].view_box
    if want is None:
        expect(got is None, 'viewBox is ignored', None, got)
        expect(e[1].get_view_box() is None, 'get_view_box')
        expect_matrix(e[1].get_ctm(), IDENT, 'get_ctm')
        expect_matrix(e[1].get_screen_ctm(), IDENT, 'get_screen_ctm')
        ctx.outcome('ignored')
        return
    expect(all(close(p.value(), q) for p, q in zip(got, want))
           and len(got) == 4, 'viewBox', want, got)
    expect_matrix(e[1].get_ctm(),
                  equivalent(want, None, 0, 0, 100, 50), 'get_ctm')
    ctx.outcome('used')


_WIN = {}


def window_case(case, ctx):
    """The initial viewport is the window of the element's document."""
    (w, h), attrs, sub, order = case
    if 'w' not in _WIN:
        _WIN['w'] = Window(SVGDOMImplementation())
    win = _WIN['w']
    win.inner_width, win.inner_height = SCREEN
    root = win.document.document_element
    for c in list(root):
        root.remove(c)
    for k in list(root.attributes):
        root.attributes.pop(k)
    if order == 'before':
        win.inner_width, win.inner_height = w, h
    chain = [('svg', dict(attrs)), ('svg', dict(sub)),
             ('rect', {'x': '10%', 'width': '50%', 'height': '20%'})]
    root.attributes.update(dict(attrs))
    s = root.create_sub_element('svg')
    s.attributes.update(dict(sub))
    r = s.create_sub_element('rect')
    r.attributes.update(chain[2][1])
    if order == 'after':
        r.get_screen_ctm()
        win.inner_width, win.inner_height = w, h
    verify([root, s, r], Model(chain, (w, h)))
    ctx.step(10)
    ctx.outcome((w, h))


# ---- histories --------------------------------------------------------------

class Edits(Machine):
    """Attribute edits, zooming and panning on a fixed nested document."""
    name = 'ctm-edits'
    depth = 3
    unmerged = 2
    observe_each_step = True

    BASE = [('svg', {'width': '400', 'height': '200'}),
            ('g', {'transform': 'translate(10 20)'}),
            ('svg', {'x': '10', 'width': '50', 'height': '30'}),
            ('g', {}), ('rect', {'x': '10%', 'width': '50%'})]
    MENU = [('set', 0, 'viewBox', '0 0 100 100'), ('set', 0, 'viewBox', None),
            ('set', 0, 'preserveAspectRatio', 'xMaxYMin slice'),
            ('set', 0, 'width', '50%'), ('set', 0, 'height', None),
            ('set', 1, 'transform', 'scale(2,3)'),
            ('set', 1, 'transform', None),
            ('set', 2, 'viewBox', '5,5,20,10'), ('set', 2, 'width', '2em'),
            ('set', 2, 'y', '5mm'), ('set', 2, 'preserveAspectRatio', 'none'),
            ('set', 3, 'transform', 'rotate(90)'),
            ('set', 4, 'transform', 'matrix(1 2 3 4 5 6)'),
            ('scale', 0, 2), ('scale', 2, 3), ('scale', 0, .5),
            ('translate', 0, (5, -6)), ('translate', 2, (1, 1)),
            ('zoom', 0, 2), ('zoom', 0, 1), ('zoom', 0, 7), ('zoom', 2, 2)]

    def fresh(self, config):
        chain = [(t, dict(a)) for t, a in self.BASE]
        return build(chain), self.fresh_model(config)

    def fresh_model(self, config):
        return {'chain': [(t, dict(a)) for t, a in self.BASE], 'scale': 1,
                'translate': (0, 0), 'zoom': {0: 1, 2: 1}}

    def menu(self, model):
        return self.MENU

    def apply(self, els, op):
        k, i, v = op[0], op[1], op[-1]
        e = els[i]
        if k == 'set':
            if v is None:
                e.attributes.pop(op[2], None)
            else:
                e.set(op[2], v)
        elif k == 'scale':
            e.current_scale = v
        elif k == 'translate':
            e.current_translate = v
        else:
            e.zoom_and_pan = v

    def model_apply(self, m, op):
        k, i, v = op[0], op[1], op[-1]
        if k == 'set':
            if v is None:
                m['chain'][i][1].pop(op[2], None)
            else:
                m['chain'][i][1][op[2]] = v
        elif k == 'scale' and i == 0:
            m['scale'] = v
        elif k == 'translate' and i == 0:
            m['translate'] = v
        elif k == 'zoom' and v in (1, 2):
            m['zoom'][i] = v

    def observe(self, els):
        return [els, (els[0].current_scale, tuple(els[0].current_translate),
                      els[2].current_scale, tuple(els[2].current_translate),
                      els[0].zoom_and_pan, els[2].zoom_and_pan,
                      els[0].get('zoomAndPan') in
                      (None, ('disable', 'magnify')[els[0].zoom_and_pan - 1])
                      )]

    def model_observe(self, m):
        return [m, (m['scale'], m['translate'], 1, (0, 0), m['zoom'][0],
                    m['zoom'][2], True)]

    def same(self, obs, want):
        if obs is None or want is None:
            return obs is want
        if obs[1] != want[1]:
            return False
        m = want[0]
        verify(obs[0], Model(m['chain']), m['scale'], m['translate'])
        return True

    def key(self, model, obs):
        return repr((model['chain'], model['scale'], model['translate'],
                     model['zoom']))


def detached_case(case, ctx):
    parser = SVGParser()
    e = parser.create_element('g')
    r = e.create_sub_element(case)
    for n in (e, r):
        expect(n.owner_svg_element is None, 'owner_svg_element')
        expect(n.viewport_element is None, 'viewport_element')
        expect(n.get_farthest_svg_element() is None, 'farthest')
        expect(n.get_nearest_svg_element() is None, 'nearest')
        expect(n.get_view_box() is None, 'view box')
    ctx.outcome(case)


def check(run):
    ws = ['', ' ', '\n']
    pars = [(pre + a + post, a, 'meet') for a in ALIGNS
            for pre in ws for post in ws]
    pars += [(pre + a + mid + m + post, a, m) for a in ALIGNS
             for m in ('meet', 'slice') for mid in (' ', '  ', '\t')
             for pre in ws for post in ws]
    pars += [('', 'xMidYMid', 'meet'), ('slice', 'xMidYMid', 'meet'),
             ('foo', 'xMidYMid', 'meet'), ('XMIDYMIN', 'xMidYMid', 'meet'),
             ('xMaxYMax foo', 'xMaxYMax', 'meet')]
    run.cases('preserve-aspect-ratio', pars, par_case,
              '10 alignments x meet/slice x white space', min_outcomes=15)
    run.cases('alignment-keywords', product(ALIGNS[1:], ['meet', 'slice']),
              spelling_case, '9 alignments x meet/slice')
    vbs = [(s.join(t), tuple(float(x) for x in t)) for s in
           (' ', ',', ', ', ' ,', ' , ', '\n') for t in
           (('0', '0', '10', '20'), ('-5', '2.5', '1e2', '.5'),
            ('1', '1', '100', '100'))]
    vbs += [(' ' + a + '\n', b) for a, b in vbs[:3]]
    vbs += [(t, None) for t in ('', ' ', '0', '0 0', '0 0 10', 'none',
                                '0 0 10 -5', '0 0 -5 10', '0 0 a b', 'auto',
                                '0 0 0 10', '0 0 10 0', '0 0 10 20 30')]
    run.cases('viewbox', vbs, viewbox_case, 'viewBox spellings',
              min_outcomes=2)
    parts = [' '.join([a, m]) for a in ALIGNS for m in ('meet', 'slice')]
    parts += [None, 'xMaxYMid', 'none']
    sizes = ['auto', '100', '40', '50%', '10mm', '2em']
    if run.thorough:
        sizes += ['100%', '30px', '0.5']
    singles = [(('width', w), ('height', h), ('viewBox', vb),
                ('preserveAspectRatio', p))
               for w in sizes for h in sizes
               for vb in ('0 0 100 100', '-10 5 30 80', '4,4,64,36')
               for p in parts
               if run.thorough or w == '100' or (w, h) in (
                   ('auto', 'auto'), ('auto', '40'), ('50%', '2em'),
                   ('40', '50%'))]
    singles += [(('width', w), ('height', h), ('viewBox', None))
                for w in sizes for h in sizes]
    run.cases('single-viewport', singles, single_case,
              'sizes x viewBoxes x alignments', min_outcomes=20)
    outer = [{}, {'width': '400', 'height': '200'},
             {'width': '400', 'height': '200', 'viewBox': '0 0 40 80'},
             {'viewBox': '10 10 100 50', 'preserveAspectRatio':
              'xMinYMax slice'}]
    inner = [{}, {'x': '30', 'y': '5mm', 'width': '50%', 'height': '20'},
             {'x': '10%', 'y': '20%', 'width': '25%', 'height': '10%'},
             {'x': '7', 'width': '60', 'height': '60',
              'viewBox': '-5 -5 10 20'},
             {'y': '50%', 'viewBox': '0 0 8 4',
              'preserveAspectRatio': 'none'},
             {'width': '50%', 'viewBox': '1 2 30 40',
              'preserveAspectRatio': 'xMaxYMin slice'}]
    gs = [None, 'translate(10 20)', 'scale(2) translate(1,5)',
          'matrix(1 2 3 4 5 6)']
    leaf = ('rect', {'x': '10%', 'y': '5', 'width': '50%', 'height': '20%',
                     'transform': 'rotate(90)'})
    absolute = [{'width': '30', 'height': '1em'},
                {'x': '30', 'y': '5mm', 'width': '50', 'height': '20px'},
                {'x': '7', 'width': '60', 'height': '60',
                 'viewBox': '-5 -5 10 20'},
                {'y': '-5', 'width': '10mm', 'height': '40', 'viewBox':
                 '0 0 8 4', 'preserveAspectRatio': 'none'},
                {'width': '50', 'height': '90', 'viewBox': '1 2 30 40',
                 'preserveAspectRatio': 'xMaxYMin slice'}]
    chains = []

    def inside(o):
        return absolute if 'viewBox' in o else inner
    for o in outer:
        for i in inside(o):
            for g in gs:
                for g2 in (None, 'scale(2,3)'):
                    chains.append([('svg', o), ('g', {'transform': g}),
                                   ('svg', i), ('g', {'transform': g2}),
                                   leaf])
            chains.append([('svg', o), ('svg', i), leaf])
            chains.append([('svg', o), ('g', {'transform': gs[1]}),
                           ('g', {'transform': gs[2]}), ('svg', i), leaf])
    deep = []
    for o in outer:
        for i in inside(o):
            for j in inside(i):
                for g in gs[:2] if not run.thorough else gs:
                    deep.append([('svg', o), ('svg', i),
                                 ('g', {'transform': g}), ('svg', j), leaf])
    run.cases('nested-viewports', chains + deep, chain_case,
              '4 outer x 5-6 inner (x 5-6) viewports x group transforms',
              min_outcomes=3)
    # refer to the viewport instead of the viewBox (see known findings)
    run.cases('nested-percentages', [
        [('svg', outer[2]), ('svg', i)] for i in
        [{'width': '50%', 'height': '8'}, {'width': '8', 'height': '50%'},
         {'x': '50%', 'width': '8', 'height': '8'},
         {'y': '50%', 'width': '8', 'height': '8'}, {}]], percent_case,
        '5 nested viewports with relative sizes')
    wins = [(w, h) for w in (100, 640, 1000) for h in (50, 480)]
    run.cases('window-viewport', [
        (wh, a, b, order) for wh in wins
        for a in ((), (('width', '50%'), ('viewBox', '0 0 10 10')),
                  (('height', '40'),))
        for b in (((), (('width', '50%'), ('viewBox', '0 0 5 10')),
                   (('x', '10%'), ('height', '25%'))) if len(a) < 2 else
                  ((('width', '5'), ('height', '1')),))
        for order in ('before', 'after')], window_case,
        '6 window sizes set before or after building', min_outcomes=6)
    e = Edits()
    if not run.thorough:
        e.depth = 2
    run.histories(e, '22 edits of attributes, zoom and pan, depth %d'
                  % e.depth)
    run.cases('detached', ['rect', 'g', 'use', 'text'], detached_case)
