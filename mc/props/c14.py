"""C14: path transformation, bounding box and length."""
import math

from svgpy import DOMMatrix, PathParser, SVGPathSegment
from svgpy.path import PathSegment

from mc.engine import expect, expect_close, expect_eq, product, sequences
from mc.props.c13 import ARGS, CMDS, SMOOTH, general_ellipse, programs, \
    segments, separated_movetos, variant
from mc.ref import pathref as R

MATS = {
    'identity': (1, 0, 0, 1, 0, 0),
    'translate': (1, 0, 0, 1, 7, -4),
    'scale': (2, 0, 0, 3, 0, 0),
    'uniform': (2, 0, 0, 2, 1, 1),
    'flipx': (-1, 0, 0, 1, 3, 0),
    'flipy': (1, 0, 0, -.5, 0, 2),
    'swap': (0, 1, 1, 0, 0, 0),
    'rot30': (math.cos(math.pi / 6), .5, -.5, math.cos(math.pi / 6), 2, 3),
    'rot90': (0, 1, -1, 0, 5, 5),
    'skewx': (1, 0, .7, 1, 0, 0),
    'general': (1.5, -.5, .25, .75, -3, 8),
    'reflect': (-1.5, .5, .25, .75, -3, 8),
}


def mp(m, p):
    a, b, c, d, e, f = m
    return a * p[0] + c * p[1] + e, b * p[0] + d * p[1] + f


def transform_case(case, ctx):
    prog, name = case
    prog = [variant(*c) for c in prog]
    m = MATS[name]
    path = segments(prog)
    before = [(s.type, tuple(s.values)) for s in path]
    out = PathParser.transform(path, DOMMatrix(list(m)))
    expect_eq([(s.type, tuple(s.values)) for s in path], before,
              'transform() leaves its argument alone')
    for s in out:
        expect(s.type.isupper() and s.isvalid(), 'absolute segments', None,
               s.tostring())
    got = R.absolute([(s.type, tuple(s.values)) for s in out])
    want = R.absolute(prog)
    expect_eq([p[0] for p in got], [p[0] for p in want], 'commands')
    for g, w in zip(got, want):
        if w[0] == 'A':
            ga, wa = R.arc_params(*g[1:]), R.arc_params(*w[1:])
            if isinstance(wa, str):
                expect_eq(ga, wa, 'degenerate arc')
            else:
                for u in (0, .2, .5, .8, 1):
                    expect_close(R.arc_point(ga, u), mp(m, R.arc_point(wa, u)),
                                 'arc point at %g' % u, 1e-6)
            expect_close(g[1] + g[3], mp(m, w[1]) + mp(m, w[3]), 'arc ends',
                         1e-9)
            continue
        for p, q in zip(g[1:], w[1:]):
            expect_close(p, mp(m, q), 'point of ' + w[0], 1e-9)
    ctx.outcome(name)


def arc_transform_case(case, ctx):
    rx, ry, phi, fa, fs, x, y, name = case
    m = MATS[name]
    prog = [('M', (3, -2)), ('A', (rx, ry, phi, fa, fs, x, y))]
    out = PathParser.transform(segments(prog), DOMMatrix(list(m)))
    got = R.absolute([(s.type, tuple(s.values)) for s in out])[1]
    want = R.absolute(prog)[1]
    wa = R.arc_params(*g1(want))
    if isinstance(wa, str):
        expect_close(g1(got)[-1], mp(m, g1(want)[-1]), 'end', 1e-9)
        if got[0] == 'A':
            expect_eq(R.arc_params(*g1(got)), wa, 'degenerate arc')
        else:
            expect_eq(got[0], 'L', 'a line')
        ctx.outcome((name, wa))
        return
    ga = R.arc_params(*g1(got))
    for u in (0, .2, .5, .8, 1):
        expect_close(R.arc_point(ga, u), mp(m, R.arc_point(wa, u)),
                     'arc point at %g' % u, 1e-6)
    ctx.outcome(name)


def g1(p):
    return p[1:]


def drawn(prims):
    """First point, plus everything drawn (later undrawn movetos do not
    count)."""
    out = []
    for i, p in enumerate(prims):
        if p[0] == 'M' and i > 0:
            continue
        out.append(p)
    return out


def measure_case(case, ctx):
    prog = [variant(*c) for c in case]
    path = segments(prog)
    prims = R.absolute(prog)
    got = PathParser.get_total_length(path)
    expect_close(got, R.length(prims), 'total length', 1e-4)
    norm = PathParser.normalize(path)
    if general_ellipse(prims):
        ctx.outcome('length')
        return
    tol = 3e-3 * (1 + max([0] + [R.arc_params(*p[1:])[2] for p in prims
                                 if p[0] == 'A' and not isinstance(
                                     R.arc_params(*p[1:]), str)]))
    r = PathParser.get_bbox(norm)
    want = R.bbox(drawn(prims))
    have = (r.x, r.y, r.width, r.height)
    if any(p[0] == 'A' for p in prims):
        expect(all(abs(a - b) <= tol for a, b in zip(have, want)),
               'bounding box', want, have)
    else:
        expect_close(have, want, 'bounding box', 1e-6)
    expect_close(PathParser.get_total_length(norm), got,
                 'length of the normalised path', 5e-3)
    ctx.step(3)
    ctx.outcome('all')


def arc_length_case(case, ctx):
    rx, ry, phi, ang, dist, fa, fs = case
    t = math.radians(ang)
    prog = [('M', (3, -2)),
            ('A', (rx, ry, phi, fa, fs, 3 + dist * math.cos(t),
                   -2 + dist * math.sin(t)))]
    prims = R.absolute(prog)
    expect_close(PathParser.get_total_length(segments(prog)),
                 R.length(prims), 'arc length', 1e-5)
    ctx.outcome((fa, fs))


CTRL = [(0, 0), (10, 0), (0, 10), (10, 10), (5, -8), (-6, 4)]


def curve_case(case, ctx):
    """Every cubic / quadratic over a small control point grid."""
    pts = [CTRL[i] for i in case]
    if len(pts) == 4:
        prog = [('M', pts[0]), ('C', pts[1] + pts[2] + pts[3])]
    else:
        prog = [('M', pts[0]), ('Q', pts[1] + pts[2])]
    path = segments(prog)
    prims = R.absolute(prog)
    expect_close(PathParser.get_total_length(path), R.length(prims),
                 'curve length', 1e-4)
    r = PathParser.get_bbox(PathParser.normalize(path))
    want = R.bbox(prims)
    expect_close((r.x, r.y, r.width, r.height), want, 'curve bbox', 1e-6)
    ctx.outcome(len(pts))


def box_case(case, ctx):
    """Boxes of polylines: every pair of lines on a small grid."""
    prog = [('M', case[0])]
    for k, p in case[1:]:
        prog.append((k, p))
    r = PathParser.get_bbox(PathParser.normalize(segments(prog)))
    expect_close((r.x, r.y, r.width, r.height),
                 R.bbox(drawn(R.absolute(prog))), 'polyline bbox', 1e-9)
    ctx.outcome(tuple(k for k, _ in case[1:]))


def misc_case(case, ctx):
    expect_eq(PathParser.get_total_length([]), 0, 'empty length')
    r = PathParser.get_bbox([])
    expect_eq((r.width, r.height, r.isvalid()), (0, 0, False), 'empty bbox')
    expect_eq(PathParser.transform([], DOMMatrix()), [], 'empty transform')
    expect_eq(PathParser.normalize([]), [], 'empty normalize')


def ends_in_moveto(p):
    q = [c for c, _ in p if c not in 'Bb']
    return len(q) > 1 and q[-1] in 'Mm'


def check(run):
    al = [(c, i) for c in CMDS for i in range(len(ARGS[c.upper()]))
          if c != 'z']
    one = [(c, 0) for c in CMDS if c != 'z']
    start = ('M', 1)
    progs = [(start,) + s for s in sequences(al, 1, 2)]
    if run.thorough:
        progs += [(start,) + s for s in sequences(one, 3, 3)]
    progs = [p for p in progs
             if not separated_movetos([variant(*c) for c in p])]
    run.cases('transform', product(progs, sorted(MATS)), transform_case,
              'programs of at most 2 commands after M, all matrices',
              min_outcomes=len(MATS))
    sm = [(c, 0) for c in SMOOTH + ['H', 'V', 'm', 'B']]
    run.cases('transform-curves', product(
        [p for p in ((start,) + s for s in sequences(sm, 3, 3))
         if not separated_movetos([variant(*c) for c in p])],
        ['general', 'identity', 'reflect'] if run.thorough else ['general']),
        transform_case, '3 commands over the curves')
    run.cases('transform-arcs', product(
        [20, 7, 0], [10, 20, 3, 0], [0, 30, 90, -75], [0, 1], [0, 1],
        [13, 40], [5, -2], sorted(MATS)), arc_transform_case,
        'every ellipse, flag and matrix', min_outcomes=len(MATS))
    run.cases('measure', [p for p in programs(run) if not ends_in_moveto(p)],
              measure_case, 'same programs as C13', min_outcomes=2)
    run.cases('arc-length', product(
        [20, 7, 0], [10, 3, 20, 0], [0, 30, 90, 135, -60],
        range(0, 360, 15 if run.thorough else 30), [3, 12, 30], [0, 1],
        [0, 1]), arc_length_case, 'every ellipse', min_outcomes=4)
    k = range(len(CTRL))
    run.cases('curves', product(*[k] * 4) + product(*[k] * 3), curve_case,
              'all control polygons over %d points' % len(CTRL),
              min_outcomes=2)
    grid = [(x, y) for x in (0, 2, 5) for y in (0, 3, 4)]
    ops = [('L', p) for p in grid] + [('M', p) for p in grid] + [('Z', ())]
    run.cases('polylines', [
        (a, b, c) for a in grid for b in ops for c in ops
        if c[0] != 'M'] + [
        (a, b, c, d) for a in grid[:4] for b in ops[::2] for c in ops
        for d in ops[:9:2] + ops[-1:]], box_case,
        'all polylines over a grid', min_outcomes=6)
    run.cases('empty', [0], misc_case)
