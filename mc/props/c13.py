"""C13: normalisation of path data keeps the drawn curve."""
import math

from svgpy import PathParser, SVGPathSegment

from mc.engine import expect, expect_close, expect_eq, product, sequences
from mc.ref import pathref as R

# command -> argument variants (start points are never at the origin)
ARGS = {
    'A': [(10, 10, 0, 0, 1, 22, 14), (7, 7, 30, 1, 0, 9, -3),
          (20, 10, 0, 0, 0, 5, 5), (0, 4, 0, 0, 1, 3, 8)],
    'B': [(90,), (-30,)],
    'C': [(1, 9, 15, 7, 12, -4), (30, 3, -20, 11, 8, 8)],
    'H': [(17,), (-6,)],
    'L': [(11, 13), (-2, 5)],
    'M': [(4, 3), (19, -7)],
    'Q': [(6, 21, 14, 2), (-9, 4, 5, 16)],
    'S': [(18, 6, 10, 20), (-7, -5, 3, 1)],
    'T': [(13, 9), (-5, 15)],
    'V': [(21,), (-8,)],
    'Z': [()],
}
# the same with coordinates on the axes (variants 10, 11, ...)
ZEROS = {
    'A': [(10, 10, 0, 0, 1, 0, 14), (10, 10, 0, 1, 0, 12, 0),
          (20, 10, 0, 0, 0, 0, 9)],
    'B': [(0,), (90,)],
    'C': [(0, 9, 15, 0, 12, 0), (30, 0, 0, 11, 0, 8)],
    'H': [(0,)],
    'L': [(0, 13), (11, 0), (0, 0)],
    'M': [(0, 0), (0, 5), (5, 0)],
    'Q': [(0, 21, 14, 0), (9, 0, 0, 16)],
    'S': [(0, 6, 10, 0), (7, 0, 0, 1)],
    'T': [(0, 9), (5, 0)],
    'V': [(0,)],
    'Z': [()],
}
CMDS = 'AaBbCcHhLlMmQqSsTtVvZz'
SMOOTH = ['C', 'c', 'S', 's', 'Q', 'q', 'T', 't', 'L', 'h', 'Z', 'b', 'A']


def variant(cmd, i):
    v = (ARGS if i < 10 else ZEROS)[cmd.upper()]
    return cmd, v[i % 10 % len(v)]


def separated_movetos(prog):
    """'M B M': the bearing decides whether the library joins the movetos."""
    last = None
    for i, (c, _) in enumerate(prog):
        if c in 'Mm' and last in ('M', 'm') and prog[i - 1][0] in 'Bb':
            return True
        if c not in 'Bb':
            last = c
    return False


def general_ellipse(prims):
    """Arcs the library is known to approximate badly (see C13 findings)."""
    for p in prims:
        if p[0] == 'A':
            par = R.arc_params(*p[1:])
            if not isinstance(par, str) and abs(par[2] - par[3]) > 1e-9:
                for t in (par[5], par[5] + par[6]):
                    q = t / (math.pi / 2)
                    if abs(q - round(q)) > 1e-6:
                        return True
    return False


def segments(prog):
    return [SVGPathSegment(c, *v) for c, v in prog]


def unit(par, p):
    cx, cy, rx, ry, ph = par[:5]
    dx, dy = p[0] - cx, p[1] - cy
    return ((math.cos(ph) * dx + math.sin(ph) * dy) / rx,
            (-math.sin(ph) * dx + math.cos(ph) * dy) / ry)


def check_arc(p, segs, strict, what):
    """segs: cubic pieces that must follow the arc primitive p."""
    par = R.arc_params(*p[1:])
    cur = p[1]
    total = 0
    a0 = par[5]
    d = par[6]
    for n, s in enumerate(segs):
        v = s.values
        c = (cur, v[0:2], v[2:4], v[4:6])
        last = n == len(segs) - 1
        ts = (.25, .5, .75, 1) if strict else (() if last else (1,))
        for t in ts:
            ux, uy = unit(par, R.bez(*c, t))
            rad = math.hypot(ux, uy)
            tol = 1e-3 if t != 1 else 1e-6
            expect(abs(rad - 1) <= tol, what + ': piece leaves the ellipse',
                   1, (rad, p))
            a1 = math.atan2(uy, ux)
            step = a1 - a0
            if not strict and n == 0:
                step = 0     # the first piece starts at a wrong angle
            while step <= -math.pi:
                step += 2 * math.pi
            while step > math.pi:
                step -= 2 * math.pi
            expect(step * d >= -1e-9, what + ': sweep direction', d, step)
            total += step
            a0 = a1
        cur = v[4:6]
    expect_close(cur, p[3], what + ': end of arc', 1e-9)
    if strict:
        expect_close(total, d, what + ': extent of arc', 1e-6)


def compare(norm, prims, what, strict=True):
    pos = 0
    cur = None
    for p in prims:
        if p[0] == 'A':
            par = R.arc_params(*p[1:])
            if par == 'none':
                continue
            if par == 'line':
                p = ('L', p[1], p[3])
        expect(pos < len(norm), what + ': segment missing', p, None)
        s = norm[pos]
        if p[0] == 'A':
            segs = []
            while pos < len(norm) and norm[pos].type == 'C':
                segs.append(norm[pos])
                pos += 1
                if all(abs(a - b) < 1e-6 for a, b in
                       zip(segs[-1].end, p[3])):
                    break
            expect(len(segs) > 0, what + ': arc missing', p, s.tostring())
            check_arc(p, segs, strict, what)
            cur = p[3]
            continue
        pos += 1
        want = {'M': 'M', 'ML': 'M', 'L': 'L', 'C': 'C', 'Z': 'Z'}[p[0]]
        expect_eq(s.type, want, what + ': type of segment %d' % (pos - 1))
        vals = {'M': p[1:], 'ML': p[2:], 'L': p[2:], 'C': p[2:],
                'Z': ()}[p[0]]
        flat = [x for q in vals for x in q]
        expect_close(s.values, flat, what + ': values of %s (%d)' % (
            p[0], pos - 1), 1e-9)
        cur = p[-1]
    expect_eq(len(norm), pos, what + ': number of segments')


def program_case(case, ctx):
    prog = [variant(*c) for c in case]
    path = segments(prog)
    before = [(s.type, tuple(s.values)) for s in path]
    norm = PathParser.normalize(path)
    expect_eq([(s.type, tuple(s.values)) for s in path], before,
              'normalize() leaves its argument alone')
    for s in norm:
        expect(s.type in 'MLCZ', 'base set of commands', 'MLCZ', s.type)
    prims = R.absolute(prog)
    compare(norm, prims, 'normalize', strict=not general_ellipse(prims))
    # a second normalisation changes nothing, text form is equivalent
    again = PathParser.normalize(norm)
    expect_eq([(s.type, s.values) for s in again],
              [(s.type, s.values) for s in norm], 'idempotence')
    text = PathParser.normalize(PathParser.parse(PathParser.tostring(path)))
    expect_eq([s.type for s in text], [s.type for s in norm], 'via text')
    for a, b in zip(text, norm):
        expect_close(a.values, b.values, 'via text', 1e-5)
    ctx.step(3)
    ctx.outcome(tuple(sorted({s.type for s in norm})))


def norm_of(prog):
    return PathParser.normalize(segments(prog))


def circle_case(case, ctx):
    """Circular arcs: every flag, direction, radius, rotation, bearing."""
    r, ang, dist, fa, fs, phi, bearing, rel = case
    t = math.radians(ang)
    x, y = dist * math.cos(t), dist * math.sin(t)
    prog = [('M', (3, -2))]
    if bearing:
        prog.append(('B', (bearing,)))
    if rel:
        prog.append(('a', (r, r, phi, fa, fs, x, y)))
    else:
        prog.append(('A', (r, r, phi, fa, fs, 3 + x, y - 2)))
    prog.append(('L', (1, 1)))
    compare(norm_of(prog), R.absolute(prog), 'circular arc')
    ctx.outcome((fa, fs, dist > 2 * abs(r)))


def axis_case(case, ctx):
    """Ellipses between the ends of their axes."""
    rx, ry, phi, i, j, fa, fs = case
    p = math.radians(phi)

    def pt(k):
        x, y = [(rx, 0), (0, ry), (-rx, 0), (0, -ry)][k]
        return (5 + math.cos(p) * x - math.sin(p) * y,
                -3 + math.sin(p) * x + math.cos(p) * y)
    prog = [('M', pt(i)), ('A', (rx, ry, phi, fa, fs) + pt(j)),
            ('L', (1, 1))]
    # the centre is only the intended one for quarter / three-quarter arcs
    prims = R.absolute(prog)
    if general_ellipse(prims):
        compare(norm_of(prog), prims, 'elliptical arc', strict=False)
        ctx.outcome('general')
        return
    compare(norm_of(prog), prims, 'elliptical arc')
    ctx.outcome((fa, fs))


def ellipse_case(case, ctx):
    """Any ellipse: pieces meet on the right ellipse, in sweep direction."""
    rx, ry, phi, ang, dist, fa, fs = case
    t = math.radians(ang)
    prog = [('M', (3, -2)),
            ('A', (rx, ry, phi, fa, fs, 3 + dist * math.cos(t),
                   -2 + dist * math.sin(t))), ('L', (1, 1))]
    compare(norm_of(prog), R.absolute(prog), 'ellipse', strict=False)
    ctx.outcome((fa, fs))


def turned_case(case, ctx):
    """A relative arc after a bearing is the arc turned by the bearing."""
    rx, ry, phi, bearing, ang, dist, fa, fs = case
    t = math.radians(ang)
    x, y = dist * math.cos(t), dist * math.sin(t)
    b = math.radians(bearing)
    rel = norm_of([('M', (3, -2)), ('B', (bearing,)),
                   ('a', (rx, ry, phi, fa, fs, x, y))])
    absolute = norm_of([('M', (3, -2)), (
        'A', (rx, ry, phi + bearing, fa, fs,
              3 + math.cos(b) * x - math.sin(b) * y,
              -2 + math.sin(b) * x + math.cos(b) * y))])
    par = R.arc_params((0, 0), (rx, ry, phi, fa, fs), (x, y))
    q = par[6] / (math.pi / 2)
    if abs(q - round(q)) < 1e-6:
        # the number of pieces hangs on the rounding
        ctx.outcome('quadrants')
        expect_close(rel[-1].end, absolute[-1].end, 'end', 1e-6)
        return
    expect_eq([s.type for s in rel], [s.type for s in absolute], 'pieces')
    for s, u in zip(rel, absolute):
        expect_close(s.values, u.values, 'turned arc', 1e-6)
    ctx.outcome((fa, fs))


def strict_case(case, ctx):
    path = PathParser.parse(case)
    prog = [(s.type, tuple(s.values)) for s in path]
    compare(PathParser.normalize(path), R.absolute(prog), case)
    ctx.outcome(case[:1])


def programs(run):
    al = [(c, i) for c in CMDS for i in range(len(ARGS[c.upper()]))
          if c != 'z']
    one = [(c, 0) for c in CMDS if c != 'z']
    start = ('M', 1)
    out = [(start,) + s for s in sequences(al, 1, 2)]
    out += [(start,) + s for s in sequences(one, 3, 3)]
    out += [(('m', 0),) + s for s in sequences(al, 1, 1)]
    sm = [(c, 0) for c in SMOOTH]
    # on the axes
    zero = [(c, i) for c in CMDS if c != 'z'
            for i in range(10, 10 + len(ZEROS[c.upper()]))]
    for i in (10, 11, 12):
        out += [(('M', i),) + s for s in sequences(zero, 1, 2)]
        out += [(('M', i), a, ('Z', 0), b) for a in one for b in zero + one
                if a[0] not in 'BbMmZ']
    if run.thorough:
        out += [(('M', 11),) + s for s in sequences(zero, 3, 3)]
        out += [(start,) + s for s in sequences(al, 3, 3)]
        out += [(start,) + s for s in sequences(sm, 4, 4)]
    else:
        out += [(start,) + s for s in sequences(sm[1:8] + sm[10:11], 4, 4)]
    return [p for p in dict.fromkeys(out)
            if not separated_movetos([variant(*c) for c in p])]


def check(run):
    run.cases('programs', programs(run), program_case,
              'M followed by every 2/3-command program, 4 for curves',
              min_outcomes=4)
    dirs = range(0, 360, 15 if run.thorough else 30)
    run.cases('circular-arcs', product(
        [10, -10], dirs, [3, 14.5, 19.9, 20, 30], [0, 1], [0, 1],
        [0, 30, 90, -200], [0, 40], [0, 1]), circle_case,
        'radius, end direction and distance, flags, rotation, bearing',
        min_outcomes=8)
    run.cases('axis-arcs', [c for c in product(
        [20, 7], [10, 3], [0, 30, 90, 135, -60, 360], range(4), range(4),
        [0, 1], [0, 1]) if c[3] != c[4]], axis_case,
        'ellipses between the ends of their axes', min_outcomes=4)
    run.cases('ellipses', product(
        [20, 7], [10, 3], [0, 30, 90, 135, -60], dirs, [3, 12, 30], [0, 1],
        [0, 1]), ellipse_case, 'centre/radii/direction of any ellipse',
        min_outcomes=4)
    run.cases('turned-arcs', product(
        [20, 7], [10, 3], [0, 30, -60], [90, -30, 180, 360], dirs, [3, 12, 30],
        [0, 1], [0, 1]), turned_case,
        'relative arcs of any ellipse after a bearing', min_outcomes=4)
    run.cases('elliptical-arc-shape', [
        'M950,175 A25,100 0 0,1 1000,150',
        'M950,175 A25,100 30 1,0 1000,150'], strict_case,
        'exact shape of two elliptical arcs')
