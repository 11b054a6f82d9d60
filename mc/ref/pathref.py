"""Reference semantics of SVG path data (SVG 2 chapter 9 + the 'B' bearing
command of the svgwg paths proposal), independent of svgpy.

A program is a list of (command, args). `absolute` evaluates it to geometric
primitives: ('M', p) ('L', p0, p1) ('C', p0, p1, p2, p3)
('A', p0, arc parameters, p1) ('Z', p0, p1).

One library convention is part of the model: a moveto that directly follows a
moveto is its implicit lineto (the parser represents 'M0,0 1,1' that way).
"""
import math


def rot(b, x, y):
    if not b:
        return x, y
    t = math.radians(b)
    return (math.cos(t) * x - math.sin(t) * y,
            math.sin(t) * x + math.cos(t) * y)


def absolute(prog):
    out = []
    cx = cy = None
    sx = sy = None
    bearing = 0
    last = None
    c2 = None         # last cubic control point
    q1 = None         # last quadratic control point
    for cmd, a in prog:
        k = cmd.upper()
        if k == 'B':
            bearing = a[0] if cmd == 'B' else bearing + a[0]
            last = cmd
            c2 = q1 = None
            continue
        rel = cmd.islower()
        px, py = (0, 0) if cx is None else (cx, cy)

        def pt(x, y):
            if rel:
                x, y = rot(bearing, x, y)
                return px + x, py + y
            return x, y
        p0 = (px, py)
        nc2 = nq1 = None
        if k == 'Z':
            if sx is not None:
                out.append(('Z', p0, (sx, sy)))
                end = (sx, sy)
            else:
                out.append(('Z', p0, p0))
                end = p0
        elif k == 'M':
            end = pt(*a)
            if last in ('M', 'm'):
                out.append(('ML', p0, end))
            else:
                out.append(('M', end))
                sx, sy = end
        elif k in 'LHV':
            if k == 'L':
                end = pt(*a)
            elif k == 'H':
                end = pt(a[0], 0) if rel else (a[0], py)
            else:
                end = pt(0, a[0]) if rel else (px, a[0])
            out.append(('L', p0, end))
        elif k in 'CS':
            if k == 'C':
                p1 = pt(*a[0:2])
                rest = a[2:]
            else:
                p1 = p0 if c2 is None else (2 * px - c2[0], 2 * py - c2[1])
                rest = a
            p2 = pt(*rest[0:2])
            end = pt(*rest[2:4])
            out.append(('C', p0, p1, p2, end))
            nc2 = p2
        elif k in 'QT':
            if k == 'Q':
                p1 = pt(*a[0:2])
                end = pt(*a[2:4])
            else:
                p1 = p0 if q1 is None else (2 * px - q1[0], 2 * py - q1[1])
                end = pt(*a)
            out.append(('C', p0,
                        tuple(u + 2 / 3 * (v - u) for u, v in zip(p0, p1)),
                        tuple(u + 2 / 3 * (v - u) for u, v in zip(end, p1)),
                        end))
            nq1 = p1
        elif k == 'A':
            rx, ry, phi, fa, fs, x, y = a
            end = pt(x, y)
            if rel:
                phi = phi + bearing
            out.append(('A', p0, (rx, ry, phi, fa, fs), end))
        else:
            raise AssertionError(cmd)
        if sx is None:
            sx, sy = end
        c2, q1 = nc2, nq1
        cx, cy = end
        last = cmd
    return out


def arc_params(p0, arc, p1):
    """Centre parameterisation, or None for a straight / empty arc."""
    rx, ry, phi, fa, fs = arc
    rx, ry = abs(rx), abs(ry)
    if rx == 0 or ry == 0:
        return 'line'
    if p0 == p1:
        return 'none'
    (x1, y1), (x2, y2) = p0, p1
    p = math.radians(phi)
    c, s = math.cos(p), math.sin(p)
    dx, dy = (x1 - x2) / 2, (y1 - y2) / 2
    xp, yp = c * dx + s * dy, -s * dx + c * dy
    lam = xp * xp / rx / rx + yp * yp / ry / ry
    if lam > 1:
        rx *= math.sqrt(lam)
        ry *= math.sqrt(lam)
    den = rx * rx * yp * yp + ry * ry * xp * xp
    f = math.sqrt(max(0, (rx * rx * ry * ry - den) / den))
    if bool(fa) == bool(fs):
        f = -f
    cxp, cyp = f * rx * yp / ry, -f * ry * xp / rx
    cx = c * cxp - s * cyp + (x1 + x2) / 2
    cy = s * cxp + c * cyp + (y1 + y2) / 2
    t1 = math.atan2((yp - cyp) / ry, (xp - cxp) / rx)
    t2 = math.atan2((-yp - cyp) / ry, (-xp - cxp) / rx)
    d = t2 - t1
    if fs and d < 0:
        d += 2 * math.pi
    if not fs and d > 0:
        d -= 2 * math.pi
    return cx, cy, rx, ry, p, t1, d


def arc_point(par, u):
    cx, cy, rx, ry, p, t1, d = par
    t = t1 + u * d
    x, y = rx * math.cos(t), ry * math.sin(t)
    return (cx + math.cos(p) * x - math.sin(p) * y,
            cy + math.sin(p) * x + math.cos(p) * y)


def bez(p0, p1, p2, p3, t):
    s = 1 - t
    b = (s ** 3, 3 * s * s * t, 3 * s * t * t, t ** 3)
    return tuple(b[0] * p0[i] + b[1] * p1[i] + b[2] * p2[i] + b[3] * p3[i]
                 for i in (0, 1))


def line_len(p0, p1):
    return math.hypot(p1[0] - p0[0], p1[1] - p0[1])


# 16-point Gauss-Legendre on [0, 1]
_X = [0.0950125098376374, 0.2816035507792589, 0.4580167776572274,
      0.6178762444026438, 0.7554044083550030, 0.8656312023878318,
      0.9445750230732326, 0.9894009349916499]
_W = [0.1894506104550685, 0.1826034150449236, 0.1691565193950025,
      0.1495959888165767, 0.1246289712555339, 0.0951585116824928,
      0.0622535239386479, 0.0271524594117541]


def quad(f, a, b):
    h, m = (b - a) / 2, (a + b) / 2
    return h * sum(w * (f(m - h * x) + f(m + h * x))
                   for x, w in zip(_X, _W))


def cubic_len(p0, p1, p2, p3, parts=64):
    def speed(t):
        s = 1 - t
        d = [3 * (s * s * (p1[i] - p0[i]) + 2 * s * t * (p2[i] - p1[i])
                  + t * t * (p3[i] - p2[i])) for i in (0, 1)]
        return math.hypot(*d)
    return sum(quad(speed, i / parts, (i + 1) / parts)
               for i in range(parts))


def arc_len(par, parts=64):
    cx, cy, rx, ry, p, t1, d = par

    def speed(u):
        t = t1 + u * d
        return abs(d) * math.hypot(rx * math.sin(t), ry * math.cos(t))
    return sum(quad(speed, i / parts, (i + 1) / parts)
               for i in range(parts))


def length(prims):
    n = 0
    for p in prims:
        if p[0] in ('L', 'Z', 'ML'):
            n += line_len(p[1], p[2])
        elif p[0] == 'C':
            n += cubic_len(*p[1:])
        elif p[0] == 'A':
            par = arc_params(*p[1:])
            if par == 'line':
                n += line_len(p[1], p[3])
            elif par != 'none':
                n += arc_len(par)
    return n


def _roots(a, b, c):
    if abs(a) < 1e-12:
        return [] if abs(b) < 1e-12 else [-c / b]
    d = b * b - 4 * a * c
    if d < 0:
        return []
    d = math.sqrt(d)
    return [(-b + d) / (2 * a), (-b - d) / (2 * a)]


def cubic_box(p0, p1, p2, p3):
    pts = [p0, p3]
    for i in (0, 1):
        a = 3 * (-p0[i] + 3 * p1[i] - 3 * p2[i] + p3[i])
        b = 6 * (p0[i] - 2 * p1[i] + p2[i])
        c = 3 * (p1[i] - p0[i])
        for t in _roots(a, b, c):
            if 0 < t < 1:
                pts.append(bez(p0, p1, p2, p3, t))
    return pts


def bbox(prims):
    """Tight box (x, y, w, h) of everything drawn, None when empty."""
    pts = []
    for p in prims:
        if p[0] == 'M':
            pts.append(p[1])
        elif p[0] in ('L', 'Z', 'ML'):
            pts += [p[1], p[2]]
        elif p[0] == 'C':
            pts += cubic_box(*p[1:])
        elif p[0] == 'A':
            pts += [p[1], p[3]]
            par = arc_params(*p[1:])
            if not isinstance(par, str):
                cx, cy, rx, ry, ph, t1, d = par
                for tx in (math.atan2(-ry * math.sin(ph), rx * math.cos(ph)),
                           math.atan2(ry * math.cos(ph), rx * math.sin(ph))):
                    for t in (tx, tx + math.pi):
                        u = (t - t1) / d
                        k = 2 * math.pi / abs(d)
                        u = u - math.floor(u / k) * k
                        if 0 < u < 1:
                            pts.append(arc_point(par, u))
    if not pts:
        return None
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    return min(xs), min(ys), max(xs) - min(xs), max(ys) - min(ys)


def transform(prims, m):
    """Applies the 2D matrix (a, b, c, d, e, f) to the primitives."""
    a, b, c, d, e, f = m

    def tp(p):
        return a * p[0] + c * p[1] + e, b * p[0] + d * p[1] + f
    out = []
    for p in prims:
        if p[0] == 'A':
            out.append(('TA', p, m, tp(p[1]), tp(p[3])))
        else:
            out.append((p[0],) + tuple(tp(q) for q in p[1:]))
    return out
