"""C29: fonts are selected, scaled, measured and outlined as their files say."""
import glob
import math
import os
import struct
from fractions import Fraction

from svgpy import SVGParser
from svgpy.core import Font, SVGLength
from svgpy.freetype import FreeType, FTFace, FTMatrix
from svgpy.path import PathParser

from mc import ttf
from mc.engine import expect, expect_close, expect_eq, product

FILES = sorted(glob.glob('/usr/share/fonts/truetype/*/*.ttf'))
REGULAR = [f for f in FILES if 'DejaVu' in os.path.basename(f)]
GENERIC = {'serif': 'DejaVu Serif', 'sans-serif': 'DejaVu Sans',
           'monospace': 'DejaVu Sans Mono'}
STRETCH = {'ultra-condensed': 50, 'extra-condensed': 63, 'condensed': 75,
           'semi-condensed': 87, 'normal': 100, 'semi-expanded': 113,
           'expanded': 125, 'extra-expanded': 150, 'ultra-expanded': 200}
STYLES = {'normal': ['normal', 'oblique', 'italic'],
          'italic': ['italic', 'oblique', 'normal'],
          'oblique': ['oblique', 'italic', 'normal']}
WEIGHTS = dict({str(w): w for w in range(100, 1000, 100)},
               normal=400, bold=700)
NO_SCALE = FreeType.FT_LOAD_NO_SCALE
PARSER = SVGParser()


def element(props, on, text=None):
    """A text element with the font properties on 'text' or its parent."""
    root = PARSER.create_element('svg')
    group = root.create_sub_element('g')
    node = group.create_sub_element('text')
    target = {'text': node, 'g': group, 'svg': root}[on]
    if on == 'style':
        target = node
    for name, value in props.items():
        target.set_attribute(name, value)
    if text is not None:
        node.text = text
    return node


# --- selection ----------------------------------------------------------

def select(families, stretch, style, weight, text):
    """The files among which CSS Fonts 3, 5.2 leaves the choice."""
    need = [ord(c) for c in (text or '') if c not in '\t\r\n ']
    for family in families:
        family = GENERIC.get(family, family)
        group = [t for t in map(ttf.load, FILES)
                 if family.lower() in {n.lower() for n in t.families}]
        if not group:
            continue
        want = STRETCH[stretch]
        widths = {t.width for t in group}
        narrower = sorted((w for w in widths if w < want), reverse=True)
        wider = sorted(w for w in widths if w > want)
        order = [want] + (narrower + wider if want <= 100
                          else wider + narrower)
        pick = next(w for w in order if w in widths)
        group = [t for t in group if t.width == pick]
        slants = {t.slant for t in group}
        pick = next(s for s in STYLES[style] if s in slants)
        group = [t for t in group if t.slant == pick]
        want = WEIGHTS[weight]
        have = {t.weight for t in group}
        below = sorted((w for w in have if w < want), reverse=True)
        above = sorted(w for w in have if w > want)
        if want == 400:
            order = [400, 500] + below + above
        elif want == 500:
            order = [500, 400] + below + above
        elif want < 400:
            order = [want] + below + above
        else:
            order = [want] + above + below
        pick = next(w for w in order if w in have)
        group = [t for t in group if t.weight == pick]
        good = [t for t in group if all(c in t.cmap for c in need)]
        if good:
            return good
    return [t for t in map(ttf.load, FILES)
            if t.path.endswith('/DejaVuSans.ttf')]


def ascent(t):
    asc, desc, gap = t.ascender, t.descender, t.line_gap
    if t.fs_selection & 0x80 and 'OS/2' in t.tables:
        off, _ = t.tables['OS/2']
        asc, desc, gap = struct.unpack_from('>hhh', t.data, off + 68)
    return asc, desc, asc - desc + gap


def fn_select(case, ctx):
    families, stretch, style, weight, text, on = case
    props = {'font-family': ', '.join(families), 'font-stretch': stretch,
             'font-style': style, 'font-weight': weight, 'font-size': '20'}
    face = Font(element(props, on, text)).face
    good = select(families, stretch, style, weight, text)
    got = face.family_name, face.style_name
    # the typographic names differ between the faces of a family
    names = [(t.names[1], t.names[2]) for t in good]
    names += [(t.names.get(16, t.names[1]), t.names.get(17, t.names[2]))
              for t in good]
    ctx.outcome(good[0].path)
    expect(got in names, '%r selects %r, expected one of %r'
           % (case, got, names))
    expect(any(face.num_glyphs == t.num_glyphs
               and face.max_advance_width == t.max_advance for t in good),
           '%r selects a file other than %r' % (
               case, [os.path.basename(t.path) for t in good]))


def special_texts():
    sans = ttf.load('/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf')
    bold = ttf.load('/usr/share/fonts/truetype/dejavu/DejaVuSans-Bold.ttf')
    serif = ttf.load('/usr/share/fonts/truetype/dejavu/DejaVuSerif.ttf')
    mono = ttf.load('/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf')
    only_sans = min(c for c in sans.cmap
                    if c not in serif.cmap and c not in mono.cmap)
    only_serif = min(c for c in serif.cmap
                     if c not in sans.cmap and c not in mono.cmap)
    mono_only = min([c for c in mono.cmap
                     if c not in serif.cmap and c not in sans.cmap] or
                    [only_serif])
    not_bold = min(c for c in sans.cmap if c not in bold.cmap)
    chars = [chr(only_sans), chr(only_serif), chr(mono_only), chr(not_bold),
             '\u6c34']
    short = [''.join(c) for n in range(1, 4) for c in product(
        *[['A', ' '] + chars[:2]] * n)]
    return ([None, '', ' \t\n\r', 'A\t' + chars[0], 'A\n' + chars[1],
             'A\r\n' + chars[4]] + chars + short)


# --- the data of the file -----------------------------------------------

def faces_of(path):
    with open(path, 'rb') as f:
        data = f.read()
    return [('file', FTFace.new_face(path)),
            ('memory', FTFace.new_memory_face(data))]


def fn_face(path, ctx):
    t = ttf.load(path)
    asc, desc, height = ascent(t)
    x0, y0, x1, y1 = t.bbox
    for kind, face in faces_of(path):
        got = dict(
            family=face.family_name, style=face.style_name,
            glyphs=face.num_glyphs, upem=face.units_per_em,
            ascender=face.ascender, descender=face.descender,
            height=face.height, advance=face.max_advance_width,
            bbox=(face.bbox.x, face.bbox.y, face.bbox.width,
                  face.bbox.height),
            thickness=face.underline_thickness, faces=face.num_faces,
            index=face.face_index,
            italic=bool(face.style_flags & FreeType.FT_STYLE_FLAG_ITALIC),
            bold=bool(face.style_flags & FreeType.FT_STYLE_FLAG_BOLD),
            fixed=face.is_fixed_width(), sfnt=face.is_sfnt(),
            scalable=face.is_scalable(), kerning=face.has_kerning(),
            sizes=(face.num_fixed_sizes, face.available_sizes,
                   face.has_fixed_sizes()),
            horizontal=face.has_horizontal(), vertical=face.has_vertical(),
            color=face.has_color(), cid=face.is_cid_keyed())
        want = dict(
            family=t.names.get(16, t.names[1]),
            style=t.names.get(17, t.names[2]),
            glyphs=t.num_glyphs, upem=t.upem, ascender=asc, descender=desc,
            height=height, advance=t.max_advance,
            bbox=(x0, y0, x1 - x0, y1 - y0), thickness=t.underline_thickness,
            faces=1, index=0, italic=t.slant != 'normal',
            bold=bool(t.fs_selection & 0x20), fixed=bool(t.fixed_pitch),
            sfnt=True, scalable=True, kerning='kern' in t.tables,
            sizes=(0, [], False), horizontal=True,
            vertical='vmtx' in t.tables, color=False, cid=False)
        for name in want:
            if name in ('family', 'style'):
                # either kind of name of the file
                ids = (1, 16) if name == 'family' else (2, 17)
                expect(got[name] in [t.names.get(i) for i in ids],
                       '%s: %s is %r' % (path, name, got[name]))
                continue
            expect_eq(got[name], want[name], '%s (%s): %s' % (
                path, kind, name))
        expect(abs(face.underline_position - t.underline_position
                   + t.underline_thickness / 2) <= 1,
               '%s: underline position' % path)
    ctx.outcome((want['fixed'], want['italic'], want['bold']))


def fn_cmap(case, ctx):
    path, start, stop = case
    t = ttf.load(path)
    face = FTFace.new_face(path)
    face.select_charmap(FreeType.FT_ENCODING_UNICODE)
    index = face.get_char_index
    have = t.cmap.get
    n = 0
    for c in range(start, stop):
        g = have(c, 0)
        if index(c) != g:
            expect_eq(index(c), g, '%s: glyph of U+%04X' % (path, c))
        if g:
            n += 1
            expect_eq(index(chr(c)), g, '%s: glyph of %r' % (path, chr(c)))
    ctx.step(stop - start)
    ctx.outcome(n > 0)


def path_of(points, on, ends):
    """The quadratic outline: ('M', p), ('L', p), ('Q', c, p) ..."""
    out = []
    start = 0
    for end in ends:
        p = points[start:end + 1]
        o = on[start:end + 1]
        start = end + 1
        if not p:
            continue
        n = len(p)
        # begin with an on-curve point, explicit or implied
        seq = []
        for i in range(n):
            seq.append((p[i], o[i]))
            j = (i + 1) % n
            if not o[i] and not o[j]:
                seq.append((((p[i][0] + p[j][0]) / 2,
                             (p[i][1] + p[j][1]) / 2), 1))
        out.append(seq)
    return out


def contours_of_path(path_data, k):
    """The same cyclic sequences, from path segments scaled by k."""
    out = []
    cur = None
    for seg in path_data:
        v = [x * k for x in seg.values]
        if seg.type == 'M':
            cur = [((v[0], v[1]), 1)]
            out.append(cur)
        elif seg.type == 'L':
            cur.append(((v[0], v[1]), 1))
        elif seg.type == 'Q':
            cur.append(((v[0], v[1]), 0))
            cur.append(((v[2], v[3]), 1))
        else:
            raise AssertionError(seg.type)
    for cur in out:
        # closed: the last point is the first one again
        if len(cur) > 1:
            a, b = cur[0][0], cur[-1][0]
            assert abs(a[0] - b[0]) <= 2 and abs(a[1] - b[1]) <= 2, \
                'a contour is not closed'
            cur.pop()
    return out


def same_cycle(got, want, tol):
    """Whether two cyclic sequences of points agree up to their start."""
    n = len(want)
    if len(got) != n:
        return False
    for k in range(n):
        if got[0][1] != want[k][1]:
            continue
        for i in range(n):
            (x, y), o = got[i]
            (u, v), q = want[(i + k) % n]
            if o != q or abs(x - u) > tol or abs(y - v) > tol:
                break
        else:
            return True
    return False


def quad_box(seqs):
    """Exact box of closed quadratic contours."""
    xs, ys = [], []
    for seq in seqs:
        n = len(seq)
        for i in range(n):
            (p, o) = seq[i]
            if o:
                xs.append(p[0])
                ys.append(p[1])
                continue
            a = seq[i - 1][0]
            b = seq[(i + 1) % n][0]
            for axis, out in ((0, xs), (1, ys)):
                den = a[axis] - 2 * p[axis] + b[axis]
                if den:
                    u = (a[axis] - p[axis]) / den
                    if 0 < u < 1:
                        out.append((1 - u) ** 2 * a[axis]
                                   + 2 * u * (1 - u) * p[axis]
                                   + u * u * b[axis])
    return min(xs), min(ys), max(xs), max(ys)


def area(points, ends):
    total = 0
    start = 0
    for end in ends:
        p = points[start:end + 1]
        for i in range(len(p)):
            (x0, y0), (x1, y1) = p[i - 1], p[i]
            total += (y1 - y0) * (x1 + x0)
        start = end + 1
    return total


def glyph_case(t, face, g, edits=True):
    """The checks of one glyph in font units; returns its contour count."""
    where = '%s, glyph %d' % (os.path.basename(t.path), g)
    advance, lsb = t.hmtx(g)
    points, on, ends = t.glyph(g)
    face.load_glyph(g, NO_SCALE)
    slot = face.glyph
    expect_eq(slot.metrics.hori_advance, advance, where + ': advance')
    expect_eq(face.get_advance(g, NO_SCALE), advance, where + ': get_advance')
    expect_eq(slot.format, FreeType.FT_GLYPH_FORMAT_OUTLINE, where)
    outline = slot.outline
    expect_eq((outline.n_points, outline.n_contours),
              (len(points), len(ends)), where + ': sizes')
    if not points:
        expect_eq((outline.points, outline.tags, outline.contours),
                  ([], [], []), where + ': empty')
        expect_eq(PathParser.from_glyph(face), [], where + ': no path')
        return 0
    expect_eq(outline.contours, ends, where + ': contours')
    expect_eq([x & 1 for x in outline.tags], on, where + ': on-curve tags')
    got = outline.points
    # a glyph is placed so that its left side bearing holds
    xmin = min(x for x, _ in got)
    for (x, y), (u, v) in zip(got, points):
        if abs(x - u - (got[0][0] - points[0][0])) > 1 or abs(y - v) > 1:
            expect_eq(got, points, where + ': points')
    expect(abs(slot.metrics.hori_bearing_x - xmin) <= 1
           or any(not o for o in on), where + ': bearing')
    ymax = max(y for _, y in got)
    expect(slot.metrics.hori_bearing_y <= ymax, where + ': bearing y')
    ctl = (xmin, min(y for _, y in got), max(x for x, _ in got), ymax)
    box = outline.get_cbox()
    expect_eq((box.x, box.y, box.x + box.width, box.y + box.height), ctl,
              where + ': control box')
    want = path_of(got, on, ends)
    exact = quad_box(want)
    box = outline.get_bbox()
    for a, b in zip((box.x, box.y, box.x + box.width, box.y + box.height),
                    exact):
        expect(abs(a - b) <= 1, where + ': bounding box %r, expected %r'
               % (box, exact))
    size = area(got, ends)
    if abs(size) > 4 * t.upem:
        expect_eq(outline.get_orientation(), 1 if size > 0 else 0,
                  where + ': orientation')
    # decomposition, with shift and delta
    for shift, delta in ((0, 0), (1, 3)) if edits else ((0, 0),):
        log = []
        outline.decompose(
            lambda x, y, u: u.append(('M', x, y)),
            lambda x, y, u: u.append(('L', x, y)),
            lambda a, b, x, y, u: u.append(('Q', a, b, x, y)),
            lambda *a: a[-1].append(('C',) + a[:-1]),
            shift=shift, delta=delta, user=log)
        log = [(s[0],) + tuple((v + delta) / 2 ** shift for v in s[1:])
               for s in log]
        cont = contours_of_path(
            [type('S', (), {'type': s[0], 'values': s[1:]}) for s in log], 1)
        expect_eq(len(cont), len(want), where + ': decomposed contours')
        for c, w in zip(cont, want):
            if len(w) > 1:
                expect(same_cycle(c, w, 1), where
                       + ': decomposed into %r, expected %r' % (c, w))
    # path data: in pixels (1/64 units), the y axis pointing down
    path = PathParser.from_glyph(face)
    cont = contours_of_path(path, 64)
    expect_eq(len(cont), len(want), where + ': path contours')
    for c, w in zip(cont, want):
        if len(w) > 1:
            w = [((x, -y), o) for (x, y), o in w]
            expect(same_cycle(c, w, 1),
                   where + ': path %r, expected %r' % (c, w))
    return len(ends)


def fn_glyphs(case, ctx):
    path, start, stop = case
    t = ttf.load(path)
    face = FTFace.new_face(path)
    for g in range(start, min(stop, t.num_glyphs)):
        n = glyph_case(t, face, g)
        ctx.step()
        ctx.outcome(min(n, 4))


# --- transformations of outlines ----------------------------------------

EDITS = [('translate', 3, -5), ('translate', -64, 128), ('reverse',),
         ('m', 1, 0, 0, -1), ('m', 0, 1, -1, 0), ('m', 2, 0, 0, 0.5),
         ('m', 1, 0.25, 0, 1), ('m', 1, 0, -0.5, 1), ('m', 0.5, -2, 1.5, 1)]


def fn_edits(case, ctx):
    path, char, ops = case
    t = ttf.load(path)
    face = FTFace.new_face(path)
    g = t.cmap[ord(char)]
    face.load_glyph(g, NO_SCALE)
    outline = face.glyph.outline
    points = outline.points
    tags = [x & 1 for x in outline.tags]
    ends = outline.contours
    tol = 0
    for op in ops:
        if op[0] == 'translate':
            outline.translate(*op[1:])
            points = [(x + op[1], y + op[2]) for x, y in points]
        elif op[0] == 'reverse':
            outline.reverse()
            new, newt, start = [], [], 0
            for e in ends:
                # FreeType keeps the first point first?  Either rotation of
                # the reversed cycle is a reversal
                new.append((points[start:e + 1][::-1],
                            tags[start:e + 1][::-1]))
                start = e + 1
            points = [p for c, _ in new for p in c]
            tags = [x for _, c in new for x in c]
        else:
            m = FTMatrix()
            m.xx, m.xy, m.yx, m.yy = op[1:]
            before = m.to_float_array()
            outline.transform(m)
            expect_eq(m.to_float_array(), before, 'the matrix is unchanged')
            points = [(op[1] * x + op[2] * y, op[3] * x + op[4] * y)
                      for x, y in points]
            tol = tol * 3.5 + 1
    expect_eq(outline.contours, ends, '%r: contours' % (case,))
    got = path_of(outline.points, [x & 1 for x in outline.tags], ends)
    want = path_of(points, tags, ends)
    for a, b in zip(got, want):
        expect(same_cycle(a, b, tol + 1e-9), '%r: %r, expected %r'
               % (case, a, b))
    ctx.step(len(ops))
    ctx.outcome((len(ends), ops[-1][0]))


# --- kerning --------------------------------------------------------------

def fn_kerning(case, ctx):
    path, part, parts = case
    t = ttf.load(path)
    face = FTFace.new_face(path)
    pairs = t.kerning()
    n = 0
    for i, ((l, r), v) in enumerate(sorted(pairs.items())):
        if i % parts != part:
            continue
        n += 1
        expect_eq(face.get_kerning(l, r, FreeType.FT_KERNING_UNSCALED),
                  (v, 0), '%s: kerning of %d, %d' % (path, l, r))
        w = pairs.get((r, l), 0)
        expect_eq(face.get_kerning(r, l, FreeType.FT_KERNING_UNSCALED),
                  (w, 0), '%s: kerning of %d, %d' % (path, r, l))
    ctx.step(n)
    ctx.outcome(n > 0)


# --- sizes ----------------------------------------------------------------

def fn_size(case, ctx):
    family, size, unit = case
    node = element({'font-family': family,
                    'font-size': '%s%s' % (size, unit)}, 'g')
    px = float(Fraction(size) * {'': 1, 'px': 1, 'pt': Fraction(4, 3),
                                 'in': 96}[unit])
    font = Font(node)
    face = font.face
    t = select([family], 'normal', 'normal', '400', None)[0]
    metrics = face.size.metrics
    where = '%r' % (case,)
    ppem = math.floor(px + 0.5)
    expect(abs(metrics.x_ppem - px) <= 0.51, where + ': x_ppem %r'
           % metrics.x_ppem)
    expect(abs(metrics.y_ppem - px) <= 0.51, where + ': y_ppem %r'
           % metrics.y_ppem)
    expect_eq(font.height, metrics.y_ppem, where + ': height')
    if px == ppem:
        scale = px * 64 * 65536 / t.upem
        tol = 0.6 + scale * 1e-4
        expect(abs(metrics.x_scale - scale) <= tol, where + ': x_scale')
        expect(abs(metrics.y_scale - scale) <= tol, where + ': y_scale')
        k = px * 64 / t.upem
        flags = FreeType.FT_LOAD_NO_HINTING | FreeType.FT_LOAD_NO_BITMAP
        for char in 'x0Ag&':
            g = t.cmap[ord(char)]
            face.load_char(char, flags)
            slot = face.glyph
            points, _, _ = t.glyph(g)
            tol = 1 + k * 1e-4 * t.upem
            for (x, y), (u, v) in zip(slot.outline.points, points):
                expect(abs(x - u * k) <= tol and abs(y - v * k) <= tol,
                       where + ': %r is scaled to %r, expected %r'
                       % (char, (x, y), (u * k, v * k)))
            advance = t.hmtx(g)[0] * px / t.upem
            expect(abs(slot.linear_hori_advance / 65536 - advance)
                   <= 0.01 + 1e-4 * advance,
                   where + ': linear advance of %r' % char)
    # font-relative lengths: grid-fitted, so within a pixel (the size itself
    # is rounded before: half a pixel more)
    fit = 1 if px == ppem else 1.6
    x_height = max(y for _, y in t.glyph(t.cmap[ord('x')])[0]) - min(
        y for _, y in t.glyph(t.cmap[ord('x')])[0])
    zero = t.hmtx(t.cmap[ord('0')])[0]
    expect(abs(font.x_height - x_height * px / t.upem) <= fit,
           where + ': x height %r' % font.x_height)
    expect(abs(font.ch_advance - zero * px / t.upem) <= fit,
           where + ': advance of 0: %r' % font.ch_advance)
    for unit, one in (('ex', font.x_height), ('ch', font.ch_advance)):
        for n in (1, 2.5, -3):
            expect_close(SVGLength('%g%s' % (n, unit), context=node).value(),
                         n * one, where + ': %g%s in px' % (n, unit))
    ctx.outcome(px == ppem)


# --- FTMatrix ---------------------------------------------------------------

OPS = [('flip_x',), ('flip_y',), ('rotate', 90), ('rotate', 30),
       ('rotate', -45), ('scale', 2), ('scale', -1.5, 0.25),
       ('scale', 1.5, 0), ('skew_x', 45),
       ('skew_y', -30), ('multiply', 1, 2, 3, 4), ('multiply', 0.5, 0, -1, 2),
       ('inverse',)]


def mul(p, q):
    return (p[0] * q[0] + p[1] * q[2], p[0] * q[1] + p[1] * q[3],
            p[2] * q[0] + p[3] * q[2], p[2] * q[1] + p[3] * q[3])


def make(v):
    m = FTMatrix()
    m.xx, m.xy, m.yx, m.yy = v
    return m


def entries(m):
    return m.xx, m.xy, m.yx, m.yy


def model(v, op):
    name, args = op[0], op[1:]
    if name == 'flip_x':
        return mul(v, (-1, 0, 0, 1))
    if name == 'flip_y':
        return mul(v, (1, 0, 0, -1))
    if name == 'rotate':
        c, s = (math.cos(math.radians(args[0])),
                math.sin(math.radians(args[0])))
        # clockwise on a canvas whose y axis points up, as in SVG
        return mul(v, (c, s, -s, c))
    if name == 'scale':
        return mul(v, (args[0], 0, 0, args[-1]))
    if name == 'skew_x':
        return mul(v, (1, -math.tan(math.radians(args[0])), 0, 1))
    if name == 'skew_y':
        return mul(v, (1, 0, -math.tan(math.radians(args[0])), 1))
    if name == 'multiply':
        return mul(v, args)
    det = v[0] * v[3] - v[1] * v[2]
    return v[3] / det, -v[1] / det, -v[2] / det, v[0] / det


def close4(got, want, what):
    big = max(1, max(map(abs, want)))
    for a, b in zip(got, want):
        expect(abs(a - b) <= 1e-9 * big, '%s: %r, expected %r'
               % (what, got, want))


def fn_matrix(case, ctx):
    init, ops = case
    v = init
    m = make(v)
    for op in ops:
        if op[0] == 'inverse' and abs(v[0] * v[3] - v[1] * v[2]) < 1e-6:
            continue
        want = model(v, op)
        name = op[0]
        args = [make(op[1:])] if name == 'multiply' else op[1:]
        out = getattr(m, name)(*args)
        expect(out is not m, '%s returns a new matrix' % name)
        close4(entries(out), want, '%r after %r' % (op, case))
        close4(entries(m), v, '%s leaves the matrix alone' % name)
        if name == 'multiply':
            close4(entries(m * args[0]), want, '*')
            close4(entries(args[0]), op[1:], 'the operand is left alone')
            k = make(v)
            j = k
            k *= args[0]
            expect(k is j, '*= keeps the object')
            close4(entries(k), want, '*=')
        self_name = {'inverse': 'invert_self'}.get(name, name + '_self')
        if hasattr(m, self_name):
            expect(getattr(m, self_name)(*args) is m, self_name)
            close4(entries(m), want, self_name)
        else:
            m = out
        v = want
        ctx.step()
    expect_eq([m.a, m.b, m.c, m.d], m.to_float_array(), 'a, b, c, d')
    expect_eq(m.tolist(), m.to_float_array(), 'tolist')
    expect(FTMatrix.from_float_array(m.to_float_array()) == m,
           'from_float_array(to_float_array()) is the same matrix')
    expect(not (make([x + 1 for x in v]) == m), 'another matrix is not equal')
    ft = m.ft_matrix
    for name, x in zip(('xx', 'xy', 'yx', 'yy'), v):
        expect(abs(getattr(ft, name) / 65536 - x) <= 2 / 65536 + 1e-9 * abs(x),
               '16.16 %s' % name)
    close4(entries(FTMatrix(ft)), [getattr(ft, n) / 65536 for n in
                                   ('xx', 'xy', 'yx', 'yy')], 'FTMatrix(ft)')
    expect(m.clear() is m, 'clear')
    expect_eq(tuple(entries(m)), (1, 0, 0, 1), 'clear')
    ctx.outcome((v[0] > 0, len(ops)))


def check(run):
    texts = special_texts()
    singles = [['DejaVu Sans'], ['DejaVu Serif'], ['DejaVu Sans Mono'],
               ['DejaVu Sans Condensed'], ['DejaVu Serif Condensed'],
               ['DejaVu Sans Light'], ['serif'], ['monospace'],
               ['sans-serif']]
    cases = [(f, st, sy, w, None, 'g') for f, st, sy, w in product(
        singles, STRETCH, STYLES, WEIGHTS)]
    lists = [['DejaVu Serif', 'DejaVu Sans'], ['DejaVu Sans', 'serif'],
             ['monospace', 'DejaVu Serif', 'DejaVu Sans'],
             ['DejaVu Serif', 'monospace'], ['DejaVu Serif'],
             ['DejaVu Sans Mono'], ['serif', 'DejaVu Serif', 'monospace']]
    pairs = ([('normal', 'normal', '400'), ('condensed', 'italic', '700')]
             if not run.thorough else
             list(product(['normal', 'condensed', 'expanded'], STYLES,
                          ['300', '400', '700'])))
    cases += [(f, st, sy, w, text, on) for f, (st, sy, w), text, on in product(
        lists, pairs, texts, ['g'])]
    cases += [(f, st, sy, w, text, on) for f, (st, sy, w), text, on in product(
        lists, pairs, [None, 'A' + texts[6]], ['text', 'svg'])]
    run.cases('select', cases, fn_select,
              'font-family x 9 stretches x 3 styles x 11 weights, and family '
              'lists x texts with glyphs missing from some families')

    files = FILES
    run.cases('faces', files, fn_face,
              'all %d installed font files, from file and memory' % len(files))
    top = 0x110000
    step = 0x4000
    run.cases('cmap', [(f, a, a + step) for f in files
                       for a in range(0, top, step)], fn_cmap,
              'every code point below %#x in every file' % top)
    run.cases('glyphs', [(f, a, a + 200) for f in files
                         for a in range(0, ttf.load(f).num_glyphs, 200)],
              fn_glyphs, 'every glyph of every font file')
    kern = [f for f in files if ttf.load(f).kerning()]
    run.cases('kerning', [(f, i, 4) for f in kern for i in range(4)],
              fn_kerning, 'every kerning pair of every file, both ways round',
              min_outcomes=1)
    depth = 3 if run.thorough else 2
    seqs = [s for n in range(1, depth + 1) for s in product(*[EDITS] * n)]
    run.cases('edits', [(f, c, s) for f in REGULAR[5:6] + REGULAR[16:17]
                        for c in 'xB' for s in seqs], fn_edits,
              'edit sequences of outlines up to length %d' % depth)
    sizes = [str(n) for n in range(10, 65)] + ['96', '100', '128', '200',
                                              '10.5', '13.25', '33.3']
    run.cases('sizes', [(f, s, u) for f, s, u in product(
        ['DejaVu Sans', 'DejaVu Serif', 'DejaVu Sans Mono'],
        sizes if not run.thorough else sizes + [
            '%g' % (n / 8) for n in range(80, 400)],
        ['', 'px'])] + [(f, s, u) for f in ['DejaVu Sans', 'DejaVu Serif']
                        for s, u in [('12', 'pt'), ('9', 'pt'),
                                     ('1', 'in'), ('0.5', 'in')]],
              fn_size, 'font sizes x families: scale, metrics, ex and ch')
    depth = 4 if run.thorough else 3
    inits = [(1, 0, 0, 1), (2, -1, 0.5, 3)]
    run.cases('matrix', [(i, s) for i in inits for n in range(1, depth + 1)
                         for s in product(*[OPS] * n)], fn_matrix,
              'FTMatrix operation sequences up to length %d' % depth)
