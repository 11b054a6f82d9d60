"""A reader of TrueType files, written from the OpenType specification alone.

It is the oracle of C29: nothing in it comes from svgpy or from FreeType.
"""
import struct
from functools import lru_cache


class TTF:
    def __init__(self, path):
        self.path = path
        with open(path, 'rb') as f:
            self.data = f.read()
        d = self.data
        n, = struct.unpack_from('>H', d, 4)
        self.tables = {}
        for i in range(n):
            tag, _, off, length = struct.unpack_from('>4sLLL', d, 12 + 16 * i)
            self.tables[tag.decode()] = (off, length)
        off, _ = self.tables['head']
        self.head_flags, self.upem = struct.unpack_from('>HH', d, off + 16)
        self.bbox = struct.unpack_from('>4h', d, off + 36)
        self.mac_style, = struct.unpack_from('>H', d, off + 44)
        self.long_loca, = struct.unpack_from('>h', d, off + 50)
        off, _ = self.tables['maxp']
        self.num_glyphs, = struct.unpack_from('>H', d, off + 4)
        off, _ = self.tables['hhea']
        (self.ascender, self.descender, self.line_gap,
         self.max_advance) = struct.unpack_from('>hhhH', d, off + 4)
        self.num_hmetrics, = struct.unpack_from('>H', d, off + 34)
        off, length = self.tables['OS/2']
        self.weight, width = struct.unpack_from('>HH', d, off + 4)
        self.fs_selection, = struct.unpack_from('>H', d, off + 62)
        self.width = {1: 50, 2: 63, 3: 75, 4: 87, 5: 100, 6: 113, 7: 125,
                      8: 150, 9: 200}[width]
        off, _ = self.tables['post']
        (self.underline_position,
         self.underline_thickness) = struct.unpack_from('>hh', d, off + 8)
        self.fixed_pitch, = struct.unpack_from('>L', d, off + 12)
        self._names()
        self._cmap()

    def _names(self):
        d = self.data
        off, _ = self.tables['name']
        count, strings = struct.unpack_from('>HH', d, off + 2)
        self.names = {}
        for i in range(count):
            plat, enc, lang, nid, length, o = struct.unpack_from(
                '>6H', d, off + 6 + 12 * i)
            raw = d[off + strings + o:off + strings + o + length]
            if plat == 3 and lang == 0x409:
                self.names[nid] = raw.decode('utf-16-be')
            elif plat == 1 and lang == 0:
                self.names.setdefault(nid, raw.decode('mac-roman'))
        self.families = {self.names[k] for k in (1, 16) if k in self.names}
        style = self.names.get(17, self.names.get(2, ''))
        full = style + ' ' + self.names.get(2, '')
        if 'Oblique' in full:
            self.slant = 'oblique'
        elif 'Italic' in full:
            self.slant = 'italic'
        else:
            self.slant = 'normal'

    def _cmap(self):
        d = self.data
        off, _ = self.tables['cmap']
        n, = struct.unpack_from('>H', d, off + 2)
        sub = {}
        for i in range(n):
            plat, enc, o = struct.unpack_from('>HHL', d, off + 4 + 8 * i)
            sub[(plat, enc)] = off + o
        self.cmap = {}
        for key in ((3, 10), (0, 4), (3, 1), (0, 3)):
            if key in sub:
                break
        o = sub[key]
        fmt, = struct.unpack_from('>H', d, o)
        if fmt == 12:
            groups, = struct.unpack_from('>L', d, o + 12)
            for i in range(groups):
                s, e, g = struct.unpack_from('>LLL', d, o + 16 + 12 * i)
                for c in range(s, e + 1):
                    if g + c - s:
                        self.cmap[c] = g + c - s
        elif fmt == 4:
            seg, = struct.unpack_from('>H', d, o + 6)
            seg //= 2
            ends = struct.unpack_from('>%dH' % seg, d, o + 14)
            starts = struct.unpack_from('>%dH' % seg, d, o + 16 + 2 * seg)
            deltas = struct.unpack_from('>%dh' % seg, d, o + 16 + 4 * seg)
            ro = o + 16 + 6 * seg
            ranges = struct.unpack_from('>%dH' % seg, d, ro)
            for i in range(seg):
                for c in range(starts[i], ends[i] + 1):
                    if c == 0xffff:
                        continue
                    if ranges[i] == 0:
                        g = (c + deltas[i]) & 0xffff
                    else:
                        p = ro + 2 * i + ranges[i] + 2 * (c - starts[i])
                        g, = struct.unpack_from('>H', d, p)
                        if g:
                            g = (g + deltas[i]) & 0xffff
                    if g:
                        self.cmap[c] = g
        else:
            raise ValueError(fmt)

    def hmtx(self, g):
        """(advance, left side bearing) of a glyph."""
        off, _ = self.tables['hmtx']
        d = self.data
        if g < self.num_hmetrics:
            return struct.unpack_from('>Hh', d, off + 4 * g)
        adv, = struct.unpack_from('>H', d, off + 4 * (self.num_hmetrics - 1))
        lsb, = struct.unpack_from(
            '>h', d, off + 4 * self.num_hmetrics + 2 * (g - self.num_hmetrics))
        return adv, lsb

    def _range(self, g):
        off, _ = self.tables['loca']
        base, _ = self.tables['glyf']
        if self.long_loca:
            a, b = struct.unpack_from('>LL', self.data, off + 4 * g)
        else:
            a, b = struct.unpack_from('>HH', self.data, off + 2 * g)
            a, b = 2 * a, 2 * b
        return base + a, base + b

    def glyph(self, g, depth=0):
        """(points, on-curve flags, contour ends) in font units."""
        a, b = self._range(g)
        d = self.data
        if a == b:
            return [], [], []
        n, = struct.unpack_from('>h', d, a)
        p = a + 10
        if n >= 0:
            ends = list(struct.unpack_from('>%dH' % n, d, p))
            p += 2 * n
            ilen, = struct.unpack_from('>H', d, p)
            p += 2 + ilen
            count = ends[-1] + 1 if ends else 0
            flags = []
            while len(flags) < count:
                f = d[p]
                p += 1
                flags.append(f)
                if f & 8:
                    r = d[p]
                    p += 1
                    flags += [f] * r
            coords = []
            for short, same in ((2, 16), (4, 32)):
                v = 0
                out = []
                for f in flags:
                    if f & short:
                        dv = d[p]
                        p += 1
                        v += dv if f & same else -dv
                    elif not f & same:
                        dv, = struct.unpack_from('>h', d, p)
                        p += 2
                        v += dv
                    out.append(v)
                coords.append(out)
            return (list(zip(*coords)) if count else [],
                    [f & 1 for f in flags], ends)
        pts, on, ends = [], [], []
        while True:
            flags, idx = struct.unpack_from('>HH', d, p)
            p += 4
            if flags & 1:
                fmt = '>hh' if flags & 2 else '>HH'
                a1, a2 = struct.unpack_from(fmt, d, p)
                p += 4
            else:
                fmt = '>bb' if flags & 2 else '>BB'
                a1, a2 = struct.unpack_from(fmt, d, p)
                p += 2
            xx = yy = 1.0
            xy = yx = 0.0
            if flags & 8:
                xx, = struct.unpack_from('>h', d, p)
                xx = yy = xx / 16384
                p += 2
            elif flags & 0x40:
                xx, yy = (v / 16384 for v in struct.unpack_from('>hh', d, p))
                p += 4
            elif flags & 0x80:
                xx, yx, xy, yy = (v / 16384 for v in
                                  struct.unpack_from('>4h', d, p))
                p += 8
            cp, co, ce = self.glyph(idx, depth + 1)
            cp = [(xx * x + xy * y, yx * x + yy * y) for x, y in cp]
            if flags & 2:
                dx, dy = a1, a2
                if flags & 0x800:  # SCALED_COMPONENT_OFFSET
                    dx *= (xx * xx + yx * yx) ** 0.5
                    dy *= (xy * xy + yy * yy) ** 0.5
            else:
                dx = pts[a1][0] - cp[a2][0]
                dy = pts[a1][1] - cp[a2][1]
            base = len(pts)
            pts += [(x + dx, y + dy) for x, y in cp]
            on += co
            ends += [base + e for e in ce]
            if not flags & 0x20:
                break
        return pts, on, ends

    def kerning(self):
        """{(left, right): value} of the horizontal format 0 subtables."""
        out = {}
        if 'kern' not in self.tables:
            return out
        d = self.data
        off, _ = self.tables['kern']
        n, = struct.unpack_from('>H', d, off + 2)
        p = off + 4
        for _ in range(n):
            _, length, coverage = struct.unpack_from('>HHH', d, p)
            if coverage & 0xff07 == 1:
                pairs, = struct.unpack_from('>H', d, p + 6)
                for i in range(pairs):
                    l, r, v = struct.unpack_from('>HHh', d, p + 14 + 6 * i)
                    out[(l, r)] = out.get((l, r), 0) + v
            p += length
        return out


@lru_cache(maxsize=None)
def load(path):
    return TTF(path)
