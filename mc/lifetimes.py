"""Explores, in forked processes, the orders in which native objects and the
objects they were made from are made, made again and dropped.

usage: lifetimes.py SCENARIO DEPTH FIRST-OP

Every node of the exploration is a process of its own, forked from its
parent node, so that one that dies tells which history killed it.  Prints a
JSON line per node that fails and a last one with the number of nodes.
"""
import gc
import json
import os
import sys

sys.path.insert(0, os.environ.get('SVGPY_REPO', '/repo'))

from svgpy.freetype import FreeType, FTFace  # noqa: E402
from svgpy.harfbuzz import (HBBlob, HBBuffer, HBFace, HBFeature,  # noqa: E402
                            HBFont, HBFTFace, HBFTFont, HBLanguage,
                            HBOTFont)
from svgpy.icu import UBiDi, UBreakIterator, ULocale  # noqa: E402

SANS = '/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf'
MONO = '/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf'
TEXT = 'a \u05d0\u05d1 b. \U0001d538'


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def ft_face(path, memory=None):
    if memory is None:
        face = FTFace.new_face(path)
    else:
        face = FTFace.new_memory_face(memory)
    face.select_charmap(FreeType.FT_ENCODING_UNICODE)
    face.set_pixel_sizes(0, 20)
    face.load_char('A')
    return face


def see_data(x):
    return hash(x)


def see_face(x):
    x.load_char('A')
    return (x.family_name, x.style_name, x.num_glyphs, x.units_per_em,
            x.get_char_index('A'), repr(x.glyph.metrics),
            repr(x.glyph.outline.points), repr(x.charmap))


def see_slot(x):
    return (repr(x.metrics), repr(x.outline), repr(x.advance), x.format,
            repr(x.outline.points))


def see_outline(x):
    return (repr(x.points), repr(list(x.tags)), repr(list(x.contours)))


def see_charmap(x):
    return (repr(x), x.get_charmap_index())


def see_bitmap(x):
    return (x.rows, x.width, x.pitch, hash(bytes(bytearray(x.buffer))))


def see_blob(x):
    return (x.get_length(), hash(x.get_data()))


def see_hb_face(x):
    return (x.get_upem(), x.get_glyph_count(), x.get_index())


def see_hb_font(x):
    g = x.get_glyph(ord('A'))
    return (x.get_scale(), g, x.get_glyph_h_advance(g), see_any(x.get_face()))


def see_any(x):
    return see_face(x) if isinstance(x, FTFace) else see_hb_face(x)


def see_buffer(x):
    return (repr(x.get_glyph_infos()), repr(x.get_glyph_positions()),
            x.get_direction().tostring(), x.get_language().tostring(),
            x.get_script().to_iso15924_tag())


def see_bidi(x):
    return (list(x.visual_iter()), x.write_reordered(), x.count_runs())


def see_iter(x):
    return list(x)


def ot_font(face):
    font = HBFont.create(face)
    HBOTFont.set_funcs(font)
    return font


def other_font(face, other):
    font = HBFont.create(face)
    font.set_face(other)
    HBOTFont.set_funcs(font)
    return font


def shaped(font):
    buf = HBBuffer.create()
    buf.add_utf8('AV-1')
    buf.set_language(HBLanguage.fromstring('en'))
    buf.guess_segment_properties()
    buf.shape(font, [HBFeature.fromstring('-kern')])
    return buf


def rendered(face):
    face.load_char('A')
    face.glyph.render_glyph(FreeType.FT_RENDER_MODE_NORMAL)
    return face


def bidi(text):
    x = UBiDi()
    x.set_para('\u05d0 other', UBiDi.UBIDI_DEFAULT_RTL)
    x.set_para(text, UBiDi.UBIDI_DEFAULT_LTR)
    return x


def words(text, again=None):
    x = UBreakIterator(UBreakIterator.UBRK_WORD, 'en', text)
    if again is not None:
        x.set_text(again)
    return x


def text():
    return ''.join(list(TEXT))


# name -> [(object, parents, constructor, observer)]
SCENARIOS = {
    'blob': [
        ('data', (), lambda: read(SANS), see_data),
        ('blob', ('data',), HBBlob.create, see_blob),
        ('face', ('blob',), HBFace.create, see_hb_face),
        ('font', ('face',), ot_font, see_hb_font),
        ('face2', ('font',), lambda f: f.get_face(), see_hb_face)],
    'blob-duplicate': [
        ('data', (), lambda: read(MONO), see_data),
        ('blob', ('data',), lambda d: HBBlob.create(
            d, mode=HBBlob.HB_MEMORY_MODE_DUPLICATE), see_blob),
        ('face', ('blob',), HBFace.create, see_hb_face),
        ('part', ('data',), lambda d: HBBlob.create(d, 1000), see_blob)],
    'set-face': [
        ('face', (), lambda: HBFace.create(HBBlob.create(read(SANS))),
         see_hb_face),
        ('other', (), lambda: HBFace.create(HBBlob.create(read(MONO))),
         see_hb_face),
        ('font', ('face', 'other'), other_font, see_hb_font),
        ('face2', ('font',), lambda f: f.get_face(), see_hb_face)],
    'glyph': [
        ('face', (), lambda: ft_face(SANS), see_face),
        ('slot', ('face',), lambda f: f.glyph, see_slot),
        ('outline', ('slot',), lambda s: s.outline, see_outline),
        ('metrics', ('slot',), lambda s: s.metrics, repr),
        ('size', ('face',), lambda f: f.size, repr)],
    'size': [
        ('face', (), lambda: ft_face(SANS), see_face),
        ('size', ('face',), lambda f: f.size, repr),
        ('sizes', ('size',), lambda s: s.metrics, repr),
        ('charmap', ('face',), lambda f: f.charmap, see_charmap),
        ('charmaps', ('face',), lambda f: f.charmaps[-1], see_charmap)],
    'bitmap': [
        ('face', (), lambda: rendered(ft_face(SANS)), None),
        ('slot', ('face',), lambda f: f.glyph, lambda s: repr(s.metrics)),
        ('bitmap', ('slot',), lambda s: s.bitmap, see_bitmap),
        ('bitmap2', ('face',), lambda f: f.glyph.bitmap, see_bitmap)],
    'memory': [
        ('data', (), lambda: read(SANS), see_data),
        ('face', ('data',), lambda d: ft_face(SANS, d), see_face),
        ('font', ('face',), HBFTFont.create, see_hb_font),
        ('face2', ('font',), lambda f: f.get_face(), see_face),
        ('slot', ('face2',), lambda f: f.glyph, see_slot)],
    'ft-face': [
        ('ft', (), lambda: ft_face(SANS), see_face),
        ('face', ('ft',), HBFTFace.create, see_hb_face),
        ('font', ('face',), ot_font, see_hb_font),
        ('face2', ('font',), lambda f: f.get_face(), see_hb_face),
        ('font2', ('face2',), ot_font, see_hb_font)],
    'buffer': [
        ('face', (), lambda: ft_face(SANS), see_face),
        ('font', ('face',), HBFTFont.create, see_hb_font),
        ('buffer', ('font',), shaped, see_buffer),
        ('infos', ('buffer',), lambda b: b.get_glyph_infos(), repr),
        ('places', ('buffer',), lambda b: b.get_glyph_positions(), repr)],
    'icu': [
        ('text', (), text, see_data),
        ('bidi', ('text',), bidi, see_bidi),
        ('words', ('text',), words, see_iter),
        ('words2', ('text',), lambda t: words('a', t), see_iter),
        ('locale', (), lambda: ULocale('ar_EG'),
         lambda x: (x.get_language(), x.get_character_orientation()))],
}


KEPT = {}  # still held when the interpreter exits


class Node(object):
    def __init__(self, scenario):
        self.spec = {name: (parents, make, see)
                     for name, parents, make, see in SCENARIOS[scenario]}
        self.names = [x[0] for x in SCENARIOS[scenario]]
        self.live = {}
        for name in self.names:
            self.make(name)
        self.want = self.look()

    def make(self, name):
        parents, make, _ = self.spec[name]
        self.live[name] = make(*[self.live[p] for p in parents])

    def look(self):
        out = {}
        for name in self.names:
            see = self.spec[name][2]
            if name in self.live and see is not None:
                out[name] = see(self.live[name])
        return out

    def ops(self):
        for name in self.names:
            if name in self.live:
                yield 'drop ' + name
            if all(p in self.live for p in self.spec[name][0]):
                yield 'make ' + name

    def apply(self, op):
        verb, name = op.split()
        if verb == 'drop':
            del self.live[name]
        else:
            self.make(name)
        gc.collect()
        churn = [bytearray(b'\x5a') * n for n in (
            16, 48, 96, 200, 400, 1000, 4000, 20000) for _ in range(8)]
        got = self.look()
        del churn
        for name, value in got.items():
            if value != self.want[name]:
                return '%s reads %.200r, expected %.200r' % (
                    name, value, self.want[name])
        return None


def explore(node, history, depth, only, out):
    """The number of nodes below."""
    total = 0
    for op in node.ops():
        if only is not None and op != only:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            count = 1
            status = 0
            try:
                problem = node.apply(op)
                if problem:
                    report(out, history + [op], problem)
                elif depth > 1:
                    count += explore(node, history + [op], depth - 1, None,
                                     out)
            except BaseException as e:
                report(out, history + [op], 'unexpected exception %r' % e)
            os.write(w, b'%d' % count)
            os._exit(status)
        os.close(w)
        data = b''
        while True:
            part = os.read(r, 64)
            if not part:
                break
            data += part
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            report(out, history + [op], 'the process dies of signal %d'
                   % os.WTERMSIG(status))
        total += int(data or b'1')
    return total


def report(out, history, problem):
    os.write(out, (json.dumps({'history': history, 'problem': problem})
                   + '\n').encode())


def main():
    scenario, depth, only = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    if only == '-':
        print(json.dumps(list(Node(scenario).ops())))
        return
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    node = KEPT['node'] = Node(scenario)
    gc.collect()
    gc.freeze()
    count = explore(node, [], depth, only, out)
    os.write(out, (json.dumps({'nodes': count, 'states': 1}) + '\n').encode())


if __name__ == '__main__':
    main()
