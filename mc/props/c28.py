"""C28: where the characters of horizontal texts are drawn.

Reference: the addressable characters of a text element are numbered; the
lists of the elements are resolved by that number; a character without a value
follows the one before it. Outlines are those of texts of one character at the
origin, measured once per font and size and moved to where the model puts them.
"""
import math
from functools import lru_cache
from xml.sax.saxutils import escape, quoteattr

from svgpy import SVGParser

from mc.engine import expect, expect_close, expect_eq, product, sequences

MONO = 'DejaVu Sans Mono'
SANS = 'DejaVu Sans'
LIGATURES = ('ffi', 'ffl', 'ff', 'fi', 'fl')
ASCENT, DESCENT, ADVANCE, CAP = 1901 / 2048, 483 / 2048, 1233 / 2048, 1493 / 2048


def parse(body):
    return SVGParser().fromstring(
        '<svg xmlns="http://www.w3.org/2000/svg" width="400" height="200">'
        '%s</svg>' % body)


# --- specifications of texts: (tag, {attributes}, [str | specification])

def markup(spec):
    tag, attrs, content = spec
    return '<%s%s>%s</%s>' % (
        tag, ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in attrs.items()),
        ''.join(escape(c) if isinstance(c, str) else markup(c)
                for c in content), tag)


def flatten(spec, path=(), inherited=None, out=None):
    """Returns [(characters, path, size, family)] and fills the list of the
    elements."""
    tag, attrs, content = spec
    info = dict(inherited or {'size': 20.0, 'family': MONO, 'show': True})
    if 'font-size' in attrs:
        v = attrs['font-size']
        info['size'] = (info['size'] * float(v[:-2]) if v.endswith('em')
                        else info['size'] * float(v[:-1]) / 100
                        if v.endswith('%') else float(v))
    if 'font-family' in attrs:
        info['family'] = attrs['font-family']
    if attrs.get('display') == 'none':
        info['show'] = False
    out['elements'].append((path, attrs, info))
    k = 0
    for c in content:
        if isinstance(c, str):
            if info['show']:
                out['runs'].append((c, path, info['size'], info['family']))
        else:
            flatten(c, path + (k,), info, out)
            k += 1
    return out


def values(attrs, name, size, viewport=(400, 200)):
    text = attrs.get(name)
    if text is None:
        return None
    out = []
    for t in text.replace(',', ' ').split():
        if name == 'rotate':
            out.append(float(t))
        elif t.endswith('em'):
            out.append(float(t[:-2]) * size)
        elif t.endswith('%'):
            out.append(float(t[:-1]) / 100
                       * viewport[0 if name in ('x', 'dx') else 1])
        else:
            out.append(float(t))
    return out


def clusters(text, family):
    """Splits the characters of a run into those drawn together."""
    out = []
    i = 0
    while i < len(text):
        n = 1
        if family == SANS:
            n = next((len(w) for w in LIGATURES if text.startswith(w, i)), 1)
        while i + n < len(text) and text[i + n] == '\u0301':
            n += 1
        out.append(text[i:i + n])
        i += n
    return out


@lru_cache(None)
def glyph(text, size, family):
    """The advance, box and outline of one cluster, at the origin."""
    root = parse('<text font-size="%s" font-family="%s" '
                 'style="white-space:pre">%s</text>'
                 % (repr(size), family, text))
    e = root[0]
    box = e.get_bbox()
    path = [(s.type, tuple(s.values)) for s in e.get_path_data()]
    advance = e.get_computed_text_length()
    # what is known of the fonts
    expect(abs(box.x) < 1e-6 and abs(box.width - advance) < 1e-6,
           'a character at the origin starts there and is as wide as its '
           'advance', None, (text, size, rect(box)))
    expect(abs(-box.y - ASCENT * size) <= 1
           and abs(box.height - (ASCENT + DESCENT) * size) <= 1,
           'a character reaches from the ascent to the descent of the font',
           None, (text, size, rect(box)))
    if family == MONO:
        expect_close(advance, math.floor(64 * size * ADVANCE + .5) / 64,
                     'advance of a character of the monospaced font')
    if text == 'A':
        ys = [p for _, v in path for p in v[1::2]]
        expect(abs(max(ys)) <= 1 and abs(-min(ys) - CAP * size) <= 1,
               'the outline of A stands on the baseline',
               None, (size, min(ys), max(ys)))
    return advance, (box.x, box.y, box.width, box.height), path


def turn(points, angle, x, y):
    a = math.radians(angle)
    c, s = math.cos(a), math.sin(a)
    return [(x + px * c - py * s, y + px * s + py * c) for px, py in points]


def layout(spec):
    out = flatten(spec, out={'elements': [], 'runs': []})
    runs = out['runs']
    # one entry per addressable character
    chars = []
    for text, path, size, family in runs:
        for c in text:
            chars.append(path)
    n = len(chars)
    resolved = {k: [None] * n for k in ('x', 'y', 'dx', 'dy')}
    rotate = [0.0] * n
    for path, attrs, info in out['elements']:        # document order
        mine = [i for i in range(n) if chars[i][:len(path)] == path]
        for name in resolved:
            v = values(attrs, name, info['size'])
            if v is None and path == () and name in 'xy':
                v = [0.0]
            if v is not None and mine:
                for i, value in zip(range(mine[0], mine[-1] + 1), v):
                    resolved[name][i] = value
        v = values(attrs, 'rotate', info['size'])
        if v is not None:
            # those of its characters with no closer list
            users = [i for i in mine
                     if not any('rotate' in a and len(p) > len(path)
                                and chars[i][:len(p)] == p
                                for p, a, _ in out['elements'])]
            for k, i in enumerate(users):
                rotate[i] = v[min(k, len(v) - 1)]
    # place them
    placed = []     # (path of the element, box corners, outline)
    advances = [0.0] * n
    cx = cy = 0.0
    pending = [0.0, 0.0]
    i = 0
    for text, path, size, family in runs:
        for cluster in clusters(text, family):
            advance, box, outline = glyph(cluster, size, family)
            x = cx if resolved['x'][i] is None else resolved['x'][i]
            y = cy if resolved['y'][i] is None else resolved['y'][i]
            x += pending[0] + (resolved['dx'][i] or 0)
            y += pending[1] + (resolved['dy'][i] or 0)
            rest = range(i + 1, i + len(cluster))
            pending = [sum(resolved['dx'][j] or 0 for j in rest),
                       sum(resolved['dy'][j] or 0 for j in rest)]
            bx, by, bw, bh = box
            corners = turn([(bx, by), (bx + bw, by), (bx + bw, by + bh),
                            (bx, by + bh)], rotate[i], x, y)
            drawn = []
            for kind, v in outline:
                pts = turn(list(zip(v[::2], v[1::2])), rotate[i], x, y)
                drawn.append((kind, [c for p in pts for c in p]))
            placed.append((path, corners, drawn))
            advances[i] = advance
            cx, cy = x + advance, y
            i += len(cluster)
    return {'chars': chars, 'text': ''.join(r[0] for r in runs),
            'advances': advances, 'placed': placed,
            'elements': out['elements']}


def find(root, path):
    e = root
    for k in path:
        e = e[k]
    return e


def rect(r):
    if r.x is None:
        return None
    return [r.x, r.y, r.width, r.height]


def check_boxes(e, path, model, what):
    mine = [p for p in model['placed'] if p[0][:len(path)] == path]
    box = rect(e.get_bbox())
    if not mine:
        expect(box is None or box[2:] == [0, 0], '%s: empty box' % what,
               None, box)
    else:
        xs = [c[0] for p in mine for c in p[1]]
        ys = [c[1] for p in mine for c in p[1]]
        expect(box is not None, '%s: box' % what, None, box)
        expect_close([box[0], box[1], box[0] + box[2], box[1] + box[3]],
                     [min(xs), min(ys), max(xs), max(ys)],
                     '%s: left, top, right and bottom of the box' % what,
                     tol=2e-3)
    return len(mine)


def check_path(e, path, model, what):
    want = [s for p in model['placed'] if p[0][:len(path)] == path
            for s in p[2]]
    got = [(s.type, list(s.values)) for s in e.get_path_data()]
    expect_eq(''.join(t for t, _ in got), ''.join(t for t, _ in want),
              '%s: commands of the outline' % what)
    for k, ((_, g), (t, w)) in enumerate(zip(got, want)):
        expect(len(g) == len(w)
               and all(abs(a - b) < 0.05 for a, b in zip(g, w)),
               '%s: segment %d (%s) of the outline' % (what, k, t), w, g)
    return len([p for p in model['placed'] if p[0][:len(path)] == path])


def check_lengths(e, path, model, what, ctx, deep):
    idx = [i for i, p in enumerate(model['chars']) if p[:len(path)] == path]
    adv = [model['advances'][i] for i in idx]
    expect_eq(e.get_number_of_chars(), len(idx),
              '%s: number of characters' % what)
    expect_eq(e.get_chars() or '', ''.join(model['text'][i] for i in idx),
              '%s: characters' % what)
    expect_close(e.get_computed_text_length(), sum(adv),
                 '%s: computed text length' % what)
    if deep:
        for i in range(len(idx) + 1):
            for n in range(len(idx) - i + 2):
                if len(idx) > 3 and deep == 'some' and n != 2 and i:
                    continue
                expect_close(e.get_sub_string_length(i, n), sum(adv[i:i + n]),
                             '%s: length of %d characters from %d'
                             % (what, n, i))
                ctx.step()


def attributes(case):
    return {k: v for k, v in case.items() if v is not None}


def run_spec(spec, ctx, lengths=False, deep=False, root=None):
    model = layout(spec)
    if root is None:
        root = parse(markup(spec))[0]
    for path, attrs, info in model['elements']:
        e = find(root, path)
        what = '%s%s' % (e.local_name, list(path))
        # (one of them suffices below the text; both are laid out anew)
        n = check_boxes(e, path, model, what) if not path or len(path) == 1 \
            else check_path(e, path, model, what)
        if not path or lengths:
            check_path(e, path, model, what)
        if lengths:
            check_lengths(e, path, model, what, ctx, deep)
        ctx.step(2)
        ctx.outcome('characters %d' % min(n, 3))
    return root


BASE = {'font-family': MONO, 'font-size': '20'}
LISTS = {
    'x': [None, '30', '30 7.5 90', '5,60,20,80,100'],
    'y': [None, '25', '25,60 10', '5 15 25 35 45'],
    'dx': [None, '3', '0 -4.5 6', '1 2 3 4 5'],
    'dy': [None, '-2', '1,0.25,9', '5 -4 3 -2 1'],
    'rotate': [None, '180', '30 -45', '10,20,30,40,50'],
}


def one_list_cases(thorough):
    contents = ['A i.'] if not thorough else ['A i.', 'i', 'Ai', 'i A A', 'Aiii.']
    for content in contents:
        for combo in product(*[LISTS[k] for k in LISTS]):
            yield {'text': content, 'lists': list(combo)}


def one_list(case, ctx):
    attrs = dict(BASE)
    attrs.update(attributes(dict(zip(LISTS, case['lists']))))
    run_spec(('text', attrs, [case['text']]), ctx)


SHAPES = {
    'inner': lambda a, b, c: ('text', a, ['A', ('tspan', b, ['i.']), 'A']),
    'first': lambda a, b, c: ('text', a, [('tspan', b, ['A.']), ('tspan', c, ['i']), 'A']),
    'nested': lambda a, b, c: ('text', a, [
        'A', ('tspan', b, ['i', ('tspan', c, ['.A']), 'i']), '.']),
    'words': lambda a, b, c: ('text', a, [
        ('tspan', b, ['A i ', ('tspan', c, ['. A '])]), 'i']),
    'empty': lambda a, b, c: ('text', a, [('tspan', b, []), 'A', ('tspan', c, ['i']), '.']),
}
OWN = [{}, {'x': '50 70'}, {'y': '40'}, {'dx': '5 6'}, {'rotate': '20 -30'},
       {'x': '20 60 30 90', 'dy': '2'}, {'display': 'none'},
       {'font-size': '32', 'dy': '-3 4 8'},
       {'x': '50'}, {'rotate': '90'}, {'y': '10 20 30 40', 'dx': '1'},
       {'dy': '7'}]
QUICK = 8


def nested_cases(thorough):
    own = range(len(OWN) if thorough else QUICK)
    for shape in SHAPES:
        for a in own:
            if 'display' in OWN[a]:
                continue    # the text itself is displayed
            for b in own:
                for c in own if shape != 'inner' else [0]:
                    if thorough or not (a and b and c):
                        yield {'shape': shape, 'own': [a, b, c]}


def nested(case, ctx):
    a, b, c = (dict(OWN[i]) for i in case['own'])
    a = dict(BASE, **a)
    run_spec(SHAPES[case['shape']](a, b, c), ctx)


def length_cases(thorough):
    sizes = ['12', '16', '20', '37.5', '64'] if thorough else ['37.5']
    for size in sizes:
        for shape in SHAPES:
            for tspan in ({}, {'font-size': '2em'}, {'font-size': '75%'},
                          {'dx': '1em 2em'}, {'x': '10% 20%'},
                          {'dy': '5%', 'y': '1em'}, {'display': 'none'}):
                yield {'size': size, 'shape': shape, 'tspan': tspan}


def lengths(case, ctx):
    a = dict(BASE, **{'font-size': case['size']})
    spec = SHAPES[case['shape']](a, dict(case['tspan']), {'dx': '2'})
    run_spec(spec, ctx, lengths=True, deep='some')


def ligature_cases(thorough):
    for word in sequences('fil', 1, 4 if thorough else 3):
        for lists in [{}, {'x': '10 40 90 150'}, {'dx': '1 2 4 8'},
                      {'dy': '1 2 4 8', 'y': '30 20'}, {'rotate': '10 20 30 40'}]:
            yield {'word': ''.join(word), 'lists': lists, 'split': 0}
        for split in range(1, len(word)):
            yield {'word': ''.join(word), 'lists': {'dx': '1 2 4 8'},
                   'split': split}


def ligatures(case, ctx):
    a = {'font-family': SANS, 'font-size': '20'}
    a.update(case['lists'])
    w, k = case['word'], case['split']
    content = [w] if not k else [w[:k], ('tspan', {}, [w[k:]])]
    spec = ('text', a, content)
    if any(len(c) > 1 for c in clusters(w, SANS)):
        ctx.outcome('ligature')
    run_spec(spec, ctx, lengths=True, deep=len(w) < 4)


def combining_cases(thorough):
    for word in sequences('eA\u0301', 1, 4 if thorough else 3):
        word = ''.join(word)
        if word[0] == '\u0301' or 'A\u0301' in word or '\u0301\u0301' in word:
            continue
        for lists in [{}, {'x': '10 40 90 150'}, {'dx': '1 2 4 8', 'dy': '3'},
                      {'y': '30 20', 'rotate': '10 20 30 40'}]:
            yield {'word': word, 'lists': lists}


def combining(case, ctx):
    a = dict(BASE)
    a.update(case['lists'])
    if '\u0301' in case['word']:
        ctx.outcome('composed')
    run_spec(('text', a, [case['word']]), ctx, lengths=True, deep=True)


EDITS = [{}, {'x': '30 60'}, {'y': '40'}, {'dx': '2 3'}, {'rotate': '45'},
         {'font-size': '10'}, {'#text': 'iA'}, {'tspan x': '70'},
         {'tspan #text': '..'}, {'tspan font-size': '10'}]


def edit_cases(thorough):
    for seq in sequences(range(1, len(EDITS)), 2, 3 if thorough else 2):
        yield {'edits': list(seq)}


def edits(case, ctx):
    state = {'text': dict(BASE), '#text': 'A.',
             'tspan': {}, 'tspan #text': 'i'}
    root = parse(markup(('text', state['text'],
                         ['A.', ('tspan', {}, ['i'])])))[0]
    seen = {}
    for k in [0] + case['edits']:
        for key, v in EDITS[k].items():
            who, _, name = key.rpartition(' ')
            e = root[0] if who else root
            toggle = seen.get(key, 0)
            seen[key] = toggle + 1
            if name == '#text':
                v = v if not toggle else 'A'
                e.text = v
                state[key] = v
            elif toggle % 2 == 0:
                e.attributes.set(name, v) if toggle else e.set(name, v)
                state['tspan' if who else 'text'][name] = v
            else:
                del e.attrib[name]
                del state['tspan' if who else 'text'][name]
        attrs = dict(state['text'])
        attrs.setdefault('font-size', '16')
        spec = ('text', attrs, [state['#text'],
                                ('tspan', state['tspan'],
                                 [state['tspan #text']])])
        run_spec(spec, ctx, lengths=True, root=root)
        ctx.step()


def check(run):
    t = run.thorough
    run.cases('lists of nested tspans', list(nested_cases(t)), nested,
              'five shapes of text and tspans; each element with one of %d sets '
              'of attributes, at most %d of them with any'
              % ((len(OWN), 3) if t else (QUICK, 2)), min_outcomes=3)
    run.cases('lengths', list(length_cases(t)), lengths,
              'sizes x shapes x attributes, every start and number of '
              'characters', min_outcomes=2)
    run.cases('ligatures', list(ligature_cases(t)), ligatures,
              'all words over f, i, l with lists and tspan boundaries',
              min_outcomes=2)
    run.cases('combining characters', list(combining_cases(t)), combining,
              'all words over e, A and the combining acute accent with lists',
              min_outcomes=2)
    run.cases('edited texts', list(edit_cases(t)), edits,
              'sequences of edits of a text and its tspan, measured after each',
              min_outcomes=1)
    run.cases('lists of one text', list(one_list_cases(t)), one_list,
              'all combinations of four lists (none, one value, fewer and more '
              'values than characters) for each of x, y, dx, dy and rotate',
              min_outcomes=1)
