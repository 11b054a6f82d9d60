"""C12: path data parsing, serialisation and segment accessors."""
from svgpy import PathParser, SVGPathSegment

from mc.engine import expect, expect_close, expect_eq, outcome, product, \
    sequences

ARITY = {'A': 7, 'B': 1, 'C': 6, 'H': 1, 'L': 2, 'M': 2, 'Q': 4, 'S': 4,
         'T': 2, 'V': 1, 'Z': 0}
CMDS = 'AaBbCcHhLlMmQqSsTtVvZz'
NUMS = [('0', 0), ('-0', 0), ('5', 5), ('+7', 7), ('-12', -12), ('.5', .5),
        ('-.25', -.25), ('3.', 3), ('1e2', 100), ('-2.5E-1', -.25),
        ('6.125', 6.125), ('0.5e+1', 5),
        ('.5E1', 5), ('-.25e+2', -25), ('3.e1', 30)]
SEPS = [' ', ',', ' , ', '\n', ', ', '']
SETTERS = {'A': 'elliptical_arc', 'B': 'bearing', 'C': 'curveto',
           'H': 'horizontal_lineto', 'L': 'lineto', 'M': 'moveto',
           'Q': 'quadratic_curveto', 'S': 'smooth_curveto',
           'T': 'smooth_quadratic_curveto', 'V': 'vertical_lineto'}


def fmt(x):
    s = ('%.6f' % x).rstrip('0').rstrip('.')
    return '0' if s == '-0' else s


def seg_str(cmd, v):
    k = cmd.upper()
    n = [fmt(x) for x in v]
    if k == 'Z':
        return cmd
    if k == 'A':
        return '%s%s,%s %s %s %s %s,%s' % ((cmd,) + tuple(n))
    if k in 'BHV':
        return cmd + n[0]
    return cmd + ' '.join(','.join(n[i:i + 2]) for i in range(0, len(n), 2))


def prog_str(prog):
    out = []
    last = None
    for cmd, v in prog:
        s = seg_str(cmd, v)
        if cmd == last and cmd not in 'Zz':
            s = s[1:]
        out.append(s)
        last = cmd
    return ' '.join(out)


def end_of(cmd, v):
    k = cmd.upper()
    if k in 'BZ':
        return None, None
    if cmd == 'H':
        return v[0], None
    if cmd == 'h':
        return v[0], 0
    if cmd == 'V':
        return None, v[0]
    if cmd == 'v':
        return 0, v[0]
    return tuple(v[-2:])


def verify_seg(s, cmd, v, what):
    expect_eq(s.type, cmd, what + ': type')
    expect_close(s.values, v, what + ': values', 1e-9)
    expect(s.isvalid(), what + ': isvalid')
    expect_eq(s.isabsolute(), cmd.isupper(), what + ': isabsolute')
    expect_eq(s.isrelative(), cmd.islower(), what + ': isrelative')
    expect_eq(s.tostring(), seg_str(cmd, v), what + ': tostring')
    got, want = s.end, end_of(cmd, v)
    expect_eq(len(got), 2, what + ': end')
    for g, w in zip(got, want):
        expect((g is None) == (w is None) and
               (w is None or abs(g - w) < 1e-9), what + ': end', want, got)


def verify_prog(path, prog, what):
    expect_eq([s.type for s in path], [c for c, _ in prog],
              what + ': commands')
    for s, (c, v) in zip(path, prog):
        verify_seg(s, c, v, what)


def join(spell, sep):
    """Joins number spellings; '' packs them as tightly as SVG allows."""
    if sep:
        return sep.join(spell)
    out = ''
    prev = ''
    for s in spell:
        if prev and not (s[0] in '+-' or (s[0] == '.' and '.' in prev)):
            out += ' '
        out += s
        prev = s
    return out


def numbers_case(case, ctx):
    cmd, nums, sep, pad = case
    v = [n[1] for n in nums]
    text = cmd + pad + join([n[0] for n in nums], sep)
    path = PathParser.parse('M0 0' + pad + text + pad)
    ctx.step()
    argc = ARITY[cmd.upper()]
    prog = [('M', (0, 0))] + [
        (cmd, tuple(v[i:i + argc])) for i in range(0, len(v), argc)]
    verify_prog(path, prog, 'parse(%r)' % text)
    s = PathParser.tostring(path)
    expect_eq(s, prog_str(prog), 'tostring')
    back = PathParser.parse(s)
    expect_eq([x.type for x in back], [x.type for x in path], 'reparse')
    for x, y in zip(back, path):
        expect_close(x.values, y.values, 'reparse values', 2e-6)
        expect(x == y, 'segment equality')
    expect_eq(PathParser.tostring(back), s, 'tostring is stable')
    ctx.step(3)
    ctx.outcome((cmd, len(prog) - 1))


ARGS = {'A': [(25, 10, -30, 0, 1, 50, -25), (5, 5, 0, 1, 0, 0, .5)],
        'B': [(90,), (-15.5,)], 'C': [(1, 2, 3, 4, 5, 6), (0, 0, -1, .5, 7, 7)],
        'H': [(4,), (-.5,)], 'L': [(7, 8), (0, -1)], 'M': [(1, 1), (2, 0)],
        'Q': [(1, 3, 5, 7), (0, 0, -2, 2)], 'S': [(9, 8, 7, 6), (1, 0, 0, 1)],
        'T': [(3, 3), (-1, -2)], 'V': [(6,), (0,)], 'Z': [()]}


def program_case(case, ctx):
    prog = [(c, ARGS[c.upper()][i % len(ARGS[c.upper()])]) for c, i in case]
    segs = [SVGPathSegment(c, *v) for c, v in prog]
    verify_prog(segs, prog, 'constructor')
    s = PathParser.tostring(segs)
    expect_eq(s, prog_str(prog), 'tostring')
    for text in (s,
                 ''.join(seg_str(c, v) for c, v in prog),
                 ' '.join(seg_str(c, v) for c, v in prog),
                 '\n'.join(c + ','.join(fmt(x) for x in v)
                           for c, v in prog)):
        back = PathParser.parse(text)
        verify_prog(back, prog, 'parse(%r)' % text)
        for x, y in zip(back, segs):
            expect(x == y and not (x != y), 'equality')
        ctx.step()
    for i in range(len(segs) - 1):
        x, y = prog[i], prog[i + 1]
        expect_eq(segs[i] == segs[i + 1], x == y, 'equality of neighbours')
    ctx.outcome(len(prog))


def setter_case(case, ctx):
    s = SVGPathSegment()
    expect_eq((s.type, s.tostring(), s.isvalid(), s.isabsolute(),
               s.isrelative(), s.end),
              (None, '', False, None, None, (None, None)), 'empty segment')
    for cmd, i in case:
        v = ARGS[cmd.upper()][i]
        name = 'set_%s_%s' % (SETTERS[cmd.upper()],
                              'abs' if cmd.isupper() else 'rel')
        getattr(s, name)(*v)
        verify_seg(s, cmd, v, name)
        expect(s == SVGPathSegment(cmd, *v), name + ': equality')
        ctx.step()
        for now in (30, 0, 300, -45, -270.5, 720):
            want = {'B': v[0], 'b': now + v[0]}.get(cmd, now) if v else now
            expect_close(s.get_bearing(now), want, 'get_bearing')
    ctx.outcome(case[0][0])


def partial_case(case, ctx):
    """Incomplete trailing arguments are dropped, complete ones are kept."""
    cmd, n = case
    argc = ARITY[cmd.upper()]
    vals = [1, 1, 0, 1, 1, 5, 6, 2, 2, 0, 0, 1, 7, 8, 3, 3, 0, 1, 0, 9][:n]
    text = 'M3,4 ' + cmd + ' ' + ' '.join(str(x) for x in vals)
    path = PathParser.parse(text)
    prog = [('M', (3, 4))] + [
        (cmd, tuple(vals[i:i + argc]))
        for i in range(0, n - n % argc, argc)]
    verify_prog(path, prog, 'parse(%r)' % text)
    ctx.outcome(len(prog))


def flag_case(case, ctx):
    """Arc flags are single characters and need no separator."""
    rel, fa, fs, s1, s2, s3, tail, rep = case
    cmd = 'a' if rel else 'A'
    one = '25,10 -30 %s%s%s%s%s%s' % (fa, s1, fs, s2, '', tail)
    text = 'M1 2' + cmd + s3.join([one] * rep)
    x, y = {'50-25': (50, -25), '-5 6': (-5, 6), '.5.5': (.5, .5),
            '10,1': (10, 1)}[tail]
    prog = [('M', (1, 2))] + [
        (cmd, (25, 10, -30, int(fa), int(fs), x, y))] * rep
    path = PathParser.parse(text)
    verify_prog(path, prog, 'parse(%r)' % text)
    ctx.outcome((s1, s2))


def misc_case(case, ctx):
    ctx.step()
    if case == 'empty':
        for t in (None, '', ' ', '\n'):
            expect_eq(PathParser.parse(t), [], 'parse(%r)' % (t,))
        expect_eq(PathParser.tostring([]), '', 'tostring([])')
        expect_eq(PathParser.tostring([SVGPathSegment()]), '', 'unknown')
    elif case == 'foreign':
        for f in (PathParser.tostring, PathParser.normalize,
                  PathParser.get_total_length, PathParser.get_bbox):
            expect_eq(outcome(f, ['M0,0']), ('exc', 'TypeError'), 'foreign')
    else:
        p = SVGPathSegment('L', 1, 2)
        expect_eq(p == ('L', 1, 2), False, 'foreign equality')
        expect(p != SVGPathSegment('l', 1, 2), 'case matters')
        expect(p != SVGPathSegment('L', 1, 3), 'values matter')
        expect(p != SVGPathSegment('M', 1, 2), 'type matters')
    ctx.outcome(case)


def check(run):
    cases = []
    for cmd in CMDS:
        argc = ARITY[cmd.upper()]
        if argc == 0:
            continue
        if cmd in 'Aa':
            al = NUMS[:]
            for i, n in enumerate(al):
                for sep in SEPS:
                    if sep == '':
                        continue
                    for pos in (0, 1, 2, 5, 6):
                        v = [('5', 5), ('5', 5), ('30', 30), ('0', 0),
                             ('1', 1), ('8', 8), ('9', 9)]
                        v[pos] = n
                        for rep in (1, 2):
                            cases.append((cmd, tuple(v * rep), sep, ''))
            continue
        if argc == 1:
            sets = sequences(NUMS, 1, 2)
        elif argc == 2:
            sets = sequences(NUMS, 2, 2) + [
                (a, b, c, d) for a in NUMS[2:8:2] for b in NUMS[3:9:2]
                for c in NUMS[4:10:2] for d in NUMS[5:11:2]]
        else:
            k = 3 if argc == 4 else 2
            if run.thorough:
                k += 1
            al = [NUMS[4], NUMS[5], NUMS[2], NUMS[8]][:k]
            sets = product(*[al] * argc)
            base = [NUMS[2]] * argc
            for pos in range(argc):
                for n in NUMS:
                    b = list(base)
                    b[pos] = n
                    sets.append(tuple(b))
                    sets.append(tuple(b + base))
        for s in sets:
            for sep in SEPS:
                for pad in ('', ' '):
                    cases.append((cmd, s, sep, pad))
    run.cases('numbers', cases, numbers_case,
              'every command, number spelling, separator and repetition',
              min_outcomes=30)
    al = [(c, i) for c in CMDS for i in range(len(ARGS[c.upper()]))]
    prog = sequences(al, 1, 2)
    small = [(c, 0) for c in CMDS]
    prog += sequences(small, 3, 3)
    if run.thorough:
        prog += sequences(al, 3, 3)
    run.cases('programs', prog, program_case,
              'every sequence of at most 3 commands', min_outcomes=3)
    st = [(c, i) for c in CMDS if c not in 'Zz'
          for i in range(len(ARGS[c.upper()]))]
    run.cases('setters', sequences(st, 1, 2), setter_case,
              'every pair of setters on one segment', min_outcomes=20)
    run.cases('partial-arguments',
              [(c, n) for c in CMDS if c not in 'Zz' for n in range(0, 20)],
              partial_case, 'every argument count 0..19', min_outcomes=5)
    run.cases('arc-flags', product(
        [0, 1], '01', '01', ['', ' ', ','], ['', ' ', ','], [' ', ','],
        ['50-25', '-5 6', '.5.5', '10,1'], [1, 2]), flag_case,
        'every separator between the flags of an arc', min_outcomes=9)
    run.cases('misc', ['empty', 'foreign', 'equality'], misc_case)
