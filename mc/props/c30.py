"""C30: text is ordered, segmented and shaped as Unicode and the font say."""
import unicodedata

from svgpy.freetype import FreeType, FTFace
from svgpy.harfbuzz import (HBBlob, HBBuffer, HBDirection, HBFace, HBFeature,
                            HBFont, HBFTFont, HBLanguage, HBOTFont, HBScript)
from svgpy.icu import UBiDi, UBreakIterator, ULocale

from mc import ttf
from mc.engine import expect, expect_eq, product

# --- the Unicode bidirectional algorithm (UAX #9) without explicit codes ----


def units(text):
    """[(class, char index)] of each UTF-16 code unit."""
    out = []
    for i, c in enumerate(text):
        out += [i] * (2 if ord(c) > 0xffff else 1)
    return out


def bidi_levels(text, default):
    types = [unicodedata.bidirectional(c) for c in text]
    para = {'ltr': 0, 'rtl': 1}[default]
    for t in types:
        if t in ('L', 'R', 'AL'):
            para = 0 if t == 'L' else 1
            break
    sos = eos = 'R' if para else 'L'
    t = list(types)
    n = len(t)
    prev = sos
    for i in range(n):  # W1
        if t[i] == 'NSM':
            t[i] = prev
        prev = t[i]
    strong = sos
    for i in range(n):  # W2
        if t[i] in ('L', 'R', 'AL'):
            strong = t[i]
        elif t[i] == 'EN' and strong == 'AL':
            t[i] = 'AN'
    t = ['R' if x == 'AL' else x for x in t]  # W3
    for i in range(1, n - 1):  # W4
        if t[i] == 'ES' and t[i - 1] == t[i + 1] == 'EN':
            t[i] = 'EN'
        elif t[i] == 'CS' and t[i - 1] == t[i + 1] and t[i - 1] in (
                'EN', 'AN'):
            t[i] = t[i - 1]
    i = 0
    while i < n:  # W5
        if t[i] == 'ET':
            j = i
            while j < n and t[j] == 'ET':
                j += 1
            if (i > 0 and t[i - 1] == 'EN') or (j < n and t[j] == 'EN'):
                t[i:j] = ['EN'] * (j - i)
            i = j
        else:
            i += 1
    t = ['ON' if x in ('ES', 'ET', 'CS') else x for x in t]  # W6
    strong = sos
    for i in range(n):  # W7
        if t[i] in ('L', 'R'):
            strong = t[i]
        elif t[i] == 'EN' and strong == 'L':
            t[i] = 'L'
    neutral = ('ON', 'WS', 'S', 'B')
    i = 0
    while i < n:  # N1, N2
        if t[i] in neutral:
            j = i
            while j < n and t[j] in neutral:
                j += 1
            as_dir = {'L': 'L', 'R': 'R', 'EN': 'R', 'AN': 'R'}
            before = as_dir[t[i - 1]] if i else sos
            after = as_dir[t[j]] if j < n else eos
            t[i:j] = [before if before == after else 'e'] * (j - i)
            i = j
        else:
            i += 1
    levels = []
    for x in t:  # I1, I2
        if x == 'e':
            levels.append(para)
        elif para == 0:
            levels.append({'L': 0, 'R': 1, 'AN': 2, 'EN': 2}[x])
        else:
            levels.append({'L': 2, 'R': 1, 'AN': 2, 'EN': 2}[x])
    i = n
    while i > 0 and types[i - 1] == 'WS':  # L1
        i -= 1
        levels[i] = para
    return para, levels


def visual_order(levels):
    """L2: the logical indices in visual order."""
    order = list(range(len(levels)))
    if not levels:
        return order
    for level in range(max(levels), 0, -1):
        i = 0
        while i < len(order):
            if levels[order[i]] >= level:
                j = i
                while j < len(order) and levels[order[j]] >= level:
                    j += 1
                order[i:j] = order[i:j][::-1]
                i = j
            else:
                i += 1
    return order


def runs_of(levels):
    out = []
    for i, x in enumerate(levels):
        if out and out[-1][2] == x:
            out[-1][1] = i + 1
        else:
            out.append([i, i + 1, x])
    return out


def spoil(para, n, what):
    """A call that fails leaves the next ones as they are."""
    first = para.get_logical_run(0)
    run = para.get_visual_run(0)
    shown = para.write_reordered()
    at = para.get_visual_index(0)
    at2 = para.get_logical_index(0)

    def fail():
        para.get_visual_index(n + 3)
        expect(para.status > 0, what + ': an index beyond the end')
    for call, args, want in (
            ('get_visual_index', (0,), at), ('get_logical_index', (0,), at2),
            ('get_visual_run', (0,), run), ('get_logical_run', (0,), first),
            ('write_reordered', (), shown)):
        fail()
        expect_eq(getattr(para, call)(*args), want,
                  '%s: %s after a failure' % (what, call))
    for mode in (4, 0):
        para.set_reordering_mode(mode)
        expect_eq(para.get_reordering_mode(), mode, 'reordering mode')
    for options in (1, 0):
        para.set_reordering_options(options)
        expect_eq(para.get_reordering_options(), options,
                  'reordering options')


MIRROR = {'(': ')', ')': '(', '<': '>'}

BIDI = 'a\u05d0\u06271\u0663 .-%!\u0301\U0001d538\U00010900'


def fn_bidi(case, ctx):
    texts = case
    para = UBiDi()
    for text in texts:
        for default, code in (('ltr', UBiDi.UBIDI_DEFAULT_LTR),
                              ('rtl', UBiDi.UBIDI_DEFAULT_RTL)):
            what = '%r, default %s' % (text, default)
            base, levels = bidi_levels(text, default)
            index = units(text)
            ul = [levels[i] for i in index]
            para.set_para(text, code)
            expect_eq(para.status <= 0, True, what)
            expect_eq(para.get_para_level() & 1, base, what + ': level')
            expect_eq((para.get_length(), para.get_processed_length()),
                      (len(ul), len(ul)), what + ': length')
            expect_eq(para.get_text(), text, what + ': text')
            kinds = {x & 1 for x in ul}
            want = {UBiDi.UBIDI_MIXED}
            if kinds == {base}:
                want = {base}
                if set(ul) != {base}:
                    want.add(UBiDi.UBIDI_MIXED)
            expect(para.get_direction() in want,
                   what + ': direction %d' % para.get_direction())
            # text without a right-to-left letter may stay on one level
            strong = any(unicodedata.bidirectional(c) in ('R', 'AL')
                         for c in text) or base
            logical = runs_of(ul)
            pos = 0
            got = []
            while pos < len(ul):
                limit, level = para.get_logical_run(pos)
                expect(limit > pos, what + ': run of %d ends at %d' % (
                    pos, limit))
                got.append([pos, limit, level])
                pos = limit
            have = [x for a, b, x in got for _ in range(a, b)]
            order = visual_order(ul)
            count = para.count_runs()
            expect_eq(count, len(got), what + ': number of runs')
            if strong:
                expect_eq(have, ul, what + ': levels')
                expect_eq(len(got), len(logical), what + ': runs %r' % got)
            else:
                expect_eq([x & 1 for x in have], [x & 1 for x in ul],
                          what + ': levels')
                expect_eq(visual_order(have), order, what + ': levels')
            seen = []
            for i in range(count):
                start, length, direction = para.get_visual_run(i)
                part = list(range(start, start + length))
                expect_eq({x & 1 for x in ul[start:start + length]},
                          {direction}, what + ': direction of a run')
                seen += part[::-1] if direction else part
            expect_eq(seen, order, what + ': visual runs')
            if len(text) < 3:
                spoil(para, len(ul), what)
            for v, i in enumerate(order):
                if len(text) < 3:
                    para.get_visual_index(len(ul) + 3)
                expect_eq(para.get_logical_index(v), i,
                          what + ': logical index')
                expect_eq(para.get_visual_index(i), v,
                          what + ': visual index')
            chars = visual_order(levels)
            shown = ''.join(text[i] for i in chars)
            expect_eq(''.join(para.visual_iter()), shown,
                      what + ': visual_iter')
            expect_eq(para.write_reordered(), (shown, len(ul)),
                      what + ': write_reordered')
            expect_eq(para.count_paragraphs(), 1, what + ': paragraphs')
            mirrored = ''.join(MIRROR.get(text[i], text[i])
                               if levels[i] & 1 else text[i] for i in chars)
            expect_eq(para.write_reordered(UBiDi.UBIDI_DO_MIRRORING),
                      (mirrored, len(ul)), what + ': mirrored')
            expect_eq(para.write_reordered(UBiDi.UBIDI_OUTPUT_REVERSE),
                      (shown[::-1], len(ul)), what + ': reversed')
            expect_eq(para.write_reordered(), (shown, len(ul)),
                      what + ': write_reordered again')
            ctx.outcome((base, min(count, 4)))
        ctx.step()


# --- boundaries (UAX #29, UAX #14) -------------------------------------------

RI = '\U0001f1e6'
GB = 'a \r\n\u0301\u200d' + RI + '\U0001f469\u1100\u1161\u11a8\u0903\U0001d538'
GB_CLASS = {'a': 'O', ' ': 'O', '\r': 'CR', '\n': 'LF', '\u0301': 'EX',
            '\u200d': 'ZWJ', RI: 'RI', '\U0001f469': 'PIC', '\u1100': 'L',
            '\u1161': 'V', '\u11a8': 'T', '\u0903': 'SM', '\U0001d538': 'O'}


def grapheme_breaks(text):
    c = [GB_CLASS[x] for x in text]
    out = [0]
    for i in range(1, len(c)):
        a, b = c[i - 1], c[i]
        if a == 'CR' and b == 'LF':
            continue
        if a in ('CR', 'LF') or b in ('CR', 'LF'):
            out.append(i)
            continue
        if a == 'L' and b in ('L', 'V') or a == 'V' and b in ('V', 'T') \
                or a == b == 'T':
            continue
        if b in ('EX', 'ZWJ', 'SM'):
            continue
        if a == 'ZWJ' and b == 'PIC':
            j = i - 2
            while j >= 0 and c[j] == 'EX':
                j -= 1
            if j >= 0 and c[j] == 'PIC':
                continue
        if a == b == 'RI':
            j = i - 1
            while j >= 0 and c[j] == 'RI':
                j -= 1
            if (i - 1 - j) % 2 == 1:
                continue
        out.append(i)
    return out + [len(c)] if c else [0]


WB = "a1 .,'_\u0301\u05d0\n\"\u30a2\U0001d538"
WB_CLASS = {'a': 'AL', '1': 'NU', ' ': 'WS', '.': 'MB', ',': 'MN', "'": 'SQ',
            '_': 'EX', '\u0301': 'CM', '\u05d0': 'HL', '\n': 'LF', '"': 'DQ',
            '\u30a2': 'KA', '\U0001d538': 'AL'}


def word_breaks(text):
    c = [WB_CLASS[x] for x in text]
    n = len(c)
    out = [0]

    def before(i):
        i -= 1
        while i >= 0 and c[i] == 'CM':
            i -= 1
        return i

    def after(i):
        i += 1
        while i < n and c[i] == 'CM':
            i += 1
        return i
    for i in range(1, n):
        if c[i - 1] == 'LF' or c[i] == 'LF':
            out.append(i)
            continue
        if c[i - 1] == c[i] == 'WS':
            continue
        if c[i] == 'CM':
            continue
        p = before(i)
        if p < 0 or c[p] == 'LF':
            # marks at the start of a line stand alone
            out.append(i)
            continue
        a, b = c[p], c[i]
        q = before(p)
        a2 = c[q] if q >= 0 else None
        r = after(i)
        b2 = c[r] if r < n else None
        ah = ('AL', 'HL')
        if a in ah and b in ah:
            continue
        if a in ah and b in ('MB', 'SQ') and b2 in ah:
            continue
        if a in ('MB', 'SQ') and b in ah and a2 in ah:
            continue
        if a == 'HL' and b == 'SQ':
            continue
        if a == 'HL' and b == 'DQ' and b2 == 'HL':
            continue
        if a == 'DQ' and b == 'HL' and a2 == 'HL':
            continue
        if a in ah + ('NU',) and b == 'NU' or a == 'NU' and b in ah:
            continue
        num = ('MN', 'MB', 'SQ')
        if a in num and b == 'NU' and a2 == 'NU':
            continue
        if a == 'NU' and b in num and b2 == 'NU':
            continue
        if a == b == 'KA':
            continue
        if b == 'EX' and a in ah + ('NU', 'KA', 'EX'):
            continue
        if a == 'EX' and b in ah + ('NU', 'KA'):
            continue
        out.append(i)
    return out + [n] if n else [0]


LB = 'a \n\u6c34\u00a0\u0301\u200b\U0001d538'
LB_CLASS = {'a': 'AL', ' ': 'SP', '\n': 'LF', '\u6c34': 'ID',
            '\u00a0': 'GL', '\u0301': 'CM', '\u200b': 'ZW',
            '\U0001d538': 'AL'}


def line_breaks(text):
    c = [LB_CLASS[x] for x in text]
    n = len(c)
    r = list(c)
    for i in range(n):  # LB9, LB10
        if c[i] == 'CM':
            if i and c[i - 1] not in ('LF', 'SP', 'ZW'):
                r[i] = r[i - 1]
                c[i] = 'x'
            else:
                r[i] = 'AL'
    out = [0]
    for i in range(1, n):
        a, b = r[i - 1], r[i]
        if a == 'LF':
            out.append(i)
        elif b in ('LF', 'SP', 'ZW') and c[i] != 'x':
            continue
        elif c[i] == 'x':
            continue
        else:
            j = i - 1
            while j >= 0 and r[j] == 'SP':
                j -= 1
            if j >= 0 and r[j] == 'ZW':
                out.append(i)
            elif a == 'GL':
                continue
            elif b == 'GL' and a != 'SP':
                continue
            elif a == 'SP':
                out.append(i)
            elif a == b == 'AL':
                continue
            else:
                out.append(i)
    return out + [n] if n else [0]


SB = 'Aa1.! \n,)'
SB_CLASS = {'A': 'UP', 'a': 'LO', '1': 'NU', '.': 'AT', '!': 'ST', ' ': 'SP',
            '\n': 'LF', ',': 'SC', ')': 'CL'}


def sentence_breaks(text):
    c = [SB_CLASS[x] for x in text]
    n = len(c)
    out = [0]
    term = ('AT', 'ST')
    for i in range(1, n):
        a, b = c[i - 1], c[i]
        if a == 'LF':
            out.append(i)
            continue
        if a == 'AT' and b == 'NU':
            continue
        if a == 'AT' and b == 'UP' and i >= 2 and c[i - 2] in ('UP', 'LO'):
            continue
        # ... SATerm Close* Sp* before i
        j = i - 1
        spaces = 0
        while j >= 0 and c[j] == 'SP':
            j -= 1
            spaces += 1
        while j >= 0 and c[j] == 'CL':
            j -= 1
        t = c[j] if j >= 0 and c[j] in term else None
        if t == 'AT':
            k = i
            while k < n and c[k] not in ('UP', 'LO', 'LF', 'AT', 'ST'):
                k += 1
            if k < n and c[k] == 'LO':
                continue
        if t and b in ('SC', 'AT', 'ST'):
            continue
        if t and not spaces and b in ('CL', 'SP', 'LF'):
            continue
        if t and b in ('SP', 'LF'):
            continue
        if t:
            out.append(i)
    return out + [n] if n else [0]


KINDS = {'character': (UBreakIterator.UBRK_CHARACTER, GB, grapheme_breaks),
         'word': (UBreakIterator.UBRK_WORD, WB, word_breaks),
         'line': (UBreakIterator.UBRK_LINE, LB, line_breaks),
         'sentence': (UBreakIterator.UBRK_SENTENCE, SB, sentence_breaks)}


def offsets(text, breaks):
    index = units(text) + [len(text)]
    return [index.index(b) for b in breaks]


def fn_breaks(case, ctx):
    kind, texts = case
    code, _, rule = KINDS[kind]
    shared = UBreakIterator(code, 'en')
    for text in texts:
        breaks = rule(text)
        parts = [text[a:b] for a, b in zip(breaks, breaks[1:])]
        what = '%s boundaries of %r' % (kind, text)
        shared.set_text(text)
        expect_eq(shared.status <= 0, True, what)
        expect_eq(list(shared), parts, what)
        expect_eq(list(reversed(shared)), parts[::-1], what + ', reversed')
        expect_eq([x for x in shared], parts, what + ', again')
        where = offsets(text, breaks)
        got = [shared.first()]
        while True:
            k = shared.next()
            if k == UBreakIterator.UBRK_DONE:
                break
            expect_eq(shared.current(), k, what + ': current')
            got.append(k)
        expect_eq(got, where, what + ': next')
        got = [shared.last()]
        while True:
            k = shared.previous()
            if k == UBreakIterator.UBRK_DONE:
                break
            expect_eq(shared.current(), k, what + ': current')
            got.append(k)
        expect_eq(got, where[::-1], what + ': previous')
        if len(text) <= 2:
            own = UBreakIterator(code, 'en', text)
            expect_eq(list(own), parts, what + ', text at construction')
        ctx.step()
        ctx.outcome(min(len(parts), 4))


MOVES = ('first', 'last', 'next', 'previous', 'step', 'iter', 'text0',
         'text1')


def fn_moves(case, ctx):
    """Histories of moves of one iterator."""
    kind, moves = case
    code, _, rule = KINDS[kind]
    texts = {'word': ('a1 .a', 'a'), 'line': ('a \u6c34a a', '\u6c34 a'),
             'sentence': ('A. A! a', 'a'),
             'character': ('a\u0301\U0001d538', 'a a')}[kind]
    it = UBreakIterator(code, 'en', texts[0])
    text = texts[0]
    where = offsets(text, rule(text))
    breaks = rule(text)
    pos = 0
    done = False
    for move in moves:
        what = '%s %r: %s' % (kind, moves, move)
        if move not in ('next', 'previous', 'step'):
            done = False
        elif done:
            # ICU itself stays done until it is repositioned
            break
        if move.startswith('text'):
            text = texts[int(move[4])]
            breaks = rule(text)
            where = offsets(text, breaks)
            it.set_text(text)
            pos = 0
        elif move in ('first', 'last'):
            pos = 0 if move == 'first' else len(where) - 1
            expect_eq(getattr(it, move)(), where[pos], what)
        elif move == 'next':
            got = it.next()
            if pos + 1 < len(where):
                pos += 1
                expect_eq(got, where[pos], what)
            else:
                expect_eq(got, UBreakIterator.UBRK_DONE, what)
        elif move == 'previous':
            got = it.previous()
            if pos:
                pos -= 1
                expect_eq(got, where[pos], what)
            else:
                expect_eq(got, UBreakIterator.UBRK_DONE, what)
                done = True
        elif move == 'step':
            got = next(it, None)
            if pos + 1 < len(where):
                pos += 1
                expect_eq(got, text[breaks[pos - 1]:breaks[pos]], what)
            else:
                expect_eq(got, None, what)
        else:
            got = list(it)
            expect_eq(got, [text[a:b] for a, b in zip(breaks, breaks[1:])],
                      what)
            pos = len(where) - 1
        expect_eq(it.current(), where[pos], what + ': current')
        ctx.step()
    ctx.outcome(pos)


# --- locales -----------------------------------------------------------------

LOCALES = {('en', ''): 0, ('ja', ''): 0, ('ar', ''): 1, ('he', ''): 1,
           ('fa', ''): 1, ('ru', ''): 0, ('zh', ''): 0, ('ur', ''): 1,
           ('uz', 'Arab'): 1, ('uz', 'Latn'): 0, ('uz', 'Cyrl'): 0,
           ('pa', 'Arab'): 1, ('pa', 'Guru'): 0, ('zh', 'Hant'): 0,
           ('zh', 'Hans'): 0, ('sr', 'Latn'): 0, ('sr', 'Cyrl'): 0}


def fn_locale(case, ctx):
    (lang, script), country, sep, upper = case
    name = sep.join(x for x in (lang, script, country) if x)
    if upper:
        name = name.upper()
    loc = ULocale(name)
    expect_eq(loc.get_language(), lang, name + ': language')
    expect_eq(loc.get_script(), script, name + ': script')
    want = LOCALES[lang, script]
    expect_eq(loc.get_character_orientation(),
              ULocale.ULOC_LAYOUT_RTL if want else ULocale.ULOC_LAYOUT_LTR,
              name + ': orientation')
    expect_eq(loc.get_line_orientation(), ULocale.ULOC_LAYOUT_TTB,
              name + ': lines')
    expect_eq(loc.locale, name, 'the locale is left alone')
    for call, want in (('get_language', lang), ('get_script', script)):
        loc.locale = 'abcdefghijkl_Latnx' * 20
        getattr(loc, call)()
        loc.locale = name
        expect_eq(getattr(loc, call)(), want,
                  '%s: %s after a failure' % (name, call))
    ctx.outcome((want, bool(script)))


# --- features, directions, scripts ---------------------------------------------

def tag_of(text):
    text = (text + '    ')[:4]
    n = 0
    for c in text:
        n = n << 8 | ord(c)
    return n


END = 0xffffffff
RANGES = {'': (0, END), '[]': (0, END), '[:]': (0, END), '[5:]': (5, END),
          '[:5]': (0, 5), '[3:5]': (3, 5), '[3]': (3, 4),
          '[1000000:2000000]': (1000000, 2000000)}
VALUES = {'': 1, '=100000': 100000, '=0': 0, '=1': 1, '=2': 2, ' on': 1, ' off': 0, ' 3': 3,
          '=on': 1}


def fn_feature(case, ctx):
    prefix, tag, rng, value = case
    text = prefix + tag + rng + value
    want = VALUES[value]
    if prefix == '-':
        want = 0 if not value else want
    f = HBFeature.fromstring(text)
    expect(f is not None, '%r is a feature' % text)
    start, end = RANGES[rng]
    expect_eq((f.tag, f.value, f.start, f.end),
              (tag_of(tag), want, start, end), 'feature %r' % text)
    again = HBFeature.fromstring(f.tostring())
    expect_eq((again.tag, again.value, again.start, again.end),
              (f.tag, f.value, f.start, f.end),
              '%r, serialised as %r' % (text, f.tostring()))
    f.value, f.start, f.end, f.tag = 7, 1, 9, tag_of('ssty')
    again = HBFeature.fromstring(f.tostring())
    expect_eq((again.tag, again.value, again.start, again.end),
              (tag_of('ssty'), 7, 1, 9), 'an edited feature')
    ctx.outcome((want, end == END))


def fn_no_feature(case, ctx):
    expect_eq(HBFeature.fromstring(case), None, '%r is no feature' % case)
    ctx.outcome('none')


def fn_language(case, ctx):
    name, text = case
    lang = HBLanguage.fromstring(text)
    expect_eq(lang.tostring(), name, 'language %r' % text)
    buf = HBBuffer.create()
    buf.set_language(lang)
    expect_eq(buf.get_language().tostring(), name, 'of a buffer')
    ctx.outcome(name)


def fn_direction(case, ctx):
    name, text = case
    d = HBDirection.fromstring(text)
    expect_eq(d.tostring(), name, 'direction %r' % text)
    expect_eq((d.is_horizontal(), d.is_vertical()),
              (name in ('ltr', 'rtl'), name in ('ttb', 'btt')), name)
    expect_eq((d.is_forward(), d.is_backward(), d.is_valid()),
              (name in ('ltr', 'ttb'), name in ('rtl', 'btt'), True), name)
    other = {'ltr': 'rtl', 'rtl': 'ltr', 'ttb': 'btt', 'btt': 'ttb'}[name]
    expect_eq(d.reverse().tostring(), other, name + ' reversed')
    expect_eq(d.tostring(), name, 'left alone')
    ctx.outcome(name)


SCRIPT_DIRECTION = {'Latn': 'ltr', 'Arab': 'rtl', 'Hebr': 'rtl',
                    'Cyrl': 'ltr', 'Hani': 'ltr', 'Syrc': 'rtl',
                    'Thai': 'ltr', 'Grek': 'ltr'}


def fn_script(case, ctx):
    name, text = case
    s = HBScript.fromstring(text)
    expect_eq(s.to_iso15924_tag(), tag_of(name), text)
    expect_eq(HBScript.from_iso15924_tag(tag_of(name)).script, s.script, text)
    expect_eq(s.to_iso15924_string(), name, text)
    expect_eq(s.get_horizontal_direction().tostring(),
              SCRIPT_DIRECTION[name], text)
    ctx.outcome(SCRIPT_DIRECTION[name])


# --- buffers and shaping -----------------------------------------------------

FONTS = ['/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf',
         '/usr/share/fonts/truetype/dejavu/DejaVuSerif-Bold.ttf',
         '/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf']
HB = 'AV1 \u6c34\u044f\U0001d538'
PLAIN = ['-kern', '-liga', '-clig', '-calt', '-ccmp', '-locl', '-dlig',
         '-rlig']


def buffer_of(text, form, direction='ltr'):
    buf = HBBuffer.create()
    buf.set_cluster_level(HBBuffer.CLUSTER_LEVEL_MONOTONE_CHARACTERS)
    getattr(buf, 'add_' + form)(text)
    buf.set_direction(HBDirection.fromstring(direction))
    buf.set_script(HBScript.fromstring('Latn'))
    buf.set_language(HBLanguage.fromstring('en'))
    return buf


def clusters_of(text, form):
    out = []
    n = 0
    for c in text:
        out.append(n)
        n += {'utf8': len(c.encode()), 'utf16': len(c.encode('utf-16-le')) // 2,
              'utf32': 1}[form]
    return out


def fn_buffer(case, ctx):
    texts, form = case
    for text in texts:
        what = '%s %r' % (form, text)
        buf = buffer_of(text, form)
        want = [(ord(c), k) for c, k in zip(text, clusters_of(text, form))]

        def infos():
            return [(i.codepoint, i.cluster) for i in buf.get_glyph_infos()]
        expect_eq(infos(), want, what)
        expect_eq(buf.get_length(), len(text), what + ': length')
        expect_eq((buf.get_direction().tostring(),
                   buf.get_script().to_iso15924_tag(),
                   buf.get_language().tostring(), buf.get_cluster_level()),
                  ('ltr', tag_of('Latn'), 'en', 1), what + ': properties')
        buf.reverse()
        want.reverse()
        expect_eq(infos(), want, what + ' reversed')
        for i in range(len(text)):
            for j in range(i, len(text) + 1):
                buf.reverse_range(i, j)
                want[i:j] = want[i:j][::-1]
                expect_eq(infos(), want, what + ', range reversed')
        buf.clear_contents()
        expect_eq((infos(), buf.get_length()), ([], 0), what + ', cleared')
        expect_eq(buf.get_cluster_level(), 1, what + ': level, cleared')
        ctx.step()
        ctx.outcome(len(text))


def fn_shape(case, ctx):
    path, size, texts = case
    t = ttf.load(path)
    face = FTFace.new_face(path)
    face.select_charmap(FreeType.FT_ENCODING_UNICODE)
    face.set_pixel_sizes(0, size)
    font = HBFTFont.create(face)
    features = [HBFeature.fromstring(x) for x in PLAIN]
    k = size * 64 / t.upem
    pairs = t.kerning()
    for text in texts:
        for direction in ('ltr', 'rtl'):
            for form in ('utf8', 'utf32'):
                what = '%s %d %r %s %s' % (path[-20:], size, text, direction,
                                           form)
                buf = buffer_of(text, form, direction)
                buf.shape(font, features)
                want = [(t.cmap.get(ord(c), 0), n) for c, n in zip(
                    text, clusters_of(text, form))]
                if direction == 'rtl':
                    want.reverse()
                expect_eq([(i.codepoint, i.cluster)
                           for i in buf.get_glyph_infos()], want, what)
                for p, (g, _) in zip(buf.get_glyph_positions(), want):
                    # grid-fitted advances are whole pixels
                    expect(abs(p.x_advance - t.hmtx(g)[0] * k) <= 64,
                           what + ': advance %d of glyph %d'
                           % (p.x_advance, g))
                    expect_eq((p.y_advance, p.x_offset, p.y_offset),
                              (0, 0, 0), what + ': offsets')
                expect_eq(buf.get_length(), len(want), what + ': length')
        ctx.step()
        ctx.outcome((len(text), len(pairs) > 0))


SEGMENT = {'a': ('Latn', 'ltr'), '\u05d0': ('Hebr', 'rtl'),
           '\u0627': ('Arab', 'rtl'), '\u044f': ('Cyrl', 'ltr'),
           '\U0001d538': None, '1': None, ' ': None, '\u0301': None,
           '\u6c34': ('Hani', 'ltr')}


def fn_segment(case, ctx):
    """Histories of one buffer: filled, guessed, cleared, reset."""
    texts = case
    buf = HBBuffer.create()
    for text in texts:
        for form in ('utf8', 'utf16', 'utf32'):
            what = '%s %r' % (form, text)
            getattr(buf, 'add_' + form)(text)
            first = [SEGMENT[c] for c in text if SEGMENT[c]]
            buf.guess_segment_properties()
            script, direction = first[0] if first else (None, 'ltr')
            expect_eq(buf.get_direction().tostring(), direction,
                      what + ': direction')
            if script:
                expect_eq(buf.get_script().to_iso15924_tag(), tag_of(script),
                          what + ': script')
            getattr(buf, 'add_' + form)(text)
            expect_eq([i.codepoint for i in buf.get_glyph_infos()],
                      [ord(c) for c in text * 2], what + ', added twice')
            buf.set_cluster_level(HBBuffer.CLUSTER_LEVEL_CHARACTERS)
            buf.reset()
            expect_eq((buf.get_length(), buf.get_cluster_level(),
                       buf.get_direction().is_valid()), (0, 0, False),
                      what + ', reset')
            buf.reverse_clusters()
            expect_eq(buf.get_length(), 0, what)
            ctx.outcome(script)
        ctx.step()


def fn_fonts(case, ctx):
    path, scale = case
    t = ttf.load(path)
    with open(path, 'rb') as f:
        data = f.read()
    blob = HBBlob.create(data)
    expect_eq((blob.get_length(), blob.get_data() == data),
              (len(data), True), path + ': blob')
    for n in (1, 2, 1000):
        part = HBBlob.create(data, n)
        expect_eq((part.get_length(), part.get_data()), (n, data[:n]),
                  '%s: %d bytes' % (path, n))
    face = HBFace.create(blob)
    expect_eq((face.get_upem(), face.get_glyph_count(), face.get_index()),
              (t.upem, t.num_glyphs, 0), path + ': face')
    font = HBFont.create(face)
    HBOTFont.set_funcs(font)
    expect_eq(font.get_scale(), (t.upem, t.upem), path + ': default scale')
    font.set_scale(*scale)
    expect_eq(font.get_scale(), scale, path + ': scale')
    codes = sorted(t.cmap)
    for code in codes[:400] + [0x10ffff, 0xe000]:
        g = font.get_glyph(code)
        expect_eq(g, t.cmap.get(code, 0), '%s: glyph of %x' % (path, code))
        want = t.hmtx(g)[0] * scale[0] / t.upem
        got = font.get_glyph_h_advance(g)
        expect(abs(got - want) <= 0.5 + 1e-9,
               '%s: advance of %x is %r, expected %r'
               % (path, code, got, want))
    ctx.outcome(scale[0])


def words(alphabet, depth, least=1):
    for n in range(least, depth + 1):
        for c in product(*[alphabet] * n):
            yield ''.join(c)


def grouped(items, size):
    items = list(items)
    return [items[i:i + size] for i in range(0, len(items), size)]


def check(run):
    more = 1 if run.thorough else 0
    depth = 5 if run.thorough else 4
    run.cases('bidi', grouped(words(BIDI, depth), 400), fn_bidi,
              'all strings over %d bidirectional classes (two of them outside '
              'the BMP) up to length %d, both defaults' % (len(BIDI), depth))
    small = 'a\u05d01 .<'
    depth = 7 + more
    run.cases('bidi-deep', grouped(words(small, depth, 5), 400), fn_bidi,
              'all strings over L, R, EN, WS, CS, ON of length 5 to %d' % depth)
    for kind, depth in (('character', 5), ('word', 5), ('line', 6),
                        ('sentence', 6)):
        depth += more
        run.cases('breaks-' + kind,
                  [(kind, g) for g in grouped(words(KINDS[kind][1], depth),
                                              500)],
                  fn_breaks, 'all strings over %d classes up to length %d'
                  % (len(KINDS[kind][1]), depth))
    depth = 5 + more
    run.cases('moves', [(k, m) for k in KINDS for n in range(1, depth + 1)
                        for m in product(*[MOVES] * n)], fn_moves,
              'all histories of moves of an iterator up to length %d' % depth)
    run.cases('locales', list(product(
        LOCALES, ['', 'US', 'CN', 'EG'], ['_', '-'], [False, True])),
        fn_locale, 'languages x scripts x countries')
    run.cases('features', list(product(
        ['', '+', '-'], ['kern', 'liga', 'ss01', 'aalt'], RANGES, VALUES)),
        fn_feature, 'prefixes x tags x ranges x values')
    run.cases('no-features', ['', '+', '[', 'kern[', 'kern[3', 'kern=x',
                              'kern==1', 'kern 1 2', 'toolong', 'kern]'],
              fn_no_feature, 'what is no feature')
    run.cases('languages', [(n, f(n)) for n in (
        'en', 'ja', 'ar', 'zh-hant', 'x-klingon', 'sr-latn-rs')
        for f in (str, str.upper, lambda x: x.replace('-', '_'))],
        fn_language, 'languages, in any letter case')
    run.cases('directions', [(d, f(d)) for d in ('ltr', 'rtl', 'ttb', 'btt')
                             for f in (str, str.upper, lambda s: s[0])],
              fn_direction, 'all four directions')
    run.cases('scripts', [(s, f(s)) for s in SCRIPT_DIRECTION
                          for f in (str, str.lower, str.upper)], fn_script,
              'scripts, in any letter case')
    depth = 4 + more
    run.cases('segments', grouped(words(SEGMENT, depth), 400), fn_segment,
              'all strings over %d scripts and commons up to length %d'
              % (len(SEGMENT), depth))
    run.cases('fonts', [(p, s) for p in FONTS for s in (
        (1000, 1000), (64 * 21, 64 * 16), (100000, 7))], fn_fonts,
        '3 fonts x 3 scales: advances of 400 characters each')
    depth = 3 + more
    run.cases('buffers', [(g, f) for g in grouped(words(HB, depth), 40)
                          for f in ('utf8', 'utf16', 'utf32')], fn_buffer,
              'all strings of %d characters up to length %d, added in three '
              'encodings, every range reversed' % (len(HB), depth))
    run.cases('shaping', [(p, s, g) for p in FONTS for s in (16, 21, 100)
                          for g in grouped(words(HB, depth), 60)], fn_shape,
              'all strings up to length %d x 3 fonts x 3 sizes x 2 directions'
              % depth)
