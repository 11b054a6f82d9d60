"""C06: style sheets: parsing, rule lists, media lists, @import, CSS.escape."""
import os
import shutil
import tempfile

import tinycss2
from svgpy.css import CSS, CSSImportRule, CSSMediaRule, CSSParser, \
    CSSRule, CSSStyleSheet, MediaList, StyleSheet

from mc.engine import Machine, expect, expect_eq, outcome, sequences

FEATURES = ('annotation', 'character_variant', 'ornaments', 'styleset',
            'stylistic', 'swash')


def describe(rule):
    """Everything a parsed rule shows, as plain data."""
    t = rule.type
    if t == CSSRule.STYLE_RULE:
        return ('style', rule.selector_text, items(rule.style))
    if t == CSSRule.MEDIA_RULE:
        return ('media', tuple(rule.media), rule.condition_text,
                tuple(describe(r) for r in rule.css_rules))
    if t == CSSRule.FONT_FACE_RULE:
        return ('font-face', items(rule.style))
    if t == CSSRule.FONT_FEATURE_VALUES_RULE:
        return ('ffv', rule.font_family,
                tuple((f, tuple(sorted((k, tuple(v)) for k, v
                                       in getattr(rule, f).items())))
                      for f in FEATURES if len(getattr(rule, f))))
    if t == CSSRule.NAMESPACE_RULE:
        return ('ns', rule.prefix, rule.namespace_uri)
    if t == CSSRule.IMPORT_RULE:
        return ('import', rule.href, tuple(rule.media))
    return ('unknown', t)


def items(style):
    return tuple((k, style.get_property_value(k),
                  style.get_property_priority(k))
                 for k in (style.item(i) for i in range(style.length)))


def check_parents(rules, sheet, parent, ctx):
    for r in rules:
        ctx.step()
        expect(r.parent_style_sheet is sheet, 'parent_style_sheet of %r'
               % (describe(r),))
        expect(r.parent_rule is parent, 'parent_rule of %r' % (describe(r),))
        if r.type in (CSSRule.STYLE_RULE, CSSRule.FONT_FACE_RULE):
            expect(r.style.parent_rule is r, 'style.parent_rule')
        if isinstance(r, CSSMediaRule):
            check_parents(r.css_rules, sheet, r, ctx)


def S(sel, *decl):
    return ('style', sel, tuple(decl))


def M(media, *rules):
    media = tuple(media)
    return ('media', media, ', '.join(media).lower(), tuple(rules))


A = S('a', ('fill', 'red', ''))
B = S('b > c', ('fill', 'blue', 'important'), ('stroke', 'none', ''))
# (text, descriptions of the rules it stands for)
SPELL = [
    ('a{fill:red}', [A]),
    ('a { fill : red ; }', [A]),
    ('b > c { fill: blue !important; stroke: none }', [B]),
    ('b  >\n  c{fill:blue!important;stroke:none;}', [B]),
    ('/* x */', []),
    ('a/* } */{/* } */fill:red/* ; */}', [A]),
    ('a, b{}', [S('a, b')]),
    ('[t="x  y"] #\\31  p{content:"}  ;"}',
     [S('[t="x  y"] #\\31  p', ('content', '"}  ;"', ''))]),
    ('@media print{a{fill:red}}', [M(['print'], A)]),
    ('@MEDIA Screen ,\n print and\n (min-width: 3px) {b > c'
     '{fill:blue!important;stroke:none} /**/ a{fill:red}}',
     [M(['Screen', 'print and (min-width: 3px)'], B, A)]),
    ('@media{}', [M([])]),
    ('@media all{@media tv{a{fill:red}}a{fill:red}@unknown x;}',
     [M(['all'], M(['tv'], A), A)]),
    ('@media print;', []),
    ('@font-face{font-family:F;src:url(f)}',
     [('font-face', (('font-family', 'F', ''), ('src', 'url("f")', '')))]),
    ('@font-face;', []),
    ('@font-feature-values F One{@swash{a:1;b:2 3}@styleset{C:4}'
     '@swash{c:5;}@unknown{z:1}}',
     [('ffv', 'F One', (('styleset', (('C', (4,)),)),
                        ('swash', (('a', (1,)), ('b', (2, 3)),
                                   ('c', (5,))))))]),
    ('@font-feature-values G{@annotation{a:0}@character-variant{b:1 2;}'
     '@ornaments{c:3;d:}@stylistic{a:9;a:7}}',
     [('ffv', 'G', (('annotation', (('a', (0,)),)),
                    ('character_variant', (('b', (1, 2)),)),
                    ('ornaments', (('c', (3,)),)),
                    ('stylistic', (('a', (7,)),))))]),
    ('@font-feature-values H{@swash;@styleset{}}', [('ffv', 'H', ())]),
    ('@font-feature-values H;', []),
    ('@namespace url(http://x/y);', [('ns', '', 'http://x/y')]),
    ('@namespace p url("http://x/y");', [('ns', 'p', 'http://x/y')]),
    ('@namespace "http://x/ y";', [('ns', '', 'http://x/ y')]),
    ("@NameSpace q 'u';", [('ns', 'q', 'u')]),
    ('@namespace p;', []),
    ('@charset "utf-8";', []),
    ('@unknown{a{fill:red}}', []),
    ('@unknown a;', []),
    ('<!--', []),
    ('-->', []),
]
SPELL_SMALL = [s for i, s in enumerate(SPELL)
               if i in (0, 3, 4, 5, 7, 9, 11, 12, 15, 16, 20, 21, 23, 25, 27)]


def parse_case(case, ctx):
    text = '\n'.join(SPELL[i][0] for i in case)
    want = [d for i in case for d in SPELL[i][1]]
    rules = CSSParser.fromstring(text)
    expect_eq([describe(r) for r in rules], want, 'rules of %r' % text)
    check_parents(rules, None, None, ctx)
    sheet = CSSStyleSheet()
    expect_eq(sheet.insert_rule(text), 0, 'index of the inserted rules')
    expect_eq([describe(r) for r in sheet.css_rules], want,
              'rules inserted into a sheet')
    check_parents(sheet.css_rules, sheet, None, ctx)
    sheet.insert_rule('zz{}')
    expect_eq([describe(r) for r in sheet.css_rules], [S('zz')] + want,
              'a rule inserted without an index')
    for r in rules:
        again = CSSParser.fromstring(r.css_text)
        ctx.step()
        expect_eq([describe(x) for x in again], [describe(r)],
                  'css_text %r parsed again' % r.css_text)
    ctx.outcome(len(want))


# -- rule lists -----------------------------------------------------------
INSERT = [('x{fill:red}', [S('x', ('fill', 'red', ''))]),
          ('y{} z{}', [S('y'), S('z')]),
          ('@media print{p{} q{}}', [M(['print'], S('p'), S('q'))]),
          ('@unknown{}', []),
          ('@namespace n "u";', [('ns', 'n', 'u')])]


class RModel(object):
    def __init__(self):
        self.rules = []      # [serial, description or [media, child list]]
        self.n = 0
        self.ops = 0

    def make(self, d, where):
        self.n += 1
        if d[0] == 'media':
            kids = []
            node = [self.n, d, kids]
            for k in d[3]:
                self.make(k, kids)
        else:
            node = [self.n, d, None]
        where.append(node)


def rview(nodes):
    out = []
    for serial, d, kids in nodes:
        if kids is None:
            out.append((serial, d))
        else:
            out.append((serial, d[1], rview(kids)))
    return out


class RSut(object):
    def __init__(self, kind):
        self.sheet = CSSStyleSheet()
        self.ids = {}
        self.keep = []
        if kind == 'sheet':
            self.top = self.sheet
        else:
            self.sheet.insert_rule('@media screen{} last{}', 0)
            self.top = self.sheet.css_rules[0]

    def label(self, rules):
        for r in rules:
            if id(r) not in self.ids:
                self.keep.append(r)
                self.ids[id(r)] = len(self.keep)
            if isinstance(r, CSSMediaRule):
                self.label(r.css_rules)

    def view(self, rules, parent):
        out = []
        for r in rules:
            ok = (r.parent_style_sheet is self.sheet
                  and r.parent_rule is parent)
            n = self.ids.get(id(r), 0) if ok else 'wrong parent'
            if isinstance(r, CSSMediaRule):
                out.append((n, tuple(r.media), self.view(r.css_rules, r)))
            else:
                out.append((n, describe(r)))
        return out


class RuleLists(Machine):
    name = 'insert_rule / delete_rule histories'

    def __init__(self, depth):
        self.depth = depth
        self.unmerged = 2

    def configs(self):
        return ['sheet', 'media rule']

    def fresh(self, config):
        return RSut(config), RModel()

    def fresh_model(self, config):
        return RModel()

    def menu(self, m):
        out = []
        n = len(m.rules)
        for i in range(n + 1):
            for k in range(len(INSERT)):
                if m.ops < 2 or k < 3:
                    out.append(('insert', (), i, k))
            out.append(('delete', (), i))
        for j, node in enumerate(m.rules):
            if node[2] is not None:
                for i in range(len(node[2]) + 1):
                    for k in (0, 2):
                        out.append(('insert', (j,), i, k))
                    out.append(('delete', (j,), i))
        return out

    def _list(self, m, path):
        rules = m.rules
        for j in path:
            rules = rules[j][2]
        return rules

    def model_apply(self, m, op):
        m.ops += 1
        where = self._list(m, op[1])
        if op[0] == 'delete':
            if op[2] >= len(where):
                return ('exc', 'IndexError')
            del where[op[2]]
            return ('ok', None)
        new = []
        for d in INSERT[op[3]][1]:
            m.make(d, new)
        where[op[2]:op[2]] = new
        return ('ok', op[2])

    def apply(self, s, op):
        node = s.top
        for j in op[1]:
            node = node.css_rules[j]
        if op[0] == 'delete':
            return outcome(node.delete_rule, op[2])
        r = outcome(node.insert_rule, INSERT[op[3]][0], op[2])
        s.label(s.top.css_rules)
        return r

    def observe(self, s):
        top = s.top if isinstance(s.top, CSSMediaRule) else None
        out = s.view(s.top.css_rules, top)
        if top is not None and [describe(r) for r in s.sheet.css_rules][1:] \
                != [S('last')]:
            out.append('the enclosing sheet changed')
        return out

    def model_observe(self, m):
        return rview(m.rules)

    def key(self, model, obs):
        return repr((min(model.ops, 2), strip(obs)))


def strip(view):
    return [(x[0] and 1, x[1]) if len(x) == 2 else (1, x[1], strip(x[2]))
            for x in view]


# -- media lists ----------------------------------------------------------
MQ = ['screen', ' print ', 'TV and (color)', 'all, print']


class Media(Machine):
    name = 'media list histories'

    def __init__(self, depth):
        self.depth = depth
        self.unmerged = 2

    def configs(self):
        return ['list', 'sheet', 'rule']

    def fresh(self, config):
        if config == 'list':
            s = MediaList()
            owner = None
            m = []
        elif config == 'sheet':
            owner = StyleSheet(media=' tv , screen')
            s = owner.media
            m = ['tv', 'screen']
        else:
            owner = CSSParser.fromstring('@media Print,tv {}')[0]
            s = owner.media
            m = ['Print', 'tv']
        return (s, owner), m

    def fresh_model(self, config):
        return {'list': [], 'sheet': ['tv', 'screen'],
                'rule': ['Print', 'tv']}[config][:]

    def menu(self, m):
        out = []
        for q in MQ:
            out += [('append_medium', q), ('append', q), ('delete_medium', q)]
        for i in range(len(m) + 1):
            out += [('insert', i, ' print '), ('insert', i, 'screen'),
                    ('del', i), ('set', i, 'tv'), ('item', i), ('get', i)]
        out += [('insert', -1, 'tv'), ('del', -1), ('get', -1), ('pop',),
                ('text', ''), ('text', ' '), ('text', 'Print'),
                ('text', ' tv ,screen,\n print   and\n (color) '),
                ('clear',), ('extend', ('tv', 'tv', 'screen')), ('reverse',),
                ('remove', 'tv'), ('index', 'screen'), ('in', 'tv'),
                ('+=', ('print', 'x'))]
        return out

    def model_apply(self, m, op):
        k = op[0]
        n = len(m)
        if k in ('append_medium', 'append'):
            self._append(m, op[1])
        elif k == 'delete_medium':
            if ',' not in op[1]:
                if op[1].strip() not in m:
                    return ('exc', 'ValueError')
                m.remove(op[1].strip())
        elif k == 'insert':
            m.insert(op[1], op[2].strip())
        elif k in ('del', 'set', 'item', 'get'):
            if not -n <= op[1] < n:
                return ('exc', 'IndexError')
            if k == 'del':
                del m[op[1]]
            elif k == 'set':
                m[op[1]] = op[2]
            else:
                return ('ok', m[op[1]])
        elif k == 'pop':
            return ('ok', m.pop()) if m else ('exc', 'IndexError')
        elif k == 'text':
            text = ' '.join(op[1].split())
            m[:] = [x.strip() for x in text.split(',')] if text else []
        elif k == 'clear':
            m.clear()
        elif k in ('extend', '+='):
            for x in op[1]:
                self._append(m, x)
        elif k == 'reverse':
            m.reverse()
        elif k == 'remove':
            if op[1] not in m:
                return ('exc', 'ValueError')
            m.remove(op[1])
        elif k == 'index':
            return ('ok', m.index(op[1])) if op[1] in m \
                else ('exc', 'ValueError')
        elif k == 'in':
            return ('ok', op[1] in m)
        return ('ok', None)

    def _append(self, m, q):
        if ',' not in q and q.strip() not in m:
            m.append(q.strip())

    def apply(self, sut, op):
        s, owner = sut
        k = op[0]
        if k in ('append_medium', 'append', 'delete_medium', 'insert', 'item',
                 'pop', 'clear', 'reverse', 'remove', 'index', 'extend'):
            return outcome(getattr(s, k), *op[1:])

        def run():
            if k == 'del':
                del s[op[1]]
            elif k == 'set':
                s[op[1]] = op[2]
            elif k == 'get':
                return s[op[1]]
            elif k == 'text':
                if isinstance(owner, CSSMediaRule):
                    owner.condition_text = op[1]
                else:
                    s.media_text = op[1]
            elif k == 'in':
                return op[1] in s
            else:
                t = s
                t += op[1]
                expect(t is s, '+= keeps the list')
        return outcome(run)

    def observe(self, sut):
        s, owner = sut
        text = s.media_text
        if isinstance(owner, CSSMediaRule):
            expect_eq(owner.condition_text, text, 'condition_text')
        if owner is not None:
            expect(owner.media is s, 'the owner keeps its media list')
        return (list(s), len(s), s.length, text)

    def model_observe(self, m):
        return (list(m), len(m), len(m), ', '.join(m).lower())


# -- @import --------------------------------------------------------------
DIRS = ['', 'd/', 'd/e/']


def import_case(case, ctx):
    """A chain of style sheets in nested directories importing each other."""
    d0, d1, d2, form, media, last = case
    base = tempfile.mkdtemp(prefix='mc06')
    try:
        os.makedirs(os.path.join(base, 'd/e'))
        paths = [d0 + 'one.css', d1 + 'two.css', d2 + 'three.css']

        def statement(src, dst):
            rel = os.path.relpath(dst, os.path.dirname(src) or '.')
            return '@import %s%s;' % (form % rel, media)
        texts = []
        for i in (0, 1):
            texts.append('@namespace "u";' + statement(paths[i], paths[i + 1])
                         + 'r%d{fill:red}' % i)
        texts.append({'none': '', 'missing': '@import "nowhere.css";',
                      'self': statement(paths[2], paths[2]),
                      'cycle': statement(paths[2], paths[0])}[last]
                     + 'r2{}')
        for p, t in zip(paths, texts):
            with open(os.path.join(base, p), 'w') as f:
                f.write(t)

        def url(p):
            return 'file://' + os.path.join(base, p)
        sheet = CSSParser.parse(url(paths[0]))
        want_media = tuple(x.strip() for x in media.split(',')
                           if x.strip())
        parent_rule = None
        for i in (0, 1, 2):
            ctx.step()
            kinds = [describe(r) for r in sheet.css_rules]
            want = []
            if i < 2:
                want.append(('ns', '', 'u'))
                want.append(('import', url(paths[i + 1]), want_media))
            elif last == 'missing':
                want.append(('import', url(d2 + 'nowhere.css'), ()))
            elif last == 'self':
                want.append(('import', url(paths[2]), want_media))
            elif last == 'cycle':
                want.append(('import', url(paths[0]), want_media))
            want.append(S('r%d' % i, *([('fill', 'red', '')]
                                       if i < 2 else [])))
            expect_eq(kinds, want, 'rules of sheet %d' % i)
            for r in sheet.css_rules:
                expect(r.parent_style_sheet is sheet, 'parent sheet of rules')
                expect(r.parent_rule is parent_rule, 'parent rule of rules')
            imports = [r for r in sheet.css_rules
                       if isinstance(r, CSSImportRule)]
            if not imports:
                break
            rule = imports[0]
            sub = rule.style_sheet
            expect(sub.owner_rule is rule, 'owner rule of the import')
            expect(sub.parent_style_sheet is sheet,
                   'parent sheet of the imported sheet')
            expect_eq(tuple(sub.media), tuple(rule.media),
                      'media of the imported sheet')
            if i == 2:
                expect_eq(len(sub.css_rules), 0,
                          'a missing or circular import is empty')
                ctx.outcome('dead end')
            parent_rule = rule
            sheet = sub
        ctx.outcome(i)
    finally:
        shutil.rmtree(base)


def data_case(case, ctx):
    texts, encoded = case
    text = ' '.join(SPELL[i][0] for i in texts)
    want = [d for i in texts for d in SPELL[i][1]]
    if encoded == 'base64':
        import base64
        url = 'data:text/css;base64,' + base64.b64encode(
            text.encode()).decode()
    else:
        from urllib.parse import quote
        url = 'data:%s,%s' % (encoded, quote(text))
    sheet = CSSParser.parse(url)
    expect_eq([describe(r) for r in sheet.css_rules], want, url)
    check_parents(sheet.css_rules, sheet, None, ctx)
    imp = CSSParser.fromstring('@import "%s" tv;' % url)
    expect_eq([describe(r) for r in imp[0].style_sheet.css_rules], want,
              'imported ' + url)
    ctx.outcome(len(want))


# -- CSS.escape -----------------------------------------------------------
ESC = ['a', 'Z', 'f', '0', '9', '-', '_', ' ', '\x00', '\x01', '\t', '\n',
       '\x1f', '\x7f', '\x80', '\xe9', '\u3042', '\U0001f600', '.', '\\',
       '"', '@', '[', '`', '{', '~', '/', ':']


def escape_case(case, ctx):
    s = ''.join(case)
    want = ''
    for i, c in enumerate(s):
        o = ord(c)
        if o == 0:
            want += '\ufffd'
        elif 1 <= o <= 0x1f or o == 0x7f or (c in '0123456789' and (
                i == 0 or (i == 1 and s[0] == '-'))):
            want += '\\%x ' % o
        elif c == '-' and len(s) == 1:
            want += '\\-'
        elif o >= 0x80 or c in '-_' or (c.isascii() and c.isalnum()):
            want += c
        else:
            want += '\\' + c
    got = CSS.escape(s)
    expect_eq(got, want, 'CSS.escape(%r)' % s)
    # tinycss2 0.6 does not know identifiers that start with '--'
    if s and not s.startswith('--'):
        toks = tinycss2.parse_component_value_list(got)
        expect_eq([(t.type, t.value) for t in toks],
                  [('ident', s.replace('\x00', '\ufffd'))],
                  '%r read as an identifier' % got)
    ctx.outcome(want.count('\\'))


def check(run):
    n = len(SPELL)
    run.cases('style sheet texts', sequences(range(n), 0, 2)
              + (sequences([SPELL.index(s) for s in SPELL_SMALL], 3, 3)
                 if not run.thorough else sequences(range(n), 3, 3)),
              parse_case,
              bound='all texts of <= 2 of %d rule spellings, of 3 of %d'
              % (n, n if run.thorough else len(SPELL_SMALL)),
              min_outcomes=4)
    run.histories(RuleLists(5 if run.thorough else 4),
                  bound='insert of 5 rule texts and delete at every index of '
                        'the list and of nested @media lists; sheet and '
                        '@media rule')
    run.histories(Media(4 if run.thorough else 3),
                  bound='all mutators of MediaList with 4 query spellings; '
                        'free list, sheet.media and rule.media')
    imports = [(a, b, c, f, m, last)
               for a in DIRS for b in DIRS for c in DIRS
               for f in ('"%s"', 'url(%s)', "url('%s')")
               for m in ('', ' print', ' screen , print and (color)')
               for last in ('none', 'missing', 'self', 'cycle')]
    run.cases('@import chains', imports, import_case,
              bound='3 sheets in every combination of 3 directories x 3 '
                    'spellings x 3 media lists x 4 ends (leaf, missing, self '
                    'import, cycle)', min_outcomes=2)
    ok = [i for i in range(n) if 'url' not in SPELL[i][0]]
    run.cases('data URLs', [(t, e) for t in sequences(ok, 1, 1)
                            + sequences(ok[:6], 2, 2)
                            for e in ('', 'text/css', 'base64',
                                      'text/css;charset=utf-8')],
              data_case, bound='every rule spelling x 4 header forms',
              min_outcomes=2)
    run.cases('CSS.escape', sequences(ESC, 0, 4 if run.thorough else 3),
              escape_case, bound='all strings of <= %d of %d characters'
              % (4 if run.thorough else 3, len(ESC)), min_outcomes=3)
