"""C32: data: URLs, media types, headers and style text are read as written."""
import base64
from urllib.parse import quote

from svgpy.url import URL
from svgpy.utils import (CaseInsensitiveMapping, dict_to_style,
                         get_content_type, load, remove_quotes, style_to_dict)
from svgpy.window import SVGDOMImplementation

from mc.engine import Machine, expect, expect_eq, product

# --- data: URLs ----------------------------------------------------------------

# media type as written -> type, parameters (no charset: UTF-8 text)
TYPES = [('', 'text/plain', {'charset': 'US-ASCII'}),
         ('text/css', 'text/css', {}),
         ('image/svg+xml', 'image/svg+xml', {}),
         (';charset=utf-8', 'text/plain', {'charset': 'utf-8'}),
         (';charset=ISO-8859-1', 'text/plain', {'charset': 'ISO-8859-1'}),
         ('text/css;charset=utf-8', 'text/css', {'charset': 'utf-8'}),
         ('text/css;charset=iso-8859-1', 'text/css',
          {'charset': 'iso-8859-1'}),
         ('text/css;CharSet="utf-8"', 'text/css', {'charset': 'utf-8'}),
         ("text/css;charset='shift_jis'", 'text/css',
          {'charset': 'shift_jis'}),
         ('a/b;c=d=e;charset=utf-8;f', 'a/b',
          {'c': 'd=e', 'charset': 'utf-8'}),
         ('a/b;charset=utf-16-be', 'a/b', {'charset': 'utf-16-be'})]

CHARS = 'aZ0 %#+,;=&?"\'<>\\/.:@~\n\t\x00\x7f\xe9\u6c34\u8868\U0001d538'
UNSAFE = '%#? \t\n\x00\x7f'


def codec_of(params):
    charset = params.get('charset', 'utf-8')
    return 'utf-8' if charset == 'US-ASCII' else charset


def least(data):
    """Percent-encodes only what a URL cannot hold."""
    return ''.join('%%%02X' % b if b > 0x7e or chr(b) in UNSAFE else chr(b)
                   for b in data)


def full(data):
    return ''.join('%%%02x' % b for b in data)


FORMS = {'least': least, 'full': full, 'quote': quote}
B64 = {'plain': lambda s: s, 'percent': lambda s: quote(s, safe=''),
       'unpadded': lambda s: s.rstrip('='),
       'spaced': lambda s: ' '.join(s),
       'lines': lambda s: '%0A'.join(s[i:i + 3] for i in range(
           0, len(s), 3))}


def check_load(url, want, kind, params, ctx):
    for src in (url, URL(url), url + '#f', 'DATA' + url[4:]):
        what = 'load(%r)' % (src if isinstance(src, str) else src.href)
        data, headers = load(src)
        expect_eq(type(data), type(want), what)
        expect_eq(data, want, what)
        got = get_content_type(headers)
        expect_eq(dict(got), dict([(None, kind)] + [
            (k, params[k.lower()]) for k in got if k]), what + ': type')
        expect_eq({k.lower() for k in got if k}, set(params),
                  what + ': parameters')
    ctx.step()


def fn_text(case, ctx):
    (written, kind, params), form, chars = case
    codec = codec_of(params)
    for text in chars:
        try:
            data = text.encode(codec)
        except UnicodeEncodeError:
            continue
        if data.decode(codec) != text:
            continue
        if data and text != text.strip() and form == 'least':
            # white space at either end of a URL is no data, unless encoded
            data_text = full(data)
        else:
            data_text = FORMS[form](data)
        check_load('data:%s,%s' % (written, data_text), text, kind, params,
                   ctx)
    ctx.outcome((kind, codec))


def fn_base64(case, ctx):
    (written, kind, params), form, word, datas = case
    for data in datas:
        text = B64[form](base64.b64encode(data).decode())
        check_load('data:%s;%s,%s' % (written, word, text), data, kind,
                   params if written else {}, ctx)
    ctx.outcome((kind, form))


SVG = 'http://www.w3.org/2000/svg'


def fn_document(case, ctx):
    (written, kind, params), form, decl, texts = case
    codec = codec_of(params)
    for text in texts:
        try:
            text.encode(codec)
        except UnicodeEncodeError:
            continue
        source = ('<?xml version="1.0"%s?>\n' % decl if decl is not None
                  else '') + \
            '<svg xmlns="%s"><title>%s</title></svg>' % (SVG, text)
        data = source.encode(codec)
        if form == 'base64':
            url = 'data:%s;base64,%s' % (
                written, base64.b64encode(data).decode())
        else:
            url = 'data:%s,%s' % (written, FORMS[form](data))
        root = SVGDOMImplementation().parse(url)
        expect_eq((root.tag, root[0].text), ('{%s}svg' % SVG, text), url)
        ctx.step()
        ctx.outcome((codec, form))


def fn_no_data(case, ctx):
    data, headers = load(case)
    expect_eq((data, dict(headers), get_content_type(headers)),
              (None, {}, None), case)
    ctx.outcome('none')


def fn_query(case, ctx):
    url, want = case
    expect_eq(load(url)[0], want, url)
    ctx.outcome('query')


# --- headers ---------------------------------------------------------------------

def fn_type(case, ctx):
    name, kind, params, sep = case
    text = kind
    want = {None: kind}
    for key, written, value in params:
        text += sep + key + '=' + written
        want[key.lower()] = value
    for headers in ({name: text}, CaseInsensitiveMapping({name: text}),
                    {'X': 'y', name: text}):
        got = get_content_type(headers)
        expect_eq({(k.lower() if k else k): v for k, v in got.items()}, want,
                  '%s: %s' % (name, text))
        for key, value in want.items():
            if key:
                expect_eq((got[key.upper()], got.get(key.title())),
                          (value, value), text)
    ctx.outcome(len(params))


KEYS = ('Ab', 'aB', 'AB', 'c', 'C', None)


class MappingMachine(Machine):
    """A mapping whose string keys are compared without regard to case; a
    key keeps the spelling and the place it was first set with."""
    name = 'mapping'
    depth = 4

    def configs(self):
        return [(), (('Ab', 1),), (('c', 1), ('Ab', 2))]

    def fresh(self, config):
        return CaseInsensitiveMapping(config), list(map(list, config))

    def menu(self, model):
        n = len(model) + 10
        out = [('clear',), ('popitem',)]
        for k in KEYS:
            out += [('set', k, n), ('del', k), ('pop', k), ('default', k, n)]
        out += [('update', (('AB', n), ('d', n))), ('update', (('C', n),))]
        return out

    def apply(self, sut, op):
        verb = op[0]
        try:
            if verb == 'clear':
                return sut.clear()
            if verb == 'popitem':
                # which of them goes is not said
                k, v = sut.popitem()
                sut[k] = v
                return k in sut
            if verb == 'set':
                sut[op[1]] = op[2]
                return None
            if verb == 'del':
                del sut[op[1]]
                return None
            if verb == 'pop':
                return sut.pop(op[1])
            if verb == 'default':
                return sut.setdefault(op[1], op[2])
            return sut.update(dict(op[1]))
        except KeyError:
            return 'KeyError'

    @staticmethod
    def find(model, key):
        for i, (k, _) in enumerate(model):
            if k == key or (k and key and k.lower() == key.lower()):
                return i
        return None

    def model_apply(self, model, op):
        verb = op[0]
        if verb == 'clear':
            del model[:]
            return None
        if verb == 'popitem':
            if not model:
                return 'KeyError'
            model.append(model.pop(0))
            return True
        if verb == 'update':
            for k, v in op[1]:
                self.model_apply(model, ('set', k, v))
            return None
        i = self.find(model, op[1])
        if verb in ('set', 'default'):
            if i is None:
                model.append([op[1], op[2]])
                return None if verb == 'set' else op[2]
            if verb == 'set':
                model[i][1] = op[2]
                return None
            return model[i][1]
        if i is None:
            return 'KeyError'
        value = model.pop(i)[1]
        return value if verb == 'pop' else None

    def observe(self, sut):
        keys = KEYS + ('d', 'x')
        return {'items': [list(x) for x in sut.items()], 'keys': list(sut),
                'keys()': list(sut.keys()), 'values': list(sut.values()),
                'len': len(sut), 'in': [k in sut for k in keys],
                'get': [sut.get(k) for k in keys], 'bool': bool(sut)}

    def model_observe(self, model):
        keys = KEYS + ('d', 'x')
        at = [self.find(model, k) for k in keys]
        names = [k for k, _ in model]
        return {'items': [list(x) for x in model], 'keys': names,
                'keys()': names, 'values': [v for _, v in model],
                'len': len(model), 'in': [i is not None for i in at],
                'get': [None if i is None else model[i][1] for i in at],
                'bool': bool(model)}

    def key(self, model, obs):
        return repr(model)


# --- style text ---------------------------------------------------------------------

NAMES = ['fill', 'FILL', 'stroke', '--x', '--X', 'font-family']
STYLE_VALUES = ['red', 'RED', '1px 2px', 'url("#a;b")', '"a;b:c"', '"x"',
                'rgb(1, 2, 3)', 'red !important', 'lime !important', 'a, b', '#fff', '-1.5e3',
                'calc(1px + 2px)']
SEPS = [(': ', '; '), (':', ';'), (' : ', ' ;\n'), ('/**/:', ';/*;*/')]


def fn_style(case, ctx):
    declarations, (colon, semicolon), tail = case
    text = semicolon.join(n + colon + v for n, v in declarations)
    if tail:
        text += semicolon
    want = {}
    for n, v in declarations:
        n = n if n.startswith('--') else n.lower()
        if want.get(n, '').endswith('important') \
                and not v.endswith('important'):
            continue
        want[n] = v
    got = style_to_dict(text)
    expect_eq({k: v for k, v in got.items()}, want, repr(text))
    again = dict_to_style(got)
    expect_eq(dict(style_to_dict(again)), want, '%r, written as %r'
              % (text, again))
    expect_eq(again, ' '.join(sorted('%s: %s;' % x for x in want.items())),
              'dict_to_style')
    ctx.outcome(len(want))


def fn_quotes(case, ctx):
    text, want = case
    expect_eq(remove_quotes(text), want, repr(text))
    ctx.outcome('q')


def words(alphabet, depth):
    for n in range(depth + 1):
        for c in product(*[alphabet] * n):
            yield ''.join(c)


def grouped(items, size):
    items = list(items)
    return [items[i:i + size] for i in range(0, len(items), size)]


def check(run):
    depth = 3 if run.thorough else 2
    run.cases('data-text', [
        (t, f, g) for t in TYPES for f in FORMS
        for g in grouped(words(CHARS, depth), 200)], fn_text,
        'media types x ways of percent-encoding x all texts over %d '
        'characters up to length %d' % (len(CHARS), depth))
    datas = [bytes(x) for n in range(depth + 1)
             for x in product(*[[0, 65, 0xe9, 0xfb, 0xff]] * n)] + [
        bytes([b]) * n for b in (0, 62, 63, 251, 255) for n in range(4, 9)]
    run.cases('data-base64', [
        (t, f, w, g) for t in TYPES for f in B64
        for w in ('base64', 'BASE64', 'Base64') for g in grouped(datas, 40)],
        fn_base64, 'media types x ways of writing base64 x %d byte strings'
        % len(datas))
    texts = ['a', '\xe9', '\u6c34', 'a#b', 'a%b', '"', "'", 'a;b,c', '+ +',
             '\U0001d538', '%41']
    run.cases('documents', [
        (t, f, d, texts) for t in TYPES for f in list(FORMS) + ['base64']
        for d in (None, '', ' encoding="utf-8"')
        if codec_of(t[2]) == 'utf-8' or f == 'base64' or d is not None],
        fn_document, 'documents of data: URLs')
    run.cases('no-data', ['data:text/plain', 'data:;base64', 'data:a'],
              fn_no_data, 'data: URLs without a comma')
    run.cases('data-query', [('data:,a?b', 'a?b'), ('data:,a?b=c', 'a?b=c')],
              fn_query, 'a question mark that is not encoded')
    params = [('charset', 'utf-8', 'utf-8'), ('CHARSET', '"x y"', 'x y'),
              ('a', "'b'", 'b'), ('b', 'c=d', 'c=d'), ('e', '""', '')]
    run.cases('content-types', [
        (n, k, p, s) for n in ('Content-Type', 'content-type', 'CONTENT-TYPE')
        for k in ('text/css', 'image/svg+xml', 'TEXT/HTML')
        for r in range(3) for p in product(*[params] * r)
        if len({x[0].lower() for x in p}) == r
        for s in (';', '; ', ' ; ')], fn_type,
        'header names x types x up to two parameters')
    MappingMachine.depth = 4 if run.thorough else 3
    run.histories(MappingMachine(), 'histories of a mapping up to length %d'
                  % MappingMachine.depth)
    decls = list(product(NAMES, STYLE_VALUES))
    cases = [((), s, t) for s in SEPS for t in (False, True)]
    cases += [((d,), s, t) for d in decls for s in SEPS
              for t in (False, True)]
    cases += [((d, e), SEPS[0], False) for d in decls for e in decls]
    if run.thorough:
        few = list(product(NAMES[:4], ('red', '"a;b:c"', 'a !important')))
        cases += [(c, s, True) for c in product(few, few, few) for s in SEPS]
    run.cases('style-text', cases, fn_style, 'declaration lists')
    run.cases('quotes', [('"a"', 'a'), ("'a'", 'a'), ('a', 'a'), ('', ''),
                         ('"a', '"a'), ("a'", "a'"), ('"a\'', '"a\''),
                         ('""', ''), ('"\'a\'"', "'a'"), ('a"b', 'a"b')],
              fn_quotes, 'quoted strings')
