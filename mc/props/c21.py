"""C21: URL / Location parsing, normalisation, setters and resolution.

Reference: components are composed into URLs, so the expected record is known
by construction; relative references follow RFC 3986 (own implementation).
"""
import itertools

from svgpy import URL, Location, URLSearchParams

from mc.engine import Machine, expect, expect_eq, outcome, product

PORTS = {'ftp:': '21', 'gopher:': '70', 'http:': '80', 'https:': '443',
         'ws:': '80', 'wss:': '443', 'file:': None}
HEX = '0123456789ABCDEF'
ALNUM = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
UNRESERVED = ALNUM + '-._~'


def enc(text, safe):
    return ''.join(c if c in safe else
                   ''.join('%%%02X' % b for b in c.encode('utf-8'))
                   for c in text)


def dec(text, keep=''):
    """Percent-decoding; '%XX' of the characters in keep stays encoded."""
    out = bytearray()
    i = 0
    b = text.encode('utf-8')
    while i < len(b):
        if b[i] == 37 and len(b) > i + 2:
            try:
                v = int(b[i + 1:i + 3].decode('ascii'), 16)
            except ValueError:
                v = None
            if v is not None and chr(v) not in keep:
                out.append(v)
                i += 3
                continue
        out.append(b[i])
        i += 1
    return out.decode('utf-8')


def norm_path(path):
    """Normal form of a hierarchical path."""
    if path == '':
        return '/'
    out = []
    segs = path.split('/')
    for s in segs:
        plain = dec(s, '/\\')
        if plain in ('', '.'):
            continue
        if plain == '..':
            out = out[:-1]
            continue
        # an encoded slash or backslash stays encoded
        parts = []
        i = 0
        while i < len(plain):
            c = plain[i]
            if plain[i:i + 3].upper() in ('%2F', '%5C'):
                parts.append(plain[i:i + 3].upper())
                i += 3
                continue
            parts.append(enc(c, UNRESERVED + '&:;=@[]'))
            i += 1
        out.append(''.join(parts))
    text = '/' + '/'.join(out)
    if dec(segs[-1], '/\\') in ('', '.', '..') and text != '/':
        text += '/'
    return text


class Rec(object):
    """The reference URL record."""
    FIELDS = ('protocol', 'username', 'password', 'hostname', 'port',
              'pathname', 'search', 'hash')

    def __init__(self, **kw):
        for f in self.FIELDS:
            setattr(self, f, kw.get(f, ''))

    def copy(self):
        return Rec(**{f: getattr(self, f) for f in self.FIELDS})

    def shown_port(self):
        return self.port if self.port != PORTS.get(self.protocol, '') else ''

    def host(self):
        p = self.shown_port()
        return self.hostname + (':' + p if p and self.hostname else '')

    def opaque(self):
        return self.protocol in ('about:', 'blob:', 'data:')

    def href(self, fragment=True):
        t = self.protocol
        if not self.opaque():
            t += '//'
            if self.hostname:
                if self.username or self.password:
                    t += self.username
                    if self.password:
                        t += ':' + self.password
                    t += '@'
                t += self.host()
        t += self.pathname + self.search
        return t + self.hash if fragment else t

    def origin(self):
        if self.protocol == 'blob:':
            inner = self.pathname
            scheme, _, rest = inner.partition('://')
            if scheme + ':' in PORTS and scheme != 'file':
                return scheme + '://' + rest.split('/')[0]
            return 'null'
        if self.protocol in PORTS and self.protocol != 'file:' \
                and self.hostname:
            return self.protocol + '//' + self.host()
        return 'null'


def verify(u, r, what='', port=True):
    expect_eq(u.protocol, r.protocol, what + 'protocol')
    expect_eq(u.hostname, r.hostname, what + 'hostname')
    expect_eq(u.host, r.host(), what + 'host')
    if port:
        expect_eq(u.port, r.port, what + 'port')
    else:
        expect(u.port == '' or u.port == r.port, what + 'port', r.port,
               u.port)
    expect_eq(u.pathname, r.pathname, what + 'pathname')
    expect_eq(u.search, r.search, what + 'search')
    expect_eq(u.hash, r.hash, what + 'hash')
    expect_eq(u.origin, r.origin(), what + 'origin')
    expect_eq(u.href, r.href(), what + 'href')
    expect_eq(u.tostring(), r.href(), what + 'tostring')
    expect_eq(u.tostring(exclude_fragment=True), r.href(False),
              what + 'tostring without fragment')
    if isinstance(u, URL):
        expect_eq(u.username, r.username, what + 'username')
        expect_eq(u.password, r.password, what + 'password')


def fixed_point(u, r):
    """href parses back to the same record."""
    v = URL(u.href)
    q = r.copy()
    q.port = q.shown_port()
    verify(v, q, 'reparsed ')


# (written, normal form)
SCHEMES = [('http', 'http:'), ('https', 'https:'), ('HTTP', 'http:'),
           ('ftp', 'ftp:'), ('ws', 'ws:'), ('ssh', 'ssh:'),
           ('coap+tcp', 'coap+tcp:'), ('wss', 'wss:'), ('gopher', 'gopher:')]
USERS = [('', '', ''), ('user@', 'user', ''), ('user:pw@', 'user', 'pw'),
         ('us%40er:p%3aw@', 'us%40er', 'p%3Aw'), (':pw@', '', 'pw'),
         ('%7Eu!:@', '~u%21', '')]
HOSTS = [('example.org', 'example.org'), ('Example.ORG', 'example.org'),
         ('127.0.0.1', '127.0.0.1'), ('[::1]', '[::1]'),
         ('[2001:DB8::2]', '[2001:db8::2]'),
         ('\u65e5\u672c\u8a9e.example', 'xn--wgv71a119e.example'),
         ('localhost', 'localhost')]
PORTTXT = ['', '80', '443', '21', '8080', '65535', '0']
PATHS = ['', '/', '/a', '/a/b/', '/a/./b', '/a/../b', '/../a', '/a/b/../../c',
         '/a//b', '/%7euser/x', '/%c2%b1', '/\u5bff\u53f8', '/a%20b',
         '/a b', '/a%2Fb', '/x;y=1&z:[@]', '/a/%2e%2e/b', '/%25', '/%2541',
         '/a(1)!', '/a.b..c', '/...', '/a/..', '/a%3Fb%23c', '/a%5Cb']
QUERIES = [('', ''), ('?', ''), ('?a=1', '?a=1'), ('?a', '?a='),
           ('?b=2&a=1', '?a=1&b=2'), ('?a=1=2', '?a=1=2'),
           ('?q=\u5bff', '?q=%E5%AF%BF'), ('?q=a+b', '?q=a+b'),
           ('?q=%20', '?q=%20'), ('?a=1&&b=2', '?a=1&b=2'),
           ('??a=1', '??a=1'), ('?a=1&', '?a=1'), ('?q=/x?y', '?q=/x?y'),
           ('?=1', '?=1'), ('?k=\'"<', '?k=%27%22%3C')]
HASHES = [('', ''), ('#', ''), ('#top', '#top'), ('#a b', '#a%20b'),
          ('#\u5bff', '#%E5%AF%BF'), ('#a?b/c', '#a?b/c'),
          ('#%41%3c', '#A%3C'), ('#"`', '#%22%60'), ('##a', '##a'),
          ('#%2541', '#%2541'), ('#100%', '#100%')]


def compose(case):
    (st, sn), (ut, un, pn), (ht, hn), port, path, (qt, qn), (ft, fn) = case
    text = st + '://' + ut + ht + (':' + port if port else '') + path \
        + qt + ft
    rec = Rec(protocol=sn, username=un, password=pn, hostname=hn, port=port,
              pathname=norm_path(path), search=qn, hash=fn)
    return text, rec


def parse_case(case, ctx):
    text, rec = compose(case)
    ctx.step(4)
    u = URL(text)
    verify(u, rec)
    fixed_point(u, rec)
    loc = Location()
    loc.href = text
    verify(loc, rec, 'Location ')
    loc = Location()
    loc.assign(text)
    expect_eq(loc.href, rec.href(), 'assign')
    # the base is ignored for an absolute URL
    base = URL('https://base.example:1/x?y=z#w')
    before = base.href
    verify(URL(text, base=base), rec, 'with base ')
    expect_eq(base.href, before, 'base is unchanged')
    ctx.outcome((rec.protocol, rec.hostname, rec.shown_port()))


def opaque_case(case, ctx):
    text, rec = case
    u = URL(text)
    verify(u, rec)
    fixed_point(u, rec)
    verify(URL(text, base='https://example.org/a'), rec, 'with base ')
    ctx.step(3)
    ctx.outcome(rec.protocol)


def invalid_case(case, ctx):
    text = case
    ctx.step(4)
    expect_eq(outcome(lambda: URL(text)), ('exc', 'ValueError'), 'URL')
    for start in ('http://u:p@h:81/a/b?c=d#e', 'about:blank'):
        u = URL(start)
        expect_eq(outcome(lambda: setattr(u, 'href', text)),
                  ('exc', 'ValueError'), 'href')
        expect_eq(u.href, start, 'the URL is unchanged')
        expect_eq(u.search_params.tostring(),
                  'c=d' if 'c=d' in start else '', 'search_params')
    loc = Location()
    loc.href = 'http://h:81/a/b?c=d#e'
    expect_eq(outcome(lambda: loc.assign(text)), ('exc', 'ValueError'),
              'assign')
    expect_eq(loc.href, 'http://h:81/a/b?c=d#e', 'Location is unchanged')
    ctx.outcome('invalid')


# ---- relative references ----------------------------------------------------

def split_ref(ref):
    ref, h, frag = ref.partition('#')
    ref, q, query = ref.partition('?')
    auth = None
    if ref.startswith('//'):
        auth, s, path = ref[2:].partition('/')
        ref = s + path
    return auth, ref, (query if q else None), (frag if h else None)


def resolve(base, ref):
    """RFC 3986 5.2.2; base is a Rec with normalised components."""
    auth, path, query, frag = split_ref(ref)
    r = base.copy()
    r.hash = '#' + frag if frag else ''
    if auth is not None:
        r.username = r.password = r.port = ''
        r.hostname, _, r.port = auth.partition(':')
        r.pathname, q = norm_path(path), query
    elif path == '':
        q = query
        if q is None:
            return r
    else:
        if path.startswith('/'):
            r.pathname = norm_path(path)
        else:
            r.pathname = norm_path(
                base.pathname[:base.pathname.rfind('/') + 1] + path)
        q = query
    r.search = '?' + q if q else ''
    return r


BASES = ['http://example.org', 'http://example.org/', 'http://h:8000/a/b/c',
         'http://h/a/b/c?q=1#top', 'https://u:p@h/a/b/', 'http://h:80/x',
         'ssh://h/a/b', 'https://h/a/b;p=1?x=y', 'http://[::1]:81/a',
         'http://h/a/?q=1']
REFS = ['', 'd', './d', '../d', 'd/', 'd/e', '../../d', '../../../d', '/',
        '/d', '/d/../e', '?x=1', '#f', '?x=1#f', 'd?x=1', 'd#f', '/d?x=1#f',
        'd?x=1#f', '//other/p', '//other:81/p/../q?x=1#f', '//other', '.',
        '..', './', '../', 'd;p=1', '\u5bff', 'd e', 'd//e', '/d?x=a/b',
        'd#a/b', 'd?x=/../y', '/%2e%2e/d']


def relative_case(case, ctx):
    base_text, ref, kind = case
    b = URL(base_text)
    rec = Rec(**{f: getattr(b, f) for f in Rec.FIELDS})
    want = resolve(rec, ref)
    if kind == 'str':
        u = URL(ref, base=base_text)
    else:
        before = b.href
        u = URL(ref, base=b)
        expect_eq(b.href, before, 'base is unchanged')
        expect(u is not b, 'a new URL')
    ctx.step(2)
    verify(u, want, port=False)
    fixed_point(u, want)
    ctx.outcome(split_ref(ref)[0] is not None)


def nobase_case(case, ctx):
    base, ref = case
    expect_eq(outcome(lambda: URL(ref, base=base)), ('exc', 'ValueError'),
              'no base')
    ctx.outcome(base)


# ---- setters ----------------------------------------------------------------

VALID = {
    'protocol': [('https', 'https:'), ('http:', 'http:'), ('FTP', 'ftp:'),
                 ('ssh', 'ssh:'), ('a+b-c.1:', 'a+b-c.1:')],
    'host': [('x.org', ('x.org', '')), ('Y.org:81', ('y.org', '81')),
             ('h:80', ('h', '80')), ('h:443', ('h', '443')),
             ('[::2]', ('[::2]', '')), ('[::3]:82', ('[::3]', '82')),
             ('2001:db8::1', ('[2001:db8::1]', ''))],
    'hostname': [('Z.org', 'z.org'), ('[::4]', '[::4]'), ('::5', '[::5]'),
                 ('\u65e5\u672c\u8a9e.example', 'xn--wgv71a119e.example')],
    'port': [('', ''), ('80', '80'), ('443', '443'), ('8080', '8080'),
             ('0', '0'), ('65535', '65535')],
    'pathname': [('', '/'), ('/p/./q/', '/p/q/'), ('p q', '/p%20q'),
                 ('/a?b#c', '/a%3Fb%23c'), ('/x/../y', '/y'),
                 ('/%7E%2F', '/~%2F')],
    'search': [('', ''), ('b=1&a=2', '?a=2&b=1'), ('?x', '?x='),
               ('k=1=2', '?k=1=2'), ('?', ''), ('q=a b', '?q=a+b')],
    'hash': [('', ''), ('#f', '#f'), ('g h', '#g%20h'), ('#', ''),
             ('%2541', '#%2541')],
    'username': [('', ''), ('me', 'me'), ('a@b:c', 'a%40b%3Ac'),
                 ('%7E', '~')],
    'password': [('', ''), ('pw', 'pw'), ('/?', '%2F%3F')],
    'href': [('http://n:80/', dict(protocol='http:', hostname='n', port='80',
                                   pathname='/')),
             ('https://u:p@n:9/a/../b?y=1&x=2#z', dict(
                 protocol='https:', username='u', password='p', hostname='n',
                 port='9', pathname='/b', search='?x=2&y=1', hash='#z')),
             ('about:blank', dict(protocol='about:', pathname='blank'))],
}
INVALID = {
    'protocol': ['0http', 'a_b', 'a b', '+x'],
    'host': ['a b', 'a/b', 'a?b', 'a#b', 'u@h', 'a%20b', 'a\\b', '[::1'],
    'hostname': ['a b', 'a/b', 'u@h', 'a\tb'],
    'port': ['65536', '0.1', '-1', 'abc', '8 0', '99999999'],
    'pathname': ['/a\\b'],
    'href': ['/x', 'x', '', 'http://h:99999/', 'http://a b/'],
}


def set_rec(r, field, v):
    if field == 'protocol':
        if r.port and r.port in (PORTS.get(r.protocol), PORTS.get(v)):
            r.port = ''     # a default port is not carried over
        r.protocol = v
    elif field == 'host':
        r.hostname, r.port = v
    elif field == 'href':
        for f in Rec.FIELDS:
            setattr(r, f, v.get(f, ''))
    else:
        setattr(r, field, v)


class Setters(Machine):
    name = 'setters'
    depth = 3
    unmerged = 2

    STARTS = ['https://u:p@e.org:8080/a/b?k=v#f', 'http://e.org:80/',
              'ssh://e.org/x']

    def __init__(self, cls):
        self.cls = cls
        self.name = 'setters-' + cls
        skip = ('username', 'password') if cls == 'Location' else ()
        self.valid = [(f, t, n) for f, vs in VALID.items() for t, n in vs
                      if f not in skip]
        self.invalid = [(f, t, None) for f, vs in INVALID.items()
                        for t in vs]

    def configs(self):
        return self.STARTS

    def fresh(self, config):
        if self.cls == 'URL':
            u = URL(config)
        else:
            u = Location()
            u.href = config
        return u, self.fresh_model(config)

    def fresh_model(self, config):
        return Rec(**{
            self.STARTS[0]: dict(
                protocol='https:', username='u', password='p',
                hostname='e.org', port='8080', pathname='/a/b',
                search='?k=v', hash='#f'),
            self.STARTS[1]: dict(protocol='http:', hostname='e.org',
                                 port='80', pathname='/'),
            self.STARTS[2]: dict(protocol='ssh:', hostname='e.org',
                                 pathname='/x')}[config])

    def menu(self, model):
        if model.opaque():
            return [op for op in self.valid if op[0] == 'href']
        out = self.valid
        if model.protocol in PORTS:
            out = out + self.invalid
        else:
            out = out + [op for op in self.invalid if op[0] != 'pathname']
        return out

    def apply(self, u, op):
        return outcome(lambda: setattr(u, op[0], op[1]))

    def model_apply(self, r, op):
        f, t, n = op
        if n is None:
            return ('exc', 'ValueError')
        set_rec(r, f, n)
        return ('ok', None)

    def check_result(self, got, want, op):
        expect_eq(got[:2], want[:2], 'result of %r' % (op,))

    def observe(self, u):
        return u

    def model_observe(self, r):
        return r

    def same(self, u, r):
        verify(u, r)
        if isinstance(u, URL):
            items = {}
            for p in r.search[1:].split('&'):
                if p:
                    k, _, v = p.partition('=')
                    items[k] = v.replace('+', ' ')
            expect_eq(dict(u.search_params), items, 'search_params')
        return True

    def key(self, model, obs):
        return model.href() + '|' + model.port + '|' + model.username \
            + '|' + model.password


# ---- search params ----------------------------------------------------------

def form_enc(text):
    return enc(text, ALNUM + '*-._ ').replace(' ', '+')


class Params(Machine):
    """url.search_params is a live mapping of the query."""
    name = 'search-params'
    depth = 3
    unmerged = 2
    KEYS = ['a', 'b', 'k=', '+']
    VALUES = ['', '1', 'x=y', 'a+b', 'a b', 'a&b#c', '\u5bff']

    def configs(self):
        return ['', '?a=1&b=2', '?b=x=y&c']

    def fresh(self, config):
        u = URL('http://h/p' + config + '#f')
        return [u, u.search_params], self.fresh_model(config)

    def fresh_model(self, config):
        return {'': {}, '?a=1&b=2': {'a': '1', 'b': '2'},
                '?b=x=y&c': {'b': 'x=y', 'c': ''}}[config].copy()

    def menu(self, m):
        ops = [('set', k, v) for k in self.KEYS for v in self.VALUES]
        ops += [('del', k) for k in self.KEYS]
        ops += [('clear',), ('update', (('a', '9'), ('z', '8')))]
        ops += [('search', 'b=3&a=x=1'), ('search', ''), ('search', '?q'),
                ('href', 'https://h2/?n=1')]
        return ops

    def apply(self, s, op):
        u, p = s
        if op[0] == 'set':
            p[op[1]] = op[2]
        elif op[0] == 'del':
            return outcome(lambda: p.__delitem__(op[1]))[:2]
        elif op[0] == 'clear':
            p.clear()
        elif op[0] == 'update':
            p.update(dict(op[1]))
        elif op[0] == 'search':
            u.search = op[1]
        else:
            u.href = op[1]

    def model_apply(self, m, op):
        if op[0] == 'set':
            m[op[1]] = op[2]
        elif op[0] == 'del':
            if op[1] not in m:
                return ('exc', 'KeyError')
            del m[op[1]]
            return ('ok', None)
        elif op[0] == 'update':
            m.update(op[1])
        else:
            m.clear()
            m.update({('search', 'b=3&a=x=1'): {'b': '3', 'a': 'x=1'},
                      ('search', '?q'): {'q': ''},
                      ('href', 'https://h2/?n=1'): {'n': '1'}}.get(
                          op[:2], {}))

    def observe(self, s):
        u, p = s
        pairs = [x.split('=') for x in u.search[1:].split('&') if x]
        expect(u.search_params is p or dict(u.search_params) == dict(p),
               'live search_params')
        expect(all(len(x) >= 2 for x in pairs), 'key=value pairs')
        # read as application/x-www-form-urlencoded
        query = {}
        for x in pairs:
            query[dec(x[0].replace('+', ' '))] = \
                dec('='.join(x[1:]).replace('+', ' '))
        return (dict(p), sorted(p), len(p), query, p.tostring(),
                u.href.split('?')[1].split('#')[0] if '?' in u.href else '',
                u.search, len(pairs))

    def model_observe(self, m):
        return m

    def same(self, obs, m):
        if not isinstance(obs, tuple):
            return obs == m
        if obs and obs[0] in ('ok', 'exc'):
            return obs == m
        p, keys, n, query, text, in_href, search, npairs = obs
        want = '&'.join(form_enc(k) + '=' + form_enc(m[k])
                        for k in sorted(m))
        return (p == m and keys == sorted(m) and n == len(m) == npairs
                and query == m and text == want
                and (search[1:] == in_href))

    def key(self, model, obs):
        return repr(sorted(model.items()))


def params_case(case, ctx):
    sp = URLSearchParams(case)
    ctx.step(2)
    expect_eq(dict(sp), case, 'mapping')
    expect_eq(sp.tostring(), '&'.join(
        form_enc(k) + '=' + form_enc(case[k]) for k in sorted(case)),
        'tostring')
    query = {}
    for x in sp.tostring().split('&'):
        if x:
            k, v = x.split('=')
            query[dec(k.replace('+', ' '))] = dec(v.replace('+', ' '))
    expect_eq(query, case, 'decoded')
    ctx.outcome(len(case))


def decoding_case(case, ctx):
    query, want = case
    expect_eq(dict(URL('http://h/' + query).search_params), want,
              'search_params')


def check(run):
    s, us, hs, ps, pt, qs, fs = (SCHEMES, USERS, HOSTS, PORTTXT, PATHS,
                                 QUERIES, HASHES)
    d = (s[0], us[0], hs[0], '', '/a/b', qs[0], fs[0])
    alph = (s, us, hs, ps, pt, qs, fs)
    cases = []
    seen = set()

    def add(c):
        if repr(c) not in seen:
            seen.add(repr(c))
            cases.append(c)
    for i, j in itertools.combinations(range(7), 2):
        for a in alph[i]:
            for b in alph[j]:
                c = list(d)
                c[i], c[j] = a, b
                add(tuple(c))
    for c in product(s, us[:3], hs[:4], ps):
        add(tuple(c) + ('/', qs[2], fs[2]))
    if run.thorough:
        for i, j, k in itertools.combinations(range(7), 3):
            for a in alph[i]:
                for b in alph[j]:
                    for e in alph[k]:
                        c = list(d)
                        c[i], c[j], c[k] = a, b, e
                        add(tuple(c))
    run.cases('components', cases, parse_case,
              'pairs (triples) of spellings of all seven components',
              min_outcomes=30)
    segs = ['a', '.', '..', '', '%2E', 'b%2Fc', '\u5bff', '%41']
    paths = [('/a' if not p or p[0] == '' else '') + '/' + '/'.join(p)
             for n in range(0, 6 if run.thorough else 5)
             for p in itertools.product(segs, repeat=n)]
    run.cases('paths', [(s[i], us[0], hs[0], '', p, qs[0], fs[0])
                        for p in sorted(set(paths)) for i in (0, 5)],
              parse_case, 'all paths of up to 4 (5) segments from 8')
    op = [('about:blank', Rec(protocol='about:', pathname='blank')),
          ('data:text/plain;base64,SGVs%3D', Rec(
              protocol='data:', pathname='text/plain;base64,SGVs%3D')),
          ('data:,a%20b', Rec(protocol='data:', pathname=',a%20b')),
          ('data:image/svg+xml,%3Csvg/%3E', Rec(
              protocol='data:', pathname='image/svg+xml,%3Csvg/%3E')),
          ('blob:https://h.org/1-2', Rec(
              protocol='blob:', pathname='https://h.org/1-2')),
          ('blob:http://h.org:81/x', Rec(
              protocol='blob:', pathname='http://h.org:81/x')),
          ('blob:xyz', Rec(protocol='blob:', pathname='xyz')),
          ('ABOUT:blank', Rec(protocol='about:', pathname='blank')),
          ('file:///a/b.svg', Rec(protocol='file:', pathname='/a/b.svg')),
          ('file:///a/../b%20c?x=1#f', Rec(
              protocol='file:', pathname='/b%20c', search='?x=1',
              hash='#f'))]
    run.cases('opaque-and-file', op, opaque_case, min_outcomes=4)
    run.cases('invalid', ['', '/', '/a/b', 'a', 'a/b?c', '?q', '#f', 'about:',
                          'data:', 'blob:', 'http://h:65536/', 'http://h:x/',
                          'https://a b/', 'https://h%20/', 'http://[::1/',
                          'ftp://h:99999/p?z=1'], invalid_case)
    run.cases('relative', product(BASES, REFS, ['str', 'URL']),
              relative_case, '10 bases x 33 references', min_outcomes=2)
    run.cases('relative-file', product(
        ['file:///no-such-directory/a/b', 'file:///no-such-directory/a/',
         'file:///no-such-file?q=1#f'],
        [r for r in REFS if not r.startswith('//')], ['str', 'URL']),
        relative_case, '3 file URLs x 30 references')
    run.cases('without-base', product(
        [None, '', 'about:blank', 'data:,x'], ['d', '/d', '?q', '#f', '']),
        nobase_case)
    for cls in ('URL', 'Location'):
        m = Setters(cls)
        if not run.thorough:
            m.depth = 2
        run.histories(m, 'valid and invalid values of every setter')
    m = Params()
    if not run.thorough:
        m.depth = 2
    run.histories(m, '36 edits of the query')
    strings = ['', 'a', 'a b', 'a+b', 'a&b', 'a=b', '%41', '\u5bff', '#?/',
               '*-._', '"\'<>']
    run.cases('params', [{}] + [{k: v} for k in strings for v in strings]
              + [{k: '1', l: '2'} for k in strings for l in strings],
              params_case)
    run.cases('params-decoding', [
        ('?q=a%20b', {'q': 'a b'}), ('?q=%26', {'q': '&'}),
        ('?%41=1', {'A': '1'}), ('?q=%2B', {'q': '+'}),
        ('?q=a+b', {'q': 'a b'}), ('?q=a', {'q': 'a'})], decoding_case)
