"""C22: navigation of windows, and loading of documents and style sheets.

Files live in scratch directories below one temporary directory; the same
files are also served by a loopback HTTP server, one per worker process.
"""
import atexit
import base64
import io
import os
import shutil
import socketserver
import tempfile
import threading
from http.server import BaseHTTPRequestHandler
from urllib.parse import quote

from svgpy.window import SVGDOMImplementation, Window

from mc.engine import Machine, expect, expect_eq, outcome

BASE = None      # the temporary directory of this run
_LOCAL = {}

SVG = 'http://www.w3.org/2000/svg'
DECL = '<?xml version="1.0" encoding="utf-8"?>\n'


def svg(name, extra='', version=1, decl=DECL):
    return ('%s<?xml-stylesheet href="pi.css"?><!--c--><svg xmlns="%s" '
            'id="%s" class="v%d"><link xmlns="http://www.w3.org/1999/xhtml" '
            'rel="stylesheet" href="link.css"/>%s<g><rect id="r"/></g></svg>'
            % (decl, SVG, name, version, extra))


FILES = {
    'a.svg': svg('a'),
    'b.svg': svg('b', decl=''),
    'latin.svg': svg('latin', '<title>\xe9</title>',
                     decl=DECL.replace('utf-8', 'iso-8859-1')
                     ).encode('latin-1'),
    'pi.css': 'rect{fill:red}',
    'link.css': 'rect{stroke:red}',
    'sub/c.svg': svg('c'),
    'sub/pi.css': 'rect{fill:lime}',
    'sub/link.css': 'rect{stroke:lime}',
    'bad.svg': DECL + '<svg xmlns="%s"><g></svg>' % SVG,
    'empty.svg': '',
}


def write(root, files):
    for name, data in files.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if isinstance(data, str):
            data = data.encode('utf-8')
        with open(path, 'wb') as f:
            f.write(data)


class Handler(BaseHTTPRequestHandler):
    def do_GET(self):
        path, _, query = self.path.partition('?')
        name = os.path.join(_LOCAL['root'], path.lstrip('/'))
        if not os.path.isfile(name):
            self.send_error(404)
            return
        with open(name, 'rb') as f:
            data = f.read()
        self.send_response(200)
        kind = _LOCAL.get('type')
        if kind is not None:
            self.send_header('Content-Type', kind)
        self.send_header('Content-Length', str(len(data)))
        self.end_headers()
        self.wfile.write(data)

    def log_message(self, *args):
        pass


class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
    daemon_threads = True
    allow_reuse_address = True


def local(kind='main'):
    """The scratch directory and the server of this process."""
    if _LOCAL.get('pid') != os.getpid():
        _LOCAL.clear()
        _LOCAL['pid'] = os.getpid()
        _LOCAL['top'] = os.path.join(BASE, str(os.getpid()))
        server = Server(('127.0.0.1', 0), Handler)
        threading.Thread(target=server.serve_forever, daemon=True).start()
        _LOCAL['server'] = server
    root = _LOCAL['root'] = os.path.join(_LOCAL['top'], kind)
    os.makedirs(root, exist_ok=True)
    os.chdir(root)
    _LOCAL['type'] = None
    return root, {'file': 'file://' + root,
                  'http': 'http://127.0.0.1:%d'
                  % _LOCAL['server'].server_address[1]}


def ident(root):
    return None if root is None else root.get('id')


COLORS = {(255, 0, 0): 'red', (0, 255, 0): 'lime', (0, 0, 255): 'blue'}


def paint(window, element):
    style = element.get_computed_style()
    return style['fill'], style['stroke']


class Sut:
    pass


class Navigation(Machine):
    name = 'navigation histories'
    depth = 3
    observed_depth = 2

    def configs(self):
        return ['file', 'http']

    def fresh(self, config):
        root, bases = local()
        if 'main' not in _LOCAL:
            write(root, FILES)
            _LOCAL['main'] = True
        if _LOCAL.get('rewritten'):
            write(root, {'b.svg': FILES['b.svg']})
            _LOCAL['rewritten'] = False
        s = Sut()
        s.base = bases[config]
        s.root = root
        s.bases = bases
        s.w = Window(SVGDOMImplementation())
        s.other = Window(SVGDOMImplementation())
        s.doc = s.w.document
        s.loc = s.w.location
        s.other_root = s.other.document.document_element
        s.mql = s.w.match_media('(min-width: 100px)')
        return s, self.fresh_model(config)

    def fresh_model(self, config):
        # document: None, ('svg0', ...) or (file, version, edits)
        return {'config': config, 'scheme': None, 'url': 'about:blank', 'doc': ('svg0',),
                'edits': 0, 'version': 1, 'frag': '', 'search': ''}

    REFS = ['a.svg', 'b.svg', 'sub/c.svg', '../a.svg', './latin.svg',
            'missing.svg', 'bad.svg', 'empty.svg', 'b.svg#x', '#y', '/']

    def menu(self, model):
        ops = [(how, r) for how in ('window', 'document') for r in self.REFS]
        ops += [('window', '@b.svg'), ('document', '@sub/c.svg#z'),
                ('href', '@a.svg'), ('href', '@missing.svg'),
                ('href', 'b.svg'),
                ('assign', '@sub/c.svg'), ('assign', '@bad.svg'),
                ('reload',), ('hash', '#h'), ('hash', ''),
                ('edit',), ('clear',), ('rewrite',),
                ('window', 'about:blank'), ('href', 'about:blank'),
                ('window', 'data:image/svg+xml,<svg/>'),
                ('window', 'location')]
        if model['url'] != 'about:blank':
            ops += [('pathname', 'sub/c.svg'), ('pathname', 'missing.svg')]
            if model['scheme'] == 'http':
                ops += [('search', '?q=1'), ('search', ''), ('host', None),
                        ('port', None), ('protocol', None)]
        return ops

    # -- the real thing
    def apply(self, s, op):
        return outcome(self._apply, s, op)[0]

    def _apply(self, s, op):
        kind = op[0]
        arg = op[1] if len(op) > 1 else None
        if arg is not None and arg.startswith('@'):
            arg = s.base + '/' + arg[1:]
        if kind == 'window':
            s.w.location = s.other.location if arg == 'location' else arg
        elif kind == 'document':
            s.doc.location = arg
        elif kind == 'href':
            s.loc.href = arg
        elif kind == 'assign':
            s.loc.assign(arg)
        elif kind == 'reload':
            s.loc.reload()
        elif kind == 'hash':
            s.loc.hash = arg
        elif kind == 'search':
            s.loc.search = arg
        elif kind == 'pathname':
            path = '/' + arg
            if s.loc.protocol == 'file:':
                path = s.root + path
            s.loc.pathname = path
        elif kind == 'host':
            s.loc.host = 'bad host'
        elif kind == 'port':
            s.loc.port = '99999'
        elif kind == 'protocol':
            s.loc.protocol = '1'
        elif kind == 'edit':
            root = s.doc.document_element
            if root is not None:
                root.append_child(s.doc.create_element_ns(SVG, 'path'))
        elif kind == 'clear':
            root = s.doc.document_element
            if root is not None:
                s.doc.remove(root)
        elif kind == 'rewrite':
            write(s.root, {'b.svg': svg('b', version=2, decl='')})
            _LOCAL['rewritten'] = True

    def model_apply(self, m, op):
        kind = op[0]
        if kind == 'edit':
            if m['doc'] is not None:
                m['edits'] += 1
            return 'ok'
        if kind == 'clear':
            m['doc'] = None
            m['edits'] = 0
            return 'ok'
        if kind == 'rewrite':
            m['version'] = 2
            return 'ok'
        url, frag, search = m['url'], m['frag'], m['search']
        scheme = m['scheme']
        if kind in ('host', 'port', 'protocol'):
            return 'exc'
        if kind == 'hash':
            frag = op[1]
        elif kind == 'search':
            search = op[1]
        elif kind == 'pathname':
            url = op[1]
        elif kind != 'reload':
            ref = op[1]
            if ref in ('about:blank', 'location'):
                url, frag, search = 'about:blank', '', ''
            elif ref.startswith('data:'):
                return 'exc'
            else:
                ref, hash_, name = ref.partition('#')
                frag = hash_ + name
                if ref.startswith('@'):
                    url, search = ref[1:], ''
                    scheme = m['config']
                elif kind in ('href', 'assign'):
                    return 'exc'           # not an entire URL
                elif ref == '/':
                    return 'exc'           # a directory / not found
                elif ref == '' and url == 'about:blank':
                    return 'exc'           # the current directory
                elif ref != '':
                    # relative to the current directory at about:blank
                    if url == 'about:blank':
                        base = []
                        scheme = 'file'
                    else:
                        base = url.split('/')[:-1]
                        search = ''
                    for part in ref.split('/'):
                        if part == '..':
                            if not base and scheme == 'file':
                                return 'exc'
                            base = base[:-1]
                        elif part != '.':
                            base.append(part)
                    url = '/'.join(base)
        return self.go(m, scheme, url, frag, search)

    def go(self, m, scheme, url, frag, search):
        if url == 'about:blank':
            doc = None
        else:
            data = FILES.get(url)
            if data is None or url in ('bad.svg', 'empty.svg'):
                return 'exc'
            doc = (url, m['version'] if url == 'b.svg' else 1)
        m.update(scheme=scheme if doc else None, url=url, frag=frag, search=search, doc=doc, edits=0)
        return 'ok'

    # -- observations
    def href(self, m):
        if m['url'] == 'about:blank':
            return 'about:blank' + m['frag']
        return '@' + m['scheme'] + '/' + m['url'] + m['search'] + m['frag']

    def observe(self, s):
        doc = s.doc
        root = doc.document_element

        def short(url):
            for scheme, base in s.bases.items():
                url = url.replace(base, '@' + scheme)
            return url
        obs = {
            'href': short(s.loc.href),
            'document_uri': short(doc.document_uri),
            'url': short(doc.url),
            'origin': short(s.loc.origin),
            'document.origin': short(doc.origin),
            'same': (s.w.document is doc, s.w.location is s.loc,
                     doc.location is s.loc, doc.default_view is s.w),
            'root': ident(root),
            'nodes': [n.node_name for n in doc.child_nodes],
            'other': (s.other.location.href,
                      s.other.document.document_element is s.other_root,
                      s.other_root.owner_document is s.other.document),
            'media': s.mql.matches,
        }
        if root is None:
            obs.update(version=None, edits=0, owners=True, paint=None)
            return obs
        obs['version'] = root.get('class')
        obs['edits'] = sum(1 for n in root.iter('{*}path'))
        obs['owners'] = all(n.owner_document is doc
                            for n in root.iter('*'))
        rect = doc.get_element_by_id('r')
        obs['paint'] = None if rect is None else paint(s.w, rect)
        return obs

    def model_observe(self, m):
        href = self.href(m)
        origin = '@http' if m['scheme'] == 'http' else 'null'
        doc = m['doc']
        name = None if doc is None or doc == ('svg0',) else \
            os.path.basename(doc[0])[:-4]
        obs = {'href': href, 'document_uri': href, 'url': href,
               'origin': origin, 'document.origin': origin,
               'same': (True,) * 4, 'root': name,
               'nodes': [], 'other': ('about:blank', True, True),
               'media': True, 'version': None, 'edits': m['edits'],
               'owners': True, 'paint': None}
        if doc is not None:
            obs['nodes'] = ['svg'] if name is None else \
                ['xml-stylesheet', '#comment', 'svg']
            if name is not None:
                obs['version'] = 'v%d' % doc[1]
                # the references are relative to the current URL
                color = {'': 'red', 'sub': 'lime'}[
                    os.path.dirname(m['url'])]
                obs['paint'] = (color, color)
        return obs


# ---------------------------------------------------------------- encodings
CODECS = {'none': 'utf-8', 'utf-8': 'utf-8', 'UTF-8': 'utf-8',
          'iso-8859-1': 'latin-1', 'utf-16': 'utf-16',
          'windows-1252': 'cp1252', 'shift_jis': 'shift_jis'}
TEXTS = {'latin-1': '\xe9\xa7', 'cp1252': '\xe9\u20ac',
         'shift_jis': '\u65e5\u672c', 'utf-8': '\xe9\u65e5\U0001f600',
         'utf-16': '\xe9\u65e5\U0001f600'}


def header(charset, form):
    if form is None:
        return None
    return form % charset if '%s' in form else form


def case_encoding(case, ctx):
    """A document is decoded by the charset of the HTTP header, its byte
    order mark, or its XML declaration, in that order; else it is UTF-8."""
    enc, bom, decl, form, how = case
    root, bases = local('enc')
    codec = CODECS[enc]
    text = TEXTS[codec]
    head = '' if decl is None else \
        '<?xml version="1.0" encoding="%s"?>\n' % decl
    source = head + '<svg xmlns="%s" id="%s"><title>%s</title></svg>' % (
        SVG, text, text)
    data = source.encode(codec)
    if bom:
        data = b'\xef\xbb\xbf' + data
    write(root, {'x.svg': data})
    _LOCAL['type'] = header(enc, form)
    url = bases['file' if how != 'http' else 'http'] + '/x.svg'
    w = Window(SVGDOMImplementation())
    if how == 'object':
        got = w.document.implementation.parse(io.BytesIO(data))
    elif how == 'parse':
        got = w.document.implementation.parse(url)
    else:
        w.location = url
        got = w.document.document_element
    expect_eq((got.get('id'), got[0].text), (text, text), 'text')
    if how in ('file', 'http'):
        expect_eq(list(w.document.child_nodes), [got], 'children')
        expect(got[0].owner_document is w.document, 'owner document')
    ctx.outcome(enc)


def encoding_cases():
    forms = [None, 'image/svg+xml', 'image/svg+xml; charset=%s',
             'image/svg+xml;charset="%s"', 'IMAGE/SVG+XML ; CharSet=%s',
             "image/svg+xml; x=y; charset='%s'"]
    for enc in CODECS:
        if enc == 'none':
            continue
        for decl in (None, enc, 'utf-8', 'iso-8859-1'):
            for form in forms:
                for how in ('http', 'file', 'parse', 'object'):
                    if how != 'http' and form is not None:
                        continue
                    for bom in (False, True):
                        if bom and CODECS[enc] != 'utf-8':
                            continue
                        by_header = form is not None and '%s' in form
                        if not by_header and decl != enc \
                                and CODECS[enc] != 'utf-8' \
                                and not (CODECS[enc] == 'utf-16'
                                         and decl is None):
                            continue    # the document is ill-formed
                        if not by_header and CODECS[enc] == 'utf-8' \
                                and decl == 'iso-8859-1':
                            continue
                        yield (enc, bom, decl, form, how)


def case_css_encoding(case, ctx):
    """A style sheet is decoded by its byte order mark, the charset of the
    HTTP header, its @charset rule, the charset of the reference, or as
    UTF-8, in that order."""
    actual, bom, head, at, ref, kind = case
    root, bases = local('css')
    text = {'utf-8': '\xe9', 'iso-8859-1': '\xe9', 'utf-16': '\xe9',
            'windows-1252': '\xe9'}[actual]
    source = '.a%s{fill:lime}' % text
    if at is not None:
        source = '@charset "%s";' % at + source
    data = source.encode(CODECS[actual])
    if bom:
        data = b'\xef\xbb\xbf' + data
    link = '<link xmlns="http://www.w3.org/1999/xhtml" rel="stylesheet" ' \
        'href="x.css"/>' if kind == 'link' else '<style>@import "x.css";' \
        '</style>' if kind == 'import' else ''
    pi = '<?xml-stylesheet href="x.css"%s?>' % (
        '' if ref is None else ' charset="%s"' % ref) if kind == 'pi' else ''
    doc = '%s<svg xmlns="%s">%s<rect class="a%s"/></svg>' % (
        pi, SVG, link, text)
    write(root, {'x.css': data, 'x.svg': doc})
    w = Window(SVGDOMImplementation())
    scheme = 'file'
    if head != 'file':
        scheme = 'http'
    w.location = bases[scheme] + '/x.svg'
    if head not in ('file', None):
        _LOCAL['type'] = 'text/css; charset=' + head
    rect = w.document.document_element[-1]
    fill = rect.get_computed_style()['fill']
    if bom or actual == 'utf-16':
        used = actual
    elif head not in ('file', None):
        used = head
    else:
        used = at or ref or 'utf-8'
    same = used == actual or {used, actual} == {'iso-8859-1', 'windows-1252'}
    expect_eq(fill, 'lime' if same else 'black', 'fill')
    ctx.outcome(same)


# ------------------------------------------------------------- references
REF_FILES = {
    's.css': 'rect{fill:red}',
    'd/s.css': 'rect{fill:lime}',
    'd/e/s.css': 'rect{fill:blue}',
    'd/e/im.css': '@import "s.css";',
    'd/im.css': '@import "e/im.css";',
    'im.css': '@import "./d/../d/im.css";',
}
# reference -> the sheet it designates from 'd/x.svg' (None: unusable)
REFS = {
    's.css': 'lime', './s.css': 'lime', '../s.css': 'red',
    'e/s.css': 'blue', 'e/../s.css': 'lime', './/s.css': 'lime',
    '/s.css': 'red', '//@/s.css': 'red', '@/d/e/s.css': 'blue',
    's.css#f': 'lime', 'e/im.css': 'blue', 'im.css': 'blue',
    '../im.css': 'blue', 'data:text/css,rect{fill:blue}': 'blue',
    'data:text/css;base64,' + base64.b64encode(
        b'rect{fill:blue}').decode(): 'blue',
    'data:text/css;charset=utf-8,' + quote('rect{fill:red}'): 'red',
    '': None, '#s.css': None, 'none.css': None, 'e/': None,
    'foo:bar': None, 'http://a:b/': None, 'data:text/css': None,
    'http://[/s.css': None, '@/nowhere/s.css': None,
}


def case_reference(case, ctx):
    """References are relative to the document, or to the style sheet they
    are in; an unusable one designates no style sheet."""
    scheme, kind, ref, page, others = case
    root, bases = local('refs')
    if 'refs' not in _LOCAL:
        write(root, REF_FILES)
        _LOCAL['refs'] = True
    want = REFS[ref]
    base = bases[scheme]
    if ref.startswith('//'):
        href = base.split(':', 1)[1] + '/s.css'
    elif ref == '/s.css' and scheme == 'file':
        href = root + ref
    else:
        href = ref.replace('@', base)
    attr = href.replace('&', '&amp;').replace('"', '&quot;').replace(
        '<', '&lt;')
    html = 'xmlns="http://www.w3.org/1999/xhtml"'
    pi = inner = ''
    before, after = others
    if kind == 'pi':
        pi = '<?xml-stylesheet type="text/css" href="%s"?>' % attr
    elif kind == 'link':
        inner = '<link %s rel="stylesheet" href="%s"/>' % (html, attr)
    elif kind == 'import':
        inner = "<style>@import '%s';</style>" % attr
    elif kind == 'url':
        inner = "<style>@import url('%s');</style>" % attr
    elif kind == 'nested':
        write(root, {'d/n.css': '@import "%s";' % href.replace('"', '\\"')})
        inner = '<link %s rel="stylesheet" href="n.css"/>' % html
    text = '%s<svg xmlns="%s">%s%s%s<rect id="?"/></svg>' % (
        pi, SVG,
        '<style>rect{stroke:red;stroke-width:2}</style>' if before else '',
        inner, '<style>rect{stroke:lime}</style>' if after else '')
    text = text.replace('rect id="?"', 'rect')
    write(root, {'d/x.svg': text})
    w = Window(SVGDOMImplementation())
    if page == 'empty first':
        w.location = 'about:blank'
    w.location = base + '/d/x.svg' + (page if page[:1] in '#?' else '')
    rect = w.document.document_element[-1]
    style = rect.get_computed_style()
    expect_eq((style['fill'], style['stroke'],
               float(style['stroke-width'])),
              (want or 'black',
               'lime' if after else 'red' if before else 'none',
               2. if before else 1.), 'style')
    ctx.outcome(want)


def check(run):
    global BASE
    cwd = os.getcwd()
    BASE = tempfile.mkdtemp(prefix='mc22')
    _LOCAL.clear()
    try:
        cases = list(encoding_cases())
        run.cases('document encodings', cases, case_encoding,
                  bound='7 encodings x declarations x headers x 4 ways',
                  min_outcomes=5)
        css = [(a, b, h, at, ref, k)
               for a in ('utf-8', 'iso-8859-1', 'windows-1252', 'utf-16')
               for b in ((False, True) if a == 'utf-8' else (False,))
               for h in ('file', None, 'utf-8', 'iso-8859-1')
               for at in (None, 'utf-8', 'iso-8859-1')
               for k in ('pi', 'link', 'import')
               for ref in ((None, 'utf-8', 'iso-8859-1') if k == 'pi'
                           else (None,))
               if a != 'utf-16' or at is None]
        run.cases('style sheet encodings', css, case_css_encoding,
                  bound='5 byte sequences x headers x @charset x charset '
                  'attributes x 3 kinds of reference', min_outcomes=2)
        refs = [(s, k, r, p, o) for s in ('file', 'http')
                for k in ('pi', 'link', 'import', 'url', 'nested')
                for r in REFS
                for p in ('', '#f', 'empty first') + (
                    ('?q=1',) if s == 'http' else ())
                for o in ((False, False), (True, False), (False, True),
                          (True, True))
                if not (k in ('import', 'url', 'nested') and r == '#s.css')]
        run.cases('references', refs, case_reference,
                  bound='%d references x 5 kinds x 2 schemes x pages'
                  % len(REFS), min_outcomes=4)
        n = Navigation()
        n.depth = 6 if run.thorough else 4
        n.unmerged = 2 if run.thorough else 1
        n.observed_depth = 2
        run.histories(n, bound='all histories of up to %d navigations, '
                      'edits and rewrites of files, for file: and http: '
                      'URLs; longer than %d: merged' % (n.depth, n.unmerged))
    finally:
        os.chdir(cwd)
        shutil.rmtree(BASE, ignore_errors=True)
