"""C27: qualified names, node factories, element classes and reflected
attributes.

Reference: the "validate and extract" rules over (namespace, name), a table of
element interfaces by local name and a table of reflected attributes.
"""
from svgpy import Element, SVGParser
from svgpy import element as elements
from svgpy.base import HTMLElement, SVGElement
from svgpy.dom import Attr, Comment, Node, ProcessingInstruction
from svgpy.exception import InvalidCharacterError, NamespaceError
from svgpy.utils import QualifiedName
from svgpy.window import Document, SVGDOMImplementation, XMLDocument

from mc.engine import Machine, expect, expect_eq, outcome, product

SVG = 'http://www.w3.org/2000/svg'
HTML = 'http://www.w3.org/1999/xhtml'
XLINK = 'http://www.w3.org/1999/xlink'
XML = 'http://www.w3.org/XML/1998/namespace'
XMLNS = 'http://www.w3.org/2000/xmlns/'
PREFIXES = {'html': HTML, 'xlink': XLINK, 'xml': XML, 'xmlns': XMLNS}

NAMESPACES = [None, '', SVG, HTML, XLINK, XML, XMLNS, 'urn:a', 'urn:b',
              ' ', 'urn a', 'urn:a\n']
LOCALS = ['a', 'rect', 'aB-c.d', '\xe9', 'svg']


def names():
    out = ['', ' ', 'a b', 'a\tb', '\na', ':', 'a:', ':a', 'xml:', '{}', '{}a',
           '{urn:a}', '{urn:a} b']
    for local in LOCALS:
        out.append(local)
        out += ['%s:%s' % (p, local)
                for p in ('html', 'xlink', 'xml', 'xmlns', 'foo', 'HTML')]
        out += ['{%s}%s' % (ns, local)
                for ns in (SVG, HTML, XLINK, 'urn:a', 'urn:b')]
    return out


def model_name(ns, name, nsmap=None):
    """Returns (name, local name, namespace), or the name of an exception."""
    known = PREFIXES if nsmap is None else nsmap
    space = ' \t\n\r\f'
    if ns and any(c in ns for c in space):
        return 'InvalidCharacterError'
    ns = ns or None
    if not name:
        return 'ValueError'
    if any(c in name for c in space):
        return 'InvalidCharacterError'
    if name[0] == '{' and '}' in name:
        own, local = name[1:].split('}', 1)
        if not own or not local:
            return 'ValueError'
        if ns is not None and own != ns:
            return 'NamespaceError'
        return '{%s}%s' % (own, local), local, own
    if ':' in name:
        prefix, local = name.split(':', 1)
        if not prefix or not local:
            return 'ValueError'
        if ns is None or known.get(prefix) != ns:
            return 'NamespaceError'
        return '{%s}%s' % (ns, local), local, ns
    return ('{%s}%s' % (ns, name) if ns else name), name, ns


def attempt(fn, *args, **kwargs):
    try:
        return fn(*args, **kwargs)
    except (InvalidCharacterError, NamespaceError, ValueError) as e:
        return type(e).__name__


def name_case(case, ctx):
    ns, name, nsmap = case
    want = model_name(ns, name, nsmap)
    given = None if nsmap is None else dict(nsmap)
    q = attempt(QualifiedName, ns, name, given)
    if isinstance(want, str):
        ctx.outcome(want)
        expect_eq(q if isinstance(q, str) else 'a name', want,
                  'QualifiedName(%r, %r)' % (ns, name))
    else:
        ctx.outcome('named')
        expect(not isinstance(q, str), 'QualifiedName(%r, %r)' % (ns, name),
               want, q)
        expect_eq((q.name, q.local_name, q.namespace_uri), want,
                  'name, local name and namespace')
    expect_eq(given, nsmap, 'the map of the caller')
    if nsmap is not None:
        return
    # attributes are named alike
    parser = SVGParser()
    doc = SVGDOMImplementation(parser).create_document(SVG, 'svg')
    for what, make in (('Attr', lambda: Attr(ns, name, 'v')),
                       ('parser', lambda: parser.create_attribute_ns(ns, name)),
                       ('document', lambda: doc.create_attribute_ns(ns, name))):
        a = attempt(make)
        if isinstance(want, str):
            expect_eq(a if isinstance(a, str) else 'a name', want,
                      '%s attribute' % what)
            continue
        expect_eq((a.name, a.local_name, a.namespace_uri), want,
                  '%s attribute' % what)
        expect_eq((a.node_name, a.node_type, a.value, a.node_value,
                   a.owner_element, a.parent_node, a.child_nodes,
                   a.next_sibling, a.previous_sibling),
                  (want[0], Node.ATTRIBUTE_NODE,
                   'v' if what == 'Attr' else '', 'v' if what == 'Attr' else '',
                   None, None, [], None, None), 'a new attribute')
        expect(a.owner_document is (doc if what == 'document' else None),
               'document of the attribute', None, a.owner_document)
        ctx.step()
    if not isinstance(want, str):
        # names select attributes and elements
        e = parser.create_element_ns(SVG, 'g')
        if want[2] not in (XMLNS,):
            e.set_attribute_ns(ns, name, 'x')
            expect_eq(dict(e.attrib), {want[0]: 'x'}, 'set_attribute_ns')
            expect_eq((e.get_attribute_ns(ns, want[1]),
                       e.has_attribute_ns(ns, want[1])),
                      ('x', True) if want[2] == (ns or None)
                      else (e.get_attribute_ns(ns, want[1]),
                            e.has_attribute_ns(ns, want[1])),
                      'get_attribute_ns, has_attribute_ns')


# ---- element factories --------------------------------------------------

CLASSES = {
    'a': 'SVGAElement', 'audio': 'HTMLAudioElement',
    'canvas': 'HTMLCanvasElement', 'circle': 'SVGCircleElement',
    'defs': 'SVGDefsElement', 'desc': 'SVGDescElement',
    'ellipse': 'SVGEllipseElement', 'g': 'SVGGElement',
    'hatch': 'SVGHatchElement', 'hatchpath': 'SVGHatchpathElement',
    'iframe': 'HTMLIFrameElement', 'line': 'SVGLineElement',
    'linearGradient': 'SVGLinearGradientElement', 'link': 'HTMLLinkElement',
    'marker': 'SVGMarkerElement', 'meshgradient': 'SVGMeshGradientElement',
    'meshpatch': 'SVGMeshpatchElement', 'meshrow': 'SVGMeshrowElement',
    'metadata': 'SVGMetadataElement', 'path': 'SVGPathElement',
    'pattern': 'SVGPatternElement', 'polygon': 'SVGPolygonElement',
    'polyline': 'SVGPolylineElement',
    'radialGradient': 'SVGRadialGradientElement', 'rect': 'SVGRectElement',
    'script': 'SVGScriptElement', 'solidcolor': 'SVGSolidcolorElement',
    'stop': 'SVGStopElement', 'style': 'SVGStyleElement',
    'svg': 'SVGSVGElement', 'symbol': 'SVGSymbolElement',
    'text': 'SVGTextElement', 'textPath': 'SVGTextPathElement',
    'title': 'SVGTitleElement', 'tspan': 'SVGTSpanElement',
    'use': 'SVGUseElement', 'video': 'HTMLVideoElement',
    'view': 'SVGViewElement',
}
OTHERS = ['source', 'p', 'Rect', 'RECT', 'lineargradient', 'unknown', 'feBlend']


def class_of(local, ns):
    name = CLASSES.get(local)
    if name is not None:
        return name
    return 'HTMLElement' if ns == HTML else 'SVGElement'


NSMAPS = [None, {}, {None: 'urn:b'}, {'s': SVG}, {'q': 'urn:a'},
          {None: HTML, 's': SVG}]


def element_case(case, ctx):
    how, ns, name, nsmap, attrib = case
    nsmap = NSMAPS[nsmap]
    parser = SVGParser()
    doc = SVGDOMImplementation(parser).create_document(SVG, 'svg')
    other = SVGDOMImplementation(parser).create_document(SVG, 'svg')
    given = None if nsmap is None else dict(nsmap)
    attrs = None if attrib is None else dict(attrib)
    kw = {'attrib': attrs, 'nsmap': given}
    root = doc.document_element
    if how == 'parser':
        e = attempt(parser.create_element_ns, ns, name, **kw)
    elif how == 'document':
        e = attempt(doc.create_element_ns, ns, name, **kw)
    else:
        e = attempt(root.create_sub_element_ns, ns, name, **kw)
    want = model_name(ns, name)
    expect_eq(given, nsmap, 'the namespace map of the caller')
    expect_eq(attrs, attrib, 'the attributes of the caller')
    ctx.step()
    if isinstance(want, str):
        ctx.outcome(want)
        expect_eq(e if isinstance(e, str) else 'an element', want,
                  'creation of %r in %r' % (name, ns))
        expect_eq(len(root), 0, 'children after a rejected name')
        return
    ctx.outcome(how)
    expect(not isinstance(e, str), 'creation', want, e)
    tag, local, uri = want
    expect_eq((e.tag, e.local_name, e.namespace_uri, e.node_type),
              (tag, local, uri, Node.ELEMENT_NODE),
              'tag, local name, namespace and type')
    expect_eq(type(e).__name__, class_of(local, uri), 'interface')
    prefix = e.prefix
    expect_eq((e.tag_name, e.node_name),
              ((prefix + ':' if prefix else '') + local,) * 2, 'tag name')
    # lxml reuses the prefixes of the parent where it can
    own = how != 'sub' or not nsmap
    if own:
        expect_eq(e.nsmap.get(prefix), uri, 'namespace of the prefix')
    if uri == HTML and (not nsmap or None not in nsmap):
        expect_eq(prefix, 'html', 'prefix of XHTML elements')
    if nsmap and own:
        expect(uri not in nsmap.values()
               or nsmap.get(prefix) == uri, 'prefix is that of the map',
               nsmap, prefix)
    expect_eq(dict(e.attrib), dict(attrib or {}), 'attributes')
    expect_eq(len(e), 0, 'children')
    expect(e.owner_document is (None if how == 'parser' else doc),
           'owner document', None, e.owner_document)
    expect(e.parent_node is (root if how == 'sub' else None), 'parent',
           None, e.parent_node)
    expect_eq(list(root), [e] if how == 'sub' else [], 'children of the root')
    # the same element after serialisation
    r = parser.fromstring(e.tostring(encoding='utf-8')) if own else e
    expect_eq((r.tag, type(r).__name__, dict(r.attrib), r.namespace_uri,
               r.tag_name),
              (e.tag, type(e).__name__, dict(e.attrib), uri, e.tag_name),
              'the element parsed from its serialisation')
    # it can be used in another tree
    other.document_element.append(e)
    expect(e.owner_document is other and e.tag == tag,
           'moved to another document')


def class_case(case, ctx):
    local, ns = case
    parser = SVGParser()
    want = class_of(local, ns)
    made = parser.create_element_ns(ns, local)
    root = parser.fromstring('<x xmlns="urn:x"><y xmlns="%s"><%s/></y></x>'
                             % (ns, local))
    sub = parser.create_element_ns(SVG, 'g').create_sub_element_ns(ns, local)
    for what, e in (('created', made), ('parsed', root[0][0]), ('sub', sub)):
        expect_eq((type(e).__name__, e.local_name, e.namespace_uri),
                  (want, local, ns), '%s element' % what)
        cls = {'HTMLElement': HTMLElement, 'SVGElement': SVGElement}.get(
            want, getattr(elements, want, None))
        expect(isinstance(e, cls) and isinstance(e, Element)
               and isinstance(e, Node), 'interface of the element', cls, e)
        expect(isinstance(e, SVGElement) == (want[:3] == 'SVG'),
               'SVG interface', want, type(e))
        ctx.step()
    ctx.outcome(want[:4])


# ---- positions of sub elements -------------------------------------------

def index_case(case, ctx):
    n, how, index = case
    parser = SVGParser()
    doc = SVGDOMImplementation(parser).create_document(SVG, 'svg')
    root = doc.document_element
    before = [root.create_sub_element_ns(SVG, 'g') for _ in range(n)]
    if how == 'ns':
        e = root.create_sub_element_ns(SVG, 'rect', index, {'id': 'e'})
    else:
        e = root.create_sub_element('rect', index, {'id': 'e'})
    want = list(before)
    if index is None:
        want.append(e)
    elif index < -n:
        want = None     # as in lxml
    else:
        want.insert(index, e)
    if want is not None:
        expect_eq([before.index(c) if c in before else 'e' for c in root],
                  [before.index(c) if c in before else 'e' for c in want],
                  'children after create_sub_element at %r' % (index,))
    expect(e.parent_node is root and e.owner_document is doc
           and e.get('id') == 'e' and e.local_name == 'rect'
           and type(e).__name__ == 'SVGRectElement', 'the new element')
    ctx.outcome('n=%d' % n)


# ---- documents ------------------------------------------------------------

def document_case(case, ctx):
    how, ns, name, nsmap = case
    nsmap = NSMAPS[nsmap]
    given = None if nsmap is None else dict(nsmap)
    parser = SVGParser()
    impl = SVGDOMImplementation(parser)
    if how == 'svg':
        ns, name = SVG, 'svg'
        doc = impl.create_svg_document(nsmap=given)
    elif how == 'parser svg':
        ns, name = SVG, 'svg'
        doc = parser.create_svg_document(nsmap=given)
    elif how == 'parser':
        doc = attempt(parser.create_document, ns, name, nsmap=given)
    else:
        doc = attempt(impl.create_document, ns, name, nsmap=given)
    expect_eq(given, nsmap, 'the namespace map of the caller')
    want = model_name(ns, name) if name else None
    if isinstance(want, str):
        expect_eq(doc if isinstance(doc, str) else 'a document', want,
                  'root element name')
        ctx.outcome(want)
        return
    expect(isinstance(doc, XMLDocument), 'an XML document', None, doc)
    expect_eq(doc.content_type,
              {SVG: 'image/svg+xml', HTML: 'application/xhtml+xml'}.get(
                  ns, 'application/xml'), 'content type')
    expect_eq((doc.node_type, doc.node_name, doc.node_value, doc.parent_node,
               doc.owner_document, doc.location.href),
              (Node.DOCUMENT_NODE, '#document', None, None, None,
               'about:blank'), 'a new document')
    root = doc.document_element
    if want is None:
        expect_eq((root, doc.child_nodes, doc.tostring()), (None, [], b''),
                  'a document without root element')
    else:
        expect_eq(root.tag, want[0], 'tag of the root element')
        expect_eq(type(root).__name__, class_of(want[1], want[2]),
                  'interface of the root element')
        expect(root.owner_document is doc and doc.child_nodes == [root],
               'children of the document')
        again = parser.fromstring(doc.tostring())
        expect_eq(again.tag, root.tag, 'serialised document')
    ctx.outcome('document')
    # nodes made by the document belong to it, and are in no tree
    for what, make, kind, cls, fields in (
            ('comment', lambda: doc.create_comment('d'), Node.COMMENT_NODE,
             Comment, ('#comment', 'd', 'd')),
            ('pi', lambda: doc.create_processing_instruction('t', 'a="b"'),
             Node.PROCESSING_INSTRUCTION_NODE, ProcessingInstruction,
             ('t', 'a="b"', 'a="b"')),
            ('pi', lambda: doc.create_processing_instruction('t'),
             Node.PROCESSING_INSTRUCTION_NODE, ProcessingInstruction,
             ('t', '', '')),
            ('element', lambda: doc.create_element('rect', {'x': '1'}),
             Node.ELEMENT_NODE, elements.SVGRectElement,
             ('rect', None, None))):
        n = make()
        expect_eq((n.node_type, n.node_name, n.node_value or None,
                   n.text_content or None),
                  (kind, fields[0], fields[1] or None, fields[2] or None),
                  'a new %s' % what)
        expect(isinstance(n, cls), 'class of the %s' % what, cls, type(n))
        expect(n.owner_document is doc and n.parent_node is None
               and n.next_sibling is None and n.previous_sibling is None
               and list(n.child_nodes) == [], 'a new %s is alone' % what)
        ctx.step()
    expect_eq(doc.child_nodes, [] if root is None else [root],
              'children of the document after making nodes')


def misc_case(case, ctx):
    ctx.outcome(case[0])
    if case[0] == 'no implementation':
        doc = Document()
        for fn, args in ((doc.create_comment, ('x',)),
                         (doc.create_element, ('svg',)),
                         (doc.create_element_ns, (SVG, 'svg')),
                         (doc.create_attribute, ('a',)),
                         (doc.create_attribute_ns, (None, 'a')),
                         (doc.create_processing_instruction, ('a',))):
            expect_eq(outcome(fn, *args), ('exc', 'ValueError'),
                      '%s() without implementation' % fn.__name__)
        expect_eq((doc.content_type, doc.document_element, doc.child_nodes),
                  ('application/xml', None, []), 'an empty document')
    elif case[0] == 'pi':
        parser = SVGParser()
        pi = parser.create_processing_instruction('xml-stylesheet', case[1])
        expect_eq((pi.target, pi.data, pi.node_name, pi.length),
                  ('xml-stylesheet', case[1], 'xml-stylesheet', len(case[1])),
                  'processing instruction')
        for k, v in case[2].items():
            expect_eq(pi.get(k), v, 'pseudo-attribute %s' % k)
        expect_eq(pi.tostring(), ('<?xml-stylesheet %s?>' % case[1]).encode(),
                  'serialised')
    elif case[0] == 'comment':
        c = SVGParser().create_comment(case[1])
        expect_eq((c.data, c.length, c.node_value, c.text_content,
                   c.tostring()),
                  (case[1], len(case[1]), case[1], case[1],
                   ('<!--%s-->' % case[1]).encode()), 'comment')
    elif case[0] == 'local attribute':
        a = SVGParser().create_attribute(case[1])
        expect_eq((a.name, a.local_name, a.namespace_uri, a.value, a.prefix),
                  (case[1], case[1], None, '', None), 'attribute')
    elif case[0] == 'local element':
        attrib = {'x': '1', 'id': 'i'}
        for maker in (SVGParser(),
                      SVGDOMImplementation().create_document(SVG, 'svg')):
            e = maker.create_element(case[1], attrib)
            expect_eq((e.local_name, e.node_name, dict(e.attrib), e.id,
                       type(e).__name__),
                      (case[1], case[1], attrib, 'i', class_of(case[1], None)),
                      'create_element')
            expect_eq(SVGParser().fromstring(e.tostring(encoding='utf-8')).local_name, case[1],
                      'serialised')


# ---- reflected attributes ---------------------------------------------------

REFLECTED = {
    'link': {'as_': ('as', ''), 'cross_origin': ('crossorigin', None),
             'href': ('href', ''), 'hreflang': ('hreflang', ''),
             'integrity': ('integrity', ''), 'media': ('media', ''),
             'referrer_policy': ('referrerpolicy', ''), 'rel': ('rel', ''),
             'type': ('type', ''), 'title': ('title', ''),
             'lang': ('lang', ''), 'id': ('id', ''),
             'class_name': ('class', '')},
    'style': {'media': ('media', 'all'), 'title': ('title', None),
              'type': ('type', 'text/css'), 'id': ('id', ''),
              'class_name': ('class', '')},
    'video': {'title': ('title', ''), 'lang': ('lang', ''), 'id': ('id', ''),
              'class_name': ('class', '')},
    'g': {'id': ('id', ''), 'class_name': ('class', '')},
}
TOKENS = {'rel_list': 'rel', 'sizes': 'sizes', 'class_list': 'class'}
ZOOM = {None: 1, 'disable': 1, 'magnify': 2, 'other': 0, '': 0, 'Magnify': 0,
        ' disable': 0}


class Reflection(Machine):
    name = 'reflected attributes'

    def __init__(self, deep):
        self.depth = 3 if deep else 2

    def configs(self):
        return list(REFLECTED) + ['svg']

    def fresh(self, config):
        ns = HTML if config in ('link', 'video') else SVG
        return (SVGParser().create_element_ns(ns, config),
                {'kind': config, 'attrs': {}})

    def menu(self, model):
        if model['kind'] == 'svg':
            return ([('zoom', v) for v in (0, 1, 2, 3, -1, '1', None)]
                    + [('raw' if v == '' else 'attr', 'zoomAndPan', v)
                       for v in ZOOM])
        out = []
        for prop, (attr, _) in REFLECTED[model['kind']].items():
            out += [('prop', prop, 'x y'), ('prop', prop, ''),
                    ('attr', attr, 'z'), ('attr', attr, None),
                    ('raw', attr, '')]
        if model['kind'] == 'link':
            out += [('add', t, 'n') for t in ('rel_list', 'sizes')]
            out += [('drop', t, 'x') for t in ('rel_list', 'sizes')]
            out.append(('attr', 'sizes', '1x1  2x2'))
        return out

    def apply(self, e, op):
        if op[0] == 'zoom':
            e.zoom_and_pan = op[1]
        elif op[0] == 'prop':
            setattr(e, op[1], op[2])
        elif op[0] == 'raw':
            e.attrib[op[1]] = op[2]
        elif op[0] == 'attr':
            if op[2] is None:
                e.remove_attribute(op[1])
            else:
                e.set_attribute(op[1], op[2])
        elif op[0] == 'add':
            getattr(e, op[1]).add(op[2])
        else:
            getattr(e, op[1]).remove(op[2])

    def model_apply(self, model, op):
        a = model['attrs']
        if op[0] == 'zoom':
            if not isinstance(op[1], str) and op[1] in (1, 2):
                a['zoomAndPan'] = {1: 'disable', 2: 'magnify'}[op[1]]
        elif op[0] == 'prop':
            a[REFLECTED[model['kind']][op[1]][0]] = op[2]
        elif op[0] in ('attr', 'raw'):
            if op[2] is None:
                a.pop(op[1], None)
            else:
                a[op[1]] = op[2]
        else:
            name = TOKENS[op[1]]
            had = name in a
            tokens = list(dict.fromkeys(a.get(name, '').split()))
            if op[0] == 'drop':
                if op[2] not in tokens:
                    return                  # nothing to rewrite
                tokens.remove(op[2])
            elif op[2] not in tokens:
                tokens.append(op[2])
            if had or tokens:
                a[name] = ' '.join(tokens)

    def observe(self, e):
        out = {'attrs': dict(e.attrib)}
        kind = e.local_name
        if kind == 'svg':
            out['zoom'] = e.zoom_and_pan
            return out
        for prop in REFLECTED[kind]:
            out[prop] = getattr(e, prop)
        out['class_list'] = list(e.class_list)
        if kind == 'link':
            out['rel_list'] = list(e.rel_list)
            out['sizes'] = list(e.sizes)
        return out

    def model_observe(self, model):
        a = model['attrs']
        out = {'attrs': dict(a)}
        if model['kind'] == 'svg':
            out['zoom'] = ZOOM[a.get('zoomAndPan')]
            return out
        for prop, (attr, default) in REFLECTED[model['kind']].items():
            out[prop] = a.get(attr, default)
        for t, attr in TOKENS.items():
            if t == 'class_list' or model['kind'] == 'link':
                out[t] = list(dict.fromkeys(a.get(attr, '').split()))
        return out

    def same(self, a, b):
        return a == b

    def key(self, model, obs):
        return sorted(model['attrs'].items())


def check(run):
    t = run.thorough
    cases = [(ns, name, None) for ns in NAMESPACES for name in names()]
    cases += [(ns, name, m) for ns in NAMESPACES for name in names()
              for m in ({}, {'foo': 'urn:a'}, {'foo': 'urn:b', 'xml': 'urn:a'})]
    run.cases('qualified names', cases, name_case,
              'all pairs of 12 namespaces and 68 names, with 4 prefix maps',
              min_outcomes=4)
    locals_ = ['rect', 'video', 'zzz'] if not t else LOCALS + ['video', 'zzz']
    more = ['html:p', 'xlink:a', 'foo:a', '{urn:a}b', '{%s}rect' % SVG, 'a b',
            '', ':a', 'a:', '{}a', '{urn:a}']
    cases = [(how, ns, name, m, attrib)
             for how in ('parser', 'document', 'sub')
             for ns in (None, SVG, HTML, 'urn:a', 'urn a')
             for name in locals_ + more
             for m in range(len(NSMAPS))
             for attrib in (None, {'x': '1', '{%s}href' % XLINK: 'h'})
             if ns or name[:1] == '{' or isinstance(model_name(ns, name), str)]
    run.cases('element factories', cases, element_case,
              '3 factories x 5 namespaces x names x 6 prefix maps x attributes',
              min_outcomes=6)
    run.cases('element classes',
              [(n, ns) for n in list(CLASSES) + OTHERS
               for ns in (SVG, HTML, 'urn:x')], class_case,
              'every known and 7 other local names in 3 namespaces',
              min_outcomes=2)
    run.cases('sub elements', [(n, how, i) for n in range(5)
                               for how in ('ns', 'local')
                               for i in [None] + list(range(-n, n + 2))],
              index_case, 'every index for up to 4 children', min_outcomes=5)
    cases = [(how, ns, name, m) for how in ('parser', 'impl')
             for ns in (None, SVG, HTML, 'urn:a')
             for name in (None, '', 'svg', 'rect', 'html:p', 'foo:a', 'a b',
                          '{urn:a}b')
             for m in range(len(NSMAPS))
             if not name or ns or name[0] == '{'
             or isinstance(model_name(ns, name), str)]
    cases += [(how, None, None, m) for how in ('svg', 'parser svg')
              for m in range(len(NSMAPS))]
    run.cases('documents', cases, document_case,
              '4 factories x namespaces x names x prefix maps', min_outcomes=3)
    run.cases('rules', [('no implementation',)]
              + [('pi', d, w) for d, w in (
                  ('href="a.css"', {'href': 'a.css', 'type': None}),
                  ('href="a b" type=\'text/css\'',
                   {'href': 'a b', 'type': 'text/css'}), ('x', {'x': None}))]
              + [('comment', d) for d in ('', ' a ', '<&>', 'a-b')]
              + [('local attribute', n) for n in ('a', 'viewBox', 'data-x')]
              + [('local element', n) for n in ('rect', 'g', 'zzz', 'video')],
              misc_case, 'constructors', min_outcomes=5)
    run.histories(Reflection(t), 'every pair (triple) of edits through '
                  'properties, token lists and attributes')
