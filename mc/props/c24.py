"""C24: finding elements by id, class, name and selector.

Reference: naive walks over a plain description of the tree.
"""
import itertools

from svgpy import SVGParser
from svgpy.window import SVGDOMImplementation, Window

from mc.engine import Machine, expect, expect_eq
from mc.props import c08

SVG = 'http://www.w3.org/2000/svg'
XHTML = 'http://www.w3.org/1999/xhtml'
OTHER = 'urn:x'
NSMAP = {None: SVG, 'svg': SVG, 'html': XHTML, 'o': OTHER}
PREFIX = {SVG: '', XHTML: 'html:', OTHER: 'o:', None: ''}


class N:
    """An element: namespace, name, attributes, children."""

    def __init__(self, ns, local, attrs=(), children=()):
        self.ns, self.local, self.attrs = ns, local, dict(attrs)
        self.prefix = PREFIX[ns]
        self.children = list(children)
        self.parent = None
        self.real = None

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


def build(node, parser, parent=None):
    """The same tree, through the parser and the DOM."""
    if node.ns is None:
        node.real = parser.create_element(node.local)
    else:
        node.real = parser.create_element_ns(
            node.ns, '{%s}%s' % (node.ns, node.local), nsmap=NSMAP)
    for k, v in node.attrs.items():
        node.real.set_attribute(k, v)
    if parent is not None:
        parent.real.append(parser.create_comment('x'))
        parent.real.append(node.real)
    for c in node.children:
        c.parent = node
        build(c, parser, node)
    return node.real


def classes(value):
    out, word = [], ''
    for ch in (value or '') + ' ':
        if ch in ' \t\n\f\r':
            if word:
                out.append(word)
            word = ''
        else:
            word += ch
    return out


def qname(n):
    return n.prefix + n.local


def by_id(n, x):
    return n.attrs.get('id') == x


def by_class(n, x):
    want = classes(x)
    have = classes(n.attrs.get('class'))
    return bool(want) and all(w in have for w in want)


def by_tag(n, x):
    return x == '*' or qname(n) == x


def by_tag_ns(n, x):
    ns, local = x
    return ((ns in (None, '*') or n.ns == ns)
            and (local == '*' or n.local == local))


def same(got, want, what):
    expect(isinstance(got, list), what + ' is a list')
    expect(len(got) == len(want)
           and all(a is b.real for a, b in zip(got, want)), what,
           [describe(b.real) for b in want], [describe(g) for g in got])


def describe(e):
    return '<%s %s>' % (e.tag, dict(e.attrib))


def query(doc, root, contexts, tables, ctx):
    nodes = list(root.walk())
    found = 0
    for c in contexts:
        if c is None:
            real, scope, self_ = doc, nodes, True
        else:
            real, scope = c.real, list(c.walk())
            # svg elements find themselves, others their descendants only
            self_ = (c.ns, c.local) == (SVG, 'svg')
        for x in tables['id']:
            if not self_:
                continue
            want = [n for n in scope if by_id(n, x)][:1]
            got = real.get_element_by_id(x)
            expect(got is (want[0].real if want else None),
                   'get_element_by_id(%r)' % x,
                   describe(want[0].real) if want else None, got)
            found += len(want)
        below = scope if self_ else scope[1:]
        for x in tables['class']:
            want = [n for n in below if by_class(n, x)]
            same(real.get_elements_by_class_name(x), want,
                 'get_elements_by_class_name(%r)' % x)
            found += len(want)
        for x in tables['tag']:
            want = [n for n in below if by_tag(n, x)]
            same(real.get_elements_by_tag_name(x), want,
                 'get_elements_by_tag_name(%r)' % x)
        for x in tables['tagns']:
            want = [n for n in below if by_tag_ns(n, x)]
            same(real.get_elements_by_tag_name_ns(*x), want,
                 'get_elements_by_tag_name_ns%r' % (x,))
        if c is not None:
            for x in tables['local']:
                want = [n for n in scope[1:] if n.local == x]
                same(real.get_elements_by_local_name(x), want,
                     'get_elements_by_local_name(%r)' % x)
        ctx.step()
    ctx.outcome('%d found' % found)


def shapes(n):
    """Ordered trees of n nodes, as nested tuples of children."""
    if n == 1:
        yield ()
        return
    for first in range(1, n):
        for a in shapes(first):
            if first == n - 1:
                yield (a,)
            else:
                for rest in shapes(n - first):
                    yield (a,) + rest


LABELS = [
    (SVG, 'svg', (('id', 'a'), ('class', 'a'))),
    (SVG, 'rect', (('id', 'b'), ('class', 'b a'))),
    (XHTML, 'video', (('class', 'a b'), ('id', 'a'))),
    (OTHER, 'rect', (('class', 'ab'),)),
    (None, 'g', (('id', 'b'),)),
    (SVG, 'g', ()),
]
TABLES = {
    'id': ['a', 'b', 'A', 'c', ' a', '*'],
    'class': ['a', 'b', 'a b', 'b a', 'ab', 'A', '', ' '],
    'tag': ['*', 'g', 'svg', 'rect', 'html:video', 'o:rect', 'video', 'svg:g', 'G'],
    'tagns': [(ns, local) for ns in (None, '*', SVG, XHTML, OTHER, 'urn:y')
              for local in ('*', 'g', 'svg', 'rect')] + [(XHTML, 'html:video')],
    'local': ['g', 'svg', 'rect', 'video', 'G', 'o:rect'],
}


def plant(shape, labels):
    ns, local, attrs = labels.pop(0)
    node = N(ns, local, attrs)
    node.children = [plant(s, labels) for s in shape]
    return node


def new_document():
    doc = Window(SVGDOMImplementation()).document
    doc.remove(doc.document_element)
    return doc


def case_tree(case, ctx):
    shape, labels = case
    root = plant(shape, [LABELS[i] for i in labels])
    doc = new_document()
    doc.append(build(root, doc.implementation.parser))
    query(doc, root, [None] + list(root.walk()), TABLES, ctx)


CLASS_VALUES = ['', ' ', 'a', 'A', 'ab', 'a b', 'b a', ' a', 'a ', '  b   a ',
                'a\tb', 'a\nb', 'b\r\na', 'a-b', 'a.b', 'axb', 'a+', 'aa', 'a*',
                '(', ')', '[', '$', '^', '\\', '|', 'a|b', '"', "'", '"a\'b',
                '\u00e9', 'a\u00a0b', '\U0001f600', 'a/b', '#a', '.a', 'a,b',
                '{0}', '%s', '\\d', '1']


def case_class(case, ctx):
    value = case
    root = N(SVG, 'svg', {}, [N(SVG, 'g', {'class': value}),
                              N(SVG, 'rect', {}),
                              N(SVG, 'g', {'class': 'x ' + value + '\ty'})])
    doc = new_document()
    doc.append(build(root, doc.implementation.parser))
    tables = {k: [] for k in TABLES}
    tables['class'] = CLASS_VALUES + [v + ' x' for v in CLASS_VALUES] \
        + ['x\f' + v for v in CLASS_VALUES]
    query(doc, root, [None, root] + root.children[:1], tables, ctx)
    # attribute values with quotes are found by id as well
    if value:
        for n in root.children:
            n.attrs['id'] = value + n.local
            n.real.id = n.attrs['id']
        tables = {k: [] for k in TABLES}
        tables['id'] = [value + 'g', value + 'rect', value]
        query(doc, root, [None, root], tables, ctx)
    # the arguments are only read
    nsmap = {'svg': SVG}
    for fn, args in (('get_elements_by_class_name', (value,)),
                     ('get_elements_by_tag_name', ('g',)),
                     ('get_elements_by_tag_name_ns', (SVG, 'g')),
                     ('get_element_by_id', ('a',))):
        a = getattr(root.real, fn)(*args, nsmap=nsmap)
        expect_eq(nsmap, {'svg': SVG}, 'nsmap given to ' + fn)
        b = getattr(root.real, fn)(*args)
        expect(a == b, fn + ' with an nsmap')


def case_selector(case, ctx):
    """query_selector(_all) of every element of a tree and of the document."""
    tree, ns, sels = case
    plain = c08.TREES[tree]()
    root, elements = c08.load(plain, ns)
    doc = new_document()
    doc.append(root)
    nodes = list(plain.elements())
    real = dict(zip(map(id, nodes), elements))
    for sel in sels:
        group = sel if isinstance(sel, list) else [sel]
        text = ', '.join(c08.sel_text(s) for s in group)
        if 'svg|' in text and ns == 'prefix':
            text = text.replace('svg|', 's|')
        if 'svg|' in text and ns == 'none':
            continue
        match = [n for n in nodes
                 if any(c08.sel_match(s, n, ns) for s in group)]
        ctx.outcome('match' if match else 'none')
        for scope in [None] + nodes:
            if scope is None:
                who, want = doc, match
            else:
                who = real[id(scope)]
                want = [n for n in scope.elements() if n in match]
            ctx.step()
            got = who.query_selector_all(text)
            expect(len(got) == len(want) and all(
                g is real[id(w)] for g, w in zip(got, want)),
                '%r on %s' % (text, scope.local if scope else 'document'),
                [(w.local, w.attrs) for w in want],
                [describe(g) for g in got])
            first = who.query_selector(text)
            expect(first is (real[id(want[0])] if want else None),
                   'query_selector(%r)' % text)


def case_prefix(case, ctx):
    """Namespace prefixes in selectors are those in scope at the element."""
    default, decl = case
    src = '<root%s%s><a xmlns="%s"/><a xmlns="urn:x"/><a xmlns=""/></root>' % (
        ' xmlns="%s"' % default if default else '',
        ''.join(' xmlns:%s="%s"' % d for d in decl), SVG)
    root = SVGParser().fromstring(src)
    prefixes = dict(decl)
    if default:
        prefixes.setdefault('svg', default)
    for p, uri in prefixes.items():
        for text, want in (('%s|a' % p, [e for e in root if e.tag ==
                                         '{%s}a' % uri]),
                           ('%s|*' % p, [e for e in root.iter() if
                                         e.tag.startswith('{%s}' % uri)])):
            expect_eq(root.query_selector_all(text), want, text)
            ctx.outcome(len(want))
    expect_eq(root.query_selector_all('a'), list(root), 'a')


class Edits(Machine):
    """Every query reflects the current tree and attributes."""
    name = 'queries after edits'

    def configs(self):
        return [0, 1]

    def fresh(self, config):
        def tree():
            return N(SVG, 'svg', {'id': 'r'}, [
                N(SVG, 'g', {'id': 'a', 'class': 'a'},
                  [N(SVG, 'rect', {'id': 'b', 'class': 'a b'})]),
                N(SVG, 'rect', {'id': 'a' if config else 'c'})])
        doc = new_document()
        t = tree()
        doc.append(build(t, doc.implementation.parser))
        m = tree()
        for n in m.walk():
            for c in n.children:
                c.parent = n
        names = ['r', 'g', 'b', 'c']
        return ([doc, dict(zip(names, t.walk())), t],
                [dict(zip(names, m.walk())), m])

    def menu(self, model):
        named, root = model
        ops = [('id', n, v) for n in ('g', 'b', 'c') for v in ('a', 'b')]
        ops += [('class', n, v) for n in ('g', 'c') for v in ('a', ' b\ta ')]
        ops += [('noid', n) for n in ('g', 'b')]
        ops += [('noclass', 'g')]
        ops += [('move', 'b', 'r'), ('move', 'b', 'c'), ('move', 'c', 'g'),
                ('first', 'c'), ('remove', 'g'), ('remove', 'b'),
                ('remove', 'c')]
        if root is not None:
            ops.append(('unroot',))
        return [o for o in ops if self.valid(named, o)]

    def valid(self, named, op):
        if op[0] == 'move':
            n = named[op[2]]
            while n is not None:
                if n is named[op[1]]:
                    return False
                n = n.parent
        return True

    def do(self, named, op, real):
        n = named[op[1]]
        if op[0] in ('id', 'class'):
            n.attrs[op[0]] = op[2]
            if real:
                if op[0] == 'id':
                    n.real.id = op[2]
                else:
                    n.real.class_name = op[2]
        elif op[0] in ('noid', 'noclass'):
            n.attrs.pop(op[0][2:], None)
            if real:
                n.real.remove_attribute(op[0][2:])
        else:
            old, old_real = n.parent, n.real
            if n.parent is not None:
                n.parent.children.remove(n)
                if real and op[0] == 'remove':
                    old.real.remove(old_real)
            n.parent = None
            if op[0] == 'remove':
                return
            target = named['r' if op[0] == 'first' else op[2]]
            n.parent = target
            if op[0] == 'move':
                target.children.append(n)
                if real:
                    target.real.append(n.real)
            else:
                target.children.insert(0, n)
                if real:
                    target.real.prepend(n.real)

    def apply(self, sut, op):
        doc, named, root = sut
        if op[0] == 'unroot':
            doc.remove(doc.document_element)
            sut[2] = None
            return ('ok', None)
        self.do(named, op, True)
        return ('ok', None)

    def model_apply(self, model, op):
        named, root = model
        if op[0] == 'unroot':
            model[1] = None
            return ('ok', None)
        self.do(named, op, False)
        return ('ok', None)

    QUERIES = [('get_elements_by_class_name', 'a', by_class),
               ('get_elements_by_class_name', 'b a', by_class),
               ('get_elements_by_tag_name', 'rect', by_tag),
               ('get_elements_by_tag_name_ns', (SVG, 'g'), by_tag_ns)]

    def observe(self, sut):
        doc, named, root = sut
        back = {id(n.real): k for k, n in named.items()}

        def names(es):
            return [back[id(e)] for e in es]
        out = {}
        for who, e in [('doc', doc)] + [(k, n.real) for k, n in named.items()]:
            for x in ('a', 'b', 'c') if who in ('doc', 'r') else ():
                r = e.get_element_by_id(x)
                out[who, x] = None if r is None else back[id(r)]
            for fn, x, _ in self.QUERIES:
                if fn == 'get_elements_by_tag_name' \
                        and not self.attached(named, who):
                    continue  # lxml renames the prefixes of removed nodes
                out[who, fn, x] = names(getattr(e, fn)(
                    *(x if isinstance(x, tuple) else (x,))))
            for s in ('rect', 'g .a', '#a'):
                out[who, s] = names(e.query_selector_all(s))
        return out

    def model_observe(self, model):
        named, root = model
        back = {id(n): k for k, n in named.items()}
        out = {}
        for who, n in [('doc', root)] + list(named.items()):
            scope = [] if n is None else list(n.walk())
            for x in ('a', 'b', 'c') if who in ('doc', 'r') else ():
                r = [m for m in scope if by_id(m, x)]
                out[who, x] = back[id(r[0])] if r else None
            for fn, x, p in self.QUERIES:
                if fn == 'get_elements_by_tag_name' \
                        and not self.attached(named, who):
                    continue
                below = scope if who in ('doc', 'r') else scope[1:]
                out[who, fn, x] = [back[id(m)] for m in below if p(m, x)]
            for s in ('rect', 'g .a', '#a'):
                out[who, s] = [back[id(m)] for m in scope if {
                    'rect': m.local == 'rect', '#a': by_id(m, 'a'),
                    'g .a': by_class(m, 'a') and self.below_g(m)}[s]]
        return out

    @staticmethod
    def attached(named, who):
        n = named[who if who != 'doc' else 'r']
        while n.parent is not None:
            n = n.parent
        return n is named['r']

    @staticmethod
    def below_g(m):
        m = m.parent
        while m is not None:
            if m.local == 'g':
                return True
            m = m.parent
        return False

    def key(self, model, obs):
        named, root = model
        return repr((root is None, sorted(
            (k, sorted(n.attrs.items()),
             [c.attrs.get('id', '') + c.local for c in n.children],
             n.parent is None) for k, n in named.items())))


def check(run):
    n = 5 if run.thorough else 4
    k = len(LABELS)
    cases = []
    for size in range(1, n + 1):
        for s in shapes(size):
            for labels in itertools.product(range(k), repeat=size - 1):
                if size == 5 and max(labels) > 3:
                    continue
                for first in ((0, 1) if size < 5 else (0,)):
                    cases.append((s, (first,) + labels))
    run.cases('trees', cases, case_tree,
              bound='all ordered trees of up to %d elements with %d kinds of '
              'elements, searched from the document and every element'
              % (n, k), min_outcomes=2)
    run.cases('class names', CLASS_VALUES, case_class,
              bound='all pairs of %d class values' % len(CLASS_VALUES),
              min_outcomes=1)
    sels = c08.selector_list(run.thorough)
    step = 24
    cases = []
    for tree in sorted(c08.TREES):
        for ns in ('default', 'prefix', 'none'):
            cases += [(tree, ns, tuple(sels[i:i + step]))
                      for i in range(0, len(sels), step)]
            cases.append((tree, ns, tuple(c08.ns_selectors())))
            groups = [[a, b] for a in sels[:40:3] for b in sels[1:60:4]]
            cases.append((tree, ns, tuple(groups)))
    run.cases('selectors', cases, case_selector,
              bound='%d selectors on 2 trees x 3 namespace styles, from the '
              'document and every element' % len(sels), min_outcomes=2)
    decls = [('svg', SVG), ('svg', 'urn:x'), ('x', 'urn:x'), ('p', SVG)]
    cases = [(d, c) for d in (None, SVG, 'urn:x')
             for r in range(3) for c in itertools.combinations(decls, r)
             if len({a for a, _ in c}) == len(c)]
    run.cases('prefixes', cases, case_prefix,
              bound='%d combinations of declarations' % len(cases))
    m = Edits()
    m.depth = 4 if run.thorough else 3
    run.histories(m, bound='all histories of edits to depth %d' % m.depth)
