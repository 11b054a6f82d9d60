"""C01: DOM tree mutation histories."""
import re

from svgpy import Element, SVGParser

from mc.engine import Machine, expect, expect_eq

NS = 'http://www.w3.org/2000/svg'
DESCR = ('desc', 'title', 'metadata')
TEXTS = ('text', 'tspan')


class World(dict):
    ops = 0


class M(object):
    """One node of the reference tree."""

    def __init__(self, name, kind, tag, text=None, tail=None):
        self.name, self.kind, self.tag = name, kind, tag
        self.text, self.tail = text or '', tail or ''
        self.kids = []
        self.parent = None
        self.doc = None

    def owner(self):
        n = self
        while n is not None:
            if n.doc is not None:
                return n.doc
            n = n.parent
        return None

    def attach(self, doc):
        if doc is None:
            return
        self.doc = doc
        for k in self.kids:
            k.attach(doc)

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n


# name, kind, tag, text, tail, parent, document
UNIVERSES = {
    'two-documents': [
        ('r', 'el', 'svg', 'T0', '', None, 'D1'),
        ('a', 'el', 'text', 'At', 'a~', 'r', None),
        ('b', 'el', 'tspan', 'Bt', 'b~', 'a', None),
        ('c', 'comment', 'c', 'cc', '', 'r', None),
        ('q', 'el', 'svg', '', '', None, 'D2'),
        ('d', 'el', 'g', '', '', 'q', None),
        ('x', 'el', 'tspan', 'Xt', 'x~', None, None),
        ('y', 'el', 'tspan', '', 'y~', 'x', None),
        ('p', 'pi', 'p', 'pp', '', None, None),
    ],
    'flat': [
        ('r', 'el', 'text', '', '', None, None),
        ('a', 'el', 'tspan', '1', '2', 'r', None),
        ('c', 'comment', 'c', 'cc', '3', 'r', None),
        ('b', 'el', 'desc', '4', '', 'r', None),
        ('p', 'pi', 'p', 'pp', '5', 'r', None),
        ('x', 'el', 'g', '', '', None, None),
        ('q', 'el', 'svg', '', '', None, 'D2'),
    ],
    'blanks': [
        ('r', 'el', 'svg', ' ', '', None, 'D1'),
        ('a', 'el', 'tspan', '\n', '\t ', 'r', None),
        ('b', 'el', 'desc', '', ' ', 'a', None),
        ('c', 'comment', 'c', ' ', '  ', 'r', None),
        ('x', 'el', 'tspan', ' ', '\n', None, None),
        ('p', 'pi', 'p', ' ', '', None, None),
    ],
}


def build(config):
    parser = SVGParser()
    sut = {}
    model = World()
    docs = {}
    for name, kind, tag, text, tail, parent, doc in UNIVERSES[config]:
        m = M(name, kind, tag, text, tail)
        if doc is not None:
            d = parser.create_svg_document()
            docs[doc] = d
            n = d.document_element
            n.text = text or None
        elif kind == 'el':
            n = parser.create_element_ns(NS, tag)
            n.text = text or None
        elif kind == 'comment':
            n = parser.create_comment(text)
        else:
            n = parser.create_processing_instruction(tag, text)
        if kind == 'el':
            n.set('id', name)
        m.doc = doc
        if parent is not None:
            sut[parent].append_child(n)
            m.parent = model[parent]
            m.parent.kids.append(m)
            m.attach(m.parent.owner())
        n.tail = tail or None
        sut[name] = n
        model[name] = m
    sut['@'] = parser.create_attribute('foo')
    return sut, model, docs


class Bad(Exception):
    pass


def m_valid(model, parent, node, child=None):
    if model[parent].kind != 'el':
        raise Bad('HierarchyRequestError')
    if child is not None and model[child].parent is not model[parent]:
        raise Bad('NotFoundError')
    if node == '@':
        raise Bad('HierarchyRequestError')
    n = model[parent]
    while n is not None:
        if n is model[node]:
            raise Bad('HierarchyRequestError')
        n = n.parent


def m_place(parent, node, ref):
    """Moves node before ref (None: at the end)."""
    doc = parent.owner()
    if doc is None and any(k.owner() is not None for k in parent.kids):
        doc = '?'       # a parent without document, children with one
    node.attach(doc)
    if node is ref:
        return
    if node.parent is not None:
        node.parent.kids.remove(node)
    node.parent = parent
    if ref is None:
        parent.kids.append(node)
    else:
        parent.kids.insert(parent.kids.index(ref), node)


def m_remove(node):
    node.parent.kids.remove(node)
    node.parent = None


def m_after(n):
    k = n.parent.kids
    i = k.index(n) + 1
    return k[i] if i < len(k) else None


def is_str(model, x):
    return x not in model and x != '@'


def model_op(model, op):
    k = op[0]
    if k in ('append', 'prepend'):
        parent, args = op[1], op[2]
        for x in args:
            if not is_str(model, x):
                m_valid(model, parent, x)
        P = model[parent]
        if k == 'append':
            for x in args:
                if is_str(model, x):
                    if P.kids:
                        P.kids[-1].tail += x
                    else:
                        P.text += x
                else:
                    m_place(P, model[x], None)
        else:
            text, P.text = P.text, ''
            last = None
            for x in args:
                if is_str(model, x):
                    if last is None:
                        P.text += x
                    else:
                        last.tail += x
                else:
                    n = model[x]
                    ref = (P.kids[0] if P.kids else None) if last is None \
                        else m_after(last)
                    m_place(P, n, ref)
                    last = n
            if last is None:
                P.text += text
            else:
                last.tail += text
        return None
    if k == 'append_child':
        m_valid(model, op[1], op[2])
        m_place(model[op[1]], model[op[2]], None)
        return op[2]
    if k == 'extend':
        for x in op[2]:
            m_valid(model, op[1], x)
        for x in op[2]:
            m_place(model[op[1]], model[x], None)
        return None
    if k == 'insert':
        parent, i, x = op[1:]
        m_valid(model, parent, x)
        P = model[parent]
        try:
            ref = P.kids[i]
        except IndexError:
            ref = None
        m_place(P, model[x], ref)
        return None
    if k == 'insert_before':
        parent, x, child = op[1:]
        m_valid(model, parent, x, child)
        ref = None if child is None else model[child]
        if ref is not None and ref is model[x]:
            ref = m_after(ref)
        m_place(model[parent], model[x], ref)
        return x
    if k in ('addnext', 'addprevious'):
        s, x = model[op[1]], op[2]
        if x == '@':
            raise Bad('HierarchyRequestError')
        n = s.parent
        while n is not None:
            if n is model[x]:
                raise Bad('*')
            n = n.parent
        if s is not model[x]:
            m_place(s.parent, model[x],
                    m_after(s) if k == 'addnext' else s)
        return None
    if k in ('remove', 'remove_child'):
        if k == 'remove' and op[2] is None:
            if model[op[1]].parent is not None:
                m_remove(model[op[1]])
            return None
        if model[op[1]].kind != 'el':
            raise Bad('HierarchyRequestError')
        if op[2] == '@' or model[op[2]].parent is not model[op[1]]:
            raise Bad('NotFoundError')
        m_remove(model[op[2]])
        return op[2] if k == 'remove_child' else None
    if k in ('replace', 'replace_child'):
        parent, old, new = op[1:]
        m_valid(model, parent, new, old)
        o, n = model[old], model[new]
        if o is not n:
            m_place(model[parent], n, o)
            m_remove(o)
        return old if k == 'replace_child' else None
    if k == 'text_content':
        n = model[op[1]]
        if n.kind == 'el':
            for c in list(n.kids):
                m_remove(c)
        n.text = op[2] or ''
        return None
    if k == 'tail':
        model[op[1]].tail = op[2]
        return None
    raise AssertionError(k)


def real_op(sut, op):
    k = op[0]
    g = sut.get

    def arg(x):
        return None if x is None else g(x, x)
    s = sut[op[1]]
    if k in ('append', 'prepend'):
        return getattr(s, k)(*[arg(x) for x in op[2]])
    if k == 'extend':
        return s.extend(iter([arg(x) for x in op[2]]))
    if k == 'insert':
        return s.insert(op[2], arg(op[3]))
    if k == 'replace_child':
        return s.replace_child(arg(op[3]), arg(op[2]))
    if k == 'remove' and op[2] is None:
        return s.remove()
    if k == 'text_content':
        s.text_content = op[2]
        return None
    if k == 'tail':
        s.tail = op[2]
        return None
    return getattr(s, k)(*[arg(x) for x in op[2:]])


def content(n):
    """text_content of the reference."""
    if n.kind != 'el':
        return n.text
    if n.tag in DESCR:
        return n.text
    if n.tag not in TEXTS:
        return None

    def rec(e):
        out = e.text
        for k in e.kids:
            if k.kind == 'el' and k.tag in TEXTS:
                out += rec(k)
            out += k.tail
        return out
    return rec(n)


def m_xml(n):
    if n.kind == 'comment':
        s = '<!--%s-->' % n.text
    elif n.kind == 'pi':
        s = '<?%s %s?>' % (n.tag, n.text) if n.text else '<?%s?>' % n.tag
    else:
        s = '<%s id="%s">%s%s</%s>' % (
            n.tag, n.name, n.text, ''.join(m_xml(k) for k in n.kids), n.tag)
    return s + n.tail


EMPTY = re.compile(r'<(\w+)([^<>]*)/>')
PREFIX = re.compile(r'(?<=[</])ns\d+:| xmlns(:\w+)?="[^"]*"')


def canon(xml):
    """Namespace prefixes are lxml's business."""
    return EMPTY.sub(r'<\1\2></\1>', PREFIX.sub('', xml))


class Tree(Machine):
    name = 'tree-mutations'
    depth = 2

    def __init__(self, name, configs, menu, depth, unmerged=None):
        self.name = name
        self._configs = configs
        self._menu = menu
        self.depth = depth
        self.unmerged = unmerged

    def configs(self):
        return self._configs

    def fresh(self, config):
        sut, model, docs = build(config)
        return (sut, docs), model

    def fresh_model(self, config):
        model = World()
        for name, kind, tag, text, tail, parent, doc in UNIVERSES[config]:
            m = M(name, kind, tag, text, tail)
            m.doc = doc
            if parent is not None:
                m.parent = model[parent]
                m.parent.kids.append(m)
                m.attach(m.parent.owner())
            model[name] = m
        return model

    def menu(self, model):
        return self._menu(model)

    def model_apply(self, model, op):
        model.ops += 1
        try:
            return 'ok', model_op(model, op)
        except Bad as exp:
            return 'exc', exp.args[0]

    def apply(self, s, op):
        sut = s[0]
        try:
            r = real_op(sut, op)
        except Exception as exp:
            return 'exc', type(exp).__name__
        if r is not None:
            for k, v in sut.items():
                if v is r:
                    return 'ok', k
            return 'ok', repr(r)
        return 'ok', None

    def check_result(self, got, want, op):
        if want == ('exc', '*'):
            expect_eq(got[0], 'exc', 'outcome of %r' % (op,))
            return
        if op[0] in ('remove_child', 'replace_child', 'append_child',
                     'insert_before'):
            expect_eq(got, want, 'result of %r' % (op,))
        else:
            expect_eq((got[0], got[1] if got[0] == 'exc' else None),
                      (want[0], want[1] if want[0] == 'exc' else None),
                      'outcome of %r' % (op,))

    def observe(self, s):
        sut, docs = s
        ids = {id(v): k for k, v in sut.items()}
        dids = {id(v): k for k, v in docs.items()}

        def nm(n):
            return None if n is None else ids.get(id(n), '?')
        out = {}
        for k, n in sut.items():
            if k == '@':
                continue
            out[k] = o = {}
            parent = n.parent_node
            o['parent'] = nm(parent)
            o['parent_element'] = nm(n.parent_element)
            o['kids'] = [nm(c) for c in n.child_nodes]
            o['text'] = n.text or ''
            o['tail'] = n.tail or ''
            o['first/last'] = nm(n.first_child), nm(n.last_child)
            o['has_child_nodes'] = n.has_child_nodes()
            if parent is not None:
                o['siblings'] = (
                    nm(n.previous_sibling), nm(n.next_sibling),
                    nm(n.previous_element_sibling),
                    nm(n.next_element_sibling))
            d = n.owner_document
            o['document'] = None if d is None else dids.get(id(d), '?')
            if isinstance(n, Element):
                o['children'] = [nm(c) for c in n.children]
                o['count'] = n.child_element_count
                o['fe/le'] = (nm(n.first_element_child),
                              nm(n.last_element_child))
                o['len'] = len(n)
                o['contains'] = sorted(
                    j for j, v in sut.items() if j != '@' and v in n)
            o['root'] = nm(n.get_root_node())
            o['content'] = n.text_content
            if not isinstance(n, Element) or n.local_name in DESCR:
                o['content'] = o['content'] or ''
            o['xml'] = canon(n.tostring().decode())
            o['type'] = n.node_type
        return out

    def model_observe(self, model):
        out = {}

        def nm(n):
            return None if n is None else n.name
        for k, n in model.items():
            out[k] = o = {}
            o['parent'] = o['parent_element'] = nm(n.parent)
            o['kids'] = [c.name for c in n.kids]
            o['text'], o['tail'] = n.text, n.tail
            o['first/last'] = (o['kids'][0], o['kids'][-1]) if n.kids \
                else (None, None)
            o['has_child_nodes'] = bool(n.kids)
            if n.parent is not None:
                sib = n.parent.kids
                i = sib.index(n)
                pe = [x for x in sib[:i] if x.kind == 'el']
                ne = [x for x in sib[i + 1:] if x.kind == 'el']
                o['siblings'] = (
                    sib[i - 1].name if i else None,
                    sib[i + 1].name if i + 1 < len(sib) else None,
                    pe[-1].name if pe else None, ne[0].name if ne else None)
            o['document'] = n.owner()
            if n.kind == 'el':
                ch = [c.name for c in n.kids if c.kind == 'el']
                o['children'] = ch
                o['count'] = len(ch)
                o['fe/le'] = (ch[0], ch[-1]) if ch else (None, None)
                o['len'] = len(n.kids)
                o['contains'] = sorted(o['kids'])
            o['root'] = n.root().name
            o['content'] = content(n)
            o['xml'] = m_xml(n)
            o['type'] = {'el': 1, 'pi': 7, 'comment': 8}[n.kind]
        return out

    def same(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict) and a != b:
            for k in b:
                if b[k].get('document') == '?':
                    b[k]['document'] = a[k]['document']
            for k in a:
                for f in a[k]:
                    expect(k in b and a[k][f] == b[k].get(f),
                           '%s of %s' % (f, k), b.get(k, {}).get(f),
                           a[k][f])
        return a == b

    def key(self, model, obs):
        # unmerged documents: the recorded document of every node
        return repr((obs, sorted((k, n.doc) for k, n in model.items())))


def full_menu(model):
    names = list(model)
    parents = [k for k in names if model[k].kind == 'el']
    nodes = [k for k in names if k not in ('r', 'q')]
    out = []
    for p in parents:
        for n in nodes + ['r', '@']:
            out += [('append', p, (n,)), ('prepend', p, (n,)),
                    ('append_child', p, n), ('insert', p, 0, n),
                    ('insert', p, 1, n), ('insert', p, -1, n),
                    ('insert_before', p, n, None)]
            if n != '@':
                out += [('remove', p, n), ('remove_child', p, n)]
            for ref in nodes:
                if model[ref].parent is model[p] or ref in 'bx':
                    out += [('insert_before', p, n, ref),
                            ('replace', p, ref, n),
                            ('replace_child', p, ref, n)]
        out += [('append', p, ('S',)), ('prepend', p, ('S',)),
                ('append', p, ('S', 'x', 'U')), ('prepend', p, ('S', 'x', 'U')),
                ('append', p, ('x', 'c')), ('prepend', p, ('x', 'c')),
                ('prepend', p, ('S', '@')), ('append', p, ('S', '@')),
                ('prepend', p, ('b', 'S', 'a')), ('append', p, ('b', 'S', 'a')),
                ('prepend', p, ('c', 'x', 'S', 'U')), ('append', p, ()),
                ('extend', p, ('x', 'p')), ('extend', p, ('c', 'b')),
                ('extend', p, ('@',)),
                ('remove', p, None),
                ('text_content', p, 'N'), ('text_content', p, None)]
    for n in nodes:
        if model[n].parent is not None:
            for m in nodes + ['r', '@']:
                out += [('addnext', n, m), ('addprevious', n, m)]
            out.append(('tail', n, 'W'))
    for n in names:
        if model[n].kind != 'el':
            out += [('append_child', n, 'x'), ('insert_before', n, 'x', None),
                    ('remove_child', n, 'x'), ('replace_child', n, 'x', 'b'),
                    ('insert', n, 0, 'x'), ('append', n, ('x',)),
                    ('text_content', n, 'N')]
    return out


def small_menu(model):
    """One operation of each kind with every node in turn."""
    out = []
    par = [k for k in ('r', 'a', 'x', 'q') if k in model]
    for p in par:
        for n in ('a', 'b', 'c', 'x'):
            out += [('append', p, (n, 'S')), ('prepend', p, ('S', n))]
            if model[n].parent is model[p]:
                out += [('remove_child', p, n),
                        ('insert_before', p, 'x', n),
                        ('replace_child', p, n, 'p')]
        out += [('insert', p, 1, 'b'), ('prepend', p, ('x', 'c')),
                ('text_content', p, 'N')]
    for n in ('b', 'c'):
        if model[n].parent is not None:
            out += [('addnext', n, 'x'), ('addprevious', n, 'a')]
    return out


def mixed_menu(model):
    return small_menu(model) if model.ops == 0 else full_menu(model)


def check(run):
    run.histories(Tree('every-operation', list(UNIVERSES), full_menu, 1),
                  'every operation with every operand')
    run.histories(Tree('operation-pairs', list(UNIVERSES),
                       full_menu if run.thorough else mixed_menu, 2),
                  'every second operation after %s first operation'
                  % ('every' if run.thorough else 'a reduced menu of'))
    run.histories(Tree('operation-triples', list(UNIVERSES),
                       small_menu, 4 if run.thorough else 3,
                       2 if run.thorough else 1),
                  'reduced menu')
