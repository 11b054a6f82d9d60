"""C23: the children of documents.

Reference: lists of top-level nodes ("lines"). Every node without a parent is
in one line; a line holds at most one element, and the nodes around it travel
with that element when it becomes, or ceases to be, the root of a document.
"""
from lxml import etree

from svgpy import SVGLength, SVGParser
from svgpy.exception import HierarchyRequestError, NotFoundError

from mc.engine import Machine, expect, expect_close, expect_eq

SVG = 'http://www.w3.org/2000/svg'
NSMAP = {'s': SVG}

KINDS = {'P': 'pi', 'Q': 'pi', 'C': 'comment', 'L': 'comment', 'I': 'comment',
         'D': 'comment', 'R': 'element', 'G': 'element', 'S': 'element',
         'E': 'element', 'K': 'element', 'X': 'attr', 'A': 'doc', 'B': 'doc',
         'text': 'str'}
NODES = ['P', 'Q', 'C', 'L', 'I', 'D', 'R', 'G', 'S', 'E', 'K']


class Model:
    def __init__(self):
        self.parent = dict.fromkeys(NODES)
        self.children = {n: [] for n in NODES if KINDS[n] == 'element'}
        self.lines = []
        self.root = {'A': None, 'B': None}
        self.owner = dict.fromkeys(NODES)

    # -- structure
    def line(self, n):
        for line in self.lines:
            if n in line:
                return line

    def adopt(self, n, parent):
        self.parent[n] = parent
        self.children[parent].append(n)

    def attach(self, n, doc):
        if doc is None:
            return
        self.owner[n] = doc
        for c in self.children.get(n, ()):
            self.attach(c, doc)

    def get_owner(self, n):
        while n is not None:
            if self.owner[n] is not None:
                return self.owner[n]
            n = self.parent[n]

    def unlink(self, n):
        """Takes a node from its place."""
        if self.parent[n] is not None:
            self.children[self.parent[n]].remove(n)
            self.parent[n] = None
        else:
            line = self.line(n)
            line.remove(n)
            if not line:
                self.lines.remove(line)
        self.no_root(n)

    def no_root(self, n):
        for d in self.root:
            if self.root[d] == n:
                self.root[d] = None

    def set_root(self, doc, n):
        if self.parent[n] is not None:
            self.unlink(n)
            self.lines.append([n])
        self.no_root(n)
        self.root[doc] = n
        for m in self.line(n):
            self.attach(m, doc)

    def place(self, doc, n, index):
        """Puts a comment or PI at the index, counted without it."""
        line = self.line(self.root[doc])
        self.unlink(n)
        line.insert(index, n)
        self.attach(n, doc)

    def doc_children(self, doc):
        r = self.root[doc]
        return [] if r is None else list(self.line(r))

    def ancestors(self, n):
        while n is not None:
            yield n
            n = self.parent[n]

    # -- operations
    def refuse(self, doc, nodes):
        """The error for inserting these nodes, or None."""
        root = self.root[doc]
        for n in nodes:
            if KINDS[n] not in ('element', 'comment', 'pi'):
                return 'HierarchyRequestError'
            if root is None:
                if KINDS[n] != 'element':
                    return 'HierarchyRequestError'
                root = n
            elif KINDS[n] == 'element' and n != root:
                return 'refused'
        return None

    def append(self, doc, nodes):
        err = self.refuse(doc, nodes)
        if err:
            return err
        for n in nodes:
            if self.root[doc] is None:
                self.set_root(doc, n)
            elif n != self.root[doc]:
                rest = [m for m in self.doc_children(doc) if m != n]
                self.place(doc, n, len(rest))

    def prepend(self, doc, nodes):
        err = self.refuse(doc, nodes)
        if err:
            return err
        previous = None
        for n in nodes:
            if self.root[doc] is None:
                self.set_root(doc, n)
                previous = n
            elif n != self.root[doc] and n != previous:
                rest = [m for m in self.doc_children(doc) if m != n]
                self.place(doc, n, 0 if previous is None
                           else rest.index(previous) + 1)
                previous = n

    def before(self, doc, n, child):
        """n before child (None: at the end)."""
        if n == child:
            return
        rest = [m for m in self.doc_children(doc) if m != n]
        self.place(doc, n, len(rest) if child is None else rest.index(child))

    def insert(self, doc, index, n):
        err = self.refuse(doc, [n])
        if err:
            return err
        children = self.doc_children(doc)
        if self.root[doc] is None:
            self.set_root(doc, n)
        elif n != self.root[doc]:
            if index < 0:
                index = max(0, index + len(children))
            self.before(doc, n, children[index] if index < len(children)
                        else None)

    def insert_before(self, doc, n, child):
        if child is not None and child not in self.doc_children(doc):
            return 'NotFoundError'
        if child is None:
            return self.append(doc, [n])
        err = self.refuse(doc, [n])
        if err:
            return err
        if n != self.root[doc]:
            self.before(doc, n, child)

    def remove(self, doc, n):
        if n not in self.doc_children(doc):
            return 'NotFoundError'
        if self.root[doc] == n:
            self.root[doc] = None
        else:
            self.unlink(n)
            self.lines.append([n])

    def replace(self, doc, old, new):
        if KINDS[new] not in ('element', 'comment', 'pi'):
            return 'refused'
        if old not in self.doc_children(doc):
            return 'NotFoundError'
        if old == new:
            return None
        if old == self.root[doc]:
            self.root[doc] = None
            self.set_root(doc, new)
            return None
        err = self.refuse(doc, [new])
        if err:
            return err
        if new != self.root[doc]:
            self.before(doc, new, old)
            self.remove(doc, old)

    def into(self, parent, n):
        if n in self.ancestors(parent):
            return 'HierarchyRequestError'
        owner = self.get_owner(parent)
        self.unlink(n)
        self.adopt(n, parent)
        self.attach(n, owner)

    def out(self, n):
        self.unlink(n)
        self.lines.append([n])


DOC = '<?q a?><!--D--><svg xmlns="%s" id="S"/>' % SVG
DOC_A = ('<?p a?><svg xmlns="%s" id="R"><g id="G"/><!--I--></svg><!--C-->'
         % SVG)


class Documents(Machine):
    name = 'document children'
    ops = None

    def configs(self):
        return ['built', 'parsed', 'empty']

    def fresh(self, config):
        parser = SVGParser()
        m = Model()
        real = {'A': parser.create_document(SVG),
                'B': parser.create_document(SVG),
                'X': parser.create_attribute('x'), 'text': 'text'}
        if config == 'built':
            for n, local in (('R', 'svg'), ('G', 'g'), ('S', 'svg')):
                real[n] = parser.create_element_ns(SVG, local)
            for n in 'ICD':
                real[n] = parser.create_comment(n)
            real['P'] = parser.create_processing_instruction('p', 'a')
            real['Q'] = parser.create_processing_instruction('q', 'a')
            real['R'].append(real['G'], real['I'])
            real['A'].append(real['R'], real['C'])
            real['A'].prepend(real['P'])
            real['B'].append(real['S'])
            real['B'].prepend(real['Q'], real['D'])
        else:
            real['R'] = r = parser.fromstring(DOC_A)
            real['G'], real['I'] = r[0], r[1]
            real['P'], real['C'] = r.getprevious(), r.getnext()
            real['S'] = s = parser.fromstring(DOC)
            real['D'] = s.getprevious()
            real['Q'] = real['D'].getprevious()
            if config == 'parsed':
                real['A'].append(r)
                real['B'].append_child(s)
        real['L'] = parser.create_comment('L')
        real['E'] = parser.create_element_ns(SVG, 'svg')
        real['K'] = parser.create_element_ns(SVG, 'rect')
        real['E'].append(real['K'])
        m.lines = [['P', 'R', 'C'], ['Q', 'D', 'S'], ['L'], ['E']]
        m.adopt('G', 'R')
        m.adopt('I', 'R')
        m.adopt('K', 'E')
        if config != 'empty':
            m.set_root('A', 'R')
            m.set_root('B', 'S')
        for n in ('R', 'G', 'S', 'E', 'K'):
            real[n].set('id', n)
        return (real, {id(v): k for k, v in real.items()}), m

    def menu(self, m):
        ops = []
        each = ['P', 'C', 'L', 'I', 'D', 'R', 'G', 'S', 'E', 'X', 'A', 'B',
                'text']
        for d in ('A', 'B'):
            root = m.root[d]
            for n in each if d == 'A' else ('P', 'L', 'R', 'E'):
                ops += [('append', d, (n,)), ('prepend', d, (n,))]
            if d == 'A':
                for pair in (('L', 'Q'), ('P', 'L'), ('L', 'P'), ('C', 'P'),
                             ('C', 'L'), ('E', 'L'), ('L', 'E'), ('R', 'L'),
                             ('L', 'text'), ('E', 'text'), ('L', 'P', 'C'),
                             ('L', 'L')):
                    if root is not None and root in pair[:-1]:
                        continue
                    ops += [('append', d, pair), ('prepend', d, pair)]
                for pair in (('L', 'Q'), ('C', 'P'), ('L', 'X'), ('E', 'L')):
                    if root is not None and root in pair[:-1]:
                        continue
                    ops += [('extend', d, pair), ('generate', d, pair)]
                for i in (-9, -2, -1, 0, 1, 2, 3, 9):
                    ops += [('insert', d, i, n)
                            for n in ('P', 'C', 'L', 'I', 'E', 'G')]
                ops += [('insert', d, 0, n) for n in ('R', 'X', 'B')]
            children = m.doc_children(d)
            for n in ('P', 'C', 'L', 'I', 'E', 'R', 'G', 'X', 'B') \
                    if d == 'A' else ('L', 'D'):
                for c in [None, 'P', 'C', 'L', 'D', 'R', 'I']:
                    if n == root and c is not None:
                        continue    # moving the root: not defined
                    if c is not None and c not in children \
                            and n in ('X', 'B', 'R', 'E', 'G'):
                        continue
                    ops.append(('insert_before', d, n, c))
            for old in ('P', 'C', 'R', 'S', 'E', 'L', 'I'):
                if d == 'B' and old not in ('S', 'P', 'R'):
                    continue
                for new in ('P', 'C', 'L', 'E', 'R', 'G', 'S', 'I', 'X'):
                    if old not in children and new not in ('L', 'P'):
                        continue
                    if new == root and old != root:
                        continue    # moving the root: not defined
                    if old == root and KINDS[new] != 'element':
                        continue    # refused after the removal
                    ops.append(('replace', d, old, new))
            ops += [('remove', d, n) for n in ('P', 'C', 'D', 'R', 'S', 'E',
                                               'L', 'I', 'G')]
        ops += [('child', 'append_child', n) for n in ('L', 'E', 'C')]
        ops += [('child', 'remove_child', n) for n in m.doc_children('A')]
        ops += [('child', 'replace_child', o, 'L')
                for o in ('P', 'C')]
        for parent, n in (('E', 'R'), ('R', 'S'), ('R', 'P'), ('E', 'C'),
                          ('R', 'E'), ('G', 'E'), ('E', 'L'), ('S', 'R')):
            ops.append(('into', parent, n))
        ops += [('out', n) for n in ('G', 'I', 'R', 'E', 'S')
                if m.parent[n] is not None]
        return ops

    @staticmethod
    def outcome(op, err, value=None):
        if err is None:
            return ('ok', value)
        return ('exc', err)

    def model_apply(self, m, op):
        kind = op[0]
        if kind in ('into', 'out'):
            err = getattr(m, kind)(*op[1:])
            return self.outcome(op, err)
        if kind == 'child':
            fn, args = op[1], op[2:]
            if fn == 'append_child':
                err, v = m.append('A', args), args[0]
            elif fn == 'remove_child':
                err, v = m.remove('A', args[0]), args[0]
            else:
                err, v = m.replace('A', args[0], args[1]), args[0]
            return self.outcome(op, err, v)
        if kind in ('extend', 'generate'):
            return self.outcome(op, m.append(op[1], op[2]))
        err = getattr(m, kind)(*op[1:])
        return self.outcome(op, err,
                            op[2] if kind == 'insert_before' else None)

    def apply(self, sut, op):
        real, back = sut
        kind = op[0]
        try:
            if kind == 'into':
                v = real[op[1]].append(real[op[2]])
            elif kind == 'out':
                n = real[op[1]]
                v = n.getparent().remove(n)
            elif kind == 'child':
                args = [real[n] for n in op[2:]]
                if op[1] == 'replace_child':
                    args.reverse()
                v = getattr(real['A'], op[1])(*args)
            else:
                doc = real[op[1]]
                if kind in ('append', 'prepend'):
                    v = getattr(doc, kind)(*[real[n] for n in op[2]])
                elif kind == 'extend':
                    v = doc.extend([real[n] for n in op[2]])
                elif kind == 'generate':
                    v = doc.extend(real[n] for n in op[2])
                elif kind == 'insert':
                    v = doc.insert(op[2], real[op[3]])
                elif kind == 'insert_before':
                    v = doc.insert_before(
                        real[op[2]], None if op[3] is None else real[op[3]])
                elif kind == 'remove':
                    v = doc.remove(real[op[2]])
                elif kind == 'replace':
                    v = doc.replace(real[op[2]], real[op[3]])
        except (HierarchyRequestError, NotFoundError) as e:
            return ('exc', type(e).__name__)
        except (TypeError, ValueError) as e:
            return ('exc', type(e).__name__)
        return ('ok', None if v is None else back[id(v)])

    def check_result(self, got, want, op):
        if want == ('exc', 'refused') and got[0] == 'exc':
            return
        super().check_result(got, want, op)

    def observe(self, sut):
        real, back = sut

        def name(n):
            return None if n is None else back[id(n)]

        def names(ns):
            return [name(n) for n in ns]
        out = {}
        for d in ('A', 'B'):
            doc = real[d]
            out[d] = names(doc.child_nodes)
            out[d, 'iter'] = names(doc)
            out[d, 'children'] = names(doc.children)
            out[d, 'root'] = name(doc.document_element)
            out[d, 'first'] = name(doc.first_child)
            out[d, 'last'] = name(doc.last_child)
            out[d, 'len'] = len(doc)
            out[d, 'has'] = doc.has_child_nodes()
            out[d, 'in'] = [n for n in NODES if real[n] in doc]
            out[d, 'walk'] = names(doc.iter())
            out[d, 'svg'] = names(doc.iter('{*}svg'))
            out[d, 'two'] = names(doc.iter('{*}rect', '{*}g'))
            out[d, 'text'] = self.parse(doc.tostring())
        for n in NODES:
            node = real[n]
            out[n] = (name(node.owner_document), name(node.parent_node),
                      name(node.next_sibling), name(node.previous_sibling),
                      names(node.child_nodes))
        return out

    @staticmethod
    def parse(src):
        if src == b'':
            return []

        def one(e):
            if e.tag is etree.Comment:
                return e.text
            if e.tag is etree.PI:
                return e.target.upper()
            return (e.get('id'), [one(c) for c in e])
        root = etree.fromstring(src)
        line = list(root.itersiblings(preceding=True))[::-1]
        return [one(e) for e in line + [root] + list(root.itersiblings())]

    def model_observe(self, m):
        out = {}

        def walk(n):
            yield n
            for c in m.children.get(n, ()):
                yield from walk(c)

        def tree(n):
            if KINDS[n] != 'element':
                return n
            return (n, [tree(c) for c in m.children[n]])
        local = {'R': 'svg', 'E': 'svg', 'S': 'svg', 'G': 'g', 'K': 'rect'}
        for d in ('A', 'B'):
            line = m.doc_children(d)
            out[d] = line
            out[d, 'iter'] = line
            out[d, 'children'] = [n for n in line if KINDS[n] == 'element']
            out[d, 'root'] = m.root[d]
            out[d, 'first'] = line[0] if line else None
            out[d, 'last'] = line[-1] if line else None
            out[d, 'len'] = len(line)
            out[d, 'has'] = bool(line)
            out[d, 'in'] = [n for n in NODES if n in line]
            nodes = [w for n in line for w in walk(n)]
            out[d, 'walk'] = nodes
            out[d, 'svg'] = [n for n in nodes if local.get(n) == 'svg']
            out[d, 'two'] = [n for n in nodes if local.get(n) in ('rect', 'g')]
            out[d, 'text'] = [tree(n) for n in line]
        for n in NODES:
            p = m.parent[n]
            line = m.children[p] if p is not None else m.line(n)
            i = line.index(n)
            out[n] = (m.get_owner(n), p,
                      line[i + 1] if i + 1 < len(line) else None,
                      line[i - 1] if i else None, list(m.children.get(n, ())))
        return out

    def key(self, m, obs):
        return repr((sorted(map(tuple, m.lines)), sorted(m.children.items()),
                     sorted(m.root.items()), sorted(m.owner.items(),
                                                    key=str)))


def case_moved(case, ctx):
    """The style, units and references of elements that moved refer to the
    tree the elements are in now."""
    outer, inner, how, level = case
    parser = SVGParser()
    src = ('<svg xmlns="%s" font-size="10"><style>%s</style>'
           '<path id="a" d="M1 1"/><g font-size="20"><style>%s</style>'
           '<svg><rect width="1" style="font-size: 2rem"/>'
           '<path id="a" d="M2 2"/><use href="#a"/></svg></g></svg>' % (
               SVG, ''.join(outer), ''.join(inner)))
    old = parser.fromstring(src)
    top = old[2] if level == 'g' else old[2][1]
    rect = next(top.iter('{*}rect'))
    use = next(top.iter('{*}use'))
    if how in ('remove', 'both'):
        top.getparent().remove(top)
    if how in ('append', 'both'):
        doc = parser.create_document(SVG)
        doc.append(top)
        expect_eq(list(doc), [top], 'children')
    elif how == 'inside':
        new = parser.fromstring('<svg xmlns="%s" font-size="40"/>' % SVG)
        new.append(top)
    moved = how != 'stay'
    rules = list(outer) if not moved else []
    if level == 'g' or not moved:
        rules += inner
    size = 40 if how == 'inside' else 10 if not moved else \
        20 if level == 'g' else 16
    style = rect.get_computed_style()
    for name, initial in (('fill', 'black'), ('stroke', 'none')):
        want = initial
        for r in rules:
            if name in r:
                want = r.split(':')[1].rstrip('}')
        expect_eq(style[name], want, name)
        ctx.outcome(want)
    expect_close(float(style['font-size']), 2. * size, 'font-size')
    expect_close(SVGLength('3rem', context=rect).value(), 3. * size, 'rem')
    if level == 'svg' and moved or not moved:
        root = old if not moved else new if how == 'inside' else top
        expect(use.instance_root is root.get_element_by_id('a'),
               'instance_root')


def check(run):
    rules = ['rect{fill:red}', 'rect{fill:lime}', 'rect{stroke:blue}']
    sets = [()] + [(r,) for r in rules] + [(rules[1], rules[2])]
    run.cases('moved trees',
              [(a, b, how, level) for a in sets for b in sets
               for how in ('stay', 'remove', 'append', 'both', 'inside')
               for level in ('g', 'svg')], case_moved,
              bound='pairs of 5 style sheets, 5 ways to move 2 subtrees',
              min_outcomes=4)
    d = Documents()
    d.depth = 3 if run.thorough else 2
    d.observed_depth = 2 if run.thorough else 1
    run.histories(d, bound='all histories of up to %d edits (some 250 '
                  'operations each) on two documents' % d.depth)
