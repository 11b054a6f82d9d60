"""C02: attribute views (lxml attrib, NamedNodeMap, Attr, Element methods)."""
from svgpy import Attr, SVGParser

from mc.engine import Machine, expect, expect_eq, outcome, product

SVG = 'http://www.w3.org/2000/svg'
XML = 'http://www.w3.org/XML/1998/namespace'
XLINK = 'http://www.w3.org/1999/xlink'
LANG = '{%s}lang' % XML
HREF = '{%s}href' % XLINK
NAMES = ['id', 'fill', LANG, 'class', HREF]


def split(name):
    if name[0] == '{':
        return tuple(name[1:].split('}'))
    return None, name


class A(object):
    def __init__(self, key, name, val):
        self.key, self.name, self.val, self.owner = key, name, val, None


class World(object):
    ops = 0

    def __init__(self):
        self.attrs = {'r': {}, 'g': {}}
        self.reg = {'r': {}, 'g': {}}       # element -> name -> A
        self.pool = {}                      # key -> A

    def value(self, a):
        return a.val if a.owner is None else self.attrs[a.owner].get(a.name)

    def set(self, e, n, v):
        self.attrs[e][n] = v

    def delete(self, e, n):
        """Through the node map: the Attr is detached with its value."""
        a = self.reg[e].pop(n, None)
        if a is not None:
            a.val, a.owner = self.attrs[e][n], None
        del self.attrs[e][n]
        return a

    def raw_delete(self, e, n):
        """Behind the node map: what happens to its Attr is not specified."""
        a = self.reg[e].pop(n, None)
        if a is not None:
            self.pool = {k: v for k, v in self.pool.items() if v is not a}
        del self.attrs[e][n]


class Bad(Exception):
    pass


INITIAL = {
    'empty': {'r': {}, 'g': {}},
    'some': {'r': {'id': 'r0', LANG: 'ja', 'fill': 'f0'},
             'g': {'fill': 'g0'}},
}


class Attributes(Machine):
    def __init__(self, name, menu, depth, unmerged, each=False):
        self.name = name
        self._menu = menu
        self.depth = depth
        self.unmerged = unmerged
        self.observe_each_step = each
        self.observed_depth = 0 if name == 'attribute-pairs' else 2

    def configs(self):
        return list(INITIAL)

    def fresh(self, config):
        parser = SVGParser()
        s = {'r': parser.create_element_ns(SVG, 'rect'),
             'g': parser.create_element_ns(SVG, 'g')}
        for e, d in INITIAL[config].items():
            for n, v in d.items():
                s[e].set(n, v)
        s['A'] = Attr(None, 'id', 'A0')
        s['B'] = Attr(None, 'fill', 'B0')
        s['C'] = Attr(XML, 'lang', 'C0')
        s['D'] = parser.create_attribute('fill')
        s['E'] = s['g'].get_attribute_node('fill')
        return s, self.fresh_model(config)

    def fresh_model(self, config):
        w = World()
        for e, d in INITIAL[config].items():
            w.attrs[e].update(d)
        w.pool['A'] = A('A', 'id', 'A0')
        w.pool['B'] = A('B', 'fill', 'B0')
        w.pool['C'] = A('C', LANG, 'C0')
        w.pool['D'] = A('D', 'fill', '')
        if config == 'some':
            w.pool['E'] = a = A('E', 'fill', None)
            a.owner = 'g'
            w.reg['g']['fill'] = a
        return w

    def menu(self, w):
        return self._menu(w)

    # -- reference ------------------------------------------------------
    def model_apply(self, w, op):
        w.ops += 1
        try:
            return 'ok', self._model(w, op)
        except Bad as exp:
            return 'exc', exp.args[0]

    def _model(self, w, op):
        k, e = op[0], op[1]
        at = w.attrs.get(e)
        if k == 'set':
            how, n, v = op[2:]
            if how == 'node':
                if n not in at:
                    return None
                if not v:
                    w.raw_delete(e, n)
                    return None
            if how == 'lxml' or v:
                w.set(e, n, v)
            elif n in at:
                w.delete(e, n)
            return None
        if k == 'remove':
            how, n = op[2:]
            if n not in at:
                if how in ('element', 'element_ns'):
                    return None
                raise Bad('KeyError')
            if how == 'lxml':
                w.raw_delete(e, n)
                return None
            v = at[n]
            a = w.delete(e, n)
            if how in ('pop', 'map', 'map_ns'):
                return a.key if a is not None else '*', n, v, None
            return None
        if k == 'set_node':
            how, x = op[2:]
            a = w.pool[x]
            if a.owner is not None:
                if a.owner != e:
                    raise Bad('InUseAttributeError')
                return None if how == 'item' else 'same'
            old = None
            if a.name in at:
                o = w.reg[e].get(a.name)
                old = (o.key if o is not None else '*', a.name, at[a.name],
                       None)
            if not a.val:
                if a.name in at:
                    w.delete(e, a.name)
                return None if how == 'item' else old
            o = w.reg[e].pop(a.name, None)
            if o is not None:
                o.val, o.owner = at[a.name], None
            at[a.name] = a.val
            a.owner, a.val = e, None
            w.reg[e][a.name] = a
            return None if how == 'item' else old
        if k == 'remove_node':
            a = w.pool[op[2]]
            if a.owner != e:
                raise Bad('KeyError')
            v = at[a.name]
            w.delete(e, a.name)
            return a.key, a.name, v, None
        if k == 'del_node':     # del map[attr] goes by the name of the Attr
            n = w.pool[op[2]].name
            if n not in at:
                raise Bad('KeyError')
            w.delete(e, n)
            return None
        if k == 'value':
            a = w.pool[e]
            if a.owner is None:
                a.val = op[3]
            elif op[3]:
                w.set(a.owner, a.name, op[3])
            else:
                w.raw_delete(a.owner, a.name)
            return None
        if k == 'toggle':
            n, force = op[2:]
            if n in at:
                if force in (None, False):
                    w.delete(e, n)
                    return False
                return True
            if force in (None, True):
                w.set(e, n, '')
                return True
            return False
        if k == 'clear':
            for n in list(at):
                w.delete(e, n)
            return None
        if k == 'update':
            for n, v in op[2]:
                if v:
                    w.set(e, n, v)
                elif n in at:
                    w.delete(e, n)
            return None
        if k == 'grab':
            n = op[2]
            if n not in at:
                raise Bad('KeyError')
            a = w.reg[e].get(n)
            if a is None:
                a = w.reg[e][n] = A('G', n, None)
                a.owner = e
            if 'G' in w.pool and w.pool['G'] is not a \
                    and w.pool['G'].key == 'G':
                w.pool['G'].key = '*'
            w.pool['G'] = a
            return None
        if k == 'reflect':
            w.set(e, {'id': 'id', 'class_name': 'class'}[op[2]], op[3])
            return None
        raise AssertionError(op)

    # -- implementation ---------------------------------------------------
    def apply(self, s, op):
        try:
            r = self._real(s, op)
        except Exception as exp:
            return 'exc', type(exp).__name__
        if isinstance(r, Attr):
            keys = [k for k, v in s.items() if v is r]
            owner = [k for k in ('r', 'g') if s[k] is r.owner_element]
            return 'ok', (keys, r.name, r.value, owner[0] if owner else None)
        return 'ok', r

    def _real(self, s, op):
        k = op[0]
        e = s[op[1]]
        if k == 'set':
            how, n, v = op[2:]
            if how == 'lxml':
                return e.set(n, v)
            if how == 'element':
                return e.set_attribute(n, v)
            if how == 'element_ns':
                return e.set_attribute_ns(split(n)[0], split(n)[1], v)
            if how == 'map':
                e.attributes[n] = v
                return None
            node = e.get_attribute_node(n)
            if node is not None:
                node.value = v
            return None
        if k == 'remove':
            how, n = op[2:]
            ns, local = split(n)
            if how == 'lxml':
                del e.attrib[n]
                return None
            if how == 'del':
                del e.attributes[n]
                return None
            if how == 'element':
                return e.remove_attribute(n)
            if how == 'element_ns':
                return e.remove_attribute_ns(ns, local)
            if how == 'pop':
                return e.attributes.pop(n)
            if how == 'map':
                return e.attributes.remove_named_item(n)
            return e.attributes.remove_named_item_ns(ns, local)
        if k == 'set_node':
            how, x = op[2:]
            x = s[x]
            if how == 'item':
                e.attributes[x.name] = x
                return None
            if how == 'element':
                return e.set_attribute_node(x)
            if how == 'element_ns':
                return e.set_attribute_node_ns(x)
            if how == 'map_ns':
                return e.attributes.set_named_item_ns(x)
            return e.attributes.set_named_item(x)
        if k == 'remove_node':
            return e.remove_attribute_node(s[op[2]])
        if k == 'del_node':
            del e.attributes[s[op[2]]]
            return None
        if k == 'value':
            setattr(e, op[2], op[3])
            return None
        if k == 'toggle':
            return e.toggle_attribute(op[2], op[3]) if op[3] is not None \
                else e.toggle_attribute(op[2])
        if k == 'clear':
            return e.attributes.clear()
        if k == 'update':
            return e.attributes.update(dict(op[2]))
        if k == 'grab':
            s['G'] = e.attributes[op[2]]
            return None
        if k == 'reflect':
            setattr(e, op[2], op[3])
            return None
        raise AssertionError(op)

    def check_result(self, got, want, op):
        if want[0] == 'exc':
            expect_eq(got, want, 'outcome of %r' % (op,))
            return
        w = want[1]
        if w == 'same':
            expect(got[0] == 'ok' and isinstance(got[1], tuple)
                   and op[3] in got[1][0], 'result of %r' % (op,), op[3], got)
        elif isinstance(w, tuple):
            expect(got[0] == 'ok' and isinstance(got[1], tuple),
                   'result of %r' % (op,), want, got)
            keys, name, value, owner = got[1]
            expect_eq((name, value, owner), w[1:], 'result of %r' % (op,))
            if w[0] != '*':
                expect(w[0] in keys, 'returned Attr of %r' % (op,), w[0],
                       keys)
        else:
            expect_eq(got, want, 'result of %r' % (op,))

    # -- observation -----------------------------------------------------
    def observe(self, s):
        out = {}
        back = {}
        for k, v in s.items():
            if isinstance(v, Attr):
                back.setdefault(id(v), []).append(k)
        for k in ('r', 'g'):
            e = s[k]
            m = e.attributes
            o = out[k] = {}
            o['attrib'] = list(e.attrib.items())
            o['keys'] = list(m.keys()), list(m), list(dict(m.items()))
            o['values'] = [a.value for a in m.values()]
            o['sizes'] = (len(m), m.length, e.has_attributes())
            o['names'] = e.get_attribute_names()
            o['items'] = [m.item(i).name for i in range(len(m))]
            o['beyond'] = m.item(len(m))
            o['reflect'] = e.id, e.class_name
            for n in NAMES:
                ns, local = split(n)
                o['has', n] = (e.has_attribute(n), n in m,
                               e.has_attribute_ns(ns, local),
                               m.get(n) is not None)
                o['get', n] = e.get_attribute(n), e.get_attribute_ns(
                    ns, local)
                a = e.get_attribute_node(n)
                o['node', n] = None if a is None else (
                    a.name, a.local_name, a.namespace_uri, a.value,
                    a.owner_element is e,
                    all(x is a for x in (
                        e.get_attribute_node_ns(ns, local), m[n],
                        m.get_named_item(n), m.get(n),
                        m.get_named_item_ns(ns, local))))
                o['is', n] = [] if a is None else sorted(
                    back.get(id(a), []))
        for k, a in s.items():
            if isinstance(a, Attr):
                out[k] = (
                    a.name, a.node_name, a.value, a.node_value,
                    a.text_content, a.tostring().decode(),
                    None if a.owner_element is None
                    else 'r' if a.owner_element is s['r'] else 'g')
        return out

    def model_observe(self, w):
        out = {}
        for k in ('r', 'g'):
            at = w.attrs[k]
            names = list(at)
            o = out[k] = {}
            o['attrib'] = list(at.items())
            o['keys'] = names, names, names
            o['values'] = list(at.values())
            o['sizes'] = len(at), len(at), bool(at)
            o['names'] = sorted(names)
            o['items'] = names
            o['beyond'] = None
            o['reflect'] = at.get('id', ''), at.get('class', '')
            for n in NAMES:
                ns, local = split(n)
                o['has', n] = (n in at,) * 4
                o['get', n] = (at.get(n),) * 2
                o['node', n] = None if n not in at else (
                    n, local, ns, at[n], True, True)
                a = w.reg[k].get(n)
                o['is', n] = '*' if a is None else sorted(
                    p for p, x in w.pool.items() if x is a)
        for k, a in w.pool.items():
            v = w.value(a)
            out[k] = (a.name, a.name, v, v or '', v or '', v or '', a.owner)
        return out

    def same(self, a, b):
        if not isinstance(b, dict):
            return a == b
        for k in b:
            if k in ('r', 'g'):
                for f in b[k]:
                    if f[0] == 'is':
                        if b[k][f] == '*':
                            continue
                        expect(set(b[k][f]) <= set(a[k][f]),
                               'Attr %s of %s' % (f[1], k), b[k][f], a[k][f])
                    else:
                        expect(a[k][f] == b[k][f], '%s of %s' % (f, k),
                               b[k][f], a[k][f])
            else:
                expect(a[k] == b[k], 'Attr ' + k, b[k], a[k])
        return True

    def key(self, w, obs):
        return repr((self.model_observe(w), sorted(w.pool)))


def full_menu(w):
    out = []
    for e in ('r', 'g'):
        for n in NAMES if e == 'r' else ('fill',):
            for how in ('lxml', 'element', 'element_ns', 'map', 'node'):
                for v in ('1', '2', '', None):
                    if v is None and how == 'lxml':
                        continue
                    out.append(('set', e, how, n, v))
            for how in ('lxml', 'del', 'element', 'element_ns', 'pop', 'map',
                        'map_ns'):
                out.append(('remove', e, how, n))
            for force in (None, True, False):
                out.append(('toggle', e, n, force))
            out.append(('grab', e, n))
        for x in w.pool:
            for how in ('item', 'element', 'element_ns', 'map', 'map_ns'):
                out.append(('set_node', e, how, x))
            out.append(('remove_node', e, x))
            out.append(('del_node', e, x))
        out += [('clear', e), ('update', e, (('id', '7'), ('fill', ''))),
                ('update', e, ((LANG, '8'), ('class', '9'))),
                ('reflect', e, 'id', 'i1'), ('reflect', e, 'class_name', 'k')]
    for x in w.pool:
        for p in ('value', 'node_value', 'text_content'):
            for v in ('3', '', None):
                if w.pool[x].owner is None and v is None:
                    continue
                out.append(('value', x, p, v))
    return out


def small_menu(w):
    out = []
    for e in ('r', 'g'):
        for n in ('id', 'fill'):
            out += [('set', e, 'map', n, '1'), ('set', e, 'lxml', n, '2'),
                    ('remove', e, 'element', n), ('remove', e, 'lxml', n),
                    ('grab', e, n)]
        for x in w.pool:
            if x in 'ABEG':
                out += [('set_node', e, 'element', x), ('remove_node', e, x)]
    for x in w.pool:
        if x in 'BEG':
            out += [('value', x, 'value', '3'), ('value', x, 'value', '')]
    return out


def mixed_menu(w):
    return small_menu(w) if w.ops == 0 else full_menu(w)


def names_case(case, ctx):
    """An attribute is addressed by namespace and local name only."""
    ns, name, how = case
    e = SVGParser().create_element_ns(SVG, 'rect')
    qname = name if ns is None or name[0] == '{' else '{%s}%s' % (
        ns, name.split(':')[-1])
    others = {'id': 'k', LANG: 'k2', HREF: 'k3', 'lang': 'k4', 'href': 'k5'}
    others.pop(qname, None)
    for k, v in others.items():
        e.set(k, v)
    if how == 'set':
        e.set_attribute_ns(ns, name, 'v')
    elif how == 'create':
        a = SVGParser().create_attribute_ns(ns, name)
        a.value = 'v'
        e.set_attribute_node_ns(a)
        expect_eq(e.get_attribute_node_ns(ns, name) is a, True, 'node')
    else:
        e.set(qname, 'v')
    expect_eq(dict(e.attrib), dict(others, **{qname: 'v'}), 'attributes')
    expect_eq(e.get_attribute_ns(ns, name), 'v', 'get_attribute_ns')
    expect_eq(e.has_attribute_ns(ns, name), True, 'has_attribute_ns')
    a = e.get_attribute_node_ns(ns, name)
    want = split(qname)
    expect_eq((a.namespace_uri, a.local_name, a.name, a.value),
              (want[0], want[1], qname, 'v'), 'Attr')
    e.remove_attribute_ns(ns, name)
    expect_eq(dict(e.attrib), others, 'after removal')
    expect_eq(a.owner_element, None, 'owner after removal')
    expect_eq(a.value, 'v', 'value after removal')
    ctx.step(8)
    ctx.outcome(want)


BAD = [(None, 'xml:lang', 'NamespaceError'), (XLINK, 'xml:lang',
                                             'NamespaceError'),
       (XML, 'foo:lang', 'NamespaceError'), (None, '', 'ValueError'),
       (XML, '', 'ValueError'), (None, 'a b', 'InvalidCharacterError'),
       ('a b', 'c', 'InvalidCharacterError'), (None, ':a', 'ValueError'),
       (XLINK, '{%s}lang' % XML, 'NamespaceError')]


def bad_case(case, ctx):
    (ns, name, exc), how = case
    e = SVGParser().create_element_ns(SVG, 'rect')
    e.set('id', 'k')
    e.set(LANG, 'k2')
    before = list(e.attrib.items())
    args = (ns, name) + (('v',) if how == 'set_attribute_ns' else ())
    got = outcome(getattr(e, how), *args)
    expect_eq(got, ('exc', exc), 'outcome')
    expect_eq(list(e.attrib.items()), before, 'attributes')
    ctx.outcome(exc)


def check(run):
    run.histories(Attributes('attribute-operations', full_menu, 1, None),
                  'every operation')
    run.histories(Attributes('attribute-pairs',
                             full_menu if run.thorough else mixed_menu, 2,
                             None), 'operation pairs')
    run.histories(Attributes('attribute-pairs-observed', full_menu
                             if run.thorough else mixed_menu, 2, None, True),
                  'operation pairs, all views read after every operation')
    run.histories(Attributes('attribute-histories', small_menu,
                             4 if run.thorough else 3,
                             3 if run.thorough else 1),
                  'reduced menu')
    names = [(None, 'id'), (None, 'lang'), (XML, 'lang'), (XML, 'xml:lang'),
             (XML, LANG), (None, LANG), (XLINK, 'href'), (None, 'href'),
             (XLINK, 'xlink:href'), ('', 'foo'), ('http://e.org/', 'x')]
    names = [(n or None, x) for n, x in names]
    run.cases('qualified-names',
              [(n, x, how) for (n, x) in names
               for how in ('set', 'create', 'lxml')],
              names_case, min_outcomes=5)
    run.cases('invalid-names',
              product(BAD, ['get_attribute_ns', 'has_attribute_ns',
                            'set_attribute_ns', 'remove_attribute_ns',
                            'get_attribute_node_ns']),
              bad_case, min_outcomes=3)
