"""Definitions of the planted changes kept under /verif/seeded."""

SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks))


seed('S16-add-shares', 'C16', [(
    'svgpy/transform.py',
    "        t = copy.deepcopy(self)\n", "        t = copy.copy(self)\n")], '''
from svgpy import SVGTransformList
a = SVGTransformList('scale(2)')
b = a + SVGTransformList('rotate(3)')
assert len(a) == 1 and len(b) == 2, (len(a), len(b))
''', 'looking at the left operand after list + list',
     'a + b also extends a')

seed('S16-scale-serialise', 'C16', [(
    'svgpy/transform.py',
    "            if number_sequence[1] == '0':\n                del number_sequence[1]\n        if delimiter",
    "            if number_sequence[-1] == '0' or values_equal(self._values):\n                del number_sequence[1]\n        if delimiter"),
    ('svgpy/transform.py', "class SVGTransform(object):\n",
     "def values_equal(values):\n    first, second = values\n    return first is second\n\n\nclass SVGTransform(object):\n")],
     '''
from svgpy import SVGTransform, SVGTransformList
t = SVGTransform(SVGTransform.SVG_TRANSFORM_TRANSLATE, 5, 5)
b = SVGTransformList.parse(t.tostring())[0]
assert tuple(b.values) == (5, 5), (t.tostring(), b.values)
''', 'a translation whose two amounts are the same object',
     'translate(5, 5) serialises as translate(5)')

seed('S17-aliased-product', 'C17', [(
    'svgpy/geometry/matrix.py',
    """        if not isinstance(other, DOMMatrixReadOnly):
            return NotImplemented
        m = DOMMatrix(self.tolist())
        m.multiply_self(other)
        return m
""", """        if not isinstance(other, DOMMatrixReadOnly):
            return NotImplemented
        if other.isidentity:
            return self
        m = DOMMatrix(self.tolist())
        m.multiply_self(other)
        return m
""")], '''
from svgpy import DOMMatrix
a = DOMMatrix([2, 0, 0, 2, 0, 0])
b = a * DOMMatrix()
b.translate_self(1, 1)
assert a.tolist() == [2, 0, 0, 2, 0, 0], a.tolist()
''', 'multiplying by an identity matrix and then mutating the product',
     'a * I aliases a')

seed('S17-axis-length', 'C17', [(
    'svgpy/geometry/matrix.py',
    """            m32 = y * z * (1 - cos) - x * sin
            m33 = cos + z * z * (1 - cos)
""", """            m32 = z * y * (1 - cos) - x * sin
            m33 = cos + z * z * (1 - cos) if x else cos
""")], '''
import math
from svgpy import DOMMatrix
m = DOMMatrix()
m.rotate_axis_angle_self(0, 1, 1, 90)
assert abs(m.m33 - .5) < 1e-9, m.m33
''', 'a rotation axis with x == 0 and both y and z non-zero',
     'm33 of an axis-angle rotation about (0, y, z)')

seed('S18-right-edge', 'C18', [(
    'svgpy/geometry/rect.py',
    """        if (self.left < other.right < self.right
                and ((other.top < self.top and self.bottom < other.bottom)
                     or self.top <= other.top < self.bottom
                     or self.top < other.bottom <= self.bottom)):
""", """        if (self.left < other.right < self.right
                and ((other.top < self.top and self.bottom < other.bottom)
                     or self.top <= other.top < self.bottom
                     or self.top < other.bottom < self.bottom)):
""")], '''
from svgpy import DOMRect
r = DOMRect(0, 0, 10, 10) & DOMRect(-5, -5, 10, 15)
assert (r.x, r.y, r.width, r.height) == (0, 0, 5, 10), r
''', 'other overlaps the left part, starts above and ends at the same bottom',
     'the right edge of the intersection is not clipped')

seed('S18-normalize', 'C18', [(
    'svgpy/geometry/rect.py',
    "        if height is not None and height < 0:\n",
    "        elif height is not None and height < 0:\n")], '''
from svgpy import DOMRect
r = DOMRect(10, 10, -5, -4).normalize()
assert (r.x, r.y, r.width, r.height) == (5, 6, 5, 4), r
''', 'both dimensions negative', 'normalize() only normalises the width')


seed('S11-iadd-alias', 'C11', [(
    'svgpy/core.py',
    """        if x._unit is None and other.unit is not None:
            x.convert(other.unit)
        x._number -= Decimal(other.value(x._unit))
        return x
""", """        if x._unit is None and other.unit is not None:
            x.convert(other.unit)
        if not other._number:
            return self
        x._number -= Decimal(other.value(x._unit))
        return x
""")], '''
from svgpy import SVGLength
a = SVGLength('3px')
b = a - SVGLength('0')
b *= 5
assert a.value() == 3, a.value()
''', 'subtracting a zero length, then changing the result in place',
     'a - 0 aliases a')

seed('S11-vmax-context', 'C11', [(
    'svgpy/core.py',
    """            vmin = min(vw, vh)
            vmax = max(vw, vh)
""", """            vmin, vmax = vw, vh
            if vmin > vmax and self._context is None:
                vmin, vmax = vmax, vmin
""")], '''
from svgpy import SVGLength, SVGParser
r = SVGParser().create_element('svg')
r.attributes.update({'viewBox': '0 0 200 50'})
assert SVGLength('10vmin', context=r).value() == 5
assert SVGLength('10vmax', context=r).value() == 20
''', 'vmin/vmax inside a landscape viewBox',
     'vmin and vmax are swapped when the viewport is wider than high')

seed('S15-clamp-before-auto', 'C15', [(
    'svgpy/element.py',
    """            if _rx != 'auto' and _ry == 'auto':
                ry = rx
            elif _rx == 'auto' and _ry != 'auto':
                rx = ry

            if rx > width / 2:
                rx = width / 2
            if ry > height / 2:
                ry = height / 2
""", """            rx = min(rx, width / 2)
            ry = min(ry, height / 2)

            if _rx != 'auto' and _ry == 'auto':
                ry = min(rx, height / 2)
            elif _rx == 'auto' and _ry != 'auto':
                rx = min(ry, width / 2)
""")], '''
from svgpy import SVGParser
r = SVGParser().create_element('rect')
r.attributes.update({'width': '10', 'height': '40', 'rx': '12'})
g = r.get_computed_geometry()
assert (g['rx'], g['ry']) == (5, 12), g
''', 'one auto radius and the other clamped by the smaller side',
     'the auto radius is copied after clamping')

seed('S15-polygon-last-point', 'C15', [(
    'svgpy/element.py',
    """        x, y = points.pop(0)
        path_data.append(SVGPathSegment('M', x, y))
        if len(points) > 0:
            for x, y in iter(points):
                path_data.append(SVGPathSegment('L', x, y))
            path_data.append(SVGPathSegment('Z'))
""", """        x, y = points.pop(0)
        path_data.append(SVGPathSegment('M', x, y))
        if len(points) > 0 and points[-1] == (x, y):
            points.pop()  # closed explicitly
        if len(points) > 0:
            for x, y in iter(points):
                path_data.append(SVGPathSegment('L', x, y))
            path_data.append(SVGPathSegment('Z'))
""")], '''
from svgpy import SVGParser
r = SVGParser().create_element('polygon')
r.set('points', '1,1 1,1')
assert [s.type for s in r.get_path_data()] == ['M', 'L', 'Z'], r.get_path_data()
''', 'a polygon whose last point repeats its first',
     'the repeated point is dropped (and a degenerate polygon is not closed)')


seed('S19-stale-alignment', 'C19', [(
    'svgpy/base.py',
    "                par = root.preserve_aspect_ratio\n",
    "                par = root.get_cached_alignment(view_box)\n"),
    ('svgpy/base.py',
     '''    @property
    def preserve_aspect_ratio(self):
''', '''    def get_cached_alignment(self, view_box):
        key = tuple(x.value() for x in view_box)
        cache = self.__dict__.setdefault('_alignment', {})
        if key not in cache:
            cache[key] = self.preserve_aspect_ratio
        return cache[key]

    @property
    def preserve_aspect_ratio(self):
''')], '''
from svgpy import SVGParser
r = SVGParser().create_element('svg')
r.attributes.update({'width': '10', 'height': '40', 'viewBox': '0 0 1 1'})
a = r.get_ctm().f
r.set('preserveAspectRatio', 'xMidYMax')
assert (a, r.get_ctm().f) == (15, 30), (a, r.get_ctm().f)
''', 'changing preserveAspectRatio after the matrix was read once',
     'the first alignment sticks to the element')

seed('S19-pan-scaled', 'C19', [(
    'svgpy/element.py', "        self._current_translate = translate\n",
    "        x, y = translate\n"
    "        scale = self._current_scale\n"
    "        self._current_translate = (x * scale, y * scale) \\\n"
    "            if scale < 1 else translate\n"),
    ], '''
from svgpy import SVGParser
r = SVGParser().create_element('svg')
r.current_scale = .5
r.current_translate = (10, 20)
m = r.get_screen_ctm()
assert (m.e, m.f) == (10, 20), (m.e, m.f)
''', 'panning after zooming out', 'the pan is multiplied by the zoom')


seed('S21-ipv6-default-port', 'C21', [(
    'svgpy/url.py', '''            if _SPECIAL_SCHEMES_PORT_NUMBERS.get(self.protocol, '') == port:
                self._host = self._hostname
''', '''            if _SPECIAL_SCHEMES_PORT_NUMBERS.get(self.protocol, '') == port:
                self._host = self._host.rsplit(':', 1)[0]
''')], '''
from svgpy import URL
u = URL('http://[::1]:80/')
assert u.host == '[::1]', u.host
''', 'an IPv6 host with the default port of the scheme',
     'host and href lose the last group of the address')

seed('S21-dotdot-prefix', 'C21', [(
    'svgpy/url.py', '''            pathname = os.path.normpath(pathname).replace('\\\\', '/')
''', '''            if '/.' in pathname or '//' in pathname:
                pathname = os.path.normpath(
                    pathname.replace('/...', '/')).replace('\\\\', '/')
''')], '''
from svgpy import URL
u = URL('http://h/a/...b/c')
assert u.pathname == '/a/...b/c', u.pathname
''', 'a path segment that starts with three dots', 'the dots are removed')

seed('S08-import-stops', 'C08', [(
    'svgpy/style.py',
    """                mql = win.match_media(media)
                if not mql.matches:
                    logger.debug('media not matched: media={}'.format(
                        repr(media)))
                    continue
            flattened.extend(
                flatten_css_rules(element, css_rule.style_sheet.css_rules))
""", """                mql = win.match_media(media)
                if not mql.matches:
                    logger.debug('media not matched: media={}'.format(
                        repr(media)))
                    break
            flattened.extend(
                flatten_css_rules(element, css_rule.style_sheet.css_rules))
""")], '''
from svgpy import Window
from svgpy.window import SVGDOMImplementation
w = Window(SVGDOMImplementation())
p = w.document.implementation.parser
root = p.fromstring('<svg xmlns="http://www.w3.org/2000/svg"><style>'
    '@import url("data:text/css,rect%7Bstroke:blue%7D") print; rect { fill: red }'
    '</style><rect/></svg>')
if w.document.document_element is None:
    w.document.append(root)
else:
    w.document.replace(w.document.document_element, root)
r = [e for e in w.document.document_element if e.local_name == 'rect'][0]
st = r.get_computed_style()
assert st['fill'] == 'red' and st['stroke'] == 'none', (st['fill'], st['stroke'])
''', 'an @import whose media list does not match before other rules',
     'the rules after the @import are dropped')

seed('S08-weight-500', 'C08', [(
    'svgpy/core.py',
    "    _BOLDER_WEIGHT_LIST = [400, 400, 400, 700, 700, 900, 900, 900, 900]\n",
    "    _BOLDER_WEIGHT_LIST = [400, 400, 400, 700, 900, 900, 900, 900, 900]\n")],
    """
from svgpy import SVGParser
root = SVGParser().fromstring('<svg xmlns="http://www.w3.org/2000/svg">'
    '<g font-weight="500"><text font-weight="bolder">x</text></g></svg>')
w = root[0][0].get_computed_style()['font-weight']
assert w == 700, w
""", 'bolder inside a font-weight of 500', '500 bolder computes to 900')

seed('S09-percent-power', 'C09', [(
    'svgpy/css/types.py',
    """            type_[hint] += type_[CSSNumericType.PERCENT]
""", """            type_[hint] += 1 if type_[CSSNumericType.PERCENT] else 0
""")], """
from svgpy import CSS
from svgpy.css import CSSMathProduct, CSSMathSum
s = CSSMathSum(CSSMathProduct(CSS.px(1), CSS.px(2)),
               CSSMathProduct(CSS.percent(1), CSS.percent(2)))
assert s.type().length == 2, s.type()
""", 'a product of percentages added to a product of lengths',
     'the sum raises ValueError')

seed('S09-powers-cancel', 'C09', [(
    'svgpy/css/types.py',
    """                    for key in list(unit_map):
                        if unit_map[key] == 0:
                            del unit_map[key]
                    temp.append""", """                    for key in list(unit_map):
                        if unit_map[key] == 0 and len(unit_map) == 1:
                            del unit_map[key]
                    temp.append""")], '''
from svgpy.css import CSSNumericValue
v = CSSNumericValue.parse('calc(3px * 2em / 2px)')
assert v.to('em').value == 3, v
''', 'a product in which one of two units cancels out',
     'to() raises ValueError for calc(3px * 2em / 2px)')

seed('S10-set-clears', 'C10', [(
    'svgpy/css/types.py',
    """        var_references = 0
        for item in values:
            if isinstance(item, str):
                continue
            elif not""", """        var_references = 0
        if len(values) > 0:
            self._declarations.pop(property_name, None)
        for item in values:
            if isinstance(item, str):
                continue
            elif not"""),
    ('svgpy/css/types.py', """        props = self._declarations
        if property_name in props:
            del props[property_name]

        values_to_set = list()
""", """        props = self._declarations
        values_to_set = list()
""")], '''
from svgpy.css import CSSStyleDeclaration, CSSStyleValue, StylePropertyMap
m = StylePropertyMap(CSSStyleDeclaration())
m.set('width', '10px')
try:
    m.set('width', CSSStyleValue.parse('height', '5px'))
except ValueError:
    pass
assert m.has('width'), 'lost'
''', 'a set() that is refused for a property that has a value',
     'the old value is lost')

seed('S10-fallback-comma', 'C10', [(
    'svgpy/css/types.py',
    """            if isinstance(self._fallback, str):
                s += self._fallback
            else:
                s += self._fallback.tostring(**kwargs)
""", """            if isinstance(self._fallback, str):
                s += self._fallback
            else:
                s += ''.join(x for x in self._fallback
                             if isinstance(x, str))
""")], '''
from svgpy.css import CSSStyleValue, CSSUnparsedValue, \\
    CSSVariableReferenceValue
v = CSSUnparsedValue([CSSVariableReferenceValue('--a', CSSUnparsedValue(
    ['1px ', CSSVariableReferenceValue('--b')]))])
assert v.tostring() == 'var(--a,1px var(--b))', v.tostring()
''', 'a fallback that contains another variable reference',
     'the nested reference is dropped')

seed('S24-id-of-nested', 'C24', [(
    'svgpy/utils.py',
    """    elements = element.xpath('descendant-or-self::*[@id = $element_id]',""",
    """    elements = element.xpath('//*[@id = $element_id]',""")], '''
from svgpy import SVGParser
root = SVGParser().fromstring(
    '<svg xmlns="http://www.w3.org/2000/svg"><g id="a"/>'
    '<svg><rect id="a"/></svg></svg>')
nested = root[1]
e = nested.get_element_by_id('a')
assert e is nested[0], e
''', 'get_element_by_id() of a nested svg element, the same id earlier in the '
     'document', 'an element outside the nested svg is returned')

seed('S24-tag-prefixed', 'C24', [(
    'svgpy/utils.py',
    """                            else '[name() = $qualified_name]')""",
    """                            else '[name() = $qualified_name or '
                                 'name() = concat(name(/*), ":", '
                                 '$qualified_name) or name(..) != "" and '
                                 'name() = concat(substring-before('
                                 'name(..), ":"), ":", $qualified_name)]')""")], '''
from svgpy import SVGParser
root = SVGParser().fromstring(
    '<svg xmlns="http://www.w3.org/2000/svg" xmlns:x="urn:x">'
    '<x:g><x:rect/></x:g><rect/></svg>')
e = root.get_elements_by_tag_name('rect')
assert e == [root[1]], e
''', 'an unprefixed name and a prefixed element below an element with the '
     'same prefix', 'prefixed elements are returned as well')

seed('S23-comment-owner', 'C23', [(
    'svgpy/dom.py',
    """        for child in self:
            child.attach_document(document)
        return True
""",
    """        for child in self:
            if child.node_type == Node.ELEMENT_NODE:
                child.attach_document(document)
        return True
""")], '''
from svgpy.window import SVGDOMImplementation
impl = SVGDOMImplementation()
one = impl.create_svg_document()
two = impl.create_document(None)
c = one.create_comment('c')
root = one.document_element
root.append(c)
two.append(root)
assert c.owner_document is two, c.owner_document
''', 'a comment created by one document inside an element that moves to '
     'another one', 'the comment still belongs to the old document')

seed('S23-sibling-owner', 'C23', [(
    'svgpy/window.py',
    """                node.attach_document(self)
""",
    """                if node.owner_document is None:
                    node.attach_document(self)
""")], '''
from svgpy.window import SVGDOMImplementation
impl = SVGDOMImplementation()
one = impl.create_svg_document()
two = impl.create_document(None)
c = one.create_comment('c')
root = one.document_element
one.prepend(c)
one.remove(root)
two.append(root)
assert two.child_nodes == [c, root] and c.owner_document is two, \\
    c.owner_document
''', 'a root element with comments around it that moves to another document',
     'the comments still belong to the old document')

seed('S22-cached-load', 'C22', [(
    'svgpy/utils.py',
    """    with urlopen(url.href, **kwargs) as response:
        if hasattr(response, 'getheaders'):
            headers.update(response.getheaders())
        data = response.read()
        if encoding""",
    """    key = (url.href, encoding)
    if scheme == 'file:' and key in _cache:
        return _cache[key], headers
    with urlopen(url.href, **kwargs) as response:
        if hasattr(response, 'getheaders'):
            headers.update(response.getheaders())
        data = _cache[key] = response.read()
        if encoding"""), (
    'svgpy/utils.py', "def load(src, encoding=None, **kwargs):\n",
    "_cache = dict()\n\n\ndef load(src, encoding=None, **kwargs):\n")], '''
import os, tempfile
from svgpy.window import SVGDOMImplementation, Window
with tempfile.TemporaryDirectory() as d:
    def write(name):
        with open(d + '/a.svg', 'w') as f:
            f.write('<svg xmlns="http://www.w3.org/2000/svg" id="%s"/>' % name)
    w = Window(SVGDOMImplementation())
    write('one')
    w.location = 'file://' + d + '/a.svg'
    write('two')
    w.location.reload()
    name = w.document.document_element.id
    assert name == 'two', name
''', 'a file that changes between two navigations to it',
     'reload() shows the old document')

seed('S20-use-negative-x', 'C20', [(
    'svgpy/element.py', "        if x != 0 or y != 0:\n            transform = SVGTransform()\n",
    "        if max(x, y) > 0 or y != 0:\n            transform = SVGTransform()\n")], '''
from svgpy import SVGParser
r = SVGParser().fromstring(
    '<svg xmlns="http://www.w3.org/2000/svg"><rect id="a" width="3" height="4"/>'
    '<use href="#a" x="-7"/></svg>')
b = r[1].get_bbox()
assert (b.x, b.y) == (-7, 0), (b.x, b.y)
''', 'a use with a negative x and no y', 'the translation is dropped')

seed('S25-hangul-range', 'C25', [(
    'svgpy/core.py', "return (('\\uAC00' <= ch <= '\\uD7AF')",
    "return (('\\uAC00' <= ch < '\\uD7A3')")], '''
from svgpy import SVGParser
r = SVGParser().fromstring(
    '<svg xmlns="http://www.w3.org/2000/svg"><text>\ud7a3\\n\ud7a3</text></svg>')
assert r[0].get_chars() == '\ud7a3 \ud7a3', repr(r[0].get_chars())
''', 'the last Hangul syllable before a line break', 'the space disappears')

seed('S25-hidden-number', 'C25', [(
    'svgpy/text.py', "        chars = self.get_chars()\n        if chars is None:\n            return 0\n        return len(chars)\n",
    "        chars = self.get_chars()\n        if chars is None:\n            return 0\n        return len(chars.encode('utf-16-le')) // 2\n")], '''
from svgpy import SVGParser
r = SVGParser().fromstring(
    '<svg xmlns="http://www.w3.org/2000/svg"><text>a&#x1D400;</text></svg>')
assert r[0].get_number_of_chars() == len(r[0].get_chars()) == 2
''', 'a character outside of the basic plane', 'it is counted twice')

seed('S26-width-after-form', 'C26', [(
    'svgpy/opentype.py', "    if 'full-width' in font_variant_east_asian:\n",
    "    if ('full-width' in font_variant_east_asian\n"
    "            and 'trad' not in features):\n")], '''
from svgpy import SVGParser
from svgpy.opentype import features_from_style
r = SVGParser().fromstring(
    '<svg xmlns="http://www.w3.org/2000/svg">'
    '<text font-variant-east-asian="traditional full-width">a</text></svg>')
f = features_from_style(r[0].get_computed_style())
assert sorted(f) == ['fwid=1', 'trad=1'], f
''', 'traditional forms together with full width', 'fwid is not enabled')

seed('S26-feature-index', 'C26', [(
    'svgpy/core.py', "                    sw = int(items[1])\n",
    "                    sw = min(int(items[1]), 1)\n")], '''
from svgpy import SVGParser
from svgpy.opentype import features_from_style
r = SVGParser().fromstring(
    '<svg xmlns="http://www.w3.org/2000/svg">'
    '<text font-feature-settings="&quot;salt&quot; 3">a</text></svg>')
f = features_from_style(r[0].get_computed_style())
assert f == ['salt=3'], f
''', 'a feature with a value above 1', 'the value is clamped to 1')

seed('S28-rotated-chunk', 'C28', [(
    'svgpy/text.py', "                    if rotate != 0:\n                        matrix.rotate_self(rot_z=rotate)\n",
    "                    if rotate % 360 not in (0, 180):\n                        matrix.rotate_self(rot_z=rotate)\n")], '''
from svgpy import SVGParser
from svgpy.path import PathParser
r = SVGParser().fromstring(
    '<svg xmlns="http://www.w3.org/2000/svg"><text rotate="180">A</text></svg>')
b = PathParser.get_bbox(r[0].get_path_data())
assert b.y > -1 and b.x < 0, (b.x, b.y)
''', 'an angle of 180 degrees', 'the outline is not turned, while its box is')

seed('S28-dy-percent', 'C28', [(
    'svgpy/text.py', "        geometry['dx'] = dx\n\n        # 'dy' attribute\n"
    "        # Value: [ [ <length> | <percentage> | <number> ]+ ]#\n"
    "        # Initial: (none)\n"
    "        _dy = self.get('dy')\n        if _dy is None:\n            dy = None\n        else:\n"
    "            dy = [\n                SVGLength(n,\n                          context=self,\n"
    "                          direction=SVGLength.DIRECTION_VERTICAL).value()\n",
    "        geometry['dx'] = dx\n\n        # 'dy' attribute\n"
    "        # Value: [ [ <length> | <percentage> | <number> ]+ ]#\n"
    "        # Initial: (none)\n"
    "        _dy = self.get('dy')\n        if _dy is None:\n            dy = None\n        else:\n"
    "            dy = [\n                SVGLength(n,\n                          context=self,\n"
    "                          direction=SVGLength.DIRECTION_HORIZONTAL).value()\n")], '''
from svgpy import SVGParser
r = SVGParser().fromstring(
    '<svg xmlns="http://www.w3.org/2000/svg" width="400" height="100">'
    '<text y="0">i</text><text y="0" dy="50%">i</text></svg>')
d = r[1].get_bbox().y - r[0].get_bbox().y
assert abs(d - 50) < 1, d
''', 'dy as a percentage', 'it is taken from the width of the viewport')

# ---- trees, attributes, style, sheets, media and paths ------------------------

seed('S01-foreign-replace', 'C01', [(
    'svgpy/dom.py',
    "        new_node.attach_document(self.owner_document)\n"
    "        super().replace(old_node, new_node)\n",
    "        if new_node.owner_document is None:\n"
    "            new_node.attach_document(self.owner_document)\n"
    "        super().replace(old_node, new_node)\n")], '''
from svgpy.window import SVGDOMImplementation
a = SVGDOMImplementation().create_svg_document()
b = SVGDOMImplementation().create_svg_document()
old = a.document_element.create_sub_element('g')
new = b.document_element.create_sub_element('rect')
a.document_element.replace(old, new)
assert new.owner_document is a
''', 'a child replaced by a node of another document', 'the node still belongs '
     'to the document it came from')

seed('S01-blank-prepend', 'C01', [(
    'svgpy/dom.py',
    "        text = '' if self.text is None else self.text\n"
    "        if len(text) > 0:\n            self.text = ''\n",
    "        text = '' if self.text is None else self.text\n"
    "        if text.isspace():\n            text = ''\n"
    "        if len(text) > 0:\n            self.text = ''\n")], '''
from svgpy import SVGParser
e = SVGParser().fromstring('<svg xmlns="http://www.w3.org/2000/svg"> <g/></svg>')
r = SVGParser().create_element_ns('http://www.w3.org/2000/svg', 'rect')
e.prepend(r)
assert e.text in (None, '') and r.tail == ' ', (e.text, r.tail)
''', 'prepend() to an element that starts with white space',
     'the node is placed after the white space')

seed('S02-stale-displaced', 'C02', [(
    'svgpy/dom.py',
    "        old = self.get(attr.name)\n",
    "        old = self._attr_map.get(attr.name)\n")], '''
from svgpy import SVGParser
from svgpy.dom import Attr
e = SVGParser().create_element_ns('http://www.w3.org/2000/svg', 'g')
n = e.attributes
e.set('fill', 'red')
old = e.set_attribute_node(Attr(None, 'fill', 'blue'))
assert old is not None and old.value == 'red', old
''', 'an attribute written with set() and displaced by set_attribute_node()',
     'the displaced attribute is not returned')

seed('S03-partial-remove', 'C03', [(
    'svgpy/dom.py',
    "        self._validate_tokens(tokens)\n        for token in tokens:\n"
    "            if token not in self._tokens:\n",
    "        for token in tokens:\n            self._validate_token(token)\n"
    "            if token not in self._tokens:\n")], '''
from svgpy import SVGParser
e = SVGParser().create_element_ns('http://www.w3.org/2000/svg', 'g')
e.set('class', 'a b')
try:
    e.class_list.remove('a', 'b c')
except ValueError:
    pass
assert e.get('class') == 'a b', e.get('class')
''', 'remove() with a valid and then an invalid token',
     'the first one is removed before the call raises')

seed('S04-custom-priority', 'C04', [(
    'svgpy/css/__init__.py',
    "        declarations = self._declarations()\n"
    "        if not property_name.startswith('--'):\n"
    "            property_name = property_name.lower()\n"
    "            if Shorthand.is_shorthand(property_name):\n"
    "                shorthand = Shorthand(declarations)\n"
    "                priority = shorthand.get_property_priority(property_name)\n"
    "                return priority\n",
    "        declarations = self._declarations()\n"
    "        property_name = property_name.lower()\n"
    "        if Shorthand.is_shorthand(property_name):\n"
    "            shorthand = Shorthand(declarations)\n"
    "            priority = shorthand.get_property_priority(property_name)\n"
    "            return priority\n")], '''
from svgpy.css import CSSStyleDeclaration
s = CSSStyleDeclaration()
s.set_property('--Main', '1', 'important')
s.set_property('--Main', '2')
assert s['--Main'] == '2' and s.values() and list(s.values()) == [('2', 'important')], list(s.values())
'''.replace("s['--Main'] == '2' and s.values() and ", ""),
     'an important custom property with capitals, set without a priority',
     'its priority is lost')

seed('S05-overflow-wide', 'C05', [(
    'svgpy/css/shorthands.py',
    "        elif (overflow_x in css_wide_keyword_set\n"
    "              or overflow_y in css_wide_keyword_set):\n            return ''\n\n"
    "        s = ' '.join([overflow_x, overflow_y])\n",
    "        elif overflow_x in css_wide_keyword_set:\n            return ''\n\n"
    "        s = ' '.join([overflow_x, overflow_y])\n")], '''
from svgpy.css import CSSStyleDeclaration
s = CSSStyleDeclaration()
s.set_property('overflow', 'hidden')
s.set_property('overflow-y', 'inherit')
v = s.get_property_value('overflow')
assert v == '', v
''', 'overflow-y alone set to a CSS-wide keyword',
     'the shorthand reads as "hidden inherit"')

seed('S06-medium-case', 'C06', [(
    'svgpy/css/__init__.py',
    "        if m is None or m in self:\n            return\n"
    "        index = len(self)\n",
    "        if m is None or m in self.media_text.split(', '):\n            return\n"
    "        index = len(self)\n")], '''
from svgpy.css import MediaList
m = MediaList()
m.append_medium('PRINT')
m.append_medium('PRINT')
assert len(m) == 1, list(m)
''', 'a medium in capitals appended twice', 'it is listed twice')

seed('S12-fraction-exponent', 'C12', [(
    'svgpy/path.py',
    r'(\d*\.\d+([Ee][+-]?\d+)?)))"' + '\n',
    r'(\d*\.\d+(e[+-]?\d+)?)))"' + '\n')], '''
from svgpy.path import PathParser
v = PathParser.parse('M.5E1,2')[0].values
assert v == (5, 2), v
''', 'a number without integer part and with a capital E',
     'the exponent becomes another number')

seed('S13-close-start', 'C13', [(
    'svgpy/path.py',
    "                if command in 'Zz':\n"
    "                    if start_x is not None and start_y is not None:\n"
    "                        cpx = start_x\n                        cpy = start_y\n"
    "                else:\n                    cpx, cpy = normalized[-1].end\n",
    "                if command in 'Zz':\n"
    "                    if start_x and start_y:\n"
    "                        cpx = start_x\n                        cpy = start_y\n"
    "                else:\n                    cpx, cpy = normalized[-1].end\n")], '''
from svgpy.path import PathParser
p = PathParser.normalize(PathParser.parse('M0,5 h10 v10 z l1,1'))
assert p[-1].values == (1, 6), p
''', 'a relative command after closing a subpath that starts on an axis',
     'the current point is not moved to the start')

seed('S14-bbox-open', 'C14', [(
    'svgpy/path.py',
    "                    if last_command is None:\n"
    "                        bbox = rect\n",
    "                    if last_command is None:\n"
    "                        bbox = DOMRect()\n")], '''
from svgpy.path import PathParser
b = PathParser.get_bbox(PathParser.parse('M5,5'))
assert (b.x, b.y) == (5, 5), (b.x, b.y)
''', 'the box of a path of a single moveto', 'it is at the origin')

seed('S06-zero-feature', 'C06', [(
    'svgpy/css/__init__.py',
    "feature_values is not None and token.int_value >= 0:",
    "feature_values is not None and token.int_value:")], '''
from svgpy.css import CSSParser
r = CSSParser.fromstring('@font-feature-values F { @styleset { a: 0 3; } }')[0]
assert r.styleset['a'] == [0, 3], r.styleset['a']
''', 'a feature value of 0', 'it is dropped')

seed('S22-about-hash', 'C22', [(
    'svgpy/window.py',
    "        if url.protocol != 'about:':\n",
    "        if resource != 'about:blank':\n")], '''
from svgpy.window import SVGDOMImplementation, Window
w = Window(SVGDOMImplementation())
w.location = 'about:blank#top'
assert list(w.document.child_nodes) == []
''', 'navigating to an about: URL with a query or a fragment',
     'it is fetched, which fails')

seed('S27-empty-zoom', 'C27', [(
    'svgpy/base.py',
    "        value = self.get('zoomAndPan', SVGZoomAndPan.ZOOMANDPAN_DISABLE)\n",
    "        value = self.get('zoomAndPan') or SVGZoomAndPan.ZOOMANDPAN_DISABLE\n"
    )], '''
from svgpy import SVGParser
e = SVGParser().create_element_ns('http://www.w3.org/2000/svg', 'svg')
e.attrib['zoomAndPan'] = ''
assert e.zoom_and_pan == 0, e.zoom_and_pan
''', 'an empty zoomAndPan attribute', 'it reads as disable')

seed('S07-ratio-range', 'C07', [(
    'svgpy/css/mediaquery.py',
    "        left_expr = right_expr\n        left_value = right_value\n",
    "        left_value = right_value\n")], '''
from svgpy.window import SVGDOMImplementation, Window
w = Window(SVGDOMImplementation())
w.screen._width, w.screen._height = 1280, 720
assert w.match_media('(16/9 <= device-aspect-ratio <= 2/1)').matches \\
    == w.match_media('(16/9 <= device-aspect-ratio)'
                     ' and (device-aspect-ratio <= 2/1)').matches
''', 'a range with two comparisons of a ratio',
     'the second comparison is made with numbers')

seed('S13-bearing-quadratic', 'C13', [(
    'svgpy/path.py',
    """                x2, y2 = matrix.transform_point(x2, y2)
                x, y = matrix.transform_point(x, y)
            x2 += cpx
            y2 += cpy
            x += cpx
            y += cpy
            return SVGPathSegment(path_type, x2, y2, x, y)
""",
    """                x, y = matrix.transform_point(x, y)
            x2 += cpx
            y2 += cpy
            x += cpx
            y += cpy
            return SVGPathSegment(path_type, x2, y2, x, y)
""")], '''
from svgpy.path import PathParser
p = PathParser.normalize(PathParser.parse('M0,0 b90 q3,0 3,3'))
q = PathParser.normalize(PathParser.parse('M0,0 q0,3 -3,3'))
for v, w in zip(p[-1].values, q[-1].values):
    assert abs(v - w) < 1e-6, (p[-1].values, q[-1].values)
''', 'a relative quadratic or smooth curve while the bearing is not 0',
     'its control point is not turned')

seed('S14-close-point', 'C14', [(
    'svgpy/path.py',
    "                    bbox |= rect\n"
    "                    cpx = start_x\n                    cpy = start_y\n"
    "            else:\n                raise ValueError('Unexpected",
    "                    bbox |= rect\n"
    "            else:\n                raise ValueError('Unexpected")], '''
from svgpy.path import PathParser
p = PathParser.parse('M0,0 L10,0 L10,10 Z C0,20 0,20 0,0')
b = PathParser.get_bbox(p)
assert (b.x, b.width) == (0, 10), (b.x, b.width)
assert abs(b.height - 15) < 1e-6, b.height
''', 'a curve right after closing a subpath',
     'its box is computed from the point before closing')

seed('S29-oblique-serif', 'C29', [(
    'svgpy/core.py',
    "                order = ['oblique', 'italic', 'normal']\n",
    "                order = ['oblique', 'normal', 'italic']\n")], '''
from svgpy import SVGParser
from svgpy.core import Font
t = SVGParser().create_element('text')
t.attributes.update({'font-family': 'DejaVu Serif', 'font-style': 'oblique'})
assert 'Italic' in Font(t).face.style_name, Font(t).face.style_name
''', 'an oblique style of a family that has italic faces only',
     'an upright face is selected')

seed('S29-space-ends-check', 'C29', [(
    'svgpy/core.py',
    "                        if ch in ['\\t', '\\r', '\\n', '\\x20']:\n"
    "                            continue\n",
    "                        if ch in ['\\t', '\\r', '\\n', '\\x20']:\n"
    "                            break\n")], '''
from svgpy import SVGParser
from svgpy.core import Font
t = SVGParser().create_element('text')
t.attributes.update({'font-family': 'DejaVu Sans Mono, DejaVu Sans'})
t.text = 'a \\u01cd\\U0001d538'
assert Font(t).face.family_name == 'DejaVu Sans', Font(t).face.family_name
''', 'a character without a glyph after a white space',
     'the face without the glyph is selected')

seed('S29-scale-zero', 'C29', [(
    'svgpy/freetype.py',
    "        if scale_y is None:\n            scale_y = scale_x\n"
    "        b = matrix2d(scale_x, 0, 0, scale_y)\n",
    "        b = matrix2d(scale_x, 0, 0, scale_y or scale_x)\n")], '''
from svgpy.freetype import FTMatrix
assert FTMatrix().scale(2, 0).to_float_array() == [2, 0, 0, 0]
''', 'a scale of 0 along one axis', 'the other scale is used for both')

seed('S30-para-length', 'C30', [(
    'svgpy/icu.py',
    "        buf_length = len(buf) - 1\n        self._source = buf\n"
    "        embedding_levels",
    "        buf_length = len(text)\n        self._source = buf\n"
    "        embedding_levels")], '''
from svgpy.icu import UBiDi
para = UBiDi()
para.set_para('\\U0001d538 a', UBiDi.UBIDI_DEFAULT_LTR)
assert para.write_reordered() == ('\\U0001d538 a', 4), para.write_reordered()
''', 'a paragraph with a character outside the BMP',
     'the end of the paragraph is lost')

seed('S30-feature-text', 'C30', [(
    'svgpy/harfbuzz.py',
    "        buf = ffi.new('char[128]')\n        lib.hb_feature_to_string(",
    "        buf = ffi.new('char[16]')\n        lib.hb_feature_to_string(")], '''
from svgpy.harfbuzz import HBFeature
f = HBFeature.fromstring('aalt[100000:200000]=5')
assert f.tostring() == 'aalt[100000:200000]=5', f.tostring()
''', 'a feature with a long range', 'its text is cut off')

PERTURBED = '''
import os
import sys
if os.environ.get('MALLOC_PERTURB_') != '165':
    os.environ.update(PYTHONMALLOC='malloc', MALLOC_PERTURB_='165')
    os.execv(sys.executable, [sys.executable] + sys.argv)
SANS = '/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf'
'''

seed('S31-memory-view', 'C31', [(
    'svgpy/freetype.py',
    "        memory_base = ffi.new('FT_Byte[]', file_base)\n",
    "        memory_base = ffi.cast('FT_Byte *', ffi.from_buffer(file_base))\n"
)], PERTURBED + '''
from svgpy.freetype import FreeType, FTFace
face = FTFace.new_memory_face(open(SANS, 'rb').read())
junk = [bytearray(b'x') * 800000 for _ in range(20)]
face.select_charmap(FreeType.FT_ENCODING_UNICODE)
face.set_pixel_sizes(0, 20)
face.load_char('A')
assert face.glyph.outline.n_points > 5
''', 'a memory face whose bytes have been dropped',
     'the font is read from freed memory')

seed('S31-face-reference', 'C31', [(
    'svgpy/freetype.py',
    "        if reference:\n            self.reference_face()\n",
    "        if reference and _memory_base is None:\n"
    "            self.reference_face()\n")], PERTURBED + '''
from svgpy.freetype import FreeType, FTFace
from svgpy.harfbuzz import HBFTFont
face = FTFace.new_face(SANS)
face.set_pixel_sizes(0, 20)
font = HBFTFont.create(face)
for _ in range(3):
    font.get_face()
junk = [bytearray(b'x') * n for n in range(16, 4000, 8)]
assert face.units_per_em == 2048, face.units_per_em
face.load_char('A')
assert face.glyph.outline.n_points > 5
''', 'an FTFace taken from a font and dropped before the face it shares',
     'the shared face is freed while in use')

seed('S31-lazy-positions', 'C31', [(
    'svgpy/harfbuzz.py',
    "        self.x_advance = hb_glyph_position.x_advance\n"
    "        self.y_advance = hb_glyph_position.y_advance\n"
    "        self.x_offset = hb_glyph_position.x_offset\n"
    "        self.y_offset = hb_glyph_position.y_offset\n",
    "        self._position = hb_glyph_position\n\n"
    "    def __getattr__(self, name):\n"
    "        return getattr(self.__dict__['_position'], name)\n")],
     PERTURBED + '''
from svgpy.freetype import FreeType, FTFace
from svgpy.harfbuzz import HBBuffer, HBFTFont
face = FTFace.new_face(SANS)
face.select_charmap(FreeType.FT_ENCODING_UNICODE)
face.set_pixel_sizes(0, 20)
font = HBFTFont.create(face)


def places():
    buf = HBBuffer.create()
    buf.add_utf8('AV')
    buf.guess_segment_properties()
    buf.shape(font)
    return buf.get_glyph_positions()


got = places()
junk = [bytearray(b'x') * n for n in range(16, 4000, 8)]
assert [0 < p.x_advance < 2000 for p in got] == [True, True], got
''', 'glyph positions used after their buffer is dropped',
     'they are read from freed memory')

seed('S32-set-spelling', 'C32', [(
    'svgpy/utils.py',
    "        del self._data[self._keys[_key]]\n"
    "        del self._keys[_key]\n",
    "        del self._data[self._keys[_key]]\n")], '''
from svgpy.utils import CaseInsensitiveMapping
m = CaseInsensitiveMapping({'Ab': 1})
m.pop('AB')
assert 'ab' not in m and len(m) == 0
''', 'a key looked for after it has been deleted', 'it is still found')

seed('S32-important', 'C32', [(
    'svgpy/utils.py',
    "        if (split_important(style_map.get(name, ''))[1]\n"
    "                and not split_important(value)[1]):\n",
    "        if split_important(style_map.get(name, ''))[1]:\n")], '''
from svgpy.utils import style_to_dict
d = style_to_dict('fill: red !important; fill: lime !important')
assert d['fill'] == 'lime !important', d
''', 'two important declarations of one property',
     'the first one wins instead of the last')

seed('S32-quoted-parameter', 'C32', [(
    'svgpy/utils.py',
    "        items = parameter.split('=', 1)\n",
    "        items = parameter.split('=')\n")], '''
from svgpy.utils import get_content_type
t = get_content_type({'Content-Type': 'a/b; c=d=e'})
assert t.get('c') == 'd=e', t
''', 'a media type parameter whose value has an equals sign',
     'the parameter is lost')
