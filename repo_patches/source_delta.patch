From c00e8cbe222b86e9858751aac60dcaf5d5e7562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 001/119] fix: DOMRect.transform() loses the right/bottom edge
 under rotation

---
 svgpy/geometry/rect.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 4caf1a3..f15bb45 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -536,11 +536,10 @@ class DOMRect(DOMRectReadOnly):
         x2, y2 = matrix.transform_point(x2, y2)
         x3, y3 = matrix.transform_point(x3, y3)
         x4, y4 = matrix.transform_point(x4, y4)
-        x1 = min(x1, x2, x3, x4)
-        y1 = min(y1, y2, y3, y4)
-        x3 = max(x1, x2, x3, x4)
-        y3 = max(y1, y2, y3, y4)
-        self.set_coords(x1, y1, x3, y3)
+        self.set_coords(min(x1, x2, x3, x4),
+                        min(y1, y2, y3, y4),
+                        max(x1, x2, x3, x4),
+                        max(y1, y2, y3, y4))
         return self
 
     def translate_self(self, dx, dy):
-- 
2.43.0


From 49479bed8ec3c176812179e79c64fc43c9e37eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 002/119] fix: PathParser.parse() drops a closepath that is
 directly followed by a command

---
 svgpy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 8bccd28..0beaef3 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1173,7 +1173,7 @@ class PathParser(object):
     # See https://svgwg.org/specs/paths/#PathDataCatmullRomCommand
     RE_PATH_SEGMENT_LIST = re.compile(
         r"((?P<type>[AaBbCcHhLlMmQqSsTtVvZz])\s*"
-        r"(?P<values>([^AaBbCcHhLlMmQqSsTtVvZz]|$)+))")
+        r"(?P<values>[^AaBbCcHhLlMmQqSsTtVvZz]*))")
 
     RE_NUMBER_SEQUENCE = re.compile(
         r"(?P<number>[+-]?"
-- 
2.43.0


From e88a8989f1c7d839a971eb9f127fc850b65ab9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 003/119] fix: PathParser.parse() requires separators around
 the arc flags

---
 svgpy/path.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 0beaef3..00e2683 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1180,6 +1180,8 @@ class PathParser(object):
         r"((\d+(\.\d*)?([Ee][+-]?\d+)?)|(\d*\.\d+([Ee][+-]?\d+)?)))"
         r"(\s*,\s*|\s+)?")
 
+    RE_ARC_FLAG = re.compile(r"(?P<number>[01])(\s*,\s*|\s+)?")
+
     PATH_SEGMENT_TYPES = 'AaBbCcHhLlMmQqSsTtVvZz'
 
     _PATH_SEGMENT_VALUES_LENGTH = {
@@ -1484,12 +1486,22 @@ class PathParser(object):
                 values = it.group('values').strip()
                 args_sequence = list()
                 if len(values) > 0:
-                    number_sequence = list()
-                    for it2 in PathParser.RE_NUMBER_SEQUENCE.finditer(values):
-                        number = it2.group('number')
-                        number_sequence.append(float(number))
                     argc = PathParser._PATH_SEGMENT_VALUES_LENGTH.get(
                         path_type.upper())
+                    number_sequence = list()
+                    pos = 0
+                    while True:
+                        if (path_type in 'Aa'
+                                and len(number_sequence) % argc in (3, 4)):
+                            # the separators around the arc flags are optional
+                            pattern = PathParser.RE_ARC_FLAG
+                        else:
+                            pattern = PathParser.RE_NUMBER_SEQUENCE
+                        it2 = pattern.search(values, pos)
+                        if it2 is None:
+                            break
+                        number_sequence.append(float(it2.group('number')))
+                        pos = it2.end()
                     args_sequence = zip(*[iter(number_sequence)] * argc)
                 for args in iter(args_sequence):
                     path_data.append(SVGPathSegment(path_type, *args))
-- 
2.43.0


From fe6698c5ba0f21ee8e7cdf19e3289d319d2d23f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 004/119] fix: PathParser.tostring() drops the second of two
 closepaths

---
 svgpy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 00e2683..c672dd7 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1518,7 +1518,7 @@ class PathParser(object):
                     type(path_segment)))
             drawto_command = path_segment.tostring()
             path_type = path_segment.type
-            if last_path_type == path_type:
+            if last_path_type == path_type and len(drawto_command) > 1:
                 drawto_command = drawto_command[1:]
             svg_path.append(drawto_command)
             last_path_type = path_type
-- 
2.43.0


From 0144b32ac23ac87f87f80ec102f9d1558f174b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 005/119] fix: DOMRect union and containment reduce a
 zero-width or zero-height rectangle to a point

---
 svgpy/geometry/rect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index f15bb45..ac6eb08 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -148,7 +148,7 @@ class DOMRectReadOnly(object):
         """
         if not self.isvalid():
             return False
-        if width <= 0 or height <= 0:
+        if width < 0 or height < 0:
             if self.left <= x <= self.right and self.top <= y <= self.bottom:
                 return True
             return False
@@ -594,7 +594,7 @@ class DOMRect(DOMRectReadOnly):
         elif y > y2:
             y2 = y
 
-        if width > 0 and height > 0:
+        if width >= 0 and height >= 0:
             right = x + width
             bottom = y + height
             if x2 is None or right > x2:
-- 
2.43.0


From 6afa234025d79184c3a2720558e4e0e6789d36e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 006/119] fix: DOMRect.transform() ignores zero-width and
 zero-height rectangles

---
 svgpy/geometry/rect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index ac6eb08..54c144d 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -524,7 +524,8 @@ class DOMRect(DOMRectReadOnly):
         Returns:
             DOMRect: Returns itself.
         """
-        if not self.isvalid():
+        if (self._x is None or self._y is None
+                or self._width < 0 or self._height < 0):
             return self
         # clockwise
         x1, y1, x3, y3 = self.get_coords()
-- 
2.43.0


From cb73f953aa69249af405057ba905db8e0054746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 007/119] fix: shorthand curves reflect a control point only
 after a curve of the same degree

---
 svgpy/path.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index c672dd7..a7e0b7a 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -838,14 +838,7 @@ class PathSegment(object):
         if path_type in 'CS':
             # cubic bezier curveto: 'C'|'c' (x1,y1 x2,y2 x,y)+
             # smooth cubic bezier curveto: 'S'|'s' (x2,y2 x,y)+
-            if path_type == 'C':
-                _, _, x2, y2, x, y = abs_path_segment.values
-            elif (path_type == 'S'
-                  and last_path_type is not None and last_path_type in 'CcSs'):
-                x2, y2, x, y = abs_path_segment.values
-            else:
-                x2, y2 = cpx, cpy
-                x, y = abs_path_segment.end
+            x2, y2, x, y = abs_path_segment.values[-4:]
             next_x1 = 2 * x - x2
             next_y1 = 2 * y - y2
             return next_x1, next_y1
@@ -866,6 +859,17 @@ class PathSegment(object):
             next_y1 = 2 * y - y1
             return next_x1, next_y1
 
+    @staticmethod
+    def has_no_control_point(path_type, last_path_type):
+        """Returns True if the shorthand/smooth curve does not follow a curve
+        of the same degree. Its first control point is the current point.
+        """
+        if path_type in 'Ss':
+            return last_path_type is None or last_path_type not in 'CcSs'
+        elif path_type in 'Tt':
+            return last_path_type is None or last_path_type not in 'QqTt'
+        return False
+
     @staticmethod
     def normalize(path_segment, cpx, cpy, bearing, **extra):
         """Converts to the base set of absolute path segments ('M', 'L', 'C' or
@@ -1355,6 +1359,8 @@ class PathParser(object):
                 # moveto: 'M'|'m' (x,y)+
                 # quadratic bezier curveto: 'Q'|'q' (x1,y1 x,y)+
                 # vertical lineto: 'V'|'v' y+
+                if PathSegment.has_no_control_point(command, last_command):
+                    x1, y1 = cpx, cpy
                 old_cpx, old_cpy = cpx, cpy
                 length, (cpx, cpy) = PathSegment.get_length(path_segment,
                                                             cpx, cpy, bearing,
@@ -1435,6 +1441,8 @@ class PathParser(object):
                 # smooth quadratic bezier curveto: 'T'|'t' (x,y)+
                 # vertical lineto: 'V'|'v' y+
                 # pathclose: 'Z'|'z'
+                if PathSegment.has_no_control_point(command, last_command):
+                    x1, y1 = cpx, cpy
                 normalized = PathSegment.normalize(path_segment,
                                                    cpx, cpy, bearing,
                                                    x1=x1, y1=y1)
-- 
2.43.0


From 6bc69e836073e21839e06e9650b145ba181a8fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 008/119] fix: PathParser.normalize() raises IndexError for an
 arc that ends where it starts

---
 svgpy/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/path.py b/svgpy/path.py
index a7e0b7a..4fb678f 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1446,6 +1446,10 @@ class PathParser(object):
                 normalized = PathSegment.normalize(path_segment,
                                                    cpx, cpy, bearing,
                                                    x1=x1, y1=y1)
+                if len(normalized) == 0:
+                    # start point and end point of the arc are identical
+                    last_command = command
+                    continue
                 normalized_path_data.extend(normalized)
 
                 # control point for next shorthand/smooth curve
-- 
2.43.0


From ac94c983c8a4eb6b86845845d4449e931dd42522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 009/119] fix: PathParser.transform() loses the current point
 after an absolute H or V

---
 svgpy/path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 4fb678f..4290255 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1572,7 +1572,10 @@ class PathParser(object):
                                                               bearing)
                 else:
                     abs_path_segment = path_segment
-                cpx, cpy = abs_path_segment.end
+                x, y = abs_path_segment.end
+                # 'H' and 'V' keep one of the coordinates
+                cpx = cpx if x is None else x
+                cpy = cpy if y is None else y
                 if ((command in 'Mm'
                      and (last_command is None or last_command not in 'Mm'))
                         or (start_x is None or start_y is None)):
-- 
2.43.0


From 1466be2957a68e75dd405f3deedcc8d956f48473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 010/119] fix: PathParser.transform() does not transform the
 radii and direction of arcs

---
 svgpy/path.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 4290255..807157d 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -553,6 +553,26 @@ class SVGPathSegment(object):
 class PathSegment(object):
     """Utility class for SVG path segment."""
 
+    @staticmethod
+    def _transform_radii(rx, ry, x_axis_rotation, matrix):
+        """Returns the radii and the rotation of the transformed ellipse."""
+        r = math.radians(x_axis_rotation)
+        axes = np.array([[matrix.a, matrix.c], [matrix.b, matrix.d]]).dot(
+            np.array([[abs(rx) * math.cos(r), -abs(ry) * math.sin(r)],
+                      [abs(rx) * math.sin(r), abs(ry) * math.cos(r)]]))
+        new_rx, new_ry = np.hypot(axes[0], axes[1]).tolist()
+        dot = axes[0, 0] * axes[0, 1] + axes[1, 0] * axes[1, 1]
+        if abs(dot) > 1e-9 * new_rx * new_ry:
+            # the axes of the ellipse are no longer orthogonal
+            u, radii, _ = np.linalg.svd(axes)
+            new_rx, new_ry = radii.tolist()
+            axes = u
+        if math.isclose(new_rx, new_ry, rel_tol=1e-9):
+            return new_rx, new_ry, x_axis_rotation
+        if new_rx > 0:
+            x_axis_rotation = math.degrees(math.atan2(axes[1, 0], axes[0, 0]))
+        return new_rx, new_ry, x_axis_rotation
+
     @staticmethod
     def get_bbox(path_segment, cpx, cpy, bearing, options=None, **extra):
         """Returns the bounding box of the path segment.
@@ -1134,7 +1154,11 @@ class PathSegment(object):
             # 'A'|'a' (rx,ry x-axis-rotation large-arc-flag sweep-flag x,y)+
             rx, ry, x_axis_rotation, fa, fs, x, y = abs_path_segment.values
             x, y = matrix.transform_point(x, y)
-            # x_axis_rotation += matrix.get_angle()
+            rx, ry, x_axis_rotation = PathSegment._transform_radii(
+                rx, ry, x_axis_rotation, matrix)
+            if matrix.a * matrix.d - matrix.b * matrix.c < 0:
+                # the reflection inverts the direction of the arc
+                fs = 1 if fs == 0 else 0
             return SVGPathSegment('A', rx, ry, x_axis_rotation, fa, fs, x, y)
         elif path_type == 'C':
             # 'C'|'c' (x1,y1 x2,y2 x,y)+
-- 
2.43.0


From 44887c0c74f87f30291a417047b9f14d672ae8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 011/119] fix: PathParser.transform() lets a shorthand curve
 after a bearing reflect the previous control point

---
 svgpy/path.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 807157d..cc6288d 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1587,10 +1587,20 @@ class PathParser(object):
                 # smooth cubic bezier curveto: 'S'|'s' (x2,y2 x,y)+
                 # smooth quadratic bezier curveto: 'T'|'t' (x,y)+
                 # vertical lineto: 'V'|'v' y+
+                if (command in 'SsTt'
+                        and last_command is not None
+                        and last_command in 'Bb'):
+                    # the bearing command is removed: the shorthand curve
+                    # must not reflect the control point of the curve before
+                    path_segment = PathSegment.toabsolute(path_segment,
+                                                          cpx, cpy, bearing)
+                    path_segment = SVGPathSegment(
+                        'C' if command in 'Ss' else 'Q',
+                        cpx, cpy, *path_segment.values)
                 transformed = PathSegment.transform(path_segment,
                                                     cpx, cpy, bearing, matrix)
                 transformed_path_data.append(transformed)
-                if command.islower():
+                if path_segment.isrelative():
                     abs_path_segment = PathSegment.toabsolute(path_segment,
                                                               cpx, cpy,
                                                               bearing)
-- 
2.43.0


From fc8d8a888a9cc50aae4d4c64fafb069dc9c3882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 012/119] fix: bounding box of quadratic curves misses the
 extremum by cancellation

---
 svgpy/path.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index cc6288d..9d29ef2 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -128,11 +128,6 @@ class CubicBezierCurve(object):
 
     def get_roots(self):
         # See http://floris.briolas.nl/floris/2009/10/bounding-box-of-cubic-bezier/
-        def _solve(_a, _b, _c, _s):
-            # {-b + sqrt(b^2 - 4ac) / (2a)} or {-b - sqrt(b^2 - 4ac) / (2a)}
-            s = 1 if _s else -1
-            return (-_b + s * math.sqrt(_b ** 2 - 4 * _a * _c)) / (2 * _a)
-
         roots = list()
         coefficients = self.get_coefficients()
         a = 3 * coefficients[0]
@@ -142,13 +137,13 @@ class CubicBezierCurve(object):
             d = b[i] ** 2 - 4 * a[i] * c[i]
             if d < 0:
                 continue
-            if a[i] == 0 and b[i] != 0:
-                roots.append(-c[i] / b[i])
-            elif d == 0 and a[i] != 0:
-                roots.append(_solve(a[i], b[i], c[i], True))
-            elif a[i] != 0:
-                roots.append(_solve(a[i], b[i], c[i], True))
-                roots.append(_solve(a[i], b[i], c[i], False))
+            # avoids the cancellation in -b + sqrt(d): 'a' is nearly zero for
+            # the elevated quadratic curves
+            q = -(b[i] + math.copysign(math.sqrt(d), b[i])) / 2
+            if a[i] != 0:
+                roots.append(q / a[i])
+            if q != 0:
+                roots.append(c[i] / q)
         return filter(lambda t: 0 <= t <= 1, roots)
 
     def point(self, t):
-- 
2.43.0


From 6ad49641af2be7a7dbe5945e0d46c8019cffeb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 013/119] fix: Element.text_content setter removes only the
 first child

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c00e78e..b4e4590 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1540,7 +1540,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
     @text_content.setter
     def text_content(self, text):
-        for child in iter(self):
+        for child in self.child_nodes:
             self.remove(child)
         self.text = text
 
-- 
2.43.0


From 67d09a3927b7ce2a062ab269f1d83bde10531a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 014/119] fix: Element.text_content drops the text after a
 comment or processing instruction

---
 svgpy/dom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index b4e4590..7ef8584 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1553,6 +1553,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
         for child in iter(element):
             if child.node_type != Node.ELEMENT_NODE:
+                if child.tail is not None:
+                    chars.append(child.tail)
                 continue
             local_name = child.local_name
             if local_name in Element.TEXT_CONTENT_ELEMENTS:
-- 
2.43.0


From 5572f9a1985adde947614add2ae07d207e11ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 015/119] fix: Element.extend() appends nothing when given an
 iterator

---
 svgpy/dom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 7ef8584..f0a724c 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1735,8 +1735,10 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Extends the current children by the nodes in the iterable.
         """
         owner_document = self.owner_document
+        nodes = list(nodes)
         for node in nodes:
             self.ensure_pre_insertion_validity(node)
+        for node in nodes:
             node.attach_document(owner_document)
         super().extend(nodes)
 
-- 
2.43.0


From 0999d6b960c1c1914bbdcc688c15c17fc6384003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 016/119] fix: Element.append() inserts a leading string before
 the existing children

---
 svgpy/dom.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index f0a724c..8d159af 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1601,24 +1601,19 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
-        data = ''
-        target = self
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
         for node in nodes:
             if isinstance(node, str):
-                data += node
+                last_child = self.last_child
+                if last_child is None:
+                    node_append_data(self, node, tail=False)
+                else:
+                    node_append_data(last_child, node)
                 continue
-            self.ensure_pre_insertion_validity(node)
-            if len(data) > 0:
-                tail = False if target == self else True
-                node_append_data(target, data, tail)
-                data = ''
             node.attach_document(self.owner_document)
             super().append(node)
-            target = node
-
-        if len(data) > 0:
-            tail = False if target == self else True
-            node_append_data(target, data, tail)
 
     def append_child(self, node):
         """Adds a sub-node to the end of this node.
-- 
2.43.0


From a075ac7a48578ad25d8a99c16cdc7c3cba5ae27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 017/119] fix: Element.prepend() reverses nodes in an empty
 element and loses text when a node is rejected

---
 svgpy/dom.py | 38 ++++++++------------------------------
 1 file changed, 8 insertions(+), 30 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 8d159af..3fc0ddc 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -77,17 +77,6 @@ def node_insert_before(parent, node, child=None):
     return node
 
 
-def node_prepend_data(node, data, tail=True):
-    if tail:
-        text = '' if node.tail is None else node.tail
-        text = data + text
-        node.tail = text
-    else:
-        text = '' if node.text is None else node.text
-        text = data + text
-        node.text = text
-
-
 class DOMStringMap(MutableMapping):
     """Represents the [HTML] DOMStringMap."""
 
@@ -2197,34 +2186,23 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
-        first_child = self.first_child
-        data = ''
-        target = self
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
         text = '' if self.text is None else self.text
         if len(text) > 0:
             self.text = ''
+        target = self
         for node in nodes:
             if isinstance(node, str):
-                data += node
+                node_append_data(target, node, tail=target is not self)
                 continue
-            self.ensure_pre_insertion_validity(node)
-            if len(data) > 0:
-                tail = False if target == self else True
-                node_prepend_data(target, data, tail)
-                data = ''
             node.attach_document(self.owner_document)
-            if first_child is None:
-                super().append(node)
-                first_child = node
-            else:
-                first_child.addprevious(node)
+            index = 0 if target is self else self.index(target) + 1
+            super().insert(index, node)
             target = node
-
-        tail = False if target == self else True
-        if len(data) > 0:
-            node_prepend_data(target, data, tail)
         if len(text) > 0:
-            node_append_data(target, text, tail)
+            node_append_data(target, text, tail=target is not self)
 
     def query_selector_all(self, selectors):
         nsmap = self.nsmap.copy()
-- 
2.43.0


From 21ec96902ab3fea0c9f973c4379b9c6046c59e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 018/119] fix: a rejected insertion of an ancestor node leaves
 the tree partially modified

---
 svgpy/dom.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 3fc0ddc..1dcbcbe 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -697,6 +697,12 @@ class Node(ABC):
                 "This node type '{}' cannot insert inside nodes of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        ancestor = self
+        while ancestor is not None:
+            if ancestor is node:
+                raise HierarchyRequestError(
+                    'The node to be inserted is an ancestor of this node')
+            ancestor = ancestor.parent_node
         return True
 
     def ensure_pre_remove_validity(self, child):
-- 
2.43.0


From 7b3d65d348e0afd39f24127d90e823f33c7a187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 019/119] fix: get_root_node() of a removed node returns the
 root of its former tree

---
 svgpy/dom.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 1dcbcbe..5d37005 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -56,6 +56,21 @@ def node_append_data(node, data, tail=True):
         node.text = text
 
 
+def node_get_root(node):
+    root = node
+    parent = node.getparent()
+    while parent is not None:
+        root = parent
+        parent = root.getparent()
+    if root.node_type != Node.ELEMENT_NODE:
+        # a sibling of the root element, or a removed node
+        for preceding in (False, True):
+            for sibling in root.itersiblings(preceding=preceding):
+                if sibling.node_type == Node.ELEMENT_NODE:
+                    return sibling
+    return root
+
+
 def node_insert_before(parent, node, child=None):
     """Inserts a node into a parent before a child.
 
@@ -1262,10 +1277,7 @@ class Comment(etree.CommentBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.CommentBase.insert().
@@ -2102,10 +2114,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def has_attribute(self, qualified_name):
         """Returns True if an attribute with the specified name exists;
@@ -2552,10 +2561,7 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.PIBase.insert().
-- 
2.43.0


From 44c386fe70b5ce443bcfb96cbcc0492ea96f532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 020/119] fix: rejected addnext()/addprevious() changes the
 owner document of the node

---
 svgpy/dom.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 5d37005..2b73419 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1228,8 +1228,9 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
+        owner_document = self.owner_document
         super().addnext(node)
+        node.attach_document(owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.CommentBase.addprevious().
@@ -1243,8 +1244,9 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
+        owner_document = self.owner_document
         super().addprevious(node)
+        node.attach_document(owner_document)
 
     def append(self, node):
         """Reimplemented from lxml.etree.CommentBase.append().
@@ -1584,8 +1586,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
+        owner_document = self.owner_document
         super().addnext(node)
+        node.attach_document(owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.ElementBase.addprevious().
@@ -1599,8 +1602,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
+        owner_document = self.owner_document
         super().addprevious(node)
+        node.attach_document(owner_document)
 
     def append(self, *nodes):
         """Inserts sub-nodes after the last child node.
@@ -2512,8 +2516,9 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
+        owner_document = self.owner_document
         super().addnext(node)
+        node.attach_document(owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.PIBase.addprevious().
@@ -2527,8 +2532,9 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
+        owner_document = self.owner_document
         super().addprevious(node)
+        node.attach_document(owner_document)
 
     def append(self, node):
         """Reimplemented from lxml.etree.PIBase.append().
-- 
2.43.0


From 32137b98f44f8e3b5c8c6d62f2291afa14cb210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 021/119] fix: dataset keys do not match the attribute names
 for digits, leading capitals and non-ASCII letters

---
 svgpy/dom.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 2b73419..94022b6 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -135,33 +135,17 @@ class DOMStringMap(MutableMapping):
         self._owner_element.attributes[name] = value
 
     def _convert_key(self, name):
-        _name = name[len(self._prefix):]
-        length = len(_name)
-        key = ''
-        start = 0
-        while start < length:
-            end = _name.find('-', start)
-            if end == -1:
-                end = length
-            if start == end:
-                key += '-'
-            else:
-                part = _name[start:end]
-                if start != 0:
-                    part = part.capitalize()
-                key += part
-            start = end + 1
-        return key
+        return re.sub(r'-([a-z])',
+                      lambda matched: matched.group(1).upper(),
+                      name[len(self._prefix):])
 
     def _convert_name(self, key):
         if _RE_DOM_STRING_MAP_INVALID_SYNTAX.search(key) is not None:
             raise ValueError('Invalid syntax: ' + repr(key))
-        name = self._prefix
-        for ch in key:
-            if ch.isupper():
-                name += '-'
-            name += ch
-        return name.lower()
+        return self._prefix + re.sub(
+            r'[A-Z]',
+            lambda matched: '-' + matched.group().lower(),
+            key)
 
     def _validate_name(self, name):
         _ = self
@@ -173,7 +157,8 @@ class DOMStringMap(MutableMapping):
     def keys(self):
         keys = [self._convert_key(name)
                 for name in self._owner_element.attributes
-                if name.startswith(self._prefix) and name.islower()]
+                if name.startswith(self._prefix)
+                and re.search(r'[A-Z]', name) is None]
         return KeysView(keys)
 
 
-- 
2.43.0


From 7eca84cf9ac7d2acf3ff2e478dd555e497bfb5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 022/119] fix: emptying a missing dataset entry raises KeyError

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 94022b6..1a20298 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -126,7 +126,7 @@ class DOMStringMap(MutableMapping):
 
     def __setitem__(self, key, value):
         if value is None or len(value) == 0:
-            del self[key]
+            self.pop(key, None)
             return
         name = self._convert_name(key)
         if not self._validate_name(name):
-- 
2.43.0


From 330eb831874c48f3fd33465f7876f65d441b65d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 023/119] fix: slice assignment to a DOMTokenList loses tokens
 and modifies the caller's list

---
 svgpy/dom.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 1a20298..631dbf1 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -196,11 +196,10 @@ class DOMTokenList(MutableSequence):
             if value in self._tokens:
                 return
         elif isinstance(value, list):
-            for token in list(value):
-                if token in self._tokens:
-                    value.remove(token)
-            if len(value) == 0:
-                return
+            tokens = list(self._tokens)
+            del tokens[index]
+            value = [token for token in dict.fromkeys(value)
+                     if token not in tokens]
         else:
             raise TypeError('Expected str or list[str], got {}'.format(
                 type(value)))
-- 
2.43.0


From 0ec85016c738635caf40c4919f111e3354ac9d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 024/119] fix: DOMTokenList keeps duplicate tokens and splits
 tokens at non-ASCII whitespace

---
 svgpy/dom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 631dbf1..03086c5 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -32,6 +32,8 @@ from .utils import QualifiedName, get_elements_by_class_name, \
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
 
+_RE_TOKEN = re.compile(r'[^\t\n\f\r ]+')
+
 # https://www.w3.org/TR/xml/#NT-Name
 _RE_XML_NAME = re.compile(
     r"^(:|[A-Z]|_|[a-z]|[\xc0-\xd6]|[\xd8-\xf6]"
@@ -211,7 +213,7 @@ class DOMTokenList(MutableSequence):
     def _tokens(self):
         """tuple[str, ...]: The token set."""
         value = self._owner_element.get(self._local_name, '')
-        tokens = tuple(value.split())
+        tokens = tuple(dict.fromkeys(_RE_TOKEN.findall(value)))
         return tokens
 
     @property
-- 
2.43.0


From 1febacf546562d1c305ff9e185f1952f99cb58af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 025/119] fix: DOMTokenList.reverse() does nothing

---
 svgpy/dom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 03086c5..817e7e5 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -317,6 +317,10 @@ class DOMTokenList(MutableSequence):
         self[index] = new_token
         return True
 
+    def reverse(self):
+        """Reverses the order of the tokens in this token set."""
+        self._set_tokens(self._tokens[::-1])
+
     def toggle(self, token, force=None):
         """If `force` is not given, "toggles" `token`, removing it if it’s
         present and adding it if it’s not present. If `force` is True, adds
-- 
2.43.0


From b731c1de254d0030466025b2401c4f95781c8803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 026/119] fix: remove_attribute_node() removes an attribute of
 the same name for an attribute of another element

---
 svgpy/dom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 817e7e5..01e3fb9 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2252,6 +2252,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Returns:
             Attr: An attribute object to be removed.
         """
+        if attr.owner_element is not self:
+            raise KeyError(attr.name)
         attr = self.attributes.remove_named_item_ns(attr.namespace_uri,
                                                     attr.local_name)
         if attr is not None:
-- 
2.43.0


From 93c40ed2bc7d32b2e1bbac1bfcb83014465fe51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 027/119] fix: style attribute is split inside url(), strings
 and comments

---
 svgpy/utils.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index a568c28..7658bde 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -22,6 +22,8 @@ from pathlib import PurePath
 from urllib.parse import unquote
 from urllib.request import urlopen
 
+import tinycss2
+
 from .exception import InvalidCharacterError, NamespaceError
 from .url import Location, URL
 
@@ -246,13 +248,28 @@ def style_to_dict(text):
     Returns:
         OrderedDict: A dictionary.
     """
+    style_map = OrderedDict()
     if text is None or len(text.strip()) == 0:
-        return OrderedDict()
-    items = [x.split(':') for x in iter(text.strip().split(';'))]
-    items = [x for x in items if len(x) == 2]
-    return OrderedDict(
-        (key.strip(), value.strip()) for key, value in iter(items)
-    )
+        return style_map
+    declarations = [[]]
+    for node in tinycss2.parse_component_value_list(text, skip_comments=True):
+        if node.type == 'literal' and node.value == ';':
+            declarations.append([])
+        else:
+            declarations[-1].append(node)
+    for nodes in declarations:
+        index = next((i for i, node in enumerate(nodes)
+                      if node.type == 'literal' and node.value == ':'), -1)
+        if index < 0 or any(node.type == 'error' for node in nodes):
+            continue
+        name = ''.join(node.serialize() for node in nodes[:index]).strip()
+        value = tinycss2.serialize(nodes[index + 1:]).strip()
+        if len(name.split()) != 1 or len(value) == 0:
+            continue
+        if not name.startswith('--'):
+            name = name.lower()
+        style_map[name] = value
+    return style_map
 
 
 class CaseInsensitiveMapping(MutableMapping):
-- 
2.43.0


From f82e3bb08eda34aec93ae7be633309e4674b5a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 028/119] fix: inline declarations removed from the style
 attribute stay in the declaration block

---
 svgpy/css/__init__.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ecd44f2..aa290c0 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -26,7 +26,8 @@ from .longhands import Longhand
 from .props import PropertyDescriptor, PropertySyntax, \
     css_color_keyword_set, css_property_descriptor_map, css_wide_keyword_set
 from .screen import Screen, ScreenOrientation
-from .shorthands import Shorthand, font_sub_property_list
+from .shorthands import Shorthand, font_sub_property_list, \
+    get_longhand_list
 from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     CSSMathInvert, CSSMathMax, CSSMathMin, CSSMathNegate, CSSMathOperator, \
     CSSMathProduct, CSSMathSum, CSSMathValue, CSSNumericBaseType, \
@@ -1310,6 +1311,7 @@ class CSSStyleDeclaration(MutableMapping):
         self._owner_node = owner_node
         self._inline_style = inline_style
         self._readonly = False
+        self._style_text = None  # last known 'style' attribute
         if rule is not None:
             self._css_text = normalize_text(tinycss2.serialize(rule.content))
             self._parse_content(rule.content)
@@ -1374,10 +1376,13 @@ class CSSStyleDeclaration(MutableMapping):
             return self._property_map
 
         # 'style' attribute => CSS declarations
-        attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
-        style = '' if attr is None else attr.value
-        property_map = style_to_dict(style)
         declarations = self._property_map
+        style = self._get_style_attribute()
+        if style == self._style_text:
+            return declarations
+        self._style_text = style
+        property_map = style_to_dict(style)
+        self._remove_stale_declarations(declarations, property_map)
         for property_name in declarations:
             if Longhand.is_longhand(property_name):
                 shorthand_names = Longhand.shorthands(property_name)
@@ -1416,6 +1421,10 @@ class CSSStyleDeclaration(MutableMapping):
 
         return declarations
 
+    def _get_style_attribute(self):
+        attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
+        return '' if attr is None else attr.value
+
     def _parse_content(self, content):
         nodes = tinycss2.parse_declaration_list(content,
                                                 skip_comments=True,
@@ -1427,6 +1436,19 @@ class CSSStyleDeclaration(MutableMapping):
                 priority = 'important' if node.important else ''
                 self.set_property(property_name, value, priority)
 
+    @staticmethod
+    def _remove_stale_declarations(declarations, property_map):
+        # remove the declarations the 'style' attribute no longer includes
+        names = set(property_map)
+        for property_name in property_map:
+            names.update(get_longhand_list(property_name))
+        if 'font' in property_map:
+            names.update(font_sub_property_list)
+        if 'mask' in property_map:
+            names.update(get_longhand_list('mask-border'))
+        for property_name in set(declarations) - names:
+            del declarations[property_name]
+
     def _set_css_declaration(self, declarations, property_name,
                              component_list, priority):
         _ = self
@@ -1469,6 +1491,7 @@ class CSSStyleDeclaration(MutableMapping):
             return
         style = _StyleAttribute(declarations, self._owner_node)
         style.update(property_name, value)
+        self._style_text = self._get_style_attribute()
 
     def get_property_priority(self, property_name):
         """Returns the important flag of the first exact match of name in the
-- 
2.43.0


From 6637cb51547ef3fa7205505982b60d4953a21ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 029/119] fix: !important in a style attribute is read as a
 part of the value

---
 svgpy/css/__init__.py | 38 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index aa290c0..c696289 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -39,6 +39,7 @@ from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
     load, normalize_url, style_to_dict
 
 _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
+_RE_IMPORTANT = re.compile(r'\s*!\s*important$', re.IGNORECASE)
 
 
 def normalize_text(text):
@@ -1383,41 +1384,22 @@ class CSSStyleDeclaration(MutableMapping):
         self._style_text = style
         property_map = style_to_dict(style)
         self._remove_stale_declarations(declarations, property_map)
-        for property_name in declarations:
-            if Longhand.is_longhand(property_name):
-                shorthand_names = Longhand.shorthands(property_name)
-                for shorthand_name in shorthand_names:
-                    if shorthand_name in property_map:
-                        shorthand = Shorthand(declarations)
-                        result = shorthand.get_property_value(shorthand_name)
-                        if result == property_map[shorthand_name]:
-                            del property_map[shorthand_name]
-                            break
-            elif (property_name in property_map
-                  and declarations[property_name][0]
-                  == property_map[property_name]):
-                del property_map[property_name]
-
+        shorthand = Shorthand(declarations)
         for property_name, value in property_map.items():
-            needs_update = False
-            priority = ''
+            matched = _RE_IMPORTANT.search(value)
+            if matched:
+                value = value[:matched.start()]
             if Shorthand.is_shorthand(property_name):
-                shorthand = Shorthand(declarations)
                 result = shorthand.get_property_value(property_name)
-                if result != value:
-                    needs_update = True
-                    priority = shorthand.get_property_priority(property_name)
+                priority = shorthand.get_property_priority(property_name)
             else:
-                if property_name not in declarations:
-                    needs_update = True
-                elif value != declarations[property_name][0]:
-                    needs_update = True
-                    priority = declarations[property_name][1]
-            if needs_update:
+                result, priority = declarations.get(property_name, ('', ''))
+            if result != value or (matched and priority != 'important'):
                 self._set_property_internal(declarations,
                                             property_name,
                                             value,
-                                            priority)
+                                            'important' if matched
+                                            else priority)
 
         return declarations
 
-- 
2.43.0


From a5c581f8dbb02c6a88269f710bf19bfc01c11bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 030/119] fix: an important declaration is overridden by a
 normal one of the same block

---
 svgpy/css/__init__.py | 14 +++++++-------
 svgpy/dom.py          | 13 +++++++++----
 svgpy/utils.py        | 19 +++++++++++++++++++
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index c696289..342ba08 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -36,10 +36,9 @@ from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     StylePropertyMap, StylePropertyMapReadOnly, UnitType
 from ..exception import NoModificationAllowedError
 from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
-    load, normalize_url, style_to_dict
+    load, normalize_url, split_important, style_to_dict
 
 _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
-_RE_IMPORTANT = re.compile(r'\s*!\s*important$', re.IGNORECASE)
 
 
 def normalize_text(text):
@@ -1386,19 +1385,17 @@ class CSSStyleDeclaration(MutableMapping):
         self._remove_stale_declarations(declarations, property_map)
         shorthand = Shorthand(declarations)
         for property_name, value in property_map.items():
-            matched = _RE_IMPORTANT.search(value)
-            if matched:
-                value = value[:matched.start()]
+            value, important = split_important(value)
             if Shorthand.is_shorthand(property_name):
                 result = shorthand.get_property_value(property_name)
                 priority = shorthand.get_property_priority(property_name)
             else:
                 result, priority = declarations.get(property_name, ('', ''))
-            if result != value or (matched and priority != 'important'):
+            if result != value or (important and priority != 'important'):
                 self._set_property_internal(declarations,
                                             property_name,
                                             value,
-                                            'important' if matched
+                                            'important' if important
                                             else priority)
 
         return declarations
@@ -1416,6 +1413,9 @@ class CSSStyleDeclaration(MutableMapping):
                 property_name = node.name
                 value = tinycss2.serialize(node.value)
                 priority = 'important' if node.important else ''
+                if (not node.important
+                        and self.get_property_priority(property_name)):
+                    continue
                 self.set_property(property_name, value, priority)
 
     @staticmethod
diff --git a/svgpy/dom.py b/svgpy/dom.py
index 01e3fb9..650a9a5 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -27,7 +27,7 @@ from .style import get_css_rules, get_css_style, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
-    is_ascii_whitespace, style_to_dict
+    is_ascii_whitespace, split_important, style_to_dict
 
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
@@ -1997,10 +1997,15 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         while element is not None:
             css_style, css_style_important = get_css_style(element, css_rules)
             css_style.update(element.attrib)
-            _style = css_style.pop('style', None)
-            if _style is not None:
-                css_style.update(style_to_dict(_style))
+            _style = style_to_dict(css_style.pop('style', None))
+            _style_important = dict()
+            for key, value in _style.items():
+                value, important = split_important(value)
+                css_style[key] = value
+                if important:
+                    _style_important[key] = value
             css_style.update(css_style_important)
+            css_style.update(_style_important)
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
                 if value is not None and value not in ['inherit']:
diff --git a/svgpy/utils.py b/svgpy/utils.py
index 7658bde..12ef474 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -29,6 +29,8 @@ from .url import Location, URL
 
 _ASCII_WHITESPACE = '\t\n\f\r\x20'
 
+_RE_IMPORTANT = re.compile(r'\s*!\s*important$', re.IGNORECASE)
+
 _RE_QUALIFIED_NAME = re.compile(
     r'{(?P<namespace>[^}]*)}(?P<local_name>.*)')
 
@@ -240,6 +242,20 @@ def remove_quotes(src):
     return src
 
 
+def split_important(value):
+    """Splits '!important' from the value of a declaration.
+
+    Arguments:
+        value (str): The value of a declaration.
+    Returns:
+        tuple[str, bool]: The value and the important flag.
+    """
+    matched = _RE_IMPORTANT.search(value)
+    if matched is None:
+        return value, False
+    return value[:matched.start()], True
+
+
 def style_to_dict(text):
     """Converts the style attribute's value to a dictionary.
 
@@ -268,6 +284,9 @@ def style_to_dict(text):
             continue
         if not name.startswith('--'):
             name = name.lower()
+        if (split_important(style_map.get(name, ''))[1]
+                and not split_important(value)[1]):
+            continue
         style_map[name] = value
     return style_map
 
-- 
2.43.0


From 0240011ce3768a48ca46b10ff584c178cd7aef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:13 +0000
Subject: [PATCH 031/119] fix: a value including ';' or '!' injects
 declarations into the style attribute

---
 svgpy/css/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 342ba08..5031bb3 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1449,7 +1449,11 @@ class CSSStyleDeclaration(MutableMapping):
         component_list = tinycss2.parse_component_value_list(
             value,
             skip_comments=True)
-        if len(component_list) == 0:
+        if (len(component_list) == 0
+                or any(component.type == 'error'
+                       or (component.type == 'literal'
+                           and component.value in ('!', ';'))
+                       for component in component_list)):
             return False, ''
         result = ''
         if Shorthand.is_shorthand(property_name):
-- 
2.43.0


From 59c8e6a9e97f9b0848434844bceaac8b89e052d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 032/119] fix: a declaration without a value removes an earlier
 declaration of the rule

---
 svgpy/css/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 5031bb3..9d65923 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1412,6 +1412,8 @@ class CSSStyleDeclaration(MutableMapping):
             if node.type == 'declaration':
                 property_name = node.name
                 value = tinycss2.serialize(node.value)
+                if len(value.strip()) == 0:
+                    continue
                 priority = 'important' if node.important else ''
                 if (not node.important
                         and self.get_property_priority(property_name)):
-- 
2.43.0


From a1944a0b8e9130537dc79fe7c453bfd6789aaf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:00 +0000
Subject: [PATCH 033/119] fix: setting or removing 'font' leaves font-variant
 longhands in the style attribute

---
 svgpy/css/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 9d65923..ceb00e9 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -68,7 +68,8 @@ class _StyleAttribute(object):
             # shorthand
             # remove shorthand's sub-properties
             longhand_names = Shorthand.longhands(property_name)
-            for longhand_name in longhand_names:
+            for longhand_name in (set(longhand_names)
+                                  | set(get_longhand_list(property_name))):
                 if longhand_name in style_map:
                     updated = True
                     del style_map[longhand_name]
@@ -169,7 +170,8 @@ class _StyleAttribute(object):
             updated = True
             style_map[property_name] = result
             longhand_names = Shorthand.longhands(property_name)
-            for longhand_name in longhand_names:
+            for longhand_name in (set(longhand_names)
+                                  | set(get_longhand_list(property_name))):
                 if longhand_name in style_map:
                     del style_map[longhand_name]
 
-- 
2.43.0


From 3d589e0e0a9145e49cfea98bf8531c3a5588ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:59 +0000
Subject: [PATCH 034/119] fix: 'mask' drops the difference of mask-origin and
 mask-clip

---
 svgpy/css/shorthands.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 3886b35..5d7d0c9 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -690,6 +690,11 @@ class MaskShorthand(ShorthandProperty):
         if mask_position == 'initial' and mask_size != 'initial':
             # <position> [ / <bg-size> ]?
             return ''
+        elif ((mask_origin == 'initial'
+               and mask_clip not in ('initial', 'no-clip'))
+              or (mask_origin != 'initial' and mask_clip == 'initial')):
+            # one <geometry-box> value sets both of them
+            return ''
 
         values = list()
         for property_name in shorthand_property_map['mask']:
-- 
2.43.0


From 43aa06c9747c02e18fb0cfed09066c2c45a95da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 035/119] fix: an invalid value of 'overflow' raises KeyError

---
 svgpy/css/shorthands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 5d7d0c9..b92c44f 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -733,7 +733,7 @@ class OverflowShorthand(ShorthandProperty):
             for property_name in shorthand_property_map['overflow']:
                 components_map[property_name] = initial_value.copy()
         else:
-            temp = [x for x in components_map['overflow-x']
+            temp = [x for x in components_map.get('overflow-x', ())
                     if x.type != 'whitespace']
             if not (1 <= len(temp) <= 2):
                 return False
-- 
2.43.0


From 4f719a35f49570d195226aa3bf2622162266cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:23 +0000
Subject: [PATCH 036/119] fix: white spaces inside strings and escapes are
 collapsed

---
 svgpy/css/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ceb00e9..bb2ab22 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -38,13 +38,17 @@ from ..exception import NoModificationAllowedError
 from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
     load, normalize_url, split_important, style_to_dict
 
-_RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
+# white spaces inside strings or ending an escape are part of the value
+_RE_COLLAPSIBLE_WHITESPACE = re.compile(
+    r"""("(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'"""
+    r"""|/\*.*?\*/|\\[0-9A-Fa-f]{1,6}\x20?|\\.)|\x20{2,}""")
 
 
 def normalize_text(text):
     out_text = text.strip().replace(
         '\r\n', ' ').replace('\r', ' ').replace('\n', ' ')
-    out_text = _RE_COLLAPSIBLE_WHITESPACE.sub(' ', out_text)
+    out_text = _RE_COLLAPSIBLE_WHITESPACE.sub(
+        lambda matched: matched.group(1) or ' ', out_text)
     return out_text
 
 
-- 
2.43.0


From ce0e0d81ed666118cd3646cf2605cbd2aa5fa5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:23 +0000
Subject: [PATCH 037/119] fix: @namespace ignores a namespace given as a string

---
 svgpy/css/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index bb2ab22..77b24bb 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1281,7 +1281,7 @@ class CSSNamespaceRule(CSSRule):
 
     def _parse_prelude(self, prelude):
         for token in prelude:
-            if token.type == 'url':
+            if token.type in ('string', 'url'):
                 self._namespace_uri = token.value
             elif token.type == 'ident':
                 self._prefix = token.value
-- 
2.43.0


From ad22160e355cbfb0e90dc70e6a99868edd25a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 038/119] fix: the last feature value of a rule is lost without
 a final semicolon

---
 svgpy/css/__init__.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 77b24bb..c4e789f 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1058,7 +1058,7 @@ class CSSFontFeatureValuesRule(CSSRule):
                 feature_type = node.lower_at_keyword
                 name = None
                 feature_values = None
-                for token in node.content:
+                for token in node.content or ():
                     if token.type == 'ident':
                         name = token.value
                     elif token.type == 'literal' and token.value == ':':
@@ -1068,23 +1068,27 @@ class CSSFontFeatureValuesRule(CSSRule):
                         if feature_values is not None and token.int_value >= 0:
                             feature_values.append(token.int_value)
                     elif token.type == 'literal' and token.value == ';':
-                        if (name is not None
-                                and feature_values is not None
-                                and len(feature_values) > 0):
-                            if feature_type == 'annotation':
-                                self._annotation[name] = feature_values
-                            elif feature_type == 'character-variant':
-                                self._character_variant[name] = feature_values
-                            elif feature_type == 'ornaments':
-                                self._ornaments[name] = feature_values
-                            elif feature_type == 'styleset':
-                                self._styleset[name] = feature_values
-                            elif feature_type == 'stylistic':
-                                self._stylistic[name] = feature_values
-                            elif feature_type == 'swash':
-                                self._swash[name] = feature_values
+                        self._set_feature_values(
+                            feature_type, name, feature_values)
                         name = None
                         feature_values = None
+                self._set_feature_values(feature_type, name, feature_values)
+
+    def _set_feature_values(self, feature_type, name, feature_values):
+        if name is None or not feature_values:
+            return
+        if feature_type == 'annotation':
+            self._annotation[name] = feature_values
+        elif feature_type == 'character-variant':
+            self._character_variant[name] = feature_values
+        elif feature_type == 'ornaments':
+            self._ornaments[name] = feature_values
+        elif feature_type == 'styleset':
+            self._styleset[name] = feature_values
+        elif feature_type == 'stylistic':
+            self._stylistic[name] = feature_values
+        elif feature_type == 'swash':
+            self._swash[name] = feature_values
 
     @property
     def font_family(self):
-- 
2.43.0


From a97cf5c047459d6f4c7bdf7dfe221ee9dbdd161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 039/119] fix: a block at-rule without a block raises TypeError

---
 svgpy/css/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index c4e789f..688770f 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1796,7 +1796,13 @@ class CSSParser(object):
         css_rules = list()
         for rule in rules:
             if rule.type == 'at-rule':
-                if rule.lower_at_keyword == 'font-face':
+                if (rule.content is None
+                        and rule.lower_at_keyword in ('font-face',
+                                                      'font-feature-values',
+                                                      'media')):
+                    # at-rule without a block
+                    continue
+                elif rule.lower_at_keyword == 'font-face':
                     # @font-face at-rule
                     css_rule = CSSFontFaceRule(
                         rule,
-- 
2.43.0


From edbf0816b89329b5b9c44d8f4f15377ab7c97f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 040/119] fix: @namespace without a namespace makes the
 computed style raise TypeError

---
 svgpy/css/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 688770f..ea8f152 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1836,7 +1836,8 @@ class CSSParser(object):
                         rule,
                         parent_style_sheet=parent_style_sheet,
                         parent_rule=parent_rule)
-                    css_rules.append(css_rule)
+                    if css_rule.namespace_uri is not None:
+                        css_rules.append(css_rule)
             elif rule.type == 'qualified-rule':
                 css_rule = CSSStyleRule(
                     rule,
-- 
2.43.0


From 31ef91bfdbcfc0f4009e569773592891fd21dbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 041/119] fix: a style sheet in a 'data:' URL raises TypeError

---
 svgpy/css/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ea8f152..f03ab1c 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1776,6 +1776,10 @@ class CSSParser(object):
                     encoding = 'utf-8'
                 else:
                     encoding = content_type.get('charset', 'utf-8')
+            if not isinstance(data, bytes):
+                # 'data:' URL
+                data = (data or '').encode('utf-8')
+                encoding = 'utf-8'
             rules, encoding = tinycss2.parse_stylesheet_bytes(
                 css_bytes=data,
                 protocol_encoding=encoding,
-- 
2.43.0


From 1775910ee87c0a852ad69fccf605407d8778d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:18 +0000
Subject: [PATCH 042/119] fix: a relative @import is not resolved against the
 importing style sheet

---
 svgpy/css/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index f03ab1c..cdc6c2a 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1160,7 +1160,9 @@ class CSSImportRule(CSSRule):
     def _parse_prelude(self, prelude):
         if self.parent_style_sheet is not None:
             owner_node = self.parent_style_sheet.owner_node
-            base_url = self.parent_style_sheet.href
+            base_url = self.parent_style_sheet.base_url
+            if base_url is None:
+                base_url = self.parent_style_sheet.href
             if base_url is None and owner_node is not None:
                 doc = owner_node.owner_document
                 if doc is not None:
@@ -1656,6 +1658,7 @@ class CSSStyleSheet(StyleSheet):
         """
         super().__init__(**extra)
         self._owner_rule = owner_rule
+        self._base_url = None
         self._css_rules = list()
 
     def __repr__(self):
@@ -1668,6 +1671,11 @@ class CSSStyleSheet(StyleSheet):
             }
         })
 
+    @property
+    def base_url(self):
+        """str: The URL the style sheet was loaded from or None."""
+        return self._base_url
+
     @property
     def owner_rule(self):
         """CSSRule: The owner CSS rule."""
@@ -1766,6 +1774,8 @@ class CSSParser(object):
                 'media': owner_node.get('media'),
             })
         css_style_sheet = CSSStyleSheet(owner_rule=parent_rule, **extra)
+        if not url.startswith('data:'):
+            css_style_sheet._base_url = url
         logger = getLogger('{}.{}'.format(__name__, cls.__name__))
         try:
             logger.debug('urlopen \'{}\''.format(url))
-- 
2.43.0


From fa9e32f91b66a4a9d3182a47a529be2903f9a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 043/119] fix: a circular @import raises RecursionError

---
 svgpy/css/__init__.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index cdc6c2a..cd59167 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1180,14 +1180,26 @@ class CSSImportRule(CSSRule):
                 mediums.append(token)
         if len(mediums) > 0:
             self._media.media_text = tinycss2.serialize(mediums)
-        if self._href is None:
-            self._style_sheet = CSSStyleSheet(owner_node=owner_node,
-                                              media=self._media.media_text,
-                                              owner_rule=self)
+        if self._href is None or self._is_circular():
+            self._style_sheet = CSSStyleSheet(
+                owner_node=owner_node,
+                media=self._media.media_text,
+                owner_rule=self)
         else:
-            self._style_sheet = CSSParser.parse(self._href,
-                                                owner_node=owner_node,
-                                                parent_rule=self)
+            self._style_sheet = CSSParser.parse(
+                self._href,
+                owner_node=owner_node,
+                parent_rule=self)
+
+    def _is_circular(self):
+        css_style_sheet = self.parent_style_sheet
+        while css_style_sheet is not None:
+            if css_style_sheet.base_url == self._href:
+                return True
+            owner_rule = css_style_sheet.owner_rule
+            css_style_sheet = (owner_rule.parent_style_sheet
+                               if owner_rule is not None else None)
+        return False
 
     @property
     def href(self):
-- 
2.43.0


From b67c94c0df6c531981482c68d22fb83eee30e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:47 +0000
Subject: [PATCH 044/119] fix: an imported style sheet has no parent and the
 media of another element

---
 svgpy/css/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index cd59167..7bcabe7 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1183,13 +1183,15 @@ class CSSImportRule(CSSRule):
         if self._href is None or self._is_circular():
             self._style_sheet = CSSStyleSheet(
                 owner_node=owner_node,
-                media=self._media.media_text,
+                parent_style_sheet=self.parent_style_sheet,
                 owner_rule=self)
         else:
             self._style_sheet = CSSParser.parse(
                 self._href,
                 owner_node=owner_node,
+                parent_style_sheet=self.parent_style_sheet,
                 parent_rule=self)
+        self._style_sheet.media.media_text = self._media.media_text
 
     def _is_circular(self):
         css_style_sheet = self.parent_style_sheet
-- 
2.43.0


From cbc34bb598a0daf4addf8884381965d49ff382d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:11 +0000
Subject: [PATCH 045/119] fix: media_text keeps line breaks inside a media
 query

---
 svgpy/css/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 7bcabe7..58bb478 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -841,7 +841,7 @@ class MediaList(MutableSequence):
         if len(media_text) == 0:
             self.clear()
             return
-        m = MediaList._parse_media_query_list(value)
+        m = MediaList._parse_media_query_list(media_text)
         self._items = m
 
     @staticmethod
-- 
2.43.0


From fef0cae4dfcaa579ab4ab76b76cde177c124f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 046/119] fix: nested and negated media conditions and aspect
 ratios are evaluated wrongly

---
 svgpy/css/mediaquery.py | 395 ++++++++++++++++++----------------------
 1 file changed, 173 insertions(+), 222 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 0ca8242..11a231f 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -32,31 +32,29 @@ DISCRETE_FEATURES = [
 
 # See https://drafts.csswg.org/mediaqueries-4/#mq-syntax
 _RE_MEDIA_QUERY = re.compile(
-    r"(?P<media_not>not\s+\(.+\))"
-    r"|(?P<media_in_parens>\(.+\))"
-    r"|(?P<media_query>(not\s+|only\s+)?[^ \n\t]+(\s+and\s+(\(.+\))+)?)",
-    re.IGNORECASE | re.MULTILINE)
-
-_RE_MEDIA_IN_PARENS = re.compile(
-    r"(?P<mf_plain>\(\s*\S+\s*:\s*\S+\s*\))"
-    r"|(?P<mf_boolean>\(\s*\S+\s*\))"
-    r"|(?P<mf_range>\(\s*[^<> ]+\s*[<>]=?\s*[^<>) ]+\s*"
-    r"([<>]=?\s*[^<>) ]+\s*)?\))"
-    r"|(?P<media_not>not\s+\(.+\))"
-    r"|(?P<media_in_parens>\(.+\))"
-    r"|(\s+(?P<op>(and|or))\s+)",
-    re.IGNORECASE | re.MULTILINE)
+    r"(?P<media_type>(?:(?P<prefix>not|only)\s+)?(?P<name>[^\s()]+))"
+    r"(?:\s+and\s+(?P<media_condition>.+))?",
+    re.DOTALL)
+
+_RE_MEDIA_NOT = re.compile(r'not\s+(?=\()')
+
+_RE_MEDIA_OP = re.compile(r'\s+(?P<op>and|or)\s+')
+
+_RE_MF_BOOLEAN = re.compile(r'\(\s*[^\s():<>=]+\s*\)')
 
 _RE_MF_PLAIN = re.compile(
-    r'(\(\s*(?P<mf_name>\S+)\s*:\s*(?P<mf_value>\S+)\s*\))',
-    re.MULTILINE)
+    r'(\(\s*(?P<mf_name>[^\s():<>=]+)\s*:\s*'
+    r'(?P<mf_value>[^\s():<>=](?:[^():<>=]*[^\s():<>=])?)\s*\))')
 
 _RE_MF_RANGE = re.compile(
-    r"(\(\s*(?P<left>[^<> ]+)\s*(?P<op>[<>]=?)\s*(?P<right>[^<>) ]+)\s*"
-    r"((?P<op2>[<>]=?)\s*(?P<right2>[^<>) ]+)\s*)?\))",
-    re.MULTILINE)
+    r"(\(\s*(?P<left>[^\s():<>=](?:[^():<>=]*[^\s():<>=])?)\s*"
+    r"(?P<op>[<>]=?|=)\s*"
+    r"(?P<right>[^\s():<>=](?:[^():<>=]*[^\s():<>=])?)\s*"
+    r"((?P<op2>[<>]=?)\s*"
+    r"(?P<right2>[^\s():<>=](?:[^():<>=]*[^\s():<>=])?)\s*)?\))")
 
-_RE_WHITESPACE = re.compile(r'\s+', re.MULTILINE)
+_RE_RATIO = re.compile(
+    r'(?P<left>\d*\.\d+|\d+)(?:\s*/\s*(?P<right>\d*\.\d+|\d+))?')
 
 _RE_NUMBER = re.compile(
     r'(^[+-]?(\d*\.\d+|\d+\.?\d*)([eE][+-]?\d+)?)',
@@ -87,9 +85,7 @@ def parse(query):
         media_query = media_query.strip()
         if len(media_query) == 0:
             continue
-        node = dict()
-        _parse_media_query(media_query, node)
-        node_list.append(node)
+        node_list.append(_parse_media_query(media_query))
     return node_list
 
 
@@ -114,51 +110,32 @@ def match(node_list, conditions, compare_func, user_data=None):
     return False, matched_media
 
 
-def _match_node(node, conditions, compare_func, not_op=False, user_data=None):
+def _match_node(node, conditions, compare_func, user_data=None):
     expr = node[MQ_EXPR]
-    op = node.get(MQ_OP, 'or')
-    if expr == MQ_EXPR_UNARY_OP:
+    if expr == MQ_EXPR_NAME:
+        # <media-type> | <mf-boolean>
+        return _eval_expr_name(node, conditions)
+    elif expr == MQ_EXPR_COMPARE:
+        # <mf-plain> | <mf-range>
+        return _eval_expr_compare(node, conditions, compare_func, user_data)
+    elif expr == MQ_EXPR_UNARY_OP:
         # <media-not>
-        child = node[MQ_OPERAND]
-        result, media = _match_node(child, conditions, compare_func,
-                                    not_op=True, user_data=user_data)
+        result, media = _match_node(node[MQ_OPERAND], conditions,
+                                    compare_func, user_data=user_data)
         return not result, media
     assert expr == MQ_EXPR_BOOL_OP
-    ops = node.get(MQ_OPS, [])
-    if len(ops) > 0 and ops.count('and') > 0 and ops.count('or') > 0:
-        return False, None
-    result = True
+    # an invalid media query has no values and does not match
+    op = node.get(MQ_OP, 'or')
+    result = False
     matched_media = None
-    children = node[MQ_VALUES]
-    for child in children:
-        expr = child[MQ_EXPR]
-        if expr == MQ_EXPR_NAME:
-            # <media-type> | <mf-boolean>
-            result, media = _eval_expr_name(child, conditions)
-            if result and media and matched_media is None:
-                matched_media = media
-        elif expr == MQ_EXPR_COMPARE:
-            # <mf-plain> | <mf-range>
-            result, media = _eval_expr_compare(child, conditions, compare_func,
-                                               user_data)
-            if result and media and matched_media is None:
-                matched_media = media
-        elif expr == MQ_EXPR_UNARY_OP:
-            # <media-not>
-            result, media = _match_node(child, conditions, compare_func,
-                                        not_op=True, user_data=user_data)
-            if result and media and matched_media is None:
-                matched_media = media
-        else:
-            raise NotImplementedError('Unexpected value: ' + repr(expr))
-        if ((op == 'and' and (not not_op) and not result)
-                or (op == 'and' and not_op and result)
-                or (op == 'or' and (not not_op) and result)
-                or (op == 'or' and not_op and not result)):
+    for child in node[MQ_VALUES]:
+        result, media = _match_node(child, conditions, compare_func,
+                                    user_data=user_data)
+        if result and media and matched_media is None:
+            matched_media = media
+        if result == (op == 'or'):
             # (False) and (...)
-            # not ((...) and (...)) -> (True) or (...)
             # (True) or (...)
-            # not ((...) or (...)) -> (False) and (...)
             break
     return result, matched_media
 
@@ -205,20 +182,22 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
             if not result:
                 return False, None
         elif ((left_expr == MQ_EXPR_NAME or right_expr == MQ_EXPR_NAME)
-              and name == 'aspect-ratio'):
+              and name in ['aspect-ratio', 'device-aspect-ratio']):
             # value: <ratio>
             # e.g.: '(aspect-ratio: 16/9)' -> '(aspect-ratio == 16/9)'
-            left_ratio = Fraction(left_value)
-            right_ratio = Fraction(right_value)
-            if op[-1] == '=' and left_ratio == right_ratio:
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), True))
-            else:
-                cmp = left_ratio > right_ratio
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), cmp))
-                if (op[0] == '>' and not cmp) or (op[0] == '<' and cmp):
-                    return False, None
+            left_ratio = _parse_ratio(left_value)
+            right_ratio = _parse_ratio(right_value)
+            if left_ratio is None or right_ratio is None:
+                return False, None
+            # compare by cross multiplication
+            cmp = (left_ratio[0] * right_ratio[1]
+                   - right_ratio[0] * left_ratio[1])
+            logger.debug('feature \'{}\': {} {} {}: result={}'.format(
+                name, repr(left_value), op, repr(right_value), cmp))
+            if not ((cmp == 0 and op[-1] == '=')
+                    or (cmp > 0 and op[0] == '>')
+                    or (cmp < 0 and op[0] == '<')):
+                return False, None
         else:
             # value: <length> | <resolution> | <mq-boolean> | <integer>
             # e.g.: '(1 < color-index < 255)' ->
@@ -242,6 +221,14 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
     return True, None
 
 
+def _parse_ratio(value):
+    matched = _RE_RATIO.fullmatch(value)
+    if matched is None:
+        return None
+    return (Fraction(matched.group('left')),
+            Fraction(matched.group('right') or 1))
+
+
 def _eval_expr_name(node, conditions):
     result = False
     matched_media = None
@@ -270,170 +257,141 @@ def _eval_expr_name(node, conditions):
     return result, matched_media
 
 
-def _parse_media_query(query, parent):
-    for it in _RE_MEDIA_QUERY.finditer(query):
-        # <media-not>
-        media_not = it.group('media_not')
-        if media_not:
-            _parse_media_not(media_not, parent)
-
-        # <media-in-parens>
-        media_in_parens = it.group('media_in_parens')
-        if media_in_parens:
-            _parse_media_in_parens(media_in_parens, parent)
-
-        # <media-query>
-        media_query = it.group('media_query')
-        if media_query:
-            start = 0
-            for it_media_query in _RE_WHITESPACE.finditer(media_query):
-                limit, end = it_media_query.span()
-                segment = media_query[start:limit]
-                if segment == 'only':
-                    pass  # skip
-                elif segment == 'not':
-                    node = dict({
-                        MQ_EXPR: MQ_EXPR_BOOL_OP,
-                        MQ_VALUES: [],
-                    })
-                    parent[MQ_EXPR] = MQ_EXPR_UNARY_OP
-                    parent[MQ_OP] = segment
-                    parent[MQ_OPERAND] = node
-                elif segment in ['and', 'or']:
-                    expr = parent.get(MQ_EXPR)
-                    if expr is None:
-                        # invalid grammar: treat as media type
-                        # e.g.: 'or and (color)'
-                        _parse_media_type(segment, parent)
-                    else:
-                        if expr == MQ_EXPR_UNARY_OP:
-                            node = parent[MQ_OPERAND]
-                            ops = node.setdefault(MQ_OPS, [])
-                            ops.append(segment)
-                        else:
-                            node = parent
-                        op = node.get(MQ_OP)
-                        if op is None:
-                            node[MQ_OP] = segment
-                else:
-                    if not segment.startswith('('):
-                        # <media-type>
-                        _parse_media_type(segment, parent)
-                    else:
-                        # <media-condition-without-or>
-                        remain = media_query[start:]
-                        _parse_media_query(remain, parent)
-                        break
-                start = end
-            else:
-                remain = media_query[start:]
-                if media_query[start] == '(':
-                    # <media-query>
-                    _parse_media_query(remain, parent)
-                else:
-                    # <media-type>
-                    _parse_media_type(remain, parent)
-            break
-    return parent
-
-
-def _parse_media_type(query, parent):
-    # <media-type>
-    node = dict({
-        MQ_EXPR: MQ_EXPR_NAME,
-        MQ_ID: query,
-    })
-    expr = parent.setdefault(MQ_EXPR, MQ_EXPR_BOOL_OP)
-    if expr == MQ_EXPR_UNARY_OP:
-        operand = parent[MQ_OPERAND]
-        values = operand[MQ_VALUES]
-    else:
-        values = parent.setdefault(MQ_VALUES, [])
-    values.append(node)
-    return parent
+def _parse_media_query(query):
+    # <media-query>
+    node = _parse_media_condition(query)
+    if node is None:
+        node = _parse_media_type(query)
+    if node is None:
+        # invalid grammar: never matches
+        node = _bool_op('or', [])
+    return node
 
 
-def _parse_media_not(query, parent):
-    node = dict({
+def _bool_op(op, values):
+    return dict({
         MQ_EXPR: MQ_EXPR_BOOL_OP,
-        MQ_VALUES: [],
+        MQ_OP: op,
+        MQ_VALUES: values,
     })
-    parent[MQ_EXPR] = MQ_EXPR_UNARY_OP
-    parent[MQ_OP] = 'not'
-    parent[MQ_OPERAND] = node
-    matched = _RE_WHITESPACE.search(query)
-    remain = query[matched.end(0):]
-    _parse_media_query(remain, parent)
-    return parent
-
-
-def _parse_media_in_parens(query, parent):
-    expr = parent.setdefault(MQ_EXPR, MQ_EXPR_BOOL_OP)
-    if expr == MQ_EXPR_UNARY_OP:
-        node = parent[MQ_OPERAND]
-    else:
-        node = parent
-    node.setdefault(MQ_OPS, [])
-    for it in _RE_MEDIA_IN_PARENS.finditer(query):
-        # <mf-plain>
-        mf_plain = it.group('mf_plain')
-        if mf_plain:
-            _parse_mf_plain(mf_plain, parent)
 
-        # <mf-boolean>
-        mf_boolean = it.group('mf_boolean')
-        if mf_boolean:
-            _parse_mf_boolean(mf_boolean, parent)
 
-        # <mf-range>
-        mf_range = it.group('mf_range')
-        if mf_range:
-            _parse_mf_range(mf_range, parent)
+def _media_not(operand):
+    return dict({
+        MQ_EXPR: MQ_EXPR_UNARY_OP,
+        MQ_OP: 'not',
+        MQ_OPERAND: operand,
+    })
 
-        # <media-not>
-        media_not = it.group('media_not')
-        if media_not:
-            _parse_media_not(media_not, parent)
 
-        # and | or
-        op = it.group('op')
-        if op:
-            if node.get(MQ_OP) is None:
-                node[MQ_OP] = op
-            node[MQ_OPS].append(op)
-    return parent
+def _parse_media_type(query):
+    # [ 'not' | 'only' ]? <media-type> [ 'and' <media-condition-without-or> ]?
+    matched = _RE_MEDIA_QUERY.fullmatch(query)
+    if matched is None:
+        return None
+    name = matched.group('name')
+    if name in ['and', 'not', 'only', 'or']:
+        return None
+    values = [dict({
+        MQ_EXPR: MQ_EXPR_NAME,
+        MQ_ID: name,
+    })]
+    media_condition = matched.group('media_condition')
+    if media_condition is not None:
+        condition = _parse_media_condition(media_condition)
+        if (condition is None
+                or (condition[MQ_EXPR] == MQ_EXPR_BOOL_OP
+                    and condition[MQ_OP] == 'or')):
+            return None
+        values.append(condition)
+    if matched.group('prefix') == 'not':
+        # neither the media type nor the media conditions
+        if (len(values) == 2
+                and values[1][MQ_EXPR] == MQ_EXPR_BOOL_OP
+                and values[1][MQ_OP] == 'and'):
+            values[1:] = values[1][MQ_VALUES]
+        return _media_not(_bool_op('or', values))
+    return _bool_op('and', values)
+
+
+def _parse_media_condition(query):
+    # <media-not> | <media-in-parens> [ <media-and>* | <media-or>* ]
+    query = query.strip()
+    matched = _RE_MEDIA_NOT.match(query)
+    if matched is not None:
+        start = matched.end()
+        end = _find_closing_paren(query, start)
+        if end != len(query):
+            return None
+        operand = _parse_media_in_parens(query[start:end])
+        return None if operand is None else _media_not(operand)
+    values = list()
+    op = None
+    start = 0
+    while True:
+        end = _find_closing_paren(query, start)
+        if end is None:
+            return None
+        node = _parse_media_in_parens(query[start:end])
+        if node is None:
+            return None
+        values.append(node)
+        if end == len(query):
+            break
+        matched = _RE_MEDIA_OP.match(query, end)
+        if matched is None or op not in [None, matched.group('op')]:
+            return None
+        op = matched.group('op')
+        start = matched.end()
+    return _bool_op(op, values) if op is not None else values[0]
+
+
+def _find_closing_paren(query, start):
+    if query[start:start + 1] != '(':
+        return None
+    depth = 0
+    for index in range(start, len(query)):
+        if query[index] == '(':
+            depth += 1
+        elif query[index] == ')':
+            depth -= 1
+            if depth == 0:
+                return index + 1
+    return None
+
+
+def _parse_media_in_parens(query):
+    # '(' <media-condition> ')' | '(' [ <mf-plain> | <mf-boolean>
+    # | <mf-range> ] ')'
+    if _RE_MF_PLAIN.fullmatch(query):
+        return _parse_mf_plain(query)
+    elif _RE_MF_BOOLEAN.fullmatch(query):
+        return _parse_mf_boolean(query)
+    elif _RE_MF_RANGE.fullmatch(query):
+        return _parse_mf_range(query)
+    node = _parse_media_condition(query[1:-1])
+    if node is not None and node[MQ_EXPR] != MQ_EXPR_UNARY_OP:
+        # keep the parentheses
+        node = _bool_op('and', [node])
+    return node
 
 
-def _parse_mf_boolean(query, parent):
+def _parse_mf_boolean(query):
     # e.g.: '(color)'
-    expr = parent.setdefault(MQ_EXPR, MQ_EXPR_BOOL_OP)
-    if expr == MQ_EXPR_UNARY_OP:
-        operand = parent[MQ_OPERAND]
-        values = operand[MQ_VALUES]
-    else:
-        values = parent.setdefault(MQ_VALUES, [])
     node = dict({
         MQ_EXPR: MQ_EXPR_NAME,
-        MQ_ID: query.strip('()'),
+        MQ_ID: query.strip('()').strip(),
     })
-    values.append(node)
     return node
 
 
-def _parse_mf_plain(query, parent):
+def _parse_mf_plain(query):
     # e.g.: '(min-height: 600px)'
-    expr = parent.setdefault(MQ_EXPR, MQ_EXPR_BOOL_OP)
-    if expr == MQ_EXPR_UNARY_OP:
-        operand = parent[MQ_OPERAND]
-        values = operand[MQ_VALUES]
-    else:
-        values = parent.setdefault(MQ_VALUES, [])
     node = dict({
         MQ_EXPR: MQ_EXPR_COMPARE,
         MQ_OPS: [],
         MQ_COMPARATORS: [],
     })
-    values.append(node)
     matched = _RE_MF_PLAIN.match(query)
     mf_name = matched.group('mf_name')
     mf_value = matched.group('mf_value')
@@ -461,20 +419,13 @@ def _parse_mf_plain(query, parent):
     return node
 
 
-def _parse_mf_range(query, parent):
+def _parse_mf_range(query):
     # e.g.: '(height >= 600px)', '(400px <= width <= 700px)'
-    expr = parent.setdefault(MQ_EXPR, MQ_EXPR_BOOL_OP)
-    if expr == MQ_EXPR_UNARY_OP:
-        operand = parent[MQ_OPERAND]
-        values = operand[MQ_VALUES]
-    else:
-        values = parent.setdefault(MQ_VALUES, [])
     node = dict({
         MQ_EXPR: MQ_EXPR_COMPARE,
         MQ_OPS: [],
         MQ_COMPARATORS: [],
     })
-    values.append(node)
     matched = _RE_MF_RANGE.match(query)
     left_value = matched.group('left')
     right_value = matched.group('right')
-- 
2.43.0


From 9fcb3c96422c2192bd6d38bcdb59f74755f67dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:52 +0000
Subject: [PATCH 047/119] fix: media queries raise ZeroDivisionError for an
 empty viewport

---
 svgpy/window.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 2354e84..601fc4a 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -15,7 +15,6 @@
 
 from abc import ABC, abstractmethod
 from collections.abc import Collection
-from fractions import Fraction
 from io import StringIO
 from logging import getLogger
 
@@ -724,14 +723,12 @@ class MediaQueryList(object):
         else:
             width = win.inner_width
             height = win.inner_height
-        aspect_ratio = Fraction(int(width), int(height))
         screen = win.screen
-        device_aspect_ratio = Fraction(int(screen.width), int(screen.height))
         conditions = {
             'media': screen.media,
             'width': '{}px'.format(width),
             'height': '{}px'.format(height),
-            'aspect-ratio': '{}'.format(aspect_ratio),
+            'aspect-ratio': '{}/{}'.format(width, height),
             'orientation': screen.orientation.type,
             'resolution': '{}dppx'.format(win.device_pixel_ratio),
             'scan': screen.scan,
@@ -746,7 +743,7 @@ class MediaQueryList(object):
             # deprecated media features
             'device-width': '{}px'.format(screen.width),
             'device-height': '{}px'.format(screen.height),
-            'device-aspect-ratio': '{}'.format(device_aspect_ratio),
+            'device-aspect-ratio': '{}/{}'.format(screen.width, screen.height),
         }
         matches, _ = mq.match(self._tree, conditions, _mql_compare,
                               user_data=context)
-- 
2.43.0


From 626bee70d2d4737a969277056c1604737886d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:54 +0000
Subject: [PATCH 048/119] fix: an empty media query list does not match

---
 svgpy/css/mediaquery.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 11a231f..97a5e10 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -80,11 +80,11 @@ logger = getLogger(__name__)
 
 def parse(query):
     node_list = list()
-    media_query_list = query.strip().lower().split(',')
-    for media_query in media_query_list:
+    query = query.strip().lower()
+    if len(query) == 0:
+        return node_list
+    for media_query in query.split(','):
         media_query = media_query.strip()
-        if len(media_query) == 0:
-            continue
         node_list.append(_parse_media_query(media_query))
     return node_list
 
@@ -95,6 +95,9 @@ def dump(node_list, **kwargs):
 
 def match(node_list, conditions, compare_func, user_data=None):
     logger.debug('id={}: start'.format(hex(id(node_list))))
+    if len(node_list) == 0:
+        # an empty media query list
+        return True, None
     matched_media = None
     for node in node_list:
         logger.debug('id={}: node={}'.format(hex(id(node_list)), repr(node)))
-- 
2.43.0


From 905b555654a978bc7f7c0c8e15930a222f8e90ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 049/119] fix: SVGLength arithmetic keeps the operand's context
 element

---
 svgpy/core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 3adf08b..152f636 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1051,14 +1051,14 @@ class SVGLength(object):
             self._number, self._unit = SVGLength.parse(value)
 
     def __abs__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = abs(x._number)
         return x
 
     def __add__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
         x._number += Decimal(other.value(x._unit))
@@ -1147,7 +1147,7 @@ class SVGLength(object):
         return self._number < o
 
     def __mul__(self, other):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
@@ -1159,16 +1159,16 @@ class SVGLength(object):
         return x
 
     def __neg__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = -x._number
         return x
 
     def __pos__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         return x
 
     def __pow__(self, power, modulo=None):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = pow(x._number, power, modulo)
         return x
 
@@ -1187,14 +1187,14 @@ class SVGLength(object):
     def __sub__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
         x._number -= Decimal(other.value(x._unit))
         return x
 
     def __truediv__(self, other):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
-- 
2.43.0


From 2acb226b112c5db205f56ff7aa630de492ea36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:47 +0000
Subject: [PATCH 050/119] fix: SVGLength rejects text after the number and unit

---
 svgpy/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 152f636..1c9224c 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1272,7 +1272,7 @@ class SVGLength(object):
         if text is None:
             return Decimal(0), None
         elif isinstance(text, str):
-            match = SVGLength.RE_LENGTH.match(text.strip())
+            match = SVGLength.RE_LENGTH.fullmatch(text.strip())
             if match is None:
                 raise ValueError('Expected number, got \'{}\''.format(text))
             number = match.group('number')
-- 
2.43.0


From a78e6732eeab9e3fe757614ae975c3ac60eb5f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:47 +0000
Subject: [PATCH 051/119] fix: SVGLength.isrelative() is true for the cap unit

---
 svgpy/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 1c9224c..50525e7 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1245,8 +1245,8 @@ class SVGLength(object):
 
     def isrelative(self):
         return self._unit in [
-            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CHS,
-            SVGLength.TYPE_ICS, SVGLength.TYPE_REMS,
+            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
+            SVGLength.TYPE_CHS, SVGLength.TYPE_ICS, SVGLength.TYPE_REMS,
             SVGLength.TYPE_PERCENTAGE,
             SVGLength.TYPE_VW, SVGLength.TYPE_VH,
             SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX,
-- 
2.43.0


From eca30c7890d99f5b031b56729642cf567302c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 052/119] fix: SVGLength treats unit names case-insensitively
 everywhere and reports unknown ones

---
 svgpy/core.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 50525e7..626c0aa 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1214,12 +1214,18 @@ class SVGLength(object):
         """str: The unit string."""
         return self._unit if self._unit != SVGLength.TYPE_NUMBER else None
 
+    @staticmethod
+    def _normalize_unit(unit):
+        if unit is None or unit == SVGLength.TYPE_NUMBER:
+            return None
+        unit = unit.lower()
+        if unit not in SVGLength.SUPPORTED_UNITS:
+            raise ValueError('Unknown unit: ' + repr(unit))
+        return unit
+
     @staticmethod
     def _normalize(number, unit):
-        if unit is not None:
-            unit = unit.lower()
-            if unit not in SVGLength.SUPPORTED_UNITS:
-                raise ValueError('Unknown unit: ' + repr(unit))
+        unit = SVGLength._normalize_unit(unit)
         try:
             return Decimal(number).normalize(), unit
         except InvalidOperation:
@@ -1231,6 +1237,7 @@ class SVGLength(object):
         Arguments:
             unit (str): The unit string.
         """
+        unit = self._normalize_unit(unit)
         if unit == self._unit:
             return
         self._number = Decimal(self.value(unit))
@@ -1264,6 +1271,7 @@ class SVGLength(object):
             number (float): The new value.
             unit (str): The unit string.
         """
+        unit = self._normalize_unit(unit)
         self._number = Decimal(number)
         self._unit = unit
 
@@ -1309,6 +1317,7 @@ class SVGLength(object):
         """
         if unit is None:
             unit = self._unit
+        unit = self._normalize_unit(unit)
         number = self.value(unit, direction=direction)
         value = format_number_sequence([number])[0]
         return '{0}{1}'.format(value, unit if unit is not None else '')
@@ -1332,6 +1341,7 @@ class SVGLength(object):
             96.0  # 96.0(px)
         """
         # See https://drafts.csswg.org/css-values/#lengths
+        unit = self._normalize_unit(unit)
         if unit == self._unit:
             return float(self._number)
         if direction is None:
-- 
2.43.0


From 3be8b577ab774d568b7c35af8eb53eef6fff4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:59 +0000
Subject: [PATCH 053/119] fix: an ellipse's auto radius equals the other radius
 for percentages too

---
 svgpy/element.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index ddc2e7a..3572041 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -289,21 +289,21 @@ class SVGEllipseElement(SVGGeometryElement):
         # Percentages: refer to the size of the current SVG viewport
         _ry = self.get('ry', 'auto')
 
-        if _rx != 'auto' and _ry == 'auto':
-            _ry = _rx
-        elif _rx == 'auto' and _ry != 'auto':
-            _rx = _ry
-
-        if _rx == 'auto' and _ry == 'auto':
-            rx = 0
-            ry = 0
-        else:
+        rx = None
+        ry = None
+        if _rx != 'auto':
             rx = SVGLength(_rx,
                            context=self,
                            direction=SVGLength.DIRECTION_HORIZONTAL).value()
+        if _ry != 'auto':
             ry = SVGLength(_ry,
                            context=self,
                            direction=SVGLength.DIRECTION_VERTICAL).value()
+        # 'auto': the same absolute length as the other radius
+        if rx is None:
+            rx = ry if ry is not None else 0
+        if ry is None:
+            ry = rx
         geometry['rx'] = rx
         geometry['ry'] = ry
 
-- 
2.43.0


From 11fd39878b419fb22f84f6a97fe57a62d8ccecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 054/119] fix: a nested svg is not its own owner_svg_element or
 viewport_element

---
 svgpy/base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 4f7bec8..acceb7b 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -149,8 +149,10 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         farthest = self.get_farthest_svg_element()
         if farthest is not None and hash(farthest) == hash(self):
             return None
-        nearest = self.get_nearest_svg_element()
-        return nearest
+        parent = self.getparent()
+        if parent is None:
+            return None
+        return parent.get_nearest_svg_element()
 
     @property
     def viewport_element(self):
@@ -161,8 +163,10 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         farthest = self.get_farthest_svg_element()
         if farthest is not None and hash(farthest) == hash(self):
             return None
-        nearest = self.get_nearest_viewport_element()
-        return nearest
+        parent = self.getparent()
+        if parent is None:
+            return None
+        return parent.get_nearest_viewport_element()
 
     def get_farthest_svg_element(self):
         """Returns the outermost 'svg' element.
-- 
2.43.0


From 8c14cbc6596e40408ceac374aae3a984f1e61df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 055/119] fix: relative x, y and viewport units of nested
 viewports use the parent viewport

---
 svgpy/base.py | 126 ++++++++++++++++++++------------------------------
 1 file changed, 49 insertions(+), 77 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index acceb7b..574fe53 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -232,6 +232,33 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
             element = root.getparent()
         return None
 
+    @staticmethod
+    def _get_viewport_length(root, name, direction, parent_vpw, parent_vph):
+        if name in ('x', 'y'):
+            value = root.get(name, '0')
+        else:
+            value = root.get(name, 'auto')
+            if value == 'auto':
+                value = '100%'
+        if value == 'inherit':
+            value = '100%'
+        length = SVGLength(value, context=root, direction=direction)
+        unit = length.unit
+        if unit == SVGLength.TYPE_PERCENTAGE:
+            base = (parent_vpw if direction == SVGLength.DIRECTION_HORIZONTAL
+                    else parent_vph)
+        elif unit == SVGLength.TYPE_VW:
+            base = parent_vpw
+        elif unit == SVGLength.TYPE_VH:
+            base = parent_vph
+        elif unit == SVGLength.TYPE_VMAX:
+            base = max(parent_vpw, parent_vph)
+        elif unit == SVGLength.TYPE_VMIN:
+            base = min(parent_vpw, parent_vph)
+        else:
+            return length
+        return length.value(unit) / 100 * base
+
     def get_viewport_size(self, recursive=True):
         """Gets the SVG viewport size from nearest ancestor element that
         establishes an SVG viewport.
@@ -261,84 +288,29 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         else:
             initial_viewport_width = win.inner_width
             initial_viewport_height = win.inner_height
-        parent_vpw = vpw = SVGLength(initial_viewport_width,
-                                     direction=SVGLength.DIRECTION_HORIZONTAL)
-        parent_vph = vph = SVGLength(initial_viewport_height,
-                                     direction=SVGLength.DIRECTION_VERTICAL)
+        vpx = SVGLength(0)
+        vpy = SVGLength(0)
+        vpw = SVGLength(initial_viewport_width,
+                        direction=SVGLength.DIRECTION_HORIZONTAL)
+        vph = SVGLength(initial_viewport_height,
+                        direction=SVGLength.DIRECTION_VERTICAL)
+        # percentages refer to the viewport of the parent
+        parent_vpw, parent_vph = vpw, vph
         for root in roots:
-            _width = root.get('width', 'auto')
-            if _width == 'auto':
-                _width = '100%'
-            if _width == 'inherit':
-                vpw = parent_vpw
-            else:
-                vpw = SVGLength(_width,
-                                context=root,
-                                direction=SVGLength.DIRECTION_HORIZONTAL)
-                unit = vpw.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VH:
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VMAX:
-                    vpw = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vpw = min(parent_vpw, parent_vph)
-            parent_vpw = vpw
-
-            _height = root.get('height', 'auto')
-            if _height == 'auto':
-                _height = '100%'
-            if _height == 'inherit':
-                vph = parent_vph
-            else:
-                vph = SVGLength(_height,
-                                context=root,
-                                direction=SVGLength.DIRECTION_VERTICAL)
-                unit = vph.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VW:
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VMAX:
-                    vph = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vph = min(parent_vpw, parent_vph)
-            parent_vph = vph
-        if len(roots) == 0:
-            vpx = SVGLength(0)
-            vpy = SVGLength(0)
-        else:
-            root = roots[-1]
-            vpx = SVGLength(root.get('x', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_HORIZONTAL)
-            unit = vpx.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
-            elif unit == SVGLength.TYPE_VH:
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
-            elif unit == SVGLength.TYPE_VMAX:
-                vpx = max(vpw, vph)
-            elif unit == SVGLength.TYPE_VMIN:
-                vpx = min(vpw, vph)
-
-            vpy = SVGLength(root.get('y', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_VERTICAL)
-            unit = vpy.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
-            elif unit == SVGLength.TYPE_VW:
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
-            elif unit == SVGLength.TYPE_VMAX:
-                vpy = max(vpw, vph)
-            elif unit == SVGLength.TYPE_VMIN:
-                vpy = min(vpw, vph)
+            vpw = self._get_viewport_length(
+                root, 'width', SVGLength.DIRECTION_HORIZONTAL,
+                parent_vpw, parent_vph)
+            vph = self._get_viewport_length(
+                root, 'height', SVGLength.DIRECTION_VERTICAL,
+                parent_vpw, parent_vph)
+            if root is roots[-1]:
+                vpx = self._get_viewport_length(
+                    root, 'x', SVGLength.DIRECTION_HORIZONTAL,
+                    parent_vpw, parent_vph)
+                vpy = self._get_viewport_length(
+                    root, 'y', SVGLength.DIRECTION_VERTICAL,
+                    parent_vpw, parent_vph)
+            parent_vpw, parent_vph = vpw, vph
 
         # TODO: check a range: max-width, max-height, min-width and min-height.
         return vpx, vpy, vpw, vph
-- 
2.43.0


From 407cc757f42fd6feff97113dd2aebffdddecb9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 056/119] fix: CTMs include group transforms between nested
 viewports

---
 svgpy/base.py | 54 ++++++++++++++++++---------------------------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 574fe53..be37b0f 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -344,49 +344,33 @@ class SVGGraphicsElement(SVGElement):
         Returns:
             DOMMatrix: The current transformation matrix (CTM).
         """
-        roots = list()
         ctm = DOMMatrix()
         farthest = self.get_farthest_svg_element()
         if farthest is None:
             return ctm
-        elif hash(farthest) == hash(self):
-            roots.append(farthest)
-        else:
-            element = self
-            while element is not None:
-                root = element.get_nearest_viewport_element()
-                if root is None or root in roots:
-                    break
-                roots.insert(0, root)
-                if viewport_type == SVGElement.NEAREST_VIEWPORT:
-                    if (self.local_name not in ('svg', 'symbol')
-                            or len(roots) >= 2):
-                        break
-                element = root.getparent()
-        if len(roots) == 0:
-            return ctm
-
-        if viewport_type == SVGElement.FARTHEST_VIEWPORT:
-            scale = farthest.current_scale
-            tx, ty = farthest.current_translate
-            ctm *= DOMMatrix([scale, 0, 0, scale, tx, ty])
-        for root in roots:
-            vtm = root.get_viewport_transformation_matrix(recursive=False)
-            ctm *= vtm
-
-        transform_list = SVGTransformList()
         element = self
         while element is not None:
+            matrix = DOMMatrix()
+            isviewport = element.local_name in ('svg', 'symbol')
+            if isviewport:
+                matrix = element.get_viewport_transformation_matrix(
+                    recursive=False)
             if element.istransformable():
-                transform = element.transform
-                if transform is not None:
-                    transform_list[0:0] = transform
-            if element.local_name in ('svg', 'symbol'):
+                transform_list = element.transform
+                if transform_list is not None and len(transform_list) > 0:
+                    matrix *= transform_list.matrix
+            ctm = matrix * ctm
+            if element is farthest:
+                break
+            elif (isviewport and element is not self
+                  and viewport_type == SVGElement.NEAREST_VIEWPORT):
                 break
             element = element.getparent()
-        if len(transform_list) > 0:
-            matrix = transform_list.matrix
-            ctm *= matrix
+
+        if viewport_type == SVGElement.FARTHEST_VIEWPORT:
+            scale = farthest.current_scale
+            tx, ty = farthest.current_translate
+            ctm = DOMMatrix([scale, 0, 0, scale, tx, ty]) * ctm
         return ctm
 
     def get_bbox(self, options=None, _depth=0):
@@ -487,7 +471,7 @@ class SVGGraphicsElement(SVGElement):
             DOMMatrix: The transformation matrix.
         """
         ctm = DOMMatrix()
-        ex, ey, ew, eh = self.get_viewport_size(recursive)
+        ex, ey, ew, eh = self.get_viewport_size()
         view_box = self.get_view_box(recursive)
         if view_box is None:
             if ex is not None and ey is not None:
-- 
2.43.0


From ba8a789ff1b83dc49963514a71bf0fc3ee6210e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 057/119] fix: viewport scale factors with physical units

---
 svgpy/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index be37b0f..882d457 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -479,7 +479,9 @@ class SVGGraphicsElement(SVGElement):
             return ctm
         if ew is None or eh is None:
             return ctm
-        vbx, vby, vbw, vbh, par = view_box
+        vbx, vby, vbw, vbh = [x.value() for x in view_box[:4]]
+        par = view_box[4]
+        ex, ey, ew, eh = ex.value(), ey.value(), ew.value(), eh.value()
         align = par.align
         if align == SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_UNKNOWN:
             align = SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMIDYMID
@@ -521,8 +523,8 @@ class SVGGraphicsElement(SVGElement):
                      SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMAXYMAX):
             # 'YMax'
             ty += eh - vbh * sy
-        ctm.translate_self(tx.value(), ty.value())
-        ctm.scale_self(sx.value(tx.unit), sy.value(tx.unit))
+        ctm.translate_self(tx, ty)
+        ctm.scale_self(sx, sy)
         return ctm
 
 
-- 
2.43.0


From 05abef0711845b5751d0c6366f538bb69ae16d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 058/119] fix: ignore a malformed or non-positive viewBox

---
 svgpy/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 882d457..fda2efb 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -554,7 +554,15 @@ class SVGFitToViewBox(Element):
         view_box = self.get('viewBox')
         if view_box is None:
             return None
-        vb = Element.RE_DIGIT_SEQUENCE_SPLITTER.split(view_box)
+        vb = Element.RE_DIGIT_SEQUENCE_SPLITTER.split(view_box.strip())
+        if len(vb) != 4:
+            return None
+        try:
+            numbers = [float(x) for x in vb]
+        except ValueError:
+            return None
+        if numbers[2] <= 0 or numbers[3] <= 0:
+            return None  # disables the effect of the attribute
         return (SVGLength(vb[0],
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL),
-- 
2.43.0


From 1b7b9db533b7bd01e175647df1060cddacfdd813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 059/119] fix: accept the xMinYMid alignment

---
 svgpy/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/base.py b/svgpy/base.py
index fda2efb..322cf61 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -673,6 +673,7 @@ class SVGPreserveAspectRatio(object):
     }
 
     _ALIGN_TYPE_MAP = dict((v, k) for k, v in _TYPE_ALIGN_MAP.items())
+    _ALIGN_TYPE_MAP['xMinYMid'] = SVG_PRESERVEASPECTRATIO_XMINYMID
 
     _TYPE_MEETORSLICE_MAP = {
         SVG_MEETORSLICE_MEET: MEETORSLICE_MEET,
-- 
2.43.0


From cfff7e28a49eb30d991a47652b1a998c393cf75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 060/119] fix: lengths in a nested svg without viewBox refer to
 its viewport

---
 svgpy/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 626c0aa..beceea0 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1402,7 +1402,7 @@ class SVGLength(object):
                 vw = 100
                 vh = 100
             else:
-                view_box = self._context.get_view_box()
+                view_box = self._context.get_view_box(recursive=False)
                 if view_box is not None:
                     _, _, vbw, vbh, _ = view_box
                     vw = vbw.value()
-- 
2.43.0


From 5b9d2098ed1e565d2c68c74189837706297490e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 061/119] fix: relative URL references keep the base intact and
 resolve query, fragment and host

---
 svgpy/url.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index e4443bc..87348da 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -240,6 +240,8 @@ class URL(object):
         if (parsed_base is not None
                 and parsed_base.protocol in ['about:', 'blob:', 'data:']):
             parsed_base = None
+        if parsed_base is not None and url.startswith('//'):
+            url = parsed_base.protocol + url
         done = False
         try:
             self._parse_url(url)
@@ -248,27 +250,28 @@ class URL(object):
             if parsed_base is None:
                 raise
         if not done:
-            if os.path.isabs(url):
-                parsed_base.pathname = url
-                parsed_base.search = ''
-                parsed_base.hash = ''
+            parsed_base = URL(parsed_base.href)
+            pr = urlsplit(url)
+            if len(pr.path) == 0:
+                if len(pr.query) > 0:
+                    parsed_base.search = '?' + pr.query
             else:
-                if parsed_base.protocol != 'file:':
+                if os.path.isabs(pr.path):
+                    pathname = pr.path
+                elif parsed_base.protocol != 'file:':
                     pathname = os.path.join(
                         os.path.dirname(parsed_base.pathname),
-                        url)
+                        pr.path)
                 else:  # 'file:'
                     parent_path = parsed_base.pathname
                     if sys.platform.startswith('win'):
                         parent_path = parent_path.lstrip('/')
                     if not os.path.isdir(parent_path):
                         parent_path = os.path.dirname(parent_path)
-                    pathname = os.path.join(parent_path, url)
-                pathname = pathname.replace('\\', '/')
-                pr = urlsplit(pathname)
-                parsed_base.pathname = pr.path
-                parsed_base.search = pr.query
-                parsed_base.hash = pr.fragment
+                    pathname = os.path.join(parent_path, pr.path)
+                parsed_base.pathname = pathname.replace('\\', '/')
+                parsed_base.search = '?' + pr.query
+            parsed_base.hash = '#' + pr.fragment
             url = parsed_base.href
             self._parse_url(url)
 
-- 
2.43.0


From 2e0268241e49dc3bc32b9b8d107a990285bd425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 062/119] fix: URL fragments are not decoded twice

---
 svgpy/url.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 87348da..653abbc 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -34,6 +34,10 @@ _RE_NUMERIC_CHARACTER_REFERENCE = re.compile(
     re.IGNORECASE)
 
 
+# '%25' followed by two hexadecimal digits
+_RE_PERCENT_ENCODED_PERCENT = re.compile('%25(?=[0-9a-f]{2})', re.IGNORECASE)
+
+
 def quote_numeric_character_references(query, quote_via=None, safe=''):
     def _quote(_string):
         if quote_via is None:
@@ -296,7 +300,11 @@ class URL(object):
 
     @hash.setter
     def hash(self, fragment):
-        fragment = fragment.lstrip('#')
+        if fragment.startswith('#'):
+            fragment = fragment[1:]
+        # do not decode '%XX' twice
+        fragment = _RE_PERCENT_ENCODED_PERCENT.sub(
+            '%2525', fragment)
         # unsafe:
         # U+0020 (SP), U+0022 ("), U+003C (<), U+003E (>), and U+0060 (`)
         self._hash = quote(unquote(fragment),
-- 
2.43.0


From 5ace8a5156f4e06485815ccb4e79a6cacd46ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 063/119] fix: an invalid URL leaves URL.href unchanged

---
 svgpy/url.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/url.py b/svgpy/url.py
index 653abbc..7205f49 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -341,6 +341,7 @@ class URL(object):
 
     @href.setter
     def href(self, url):
+        URL(url)  # an invalid URL leaves this object unchanged
         self._parse_url(url)
 
     @property
-- 
2.43.0


From 7ac15aedf204e2779e60a404089942587b20afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 064/119] fix: encoded slashes in URL paths are not separators,
 dot segments end with a slash

---
 svgpy/url.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 7205f49..6ee237d 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -396,12 +396,18 @@ class URL(object):
                 and '\\' in pathname):
             raise ValueError('Invalid pathname: ' + repr(pathname))
         if self._protocol not in ['blob:', 'data:']:
-            pathname = unquote(pathname).replace('\\', '/')
+            # an encoded slash or backslash is not a separator
             # U+0026 (&)
             # U+002F (/), U+003A (:), U+003B (;), U+003D (=), U+0040 (@),
             # U+005B ([), U+005C (\), U+005D (]), U+005F (_), U+007E (~)
-            pathname = quote(pathname, safe='&/:;=@[]_~')
-            sep = len(pathname) >= 2 and pathname.endswith('/')
+            safe = '&/:;=@[]_~'
+            pathname = ''.join(
+                x.upper() if i % 2
+                else quote(unquote(x).replace('\\', '/'), safe=safe)
+                for i, x in enumerate(re.split('(%2F|%5C)', pathname,
+                                               flags=re.IGNORECASE)))
+            sep = (len(pathname) >= 2
+                   and pathname.endswith(('/', '/.', '/..')))
             pathname = os.path.normpath(pathname).replace('\\', '/')
             if sep and not pathname.endswith('/'):
                 pathname += '/'
-- 
2.43.0


From 23f70ecb7f428d9a0e8e835c31a43706586b53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 065/119] fix: changing the URL scheme drops a default port

---
 svgpy/url.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgpy/url.py b/svgpy/url.py
index 6ee237d..b66e359 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -453,6 +453,9 @@ class URL(object):
                 raise ValueError('Invalid protocol: ' + repr(protocol))
             if not protocol.endswith(':'):
                 protocol += ':'
+        if self._port in (_SPECIAL_SCHEMES_PORT_NUMBERS.get(self._protocol),
+                          _SPECIAL_SCHEMES_PORT_NUMBERS.get(protocol)):
+            self.port = ''  # a default port is not carried over
         self._protocol = protocol
 
     @property
-- 
2.43.0


From 55d86f9aae809ff3f829788532abf4c2da252d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 066/119] fix: URL queries keep "=", "+" and "?" in names and
 values

---
 svgpy/url.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index b66e359..a90ca29 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -465,14 +465,14 @@ class URL(object):
             return ''
         queries = list()
         # unsafe:
-        # U+0020 (SP), U+0023 (#), U+0026 (&), and U+0027 (')
-        safe = '!$%()*+,-./:;=?@[\\]^_`{|}~'
+        # U+0020 (SP), U+0023 (#), U+0026 (&), U+0027 ('), and U+002B (+)
+        safe = '!$%()*,-./:;=?@[\\]^_`{|}~'
         # FIXME: implement URLSearchParams.sort().
         for key in sorted(self._search_params):
             value = self._search_params[key]
             key = quote_numeric_character_references(key,
                                                      quote_via=quote_plus,
-                                                     safe=safe)
+                                                     safe=safe.replace('=', ''))
             value = quote_numeric_character_references(value,
                                                        quote_via=quote_plus,
                                                        safe=safe)
@@ -482,13 +482,16 @@ class URL(object):
 
     @search.setter
     def search(self, query):
-        query = query.lstrip('?')
+        if query.startswith('?'):
+            query = query[1:]
         self._search_params.clear()
         if len(query) == 0:
             return
         pairs = query.split('&')
         for pair in pairs:
-            kv = pair.split('=')
+            if len(pair) == 0:
+                continue
+            kv = pair.split('=', 1)
             if len(kv) < 2:
                 kv.append('')
             key = kv[0].replace('+', ' ')
@@ -570,8 +573,8 @@ class URL(object):
         self.username = pr.username if pr.username is not None else ''
         self.password = pr.password if pr.password is not None else ''
         self.pathname = pr.path
-        self.search = pr.query
-        self.hash = pr.fragment
+        self.search = '?' + pr.query
+        self.hash = '#' + pr.fragment
 
     def tostring(self, exclude_fragment=False):
         """Serializes an URL object.
-- 
2.43.0


From 3fc634b4f785aa8893beb03d5e056980569e67fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 067/119] fix: setting an IPv6 hostname keeps the port

---
 svgpy/url.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index a90ca29..b943a29 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -555,8 +555,7 @@ class URL(object):
                 self.port = self._port
             else:
                 port = host[end + 1:]
-                if len(port) > 0:
-                    self.port = port
+                self.port = port if len(port) > 0 else self._port
 
     def _parse_url(self, url):
         pr = urlsplit(url)
-- 
2.43.0


From 3bfbe5716836affb6643fa88cba78c51036a81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 068/119] fix: a URL password without user name is serialised

---
 svgpy/url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index b943a29..5b6437b 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -593,7 +593,7 @@ class URL(object):
             if protocol not in ['about:', 'blob:', 'data:']:
                 parts.append('//')
             if len(host) > 0 and protocol != 'file:':
-                if len(self.username) > 0:
+                if len(self.username) > 0 or len(self.password) > 0:
                     parts.append(self.username)
                     if len(self.password) > 0:
                         parts.append(':' + self.password)
-- 
2.43.0


From de07d29846489ed71b0e491ee69dfdd50783283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 069/119] fix: documents with marker or view elements can be
 read

---
 svgpy/element.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index 3572041..31df794 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -474,7 +474,18 @@ class SVGLineElement(SVGGeometryElement):
 class SVGMarkerElement(SVGGraphicsElement):
     # TODO: implement the SVGMarkerElement.
     """Represents the [SVG2] <marker> element."""
-    pass
+
+    def get_path_data(self, settings=None):
+        """Returns a list of path segments that corresponds to the path data.
+
+        Arguments:
+            settings (SVGPathDataSettings, optional): If normalize is set to
+                True then the returned list of path segments is converted to
+                the base set of absolute commands ('M', 'L', 'C' and 'Z').
+        Returns:
+            list[SVGPathSegment]: A list of path segments.
+        """
+        return []
 
 
 class SVGMeshElement(SVGGeometryElement):
@@ -1135,7 +1146,18 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
 class SVGViewElement(SVGGraphicsElement, SVGFitToViewBox, SVGZoomAndPan):
     # TODO: implement the SVGViewElement.
     """Represents the [SVG2] <view> element."""
-    pass
+
+    def get_path_data(self, settings=None):
+        """Returns a list of path segments that corresponds to the path data.
+
+        Arguments:
+            settings (SVGPathDataSettings, optional): If normalize is set to
+                True then the returned list of path segments is converted to
+                the base set of absolute commands ('M', 'L', 'C' and 'Z').
+        Returns:
+            list[SVGPathSegment]: A list of path segments.
+        """
+        return []
 
 
 class SVGElementClassLookup(etree.CustomElementClassLookup):
-- 
2.43.0


From 014eb32e907707a68101823a26a90b111f157d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 070/119] fix: type and combinator selectors match, and rules
 apply by origin, specificity and order

---
 svgpy/dom.py   |  47 ++++++++++++++------
 svgpy/style.py | 114 +++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 137 insertions(+), 24 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 650a9a5..d0c5ed3 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -23,7 +23,7 @@ from .core import CSSUtils, Font, SVGLength
 from .css import CSSStyleDeclaration
 from .exception import HierarchyRequestError, InUseAttributeError, \
     InvalidCharacterError, NotFoundError
-from .style import get_css_rules, get_css_style, \
+from .style import get_cascaded_styles, get_css_rules, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
@@ -1789,6 +1789,39 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         qname = QualifiedName(namespace, local_name)
         return self.get(qname.name)
 
+    def get_cascaded_style(self, css_rules):
+        """Gets the declared values of this element, without the inheritance.
+
+        Arguments:
+            css_rules (list[CSSRule]): A list of CSS rules.
+        Returns:
+            dict: The values that win the cascade.
+        """
+        # in ascending order of precedence:
+        #  user-agent style sheet, presentation attributes,
+        #  author style sheets, 'style' attribute,
+        #  author style sheets (important), 'style' attribute (important),
+        #  user-agent style sheet (important)
+        ua_style, ua_style_important, style, style_important = \
+            get_cascaded_styles(self, css_rules)
+        inline_style = dict()
+        inline_style_important = dict()
+        for key, value in style_to_dict(self.attrib.get('style')).items():
+            value, important = split_important(value)
+            inline_style[key] = value
+            if important:
+                inline_style_important[key] = value
+
+        cascaded_style = dict(ua_style)
+        cascaded_style.update(self.attrib)
+        cascaded_style.pop('style', None)
+        cascaded_style.update(style)
+        cascaded_style.update(inline_style)
+        cascaded_style.update(style_important)
+        cascaded_style.update(inline_style_important)
+        cascaded_style.update(ua_style_important)
+        return cascaded_style
+
     def get_computed_geometry(self):
         return {}  # override with a subclass
 
@@ -1995,17 +2028,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         css_rules = get_css_rules(self)
         element = self
         while element is not None:
-            css_style, css_style_important = get_css_style(element, css_rules)
-            css_style.update(element.attrib)
-            _style = style_to_dict(css_style.pop('style', None))
-            _style_important = dict()
-            for key, value in _style.items():
-                value, important = split_important(value)
-                css_style[key] = value
-                if important:
-                    _style_important[key] = value
-            css_style.update(css_style_important)
-            css_style.update(_style_important)
+            css_style = element.get_cascaded_style(css_rules)
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
                 if value is not None and value not in ['inherit']:
diff --git a/svgpy/style.py b/svgpy/style.py
index ff8998c..8676bc8 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -15,6 +15,8 @@
 
 from logging import getLogger
 
+from cssselect import parse as parse_selector
+from cssselect.xpath import XPathExpr
 from lxml import cssselect, etree
 
 from .css import CSSParser, CSSRule, CSSStyleSheet
@@ -65,6 +67,7 @@ symbol {
 svg|svg:root, 
 svg:root {
   fill-color: black;
+  transform-origin: 0 0;
 }
 
 svg|svg, svg {
@@ -80,9 +83,36 @@ svg|svg, svg {
 # }
 # '''
 
+# shorthand properties whose value is a part of the computed style
+_COMPUTED_SHORTHANDS = ['font-synthesis', 'mask', 'overflow',
+                        'text-decoration', 'white-space']
+
 logger = getLogger(__name__)
 
 
+class _UserAgentStyleSheet(CSSStyleSheet):
+    pass
+
+
+class _SelectorExpr(XPathExpr):
+    def add_name_test(self):
+        if self.element != '*':
+            self.add_condition('self::{}'.format(self.element))
+            self.element = '*'
+
+
+class _SelectorTranslator(cssselect.LxmlTranslator):
+    xpathexpr_cls = _SelectorExpr
+
+    def xpath_element(self, selector):
+        if selector.element and not selector.namespace:
+            # type selector without a namespace prefix:
+            #  matches the elements in any namespace
+            return self.xpathexpr_cls(element='*[local-name() = {}]'.format(
+                self.xpath_literal(selector.element)))
+        return super().xpath_element(selector)
+
+
 def flatten_css_rules(element, css_rules):
     doc = element.owner_document
     win = doc.default_view if doc is not None else None
@@ -134,7 +164,7 @@ def get_css_style_sheets(element):
     style_sheets = list()
 
     # user-agent style sheet
-    css_style_sheet = CSSStyleSheet()
+    css_style_sheet = _UserAgentStyleSheet()
     css_style_sheet.insert_rule(_SVG_UA_CSS_STYLESHEET)
     style_sheets.append(css_style_sheet)
 
@@ -276,9 +306,19 @@ def get_css_style_sheets_from_xml_stylesheet(root):
     return style_sheets
 
 
-def get_css_style(element, css_rules):
-    style = dict()
-    style_important = dict()
+def get_cascaded_styles(element, css_rules):
+    """Returns the declarations of the style rules that apply to the element,
+    in ascending order of precedence within the same origin and importance.
+
+    Arguments:
+        element (Element): An element.
+        css_rules (list[CSSRule]): A list of CSS rules.
+    Returns:
+        tuple[dict, dict, dict, dict]: The normal and important declarations
+            of the user-agent style sheet, and the normal and important
+            declarations of the author style sheets.
+    """
+    matched_rules = list()
     namespaces = element.nsmap.copy()
     uri = namespaces.pop(None, None)
     if uri is not None:
@@ -286,14 +326,11 @@ def get_css_style(element, css_rules):
     for css_rule in css_rules:
         if css_rule.type == CSSRule.STYLE_RULE:
             try:
-                selector = cssselect.CSSSelector(css_rule.selector_text,
-                                                 namespaces=namespaces)
-                matched = selector(element)
-                if len(matched) > 0 and element in matched:
-                    for key, (value, priority) in css_rule.style.items():
-                        style[key] = value
-                        if priority == 'important':
-                            style_important[key] = value
+                specificity = match_selector(element,
+                                             css_rule.selector_text,
+                                             namespaces)
+                if specificity is not None:
+                    matched_rules.append((specificity, css_rule))
             except cssselect.ExpressionError as exp:
                 logger.info('ExpressionError: {}: \'{}\''.format(
                     exp,
@@ -302,6 +339,10 @@ def get_css_style(element, css_rules):
                 logger.info('SelectorSyntaxError: {}: \'{}\''.format(
                     exp,
                     css_rule.selector_text))
+            except etree.XPathError as exp:
+                logger.info('XPathError: {}: \'{}\''.format(
+                    exp,
+                    css_rule.selector_text))
         elif css_rule.type == CSSRule.FONT_FACE_RULE:
             # TODO: support CSS @font-face at-rule.
             pass
@@ -314,4 +355,53 @@ def get_css_style(element, css_rules):
                 if len(prefix) == 0:
                     prefix = 'svg'
                 namespaces[prefix] = css_rule.namespace_uri
+
+    ua_style = dict()
+    ua_style_important = dict()
+    style = dict()
+    style_important = dict()
+    # in order of appearance, if the specificity is the same
+    for _, css_rule in sorted(matched_rules, key=lambda it: it[0]):
+        if isinstance(css_rule.parent_style_sheet, _UserAgentStyleSheet):
+            normal, important = ua_style, ua_style_important
+        else:
+            normal, important = style, style_important
+        declarations = [(key, value, priority) for key, (value, priority)
+                        in css_rule.style.items()]
+        for key in _COMPUTED_SHORTHANDS:
+            value = css_rule.style.get_property_value(key)
+            if len(value) > 0:
+                priority = css_rule.style.get_property_priority(key)
+                declarations.append((key, value, priority))
+        for key, value, priority in declarations:
+            if priority == 'important':
+                important[key] = value
+            else:
+                normal[key] = value
+    return ua_style, ua_style_important, style, style_important
+
+
+def get_css_style(element, css_rules):
+    styles = get_cascaded_styles(element, css_rules)
+    ua_style, ua_style_important, style, style_important = styles
+    style_important = {**style_important, **ua_style_important}
+    style = {**ua_style, **style, **style_important}
     return style, style_important
+
+
+def match_selector(element, selector_text, namespaces=None):
+    """Returns the specificity of the most specific selector in the selector
+    list that matches the element, or None if the element isn't matched.
+    """
+    translator = _SelectorTranslator()
+    root = element.getroottree().getroot()
+    selectors = [(selector, translator.selector_to_xpath(selector))
+                 for selector in parse_selector(selector_text)]
+    specificities = list()
+    for selector, path in selectors:
+        if selector.pseudo_element is not None:
+            continue
+        matched = root.xpath(path, namespaces=namespaces)
+        if element in matched:
+            specificities.append(selector.specificity())
+    return max(specificities) if len(specificities) > 0 else None
-- 
2.43.0


From 85f850e7f58bb219777cb3f02df84518d05befee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 071/119] fix: non-inherited properties are computed from the
 cascade

---
 svgpy/dom.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index d0c5ed3..60ded93 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1952,10 +1952,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'unicode-bidi': 'normal',
              'vector-effect': 'none',
              }
-        for key in iter(non_inherited_props):
-            style.setdefault(key,
-                             self.get(key, non_inherited_props[key]))
-
         inherited_props = \
             {'clip-rule': 'nonzero',
              'color': 'black',  # depends on user agent
@@ -2057,12 +2053,18 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         else:
                             style[key] = value
                         inherited_props.pop(key, None)
+            for key in iter(list(non_inherited_props.keys())):
+                value = css_style.get(key)
+                if value != 'inherit':
+                    initial_value = non_inherited_props.pop(key)
+                    style[key] = initial_value if value is None else value
             # 'display' property
             display = css_style.get('display')
             if display is not None and display == 'none':
                 style['display'] = 'none'
             element = element.getparent()
 
+        style.update(non_inherited_props)
         for key, value in iter(inherited_props.items()):
             if value is not None:
                 style[key] = value
-- 
2.43.0


From cda4b0b206b328348f9ce176f3767ed0da88c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 072/119] fix: relative font sizes and weights refer to the
 parent of the declaring element

---
 svgpy/core.py | 93 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 63 insertions(+), 30 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index beceea0..362abfb 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -27,6 +27,7 @@ from .css.screen import Screen
 from .fontconfig import FontConfig
 from .formatter import format_number_sequence
 from .freetype import FreeType, FTFace
+from .style import get_css_rules
 
 
 class CSSUtils(object):
@@ -66,6 +67,10 @@ class CSSUtils(object):
     # See https://dom.spec.whatwg.org/#concept-document-mode
     """list: The table of the font size for the absolute font size."""
 
+    _ABSOLUTE_LENGTH_UNITS = [
+        '', 'px', 'cm', 'mm', 'q', 'in', 'pc', 'pt',
+    ]
+
     _FONT_SIZE_TABLE_MAX = 16
     _FONT_SIZE_TABLE_MIN = 9
     _MINIMUM_FONT_SIZE = 10
@@ -111,36 +116,65 @@ class CSSUtils(object):
         elif font_size in ['larger', 'smaller']:
             # <relative-size>
             # Value: larger | smaller
-            if inherited_size is None:
-                inherited_size = Font.default_font_size
-            parent_sequence = list()
-            parent = element.getparent()
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-size')
-                if value is None:
-                    continue
-                elif value in ['larger', 'smaller']:
-                    scale_factor = 1.2 if font_size == 'larger' else 1 / 1.2
-                    inherited_size *= scale_factor
-                else:
-                    inherited_size = CSSUtils.compute_font_size(
-                        parent,
-                        inherited_size,
-                        {'font-size': value})
-            px = inherited_size
+            px = CSSUtils._compute_relative_font_size(element, inherited_size)
         else:
             # <length> or <percentage>
             # See https://drafts.csswg.org/css-values-3/#lengths
             fs = SVGLength(font_size, context=element)
-            px = fs.value()
+            if fs.unit in CSSUtils._ABSOLUTE_LENGTH_UNITS:
+                px = fs.value()
+            else:
+                px = CSSUtils._compute_relative_font_size(element,
+                                                          inherited_size)
 
         if px < CSSUtils._MINIMUM_FONT_SIZE:
             px = CSSUtils._MINIMUM_FONT_SIZE
         return float(px)
 
+    @staticmethod
+    def _compute_relative_font_size(element, inherited_size=None):
+        # the relative values refer to the parent element's font size
+        root = element.getroottree().getroot()
+        css_rules = get_css_rules(element)
+        initial_size = CSSUtils.compute_font_size(
+            root,
+            inherited_style={'font-size': Font.CSS_DEFAULT_FONT_SIZE})
+        px = initial_size if inherited_size is None else inherited_size
+        for node in CSSUtils._get_inclusive_ancestors(element):
+            style = node.get_cascaded_style(css_rules)
+            font_size = style.get('font-size')
+            if font_size is None and style.get('font') is not None:
+                font_size = CSSUtils.parse_font(style['font']).get('font-size')
+            if font_size is None or font_size == 'inherit':
+                continue
+            elif font_size == 'larger':
+                px *= 1.2
+            elif font_size == 'smaller':
+                px /= 1.2
+            elif font_size in CSSUtils._ABSOLUTE_FONT_SIZE_MAP:
+                px = CSSUtils.compute_font_size(
+                    node, inherited_style={'font-size': font_size})
+            else:
+                fs = SVGLength(font_size, context=node)
+                number = fs.value(fs.unit)
+                if fs.unit == SVGLength.TYPE_EMS:
+                    px *= number
+                elif fs.unit == SVGLength.TYPE_PERCENTAGE:
+                    px *= number / 100
+                elif fs.unit == SVGLength.TYPE_REMS and node is root:
+                    px = initial_size * number
+                else:
+                    px = fs.value()
+            px = max(px, CSSUtils._MINIMUM_FONT_SIZE)
+        return px
+
+    @staticmethod
+    def _get_inclusive_ancestors(element):
+        ancestors = list(element.iterancestors())
+        ancestors.reverse()
+        ancestors.append(element)
+        return ancestors
+
     @staticmethod
     def compute_font_size_adjust(style):
         # 'font-size-adjust' property
@@ -171,14 +205,13 @@ class CSSUtils(object):
             # Value: bolder | lighter
             if inherited_weight is None:
                 inherited_weight = Font.default_font_weight
-            parent_sequence = list()
-            parent = element.getparent()
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-weight')
-                if value is None:
+            css_rules = get_css_rules(element)
+            for node in CSSUtils._get_inclusive_ancestors(element):
+                style = node.get_cascaded_style(css_rules)
+                value = style.get('font-weight')
+                if value is None and style.get('font') is not None:
+                    value = CSSUtils.parse_font(style['font']).get('font-weight')
+                if value is None or value == 'inherit':
                     continue
                 elif value in ['bolder', 'lighter']:
                     xp = CSSUtils._INHERITED_WEIGHT_LIST
@@ -187,7 +220,7 @@ class CSSUtils(object):
                     inherited_weight = np.interp(inherited_weight, xp, fp)
                 else:
                     inherited_weight = CSSUtils.compute_font_weight(
-                        parent,
+                        node,
                         inherited_weight,
                         {'font-weight': value})
             weight = inherited_weight
-- 
2.43.0


From 5f2d94848509dcbb0d61a57d12b290ce0327a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 073/119] fix: math functions honour precedence, parentheses
 and malformed input

---
 svgpy/css/types.py | 286 +++++++++++++++------------------------------
 1 file changed, 95 insertions(+), 191 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 1909543..c4bb405 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -832,40 +832,6 @@ class CSSKeywordValue(CSSStyleValue):
         self._value = value
 
 
-class _MathExpression(object):
-
-    def __init__(self, parent, operator, values):
-        self._parent = parent
-        self._operator = operator
-        self._values = list(values)
-
-    def __repr__(self):
-        return repr({
-            'operator': self._operator,
-            'values': self._values
-        })
-
-    @property
-    def operator(self):
-        return self._operator
-
-    @operator.setter
-    def operator(self, operator):
-        self._operator = operator
-
-    @property
-    def parent(self):
-        return self._parent
-
-    @parent.setter
-    def parent(self, parent):
-        self._parent = parent
-
-    @property
-    def values(self):
-        return self._values
-
-
 class CSSNumericValue(CSSStyleValue):
     """Represents the base class of all numeric CSS values."""
 
@@ -873,138 +839,99 @@ class CSSNumericValue(CSSStyleValue):
         super().__init__()
 
     @staticmethod
-    def _parse_math_expression(css_text, token, root_node=None):
+    def _parse_math_function(css_text, token):
         function_name = token.lower_name
+        if function_name not in ('calc', 'clamp', 'max', 'min'):
+            raise ValueError('Invalid math expression: ' + repr(css_text))
+
+        args = list([[]])
+        for arg in token.arguments:
+            if arg.type == 'literal' and arg.value == ',':
+                args.append([])
+            elif arg.type not in ('comment', 'whitespace'):
+                args[-1].append(arg)
+        values = [CSSNumericValue._parse_math_sum(css_text, arg)
+                  for arg in args]
         if function_name == 'calc':
-            operator = None
+            if len(values) != 1:
+                raise ValueError('Invalid math expression: '
+                                 + repr(css_text))
+            value = values[0]
+            if len(args[0]) == 1:
+                value = CSSMathSum(value)
+            return value
         elif function_name == 'clamp':
-            operator = CSSMathOperator.CLAMP
+            if len(values) != 3:
+                raise ValueError('Invalid math expression: '
+                                 + repr(css_text))
+            return CSSMathClamp(*values)
         elif function_name == 'max':
-            operator = CSSMathOperator.MAX
-        elif function_name == 'min':
-            operator = CSSMathOperator.MIN
-        else:
-            raise ValueError('Invalid math expression: ' + repr(token))
+            return CSSMathMax(*values)
+        return CSSMathMin(*values)
 
-        args = [arg for arg in token.arguments if arg.type != 'whitespace']
-        if len(args) == 0:
+    @staticmethod
+    def _parse_math_product(css_text, tokens, negate=False, first=True):
+        # <product> = <value> [ '*' <value> | '/' <value> ]*
+        if len(tokens) % 2 == 0:
             raise ValueError('Invalid math expression: ' + repr(css_text))
-        current_node = _MathExpression(root_node, operator, [])
-        while len(args) > 0:
-            arg = args.pop(0)
-            operator = current_node.operator
-            if arg.type == 'literal':
-                literal = arg.value
-                if (literal == ',' and operator in (CSSMathOperator.CLAMP,
-                                                    CSSMathOperator.MAX,
-                                                    CSSMathOperator.MIN)):
+        value = CSSNumericValue._parse_numeric_value(css_text, tokens[0])
+        if negate:
+            value = CSSMathNegate(value)
+        if len(tokens) == 1:
+            return value
+        values = list([value])
+        for operator, token in zip(tokens[1::2], tokens[2::2]):
+            value = CSSNumericValue._parse_numeric_value(css_text, token)
+            if operator.value == '/':
+                value = CSSMathInvert(value)
+            elif (not first
+                  and len(values) == 2
+                  and isinstance(values[1], CSSMathInvert)):
+                values = list([CSSMathProduct(*values)])
+            values.append(value)
+        return CSSMathProduct(*values)
+
+    @staticmethod
+    def _parse_math_sum(css_text, tokens):
+        # <sum> = <product> [ '+' <product> | '-' <product> ]*
+        products = list([('+', [])])
+        for token in tokens:
+            if token.type == 'literal':
+                if token.value in ('+', '-'):
+                    products.append((token.value, []))
                     continue
-                elif literal == '*':
-                    if operator is None:
-                        current_node.operator = CSSMathOperator.PRODUCT
-                    elif operator != CSSMathOperator.PRODUCT:
-                        previous_node = current_node
-                        previous_value = previous_node.values.pop(-1)
-                        current_node = _MathExpression(
-                            previous_node,
-                            CSSMathOperator.PRODUCT,
-                            [previous_value])
-                        previous_node.values.append(current_node)
-                elif literal == '+':
-                    if operator is None:
-                        current_node.operator = CSSMathOperator.SUM
-                    elif operator != CSSMathOperator.SUM:
-                        while True:
-                            parent_node = current_node.parent
-                            if parent_node is None:
-                                break
-                            current_node = parent_node
-                        previous_node = current_node
-                        current_node = _MathExpression(
-                            previous_node.parent,
-                            CSSMathOperator.SUM,
-                            [previous_node])
-                        previous_node.parent = current_node
-                elif literal == '/':
-                    if len(args) == 0:
-                        raise ValueError('Invalid math expression: '
-                                         + repr(css_text))
-                    next_token = args.pop(0)
-                    next_value = CSSNumericValue._parse_numeric_value(
-                        css_text, next_token, root_node=current_node)
-                    next_node = _MathExpression(
-                        current_node,
-                        CSSMathOperator.INVERT,
-                        [next_value])
-                    if operator == CSSMathOperator.PRODUCT:
-                        current_node.values.append(next_node)
-                    else:
-                        if len(current_node.values) == 1:
-                            current_node.operator = CSSMathOperator.PRODUCT
-                            current_node.values.append(next_node)
-                        else:
-                            previous_value = current_node.values.pop(-1)
-                            node = _MathExpression(
-                                current_node,
-                                CSSMathOperator.PRODUCT,
-                                [previous_value, next_node])
-                            current_node.values.append(node)
-                elif literal == '-':
-                    # TODO: fix process of a "negate" node.
-                    if len(args) == 0:
-                        raise ValueError('Invalid math expression: '
-                                         + repr(css_text))
-                    next_token = args.pop(0)
-                    next_value = CSSNumericValue._parse_numeric_value(
-                        css_text, next_token, root_node=current_node)
-                    next_node = _MathExpression(
-                        current_node,
-                        CSSMathOperator.NEGATE,
-                        [next_value])
-                    if operator == CSSMathOperator.SUM:
-                        current_node.values.append(next_node)
-                    else:
-                        if len(current_node.values) == 1:
-                            current_node.operator = CSSMathOperator.SUM
-                            current_node.values.append(next_node)
-                        else:
-                            parent_node = current_node.parent
-                            if parent_node is None:
-                                parent_node = _MathExpression(
-                                    None,
-                                    CSSMathOperator.SUM,
-                                    [current_node, next_node])
-                                current_node.parent = parent_node
-                                next_node.parent = parent_node
-                                current_node = parent_node
-                            else:
-                                previous_value = parent_node.values.pop(-1)
-                                node = _MathExpression(
-                                    current_node,
-                                    CSSMathOperator.SUM,
-                                    [previous_value, next_node])
-                                parent_node.values.append(node)
-                else:
-                    raise ValueError('Invalid math expression: ' + repr(arg))
-            else:
-                node = CSSNumericValue._parse_numeric_value(
-                    css_text,
-                    arg,
-                    root_node=current_node)
-                current_node.values.append(node)
-
-        while True:
-            parent_node = current_node.parent
-            if (parent_node is None
-                    or (root_node is not None
-                        and parent_node is not None
-                        and parent_node == root_node)):
-                break
-            current_node = parent_node
-        return current_node
+                elif (token.value not in ('*', '/')
+                      or len(products[-1][1]) % 2 == 0):
+                    raise ValueError('Invalid math expression: '
+                                     + repr(css_text))
+            elif len(products[-1][1]) % 2 != 0:
+                raise ValueError('Invalid math expression: '
+                                 + repr(css_text))
+            products[-1][1].append(token)
+
+        values = list()
+        stack = list([values])
+        for i, (operator, product) in enumerate(products):
+            if (operator == '-'
+                    and len(values) > 1
+                    and len(products[i - 1][1]) > 1
+                    and products[i - 1][0] == '+'):
+                # 'a + b * c - d' => CSSMathSum(a, CSSMathSum(b * c, -d))
+                values = list([values.pop(-1)])
+                stack.append(values)
+            values.append(
+                CSSNumericValue._parse_math_product(css_text,
+                                                    product,
+                                                    operator == '-',
+                                                    i == 0))
+        while len(stack) > 1:
+            values = stack.pop(-1)
+            stack[-1].append(CSSMathSum(*values))
+        values = stack[0]
+        return values[0] if len(values) == 1 else CSSMathSum(*values)
 
     @staticmethod
-    def _parse_numeric_value(css_text, token, root_node=None):
+    def _parse_numeric_value(css_text, token):
         if token.type == 'number':
             # <number-token>
             return CSSUnitValue(token.value, UnitType.NUMBER)
@@ -1014,40 +941,16 @@ class CSSNumericValue(CSSStyleValue):
         elif token.type == 'dimension':
             # <dimension-token>
             return CSSUnitValue(token.value, token.unit)
+        elif token.type == '() block':
+            # '(' <sum> ')'
+            return CSSNumericValue._parse_math_sum(
+                css_text,
+                [token for token in token.content
+                 if token.type not in ('comment', 'whitespace')])
         elif token.type == 'function':
             # 'math function'
-            return CSSNumericValue._parse_math_expression(
-                css_text,
-                token,
-                root_node=root_node)
-        raise ValueError('Invalid math expression: ' + repr(token))
-
-    @staticmethod
-    def _reify_math_expression(node):
-        if isinstance(node, CSSNumericValue):
-            return node
-        assert isinstance(node, _MathExpression)
-        operator = node.operator
-        if operator is None or operator == CSSMathOperator.SUM:
-            expression = CSSMathSum
-        elif operator == CSSMathOperator.CLAMP:
-            expression = CSSMathClamp
-        elif operator == CSSMathOperator.INVERT:
-            expression = CSSMathInvert
-        elif operator == CSSMathOperator.MAX:
-            expression = CSSMathMax
-        elif operator == CSSMathOperator.MIN:
-            expression = CSSMathMin
-        elif operator == CSSMathOperator.NEGATE:
-            expression = CSSMathNegate
-        elif operator == CSSMathOperator.PRODUCT:
-            expression = CSSMathProduct
-        else:
-            raise ValueError('Invalid math expression: ' + repr(operator))
-        args = list()
-        for arg in node.values:
-            args.append(CSSNumericValue._reify_math_expression(arg))
-        return expression(*args)
+            return CSSNumericValue._parse_math_function(css_text, token)
+        raise ValueError('Invalid math expression: ' + repr(css_text))
 
     def add(self, *values):
         values = CSSNumericValue.rectify_values(values)
@@ -1124,8 +1027,9 @@ class CSSNumericValue(CSSStyleValue):
         """
         token = tinycss2.parse_one_component_value(css_text,
                                                    skip_comments=True)
-        node = CSSNumericValue._parse_numeric_value(css_text, token)
-        value = CSSNumericValue._reify_math_expression(node)
+        if token.type == '() block':
+            raise ValueError('Invalid math expression: ' + repr(css_text))
+        value = CSSNumericValue._parse_numeric_value(css_text, token)
         value._css_text = css_text
         return value
 
-- 
2.43.0


From 7931ec947b9bfac196eaed658ca267d649835786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 074/119] fix: negated, inverted and clamped values compare
 structurally

---
 svgpy/css/types.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index c4bb405..6d26198 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -993,6 +993,18 @@ class CSSNumericValue(CSSStyleValue):
                 for value1, value2 in zip(self.values, item.values):
                     if not value1.equals(value2):
                         return False
+            elif ((isinstance(self, CSSMathNegate)
+                   and isinstance(item, CSSMathNegate))
+                  or (isinstance(self, CSSMathInvert)
+                      and isinstance(item, CSSMathInvert))):
+                if not self.value.equals(item.value):
+                    return False
+            elif (isinstance(self, CSSMathClamp)
+                  and isinstance(item, CSSMathClamp)):
+                if not (self.min.equals(item.min)
+                        and self.val.equals(item.val)
+                        and self.max.equals(item.max)):
+                    return False
             else:
                 return False
         return True
-- 
2.43.0


From 5bd01fa3e635f45456623ef309eb8350c2d4a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 075/119] fix: conversions to units keep powers and accept
 mixed sums

---
 svgpy/css/types.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 6d26198..5574695 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1067,15 +1067,7 @@ class CSSNumericValue(CSSStyleValue):
         sum_value = self.create_sum_value()
         if sum_value is None or len(sum_value) != 1:
             raise ValueError('Cannot convert to ' + repr(unit))
-        value, unit_map = sum_value[0]
-        units = [unit for unit, power in unit_map.items() if power != 0]
-        unit_map_length = len(units)
-        if unit_map_length == 0:
-            item = CSSUnitValue(value, UnitType.NUMBER)
-        elif unit_map_length > 1:
-            raise ValueError('Incompatible types')
-        else:
-            item = CSSUnitValue(value, units[0])
+        item = CSSUnitValue.create_from_sum_value_item(sum_value[0])
         if item.unit == unit.lower():
             return item
         return item.to(unit)
@@ -1084,6 +1076,9 @@ class CSSNumericValue(CSSStyleValue):
         for unit in units:
             _ = CSSNumericType.create_type(unit)
         sum_value = self.create_sum_value()
+        if sum_value is None:
+            raise ValueError('Cannot convert to a sum of CSSUnitValue')
+        units = [unit.lower() for unit in units]
         values = list()
         for item in sum_value:
             values.append(CSSUnitValue.create_from_sum_value_item(item))
@@ -1101,7 +1096,7 @@ class CSSNumericValue(CSSStyleValue):
                             and canonical_unit2 is not None
                             and canonical_unit1 == canonical_unit2)):
                     temp.value += value.to(unit).value
-                    values.remove(value)
+                    values = [x for x in values if x is not value]
                     break
             result.append(temp)
         if len(values) > 0:
-- 
2.43.0


From ce55056b995b937a63094de9746343939821fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 076/119] fix: types of sums, products and inverses account for
 percentages and powers

---
 svgpy/css/types.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 5574695..214e169 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -182,7 +182,12 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
                  if type1[key] != 0}
         keys2 = {key for key in set(type2) & base_type_keys
                  if type2[key] != 0}
-        if (all(key in type2 for key in keys1)
+        if len(keys1 | keys2) == 0:
+            same_percent = True
+        else:
+            same_percent = (type1.percent or 0) == (type2.percent or 0)
+        if (same_percent
+                and all(key in type2 for key in keys1)
                 and all(key in type1 for key in keys2)
                 and all(type1[key] == type2[key]
                         for key in keys1 | keys2)):
@@ -205,6 +210,8 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
                     CSSNumericType.apply_percent_hint(type2, key)
                 if type1.get(key, 0) != type2.get(key, 0):
                     return None
+            if (type1.percent or 0) != (type2.percent or 0):
+                return None
             final_type.update(type1)
             for key in set(type2) & base_type_keys:
                 if key not in final_type and type2[key] != 0:
@@ -326,7 +333,8 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
         final_type.update(type1)
         base_type_keys = {CSSNumericType.LENGTH, CSSNumericType.ANGLE,
                           CSSNumericType.TIME, CSSNumericType.FREQUENCY,
-                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX}
+                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX,
+                          CSSNumericType.PERCENT}
         for key in set(type2) & base_type_keys:
             power = type2[key]
             if key in final_type:
@@ -1174,9 +1182,10 @@ class CSSMathInvert(CSSMathValue):
         super().__init__()
         values = CSSNumericValue.rectify_values([arg])
         self._value = values[0]
-        self._type = self._value.type()
+        self._type = self._value.type().copy()
         for key in list(self._type):
-            self._type[key] *= -1
+            if key != CSSNumericType.PERCENT_HINT:
+                self._type[key] *= -1
 
     @property
     def operator(self):
-- 
2.43.0


From e92c7b37ecaaaefa004d8cb3ea2022b1d3928101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 077/119] fix: nested math values serialize to valid
 expressions

---
 svgpy/css/types.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 214e169..c2e8264 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1213,7 +1213,10 @@ class CSSMathInvert(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
-        s += '1 / ' + self._value.tostring(**kwargs)
+        kwargs2 = kwargs.copy()
+        kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
+        s += '1 / ' + self._value.tostring(**kwargs2)
         if not paren_less:
             s += ')'
         return s
@@ -1361,8 +1364,11 @@ class CSSMathNegate(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
+        kwargs2 = kwargs.copy()
+        kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += '-'
-        s += self._value.tostring(**kwargs)
+        s += self._value.tostring(**kwargs2)
         if not paren_less:
             s += ')'
         return s
@@ -1424,6 +1430,7 @@ class CSSMathProduct(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathInvert):
@@ -1504,6 +1511,7 @@ class CSSMathSum(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathNegate):
-- 
2.43.0


From 1543889ce766c7beace22ee6901ff36a7d8289c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 078/119] fix: sum values group terms by the powers of their
 units

---
 svgpy/css/types.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index c2e8264..df6a7a7 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1478,9 +1478,8 @@ class CSSMathSum(CSSMathValue):
             if value is None:
                 return None
             for sub_value, sub_unit_map in value:
-                sub_unit_map_keys = sorted(sub_unit_map.keys())
                 found = [i for i, (value, unit_map) in enumerate(values)
-                         if sorted(unit_map.keys()) == sub_unit_map_keys]
+                         if unit_map == sub_unit_map]
                 if len(found) == 0:
                     values.append([sub_value, sub_unit_map])
                 else:
-- 
2.43.0


From 309bd314b8c18e5499fcedbb9c07b05a2b26f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 079/119] fix: assigning the value of a parsed unit value drops
 its source text

---
 svgpy/css/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index df6a7a7..5b9751d 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1617,6 +1617,7 @@ class CSSUnitValue(CSSNumericValue):
     @value.setter
     def value(self, value):
         self._value = Decimal(value)
+        self._css_text = None
 
     @staticmethod
     def create_from_sum_value_item(item):
-- 
2.43.0


From 9c70ffaa2f2f26fc1dddd2244467ad28c854a686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 080/119] fix: assigning the value of a parsed keyword value
 drops its source text

---
 svgpy/css/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 5b9751d..459316c 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -838,6 +838,7 @@ class CSSKeywordValue(CSSStyleValue):
         if value is None or len(value) == 0:
             raise ValueError('Expected non-empty string')
         self._value = value
+        self._css_text = None
 
 
 class CSSNumericValue(CSSStyleValue):
-- 
2.43.0


From bd5ea5c8b5c2173833b388532b6e6aeaf767cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 081/119] fix: unparsed values are modified in place and
 serialize their current tokens

---
 svgpy/css/types.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 459316c..37cef09 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -513,6 +513,7 @@ class CSSStyleValue(object):
             # unregistered custom property or
             # underlying value contains a var() reference
             value = CSSStyleValue._reify_component_values(tokens)
+            value._source = value.tostring()
             reified_values.append(value)
         else:
             # registered custom property or
@@ -1694,6 +1695,7 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
                 A list of string or CSSVariableReferenceValue objects.
         """
         super().__init__()
+        self._source = None
         self._tokens = list()
         if members is not None:
             self.extend(members)
@@ -1720,10 +1722,7 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
                 raise TypeError("Expected str or CSSVariableReferenceValue,"
                                 " got " + repr(type(item)))
 
-        if isinstance(index, int):
-            self._tokens.insert(index, value)
-        else:
-            self._tokens[index] = value
+        self._tokens[index] = value
 
     @property
     def length(self):
@@ -1731,18 +1730,19 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
         return len(self)
 
     def insert(self, index, value):
-        self[index] = value
+        self[index:index] = [value]
 
     def tostring(self, **kwargs):
-        if self._css_text is not None:
-            return self._css_text
         s = list()
         for token in self._tokens:
             if isinstance(token, CSSVariableReferenceValue):
                 token = token.tostring(**kwargs)
-            print(repr(token))
             s.append(token)
-        return ''.join(s)
+        s = ''.join(s)
+        if self._css_text is not None and s == self._source:
+            # not modified after parsing
+            return self._css_text
+        return s
 
 
 class CSSURLImageValue(CSSImageValue):
-- 
2.43.0


From 4913e1be99ee0138311b7deb942364aa2322e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 082/119] fix: variable references are found in blocks, in any
 case and with empty fallbacks

---
 svgpy/css/types.py | 97 ++++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 42 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 37cef09..725fc68 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -34,8 +34,6 @@ _RE_REAL_NUMBER = re.compile(r'[+-]?[0-9]*\.?[0-9]+(e[+-]?[0-9]+)?',
 
 _RE_URL_FUNCTION = re.compile(r'^url\((?P<value>[^)]+)\)$')
 
-_RE_VAR_FUNCTION = re.compile(r'(^|\s|\t|\*|/|\(|,)var\(')
-
 list_valued_properties = [
     'animation', 'animation-delay', 'animation-direction',
     'animation-duration', 'animation-fill-mode', 'animation-iteration-count',
@@ -491,6 +489,19 @@ class CSSStyleValue(object):
     def value(self):
         return self._value
 
+    @staticmethod
+    def _has_variable_reference(tokens):
+        for token in tokens:
+            if token.type == 'function':
+                if (token.lower_name == 'var'
+                        or CSSStyleValue._has_variable_reference(
+                            token.arguments)):
+                    return True
+            elif (token.type in ('() block', '[] block', '{} block')
+                  and CSSStyleValue._has_variable_reference(token.content)):
+                return True
+        return False
+
     @staticmethod
     def _parse_css_style_value(property_name, css_text, context=None):
         if context is None:
@@ -507,7 +518,7 @@ class CSSStyleValue(object):
         reified_values = list()
         tokens = tinycss2.parse_component_value_list(css_text,
                                                      skip_comments=True)
-        if (_RE_VAR_FUNCTION.search(css_text)
+        if (CSSStyleValue._has_variable_reference(tokens)
                 or (property_name.startswith('--')
                     and property_name not in context.registered_property_set)):
             # unregistered custom property or
@@ -592,49 +603,51 @@ class CSSStyleValue(object):
     @staticmethod
     def _reify_component_values(tokens):
         members = list()
-        single_string = ''
+
+        def append(item):
+            if (isinstance(item, str)
+                    and len(members) > 0
+                    and isinstance(members[-1], str)):
+                members[-1] += item
+            else:
+                members.append(item)
+
+        blocks = {
+            '() block': ('(', ')'),
+            '[] block': ('[', ']'),
+            '{} block': ('{', '}'),
+        }
         for token in tokens:
-            if token.type == 'function':
-                if token.lower_name == 'var':
-                    if len(single_string) > 0:
-                        members.append(single_string)
-                        single_string = ''
-                    variable = ''
-                    args = list(token.arguments)
-                    while len(args) > 0:
-                        arg = args.pop(0)
-                        if arg.type == 'literal' and arg.value == ',':
-                            break
-                        variable += tinycss2.serialize([arg])
-                    variable = variable.strip()
-                    if len(args) == 0:
-                        fallback = None
-                    else:
-                        fallback = CSSStyleValue._reify_component_values(args)
-                    unparsed_value = CSSVariableReferenceValue(variable,
-                                                               fallback)
-                    members.append(unparsed_value)
+            if token.type == 'function' and token.lower_name == 'var':
+                args = list(token.arguments)
+                commas = [i for i, arg in enumerate(args)
+                          if arg.type == 'literal' and arg.value == ',']
+                if len(commas) == 0:
+                    variable = args
+                    fallback = None
+                else:
+                    variable = args[:commas[0]]
+                    fallback = CSSStyleValue._reify_component_values(
+                        args[commas[0] + 1:])
+                append(CSSVariableReferenceValue(
+                    ''.join([tinycss2.serialize([arg])
+                             for arg in variable]).strip(),
+                    fallback))
+            elif token.type == 'function' or token.type in blocks:
+                if token.type == 'function':
+                    prefix, suffix = token.name + '(', ')'
+                    content = token.arguments
                 else:
-                    single_string += token.name + '('
-                    unparsed_value = CSSStyleValue._reify_component_values(
-                        token.arguments)
-                    if (len(unparsed_value) > 0
-                            and isinstance(unparsed_value[0], str)):
-                        single_string += unparsed_value.pop(0)
-                    members.append(single_string)
-                    single_string = ''
-                    if (len(unparsed_value) > 0
-                            and isinstance(unparsed_value[-1], str)):
-                        single_string = unparsed_value.pop(-1)
-                    members.extend(unparsed_value)
-                    single_string += ')'
+                    prefix, suffix = blocks[token.type]
+                    content = token.content
+                append(prefix)
+                for item in CSSStyleValue._reify_component_values(content):
+                    append(item)
+                append(suffix)
             else:
-                single_string += tinycss2.serialize([token])
+                append(tinycss2.serialize([token]))
 
-        if len(single_string) > 0:
-            members.append(single_string)
-        unparsed_value = CSSUnparsedValue(members)
-        return unparsed_value
+        return CSSUnparsedValue(members)
 
     @staticmethod
     def _reify_css_style_value(property_name, components):
-- 
2.43.0


From 6b1c68c9c5fb61ba7c028cb96393d891497a32b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 083/119] fix: registered custom properties are parsed by their
 syntax

---
 svgpy/css/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 725fc68..9442eab 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -530,6 +530,8 @@ class CSSStyleValue(object):
             # registered custom property or
             # single property in CSS
             desc = css_property_descriptor_map.get(property_name)
+            if desc is None:
+                desc = context.registered_property_set.get(property_name)
             if desc is None:
                 desc = PropertyDescriptor(
                     name=property_name,
-- 
2.43.0


From cd4711e35fc9286a064566c2f86b9b2977c281ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 084/119] fix: style property maps answer membership and
 missing keys as mappings

---
 svgpy/css/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 9442eab..81275bd 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1832,7 +1832,12 @@ class StylePropertyMapReadOnly(Mapping):
         """
         self._declarations = declaration  # type: dict
 
+    def __contains__(self, property_name):
+        return self.has(property_name)
+
     def __getitem__(self, property_name):
+        if not self.has(property_name):
+            raise KeyError(property_name)
         return self.get_all(property_name)
 
     def __iter__(self):
-- 
2.43.0


From 6d21b542b47c854856463216dbcf80b71e15501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 085/119] fix: strings do not match keywords and colors

---
 svgpy/css/props.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/svgpy/css/props.py b/svgpy/css/props.py
index 3ee55fa..e9cfb75 100644
--- a/svgpy/css/props.py
+++ b/svgpy/css/props.py
@@ -261,16 +261,18 @@ class PropertyDescriptor(object):
             value = token.value
 
             # CSS-wide keywords
-            if value.lower() in css_wide_keyword_set:
+            if (token.type == 'ident'
+                    and value.lower() in css_wide_keyword_set):
                 return True, None
 
             # <custom-ident> type
-            if value in self._identifiers:
+            if token.type == 'ident' and value in self._identifiers:
                 return True, PropertySyntax.CUSTOM_IDENT
 
             # <color> type (<named-color> or 'currentcolor')
-            if (self._syntax_components[PropertySyntax.ANY]
-                    or self._syntax_components[PropertySyntax.COLOR]):
+            if (token.type == 'ident'
+                    and (self._syntax_components[PropertySyntax.ANY]
+                         or self._syntax_components[PropertySyntax.COLOR])):
                 if value.lower() == 'currentcolor':
                     return True, PropertySyntax.CUSTOM_IDENT
 
-- 
2.43.0


From cbe883cb648801525e2e1b374c90676ac991d746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 086/119] fix: frequencies and flex values are not lengths

---
 svgpy/css/props.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgpy/css/props.py b/svgpy/css/props.py
index e9cfb75..e89a1ef 100644
--- a/svgpy/css/props.py
+++ b/svgpy/css/props.py
@@ -182,12 +182,7 @@ class PropertyDescriptor(object):
             # <length-percentage> or <length> type
             elif unit in ('em', 'ex', 'cap', 'ch', 'ic', 'rem', 'lh', 'rlh',
                           'vw', 'vh', 'vi', 'vb', 'vmin', 'vmax',
-                          'cm', 'mm', 'q', 'in', 'pt', 'pc', 'px',
-                          'deg', 'grad', 'rad', 'turn',
-                          's', 'ms',
-                          'hz', 'khz',
-                          'dpi', 'dpcm', 'dppx',
-                          'fr'):
+                          'cm', 'mm', 'q', 'in', 'pt', 'pc', 'px'):
                 # <length> type
                 if (self._syntax_components[PropertySyntax.ANY]
                         or self._syntax_components[PropertySyntax.LENGTH]):
@@ -197,6 +192,11 @@ class PropertyDescriptor(object):
                 elif self._syntax_components[PropertySyntax.LENGTH_PERCENTAGE]:
                     return True, PropertySyntax.LENGTH_PERCENTAGE
 
+            # <frequency> or <flex> type
+            elif unit in ('hz', 'khz', 'fr'):
+                if self._syntax_components[PropertySyntax.ANY]:
+                    return True, PropertySyntax.LENGTH
+
             return False, None
         elif token.type == 'function':
             # <function-token>
-- 
2.43.0


From dacad05d69d8bbc04d2bd8b91b16edc263d47d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 087/119] fix: references to custom properties keep their
 dashes in declarations

---
 svgpy/css/__init__.py   |  7 ++++---
 svgpy/css/shorthands.py |  3 ++-
 svgpy/utils.py          | 14 +++++++++++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 58bb478..25dd10e 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -36,7 +36,8 @@ from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     StylePropertyMap, StylePropertyMapReadOnly, UnitType
 from ..exception import NoModificationAllowedError
 from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
-    load, normalize_url, split_important, style_to_dict
+    load, normalize_url, serialize_component_list, split_important, \
+    style_to_dict
 
 # white spaces inside strings or ending an escape are part of the value
 _RE_COLLAPSIBLE_WHITESPACE = re.compile(
@@ -1437,7 +1438,7 @@ class CSSStyleDeclaration(MutableMapping):
         for node in nodes:
             if node.type == 'declaration':
                 property_name = node.name
-                value = tinycss2.serialize(node.value)
+                value = serialize_component_list(node.value)
                 if len(value.strip()) == 0:
                     continue
                 priority = 'important' if node.important else ''
@@ -1462,7 +1463,7 @@ class CSSStyleDeclaration(MutableMapping):
     def _set_css_declaration(self, declarations, property_name,
                              component_list, priority):
         _ = self
-        value = tinycss2.serialize(component_list).strip()
+        value = serialize_component_list(component_list).strip()
         if len(value) == 0:
             return False
         if value.lower() in css_color_keyword_set | css_wide_keyword_set:
diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index b92c44f..c71afea 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -21,6 +21,7 @@ import tinycss2
 
 from .props import css_property_descriptor_map, css_wide_keyword_set, \
     PropertySyntax
+from ..utils import serialize_component_list
 
 _RE_CSS_VERSION = re.compile(r'-css[0-9]$')
 
@@ -235,7 +236,7 @@ class ShorthandProperty(ABC):
         declarations = self._declarations
         updated = False
         for property_name, component_list in components_map.items():
-            value = tinycss2.serialize(component_list).strip()
+            value = serialize_component_list(component_list).strip()
             updated = True
             if property_name in declarations:
                 declarations.move_to_end(property_name)
diff --git a/svgpy/utils.py b/svgpy/utils.py
index 12ef474..b0373f5 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -242,6 +242,18 @@ def remove_quotes(src):
     return src
 
 
+def serialize_component_list(component_list):
+    """Serializes a list of component values.
+
+    Arguments:
+        component_list (list): A list of component values.
+    Returns:
+        str: The serialized text.
+    """
+    # a dashed identifier is parsed into a '-' literal and an identifier
+    return tinycss2.serialize(component_list).replace('-/**/-', '--')
+
+
 def split_important(value):
     """Splits '!important' from the value of a declaration.
 
@@ -279,7 +291,7 @@ def style_to_dict(text):
         if index < 0 or any(node.type == 'error' for node in nodes):
             continue
         name = ''.join(node.serialize() for node in nodes[:index]).strip()
-        value = tinycss2.serialize(nodes[index + 1:]).strip()
+        value = serialize_component_list(nodes[index + 1:]).strip()
         if len(name.split()) != 1 or len(value) == 0:
             continue
         if not name.startswith('--'):
-- 
2.43.0


From 548e922d548e8a9da321ea5781d084c905dbafd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 088/119] fix: class names are separated by ASCII white-space
 and are literal

---
 svgpy/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index b0373f5..d65ae63 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -29,6 +29,8 @@ from .url import Location, URL
 
 _ASCII_WHITESPACE = '\t\n\f\r\x20'
 
+_RE_CLASS_NAME = re.compile(r'[^\t\n\f\r\x20]+')
+
 _RE_IMPORTANT = re.compile(r'\s*!\s*important$', re.IGNORECASE)
 
 _RE_QUALIFIED_NAME = re.compile(
@@ -103,19 +105,19 @@ def get_elements_by_class_name(element, class_names, nsmap=None,
     Returns:
         list[Element]: A list of elements.
     """
-    names = class_names.split()
+    names = _RE_CLASS_NAME.findall(class_names)
     if len(names) == 0:
         return []
     if include_self:
         axis = 'descendant-or-self'
     else:
         axis = 'descendant'
-    patterns = [r're:test(@class, "(^| ){}($| )")'.format(x) for x in names]
+    variables = {'class{}'.format(i): ' {} '.format(name)
+                 for i, name in enumerate(names)}
+    patterns = ['contains(concat(" ", normalize-space(@class), " "), ${})'
+                .format(x) for x in variables]
     expr = '{}::*[{}]'.format(axis, ' and '.join(patterns))
-    if nsmap is None:
-        nsmap = dict()
-    nsmap['re'] = 'http://exslt.org/regular-expressions'
-    return element.xpath(expr, namespaces=nsmap)
+    return element.xpath(expr, namespaces=nsmap, **variables)
 
 
 def get_elements_by_tag_name(element, qualified_name, nsmap=None,
-- 
2.43.0


From a9b8aa5978e03676459b089d2b3178f10a19c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 089/119] fix: query_selector matches types in any namespace
 and looks outside the scope

---
 svgpy/dom.py   | 15 +++++++++++----
 svgpy/style.py |  4 ++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 60ded93..618f23e 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -23,7 +23,7 @@ from .core import CSSUtils, Font, SVGLength
 from .css import CSSStyleDeclaration
 from .exception import HierarchyRequestError, InUseAttributeError, \
     InvalidCharacterError, NotFoundError
-from .style import get_cascaded_styles, get_css_rules, \
+from .style import SelectorTranslator, get_cascaded_styles, get_css_rules, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
@@ -2247,9 +2247,16 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         nsmap = self.nsmap.copy()
         uri = nsmap.pop(None, None)
         if uri is not None:
-            nsmap['svg'] = uri
-        sel = cssselect.CSSSelector(selectors, namespaces=nsmap)
-        return sel(self)
+            nsmap.setdefault('svg', uri)
+        sel = cssselect.CSSSelector(selectors,
+                                    namespaces=nsmap,
+                                    translator=SelectorTranslator())
+        # the ancestors of the element also take part in the matching
+        root = self
+        for root in self.iterancestors():
+            pass
+        return [element for element in sel(root)
+                if element is self or self in element.iterancestors()]
 
     def remove(self, node=None):
         """Removes a matching sub-node. Unlike the find methods, this method
diff --git a/svgpy/style.py b/svgpy/style.py
index 8676bc8..bed748f 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -101,7 +101,7 @@ class _SelectorExpr(XPathExpr):
             self.element = '*'
 
 
-class _SelectorTranslator(cssselect.LxmlTranslator):
+class SelectorTranslator(cssselect.LxmlTranslator):
     xpathexpr_cls = _SelectorExpr
 
     def xpath_element(self, selector):
@@ -393,7 +393,7 @@ def match_selector(element, selector_text, namespaces=None):
     """Returns the specificity of the most specific selector in the selector
     list that matches the element, or None if the element isn't matched.
     """
-    translator = _SelectorTranslator()
+    translator = SelectorTranslator()
     root = element.getroottree().getroot()
     selectors = [(selector, translator.selector_to_xpath(selector))
                  for selector in parse_selector(selector_text)]
-- 
2.43.0


From cd4d5f7f8796017c4b3fd757663db2536001c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 090/119] fix: style sheets, units and references are those of
 the tree the element is in now

---
 svgpy/core.py    | 4 ++--
 svgpy/element.py | 2 +-
 svgpy/style.py   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 362abfb..4e66d5a 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -134,7 +134,7 @@ class CSSUtils(object):
     @staticmethod
     def _compute_relative_font_size(element, inherited_size=None):
         # the relative values refer to the parent element's font size
-        root = element.getroottree().getroot()
+        root = element.get_root_node()
         css_rules = get_css_rules(element)
         initial_size = CSSUtils.compute_font_size(
             root,
@@ -1401,7 +1401,7 @@ class SVGLength(object):
             if self._context is None:
                 root_font_size = Decimal(Font.default_font_size)
             else:
-                root = self._context.getroottree().getroot()
+                root = self._context.get_root_node()
                 root_font_size = Decimal(CSSUtils.compute_font_size(root))
 
         if (self._unit in [SVGLength.TYPE_EMS, SVGLength.TYPE_PERCENTAGE,
diff --git a/svgpy/element.py b/svgpy/element.py
index 31df794..7df6c06 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1055,7 +1055,7 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         elif href[0] != '#':
             # TODO: support external link.
             raise NotImplementedError(href)
-        root = self.getroottree().getroot()
+        root = self.get_root_node()
         element = root.get_element_by_id(href[1:])
         return element
 
diff --git a/svgpy/style.py b/svgpy/style.py
index bed748f..dfe77f6 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -168,7 +168,7 @@ def get_css_style_sheets(element):
     css_style_sheet.insert_rule(_SVG_UA_CSS_STYLESHEET)
     style_sheets.append(css_style_sheet)
 
-    root = element.getroottree().getroot()
+    root = element.get_root_node()
 
     # xml-stylesheet
     style_sheets.extend(get_css_style_sheets_from_xml_stylesheet(root))
@@ -394,7 +394,7 @@ def match_selector(element, selector_text, namespaces=None):
     list that matches the element, or None if the element isn't matched.
     """
     translator = SelectorTranslator()
-    root = element.getroottree().getroot()
+    root = element.get_root_node()
     selectors = [(selector, translator.selector_to_xpath(selector))
                  for selector in parse_selector(selector_text)]
     specificities = list()
-- 
2.43.0


From fa1401f71a2865ae2caafe533d95c99ba9723d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 091/119] fix: Document.iter() passes the first tag
 positionally

---
 svgpy/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 601fc4a..5044e76 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -539,7 +539,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         """
         nodes = list()
         for node in self.child_nodes:
-            children = node.iter(tag=tag, *tags)
+            children = node.iter(tag, *tags)
             for child in children:
                 nodes.append(child)
         return iter(nodes)
-- 
2.43.0


From b738bfeb3c76eb096254f3afcc841ad00228e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 092/119] fix: the comments and processing instructions of a
 moved root element are serialised

---
 svgpy/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 5044e76..704b91d 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -661,7 +661,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         root = self._document_element
         if root is None:
             return b''
-        return etree.tostring(root.getroottree(), **kwargs)
+        return etree.tostring(etree.ElementTree(root), **kwargs)
 
 
 class DOMImplementation(ABC):
-- 
2.43.0


From 470e7e23b010dcedd1bfc33352daf089d58768e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 093/119] fix: replace() of the document checks the new node
 before changing anything

---
 svgpy/window.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 704b91d..3e263e2 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -627,14 +627,15 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         """
         self.ensure_pre_insertion_validity(new_node, old_node)
         self.ensure_pre_remove_validity(old_node)
+        if old_node == new_node:
+            return
         root = self._document_element
         if old_node == root:
             self.remove(old_node)
             self.append(new_node)
             return
-        children = self.child_nodes
-        pos = children.index(old_node)
-        children[pos].addprevious(new_node)
+        self._ensure_nodes([new_node])
+        old_node.addprevious(new_node)
         self.remove(old_node)
 
     def replace_child(self, node, child):
-- 
2.43.0


From 917ba7d60ba8e4d5046898ec19c2e07578554fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 094/119] fix: children of a document are inserted all or not
 at all, in order, and belong to one document

---
 svgpy/dom.py    |  3 ++
 svgpy/window.py | 90 ++++++++++++++++++++++++++++++-------------------
 2 files changed, 59 insertions(+), 34 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 618f23e..f5be3aa 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1637,6 +1637,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Returns:
             bool: Returns True if successful; otherwise False.
         """
+        owner_document = self._owner_document
+        if owner_document is not None:
+            owner_document.detach_document_element(self)
         if not super().attach_document(document):
             return False
         for child in self:
diff --git a/svgpy/window.py b/svgpy/window.py
index 3e263e2..fd60ac4 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -233,14 +233,9 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         """str: The entire URL of the current document."""
         return self._location.href
 
-    def append(self, *nodes):
-        """Inserts sub-nodes after the last child node.
-
-        Arguments:
-            *nodes (Node, str, ...): A list of nodes to be added.
-        """
+    def _ensure_nodes(self, nodes):
+        # nothing is inserted unless all nodes can be inserted
         root = self._document_element
-        last_child = None
         for node in nodes:
             if isinstance(node, str):
                 raise HierarchyRequestError(
@@ -252,15 +247,37 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
                 if not isinstance(node, Element):
                     raise HierarchyRequestError(
                         "The Element node must be insert first")
+                root = node
+            elif isinstance(node, Element) and node != root:
+                raise TypeError(
+                    'Only processing instructions and comments can be '
+                    'siblings of root element')
+
+    def _set_document_element(self, root):
+        parent = root.getparent()
+        if parent is not None:
+            parent.remove(root)
+        root.attach_document(self)
+        for preceding in (True, False):
+            for node in root.itersiblings(preceding=preceding):
                 node.attach_document(self)
-                root = self._document_element = node
+        self._document_element = root
+
+    def append(self, *nodes):
+        """Inserts sub-nodes after the last child node.
+
+        Arguments:
+            *nodes (Node, str, ...): A list of nodes to be added.
+        """
+        self._ensure_nodes(nodes)
+        for node in nodes:
+            root = self._document_element
+            if root is None:
+                self._set_document_element(node)
             elif node == root:
                 continue  # do nothing
             else:
-                if last_child is None:
-                    last_child = self.last_child
-                last_child.addnext(node)
-                last_child = node
+                self.last_child.addnext(node)
 
     def append_child(self, node):
         """Adds a sub-node to the end of this node.
@@ -286,6 +303,16 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         _ = document
         return False
 
+    def detach_document_element(self, element):
+        """Called when the element moves to another place: the document is
+        left without a root element if it was the root element.
+
+        Arguments:
+            element (Element): An element to be moved.
+        """
+        if self._document_element is element:
+            self._document_element = None
+
     def create_attribute(self, local_name):
         """Creates a new attribute instance, and returns it.
         See also SVGParser.create_attribute().
@@ -418,11 +445,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
     def extend(self, nodes):
         """Extends the current children by the nodes in the iterable.
         """
-        if isinstance(nodes, (list, tuple)):
-            self.append(*nodes)
-            return
-        for node in nodes:
-            self.append(node)
+        self.append(*nodes)
 
     def get_element_by_id(self, element_id, nsmap=None):
         """Finds the first matching sub-element, by id.
@@ -510,13 +533,15 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
             index (int): An index position of the child nodes.
             node (Node): A node to be inserted.
         """
-        root = self._document_element
-        if root is None:
+        self._ensure_nodes([node])
+        children = self.child_nodes
+        if index < 0:
+            index = max(index + len(children), 0)
+        if index >= len(children):
             self.append(node)
-        elif node == root:
+        elif node == self._document_element:
             pass  # do nothing
         else:
-            children = self.child_nodes
             children[index].addprevious(node)
 
     def insert_before(self, node, child):
@@ -570,24 +595,21 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
-        root = self._document_element
-        first_child = None
+        self._ensure_nodes(nodes)
+        previous = None
         for node in nodes:
-            if isinstance(node, str):
-                raise HierarchyRequestError(
-                    "This node type '{}' cannot insert inside nodes of type "
-                    "'{}'".format('#text',
-                                  self.__class__.__name__))
-            self.ensure_pre_insertion_validity(node)
+            root = self._document_element
             if root is None:
-                self.append(node)
-                root = node
+                self._set_document_element(node)
+                previous = node
             elif node == root:
                 continue  # do nothing
             else:
-                if first_child is None:
-                    first_child = self.first_child
-                first_child.addprevious(node)
+                if previous is None:
+                    self.first_child.addprevious(node)
+                else:
+                    previous.addnext(node)
+                previous = node
 
     def query_selector_all(self, selectors):
         root = self._document_element
-- 
2.43.0


From d109cf6530bc045bad1c04cd25dc49991af4c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 095/119] fix: references without an usable URL designate no
 style sheet

---
 svgpy/css/__init__.py | 11 ++++++++---
 svgpy/style.py        | 18 ++++++++++++++----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 25dd10e..e808948 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1172,16 +1172,21 @@ class CSSImportRule(CSSRule):
             owner_node = None
             base_url = None
         mediums = list()
+        is_valid = False
         for token in prelude:
             if self._href is None:
                 if token.type in ('string', 'url'):
-                    url = normalize_url(token.value, base_url)
-                    self._href = url.href
+                    try:
+                        url = normalize_url(token.value, base_url)
+                        self._href = url.href
+                        is_valid = True
+                    except ValueError:
+                        self._href = token.value
             else:
                 mediums.append(token)
         if len(mediums) > 0:
             self._media.media_text = tinycss2.serialize(mediums)
-        if self._href is None or self._is_circular():
+        if not is_valid or self._is_circular():
             self._style_sheet = CSSStyleSheet(
                 owner_node=owner_node,
                 parent_style_sheet=self.parent_style_sheet,
diff --git a/svgpy/style.py b/svgpy/style.py
index dfe77f6..de927fa 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -204,7 +204,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                 element, repr(rel_list), repr(as_)))
             return None  # TODO: support alternative style sheet.
         href = element.href
-        if href is None or href[0] == '#':
+        if not href or href[0] == '#':
             logger.debug('invalid URL: {} href={}'.format(
                 element, repr(href)))
             return None
@@ -218,7 +218,12 @@ def get_css_style_sheet_from_element(element, doc=None):
                 logger.debug('media not matched: {} media={}'.format(
                     element, repr(media)))
                 return None
-        url = normalize_url(href, base_url)
+        try:
+            url = normalize_url(href, base_url)
+        except ValueError as exp:
+            logger.debug('invalid URL: {} href={}: {}'.format(
+                element, repr(href), repr(exp)))
+            return None
         css_style_sheet = CSSParser.parse(url.href,
                                           owner_node=element)
         return css_style_sheet
@@ -282,7 +287,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
         elif element.target != 'xml-stylesheet':
             continue
         href = element.get('href')
-        if (href is None
+        if (not href
                 or href[0] == '#'
                 or element.get('alternate', '') == 'yes'):
             logger.debug('not a style sheet: {}'.format(element))
@@ -298,7 +303,12 @@ def get_css_style_sheets_from_xml_stylesheet(root):
                     repr(media)))
                 continue
         encoding = element.get('charset')
-        url = normalize_url(href, base_url)
+        try:
+            url = normalize_url(href, base_url)
+        except ValueError as exp:
+            logger.debug('invalid URL: {} href={}: {}'.format(
+                element, repr(href), repr(exp)))
+            continue
         css_style_sheet = CSSParser.parse(url.href,
                                           owner_node=element,
                                           encoding=encoding)
-- 
2.43.0


From 0a03b7d6372a6da173a21c0e90f68a8e62adfd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 096/119] fix: the charset of style sheets is looked up in the
 order of CSS Syntax

---
 svgpy/css/__init__.py | 16 ++++++++--------
 svgpy/utils.py        |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index e808948..5a4b546 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -21,6 +21,7 @@ from logging import getLogger
 from urllib.error import URLError
 
 import tinycss2
+import webencodings
 
 from .longhands import Longhand
 from .props import PropertyDescriptor, PropertySyntax, \
@@ -1800,19 +1801,18 @@ class CSSParser(object):
         try:
             logger.debug('urlopen \'{}\''.format(url))
             data, headers = load(url)
-            if encoding is None:
-                content_type = get_content_type(headers)
-                if content_type is None:
-                    encoding = 'utf-8'
-                else:
-                    encoding = content_type.get('charset', 'utf-8')
+            content_type = get_content_type(headers)
+            charset = (content_type.get('charset')
+                       if content_type is not None else None)
             if not isinstance(data, bytes):
                 # 'data:' URL
                 data = (data or '').encode('utf-8')
-                encoding = 'utf-8'
+                charset = 'utf-8'
             rules, encoding = tinycss2.parse_stylesheet_bytes(
                 css_bytes=data,
-                protocol_encoding=encoding,
+                protocol_encoding=charset,
+                environment_encoding=(webencodings.lookup(encoding)
+                                      if encoding is not None else None),
                 skip_comments=True,
                 skip_whitespace=True)
             css_rules = CSSParser.parse_rules(
diff --git a/svgpy/utils.py b/svgpy/utils.py
index d65ae63..9715d28 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -69,9 +69,9 @@ def get_content_type(headers):
     parameters = [x.strip() for x in content_type.split(';')]
     result = CaseInsensitiveMapping({None: parameters.pop(0)})
     for parameter in parameters:
-        items = parameter.split('=')
+        items = parameter.split('=', 1)
         if len(items) == 2:
-            result[items[0]] = items[1]
+            result[items[0].strip()] = remove_quotes(items[1].strip())
     return result
 
 
-- 
2.43.0


From d18e190215b984f8f18073e84dd68c97b3d9b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 097/119] fix: the encoding of documents is that of the XML
 declaration unless given by Content-Type

---
 svgpy/window.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index fd60ac4..4bd83e8 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -13,9 +13,10 @@
 # limitations under the License.
 
 
+import re
 from abc import ABC, abstractmethod
 from collections.abc import Collection
-from io import StringIO
+from io import BytesIO, StringIO
 from logging import getLogger
 
 from lxml import etree
@@ -32,6 +33,8 @@ from .utils import get_content_type, get_element_by_id, \
     get_elements_by_class_name, get_elements_by_tag_name, \
     get_elements_by_tag_name_ns, load, normalize_url
 
+_RE_XML_DECLARATION = re.compile(r'^\ufeff?<\?xml\s[^>]*\?>')
+
 
 class BrowsingContext(object):
     """A browsing context object that is associated with the document."""
@@ -856,11 +859,15 @@ class SVGDOMImplementation(DOMImplementation):
         if isinstance(source, str):
             data, headers = load(source)
             content_type = get_content_type(headers)
-            if content_type is None:
-                charset = 'utf-8'
+            charset = (content_type.get('charset')
+                       if content_type is not None else None)
+            if isinstance(data, bytes) and charset is not None:
+                data = data.decode(charset)
+            if isinstance(data, bytes):
+                # the encoding is given by the XML document
+                data = BytesIO(data)
             else:
-                charset = content_type.get('charset', 'utf-8')
-            data = StringIO(data.decode(charset))
+                data = StringIO(_RE_XML_DECLARATION.sub('', data, count=1))
         else:
             data = source
         tree = self._parser.parse(data)
-- 
2.43.0


From b564f8c6af922e3a3c0acb24ab9b8bcfd01c6b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 098/119] fix: a navigation that fails leaves the document and
 its URL as they were

---
 svgpy/url.py    | 37 ++++++++++++++++++-------------------
 svgpy/window.py |  7 ++++---
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 5b6437b..89a8525 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -17,6 +17,7 @@ import os
 import re
 import sys
 from collections.abc import MutableMapping
+from copy import deepcopy
 from urllib.parse import quote, quote_plus, unquote, urlencode, urlsplit
 
 _SPECIAL_SCHEMES_PORT_NUMBERS = {
@@ -84,8 +85,7 @@ class Location(object):
 
     @hash.setter
     def hash(self, fragment):
-        self._url.hash = fragment
-        self._navigate()
+        self._update('hash', fragment)
 
     @property
     def host(self):
@@ -97,8 +97,7 @@ class Location(object):
 
     @host.setter
     def host(self, host):
-        self._url.host = host
-        self._navigate()
+        self._update('host', host)
 
     @property
     def hostname(self):
@@ -109,8 +108,7 @@ class Location(object):
 
     @hostname.setter
     def hostname(self, hostname):
-        self._url.hostname = hostname
-        self._navigate()
+        self._update('hostname', hostname)
 
     @property
     def href(self):
@@ -121,8 +119,7 @@ class Location(object):
 
     @href.setter
     def href(self, url):
-        self._url.href = url
-        self._navigate()
+        self._update('href', url)
 
     @property
     def origin(self):
@@ -138,8 +135,7 @@ class Location(object):
 
     @pathname.setter
     def pathname(self, pathname):
-        self._url.pathname = pathname
-        self._navigate()
+        self._update('pathname', pathname)
 
     @property
     def port(self):
@@ -150,8 +146,7 @@ class Location(object):
 
     @port.setter
     def port(self, port):
-        self._url.port = port
-        self._navigate()
+        self._update('port', port)
 
     @property
     def protocol(self):
@@ -162,8 +157,7 @@ class Location(object):
 
     @protocol.setter
     def protocol(self, protocol):
-        self._url.protocol = protocol
-        self._navigate()
+        self._update('protocol', protocol)
 
     @property
     def search(self):
@@ -174,18 +168,23 @@ class Location(object):
 
     @search.setter
     def search(self, search):
-        self._url.search = search
-        self._navigate()
+        self._update('search', search)
 
-    def _navigate(self):
+    def _navigate(self, url):
         if self._browsing_context is not None:
-            url = self._url
             if ((len(url.protocol) == 0 and len(url.host) == 0)
                     or url.protocol in ['blob:', 'data:']
                     or (url.protocol in ['about:', 'file:']
                         and len(url.pathname) == 0)):
                 raise ValueError('Invalid URL: ' + repr(url.href))
             self._browsing_context.document.navigate(url)
+        self._url = url
+
+    def _update(self, name, value):
+        # the current URL is kept if the navigation fails
+        url = deepcopy(self._url)
+        setattr(url, name, value)
+        self._navigate(url)
 
     def assign(self, url):
         """Navigates to the given URL.
@@ -197,7 +196,7 @@ class Location(object):
 
     def reload(self):
         """Reloads the current page."""
-        self._navigate()
+        self._navigate(self._url)
 
     def tostring(self, exclude_fragment=False):
         """Serializes a Location object.
diff --git a/svgpy/window.py b/svgpy/window.py
index 4bd83e8..4836bd4 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -584,11 +584,12 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         resource = url.href
         logger = getLogger('{}.{}'.format(__name__, self.__class__.__name__))
         logger.debug('navigate to \'{}\''.format(resource))
-        root = self._document_element
-        if root is not None:
-            self.remove(root)
+        root = None
         if url.protocol != 'about:':
             root = self._implementation.parse(resource)
+        if self._document_element is not None:
+            self.remove(self._document_element)
+        if root is not None:
             self.append(root)
         return self
 
-- 
2.43.0


From 7790f7bc087eb006f3c1d0ef53c6ca1c78f3fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 099/119] fix: the path data of an 'a' element is that of its
 descendants

---
 svgpy/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index 7df6c06..13747a5 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -164,7 +164,7 @@ class SVGAElement(SVGGraphicsElement, SVGURIReference,
     """Represents the [SVG2] <a> element."""
 
     def get_path_data(self, settings=None):
-        return []
+        return self.get_descendant_path_data(settings)
 
 
 class SVGCircleElement(SVGGeometryElement):
-- 
2.43.0


From 94f5b0b3015875e17d557868865d68a8afdc00a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 100/119] fix: boxes and path data of containers apply the
 transforms and the display of their children

---
 svgpy/base.py | 85 +++++++++++++++++++++++++++++++++++----------------
 svgpy/text.py |  6 ++--
 2 files changed, 63 insertions(+), 28 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 322cf61..23ca569 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -23,6 +23,7 @@ from .formatter import format_coordinate_pair_sequence, \
 from .geometry.matrix import DOMMatrix
 from .geometry.rect import DOMRect
 from .path import PathParser
+from .style import get_css_rules
 from .transform import SVGTransformList
 from .utils import QualifiedName
 
@@ -373,37 +374,76 @@ class SVGGraphicsElement(SVGElement):
             ctm = DOMMatrix([scale, 0, 0, scale, tx, ty]) * ctm
         return ctm
 
-    def get_bbox(self, options=None, _depth=0):
+    def _get_display(self, css_rules):
+        """Returns the value of the 'display' property of the current element,
+        regardless of those of its ancestors.
+
+        Arguments:
+            css_rules (list[CSSRule]): A list of CSS rules.
+        Returns:
+            str: The value of the 'display' property.
+        """
+        element = self
+        while element is not None:
+            style = element.get_cascaded_style(css_rules)
+            display = style.get('display', 'inline')
+            if display != 'inherit':
+                return display
+            element = element.getparent()
+        return 'inline'
+
+    def _get_local_matrix(self):
+        """Returns the matrix that transforms the coordinate system of the
+        contents of the current element to the one of the parent element.
+
+        Returns:
+            DOMMatrix: The transformation matrix.
+        """
+        matrix = DOMMatrix()
+        if self.local_name == 'svg':
+            matrix = self.get_viewport_transformation_matrix(recursive=False)
+        transform_list = self.transform  # type: SVGTransformList
+        if transform_list is not None and len(transform_list) > 0:
+            matrix *= transform_list.matrix
+        return matrix
+
+    def _get_rendered_children(self):
+        """Returns the child elements that are rendered directly.
+
+        Returns:
+            list[SVGGraphicsElement]: A list of the child elements.
+        """
+        css_rules = get_css_rules(self)
+        return [child for child in iter(self)
+                if isinstance(child, SVGGraphicsElement)
+                and child.isrenderable()
+                and child._get_display(css_rules) != 'none']
+
+    def get_bbox(self, options=None, _matrix=None):
         """Returns the bounding box of the current element.
 
         Arguments:
             options (SVGBoundingBoxOptions, optional): Reserved.
-            _depth (int, optional): For internal use only.
+            _matrix (DOMMatrix, optional): For internal use only.
         Returns:
             DOMRect: The bounding box of the current element.
         """
         # TODO: implement SVGBoundingBoxOptions option.
-        _depth += 1
         bbox = DOMRect()
         if self.local_name in ('defs', 'symbol'):
             return bbox  # not rendered directly
+        if _matrix is None:
+            _matrix = DOMMatrix()
         if self.iscontainer():
-            for child in iter(self):
-                if isinstance(child, SVGGraphicsElement):
-                    display = child.get('display', 'inline')
-                    if display == 'none':
-                        continue
-                    bbox |= child.get_bbox(options, _depth)
-            if _depth > 1:
-                transform_list = self.transform  # type: SVGTransformList
-                if transform_list is not None:
-                    matrix = transform_list.matrix
-                    bbox.transform_self(matrix)
+            for child in self._get_rendered_children():
+                matrix = _matrix * child._get_local_matrix()
+                bbox |= child.get_bbox(options, matrix)
         else:
             settings = SVGPathDataSettings()
             settings.normalize = True
-            path_data = self.get_transformed_path_data(settings)
+            path_data = self.get_path_data(settings)
             if len(path_data) > 0:
+                path_data = PathParser.transform(path_data, _matrix)
                 bbox = PathParser.get_bbox(path_data, options)
         return bbox
 
@@ -420,9 +460,8 @@ class SVGGraphicsElement(SVGElement):
 
     def get_descendant_path_data(self, settings=None):
         path_data = list()
-        for child in iter(self):
-            if isinstance(child, SVGGraphicsElement):
-                path_data += child.get_path_data(settings)
+        for child in self._get_rendered_children():
+            path_data += child.get_transformed_path_data(settings)
         return path_data
 
     @abstractmethod
@@ -453,14 +492,8 @@ class SVGGraphicsElement(SVGElement):
         path_data = self.get_path_data(settings)
         if len(path_data) == 0:
             return path_data
-        if self.local_name == 'use':
-            transform_list = self.instance_root.transform
-            if transform_list is not None:
-                matrix = transform_list.matrix
-                path_data = PathParser.transform(path_data, matrix)
-        transform_list = self.transform  # type: SVGTransformList
-        if transform_list is not None:
-            matrix = transform_list.matrix
+        matrix = self._get_local_matrix()
+        if not matrix.isidentity:
             path_data = PathParser.transform(path_data, matrix)
         return path_data
 
diff --git a/svgpy/text.py b/svgpy/text.py
index 5ef6935..d9dd52e 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -503,12 +503,12 @@ class SVGTextContentElement(SVGGraphicsElement):
 
         return path_data_list, advance_list, text_bbox, (current_x, current_y)
 
-    def get_bbox(self, options=None, _depth=0):
+    def get_bbox(self, options=None, _matrix=None):
         """Returns the bounding box of the current element.
 
         Arguments:
             options (SVGBoundingBoxOptions, optional): Reserved.
-            _depth (int, optional): For internal use only.
+            _matrix (DOMMatrix, optional): For internal use only.
         Returns:
             DOMRect: The bounding box of the current element.
         """
@@ -520,6 +520,8 @@ class SVGTextContentElement(SVGGraphicsElement):
         for info in iter(chars_info):
             bbox |= info[SVGTextContentElement._CHARS_BBOX]
 
+        if _matrix is not None:
+            bbox.transform_self(_matrix)
         return bbox
 
     def get_computed_geometry(self):
-- 
2.43.0


From b4bdde11a93dfabf17d8247b9cf7273fb838d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 101/119] fix: the path data of use includes the transform of
 its target, and is empty if circular or hidden

---
 svgpy/element.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index 13747a5..fd5739d 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -24,6 +24,7 @@ from .core import CSSUtils, SVGLength
 from .dom import Attr, Comment, DOMTokenList, Element, LinkStyle, \
     ProcessingInstruction
 from .path import PathParser, SVGPathSegment
+from .style import get_css_rules
 from .text import SVGTextContentElement, SVGTextPositioningElement
 from .transform import SVGTransform, SVGTransformList
 from .utils import QualifiedName, get_element_by_id, \
@@ -1056,9 +1057,29 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
             # TODO: support external link.
             raise NotImplementedError(href)
         root = self.get_root_node()
-        element = root.get_element_by_id(href[1:])
+        element = get_element_by_id(root, href[1:])
         return element
 
+    def _is_circular(self):
+        """Returns True if the referenced element contains this element,
+        directly or by further references.
+        """
+        elements = [self]
+        visited = set()
+        while len(elements) > 0:
+            try:
+                root = elements.pop().instance_root
+            except NotImplementedError:
+                continue
+            if root is None or root in visited:
+                continue
+            visited.add(root)
+            for element in root.iter('{*}use'):
+                if element is self:
+                    return True
+                elements.append(element)
+        return False
+
     def get_computed_geometry(self):
         geometry = dict()
 
@@ -1107,14 +1128,17 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
             list[SVGPathSegment]: A list of path segments.
         """
         root = self.instance_root
-        if root is None or not isinstance(root, SVGGraphicsElement):
+        if (not isinstance(root, SVGGraphicsElement)
+                or (root.local_name != 'symbol'
+                    and (not root.isrenderable()
+                         or root._get_display(get_css_rules(root)) == 'none'))
+                or self._is_circular()):
+            return []
+        path_data = root.get_transformed_path_data(settings)
+        if len(path_data) == 0:
             return []
-        path_data = root.get_path_data(settings)
-
-        transform_list = self.transform
-        if transform_list is None:
-            transform_list = SVGTransformList()
 
+        transform_list = SVGTransformList()
         geometry = self.get_computed_geometry()
         x = geometry['x']
         y = geometry['y']
-- 
2.43.0


From 34e332d1a1a2c0d77090954fd6c41015cf88b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 102/119] fix: the text content of a text includes what follows
 any child

---
 svgpy/dom.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index f5be3aa..d2358f4 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1551,17 +1551,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             chars.append(element.text)
 
         for child in iter(element):
-            if child.node_type != Node.ELEMENT_NODE:
-                if child.tail is not None:
-                    chars.append(child.tail)
-                continue
-            local_name = child.local_name
-            if local_name in Element.TEXT_CONTENT_ELEMENTS:
+            if (child.node_type == Node.ELEMENT_NODE
+                    and child.local_name in Element.TEXT_CONTENT_ELEMENTS):
                 contents = Element._get_text_content(child)
                 chars.extend(contents)
-                if (local_name in Element.TEXT_CONTENT_CHILD_ELEMENTS
-                        and child.tail is not None):
-                    chars.append(child.tail)
+            if child.tail is not None:
+                chars.append(child.tail)
         return chars
 
     def addnext(self, node):
-- 
2.43.0


From 91fc51b4dd601944f4cab0022c1c70208272bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 103/119] fix: white space of texts is processed across
 elements, tails and preserved breaks

---
 svgpy/core.py |  60 +++++++++++---------
 svgpy/text.py | 150 +++++++++++++++++++++++++++-----------------------
 2 files changed, 114 insertions(+), 96 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 4e66d5a..29b297a 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -86,8 +86,8 @@ class CSSUtils(object):
 
     _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}', re.MULTILINE)
     _RE_SEGMENT_BREAKS = re.compile(r'(\r\n|\r|\n)+', re.MULTILINE)
-    _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'^(\x20|\t)+', re.MULTILINE)
-    _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+$', re.MULTILINE)
+    _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'(?<=[\r\n])[\x20\t]+')
+    _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'[\x20\t]+(?=[\r\n])')
 
     @staticmethod
     def compute_font_size(element, inherited_size=None, inherited_style=None):
@@ -276,10 +276,15 @@ class CSSUtils(object):
         return None, element
 
     @staticmethod
-    def normalize_text_content(element, text, style, prev_text=None,
-                               first=False, tail=False):
-        """Apply white-space processing to a text."""
-        _ = element  # reserved
+    def collapse_white_space(text, white_space):
+        """Collapses or preserves the white-space characters of a text.
+
+        Arguments:
+            text (str): A text.
+            white_space (str): The value of the 'white-space' property.
+        Returns:
+            str: The text.
+        """
 
         def _is_hangul(ch):
             return (('\uAC00' <= ch <= '\uD7AF')
@@ -288,12 +293,10 @@ class CSSUtils(object):
                     or ('\uA960' <= ch <= '\uA97F')
                     or ('\uD7B0' <= ch <= '\uD7FF'))
 
-        def _transform_segment_break(_text, _style):
+        def _transform_segment_break(_text):
             # See https://drafts.csswg.org/css-text-3/#line-break-transform
-            _white_space = _style['white-space']
-            if _white_space in ['pre', 'pre-wrap', 'pre-line']:
-                _out_text = _text.replace('\r\n', '\n').replace('\r', '\n')
-                return _out_text
+            if white_space in ['pre', 'pre-wrap', 'pre-line']:
+                return _text
 
             # white-space: normal | nowrap
             _break_positions = list()
@@ -331,8 +334,7 @@ class CSSUtils(object):
         # Initial: normal
         # Inherited: yes
         # Percentages: N/A
-        white_space = style['white-space']
-        out_text = html.unescape(text)
+        out_text = text.replace('\r\n', '\n').replace('\r', '\n')
 
         # FIXME: fix white-space processing.
         if white_space in ['normal', 'nowrap', 'pre-line']:
@@ -340,23 +342,29 @@ class CSSUtils(object):
                 '', out_text)
             out_text = CSSUtils._RE_FOLLOWING_TAB_WHITESPACE.sub(
                 '', out_text)
-            out_text = _transform_segment_break(out_text, style)
+            out_text = _transform_segment_break(out_text)
             out_text = out_text.replace('\t', ' ')
             out_text = CSSUtils._RE_COLLAPSIBLE_WHITESPACE.sub(
                 ' ', out_text)
         if white_space in ['pre', 'pre-wrap']:
-            out_text = _transform_segment_break(out_text, style)
-
-        if prev_text is not None:
-            if prev_text.endswith(' ') and out_text.startswith(' '):
-                out_text = out_text.lstrip()
-            elif not prev_text.endswith(' ') and not out_text.startswith(' '):
-                out_text = ' ' + out_text
-        if first:
-            out_text = out_text.lstrip(' ')
-        # if len(element) == 0:
-        if tail:
-            out_text = out_text.rstrip(' ')
+            out_text = _transform_segment_break(out_text)
+        return out_text
+
+    @staticmethod
+    def normalize_text_content(element, text, style, prev_text=None,
+                               first=False, tail=False):
+        """Apply white-space processing to a text."""
+        _ = element  # reserved
+        white_space = style['white-space']
+        out_text = CSSUtils.collapse_white_space(html.unescape(text),
+                                                 white_space)
+        if white_space not in ['pre', 'pre-wrap']:
+            if first or (prev_text is not None
+                         and prev_text.endswith((' ', '\n'))):
+                out_text = out_text.lstrip(' ')
+            # if len(element) == 0:
+            if tail:
+                out_text = out_text.rstrip(' ')
 
         return out_text
 
diff --git a/svgpy/text.py b/svgpy/text.py
index d9dd52e..2c80ee7 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -45,19 +45,27 @@ class SVGTextContentElement(SVGGraphicsElement):
             return []
 
         chars_info = SVGTextContentElement._get_descendant_chars_info(
-            root, first=True, is_display=True, is_render=True)
+            root, is_display=True, is_render=True)
         return chars_info
 
+    def _is_chars_of(self, info):
+        """Returns True if the characters are rendered within the current
+        element.
+        """
+        element = info[SVGTextContentElement._CHARS_ELEMENT]
+        while element is not None:
+            if element is self:
+                return True
+            element = element.getparent()
+        return False
+
     @staticmethod
-    def _get_descendant_chars(element, style_map=None,
-                              prev_text=None, first=False, **kwargs):
-        """Returns the addressable characters.
+    def _get_descendant_chars(element, style_map=None, **kwargs):
+        """Returns the characters before the white-space processing.
 
         Arguments:
             element (SVGElement):
             style_map (dict, optional):
-            prev_text (str, optional):
-            first (bool, optional):
             **kwargs: See below.
         Keyword Arguments:
             is_display (bool, optional):
@@ -68,13 +76,12 @@ class SVGTextContentElement(SVGGraphicsElement):
                 <text for rendering>, <computed presentation properties>,
                 <list of path segments>, <list of advance measure>,
                 <bbox> and <element object>.
-            str: previous text for rendering.
         """
         is_display = kwargs.get('is_display', False)
         chars_info = list()
         if not element.istext() or (is_display
                                     and not element.isdisplay()):
-            return chars_info, prev_text
+            return chars_info
 
         if style_map is None:
             style_map = dict()
@@ -84,60 +91,68 @@ class SVGTextContentElement(SVGGraphicsElement):
             style = element.get_computed_style()
             style_map[key] = copy.deepcopy(style)
         if element.text is not None:
-            out_text = CSSUtils.normalize_text_content(
-                element,
-                element.text,
-                style,
-                prev_text,
-                first)
-            if len(out_text) > 0:
-                path_data = []
-                advance_list = []
-                bbox = None
-                chars_info.append(
-                    [key, out_text, style, path_data, advance_list, bbox,
-                     element])
-                prev_text = out_text
-                first = False
+            chars_info.append(
+                [key, element.text, style, [], [], None, element])
 
         for child in iter(element):
-            if (child.node_type == Node.ELEMENT_NODE
-                    and child.istext()
-                    and (not is_display
-                         or (is_display and child.isdisplay()))):
-                child_chars_info, out_text = \
-                    SVGTextContentElement._get_descendant_chars(
-                        child, style_map, prev_text, first, **kwargs)
-                if len(out_text) > 0:
-                    chars_info += child_chars_info
-                    prev_text = out_text
-                    first = False
-            if (child.local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS
-                    and child.tail is not None):
-                out_text = CSSUtils.normalize_text_content(
-                    child,
-                    child.tail,
-                    style,
-                    prev_text,
-                    first)
-                if len(out_text) > 0:
-                    path_data = []
-                    advance_list = []
-                    bbox = None
-                    chars_info.append(
-                        [key, out_text, style, path_data, advance_list, bbox,
-                         element])
-                    prev_text = out_text
-                    first = False
-        return chars_info, prev_text
+            if child.node_type == Node.ELEMENT_NODE:
+                chars_info += SVGTextContentElement._get_descendant_chars(
+                    child, style_map, **kwargs)
+            if child.tail is not None:
+                chars_info.append(
+                    [key, child.tail, style, [], [], None, element])
+        return chars_info
 
     @staticmethod
-    def _get_descendant_chars_info(root, first=False, **kwargs):
+    def _process_white_space(chars_info):
+        """Apply white-space processing to the characters of a text.
+
+        Arguments:
+            chars_info (list): A list of the characters.
+        Returns:
+            list: A list of the addressable characters.
+        """
+        out = list()
+        for info in iter(chars_info):
+            white_space = info[SVGTextContentElement._CHARS_STYLE][
+                'white-space']
+            collapsible = white_space not in ['pre', 'pre-wrap']
+            text = CSSUtils.collapse_white_space(
+                info[SVGTextContentElement._CHARS_TEXT], white_space)
+            if len(out) == 0:
+                if collapsible:
+                    text = text.lstrip(' ')
+            else:
+                prev, prev_collapsible = out[-1]
+                prev_text = prev[SVGTextContentElement._CHARS_TEXT]
+                if (collapsible
+                        and (prev_text.endswith('\n')
+                             or (prev_collapsible
+                                 and prev_text.endswith(' ')))):
+                    text = text.lstrip(' ')
+                if prev_collapsible and text.startswith('\n'):
+                    prev_text = prev_text.rstrip(' ')
+                    prev[SVGTextContentElement._CHARS_TEXT] = prev_text
+                    if len(prev_text) == 0:
+                        out.pop()
+            if len(text) > 0:
+                info[SVGTextContentElement._CHARS_TEXT] = text
+                out.append((info, collapsible))
+        if len(out) > 0:
+            info, collapsible = out[-1]
+            if collapsible:
+                text = info[SVGTextContentElement._CHARS_TEXT].rstrip(' ')
+                info[SVGTextContentElement._CHARS_TEXT] = text
+                if len(text) == 0:
+                    out.pop()
+        return [info for info, _ in out]
+
+    @staticmethod
+    def _get_descendant_chars_info(root, **kwargs):
         """Returns the addressable characters.
 
         Arguments:
             root (SVGElement):
-            first (bool, optional):
             **kwargs: See below.
         Keyword Arguments:
             is_display (bool, optional):
@@ -150,13 +165,10 @@ class SVGTextContentElement(SVGGraphicsElement):
                 <list of path segments>, <list of advance measure>,
                 <bbox> and <element object>.
         """
-        chars_info, _ = SVGTextContentElement._get_descendant_chars(
-            root, first=first, **kwargs)
+        chars_info = SVGTextContentElement._get_descendant_chars(
+            root, **kwargs)
+        chars_info = SVGTextContentElement._process_white_space(chars_info)
         if len(chars_info) > 0:
-            item = chars_info[-1]
-            text = item[SVGTextContentElement._CHARS_TEXT].rstrip()
-            item[SVGTextContentElement._CHARS_TEXT] = text
-
             is_render = kwargs.get('is_render', False)
             if is_render:
                 style = chars_info[0][SVGTextContentElement._CHARS_STYLE]
@@ -622,7 +634,7 @@ class SVGTextContentElement(SVGGraphicsElement):
             return None
 
         chars_info = SVGTextContentElement._get_descendant_chars_info(
-            root, first=True, is_display=True)
+            root, is_display=True)
         local_name = self.local_name
         if local_name == 'text':
             out = ''.join([x[SVGTextContentElement._CHARS_TEXT]
@@ -631,10 +643,10 @@ class SVGTextContentElement(SVGGraphicsElement):
         elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
             out = [x[SVGTextContentElement._CHARS_TEXT]
                    for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
+                   if self._is_chars_of(x)]
             if len(out) == 0:
                 return None
-            return out[0]
+            return ''.join(out)
         return None
 
     def get_nearest_text_element(self):
@@ -689,19 +701,17 @@ class SVGTextContentElement(SVGGraphicsElement):
             return 0
 
         chars_info = SVGTextContentElement._get_descendant_chars_info(
-            root, first=True, is_display=True, is_render=True)
+            root, is_display=True, is_render=True)
         local_name = self.local_name
         advance_list = list()
         if local_name == 'text':
             for item in iter(chars_info):
                 advance_list += item[SVGTextContentElement._CHARS_ADVANCE_LIST]
         elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
-            out = [x[SVGTextContentElement._CHARS_ADVANCE_LIST]
-                   for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
-            if len(out) == 0:
-                return 0
-            advance_list = out[0]
+            for item in iter(chars_info):
+                if self._is_chars_of(item):
+                    advance_list += item[
+                        SVGTextContentElement._CHARS_ADVANCE_LIST]
         else:
             raise NotImplementedError
 
-- 
2.43.0


From f3e7814f6a1715b997e1e907cbac90b5aa8e42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 104/119] fix: the jis04 forms of East Asian text are enabled

---
 svgpy/opentype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/opentype.py b/svgpy/opentype.py
index 0d815c1..f2520cd 100644
--- a/svgpy/opentype.py
+++ b/svgpy/opentype.py
@@ -671,6 +671,8 @@ def features_from_style(style):
         features['jp83'] = 1
     elif 'jis90' in font_variant_east_asian:
         features['jp90'] = 1
+    elif 'jis04' in font_variant_east_asian:
+        features['jp04'] = 1
     elif 'simplified' in font_variant_east_asian:
         features['smpl'] = 1
     elif 'traditional' in font_variant_east_asian:
-- 
2.43.0


From 54505aaf288413eaa9eb30453628721b5d816032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 105/119] fix: font-feature-settings overrides the features of
 other font properties

---
 svgpy/opentype.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/opentype.py b/svgpy/opentype.py
index f2520cd..573e10c 100644
--- a/svgpy/opentype.py
+++ b/svgpy/opentype.py
@@ -625,7 +625,7 @@ language_tag_to_iso639_codes_map = {
 
 
 def features_from_style(style):
-    features = style['font-feature-settings'].copy()  # type: dict
+    features = dict()
 
     font_kerning = style['font-kerning']
     if font_kerning == 'none':
@@ -749,6 +749,9 @@ def features_from_style(style):
     elif font_variant_position == 'super':
         features['sups'] = 1
 
+    # overrides the features of the other properties
+    features.update(style['font-feature-settings'])
+
     return ['{}={}'.format(tag, value) for tag, value in features.items()]
 
 
-- 
2.43.0


From 16486a227000d9b07de98e71f5cf4904d24a3172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 106/119] fix: positions of texts are resolved by the index of
 the characters, with ligatures

---
 svgpy/text.py | 210 ++++++++++++++++++++++++++++----------------------
 1 file changed, 116 insertions(+), 94 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 2c80ee7..2ce9905 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -147,6 +147,58 @@ class SVGTextContentElement(SVGGraphicsElement):
                     out.pop()
         return [info for info, _ in out]
 
+    @staticmethod
+    def _get_char_positions(chars_info):
+        """Resolves the character positions.
+
+        Arguments:
+            chars_info (list): A list of the addressable characters.
+        Returns:
+            dict[str, list[float]]: The values of the 'x', 'y', 'dx', 'dy' and
+                'rotate' attributes for each character, or None if they are
+                not specified.
+        """
+        # See https://svgwg.org/svg2-draft/text.html#TextLayoutAlgorithm
+        ranges = dict()  # ancestors first
+        rotate = list()
+        rotate_lists = dict()
+        end = 0
+        for info in iter(chars_info):
+            start = end
+            end += len(info[SVGTextContentElement._CHARS_TEXT])
+            ancestors = list()
+            element = info[SVGTextContentElement._CHARS_ELEMENT]
+            while element is not None and element.istext():
+                ancestors.insert(0, element)
+                element = element.getparent()
+            rotate_list = None
+            for element in ancestors:
+                ranges[element] = (ranges.get(element, (start,))[0], end)
+                if element not in rotate_lists:
+                    rotate_lists[element] = \
+                        element.get_computed_geometry()['rotate']
+                if rotate_lists[element]:
+                    rotate_list = rotate_lists[element]
+            for _ in range(start, end):
+                if rotate_list is None:
+                    rotate.append(None)
+                    continue
+                # the last value applies to the remaining characters
+                rotate.append(rotate_list[0] if len(rotate_list) == 1
+                              else rotate_list.pop(0))
+
+        positions = {name: [None] * end for name in ('x', 'y', 'dx', 'dy')}
+        for element, (start, end) in ranges.items():
+            geometry = element.get_computed_geometry()
+            for name, resolved in positions.items():
+                values = geometry[name]
+                if values is None:
+                    continue
+                values = values[:end - start]
+                resolved[start:start + len(values)] = values
+        positions['rotate'] = rotate
+        return positions
+
     @staticmethod
     def _get_descendant_chars_info(root, **kwargs):
         """Returns the addressable characters.
@@ -189,13 +241,22 @@ class SVGTextContentElement(SVGGraphicsElement):
                     style = info[SVGTextContentElement._CHARS_STYLE]
                     style_map[key] = copy.deepcopy(style)
 
+                positions = SVGTextContentElement._get_char_positions(
+                    chars_info)
+                dx = dy = 0  # of the last characters of a ligature
+                start = 0
                 for info in iter(chars_info):
-                    path_data, advance_list, bbox, (x, y) = \
+                    end = start + len(
+                        info[SVGTextContentElement._CHARS_TEXT])
+                    char_positions = {name: values[start:end]
+                                      for name, values in positions.items()}
+                    start = end
+                    path_data, advance_list, bbox, (x, y, dx, dy) = \
                         SVGTextContentElement._get_text_path_data(
                             info[SVGTextContentElement._CHARS_ELEMENT],
                             style_map,
                             info[SVGTextContentElement._CHARS_TEXT],
-                            x, y)
+                            x, y, dx, dy, char_positions)
                     info[SVGTextContentElement._CHARS_PATH_DATA] = path_data
                     info[SVGTextContentElement._CHARS_ADVANCE_LIST] = \
                         advance_list
@@ -204,7 +265,8 @@ class SVGTextContentElement(SVGGraphicsElement):
         return chars_info
 
     @staticmethod
-    def _get_text_path_data(element, style_map, out_text, start_x, start_y):
+    def _get_text_path_data(element, style_map, out_text, start_x, start_y,
+                            start_dx, start_dy, char_positions):
         """Returns the addressable characters.
 
         Arguments:
@@ -213,36 +275,23 @@ class SVGTextContentElement(SVGGraphicsElement):
             out_text (str): A text for rendering.
             start_x (float):
             start_y (float):
+            start_dx (float):
+            start_dy (float):
+            char_positions (dict): The positions of the characters of the
+                text.
         Returns:
             list[SVGPathSegment]:
             list[float]:
             DOMRect:
-            tuple[float, float]:
+            tuple[float, float, float, float]:
         """
 
-        def _get_inherited_attribute(_element, _style_map, _key,
-                                     _default=None):
-            while _element is not None:
-                if (_element.node_type == Node.ELEMENT_NODE
-                        and _element.istext()
-                        and _element.isdisplay()):
-                    _style = _style_map.get(hash(_element))
-                    if _style is None:
-                        _style = _element.get_computed_style()
-                        _style_map[hash(_element)] = _style
-                    _value = _style.get(_key)
-                    if _value is not None:
-                        return _value
-                _element = _element.getparent()
-            return _default
-
         # TODO: support line-breaking and word-breaking.
-        x_list = _get_inherited_attribute(element, style_map, 'x', [])
-        y_list = _get_inherited_attribute(element, style_map, 'y', [])
-        dx_list = _get_inherited_attribute(element, style_map, 'dx', [])
-        dy_list = _get_inherited_attribute(element, style_map, 'dy', [])
-        rotate_list = _get_inherited_attribute(
-            element, style_map, 'rotate', [])
+        x_list = char_positions['x']
+        y_list = char_positions['y']
+        dx_list = char_positions['dx']
+        dy_list = char_positions['dy']
+        rotate_list = char_positions['rotate']
 
         style = style_map.get(hash(element))  # computed style
         assert style is not None
@@ -329,10 +378,12 @@ class SVGTextContentElement(SVGGraphicsElement):
 
         current_x = start_x
         current_y = start_y
+        next_dx = start_dx
+        next_dy = start_dy
         rotate = 0
         matrix = DOMMatrix()
         path_data_list = list()
-        advance_list = list()
+        advance_list = [0] * len(out_text)  # one for each character
         text_bbox = DOMRect()
         metrics = face.size.metrics
         glyph_width = metrics.x_ppem
@@ -345,18 +396,22 @@ class SVGTextContentElement(SVGGraphicsElement):
                       else UBiDi.UBIDI_DEFAULT_RTL)
         max_limit = para.get_processed_length()
         bi = UBreakIterator(UBreakIterator.UBRK_LINE, locale.locale)
+        utf16 = out_text.encode('utf-16-le')
+        line_start = 0
         logical_start = 0
         while logical_start < max_limit:
             limit, para_level = para.get_logical_run(logical_start)
             para_level &= 1
-            paragraph = out_text[logical_start:limit]
+            paragraph = utf16[logical_start * 2:limit * 2].decode('utf-16-le')
             bi.set_text(paragraph)
+            lines = list()
+            for line in bi:
+                lines.append((line_start, line))
+                line_start += len(line)
             if ((not ltr and para_level == UBiDi.UBIDI_LTR)
                     or (ltr and para_level == UBiDi.UBIDI_RTL)):
-                iterable = reversed(bi)
-            else:
-                iterable = bi
-            for line in iterable:
+                lines.reverse()
+            for line_offset, line in lines:
                 buf.clear_contents()
                 buf.set_language(hb_language)
                 buf.set_script(hb_script)
@@ -369,74 +424,40 @@ class SVGTextContentElement(SVGGraphicsElement):
                     infos = list(reversed(infos))
                     positions = list(reversed(positions))
 
-                # re-positioning
-                if len(infos) != len(line):
-                    clusters = [x.cluster for x in infos]
-                    cluster_min = min(clusters)
-                    cluster_max = max(clusters)
-                    cluster_inc = max(
-                        (cluster_max - cluster_min) // len(clusters), 1)
-                    # try to find ligatures
-                    last_cluster = None
-                    for offset, cluster in enumerate(clusters):
-                        if last_cluster is None:
-                            pass
-                        elif last_cluster == cluster:
-                            pass  # decompose
-                        elif last_cluster + cluster_inc == cluster:
-                            pass  # do nothing
-                        else:
-                            # ligature
-                            index = logical_start + offset
-                            if index < len(x_list):
-                                _ = x_list.pop(index)
-                            if index < len(y_list):
-                                _ = y_list.pop(index)
-                            dx_length = len(dx_list)
-                            if index < dx_length:
-                                dx = dx_list.pop(index)
-                                if index < dx_length - 1:
-                                    dx_list[index] += dx
-                            dy_length = len(dy_list)
-                            if index < dy_length:
-                                dy = dy_list.pop(index)
-                                if index < dy_length - 1:
-                                    dy_list[index] += dy
-                            rotate_length = len(rotate_list)
-                            if rotate_length > 1 and index < rotate_length:
-                                _ = rotate_list.pop(index)
-                        last_cluster = cluster
+                # map clusters to the characters, which are more than one in
+                # the case of ligatures
+                utf8 = line.encode()
+                clusters = sorted(set(info.cluster for info in infos))
+                clusters.append(len(utf8))
+                char_ranges = {
+                    first: (line_offset + len(utf8[:first].decode()),
+                            line_offset + len(utf8[:last].decode()))
+                    for first, last in zip(clusters, clusters[1:])}
+                last_cluster = None
 
                 # render line
                 line_path_data = list()
                 line_bbox = DOMRect()
                 for info, position in zip(infos, positions):
-                    if len(x_list) > 0:
-                        x = x_list.pop(0)
-                    else:
-                        x = current_x
-                    if len(y_list) > 0:
-                        y = y_list.pop(0)
-                    else:
-                        y = current_y
-                    if len(dx_list) > 0:
-                        dx = dx_list.pop(0)
-                    else:
-                        dx = 0
-                    if len(dy_list) > 0:
-                        dy = dy_list.pop(0)
-                    else:
-                        dy = 0
-                    rotate_length = len(rotate_list)
-                    if rotate_length == 1:
-                        rotate = rotate_list[0]
-                    elif rotate_length > 1:
-                        rotate = rotate_list.pop(0)
+                    x = current_x
+                    y = current_y
+                    if info.cluster != last_cluster:
+                        start, end = char_ranges[info.cluster]
+                        if x_list[start] is not None:
+                            x = x_list[start]
+                        if y_list[start] is not None:
+                            y = y_list[start]
+                        x += next_dx + (dx_list[start] or 0)
+                        y += next_dy + (dy_list[start] or 0)
+                        next_dx = sum(dx or 0 for dx in dx_list[start + 1:end])
+                        next_dy = sum(dy or 0 for dy in dy_list[start + 1:end])
+                        rotate = rotate_list[start] or 0
+                        last_cluster = info.cluster
 
                     x_offset = position.x_offset / 64
                     y_offset = position.y_offset / 64
-                    x += dx + x_offset
-                    y += dy - y_offset
+                    x += x_offset
+                    y -= y_offset
                     if horizontal:
                         advance = position.x_advance / 64
                         if para_level == UBiDi.UBIDI_RTL:
@@ -462,7 +483,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                                                  advance)
                         x_advance = 0
                         y_advance = advance
-                    advance_list.append(advance)
+                    advance_list[start] += advance
                     if rotate != 0:
                         matrix.clear()
                         matrix.translate_self(x, y)
@@ -513,7 +534,8 @@ class SVGTextContentElement(SVGGraphicsElement):
 
             logical_start = limit
 
-        return path_data_list, advance_list, text_bbox, (current_x, current_y)
+        return (path_data_list, advance_list, text_bbox,
+                (current_x, current_y, next_dx, next_dy))
 
     def get_bbox(self, options=None, _matrix=None):
         """Returns the bounding box of the current element.
-- 
2.43.0


From e4bef611df14f67aa639b6da1e2734f0a3164c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 107/119] fix: the box and the path data of a tspan are those
 of its characters

---
 svgpy/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 2ce9905..e223a16 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -552,7 +552,8 @@ class SVGTextContentElement(SVGGraphicsElement):
             return bbox
 
         for info in iter(chars_info):
-            bbox |= info[SVGTextContentElement._CHARS_BBOX]
+            if self._is_chars_of(info):
+                bbox |= info[SVGTextContentElement._CHARS_BBOX]
 
         if _matrix is not None:
             bbox.transform_self(_matrix)
@@ -707,7 +708,8 @@ class SVGTextContentElement(SVGGraphicsElement):
             return path_data
 
         for info in iter(chars_info):
-            path_data += info[SVGTextContentElement._CHARS_PATH_DATA]
+            if self._is_chars_of(info):
+                path_data += info[SVGTextContentElement._CHARS_PATH_DATA]
 
         if settings is not None:
             if not isinstance(settings, SVGPathDataSettings):
-- 
2.43.0


From a7c1be9b3f3705436476151acf6743fe890d458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 108/119] fix: lists of positions may be surrounded by white
 space

---
 svgpy/text.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index e223a16..88bfa97 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -576,7 +576,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_x)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_x.strip())
             ]
         geometry['x'] = x
 
@@ -593,7 +593,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_VERTICAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_y)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_y.strip())
             ]
         geometry['y'] = y
 
@@ -608,7 +608,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dx)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dx.strip())
             ]
         geometry['dx'] = dx
 
@@ -623,7 +623,7 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_VERTICAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dy)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dy.strip())
             ]
         geometry['dy'] = dy
 
@@ -636,7 +636,7 @@ class SVGTextContentElement(SVGGraphicsElement):
         else:
             rotate = [
                 float(t) for t in
-                Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_rotate)
+                Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_rotate.strip())
             ]
         geometry['rotate'] = rotate
 
-- 
2.43.0


From 1532bb6f4845e4bd43fa8ade9eb0c9f083030bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 109/119] fix: create_element_ns() leaves the namespace map of
 the caller alone

---
 svgpy/element.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index fd5739d..033bf1c 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1374,8 +1374,7 @@ class SVGParser(object):
             >>> e.tag, e.node_name, e.tag_name, e.local_name
             ('{http://www.w3.org/1999/xhtml}source', 'html:source', 'html:source', 'source')
         """
-        if nsmap is None:
-            nsmap = dict()
+        nsmap = dict() if nsmap is None else dict(nsmap)
         if None not in nsmap:
             nsmap[None] = Element.SVG_NAMESPACE_URI
         qname = QualifiedName(namespace, qualified_name)
-- 
2.43.0


From be0c15aaa7b2e05822b25bb4f65b900a98c79fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 110/119] fix: the namespace URI of an element is that of its
 name

---
 svgpy/dom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index d2358f4..cf5e405 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1456,7 +1456,10 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
     @property
     def namespace_uri(self):
-        return self.nsmap.get(self.prefix)
+        namespace = self.qname.namespace
+        if namespace is None:
+            namespace = self.nsmap.get(self.prefix)
+        return namespace
 
     @property
     def next_element_sibling(self):
-- 
2.43.0


From 2bfb646f3733e86b2735b3fe84562f3fa96a9ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 111/119] fix: a CSS-wide keyword is the sole component of a
 shorthand value

---
 svgpy/css/shorthands.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index c71afea..8b66552 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -133,6 +133,15 @@ class Shorthand(object):
         if property_name not in shorthand_property_map:
             return False
 
+        components = [x for x in component_list
+                      if x.type not in ('whitespace', 'comment')]
+        if (len(components) > 1
+                and any(x.type == 'ident'
+                        and x.lower_value in css_wide_keyword_set
+                        for x in components)):
+            # a CSS-wide keyword is the sole component of a value
+            return False
+
         shorthand = self._shorthand(property_name)
         updated = shorthand.set_css_declaration(component_list, priority)
         return updated
-- 
2.43.0


From 8172a0e33d17869f5f491db72a5d6c072d8e0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 112/119] fix: the tags of an outline end with its points, not
 at the first zero

---
 svgpy/freetype.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/freetype.py b/svgpy/freetype.py
index aa9fdf4..9642e7e 100644
--- a/svgpy/freetype.py
+++ b/svgpy/freetype.py
@@ -776,8 +776,10 @@ class FTOutline(object):
 
     @property
     def tags(self):
-        tags = ffi.string(self._outline.tags)
-        return list(tags)
+        tags = list()
+        for n in range(0, self.n_points):
+            tags.append(ord(self._outline.tags[n]))
+        return tags
 
     def decompose(self, move_to_func, line_to_func, conic_to_func,
                   cubic_to_func, shift=0, delta=0, user=None):
-- 
2.43.0


From 401ea79d9a55ce0f7ac7c91dec2fc84c0ccc8a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 113/119] fix: the nearest font weight is searched in the order
 of CSS Fonts

---
 svgpy/core.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 29b297a..9f0d274 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -862,18 +862,23 @@ class FontManager(object):
             group = [x for x in iter(matched) if
                      font_weight == x[FontConfig.FC_WEIGHT]]
             if len(group) == 0:
-                # FIXME: narrow down by nearest font weight.
-                fc_weight_table = set(
-                    [x[FontConfig.FC_WEIGHT] for x in iter(matched)])
-                if font_weight < Font.WEIGHT_NORMAL:  # <400
-                    fc_weight_table = sorted(fc_weight_table, reverse=True)
-                else:  # >=400
-                    fc_weight_table = sorted(fc_weight_table)
-                index = np.abs(
-                    np.asarray(fc_weight_table) - font_weight).argmin()
+                # See https://drafts.csswg.org/css-fonts-3/#font-style-matching
+                fc_weight_table = sorted(set(
+                    [x[FontConfig.FC_WEIGHT] for x in iter(matched)]))
+                lighter = [x for x in reversed(fc_weight_table) if
+                           x < font_weight]
+                heavier = [x for x in fc_weight_table if x > font_weight]
+                if font_weight in [Font.WEIGHT_NORMAL, Font.WEIGHT_MEDIUM]:
+                    # 400 or 500: the other one, lighter and then heavier
+                    order = [x for x in heavier if x <= Font.WEIGHT_MEDIUM]
+                    order += lighter + heavier
+                elif font_weight < Font.WEIGHT_NORMAL:
+                    order = lighter + heavier
+                else:
+                    order = heavier + lighter
+                fc_weight = order[0]
                 group = [x for x in iter(matched) if
-                         fc_weight_table[index] == x[
-                             FontConfig.FC_WEIGHT]]
+                         fc_weight == x[FontConfig.FC_WEIGHT]]
             if len(group) == 0:
                 continue
             else:
-- 
2.43.0


From f5d84cc9241b933518fb545e41b63d3dfd3a97cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 114/119] fix: an installed font family is found by any of its
 names

---
 svgpy/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 9f0d274..0d7b5e1 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -795,7 +795,10 @@ class FontManager(object):
     def _find_face(style, text=None):
         font_family_names = list()
         for font_family_name in iter(style['font-family']):
-            name = FontManager.match(font_family_name)
+            if len(FontManager.list(font_family_name)) > 0:
+                name = font_family_name
+            else:
+                name = FontManager.match(font_family_name)
             if name is not None and name not in font_family_names:
                 font_family_names.append(name)
         font_stretch = style['font-stretch']
-- 
2.43.0


From d73cb43eb0d3bd3bce843a69a52daedfdb07338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 115/119] fix: HBBuffer adds UTF-16 and UTF-32 text without a
 byte order mark

---
 svgpy/harfbuzz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/harfbuzz.py b/svgpy/harfbuzz.py
index 51c7101..3b8ceeb 100644
--- a/svgpy/harfbuzz.py
+++ b/svgpy/harfbuzz.py
@@ -464,12 +464,14 @@ class HBBuffer(object):
         return self._buffer
 
     def add_utf16(self, text):
-        arr = array.array('H', text.encode('utf-16'))
+        # skip the byte order mark
+        arr = array.array('H', text.encode('utf-16'))[1:]
         buf = ffi.new('uint16_t[]', arr.tolist())
         lib.hb_buffer_add_utf16(self._buffer, buf, len(buf), 0, -1)
 
     def add_utf32(self, text):
-        arr = array.array('I', text.encode('utf-32'))
+        # skip the byte order mark
+        arr = array.array('I', text.encode('utf-32'))[1:]
         buf = ffi.new('uint32_t[]', arr.tolist())
         lib.hb_buffer_add_utf32(self._buffer, buf, len(buf), 0, -1)
 
-- 
2.43.0


From 715b6338f176765156423905c1e9a42e32e4c12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 116/119] fix: FreeType glyph slots, outlines, sizes and
 charmaps keep their face

---
 svgpy/freetype.py | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/svgpy/freetype.py b/svgpy/freetype.py
index 9642e7e..26a8727 100644
--- a/svgpy/freetype.py
+++ b/svgpy/freetype.py
@@ -44,8 +44,9 @@ def ft_tag_to_string(tag):
 class FTBitmap(object):
     """Represents the 'FT_Bitmap' data type."""
 
-    def __init__(self, ft_bitmap):
+    def __init__(self, ft_bitmap, _owner=None):
         self._bitmap = ft_bitmap
+        self._owner = _owner  # keep a reference
 
     def __repr__(self):
         return (
@@ -96,8 +97,9 @@ class FTBitmap(object):
 class FTBitmapSize(object):
     """Represents the 'FT_Bitmap_Size' data type."""
 
-    def __init__(self, ft_bitmap_size):
+    def __init__(self, ft_bitmap_size, _owner=None):
         self._bitmap_size = ft_bitmap_size
+        self._owner = _owner  # keep a reference
 
     def __repr__(self):
         return (
@@ -130,8 +132,9 @@ class FTBitmapSize(object):
 class FTCharMap(object):
     """Represents the 'FT_CharMap' data type."""
 
-    def __init__(self, ft_charmap):
+    def __init__(self, ft_charmap, _owner=None):
         self._charmap = ft_charmap
+        self._owner = _owner  # keep a reference
 
     def __repr__(self):
         return "('encoding': {}, 'encoding_id': {}, 'platform_id': {})".format(
@@ -180,7 +183,8 @@ class FTFace(object):
     def available_sizes(self):
         bitmap_sizes = list()
         for n in range(0, self.num_fixed_sizes):
-            bitmap_sizes.append(FTBitmapSize(self._face.available_sizes[n]))
+            bitmap_sizes.append(
+                FTBitmapSize(self._face.available_sizes[n], self))
         return bitmap_sizes
 
     @property
@@ -194,14 +198,14 @@ class FTFace(object):
 
     @property
     def charmap(self):
-        charmap = FTCharMap(self._face.charmap)
+        charmap = FTCharMap(self._face.charmap, self)
         return charmap
 
     @property
     def charmaps(self):
         charmaps = list()
         for n in range(0, self.num_charmaps):
-            charmaps.append(FTCharMap(self._face.charmaps[n]))
+            charmaps.append(FTCharMap(self._face.charmaps[n], self))
         return charmaps
 
     @property
@@ -227,7 +231,7 @@ class FTFace(object):
 
     @property
     def glyph(self):
-        glyph = FTGlyphSlot(self._face.glyph)
+        glyph = FTGlyphSlot(self._face.glyph, self)
         return glyph
 
     @property
@@ -260,7 +264,7 @@ class FTFace(object):
 
     @property
     def size(self):
-        size = FTSize(self._face.size)
+        size = FTSize(self._face.size, self)
         return size
 
     @property
@@ -439,8 +443,9 @@ class FTFace(object):
 class FTGlyphMetrics(object):
     """Represents the 'FT_Glyph_Metrics' data type."""
 
-    def __init__(self, ft_glyph_metrics):
+    def __init__(self, ft_glyph_metrics, _owner=None):
         self._metrics = ft_glyph_metrics
+        self._owner = _owner  # keep a reference
 
     def __repr__(self):
         return (
@@ -489,8 +494,9 @@ class FTGlyphMetrics(object):
 class FTGlyphSlot(object):
     """Represents the 'FT_GlyphSlot' data type."""
 
-    def __init__(self, ft_glyph_slot):
+    def __init__(self, ft_glyph_slot, _owner=None):
         self._slot = ft_glyph_slot
+        self._owner = _owner  # keep a reference
 
     def __repr__(self):
         return (
@@ -512,7 +518,7 @@ class FTGlyphSlot(object):
 
     @property
     def bitmap(self):
-        bitmap = FTBitmap(self._slot.bitmap)
+        bitmap = FTBitmap(self._slot.bitmap, self)
         return bitmap
 
     @property
@@ -541,12 +547,12 @@ class FTGlyphSlot(object):
 
     @property
     def metrics(self):
-        metrics = FTGlyphMetrics(self._slot.metrics)
+        metrics = FTGlyphMetrics(self._slot.metrics, self)
         return metrics
 
     @property
     def outline(self):
-        outline = FTOutline(self._slot.outline)
+        outline = FTOutline(self._slot.outline, self)
         return outline
 
     @property
@@ -739,8 +745,9 @@ class FreeType(object):
 class FTOutline(object):
     """Represents the 'FT_Outline' data type."""
 
-    def __init__(self, ft_outline):
+    def __init__(self, ft_outline, _owner=None):
         self._outline = ft_outline
+        self._owner = _owner  # keep a reference
 
     def __repr__(self):
         return (
@@ -864,23 +871,25 @@ class FTOutline(object):
 class FTSize(object):
     """Represents the 'FT_Size' data type."""
 
-    def __init__(self, ft_size):
+    def __init__(self, ft_size, _owner=None):
         self._size = ft_size
+        self._owner = _owner  # keep a reference
 
     def __repr__(self):
         return "('metrics': {})".format(repr(self.metrics))
 
     @property
     def metrics(self):
-        metrics = FTSizeMetrics(self._size.metrics)
+        metrics = FTSizeMetrics(self._size.metrics, self)
         return metrics
 
 
 class FTSizeMetrics(object):
     """Represents the 'FT_Size_Metrics' data type."""
 
-    def __init__(self, ft_size_metrics):
+    def __init__(self, ft_size_metrics, _owner=None):
         self._metrics = ft_size_metrics
+        self._owner = _owner  # keep a reference
 
     def __repr__(self):
         return (
-- 
2.43.0


From 837754f619f5dc4b1efe0806f15db90aa56719f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 117/119] fix: the memory modes of HBBlob are HarfBuzz's, and
 it copies its data

---
 svgpy/harfbuzz.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgpy/harfbuzz.py b/svgpy/harfbuzz.py
index 3b8ceeb..ba16e81 100644
--- a/svgpy/harfbuzz.py
+++ b/svgpy/harfbuzz.py
@@ -385,10 +385,10 @@ class HBOTFont(HBFont):
 class HBBlob(object):
     """Represents the 'hb_blob_t' data type."""
 
-    HB_MEMORY_MODE_DUPLICATE = 1
-    HB_MEMORY_MODE_READONLY = 2
-    HB_MEMORY_MODE_WRITABLE = 3
-    HB_MEMORY_MODE_READONLY_MAY_MAKE_WRITABLE = 4
+    HB_MEMORY_MODE_DUPLICATE = 0
+    HB_MEMORY_MODE_READONLY = 1
+    HB_MEMORY_MODE_WRITABLE = 2
+    HB_MEMORY_MODE_READONLY_MAY_MAKE_WRITABLE = 3
 
     def __init__(self, hb_blob, reference=False):
         """Constructs a HBBlob object.
@@ -408,7 +408,7 @@ class HBBlob(object):
         return self._blob
 
     @staticmethod
-    def create(data, length=-1, mode=2):
+    def create(data, length=-1, mode=HB_MEMORY_MODE_DUPLICATE):
         # bytes
         if length < 0:
             length = len(data)
-- 
2.43.0


From 08ac13f4485bd699202e85b004b71b41a57b4426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 118/119] fix: HarfBuzz faces and fonts keep the face they were
 made from

---
 svgpy/harfbuzz.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/svgpy/harfbuzz.py b/svgpy/harfbuzz.py
index ba16e81..c191ae4 100644
--- a/svgpy/harfbuzz.py
+++ b/svgpy/harfbuzz.py
@@ -101,6 +101,7 @@ class HBFace(object):
             hb_face (cdata): A pointer of C type <cdata 'hb_face_t *'>.
         """
         self._face = hb_face
+        self._source = None  # keep a reference
         if reference:
             self.reference()
 
@@ -163,7 +164,9 @@ class HBFTFace(HBFace):
             HBFTFace: A new HBFTFace object.
         """
         hb_face = lib.hb_ft_face_create(face.ft_face, ffi.NULL)
-        return HBFTFace(hb_face)
+        new_face = HBFTFace(hb_face)
+        new_face._source = face
+        return new_face
 
 
 class HBFeature(object):
@@ -247,6 +250,7 @@ class HBFont(object):
             hb_font (cdata): A pointer of C type <cdata 'hb_font_t *'>.
         """
         self._font = hb_font
+        self._source = None  # keep a reference
         if reference:
             self.reference()
 
@@ -267,12 +271,16 @@ class HBFont(object):
         Returns:
             HBFont: A new HBFont object.
         """
-        font = lib.hb_font_create(face.hb_face)
-        return HBFont(font)
+        hb_font = lib.hb_font_create(face.hb_face)
+        font = HBFont(hb_font)
+        font._source = face
+        return font
 
     def get_face(self):
-        face = lib.hb_font_get_face(self._font)
-        return HBFace(face)
+        hb_face = lib.hb_font_get_face(self._font)
+        face = HBFace(hb_face, reference=True)
+        face._source = self._source
+        return face
 
     def get_glyph(self, unicode, variation_selector=0):
         glyph = ffi.new('hb_codepoint_t *')
@@ -317,6 +325,7 @@ class HBFont(object):
 
     def set_face(self, face):
         lib.hb_font_set_face(self._font, face.hb_face)
+        self._source = face
 
 
 class HBFTFont(HBFont):
@@ -331,11 +340,14 @@ class HBFTFont(HBFont):
             HBFTFont: A new HBFTFont object.
         """
         hb_font = lib.hb_ft_font_create(face.ft_face, ffi.NULL)
-        return HBFTFont(hb_font)
+        font = HBFTFont(hb_font)
+        font._source = face
+        return font
 
     def get_face(self):
-        face = lib.hb_ft_font_get_face(self._font)
-        return FTFace(face, reference=True)
+        ft_face = lib.hb_ft_font_get_face(self._font)
+        face = FTFace(ft_face, reference=True, _memory_base=self._source)
+        return face
 
     def get_load_flags(self):
         load_flags = lib.hb_ft_font_get_load_flags(self._font)
-- 
2.43.0


From b9b443504a37fcda5782f8f298949f30ec306881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 119/119] fix: the media type of a data: URL is read as RFC
 2397 says

---
 svgpy/utils.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index 9715d28..e7f3ec5 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -19,7 +19,7 @@ import re
 from collections import OrderedDict
 from collections.abc import MutableMapping
 from pathlib import PurePath
-from urllib.parse import unquote
+from urllib.parse import unquote, unquote_to_bytes
 from urllib.request import urlopen
 
 import tinycss2
@@ -197,15 +197,26 @@ def load(src, encoding=None, **kwargs):
         end = pathname.find(',')
         if end < 0:
             return None, headers
-        content_type = pathname[0:end].strip()
-        if len(content_type) == 0:
-            content_type = 'text/plain;charset=US-ASCII'
-        data = unquote(pathname[end + 1:].strip())
-        parameters = [x.strip() for x in content_type.split(';')]
-        if 'base64' in parameters:
-            parameters.remove('base64')
-            data = base64.b64decode(data)
+        parameters = [x.strip() for x in pathname[0:end].split(';')]
+        is_base64 = 'base64' in [x.lower() for x in parameters[1:]]
+        parameters[1:] = [x for x in parameters[1:] if x.lower() != 'base64']
+        charset = get_content_type(
+            {'Content-Type': ';'.join(parameters)}).get('charset', 'utf-8')
+        if len(parameters[0]) == 0:
+            parameters[0] = 'text/plain'
+            if len(parameters) == 1 and not is_base64:
+                parameters.append('charset=US-ASCII')
         headers['Content-Type'] = ';'.join(parameters)
+        data = pathname[end + 1:].strip()
+        if is_base64:
+            data = ''.join(unquote(data).split()).rstrip('=')
+            data = base64.b64decode(data + '=' * (-len(data) % 4))
+        else:
+            data = unquote_to_bytes(data)
+            try:
+                data = data.decode(charset, 'replace')
+            except LookupError:
+                data = data.decode('utf-8', 'replace')
         return data, headers
 
     with urlopen(url.href, **kwargs) as response:
-- 
2.43.0

