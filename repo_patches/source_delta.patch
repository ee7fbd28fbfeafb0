From b74152bcb3b1ab95ed4d5a9ca52e01728303c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 01/94] fix: counterclockwise arc sweep was wrong when the arc
 crosses or ends at 0 degrees

The sweep was abs(theta1 - theta0), so in single-quadrant mode an arc ending
at (or crossing) 0 degrees got the mirrored centre.
---
 gerber/primitives.py | 2 +-
 gerber/rs274x.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 757f117..8744f04 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -400,7 +400,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         if self.direction == 'counterclockwise':
-            return abs(theta1 - theta0)
+            return (theta1 - theta0) % two_pi
         else:
             theta0 += two_pi
             return abs(theta0 - theta1) % two_pi
diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index afdf45f..8aee439 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -757,7 +757,7 @@ class GerberParser(object):
 
                 # Determine sweep angle in the current arc direction
                 if self.direction == 'counterclockwise':
-                    sweep_angle = abs(theta1 - theta0)
+                    sweep_angle = (theta1 - theta0) % two_pi
                 else:
                     theta0 += two_pi
                     sweep_angle = abs(theta0 - theta1) % two_pi
-- 
2.43.0


From a2c5db3929b7b3c31b8247bd1a79bc4f50f2eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 02/94] fix: a move inside region mode dropped a contour made
 of one segment

A full circle is a complete contour of one arc; G37 kept it but D02 did not.
---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 8aee439..43b9d41 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -698,7 +698,7 @@ class GerberParser(object):
 
             if self.region_mode == "on":
                 # D02 in the middle of a region finishes that region and starts a new one
-                if self.current_region and len(self.current_region) > 1:
+                if self.current_region:
                     self.primitives.append(Region(self.current_region,
                                                   level_polarity=self.level_polarity,
                                                   units=self.settings.units))
-- 
2.43.0


From 2ed8ff4fdc0f70802b508341b594873c2d66b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 03/94] fix: end-of-program coordinates were written in a fixed
 2:5 format

EndOfProgramStmt.to_excellon ignored the settings it was given, so M30X..Y..
was written in a number format other than the file's.
---
 gerber/excellon_statements.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 2c50ef9..3700cd5 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -622,9 +622,15 @@ class EndOfProgramStmt(ExcellonStatement):
     def to_excellon(self, settings=None):
         stmt = 'M30'
         if self.x is not None:
-            stmt += 'X%s' % write_gerber_value(self.x)
+            stmt += ('X%s' % write_gerber_value(self.x, settings.format,
+                                                settings.zero_suppression)
+                     if settings is not None
+                     else 'X%s' % write_gerber_value(self.x))
         if self.y is not None:
-            stmt += 'Y%s' % write_gerber_value(self.y)
+            stmt += ('Y%s' % write_gerber_value(self.y, settings.format,
+                                                settings.zero_suppression)
+                     if settings is not None
+                     else 'Y%s' % write_gerber_value(self.y))
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From a1ed46cd093c63ec937767a13e9305c696ae7323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 04/94] fix: signed end-of-program coordinates were dropped
 when reading

The pattern of M30X..Y.. did not accept a sign, so M30X-1Y2 was read as
having no coordinates.
---
 gerber/excellon_statements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 3700cd5..72d7945 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -601,8 +601,8 @@ class EndOfProgramStmt(ExcellonStatement):
 
     @classmethod
     def from_excellon(cls, line, settings, **kwargs):
-        match = re.compile(r'M30X?(?P<x>\d*\.?\d*)?Y?'
-                           '(?P<y>\d*\.?\d*)?').match(line)
+        match = re.compile(r'M30X?(?P<x>[+-]?\d*\.?\d*)?Y?'
+                           r'(?P<y>[+-]?\d*\.?\d*)?').match(line)
         stmt = match.groupdict()
         x = (parse_gerber_value(stmt['x'], settings.format,
                                 settings.zero_suppression)
-- 
2.43.0


From 6739d2d0cd246ae17c5137c6e77a2bdc040d2199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 05/94] fix: subtraction in aperture macro expressions always
 gave 0

---
 gerber/am_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index 3a7e1ed..e517ecd 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -92,7 +92,7 @@ def eval_macro(instructions, parameters={}):
         elif opcode == OpCode.SUB:
             op1 = pop()
             op2 = pop()
-            push(op2 - op2)
+            push(op2 - op1)
 
         elif opcode == OpCode.MUL:
             op1 = pop()
-- 
2.43.0


From fba6c46b26e978cf12e1cbea34ed44752f91707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 06/94] fix: signs and differences in aperture macro
 expressions were misread

After a comma every '-' was taken as the sign of the next number, wherever
that number was: 1-2 and $1-$2 lost the operator, -$1 and -0 negated some
later number, and a sign after '=' or '(' was taken as a binary operator.
---
 gerber/am_read.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 4aff00b..3b19826 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -131,8 +131,8 @@ def read_macro(macro):
         equation_left_side = 0
         primitive_code = 0
 
-        unary_minus_allowed = False
-        unary_minus = False
+        # a sign may precede the first operand of an expression
+        sign_allowed = False
 
         if Token.EQUALS in block:
             is_equation = True
@@ -167,13 +167,13 @@ def read_macro(macro):
                 while not empty():
                     instructions.append((token_to_opcode(pop()), None))
 
-                unary_minus_allowed = True
+                sign_allowed = True
 
             elif c in Token.OPERATORS:
-                if c == Token.SUB and unary_minus_allowed:
-                    unary_minus = True
-                    unary_minus_allowed = False
-                    continue
+                if c in (Token.ADD, Token.SUB) and sign_allowed:
+                    # signed operand: 0 + x or 0 - x
+                    instructions.append((OpCode.PUSH, 0))
+                sign_allowed = False
 
                 while not empty() and is_op(top()) and precedence(top()) >= precedence(c):
                     instructions.append((token_to_opcode(pop()), None))
@@ -182,6 +182,7 @@ def read_macro(macro):
 
             elif c == Token.LEFT_PARENS:
                 push(c)
+                sign_allowed = True
 
             elif c == Token.RIGHT_PARENS:
                 while not empty() and top() != Token.LEFT_PARENS:
@@ -195,6 +196,7 @@ def read_macro(macro):
 
             elif c.startswith("$"):
                 n = scanner.readint()
+                sign_allowed = False
 
                 if is_equation and not found_equation_left_side:
                     equation_left_side = n
@@ -203,6 +205,7 @@ def read_macro(macro):
 
             elif c == Token.EQUALS:
                 found_equation_left_side = True
+                sign_allowed = True
 
             elif c == "0":
                 if is_primitive and not found_primitive_code:
@@ -212,6 +215,7 @@ def read_macro(macro):
                     # decimal or integer disambiguation
                     if scanner.peek() not in '.' or scanner.peek() == Token.EOF:
                         instructions.append((OpCode.PUSH, 0))
+                        sign_allowed = False
 
             elif c in "123456789.":
                 scanner.ungetc()
@@ -220,10 +224,7 @@ def read_macro(macro):
                     primitive_code = scanner.readint()
                 else:
                     n = scanner.readfloat()
-                    if unary_minus:
-                        unary_minus = False
-                        n *= -1
-
+                    sign_allowed = False
                     instructions.append((OpCode.PUSH, n))
             else:
                 # whitespace or unknown char
-- 
2.43.0


From 228571f8f9f63b93c50899dcf786a8bee0e3bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 07/94] fix: macro vector lines were not the rectangle between
 their end points

The outline swept an axis-parallel square, so it extended beyond both ends
and was a hexagon for oblique lines, and its sides all started at the same
vertex instead of forming a contour.
---
 gerber/am_statements.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index bf25484..ca849bb 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -316,9 +316,18 @@ class AMVectorLinePrimitive(AMPrimitive):
         when rotated.
         """
 
-        # Use a line to generate our vertices easily
-        line = Line(self.start, self.end, Rectangle(None, self.width, self.width))
-        vertices = line.vertices
+        # The rectangle of the given width around the center line
+        dx = self.end[0] - self.start[0]
+        dy = self.end[1] - self.start[1]
+        length = math.hypot(dx, dy)
+        if length == 0:
+            return None
+        nx = -dy / length * self.width / 2.0
+        ny = dx / length * self.width / 2.0
+        vertices = [(self.start[0] + nx, self.start[1] + ny),
+                    (self.start[0] - nx, self.start[1] - ny),
+                    (self.end[0] - nx, self.end[1] - ny),
+                    (self.end[0] + nx, self.end[1] + ny)]
 
         aperture = Circle((0, 0), 0)
 
@@ -328,6 +337,7 @@ class AMVectorLinePrimitive(AMPrimitive):
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
             lines.append(Line(prev_point, cur_point, aperture))
+            prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
-- 
2.43.0


From a5b4264c3c5101cb4abb59a98ba0ca0bc60dc94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 08/94] fix: macro center lines were rotated about their own
 center

Rotation of a macro primitive is about the macro origin; and the sides of the
outline all started at the same vertex instead of forming a contour.
---
 gerber/am_statements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index ca849bb..23cb66c 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -946,11 +946,12 @@ class AMCenterLinePrimitive(AMPrimitive):
         aperture = Circle((0, 0), 0)
 
         lines = []
-        prev_point = rotate_point(points[3], self.rotation, self.center)
+        prev_point = rotate_point(points[3], self.rotation)
         for point in points:
-            cur_point = rotate_point(point, self.rotation, self.center)
+            cur_point = rotate_point(point, self.rotation)
 
             lines.append(Line(prev_point, cur_point, aperture))
+            prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
-- 
2.43.0


From 928b8e592e9e9cf67a577f21abbc79b7b8e1f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 09/94] fix: macro lower-left lines were left out of the image

---
 gerber/am_statements.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 23cb66c..f49844b 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -1037,6 +1037,23 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
         return fmt.format(**data)
 
+    def to_primitive(self, units):
+        x, y = self.lower_left
+        points = [(x, y + self.height), (x, y),
+                  (x + self.width, y), (x + self.width, y + self.height)]
+
+        aperture = Circle((0, 0), 0)
+
+        lines = []
+        prev_point = rotate_point(points[3], self.rotation)
+        for point in points:
+            cur_point = rotate_point(point, self.rotation)
+
+            lines.append(Line(prev_point, cur_point, aperture))
+            prev_point = cur_point
+
+        return Outline(lines, units=units, level_polarity=self._level_polarity)
+
 
 class AMUnsupportPrimitive(AMPrimitive):
     @classmethod
-- 
2.43.0


From fa9cf355009174aa47e1392d6162e3437ef6d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 10/94] fix: a macro comment containing '=' was read as a
 variable definition

---
 gerber/am_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 3b19826..e48d84a 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -134,7 +134,7 @@ def read_macro(macro):
         # a sign may precede the first operand of an expression
         sign_allowed = False
 
-        if Token.EQUALS in block:
+        if Token.EQUALS in block and block.strip().startswith("$"):
             is_equation = True
         else:
             is_primitive = True
-- 
2.43.0


From c70268739dcec08b04445ee4635cf67a73830a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 11/94] fix: an aperture of a macro named C... was taken for a
 circle

%ADD10CUSTOM*% raised a ValueError: the circle pattern accepted the rest of
the name as modifiers.
---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 43b9d41..172f30f 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -188,7 +188,7 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%]*)"
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%A-WYZa-wyz_$]*)"
     AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
     AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
     AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-- 
2.43.0


From e3cff391e68f36c9fa9ad670eef35b383047e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 12/94] fix: an aperture of a macro named C followed by digits
 was taken for a circle

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 172f30f..ceaf57e 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -188,7 +188,7 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%A-WYZa-wyz_$]*)"
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(?=[,*])[,]?(?P<modifiers>[^,%]*)"
     AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
     AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
     AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-- 
2.43.0


From bdcc735821fbf4a21d3d19fc97a38048d6b0e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 13/94] fix: aperture macros with a one-letter name were not
 read

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index ceaf57e..3f11c2d 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -183,7 +183,7 @@ class GerberParser(object):
     NUMBER = r"[\+-]?\d+"
     DECIMAL = r"[\+-]?\d+([.]?\d+)?"
     STRING = r"[a-zA-Z0-9_+\-/!?<>”’(){}.\|&@# :]+"
-    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]+"
+    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]*"
 
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
-- 
2.43.0


From 7583b8c1137ebc6c90fb2a5f1ec71bc3f49ee9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 14/94] fix: macro thermal outlines were fans instead of closed
 contours

---
 gerber/am_statements.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index f49844b..b8c923a 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -832,8 +832,7 @@ class AMThermalPrimitive(AMPrimitive):
                 cur_point = rotate_point(point, rotation, self.position)
 
                 lines.append(Line(prev_point, cur_point, aperture))
-
-            prev_point = cur_point
+                prev_point = cur_point
 
             outlines.append(Outline(lines, units=units, level_polarity=self._level_polarity))
 
-- 
2.43.0


From 7cdfbf654cc2133726d15e19cd863ead540b9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 15/94] fix: macro polygons off the origin were rotated about
 their own center

---
 gerber/am_statements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index b8c923a..9df9620 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -557,7 +557,9 @@ class AMPolygonPrimitive(AMPrimitive):
         return fmt.format(**data)
 
     def to_primitive(self, units):
-        return Polygon(self.position, self.vertices, self.diameter / 2.0, 0, rotation=self.rotation, units=units, level_polarity=self._level_polarity)
+        # Rotation is about the macro origin
+        position = rotate_point(self.position, self.rotation)
+        return Polygon(position, self.vertices, self.diameter / 2.0, 0, rotation=self.rotation, units=units, level_polarity=self._level_polarity)
 
 
 class AMMoirePrimitive(AMPrimitive):
-- 
2.43.0


From 2f9fccb50b67b23582ece9a498d433d32f19835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 16/94] fix: macro thermals off the origin were rotated about
 their own center

---
 gerber/am_statements.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 9df9620..67268b9 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -817,11 +817,14 @@ class AMThermalPrimitive(AMPrimitive):
         outer_start_angle = outer_offset_angle + rotation_rad
         outer_end_angle = math.pi / 2 - outer_offset_angle + rotation_rad
 
+        # Rotation is about the macro origin
+        center = rotate_point(self.position, self.rotation)
+
         outlines = []
         aperture = Circle((0, 0), 0)
 
-        points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, self.position)
-                + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, self.position))))
+        points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, center)
+                + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, center))))
         # Add in the last point since outlines should be closed
         points.append(points[0])
 
@@ -829,9 +832,9 @@ class AMThermalPrimitive(AMPrimitive):
         for rotation in [0, 90.0, 180.0, 270.0]:
 
             lines = []
-            prev_point = rotate_point(points[0], rotation, self.position)
+            prev_point = rotate_point(points[0], rotation, center)
             for point in points[1:]:
-                cur_point = rotate_point(point, rotation, self.position)
+                cur_point = rotate_point(point, rotation, center)
 
                 lines.append(Line(prev_point, cur_point, aperture))
                 prev_point = cur_point
-- 
2.43.0


From 95c2afc042fd55f742e120fbdd7d505633ce5a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 17/94] fix: the rotation modifier of macro circles was ignored

---
 gerber/am_statements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 67268b9..e852f16 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -187,6 +187,9 @@ class AMCirclePrimitive(AMPrimitive):
         exposure = 'on' if float(modifiers[1]) == 1 else 'off'
         diameter = float(modifiers[2])
         position = (float(modifiers[3]), float(modifiers[4]))
+        # Optional rotation about the macro origin
+        if len(modifiers) > 5 and float(modifiers[5]) != 0:
+            position = rotate_point(position, float(modifiers[5]))
         return cls(code, exposure, diameter, position)
 
     @classmethod
-- 
2.43.0


From 98c0661ef686bf9a42b190d17f22166988f480bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 18/94] fix: unit conversion skipped groups and regions of a
 single primitive

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 8744f04..5fa2f10 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -135,7 +135,7 @@ class Primitive(object):
                     value.to_inch()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_inch'):
                                 for v in value:
                                     v.to_inch()
@@ -160,7 +160,7 @@ class Primitive(object):
                     value.to_metric()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_metric'):
                                 for v in value:
                                     v.to_metric()
-- 
2.43.0


From 8b250712a3243e3e34ee43443862f277dfee9222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 19/94] fix: outlines of flashed macros were never converted
 between units

---
 gerber/am_statements.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index e852f16..3d1ccef 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -339,7 +339,7 @@ class AMVectorLinePrimitive(AMPrimitive):
         for point in vertices:
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
             prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
@@ -456,7 +456,7 @@ class AMOutlinePrimitive(AMPrimitive):
         for point in self.points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, Circle((0,0), 0)))
+            lines.append(Line(prev_point, cur_point, Circle((0,0), 0), units=units))
 
             prev_point = cur_point
 
@@ -839,7 +839,7 @@ class AMThermalPrimitive(AMPrimitive):
             for point in points[1:]:
                 cur_point = rotate_point(point, rotation, center)
 
-                lines.append(Line(prev_point, cur_point, aperture))
+                lines.append(Line(prev_point, cur_point, aperture, units=units))
                 prev_point = cur_point
 
             outlines.append(Outline(lines, units=units, level_polarity=self._level_polarity))
@@ -957,7 +957,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         for point in points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
             prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
@@ -1056,7 +1056,7 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
         for point in points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
             prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
-- 
2.43.0


From d38a59f4eb6dc699acc02bf596a181b4ac3301ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 20/94] fix: unit conversion scaled vertices and rotation of
 polygon aperture definitions

---
 gerber/gerber_statements.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 28f5e81..74dca1c 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -358,14 +358,19 @@ class ADParamStmt(ParamStmt):
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
-            self.modifiers = [tuple([inch(x) for x in modifier])
-                              for modifier in self.modifiers]
+            self._convert(inch)
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
-            self.modifiers = [tuple([metric(x) for x in modifier])
-                              for modifier in self.modifiers]
+            self._convert(metric)
+
+    def _convert(self, conversion):
+        # the number of vertices and the rotation of a polygon are not lengths
+        fixed = (1, 2) if self.shape == 'P' else ()
+        self.modifiers = [tuple([x if i in fixed else conversion(x)
+                                 for i, x in enumerate(modifier)])
+                          for modifier in self.modifiers]
 
     def to_gerber(self, settings=None):
         if any(self.modifiers):
-- 
2.43.0


From 44e43d837865c27a17ce6431359b25d503468d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 21/94] fix: the rotation modifier of macro circles was not
 written

---
 gerber/am_statements.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 3d1ccef..f9e59db 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -187,22 +187,21 @@ class AMCirclePrimitive(AMPrimitive):
         exposure = 'on' if float(modifiers[1]) == 1 else 'off'
         diameter = float(modifiers[2])
         position = (float(modifiers[3]), float(modifiers[4]))
-        # Optional rotation about the macro origin
-        if len(modifiers) > 5 and float(modifiers[5]) != 0:
-            position = rotate_point(position, float(modifiers[5]))
-        return cls(code, exposure, diameter, position)
+        rotation = float(modifiers[5]) if len(modifiers) > 5 else 0
+        return cls(code, exposure, diameter, position, rotation)
 
     @classmethod
     def from_primitive(cls, primitive):
         return cls(1, 'on', primitive.diameter, primitive.position)
 
-    def __init__(self, code, exposure, diameter, position):
+    def __init__(self, code, exposure, diameter, position, rotation=0):
         validate_coordinates(position)
         if code != 1:
             raise ValueError('CirclePrimitive code is 1')
         super(AMCirclePrimitive, self).__init__(code, exposure)
         self.diameter = diameter
         self.position = position
+        self.rotation = rotation
 
     def to_inch(self):
         self.diameter = inch(self.diameter)
@@ -217,11 +216,14 @@ class AMCirclePrimitive(AMPrimitive):
                     exposure='1' if self.exposure == 'on' else 0,
                     diameter=self.diameter,
                     x=self.position[0],
-                    y=self.position[1])
-        return '{code},{exposure},{diameter},{x},{y}*'.format(**data)
+                    y=self.position[1],
+                    rotation=',%s' % self.rotation if self.rotation else '')
+        return '{code},{exposure},{diameter},{x},{y}{rotation}*'.format(**data)
 
     def to_primitive(self, units):
-        return Circle((self.position), self.diameter, units=units, level_polarity=self._level_polarity)
+        # Rotation is about the macro origin
+        position = rotate_point(self.position, self.rotation)
+        return Circle(position, self.diameter, units=units, level_polarity=self._level_polarity)
 
 
 class AMVectorLinePrimitive(AMPrimitive):
-- 
2.43.0


From c8c6087c6df58899b5625e27efe4260f19ec4d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 22/94] fix: a macro used with different parameters was written
 with those of the last aperture

---
 gerber/gerber_statements.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 74dca1c..d9c2fbb 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -425,11 +425,15 @@ class AMParamStmt(ParamStmt):
 
         self.instructions = self.read(macro)
         self.primitives = []
+        # set when apertures built from this macro differ from each other
+        self._varies = False
+        self._build_units = None
 
     def read(self, macro):
         return read_macro(macro)
 
     def build(self, modifiers=[[]]):
+        previous = self.primitives
         self.primitives = []
 
         for primitive in eval_macro(self.instructions, modifiers[0]):
@@ -456,6 +460,10 @@ class AMParamStmt(ParamStmt):
                 self.primitives.append(
                     AMUnsupportPrimitive.from_gerber(primitive))
 
+        if previous and previous != self.primitives:
+            self._varies = True
+        self._build_units = self.units
+
         return AMGroup(self.primitives, stmt=self, units=self.units)
 
     def to_inch(self):
@@ -471,6 +479,9 @@ class AMParamStmt(ParamStmt):
                 primitive.to_metric()
 
     def to_gerber(self, settings=None):
+        if self._varies and self.units == self._build_units:
+            # The evaluated primitives only stand for one of the apertures
+            return '%AM{0}*{1}*%'.format(self.name, self.macro)
         return '%AM{0}*{1}%'.format(self.name, "".join([primitive.to_gerber() for primitive in self.primitives]))
 
     def __str__(self):
-- 
2.43.0


From 3b91d3a99b85b7eb36b68572c02e3f9a2dc58181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 23/94] fix: small numbers of aperture macros were written in
 exponent notation

---
 gerber/am_statements.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index f9e59db..d37bb43 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -18,6 +18,7 @@
 
 from math import asin
 import math
+import re
 
 from .primitives import *
 from .utils import validate_coordinates, inch, metric, rotate_point
@@ -31,6 +32,14 @@ __all__ = ['AMPrimitive', 'AMCommentPrimitive', 'AMCirclePrimitive',
            'AMLowerLeftLinePrimitive', 'AMUnsupportPrimitive']
 
 
+def _plain(text):
+    """ Replace numbers in exponent notation, which macros do not know.
+    """
+    return re.sub(r'\d+(\.\d*)?[eE][+-]?\d+',
+                  lambda match: ('%.12f' % float(match.group())).rstrip('0').rstrip('.'),
+                  text)
+
+
 class AMPrimitive(object):
     """ Aperture Macro Primitive Base Class
 
@@ -218,7 +227,7 @@ class AMCirclePrimitive(AMPrimitive):
                     x=self.position[0],
                     y=self.position[1],
                     rotation=',%s' % self.rotation if self.rotation else '')
-        return '{code},{exposure},{diameter},{x},{y}{rotation}*'.format(**data)
+        return _plain('{code},{exposure},{diameter},{x},{y}{rotation}*'.format(**data))
 
     def to_primitive(self, units):
         # Rotation is about the macro origin
@@ -312,7 +321,7 @@ class AMVectorLinePrimitive(AMPrimitive):
                     endx=self.end[0],
                     endy=self.end[1],
                     rotation=self.rotation)
-        return fmtstr.format(**data)
+        return _plain(fmtstr.format(**data))
 
     def to_primitive(self, units):
         """
@@ -445,7 +454,7 @@ class AMOutlinePrimitive(AMPrimitive):
             points=",\n".join(["%.6g,%.6g" % point for point in self.points]),
             rotation=str(self.rotation)
         )
-        return "{code},{exposure},{n_points},{start_point},{points},{rotation}*".format(**data)
+        return _plain("{code},{exposure},{n_points},{start_point},{points},{rotation}*".format(**data))
 
     def to_primitive(self, units):
         """
@@ -559,7 +568,7 @@ class AMPolygonPrimitive(AMPrimitive):
             rotation=str(self.rotation)
         )
         fmt = "{code},{exposure},{vertices},{position},{diameter},{rotation}*"
-        return fmt.format(**data)
+        return _plain(fmt.format(**data))
 
     def to_primitive(self, units):
         # Rotation is about the macro origin
@@ -675,7 +684,7 @@ class AMMoirePrimitive(AMPrimitive):
             rotation=self.rotation
         )
         fmt = "{code},{position},{diameter},{ring_thickness},{gap},{max_rings},{crosshair_thickness},{crosshair_length},{rotation}*"
-        return fmt.format(**data)
+        return _plain(fmt.format(**data))
 
     def to_primitive(self, units):
         #raise NotImplementedError()
@@ -765,7 +774,7 @@ class AMThermalPrimitive(AMPrimitive):
             rotation=self.rotation
         )
         fmt = "{code},{position},{outer_diameter},{inner_diameter},{gap},{rotation}*"
-        return fmt.format(**data)
+        return _plain(fmt.format(**data))
 
     def _approximate_arc_cw(self, start_angle, end_angle, radius, center):
         """
@@ -937,7 +946,7 @@ class AMCenterLinePrimitive(AMPrimitive):
             rotation=self.rotation
         )
         fmt = "{code},{exposure},{width},{height},{center},{rotation}*"
-        return fmt.format(**data)
+        return _plain(fmt.format(**data))
 
     def to_primitive(self, units):
 
@@ -1044,7 +1053,7 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
             rotation=self.rotation
         )
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
-        return fmt.format(**data)
+        return _plain(fmt.format(**data))
 
     def to_primitive(self, units):
         x, y = self.lower_left
-- 
2.43.0


From 53820f6048e7bf804fb3bc76269a13b3b4b29875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 24/94] fix: slots, donuts and butterflies kept a stale
 bounding box when changed

---
 gerber/primitives.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 5fa2f10..ec1cf48 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -25,6 +25,19 @@ from .utils import rotate_point, nearly_equal
 
 
 
+def _memoizing_property(name):
+    """ Attribute stored under `name`; assigning it clears memoized values.
+    """
+    def getter(self):
+        return getattr(self, name)
+
+    def setter(self, value):
+        self._changed()
+        setattr(self, name, value)
+
+    return property(getter, setter)
+
+
 class Primitive(object):
     """ Base class for all Cam file primitives
 
@@ -1456,6 +1469,8 @@ class Region(Primitive):
 class RoundButterfly(Primitive):
     """ A circle with two diagonally-opposite quadrants removed
     """
+    position = _memoizing_property('_position')
+    diameter = _memoizing_property('_diameter')
 
     def __init__(self, position, diameter, **kwargs):
         super(RoundButterfly, self).__init__(**kwargs)
@@ -1464,8 +1479,6 @@ class RoundButterfly(Primitive):
         self.diameter = diameter
         self._to_convert = ['position', 'diameter']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
@@ -1488,6 +1501,8 @@ class RoundButterfly(Primitive):
 class SquareButterfly(Primitive):
     """ A square with two diagonally-opposite quadrants removed
     """
+    position = _memoizing_property('_position')
+    side = _memoizing_property('_side')
 
     def __init__(self, position, side, **kwargs):
         super(SquareButterfly, self).__init__(**kwargs)
@@ -1496,8 +1511,6 @@ class SquareButterfly(Primitive):
         self.side = side
         self._to_convert = ['position', 'side']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
@@ -1516,6 +1529,9 @@ class SquareButterfly(Primitive):
 class Donut(Primitive):
     """ A Shape with an identical concentric shape removed from its center
     """
+    position = _memoizing_property('_position')
+    width = _memoizing_property('_width')
+    height = _memoizing_property('_height')
 
     def __init__(self, position, shape, inner_diameter,
                  outer_diameter, **kwargs):
@@ -1542,8 +1558,6 @@ class Donut(Primitive):
         self._to_convert = ['position', 'width',
                             'height', 'inner_diameter', 'outer_diameter']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
@@ -1572,6 +1586,8 @@ class Donut(Primitive):
 class SquareRoundDonut(Primitive):
     """ A Square with a circular cutout in the center
     """
+    position = _memoizing_property('_position')
+    outer_diameter = _memoizing_property('_outer_diameter')
 
     def __init__(self, position, inner_diameter, outer_diameter, **kwargs):
         super(SquareRoundDonut, self).__init__(**kwargs)
@@ -1654,6 +1670,10 @@ class Drill(Primitive):
 class Slot(Primitive):
     """ A drilled slot
     """
+    start = _memoizing_property('_start')
+    end = _memoizing_property('_end')
+    diameter = _memoizing_property('_diameter')
+
     def __init__(self, start, end, diameter, **kwargs):
         super(Slot, self).__init__('dark', **kwargs)
         validate_coordinates(start)
-- 
2.43.0


From 38da314dcb6a01599e50e847e9a74391abd915d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 25/94] fix: lines and arcs kept a stale bounding box when
 given another aperture

---
 gerber/primitives.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index ec1cf48..50140ac 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -218,6 +218,8 @@ class Primitive(object):
 class Line(Primitive):
     """
     """
+    aperture = _memoizing_property('_aperture')
+
 
     def __init__(self, start, end, aperture, level_polarity=None, **kwargs):
         super(Line, self).__init__(**kwargs)
@@ -336,6 +338,8 @@ class Line(Primitive):
 class Arc(Primitive):
     """
     """
+    aperture = _memoizing_property('_aperture')
+
 
     def __init__(self, start, end, center, direction, aperture, quadrant_mode,
             level_polarity=None, **kwargs):
-- 
2.43.0


From 873a088d5f0bd513788b083632693454f23ebade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 26/94] fix: donuts ignored a new outer diameter in their size
 and bounding box

---
 gerber/primitives.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 50140ac..16fa5ca 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1534,8 +1534,7 @@ class Donut(Primitive):
     """ A Shape with an identical concentric shape removed from its center
     """
     position = _memoizing_property('_position')
-    width = _memoizing_property('_width')
-    height = _memoizing_property('_height')
+    outer_diameter = _memoizing_property('_outer_diameter')
 
     def __init__(self, position, shape, inner_diameter,
                  outer_diameter, **kwargs):
@@ -1551,21 +1550,22 @@ class Donut(Primitive):
                 'Outer diameter must be larger than inner diameter.')
         self.inner_diameter = inner_diameter
         self.outer_diameter = outer_diameter
-        if self.shape in ('round', 'square', 'octagon'):
-            self.width = outer_diameter
-            self.height = outer_diameter
-        else:
-            # Hexagon
-            self.width = 0.5 * math.sqrt(3.) * outer_diameter
-            self.height = outer_diameter
-
-        self._to_convert = ['position', 'width',
-                            'height', 'inner_diameter', 'outer_diameter']
+        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
 
     @property
     def flashed(self):
         return True
 
+    @property
+    def width(self):
+        if self.shape == 'hexagon':
+            return 0.5 * math.sqrt(3.) * self.outer_diameter
+        return self.outer_diameter
+
+    @property
+    def height(self):
+        return self.outer_diameter
+
     @property
     def lower_left(self):
         return (self.position[0] - (self.width / 2.),
-- 
2.43.0


From 76ef64301aabae4099adeab05ab6a260d68c231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 27/94] fix: bounding boxes of single quadrant arcs ignored the
 axis they cross

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 16fa5ca..5fa2a41 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -429,7 +429,7 @@ class Arc(Primitive):
             theta0 = (self.start_angle + two_pi) % two_pi
             theta1 = (self.end_angle + two_pi) % two_pi
             points = [self.start, self.end]
-            if self.quadrant_mode == 'multi-quadrant':
+            if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
                 if self.direction == 'counterclockwise':
                     # Passes through 0 degrees
                     if theta0 >= theta1:
@@ -484,7 +484,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         points = [self.start, self.end]
-        if self.quadrant_mode == 'multi-quadrant':
+        if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
             if self.direction == 'counterclockwise':
                 # Passes through 0 degrees
                 if theta0 >= theta1:
-- 
2.43.0


From 39b769bc3a512aa89cb0e26d572adf11e0d60ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 28/94] fix: bounding boxes of arcs with a rectangular aperture
 were a full aperture too large

---
 gerber/primitives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 5fa2a41..d54a932 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -469,10 +469,10 @@ class Arc(Primitive):
                 min_y = min(y) - self.aperture.radius
                 max_y = max(y) + self.aperture.radius
             else:
-                min_x = min(x) - self.aperture.width
-                max_x = max(x) + self.aperture.width
-                min_y = min(y) - self.aperture.height
-                max_y = max(y) + self.aperture.height
+                min_x = min(x) - self.aperture.width / 2.
+                max_x = max(x) + self.aperture.width / 2.
+                min_y = min(y) - self.aperture.height / 2.
+                max_y = max(y) + self.aperture.height / 2.
 
             self._bounding_box = ((min_x, max_x), (min_y, max_y))
         return self._bounding_box
-- 
2.43.0


From 02c3ee6e6c8b7fa04587186e27290e1a5d96ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 29/94] fix: lines drawn with a polygon aperture had no
 bounding box

---
 gerber/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index d54a932..15a3f81 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -261,7 +261,7 @@ class Line(Primitive):
     @property
     def bounding_box(self):
         if self._bounding_box is None:
-            if isinstance(self.aperture, Circle):
+            if isinstance(self.aperture, (Circle, Polygon)):
                 width_2 = self.aperture.radius
                 height_2 = width_2
             else:
-- 
2.43.0


From 30a9ef5aedfe787f3c71fce5bbdacbe91f2c36a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 30/94] fix: bounding boxes of shapes rotated by more than 90
 degrees were inverted or too small

---
 gerber/primitives.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 15a3f81..868149a 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -775,11 +775,11 @@ class Rectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width + abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height + abs(self._sin_theta) * self.width)
 
     def equivalent(self, other, offset):
         """Is this the same as the other rect, ignoring the offset?"""
@@ -870,11 +870,11 @@ class Diamond(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width + abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height + abs(self._sin_theta) * self.width)
 
 
 class ChamferRectangle(Primitive):
@@ -987,13 +987,13 @@ class ChamferRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class RoundRectangle(Primitive):
@@ -1071,13 +1071,13 @@ class RoundRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Obround(Primitive):
@@ -1172,13 +1172,13 @@ class Obround(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Polygon(Primitive):
-- 
2.43.0


From 716ec4872da8572022144194caeaa6fd99593e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 31/94] fix: files with apertures could not be copied
 (operations on a Gerber file raised)

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 3f11c2d..f24a429 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -274,7 +274,7 @@ class GerberParser(object):
         for stmt in self.statements:
             stmt.units = self.settings.units
 
-        return GerberFile(self.statements, self.settings, self.primitives, self.apertures.values(), filename)
+        return GerberFile(self.statements, self.settings, self.primitives, list(self.apertures.values()), filename)
 
     def _split_commands(self, data):
         """
-- 
2.43.0


From d807311152328da6066cc08a123bfa1ee82b0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 32/94] fix: quarter circles in single quadrant mode were lost
 when their coordinates had been rounded

---
 gerber/rs274x.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index f24a429..a72af65 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -769,10 +769,11 @@ class GerberParser(object):
 
                 # Take the option with the lowest radius error from the set of
                 # options with a valid sweep angle
-                # In some rare cases, the sweep angle is numerically (10**-14) above pi/2
-                # So it is safer to compare the angles with some tolerance
+                # The sweep angle may be above pi/2 because coordinates are rounded to the
+                # number format of the file, so compare the angles with some tolerance.
+                # The other candidates are ruled out by their radius error.
                 is_lowest_radius_error = sqdist_diff < sqdist_diff_min
-                is_valid_sweep_angle = sweep_angle >= 0 and sweep_angle <= math.pi / 2.0 + 1e-6
+                is_valid_sweep_angle = sweep_angle >= 0 and sweep_angle <= math.pi / 2.0 + 0.1
                 if is_lowest_radius_error and is_valid_sweep_angle:
                     center = test_center
                     sqdist_diff_min = sqdist_diff
-- 
2.43.0


From 107a9386ee40a101efa0b67ac7963ddd0939570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 33/94] fix: unit conversion of Excellon files left the hole
 and slot positions behind

---
 gerber/excellon.py | 59 +++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5ab062a..cef5a4f 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -84,6 +84,32 @@ def loads(data, filename=None, settings=None, tools=None):
     return ExcellonParser(settings, tools).parse_raw(data, filename)
 
 
+class _ToolPoint(object):
+    """A position of a drill feature.
+
+    Positions are in the units of the feature's tool, like its diameter. The
+    tool is shared by many features, so each position remembers the units it
+    was given in, and follows when the units of the tool have changed.
+    """
+    def __init__(self, name):
+        self.name = name
+
+    def __get__(self, hit, owner=None):
+        if hit is None:
+            return self
+        value, units = hit.__dict__[self.name]
+        current = hit.tool.settings.units if hit.tool.settings else units
+        if units is not None and current != units and value is not None:
+            convert = inch if current == 'inch' else metric
+            value = tuple(map(convert, value))
+        hit.__dict__[self.name] = (value, current)
+        return value
+
+    def __set__(self, hit, value):
+        settings = hit.tool.settings
+        hit.__dict__[self.name] = (value, settings.units if settings else None)
+
+
 class DrillHit(object):
     """Drill feature that is a single drill hole.
 
@@ -95,19 +121,17 @@ class DrillHit(object):
         Center position of the drill.
 
     """
+    position = _ToolPoint('position')
+
     def __init__(self, tool, position):
         self.tool = tool
         self.position = position
 
     def to_inch(self):
-        if self.tool.settings.units == 'metric':
-            self.tool.to_inch()
-            self.position = tuple(map(inch, self.position))
+        self.tool.to_inch()
 
     def to_metric(self):
-        if self.tool.settings.units == 'inch':
-            self.tool.to_metric()
-            self.position = tuple(map(metric, self.position))
+        self.tool.to_metric()
 
     @property
     def bounding_box(self):
@@ -134,6 +158,9 @@ class DrillSlot(object):
     TYPE_ROUT = 1
     TYPE_G85 = 2
 
+    start = _ToolPoint('start')
+    end = _ToolPoint('end')
+
     def __init__(self, tool, start, end, slot_type):
         self.tool = tool
         self.start = start
@@ -141,16 +168,10 @@ class DrillSlot(object):
         self.slot_type = slot_type
 
     def to_inch(self):
-        if self.tool.settings.units == 'metric':
-            self.tool.to_inch()
-            self.start = tuple(map(inch, self.start))
-            self.end = tuple(map(inch, self.end))
+        self.tool.to_inch()
 
     def to_metric(self):
-        if self.tool.settings.units == 'inch':
-            self.tool.to_metric()
-            self.start = tuple(map(metric, self.start))
-            self.end = tuple(map(metric, self.end))
+        self.tool.to_metric()
 
     @property
     def bounding_box(self):
@@ -288,10 +309,8 @@ class ExcellonFile(CamFile):
                 statement.to_inch()
             for tool in iter(self.tools.values()):
                 tool.to_inch()
-            #for primitive in self.primitives:
-            #    primitive.to_inch()
-            #for hit in self.hits:
-            #    hit.to_inch()
+            for hit in self.hits:
+                hit.to_inch()
             self.units = 'inch'
 
     def to_metric(self):
@@ -302,10 +321,6 @@ class ExcellonFile(CamFile):
                 statement.to_metric()
             for tool in iter(self.tools.values()):
                 tool.to_metric()
-            #for primitive in self.primitives:
-            #    print("Converting to metric: {}".format(primitive))
-            #    primitive.to_metric()
-            #    print(primitive)
             for hit in self.hits:
                 hit.to_metric()
             self.units = 'metric'
-- 
2.43.0


From 310b587fef611da9a092b76672367fc0224417ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 34/94] fix: Excellon files with slots could not be written,
 and hits before a tool selection were written twice

---
 gerber/excellon.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index cef5a4f..25b089c 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -147,6 +147,9 @@ class DrillHit(object):
     def offset(self, x_offset=0, y_offset=0):
         self.position = tuple(map(operator.add, self.position, (x_offset, y_offset)))
 
+    def to_statements(self):
+        return [CoordinateStmt(*self.position)]
+
     def __str__(self):
         return 'Hit (%f, %f) {%s}' % (self.position[0], self.position[1], self.tool)
 
@@ -188,6 +191,15 @@ class DrillSlot(object):
         self.start = tuple(map(operator.add, self.start, (x_offset, y_offset)))
         self.end = tuple(map(operator.add, self.end, (x_offset, y_offset)))
 
+    def to_statements(self):
+        if self.slot_type == DrillSlot.TYPE_G85:
+            return [SlotStmt.from_points(self.start, self.end)]
+        return [CoordinateStmt.from_point(self.start, mode='ROUT'),
+                ZAxisRoutPositionStmt(),
+                CoordinateStmt.from_point(self.end, mode='LINEAR'),
+                RetractWithClampingStmt(),
+                DrillModeStmt()]
+
 
 class ExcellonFile(CamFile):
     """ A class representing a single excellon file
@@ -286,7 +298,8 @@ class ExcellonFile(CamFile):
 
             # Copy the header verbatim
             for statement in self.statements:
-                if not isinstance(statement, ToolSelectionStmt):
+                if not isinstance(statement, (ToolSelectionStmt, CoordinateStmt,
+                                              SlotStmt, RouteModeStmt, EndOfProgramStmt)):
                     f.write(statement.to_excellon(self.settings) + '\n')
                 else:
                     break
@@ -296,8 +309,8 @@ class ExcellonFile(CamFile):
                 f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\n')
                 for hit in self.hits:
                     if hit.tool.number == tool.number:
-                        f.write(CoordinateStmt(
-                            *hit.position).to_excellon(self.settings) + '\n')
+                        for statement in hit.to_statements():
+                            f.write(statement.to_excellon(self.settings) + '\n')
             f.write(EndOfProgramStmt().to_excellon() + '\n')
 
     def to_inch(self):
-- 
2.43.0


From 59886b928dcd64a1e83db1c482aee61401a5db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 35/94] fix: path lengths and drill reports failed on files
 with slots

---
 gerber/excellon.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 25b089c..200a2ac 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -357,9 +357,11 @@ class ExcellonFile(CamFile):
             positions[num] = ((0, 0) if positions.get(num) is None
                               else positions[num])
             lengths[num] = 0.0 if lengths.get(num) is None else lengths[num]
-            lengths[num] = lengths[
-                num] + math.hypot(*tuple(map(operator.sub, positions[num], hit.position)))
-            positions[num] = hit.position
+            for position in ((hit.start, hit.end) if isinstance(hit, DrillSlot)
+                             else (hit.position,)):
+                lengths[num] = lengths[
+                    num] + math.hypot(*tuple(map(operator.sub, positions[num], position)))
+                positions[num] = position
 
         if tool_number is None:
             return lengths
-- 
2.43.0


From 9cf1c5e24e12272b8cf7d27f58e60b7221269cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 36/94] fix: drill reports failed on tools without hits

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 200a2ac..d3c171d 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -349,7 +349,7 @@ class ExcellonFile(CamFile):
     def path_length(self, tool_number=None):
         """ Return the path length for a given tool
         """
-        lengths = {}
+        lengths = dict((tool.number, 0.0) for tool in iter(self.tools.values()))
         positions = {}
         for hit in self.hits:
             tool = hit.tool
-- 
2.43.0


From 06f77b33488a830526b485b73402c88398809390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 37/94] fix: the data mode and units lines of drill reports
 were broken for incremental and metric files

---
 gerber/excellon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index d3c171d..352ded6 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -277,10 +277,10 @@ class ExcellonFile(CamFile):
         if self.filename is not None:
             rprt += 'NC Drill File: %s\n\n' % self.filename
         rprt += 'Drill File Info:\n----------------\n'
-        rprt += ('  Data Mode         %s\n' % 'Absolute'
-                 if self.settings.notation == 'absolute' else 'Incremental')
-        rprt += ('  Units             %s\n' % 'Inches'
-                 if self.settings.units == 'inch' else 'Millimeters')
+        rprt += ('  Data Mode         %s\n' % ('Absolute'
+                 if self.settings.notation == 'absolute' else 'Incremental'))
+        rprt += ('  Units             %s\n' % ('Inches'
+                 if self.settings.units == 'inch' else 'Millimeters'))
         rprt += '\nTool List:\n----------\n\n'
         rprt += '  Code      Size     Hits    Path Length\n'
         rprt += '  --------------------------------------\n'
-- 
2.43.0


From da5becdeb41e157056e79de4b41a4d11db206c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:39 +0000
Subject: [PATCH 38/94] fix: slots routed by a coordinate without G01 were not
 counted as hits of their tool

---
 gerber/excellon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 352ded6..5d124e0 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -763,6 +763,7 @@ class ExcellonParser(object):
                         self.active_tool = self._get_tool(1)
 
                     self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))
+                    self.active_tool._hit()
 
                 elif self.state == 'DRILL' or self.state == 'HEADER':
                     # Yes, drills in the header doesn't follow the specification, but it there are many
-- 
2.43.0


From b882fe7dbf6060e6ec88ff22834060f6a0a426b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 39/94] fix: reading a tool definition in a Holesize comment
 raised a TypeError

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5d124e0..1e723bd 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -504,7 +504,7 @@ class ExcellonParser(object):
                 # Parse this as a hole definition
                 tools = ExcellonToolDefinitionParser(self._settings()).parse_raw(comment_stmt.comment)
                 if len(tools) == 1:
-                    tool = tools[tools.keys()[0]]
+                    tool = list(tools.values())[0]
                     self._add_comment_tool(tool)
 
         elif line[:3] == 'M48':
-- 
2.43.0


From e0e00c639391a847f64e4ad08438bb98b842d72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 40/94] fix: slots whose start leaves out a coordinate had no
 usable start point

---
 gerber/excellon.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 1e723bd..14906bb 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -714,6 +714,17 @@ class ExcellonParser(object):
             if 'G85' in line:
                 stmt = SlotStmt.from_excellon(line, self._settings())
 
+                # Coordinates that are left out keep their previous value
+                if self.notation == 'absolute':
+                    if stmt.x_start is None:
+                        stmt.x_start = self.pos[0]
+                    if stmt.y_start is None:
+                        stmt.y_start = self.pos[1]
+                    if stmt.x_end is None:
+                        stmt.x_end = stmt.x_start
+                    if stmt.y_end is None:
+                        stmt.y_end = stmt.y_start
+
                 # I don't know if this is actually correct, but it makes sense
                 # that this is where the tool would end
                 x = stmt.x_end
-- 
2.43.0


From d866e0ad64808435714f827dcea232ec948ef863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 41/94] fix: files read with one external tool list shared its
 tools, so hit counts and conversions mixed

---
 gerber/excellon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 14906bb..5f49099 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -23,6 +23,7 @@ Excellon File module
 This module provides Excellon file classes and parsing utilities
 """
 
+import copy
 import math
 import operator
 
@@ -831,6 +832,8 @@ class ExcellonParser(object):
         if not tool:
             tool = self.ext_tools.get(toolid)
             if tool:
+                # The tool list may be used for other files as well
+                tool = copy.copy(tool)
                 tool.settings = self._settings()
                 self.tools[toolid] = tool
 
-- 
2.43.0


From e2299b11b6267dc31bf3148aa4a39c4246e1d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 42/94] fix: tools defined in comments before the units were
 declared had the wrong diameter

---
 gerber/excellon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5f49099..de85811 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -805,6 +805,7 @@ class ExcellonParser(object):
         if existing and existing.plated == None:
             existing.plated = tool.plated
 
+        tool.settings = self._settings()
         self.comment_tools[tool.number] = tool
 
     def _merge_properties(self, tool):
@@ -826,6 +827,11 @@ class ExcellonParser(object):
         if not tool:
             tool = self.comment_tools.get(toolid)
             if tool:
+                # The units may have been declared after the comment
+                if self.units == 'inch':
+                    tool.to_inch()
+                else:
+                    tool.to_metric()
                 tool.settings = self._settings()
                 self.tools[toolid] = tool
 
-- 
2.43.0


From d09179f36106c997b426569db7e90cc3a0e507f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 43/94] fix: files that use undefined tools were written with
 the tool definitions outside the header and could not be read again

---
 gerber/excellon.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index de85811..b29ae85 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -693,12 +693,19 @@ class ExcellonParser(object):
                         self._settings(), number=stmt.tool, diameter=diameter)
                     self.tools[tool.number] = tool
 
-                    # FIXME: need to add this tool definition inside header to
-                    # make sure it is properly written
+                    # Add this tool definition inside the header to make sure
+                    # it is properly written
+                    end = None
                     for i, s in enumerate(self.statements):
                         if isinstance(s, ToolSelectionStmt) or isinstance(s, ExcellonTool):
-                            self.statements.insert(i, tool)
+                            if end is None or isinstance(s, ExcellonTool):
+                                end = i
                             break
+                        if isinstance(s, HeaderBeginStmt):
+                            end = None
+                        elif isinstance(s, (RewindStopStmt, HeaderEndStmt)) and end is None:
+                            end = i
+                    self.statements.insert(end, tool)
 
                 self.active_tool = tool
 
-- 
2.43.0


From 7383b41028ecc278f934096e9d6feb0c6f5f1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 44/94] fix: the Excellon generating context failed on every
 drill and slot

---
 gerber/excellon.py                |  4 ++--
 gerber/primitives.py              |  8 ++++++--
 gerber/render/excellon_backend.py | 16 ++++++++--------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index b29ae85..8407f07 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -246,10 +246,10 @@ class ExcellonFile(CamFile):
         primitives = []
         for hit in self.hits:
             if isinstance(hit, DrillHit):
-                primitives.append(Drill(hit.position, hit.tool.diameter,
+                primitives.append(Drill(hit.position, hit.tool.diameter, hit,
                                         units=self.settings.units))
             elif isinstance(hit, DrillSlot):
-                primitives.append(Slot(hit.start, hit.end, hit.tool.diameter,
+                primitives.append(Slot(hit.start, hit.end, hit.tool.diameter, hit,
                                        units=self.settings.units))
             else:
                 raise ValueError('Unknown hit type')
diff --git a/gerber/primitives.py b/gerber/primitives.py
index 868149a..d0d6ea6 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1620,9 +1620,11 @@ class SquareRoundDonut(Primitive):
 class Drill(Primitive):
     """ A drill hole
     """
-    def __init__(self, position, diameter, **kwargs):
+    def __init__(self, position, diameter, hit=None, **kwargs):
         super(Drill, self).__init__('dark', **kwargs)
         validate_coordinates(position)
+        # The drill hit of the Excellon file that this is made from
+        self.hit = hit
         self._position = position
         self._diameter = diameter
         self._to_convert = ['position', 'diameter']
@@ -1678,8 +1680,10 @@ class Slot(Primitive):
     end = _memoizing_property('_end')
     diameter = _memoizing_property('_diameter')
 
-    def __init__(self, start, end, diameter, **kwargs):
+    def __init__(self, start, end, diameter, hit=None, **kwargs):
         super(Slot, self).__init__('dark', **kwargs)
+        # The drill slot of the Excellon file that this is made from
+        self.hit = hit
         validate_coordinates(start)
         validate_coordinates(end)
         self.start = start
diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index 765d68c..7957c97 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -101,13 +101,13 @@ class ExcellonContext(GerberContext):
             self._start_drill_mode()
 
         tool = drill.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
+        if not tool.number in self.handled_tools:
+            self.handled_tools.add(tool.number)
             self.header.append(ExcellonTool.from_tool(tool))
 
-        if tool != self.cur_tool:
+        if tool.number != self.cur_tool:
             self.body.append(ToolSelectionStmt(tool.number))
-            self.cur_tool = tool
+            self.cur_tool = tool.number
 
         point = self._simplify_point(drill.position)
         self._pos = drill.position
@@ -138,13 +138,13 @@ class ExcellonContext(GerberContext):
 
         # Set the tool first, before we might go into drill mode
         tool = slot.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
+        if not tool.number in self.handled_tools:
+            self.handled_tools.add(tool.number)
             self.header.append(ExcellonTool.from_tool(tool))
 
-        if tool != self.cur_tool:
+        if tool.number != self.cur_tool:
             self.body.append(ToolSelectionStmt(tool.number))
-            self.cur_tool = tool
+            self.cur_tool = tool.number
 
         # Two types of drilling - normal drill and slots
         if slot.hit.slot_type == DrillSlot.TYPE_ROUT:
-- 
2.43.0


From 816d2636c32c9e1d61bb1a3731349a733c0486f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 45/94] fix: the Excellon generating context lost holes drilled
 at the current position

---
 gerber/render/excellon_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index 7957c97..7f7a6c0 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -93,6 +93,9 @@ class ExcellonContext(GerberContext):
         raise ValueError('Invalid Excellon object')
 
     def _simplify_point(self, point):
+        if point == self._pos:
+            # A statement without any coordinate would be lost
+            return point
         return (point[0] if point[0] != self._pos[0] else None, point[1] if point[1] != self._pos[1] else None)
 
     def _render_drill(self, drill, color):
-- 
2.43.0


From 3592c5e67479fbf050a9625cd8b43d8b08e6274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 46/94] fix: the plated column of Allegro tool lists was
 ignored

---
 gerber/excellon_tool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index a9ac450..f9837b7 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -94,9 +94,9 @@ class ExcellonToolDefinitionParser(object):
                 xtol = self._convert_length(xtol, unit)
                 ytol = self._convert_length(ytol, unit)
 
-                if platedstr == 'PLATED':
+                if platedstr in ('PLATED', 'P'):
                     plated = ExcellonTool.PLATED_YES
-                elif platedstr == 'NON_PLATED':
+                elif platedstr in ('NON_PLATED', 'N'):
                     plated = ExcellonTool.PLATED_NO
                 elif platedstr == 'OPTIONAL':
                     plated = ExcellonTool.PLATED_OPTIONAL
-- 
2.43.0


From ac665baad59ede8280b884e5d9238ee2f1c0756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 47/94] fix: detecting the format of a drill file ignored its
 separate tool list

---
 gerber/excellon.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 8407f07..fb2d53a 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -81,7 +81,7 @@ def loads(data, filename=None, settings=None, tools=None):
     """
     # File object should use settings from source file by default.
     if not settings:
-        settings = FileSettings(**detect_excellon_format(data))
+        settings = FileSettings(**detect_excellon_format(data, tools=tools))
     return ExcellonParser(settings, tools).parse_raw(data, filename)
 
 
@@ -852,13 +852,15 @@ class ExcellonParser(object):
 
         return tool
 
-def detect_excellon_format(data=None, filename=None):
+def detect_excellon_format(data=None, filename=None, tools=None):
     """ Detect excellon file decimal format and zero-suppression settings.
 
     Parameters
     ----------
     data : string
         String containing contents of Excellon file.
+    tools: dict (optional)
+        externally defined tools
 
     Returns
     -------
@@ -880,7 +882,7 @@ def detect_excellon_format(data=None, filename=None):
             data = f.read()
 
     # Check for obvious clues:
-    p = ExcellonParser()
+    p = ExcellonParser(None, tools)
     p.parse_raw(data)
 
     # Get zero_suppression from a unit statement
@@ -913,7 +915,7 @@ def detect_excellon_format(data=None, filename=None):
             key = (fmt, zeros)
             settings = FileSettings(zeros=zeros, format=fmt)
             try:
-                p = ExcellonParser(settings)
+                p = ExcellonParser(settings, tools)
                 ef = p.parse_raw(data)
                 size = tuple([t[0] - t[1] for t in ef.bounding_box])
                 hole_area = 0.0
-- 
2.43.0


From 29fc287091a8e9bdc421f3186226908b3febf17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 48/94] fix: the number format of an Excellon unit statement
 was lost when writing

---
 gerber/excellon_statements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 72d7945..1f4b9d4 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -685,10 +685,11 @@ class UnitStmt(ExcellonStatement):
         self.format = format
 
     def to_excellon(self, settings=None):
-        # TODO This won't export the invalid format statement if it exists
         stmt = '%s,%s' % ('INCH' if self.units == 'inch' else 'METRIC',
                           'LZ' if self.zeros == 'leading'
                           else 'TZ')
+        if self.format is not None:
+            stmt += ',%s.%s' % ('0' * self.format[0], '0' * self.format[1])
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From 37b022f3758c44b866d46a2ecda035007682f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 49/94] fix: boxes of lines, arcs, regions and outlines were
 stale after their parts changed

---
 gerber/primitives.py | 124 ++++++++++++++-----------------------------
 1 file changed, 39 insertions(+), 85 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index d0d6ea6..eccebd2 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -260,19 +260,18 @@ class Line(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            if isinstance(self.aperture, (Circle, Polygon)):
-                width_2 = self.aperture.radius
-                height_2 = width_2
-            else:
-                width_2 = self.aperture.width / 2.
-                height_2 = self.aperture.height / 2.
-            min_x = min(self.start[0], self.end[0]) - width_2
-            max_x = max(self.start[0], self.end[0]) + width_2
-            min_y = min(self.start[1], self.end[1]) - height_2
-            max_y = max(self.start[1], self.end[1]) + height_2
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        # not memoized: the aperture can change by itself
+        if isinstance(self.aperture, (Circle, Polygon)):
+            width_2 = self.aperture.radius
+            height_2 = width_2
+        else:
+            width_2 = self.aperture.width / 2.
+            height_2 = self.aperture.height / 2.
+        min_x = min(self.start[0], self.end[0]) - width_2
+        max_x = max(self.start[0], self.end[0]) + width_2
+        min_y = min(self.start[1], self.end[1]) - height_2
+        max_y = max(self.start[1], self.end[1]) + height_2
+        return ((min_x, max_x), (min_y, max_y))
 
     @property
     def bounding_box_no_aperture(self):
@@ -424,58 +423,15 @@ class Arc(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            two_pi = 2 * math.pi
-            theta0 = (self.start_angle + two_pi) % two_pi
-            theta1 = (self.end_angle + two_pi) % two_pi
-            points = [self.start, self.end]
-            if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
-                if self.direction == 'counterclockwise':
-                    # Passes through 0 degrees
-                    if theta0 >= theta1:
-                        points.append((self.center[0] + self.radius, self.center[1]))
-                    # Passes through 90 degrees
-                    if (((theta0 <= math.pi / 2.) and ((theta1 >= math.pi / 2.) or (theta1 <= theta0)))
-                        or ((theta1 > math.pi / 2.) and (theta1 <= theta0))):
-                        points.append((self.center[0], self.center[1] + self.radius))
-                    # Passes through 180 degrees
-                    if ((theta0 <= math.pi and (theta1 >= math.pi or theta1 <= theta0))
-                        or ((theta1 > math.pi) and (theta1 <= theta0))):
-                        points.append((self.center[0] - self.radius, self.center[1]))
-                    # Passes through 270 degrees
-                    if (theta0 <= math.pi * 1.5 and (theta1 >= math.pi * 1.5 or theta1 <= theta0)
-                        or ((theta1 > math.pi * 1.5) and (theta1 <= theta0))):
-                        points.append((self.center[0], self.center[1] - self.radius))
-                else:
-                    # Passes through 0 degrees
-                    if theta1 >= theta0:
-                        points.append((self.center[0] + self.radius, self.center[1]))
-                    # Passes through 90 degrees
-                    if (((theta1 <= math.pi / 2.) and (theta0 >= math.pi / 2. or theta0 <= theta1))
-                        or ((theta0 > math.pi / 2.) and (theta0 <= theta1))):
-                        points.append((self.center[0], self.center[1] + self.radius))
-                    # Passes through 180 degrees
-                    if (((theta1 <= math.pi) and (theta0 >= math.pi or theta0 <= theta1))
-                        or ((theta0 > math.pi) and (theta0 <= theta1))):
-                        points.append((self.center[0] - self.radius, self.center[1]))
-                    # Passes through 270 degrees
-                    if (((theta1 <= math.pi * 1.5) and (theta0 >= math.pi * 1.5 or theta0 <= theta1))
-                        or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
-                        points.append((self.center[0], self.center[1] - self.radius))
-            x, y = zip(*points)
-            if hasattr(self.aperture, 'radius'):
-                min_x = min(x) - self.aperture.radius
-                max_x = max(x) + self.aperture.radius
-                min_y = min(y) - self.aperture.radius
-                max_y = max(y) + self.aperture.radius
-            else:
-                min_x = min(x) - self.aperture.width / 2.
-                max_x = max(x) + self.aperture.width / 2.
-                min_y = min(y) - self.aperture.height / 2.
-                max_y = max(y) + self.aperture.height / 2.
-
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        # not memoized: the aperture can change by itself
+        (min_x, max_x), (min_y, max_y) = self.bounding_box_no_aperture
+        if hasattr(self.aperture, 'radius'):
+            width_2 = height_2 = self.aperture.radius
+        else:
+            width_2 = self.aperture.width / 2.
+            height_2 = self.aperture.height / 2.
+        return ((min_x - width_2, max_x + width_2),
+                (min_y - height_2, max_y + height_2))
 
     @property
     def bounding_box_no_aperture(self):
@@ -1390,16 +1346,15 @@ class Outline(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
-            minx, maxx = zip(*xlims)
-            miny, maxy = zip(*ylims)
-            min_x = min(minx)
-            max_x = max(maxx)
-            min_y = min(miny)
-            max_y = max(maxy)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        # not memoized: the primitives can change by themselves
+        xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
+        minx, maxx = zip(*xlims)
+        miny, maxy = zip(*ylims)
+        min_x = min(minx)
+        max_x = max(maxx)
+        min_y = min(miny)
+        max_y = max(maxy)
+        return ((min_x, max_x), (min_y, max_y))
 
     def offset(self, x_offset=0, y_offset=0):
         self._changed()
@@ -1453,16 +1408,15 @@ class Region(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            xlims, ylims = zip(*[p.bounding_box_no_aperture for p in self.primitives])
-            minx, maxx = zip(*xlims)
-            miny, maxy = zip(*ylims)
-            min_x = min(minx)
-            max_x = max(maxx)
-            min_y = min(miny)
-            max_y = max(maxy)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        # not memoized: the primitives can change by themselves
+        xlims, ylims = zip(*[p.bounding_box_no_aperture for p in self.primitives])
+        minx, maxx = zip(*xlims)
+        miny, maxy = zip(*ylims)
+        min_x = min(minx)
+        max_x = max(maxx)
+        min_y = min(miny)
+        max_y = max(maxy)
+        return ((min_x, max_x), (min_y, max_y))
 
     def offset(self, x_offset=0, y_offset=0):
         self._changed()
-- 
2.43.0


From 501c4f8484a0f5f355fcd619aa467e711978ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 50/94] fix: asking for the nets of a netlist with adjacency
 records lost them or raised an error

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 9337a99..2d23698 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -112,7 +112,7 @@ class IPCNetlist(CamFile):
             adjacent_nets = set()
             for record in self.adjacency_records:
                 if record.net == net:
-                    adjacent_nets = adjacent_nets.update(record.adjacent_nets)
+                    adjacent_nets.update(record.adjacent_nets)
                 elif net in record.adjacent_nets:
                     adjacent_nets.add(record.net)
             nets.append(IPC356_Net(net, adjacent_nets))
-- 
2.43.0


From f4300dcef46ef25d322fb2a695912a0e2a678552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 51/94] fix: reading a netlist test record with a rotation in
 radians raised an error

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 2d23698..ece164b 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -348,7 +348,7 @@ class IPC356_TestRecord(object):
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
-                                           else math.degrees(rot))
+                                           else math.degrees(int(rot)))
 
         if len(line) >= (74 + offset):
             end = 74 + offset
-- 
2.43.0


From 6d37b83c0b974f7fe5328a85b3e975605e2c8366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 52/94] fix: netlist test records lost the last character of
 their last column

---
 gerber/ipc356.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index ece164b..85416dd 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -291,22 +291,20 @@ class IPC356_TestRecord(object):
             raise ValueError('Not a valid test record statment')
         record['feature_type'] = feature_types[line[1]]
 
-        end = len(line) - 1 if len(line) < 18 else 17
-        record['net_name'] = line[3:end].strip()
+        record['net_name'] = line[3:17].strip()
 
         if len(line) >= 27 and line[26] != '-':
             offset = line[26:].find('-')
             offset = 0 if offset == -1 else offset
-        end = len(line) - 1 if len(line) < (27 + offset) else (26 + offset)
-        record['id'] = line[20:end].strip()
+        record['id'] = line[20:26 + offset].strip()
 
-        end = len(line) - 1 if len(line) < (32 + offset) else (31 + offset)
+        end = 31 + offset
         record['pin'] = (line[27 + offset:end].strip() if line[27 + offset:end].strip() != ''
                          else None)
 
         record['location'] = 'middle' if line[31 + offset] == 'M' else 'end'
         if line[32 + offset] == 'D':
-            end = len(line) - 1 if len(line) < (38 + offset) else (37 + offset)
+            end = 37 + offset
             dia = int(line[33 + offset:end].strip())
             record['hole_diameter'] = (dia * 0.0001 if units == 'inch'
                                        else dia * 0.001)
@@ -314,37 +312,37 @@ class IPC356_TestRecord(object):
             record['plated'] = (line[37 + offset] == 'P')
 
         if len(line) >= (40 + offset):
-            end = len(line) - 1 if len(line) < (42 + offset) else (41 + offset)
+            end = 41 + offset
             record['access'] = access[int(line[39 + offset:end])]
 
         if len(line) >= (43 + offset):
-            end = len(line) - 1 if len(line) < (50 + offset) else (49 + offset)
+            end = 49 + offset
             coord = int(line[42 + offset:end].strip())
             record['x_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (51 + offset):
-            end = len(line) - 1 if len(line) < (58 + offset) else (57 + offset)
+            end = 57 + offset
             coord = int(line[50 + offset:end].strip())
             record['y_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (59 + offset):
-            end = len(line) - 1 if len(line) < (63 + offset) else (62 + offset)
+            end = 62 + offset
             dim = line[58 + offset:end].strip()
             if dim != '':
                 record['rect_x'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (64 + offset):
-            end = len(line) - 1 if len(line) < (68 + offset) else (67 + offset)
+            end = 67 + offset
             dim = line[63 + offset:end].strip()
             if dim != '':
                 record['rect_y'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (69 + offset):
-            end = len(line) - 1 if len(line) < (72 + offset) else (71 + offset)
+            end = 71 + offset
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
@@ -356,8 +354,7 @@ class IPC356_TestRecord(object):
             record['soldermask_info'] = _SM_FIELD.get(sm_info)
 
         if len(line) >= (76 + offset):
-            end = len(line) - 1 if len(line) < (80 + offset) else 79 + offset
-            record['optional_info'] = line[75 + offset:end]
+            record['optional_info'] = line[75 + offset:80 + offset]
 
         return cls(**record)
 
-- 
2.43.0


From 324ab5d1cb4af136607423fd4462eb52fb973f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 53/94] fix: a negative coordinate in a netlist record without
 a pin was read as a long component name

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 85416dd..e703cdb 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -293,7 +293,7 @@ class IPC356_TestRecord(object):
 
         record['net_name'] = line[3:17].strip()
 
-        if len(line) >= 27 and line[26] != '-':
+        if len(line) >= 27 and line[26] not in '- ':
             offset = line[26:].find('-')
             offset = 0 if offset == -1 else offset
         record['id'] = line[20:26 + offset].strip()
-- 
2.43.0


From f2349bd27df07f251121505bd38a46c0a155dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 54/94] fix: negative coordinates in netlist outlines and
 conductors were ignored

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index e703cdb..d39c43c 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -25,7 +25,7 @@ from .primitives import TestRecord
 _NNAME = re.compile(r'^NNAME\d+$')
 
 # Board Edge Coordinates
-_COORD = re.compile(r'X?(?P<x>[\d\s]*)?Y?(?P<y>[\d\s]*)?')
+_COORD = re.compile(r'X?(?P<x>[+-]?[\d\s]*)?Y?(?P<y>[+-]?[\d\s]*)?')
 
 _SM_FIELD = {
     '0': 'none',
-- 
2.43.0


From cad0fc3c5efcd924ea85f2fdc3523e8e55653604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 55/94] fix: net name aliases in netlist adjacency and
 conductor records were not resolved

---
 gerber/ipc356.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index d39c43c..ecb5464 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -183,6 +183,9 @@ class IPCNetlistParser(object):
 
         return IPCNetlist(self.statements, self.settings, filename=filename)
 
+    def _net_name(self, net):
+        return self.nnames.get(net, net) if _NNAME.match(net) else net
+
     def _parse_line(self, line):
         if not len(line):
             return
@@ -216,20 +219,22 @@ class IPCNetlistParser(object):
             record = IPC356_TestRecord.from_line(line, self.settings)
 
             # Substitute net name variables
-            net = record.net_name
-            if (_NNAME.match(net) and net in self.nnames.keys()):
-                record.net_name = self.nnames[record.net_name]
+            record.net_name = self._net_name(record.net_name)
             self.statements.append(record)
 
         elif line[0:3] == '378':
             # Conductor
-            self.statements.append(
-                IPC356_Conductor.from_line(
-                    line, self.settings))
+            record = IPC356_Conductor.from_line(line, self.settings)
+            record.net_name = self._net_name(record.net_name)
+            self.statements.append(record)
 
         elif line[0:3] == '379':
             # Net Adjacency
-            self.statements.append(IPC356_Adjacency.from_line(line))
+            record = IPC356_Adjacency.from_line(line)
+            record.net = self._net_name(record.net)
+            record.adjacent_nets = [self._net_name(net)
+                                    for net in record.adjacent_nets]
+            self.statements.append(record)
 
         elif line[0:3] == '389':
             # Outline
-- 
2.43.0


From 5da24b418a93cf2cafee2e8b9dc786e4f755c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 56/94] fix: internal layers were numbered by the first digits
 of the whole path

---
 gerber/layers.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 69e1c0d..2e33c37 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -124,6 +124,11 @@ def load_layer_data(data, filename=None):
     return PCBLayer.from_cam(common.loads(data, filename))
 
 
+def _has_name(filename, name):
+    pattern = r'^(\w*[.-])*{}([.-]\w*)?$'.format(name)
+    return re.search(pattern, filename, re.IGNORECASE) is not None
+
+
 def guess_layer_class(filename):
     try:
         layer = guess_layer_class_by_content(filename)
@@ -140,14 +145,36 @@ def guess_layer_class(filename):
                 if re.findall(hint.regex, filename, re.IGNORECASE):
                     return hint.layer
 
-            patterns = [r'^(\w*[.-])*{}([.-]\w*)?$'.format(x) for x in hint.name]
-            if ext[1:] in hint.ext or any(re.findall(p, name, re.IGNORECASE) for p in patterns):
+            if ext[1:] in hint.ext or any(_has_name(name, x) for x in hint.name):
                 return hint.layer
     except:
         pass
     return 'unknown'
 
 
+def internal_layer_number(filename):
+    """ Number of an internal layer
+
+    The number belongs to the part of the file name that marks the layer as an
+    internal one (3 for `rev2-board.g3`, 1 for `board2-In1_Cu.gbr`), otherwise
+    it is the last number in the name (4 for `board2-internal-4.gbr`). The
+    directory does not matter.
+    """
+    name, ext = os.path.splitext(os.path.basename(filename).lower())
+    candidates = []
+    for hint in hints:
+        if hint.layer == 'internal':
+            if ext[1:] in hint.ext:
+                candidates.append(ext)
+            candidates.extend(x for x in hint.name if _has_name(name, x))
+    candidates.extend(reversed(re.findall(r'\d+', name)))
+    for candidate in candidates:
+        number = re.search(r'\d+', candidate)
+        if number:
+            return int(number.group())
+    return 0
+
+
 def guess_layer_class_by_content(filename):
     try:
         file = open(filename, 'r')
@@ -254,11 +281,7 @@ class InternalLayer(PCBLayer):
     @classmethod
     def from_cam(cls, camfile):
         filename = camfile.filename
-        try:
-            order = int(re.search(r'\d+', filename).group())
-        except AttributeError:
-            order = 0
-        return cls(filename, camfile, order)
+        return cls(filename, camfile, internal_layer_number(filename))
 
     def __init__(self, filename=None, cam_source=None, order=0, **kwargs):
         super(InternalLayer, self).__init__(filename, 'internal', cam_source, **kwargs)
-- 
2.43.0


From 270fd68178f3d62799e35fa8a18f4b1bdc8c8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 57/94] fix: a netlist with a power plane's name became an
 internal copper layer

---
 gerber/layers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 2e33c37..e96ceb3 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -241,10 +241,10 @@ class PCBLayer(object):
         layer_class = guess_layer_class(filename)
         if isinstance(camfile, ExcellonFile) or (layer_class == 'drill'):
             return DrillLayer.from_cam(camfile)
-        elif layer_class == 'internal':
-            return InternalLayer.from_cam(camfile)
         if isinstance(camfile, IPCNetlist):
             layer_class = 'ipc_netlist'
+        elif layer_class == 'internal':
+            return InternalLayer.from_cam(camfile)
         return cls(filename, layer_class, camfile)
 
     def __init__(self, filename=None, layer_class=None, cam_source=None, **kwargs):
-- 
2.43.0


From e38ef46cd40f7e11b483078c2e60250903222909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 58/94] fix: one damaged or binary file in a directory
 prevented the board from loading

---
 gerber/pcb.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 1d22e74..897c224 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -17,7 +17,6 @@
 
 
 import os
-from .exceptions import ParseError
 from .layers import PCBLayer, sort_layers, layer_signatures
 from .common import read as gerber_read
 from .utils import listdir
@@ -52,10 +51,8 @@ class PCB(object):
                 if verbose:
                     print('[PCB]: Added {} layer <{}>'.format(layer.layer_class,
                                                               filename))
-            except ParseError:
-                if verbose:
-                    print('[PCB]: Skipping file {}'.format(filename))
-            except IOError:
+            except Exception:
+                # Whatever is wrong with this file does not affect the others
                 if verbose:
                     print('[PCB]: Skipping file {}'.format(filename))
 
-- 
2.43.0


From 3f4074ecb3abff938a66f7642e44eef24624c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 59/94] fix: views of a board without layers on that side
 raised IndexError

---
 gerber/pcb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 897c224..9a43eb4 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -78,7 +78,7 @@ class PCB(object):
                         ('topsilk', 'topmask', 'top')]
         drill_layers = [l for l in self.drill_layers if 'top' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return board_layers[:1] + drill_layers + board_layers[1:]
 
     @property
     def bottom_layers(self):
@@ -86,7 +86,7 @@ class PCB(object):
                         ('bottomsilk', 'bottommask', 'bottom')]
         drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return board_layers[:1] + drill_layers + board_layers[1:]
 
     @property
     def drill_layers(self):
-- 
2.43.0


From 0561ff609491ed122402010aa1c578db5c64b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 60/94] fix: text mentioning M48 or %FS in comments and names
 was taken for another file type

---
 gerber/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gerber/utils.py b/gerber/utils.py
index 3d39df9..c508c3d 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -218,9 +218,12 @@ def detect_file_format(data):
     format : string
         File format. 'excellon' or 'rs274x' or 'unknown'
     """
-    lines = data.split('\n')
-    for line in lines:
-        if 'M48' in line:
+    for line in data.splitlines():
+        line = line.strip()
+        # Comments of drill files and netlists may mention anything
+        if line[:1] in (';', 'C'):
+            continue
+        if line.startswith('M48'):
             return 'excellon'
         elif '%FS' in line:
             return 'rs274x'
-- 
2.43.0


From 45622ea8dff3237ee505ea9a9b92d7e0caebe56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 61/94] fix: incremental coordinates in a drill settings file
 raised ValueError

---
 gerber/excellon_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_settings.py b/gerber/excellon_settings.py
index 4dbe0ca..e2defdd 100644
--- a/gerber/excellon_settings.py
+++ b/gerber/excellon_settings.py
@@ -50,7 +50,7 @@ def loads(data):
 def map_coordinates(value):
     if value == 'ABSOLUTE':
         return 'absolute'
-    return 'relative'
+    return 'incremental'
 
 def map_units(value):
     if value == 'ENGLISH':
-- 
2.43.0


From ee68e7b3956d1e4f2e0537bd3572d385e7bcff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 62/94] fix: commands were lost or merged depending on the line
 breaks around parameter blocks

The reader took the start of every file (also an included one) for the inside
of a parameter block, and a block closed at the start of a line as still open.
---
 gerber/rs274x.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index a72af65..ef52e75 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -283,13 +283,13 @@ class GerberParser(object):
 
         length = len(data)
         start = 0
-        in_header = True
+        in_header = False
 
         for cur in range(0, length):
 
             val = data[cur]
 
-            if val == '%' and start == cur:
+            if val == '%' and not in_header and not data[start:cur].strip():
                 in_header = True
                 continue
 
-- 
2.43.0


From 6ccf6224dc665751498c6492cb9b4b274ae857c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 63/94] fix: commands behind an unknown command on the same
 line or block were dropped

---
 gerber/rs274x.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index ef52e75..d9aa931 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -332,6 +332,7 @@ class GerberParser(object):
                 oldline = line
                 continue
 
+            in_block = line.startswith("%")
             did_something = True  # make sure we do at least one loop
             while did_something and len(line) > 0:
                 did_something = False
@@ -472,9 +473,14 @@ class GerberParser(object):
                     continue
 
                 if line.find('*') > 0:
-                    yield UnknownStmt(line)
+                    # only this command, others may follow
+                    end = line.find('*') + 1
+                    unknown = line[:end].lstrip('%')
+                    yield UnknownStmt('%' + unknown + '%' if in_block else unknown)
                     did_something = True
-                    line = ""
+                    line = line[end:]
+                    if line == '%':
+                        line = ""
                     continue
 
             oldline = line
-- 
2.43.0


From da7a6a461428fc2240ffe03745ea9c4148a56f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 64/94] fix: aperture definitions, names and includes swallowed
 the commands behind them in the same block

---
 gerber/rs274x.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index d9aa931..1f062ea 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -188,25 +188,25 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(?=[,*])[,]?(?P<modifiers>[^,%]*)"
-    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
-    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
-    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%]*)".format(name=NAME)
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(?=[,*])[,]?(?P<modifiers>[^,%*]*)"
+    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%*]*)"
+    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%*]*)"
+    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%*]*)"
+    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%*]*)".format(name=NAME)
     AM = r"(?P<param>AM)(?P<name>{name})\*(?P<macro>[^%]*)".format(name=NAME)
     # Include File
-    IF = r"(?P<param>IF)(?P<filename>.*)"
+    IF = r"(?P<param>IF)(?P<filename>[^*]*)"
 
 
     # begin deprecated
     AS = r"(?P<param>AS)(?P<mode>(AXBY)|(AYBX))"
-    IN = r"(?P<param>IN)(?P<name>.*)"
+    IN = r"(?P<param>IN)(?P<name>[^*]*)"
     IP = r"(?P<param>IP)(?P<ip>(POS|NEG))"
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(?P<discarded>.*)"
-    LN = r"(?P<param>LN)(?P<name>.*)"
+    SF = r"(?P<param>SF)(?P<discarded>[^*]*)"
+    LN = r"(?P<param>LN)(?P<name>[^*]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
     # end deprecated
-- 
2.43.0


From a2481ed89918993392043676e04e0d61518f0485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 65/94] fix: drill files with carriage returns as line ends
 were read as one line from strings

---
 gerber/excellon.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index fb2d53a..2893546 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -34,12 +34,6 @@ from .primitives import Drill, Slot
 from .utils import inch, metric
 
 
-try:
-    from cStringIO import StringIO
-except(ImportError):
-    from io import StringIO
-
-
 
 def read(filename):
     """ Read data from filename and return an ExcellonFile
@@ -462,7 +456,7 @@ class ExcellonParser(object):
         return self.parse_raw(data, filename)
 
     def parse_raw(self, data, filename=None):
-        for line in StringIO(data):
+        for line in data.splitlines():
             self._parse_line(line.strip())
         for stmt in self.statements:
             stmt.units = self.units
-- 
2.43.0


From 0a06c374202b64aa126a867cc540799658ecbe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 66/94] fix: a comment between G00 or G01 and its coordinates
 made a drill file unreadable

---
 gerber/excellon.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 2893546..c608d29 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -464,6 +464,13 @@ class ExcellonParser(object):
                             self._settings(), filename)
 
     def _parse_line(self, line):
+        # Comments between G00 or G01 and its coordinates belong to neither
+        if self._previous_line and line[:1] == ';':
+            previous_line, self._previous_line = self._previous_line, ''
+            self._parse_line(line)
+            self._previous_line = previous_line
+            return
+
         # skip empty lines
         # Prepend previous line's data...
         line = '{}{}'.format(self._previous_line, line)
-- 
2.43.0


From aa79ebf6d5260ae14a6e4942a836291b25d0a7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 67/94] fix: generated Gerber lost the hole of drawing
 apertures and refused polygon ones

---
 gerber/render/rs274x_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index c7af2ea..9ee8f1c 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -161,9 +161,11 @@ class Rs274xContext(GerberContext):
             if isinstance(aperture, Circle):
                 aper = self._get_circle(aperture.diameter, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Rectangle):
-                aper = self._get_rectangle(aperture.width, aperture.height)
+                aper = self._get_rectangle(aperture.width, aperture.height, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Obround):
-                aper = self._get_obround(aperture.width, aperture.height)
+                aper = self._get_obround(aperture.width, aperture.height, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
+            elif isinstance(aperture, Polygon):
+                aper = self._get_polygon(aperture.radius, aperture.sides, aperture.rotation, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, AMGroup):
                 aper = self._get_amacro(aperture)
             else:
-- 
2.43.0


From c61c3120d9a260d2d80e07774c1ee9aa41256b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 68/94] fix: generated Gerber selected apertures inside regions

---
 gerber/render/rs274x_backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 9ee8f1c..80c736b 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -97,6 +97,7 @@ class Rs274xContext(GerberContext):
         self._func = None
         self._quadrant_mode = None
         self._dcode = None
+        self._in_region = False
 
         # Primarily for testing and comarison to files, should we write
         # flashes as a single statement or a move plus flash? Set to true
@@ -182,7 +183,9 @@ class Rs274xContext(GerberContext):
 
     def _render_line(self, line, color, default_polarity='dark'):
 
-        self._select_aperture(line.aperture)
+        # Segments of a region have no width, and no aperture may be selected there
+        if not self._in_region:
+            self._select_aperture(line.aperture)
 
         self._render_level_polarity(line, default_polarity)
 
@@ -221,7 +224,8 @@ class Rs274xContext(GerberContext):
             self._quadrant_mode = arc.quadrant_mode
 
         # Select the right aperture if not already selected
-        self._select_aperture(arc.aperture)
+        if not self._in_region:
+            self._select_aperture(arc.aperture)
 
         self._render_level_polarity(arc, default_polarity)
 
@@ -251,6 +255,7 @@ class Rs274xContext(GerberContext):
         self._render_level_polarity(region)
 
         self.body.append(RegionModeStmt.on())
+        self._in_region = True
 
         for p in region.primitives:
 
@@ -265,6 +270,7 @@ class Rs274xContext(GerberContext):
             self.body.append(CoordStmt.move(None, None))
 
         self.body.append(RegionModeStmt.off())
+        self._in_region = False
 
     def _render_level_polarity(self, obj, default='dark'):
         obj_polarity = obj.level_polarity if obj.level_polarity is not None else default
-- 
2.43.0


From 0e940ce2aca744c5eb393b54f06a74a5e6d378fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 69/94] fix: generated single quadrant arcs had signed offsets

---
 gerber/render/rs274x_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 80c736b..8661335 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -246,6 +246,9 @@ class Rs274xContext(GerberContext):
             self._pos = arc.start
 
         center = self._simplify_offset(arc.center, arc.start)
+        if arc.quadrant_mode == 'single-quadrant':
+            # Offsets carry no sign in this mode
+            center = tuple(map(abs, center))
         end = self._simplify_point(arc.end)
         self.body.append(CoordStmt.arc(func, end, center))
         self._pos = arc.end
-- 
2.43.0


From 5300996ef710ead43eba1de2fbe697d3e699ebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 70/94] fix: generated Gerber wrote the last instance of a
 macro for all of its apertures

---
 gerber/gerber_statements.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index d9c2fbb..6907f7d 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -20,6 +20,8 @@ Gerber (RS-274X) Statements
 **Gerber RS-274X file statement classes**
 
 """
+import copy
+
 from .utils import (parse_gerber_value, write_gerber_value, decimal_string,
                     inch, metric)
 
@@ -464,7 +466,12 @@ class AMParamStmt(ParamStmt):
             self._varies = True
         self._build_units = self.units
 
-        return AMGroup(self.primitives, stmt=self, units=self.units)
+        # The group keeps the primitives it was built from, also when the macro is built again
+        stmt = copy.copy(self)
+        stmt.primitives = copy.deepcopy(self.primitives)
+        stmt._varies = False
+
+        return AMGroup(self.primitives, stmt=stmt, units=self.units)
 
     def to_inch(self):
         if self.units == 'metric':
-- 
2.43.0


From 7624b0d47ec7e3afe67f4587270f1e77bf9a7b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 71/94] fix: equal macro apertures were defined again in
 generated Gerber

---
 gerber/render/rs274x_backend.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 8661335..4905e03 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -419,17 +419,18 @@ class Rs274xContext(GerberContext):
             hash += primitive.__class__.__name__[0]
 
             bbox = primitive.bounding_box
-            hash += str((bbox[0][1] - bbox[0][0]) * 100000)[0:2]
-            hash += str((bbox[1][1] - bbox[1][0]) * 100000)[0:2]
+            # Rounded, so that the position of the group does not make a difference
+            hash += str(int(round((bbox[0][1] - bbox[0][0]) * 100000)))[0:2]
+            hash += str(int(round((bbox[1][1] - bbox[1][0]) * 100000)))[0:2]
 
             if hasattr(primitive, 'primitives'):
                 hash += str(len(primitive.primitives))
 
             if isinstance(primitive, Rectangle):
-                hash += str(primitive.width * 1000000)[0:2]
-                hash += str(primitive.height * 1000000)[0:2]
+                hash += str(int(round(primitive.width * 1000000)))[0:2]
+                hash += str(int(round(primitive.height * 1000000)))[0:2]
             elif isinstance(primitive, Circle):
-                hash += str(primitive.diameter * 1000000)[0:2]
+                hash += str(int(round(primitive.diameter * 1000000)))[0:2]
 
             if len(hash) > 20:
                 # The hash might actually get quite complex, so stop before
-- 
2.43.0


From 6588bb91b5b5f0e63867a007c84956ba425367e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 72/94] fix: different macro apertures shared one definition in
 generated Gerber

---
 gerber/primitives.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index eccebd2..4bdcbe5 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -558,7 +558,8 @@ class Circle(Primitive):
         if not isinstance(other, Circle):
             return False
 
-        if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter:
+        if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter \
+                or self.hole_width != other.hole_width or self.hole_height != other.hole_height:
             return False
 
         equiv_position = tuple(map(add, other.position, offset))
@@ -743,7 +744,8 @@ class Rectangle(Primitive):
         if not isinstance(other, Rectangle):
             return False
 
-        if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
+        if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter \
+                or self.hole_width != other.hole_width or self.hole_height != other.hole_height:
             return False
 
         equiv_position = tuple(map(add, other.position, offset))
@@ -1221,6 +1223,10 @@ class Polygon(Primitive):
         if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius:
             return False
 
+        if self.rotation != other.rotation or self.hole_diameter != other.hole_diameter \
+                or self.hole_width != other.hole_width or self.hole_height != other.hole_height:
+            return False
+
         equiv_pos = tuple(map(add, other.position, offset))
 
         return nearly_equal(self.position, equiv_pos)
@@ -1323,6 +1329,10 @@ class AMGroup(Primitive):
             if not self.primitives[i].equivalent(other.primitives[i], offset):
                 return False
 
+            # The exposure
+            if self.primitives[i].level_polarity != other.primitives[i].level_polarity:
+                return False
+
         # If we didn't find any differences, then they are the same
         return True
 
-- 
2.43.0


From b6ab9b2007344cb5d0223f0c74bed834592506b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 73/94] fix: regions of unset polarity were generated with
 polarity commands inside

---
 gerber/render/rs274x_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 4905e03..d79447b 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -265,9 +265,9 @@ class Rs274xContext(GerberContext):
             # Make programmatically generated primitives within a region with
             # unset level polarity inherit the region's level polarity
             if isinstance(p, Line):
-                self._render_line(p, color, default_polarity=region.level_polarity)
+                self._render_line(p, color, default_polarity=self._level_polarity)
             else:
-                self._render_arc(p, color, default_polarity=region.level_polarity)
+                self._render_arc(p, color, default_polarity=self._level_polarity)
 
         if self.explicit_region_move_end:
             self.body.append(CoordStmt.move(None, None))
-- 
2.43.0


From d6cb4f2c89dc3042357e52529f27030cae3d4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 74/94] fix: rendering clipped off the topmost pixel row of
 objects

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e1d1408..7dd2ab8 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -594,7 +594,7 @@ class GerberCairoContext(GerberContext):
                 # caused by flipping the axis.
                 clp.ymin = math.floor(
                     (self.scale[1] * ymin) - math.ceil(self.origin_in_pixels[1]))
-                clp.ymax = math.floor(
+                clp.ymax = math.ceil(
                     (self.scale[1] * ymax) - math.floor(self.origin_in_pixels[1]))
 
                 # Calculate width and height, rounded to the nearest pixel
-- 
2.43.0


From c24cc7615bdfc719dd3df3ca985b8bfe7f4911fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 75/94] fix: holes of clear or inverted flashes were rendered
 filled

---
 gerber/render/cairo_backend.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 7dd2ab8..8eaa0ed 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -319,10 +319,7 @@ class GerberCairoContext(GerberContext):
                 if (hasattr(circle, 'hole_width') and hasattr(circle, 'hole_height')
                         and circle.hole_width is not None and circle.hole_height is not None
                         and circle.hole_width > 0 and circle.hole_height > 0):
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if circle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((circle.hole_width, circle.hole_height))
                     lower_left = rotate_point(
                         (center[0] - width / 2.0, center[1] - height / 2.0),
@@ -358,19 +355,13 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(rectangle.position)
                 if rectangle.hole_diameter > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
 
                     mask.ctx.arc(center[0], center[1], rectangle.hole_radius * self.scale[0], 0, 2 * math.pi)
                     mask.ctx.fill()
 
                 if rectangle.hole_width > 0 and rectangle.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((rectangle.hole_width, rectangle.hole_height))
                     lower_left = rotate_point((center[0] - width/2.0, center[1] - height/2.0), rectangle.rotation, center)
                     lower_right = rotate_point((center[0] + width/2.0, center[1] - height/2.0), rectangle.rotation, center)
@@ -415,10 +406,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if obround.hole_width > 0 and obround.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height =self.scale_point((obround.hole_width, obround.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               obround.rotation, center)
@@ -457,10 +445,7 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(polygon.position)
                 if polygon.hole_radius > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     mask.ctx.set_line_width(0)
                     mask.ctx.arc(center[0],
                                  center[1],
@@ -468,10 +453,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if polygon.hole_width > 0 and polygon.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((polygon.hole_width, polygon.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               polygon.rotation, center)
-- 
2.43.0


From 7ba4362d3484337d103c6bd352c53175ec93d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 76/94] fix: clear objects of inverted layers were rendered as
 dark ones

---
 gerber/render/cairo_backend.py | 47 ++++++++++------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 8eaa0ed..8f5c94b 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -199,13 +199,15 @@ class GerberCairoContext(GerberContext):
         # Add layer to image
         self.flatten(settings.color, settings.alpha)
 
+    def _operator(self, primitive):
+        # an inverted layer starts out solid: dark objects remove, clear ones add
+        dark = primitive.level_polarity == 'dark'
+        return cairo.OPERATOR_OVER if dark != self.invert else cairo.OPERATOR_CLEAR
+
     def _render_line(self, line, color):
         start = self.scale_point(line.start)
         end = self.scale_point(line.end)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and line.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(line))
 
         with self._clip_primitive(line):
             with self._new_mask() as mask:
@@ -242,10 +244,7 @@ class GerberCairoContext(GerberContext):
         else:
             width = max(arc.aperture.width, arc.aperture.height, 0.001)
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and arc.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(arc))
         with self._clip_primitive(arc):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -274,9 +273,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_region(self, region, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert) and region.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(region))
         with self._clip_primitive(region):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -301,10 +298,7 @@ class GerberCairoContext(GerberContext):
 
     def _render_circle(self, circle, color):
         center = self.scale_point(circle.position)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and circle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(circle))
         with self._clip_primitive(circle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -342,10 +336,7 @@ class GerberCairoContext(GerberContext):
         width, height = tuple([abs(coord) for coord in
                                self.scale_point((rectangle.width,
                                                  rectangle.height))])
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and rectangle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(rectangle))
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -375,10 +366,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_obround(self, obround, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and obround.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(obround))
         with self._clip_primitive(obround):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -425,10 +413,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_polygon(self, polygon, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and polygon.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(polygon))
         with self._clip_primitive(polygon):
             with self._new_mask() as mask:
 
@@ -481,9 +466,7 @@ class GerberCairoContext(GerberContext):
 
         width = slot.diameter
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if slot.level_polarity == 'dark' and
-                                 (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(slot))
         with self._clip_primitive(slot):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -504,9 +487,7 @@ class GerberCairoContext(GerberContext):
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if primitive.level_polarity == 'dark' and
-                              (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(primitive))
         self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
-- 
2.43.0


From 653eea33cd28517a907c0f52936c711f7c02b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 77/94] fix: full circles were not rendered when clockwise or
 in regions

---
 gerber/render/cairo_backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 8f5c94b..41f9257 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -237,8 +237,8 @@ class GerberCairoContext(GerberContext):
         angle1 = (arc.start_angle + two_pi) % two_pi
         angle2 = (arc.end_angle + two_pi) % two_pi
         if angle1 == angle2 and arc.quadrant_mode != 'single-quadrant':
-            # Make the angles slightly different otherwise Cario will draw nothing
-            angle2 -= 0.000000001
+            # A full circle: Cairo would draw nothing
+            angle2 += two_pi if arc.direction == 'counterclockwise' else -two_pi
         if isinstance(arc.aperture, Circle):
             width = arc.aperture.diameter if arc.aperture.diameter != 0 else 0.001
         else:
@@ -287,6 +287,9 @@ class GerberCairoContext(GerberContext):
                         radius = self.scale[0] * prim.radius
                         angle1 = prim.start_angle
                         angle2 = prim.end_angle
+                        if angle1 == angle2 and prim.quadrant_mode != 'single-quadrant':
+                            # A full circle: Cairo would draw nothing
+                            angle2 += 2 * math.pi if prim.direction == 'counterclockwise' else -2 * math.pi
                         if prim.direction == 'counterclockwise':
                             mask.ctx.arc(center[0], center[1], radius,
                                          angle1, angle2)
-- 
2.43.0


From cd2664ae01d6ad0316798d5977b7284ba6c91f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 78/94] fix: macro flashes were rendered without their own
 polarity and cut into the objects below

---
 gerber/render/cairo_backend.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 41f9257..37a8836 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -480,8 +480,18 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_amgroup(self, amgroup, color):
-        for primitive in amgroup.primitives:
-            self.render(primitive)
+        # Exposure only matters within the macro, so draw its shape separately
+        with self._new_mask() as mask:
+            mask.ctx.set_matrix(cairo.Matrix(x0=-self.origin_in_pixels[0]))
+            ctx, invert = self.ctx, self.invert
+            self.ctx, self.invert = mask.ctx, False
+            try:
+                for primitive in amgroup.primitives:
+                    self.render(primitive)
+            finally:
+                self.ctx, self.invert = ctx, invert
+            self.ctx.set_operator(self._operator(amgroup))
+            self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_test_record(self, primitive, color):
         position = [pos + origin for pos, origin in
-- 
2.43.0


From 996f156db8000b6b78e2ea6006a53151d3f6ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 79/94] fix: rendering stopped at the ninth internal layer

---
 gerber/render/theme.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 2f558a1..07a952b 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -74,8 +74,9 @@ class Theme(object):
         return next(self._internal_gen)
 
     def _internal_gen_func(self):
-        for setting in self._internal:
-            yield setting
+        while True:
+            for setting in self._internal:
+                yield setting
 
     def get(self, key, noneval=None):
         val = getattr(self, key, None)
-- 
2.43.0


From 0e65ed59190aa16481387e5e7a08e466d040bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 80/94] fix: netlist test records were rendered off their place

---
 gerber/render/cairo_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 37a8836..ea04cb1 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -494,14 +494,14 @@ class GerberCairoContext(GerberContext):
             self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_test_record(self, primitive, color):
-        position = [pos + origin for pos, origin in
-                    zip(primitive.position, self.origin_in_inch)]
+        position = primitive.position
         self.ctx.select_font_face(
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
         self.ctx.set_operator(self._operator(primitive))
-        self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
+        x, y = self.scale_point([coord + 0.015 for coord in position])
+        self.ctx.move_to(x, y - self.origin_in_pixels[1])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
         self.ctx.scale(1, -1)
-- 
2.43.0


From fdc9ae5c29c5b1d7b8e443879f677b3d8fdf7cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 81/94] fix: draws with polygon apertures could not be rendered

---
 gerber/primitives.py           | 7 +++++--
 gerber/render/cairo_backend.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 4bdcbe5..11f3c9d 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -304,8 +304,11 @@ class Line(Primitive):
                 # The line is defined by the convex hull of the points
                 self._vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
             elif isinstance(self.aperture, Polygon):
-                points = [map(add, point, vertex)
-                          for vertex in self.aperture.vertices
+                # the aperture itself has no position
+                aperture = Polygon((0, 0), self.aperture.sides, self.aperture.radius,
+                                   rotation=self.aperture.rotation)
+                points = [tuple(map(add, point, vertex))
+                          for vertex in aperture.vertices
                           for point in (start, end)]
                 self._vertices = convex_hull(points)
         return self._vertices
diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index ea04cb1..5039d95 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -239,7 +239,7 @@ class GerberCairoContext(GerberContext):
         if angle1 == angle2 and arc.quadrant_mode != 'single-quadrant':
             # A full circle: Cairo would draw nothing
             angle2 += two_pi if arc.direction == 'counterclockwise' else -two_pi
-        if isinstance(arc.aperture, Circle):
+        if isinstance(arc.aperture, (Circle, Polygon)):
             width = arc.aperture.diameter if arc.aperture.diameter != 0 else 0.001
         else:
             width = max(arc.aperture.width, arc.aperture.height, 0.001)
-- 
2.43.0


From 4f79a02bf4f1e1f6518fd105f63b2292fce03ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 82/94] fix: corners of turned rectangles, diamonds and chamfer
 rectangles were turned about the origin

---
 gerber/primitives.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 11f3c9d..87b1e15 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -728,9 +728,8 @@ class Rectangle(Primitive):
             ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
             ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
             lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in [ll, ul, ur, lr]]
+            self._vertices = [rotate_point(v, self.rotation, self.position)
+                              for v in [ll, ul, ur, lr]]
         return self._vertices
 
     @property
@@ -824,9 +823,8 @@ class Diamond(Primitive):
             right = ((self.position[0] + delta_w), self.position[1])
             bottom = (self.position[0], (self.position[1] - delta_h))
             left = ((self.position[0] - delta_w), self.position[1])
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in [top, right, bottom, left]]
+            self._vertices = [rotate_point(v, self.rotation, self.position)
+                              for v in [top, right, bottom, left]]
         return self._vertices
 
     @property
@@ -941,9 +939,8 @@ class ChamferRectangle(Primitive):
                         vertices.append((x, y + self.chamfer))
                 else:
                     vertices.append(corner)
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in vertices]
+            self._vertices = [rotate_point(v, self.rotation, self.position)
+                              for v in vertices]
         return self._vertices
 
     @property
-- 
2.43.0


From 246426a601692c649faf6ee5881d95999aefb242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 83/94] fix: corners of chamfer rectangles were not in order
 around the shape

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 87b1e15..2c074f5 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -926,14 +926,14 @@ class ChamferRectangle(Primitive):
                 x, y = corner
                 if chamfered:
                     if idx == 0:
-                        vertices.append((x - self.chamfer, y))
                         vertices.append((x, y - self.chamfer))
+                        vertices.append((x - self.chamfer, y))
                     elif idx == 1:
                         vertices.append((x + self.chamfer, y))
                         vertices.append((x, y - self.chamfer))
                     elif idx == 2:
-                        vertices.append((x + self.chamfer, y))
                         vertices.append((x, y + self.chamfer))
+                        vertices.append((x + self.chamfer, y))
                     elif idx == 3:
                         vertices.append((x - self.chamfer, y))
                         vertices.append((x, y + self.chamfer))
-- 
2.43.0


From 2d5dcc9133a061284773832cb6dd7468d9781574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 84/94] fix: corners of lines were not updated when the
 aperture changed

---
 gerber/primitives.py | 66 ++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 2c074f5..11be336 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -109,11 +109,11 @@ class Primitive(object):
 
     @property
     def segments(self):
-        if self._segments is None:
-            if self.vertices is not None and len(self.vertices):
-                self._segments = [segment for segment in
-                                  combinations(self.vertices, 2)]
-        return self._segments
+        # not memoized: the vertices can change with the parts of the object
+        vertices = self.vertices
+        if vertices is not None and len(vertices):
+            return [segment for segment in combinations(vertices, 2)]
+        return None
 
     @property
     def bounding_box(self):
@@ -284,34 +284,34 @@ class Line(Primitive):
 
     @property
     def vertices(self):
-        if self._vertices is None:
-            start = self.start
-            end = self.end
-            if isinstance(self.aperture, Rectangle):
-                width = self.aperture.width
-                height = self.aperture.height
-
-                # Find all the corners of the start and end position
-                start_ll = (start[0] - (width / 2.), start[1] - (height / 2.))
-                start_lr = (start[0] + (width / 2.), start[1] - (height / 2.))
-                start_ul = (start[0] - (width / 2.), start[1] + (height / 2.))
-                start_ur = (start[0] + (width / 2.), start[1] + (height / 2.))
-                end_ll = (end[0] - (width / 2.), end[1] - (height / 2.))
-                end_lr = (end[0] + (width / 2.), end[1] - (height / 2.))
-                end_ul = (end[0] - (width / 2.), end[1] + (height / 2.))
-                end_ur = (end[0] + (width / 2.), end[1] + (height / 2.))
-
-                # The line is defined by the convex hull of the points
-                self._vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
-            elif isinstance(self.aperture, Polygon):
-                # the aperture itself has no position
-                aperture = Polygon((0, 0), self.aperture.sides, self.aperture.radius,
-                                   rotation=self.aperture.rotation)
-                points = [tuple(map(add, point, vertex))
-                          for vertex in aperture.vertices
-                          for point in (start, end)]
-                self._vertices = convex_hull(points)
-        return self._vertices
+        # not memoized: the aperture can change by itself
+        start = self.start
+        end = self.end
+        if isinstance(self.aperture, Rectangle):
+            width = self.aperture.width
+            height = self.aperture.height
+
+            # Find all the corners of the start and end position
+            start_ll = (start[0] - (width / 2.), start[1] - (height / 2.))
+            start_lr = (start[0] + (width / 2.), start[1] - (height / 2.))
+            start_ul = (start[0] - (width / 2.), start[1] + (height / 2.))
+            start_ur = (start[0] + (width / 2.), start[1] + (height / 2.))
+            end_ll = (end[0] - (width / 2.), end[1] - (height / 2.))
+            end_lr = (end[0] + (width / 2.), end[1] - (height / 2.))
+            end_ul = (end[0] - (width / 2.), end[1] + (height / 2.))
+            end_ur = (end[0] + (width / 2.), end[1] + (height / 2.))
+
+            # The line is defined by the convex hull of the points
+            return convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
+        elif isinstance(self.aperture, Polygon):
+            # the aperture itself has no position
+            aperture = Polygon((0, 0), self.aperture.sides, self.aperture.radius,
+                               rotation=self.aperture.rotation)
+            points = [tuple(map(add, point, vertex))
+                      for vertex in aperture.vertices
+                      for point in (start, end)]
+            return convex_hull(points)
+        return None
 
     def offset(self, x_offset=0, y_offset=0):
         self._changed()
-- 
2.43.0


From 29b4884d5ecd46a1cb60cf45fb75dbb64eb57ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 85/94] fix: corners and width of outlines raised errors

---
 gerber/primitives.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 11be336..c49226d 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1373,19 +1373,11 @@ class Outline(Primitive):
 
     @property
     def vertices(self):
-        if self._vertices is None:
-            theta = math.radians(360/self.sides)
-            vertices = [(self.position[0] + (math.cos(theta * side) * self.radius),
-                         self.position[1] + (math.sin(theta * side) * self.radius))
-                        for side in range(self.sides)]
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in vertices]
-        return self._vertices
+        return [p.start for p in self.primitives]
 
     @property
     def width(self):
-        bounding_box = self.bounding_box()
+        bounding_box = self.bounding_box
         return bounding_box[0][1] - bounding_box[0][0]
 
     def equivalent(self, other, offset):
-- 
2.43.0


From 46bc916c847df90577d5ecf62ef9bb634ee68c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:49 +0000
Subject: [PATCH 86/94] fix: equality of objects depended on earlier queries
 and not on their kind

---
 gerber/primitives.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index c49226d..28d104e 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -81,7 +81,11 @@ class Primitive(object):
                                   'implemented in subclass')
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if type(self) != type(other):
+            return False
+        memo = ('_bounding_box', '_vertices', '_segments') + tuple(self._memoized)
+        return ({k: v for k, v in self.__dict__.items() if k not in memo} ==
+                {k: v for k, v in other.__dict__.items() if k not in memo})
 
     @property
     def units(self):
-- 
2.43.0


From f521fae731ff36389ace789f00567be903b7fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:48 +0000
Subject: [PATCH 87/94] fix: corners were lost from the hull of points that
 occur twice

---
 gerber/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index c508c3d..ffcb105 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -457,5 +457,7 @@ def _findhull(idxp, a_i, b_i, points):
 
 
 def convex_hull(points):
+    # every point counts once
+    points = [p for n, p in enumerate(points) if p not in points[:n]]
     vertices = ConvexHull_qh(points)
     return [points[idx] for idx in vertices]
-- 
2.43.0


From f47c4fd8a47a752ed6208786d2730ee4889f6220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 88/94] fix: drills were shown above the soldermask of sides
 without copper

---
 gerber/pcb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 9a43eb4..4bf1682 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -78,7 +78,8 @@ class PCB(object):
                         ('topsilk', 'topmask', 'top')]
         drill_layers = [l for l in self.drill_layers if 'top' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return board_layers[:1] + drill_layers + board_layers[1:]
+        copper = [l for l in board_layers if l.layer_class == 'top']
+        return copper + drill_layers + board_layers[len(copper):]
 
     @property
     def bottom_layers(self):
@@ -86,7 +87,8 @@ class PCB(object):
                         ('bottomsilk', 'bottommask', 'bottom')]
         drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return board_layers[:1] + drill_layers + board_layers[1:]
+        copper = [l for l in board_layers if l.layer_class == 'bottom']
+        return copper + drill_layers + board_layers[len(copper):]
 
     @property
     def drill_layers(self):
-- 
2.43.0


From 4f6794725223f6fc16a89e38a40cd9d2680c37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 89/94] fix: the bottom soldermask was not mirrored in the blue
 theme

---
 gerber/render/theme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 07a952b..4340c7a 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -96,7 +96,7 @@ THEMES = {
 
     'Blue': Theme(name='Blue',
                   topmask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True),
-                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True)),
+                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True, mirror=True)),
 
     'Transparent Copper': Theme(name='Transparent',
                                 background=RenderSettings((0.9, 0.9, 0.9)),
-- 
2.43.0


From 114e4e3ac8072a2b03b4ad1a246032887387b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:46 +0000
Subject: [PATCH 90/94] fix: rendering a board without layers on one side
 raised AttributeError

---
 gerber/__main__.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index 988adff..68ef6be 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -92,20 +92,24 @@ def main():
                 bottom = [outline] + bottom
                 copper = [outline] + copper + pcb.drill_layers
 
-            renderer.render_layers(
-                layers=top, theme=theme.THEMES[args.theme],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.top.{1}'.format(args.outfile, outext)
-            )
-            renderer.render_layers(
-                layers=bottom, theme=theme.THEMES[args.theme],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.bottom.{1}'.format(args.outfile, outext)
-            )
-            renderer.render_layers(
-                layers=copper, theme=theme.THEMES['Transparent Multilayer'],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.copper.{1}'.format(args.outfile, outext))
+            # There is nothing to show of sides without layers
+            if top:
+                renderer.render_layers(
+                    layers=top, theme=theme.THEMES[args.theme],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.top.{1}'.format(args.outfile, outext)
+                )
+            if bottom:
+                renderer.render_layers(
+                    layers=bottom, theme=theme.THEMES[args.theme],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.bottom.{1}'.format(args.outfile, outext)
+                )
+            if copper:
+                renderer.render_layers(
+                    layers=copper, theme=theme.THEMES['Transparent Multilayer'],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.copper.{1}'.format(args.outfile, outext))
         else:
             pass
     else:
-- 
2.43.0


From 8d6dbd9a474a402ddb8a3565b87075385f6a0aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 91/94] fix: the background of the selected theme was not used
 for single files

---
 gerber/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index 68ef6be..585ee5c 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -117,7 +117,8 @@ def main():
         for filename in filenames:
             layer = load_layer(filename)
             settings = theme.THEMES[args.theme].get(layer.layer_class, None)
-            renderer.render_layer(layer, settings=settings)
+            renderer.render_layer(layer, settings=settings,
+                                  bgsettings=theme.THEMES[args.theme]['background'])
         renderer.dump(filename='{0}.{1}'.format(args.outfile, outext))
 
 
-- 
2.43.0


From 7a2ac3560eb7978dc510dca2cb7862dfcee6cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 92/94] fix: canned slots in incremental notation were placed
 relative to the origin

---
 gerber/excellon.py            | 26 ++++++++++----------------
 gerber/excellon_statements.py |  9 +++++----
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index c608d29..a613764 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -733,30 +733,24 @@ class ExcellonParser(object):
                         stmt.x_end = stmt.x_start
                     if stmt.y_end is None:
                         stmt.y_end = stmt.y_start
-
-                # I don't know if this is actually correct, but it makes sense
-                # that this is where the tool would end
-                x = stmt.x_end
-                y = stmt.y_end
+                    start = (stmt.x_start, stmt.y_start)
+                    end = (stmt.x_end, stmt.y_end)
+                else:
+                    # Each point is relative to the one before
+                    start = (self.pos[0] + (stmt.x_start or 0), self.pos[1] + (stmt.y_start or 0))
+                    end = (start[0] + (stmt.x_end or 0), start[1] + (stmt.y_end or 0))
 
                 self.statements.append(stmt)
 
-                if self.notation == 'absolute':
-                    if x is not None:
-                        self.pos[0] = x
-                    if y is not None:
-                        self.pos[1] = y
-                else:
-                    if x is not None:
-                        self.pos[0] += x
-                    if y is not None:
-                        self.pos[1] += y
+                # I don't know if this is actually correct, but it makes sense
+                # that this is where the tool would end
+                self.pos = [end[0], end[1]]
 
                 if self.state == 'DRILL' or self.state == 'HEADER':
                     if not self.active_tool:
                         self.active_tool = self._get_tool(1)
 
-                    self.hits.append(DrillSlot(self.active_tool, (stmt.x_start, stmt.y_start), (stmt.x_end, stmt.y_end), DrillSlot.TYPE_G85))
+                    self.hits.append(DrillSlot(self.active_tool, start, end, DrillSlot.TYPE_G85))
                     self.active_tool._hit()
             else:
                 stmt = CoordinateStmt.from_excellon(line, self._settings())
diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 1f4b9d4..27e69a3 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -868,10 +868,11 @@ class SlotStmt(ExcellonStatement):
         (x_end_coord, y_end_coord) = SlotStmt.parse_sub_coords(sub_coords[1], settings)
 
         # Some files seem to specify only one of the coordinates
-        if x_end_coord == None:
-            x_end_coord = x_start_coord
-        if y_end_coord == None:
-            y_end_coord = y_start_coord
+        if settings.notation == 'absolute':
+            if x_end_coord == None:
+                x_end_coord = x_start_coord
+            if y_end_coord == None:
+                y_end_coord = y_start_coord
 
         c = cls(x_start_coord, y_start_coord, x_end_coord, y_end_coord, **kwargs)
         c.units = settings.units
-- 
2.43.0


From 0fd9d71395412c737373a81e2628c526080dc38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 93/94] fix: drill files in incremental notation were written
 with absolute positions

---
 gerber/excellon.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index a613764..22c2c66 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -292,13 +292,22 @@ class ExcellonFile(CamFile):
         with open(filename, 'w') as f:
 
             # Copy the header verbatim
+            notation = self.settings.notation
             for statement in self.statements:
                 if not isinstance(statement, (ToolSelectionStmt, CoordinateStmt,
                                               SlotStmt, RouteModeStmt, EndOfProgramStmt)):
                     f.write(statement.to_excellon(self.settings) + '\n')
+                    if isinstance(statement, IncrementalModeStmt):
+                        notation = 'incremental' if statement.mode == 'on' else 'absolute'
+                    elif isinstance(statement, AbsoluteModeStmt):
+                        notation = 'absolute'
                 else:
                     break
 
+            # The hits have absolute positions
+            if notation == 'incremental':
+                f.write(AbsoluteModeStmt().to_excellon() + '\n')
+
             # Write out coordinates for drill hits by tool
             for tool in iter(self.tools.values()):
                 f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\n')
-- 
2.43.0


From 879c94261ef5d683a040a4dae5db0bcd12413a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 94/94] fix: leading zeros of numbers in aperture macros were
 taken for modifiers

---
 gerber/am_read.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index e48d84a..e1a32af 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -212,10 +212,11 @@ def read_macro(macro):
                     instructions.append((OpCode.PUSH, scanner.readstr("*")))
                     found_primitive_code = True
                 else:
-                    # decimal or integer disambiguation
-                    if scanner.peek() not in '.' or scanner.peek() == Token.EOF:
-                        instructions.append((OpCode.PUSH, 0))
-                        sign_allowed = False
+                    # zeros may precede any number
+                    scanner.ungetc()
+                    n = scanner.readfloat()
+                    sign_allowed = False
+                    instructions.append((OpCode.PUSH, n))
 
             elif c in "123456789.":
                 scanner.ungetc()
-- 
2.43.0

