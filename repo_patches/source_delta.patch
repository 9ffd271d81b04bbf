From d5d511a081d23188d7ccaef586822d2da97c3cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 001/106] fix: floor division of an expression by +-1 keeps the
 floor

---
 src/mccode_antlr/common/expression.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 5726035..6882d4f 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -272,10 +272,6 @@ class Op:
     def __floordiv__(self, other):
         if other.is_zero:
             raise RuntimeError('Division by zero')
-        if other.is_value(1):
-            return self
-        if other.is_value(-1):
-            return -self
         return BinaryOp('//', self, other)
 
     def __neg__(self):
@@ -904,10 +900,6 @@ class Value:
         pdt = self.data_type // other.data_type
         if self.is_zero:
             return Value(0, DataType.int)
-        if other.is_value(1):
-            return Value.int(round(self.value))
-        if other.is_value(-1):
-            return -Value.int(round(self.value))
         if other.is_zero:
             raise RuntimeError('Division by zero!')
         if other.is_op or self.is_id or other.is_id:
-- 
2.43.0


From 9e622a12d6bb564414a323dc068d398859d72a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 002/106] fix: only a positive power of a zero Value is zero

---
 src/mccode_antlr/common/expression.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 6882d4f..911464c 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -952,10 +952,12 @@ class Value:
     def __pow__(self, power):
         if not isinstance(power, (Value, Op)):
             power = Value.best(power)
-        if self.is_zero or self.is_value(1):
-            return self
         if power.is_zero:
             return Value(1, data_type=self.data_type)
+        if self.is_value(1):
+            return self
+        if self.is_zero and power.is_constant and power.value > 0:
+            return self
         return BinaryOp('__pow__', self, power)
 
     @property
-- 
2.43.0


From 742d685c321a6205f66f81a51ee014be836a9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 003/106] fix: operations take numbers as operands and can be
 raised to a power

---
 src/mccode_antlr/common/expression.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 911464c..7f3111b 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -242,16 +242,19 @@ class Op:
         return False
 
     def __add__(self, other):
+        other = other if isinstance(other, (Value, Op, Expr)) else Value.best(other)
         if other.is_zero:
             return self
         return BinaryOp('+', self, other)
 
     def __sub__(self, other):
+        other = other if isinstance(other, (Value, Op, Expr)) else Value.best(other)
         if other.is_zero:
             return self
         return BinaryOp('-', self, other)
 
     def __mul__(self, other):
+        other = other if isinstance(other, (Value, Op, Expr)) else Value.best(other)
         if other.is_zero:
             return other
         if other.is_value(1):
@@ -261,6 +264,7 @@ class Op:
         return BinaryOp('*', self, other)
 
     def __truediv__(self, other):
+        other = other if isinstance(other, (Value, Op, Expr)) else Value.best(other)
         if other.is_zero:
             raise RuntimeError('Division by zero')
         if other.is_value(1):
@@ -270,10 +274,15 @@ class Op:
         return BinaryOp('/', self, other)
 
     def __floordiv__(self, other):
+        other = other if isinstance(other, (Value, Op, Expr)) else Value.best(other)
         if other.is_zero:
             raise RuntimeError('Division by zero')
         return BinaryOp('//', self, other)
 
+    def __pow__(self, power):
+        power = power if isinstance(power, (Value, Op, Expr)) else Value.best(power)
+        return BinaryOp('__pow__', self, power)
+
     def __neg__(self):
         return UnaryOp('-', self)
 
-- 
2.43.0


From d436cc879c274818c2a92f2c9abc6ee6ad6fa96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 004/106] fix: +identifier keeps being the same identifier or
 parameter

---
 src/mccode_antlr/common/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 7f3111b..b1f2295 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -919,7 +919,7 @@ class Value:
         return UnaryOp('-', self) if self.is_id or self.data_type.is_str else Value(-self.value, self.data_type)
 
     def __pos__(self):
-        return Value(self.value, self.data_type)
+        return Value(self.value, self.data_type, self.object_type, self.shape_type)
 
     def __abs__(self):
         return UnaryOp('abs', self) if self.is_id or self.data_type.is_str else Value(abs(self.value), self.data_type)
-- 
2.43.0


From 5dc6dcb9c8e8cc348ff6bd7d6829d8332de89de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 005/106] fix: printed expressions keep their grouping by
 parenthesising operands where needed

---
 src/mccode_antlr/common/expression.py | 47 ++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index b1f2295..d9ba477 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -191,6 +191,39 @@ def _fmt_comb(fmt, s: list):
     return ','.join(f'{x:{fmt}}' for x in s)
 
 
+def _tightness(x):
+    """How tightly the printed form of an expression node holds together
+
+    5: names, numbers, calls and anything in parentheses; 4: powers; 3: products; 2: anything starting with a sign;
+    1: comparisons; 0: logical operations
+    """
+    if isinstance(x, Expr):
+        return _tightness(x.expr[0]) if len(x.expr) == 1 else 5
+    if isinstance(x, Value):
+        return 2 if isinstance(x.value, (int, float)) and not x.value >= 0 else 5
+    if isinstance(x, UnaryOp):
+        if x.op == '__not__':
+            return 0
+        return 2 if any(s in x.op for s in '+-') else 5
+    if isinstance(x, TrinaryOp):
+        return 0
+    if isinstance(x, BinaryOp):
+        if x.op == '__pow__':
+            return 4
+        if x.op in ('*', '/', '//'):
+            return min(3, _tightness(x.left[0])) if len(x.left) == 1 else 3
+        if x.op in ('__lt__', '__gt__', '__le__', '__ge__', '__eq__', '__neq__'):
+            return 1
+        if x.op in ('__or__', '__and__'):
+            return 0
+    return 5
+
+
+def _enclose(least, text, s: list):
+    """Parenthesise a printed operand if it would otherwise not stay together next to its operator"""
+    return f'({text})' if len(s) == 1 and _tightness(s[0]) < least else text
+
+
 class Op:
     def __init__(self):
         self.data_type = DataType.undefined
@@ -322,6 +355,7 @@ class TrinaryOp(Op):
         return TrinaryOp(self.op, first, second, third)
 
     def _str_repr_(self, first, second, third):
+        first, second, third = [_enclose(1, t, x) for t, x in zip((first, second, third), (self.first, self.second, self.third))]
         if '__trinary__' == self.op:
             if self.style == 'C':
                 return f'{first} ? {second} : {third}'
@@ -415,7 +449,17 @@ class BinaryOp(Op):
         right = [x.as_type(pdt) for x in self.right]
         return BinaryOp(self.op, left, right)
 
+    # The least tightness of the left and right operands which do not need parentheses
+    _least = {
+        '__call__': (5, 0), '__getitem__': (5, 0), '__struct_access__': (5, 5), '__pointer_access__': (5, 5), '__pow__': (5, 5),
+        '*': (2, 4), '/': (2, 4), '//': (2, 4), '+': (2, 3), '-': (2, 3), '%': (2, 4), '<<': (2, 3), '>>': (2, 3),
+        '__lt__': (2, 2), '__gt__': (2, 2), '__le__': (2, 2), '__ge__': (2, 2), '__eq__': (2, 2), '__neq__': (2, 2),
+        '__or__': (1, 1), '__and__': (1, 1)
+    }
+
     def _str_repr_(self, lstr, rstr):
+        left_least, right_least = self._least.get(self.op, (0, 0))
+        lstr, rstr = _enclose(left_least, lstr, self.left), _enclose(right_least, rstr, self.right)
         if '__call__' == self.op:
             return f'{lstr}({rstr})'
         if '__struct_access__' == self.op:
@@ -562,9 +606,10 @@ class UnaryOp(Op):
         if '__group__' == self.op:
             return f'({vstr})'
         if '__not__' == self.op:
+            vstr = _enclose(5, vstr, self.value)
             return f'!{vstr}' if 'C' == self.style else f'not {vstr}'
         if any(x in self.op for x in '+-'):
-            return f'{self.op}{vstr}'
+            return f'{self.op}{_enclose(3, vstr, self.value)}'
         return f'{self.op}({vstr})'
 
     def __str__(self):
-- 
2.43.0


From feb34003fb65183a75c26954a04ceff95f54cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 006/106] fix: copies of expressions do not share their
 operands

---
 src/mccode_antlr/common/expression.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index d9ba477..6a3cbbc 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -407,7 +407,9 @@ class TrinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.first, self.second, self.third))
 
     def copy(self):
-        return TrinaryOp(self.op, self.first, self.second, self.third)
+        new = TrinaryOp(self.op, *[[x.copy() for x in y] for y in (self.first, self.second, self.third)])
+        new.data_type, new.style = self.data_type, self.style
+        return new
 
     def __contains__(self, value):
         # first, second, and third are lists, so we need to check each element to avoid using __eq__
@@ -571,7 +573,9 @@ class BinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.left, self.right))
 
     def copy(self):
-        return BinaryOp(self.op, self.left.copy(), self.right.copy())
+        new = BinaryOp(self.op, [x.copy() for x in self.left], [x.copy() for x in self.right])
+        new.data_type, new.style = self.data_type, self.style
+        return new
 
     def __contains__(self, value):
         # left and right are lists, so we need to check each element to avoid using __eq__
@@ -674,7 +678,9 @@ class UnaryOp(Op):
         return any(x.depends_on(name) for x in self.value)
 
     def copy(self):
-        return UnaryOp(self.op, self.value.copy())
+        new = UnaryOp(self.op, [x.copy() for x in self.value])
+        new.data_type, new.style = self.data_type, self.style
+        return new
 
     def __contains__(self, value):
         # value is a list
-- 
2.43.0


From 6d74314321d67c74672ca707afc15575995a1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 007/106] fix: an Expr operand of a Value operation is used as
 the expression it holds

---
 src/mccode_antlr/common/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 6a3cbbc..5555731 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -825,6 +825,8 @@ class Value:
 
     @classmethod
     def best(cls, value):
+        if isinstance(value, Expr) and value.is_singular:
+            return value.expr[0]
         if isinstance(value, str) and value[0] == '"' and value[-1] == '"':
             return cls(value, DataType.str)
         elif isinstance(value, str):
-- 
2.43.0


From 1a9ab46ac80d7123fdd4badbe679dafe8d4e1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 008/106] fix: the sine of 180 degrees is 0 and that of -90
 degrees is -1

---
 src/mccode_antlr/instr/orientation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 1cf52fc..3a85023 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -351,8 +351,10 @@ def sin_value(v: Expr, degrees=True):
     pi = Expr.float(pi) if v.is_constant else Expr.id('PI')
     if (degrees and v.is_value(Expr.float(90))) or (not degrees and v.is_value(pi / Expr.float(2))):
         return Expr.float(1)
-    if (degrees and v.is_value(Expr.float(180))) or (not degrees and v.is_value(-pi / Expr.float(2))):
+    if (degrees and v.is_value(Expr.float(-90))) or (not degrees and v.is_value(-pi / Expr.float(2))):
         return Expr.float(-1)
+    if (degrees and v.is_value(Expr.float(180))) or (not degrees and v.is_value(pi)):
+        return Expr.float(0)
     return unary_expr(sin_degree if degrees else sin, 'sin', v)
 
 
-- 
2.43.0


From 487bb5a24cc2e7b4f52649370589094858c7f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:39 +0000
Subject: [PATCH 009/106] fix: rotations given in radian are not converted
 twice

---
 src/mccode_antlr/instr/orientation.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 3a85023..b3a2c91 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -402,9 +402,16 @@ def degree_to_radian(v: Expr):
     return v * Expr.float(pi / 180)
 
 
+def radian_to_degree(v: Expr):
+    from math import pi
+    if v.is_id:
+        return v * (Expr.float(180) / Expr.id('PI'))
+    return v * Expr.float(180 / pi)
+
+
 def _rotation_angles_to_axes_coordinates(rotated: Angles, degrees=True):
-    cx, cy, cz = [cos_value(r if degrees else degree_to_radian(r), degrees=degrees) for r in rotated]
-    sx, sy, sz = [sin_value(r if degrees else degree_to_radian(r), degrees=degrees) for r in rotated]
+    cx, cy, cz = [cos_value(r, degrees=degrees) for r in rotated]
+    sx, sy, sz = [sin_value(r, degrees=degrees) for r in rotated]
     # Rotation matrices following the McCode first x then y then z method of applying rotations.
     # The 3x3 rotation matrix part (which rotates the *axes* of a coordinate system):
     axes = (cy * cz, sx * sy * cz + cx * sz, sx * sz - cx * sy * cz,
@@ -636,8 +643,12 @@ class RotationPart(Part):
         return self.rotation_axis, self.v, 'degrees' if self.degrees else 'radian'
 
     def _cos_sin_one_zero(self):
-        r = self.v if self.degrees else degree_to_radian(self.v)
-        return cos_value(r), sin_value(r), Expr.float(1), Expr.float(0)
+        return cos_value(self.v, self.degrees), sin_value(self.v, self.degrees), Expr.float(1), Expr.float(0)
+
+    def _angle(self, degrees):
+        if self.degrees == degrees:
+            return self.v
+        return radian_to_degree(self.v) if degrees else degree_to_radian(self.v)
 
     def position(self, which=None) -> Vector:
         z = Expr.float(0)
@@ -664,7 +675,7 @@ class RotationX(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(self.v, z, z)
+        return Angles(self._angle(degrees), z, z)
 
     def __str__(self):
         return f'(0, 0, 0) [{self.v}, 0, 0]'
@@ -685,7 +696,7 @@ class RotationY(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(z, self.v, z)
+        return Angles(z, self._angle(degrees), z)
 
     def __str__(self):
         return f'(0, 0, 0) [0, {self.v}, 0]'
@@ -706,7 +717,7 @@ class RotationZ(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(z, z, self.v)
+        return Angles(z, z, self._angle(degrees))
 
     def __str__(self):
         return f'(0, 0, 0) [0, 0, {self.v}]'
-- 
2.43.0


From 456ea7f7a4d1fb0a555bf274a459374830f3a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 010/106] fix: Euler angles of an orientation with the Y
 rotation at +-90 degrees reproduce it

---
 src/mccode_antlr/instr/orientation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index b3a2c91..c251265 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -428,8 +428,16 @@ def _rotation_angles_to_axes_coordinates(rotated: Angles, degrees=True):
 def axes_euler_angles(m: Rotation, degrees) -> Angles:
     """Return the angles vector which could have been used to produce this 'axes' rotation matrix"""
     rxs = atan2_value(-m.zy, m.zz, degrees=degrees)
-    rys = atan2_value(m.zx, cos_from_sin_value(m.zx), degrees=degrees)
     rzs = atan2_value(-m.yx, m.xx, degrees=degrees)
+    if m.zx.is_constant and m.zy.is_constant and m.zz.is_constant:
+        cos_y = sqrt_value(m.zy * m.zy + m.zz * m.zz)
+        rys = atan2_value(m.zx, cos_y, degrees=degrees)
+        if cos_y < Expr.float(1e-8):
+            # the rotations around X and Z can not be told apart, so do all of it around X
+            rxs = atan2_value(m.yz, m.yy, degrees=degrees)
+            rzs = [Expr.float(0)]
+    else:
+        rys = atan2_value(m.zx, cos_from_sin_value(m.zx), degrees=degrees)
     rx = rxs[0] if len(rxs) == 1 else rxs[0]
     ry = rys[0] if len(rys) == 1 else rys[0]
     rz = rzs[0] if len(rzs) == 1 else rzs[0]
-- 
2.43.0


From c3a1b7499578615bc2aba1f933f54cfdd922bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:59 +0000
Subject: [PATCH 011/106] fix: the sign of the rotation angle around an axis
 does not depend on rounding

---
 src/mccode_antlr/instr/orientation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index c251265..3bca8a6 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -500,11 +500,10 @@ class Part:
         angle = Expr.float(acos_degree(cos_angle))
         axis = Vector(Expr.float(axis[0]), Expr.float(axis[1]), Expr.float(axis[2]))
 
-        # Check that the rotation matrix signs all match:
-        a = axis.cross_matrix()
-        r = Matrix.eye() + a * sin_value(angle, True) + (a * a) * (Expr.float(1) - cos_value(angle, True))
-        # and flip the sign of angle if not:
-        return axis, -angle if any(flat[index] * r[index] < Expr.float(0) for index in range(9)) else angle, 'degrees'
+        # The antisymmetric part of the rotation matrix is sin(angle) A, which decides the sign of the angle:
+        antisymmetric = Vector(flat.zy - flat.yz, flat.xz - flat.zx, flat.yx - flat.xy)
+        two_sin = axis.x * antisymmetric.x + axis.y * antisymmetric.y + axis.z * antisymmetric.z
+        return axis, -angle if two_sin < Expr.float(0) else angle, 'degrees'
 
     def __str__(self):
         x = [f'{x}' for x in self._axes]
-- 
2.43.0


From 38e467d963b71d99cea69245c6bfe185686dd2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:38 +0000
Subject: [PATCH 012/106] fix: a rotation stated to be ABSOLUTE is not taken
 relative to the AT reference

---
 src/mccode_antlr/assembler/assembler.py | 2 ++
 src/mccode_antlr/instr/instance.py      | 9 ++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index af2b993..5a2fe11 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -47,6 +47,8 @@ class Assembler:
 
     def _handle_rotate(self, a=None, at_ref=None) -> tuple[Angles, Union[Instance, None]]:
         rot_tuple, ref = self._handle_at_rotate(a)
+        if a is not None and len(a) == 2 and isinstance(a[1], str) and 'absolute' == a[1].lower():
+            return Angles(*rot_tuple), None
         return Angles(*rot_tuple), ref or at_ref
 
     def component(self, name: str, type_name: str, at=None, rotate=None, parameters=None, **kwargs):
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index e436a05..6cc9778 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -54,7 +54,8 @@ class Instance:
 
         # The "AT ..." statement is required even when it is "AT (0, 0, 0) ABSOLUTE"
         line += rf('AT', self.at_relative, required=True) + ' '
-        line += rf('ROTATED', self.rotate_relative) + wrapper.br()
+        # and a missing "ROTATED ..." statement means "ROTATED (0, 0, 0)" with the reference of the "AT ..." statement
+        line += rf('ROTATED', self.rotate_relative, required=self.at_relative[1] is not None) + wrapper.br()
         print(line, file=output, end='')
 
         if not full:
@@ -101,12 +102,10 @@ class Instance:
             ar, rr = self.at_relative, self.rotate_relative
             if not isinstance(ar[0], Vector) or not isinstance(rr[0], Angles):
                 logger.warning(f'Expected {ar=} and {rr=} to be Vector and Angles respectively')
-            if rr[1] is None and ar[1] is not None:
-                logger.warning(f'Expected rotation reference to be specified when at reference is specified')
             at = ar[0] if isinstance(ar[0], Vector) else Vector(*ar[0])
-            an, ar = (ar[1].name, ar[1].orientation) if ar[1] else ("ABSOLUTE", None)
+            ar = ar[1].orientation if ar[1] else None
             rt = rr[0] if isinstance(rr[0], Angles) else Angles(*rr[0])
-            rn, rr = (rr[1].name, rr[1].orientation) if rr[1] else (an, ar)
+            rr = rr[1].orientation if rr[1] else None
             self.orientation = Orient.from_dependent_orientations(ar, at, rr, rt)
         # check if the defining component is marked noacc, in which case this _is_ cpu only
         if not self.type.acc:
-- 
2.43.0


From 40ddcd34bc7a34588fcbde1b6a152e79af1ec2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:38 +0000
Subject: [PATCH 013/106] fix: positions are not relative to a first component
 which has no transformation

---
 src/mccode_antlr/translators/c_initialise.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index d0582ea..73b5920 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -36,7 +36,8 @@ def _split_xyz_ref(xyz_ref):
 
 
 def cogen_comp_init_position(index, comp, last, instr):
-    ref = None if index == 0 else instr.components[last]
+    # The particle arrives in the coordinate system of the last component with a transformation (if there was one)
+    ref = None if last is None else instr.components[last]
     var = f'_{comp.name}_var'
     lines = [
         f'  /* component {comp.name}={comp.type.name}() AT ROTATED */',
@@ -62,7 +63,7 @@ def cogen_comp_init_position(index, comp, last, instr):
             f'    rot_mul(tr1, _{rel.name}_var._rotation_absolute, {var}._rotation_absolute);'
         ])
     # Sort out relative orientation
-    if index == 0:
+    if ref is None:
         lines.append(f'    rot_copy({var}._rotation_relative, {var}._rotation_absolute);')
     else:
         lines.extend([
@@ -84,7 +85,7 @@ def cogen_comp_init_position(index, comp, last, instr):
             '    tc2 = rot_apply(tr1, tc1);',
             f'    {var}._position_absolute = coords_add(_{rel.name}_var._position_absolute, tc2);'
         ])
-    if index == 0:
+    if ref is None:
         lines.append(f'    tc1 = coords_neg({var}._position_absolute);')
     else:
         lines.append(f'    tc1 = coords_sub(_{ref.name}_var._position_absolute, {var}._position_absolute);')
@@ -230,7 +231,7 @@ def cogen_initialize(source, component_declared_parameters, ok_to_skip):
              "***************************************************************************** */",
              _GETDISTANCE_FCT, ""]
 
-    last = 0
+    last = None
     for idx, comp in enumerate(source.components):
         lines.extend(cogen_comp_setpos(idx, comp, last, source, component_declared_parameters))
         if ok_to_skip is not None and not ok_to_skip[idx]:
-- 
2.43.0


From 4a3252be1f2b011f422c4803082827b2c31daae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 014/106] fix: JUMP PREVIOUS(n) and NEXT(n) raised a TypeError

---
 src/mccode_antlr/instr/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index e6e68d8..d9e06d1 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -238,14 +238,14 @@ class InstrVisitor(McInstrVisitor):
 
     def visitJumpPrevious(self, ctx: McInstrParser.JumpPreviousContext):
         i = ctx.IntegerLiteral()
-        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(i))
+        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(str(i)))
 
     def visitJumpMyself(self, ctx: McInstrParser.JumpMyselfContext):
         return "MYSELF", 0
 
     def visitJumpNext(self, ctx: McInstrParser.JumpNextContext):
         i = ctx.IntegerLiteral()
-        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(i))
+        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(str(i)))
 
     def visitJumpIdentifier(self, ctx: McInstrParser.JumpIdentifierContext):
         return str(ctx.Identifier()), 0
-- 
2.43.0


From 339ff8f461f220f943d00dbbf0c2ea5f028954ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 015/106] fix: JUMP targets are those of the components which
 are there, also for copied components

---
 src/mccode_antlr/instr/instance.py     | 4 ++--
 src/mccode_antlr/instr/jump.py         | 3 +++
 src/mccode_antlr/translators/target.py | 5 +----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 6cc9778..e37476e 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -93,7 +93,7 @@ class Instance:
                    parameters=tuple([par for par in ref.parameters]),
                    when=ref.when, group=ref.group,
                    extend=tuple([ext for ext in ref.extend]),
-                   jump=tuple([jmp for jmp in ref.jump]),
+                   jump=tuple([jmp.copy() for jmp in ref.jump]),
                    metadata=tuple([md for md in ref.metadata]),
                    mode=ref.mode)
 
@@ -227,7 +227,7 @@ class Instance:
         return Instance(self.name, self.type, self.at_relative, self.rotate_relative,
                         orientation=self.orientation, parameters=self.parameters,
                         removable=self.removable, cpu=self.cpu, split=self.split, when=self.when,
-                        group=self.group, extend=self.extend, jump=self.jump, metadata=self.metadata)
+                        group=self.group, extend=self.extend, jump=tuple(j.copy() for j in self.jump), metadata=self.metadata)
 
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 261b35a..3cbaa76 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -10,6 +10,9 @@ class Jump:
     condition: Expr
     absolute_target: int = -1
 
+    def copy(self):
+        return Jump(self.target, self.relative_target, self.iterate, self.condition, self.absolute_target)
+
     def to_file(self, output, wrapper):
         # self.target is one of "PREVIOUS", "PREVIOUS_{i}, "MYSELF", "MYSELF_{i}, "NEXT",
         # or "{component instance identifier}"
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index d2d4f1c..e9c8745 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -219,13 +219,10 @@ class TargetVisitor:
     def set_jump_absolute_targets(self):
         for index, jump in [(i, j) for i, c in enumerate(self.source.components) for j in c.jump]:
             # jump is a dataclass with 'target', 'index', 'iterate', 'condition', and 'actual_target_index'
-            if jump.absolute_target > -1:
-                # Somewhere/something already set the actual target index -- we don't have a choice but to trust it
-                continue
+            # a target index which was set before may be for other components than there are now
             if jump.relative_target == 0 and jump.target.lower() != 'myself':
                 # the target is another named component:
                 jump.absolute_target = [i for i, c in enumerate(self.source.components) if jump.target == c.name][0]
-                jump.relative_target = jump.absolute_target - index
             else:
                 jump.absolute_target = index + jump.relative_target
 
-- 
2.43.0


From c012b58f3189a1192b7b48f3b6a47e8f429f41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 016/106] fix: GROUPs are those of the components which are
 there, also without a parsed file or after copying

---
 src/mccode_antlr/instr/instr.py        | 3 ++-
 src/mccode_antlr/translators/target.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 0acb67b..65cf92d 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -198,6 +198,7 @@ class Instr:
         self.metadata += (m,)
 
     def determine_groups(self):
+        self.groups = {}
         for id, inst in enumerate(self.components):
             if inst.group:
                 if inst.group not in self.groups:
@@ -319,7 +320,7 @@ class Instr:
         copy.initialize = tuple(x.copy() for x in self.initialize)
         copy.save = tuple(x.copy() for x in self.save)
         copy.final = tuple(x.copy() for x in self.final)
-        copy.groups = {k: v.copy() for k, v in self.groups.items()}
+        copy.determine_groups()
         copy.flags = tuple(x for x in self.flags)
         copy.registries = tuple(x for x in self.registries)
         return copy
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index e9c8745..9dfe0ad 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -143,6 +143,7 @@ class TargetVisitor:
                 return self.output
             self.output.close()
         self.output = StringIO()
+        self.source.determine_groups()
         self.info('visit header')
         self.visit_header()
         self.info('visit declare')
-- 
2.43.0


From 9b04ca632ce35adf5ad49d28ac44cdd04d7e5809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 017/106] fix: GROUP members without TRACE, or not executed for
 their WHEN, follow the rules of their GROUP

---
 src/mccode_antlr/translators/c_raytrace.py | 2 ++
 src/mccode_antlr/translators/target.py     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 03adf47..477ba79 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -86,6 +86,8 @@ def cogen_raytrace(source, ok_to_skip):
                 f'      DEBUG_COMP(_{comp.name}_var._name);',
                 '      DEBUG_STATE();'
             ])
+        if comp.group is not None:
+            lines.append('      SCATTERED = 0; /* not by this member of the GROUP */')
         if len(comp.type.trace) or len(comp.extend):
             # WHEN
             if comp.when is not None:
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 9dfe0ad..e9e086a 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -204,6 +204,9 @@ class TargetVisitor:
             # Any component with a TRACE or EXTEND can not be skipped
             if any(not x.is_empty for x in comp.extend) or any(not x.is_empty for x in comp.type.trace):
                 return False
+            # Any component in a GROUP saves and restores the particle in its own coordinates
+            if comp.group is not None:
+                return False
             # Any component jumping elsewhere can not be skipped
             if len(comp.jump):
                 return False
-- 
2.43.0


From de14a0eb55808138f4d80a8d8221f01f542ba580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 018/106] fix: GROUPs in FUNNEL mode: their exit, the
 coordinates of particles which pass by, and what is not SCATTERED is restored

---
 src/mccode_antlr/translators/c_raytrace.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 477ba79..8cb5f4a 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -370,10 +370,10 @@ def cogen_funnel(source, ok_to_skip):
 
         lines.extend([
             f'      // {comp.name}',
-            f'      if (!ABSORBED && _particle->_index == {index+1}) {{',
         ])
         if not ok_to_skip[index]:
             lines.extend([
+                "      if (!ABSORBED) { // also those which pass by this member of a GROUP",
                 "        #ifndef MULTICORE",
                 f"        if (_{comp.name}_var._rotation_is_identity) {{",
                 f"          coords_get(coords_add(coords_set(x,y,z), _{comp.name}_var._position_relative),&x, &y, &z);",
@@ -382,8 +382,13 @@ def cogen_funnel(source, ok_to_skip):
                 "        {",
                 f"          mccoordschange(_{comp.name}_var._position_relative, _{comp.name}_var._rotation_relative, _particle);",
                 '        }',
-                "        _particle_save = *_particle;",
+                '      }',
             ])
+        lines.append(f'      if (!ABSORBED && _particle->_index == {index+1}) {{')
+        if not ok_to_skip[index]:
+            lines.append("        _particle_save = *_particle;")
+        if comp.group is not None:
+            lines.append('        SCATTERED = 0; // not by this member of the GROUP')
         if len(comp.type.trace) or len(comp.extend):
             if comp.when is not None:
                 lines.append(f'    if (({comp.when:p}))  // conditional WHEN')
@@ -400,16 +405,16 @@ def cogen_funnel(source, ok_to_skip):
             ln = group.last.name
             lid = group.last_id
             lines.extend([
-                f'    // GROUP {group.name}: from {group.first.name} [{group.first_id}] to {ln} [{lid}]',
+                f'    // GROUP {group.name}: from {group.first.name} [{group.first_id}] to {ln} [{1+lid}]',
                 # Skip over when SCATTERED in the group:
-                f'    if (SCATTERED) _particle->_index = {lid}; '
+                f'    if (SCATTERED) _particle->_index = {1+lid}; '
                 '// when SCATTERED in GROUP: reach exit of GROUP after {ln}',
                 #
             ])
             if index == lid:
                 lines.append('    else ABSORBED=1; // Not SCATTERED by end of GROUP: removes left events')
             else:
-                lines.append("      else ABSORBED=0; // not SCATTERED within GROUP: always tries next")
+                lines.append('      else particle_restore(_particle, &_particle_save); // not SCATTERED within GROUP: always tries next')
 
         lines.append("        _particle->_index++;")
         lines.append("      }")
-- 
2.43.0


From b2b3c5dea540fb16a36b5b366b4f7980e6ae513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 019/106] fix: the condition of a JUMP ITERATE may be any
 expression

---
 src/mccode_antlr/translators/c_raytrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 8cb5f4a..50e4a6e 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -101,7 +101,7 @@ def cogen_raytrace(source, ok_to_skip):
         for jump in comp.jump:
             if jump.iterate:
                 lines.extend([
-                    f'      if (++_particle->_logic.Jump_{comp.name}_{jump.target} < {jump.condition:p}) {{ /* test for iteration */',
+                    f'      if (++_particle->_logic.Jump_{comp.name}_{jump.target} < ({jump.condition:p})) {{ /* test for iteration */',
                     f'        _particle->_index = {jump.absolute_target};',  # NO -1 despite to ++ below, 0-based target
                     '        _particle->flag_nocoordschange=1; /* pass coordinate transformations when jumping */',
                     '      } else {',
-- 
2.43.0


From 4dabe9a140baf8d3cf73b94c2705724c30439188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 020/106] fix: an MRange has as many values as its length, also
 when only its start is inside, or none is

---
 src/mccode_antlr/run/range.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index b56f36b..cca66e7 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -29,14 +29,7 @@ class MRange:
         return self.stop
 
     def __iter__(self):
-        def range_gen(start, stop, step):
-            v = start
-            i = 0
-            while (step > 0 and v + step <= stop) or (step < 0 and v + step >= stop):
-                v = i * step + start
-                i += 1
-                yield v
-        return range_gen(self.start, self.stop, self.step)
+        return (self[i] for i in range(len(self)))
 
     def __getitem__(self, index: int):
         if index < 0 or index >= len(self):
@@ -50,7 +43,8 @@ class MRange:
         return f'MStyleRange({self})'
 
     def __len__(self):
-        return int((self.stop - self.start) / self.step) + 1
+        from math import floor
+        return max(0, floor((self.stop - self.start) / self.step) + 1)
 
     @classmethod
     def from_str(cls, string):
-- 
2.43.0


From da64d6f74b351c48a00a9cc72540bc5a2c77e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 021/106] fix: parameters of a scan keep their names, lists of
 one value are repeated, the caller's ranges stay as they are

---
 src/mccode_antlr/run/range.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index cca66e7..4f275b7 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -157,13 +157,9 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
     :parameter parameters: A dictionary of ranged parameters.
     :parameter grid: Controls how the parameters are iterated; True implies a grid scan, False implies a linear scan.
     """
-    if grid:
-        for k, v in parameters.items():
-            if isinstance(v, Singular):
-                parameters[k] = Singular(v.value, 1)
-
-    names = [x.lower() for x in parameters.keys()]
-    values = [x if hasattr(x, '__iter__') else [x] for x in parameters.values()]
+    names = list(parameters.keys())
+    values = [[x.value] if isinstance(x, Singular) and (grid or x.maximum is None) else x for x in parameters.values()]
+    values = [x if hasattr(x, '__iter__') and not isinstance(x, str) else [x] for x in values]
     if not len(values):
         return 0, names, []
     elif grid:
@@ -176,12 +172,12 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
         # replace singular MRange entries with Singular iterators, to avoid stopping the zip early:
         n_max = max([len(v) for v in values])
         for i, v in enumerate(values):
-            if len(v) > 1 and len(v) != n_max:
+            if len(v) != 1 and len(v) != n_max:
                 oth = [names[i] for i, n in enumerate(values) if len(n) == n_max]
                 par = 'parameters' if len(oth) > 1 else 'parameter'
                 have = 'have' if len(oth) > 1 else 'has'
                 raise ValueError(f'Parameter {names[i]} has {len(v)} values, but {par} {", ".join(oth)} {have} {n_max}')
-        return n_max, names, zip(*[v if len(v) > 1 else Singular(v[0] if isinstance(v, MRange) else v.value, n_max) for v in values])
+        return n_max, names, zip(*[v if len(v) != 1 else Singular(next(iter(v)), n_max) for v in values])
 
 
 def _MRange_or_Singular(s: str):
-- 
2.43.0


From c8f3f1e2c07e620b40e778ef904c1a4b92dc44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 022/106] fix: each point of a scan is run with its own values

---
 src/mccode_antlr/run/runner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 0a09363..c6bc08c 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -168,6 +168,7 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
     if directory is None:
         from datetime import datetime
         directory = Path(f'{name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
+    directory = Path(directory)
 
     # if there is only one point, we don't need to scan
     if n_pts > 1:
@@ -177,14 +178,13 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
             # TODO Use the following line instead of the one after it when McCode is fixed to use zero-padded folder names
             # # runtime_arguments['dir'] = args["dir"].joinpath(str(number).zfill(n_zeros))
             this_directory = directory.joinpath(str(number))
-            pars = mccode_runtime_parameters(r_args, parameters)
+            pars = mccode_runtime_parameters(args, dict(zip(names, values)))
             r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run)
             results.append((r, d))
         return results
     else:
         directory.parent.mkdir(parents=True, exist_ok=True)
-        print(parameters)
-        pars = mccode_runtime_parameters(args, parameters)
+        pars = mccode_runtime_parameters(args, dict(zip(names, next(iter(scan), ()))))
         return mccode_run_compiled(binary, target, directory, pars, capture=capture, dry_run=dry_run)
 
 
@@ -245,7 +245,7 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     target = dict(
         mpi=args.parallel,
         acc=args.gpu,
-        count=args.process_count,
+        count=args.process_count[0] if args.process_count else 0,
         nexus=False
     )
     runtime = dict(
-- 
2.43.0


From 1a67fb12c93b33bf40f0557ba96def88ab78880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 023/106] fix: the last value of an MRange is not lost to
 rounding

---
 src/mccode_antlr/run/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index 4f275b7..45b1b5c 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -44,7 +44,8 @@ class MRange:
 
     def __len__(self):
         from math import floor
-        return max(0, floor((self.stop - self.start) / self.step) + 1)
+        # the stop value is included, also if the division is not exact: (0.3 - 0) / 0.1 < 3
+        return max(0, floor((self.stop - self.start) / self.step + 1e-9) + 1)
 
     @classmethod
     def from_str(cls, string):
-- 
2.43.0


From 0bb1f1d244179b505496e9abdaa4ab0891a56840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 024/106] fix: the minimum and maximum of a descending MRange

---
 src/mccode_antlr/run/range.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index 45b1b5c..15b1b31 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -22,11 +22,11 @@ class MRange:
 
     @property
     def min(self):
-        return self.start
+        return min(self.start, self.stop)
 
     @property
     def max(self):
-        return self.stop
+        return max(self.start, self.stop)
 
     def __iter__(self):
         return (self[i] for i in range(len(self)))
-- 
2.43.0


From 753de96f11bebc0a656c8f9eb791bbf07029b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 025/106] fix: an instrument which is compiled already can be
 run

---
 src/mccode_antlr/run/runner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index c6bc08c..389ba9d 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -196,6 +196,7 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
                ):
     from os import access, R_OK
     from datetime import datetime
+    from mccode_antlr.compiler.c import CBinaryTarget
     if not isinstance(directory, Path):
         directory = Path(directory)
     if binary_name is not None:
@@ -210,6 +211,8 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
     if not binary_path.exists():
         config = {'enable_trace': trace, 'embed_instrument_file': source, 'verbose': verbose}
         binary_path, target = mccode_compile(instrument, binary_path, generator, target=target, config=config)
+    else:
+        target = CBinaryTarget(**target)
 
     runtime = dict(
         seed=seed,
@@ -228,6 +231,7 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
 
 def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     from pathlib import Path
+    from mccode_antlr.compiler.c import CBinaryTarget
     from mccode_antlr.reader import Reader
     from mccode_antlr.reader import LocalRegistry
     from os import X_OK, R_OK, access
@@ -262,6 +266,7 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     if args.output_file is None and filename.exists() and access(filename, X_OK):
         binary = filename
         name = filename.stem
+        target = CBinaryTarget(**target)
     elif not filename.exists() or not access(filename, R_OK):
         raise RuntimeError(f'{filename} does not exist or is not readable')
     else:
-- 
2.43.0


From c422cb0a0c9e862d489d126f5c8356bb119e152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 026/106] fix: mcstas_run and mcxtrace_run pass their arguments
 where mccode_run expects them

---
 src/mccode_antlr/run/runner.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 389ba9d..d1cd12e 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -311,13 +311,11 @@ def mcxtrace_cmd():
     mccode_run_cmd('mcxtrace', MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
 
 
-def mcstas_run(instrument, directory):
-    from mccode_antlr.reader import MCSTAS_REGISTRY
+def mcstas_run(instrument, directory, parameters: dict | None = None, **kwargs):
     from mccode_antlr.translators.target import MCSTAS_GENERATOR
-    mccode_run(instrument, directory, MCSTAS_REGISTRY, MCSTAS_GENERATOR)
+    mccode_run(instrument, MCSTAS_GENERATOR, parameters or {}, directory, **kwargs)
 
 
-def mcxtrace_run(instrument, directory):
-    from mccode_antlr.reader import MCXTRACE_REGISTRY
+def mcxtrace_run(instrument, directory, parameters: dict | None = None, **kwargs):
     from mccode_antlr.translators.target import MCXTRACE_GENERATOR
-    mccode_run(instrument,  directory, MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
+    mccode_run(instrument, MCXTRACE_GENERATOR, parameters or {}, directory, **kwargs)
-- 
2.43.0


From fcae65623700be44266f1e5641ef656ee481b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 027/106] fix: the first value of a repeated instance parameter
 is retained, the new one dropped

---
 src/mccode_antlr/instr/instance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index e37476e..217088a 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -123,6 +123,7 @@ class Instance:
                 if par.value != value:
                     logger.info(f'  first-encountered value {par.value} retained')
                     logger.info(f'  newly-encountered value {value} dropped')
+                return
             else:
                 raise RuntimeError(f"Multiple definitions of {name} in component instance {self.name}")
         p = self.type.get_parameter(name)
-- 
2.43.0


From 7f4db61a93caa9da93ebec93021ca6db27595e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 028/106] fix: an incompatible value does not remove the one it
 should have replaced

---
 src/mccode_antlr/instr/instance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 217088a..007a6ee 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -114,10 +114,8 @@ class Instance:
     def set_parameter(self, name: str, value, overwrite=False, allow_repeated=True):
         if not parameter_name_present(self.type.define, name) and not parameter_name_present(self.type.setting, name):
             raise RuntimeError(f"Unknown parameter {name} for component type {self.type.name}")
-        if parameter_name_present(self.parameters, name):
-            if overwrite:
-                self.parameters = tuple(x for x in self.parameters if name != x.name)
-            elif allow_repeated:
+        if parameter_name_present(self.parameters, name) and not overwrite:
+            if allow_repeated:
                 par = [p for p in self.parameters if name == p.name][0]
                 logger.info(f'Multiple definitions of {name} in component instance {self.name}')
                 if par.value != value:
@@ -150,6 +148,8 @@ class Instance:
         # TODO: Either add a reference to the containing instrument (and carry that around always)
         #       Or perform this check when it comes time to translate the whole instrument :/
 
+        if overwrite:
+            self.parameters = tuple(x for x in self.parameters if name != x.name)
         self.parameters += (ComponentParameter(p.name, value), )
 
     def verify_parameters(self, instrument_parameters: tuple[InstrumentParameter, ...]):
-- 
2.43.0


From d90fe37d4aee6fa2372ab46cb27af358bfdf351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 029/106] fix: the copy of an instance has its mode

---
 src/mccode_antlr/instr/instance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 007a6ee..3ba2ce1 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -228,7 +228,8 @@ class Instance:
         return Instance(self.name, self.type, self.at_relative, self.rotate_relative,
                         orientation=self.orientation, parameters=self.parameters,
                         removable=self.removable, cpu=self.cpu, split=self.split, when=self.when,
-                        group=self.group, extend=self.extend, jump=tuple(j.copy() for j in self.jump), metadata=self.metadata)
+                        group=self.group, extend=self.extend, jump=tuple(j.copy() for j in self.jump), metadata=self.metadata,
+                        mode=self.mode)
 
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
-- 
2.43.0


From f541ff315152d8ba6a1662d4aba618e3355b909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 030/106] fix: a reference to a component which does not exist
 is an error, not ABSOLUTE

---
 src/mccode_antlr/instr/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index d9e06d1..91c5703 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -261,14 +261,14 @@ class InstrVisitor(McInstrVisitor):
             elif self.destination is not None:
                 return self.destination.last_component(count - instances, removable_ok=True)
             else:
-                logger.error(f'Too large PREVIOUS count {count} for instrument with {instances} component instances')
+                raise RuntimeError(f'Too large PREVIOUS count {count} for instrument with {instances} component instances')
         name = str(ctx.Identifier())
         if any(inst.name == name for inst in self.state.components):
             return self.state.get_component(name)
         elif self.destination is not None:
             return self.destination.get_component(name)
         else:
-            logger.error(f'Unknown component reference for instance named {name}')
+            raise RuntimeError(f'Unknown component reference for instance named {name}')
 
     def visitCoords(self, ctx: McInstrParser.CoordsContext):
         # FIXME 2023-10-16 previously Coordinate parsing forced all returned Expression objects to be floats
-- 
2.43.0


From 3f5a530a9e7032e0c7544ce714cdd44586ca9c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 031/106] fix: MYSELF in an expression is the name of the
 instance

---
 src/mccode_antlr/comp/visitor.py  | 2 +-
 src/mccode_antlr/instr/visitor.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 1eb543a..ed57eab 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -251,7 +251,7 @@ class CompVisitor(McCompVisitor):
 
     def visitExpressionMyself(self, ctx: Parser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.instance.name)
+        return Expr.str(self.instance_name)
 
 
 add_common_visitors(CompVisitor)
\ No newline at end of file
diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 91c5703..219489a 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -378,7 +378,7 @@ class InstrVisitor(McInstrVisitor):
 
     def visitExpressionMyself(self, ctx: McInstrParser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.current_instance.name)
+        return Expr.str(self.current_instance_name)
 
 
 class InstrParametersVisitor(McInstrVisitor):
@@ -432,7 +432,7 @@ class InstrParametersVisitor(McInstrVisitor):
 
     def visitExpressionMyself(self, ctx: McInstrParser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.current_instance.name)
+        return Expr.str(self.current_instance_name)
 
 
 add_common_visitors(InstrVisitor)
-- 
2.43.0


From 8d75306c59d08bc00f2d981da748b4636a34aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 032/106] fix: the category of a component can be an identifier

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index ed57eab..47a39b4 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -41,7 +41,7 @@ class CompVisitor(McCompVisitor):
 
     def visitCategory(self, ctx: Parser.CategoryContext):
         # Return the provided identifier or string literal, minus quotes
-        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifer())
+        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifier())
 
     def visitTraceBlock(self, ctx: Parser.TraceBlockContext):
         self.state.TRACE(self.visit(ctx.unparsed_block()))
-- 
2.43.0


From 607d2dfa24460156a63d5d60d620df87b579307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 033/106] fix: a component can have parameters of type int *

---
 src/mccode_antlr/comp/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 47a39b4..d3b300b 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -121,12 +121,12 @@ class CompVisitor(McCompVisitor):
     def visitComponentParameterIntegerArray(self, ctx: Parser.ComponentParameterIntegerArrayContext):
         from ..common import Value, DataType, ShapeType
         name = str(ctx.Identifier(0))
-        if ctx.assign() is not None and ctx.initializerlist() is not None:
+        if ctx.Assign() is not None and ctx.initializerlist() is not None:
             value = self.visit(ctx.initializerlist())
             value.data_type = DataType.int
         else:
             default = None
-            if ctx.assign() is not None:
+            if ctx.Assign() is not None:
                 default = "NULL"
                 if ctx.Identifier(1) is not None:
                     default = str(ctx.Identifier(1))
-- 
2.43.0


From c5af0009eb2fffa5e8c623c9cdfc2e7d528ae58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 034/106] fix: the DEPENDENCY flags of an instrument, and of
 those it includes, are kept

---
 src/mccode_antlr/instr/visitor.py | 2 ++
 src/mccode_antlr/loader/loader.py | 3 ++-
 src/mccode_antlr/reader/reader.py | 3 ++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 219489a..d854cdc 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -89,6 +89,8 @@ class InstrVisitor(McInstrVisitor):
             self.state.add_parameter(par, ignore_repeated=True)
         for meta in instr.metadata:
             self.state.add_metadata(meta)
+        if len(instr.flags):
+            self.state.flags += instr.flags
         if len(instr.declare):
             self.state.declare += instr.declare
         if len(instr.user):
diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index 5aaffce..d8ef86b 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -22,7 +22,8 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     reader = Reader(registries=registries)
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
-    instr.flags += tuple(reader.c_flags)
+    # flags of an included instrument are there already
+    instr.flags = tuple(dict.fromkeys((*instr.flags, *reader.c_flags)))
     instr.registries += tuple(registries)
     return instr
 
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index c9c35da..896bf42 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -170,6 +170,7 @@ class Reader:
         if not isinstance(res, Instr):
             raise RuntimeError(f'Parsing instrument file {filename} did not produce an Instr object')
         res.source = filename
-        res.flags = tuple(self.c_flags)
+        # the instrument's own flags, and those of the components (also of included instruments), once each
+        res.flags = tuple(dict.fromkeys((*res.flags, *self.c_flags)))
         res.registries = tuple(self.registries)
         return res
-- 
2.43.0


From 57eb71eafdaf66cc26d5f407d128d597edc6e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 035/106] fix: octal, hexadecimal, binary and suffixed literals
 are numbers

---
 src/mccode_antlr/common/visitor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index d262d29..706343f 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -19,7 +19,8 @@ def visitExpressionGrouping(obj, ctx):
     return Expr(UnaryOp('__group__', obj.visit(ctx.expr())))
 
 def visitExpressionFloat(obj, ctx):
-    return Expr.float(str(ctx.FloatingLiteral()))
+    # a C literal can have a suffix
+    return Expr.float(float(str(ctx.FloatingLiteral()).rstrip('fFlL')))
 
 def visitExpressionPointerAccess(obj, ctx):
     pointer = Expr(Value(str(ctx.Identifier()), object_type=ObjectType.identifier))
@@ -42,7 +43,11 @@ def visitExpressionIdentifier(obj, ctx):
     return Expr(Value(name, data_type=dat, object_type=obj))
 
 def visitExpressionInteger(obj, ctx):
-    return Expr.int(str(ctx.IntegerLiteral()))
+    # a C literal can be octal, hexadecimal or binary, and have a suffix
+    digits = str(ctx.IntegerLiteral()).rstrip('uUlL').replace("'", '')
+    if digits[:2].lower() in ('0x', '0b'):
+        return Expr.int(int(digits, 0))
+    return Expr.int(int(digits, 8 if digits.startswith('0') else 10))
 
 def visitExpressionZero(obj, ctx):
     return Expr.int(0)
-- 
2.43.0


From ffa4a939c0016d3209169b4359b5268d70b7a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 036/106] fix: a function can be called without arguments

---
 src/mccode_antlr/common/visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 706343f..b6dec0d 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -64,7 +64,8 @@ def visitExpressionBinaryPM(obj, ctx):
 def visitExpressionFunctionCall(obj, ctx):
     function = Value(str(ctx.Identifier()), object_type=ObjectType.function)
     # `ctx.args` isn't exposed by speedy-antlr-tool, but the function call is
-    args = [obj.visit(arg).expr[0] for arg in ctx.expr()]  # each is a Value, UnaryOp, or BinaryOp?
+    # an empty argument list is matched as one argument without any text
+    args = [obj.visit(arg).expr[0] for arg in ctx.expr() if arg.getText()]  # each is a Value, UnaryOp, or BinaryOp?
     return Expr(BinaryOp('__call__', function, args))
 
 def visitExpressionBinaryMD(obj, ctx):
-- 
2.43.0


From 9da323146e50ed4695ce129e753d10e528b8f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 037/106] fix: text literals keep escaped quotes at their ends

---
 src/mccode_antlr/common/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index b6dec0d..5c567ed 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -146,7 +146,7 @@ def visitExpressionBinaryGreater(obj, ctx):
     return Expr(BinaryOp('__gt__', left, right))
 
 def visitExpressionString(obj, ctx):
-    strings = ''.join(str(sl).strip('"') for sl in ctx.StringLiteral())
+    strings = ''.join(str(sl).partition('"')[2][:-1] for sl in ctx.StringLiteral())
     return Expr.str(f'"{strings}"')
 
 
-- 
2.43.0


From 3f851636f9115c1561b3f2bc5cecd32016c6d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 038/106] fix: an instance made from an instrument has the
 group and removable it is given

---
 src/mccode_antlr/instr/instr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 65cf92d..f748843 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -390,7 +390,7 @@ class Instr:
             component = reader.get_component(component)
             self.flags += tuple(reader.c_flags)
         self.components += (Instance(name, component, at_relative, rotate_relative, orientation,
-                                     parameters, group, removable),)
+                                     parameters, group=group, removable=removable),)
 
     def mcpl_split(self,
                    after,
-- 
2.43.0


From 50ff148428de76e0a345c5f99bada4fa3628860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 039/106] fix: the flags of an instrument keep their order

---
 src/mccode_antlr/instr/instr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index f748843..e2cd443 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -288,14 +288,14 @@ class Instr:
         return flag
 
     @property
-    def unique_flags(self) -> set[str]:
+    def unique_flags(self) -> list[str]:
         # Each 'flag' in self.flags is from a single instrument component DEPENDENCY,
         # and might contain duplicates: If we accept that white space differences
-        # matter, we can deduplicate the strings 'easily'
-        uf = set(self.flags)
+        # matter, we can deduplicate the strings 'easily' -- but their order matters to the linker
+        uf = dict.fromkeys(self.flags)
         if any(inst.cpu for inst in self.components):
-            uf.add('-DFUNNEL')
-        return uf
+            uf['-DFUNNEL'] = None
+        return list(uf)
 
     def decoded_flags(self) -> list[str]:
         # The dependency strings are allowed to contain any of
-- 
2.43.0


From 3e8e3f35ea29cf4398835777724c50a8ee40213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 040/106] fix: backslashes in configured flags are kept

---
 src/mccode_antlr/instr/instr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index e2cd443..f18b29b 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -268,21 +268,21 @@ class Instr:
 
     def _replace_keywords(self, flag):
         from mccode_antlr.config import config
-        from re import sub, findall
+        from re import findall
         if '@NEXUSFLAGS@' in flag:
-            flag = sub(r'@NEXUSFLAGS@', config['flags']['nexus'].as_str_expanded(), flag)
+            flag = flag.replace('@NEXUSFLAGS@', config['flags']['nexus'].as_str_expanded())
         if '@MCCODE_LIB@' in flag:
             print(f'The instrument {self.name} uses @MCCODE_LIB@ dependencies which no longer work.')
             print('Expect problems at compilation.')
-            flag = sub('@MCCODE_LIB@', '.', flag)
+            flag = flag.replace('@MCCODE_LIB@', '.')
         general_re = r'@(\w+)@'
         for replace in findall(general_re, flag):
             # Is this replacement something like XXXFLAGS?
             if replace.lower().endswith('flags') and replace.lower()[:-5] in config['flags']:
-                flag = sub(f'@{replace}@', config['flags'][replace.lower()[:-5]].as_str_expanded(), flag)
+                flag = flag.replace(f'@{replace}@', config['flags'][replace.lower()[:-5]].as_str_expanded())
             elif replace.lower().endswith('flags'):
                 # Punt, and just replace with the lowercase version of the keyword -- hopefully this was intended
-                flag = sub(f'@{replace}@', f'-l{replace.lower()[:-5]}', flag)
+                flag = flag.replace(f'@{replace}@', f'-l{replace.lower()[:-5]}')
             else:
                 logger.warning(f'Unknown keyword @{replace}@ in dependency string')
         return flag
-- 
2.43.0


From 759c1a2b4dc66e3df41cfcde2215c194f47703d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 041/106] fix: updating a target keeps NeXus unless told
 otherwise

---
 src/mccode_antlr/compiler/c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index c84b0a0..5f7b87e 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -33,6 +33,7 @@ class CBinaryTarget:
         self.count = d.get('count', self.count)
         d_mpi = d.get('mpi', self.type & CBinaryTarget.Type.mpi)
         d_acc = d.get('acc', self.type & CBinaryTarget.Type.acc)
+        d_nexus = d.get('nexus', self.type & CBinaryTarget.Type.nexus)
         if d_mpi and d_acc:
             self.type = CBinaryTarget.Type.acc | CBinaryTarget.Type.mpi
         elif d_mpi:
@@ -41,7 +42,7 @@ class CBinaryTarget:
             self.type = CBinaryTarget.Type.acc
         else:
             self.type = CBinaryTarget.Type.single
-        if d.get('nexus', self.type & CBinaryTarget.Type.nexus):
+        if d_nexus:
             self.type |= CBinaryTarget.Type.nexus
 
     @property
-- 
2.43.0


From a0221d21c7b0f36ff89221778b0fc68c11ae94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 042/106] fix: definitions of instrument parameters in SAVE
 were not closed

---
 src/mccode_antlr/translators/c_save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_save.py b/src/mccode_antlr/translators/c_save.py
index b4eeb49..4fdcd61 100644
--- a/src/mccode_antlr/translators/c_save.py
+++ b/src/mccode_antlr/translators/c_save.py
@@ -22,7 +22,7 @@ def cogen_save(source, declared_parameters):
         ])
         for par in source.parameters:
             # ensure there's no conflict of names
-            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name}')
+            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name})')
         for block in source.save:
             lines.append(block.to_c())
         for par in source.parameters:
-- 
2.43.0


From 3c8c77c80b631b3c54b776ecff7a66d8f375133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 043/106] fix: instrument parameters as elements of vectors

---
 src/mccode_antlr/translators/c_initialise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 73b5920..ff065de 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -136,7 +136,9 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
                 c_type = par.value.mccode_c_type.translate(str.maketrans('', '', ' *'))  # strip the trailing ' *'
                 pl.append(f'  {fullname} = calloc(sizeof({c_type}), {len(p.value.value)});')
                 for i, v in enumerate(p.value.value):
-                    pl.append(f'  {fullname}[{i}] = {v};')
+                    # elements can be names of instrument parameters
+                    prefix = '_instrument_var._parameters.' if isinstance(v, str) and instr.has_parameter(v) else ''
+                    pl.append(f'  {fullname}[{i}] = {prefix}{v};')
             elif p.value.is_id:
                 pl.append(f'  {fullname} = {value};')
             else:
-- 
2.43.0


From 7d120c73e5c4755cd75b408299ae27940e0e10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 044/106] fix: texts with characters outside of ASCII were cut

---
 src/mccode_antlr/translators/c_initialise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index ff065de..7d98620 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -126,8 +126,9 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
                     '  }',
                 ])
             elif p.value.has_value and p.value.value != '0' and p.value.value != 'NULL' and p.value.value != '""':
-                # len(value)-1 to remove quotes, but copy null terminator
-                pl.append(f'  stracpy({fullname}, {value}, {len(p.value.value)-1});')
+                # number of bytes -1 to remove quotes, but copy null terminator
+                size = min(len(p.value.value.encode('utf-8')) - 1, 16384)
+                pl.append(f'  stracpy({fullname}, {value}, {size});')
             else:
                 pl.append(f"  {fullname}[0] = '\\0';")
         elif default.value.is_vector or p.value.is_vector:
-- 
2.43.0


From 4314807897092ebe9cc8d97ab219a5ad19b126e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 045/106] fix: initializers of private arrays and structures
 with nested braces, calls or texts

---
 src/mccode_antlr/translators/c_initialise.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 7d98620..dc2fdec 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -203,13 +203,14 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
         # c_dec is a CDeclare named tuple with (name, type, init, is_pointer, is_array, orig)
         initialized_value = 'NULL' if (c_dec.is_pointer and c_dec.init is None) else c_dec.init
         fullname = f'_{comp.name}_var._parameters.{c_dec.name}'
-        if c_dec.is_array and initialized_value is not None:
-            for i, val in enumerate(initialized_value.strip('{}').split(',')):
-                lines.append(f'  {fullname}[{i}] = {val.strip()};')
-        # elif c_dec.is_struct and initialized_value is not None:
-        #     # deal with a structured initializer ...
-        #     # = {.x=#, .y=#, ...}
-        #     pass
+        if c_dec.is_array:
+            # arrays can not be assigned, a temporary array takes any kind of initializer (nested, texts, calls, ...)
+            if c_dec.init is not None:
+                lines.append(f'  {{ {c_dec.as_struct_member()} = {c_dec.init}; '
+                             f'memcpy({fullname}, {c_dec.name}, sizeof({c_dec.name})); }}')
+        elif initialized_value is not None and initialized_value.startswith('{'):
+            # an initializer in braces is no value which can be assigned
+            lines.append(f'  {{ {c_dec.as_struct_member()} = {initialized_value}; {fullname} = {c_dec.name}; }}')
         elif initialized_value is not None:
             lines.append(f'  {fullname} = {initialized_value};')
     # >>> End of second call to `cogen_comp_init_par`
-- 
2.43.0


From 46282defa3bfb34068f6d8826ea0fadc1a27b44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 046/106] fix: texts of parameters in the NeXus output

---
 src/mccode_antlr/translators/c_initialise.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index dc2fdec..5df4852 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -101,7 +101,7 @@ def cogen_comp_init_position(index, comp, last, instr):
 
 
 def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
-    from ..common import Expr
+    from ..common.utilities import escape_str_for_c
 
     def parameter_line(default):
         # cogen_comp_init_par skipped any parameters which had "val" which evaluates False
@@ -172,8 +172,10 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
             dstr = f'{default.value:p}'
             vstr = f'{p.value:p}'
             tstr = f'"{default.value.mccode_c_type}"'
-            if not (default.value.is_str or p.value.is_str):
-                dstr, vstr = [f'"{x}"' for x in (dstr, vstr)]
+            is_text = default.value.is_str or p.value.is_str
+            # what is not a text in C is written as one, and so is a missing value
+            dstr, vstr = [x if is_text and (v.has_value or not v.is_constant) else f'"{escape_str_for_c(x)}"'
+                          for x, v in ((dstr, default.value), (vstr, p.value))]
             lns.append(f'    mccomp_param_nexus(nxhandle, {gstr}, "{default.name}", {dstr}, {vstr}, {tstr});')
 
         return '\n'.join(lns + ['    );','    }','  }', '#endif'])
-- 
2.43.0


From 3d2b53d1656ce7e3cfa3908175aa5b5fe6895875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 047/106] fix: characters outside of ASCII in C texts

---
 src/mccode_antlr/common/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/utilities.py b/src/mccode_antlr/common/utilities.py
index 8ebe4fb..ee35d3c 100644
--- a/src/mccode_antlr/common/utilities.py
+++ b/src/mccode_antlr/common/utilities.py
@@ -1,4 +1,7 @@
 def escape_str_for_c(s: str):
     if s is None:
         return ''
-    return s.encode('unicode-escape').decode('utf-8').replace('"', r'\"')
+    known = {'\\': r'\\', '"': r'\"', '\n': r'\n', '\t': r'\t', '\r': r'\r'}
+    # other characters as octal escapes of their bytes, which (unlike \x) always end after three digits
+    return ''.join(known.get(c) or (c if ' ' <= c <= '~' else ''.join(f'\\{b:03o}' for b in c.encode('utf-8')))
+                   for c in s)
-- 
2.43.0


From 91dd19599528a15fafaadc7f82474b100a511784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 048/106] fix: quoted names of metadata in the table of
 metadata

---
 src/mccode_antlr/translators/c_decls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 65c713e..feefcc1 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -80,7 +80,8 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
     def metadata_table():
         def one_line(defined_by, name, mimetype, value):
             from ..common.utilities import escape_str_for_c
-            return f' {{"{defined_by}", "{name}", "{mimetype}", "{escape_str_for_c(value)}"}}, '
+            entries = ', '.join(f'"{escape_str_for_c(x)}"' for x in (defined_by, name, mimetype, value))
+            return f' {{{entries}}}, '
 
         metadata = source.collect_metadata()
         lines = ['struct metadata_table_struct metadata_table[] = {']
-- 
2.43.0


From 3125638f76ee5117da56e129ecb0545c5bc92018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 049/106] fix: instrument parameters without default had the
 default None, quotes in defaults and units

---
 src/mccode_antlr/translators/c_decls.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index feefcc1..5b5a1b3 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -62,17 +62,19 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
     def instrument_parameters_table():
         def nps(x):
             """`None`-protected (single) double-quoted string"""
+            import re
+            from ..common.utilities import escape_str_for_c
             z = '' if x is None else f'{x}'
-            if z == '"':
-                logger.info('single double-quote found in parameter value -- escaping to avoid C syntax error')
-                z = '\"'
-            return z if len(z) and z[0] == '"' and z[-1] == '"' else f'"{z}"'
+            return z if re.fullmatch(r'"(?:[^"\\\n]|\\.)*"', z) else f'"{escape_str_for_c(z)}"'
 
         def one_line(name, typename, value, unit):
             return f'  {{"{name}", &(_instrument_var._parameters.{name}), {typename}, {nps(value)}, {nps(unit)}}},'
 
+        def default(p):
+            return None if p.value.is_constant and not p.value.has_value else p.value
+
         lines = [f'int numipar = {len(source.parameters)};', 'struct mcinputtable_struct mcinputtable[] = {']
-        lines.extend([one_line(p.name, p.value.mccode_c_type_name, p.value, p.unit) for p in source.parameters])
+        lines.extend([one_line(p.name, p.value.mccode_c_type_name, default(p), p.unit) for p in source.parameters])
         lines.extend(['  {NULL, NULL, instr_type_double, "", ""}'])
         lines.append("};")
         return '\n'.join(lines)
-- 
2.43.0


From ed0b58c5b38327457d4a9d34d708287913d16aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 050/106] fix: messages of SAVE and DISPLAY named the place of
 other sections

---
 src/mccode_antlr/translators/c_display.py | 2 +-
 src/mccode_antlr/translators/c_save.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_display.py b/src/mccode_antlr/translators/c_display.py
index 671d8c1..6cb3747 100644
--- a/src/mccode_antlr/translators/c_display.py
+++ b/src/mccode_antlr/translators/c_display.py
@@ -71,7 +71,7 @@ def cogen_comp_display_class(comp, declared_parameters):
         f'void class_{comp.name}_display(_class_{comp.name} *_comp) {{',
         cogen_parameter_define(comp, declared_parameters)
     ]
-    f, n = comp.display[0].fn if len(comp.final) else (comp.name, 0)
+    f, n = comp.display[0].fn if len(comp.display) else (comp.name, 0)
     lines.append(f'  SIG_MESSAGE("[_{comp.name}_display] component NULL={comp.name}() [{f}:{n}]");')
     lines.append('  printf("MCDISPLAY: component %s\\n", _comp->_name);')
 
diff --git a/src/mccode_antlr/translators/c_save.py b/src/mccode_antlr/translators/c_save.py
index 4fdcd61..6636ada 100644
--- a/src/mccode_antlr/translators/c_save.py
+++ b/src/mccode_antlr/translators/c_save.py
@@ -54,7 +54,7 @@ def cogen_comp_save_class(comp, declared_parameters):
         f'void class_{comp.name}_save(_class_{comp.name} *_comp) {{',
         cogen_parameter_define(comp, declared_parameters)
     ]
-    f, n = comp.initialize[0].fn if len(comp.initialize) else (comp.name, 0)
+    f, n = comp.save[0].fn if len(comp.save) else (comp.name, 0)
     lines.append(f'  SIG_MESSAGE("[_{comp.name}_save] component NULL={comp.name}() [{f}:{n}]");')
 
     for block in comp.save:
-- 
2.43.0


From 7fc57c2960f37e0af9ab89c140b49feb6569b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 051/106] fix: the value of a vector parameter given as call or
 other operation was NULL

---
 src/mccode_antlr/translators/c_initialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 5df4852..b0e69f5 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -140,7 +140,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
                     # elements can be names of instrument parameters
                     prefix = '_instrument_var._parameters.' if isinstance(v, str) and instr.has_parameter(v) else ''
                     pl.append(f'  {fullname}[{i}] = {prefix}{v};')
-            elif p.value.is_id:
+            elif p.value.is_id or p.value.is_op:
                 pl.append(f'  {fullname} = {value};')
             else:
                 # it's a string (if not None), and should be an identifier that is a pointer to the data
-- 
2.43.0


From f171e13de4ee709adcf7fb80fab10b318f56484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 052/106] fix: arrays with texts, calls or fewer braces as
 initializers

---
 src/mccode_antlr/translators/c_listener.py | 34 +++++++++++++++-------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 38e7d26..3dec50b 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -170,11 +170,11 @@ class CDeclarator:
 
     def as_struct_member(self, dims: int = 0, max_array_length: int = 16384):
         if self.init:
-            max_array_length = extract_initializer_size(self.init)
+            max_array_length = extract_initializer_size(self.init) or max_array_length
         dims = len(self.elements) if self.elements else 0
         mal = max_array_length if isinstance(max_array_length, tuple) else (max_array_length,)
         if len(mal) < dims:
-            mal *= dims // len(mal)
+            mal += mal[-1:] * (dims - len(mal))
         no = self.elements if self.elements else mal
         if not isinstance(no, tuple):
             raise RuntimeError(f'{no} should be a tuple but is a {type(no)}')
@@ -184,7 +184,7 @@ class CDeclarator:
             if 0 in no:
                 # Is this a bad idea?
                 no = tuple(m if x == 0 else x for x, m in zip(no, mal))
-            return f"{self}{''.join(f'[{n}]' for n in no)}"
+            return self.string(f"{self.declare}{''.join(f'[{n}]' for n in no)}")
         return str(self)
 
 
@@ -200,13 +200,27 @@ def extract_initializer_size(init: str) -> tuple[int,...]:
     (4, 2, 1)
     """
     import re
-    size = []
-    inner = re.compile('{([^{}]*)}')
-    x = init
-    while len(y:=inner.findall(x)):
-        size.append(len(y[0].split(',')))
-        x = inner.sub('_', x)
-    return tuple(reversed(size))
+    text = r'"(?:[^"\\]|\\.)*"'
+    x = init.strip()
+    if re.fullmatch(rf'(?:{text}\s*)+', x):
+        # a text initializes an array of its characters and the terminating null character
+        chars = re.compile(r'\\(?:[0-7]{1,3}|x[0-9a-fA-F]+|.)|.')
+        parts = [chars.findall(y[1:-1]) for y in re.findall(text, x)]
+        return 1 + sum(len(c.encode('utf-8')) if c[0] != '\\' else 1 for part in parts for c in part),
+    if not x.startswith('{'):
+        return ()
+    # split at commas which are not inside of texts, braces, brackets or calls
+    elements, depth = [''], 0
+    for token in re.findall(text + r"|'(?:[^'\\]|\\.)*'|.", x[1:-1], re.DOTALL):
+        if token == ',' and depth == 0:
+            elements.append('')
+            continue
+        depth += (token in '({[') - (token in ')}]')
+        elements[-1] += token
+    elements = [e for e in elements if len(e.strip())]
+    inner = [extract_initializer_size(e) for e in elements]
+    longest = max((len(i) for i in inner), default=0)
+    return len(elements), *[max(i[n] for i in inner if n < len(i)) for n in range(longest)]
 
 
 class DeclaresCVisitor(CVisitor):
-- 
2.43.0


From 1d194405ba5fdec451ede4a80df7aa6a6ae6665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 053/106] fix: names which are repeated in the size of an
 array, parentheses in arguments of function pointers

---
 src/mccode_antlr/translators/c_listener.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 3dec50b..1dada8f 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -369,10 +369,11 @@ class DeclaresCVisitor(CVisitor):
             return literal_string(ctx)
 
         dd = ctx.directDeclarator()
-        after_dd_str = literal_string(ctx).replace(literal_string(dd), '')
+        # only the start of the text is the direct declarator, which can be repeated behind, e.g., in a[a_max]
+        after_dd_str = ctx.start.getInputStream().getText(dd.stop.stop + 1, ctx.stop.stop).strip()
         dec = self.visit(dd)
         if isinstance(dec, CFuncPointer):
-            dec.args = after_dd_str.strip('()')
+            dec.args = after_dd_str[1:-1]
             return dec
         return dec + after_dd_str
 
-- 
2.43.0


From 1ddf4c69098c86d1a91e9157d9a28ee9cc63d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 054/106] fix: declarations of which only one is an array or
 pointer or is initialized are not equal

---
 src/mccode_antlr/translators/c_listener.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 1dada8f..8d2470a 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -48,9 +48,7 @@ TCDeclarator = TypeVar('TCDeclarator', bound='CDeclarator')
 TCFuncPointer = TypeVar('TCFuncPointer', bound='CFuncPointer')
 
 def not_both_None_or_not_equal(a, b):
-    if (a is None and b is not None) or (a is not None and b is None):
-        return False
-    return a is not None and b is not None and a != b
+    return a != b
 
 def same_type(a, b):
     return type(a) == type(b)
-- 
2.43.0


From b353feb09eed223a341c8bd3dc25e3f22750f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 055/106] fix: aliases of typedefs for pointers, arrays and
 functions

---
 src/mccode_antlr/translators/c_listener.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 8d2470a..e10875e 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -251,12 +251,11 @@ class DeclaresCVisitor(CVisitor):
             #   typedef typeInformation aliasIdentifier;
             if specs[0] != 'typedef':
                 self.debug(f"Expected typedef ... identifier; not\n{literal_string(ctx)}")
-            if len(inits):
-                self.debug(f'Expected no initializer with typedef, but found {inits}')
-            alias = specs[-1]
-            if alias in self.typedefs:
-                self.info(f'Re-definition of typedef alias {alias}?')
-            self.typedefs.append(alias)
+            # the aliases are declarators if they are, e.g., pointers or arrays
+            for alias in [decl.name for decl, _ in inits] or [specs[-1]]:
+                if alias in self.typedefs:
+                    self.info(f'Re-definition of typedef alias {alias}?')
+                self.typedefs.append(alias)
         elif len(inits):
             for decl, init in inits:
                 decl.dtype = ' '.join(specs)
-- 
2.43.0


From dbd3637a006df31ad44cd370ee233901252bb7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 056/106] fix: missing size next to a named size of arrays;
 closing of __typeof__

---
 src/mccode_antlr/translators/c_listener.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index e10875e..c92376d 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -281,7 +281,7 @@ class DeclaresCVisitor(CVisitor):
         if (c := ctx.typedefName()) is not None:
             return self.visit(c)
         if (c := ctx.constantExpression()) is not None:
-            return f'__typeof__({self.visit(c)}'
+            return f'__typeof__({self.visit(c)})'
         return literal_string(ctx)
 
     # Keep going from here
@@ -346,11 +346,9 @@ class DeclaresCVisitor(CVisitor):
                 nums += (num,)
                 if '[' in post:
                     _, post = post.split('[', 1)
-            try:
-                elements = tuple(int(n) if len(n) else 0 for n in nums)
-            except ValueError as er:
-                logger.info(f"Could not convert an integer from {nums} due to {er}")
-                elements = nums
+            # the size can be missing, a number, or anything else which is known by the C compiler
+            nums = [n.strip() for n in nums]
+            elements = tuple(int(n) if n.isdecimal() else n if len(n) else 0 for n in nums)
         return CDeclarator(pointer=ptr, declare=dec, extensions=extensions, elements=elements)
 
     def visitPointer(self, ctx:CParser.PointerContext):
-- 
2.43.0


From 63acd5654cf750b543571c32da95fbcef742a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 057/106] fix: user variables which are arrays

---
 src/mccode_antlr/translators/c_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index 860b95b..3d6632c 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -38,7 +38,7 @@ def header_pre_runtime(
     # Also store these strings in the appropriate instrument list for later def/undef as state variables
 
     uservar_string = '//user variables and comp - injections:\n' if len(uservars) else ''
-    uservar_string += '\n'.join([f'  {x};' for x in uservars])
+    uservar_string += '\n'.join([f'  {x.as_struct_member()};' for x in uservars])
 
     members = list(accessible_struct_members(is_mcstas)) + [x.name for x in uservars]
     # Shouldn't we exclude array-valued names here?
-- 
2.43.0


From a0e5b084ea81876baa5a0e7e21c7b397c0575d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 058/106] fix: order of libraries which include each other

---
 src/mccode_antlr/translators/c.py | 65 +++++++++----------------------
 1 file changed, 19 insertions(+), 46 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 262b0be..04d03bb 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -20,55 +20,28 @@ class CInclude:
     def __str__(self):
         return f'{self.root}:{self.parent}({self.order}):{self.name}'
 
-    def __lt__(self, other):
-        if self.parent == other.parent:
-            return self.order > other.order
-        if self.root or other.root:
-            if self.parent == self.root or self.parent == other.root:
-                return True
-            if other.parent == self.root or other.parent == other.root:
-                return False
-        if self.parent == other.name:
-            return False
-        if other.parent == self.name:
-            return True
-        return self.name < other.name
-
 
 def sort_include_hierarchy(includes: list[CInclude]):
-    if len(includes) == 0:
-        return []
+    """Each library once, after all libraries which it includes itself
+
+    If A includes B and C, and C includes B, the result is [C:B, A:C]
+    """
     logger.debug(f'sort includes {" ".join(str(x) for x in includes)}')
-    # find the 'root' of the tree, a parent which is _not_ a named include:
-    roots = list(set([x.parent for x in includes]).difference(set([x.name for x in includes])))
-    options = {}
-    for root in roots:
-        for include in includes:
-            include.root = root
-        # Sort the includes such that if A includes B and C, and C includes B, then we get [C:B, A:C, A:B]
-        # Or a more complicated case: G:(Z,A,W), Z:(B,Y), A:X, W(Y) -> [Z:Y, W:Y, A:X, B:W, Z:B, G:A, G:Z, G:W]
-        used, output = [], []
-        for include in sorted(includes, reverse=True):
-            if include.name not in used:
-                output.append(include)
-                used.append(include.name)
-        # Reduce output to [C:B, A:C], or [Z:Y, A:X, B:W, Z:B, G:A, G:Z], which would include the libraries correctly
-        # Double check, that the include order does not _directly_ contradict one of the include directives:
-        order = [x.name for x in output]
-        contradicts = False
-        for include in includes:
-            if include.parent in order and include.name in order:
-                parent_at = [index for index, name in enumerate(order) if name == include.parent][0]
-                name_at = [index for index, name in enumerate(order) if name == include.name][0]
-                if name_at > parent_at:
-                    contradicts = True
-        if not contradicts:
-            logger.debug(f"sorted to {'  '.join(order)}")
-            options[root] = output
-    if len(options) == 0:
-        raise RuntimeError(f'No valid sorting of {includes=}')
-    # Maybe there's a case where the specified root matters?
-    return list(options.values())[0]
+    used, output = set(), []
+
+    def add(include):
+        if include.name in used:
+            return
+        used.add(include.name)
+        for needed in includes:
+            if needed.parent == include.name:
+                add(needed)
+        output.append(include)
+
+    for include in includes:
+        add(include)
+    logger.debug(f"sorted to {'  '.join(x.name for x in output)}")
+    return output
 
 
 class CTargetVisitor(TargetVisitor, target_language='c'):
-- 
2.43.0


From 66a31d8ed91265eb6be7efbde6e856795e2575d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 059/106] fix: local variables of functions are no declared
 variables

---
 src/mccode_antlr/translators/c_listener.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index c92376d..cc58e15 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -284,6 +284,10 @@ class DeclaresCVisitor(CVisitor):
             return f'__typeof__({self.visit(c)})'
         return literal_string(ctx)
 
+    def visitFunctionDefinition(self, ctx:CParser.FunctionDefinitionContext):
+        # what is declared inside of a function is not known outside of it
+        return None
+
     # Keep going from here
     def visitTypeQualifier(self, ctx:CParser.TypeQualifierContext):
         self.debug(f'typeQualifier {literal_string(ctx)}')
-- 
2.43.0


From 7cf30f836f139d6841b4d08470e160083b4d1530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 060/106] fix: evaluating C code changes the given expressions

---
 src/mccode_antlr/translators/c_listener.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index cc58e15..394e6ac 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -452,7 +452,7 @@ def evaluate_c_defined_variables(
     from ..grammar import McInstr_parse, McInstr_ErrorListener
     from ..common import Expr, DataType
     lines = [f'{line};' for line in initialized_in.split(';') if len(line.strip())]
-    found = {} if known is None else known
+    found = {} if known is None else dict(known)
     for line in lines:
         tree = McInstr_parse(InputStream(line), 'assignment', make_error_listener(McInstr_ErrorListener, line))
         visitor = EvalCVisitor(found=found, verbose=verbose)
@@ -460,7 +460,7 @@ def evaluate_c_defined_variables(
         found = visitor.assigned
 
     def get_found(name, data_type):
-        expr = found.get(name, Expr.id(name)).simplify()
+        expr = found.get(name, Expr.id(name)).simplify().copy()
         if expr.is_singular:
             expr.data_type = DataType.from_name(data_type)
         return expr
-- 
2.43.0


From d88bb1fb41e4b2b0273a7c2dee6bf055c6c6b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 061/106] fix: comments and texts in evaluated C code

---
 src/mccode_antlr/translators/c_listener.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 394e6ac..38a7821 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -448,10 +448,14 @@ def evaluate_c_defined_variables(
         verbose=False
 ):
     """Evaluate individual statements from C-like source in an attempt to find values for the provided variables"""
+    import re
     from antlr4 import InputStream
     from ..grammar import McInstr_parse, McInstr_ErrorListener
     from ..common import Expr, DataType
-    lines = [f'{line};' for line in initialized_in.split(';') if len(line.strip())]
+    # comments are no statements, and semicolons in texts do not end one
+    text = r'"(?:[^"\\]|\\.)*"'
+    code = re.sub(rf'({text})|//[^\n]*|/\*.*?\*/', lambda m: m.group(1) or ' ', initialized_in, flags=re.DOTALL)
+    lines = [f'{line};' for line in re.findall(rf'(?:{text}|[^;"])+', code) if len(line.strip())]
     found = {} if known is None else dict(known)
     for line in lines:
         tree = McInstr_parse(InputStream(line), 'assignment', make_error_listener(McInstr_ErrorListener, line))
-- 
2.43.0


From 9478d75dd036930bcd240dd2e3e5276f820dfbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 062/106] fix: comments inside of declarations in C code

---
 src/mccode_antlr/translators/c_listener.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 38a7821..cd96f87 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -9,7 +9,16 @@ from ..common import Expr
 
 def string_between_tokens(start_token, stop_token):
     stream = start_token.getInputStream()
-    return stream.getText(start_token.start, stop_token.stop)
+    return without_comments(stream.getText(start_token.start, stop_token.stop))
+
+
+def without_comments(code: str):
+    """Each comment of C code is as good as a space"""
+    if '//' not in code and '/*' not in code:
+        return code
+    import re
+    keep = r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\''
+    return re.sub(rf'({keep})|//[^\n]*|/\*.*?\*/', lambda m: m.group(1) or ' ', code, flags=re.DOTALL).strip()
 
 
 def literal_string(ctx, until=None):
@@ -369,7 +378,7 @@ class DeclaresCVisitor(CVisitor):
 
         dd = ctx.directDeclarator()
         # only the start of the text is the direct declarator, which can be repeated behind, e.g., in a[a_max]
-        after_dd_str = ctx.start.getInputStream().getText(dd.stop.stop + 1, ctx.stop.stop).strip()
+        after_dd_str = without_comments(ctx.start.getInputStream().getText(dd.stop.stop + 1, ctx.stop.stop)).strip()
         dec = self.visit(dd)
         if isinstance(dec, CFuncPointer):
             dec.args = after_dd_str[1:-1]
@@ -452,10 +461,9 @@ def evaluate_c_defined_variables(
     from antlr4 import InputStream
     from ..grammar import McInstr_parse, McInstr_ErrorListener
     from ..common import Expr, DataType
-    # comments are no statements, and semicolons in texts do not end one
-    text = r'"(?:[^"\\]|\\.)*"'
-    code = re.sub(rf'({text})|//[^\n]*|/\*.*?\*/', lambda m: m.group(1) or ' ', initialized_in, flags=re.DOTALL)
-    lines = [f'{line};' for line in re.findall(rf'(?:{text}|[^;"])+', code) if len(line.strip())]
+    # semicolons in texts do not end a statement
+    statements = re.findall(r'(?:"(?:[^"\\]|\\.)*"|[^;"])+', without_comments(initialized_in))
+    lines = [f'{line};' for line in statements if len(line.strip())]
     found = {} if known is None else dict(known)
     for line in lines:
         tree = McInstr_parse(InputStream(line), 'assignment', make_error_listener(McInstr_ErrorListener, line))
-- 
2.43.0


From c7475dfa4db26e2f6e7526b3168694c8677e44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 063/106] fix: libraries included by included files

---
 src/mccode_antlr/translators/c.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 04d03bb..c3b2246 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -87,29 +87,20 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
 
         # If there are any non-library includes remaining, we should insert them immediately:
         matches = list(re_inc.finditer(raw_c))
-        count = 0
         while len(matches):
-            count += 1
             # matches[0] is a re.Match object with (start, stop) = matches[0].span(0) including the full matched string
             # We can use this directly to replace the match without using re.sub, which can cause problems if there are
             # escape characters in the replacement (It seems)
             start, stop = matches[0].span(0)
-            raw_c = raw_c[:start] + self._file_contents(matches[0].group('filename')) + raw_c[stop:]
-
-            #filename = matches[0].group('filename')
-            #this_re = re.compile(rf'^\s*%include\s*"{filename}"\s*$', re.MULTILINE)
-            #logger.info(f'Replacing {this_re} with file contents from {filename}')
-            #raw_c = re.sub(this_re, self._file_contents(filename, True), raw_c)
+            # The included file can include libraries and files itself
+            found_includes, contents = self._handle_raw_c_include(parent, self._file_contents(matches[0].group('filename')))
+            includes.extend(found_includes)
+            includes = list(dict.fromkeys(includes))
+            raw_c = raw_c[:start] + contents + raw_c[stop:]
 
             # re-match since we modified raw_c
             matches = list(re_inc.finditer(raw_c))
 
-        if count:
-            found_includes, raw_c = self._handle_raw_c_include(parent, raw_c)
-            if len(found_includes):
-                includes.extend(found_includes)
-                includes = list(dict.fromkeys(includes))
-
         return includes, raw_c
 
     def _parse_libraries_for_typedefs(self):
-- 
2.43.0


From c63bf5a607e2dc298764d8cd72ef295f66428e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 064/106] fix: libraries included by the sources of several
 libraries

---
 src/mccode_antlr/translators/c.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index c3b2246..23bc43b 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -299,11 +299,13 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
         lib_names = [lib.name for lib in self.includes]
         c_name = f'{source.name}.c'
         c_libraries, c_content = self._handle_raw_c_include(c_name, self._file_contents(c_name))
-        for c_lib in [c_lib for c_lib in c_libraries if c_lib.name not in lib_names]:
+        new_libraries = [c_lib for c_lib in sort_include_hierarchy(c_libraries) if c_lib.name not in lib_names]
+        self.includes.extend(new_libraries)
+        for c_lib in new_libraries:
             logger.info(f'{c_name} requested {c_lib.name} but is has not been included yet!')
             self.include_header(c_lib)
+        for c_lib in new_libraries:
             self.include_source(c_lib)
-            #self.includes.append(c_lib)
         self.out(f'/* Contents of {source.name}.c (requested from {source.parent}) */')
         self.out(c_content)
 
@@ -322,7 +324,8 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
 
         self.info('Include runtime / list dependencies')
         if self.config.get('include_runtime'):
-            for include in self.includes:
+            # a source can include more libraries, including their sources
+            for include in list(self.includes):
                 self.include_source(include)
         else:
             for include in self.includes:
-- 
2.43.0


From a4352946bb040bade61ddce7637390a494210620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 065/106] fix: SPLIT and REMOVABLE of written instances

---
 src/mccode_antlr/instr/instance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 3ba2ce1..83fea17 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -38,11 +38,14 @@ class Instance:
         return f'Instance({self.name}, {self.type.name})'
 
     def to_file(self, output, wrapper=None, full=True):
+        if self.removable:
+            print(wrapper.line('REMOVABLE', []), file=output, end='')
         if self.cpu:
             print(wrapper.line('CPU', []), file=output, end='')
 
         instance_parameters = wrapper.hide(', '.join(p.to_string(wrapper=wrapper) for p in self.parameters))
-        line = wrapper.bold('COMPONENT') + f' {self.name} = {self.type.name}({instance_parameters}) '
+        line = '' if self.split is None else wrapper.bold('SPLIT') + ' ' + wrapper.escape(str(self.split)) + ' '
+        line += wrapper.bold('COMPONENT') + f' {self.name} = {self.type.name}({instance_parameters}) '
 
         if self.when is not None:
             line += wrapper.bold('WHEN') + ' ' + wrapper.escape(str(self.when)) + ' '
-- 
2.43.0


From 5fd80640151e274277b0ee2a306c518e10e16cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 066/106] fix: line break before what follows the place of
 written instances

---
 src/mccode_antlr/common/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index eee8687..7c93ba7 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -207,7 +207,7 @@ class TextWrapper(BaseWrapper):
 
     @staticmethod
     def br() -> str:
-        return ''
+        return '\n'
 
     @staticmethod
     def hide(content: str) -> str:
-- 
2.43.0


From 3b2d1b7f2cb1163d6fc0259a78b72f56e7b464f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 067/106] fix: written default values which are no constants

---
 src/mccode_antlr/common/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/parameters.py b/src/mccode_antlr/common/parameters.py
index 0c9f9c6..3fd554b 100644
--- a/src/mccode_antlr/common/parameters.py
+++ b/src/mccode_antlr/common/parameters.py
@@ -21,7 +21,7 @@ class InstrumentParameter:
         line = wrapper.datatype(line) + wrapper.parameter(self.name)
         if self.unit is not None:
             line += wrapper.unit(self.unit)
-        if self.value.has_value:
+        if self.value.has_value or not self.value.is_constant:
             line += "=" + wrapper.value(self.value)
         print(line, file=output)
 
-- 
2.43.0


From 7946b35c14353976d8ec57f4e4bda435e4b627c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 068/106] fix: written vectors

---
 src/mccode_antlr/common/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 5555731..2c43887 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -764,6 +764,8 @@ class Value:
         return f'{prefix}{self.value}' if self.is_parameter else f'{self.value}'
 
     def _str_repr_(self):
+        if self.is_vector and isinstance(self.value, (list, tuple)):
+            return '{' + ', '.join(str(x) for x in self.value) + '}'
         return str(self.value)
 
     def __str__(self):
-- 
2.43.0


From 70a15e54dfd90560d26db383f71a14e1aed0a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 069/106] fix: written JUMP to instances with names like
 NEXT_one

---
 src/mccode_antlr/instr/jump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 3cbaa76..2a52bb3 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -17,7 +17,7 @@ class Jump:
         # self.target is one of "PREVIOUS", "PREVIOUS_{i}, "MYSELF", "MYSELF_{i}, "NEXT",
         # or "{component instance identifier}"
         jump_name = self.target
-        if '_' in jump_name and (jump_name.startswith('PREVIOUS') or jump_name.startswith('NEXT')):
+        if self.relative_target != 0 and jump_name.startswith(('PREVIOUS_', 'NEXT_')):
             jump_name = jump_name.split('_')[0]
         if abs(self.relative_target) > 1:
             jump_name += f' ({abs(self.relative_target)})'
-- 
2.43.0


From d9f9a26e8ba4480d97bcba0e74b6f968e9f4daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 070/106] fix: names and values of written metadata

---
 src/mccode_antlr/common/metadata.py | 4 +++-
 src/mccode_antlr/common/textwrap.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/metadata.py b/src/mccode_antlr/common/metadata.py
index 81789bd..202a9a0 100644
--- a/src/mccode_antlr/common/metadata.py
+++ b/src/mccode_antlr/common/metadata.py
@@ -40,7 +40,9 @@ class MetaData:
     value: str
 
     def to_file(self, output, wrapper):
-        print(wrapper.metadata_group('METADATA', self.mimetype, self.name, self.value), file=output)
+        # names with spaces are quoted already, see partial_from_tokens
+        name = self.name if self.name.startswith('"') else f'"{self.name}"'
+        print(wrapper.metadata_group('METADATA', self.mimetype, name, self.value), file=output)
 
     @staticmethod
     def partial_from_tokens(source: DataSource, mimetype: str, name: str, value: str):
diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index 7c93ba7..09a361f 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -147,7 +147,7 @@ class TextWrapper(BaseWrapper):
 
     @staticmethod
     def metadata_group(name: str, mimetype: str, item: str, value: str) -> str:
-        return f'{name} "{mimetype}" {item} \n%{{\n{value}\n%}}\n'
+        return f'{name} "{mimetype}" {item} \n%{{{value}%}}\n'
 
     @staticmethod
     def datatype(data_type: str) -> str:
-- 
2.43.0


From a740fff4dcd671a10a566dcc70b297c64a1825a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 071/106] fix: empty flags of written instruments

---
 src/mccode_antlr/common/textwrap.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index 09a361f..37c6927 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -139,7 +139,6 @@ class TextWrapper(BaseWrapper):
         return '\n'.join(self.wrap(f'{name} {sep.join(items)}'))
 
     def quoted_line(self, name: str, items: list[str], sep: str = ' ') -> str:
-        items = [item or 'None' for item in items]
         return '\n'.join(self.wrap(f'{name} "{sep.join(items)}"'))
 
     def lines(self, items: list[str]) -> str:
-- 
2.43.0


From ba367d9a71ff19d2ca59eeb7f1f799268429443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 072/106] fix: remote registries knew components by the end of
 the names of others

---
 src/mccode_antlr/reader/registry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 8ff0fc5..9d86b58 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -96,6 +96,11 @@ def _name_plus_suffix(name: str, suffix: str = None):
     return path.as_posix()
 
 
+def _is_file_named(registry_file: str, name: str):
+    """Does the file have this name: all of it, or the last part(s) of its path"""
+    return registry_file == name or registry_file.endswith(f'/{name}')
+
+
 def find_registry_file(name: str):
     """Find a registry file in the mccode_antlr package"""
     from importlib.resources import files
@@ -137,10 +142,10 @@ class RemoteRegistry(Registry):
     def known(self, name: str, ext: str = None, strict: bool = False):
         compare = _name_plus_suffix(name, ext)
         # the files *in* the registry are already posix paths, so that makes life easier
-        if any(x.endswith(compare) for x in self.pooch.registry_files):
+        if any(_is_file_named(x, compare) for x in self.pooch.registry_files):
             return True
         # fall back to matching without the extension:
-        if any(Path(x).with_suffix('').as_posix().endswith(compare) for x in self.pooch.registry_files):
+        if ext is None and any(_is_file_named(Path(x).with_suffix('').as_posix(), compare) for x in self.pooch.registry_files):
             return True
         # Or matching *any* file that contains name
         return False if strict else any(name in x for x in self.pooch.registry_files)
@@ -157,7 +162,7 @@ class RemoteRegistry(Registry):
                 return registry_file
         # second step, exact match to filename:
         for registry_file in self.pooch.registry_files:
-            if Path(registry_file).parts[-1] == compare:
+            if _is_file_named(registry_file, compare):
                 return registry_file
         # fall back to matching without the extension:
         if not exact:
-- 
2.43.0


From 1271cf9234f2544ed4c8a104ba0c377505b01919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 073/106] fix: is_available of remote registries

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 9d86b58..3cab397 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -180,7 +180,7 @@ class RemoteRegistry(Registry):
         return matches[0]
 
     def is_available(self, name: str, ext: str = None, exact: bool = True):
-        return self.pooch.registry_files(self.fullname(name, ext, exact))
+        return self.known(name, ext, strict=exact)
 
     def path(self, name: str, ext: str = None, exact: bool = True) -> Path:
         return Path(self.pooch.fetch(self.fullname(name, ext, exact)))
-- 
2.43.0


From 8a5046abb241abd48866a24df68f6c8c65364bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 074/106] fix: the filenames of a local registry are those of
 its files

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 3cab397..6c5de2b 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -345,7 +345,7 @@ class LocalRegistry(Registry):
         return self.root.joinpath(self.fullname(name, ext, exact))
 
     def filenames(self) -> list[str]:
-        return [str(x) for x in self.root.glob('**')]
+        return [x.relative_to(self.root).as_posix() for x in self.root.glob('**/*') if x.is_file()]
 
     def __eq__(self, other):
         if not isinstance(other, Registry):
-- 
2.43.0


From 6b262427f42037ba45556dd64946e523676f70a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 075/106] fix: specification of a registry with only a name and
 an url

---
 src/mccode_antlr/reader/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 6c5de2b..34a605f 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -455,6 +455,9 @@ def registry_from_specification(spec: str):
     if not simple_url_validator(p2, file_ok=True):
         return None
 
+    if p3 is None:
+        return None
+
     if Path(p3).exists() and Path(p3).is_file():
         return ModuleRemoteRegistry(p1, p2, Path(p3).resolve().as_posix())
 
-- 
2.43.0


From 7b7f22ad09e058649e3f98b9d97db57ba90b9112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 076/106] fix: SEARCH with more than one word, and SEARCH SHELL

---
 src/mccode_antlr/instr/visitor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index d854cdc..6ee5c0b 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -354,13 +354,12 @@ class InstrVisitor(McInstrVisitor):
         run(args, shell=True, check=True)
 
     def visitSearchPath(self, ctx: McInstrParser.SearchPathContext):
-        self.parent.handle_search_keyword(str(ctx.StringLiteral()))
+        self.parent.handle_search_keyword(str(ctx.StringLiteral())[1:-1])
 
     def visitSearchShell(self, ctx: McInstrParser.SearchShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split()
-        res = run(args, shell=True, capture_output=True, check=True)
-        for specs in res.stdout.decode().split('\n'):
+        res = run(str(ctx.StringLiteral())[1:-1], shell=True, capture_output=True, check=True)
+        for specs in filter(str.strip, res.stdout.decode().split('\n')):
             self.parent.handle_search_keyword(specs)
 
     # TODO Make this and the identical list of visitors in comp/visitor.py a single definition ... somehow
-- 
2.43.0


From 60de5345ccd6819bcc8af597a309c9271ccad983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 077/106] fix: choosing registries by a part of their names

---
 src/mccode_antlr/reader/reader.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index 896bf42..f434199 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -65,8 +65,14 @@ class Reader:
     def add_c_flags(self, flags):
         self.c_flags.append(flags)
 
+    def _named(self, which: str | list[str] | None):
+        if which is None:
+            return self.registries
+        names = [which] if isinstance(which, str) else which
+        return [x for x in self.registries if x.name in names]
+
     def locate(self, name: str, which: str = None, ext: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
+        registries = self._named(which)
         for reg in registries:
             if reg.known(name, ext, strict=strict):
                 return reg.path(name, ext)
@@ -75,8 +81,7 @@ class Reader:
         raise RuntimeError(f'{name} not found in {msg}')
 
     def contents(self, name: str, which: str = None, ext: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries
-                                                            if x.name in which]
+        registries = self._named(which)
         for reg in registries:
             if reg.known(name, ext, strict=strict):
                 return reg.contents(name, ext)
@@ -86,7 +91,7 @@ class Reader:
         raise RuntimeError(f'{name} not found in {msg}')
 
     def fullname(self, name: str, which: str = None, ext: str=None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
+        registries = self._named(which)
         for reg in registries:
             if reg.known(name, ext, strict=strict):
                 return reg.fullname(name, ext)
@@ -95,15 +100,15 @@ class Reader:
         raise RuntimeError(f'{name} not found in {msg}')
 
     def known(self, name: str, which: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
+        registries = self._named(which)
         return any([reg.known(name, strict=strict) for reg in registries])
 
     def unique(self, name: str, which: str = None):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
+        registries = self._named(which)
         return sum([1 for reg in registries if reg.unique(name)]) == 1
 
     def contain(self, name: str, which: str = None, strict: bool = False):
-        registries = self.registries if which is None else [x for x in self.registries if x.name in which]
+        registries = self._named(which)
         return [reg.name for reg in registries if reg.known(name, strict=strict)]
 
     def stream(self, name: str, which: str = None, strict: bool = False):
-- 
2.43.0


From ecd930481e0a5d3604a58b8f32766c71a7abbefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 078/106] fix: category of components which are in no folder

---
 src/mccode_antlr/reader/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index f434199..fd51034 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -137,7 +137,7 @@ class Reader:
             fullname = self.fullname(name, ext='.comp', strict=True)
             fullname = fullname if isinstance(fullname, Path) else Path(fullname)
             # if fullname is an absolute path, it comes from a local repository -- so we don't know what to do
-            res.category = 'UNKNOWN' if fullname.is_absolute() else fullname.parts[0]
+            res.category = 'UNKNOWN' if fullname.is_absolute() or len(fullname.parts) < 2 else fullname.parts[0]
         self.components[name] = res
 
     def get_component(self, name: str, current_instance_name=None):
-- 
2.43.0


From b15437681e15b8e0d631d931da7964acc9934767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 079/106] fix: names and paths of files in memory

---
 src/mccode_antlr/reader/registry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 34a605f..f42d1ac 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -382,7 +382,7 @@ class InMemoryRegistry(Registry):
         return list(self.components.keys())
 
     def fullname(self, name: str, ext: str | None = None):
-        full_name = name if ext is None else name + ext
+        full_name = name if ext is None or name.endswith(ext) else name + ext
         return full_name if full_name in self.components else None
 
     def known(self, name: str, ext: str | None = None, strict: bool = False):
@@ -391,6 +391,9 @@ class InMemoryRegistry(Registry):
             return True
         return False
 
+    def path(self, name: str, ext: str | None = None) -> Path:
+        return Path(self.root).joinpath(self.fullname(name, ext=ext))
+
     def contents(self, name: str, ext: str | None = None):
         full_name = self.fullname(name, ext=ext)
         if full_name is not None and full_name in self.components:
-- 
2.43.0


From be8f58e74405f89bd0ab0e075c2f5cd5472772e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 080/106] fix: paths of local registries with a relative root

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index f42d1ac..a4626fb 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -284,7 +284,7 @@ class GitHubRegistry(RemoteRegistry):
 class LocalRegistry(Registry):
     def __init__(self, name: str, root: str, priority: int = 10):
         self.name = name
-        self.root = Path(root)
+        self.root = Path(root).resolve()
         self.version = mccode_antlr_version()
         self.priority = priority
 
-- 
2.43.0


From 8b555fc30fb22be505ad25a45a1b7f477c9a484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 081/106] fix: errors of combined data files are added in
 quadrature

---
 src/mccode_antlr/loader/datfile.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 7fa3107..19b5d19 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -279,17 +279,16 @@ def combine_scan_lists(a: list, b: list):
 def combine_scan_data(a: ndarray, b: ndarray):
     if a.shape != b.shape:
         raise RuntimeError(f'Incompatible shapes {a.shape} and {b.shape}')
-    if a.ndim == 2:
-        from copy import deepcopy
-        # variables are _always_ (?) (..., I, I_err, N)
-        c = deepcopy(a)
-        c[-3:, :] = a[-3:, :] + b[-3:, :]
-        return c
-    elif a.ndim == 3:
-        # but 3-D _only_ contains (I, I_err, N)
-        return a + b
-    else:
+    if a.ndim not in (1, 2, 3):
         raise RuntimeError(f'Unexpected number of dimensions: {a.ndim}')
+    from copy import deepcopy
+    from numpy import sqrt
+    # variables are _always_ (?) (..., I, I_err, N)
+    c = deepcopy(a)
+    c[-3, ...] = a[-3, ...] + b[-3, ...]
+    c[-2, ...] = sqrt(a[-2, ...] * a[-2, ...] + b[-2, ...] * b[-2, ...])
+    c[-1, ...] = a[-1, ...] + b[-1, ...]
+    return c
 
 
 def combine_mccode_dats(dats: list):
-- 
2.43.0


From 3bccb956f32c6374a40cd97b8292ad1a2ceb712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 082/106] fix: data files without dimension can be combined

---
 src/mccode_antlr/loader/datfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 19b5d19..89e6ac5 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -122,7 +122,7 @@ class DatFile0D(DatFileCommon):
         return first, second
 
     def safe_to_combine(self, other):
-        if not isinstance(other, DatFile1D):
+        if not isinstance(other, DatFile0D):
             return False
         if self.variables != other.variables:
             return False
@@ -132,7 +132,7 @@ class DatFile0D(DatFileCommon):
 
     def __add__(self, other):
         both = super().__add__(other)
-        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, both.data)
+        return DatFile0D(both.source, both.metadata, both.parameters, both.variables, both.data)
 
 
 @dataclass
-- 
2.43.0


From 7f156f7d5aa356598957445bbbcb40234f370608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 083/106] fix: data files without some of the metadata can be
 written

---
 src/mccode_antlr/loader/datfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 89e6ac5..934e4cf 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -47,11 +47,11 @@ class DatFileCommon:
             raise RuntimeError(f'{filename} already exists')
         first, second = self.parts()
         with sink.open('w') as file:
-            for item in first:
+            for item in [x for x in first if x in self.metadata]:
                 print(f'# {item}: {self.metadata[item]}', file=file)
             for param in self.parameters:
                 print(f'# Param: {param}={self.parameters[param]}', file=file)
-            for item in second:
+            for item in [x for x in second if x in self.metadata]:
                 print(f'# {item}: {self.metadata[item]}', file=file)
             self.print_data(file)
 
@@ -118,7 +118,7 @@ class DatFile0D(DatFileCommon):
         # Yes, Ncount shows up twice ...
         first = ('Format', 'URL', 'Creator', 'Instrument', 'Ncount', 'Trace', 'Gravitation', 'Seed', 'Directory')
         second = ('Date', 'type', 'Source', 'component', 'position', 'title', 'Ncount', 'filename', 'statistics',
-                  'signal', 'values', 'yvar', 'ylabel', 'xlimits', 'variables')
+                  'signal', 'values', 'yvar', 'ylabel', 'xlimits', 'xylimits', 'variables')
         return first, second
 
     def safe_to_combine(self, other):
-- 
2.43.0


From 77dd7a0e0999385f588f7c6af5b610fe2b75f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 084/106] fix: combined data files mixed up keys and values
 which are part of others

---
 src/mccode_antlr/loader/datfile.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 934e4cf..16cde82 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -79,7 +79,9 @@ class DatFileCommon:
         if not self.safe_to_combine(other):
             raise RuntimeError('Cannot combine these two dat files')
         metadata = combine_scan_dicts(self.metadata, other.metadata)
-        parameters = combine_scan_dicts(self.parameters, other.parameters)
+        if self.parameters != other.parameters:
+            raise RuntimeError(f'Incompatible parameters {self.parameters} and {other.parameters}')
+        parameters = dict(self.parameters)
         variables = combine_scan_lists(self.variables, other.variables)
         data = combine_scan_data(self.data, other.data)
         return DatFileCommon(Path(), metadata, parameters, variables, data)
@@ -250,23 +252,24 @@ def read_mccode_dat(filename: str | Path):
 
 def combine_scan_dicts(a: dict, b: dict):
     from copy import deepcopy
+    if missing := [k for k in a if k not in b]:
+        raise RuntimeError(f'Missing keys {missing} in {b}')
     c = deepcopy(a)
     special_add = 'Ncount',
     special_concatenate = 'Directory', 'filename', 'Date', 'Seed'
     special_ignore = 'signal', 'statistics', 'values'
     for k, v in b.items():
-        if any(s in k for s in special_add):
+        if k not in c:
+            raise RuntimeError(f'Unexpected key {k} in {b}')
+        if k in special_add:
             c[k] = int(c[k]) + int(v)
-        elif any(s in k for s in special_concatenate):
-            if v not in c[k]:
+        elif k in special_concatenate:
+            if f' {v} ' not in f' {c[k]} ':
                 c[k] = f'{c[k]} {v}'
-        elif any(s in k for s in special_ignore):
+        elif k in special_ignore:
             pass
-        elif k in c:
-            if c[k] != v:
-                raise RuntimeError(f'Incompatible values for "{k}": {c[k]} and {v}')
-        else:
-            raise RuntimeError(f'Unexpected key {k} in {b}')
+        elif c[k] != v:
+            raise RuntimeError(f'Incompatible values for "{k}": {c[k]} and {v}')
     return c
 
 
-- 
2.43.0


From 59e3c0d5baea0ca22ecbdd2651ca9b09370af6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 085/106] fix: the totals of combined data files

---
 src/mccode_antlr/loader/datfile.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 16cde82..4b78125 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -257,7 +257,7 @@ def combine_scan_dicts(a: dict, b: dict):
     c = deepcopy(a)
     special_add = 'Ncount',
     special_concatenate = 'Directory', 'filename', 'Date', 'Seed'
-    special_ignore = 'signal', 'statistics', 'values'
+    special_ignore = 'signal', 'statistics'
     for k, v in b.items():
         if k not in c:
             raise RuntimeError(f'Unexpected key {k} in {b}')
@@ -268,11 +268,21 @@ def combine_scan_dicts(a: dict, b: dict):
                 c[k] = f'{c[k]} {v}'
         elif k in special_ignore:
             pass
+        elif k == 'values':
+            c[k] = combine_scan_values(c[k], v)
         elif c[k] != v:
             raise RuntimeError(f'Incompatible values for "{k}": {c[k]} and {v}')
     return c
 
 
+def combine_scan_values(a: str, b: str):
+    """Combine the total intensity, its error and the number of events"""
+    from math import hypot
+    (a_i, a_e, a_n), (b_i, b_e, b_n) = [[float(x) for x in v.split()] for v in (a, b)]
+    n = a_n + b_n
+    return f'{a_i + b_i} {hypot(a_e, b_e)} {int(n) if n.is_integer() else n}'
+
+
 def combine_scan_lists(a: list, b: list):
     if a != b:
         raise RuntimeError(f'Incompatible lists {a} and {b}')
-- 
2.43.0


From c6e9e9ec4e30db73328ccef524af0529b65b46a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 086/106] fix: errors of combined simulation files

---
 src/mccode_antlr/loader/simfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 5e77c39..af48ce4 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -313,7 +313,7 @@ class SimFileData:
         # The values line is always "{float} {float} {int}" which _I think_ is <intensity>, <error>, and event count
         s_intensity, s_error, s_counts = split_values(self.values)
         o_intensity, o_error, o_counts = split_values(other.values)
-        out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error + o_error)} {s_counts + o_counts}"
+        out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error * o_error)} {s_counts + o_counts}"
 
         # The signal line is always? "None" or "Min={float}; Max={float}; Mean={float};"
         # we can combine min and max, but not mean (without knowing the number of points)
-- 
2.43.0


From 421ea6a080e6ec26623236a28b54b858434d6575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 087/106] fix: simulation files of monitors which counted
 nothing can be combined

---
 src/mccode_antlr/loader/simfile.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index af48ce4..47142f6 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -315,6 +315,9 @@ class SimFileData:
         o_intensity, o_error, o_counts = split_values(other.values)
         out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error * o_error)} {s_counts + o_counts}"
 
+        # where nothing was counted both parts are of the same weight
+        s_weight, o_weight = (s_counts, o_counts) if s_counts + o_counts else (1, 1)
+
         # The signal line is always? "None" or "Min={float}; Max={float}; Mean={float};"
         # we can combine min and max, but not mean (without knowing the number of points)
         if 'None' in self.signal or 'None' in other.signal:
@@ -322,7 +325,7 @@ class SimFileData:
         else:
             s_min, s_max, s_mean = split_signal(self.signal)
             o_min, o_max, o_mean = split_signal(other.signal)
-            mean_estimate = (s_mean * s_counts + o_mean * o_counts)/(s_counts + o_counts)
+            mean_estimate = (s_mean * s_weight + o_mean * o_weight)/(s_weight + o_weight)
             out.signal = f"Min={min(s_min, o_min)}; Max={max(s_max, o_max)}; Mean={mean_estimate};"
 
         # Statistics: one of "None", "X0={float}; dX={float};" or "X0={float}; dX={float}; Y0={float}; dY={float};"
@@ -337,11 +340,11 @@ class SimFileData:
             for d in ('X', 'Y'):
                 d0, dd = f'{d}0', f'd{d}'
                 if d0 in s_stats and d0 in o_stats:
-                    stats[d0] = (s_stats[d0] * s_counts + o_stats[d0] * o_counts)/(s_counts + o_counts)
+                    stats[d0] = (s_stats[d0] * s_weight + o_stats[d0] * o_weight)/(s_weight + o_weight)
                 if dd in s_stats and dd in o_stats:
-                    sd = s_stats[dd] * s_counts
-                    od = o_stats[dd] * o_counts
-                    stats[dd] = sqrt(sd * sd + od * od) / (s_counts + o_counts)
+                    sd = s_stats[dd] * s_weight
+                    od = o_stats[dd] * o_weight
+                    stats[dd] = sqrt(sd * sd + od * od) / (s_weight + o_weight)
             out.statistics = ' '.join([f"{k}={stats[k]};" for k in ['X0', 'dX', 'Y0', 'dY'] if k in stats])
         return out
 
-- 
2.43.0


From 435816d807fc55a7315fac757a64aa79bd058957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 088/106] fix: widths of the distributions of combined
 simulation files

---
 src/mccode_antlr/loader/simfile.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 47142f6..81c3819 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -342,9 +342,10 @@ class SimFileData:
                 if d0 in s_stats and d0 in o_stats:
                     stats[d0] = (s_stats[d0] * s_weight + o_stats[d0] * o_weight)/(s_weight + o_weight)
                 if dd in s_stats and dd in o_stats:
-                    sd = s_stats[dd] * s_weight
-                    od = o_stats[dd] * o_weight
-                    stats[dd] = sqrt(sd * sd + od * od) / (s_weight + o_weight)
+                    # the second moments add up, they include how far apart the centers are
+                    apart = s_stats.get(d0, 0) - o_stats.get(d0, 0)
+                    fraction = s_weight / (s_weight + o_weight)
+                    stats[dd] = sqrt(fraction * s_stats[dd]**2 + (1 - fraction) * o_stats[dd]**2 + fraction * (1 - fraction) * apart**2)
             out.statistics = ' '.join([f"{k}={stats[k]};" for k in ['X0', 'dX', 'Y0', 'dY'] if k in stats])
         return out
 
-- 
2.43.0


From 8234154f837b859d8f7611fd93958689922a2ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 089/106] fix: simulations with fewer parameters are no repeats

---
 src/mccode_antlr/loader/simfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 81c3819..bc8b70c 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -180,7 +180,7 @@ class SimFileSimulation:
         return other.name == self.name and other.Format == self.Format and other.URL == self.URL and \
             other.Creator == self.Creator and other.Instrument == self.Instrument and \
             other.Trace == self.Trace and other.Gravitation == self.Gravitation and \
-            other.Directory == self.Directory and all(p in self.Params for p in other.Params)
+            other.Directory == self.Directory and set(other.Params) == set(self.Params)
 
     def combine(self, other):
         from copy import deepcopy
-- 
2.43.0


From ba322544572b72f0f649f49b04cb19110e9b3380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 090/106] fix: simulation files with begin or end in a line

---
 src/mccode_antlr/loader/simfile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index bc8b70c..f4557bf 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -376,14 +376,14 @@ class SimFile:
     @staticmethod
     def parse(contents: str):
         # split into sub-string parts:
-        header, _, rest = contents.partition('begin instrument: ')
-        instrument, _, rest = rest.partition('begin simulation: ')
-        instrument, _, _ = instrument.partition('end instrument')
-        simulation, _, rest = rest.partition('end simulation')
+        header, _, rest = contents.partition('\nbegin instrument: ')
+        instrument, _, rest = rest.partition('\nbegin simulation: ')
+        instrument, _, _ = instrument.partition('\nend instrument')
+        simulation, _, rest = rest.partition('\nend simulation')
         data = []
         while rest:
-            datum, _, rest = rest.partition('end data')
-            _, _, datum = datum.partition('begin data')
+            datum, _, rest = rest.partition('\nend data')
+            _, _, datum = datum.partition('\nbegin data')
             if len(datum.strip()):
                 data.append(datum.strip())
 
-- 
2.43.0


From 44f7e80d3b95a2c2b0811a3821d4cb0604877545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 091/106] fix: combined simulation files lost names which are
 part of others

---
 src/mccode_antlr/loader/simfile.py | 52 ++++++++++++++++++------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index f4557bf..caada33 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -15,6 +15,18 @@ def read_keywords(lines: list[str], keywords: list[str], delim: str = None):
         yield value.strip()
 
 
+def has_all_of(text: str, other: str, sep: str = ' + '):
+    """Are the parts of the other text parts of this one"""
+    return all(part in text.split(sep) for part in other.split(sep))
+
+
+def joined(text: str, other: str):
+    """This text with those parts of the other which it does not have"""
+    parts = dict.fromkeys(text.split(' + '))
+    parts.update(dict.fromkeys(other.split(' + ')))
+    return ' + '.join(parts)
+
+
 @dataclass
 class SimFileHeader:
     description: str
@@ -39,7 +51,7 @@ class SimFileHeader:
     def __contains__(self, other):
         if not isinstance(other, SimFileHeader):
             raise RuntimeError(f"Cannot compare header with {other}")
-        return other.description in self.description and other.Date in self.Date and other.Program in self.Program
+        return has_all_of(self.description, other.description) and has_all_of(self.Date, other.Date) and has_all_of(self.Program, other.Program)
 
     def combine(self, other):
         if other in self:
@@ -47,9 +59,9 @@ class SimFileHeader:
         if self in other:
             return other
         # combine from the right, so self.description might already have other.description in it
-        desc = self.description if other.description in self.description else f'{self.description} + {other.description}'
-        date = self.Date if other.Date in self.Date else f"{self.Date} + {other.Date}"
-        program = self.Program if other.Program in self.Program else f"{self.Program} + {other.Program}"
+        desc = joined(self.description, other.description)
+        date = joined(self.Date, other.Date)
+        program = joined(self.Program, other.Program)
         return SimFileHeader(description=desc, Date=date, Program=program)
 
 
@@ -91,8 +103,8 @@ class SimFileInstrument:
     def __contains__(self, other):
         if not isinstance(other, SimFileInstrument):
             raise RuntimeError(f"Cannot compare instrument with {other}")
-        return other.name in self.name and other.File in self.File and other.Source in self.Source and \
-            other.Parameters in self.Parameters and other.Trace_enabled == self.Trace_enabled and \
+        return has_all_of(self.name, other.name) and has_all_of(self.File, other.File) and has_all_of(self.Source, other.Source) and \
+            has_all_of(self.Parameters, other.Parameters, None) and other.Trace_enabled == self.Trace_enabled and \
             other.Default_main == self.Default_main and other.Embedded_runtime == self.Embedded_runtime
 
     def combine(self, other):
@@ -101,12 +113,12 @@ class SimFileInstrument:
         if self in other:
             return other
         # combine from the right, so self.name might already have other.name in it
-        name = self.name if other.name in self.name else f'{self.name} + {other.name}'
-        file = self.File if other.File in self.File else f"{self.File} + {other.File}"
-        source = self.Source if other.Source in self.Source else f"{self.Source} + {other.Source}"
+        name = joined(self.name, other.name)
+        file = joined(self.File, other.File)
+        source = joined(self.Source, other.Source)
         # parameters are a bit different in that we want their ordered union:
-        pars = dict.fromkeys([p.strip() for p in self.Parameters.split(' ')])
-        pars.update(dict.fromkeys([p.strip() for p in other.Parameters.split(' ')]))
+        pars = dict.fromkeys([p.strip() for p in self.Parameters.split()])
+        pars.update(dict.fromkeys([p.strip() for p in other.Parameters.split()]))
         parameters = ' '.join(list(pars.keys()))
         trace = self.Trace_enabled and other.Trace_enabled
         default = self.Default_main and other.Default_main
@@ -169,10 +181,10 @@ class SimFileSimulation:
     def __contains__(self, other):
         if not isinstance(other, SimFileSimulation):
             raise RuntimeError(f"Cannot compare simulation with {other}")
-        return other.name in self.name and other.Format in self.Format and other.URL in self.URL and \
-            other.Creator in self.Creator and other.Instrument in self.Instrument and \
+        return has_all_of(self.name, other.name) and has_all_of(self.Format, other.Format) and has_all_of(self.URL, other.URL) and \
+            has_all_of(self.Creator, other.Creator) and has_all_of(self.Instrument, other.Instrument) and \
             other.Trace == self.Trace and other.Gravitation == self.Gravitation and \
-            other.Directory in self.Directory and all(p in self.Params for p in other.Params)
+            has_all_of(self.Directory, other.Directory) and all(p in self.Params for p in other.Params)
 
     def __eq__(self, other):
         if not isinstance(other, SimFileSimulation):
@@ -197,17 +209,17 @@ class SimFileSimulation:
         elif self in other:
             return other
         # combine from the right, so self.name might already have other.name in it
-        name = self.name if other.name in self.name else f'{self.name} + {other.name}'
-        format = self.Format if other.Format in self.Format else f"{self.Format} + {other.Format}"
-        url = self.URL if other.URL in self.URL else f"{self.URL} + {other.URL}"
-        creator = self.Creator if other.Creator in self.Creator else f"{self.Creator} + {other.Creator}"
-        instrument = self.Instrument if other.Instrument in self.Instrument else f"{self.Instrument} + {other.Instrument}"
+        name = joined(self.name, other.name)
+        format = joined(self.Format, other.Format)
+        url = joined(self.URL, other.URL)
+        creator = joined(self.Creator, other.Creator)
+        instrument = joined(self.Instrument, other.Instrument)
         # TODO this is *not* a repeat. What do we do with the number of particles?
         ncount = min(self.Ncount, other.Ncount)
         trace = self.Trace and other.Trace
         gravitation = self.Gravitation and other.Gravitation
         seed = self.Seed if self.Seed == other.Seed else -1
-        directory = self.Directory if other.Directory in self.Directory else f"{self.Directory} + {other.Directory}"
+        directory = joined(self.Directory, other.Directory)
         params = dict.fromkeys(self.Params)
         params.update(dict.fromkeys(other.Params))
         params = list(params.keys())
-- 
2.43.0


From ee3d78973fd476516a0f1d18898adcc5b3a3e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 092/106] fix: one dimensional data files with as many bins as
 variables

---
 src/mccode_antlr/loader/datfile.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 4b78125..48aec97 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -142,13 +142,11 @@ class DatFile1D(DatFileCommon):
     def __post_init__(self):
         nx = int(self.metadata['type'].split('(', 1)[1].strip(')'))
         nv = len(self.variables)
-        if self.data.shape == (nv, nx):
-            # shortcut in case we're already in the right shape (e.g., from __add__)
-            return
-        if self.data.shape[0] != nx or self.data.shape[1] != nv:
+        if self.data.shape == (nx, nv):
+            # we always want the variables along the first dimension:
+            self.data = self.data.transpose((1, 0))
+        elif self.data.shape != (nv, nx):
             raise RuntimeError(f'Unexpected data shape {self.data.shape} for metadata specifying {nx=} and {nv=}')
-        # we always want the variables along the first dimension:
-        self.data = self.data.transpose((1, 0))
 
     def dim_metadata(self) -> list[dict]:
         lower_limit, upper_limit = [float(x) for x in self['xlimits'].split()]
@@ -181,7 +179,8 @@ class DatFile1D(DatFileCommon):
 
     def __add__(self, other):
         both = super().__add__(other)
-        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, both.data)
+        # given like in a file, since a square array could be either
+        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, both.data.transpose((1, 0)))
 
 
 @dataclass
-- 
2.43.0


From eafe7a7627c44755dd346f89142d2c10b7d018a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 093/106] fix: files in folders come before files without
 extension

---
 src/mccode_antlr/reader/registry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index a4626fb..fdf74ee 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -317,15 +317,16 @@ class LocalRegistry(Registry):
         is_compare = list(self._exact_file_iterator(compare))
         if len(is_compare) == 1:
             return is_compare[0]
+        if not exact:
+            # The file can be in any folder, which comes before any which only lacks the extension
+            ends_with_compare = list(self._file_iterator(compare))
+            if len(ends_with_compare) == 1:
+                return ends_with_compare[0]
         # Complete match if name happens to be missing the extension
         is_name = list(self._exact_file_iterator(name))
         if len(is_name) == 1:
             return is_name[0]
         if not exact:
-            from loguru import logger
-            ends_with_compare = list(self._file_iterator(compare))
-            if len(ends_with_compare) == 1:
-                return ends_with_compare[0]
             # Complete match if name happens to be missing the extension
             ends_with_name = list(self._file_iterator(name))
             if len(ends_with_name) == 1:
-- 
2.43.0


From a36f1e6868127f6540cbf7be16a34cfd735cd4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 094/106] fix: loading operations which have a type of their
 own

---
 src/mccode_antlr/io/hdf5.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 808f0fc..d0cf964 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -263,7 +263,7 @@ def _op_io(typename, fields: list[str]):
     class _OpIO:
         @staticmethod
         def load(group, **kwargs) -> typename:
-            from mccode_antlr.common.expression import DataType
+            from mccode_antlr.common.expression import DataType, ShapeType
             _check_header(group, typename)
             attrs = {name: group.attrs.get(name) for name in ('op', 'style', 'data_type_name')}
             values = {name: HDF5IO.load(group[name], **kwargs) for name in fields}
@@ -271,9 +271,10 @@ def _op_io(typename, fields: list[str]):
                 raise ValueError(f"Could not load values for {typename}")
             op = typename(attrs['op'], **values)
             op.style = attrs['style']
-            if op.data_type != DataType.from_name(attrs['data_type_name']):
-                raise ValueError(
-                    f"Loaded {typename} with data type {op.data_type}, but expected {attrs['data_type_name']}")
+            # the type of an operation can have been set after its construction
+            op.data_type = DataType.from_name(attrs['data_type_name'])
+            if 'shape_type_name' in group.attrs:
+                op.shape_type = ShapeType.from_name(group.attrs['shape_type_name'])
             return op
 
         @staticmethod
@@ -283,6 +284,8 @@ def _op_io(typename, fields: list[str]):
                 if getattr(data, name) is not None:
                     group.attrs[name] = getattr(data, name)
             group.attrs['data_type_name'] = data.data_type.name
+            if getattr(data, 'shape_type', None) is not None:
+                group.attrs['shape_type_name'] = data.shape_type.name
             for name in fields:
                 if getattr(data, name) is not None:
                     HDF5IO.save(group=group.create_group(name), data=getattr(data, name), **kwargs)
-- 
2.43.0


From e19efad851c21c16e7086aa35d39f0609637c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 095/106] fix: loaded rotations by angles in radian

---
 src/mccode_antlr/io/hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index d0cf964..6ef3bcd 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -228,11 +228,15 @@ def _seitz_part_io(actual_type):
             v = HDF5IO.load(group['v'], **kwargs)
             if v is None:
                 raise ValueError(f"Could not load v for {actual_type}")
+            if 'degrees' in group.attrs:
+                return actual_type(v=v, degrees=bool(group.attrs['degrees']))
             return actual_type(v=v)
 
         @staticmethod
         def save(group, data, **kwargs):
             _write_header(group, actual_type)
+            if hasattr(data, 'degrees'):  # only rotations have units
+                group.attrs['degrees'] = data.degrees
             if data.v is not None:
                 HDF5IO.save(group=group.create_group('v'), data=data.v, **kwargs)
 
-- 
2.43.0


From 3eb96d67243bdfd5a5cadfadd438c14fb79afd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 096/106] fix: saving metadata of more than 64 kB

---
 src/mccode_antlr/io/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 6ef3bcd..24a05b0 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -411,7 +411,7 @@ class HDF5IO:
     _handlers = {
         'Instr': InstrIO,
         'InstrumentParameter': _dataclass_io(InstrumentParameter, attrs=('name', 'unit'), required=('value',)),
-        'MetaData': _dataclass_io(MetaData, attrs=('name', 'mimetype', 'value'), required=('source',)),
+        'MetaData': _dataclass_io(MetaData, attrs=('name', 'mimetype'), required=('source', 'value')),
         'DataSource': DataSourceIO,
         'Instance': InstanceIO,
         'RawC': _dataclass_io(RawC, attrs=('filename', 'line'), required=('source',), optional=('translated',)),
-- 
2.43.0


From b1cac57ac7cb4d254dcb2332a94b30c87962a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 097/106] fix: loaded instances of minimal instruments

---
 src/mccode_antlr/io/hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 24a05b0..cffd446 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -81,6 +81,7 @@ class DataSourceIO:
 
 
 class InstanceIO:
+    from mccode_antlr.common import Mode
     from mccode_antlr.comp import Comp
     from mccode_antlr.instr import Instance
     attrs = ('name', 'removable', 'cpu', 'group')
@@ -107,11 +108,14 @@ class InstanceIO:
         if ref is not None and ref not in instances:
             raise ValueError(f"Unknown instance reference {ref}")
         values['rotate_relative'] = (ang, instances.get(ref) if ref is not None else None)
+        if 'mode' in group.attrs:
+            values['mode'] = InstanceIO.Mode[group.attrs['mode']]
         return InstanceIO.Instance(**values)
 
     @staticmethod
     def save(group, data: Instance, **kwargs):
         _standard_save(InstanceIO.Instance, group, data, InstanceIO.attrs, InstanceIO.names, **kwargs)
+        group.attrs['mode'] = data.mode.name
         # type, at_relative, rotate_relative should be _references_ to other HDF5 objects?
         # Maybe we can get away with only keeping their names, since those are unique in the instrument
         # component _type_ name:
-- 
2.43.0


From f3169de44cbe33c6e6dbe7f43cbb2df730ec4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 098/106] fix: priority of loaded registries

---
 src/mccode_antlr/io/hdf5.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index cffd446..57b90a9 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -184,6 +184,10 @@ class GroupIO:
         HDF5IO.save(group=group.create_group('member_names'), data=[member.name for member in data.members])
 
 
+def _read_priority(group):
+    return {'priority': int(group.attrs['priority'])} if 'priority' in group.attrs else {}
+
+
 def RemoteRegistryIO(actual_type):
     from mccode_antlr.reader.registry import RemoteRegistry
 
@@ -192,6 +196,7 @@ def RemoteRegistryIO(actual_type):
         def load(group, **kwargs) -> RemoteRegistry:
             _check_header(group, actual_type)
             values = _standard_read(actual_type, group, actual_type.file_keys(), (), (), **kwargs)
+            values.update(_read_priority(group))
             try:
                 return actual_type(**values)
             except RuntimeError:
@@ -200,7 +205,7 @@ def RemoteRegistryIO(actual_type):
 
         @staticmethod
         def save(group, data, **kwargs):
-            _standard_save(actual_type, group, data, actual_type.file_keys(), (), **kwargs)
+            _standard_save(actual_type, group, data, actual_type.file_keys() + ('priority',), (), **kwargs)
 
     return _RemoteRegistryIO
 
@@ -211,6 +216,7 @@ class LocalRegistryIO:
     @staticmethod
     def load(group, **kwargs) -> Registry:
         values = _standard_read(LocalRegistryIO.LocalRegistry, group, ('name', 'root'), (), (), **kwargs)
+        values.update(_read_priority(group))
         try:
             return LocalRegistryIO.LocalRegistry(**values)
         except RuntimeError:
@@ -219,7 +225,7 @@ class LocalRegistryIO:
 
     @staticmethod
     def save(group, data, **kwargs):
-        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name',), (), **kwargs)
+        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name', 'priority'), (), **kwargs)
         if data.root is not None:
             group.attrs['root'] = data.root.as_posix()
 
-- 
2.43.0


From f92baa92517ac12317043e3114dd5aa5a579111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 099/106] fix: loading instruments which were read with
 registries in memory

---
 src/mccode_antlr/io/hdf5.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 57b90a9..861a438 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -230,6 +230,25 @@ class LocalRegistryIO:
             group.attrs['root'] = data.root.as_posix()
 
 
+class InMemoryRegistryIO:
+    from mccode_antlr.reader.registry import InMemoryRegistry
+
+    @staticmethod
+    def load(group, **kwargs) -> InMemoryRegistry:
+        values = _standard_read(InMemoryRegistryIO.InMemoryRegistry, group, ('name',), (), ('files', 'contents'), **kwargs)
+        registry = InMemoryRegistryIO.InMemoryRegistry(values['name'], **_read_priority(group))
+        for name, content in zip(values['files'], values['contents']):
+            registry.add(name, content)
+        return registry
+
+    @staticmethod
+    def save(group, data, **kwargs):
+        _standard_save(InMemoryRegistryIO.InMemoryRegistry, group, data, ('name', 'priority'), (), **kwargs)
+        # names of files can have a / in them, so can not be names in the HDF5 file
+        HDF5IO.save(group=group.create_group('files'), data=tuple(data.components.keys()), **kwargs)
+        HDF5IO.save(group=group.create_group('contents'), data=tuple(data.components.values()), **kwargs)
+
+
 def _seitz_part_io(actual_type):
     class _RotationPartIO:
         @staticmethod
@@ -429,6 +448,7 @@ class HDF5IO:
         'ModuleRemoteRegistry': RemoteRegistryIO(ModuleRemoteRegistry),
         'GitHubRegistry': RemoteRegistryIO(GitHubRegistry),
         'LocalRegistry': LocalRegistryIO,
+        'InMemoryRegistry': InMemoryRegistryIO,
         'ComponentParameter': _dataclass_io(ComponentParameter, attrs=('name',), required=('value',)),
         'Comp': _dataclass_io(Comp, attrs=('name', 'category', 'dependency', 'acc'),
                               optional=('define', 'setting', 'output', 'metadata', 'share', 'user',
-- 
2.43.0


From 0b79f95d2c4d258da33d33bbf66d312bf84cdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:27 +0000
Subject: [PATCH 100/106] fix: loading truth values

---
 src/mccode_antlr/io/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 861a438..4a539c3 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -485,8 +485,8 @@ class HDF5IO:
             float,
             np.float32,
             np.float64,
-            bool,
             np.bool_,
+            bool,  # has the same name as the numpy type
             bytes,
         )}
     }
-- 
2.43.0


From 7c4a50759da34d800aee3c9e759c09a6721a4c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:16 +0000
Subject: [PATCH 101/106] fix: removing a cache stays within the cache

---
 src/mccode_antlr/cli/management.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 40df507..ba82e7e 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -97,13 +97,20 @@ def cache_path():
     return os_cache(f'mccode_antlr')
 
 
+def cache_folder(*names):
+    """The folder of all caches, of one cache, or of one version of a cache -- never a folder outside of the cache"""
+    path = cache_path()
+    for name in names:
+        if name is not None:
+            parent, path = path, path.joinpath(name)
+            if parent.resolve() not in path.resolve().parents:
+                raise RuntimeError(f'{name!r} is not the name of a folder in {parent}')
+    return path
+
+
 def cache_remove(name, version, force):
     from shutil import rmtree
-    path = cache_path()
-    if name is not None:
-        path = path.joinpath(name)
-    if version is not None:
-        path = path.joinpath(version)
+    path = cache_folder(name, version)
     if not force:
         response = input(f'Remove {path} and all contents? [yN] ')
         if 'yes' == response.lower() or 'y' == response.lower():
@@ -113,9 +120,7 @@ def cache_remove(name, version, force):
 
 
 def cache_list(name, long):
-    path = cache_path()
-    if name is not None:
-        path = path.joinpath(name)
+    path = cache_folder(name)
     dirs = sorted([d for d in path.iterdir() if d.is_dir()], key=lambda x: x.name)
     dstr = '\n'.join(f'  {d if long else d.name}' for d in dirs)
     n = len(dirs)
-- 
2.43.0


From 97b1382b521539a99aa7da4bdf002d4b579d3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:16 +0000
Subject: [PATCH 102/106] fix: configuration is listed and saved with the
 values of all its sources

---
 src/mccode_antlr/cli/management.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index ba82e7e..105890b 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -7,11 +7,19 @@ def config_dump(config):
     return dump(config)
 
 
+def config_values(view):
+    """All values of a view of the configuration, which can come from different sources"""
+    from confuse import ConfigTypeError
+    try:
+        return view.flatten()
+    except ConfigTypeError:
+        return view.get()
+
+
 def config_list(regex):
-    from pathlib import Path
+    import re
     from mccode_antlr.config import config as c
-    config_dir = Path(c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
+    d = {k: config_values(c[k]) for k in list(c) if regex is None or re.search(regex, k)}
     print(config_dump(d))
 
 
@@ -30,7 +38,7 @@ def config_get(key, verbose):
                 return
             else:
                 return
-    d = c.get()
+    d = config_values(c)
     if key:
         d = {key: d}
     print(config_dump(d))
@@ -56,7 +64,7 @@ def config_save(path, verbose):
     from pathlib import Path
     from mccode_antlr.config import config as c
     config_dir = Path(path or c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
+    d = {k: config_values(c[k]) for k in list(c)}
     config_file = config_dir.joinpath('config.yaml')
     with config_file.open('w') as file:
         file.write(config_dump(d))
-- 
2.43.0


From 4bbbec8ba8dac72ba2792cf5266c6a2af26b47cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:16 +0000
Subject: [PATCH 103/106] fix: asking for a configuration key below a single
 value

---
 src/mccode_antlr/cli/management.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 105890b..f08c969 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -24,17 +24,26 @@ def config_list(regex):
 
 
 def config_get(key, verbose):
+    from confuse import ConfigTypeError
     from mccode_antlr.config import config as c
+
+    def has(view, name):
+        try:
+            return name in view
+        except ConfigTypeError:  # the view is a single value
+            return False
+
     if key:
         levels = key.split('.')
         depth = []
         for level in levels:
-            if level in c:
+            if has(c, level):
                 c = c[level]
                 depth.append(level)
             elif verbose:
                 print(f'Full key {key} not found in config.')
-                print(f'  {level} not in {".".join(depth)}.{list(c)}')
+                known = config_values(c)
+                print(f'  {level} not in {".".join(depth)}.{list(known) if isinstance(known, dict) else []}')
                 return
             else:
                 return
-- 
2.43.0


From 92e85e906818db1b7f669e780874a0702ab39bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:35 +0000
Subject: [PATCH 104/106] fix: run the command of SHELL as it is written

---
 src/mccode_antlr/instr/visitor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 6ee5c0b..83b2e3c 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -350,8 +350,7 @@ class InstrVisitor(McInstrVisitor):
 
     def visitShell(self, ctx: McInstrParser.ShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split(' ')
-        run(args, shell=True, check=True)
+        run(str(ctx.StringLiteral())[1:-1], shell=True, check=True)
 
     def visitSearchPath(self, ctx: McInstrParser.SearchPathContext):
         self.parent.handle_search_keyword(str(ctx.StringLiteral())[1:-1])
-- 
2.43.0


From ed7eaccae3ec815982a7f3ac3c42074bb31dd2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:35 +0000
Subject: [PATCH 105/106] fix: keep a quote at the end of the flags of a
 component

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index d3b300b..4c44625 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -136,7 +136,7 @@ class CompVisitor(McCompVisitor):
     def visitDependency(self, ctx: Parser.DependencyContext):
         if ctx.StringLiteral() is not None:
             # the flags are the literal string without its quotes:
-            self.parent.add_c_flags(str(ctx.StringLiteral()).strip('"'))
+            self.parent.add_c_flags(str(ctx.StringLiteral())[1:-1])
 
     def visitDeclareBlock(self, ctx: Parser.DeclareBlockContext):
         self.state.DECLARE(self.visit(ctx.unparsed_block()))
-- 
2.43.0


From fd0682f6e1e53f746fb762c7ec0fa1a22c4ec157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 106/106] fix: declare and set the definition parameters of
 components

---
 src/mccode_antlr/translators/c_decls.py      | 6 +++---
 src/mccode_antlr/translators/c_initialise.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 5b5a1b3..5496d9e 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -157,8 +157,8 @@ def component_type_declaration(comp, typedefs: list, declared_parameters: list):
         f'struct _struct_{comp.name}_parameters {{',
         f"  /* Component type '{comp.name}' setting parameters */"
     ]
-    # TODO Veryify that the cogen.c iteration over `comp->def->set_par` does not somehow include DEFINITION PARAMETERS
-    for par in comp.setting:
+    # DEFINITION PARAMETERS are used like SETTING PARAMETERS in the code of the component, and are members too
+    for par in comp.define + comp.setting:
         # FIXME We CANT define a static array here without knowing the maximum size used in every component!
         # # if par.value.is_a(Value.Type.float_array) or par.value.is_a(Value.Type.int_array):
         # if par.value.vector_known:
@@ -181,7 +181,7 @@ def component_type_declaration(comp, typedefs: list, declared_parameters: list):
     lines.append(f"  /* Component type '{comp.name}' private parameters */")
     lines.extend([f'  {x.as_struct_member()};' for x in declared_parameters])
 
-    if len(comp.setting) + len(declared_parameters) == 0:
+    if len(comp.define) + len(comp.setting) + len(declared_parameters) == 0:
         lines.append(f'  char {comp.name}_has_no_parameters;')
 
     lines.extend([
diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index b0e69f5..403d094 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -167,7 +167,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
             f'    mccomp_placement_type_nexus(nxhandle, {gstr}, {pos_id}, {rot_id}, "{comp.type.name}");'
         ]
         # loop over component instance parameters and set their values in the NeXus group ...
-        for default in comp.type.setting:
+        for default in comp.type.define + comp.type.setting:
             p = comp.get_parameter(default.name)
             dstr = f'{default.value:p}'
             vstr = f'{p.value:p}'
@@ -196,8 +196,8 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
 
     # <<< This is the first call to `cogen_comp_init_par`: `cogen_comp_init_par(comp, instr, "SETTING")
     # With `section == "SETTING"` the first call picks out `comp->def->set_par`
-    for par in comp.type.setting:
-        # For each component definition SETTING PARAMETER the same-named instance parameter is retrieved
+    for par in comp.type.define + comp.type.setting:
+        # For each component definition DEFINITION or SETTING PARAMETER the same-named instance parameter is retrieved
         lines.append(parameter_line(par))
     # >>> End of first call to `cogen_comp_init_par`
     # <<< Start of second call to `cogen_comp_init_par`: `cogen_comp_init_par(comp, instr, "PRIVATE")`
-- 
2.43.0

