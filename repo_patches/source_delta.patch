From 33ee29d2cf00e2d6a38d0a4123945f0bbdb7fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 01/45] fix: reflected bit vector operators raise NameError on
 bad operands

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index a733582..82ad5b7 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -165,7 +165,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index dc4acfb..8b4b5d4 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -211,7 +211,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
-- 
2.43.0


From f0705e21af81d8c43da85256639e3aec019a2d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 02/45] fix: reflected right shift swaps its operands

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 82ad5b7..ff0a38e 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -414,7 +414,7 @@ class BitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 8b4b5d4..228495a 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -532,7 +532,7 @@ class SMTBitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
-- 
2.43.0


From b2456e61f4462f444326e713efcae6cb7f66287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 03/45] fix: SMTBit lacks a reflected xor

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 228495a..5b0c5cc 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -148,7 +148,7 @@ class SMTBit(AbstractBit):
         return type(self)(smt.Xor(self.value, other.value))
 
     @bit_cast
-    def __xor__(self, other : 'SMTBit') -> 'SMTBit':
+    def __rxor__(self, other : 'SMTBit') -> 'SMTBit':
         return type(self)(smt.Xor(other.value, self.value))
 
     def ite(self, t_branch, f_branch):
-- 
2.43.0


From 1d7df47db94769050e594da5edad14719cf67c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 04/45] fix: BitVector.sext rejects an extension by zero bits

---
 hwtypes/bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index ff0a38e..be52b02 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -482,7 +482,7 @@ class BitVector(AbstractBitVector):
             raise ValueError()
 
         T = type(self).unsized_t
-        return self.concat(T[1](self[-1]).repeat(ext))
+        return self.concat(T[ext](ext * [self[-1]]))
 
     def ext(self, ext):
         return self.zext(ext)
-- 
2.43.0


From cefca010aea27f7bae1664c8d81e0f573849ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 05/45] fix: symbolic repeat builds a result of the wrong size

---
 hwtypes/smt_bit_vector.py | 5 ++++-
 hwtypes/z3_bit_vector.py  | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 5b0c5cc..2c42dd0 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -560,7 +560,10 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRepeat(self.value, other))
+        if other <= 0:
+            raise ValueError()
+        T = type(self).unsized_t
+        return T[other * self.size](smt.get_env().formula_manager.BVRepeat(self.value, other))
 
     @int_cast
     def sext(self, ext):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 582d6a8..efc665f 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -494,7 +494,9 @@ class z3BitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, n):
-        return type(self)(z3.RepeatBitVec(n, self.value))
+        if n <= 0:
+            raise ValueError()
+        return type(self).unsized_t[n * self.size](z3.RepeatBitVec(n, self.value))
 
     @int_cast
     def sext(self, ext):
-- 
2.43.0


From 7f62e72128b266057bfd652448d6006c3416f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 06/45] fix: remainder by zero returns an alias of its operand

---
 hwtypes/bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index be52b02..7ccbfcc 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -382,7 +382,7 @@ class BitVector(AbstractBitVector):
     def bvurem(self, other):
         other = other.as_uint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_uint() % other)
 
     @bv_cast
@@ -396,7 +396,7 @@ class BitVector(AbstractBitVector):
     def bvsrem(self, other):
         other = other.as_sint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_sint() % other)
 
     def __invert__(self): return self.bvnot()
-- 
2.43.0


From 07a9e22772821a747e4cc4d6f0a5e073a40ef8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 07/45] fix: SMTFPVector.to_sbv raises KeyError

---
 hwtypes/smt_fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 4b7acd2..8437c33 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -180,7 +180,7 @@ class SMTFPVector(AbstractFPVector):
 
     def to_sbv(self, size : int) -> SMTBitVector:
         cls = type(self)
-        ufs = _uf_table[cls]['to_usbv']
+        ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
             name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
             ufs[size] = shortcuts.Symbol(
-- 
2.43.0


From 5fc4e2520ed35838517c18092347a3daf951ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 08/45] fix: assigning an element makes a Tuple unhashable and
 unequal

---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 918c530..12ca702 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -49,7 +49,7 @@ class Tuple(metaclass=TupleMeta):
         if isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
-            self._value_ = v
+            self._value_ = tuple(v)
         else:
             raise TypeError(f'Value {value} is not of type {type(self)[idx]}')
 
-- 
2.43.0


From d4fdc3a7d9163f49b88c3f17d68c3121be4ab872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 09/45] fix: rebind_type raises NameError on modified types

---
 hwtypes/adt_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 223750a..77c20eb 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -4,6 +4,7 @@ from .bit_vector_abc import AbstractBitVectorMeta, AbstractBitVector, AbstractBi
 
 from .util import _issubclass
 from hwtypes.modifiers import unwrap_modifier, wrap_modifier, is_modified
+from hwtypes.modifiers import get_modifier, get_unmodified
 from .adt import Product, Sum, Tuple, Enum, TaggedUnion
 from inspect import isclass
 
@@ -126,7 +127,7 @@ def rebind_type(T, family):
     if not isclass(T):
         return T
     elif is_modified(T):
-        return get_modifier(T)(rebind_type(get_unmodified(T), family, dont_rebind, do_rebind, is_magma))
+        return get_modifier(T)(rebind_type(get_unmodified(T), family))
     elif issubclass(T, AbstractBitVector):
         return rebind_bitvector(T, AbstractBitVector, family.BitVector)
     elif issubclass(T, AbstractBit):
-- 
2.43.0


From 6c619b418758059f2b0aa99a7ffdd637077c2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 10/45] fix: SMTBitVector rejects objects whose int value does
 not fit

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 2c42dd0..9f4af1f 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -285,7 +285,7 @@ class SMTBitVector(AbstractBitVector):
 
         elif hasattr(value, '__int__'):
             value = int(value)
-            self._value = smt.BV(value, self.size)
+            self._value = smt.BV(value % (1 << self.size), self.size)
         else:
             raise TypeError("Can't coerce {} to SMTBitVector".format(type(value)))
 
-- 
2.43.0


From 3bcd51e5c3a963540a0c348bbe34dd6ec94ba5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 11/45] fix: SMTBitVector rotates reject amounts beyond the
 width

---
 hwtypes/smt_bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 9f4af1f..b83b819 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -415,11 +415,11 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def bvrol(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other % self.size))
 
     @int_cast
     def bvror(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other % self.size))
 
     @bv_cast
     def bvcomp(self, other):
-- 
2.43.0


From 59c741ec9108f6b4f8660a5ad9943673e5169b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 12/45] fix: anonymous products cannot be rebound, stripped or
 pushed

---
 hwtypes/adt_meta.py  | 12 +++++++++++-
 hwtypes/modifiers.py |  4 ++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index e0911c8..e6dbddd 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -119,7 +119,14 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
                 new_fields.append(T.rebind(A, B, rebind_sub_types))
             else:
                 new_fields.append(T)
-        return cls.unbound_t[new_fields]
+        return cls.unbound_t[cls._idx_from_fields(new_fields)]
+
+    def _idx_from_fields(cls, fields):
+        '''
+        Translates a sequence of types, given in the order of cls.fields,
+        to the index that binds them the way cls.fields are bound
+        '''
+        return fields
 
 
 
@@ -458,6 +465,9 @@ def __init__(self, {type_sig}):
 
         return ns
 
+    def _idx_from_fields(cls, fields):
+        return OrderedDict(zip(cls.field_dict, fields))
+
     @property
     def field_dict(cls):
         return MappingProxyType(cls._field_table_)
diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index f26e514..52b33d9 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -144,7 +144,7 @@ def strip_modifiers(adt_t):
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in adt_t.fields]
-        return adt_t.unbound_t[new_fields]
+        return adt_t.unbound_t[adt_t._idx_from_fields(new_fields)]
     else:
         return adt_t
 
@@ -158,7 +158,7 @@ def push_modifiers(adt_t, mods=[]):
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [push_modifiers(sub_adt_t, mods) for sub_adt_t in adt_t.fields]
-        return adt_t.unbound_t[new_fields]
+        return adt_t.unbound_t[adt_t._idx_from_fields(new_fields)]
     else:
         return wrap_modifier(adt_t, mods)
 
-- 
2.43.0


From 2496441f0b40de29d6cce3462d83390e0bc7204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 13/45] fix: validity of a vector type index depends on the
 type cache

---
 hwtypes/bit_vector_abc.py |  7 +++++--
 hwtypes/fp_vector_abc.py  | 11 ++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 44d22a9..e3c4095 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -74,13 +74,16 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
 
     def __getitem__(cls, idx : int) -> 'AbstractBitVectorMeta':
         mcs = type(cls)
+        # 8.0 and True hash like 8 and 1 so check idx before looking it up
+        if not isinstance(idx, int):
+            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
+        idx = int(idx)
+
         try:
             return mcs._class_cache[cls, idx]
         except KeyError:
             pass
 
-        if not isinstance(idx, int):
-            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
         if idx < 0:
             raise ValueError('Size of BitVectors must be positive')
 
diff --git a/hwtypes/fp_vector_abc.py b/hwtypes/fp_vector_abc.py
index 6b6a6e8..a090682 100644
--- a/hwtypes/fp_vector_abc.py
+++ b/hwtypes/fp_vector_abc.py
@@ -43,18 +43,19 @@ class AbstractFPVectorMeta(ABCMeta):
 
     def __getitem__(cls, idx : tp.Tuple[int, int, RoundingMode, bool]):
         mcs = type(cls)
-        try:
-            return mcs._class_cache[cls, idx]
-        except KeyError:
-            pass
-
         if cls.is_bound:
             raise TypeError(f'{cls} is already bound')
 
+        # True hashes like 1 so check idx before looking it up
         if len(idx) != 4 or tuple(map(type,idx)) != (int, int, RoundingMode, bool):
             raise IndexError(f'Constructing a floating point type requires:\n'
                     'exponent bits : int, mantisa bits : int, RoundingMode, ieee_compliance : bool')
 
+        try:
+            return mcs._class_cache[cls, idx]
+        except KeyError:
+            pass
+
         eb, mb, mode, ieee_compliance = idx
 
         if eb <= 0 or mb <= 0:
-- 
2.43.0


From ee6f272f0973c8c86f5662824c4a565d9e3348a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 14/45] fix: as_sint fails on one bit symbolic vectors

---
 hwtypes/smt_bit_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index b83b819..56e1524 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -602,7 +602,8 @@ class SMTBitVector(AbstractBitVector):
     def as_sint(self):
         #Avoids circular import
         from . import SMTInt
-        return SMTInt(self[:-1]) - SMTInt(self & (1<<(self.size-1)))
+        msb = 1 << (self.size - 1)
+        return SMTInt(self & (msb - 1)) - SMTInt(self & msb)
 #
 #    @classmethod
 #    def random(cls, width):
-- 
2.43.0


From 60f01adddc7c61020c2d492f023390c56d5bb58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 15/45] fix: SMTFPVector names can collide with those of other
 symbols

---
 hwtypes/smt_fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 8437c33..7865220 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -5,6 +5,7 @@ import pysmt.shortcuts as shortcuts
 from pysmt.typing import  BVType, BOOL, FunctionType
 
 from .smt_bit_vector import SMTBit, SMTBitVector, SMTSIntVector, SMYBOLIC, AUTOMATIC
+from .smt_bit_vector import _name_table
 from .fp_vector_abc import AbstractFPVector, RoundingMode
 
 # using None to represent cls
@@ -35,7 +36,6 @@ _SIGS = [
     ('fp_is_positive', None, BOOL,),
 ]
 
-_name_table = weakref.WeakValueDictionary()
 _uf_table = weakref.WeakKeyDictionary()
 
 
-- 
2.43.0


From c1180c6bed379628a7e886f1cea30d92799fc9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 16/45] fix: z3BitVector.bvsrem computes smod

---
 hwtypes/z3_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index efc665f..4fdd216 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -466,7 +466,7 @@ class z3BitVector(AbstractBitVector):
 
     @bv_cast
     def bvsrem(self, other):
-        return type(self)(self.value % other.value)
+        return type(self)(z3.SRem(self.value, other.value))
 
     __invert__ = bvnot
     __and__ = bvand
-- 
2.43.0


From 7bd7673f483c81488412bb4a287b6a5e05747c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 17/45] fix: ADT visitors have no default leaf handler

---
 hwtypes/adt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 77c20eb..880523c 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -33,7 +33,7 @@ class _ADTVisitor(metaclass=ABCMeta):
     @abstractmethod
     def generic_visit(self, adt_t): pass
 
-    def visit_Leaf(self, adt_t):  pass
+    def visit_leaf(self, adt_t):  pass
 
     def visit_Enum(self, adt_t): pass
 
-- 
2.43.0


From b656ec73c5861a741d4bfd68be3e4a8a7e3cdccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 18/45] fix: bvshl exhausts memory for large shift amounts

---
 hwtypes/bit_vector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 7ccbfcc..0a0b4f8 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -283,7 +283,10 @@ class BitVector(AbstractBitVector):
 
     @bv_cast
     def bvshl(self, other):
-        return type(self)(self.as_uint() << other.as_uint())
+        # amounts beyond the size clear every bit; the cap avoids building
+        # an intermediate integer of that many bits
+        shift = min(other.as_uint(), self.size)
+        return type(self)(self.as_uint() << shift)
 
     @bv_cast
     def bvlshr(self, other):
-- 
2.43.0


From 43a7bc10d9dacf0c3a0a5c1fe0ef841f88958b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 19/45] fix: SMT rotates do not reduce integer amounts modulo
 2^size first

---
 hwtypes/smt_bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 56e1524..1374765 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -415,11 +415,11 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def bvrol(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other % self.size))
+        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other % (1 << self.size) % self.size))
 
     @int_cast
     def bvror(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other % self.size))
+        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other % (1 << self.size) % self.size))
 
     @bv_cast
     def bvcomp(self, other):
-- 
2.43.0


From 106c93f9101c9bc4f69a0d84ac49ac2fc71e4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 20/45] fix: z3SIntVector.ext zero extends

---
 hwtypes/z3_bit_vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 4fdd216..8b740d7 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -560,6 +560,9 @@ class z3SIntVector(z3NumVector):
     def __le__(self, other):
         return self.bvsle(other)
 
+    def ext(self, ext):
+        return self.sext(ext)
+
 _Family_ = ht.TypeFamily(z3Bit, z3BitVector, z3UIntVector, z3SIntVector)
 
 
-- 
2.43.0


From 963877deff904af62acd2aa048de1f1c2a9b3b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:01 +0000
Subject: [PATCH 21/45] fix: automatically named SMTFPVector variables do not
 reserve their names

---
 hwtypes/smt_fp_vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 7865220..a9e2966 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -55,6 +55,7 @@ class SMTFPVector(AbstractFPVector):
         if value is SMYBOLIC:
             if name is AUTOMATIC:
                 value = shortcuts.FreshSymbol(T)
+                _name_table[value.symbol_name()] = self
             else:
                 value = shortcuts.Symbol(name, T)
         elif isinstance(value, pysmt.fnode.FNode):
-- 
2.43.0


From 456d903d674a808ec77562c60ae11a6882772d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:01 +0000
Subject: [PATCH 22/45] fix: generated names can be those of a dead variable of
 another type

---
 hwtypes/smt_bit_vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 1374765..3ec1b10 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -25,8 +25,10 @@ _var_counters = defaultdict(it.count)
 _name_table = weakref.WeakValueDictionary()
 
 def _gen_name(prefix='V'):
+    # a dead value's symbol stays declared with its type
+    declared = smt.get_env().formula_manager.symbols
     name = f'{prefix}_{next(_var_counters[prefix])}'
-    while name in _name_table:
+    while name in _name_table or name in declared:
         name = f'{prefix}_{next(_var_counters[prefix])}'
     return name
 
-- 
2.43.0


From 92cf0d07fb233aa4f238c247e8530bb9e65c58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:45 +0000
Subject: [PATCH 23/45] fix: no type can be derived from a bound FPVector

gmpy2 contexts of current versions have no trap_expbound
---
 hwtypes/fp_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index ff294a3..de0ff14 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -123,7 +123,8 @@ class FPVector(AbstractFPVector):
                         or c_ctx.trap_inexact != ctx.trap_inexact
                         or c_ctx.trap_erange != ctx.trap_erange
                         or c_ctx.trap_divzero != ctx.trap_divzero
-                        or c_ctx.trap_expbound != ctx.trap_expbound
+                        # not in every version of gmpy2
+                        or getattr(c_ctx, 'trap_expbound', None) != getattr(ctx, 'trap_expbound', None)
                         or c_ctx.allow_complex != ctx.allow_complex):
                     # this basically should never happen unless some one does
                     # class Foo(FPVector):
-- 
2.43.0


From 2a0e06b30c767abe72aaa9f547888569960e1874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 24/45] fix: fp_abs of -0 is -0

---
 hwtypes/fp_vector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index de0ff14..f2f88e8 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -140,8 +140,7 @@ class FPVector(AbstractFPVector):
 
     @set_context
     def fp_abs(self) -> 'FPVector':
-        v = self._value
-        return type(self)(v if v >= 0 else -v)
+        return type(self)(abs(self._value))
 
     @set_context
     def fp_neg(self) -> 'FPVector':
-- 
2.43.0


From 7f430ff07f6930ba70220eb05ab91cf5f7636710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:31 +0000
Subject: [PATCH 25/45] fix: SMTFPVector.fp_min and fp_max cannot be called

---
 hwtypes/smt_fp_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index a9e2966..7c1265e 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -20,8 +20,8 @@ _SIGS = [
     ('fp_sqrt', None, None,),
     ('fp_rem', None, None,None),
     ('fp_round_to_integral', None, None,),
-    ('fp_min', None, None,),
-    ('fp_max', None, None,),
+    ('fp_min', None, None, None,),
+    ('fp_max', None, None, None,),
     ('fp_leq', None, None, BOOL,),
     ('fp_lt', None, None, BOOL,),
     ('fp_geq', None, None, BOOL,),
-- 
2.43.0


From 75040625d308dc03a0f6cccac480cd8a77e70e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:31 +0000
Subject: [PATCH 26/45] fix: no class can be derived from unbound SMTFPVector

---
 hwtypes/smt_fp_vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 7c1265e..34d886c 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -73,6 +73,9 @@ class SMTFPVector(AbstractFPVector):
         self._value = value
 
     def __init_subclass__(cls):
+        if not cls.is_bound:
+            return
+
         _uf_table[cls] = ufs = dict()
         T = BVType(cls.size)
         for method_name, *args in _SIGS:
-- 
2.43.0


From 6c54f50bcdc6ff2dc6ad47a8e4092588f4193360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:02 +0000
Subject: [PATCH 27/45] fix: distinct SMTFPVector classes of the same name
 clash or share functions

---
 hwtypes/smt_fp_vector.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 34d886c..c0ff428 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -38,6 +38,26 @@ _SIGS = [
 
 _uf_table = weakref.WeakKeyDictionary()
 
+# class : prefix of the names of its functions
+_prefix_table = weakref.WeakKeyDictionary()
+_prefixes = {'SMTFPVector'}
+
+def _function_prefix(cls):
+    # indexing the same class again gives the same functions,
+    # other classes of the same name have their own
+    unbound_t = cls._info_[0]
+    if unbound_t is not None:
+        prefix = _prefix_table.get(unbound_t, unbound_t.__name__)
+        return prefix + cls.__name__[len(unbound_t.__name__):]
+
+    prefix = cls.__name__
+    count = 0
+    while prefix in _prefixes:
+        count += 1
+        prefix = f'{cls.__name__}_{count}'
+    _prefixes.add(prefix)
+    return prefix
+
 
 class SMTFPVector(AbstractFPVector):
     def __init__(self, value=SMYBOLIC, *, name=AUTOMATIC):
@@ -73,6 +93,7 @@ class SMTFPVector(AbstractFPVector):
         self._value = value
 
     def __init_subclass__(cls):
+        _prefix_table[cls] = prefix = _function_prefix(cls)
         if not cls.is_bound:
             return
 
@@ -82,7 +103,7 @@ class SMTFPVector(AbstractFPVector):
             args = [T if x is None else x for x in args]
             rtype = args[-1]
             params = args[:-1]
-            name = '.'.join((cls.__name__, method_name))
+            name = '.'.join((prefix, method_name))
             ufs[method_name] = shortcuts.Symbol(name, FunctionType(rtype, params))
 
         ufs['to_sbv'] = dict()
@@ -174,7 +195,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_ubv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_ubv[{size}]'))
+            name = '.'.join((_prefix_table[cls], f'to_ubv[{size}]'))
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
@@ -186,7 +207,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
+            name = '.'.join((_prefix_table[cls], f'to_sbv[{size}]'))
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
-- 
2.43.0


From a5308e2a4bbb97d2697b938fee8d37f77fb1b55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:09 +0000
Subject: [PATCH 28/45] fix: assigning to a slice of a Tuple stored values of
 the wrong types

---
 hwtypes/adt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 12ca702..1c6bd1f 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -46,7 +46,9 @@ class Tuple(metaclass=TupleMeta):
         return self._value_[idx]
 
     def __setitem__(self, idx, value):
-        if isinstance(value, type(self)[idx]):
+        if isinstance(idx, slice):
+            raise TypeError('Cannot assign to a slice')
+        elif isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
             self._value_ = tuple(v)
-- 
2.43.0


From 50582ef7af6fd48fb63cfdfc6154c727b3c07458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:09 +0000
Subject: [PATCH 29/45] fix: Sum values with related alternatives matched
 several, and equality compared values of different alternatives

---
 hwtypes/adt.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 1c6bd1f..f97513c 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -135,10 +135,16 @@ class Sum(metaclass=SumMeta):
         if type(value) not in type(self):
             raise TypeError(f'Value {value} is not of types {type(self).fields}')
         self._value_ = value
+        self._tag_ = type(value)
+
+    def _active_field(self):
+        '''The type of the active alternative'''
+        return self._tag_
 
     def __eq__(self, other):
         if isinstance(other, type(self)):
-            return self._value_ == other._value_
+            return (self._active_field() == other._active_field()
+                    and self._value_ == other._value_)
         else:
             return NotImplemented
 
@@ -151,7 +157,7 @@ class Sum(metaclass=SumMeta):
     def __getitem__(self, T) -> 'Sum.Match':
         cls = type(self)
         if T in cls:
-            return cls.Match(isinstance(self._value_, T), self._value_)
+            return cls.Match(T == self._active_field(), self._value_)
         else:
             raise TypeError(f'{T} not in {cls}')
 
@@ -163,6 +169,7 @@ class Sum(metaclass=SumMeta):
             raise TypeError(f'expected {T} not {type(value)}')
         else:
             self._value_ = value
+            self._tag_ = T
 
     def __repr__(self) -> str:
         return f'{type(self)}({self._value_})'
@@ -222,6 +229,9 @@ class TaggedUnion(Sum, metaclass=TaggedUnionMeta):
 
         setattr(self, field, value)
 
+    def _active_field(self):
+        return tuple(type(self).field_dict.values())[self._tag_]
+
     def __setitem__(self, T, value):
         raise TypeError(f'setitem syntax is not supported on {type(self)}')
 
-- 
2.43.0


From 133808e7491bd3121e4625109d619876dd11830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:45 +0000
Subject: [PATCH 30/45] fix: product fields named self, cls, super or
 AnonymousProduct broke the type

---
 hwtypes/adt_meta.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index e6dbddd..5d84344 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -394,8 +394,17 @@ class AnonymousProductMeta(TupleMeta):
         t = super()._from_idx(idx)
         t._field_table_ = idx
 
-        name =  t.unbound_t.__name__
-        gs = {name : t}
+        # fields may have the names used below
+        def _unused(name):
+            while name in idx:
+                name = f'_{name}'
+            return name
+
+        name = _unused('type')
+        _super = _unused('super')
+        _cls = _unused('cls')
+        _self = _unused('self')
+        gs = {name : t, _super : super}
 
         ls = {}
 
@@ -404,16 +413,16 @@ class AnonymousProductMeta(TupleMeta):
 
         # build __new__
         __new__ = f'''
-def __new__(cls, {type_sig}):
-    return super({name}, cls).__new__(cls, {arg_list})
+def __new__({_cls}, {type_sig}):
+    return {_super}({name}, {_cls}).__new__({_cls}, {arg_list})
 '''
         exec(__new__, gs, ls)
         t.__new__ = ls['__new__']
 
         # build __init__
         __init__ = f'''
-def __init__(self, {type_sig}):
-    return super({name}, self).__init__({arg_list})
+def __init__({_self}, {type_sig}):
+    return {_super}({name}, {_self}).__init__({arg_list})
 '''
         exec(__init__, gs, ls)
         t.__init__ = ls['__init__']
-- 
2.43.0


From 54f610e450ed2fa73e19e3a1613f44f2028184db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:45 +0000
Subject: [PATCH 31/45] fix: anonymous products accepted reserved field names

---
 hwtypes/adt_meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 5d84344..d44530b 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -383,6 +383,9 @@ class AnonymousProductMeta(TupleMeta):
     def _get_idx(cls, idx):
         if not isinstance(idx, tp.Mapping):
             raise TypeError()
+        for field in idx:
+            if field in RESERVED_ATTRS:
+                raise ReservedNameError(f'Field name {field} is reserved by the type machinery')
         return OrderedFrozenDict(idx)
 
     def _from_idx(cls, idx):
-- 
2.43.0


From 2156e8b80adf9c20c9d79f9b520e2c92ebd12d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:45 +0000
Subject: [PATCH 32/45] fix: classes derived from cached types claimed to be
 cached

---
 hwtypes/adt_meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index d44530b..45b5dd1 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -351,7 +351,8 @@ class BoundMeta(_GetitemSyntax): #, metaclass=ABCMeta):
 
     @property
     def is_cached(cls):
-        return getattr(cls, '_cached_', False)
+        # not inherited, the subclasses of a cached type are not cached
+        return cls.__dict__.get('_cached_', False)
 
 
 class TupleMeta(BoundMeta):
-- 
2.43.0


From fc7fe3a9b9aa2a94ed82c52ffab03a90977e2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:45 +0000
Subject: [PATCH 33/45] fix: rebind_keep_modifiers missed types nested next to
 occurrences of the rebound type

---
 hwtypes/adt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 880523c..f134fd5 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -111,7 +111,7 @@ def rebind_keep_modifiers(adt, A, B):
         new_adt = adt
         for field in adt.fields:
             new_field = rebind_keep_modifiers(field, A, B)
-            new_adt = new_adt.rebind(field, new_field)
+            new_adt = new_adt.rebind(field, new_field, rebind_recursive=False)
         return new_adt
     else:
         return adt
-- 
2.43.0


From e239fff8ac95a5839303bd18e75a66fd10395585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:45 +0000
Subject: [PATCH 34/45] fix: rebinding failed on unbound types and on derived
 types with nothing to rebind

---
 hwtypes/adt_meta.py | 6 ++++++
 hwtypes/adt_util.py | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 45b5dd1..a69b507 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -111,6 +111,8 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
         pass
 
     def rebind(cls, A: type, B: type, rebind_sub_types: bool = False, rebind_recursive: bool = True):
+        if not cls.is_bound:
+            return cls
         new_fields = []
         for T in cls.fields:
             if T == A or (rebind_sub_types and _issubclass(T,A)):
@@ -119,6 +121,8 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
                 new_fields.append(T.rebind(A, B, rebind_sub_types))
             else:
                 new_fields.append(T)
+        if new_fields == list(cls.fields):
+            return cls
         return cls.unbound_t[cls._idx_from_fields(new_fields)]
 
     def _idx_from_fields(cls, fields):
@@ -214,6 +218,8 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
         pass
 
     def rebind(cls, A: type, B: type, rebind_sub_types: bool = False, rebind_recursive: bool = True):
+        if not cls.is_bound:
+            return cls
         new_fields = OrderedDict()
         for field, T in cls.field_dict.items():
             if T == A or (rebind_sub_types and _issubclass(T,A)):
diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index f134fd5..8cca531 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -87,7 +87,7 @@ def rebind_bitvector(
             return bv_type_1[adt.size]
         else:
             return bv_type_1
-    elif isinstance(adt, BoundMeta):
+    elif isinstance(adt, BoundMeta) and adt.is_bound:
         _to_new = []
         for field in adt.fields:
             new_field = rebind_bitvector(field, bv_type_0, bv_type_1,keep_modifiers)
@@ -107,7 +107,7 @@ def rebind_keep_modifiers(adt, A, B):
 
     if _issubclass(adt,A):
         return B
-    elif isinstance(adt, BoundMeta):
+    elif isinstance(adt, BoundMeta) and adt.is_bound:
         new_adt = adt
         for field in adt.fields:
             new_field = rebind_keep_modifiers(field, A, B)
-- 
2.43.0


From 7d00ff2e8d5c418bed844c2397ecb3030348452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 35/45] fix: strip_modifiers and push_modifiers replaced
 uncached types without modifiers and failed on unbound types

---
 hwtypes/modifiers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index 52b33d9..59a9885 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -137,10 +137,12 @@ def wrap_modifier(T, mods):
 def strip_modifiers(adt_t):
     #remove modifiers from this level
     adt_t, _ = unwrap_modifier(adt_t)
-    if not hasattr(adt_t, "unbound_t"):
+    if not hasattr(adt_t, "unbound_t") or not getattr(adt_t, "is_bound", True):
         return adt_t
     elif isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
+        if new_fields == adt_t.field_dict:
+            return adt_t
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in adt_t.fields]
@@ -153,11 +155,17 @@ def push_modifiers(adt_t, mods=[]):
     #remove modifiers from this level
     adt_t, new_mods = unwrap_modifier(adt_t)
     mods = new_mods + mods
-    if isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
+    if not getattr(adt_t, "is_bound", True):
+        return wrap_modifier(adt_t, mods)
+    elif isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
+        if new_fields == adt_t.field_dict:
+            return adt_t
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [push_modifiers(sub_adt_t, mods) for sub_adt_t in adt_t.fields]
+        if new_fields == list(adt_t.fields):
+            return adt_t
         return adt_t.unbound_t[adt_t._idx_from_fields(new_fields)]
     else:
         return wrap_modifier(adt_t, mods)
-- 
2.43.0


From 947c2867da81334365190ff2970e42c2b1c428c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 36/45] fix: a FrozenDict and an OrderedFrozenDict could be
 equal with different hashes

---
 hwtypes/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/util.py b/hwtypes/util.py
index cf52ebc..1aa1deb 100644
--- a/hwtypes/util.py
+++ b/hwtypes/util.py
@@ -37,7 +37,9 @@ class OrderedFrozenDict(FrozenDict):
 
     def __init__(self, *args, **kwargs):
         self._d = OrderedDict(*args, **kwargs)
-        self._hash = hash(tuple(self.items()))
+        # does not depend on the order as a FrozenDict with the same
+        # items is equal
+        self._hash = hash(frozenset(self.items()))
 
 
 class TypedProperty:
-- 
2.43.0


From 9fa8de2acb1a97caeb9801dde12f11cb7a95db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:36 +0000
Subject: [PATCH 37/45] fix: rebind_keep_modifiers replaced fields that another
 field had just been rebound to

---
 hwtypes/adt_util.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 8cca531..2dbb7a8 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -1,5 +1,5 @@
 from abc import ABCMeta, abstractmethod
-from .adt_meta import BoundMeta
+from .adt_meta import BoundMeta, EnumMeta, AttrSyntax
 from .bit_vector_abc import AbstractBitVectorMeta, AbstractBitVector, AbstractBit
 
 from .util import _issubclass
@@ -107,14 +107,19 @@ def rebind_keep_modifiers(adt, A, B):
 
     if _issubclass(adt,A):
         return B
-    elif isinstance(adt, BoundMeta) and adt.is_bound:
-        new_adt = adt
-        for field in adt.fields:
-            new_field = rebind_keep_modifiers(field, A, B)
-            new_adt = new_adt.rebind(field, new_field, rebind_recursive=False)
-        return new_adt
-    else:
+    elif not isinstance(adt, BoundMeta) or isinstance(adt, EnumMeta) or not adt.is_bound:
         return adt
+    # all fields at once, as the result for one may be another one of them
+    elif isinstance(adt, AttrSyntax):
+        new_fields = {n: rebind_keep_modifiers(T, A, B) for n, T in adt.field_dict.items()}
+        if new_fields == adt.field_dict:
+            return adt
+        return adt.unbound_t.from_fields(adt.__name__, new_fields, cache=adt.is_cached)
+    else:
+        new_fields = [rebind_keep_modifiers(T, A, B) for T in adt.fields]
+        if new_fields == list(adt.fields):
+            return adt
+        return adt.unbound_t[adt._idx_from_fields(new_fields)]
 
 #rebind_type will rebind a type to a different family
 #Types that will be rebinded:
-- 
2.43.0


From 08ea10b939e936f4844f2bd213300e32294af60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:04 +0000
Subject: [PATCH 38/45] fix: values of types with fields named self or cls
 could not be made by name

---
 hwtypes/adt.py      | 3 ++-
 hwtypes/adt_meta.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index f97513c..6a9f1bf 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -216,7 +216,8 @@ class Sum(metaclass=SumMeta):
 
 
 class TaggedUnion(Sum, metaclass=TaggedUnionMeta):
-    def __init__(self, **kwargs):
+    # positional as there may be a field named self
+    def __init__(self, /, **kwargs):
         if len(kwargs) == 0:
             raise ValueError('Must specify a value')
         elif len(kwargs) != 1:
diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index a69b507..1f1659f 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -242,7 +242,8 @@ class BoundMeta(_GetitemSyntax): #, metaclass=ABCMeta):
     # (UnboundType, (types...)) : BoundType
     _class_cache = weakref.WeakValueDictionary()
 
-    def __call__(cls, *args, **kwargs):
+    # positional as there may be a field named cls
+    def __call__(cls, /, *args, **kwargs):
         if not cls.is_bound:
             obj = cls.__new__(cls, *args, **kwargs)
             if not type(obj).is_bound:
-- 
2.43.0


From 85fef48c86f837742d4659247d4f87c54be3778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 39/45] fix: Sum.from_values lost the alternative of values of
 a subtype

---
 hwtypes/adt.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 6a9f1bf..53a389b 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -206,8 +206,14 @@ class Sum(metaclass=SumMeta):
     @classmethod
     def _from_kwargs(cls, kwargs):
         assert len(kwargs) == 1
-        _, v = kwargs.popitem()
-        return cls(v)
+        k, v = kwargs.popitem()
+        T = cls.field_dict[k]
+        if T is type(v):
+            return cls(v)
+        # the constructor selects the alternative by the exact type
+        obj = cls.__new__(cls)
+        obj[T] = v
+        return obj
 
     @property
     def value(self):
-- 
2.43.0


From 1ed90ca46379b783f6a771c01825f164e518c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 40/45] fix: class statements differing only in a special
 method gave the same cached type

---
 hwtypes/adt_meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 1f1659f..c2c845f 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -164,7 +164,9 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
             if cache:
                 ns_idx = set()
                 for k,v in ns.items():
-                    if not _is_dunder(k):
+                    # special methods (but not __module__ and the like)
+                    # make a difference too
+                    if not _is_dunder(k) or _is_descriptor(v):
                         ns_idx.add((k,v))
 
                 if mcs.ORDERED:
-- 
2.43.0


From c25298ca470daa80d9dc232a788e436b406f317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 41/45] fix: FPVector.random always used the same mantissa

---
 hwtypes/fp_vector.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index f2f88e8..7ad5cda 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -383,13 +383,8 @@ class FPVector(AbstractFPVector):
     @set_context
     def random(cls, allow_inf=True) -> 'FPVector':
         bias = (1 << (cls.exponent_size - 1)) - 1
-        if allow_inf:
-            sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
-            exp = random.randint(1-bias, bias+1)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
-        else:
-            sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
-            exp = random.randint(1-bias, bias)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
+        sign = random.choice([-1, 1])
+        # an exact significand in [1, 2), so that nothing rounds up to inf
+        mantissa = 1 + gmpy2.mpq(random.getrandbits(cls.mantissa_size), 1 << cls.mantissa_size)
+        exp = random.randint(1-bias, bias+1 if allow_inf else bias)
+        return cls(gmpy2.mpfr(sign*mantissa*gmpy2.mpq(2)**exp, cls.mantissa_size + 1))
-- 
2.43.0


From 238ef841be5fdaba3963b04d3674c60b35848a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:15 +0000
Subject: [PATCH 42/45] fix: Product values could not be copied

---
 hwtypes/adt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 53a389b..7b06b8c 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -94,6 +94,10 @@ class Tuple(metaclass=TupleMeta):
         return self._value_
 
 class AnonymousProduct(Tuple, metaclass=AnonymousProductMeta):
+    def __getnewargs__(self):
+        # copying calls __new__, which takes the fields
+        return self._value_
+
     def __repr__(self):
         return f'{type(self).__name__}({", ".join(f"{k}={v}" for k,v in self.value_dict.items())})'
 
-- 
2.43.0


From 36e9d45bff0757e14cb46684c563ec0a1c57aaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:22 +0000
Subject: [PATCH 43/45] fix: index SMT vectors with ints of any type (IntEnum
 members, bools) as concrete and z3 vectors are

---
 hwtypes/smt_bit_vector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 3ec1b10..b8832ee 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -1,6 +1,7 @@
 import typing as tp
 import itertools as it
 import functools as ft
+import operator
 from .bit_vector_abc import AbstractBitVector, AbstractBit, TypeFamily, InconsistentSizeError
 from .bit_vector_util import build_ite
 from .util import Method
@@ -335,7 +336,8 @@ class SMTBitVector(AbstractBitVector):
             elif step != 1:
                 raise IndexError('SMT extract does not support step != 1')
 
-            v = self.value[start:stop-1]
+            # pysmt takes nothing but exact ints
+            v = self.value[int(operator.index(start)):stop-1]
             return type(self).unsized_t[v.get_type().width](v)
         elif isinstance(index, int):
             if index < 0:
@@ -344,7 +346,7 @@ class SMTBitVector(AbstractBitVector):
             if not (0 <= index < size):
                 raise IndexError()
 
-            v = self.value[index]
+            v = self.value[int(index)]
             return self.get_family().Bit(smt.Equals(v, smt.BV(1, 1)))
         else:
             raise TypeError()
-- 
2.43.0


From 968bdcad1c97900dc1682089f27020ca9e14af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:51 +0000
Subject: [PATCH 44/45] fix: SMTInt refuses int subclasses (IntEnum members)
 while it takes any other object with __int__

---
 hwtypes/smt_int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_int.py b/hwtypes/smt_int.py
index 9b7b17a..e0750de 100644
--- a/hwtypes/smt_int.py
+++ b/hwtypes/smt_int.py
@@ -60,7 +60,7 @@ class SMTInt:
         elif isinstance(value, bool):
             self._value = smt.Int(int(value))
         elif isinstance(value, int):
-            self._value = smt.Int(value)
+            self._value = smt.Int(int(value))
         elif hasattr(value, '__int__'):
             self._value = smt.Int(int(value))
         else:
-- 
2.43.0


From 402adf7b42bada0d59c468cc27f3bcd56e5aa0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:51 +0000
Subject: [PATCH 45/45] fix: SMTFPVector refuses bools and int subclasses with
 a pysmt error

---
 hwtypes/smt_fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index c0ff428..eed7970 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -85,7 +85,7 @@ class SMTFPVector(AbstractFPVector):
         elif isinstance(value, type(self)):
             value = value._value
         elif isinstance(value, int):
-            value = shortcuts.BV(value, self.size)
+            value = shortcuts.BV(int(value), self.size)
         else:
             raise TypeError(f"Can't coerce {value} to SMTFPVector")
 
-- 
2.43.0

