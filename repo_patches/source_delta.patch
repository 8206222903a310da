From 2360c3890e0006118dfe29127fd6103ffc115e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 01/38] fix: multiclans.is_right_regular cached and returned
 'regular' instead of 'right-regular'

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index ff0539b..83bf8b0 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -609,8 +609,8 @@ def is_right_regular(mclan, _checked=True) -> bool:
         right_set = rel.get_right_set()
         right_regular = all(
             _relations.is_right_functional(rel) and right_set == rel.get_right_set() for rel in itr)
-        mclan.cache_regular(CacheStatus.from_bool(right_regular))
-    return mclan.cached_is_regular
+        mclan.cache_right_regular(CacheStatus.from_bool(right_regular))
+    return mclan.cached_is_right_regular
 
 
 def is_reflexive(mclan, _checked=True) -> bool:
-- 
2.43.0


From 4f75aab8337e010840850ed471f686b99bf0fa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 02/38] fix: indexing a multiclan returned a filled multiset
 with the cached properties of the empty one

---
 algebraixlib/mathobjects/multiset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index a68bfe1..239b8fb 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -304,12 +304,12 @@ class Multiset(MathObject):
     def _getitem_multiclan(self, left):
         """Return a multiset with the rights of all the couplets in all relations that have a
         left of ``left``."""
-        result = Multiset()
+        result = _collections.Counter()
         for rel in self:
             rel_result = rel[left]
             if rel_result is not _ud.Undef():
-                result.data.update(rel_result)
-        return result
+                result.update(rel_result)
+        return Multiset(result, direct_load=True)
 
     def _getitem_multirelation(self, left):
         """Return a multiset with the rights of all the couplets that have a left of ``left``."""
-- 
2.43.0


From b32cbc9a5d65c4ceb04efe31c476e43185e53617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 03/38] fix: the power set of the empty relation was cached as
 not regular

---
 algebraixlib/algebras/sets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/sets.py b/algebraixlib/algebras/sets.py
index 48dd7af..be20334 100644
--- a/algebraixlib/algebras/sets.py
+++ b/algebraixlib/algebras/sets.py
@@ -569,8 +569,9 @@ def power_set(set_: _mo.Set):
             result.cache_absolute(set_.cached_absolute)
             result.cache_functional(set_.cached_functional)
             result.cache_right_functional(set_.cached_right_functional)
-            result.cache_regular(CacheStatus.IS_NOT)
-            result.cache_right_regular(CacheStatus.IS_NOT)
+            if not set_.is_empty:
+                result.cache_regular(CacheStatus.IS_NOT)
+                result.cache_right_regular(CacheStatus.IS_NOT)
     return result
 
 
-- 
2.43.0


From 4caf135a1a9ef27209b8d000ac8097efe8975fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 04/38] fix: clan functional unions cached properties of
 operand relations that may drop out of the result

---
 algebraixlib/algebras/clans.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index c273c6c..0203435 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -163,8 +163,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if clan1.cached_is_not_right_functional or clan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -198,10 +196,8 @@ class Algebra:
             result.cache_clan(CacheStatus.IS)
             if lhs.cached_is_functional:
                 result.cache_functional(CacheStatus.IS)
-            if lhs.cached_is_not_right_functional or rhs.cached_is_not_right_functional:
+            if lhs.cached_is_not_right_functional:
                 result.cache_right_functional(CacheStatus.IS_NOT)
-            if not rhs.is_empty and not lhs_rest.is_empty:
-                result.cache_regular(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -232,8 +228,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if clan1.cached_is_not_functional or clan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From 9fc35902775f947500f110e5f0a7ad8c5d8a40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 05/38] fix: multiclan functional unions cached properties of
 operand relations that may drop out of the result

---
 algebraixlib/algebras/multiclans.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 83bf8b0..b4b1c3c 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -162,8 +162,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if mclan1.cached_is_not_right_functional or mclan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -192,8 +190,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if multiclan1.cached_is_not_functional or multiclan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From f5cb38955f1c6f23b46c9e74d3ae36928a6c7f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 06/38] fix: multiclans.superstrict took the multiplicities
 from the second operand

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index b4b1c3c..2c83de7 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -295,7 +295,7 @@ class Algebra:
         result = _extension.binary_multi_extend(multiclan1, multiclan2, _functools.partial(
             _sets.superstrict, _checked=False), _checked=False)
         for elem, multi in result.data.items():
-            result.data[elem] = multiclan2.data[elem]
+            result.data[elem] = multiclan1.data[elem]
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             if multiclan1.cached_is_functional:
-- 
2.43.0


From b7bf3ff41bcfc3333fa876108fd87946a51e145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 07/38] fix: is_right_regular of the empty clan and multiclan
 failed with StopIteration

---
 algebraixlib/mathobjects/multiset.py | 1 +
 algebraixlib/mathobjects/set.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index 239b8fb..efddd9a 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -66,6 +66,7 @@ def _init_cache_empty() -> int:
     flags.f.functional = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     # These three are defined for multiclans (multisets of relations), where they inherit the
     # definition from (non-multi) relations.
     flags.f.reflexive = CacheStatus.IS
diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index 95507fb..be3d57f 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -93,6 +93,7 @@ def _init_cache_empty() -> int:
     flags.f.relation = CacheStatus.IS
     flags.f.functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.reflexive = CacheStatus.IS
     flags.f.symmetric = CacheStatus.IS
-- 
2.43.0


From 075a5443da9c0a15ce0eb43d9781eb0a2a50a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 08/38] fix: unary_extend with _checked=False failed on Undef()
 instead of returning it

---
 algebraixlib/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/extension.py b/algebraixlib/extension.py
index 73729ac..4365216 100644
--- a/algebraixlib/extension.py
+++ b/algebraixlib/extension.py
@@ -111,7 +111,7 @@ def unary_extend(set_: 'P( M )', op, _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
     else:
         assert _sets.is_member_or_undef(set_)
-        if set is _undef.Undef():
+        if set_ is _undef.Undef():
             return _undef.make_or_raise_undef(2)
 
     def _get_values(_set):
-- 
2.43.0


From 416b2b57c33c0e3fae032020d4ff00fe7a335e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 09/38] fix: slicing a multiclan with a plain integer offset
 used the limit as offset

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 2c83de7..fe2d01a 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -694,7 +694,7 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(offset, _mo.Atom) and isinstance(offset.value, int):
             pass
         elif isinstance(offset, int):
-            offset = _mo.Atom(limit)
+            offset = _mo.Atom(offset)
         elif offset is _undef.Undef():
             return _undef.make_or_raise_undef(2)
         else:
-- 
2.43.0


From 8605418da44e44750be61d246129f508cbb090a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 10/38] fix: slices of multiclans that are empty or lie inside
 the copies of one relation were wrong

---
 algebraixlib/algebras/multiclans.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index fe2d01a..17c67d3 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -726,6 +726,9 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
     if start_offset == 0 and end_offset >= float('inf'):
         # Effectively no offset and limit. Return sorted list as-is.
         return counter_list
+    if end_offset == start_offset:
+        # Nothing requested.
+        return []
 
     # Find the list indices of the first and last tuple (representing a relation and a multiplicity)
     # and the resulting multiplicities in these first and last tuples (which may be different from
@@ -754,6 +757,9 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
         # No end_index found: end_offset is bigger than all existing offsets. Put end_index beyond
         # list bounds.
         end_index = len(counter_list)
+    elif end_index == start_index:
+        # The selected range starts and ends in the same tuple.
+        first_multiple = last_multiple = end_offset - start_offset
 
     # If needed, adjust the multiplicities of the first and last tuple in the selected range.
     if start_index < len(counter_list) and counter_list[start_index][1] != first_multiple:
-- 
2.43.0


From b0892b2820cead523f5b698a6bbbf9afcc748466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 11/38] fix: multiclans.get_rights_for_left failed with
 StopIteration for the empty multiclan

---
 algebraixlib/algebras/multiclans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 17c67d3..f7beee5 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -496,6 +496,8 @@ def get_rights_for_left(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True)
             return _undef.make_or_raise_undef(2)
         if left is _undef.Undef():
             return _mo.Set()
+    if mclan.is_empty:
+        return mclan
     clan_itr = iter(mclan)
     rights = _sets.multify(_relations.get_rights_for_left(next(clan_itr), left, _checked=False))
     for rel in clan_itr:
-- 
2.43.0


From fcf175cf4df9fc8bfe3d67e45772082b4e14b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 12/38] fix: is_regular and is_right_regular of sets of clans
 called non-existing methods

---
 algebraixlib/algebras/properties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 271e2d4..1a667ba 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -332,9 +332,9 @@ def is_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_regular(elem1):
             mo.cache_regular(CacheStatus.IS_NOT)
             return False
-        elem1_lefts = elem1.get_lefts()
+        elem1_lefts = elem1.get_left_set()
         regular = all(
-            is_regular(elem, _checked=False) and elem.get_lefts() == elem1_lefts
+            is_regular(elem, _checked=False) and elem.get_left_set() == elem1_lefts
             for elem in mo_iter)
         mo.cache_regular(CacheStatus.from_bool(regular))
         return mo.cached_is_regular
@@ -380,9 +380,9 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_right_regular(elem1):
             mo.cache_right_regular(CacheStatus.IS_NOT)
             return False
-        elem1_rights = elem1.get_rights()
+        elem1_rights = elem1.get_right_set()
         right_regular = all(
-            is_right_regular(elem, _checked=False) and elem.get_rights() == elem1_rights
+            is_right_regular(elem, _checked=False) and elem.get_right_set() == elem1_rights
             for elem in mo_iter)
         mo.cache_right_regular(CacheStatus.from_bool(right_regular))
         return mo.cached_is_right_regular
-- 
2.43.0


From c4bbe95951b5451d33c0b1e3b7edd0d83407f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 13/38] fix: clans.from_set cached right-regular for clans with
 different rights

---
 algebraixlib/algebras/clans.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 0203435..7d1b108 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -696,7 +696,8 @@ def from_set(left: '( M )', *values: '( M )') -> 'PP(M x M)':
         direct_load=True)
     clan.cache_clan(CacheStatus.IS)
     clan.cache_functional(CacheStatus.IS).cache_right_functional(CacheStatus.IS)
-    clan.cache_regular(CacheStatus.IS).cache_right_regular(CacheStatus.IS)
+    clan.cache_regular(CacheStatus.IS)
+    clan.cache_right_regular(CacheStatus.from_bool(clan.cardinality <= 1))
     return clan
 
 
-- 
2.43.0


From 4d87a7b8117f227fdbc4db3b0abdc7b9cfc63776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 14/38] fix: mojson did not encode the elements of lists and
 tuples

---
 algebraixlib/import_export/mojson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index 5d7c7cb..c43b9b5 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -40,11 +40,11 @@ def encode(obj):
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-        return {'__cls__': 'builtin.list', '__val__': obj}
+        return {'__cls__': 'builtin.list', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, range):
         return {'__cls__': 'builtin.range', '__val__': [obj.start, obj.stop, obj.step]}
     if isinstance(obj, tuple):
-        return {'__cls__': 'builtin.tuple', '__val__': obj}
+        return {'__cls__': 'builtin.tuple', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, _mo.Atom):
         return {'__cls__': 'Atom', '__val__': encode(obj.value)}
     if isinstance(obj, _mo.Couplet):
-- 
2.43.0


From 6afafd304955693e1d93662d5162dd921736c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 15/38] fix: triple_match failed with IndexError for empty
 strings

---
 algebraixlib/util/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/rdf.py b/algebraixlib/util/rdf.py
index a37f8c5..aa8a769 100644
--- a/algebraixlib/util/rdf.py
+++ b/algebraixlib/util/rdf.py
@@ -122,7 +122,7 @@ def triple_match(rdf_graph: 'PP(A x M)', subject=None, predicate=None, object_=N
 
     def add(rdf_left, value):
         if value is not None:
-            if isinstance(value, str) and value[0] in '?$':
+            if isinstance(value, str) and value[:1] in ('?', '$'):
                 projection[rdf_left] = value
             else:
                 pattern[rdf_left] = value
-- 
2.43.0


From 4be4a01f695644cb970eb21cccab2c9a2aed6def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 16/38] fix: Multiset lost multiplicities of dictionary keys
 that represent the same element

---
 algebraixlib/mathobjects/multiset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index efddd9a..2559b74 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -117,7 +117,7 @@ class Multiset(MathObject):
                 else:
                     # only asserting in non direct mode, assumption is direct load has good data.
                     assert isinstance(elements[key], int) and elements[key] > 0
-                    self._data[auto_convert(key)] = elements[key]
+                    self._data[auto_convert(key)] += elements[key]
         elif isinstance(elements, str):
             # Strings are iterable, but we treat them as a single value in this case.
             self._data = _collections.Counter({auto_convert(elements): 1})
-- 
2.43.0


From 1dbb3d83b210dd734acc80927fb5a6b6f067df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 17/38] fix: couplets with an empty set as right component had
 no ground set (AssertionError)

---
 algebraixlib/mathobjects/couplet.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/mathobjects/couplet.py b/algebraixlib/mathobjects/couplet.py
index 77c965d..f616f9f 100755
--- a/algebraixlib/mathobjects/couplet.py
+++ b/algebraixlib/mathobjects/couplet.py
@@ -119,8 +119,14 @@ class Couplet(MathObject):
     def get_ground_set(self) -> _structure.Structure:
         """Return the :term:`ground set` of the lowest-level algebra of ``self``.
         """
+        def component_ground_set(component):
+            # The ground set of an empty set or multiset is the empty structure. Of the components of
+            # a couplet we need the set they are members of.
+            ground_set = component.get_ground_set()
+            return _structure.PowerSet(ground_set) if component.is_empty else ground_set
+
         return _structure.CartesianProduct(
-            self.left.get_ground_set(), self.right.get_ground_set())
+            component_ground_set(self.left), component_ground_set(self.right))
 
     # ----------------------------------------------------------------------------------------------
     # (Python-)Special functions.
-- 
2.43.0


From e0330b5bf0394e7342596f9b9b08836b03e02604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 18/38] fix: sets that contain the empty set and couplets were
 taken for relations

---
 algebraixlib/algebras/clans.py      | 4 ++--
 algebraixlib/algebras/multiclans.py | 4 ++--
 algebraixlib/algebras/relations.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 7d1b108..f37605a 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -398,7 +398,7 @@ def is_member(obj: _mo.MathObject) -> bool:
         this operation is cached.
     """
     if obj.cached_clan == CacheStatus.UNKNOWN:
-        is_clan = obj.get_ground_set().is_subset(get_ground_set())
+        is_clan = obj.is_set and all(_relations.is_member(rel) for rel in obj.data)
         obj.cache_clan(CacheStatus.from_bool(is_clan))
     return obj.cached_is_clan
 
@@ -421,7 +421,7 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
         of this operation is cached.
     """
-    if obj.cached_is_not_clan:
+    if not is_member(obj):
         # If known to not be a clan, it's also not an absolute clan. No further caching.
         return False
     # The `or` clause in this `if` statement is a safety thing. It should never hit.
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index f7beee5..26135e4 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -369,7 +369,7 @@ def is_member(obj: _mo.MathObject) -> bool:
         this operation is cached.
     """
     if obj.cached_multiclan == CacheStatus.UNKNOWN:
-        is_multiclan = obj.get_ground_set().is_subset(get_ground_set())
+        is_multiclan = obj.is_multiset and all(_relations.is_member(rel) for rel in obj.data)
         obj.cache_multiclan(CacheStatus.from_bool(is_multiclan))
     return obj.cached_is_multiclan
 
@@ -392,7 +392,7 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
         of this operation is cached.
     """
-    if obj.cached_is_not_multiclan:
+    if not is_member(obj):
         # If known to not be a multiclan, it's also not an absolute multiclan. No further caching.
         return False
     # The `or` clause in this `if` statement is a safety thing. It should never hit.
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index bf0181b..6f1d4d5 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -196,7 +196,7 @@ def is_member(obj: _mo.MathObject) -> bool:
         of this operation is cached.
     """
     if obj.cached_relation == CacheStatus.UNKNOWN:
-        is_relation = obj.get_ground_set().is_subset(get_ground_set())
+        is_relation = obj.is_set and all(elem.is_couplet for elem in obj.data)
         obj.cache_relation(CacheStatus.from_bool(is_relation))
     return obj.cached_is_relation
 
@@ -219,7 +219,7 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
         of this operation is cached.
     """
-    if obj.cached_is_not_relation:
+    if not is_member(obj):
         # If known to not be a relation, it's also not an absolute relation. No further caching.
         return False
     # The `or` clause in this `if` statement is a safety thing. It should never hit.
-- 
2.43.0


From 0ab1a2c425e4f2d2711503c804006f6b85d5fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 19/38] fix: structure unions kept parts that are subsets of
 other parts

---
 algebraixlib/structure.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index f4a482f..d234ea8 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -411,18 +411,14 @@ class Union(Structure):
         def _add_element(new_element):
             """Add an element (a Structure) to the union if it is not already in it."""
             assert isinstance(new_element, Structure)
-            for existing_element in writeable_union:
+            for existing_element in list(writeable_union):
                 if new_element.is_subset(existing_element):
                     # To be added element is subset of existing element: nothing to add.
-                    break
+                    return
                 elif existing_element.is_subset(new_element):
-                    # To be added element is (real) superset of existing element: exchange them.
+                    # To be added element is (real) superset of existing element: it replaces it.
                     writeable_union.remove(existing_element)
-                    writeable_union.add(new_element)
-                    break
-            else:
-                # To be added element is neither subset nor superset of existing: add it.
-                writeable_union.add(new_element)
+            writeable_union.add(new_element)
 
         writeable_union = set()
         for new_structure in iterable:
-- 
2.43.0


From 1707f503d68801fb3327d9d3ebf3d9818e21d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 20/38] fix: structures were not subsets of unions that contain
 them

---
 algebraixlib/structure.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index d234ea8..1906dbe 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -151,6 +151,11 @@ class Structure(object):
         return '{}'
 
 
+def _is_subset_of_union_part(structure, other) -> bool:
+    """Return ``True`` if ``other`` is a `Union` and ``structure`` is a subset of one of its parts."""
+    return isinstance(other, Union) and any(structure.is_subset(part) for part in other.data)
+
+
 class GenesisSetA(Structure):
     r"""The set of all :term:`atom`\s. Is functionally a singleton."""
 
@@ -161,7 +166,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
-        return type(other) == GenesisSetA or type(other) == GenesisSetM
+        return type(other) == GenesisSetA or type(other) == GenesisSetM \
+            or _is_subset_of_union_part(self, other)
 
     def get_powerset_level(self, other: Structure) -> int:
         """Return the number of power set levels between ``self`` and ``other``.
@@ -215,7 +221,7 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
-        return type(other) == GenesisSetM
+        return type(other) == GenesisSetM or _is_subset_of_union_part(self, other)
 
     def get_powerset_level(self, other):
         """Return the number of power set levels between ``self`` and ``other``.
@@ -262,7 +268,7 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
-        return type(other) == GenesisSetN
+        return type(other) == GenesisSetN or _is_subset_of_union_part(self, other)
 
     def get_powerset_level(self, other):
         """Return the number of power set levels between ``self`` and ``other``.
@@ -349,10 +355,7 @@ class CartesianProduct(Structure):
         elif isinstance(other, CartesianProduct):
             return is_subset_of_cart_prod(other)
         elif isinstance(other, Union):
-            for union_elem in other.data:
-                if isinstance(union_elem, CartesianProduct):
-                    if is_subset_of_cart_prod(union_elem):
-                        return True
+            return _is_subset_of_union_part(self, other)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -545,7 +548,7 @@ class PowerSet(Structure):
             return True
         elif isinstance(other, PowerSet):
             return self._base_set.is_subset(other._base_set)
-        return False
+        return _is_subset_of_union_part(self, other)
 
     def get_powerset_level(self, other: Structure) -> int:
         """Return the number of :term:`power set` levels between ``self`` and ``other``.
-- 
2.43.0


From 13c0f25efeb1f927fdfc8745a00b5d8edcc588e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 21/38] fix: from_dict turned None values into copies of their
 keys

---
 algebraixlib/algebras/clans.py     | 2 +-
 algebraixlib/algebras/relations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index f37605a..840a47c 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -704,7 +704,7 @@ def from_set(left: '( M )', *values: '( M )') -> 'PP(M x M)':
 def from_dict(dict1: dict) -> 'PP(M x M)':
     r"""Return a :term:`clan` with a single :term:`relation` where the :term:`couplet`\s are the
     elements of ``dict1``."""
-    rel = _mo.Set((_mo.Couplet(left, right) for left, right in dict1.items()), direct_load=True)
+    rel = _mo.Set((_mo.Couplet(left, _mo.auto_convert(right)) for left, right in dict1.items()), direct_load=True)
     rel.cache_relation(CacheStatus.IS)
     rel.cache_functional(CacheStatus.IS)
     clan = _mo.Set(rel, direct_load=True)
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index 6f1d4d5..7d9ee51 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -588,7 +588,7 @@ def functional_add(func: 'P(M x M)', element: 'M x M') -> 'P(M x M)':
 
 def from_dict(dict1: dict) -> 'P(M x M)':
     r"""Return a :term:`relation` where the :term:`couplet`\s are the elements of ``dict1``."""
-    return _mo.Set((_mo.Couplet(left, right) for left, right in dict1.items()), direct_load=True)\
+    return _mo.Set((_mo.Couplet(left, _mo.auto_convert(right)) for left, right in dict1.items()), direct_load=True)\
         .cache_relation(CacheStatus.IS).cache_functional(CacheStatus.IS)
 
 
-- 
2.43.0


From 27c5306fe478c75bf0e486025692c1e713f99f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 22/38] fix: import_csv cached clans whose rows all miss the
 same columns as not regular

---
 algebraixlib/import_export/csv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 5017bc9..8f98d23 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -153,7 +153,8 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             yield key, val
 
     _util.get_left_cached.left_cache = {}
-    import_csv.regular = True  # Set to false if any row is missing one or more values
+    import_csv.regular = True  # Set to false if any row has other columns than the first row
+    import_csv.first_columns = None
 
     assert ((index_column is not None) & (has_dup_rows is False)) or (index_column is None)
 
@@ -165,7 +166,9 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
         _index = 0
         for row in reader:
             filtered_row = {key: val for key, val in _filter_row(row)}
-            if import_csv.regular and len(row) != len(filtered_row):
+            if import_csv.first_columns is None:
+                import_csv.first_columns = set(filtered_row)
+            elif import_csv.regular and set(filtered_row) != import_csv.first_columns:
                 import_csv.regular = False
             for key, val in types.items():
                 if key in filtered_row:
-- 
2.43.0


From 259177f2cab2b69743eab3e59a46679177750a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 23/38] fix: partition blocks of sets that are not clans were
 cached as not being clans

---
 algebraixlib/partition.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/partition.py b/algebraixlib/partition.py
index 5499ef8..c1d6bdb 100644
--- a/algebraixlib/partition.py
+++ b/algebraixlib/partition.py
@@ -17,6 +17,7 @@ r"""Operations for partitioning :term:`set`\s and :term:`multiset`\s."""
 import collections as _collections
 
 import algebraixlib.mathobjects as _mo
+from algebraixlib.cache_status import CacheStatus
 
 
 def _create_partition_dict_from_set(set_, class_invariant_func):
@@ -70,6 +71,12 @@ def _create_partition_dict_from_multiset(mset, class_invariant_func):
     return partition_dict
 
 
+def _block_status(cache_status):
+    """Return what is known about the blocks of a partition when ``cache_status`` is known about the
+    partitioned object. (A block of an object that isn't a clan may well be a clan.)"""
+    return CacheStatus.IS if cache_status == CacheStatus.IS else CacheStatus.UNKNOWN
+
+
 def partition(set_or_mset, class_invariant_func):
     r"""Return ``set_or_mset`` partitioned according to ``class_invariant_func``.
 
@@ -88,13 +95,13 @@ def partition(set_or_mset, class_invariant_func):
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         # Create the resulting Set of Sets from the partition components.
         return _mo.Set((_mo.Set(components, direct_load=True)
-            .cache_clan(set_or_mset.cached_clan)
+            .cache_clan(_block_status(set_or_mset.cached_clan))
             for components in partition_dict.values()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         # Create the resulting Set of Multisets from the partition components.
         return _mo.Set((_mo.Multiset(counter, direct_load=True)
-            .cache_multiclan(set_or_mset.cached_multiclan)
+            .cache_multiclan(_block_status(set_or_mset.cached_multiclan))
             for counter in partition_dict.values()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
@@ -119,12 +126,12 @@ def make_labeled_partition(set_or_mset, class_invariant_func):
     if set_or_mset.is_set:
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Set(components, direct_load=True)
-                .cache_clan(set_or_mset.cached_clan), direct_load=True)
+                .cache_clan(_block_status(set_or_mset.cached_clan)), direct_load=True)
             for label, components in partition_dict.items()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Multiset(counter, direct_load=True)
-                .cache_multiclan(set_or_mset.cached_multiclan), direct_load=True)
+                .cache_multiclan(_block_status(set_or_mset.cached_multiclan)), direct_load=True)
             for label, counter in partition_dict.items()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
-- 
2.43.0


From 4373a7d829413b1b7c0a6b60495809add1d2e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:20 +0000
Subject: [PATCH 24/38] fix: slicing a multiclan with an undefined limit raised
 TypeError

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 26135e4..dc3b5ea 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -704,10 +704,10 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(limit, _mo.Atom) \
                 and (isinstance(limit.value, int) or limit.value == float('inf')):
             pass
-        elif isinstance(limit, int) or limit == float('inf'):
-            limit = _mo.Atom(limit)
         elif limit is _undef.Undef():
             return _undef.make_or_raise_undef(2)
+        elif isinstance(limit, int) or limit == float('inf'):
+            limit = _mo.Atom(limit)
         else:
             return _undef.make_or_raise_undef()
     else:
-- 
2.43.0


From af64ad91d38379ac6cea638227c0b122ba85255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 25/38] fix: defined_at of clans and multiclans raised at level
 1 for relations that are not defined

---
 algebraixlib/algebras/relations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index 7d9ee51..a5e989b 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -607,6 +607,9 @@ def diag(*args, _checked=True) -> 'P(M x M)':
 def defined_at(rel, left, _checked=True):
     """Return ``rel`` if it has a :term:`couplet` with left component ``left`` else `Undef()`."""
     result = get_rights_for_left(rel, left, _checked)
-    if result is _undef.Undef() or not result:
-        return _undef.make_or_raise_undef2(result)
+    if result is _undef.Undef():
+        return _undef.make_or_raise_undef2(rel)
+    if result.is_empty:
+        # This is an expected outcome (see for example `clans.defined_at`).
+        return _undef.make_or_raise_undef(2)
     return rel
-- 
2.43.0


From 11934121e084e83496ab902d5e527a9bec584660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 26/38] fix: import_csv cached clans as not regular when the
 index column replaces a data column

---
 algebraixlib/import_export/csv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 8f98d23..8c92555 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -166,16 +166,16 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
         _index = 0
         for row in reader:
             filtered_row = {key: val for key, val in _filter_row(row)}
-            if import_csv.first_columns is None:
-                import_csv.first_columns = set(filtered_row)
-            elif import_csv.regular and set(filtered_row) != import_csv.first_columns:
-                import_csv.regular = False
             for key, val in types.items():
                 if key in filtered_row:
                     filtered_row[key] = val(filtered_row[key])
             if index_column is not None:
                 filtered_row[index_column] = _index
                 _index += 1
+            if import_csv.first_columns is None:
+                import_csv.first_columns = set(filtered_row)
+            elif import_csv.regular and set(filtered_row) != import_csv.first_columns:
+                import_csv.regular = False
             yield _mo.Set(
                 (_mo.Couplet(left=_util.get_left_cached(left), right=_mo.Atom(right),
                 direct_load=True) for left, right in filtered_row.items()), direct_load=True)\
-- 
2.43.0


From b7ad22636be2094a05ff11b23d959de6f1485866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 27/38] fix: atoms of different types were ordered
 intransitively, so that equal sets printed differently

---
 algebraixlib/mathobjects/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/mathobjects/atom.py b/algebraixlib/mathobjects/atom.py
index f83ad58..50d7ebf 100755
--- a/algebraixlib/mathobjects/atom.py
+++ b/algebraixlib/mathobjects/atom.py
@@ -179,7 +179,7 @@ class Atom(MathObject):
                     return self.value < other.value
             except TypeError:
                 pass
-            return repr(self.value) < repr(other.value)
+            return (self.type.__name__, repr(self.value)) < (other.type.__name__, repr(other.value))
         else:
             return super()._less_than(other)
 
-- 
2.43.0


From 71b5f06fcb079dfe7949c4887240505d3a7450a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 28/38] fix: mojson encodes complex values with full precision
 (str() drops digits on PyPy)

---
 algebraixlib/import_export/mojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index c43b9b5..824a904 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -36,7 +36,7 @@ def encode(obj):
     if isinstance(obj, bytes):
         return {'__cls__': 'builtin.bytes', '__val__': [elem for elem in obj]}
     if isinstance(obj, complex):
-        return {'__cls__': 'builtin.complex', '__val__': str(obj)}
+        return {'__cls__': 'builtin.complex', '__val__': repr(obj)}
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-- 
2.43.0


From 6c4888dccac0d8b3c645e267d70c7c37a136a6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 29/38] fix: a union of a single part compares equal to that
 part in both directions, with the same hash

---
 algebraixlib/structure.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 1906dbe..dc39ccf 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -117,7 +117,7 @@ class Structure(object):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
-        return type(other) == Structure
+        return type(_get_single_union_part(other)) == Structure
 
     # ----------------------------------------------------------------------------------------------
 
@@ -151,6 +151,14 @@ class Structure(object):
         return '{}'
 
 
+def _get_single_union_part(structure):
+    """Return the part of a union of a single part (which is equivalent to that part), else
+    ``structure`` itself."""
+    if isinstance(structure, Union) and len(structure.data) == 1:
+        return _misc.get_single_iter_elem(structure.data)
+    return structure
+
+
 def _is_subset_of_union_part(structure, other) -> bool:
     """Return ``True`` if ``other`` is a `Union` and ``structure`` is a subset of one of its parts."""
     return isinstance(other, Union) and any(structure.is_subset(part) for part in other.data)
@@ -185,7 +193,7 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
-        return type(other) == GenesisSetA
+        return type(_get_single_union_part(other)) == GenesisSetA
 
     # ----------------------------------------------------------------------------------------------
 
@@ -239,7 +247,7 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
-        return type(other) == GenesisSetM
+        return type(_get_single_union_part(other)) == GenesisSetM
 
     # ----------------------------------------------------------------------------------------------
 
@@ -286,7 +294,7 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
-        return type(other) == GenesisSetN
+        return type(_get_single_union_part(other)) == GenesisSetN
 
     # ----------------------------------------------------------------------------------------------
 
@@ -374,6 +382,7 @@ class CartesianProduct(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        other = _get_single_union_part(other)
         if isinstance(other, CartesianProduct):
             return (self.left == other.left) and (self.right == other.right)
         return False
@@ -505,6 +514,9 @@ class Union(Structure):
         """Return a hash based on the member values. (It must match the implementation of `is_same`,
         to which `Structure.__eq__` redirects equality comparisons.) Is always cached.
         """
+        if len(self.data) == 1:
+            # A union of a single part is equivalent to that part and must have the same hash.
+            return hash(_misc.get_single_iter_elem(self.data))
         return _misc.get_hash(_misc.get_full_class_name(self), self.data)
 
     def __repr__(self):
@@ -575,6 +587,7 @@ class PowerSet(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        other = _get_single_union_part(other)
         if isinstance(other, PowerSet):
             return self._base_set == other._base_set
         return False
-- 
2.43.0


From 5aa29eb4b0ba54a80d669e98e84c345d8593b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 30/38] fix: import_graph accepts file objects on Python
 versions where splitext raises TypeError

---
 algebraixlib/import_export/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index f8a8904..60bf86f 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -48,7 +48,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
     if rdf_format is None:
         try:
             rdf_format = _rdflib.util.guess_format(graph_file_or_filepath) or 'turtle'
-        except AttributeError:
+        except (AttributeError, TypeError):
             rdf_format = 'turtle'
 
     graph = _rdflib.Graph()
-- 
2.43.0


From eaf4776191ca8d937a60c145c3eefbce8b6fa490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 31/38] fix: import_graph converts blank nodes to IRIs (the
 result of skolemize() was dropped)

---
 algebraixlib/import_export/rdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 60bf86f..8bd47bc 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -53,8 +53,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
 
     graph = _rdflib.Graph()
     graph.parse(source=graph_file_or_filepath, format=rdf_format)
-    graph.skolemize()
-    return _convert_graph_to_mathobjects(graph)
+    return _convert_graph_to_mathobjects(graph.skolemize())
 
 
 class _ExportTable(_abc.ABC):
-- 
2.43.0


From cc5c3424625d05c290ae85fd64006395c17c371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 32/38] fix: JSON table export writes no leading comma when the
 first column is undefined in a row

---
 algebraixlib/import_export/rdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 8bd47bc..32eacf6 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -204,15 +204,16 @@ class _ExportTable(_abc.ABC):
         self._row_start()
         lefts_itr = iter(self._ordered_lefts)
         left = next(lefts_itr)
-        self._write_item_wrapper(relation, left, False)
+        has_items = self._write_item_wrapper(relation, left, False)
         for left in lefts_itr:
             self._item_between_couplets()
-            self._write_item_wrapper(relation, left, True)
+            has_items = self._write_item_wrapper(relation, left, has_items) or has_items
         self._row_end()
 
     def _write_item_wrapper(self, relation: 'P(A x A)', left: '( A )', prefix_separator: bool):
         right = _relations.get_right(relation, left)
         self._write_item(left, right, prefix_separator)
+        return right is not _ud.Undef()
 
 
 def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format: str='csv'):
-- 
2.43.0


From 286728c3a00f49754b0b58109a6056814a199ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 33/38] fix: JSON table export escapes special characters

---
 algebraixlib/import_export/rdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 32eacf6..834d796 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -15,6 +15,7 @@
 # If not, see <http://www.gnu.org/licenses/>.
 # --------------------------------------------------------------------------------------------------
 import abc as _abc
+import json as _json
 import rdflib as _rdflib
 
 import algebraixlib.algebras.clans as _clans
@@ -319,7 +320,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                 self._write_atom(right)
                 self._file.write('}\n')
         def _write_atom(self, atom: _mo.Atom):
-            self._file.write('"' + str(atom.value) + '"')
+            self._file.write(_json.dumps(str(atom.value), ensure_ascii=False))
 
     assert _clans.is_absolute_member(table)
     sorted_lefts = sorted(lefts)
-- 
2.43.0


From fe3c6a80f7a185ece6f246b26544c3c6f0376fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 34/38] fix: export_table of a table without rows

---
 algebraixlib/import_export/rdf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 834d796..1549600 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -194,11 +194,12 @@ class _ExportTable(_abc.ABC):
 
     def _write_body(self):
         self._body_start()
-        relation_itr = iter(self._clan)
-        self._write_row(next(relation_itr))
-        for relation in relation_itr:
-            self._row_between_relations()
+        is_first = True
+        for relation in self._clan:
+            if not is_first:
+                self._row_between_relations()
             self._write_row(relation)
+            is_first = False
         self._body_end()
 
     def _write_row(self, relation: 'P(A x A)'):
-- 
2.43.0


From 1174b7355b9a1951bf5715f8d8fb3ab6d4df750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 35/38] fix: short LaTeX form of a set with couplets is
 independent of the iteration order

---
 algebraixlib/util/latexprinter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index 1d3bcb8..eca5964 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -198,11 +198,12 @@ def set_to_latex(set_: _mo.Set, short: bool=False, _depth: int=0):
         # Use comma delimiters for elements. Print on single line.
 
         # Add sorting to obtain predictable output.
-        elem_itr = iter(sorted(set_.data))
+        elems = sorted(set_.data)
+        elem_itr = iter(elems)
 
         if short and set_.cardinality > Config.short_set_len + 1:
             is_couplet_list = [elem.is_couplet
-                for elem in _itertools.islice(set_, Config.short_set_len)]
+                for elem in _itertools.islice(elems, Config.short_set_len)]
         else:
             is_couplet_list = [elem.is_couplet for elem in set_]
         parenthesize_couplets = any(is_couplet_list) and not all(is_couplet_list)
-- 
2.43.0


From c353e6b8b8837c53648113523b25354f459ea315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 36/38] fix: short LaTeX form of a multiset abbreviates only
 when elements are left out, and counts them

---
 algebraixlib/util/latexprinter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index eca5964..b5326a8 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -266,11 +266,12 @@ def mset_to_latex(mset: _mo.Multiset, short: bool=False, _depth: int=0):
 
     result = _Tokens.left_bracket_dyn + start
 
-    if short and mset.cardinality > Config.short_set_len + 1:
+    if short and len(mset.data) > Config.short_set_len + 1:
         result += separator.join(
             [latex_mset(elem_key, multiple) for elem_key, multiple in _itertools.islice(
                 sorted(mset.data.items()), Config.short_set_len)])
         result += separator + _Tokens.ellipsis
+        result += '({0})'.format(len(mset.data) - Config.short_set_len)
     else:
         result += separator.join([latex_mset(elem_key, multiple)
                                   for elem_key, multiple in sorted(mset.data.items())])
-- 
2.43.0


From feea1bafe3784e003f45420e7edd2f4048efa357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 37/38] fix: HTML rendering of a string, and of containers on
 current Python versions

---
 algebraixlib/util/html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index 4200cd9..efc799f 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -15,6 +15,7 @@ r"""Utilities that present `MathObject`\s as HTML pages."""
 # If not, see <http://www.gnu.org/licenses/>.
 # --------------------------------------------------------------------------------------------------
 import collections as _collections
+import collections.abc as _collections_abc
 import html as _html
 import io as _io
 
@@ -150,7 +151,7 @@ def as_html_handle_data_algebra(mathobj):
     if isinstance(mathobj, _mo.MathObject):
         # print this one math object
         return "$$" + _html.escape(_latexprinter.math_object_to_latex(mathobj)) + "$$"
-    elif isinstance(mathobj, _collections.Iterable):
+    elif isinstance(mathobj, _collections_abc.Iterable) and not isinstance(mathobj, str):
         temp = ""
         for elem in mathobj:
             if isinstance(elem, _mo.MathObject):
-- 
2.43.0


From 6d64ee79ac47169bb328bb5f0c474143b5a56047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 38/38] fix: create_simple_web_page fails with a KeyError and
 does not escape the object

---
 algebraixlib/util/html.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index efc799f..6ae750b 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -211,10 +211,11 @@ def create_simple_web_page(mathobj: _mo.MathObject) -> str:
         <h2>Input:</h2>
         <div id="dataAlgebraArea">{data_algebra_in!s}</div>
         <h2>Output:</h2>
-        <div id="latexArea">$$\(\require{color}\){latex_out}$$</div>
+        <div id="latexArea">$$\(\require{{color}}\){latex_out}$$</div>
     </body></html>
     """
     web_out = web_template.format(
-        data_algebra_in=mathobj, latex_out=_latexprinter.math_object_to_latex(mathobj))
+        data_algebra_in=_html.escape(str(mathobj)),
+        latex_out=_html.escape(_latexprinter.math_object_to_latex(mathobj)))
     print(web_out)
     return web_out
-- 
2.43.0

