From 9805d8e8db484d099ac30731de7ef8d61048f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 01/36] fix: Text emits an empty text when the number of words
 is 0

Texts with zero words were dropped from the output (emit raised an
IndexError), the separators emitter was asked for the wrong number of
separators, and num_unique_values used an exponent of -1.
---
 src/fauxdoc/emitters/text.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 3c33bc8..7d300bc 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -219,7 +219,8 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
             nums: List[int] = []
             for length in numwords.items:
                 n_uw = self._emitters['word'].num_unique_values ** length
-                n_us = self._emitters['sep'].num_unique_values ** (length - 1)
+                n_seps = max(length - 1, 0)
+                n_us = self._emitters['sep'].num_unique_values ** n_seps
                 nums.append(n_uw * n_us)
             self._num_unique_values = sum(nums)
 
@@ -287,11 +288,13 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         lengths = self._emitters['numwords'](number)
         total_words = sum(lengths)
         words = self._get_words_iterator(total_words)
-        seps = iter(self._emitters['sep'](total_words - number))
+        total_seps = sum(max(length - 1, 0) for length in lengths)
+        seps = iter(self._emitters['sep'](total_seps))
         for length in lengths:
+            render = []
             if length:
                 render = [next(words)]
                 for _ in range(1, length):
                     render.extend([next(seps, ' '), next(words)])
-                texts.append(''.join(render))
+            texts.append(''.join(render))
         return texts
-- 
2.43.0


From 40ce770793ea81f88ab7f564098c02583a430185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 02/36] fix: Word and Text do not count duplicate lengths twice
 in num_unique_values

---
 src/fauxdoc/emitters/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 7d300bc..5cfdece 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -110,7 +110,7 @@ class Word(RandomWithChildrenMixin, Emitter[str]):
         self._num_unique_values: Optional[int] = None
         nchars = self._emitters['alphabet'].num_unique_values
         if nchars is not None and hasattr(self._emitters['length'], 'items'):
-            poss_items = self._emitters['length'].items
+            poss_items = set(self._emitters['length'].items)
             self._num_unique_values = sum([nchars ** i for i in poss_items])
 
     def reset(self) -> None:
@@ -217,7 +217,7 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         sep_em_has_uv = self._emitters['sep'].num_unique_values is not None
         if word_em_has_uv and sep_em_has_uv and hasattr(numwords, 'items'):
             nums: List[int] = []
-            for length in numwords.items:
+            for length in set(numwords.items):
                 n_uw = self._emitters['word'].num_unique_values ** length
                 n_seps = max(length - 1, 0)
                 n_us = self._emitters['sep'].num_unique_values ** n_seps
-- 
2.43.0


From 02d9196c92b9710e01f2e3d2214a7c3126d77ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 03/36] fix: poisson no longer raises OverflowError for larger
 x or mu values

E.g., poisson_choice raised an error if given more than 170 items.
---
 src/fauxdoc/mathtools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 7291ee2..11e3a87 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -19,7 +19,12 @@ def poisson(x: int, mu: float = 1) -> float:
         A float value representing a probability that the given x value
         might occur.
     """
-    return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    try:
+        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    except OverflowError:
+        # Intermediate values are too large to convert to float; the
+        # result isn't, so compute it on a logarithmic scale.
+        return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
 
 
 def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
-- 
2.43.0


From 3f0be99c3dd98e81004b846f24f1888f66ce4ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 04/36] fix: weighted_shuffle supports weights of 0

It raised a ZeroDivisionError, or a ValueError if there were not enough
items with a weight above 0. E.g., gaussian_choice without replacement
raised an error for a longer list of items.
---
 src/fauxdoc/mathtools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 11e3a87..1518acb 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -133,8 +133,10 @@ def weighted_shuffle(items: Sequence[T],
         # by score. Having to operate on the full list makes this
         # slower for lower values of k, but the lack of iteration makes
         # it scale very well for higher values of k. Zipping the scores
-        # and items is faster than tracking positions.
-        scores = zip((math.log(rng.random()) / w for w in weights), items)
+        # and items is faster than tracking positions. Items with a 0
+        # weight always go after items with a weight above 0.
+        scores = zip(((w > 0, math.log(rng.random()) / (w or 1))
+                      for w in weights), items)
 
         # Note: to pick the highest scoring k items, reverse sorting
         # the whole list is faster than using the `heapq.nlargest`
@@ -154,7 +156,8 @@ def weighted_shuffle(items: Sequence[T],
         )
 
     # The k threshold where the `high_k` method becomes faster than the
-    # `low_k` is k =~ 42% of the total number of items.
-    if number <= nitems * 0.42:
+    # `low_k` is k =~ 42% of the total number of items. The `low_k`
+    # method can only select items that have a weight above 0.
+    if number <= min(nitems * 0.42, sum(1 for w in weights if w)):
         return _faster_for_low_k(items, weights, rng, number)
     return _faster_for_high_k(items, weights, rng, number)
-- 
2.43.0


From 62fe586ec68801921c7bee145f171c50b4d79ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 05/36] fix: weighted_shuffle does not fail if the RNG returns
 0.0

---
 src/fauxdoc/mathtools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 1518acb..c8a03dd 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -1,6 +1,7 @@
 """Contains math utility functions used in the data module."""
 import math
 import random
+import sys
 from typing import List, Optional, Sequence
 
 from fauxdoc.typing import F, T
@@ -135,7 +136,8 @@ def weighted_shuffle(items: Sequence[T],
         # it scale very well for higher values of k. Zipping the scores
         # and items is faster than tracking positions. Items with a 0
         # weight always go after items with a weight above 0.
-        scores = zip(((w > 0, math.log(rng.random()) / (w or 1))
+        scores = zip(((w > 0,
+                       math.log(rng.random() or sys.float_info.min) / (w or 1))
                       for w in weights), items)
 
         # Note: to pick the highest scoring k items, reverse sorting
-- 
2.43.0


From 4a94a85f10dc2778d04e8f4b70ad81b8c6eaffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 06/36] fix: chance supports values far outside of the 0.0 to
 1.0 range

Very large or small values lost the other weight to rounding, and
emitting a value raised a ValueError.
---
 src/fauxdoc/emitters/choice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 3807891..3999198 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -434,4 +434,5 @@ def chance(chance: float, rng_seed: Any = None) -> Choice[bool]:
             True if chance >= 1.0.
         rng_seed: (Optional.) 'rng_seed' kwarg to pass to Choice.
     """
+    chance = clamp(chance, mn=0.0, mx=1.0)
     return Choice([True, False], [chance, 1.0 - chance], rng_seed=rng_seed)
-- 
2.43.0


From ffc0aa5247465533ab967e4e78873cfd85ba476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 07/36] fix: num_unique_values supports items that are not
 hashable

E.g., Static([1]).num_unique_values raised a TypeError, as did requesting
too many items from a Choice of lists without replacement.
---
 src/fauxdoc/emitters/choice.py |  4 ++--
 src/fauxdoc/mixins.py          | 22 ++++++++++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 3999198..b89d0ef 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -4,7 +4,7 @@ from typing import Any, Optional, List, Sequence
 
 from fauxdoc.emitter import Emitter
 from fauxdoc.mathtools import clamp, gaussian, poisson, weighted_shuffle
-from fauxdoc.mixins import RandomMixin, ItemsMixin
+from fauxdoc.mixins import count_unique, RandomMixin, ItemsMixin
 from fauxdoc.typing import T
 
 
@@ -290,7 +290,7 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
         selected.
         """
         if not self._replace:
-            return len(set(self._shuffled[self._shuffled_index:]))
+            return count_unique(self._shuffled[self._shuffled_index:])
         return super().num_unique_values
 
     @property
diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index c185ff4..7db1c32 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -1,11 +1,29 @@
 """Contains mixin classes."""
 import random
-from typing import Any, Generic, Sequence
+from typing import Any, Generic, Iterable, List, Sequence
 
 from fauxdoc.group import ObjectMap
 from fauxdoc.typing import EmitterLike, T
 
 
+def count_unique(items: Iterable[Any]) -> int:
+    """Returns the number of unique values in an iterable.
+
+    Args:
+        items: The iterable to check. Values don't have to be hashable,
+            but it's slower if they aren't.
+    """
+    items = list(items)
+    try:
+        return len(set(items))
+    except TypeError:
+        unique: List[Any] = []
+        for item in items:
+            if item not in unique:
+                unique.append(item)
+        return len(unique)
+
+
 class RandomMixin:
     """Mixin class for defining components that need RNG.
 
@@ -92,7 +110,7 @@ class ItemsMixin(Generic[T]):
     @property
     def num_unique_values(self) -> int:
         """Returns an int, the number of unique values emittable."""
-        return len(set(self._items))
+        return count_unique(self._items)
 
 
 class ChildrenMixin:
-- 
2.43.0


From a39dfec72c9846289539ff15f55597c5eb21cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 08/36] fix: Field.multi_valued is False if the repeat emitter
 only emits None

This was only the case if its items were a list with exactly one None.
---
 src/fauxdoc/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index 42f11e0..e93eb5f 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -135,7 +135,7 @@ class Field(RandomWithChildrenMixin, Generic[T]):
     def multi_valued(self) -> bool:
         """See the 'multi_valued' attribute."""
         if hasattr(self.repeat_emitter, 'items'):
-            return bool(self.repeat_emitter.items != [None])
+            return any(i is not None for i in self.repeat_emitter.items)
         return True
 
     @property
-- 
2.43.0


From fcf51d4f80327bfe3ab8dc2096db105ad88042ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 09/36] fix: do_method does not hide an AttributeError raised
 by the method itself

Only objects that don't have the method should be skipped.
---
 src/fauxdoc/group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 05feb02..a071dd3 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -51,9 +51,10 @@ class GroupMixin(Generic[T], ABC):
         for obj in self.objects_iterable:
             if obj is not None:
                 try:
-                    getattr(obj, method_name)(*args, **kwargs)
+                    method = getattr(obj, method_name)
                 except AttributeError:
-                    pass
+                    continue
+                method(*args, **kwargs)
 
 
 class ObjectGroup(GroupMixin[T], UserList[T]):
-- 
2.43.0


From 3cb76149ab44228a1a8a5a8e234286ce7e405ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 10/36] fix: slicing, adding, multiplying, or copying an
 ObjectGroup works

The result was a group containing one list instead of the objects.
---
 src/fauxdoc/group.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index a071dd3..74f8b57 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -1,6 +1,7 @@
 """Contains classes for grouping and operating on groups of objects."""
 from abc import ABC, abstractmethod
-from typing import Any, Generic, Iterable, Mapping
+import copy
+from typing import Any, Generic, Iterable, List, Mapping
 
 from fauxdoc.typing import OrderedDict, T, UserList
 
@@ -84,6 +85,34 @@ class ObjectGroup(GroupMixin[T], UserList[T]):
         """Iterates through the objects in this group."""
         return self
 
+    # The UserList versions of these methods pass a list of objects to
+    # __init__ as one argument, which isn't compatible with *objects.
+
+    def _copy_with(self, objects: List[T]) -> 'ObjectGroup[T]':
+        group = copy.copy(self)
+        group.data = objects
+        return group
+
+    def copy(self) -> 'ObjectGroup[T]':
+        """Returns a shallow copy of this group."""
+        return copy.copy(self)
+
+    def __getitem__(self, index: Any) -> Any:
+        if isinstance(index, slice):
+            return self._copy_with(self.data[index])
+        return self.data[index]
+
+    def __add__(self, other: Iterable[T]) -> 'ObjectGroup[T]':
+        return self._copy_with(self.data + list(other))
+
+    def __radd__(self, other: Iterable[T]) -> 'ObjectGroup[T]':
+        return self._copy_with(list(other) + self.data)
+
+    def __mul__(self, number: int) -> 'ObjectGroup[T]':
+        return self._copy_with(self.data * number)
+
+    __rmul__ = __mul__
+
 
 class ObjectMap(GroupMixin[T], OrderedDict[str, T]):
     """Class for operating on groups of similar objects (as a dict).
-- 
2.43.0


From 6d29a889424d4e80e7166e5a1832ef28655baa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 11/36] fix: ObjectMap can be copied and pickled

Copying requires that it can be initialized without arguments.
---
 src/fauxdoc/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 74f8b57..0a190d3 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -126,7 +126,7 @@ class ObjectMap(GroupMixin[T], OrderedDict[str, T]):
     skip them.
     """
 
-    def __init__(self, objects: Mapping[str, T]) -> None:
+    def __init__(self, objects: Mapping[str, T] = {}) -> None:
         """Inits an ObjectMap with the given objects.
 
         Args:
-- 
2.43.0


From 70ed81c8b1cc5740f8ec48b79c8eba744d021800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 12/36] fix: BasedOnFields does not use up values from its
 source fields

Initializing it or setting its action emitted a value from each source
field, so that value never made it into the output.
---
 src/fauxdoc/emitters/fromfields.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/fauxdoc/emitters/fromfields.py b/src/fauxdoc/emitters/fromfields.py
index db0d82f..048858b 100644
--- a/src/fauxdoc/emitters/fromfields.py
+++ b/src/fauxdoc/emitters/fromfields.py
@@ -251,19 +251,25 @@ class BasedOnFields(Generic[SourceT, OutputT], RandomMixin, Emitter[OutputT]):
             action: See the 'action' attribute.
         """
         self._action = action
-        if len(self.source) == 1:
-            args = [self.source[0]()]
-            kwargs = {}
-        else:
-            args = []
-            kwargs = {field.name: field() for field in self.source}
         try:
-            self._action.try_mock_call(*args, **kwargs)
+            # Generating new values from the source fields changes what
+            # they emit later, so don't do that if it isn't needed.
+            self._try_action([field.previous for field in self.source])
         except TypeError:
-            raise
+            self._try_action([field() for field in self.source])
         finally:
             self.reset()
 
+    def _try_action(self, values: Sequence[Any]) -> None:
+        """Tries a mock call of the action, given source field values."""
+        if len(self.source) == 1:
+            args = values
+            kwargs = {}
+        else:
+            args = []
+            kwargs = {fd.name: val for fd, val in zip(self.source, values)}
+        self._action.try_mock_call(*args, **kwargs)
+
     def reset_source(self) -> None:
         """Calls `reset` on all source fields.
 
-- 
2.43.0


From 1c247a063e0099b20a31b740e978d24bac39caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 13/36] fix: dtrange does not return ranges with a negative
 length

A stop value that lies before the start value gave a range with a
negative length, as did a 24-hour time range with a negative step. The
former is empty (like the built-in range), and the latter covers 24
hours, backwards.
---
 src/fauxdoc/dtrange.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index b196d0b..502ec93 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -347,11 +347,14 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
         # This is kind of hacky but the simplest way I could think of
         # to accommodate the (common) edge case where you want the full
         # 24-hour clock as a time range. E.g., midnight to midnight is
-        # a 24-hour range instead of an empty range.
+        # a 24-hour range instead of an empty range. (If 'step' is
+        # negative, then it's 24 hours in the opposite direction.)
         start_refdate = datetime.combine(date(99, 1, 1), start_obj)
-        stop_refdate = start_refdate + timedelta(days=1)
+        days = -1 if step_td < timedelta(0) else 1
+        stop_refdate = start_refdate + timedelta(days=days)
         length, rem = _value_to_index(stop_refdate, start_refdate, step_td)
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
     length += 1 if rem else 0
-    return DateOrTimeRange(start_obj, length, step_td)
+    # Like `range`, it's empty if 'stop' comes before 'start'.
+    return DateOrTimeRange(start_obj, max(length, 0), step_td)
-- 
2.43.0


From 64fdc6b07424b43e21cec662471db98f544aa135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 14/36] fix: DateOrTimeRange accepts any length that is
 castable to int

E.g. '5' or 5.0 raised a TypeError.
---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 502ec93..3daf305 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -94,7 +94,7 @@ class DateOrTimeRange(Sequence[DT]):
         self.length = length
         self.start = start
         self.step = step
-        self._index_range = range(0, length)
+        self._index_range = range(0, self.length)
 
     @property
     def start(self) -> DT:
-- 
2.43.0


From 86fca07e5796ab338cf8c58fa020af64dcecd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 15/36] fix: ranges of time values keep the time zone of the
 start value

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 3daf305..51f3606 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -16,7 +16,7 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
         # the math, and returning the time.
         ref_date = date(99, 1, 1)
         ref_dt = datetime.combine(ref_date, start)
-        return (ref_dt + delta).time()
+        return (ref_dt + delta).timetz()
     return start + delta
 
 
-- 
2.43.0


From c90877402d1143b2157d30a36f9c8fd1c5c0e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 16/36] fix: checking if a range contains a value that is not
 comparable works

E.g., it raised a TypeError for a datetime in a range of dates or a naive
value in a range of aware values.
---
 src/fauxdoc/dtrange.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 51f3606..784ffde 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -240,9 +240,15 @@ class DateOrTimeRange(Sequence[DT]):
                 index value.
         """
         if isinstance(value, type(self.start)):
-            index, rem = _value_to_index(value, self._start, self._step)
-            if not rem and index in self._index_range[start:stop]:
-                return index
+            try:
+                index, rem = _value_to_index(value, self._start, self._step)
+            except TypeError:
+                # Not comparable, e.g. naive and aware values, or a
+                # datetime value and a range of dates.
+                pass
+            else:
+                if not rem and index in self._index_range[start:stop]:
+                    return index
         raise ValueError(f'{value} is not in range')
 
     def __contains__(self, value: object) -> bool:
-- 
2.43.0


From 78629cafe906b86bb7772ae862b68ca2976c8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 17/36] fix: time ranges can be sliced with steps that skip a
 day or more

---
 src/fauxdoc/dtrange.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 784ffde..c9e79e9 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -180,7 +180,11 @@ class DateOrTimeRange(Sequence[DT]):
         if isinstance(index, slice):
             slc = self._index_range[index]
             start = _index_to_value(slc.start, self.start, self.step)
-            return type(self)(start, len(slc), self.step * slc.step)
+            sliced = type(self)(start, len(slc), self.step)
+            # Set '_step' directly, because slices of time ranges may
+            # have to skip a day or more between values.
+            sliced._step = self.step * slc.step
+            return sliced
         try:
             index_num = self._index_range[index]
         except IndexError:
-- 
2.43.0


From e86f97bd0b57c75d2ab277f5b1938dc436db6b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 18/36] fix: time ranges longer than a day find all occurrences
 of a value

The index, count, and `in` operations only looked at the first day.
---
 src/fauxdoc/dtrange.py | 45 +++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index c9e79e9..4d4cdfd 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -1,6 +1,6 @@
 """Contains an implementation of a custom date/time range type."""
 from datetime import date, datetime, time, timedelta
-from typing import Optional, overload, Sequence, Tuple, TypeVar, Union
+from typing import Iterator, Optional, overload, Sequence, Tuple, TypeVar, Union
 
 
 DT = TypeVar('DT', date, datetime, time)
@@ -230,6 +230,33 @@ class DateOrTimeRange(Sequence[DT]):
         step = self.step if my_len > 1 else None
         return hash((type(self), my_len, start, step))
 
+    def _find(self, value: object) -> Iterator[int]:
+        """Yields each index where the given value may be found.
+
+        Args:
+            value: A date, time, or datetime that may be in this range.
+        """
+        if not isinstance(value, type(self.start)):
+            return
+        try:
+            index, rem = _value_to_index(value, self._start, self._step)
+        except TypeError:
+            # Not comparable, e.g. naive and aware values, or a
+            # datetime value and a range of dates.
+            return
+        if not rem:
+            yield index
+        if isinstance(self._start, time):
+            # If a time range is longer than a day, then the same time
+            # may occur once for each day.
+            delta = index * self._step + rem
+            day = timedelta(days=-1 if self._step < timedelta(0) else 1)
+            while index < len(self):
+                delta += day
+                index, rem = divmod(delta, self._step)
+                if not rem:
+                    yield index
+
     def index(self,
               value: DT,
               start: Optional[int] = None,
@@ -243,16 +270,9 @@ class DateOrTimeRange(Sequence[DT]):
             stop: (Optional.) Limit your search based on this stop
                 index value.
         """
-        if isinstance(value, type(self.start)):
-            try:
-                index, rem = _value_to_index(value, self._start, self._step)
-            except TypeError:
-                # Not comparable, e.g. naive and aware values, or a
-                # datetime value and a range of dates.
-                pass
-            else:
-                if not rem and index in self._index_range[start:stop]:
-                    return index
+        for index in self._find(value):
+            if index in self._index_range[start:stop]:
+                return index
         raise ValueError(f'{value} is not in range')
 
     def __contains__(self, value: object) -> bool:
@@ -272,7 +292,8 @@ class DateOrTimeRange(Sequence[DT]):
         Args:
             value: A date, time, or datetime that may be in this range.
         """
-        return 1 if value in self else 0
+        return sum(1 for index in self._find(value)
+                   if index in self._index_range)
 
 
 def _parse_user_date(val: Union[DT, str], label: str) -> DT:
-- 
2.43.0


From 22e7bfbe254c8d7a06a2d7807e4d7ce69304c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 19/36] fix: wrapper callables may have an attribute named
 'function'

---
 src/fauxdoc/emitters/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/emitters/wrappers.py b/src/fauxdoc/emitters/wrappers.py
index 4db4d38..c3a3b11 100644
--- a/src/fauxdoc/emitters/wrappers.py
+++ b/src/fauxdoc/emitters/wrappers.py
@@ -70,7 +70,7 @@ class BoundWrapper(Generic[SourceT, OutputT]):
             function: See 'function' attribute.
             bound_to: See 'bound_to' attribute.
         """
-        if hasattr(function, 'function'):
+        if isinstance(function, BoundWrapper):
             # Account for trying to create a new BoundWrapper instance
             # using an existing BoundWrapper instance as the `function`
             # argument. In this case we'd want to rebind the unbound
-- 
2.43.0


From dc1465d5be0bed29d819e4883aaefa395b8d3ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 20/36] fix: slices of time ranges that skip a day or more can
 be sliced again

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 4d4cdfd..13339db 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -180,7 +180,7 @@ class DateOrTimeRange(Sequence[DT]):
         if isinstance(index, slice):
             slc = self._index_range[index]
             start = _index_to_value(slc.start, self.start, self.step)
-            sliced = type(self)(start, len(slc), self.step)
+            sliced = type(self)(start, len(slc), timedelta(0))
             # Set '_step' directly, because slices of time ranges may
             # have to skip a day or more between values.
             sliced._step = self.step * slc.step
-- 
2.43.0


From 9fdf561947caa30c4763cd9fc6b9750f4601dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 21/36] fix: empty slices don't compute a date that is out of
 range

---
 src/fauxdoc/dtrange.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 13339db..447de22 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -179,7 +179,11 @@ class DateOrTimeRange(Sequence[DT]):
         """Returns the requested value or values from the range."""
         if isinstance(index, slice):
             slc = self._index_range[index]
-            start = _index_to_value(slc.start, self.start, self.step)
+            # The 'start' index of an empty slice may be out of range, so
+            # there may not be a valid date/time value for it.
+            start = self.start
+            if len(slc) > 0:
+                start = _index_to_value(slc.start, self.start, self.step)
             sliced = type(self)(start, len(slc), timedelta(0))
             # Set '_step' directly, because slices of time ranges may
             # have to skip a day or more between values.
-- 
2.43.0


From 826f392f3e6aa028eb7bc435f25e08b06d7df2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 22/36] fix: optional emitters that are falsy are not replaced
 by the default

---
 src/fauxdoc/emitters/text.py | 2 +-
 src/fauxdoc/profile.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 5cfdece..f7bde2b 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -190,7 +190,7 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         super().__init__(children={
             'numwords': numwords_emitter,
             'word': word_emitter,
-            'sep': sep_emitter or Static(' ')
+            'sep': Static(' ') if sep_emitter is None else sep_emitter
         }, rng_seed=rng_seed)
         self._update_num_unique_vals()
 
diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index e93eb5f..a9ea4ff 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -127,8 +127,8 @@ class Field(RandomWithChildrenMixin, Generic[T]):
         self.hide = hide
         super().__init__(children={
             'emitter': emitter,
-            'repeat': repeat or Static(None),
-            'gate': gate or Static(True)
+            'repeat': Static(None) if repeat is None else repeat,
+            'gate': Static(True) if gate is None else gate
         }, rng_seed=rng_seed)
 
     @property
-- 
2.43.0


From 4584a4712a31d396d67f24a669d4d0cf402cb5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:32 +0000
Subject: [PATCH 23/36] fix: Keep fixed emitters going after an error in their
 iterator

An error that the iterator raises ends the generator around it, so batches
emitted later were too short and single values raised StopIteration.
---
 src/fauxdoc/emitters/fixed.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/fauxdoc/emitters/fixed.py b/src/fauxdoc/emitters/fixed.py
index 28cbcd6..f4bb109 100644
--- a/src/fauxdoc/emitters/fixed.py
+++ b/src/fauxdoc/emitters/fixed.py
@@ -167,7 +167,12 @@ class Iterative(Emitter[T]):
 
     def emit(self) -> T:
         """Returns one emitted value."""
-        ret_value = next(self._iterator)
+        try:
+            ret_value = next(self._iterator)
+        except BaseException:
+            # An error ends the iterator, so we need a new one.
+            self.reset()
+            raise
         if self.reset_after_call:
             self.reset()
         return ret_value
@@ -178,7 +183,12 @@ class Iterative(Emitter[T]):
         Args:
             number: See superclass.
         """
-        ret_value = list(itertools.islice(self._iterator, 0, number))
+        try:
+            ret_value = list(itertools.islice(self._iterator, 0, number))
+        except BaseException:
+            # An error ends the iterator, so we need a new one.
+            self.reset()
+            raise
         if self.reset_after_call:
             self.reset()
         return ret_value
@@ -302,7 +312,12 @@ class Sequential(ItemsMixin[T], Emitter[T]):
 
     def emit(self) -> T:
         """Returns one emitted value."""
-        ret_value = next(self._iterator)
+        try:
+            ret_value = next(self._iterator)
+        except BaseException:
+            # An error ends the iterator, so we need a new one.
+            self.reset()
+            raise
         if self.reset_after_call:
             self.reset()
         return ret_value
@@ -313,7 +328,12 @@ class Sequential(ItemsMixin[T], Emitter[T]):
         Args:
             number: See superclass (Emitter).
         """
-        ret_value = list(itertools.islice(self._iterator, 0, number))
+        try:
+            ret_value = list(itertools.islice(self._iterator, 0, number))
+        except BaseException:
+            # An error ends the iterator, so we need a new one.
+            self.reset()
+            raise
         if self.reset_after_call:
             self.reset()
         return ret_value
-- 
2.43.0


From d3766b2cea5ee1a7856cbe2f5388b74f1c2da11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 24/36] fix: Count unique words and texts from the emitters as
 they are now

Word and Text counted once, when they were made, so num_unique_values
was wrong after a child emitter was changed or replaced.
---
 src/fauxdoc/emitters/text.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index f7bde2b..cf2cb43 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -93,7 +93,6 @@ class Word(RandomWithChildrenMixin, Emitter[str]):
             'length': length_emitter,
             'alphabet': alphabet_emitter
         }, rng_seed=rng_seed)
-        self._update_num_unique_vals()
 
     @property
     def length_emitter(self) -> EmitterLike[int]:
@@ -106,7 +105,7 @@ class Word(RandomWithChildrenMixin, Emitter[str]):
         return self._emitters['alphabet']
 
     def _update_num_unique_vals(self) -> None:
-        """Updates the cached number of unique values this can emit."""
+        """Updates the number of unique values this can emit."""
         self._num_unique_values: Optional[int] = None
         nchars = self._emitters['alphabet'].num_unique_values
         if nchars is not None and hasattr(self._emitters['length'], 'items'):
@@ -127,6 +126,7 @@ class Word(RandomWithChildrenMixin, Emitter[str]):
     @property
     def num_unique_values(self) -> Optional[int]:
         """Returns the max number of unique values this can emit."""
+        self._update_num_unique_vals()
         return self._num_unique_values
 
     def emit(self) -> str:
@@ -192,7 +192,6 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
             'word': word_emitter,
             'sep': Static(' ') if sep_emitter is None else sep_emitter
         }, rng_seed=rng_seed)
-        self._update_num_unique_vals()
 
     @property
     def numwords_emitter(self) -> EmitterLike[int]:
@@ -210,7 +209,7 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         return self._emitters['sep']
 
     def _update_num_unique_vals(self) -> None:
-        """Updates the cached number of unique values this can emit."""
+        """Updates the number of unique values this can emit."""
         self._num_unique_values: Optional[int] = None
         numwords = self._emitters['numwords']
         word_em_has_uv = self._emitters['word'].num_unique_values is not None
@@ -227,6 +226,7 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
     @property
     def num_unique_values(self) -> Optional[int]:
         """Returns the max number of unique values this can produce."""
+        self._update_num_unique_vals()
         return self._num_unique_values
 
     def reset(self) -> None:
-- 
2.43.0


From 54f8391de9a3dcc14ea56c6dc72051e727ef6432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 25/36] fix: poisson no longer gives 0 for low x values if mu
 is large

The factor exp(-mu) is too small for a float if mu is above 745, so
that all weights of poisson_choice(range(50), mu=800) were 0 and
calling it raised an error.
---
 src/fauxdoc/mathtools.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index c8a03dd..b0c2db2 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -20,12 +20,14 @@ def poisson(x: int, mu: float = 1) -> float:
         A float value representing a probability that the given x value
         might occur.
     """
-    try:
-        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
-    except OverflowError:
-        # Intermediate values are too large to convert to float; the
-        # result isn't, so compute it on a logarithmic scale.
-        return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
+    if mu <= 700:
+        try:
+            return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+        except OverflowError:
+            pass
+    # Intermediate values are too large or too small to convert to
+    # float; the result isn't, so compute it on a logarithmic scale.
+    return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
 
 
 def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
-- 
2.43.0


From 805b6f9dde0b5c3c0d5d691827a83d0423cb15d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 26/36] fix: gaussian is 0 very far from the mean instead of an
 OverflowError

---
 src/fauxdoc/mathtools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index b0c2db2..f49e8dc 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -45,7 +45,10 @@ def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
         A float value representing the relative probability that a
         random variable would be approximately x.
     """
-    term1 = math.exp(-1 * (((x - mu) / sigma) ** 2) / 2)
+    # Multiplying gives infinity (and a probability of 0) for points that
+    # are very far from the mean, where `** 2` raises an OverflowError.
+    sigmas = (x - mu) / sigma
+    term1 = math.exp(-1 * (sigmas * sigmas) / 2)
     term2 = 1 / (math.sqrt(2 * math.pi) * sigma)
     return term1 * term2
 
-- 
2.43.0


From 1c98ccef57c9fedd48d45ea37c9393facae4b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 27/36] fix: Long ranges of times no longer raise OverflowError
 when they are reversed

---
 src/fauxdoc/dtrange.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 447de22..aa06acb 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -13,10 +13,11 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
     if isinstance(start, time):
         # We can't do timedelta operations on time objects, so we have
         # to fake it by combining the time with a reference date, doing
-        # the math, and returning the time.
+        # the math, and returning the time. Whole days don't matter, and
+        # many of them would lead to dates that are out of range.
         ref_date = date(99, 1, 1)
         ref_dt = datetime.combine(ref_date, start)
-        return (ref_dt + delta).timetz()
+        return (ref_dt + delta % timedelta(days=1)).timetz()
     return start + delta
 
 
-- 
2.43.0


From bff4880275ca92b309c5e521ad45c2a1e3ed0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 28/36] fix: Ranges of the same times are equal even if their
 steps differ by whole days

---
 src/fauxdoc/dtrange.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index aa06acb..3e9d382 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -214,6 +214,17 @@ class DateOrTimeRange(Sequence[DT]):
             self._str_repr = f"{type(self).__name__}({desc})"
         return self._str_repr
 
+    @property
+    def _value_step(self) -> timedelta:
+        """The step, insofar as it makes a difference for the values.
+
+        Times repeat each day, so whole days in the step of a time
+        range (e.g., in slices of other ranges) don't show.
+        """
+        if isinstance(self.start, time):
+            return self.step % timedelta(days=1)
+        return self.step
+
     def __eq__(self, other: object) -> bool:
         """Returns True if this range is equal to a comparison range."""
         if not isinstance(other, type(self)):
@@ -226,13 +237,14 @@ class DateOrTimeRange(Sequence[DT]):
             return True
         if my_len == 1:
             return self.start == other.start
-        return (self.start, self.step) == (other.start, other.step)
+        return ((self.start, self._value_step)
+                == (other.start, other._value_step))
 
     def __hash__(self) -> int:
         """Returns a hash number for an instance of this type."""
         my_len = len(self)
         start = self.start if my_len > 0 else None
-        step = self.step if my_len > 1 else None
+        step = self._value_step if my_len > 1 else None
         return hash((type(self), my_len, start, step))
 
     def _find(self, value: object) -> Iterator[int]:
-- 
2.43.0


From 0ba15bad60b2e4ea0c6abe04d06948a493f523ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 29/36] fix: do not hide an AttributeError raised while a
 parent with children is seeded

---
 src/fauxdoc/mixins.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index 7db1c32..35fae98 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -172,7 +172,4 @@ class RandomWithChildrenMixin(RandomMixin, ChildrenMixin):
     def seed(self, rng_seed: Any) -> None:
         """Seeds RNG for this emitter and all children."""
         self._emitters.do_method('seed', rng_seed)
-        try:
-            super().seed(rng_seed)
-        except AttributeError:
-            pass
+        super().seed(rng_seed)
-- 
2.43.0


From 4ae2a30151e2ba11651b8631361e75fee95a14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 30/36] fix: equality and hashes of ranges don't depend on
 which subclass they are of

---
 src/fauxdoc/dtrange.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 3e9d382..b6e59a0 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -227,7 +227,7 @@ class DateOrTimeRange(Sequence[DT]):
 
     def __eq__(self, other: object) -> bool:
         """Returns True if this range is equal to a comparison range."""
-        if not isinstance(other, type(self)):
+        if not isinstance(other, DateOrTimeRange):
             return NotImplemented
         my_len = len(self)
         other_len = len(other)
@@ -245,7 +245,7 @@ class DateOrTimeRange(Sequence[DT]):
         my_len = len(self)
         start = self.start if my_len > 0 else None
         step = self._value_step if my_len > 1 else None
-        return hash((type(self), my_len, start, step))
+        return hash((DateOrTimeRange, my_len, start, step))
 
     def _find(self, value: object) -> Iterator[int]:
         """Yields each index where the given value may be found.
-- 
2.43.0


From 61c89832dee7e094bead114a79b0b9dac79ae4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 31/36] fix: a negative number doesn't make emitters without
 replacement emit items again

---
 src/fauxdoc/emitters/choice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index b89d0ef..bac9d7d 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -352,7 +352,8 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
             number: See superclass.
         """
         if not self._replace or (self._replace_only_after_call and number > 1):
-            return self._choice_without_replacement(number)
+            # A negative number gives no items, as with replacement.
+            return self._choice_without_replacement(max(number, 0))
         return self._choice_with_replacement(number)
 
 
-- 
2.43.0


From 2a2ac8c18356530342713bc72ab4b79c9df71dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 32/36] fix: broadcasting to an ObjectGroup reaches all members
 if some leave the group meanwhile

---
 src/fauxdoc/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 0a190d3..9ebb2d8 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -83,7 +83,7 @@ class ObjectGroup(GroupMixin[T], UserList[T]):
     @property
     def objects_iterable(self) -> Iterable[T]:
         """Iterates through the objects in this group."""
-        return self
+        return list(self)
 
     # The UserList versions of these methods pass a list of objects to
     # __init__ as one argument, which isn't compatible with *objects.
-- 
2.43.0


From 682b8ce2de08199f39f1f4e1bab367fc729d0e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 33/36] fix: wrapped functions and actions may have a parameter
 named self

---
 src/fauxdoc/emitters/wrappers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/emitters/wrappers.py b/src/fauxdoc/emitters/wrappers.py
index c3a3b11..e69eb05 100644
--- a/src/fauxdoc/emitters/wrappers.py
+++ b/src/fauxdoc/emitters/wrappers.py
@@ -116,12 +116,16 @@ class BoundWrapper(Generic[SourceT, OutputT]):
         """The 'wants_rng' attribute."""
         return self._wants_rng
 
-    def __call__(self, *args: SourceT, **kwargs: SourceT) -> OutputT:
+    # In the following two methods, `__self` (i.e., positional-only) allows
+    # for functions that have a parameter named `self`.
+
+    def __call__(__self, *args: SourceT, **kwargs: SourceT) -> OutputT:
+        self = __self
         if self._wants_rng:
             return self._function(*args, rng=self.bound_to.rng, **kwargs)
         return self._function(*args, **kwargs)
 
-    def try_mock_call(self, *args: Any, **kwargs: Any) -> None:
+    def try_mock_call(__self, *args: Any, **kwargs: Any) -> None:
         """Tests the wrapped function signature by trying a mock call.
 
         Use this to check the user-provided function and raise a useful
@@ -138,6 +142,7 @@ class BoundWrapper(Generic[SourceT, OutputT]):
         Raises:
             TypeError: If the mock call fails.
         """
+        self = __self
         if self._wants_rng:
             kwargs['rng'] = self.bound_to.rng
         try:
-- 
2.43.0


From 4c10358e3e326659e5ac55dc2f6a66732abe3c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 34/36] fix: shuffle items with very small weights as well

In weighted_shuffle, the scores of all items with a weight below about
1e-307 were -infinity, which left these items in their original order.
Compare the logarithms of the scores, which gives the same order.
---
 src/fauxdoc/mathtools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index f49e8dc..493187a 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -140,9 +140,11 @@ def weighted_shuffle(items: Sequence[T],
         # slower for lower values of k, but the lack of iteration makes
         # it scale very well for higher values of k. Zipping the scores
         # and items is faster than tracking positions. Items with a 0
-        # weight always go after items with a weight above 0.
-        scores = zip(((w > 0,
-                       math.log(rng.random() or sys.float_info.min) / (w or 1))
+        # weight always go after items with a weight above 0. Scores
+        # are on a logarithmic scale (compared with the reference), so
+        # that very small weights don't all lead to -infinity.
+        scores = zip(((w > 0, (math.log(w) if w > 0 else 0) - math.log(
+                       -math.log(rng.random() or sys.float_info.min)))
                       for w in weights), items)
 
         # Note: to pick the highest scoring k items, reverse sorting
-- 
2.43.0


From 70ea3d59b3292d1b247fae2e5d32f4fe78f891ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:15 +0000
Subject: [PATCH 35/36] fix: positions of values of other time zones in
 date/time ranges

The values of a range follow the clock of its start's time zone, so the
time elapsed between a value of another zone and the start is no measure
of its position if daylight saving time begins or ends in between. Times
of another zone may have been found on the wrong day, too.
---
 src/fauxdoc/dtrange.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index b6e59a0..83f6319 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -21,6 +21,27 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
     return start + delta
 
 
+def _to_zone_of(start: DT, value: DT) -> DT:
+    """Converts a date/time value to the time zone of another, if any.
+
+    The values of a range follow the clock of its `start`; the clock of
+    another time zone may differ by other amounts in winter and summer.
+    """
+    if isinstance(start, time) and isinstance(value, time):
+        # Times have no offset if that depends on the date.
+        if start.utcoffset() is None and value.utcoffset() is None:
+            return value.replace(tzinfo=start.tzinfo)
+    elif isinstance(start, datetime) and isinstance(value, datetime):
+        zones = (start.utcoffset(), value.utcoffset())
+        if start.tzinfo is not value.tzinfo and None not in zones:
+            try:
+                return value.astimezone(start.tzinfo)
+            except (OverflowError, ValueError):
+                # There is no such value (or no known conversion).
+                pass
+    return value
+
+
 def _value_to_index(value: DT, start: DT,
                     step: timedelta) -> Tuple[int, timedelta]:
     """Converts a date/time value to a 0-based index number.
@@ -37,6 +58,7 @@ def _value_to_index(value: DT, start: DT,
         # is valid, as is 4:00 AM to 11:00 PM with step -1 sec. We have
         # to add a day on either side to make this work.
         step_secs = step.total_seconds()
+        value = _to_zone_of(start, value)
         startdate = date(99, 1, 2)
         if value < start and step_secs > 0:
             valdate = date(99, 1, 3)
@@ -47,7 +69,7 @@ def _value_to_index(value: DT, start: DT,
         valdt = datetime.combine(valdate, value)
         startdt = datetime.combine(startdate, start)
     else:
-        valdt = value
+        valdt = _to_zone_of(start, value)
         startdt = start
     return divmod(valdt - startdt, step)
 
@@ -289,7 +311,10 @@ class DateOrTimeRange(Sequence[DT]):
         """
         for index in self._find(value):
             if index in self._index_range[start:stop]:
-                return index
+                # Not so for, e.g., times of another time zone that are
+                # on another day in this one.
+                if self[index] == value:
+                    return index
         raise ValueError(f'{value} is not in range')
 
     def __contains__(self, value: object) -> bool:
@@ -310,7 +335,7 @@ class DateOrTimeRange(Sequence[DT]):
             value: A date, time, or datetime that may be in this range.
         """
         return sum(1 for index in self._find(value)
-                   if index in self._index_range)
+                   if index in self._index_range and self[index] == value)
 
 
 def _parse_user_date(val: Union[DT, str], label: str) -> DT:
-- 
2.43.0


From 1aa7a248e349ca86a484940675dd7f78d4a951b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:19 +0000
Subject: [PATCH 36/36] fix: equality of date/time ranges in different time
 zones

Two ranges that start at the same instant and have the same step don't
have the same values if the clock of only one of the two zones changes in
between (and may have the same values with different steps).
---
 src/fauxdoc/dtrange.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 83f6319..0faeca5 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -1,5 +1,5 @@
 """Contains an implementation of a custom date/time range type."""
-from datetime import date, datetime, time, timedelta
+from datetime import date, datetime, time, timedelta, timezone
 from typing import Iterator, Optional, overload, Sequence, Tuple, TypeVar, Union
 
 
@@ -259,14 +259,32 @@ class DateOrTimeRange(Sequence[DT]):
             return True
         if my_len == 1:
             return self.start == other.start
+        if not self._keeps_time_with(other):
+            return all(mine == theirs for mine, theirs in zip(self, other))
         return ((self.start, self._value_step)
                 == (other.start, other._value_step))
 
+    def _keeps_time_with(self, other: 'DateOrTimeRange[DT]') -> bool:
+        """Returns True if equal steps from equal values stay equal.
+
+        They don't for two time zones if one of them observes daylight
+        saving time, or if times repeat at each zone's midnight.
+        """
+        zones = [getattr(r.start, 'tzinfo', None) for r in (self, other)]
+        if zones[0] == zones[1]:
+            return True
+        return (isinstance(self.start, datetime)
+                and all(isinstance(zone, timezone) for zone in zones))
+
     def __hash__(self) -> int:
         """Returns a hash number for an instance of this type."""
         my_len = len(self)
         start = self.start if my_len > 0 else None
         step = self._value_step if my_len > 1 else None
+        if getattr(self.start, 'utcoffset', lambda: None)() is not None:
+            # Ranges of other time zones may have the same values with
+            # other steps.
+            step = None
         return hash((DateOrTimeRange, my_len, start, step))
 
     def _find(self, value: object) -> Iterator[int]:
-- 
2.43.0

