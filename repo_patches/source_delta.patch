From b6264f2821afd4f61d6b13799e5209e25d797e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 01/29] fix: set_super_instance() leaves the interval in its
 previous superset's subset_list

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 5bde7fe..0bc92c8 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -127,6 +127,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if super_instance is None:
             warnings.warn("No superset instance provided")   
         elif isinstance(super_instance, self.superset_class) and not super_instance is self.super_instance:
+            self.remove_superset()
             self.super_instance = super_instance
             self.super_instance.append_subset_list(self)
         else:
-- 
2.43.0


From c389da51b86431f9d0b55190cc8bf0516e33b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:59 +0000
Subject: [PATCH 02/29] fix: set_subset_list() keeps dropped intervals attached
 and skips some when given a live subset_list

---
 src/aligned_textgrid/sequences/sequences.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 0bc92c8..0917e24 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -150,11 +150,15 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             return
 
         if all([isinstance(subint, self.subset_class) for subint in subset_list]):
+            orig_values = self._subset_list
             self._subset_list = SequenceList(*subset_list)
-            for element in subset_list:
+            for element in self._subset_list:
                 if not self is element.super_instance:
                     element.remove_superset()
                     element.super_instance = self
+            for orig in orig_values:
+                if not orig in self._subset_list:
+                    orig.remove_superset()
 
             #self._set_within()
             self.contains = self._subset_list
-- 
2.43.0


From 31ad9e6f388acbf89bc187b72db39ceda669406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:05 +0000
Subject: [PATCH 03/29] fix: fusing leaves the next neighbour linked to the
 interval that was fused away

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 0917e24..210f3f7 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -600,7 +600,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         if not fusee.label == "#":
 
             fuser.end = fusee.end
-            fuser.fol = fusee.fol
+            fuser.set_fol(fusee.fol)
             fuser.label = label_fun(fuser.label, fusee.label)
 
             new_list = fuser._subset_list + fusee.subset_list
@@ -631,7 +631,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         if not fusee.label == "#":
 
             fuser.start = fusee.start
-            fuser.prev = fusee.prev
+            fuser.set_prev(fusee.prev)
             fuser.label = label_fun(fusee.label, fuser.label)
 
             new_list = fusee.subset_list + fuser._subset_list
-- 
2.43.0


From 47e8765f6b8330852b87c9d584dcbdacaa99dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:11 +0000
Subject: [PATCH 04/29] fix: SequenceTier.pop() does not reset precedence when
 the superset class is a Top subclass

---
 src/aligned_textgrid/sequences/tiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index f68a872..b31558d 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -170,8 +170,9 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
 
         """
         if entry in self.sequence_list:
+            no_superset = entry.super_instance is None
             self.sequence_list.remove(entry)
-            if self.superset_class is Top:
+            if no_superset:
                 self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
-- 
2.43.0


From d1e58d84a0e87e83eabe4761546d4aecbb2a44a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:15 +0000
Subject: [PATCH 05/29] fix: SequenceList.append() leaves the list unsorted
 when an entry starts at 0

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 5cf3b9e..9cd43d8 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -201,7 +201,7 @@ class SequenceList(Sequence):
         elif hasattr(value, "time"):
             this_time = value.time
         
-        if len(self.starts) > 0 and all(self.starts):
+        if len(self.starts) > 0 and not None in self.starts.tolist():
             insert_idx = self.starts.searchsorted(this_time)
             self._values.insert(insert_idx, value)
             return
-- 
2.43.0


From a471937f75f8c86b04f4ca9996189b530de500a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:21 +0000
Subject: [PATCH 06/29] fix: SequenceList.concat() replaces the value list with
 a SequenceList

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 9cd43d8..cd3b940 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -229,7 +229,7 @@ class SequenceList(Sequence):
         intervals._shift(increment)          
         
         new_values = self + intervals
-        self._values = new_values
+        self._values = list(new_values)
 
        
     def remove(self:Sequence[SeqVar], x:SeqVar)->None:
-- 
2.43.0


From f8ba76ae86a3f665823d4ac356d1bfd66f236921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:25 +0000
Subject: [PATCH 07/29] fix: get_class_hierarchy() accumulates classes across
 calls in its default argument

---
 src/aligned_textgrid/custom_classes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 1669264..0182db0 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -207,7 +207,7 @@ def clone_class(
 
 def get_class_hierarchy(
         entry_class:SequenceInterval, 
-        out_list = []
+        out_list = None
     )->list[SequenceInterval]:
     """Given a SequenceInterval, this will return
     the entire class hierarchy
@@ -217,12 +217,15 @@ def get_class_hierarchy(
             Entry class to search the hierarchy for
         out_list (list, optional): 
             Used internally for recursive search.
-            Defaults to [].
+            Defaults to None.
 
     Returns:
         (list[SequenceInterval]):
             The class hierarchy
     """
+    if out_list is None:
+        out_list = []
+
     if (not issubclass(entry_class.superset_class, Top)) \
        and entry_class.superset_class not in out_list:
         out_list = get_class_hierarchy(entry_class.superset_class, out_list)
-- 
2.43.0


From 52d1c3aee2d90349cb53aeefba14b59b8471c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:31 +0000
Subject: [PATCH 08/29] fix: custom_classes() inverts the requested
 return_order when given class names

---
 src/aligned_textgrid/custom_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 0182db0..f45fc50 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -146,7 +146,7 @@ def custom_classes(
         if type(return_order[0]) is int:
             return_list = [class_out_list[idx] for idx in return_order]
         elif type(return_order[0]) is str:
-            return_idx = [return_order.index(x) for x in class_list]
+            return_idx = [class_list.index(x) for x in return_order]
             return_list = [class_out_list[idx] for idx in return_idx] 
         return return_list
 
-- 
2.43.0


From 7ac8b21b145d6ef0c33a44890b32f14ba60d931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:36 +0000
Subject: [PATCH 09/29] fix: PointsGroup.xmax is computed from the earliest
 points

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index cdbf1f3..adefbd7 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -318,7 +318,7 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     @property    
     def xmax(self):
         times = np.array(
-            [t.xmin for t in self.tier_list]
+            [t.xmax for t in self.tier_list]
         )
         return times.max()
     
-- 
2.43.0


From 0d941966054f3e1d2a0e4b85d036fa731600c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 10/29] fix: copying a SequencePointTier drops points appended
 after it was created

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index adefbd7..3e49f7f 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -91,7 +91,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             name = tier.name
 
         if isinstance(tier, SequencePointTier):
-            entries = tier.entry_list
+            entries = tier.sequence_list
             if tier.name != tier.entry_class.__name__:
                 name = tier.name
         
-- 
2.43.0


From ab1ef84380fd9c70e3a6e22af7a7019ccf0e7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:16 +0000
Subject: [PATCH 11/29] fix: points appended to a SequencePointTier get no tier
 and no neighbours

---
 src/aligned_textgrid/points/tiers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 3e49f7f..9be5875 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -113,6 +113,15 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
     def __len__(self):
         return len(self.sequence_list)
 
+    @property
+    def sequence_list(self):
+        return self._sequence_list
+
+    @sequence_list.setter
+    def sequence_list(self, new):
+        self._sequence_list = SequenceList(*new)
+        self.__set_precedence()
+
     def __set_precedence(self):
         for idx,seq in enumerate(self.sequence_list):
             self.__set_intier(seq)
-- 
2.43.0


From b8afc77946412a530b118400d6f8257277f8cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:22 +0000
Subject: [PATCH 12/29] fix: default TierGroups and PointsGroups share their
 tiers, PointsGroup aliases the given list

---
 src/aligned_textgrid/points/tiers.py    | 8 ++++----
 src/aligned_textgrid/sequences/tiers.py | 5 ++++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 9be5875..2bfb6dc 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -251,11 +251,11 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """    
     def __init__(
             self,
-            tiers: list[SequencePointTier]|Self = [SequencePointTier()]
+            tiers: list[SequencePointTier]|Self = None
     ):
-        if isinstance(tiers, PointsGroup):
-            tiers = [tier for tier in tiers]
-        self.tier_list = tiers
+        if tiers is None:
+            tiers = [SequencePointTier()]
+        self.tier_list = [tier for tier in tiers]
         self.contains = self.tier_list
         self._set_tier_names()
         self._name = self.make_name()
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index b31558d..b8678f3 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -367,9 +367,12 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     """
     def __init__(
         self,
-        tiers: list[SequenceTier]|Self = [SequenceTier()],
+        tiers: list[SequenceTier]|Self = None,
         delay_cleanup = False
     ):
+        if tiers is None:
+            tiers = [SequenceTier()]
+
         name = None        
         if hasattr(tiers, "name"):
             name = tiers.name
-- 
2.43.0


From 69cddc22c7ef5b82412152fa383dc9015a9cbaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:27 +0000
Subject: [PATCH 13/29] fix: nested iteration over a SequenceInterval shares
 one cursor

---
 src/aligned_textgrid/sequences/sequences.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 210f3f7..ed4931b 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -422,20 +422,11 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         return self.subset_list[idx]
 
     def __iter__(self):
-        self.current = 0
-        return self
+        return iter(self.subset_list)
     
     def __len__(self)->int:
         return len(self.subset_list)
     
-    def __next__(self):
-        if self.current < len(self.subset_list):
-            this_seg = self.subset_list[self.current]
-            self.current+=1
-            return this_seg
-        else:
-            raise StopIteration
-        
     def index(
             self,
             subset_instance:'SequenceInterval'
-- 
2.43.0


From 69fc6eada17c758b41e8358352f9580d83848a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:33 +0000
Subject: [PATCH 14/29] fix: get_interval_at_point() raises TypeError when no
 interval covers the point

---
 src/aligned_textgrid/points/points.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 83e6f96..e53b7d3 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -222,7 +222,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
                 The SequenceInterval within which the current point falls
         """
         if tier and isinstance(tier, SequenceTier):
-            return tier[self.get_interval_index_at_time(tier)]
+            int_idx = self.get_interval_index_at_time(tier)
+            if int_idx is None:
+                return None
+            return tier[int_idx]
 
     
 SequencePoint._set_seq_type(SequencePoint)
\ No newline at end of file
-- 
2.43.0


From 5ce238411dfe4b800cc81de459f86a072f8fa7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:38 +0000
Subject: [PATCH 15/29] fix: point distances treat a neighbour at time 0 as
 missing

---
 src/aligned_textgrid/points/points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index e53b7d3..278e8b7 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -139,10 +139,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
 
     @property
     def fol_distance(self):
-        if self.fol and self.fol.time:
+        if self.fol and self.fol.time is not None:
             return self.fol.time - self.time
         
-        if self.fol and not self.fol.time:
+        if self.fol and self.fol.time is None:
             warnings.warn("Final point")
             return None
 
@@ -152,10 +152,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
         
     @property
     def prev_distance(self):
-        if self.prev and self.prev.time:
+        if self.prev and self.prev.time is not None:
             return self.prev.time - self.time
         
-        if self.prev and not self.prev.time:
+        if self.prev and self.prev.time is None:
             warnings.warn("initial point")
             return None
 
-- 
2.43.0


From 8ba67f6d981c9ab0b1d67627ae84862ca374faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:43 +0000
Subject: [PATCH 16/29] fix: tiers of a TierGroup without its bottom class are
 not within the group

---
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index b8678f3..cb385e3 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -572,7 +572,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 try:
                     next_idx = [x.entry_class for x in tiers].index(curr.subset_class)
                 except ValueError:
-                    return top_to_bottom
+                    break
                 
                 top_to_bottom.append(tiers[next_idx])
         self.contains = top_to_bottom
-- 
2.43.0


From 7a40c2478ee01caafedd5624b2bb34a335656b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:00 +0000
Subject: [PATCH 17/29] fix: appending to an interval links its tier's entries
 across superset boundaries

---
 src/aligned_textgrid/sequences/tiers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index cb385e3..e8661db 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -138,6 +138,9 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
     def __set_precedence(self)->None:
         for idx,seq in enumerate(self._sequence_list):
             self.__set_intier(seq)
+            if seq.super_instance is not None:
+                # precedence is set within the superset's subset_list
+                continue
             if idx == 0:
                 seq.set_initial()
             else:
-- 
2.43.0


From 33bf1798f3dd259fcb6adec0b1c308c53ed326d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:31 +0000
Subject: [PATCH 18/29] fix: intervals added with append_subset_list() or
 set_super_instance() are not within their superset

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index ed4931b..53fbf01 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -183,6 +183,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             if subset_instance.super_instance:
                 subset_instance.remove_superset()
             self._subset_list.append(subset_instance)
+            self._set_within()
             self._set_subset_precedence()
             # avoid recursion
             if not self is subset_instance.super_instance:
-- 
2.43.0


From a88cf15b10f280a69a6ce4c389e51d6c37f7b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:37 +0000
Subject: [PATCH 19/29] fix: PointsGroup.concat() raises AttributeError

---
 src/aligned_textgrid/mixins/tiermixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index a2d4abf..bd36739 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -297,7 +297,7 @@ class TierGroupMixins:
         increment = self.xmax
         for t1, t2 in zip(self, new):
             for interval in t2:
-                if interval.super_instance is not None:
+                if getattr(interval, "super_instance", None) is not None:
                     continue
                 if interval in t1:
                     continue
-- 
2.43.0


From 6208c4e601a92246b1cd027b33102894e513bd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:43 +0000
Subject: [PATCH 20/29] fix: AlignedTextGrid.cleanup() pads point tiers and
 groups that already reach the end

---
 src/aligned_textgrid/aligned_textgrid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 44706f1..a493cd1 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -476,11 +476,14 @@ class AlignedTextGrid(Sequence, WithinMixins):
             tg_starts = np.array([tg.xmin for tg in interval_tgs])
             tg_ends = np.array([tg.xmax for tg in interval_tgs])
 
+            if len(interval_tgs) < 1:
+                return
+
             if np.allclose(tg_starts.min(), tg_starts.max()) and \
             np.allclose(tg_ends.min(), tg_ends.max()):
                 return
             
-            for tg in self.tier_groups:
+            for tg in interval_tgs:
                 if np.allclose(tg.xmin, tg_starts.min()):
                     continue
 
@@ -494,8 +497,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tier.append(interval, re_relate = False)
 
                 
-            for tg in self.tier_groups:
-                if np.allclose(tg.xmax, tg_starts.max()):
+            for tg in interval_tgs:
+                if np.allclose(tg.xmax, tg_ends.max()):
                     continue
 
                 start = tg.xmax
-- 
2.43.0


From d43af89fb1f83c281fca3201d25dbb5c1000f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:58 +0000
Subject: [PATCH 21/29] fix: intervals that close gaps when tiers are related
 are missing from their tier

---
 src/aligned_textgrid/sequences/tiers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index e8661db..2c2fac0 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -475,9 +475,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                         new_starts = boundaries[:-1][~np.isin(boundaries[:-1], lowers.starts)]
                         new_ends = boundaries[1:][~np.isin(boundaries[1:], lowers.ends)]
                         for s, e in zip(new_starts, new_ends):
-                            lowers.append(
-                                lowers[0].entry_class((s, e, ""))
-                            )
+                            new = lowers[0].entry_class((s, e, ""))
+                            lowers.append(new)
+                            lower_tier.append(new, re_relate = False)
 
                 u_durs = np.array([
                     u.end - u.start
-- 
2.43.0


From 613f7bda0a16164e77bd1e892b5c82ef768469c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:02 +0000
Subject: [PATCH 22/29] fix: an interval without children given as Interval=
 was ignored

SequenceInterval.__init__ tested the deprecated keyword for truth, and an
interval with an empty subset list is falsy, so the copy came out blank.
---
 src/aligned_textgrid/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 53fbf01..56f54ef 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -379,7 +379,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         Interval = None
     ):
         self._seq_type = SequenceInterval
-        if Interval:
+        if Interval is not None:
             interval = Interval
 
         if isinstance(interval, SequenceInterval):
-- 
2.43.0


From 1ec0c8f4e58247a11d5afa53a3d0bb24579a1049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:56 +0000
Subject: [PATCH 23/29] fix: a PointsGroup loses its name when it is re-related
 or appended to a grid

TierGroup keeps the name of the group it is built from; PointsGroup always
made a new one, so appending a point or adding the group to an
AlignedTextGrid replaced the name the user had given.
---
 src/aligned_textgrid/points/tiers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 2bfb6dc..d34d7b4 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -255,10 +255,16 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     ):
         if tiers is None:
             tiers = [SequencePointTier()]
+        name = None
+        if hasattr(tiers, "name"):
+            name = tiers.name
         self.tier_list = [tier for tier in tiers]
         self.contains = self.tier_list
         self._set_tier_names()
-        self._name = self.make_name()
+        if name:
+            self._name = name
+        else:
+            self._name = self.make_name()
 
     def __getitem__(
             self,
-- 
2.43.0


From e0bf09c59b6b0c1ca4ff71cdb9b1c8b9546cb7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:15 +0000
Subject: [PATCH 24/29] fix: AlignedTextGrid.tier_names raises AttributeError
 for grids with points

PointsGroup had no tier_names.
---
 src/aligned_textgrid/points/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index d34d7b4..b1c27df 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -323,6 +323,10 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     def entry_classes(self):
         return [x.entry_class for x in self.tier_list]
     
+    @property
+    def tier_names(self):
+        return [x.name for x in self.tier_list]
+
     @property
     def xmin(self):
         times = np.array(
-- 
2.43.0


From df062c1097b4bc223f8a85300d4fc789bffbe32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:20 +0000
Subject: [PATCH 25/29] fix: named accessors lead to replaced groups after
 interleave_class and pop_class

Both methods build new TierGroups but left the named accessors pointing at
the groups they replaced.
---
 src/aligned_textgrid/aligned_textgrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index a493cd1..ecc1c82 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -651,6 +651,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tgr in self.tier_groups:
             tgr.within = self
         self.contains = self.tier_groups
+        self._set_group_names()
 
     def pop_class(
             self, 
@@ -733,7 +734,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self.tier_groups = new_tier_groups
         for tgr in self.tier_groups:
             tgr.within = self
-        self.contains = self.tier_groups            
+        self.contains = self.tier_groups
+        self._set_group_names()
             
     def get_class_by_name(
             self, 
-- 
2.43.0


From f398255f15e92243b3c239c891d237706832a0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:25 +0000
Subject: [PATCH 26/29] fix: classes whose name contains Top or Bottom cannot
 be linked

A user class called, say, Topic was taken for the top of the hierarchy and
got no superset class, so no tier could be built from it.
---
 src/aligned_textgrid/sequences/sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 56f54ef..8206b06 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -50,7 +50,7 @@ class HierarchyMixins:
         """
         if superset_class is None:
             cls.superset_class = None
-        elif "Top" in cls.__name__ :
+        elif issubclass(cls, Top):
             cls.superset_class = None
         elif issubclass(superset_class, HierarchyPart) and not superset_class is cls:
             cls.superset_class = superset_class
@@ -76,7 +76,7 @@ class HierarchyMixins:
 
         if subset_class is None:
             cls.subset_class = None
-        elif "Bottom" in cls.__name__:
+        elif issubclass(cls, Bottom):
             cls.subset_class = None
         elif issubclass(subset_class, HierarchyPart) and not subset_class is cls:
             cls.subset_class = subset_class
-- 
2.43.0


From 063fd465795489ec9cb463a0b6c6a5657fd08347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:29 +0000
Subject: [PATCH 27/29] fix: return_textgrid can rename a duplicate tier to a
 name that is taken

With tiers named a_0, a, a the second a was renamed to a_0 and the export
failed.
---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index ecc1c82..f41ab1a 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -804,8 +804,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for group in self.tier_groups:
             for tier in group:
                 name = tier.name
-                if name in tier_names:
-                    name = f"{name}_{dup_idx}"
+                while name in tier_names:
+                    name = f"{tier.name}_{dup_idx}"
                     dup_idx += 1 
                 tier_names += [name]
                 out_tg.addTier(tier = tier.return_tier(name))
-- 
2.43.0


From 5fea77461fd2e6933adeabc8047e3576e92c11f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:33 +0000
Subject: [PATCH 28/29] fix: tiers of an appended group lose their names

AlignedTextGrid.append rebuilt each tier from a list of its entries, which
names the tier after its entry class; building it from the tier keeps the
name.
---
 src/aligned_textgrid/aligned_textgrid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index f41ab1a..f28dd03 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -447,8 +447,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(tier_group.entry_classes)
         new_classes = self._swap_classes(tier_group.entry_classes, self._cloned_classes)
         for cl, tier in zip(new_classes, tier_group):
-            entries = [cl._cast(i) for i in tier]
-            tier.__init__(entries, entry_class = cl)
+            tier.__init__(tier, entry_class = cl)
         
         tier_group.__init__(tier_group)
      
-- 
2.43.0


From f22b04e7d9fe5ff59000ea742bae7aacc088897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:12 +0000
Subject: [PATCH 29/29] fix: a tier keeps its own entry list

An empty SequenceTier kept the shared default argument as its entry_list, and
a tier built from a list or another tier kept that list itself, so changing
the entry_list of one tier changed other tiers.
---
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 2c2fac0..35e8f48 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -108,7 +108,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
             if tier.name != tier.entry_class.__name__:
                 name = tier.name            
 
-        self.entry_list = entries
+        self.entry_list = list(entries)
         self.name = name
         self._sequence_list = SequenceList()
         self.__set_classes(entry_class)
-- 
2.43.0

