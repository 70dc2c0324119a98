From c50930fa63379d892d276258ce277fb137da1ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:06 +0000
Subject: [PATCH 01/43] fix: use a new transformer for every parse, so no state
 leaks between parses or threads

---
 src/bibleref/parser.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 19ed9aa..f6082ea 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -28,17 +28,6 @@ def _parser():
     return _parser_obj
 
 
-_transformer_obj = None
-
-def _transformer():
-    '''Return a Lark Transformer singleton.'''
-    global _transformer_obj
-
-    if _transformer_obj is None:
-        _transformer_obj = _BibleRefTransformer()
-    return _transformer_obj
-
-
 def _parse(string, flags: ref.BibleFlag = None):
     '''Parse `string` as a `bibleref.ref.BibleRefList` using `BibleRefTransformer`.'''
     try:
@@ -53,8 +42,8 @@ def _parse(string, flags: ref.BibleFlag = None):
     
     try:
         flags = flags or bibleref.flags or ref.BibleFlag.NONE
-        _transformer().flags = flags
-        range_groups_list = _transformer().transform(tree)
+        # The transformer tracks the current book, chapter and level, so every parse needs its own.
+        range_groups_list = _BibleRefTransformer(flags=flags).transform(tree)
     except VisitError as e:
         raise e.orig_exc
     return range_groups_list
-- 
2.43.0


From 41b27e7e7e5e4e56cf74d4e8be0476575d6082d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 02/43] fix: let an explicit BibleFlag.NONE override the global
 flags

---
 src/bibleref/parser.py |  2 +-
 src/bibleref/ref.py    | 28 +++++++++++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index f6082ea..bd741b9 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -41,7 +41,7 @@ def _parse(string, flags: ref.BibleFlag = None):
         raise new_error
     
     try:
-        flags = flags or bibleref.flags or ref.BibleFlag.NONE
+        flags = ref._effective_flags(flags)
         # The transformer tracks the current book, chapter and level, so every parse needs its own.
         range_groups_list = _BibleRefTransformer(flags=flags).transform(tree)
     except VisitError as e:
diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 421ffa1..0ccab0c 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -37,6 +37,12 @@ class BibleFlag(Flag):
 
 bibleref.flags = BibleFlag.NONE # Default setting for global flags attribute.
 
+def _effective_flags(flags: BibleFlag = None) -> BibleFlag:
+    '''Returns `flags` or, if it is `None`, the global flags. (Note that `BibleFlag.NONE` is not `None`.)'''
+    if flags is None:
+        flags = bibleref.flags
+    return BibleFlag.NONE if flags is None else flags
+
 
 class BibleBook(Enum):
     '''An enum of books in the Bible.
@@ -176,7 +182,7 @@ class BibleBook(Enum):
     def min_verse_num(self, chap_num: int, flags: BibleFlag = None) -> int:
         '''Return the lowest verse number (0 or 1) for the specified chapter number of this `BibleBook`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
             raise InvalidReferenceError(f"No chapter {chap_num} in {self.title}")
         return 0 if (BibleFlag.VERSE_0 in flags and chap_num in self._verse_0s) else 1
@@ -470,7 +476,7 @@ class BibleVerse:
         '''
         if not isinstance(num_verses, int):
             raise TypeError(f"Cannot add a {type(num_verses)} to a BibleVerse")
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         book = self.book
         chap_num = self.chap_num
         if self.verse_num == 0:
@@ -507,7 +513,7 @@ class BibleVerse:
 
         Using the `-` operator is equivalent to calling `subtract()` with `flags = None`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if isinstance(other, int):
             book = self.book
             chap_num = self.chap_num
@@ -609,7 +615,7 @@ class BibleRange:
     def whole_bible(cls, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a `BibleRange` representing the whole Bible.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         # By definition, we need to allow multibook to encompass whole Bible
         flags |= BibleFlag.MULTIBOOK
         start_book = bible_data().book_order[0]
@@ -661,7 +667,7 @@ class BibleRange:
         or using the `flags` argument, a `MultibookRangeNotAllowedError` is raised. If the arguments are of an
         incorrect number or type, a `ValueError` is raised.     
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if len(args) == 0:
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
@@ -857,7 +863,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.first_verse(flags=flags), end=self.end.last_verse(), flags=flags)
 
@@ -866,7 +872,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.book.first_verse(flags=flags), end=self.end.book.last_verse(), flags=flags)
 
@@ -881,7 +887,7 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
             flags |= BibleFlag.MULTIBOOK
@@ -1229,7 +1235,7 @@ class BibleRangeList(util.GroupedList):
             
         3. As a copy of an existing BibleRangeList: `BibleRangeList(existing_bible_range_list)`
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
 
         if len(args) == 1:
             if isinstance(args[0], str):
@@ -1316,7 +1322,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
@@ -1329,7 +1335,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
-- 
2.43.0


From f87eb38e1de5faffae48c61eca469a634061b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:12 +0000
Subject: [PATCH 03/43] fix: pass flags on in BibleBook.first_verse()

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 0ccab0c..bc8765e 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -200,7 +200,7 @@ class BibleBook(Enum):
         '''
         if chap_num is None:
             chap_num = self.min_chap_num()
-        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags))        
+        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags), flags=flags)
 
     def last_verse(self, chap_num: int = None) -> 'BibleVerse':
         '''Returns a `BibleVerse` for the last verse of the specified chapter of this `BibleBook`.
-- 
2.43.0


From d1b8327484aa24ac784f67cbb4a4c55c0856376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:15 +0000
Subject: [PATCH 04/43] fix: honour VERSE_0 in every chapter that
 BibleVerse.subtract() crosses

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index bc8765e..99013bd 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -533,7 +533,7 @@ class BibleVerse:
                         chap_num = book.max_chap_num()
                 
                 verse_num = verse_num + book.max_verse_num(chap_num) - min_verse_num + 1 
-                min_verse_num = book.min_verse_num(chap_num)
+                min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
             bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-- 
2.43.0


From d81bcab03e05d308d74a41185b25dd059d42fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:18 +0000
Subject: [PATCH 05/43] fix: honour the flags argument when subtracting a
 BibleVerse

---
 src/bibleref/ref.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 99013bd..bd8cbb5 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -536,8 +536,9 @@ class BibleVerse:
                 min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
-            bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-            difference = bible_range.verse_count() - 1
+            # BibleRange will swap start and end as necessary
+            bible_range = BibleRange(start=self, end=other, flags=flags)
+            difference = bible_range.verse_count(flags=flags) - 1
             if self < other:
                 difference *= -1
             return difference
-- 
2.43.0


From 3280a3faed68fd0b01156e18762359548d4038f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:21 +0000
Subject: [PATCH 06/43] fix: negative verse counts move the other way in add()
 and subtract()

---
 src/bibleref/ref.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index bd8cbb5..47032a4 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -476,6 +476,8 @@ class BibleVerse:
         '''
         if not isinstance(num_verses, int):
             raise TypeError(f"Cannot add a {type(num_verses)} to a BibleVerse")
+        if num_verses < 0:
+            return self.subtract(-num_verses, flags=flags)
         flags = _effective_flags(flags)
         book = self.book
         chap_num = self.chap_num
@@ -515,6 +517,8 @@ class BibleVerse:
         '''
         flags = _effective_flags(flags)
         if isinstance(other, int):
+            if other < 0:
+                return self.add(-other, flags=flags)
             book = self.book
             chap_num = self.chap_num
             if self.verse_num == 0:
-- 
2.43.0


From dab9d512a956251dc2f1ecb53e0c7a8a4d83fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 07/43] fix: bounding ranges of a list extend to its greatest
 end verse

---
 src/bibleref/ref.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 47032a4..f211536 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1318,8 +1318,8 @@ class BibleRangeList(util.GroupedList):
         BibleFlag.ALL is always set for this method, regardless of the value of `bibleref.flags`.
         '''
         min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start, end=max_range.end, flags=BibleFlag.ALL)
+        max_end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=min_range.start, end=max_end, flags=BibleFlag.ALL)
 
     def chap_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a new minimum `BibleRange` that includes every verse in this list, and begins and ends at
@@ -1330,8 +1330,8 @@ class BibleRangeList(util.GroupedList):
         flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.first_verse(flags=flags), end=max_range.end.last_verse(),
+        max_end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=min_range.start.first_verse(flags=flags), end=max_end.last_verse(),
                           flags=flags)
 
     def book_range(self, flags: BibleFlag = None) -> 'BibleRange':
@@ -1343,8 +1343,8 @@ class BibleRangeList(util.GroupedList):
         flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.book.first_verse(flags=flags), end=max_range.end.book.last_verse(),
+        max_end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=min_range.start.book.first_verse(flags=flags), end=max_end.book.last_verse(),
                           flags=flags)
 
     def sort(self, regroup: bool = True):
-- 
2.43.0


From e8f60480b2c20ce39742f360233ec009ea4eb58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:27 +0000
Subject: [PATCH 08/43] fix: augmented set operators keep the variable bound to
 the list

---
 src/bibleref/ref.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index f211536..9b0e678 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1561,16 +1561,20 @@ class BibleRangeList(util.GroupedList):
         return self.sym_difference(other_ref)
 
     def __ior__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.union_update(other_ref)    
+        self.union_update(other_ref)
+        return self
 
     def __iand__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.intersection_update(other_ref)
+        self.intersection_update(other_ref)
+        return self
 
     def __isub__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.difference_update(other_ref)
+        self.difference_update(other_ref)
+        return self
 
     def __ixor__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.sym_difference_update(other_ref)
+        self.sym_difference_update(other_ref)
+        return self
 
     def __repr__(self):
         return f'BibleRangeList("{self.str()}")'
-- 
2.43.0


From fd33a8ed5063e6484c76b7840ebf45e901d379ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:29 +0000
Subject: [PATCH 09/43] fix: difference_update() drops fully removed ranges and
 copes with itself as operand

---
 src/bibleref/ref.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 9b0e678..f5740f3 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1498,9 +1498,10 @@ class BibleRangeList(util.GroupedList):
         #
         # In-place set difference requires us to make many updates to this list during iteration,
         # beyond what a for-loop can cope with. Therefore we use a while loop.
+        other_ranges = list(other_ref) # Copy, in case other_ref is this list itself
         self_node = self._first
         while self_node is not None:
-            for other_range in other_ref:
+            for other_range in other_ranges:
                 self_range = self_node.value
                 item_difference_list = self_range.difference(other_range, flags=flags)
                 if len(item_difference_list) > 0:
@@ -1512,8 +1513,15 @@ class BibleRangeList(util.GroupedList):
                         self._insert_before(self_node, difference_range)
                         self_node = self_node.prev
                     self._pop_node(old_self_node)
-            self_node = self_node.next
-        self.merge()
+                else:
+                    # Nothing is left of this item, so remove it
+                    next_node = self_node.next
+                    self._pop_node(self_node)
+                    break
+            else:
+                next_node = self_node.next
+            self_node = next_node
+        self.merge(flags=flags)
 
     def sym_difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this `BibleRangeList`, or in `other_ref`,
-- 
2.43.0


From e8bdd2804d6949af269d3a2ca9bfa6459f1b526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:24 +0000
Subject: [PATCH 10/43] fix: BibleRange.difference() at the edges of a book,
 across books and with lists

---
 src/bibleref/ref.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index f5740f3..97fbf3c 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1071,6 +1071,9 @@ class BibleRange:
 
         Using the `-` operator is equivalent to calling `difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return BibleRangeList([self]).difference(other_ref, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1079,14 +1082,14 @@ class BibleRange:
         if other_ref.contains(self):
             return BibleRangeList()
 
-        lower_range = BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags))
-        upper_range = BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end)
-        if self.surrounds(other_ref):
-            return BibleRangeList([lower_range, upper_range], flags=BibleFlag.ALL)
-        if self < other_ref:
-            return BibleRangeList([lower_range], flags=BibleFlag.ALL)
-        else:
-            return BibleRangeList([upper_range], flags=BibleFlag.ALL)
+        # The remaining sections can lie in different books if this is an existing multibook range
+        flags = _effective_flags(flags) | BibleFlag.MULTIBOOK
+        sections = []
+        if self.start < other_ref.start:
+            sections.append(BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags), flags=flags))
+        if self.end > other_ref.end:
+            sections.append(BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags))
+        return BibleRangeList(sections, flags=BibleFlag.ALL)
 
     def sym_difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
                    flags: BibleFlag = None) -> 'BibleRangeList':
-- 
2.43.0


From 6a7fad21f4d6d99ba2a9e3cb9efa480d89d9ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:27 +0000
Subject: [PATCH 11/43] fix: BibleRange.sym_difference() with lists, and pass
 its flags on

---
 src/bibleref/ref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 97fbf3c..ca3a560 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1101,6 +1101,9 @@ class BibleRange:
 
         Using the `^` operator is equivalent to calling `sym_difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # sym_difference() is commutative, so use the list implementation
+            return other_ref.sym_difference(self, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1113,7 +1116,7 @@ class BibleRange:
             # as the symmetric difference
             return union
         else: # Self and other_ref overlap
-            return union[0].difference(intersection[0])
+            return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
         verse = self.start
-- 
2.43.0


From 1d0f66ed0b5d778540ad183c207f962f5db236ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:29 +0000
Subject: [PATCH 12/43] fix: union and intersection of existing multibook
 ranges while MULTIBOOK is unset

---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index ca3a560..6b39c13 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1032,7 +1032,8 @@ class BibleRange:
             else:
                 start = min(self.start, other_ref.start)
                 end = max(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # The result can only be multibook if an existing range is, or the flags allow it
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
@@ -1056,7 +1057,8 @@ class BibleRange:
             else:
                 start = max(self.start, other_ref.start)
                 end = min(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # The result can only be multibook if an existing range is, or the flags allow it
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
-- 
2.43.0


From a54993d31c80f93b4d5447ec8f30589b5bcd99f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:32 +0000
Subject: [PATCH 13/43] fix: BibleRangeList.contains() for multibook ranges
 covered by several elements

---
 src/bibleref/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 6b39c13..54a822c 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1402,9 +1402,9 @@ class BibleRangeList(util.GroupedList):
             other_ref = BibleRangeList([BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)])
         elif isinstance(other_ref, BibleRange):
             other_ref = BibleRangeList([other_ref])
-        # Create a consolidated copy of ourselves
+        # Create a consolidated copy of ourselves (across books too, as other_ref may be an existing multibook range)
         self_copy = BibleRangeList(self)
-        self_copy.merge(flags=flags)
+        self_copy.merge(flags=_effective_flags(flags) | BibleFlag.MULTIBOOK)
         # Every one of the other list's ranges must be contained by at least one of the our ranges
         return all(any(self_range.contains(other_range) for self_range in self_copy) for other_range in other_ref)
 
-- 
2.43.0


From ff45d38018108a20d311af39cda8de2735d55d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:35 +0000
Subject: [PATCH 14/43] fix: honour the flags argument in verse, chapter and
 book counts

---
 src/bibleref/ref.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 54a822c..fc17c31 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -828,7 +828,7 @@ class BibleRange:
     def verse_count(self, flags: BibleFlag = None):
         '''Returns the number of verses in this range.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True) # Each range will thus be within its own chapter
+        bible_ranges = self.split(by_chap=True, flags=flags) # Each range will thus be within its own chapter
         count = 0
         for bible_range in bible_ranges:
             count += (bible_range.end.verse_num - bible_range.start.verse_num + 1)
@@ -840,12 +840,12 @@ class BibleRange:
         If `whole` is True, only whole chapters are counted. Otherwise partial chapters are also included in the
         count.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True)
+        bible_ranges = self.split(by_chap=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_chap():
+            if not bible_ranges[0].is_whole_chap(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap(flags):
                 count -= 1
         return count
 
@@ -854,12 +854,12 @@ class BibleRange:
         
         If `whole` is True, only whole books are counted. Otherwise, partial books are also included in the count.'''
         # We split the range into books, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_book=True)
+        bible_ranges = self.split(by_book=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_book():
+            if not bible_ranges[0].is_whole_book(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book(flags):
                 count -= 1
         return count
 
-- 
2.43.0


From 48ce1a80bbea8e101ec5f50906f4747778ba4db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:38 +0000
Subject: [PATCH 15/43] fix: iterating a BibleRange includes verse 0s when
 VERSE_0 is set

---
 src/bibleref/ref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index fc17c31..b395f4d 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1121,10 +1121,13 @@ class BibleRange:
             return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
+        flags = _effective_flags() | BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0 or self.end.verse_num == 0:
+            flags |= BibleFlag.VERSE_0
         verse = self.start
         while verse is not None and verse <= self.end:
             yield verse
-            verse = verse.add(1, BibleFlag.MULTIBOOK) # `verse`` will be None if we're on the last verse of the Bible
+            verse = verse.add(1, flags) # `verse` will be None if we're on the last verse of the Bible
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From e6f91a9693d8d366f28c32c47a936b84b191456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:41 +0000
Subject: [PATCH 16/43] fix: reject list and group indices below the start of
 the list

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 00623d6..5b18fc8 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -89,7 +89,7 @@ class GroupedList(MutableSequence):
             '''
             if group_index < 0:
                 group_index += self.parent._group_count
-            if group_index >= self.parent._group_count:
+            if group_index < 0 or group_index >= self.parent._group_count:
                 raise IndexError(f"Group index {group_index} out of range")
             return group_index
 
@@ -215,7 +215,7 @@ class GroupedList(MutableSequence):
         '''
         if index < 0:
             index += self._node_count
-        if index >= self._node_count:
+        if index < 0 or index >= self._node_count:
             raise IndexError(f"List index {index} out of range")
         return index
 
-- 
2.43.0


From 537c7df6f28ce3319a22755833c8b031e0e570ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:43 +0000
Subject: [PATCH 17/43] fix: GroupedList.index() on an empty list or with a
 limit of 0

---
 src/bibleref/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 5b18fc8..391f386 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -436,8 +436,11 @@ class GroupedList(MutableSequence):
         if limit_index is None:
             limit_index = self._node_count
         self._check_type(value)
+        if self._node_count == 0:
+            raise ValueError(f"Value {value} not found in list")
         min_index = self._conform_index(min_index)
-        limit_index = self._conform_index(limit_index-1) + 1
+        if limit_index != 0: # A limit of 0 is already conformed (and not a limit at the end of the list)
+            limit_index = self._conform_index(limit_index-1) + 1
         if min_index > limit_index: # Swap
             (limit_index, min_index) = (min_index, limit_index)
         node: GroupedList._Node = self._first
-- 
2.43.0


From 5e17c9fa7923918958052fcc114abbee31980ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:46 +0000
Subject: [PATCH 18/43] fix: starting a group where one already starts doesn't
 corrupt the list

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 391f386..465652b 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -318,8 +318,8 @@ class GroupedList(MutableSequence):
             self._first_head = node
 
     def _insert_new_group_at_node(self, node: 'GroupedList._Node'):
-        if node is self._first:
-            # First node is always already a group.
+        if node.is_group_head:
+            # Already the start of a group (as the first node always is).
             return
         node.is_group_head = True
         prev_group_head = self._find_group_head(node.prev)
-- 
2.43.0


From 498cdf4c4741fba06045ab004881f63e81b6a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:48 +0000
Subject: [PATCH 19/43] fix: comparing a GroupedList for equality with other
 objects doesn't fail

---
 src/bibleref/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 465652b..b942151 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -645,6 +645,8 @@ class GroupedList(MutableSequence):
             node = node.next
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, GroupedList):
+            return NotImplemented
         return self.equals(other)
 
     def equals(self, other_iterable, compare_groups=True) -> bool:
-- 
2.43.0


From 95c961bcbf8ab33ad21734d825378a0ce83a7ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:52 +0000
Subject: [PATCH 20/43] fix: extending a list with itself, or with an item of
 the wrong type

---
 src/bibleref/util.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index b942151..7e91c02 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -480,18 +480,26 @@ class GroupedList(MutableSequence):
         else:
             self._insert_after(self._last, value, new_group)
                
+    def _checked_items(self, iterable) -> list:
+        '''Returns the items of `iterable` as a new list (as `iterable` may be this list itself, or
+        a view of it), after checking the type of every item.'''
+        items = list(iterable)
+        for item in items:
+            self._check_type(item)
+        return items
+
     def append_group(self, iterable):
         '''Appends each item of `iterable` to the end of this list.
         
         The new items all form a single new group.'''
         is_first_item = True
-        for item in iterable:
+        for item in self._checked_items(iterable):
             self.append(item, new_group=is_first_item)
             is_first_item = False
 
     def extend(self, iterable):
         '''Appends each item of `iterable` to the end of this list.'''
-        for item in iterable:
+        for item in self._checked_items(iterable):
             self.append(item)
 
     def insert(self, index: int, value):
-- 
2.43.0


From d7427c005a4df401189182ec0514c01f2d097f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:54 +0000
Subject: [PATCH 21/43] fix: clear() invalidates existing group views

---
 src/bibleref/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 7e91c02..25036a8 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -190,6 +190,7 @@ class GroupedList(MutableSequence):
         
         If the items of `iterable` are Python lists or tuples, each element of `iterable` is added as a
         separate group.'''
+        self._first = None
         self.clear()
         if iterable is None:
             return
@@ -537,6 +538,10 @@ class GroupedList(MutableSequence):
 
     def clear(self):
         '''Removes all items from the list.'''
+        for node in self._node_iter():
+            # Detach the nodes, so that existing GroupViews can tell they're no longer valid
+            node.parent = None
+            node.clear_group_head()
         self._first: GroupedList._Node = None          # First node
         self._last: GroupedList._Node = None           # Last node
         self._node_count: int = 0                    # Count of nodes
-- 
2.43.0


From f2206d24b8d6e0ecf6e03ac1ec1560c9d8f00c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:57 +0000
Subject: [PATCH 22/43] fix: sort long lists without exceeding the recursion
 limit

---
 src/bibleref/util.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 25036a8..d6ab818 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -629,20 +629,29 @@ class GroupedList(MutableSequence):
         if first_node_B is None:
             return (first_node_A, last_node_A)
         
-        if first_node_A <=  first_node_B: # Nodes compare using their values
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A.next, last_node_A,
-                                                                    first_node_B, last_node_B)
-            first_node_A.next = next_first_node
-            next_first_node.prev = first_node_A
-            first_node_A.prev = None
-            return (first_node_A, new_last_node)
-        else: # first_node_B is less than first_node_A
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A, last_node_A,
-                                                                    first_node_B.next, last_node_B)
-            first_node_B.next = next_first_node
-            next_first_node.prev = first_node_B
-            first_node_B.prev = None
-            return (first_node_B, new_last_node)
+        node_A = first_node_A
+        node_B = first_node_B
+        new_first_node = None
+        new_last_node = None
+        while node_A is not None and node_B is not None:
+            if node_A <= node_B: # Nodes compare using their values
+                node = node_A
+                node_A = node_A.next
+            else: # node_B is less than node_A
+                node = node_B
+                node_B = node_B.next
+            node.prev = new_last_node
+            if new_last_node is None:
+                new_first_node = node
+            else:
+                new_last_node.next = node
+            new_last_node = node
+
+        # One sublist is exhausted, so what remains of the other one follows unchanged
+        (rest_node, rest_last_node) = (node_A, last_node_A) if node_A is not None else (node_B, last_node_B)
+        new_last_node.next = rest_node
+        rest_node.prev = new_last_node
+        return (new_first_node, rest_last_node)
 
     #
     # End of sort-related methods
-- 
2.43.0


From 41fdcf2dfb9a41aebc732df1ac47e8ca8cf6fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:30 +0000
Subject: [PATCH 23/43] fix: pass flags on when formatting, regrouping and
 testing adjacency

---
 src/bibleref/ref.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index b395f4d..257030e 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -939,7 +939,7 @@ class BibleRange:
         
         range_list = BibleRangeList(split_result, flags=flags)
         if regroup:
-            range_list.regroup()
+            range_list.regroup(flags)
         return range_list
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
@@ -966,7 +966,7 @@ class BibleRange:
         if isinstance(other_ref, BibleRangeList):
             # BibleRangeList doesn't define is_adjacent(), so we have to implement here
             return other_ref.is_disjoint(self) and \
-                   any(self.is_adjacent(other_range) for other_range in other_ref) 
+                   any(self.is_adjacent(other_range, flags=flags) for other_range in other_ref) 
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1163,11 +1163,11 @@ class BibleRange:
         - If `force_start_verses` is `True`, the start verse of a range is made explicit if the end
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
-        if self.spans_start_book():
+        if self.spans_start_book(flags):
             start_parts = BibleVersePart.BOOK
             at_verse_level = False
-        elif self.spans_start_chap():
-            if force_start_verses and not self.spans_end_chap():
+        elif self.spans_start_chap(flags):
+            if force_start_verses and not self.spans_end_chap(flags):
                 start_parts = BibleVersePart.FULL_REF
                 at_verse_level = True
             else:
@@ -1382,7 +1382,7 @@ class BibleRangeList(util.GroupedList):
             else:
                 # The two ranges can't be merged, so move on
                 node = node.next
-        self.regroup()
+        self.regroup(flags)
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
         '''Returns `True` if every `BibleRange` is disjoint with all the verses in `other_ref`, otherwise `False`.
@@ -1643,7 +1643,7 @@ class BibleRangeList(util.GroupedList):
                 show_start_verse = True
 
             cur_book = bible_range.start.book
-            if (not show_start_verse) and (not bible_range.spans_end_chap()):
+            if (not show_start_verse) and (not bible_range.spans_end_chap(flags)):
                 # End verse will show verse num, and we've been asked to show start verse num in such cases
                 show_start_verse = True
                 at_verse_level = True
@@ -1772,7 +1772,7 @@ class BibleRangeList(util.GroupedList):
 
                 cur_book = bible_range.start.book
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
-                   (not bible_range.spans_end_chap()):
+                   (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
                     start_parts |= BibleVersePart.VERSE
                     at_verse_level = True
-- 
2.43.0


From 31acfdb77b65db1292092185fa718690651c86df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:34 +0000
Subject: [PATCH 24/43] fix: recognise multi-word book titles written without
 spaces

---
 src/bibleref/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 63b9697..3771b3f 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -158,8 +158,8 @@ class BibleData:
                     full_title_pattern += "(" + char
                 full_title_pattern += ")?" * (len(full_title)-min_chars)
 
-                # Allow for extra whitespace.
-                full_title_pattern = full_title_pattern.replace(" ",r"\s+")
+                # Allow for variable whitespace (including none, as in strings formatted with nospace=True).
+                full_title_pattern = full_title_pattern.replace(" ",r"\s*")
 
                 # Collate the extra acceptable abbreviations, and combine everything into a final,
                 # single regex for the book
-- 
2.43.0


From 0a35c3c3fac18c75bbbc1fbac30e1b7d8406c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:36 +0000
Subject: [PATCH 25/43] fix: parse reversed references to whole chapters or
 books as a whole

---
 src/bibleref/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index bd741b9..7680ebc 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -82,6 +82,8 @@ class _BibleRefTransformer(Transformer):
     def dual_ref(self, meta, children): # Children: single_ref RANGE_SEP single_ref
         first: ref.BibleRange = children[0]
         second: ref.BibleRange = children[2]
+        if first.start > second.end: # The references are reversed, so swap them as a whole
+            (first, second) = (second, first)
         # We don't need to update self.cur_book or self.cur_chap_num as they will
         # have already been updated by the parsing of the second BibleRange child.
         try:
-- 
2.43.0


From 3db38d73c880eab6122d28081d1b1e99261feaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:39 +0000
Subject: [PATCH 26/43] fix: make the chapter optional in
 BibleVerse.max_verse_num(), as documented

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 257030e..6e9b05f 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -400,7 +400,7 @@ class BibleVerse:
             chap_num = self.chap_num
         return self.book.min_verse_num(chap_num, flags=flags)
 
-    def max_verse_num(self, chap_num: int) -> int:
+    def max_verse_num(self, chap_num: int = None) -> int:
         '''Return the highest verse number for the specified chapter of the `BibleBook` containing this verse.
         If no chapter is specified, it returns the highest verse number of the chapter containing this `BibleVerse`.
         '''
-- 
2.43.0


From 0cd63ebcb3d64c87316316f30d53c365a631b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:41 +0000
Subject: [PATCH 27/43] fix: position of parsing errors at the end of the
 string

---
 src/bibleref/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 7680ebc..8c42ece 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -1,7 +1,7 @@
 '''Submodule for parsing strings into Bible references. The contents of this submodule should be considered an
 implementation detail and not relied upon.
 '''
-from lark import Lark, UnexpectedInput
+from lark import Lark, UnexpectedInput, UnexpectedEOF
 from lark import Transformer, v_args
 from lark.visitors import VisitError
 
@@ -35,6 +35,8 @@ def _parse(string, flags: ref.BibleFlag = None):
     except UnexpectedInput as orig:
         start_pos=orig.pos_in_stream
         end_pos=orig.pos_in_stream + 1
+        if isinstance(orig, UnexpectedEOF): # Lark has no position for the end of the string
+            start_pos = end_pos = len(string)
         new_error = ref.BibleRefParsingError(f"Unexpected text: {string[start_pos:end_pos]}",
                                          start_pos, end_pos)
         new_error.orig = orig
-- 
2.43.0


From 45757fa3a34fdcaa864fc725a807d65e9746be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:44 +0000
Subject: [PATCH 28/43] fix: raise a parsing error for numbers too long to
 convert

---
 src/bibleref/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 8c42ece..be853de 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -190,7 +190,10 @@ class _BibleRefTransformer(Transformer):
         return book
 
     def NUM(self, token):
-        return int(token)
+        try:
+            return int(token)
+        except ValueError: # Python limits the number of digits it converts
+            raise ref.BibleRefParsingError("Number is too large", token.start_pos, token.end_pos)
 
 def _recreate_parser():
     global _parser_obj
-- 
2.43.0


From c91c38b8cea5e790a8a272ba0c379a4870ae0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:48 +0000
Subject: [PATCH 29/43] fix: in-place intersection and symmetric difference
 keep the new grouping

---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 6e9b05f..1e48819 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1473,7 +1473,8 @@ class BibleRangeList(util.GroupedList):
         '''
         intersection_list = self.intersection(other_ref, flags=flags)
         self.clear()
-        self.extend(intersection_list)
+        for group in intersection_list.groups:
+            self.append_group(group)
 
     def difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are in this `BibleRangeList`, but not in `other_ref`.
@@ -1560,7 +1561,8 @@ class BibleRangeList(util.GroupedList):
         '''
         sym_difference_list = self.sym_difference(other_ref, flags=flags)
         self.clear()
-        self.extend(sym_difference_list)
+        for group in sym_difference_list.groups:
+            self.append_group(group)
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From 26de01db50579fcd163e421eee29fea2d692e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:50 +0000
Subject: [PATCH 30/43] fix: raise ValueError for a BibleRange without start or
 end

---
 src/bibleref/ref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 1e48819..e588868 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -674,6 +674,8 @@ class BibleRange:
         '''
         flags = _effective_flags(flags)
         if len(args) == 0:
+            if not isinstance(start, BibleVerse) or not isinstance(end, BibleVerse):
+                raise ValueError("BibleRange needs a start and an end BibleVerse, or positional arguments")
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
                                                     f"({start.book.abbrev} and {end.book.abbrev} are different)")
-- 
2.43.0


From 672fddcdfa6981f44bfecf32681f080f604925a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:54 +0000
Subject: [PATCH 31/43] fix: books without verse data have no chapters

---
 src/bibleref/ref.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index e588868..1ceb267 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -166,10 +166,7 @@ class BibleBook(Enum):
     def min_chap_num(self) -> int:
         '''Return lowest chapter number (currently always 1) for this `BibleBook`.
         '''
-        if self._max_verses is None:
-            return 0
-        else:
-            return 1    # Currently always 1. Perhaps in future some books may have a chapter-0 prologue included?
+        return 1    # Currently always 1. Perhaps in future some books may have a chapter-0 prologue included?
 
     def max_chap_num(self) -> int:
         '''Return highest chapter number for this `BibleBook`.
-- 
2.43.0


From 1b7ab26703dce27714c87f8bd259824129d45b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:57 +0000
Subject: [PATCH 32/43] fix: refuse to split a range after less than one verse

---
 src/bibleref/ref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 1ceb267..6b52ff2 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -891,6 +891,8 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
+        if num_verses is not None and num_verses < 1:
+            raise ValueError(f"Cannot split a BibleRange after every {num_verses} verses")
         flags = _effective_flags(flags)
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
-- 
2.43.0


From f0b0f9c40b4c29baaf28e0c868d56721377992cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 33/43] fix: allow quotes and backslashes as separators

---
 src/bibleref/parser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index be853de..2410b1b 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -195,6 +195,10 @@ class _BibleRefTransformer(Transformer):
         except ValueError: # Python limits the number of digits it converts
             raise ref.BibleRefParsingError("Number is too large", token.start_pos, token.end_pos)
 
+def _escape(separator):
+    '''Escapes `separator` for use in a quoted string of the grammar.'''
+    return separator.replace("\\", "\\\\").replace('"', '\\"')
+
 def _recreate_parser():
     global _parser_obj
     range_sep = bible_data().range_sep
@@ -225,11 +229,11 @@ def _recreate_parser():
 
         NUM: INT
 
-        RANGE_SEP: "{range_sep}"
+        RANGE_SEP: "{_escape(range_sep)}"
         ?list_sep: MAJOR_LIST_SEP | MINOR_LIST_SEP
-        MAJOR_LIST_SEP: "{major_list_sep}"
-        MINOR_LIST_SEP: "{minor_list_sep}"
-        VERSE_SEP: "{verse_sep_std}" | "{verse_sep_alt}"
+        MAJOR_LIST_SEP: "{_escape(major_list_sep)}"
+        MINOR_LIST_SEP: "{_escape(minor_list_sep)}"
+        VERSE_SEP: "{_escape(verse_sep_std)}" | "{_escape(verse_sep_alt)}"
 
         BOOK_NAME: /\w(\w|\s)*[^0-9\s\{verse_sep_std}\{verse_sep_alt}\{major_list_sep}\{minor_list_sep}\{range_sep}]/  
             // Books match as follows:
-- 
2.43.0


From 165c3e5065726efb31da57d6f3760ce6180fa316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:38 +0000
Subject: [PATCH 34/43] fix: copy.copy() of a list returned a list that shared
 its nodes with the original

---
 src/bibleref/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index d6ab818..aafa0a6 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -666,6 +666,9 @@ class GroupedList(MutableSequence):
             yield node.value
             node = node.next
 
+    def __copy__(self):
+        return self.__class__(self.to_nested_lists())
+
     def __eq__(self, other) -> bool:
         if not isinstance(other, GroupedList):
             return NotImplemented
-- 
2.43.0


From b5a84b4be4c9f8826d9a8220f96a8ba5339f9a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:36 +0000
Subject: [PATCH 35/43] fix: a sort refused because items can't be compared
 lost items of the list

---
 src/bibleref/util.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index aafa0a6..4926b8e 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -579,7 +579,18 @@ class GroupedList(MutableSequence):
     def sort(self):
         '''Sorts this list in-place. All existing groups are cleared and replaced with a single
         new group.'''
-        (self._first, self._last) = self._merge_sort(self._first, clear_group_heads=True)
+        nodes = list(self._node_iter())
+        heads = [node for node in nodes if node.is_group_head]
+        try:
+            (self._first, self._last) = self._merge_sort(self._first, clear_group_heads=True)
+        except Exception:
+            # Some items can't be compared, so put the nodes and groups back as they were
+            for prev_node, node, next_node in zip([None] + nodes, nodes, nodes[1:] + [None]):
+                (node.prev, node.next) = (prev_node, next_node)
+            for prev_head, head, next_head in zip([None] + heads, heads, heads[1:] + [None]):
+                head.is_group_head = True
+                (head.prev_head, head.next_head) = (prev_head, next_head)
+            raise
         self._setup_single_group()
 
     def _merge_sort(self, first_node: 'GroupedList._Node', clear_group_heads=False):
-- 
2.43.0


From 0c82f831bce5d5ff74c310f868ed1a2463131b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:36 +0000
Subject: [PATCH 36/43] fix: a separator that the parser refused was still used
 for formatting

---
 src/bibleref/data.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 3771b3f..2fadd9c 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -21,6 +21,15 @@ class BibleData:
         self._max_verses        = {}
         self._verse_0s          = {}    
 
+    def _set_separator(self, attr_name, value):
+        old_value = getattr(self, attr_name)
+        setattr(self, attr_name, value)
+        try:
+            parser._recreate_parser()
+        except Exception: # The parser can't use this separator, so formatting shouldn't either
+            setattr(self, attr_name, old_value)
+            raise
+
     @property
     def range_sep(self):
         '''Range separator character used to separate start and end of a Bible range.'''
@@ -28,8 +37,7 @@ class BibleData:
     
     @range_sep.setter
     def range_sep(self, value):
-        self._range_sep = value
-        parser._recreate_parser()
+        self._set_separator("_range_sep", value)
 
     @property
     def major_list_sep(self):
@@ -40,8 +48,7 @@ class BibleData:
     
     @major_list_sep.setter
     def major_list_sep(self, value):
-        self._major_list_sep = value
-        parser._recreate_parser()
+        self._set_separator("_major_list_sep", value)
 
     @property
     def minor_list_sep(self):
@@ -52,8 +59,7 @@ class BibleData:
     
     @minor_list_sep.setter
     def minor_list_sep(self, value):
-        self._minor_list_sep = value
-        parser._recreate_parser()
+        self._set_separator("_minor_list_sep", value)
 
     @property
     def verse_sep_std(self):
@@ -62,8 +68,7 @@ class BibleData:
     
     @verse_sep_std.setter
     def verse_sep_std(self, value):
-        self._verse_sep_std = value
-        parser._recreate_parser()
+        self._set_separator("_verse_sep_std", value)
 
     @property
     def verse_sep_alt(self):
@@ -72,8 +77,7 @@ class BibleData:
     
     @verse_sep_alt.setter
     def verse_sep_alt(self, value):
-        self._verse_sep_alt = value
-        parser._recreate_parser()
+        self._set_separator("_verse_sep_alt", value)
 
     @property
     def book_order(self):
-- 
2.43.0


From 60290e63481f0c86a32fc9c7744272a3a9656713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:36 +0000
Subject: [PATCH 37/43] fix: refused Bible data (e.g. a book repeated in the
 order) was partly put into effect

---
 src/bibleref/data.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 2fadd9c..ddde57b 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -88,11 +88,12 @@ class BibleData:
 
     @book_order.setter
     def book_order(self, book_order_list: list):
-        self._book_order = book_order_list
         book_set = set(ref.BibleBook)
+        for book in book_order_list: # Check the whole list before changing anything
+            book_set.remove(book)
+        self._book_order = book_order_list
         for i in range(len(self._book_order)):
             self._book_order[i].order = i
-            book_set.remove(self._book_order[i])
         # Set remaining order of remaining books to None
         for book in book_set:
             # print(f"No order for {book}")
@@ -106,9 +107,16 @@ class BibleData:
 
     @name_data.setter
     def name_data(self, name_data: dict):
-        self._name_data = name_data
-        self._set_abbrevs_and_titles(self._name_data)
-        self._set_regexes(self._name_data)
+        old_name_data = self._name_data
+        try:
+            self._name_data = name_data
+            self._set_abbrevs_and_titles(self._name_data)
+            self._set_regexes(self._name_data)
+        except Exception: # Some of the data can't be used, so don't use any of it
+            self._name_data = old_name_data
+            self._set_abbrevs_and_titles(self._name_data)
+            self._set_regexes(self._name_data)
+            raise
 
     def _set_abbrevs_and_titles(self, name_data: dict):
         for book in ref.BibleBook:
@@ -181,6 +189,9 @@ class BibleData:
 
     @max_verses.setter
     def max_verses(self, max_verses: dict):
+        for book in ref.BibleBook:
+            if book in max_verses:
+                max_verses[book] # Unusable data is refused here, before anything changes
         self._max_verses = max_verses
         for book in ref.BibleBook:
             if book not in self._max_verses:
@@ -198,6 +209,9 @@ class BibleData:
     
     @verse_0s.setter
     def verse_0s(self, verse_0s: dict):
+        for book in ref.BibleBook:
+            if book in verse_0s:
+                verse_0s[book] # Unusable data is refused here, before anything changes
         self._verse_0s = verse_0s
         for book in ref.BibleBook:
             if book in verse_0s:
-- 
2.43.0


From 411aaf6aba93f9d4164f4068cd38a920f98d1ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:04 +0000
Subject: [PATCH 38/43] fix: book names are plain text, not patterns

---
 src/bibleref/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index ddde57b..87de9a8 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -162,22 +162,22 @@ class BibleData:
                 
                 # Add the minimum number of unique characters
                 # e.g. full_title_pattern = r"(1|I)\s*J"
-                full_title_pattern += full_title[0:min_chars]
+                full_title_pattern += re.escape(full_title[0:min_chars])
 
                 # Add the rest of full title characters as optional matches.
                 # e.g. full_title_pattern = r"(1|I)\s*J(o(h(n)?)?)?"
                 for char in full_title[min_chars:]:
-                    full_title_pattern += "(" + char
+                    full_title_pattern += "(" + re.escape(char)
                 full_title_pattern += ")?" * (len(full_title)-min_chars)
 
                 # Allow for variable whitespace (including none, as in strings formatted with nospace=True).
-                full_title_pattern = full_title_pattern.replace(" ",r"\s*")
+                full_title_pattern = full_title_pattern.replace(r"\ ",r"\s*")
 
                 # Collate the extra acceptable abbreviations, and combine everything into a final,
                 # single regex for the book
                 total_pattern = full_title_pattern
                 for abbrev in extra_abbrevs:
-                    abbrev = abbrev.replace(" ",r"\s*") # Allow for variable whitespace
+                    abbrev = re.escape(abbrev).replace(r"\ ",r"\s*") # Allow for variable whitespace
                     total_pattern += "|" + abbrev
                 book.regex = re.compile(total_pattern, re.IGNORECASE)
 
-- 
2.43.0


From 75ce54a0617dc06614014db145ce621274b9234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:47 +0000
Subject: [PATCH 39/43] fix: allow book names of a single letter

---
 src/bibleref/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 2410b1b..b2b13b1 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -235,7 +235,7 @@ def _recreate_parser():
         MINOR_LIST_SEP: "{_escape(minor_list_sep)}"
         VERSE_SEP: "{_escape(verse_sep_std)}" | "{_escape(verse_sep_alt)}"
 
-        BOOK_NAME: /\w(\w|\s)*[^0-9\s\{verse_sep_std}\{verse_sep_alt}\{major_list_sep}\{minor_list_sep}\{range_sep}]/  
+        BOOK_NAME: /(?=\w)(\w|\s)*[^0-9\s\{verse_sep_std}\{verse_sep_alt}\{major_list_sep}\{minor_list_sep}\{range_sep}]/  
             // Books match as follows:
             // Can start with any 'word' (\w) character (incl. numbers)
             // Can include any amount of word characters or whitespace
-- 
2.43.0


From e6a0a5aca36478e43cde615961674664a5813c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 40/43] fix: invalid escape sequences in the package docstring

---
 src/bibleref/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/__init__.py b/src/bibleref/__init__.py
index 80f36b9..4d9314e 100644
--- a/src/bibleref/__init__.py
+++ b/src/bibleref/__init__.py
@@ -175,8 +175,8 @@ work on several earlier versions as well.
 1. `python3 -m venv venv` (Create a virtual environment.)
    - On Windows: `python -m venv venv`
 1. `source venv/bin/activate` (Activate the virtual environment.)
-   - In Windows cmd.exe: `venv\Scripts\\activate.bat`
-   - In Windows powershell: `.\\venv\Scripts\Activate.ps1` You may first need to run `Set-ExecutionPolicy -ExecutionPolicy RemoteSigned -Scope CurrentUser`
+   - In Windows cmd.exe: `venv\\Scripts\\activate.bat`
+   - In Windows powershell: `.\\venv\\Scripts\\Activate.ps1` You may first need to run `Set-ExecutionPolicy -ExecutionPolicy RemoteSigned -Scope CurrentUser`
 1. For development work...
    - `pip install -e .` (Creates an editable local install)
 1. ...or to build the package:
-- 
2.43.0


From 7abd73567206844997427271c5018615f7180392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:32 +0000
Subject: [PATCH 41/43] fix: forced start verses were left out, or written
 without their chapter, before the start of a book

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 6b52ff2..6ae8464 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1693,11 +1693,11 @@ class BibleRangeList(util.GroupedList):
         first_range = True
         list_sep = ""
         result_str = ""
-        force_dual_ref = False # True if we require a single reference to display as a dual_reference_range
 
         for group in self.groups:
             for bible_range in group:
                 bible_range: BibleRange = bible_range # Typecast                
+                force_dual_ref = False # True if we require a single reference to display as a dual_reference_range
                 if bible_range.spans_start_book(flags): # Range start includes an entire book
                     # Even if already in same book, whole book references repeat the whole book name.
                     start_parts = BibleVersePart.BOOK
-- 
2.43.0


From 4feac5fa54fe5ccaf9760c43a84dcfddf9864afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:32 +0000
Subject: [PATCH 42/43] fix: after a forced dual reference, later single
 references in a list were written as ranges

---
 src/bibleref/ref.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 6ae8464..eddc047 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1164,16 +1164,15 @@ class BibleRange:
         - If `force_start_verses` is `True`, the start verse of a range is made explicit if the end
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
-        if self.spans_start_book(flags):
+        if self.spans_start_chap(flags) and force_start_verses and not self.spans_end_chap(flags):
+            start_parts = BibleVersePart.FULL_REF
+            at_verse_level = True
+        elif self.spans_start_book(flags):
             start_parts = BibleVersePart.BOOK
             at_verse_level = False
         elif self.spans_start_chap(flags):
-            if force_start_verses and not self.spans_end_chap(flags):
-                start_parts = BibleVersePart.FULL_REF
-                at_verse_level = True
-            else:
-                start_parts = BibleVersePart.BOOK_CHAP
-                at_verse_level = False
+            start_parts = BibleVersePart.BOOK_CHAP
+            at_verse_level = False
         else:
             start_parts = BibleVersePart.FULL_REF
             at_verse_level = True
-- 
2.43.0


From 678dbc0e38aa7b62d829354939bf64d7787d85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 43/43] fix: in lists, forced start verses at the start of a
 book were written without their chapter

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index eddc047..6663f91 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1776,7 +1776,7 @@ class BibleRangeList(util.GroupedList):
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
                    (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
-                    start_parts |= BibleVersePart.VERSE
+                    start_parts |= BibleVersePart.CHAP_VERSE
                     at_verse_level = True
 
                 start_str = bible_range.start.str(abbrev, alt_sep, nospace, start_parts) 
-- 
2.43.0

