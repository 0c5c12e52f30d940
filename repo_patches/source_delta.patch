From 1e8a5b458ae37a2491678655e98ec54997d95345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:35 +0000
Subject: [PATCH 01/34] fix: compile collections that have no usage

Extractor builds Collection(kind, None) for collections without usage, the
dumper writes it, but Streamer raised TypeError on it.
---
 hrdc/descriptor/streamer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index e9d70e3..fb3675c 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -22,7 +22,8 @@ class Streamer(descriptor.Visitor):
                 a(item.ReportID(e.id))
 
         elif isinstance(e, descriptor.Collection):
-            a(item.Usage(e.usage))
+            if e.usage is not None:
+                a(item.Usage(e.usage))
             a(item.Collection(e.kind))
 
     def leave(self, e):
-- 
2.43.0


From bf3451c6b87b32a11e4509da0761f3b4e242bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:35 +0000
Subject: [PATCH 02/34] fix: account for value count in report offsets

Streamer advanced the report offset by size instead of size * count, so
that values following a counted value were padded wrongly.
---
 hrdc/descriptor/streamer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index fb3675c..57f7da4 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -90,7 +90,7 @@ class Streamer(descriptor.Visitor):
 
             a(item.ReportCount(e.count))
             a(item.ReportSize(e.size))
-            self.report_size[int(e.way)][self.report_id] += int(e.size)
+            self.report_size[int(e.way)][self.report_id] += int(e.size) * int(e.count)
             a(item.Item.itemclass(item.Item.Main, e.way)(e.flags))
 
             if e.namedArray and not constant and e.usage:
-- 
2.43.0


From 5ec0e5c7cd111fbd95c3364517c0a33f7af5f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:35 +0000
Subject: [PATCH 03/34] fix: resume the enclosing report after a nested one

Values following a nested Report were emitted with the ID and offset of
the nested report.
---
 hrdc/descriptor/streamer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 57f7da4..82ff785 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -12,11 +12,13 @@ class Streamer(descriptor.Visitor):
             int(item.MainItem.Feature) : [0] * 256,
             }
         self.report_id = 0
+        self.report_stack = []
 
     def enter(self, e):
         a = self.stream.append
 
         if isinstance(e, descriptor.Report):
+            self.report_stack.append(self.report_id)
             self.report_id = e.id
             if e.id:
                 a(item.ReportID(e.id))
@@ -29,7 +31,12 @@ class Streamer(descriptor.Visitor):
     def leave(self, e):
         a = self.stream.append
 
-        if isinstance(e, descriptor.Collection):
+        if isinstance(e, descriptor.Report):
+            self.report_id = self.report_stack.pop()
+            if self.report_id and self.report_id != e.id:
+                a(item.ReportID(self.report_id))
+
+        elif isinstance(e, descriptor.Collection):
             a(item.EndCollection())
 
     def element(self, e):
-- 
2.43.0


From 7ae37aa2ce5af36f482e0b9217182025953bfbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:52 +0000
Subject: [PATCH 04/34] fix: emit named arrays as arrays, keeping their other
 flags

A named array with a usage was emitted as a Variable item, which makes it
one control with the first usage of the array; any flag given was lost.
---
 hrdc/descriptor/descriptor.py | 5 +----
 hrdc/descriptor/dumper.py     | 7 ++++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/hrdc/descriptor/descriptor.py b/hrdc/descriptor/descriptor.py
index 70a983e..2fa0c77 100644
--- a/hrdc/descriptor/descriptor.py
+++ b/hrdc/descriptor/descriptor.py
@@ -116,10 +116,7 @@ class Value(Base):
         self.count = count
 
         if namedArray:
-            if usage:
-                self.flags = self.Variable
-            else:
-                self.flags = self.Data | self.Array
+            self.flags = flags & ~self.Variable
             self.logicalMax = len(self.namedArray) + self.logicalMin - 1
 
     def accept(self, visitor):
diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 944f729..9e663b5 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -60,9 +60,10 @@ if __name__ == "__main__":
         elif isinstance(e, descriptor.Value):
             us = Usage.lookup(e.usage) if e.usage else None
             self.write(self.indent() + "Value(Value.%s, %s, %d" % (e.way, us, e.size))
-            if int(e.flags) != int(item.DataItem.Data | item.DataItem.Variable | item.DataItem.Absolute) \
-                   and not (e.namedArray and e.usage and e.flags == item.DataItem.Variable) \
-                   and not (e.namedArray and not e.usage and e.flags == item.DataItem.Data | item.DataItem.Array):
+            default_flags = item.DataItem.Data | item.DataItem.Variable | item.DataItem.Absolute
+            if e.namedArray:
+                default_flags = default_flags & ~item.DataItem.Variable
+            if int(e.flags) != int(default_flags):
                 flags = str(e.flags)
                 flags = re.sub(r"([A-Za-z]+)", r"Value.\1", flags)
                 self.write(", flags = %s" % flags)
-- 
2.43.0


From a0e0a139a7be788ec59ccf470fce0b6caa3d45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:28 +0000
Subject: [PATCH 05/34] fix: only drop a null designator when it is alone for
 its main item

DesignatorUniq looked at the designators between two non-local items, so
that a global item in between, or a designator range, made it drop a null
designator that has its place in the list.  Items pending at end of stream
were lost.
---
 hrdc/stream/optimizer/designator_uniq.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hrdc/stream/optimizer/designator_uniq.py b/hrdc/stream/optimizer/designator_uniq.py
index 8d9ba00..729b66b 100644
--- a/hrdc/stream/optimizer/designator_uniq.py
+++ b/hrdc/stream/optimizer/designator_uniq.py
@@ -12,8 +12,11 @@ class DesignatorUniq(Optimizer):
         self.designatorToFilter = None
 
     def close(self):
+        for i in self.pending:
+            self.stream.append(i)
+        self.pending = []
         self.stream.close()
-        
+
     def append(self, item):
         from ..item import Item, LocalItem, DesignatorIndex, \
              DesignatorMinimum, DesignatorMaximum
@@ -26,7 +29,9 @@ class DesignatorUniq(Optimizer):
                     self.designatorToFilter = item
                 else:
                     self.designatorToFilter = False
-        else:
+            elif item.tag in (LocalItem.DesignatorMinimum, LocalItem.DesignatorMaximum):
+                self.designatorToFilter = False
+        elif item.kind == Item.Main:
             if self.designatorToFilter:
                 self.pending = [x for x in self.pending if x is not self.designatorToFilter]
             for i in self.pending:
-- 
2.43.0


From 7dd4c270280cc1a9816132e718eee9768ae3d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:28 +0000
Subject: [PATCH 06/34] fix: do not merge ranges across delimiters or usage
 pages

RangeMerge moved usages out of their delimited set, and merged the last
usage of a page with the first one of the next page.
---
 hrdc/stream/optimizer/range_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrdc/stream/optimizer/range_merge.py b/hrdc/stream/optimizer/range_merge.py
index 303ea57..9acf72c 100644
--- a/hrdc/stream/optimizer/range_merge.py
+++ b/hrdc/stream/optimizer/range_merge.py
@@ -45,14 +45,15 @@ class RangeMerge(Optimizer):
         from ..item import Item, LocalItem
 
         if self.merging and item.kind == Item.Local:
-            if item.tag in (self.min, self.max):
+            if item.tag in (self.min, self.max, LocalItem.Delimiter):
                 self.merging = False
                 
             elif item.tag == self.lookup:
                 if self.maxValue is None:
                     self.maxValue = item.value
                     self.minValue = item.value
-                elif int(item.value) == int(self.maxValue) + 1:
+                elif int(item.value) == int(self.maxValue) + 1 \
+                     and int(item.value) & 0xffff:
                     self.maxValue = item.value
                 else:
                     self.merging = False
-- 
2.43.0


From a2e3d3aeb5099ebdfd8e9974fda7ecb27a452c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:28 +0000
Subject: [PATCH 07/34] fix: follow Push and Pop in GlobalMerge

After a Pop, globals were compared to the values set before it, so that
needed items were dropped.
---
 hrdc/stream/optimizer/global_merge.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hrdc/stream/optimizer/global_merge.py b/hrdc/stream/optimizer/global_merge.py
index 11db9de..5ad0ae5 100644
--- a/hrdc/stream/optimizer/global_merge.py
+++ b/hrdc/stream/optimizer/global_merge.py
@@ -10,6 +10,7 @@ class GlobalMerge(Optimizer):
 
         self.stream = stream
         self.locals = {}
+        self.stack = []
         self.globals = {
             GlobalItem.Unit: Unit(0),
             GlobalItem.UnitExponent: UnitExponent(0),
@@ -32,6 +33,11 @@ class GlobalMerge(Optimizer):
                 self.stream.append(item)
             self.globals[item.tag] = item
 
+            if item.tag == GlobalItem.Push:
+                self.stack.append(dict(self.globals))
+            elif item.tag == GlobalItem.Pop and self.stack:
+                self.globals = self.stack.pop()
+
         elif item.kind == Item.Local:
             self.stream.append(item)
 
-- 
2.43.0


From 6663453f0e65ad92f707c40e5080e5d045f98664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:03 +0000
Subject: [PATCH 08/34] fix: keep track of physical bounds in PhysicalMerge

The pass never updated its idea of the bounds in effect: with an explicit
physical range in effect it still dropped the ranges that should have
replaced it, and it compared bounds set for the current main item only.
It now emits physical bounds before the data items they apply to, when
they differ from what is in effect, following Push and Pop.
---
 hrdc/stream/optimizer/physical_merge.py | 57 ++++++++++++++++---------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/hrdc/stream/optimizer/physical_merge.py b/hrdc/stream/optimizer/physical_merge.py
index 19b38e0..8855d38 100644
--- a/hrdc/stream/optimizer/physical_merge.py
+++ b/hrdc/stream/optimizer/physical_merge.py
@@ -9,43 +9,62 @@ class PhysicalMerge(Optimizer):
              PhysicalMaximum, PhysicalMinimum
 
         self.stream = stream
+        # Bounds declared so far
         self.current = {
             GlobalItem.LogicalMinimum: LogicalMinimum(0),
             GlobalItem.LogicalMaximum: LogicalMaximum(0),
             GlobalItem.PhysicalMinimum: PhysicalMinimum(0),
             GlobalItem.PhysicalMaximum: PhysicalMaximum(0),
             }
-        self.changed = dict(list(self.current.items()))
+        # Physical bounds in effect in output stream
+        self.emitted = {
+            GlobalItem.PhysicalMinimum: PhysicalMinimum(0),
+            GlobalItem.PhysicalMaximum: PhysicalMaximum(0),
+            }
+        self.stack = []
         self.pending = []
 
     def append(self, item):
-        from ..item import Item, GlobalItem, PhysicalMinimum, PhysicalMaximum
+        from ..item import Item, GlobalItem, MainItem
+
+        if item.kind == Item.Global:
+            if item.tag in self.current:
+                self.current[item.tag] = item
+            elif item.tag == GlobalItem.Push:
+                self.stack.append((dict(self.current), dict(self.emitted)))
+            elif item.tag == GlobalItem.Pop and self.stack:
+                self.current, self.emitted = self.stack.pop()
+
+            # Physical bounds are only emitted when used
+            if item.tag in self.emitted:
+                return
 
         if item.kind == Item.Main:
-            if int(self.current[GlobalItem.PhysicalMinimum].value) == 0 \
-                and int(self.current[GlobalItem.PhysicalMaximum].value) == 0 \
-                and int(self.changed[GlobalItem.PhysicalMinimum].value) \
-                == int(self.changed[GlobalItem.LogicalMinimum].value) \
-                and int(self.changed[GlobalItem.PhysicalMaximum].value) \
-                == int(self.changed[GlobalItem.LogicalMaximum].value):
-                self.pending = [x for x in self.pending
-                                if x.kind != Item.Global
-                                or x.tag not in (GlobalItem.PhysicalMinimum,
-                                                  GlobalItem.PhysicalMaximum)]
             for i in self.pending:
                 self.stream.append(i)
             self.pending = []
-            self.changed = dict(list(self.current.items()))
+
+            if item.tag in (MainItem.Input, MainItem.Output, MainItem.Feature):
+                self.physicalFlush()
+
             self.stream.append(item)
         else:
             self.pending.append(item)
 
-            if item.kind == Item.Global \
-                   and item.tag in (GlobalItem.LogicalMinimum,
-                                    GlobalItem.LogicalMaximum,
-                                    GlobalItem.PhysicalMinimum,
-                                    GlobalItem.PhysicalMaximum):
-                self.changed[item.tag] = item
+    def physicalFlush(self):
+        from ..item import GlobalItem, PhysicalMinimum, PhysicalMaximum
+
+        lmin, lmax, pmin, pmax = [int(self.current[tag].value) for tag in (
+            GlobalItem.LogicalMinimum, GlobalItem.LogicalMaximum,
+            GlobalItem.PhysicalMinimum, GlobalItem.PhysicalMaximum)]
+
+        if (pmin, pmax) == (lmin, lmax):
+            pmin, pmax = 0, 0
+
+        for i in PhysicalMinimum(pmin), PhysicalMaximum(pmax):
+            if self.emitted[i.tag] != i:
+                self.emitted[i.tag] = i
+                self.stream.append(i)
 
     def close(self):
         for i in self.pending:
-- 
2.43.0


From 97c6492f7ff0f1e95bafaeb58b58c13596c690ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:50 +0000
Subject: [PATCH 09/34] fix: only merge data items whose merging keeps their
 meaning

MainMerge merged arrays (merging their usage lists into one), buffered
bytes, items with several usages, ranges or delimiters, and items where
only some have a usage, string or designator (shifting these to other
controls).  It also ignored usage page changes and Push/Pop, and did not
merge consistently at end of stream.
---
 hrdc/stream/optimizer/main_merge.py | 45 ++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index 602920c..5e18b21 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -5,6 +5,7 @@ class MainMerge(Optimizer):
 
     from ..item import Item, GlobalItem, LocalItem, MainItem
     to_watch = (
+        GlobalItem.UsagePage,
         GlobalItem.LogicalMinimum,
         GlobalItem.LogicalMaximum,
         GlobalItem.PhysicalMinimum,
@@ -20,8 +21,11 @@ class MainMerge(Optimizer):
         self.beforeMain = []
         self.mainItems = []
         self.afterMain = []
+        self.beforeLocals = []
+        self.afterLocals = []
         self.beforeCount = 0
         self.afterCount = 0
+        self.stack = []
         
         self.props = {}
         
@@ -33,6 +37,7 @@ class MainMerge(Optimizer):
 
         if item.kind == Item.Local:
             self.afterMain.append(item)
+            self.afterLocals.append(int(item.tag))
 
         elif item.kind == Item.Global:
             self.afterMain.append(item)
@@ -45,25 +50,55 @@ class MainMerge(Optimizer):
             if item.tag == GlobalItem.ReportCount:
                 self.afterCount = item.value
 
+            elif item.tag == GlobalItem.Push:
+                self.stack.append((dict(self.props), self.afterCount))
+                self.flush()
+
+            elif item.tag == GlobalItem.Pop and self.stack:
+                self.props, self.afterCount = self.stack.pop()
+                self.flush()
+
         else:
             if item.tag not in (MainItem.Input, MainItem.Output, MainItem.Feature):
                 self.afterMain.append(item)
+                self.afterLocals = []
                 self.flush()
                 return
 
-            if self.mainItems and item != self.mainItems[0]:
+            if self.mainItems and not self.mergeable(item):
                 self.flush()
 
             flush_after = self.afterCount != 1
 
             self.beforeMain += self.afterMain
+            self.beforeLocals = sorted(self.afterLocals)
             self.beforeCount += self.afterCount
             self.afterMain = []
+            self.afterLocals = []
             self.mainItems.append(item)
 
             if flush_after:
                 self.flush()
 
+    def mergeable(self, item):
+        """
+        Whether a data item can be merged with the pending ones: they are
+        variables (or constants), one control each but the last, and all
+        have the same local items, one of each.
+        """
+        from ..item import DataItem, LocalItem
+
+        simple = set((int(LocalItem.Usage), int(LocalItem.StringIndex),
+                      int(LocalItem.DesignatorIndex)))
+
+        return item == self.mainItems[0] \
+            and item.value & (DataItem.Variable | DataItem.Constant) \
+            and not item.value & DataItem.BufferedBytes \
+            and self.afterCount >= 1 \
+            and sorted(self.afterLocals) == self.beforeLocals \
+            and len(set(self.afterLocals)) == len(self.afterLocals) \
+            and set(self.afterLocals) <= simple
+
     def flush(self, until = 0):
         from ..item import ReportCount, Item, MainItem, GlobalItem
 
@@ -81,10 +116,6 @@ class MainMerge(Optimizer):
         self.beforeCount = 0
 
     def close(self):
-        for i in self.beforeMain:
-            self.stream.append(i)
-        for i in self.mainItems:
-            self.stream.append(i)
-        for i in self.afterMain:
-            self.stream.append(i)
+        self.flush()
+        self.flush()
         self.stream.close()
-- 
2.43.0


From e6eba07545d7a3bc54ad4dbf649b10c2a0c2510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:15 +0000
Subject: [PATCH 10/34] fix: resolve usages of parsed streams in the UsagePage
 pass

The pass took 16-bit usages of parsed streams for usages of page 0 and
emitted UsagePage (0) in front of them.  It also changed the page between
usages of the same main item, where hosts that apply the page in effect at
the main item see wrong usages; these now keep their 32-bit form.
---
 hrdc/stream/optimizer/usage_page.py | 73 ++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 12 deletions(-)

diff --git a/hrdc/stream/optimizer/usage_page.py b/hrdc/stream/optimizer/usage_page.py
index 5bceda4..e13c6b4 100644
--- a/hrdc/stream/optimizer/usage_page.py
+++ b/hrdc/stream/optimizer/usage_page.py
@@ -5,27 +5,76 @@ class UsagePage(Optimizer):
 
     def __init__(self, stream):
         self.stream = stream
-        self.page = None
+        # Page in effect in input stream, in output stream
+        self.page = 0
+        self.emitted = 0
+        self.pageStack = []
+        self.emittedStack = []
+        self.pending = []
 
     def append(self, item):
-        from ..item import Item, GlobalItem, LocalItem, UsagePage, Usage
-        from ...util import NamedConstant
+        from ..item import Item, GlobalItem, LocalItem
         from ...usage import Usage
 
-        if item.kind == Item.Local and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum):
+        if item.kind == Item.Global:
+            if item.tag == GlobalItem.UsagePage:
+                self.page = int(item.value)
+                return
+            elif item.tag == GlobalItem.Push:
+                self.pageStack.append(self.page)
+            elif item.tag == GlobalItem.Pop and self.pageStack:
+                self.page = self.pageStack.pop()
 
-            sp, su = Usage.lookup(item.value).split()
+        elif item.kind == Item.Local \
+             and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum) \
+             and not int(item.value) >> 16:
+            item = Item.itemclass(item.kind, item.tag)(
+                Usage.lookup((self.page << 16) | int(item.value)))
 
-            if self.page is None or self.page != int(sp):
-                self.page = int(sp)
-                self.stream.append(UsagePage(sp))
+        self.pending.append(item)
 
-            item = Item.itemclass(item.kind, item.tag)(su)
+        if item.kind == Item.Main:
+            self.flush()
 
-        self.stream.append(item)
+    def flush(self):
+        from ..item import Item, GlobalItem, LocalItem
 
-        if item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
-            self.page = int(item.value)
+        def isUsage(i):
+            return i.kind == Item.Local \
+                and i.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum)
+
+        # Hosts may use the page in effect either at the usage or at the main
+        # item, so usages of a main item can only be split if they all are in
+        # the same page.
+        pages = set(int(i.value) >> 16 for i in self.pending if isUsage(i))
+        split = len(pages) == 1
+
+        for item in self.pending:
+            if split and isUsage(item):
+                sp, su = item.value.split()
+                self.setPage(sp)
+                item = Item.itemclass(item.kind, item.tag)(su)
+
+            elif split and item.kind == Item.Main:
+                self.setPage(sp)
+
+            elif item.kind == Item.Global and item.tag == GlobalItem.Push:
+                self.emittedStack.append(self.emitted)
+
+            elif item.kind == Item.Global and item.tag == GlobalItem.Pop and self.emittedStack:
+                self.emitted = self.emittedStack.pop()
+
+            self.stream.append(item)
+
+        self.pending = []
+
+    def setPage(self, page):
+        from ..item import UsagePage
+
+        if self.emitted != int(page):
+            self.emitted = int(page)
+            self.stream.append(UsagePage(page))
 
     def close(self):
+        self.flush()
         self.stream.close()
-- 
2.43.0


From b84c4e1376af00edd11cdb82c1717809dace98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:54 +0000
Subject: [PATCH 11/34] fix: use the binary layer of text files for the binary
 format

The binary parser and formatter only did so for standard streams, so that
any file given on the command line of the tools failed.
---
 hrdc/stream/formatter/binary.py | 4 ++--
 hrdc/stream/parser/binary.py    | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/hrdc/stream/formatter/binary.py b/hrdc/stream/formatter/binary.py
index 62f1399..27f5cb7 100644
--- a/hrdc/stream/formatter/binary.py
+++ b/hrdc/stream/formatter/binary.py
@@ -2,8 +2,8 @@ from .base import Formatter
 
 class Binary(Formatter):
     def __init__(self, output):
-        import sys
-        if output == sys.stdout and hasattr(output, "buffer"):
+        # Text files (stdout, command line arguments) wrap a binary one
+        if hasattr(output, "buffer"):
             self.output = output.buffer
         else:
             self.output = output
diff --git a/hrdc/stream/parser/binary.py b/hrdc/stream/parser/binary.py
index ccfa24e..deee3cf 100644
--- a/hrdc/stream/parser/binary.py
+++ b/hrdc/stream/parser/binary.py
@@ -2,9 +2,8 @@ from .base import Parser
 
 class Binary(Parser):
     def __init__(self, input, output):
-        import sys
-
-        if input == sys.stdin and hasattr(input, "buffer"):
+        # Text files (stdin, command line arguments) wrap a binary one
+        if hasattr(input, "buffer"):
             input = input.buffer
 
         Parser.__init__(self, input, output)
-- 
2.43.0


From 854a9d34a30cbc030c0715c1c0e82c87242b1e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:56 +0000
Subject: [PATCH 12/34] fix: recognise // and /* */ comments in order of
 appearance

Line comments were stripped first, so a block comment holding // (a URL,
for instance) was never closed.
---
 hrdc/stream/comparer.py    | 5 +----
 hrdc/stream/parser/code.py | 6 ++----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/hrdc/stream/comparer.py b/hrdc/stream/comparer.py
index f7a66f9..cd75d01 100644
--- a/hrdc/stream/comparer.py
+++ b/hrdc/stream/comparer.py
@@ -7,10 +7,7 @@ class ExpectedStream(stream.Stream):
     def __init__(self, test_case, expected_code):
         self.test_case = test_case
 
-        contents = ""
-        for line in expected_code.split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", " ", expected_code, flags = re.DOTALL)
         contents = re.sub(r"\s+", "", contents)
         self.expected = bytes(int(x, 16) for x in contents.split(",") if x)
         self.point = 0
diff --git a/hrdc/stream/parser/code.py b/hrdc/stream/parser/code.py
index 20105bf..6711a30 100644
--- a/hrdc/stream/parser/code.py
+++ b/hrdc/stream/parser/code.py
@@ -3,10 +3,8 @@ import re
 
 class Code(Parser):
     def read(self, *args):
-        contents = ""
-        for line in self.input.read(*args).split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = self.input.read(*args)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", " ", contents, flags = re.DOTALL)
         contents = re.sub(r"\s+", "", contents)
         blob = bytes(int(x, 16) for x in contents.split(",") if x)
         self.blobParse(blob)
-- 
2.43.0


From cdf351a269d02c9c2c3e087c2ae34a1a92947ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:40 +0000
Subject: [PATCH 13/34] fix: refuse negative collection kinds

They were taken as indexes from the end of the list of known kinds.
---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index 5a5ad36..d47eea9 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -218,7 +218,7 @@ class Collection(MainItem):
     _rev = [Physical, Application, Logical, Report, NamedArray, UsageSwitch, UsageModifier]
 
     def __init__(self, value):
-        if not isinstance(value, NamedConstant) and int(value) < len(self._rev):
+        if not isinstance(value, NamedConstant) and 0 <= int(value) < len(self._rev):
             value = self._rev[int(value)]
         MainItem.__init__(self, value)
 
-- 
2.43.0


From 4ffd20c11841019b11925eaf9c64b8a7ab0f66fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 14/34] fix: follow Push and Pop when decompiling

---
 hrdc/descriptor/extractor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 792b45f..bf7ebf0 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -10,6 +10,7 @@ class Extractor(Stream):
         for kind, tag in item.Item.registry.keys():
             if kind == item.Item.Global:
                 self.globals[int(tag)] = 0
+        self.globalsStack = []
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
@@ -66,7 +67,12 @@ class Extractor(Stream):
 
     def _append(self, i):
         if i.kind == item.Item.Global:
-            self.globals[int(i.tag)] = i.value
+            if i.tag == item.GlobalItem.Push:
+                self.globalsStack.append(dict(self.globals))
+            elif i.tag == item.GlobalItem.Pop:
+                self.globals = self.globalsStack.pop()
+            else:
+                self.globals[int(i.tag)] = i.value
 
         elif i.kind == item.Item.Local:
             if i.tag == item.LocalItem.Usage:
-- 
2.43.0


From 2d673f43eba5d3537ec9d835fe822ff0f7df67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 15/34] fix: keep mixed usages and ranges in order when
 decompiling

---
 hrdc/descriptor/extractor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index bf7ebf0..a447691 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -87,17 +87,19 @@ class Extractor(Stream):
             else:
                 self.locals[int(i.tag)] = i.value
 
-        elif i.kind == item.Item.Main:
-            # Expand ranges
+            # Expand ranges once they are complete
             for min, max, target in [
                 (item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum, self.usages),
                 (item.LocalItem.DesignatorMinimum, item.LocalItem.DesignatorMaximum, self.designators),
                 (item.LocalItem.StringMinimum, item.LocalItem.StringMaximum, self.strings),
                 ]:
-                if self.locals[int(min)] is not None and self.locals[int(max)] is not None and not target:
-                    for val in range(int(self.locals[int(min)]), int(self.locals[int(max)] + 1)):
+                if self.locals[int(min)] is not None and self.locals[int(max)] is not None:
+                    for val in range(int(self.locals[int(min)]), int(self.locals[int(max)]) + 1):
                         target.append(val)
+                    self.locals[int(min)] = None
+                    self.locals[int(max)] = None
 
+        elif i.kind == item.Item.Main:
             if i.tag == item.MainItem.Collection:
                 self.enter(i.value, self.usage())
 
-- 
2.43.0


From b4c74eeb23e94878fa19c48d039ccd22ff2c0ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:31 +0000
Subject: [PATCH 16/34] fix: keep empty collections when decompiling

---
 hrdc/descriptor/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index a447691..a7d819b 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -126,7 +126,7 @@ class Extractor(Stream):
 
     def leave(self, level = None):
         self.currentLevel = self.stack.pop()
-        if level:
+        if level is not None:
             self.reportIdMerge(level)
             self.currentLevel.append(level)
 
-- 
2.43.0


From ee84de07e4d9a8bc751dba0d00f7fdc7bb21c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:31 +0000
Subject: [PATCH 17/34] fix: keep unaligned fields in place when decompiling

---
 hrdc/descriptor/extractor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index a7d819b..70ecc70 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -12,6 +12,7 @@ class Extractor(Stream):
                 self.globals[int(tag)] = 0
         self.globalsStack = []
         self.localsClear()
+        self.offsets = {}
         self.stack = []
         self.currentLevel = TopLevel()
         self.inNamedArrayCollection = False
@@ -137,6 +138,14 @@ class Extractor(Stream):
 
     def addValue(self, v):
         v.__report_ids = set([int(self.globalValue(item.GlobalItem.ReportID))])
+
+        # Fields lie one after the other, whatever their natural alignment
+        key = int(v.way), int(self.globalValue(item.GlobalItem.ReportID))
+        offset = self.offsets.get(key, 0)
+        if v.alignment > 1 and offset % v.alignment:
+            v.alignment = 1
+        self.offsets[key] = offset + v.size * v.count
+
         self.currentLevel.append(v)
 
     def ended(self, root):
-- 
2.43.0


From fd554f41cb0b3fda1ff345ec36740047302dc523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:13 +0000
Subject: [PATCH 18/34] fix: keep flags, unit and collection of arrays when
 decompiling

---
 hrdc/descriptor/extractor.py | 72 ++++++++++++++----------------------
 1 file changed, 27 insertions(+), 45 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 70ecc70..008c0a4 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -15,7 +15,6 @@ class Extractor(Stream):
         self.offsets = {}
         self.stack = []
         self.currentLevel = TopLevel()
-        self.inNamedArrayCollection = False
 
     def localsClear(self):
         self.usages = []
@@ -105,8 +104,11 @@ class Extractor(Stream):
                 self.enter(i.value, self.usage())
 
             elif i.tag == item.MainItem.EndCollection:
-                if self.inNamedArrayCollection:
-                    self.inNamedArrayCollection = False
+                if self.isNamedArray(self.currentLevel):
+                    # A named array and the collection that holds it
+                    value = self.currentLevel[0]
+                    value.usage = self.currentLevel.usage
+                    self.leave(value)
                 else:
                     self.leave(self.currentLevel)
 
@@ -125,11 +127,20 @@ class Extractor(Stream):
         self.stack.append(self.currentLevel)
         self.currentLevel = Collection(kind, usage)
 
-    def leave(self, level = None):
+    def leave(self, level):
         self.currentLevel = self.stack.pop()
-        if level is not None:
+        if isinstance(level, Hierarchical):
             self.reportIdMerge(level)
-            self.currentLevel.append(level)
+        self.currentLevel.append(level)
+
+    def isNamedArray(self, level):
+        return level.kind == Collection.Logical \
+            and level.usage is not None \
+            and usage.NAry.test(level.usage) \
+            and len(level) == 1 \
+            and isinstance(level[0], Value) \
+            and level[0].namedArray is not None \
+            and level[0].usage is None
 
     def reportIdMerge(self, level):
         level.__report_ids = set()
@@ -187,21 +198,10 @@ class Extractor(Stream):
             self.addValue(Padding(i.tag, self.globalValue(item.GlobalItem.ReportSize)
                                           * self.globalValue(item.GlobalItem.ReportCount)))
 
-        elif (self.globalValue(item.GlobalItem.ReportCount) == 1
-              and len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
-                                       - self.globalValue(item.GlobalItem.LogicalMinimum) + 1)
-              and ((i.value == item.DataItem.Variable
-                    and self.currentLevel.kind == Collection.NamedArray)
-                   or (i.value == item.DataItem.Array
-                       and self.currentLevel.kind == Collection.Logical
-                       and usage.NAry.test(self.currentLevel.usage))
-                   or (self.currentLevel.kind == Collection.Logical
-                       and usage.NAry.test(self.currentLevel.usage)))):
-
-            self.inNamedArrayCollection = True
-            arrayCollection = self.currentLevel
-            self.leave()
-            assert len(arrayCollection) == 0
+        elif not i.value & (item.DataItem.Variable | item.DataItem.BufferedBytes) and \
+                 self.usages and \
+                 len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
+                                      - self.globalValue(item.GlobalItem.LogicalMinimum) + 1):
 
             uArray = list(map(self.usage, list(range(len(self.usages)))))
             try:
@@ -210,37 +210,19 @@ class Extractor(Stream):
                 pass
 
             self.addValue(
-                Value(i.tag, arrayCollection.usage,
-                      self.globalValue(item.GlobalItem.ReportSize),
+                Value(i.tag, usage = None,
+                      size = self.globalValue(item.GlobalItem.ReportSize),
+                      flags = i.value,
                       logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
                       namedArray = uArray,
                       designator = self.designator(),
                       string = self.string(),
+                      unit = self.globalValue(item.GlobalItem.Unit),
+                      unitExponent = self.globalValue(item.GlobalItem.UnitExponent),
+                      count = self.globalValue(item.GlobalItem.ReportCount),
                       )
                 )
 
-        # Named array without enclosing collection (like in Keyboard RD)
-        elif i.value == (item.DataItem.Data | item.DataItem.Array) and \
-                 len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
-                                      - self.globalValue(item.GlobalItem.LogicalMinimum) + 1):
-
-            uArray = list(map(self.usage, list(range(len(self.usages)))))
-            try:
-                uArray = usage.UsageRange.from_array(uArray)
-            except ValueError as e:
-                print(e)
-                pass
-            for no in range(self.globalValue(item.GlobalItem.ReportCount)):
-                self.addValue(
-                    Value(i.tag, usage = None,
-                          size = self.globalValue(item.GlobalItem.ReportSize),
-                          logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
-                          namedArray = uArray,
-                          designator = self.designator(),
-                          string = self.string(),
-                          )
-                    )
-
         elif i.value & item.DataItem.BufferedBytes:
 
             ue = self.globalValue(item.GlobalItem.UnitExponent)
-- 
2.43.0


From b4498f4bbaead4e77557edcecba64f85effaf7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:30 +0000
Subject: [PATCH 19/34] fix: name usages after the constants that define them

---
 hrdc/usage/desktop.py    | 6 +++---
 hrdc/usage/lighting.py   | 2 +-
 hrdc/usage/simulation.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 8798e7b..698e598 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -7,7 +7,7 @@ Gamepad = Usage("desktop.Gamepad", 0x10005, CA)
 Keyboard = Usage("desktop.Keyboard", 0x10006, CA)
 Keypad = Usage("desktop.Keypad", 0x10007, CA)
 MultiAxisCtrl = Usage("desktop.MultiAxisCtrl", 0x10008, CA)
-TabletPCSystem = Usage("desktop.TabletPcSystem", 0x10009, CA)
+TabletPCSystem = Usage("desktop.TabletPCSystem", 0x10009, CA)
 
 # HUTRR51
 PortableDeviceControl = Usage("desktop.PortableDeviceControl", 0x1000d, CA)
@@ -25,8 +25,8 @@ HatSwitch = Usage("desktop.HatSwitch", 0x10039, DV)
 CountedBuffer = Usage("desktop.CountedBuffer", 0x1003A, CL)
 ByteCount = Usage("desktop.ByteCount", 0x1003B, DV)
 MotionWakeup = Usage("desktop.MotionWakeup", 0x1003C, OSC)
-Start = Usage("desktop.start", 0x1003D, OOC)
-Select = Usage("desktop.select", 0x1003E, OOC)
+Start = Usage("desktop.Start", 0x1003D, OOC)
+Select = Usage("desktop.Select", 0x1003E, OOC)
 Vx = Usage("desktop.Vx", 0x10040, DV)
 Vy = Usage("desktop.Vy", 0x10041, DV)
 Vz = Usage("desktop.Vz", 0x10042, DV)
diff --git a/hrdc/usage/lighting.py b/hrdc/usage/lighting.py
index 0a0b05c..4229d8b 100644
--- a/hrdc/usage/lighting.py
+++ b/hrdc/usage/lighting.py
@@ -9,7 +9,7 @@ BoundingBoxWidthInMicrometers = Usage("lighting.BoundingBoxWidthInMicrometers",
 BoundingBoxHeightInMicrometers = Usage("lighting.BoundingBoxHeightInMicrometers", 0x590005, SV)
 BoundingBoxDepthInMicrometers = Usage("lighting.BoundingBoxDepthInMicrometers", 0x590006, SV)
 LampArrayKind = Usage("lighting.LampArrayKind", 0x590007, SV)
-MinUpdateIntervalInMicroseconds = Usage("lighting. MinUpdateIntervalInMicroseconds", 0x590008, SV)
+MinUpdateIntervalInMicroseconds = Usage("lighting.MinUpdateIntervalInMicroseconds", 0x590008, SV)
 LampAttributesRequestReport = Usage("lighting.LampAttributesRequestReport", 0x590020, CL)
 LampId = Usage("lighting.LampId", 0x590021, SV)
 LampAttributesResponseReport = Usage("lighting.LampAttributesResponseReport", 0x590022, CL)
diff --git a/hrdc/usage/simulation.py b/hrdc/usage/simulation.py
index 6595585..4146b65 100644
--- a/hrdc/usage/simulation.py
+++ b/hrdc/usage/simulation.py
@@ -20,7 +20,7 @@ FlightYoke = Usage("simulation.FlightYoke", 0x20024, CA)
 TrackControl = Usage("simulation.TrackControl", 0x20025, CP)
 Aileron = Usage("simulation.Aileron", 0x200B0, DV)
 AileronTrim = Usage("simulation.AileronTrim", 0x200B1, DV)
-AntiTorqueControl = Usage("simulation.TorqueControl", 0x200B2, DV)
+AntiTorqueControl = Usage("simulation.AntiTorqueControl", 0x200B2, DV)
 AutopilotEnable = Usage("simulation.AutopilotEnable", 0x200B3, OOC)
 ChaffRelease = Usage("simulation.ChaffRelease", 0x200B4, OSC)
 CollectiveControl = Usage("simulation.CollectiveControl", 0x200B5, DV)
-- 
2.43.0


From 41df7f1219d62cb788f7d1d7b69880d91b632a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:31 +0000
Subject: [PATCH 20/34] fix: usage of the display rotation lock button

---
 hrdc/usage/desktop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 698e598..3827d46 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -81,7 +81,7 @@ WirelessRadioLed = Usage("desktop.WirelessRadioLed", 0x100c7, OOC)
 WirelessRadioSliderSwitch = Usage("desktop.WirelessRadioSliderSwitch", 0x100c8, OOC)
 
 # HUTRR52
-SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x1000C9, OOC)
+SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x100C9, OOC)
 SystemDisplayRotationLockSliderSwitch = Usage("desktop.SystemDisplayRotationLockSliderSwitch", 0x100CA, OOC)
 
 # HUTRR50
-- 
2.43.0


From 287ca5b3613085caecdb07219facb7edaa80fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:31 +0000
Subject: [PATCH 21/34] fix: sensor events are selectors, not named arrays

---
 hrdc/usage/sensors.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/hrdc/usage/sensors.py b/hrdc/usage/sensors.py
index 95c4ed4..7b6ed3e 100644
--- a/hrdc/usage/sensors.py
+++ b/hrdc/usage/sensors.py
@@ -89,23 +89,23 @@ SensorStateInitializing = Usage("sensors.SensorStateInitializing", 0x200804, Sel
 SensorStateAccessDenied = Usage("sensors.SensorStateAccessDenied", 0x200805, Sel)
 SensorStateError = Usage("sensors.SensorStateError", 0x200806, Sel)
 EventSensorEvent = Usage("sensors.EventSensorEvent", 0x200202, NAry)
-SensorEventUnknown = Usage("sensors.SensorEventUnknown", 0x200810, NAry)
-SensorEventStateChanged = Usage("sensors.SensorEventStateChanged", 0x200811, NAry)
-SensorEventPropertyChanged = Usage("sensors.SensorEventPropertyChanged", 0x200812, NAry)
-SensorEventDataUpdated = Usage("sensors.SensorEventDataUpdated", 0x200813, NAry)
-SensorEventPollResponse = Usage("sensors.SensorEventPollResponse", 0x200814, NAry)
-SensorEventChangeSensitivity = Usage("sensors.SensorEventChangeSensitivity", 0x200815, NAry)
-SensorEventRangeMaximumReached = Usage("sensors.SensorEventRangeMaximumReached", 0x200816, NAry)
-SensorEventRangeMinimumReached = Usage("sensors.SensorEventRangeMinimumReached", 0x200817, NAry)
-SensorEventHighThresholdCrossUpward = Usage("sensors.SensorEventHighThresholdCrossUpward", 0x200818, NAry)
-SensorEventHighThresholdCrossDownward = Usage("sensors.SensorEventHighThresholdCrossDownward", 0x200819, NAry)
-SensorEventLowThresholdCrossUpward = Usage("sensors.SensorEventLowThresholdCrossUpward", 0x20081A, NAry)
-SensorEventLowThresholdCrossDownward = Usage("sensors.SensorEventLowThresholdCrossDownward", 0x20081B, NAry)
-SensorEventZeroThresholdCrossUpward = Usage("sensors.SensorEventZeroThresholdCrossUpward", 0x20081C, NAry)
-SensorEventZeroThresholdCrossDownward = Usage("sensors.SensorEventZeroThresholdCrossDownward", 0x20081D, NAry)
-SensorEventPeriodExceeded = Usage("sensors.SensorEventPeriodExceeded", 0x20081E, NAry)
-SensorEventFrequencyExceeded = Usage("sensors.SensorEventFrequencyExceeded", 0x20081F, NAry)
-SensorEventComplexTrigger = Usage("sensors.SensorEventComplexTrigger", 0x200820, NAry)
+SensorEventUnknown = Usage("sensors.SensorEventUnknown", 0x200810, Sel)
+SensorEventStateChanged = Usage("sensors.SensorEventStateChanged", 0x200811, Sel)
+SensorEventPropertyChanged = Usage("sensors.SensorEventPropertyChanged", 0x200812, Sel)
+SensorEventDataUpdated = Usage("sensors.SensorEventDataUpdated", 0x200813, Sel)
+SensorEventPollResponse = Usage("sensors.SensorEventPollResponse", 0x200814, Sel)
+SensorEventChangeSensitivity = Usage("sensors.SensorEventChangeSensitivity", 0x200815, Sel)
+SensorEventRangeMaximumReached = Usage("sensors.SensorEventRangeMaximumReached", 0x200816, Sel)
+SensorEventRangeMinimumReached = Usage("sensors.SensorEventRangeMinimumReached", 0x200817, Sel)
+SensorEventHighThresholdCrossUpward = Usage("sensors.SensorEventHighThresholdCrossUpward", 0x200818, Sel)
+SensorEventHighThresholdCrossDownward = Usage("sensors.SensorEventHighThresholdCrossDownward", 0x200819, Sel)
+SensorEventLowThresholdCrossUpward = Usage("sensors.SensorEventLowThresholdCrossUpward", 0x20081A, Sel)
+SensorEventLowThresholdCrossDownward = Usage("sensors.SensorEventLowThresholdCrossDownward", 0x20081B, Sel)
+SensorEventZeroThresholdCrossUpward = Usage("sensors.SensorEventZeroThresholdCrossUpward", 0x20081C, Sel)
+SensorEventZeroThresholdCrossDownward = Usage("sensors.SensorEventZeroThresholdCrossDownward", 0x20081D, Sel)
+SensorEventPeriodExceeded = Usage("sensors.SensorEventPeriodExceeded", 0x20081E, Sel)
+SensorEventFrequencyExceeded = Usage("sensors.SensorEventFrequencyExceeded", 0x20081F, Sel)
+SensorEventComplexTrigger = Usage("sensors.SensorEventComplexTrigger", 0x200820, Sel)
 
 Property = Usage("sensors.Property", 0x200300)
 PropertyFriendlyName = Usage("sensors.PropertyFriendlyName", 0x200301, SV)
-- 
2.43.0


From 796d824ba05a637fb4e979d06a6066192840ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:31 +0000
Subject: [PATCH 22/34] fix: name any button or ordinal, whichever were used
 before

---
 hrdc/usage/button.py  | 2 ++
 hrdc/usage/ordinal.py | 2 ++
 hrdc/usage/usage.py   | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/hrdc/usage/button.py b/hrdc/usage/button.py
index 554e752..d0bcfc9 100644
--- a/hrdc/usage/button.py
+++ b/hrdc/usage/button.py
@@ -4,5 +4,7 @@ def Button(n):
     return Usage("button.Button(%d)" % int(n), 0x90000 + int(n),
                  Sel, OOC, MC, OSC)
 
+Usage.numbered[0x9] = Button
+
 for i in range(128):
     Button(i)
diff --git a/hrdc/usage/ordinal.py b/hrdc/usage/ordinal.py
index 766fa64..c385cac 100644
--- a/hrdc/usage/ordinal.py
+++ b/hrdc/usage/ordinal.py
@@ -3,5 +3,7 @@ from .usage import *
 def Ordinal(n):
     return Usage("ordinal.Ordinal(%d)" % int(n), 0xa0000 + int(n), CL)
 
+Usage.numbered[0xa] = Ordinal
+
 for i in range(128):
     Ordinal(i)
diff --git a/hrdc/usage/usage.py b/hrdc/usage/usage.py
index 2211ad2..6386e04 100644
--- a/hrdc/usage/usage.py
+++ b/hrdc/usage/usage.py
@@ -2,6 +2,8 @@ from .. import util as _util
 
 class Usage(_util.NamedConstant):
     reverse = dict()
+    # Functions that make the usages of a numbered page
+    numbered = dict()
 
     def __init__(self, name, value, *kinds, **opts):
         register = opts.get('register', True)
@@ -53,6 +55,8 @@ class Usage(_util.NamedConstant):
                 return cls.reverse[int(value)]
             except:
                 pass
+            if int(value) >> 16 in cls.numbered:
+                return cls.numbered[int(value) >> 16](int(value) & 0xffff)
         return cls(hex(int(value)), int(value), register = False)
 
     def split(self):
-- 
2.43.0


From c8c1710f55b938d676f1b2cda3f1a3f3b60ca568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:12 +0000
Subject: [PATCH 23/34] fix: write collection kinds and directions without a
 name in scripts

---
 hrdc/descriptor/dumper.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 9e663b5..a600775 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -7,6 +7,13 @@ import re
 
 __all__ = ["Dumper"]
 
+def way_name(way):
+    return "Value.%s" % item.Item.itemclass(item.Item.Main, way).tag
+
+def kind_name(kind):
+    kind = item.Collection(int(kind)).value
+    return "Collection.%s" % kind if isinstance(kind, NamedConstant) else hex(kind)
+
 class Dumper(descriptor.Visitor):
     def __init__(self, output = sys.stdout):
         self.report_id = 0
@@ -35,7 +42,7 @@ descriptor = """)
 
             self.__indent += 1
         elif isinstance(e, descriptor.Collection):
-            self.write(self.indent() + "Collection(Collection.%s, %s,\n" % (e.kind, Usage.lookup(e.usage) if e.usage is not None else None))
+            self.write(self.indent() + "Collection(%s, %s,\n" % (kind_name(e.kind), Usage.lookup(e.usage) if e.usage is not None else None))
             
             self.__indent += 1
 
@@ -52,14 +59,14 @@ if __name__ == "__main__":
 
     def element(self, e):
         if isinstance(e, descriptor.Align):
-            self.write(self.indent() + "Align(Value.%s, %d)," % (e.way, e.boundary)+"\n")
+            self.write(self.indent() + "Align(%s, %d)," % (way_name(e.way), e.boundary)+"\n")
 
         elif isinstance(e, descriptor.Padding):
-            self.write(self.indent() + "Padding(Value.%s, %d)," % (e.way, e.size)+"\n")
+            self.write(self.indent() + "Padding(%s, %d)," % (way_name(e.way), e.size)+"\n")
 
         elif isinstance(e, descriptor.Value):
             us = Usage.lookup(e.usage) if e.usage else None
-            self.write(self.indent() + "Value(Value.%s, %s, %d" % (e.way, us, e.size))
+            self.write(self.indent() + "Value(%s, %s, %d" % (way_name(e.way), us, e.size))
             default_flags = item.DataItem.Data | item.DataItem.Variable | item.DataItem.Absolute
             if e.namedArray:
                 default_flags = default_flags & ~item.DataItem.Variable
-- 
2.43.0


From dfc16762c444db115672827e35c5f7e1264c98c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:12 +0000
Subject: [PATCH 24/34] fix: keep reserved flags in scripts

---
 hrdc/descriptor/dumper.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index a600775..8e27776 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -14,6 +14,15 @@ def kind_name(kind):
     kind = item.Collection(int(kind)).value
     return "Collection.%s" % kind if isinstance(kind, NamedConstant) else hex(kind)
 
+def flags_name(flags):
+    flags = int(flags)
+    named = [f for f in item.DataItem._rev if flags & int(f)]
+    unnamed = flags & ~sum(map(int, named))
+    names = ["Value.%s" % f for f in named]
+    if unnamed:
+        names.append(hex(unnamed))
+    return " | ".join(names) or "Value.Array"
+
 class Dumper(descriptor.Visitor):
     def __init__(self, output = sys.stdout):
         self.report_id = 0
@@ -71,9 +80,7 @@ if __name__ == "__main__":
             if e.namedArray:
                 default_flags = default_flags & ~item.DataItem.Variable
             if int(e.flags) != int(default_flags):
-                flags = str(e.flags)
-                flags = re.sub(r"([A-Za-z]+)", r"Value.\1", flags)
-                self.write(", flags = %s" % flags)
+                self.write(", flags = %s" % flags_name(e.flags))
 #            self.write(", reportId = %s" % list(e._Extractor__report_ids)[0])
             if e.logicalMin != 1:
                 self.write(", logicalMin = %s" % e.logicalMin)
-- 
2.43.0


From 19623188fc9f08135146928404a55caf812775c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:12 +0000
Subject: [PATCH 25/34] fix: write usages in scripts by the names they import

---
 hrdc/descriptor/dumper.py | 16 ++++++++++++----
 hrdc/usage/__init__.py    |  3 +++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 8e27776..82ec505 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -1,5 +1,6 @@
 from . import descriptor
 from ..stream import item
+from .. import usage
 from ..usage import Usage, UsageRange
 from ..util import NamedConstant
 import sys
@@ -23,6 +24,13 @@ def flags_name(flags):
         names.append(hex(unnamed))
     return " | ".join(names) or "Value.Array"
 
+def usage_name(u):
+    name = str(Usage.lookup(int(u)))
+    # Names that the script does not import are of no use
+    if name.split(".", 1)[0] in usage.__all__:
+        return name
+    return hex(int(u))
+
 class Dumper(descriptor.Visitor):
     def __init__(self, output = sys.stdout):
         self.report_id = 0
@@ -51,7 +59,7 @@ descriptor = """)
 
             self.__indent += 1
         elif isinstance(e, descriptor.Collection):
-            self.write(self.indent() + "Collection(%s, %s,\n" % (kind_name(e.kind), Usage.lookup(e.usage) if e.usage is not None else None))
+            self.write(self.indent() + "Collection(%s, %s,\n" % (kind_name(e.kind), usage_name(e.usage) if e.usage is not None else None))
             
             self.__indent += 1
 
@@ -74,7 +82,7 @@ if __name__ == "__main__":
             self.write(self.indent() + "Padding(%s, %d)," % (way_name(e.way), e.size)+"\n")
 
         elif isinstance(e, descriptor.Value):
-            us = Usage.lookup(e.usage) if e.usage else None
+            us = usage_name(e.usage) if e.usage else None
             self.write(self.indent() + "Value(%s, %s, %d" % (way_name(e.way), us, e.size))
             default_flags = item.DataItem.Data | item.DataItem.Variable | item.DataItem.Absolute
             if e.namedArray:
@@ -85,11 +93,11 @@ if __name__ == "__main__":
             if e.logicalMin != 1:
                 self.write(", logicalMin = %s" % e.logicalMin)
             if isinstance(e.namedArray, UsageRange):
-                self.write(", namedArray = %s" % e.namedArray)
+                self.write(", namedArray = UsageRange(%s, %s)" % (usage_name(e.namedArray.min), usage_name(e.namedArray.max)))
             elif e.namedArray != None:
                 self.write(", namedArray = [\n")
                 for u in e.namedArray:
-                    self.write(self.indent(1) + str(u) + ",\n")
+                    self.write(self.indent(1) + usage_name(u) + ",\n")
                 self.write(self.indent(1) + "]")
             else:
                 if e.logicalMax != None:
diff --git a/hrdc/usage/__init__.py b/hrdc/usage/__init__.py
index 07e0aa6..6f8e5ba 100644
--- a/hrdc/usage/__init__.py
+++ b/hrdc/usage/__init__.py
@@ -18,3 +18,6 @@ from . import lighting
 # Arcade page looks vendor-specific (0xff00), dont include it by default
 # import arcade
 from . import sensors
+
+# Pages imported later on stay out of "import *"
+__all__ = [name for name in dir() if not name.startswith("_")]
-- 
2.43.0


From 633674b3616b0a1a03149778588520f9ff081d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:12 +0000
Subject: [PATCH 26/34] fix: name of the CmPerSec unit

---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index d47eea9..fc2da2b 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -295,7 +295,7 @@ class Unit(GlobalItem):
     Fahrenheit = NamedConstant("Fahrenheit", EnglishLinear | temperature(1))
     Ampere = NamedConstant("Ampere", current(1))
     Candela = NamedConstant("Candela", luminousintensity(1))
-    CmPerSec = NamedConstant("Velocity", SILinear | time(-1) | length(1))
+    CmPerSec = NamedConstant("CmPerSec", SILinear | time(-1) | length(1))
     Momentum = NamedConstant("Momentum", SILinear | time(-1) | length(1) | mass(1))
     G = NamedConstant("G", SILinear | time(-2) | length(1))
     Newton = NamedConstant("Newton", SILinear | time(-2) | length(1) | mass(1))
-- 
2.43.0


From 5e8bf1a344e2be346952df27ffe3c09e41589a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:14 +0000
Subject: [PATCH 27/34] fix: treat an empty named array as none in scripts

---
 hrdc/descriptor/dumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 82ec505..8dbf853 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -92,9 +92,9 @@ if __name__ == "__main__":
 #            self.write(", reportId = %s" % list(e._Extractor__report_ids)[0])
             if e.logicalMin != 1:
                 self.write(", logicalMin = %s" % e.logicalMin)
-            if isinstance(e.namedArray, UsageRange):
+            if e.namedArray and isinstance(e.namedArray, UsageRange):
                 self.write(", namedArray = UsageRange(%s, %s)" % (usage_name(e.namedArray.min), usage_name(e.namedArray.max)))
-            elif e.namedArray != None:
+            elif e.namedArray:
                 self.write(", namedArray = [\n")
                 for u in e.namedArray:
                     self.write(self.indent(1) + usage_name(u) + ",\n")
-- 
2.43.0


From 30a58bed0bc02d9b8512f30981eac4e80c7dbda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:41 +0000
Subject: [PATCH 28/34] fix: index usage ranges as lists

---
 hrdc/usage/usage.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hrdc/usage/usage.py b/hrdc/usage/usage.py
index 6386e04..8e9f8de 100644
--- a/hrdc/usage/usage.py
+++ b/hrdc/usage/usage.py
@@ -78,15 +78,20 @@ class UsageRange:
     def __str__(self):
         return "UsageRange(%s, %s)" % (self.min, self.max)
 
+    def __values(self):
+        return range(int(self.min), int(self.max) + 1)
+
     def __len__(self):
-        return int(self.max) - int(self.min) + 1
+        return len(self.__values())
 
     def __getitem__(self, no):
-        return Usage.lookup(int(self.min) + no)
+        v = self.__values()[no]
+        if isinstance(v, range):
+            return list(map(Usage.lookup, v))
+        return Usage.lookup(v)
 
     def __iter__(self):
-        for i in range(int(self.min), int(self.max) + 1):
-            yield Usage.lookup(i)
+        return map(Usage.lookup, self.__values())
 
     @classmethod
     def from_array(cls, arr):
-- 
2.43.0


From 348424c4188a88c52b35deb3324bda6ec6d2d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:50 +0000
Subject: [PATCH 29/34] fix: follow Push and Pop when naming usages

---
 hrdc/stream/parser/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hrdc/stream/parser/base.py b/hrdc/stream/parser/base.py
index 7411b9d..2eddeb7 100644
--- a/hrdc/stream/parser/base.py
+++ b/hrdc/stream/parser/base.py
@@ -21,6 +21,7 @@ class Parser(Stream, metaclass = _ParserMeta):
         self.input = input
         self.output = output
         self.usagePage = 0
+        self.usagePageStack = []
 
     def blobParse(self, blob):
         while blob:
@@ -40,6 +41,12 @@ class Parser(Stream, metaclass = _ParserMeta):
             self.usagePage = int(i.value)
             i = item.UsagePage(usage.Usage.page(i.value))
 
+        if i.kind == item.Item.Global and i.tag == item.GlobalItem.Push:
+            self.usagePageStack.append(self.usagePage)
+
+        if i.kind == item.Item.Global and i.tag == item.GlobalItem.Pop and self.usagePageStack:
+            self.usagePage = self.usagePageStack.pop()
+
         if i.kind == item.Item.Local \
                and i.tag in (item.LocalItem.Usage, item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum) \
                and (int(i.value) >> 16) == 0:
-- 
2.43.0


From 04d8dcdd354218b847306be4084da5e5297c696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:34 +0000
Subject: [PATCH 30/34] fix: refuse values that items cannot carry

---
 hrdc/stream/item.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index fc2da2b..6108ff1 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -58,9 +58,10 @@ class Item(metaclass = _ItemMeta):
 
     def __init__(self, value):
         self.value = value or 0
-        assert self.signed or int(self.value) >= 0, \
-               ValueError("Unexpected value for %s: %d"
-                          % (self.__class__.__name__, self.value))
+        low, high = (-1 << 31, (1 << 31) - 1) if self.signed else (0, (1 << 32) - 1)
+        if not low <= int(self.value) <= high:
+            raise ValueError("Unexpected value for %s: %d"
+                             % (self.__class__.__name__, int(self.value)))
         self.optionalValue = self.kind == self.Main and \
                              self.tag in (MainItem.Input, MainItem.EndCollection)
 
-- 
2.43.0


From ac55f7eeccecad566eb56008d756a891100977c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:40 +0000
Subject: [PATCH 31/34] fix: constants differ from what is not a number

---
 hrdc/util/named_constant.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrdc/util/named_constant.py b/hrdc/util/named_constant.py
index 282d927..d1ea701 100644
--- a/hrdc/util/named_constant.py
+++ b/hrdc/util/named_constant.py
@@ -14,7 +14,9 @@ class NamedConstant:
         return int(self) < int(other)
 
     def __eq__(self, other):
-        return int(self) == int(other)
+        if isinstance(other, (NamedConstant, int)):
+            return int(self) == int(other)
+        return NotImplemented
 
     def __hash__(self):
         return hash(int(self))
-- 
2.43.0


From dc49961181223ad2538bd1be6bb00ef281cb7a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:08 +0000
Subject: [PATCH 32/34] fix: decompile data outside of collections, and empty
 descriptors

---
 hrdc/descriptor/extractor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 008c0a4..a67efd5 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -123,6 +123,12 @@ class Extractor(Stream):
 
             self.localsClear()
 
+    def close(self):
+        # Data may lie outside of collections, or there may be none at all
+        if not self.stack:
+            self.reportIdMerge(self.currentLevel)
+            self.ended(self.currentLevel)
+
     def enter(self, kind, usage):
         self.stack.append(self.currentLevel)
         self.currentLevel = Collection(kind, usage)
-- 
2.43.0


From af0b58656d67e21397b9cde3df0e82e011040a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:47 +0000
Subject: [PATCH 33/34] fix: read 0X prefixes in hex text

---
 hrdc/stream/parser/hex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/parser/hex.py b/hrdc/stream/parser/hex.py
index c2424f4..dc03c23 100644
--- a/hrdc/stream/parser/hex.py
+++ b/hrdc/stream/parser/hex.py
@@ -4,6 +4,6 @@ import re
 class Hex(Parser):
     def read(self, *args):
         contents = self.input.read(*args)
-        blob = bytes(int(x, 16) for x in re.findall(r"\b(?:0x)?[0-9A-Fa-f]{2}\b", contents))
+        blob = bytes(int(x, 16) for x in re.findall(r"\b(?:0[xX])?[0-9A-Fa-f]{2}\b", contents))
         self.blobParse(blob)
             
-- 
2.43.0


From 6b42e3859dc89366f0ac55f05178c9ac14cec348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:28 +0000
Subject: [PATCH 34/34] fix: order items by kind, then tag, then value

---
 hrdc/stream/item.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index 6108ff1..a04e228 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -119,9 +119,8 @@ class Item(metaclass = _ItemMeta):
 
     def __lt__(self, other):
         if isinstance(other, Item):
-            return int(self.kind) < int(other.kind) \
-                   or int(self.tag) < int(other.tag) \
-                   or int(self.value) < int(other.value)
+            return (int(self.kind), int(self.tag), int(self.value)) \
+                   < (int(other.kind), int(other.tag), int(other.value))
         if other is None:
             return 1
         return id(self) < id(other)
-- 
2.43.0

