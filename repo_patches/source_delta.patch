From d555b86a602fdd61332a54194125e4f3f87173dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 01/56] fix: block_splitter must ignore the kind of zero weight
 items

An ignored item of a different kind used to change the current kind, so the
items around it were put in different (or mixed) blocks.
---
 openquake/commonlib/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index e38cebf..1576f2b 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -181,7 +181,7 @@ def block_splitter(items, max_weight, weight=lambda item: 1,
             raise ValueError('The item %r got a negative weight %s!' %
                              (item, w))
         elif w == 0:  # ignore items with 0 weight
-            pass
+            continue
         elif ws.weight + w > max_weight or k != prev_kind:
             new_ws = WeightedSequence([(item, w)])
             if ws:
-- 
2.43.0


From 0e17154a9a4cbd4608642a8ea7e4c562f82446c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 02/56] fix: WeightedSequences of different length are not
 equal

The comparison stopped at the shortest sequence (the empty sequence was equal
to anything) and != was not the negation of ==.
---
 openquake/commonlib/general.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 1576f2b..7904f6e 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -107,7 +107,15 @@ class WeightedSequence(collections.MutableSequence):
         """
         Compare for equality the items contained in self
         """
-        return all(x == y for x, y in zip(self, other))
+        return (isinstance(other, collections.Sequence) and
+                len(self) == len(other) and
+                all(x == y for x, y in zip(self, other)))
+
+    def __ne__(self, other):
+        """
+        The negation of __eq__
+        """
+        return not self == other
 
     def __repr__(self):
         """
-- 
2.43.0


From 3e48a847f0cfb7a2d48ac2584d1e332d4746e639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 03/56] fix: deep_eq must return a message and never raise on
 different objects

Missing dictionary keys, values of different type and unicode strings raised
KeyError, TypeError or recursed forever, and the excluded attributes were only
excluded at the top level.
---
 openquake/commonlib/general.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 7904f6e..7c3ef2d 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -23,6 +23,7 @@ Utility functions of general interest.
 
 import os
 import math
+import numbers
 import tempfile
 import collections
 
@@ -271,7 +272,8 @@ def _deep_eq(a, b, decimal, exclude=None):
 
         for key in a:
             if not key in exclude:
-                _deep_eq(a[key], b[key], decimal)
+                assert key in b, "Key %r is missing in %s" % (key, b)
+                _deep_eq(a[key], b[key], decimal, exclude)
 
     def _test_seq(a, b):
         """Compare `list` or `tuple` types recursively."""
@@ -281,13 +283,15 @@ def _deep_eq(a, b, decimal, exclude=None):
             dict(a=a, b=b, len_a=len(a), len_b=len(b))
 
         for i, item in enumerate(a):
-            _deep_eq(item, b[i], decimal)
+            _deep_eq(item, b[i], decimal, exclude)
 
     # lists or tuples
     if isinstance(a, (list, tuple)):
+        assert isinstance(b, (list, tuple)), "%r is not a sequence" % (b,)
         _test_seq(a, b)
     # dicts
     elif isinstance(a, dict):
+        assert isinstance(b, dict), "%r is not a dict" % (b,)
         _test_dict(a, b)
     # objects with a __dict__
     elif hasattr(a, '__dict__'):
@@ -295,9 +299,12 @@ def _deep_eq(a, b, decimal, exclude=None):
             "%s and %s are different classes") % (a.__class__, b.__class__)
         _test_dict(a.__dict__, b.__dict__)
     # iterables (not strings)
-    elif isinstance(a, collections.Iterable) and not isinstance(a, str):
+    elif isinstance(a, collections.Iterable) and not isinstance(
+            a, basestring):
         # If there's a generator or another type of iterable, treat it as a
         # `list`. NOTE: Generators will be exhausted if you do this.
+        assert isinstance(b, collections.Iterable), (
+            "%r is not iterable" % (b,))
         _test_seq(list(a), list(b))
     # objects with __slots__
     elif hasattr(a, '__slots__'):
@@ -307,12 +314,13 @@ def _deep_eq(a, b, decimal, exclude=None):
             "slots %s and %s are not the same") % (a.__slots__, b.__slots__)
         for slot in a.__slots__:
             if not slot in exclude:
-                _deep_eq(getattr(a, slot), getattr(b, slot), decimal)
+                _deep_eq(getattr(a, slot), getattr(b, slot), decimal, exclude)
     else:
         # Objects must be primitives
 
         # Are they numbers?
         if isinstance(a, (int, long, float, complex)):
+            assert isinstance(b, numbers.Number), "%s != %s" % (a, b)
             numpy.testing.assert_almost_equal(a, b, decimal=decimal)
         else:
             assert a == b, "%s != %s" % (a, b)
-- 
2.43.0


From 0436a6c901ce7200edab29888d2b864863a9e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 04/56] fix: writetmp must close the file also when there is no
 content

---
 openquake/commonlib/general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 7c3ef2d..2c80816 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -341,8 +341,8 @@ def writetmp(content=None, dir=None, prefix="tmp", suffix="tmp"):
         if not os.path.exists(dir):
             os.makedirs(dir)
     fh, path = tempfile.mkstemp(dir=dir, prefix=prefix, suffix=suffix)
+    fh = os.fdopen(fh, "w")
     if content:
-        fh = os.fdopen(fh, "w")
         fh.write(content)
-        fh.close()
+    fh.close()
     return path
-- 
2.43.0


From 70c5fc4137eb2a95d36d1d966e031603fe1ffe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 05/56] fix: TaskManager.wait raised a TypeError

self was passed twice to aggregate_results.
---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 5da89ee..adb287e 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -257,7 +257,7 @@ class TaskManager(object):
 
         :returns: the total number of tasks that were spawned
         """
-        return self.aggregate_results(self, lambda acc, res: acc + 1, 0)
+        return self.aggregate_results(lambda acc, res: acc + 1, 0)
 
 
 def map_reduce(function, function_args, agg, acc, name=None):
-- 
2.43.0


From 4cd08034eeb2bd2ff73aa8553866d2b2e859c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 06/56] fix: PerformanceMonitor mixed the memory of different
 processes

When a process became unreadable inside the block the measures taken at the
start and at the end were not of the same processes.
---
 openquake/commonlib/parallel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index adb287e..45926ee 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -342,13 +342,17 @@ class PerformanceMonitor(object):
         self._start_time = time.time()
         self.start_time = datetime.fromtimestamp(self._start_time)
         self.start_mem = self.measure_mem()
+        self._start_procs = list(self._procs)
         return self
 
     def __exit__(self, etype, exc, tb):
         "Call .stop"
         self.exc = exc
         self.stop_mem = self.measure_mem()
-        self.mem = [m2 - m1 for m1, m2 in zip(self.start_mem, self.stop_mem)]
+        # a process may have become unreadable during the execution
+        start = dict(zip(map(id, self._start_procs), self.start_mem))
+        self.mem = [m2 - start[id(proc)]
+                    for proc, m2 in zip(self._procs, self.stop_mem)]
         self.duration = time.time() - self._start_time
         self.on_exit()
 
-- 
2.43.0


From 4622b41a7ef3baedff6c025d8f2ea04d9f155013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 07/56] fix: strip the blanks around the source model paths in
 parse_config

A path on its own line inside <uncertaintyModel> was returned together with
the surrounding newlines.
---
 openquake/commonlib/readini.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/readini.py b/openquake/commonlib/readini.py
index 1d1f574..38d3685 100644
--- a/openquake/commonlib/readini.py
+++ b/openquake/commonlib/readini.py
@@ -21,7 +21,7 @@ def _collect_source_model_paths(smlt):
             for branch in branch_set.xpath(
                     './nrml:logicTreeBranch/nrml:uncertaintyModel',
                     namespaces=nrmllib.PARSE_NS_MAP):
-                src_paths.append(branch.text)
+                src_paths.append(branch.text.strip())
     return sorted(set(src_paths))
 
 
-- 
2.43.0


From c5c16577a5170c97fdff76a5ab0eb523c4d5d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 08/56] fix: the numeric validators accepted NaN

NaN compares false with any bound, so it was accepted as a longitude, a
latitude, a probability or a positive float; positivefloat('-inf') raised an
OverflowError instead of a ValueError while building the message.
---
 openquake/commonlib/valid.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 2a6a7e2..0b84272 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -21,9 +21,18 @@ Validation library
 """
 
 import re
+import math
 import collections
 
 
+def _float(text):
+    """String -> float, rejecting NaNs (all comparisons with NaN are false)"""
+    f = float(text)
+    if math.isnan(f):
+        raise ValueError('%r is not a number' % text)
+    return f
+
+
 class NoneOr(object):
     """
     Accept the empty string (casted to None) or something else validated
@@ -76,7 +85,7 @@ class FloatRange(object):
         self.maxrange = maxrange
 
     def __call__(self, value):
-        f = float(value)
+        f = _float(value)
         if f > self.maxrange:
             raise ValueError('%r is bigger than the max, %r' %
                              (f, self.maxrange))
@@ -103,7 +112,7 @@ def namelist(text):
 
 def longitude(text):
     """String -> longitude float"""
-    lon = float(text)
+    lon = _float(text)
     if lon > 180.:
         raise ValueError('longitude %s > 180' % lon)
     elif lon < -180.:
@@ -113,7 +122,7 @@ def longitude(text):
 
 def latitude(text):
     """String -> latitude float"""
-    lat = float(text)
+    lat = _float(text)
     if lat > 90.:
         raise ValueError('latitude %s > 90' % lat)
     elif lat < -90.:
@@ -131,9 +140,9 @@ def positiveint(text):
 
 def positivefloat(text):
     """String -> positive float"""
-    f = float(text)
+    f = _float(text)
     if f < 0:
-        raise ValueError('float %d < 0' % f)
+        raise ValueError('float %s < 0' % f)
     return f
 
 
-- 
2.43.0


From 1e4400792352bc0f95ba5ff1b4330c88ffc7cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 09/56] fix: IMTstr and name accepted strings with trailing
 characters

The regular expressions were not anchored at the end: 'PGAx', 'SA(1)x' and
'name\n' were considered valid.
---
 openquake/commonlib/valid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 0b84272..75de278 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -76,7 +76,7 @@ class Regex(object):
                              (value, self.rx.pattern))
         return value
 
-name = Regex(r'^[a-zA-Z_]\w*$')
+name = Regex(r'^[a-zA-Z_]\w*\Z')
 
 
 class FloatRange(object):
@@ -171,7 +171,8 @@ IMT = collections.namedtuple('IMT', 'imt saPeriod saDamping')
 
 def IMTstr(text):
     """String -> namedtuple with fields imt, saPeriod, saDamping"""
-    mo = re.match(r'PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\)', text)
+    mo = re.match(
+        r'(?:PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\))\Z', text)
     if mo is None:
         raise ValueError('%r is not a valid IMT' % text)
     period = mo.group(1)
-- 
2.43.0


From 0a6395590cea11dece91344401b76984db1fe553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 10/56] fix: the default of a Field was ignored

The __init__ method of the records always used the empty string.
---
 openquake/commonlib/record.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 664c75c..909bd2d 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -185,7 +185,7 @@ class MetaRecord(abc.ABCMeta):
         # a savvy user however can provide her own implementations
         # and they will have the precedence against the default ones
         if '__init__' not in dic:
-            dic['__init__'] = mcl.mkinit(fieldnames)
+            dic['__init__'] = mcl.mkinit(fields)
         if '_name2index' not in dic:
             dic['_name2index'] = _name2index
         if 'fields' not in dic:
@@ -214,13 +214,13 @@ class MetaRecord(abc.ABCMeta):
                 setattr(cls, n, fkey)
 
     @staticmethod
-    def mkinit(fieldnames):
+    def mkinit(fields):
         """Build the __init__ method for record subclasses"""
-        fields = ', '.join(fieldnames)
-        defaults = ', '.join("%s=''" % f for f in fieldnames)
+        fieldnames = ', '.join(f.name for f in fields)
+        defaults = ', '.join("%s=%r" % (f.name, f.default) for f in fields)
         templ = '''def __init__(self, %s):
         self.row = [%s]
-        self.init()''' % (defaults, fields)
+        self.init()''' % (defaults, fieldnames)
         dic = {}
         try:
             exec(templ, dic)
-- 
2.43.0


From afa237e7f7ccae3a08c28234a2981ecd8d205fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 11/56] fix: comparing records and tables of different length
 raised an AssertionError

---
 openquake/commonlib/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 909bd2d..15441b9 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -351,7 +351,8 @@ class Record(collections.Sequence):
         A record is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
@@ -490,7 +491,8 @@ class Table(collections.MutableSequence):
         A table is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
-- 
2.43.0


From e59b20b45ebbc60ce594548009bd859d2c72f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 12/56] fix: a failed Table.insert left keys of the rejected
 record behind

With several unique constraints the ones checked before the violated one were
already updated, so a later valid record was rejected.
---
 openquake/commonlib/record.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 15441b9..70224f9 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -460,20 +460,28 @@ class Table(collections.MutableSequence):
         (in terms of unique constraints, including the primary
         key) raises a KeyError.
         """
+        keys = self._check_unique(position, rec)
         for name, unique in self._unique_data.iteritems():
-            key = getattr(rec, name)
-            try:
-                rec = unique.dict[key]
-            except KeyError:  # not inserted yet
-                unique.dict[key] = rec
-            else:
+            unique.dict[keys[name]] = rec
+        self._records.insert(position, rec)
+
+    def _check_unique(self, position, rec, ignore=None):
+        """
+        Return a dictionary with the unique keys of the given record. Raise a
+        KeyError if one of them is already taken by a record different from
+        `ignore`; in that case nothing is changed.
+        """
+        keys = {}
+        for name, unique in self._unique_data.iteritems():
+            key = keys[name] = getattr(rec, name)
+            if unique.dict.get(key, ignore) is not ignore:
                 msg = []
-                for k, name in zip(key, unique.names):
-                    msg.append('%s=%s' % (name, k))
+                for k, fieldname in zip(key, unique.names):
+                    msg.append('%s=%s' % (fieldname, k))
                 raise KeyError('%s:%d:Duplicated record:%s' %
                                (self.recordtype.__name__, position,
                                 ','.join(msg)))
-        self._records.insert(position, rec)
+        return keys
 
     def getrecord(self, *pkey):
         """
-- 
2.43.0


From 41e0f1a86a954db2b527beebef304cecd8e6a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 13/56] fix: check the unique constraints when a record of a
 Table is replaced

The replacement could duplicate the keys of another record, after which the
indexes of the table were wrong.
---
 openquake/commonlib/record.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 70224f9..9041900 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -436,12 +436,11 @@ class Table(collections.MutableSequence):
     def __setitem__(self, i, new_record):
         """Set the i-th record"""
         # TODO: the fk dictionaries must be updated!
-        # TODO: there is no unique check here!
+        old_record = self._records[i]
+        new_keys = self._check_unique(i, new_record, ignore=old_record)
         for name, unique in self._unique_data.iteritems():
-            old_key = getattr(self._records[i], name)
-            new_key = getattr(new_record, name)
-            del unique.dict[old_key]
-            unique.dict[new_key] = new_record
+            del unique.dict[getattr(old_record, name)]
+            unique.dict[new_keys[name]] = new_record
         self._records[i] = new_record
 
     def __delitem__(self, i):
-- 
2.43.0


From 5e0573be4b31889a6e8442e9a92e0fd29b08ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 14/56] fix: Table.reverse corrupted the indexes of the table

The implementation inherited from MutableSequence swaps the records through
__setitem__, thus violating the unique constraints half way.
---
 openquake/commonlib/record.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 9041900..e4f0a5e 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -482,6 +482,14 @@ class Table(collections.MutableSequence):
                                 ','.join(msg)))
         return keys
 
+    def reverse(self):
+        """
+        Reverse the records in place; the unique keys do not change. NB: the
+        default implementation would swap the records one at the time, thus
+        temporarily breaking the unique constraints.
+        """
+        self._records.reverse()
+
     def getrecord(self, *pkey):
         """
         Extract the record specified by the given primary key.
-- 
2.43.0


From 64d10e11b43da6d62362a6a6bdfcbf5425bb00e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 15/56] fix: the records extracted from a scenario gmfSet were
 invalid

The investigationTime of a scenario is empty, and the Gmf records had an
integer stochasticEventSetId different from the one of their gmfSet.
---
 openquake/commonlib/converter.py | 2 +-
 openquake/commonlib/records.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index e99d53c..871f701 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -454,7 +454,7 @@ class GmfCollection(Converter):
                 imt = gmf['IMT']
                 if imt == 'SA':
                     imt += '(%s)' % gmf['saPeriod']
-                yield records.Gmf(1, imt, '')
+                yield records.Gmf('0', imt, '')
                 for n in gmf:
                     yield records.GmfData(
                         '0', imt, '', n['lon'], n['lat'], n['gmv'])
diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 5590e9f..4955cb9 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -346,7 +346,7 @@ class GmfSet(Record):
     pkey = Unique('stochasticEventSetId')
 
     stochasticEventSetId = Field(int)
-    investigationTime = Field(float)
+    investigationTime = Field(valid.NoneOr(float))
 
     def to_node(self):
         dic = {}
-- 
2.43.0


From 770ff7393cb6feb670a7fbd328c0d58fa6a399e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 16/56] fix: do not generate an empty area conversion for
 exposures without area

---
 openquake/commonlib/records.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 4955cb9..1c10819 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -232,8 +232,9 @@ class Exposure(Record):
         node.append(Node('description', text=self['description']))
         if node['category'] == 'buildings':
             conv = Node('conversions')
-            conv.append(Node('area', dict(type=self['area_type'],
-                                          unit=self['area_unit'])))
+            if self['area_type'] and self['area_unit']:
+                conv.append(Node('area', dict(type=self['area_type'],
+                                              unit=self['area_unit'])))
             conv.append(Node('costTypes'))
             conv.append(Node('deductible', dict(
                 isAbsolute=self['deductible_is_absolute'])))
-- 
2.43.0


From af3a72f4d952ac3abca1736bd567a122c556538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 17/56] fix: the area conversion of population exposures was
 lost

to_node writes it, but it was not read back.
---
 openquake/commonlib/converter.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 871f701..4545ce6 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -286,19 +286,19 @@ class Exposure(Converter):
         Convert the node into a sequence of Exposure records
         """
         taxonomysource = node.attrib.get('taxonomySource', 'UNKNOWN')
+        try:
+            area = node.conversions.area
+            area_type = area['type']
+            area_unit = area['unit']
+        except NameError:
+            area_type = ''
+            area_unit = ''
         if node['category'] == 'buildings':
             for c in node.conversions.costTypes:
                 yield records.CostType(c['name'], c['type'], c['unit'],
                                        c.attrib.get('retrofittedType', ''),
                                        c.attrib.get('retrofittedUnit', ''))
             conv = node.conversions
-            try:
-                area = conv.area
-                area_type = area['type']
-                area_unit = area['unit']
-            except NameError:
-                area_type = ''
-                area_unit = ''
             yield records.Exposure(
                 node['id'],
                 node['category'],
@@ -313,7 +313,9 @@ class Exposure(Converter):
                 node['id'],
                 node['category'],
                 taxonomysource,
-                node.description.text.strip())
+                node.description.text.strip(),
+                area_type,
+                area_unit)
 
         locations = {}  # location -> id
         loc_counter = itertools.count(1)
-- 
2.43.0


From 4dfb62444a83dcf06301c82118ef8aba1b165813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 18/56] fix: exposure occupancies were lost depending on the
 first asset

Only the periods of the first asset with occupancies were converted.
---
 openquake/commonlib/converter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 4545ce6..80bd6b1 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -389,10 +389,8 @@ class Exposure(Converter):
                 exp.nodes.insert(1, Node('conversions', {}, nodes=[
                     Node('area', {'type': area_type, 'unit': area_unit})]))
         if t.tableOccupancy:
-            # extract the occupancies corresponding to the first asset
-            _asset_ref, occupancies = groupby(
-                t.tableOccupancy, ['asset_ref']).next()
-            periods = sorted(occ.period for occ in occupancies)
+            # the assets may have different occupancy periods
+            periods = sorted(set(occ.period for occ in t.tableOccupancy))
         else:
             periods = []
         exp.assets.nodes = self._assetgenerator(
-- 
2.43.0


From c3d76382efb60722e060a4c2fe5de9c9647678ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 19/56] fix: convert_from_node lost the data of lazy nodes

The node was traversed twice, once to check the records and once to write
them; the second time the lazy nodes (such as the assets of an exposure) were
empty.
---
 openquake/commonlib/csvmanager.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 8d58bd4..a9f5ead 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -396,10 +396,12 @@ class CSVManager(object):
             man = self
         else:  # creates a new CSVManager for the given prefix
             man = self.__class__(self.archive, prefix)
-        convtype = converter.Converter.from_node(node)
+        # NB: the node may be lazy and cannot be traversed twice
+        tset = converter.Converter.from_node(node).tableset
         with man:
-            for rec in convtype.node_to_records(node):
-                man.write(rec)  # automatically opens the needed files
+            for table in tset:
+                for rec in table:
+                    man.write(rec)  # automatically opens the needed files
         return man
 
     def read(self, recordtype):
-- 
2.43.0


From 478643b7f3e5b5af29d4eea5c62a0797a5dbd1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 20/56] fix: reading twice a file of a MemArchive returned no
 data

The same FileObject was returned, already at the end of the file.
---
 openquake/commonlib/csvmanager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index a9f5ead..9ca9783 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -219,9 +219,11 @@ class MemArchive(Archive):
             self.dic[name] = f = FileObject(name, '')
             return f
         try:
-            return self.dic[name]
+            f = self.dic[name]
         except KeyError:
             raise NotInArchive(name)
+        # each reader starts from the beginning
+        return FileObject(name, f.fileobj.getvalue())
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From cbf5406dda4c888b5159637a94e2fbe053f77aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 21/56] fix: CSVManager.read returned no records the second
 time

The exhausted reader was cached.
---
 openquake/commonlib/csvmanager.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 9ca9783..4c8018a 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -291,7 +291,6 @@ class CSVManager(object):
         self.archive = archive
         self.prefix = prefix
         self.has_header = has_header
-        self.rt2reader = {}
         self.rt2writer = {}
         self.rt2file = {}
 
@@ -410,17 +409,15 @@ class CSVManager(object):
         """
         Read the records from the underlying CSV file. Returns an iterator.
         """
-        reader = self.rt2reader.get(recordtype)
-        if reader is None:
-            fname = '%s__%s.csv' % (self.prefix, recordtype.__name__)
-            self.rt2file[recordtype] = f = self.archive.open(fname, 'r')
-            self.rt2reader[recordtype] = reader = csv.reader(f)
-            if self.has_header:
-                header = reader.next()
-                if header != recordtype.fieldnames:
-                    raise InvalidFile(
-                        '%s: line 1: got %s as header, expected %s' %
-                        (fname, header, recordtype.fieldnames))
+        fname = '%s__%s.csv' % (self.prefix, recordtype.__name__)
+        self.rt2file[recordtype] = f = self.archive.open(fname, 'r')
+        reader = csv.reader(f)
+        if self.has_header:
+            header = reader.next()
+            if header != recordtype.fieldnames:
+                raise InvalidFile(
+                    '%s: line 1: got %s as header, expected %s' %
+                    (fname, header, recordtype.fieldnames))
         for row in reader:
             yield recordtype(*row)
 
@@ -471,7 +468,6 @@ class CSVManager(object):
 
     def __enter__(self):
         """Initialize a few dictionaries"""
-        self.rt2reader = {}
         self.rt2writer = {}
         self.rt2file = {}
         self.archive.opened = set()
-- 
2.43.0


From e1d941d412925e6ed53a0dfa5821e1a1a0fabf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 22/56] fix: optional CSV files were mandatory in directories
 and zip archives

Only MemArchive raised the NotInArchive error which is expected by CSVManager
when an optional table is missing, so for instance an exposure without
occupancies could not be converted back from a directory.
---
 openquake/commonlib/csvmanager.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 4c8018a..3516751 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -168,7 +168,10 @@ class ZipArchive(Archive):
             return TempFile(self.zip, name, mode)
         else:
             # open for reading
-            return self.zip.open(name, mode)
+            try:
+                return self.zip.open(name, mode)
+            except KeyError:
+                raise NotInArchive(name)
 
     def extract_filenames(self, prefix=''):
         """
@@ -192,7 +195,10 @@ class DirArchive(Archive):
         self.opened = set()
 
     def _open(self, name, mode):
-        return open(os.path.join(self.name, name), mode)
+        pathname = os.path.join(self.name, name)
+        if mode.startswith('r') and not os.path.exists(pathname):
+            raise NotInArchive(name)
+        return open(pathname, mode)
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From adc342d22d15a2b98430730a718f8c51a9ac8cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 23/56] fix: mkarchive could not open zip archives in
 read-write mode

NRMLconvert.py uses the mode 'r+' for its input, which ZipFile rejects.
---
 openquake/commonlib/csvmanager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 3516751..fbe37ae 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -158,7 +158,9 @@ class ZipArchive(Archive):
     Thin wrapper over a ZipFile object.
     """
     def __init__(self, zipname, mode='a'):
-        self.zip = zipfile.ZipFile(zipname, mode)
+        # a ZipFile does not know about read-write modes
+        self.zip = zipfile.ZipFile(
+            zipname, {'r+': 'a', 'w+': 'w'}.get(mode, mode))
         self.name = self.zip.filename
         self.opened = set()
 
-- 
2.43.0


From 30adfd85512abc612485d2e3ca19ce6303ef5eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 24/56] fix: closing a ZipArchive did not save the zip file

The directory of the archive was written only when the ZipFile object was
garbage collected; before that the file on disk was not a valid zip file.
---
 openquake/commonlib/csvmanager.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index fbe37ae..69f65a4 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -137,8 +137,8 @@ class TempFile(FileWrapper):
     ZipArchive objects. It automatically stores the data in the archive
     at file closing time.
     """
-    def __init__(self, arczip, arcname, mode):
-        self.arczip = arczip
+    def __init__(self, archive, arcname, mode):
+        self.archive = archive
         self.name = arcname
         self.fileobj = tempfile.NamedTemporaryFile(mode)
         self.tempname = self.fileobj.name
@@ -148,7 +148,7 @@ class TempFile(FileWrapper):
         if self.closed:  # already closed, do nothing
             return
         self.fileobj.seek(0)  # this is essential
-        self.arczip.write(self.tempname, self.name)  # save in the archive
+        self.archive.zip.write(self.tempname, self.name)  # save in the archive
         self.fileobj.close()  # remove the temporary file
         self.closed = True
 
@@ -167,7 +167,7 @@ class ZipArchive(Archive):
     def _open(self, name, mode):
         if mode in ('w', 'w+', 'r+'):
             # write on a temporary file
-            return TempFile(self.zip, name, mode)
+            return TempFile(self, name, mode)
         else:
             # open for reading
             try:
@@ -182,6 +182,16 @@ class ZipArchive(Archive):
         return set(i.filename for i in self.zip.infolist()
                    if i.filename.startswith(prefix))
 
+    def close(self):
+        """
+        Close the opened files and save the zip file, by writing its
+        directory. The archive can still be used after that.
+        """
+        super(ZipArchive, self).close()
+        mode = 'r' if self.zip.mode == 'r' else 'a'
+        self.zip.close()
+        self.zip = zipfile.ZipFile(self.name, mode)
+
 
 class DirArchive(Archive):
     """
@@ -384,6 +394,8 @@ class CSVManager(object):
                     node = man.get_tableset().to_node()
                     node_to_nrml(node, out)
                 fnames.append(out.name)
+        if out_archive is not None:
+            out_archive.close()
         return fnames
 
     def convert_from_nrml(self, fname):
-- 
2.43.0


From cfa94f2a4aa0444ca8875d18075c32cfb587a545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 25/56] fix: the levels after a skipped branching level were
 lost

A level skipped in the GMPE logic tree cleared the open ends, so the following
levels were not attached to any branch.
---
 openquake/commonlib/logictree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 10b58da..97d353b 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -464,8 +464,9 @@ class BaseLogicTree(object):
                 self.apply_branchset(branchset_node, branchset)
             for branch in branchset.branches:
                 new_open_ends.add(branch)
-        self.open_ends.clear()
-        self.open_ends.update(new_open_ends)
+        if new_open_ends:  # the branching level was not skipped
+            self.open_ends.clear()
+            self.open_ends.update(new_open_ends)
 
     def parse_branchset(self, branchset_node, depth, number, validate):
         """
-- 
2.43.0


From 0f2f112bca7ed9e77c46414626dc9f7f93c568b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 26/56] fix: sampling a logic tree must yield LtRealization
 objects

Plain tuples were returned, differently from the full enumeration.
---
 openquake/commonlib/logictree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 97d353b..5b78018 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -599,7 +599,7 @@ class BaseLogicTree(object):
             rnd = random.Random(self.seed)
             for _ in xrange(self.num_samples):
                 name, sm_lt_path = self.sample_path(rnd)
-                yield name, None, tuple(sm_lt_path)
+                yield LtRealization(name, None, tuple(sm_lt_path))
         else:  # full enumeration
             for weight, smlt_path in self.root_branchset.enumerate_paths():
                 name = smlt_path[0].value
-- 
2.43.0


From e3914973bf00308f3d4785d148622148db3baf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 27/56] fix: a GMPE branchset without tectonic region type
 raised a KeyError

Now the ValidationError of validate_filters is raised, as documented.
---
 openquake/commonlib/logictree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 5b78018..80b4180 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1021,8 +1021,9 @@ class GMPELogicTree(BaseLogicTree):
 
         :param attrs: a dictionary with the attributes of the branchset
         """
-        return (attrs['applyToTectonicRegionType']
-                not in self.tectonic_region_types)
+        trt = attrs.get('applyToTectonicRegionType')
+        # a missing filter is an error, see validate_filters
+        return trt is not None and trt not in self.tectonic_region_types
 
     def make_trt_to_gsim(self, branch_ids):
         """
-- 
2.43.0


From f0954a3a92d49ee3b3406c93de6af96aa20d4441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 28/56] fix: the branches of a GsimLogicTree were not sorted by
 branchset

The comparison was not an ordering, so the branches of a branchset could be
split in different groups, giving wrong realizations.
---
 openquake/commonlib/logictree.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 80b4180..cf9c070 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1146,9 +1146,7 @@ class GMPELogicTree(BaseLogicTree):
 
 
 BranchTuple = namedtuple('BranchTuple', 'bset, id, uncertainty, weight')
-BranchTuple.__lt__ = lambda self, other: (
-    self.bset['branchSetID'] < other.bset['branchSetID']
-    and self.id < other.id)
+
 
 class InvalidLogicTree(Exception):
     pass
@@ -1179,7 +1177,8 @@ class GsimLogicTree(object):
                 'The given tectonic region types are not distinct: %s' %
                 ','.join(self.filter_keys))
         self.values = collections.defaultdict(list)  # {fkey: uncertainties}
-        self.branches = sorted(self._parse_lt())
+        self.branches = sorted(
+            self._parse_lt(), key=lambda br: br.bset['branchSetID'])
         if filter_keys and not self.branches:
             raise InvalidLogicTree(
                 'Could not find branches with attribute %r in %s' %
-- 
2.43.0


From bf2cc1a32d5df119170a0266733794f19c1e830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 29/56] fix: infinite loop when giving the sources to a
 SourceCollector

The list was extended while looping on it; filter_sources was affected.
---
 openquake/commonlib/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 5cd4065..551e91a 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -50,11 +50,11 @@ class SourceCollector(object):
     def __init__(self, trt, sources=None, num_ruptures=0,
                  min_mag=None, max_mag=None):
         self.trt = trt
-        self.sources = sources or []
+        self.sources = []
         self.num_ruptures = num_ruptures
         self.min_mag = min_mag
         self.max_mag = max_mag
-        for src in self.sources:
+        for src in sources or []:
             self.update(src)
         self.filtered_sources = (0, 0)  # (filtered, total)
 
-- 
2.43.0


From cd31636f0931f7f756782b702a7032e98cd1947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 30/56] fix: integer division when computing the max weight of
 the blocks

For small integer limits gen_blocks raised a ValueError: max_weight=0.
---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 551e91a..9bd39de 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -133,7 +133,7 @@ class SourceCollector(object):
         assert num_sources, 'No sources for TRT=%s!' % self.trt
         return block_splitter(
             self._filter_and_split_sources(src_filter, discr),
-            max_weight * num_sources / (num_sources + 100),
+            float(max_weight) * num_sources / (num_sources + 100),
             self.update_num_ruptures)
 
     def __repr__(self):
-- 
2.43.0


From 9db9f94b94a4fd711cb8a399e740d670bfcca57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 31/56] fix: filtered_sources did not count the trailing
 discarded sources

---
 openquake/commonlib/source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 9bd39de..e7a5687 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -107,6 +107,7 @@ class SourceCollector(object):
         # NB: as a side effect it throws away the unfiltered sources
         srcs = []
         tot_sources = 0
+        self.filtered_sources = (0, 0)
         for src in self.sources:
             sites = src_filter(src)
             if sites is not None:
@@ -117,6 +118,7 @@ class SourceCollector(object):
                     self.filtered_sources = (len(srcs), tot_sources)
             else:
                 tot_sources += 1
+                self.filtered_sources = (len(srcs), tot_sources)
         self.sources = srcs  # throw away unfiltered sources
 
     def gen_blocks(self, src_filter, max_weight, discr):
-- 
2.43.0


From 94fa2b9d5aa9746ecd03af98daf8d1f98cbdd358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 32/56] fix: split_fault_source on bins with zero occurrence
 rate

The source of the previous bin was returned twice, or an UnboundLocalError was
raised if the first bin was empty.
---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index e7a5687..f24169a 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -666,7 +666,7 @@ def split_fault_source(src):
                 min_mag=mag, bin_width=src.mfd.bin_width,
                 occurrence_rates=[rate])
             i += 1
-        yield new_src
+            yield new_src
 
 
 def split_source(src, area_source_discretization):
-- 
2.43.0


From 686a7087c9654f6281c318f10e9ea0e8544e0f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 33/56] fix: converting a characteristic source modified its
 planar surfaces

The attribute mesh_spacing was added to the NRML objects.
---
 openquake/commonlib/source.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index f24169a..92920f6 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -492,10 +492,9 @@ class NrmlHazardlibConverter(object):
             # A collection of planar surfaces
             planar_surfaces = []
             for planar_surface in src.surface:
-                kwargs = planar_surface.__dict__
-                kwargs.update(dict(mesh_spacing=self.rupture_mesh_spacing))
-
-                planar_surfaces.append(geo.PlanarSurface(**kwargs))
+                planar_surfaces.append(geo.PlanarSurface(
+                    mesh_spacing=self.rupture_mesh_spacing,
+                    **planar_surface.__dict__))
 
             surface = geo.MultiSurface(planar_surfaces)
 
-- 
2.43.0


From 5fb5cebdfd7bf324e8ed97205ef2ec5a41349893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:37 +0000
Subject: [PATCH 34/56] fix: CSV files were ignored when the name of the model
 contains a double underscore

NRMLconvert.py my__model.xml produced files like my__model__Location.csv
which were then invisible to the validation and to the conversion back.
---
 openquake/commonlib/csvmanager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 69f65a4..45211df 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -325,7 +325,8 @@ class CSVManager(object):
                 ct[name] = value
         for fname in sorted(self.archive.extract_filenames()):
             try:
-                prefix, recordcsv = fname.split('__')
+                # the prefix may contain double underscores
+                prefix, recordcsv = fname.rsplit('__', 1)
             except ValueError:
                 continue
             if not recordcsv.endswith('.csv'):
-- 
2.43.0


From b2afb32e85b1c84cca4139d86ebc4b2a99bcdd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:37 +0000
Subject: [PATCH 35/56] fix: a file like x__valid.csv is not a CSV file of
 records

The name was looked up in the module `records` and everything found there
was considered a record type, thus causing an AttributeError.
---
 openquake/commonlib/csvmanager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 45211df..3d25c1e 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -332,7 +332,7 @@ class CSVManager(object):
             if not recordcsv.endswith('.csv'):
                 continue
             recordtype = getattr(records, recordcsv[:-4], None)
-            if recordtype is None:
+            if not isinstance(recordtype, record.MetaRecord):
                 continue
             if not prefix in managers:
                 man = self.__class__(self.archive, prefix)
-- 
2.43.0


From 289119a8613b6eccfae0cf45bc7e0fc75044fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 36/56] fix: an unreadable source model file is reported as a
 ParsingError

as documented in BaseLogicTree, with the file name and the base path; a
plain IOError was raised before.
---
 openquake/commonlib/logictree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index cf9c070..0a0b53f 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -926,7 +926,10 @@ class SourceModelLogicTree(BaseLogicTree):
                                for tagname in self.SOURCE_TYPES)
         sourcetype_slice = slice(len('{%s}' % self.NRML), - len('Source'))
 
-        fh = self._get_source_model(source_model)
+        try:
+            fh = self._get_source_model(source_model)
+        except IOError as exc:
+            raise ParsingError(source_model, self.basepath, str(exc))
         eventstream = etree.iterparse(fh, tag='{%s}*' % self.NRML,
                                       schema=self.get_xmlschema())
         while True:
-- 
2.43.0


From 32328cd81cc3d7a0716b806b549b2ffb29f2e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 37/56] fix: an empty uncertainty value is reported as a
 ValidationError

and not as an AttributeError about the strip method of None.
---
 openquake/commonlib/logictree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 0a0b53f..e95f50b 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -521,11 +521,13 @@ class BaseLogicTree(object):
             weight = Decimal(weight.strip())
             weight_sum += weight
             value_node = branchnode.find('{%s}uncertaintyModel' % self.NRML)
+            # the text of an empty node is None
+            value_text = (value_node.text or '').strip()
             if validate:
                 self.validate_uncertainty_value(value_node, branchset,
-                                                value_node.text.strip())
+                                                value_text)
             value = self.parse_uncertainty_value(value_node, branchset,
-                                                 value_node.text.strip())
+                                                 value_text)
             branch_id = branchnode.get('branchID')
             branch = Branch(branch_id, weight, value)
             if branch_id in self.branches:
-- 
2.43.0


From 8f2ff586dec5b9702ba66dfd84588a1b5f3c3860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 38/56] fix: report the failure of a task even if the exception
 is not printable

---
 openquake/commonlib/parallel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 45926ee..a037cfa 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -90,7 +90,11 @@ def safely_call(func, args, pickle=False):
     except:
         etype, exc, tb = sys.exc_info()
         tb_str = ''.join(traceback.format_tb(tb))
-        res = '\n%s%s: %s' % (tb_str, etype.__name__, exc), etype
+        try:
+            msg = '%s' % (exc,)
+        except Exception:  # the exception cannot be converted to a string
+            msg = '<unprintable %s object>' % etype.__name__
+        res = '\n%s%s: %s' % (tb_str, etype.__name__, msg), etype
     if pickle:
         return Pickled(res)
     return res
-- 
2.43.0


From 898ccce749af3afb620ca4d2599a318c6323aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 39/56] fix: deep_eq compares the inherited slots and manages
 the unset ones

---
 openquake/commonlib/general.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 2c80816..f7c8249 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -255,6 +255,24 @@ def deep_eq(a, b, decimal=7, exclude=None):
     return True, ''
 
 
+def _slot_values(obj, exclude):
+    """
+    Return a dictionary with the slots which are set in the given object,
+    including the ones inherited from the parent classes.
+    """
+    values = {}
+    for cls in type(obj).__mro__:
+        slots = cls.__dict__.get('__slots__', ())
+        for slot in [slots] if isinstance(slots, basestring) else slots:
+            name = slot
+            if slot.startswith('__') and not slot.endswith('__'):  # private
+                name = '_%s%s' % (cls.__name__.lstrip('_'), slot)
+            if (slot not in exclude and slot not in ('__dict__', '__weakref__')
+                    and hasattr(obj, name)):
+                values[name] = getattr(obj, name)
+    return values
+
+
 def _deep_eq(a, b, decimal, exclude=None):
     """Do the actual deep comparison. If the two items up for comparison are
     not equal, a :exception:`AssertionError` is raised (to
@@ -298,6 +316,8 @@ def _deep_eq(a, b, decimal, exclude=None):
         assert a.__class__ == b.__class__, (
             "%s and %s are different classes") % (a.__class__, b.__class__)
         _test_dict(a.__dict__, b.__dict__)
+        if hasattr(a, '__slots__'):  # inherited slots
+            _test_dict(_slot_values(a, exclude), _slot_values(b, exclude))
     # iterables (not strings)
     elif isinstance(a, collections.Iterable) and not isinstance(
             a, basestring):
@@ -310,11 +330,7 @@ def _deep_eq(a, b, decimal, exclude=None):
     elif hasattr(a, '__slots__'):
         assert a.__class__ == b.__class__, (
             "%s and %s are different classes") % (a.__class__, b.__class__)
-        assert a.__slots__ == b.__slots__, (
-            "slots %s and %s are not the same") % (a.__slots__, b.__slots__)
-        for slot in a.__slots__:
-            if not slot in exclude:
-                _deep_eq(getattr(a, slot), getattr(b, slot), decimal, exclude)
+        _test_dict(_slot_values(a, exclude), _slot_values(b, exclude))
     else:
         # Objects must be primitives
 
-- 
2.43.0


From 69f5194cae663e1739b7c5c3e186d2cb3a9a1a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 40/56] fix: error message for repeated names in a unique
 constraint

---
 openquake/commonlib/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index e4f0a5e..e794db2 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -87,7 +87,7 @@ class Unique(object):
     loc.unique_fields returns the tuple (lon, lat), as UTF8-encoded strings.
     """
     def __init__(self, *names):
-        assert len(set(names)) == len(names), 'Duplicates in %s!' % names
+        assert len(set(names)) == len(names), 'Duplicates in %s!' % (names,)
         self.names = names
         self.name = None  # set by MetaRecord
         self.recordtype = None  # set by MetaRecord
-- 
2.43.0


From c069771463ee8c41c97dfbe76c1f5d884047304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 41/56] fix: costs and occupancies of unknown assets and costs
 of unknown types were lost

---
 openquake/commonlib/converter.py | 26 +++++++++++++-------------
 openquake/commonlib/records.py   |  4 ++++
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 80bd6b1..882cd6e 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -322,6 +322,19 @@ class Exposure(Converter):
         for asset in node.assets:
             asset_ref = asset['id']
 
+            # convert locations
+            loc = asset.location['lon'], asset.location['lat']
+            try:  # known location
+                loc_id = locations[loc]
+            except KeyError:  # yield only new locations
+                loc_id = locations[loc] = str(loc_counter.next())
+                yield records.Location(loc_id, loc[0], loc[1])
+
+            # convert assets
+            yield records.Asset(
+                loc_id, asset_ref, asset['taxonomy'],  asset['number'],
+                asset.attrib.get('area', ''))
+
             # convert occupancies
             try:
                 occupancies = asset.occupancies
@@ -343,19 +356,6 @@ class Exposure(Converter):
                     cost.attrib.get('deductible', ''),
                     cost.attrib.get('insuranceLimit', ''))
 
-            # convert locations
-            loc = asset.location['lon'], asset.location['lat']
-            try:  # known location
-                loc_id = locations[loc]
-            except KeyError:  # yield only new locations
-                loc_id = locations[loc] = str(loc_counter.next())
-                yield records.Location(loc_id, loc[0], loc[1])
-
-            # convert assets
-            yield records.Asset(
-                loc_id, asset_ref, asset['taxonomy'],  asset['number'],
-                asset.attrib.get('area', ''))
-
     def to_node(self):
         """
         Build a Node object containing a full exposure from a set
diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 1c10819..8d76a11 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -268,6 +268,7 @@ class CostType(Record):
 class Asset(Record):
     convertername = 'Exposure'
     pkey = Unique('asset_ref')
+    fkey = ForeignKey(Location.pkey, 'location_id')
 
     location_id = Field(valid.positiveint)
     asset_ref = Field(str)
@@ -287,6 +288,7 @@ class Asset(Record):
 class Occupancy(Record):
     convertername = 'Exposure'
     pkey = Unique('asset_ref', 'period')
+    fkey = ForeignKey(Asset.pkey, 'asset_ref')
 
     asset_ref = Field(str)
     period = Field(str)
@@ -300,6 +302,8 @@ class Occupancy(Record):
 class Cost(Record):
     convertername = 'Exposure'
     pkey = Unique('asset_ref', 'type')
+    fkey = ForeignKey(Asset.pkey, 'asset_ref')
+    fkey_type = ForeignKey(CostType.pkey, 'type')
 
     asset_ref = Field(str)
     type = Field(str)
-- 
2.43.0


From 4901a007e32b7ceba6b10c7195f89f03200e53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 42/56] fix: inconsistent vulnerability and fragility models
 were truncated instead of being rejected

---
 openquake/commonlib/converter.py | 45 +++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 882cd6e..122dcde 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -39,6 +39,18 @@ def groupby(records, keyfields):
     return itertools.groupby(records, lambda r: [r[k] for k in keyfields])
 
 
+def check_same(what, expected, got):
+    """
+    Check that two corresponding pieces of a model are equal
+
+    :param what: description of the pieces, for the error message
+    :param expected: what is expected
+    :param got: what is there
+    """
+    if expected != got:
+        raise ValueError('%s: expected %s, got %s' % (what, expected, got))
+
+
 class Converter(object):
     """
     Base class.
@@ -118,6 +130,10 @@ class Vulnerability(Converter):
                 fun_id = vf['vulnerabilityFunctionID']
                 ratios = vf.lossRatio.text.split()
                 coeffs = vf.coefficientsVariation.text.split()
+                check_same('Loss ratios of %s' % fun_id,
+                           len(imls), len(ratios))
+                check_same('Coefficients of variation of %s' % fun_id,
+                           len(imls), len(coeffs))
                 dv = records.DiscreteVulnerability(
                     set_id,
                     fun_id,
@@ -150,8 +166,13 @@ class Vulnerability(Converter):
 
             dvf.lossRatio.text = ' '.join(ratios)
             dvf.coefficientsVariation.text = ' '.join(coeffs)
+            iml_node = dvs_node[(set_id,)].IML
+            if iml_node.text is not None:  # all the functions share the IMLs
+                check_same('IMLs of %s' % vf_id,
+                           map(float, iml_node.text.split()),
+                           map(float, imls))
             dvs_node[(set_id,)].append(dvf)
-            dvs_node[(set_id,)].IML.text = ' '.join(imls)
+            iml_node.text = ' '.join(imls)
         return Node('vulnerabilityModel', nodes=dvs_node.values())
 
 
@@ -179,10 +200,13 @@ class FragilityDiscrete(Converter):
                 ffs.attrib.get('noDamageLimit', ''),
                 ffs.IML['IMT'],
                 ffs.IML['imlUnit'])
-            for ls, ffd in zip(limitStates, ffs.getnodes('ffd')):
+            ffds = list(ffs.getnodes('ffd'))
+            check_same('Number of functions', len(limitStates), len(ffds))
+            for ls, ffd in zip(limitStates, ffds):
                 assert ls == ffd['ls'], 'Expected %s, got %s' % (
                     ls, ffd['ls'])
                 poEs = ffd.poEs.text.split()
+                check_same('PoEs of %s' % ls, len(imls), len(poEs))
                 for iml, poe in zip(imls, poEs):
                     yield records.FFDataDiscrete(ls, ffs_ordinal, iml, poe)
 
@@ -211,11 +235,19 @@ class FragilityDiscrete(Converter):
                     [rec.poe for rec in data], nodamage)
 
             imls = ' '.join(rec['iml'] for rec in data)
-            ffs_node[(ordinal,)].IML.text = imls
+            iml_node = ffs_node[(ordinal,)].IML
+            if iml_node.text is not None:  # all the functions share the IMLs
+                check_same('IMLs of %s' % ls,
+                           map(float, iml_node.text.split()),
+                           map(float, imls.split()))
+            iml_node.text = imls
             poes = ' '.join(rec['poe'] for rec in data)
             n = Node('ffd', dict(ls=ls))
             n.append(Node('poEs', text=poes))
             ffs_node[(ordinal,)].append(n)
+        for ffs in ffs_node.values():
+            check_same('Limit states', frag.limitStates.text.split(),
+                       [n['ls'] for n in ffs.getnodes('ffd')])
         return frag
 
 
@@ -243,7 +275,9 @@ class FragilityContinuous(Converter):
                 ffs.IML['imlUnit'],
                 ffs.IML['minIML'],
                 ffs.IML['maxIML'])
-            for ls, ffc in zip(limitStates, ffs.getnodes('ffc')):
+            ffcs = list(ffs.getnodes('ffc'))
+            check_same('Number of functions', len(limitStates), len(ffcs))
+            for ls, ffc in zip(limitStates, ffcs):
                 assert ls == ffc['ls'], 'Expected %s, got %s' % (
                     ls, ffc['ls'])
                 yield records.FFDataContinuous(
@@ -271,6 +305,9 @@ class FragilityContinuous(Converter):
 
             n.append(Node('params', param))
             ffs_node[(ordinal,)].append(n)
+        for ffs in ffs_node.values():
+            check_same('Limit states', frag.limitStates.text.split(),
+                       [n['ls'] for n in ffs.getnodes('ffc')])
         return frag
 
 
-- 
2.43.0


From cbcf126ceff08f49977e5c097b11ed006a7ba772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 43/56] fix: functions, sets and fields without data and
 additional models were silently lost

---
 openquake/commonlib/converter.py | 47 ++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 122dcde..820d368 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -51,6 +51,24 @@ def check_same(what, expected, got):
         raise ValueError('%s: expected %s, got %s' % (what, expected, got))
 
 
+def get_single(table):
+    """
+    Return the record of a table which must contain a single one
+    """
+    if len(table) != 1:
+        raise ValueError('%s: expected a single record, got %d' % (
+            table.recordtype.__name__, len(table)))
+    return table[0]
+
+
+def check_not_empty(what, items):
+    """
+    Check that the pieces of a model are there
+    """
+    if not items:
+        raise ValueError('%s: no data' % what)
+
+
 class Converter(object):
     """
     Base class.
@@ -173,6 +191,12 @@ class Vulnerability(Converter):
                            map(float, imls))
             dvs_node[(set_id,)].append(dvf)
             iml_node.text = ' '.join(imls)
+        if tset.tableDiscreteVulnerabilityData:  # check that nothing is lost
+            for (set_id, vf_id), dvf in dvf_node.iteritems():
+                check_not_empty('Function %s of %s' % (vf_id, set_id),
+                                dvf.lossRatio.text)
+            for (set_id,), dvs in dvs_node.iteritems():
+                check_not_empty('Set %s' % set_id, dvs.IML.text)
         return Node('vulnerabilityModel', nodes=dvs_node.values())
 
 
@@ -215,7 +239,7 @@ class FragilityDiscrete(Converter):
         Build a full discrete fragility node from CSV
         """
         tset = self.tableset
-        frag = tset.tableFragilityDiscrete[0].to_node()
+        frag = get_single(tset.tableFragilityDiscrete).to_node()
         ffs_node = record.nodedict(tset.tableFFSetDiscrete)
         nodamage = float(ffs_node['noDamageLimit']) \
             if 'noDamageLimit' in ffs_node else None
@@ -290,7 +314,7 @@ class FragilityContinuous(Converter):
         Build a full continuous fragility node from CSV
         """
         tset = self.tableset
-        frag = tset.tableFragilityContinuous[0].to_node()
+        frag = get_single(tset.tableFragilityContinuous).to_node()
         ffs_node = record.nodedict(tset.tableFFSetContinuous)
         frag.nodes.extend(ffs_node.values())
         for (ls, ordinal), data in groupby(
@@ -412,7 +436,7 @@ class Exposure(Converter):
         with a variable number of columns depending on the metadata.
         """
         t = self.tableset
-        exp = t.tableExposure[0].to_node()
+        exp = get_single(t.tableExposure).to_node()
         if exp['category'] == 'buildings':
             cost_types = [c.name for c in t.tableCostType]
             exp.conversions.costTypes.nodes = [
@@ -528,6 +552,7 @@ class GmfCollection(Converter):
         """
         tset = self.tableset
         gmfset_node = record.nodedict(tset.tableGmfSet)
+        found = set()
         for (ses, imt, rupture), rows in groupby(
                 tset.tableGmfData,
                 ['stochasticEventSetId', 'imtStr', 'ruptureId']):
@@ -539,6 +564,12 @@ class GmfCollection(Converter):
                 attr['ruptureId'] = rupture
             nodes = [records.GmfData(*r).to_node() for r in rows]
             gmfset_node[(ses,)].append(Node('gmf', attr, nodes=nodes))
+            found.add((ses, imt, rupture))
+        # check that nothing is lost
+        for gmf in tset.tableGmf:
+            check_not_empty(str(gmf), gmf.pkey in found)
+        for (ses,), node in gmfset_node.iteritems():
+            check_not_empty('GmfSet %s' % ses, list(node))
         return gmfset_node
 
     def to_node(self):
@@ -547,13 +578,11 @@ class GmfCollection(Converter):
         GmfSet.csv and GmfData.csv
         """
         tset = self.tableset
-        try:
-            gmfcoll = tset.tableGmfCollection[0]
-        except IndexError:  # no data for GmfCollection
-            gmfset_node = self._to_node()
-            return gmfset_node.values()[0]  # there is a single node
         gmfset_node = self._to_node()
-        gmfcoll_node = gmfcoll.to_node()
+        if not tset.tableGmfCollection:  # no data for GmfCollection
+            get_single(tset.tableGmfSet)
+            return gmfset_node.values()[0]  # there is a single node
+        gmfcoll_node = get_single(tset.tableGmfCollection).to_node()
         for node in gmfset_node.values():
             gmfcoll_node.append(node)
         return gmfcoll_node
-- 
2.43.0


From b9294445b8d5475ca7eb5e36cb889f761211502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 44/56] fix: an empty model was returned for a prefix without
 files

---
 openquake/commonlib/csvmanager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 3d25c1e..68390be 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -363,12 +363,17 @@ class CSVManager(object):
         Return a populated TableSet from the underlying CSV files
         """
         tset = record.TableSet(self._getconverter())
+        found = False
         for rectype in tset.convertertype.recordtypes():
             try:
                 tset.insert_all(self.read(rectype))
             except NotInArchive:
                 # this may happen for optional tables in the tableset
                 continue
+            found = True
+        if not found:
+            raise NotInArchive('There are no files with prefix %r in %s' % (
+                self.prefix, self.archive.extract_filenames()))
         return tset
 
     def convert_to_node(self):
-- 
2.43.0


From 29b3d313c6f80b4901f5930708120cee16a418a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 45/56] fix: the rows of a ground motion field which are not
 together were written as several fields

---
 openquake/commonlib/converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 820d368..ebd9d01 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -556,6 +556,9 @@ class GmfCollection(Converter):
         for (ses, imt, rupture), rows in groupby(
                 tset.tableGmfData,
                 ['stochasticEventSetId', 'imtStr', 'ruptureId']):
+            if (ses, imt, rupture) in found:
+                raise ValueError('The rows of the field %s, %s, %s are not '
+                                 'together' % (ses, imt, rupture))
             if imt.startswith('SA'):
                 attr = dict(IMT='SA', saPeriod=imt[3:-1], saDamping='5')
             else:
-- 
2.43.0


From 587c54d7ec14b23ecf8a62260240efb8bc53edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 46/56] fix: a failed conversion to NRML spoiled an existing
 document

---
 openquake/commonlib/csvmanager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 68390be..c586a77 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -392,12 +392,13 @@ class CSVManager(object):
         for man in self._getmanagers():
             with man:
                 outname = man.prefix + '.xml'
+                # a failure must not spoil an existing document
+                node = man.get_tableset().to_node()
                 if out_archive is None:
                     out = man.archive.open(outname, 'w+')
                 else:
                     out = out_archive.open(outname, 'w+')
                 with out:
-                    node = man.get_tableset().to_node()
                     node_to_nrml(node, out)
                 fnames.append(out.name)
         if out_archive is not None:
-- 
2.43.0


From 5f7c5d077beee30cbb8be798daa3fffd1ad4f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 47/56] fix: an excluded key in the place of another key was
 taken for equal in deep_eq

---
 openquake/commonlib/general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index f7c8249..80de449 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -288,6 +288,9 @@ def _deep_eq(a, b, decimal, exclude=None):
             " Actual lengths: %(len_a)s and %(len_b)s") % dict(
             a=a, b=b, len_a=len(a), len_b=len(b))
 
+        for key in b:
+            assert key in a or key in exclude, (
+                "Key %r is missing in %s" % (key, a))
         for key in a:
             if not key in exclude:
                 assert key in b, "Key %r is missing in %s" % (key, b)
-- 
2.43.0


From edc66a9b6bb161512b63649bbed8caacdfa4f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 48/56] fix: a process ended inside a monitored block broke the
 PerformanceMonitor

---
 openquake/commonlib/parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index a037cfa..ade3541 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -332,9 +332,9 @@ class PerformanceMonitor(object):
         for proc in list(self._procs):
             try:
                 rss = proc.get_memory_info().rss
-            except psutil.AccessDenied:
-                # no access to information about this process
-                # don't not try to check it anymore
+            except (psutil.AccessDenied, psutil.NoSuchProcess):
+                # no access to information about this process, or the
+                # process is finished: don't not try to check it anymore
                 self._procs.remove(proc)
             else:
                 mem.append(rss)
-- 
2.43.0


From f3fae286904d514aca844a4cff8f8428ea9ee89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 49/56] fix: the unique and foreign keys inherited by a record
 type were ignored

---
 openquake/commonlib/record.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index e794db2..ca45ee4 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -200,7 +200,10 @@ class MetaRecord(abc.ABCMeta):
     def __init__(cls, name, bases, dic):
         if name != 'Record':
             cls.pkey  # raise an AttributeError if pkey is not defined
-        for n, v in dic.iteritems():
+        attrs = {}  # own and inherited attributes
+        for base in reversed(cls.__mro__):
+            attrs.update(vars(base))
+        for n, v in attrs.iteritems():
             # make a bound copy of the unbound Unique and ForeignKey constraint
             if isinstance(v, Unique):
                 unique = Unique(*v.names)
-- 
2.43.0


From 59f47338bab299e80eb6edf627a99ac3bcacc30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 50/56] fix: files opened before the block of a CSVManager were
 never closed, losing their contents in zip archives

---
 openquake/commonlib/csvmanager.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index c586a77..eae3915 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -311,6 +311,7 @@ class CSVManager(object):
         self.has_header = has_header
         self.rt2writer = {}
         self.rt2file = {}
+        self.opened_before = []  # files opened before entering
 
     def _getmanagers(self):
         """
@@ -497,12 +498,17 @@ class CSVManager(object):
         """Initialize a few dictionaries"""
         self.rt2writer = {}
         self.rt2file = {}
+        self.opened_before.append(self.archive.opened)
         self.archive.opened = set()
         return self
 
     def __exit__(self, etype, exc, tb):
         """Close the underlying archive"""
-        self.archive.close()
+        try:
+            self.archive.close()
+        finally:
+            # the other files are closed when the archive is closed
+            self.archive.opened = self.opened_before.pop()
 
     def __str__(self):
         """Display the filenames managed by the CSVManager"""
-- 
2.43.0


From 67c0c15460ad4ca692f6b83c2349826bf3f024a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:45 +0000
Subject: [PATCH 51/56] fix: a damping different from 5% was silently changed
 to 5% by the conversion

---
 openquake/commonlib/converter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index ebd9d01..33bc7b2 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -69,6 +69,14 @@ def check_not_empty(what, items):
         raise ValueError('%s: no data' % what)
 
 
+def check_damping(gmf):
+    """
+    Check the damping of a ground motion field, since there is no place for
+    it in the records: only the standard one of 5% can be converted
+    """
+    check_same('saDamping', 5., float(gmf.attrib.get('saDamping', '5')))
+
+
 class Converter(object):
     """
     Base class.
@@ -514,6 +522,7 @@ class GmfCollection(Converter):
             for gmf in node.getnodes('gmf'):
                 imt = gmf['IMT']
                 if imt == 'SA':
+                    check_damping(gmf)
                     imt += '(%s)' % gmf['saPeriod']
                 yield records.Gmf('0', imt, '')
                 for n in gmf:
@@ -530,6 +539,7 @@ class GmfCollection(Converter):
                 rup = gmf['ruptureId']
                 imt = gmf['IMT']
                 if imt == 'SA':
+                    check_damping(gmf)
                     imt += '(%s)' % gmf['saPeriod']
                 yield records.Gmf(ses_id, imt, rup)
                 for n in gmf:
-- 
2.43.0


From 943e6eafc71fdd031847456d02901f99feadfa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 52/56] fix: pickle_sequence gave the wrong object for an
 iterator of temporary objects

---
 openquake/commonlib/parallel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index ade3541..b88a10c 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -166,6 +166,8 @@ def pickle_sequence(objects):
     """
     cache = {}
     out = []
+    # keep the objects alive, otherwise their ids could be reused
+    objects = list(objects)
     for obj in objects:
         obj_id = id(obj)
         if obj_id not in cache:
-- 
2.43.0


From c4ac76fb47f59f56605086b4ccfa8184a053f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 53/56] fix: comparing a record or a table with an object which
 is not a sequence raised a TypeError

They are simply different: in particular it is possible again to search
anything (for instance None) in a table or to compare a record with it.
---
 openquake/commonlib/record.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index ca45ee4..38013cc 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -354,7 +354,8 @@ class Record(collections.Sequence):
         A record is equal to another sequence if they have the same
         length and content.
         """
-        if len(self) != len(other):
+        if not isinstance(other, collections.Sequence) or (
+                len(self) != len(other)):
             return False
         return all(x == y for x, y in zip(self, other))
 
@@ -363,8 +364,6 @@ class Record(collections.Sequence):
         A record is different from another sequence if their lenghts
         are different or if the contents are different.
         """
-        if len(self) != len(other):
-            return True
         return not self == other
 
     def __len__(self):
@@ -509,7 +508,8 @@ class Table(collections.MutableSequence):
         A table is equal to another sequence if they have the same
         length and content.
         """
-        if len(self) != len(other):
+        if not isinstance(other, collections.Sequence) or (
+                len(self) != len(other)):
             return False
         return all(x == y for x, y in zip(self, other))
 
@@ -518,8 +518,6 @@ class Table(collections.MutableSequence):
         A table is different from another sequence if their lenghts
         are different or if the contents are different.
         """
-        if len(self) != len(other):
-            return True
         return not self == other
 
     def __str__(self):
-- 
2.43.0


From 087ad230fd9be0f336d26cd15e3a269873b3b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:45 +0000
Subject: [PATCH 54/56] fix: logic trees given as unicode were encoded in
 latin1 whatever the declared encoding

---
 openquake/commonlib/logictree.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index e95f50b..f5bb025 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -395,8 +395,12 @@ class BaseLogicTree(object):
         self.branches = {}
         self.open_ends = set()
         if isinstance(content, unicode):
-            # etree.fromstring() refuses to parse unicode objects
-            content = content.encode('latin1')
+            # etree.fromstring() refuses to parse unicode objects; the bytes
+            # must be in the encoding declared by the document, if any
+            encoding = re.match(
+                r'<\?xml[^>]*?\sencoding\s*=\s*["\']([\w.-]+)', content)
+            content = content.encode(
+                encoding.group(1) if encoding else 'utf-8')
         try:
             tree = etree.fromstring(content, parser=parser)
         except etree.XMLSyntaxError as exc:
-- 
2.43.0


From 343a1cca89c548d4f3d4545ed2929b534c61f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 55/56] fix: the NRML files with texts which are not ASCII
 could not be converted to CSV

---
 openquake/commonlib/converter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 33bc7b2..af6a75c 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -77,6 +77,17 @@ def check_damping(gmf):
     check_same('saDamping', 5., float(gmf.attrib.get('saDamping', '5')))
 
 
+def utf8_encoded(records):
+    """
+    Encode the unicode strings coming from an XML file, since the records
+    contain UTF8-encoded strings
+    """
+    for rec in records:
+        rec.row = [value.encode('utf-8') if isinstance(value, unicode)
+                   else value for value in rec.row]
+        yield rec
+
+
 class Converter(object):
     """
     Base class.
@@ -96,7 +107,7 @@ class Converter(object):
             clsname = 'GmfCollection'
         convertertype = globals()[clsname]
         tset = record.TableSet(convertertype)
-        tset.insert_all(convertertype.node_to_records(node))
+        tset.insert_all(utf8_encoded(convertertype.node_to_records(node)))
         return convertertype(tset)
 
     @classmethod
-- 
2.43.0


From e165cdb894a558a839e11529ebc14f590ed92ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:42 +0000
Subject: [PATCH 56/56] fix: an invalid number which is not ASCII broke the
 search of the invalid records

---
 openquake/commonlib/record.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 38013cc..c7fe5c8 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -67,6 +67,16 @@ class InvalidRecord(Exception):
         return '\n'.join(msg)
 
 
+def error_message(exc):
+    """
+    The message of an exception, UTF8-encoded if it is a unicode string
+    """
+    try:
+        return str(exc)
+    except UnicodeError:
+        return unicode(exc).encode('utf-8')
+
+
 class ForeignKeyError(Exception):
     pass
 
@@ -308,7 +318,7 @@ class Record(collections.Sequence):
             try:
                 cols.append(field.cast(col))
             except ValueError as e:
-                errs.append((field.name, str(e)))
+                errs.append((field.name, error_message(e)))
         if errs:
             return None, InvalidRecord(self, errs)
         else:
-- 
2.43.0

