From 45df74fb2c32e23adc1facd26832a36f62f1c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 01/21] fix: skip the whole of a deleted record in dbfrecords

The seek to the next record was done after the check for a deleted
record, so following a deleted record, records were read from the wrong
place in the file when only some of the fields were asked for.
---
 channelpack/dbf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 9cd7e25..6edae71 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -127,6 +127,7 @@ def dbfrecords(f, names):
         for field in selfields:
             f.seek(refaddr + field.seekme)
             record.append(struct.unpack(field.fmt, f.read(field.fmtsiz))[0])
+        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
 
         if record[0] != b' ':
             continue                        # deleted record
@@ -159,7 +160,6 @@ def dbfrecords(f, names):
             else:
                 value = value.decode('ascii')  # type = 'C' or other type
             result.append(value)
-        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
         yield result
 
 
-- 
2.43.0


From 8ab84def0d4c1c27e16fcdd809bb359fbacba79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 02/21] fix: keep column keys right with unsorted usecols in
 textpack

Fields are picked from a line in the order they appear, but were paired
with usecols in the order given, so columns ended up with the wrong key
(and name) if usecols was not sorted or had duplicates.
---
 channelpack/readtext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index f593276..55722a3 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -344,6 +344,7 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
 
     if usecols is not None:
         usecols = (usecols,) if type(usecols) is int else usecols
+        usecols = sorted(set(usecols))  # the order fields are read
 
     if names:
         usecols = sorted(names)
-- 
2.43.0


From f5e57fbf1ff9bdd38d5c26595bd2fbedbf9e42b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 03/21] fix: make the mask all True and bool in mask_reset

nan is not equal to itself, so the reset mask was False at any nan in the
array with the lowest key. The mask of an empty pack was an array of
floats.
---
 channelpack/pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index f61ae42..a0ddd5e 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -316,10 +316,10 @@ class ChannelPack(object):
         """
 
         if not self.data:
-            self.mask = np.array([])
+            self.mask = np.array([], dtype=bool)
         else:
             lowest = sorted(self.data)[0]
-            self.mask = self.data[lowest] == self.data[lowest]
+            self.mask = np.ones(len(self.data[lowest]), dtype=bool)
 
     def duration(self, duration, samplerate=1, mindur=True):
         """Require each true part to be at least duration long.
-- 
2.43.0


From 6801ec82612c2104750991ee57a21daeccbf0661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 04/21] fix: leave packs intact and separate in append_pack

Check both dicts before anything is appended, so a ValueError leaves the
pack as it was. Do not share the dicts of other with an empty pack.
---
 channelpack/pack.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index a0ddd5e..8300998 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -288,19 +288,21 @@ class ChannelPack(object):
 
         """
 
-        if not self.data:
-            self.data = other.data
-        elif other.data:
+        if self.data and other.data:
             if not set(self.data.keys()) == set(other.data.keys()):
                 raise ValueError('Data dicts set of keys not equal')
+        if self.names and other.names:
+            if not set(self.names.keys()) == set(other.names.keys()):
+                raise ValueError('names dicts set of keys not equal')
+
+        if not self.data:
+            self.data = NpDict(other.data)
+        elif other.data:
             for key in other.data:
                 self.data[key] = np.append(self.data[key], other.data[key])
 
         if not self.names:
-            self.names = other.names
-        elif other.names:
-            if not set(self.names.keys()) == set(other.names.keys()):
-                raise ValueError('names dicts set of keys not equal')
+            self.names = IntKeyDict(other.names)
 
         self.filenames.extend(other.filenames)
 
-- 
2.43.0


From 6b8ec83370f00645e9a3ca0d68b88a30b32b5a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 05/21] fix: reset the mask also when data is set to a NpDict

Setting data to the data attribute of another pack left a mask of the
wrong size.
---
 channelpack/pack.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 8300998..3962671 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -212,13 +212,12 @@ class ChannelPack(object):
 
         """
         self.FALLBACK_PREFIX = 'ch'
-        self.data = NpDict(data or {})
+        object.__setattr__(self, 'mindur', None)  # consulted with the mask
+        self.data = NpDict(data or {})            # set self.mask
         self.filenames = []
         self.fn = ''             # Possible file name
         self.names = IntKeyDict(names or {})
         self.nof = None
-        self.mindur = None
-        self.mask_reset()       # set self.mask
 
     def __setattr__(self, name, value):
         if name == 'nof' and value not in ChannelPack.nofvalids:
@@ -239,8 +238,10 @@ class ChannelPack(object):
             object.__setattr__(self, name, value)
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-        elif name == 'data' and not isinstance(value, NpDict):
-            object.__setattr__(self, name, NpDict(value))
+        elif name == 'data':
+            if not isinstance(value, NpDict):
+                value = NpDict(value)
+            object.__setattr__(self, name, value)
             self.mask_reset()
         elif name == 'names' and not isinstance(value, IntKeyDict):
             object.__setattr__(self, name, IntKeyDict(value))
-- 
2.43.0


From 91dd9de119c510aaae78ba368e5b280bd5151e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 06/21] fix: let startstop return a bool array also when it is
 empty

---
 channelpack/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 3962671..6da0e2c 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -392,7 +392,8 @@ class ChannelPack(object):
 
         """
 
-        result = np.array(tuple(datautils.startstop_bool(startb, stopb)))
+        result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
+                          dtype=bool)
         if apply:
             self.mask &= result
         return result
-- 
2.43.0


From a10bf35552982101fbbab2b0ee9d9624ebd7baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 07/21] fix: hold the promise of integer keys in all ways to
 update a dict

An iterator of pairs was exhausted by the key check so nothing was
stored, `|=` did not check keys nor convert values, and setdefault did
not return the value.
---
 channelpack/pack.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 6da0e2c..e84f556 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -36,6 +36,8 @@ class IntKeyDict(dict):
 
         elif args and (hasattr(args[0], '__iter__') and not
                        isinstance(args[0], str)):
+            # an iterator can be looped over only once
+            args = (list(args[0]),) + args[1:]
             for seq in args[0]:
                 if hasattr(seq, '__len__') and len(seq) > 2:
                     break       # not our problem
@@ -51,8 +53,12 @@ class IntKeyDict(dict):
 
     def setdefault(self, key, value=None):
         if not isinstance(key, int):
-            raise TypeError(self._key_error_message)
-        super(IntKeyDict, self).setdefault(key, value)
+            raise TypeError(self._key_error_message(key))
+        return super(IntKeyDict, self).setdefault(key, value)
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
 
     def _key_error_message(self, key):
         return 'Only integer keys accepted, got: {}'.format(repr(key))
@@ -123,7 +129,7 @@ class NpDict(IntKeyDict):
     def setdefault(self, key, value=None):
         array = np.array(value, copy=False)
         self._check_raise_ndim(array, value)
-        super(NpDict, self).setdefault(key, array)  # return? FIXME
+        return super(NpDict, self).setdefault(key, array)
 
     def _check_raise_ndim(self, array, value):
         """Check array for ndim == 1 and raise error if fail.
-- 
2.43.0


From 002d54cb4fac94fba31e3269e379ef54f1966ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 08/21] fix: do not mix up channels with fallback strings

A string that only starts like a fallback string ('ch1x') was taken for
one, and records with fallback=True took 'ch1' for the channel that
happens to have the name 'ch1'.
---
 channelpack/pack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index e84f556..d149fa3 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -521,8 +521,9 @@ class ChannelPack(object):
         except ValueError:      # bad names
             raise ValueError('Includes invalid names: {}'.format(names))
 
-        for record in map(Record._make, zip(*[self(name, part=part, nof=nof)
-                                              for name in names])):
+        channels = sorted(self.data) if fallback else names
+        for record in map(Record._make, zip(*[self(ch, part=part, nof=nof)
+                                              for ch in channels])):
             yield record
 
     def _datakey(self, ch):
@@ -559,7 +560,7 @@ class ChannelPack(object):
         # not in data, not a good name in names, last chance is a
         # fallback string
 
-        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)'
+        prefix_rx = re.escape(self.FALLBACK_PREFIX) + r'([0-9]+)\Z'
         m = re.match(prefix_rx, ch)
 
         if m:
-- 
2.43.0


From 05c122a2f2007b778505184f6e3f6b365f3b07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:07 +0000
Subject: [PATCH 09/21] fix: name columns beyond ZZ in colname

xlsx sheets have columns up to XFD, colname raised IndexError at AAA.
---
 channelpack/xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index e26639b..93c094c 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -2104,7 +2104,7 @@ def colname(colx):
         return alphabet[colx]
     else:
         xdiv26, xmod26 = divmod(colx, 26)
-        return alphabet[xdiv26 - 1] + alphabet[xmod26]
+        return colname(xdiv26 - 1) + alphabet[xmod26]
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-- 
2.43.0


From acb1d6cb64459ec165ede1254f122b2dc53d8173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:07 +0000
Subject: [PATCH 10/21] fix: raise the original error with debug in textpack

A failure on the first line of data raised KeyError on the line number
to report, in place of the failure.
---
 channelpack/readtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 55722a3..8f7b88f 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -361,7 +361,7 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
                                 bytehint=bytehint, converters=converters,
                                 stripstrings=stripstrings, hasnames=hasnames)
 
-        debugdict = dict(funcs=next(linetupler))
+        debugdict = dict(funcs=next(linetupler), linum=-1)
 
         if hasnames and usecols is not None:
             for col, name in zip(usecols, next(linetupler)):
-- 
2.43.0


From a44be8e94e2905cde976959196cd1fbcf5a92876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:07 +0000
Subject: [PATCH 11/21] fix: close the file if the sneakread in contextopen
 fails

With the wrong encoding the read can fail, leaving a file behind that was
opened here and not closed.
---
 channelpack/readtext.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 8f7b88f..51fe4ae 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -219,9 +219,13 @@ class contextopen(object):
             except AttributeError:
                 pass
 
-        tell = self.fo.tell()
-        self.bytehint = type(self.fo.read(1)) is bytes
-        self.fo.seek(tell)
+        try:
+            tell = self.fo.tell()
+            self.bytehint = type(self.fo.read(1)) is bytes
+            self.fo.seek(tell)
+        except Exception:
+            self.__exit__(None, None, None)
+            raise
 
     def __enter__(self):
         return self
-- 
2.43.0


From 9596bb6442734797375a4de2dfaf16308dddfe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:38 +0000
Subject: [PATCH 12/21] fix: check the keys and values of any mapping and any
 kind of pairs

Mappings that are not dicts, and pairs that are iterators or sets, are
accepted by dict.update but went past the checks of keys and values.
---
 channelpack/pack.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index d149fa3..9d64566 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -29,15 +29,16 @@ class IntKeyDict(dict):
 
         # only concern about keys being integers, let parent handle
         # other dict violations
-        if args and isinstance(args[0], dict):
-            for key in args[0]:
+        if args and hasattr(args[0], 'keys'):
+            for key in args[0].keys():
                 if not isinstance(key, int):
                     raise TypeError(self._key_error_message(key))
 
         elif args and (hasattr(args[0], '__iter__') and not
                        isinstance(args[0], str)):
-            # an iterator can be looped over only once
-            args = (list(args[0]),) + args[1:]
+            # iterators (args[0] or pairs in it) can be looped over only once
+            args = ([tuple(seq) if hasattr(seq, '__iter__') else seq
+                     for seq in args[0]],) + args[1:]
             for seq in args[0]:
                 if hasattr(seq, '__len__') and len(seq) > 2:
                     break       # not our problem
@@ -87,9 +88,9 @@ class NpDict(IntKeyDict):
         proxyargs = []
         proxykwargs = {}
 
-        if args and isinstance(args[0], dict):
+        if args and hasattr(args[0], 'keys'):
             proxydict = {}
-            for key in args[0]:
+            for key in args[0].keys():
                 array = np.array(args[0][key], copy=False)
                 self._check_raise_ndim(array, args[0][key])
                 proxydict[key] = array
@@ -103,7 +104,8 @@ class NpDict(IntKeyDict):
             proxypairs = []
             # loop over the key, value pairs
             for seq in args[0]:
-                if hasattr(seq, '__getitem__'):
+                seq = tuple(seq) if hasattr(seq, '__iter__') else seq
+                if hasattr(seq, '__getitem__') and len(seq):
                     array = np.array(seq[-1], copy=False)
                     self._check_raise_ndim(array, seq[-1])
                     # let possible invalid length of key, value pairs remain
-- 
2.43.0


From 032e85eb8c38a4d44f4b87902b72fa18f891b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:01 +0000
Subject: [PATCH 13/21] fix: leave the pack intact if arrays cannot be appended

---
 channelpack/pack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 9d64566..09bc0c1 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -307,8 +307,10 @@ class ChannelPack(object):
         if not self.data:
             self.data = NpDict(other.data)
         elif other.data:
-            for key in other.data:
-                self.data[key] = np.append(self.data[key], other.data[key])
+            # any failing append before the first change
+            arrays = {key: np.append(self.data[key], other.data[key])
+                      for key in other.data}
+            self.data.update(arrays)
 
         if not self.names:
             self.names = IntKeyDict(other.names)
-- 
2.43.0


From aaa2860d7d14fa3a09e996ee1d31ae8fc0c647fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:23 +0000
Subject: [PATCH 14/21] fix: read from streams with a file descriptor for a
 name

---
 channelpack/readtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 51fe4ae..a317a77 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -215,7 +215,8 @@ class contextopen(object):
         else:
             self.fo = fname
             try:
-                self.name = fname.name
+                # name is the file descriptor if opened with that
+                self.name = fname.name if type(fname.name) is str else ''
             except AttributeError:
                 pass
 
-- 
2.43.0


From f55da54927c2365104b1c498dd944f4d1edc4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:16 +0000
Subject: [PATCH 15/21] fix: read from the stream position parsed in
 lazy_textpack

The lines to parse were read from the position the stream had, but the data
from the start of the stream with the settings found for that position.
---
 channelpack/readtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index a317a77..fda56f5 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -266,6 +266,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
     encoding = textkwargs.get('encoding', locale.getpreferredencoding())
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
+        tell = fo.tell()
         if context.bytehint:
             derived = preparse([fo.readline().decode(encoding)
                                 for i in range(parselines)])
@@ -277,7 +278,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
                     derived['converters'][key] = _floatit_bytes
         else:
             derived = preparse([fo.readline() for i in range(parselines)])
-        fo.seek(0)
+        fo.seek(tell)
         derived.update(textkwargs)
 
         if 'usecols' in textkwargs and 'names' not in textkwargs:
-- 
2.43.0


From 32e3c602e0805eab0800a1b0409300898f6ac4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:16 +0000
Subject: [PATCH 16/21] fix: let preparse return an empty dict for blank lines

An empty file made lazy_textpack raise IndexError in place of ValueError.
---
 channelpack/readtext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index fda56f5..9441795 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -111,6 +111,9 @@ def preparse(lines, firstfieldrx=r'\w'):
         else:
             break
 
+    if not dresults:            # only blank lines
+        return {}
+
     Triplet = namedtuple('Triplet', ('numcnt', 'sepcnt', 'septypcnt'))
     dcounts = [Triplet(len(tup[0]), len(tup[1]), len(set(tup[1]))) for tup
                in dresults]
-- 
2.43.0


From 01610f1a0a8053c2696529136a9f183f34816ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:16 +0000
Subject: [PATCH 17/21] fix: raise an error for a cyclic chain of short sectors

Reading such a stream never ended.
---
 channelpack/xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 412a89e..0414a18 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -310,6 +310,8 @@ class CompDoc(object):
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
                     self.seen[s] = seen_id
+                elif len(sectors) >= len(sat):
+                    raise CompDocError("%s corruption: sector chain is cyclic" % name)
                 start_pos = base + s * sec_size
                 grab = sec_size
                 if grab > todo:
-- 
2.43.0


From d6c2c77c88578d0500376b1b1fc21e9fa3c063d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:48 +0000
Subject: [PATCH 18/21] fix: skip blank lines of tabs when no delimiter is
 given

---
 channelpack/readtext.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 9441795..0f2f089 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -468,13 +468,13 @@ def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
     def maybenan(s):
         return float(s) if s else np.nan
 
-    # don't strip off tabs or some possible white space delimiter
+    # don't strip off some possible white space delimiter
     if not bytehint:
-        stripchars = string.whitespace.replace(delimiter or '\t', '')
+        stripchars = string.whitespace.replace(delimiter or '', '')
     elif bytehint:
         whites = string.whitespace.encode('ascii')
         # assuming delimiter is bytes or None
-        stripchars = whites.replace(delimiter or b'\t', b'')
+        stripchars = whites.replace(delimiter or b'', b'')
 
     if hasnames:
         fieldnames = [field.strip() for field in
-- 
2.43.0


From 264404cd8a2bbe0324e9d4278052cef588d2a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:31 +0000
Subject: [PATCH 19/21] fix: locate streams of large directories

The mark of a sector in use is the number of its directory entry plus 6,
which did not fit an unsigned byte from entry 250 on: OverflowError.
---
 channelpack/xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 0414a18..e9ab415 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -120,7 +120,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('L', [0]) * mem_data_secs
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From c743f7e54eb725394e227d9120ea378e7b17fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:00 +0000
Subject: [PATCH 20/21] fix: let usecols=None read all columns in lazy_textpack

---
 channelpack/readtext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 0f2f089..828bcbf 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -284,8 +284,8 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
         fo.seek(tell)
         derived.update(textkwargs)
 
-        if 'usecols' in textkwargs and 'names' not in textkwargs:
-            usecols = textkwargs['usecols']
+        usecols = textkwargs.get('usecols')
+        if usecols is not None and 'names' not in textkwargs:
             usecols = (usecols,) if type(usecols) is int else usecols
             for key in list(derived.get('names', {})):  # no names no loop
                 if key not in usecols:
-- 
2.43.0


From e307ff6efa9d4ccf54bdd2d87be35e16b363cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:00 +0000
Subject: [PATCH 21/21] fix: let encoding=None mean the default in
 lazy_textpack

---
 channelpack/readtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 828bcbf..bcdbc20 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -266,7 +266,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
         keyword arguments if duplicated.
 
     """
-    encoding = textkwargs.get('encoding', locale.getpreferredencoding())
+    encoding = textkwargs.get('encoding') or locale.getpreferredencoding()
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
         tell = fo.tell()
-- 
2.43.0

