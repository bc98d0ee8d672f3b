From 29809f15318ceab14f8143c28f4635d0d298e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 01/61] fix: cell_xf_index ignored row and column defaults for
 negative indexes

---
 xlrd/sheet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index a831398..0474021 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -439,6 +439,11 @@ class Sheet(BaseObject):
         if xfx > -1:
             self._xf_index_stats[0] += 1
             return xfx
+        # rowinfo_map and colinfo_map are keyed on non-negative indexes
+        if rowx < 0:
+            rowx += len(self._cell_xf_indexes)
+        if colx < 0:
+            colx += len(self._cell_xf_indexes[rowx])
         # Check for a row xf_index
         try:
             xfx = self.rowinfo_map[rowx].xf_index
-- 
2.43.0


From 5559eb78f4d1a177e1e39579ae238fdccdf8e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 02/61] fix: open_workbook did not expand ~ in the path it
 opens

---
 xlrd/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 84d5f26..b05f7c2 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -163,6 +163,9 @@ def open_workbook(filename=None,
     :returns: An instance of the :class:`~xlrd.book.Book` class.
     """
 
+    if not file_contents:
+        filename = os.path.expanduser(filename)
+
     file_format = inspect_format(filename, file_contents)
     # We have to let unknown file formats pass through here, as some ancient
     # files that xlrd can parse don't start with the expected signature.
-- 
2.43.0


From a19e45ddaf3c947d6bb518974fd8586c7dc7c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 03/61] fix: BIFF4W sheets after the first could not have a
 palette of their own

---
 xlrd/book.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/book.py b/xlrd/book.py
index 6876a3e..55b98f2 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1145,6 +1145,8 @@ class Book(BaseObject):
         posn = BOF_posn - 4 - len(data)
         if DEBUG: fprintf(self.logfile, 'SHEETHDR %d at posn %d: len=%d name=%r\n', sheetno, posn, sheet_len, sheet_name)
         self.initialise_format_info()
+        self.palette_record = []
+        formatting.initialise_colour_map(self)
         if DEBUG: print('SHEETHDR: xf epilogue flag is %d' % self._xf_epilogue_done, file=self.logfile)
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheet(sheetno, update_pos=False)
-- 
2.43.0


From 917212f58123f7b42d5bbeb67bafd90f634c4370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 04/61] fix: a cyclic short-sector chain in an OLE2 file made
 opening it loop for ever

---
 xlrd/compdoc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 412a89e..960f8df 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -310,6 +310,9 @@ class CompDoc(object):
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
                     self.seen[s] = seen_id
+                if len(sectors) >= len(sat):
+                    raise CompDocError(
+                        "OLE2 stream %r: sector chain is cyclic" % (name, ))
                 start_pos = base + s * sec_size
                 grab = sec_size
                 if grab > todo:
-- 
2.43.0


From 83fc41a8f7eaad5a12f876d0f6edf4d4651f1922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 05/61] fix: OLE2 stream with sectors beyond the end of its
 container was cut short without a warning

---
 xlrd/compdoc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 960f8df..d099593 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -331,6 +331,10 @@ class CompDoc(object):
                 fprintf(self.logfile,
                     "WARNING *** OLE2 stream %r: expected size %d, actual size %d\n",
                     name, size, size - todo)
+            elif sum(len(sector) for sector in sectors) != size:
+                fprintf(self.logfile,
+                    "WARNING *** OLE2 stream %r: expected size %d, but some of its sectors are not in the file\n",
+                    name, size)
 
         return b''.join(sectors)
 
-- 
2.43.0


From 5e8d94ca5e0b483190df27ab26bbd167a7b6d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 06/61] fix: OLE2 stream with a negative size was presented as
 part of the short-stream container

---
 xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index d099593..fd9cbaf 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -304,6 +304,8 @@ class CompDoc(object):
                     )
             assert s == EOCSID
         else:
+            if size < 0:
+                raise CompDocError("OLE2 stream %r: invalid size (%d)" % (name, size))
             todo = size
             while s >= 0:
                 if seen_id is not None:
-- 
2.43.0


From 266e154e36885107d7868f79aa24ec307ec90ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 07/61] fix: OLE2 stream whose directory entry is number 250 or
 more raised OverflowError

---
 xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index fd9cbaf..0e486f0 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -120,7 +120,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('i', [0]) * mem_data_secs
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From d6c0410b659e95e33ce2a329a31db96b66500b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:30 +0000
Subject: [PATCH 08/61] fix: OLE2 directory entries linked to from several
 places took exponential time to read

---
 xlrd/compdoc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 0e486f0..261b872 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -63,9 +63,12 @@ class DirNode(object):
 
 def _build_family_tree(dirlist, parent_DID, child_DID):
     if child_DID < 0: return
+    if child_DID == 0 or dirlist[child_DID].parent != -1:
+        raise CompDocError(
+            "OLE2 directory corruption: entry %d is linked to more than once" % child_DID)
+    dirlist[child_DID].parent = parent_DID
     _build_family_tree(dirlist, parent_DID, dirlist[child_DID].left_DID)
     dirlist[parent_DID].children.append(child_DID)
-    dirlist[child_DID].parent = parent_DID
     _build_family_tree(dirlist, parent_DID, dirlist[child_DID].right_DID)
     if dirlist[child_DID].etype == 1: # storage
         _build_family_tree(dirlist, child_DID, dirlist[child_DID].root_DID)
-- 
2.43.0


From 6e2bb3208de4fcc5b0a6d7d5c8b904683ac23ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 09/61] fix: surrogate pair split between SST and CONTINUE
 records made the workbook unreadable

---
 xlrd/book.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 55b98f2..f0029f7 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1415,7 +1415,7 @@ def unpack_SST_table(datatab, nstrings):
         if options & 0x04: # phonetic
             phosz = local_unpack('<i', data[pos:pos+4])[0]
             pos += 4
-        accstrg = UNICODE_LITERAL('')
+        accraw = b'' # UTF-16; a surrogate pair may be split between records
         charsgot = 0
         while 1:
             charsneed = nchars - charsgot
@@ -1424,22 +1424,14 @@ def unpack_SST_table(datatab, nstrings):
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
                 rawstrg = data[pos:pos+2*charsavail]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                try:
-                    accstrg += unicode(rawstrg, "utf_16_le")
-                except:
-                    # print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                    # Probable cause: dodgy data e.g. unfinished surrogate pair.
-                    # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
-                    # unichr(i) for i in range(0x100000)
-                    # so this will include 0xD800 etc
-                    raise
+                accraw += rawstrg
                 pos += 2*charsavail
             else:
                 # Note: this is COMPRESSED (not ASCII!) encoding!!!
                 charsavail = local_min(datalen - pos, charsneed)
                 rawstrg = data[pos:pos+charsavail]
                 # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                accraw += unicode(rawstrg, latin_1).encode("utf_16_le")
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
@@ -1472,5 +1464,9 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
-        strappend(accstrg)
+        # A failure here is probably caused by dodgy data e.g. unfinished surrogate pair.
+        # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
+        # unichr(i) for i in range(0x100000)
+        # so this will include 0xD800 etc
+        strappend(unicode(accraw, "utf_16_le"))
     return strings, richtext_runs
-- 
2.43.0


From c942d6e97b68aec8170469444203302c24b4296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 10/61] fix: phonetic data spanning several CONTINUE records
 misread the following shared strings

---
 xlrd/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index f0029f7..eb68ce7 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1455,7 +1455,7 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
+        while pos >= datalen:
             # adjust to correct position in next record
             pos = pos - datalen
             datainx += 1
@@ -1464,6 +1464,7 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         # A failure here is probably caused by dodgy data e.g. unfinished surrogate pair.
         # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
         # unichr(i) for i in range(0x100000)
-- 
2.43.0


From bb10482593308063db600cb2f032bdb070010eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 11/61] fix: formula strings with non-BMP or multi-byte
 characters made the workbook unreadable

---
 xlrd/sheet.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 0474021..3dbc4d9 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1520,18 +1520,26 @@ class Sheet(BaseObject):
         offset = lenlen
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
+        else:
+            enc = "utf_16_le"
         nchars_found = 0
-        result = UNICODE_LITERAL("")
+        result = b''
         while 1:
+            # The count is of UTF-16 code units (BIFF8) or bytes, and a
+            # character may be split between records.
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
-                enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
-            chunk = unicode(data[offset:], enc)
+                chunk = data[offset:]
+                if not flag:
+                    chunk = unicode(chunk, "latin_1").encode(enc)
+                nchars_found += len(chunk) // 2
+            else:
+                chunk = data[offset:]
+                nchars_found += len(chunk)
             result += chunk
-            nchars_found += len(chunk)
             if nchars_found == nchars_expected:
-                return result
+                return unicode(result, enc)
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
-- 
2.43.0


From b0ea6c6b83d5e06016af77c31c09e6bd12174499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 12/61] fix: surrogate pair split between the CONTINUE records
 of a note's text made the workbook unreadable

---
 xlrd/sheet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 3dbc4d9..f68cb2e 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -2040,7 +2040,7 @@ class Sheet(BaseObject):
             (15, 0x8000, 'secret_edit'),
         ))
         totchars = 0
-        o.text = UNICODE_LITERAL('')
+        rawtext = b'' # UTF-16; a surrogate pair may be split between records
         while totchars < cchText:
             rc2, data2_len, data2 = self.book.get_record_parts()
             assert rc2 == XL_CONTINUE
@@ -2051,10 +2051,11 @@ class Sheet(BaseObject):
             if nb:
                 assert nchars % 2 == 0
                 nchars //= 2
-            utext, endpos = unpack_unicode_update_pos(data2, 0, known_len=nchars)
-            assert endpos == data2_len
-            o.text += utext
+                rawtext += data2[1:]
+            else:
+                rawtext += unicode(data2[1:], "latin_1").encode("utf_16_le")
             totchars += nchars
+        o.text = unicode(rawtext, "utf_16_le")
         o.rich_text_runlist = []
         totruns = 0
         while totruns < cbRuns: # counts of BYTES, not runs
-- 
2.43.0


From cd98fb6709d78a3853ee70d0239a859c46238792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 13/61] fix: short array formula in a BIFF3 or BIFF4 file made
 the worksheet unreadable

---
 xlrd/sheet.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index f68cb2e..e8860e4 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -959,9 +959,10 @@ class Sheet(BaseObject):
                             if rc2 == XL_STRING or rc2 == XL_STRING_B2:
                                 gotstring = 1
                             elif rc2 == XL_ARRAY:
-                                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                                    local_unpack("<HHBBBxxxxxH", data2[:14])
+                                # Note: this layout is that of BIFF5 and later
                                 if blah_formulas:
+                                    row1x, rownx, col1x, colnx, array_flags, tokslen = \
+                                        local_unpack("<HHBBBxxxxxH", data2[:14])
                                     fprintf(self.logfile, "ARRAY: %d %d %d %d %d\n",
                                         row1x, rownx, col1x, colnx, array_flags)
                                     # dump_formula(bk, data2[14:], tokslen, bv, reldelta=0, blah=1)
@@ -1154,9 +1155,10 @@ class Sheet(BaseObject):
                 )
                 assert pos == data_len
             elif rc == XL_ARRAY:
-                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                    local_unpack("<HHBBBxxxxxH", data[:14])
+                # Note: this layout is that of BIFF5 and later
                 if blah_formulas:
+                    row1x, rownx, col1x, colnx, array_flags, tokslen = \
+                        local_unpack("<HHBBBxxxxxH", data[:14])
                     print("ARRAY:", row1x, rownx, col1x, colnx, array_flags, file=self.logfile)
                     # dump_formula(bk, data[14:], tokslen, bv, reldelta=0, blah=1)
             elif rc == XL_SHRFMLA:
-- 
2.43.0


From f3a085fc698f13e3801cf3e544c5dd0f80ea1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:08 +0000
Subject: [PATCH 14/61] fix: numbers with formats like [h], [mm] or s.00 were
 not reported as dates

---
 xlrd/formatting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index ca637b8..7313506 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -452,7 +452,9 @@ non_date_formats = {
     UNICODE_LITERAL('@')       :1,
 }
 
-fmt_bracketed_sub = re.compile(r'\[[^]]*\]').sub
+# Elapsed time ([h], [mm], [ss] ...) is not like other [stuff]; it makes a date.
+fmt_bracketed_sub = re.compile(r'\[(?!(?:h+|m+|s+)\])[^]]*\]', re.IGNORECASE).sub
+fmt_fraction_sub = re.compile(r'(s\]?)\.0+', re.IGNORECASE).sub
 
 # Boolean format strings (actual cases)
 # '"Yes";"Yes";"No"'
@@ -492,6 +494,8 @@ def is_date_format_string(book, fmt):
     if book.verbosity >= 4:
         print("is_date_format_string: reduced format is %s" % REPR(s), file=book.logfile)
     s = fmt_bracketed_sub('', s)
+    # The zeros in ss.00 are fractions of seconds, not number placeholders.
+    s = fmt_fraction_sub(r'\1', s)
     if s in non_date_formats:
         return False
     state = 0
-- 
2.43.0


From d8b40c5266aa50cd09d74dc3d41da13461f1bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 15/61] fix: user name of a BIFF2-4 file without text or
 CODEPAGE was left as undecoded bytes

---
 xlrd/book.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/book.py b/xlrd/book.py
index eb68ce7..d0a8185 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -729,6 +729,8 @@ class Book(BaseObject):
         self._sheet_visibility = [0] # one sheet, visible
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheets()
+        if not self.encoding:
+            self.derive_encoding() # the user name may still be undecoded
 
     def handle_boundsheet(self, data):
         # DEBUG = 1
-- 
2.43.0


From f54d4177b4706e11e5daa4f163a7c573ad83d5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 16/61] fix: computed_column_width ignored the COLWIDTH records
 of BIFF2 files

---
 xlrd/sheet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index e8860e4..d7c895d 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1753,6 +1753,10 @@ class Sheet(BaseObject):
             colinfo = self.colinfo_map.get(colx, None)
             if colinfo is not None:
                 return colinfo.width
+        else: # BIFF2: the Colinfo may come from a COLUMNDEFAULT record only
+            colinfo = self.colinfo_map.get(colx, None)
+            if colinfo is not None and 'width' in vars(colinfo):
+                return colinfo.width
         # All roads lead to Rome and the DEFCOLWIDTH ...
         if self.defcolwidth is not None:
             return self.defcolwidth * 256
-- 
2.43.0


From f419203c706eaacf0a17b2e42480ab2ca4f92a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 17/61] fix: default row height of BIFF2 files was not
 extracted

---
 xlrd/biffh.py | 1 +
 xlrd/sheet.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/xlrd/biffh.py b/xlrd/biffh.py
index 07ac629..ece041b 100644
--- a/xlrd/biffh.py
+++ b/xlrd/biffh.py
@@ -129,6 +129,7 @@ XL_CONTINUE = 0x3c
 XL_COUNTRY = 0x8C
 XL_DATEMODE = 0x22
 XL_DEFAULTROWHEIGHT = 0x0225
+XL_DEFAULTROWHEIGHT_B2 = 0x25 # BIFF2 only
 XL_DEFCOLWIDTH = 0x55
 XL_DIMENSION = 0x200
 XL_DIMENSION2 = 0x0
diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index d7c895d..687ef6d 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1491,6 +1491,8 @@ class Sheet(BaseObject):
                             c = Colinfo()
                             self.colinfo_map[colx] = c
                         c.xf_index = xf_index
+                elif rc == XL_DEFAULTROWHEIGHT_B2: # BIFF2 only
+                    self.default_row_height = local_unpack("<H", data[:2])[0] & 0x7FFF
                 elif rc == XL_WINDOW2_B2: # BIFF 2 only
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
-- 
2.43.0


From 1c2d6d94eb327e9b3cd0d34f360549d9239a4821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 18/61] fix: WINDOW2 options of BIFF2 files were all reported
 as set on Python 3

---
 xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 687ef6d..176ed8a 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1497,7 +1497,7 @@ class Sheet(BaseObject):
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
                     for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                        setattr(self, attr, int(BYTES_ORD(char) != 0))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From e5d03a49c2b286cbf393133dbfe90155e77250b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:31 +0000
Subject: [PATCH 19/61] fix: URL of a hyperlink with characters outside the BMP
 made the workbook unreadable

---
 xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 176ed8a..d8fcab4 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1804,7 +1804,7 @@ class Sheet(BaseObject):
                 endpos = h.url_or_path.find('\x00')
                 if DEBUG: print("endpos=%d" % endpos, file=self.logfile)
                 h.url_or_path = h.url_or_path[:endpos]
-                true_nbytes = 2 * (endpos + 1)
+                true_nbytes = len(h.url_or_path.encode('UTF-16le')) + 2
                 offset += true_nbytes
                 extra_nbytes = nbytes - true_nbytes
                 extra_data = data[offset:offset + extra_nbytes]
-- 
2.43.0


From 4d55f514baf6a7ea85328376fc3f330c2f99d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 20/61] fix: a chart or macro sheet in a BIFF4W workbook made
 the workbook unreadable

---
 xlrd/book.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index d0a8185..35a0f53 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1142,10 +1142,20 @@ class Book(BaseObject):
         sheet_name = unpack_string(data, 4, self.encoding, lenlen=1)
         sheetno = self._sheethdr_count
         assert sheet_name == self._sheet_names[sheetno]
-        self._sheethdr_count += 1
         BOF_posn = self._position
         posn = BOF_posn - 4 - len(data)
         if DEBUG: fprintf(self.logfile, 'SHEETHDR %d at posn %d: len=%d name=%r\n', sheetno, posn, sheet_len, sheet_name)
+        bof_opcode, _unused_len, bof_data = self.get_record_parts()
+        self._position = BOF_posn
+        if bof_opcode in bofcodes and bof_data[2:4] in (b"\x20\x00", b"\x40\x00"):
+            # a chart or a macro sheet, not a worksheet
+            for alist in (self._sheet_names, self._sh_abs_posn, self._sheet_visibility):
+                del alist[sheetno]
+            if self.verbosity >= 1:
+                fprintf(self.logfile, "NOTE *** Ignoring non-worksheet data named %r\n", sheet_name)
+            self._position = BOF_posn + sheet_len
+            return
+        self._sheethdr_count += 1
         self.initialise_format_info()
         self.palette_record = []
         formatting.initialise_colour_map(self)
-- 
2.43.0


From 020cf77772a956a3a5539d2e29215f01d5404bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:13 +0000
Subject: [PATCH 21/61] fix: dump and count_records looked beyond the end of a
 workbook stream read in place in an OLE2 file

---
 xlrd/biffh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xlrd/biffh.py b/xlrd/biffh.py
index ece041b..3fded75 100644
--- a/xlrd/biffh.py
+++ b/xlrd/biffh.py
@@ -560,7 +560,7 @@ def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbere
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if mem[pos:stream_end] == b'\0' * (stream_end - pos):
                 dummies = stream_end - pos
                 savpos = pos
                 pos = stream_end
@@ -582,7 +582,7 @@ def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbere
                 num_prefix = "%5d: " % (adj + pos)
             fprintf(fout, "%s%04x %s len = %04x (%d)\n", num_prefix, rc, recname, length, length)
             pos += 4
-            hex_char_dump(mem, pos, length, adj+pos, fout, unnumbered)
+            hex_char_dump(mem, pos, min(length, stream_end - pos), adj+pos, fout, unnumbered)
             pos += length
     if dummies:
         if numbered:
@@ -603,7 +603,7 @@ def biff_count_records(mem, stream_offset, stream_len, fout=sys.stdout):
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if mem[pos:stream_end] == b'\0' * (stream_end - pos):
                 break
             recname = "<Dummy (zero)>"
         else:
-- 
2.43.0


From f1833ae0c64ba6030de8809628535eae206be96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:04 +0000
Subject: [PATCH 22/61] fix: constant expressions in names that evaluate to an
 error

A defined name such as =1/0, ="abc"+1, ="a"<1, =-"abc" or =10^999 made the
whole workbook unreadable (ZeroDivisionError, ValueError, TypeError ...).
Leave the value unknown when the result is an error, compare text as Excel
does, and don't give the unary operators' result the wrong kind or value.
---
 xlrd/formula.py | 61 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 00e4464..2feb258 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -12,6 +12,7 @@ from __future__ import print_function
 
 import copy
 import operator as opr
+import re
 from struct import unpack
 
 from .biffh import (
@@ -700,7 +701,10 @@ tLT, tLE, tEQ, tGE, tGT, tNE = range(0x09, 0x0F)
 def nop(x):
     return x
 
-def _opr_pow(x, y): return x ** y
+def _opr_pow(x, y):
+    if x == y == 0 or x < 0 and y != int(y):
+        raise ValueError("not a real number: %r ** %r" % (x, y))
+    return x ** y
 
 def _opr_lt(x, y): return x <  y
 def _opr_le(x, y): return x <= y
@@ -713,14 +717,29 @@ def num2strg(num):
     """
     Attempt to emulate Excel's default conversion from number to string.
     """
-    s = str(num)
-    if s.endswith(".0"):
-        s = s[:-2]
-    return s
-
-_arith_argdict = {oNUM: nop,     oSTRG: float}
-_cmp_argdict =   {oNUM: nop,     oSTRG: nop}
-# Seems no conversions done on relops; in Excel, "1" > 9 produces TRUE.
+    # 15 significant digits; adding zero turns -0.0 into 0.0
+    return ("%.15g" % (num + 0.0)).replace("e", "E")
+
+_numeric_strg_match = re.compile(
+    r"[ ]*[-+]?([0-9]+[.]?[0-9]*|[.][0-9]+)([eE][-+]?[0-9]+)?[ ]*$"
+).match
+
+def strg2num(strg):
+    """
+    Convert text to a number, accepting less than ``float()`` does
+    ('nan', 'infinity' and '1_0' are not numbers to Excel).
+    """
+    if not _numeric_strg_match(strg):
+        raise ValueError("not a number: %r" % strg)
+    return float(strg)
+
+def _cmp_num(num): return (0, num)
+def _cmp_strg(strg): return (1, strg.lower())
+
+_arith_argdict = {oNUM: nop,     oSTRG: strg2num}
+# No conversions done on relops; in Excel, any text is greater than any
+# number ("1" > 9 produces TRUE), and text is compared ignoring case.
+_cmp_argdict =   {oNUM: _cmp_num, oSTRG: _cmp_strg}
 _strg_argdict =  {oNUM:num2strg, oSTRG:nop}
 binop_rules = {
     tAdd:   (_arith_argdict, oNUM, opr.add,  30, '+'),
@@ -796,13 +815,18 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         if bop.value is None or aop.value is None:
             stk.append(resop)
             return
-        bval = bconv(bop.value)
-        aval = aconv(aop.value)
-        result = func(aval, bval)
+        stk.append(resop)
+        try:
+            result = func(aconv(aop.value), bconv(bop.value))
+        except (ArithmeticError, ValueError):
+            # the result is an error value, e.g. 1/0 or "abc"+1
+            return
         if result_kind == oBOOL:
             result = 1 if result else 0
+        elif result_kind == oNUM and result - result != 0:
+            # overflow
+            return
         resop.value = result
-        stk.append(resop)
 
     def do_unaryop(opcode, result_kind, stk):
         assert len(stk) >= 1
@@ -817,7 +841,16 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             sym2,
         ])
         if val is not None:
-            val = func(val)
+            if aop.kind == oNUM:
+                val = func(val)
+            elif aop.kind in (oBOOL, oSTRG) and opcode != 0x12:
+                try:
+                    val = func(strg2num(val) if aop.kind == oSTRG else float(val))
+                except ValueError:
+                    val = None
+            else:
+                # error value or reference; unary plus doesn't convert
+                val = None
         stk.append(Operand(result_kind, val, rank, otext))
 
     def not_in_name_formula(op_arg, oname_arg):
-- 
2.43.0


From 45d149c684650732a7904beef210efeda2925b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:24 +0000
Subject: [PATCH 23/61] fix: functions called without arguments, CHOOSE and
 unknown functions in names

ROW(), SUM() etc. took the whole stack as their arguments, so that a name
such as =1+ROW() made the workbook unreadable, as did CHOOSE with an index
that isn't constant and FIXED with one argument. An unknown function left
its arguments on the stack.
---
 xlrd/formula.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 2feb258..bc4f447 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -765,6 +765,13 @@ unop_rules = {
 LEAF_RANK = 90
 FUNC_RANK = 90
 
+def pop_args(stack, nargs):
+    assert len(stack) >= nargs
+    pos = len(stack) - nargs
+    args = stack[pos:]
+    del stack[pos:]
+    return args
+
 STACK_ALARM_LEVEL = 5
 STACK_PANIC_LEVEL = 10
 
@@ -1109,20 +1116,22 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             if not func_attrs:
                 print("*** formula/tFuncVar unknown FuncID:%d"
                       % funcx, file=bk.logfile)
+                pop_args(stack, nargs)
                 spush(unk_opnd)
             else:
                 func_name, minargs, maxargs = func_attrs[:3]
                 if blah:
                     print("    name: %r, min~max args: %d~%d"
                         % (func_name, minargs, maxargs), file=bk.logfile)
-                assert minargs <= nargs <= maxargs
-                assert len(stack) >= nargs
-                assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                args = pop_args(stack, nargs)
+                argtext = listsep.join(arg.text for arg in args)
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
-                if funcx == 1: # IF
-                    testarg = stack[-nargs]
+                if not minargs <= nargs <= maxargs:
+                    if blah:
+                        print("    unexpected number of args", file=bk.logfile)
+                elif funcx == 1: # IF
+                    testarg = args[0]
                     if testarg.kind not in (oNUM, oBOOL):
                         if blah and testarg.kind != oUNK:
                             print("IF testarg kind?", file=bk.logfile)
@@ -1134,8 +1143,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             # IF(FALSE, tv) => FALSE
                             res.kind, res.value = oBOOL, 0
                         else:
-                            respos = -nargs + 2 - int(testarg.value)
-                            chosen = stack[respos]
+                            chosen = args[2 - int(testarg.value)]
                             if chosen.kind == oMSNG:
                                 res.kind, res.value = oNUM, 0
                             else:
@@ -1143,15 +1151,14 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                         if blah:
                             print("$$$$$$ IF => constant", file=bk.logfile)
                 elif funcx == 100: # CHOOSE
-                    testarg = stack[-nargs]
-                    if testarg.kind == oNUM:
+                    testarg = args[0]
+                    if testarg.kind == oNUM and testarg.value is not None:
                         if 1 <= testarg.value < nargs:
-                            chosen = stack[-nargs + int(testarg.value)]
+                            chosen = args[int(testarg.value)]
                             if chosen.kind == oMSNG:
                                 res.kind, res.value = oNUM, 0
                             else:
                                 res.kind, res.value = chosen.kind, chosen.value
-                del stack[-nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
@@ -1680,19 +1687,16 @@ def decompile_formula(bk, fmla, fmlalen,
             if not func_attrs:
                 print("*** formula/tFuncVar unknown FuncID:%d"
                       % funcx, file=bk.logfile)
+                pop_args(stack, nargs)
                 spush(unk_opnd)
             else:
                 func_name, minargs, maxargs = func_attrs[:3]
                 if blah:
                     print("    name: %r, min~max args: %d~%d"
                         % (func_name, minargs, maxargs), file=bk.logfile)
-                assert minargs <= nargs <= maxargs
-                assert len(stack) >= nargs
-                assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                argtext = listsep.join(arg.text for arg in pop_args(stack, nargs))
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
-                del stack[-nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
-- 
2.43.0


From 80bfc8845ccddb641310bfde2933e10937d18bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 24/61] fix: reference operators on lists and on areas that
 don't intersect

An intersection or range of reference lists, or a list whose second member
is a list, made the workbook unreadable (AssertionError). The intersection
of disjoint areas is #NULL!, not an inside-out area.
---
 xlrd/formula.py | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index bc4f447..3615182 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -406,6 +406,14 @@ def do_box_funcs(box_funcs, boxa, boxb):
         for func, numa, numb in zip(box_funcs, boxa.coords, boxb.coords)
     )
 
+def is_single_ref(opnd):
+    return opnd.value is not None and len(opnd.value) == 1
+
+def is_empty_box(coords):
+    return not (coords[0] < coords[1]
+                and coords[2] < coords[3]
+                and coords[4] < coords[5])
+
 def adjust_cell_addr_biff8(rowval, colval, reldelta, browx=None, bcolx=None):
     row_rel = (colval >> 15) & 1
     col_rel = (colval >> 14) & 1
@@ -910,8 +918,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     bop.text,
                     ')'[:bop.rank < rank],
                 ])
-                res = Operand(oREF)
-                res.text = otext
+                res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oUNK or aop.kind == oUNK:
@@ -923,22 +930,25 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     # res.kind = oREF
                     pass
                 elif bop.kind == oREF == aop.kind:
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if is_single_ref(aop) and is_single_ref(bop):
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
-                        res.value = [Ref3D(coords)]
+                        if is_empty_box(coords):
+                            res.kind, res.value = oERR, 0x00 # #NULL!
+                        else:
+                            res.value = [Ref3D(coords)]
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if is_single_ref(aop) and is_single_ref(bop):
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
                         relfb = bop.value[0].relflags
-                        if relfa == relfb:
+                        if relfa != relfb:
+                            pass
+                        elif is_empty_box(coords):
+                            res.kind, res.value = oERR, 0x00 # #NULL!
+                        else:
                             res.value = [Ref3D(coords + relfa)]
                 else:
                     pass
@@ -968,8 +978,6 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if aop.kind == oREL or bop.kind == oREL:
                         res.kind = oREL
                     if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) >= 1
-                        assert len(bop.value) == 1
                         res.value = aop.value + bop.value
                 else:
                     pass
@@ -995,17 +1003,13 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if is_single_ref(aop) and is_single_ref(bop):
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         res.value = [Ref3D(coords)]
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if is_single_ref(aop) and is_single_ref(bop):
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
@@ -1512,8 +1516,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     bop.text,
                     ')'[:bop.rank < rank],
                 ])
-                res = Operand(oREF)
-                res.text = otext
+                res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oUNK or aop.kind == oUNK:
-- 
2.43.0


From 4cb4415a17869008116dd119c88ff50526320240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:15 +0000
Subject: [PATCH 25/61] fix: parentheses in reconstituted formula text

1-(2-3) was shown as 1-2-3, SUM((A,B),C) as SUM(A,B,C), and mixed range,
intersection and list operators without the parentheses they need: all the
binary operators are left-associative, range binds tighter than
intersection and intersection tighter than list.
---
 xlrd/formula.py | 131 +++++++++++++++---------------------------------
 1 file changed, 41 insertions(+), 90 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 3615182..ed861d5 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -772,6 +772,27 @@ unop_rules = {
 
 LEAF_RANK = 90
 FUNC_RANK = 90
+RANGE_RANK = 84
+ISECT_RANK = 82
+# Although the list operator binds tighter than the unary and binary
+# operators, a list is parenthesised when it is an operand of anything
+# but another list, because the comma also separates function arguments.
+LIST_RANK = 5
+
+def paren_text(opnd, cond):
+    return '(' + opnd.text + ')' if cond else opnd.text
+
+def infix_text(aop, bop, rank, sym):
+    # All binary operators are left-associative.
+    return (paren_text(aop, aop.rank < rank) + sym
+            + paren_text(bop, bop.rank <= rank))
+
+def list_text(aop, bop):
+    return (paren_text(aop, aop.rank < ISECT_RANK and aop.rank != LIST_RANK)
+            + ',' + paren_text(bop, bop.rank < ISECT_RANK))
+
+def args_text(args):
+    return listsep.join(paren_text(arg, arg.rank == LIST_RANK) for arg in args)
 
 def pop_args(stack, nargs):
     assert len(stack) >= nargs
@@ -811,15 +832,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         bop = stk.pop()
         aop = stk.pop()
         argdict, result_kind, func, rank, sym = binop_rules[opcd]
-        otext = ''.join([
-            '('[:aop.rank < rank],
-            aop.text,
-            ')'[:aop.rank < rank],
-            sym,
-            '('[:bop.rank < rank],
-            bop.text,
-            ')'[:bop.rank < rank],
-        ])
+        otext = infix_text(aop, bop, rank, sym)
         resop = Operand(result_kind, None, rank, otext)
         try:
             bconv = argdict[bop.kind]
@@ -907,17 +920,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(stack) >= 2
                 bop = stack.pop()
                 aop = stack.pop()
-                sym = ' '
-                rank = 80 ########## check #######
-                otext = ''.join([
-                    '('[:aop.rank < rank],
-                    aop.text,
-                    ')'[:aop.rank < rank],
-                    sym,
-                    '('[:bop.rank < rank],
-                    bop.text,
-                    ')'[:bop.rank < rank],
-                ])
+                rank = ISECT_RANK
+                otext = infix_text(aop, bop, rank, ' ')
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
@@ -959,17 +963,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(stack) >= 2
                 bop = stack.pop()
                 aop = stack.pop()
-                sym = ','
-                rank = 80 ########## check #######
-                otext = ''.join([
-                    '('[:aop.rank < rank],
-                    aop.text,
-                    ')'[:aop.rank < rank],
-                    sym,
-                    '('[:bop.rank < rank],
-                    bop.text,
-                    ')'[:bop.rank < rank],
-                ])
+                rank = LIST_RANK
+                otext = list_text(aop, bop)
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
@@ -988,17 +983,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(stack) >= 2
                 bop = stack.pop()
                 aop = stack.pop()
-                sym = ':'
-                rank = 80 ########## check #######
-                otext = ''.join([
-                    '('[:aop.rank < rank],
-                    aop.text,
-                    ')'[:aop.rank < rank],
-                    sym,
-                    '('[:bop.rank < rank],
-                    bop.text,
-                    ')'[:bop.rank < rank],
-                ])
+                rank = RANGE_RANK
+                otext = infix_text(aop, bop, rank, ':')
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
@@ -1053,7 +1039,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
-                    otext = 'SUM(%s)' % aop.text
+                    otext = 'SUM(%s)' % args_text([aop])
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
                     sz = 4
@@ -1101,7 +1087,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                           % (funcx, func_name, nargs), file=bk.logfile)
                 assert len(stack) >= nargs
                 if nargs:
-                    argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                    argtext = args_text(stack[-nargs:])
                     otext = "%s(%s)" % (func_name, argtext)
                     del stack[-nargs:]
                 else:
@@ -1128,7 +1114,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     print("    name: %r, min~max args: %d~%d"
                         % (func_name, minargs, maxargs), file=bk.logfile)
                 args = pop_args(stack, nargs)
-                argtext = listsep.join(arg.text for arg in args)
+                argtext = args_text(args)
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if not minargs <= nargs <= maxargs:
@@ -1429,15 +1415,7 @@ def decompile_formula(bk, fmla, fmlalen,
         bop = stk.pop()
         aop = stk.pop()
         argdict, result_kind, func, rank, sym = binop_rules[opcd]
-        otext = ''.join([
-            '('[:aop.rank < rank],
-            aop.text,
-            ')'[:aop.rank < rank],
-            sym,
-            '('[:bop.rank < rank],
-            bop.text,
-            ')'[:bop.rank < rank],
-        ])
+        otext = infix_text(aop, bop, rank, sym)
         resop = Operand(result_kind, None, rank, otext)
         stk.append(resop)
 
@@ -1505,17 +1483,8 @@ def decompile_formula(bk, fmla, fmlalen,
                 assert len(stack) >= 2
                 bop = stack.pop()
                 aop = stack.pop()
-                sym = ' '
-                rank = 80 ########## check #######
-                otext = ''.join([
-                    '('[:aop.rank < rank],
-                    aop.text,
-                    ')'[:aop.rank < rank],
-                    sym,
-                    '('[:bop.rank < rank],
-                    bop.text,
-                    ')'[:bop.rank < rank],
-                ])
+                rank = ISECT_RANK
+                otext = infix_text(aop, bop, rank, ' ')
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
@@ -1540,17 +1509,8 @@ def decompile_formula(bk, fmla, fmlalen,
                 assert len(stack) >= 2
                 bop = stack.pop()
                 aop = stack.pop()
-                sym = ','
-                rank = 80 ########## check #######
-                otext = ''.join([
-                    '('[:aop.rank < rank],
-                    aop.text,
-                    ')'[:aop.rank < rank],
-                    sym,
-                    '('[:bop.rank < rank],
-                    bop.text,
-                    ')'[:bop.rank < rank],
-                ])
+                rank = LIST_RANK
+                otext = list_text(aop, bop)
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
@@ -1567,17 +1527,8 @@ def decompile_formula(bk, fmla, fmlalen,
                 assert len(stack) >= 2
                 bop = stack.pop()
                 aop = stack.pop()
-                sym = ':'
-                rank = 80 ########## check #######
-                otext = ''.join([
-                    '('[:aop.rank < rank],
-                    aop.text,
-                    ')'[:aop.rank < rank],
-                    sym,
-                    '('[:bop.rank < rank],
-                    bop.text,
-                    ')'[:bop.rank < rank],
-                ])
+                rank = RANGE_RANK
+                otext = infix_text(aop, bop, rank, ':')
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res = oERR
@@ -1620,7 +1571,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
-                    otext = 'SUM(%s)' % aop.text
+                    otext = 'SUM(%s)' % args_text([aop])
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
                     sz = 4
@@ -1667,7 +1618,7 @@ def decompile_formula(bk, fmla, fmlalen,
                           % (funcx, func_name, nargs), file=bk.logfile)
                 assert len(stack) >= nargs
                 if nargs:
-                    argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                    argtext = args_text(stack[-nargs:])
                     otext = "%s(%s)" % (func_name, argtext)
                     del stack[-nargs:]
                 else:
@@ -1697,7 +1648,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 if blah:
                     print("    name: %r, min~max args: %d~%d"
                         % (func_name, minargs, maxargs), file=bk.logfile)
-                argtext = listsep.join(arg.text for arg in pop_args(stack, nargs))
+                argtext = args_text(pop_args(stack, nargs))
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 spush(res)
-- 
2.43.0


From 45db4d766416640564eaac447dc0acc269cabb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 26/61] fix: error values and booleans in formula text

An error value such as #N/A was shown in quotes, i.e. as text. An unknown
error code or a boolean other than 0 and 1 raised an exception, making the
workbook unreadable.
---
 xlrd/formula.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index ed861d5..56c30f3 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1060,9 +1060,10 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 elif inx == 3: # tNum
                     text = str(value)
                 elif inx == 1: # tBool
+                    value = int(value != 0)
                     text = ('FALSE', 'TRUE')[value]
                 else:
-                    text = '"' +error_text_from_code[value] + '"'
+                    text = error_text_from_code.get(value, '#ERR%d' % value)
                 spush(Operand(kind, value, LEAF_RANK, text))
             else:
                 raise FormulaError("Unhandled opcode: 0x%02x" % opcode)
@@ -1592,9 +1593,10 @@ def decompile_formula(bk, fmla, fmlalen,
                 elif inx == 3: # tNum
                     text = str(value)
                 elif inx == 1: # tBool
+                    value = int(value != 0)
                     text = ('FALSE', 'TRUE')[value]
                 else:
-                    text = '"' +error_text_from_code[value] + '"'
+                    text = error_text_from_code.get(value, '#ERR%d' % value)
                 spush(Operand(kind, None, LEAF_RANK, text))
             else:
                 raise FormulaError("Unhandled opcode: 0x%02x" % opcode)
-- 
2.43.0


From 785fb1bd6aeade814d6efe23855f2a61ccd4a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 27/61] fix: tMemArea, tMemErr, tMemNoMem tokens in formulas

These tokens only announce that the value of the following reference
expression has been cached. A name like =Sheet1!$A$1,Sheet1!$B$2 containing
tMemArea made the workbook unreadable; tMemErr and tMemNoMem counted as
an extra operand.
---
 xlrd/formula.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 56c30f3..cf90bdf 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -395,7 +395,10 @@ tAttrNames = {
     0x41: "SpaceVolatile",
 }
 
-error_opcodes = set([0x07, 0x08, 0x0A, 0x0B, 0x1C, 0x1D, 0x2F])
+# tMemArea, tMemErr, tMemNoMem, tMemFunc, tMemAreaN, tMemNoMemN
+mem_opcodes = set([0x06, 0x07, 0x08, 0x09, 0x0E, 0x0F])
+
+error_opcodes = set([0x0A, 0x0B, 0x1C, 0x1D])
 
 tRangeFuncs = (min, max, min, max, min, max)
 tIsectFuncs = (max, min, max, min, max, min)
@@ -1210,12 +1213,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 relflags = (1, 1, row_rel1, row_rel2, col_rel1, col_rel2)
                 res = Operand(oREL, [Ref3D(coords + relflags)])
             spush(res)
-        elif opcode == 0x06: # tMemArea
-            not_in_name_formula(op, oname)
-        elif opcode == 0x09: # tMemFunc
-            nb = unpack("<H", data[pos+1:pos+3])[0]
-            if blah: print("  %d bytes of cell ref formula" % nb, file=bk.logfile)
-            # no effect on stack
+        elif opcode in mem_opcodes:
+            # Followed by the tokens of a cell ref formula; no effect on stack
+            pass
         elif opcode == 0x0C: #tRefN
             not_in_name_formula(op, oname)
             # res = get_cell_addr(data, pos+1, bv, reldelta=1)
@@ -1695,12 +1695,9 @@ def decompile_formula(bk, fmla, fmlalen,
             otext = rangename2drel(coords, relflags, browx, bcolx, r1c1)
             res = Operand(okind, None, LEAF_RANK, otext)
             spush(res)
-        elif opcode == 0x06: # tMemArea
-            not_in_name_formula(op, oname)
-        elif opcode == 0x09: # tMemFunc
-            nb = unpack("<H", data[pos+1:pos+3])[0]
-            if blah: print("  %d bytes of cell ref formula" % nb, file=bk.logfile)
-            # no effect on stack
+        elif opcode in mem_opcodes:
+            # Followed by the tokens of a cell ref formula; no effect on stack
+            pass
         elif opcode == 0x0C: #tRefN
             res = get_cell_addr(data, pos+1, bv, reldelta, browx, bcolx)
             # note *ALL* tRefN usage has signed offset for relative addresses
-- 
2.43.0


From fd38dc4ee86dbdef0393e27d88e33c24836a34bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:01 +0000
Subject: [PATCH 28/61] fix: size of the array constant token

A tArray token is followed by 7 (BIFF2: 6) unused bytes, not 8 (7): any
formula with another token after an array constant was misread.
---
 xlrd/formula.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index cf90bdf..81345d1 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -98,11 +98,11 @@ listsep = ',' #### probably should depend on locale
 # -1 means variable
 # -2 means this opcode not implemented in this version.
 # Which N to use? Depends on biff_version; see szdict.
-sztab0 = [-2, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 8, 4, 2, 2, 3, 9, 8, 2, 3, 8, 4, 7, 5, 5, 5, 2, 4, 7, 4, 7, 2, 2, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
-sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
-sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
+sztab0 = [-2, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 8, 4, 2, 2, 3, 9, 7, 2, 3, 8, 4, 7, 5, 5, 5, 2, 4, 7, 4, 7, 2, 2, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
+sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
+sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
+sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
+sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
 
 szdict = {
     20 : sztab0,
-- 
2.43.0


From 0da0784d3af7a5108a3780c94fefef108e695d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 29/61] fix: quoting of sheet names in formula text

A sheet called C-D or 2001 was shown unquoted, and the sheet of a local name
was never quoted. A name local to a sheet that isn't a worksheet was shown
with the name of a wrong sheet, or raised IndexError.
---
 xlrd/formula.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 81345d1..d18260d 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1176,11 +1176,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(tgtobj.stack) == 1
                 res = copy.deepcopy(tgtobj.stack[0])
             res.rank = LEAF_RANK
-            if tgtobj.scope == -1:
-                res.text = tgtobj.name
-            else:
-                res.text = "%s!%s" \
-                           % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+            res.text = scoped_name_text(bk, tgtobj)
             if blah:
                 print("    tName: setting text to", repr(res.text), file=bk.logfile)
             spush(res)
@@ -1352,11 +1348,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     assert len(tgtobj.stack) == 1
                     res = copy.deepcopy(tgtobj.stack[0])
                 res.rank = LEAF_RANK
-                if tgtobj.scope == -1:
-                    res.text = tgtobj.name
-                else:
-                    res.text = "%s!%s" \
-                               % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                res.text = scoped_name_text(bk, tgtobj)
                 if blah:
                     print("    tNameX: setting text to", repr(res.text), file=bk.logfile)
             spush(res)
@@ -1659,10 +1651,7 @@ def decompile_formula(bk, fmla, fmlalen,
             # Only change with BIFF version is number of trailing UNUSED bytes!
             if blah: print("   tgtnamex=%d" % tgtnamex, file=bk.logfile)
             tgtobj = bk.name_obj_list[tgtnamex]
-            if tgtobj.scope == -1:
-                otext = tgtobj.name
-            else:
-                otext = "%s!%s" % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+            otext = scoped_name_text(bk, tgtobj)
             if blah:
                 print("    tName: setting text to", repr(otext), file=bk.logfile)
             res = Operand(oUNK, None, LEAF_RANK, otext)
@@ -1839,11 +1828,7 @@ def decompile_formula(bk, fmla, fmlalen,
                         % (tgtnamex, origrefx)
             else:
                 tgtobj = bk.name_obj_list[tgtnamex]
-                if tgtobj.scope == -1:
-                    otext = tgtobj.name
-                else:
-                    otext = "%s!%s" \
-                            % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                otext = scoped_name_text(bk, tgtobj)
                 if blah:
                     print("    tNameX: setting text to", repr(res.text), file=bk.logfile)
             res = Operand(okind, ovalue, LEAF_RANK, otext)
@@ -2146,6 +2131,9 @@ def rangename3drel(book, ref3d, browx=None, bcolx=None, r1c1=0):
         return rngdesc
     return "%s!%s" % (shdesc, rngdesc)
 
+# Anything else might be mistaken for an operator, a number or a cell.
+_plain_sheet_name_match = re.compile(r"(?![A-Za-z]{1,3}[0-9]+$)(?![RrCc][0-9]*$)(?![Rr][0-9]*[Cc][0-9]*$)[^\W\d][\w.]*$", re.UNICODE).match
+
 def quotedsheetname(shnames, shx):
     if shx >= 0:
         shname = shnames[shx]
@@ -2156,12 +2144,15 @@ def quotedsheetname(shnames, shx):
             -3: "internal; macro sheet",
             -4: "<<external>>",
         }.get(shx, "?error %d?" % shx)
-    if "'" in shname:
+    if shx >= 0 and not _plain_sheet_name_match(shname) or " " in shname:
         return "'" + shname.replace("'", "''") + "'"
-    if " " in shname:
-        return "'" + shname + "'"
     return shname
 
+def scoped_name_text(book, nobj):
+    if nobj.scope == -1:
+        return nobj.name
+    return "%s!%s" % (quotedsheetname(book.sheet_names(), nobj.scope), nobj.name)
+
 def sheetrange(book, slo, shi):
     shnames = book.sheet_names()
     shdesc = quotedsheetname(shnames, slo)
-- 
2.43.0


From d20b09e9aada551a500ddbcc38c346ddfef48c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:19 +0000
Subject: [PATCH 30/61] fix: names whose formula can't be evaluated

A circular or deeply nested chain of names, or a name whose formula contains
a token that isn't supported or isn't valid, made the whole workbook
unreadable. Such a name now has no result or an unknown value.
---
 xlrd/book.py    |  3 +++
 xlrd/formula.py | 46 ++++++++++++++++++++++++++++++++--------------
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 35a0f53..d90940d 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -167,6 +167,9 @@ class Name(BaseObject):
     #: .. note:: No examples have been sighted.
     binary = 0
 
+    # set when the formula is evaluated
+    evaluated = any_rel = any_err = any_external = 0
+
     #: The index of this object in book.name_obj_list
     name_index = 0
 
diff --git a/xlrd/formula.py b/xlrd/formula.py
index d18260d..e305b8a 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -16,7 +16,7 @@ import re
 from struct import unpack
 
 from .biffh import (
-    BaseObject, XLRDError, error_text_from_code, hex_char_dump,
+    BaseObject, XLRDError, error_text_from_code, fprintf, hex_char_dump,
     unpack_string_update_pos, unpack_unicode_update_pos,
 )
 from .timemachine import *
@@ -804,10 +804,27 @@ def pop_args(stack, nargs):
     del stack[pos:]
     return args
 
-STACK_ALARM_LEVEL = 5
-STACK_PANIC_LEVEL = 10
+STACK_ALARM_LEVEL = 50
+STACK_PANIC_LEVEL = 100
 
 def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
+    nobj.evaluated = -1 # in progress; detects circular references
+    try:
+        _evaluate_name_formula(bk, nobj, namex, blah, level)
+    except Exception as e:
+        # Not a reason for refusing to read the workbook
+        if bk.verbosity:
+            fprintf(bk.logfile,
+                "*** Can't evaluate formula of name[%d] %r: %s %s\n",
+                namex, nobj.name, e.__class__.__name__, e)
+        nobj.stack = [Operand(oUNK, None)]
+        nobj.result = None
+        nobj.any_rel = False
+        nobj.any_err = 1
+        nobj.any_external = 0
+    nobj.evaluated = 1
+
+def _evaluate_name_formula(bk, nobj, namex, blah, level):
     if level > STACK_ALARM_LEVEL:
         blah = 1
     data = nobj.raw_formula
@@ -818,8 +835,6 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         print("::: evaluate_name_formula %r %r %d %d %r level=%d"
             % (namex, nobj.name, fmlalen, bv, data, level), file=bk.logfile)
         hex_char_dump(data, 0, fmlalen, fout=bk.logfile)
-    if level > STACK_PANIC_LEVEL:
-        raise XLRDError("Excessive indirect references in NAME formula")
     sztab = szdict[bv]
     pos = 0
     stack = []
@@ -1159,10 +1174,13 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             # Only change with BIFF version is number of trailing UNUSED bytes!
             if blah: print("   tgtnamex=%d" % tgtnamex, file=bk.logfile)
             tgtobj = bk.name_obj_list[tgtnamex]
-            if not tgtobj.evaluated:
+            if not tgtobj.evaluated and level < STACK_PANIC_LEVEL:
                 ### recursive ###
                 evaluate_name_formula(bk, tgtobj, tgtnamex, blah, level+1)
-            if tgtobj.macro or tgtobj.binary or tgtobj.any_err:
+            bad_target = (tgtobj.evaluated != 1 # circular or too deep
+                or tgtobj.macro or tgtobj.binary or tgtobj.any_err
+                or len(tgtobj.stack) != 1)
+            if bad_target:
                 if blah:
                     tgtobj.dump(
                         bk.logfile,
@@ -1170,10 +1188,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                         footer="-----------       --------",
                     )
                 res = Operand(oUNK, None)
-                any_err = any_err or tgtobj.macro or tgtobj.binary or tgtobj.any_err
+                any_err = 1
                 any_rel = any_rel or tgtobj.any_rel
             else:
-                assert len(tgtobj.stack) == 1
                 res = copy.deepcopy(tgtobj.stack[0])
             res.rank = LEAF_RANK
             res.text = scoped_name_text(bk, tgtobj)
@@ -1331,10 +1348,13 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 res = Operand(oUNK, None, LEAF_RANK, otext)
             else:
                 tgtobj = bk.name_obj_list[tgtnamex]
-                if not tgtobj.evaluated:
+                if not tgtobj.evaluated and level < STACK_PANIC_LEVEL:
                     ### recursive ###
                     evaluate_name_formula(bk, tgtobj, tgtnamex, blah, level+1)
-                if tgtobj.macro or tgtobj.binary or tgtobj.any_err:
+                bad_target = (tgtobj.evaluated != 1 # circular or too deep
+                    or tgtobj.macro or tgtobj.binary or tgtobj.any_err
+                    or len(tgtobj.stack) != 1)
+                if bad_target:
                     if blah:
                         tgtobj.dump(
                             bk.logfile,
@@ -1342,10 +1362,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             footer="------------------",
                         )
                     res = Operand(oUNK, None)
-                    any_err = any_err or tgtobj.macro or tgtobj.binary or tgtobj.any_err
+                    any_err = 1
                     any_rel = any_rel or tgtobj.any_rel
                 else:
-                    assert len(tgtobj.stack) == 1
                     res = copy.deepcopy(tgtobj.stack[0])
                 res.rank = LEAF_RANK
                 res.text = scoped_name_text(bk, tgtobj)
@@ -1377,7 +1396,6 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
     nobj.any_rel = any_rel
     nobj.any_err = any_err
     nobj.any_external = any_external
-    nobj.evaluated = 1
 
 #### under construction #############################################################################
 def decompile_formula(bk, fmla, fmlalen,
-- 
2.43.0


From bcbc529d686721509f546a742329f93a36f90e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 31/61] fix: decompile_formula of relative references without a
 base cell or in tArea3d tokens

---
 xlrd/formula.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index e305b8a..1d29213 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1404,6 +1404,12 @@ def decompile_formula(bk, fmla, fmlalen,
     if level > STACK_ALARM_LEVEL:
         blah = 1
     reldelta = fmlatype in (FMLA_TYPE_SHARED, FMLA_TYPE_NAME, FMLA_TYPE_COND_FMT, FMLA_TYPE_DATA_VAL)
+    if not reldelta:
+        # The row and column are stored even if relative; no base cell is needed
+        if browx is None:
+            browx = 0
+        if bcolx is None:
+            bcolx = 0
     data = fmla
     bv = bk.biff_version
     if blah:
@@ -1772,11 +1778,11 @@ def decompile_formula(bk, fmla, fmlalen,
             spush(res)
         elif opcode == 0x1B: # tArea3d
             if bv >= 80:
-                res1, res2 = get_cell_range_addr(data, pos+3, bv, reldelta)
+                res1, res2 = get_cell_range_addr(data, pos+3, bv, reldelta, browx, bcolx)
                 refx = unpack("<H", data[pos+1:pos+3])[0]
                 shx1, shx2 = get_externsheet_local_range(bk, refx, blah)
             else:
-                res1, res2 = get_cell_range_addr(data, pos+15, bv, reldelta)
+                res1, res2 = get_cell_range_addr(data, pos+15, bv, reldelta, browx, bcolx)
                 raw_extshtx, raw_shx1, raw_shx2 = unpack("<hxxxxxxxxhh", data[pos+1:pos+15])
                 if blah:
                     print("tArea3d", raw_extshtx, raw_shx1, raw_shx2, file=bk.logfile)
-- 
2.43.0


From 444cc8aa72d0c5c2d10aba18429796f895c34a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:17 +0000
Subject: [PATCH 32/61] fix: decompile_formula without a formula type raised
 TypeError

---
 xlrd/formula.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 1d29213..b271a17 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1403,6 +1403,8 @@ def decompile_formula(bk, fmla, fmlalen,
                       blah=0, level=0, r1c1=0):
     if level > STACK_ALARM_LEVEL:
         blah = 1
+    if fmlatype is None:
+        fmlatype = FMLA_TYPE_CELL
     reldelta = fmlatype in (FMLA_TYPE_SHARED, FMLA_TYPE_NAME, FMLA_TYPE_COND_FMT, FMLA_TYPE_DATA_VAL)
     if not reldelta:
         # The row and column are stored even if relative; no base cell is needed
-- 
2.43.0


From 2dd2896068ec758882c053c03f0b9473879acc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 33/61] fix: absolute 3D references in the R1C1 text of
 decompile_formula

---
 xlrd/formula.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index b271a17..687f34a 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1774,7 +1774,7 @@ def decompile_formula(bk, fmla, fmlalen,
             else:
                 ref3d = Ref3D(coords)
                 res.kind = oREF
-                res.text = rangename3d(bk, ref3d)
+                res.text = rangename3d(bk, ref3d, r1c1)
             res.rank = LEAF_RANK
             res.value = None
             spush(res)
@@ -1806,7 +1806,7 @@ def decompile_formula(bk, fmla, fmlalen,
             else:
                 ref3d = Ref3D(coords)
                 res.kind = oREF
-                res.text = rangename3d(bk, ref3d)
+                res.text = rangename3d(bk, ref3d, r1c1)
             res.rank = LEAF_RANK
             spush(res)
         elif opcode == 0x19: # tNameX
@@ -2109,8 +2109,6 @@ def colname(colx):
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-    if r1c1:
-        return
     if rhi == rlo+1 and chi == clo+1:
         return cellnameabs(rlo, clo, r1c1)
     return "%s:%s" % (cellnameabs(rlo, clo, r1c1), cellnameabs(rhi-1, chi-1, r1c1))
@@ -2128,7 +2126,7 @@ def rangename2drel(rlo_rhi_clo_chi, rlorel_rhirel_clorel_chirel, browx=None, bco
     )
 
 
-def rangename3d(book, ref3d):
+def rangename3d(book, ref3d, r1c1=0):
     """
     Utility function:
     ``Ref3D(1, 4, 5, 20, 7, 10)`` =>
@@ -2138,7 +2136,7 @@ def rangename3d(book, ref3d):
     coords = ref3d.coords
     return "%s!%s" % (
         sheetrange(book, *coords[:2]),
-        rangename2d(*coords[2:6]))
+        rangename2d(*coords[2:6], r1c1=r1c1))
 
 def rangename3drel(book, ref3d, browx=None, bcolx=None, r1c1=0):
     """
-- 
2.43.0


From c59c3ab3e59c6f5b164ea029494656afff5842cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 34/61] fix: decompile_formula of table formulas, and of shared
 formulas with data after the token

---
 xlrd/formula.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 687f34a..aff4a81 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1481,14 +1481,15 @@ def decompile_formula(bk, fmla, fmlalen,
         if _TOKEN_NOT_ALLOWED(opx, 0) & fmlatype:
             unexpected_opcode(op, oname)
         if not optype:
-            if opcode <= 0x01: # tExp
+            if opcode <= 0x02: # tExp, tTbl
                 if bv >= 30:
                     fmt = '<x2H'
                 else:
                     fmt = '<xHB'
                 assert pos == 0 and fmlalen == sz and not stack
-                rowx, colx = unpack(fmt, data)
-                text = "SHARED FMLA at rowx=%d colx=%d" % (rowx, colx)
+                rowx, colx = unpack(fmt, data[:sz])
+                descr = ("SHARED FMLA", "TABLE")[opcode - 1]
+                text = "%s at rowx=%d colx=%d" % (descr, rowx, colx)
                 spush(Operand(oUNK, None, LEAF_RANK, text))
                 if not fmlatype & (FMLA_TYPE_CELL | FMLA_TYPE_ARRAY):
                     unexpected_opcode(op, oname)
-- 
2.43.0


From feae31ed6bb9e9eb570db0dd5acfee2683b24942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:24 +0000
Subject: [PATCH 35/61] fix: decompile_formula raised IndexError on a name that
 is not in the book

---
 xlrd/formula.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index aff4a81..012fb31 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1677,8 +1677,11 @@ def decompile_formula(bk, fmla, fmlalen,
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
             # Only change with BIFF version is number of trailing UNUSED bytes!
             if blah: print("   tgtnamex=%d" % tgtnamex, file=bk.logfile)
-            tgtobj = bk.name_obj_list[tgtnamex]
-            otext = scoped_name_text(bk, tgtobj)
+            if 0 <= tgtnamex < len(bk.name_obj_list):
+                otext = scoped_name_text(bk, bk.name_obj_list[tgtnamex])
+            else:
+                # e.g. BIFF versions whose NAME records are not extracted
+                otext = "<<Name #%d>>" % tgtnamex
             if blah:
                 print("    tName: setting text to", repr(otext), file=bk.logfile)
             res = Operand(oUNK, None, LEAF_RANK, otext)
-- 
2.43.0


From 171b275bbd5134a7034977b9ae1af47f1a995cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 36/61] fix: decompile_formula of references to names that
 don't exist

---
 xlrd/formula.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 012fb31..044ac76 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1815,7 +1815,7 @@ def decompile_formula(bk, fmla, fmlalen,
             spush(res)
         elif opcode == 0x19: # tNameX
             dodgy = 0
-            res = Operand(oUNK, None)
+            shx1 = shx2 = None
             if bv >= 80:
                 refx, tgtnamex = unpack("<HH", data[pos+1:pos+5])
                 tgtnamex -= 1
@@ -1853,14 +1853,14 @@ def decompile_formula(bk, fmla, fmlalen,
                 okind = oSTRG
                 ovalue = bk.addin_func_names[tgtnamex]
                 otext = '"' + ovalue.replace('"', '""') + '"'
-            elif dodgy or shx1 < -1:
+            elif dodgy or shx1 < -1 or not 0 <= tgtnamex < len(bk.name_obj_list):
                 otext = "<<Name #%d in external(?) file #%d>>" \
                         % (tgtnamex, origrefx)
             else:
                 tgtobj = bk.name_obj_list[tgtnamex]
                 otext = scoped_name_text(bk, tgtobj)
                 if blah:
-                    print("    tNameX: setting text to", repr(res.text), file=bk.logfile)
+                    print("    tNameX: setting text to", repr(otext), file=bk.logfile)
             res = Operand(okind, ovalue, LEAF_RANK, otext)
             spush(res)
         elif opcode in error_opcodes:
-- 
2.43.0


From eeda8018157c12f14a26fc39a6fa36a2c7e17fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:04 +0000
Subject: [PATCH 37/61] fix: size of the tAttr tokens of BIFF2 in
 decompile_formula

---
 xlrd/formula.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 044ac76..b8895b7 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1582,19 +1582,22 @@ def decompile_formula(bk, fmla, fmlalen,
                 # not in OOo docs, don't even know how to determine its length
                 raise FormulaError("tExtended token not implemented")
             elif opcode == 0x19: # tAttr
-                subop, nc = unpack("<BH", data[pos+1:pos+4])
+                if bv >= 30:
+                    subop, nc = unpack("<BH", data[pos+1:pos+4])
+                else:
+                    subop, nc = unpack("<BB", data[pos+1:pos+3])
                 subname = tAttrNames.get(subop, "??Unknown??")
                 if subop == 0x04: # Choose
-                    sz = nc * 2 + 6
+                    sz = nc * 2 + 6 if bv >= 30 else nc + 4
                 elif subop == 0x10: # Sum (single arg)
-                    sz = 4
+                    sz = 4 if bv >= 30 else 3
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
                     otext = 'SUM(%s)' % args_text([aop])
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
-                    sz = 4
+                    sz = 4 if bv >= 30 else 3
                 if blah:
                     print("   subop=%02xh subname=t%s sz=%d nc=%02xh"
                         % (subop, subname, sz, nc), file=bk.logfile)
-- 
2.43.0


From c5c9a1dcd577a10b69dcd7ccfbfbc597ee925210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:46 +0000
Subject: [PATCH 38/61] fix: decompile_formula of references to external names
 that don't exist

---
 xlrd/formula.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index b8895b7..4c46a26 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1844,6 +1844,8 @@ def decompile_formula(bk, fmla, fmlalen,
                     shx1, shx2 = get_externsheet_local_range(bk, refx, blah)
                 elif origrefx > 0:
                     shx1, shx2 = (-4, -4) # external ref
+                elif refx >= len(bk._externsheet_type_b57):
+                    shx1, shx2 = (-666, -666)
                 else:
                     exty = bk._externsheet_type_b57[refx]
                     if exty == 4: # non-specific sheet in own doc't
@@ -1852,7 +1854,7 @@ def decompile_formula(bk, fmla, fmlalen,
                         shx1, shx2 = (-666, -666)
             okind = oUNK
             ovalue = None
-            if shx1 == -5: # addin func name
+            if shx1 == -5 and 0 <= tgtnamex < len(bk.addin_func_names): # addin func name
                 okind = oSTRG
                 ovalue = bk.addin_func_names[tgtnamex]
                 otext = '"' + ovalue.replace('"', '""') + '"'
-- 
2.43.0


From 68b1dc66ae6dfaad2f04585d3c4144f2022c9454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:49 +0000
Subject: [PATCH 39/61] fix: decompile_formula of references to other sheets in
 BIFF2 to BIFF4

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 4c46a26..150a0cd 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1603,7 +1603,7 @@ def decompile_formula(bk, fmla, fmlalen,
                         % (subop, subname, sz, nc), file=bk.logfile)
             elif 0x1A <= opcode <= 0x1B: # tSheet, tEndSheet
                 assert bv < 50
-                raise FormulaError("tSheet & tEndsheet tokens not implemented")
+                # They surround a reference to another sheet, shown without its sheet
             elif 0x1C <= opcode <= 0x1F: # tErr, tBool, tInt, tNum
                 inx = opcode - 0x1C
                 nb = [1, 1, 2, 8][inx]
-- 
2.43.0


From dc4b747bc66fb15539594d37b23169b8b685c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 40/61] fix: wrapping of relative rows at the edge of a sheet
 before BIFF8 in decompile_formula

---
 xlrd/formula.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 150a0cd..4d688b5 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -443,6 +443,9 @@ def adjust_cell_addr_biff_le7(
     if reldelta:
         if row_rel and rowx >= 8192:
             rowx -= 16384
+        if row_rel and browx is not None:
+            # wrap around at the last of the 16384 rows
+            rowx = (browx + rowx) % 16384 - browx
         if col_rel and colx >= 128:
             colx -= 256
     else:
-- 
2.43.0


From 1de18aa39e80812dabacb23f203593ffff8a34d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 41/61] fix: a local name not tied to a sheet of the workbook
 made BIFF5/7 workbooks unreadable

---
 xlrd/book.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index d90940d..df66780 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1038,8 +1038,11 @@ class Book(BaseObject):
                 if sheet_index == 0:
                     intl_sheet_index = -1 # global
                 else:
-                    sheet_name = self._extnsht_name_from_num[sheet_index]
-                    intl_sheet_index = self._sheet_num_from_name.get(sheet_name, -2)
+                    sheet_name = self._extnsht_name_from_num.get(sheet_index)
+                    if sheet_name is None: # not a sheet in this workbook
+                        intl_sheet_index = -3 # invalid
+                    else:
+                        intl_sheet_index = self._sheet_num_from_name.get(sheet_name, -2)
             nobj.scope = intl_sheet_index
 
         for namex in range(num_names):
-- 
2.43.0


From 429d0632a68d6f7571ae44035e0cb6d472977d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:46 +0000
Subject: [PATCH 42/61] fix: TypeError from Name.cell and Name.area2d for a
 reference with unknown value

---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index df66780..9e58ea5 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -212,7 +212,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -249,7 +249,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From 5dfeb4e3a1656bb4e591bed49c7799d1b98c3865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 43/61] fix: an external SUPBOOK record continued in CONTINUE
 records could make the workbook unreadable

---
 xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 9e58ea5..c619efa 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1125,7 +1125,7 @@ class Book(BaseObject):
         for x in range(num_sheets):
             try:
                 shname, pos = unpack_unicode_update_pos(data, pos, lenlen=2)
-            except struct.error:
+            except (struct.error, IndexError, UnicodeDecodeError):
                 # #### FIX ME ####
                 # Should implement handling of CONTINUE record(s) ...
                 if self.verbosity:
-- 
2.43.0


From b3852a2c6735cbb9fd24fa8ef36c7f5bbea8b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:49 +0000
Subject: [PATCH 44/61] fix: a conditional format with number format, alignment
 or protection settings made the sheet unreadable

With formatting_info=True, a CF record with any of those optional blocks failed
an assertion, as only the font, border and pattern blocks were taken into account.
---
 xlrd/sheet.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index d8fcab4..e54a63c 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1197,7 +1197,8 @@ class Sheet(BaseObject):
                     )
             elif rc == XL_CF:
                 if not fmt_info: continue
-                cf_type, cmp_op, sz1, sz2, flags = unpack("<BBHHi", data[0:10])
+                cf_type, cmp_op, sz1, sz2, flags, flags2 = unpack("<BBHHiH", data[0:12])
+                numf_block = (flags >> 25) & 1
                 font_block = (flags >> 26) & 1
                 bord_block = (flags >> 28) & 1
                 patt_block = (flags >> 29) & 1
@@ -1212,6 +1213,11 @@ class Sheet(BaseObject):
                     )
                 # hex_char_dump(data, 0, data_len, fout=self.logfile)
                 pos = 12
+                if numf_block:
+                    if flags2 & 1: # user-defined format string, preceded by its size
+                        pos += unpack("<H", data[pos:pos+2])[0]
+                    else:
+                        pos += 2
                 if font_block:
                     (font_height, font_options, weight, escapement, underline,
                      font_colour_index, two_bits, font_esc, font_underl) = unpack("<64x i i H H B 3x i 4x i i i 18x", data[pos:pos+118])
@@ -1230,10 +1236,9 @@ class Sheet(BaseObject):
                             font_style, posture, font_canc, cancellation,
                         )
                     pos += 118
-                if bord_block:
-                    pos += 8
-                if patt_block:
-                    pos += 4
+                # skip the remaining optional blocks (alignment, border, pattern,
+                # protection); the formulas are at the end of the record
+                pos = data_len - sz1 - sz2
                 fmla1 = data[pos:pos+sz1]
                 pos += sz1
                 if blah and sz1:
@@ -1241,7 +1246,6 @@ class Sheet(BaseObject):
                     dump_formula(bk, fmla1, sz1, bv, reldelta=0, blah=1)
                 fmla2 = data[pos:pos+sz2]
                 pos += sz2
-                assert pos == data_len
                 if blah and sz2:
                     fprintf(self.logfile, "*** formula 2:\n")
                     dump_formula(bk, fmla2, sz2, bv, reldelta=0, blah=1)
-- 
2.43.0


From 2193ff35da9e3ac8426b73ca1780bc2df6330776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 45/61] fix: TypeError for empty file contents passed as bytes

open_workbook(file_contents=b'') now raises XLRDError and
inspect_format(content=b'') returns None, as they do for an empty file.
---
 xlrd/__init__.py | 4 ++--
 xlrd/book.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index b05f7c2..c48653e 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -53,7 +53,7 @@ def inspect_format(path=None, content=None):
        The return value can always be looked up in :data:`FILE_FORMAT_DESCRIPTIONS`
        to return a human-readable description of the format found.
     """
-    if content:
+    if content or path is None:
         peek = content[:PEEK_SIZE]
     else:
         path = os.path.expanduser(path)
@@ -163,7 +163,7 @@ def open_workbook(filename=None,
     :returns: An instance of the :class:`~xlrd.book.Book` class.
     """
 
-    if not file_contents:
+    if not file_contents and filename is not None:
         filename = os.path.expanduser(filename)
 
     file_format = inspect_format(filename, file_contents)
diff --git a/xlrd/book.py b/xlrd/book.py
index c619efa..946e938 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -615,7 +615,7 @@ class Book(BaseObject):
         self.on_demand = on_demand
         self.ragged_rows = ragged_rows
 
-        if not file_contents:
+        if not file_contents and filename is not None:
             with open(filename, "rb") as f:
                 f.seek(0, 2) # EOF
                 size = f.tell()
-- 
2.43.0


From b06e8572bd485ad6cc6d31747dfd6fde8c570287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:56 +0000
Subject: [PATCH 46/61] fix: a fragmented OLE2 stream with sectors missing from
 the file was read as garbage

A file cut in a sector from the middle of the workbook stream could be read
without any error, because the data after the gap moved into its place.
---
 xlrd/compdoc.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 261b872..2035287 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -288,6 +288,7 @@ class CompDoc(object):
     def _get_stream(self, mem, base, sat, sec_size, start_sid, size=None, name='', seen_id=None):
         # print >> self.logfile, "_get_stream", base, sec_size, start_sid, size
         sectors = []
+        cut = False # has a sector been met that is not entirely in the file?
         s = start_sid
         if size is None:
             # nothing to check against
@@ -297,7 +298,10 @@ class CompDoc(object):
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
                     self.seen[s] = seen_id
                 start_pos = base + s * sec_size
-                sectors.append(mem[start_pos:start_pos+sec_size])
+                if not cut:
+                    # nothing may move into the place of missing data
+                    sectors.append(mem[start_pos:start_pos+sec_size])
+                    cut = len(sectors[-1]) < sec_size
                 try:
                     s = sat[s]
                 except IndexError:
@@ -310,20 +314,25 @@ class CompDoc(object):
             if size < 0:
                 raise CompDocError("OLE2 stream %r: invalid size (%d)" % (name, size))
             todo = size
+            nsectors = 0
             while s >= 0:
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
                     self.seen[s] = seen_id
-                if len(sectors) >= len(sat):
+                if nsectors >= len(sat):
                     raise CompDocError(
                         "OLE2 stream %r: sector chain is cyclic" % (name, ))
+                nsectors += 1
                 start_pos = base + s * sec_size
                 grab = sec_size
                 if grab > todo:
                     grab = todo
                 todo -= grab
-                sectors.append(mem[start_pos:start_pos+grab])
+                if not cut:
+                    # nothing may move into the place of missing data
+                    sectors.append(mem[start_pos:start_pos+grab])
+                    cut = len(sectors[-1]) < grab
                 try:
                     s = sat[s]
                 except IndexError:
@@ -465,6 +474,11 @@ class CompDoc(object):
         if not slices:
             # The stream is contiguous ... just what we like!
             return (mem, start_pos, expected_stream_size)
+        # nothing may move into the place of missing data
+        mem_len = len(mem)
+        for _unused_start_pos, slice_end_pos in slices:
+            if slice_end_pos > mem_len:
+                raise CompDocError("%s: some of its sectors are not in the file" % qname)
         slices.append((start_pos, end_pos))
         # print >> self.logfile, "+++>>> %d fragments" % len(slices)
         return (b''.join(mem[start_pos:end_pos] for start_pos, end_pos in slices), 0, expected_stream_size)
-- 
2.43.0


From 6828b76f0d695bcd0143517ec3ae8437fb8c931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:36 +0000
Subject: [PATCH 47/61] fix: name_map and name_and_scope_map of BIFF2 to BIFF4
 books were shared by all books

---
 xlrd/book.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/book.py b/xlrd/book.py
index 946e938..883a6d9 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -591,6 +591,8 @@ class Book(BaseObject):
         self._resources_released = 0
         self.addin_func_names = []
         self.name_obj_list = []
+        self.name_and_scope_map = {}
+        self.name_map = {}
         self.colour_map = {}
         self.palette_record = []
         self.xf_list = []
-- 
2.43.0


From 26cc09165b0c3ad43a1a18c02b70bc92d2d0b7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:52 +0000
Subject: [PATCH 48/61] fix: the trace of a conditional format's formula could
 make the sheet unreadable

At verbosity 2 or more, a relative reference, a reference operator on
two-dimensional references or a cut-off token in the formula of a
conditional format raised an exception, so the workbook, readable at lower
verbosity, could not be opened.
---
 xlrd/sheet.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index e54a63c..a2a1cc1 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1243,12 +1243,12 @@ class Sheet(BaseObject):
                 pos += sz1
                 if blah and sz1:
                     fprintf(self.logfile, "*** formula 1:\n")
-                    dump_formula(bk, fmla1, sz1, bv, reldelta=0, blah=1)
+                    self.trace_formula(bk, fmla1, sz1)
                 fmla2 = data[pos:pos+sz2]
                 pos += sz2
                 if blah and sz2:
                     fprintf(self.logfile, "*** formula 2:\n")
-                    dump_formula(bk, fmla2, sz2, bv, reldelta=0, blah=1)
+                    self.trace_formula(bk, fmla2, sz2)
             elif rc == XL_DEFAULTROWHEIGHT:
                 if data_len == 4:
                     bits, self.default_row_height = unpack("<HH", data[:4])
@@ -1520,6 +1520,18 @@ class Sheet(BaseObject):
         bk._position = oldpos
         return 1
 
+    def trace_formula(self, bk, fmla, fmlalen):
+        # Only for the logfile; a formula which can't be dumped
+        # is not a reason for refusing to read the sheet.
+        try:
+            # Relative references have no base cell here (cf defined names)
+            dump_formula(bk, fmla, fmlalen, self.biff_version, reldelta=1, blah=1)
+        except Exception as e:
+            fprintf(
+                self.logfile, "*** Can't dump formula: %s %s\n",
+                e.__class__.__name__, e,
+            )
+
     def string_record_contents(self, data):
         bv = self.biff_version
         bk = self.book
-- 
2.43.0


From a4a3e875e56be981dc5958792cadad881f3b988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 49/61] fix: close the ZIP file opened to inspect its format

The file was left to the garbage collector, so it was still open when an
exception raised during the inspection reached the caller, and for an
unpredictable time on Python implementations without reference counts.
---
 xlrd/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index c48653e..d953c44 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -64,13 +64,12 @@ def inspect_format(path=None, content=None):
         return 'xls'
 
     if peek.startswith(ZIP_SIGNATURE):
-        zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path)
-
-        # Workaround for some third party files that use forward slashes and
-        # lower case names. We map the expected name in lowercase to the
-        # actual filename in the zip container.
-        component_names = {name.replace('\\', '/').lower(): name
-                           for name in zf.namelist()}
+        with zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path) as zf:
+            # Workaround for some third party files that use forward slashes and
+            # lower case names. We map the expected name in lowercase to the
+            # actual filename in the zip container.
+            component_names = {name.replace('\\', '/').lower(): name
+                               for name in zf.namelist()}
 
         if 'xl/workbook.xml' in component_names:
             return 'xlsx'
-- 
2.43.0


From 71b6258fdeb94a2d8bf106fcda14d4c930b6a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:59 +0000
Subject: [PATCH 50/61] fix: runxlrd used xlrd.USE_MMAP, which does not exist
 any more

Every command but biff_dump, biff_count and version ended in an
AttributeError.
---
 scripts/runxlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index b284a59..2c9d151 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -300,7 +300,7 @@ if __name__ == "__main__":
         else:
             logfile = sys.stdout
         mmap_opt = options.mmap
-        mmap_arg = xlrd.USE_MMAP
+        mmap_arg = True # open_workbook's default
         if mmap_opt in (1, 0):
             mmap_arg = mmap_opt
         elif mmap_opt != -1:
-- 
2.43.0


From 9cffcbc16cfde67c9df26f19b22132439e7a8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:32 +0000
Subject: [PATCH 51/61] fix: runxlrd stopped at a file whose sheets couldn't be
 loaded on demand

With --on-demand the sheets are read by the command, after the workbook was
opened, and an exception then ended the run instead of going on with the
next file.
---
 scripts/runxlrd.py | 59 ++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index 2c9d151..1d35397 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -344,32 +344,39 @@ if __name__ == "__main__":
                     traceback.print_exc(file=sys.stdout)
                     continue
                 t0 = time.time()
-                if cmd == 'hdr':
-                    bk_header(bk)
-                elif cmd == 'ov': # OverView
-                    show(bk, 0)
-                elif cmd == 'show': # all rows
-                    show(bk)
-                elif cmd == '2rows': # first row and last row
-                    show(bk, 2)
-                elif cmd == '3rows': # first row, 2nd row and last row
-                    show(bk, 3)
-                elif cmd == 'bench':
-                    show(bk, printit=0)
-                elif cmd == 'fonts':
-                    bk_header(bk)
-                    show_fonts(bk)
-                elif cmd == 'names': # named reference list
-                    show_names(bk)
-                elif cmd == 'name_dump': # named reference list
-                    show_names(bk, dump=1)
-                elif cmd == 'labels':
-                    show_labels(bk)
-                elif cmd == 'xfc':
-                    count_xfs(bk)
-                else:
-                    print("*** Unknown command <%s>" % cmd)
-                    sys.exit(1)
+                try:
+                    if cmd == 'hdr':
+                        bk_header(bk)
+                    elif cmd == 'ov': # OverView
+                        show(bk, 0)
+                    elif cmd == 'show': # all rows
+                        show(bk)
+                    elif cmd == '2rows': # first row and last row
+                        show(bk, 2)
+                    elif cmd == '3rows': # first row, 2nd row and last row
+                        show(bk, 3)
+                    elif cmd == 'bench':
+                        show(bk, printit=0)
+                    elif cmd == 'fonts':
+                        bk_header(bk)
+                        show_fonts(bk)
+                    elif cmd == 'names': # named reference list
+                        show_names(bk)
+                    elif cmd == 'name_dump': # named reference list
+                        show_names(bk, dump=1)
+                    elif cmd == 'labels':
+                        show_labels(bk)
+                    elif cmd == 'xfc':
+                        count_xfs(bk)
+                    else:
+                        print("*** Unknown command <%s>" % cmd)
+                        sys.exit(1)
+                except (KeyboardInterrupt, SystemExit):
+                    raise
+                except BaseException as e:
+                    # e.g. a sheet which can't be loaded on demand
+                    print("*** Command failed: %s: %s" % (type(e).__name__, e))
+                    traceback.print_exc(file=sys.stdout)
                 del bk
                 if gc_mode == 1:
                     n_unreachable = gc.collect()
-- 
2.43.0


From 20de89a26c885b68a6fec2eef3ba3a73047e999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:43 +0000
Subject: [PATCH 52/61] fix: runxlrd labels failed if a label range reaches
 beyond the cells

e.g. with --ragged-rows
---
 scripts/runxlrd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index 1d35397..cdf0d3a 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -145,8 +145,9 @@ if __name__ == "__main__":
         for rlo, rhi, clo, chi in labs:
             print("%s label range %s:%s contains:"
                 % (title, xlrd.cellname(rlo, clo), xlrd.cellname(rhi-1, chi-1)))
-            for rx in xrange(rlo, rhi):
-                for cx in xrange(clo, chi):
+            # a range may reach beyond the cells of the sheet, or of a ragged row
+            for rx in xrange(rlo, min(rhi, sh.nrows)):
+                for cx in xrange(clo, min(chi, sh.row_len(rx))):
                     print("    %s: %r" % (xlrd.cellname(rx, cx), sh.cell_value(rx, cx)))
 
     def show_labels(bk):
-- 
2.43.0


From 44d318b1087a9eca39e0c50d9c25c02ca24053ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:45 +0000
Subject: [PATCH 53/61] fix: runxlrd show left out the last row but one of a
 sheet with 65536 rows

---
 scripts/runxlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index cdf0d3a..951f7a6 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -167,7 +167,7 @@ if __name__ == "__main__":
                 print_labels(sh, rlabs, 'Row')
             if bk.on_demand: bk.unload_sheet(shx)
 
-    def show(bk, nshow=65535, printit=1):
+    def show(bk, nshow=65536, printit=1):
         bk_header(bk)
         if 0:
             rclist = xlrd.sheet.rc_stats.items()
-- 
2.43.0


From b984195727c8d003cbc619dab4b7cc9fb2559bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:47 +0000
Subject: [PATCH 54/61] fix: runxlrd show failed on a date cell containing a
 NaN or an infinity

---
 scripts/runxlrd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index 951f7a6..f0e1d90 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -90,7 +90,8 @@ if __name__ == "__main__":
             if cty == xlrd.XL_CELL_DATE:
                 try:
                     showval = xlrd.xldate_as_tuple(cval, dmode)
-                except xlrd.XLDateError as e:
+                except (ValueError, OverflowError) as e:
+                    # XLDateError (a ValueError), or not a finite number
                     showval = "%s:%s" % (type(e).__name__, e)
                     cty = xlrd.XL_CELL_ERROR
             elif cty == xlrd.XL_CELL_ERROR:
-- 
2.43.0


From bb19587afcffae9e39f479f11b1ddc5d99afe2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:02 +0000
Subject: [PATCH 55/61] fix: TypeError for the contents of a ZIP file in an
 object that isn't a buffer

file_contents may be any object that can be sliced like bytes; if it has
the contents of an .xlsx file, say, the error is now the usual one.
---
 xlrd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index d953c44..411e654 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -64,7 +64,7 @@ def inspect_format(path=None, content=None):
         return 'xls'
 
     if peek.startswith(ZIP_SIGNATURE):
-        with zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path) as zf:
+        with zipfile.ZipFile(timemachine.BYTES_IO(content[:]) if content else path) as zf:
             # Workaround for some third party files that use forward slashes and
             # lower case names. We map the expected name in lowercase to the
             # actual filename in the zip container.
-- 
2.43.0


From 9dd779bd14eeb708bb6af1fc9b7cd9c457866b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:36 +0000
Subject: [PATCH 56/61] fix: a DIMENSIONS record after cell records does not
 hide those cells

nrows and ncols were reset to zero when the record was met, and cells
stored before it no longer counted.
---
 xlrd/sheet.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index a2a1cc1..071974c 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1098,7 +1098,6 @@ class Sheet(BaseObject):
                     dim_tuple = local_unpack('<HxxH', data[2:8])
                 else:
                     dim_tuple = local_unpack('<ixxH', data[4:12])
-                self.nrows, self.ncols = 0, 0
                 self._dimnrows, self._dimncols = dim_tuple
                 if bv in (21, 30, 40) and self.book.xf_list and not self.book._xf_epilogue_done:
                     self.book.xf_epilogue()
-- 
2.43.0


From ad80b371dc135e01e1e7de4fc104a6fec745ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 57/61] fix: string result after a continued FORMULA or ARRAY
 record made the sheet unreadable

---
 xlrd/sheet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 071974c..4aff200 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -956,6 +956,8 @@ class Sheet(BaseObject):
                         if 1: # "flags & 8" applies only to SHRFMLA
                             # actually there's an optional SHRFMLA or ARRAY etc record to skip over
                             rc2, data2_len, data2 = bk.get_record_parts()
+                            while rc2 == XL_CONTINUE: # of a very long formula
+                                rc2, data2_len, data2 = bk.get_record_parts()
                             if rc2 == XL_STRING or rc2 == XL_STRING_B2:
                                 gotstring = 1
                             elif rc2 == XL_ARRAY:
@@ -981,6 +983,8 @@ class Sheet(BaseObject):
                         # now for the STRING record
                         if not gotstring:
                             rc2, _unused_len, data2 = bk.get_record_parts()
+                            while rc2 == XL_CONTINUE: # of a very long ARRAY record
+                                rc2, _unused_len, data2 = bk.get_record_parts()
                             if rc2 not in (XL_STRING, XL_STRING_B2):
                                 raise XLRDError("Expected STRING record; found 0x%04x" % rc2)
                         # if DEBUG: print "STRING: data=%r BIFF=%d cp=%d" % (data2, self.biff_version, bk.encoding)
-- 
2.43.0


From 81a4f285056f9e00ea81e3a83beb93aa1c4614fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:22 +0000
Subject: [PATCH 58/61] fix: cell XFs made up for BIFF 2.0 named a non-existent
 parent style XF

---
 xlrd/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 4aff200..222b1dd 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1719,7 +1719,8 @@ class Sheet(BaseObject):
             bg.fill_pattern = 0
         bg.background_colour_index = 9 # white
         bg.pattern_colour_index = 8 # black
-        xf.parent_style_index = (0x0FFF, 0)[style]
+        xf.is_style = int(style)
+        xf.parent_style_index = (0, 0x0FFF)[style]
         xf.alignment.vert_align = 2 # bottom
         xf.alignment.rotation = 0
         attr_stems = [
-- 
2.43.0


From bdf05ee5acbe6252876e36b36e5ae566a0de992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:22 +0000
Subject: [PATCH 59/61] fix: reference text mixed A1 and R1C1 notation when
 only one half of the base cell was given

---
 xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 4d688b5..986907f 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -2062,7 +2062,7 @@ def dump_formula(bk, data, fmlalen, bv, reldelta, blah=0, isname=0):
 
 def rownamerel(rowx, rowxrel, browx=None, r1c1=0):
     # if no base rowx is provided, we have to return r1c1
-    if browx is None:
+    if rowxrel and browx is None:
         r1c1 = True
     if not rowxrel:
         if r1c1:
@@ -2076,7 +2076,7 @@ def rownamerel(rowx, rowxrel, browx=None, r1c1=0):
 
 def colnamerel(colx, colxrel, bcolx=None, r1c1=0):
     # if no base colx is provided, we have to return r1c1
-    if bcolx is None:
+    if colxrel and bcolx is None:
         r1c1 = True
     if not colxrel:
         if r1c1:
-- 
2.43.0


From c8672b1319aeb5b159ac55374e1dcb13aed20869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:37 +0000
Subject: [PATCH 60/61] fix: runxlrd -l left the log file empty or cut short

---
 scripts/runxlrd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index f0e1d90..d8d8d99 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -57,6 +57,7 @@ if __name__ == "__main__":
                 self.logfileobj.write(self.fileheading)
                 self.shown = 1
             self.logfileobj.write(text)
+            self.logfileobj.flush() # nobody closes the file
 
     null_cell = xlrd.empty_cell
 
-- 
2.43.0


From b0af38825039be5b8e3a6a3416ee4dcd566ecc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:23 +0000
Subject: [PATCH 61/61] fix: RecursionError on OLE2 directories with a deep
 tree

---
 xlrd/compdoc.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 2035287..697418b 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -62,16 +62,25 @@ class DirNode(object):
             print("timestamp info", self.tsinfo, file=self.logfile)
 
 def _build_family_tree(dirlist, parent_DID, child_DID):
-    if child_DID < 0: return
-    if child_DID == 0 or dirlist[child_DID].parent != -1:
-        raise CompDocError(
-            "OLE2 directory corruption: entry %d is linked to more than once" % child_DID)
-    dirlist[child_DID].parent = parent_DID
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].left_DID)
-    dirlist[parent_DID].children.append(child_DID)
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].right_DID)
-    if dirlist[child_DID].etype == 1: # storage
-        _build_family_tree(dirlist, child_DID, dirlist[child_DID].root_DID)
+    # Not recursive: the tree may be as deep as the directory is long.
+    todo = [(parent_DID, child_DID, False)]
+    while todo:
+        parent_DID, child_DID, left_done = todo.pop()
+        if left_done:
+            dirlist[parent_DID].children.append(child_DID)
+            continue
+        if child_DID < 0: continue
+        child = dirlist[child_DID]
+        if child_DID == 0 or child.parent != -1:
+            raise CompDocError(
+                "OLE2 directory corruption: entry %d is linked to more than once" % child_DID)
+        child.parent = parent_DID
+        # what is pushed last is done first
+        if child.etype == 1: # storage
+            todo.append((child_DID, child.root_DID, False))
+        todo.append((parent_DID, child.right_DID, False))
+        todo.append((parent_DID, child_DID, True))
+        todo.append((parent_DID, child.left_DID, False))
 
 
 class CompDoc(object):
-- 
2.43.0

