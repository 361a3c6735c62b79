From 9c9046ccc7c62e12725aa8bea3b7256377cb92ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 01/47] fix: count formula string results in UTF-16 units /
 encoded bytes, not decoded characters

A FORMULA whose cached result contains a character outside the BMP (or, before
BIFF8, in a multi-byte codepage) made open_workbook fail with 'Expected
CONTINUE record'.
---
 xlrd/sheet.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index a831398..bb0b37a 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1515,18 +1515,31 @@ class Sheet(BaseObject):
         offset = lenlen
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
+        elif nchars_expected == 0:
+            # The "options" byte may be missing from a zero-length string.
+            return UNICODE_LITERAL("")
+        else:
+            enc = "utf_16_le"
+        # nchars_expected is a count of UTF-16 code units (BIFF8) or of bytes
+        # in the workbook's encoding (earlier versions), and a chunk may end
+        # between two units of the one character, so decode only when all
+        # of the chunks have been collected.
         nchars_found = 0
-        result = UNICODE_LITERAL("")
+        chunks = []
         while 1:
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
-                enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
-            chunk = unicode(data[offset:], enc)
-            result += chunk
-            nchars_found += len(chunk)
+            chunk = data[offset:]
+            if bv >= 80:
+                if not flag:
+                    chunk = unicode(chunk, "latin_1").encode(enc)
+                nchars_found += len(chunk) // 2
+            else:
+                nchars_found += len(chunk)
+            chunks.append(chunk)
             if nchars_found == nchars_expected:
-                return result
+                return unicode(b''.join(chunks), enc)
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
-- 
2.43.0


From f1a7ff49bdfd4937f1f593f3269a874f9d16b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 02/47] fix: shared string with a surrogate pair split by a
 CONTINUE boundary

open_workbook raised UnicodeDecodeError when the two halves of a character
outside the BMP were stored in different records of the SST.
---
 xlrd/book.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 6876a3e..73e9364 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1415,12 +1415,18 @@ def unpack_SST_table(datatab, nstrings):
             pos += 4
         accstrg = UNICODE_LITERAL('')
         charsgot = 0
+        halfpair = b''
         while 1:
             charsneed = nchars - charsgot
             if options & 0x01:
                 # Uncompressed UTF-16
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
-                rawstrg = data[pos:pos+2*charsavail]
+                rawstrg = halfpair + data[pos:pos+2*charsavail]
+                halfpair = b''
+                if charsavail < charsneed and b'\xD8' <= rawstrg[-1:] <= b'\xDB':
+                    # A surrogate pair has been split by the CONTINUE boundary.
+                    halfpair = rawstrg[-2:]
+                    rawstrg = rawstrg[:-2]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
                 try:
                     accstrg += unicode(rawstrg, "utf_16_le")
@@ -1447,6 +1453,8 @@ def unpack_SST_table(datatab, nstrings):
             datalen = len(data)
             options = local_BYTES_ORD(data[0])
             pos = 1
+            if halfpair and not options & 0x01:
+                unicode(halfpair, "utf_16_le") # unfinished surrogate pair; raises
 
         if rtcount:
             runs = []
-- 
2.43.0


From 68bba490ee7a911e00039697b1180e15e70bfe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 03/47] fix: skip phonetic data that spans more than one
 CONTINUE record in the SST

Only one record boundary was allowed for, so a longer phonetic block made
open_workbook fail or misread the following strings.
---
 xlrd/book.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 73e9364..94cb868 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1469,14 +1469,15 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
-            # adjust to correct position in next record
+        while pos >= datalen:
+            # adjust to correct position in next record; the phonetic stuff
+            # may be spread over more than one CONTINUE record
             pos = pos - datalen
             datainx += 1
-            if datainx < ndatas:
-                data = datatab[datainx]
-                datalen = len(data)
-            else:
+            if datainx >= ndatas:
                 assert _unused_i == nstrings - 1
+                break
+            data = datatab[datainx]
+            datalen = len(data)
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From 0a9e85613f44bc0645bb9791c0472c431f62586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:12 +0000
Subject: [PATCH 04/47] fix: workbook stream whose directory entry number
 exceeds 249 overflowed the seen[] array

---
 xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 412a89e..340a6db 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -120,7 +120,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('i', [0]) * mem_data_secs
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From 7237e95ef8d190e76d02e2b02a0c6d49ca5adc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 05/47] fix: walk the directory tree iteratively, so that deep
 sibling trees can be read and cyclic ones are reported

---
 xlrd/compdoc.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 340a6db..347757d 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -62,13 +62,25 @@ class DirNode(object):
             print("timestamp info", self.tsinfo, file=self.logfile)
 
 def _build_family_tree(dirlist, parent_DID, child_DID):
-    if child_DID < 0: return
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].left_DID)
-    dirlist[parent_DID].children.append(child_DID)
-    dirlist[child_DID].parent = parent_DID
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].right_DID)
-    if dirlist[child_DID].etype == 1: # storage
-        _build_family_tree(dirlist, child_DID, dirlist[child_DID].root_DID)
+    # Not recursive: the sibling trees of a valid file may be arbitrarily deep.
+    visited = set()
+    todo = [(parent_DID, child_DID, False)]
+    while todo:
+        parent_DID, child_DID, left_done = todo.pop()
+        if child_DID < 0: continue
+        child = dirlist[child_DID]
+        if not left_done:
+            if child_DID in visited:
+                raise CompDocError("Directory corruption: entry %d is referenced more than once" % child_DID)
+            visited.add(child_DID)
+            todo.append((parent_DID, child_DID, True))
+            todo.append((parent_DID, child.left_DID, False))
+        else:
+            dirlist[parent_DID].children.append(child_DID)
+            child.parent = parent_DID
+            if child.etype == 1: # storage
+                todo.append((child_DID, child.root_DID, False))
+            todo.append((parent_DID, child.right_DID, False))
 
 
 class CompDoc(object):
-- 
2.43.0


From 79f88c8c9e3aa210c39c62c412170d34e26adb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:17 +0000
Subject: [PATCH 06/47] fix: cyclic sector chain of a stream in the
 short-stream container never terminated

---
 xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 347757d..126afed 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -322,6 +322,8 @@ class CompDoc(object):
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
                     self.seen[s] = seen_id
+                elif len(sectors) >= len(sat):
+                    raise CompDocError("%s corruption: sector chain is cyclic" % name)
                 start_pos = base + s * sec_size
                 grab = sec_size
                 if grab > todo:
-- 
2.43.0


From a4c4f407eb8b4643075bf7a43f812d5cdbdbfbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 07/47] fix: BIFF4W workbook with a PALETTE record in more than
 one sheet could not be opened

---
 xlrd/book.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlrd/book.py b/xlrd/book.py
index 94cb868..16fcdde 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1145,6 +1145,10 @@ class Book(BaseObject):
         posn = BOF_posn - 4 - len(data)
         if DEBUG: fprintf(self.logfile, 'SHEETHDR %d at posn %d: len=%d name=%r\n', sheetno, posn, sheet_len, sheet_name)
         self.initialise_format_info()
+        # Each sheet has its own PALETTE and STYLE records, too
+        formatting.initialise_colour_map(self)
+        self.palette_record = []
+        self.style_name_map = {}
         if DEBUG: print('SHEETHDR: xf epilogue flag is %d' % self._xf_epilogue_done, file=self.logfile)
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheet(sheetno, update_pos=False)
-- 
2.43.0


From fc4d5cf8c0f64162815c383cc319211c5883d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:55 +0000
Subject: [PATCH 08/47] fix: BIFF2.1 ROW record with explicit XF index 63 was
 resolved through the last IXFE record

---
 xlrd/sheet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index bb0b37a..b0054f8 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1601,9 +1601,8 @@ class Sheet(BaseObject):
         if self.biff_version == 21:
             if self.book.xf_list:
                 if true_xfx is not None:
-                    xfx = true_xfx
-                else:
-                    xfx = BYTES_ORD(cell_attr[0]) & 0x3F
+                    return true_xfx # 16 bits wide, so never deferred to an IXFE record
+                xfx = BYTES_ORD(cell_attr[0]) & 0x3F
                 if xfx == 0x3F:
                     if self._ixfe is None:
                         raise XLRDError("BIFF2 cell record has XF index 63 but no preceding IXFE record.")
-- 
2.43.0


From 1351606a3e03867f19d57863f1e6c0a8d58c6e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 09/47] fix: hyperlink URL containing a character outside the
 BMP aborted the sheet

---
 xlrd/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index b0054f8..a1da1ae 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1795,7 +1795,8 @@ class Sheet(BaseObject):
                 endpos = h.url_or_path.find('\x00')
                 if DEBUG: print("endpos=%d" % endpos, file=self.logfile)
                 h.url_or_path = h.url_or_path[:endpos]
-                true_nbytes = 2 * (endpos + 1)
+                # Count bytes, not characters: a character outside the BMP occupies 4 bytes.
+                true_nbytes = len(h.url_or_path.encode('UTF-16le')) + 2 if endpos >= 0 else 0
                 offset += true_nbytes
                 extra_nbytes = nbytes - true_nbytes
                 extra_data = data[offset:offset + extra_nbytes]
-- 
2.43.0


From 780e8c92037918655072354aa772126096333c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 10/47] fix: cell note with a surrogate pair split by a
 CONTINUE boundary aborted the sheet

---
 xlrd/sheet.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index a1da1ae..9b0df23 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -2040,21 +2040,22 @@ class Sheet(BaseObject):
             (15, 0x8000, 'secret_edit'),
         ))
         totchars = 0
-        o.text = UNICODE_LITERAL('')
+        pieces = []
         while totchars < cchText:
             rc2, data2_len, data2 = self.book.get_record_parts()
             assert rc2 == XL_CONTINUE
             if OBJ_MSO_DEBUG:
                 hex_char_dump(data2, 0, data2_len, base=0, fout=self.logfile)
             nb = BYTES_ORD(data2[0]) # 0 means latin1, 1 means utf_16_le
-            nchars = data2_len - 1
+            rawtext = data2[1:]
             if nb:
-                assert nchars % 2 == 0
-                nchars //= 2
-            utext, endpos = unpack_unicode_update_pos(data2, 0, known_len=nchars)
-            assert endpos == data2_len
-            o.text += utext
-            totchars += nchars
+                assert len(rawtext) % 2 == 0
+            else:
+                rawtext = unicode(rawtext, 'latin_1').encode('utf_16_le')
+            pieces.append(rawtext)
+            totchars += len(rawtext) // 2
+        # Decode only now: a surrogate pair may be split between two records.
+        o.text = unicode(b''.join(pieces), 'utf_16_le')
         o.rich_text_runlist = []
         totruns = 0
         while totruns < cbRuns: # counts of BYTES, not runs
-- 
2.43.0


From 3b0c98a22022c2e72cb0a09f1a0ae19992b93e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:55 +0000
Subject: [PATCH 11/47] fix: function call with no arguments in a formula
 swallowed the whole operand stack

---
 xlrd/formula.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 00e4464..bdfa135 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1084,8 +1084,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                         % (func_name, minargs, maxargs), file=bk.logfile)
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
-                assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                argpos = len(stack) - nargs # N.B. stack[-nargs:] is wrong if nargs == 0
+                argtext = listsep.join(arg.text for arg in stack[argpos:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1118,7 +1118,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                                 res.kind, res.value = oNUM, 0
                             else:
                                 res.kind, res.value = chosen.kind, chosen.value
-                del stack[-nargs:]
+                del stack[argpos:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
@@ -1655,11 +1655,11 @@ def decompile_formula(bk, fmla, fmlalen,
                         % (func_name, minargs, maxargs), file=bk.logfile)
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
-                assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                argpos = len(stack) - nargs # N.B. stack[-nargs:] is wrong if nargs == 0
+                argtext = listsep.join(arg.text for arg in stack[argpos:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
-                del stack[-nargs:]
+                del stack[argpos:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
-- 
2.43.0


From 2b410f9a6428d3ea2781fb3657edce270f39e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:55 +0000
Subject: [PATCH 12/47] fix: CHOOSE with a non-constant index in a name formula
 raised TypeError

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index bdfa135..e5a95c2 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1111,7 +1111,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             print("$$$$$$ IF => constant", file=bk.logfile)
                 elif funcx == 100: # CHOOSE
                     testarg = stack[-nargs]
-                    if testarg.kind == oNUM:
+                    if testarg.kind == oNUM and testarg.value is not None:
                         if 1 <= testarg.value < nargs:
                             chosen = stack[-nargs + int(testarg.value)]
                             if chosen.kind == oMSNG:
-- 
2.43.0


From 2a225ba9987ac39203e412960ca27730317444ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:24 +0000
Subject: [PATCH 13/47] fix: formula text lost parentheses needed for right
 operands and reference operators

---
 xlrd/formula.py | 73 +++++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 32 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index e5a95c2..51edd90 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -745,6 +745,17 @@ unop_rules = {
 
 LEAF_RANK = 90
 FUNC_RANK = 90
+# reference operators
+RANGE_RANK = 84
+ISECT_RANK = 82
+UNION_RANK = 80
+
+def arglist_text(args):
+    # A union must be parenthesised; otherwise it looks like several arguments.
+    return listsep.join(
+        '(%s)' % arg.text if arg.rank == UNION_RANK else arg.text
+        for arg in args
+    )
 
 STACK_ALARM_LEVEL = 5
 STACK_PANIC_LEVEL = 10
@@ -782,9 +793,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             aop.text,
             ')'[:aop.rank < rank],
             sym,
-            '('[:bop.rank < rank],
+            '('[:bop.rank <= rank], # all operators are left-associative
             bop.text,
-            ')'[:bop.rank < rank],
+            ')'[:bop.rank <= rank],
         ])
         resop = Operand(result_kind, None, rank, otext)
         try:
@@ -860,18 +871,17 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ' '
-                rank = 80 ########## check #######
+                rank = ISECT_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
-                res = Operand(oREF)
-                res.text = otext
+                res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oUNK or aop.kind == oUNK:
@@ -910,15 +920,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ','
-                rank = 80 ########## check #######
+                rank = UNION_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -941,15 +951,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ':'
-                rank = 80 ########## check #######
+                rank = RANGE_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1009,7 +1019,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
-                    otext = 'SUM(%s)' % aop.text
+                    otext = 'SUM(%s)' % arglist_text([aop])
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
                     sz = 4
@@ -1057,7 +1067,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                           % (funcx, func_name, nargs), file=bk.logfile)
                 assert len(stack) >= nargs
                 if nargs:
-                    argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                    argtext = arglist_text(stack[-nargs:])
                     otext = "%s(%s)" % (func_name, argtext)
                     del stack[-nargs:]
                 else:
@@ -1085,7 +1095,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 argpos = len(stack) - nargs # N.B. stack[-nargs:] is wrong if nargs == 0
-                argtext = listsep.join(arg.text for arg in stack[argpos:])
+                argtext = arglist_text(stack[argpos:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1390,9 +1400,9 @@ def decompile_formula(bk, fmla, fmlalen,
             aop.text,
             ')'[:aop.rank < rank],
             sym,
-            '('[:bop.rank < rank],
+            '('[:bop.rank <= rank], # all operators are left-associative
             bop.text,
-            ')'[:bop.rank < rank],
+            ')'[:bop.rank <= rank],
         ])
         resop = Operand(result_kind, None, rank, otext)
         stk.append(resop)
@@ -1462,18 +1472,17 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ' '
-                rank = 80 ########## check #######
+                rank = ISECT_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
-                res = Operand(oREF)
-                res.text = otext
+                res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oUNK or aop.kind == oUNK:
@@ -1498,15 +1507,15 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ','
-                rank = 80 ########## check #######
+                rank = UNION_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1525,15 +1534,15 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ':'
-                rank = 80 ########## check #######
+                rank = RANGE_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1577,7 +1586,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
-                    otext = 'SUM(%s)' % aop.text
+                    otext = 'SUM(%s)' % arglist_text([aop])
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
                     sz = 4
@@ -1624,7 +1633,7 @@ def decompile_formula(bk, fmla, fmlalen,
                           % (funcx, func_name, nargs), file=bk.logfile)
                 assert len(stack) >= nargs
                 if nargs:
-                    argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                    argtext = arglist_text(stack[-nargs:])
                     otext = "%s(%s)" % (func_name, argtext)
                     del stack[-nargs:]
                 else:
@@ -1656,7 +1665,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 argpos = len(stack) - nargs # N.B. stack[-nargs:] is wrong if nargs == 0
-                argtext = listsep.join(arg.text for arg in stack[argpos:])
+                argtext = arglist_text(stack[argpos:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 del stack[argpos:]
-- 
2.43.0


From 571531e9a7397c1f19b4e1149273534d4b695f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:21 +0000
Subject: [PATCH 14/47] fix: decompile_formula: range operator with an error
 operand corrupted the stack

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 51edd90..c1b548b 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1546,7 +1546,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
-                    res = oERR
+                    res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
                     pass
                 else:
-- 
2.43.0


From aa9a21b19c7cf1f567eaa0f6d8a962ce60409f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 15/47] fix: decompile_formula raised NameError on a tMemArea
 token

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index c1b548b..7cb951e 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1712,7 +1712,7 @@ def decompile_formula(bk, fmla, fmlalen,
             res = Operand(okind, None, LEAF_RANK, otext)
             spush(res)
         elif opcode == 0x06: # tMemArea
-            not_in_name_formula(op, oname)
+            pass # the subexpression follows; no effect on stack
         elif opcode == 0x09: # tMemFunc
             nb = unpack("<H", data[pos+1:pos+3])[0]
             if blah: print("  %d bytes of cell ref formula" % nb, file=bk.logfile)
-- 
2.43.0


From 4c862f2d6707dcabf6140b1e8ae19101110b37ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 16/47] fix: decompile_formula used an unset variable in a
 verbose message for tNameX

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 7cb951e..a579536 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1864,7 +1864,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     otext = "%s!%s" \
                             % (bk._sheet_names[tgtobj.scope], tgtobj.name)
                 if blah:
-                    print("    tNameX: setting text to", repr(res.text), file=bk.logfile)
+                    print("    tNameX: setting text to", repr(otext), file=bk.logfile)
             res = Operand(okind, ovalue, LEAF_RANK, otext)
             spush(res)
         elif opcode in error_opcodes:
-- 
2.43.0


From dd770c155c2e56bdb8b5e2540cc6f120da6b4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 17/47] fix: error constants in formula text were rendered as
 quoted strings

---
 xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index a579536..5f6cd1f 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1042,7 +1042,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 elif inx == 1: # tBool
                     text = ('FALSE', 'TRUE')[value]
                 else:
-                    text = '"' +error_text_from_code[value] + '"'
+                    text = error_text_from_code[value]
                 spush(Operand(kind, value, LEAF_RANK, text))
             else:
                 raise FormulaError("Unhandled opcode: 0x%02x" % opcode)
@@ -1609,7 +1609,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 elif inx == 1: # tBool
                     text = ('FALSE', 'TRUE')[value]
                 else:
-                    text = '"' +error_text_from_code[value] + '"'
+                    text = error_text_from_code[value]
                 spush(Operand(kind, None, LEAF_RANK, text))
             else:
                 raise FormulaError("Unhandled opcode: 0x%02x" % opcode)
-- 
2.43.0


From 9f19239ccb9249ea31b36c279ae8d7b8cf223824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 18/47] fix: rangename2d(..., r1c1=1) returned None

---
 xlrd/formula.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 5f6cd1f..b7e5302 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -2117,8 +2117,6 @@ def colname(colx):
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-    if r1c1:
-        return
     if rhi == rlo+1 and chi == clo+1:
         return cellnameabs(rlo, clo, r1c1)
     return "%s:%s" % (cellnameabs(rlo, clo, r1c1), cellnameabs(rhi-1, chi-1, r1c1))
-- 
2.43.0


From 92968c8c8fa7105fb9f65b18886e90b0237750e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:00 +0000
Subject: [PATCH 19/47] fix: sheet names holding punctuation or looking like a
 reference were not quoted in formula text

---
 xlrd/formula.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index b7e5302..9d5de4f 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -12,6 +12,7 @@ from __future__ import print_function
 
 import copy
 import operator as opr
+import re
 from struct import unpack
 
 from .biffh import (
@@ -2163,6 +2164,10 @@ def rangename3drel(book, ref3d, browx=None, bcolx=None, r1c1=0):
         return rngdesc
     return "%s!%s" % (shdesc, rngdesc)
 
+_unquoted_sheet_name_match = re.compile(r"[^\W\d][\w.]*\Z", re.UNICODE).match
+_looks_like_ref_match = re.compile(
+    r"(?:[A-Z]{1,3}[0-9]+|R[0-9]*(?:C[0-9]*)?|C[0-9]*|TRUE|FALSE)\Z", re.IGNORECASE).match
+
 def quotedsheetname(shnames, shx):
     if shx >= 0:
         shname = shnames[shx]
@@ -2173,11 +2178,12 @@ def quotedsheetname(shnames, shx):
             -3: "internal; macro sheet",
             -4: "<<external>>",
         }.get(shx, "?error %d?" % shx)
-    if "'" in shname:
-        return "'" + shname.replace("'", "''") + "'"
-    if " " in shname:
-        return "'" + shname + "'"
-    return shname
+        if " " in shname:
+            return "'" + shname + "'"
+        return shname
+    if _unquoted_sheet_name_match(shname) and not _looks_like_ref_match(shname):
+        return shname
+    return "'" + shname.replace("'", "''") + "'"
 
 def sheetrange(book, slo, shi):
     shnames = book.sheet_names()
-- 
2.43.0


From 8cd0a86b8f6fd23e5c9f00b825757d1b3f46b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 20/47] fix: sheet-scoped name in formula text: sheet name was
 unquoted, or that of another sheet for scopes below -1

---
 xlrd/formula.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 9d5de4f..51e2a93 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1157,7 +1157,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 res.text = tgtobj.name
             else:
                 res.text = "%s!%s" \
-                           % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                           % (quotedsheetname(bk._sheet_names, tgtobj.scope), tgtobj.name)
             if blah:
                 print("    tName: setting text to", repr(res.text), file=bk.logfile)
             spush(res)
@@ -1336,7 +1336,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     res.text = tgtobj.name
                 else:
                     res.text = "%s!%s" \
-                               % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                               % (quotedsheetname(bk._sheet_names, tgtobj.scope), tgtobj.name)
                 if blah:
                     print("    tNameX: setting text to", repr(res.text), file=bk.logfile)
             spush(res)
@@ -1679,7 +1679,7 @@ def decompile_formula(bk, fmla, fmlalen,
             if tgtobj.scope == -1:
                 otext = tgtobj.name
             else:
-                otext = "%s!%s" % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                otext = "%s!%s" % (quotedsheetname(bk._sheet_names, tgtobj.scope), tgtobj.name)
             if blah:
                 print("    tName: setting text to", repr(otext), file=bk.logfile)
             res = Operand(oUNK, None, LEAF_RANK, otext)
@@ -1863,7 +1863,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     otext = tgtobj.name
                 else:
                     otext = "%s!%s" \
-                            % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                            % (quotedsheetname(bk._sheet_names, tgtobj.scope), tgtobj.name)
                 if blah:
                     print("    tNameX: setting text to", repr(otext), file=bk.logfile)
             res = Operand(okind, ovalue, LEAF_RANK, otext)
-- 
2.43.0


From 9c297af200c772a0c04301f274ac1a2859fa3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 21/47] fix: operators on constants in name formulas: errors,
 references, text and out-of-range results raised or gave nonsense

---
 xlrd/formula.py | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 51e2a93..de363ba 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -720,9 +720,17 @@ def num2strg(num):
     return s
 
 _arith_argdict = {oNUM: nop,     oSTRG: float}
-_cmp_argdict =   {oNUM: nop,     oSTRG: nop}
-# Seems no conversions done on relops; in Excel, "1" > 9 produces TRUE.
+# Seems no conversions done on relops; in Excel, "1" > 9 produces TRUE
+# (any text is greater than any number), and text is compared ignoring case.
+_cmp_argdict =   {oNUM: lambda x: (0, x), oSTRG: lambda s: (1, s.lower())}
 _strg_argdict =  {oNUM:num2strg, oSTRG:nop}
+_unop_argdict =  {oNUM: nop,     oSTRG: float, oBOOL: nop}
+
+MAX_STRG_LEN = 32767 # Excel's limit
+
+def is_finite_number(x):
+    return isinstance(x, (int, float)) and x - x == 0
+
 binop_rules = {
     tAdd:   (_arith_argdict, oNUM, opr.add,  30, '+'),
     tSub:   (_arith_argdict, oNUM, opr.sub,  30, '-'),
@@ -808,11 +816,18 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         if bop.value is None or aop.value is None:
             stk.append(resop)
             return
-        bval = bconv(bop.value)
-        aval = aconv(aop.value)
-        result = func(aval, bval)
+        try:
+            bval = bconv(bop.value)
+            aval = aconv(aop.value)
+            result = func(aval, bval)
+        except (ValueError, ArithmeticError):
+            result = None # Excel would produce an error value
         if result_kind == oBOOL:
             result = 1 if result else 0
+        elif result_kind == oNUM and not is_finite_number(result):
+            result = None
+        elif result_kind == oSTRG and len(result) > MAX_STRG_LEN:
+            result = None
         resop.value = result
         stk.append(resop)
 
@@ -828,8 +843,19 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             ')'[:aop.rank < rank],
             sym2,
         ])
-        if val is not None:
-            val = func(val)
+        if opcode == 0x12 or aop.kind == oERR:
+            # Unary plus changes nothing; an error stays what it is.
+            if aop.kind in (oNUM, oSTRG, oBOOL, oERR):
+                result_kind = aop.kind
+            else:
+                val = None
+        elif val is not None:
+            try:
+                val = func(_unop_argdict[aop.kind](val))
+            except (KeyError, ValueError):
+                val = None
+            if not is_finite_number(val):
+                val = None
         stk.append(Operand(result_kind, val, rank, otext))
 
     def not_in_name_formula(op_arg, oname_arg):
-- 
2.43.0


From 06d436b1317d90c8c9239e357540493cf67d5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:49 +0000
Subject: [PATCH 22/47] fix: reference operators in name formulas: multi-area
 operands raised AssertionError, empty intersection gave an impossible range

---
 xlrd/formula.py | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index de363ba..a0c8fdf 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -400,6 +400,17 @@ error_opcodes = set([0x07, 0x08, 0x0A, 0x0B, 0x1C, 0x1D, 0x2F])
 tRangeFuncs = (min, max, min, max, min, max)
 tIsectFuncs = (max, min, max, min, max, min)
 
+MAX_UNION_AREAS = 8192
+
+def single_areas(aop, bop):
+    return (
+        aop.value is not None and len(aop.value) == 1
+        and bop.value is not None and len(bop.value) == 1
+    )
+
+def is_empty_box(coords):
+    return coords[0] >= coords[1] or coords[2] >= coords[3] or coords[4] >= coords[5]
+
 def do_box_funcs(box_funcs, boxa, boxb):
     return tuple(
         func(numa, numb)
@@ -920,23 +931,25 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     # res.kind = oREF
                     pass
                 elif bop.kind == oREF == aop.kind:
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if single_areas(aop, bop):
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
-                        res.value = [Ref3D(coords)]
+                        if is_empty_box(coords):
+                            res.kind, res.value = oERR, 0x00 # #NULL!
+                        else:
+                            res.value = [Ref3D(coords)]
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if single_areas(aop, bop):
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
                         relfb = bop.value[0].relflags
                         if relfa == relfb:
-                            res.value = [Ref3D(coords + relfa)]
+                            if is_empty_box(coords):
+                                res.kind, res.value = oERR, 0x00 # #NULL!
+                            else:
+                                res.value = [Ref3D(coords + relfa)]
                 else:
                     pass
                 spush(res)
@@ -965,9 +978,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if aop.kind == oREL or bop.kind == oREL:
                         res.kind = oREL
                     if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) >= 1
-                        assert len(bop.value) == 1
-                        res.value = aop.value + bop.value
+                        if len(aop.value) + len(bop.value) <= MAX_UNION_AREAS:
+                            res.value = aop.value + bop.value
                 else:
                     pass
                 spush(res)
@@ -992,17 +1004,13 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if single_areas(aop, bop):
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         res.value = [Ref3D(coords)]
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if single_areas(aop, bop):
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
-- 
2.43.0


From 1fe5f11195851e7f5e8c397db48f92583da5d5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:52 +0000
Subject: [PATCH 23/47] fix: a name formula that cannot be evaluated prevented
 the workbook from being opened

---
 xlrd/book.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 16fcdde..f5365b8 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1042,7 +1042,19 @@ class Book(BaseObject):
             # Parse the formula ...
             if nobj.macro or nobj.binary: continue
             if nobj.evaluated: continue
-            evaluate_name_formula(self, nobj, namex, blah=blah)
+            try:
+                evaluate_name_formula(self, nobj, namex, blah=blah)
+            except Exception as exc:
+                # Not a reason for refusing to read the workbook.
+                if self.verbosity:
+                    fprintf(f, "*** Can't evaluate the formula of name[%d]: %s: %s\n",
+                        namex, exc.__class__.__name__, exc)
+                nobj.stack = []
+                nobj.result = None
+                nobj.any_rel = 0
+                nobj.any_err = 1
+                nobj.any_external = 0
+                nobj.evaluated = 1
 
         if self.verbosity >= 2:
             print("---------- name object dump ----------", file=f)
-- 
2.43.0


From 5a8e46bb0b24deccecfbd337fe921132297dadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:30 +0000
Subject: [PATCH 24/47] fix: Name.cell() and Name.area2d() raised TypeError for
 a reference of unknown value

---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index f5365b8..fc6df14 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -209,7 +209,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value is not None and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -246,7 +246,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value is not None and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From 01974caaeb1ac1b210ad7c5a1e2a1edcdfcd3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:54 +0000
Subject: [PATCH 25/47] fix: decompile_formula raised TypeError on a relative
 3D area in a cell formula

---
 xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index a0c8fdf..7bc108a 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1819,11 +1819,11 @@ def decompile_formula(bk, fmla, fmlalen,
             spush(res)
         elif opcode == 0x1B: # tArea3d
             if bv >= 80:
-                res1, res2 = get_cell_range_addr(data, pos+3, bv, reldelta)
+                res1, res2 = get_cell_range_addr(data, pos+3, bv, reldelta, browx, bcolx)
                 refx = unpack("<H", data[pos+1:pos+3])[0]
                 shx1, shx2 = get_externsheet_local_range(bk, refx, blah)
             else:
-                res1, res2 = get_cell_range_addr(data, pos+15, bv, reldelta)
+                res1, res2 = get_cell_range_addr(data, pos+15, bv, reldelta, browx, bcolx)
                 raw_extshtx, raw_shx1, raw_shx2 = unpack("<hxxxxxxxxhh", data[pos+1:pos+15])
                 if blah:
                     print("tArea3d", raw_extshtx, raw_shx1, raw_shx2, file=bk.logfile)
-- 
2.43.0


From 253248cc8d495a758f383e40077dd52138d89669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 26/47] fix: union operand of another operator was not
 parenthesised in formula text

---
 xlrd/formula.py | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 7bc108a..f42f150 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -770,12 +770,15 @@ RANGE_RANK = 84
 ISECT_RANK = 82
 UNION_RANK = 80
 
+def operand_text(opnd, rank):
+    """Text of an operand of an operator (not a reference operator) with the given rank."""
+    # A union is parenthesised always; otherwise it could look like several arguments.
+    if opnd.rank < rank or opnd.rank == UNION_RANK:
+        return '(%s)' % opnd.text
+    return opnd.text
+
 def arglist_text(args):
-    # A union must be parenthesised; otherwise it looks like several arguments.
-    return listsep.join(
-        '(%s)' % arg.text if arg.rank == UNION_RANK else arg.text
-        for arg in args
-    )
+    return listsep.join(operand_text(arg, 0) for arg in args)
 
 STACK_ALARM_LEVEL = 5
 STACK_PANIC_LEVEL = 10
@@ -809,13 +812,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         aop = stk.pop()
         argdict, result_kind, func, rank, sym = binop_rules[opcd]
         otext = ''.join([
-            '('[:aop.rank < rank],
-            aop.text,
-            ')'[:aop.rank < rank],
+            operand_text(aop, rank),
             sym,
-            '('[:bop.rank <= rank], # all operators are left-associative
-            bop.text,
-            ')'[:bop.rank <= rank],
+            operand_text(bop, rank + 1), # all operators are left-associative
         ])
         resop = Operand(result_kind, None, rank, otext)
         try:
@@ -849,9 +848,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         func, rank, sym1, sym2 = unop_rules[opcode]
         otext = ''.join([
             sym1,
-            '('[:aop.rank < rank],
-            aop.text,
-            ')'[:aop.rank < rank],
+            operand_text(aop, rank),
             sym2,
         ])
         if opcode == 0x12 or aop.kind == oERR:
@@ -1431,13 +1428,9 @@ def decompile_formula(bk, fmla, fmlalen,
         aop = stk.pop()
         argdict, result_kind, func, rank, sym = binop_rules[opcd]
         otext = ''.join([
-            '('[:aop.rank < rank],
-            aop.text,
-            ')'[:aop.rank < rank],
+            operand_text(aop, rank),
             sym,
-            '('[:bop.rank <= rank], # all operators are left-associative
-            bop.text,
-            ')'[:bop.rank <= rank],
+            operand_text(bop, rank + 1), # all operators are left-associative
         ])
         resop = Operand(result_kind, None, rank, otext)
         stk.append(resop)
@@ -1448,9 +1441,7 @@ def decompile_formula(bk, fmla, fmlalen,
         func, rank, sym1, sym2 = unop_rules[opcode]
         otext = ''.join([
             sym1,
-            '('[:aop.rank < rank],
-            aop.text,
-            ')'[:aop.rank < rank],
+            operand_text(aop, rank),
             sym2,
         ])
         stk.append(Operand(result_kind, None, rank, otext))
-- 
2.43.0


From 57894da3dd6eaf8a541fa09a6dfceda5cceb6111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 27/47] fix: short ARRAY record of a BIFF3/4 file aborted the
 sheet

---
 xlrd/sheet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 9b0df23..8cefd61 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -954,8 +954,8 @@ class Sheet(BaseObject):
                             if rc2 == XL_STRING or rc2 == XL_STRING_B2:
                                 gotstring = 1
                             elif rc2 == XL_ARRAY:
-                                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                                    local_unpack("<HHBBBxxxxxH", data2[:14])
+                                row1x, rownx, col1x, colnx, array_flags = \
+                                    local_unpack("<HHBBB", data2[:7])
                                 if blah_formulas:
                                     fprintf(self.logfile, "ARRAY: %d %d %d %d %d\n",
                                         row1x, rownx, col1x, colnx, array_flags)
@@ -1149,8 +1149,8 @@ class Sheet(BaseObject):
                 )
                 assert pos == data_len
             elif rc == XL_ARRAY:
-                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                    local_unpack("<HHBBBxxxxxH", data[:14])
+                row1x, rownx, col1x, colnx, array_flags = \
+                    local_unpack("<HHBBB", data[:7])
                 if blah_formulas:
                     print("ARRAY:", row1x, rownx, col1x, colnx, array_flags, file=self.logfile)
                     # dump_formula(bk, data[14:], tokslen, bv, reldelta=0, blah=1)
-- 
2.43.0


From ccd1740a35e52871837f9141f9088d19601182d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 28/47] fix: BIFF2 WINDOW2 flags were always 1 on Python 3

---
 xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 8cefd61..605ccae 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1488,7 +1488,7 @@ class Sheet(BaseObject):
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
                     for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                        setattr(self, attr, int(BYTES_ORD(char) != 0))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From 0184ce6039b02725b44cded6fa19aa0da134b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:41 +0000
Subject: [PATCH 29/47] fix: empty bytes as content were taken for a missing
 argument (TypeError)

---
 xlrd/__init__.py | 4 ++--
 xlrd/book.py     | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 84d5f26..3626a2b 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -53,7 +53,7 @@ def inspect_format(path=None, content=None):
        The return value can always be looked up in :data:`FILE_FORMAT_DESCRIPTIONS`
        to return a human-readable description of the format found.
     """
-    if content:
+    if content is not None:
         peek = content[:PEEK_SIZE]
     else:
         path = os.path.expanduser(path)
@@ -64,7 +64,7 @@ def inspect_format(path=None, content=None):
         return 'xls'
 
     if peek.startswith(ZIP_SIGNATURE):
-        zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path)
+        zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content is not None else path)
 
         # Workaround for some third party files that use forward slashes and
         # lower case names. We map the expected name in lowercase to the
diff --git a/xlrd/book.py b/xlrd/book.py
index fc6df14..09fb988 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -612,7 +612,7 @@ class Book(BaseObject):
         self.on_demand = on_demand
         self.ragged_rows = ragged_rows
 
-        if not file_contents:
+        if file_contents is None:
             with open(filename, "rb") as f:
                 f.seek(0, 2) # EOF
                 size = f.tell()
@@ -628,6 +628,8 @@ class Book(BaseObject):
         else:
             self.filestr = file_contents
             self.stream_len = len(file_contents)
+            if self.stream_len == 0:
+                raise XLRDError("File size is 0 bytes")
 
         self.base = 0
         if self.filestr[:8] != compdoc.SIGNATURE:
-- 
2.43.0


From 678140bd81e1492ad8172b1860da82ed8eb60a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 30/47] fix: reference text mixed A1 and R1C1 notation when
 only one of the base row and column was given

---
 xlrd/formula.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index f42f150..2a6dd45 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -2083,8 +2083,8 @@ def dump_formula(bk, data, fmlalen, bv, reldelta, blah=0, isname=0):
 # sheet component as empty, just like Excel etc.
 
 def rownamerel(rowx, rowxrel, browx=None, r1c1=0):
-    # if no base rowx is provided, we have to return r1c1
-    if browx is None:
+    # if no base rowx is provided for a relative row, we have to return r1c1
+    if rowxrel and browx is None:
         r1c1 = True
     if not rowxrel:
         if r1c1:
@@ -2097,8 +2097,8 @@ def rownamerel(rowx, rowxrel, browx=None, r1c1=0):
     return "%d" % ((browx + rowx) % 65536 + 1)
 
 def colnamerel(colx, colxrel, bcolx=None, r1c1=0):
-    # if no base colx is provided, we have to return r1c1
-    if bcolx is None:
+    # if no base colx is provided for a relative column, we have to return r1c1
+    if colxrel and bcolx is None:
         r1c1 = True
     if not colxrel:
         if r1c1:
-- 
2.43.0


From d7aa44eae2addad266f40d5dff2b7bf72f506023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 31/47] fix: open_workbook did not expand ~ in a path that
 inspect_format accepts

---
 xlrd/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 3626a2b..5e5331c 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -163,6 +163,8 @@ def open_workbook(filename=None,
     :returns: An instance of the :class:`~xlrd.book.Book` class.
     """
 
+    if file_contents is None:
+        filename = os.path.expanduser(filename)
     file_format = inspect_format(filename, file_contents)
     # We have to let unknown file formats pass through here, as some ancient
     # files that xlrd can parse don't start with the expected signature.
-- 
2.43.0


From d774be35f71cf196b5a834a080cfa45ca8e53ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 32/47] fix: verbose dump of a conditional format formula with
 a relative reference raised TypeError

---
 xlrd/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 605ccae..75ffe34 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1231,13 +1231,13 @@ class Sheet(BaseObject):
                 pos += sz1
                 if blah and sz1:
                     fprintf(self.logfile, "*** formula 1:\n")
-                    dump_formula(bk, fmla1, sz1, bv, reldelta=0, blah=1)
+                    dump_formula(bk, fmla1, sz1, bv, reldelta=1, blah=1)
                 fmla2 = data[pos:pos+sz2]
                 pos += sz2
                 assert pos == data_len
                 if blah and sz2:
                     fprintf(self.logfile, "*** formula 2:\n")
-                    dump_formula(bk, fmla2, sz2, bv, reldelta=0, blah=1)
+                    dump_formula(bk, fmla2, sz2, bv, reldelta=1, blah=1)
             elif rc == XL_DEFAULTROWHEIGHT:
                 if data_len == 4:
                     bits, self.default_row_height = unpack("<HH", data[:4])
-- 
2.43.0


From b9a6c534cefd46fc2c94eb9733e771a399685293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:20 +0000
Subject: [PATCH 33/47] fix: padding at the end of an OLE2 workbook stream was
 counted and dumped as records

---
 xlrd/biffh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/biffh.py b/xlrd/biffh.py
index 07ac629..60a4648 100644
--- a/xlrd/biffh.py
+++ b/xlrd/biffh.py
@@ -559,7 +559,7 @@ def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbere
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if mem[pos:stream_end] == b'\0' * (stream_end - pos):
                 dummies = stream_end - pos
                 savpos = pos
                 pos = stream_end
@@ -602,7 +602,7 @@ def biff_count_records(mem, stream_offset, stream_len, fout=sys.stdout):
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if mem[pos:stream_end] == b'\0' * (stream_end - pos):
                 break
             recname = "<Dummy (zero)>"
         else:
-- 
2.43.0


From f50fbb92548bdc42a66663cd5dbe049d9d00b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:25 +0000
Subject: [PATCH 34/47] fix: dump of a truncated last record ran past the end
 of the OLE2 stream

---
 xlrd/biffh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/biffh.py b/xlrd/biffh.py
index 60a4648..a61a866 100644
--- a/xlrd/biffh.py
+++ b/xlrd/biffh.py
@@ -581,7 +581,7 @@ def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbere
                 num_prefix = "%5d: " % (adj + pos)
             fprintf(fout, "%s%04x %s len = %04x (%d)\n", num_prefix, rc, recname, length, length)
             pos += 4
-            hex_char_dump(mem, pos, length, adj+pos, fout, unnumbered)
+            hex_char_dump(mem, pos, min(length, stream_end-pos), adj+pos, fout, unnumbered)
             pos += length
     if dummies:
         if numbered:
-- 
2.43.0


From 67053a5c0f74283667fda2c99ce2c543e032f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 35/47] fix: ragged_rows left an empty cell at the end of a row
 that only merged cells reach

---
 xlrd/sheet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 75ffe34..29dc45a 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -618,6 +618,12 @@ class Sheet(BaseObject):
                 # we have the right number of rows. The ragged rows
                 # will sort out the rest if needed.
                 self.put_cell(nr-1, 0, XL_CELL_EMPTY, UNICODE_LITERAL(''), -1)
+                if self.ragged_rows:
+                    # ... but there are no empty cells at the ends of rows
+                    del self._cell_types[-1][:]
+                    del self._cell_values[-1][:]
+                    if self.formatting_info:
+                        del self._cell_xf_indexes[-1][:]
         if (self.verbosity >= 1 and
                 (self.nrows != self._dimnrows or self.ncols != self._dimncols)):
             fprintf(
-- 
2.43.0


From d7dff2c892da8c7a4a05150fab5931e989c1a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:29 +0000
Subject: [PATCH 36/47] fix: books without workbook globals (BIFF2-4) shared
 one name_map and name_and_scope_map

---
 xlrd/book.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/book.py b/xlrd/book.py
index 09fb988..f71ffd3 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -588,6 +588,8 @@ class Book(BaseObject):
         self._resources_released = 0
         self.addin_func_names = []
         self.name_obj_list = []
+        self.name_and_scope_map = {}
+        self.name_map = {}
         self.colour_map = {}
         self.palette_record = []
         self.xf_list = []
-- 
2.43.0


From 236628d3c2b15fd46b6e8b22ec5ce748d49d2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:46 +0000
Subject: [PATCH 37/47] fix: numbers in BIFF3/4 files without FORMAT records
 were given type text

---
 xlrd/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index ca637b8..74fad72 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -1036,7 +1036,7 @@ def xf_epilogue(self):
             fmt = self.format_map[xf.format_key]
             cellty = _cellty_from_fmtty[fmt.type]
         except KeyError:
-            cellty = XL_CELL_TEXT
+            cellty = XL_CELL_NUMBER
         self._xf_index_to_xl_type_map[xf.xf_index] = cellty
         # Now for some assertions etc
         if not self.formatting_info:
-- 
2.43.0


From a55e77c5ad402f61ffa5ff019027620bfa0c186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:19 +0000
Subject: [PATCH 38/47] fix: runxlrd.py no longer needs the removed
 xlrd.USE_MMAP

---
 scripts/runxlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index b284a59..cca6ef2 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -300,7 +300,7 @@ if __name__ == "__main__":
         else:
             logfile = sys.stdout
         mmap_opt = options.mmap
-        mmap_arg = xlrd.USE_MMAP
+        mmap_arg = True
         if mmap_opt in (1, 0):
             mmap_arg = mmap_opt
         elif mmap_opt != -1:
-- 
2.43.0


From f4ce7cd27efbb8197a9c90198a1a3b9161e256e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 39/47] fix: runxlrd.py labels failed on label ranges that
 extend beyond the cells of the sheet

---
 scripts/runxlrd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index cca6ef2..1945a61 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -145,8 +145,8 @@ if __name__ == "__main__":
         for rlo, rhi, clo, chi in labs:
             print("%s label range %s:%s contains:"
                 % (title, xlrd.cellname(rlo, clo), xlrd.cellname(rhi-1, chi-1)))
-            for rx in xrange(rlo, rhi):
-                for cx in xrange(clo, chi):
+            for rx in xrange(rlo, min(rhi, sh.nrows)):
+                for cx in xrange(clo, min(chi, sh.row_len(rx))):
                     print("    %s: %r" % (xlrd.cellname(rx, cx), sh.cell_value(rx, cx)))
 
     def show_labels(bk):
-- 
2.43.0


From 09065abf00bd636f23f5e6570706ada5b81f80f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:49 +0000
Subject: [PATCH 40/47] fix: SUPBOOK record continued in the middle of a sheet
 name prevented opening

---
 xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index f71ffd3..b9e23a5 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1133,7 +1133,7 @@ class Book(BaseObject):
         for x in range(num_sheets):
             try:
                 shname, pos = unpack_unicode_update_pos(data, pos, lenlen=2)
-            except struct.error:
+            except (struct.error, IndexError, UnicodeDecodeError):
                 # #### FIX ME ####
                 # Should implement handling of CONTINUE record(s) ...
                 if self.verbosity:
-- 
2.43.0


From 5b93752d12671920fb8349276ce26859b3b656ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 41/47] fix: CompDoc returned a stream for a path that leads
 through the stream

---
 xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 126afed..ac93604 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -354,6 +354,8 @@ class CompDoc(object):
             if dl[child].name.lower() == head.lower():
                 et = dl[child].etype
                 if et == 2:
+                    if tail:
+                        return None # a stream contains nothing
                     return dl[child]
                 if et == 1:
                     if not tail:
-- 
2.43.0


From 76fae602e929dc0ba350223b976372669551e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:57 +0000
Subject: [PATCH 42/47] fix: CompDoc reported corruption when a stream was read
 a second time

---
 xlrd/compdoc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index ac93604..782fe80 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -366,6 +366,13 @@ class CompDoc(object):
         return None
 
 
+    def _forget_stream(self, seen_id):
+        # A stream may be read more than once; its sectors are not corrupt then.
+        seen = self.seen
+        for sid, mark in enumerate(seen):
+            if mark == seen_id:
+                seen[sid] = 0
+
     def get_named_stream(self, qname):
         """
         Interrogate the compound document's directory; return the stream as a
@@ -379,6 +386,7 @@ class CompDoc(object):
         if d is None:
             return None
         if d.tot_size >= self.min_size_std_stream:
+            self._forget_stream(d.DID+6)
             return self._get_stream(
                 self.mem, 512, self.SAT, self.sec_size, d.first_SID,
                 d.tot_size, name=qname, seen_id=d.DID+6)
@@ -411,6 +419,7 @@ class CompDoc(object):
             raise CompDocError("%r stream length (%d bytes) > file data size (%d bytes)"
                 % (qname, d.tot_size, self.mem_data_len))
         if d.tot_size >= self.min_size_std_stream:
+            self._forget_stream(d.DID+6)
             result = self._locate_stream(
                 self.mem, 512, self.SAT, self.sec_size, d.first_SID,
                 d.tot_size, qname, d.DID+6)
-- 
2.43.0


From 8f89135e2e33cefcb33dbc65e5632fd277d128d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:51 +0000
Subject: [PATCH 43/47] fix: runxlrd.py show and bench left out row 65535 of a
 sheet with 65536 rows

---
 scripts/runxlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index 1945a61..9fb26f5 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -166,7 +166,7 @@ if __name__ == "__main__":
                 print_labels(sh, rlabs, 'Row')
             if bk.on_demand: bk.unload_sheet(shx)
 
-    def show(bk, nshow=65535, printit=1):
+    def show(bk, nshow=65536, printit=1):
         bk_header(bk)
         if 0:
             rclist = xlrd.sheet.rc_stats.items()
-- 
2.43.0


From 6291093f1b68c90d966c02cc1a9f23e44645c7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:55 +0000
Subject: [PATCH 44/47] fix: cell_xf_index with a negative index missed the row
 and column default XF

---
 xlrd/sheet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 29dc45a..e4dfc00 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -439,6 +439,11 @@ class Sheet(BaseObject):
         if xfx > -1:
             self._xf_index_stats[0] += 1
             return xfx
+        # The row and column defaults are keyed by non-negative indexes.
+        if colx < 0:
+            colx += len(self._cell_xf_indexes[rowx])
+        if rowx < 0:
+            rowx += self.nrows
         # Check for a row xf_index
         try:
             xfx = self.rowinfo_map[rowx].xf_index
-- 
2.43.0


From ef14f979f052078e8df64ca424963a88d539e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:36 +0000
Subject: [PATCH 45/47] fix: colname failed beyond column ZZ, e.g. in the
 verbose message about a damaged range

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 2a6dd45..d670bc5 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -2139,7 +2139,7 @@ def colname(colx):
         return alphabet[colx]
     else:
         xdiv26, xmod26 = divmod(colx, 26)
-        return alphabet[xdiv26 - 1] + alphabet[xmod26]
+        return colname(xdiv26 - 1) + alphabet[xmod26]
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-- 
2.43.0


From 8923a19b0eb2b49ce4fdc9906b047d046b541a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:39 +0000
Subject: [PATCH 46/47] fix: a conditional format with a number format,
 alignment or protection part prevented opening with formatting_info

---
 xlrd/sheet.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index e4dfc00..7d5b4df 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1201,10 +1201,13 @@ class Sheet(BaseObject):
                     )
             elif rc == XL_CF:
                 if not fmt_info: continue
-                cf_type, cmp_op, sz1, sz2, flags = unpack("<BBHHi", data[0:10])
+                cf_type, cmp_op, sz1, sz2, flags, flags2 = unpack("<BBHHiH", data[0:12])
+                numf_block = (flags >> 25) & 1
                 font_block = (flags >> 26) & 1
+                algn_block = (flags >> 27) & 1
                 bord_block = (flags >> 28) & 1
                 patt_block = (flags >> 29) & 1
+                prot_block = (flags >> 30) & 1
                 if self.verbosity >= 1:
                     fprintf(
                         self.logfile,
@@ -1216,6 +1219,11 @@ class Sheet(BaseObject):
                     )
                 # hex_char_dump(data, 0, data_len, fout=self.logfile)
                 pos = 12
+                if numf_block:
+                    if flags2 & 1: # number format string, preceded by the size of the block
+                        pos += unpack("<H", data[pos:pos+2])[0]
+                    else: # number format index
+                        pos += 2
                 if font_block:
                     (font_height, font_options, weight, escapement, underline,
                      font_colour_index, two_bits, font_esc, font_underl) = unpack("<64x i i H H B 3x i 4x i i i 18x", data[pos:pos+118])
@@ -1234,10 +1242,14 @@ class Sheet(BaseObject):
                             font_style, posture, font_canc, cancellation,
                         )
                     pos += 118
+                if algn_block:
+                    pos += 8
                 if bord_block:
                     pos += 8
                 if patt_block:
                     pos += 4
+                if prot_block:
+                    pos += 2
                 fmla1 = data[pos:pos+sz1]
                 pos += sz1
                 if blah and sz1:
-- 
2.43.0


From fbf52583d4267ef85c63825b35fbe0265744b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:42 +0000
Subject: [PATCH 47/47] fix: verbose dump of a conditional format formula with
 a range operator, or a damaged one, prevented opening

---
 xlrd/sheet.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 7d5b4df..c47fc03 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1254,13 +1254,13 @@ class Sheet(BaseObject):
                 pos += sz1
                 if blah and sz1:
                     fprintf(self.logfile, "*** formula 1:\n")
-                    dump_formula(bk, fmla1, sz1, bv, reldelta=1, blah=1)
+                    self.dump_cf_formula(bk, fmla1, sz1, bv)
                 fmla2 = data[pos:pos+sz2]
                 pos += sz2
                 assert pos == data_len
                 if blah and sz2:
                     fprintf(self.logfile, "*** formula 2:\n")
-                    dump_formula(bk, fmla2, sz2, bv, reldelta=1, blah=1)
+                    self.dump_cf_formula(bk, fmla2, sz2, bv)
             elif rc == XL_DEFAULTROWHEIGHT:
                 if data_len == 4:
                     bits, self.default_row_height = unpack("<HH", data[:4])
@@ -1530,6 +1530,13 @@ class Sheet(BaseObject):
         bk._position = oldpos
         return 1
 
+    def dump_cf_formula(self, bk, fmla, fmlalen, bv):
+        # A formula that the dumper can't cope with must not stop the sheet being read.
+        try:
+            dump_formula(bk, fmla, fmlalen, bv, reldelta=1, blah=1)
+        except Exception as exc:
+            fprintf(self.logfile, "*** formula not dumped: %s: %s\n", exc.__class__.__name__, exc)
+
     def string_record_contents(self, data):
         bv = self.biff_version
         bk = self.book
-- 
2.43.0

