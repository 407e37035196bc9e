From dda831ae1571bdcae1d9c653da4427272daf6165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 01/83] fix: accept the documented `-` move-modifier in xl-refs

"#A1(RD-)" was rejected with a SyntaxError, although documented as "stop on
the landing-cell" (as what the undocumented "?" does).
---
 pandalone/xleash/_capture.py | 2 +-
 pandalone/xleash/_parse.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index 190ed8a..6b4921e 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -773,7 +773,7 @@ def resolve_capture_rect(
                 if (
                     nd_edge.mod == "+"
                     or nd_edge.land == Cell(".", ".")
-                    and nd_edge.mod != "?"
+                    and nd_edge.mod not in ("?", "-")
                 ):
                     nd = _target_same(states_matrix, dn_margin, nd, mov, "2nd-")
             else:
diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index 18a4017..e0bd222 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -157,7 +157,7 @@ _regular_xlref_regex = re.compile(
         )
         (?:\(
             (?P<st_mov>L|U|R|D|LD|LU|UL|UR|RU|RD|DL|DR)      # moves
-            (?P<st_mod>[+?])?                                # move modifiers
+            (?P<st_mod>[+?-])?                               # move modifiers
             \)
         )?
     )?
@@ -174,7 +174,7 @@ _regular_xlref_regex = re.compile(
             )
             (?:\(
                 (?P<nd_mov>L|U|R|D|LD|LU|UL|UR|RU|RD|DL|DR)  # moves
-                (?P<nd_mod>[+?])?                            # move-modifiers
+                (?P<nd_mod>[+?-])?                           # move-modifiers
                 \)
             )?
         )?
-- 
2.43.0


From 214bc20089f8bf0867d9e15b87a069d242b15453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 02/83] fix: encased xl-refs could be parsed but never lassoed

The original text was stored under a bogus "xl-ref" key, choking the Lasso.
---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index e0bd222..3bdb6c9 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -477,7 +477,7 @@ def parse_xlref(xlref):
         else:
             if m:
                 res = _parse_xlref(m.group(2))
-                res["xl-ref"] = xlref
+                res["xl_ref"] = xlref
             else:
                 raise ex
 
-- 
2.43.0


From bf138799517b4f7416c697bdda3ad09e07044aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 03/83] fix: expansion multiplicities containing a zero were
 syntax errors

I.e. `#A1:B2:R11` was fine but not `#A1:B2:R10`.
---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index 3bdb6c9..89dde57 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -179,7 +179,7 @@ _regular_xlref_regex = re.compile(
             )?
         )?
         (?:
-            :(?P<exp_moves>[LURD?123456789]+)                # expansion moves
+            :(?P<exp_moves>[LURD?123456789][LURD?0-9]*)      # expansion moves
         )?
     )?
     (?:
-- 
2.43.0


From 6dc28842ee51ab480bd9548948391a723e453f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 04/83] fix: ArraySheet altered the values of mixed-type cells

i.e. [[1, "a"]] was read back as ["1", "a"], and [[True, 2]] as [1, 2].
---
 pandalone/xleash/io/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 632e534..0cff6ae 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -436,7 +436,7 @@ class ArraySheet(ABCSheet):
     """A sample :class:`ABCSheet` made out of 2D-list or numpy-arrays, for facilitating tests."""
 
     def __init__(self, arr, ids=SheetId("wb", ["sh", 0])):
-        self._arr = np.asarray(arr)
+        self._arr = np.asarray(arr, dtype=object)
         self._ids = ids
 
     def open_sibling_sheet(self, sheet_id):
-- 
2.43.0


From 275b0d9c887abc87c93dee98f116e7a2b2d9c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 05/83] fix: negative coords beyond the start of the sheet
 wrapped around

i.e. on a sheet with 2 full rows followed by 2 blank ones, `#R-4C1:R1C1`
silently dropped the 1st row, and `#R-4C1` fetched some other cell.
---
 pandalone/xleash/_capture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index 6b4921e..35842ed 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -270,6 +270,8 @@ def _resolve_coord(cname, cfunc, coord, up_coord, dn_coord, base_coords=None):
             # Resolve negatives as from the end.
             if rcoord < 0:
                 rcoord = dn_coord + rcoord + 1
+                if rcoord < 0:
+                    raise ValueError("Negative coord is beyond sheet's start!")
 
         return rcoord
     except Exception as ex:
-- 
2.43.0


From ebf00def0f5daabe4a8d47080c02039687cb12b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 06/83] fix: cells beyond column ZZ crashed when converted to
 A1

---
 pandalone/xleash/_capture.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index 35842ed..8d2261c 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -22,13 +22,6 @@ from ._parse import Cell
 
 log = logging.getLogger(__name__)
 
-try:
-    from xlrd import colname as xl_colname
-
-    # TODO: Try different backends providing `colname` function.
-except ImportError:
-    log.warning("One of `xlrd`, `...` libraries is needed, will crash later!")
-
 
 CHECK_CELLTYPE = False
 """When `True`, most coord-functions accept any 2-tuples."""
@@ -50,6 +43,27 @@ _primitive_dir_vectors = {
 }
 
 
+def _num2col(col):
+    """
+    Converts a zero-based column number to Excel *A1* letters.
+
+    .. Note:: :func:`xlrd.colname()` fails beyond column ``ZZ``.
+
+    Examples::
+
+        >>> _num2col(26)
+        'AA'
+        >>> _num2col(702)
+        'AAA'
+    """
+    letters = ""
+    col += 1
+    while col > 0:
+        col, digit = divmod(col - 1, 26)
+        letters = ascii_uppercase[digit] + letters
+    return letters
+
+
 def coords2Cell(row, col):
     """Make *A1* :class:`Cell` from *resolved* coords, with rudimentary error-checking.
 
@@ -74,7 +88,7 @@ def coords2Cell(row, col):
         row = str(row + 1)
     if col not in _special_coord_symbols:
         assert col >= 0, "negative col!"
-        col = xl_colname(col)
+        col = _num2col(col)
     return Cell(row=row, col=col)
 
 
-- 
2.43.0


From 043f1bbbcff955b2d3dfa8ac64406fb9b87dc5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 07/83] fix: unresolvable coords of lone edges reported as
 TypeErrors

---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index fc3a5d8..6afc00c 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -39,7 +39,7 @@ def _build_call_help(name, func, desc):
 def _Lasso_to_edges_str(lasso):
     st = lasso.st_edge if lasso.st_edge else ""
     nd = lasso.nd_edge if lasso.nd_edge else ""
-    s = st if st and not nd else "%s:%s" % (st, nd)
+    s = str(st) if st and not nd else "%s:%s" % (st, nd)
     exp = ":%s" % lasso.exp_moves.upper() if lasso.exp_moves else ""
     return s + exp
 
-- 
2.43.0


From d3de00843e04e38f99956ad194b0cff676b4e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 08/83] fix: encased xl-refs with filters were rejected

---
 pandalone/xleash/_parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index 89dde57..81aae5b 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -469,7 +469,8 @@ def parse_xlref(xlref):
     """
     try:
         res = _parse_xlref(xlref)
-    except SyntaxError as ex:
+    except (SyntaxError, ValueError) as ex:
+        # NOTE: a closing delimiter after filters breaks their JSON.
         try:
             m = _encase_regex.match(xlref)
         except SyntaxError:
-- 
2.43.0


From 0328f28c10e3376d79338656af67b5d5210aba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 09/83] fix: dates of workbooks saved in the 1904 system were
 read 4 years off

---
 pandalone/xleash/io/_xlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index df8548a..440f705 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -139,7 +139,7 @@ def _open_sheet_by_name_or_index(xlrd_book, wb_id, sheet_id):
                 raise xl_ex from None
             else:
                 xl_sh = xlrd_book.sheet_by_index(sheet_id)
-    return XlrdSheet(xl_sh, wb_id)
+    return XlrdSheet(xl_sh, wb_id, bool(xlrd_book.datemode))
 
 
 class XlrdSheet(ABCSheet):
-- 
2.43.0


From 4a821200f6727b9cefc443cd196942abb25d959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 10/83] fix: bottom-right margins of Excel sheets included
 blank cells

---
 pandalone/xleash/io/_xlrd.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index 440f705..9797989 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -32,7 +32,7 @@ import xlrd
 
 import numpy as np
 
-from .. import EmptyCaptureException, Coords, io_backends
+from .. import EmptyCaptureException, io_backends
 from ... import utils, xlsutils
 
 
@@ -179,11 +179,10 @@ class XlrdSheet(ABCSheet):
         return (types != XL_CELL_EMPTY) & (types != XL_CELL_BLANK)
 
     def _read_margin_coords(self):
-        nrows = self._sheet.nrows - 1
-        ncols = self._sheet.ncols - 1
-        if nrows < 0 or ncols < 0:
+        if self._sheet.nrows < 1 or self._sheet.ncols < 1:
             raise EmptyCaptureException("empty sheet")
-        return None, Coords(nrows, ncols)
+        # NOTE: xlrd's dimensions may include blank cells, i.e. merged ones.
+        return None, None
 
     def read_rect(self, st, nd):
         """See super-method. """
-- 
2.43.0


From 44c6c4816e6abd2f99ea3c4bda6783f9961bda23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 11/83] fix: remote workbooks could not be opened

---
 pandalone/xleash/io/_xlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index 9797989..97b1ebb 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -247,7 +247,7 @@ class XlrdBackend(ABCBackend):
             http_opts = ropts.get("http_opts", {})
             with request.urlopen(url, **http_opts) as response:
                 log.info("Opening book(%r)...", filename)
-                book = xlrd.open_workbook(filename, file_contents=response, **ropts)
+                book = xlrd.open_workbook(url, file_contents=response.read(), **ropts)
 
         return book
 
-- 
2.43.0


From 5cb89c681288057653a376517d93e30c6e9da9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 12/83] fix: long paths from URLs got the UNC-prefix as suffix

---
 pandalone/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 40f5252..4acd105 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -182,8 +182,8 @@ def urlpath2path(url):
     p = ur.url2pathname(url)
     if _is_dir_regex.search(url) and p[-1] != os.sep:
         p = p + osp.sep
-    if len(p) > 200:
-        p += _unc_prefix
+    if os.name == "nt" and len(p) > 200:
+        p = _unc_prefix + p
     return p
 
 
-- 
2.43.0


From df4989d056a24b30599e09fbcf73ef8422e371d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 13/83] fix: closing an Excel sheet made its siblings unable to
 open it anew

---
 pandalone/xleash/io/_xlrd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index 97b1ebb..b6be936 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -156,7 +156,10 @@ class XlrdSheet(ABCSheet):
 
     def _close(self):
         """ Override it to release resources for this sheet."""
-        self._sheet.book.unload_sheet(self._sheet.name)
+        book = self._sheet.book
+        # Only on-demand books can reload a sheet, if some sibling asks for it.
+        if book.on_demand:
+            book.unload_sheet(self._sheet.name)
 
     def _close_all(self):
         """ Override it to release resources this and all sibling sheets."""
-- 
2.43.0


From 39fefee3c667b1d8e9d31937e2d0ad2919c66a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 14/83] fix: non-caching sheets-factory crashed when fetching
 siblings

---
 pandalone/xleash/io/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 0cff6ae..98a5d37 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -78,7 +78,7 @@ class SimpleSheetsFactory(object):
             if sheet_id is None:
                 sheet = base_sheet
             else:
-                base_sheet.open_sibling_sheet(sheet_id)
+                sheet = base_sheet.open_sibling_sheet(sheet_id)
         else:
             url = utils.path2url(wb_url)
             sheet = self._open_sheet(url, sheet_id)
-- 
2.43.0


From d9b2fa7833871ae3a843c252e6d1df5285aafc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 15/83] fix: redim altered the values of mixed-type rects

---
 pandalone/xleash/_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 904bc6a..c68d8c3 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -158,7 +158,7 @@ def _redim(values, new_ndim):
     if new_ndim is None:
         return values
 
-    values = np.asarray(values)
+    values = np.asarray(values, dtype=object)
     try:
         new_ndim, transpose = new_ndim
         if transpose:
-- 
2.43.0


From 6232fe1a80b9d7ede56faba94228523f9b837517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 16/83] fix: redim crashed when squeezing more than one inner
 dimensions

---
 pandalone/xleash/_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index c68d8c3..37bee00 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -112,8 +112,7 @@ def _downdim(values, new_ndim):
     elif offset == trivial_ndims:
         values = values.squeeze()
     else:
-        for _, indx in zip(range(offset), trivial_indxs):
-            values = values.squeeze(indx)
+        values = values.squeeze(tuple(trivial_indxs[:offset]))
 
     return values
 
-- 
2.43.0


From 09ec0acea0112742eb46417a28dda04290df9592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 17/83] fix: redim flattened tables more than asked

---
 pandalone/xleash/_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 37bee00..da58782 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -108,7 +108,7 @@ def _downdim(values, new_ndim):
     offset = values.ndim - new_ndim
     trivial_ndims = len(trivial_indxs)
     if offset > trivial_ndims:
-        values = values.flatten()
+        values = _updim(values.flatten(), new_ndim)
     elif offset == trivial_ndims:
         values = values.squeeze()
     else:
-- 
2.43.0


From e88842ffbbb896ba34ef330a0b82a5cb857b76bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:15 +0000
Subject: [PATCH 18/83] fix: relative xl-refs in recursed cells resolved
 against the top-left cell of the rect

---
 pandalone/xleash/_filter.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index da58782..43a9bb8 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -283,16 +283,19 @@ def run_filter_elementwise(
             row, col = base_coords
             try:
                 import pandas as pd
+
+                is_df = isinstance(elval, pd.DataFrame)
+                is_sr = isinstance(elval, pd.Series)
             except ImportError:
-                if cdepth == 0:
-                    row += i
-                elif cdepth == 1:
-                    col += +i
-            else:
-                if isinstance(elval, pd.DataFrame):
-                    col += i
-                elif isinstance(elval, pd.Series):
-                    row += i
+                is_df = is_sr = False
+            if is_df:
+                col += i
+            elif is_sr:
+                row += i
+            elif cdepth == 0:
+                row += i
+            elif cdepth == 1:
+                col += i
 
             return row, col
 
-- 
2.43.0


From cbf18d76030e8fe0e8a3d2711390876138090e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 19/83] fix: failing element-wise filters left values
 half-processed when laxed

---
 pandalone/xleash/_filter.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 43a9bb8..f2474f9 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -15,6 +15,7 @@ Prefer accessing the public members from the parent module.
 
 
 from collections import namedtuple, OrderedDict
+from copy import copy
 import logging
 
 
@@ -324,9 +325,13 @@ def run_filter_elementwise(
     def dive_list(elval, cdepth, base_coords):
         proced, elval = call_element_func(elval, cdepth, base_coords)
         if not proced and isinstance(elval, list):
-            for i, v in enumerate(elval):
-                nbc = upd_base_coords(elval, cdepth, base_coords, i)
-                elval[i] = dive_indexed(v, cdepth + 1, nbc)
+            # Not in-place: failures must leave values intact, for *lax*.
+            elval = [
+                dive_indexed(
+                    v, cdepth + 1, upd_base_coords(elval, cdepth, base_coords, i)
+                )
+                for i, v in enumerate(elval)
+            ]
 
         return elval
 
@@ -338,6 +343,7 @@ def run_filter_elementwise(
             except:
                 pass  # Just to avoid chained ex.
             else:
+                elval = copy(elval)
                 for i, (k, v) in enumerate(items):
                     # Dict is not ordered, so cannot locate `base_coords`!
                     if is_included(elval, k, cdepth):
-- 
2.43.0


From 5f31e9a21be3de3a580be07aa70a898b81e52d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 20/83] fix: lax keyword of sub-filters was obeyed only once

---
 pandalone/xleash/_lasso.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 6afc00c..2f74a92 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -113,6 +113,7 @@ class Ranger(object):
         lasso = self._relasso(lasso, func_name)
 
         verbose = lasso.opts.get("verbose", False)
+        kwds = dict(kwds)  # Call-specs are re-used on each element.
         lax = kwds.pop("lax", lasso.opts.get("lax", False))
         func, func_desc = "", ""
         try:
-- 
2.43.0


From f747104f31a075325da2db04e19b4a2381c4cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 21/83] fix: opts of xl-refs discarded all base-opts

---
 pandalone/xleash/_lasso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 2f74a92..8489e13 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -157,6 +157,8 @@ class Ranger(object):
         try:
             parsed_fields = _parse.parse_xlref(xlref)
             filled_fields = dtz.valfilter(lambda v: v is not None, parsed_fields)
+            if "opts" in filled_fields:
+                filled_fields["opts"] = init_lasso.opts.new_child(filled_fields["opts"])
             init_lasso = init_lasso._replace(**filled_fields)
         except SyntaxError:
             raise
-- 
2.43.0


From 2874fe6ae9e25ef4ecfcdb47074f01f0e02b6ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:46 +0000
Subject: [PATCH 22/83] fix: verbose option masked filter errors with
 AttributeErrors

---
 pandalone/xleash/_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 8489e13..d5d97aa 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -31,8 +31,8 @@ log = logging.getLogger(__name__)
 
 
 def _build_call_help(name, func, desc):
-    sig = func and inspect.formatargspec(*inspect.getfullargspec(func))
-    desc = textwrap.indent(textwrap.dedent(desc), "    ")
+    sig = func and inspect.signature(func)
+    desc = textwrap.indent(textwrap.dedent(desc or ""), "    ")
     return "\n\nFilter: %s%s:\n%s" % (name, sig, desc)
 
 
-- 
2.43.0


From bb523f7163b024f8d8a2cbd82c0cfec8952c7589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:54 +0000
Subject: [PATCH 23/83] fix: base-opts given were not merged with the default
 ones

---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index d5d97aa..28f04e5 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -311,7 +311,7 @@ def make_default_Ranger(sheets_factory=None, base_opts=None, available_filters=N
     """
     return Ranger(
         sheets_factory or backend.SheetsFactory(),
-        base_opts or get_default_opts(),
+        get_default_opts(base_opts),
         available_filters,
     )
 
-- 
2.43.0


From 87c653aee7b72de9fbec6d3503f63b25e42df7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:05 +0000
Subject: [PATCH 24/83] fix: laxed filters returning no Lasso broke the pipe

---
 pandalone/xleash/_lasso.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 28f04e5..f6ea238 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -119,11 +119,12 @@ class Ranger(object):
         try:
             func_rec = self.available_filters[func_name]
             func, func_desc = parse_avail_func_rec(**func_rec)
-            lasso = func(self, lasso, *args, **kwds)
-            assert isinstance(lasso, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
+            res = func(self, lasso, *args, **kwds)
+            assert isinstance(res, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
                 func_name,
-                lasso,
+                res,
             )
+            lasso = res
         except Exception as ex:
             if verbose:
                 func_desc = _build_call_help(func_name, func, func_desc)
-- 
2.43.0


From 0505de02de2fac316446320af1c2aa9aedb4e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:41 +0000
Subject: [PATCH 25/83] fix: map_path() re-split unmapped steps with escaped
 slashes

---
 pandalone/mappings.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index ddfe008..dbb4f63 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -536,34 +536,33 @@ class Pmod(object):
             for step in steps[:-1]:
                 if pmod:
                     pmod, alias = pmod.descend(step)
-                if alias is not None:
-                    if alias.startswith("."):
-                        nsteps += (step,)
-                    step = alias
+                if alias is None:
+                    # Already splitted & unescaped.
+                    nsteps += (step,)
+                    continue
+                if alias.startswith("."):
+                    nsteps += (step,)
+                step = alias
                 # XXX: Monkey business here.
                 if len(step) > 1 and step.endswith("/"):
                     step = step[:-1]
                 nsteps += tuple(iter_jsonpointer_parts_relaxed(step))
 
             final_step = steps[-1]
-            if pmod:
-                alias = pmod.alias(final_step)
-                if alias is not None:
-                    if alias.startswith("."):
-                        nsteps += (final_step,)
-                    final_step = alias
-            # XXX: Monkey business here.
-            is_folder = len(final_step) > 1 and final_step.endswith("/")
-            if is_folder:
-                final_step = final_step[:-1]
-            nsteps += tuple(iter_jsonpointer_parts_relaxed(final_step))
-
-        npath = _join_paths(*nsteps)
-
-        if is_folder:
-            path += "%s/" % path
+            alias = pmod.alias(final_step) if pmod else None
+            if alias is None:
+                nsteps += (final_step,)
+            else:
+                if alias.startswith("."):
+                    nsteps += (final_step,)
+                final_step = alias
+                # XXX: Monkey business here.
+                if len(final_step) > 1 and final_step.endswith("/"):
+                    final_step = final_step[:-1]
+                nsteps += tuple(iter_jsonpointer_parts_relaxed(final_step))
 
-        return npath
+        # Steps were unescaped when splitted.
+        return _join_paths(*(escape_jsonpointer_part(step) for step in nsteps))
 
     def map_paths(self, paths):
         return [self.map_path(p) for p in paths]
-- 
2.43.0


From 075ac71e328ff9d13a960750d448282f0e350a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:47 +0000
Subject: [PATCH 26/83] fix: psteps mapped to the empty-string lost children
 and name when referenced

---
 pandalone/mappings.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index dbb4f63..e5ac685 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1055,12 +1055,12 @@ class Pstep(str):
         attrs = None
         if pname is None:
             pname = ""
-        if maps:
+        if maps is not None:
             if isinstance(maps, (list, tuple, Pmod)):
                 if isinstance(maps, (list, tuple)):
                     maps = pmods_from_tuples(maps)
                 pmod, m_alias = maps.descend(pname)
-                if alias is None and m_alias:
+                if alias is None and m_alias is not None:
                     # TODO: Add Escape-path TCs.
                     alias = unescape_jsonpointer_part(m_alias)
             elif not isinstance(maps, Pstep):
@@ -1095,7 +1095,8 @@ class Pstep(str):
                         pmod._alias = alias
                     else:
                         self._pmod = Pmod(_alias=alias)
-        csteps[ckey] = child = Pstep(ckey, existing_cstep or self._pmod, alias)
+        maps = self._pmod if existing_cstep is None else existing_cstep
+        csteps[ckey] = child = Pstep(ckey, maps, alias)
 
         return child
 
@@ -1106,8 +1107,9 @@ class Pstep(str):
             if attr.startswith("_") or attr in _forbidden_pstep_attrs:
                 raise
             csteps = self._csteps
-            child = csteps and csteps.get(attr, None)
-            return child or self.__make_cstep(attr)
+            child = csteps.get(attr, None) if csteps else None
+            # Psteps mapped to '' are falsy.
+            return self.__make_cstep(attr) if child is None else child
 
     def __setattr__(self, attr, value):
         if attr.startswith("_"):
-- 
2.43.0


From 9426a74bb850b84e0bb980acba0d9f926128fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:57 +0000
Subject: [PATCH 27/83] fix: renaming psteps corrupted the mappings they were
 built from

---
 pandalone/mappings.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index e5ac685..76757de 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1084,17 +1084,8 @@ class Pstep(str):
         csteps = self._csteps
         if not csteps:
             self._csteps = csteps = {}
-        else:
-            if existing_cstep is None:
-                existing_cstep = csteps.get(ckey, None)
-                # Update my mappings for `b` when ``self.b = "foo"``.
-                #
-                if alias is not None:
-                    pmod = self._pmod
-                    if pmod:
-                        pmod._alias = alias
-                    else:
-                        self._pmod = Pmod(_alias=alias)
+        elif existing_cstep is None:
+            existing_cstep = csteps.get(ckey, None)
         maps = self._pmod if existing_cstep is None else existing_cstep
         csteps[ckey] = child = Pstep(ckey, maps, alias)
 
-- 
2.43.0


From c9b60dcb99c88a0495174e985f8f491a2e812253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:52 +0000
Subject: [PATCH 28/83] fix: psteps grafted were not independent of the
 original ones

---
 pandalone/mappings.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 76757de..86f433d 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -32,7 +32,7 @@ Hierarchical string-like objects useful for indexing, that can be rename/relocat
 - TODO: Implements "anywhere" pmods(`//`).
 """
 
-from copy import copy
+from copy import copy, deepcopy
 import logging
 import re
 
@@ -877,8 +877,10 @@ def _clone_attrs(obj):
     """Clone deeply any collection attributes of the passed-in object."""
     attrs = vars(obj).copy()
     ccsteps = attrs.get("_csteps", None)
-    if ccsteps:
-        attrs["_csteps"] = ccsteps.copy()
+    if ccsteps is not None:
+        attrs["_csteps"] = {k: Pstep(k, c, str(c)) for k, c in ccsteps.items()}
+    if "_schema" in attrs:
+        attrs["_schema"] = deepcopy(attrs["_schema"])
     ctags = attrs["_tags"]
     if ctags:
         attrs["_tags"] = attrs["_tags"].copy()
@@ -1067,6 +1069,7 @@ class Pstep(str):
                 raise ValueError("Invalid type(%s) for `maps`!" % maps)
             else:
                 attrs = _clone_attrs(maps)
+                attrs["_orig"] = pname
         if alias is None:
             alias = pname
         self = str.__new__(cls, alias)
@@ -1088,6 +1091,9 @@ class Pstep(str):
             existing_cstep = csteps.get(ckey, None)
         maps = self._pmod if existing_cstep is None else existing_cstep
         csteps[ckey] = child = Pstep(ckey, maps, alias)
+        if existing_cstep is not None and alias is not None:
+            # Just renamed, so preserve children.
+            child._csteps = existing_cstep._csteps
 
         return child
 
-- 
2.43.0


From 1fe57c503d50cbe006bcff3865e8f425f72f464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:17 +0000
Subject: [PATCH 29/83] fix: psteps relocated to absolute paths were listed
 below their parents

---
 pandalone/mappings.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 86f433d..b721ba3 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1250,6 +1250,13 @@ class Pstep(str):
             if (tag and tag in send._tags) or (not tag and not send._csteps):
                 if with_orig:
                     path = [append_orig(s) for s in path]
+                else:
+                    # Split relocated ones, to re-root if "absolute".
+                    path = [
+                        step
+                        for s in path
+                        for step in (s[:-1] if len(s) > 1 and s[-1] == "/" else s).split("/")
+                    ]
                 paths.append(_join_paths(*path))
 
         return sorted(set(paths))
-- 
2.43.0


From 09186c70552d114a1ecd13bc7a8681b747ac13d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:26 +0000
Subject: [PATCH 30/83] fix: locked psteps could still be renamed

---
 pandalone/mappings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index b721ba3..c0672e1 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1090,7 +1090,9 @@ class Pstep(str):
         elif existing_cstep is None:
             existing_cstep = csteps.get(ckey, None)
         maps = self._pmod if existing_cstep is None else existing_cstep
-        csteps[ckey] = child = Pstep(ckey, maps, alias)
+        child = Pstep(ckey, maps, alias)
+        child._locked = child._locked  # Scream if renaming a locked one.
+        csteps[ckey] = child
         if existing_cstep is not None and alias is not None:
             # Just renamed, so preserve children.
             child._csteps = existing_cstep._csteps
-- 
2.43.0


From b8d3a05112667b1fd9bfb680b94c5ef1fd3b8fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:33 +0000
Subject: [PATCH 31/83] fix: set_jsonpointer() crashed with the empty pointer

---
 pandalone/pandata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ec3975c..d5ec194 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1266,6 +1266,8 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
     """
 
     parts = list(iter_jsonpointer_parts(jsonpointer))
+    if not parts:
+        raise RefResolutionError("Cannot set the whole document!")
 
     # Will scream if used on 1st iteration.
     #
-- 
2.43.0


From 63f15539fafcd06b7e6dc9483851408893db321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:44 +0000
Subject: [PATCH 32/83] fix: set_jsonpointer() accepted negative list indices,
 even out-of-bounds

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index d5ec194..8bce42e 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1289,7 +1289,7 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
                         % (part, jsonpointer, i)
                     )
                 else:
-                    if part > doclen:
+                    if not 0 <= part <= doclen:
                         raise RefResolutionError(
                             "Index(%s) out of bounds(%i) of (%r)[%i]"
                             % (part, doclen, jsonpointer, i)
-- 
2.43.0


From e4caef35303c61082b30685a93b2d5676be89249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:52 +0000
Subject: [PATCH 33/83] fix: resolve_jsonpointer() indexed strings, and lists
 backwards

---
 pandalone/pandata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 8bce42e..80c6bd4 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1174,10 +1174,10 @@ def resolve_jsonpointer(doc, jsonpointer, default=_scream):
     :author: Julian Berman, ankostis
     """
     for part in iter_jsonpointer_parts(jsonpointer):
-        if isinstance(doc, cabc.Sequence):
+        if isinstance(doc, cabc.Sequence) and not isinstance(doc, str):
             # Array indexes should be turned into integers
             try:
-                part = int(part)
+                part = int(part) if int(part) >= 0 else part
             except ValueError:
                 pass
         try:
-- 
2.43.0


From 4971c3ad05d6b82b793e70a3fea3c75bedad1295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:01 +0000
Subject: [PATCH 34/83] fix: json-paths of schema properties were not escaped

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 80c6bd4..91b96aa 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1348,7 +1348,7 @@ def build_all_jsonpaths(schema):
         props = schema.get("properties")
         if props:
             for p, obj in props.items():
-                _visit(obj, path + "/" + p, paths)
+                _visit(obj, path + "/" + escape_jsonpointer_part(p), paths)
         else:
             paths.append(path)
 
-- 
2.43.0


From 01c1d2c5580128d5e844963f68d80aa63ec35cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 35/83] fix: Pandel.get() returned nothing

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 91b96aa..ff7a47f 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1041,7 +1041,7 @@ class Pandel(object):
         return self.model
 
     def get(self, path, **kws):
-        resolve_jsonpointer(self.model, path, **kws)
+        return resolve_jsonpointer(self.model, path, **kws)
 
 
 def escape_jsonpointer_part(part):
-- 
2.43.0


From 6efc68741f3c170c36a70358ab6af111cb1819cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:13 +0000
Subject: [PATCH 36/83] fix: resolve_path() ignored falsy roots and confused
 empty keys with the root

---
 pandalone/pandata.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ff7a47f..25cf8fc 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1229,9 +1229,12 @@ def resolve_path(doc, path, default=_scream, root=None):
     :author: Julian Berman, ankostis
     """
 
+    if root is None:
+        root = doc
+
     def resolve_root(d, p):
         if not p:
-            return root or doc
+            return root
         raise ValueError()
 
     part_resolvers = [
@@ -1240,7 +1243,11 @@ def resolve_path(doc, path, default=_scream, root=None):
         lambda d, p: getattr(d, p),
         resolve_root,
     ]
-    for part in iter_jsonpointer_parts_relaxed(path):
+    parts = list(iter_jsonpointer_parts_relaxed(path))
+    if len(parts) > 1 and not parts[0]:
+        doc = root  # An absolute path.
+        del parts[0]
+    for part in parts:
         start_i = 0 if isinstance(doc, cabc.Sequence) else 1
         for resolver in part_resolvers[start_i:]:
             try:
-- 
2.43.0


From 35a4c3c39ef7f318afc572ec48329735ff84d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:33 +0000
Subject: [PATCH 37/83] fix: JSONCodec corrupted pickles containing
 line-endings

---
 pandalone/pandata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 25cf8fc..52638dc 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1437,7 +1437,9 @@ class JSONCodec:
     class Encoder(JSONEncoder):
         def encode(self, o):
             pickle_bytes = pickle.dumps(o)
-            pickle_str = binascii.b2a_qp(pickle_bytes).decode(encoding="utf8")
+            pickle_str = binascii.b2a_qp(pickle_bytes, istext=False).decode(
+                encoding="utf8"
+            )
             o = {JSONCodec._obj: pickle_str, JSONCodec._ver_key: JSONCodec._ver}
             return JSONEncoder.encode(self, o)
 
-- 
2.43.0


From c4891e3d2b9e4141d4a8baf32489e3ec21152bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 38/83] fix: JSONCodec crashed decoding plain json-documents
 other than objects

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 52638dc..c092c7e 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1446,7 +1446,7 @@ class JSONCodec:
     class Decoder(JSONDecoder):
         def decode(self, s):
             o = JSONDecoder.decode(self, s)
-            pickle_str = o.get(JSONCodec._obj, None)
+            pickle_str = o.get(JSONCodec._obj, None) if isinstance(o, dict) else None
             if pickle_str:
                 # file_ver = o[JSONCodec._ver_key]
                 # if file_ver != JSONCodec._ver:
-- 
2.43.0


From c01f8d039a9299332d3b84c07ffa93222f69bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:50 +0000
Subject: [PATCH 39/83] fix: json.dump() could not encode rich objects with
 JSONCodec

---
 pandalone/pandata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index c092c7e..52015f1 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1443,6 +1443,12 @@ class JSONCodec:
             o = {JSONCodec._obj: pickle_str, JSONCodec._ver_key: JSONCodec._ver}
             return JSONEncoder.encode(self, o)
 
+        def iterencode(self, o, _one_shot=False):
+            if not _one_shot:
+                # Called by `json.dump()`.
+                return iter((self.encode(o),))
+            return JSONEncoder.iterencode(self, o, _one_shot)
+
     class Decoder(JSONDecoder):
         def decode(self, s):
             o = JSONDecoder.decode(self, s)
-- 
2.43.0


From 469c1df9ecc7df273fed407caa3affdba7445b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:47 +0000
Subject: [PATCH 40/83] fix: PandelVisitor crashed with boolean subschemas of
 properties

---
 pandalone/pandata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 52015f1..937efb9 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -277,6 +277,8 @@ def _rule_auto_defaults_properties(
         return
 
     for property, subschema in properties.items():
+        if isinstance(subschema, bool):  # since draft6
+            continue
         prop_given = property in instance
         if "default" in subschema and (
             (
-- 
2.43.0


From 71ff26f69592b0aab83a305081c401eb74e437e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 41/83] fix: PandelVisitor did not accept floats without
 fraction as integers, since draft6

---
 pandalone/pandata.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 937efb9..ad47c2c 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -163,11 +163,16 @@ def _is_bool(checker, instance):
     return isinstance(instance, (bool, np.bool_))
 
 
-def _is_integer(checker, instance):
+def _is_integer(checker, instance, is_type):
     # bool inherits from int, so ensure bools aren't reported as ints
     if isinstance(instance, bool):
         return False
-    return isinstance(instance, (int, np.integer))
+    if isinstance(instance, (int, np.integer)):
+        return True
+    if isinstance(instance, np.floating):
+        instance = float(instance)
+    # since draft6, integers include floats without fraction
+    return is_type(instance, "integer")
 
 
 def _is_null(checker, instance):
@@ -468,7 +473,9 @@ def PandelVisitor(
             {
                 "array": _is_array,
                 "object": _is_object,
-                "integer": _is_integer,
+                "integer": fnt.partial(
+                    _is_integer, is_type=validator.TYPE_CHECKER.is_type
+                ),
                 "boolean": _is_bool,
                 "null": _is_null,
             }
-- 
2.43.0


From f2771d91131f5475a7f1f6ff8494d3173daaad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:44 +0000
Subject: [PATCH 42/83] fix: PandelVisitor took arrays with a single NaN as
 nulls, but not all NaNs

---
 pandalone/pandata.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ad47c2c..c708e39 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -176,18 +176,10 @@ def _is_integer(checker, instance, is_type):
 
 
 def _is_null(checker, instance):
-    if instance is None or instance is float("nan") or instance is np.nan:
-        return True
-
-    ## Handle np.arrays's future "bool" behavior.
-    #  see https://github.com/numpy/numpy/issues/9583
-    #
-    try:
-        return instance.size == 1 and np.isnan(instance).all()
-    except Exception:
-        pass
-
-    return False
+    if isinstance(instance, np.ndarray) and instance.ndim == 0:
+        instance = instance.item()
+    # NaNs are nulls, in any disguise (python, numpy or pandas), but not arrays with them.
+    return bool(pd.api.types.is_scalar(instance) and pd.isna(instance))
 
 
 def _find_additional_properties(instance, schema):
-- 
2.43.0


From b84f3d8982366505d50a6f3dabce49528c180181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 43/83] fix: PandelVisitor took series without textual labels
 as objects, and crashed

---
 pandalone/pandata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index c708e39..9e41d43 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -156,6 +156,9 @@ def _is_array(checker, instance):
 
 
 def _is_object(checker, instance):
+    if isinstance(instance, pd.Series):
+        # Otherwise, it's just an array (eg. the column of a DataFrame).
+        return all(isinstance(label, str) for label in instance.index)
     return isinstance(instance, cabc.Mapping)
 
 
-- 
2.43.0


From d43a2fe51f7258bf7cbedf7f57e550cc1e1bc7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 44/83] fix: PandelVisitor mixed booleans with numbers, and
 crashed comparing pandas & arrays

---
 pandalone/pandata.py | 52 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 9e41d43..1a66b6c 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -305,15 +305,38 @@ def _rule_auto_defaults_properties(
         yield error
 
 
-def rule_enum(validator, enums, instance, schema):
-    """Overridden to evade pandas-equals after Julian/jsonschema#575 fixed bool != 0,1 (v3.0.2)."""
-    unbool = jsonschema._utils.unbool
-    if instance is 0 or instance is 1:
-        unbooled = unbool(instance)
-        if all(unbooled != unbool(each) for each in enums):
-            yield ValidationError("%r is not one of %r" % (instance, enums))
-    elif instance not in enums:
-        yield ValidationError("%r is not one of %r" % (instance, enums))
+def _jsonize(instance):
+    """Return the plain json-types that any pandas & numpy `instance` is treated like."""
+    if _is_null(None, instance):
+        return None
+    if isinstance(instance, np.generic):
+        return instance.item()
+    if _is_object(None, instance):
+        return {k: _jsonize(instance[k]) for k in instance.keys()}
+    if _is_array(None, instance):
+        return [_jsonize(i) for i in instance]
+    return instance
+
+
+def _rule_equality(validator, value, instance, schema, original_rule):
+    """Evade pandas-equals (elementwise, and mixing bools with 0 & 1)."""
+    jsons = [_jsonize(instance)]
+    if isinstance(instance, pd.Series):  # it equals also with arrays
+        jsons.append([_jsonize(i) for i in instance])
+
+    for json in jsons:
+        errors = list(original_rule(validator, value, json, schema))
+        if not errors:
+            break
+    for error in errors:
+        yield error
+
+
+def _rule_uniqueItems(validator, uI, instance, schema, original_rule):
+    if validator.is_type(instance, "array"):
+        items = [_jsonize(i) for i in instance]
+        for error in original_rule(validator, uI, items, schema):
+            yield error
 
 
 def PandelVisitor(
@@ -459,8 +482,15 @@ def PandelVisitor(
         )
     if "propertyNames" in validator.VALIDATORS:
         rules["propertyNames"] = _rule_propertyNames
-    if hasattr(jsonschema._utils, "unbool"):
-        rules["enum"] = rule_enum  # fix pandas after jsonschema-3.0.2
+    for keyword, rule in (
+        ("enum", _rule_equality),
+        ("const", _rule_equality),
+        ("uniqueItems", _rule_uniqueItems),
+    ):
+        if keyword in validator.VALIDATORS:
+            rules[keyword] = fnt.partial(
+                rule, original_rule=validator.VALIDATORS[keyword]
+            )
 
     ValidatorClass = jsonschema.validators.extend(
         validator,
-- 
2.43.0


From 41273cb9304e0f8ac5b4187cf6c0a01d75714d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:22 +0000
Subject: [PATCH 45/83] fix: PandelVisitor missed additional items of series
 with float labels

---
 pandalone/pandata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 1a66b6c..e79006e 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -244,6 +244,13 @@ def _rule_propertyNames(validator, propertyNames, instance, schema):
             yield error
 
 
+def _rule_additionalItems(validator, aI, instance, schema, original_rule):
+    if isinstance(instance, pd.Series):
+        instance = list(instance)  # Slicing a series may be label-based.
+    for error in original_rule(validator, aI, instance, schema):
+        yield error
+
+
 def _is_null_in_type(typ):
     if not typ:
         return False
@@ -483,6 +490,7 @@ def PandelVisitor(
     if "propertyNames" in validator.VALIDATORS:
         rules["propertyNames"] = _rule_propertyNames
     for keyword, rule in (
+        ("additionalItems", _rule_additionalItems),
         ("enum", _rule_equality),
         ("const", _rule_equality),
         ("uniqueItems", _rule_uniqueItems),
-- 
2.43.0


From 0df6166a4971130d9c694258dcaa2e393df19d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:49 +0000
Subject: [PATCH 46/83] fix: default values filled in documents aliased (and
 corrupted) their schema

---
 pandalone/pandata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index e79006e..3059ec7 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -19,6 +19,7 @@ import numbers
 import pickle
 import re
 from collections import namedtuple
+from copy import deepcopy
 from json.decoder import JSONDecoder
 from json.encoder import JSONEncoder
 from typing import Union
@@ -299,7 +300,7 @@ def _rule_auto_defaults_properties(
                 and _is_null(None, instance[property])
             )
         ):
-            instance[property] = subschema["default"]
+            instance[property] = deepcopy(subschema["default"])
         elif (
             first_defined(subschema.get("autoRemoveNull"), auto_remove_nulls)
             and not _is_null_in_type(subschema.get("type"))
-- 
2.43.0


From 81fa8ec86784337dc7eac70c7958bafcb4b5d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:59 +0000
Subject: [PATCH 47/83] fix: auto-default flags in the schema were ignored if
 all respective options were off

---
 pandalone/pandata.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 3059ec7..67ceccd 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -480,14 +480,13 @@ def PandelVisitor(
     props_rule = validator.VALIDATORS["properties"]
 
     rules = {"additionalProperties": _rule_additionalProperties}
-    if any((auto_default, auto_default_nulls, auto_remove_nulls)):
-        rules["properties"] = fnt.partial(
-            _rule_auto_defaults_properties,
-            original_props_rule=props_rule,
-            auto_default=auto_default,
-            auto_default_nulls=auto_default_nulls,
-            auto_remove_nulls=auto_remove_nulls,
-        )
+    rules["properties"] = fnt.partial(
+        _rule_auto_defaults_properties,
+        original_props_rule=props_rule,
+        auto_default=auto_default,
+        auto_default_nulls=auto_default_nulls,
+        auto_remove_nulls=auto_remove_nulls,
+    )
     if "propertyNames" in validator.VALIDATORS:
         rules["propertyNames"] = _rule_propertyNames
     for keyword, rule in (
-- 
2.43.0


From c5a0c3fe64bc3bace4e032b002586842cb3087d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:54 +0000
Subject: [PATCH 48/83] fix: prevalidation filled defaults into the submodels
 given, overriding others

---
 pandalone/pandata.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 67ceccd..5ed7f19 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -519,6 +519,32 @@ def PandelVisitor(
     return ValidatorClass(schema, resolver=resolver, format_checker=format_checker)
 
 
+def _clone(branch):
+    """A *deep-copy* that clones also the objects held in pandas-instances (unlike :func:`copy.deepcopy()`)."""
+    if isinstance(branch, pd.DataFrame):
+        clone = branch.copy()
+        for i, dtype in enumerate(branch.dtypes):
+            if dtype == object:
+                clone.isetitem(i, _clone(branch.iloc[:, i]))
+        return clone
+    if isinstance(branch, pd.Series):
+        clone = branch.copy()
+        if branch.dtype == object:
+            clone[:] = _clone(branch.to_numpy())
+        return clone
+    if isinstance(branch, np.ndarray) and branch.dtype == object:
+        clone = np.empty_like(branch)
+        for i, item in np.ndenumerate(branch):
+            clone[i] = _clone(item)
+        return clone
+    if type(branch) in (list, tuple):
+        return type(branch)(_clone(item) for item in branch)
+    if type(branch) is dict:
+        return {k: _clone(v) for k, v in branch.items()}
+
+    return deepcopy(branch)
+
+
 class Pandel(object):
 
     """
@@ -982,7 +1008,8 @@ class Pandel(object):
         "Step-1"
         for (mdl, path_ops) in self._submodel_tuples:
             schema = self._get_json_schema(is_prevalidation=True)
-            for err in self._validate_json_model(schema, mdl):
+            # Validation fills-in defaults, and those must not override other submodels.
+            for err in self._validate_json_model(schema, _clone(mdl)):
                 yield err
 
     def _merge(self):
-- 
2.43.0


From 752daad7a21f1bc83acf4a320d69ba1831e746c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:04 +0000
Subject: [PATCH 49/83] fix: branches of the built model were shared with the
 submodels given

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 5ed7f19..fe6bfe0 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1015,7 +1015,7 @@ class Pandel(object):
     def _merge(self):
         "Step-2"
         for (mdl, path_ops) in self._submodel_tuples:
-            self.model = self._clone_and_merge_submodels(self.model, mdl)
+            self.model = self._clone_and_merge_submodels(self.model, _clone(mdl))
         if False:
             yield  # Just mark method as generator.
 
-- 
2.43.0


From 5775518ab6425ab926848f3d1b67d86a1ecf1afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:44 +0000
Subject: [PATCH 50/83] fix: submodels could neither overwrite maps with
 sequences or values, nor contain nulls in sequences

---
 pandalone/pandata.py | 57 +++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index fe6bfe0..72e599f 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -947,23 +947,28 @@ class Pandel(object):
     def _clone_and_merge_submodels(self, a, b, path=""):
         """' Recursively merge b into a, cloning both. """
 
-        if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
-            a = pd.DataFrame() if a is None else pd.DataFrame(a)
-            b = pd.DataFrame() if b is None else pd.DataFrame(b)
+        if a is None and b is None:
+            raise ValidationError("Cannot merge Nones at path(%s)!" % path)
+
+        if not self._are_mergeable(a, b):
+            a = a if b is None else b
+
+        elif isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
+            a = pd.DataFrame(a)
+            b = pd.DataFrame(b)
 
             a.update(b)  # , 'outer') NOT IMPL YET
             extra_b_items = list(set(b.columns) - set(a.columns))
             a[extra_b_items] = b[extra_b_items]
 
         elif isinstance(a, pd.Series) or isinstance(b, pd.Series):
-            a = pd.Series() if a is None else pd.Series(a)
-            b = pd.Series() if b is None else pd.Series(b)
+            a = pd.Series(a)
+            b = pd.Series(b)
             # a.update(b) # DOES NOT append extra keys!
             a = b.combine_first(a)
 
-        elif isinstance(a, cabc.Mapping) or isinstance(b, cabc.Mapping):
-            a = {} if a is None else {**a}
-            b = {} if b is None else {**b}
+        else:
+            a = {**a}
 
             for key in b:
                 b_val = b[key]
@@ -975,30 +980,22 @@ class Pandel(object):
                     val = b_val
                 a[key] = val
 
-        elif (isinstance(a, cabc.Sequence) and not isinstance(a, str)) or (
-            isinstance(b, cabc.Sequence) and not isinstance(b, str)
-        ):
-            if b is not None:
-                val = b
-            else:
-                val = a
-
-            l = list()
-            for (i, item) in enumerate(val):
-                l.append(
-                    self._clone_and_merge_submodels(item, None, "%s[%i]" % (path, i))
-                )
-            a = l
-
-        elif a is None and b is None:
-            raise ValidationError("Cannot merge Nones at path(%s)!" % path)
-
-        else:
-            if b is not None:
-                a = b
-
         return a
 
+    @staticmethod
+    def _are_mergeable(a, b):
+        """Just maps are mergeable (but not DataFrames with Series), anything else *overwrites*."""
+        pandas_types = {
+            cls
+            for cls in (pd.DataFrame, pd.Series)
+            if isinstance(a, cls) or isinstance(b, cls)
+        }
+        return (
+            isinstance(a, cabc.Mapping)
+            and isinstance(b, cabc.Mapping)
+            and len(pandas_types) < 2
+        )
+
     def _resolve(self):
         "Step-1"
         if False:
-- 
2.43.0


From 216c66cb9ac1ba8c03921ca1e9a8be77d52ba194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:52 +0000
Subject: [PATCH 51/83] fix: merging DataFrames lost new rows and shuffled new
 columns

---
 pandalone/pandata.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 72e599f..9ffbc83 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -957,9 +957,8 @@ class Pandel(object):
             a = pd.DataFrame(a)
             b = pd.DataFrame(b)
 
-            a.update(b)  # , 'outer') NOT IMPL YET
-            extra_b_items = list(set(b.columns) - set(a.columns))
-            a[extra_b_items] = b[extra_b_items]
+            columns = [*a.columns, *(c for c in b.columns if c not in a.columns)]
+            a = b.combine_first(a)[columns]
 
         elif isinstance(a, pd.Series) or isinstance(b, pd.Series):
             a = pd.Series(a)
-- 
2.43.0


From b73dc11b7fd38e7b9b2fa44ec8a5f67d3b4e3e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 52/83] fix: merging Series converted booleans into numbers

---
 pandalone/pandata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 9ffbc83..0f36be3 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -963,6 +963,9 @@ class Pandel(object):
         elif isinstance(a, pd.Series) or isinstance(b, pd.Series):
             a = pd.Series(a)
             b = pd.Series(b)
+            if pd.api.types.is_bool_dtype(a) != pd.api.types.is_bool_dtype(b):
+                # Combining them converts booleans into numbers.
+                a, b = a.astype(object), b.astype(object)
             # a.update(b) # DOES NOT append extra keys!
             a = b.combine_first(a)
 
-- 
2.43.0


From 34ee4bb1b3086e228c1b60e61b2608a4daa36958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 53/83] fix: Pandel.mod_global_operations() crashed or had no
 effect

---
 pandalone/pandata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 0f36be3..3819b58 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -842,7 +842,7 @@ class Pandel(object):
         self._errored = None
         self._submodel_tuples = []
         self._curate_funcs = curate_funcs
-        self._global_cntxt = []
+        self._global_cntxt = ModelOperations()
         self._unified_contexts = None
 
     def mod_global_operations(self, operations=None, **cntxt_kwargs):
@@ -861,8 +861,9 @@ class Pandel(object):
                 type(operations),
                 operations,
             )
-            self._global_cntxt = operations
-        self._global_cntxt._replace(**cntxt_kwargs)
+            given = {k: v for k, v in operations._asdict().items() if v}
+            self._global_cntxt = self._global_cntxt._replace(**given)
+        self._global_cntxt = self._global_cntxt._replace(**cntxt_kwargs)
 
     @property
     def unified_contexts(self):
-- 
2.43.0


From 664359290d522721994b770f774bc26a14ae24ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:59 +0000
Subject: [PATCH 54/83] fix: merging DataFrames with an empty one cast all
 values into the types of the empty

---
 pandalone/pandata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 3819b58..f9b6f16 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -959,7 +959,8 @@ class Pandel(object):
             b = pd.DataFrame(b)
 
             columns = [*a.columns, *(c for c in b.columns if c not in a.columns)]
-            a = b.combine_first(a)[columns]
+            # Combining with an empty one casts all values into its types.
+            a = b.combine_first(a)[columns] if len(a) else b.reindex(columns=columns)
 
         elif isinstance(a, pd.Series) or isinstance(b, pd.Series):
             a = pd.Series(a)
-- 
2.43.0


From b757cfb9868035e6594a61041dea8f01c8a06e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:28 +0000
Subject: [PATCH 55/83] fix: components mapped to the empty path discovered
 nothing

---
 pandalone/components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/components.py b/pandalone/components.py
index b001d32..36b6219 100644
--- a/pandalone/components.py
+++ b/pandalone/components.py
@@ -197,7 +197,8 @@ class FuncComponent(Component):
         self._cfunc(self, *args, **kws)
 
     def _fetch_all_paths(self, pstep):
-        return pstep._paths() if pstep else []
+        # Psteps mapped to '' are falsy.
+        return [] if pstep is None else pstep._paths()
 
     def pinp(self, path=None):
         """The suggested :class:`Pstep` for cfunc to use to access inputs."""
-- 
2.43.0


From 8128870f10f7461122e1fdf1062cf1335566efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:20 +0000
Subject: [PATCH 56/83] fix: normalizing paths with many trailing slashes lost
 the last one

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 4acd105..bd5de2b 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -130,7 +130,7 @@ def first_line(doc):
 
 
 _file_drive_regex = re.compile(r"^([a-z]):(/)?(.*)$", re.I)
-_is_dir_regex = re.compile(r"[^/\\][/\\]$")
+_is_dir_regex = re.compile(r"[^/\\][/\\]+$")
 _unc_prefix = "\\\\?\\"
 
 
-- 
2.43.0


From a109584bc4a4d7f718aa154f0d0adf173daa1a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:30 +0000
Subject: [PATCH 57/83] fix: path2url() never expanded the user-folder

---
 pandalone/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index bd5de2b..79dd6d1 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -210,6 +210,9 @@ def path2url(path, expandvars=False, expanduser=False):
     if path:
         if expandvars:
             path = osp.expandvars(path)
+        if expanduser:
+            # Before joined with CWD (remote URLs do not start with '~').
+            path = osp.expanduser(path)
 
         # Trim UNCs, urljoin() makes nonsense, path2urlpath() just fails.
         if path.startswith(_unc_prefix):
@@ -233,13 +236,8 @@ def path2url(path, expandvars=False, expanduser=False):
             baseurl = up.urljoin("file:", cwd)
             path = up.urljoin(baseurl, path)
 
-        # Expand vars, conditionally on remote or local URL.
-        #
         parts = up.urlsplit(path)
-        p = parts.path
-        if parts.scheme == "file" and expanduser:
-            p = osp.expanduser(p)
-        p = normpath(p).replace("\\", "/")
+        p = normpath(parts.path).replace("\\", "/")
         path = up.urlunsplit(parts._replace(path=p))
 
     return path
-- 
2.43.0


From 117c4875819eea1b1ff96609ade3eea5fd52fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 58/83] fix: make_unique_filename() ignored the
 filename-generator given

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 79dd6d1..d214720 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -253,7 +253,7 @@ def generate_filenames(filename):
 
 
 def make_unique_filename(fname, filegen=generate_filenames):
-    fname_genor = generate_filenames(fname)
+    fname_genor = filegen(fname)
     fname = next(fname_genor)
     while os.path.exists(fname):
         fname = next(fname_genor)
-- 
2.43.0


From 913547ced11032b1d3846470f623d18ab68b9ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:49 +0000
Subject: [PATCH 59/83] fix: ensure_file_ext() missed or doubled extensions
 without dot, partial or compound

---
 pandalone/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index d214720..124e459 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -310,17 +310,21 @@ def ensure_file_ext(fname, ext, *exts, is_regex=False):
 
     """
     _, file_ext = os.path.splitext(fname)
+    # Leading dots do not start an extension.
+    basename = os.path.basename(fname).lstrip(".").lower()
+
+    def has_ext(e):
+        return basename.endswith((e if e.startswith(".") else "." + e).lower())
 
     if is_regex:
-        ends_with_ext = any(
-            re.match(e + "$", file_ext, re.IGNORECASE) for e in (re.escape(ext),) + exts
+        ends_with_ext = has_ext(ext) or any(
+            re.match("(?:%s)$" % e, file_ext, re.IGNORECASE) for e in exts
         )
     else:
-        file_ext = file_ext.lower()
-        ends_with_ext = any(file_ext.endswith(e.lower()) for e in (ext,) + exts)
+        ends_with_ext = any(has_ext(e) for e in (ext,) + exts)
 
     if not ends_with_ext:
-        if fname[-1] == ".":
+        if fname.endswith("."):
             fname = fname[:-1]
         if ext[0] == ".":
             ext = ext[1:]
-- 
2.43.0


From cfcff7c1c940b25096a15b089b6cd3f151929221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:59 +0000
Subject: [PATCH 60/83] fix: ensure_dir_exists() accepted broken links, or
 files created in-between

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 124e459..6185ed8 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -347,7 +347,7 @@ def ensure_dir_exists(path, mode=0o755):
         try:
             os.makedirs(path, mode=mode)
         except OSError as e:
-            if e.errno != errno.EEXIST:
+            if e.errno != errno.EEXIST or not os.path.isdir(path):
                 raise
     elif not os.path.isdir(path):
         raise IOError("%r exists but is not a directory" % path)
-- 
2.43.0


From e001950fbb7e50f8582c70b7b4f56701a466e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:10 +0000
Subject: [PATCH 61/83] fix: searching programs suffixed with 'com' without dot

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 6185ed8..721e27c 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -355,7 +355,7 @@ def ensure_dir_exists(path, mode=0o755):
 
 def py_where(program, path=None):
     # From: http://stackoverflow.com/a/377028/548792
-    winprog_exts = (".bat", "com", ".exe")
+    winprog_exts = (".bat", ".com", ".exe")
 
     def is_exec(fpath):
         return (
-- 
2.43.0


From caa6fda580244d6f9412f26f9331bcda7877728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:21 +0000
Subject: [PATCH 62/83] fix: obj2bool() failed for anything true but strings

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 721e27c..88b12ab 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -81,7 +81,7 @@ def obj2bool(v):
         >>> obj2bool(None) == obj2bool('') == obj2bool(0) == False
         True
     """
-    return bool(v) and str2bool(v)
+    return str2bool(v) if isinstance(v, str) else bool(v)
 
 
 def is_travis():  # pragma: no cover
-- 
2.43.0


From 2518906c84fa01001f0d2a62ec7e92878916aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:31 +0000
Subject: [PATCH 63/83] fix: units in <> could not contain parentheses, but
 those in excess of >

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index f9b6f16..ed15b40 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -45,7 +45,7 @@ _value_with_units_regex = re.compile(
                                             \]
                                             |
                                             <              # units enclosed in <>
-                                                [^)]*
+                                                [^>]*
                                             >
                                         )?                  # end parenthesized-units
                                         \s*$""",
-- 
2.43.0


From e3b2cdf29bc5f775ef64063f781a53d599f07f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:38 +0000
Subject: [PATCH 64/83] fix: path2url() appended a dot to remote URLs without a
 path

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 88b12ab..a6b682e 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -237,7 +237,7 @@ def path2url(path, expandvars=False, expanduser=False):
             path = up.urljoin(baseurl, path)
 
         parts = up.urlsplit(path)
-        p = normpath(parts.path).replace("\\", "/")
+        p = parts.path and normpath(parts.path).replace("\\", "/")
         path = up.urlunsplit(parts._replace(path=p))
 
     return path
-- 
2.43.0


From 73bef24fd43ed98b303db27a5b3a5ee9ba5c579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:44 +0000
Subject: [PATCH 65/83] fix: path2url() resolved wrongly the parent-folders
 after repeated slashes

---
 pandalone/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index a6b682e..42aa4c0 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -232,6 +232,9 @@ def path2url(path, expandvars=False, expanduser=False):
         else:
             # Use CWD as  URL-base to make it absolute.
             #
+            if not up.urlsplit(path).scheme:
+                # In URLs, any empty steps are separate folders.
+                path = normpath(path).replace("\\", "/")
             cwd = ur.pathname2url("%s/" % os.getcwd())
             baseurl = up.urljoin("file:", cwd)
             path = up.urljoin(baseurl, path)
-- 
2.43.0


From c6fb83f642552a52917ab2488b54f27f554eec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:24 +0000
Subject: [PATCH 66/83] fix: `--pandalone` option of xlsutils never found the
 VBA modules shipped

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 2358ab7..c3b2244 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -267,7 +267,7 @@ def main(*argv):
         if argv[1] == "--pandalone":
             mydir = os.path.dirname(__file__)
             argv = list(argv)
-            argv[1] = os.path.join(mydir, "*.vba")
+            argv[1] = os.path.join(mydir, "excel", "*.vba")
         elif argv[1].startswith("--"):
             exit(
                 "Unknown option(%s)! \n%s"
-- 
2.43.0


From 64ae244bec70ca49a7e0c68f3a6c9be221748e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:33 +0000
Subject: [PATCH 67/83] fix: failing to save workbooks left the alerts of Excel
 disabled

---
 pandalone/xlsutils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index c3b2244..55954f9 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -170,6 +170,13 @@ def _save_workbook(xl_workbook, path):
     # http://stackoverflow.com/questions/21306275/pywin32-saving-as-xlsm-file-instead-of-xlsx
     xlOpenXMLWorkbookMacroEnabled = 52
 
+    def save_as(path):
+        xl_workbook.Application.DisplayAlerts = False
+        try:
+            xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
+        finally:
+            xl_workbook.Application.DisplayAlerts = True
+
     saved_path = xl_workbook.Path
     if (saved_path != "") and (path is None):
         # Previously saved: Save under existing name
@@ -178,14 +185,10 @@ def _save_workbook(xl_workbook, path):
         # Previously unsaved: Save under current name in current working
         # directory
         path = os.path.join(os.getcwd(), xl_workbook.Name)
-        xl_workbook.Application.DisplayAlerts = False
-        xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
-        xl_workbook.Application.DisplayAlerts = True
+        save_as(path)
     elif path:
         # Save under new name/location
-        xl_workbook.Application.DisplayAlerts = False
-        xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
-        xl_workbook.Application.DisplayAlerts = True
+        save_as(path)
 
 
 def _save_excel_as_macro_enabled(xl_wb, new_fname=None):
-- 
2.43.0


From 4af555492508a8fee3881232dc5f4c2ab8c17b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:40 +0000
Subject: [PATCH 68/83] fix: macro-enabled workbooks were not saved if the
 output filename was empty

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 55954f9..b558466 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -203,7 +203,7 @@ def _save_excel_as_macro_enabled(xl_wb, new_fname=None):
                 xl_wb.FullName,
                 new_fname,
             )
-    _save_workbook(xl_wb, new_fname)
+    _save_workbook(xl_wb, new_fname or None)
 
     return new_fname
 
-- 
2.43.0


From e929bdd3678b543ae571a5aea34bf00616f2f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:31 +0000
Subject: [PATCH 69/83] fix: `df` & `sr` filters could not load with recent
 pandas

---
 pandalone/xleash/_pandas_filters.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 3cd4caa..f3b3eb4 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -21,10 +21,17 @@ from pandas.io import parsers as pdparsers
 from . import installed_filters
 
 try:
-    from pandas.io.excel._util import _fill_mi_header, _pop_header_name
+    # pandas >= 1.4.0 (Jan 2022)
+    from pandas.io.excel._util import (
+        fill_mi_header as _fill_mi_header,
+        pop_header_name as _pop_header_name,
+    )
 except ImportError:
-    # pandas < 0.25.0 (before summer 2019)
-    from pandas.io.excel import _fill_mi_header, _pop_header_name
+    try:
+        from pandas.io.excel._util import _fill_mi_header, _pop_header_name
+    except ImportError:
+        # pandas < 0.25.0 (before summer 2019)
+        from pandas.io.excel import _fill_mi_header, _pop_header_name
 
 
 try:
-- 
2.43.0


From 403ab160070a4c063059e76f21c5b9eaa551669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:39 +0000
Subject: [PATCH 70/83] fix: `df` filter broke the lassoing of empty tables

---
 pandalone/xleash/_pandas_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index f3b3eb4..19e4b3c 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -149,7 +149,7 @@ def _df_filter(
         raise NotImplementedError("Cannot implement args: %s" % invalid_args)
 
     if not data:
-        return pd.DataFrame()
+        return lasso._replace(values=pd.DataFrame())
 
     usecols = _maybe_convert_usecols(usecols)
 
-- 
2.43.0


From 98419fc3a79b9e4c683ac5f59443a9bd8e415ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:49 +0000
Subject: [PATCH 71/83] fix: `df` filter failed with textual `usecols`

---
 pandalone/xleash/_pandas_filters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 19e4b3c..f465ec0 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -33,6 +33,11 @@ except ImportError:
         # pandas < 0.25.0 (before summer 2019)
         from pandas.io.excel import _fill_mi_header, _pop_header_name
 
+try:
+    from pandas.io.excel._util import _range2cols
+except ImportError:
+    # pandas < 0.25.0 (before summer 2019)
+    from pandas.io.excel import _range2cols
 
 try:
     from pandas.errors import EmptyDataError
-- 
2.43.0


From 26c3b29c6a24950510dffc19be681f41b5da9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:59 +0000
Subject: [PATCH 72/83] fix: `df` filter ignored `keep_default_na`

---
 pandalone/xleash/_pandas_filters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index f465ec0..801830d 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -220,6 +220,7 @@ def _df_filter(
             skiprows=skiprows,
             nrows=nrows,
             na_values=na_values,
+            keep_default_na=keep_default_na,
             parse_dates=parse_dates,
             thousands=thousands,
             comment=comment,
-- 
2.43.0


From 983429e4a1812d7ba8834808b6c0bf945ccaba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:09 +0000
Subject: [PATCH 73/83] fix: `df` filter ignored `nrows`

---
 pandalone/xleash/_pandas_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 801830d..0dced44 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -230,7 +230,7 @@ def _df_filter(
             **kwds
         )
 
-        output = parser.read()
+        output = parser.read(nrows)
 
         if not squeeze or isinstance(output, pd.DataFrame):
             if header_names:
-- 
2.43.0


From 2965fad2cdfe6eb66b27d747f17a8f359c1cec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:21 +0000
Subject: [PATCH 74/83] fix: `df` filter failed with many `index_col` but no
 `header`

---
 pandalone/xleash/_pandas_filters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 0dced44..dfc6423 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -183,7 +183,9 @@ def _df_filter(
 
     if is_list_like(index_col):
         # forward fill values for MultiIndex index
-        if not is_list_like(header):
+        if header is None:
+            offset = 0
+        elif not is_list_like(header):
             offset = 1 + header
         else:
             offset = 1 + max(header)
-- 
2.43.0


From f41ff29257fee5874265aca32bfe120fc6750b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:32 +0000
Subject: [PATCH 75/83] fix: `df` filter ignored `squeeze` with recent pandas

---
 pandalone/xleash/_pandas_filters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index dfc6423..8d19ea4 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -237,6 +237,10 @@ def _df_filter(
         if not squeeze or isinstance(output, pd.DataFrame):
             if header_names:
                 output.columns = output.columns.set_names(header_names)
+
+        # Arg `squeeze` of parsers dropped in pandas-v2.0.0.
+        if squeeze and isinstance(output, pd.DataFrame) and len(output.columns) == 1:
+            output = output[output.columns[0]].copy()
     except EmptyDataError:
         # No Data, return an empty DataFrame
         output = pd.DataFrame()
-- 
2.43.0


From 5ab11edfe793eef81a9b7ca26379801bf38ec045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:59 +0000
Subject: [PATCH 76/83] fix: `df` filter dropped the blank rows of
 single-column tables

---
 pandalone/xleash/_pandas_filters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index 8d19ea4..e2766e9 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -207,6 +207,9 @@ def _df_filter(
     # Pandaas expect '' instead of `None`!
     data = [["" if c is None else c for c in r] for r in data]
 
+    # Blank rows of single-columns are data (pandas GH 39808).
+    kwds.setdefault("skip_blank_lines", False)
+
     # GH 12292 : error when read one empty column from excel file
     try:
         parser = pdparsers.TextParser(
-- 
2.43.0


From 0b1d47e35e2904f809874f7ca8066e0dd58bfcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:02 +0000
Subject: [PATCH 77/83] fix: `df` filter misread multi-headers if without an
 index or index-names

---
 pandalone/xleash/_pandas_filters.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index e2766e9..a42ad73 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -181,6 +181,18 @@ def _df_filter(
                 header_name, data[row] = _pop_header_name(data[row], index_col)
                 header_names.append(header_name)
 
+    # If there is a MultiIndex header and an index then there is (usually)
+    # also a row containing just the index name(s).
+    has_index_names = False
+    if header_names is not None and index_col is not None:
+        index_cols = index_col if is_list_like(index_col) else [index_col]
+        names_row = data[len(header)] if len(header) < len(data) else ()
+        has_index_names = bool(names_row) and all(
+            c == "" or c is None
+            for i, c in enumerate(names_row)
+            if not control_row[i] and i not in index_cols
+        )
+
     if is_list_like(index_col):
         # forward fill values for MultiIndex index
         if header is None:
@@ -189,6 +201,9 @@ def _df_filter(
             offset = 1 + header
         else:
             offset = 1 + max(header)
+        if has_index_names:
+            # Start filling from the labels, not from their names.
+            offset += 1
 
         # Check if we have an empty dataset
         # before trying to collect data.
@@ -202,8 +217,6 @@ def _df_filter(
                     else:
                         last = data[row][col]
 
-    has_index_names = is_list_like(header) and len(header) > 1
-
     # Pandaas expect '' instead of `None`!
     data = [["" if c is None else c for c in r] for r in data]
 
-- 
2.43.0


From 0d1acbddecbb5b8359e513bc325ec597d6c51e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:31 +0000
Subject: [PATCH 78/83] fix: `df` filter erased the labels of the index from
 multi-headers

---
 pandalone/xleash/_pandas_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_pandas_filters.py b/pandalone/xleash/_pandas_filters.py
index a42ad73..1400636 100644
--- a/pandalone/xleash/_pandas_filters.py
+++ b/pandalone/xleash/_pandas_filters.py
@@ -178,7 +178,7 @@ def _df_filter(
                 data[row] = _fill_mi_header(data[row])
 
             if index_col is not None:
-                header_name, data[row] = _pop_header_name(data[row], index_col)
+                header_name, _ = _pop_header_name(data[row], index_col)
                 header_names.append(header_name)
 
     # If there is a MultiIndex header and an index then there is (usually)
-- 
2.43.0


From 6a0330aa672b087d172ac49fcaf26053f3f56314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:06 +0000
Subject: [PATCH 79/83] fix: only the 1st of the VBA-modules named for removal
 was removed

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index b558466..9e55b9b 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -119,7 +119,7 @@ def _remove_vba_modules(xl_vbcs, *mod_names_to_del):
 
     # Comparisons are case-insensitive.
     if mod_names_to_del:
-        mod_names_to_del = map(str.lower, mod_names_to_del)
+        mod_names_to_del = set(map(str.lower, mod_names_to_del))
 
     # Gather all workbook vba-modules.
     xl_mods = [xl_vbc for xl_vbc in xl_vbcs if xl_vbc.Type == XL_TYPE_MODULE]
-- 
2.43.0


From 49049cca28323149a25cde3612ed028a218da1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:38 +0000
Subject: [PATCH 80/83] fix: names ending with newlines after an extension
 matched it in ensure_file_ext()

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 42aa4c0..05dcc61 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -321,7 +321,7 @@ def ensure_file_ext(fname, ext, *exts, is_regex=False):
 
     if is_regex:
         ends_with_ext = has_ext(ext) or any(
-            re.match("(?:%s)$" % e, file_ext, re.IGNORECASE) for e in exts
+            re.match(r"(?:%s)\Z" % e, file_ext, re.IGNORECASE) for e in exts
         )
     else:
         ends_with_ext = any(has_ext(e) for e in (ext,) + exts)
-- 
2.43.0


From 929e77b11b624ceb1dc6b280583aacd2a699009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:38 +0000
Subject: [PATCH 81/83] fix: names ending with newlines after an extension told
 as Excel files

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 9e55b9b..aa1c743 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -20,7 +20,7 @@ __commit__ = ""
 log = logging.getLogger(__name__)
 
 
-_xl_extensions = re.compile(r"\.xl((s[xm]?|t[xm]?)|w|m)$", re.IGNORECASE)
+_xl_extensions = re.compile(r"\.xl((s[xm]?|t[xm]?)|w|m)\Z", re.IGNORECASE)
 _xl_extensions_anywhere = re.compile(r"\.xl((s[xm]?|t[xm]?)|w|m)\b", re.IGNORECASE)
 
 
-- 
2.43.0


From a5801767676c2acc983b508a293f9a1dbbec1f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:15 +0000
Subject: [PATCH 82/83] fix: additionalItems failed on sequences that cannot be
 sliced (deques)

---
 pandalone/pandata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ed15b40..63d74cd 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -246,8 +246,9 @@ def _rule_propertyNames(validator, propertyNames, instance, schema):
 
 
 def _rule_additionalItems(validator, aI, instance, schema, original_rule):
-    if isinstance(instance, pd.Series):
-        instance = list(instance)  # Slicing a series may be label-based.
+    if isinstance(instance, cabc.Sequence) and not isinstance(instance, str):
+        # Slicing a series may be label-based, and e.g. a deque cannot be sliced.
+        instance = list(instance)
     for error in original_rule(validator, aI, instance, schema):
         yield error
 
-- 
2.43.0


From 378aa1d558b89e5e14a75915e9fb853ddb830858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:45 +0000
Subject: [PATCH 83/83] fix: models shared objects in pandas-instances held by
 subclasses of dicts and lists with their submodels

---
 pandalone/pandata.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 63d74cd..3424607 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -19,7 +19,7 @@ import numbers
 import pickle
 import re
 from collections import namedtuple
-from copy import deepcopy
+from copy import copy, deepcopy
 from json.decoder import JSONDecoder
 from json.encoder import JSONEncoder
 from typing import Union
@@ -538,10 +538,14 @@ def _clone(branch):
         for i, item in np.ndenumerate(branch):
             clone[i] = _clone(item)
         return clone
-    if type(branch) in (list, tuple):
-        return type(branch)(_clone(item) for item in branch)
-    if type(branch) is dict:
-        return {k: _clone(v) for k, v in branch.items()}
+    if type(branch) is tuple:
+        return tuple(_clone(item) for item in branch)
+    if isinstance(branch, (cabc.MutableMapping, cabc.MutableSequence)):
+        clone = copy(branch)
+        is_map = isinstance(branch, cabc.Mapping)
+        for k, item in branch.items() if is_map else enumerate(branch):
+            clone[k] = _clone(item)
+        return clone
 
     return deepcopy(branch)
 
-- 
2.43.0

