From ff4c67813555f558dc79a050e21adadba8cc84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:18 +0000
Subject: [PATCH 01/45] fix: reject negative coords that fall before the start
 of the sheet

They resolved to negative indices, which numpy reads as counting from the
end of the sheet, so the wrong cells were silently captured.
---
 pandalone/xleash/_capture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index 190ed8a..f2a4ec8 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -270,6 +270,8 @@ def _resolve_coord(cname, cfunc, coord, up_coord, dn_coord, base_coords=None):
             # Resolve negatives as from the end.
             if rcoord < 0:
                 rcoord = dn_coord + rcoord + 1
+                if rcoord < 0:
+                    raise ValueError("Negative-coord falls before the sheet start!")
 
         return rcoord
     except Exception as ex:
-- 
2.43.0


From ee34991973b73375c61f8771d17c9150ae44e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 02/45] fix: name the columns beyond ZZ (coords2Cell raised
 IndexError)

---
 pandalone/xleash/_capture.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index f2a4ec8..1fda1b8 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -22,13 +22,6 @@ from ._parse import Cell
 
 log = logging.getLogger(__name__)
 
-try:
-    from xlrd import colname as xl_colname
-
-    # TODO: Try different backends providing `colname` function.
-except ImportError:
-    log.warning("One of `xlrd`, `...` libraries is needed, will crash later!")
-
 
 CHECK_CELLTYPE = False
 """When `True`, most coord-functions accept any 2-tuples."""
@@ -50,6 +43,19 @@ _primitive_dir_vectors = {
 }
 
 
+def xl_colname(col):
+    """
+    Excel name of a zero-based column, with any number of letters.
+
+    Examples::
+
+        >>> xl_colname(0), xl_colname(25), xl_colname(26), xl_colname(701), xl_colname(702)
+        ('A', 'Z', 'AA', 'ZZ', 'AAA')
+    """
+    high, low = divmod(col, 26)
+    return (xl_colname(high - 1) if high else "") + ascii_uppercase[low]
+
+
 def coords2Cell(row, col):
     """Make *A1* :class:`Cell` from *resolved* coords, with rudimentary error-checking.
 
-- 
2.43.0


From c7ca1d11e1414f8c133b3b0db99a5a6ed98c7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:50 +0000
Subject: [PATCH 03/45] fix: set_jsonpointer raises RefResolutionError on an
 empty pointer or a leaf root

---
 pandalone/pandata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ec3975c..382de03 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1266,6 +1266,8 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
     """
 
     parts = list(iter_jsonpointer_parts(jsonpointer))
+    if not parts:
+        raise RefResolutionError("Cannot set the root: empty JSON pointer!")
 
     # Will scream if used on 1st iteration.
     #
@@ -1297,6 +1299,10 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
         except (LookupError):
             break  # Branch-extension needed.
         except (TypeError):  # Maybe indexing a string...
+            if pdoc is None:
+                raise RefResolutionError(
+                    "Incompatible root for JSON pointer(%r)" % jsonpointer
+                )
             ndoc = object_factory()
             pdoc[ppart] = ndoc
             doc = ndoc
-- 
2.43.0


From 87ad6cc1f011101851e84cea3632c3ebcf1e4587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:57 +0000
Subject: [PATCH 04/45] fix: resolve_path uses an empty root document when one
 is given

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 382de03..35dc7bc 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1231,7 +1231,7 @@ def resolve_path(doc, path, default=_scream, root=None):
 
     def resolve_root(d, p):
         if not p:
-            return root or doc
+            return doc if root is None else root
         raise ValueError()
 
     part_resolvers = [
-- 
2.43.0


From 75a1d1d77c878cef0b22ec63f8329e6838b45490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:03 +0000
Subject: [PATCH 05/45] fix: Pandel.get returns the resolved value

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 35dc7bc..a5d92df 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1041,7 +1041,7 @@ class Pandel(object):
         return self.model
 
     def get(self, path, **kws):
-        resolve_jsonpointer(self.model, path, **kws)
+        return resolve_jsonpointer(self.model, path, **kws)
 
 
 def escape_jsonpointer_part(part):
-- 
2.43.0


From 4fc84d8a4c67bed93cdd3e33a3651dfd9385e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 06/45] fix: assigning a name to a pstep's child no longer
 renames the shared pmods it came from

---
 pandalone/mappings.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index ddfe008..672ffc7 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1090,12 +1090,12 @@ class Pstep(str):
                 existing_cstep = csteps.get(ckey, None)
                 # Update my mappings for `b` when ``self.b = "foo"``.
                 #
+                # (on a merged copy: pmods are shared with other psteps).
+                #
                 if alias is not None:
-                    pmod = self._pmod
-                    if pmod:
-                        pmod._alias = alias
-                    else:
-                        self._pmod = Pmod(_alias=alias)
+                    self._pmod = (self._pmod or Pmod())._merge(
+                        Pmod(_steps={ckey: Pmod(_alias=alias)})
+                    )
         csteps[ckey] = child = Pstep(ckey, existing_cstep or self._pmod, alias)
 
         return child
-- 
2.43.0


From 77500fa21d8b92d46095ca9fe60fd2e2819bec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 07/45] fix: naming a locked pstep through its parent screams,
 as locking a named one does

---
 pandalone/mappings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 672ffc7..133a6e0 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1088,6 +1088,9 @@ class Pstep(str):
         else:
             if existing_cstep is None:
                 existing_cstep = csteps.get(ckey, None)
+                if existing_cstep is not None and alias is not None:
+                    # Scream if renaming/relocating a locked child.
+                    Pstep(ckey, existing_cstep, alias)._locked = existing_cstep._locked
                 # Update my mappings for `b` when ``self.b = "foo"``.
                 #
                 # (on a merged copy: pmods are shared with other psteps).
-- 
2.43.0


From a431f0b7fa1234dee7e79a4493c27b21cb1a427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:52 +0000
Subject: [PATCH 08/45] fix: a pstep named '' (rooted) is not thrown away and
 recreated when referenced again

---
 pandalone/mappings.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 133a6e0..568f318 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1056,7 +1056,7 @@ class Pstep(str):
         attrs = None
         if pname is None:
             pname = ""
-        if maps:
+        if maps or isinstance(maps, Pstep):  # An empty(rooted) pstep is falsy.
             if isinstance(maps, (list, tuple, Pmod)):
                 if isinstance(maps, (list, tuple)):
                     maps = pmods_from_tuples(maps)
@@ -1099,7 +1099,9 @@ class Pstep(str):
                     self._pmod = (self._pmod or Pmod())._merge(
                         Pmod(_steps={ckey: Pmod(_alias=alias)})
                     )
-        csteps[ckey] = child = Pstep(ckey, existing_cstep or self._pmod, alias)
+        if existing_cstep is None:
+            existing_cstep = self._pmod
+        csteps[ckey] = child = Pstep(ckey, existing_cstep, alias)
 
         return child
 
@@ -1110,8 +1112,8 @@ class Pstep(str):
             if attr.startswith("_") or attr in _forbidden_pstep_attrs:
                 raise
             csteps = self._csteps
-            child = csteps and csteps.get(attr, None)
-            return child or self.__make_cstep(attr)
+            child = csteps.get(attr, None) if csteps else None
+            return self.__make_cstep(attr) if child is None else child
 
     def __setattr__(self, attr, value):
         if attr.startswith("_"):
-- 
2.43.0


From b206e52850061e5719d758250eb637d82552a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:58 +0000
Subject: [PATCH 09/45] fix: expansion counts may hold a zero digit

---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index 18a4017..e53eeeb 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -179,7 +179,7 @@ _regular_xlref_regex = re.compile(
             )?
         )?
         (?:
-            :(?P<exp_moves>[LURD?123456789]+)                # expansion moves
+            :(?P<exp_moves>[LURD?0-9]+)                      # expansion moves
         )?
     )?
     (?:
-- 
2.43.0


From 488e254b5c9bd061edf5c27f59faa5f79a962ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 10/45] fix: make_call does not consume the `lax` of the
 call-spec, which may be called again

---
 pandalone/xleash/_lasso.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index fc3a5d8..d1636ee 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -113,6 +113,7 @@ class Ranger(object):
         lasso = self._relasso(lasso, func_name)
 
         verbose = lasso.opts.get("verbose", False)
+        kwds = dict(kwds)  # the call-spec may be used again
         lax = kwds.pop("lax", lasso.opts.get("lax", False))
         func, func_desc = "", ""
         try:
-- 
2.43.0


From 0f62f8bd3d0260b10b8c521b04b0d0d75a4d84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 11/45] fix: a lax filter returning no Lasso leaves the lasso
 as it was

---
 pandalone/xleash/_lasso.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index d1636ee..a67c75f 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -119,11 +119,12 @@ class Ranger(object):
         try:
             func_rec = self.available_filters[func_name]
             func, func_desc = parse_avail_func_rec(**func_rec)
-            lasso = func(self, lasso, *args, **kwds)
-            assert isinstance(lasso, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
+            res = func(self, lasso, *args, **kwds)
+            assert isinstance(res, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
                 func_name,
-                lasso,
+                res,
             )
+            lasso = res
         except Exception as ex:
             if verbose:
                 func_desc = _build_call_help(func_name, func, func_desc)
-- 
2.43.0


From f95a6dc06efccc85240b6bc56074198dea091bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 12/45] fix: verbose filter-errors work without
 inspect.formatargspec and for filters without docs

---
 pandalone/xleash/_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index a67c75f..d7ca47b 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -31,8 +31,8 @@ log = logging.getLogger(__name__)
 
 
 def _build_call_help(name, func, desc):
-    sig = func and inspect.formatargspec(*inspect.getfullargspec(func))
-    desc = textwrap.indent(textwrap.dedent(desc), "    ")
+    sig = func and inspect.signature(func)
+    desc = textwrap.indent(textwrap.dedent(desc or ""), "    ")
     return "\n\nFilter: %s%s:\n%s" % (name, sig, desc)
 
 
-- 
2.43.0


From 38afa673c699d19d3b3d257d09fa82310ba1cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 13/45] fix: report failed single-edge captures as ValueErrors
 (TypeError while building the message)

---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index d7ca47b..5abb6e6 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -39,7 +39,7 @@ def _build_call_help(name, func, desc):
 def _Lasso_to_edges_str(lasso):
     st = lasso.st_edge if lasso.st_edge else ""
     nd = lasso.nd_edge if lasso.nd_edge else ""
-    s = st if st and not nd else "%s:%s" % (st, nd)
+    s = str(st) if st and not nd else "%s:%s" % (st, nd)
     exp = ":%s" % lasso.exp_moves.upper() if lasso.exp_moves else ""
     return s + exp
 
-- 
2.43.0


From e6a921c4a0f9fc7dbed6915d5d507bbcedd973f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 14/45] fix: options of the xl-ref overlay the base ones, do
 not replace them all

---
 pandalone/xleash/_lasso.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 5abb6e6..2b3105a 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -158,6 +158,10 @@ class Ranger(object):
         try:
             parsed_fields = _parse.parse_xlref(xlref)
             filled_fields = dtz.valfilter(lambda v: v is not None, parsed_fields)
+            # Parsed opts are overlayed on the base ones.
+            filled_fields["opts"] = init_lasso.opts.new_child(
+                filled_fields.get("opts", {})
+            )
             init_lasso = init_lasso._replace(**filled_fields)
         except SyntaxError:
             raise
-- 
2.43.0


From 493cea82111c53b2237082ec950bf06a5dd3b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 15/45] fix: redim keeps mixed-typed values as they are
 (numbers next to texts became texts)

---
 pandalone/xleash/_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 904bc6a..e378d05 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -158,7 +158,8 @@ def _redim(values, new_ndim):
     if new_ndim is None:
         return values
 
-    values = np.asarray(values)
+    # As objects, not to convert mixed-typed values to a common type.
+    values = np.asarray(values, dtype=object)
     try:
         new_ndim, transpose = new_ndim
         if transpose:
-- 
2.43.0


From dd85e3eaee75f4a08c628e8e1749736294269d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 16/45] fix: element-wise filters locate elements of nested
 lists also when pandas is installed

---
 pandalone/xleash/_filter.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index e378d05..2feb3c0 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -286,15 +286,16 @@ def run_filter_elementwise(
             try:
                 import pandas as pd
             except ImportError:
-                if cdepth == 0:
-                    row += i
-                elif cdepth == 1:
-                    col += +i
-            else:
-                if isinstance(elval, pd.DataFrame):
-                    col += i
-                elif isinstance(elval, pd.Series):
-                    row += i
+                pd = None
+
+            if pd and isinstance(elval, pd.DataFrame):
+                col += i
+            elif pd and isinstance(elval, pd.Series):
+                row += i
+            elif cdepth == 0:
+                row += i
+            elif cdepth == 1:
+                col += i
 
             return row, col
 
-- 
2.43.0


From fe1d4503c7d99ad9e9df9b2fa3b796de7edeabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 17/45] fix: SimpleSheetsFactory serves sibling sheets
 (UnboundLocalError)

---
 pandalone/xleash/io/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 632e534..3e44d22 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -78,7 +78,7 @@ class SimpleSheetsFactory(object):
             if sheet_id is None:
                 sheet = base_sheet
             else:
-                base_sheet.open_sibling_sheet(sheet_id)
+                sheet = base_sheet.open_sibling_sheet(sheet_id)
         else:
             url = utils.path2url(wb_url)
             sheet = self._open_sheet(url, sheet_id)
-- 
2.43.0


From 1be0458750bf13a808a911440c35b810d0b7afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:42 +0000
Subject: [PATCH 18/45] fix: dates of 1904-epoch workbooks are read in that
 epoch

---
 pandalone/xleash/io/_xlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index df8548a..440f705 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -139,7 +139,7 @@ def _open_sheet_by_name_or_index(xlrd_book, wb_id, sheet_id):
                 raise xl_ex from None
             else:
                 xl_sh = xlrd_book.sheet_by_index(sheet_id)
-    return XlrdSheet(xl_sh, wb_id)
+    return XlrdSheet(xl_sh, wb_id, bool(xlrd_book.datemode))
 
 
 class XlrdSheet(ABCSheet):
-- 
2.43.0


From eb1ced7552f5c50e6d66485a1026879a3335e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:31 +0000
Subject: [PATCH 19/45] fix: redim removes the trivial dimensions it found
 (indices shifted after each removal)

---
 pandalone/xleash/_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 2feb3c0..fe04042 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -112,8 +112,7 @@ def _downdim(values, new_ndim):
     elif offset == trivial_ndims:
         values = values.squeeze()
     else:
-        for _, indx in zip(range(offset), trivial_indxs):
-            values = values.squeeze(indx)
+        values = values.squeeze(tuple(trivial_indxs[:offset]))
 
     return values
 
-- 
2.43.0


From dd46ed1a428c9b20b87085867ad01f2fa89b8e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:39 +0000
Subject: [PATCH 20/45] fix: redim inflates flattened values to the requested
 dimensions, as documented

---
 pandalone/xleash/_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index fe04042..ba5ebfc 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -108,7 +108,7 @@ def _downdim(values, new_ndim):
     offset = values.ndim - new_ndim
     trivial_ndims = len(trivial_indxs)
     if offset > trivial_ndims:
-        values = values.flatten()
+        values = _updim(values.flatten(), max(new_ndim, 1))
     elif offset == trivial_ndims:
         values = values.squeeze()
     else:
-- 
2.43.0


From ae5585c2703f3e7f5a617e6b29475faef2df9b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 21/45] fix: make_default_Ranger merges the given opts with the
 default ones

The docstrings of make_default_Ranger() and lasso() promise that the given
base-opts override the default ones, but any non-empty dict replaced them.
---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 2b3105a..de18cd9 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -314,7 +314,7 @@ def make_default_Ranger(sheets_factory=None, base_opts=None, available_filters=N
     """
     return Ranger(
         sheets_factory or backend.SheetsFactory(),
-        base_opts or get_default_opts(),
+        get_default_opts(base_opts),
         available_filters,
     )
 
-- 
2.43.0


From 9b693b309fec9cc60c4a64944fd03c6d8d22c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:27 +0000
Subject: [PATCH 22/45] fix: read remote workbooks from the content of the
 http-response

---
 pandalone/xleash/io/_xlrd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index 440f705..717a1a5 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -235,7 +235,7 @@ class XlrdBackend(ABCBackend):
         return book.sheet_names()
 
     def _open_book(self, url):
-        parts = filename = urlparse(url)
+        parts = urlparse(url)
         ropts = parts.params or {}
         if "logfile" not in ropts:
             ropts["logfile"] = utils.LoggerWriter(log, logging.DEBUG)
@@ -247,8 +247,10 @@ class XlrdBackend(ABCBackend):
             ropts.pop("on_demand", None)
             http_opts = ropts.get("http_opts", {})
             with request.urlopen(url, **http_opts) as response:
-                log.info("Opening book(%r)...", filename)
-                book = xlrd.open_workbook(filename, file_contents=response, **ropts)
+                log.info("Opening book(%r)...", url)
+                book = xlrd.open_workbook(
+                    filename=url, file_contents=response.read(), **ropts
+                )
 
         return book
 
-- 
2.43.0


From a930b74e6d18c1a9833d3da9cb2f60f5438c9874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 23/45] fix: the ;params of a workbook's URL are not reader
 options

---
 pandalone/xleash/io/_xlrd.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index 717a1a5..2eaa3a7 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -236,17 +236,13 @@ class XlrdBackend(ABCBackend):
 
     def _open_book(self, url):
         parts = urlparse(url)
-        ropts = parts.params or {}
-        if "logfile" not in ropts:
-            ropts["logfile"] = utils.LoggerWriter(log, logging.DEBUG)
+        ropts = {"logfile": utils.LoggerWriter(log, logging.DEBUG)}
         if parts.scheme == "file":
             path = utils.urlpath2path(parts.path)
             log.info("Opening book(%r)...", path)
             book = xlrd.open_workbook(path, **ropts)
         else:
-            ropts.pop("on_demand", None)
-            http_opts = ropts.get("http_opts", {})
-            with request.urlopen(url, **http_opts) as response:
+            with request.urlopen(url) as response:
                 log.info("Opening book(%r)...", url)
                 book = xlrd.open_workbook(
                     filename=url, file_contents=response.read(), **ropts
-- 
2.43.0


From 4413a3179138e36cf7b0d3aa9aad369a6044de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:06 +0000
Subject: [PATCH 24/45] fix: any float NaN is a null of the schema, not only
 the np.nan object

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index a5d92df..6a50c1f 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -171,7 +171,7 @@ def _is_integer(checker, instance):
 
 
 def _is_null(checker, instance):
-    if instance is None or instance is float("nan") or instance is np.nan:
+    if instance is None or (isinstance(instance, float) and instance != instance):
         return True
 
     ## Handle np.arrays's future "bool" behavior.
-- 
2.43.0


From 9b27e6960230f1ff6a4245cba3886c8e3e0aa776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:14 +0000
Subject: [PATCH 25/45] fix: booleans are not the numbers 0 and 1 of an enum

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 6a50c1f..684a38f 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -306,7 +306,7 @@ def _rule_auto_defaults_properties(
 def rule_enum(validator, enums, instance, schema):
     """Overridden to evade pandas-equals after Julian/jsonschema#575 fixed bool != 0,1 (v3.0.2)."""
     unbool = jsonschema._utils.unbool
-    if instance is 0 or instance is 1:
+    if isinstance(instance, numbers.Number) and (instance == 0 or instance == 1):
         unbooled = unbool(instance)
         if all(unbooled != unbool(each) for each in enums):
             yield ValidationError("%r is not one of %r" % (instance, enums))
-- 
2.43.0


From c32f8f6effe3e4f23b202203d714490e9e2773f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:43 +0000
Subject: [PATCH 26/45] fix: building a model leaves the submodels given as
 they were, and shares nothing with them

---
 pandalone/pandata.py | 68 ++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 684a38f..c0a191c 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -876,58 +876,63 @@ class Pandel(object):
             self._errored = True
             yield err
 
+    def _clone_submodel(self, mdl):
+        """Recursively clone the branches of `mdl` (only scalars are shared with the clone)."""
+
+        if isinstance(mdl, (NDFrame, np.ndarray)):
+            return mdl.copy()
+
+        if isinstance(mdl, cabc.Mapping):
+            return {key: self._clone_submodel(val) for key, val in mdl.items()}
+
+        if isinstance(mdl, cabc.Sequence) and not isinstance(mdl, (str, bytes)):
+            return [self._clone_submodel(item) for item in mdl]
+
+        return mdl
+
     def _clone_and_merge_submodels(self, a, b, path=""):
         """' Recursively merge b into a, cloning both. """
 
+        if a is None and b is None:
+            raise ValidationError("Cannot merge Nones at path(%s)!" % path)
+
+        if a is None or b is None:
+            return self._clone_submodel(b if a is None else a)
+
         if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
-            a = pd.DataFrame() if a is None else pd.DataFrame(a)
-            b = pd.DataFrame() if b is None else pd.DataFrame(b)
+            a = pd.DataFrame(a).copy()
+            b = pd.DataFrame(b)
 
             a.update(b)  # , 'outer') NOT IMPL YET
             extra_b_items = list(set(b.columns) - set(a.columns))
             a[extra_b_items] = b[extra_b_items]
 
         elif isinstance(a, pd.Series) or isinstance(b, pd.Series):
-            a = pd.Series() if a is None else pd.Series(a)
-            b = pd.Series() if b is None else pd.Series(b)
+            a = pd.Series(a)
+            b = pd.Series(b)
             # a.update(b) # DOES NOT append extra keys!
             a = b.combine_first(a)
 
         elif isinstance(a, cabc.Mapping) or isinstance(b, cabc.Mapping):
-            a = {} if a is None else {**a}
-            b = {} if b is None else {**b}
+            a = {**a}
+            b = {**b}
 
-            for key in b:
-                b_val = b[key]
-                if key in a:
+            for key, val in a.items():
+                if key in b:
                     val = self._clone_and_merge_submodels(
-                        a[key], b_val, "%s/%s" % (path, key)
+                        val, b[key], "%s/%s" % (path, key)
                     )
                 else:
-                    val = b_val
+                    val = self._clone_submodel(val)
                 a[key] = val
 
-        elif (isinstance(a, cabc.Sequence) and not isinstance(a, str)) or (
-            isinstance(b, cabc.Sequence) and not isinstance(b, str)
-        ):
-            if b is not None:
-                val = b
-            else:
-                val = a
-
-            l = list()
-            for (i, item) in enumerate(val):
-                l.append(
-                    self._clone_and_merge_submodels(item, None, "%s[%i]" % (path, i))
-                )
-            a = l
-
-        elif a is None and b is None:
-            raise ValidationError("Cannot merge Nones at path(%s)!" % path)
+            for key, val in b.items():
+                if key not in a:
+                    a[key] = self._clone_submodel(val)
 
         else:
-            if b is not None:
-                a = b
+            # Sequences and scalars do not merge, they just "overwrite".
+            a = self._clone_submodel(b)
 
         return a
 
@@ -940,7 +945,8 @@ class Pandel(object):
         "Step-1"
         for (mdl, path_ops) in self._submodel_tuples:
             schema = self._get_json_schema(is_prevalidation=True)
-            for err in self._validate_json_model(schema, mdl):
+            # Validate a clone, because validation also applies any schema-defaults.
+            for err in self._validate_json_model(schema, self._clone_submodel(mdl)):
                 yield err
 
     def _merge(self):
-- 
2.43.0


From 7bbdf4d491d2a755955d67a317fc91c59c1eacf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:52 +0000
Subject: [PATCH 27/45] fix: branches of different kinds overwrite those below,
 when merging submodels

---
 pandalone/pandata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index c0a191c..8afd537 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -913,7 +913,7 @@ class Pandel(object):
             # a.update(b) # DOES NOT append extra keys!
             a = b.combine_first(a)
 
-        elif isinstance(a, cabc.Mapping) or isinstance(b, cabc.Mapping):
+        elif isinstance(a, cabc.Mapping) and isinstance(b, cabc.Mapping):
             a = {**a}
             b = {**b}
 
@@ -931,7 +931,7 @@ class Pandel(object):
                     a[key] = self._clone_submodel(val)
 
         else:
-            # Sequences and scalars do not merge, they just "overwrite".
+            # Sequences, scalars and branches of different kinds just "overwrite".
             a = self._clone_submodel(b)
 
         return a
-- 
2.43.0


From 9e591a59696813d5ebcc0fdc1f10e06cb2580336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:59 +0000
Subject: [PATCH 28/45] fix: new columns of a merged DataFrame keep their order

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 8afd537..a58ffd2 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -904,7 +904,7 @@ class Pandel(object):
             b = pd.DataFrame(b)
 
             a.update(b)  # , 'outer') NOT IMPL YET
-            extra_b_items = list(set(b.columns) - set(a.columns))
+            extra_b_items = [col for col in b.columns if col not in a.columns]
             a[extra_b_items] = b[extra_b_items]
 
         elif isinstance(a, pd.Series) or isinstance(b, pd.Series):
-- 
2.43.0


From 96c6a3914366fba2668a29e2783e5ae9f3517e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:08 +0000
Subject: [PATCH 29/45] fix: JSONCodec keeps the line-endings inside pickles

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index a58ffd2..5963f7a 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1440,7 +1440,7 @@ class JSONCodec:
     class Encoder(JSONEncoder):
         def encode(self, o):
             pickle_bytes = pickle.dumps(o)
-            pickle_str = binascii.b2a_qp(pickle_bytes).decode(encoding="utf8")
+            pickle_str = binascii.b2a_qp(pickle_bytes, istext=False).decode(encoding="utf8")
             o = {JSONCodec._obj: pickle_str, JSONCodec._ver_key: JSONCodec._ver}
             return JSONEncoder.encode(self, o)
 
-- 
2.43.0


From f20aaba300c3751d85d0ff61bc875b28eb6e092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:39 +0000
Subject: [PATCH 30/45] fix: null-check of DataFrames with a single cell

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 5963f7a..5651d3e 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -178,7 +178,7 @@ def _is_null(checker, instance):
     #  see https://github.com/numpy/numpy/issues/9583
     #
     try:
-        return instance.size == 1 and np.isnan(instance).all()
+        return instance.size == 1 and bool(np.isnan(np.asarray(instance)).all())
     except Exception:
         pass
 
-- 
2.43.0


From 96d33d1ee89ebfd38c645da56bd903d06836564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:48 +0000
Subject: [PATCH 31/45] fix: properties may have boolean schemas (draft-06+)
 when auto-defaulting

---
 pandalone/pandata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 5651d3e..673cdd0 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -277,6 +277,9 @@ def _rule_auto_defaults_properties(
         return
 
     for property, subschema in properties.items():
+        if not _is_object(None, subschema):
+            continue  # Boolean schemas (draft-06+) have no defaults.
+
         prop_given = property in instance
         if "default" in subschema and (
             (
-- 
2.43.0


From 869fee495b4223dad75cf57158a259372d37c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:56 +0000
Subject: [PATCH 32/45] fix: autoDefault & co. in the schema work also when all
 respective params are off

---
 pandalone/pandata.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 673cdd0..a56d1f2 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -449,15 +449,17 @@ def PandelVisitor(
     validator = jsonschema.validators.validator_for(schema)
     props_rule = validator.VALIDATORS["properties"]
 
-    rules = {"additionalProperties": _rule_additionalProperties}
-    if any((auto_default, auto_default_nulls, auto_remove_nulls)):
-        rules["properties"] = fnt.partial(
+    rules = {
+        "additionalProperties": _rule_additionalProperties,
+        # Installed always, because schemas may enable what the params do not.
+        "properties": fnt.partial(
             _rule_auto_defaults_properties,
             original_props_rule=props_rule,
             auto_default=auto_default,
             auto_default_nulls=auto_default_nulls,
             auto_remove_nulls=auto_remove_nulls,
-        )
+        ),
+    }
     if "propertyNames" in validator.VALIDATORS:
         rules["propertyNames"] = _rule_propertyNames
     if hasattr(jsonschema._utils, "unbool"):
-- 
2.43.0


From 355bed216a9b29aa9eaf4befb518efe62276bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:03 +0000
Subject: [PATCH 33/45] fix: patternProperties do not interfere with each other
 when finding additional ones

---
 pandalone/pandata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index a56d1f2..a438c9d 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -197,10 +197,11 @@ def _find_additional_properties(instance, schema):
     """
 
     properties = schema.get("properties", {})
-    patterns = "|".join(schema.get("patternProperties", {}))
+    # Patterns searched one-by-one, if joined, they interfere (back-references, inline flags).
+    patterns = schema.get("patternProperties", {})
     for property in instance.keys():  # keys() wer missin, PATCHING JUST FOR THIS!!!!
         if property not in properties:
-            if patterns and re.search(patterns, property):
+            if any(re.search(pattern, property) for pattern in patterns):
                 continue
             yield property
 
-- 
2.43.0


From 656c24a0d84c931393966a585ce74b1da7914176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 34/45] fix: enum compares pandas & numpy instances by value
 (ValueError: ambiguous truth)

---
 pandalone/pandata.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index a438c9d..bcd051e 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -307,14 +307,24 @@ def _rule_auto_defaults_properties(
         yield error
 
 
+def _json_equal(a, b):
+    """Compare by value, treating pandas & numpy instances as the JSON-types they stand for."""
+    if a is b:
+        return True
+    if _is_object(None, a) and _is_object(None, b):
+        return set(a.keys()) == set(b.keys()) and all(
+            _json_equal(a[k], b[k]) for k in a.keys()
+        )
+    if _is_array(None, a) and _is_array(None, b):
+        return len(a) == len(b) and all(_json_equal(i, j) for i, j in zip(a, b))
+    if any(_is_object(None, i) or _is_array(None, i) for i in (a, b)):
+        return False
+    return _is_bool(None, a) == _is_bool(None, b) and bool(a == b)
+
+
 def rule_enum(validator, enums, instance, schema):
     """Overridden to evade pandas-equals after Julian/jsonschema#575 fixed bool != 0,1 (v3.0.2)."""
-    unbool = jsonschema._utils.unbool
-    if isinstance(instance, numbers.Number) and (instance == 0 or instance == 1):
-        unbooled = unbool(instance)
-        if all(unbooled != unbool(each) for each in enums):
-            yield ValidationError("%r is not one of %r" % (instance, enums))
-    elif instance not in enums:
+    if not any(_json_equal(instance, each) for each in enums):
         yield ValidationError("%r is not one of %r" % (instance, enums))
 
 
-- 
2.43.0


From 5915a61e6f52df68659ba56c4c959cc96b4a6e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:09 +0000
Subject: [PATCH 35/45] fix: const compares pandas & numpy instances by value
 (ValueError: ambiguous truth)

---
 pandalone/pandata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index bcd051e..635f856 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -328,6 +328,12 @@ def rule_enum(validator, enums, instance, schema):
         yield ValidationError("%r is not one of %r" % (instance, enums))
 
 
+def rule_const(validator, const, instance, schema):
+    """Overridden to evade pandas-equals, like :func:`rule_enum()`."""
+    if not _json_equal(instance, const):
+        yield ValidationError("%r was expected" % (const,))
+
+
 def PandelVisitor(
     schema,
     resolver=None,
@@ -475,6 +481,8 @@ def PandelVisitor(
         rules["propertyNames"] = _rule_propertyNames
     if hasattr(jsonschema._utils, "unbool"):
         rules["enum"] = rule_enum  # fix pandas after jsonschema-3.0.2
+    if "const" in validator.VALIDATORS:
+        rules["const"] = rule_const
 
     ValidatorClass = jsonschema.validators.extend(
         validator,
-- 
2.43.0


From a519d3f19c1a38060eeb2c68048311b87fbc9871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:35 +0000
Subject: [PATCH 36/45] fix: JSONCodec decodes plain JSON that is no object
 (AttributeError)

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 635f856..c4e4ca5 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1471,7 +1471,7 @@ class JSONCodec:
     class Decoder(JSONDecoder):
         def decode(self, s):
             o = JSONDecoder.decode(self, s)
-            pickle_str = o.get(JSONCodec._obj, None)
+            pickle_str = o.get(JSONCodec._obj, None) if isinstance(o, dict) else None
             if pickle_str:
                 # file_ver = o[JSONCodec._ver_key]
                 # if file_ver != JSONCodec._ver:
-- 
2.43.0


From ea5538c57e2f8842a9f3f5ab78471e2bdc92e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:43 +0000
Subject: [PATCH 37/45] fix: json.dump() obeys JSONCodec (tuples & keys
 changed, other objects refused)

---
 pandalone/pandata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index c4e4ca5..07553b3 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1466,7 +1466,11 @@ class JSONCodec:
             pickle_bytes = pickle.dumps(o)
             pickle_str = binascii.b2a_qp(pickle_bytes, istext=False).decode(encoding="utf8")
             o = {JSONCodec._obj: pickle_str, JSONCodec._ver_key: JSONCodec._ver}
-            return JSONEncoder.encode(self, o)
+            return "".join(JSONEncoder.iterencode(self, o))
+
+        def iterencode(self, o, _one_shot=False):
+            # Invoked by `json.dump()`.
+            yield self.encode(o)
 
     class Decoder(JSONDecoder):
         def decode(self, s):
-- 
2.43.0


From 82cd603f60d9d862396d86e9a11167dadd4bb6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:51 +0000
Subject: [PATCH 38/45] fix: units in <> may contain parentheses

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 07553b3..833e04d 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -44,7 +44,7 @@ _value_with_units_regex = re.compile(
                                             \]
                                             |
                                             <              # units enclosed in <>
-                                                [^)]*
+                                                [^>]*
                                             >
                                         )?                  # end parenthesized-units
                                         \s*$""",
-- 
2.43.0


From 49bbe5aca28aa354e282bc52de654f24884e74f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 39/45] fix: the paths of components with an empty name
 (relative to the root) were lost

---
 pandalone/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/components.py b/pandalone/components.py
index b001d32..d72cd7e 100644
--- a/pandalone/components.py
+++ b/pandalone/components.py
@@ -197,7 +197,7 @@ class FuncComponent(Component):
         self._cfunc(self, *args, **kws)
 
     def _fetch_all_paths(self, pstep):
-        return pstep._paths() if pstep else []
+        return pstep._paths() if pstep is not None else []
 
     def pinp(self, path=None):
         """The suggested :class:`Pstep` for cfunc to use to access inputs."""
-- 
2.43.0


From e2b8b336804063ae6b68d03b9a5e5bac992c66b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:16 +0000
Subject: [PATCH 40/45] fix: make_unique_filename() ignored the generator given

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 40f5252..7475b01 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -255,7 +255,7 @@ def generate_filenames(filename):
 
 
 def make_unique_filename(fname, filegen=generate_filenames):
-    fname_genor = generate_filenames(fname)
+    fname_genor = filegen(fname)
     fname = next(fname_genor)
     while os.path.exists(fname):
         fname = next(fname_genor)
-- 
2.43.0


From 7dd23db47cde3be1c8b127246ddcbdf5d90a5dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:16 +0000
Subject: [PATCH 41/45] fix: ensure_dir_exists() let dangling links and files
 pass as directories

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 7475b01..8acdf51 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -345,7 +345,7 @@ def ensure_dir_exists(path, mode=0o755):
         try:
             os.makedirs(path, mode=mode)
         except OSError as e:
-            if e.errno != errno.EEXIST:
+            if e.errno != errno.EEXIST or not os.path.isdir(path):
                 raise
     elif not os.path.isdir(path):
         raise IOError("%r exists but is not a directory" % path)
-- 
2.43.0


From 4dc430313eab91deb5b6676e4c2db3aaf2a07d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:16 +0000
Subject: [PATCH 42/45] fix: obj2bool() failed on true objects that are no
 texts

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 8acdf51..c7e939e 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -81,7 +81,7 @@ def obj2bool(v):
         >>> obj2bool(None) == obj2bool('') == obj2bool(0) == False
         True
     """
-    return bool(v) and str2bool(v)
+    return str2bool(v) if isinstance(v, str) else bool(v)
 
 
 def is_travis():  # pragma: no cover
-- 
2.43.0


From a0d223c0f3ab67904bbf80ae1a8168b2c051d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:16 +0000
Subject: [PATCH 43/45] fix: ensure_file_ext() matched parts of extensions and
 missed double or dotless ones

---
 pandalone/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index c7e939e..295bca9 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -311,15 +311,20 @@ def ensure_file_ext(fname, ext, *exts, is_regex=False):
         'foo.xl^.xls'
 
     """
+    def dotted(e):
+        return e if e[:1] in ("", ".") else "." + e
+
     _, file_ext = os.path.splitext(fname)
 
     if is_regex:
         ends_with_ext = any(
-            re.match(e + "$", file_ext, re.IGNORECASE) for e in (re.escape(ext),) + exts
+            re.fullmatch(e, file_ext, re.IGNORECASE)
+            for e in (re.escape(dotted(ext)),) + exts
         )
     else:
-        file_ext = file_ext.lower()
-        ends_with_ext = any(file_ext.endswith(e.lower()) for e in (ext,) + exts)
+        # Leading dots mark hidden files, not extensions.
+        base = os.path.basename(fname).lstrip(".").lower()
+        ends_with_ext = any(base.endswith(dotted(e).lower()) for e in (ext,) + exts)
 
     if not ends_with_ext:
         if fname[-1] == ".":
-- 
2.43.0


From cbbe302e33b87dcd0471bd3abb321755004ab35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:08 +0000
Subject: [PATCH 44/45] fix: local workbooks with long paths (>200) could not
 be opened

---
 pandalone/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 295bca9..d7d345d 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -182,8 +182,8 @@ def urlpath2path(url):
     p = ur.url2pathname(url)
     if _is_dir_regex.search(url) and p[-1] != os.sep:
         p = p + osp.sep
-    if len(p) > 200:
-        p += _unc_prefix
+    if os.name == "nt" and len(p) > 200:
+        p = _unc_prefix + p
     return p
 
 
-- 
2.43.0


From 9cebc13dba6e941754de6b75de5ac7b5f59c8b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:04 +0000
Subject: [PATCH 45/45] fix: xl-refs enclosed in delimiters failed to lasso
 (misnamed field)

---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index e53eeeb..5b3cf47 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -477,7 +477,7 @@ def parse_xlref(xlref):
         else:
             if m:
                 res = _parse_xlref(m.group(2))
-                res["xl-ref"] = xlref
+                res["xl_ref"] = xlref
             else:
                 raise ex
 
-- 
2.43.0

