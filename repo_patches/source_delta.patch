From 8433095010aa543691f34d46942f69186a6a6fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 001/177] fix: slicing cell centered coordinates with negative
 indices or strides

The nodes of the result did not bound the selected cells (or there were too
few of them) for negative start / stop, negative step, |step| > 1, index
arrays, and slice_keep with a negative index.
---
 viscid/coordinate.py | 99 ++++++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 41 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 718297f..0b01d6d 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -156,6 +156,45 @@ def extend_arr(x, n=1, cell_fraction=1.0, full_arr=True, default_width=1e-5,
     return ret
 
 
+def _is_centered(crd_nc, crd_cc):
+    """True if crd_cc are half way between crd_nc, to roundoff"""
+    if len(crd_nc) != len(crd_cc) + 1:
+        return False
+    dx = crd_nc[1:] - crd_nc[:-1]
+    if len(dx) == 0:
+        return True
+    err = np.abs(crd_cc - (crd_nc[:-1] + 0.5 * dx))
+    return bool(np.all(err <= 1e-6 * np.max(np.abs(dx))))
+
+def _slice_cells(crd_nc, crd_cc, slc):
+    """Slice cells, i.e., slc refers to elements of crd_cc
+
+    Returns:
+        list, [nc] or [nc, cc] if the cell centers of the result aren't
+        half way between its nodes
+    """
+    if len(crd_nc) != len(crd_cc) + 1:
+        return [crd_nc[slc]]
+
+    ret_cc = crd_cc[slc]
+    start, stop, step = slc.indices(len(crd_cc))
+
+    # all the nodes of the cells in start:stop:sign(step)
+    if step > 0:
+        ret_nc = crd_nc[start:max(start, stop) + 1]
+    else:
+        ret_nc = crd_nc[min(start, stop) + 1:start + 2][::-1]
+
+    # now account for the stride
+    if abs(step) != 1 and len(ret_cc) > 0:
+        mid_nc = ret_cc[:-1] + 0.5 * (ret_cc[1:] - ret_cc[:-1])
+        ret_nc = np.concatenate([ret_nc[:1], mid_nc, ret_nc[-1:]])
+
+    if len(ret_cc) == 0 or _is_centered(ret_nc, ret_cc):
+        return [ret_nc]
+    return [ret_nc, ret_cc]
+
+
 class Coordinates(object):
     """Base class for all coordinate types
 
@@ -680,32 +719,13 @@ class StructuredCrds(Coordinates):
 
                 sliced_clist_item = None
 
-                # if using step on a cell centered field, we need to figure
-                # stuff out, since the data && crd slices can't be the same,
-                # and it's not as simple as just adding 1 b/c of the stride
-                if cc and slc.step not in [None, 1, -1]:
-                    crd_cc = crd_arrs_cc[i][slc]
-                    crd_nc = 0.5 * (crd_cc[1:] + crd_cc[:-1])
-
-                    allslc = slice(slc.start, slc.stop,
-                                   slc.step // np.abs(slc.step))
-                    allnc = crd_arrs_nc[i][allslc]
-                    crd_nc = np.concatenate([[allnc[0]], crd_nc, [allnc[-1]]])
-
-                    sliced_clist_item = [axis, crd_nc, crd_cc]
-
-                elif cc and slc.stop is not None:
-                    if slc.stop >= 0:
-                        if slc.step is None or slc.step > 0:
-                            newstop = slc.stop + 1
-                        else:
-                            newstop = slc.stop - 1
-                    else:  # slc.stop < 0
-                        # this will slice crds nc, so if we're going backward,
-                        # the extra crd will be included
-                        # print("am i used?", slc.step)
-                        newstop = slc.stop
-                    slc = slice(slc.start, newstop, slc.step)
+                # slicing cells means taking all the nodes that bound them, and
+                # if there's a stride, then the data && crd slices can't be
+                # the same
+                if cc:
+                    sliced_clist_item = [axis]
+                    sliced_clist_item += _slice_cells(crd_arrs_nc[i],
+                                                      crd_arrs_cc[i], slc)
 
                 if sliced_clist_item is None:
                     cval = crd_arrs_nc[i][slc]
@@ -753,6 +773,11 @@ class StructuredCrds(Coordinates):
                 if not np.allclose(diff_nc[0], diff_nc, rtol=rtol):
                     any_non_uniform = True
                     break
+                # uniform crds can't store cell centers that aren't half way
+                # between the nodes
+                if len(clist_i) > 2 and not _is_centered(*clist_i[1:3]):
+                    any_non_uniform = True
+                    break
 
         if uniform_type == 'uniform' and any_non_uniform:
             uniform_type = 'nonuniform'
@@ -825,22 +850,14 @@ class StructuredCrds(Coordinates):
             crd_nc = self.get_nc(axis)
 
             if cc:
-                if loc_ind == -1:
-                    crd = crd_nc[-2:]
-                    slc = slice(-1, None)
-                elif loc_ind == -2:
-                    crd = crd_nc[-2:]
-                    slc = slice(-2, -1)
-                else:
-                    crd = crd_nc[loc_ind:loc_ind + 2]
-                    slc = slice(loc_ind, loc_ind + 1)
+                if loc_ind < 0:
+                    loc_ind += len(self.get_cc(axis))
+                crd = crd_nc[loc_ind:loc_ind + 2]
             else:
-                if loc_ind == -1:
-                    crd = crd_nc[-1:]
-                    slc = slice(-1, None)
-                else:
-                    crd = crd_nc[loc_ind:loc_ind + 1]
-                    slc = slice(loc_ind, loc_ind + 1)
+                if loc_ind < 0:
+                    loc_ind += len(crd_nc)
+                crd = crd_nc[loc_ind:loc_ind + 1]
+            slc = slice(loc_ind, loc_ind + 1)
 
             slices[new_axis_ind] = slc
             crdlst.insert(new_axis_ind, [axis, crd])
-- 
2.43.0


From c752aa8a16fd9961222f1567ae8212bc8e31b5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 002/177] fix: index arrays act on their own axis when mixed
 with integers

fld[0, :, [0, 1]] and v['x', :, [0, 1]] transposed (or misshaped) the data
with respect to the coordinates since numpy moves the axis of an index array
that's separated from an integer index to the front.
---
 viscid/field.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 79b3089..387fc41 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -401,6 +401,38 @@ def rewrap_field(fld):
     return ret
 
 
+def _orthogonal_getitem(arr, slices):
+    """arr[slices], but index arrays only ever act on their own axis
+
+    Numpy would broadcast index arrays against each other (and against
+    the integers in slices), which could transpose the result.
+    """
+    if sum(isinstance(s, np.ndarray) for s in slices) == 0:
+        return arr[tuple(slices)]
+    basic = []
+    axis = 0
+    for s in slices:
+        if s is not np.newaxis:
+            if isinstance(s, np.ndarray):
+                arr = arr[(slice(None), ) * axis + (s, )]
+                s = slice(None)
+            axis += 1
+        basic.append(s)
+    return arr[tuple(basic)]
+
+def _orthogonal_setitem(arr, slices, value):
+    """arr[slices] = value with the semantics of _orthogonal_getitem"""
+    if sum(isinstance(s, np.ndarray) for s in slices) == 0:
+        arr[tuple(slices)] = value
+    else:
+        view = arr[tuple(slice(None) if isinstance(s, np.ndarray) else s
+                         for s in slices)]
+        inds = [s for s in slices if not hasattr(s, "__index__")
+                or isinstance(s, np.ndarray)]
+        inds = [s if isinstance(s, np.ndarray) else np.arange(n)
+                for s, n in zip(inds, view.shape)]
+        view[np.ix_(*inds)] = value
+
 class _FldSlcProxy(object):
     parent = None
     def __init__(self, parent, do_floatify=True):
@@ -1251,7 +1283,7 @@ class Field(tree.Leaf):
             except TypeError:
                 nr_comp = None
             # use xyz slices cause self.data is guarenteed to be xyz
-            slced_dat = self.data[tuple(slices)]
+            slced_dat = _orthogonal_getitem(self.data, slices)
 
         if len(reduced) == len(slices) or getattr(slced_dat, 'size', 0) == 1:
             # if we sliced the hell out of the array, just
@@ -1366,7 +1398,7 @@ class Field(tree.Leaf):
             slices.insert(nr_comp, comp_slc)
         except TypeError:
             pass
-        self.data[tuple(slices)] = value
+        _orthogonal_setitem(self.data, slices, value)
         return None
 
     @classmethod
-- 
2.43.0


From 9d8e7bf669ff9f1f44d7a0a34d8ed31389562f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 003/177] fix: loc indexer selected the wrong axis of vector
 fields

---
 viscid/field.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 387fc41..55a4e55 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -488,9 +488,6 @@ class _FldSlcProxy(object):
             else:
                 sel.append(self._floatify(it))
 
-        if self.parent.nr_comps and len(sel) >= self.parent.nr_comp:
-            sel.insert(self.parent.nr_comp, slice(None))
-
         return tuple(sel)
 
     def __getitem__(self, item):
-- 
2.43.0


From ea2ae75d90cd988dfd1cff7590ce2aea643fbaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 004/177] fix: a single date / time string was taken for a
 slice

'UT2010-01-01T12:00:00' contains colons, but it's a single location.
---
 viscid/sliceutil.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 806637a..4843b3a 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -309,10 +309,15 @@ def standardize_sel(sel):
         if sel[0] == '[' and sel[-1] == ']':
             sel = standardize_value(sel, bool_argwhere=True)
         elif ':' in sel:
-            sel = slice(*[standardize_value(s, bool_argwhere=True)
-                          for s in _split_slice_str(sel)])
-            assert isinstance(sel.step, (type(None), int, np.integer))
-            assert not isinstance(sel.step, (np.datetime64, np.timedelta64))
+            split_sel = [standardize_value(s, bool_argwhere=True)
+                         for s in _split_slice_str(sel)]
+            if len(split_sel) == 1:
+                # the only colons are inside a single time / date
+                sel = split_sel[0]
+            else:
+                sel = slice(*split_sel)
+                assert isinstance(sel.step, (type(None), int, np.integer))
+                assert not isinstance(sel.step, (np.datetime64, np.timedelta64))
         else:
             sel = standardize_value(sel, bool_argwhere=True)
     elif isinstance(sel, slice):
-- 
2.43.0


From e0e3eebb3998f597a104356d5f0bb22c7d41c2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 005/177] fix: assignment through an index array on interlaced
 vector fields raised

---
 viscid/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index 55a4e55..d110299 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1391,7 +1391,7 @@ class Field(tree.Leaf):
         slices, _ = self._src_crds.make_slice(tuple(sel_list), cc=cc)[:2]
         try:
             nr_comp = self.nr_comp
-            nr_comp += slices[:nr_comp].count(np.newaxis)
+            nr_comp += sum(s is np.newaxis for s in slices[:nr_comp])
             slices.insert(nr_comp, comp_slc)
         except TypeError:
             pass
-- 
2.43.0


From 988f94163cd9634157b183fb33d3abda5cbe2bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 006/177] fix: make_fwd_slice with negative integers, start ==
 L, new axes or index arrays

Reversed axes used L - 1 - slc for negative integers, a backward slice from
L came out empty, and the list of axes to reverse was not aligned with the
slices if there was a new axis.
---
 viscid/coordinate.py | 3 +++
 viscid/sliceutil.py  | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 0b01d6d..92b4434 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -489,6 +489,9 @@ class StructuredCrds(Coordinates):
         # assert len(slices) == len(self._axes)
 
         rev = [True if ax in self.reflect_axes else False for ax in self._axes]
+        for i, slc in enumerate(slices):
+            if slc is np.newaxis:
+                rev.insert(i, False)
         if cc:
             shape = self.shape_cc
         else:
diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 4843b3a..3b349c0 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -902,7 +902,7 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     if not isinstance(reverse, (list, tuple)):
         reverse = [reverse]
 
-    newax_inds = [i for i, x in enumerate(slices) if x == np.newaxis]
+    newax_inds = [i for i, x in enumerate(slices) if x is np.newaxis]
     shape = list(shape)
     for i in newax_inds:
         shape.insert(i, 1)
@@ -925,6 +925,10 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
             if stop < 0:
                 stop += L
 
+            if step < 0 and start == L:
+                # like numpy, a backward slice begins at the last element
+                start = L - 1
+
             # sanity check the start/stop since we're gunna be playing
             # fast and loose with them
             if start < 0 or stop < 0:
@@ -978,7 +982,7 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
         elif isinstance(slc, (int, np.integer)):
             second_slc[i] = None
             if rev:
-                slc = (L - 1) - slc
+                slc = (L - 1) - (slc + L if slc < 0 else slc)
 
         elif slc == np.newaxis:
             second_slc[i] = "NEWAXIS"
-- 
2.43.0


From 1bd6ba2426c8ebf6acd63278149461ed2ea4ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 007/177] fix: slice and re-layout lazily loaded vector fields

Component slices were inserted twice into the slice of xyz ordered on-disk
data, fields made of fields raised when a slice left one element, and changing
the layout of an unloaded field mixed up which axis is the component axis.
---
 viscid/field.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index d110299..b9bb305 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -647,6 +647,7 @@ class Field(tree.Leaf):
                 self.clear_cache()
         self.deep_meta["force_layout"] = new_layout
         self._layout = None
+        self._nr_comp = None
 
     @property
     def nr_dims(self):
@@ -901,7 +902,12 @@ class Field(tree.Leaf):
                     # spatial_transpose = list(range(len(self.shape)))
                     spatial_transpose = list(range(len(self._src_data.shape)))
                     if self.nr_comps > 0:
-                        nr_comp = self.nr_comp
+                        # self.nr_comp is for the layout of self.data, which
+                        # may be different from that of self._src_data
+                        if self._detect_layout(self._src_data) == LAYOUT_FLAT:
+                            nr_comp = 0
+                        else:
+                            nr_comp = len(spatial_transpose) - 1
                         spatial_transpose.remove(nr_comp)
                         spatial_transpose = spatial_transpose[::-1]
                         spatial_transpose.insert(nr_comp, nr_comp)
@@ -1181,7 +1187,12 @@ class Field(tree.Leaf):
                 comps = self._src_data[comp_slc]
                 # using xyz slices because it's calling Field.__getitem__
                 slced_dat = [c[tuple(slices)] for c in comps]
-        elif self._cache is None and hypersliceable:
+            # if there's only one element left, then these are bare numbers
+            if not isinstance(slced_dat[0] if isinstance(slced_dat, list)
+                              else slced_dat, Field):
+                slced_dat = np.asarray(slced_dat)
+        elif (self._cache is None and hypersliceable and
+              not any(isinstance(s, np.ndarray) for s in slices)):
             # we have to flip the slice, meaning: if the array looks like
             # ind     : 0    1     2    3    4    5    6
             # x       : -1.0 -0.5  0.0  0.5  1.0  1.5  2.0
@@ -1202,8 +1213,8 @@ class Field(tree.Leaf):
                 native_first_slc = first_slc[::-1]
                 native_second_slc = second_slc[::-1]
             else:
-                native_first_slc = first_slc
-                native_second_slc = second_slc
+                native_first_slc = list(first_slc)
+                native_second_slc = list(second_slc)
 
             # now put component slice back in
             try:
@@ -1282,10 +1293,10 @@ class Field(tree.Leaf):
             # use xyz slices cause self.data is guarenteed to be xyz
             slced_dat = _orthogonal_getitem(self.data, slices)
 
-        if len(reduced) == len(slices) or getattr(slced_dat, 'size', 0) == 1:
+        if getattr(slced_dat, 'size', 0) == 1:
             # if we sliced the hell out of the array, just
             # return the value that's left, ndarrays have the same behavior
-            ret = slced_dat.item()
+            ret = np.asarray(slced_dat).item()
         else:
             ctx = dict(crds=crds, zyx_native=False)
             fldtype = None
@@ -2386,13 +2397,12 @@ class VectorField(Field):
 
         ret = None
         if self.layout == to_layout:
-            if force_c_contiguous:
-                if not self.data.flags['C_CONTIGUOUS']:
-                    # print("calling np.ascontiguousarray")
-                    ret = self.wrap(np.ascontiguousarray(self.data))
-                else:
-                    # print("returning self")
-                    ret = self
+            if force_c_contiguous and not self.data.flags['C_CONTIGUOUS']:
+                # print("calling np.ascontiguousarray")
+                ret = self.wrap(np.ascontiguousarray(self.data))
+            else:
+                # print("returning self")
+                ret = self
         else:
             ctx = dict(force_layout=to_layout)
             # the data load is going to wrap the array, i think it's
-- 
2.43.0


From 1d79a93c17556638933089f62de269c68e440327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 008/177] fix: extents and cell centers of uniform / reflected
 coordinates

---
 viscid/coordinate.py | 132 ++++++++++++++++++++-----------------------
 viscid/field.py      |   5 +-
 2 files changed, 63 insertions(+), 74 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 92b4434..4a26eb5 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -412,6 +412,7 @@ class StructuredCrds(Coordinates):
         if not val:
             val = []
         self._reflect_axes = val
+        self.clear_cache()
 
     @property
     def _crds(self):
@@ -539,6 +540,8 @@ class StructuredCrds(Coordinates):
             # a = self.axis_name(a)  # validate input
             if a in self._src_crds_cc:
                 ccarr = self._src_crds_cc[a]
+                if a in self.reflect_axes:
+                    ccarr = self._reflect_axis_arr(ccarr)
             else:
                 # doing the cc math this way also works for datetime objects
                 if len(self._Pcrds[a]) == 1:
@@ -574,9 +577,9 @@ class StructuredCrds(Coordinates):
         # same as face, but swap nc with cc
         sfx = self._CENTER["edge"]
         for i, a in enumerate(self.axes):
-            self._Pcrds[a + sfx] = [None] * 3
-            self._Pcrds[a.upper() + sfx] = [None] * 3
-            for j in range(3):
+            self._Pcrds[a + sfx] = [None] * len(self.axes)
+            self._Pcrds[a.upper() + sfx] = [None] * len(self.axes)
+            for j in range(len(self.axes)):
                 if i != j:
                     self._Pcrds[a + sfx][j] = crds_nc[i][:-1]
                     self._Pcrds[a.upper() + sfx][j] = self._sm1(crds_nc_shaped[i])
@@ -653,8 +656,25 @@ class StructuredCrds(Coordinates):
         for i, x_cc in enumerate(crds_cc):
             crds_nc[i] = extend_arr(x_cc, default_width=default_width,
                                     width_arr=crds_nc[i])
-        new_clist = [(ax, nc) for ax, nc in zip(axes, crds_nc)]
-        return type(self)(new_clist)
+        return self._like_self(axes, crds_nc)
+
+    def cc2nc(self):
+        """Make cell centers the nodes
+
+        Used for turning cell centered fields to node centered without
+        changing the data, just the coordinates.
+
+        Returns:
+            New coordinates instance with same type as self
+        """
+        return self._like_self(self.axes, self.get_crds_cc())
+
+    def _like_self(self, axes, crds_nc):
+        """new crds that still apply the reflections of self, if any"""
+        new_clist = [(ax, self._reflect_axis_arr(nc) if ax in self.reflect_axes else nc)
+                     for ax, nc in zip(axes, crds_nc)]
+        return type(self)(new_clist, reflect_axes=self.reflect_axes,
+                          units=self.units)
 
     def _make_slice(self, selection, cc=False):
         """Turns a selection into finalized slices and coordinates
@@ -1219,17 +1239,8 @@ class UniformCrds(StructuredCrds):
     _nc_linspace_args = None
     _cc_linspace_args = None
 
-    xl_nc = None
-    xh_nc = None
-    L_nc = None
     shape_nc = None
-    min_dx_nc = None
-
-    xl_cc = None
-    xh_cc = None
     shape_cc = None
-    L_cc = None
-    min_dx_cc = None
 
     def __init__(self, init_clist, full_arrays=False, dtype='f8',
                  quiet_init=False, **kwargs):
@@ -1286,75 +1297,44 @@ class UniformCrds(StructuredCrds):
         self._nc_linspace_args = _nc_linspace_args
         self._cc_linspace_args = []
         for args in _nc_linspace_args:
-            half_dx = 0.5 * (args[1] - args[0]) / max(args[2], 1)
+            half_dx = 0.5 * (args[1] - args[0]) / max(args[2] - 1, 1)
             cc_args = [args[0] + half_dx, args[1] - half_dx,
                        max(args[2] - 1, 0)]
             self._cc_linspace_args.append(cc_args)
 
-        # node centered things
-        self.xl_nc = np.array([args[0] for args in self._nc_linspace_args],
-                              dtype=self.dtype)
-        self.xh_nc = np.array([args[1] for args in self._nc_linspace_args],
-                              dtype=self.dtype)
         self.shape_nc = np.array([args[2] for args in self._nc_linspace_args],
                                  dtype='int')
-        self.L_nc = self.xh_nc - self.xl_nc
-        self.min_dx_nc = self.L_nc / self.shape_nc
-        self.min_dx_nc = np.ma.masked_values(self.min_dx_nc, 0.0)
-
-        # cell centered things
-        self.xl_cc = np.array([args[0] for args in self._cc_linspace_args],
-                              dtype=self.dtype)
-        self.xh_cc = np.array([args[1] for args in self._cc_linspace_args],
-                              dtype=self.dtype)
         self.shape_cc = np.array([args[2] for args in self._cc_linspace_args],
                                  dtype='int')
-        self.L_cc = self.xh_cc - self.xl_cc
-        self.min_dx_cc = self.L_cc / np.clip(self.shape_cc, 1, None)
 
         init_clist = [(axis, None) for axis, _ in init_clist]
         super(UniformCrds, self).__init__(init_clist, dtype=self.dtype,
                                           **kwargs)
 
-    def _pull_out_axes(self, arrs, axes, center='none'):
+    def _linspace_args(self, axes, center):
+        """list of [low, high, n] for some axes"""
         center = center.lower()
+        if center == 'none':
+            center = 'node'
         if axes is None:
-            axind_list = list(range(len(self._axes)))
-        else:
-            axind_list = []  # self._axes.index(ax.lower()) for ax in axes]
-            for ax in axes:
-                try:
-                    axind_list.append(self._axes.index(ax.lower()))
-                except AttributeError:
-                    axind_list.append(ax)
-                # except ValueError:
-                #     raise
-
-        if center == 'none' or center == 'node':
-            return arrs[0][axind_list]
-        elif center == 'cell':
-            return arrs[1][axind_list]
-        else:
-            raise ValueError()
+            axes = self._axes
+        axes = [self._axes[ax] if isinstance(ax, (int, np.integer)) else ax
+                for ax in axes]
+        return [args for _, args in self.get_clist(axes, center=center)]
 
     def get_min_dx(self, axes=None, center='node'):
         """Get a minimum cell width for each axis"""
-        ret = self._pull_out_axes([self.min_dx_nc, self.min_dx_cc], axes,
-                                  center=center)
+        n = np.array([args[2] for args in self._linspace_args(axes, center)])
+        ret = self.get_L(axes, center=center) / np.clip(n - 1, 1, None)
         return np.ma.masked_values(ret, 0.0)
 
     def get_xl(self, axes=None, center='node'):
-        return self._pull_out_axes([self.xl_nc, self.xl_cc], axes,
-                                   center=center)
+        return np.array([args[0] for args in self._linspace_args(axes, center)],
+                        dtype=self.dtype)
 
     def get_xh(self, axes=None, center='node'):
-        return self._pull_out_axes([self.xh_nc, self.xh_cc], axes,
-                                   center=center)
-
-    def get_L(self, axes=None, center='node'):
-        """Get lengths"""
-        return self._pull_out_axes([self.L_nc, self.L_cc], axes,
-                                   center=center)
+        return np.array([args[1] for args in self._linspace_args(axes, center)],
+                        dtype=self.dtype)
 
     @property
     def nr_points(self):
@@ -1377,16 +1357,28 @@ class UniformCrds(StructuredCrds):
         Returns:
             New coordinates instance with same type as self
         """
-        axes = self.axes
-        xl, xh = self.get_xl(), self.get_xh()
-        dx = (xh - xl) / self.shape_nc
-        # FIXME: I don't think this will extend datetime64/timedelta64 axes
-        dx = np.choose(np.abs(dx) > 0, [default_width, dx])
-        xl -= 0.5 * dx
-        xh += 0.5 * dx
-        nx = self.shape_nc + 1
-        new_clist = [(ax, [xl[i], xh[i], nx[i]]) for i, ax in enumerate(axes)]
-        return type(self)(new_clist)
+        new_clist = []
+        for ax, (xl, xh, nx) in zip(self.axes, self._nc_linspace_args):
+            # FIXME: I don't think this will extend datetime64/timedelta64 axes
+            dx = (xh - xl) / max(nx - 1, 1)
+            if not np.abs(dx) > 0:
+                dx = default_width
+            new_clist.append((ax, [xl - 0.5 * dx, xh + 0.5 * dx, nx + 1]))
+        return type(self)(new_clist, reflect_axes=self.reflect_axes,
+                          units=self.units)
+
+    def cc2nc(self):
+        """Make cell centers the nodes
+
+        Used for turning cell centered fields to node centered without
+        changing the data, just the coordinates.
+
+        Returns:
+            New coordinates instance with same type as self
+        """
+        new_clist = list(zip(self.axes, self._cc_linspace_args))
+        return type(self)(new_clist, reflect_axes=self.reflect_axes,
+                          units=self.units)
 
     def _newax_cval(self, xl, xh, cc):
         if cc:
diff --git a/viscid/field.py b/viscid/field.py
index b9bb305..e5c257f 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1679,10 +1679,7 @@ class Field(tree.Leaf):
 
         elif self.iscentered('cell'):
             # construct new crds
-            # axes = self._src_crds.axes
-            # crds_cc = self.get_crds_cc()
-            new_clist = self._src_crds.get_clist(center="cell")
-            new_crds = type(self._src_crds)(new_clist)
+            new_crds = self._src_crds.cc2nc()
 
             # this is similar to a shell copy, but it's intimately
             # linked to self as a parent
-- 
2.43.0


From 67c6d6cdff6c53886cd489fe62fcd144d8857180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 009/177] fix: cell boundaries next to a single cell center,
 and reducing axes after a new axis

---
 viscid/coordinate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 4a26eb5..4449341 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -129,7 +129,7 @@ def extend_arr(x, n=1, cell_fraction=1.0, full_arr=True, default_width=1e-5,
         width_arr = x
 
     if full_arr:
-        if len(x) > 1:
+        if len(width_arr) > 1:
             dxl = cell_fraction * (width_arr[1] - width_arr[0])
             dxh = cell_fraction * (width_arr[-1] - width_arr[-2])
         else:
@@ -825,7 +825,8 @@ class StructuredCrds(Coordinates):
 
     def make_slice_reduce(self, selection, cc=False):
         """make slice, and reduce dims that were not explicitly sliced"""
-        slices, crdlst, reduced, crds_type = self.make_slice(selection, cc=cc)
+        slices, crdlst, reduced, crds_type, full_ax_names = \
+            self._make_slice(selection, cc=cc)
         # augment slices / reduced
 
         reduced_axes = [t[0] for t in reduced]
@@ -834,11 +835,11 @@ class StructuredCrds(Coordinates):
             reduce_axis = False
             if axis not in reduced_axes:
                 if cc and self.shape_cc[i] == 1:
-                    slices[i] = 0
+                    slices[full_ax_names.index(axis)] = 0
                     reduced.insert(i, [axis, self.get_cc(axis)[0]])
                     reduce_axis = True
                 elif not cc and self.shape_nc[i] == 1:
-                    slices[i] = 0
+                    slices[full_ax_names.index(axis)] = 0
                     reduced.insert(i, [axis, self.get_nc(axis)[0]])
                     reduce_axis = True
                 # go find which element of crdlst to take out since there
-- 
2.43.0


From 89da29ea271c25dde616a78e3280fb0fc55f8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 010/177] fix: atleast_3d / adjust_crds of unloaded or
 interlaced fields, dat2field centering

---
 viscid/field.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index e5c257f..d43eb94 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -100,7 +100,7 @@ def arrays2field(crd_arrs, dat_arr, name="NoName", center=None,
 
 def dat2field(dat_arr, name="NoName", fldtype="scalar", center=None,
               layout=LAYOUT_FLAT):
-    """Makes np.arange coordnate arrays and calls arrays2field
+    """Makes a field with np.arange coordnate arrays
 
     Args:
         dat_arr (ndarray): data
@@ -124,7 +124,11 @@ def dat2field(dat_arr, name="NoName", fldtype="scalar", center=None,
         raise ValueError("Unknown type: {0}".format(fldtype))
 
     crd_arrs = [np.arange(s).astype(dat_arr.dtype) for s in sshape]
-    return arrays2field(crd_arrs, dat_arr, name=name, center=center)
+    # the type and centering are known, there's no need to guess
+    crds = coordinate.arrays2crds(crd_arrs)
+    fld = wrap_field(dat_arr, crds, name=name, fldtype=fldtype, center="node",
+                     layout=layout)
+    return fld.as_centered(center)
 
 def full(crds, fill_value, dtype="f8", name="NoName", center="cell",
          layout=LAYOUT_FLAT, nr_comps=0, crd_type=None, crd_names="xyzuvw",
@@ -1736,14 +1740,19 @@ class Field(tree.Leaf):
             newcrds = self.crds.atleast_3d(xl, xh, cc=_cc)
             ctx = {'crds': newcrds}
 
-            if self.is_loaded:
+            # if something will happen to the source data on its way to
+            # becoming self.data, then newcrds only describe the latter
+            if (self.is_loaded or self.nr_comps or self._src_crds.reflect_axes or
+                self.meta.get("zyx_native", False) or
+                self.post_reshape_transform_func is not None):
                 if _cc:
                     new_shape = newcrds.shape_cc
                 else:
                     new_shape = newcrds.shape_nc
                 if self.nr_comps:
                     new_shape = list(new_shape)
-                    new_shape.insert(self.nr_comp, self.nr_comps)
+                    # interlaced fields keep the components last
+                    new_shape.insert(0 if self.nr_comp == 0 else 3, self.nr_comps)
 
                 return self.wrap(self.data.reshape(new_shape), context=ctx)
             else:
@@ -1796,7 +1805,7 @@ class Field(tree.Leaf):
             for ax in self.crds.axes:
                 adjustments[ax] = adj
 
-        axes = self.crds.axes
+        axes = list(self.crds.axes)
         crd_arrs_nc = self.get_crds_nc()
         # crd_arrs_cc = self.get_crds_cc()
 
@@ -1810,15 +1819,22 @@ class Field(tree.Leaf):
                     crd_arrs_nc[i] = adj * arr_nc
                     # crd_arrs_cc[i] = adj * arr_cc
 
+        # the data still needs to be reflected when it's loaded
+        reflect_axes = []
+        for i, ax in enumerate(axes):
+            if ax in self._src_crds.reflect_axes:
+                crd_arrs_nc[i] = self._src_crds._reflect_axis_arr(crd_arrs_nc[i])
+                reflect_axes.append(i)
+
         if name_map:
-            for _a, _b in name_map.items():
-                if _a in axes:
-                    axes[axes.index(_a)] = _b
+            axes = [name_map.get(_a, _a) for _a in axes]
+        reflect_axes = [axes[i] for i in reflect_axes]
 
         crd_type = self.crds._TYPE
         crd_type = crd_type.replace('nonuniform', 'AUTO')
         crd_type = crd_type.replace('uniform', 'AUTO')
-        new_crds = viscid.arrays2crds(crd_arrs_nc, crd_type=crd_type, crd_names=axes)
+        new_crds = viscid.arrays2crds(crd_arrs_nc, crd_type=crd_type, crd_names=axes,
+                                      reflect_axes=reflect_axes)
         ret = self.shell_copy(crds=new_crds)
 
         return ret
-- 
2.43.0


From 4e5fa8cc1fffaafa7ff5d12c6fa2ed7146fda4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 011/177] fix: reductions, cumsum, argsort and negative axes of
 fields; scalar (op) interlaced vector

---
 viscid/field.py | 65 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index d43eb94..8f2c24e 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1894,24 +1894,30 @@ class Field(tree.Leaf):
         # should it always return the same type as self?
 
         # hack for reduction operations (ops that have npkwargs['axis'])
-        defer_wrapping = self.defer_wrapping
         if npkwargs:
             axis = npkwargs.get('axis', None)
             if axis is not None:
-                if self.nr_comps > 0 and axis == self.nr_comp:
-                    # reducing vector -> scalar, no need to play with crds
-                    pass
-                else:
-                    reduce_axis = crds.axes[axis]
-                    crd_slc = "{0}=0".format(reduce_axis)
-                    default_keepdims = len(self.shape) == len(crds.shape)
+                # find which crds are reduced, there's no need to play with
+                # crds if the vector components are reduced
+                reduced = axis if isinstance(axis, (list, tuple)) else [axis]
+                reduced = [a + self.nr_dims if a < 0 else a for a in reduced]
+                if self.nr_comps > 0:
+                    reduced = [a - 1 if a > self.nr_comp else a
+                               for a in reduced if a != self.nr_comp]
+                keepdims = npkwargs.get("keepdims",
+                                        len(self.shape) == len(crds.shape))
+                if reduced:
+                    if len(reduced) == len(crds.axes) and not keepdims:
+                        # no crds left
+                        return arr
+                    crd_slc = ",".join("{0}=0".format(crds.axes[a])
+                                       for a in sorted(reduced))
                     iscc = self.iscentered('cell')
 
-                    if npkwargs.get("keepdims", default_keepdims):
+                    if keepdims:
                         crds = self.crds.slice_keep(crd_slc, cc=iscc)
                     else:
-                        crds = self.crds.slice_reduce(crd_slc, cc=iscc)
-                    defer_wrapping = True
+                        crds = self.crds.slice(crd_slc, cc=iscc)
 
         # little hack for broadcasting vectors and scalars together
         crd_shape = crds.shape_nc if center == "node" else crds.shape_cc
@@ -2073,7 +2079,7 @@ class Field(tree.Leaf):
         return self.data.argpartition(**kwargs)
     def argsort(self, axis=-1, kind='quicksort', order=None, **kwargs):
         kwargs.update(axis=axis, kind=kind, order=order)
-        return self.wrap(self.data.argsort(**kwargs), npkwargs=kwargs)
+        return self.wrap(self.data.argsort(**kwargs))
     def clip(self, min=None, max=None, out=None, **kwargs):
         kwargs.update(min=min, max=max, out=out)
         return self.wrap(self.data.clip(**kwargs), npkwargs=kwargs)
@@ -2081,12 +2087,16 @@ class Field(tree.Leaf):
         return self.wrap(self.data.conj(**kwargs), npkwargs=kwargs)
     def conjugate(self, **kwargs):
         return self.wrap(self.data.conjugate(**kwargs), npkwargs=kwargs)
-    def cumprod(self, axis=None, dtype=None, order=None, **kwargs):
-        kwargs.update(axis=axis, dtype=dtype, order=order)
-        return self.wrap(self.data.cumprod(**kwargs), npkwargs=kwargs)
-    def cumsum(self, axis=None, dtype=None, order=None, **kwargs):
-        kwargs.update(axis=axis, dtype=dtype, order=order)
-        return self.wrap(self.data.cumsum(**kwargs), npkwargs=kwargs)
+    def cumprod(self, axis=None, dtype=None, **kwargs):
+        kwargs.update(axis=axis, dtype=dtype)
+        arr = self.data.cumprod(**kwargs)
+        # without an axis, the result is flattened, so it's not on a grid
+        return arr if axis is None else self.wrap(arr)
+    def cumsum(self, axis=None, dtype=None, **kwargs):
+        kwargs.update(axis=axis, dtype=dtype)
+        arr = self.data.cumsum(**kwargs)
+        # without an axis, the result is flattened, so it's not on a grid
+        return arr if axis is None else self.wrap(arr)
     def max(self, **kwargs):
         return self.wrap(self.data.max(**kwargs), npkwargs=kwargs)
     def mean(self, **kwargs):
@@ -2097,7 +2107,7 @@ class Field(tree.Leaf):
         return self.data.nonzero(**kwargs)
     def partition(self, kth, axis=-1, **kwargs):
         kwargs.update(kth=kth, axis=axis)
-        return self.wrap(self.data.partition(**kwargs), npkwargs=kwargs)
+        return self.data.partition(**kwargs)
     def prod(self, **kwargs):
         return self.wrap(self.data.prod(**kwargs), npkwargs=kwargs)
     def ptp(self, axis=None, out=None, **kwargs):
@@ -2127,6 +2137,8 @@ class Field(tree.Leaf):
         if axis in self.crds.axes:
             axis = self.crds.axes.index(axis)
         assert isinstance(axis, (int, np.integer))
+        if axis < 0:
+            axis += self.nr_sdims
         crd_arr = self.get_crd(axis, shaped=True)
 
         try:
@@ -2174,6 +2186,8 @@ class Field(tree.Leaf):
             if axis in self.crds.axes:
                 axis = self.crds.axes.index(axis)
             assert isinstance(axis, (int, np.integer))
+            if axis < 0:
+                axis += self.nr_sdims
             crd_arr = self.get_crd(axis, shaped=True)
 
             try:
@@ -2217,13 +2231,18 @@ class Field(tree.Leaf):
     def transpose(self, *axes):
         """ same behavior as numpy transpose, alse accessable
         using np.transpose(fld) """
-        if len(axes) == 1 and axes[0]:
+        if len(axes) == 1 and isinstance(axes[0], (list, tuple, np.ndarray)):
             axes = axes[0]
         if axes == (None, ) or len(axes) == 0:
             axes = list(range(self.nr_dims - 1, -1, -1))
         if len(axes) != self.nr_dims:
             raise ValueError("transpose can not change number of axes")
+        axes = [i + self.nr_dims if i < 0 else i for i in axes]
         clist = self._src_crds.get_clist()
+        for item in clist:
+            # cell centers that aren't half way between the nodes
+            if item[0] in self._src_crds._src_crds_cc:
+                item.append(self.get_crd_cc(item[0]))
         caxes = list(axes)
         if self.nr_comps:
             caxes.remove(self.nr_comp)
@@ -2312,6 +2331,12 @@ class ScalarField(Field):
     def nr_comps(self):
         return 0
 
+    def _ow(self, other):
+        # interlaced vectors have to be flat to broadcast with a scalar field
+        if isinstance(other, VectorField) and other.layout == LAYOUT_INTERLACED:
+            return np.moveaxis(other.__array__(), -1, 0)
+        return super(ScalarField, self)._ow(other)
+
     # no downsample / transpose / swap axes for vectors yet since that would
     # have the added layer of checking the layout
     def downsample(self):
-- 
2.43.0


From 699c1faf2000322c40415a902f442ed5faab7ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 012/177] fix: interpolation of integer fields,
 interpolated_slice of 1D/2D and vector fields, empty selections

---
 viscid/coordinate.py      |  4 +++-
 viscid/cython/cyamr.pyx   |  2 +-
 viscid/cython/cyfield.pyx |  2 +-
 viscid/field.py           | 15 ++++++++++++---
 viscid/sliceutil.py       |  7 ++++---
 5 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 4449341..fe16bc9 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -941,7 +941,7 @@ class StructuredCrds(Coordinates):
         full_sel_list, full_ax_names, full_newdim_flags = full_sel_info
         std_sel_list = sliceutil.standardize_sel_list(full_sel_list)
 
-        limits = sliceutil.sel_list2values(None, full_sel_list, len(crdlst))
+        limits = sliceutil.sel_list2values(None, full_sel_list)
 
         # for slices that were specified using a float, set that crd
         # to the desired float instead of the nearest crd as does slice_keep
@@ -950,6 +950,8 @@ class StructuredCrds(Coordinates):
             _slc_lims = limits[i]
             if _slc_lims[0] == _slc_lims[1]:
                 val = _slc_lims[0]
+                # these may be views of the crds of self
+                crdlst[i][1:] = [np.array(c) for c in crdlst[i][1:]]
                 crdlst[i][1][0] = val
                 if len(crdlst[i][1]) > 1:
                     # i'm not sure what this is for...
diff --git a/viscid/cython/cyamr.pyx b/viscid/cython/cyamr.pyx
index 4de6038..2649929 100644
--- a/viscid/cython/cyamr.pyx
+++ b/viscid/cython/cyamr.pyx
@@ -117,7 +117,7 @@ cdef make_cyamrfield(vfield):
         amrfld = _init_cyamrfield(AMRField_I4_Crd_F8(), vfield, 'f8')
     elif fld_dtype == np.dtype('i8'):
         amrfld = _init_cyamrfield(AMRField_I8_Crd_F8(), vfield, 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         amrfld = _init_cyamrfield(AMRField_F4_Crd_F4(), vfield, 'f4')
     elif fld_dtype == np.dtype('f8'):
         amrfld = _init_cyamrfield(AMRField_F8_Crd_F8(), vfield, 'f8')
diff --git a/viscid/cython/cyfield.pyx b/viscid/cython/cyfield.pyx
index e8ca83a..822635b 100644
--- a/viscid/cython/cyfield.pyx
+++ b/viscid/cython/cyfield.pyx
@@ -121,7 +121,7 @@ cdef make_cyfield(vfield):
         fld = _init_cyfield(Field_I4_Crd_F8(), vfield, 'i4', 'f8')
     elif fld_dtype == np.dtype('i8'):
         fld = _init_cyfield(Field_I8_Crd_F8(), vfield, 'i8', 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         fld = _init_cyfield(Field_F4_Crd_F4(), vfield, 'f4', 'f4')
     elif fld_dtype == np.dtype('f8'):
         fld = _init_cyfield(Field_F8_Crd_F8(), vfield, 'f8', 'f8')
diff --git a/viscid/field.py b/viscid/field.py
index 8f2c24e..7c60482 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1389,9 +1389,18 @@ class Field(tree.Leaf):
     def interpolated_slice(self, selection):
         seeds = self.crds.slice_interp(selection, cc=self.iscentered('cell'))
         seed_pts = seeds.get_points(center=self.center)
-        fld_dat = interp_trilin(self, seed_pts, wrap=False)
-        new_fld = self.wrap(fld_dat, context=dict(crds=seeds))
-        new_fld = new_fld.slice_reduce("")
+        # points are always 3d
+        fld3d = self.atleast_3d()
+        pts3d = np.zeros((3, seed_pts.shape[1]), dtype=seed_pts.dtype)
+        for ax, x in zip(seeds.axes, seed_pts):
+            pts3d[fld3d.crds.ind(ax)] = x
+        fld_dat = interp_trilin(fld3d, pts3d, wrap=False)
+        shape = [len(x) for x in seeds.get_crds(center=self.center)]
+        if self.nr_comps:
+            shape.append(self.nr_comps)
+        new_fld = self.wrap(fld_dat.reshape(shape), context=dict(crds=seeds))
+        if isinstance(new_fld, Field):
+            new_fld = new_fld.slice_reduce("")
         return new_fld
 
     def set_slice(self, selection, value):
diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 3b349c0..c5b4cb8 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -48,11 +48,12 @@ def prune_comp_sel(sel_list, comp_names):
     for i, s in enumerate(sel_list):
         try:
             s = s.strip().lower()
-            if s in comp_names:
+            # comp_names can be a string, and '' is a part of every string
+            if s in list(comp_names):
                 if comp_idx is not None:
                     raise IndexError("Multiple vector component slices given, {0}"
                                      "".format(tuple(sel_list)))
-                comp_slc = comp_names.index(s)
+                comp_slc = list(comp_names).index(s)
                 comp_idx = i
         except (TypeError, AttributeError):
             pass
@@ -102,7 +103,7 @@ def raw_sel2sel_list(sel):
                              "arrays since coordinate arrays become "
                              "ambiguous otherwise.")
         sel = re.sub(_R_IN_BRACKS, lambda x: x.group(0).replace(",", "@"), sel)
-        sel_list = [s for s in sel.split(",")]
+        sel_list = [s for s in sel.split(",")] if sel.strip() else []
         # put the commas back into the arrays
         sel_list = [s.replace('@', ',') for s in sel_list]
         # input_type = 'string'
-- 
2.43.0


From b53fb6830bef946712de2962e1480cff66a30ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 013/177] fix: selecting one or two cells with an index array

---
 viscid/coordinate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index fe16bc9..009a83e 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -759,8 +759,13 @@ class StructuredCrds(Coordinates):
             elif isinstance(slc, np.ndarray):
                 if cc:
                     cval_cc = crd_arrs_cc[i][slc]
-                    cval_nc = (cval_cc[1:] + cval_cc[:-1]) / 2
-                    cval_nc = extend_arr(cval_nc)
+                    if len(cval_cc) > 1:
+                        cval_nc = (cval_cc[1:] + cval_cc[:-1]) / 2
+                        cval_nc = extend_arr(cval_nc, width_arr=cval_cc)
+                    else:
+                        # keep the nodes of that one cell
+                        i0 = slc[0] % len(crd_arrs_cc[i])
+                        cval_nc = crd_arrs_nc[i][i0:i0 + 2]
                     sliced_clist.append([axis, cval_nc, cval_cc])
                 else:
                     sliced_clist.append([axis, crd_arrs_nc[i][slc]])
-- 
2.43.0


From 8027cc53ec1ecfd86c14faf80cc9e80240ffe57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 014/177] fix: default step of streamlines in 2D fields came
 from the place holder axis

---
 viscid/cython/cyfield.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viscid/cython/cyfield.pyx b/viscid/cython/cyfield.pyx
index 822635b..b6f893a 100644
--- a/viscid/cython/cyfield.pyx
+++ b/viscid/cython/cyfield.pyx
@@ -66,7 +66,11 @@ cdef _init_cyfield(FusedField fld, vfield, fld_dtype, crd_dtype):
             # fld.xl[ic, i] = fld.crds[ic, i, 0]
             # fld.xh[ic, i] = fld.crds[ic, i, sshape[i] - 1]
 
-    fld.min_dx = np.min(vfield.crds.min_dx_nc)
+    # axes with a single value may be place holders (2D fields), so their
+    # width means nothing
+    min_dx = np.array(vfield.crds.min_dx_nc)
+    extended = np.array(vfield.sshape) > 1
+    fld.min_dx = np.min(min_dx[extended] if extended.any() else min_dx)
 
     for i in range(3):
         if sshape[i] == fld.nr_nodes[i]:
-- 
2.43.0


From 74e24a83828c0f5abc9d87c7f967bac841c4b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 015/177] fix: adaptive integrators could step below
 smallest_ds

---
 viscid/cython/integrate.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/cython/integrate.pyx b/viscid/cython/integrate.pyx
index c2ad7f0..4b7662b 100644
--- a/viscid/cython/integrate.pyx
+++ b/viscid/cython/integrate.pyx
@@ -276,6 +276,8 @@ cdef inline int _ts_ctrl(real_t *ds, real_t error_estimate, real_t max_error,
             ds[0] = 0.9 * deref(ds) * (err_ratio ** -0.2)
             if fabs(ds[0]) >= largest_ds:
                 ds[0] = ds_sign * largest_ds
+            elif fabs(ds[0]) <= smallest_ds:
+                ds[0] = ds_sign * smallest_ds
             repeat = 0
 
     # if isnan(ds[0]) or ds[0] == 0.0:
-- 
2.43.0


From af50df20183bc7db32c638e2674d50497d15b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 016/177] fix: max_t of streamlines, and streamlines after one
 that raised

---
 viscid/cython/streamline.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index e3fb67a..b16d782 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -265,9 +265,11 @@ def calc_streamlines(vfield, seed, nr_procs=1, force_subprocess=False,
                            "global memory space")
     _global_fld = fld
     grid_iter = izip(chunk_sizes, repeat(seed), seed_slices)
-    r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
-                     threads=threads, force_subprocess=force_subprocess)
-    _global_fld = None
+    try:
+        r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
+                         threads=threads, force_subprocess=force_subprocess)
+    finally:
+        _global_fld = None
 
     # rearrange the output to be the exact same as if we just called
     # _py_streamline straight up (like for nr_procs == 1)
@@ -558,6 +560,8 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
                     s0[1] = s[1]
                     s0[2] = s[2]
 
+                    # integrate_func accumulates dt, here it's for one step
+                    dt = 0.0
                     ret = integrate_func(patch, s, &ds, dt_ptr,
                                          max_error, smallest_ds, largest_ds,
                                          vscale, cached_idx3)
-- 
2.43.0


From 525b1adb408931b78ae35dbd8442879d4a83033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 017/177] fix: calc_beta divided by |B| instead of B^2

---
 viscid/calculator/plasma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/plasma.py b/viscid/calculator/plasma.py
index d917ccd..25cabfb 100644
--- a/viscid/calculator/plasma.py
+++ b/viscid/calculator/plasma.py
@@ -130,10 +130,10 @@ def calc_beta(pp, B, scale=1.0):
     if _HAS_NUMEXPR:
         ldict = dict(scale=scale, bx=bx, by=by, bz=bz,
                      pp=pp, two=two)
-        result = ne.evaluate("scale * two * pp / sqrt(bx**2 + by**2 + bz**2)",
+        result = ne.evaluate("scale * two * pp / (bx**2 + by**2 + bz**2)",
                              local_dict=ldict)
     else:
-        result = scale * two * pp / np.sqrt(bx**2 + by**2 + bz**2)
+        result = scale * two * pp / (bx**2 + by**2 + bz**2)
     context = dict(name="beta", pretty_name=r"$\beta_{pl}$")
     return pp.wrap(result, context=context)
 
-- 
2.43.0


From 2226b194d70a8ca0d9aebd7f400d57884b846c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 018/177] fix: gradients and convective derivatives of node
 centered fields, and derivatives at a point

---
 viscid/calculator/calc.py   | 36 ++++++++++++++++--------------------
 viscid/calculator/necalc.py |  3 ++-
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 879708f..a2ebfed 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -16,12 +16,6 @@ from viscid import verror
 from viscid import seed
 from viscid.compat import izip, OrderedDict
 
-try:
-    from viscid.calculator import cycalc
-    has_cython = True
-except ImportError:
-    has_cython = False
-
 try:
     from viscid.calculator import necalc
     has_numexpr = True
@@ -226,7 +220,8 @@ def _grad_np(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3,
+                     center=fld.center)
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
@@ -343,7 +338,7 @@ def convective_deriv(a, b=None, bnd=True):
             g = grad(b[jcmp], bnd=False)
             for i, icmp in enumerate('xyz'):
                 diBj[i][j] = g[icmp]
-        dest = viscid.zeros(a.crds, nr_comps=3)
+        dest = viscid.zeros(a.crds, nr_comps=3, center=a.center)
         for i, icmp in enumerate('xyz'):
             for j, jcmp in enumerate('xyz'):
                 dest[jcmp][...] += a[icmp] * diBj[i][j]
@@ -523,24 +518,23 @@ def local_vector_points(B, x, y, z, dx=None, dy=None, dz=None):
           points of the bs, but this time, 0-3 -> x,y,z
         * dcrd (list): [dx, dy, dz]
     """
-    assert has_cython  # if a problem, you need to build Viscid
     assert B.iscentered("Cell")
 
-    x, y, z = [np.array(c).reshape(1, 1) for c in [x, y, z]]
+    x, y, z = [np.array(c, dtype='f8').reshape(1, 1) for c in [x, y, z]]
     crds = B.get_crds("xyz")
     inds = [0] * len(crds)
     dcrd = [0] * len(crds)
     # This makes points in xyz order
     pts = np.tile([x, y, z], 6).reshape(3, -1).T
     for i, crd, loc, d in zip(count(), crds, [x, y, z], [dx, dy, dz]):
-        inds[i] = cycalc.closest_ind(crd, loc)
+        inds[i] = min(np.argmin(np.abs(crd - loc)), len(crd) - 2)
         if d is None:
             dcrd[i] = crd[inds[i] + 1] - crd[inds[i]]
         else:
             dcrd[i] = d
         pts[2 * i + 1, i] += dcrd[i]
         pts[2 * i + 0, i] -= dcrd[i]
-    bs = cycalc.interp_trilin(B, seed.Point(pts))
+    bs = viscid.interp_trilin(B, seed.Point(pts.T), wrap=False)
     # viscid.interact(banner="in local_vector_points")
     return bs, pts, dcrd
 
@@ -628,14 +622,14 @@ def curl_at_point(A, x, y, z, dx=None, dy=None, dz=None):
     As, _, dcrd = local_vector_points(A, x, y, z, dx, dy, dz)
     c = np.zeros(3, dtype=A.dtype)
 
-    # this is confusing: In As, first index is xyz, 2nd index is xyz
-    #             xi+dxi  comp      xi-dxi   comp /   (2 * dxi)
-    c[0] = ((As[2 * 1 + 1, 2] - As[2 * 1 + 0, 2]) / (2.0 * dcrd[1]) -
-            (As[2 * 0 + 1, 1] - As[2 * 0 + 0, 1]) / (2.0 * dcrd[2]))
-    c[1] = ((As[2 * 0 + 1, 0] - As[2 * 0 + 0, 0]) / (2.0 * dcrd[2]) -
-            (As[2 * 2 + 1, 2] - As[2 * 2 + 0, 2]) / (2.0 * dcrd[0]))
-    c[2] = ((As[2 * 2 + 1, 1] - As[2 * 2 + 0, 1]) / (2.0 * dcrd[0]) -
-            (As[2 * 1 + 1, 0] - As[2 * 1 + 0, 0]) / (2.0 * dcrd[1]))
+    # As[2 * i + 1] and As[2 * i] are on either side in the i direction, and
+    # the 2nd index is the component
+    def d(i, comp):
+        return (As[2 * i + 1, comp] - As[2 * i + 0, comp]) / (2.0 * dcrd[i])
+
+    c[0] = d(1, 2) - d(2, 1)
+    c[1] = d(2, 0) - d(0, 2)
+    c[2] = d(0, 1) - d(1, 0)
     return c
 
 def extend_boundaries_ndarr(arr, nl=1, nh=1, axes='all', nr_comp=None,
@@ -660,6 +654,8 @@ def extend_boundaries_ndarr(arr, nl=1, nh=1, axes='all', nr_comp=None,
     Returns:
         ndarray: A new extended / padded ndarray
     """
+    if isinstance(axes, viscid.string_types) and axes == 'all':
+        axes = list(range(len(arr.shape) - (0 if nr_comp is None else 1)))
     if nr_comp is not None:
         axes = [ax if ax < nr_comp else ax + 1 for ax in axes]
 
diff --git a/viscid/calculator/necalc.py b/viscid/calculator/necalc.py
index 8ce136b..cfa25d9 100644
--- a/viscid/calculator/necalc.py
+++ b/viscid/calculator/necalc.py
@@ -154,7 +154,8 @@ def grad(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3,
+                     center=fld.center)
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
-- 
2.43.0


From 1c66fad97617bb9f09f40505e345106ce48f8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 019/177] fix: calc_psi of 3D fields with an invariant axis,
 native magnitude

---
 viscid/calculator/calc.py   | 3 ++-
 viscid/calculator/plasma.py | 6 ++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index a2ebfed..94732dc 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -355,7 +355,8 @@ def _magnitude_native(fld):
             for k in range(mag.shape[2]):
                 mag[i, j, k] = np.sqrt(vx[i, j, k]**2 + vy[i, j, k]**2 +
                                        vz[i, j, k]**2)
-    return vx.wrap(mag, context={"name": "{0} magnitude".format(fld.name)})
+    return fld.wrap(mag, context={"name": "{0} magnitude".format(fld.name)},
+                    fldtype="Scalar")
 
 magnitude.add_implementation("native", _magnitude_native)
 
diff --git a/viscid/calculator/plasma.py b/viscid/calculator/plasma.py
index 25cabfb..1d12e84 100644
--- a/viscid/calculator/plasma.py
+++ b/viscid/calculator/plasma.py
@@ -50,8 +50,7 @@ def calc_psi(B, rev=False):
             if nxi <= 2:
                 slcs[i] = 0
                 reduced_axes.append(B.crds.axes[i])
-        slcs.insert(B.nr_comp, slice(None))
-        B = B[slcs]
+        B = B[tuple(slcs)]
 
     # ok, so the above didn't work... just nip out the smallest dim?
     if B.nr_sdims == 3:
@@ -62,8 +61,7 @@ def calc_psi(B, rev=False):
         logger.warning("Tried to get the flux function of a 3D field. "
                        "I can't do that, so I'm\njust ignoring the {0} "
                        "dimension".format(reduced_axes[-1]))
-        slcs.insert(B.nr_comp, slice(None))
-        B = B[slcs]
+        B = B[tuple(slcs)]
 
     if B.nr_sdims != 2:
         raise ValueError("flux function only implemented for 2D fields")
-- 
2.43.0


From 3b9ee6a94a3f78af78c08c3d723a4188f4d5699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 020/177] fix: fc2cc / ec2cc / div_fc always raised, also with
 planar fields

---
 viscid/calculator/ecfc.py | 44 ++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/viscid/calculator/ecfc.py b/viscid/calculator/ecfc.py
index b199212..081e633 100644
--- a/viscid/calculator/ecfc.py
+++ b/viscid/calculator/ecfc.py
@@ -98,19 +98,19 @@ def make_ecfc_field_leading(fc, trim_leading=True):
         staggering = fc.find_info(STAGGER_KEY, [STAGGER_LEADING] * 3)
         flipping = fc.find_info(FLIP_KEY, [False] * 3)
 
-        for i, n in enumerate(fc.sshape):
-            if staggering[i] == STAGGER_TRAILING:
+        for j, n in enumerate(fc.sshape):
+            if staggering[j] == STAGGER_TRAILING:
                 _sd0, _sd = _sd0T, _sdT
             else:
                 _sd0, _sd = _sd0L, _sdL
 
             if n == 1:
-                sc[i] = slice(None, None)
-                for j in range(3):
+                sc[j] = slice(None, None)
+                for i in range(3):
                     sd[i][j] = slice(None, None)
             elif n > 1:
-                sc[i] = slice(1, None)
-                for j in range(3):
+                sc[j] = slice(1, None)
+                for i in range(3):
                     cnd = i == j if center == 'face' else i != j
                     S = SB if flipping[j] and cnd else SA
                     if cnd:
@@ -121,9 +121,7 @@ def make_ecfc_field_leading(fc, trim_leading=True):
                 raise RuntimeError("I shouldn't be here")
 
         fc.resolve()  # if translating -> gse, do it once, not 4 times
-        s0vec = list(sc)
-        s0vec.insert(fc.nr_comp, slice(None))
-        prepared_fc = viscid.zeros_like(fc[s0vec])
+        prepared_fc = viscid.zeros_like(fc[tuple(sc)])
 
         prepared_fc['x'] = fc['x', sd[0][0], sd[0][1], sd[0][2]]
         prepared_fc['y'] = fc['y', sd[1][0], sd[1][1], sd[1][2]]
@@ -141,9 +139,7 @@ def fc2cc(fc, force_numpy=False, bnd=True):
     fc = make_ecfc_field_leading(fc)
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(None))
-    cc = viscid.zeros_like(fc[s0vec])
+    cc = viscid.zeros_like(fc[tuple(s0)])
     cc.center = "Cell"
 
     fcx0, fcx1 = (fc['x', sm[0], s0[1], s0[2]].data,
@@ -181,9 +177,7 @@ def ec2cc(ec, force_numpy=False, bnd=True):
     ec = make_ecfc_field_leading(ec)
     s0, sm, sp = _prep_slices(ec)
 
-    s0vec = list(s0)
-    s0vec.insert(ec.nr_comp, slice(None))
-    cc = viscid.zeros_like(ec[s0vec])
+    cc = viscid.zeros_like(ec[tuple(s0)])
     cc.center = "Cell"
 
     ecx0, ecx1, ecx2, ecx3 = (ec['x', s0[0], sm[1], sm[2]].data,
@@ -230,9 +224,7 @@ def div_fc(fc, force_numpy=False, bnd=True):
     #        just faking it with a 0 order hold before returning
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(0, 1))
-    div_cc = viscid.zeros_like(fc[s0vec], center="cell")
+    div_cc = viscid.zeros_like(fc['x', s0[0], s0[1], s0[2]], center="cell")
 
     x, y, z = fc.get_crds_nc('xyz', shaped=True)
     if True:
@@ -246,6 +238,10 @@ def div_fc(fc, force_numpy=False, bnd=True):
     ym, yp = y[:, sm[1], :], y[:, sp[1], :]
     zm, zp = z[:, :, sm[2]], z[:, :, sp[2]]
 
+    # axes with a single cell don't contribute
+    dx, dy, dz = [p - m if n > 1 else np.ones_like(p)
+                  for p, m, n in zip((xp, yp, zp), (xm, ym, zm), fc.sshape)]
+
     fcx0, fcx1 = (fc['x', sm[0], s0[1], s0[2]].data,
                   fc['x', sp[0], s0[1], s0[2]].data)
     fcy0, fcy1 = (fc['y', s0[0], sm[1], s0[2]].data,
@@ -256,13 +252,13 @@ def div_fc(fc, force_numpy=False, bnd=True):
     # xp, yp, zp = xm + 1.0, ym + 1.0, zm + 1.0
 
     if _HAS_NUMEXPR and not force_numpy:
-        div_cc[:, :, :] = ne.evaluate("((fcx1 - fcx0) / (xp - xm)) + "
-                                      "((fcy1 - fcy0) / (yp - ym)) + "
-                                      "((fcz1 - fcz0) / (zp - zm))")
+        div_cc[:, :, :] = ne.evaluate("((fcx1 - fcx0) / dx) + "
+                                      "((fcy1 - fcy0) / dy) + "
+                                      "((fcz1 - fcz0) / dz)")
     else:
-        div_cc[:, :, :] = (((fcx1 - fcx0) / (xp - xm)) +
-                           ((fcy1 - fcy0) / (yp - ym)) +
-                           ((fcz1 - fcz0) / (zp - zm)))
+        div_cc[:, :, :] = (((fcx1 - fcx0) / dx) +
+                           ((fcy1 - fcy0) / dy) +
+                           ((fcz1 - fcz0) / dz))
 
     if bnd:
         # FIXME: this is really just faking the bnd so there aren't shape
-- 
2.43.0


From 30f01b434b0d74c7519cc85285f4128897376c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 021/177] fix: quaternions given as integers or floats, slow
 rot2wxyz, roll of antiparallel new_x, nan angle between parallel vectors

---
 viscid/rotation.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 44f2497..66564a6 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -776,7 +776,9 @@ def quat2rot(q):
         q = q.reshape(-1)
     else:
         single_val = q.shape == (4,)
-    q = q.view(dtype=np.double).reshape(-1, 4)
+        q = q.astype(np.double)
+    # copy since the normalization happens in-place
+    q = np.array(q.view(dtype=np.double).reshape(-1, 4))
 
     q_norm = np.linalg.norm(q, axis=-1)
     do_renorm = ~np.bitwise_or(np.isclose(q_norm, 0.0), np.isclose(q_norm, 1.0))
@@ -1070,7 +1072,10 @@ def rot2wxyz(R, unit='rad', quick=True, bad_matrix='warn'):
     if any(null_mask):
         # calculate eigen vectors for transforms where the quick
         # method failed (or was never calculated)
-        eigval, eigvecs = np.linalg.eigh(R[null_mask])
+        # note: eigh is for symmetric matrices; the symmetric part of R has
+        #       the same axis, with eigenvalues (1, cos(angle), cos(angle))
+        Rsym = 0.5 * (R[null_mask] + np.swapaxes(R[null_mask], -2, -1))
+        eigval, eigvecs = np.linalg.eigh(Rsym)
         idx_evec = np.argmin(np.abs(eigval - 1.0), axis=1)
         # eigenvector for eigenval closest to 1.0
         u[null_mask, :] = eigvecs[np.arange(len(eigvecs)), :, idx_evec].real
@@ -1155,7 +1160,7 @@ def wxyz2quat(angle, vector, unit='rad'):
 
     half_theta_rad = convert_angle(angle, unit, 'rad') / 2
 
-    q = np.zeros([len(half_theta_rad), 4], dtype=np.double)
+    q = np.zeros([max(len(half_theta_rad), len(vector)), 4], dtype=np.double)
 
     q[:, 0:1] = np.cos(half_theta_rad)
     q[:, 1:] = (np.sin(half_theta_rad)
@@ -1268,7 +1273,7 @@ def angle_between(a, b, unit='rad'):
     b_norm = np.linalg.norm(b, axis=-1)
 
     normdot = np.sum(a * b, axis=-1) / (a_norm * b_norm)
-    angle_rad = np.arccos(normdot)
+    angle_rad = np.arccos(np.clip(normdot, -1.0, 1.0))
 
     if single_val:
         angle_rad = angle_rad[0]
@@ -1328,14 +1333,14 @@ def a2b_rot(a, b, roll=0.0, unit='rad', new_x=None):
         roll[no_norm] = 0.0
         if any(~no_norm):
             current_x = np.einsum('mij,mj->mi', R, [[1, 0, 0]])
-            new_x /= new_x_norm
+            new_x[~no_norm] /= new_x_norm[~no_norm]
             current_x /= np.linalg.norm(current_x, axis=1)[:, np.newaxis]
-            s_roll = np.linalg.norm(np.cross(current_x, new_x, axis=1), axis=1)
+            # signed angle around b, note that the sign would be lost
+            # if current_x and new_x were antiparallel
+            s_roll = np.sum(np.cross(current_x, new_x, axis=1) * b, axis=1)
             c_roll = np.sum(current_x * new_x, axis=1)
-            roll[~no_norm] = np.arctan2(s_roll, c_roll)
+            roll[~no_norm] = np.arctan2(s_roll, c_roll)[~no_norm]
             roll[~no_norm] = convert_angle(roll[~no_norm], 'rad', unit)
-            roll[~no_norm] *= np.sign(np.sum(np.cross(current_x, new_x, axis=1)
-                                             * b, axis=1))
 
     if np.any(roll):
         roll_rad = convert_angle(roll, unit, 'rad')
-- 
2.43.0


From 46e88443d69ebf146b6ff5a6e6ae8be4ac449ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 022/177] fix: endpoints of SphericalCap, default
 SphericalPatch, MeshPoints local shape, points of Spline and Line in uv
 coordinates

---
 viscid/seed.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index bb837c8..04b4f31 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -374,7 +374,7 @@ class MeshPoints(SeedGen):
         return (self.nu, self.nv)
 
     def get_local_shape(self, **kwargs):
-        return self.get_local_shape()
+        return self.uv_shape
 
     def uv_to_local(self, pts_uv):
         return pts_uv
@@ -456,7 +456,7 @@ class Line(SeedGen):
         return (self.nr_points, )
 
     def uv_to_local(self, pts_uv):
-        return pts_uv[:, :1]
+        return pts_uv[:1, :]
 
     def to_3d(self, pts_local):
         ds = self.p1 - self.p0
@@ -523,16 +523,15 @@ class Spline(SeedGen):
         return (self.nr_points, )
 
     def uv_to_local(self, pts_uv):
-        return pts_uv[:, :1]
+        return pts_uv[:1, :]
 
     def to_3d(self, pts_local, **kwargs):
         import scipy.interpolate as interpolate
-        k = self.splprep_opts.pop("k", self.knots.shape[1] - 1)
-        tck, u = interpolate.splprep(self.knots, k=k, **self.splprep_opts)
-        u = np.linspace(0, 1, self.n + 1, endpoint=True)
-        coords = np.vstack(interpolate.splev(u, tck))
-        coords = coords[:, (pts_local * self.n).astype(int)].astype(self.dtype)
-        return coords
+        opts = dict(self.splprep_opts)
+        k = opts.pop("k", min(self.knots.shape[1] - 1, 5))
+        tck, _ = interpolate.splprep(self.knots, k=k, **opts)
+        coords = np.vstack(interpolate.splev(pts_local, tck))
+        return coords.astype(self.dtype)
 
     def to_local(self, pts_3d):
         raise NotImplementedError()
@@ -1217,7 +1216,9 @@ class SphericalCap(Sphere):
             angle (float): cone angle of the cap in degrees
             **kwargs: passed to :py:class:`Sphere` constructor
         """
-        super(SphericalCap, self).__init__(thetalim=(angle0, angle), **kwargs)
+        super(SphericalCap, self).__init__(thetalim=(angle0, angle),
+                                           theta_endpoint=theta_endpoint,
+                                           **kwargs)
 
     @property
     def angle0(self):
@@ -1280,7 +1281,7 @@ class SphericalPatch(SeedGen):
         max_beta = (np.pi / 180.0) * max_beta
 
         p0 = np.array(p0, copy=False, dtype=dtype).reshape(-1)
-        p1 = np.array(p1, copy=False, dtype=dtype).reshape(-1)
+        p1 = np.array(p1, dtype=dtype).reshape(-1)
 
         if not p1_is_vector:
             p1 = p1 - p0
@@ -1290,7 +1291,8 @@ class SphericalPatch(SeedGen):
         else:
             r = np.linalg.norm(p1)
 
-        if np.sin(max_alpha)**2 + np.sin(max_beta)**2 > 1:
+        # leave room for roundoff; alpha = beta = 45 deg is the largest square
+        if np.sin(max_alpha)**2 + np.sin(max_beta)**2 > 1 + 1e-12:
             raise ValueError("Invalid alpha/beta ranges, if you want "
                              "something with more angular coverage you'll "
                              "need a SphericalCap")
@@ -1320,7 +1322,8 @@ class SphericalPatch(SeedGen):
         arr = np.zeros((3, pts_local.shape[1]), dtype=self.dtype)
         arr[0, :] = self.r * np.sin(pts_local[0, :])
         arr[1, :] = self.r * np.sin(pts_local[1, :])
-        arr[2, :] = np.sqrt(self.r**2 - arr[0, :]**2 - arr[1, :]**2)
+        arr[2, :] = np.sqrt(np.maximum(self.r**2 - arr[0, :]**2 - arr[1, :]**2,
+                                       0.0))
         rot_pts = np.einsum("ij,jk->ik", self.get_rotation(), arr)
         return self.p0.reshape((3, 1)) + rot_pts
 
-- 
2.43.0


From a5af822b1c43a5460f4808ea931893300faa9b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:33 +0000
Subject: [PATCH 023/177] fix: recognize midnight of 1 Jan 1967 as the no-tilt
 time

---
 viscid/cotr.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 96c388e..3c14183 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -80,11 +80,13 @@ import numpy as np
 try:
     from viscid.npdatetime import (as_datetime64, as_datetime, as_timedelta,  # pylint: disable=import-error
                                    linspace_datetime64, datetime64_as_years,
-                                   format_datetime, is_datetime_like)
+                                   format_datetime, is_datetime_like,
+                                   time_diff)
 except ImportError:
     from npdatetime import (as_datetime64, as_datetime, as_timedelta,  # pylint: disable=import-error
                             linspace_datetime64, datetime64_as_years,
-                            format_datetime, is_datetime_like)
+                            format_datetime, is_datetime_like,
+                            time_diff)
 
 
 __all__ = ['as_nvec', 'make_rotation', 'make_translation', 'get_rotation_wxyz',
@@ -124,11 +126,16 @@ _IGRF = np.array([[1950.0, -30554.00, -2250.00, 5815.00],
                   [2015.0, -29442.00, -1501.00, 4797.10]], dtype='f8')
 
 
+def _is_notilt_time(time):
+    """True for times around 1 Jan 1967, OpenGGCM's no-tilt time"""
+    dt = time_diff(time, as_datetime64('1967-01-01T00:00:00'), unit='s')
+    return np.abs(dt / np.timedelta64(1, 'D')) < 0.0006 * 365.242
+
 def _igrf_interpolate(time, notilt1967=True):
     # get time as decimal year, note that epoch is completely arbitrary
     years = datetime64_as_years(time)
 
-    if notilt1967 and np.abs(years - 1967.0) < 0.0006:
+    if notilt1967 and _is_notilt_time(time):
         # OpenGGCM special no-tilt hack
         # g10, g11, h11 = np.linalg.norm(IGRF[0, 1:]), 0.0, 0.0
         g10, g11, h11 = -30554.00, 0.0, 0.0
@@ -442,8 +449,7 @@ class Cotr(object):
         self.h11 = h11
 
         self._disable_mag_crds = dip_tilt is not None or dip_gsm is not None
-        years = datetime64_as_years(time)
-        notilt = notilt1967 and np.abs(years - 1967.0) < 0.0006
+        notilt = notilt1967 and _is_notilt_time(time)
 
         # do i really want the self._disable_mag_crds part of this? what
         # if i want dip_gsm set by the time, and dip_tilt set by hand...
-- 
2.43.0


From 91a9313f00081677dfe9128680b8a9995b942bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:33 +0000
Subject: [PATCH 024/177] fix: decimal years of times next to the epoch

---
 viscid/npdatetime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index d2a6cbe..d91f552 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -762,7 +762,9 @@ def datetime64_as_years(time):
     time = as_datetime64(time)
     epoch_year = 1970
     epoch = as_datetime64("{0}-01-01T00:00:00.0".format(epoch_year))
-    tdelta = time_diff(time, epoch, most_precise=True)
+    # us is plenty for floating point years, and no finer unit that fits could
+    # be divided by a day without overflowing
+    tdelta = time_diff(time, epoch, unit='us')
     years = tdelta / np.timedelta64(1, 'D') / 365.242 + epoch_year
     return years
 
-- 
2.43.0


From 667a7ab0e57fe1bd97388cb4c4d16678e9276847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:33 +0000
Subject: [PATCH 025/177] fix: rotation angles of 180 degrees don't become nan

---
 viscid/cotr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 3c14183..8d2e467 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -290,10 +290,11 @@ def get_rotation_wxyz(mat, check_inverse=True, quick=True):
     # rotate `b1` and then find the angle between result (`b2`) at `b1`
     b2 = np.dot(mat, b1)
     b2 = b2 / np.linalg.norm(b2)  # minimize effect of roundoff error
-    angleB = np.rad2deg(np.arccos(np.dot(b1, b2)))
+    angleB = np.rad2deg(np.arctan2(np.linalg.norm(np.cross(b1, b2)),
+                                   np.dot(b1, b2)))
 
     # fix sign of `u` to make the rotation angle right handed, note that
-    # the angle will always be positive due to range or np.arccos
+    # the angle will always be positive
     if np.dot(np.cross(b1, b2), u) < 0.0:
         u *= -1
 
-- 
2.43.0


From 97598f8b885566f9ce38f05f15eea38e608ef5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:33 +0000
Subject: [PATCH 026/177] fix: heliocentric systems in the lookup

---
 viscid/cotr.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 8d2e467..d5566cd 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -360,7 +360,7 @@ class Cotr(object):
     # verify your favorite transformations and fix them or mark them as tested
     #
     GEOCENTRIC = ['gei', 'geo', 'gse', 'gsm', 'sm', 'mag', 'mhd']
-    HELIOCENTRIC = ['hea', 'hee', 'heeq']
+    HELIOCENTRIC = ['hae', 'hee', 'heeq']
     XFORM_LOOKUP = {"gei->gei": (0, ),  # identity
                     "geo->gei": (-1, ),
                     "gse->gei": (-2, ),
@@ -390,12 +390,12 @@ class Cotr(object):
                     "mhd->mag": (5, 1, -2, 6),
                     "mhd->mhd": (0, ),  # identity
                     # Heliocentric
-                    "hae->hae": (0),  # identity
-                    "hee->hae": (-11),
-                    "heeq->hae": (-12),
-                    "hee->hee": (0),  # identity
+                    "hae->hae": (0, ),  # identity
+                    "hee->hae": (-11, ),
+                    "heeq->hae": (-12, ),
+                    "hee->hee": (0, ),  # identity
                     # "heeq->hee": (0),  # <- unknown transform?
-                    "heeq->heeq": (0),  # identity
+                    "heeq->heeq": (0, ),  # identity
                    }
 
     def __init__(self, time='1967-01-01', dip_tilt=None, dip_gsm=None, rdim=3,
-- 
2.43.0


From c4a04090d24b269b28a1e7531f3f34ed6e401f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 027/177] fix: dipole_moment2cotr points SM-Z North, opposite
 to the moment

---
 viscid/cotr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index d5566cd..57f62c8 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -900,6 +900,8 @@ def dipole_moment2cotr(m, crd_system='gse'):
     if as_crd_system(crd_system) not in ('gse', 'mhd'):
         raise ValueError('bad crd_system: {0}'.format(crd_system))
     m = Cotr(dip_tilt=0.0, dip_gsm=0.0).transform(crd_system, 'gse', m)
+    # SM-Z points North, which is opposite to the dipole moment
+    m = 0.0 - m
     gsm = np.rad2deg(np.arctan2(m[1], m[2]))
     tilt = np.rad2deg(np.arctan2(m[0], np.linalg.norm(m[1:])))
     return Cotr(dip_tilt=tilt, dip_gsm=gsm)
-- 
2.43.0


From d8b85c16a412d4b61da0cb5f28ab48825dbadd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 028/177] fix: calc_dip of more than one point

---
 viscid/dipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 7bceee6..c1c7ae2 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -191,12 +191,12 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
     # Note: this is almost the same as fill_dipole, but all components
     #       are calculated simultaneously, and so this uses more memory
     if _HAS_NUMEXPR:
-        _X, _Y, _Z = pts.T
+        _X, _Y, _Z = [pts[:, i:i + 1] for i in range(3)]
         rsq = ne.evaluate("_X**2 + _Y**2 + _Z**2")  # pylint: disable=W0612
         mdotr = ne.evaluate("mx * _X + my * _Y + mz * _Z")  # pylint: disable=W0612
         Bdip = ne.evaluate("((three * pts * mdotr / rsq) - m) / rsq**1.5")
     else:
-        _X, _Y, _Z = pts.T
+        _X, _Y, _Z = [pts[:, i:i + 1] for i in range(3)]
         rsq = _X**2 + _Y**2 + _Z**2
         mdotr = mx * _X + my * _Y + mz * _Z
         Bdip = ((three * pts * mdotr / rsq) - m) / rsq**1.5
-- 
2.43.0


From b201f0fcf6c821378b3cd1c0fd5cf148c3c45351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 029/177] fix: call is_spherical in dipole_map_value

---
 viscid/dipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index c1c7ae2..0d58713 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -366,7 +366,7 @@ def dipole_map_value(fld, pts, r=1.0, fillna=None, cotr=None,
     if crd_system is None:
         crd_system = viscid.as_crd_system(fld, 'gse')
 
-    if fld.is_spherical:
+    if fld.is_spherical():
         # TODO: verify that crd_system works as expected for ionosphere
         #       fields (ie, meaning of +x and phi = 0)
         fld = viscid.as_spherefield(fld, order=('theta', 'phi'))['r=newaxis, ...']
@@ -376,7 +376,7 @@ def dipole_map_value(fld, pts, r=1.0, fillna=None, cotr=None,
     # pts should be shaped 3xNX*NY*NZ or similar such that the points
     # are in the same order as the flattened c-contiguous array
     mapped_pts = dipole_map(pts, r=r, cotr=cotr, crd_system=crd_system,
-                            as_spherical=fld.is_spherical)
+                            as_spherical=fld.is_spherical())
     ret = viscid.interp(fld, mapped_pts, kind=interp_kind, wrap=False)
     if fillna is not None:
         ret[np.isnan(ret)] = fillna
-- 
2.43.0


From 5b8bce43c28ed269653c893d257b8692479cda18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 030/177] fix: calc_dip of integer points

---
 viscid/dipole.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 0d58713..4105e24 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -165,6 +165,9 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
         ndarray: Nx3 dipole field vectors for N points
     """
     pts = np.asarray(pts, dtype=dtype)
+    if pts.dtype.kind in 'iub':
+        pts = pts.astype('f8')
+        dtype = pts.dtype
     if len(pts.shape) == 1:
         pts = pts.reshape(1, 3)
         single_pt = True
-- 
2.43.0


From b5c07a3a3a5bec9d420932558ccfa483c89bfe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 031/177] fix: spherical masks of thin grids

---
 viscid/dipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 4105e24..e5e0535 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -249,13 +249,13 @@ def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
         _crd_lst = [[_x, _y, _z] for _x, _y, _z in zip(Xv, Yv, Zv)]
         # csq = [c**2 for c in fld.get_crds_vector(shaped=True)]
         for i in range(3):
-            rsq = np.sum([c**2 for c in _crd_lst[i]], axis=0)
+            rsq = sum(c**2 for c in _crd_lst[i])
             _slc = [slice(None)] * len(fld.shape)
             _slc[fld.nr_comp] = i
             mask[_slc] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         return fld.wrap_field(mask, dtype='bool')
     else:
-        rsq = np.sum([c**2 for c in fld.get_crds(shaped=True)], axis=0)
+        rsq = sum(c**2 for c in fld.get_crds(shaped=True))
         mask = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         if fld.nr_comps:
             fld = fld['x']
-- 
2.43.0


From 457261f22375be9e5d1103eda5a29b2c4921356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 032/177] fix: spherical masks of face and edge centered fields

---
 viscid/dipole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index e5e0535..b807380 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -252,7 +252,7 @@ def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
             rsq = sum(c**2 for c in _crd_lst[i])
             _slc = [slice(None)] * len(fld.shape)
             _slc[fld.nr_comp] = i
-            mask[_slc] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
+            mask[tuple(_slc)] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         return fld.wrap_field(mask, dtype='bool')
     else:
         rsq = sum(c**2 for c in fld.get_crds(shaped=True))
-- 
2.43.0


From ca77ca7ffad9f9861142f99e76ff09c82c36cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:56 +0000
Subject: [PATCH 033/177] fix: masks of interlaced vectors

---
 viscid/dipole.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index b807380..e22bba5 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -84,6 +84,17 @@ def make_dipole(m=(0, 0, -DEFAULT_STRENGTH), strength=None, l=None, h=None,
     B.set_info('cotr', viscid.dipole_moment2cotr(m, crd_system=crd_system))
     return fill_dipole(B, m=m, strength=strength)
 
+def _mask_data(mask, fld):
+    """Get a mask as an int ndarray that broadcasts with fld.data"""
+    if hasattr(mask, "nr_comps"):
+        if mask.nr_comps:
+            mask = mask.as_centered(fld.center).as_layout(fld.layout).data
+        elif fld.nr_comps:
+            mask = np.expand_dims(mask.data, fld.nr_comp)
+        else:
+            mask = mask.data
+    return np.asarray(mask).astype('i')
+
 def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
     """set B to a dipole with magnetic moment m
 
@@ -142,7 +153,7 @@ def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
             Bdip[cn] = ((three * _XI * mdotr / rsq) - _mi) / rsq**1.5
 
     if mask:
-        B.data[...] = np.choose(mask.astype('i'), [B, Bdip])
+        B.data[...] = np.choose(_mask_data(mask, B), [B.data, Bdip.data])
     return B
 
 def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
@@ -229,13 +240,7 @@ def set_in_region(a, b, alpha=1.0, beta=1.0, mask=None, out=None):
     if mask is None:
         out.data[...] = vals
     else:
-        if hasattr(mask, "nr_comps") and mask.nr_comps:
-            mask = mask.as_centered(a.center).as_layout(a.layout)
-        try:
-            out.data[...] = np.choose(mask, [out.data, vals])
-        except ValueError:
-            out.data[...] = np.choose(mask.data.reshape(list(mask.sshape) + [1]),
-                                      [out.data, vals])
+        out.data[...] = np.choose(_mask_data(mask, out), [out.data, vals])
     return out
 
 def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
-- 
2.43.0


From ec82416edbd965d71744ff6b1193b5d353a30aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 034/177] fix: cart2sph in degrees

---
 viscid/mapfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 0c5f916..c7965a1 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -397,7 +397,7 @@ def cart2sph(arr, deg=False):
     ret[1, :] = np.arccos(arr[2, :] / ret[0, :])
     ret[2, :] = np.arctan2(arr[1, :], arr[0, :])
     if deg:
-        arr[1:] *= 180.0 / np.pi
+        ret[1:] *= 180.0 / np.pi
     if was_single_point:
         return ret[:, 0]
     else:
-- 
2.43.0


From 4004423189ee1df026d4c4e2424c9d2494b6a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 035/177] fix: spherical coordinates of integers

---
 viscid/mapfield.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index c7965a1..94376ac 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -339,6 +339,8 @@ def pts2polar_mapfield(pts, pts_axes, pts_unit='deg', hemisphere='north'):
     hemisphere = hemisphere.strip().lower()
 
     pts = np.array(pts)
+    if pts.dtype.kind in 'iub':
+        pts = pts.astype('f8')
     pts_axes = list(pts_axes)
 
     # convert pts to lat/lon
@@ -374,8 +376,10 @@ def pts2polar_mapfield(pts, pts_axes, pts_unit='deg', hemisphere='north'):
     return pts
 
 def _as_3xN(arr, d=3):
-    """return a copy of arr as a 3xN array"""
+    """return a floating point copy of arr as a 3xN array"""
     arr = np.array(arr)
+    if arr.dtype.kind in 'iub':
+        arr = arr.astype('f8')
     was_single_point = arr.shape == (d, )
     arr = arr.reshape((d, -1))
     return arr, was_single_point
-- 
2.43.0


From d3f9c927b8fbabd3922e8bb119d3d04099055790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 036/177] fix: as_mapfield of fields in rad

---
 viscid/mapfield.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 94376ac..e626d56 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -111,7 +111,8 @@ def fld_phi2lon(fld, base='phi', target='lon', unit='deg'):
 
 def fld_theta2lat(fld, base='theta', target='lat', unit='deg'):
     _, ddat = _get_axinds(fld, base)
-    crd_xform = lambda x: theta2lat(x, unit=unit)[::-1]
+    _unit = unit if unit else fld.crds.get_unit(base)
+    crd_xform = lambda x: theta2lat(x, unit=_unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
     dslc[ddat] = slice(None, None, -1)
     dat_xform = lambda a: a[tuple(dslc)]
@@ -124,7 +125,8 @@ def fld_lon2phi(fld, base='lon', target='phi', unit='deg'):
 
 def fld_lat2theta(fld, base='lat', target='theta', unit='deg'):
     dcrd, ddat = _get_axinds(fld, base)
-    crd_xform = lambda x: lat2theta(x, unit=unit)[::-1]
+    _unit = unit if unit else fld.crds.get_unit(base)
+    crd_xform = lambda x: lat2theta(x, unit=_unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
     dslc[ddat] = slice(None, None, -1)
     dat_xform = lambda a: a[tuple(dslc)]
-- 
2.43.0


From 414685bc40a12e1de3d111604ff10f513280dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 037/177] fix: as_polar_mapfield's test for data within
 bounding_lat

---
 viscid/mapfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index e626d56..a07234e 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -254,14 +254,14 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
     abs_bounding_lat = abs(bounding_lat)
 
     if hemisphere in ("north", 'n'):
-        if np.all(mfld.get_crd('lat') < abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') < np.pi / 2 - abs_bounding_lat):
             raise ValueError("fld {0} contains no values north of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
         # mfld = mfld["lat=:{0}j:-1".format(abs_bounding_lat)]
         mfld = mfld.loc[:, :np.pi / 2 - abs_bounding_lat:-1]
     elif hemisphere in ("south", 's'):
-        if np.all(mfld.get_crd('lat') > -abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') > -np.pi / 2 + abs_bounding_lat):
             raise ValueError("fld {0} contains no values south of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
-- 
2.43.0


From 92582fc06850e1d1194716ba5778d33f5de63d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 038/177] fix: make uniform and vector mapfields periodic

---
 viscid/mapfield.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index a07234e..ece7c1e 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -289,7 +289,8 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
 
         if phi_diff < 2 * np.pi - 1e-5:
             if mfld.crds.is_uniform():
-                clist[0][1][1] += phi_diff / clist[0][1][2]
+                clist[0][1][1] += phi_diff / (clist[0][1][2] - 1)
+                clist[0][1][2] += 1
                 if not np.isclose(clist[0][1][1] - clist[0][1][0], 2 * np.pi):
                     viscid.logger.warning("Tried unsuccessfully to make uniform "
                                           "polar mapfield periodic: {0:g}"
@@ -297,7 +298,9 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
             else:
                 clist[0][1] = np.concatenate([clist[0][1],
                                               [clist[0][1][0] + 2 * np.pi]])
-            mfld_dat = np.concatenate([mfld_dat, mfld_dat[0:1, :]], axis=0)
+            _, ddat = _get_axinds(mfld, 'lon')
+            seam = np.take(mfld_dat, [0], axis=ddat)
+            mfld_dat = np.concatenate([mfld_dat, seam], axis=ddat)
 
     crds = wrap_crds(mfld.crds.crdtype, clist, dtype=mfld.crds.dtype)
     ctx = dict(crds=crds)
-- 
2.43.0


From 20dd52a2642cdcd01945691d41beccdb3b9eb97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 039/177] fix: as_polar_mapfield cuts full spheres, not
 hemispheres, at 40 degrees

---
 viscid/mapfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index ece7c1e..167b8af 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -245,7 +245,7 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
     # set a sensible default for bounding_lat... full spheres get cut off
     # at 40 deg, but hemispheres or smaller are shown in full
     if bounding_lat is None:
-        if abs(mfld.xh[1] - mfld.xl[1]) >= 1.01 * np.pi:
+        if abs(mfld.xh[1] - mfld.xl[1]) >= 1.01 * np.pi / 2:
             bounding_lat = 40.0
         else:
             bounding_lat = 90.0
-- 
2.43.0


From fa1d9c0b6088cb07f6e638249d4374e43185cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 040/177] fix: data axis of flat vectors in mapfields

---
 viscid/mapfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 167b8af..a0e33a6 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -76,7 +76,7 @@ def _make_transform_unit_func(base_unit, target_unit):
 
 def _get_axinds(fld, ax):
     dcrd = fld.crds.ind(ax)
-    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp < dcrd else dcrd
+    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp <= dcrd else dcrd
     return dcrd, ddat
 
 def _fld_xform_common(fld, base, target, unit, crd_xform, dat_xform, raw=False):
-- 
2.43.0


From a8c1f516c11168d729e59a3954a6c9fceb0b9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 041/177] fix: great circles of colinear points

---
 viscid/mapfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index a0e33a6..bab2485 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -513,6 +513,8 @@ def great_circle(p1, p2, origin=(0, 0, 0), n=32):
         pole = np.array([0, -1, 0])
         if np.isclose(np.linalg.norm(np.cross(pole, p1)), 0.0):
             pole = np.array([0, 0, -1])
+        # the circle only goes through p1 if the pole is perpendicular to it
+        pole = pole - p1 * (np.dot(pole, p1) / np.dot(p1, p1))
 
     matBtoA = viscid.a2b_rot([0, 0, 1], pole, new_x=p1)
 
-- 
2.43.0


From 11cc55446bf977b21ce705966be2423d1e0cb247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 042/177] fix: numbers keep their digits in as_timedelta64

---
 viscid/npdatetime.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index d91f552..a8090c2 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -173,7 +173,7 @@ def _as_timedelta64_scalar(time, unit=None):
     elif isinstance(time, (int, float, np.integer, np.floating)):
         orig_time, orig_flt_unit = time, flt_unit
         unit_idx = TIME_UNITS.index(flt_unit)
-        while not np.isclose(time, int(np.round(time)), rtol=1e-4, atol=1e-18):
+        while not np.isclose(time, int(np.round(time)), rtol=1e-14, atol=1e-18):
             if unit_idx <= 0:
                 raise ValueError("Floating point time {0} [{1}] is too precise "
                                  "for any time unit?".format(orig_time, orig_flt_unit))
@@ -272,7 +272,11 @@ def as_timedelta64(time, unit=None):
             will be the most coarse unit that can store the time
     """
     if isinstance(time, (np.ndarray, list, tuple)):
-        time = np.array([_as_timedelta64_scalar(ti, unit=unit) for ti in time])
+        time = [_as_timedelta64_scalar(ti, unit=unit) for ti in time]
+        try:
+            time = np.array(time)
+        except OverflowError:
+            time = np.array(regularize_time(time))
         if time.dtype.kind == 'f':
             unit = 'ns' if unit is None else unit
             time = time.astype(_format_unit(unit, base=DELTA_BASE))
-- 
2.43.0


From 5d0faf8456619db546230e339227357e8fbfafd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 043/177] fix: as_isotime converts arrays

---
 viscid/npdatetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index a8090c2..f5c66de 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -235,7 +235,7 @@ def as_isotime(time):
         return ret[0]
     else:
         if isinstance(time, np.ndarray):
-            return np.array(time, dtype=time.dtype)
+            return np.array(ret)
         else:
             return ret
 
-- 
2.43.0


From a564fdce813045af2fa70854cee5fe99504b74ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 044/177] fix: linspace_datetime64 is exact

---
 viscid/npdatetime.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index f5c66de..b3b4b20 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -351,9 +351,13 @@ def linspace_datetime64(start, stop, n, endpoint=True, unit=None):
     stop = as_datetime64(stop, unit=unit)
     start, stop = regularize_time([start, stop], most_precise=True)
 
-    fltarr = np.linspace(start.astype('i8'), stop.astype('i8'), n,
-                         endpoint=endpoint, dtype='f8')
-    return np.round(fltarr, 0).astype('i8').astype(start.dtype)
+    # use python's integers since neither the ticks, nor the difference between
+    # them is guarenteed to fit in a double or a 64-bit integer
+    tick0, tick1 = int(start.astype('i8')), int(stop.astype('i8'))
+    div = max(n - 1, 1) if endpoint else n
+    ticks = [tick0 + (2 * i * (tick1 - tick0) + div) // (2 * div)
+             for i in range(n)]
+    return np.array(ticks, dtype='i8').astype(start.dtype)
 
 def _most_precise_t_unit(tlst):
     """Find the most precise time unit from the bunch
-- 
2.43.0


From 9e5a4468f403ac5e2423aeafbe58d21519dc727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 045/177] fix: regularize_time raises if there is no unit for
 all times

---
 viscid/npdatetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index b3b4b20..30db944 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -529,6 +529,8 @@ def regularize_time(tlst, unit=None, most_precise=False, allow_rounding=True,
         else:
             unit = u
             break
+    else:
+        raise OverflowError("There is no unit for all of {0}".format(tlst))
 
     # if we want the most precise unit that fits everything, then keep
     # refining the unit until we get an OverflowError
-- 
2.43.0


From 9ada1e458b948ada056e1f2d6c8d7d026d996105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 046/177] fix: time_sum and time_diff do not overflow

---
 viscid/npdatetime.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 30db944..fdbf3c7 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -553,6 +553,20 @@ def regularize_time(tlst, unit=None, most_precise=False, allow_rounding=True,
         else:
             return ret
 
+def _avoid_overflow(a, b, sign, allow_rounding=True, allow0=True):
+    """Coarsen a & b until `a + sign * b` fits in a 64-bit integer"""
+    for u in ORDERED_UNITS[ORDERED_UNITS.index(_get_unit(a)) + 1:]:
+        with np.errstate(invalid='ignore'):
+            ticks = a.astype('i8').astype('f8') + sign * b.astype('i8').astype('f8')
+        if np.all(np.abs(ticks) < 2.0**63):
+            break
+        elif not allow_rounding:
+            raise OverflowError("The result does not fit in the unit '{0}'"
+                                "".format(_get_unit(a)))
+        a, b = regularize_time([a, b], unit=u, allow_rounding=allow_rounding,
+                               allow0=allow0)
+    return a, b
+
 def time_sum(t0, tdelta, unit=None, most_precise=False, allow_rounding=True,
              allow0=True):
     """Add timedelta64 to datetime64 at highest precision w/o overflow
@@ -587,6 +601,8 @@ def time_sum(t0, tdelta, unit=None, most_precise=False, allow_rounding=True,
                                  most_precise=most_precise,
                                  allow_rounding=allow_rounding,
                                  allow0=allow0)
+    t0, tdelta = _avoid_overflow(t0, tdelta, +1, allow_rounding=allow_rounding,
+                                 allow0=allow0)
     return t0 + tdelta
 
 def time_diff(t1, t2, unit=None, most_precise=False):
@@ -611,6 +627,7 @@ def time_diff(t1, t2, unit=None, most_precise=False):
     t1 = as_datetime64(t1)
     t2 = as_datetime64(t2)
     t1, t2 = regularize_time([t1, t2], unit=unit, most_precise=most_precise)
+    t1, t2 = _avoid_overflow(t1, t2, -1)
     return t1 - t2
 
 def is_valid_datetime64(arr, unit=None):
-- 
2.43.0


From b9872499a2d34d897b3a4236f274f8c893dd9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 047/177] fix: hms and dhms formats of long times

---
 viscid/npdatetime.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index fdbf3c7..21ff743 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -718,12 +718,17 @@ def format_time(time, fmt='.02f', basetime=None):
         if fmt.startswith('d'):
             days = int(as_timedelta64(dttime) / np.timedelta64(1, 'D'))
             if days == 1:
-                days_str = '{0} day'.format(days)
+                days_str = '{0} day '.format(days)
             else:
                 days_str = '{0} days '.format(days)
         else:
             days_str = ''
-        ret = datetime.strftime(dttime, days_str + '%H:%M:%S')
+        hms_fmt = '%H:%M:%S'
+        if not fmt.startswith('d') and not is_datetime_like(time):
+            # elapsed times can be longer than a day
+            nhours = int(as_timedelta64(dttime) / np.timedelta64(1, 'h'))
+            hms_fmt = '{0:02d}:%M:%S'.format(nhours)
+        ret = datetime.strftime(dttime, days_str + hms_fmt)
         if fmt.endswith('ss'):
             _tt = time_diff(dttime, basetime) / np.timedelta64(1, 's')
             ret += " ({0:06d})".format(int(_tt))
-- 
2.43.0


From 39036161e002e999b102f37d8ad9919f591c7a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 048/177] fix: fractional seconds in format_time

---
 viscid/npdatetime.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 21ff743..eae8b11 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -739,22 +739,23 @@ def format_time(time, fmt='.02f', basetime=None):
         ret = "{0:{1}}".format(_tt, fmt.strip())
     else:
         if not fmt:
-            msec_fmt = ['1']
-            fmt = "%Y-%m-%d %H:%M:%S.%f"
-        else:
-            msec_fmt = re.findall(r"%\.?([0-9]*)f", fmt)
-            fmt = re.sub(r"%\.?([0-9]*)f", "%f", fmt)
+            fmt = "%Y-%m-%d %H:%M:%S.%1f"
+
+        # handle the precision of any %f here since strftime can't, and round
+        # the time before anything else so that the fraction can carry over
+        # into the seconds
+        msec_fmt = re.findall(r"%\.?([0-9]*)f", fmt)
+        if msec_fmt:
+            ndigits = [int(ffmt) if len(ffmt) > 0 else 6 for ffmt in msec_fmt]
+            usec_tick = 10**max(6 - max(ndigits), 0)
+            usec = int(round(dttime.microsecond / usec_tick)) * usec_tick
+            dttime += timedelta(microseconds=usec - dttime.microsecond)
+            usec_str = "{0:06d}".format(dttime.microsecond)
+            for n in ndigits:
+                fmt = re.sub(r"%\.?([0-9]*)f", usec_str[:n].ljust(n, '0'), fmt,
+                             count=1)
 
         tstr = datetime.strftime(dttime, fmt)
-
-        # now go back and for any %f -> [0-9]{6}, reformat the precision
-        it = list(izip(msec_fmt, re.finditer("[0-9]{6}", tstr)))
-        for ffmt, m in reversed(it):
-            a, b = m.span()
-            val = float("0." + tstr[a:b])
-            ifmt = int(ffmt) if len(ffmt) > 0 else 6
-            f = "{0:0.{1}f}".format(val, ifmt)[2:]
-            tstr = tstr[:a] + f + tstr[b:]
         ret = tstr
     return ret
 
-- 
2.43.0


From 9fb1766a47d0ff5ada29ad19f0842e6798054b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 049/177] fix: node times can be set with datetimes

---
 viscid/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index 5ba358b..b94713d 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -232,11 +232,11 @@ class Node(object):
     @time.setter
     def time(self, val):
         if viscid.is_datetime_like(val):
-            val = viscid.as_timedelta(self.basetime - viscid.as_datetime64(val))
+            val = viscid.as_timedelta(viscid.time_diff(val, self.basetime))
             val = val.total_seconds()
         elif viscid.is_timedelta_like(val, conservative=True):
             val = viscid.as_timedelta(val).total_seconds()
-        elif val is not None:
+        if val is not None:
             self.set_info('time', float(val))
 
     def time_as_timedelta64(self):
-- 
2.43.0


From d99d940026db118bdc0f5a5502cbb9feeb0f2725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 050/177] fix: npz data has a length

---
 viscid/readers/numpy_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/readers/numpy_binary.py b/viscid/readers/numpy_binary.py
index 15be125..9305f7a 100644
--- a/viscid/readers/numpy_binary.py
+++ b/viscid/readers/numpy_binary.py
@@ -67,8 +67,8 @@ class NPZDataWrapper(vfile.DataWrapper):
     def read_direct(self, *args, **kwargs):
         raise NotImplementedError()
 
-    def len(self):
-        return self.wrap_func("len")
+    def __len__(self):
+        return self.shape[0]
 
     def __getitem__(self, item):
         return self.wrap_func("__getitem__", item)
-- 
2.43.0


From a241c39eefca61ec25588d7e754bc5fd0611317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 051/177] fix: escape names in xdmf files

---
 viscid/readers/hdf5.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 3e72c2d..305e283 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -1,5 +1,6 @@
 from __future__ import print_function
 import os
+from xml.sax.saxutils import escape
 
 import numpy as np
 
@@ -298,9 +299,11 @@ class FileHDF5(vfile.VFile):
             yloc = cls._CRDS_GROUP + '/' + crd_names[1]
             zloc = cls._CRDS_GROUP + '/' + crd_names[2]
             dim_str = " ".join([str(l) for l in crd_shape][::-1])
-            f.write(cls._XDMF_TEMPLATE_BEGIN.format(time=time))
+            f.write(cls._XDMF_TEMPLATE_BEGIN)
+            if time is not None:
+                f.write(cls._XDMF_TEMPLATE_TIME.format(time=time))
             s = cls._XDMF_TEMPLATE_RECTILINEAR_GRID_BEGIN.format(
-                grid_name="vgrid", crd_dims=dim_str, h5fname=relh5fname,
+                grid_name="vgrid", crd_dims=dim_str, h5fname=escape(relh5fname),
                 xdim=crd_shape[0], ydim=crd_shape[1], zdim=crd_shape[2],
                 xloc=xloc, yloc=yloc, zloc=zloc)
             f.write(s)
@@ -319,10 +322,10 @@ class FileHDF5(vfile.VFile):
                 fld_dim_str = " ".join([str(l) for l in fld.shape])
                 loc = cls._FLD_GROUPS[fld.center.lower()] + '/' + name
                 s = cls._XDMF_TEMPLATE_ATTRIBUTE.format(
-                    fld_name=name,
+                    fld_name=escape(name, {'"': "&quot;"}),
                     fld_type=fld.fldtype, center=fld.center.title(),
                     dtype=dt, precision=precision, fld_dims=fld_dim_str,
-                    h5fname=relh5fname, fld_loc=loc)
+                    h5fname=escape(relh5fname), fld_loc=escape(loc))
                 f.write(s)
 
             f.write(cls._XDMF_TEMPLATE_GRID_END)
-- 
2.43.0


From 0ae4cc99960e4623e165c86e9fcbc46662ccd892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 052/177] fix: unsigned and boolean data in xdmf files

---
 viscid/readers/hdf5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 305e283..f878cea 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -318,6 +318,7 @@ class FileHDF5(vfile.VFile):
             for name, fld in flds.items():
                 fld = fld.as_flat().T
                 dt = fld.dtype.name.rstrip("0123456789").title()
+                dt = {"Uint": "UInt", "Bool": "UChar"}.get(dt, dt)
                 precision = fld.dtype.itemsize
                 fld_dim_str = " ".join([str(l) for l in fld.shape])
                 loc = cls._FLD_GROUPS[fld.center.lower()] + '/' + name
-- 
2.43.0


From 28199413f9b1a3b21246f5407568616008efb42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 053/177] fix: save fields without a time

---
 viscid/readers/hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index f878cea..e53d989 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -176,7 +176,8 @@ class FileHDF5(vfile.VFile):
 <Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' Version='2.0'>
 <Domain>
 <Grid GridType="Collection" CollectionType="Spatial">
-  <Time Type="Single" Value="{time}" />
+"""
+    _XDMF_TEMPLATE_TIME = """  <Time Type="Single" Value="{time}" />
 """
     _XDMF_TEMPLATE_RECTILINEAR_GRID_BEGIN = """
   <Grid Name="{grid_name}" GridType="Uniform">
-- 
2.43.0


From 04ba94b7a0cf210c3ba5d96e1cde333df9851a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 054/177] fix: text files with one row or column

---
 viscid/readers/ascii.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/ascii.py b/viscid/readers/ascii.py
index 474a25d..981c72d 100644
--- a/viscid/readers/ascii.py
+++ b/viscid/readers/ascii.py
@@ -28,7 +28,7 @@ class FileASCII(vfile.VFile):  # pylint: disable=W0223
     def _parse(self):
         g = self._make_grid(self)
 
-        arr = np.loadtxt(self.fname)
+        arr = np.loadtxt(self.fname, ndmin=2)
         crds = coordinate.wrap_crds("nonuniform_cartesian", [['x', arr[:, 0]]])
         g.set_crds(crds)
 
-- 
2.43.0


From 0cdf82342dec916a0ea962e0e624d6cb6ebf2ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 055/177] fix: log file lists of numbers with exponents

---
 viscid/readers/ggcm_logfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/ggcm_logfile.py b/viscid/readers/ggcm_logfile.py
index 6876e21..cecb9bc 100644
--- a/viscid/readers/ggcm_logfile.py
+++ b/viscid/readers/ggcm_logfile.py
@@ -122,7 +122,8 @@ class GGCMLogFile(vfile.VFile):  # pylint: disable=W0223
             pass
 
         s = s.strip()
-        if re.match(r"\-?[\d\.]+(\s*,\s*\-?[\d\.]+)+", s):
+        num = r"\-?[\d\.]+(?:[eE][\+\-]?\d+)?"
+        if re.match(num + r"(\s*,\s*" + num + r")+", s):
             l = s.split(",")
             for i, s in enumerate(l):
                 try:
-- 
2.43.0


From 80743ba6d3932b0c8f4f074203dae562d353b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 056/177] fix: assume_mhd_crds for more than one time step

---
 viscid/readers/openggcm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 2bbeb21..ef80955 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -784,7 +784,8 @@ class GGCMFileFortran(GGCMFile, ContainerFile):  # pylint: disable=abstract-meth
                                           grid_type=self._grid_type,
                                           crds=self._crds,
                                           fld_templates=self._fld_templates,
-                                          file_wrapper=_fwrapper)
+                                          file_wrapper=_fwrapper,
+                                          assume_mhd_crds=self.assume_mhd_crds)
                 data_temporal.add(f)
             data_temporal.activate(0)
             self.add(data_temporal)
-- 
2.43.0


From 2b98a793cc7711e789992a7bbf7621c2426df98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 057/177] fix: reading fortbin fields by name

---
 viscid/readers/ggcm_fortbin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/readers/ggcm_fortbin.py b/viscid/readers/ggcm_fortbin.py
index 405fdcf..cbf240d 100644
--- a/viscid/readers/ggcm_fortbin.py
+++ b/viscid/readers/ggcm_fortbin.py
@@ -83,14 +83,14 @@ class GGCMFortbinFileWrapper(object):
     def inquire(self, fld_name):
         try:
             meta = self.fields_seen[fld_name]
-            self.seek(meta['file_position'])
+            self._file.seek(meta['file_position'])
             return meta
         except KeyError:
             try:
                 last_added = next(reversed(self.fields_seen))
                 # go to the last seen field and go one field past it
-                self.seek(self.fields_seen[last_added]['file_position'] +
-                          self.file_meta['nbytes'])
+                self._file.seek(self.fields_seen[last_added]['file_position'] +
+                                self.file_meta['nbytes'])
             except StopIteration:
                 self._file.seek(0)
 
-- 
2.43.0


From df3c9c7b94e57741015b84572eedb88d3e1a217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 058/177] fix: seeking in open jrrle files

---
 viscid/readers/_fortfile_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/readers/_fortfile_wrapper.py b/viscid/readers/_fortfile_wrapper.py
index 3ede731..cc993e3 100644
--- a/viscid/readers/_fortfile_wrapper.py
+++ b/viscid/readers/_fortfile_wrapper.py
@@ -53,6 +53,9 @@ class FortranFile(object):
 
     def seek(self, offset, whence=0):
         assert self.isopen
+        if whence == 0:
+            # fseek doesn't drop what fortran has buffered, but rewind does
+            self.rewind()
         status = _jrrle.seek(self._unit, offset, whence)
         if status != 0:
             raise AssertionError("status != 0: {0}".format(status))
-- 
2.43.0


From 12f8dbbdfd737c1e2f3532b5a570c2d04a8adbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 059/177] fix: xdmf: use the times given for a temporal
 collection

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index a9d9255..d8844d7 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -186,7 +186,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             for i, subgrid in enumerate(el.findall("./Grid")):
                 t = times[i] if (times is not None and i < len(times)) else time
                 # print(subgrid, grd, t)
-                self._parse_grid(subgrid, parent_node=grd, time=time)
+                self._parse_grid(subgrid, parent_node=grd, time=t)
             if len(grd.children) > 0:
                 grd.activate(0)
 
-- 
2.43.0


From 8f48220abfbd35dc6355ba14eaf45a938b3adb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 060/177] fix: xdmf: siblings may include the same file

---
 viscid/compat/_xdmf_include.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/compat/_xdmf_include.py b/viscid/compat/_xdmf_include.py
index 2217ce9..b719667 100644
--- a/viscid/compat/_xdmf_include.py
+++ b/viscid/compat/_xdmf_include.py
@@ -80,6 +80,7 @@ def include(elem, loader=None, base_url="./", _parent_hrefs=None):
 
                 if node is None:
                     logger.debug("XInclude: File '{0}' not found".format(href))
+                    _parent_hrefs.discard(href)
                     del elem[i]
                     continue
 
@@ -101,6 +102,8 @@ def include(elem, loader=None, base_url="./", _parent_hrefs=None):
 
                 # recursively look for xincludes in the included element
                 include(node, loader, href, _parent_hrefs)
+                # siblings are allowed to include the same file
+                _parent_hrefs.discard(href)
 
                 if e.tail:
                     node.tail = (node.tail or "") + e.tail
-- 
2.43.0


From cc22ff433cc6fbb9886ed19402bb22a3e02cb267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 061/177] fix: xdmf: allow ':' in paths to HDF5 files

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index d8844d7..04d7e7c 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -440,7 +440,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             return arr, attrs
 
         if fmt == "HDF":
-            fname, loc = item.text.strip().split(':')
+            fname, loc = item.text.strip().rsplit(':', 1)
 
             # FIXME: startswith '/' is unix path name specific
             if self.h5_root_dir is not None:
-- 
2.43.0


From 3b64f973e5bada276e52c9fc1a80c653915563cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 062/177] fix: xdmf: dimensions can be separated by any
 whitespace

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 04d7e7c..5ee6bbe 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -424,7 +424,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
 
         dimensions = attrs["Dimensions"]
         if dimensions:
-            dimensions = [int(d) for d in dimensions.split(' ')]
+            dimensions = [int(d) for d in dimensions.split()]
 
         numbertype = attrs["NumberType"]
         precision = attrs["Precision"]
-- 
2.43.0


From 28bf3904c793a76c2a5399b2eba910c0b87b14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 063/177] fix: xdmf: read the data item of an information tag

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 5ee6bbe..25dd776 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -492,7 +492,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         val = attrs["Value"]
         if val is None:
             _di = information.find(".//DataItem")
-            if _di:
+            if _di is not None:
                 val, _ = self._parse_dataitem(_di)
             else:
                 val = information.text
-- 
2.43.0


From 39b330001f207c9d1fd986bf8b0e617427673292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 064/177] fix: openggcm: find crd_system of the parents

---
 viscid/readers/openggcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index ef80955..dfc71d1 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -361,7 +361,7 @@ class GGCMGrid(grid.Grid):
                 f.transform_func_kwargs = dict(copy_on_transform=self.copy_on_transform)
                 f.set_info("crd_system", "gse")
             else:
-                f.set_info("crd_system", self.get_info("crd_system"))
+                f.set_info("crd_system", self.find_info("crd_system"))
 
         super(GGCMGrid, self).add_field(*fields)
 
-- 
2.43.0


From 44c3c3d62146282556cff6cf8a7c09f516cd7643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 065/177] fix: openggcm: mhd2gse of hypersliced vector fields

---
 viscid/field.py            | 6 +++---
 viscid/readers/openggcm.py | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 7c60482..7332d22 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1275,10 +1275,10 @@ class Field(tree.Leaf):
                 # post-reshape-transform
                 if self.post_reshape_transform_func is not None:
                     if cc:
-                        target_shape = crds.shape_cc
+                        target_shape = list(crds.shape_cc)
                     else:
-                        target_shape = crds.shape_nc
-                    if nr_comp is not None:
+                        target_shape = list(crds.shape_nc)
+                    if nr_comp is not None and not single_comp_slc:
                         target_shape.insert(nr_comp, -1)
                     slced_dat = self.post_reshape_transform_func(
                         self, crds, slced_dat.reshape(target_shape),
diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index dfc71d1..43e55e3 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -157,10 +157,12 @@ def mhd2gse_field_vector(fld, crds, arr, comp_slc=None,
         shp.insert(0, -1)
     else:
         raise RuntimeError("well what am i looking at then...")
-    factor = np.array([-1.0, -1.0, 1.0], dtype=arr.dtype).reshape(shp)
+    factor = np.array([-1.0, -1.0, 1.0], dtype=arr.dtype)
     if comp_slc is not None:
-        tmpslc = [slice(None) if s == 1 else comp_slc for s in shp]
-        factor = factor[tmpslc]
+        factor = np.asarray(factor[comp_slc])
+    if factor.ndim > 0:
+        # otherwise, arr is just one of the components
+        factor = factor.reshape(shp)
     # print("** factor", factor.shape, factor.flatten())
     if copy_on_transform:
         if _has_numexpr:
-- 
2.43.0


From 80cd99cfd9d5a75446361de1198fa5770b688e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 066/177] fix: slicing of lazy vectors when their layout is not
 that of the source

---
 viscid/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/field.py b/viscid/field.py
index 7332d22..a2bc1c4 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1171,6 +1171,10 @@ class Field(tree.Leaf):
         slced_dat = None
 
         hypersliceable = getattr(self._src_data, "_hypersliceable", False)
+        if (hypersliceable and self.nr_comps and
+            self.layout != self._detect_layout(self._src_data)):
+            # the components live on different axes of _src_data and data
+            hypersliceable = False
         single_comp_slc = hasattr(comp_slc, "__index__")
         cc = (self.iscentered("Cell") or self.iscentered("Face") or
               self.iscentered("Edge"))
-- 
2.43.0


From c70848ac11d2fc8b1842a85a9641e8e4321bd0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 067/177] fix: athena: name of vz

---
 viscid/readers/athena.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/athena.py b/viscid/readers/athena.py
index 08684e0..e27829a 100644
--- a/viscid/readers/athena.py
+++ b/viscid/readers/athena.py
@@ -117,7 +117,7 @@ class AthenaGrid(grid.Grid):
             f = self['V3']
         except KeyError:
             f = self['M3'] / self['d']
-        f.name = "bz"
+        f.name = "vz"
         f.pretty_name = "$V_z$"
         return f
 
-- 
2.43.0


From fd045a7a95178fef5ca5805ed732f608bcb78910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 068/177] fix: athena: hst files with one row

---
 viscid/readers/athena_hst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/athena_hst.py b/viscid/readers/athena_hst.py
index a5f4a49..bf4758b 100644
--- a/viscid/readers/athena_hst.py
+++ b/viscid/readers/athena_hst.py
@@ -31,7 +31,7 @@ class AthenaHstFile(vfile.VFile):  # pylint: disable=abstract-method
             fld_names = [fn.strip() for fn in fld_names]
 
         # crds here are really times
-        dat = np.loadtxt(self.fname, unpack=True)
+        dat = np.loadtxt(self.fname, unpack=True, ndmin=2)
         t = dat[0]
         crds = coordinate.wrap_crds("nonuniform_cartesian", [('t', t)])
 
-- 
2.43.0


From 448044792fcb4595f200c4a8a7f56be921757bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 069/177] fix: athena: times with an exponent in tab files

---
 viscid/readers/athena_tab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/athena_tab.py b/viscid/readers/athena_tab.py
index af7f3e4..9ba18f6 100644
--- a/viscid/readers/athena_tab.py
+++ b/viscid/readers/athena_tab.py
@@ -126,7 +126,7 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
                 if line.startswith('Nx'):
                     dims.append(int(line.split('=')[1]))
                 if "Time" in line:
-                    t = re.search(r"Time\s*=\s*([0-9\.]+)", line).groups()[0]
+                    t = re.search(r"Time\s*=\s*([-+0-9.eE]+)", line).groups()[0]
                 # il y a level & domain for SMR outptut, but i'm ignoring them
 
                 fns = re.split(r"\[[0-9]+\]=", line)
-- 
2.43.0


From 53214176f41c70e9acbf76260db89a77ce206020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 070/177] fix: athena: add xdmf grids to the collection once

---
 viscid/readers/athena_xdmf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/viscid/readers/athena_xdmf.py b/viscid/readers/athena_xdmf.py
index 7f221fc..37d06c0 100644
--- a/viscid/readers/athena_xdmf.py
+++ b/viscid/readers/athena_xdmf.py
@@ -44,9 +44,8 @@ class AthenaFileXDMF(athena.AthenaFile, xdmf.FileXDMF):  # pylint: disable=abstr
                                                name="AthenaXDMFTemporalCollection")
 
             for fname in self._collection:
-                grids = self._parse_file(fname, data_temporal)
-                for _grid in grids:
-                    data_temporal.add(_grid)
+                # this adds the grids to data_temporal
+                self._parse_file(fname, data_temporal)
             data_temporal.activate(0)
             self.add(data_temporal)
             self.activate(0)
-- 
2.43.0


From 30eb564adad7ffa150504e5f9cdef61157ee5ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 071/177] fix: gkeyll: time of fields

---
 viscid/readers/gkeyll.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/gkeyll.py b/viscid/readers/gkeyll.py
index 3a9099b..7bd3532 100644
--- a/viscid/readers/gkeyll.py
+++ b/viscid/readers/gkeyll.py
@@ -366,7 +366,8 @@ class GkeyllFile(FileHDF5, ContainerFile):  # pylint: disable=abstract-method
             h5_data = H5pyDataWrapper(self.fname, "StructGridField",
                                       comp_dim=-1, comp_idx=i)
             fld = field.wrap_field(h5_data, self._crds, meta['fld_name'],
-                                   center="cell", pretty_name=meta['pretty_name'])
+                                   center="cell", time=time,
+                                   pretty_name=meta['pretty_name'])
             _grid.add_field(fld)
         _grid.set_info('field_type', self.get_info('field_type'))
         return _grid
-- 
2.43.0


From e87796472b222400c625654cee581ced59899f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 072/177] fix: gkeyll: Pyy and Pzz

---
 viscid/readers/gkeyll.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/gkeyll.py b/viscid/readers/gkeyll.py
index 7bd3532..b5b87a6 100644
--- a/viscid/readers/gkeyll.py
+++ b/viscid/readers/gkeyll.py
@@ -104,13 +104,13 @@ class GkeyllGrid(grid.Grid):
         return Pxx_e
 
     def _get_Pyy_e(self):
-        Pyy_e = self['pyy_e'] - self['rhoux_e']*self['rhoux_e'] / self['rho_e']
+        Pyy_e = self['pyy_e'] - self['rhouy_e']*self['rhouy_e'] / self['rho_e']
         Pyy_e.name = 'Pyy_e'
         Pyy_e.pretty_name = r'$P_{yy,e}$'
         return Pyy_e
 
     def _get_Pzz_e(self):
-        Pzz_e = self['pzz_e'] - self['rhoux_e']*self['rhoux_e'] / self['rho_e']
+        Pzz_e = self['pzz_e'] - self['rhouz_e']*self['rhouz_e'] / self['rho_e']
         Pzz_e.name = 'Pzz_e'
         Pzz_e.pretty_name = r'$P_{zz,e}$'
         return Pzz_e
@@ -158,13 +158,13 @@ class GkeyllGrid(grid.Grid):
         return Pxx_i
 
     def _get_Pyy_i(self):
-        Pyy_i = self['pyy_i'] - self['rhoux_i']*self['rhoux_i'] / self['rho_i']
+        Pyy_i = self['pyy_i'] - self['rhouy_i']*self['rhouy_i'] / self['rho_i']
         Pyy_i.name = 'Pyy_i'
         Pyy_i.pretty_name = r'$P_{yy,i}$'
         return Pyy_i
 
     def _get_Pzz_i(self):
-        Pzz_i = self['pzz_i'] - self['rhoux_i']*self['rhoux_i'] / self['rho_i']
+        Pzz_i = self['pzz_i'] - self['rhouz_i']*self['rhouz_i'] / self['rho_i']
         Pzz_i.name = 'Pzz_i'
         Pzz_i.pretty_name = r'$P_{zz,i}$'
         return Pzz_i
-- 
2.43.0


From 5fb9374f153450123ca934b5069d0987ccb511ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 073/177] fix: gkeyll: structured meshes that aren't 3d

---
 viscid/readers/gkeyll.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/viscid/readers/gkeyll.py b/viscid/readers/gkeyll.py
index b5b87a6..2718bf5 100644
--- a/viscid/readers/gkeyll.py
+++ b/viscid/readers/gkeyll.py
@@ -416,13 +416,9 @@ class GkeyllFile(FileHDF5, ContainerFile):  # pylint: disable=abstract-method
             crd_arr = h5file['StructGrid/axis%d'%idx][:]
             return crd_arr
         elif gridType in ['structured']:
-            if idx == 0:
-                crd_arr = h5file['StructGrid'][:, 0, 0, 0]
-            elif idx == 1:
-                crd_arr = h5file['StructGrid'][0, :, 0, 1]
-            elif idx == 2:
-                crd_arr = h5file['StructGrid'][0, 0, :, 2]
-            return crd_arr
+            slc = [0] * nr_crds + [idx]
+            slc[idx] = slice(None)
+            return h5file['StructGrid'][tuple(slc)]
         else:
             raise RuntimeError("Gkeyll StructGrid.vsKind not understood: {0}"
                                "".format(repr(gridType)))
-- 
2.43.0


From 1a27fb580914c4c6f9bb993e45ebc1545e173e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 074/177] fix: psc: format of file names

---
 viscid/readers/psc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/psc.py b/viscid/readers/psc.py
index 10c1dfc..a3e0c53 100644
--- a/viscid/readers/psc.py
+++ b/viscid/readers/psc.py
@@ -102,7 +102,7 @@ def open_psc_file(path, step, pfx="p"):
     return PscFieldFile(make_fname(path, step, pfx))
 
 def make_fname(path, step, pfx="p"):
-    return "{0}/{1}fd.{2:.06d}.xdmf".format(path, pfx, step)
+    return "{0}/{1}fd.{2:06d}.xdmf".format(path, pfx, step)
 
 ##
 ## EOF
-- 
2.43.0


From 145aae4b479b0713d45198c5338068bd112e59e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 075/177] fix: amr: room for all neighbors of a patch

---
 viscid/amr_grid.py      | 4 ++--
 viscid/cython/cyamr.pyx | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/viscid/amr_grid.py b/viscid/amr_grid.py
index d47079c..a6f1a9d 100644
--- a/viscid/amr_grid.py
+++ b/viscid/amr_grid.py
@@ -55,8 +55,8 @@ class AMRSkeleton(object):
     L = None  # shape == (npatches x 3)
 
     nr_neighbors = None  # shape == (npatches)
-    neighbors = None  # shape == (npatches x 48)
-    neighbor_mask = None  # shape == (npatches x 48)
+    neighbors = None  # shape == (npatches x 56)
+    neighbor_mask = None  # shape == (npatches x 56)
 
     global_xl = None
     global_xh = None
diff --git a/viscid/cython/cyamr.pyx b/viscid/cython/cyamr.pyx
index 2649929..56e8705 100644
--- a/viscid/cython/cyamr.pyx
+++ b/viscid/cython/cyamr.pyx
@@ -32,10 +32,10 @@ def discover_neighbors(skel):
 
         * `nr_neighbors` (ndarray with shape (npatches,)): how many
           neighbors a patch has
-        * `neighbors` (int ndarray with shape (npatches, 48)): gives
+        * `neighbors` (int ndarray with shape (npatches, 56)): gives
           index of all the neighbors of a given patch. Empty values
           are filled with -1
-        * `neighbor_mask` (int ndarray with shape (npatches, 48)): Bit
+        * `neighbor_mask` (int ndarray with shape (npatches, 56)): Bit
           mask of the relationship to the neighboring patch. Touching
           in x is 1 or 2, touching in y is 3 or 4, touching in z is 5
           or 6. The lesser value is used if the neighboring patch is
@@ -50,9 +50,9 @@ def discover_neighbors(skel):
           `mask >> 6 == 0b110`
         * TODO: document the 6 least significant bits
     """
-    # 24 possible face neighbors, 16 edges, 8 corners; assumes grid is
+    # 24 possible face neighbors, 24 edges, 8 corners; assumes grid is
     # properly nested
-    cdef int max_neighbors = 24 + 16 + 8
+    cdef int max_neighbors = 24 + 24 + 8
     cdef int npatches = len(skel.patches)
     nr_neighbors = np.zeros(npatches, dtype='i')
     neighbors = -1 * np.ones((npatches, max_neighbors), dtype='i')
-- 
2.43.0


From 8826e7ad6127b3706f02d3c387e825793591fc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 076/177] fix: interpolation: limit the cached index to the
 size of the patch

---
 viscid/cython/cycalc.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/cython/cycalc.pyx b/viscid/cython/cycalc.pyx
index 76c2f28..c9ee763 100644
--- a/viscid/cython/cycalc.pyx
+++ b/viscid/cython/cycalc.pyx
@@ -257,7 +257,9 @@ cdef inline int closest_preceeding_ind(FusedField fld, int m, int d, real_t valu
     cdef real_t frac
     cdef int i, ind, found_ind
     cdef int n = fld.n[d]
-    cdef int startidx = cached_idx3[d]  # using fld.cached_ind is not threadsafe
+    # using fld.cached_ind is not threadsafe; the cached index may come from
+    # another AMR patch that has more points along this axis
+    cdef int startidx = int_min(cached_idx3[d], n - 1)
 
     if n == 1:
         ind = 0
-- 
2.43.0


From 922149dd9bfba625ee678a32833a67af3b16f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 077/177] fix: amr: reduce the values of all patches

---
 viscid/amr_field.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 511c0fc..d9ae0bb 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -299,7 +299,13 @@ class AMRField(object):
 
         if np.asarray(lst[0]).size == 1:
             # operation reduced to scalar
-            arr = np.array(lst)
+            if args:
+                arr = np.array(lst)
+            else:
+                # reduce all values at once since the reduction of the
+                # results is something else for mean, std, ptp, etc.
+                arr = np.concatenate([np.asarray(patch).reshape(-1)
+                                      for patch in self.patches])
             return getattr(arr, attrname)(**kwargs)
         else:
             return AMRField(lst, self.skeleton)
-- 
2.43.0


From 2234b3dfafa728e5dd4264bca569729fde57af5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 078/177] fix: amr: compare the upper corners of patches

---
 viscid/amr_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/amr_grid.py b/viscid/amr_grid.py
index a6f1a9d..039153c 100644
--- a/viscid/amr_grid.py
+++ b/viscid/amr_grid.py
@@ -137,7 +137,8 @@ class AMRSkeleton(object):
                 return False
             if not np.allclose(my_patch.xl, grid.crds.xl_nc):
                 return False
-            # if n and xl match... do i need to check xh?
+            if not np.allclose(my_patch.xh, grid.crds.xh_nc):
+                return False
             # if not np.allclose(my_patch.xh, grid.crds.xh_nc):
             #     return False
         # t1 = default_timer()
-- 
2.43.0


From 873d2dad2c35dc4a5bf5d5b18d65a41d54d14576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 079/177] fix: dataset: deferred children are context managers

---
 viscid/dataset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 3dfd009..3c4057a 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -182,6 +182,13 @@ class DeferredChild(object):
     def print_tree(self, depth=-1, prefix=""):
         print('{0}{1}'.format(prefix, self))
 
+    def __enter__(self):
+        return self
+
+    def __exit__(self, exc_type, value, traceback):
+        self.clear_cache()
+        return None
+
 
 class Dataset(tree.Node):
     """Datasets contain grids or other datasets
-- 
2.43.0


From a059b3c65c37c643aca56ce68ba3a3b8e9958e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 080/177] fix: sliceutil: use tdunit

---
 viscid/sliceutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index c5b4cb8..4a536c6 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -512,7 +512,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
             and not isinstance(std_sel.start, (np.datetime64, np.timedelta64))):
             ustart = std_sel.start
         else:
-            ustart, tol = _unify_sbv_types(std_sel.start, crd_arr, tdunit='s',
+            ustart, tol = _unify_sbv_types(std_sel.start, crd_arr, tdunit=tdunit,
                                            epoch=epoch)
             start_val = ustart
             diff = crd_arr - ustart + (tol * sgn)
@@ -540,7 +540,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
             and not isinstance(std_sel.stop, (np.datetime64, np.timedelta64))):
             ustop = std_sel.stop
         else:
-            ustop, tol = _unify_sbv_types(std_sel.stop, crd_arr, tdunit='s',
+            ustop, tol = _unify_sbv_types(std_sel.stop, crd_arr, tdunit=tdunit,
                                           epoch=epoch)
             stop_val = ustop
             diff = crd_arr - ustop - (tol * sgn)
@@ -581,7 +581,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
 
     else:
         # slice by single value or ndarray of single values (int, float, times)
-        usel, _ = _unify_sbv_types(std_sel, crd_arr, tdunit='s', epoch=epoch)
+        usel, _ = _unify_sbv_types(std_sel, crd_arr, tdunit=tdunit, epoch=epoch)
         if (isinstance(usel, (int, np.integer, type(None)))
             and not isinstance(usel, (np.datetime64, np.timedelta64))):
             idx = usel
-- 
2.43.0


From a8e178e394cd405a160f54cfdffd9682a06f0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 081/177] fix: sliceutil: ends of string selections and of
 slices past the end

---
 viscid/sliceutil.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 4a536c6..24ff0b0 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -756,6 +756,10 @@ def sel_list2values(arrs, sel_list, epoch=None, tdunit='s'):
     return [sel2values(arr, sel, epoch=epoch, tdunit=tdunit)
             for arr, sel in zip(arrs, sel_list)]
 
+def _clip_index(idx, n):
+    """indices past the ends of a slice mean the ends, as in python"""
+    return max(min(int(idx), n - 1), -n)
+
 def sel2values(arr, sel, epoch=None, tdunit='s'):
     """find the extrema values for a given selection
 
@@ -781,19 +785,20 @@ def sel2values(arr, sel, epoch=None, tdunit='s'):
     std_sel = standardize_sel(sel)
 
     if isinstance(std_sel, slice):
+        step = 1 if std_sel.step is None else std_sel.step
         if std_sel.start is None or hasattr(std_sel.start, '__index__'):
             if arr is None:
-                if std_sel.start is None and std_sel.step > 0:
+                if std_sel.start is None and step > 0:
                     ustart = -np.inf
-                elif std_sel.start is None and std_sel.step < 0:
+                elif std_sel.start is None and step < 0:
                     ustart = np.inf
                 else:
                     ustart = np.nan
             else:
                 if std_sel.start is None:
-                    idx = 0 if std_sel.step > 0 else -1
+                    idx = 0 if step > 0 else -1
                 else:
-                    idx = int(std_sel.start)
+                    idx = _clip_index(std_sel.start, len(arr))
                 ustart = arr[idx]
         else:
             ustart, _ = _unify_sbv_types(std_sel.start, arr, tdunit=tdunit,
@@ -801,17 +806,17 @@ def sel2values(arr, sel, epoch=None, tdunit='s'):
 
         if std_sel.stop is None or hasattr(std_sel.stop, '__index__'):
             if arr is None:
-                if std_sel.stop is None and std_sel.step > 0:
+                if std_sel.stop is None and step > 0:
                     ustop = np.inf
-                elif std_sel.stop is None and std_sel.step < 0:
+                elif std_sel.stop is None and step < 0:
                     ustop = -np.inf
                 else:
                     ustop = np.nan
             else:
                 if std_sel.stop is None:
-                    idx = -1 if std_sel.step > 0 else 0
+                    idx = -1 if step > 0 else 0
                 else:
-                    idx = int(std_sel.stop)
+                    idx = _clip_index(std_sel.stop, len(arr))
                 ustop = arr[idx]
         else:
             ustop, _ = _unify_sbv_types(std_sel.stop, arr, tdunit=tdunit,
-- 
2.43.0


From 90464985dbbb5cd7a2cf9c0e45196fea4454a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 082/177] fix: vutil: steps of sliced globs

---
 viscid/vutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index da5e442..af75e71 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -556,7 +556,7 @@ def slice_globbed_filenames(glob_pattern):
     dtime_re = sliceutil.RE_DTIME_SLC_GROUP
     number_re = r"[-+]?[0-9]*\.?[0-9]+[fjFJ]?|[-+]?[0-9+]"
     el_re = r"(?:{0}|{1})".format(dtime_re, number_re)
-    slc_re = r"\[({0})?(:({0}))?(:[-+]?[0-9]*)?\]".format(el_re)
+    slc_re = r"\[({0})?(:({0})?)?(:[-+]?[0-9]*)?\]".format(el_re)
     n_slices = len(re.findall(slc_re, glob_pattern))
 
     if n_slices > 1:
-- 
2.43.0


From 4f323f9c540f398960e0b2d4b3c1ed92aa6b3d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 083/177] fix: dataset: 0 is an index

---
 viscid/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 3c4057a..d34fd5d 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -734,7 +734,7 @@ class DatasetTemporal(Dataset):
         return child
 
     def __contains__(self, item):
-        if isinstance(item, int) and item > 0 and item < len(self.children):
+        if isinstance(item, int) and item >= 0 and item < len(self.children):
             return True
         if isinstance(item, string_types) and item[-1] == 'f':
             try:
-- 
2.43.0


From 342f660ee0415a57eb4d72f141ac723c9ae76eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 084/177] fix: tree: find_attr of parents

---
 viscid/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index b94713d..2b252cc 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -197,7 +197,7 @@ class Node(object):
         """
         def _condition(_node, _):
             return (hasattr(_node, attr_name) and
-                    getattr(parent, attr_name) is not NotImplemented)
+                    getattr(_node, attr_name) is not NotImplemented)
         parent = self._parent_bfs(_condition)
         if parent is not None:
             return getattr(parent, attr_name)
-- 
2.43.0


From a9aa9f8cfa612189a568c773ce586299c39f940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 085/177] fix: dataset: resolve the active child

---
 viscid/dataset.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index d34fd5d..d3d29be 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -347,7 +347,7 @@ class Dataset(tree.Node):
             logger.error("Could not get appropriate child...")
             return None
         else:
-            return child.iter_fields(time=time, fld_names=fld_names)
+            return child.resolve().iter_fields(time=time, fld_names=fld_names)
 
     def iter_field_items(self, time=None, fld_names=None):
         """ generator for (name, field) in the active dataset,
@@ -358,7 +358,7 @@ class Dataset(tree.Node):
             logger.error("Could not get appropriate child...")
             return None
         else:
-            return child.iter_field_items(time=time, fld_names=fld_names)
+            return child.resolve().iter_field_items(time=time, fld_names=fld_names)
 
     def field_dict(self, time=None, fld_names=None, **kwargs):
         """ fields as dict of {name: field} """
@@ -368,7 +368,7 @@ class Dataset(tree.Node):
             logger.error("Could not get appropriate child...")
             return None
         else:
-            return child.field_dict(time=time, fld_names=fld_names)
+            return child.resolve().field_dict(time=time, fld_names=fld_names)
 
     def print_tree(self, depth=-1, prefix=""):
         if prefix == "":
@@ -399,7 +399,7 @@ class Dataset(tree.Node):
             logger.error("Could not get appropriate child...")
             return None
         else:
-            return child.get_field(fldname, time=time, slc=slc)
+            return child.resolve().get_field(fldname, time=time, slc=slc)
 
     def get_grid(self, time=None):
         """ recurse down active children to get a field """
@@ -421,7 +421,7 @@ class Dataset(tree.Node):
         if item in self.children:
             return self.get_child(item)
         elif self.active_child is not None:
-            return self.active_child[item]
+            return self.active_child.resolve()[item]
         else:
             raise KeyError()
 
@@ -444,7 +444,7 @@ class Dataset(tree.Node):
         if item in self.children:
             return True
         # FIXME: this might cause a bug somewhere someday
-        if item in self.active_child:
+        if item in self.active_child.resolve():
             return True
         return False
 
@@ -656,7 +656,7 @@ class DatasetTemporal(Dataset):
             logger.error("Could not get appropriate child...")
             return None
         else:
-            return child.iter_fields(time=time, fld_names=fld_names)
+            return child.resolve().iter_fields(time=time, fld_names=fld_names)
 
     def iter_field_items(self, time=None, fld_names=None):
         """ generator for (name, field) in the active dataset,
@@ -670,7 +670,7 @@ class DatasetTemporal(Dataset):
             logger.error("Could not get appropriate child...")
             return None
         else:
-            return child.iter_field_items(time=time, fld_names=fld_names)
+            return child.resolve().iter_field_items(time=time, fld_names=fld_names)
 
     def field_dict(self, time=None, fld_names=None):
         """ fields as dict of {name: field} """
@@ -683,7 +683,7 @@ class DatasetTemporal(Dataset):
             logger.error("Could not get appropriate child...")
             return None
         else:
-            return child.field_dict(fld_names=fld_names)
+            return child.resolve().field_dict(fld_names=fld_names)
 
     def print_tree(self, depth=-1, prefix=""):
         if prefix == "":
@@ -709,7 +709,7 @@ class DatasetTemporal(Dataset):
             logger.error("Could not get appropriate child...")
             return None
         else:
-            return child.get_field(fldname, time=time, slc=slc)
+            return child.resolve().get_field(fldname, time=time, slc=slc)
 
     def get_grid(self, time=None):
         """ recurse down active children to get a field """
@@ -745,7 +745,7 @@ class DatasetTemporal(Dataset):
                     return False
             except ValueError:
                 pass
-        return item in self.active_child
+        return item in self.active_child.resolve()
 
     def iter_resolved_children(self):
         return (child[1].resolve() for child in self.children)
-- 
2.43.0


From 7e8a1b0e7d64afccbb8ac7e70ecd69dac1a7c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 086/177] fix: evaluator: exponents after a dot

---
 viscid/calculator/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/evaluator.py b/viscid/calculator/evaluator.py
index 963d3fa..dbc586d 100644
--- a/viscid/calculator/evaluator.py
+++ b/viscid/calculator/evaluator.py
@@ -91,7 +91,7 @@ def _evaluate_numexpr(grid, result_name, eqn, slc=Ellipsis):
     # salt symbols that don't look like math functions and look them up
     # in the grid
     salt = "SALT"
-    _symbol_re = r"\b([_A-Za-z][_a-zA-Z0-9]*)\b"
+    _symbol_re = r"(?<![0-9]\.)\b([_A-Za-z][_a-zA-Z0-9]*)\b"
     var_re = _symbol_re + r"(?!\s*\()"
     flds = []
     # for security
@@ -137,7 +137,7 @@ def _evaluate_numpy(grid, result_name, eqn, slc=Ellipsis):
 
     # salt variable names
     salt = "SALT"
-    _symbol_re = r"(['\"]?\b[_A-Za-z][_a-zA-Z0-9]*)\b"
+    _symbol_re = r"(?<![0-9]\.)(['\"]?\b[_A-Za-z][_a-zA-Z0-9]*)\b"
     var_re = _symbol_re + r"(?!\s*\()"
     # for security
     eqn = eqn.replace("__", "")
-- 
2.43.0


From d9177382fdafcd06c26b265628301f08f17563fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 087/177] fix: vfile_bucket: leave out files that cannot be
 read

---
 viscid/readers/vfile_bucket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index 207f1d9..f12d5dd 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -128,6 +128,7 @@ class VFileBucket(Bucket):
                         s += "              File Type: {0}\n".format(handle_name)
                         s += "              {0}".format(str(e))
                         logger.warning(s)
+                        continue
                     except ValueError as e:
                         # ... why am i explicitly catching ValueErrors?
                         # i'm probably breaking something by re-raising
-- 
2.43.0


From acb5b6b27de058d25fe690773f85fdc17dcbe38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 088/177] fix: parallel: size of chunks

---
 viscid/parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 0d146cd..1fb0eb7 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -80,7 +80,7 @@ def chunk_list(seq, nchunks, size=None):
     nel = len(seq)
 
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     ret = chunk_slices(nel, nchunks)
     for i in range(nchunks):
@@ -111,7 +111,7 @@ def chunk_slices(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
@@ -169,7 +169,7 @@ def chunk_sizes(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
-- 
2.43.0


From 77c1a62700b3052b6eda50e1a3f653dba34bfbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 089/177] fix: parallel: do not join a pool that was given

---
 viscid/parallel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 1fb0eb7..c233397 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -223,7 +223,8 @@ def map(nr_procs, func, args_iter, args_kw=None, timeout=1e8,
         ret = r.get(int(timeout))
         # in principle this join should return almost immediately since
         # we already called r.get
-        p.join()
+        if pool is None:
+            p.join()
 
     return ret
 
-- 
2.43.0


From 7f2baa64b031d175c6e5d823442415abd5e3b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 090/177] fix: parallel: context of non daemonic pools

---
 viscid/parallel.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index c233397..39442f0 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -30,11 +30,20 @@ class NoDaemonProcess(mp.Process):
         pass
     daemon = property(_get_daemon, _set_daemon)
 
+if hasattr(mp, "get_context"):
+    class NoDaemonContext(type(mp.get_context())):
+        Process = NoDaemonProcess
+
 class NoDaemonPool(multiprocessing.pool.Pool):  # pylint: disable=W0223
     """ I am vulnerable to armies of undead worker processes, chances
     are you don't actually want to use me
     """
-    Process = NoDaemonProcess
+    if hasattr(mp, "get_context"):
+        def __init__(self, *args, **kwargs):
+            kwargs['context'] = NoDaemonContext()
+            super(NoDaemonPool, self).__init__(*args, **kwargs)
+    else:
+        Process = NoDaemonProcess
 
 
 class _MapThread(threading.Thread):
-- 
2.43.0


From 80c60c874e9f9dcd326af9b8cb84dd594f964a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 091/177] fix: multiplot: subplot_params that are given

---
 viscid/multiplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/multiplot.py b/viscid/multiplot.py
index 93ea059..454b90c 100644
--- a/viscid/multiplot.py
+++ b/viscid/multiplot.py
@@ -53,6 +53,7 @@ def make_multiplot(vfile, plot_func=None, nr_procs=1, time_slice=":", **kwargs):
     args_kw["first_run"] = True
     args_kw["first_run_result"] = None
 
+    r = [None]
     if "subplot_params" not in args_kw.get("kwopts", {}):
         r = parallel.map(1, plot_func, [next(grid_iter)], args_kw=args_kw,
                          force_subprocess=(nr_procs > 1))
-- 
2.43.0


From f48b9d9f03d98548300dd5da4a1b08d4b5e3cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 092/177] fix: vjson: comments and commas in strings

---
 viscid/vjson.py | 65 ++++++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 36 deletions(-)

diff --git a/viscid/vjson.py b/viscid/vjson.py
index c83678c..bff4abb 100644
--- a/viscid/vjson.py
+++ b/viscid/vjson.py
@@ -73,42 +73,35 @@ def loads(text, **kwargs):
         text: json as a string
         **kwargs: passed to Python's :py:func:`json.loads`
     """
-    lines = text.split('\n')
-
-    last_nonempty = -1
-    for i in range(len(lines)):
-        # remove comments
-        for loc in find_all(lines[i], ('#', '//')):
-            # if there are an odd number of single or double quotes, then
-            # the comment char is part of a string, and should be kept
-            if (lines[i].count('"', 0, loc) % 2 == 0 and
-                lines[i].count("'", 0, loc) % 2 == 0):  # pylint: disable=bad-continuation
-                lines[i] = lines[i][:loc]
-                break
-
-        lines[i] = lines[i].rstrip()
-
-        # trailing comma?
-        if lines[i]:
-            remove_at = []
-            for loc in find_all(lines[i], ('}', ']')):
-                preceeding_txt = lines[i][:loc].rstrip()
-                # if no preceeding_txt on same line, check last_nonwhite
-                if not preceeding_txt:
-                    if last_nonempty > -1:
-                        if lines[last_nonempty][-1] == ',':
-                            lines[last_nonempty] = lines[last_nonempty][:-1]
-                else:
-                    if preceeding_txt[-1] == ',':
-                        remove_at.append(len(preceeding_txt) - 1)
-            for j, loc in enumerate(remove_at):
-                loc -= j
-                lines[i] = lines[i][:loc] + lines[i][loc + 1:]
-
-            if lines[i]:
-                last_nonempty = i
-
-    return _json.loads('\n'.join(lines), **kwargs)
+    out = []
+    last_comma = None  # index in out of a comma that nothing followed yet
+    i = 0
+    while i < len(text):
+        c = text[i]
+        if c == '#' or text.startswith('//', i):
+            # remove comments
+            while i < len(text) and text[i] != '\n':
+                i += 1
+            continue
+        elif c == '"':
+            # strings are kept as they are
+            start = i
+            i += 1
+            while i < len(text) and text[i] != '"':
+                i += 2 if text[i] == '\\' else 1
+            out.append(text[start:i + 1])
+            last_comma = None
+        else:
+            if c in '}]' and last_comma is not None:
+                out[last_comma] = ''  # trailing comma
+            if c == ',':
+                last_comma = len(out)
+            elif not c.isspace():
+                last_comma = None
+            out.append(c)
+        i += 1
+
+    return _json.loads(''.join(out), **kwargs)
 
 def load(f, **kwargs):
     """Read file and pass to :py:func:`loads`
-- 
2.43.0


From bf1ee700709dc82df1f7e5a5dd2a2955abc9d447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 093/177] fix: vpyplot: values of options with underscores

---
 viscid/plot/vpyplot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 7d1a0a6..4f57845 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -170,7 +170,8 @@ def plot_opts_to_kwargs(plot_opts, plot_kwargs):
                 # if opt[1:] are all strings, re-combine them since some legit
                 # options have underscores in them, like reversed cmap names
                 try:
-                    opt[1:] = "_".join(opt[1:])
+                    plot_kwargs[opt[0]] = "_".join(opt[1:])
+                    continue
                 except TypeError:
                     pass
                 plot_kwargs[opt[0]] = opt[1:]
-- 
2.43.0


From 71ff5aece1f2fe8d7a3a031c4e402a88e21662a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 094/177] fix: mpause: field on the magnetosphere side

---
 viscid/calculator/mpause.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/mpause.py b/viscid/calculator/mpause.py
index ee819bd..8b126c9 100644
--- a/viscid/calculator/mpause.py
+++ b/viscid/calculator/mpause.py
@@ -219,14 +219,14 @@ def get_mp_info(pp, b, j, e, cache=True, cache_dir=None,
             ic, _, iy, iz = np.ix_(*[np.arange(si) for si in b_block.shape])
             ix = np.clip(sheath_ind + step, 0, nx - 1)
             b_sheath = b_block.data[ic, ix, iy, iz]
-            ix = np.clip(sheath_ind - step, 0, nx - 1)
+            ix = np.clip(sphere_ind - step, 0, nx - 1)
             b_sphere = b_block.data[ic, ix, iy, iz]
         elif b_block.layout == "interlaced":
             comp_axis = 3
             _, iy, iz = np.ix_(*[np.arange(si) for si in b_block.shape[:-1]])
             ix = np.clip(sheath_ind + step, 0, nx - 1)
             b_sheath = b_block.data[ix, iy, iz]
-            ix = np.clip(sheath_ind - step, 0, nx - 1)
+            ix = np.clip(sphere_ind - step, 0, nx - 1)
             b_sphere = b_block.data[ix, iy, iz]
         # extract b**2
         bmag_sheath = np.sqrt(np.sum(b_sheath**2, axis=comp_axis))
-- 
2.43.0


From c6fd3f7fe8150cf35ec59124bd524dcf7b77e855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 095/177] fix: minvar: basis antiparallel to the normal

---
 viscid/calculator/minvar_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/calculator/minvar_tools.py b/viscid/calculator/minvar_tools.py
index 344ff7b..35d9a9b 100644
--- a/viscid/calculator/minvar_tools.py
+++ b/viscid/calculator/minvar_tools.py
@@ -135,7 +135,8 @@ def _minvar_lmn_directions(evec_min, evec_max, l_basis=(0, 0, 1)):
 
     try:
         l_basis = np.array(l_basis).reshape((3,))
-        if np.allclose(n_dir, l_basis / np.linalg.norm(l_basis)):
+        l_hat = l_basis / np.linalg.norm(l_basis)
+        if np.allclose(n_dir, l_hat) or np.allclose(n_dir, -l_hat):
             viscid.logger.warning("LMN says l_basis is parallel to normal, using "
                                   "MVAs max eigenvector direction")
             raise ValueError
-- 
2.43.0


From 147f45f2e9b3d91d3bc2a2582a715b703717ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 096/177] fix: mpause: masked currents have no part in the
 maximum

---
 viscid/calculator/mpause.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/mpause.py b/viscid/calculator/mpause.py
index 8b126c9..7f59a53 100644
--- a/viscid/calculator/mpause.py
+++ b/viscid/calculator/mpause.py
@@ -328,7 +328,7 @@ def find_mp_edges(j_block, msphere_thresh=0.1, sheath_thresh=0.1,
     masked_jy = 1.0 * j_block['y']
     masked_jy.data = np.ma.masked_where(jy_mask, j_block['y'])
 
-    jy_absmax = np.amax(np.abs(masked_jy), axis=0, keepdims=True)
+    jy_absmax = np.amax(abs(masked_jy), axis=0, keepdims=True)
 
     msphere_mask = (masked_jy > msphere_thresh * jy_absmax)
     sheath_mask = (masked_jy > sheath_thresh * jy_absmax)
-- 
2.43.0


From 2432fd839ca4b8570ae93536230032a51b33b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 097/177] fix: null finder: corners of faces

---
 viscid/cython/null_tools.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index cd52548..80d607c 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -208,7 +208,7 @@ def _py_find_null_cells_from_candidates(real_t[:, :, :, ::1] f,
     cdef int* ozc = [0, 1, 1, 1, 0, 0]
 
     cdef int* oxd = [1, 1, 0, 1, 1, 1]
-    cdef int* oyd = [0, 0, 1, 1, 0, 1]
+    cdef int* oyd = [1, 1, 1, 1, 0, 1]
     cdef int* ozd = [0, 1, 1, 1, 1, 1]
     cdef int[:, ::1] permuted_comps = np.array([[0, 1, 2], [1, 2, 0], [2, 0, 1]],
                                                dtype="int32")
-- 
2.43.0


From 1855131342ccb52e66cbfcdbc2015c8eff1400f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 098/177] fix: null finder: single precision and no nulls

---
 viscid/cython/null_tools.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index 80d607c..8740fbf 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -103,8 +103,9 @@ def _reduce_candidates(fld, ibound=0.0):
     # these crds are same centering as fld
     dat = fld.as_interlaced().data
     x, y, z = fld.get_crds("xyz")
+    x, y, z = [np.asarray(crd, dtype=dat.dtype) for crd in (x, y, z)]
     candidate_inds = _py_reduce_candidates(dat, x, y, z, ibound)
-    return np.array(candidate_inds)
+    return np.array(candidate_inds, dtype='l')
 
 def _find_null_cells_from_candidates(fld, inds):
     assert fld.nr_sdims == 3
@@ -113,7 +114,8 @@ def _find_null_cells_from_candidates(fld, inds):
     # iys = np.array(iys, dtype='int32', copy=False)
     # ixs = np.array(ixs, dtype='int32', copy=False)
     dat = fld.as_interlaced().data
-    null_inds = np.array(_py_find_null_cells_from_candidates(dat, inds))
+    null_inds = np.array(_py_find_null_cells_from_candidates(dat, inds),
+                         dtype='l')
     x, y, z = fld.get_crds()
     null_pts = np.zeros_like(null_inds).astype(dat.dtype)
     null_pts[0, :] = x[null_inds[0, :]]
-- 
2.43.0


From a0f4d6f5bc353a41f20a422e22dd6676999d25b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 099/177] fix: null finder: roots of aligned and linear fields

---
 viscid/cython/null_tools.pyx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index 8740fbf..038c017 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -316,9 +316,9 @@ cdef inline find_roots_face(real_t a1, real_t b1, real_t c1, real_t d1,
         desc = b**2 - (4.0 * a * c)
         if desc > 0.0:
             # il y a deux solutions
-            rootx1 = (-b + np.sqrt(desc)) / (2.0 * a)
-            rootx2 = (-b - np.sqrt(desc)) / (2.0 * a)
-            roots_x = np.array([rootx1, rootx2])
+            # a can be roundoff if the field is linear, so avoid cancellation
+            q = -0.5 * (b + np.copysign(np.sqrt(desc), b))
+            roots_x = np.array([q / a, c / q])
             # print("::", roots_x)
         elif desc == 0.0:
             # il y a seulment une solution
@@ -328,7 +328,11 @@ cdef inline find_roots_face(real_t a1, real_t b1, real_t c1, real_t d1,
             roots_x = np.array([])
             # print("::", roots_x)
 
-    roots_y = - (a1 + b1 * roots_x) / (c1 + d1 * roots_x)
+    # use the equation in which y matters more, the other might not depend on y
+    num1, den1 = a1 + b1 * roots_x, c1 + d1 * roots_x
+    num2, den2 = a2 + b2 * roots_x, c2 + d2 * roots_x
+    use1 = np.abs(den1) >= np.abs(den2)
+    roots_y = - np.where(use1, num1, num2) / np.where(use1, den1, den2)
 
     # remove roots that are outside the box
     keep = ((roots_x >= 0.0) & (roots_x <= 1.0) &
-- 
2.43.0


From 69f73c1b7d62e2ba23d20a045ade911b09a3df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 100/177] fix: cluster: average of all points

---
 viscid/calculator/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/cluster.py b/viscid/calculator/cluster.py
index dab6824..8c08168 100644
--- a/viscid/calculator/cluster.py
+++ b/viscid/calculator/cluster.py
@@ -121,7 +121,7 @@ def find_clusters(indx, indy, x, y, multiple=True, periodic=(False, False),
                 cli.append([[ix], [iy]])
                 clx.append([[x[ix]], [y[iy]]])
     else:
-        clx = [[x[inds[0, :]], y[inds[1, :]]]]
+        clx = [[crds[0][inds[:, 0]], crds[1][inds[:, 1]]]]
 
     pts = np.array([np.average(clxi, axis=1) for clxi in clx]).reshape((-1, 2))
     pts -= pdL * np.floor((pts - xl) / (xh - xl))
-- 
2.43.0


From 608b374eec4ba495c007554fdc3dd7d6d30d1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 101/177] fix: cluster: neighbors across both seams

---
 viscid/calculator/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/calculator/cluster.py b/viscid/calculator/cluster.py
index 8c08168..b17b7c3 100644
--- a/viscid/calculator/cluster.py
+++ b/viscid/calculator/cluster.py
@@ -80,7 +80,8 @@ def find_clusters(indx, indy, x, y, multiple=True, periodic=(False, False),
     if pd[1]:
         alt += [(0, -pdN[1]), (0, pdN[1])]
     if pd[0] and pd[1]:
-        alt += [(-pdN[0], -pdN[1]), (pdN[0], pdN[1])]
+        alt += [(-pdN[0], -pdN[1]), (pdN[0], pdN[1]),
+                (-pdN[0], pdN[1]), (pdN[0], -pdN[1])]
 
     # cli == cluster indices, clx == cluster locations
     clx = []
-- 
2.43.0


From 69c541788941d9321597ce8ed4dda8b2a041e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 102/177] fix: separator: perimeter_check of quadrants

---
 viscid/calculator/separator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viscid/calculator/separator.py b/viscid/calculator/separator.py
index cc7bab3..0fcf48c 100644
--- a/viscid/calculator/separator.py
+++ b/viscid/calculator/separator.py
@@ -418,6 +418,7 @@ def _get_sep_pts_bisect(fld, seed, trace_opts=None, min_depth=3, max_depth=7,
             subquads = _get_sep_pts_bisect(fld, seed, trace_opts=trace_opts,
                                            min_depth=min_depth,
                                            max_depth=max_depth, plot=plot,
+                                           perimeter_check=perimeter_check,
                                            _base_quadrent=next_quad,
                                            _uneven_mask=0,
                                            _first_recurse=False)
@@ -438,7 +439,9 @@ def _get_sep_pts_bisect(fld, seed, trace_opts=None, min_depth=3, max_depth=7,
         elif perimeter_check(perimeter):
             ret = _get_sep_pts_bisect(fld, seed, trace_opts=trace_opts,
                                       min_depth=min_depth, max_depth=max_depth,
-                                      plot=plot, _base_quadrent=_base_quadrent,
+                                      plot=plot,
+                                      perimeter_check=perimeter_check,
+                                      _base_quadrent=_base_quadrent,
                                       _uneven_mask=UNEVEN_MASK,
                                       _first_recurse=False)
             required_uneven_subquads = True
-- 
2.43.0


From 02d7009ce37780cb253199c6d4070c4986616709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 103/177] fix: separator: boundaries that are points

---
 viscid/calculator/separator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/separator.py b/viscid/calculator/separator.py
index 0fcf48c..05e137d 100644
--- a/viscid/calculator/separator.py
+++ b/viscid/calculator/separator.py
@@ -182,9 +182,9 @@ def topology_bitor_clusters(fld, min_depth=1, max_depth=10, multiple=True,
         # bitwise_or an entire bounary if all points are neighbors, like
         # at the poles of a sphere
         for bnd in pt_bnds:
-            slc = (slice(None), slice(None))
+            slc = [slice(None), slice(None)]
             slc[int(bnd[0])] = -1 if bnd[1] == "+" else 0
-            a[slc] = np.bitwise_or.reduce(a[slc])
+            a[tuple(slc)] = np.bitwise_or.reduce(a[tuple(slc)])
 
         indx, indy = np.where(a == sep_val)
         if i + 1 >= min_depth and len(indx):
-- 
2.43.0


From 3950c210544657d8731f745eaa03a3017f975e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 104/177] fix: separator: do not change the topology

---
 viscid/calculator/separator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/separator.py b/viscid/calculator/separator.py
index 05e137d..799aadb 100644
--- a/viscid/calculator/separator.py
+++ b/viscid/calculator/separator.py
@@ -165,7 +165,7 @@ def topology_bitor_clusters(fld, min_depth=1, max_depth=10, multiple=True,
     fld = fld.slice_reduce(":")
     if mask_limit:
         fld = np.bitwise_and(fld, mask_limit)
-    a = fld.data
+    a = np.array(fld.data)
     x, y = fld.get_crds()
 
     for i in range(max_depth):
-- 
2.43.0


From ca9c092340475ad550b5abadfdaa54a01c0dca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 105/177] fix: seed: partial spheres are not periodic

---
 viscid/seed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index 04b4f31..47ddc53 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -987,7 +987,7 @@ class Sphere(SeedGen):
             else:
                 return ("1", False)
         else:
-            return ()
+            return (False, False)
 
     def _resolve_theta_endpoints(self):
         if self.theta_endpoint == 'auto':
-- 
2.43.0


From 1cc3bbcbde64f49ff625bd7283aa9bfe3ec7b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 106/177] fix: resample_lines: whole numbers of points, into a
 new list

---
 viscid/calculator/calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 94732dc..8d8ca21 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -389,9 +389,10 @@ def resample_lines(lines, factor=1, kind="linear"):
     elif factor == 1:
         return lines
 
+    lines = list(lines)
     for i, line in enumerate(lines):
         nr_sdims, nold = line.shape
-        nnew = np.ceil(factor * (nold - 1)) + 1
+        nnew = int(np.ceil(factor * (nold - 1))) + 1
         newline = np.empty((nr_sdims, nnew), dtype=line.dtype)
         sold = np.linspace(0, 1, nold)
         snew = np.linspace(0, 1, nnew)
-- 
2.43.0


From f85189388211b7500fc5814cfc07d2ff01c90845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 107/177] fix: project_along_line: direction at the last point

---
 viscid/calculator/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 8d8ca21..aca236b 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -426,7 +426,7 @@ def project_along_line(line, fld, interp_kind='trilin'):
     #        maybe that's not the bug, but there must be something wrong
     #        here as indicated by kris_scripts/work/iono_xi_mismatch/analytic_pot.py
     dsvec = line[:, 2:] - line[:, :-2]
-    dsvec = np.concatenate([dsvec[:, 0:1], dsvec, dsvec[:, -2:-1]], axis=1)
+    dsvec = np.concatenate([dsvec[:, 0:1], dsvec, dsvec[:, -1:]], axis=1)
     dsvec = dsvec / np.linalg.norm(dsvec, axis=0)
     return np.sum(fld_on_verts * dsvec.T, axis=1)
 
-- 
2.43.0


From b7f07ecf04e5ff2492ad033e745fedd204089d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 108/177] fix: integrate_along_lines: magnitudes of all lines
 but the first

---
 viscid/calculator/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index aca236b..1563a82 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -486,7 +486,7 @@ def integrate_along_lines(lines, fld, reduction="dot", mask_func=None,
                 values = np.sum(values, axis=1)
             elif reduction in ["mag", "magnitude", "norm"]:
                 mag = np.linalg.norm(fld_on_verts[start:stop], axis=1)
-                values = 0.5 * (mag[start:stop - 1] + mag[start + 1:stop])
+                values = 0.5 * (mag[:-1] + mag[1:])
             else:
                 raise ValueError("Unknown reduction: {0}".format(reduction))
         else:
-- 
2.43.0


From 4d6535dd4f5eaf116c1ea2860a240a80f70b73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 109/177] fix: resolve_path: first match of the whole path

---
 viscid/vutil.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index af75e71..84706b6 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -212,8 +212,6 @@ def resolve_path(dset, loc, first=False):
                             next_dsets.append(val)
                             next_searches.append(search[1:])
                             next_paths.append(path + [key])
-                            if first:
-                                break
             dsets = next_dsets
             searches = next_searches
             paths = next_paths
-- 
2.43.0


From e9c0a0914dc13266a66437f52d580a8b6e38db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 110/177] fix: prepare_lines: leave given scalars alone

---
 viscid/vutil.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index 84706b6..db0dc37 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -365,10 +365,7 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
             elif isinstance(scalars, np.ndarray):
                 scalars = scalars
             else:
-                for i, si in enumerate(scalars):
-                    if not isinstance(si, np.ndarray):
-                        scalars[i] = np.asarray(si)
-                    scalars[i] = np.atleast_2d(scalars[i])
+                scalars = [np.atleast_2d(si) for si in scalars]
                 try:
                     scalars = np.concatenate(scalars, axis=0)
                 except ValueError:
-- 
2.43.0


From 547e41c9db0bbfab6236fe40938cd139b232d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 111/177] fix: prepare_lines: colors of vertices

---
 viscid/vutil.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index db0dc37..a2e1c6e 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -404,10 +404,9 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
             scalars = np.concatenate(colors, axis=1)
         elif scalars.shape in [(3, N), (N, 3), (4, N), (N, 4)]:
             # one rgb(a) color for each vertex
-            if (scalars.shape in [(3, N), (4, N)] and
-                scalars.shape not in [(3, 3), (4, 4)]):
-                # the guard against shapes (3, 3) and (4, 4) mean that
-                # these square shapes are assumed N x {3,4}
+            if scalars.shape in [(N, 3), (N, 4)]:
+                # note that square shapes (3, 3) and (4, 4) are assumed
+                # to be N x {3,4}
                 scalars = scalars.T
         elif scalars.shape in [(1, 3), (3, 1), (1, 4), (4, 1)]:
             # interpret a single rgb(a) color, and repeat/broadcast it
-- 
2.43.0


From 7029d156c73f7fb997600d6e77a7d2e1efc4a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 112/177] fix: follow_fluid: weights of the two times, and
 slices of one time

---
 viscid/fluidtrace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/fluidtrace.py b/viscid/fluidtrace.py
index a60cb5a..95dda2a 100644
--- a/viscid/fluidtrace.py
+++ b/viscid/fluidtrace.py
@@ -236,10 +236,10 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
 
         # get / calculate fields for each key at the current time
         if grid0 is grid1:
-            flds = [grid0[key] for key in fld_keys]
+            flds = [grid0[k][fld_slc] for k in fld_keys]
         else:
-            a = frac_interp
-            b = 1.0 - frac_interp
+            a = 1.0 - frac_interp
+            b = frac_interp
             flds = [viscid.axpby(a, grid0[k][fld_slc], b, grid1[k][fld_slc])
                     for k in fld_keys]
         anc_fields = OrderedDict([(k, v) for k, v in zip(anc_keys, flds[1:])])
-- 
2.43.0


From 461ba3c63355d1105e83fa9308c85bfdba37fa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 113/177] fix: calc_streamlines: no seeds

---
 viscid/cython/streamline.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index b16d782..a079fc4 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -499,7 +499,9 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
     # t0_all = time()
 
     seed_iter = islice(seed.iter_points(center=seed_center), *seed_slice)
-    seed_pts = np.array(list(seed_iter), dtype=amrfld.crd_dtype)
+    seed_lst = list(seed_iter)
+    # note that there could be no seeds
+    seed_pts = np.array(seed_lst or np.empty((0, 3)), dtype=amrfld.crd_dtype)
 
     assert seed_pts.shape[1] == 3, "Seeds must have 3 spatial dimensions"
 
-- 
2.43.0


From 5d8502561aad135446fb31d3dec36df54d6cb0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 114/177] fix: SeedCurator: copy the bounds

---
 viscid/fluidtrace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/fluidtrace.py b/viscid/fluidtrace.py
index 95dda2a..7298483 100644
--- a/viscid/fluidtrace.py
+++ b/viscid/fluidtrace.py
@@ -46,6 +46,9 @@ class SeedCurator(object):
             if self.obound1 is None:
                 self.obound1 = v_field.crds.xh_nc
 
+            self.obound0 = np.array(self.obound0, dtype='f8')
+            self.obound1 = np.array(self.obound1, dtype='f8')
+
             _invar_dim_mask = np.array(v_field.sshape) == 1
             self.obound0[_invar_dim_mask] = -np.inf
             self.obound1[_invar_dim_mask] = np.inf
-- 
2.43.0


From b4fba811a0201cd3118b1fc910768758dd78095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 115/177] fix: ContinuousCurator: cadence backward in time

---
 viscid/fluidtrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/fluidtrace.py b/viscid/fluidtrace.py
index 7298483..e6c9590 100644
--- a/viscid/fluidtrace.py
+++ b/viscid/fluidtrace.py
@@ -107,7 +107,7 @@ class ContinuousCurator(SeedCurator):
         if self.last_run is None:
             self.last_run = time
 
-        if time - self.last_run > self.cadence:
+        if np.abs(time - self.last_run) > self.cadence:
             delmask = self._update_delmask_oob(v_field, seeds, delmask=delmask)
             seeds = np.concatenate([seeds[:, ~delmask], self.new_seeds], axis=1)
             self.last_run = time
-- 
2.43.0


From add912f2faf2e798b34d4b4e564de24f87d326b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 116/177] fix: follow_fluid: leave points and options alone

---
 viscid/fluidtrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/viscid/fluidtrace.py b/viscid/fluidtrace.py
index e6c9590..8de5467 100644
--- a/viscid/fluidtrace.py
+++ b/viscid/fluidtrace.py
@@ -226,8 +226,11 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
     if np.any(np.sign(np.diff(times)) != tdir):
         raise RuntimeError("times is not monotonic")
 
+    stream_opts = dict(stream_opts)
+    stream_opts.setdefault('method', 'rk45')
+
     i = 0
-    seeds = initial_seeds.get_points()
+    seeds = np.array(initial_seeds.get_points())
 
     while tdir * (t - tstop) <= 0.0:
         idx0 = max(np.sum(tdir * (times - t) < 0.0) - 1, 0)
@@ -250,8 +253,6 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
         t_next_interp = t + tdir * dt_interp
 
         while tdir * (t - t_next_interp) < 0 and tdir * (t - tstop) <= 0.0:
-            if 'method' not in stream_opts:
-                stream_opts['method'] = 'rk45'
             vpaths = viscid.calc_streamlines(tdir * speed_scale * flds[0], seeds,
                                              max_t=dt,
                                              output=viscid.OUTPUT_STREAMLINES,
-- 
2.43.0


From 0efd0b7a6df287839959a4d8fe0aafa11185abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 117/177] fix: follow_fluid: return the points

---
 viscid/fluidtrace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/fluidtrace.py b/viscid/fluidtrace.py
index 8de5467..70adcb7 100644
--- a/viscid/fluidtrace.py
+++ b/viscid/fluidtrace.py
@@ -270,6 +270,8 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
             seeds = curator.update(flds[0], seeds, time=t)
             t += tdir * dt
 
+    return seeds
+
 def _main():
     import os
     from viscid.plot import vpyplot as vlt
-- 
2.43.0


From 5f3426412676e31cba41c063372c8d545ad4c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 118/177] fix: contour plots don't change the coordinates of
 fields

---
 viscid/plot/vpyplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 4f57845..7df3498 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -459,6 +459,7 @@ def _plot2d_single(ax, fld, style, namex, namey, mod, scale,
             # this is a hack to get rid or the white space
             # between patches when contouring
             Xnc, Ync = fld.get_crds_nc((namex, namey))
+            X, Y = np.array(X), np.array(Y)
             X[0], X[-1] = Xnc[0], Xnc[-1]
             Y[0], Y[-1] = Ync[0], Ync[-1]
 
-- 
2.43.0


From b4b22692b4de5248736513fbc899b96a61c3ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 119/177] fix: plots with mod don't change the coordinates of
 fields

---
 viscid/plot/vpyplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 7df3498..63b296c 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -467,8 +467,8 @@ def _plot2d_single(ax, fld, style, namex, namey, mod, scale,
         # translate latitude from 0..180 to -90..90
         X, Y = np.meshgrid(X, 90 - Y)
     if mod:
-        X *= mod[0]
-        Y *= mod[1]
+        X = X * mod[0]
+        Y = Y * mod[1]
 
     dat = fld.data.T
     if scale is not None:
-- 
2.43.0


From 718f33f2409f951cdf08f0691efb2102991d6bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 120/177] fix: plots with scale don't change the data of fields

---
 viscid/plot/vpyplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 63b296c..4103bd6 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -472,7 +472,7 @@ def _plot2d_single(ax, fld, style, namex, namey, mod, scale,
 
     dat = fld.data.T
     if scale is not None:
-        dat *= scale
+        dat = dat * scale
     if masknan:
         dat = np.ma.masked_where(np.isnan(dat), dat)
         all_masked = all_masked and dat.mask.all()
-- 
2.43.0


From bbf49cf0bcb9910031f34d8e037caa8a6077a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 121/177] fix: 2d plots: scale the limits of axes by mod

---
 viscid/plot/vpyplot.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 4103bd6..f4af7ff 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -612,18 +612,19 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     tightlim = plot_kwargs.pop('tightlim', plot_kwargs.pop('tightlims', True))
     _proj = getattr(ax, "transProjection", None)
     if tightlim and (_proj is None or 'identity' in _proj.__class__.__name__.lower()):
-        _xl = np.array(fld.xl[:2])
-        _xh = np.array(fld.xh[:2])
+        _mod = plot_kwargs.get("mod", None) or (1.0, 1.0)
+        _xl = [fld.xl[0] * _mod[0], fld.xl[1] * _mod[1]]
+        _xh = [fld.xh[0] * _mod[0], fld.xh[1] * _mod[1]]
         if 'x' not in plot_kwargs:
             if flip_plot:
-                plot_kwargs['x'] = (fld.xl[1], fld.xh[1])
+                plot_kwargs['x'] = (_xl[1], _xh[1])
             else:
-                plot_kwargs['x'] = (fld.xl[0], fld.xh[0])
+                plot_kwargs['x'] = (_xl[0], _xh[0])
         if 'y' not in plot_kwargs:
             if flip_plot:
-                plot_kwargs['y'] = (fld.xl[0], fld.xh[0])
+                plot_kwargs['y'] = (_xl[0], _xh[0])
             else:
-                plot_kwargs['y'] = (fld.xl[1], fld.xh[1])
+                plot_kwargs['y'] = (_xl[1], _xh[1])
 
     actions, norm_dict = _extract_actions_and_norm(ax, plot_kwargs,
                                                    defaults={'axis': _axis})
-- 
2.43.0


From 6cd1215d2e144d9003ba889cdde271de37fada25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 122/177] fix: 2d plots: limits of the colors are those of
 scaled data

---
 viscid/plot/vpyplot.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index f4af7ff..f04d313 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -703,10 +703,15 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
         vscale = norm_dict['vscale']
         vmin, vmax = norm_dict['clim']
 
+        # limits that aren't given are those of the data as it is plotted
+        datlim = np.array([np.nanmin([np.nanmin(blk) for blk in fld.patches]),
+                           np.nanmax([np.nanmax(blk) for blk in fld.patches])])
+        if scale is not None:
+            datlim = np.sort(datlim * scale)
         if vmin is None:
-            vmin = np.nanmin([np.nanmin(blk) for blk in fld.patches])
+            vmin = datlim[0]
         if vmax is None:
-            vmax = np.nanmax([np.nanmax(blk) for blk in fld.patches])
+            vmax = datlim[1]
 
         # vmin / vmax will only be nan if all values are nan
         if np.isnan(vmin) or np.isnan(vmax):
-- 
2.43.0


From 69c3c66d74a9b7370abee9683e1bc6e70073d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 123/177] fix: 2d plots: recognize LogNorms

---
 viscid/plot/vpyplot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index f04d313..5d5f216 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -748,10 +748,10 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
         if norm is not None:
             plot_kwargs['norm'] = norm
     else:
-        if isinstance(norm, Normalize):
-            vscale = "lin"
-        elif isinstance(norm, LogNorm):
+        if isinstance(norm, LogNorm):
             vscale = "log"
+        elif isinstance(norm, Normalize):
+            vscale = "lin"
         else:
             raise TypeError("Unrecognized norm type: {0}".format(type(norm)))
         vmin, vmax = norm.vmin, norm.vmax
-- 
2.43.0


From a499c82fec87b7a2617ff55dd96b38f779ba7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 124/177] fix: 2d plots: use xlabel and ylabel

---
 viscid/plot/vpyplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 5d5f216..49c8aec 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -870,9 +870,9 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
         x_is_shared, y_is_shared = _are_xy_shared(ax)
         bottom_most, left_most = _ax_on_edge(ax)
         if not x_is_shared or (x_is_shared and bottom_most):
-            ax.set_xlabel(namex)
+            ax.set_xlabel(xlabel)
         if not y_is_shared or (y_is_shared and left_most):
-            ax.set_ylabel(namey)
+            ax.set_ylabel(ylabel)
 
     _apply_axfmt(ax, majorfmt=majorfmt, minorfmt=minorfmt,
                  majorloc=majorloc, minorloc=minorloc)
-- 
2.43.0


From 7a0ba1211244500d73979e16292acba87ac4d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 125/177] fix: 1d plots: scale integers too

---
 viscid/plot/vpyplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 49c8aec..af7e957 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1331,9 +1331,9 @@ def plot1d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     x, dat = ax_arrs
 
     if mod:
-        x *= mod
+        x = x * mod
     if scale:
-        dat *= scale
+        dat = dat * scale
     if masknan:
         dat = np.ma.masked_where(np.isnan(dat), dat)
     p = ax.plot(x, dat, **plot_kwargs)
-- 
2.43.0


From d5900f5f60e62d71e5ffafc9b7672534b841a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 126/177] fix: 1d plots: symmetric limits of data with nans

---
 viscid/plot/vpyplot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index af7e957..3a4ce58 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1351,7 +1351,8 @@ def plot1d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     if norm_dict['symmetric']:
         if norm_dict['vscale'] == 'log':
             raise ValueError("log scale can't be symmetric about 0")
-        maxval = max(abs(max(dat)), abs(min(dat))) + 0.05 * (max(dat) - min(dat))
+        datmin, datmax = np.nanmin(dat), np.nanmax(dat)
+        maxval = max(abs(datmax), abs(datmin)) + 0.05 * (datmax - datmin)
         vmin, vmax = -maxval, maxval
     if norm_dict['vscale'] is not None:
         if vmin is not None or vmax is not None:
-- 
2.43.0


From 1756af7d7ce8b101a8d5775b203421d79173af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 127/177] fix: 1d plots: use the location of the legend

---
 viscid/plot/vpyplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 3a4ce58..33bb929 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1374,7 +1374,7 @@ def plot1d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     if legend:
         if isinstance(legend, bool):
             legend = 0
-        ax.legend(loc=0)
+        ax.legend(loc=legend)
 
     plt.sca(ax)
     if show:
-- 
2.43.0


From 33e60e724db4594af0adb3ed954068739ce274e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 128/177] fix: plot2d_line: accept zloc

---
 viscid/plot/vpyplot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 33bb929..f5b1a81 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1382,7 +1382,8 @@ def plot1d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     return p, None
 
 def plot2d_line(line, scalars=None, **kwargs):
-    if scalars is not None:
+    if scalars is not None and not (isinstance(scalars, viscid.string_types) and
+                                    scalars == 'zloc'):
         scalars = [scalars]
     return plot2d_lines([line], scalars=scalars, **kwargs)
 
-- 
2.43.0


From 581d1bf22d258e99918e16cb9f3fe172ab925fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 129/177] fix: plot2d_lines: find the plane from vertices

---
 viscid/plot/vpyplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index f5b1a81..ade14dc 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1447,7 +1447,7 @@ def plot2d_lines(lines, scalars=None, symdir="", ax=None,
     verts, segments, vert_scalars, seg_scalars, vert_colors, seg_colors, _ = r
     # alpha = other['alpha']
 
-    xind, yind, zind = _xyzind_from_symdir(segments, symdir)
+    xind, yind, zind = _xyzind_from_symdir(verts, symdir)
 
     if flip_plot:
         xind, yind = yind, xind
-- 
2.43.0


From 0424c1e928f2c559d5a5946890b4e7da65087920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 130/177] fix: plot2d_quiver: find the first arrows from the
 shape in space

---
 viscid/plot/vpyplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index ade14dc..742ad4e 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1632,8 +1632,8 @@ def plot2d_quiver(fld, step=1, ax=None, axis='none', equal=False, **kwargs):
     # get stepd scalar fields for the vector components in the plane
     if not hasattr(step, "__getitem__") or len(step) < 2:
         step = np.array([step, step]).reshape(-1)
-    first_l = (fld.shape[0] % step[0]) // 2
-    first_m = (fld.shape[1] % step[1]) // 2
+    first_l = (fld.sshape[0] % step[0]) // 2
+    first_m = (fld.sshape[1] % step[1]) // 2
     vl = fld[l][first_l::step[0], first_m::step[1]]
     vm = fld[m][first_l::step[0], first_m::step[1]]
 
-- 
2.43.0


From b255a7548d683b621129311932334e6e15c863f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 131/177] fix: plot_earth: use the sign of the plane, and the
 sunward side in gse

---
 viscid/plot/vpyplot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 742ad4e..acb817b 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1891,7 +1891,7 @@ def plot_earth(plane_spec, ax=None, scale=1.0, rot=0,
                              "2d \nplane, we're in and can't figure out the "
                              "size of earth.")
                 return None
-        value = np.min(np.abs(values))
+        value = min(values, key=abs)
     else:
         plane, value = [s.strip() for s in plane_spec.split("=")]
         value = float(value)
@@ -1915,7 +1915,8 @@ def plot_earth(plane_spec, ax=None, scale=1.0, rot=0,
         ax.add_patch(mpatches.Wedge((0, 0), radius, 270 + rot, 450 + rot,
                                     ec=nightcol, fc=nightcol, zorder=zorder))
     elif plane == 'x':
-        if value < 0:
+        sunward = value > 0 if crd_system == "gse" else value < 0
+        if sunward:
             ax.add_patch(mpatches.Circle((0, 0), radius, ec=nightcol,
                                          fc=daycol, zorder=zorder))
         else:
-- 
2.43.0


From 2a97c62c2e8bc588c91eaf31217faad2699e081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 132/177] fix: 2d plots: the limits of axes of dates stand as
 they are without mod

---
 viscid/plot/vpyplot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index acb817b..25a7a3a 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -612,9 +612,11 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     tightlim = plot_kwargs.pop('tightlim', plot_kwargs.pop('tightlims', True))
     _proj = getattr(ax, "transProjection", None)
     if tightlim and (_proj is None or 'identity' in _proj.__class__.__name__.lower()):
-        _mod = plot_kwargs.get("mod", None) or (1.0, 1.0)
-        _xl = [fld.xl[0] * _mod[0], fld.xl[1] * _mod[1]]
-        _xh = [fld.xh[0] * _mod[0], fld.xh[1] * _mod[1]]
+        _xl, _xh = list(fld.xl[:2]), list(fld.xh[:2])
+        if plot_kwargs.get("mod", None):
+            _mod = plot_kwargs["mod"]
+            _xl = [_xl[0] * _mod[0], _xl[1] * _mod[1]]
+            _xh = [_xh[0] * _mod[0], _xh[1] * _mod[1]]
         if 'x' not in plot_kwargs:
             if flip_plot:
                 plot_kwargs['x'] = (_xl[1], _xh[1])
-- 
2.43.0


From c740993388b7742679a0037325f17d40dcade318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 133/177] fix: plot_iono with scale does not change the data of
 the field

---
 viscid/plot/vpyplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 25a7a3a..3035cdf 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1225,7 +1225,7 @@ def plot_iono(fld, *args, **kwargs):
 
     fld = viscid.as_mapfield(fld, units='deg')
     if scale is not None:
-        fld *= scale
+        fld = fld * scale
     lat = fld.get_crd('lat')
 
     kwargs = _set_default_cbar_pad(kwargs, pad=0.2)
-- 
2.43.0


From 513a94a8c95300bbdc071158a84a77ead96d2c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 134/177] fix: plot_iono: annotate the southern hemisphere

---
 viscid/plot/vpyplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 3035cdf..1f67a8d 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1244,7 +1244,7 @@ def plot_iono(fld, *args, **kwargs):
     if hem in ('north', 'n'):
         fldH = fld["lat=10j:"]
     elif hem in ('south', 's'):
-        fldH = fld['theta=:-10j']
+        fldH = fld['lat=:-10j']
     else:
         raise ValueError("Unknown hemisphere: {0}".format(hem))
 
-- 
2.43.0


From 4115c4482ac487afcf323d4bd61cc7f4291903e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:21 +0000
Subject: [PATCH 135/177] fix: viscid_diff: iterate over the given fields

---
 scripts/viscid_diff | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/viscid_diff b/scripts/viscid_diff
index 7095658..1436a97 100755
--- a/scripts/viscid_diff
+++ b/scripts/viscid_diff
@@ -51,7 +51,7 @@ def main():
     else:
         fldnames = None
 
-    for flda in fa.iter_fields(named=fldnames):
+    for flda in fa.iter_fields(fld_names=fldnames):
         try:
             with fb[flda.name] as fldb:
                 diff = calc.diff(fldb, flda)
-- 
2.43.0


From 41aa7f96a765db2493056013041f5280ab2e0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:21 +0000
Subject: [PATCH 136/177] fix: viscid_ts: values are numbers, format the times
 on the time axis

---
 scripts/viscid_ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scripts/viscid_ts b/scripts/viscid_ts
index 23a5c7e..3d72940 100755
--- a/scripts/viscid_ts
+++ b/scripts/viscid_ts
@@ -116,9 +116,10 @@ def main():
                 _slc = args.slice
             val = grid.get_field(pvname + eqn, slc=_slc)
 
-            if val.size > 1:
+            # val is a number if everything was sliced away
+            if np.size(val) > 1:
                 raise RuntimeError("you didn't slice away enough")
-            elif val.size == 0:
+            elif np.size(val) == 0:
                 raise RuntimeError("you sliced away too much?")
 
             plot_arrs[j][i] = val
@@ -145,7 +146,13 @@ def main():
         # format the time axis on the last plot
         if j == n_pvars - 1:
             def timeTicks(t, pos):  # pylint: disable=unused-argument
-                return file_.format_time(style=args.timeformat, time=t)
+                dt = viscid.as_timedelta64(1e6 * t, 'us')
+                try:
+                    return viscid.format_time(file_.t2datetime64(dt),
+                                              fmt=args.timeformat,
+                                              basetime=file_.basetime)
+                except viscid.NoBasetimeError:
+                    return viscid.format_time(dt, fmt=args.timeformat)
             formatter = matplotlib.ticker.FuncFormatter(timeTicks)
             vlt.plt.gca().xaxis.set_major_formatter(formatter)
             if args.rotateticklabels:
-- 
2.43.0


From 24afe23395695d80e7aa2c1956b0766d19dc61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:21 +0000
Subject: [PATCH 137/177] fix: athena2xdmf: put blocks at their place

---
 scripts/athena2xdmf | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/scripts/athena2xdmf b/scripts/athena2xdmf
index 3169e71..35688dd 100755
--- a/scripts/athena2xdmf
+++ b/scripts/athena2xdmf
@@ -53,8 +53,8 @@ def main():
         # coordinate arrays in each direction
         unique_crd_lst = [[], [], []]
         for g in grids:
-            # i corresponds to dimension (zyx)
-            for i, xi_nc in enumerate(g.get_crds_nc("zyx")):
+            # i corresponds to dimension (xyz)
+            for i, xi_nc in enumerate(g.get_crds_nc("xyz")):
                 has_match = False
                 for unique_xi in unique_crd_lst[i]:
                     # print(">>", i, xi_nc, unique_xi)
@@ -85,7 +85,7 @@ def main():
         nnodes = -999 * np.ones((3, len(grids)), dtype="int")
         ncells = -999 * np.ones((3, len(grids)), dtype="int")
         for igrid, g in enumerate(grids):
-            for i, xi_nc in enumerate(g.get_crds_nc("zyx")):
+            for i, xi_nc in enumerate(g.get_crds_nc("xyz")):
                 nnodes[i, igrid] = len(xi_nc)
                 ncells[i, igrid] = nnodes[i, igrid] - 1
                 if ncells[i, igrid] < 1:
@@ -106,18 +106,16 @@ def main():
             s_nc = []
             s_cc = []
             for i in range(3):
-                start = np.sum(nnodes[i, :ip[i, igrid]])
-                stop = start + nnodes[i, igrid]
-                s_nc.append(slice(start, stop))
-                start = np.sum(ncells[i, :ip[i, igrid]])
-                stop = start + ncells[i, igrid]
-                s_cc.append(slice(start, stop))
-            slices_nc.append(s_nc)
-            slices_cc.append(s_cc)
+                # neighboring grids share a node
+                start = sum(len(uc) - 1 for uc in unique_crd_lst[i][:ip[i, igrid]])
+                s_nc.append(slice(start, start + nnodes[i, igrid]))
+                s_cc.append(slice(start, start + ncells[i, igrid]))
+            slices_nc.append(tuple(s_nc))
+            slices_cc.append(tuple(s_cc))
 
         # make coordinates
         clst = []
-        for i, ax, ucl in izip(count(), "zyx", unique_crd_lst):
+        for i, ax, ucl in izip(count(), "xyz", unique_crd_lst):
             # this removes the first element from all but the first unique
             # crd list, since that is a repeated node center
             to_cat = [uc[1:] if j > 0 else uc for j, uc in enumerate(ucl)]
-- 
2.43.0


From aeb86440a610f760aa4fc698ed53ffd88b59fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:21 +0000
Subject: [PATCH 138/177] fix: bitmaskbits: 0 needs no bits

---
 scripts/bitmaskbits | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/bitmaskbits b/scripts/bitmaskbits
index 7ef9129..f1e9b83 100755
--- a/scripts/bitmaskbits
+++ b/scripts/bitmaskbits
@@ -8,7 +8,7 @@ def main():
         number = int(sys.argv[1], base=0)
         bits = bin(number)[2:]
 
-        if bits == 0:
+        if number == 0:
             print("0 needs no bits")
             return 0
 
-- 
2.43.0


From 968506483833a6efb39c8ef3e906e9d9a3f7904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 139/177] fix: viscid_ts: use the plot options

---
 scripts/viscid_ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/viscid_ts b/scripts/viscid_ts
index 3d72940..47a87e5 100755
--- a/scripts/viscid_ts
+++ b/scripts/viscid_ts
@@ -128,14 +128,15 @@ def main():
 
     # wrap fields?
     all_plot_kwargs = dict(nolabels=True)
-    vlt.plot_opts_to_kwargs(global_popts, all_plot_kwargs)
+    all_plot_kwargs = vlt.plot_opts_to_kwargs(global_popts, all_plot_kwargs)
 
     for j, plot_var in enumerate(args.plot_vars):
         ts_as_fld = viscid.arrays2field(plot_arrs[j], t, name=plot_names[j])
 
         plot_kwargs = all_plot_kwargs.copy()
         plot_kwargs['label'] = plot_names[j]
-        vlt.plot_opts_to_kwargs(plot_var[1]['plot_opts'], plot_kwargs)
+        plot_kwargs = vlt.plot_opts_to_kwargs(plot_var[1]['plot_opts'],
+                                              plot_kwargs)
 
         if not args.one:
             vlt.plt.subplot2grid((n_pvars, 1), (j, 0))
-- 
2.43.0


From 2560f964938f10ecb5c0ad0c95115337f95b1d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 140/177] fix: make_multiplot: leave plot_vars as they are

---
 viscid/multiplot.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/viscid/multiplot.py b/viscid/multiplot.py
index 454b90c..c50a72d 100644
--- a/viscid/multiplot.py
+++ b/viscid/multiplot.py
@@ -148,14 +148,16 @@ def _do_multiplot(tind, grid, plot_vars=None, global_popts=None, kwopts=None,
         if i == 0 and share_axes:
             shareax = ax
 
-        if "plot_opts" not in fld_meta[1]:
-            fld_meta[1]["plot_opts"] = global_popts
-        elif global_popts is not None:
-            fld_meta[1]["plot_opts"] = "{0},{1}".format(
-                fld_meta[1]["plot_opts"], global_popts)
+        # plot_vars are used again for the next time, so don't change them
+        plot_kwargs = dict(fld_meta[1])
+        if not plot_kwargs.get("plot_opts"):
+            plot_kwargs["plot_opts"] = global_popts
+        elif global_popts:
+            plot_kwargs["plot_opts"] = "{0},{1}".format(
+                plot_kwargs["plot_opts"], global_popts)
 
         with grid.get_field(fld_name, slc=fld_slc) as fld:
-            vlt.plot(fld, masknan=True, **fld_meta[1])
+            vlt.plot(fld, masknan=True, **plot_kwargs)
         # print("fld cache", grid[fld_meta[0]]._cache)
 
     if timeformat and timeformat.lower() != "none":
-- 
2.43.0


From 12015c94c8e76b8158873d0f19e55d4f7544de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 141/177] fix: viscid_ts: coordinates come before the values

---
 scripts/viscid_ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/viscid_ts b/scripts/viscid_ts
index 47a87e5..dbfc74e 100755
--- a/scripts/viscid_ts
+++ b/scripts/viscid_ts
@@ -131,7 +131,7 @@ def main():
     all_plot_kwargs = vlt.plot_opts_to_kwargs(global_popts, all_plot_kwargs)
 
     for j, plot_var in enumerate(args.plot_vars):
-        ts_as_fld = viscid.arrays2field(plot_arrs[j], t, name=plot_names[j])
+        ts_as_fld = viscid.arrays2field(t, plot_arrs[j], name=plot_names[j])
 
         plot_kwargs = all_plot_kwargs.copy()
         plot_kwargs['label'] = plot_names[j]
-- 
2.43.0


From 0c91bd99a74ed202ee62df90e2a4c9da733bcd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 142/177] fix: interpolated_slice of AMR fields with one patch
 in the slice

---
 viscid/amr_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index d9ae0bb..033ea73 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -243,8 +243,10 @@ class AMRField(object):
 
     def interpolated_slice(self, selection):
         fld_lst, _ = self._prepare_amr_slice(selection)
-        if not isinstance(fld_lst, list):
+        if fld_lst is None:
             raise RuntimeError("can't interpolate to that slice?")
+        if not isinstance(fld_lst, list):
+            return fld_lst.interpolated_slice(selection)
 
         ret_lst = [fld.interpolated_slice(selection) for fld in fld_lst]
         return self._finalize_amr_slice(ret_lst)
-- 
2.43.0


From 8c6655e96a07dc2740e63e5ba6b3e21a5332269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 143/177] fix: in place operators of AMR fields

---
 viscid/amr_field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 033ea73..6f55b95 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -299,6 +299,9 @@ class AMRField(object):
                     other[j] = arg
             lst[i] = getattr(patch, attrname)(*other, **kwargs)
 
+        if lst[0] is NotImplemented:
+            # python tries the other operators (e.g., + in place of +=)
+            return NotImplemented
         if np.asarray(lst[0]).size == 1:
             # operation reduced to scalar
             if args:
-- 
2.43.0


From 19ef7d3f40e1c14489c197e8a634b69c24de5b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 144/177] fix: AMRField clip and round take positional
 arguments

---
 viscid/amr_field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 6f55b95..c8402cc 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -450,8 +450,8 @@ class AMRField(object):
         return self.wrap_field_method("argpartition", **kwargs)
     def argsort(self, **kwargs):
         return self.wrap_field_method("argsort", **kwargs)
-    def clip(self, **kwargs):
-        return self.wrap_field_method("clip", **kwargs)
+    def clip(self, *args, **kwargs):
+        return self.wrap_field_method("clip", *args, **kwargs)
     def conj(self, **kwargs):
         return self.wrap_field_method("conj", **kwargs)
     def conjugate(self, **kwargs):
@@ -474,8 +474,8 @@ class AMRField(object):
         return self.wrap_field_method("prod", **kwargs)
     def ptp(self, **kwargs):
         return self.wrap_field_method("ptp", **kwargs)
-    def round(self, **kwargs):
-        return self.wrap_field_method("round", **kwargs)
+    def round(self, *args, **kwargs):
+        return self.wrap_field_method("round", *args, **kwargs)
     def std(self, **kwargs):
         return self.wrap_field_method("std", **kwargs)
     def sum(self, **kwargs):
-- 
2.43.0


From 58ca97f33da8576db5e9509b214843ef87eb1d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 145/177] fix: attributes of AMR fields that are fields

---
 viscid/amr_field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index c8402cc..5ec1100 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -494,6 +494,9 @@ class AMRField(object):
         else:
             # return [getattr(fld, name) for fld in self.patches]
             ret0 = getattr(self.patches[0], name)
+            if isinstance(ret0, Field):
+                return AMRField([getattr(blk, name) for blk in self.patches],
+                                self.skeleton)
             # Check that all patches have the same value. Maybe this should
             # have a debugging flag attached to it since it will take time.
             try:
-- 
2.43.0


From e83779c4fc03db4912f90f67d3ff51d89f2ca97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 146/177] fix: get_slice_extent of axes that aren't sliced

---
 viscid/amr_field.py | 6 +++---
 viscid/field.py     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 5ec1100..f2fcd77 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -87,10 +87,10 @@ class AMRField(object):
 
     def get_slice_extent(self, selection):
         extent = self.patches[0]._src_crds.get_slice_extent(selection)
-        for i in range(3):
-            if np.isnan(extent[0, i]):
+        for i in range(extent.shape[1]):
+            if np.isinf(extent[0, i]):
                 extent[0, i] = self.xl[i]
-            if np.isnan(extent[1, i]):
+            if np.isinf(extent[1, i]):
                 extent[1, i] = self.xh[i]
         return extent
 
diff --git a/viscid/field.py b/viscid/field.py
index a2bc1c4..4d5f9c1 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -839,10 +839,10 @@ class Field(tree.Leaf):
 
     def get_slice_extent(self, selection):
         extent = self.patches[0]._src_crds.get_slice_extent(selection)
-        for i in range(3):
-            if np.isnan(extent[0, i]):
+        for i in range(extent.shape[1]):
+            if np.isinf(extent[0, i]):
                 extent[0, i] = self.xl[i]
-            if np.isnan(extent[1, i]):
+            if np.isinf(extent[1, i]):
                 extent[1, i] = self.xh[i]
         return extent
 
-- 
2.43.0


From 8a1cfa8ff21af6ae5e7ec5c715edc2955ebeaa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 147/177] fix: info of AMR fields

---
 viscid/amr_field.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index f2fcd77..6011c51 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -481,6 +481,16 @@ class AMRField(object):
     def sum(self, **kwargs):
         return self.wrap_field_method("sum", **kwargs)
 
+    # all patches come from the same dataset, so they share its info
+    def has_info(self, key):
+        return self.patches[0].has_info(key)
+    def get_info(self, key, *args, **kwargs):
+        return self.patches[0].get_info(key, *args, **kwargs)
+    def find_info(self, key, *args, **kwargs):
+        return self.patches[0].find_info(key, *args, **kwargs)
+    def find_attr(self, attr_name, *args, **kwargs):
+        return self.patches[0].find_attr(attr_name, *args, **kwargs)
+
     def __getattr__(self, name):
         # define a callback to finalize
         # print("!! getting attr::", name)
-- 
2.43.0


From 088ad6487e61e8ca6fe058a0ca4eed71737fbe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 148/177] fix: make listed color maps

---
 viscid/plot/_cm_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/_cm_tools.py b/viscid/plot/_cm_tools.py
index f126ddb..ec87ad5 100644
--- a/viscid/plot/_cm_tools.py
+++ b/viscid/plot/_cm_tools.py
@@ -71,14 +71,14 @@ def to_listed_cmap(name, colors, reverse=False):
         :py:class:`matplotlib.colors.ListedColormap` instance
     """
     if isinstance(colors, Colormap):
-        if reverse or not isinstance(colors, LinearSegmentedColormap):
+        if reverse or not isinstance(colors, ListedColormap):
             colors = to_rgba(colors)
         else:
             return colors
     rgba = colors
     if reverse:
         rgba = rgba[::-1, :]
-    return ListedColormap(name, rgba)
+    return ListedColormap(rgba, name=name)
 
 def register_cmap(name, colors, reverse=False):
     """Register a cmap given a name and either a cmap or an Nx3 or Nx4
-- 
2.43.0


From 2e3dfa25bd447ec260316175cc8b5487171409be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 149/177] fix: label lines of inverted axes

---
 viscid/plot/mpl_direct_label.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/mpl_direct_label.py b/viscid/plot/mpl_direct_label.py
index 6b81461..3c0b168 100644
--- a/viscid/plot/mpl_direct_label.py
+++ b/viscid/plot/mpl_direct_label.py
@@ -85,8 +85,9 @@ def apply_labels(labels=None, colors=None, ax=None, magnet=(0.5, 0.75),
 
     _xl, _xh = ax.get_xlim()
     _yl, _yh = ax.get_ylim()
-    axbb0 = np.array([_xl, _yl]).reshape(1, 2)
-    axbb1 = np.array([_xh, _yh]).reshape(1, 2)
+    # axes can be inverted
+    axbb0 = np.array([min(_xl, _xh), min(_yl, _yh)]).reshape(1, 2)
+    axbb1 = np.array([max(_xl, _xh), max(_yl, _yh)]).reshape(1, 2)
 
     # choices:: "01:02:22" -> [(0, 1), (0, 2), (2, 2)]
     choices = [(int(c[0]), int(c[1])) for c in choices.split(':')]
-- 
2.43.0


From 708e2abeb2a38bc2d48ef446409a3dfb65c00509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 150/177] fix: default padding of labels in pixels

---
 viscid/plot/mpl_direct_label.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/plot/mpl_direct_label.py b/viscid/plot/mpl_direct_label.py
index 3c0b168..e774226 100644
--- a/viscid/plot/mpl_direct_label.py
+++ b/viscid/plot/mpl_direct_label.py
@@ -98,7 +98,7 @@ def apply_labels(labels=None, colors=None, ax=None, magnet=(0.5, 0.75),
 
     # set the default padding equal to the font size
     if paddingcoords == 'offset pixels':
-        default_padding = font_size_pts * 72 / ax.figure.dpi
+        default_padding = font_size_pts * ax.figure.dpi / 72
     elif paddingcoords == 'offset points':
         default_padding = font_size_pts
     elif paddingcoords == 'axes fraction':
-- 
2.43.0


From 0aa2f4dca665a2bd92579a0f6a7d20884936dec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 151/177] fix: padding of labels in axes fractions

---
 viscid/plot/mpl_direct_label.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/plot/mpl_direct_label.py b/viscid/plot/mpl_direct_label.py
index e774226..05642f5 100644
--- a/viscid/plot/mpl_direct_label.py
+++ b/viscid/plot/mpl_direct_label.py
@@ -117,6 +117,9 @@ def apply_labels(labels=None, colors=None, ax=None, magnet=(0.5, 0.75),
 
     magnet_px = xy_as_pixels(magnet, magnetcoords, ax=ax)
     padding_px = xy_as_pixels(padding, paddingcoords, ax=ax)
+    if paddingcoords == 'axes fraction':
+        # padding is a distance, not a position
+        padding_px -= xy_as_pixels([0.0, 0.0], paddingcoords, ax=ax)
     # print("padding px::", padding_px)
 
     annotations = []
-- 
2.43.0


From ed20564606edb306a8b83fb6c29d2674b6be18f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 152/177] fix: label lines with rgb colors

---
 viscid/plot/mpl_direct_label.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/mpl_direct_label.py b/viscid/plot/mpl_direct_label.py
index 05642f5..ee835de 100644
--- a/viscid/plot/mpl_direct_label.py
+++ b/viscid/plot/mpl_direct_label.py
@@ -195,7 +195,7 @@ def apply_labels(labels=None, colors=None, ax=None, magnet=(0.5, 0.75),
             label = label_i
 
         # divine color of label
-        if colors[i]:
+        if colors[i] is not None:
             color = colors[i]
         else:
             try:
@@ -488,7 +488,7 @@ def estimate_text_size_data(txt, char_aspect_ratio=0.618, line_spacing=1.62,
     return data_width, data_height
 
 def _cycle_colors(colors, n_hands):
-    if colors:
+    if colors is not None and np.size(colors) > 0:
         colors = np.asarray(colors)
         if not colors.shape:
             colors = np.asarray([colors])
-- 
2.43.0


From 48991670d14366a154ac44bce6e1cc2854344c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 153/177] fix: estimate text sizes on the given axes

---
 viscid/plot/mpl_direct_label.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/mpl_direct_label.py b/viscid/plot/mpl_direct_label.py
index ee835de..d7506f5 100644
--- a/viscid/plot/mpl_direct_label.py
+++ b/viscid/plot/mpl_direct_label.py
@@ -479,8 +479,8 @@ def estimate_text_size_data(txt, char_aspect_ratio=0.618, line_spacing=1.62,
     ax_width_px = ax.bbox.width
     ax_height_px = ax.bbox.height
 
-    xl, xh = plt.gca().get_xlim()
-    yl, yh = plt.gca().get_ylim()
+    xl, xh = ax.get_xlim()
+    yl, yh = ax.get_ylim()
 
     data_width = w_px * ((xh - xl) / ax_width_px)
     data_height = h_px * ((yh - yl) / ax_height_px)
-- 
2.43.0


From 084256425ef3062d26fa75424822409356d4ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:58 +0000
Subject: [PATCH 154/177] fix: prune meshgrids of vectors

---
 viscid/field.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 4d5f9c1..163370d 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1566,16 +1566,10 @@ class Field(tree.Leaf):
     def meshgrid(self, axes=None, prune=False):
         crds = list(self.get_crds(axes=axes, shaped=True))
         if prune:
-            poplist = []
-            for i, nxi in reversed(list(enumerate(self.shape))):
-                if nxi <= 1:
-                    poplist.append(i)
-                    crds.pop(i)
-            for pi in poplist:
-                for i in range(len(crds)):
-                    slc = [slice(None)] * len(crds[i].shape)
-                    slc[pi] = 0
-                    crds[i] = crds[i][tuple(slc)]
+            # the shape of the data can also have a dimension of components
+            slc = tuple(0 if len(x) <= 1 else slice(None)
+                        for x in self.get_crds())
+            crds = [x[slc] for x in crds if x.size > 1]
         return np.broadcast_arrays(*crds)
 
     def meshgrid_flat(self, axes=None, prune=False):
-- 
2.43.0


From 377e07a0083df6bbf28b97074649e0d4463210b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 155/177] fix: handles of the caller of set_item

---
 viscid/bucket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/bucket.py b/viscid/bucket.py
index cd75cb2..eb2ac78 100755
--- a/viscid/bucket.py
+++ b/viscid/bucket.py
@@ -82,7 +82,7 @@ class Bucket(object):
         hashable_item = self._make_hashable(item)
         if hashable_item not in self._hash_lookup:
             if index_handle:
-                handles += [self._int_counter]
+                handles = handles + [self._int_counter]
                 self._int_counter += 1
 
         handles_added = []
-- 
2.43.0


From 7ee013bb738aad43f7da6db29772eeabff30f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 156/177] fix: layout of scalars

---
 viscid/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/field.py b/viscid/field.py
index 163370d..3422e71 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2338,6 +2338,10 @@ class ScalarField(Field):
     def nr_comps(self):
         return 0
 
+    def _detect_layout(self, dat, native=True):
+        # don't confuse axes of one cell with components
+        return LAYOUT_SCALAR
+
     def _ow(self, other):
         # interlaced vectors have to be flat to broadcast with a scalar field
         if isinstance(other, VectorField) and other.layout == LAYOUT_INTERLACED:
-- 
2.43.0


From 0f0815fa4fc502930402c28cd4d1022a235f352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:24 +0000
Subject: [PATCH 157/177] fix: Field.loc and iloc with strings, arrays and
 masks

---
 viscid/field.py | 50 ++++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 3422e71..e2eac2e 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -437,6 +437,11 @@ def _orthogonal_setitem(arr, slices, value):
                 for s, n in zip(inds, view.shape)]
         view[np.ix_(*inds)] = value
 
+# a number that's not a part of a name, and not a location already
+_R_LOC_NUMBER = re.compile(r"(?<![\w\.])((?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?)"
+                           r"(?![\w\.])")
+
+
 class _FldSlcProxy(object):
     parent = None
     def __init__(self, parent, do_floatify=True):
@@ -446,41 +451,40 @@ class _FldSlcProxy(object):
     def _floatify(self, item):
         if isinstance(item, string_types):
             item = item.strip().lower()
-            dt_re = r"(\s*{0}\s*)".format(viscid.sliceutil.RE_DTIME_SLC_GROUP)
-            datetimes = re.findall(dt_re, item)
-            item = re.sub(dt_re, '__DATETIME__', item)
-            item = re.sub(r'([\d\.e]+(?![\d\.FfJj]))', r'\1j', item)
-            item_split = item.split('__DATETIME__')
-            item = [None] * (len(item_split) + len(datetimes))
-            item[0::2] = item_split
-            item[1::2] = datetimes
-            item = ''.join(item)
-
-        if item in (Ellipsis, '...'):
+            if self.do_floatify:
+                dt_re = r"(\s*{0}\s*)".format(viscid.sliceutil.RE_DTIME_SLC_GROUP)
+                datetimes = re.findall(dt_re, item)
+                item = re.sub(dt_re, '__DATETIME__', item)
+                # only start and stop are locations, steps are not
+                parts = item.split(':')
+                parts[:2] = [_R_LOC_NUMBER.sub(r'\1j', s) for s in parts[:2]]
+                item_split = ':'.join(parts).split('__DATETIME__')
+                item = [None] * (len(item_split) + len(datetimes))
+                item[0::2] = item_split
+                item[1::2] = datetimes
+                item = ''.join(item)
+
+        if isinstance(item, (np.ndarray, list)):
+            # masks and dates are no numbers to be turned into locations
+            if self.do_floatify and np.asarray(item).dtype.kind in 'iuf':
+                item = 1j * np.asarray(item, dtype='f8')
+        elif item in (Ellipsis, '...'):
             item = Ellipsis
         elif item in (np.newaxis, ):
             item = np.newaxis
         elif item in (None, 'none'):
             item = None
-        elif isinstance(item, (np.ndarray,)):
-            if self.do_floatify:
-                item = 1j * item
         elif isinstance(item, string_types):
             pass
-        elif isinstance(item, (list,)):
-            for i, _ in enumerate(item):
-                # try:
-                if self.do_floatify:
-                    item[i] = 1j * float(item[i])
-                # except (ValueError, TypeError):
-                #     pass
         else:
-            if self.do_floatify:
+            if self.do_floatify and np.asarray(item).dtype.kind in 'iuf':
                 item = 1j * float(item)
         return item
 
     def _xform(self, item):
-        if not isinstance(item, tuple):
+        if isinstance(item, string_types):
+            item = tuple(viscid.sliceutil.raw_sel2sel_list(item))
+        elif not isinstance(item, tuple):
             item = (item, )
         sel = []
         for it in item:
-- 
2.43.0


From b238775c91152e019250d950aaefff5083f219e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 158/177] fix: sliceutil: ends of slices close to the first or
 last element

---
 viscid/sliceutil.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 24ff0b0..8524dde 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -545,6 +545,8 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
             stop_val = ustop
             diff = crd_arr - ustop - (tol * sgn)
             zero = np.array([0]).astype(diff.dtype)[0]
+            # being close to the first / last element is good enough
+            end_tol = tol if len(crd_arr) > 1 else tol * 0
 
             if ustep > 0:
                 diff = np.ma.masked_greater(diff, zero)
@@ -552,7 +554,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
                 diff = np.ma.masked_less(diff, zero)
 
             if ustep > 0:
-                if ustop < crd_arr[0]:
+                if ustop < crd_arr[0] - end_tol:
                     # stop value is past the wong end of the array
                     ustop = 0
                 else:
@@ -560,7 +562,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
                     if val_endpoint:
                         ustop += 1
             else:
-                if ustop > crd_arr[-1]:
+                if ustop > crd_arr[-1] + end_tol:
                     # stop value is past the wrong end of the array
                     ustop = len(crd_arr)
                 else:
-- 
2.43.0


From a80ddb9d384fecf32f4a79947a4bc352baf6095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:31 +0000
Subject: [PATCH 159/177] fix: divmod of fields

---
 viscid/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index e2eac2e..8ce06ab 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1998,7 +1998,7 @@ class Field(tree.Leaf):
     def __mod__(self, other):
         return self.wrap(self.data.__mod__(self._ow(other)), other=other)
     def __divmod__(self, other):
-        return self.wrap(self.data.__divmod__(self._ow(other)), other=other)
+        return self.__floordiv__(other), self.__mod__(other)
     def __pow__(self, other):
         return self.wrap(self.data.__pow__(self._ow(other)), other=other)
     def __lshift__(self, other):
@@ -2027,7 +2027,7 @@ class Field(tree.Leaf):
     def __rmod__(self, other):
         return self.wrap(self.data.__rmod__(self._ow(other)), other=other)
     def __rdivmod__(self, other):
-        return self.wrap(self.data.__rdivmod__(self._ow(other)), other=other)
+        return self.__rfloordiv__(other), self.__rmod__(other)
     def __rpow__(self, other):
         return self.wrap(self.data.__rpow__(self._ow(other)), other=other)
 
-- 
2.43.0


From ee1c41806a104e586ce65f835497975246f95d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:31 +0000
Subject: [PATCH 160/177] fix: downsample

---
 viscid/field.py | 47 ++++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 8ce06ab..15d12e9 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2356,31 +2356,28 @@ class ScalarField(Field):
     # have the added layer of checking the layout
     def downsample(self):
         """ downsample the spatial dimensions by a factor of 2 """
-        # FIXME: this implementation assumes a lot about the field
-        end = np.array(self.sshape) // 2
-        dat = self.data
-
-        if self.nr_sdims == 1:
-            downdat = 0.5 * (dat[:end[0]:2] + dat[1:end[0]:2])
-        elif self.nr_sdims == 2:
-            downdat = 0.25 * (dat[:end[0]:2, :end[1]:2] +
-                              dat[1:end[0]:2, :end[1]:2] +
-                              dat[:end[0]:2, 1:end[1]:2] +
-                              dat[1:end[0]:2, 1:end[1]:2])
-        elif self.nr_sdims == 3:
-            downdat = 0.125 * (dat[:end[0]:2, :end[1]:2, :end[2]:2] +
-                               dat[1:end[0]:2, :end[1]:2, :end[2]:2] +
-                               dat[:end[0]:2, 1:end[1]:2, :end[2]:2] +
-                               dat[:end[0]:2, :end[1]:2, 1:end[2]:2] +
-                               dat[1:end[0]:2, 1:end[1]:2, :end[2]:2] +
-                               dat[1:end[0]:2, :end[1]:2, 1:end[2]:2] +
-                               dat[:end[0]:2, 1:end[1]:2, 1:end[2]:2] +
-                               dat[1:end[0]:2, 1:end[1]:2, 1:end[2]:2])
-
-        downclist = self._src_crds.get_clist(np.s_[::2])
-        cunits = self._src_crds.get_units((c[0] for c in downclist), allow_invalid=1)
-        downcrds = coordinate.wrap_crds("nonuniform_cartesian", downclist,
-                                        units=cunits, **self._src_crds.meta)
+        downdat = self.data
+        downclist = []
+
+        for i, axis in enumerate(self.crds.axes):
+            x = self.get_crd_nc(axis)
+            n = self.sshape[i]
+            if n > 1:
+                # an odd one out at the end is left out
+                end = 2 * (n // 2)
+                first, second = [slice(None)] * i, [slice(None)] * i
+                first.append(slice(0, end, 2))
+                second.append(slice(1, end, 2))
+                downdat = 0.5 * (downdat[tuple(first)] + downdat[tuple(second)])
+                if self.iscentered('node'):
+                    x = 0.5 * (x[0:end:2] + x[1:end:2])
+                else:
+                    x = x[:end + 1:2]
+            downclist.append([axis, x])
+
+        crdtype = self.crds._TYPE.replace("nonuniform", "uniform")
+        downcrds = coordinate.wrap_crds("non" + crdtype, downclist,
+                                        units=self.crds.units, **self.crds.meta)
         return self.wrap(downdat, {"crds": downcrds})
 
     def as_layout(self, to_layout, force_c_contiguous=True):
-- 
2.43.0


From 9926d55b3dffe830da204adac462316c7ebd11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:36 +0000
Subject: [PATCH 161/177] fix: AMR fields can be pickled and deep copied

---
 viscid/amr_field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 6011c51..7705795 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -494,6 +494,10 @@ class AMRField(object):
     def __getattr__(self, name):
         # define a callback to finalize
         # print("!! getting attr::", name)
+        if self.patches is None:
+            # there are no patches while an instance is being unpickled
+            raise AttributeError("{0!r} object has no attribute {1!r}"
+                                 "".format(self.__class__.__name__, name))
         if callable(getattr(self.patches[0], name)):
             def _wrap(lst):
                 try:
-- 
2.43.0


From 1d77d5637451aefe658143a8b6dc7b9b5619392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:31 +0000
Subject: [PATCH 162/177] fix: a field replaces the one of the same name in a
 grid

---
 viscid/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/grid.py b/viscid/grid.py
index a2df679..32abb59 100755
--- a/viscid/grid.py
+++ b/viscid/grid.py
@@ -324,6 +324,10 @@ class Grid(tree.Node):
     def __setitem__(self, fldname, fld):
         if isinstance(fld, field.VectorField):
             fld.layout = self.force_vector_layout
+        if (self._fields.contains_handle(fldname) and
+                self._fields[fldname] is not fld):
+            # the bucket would keep the old field under its index
+            del self[fldname]
         self.prepare_child(fld)
         self._fields[fldname] = fld
 
-- 
2.43.0


From 364fe8f58b9b3ccf64a09b1e7631e2b733ee4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:31 +0000
Subject: [PATCH 163/177] fix: coordinates of grids without their own are those
 of the fields

---
 viscid/grid.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/viscid/grid.py b/viscid/grid.py
index 32abb59..49aab81 100755
--- a/viscid/grid.py
+++ b/viscid/grid.py
@@ -221,25 +221,25 @@ class Grid(tree.Node):
         """ returns a flat ndarray of coordinates along a given axis
         axis can be crd name as string, or index, as in x==2, y==1, z==2
         """
-        return self._src_crds.get_nc(axis, shaped=shaped)
+        return self.crds.get_nc(axis, shaped=shaped)
 
     def get_crd_cc(self, axis, shaped=False):
         """ returns a flat ndarray of coordinates along a given axis
         axis can be crd name as string, or index, as in x==2, y==1, z==2
         """
-        return self._src_crds.get_cc(axis, shaped=shaped)
+        return self.crds.get_cc(axis, shaped=shaped)
 
     def get_crd_ec(self, axis, shaped=False):
         """ returns a flat ndarray of coordinates along a given axis
         axis can be crd name as string, or index, as in x==2, y==1, z==2
         """
-        return self._src_crds.get_ec(axis, shaped=shaped)
+        return self.crds.get_ec(axis, shaped=shaped)
 
     def get_crd_fc(self, axis, shaped=False):
         """ returns a flat ndarray of coordinates along a given axis
         axis can be crd name as string, or index, as in x==2, y==1, z==2
         """
-        return self._src_crds.get_fc(axis, shaped=shaped)
+        return self.crds.get_fc(axis, shaped=shaped)
 
     ## these return all crd dimensions
     # these are the same as something like self._src_crds.get_crds()
@@ -247,25 +247,25 @@ class Grid(tree.Node):
         """ returns all node centered coords as a list of ndarrays, flat if
         shaped==False, or shaped if shaped==True
         """
-        return self._src_crds.get_crds_nc(axes=axes, shaped=shaped)
+        return self.crds.get_crds_nc(axes=axes, shaped=shaped)
 
     def get_crds_cc(self, axes=None, shaped=False):
         """ returns all cell centered coords as a list of ndarrays, flat if
         shaped==False, or shaped if shaped==True
         """
-        return self._src_crds.get_crds_cc(axes=axes, shaped=shaped)
+        return self.crds.get_crds_cc(axes=axes, shaped=shaped)
 
     def get_crds_fc(self, axes=None, shaped=False):
         """ returns all face centered coords as a list of ndarrays, flat if
         shaped==False, or shaped if shaped==True
         """
-        return self._src_crds.get_crds_fc(axes=axes, shaped=shaped)
+        return self.crds.get_crds_fc(axes=axes, shaped=shaped)
 
     def get_crds_ec(self, axes=None, shaped=False):
         """ returns all edge centered coords as a list of ndarrays, flat if
         shaped==False, or shaped if shaped==True
         """
-        return self._src_crds.get_crds_ec(axes=axes, shaped=shaped)
+        return self.crds.get_crds_ec(axes=axes, shaped=shaped)
 
     ##
     def get_field(self, fldname, time=None, force_longterm_caches=False,
@@ -316,8 +316,9 @@ class Grid(tree.Node):
         try:
             return self.get_field(item)
         except KeyError:
-            if self._src_crds is not None and item in self._src_crds:
-                return self._src_crds[item]
+            if ((self._src_crds is not None or len(self._fields)) and
+                    item in self.crds):
+                return self.crds[item]
             else:
                 raise KeyError(item)
 
-- 
2.43.0


From 495df40f8088bbd34631a4505f01eeacf08bc456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:31 +0000
Subject: [PATCH 164/177] fix: delete from and look in datasets without errors

---
 viscid/dataset.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index d3d29be..e332ffd 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -427,9 +427,12 @@ class Dataset(tree.Node):
 
     def __delitem__(self, item):
         # FIXME, is it possable to de-resolve item to a DeferredChild?
-        child = self.get_child(item)
+        child = self.children[item]
         child.clear_cache()
+        self.tear_down_child(child)
         self.children.remove_item(child)
+        if self.active_child is child:
+            self.active_child = None
 
     def __len__(self):
         return self.children.__len__()
@@ -444,7 +447,7 @@ class Dataset(tree.Node):
         if item in self.children:
             return True
         # FIXME: this might cause a bug somewhere someday
-        if item in self.active_child.resolve():
+        if self.active_child is not None and item in self.active_child.resolve():
             return True
         return False
 
@@ -733,6 +736,14 @@ class DatasetTemporal(Dataset):
         child = self.children[self._slice_time(item)][1].resolve()
         return child
 
+    def __delitem__(self, item):
+        time, child = self.children[self._slice_time(item)]
+        child.clear_cache()
+        self.tear_down_child(child)
+        self.children.remove((time, child))
+        if self.active_child is child:
+            self.active_child = None
+
     def __contains__(self, item):
         if isinstance(item, int) and item >= 0 and item < len(self.children):
             return True
@@ -745,6 +756,8 @@ class DatasetTemporal(Dataset):
                     return False
             except ValueError:
                 pass
+        if self.active_child is None:
+            return False
         return item in self.active_child.resolve()
 
     def iter_resolved_children(self):
-- 
2.43.0


From 50d23dc7049894dad1df14f478961bdb3393e802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:27 +0000
Subject: [PATCH 165/177] fix: points() of coordinates are the nodes by default

---
 viscid/coordinate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 009a83e..826a052 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -1111,7 +1111,7 @@ class StructuredCrds(Coordinates):
     def __array__(self, *args, **kwargs):
         return self.get_points()
 
-    def points(self, center=None, **kwargs):
+    def points(self, center="none", **kwargs):
         return self.get_points(center=center, **kwargs)
 
     def get_points(self, center="none", **kwargs):
-- 
2.43.0


From 143fb4bfb93dffb0912ac20471d4d32e1b7f5a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:52 +0000
Subject: [PATCH 166/177] fix: the norm given for a 2D plot is used

---
 viscid/plot/vpyplot.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 1f67a8d..7153fcc 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -756,7 +756,12 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
             vscale = "lin"
         else:
             raise TypeError("Unrecognized norm type: {0}".format(type(norm)))
+        # limits that aren't given are those of the data as it is plotted
+        _dat = np.concatenate([np.ravel(blk) for blk in fld.patches])
+        norm.autoscale_None(np.ma.masked_invalid(_dat if scale is None
+                                                 else _dat * scale))
         vmin, vmax = norm.vmin, norm.vmax
+        plot_kwargs['norm'] = norm
 
     if "cmap" not in plot_kwargs and np.isclose(vmax, -1 * vmin, atol=0):
         # by default, the symmetric_cmap is seismic (blue->white->red)
-- 
2.43.0


From de7b489572ab07b8e03fa52271f78c8202d588a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:50 +0000
Subject: [PATCH 167/177] fix: jacobians and curl of integer fields aren't
 truncated

---
 viscid/calculator/calc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 1563a82..6b63c8e 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -555,7 +555,7 @@ def jacobian_at_point(B, x, y, z, dx=None, dy=None, dz=None):
             [d_x Bz, d_y Bz, d_z Bz] ]
     """
     bs, _, dcrd = local_vector_points(B, x, y, z, dx, dy, dz)
-    gradb = np.empty((3, 3), dtype=B.dtype)
+    gradb = np.empty((3, 3), dtype=np.result_type(B.dtype, 'f4'))
 
     # bs is in xyz spatial order, but components are in xyz order
     # dcrd is in xyz order
@@ -579,7 +579,7 @@ def jacobian_at_ind(B, ix, iy, iz):
     """
     bx, by, bz = B.component_views()
     x, y, z = B.get_crds("xyz")
-    gradb = np.empty((3, 3), dtype=B.dtype)
+    gradb = np.empty((3, 3), dtype=np.result_type(B.dtype, 'f4'))
     for i, bi in enumerate([bx, by, bz]):
         # d_x Bi, d_y Bi, d_z Bi
         gradb[i, 0] = (bi[ix + 1, iy, iz] - bi[ix - 1, iy, iz]) / (x[ix + 1] - x[ix - 1])
@@ -622,7 +622,7 @@ def div_at_point(A, x, y, z, dx=None, dy=None, dz=None):
 def curl_at_point(A, x, y, z, dx=None, dy=None, dz=None):
     """Returns curl at point as ndarray with shape (3,) xyz"""
     As, _, dcrd = local_vector_points(A, x, y, z, dx, dy, dz)
-    c = np.zeros(3, dtype=A.dtype)
+    c = np.zeros(3, dtype=np.result_type(A.dtype, 'f4'))
 
     # As[2 * i + 1] and As[2 * i] are on either side in the i direction, and
     # the 2nd index is the component
-- 
2.43.0


From 693662b3189a8a80a961865265b7253fd50f219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:58 +0000
Subject: [PATCH 168/177] fix: scales and flux functions of integer fields
 aren't truncated

---
 viscid/calculator/calc.py   | 5 +++--
 viscid/calculator/necalc.py | 2 +-
 viscid/calculator/plasma.py | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 6b63c8e..4ba431e 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -156,7 +156,8 @@ if has_numexpr:
 
 # numpy versions
 neg.add_implementation("numpy", lambda a: -a)
-scale.add_implementation("numpy", lambda a, b: np.asarray(a, dtype=b.dtype) * b)
+scale.add_implementation("numpy",
+                         lambda a, b: np.asarray(a, dtype=np.result_type(b.dtype, a)) * b)
 add.add_implementation("numpy", lambda a, b: a + b)
 diff.add_implementation("numpy", lambda a, b: a - b)
 mul.add_implementation("numpy", lambda a, b: a * b)
@@ -349,7 +350,7 @@ def convective_deriv(a, b=None, bnd=True):
 # native versions  NOTE: magnitude_native is really only for benchmarking
 def _magnitude_native(fld):
     vx, vy, vz = fld.component_views()
-    mag = np.empty_like(vx)
+    mag = np.empty(vx.shape, dtype=np.result_type(vx.dtype, 'f4'))
     for i in range(mag.shape[0]):
         for j in range(mag.shape[1]):
             for k in range(mag.shape[2]):
diff --git a/viscid/calculator/necalc.py b/viscid/calculator/necalc.py
index cfa25d9..c2eb433 100644
--- a/viscid/calculator/necalc.py
+++ b/viscid/calculator/necalc.py
@@ -68,7 +68,7 @@ abs_diff = VneCalc("abs(a - b)", {'a': 0, 'b': 1})
 abs_val = VneCalc("abs(a)", {'a': 0})
 
 def scale(a, fld):
-    a = np.asarray(a, dtype=fld.dtype)
+    a = np.asarray(a, dtype=np.result_type(fld.dtype, a))
     b = fld.data  # pylint: disable=unused-variable
     return fld.wrap(ne.evaluate("a * b"))
 
diff --git a/viscid/calculator/plasma.py b/viscid/calculator/plasma.py
index 1d12e84..8ce4ddd 100644
--- a/viscid/calculator/plasma.py
+++ b/viscid/calculator/plasma.py
@@ -84,7 +84,7 @@ def calc_psi(B, rev=False):
     dz = zcc[1:] - zcc[:-1]
     ny, nz = len(ycc), len(zcc)
 
-    A = np.empty((ny, nz), dtype=B.dtype)
+    A = np.empty((ny, nz), dtype=np.result_type(B.dtype, 'f4'))
 
     if rev:
         A[-1, -1] = 0.0
-- 
2.43.0


From 2d93e92ffc01ef424d79375d8204e3e20165edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:21 +0000
Subject: [PATCH 169/177] fix: averages of staggered integer fields aren't
 truncated

---
 viscid/calculator/ecfc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/calculator/ecfc.py b/viscid/calculator/ecfc.py
index 081e633..37a3787 100644
--- a/viscid/calculator/ecfc.py
+++ b/viscid/calculator/ecfc.py
@@ -137,6 +137,7 @@ def fc2cc(fc, force_numpy=False, bnd=True):
     """Average a face centered field to cell centers"""
     fc = fc.atleast_3d()
     fc = make_ecfc_field_leading(fc)
+    fc = fc.astype(np.result_type(fc.dtype, 'f4'))  # integers can't be averaged
     s0, sm, sp = _prep_slices(fc)
 
     cc = viscid.zeros_like(fc[tuple(s0)])
@@ -175,6 +176,7 @@ def ec2cc(ec, force_numpy=False, bnd=True):
     """Average an edge centered field to cell centers"""
     ec = ec.atleast_3d()
     ec = make_ecfc_field_leading(ec)
+    ec = ec.astype(np.result_type(ec.dtype, 'f4'))  # integers can't be averaged
     s0, sm, sp = _prep_slices(ec)
 
     cc = viscid.zeros_like(ec[tuple(s0)])
@@ -220,6 +222,7 @@ def div_fc(fc, force_numpy=False, bnd=True):
     """Calculate cell centered divergence of face centered field"""
     fc = fc.atleast_3d()
     fc = make_ecfc_field_leading(fc)
+    fc = fc.astype(np.result_type(fc.dtype, 'f4'))  # integers can't be averaged
     # FIXME: maybe it's possible to do the boundary correctly here without
     #        just faking it with a 0 order hold before returning
     s0, sm, sp = _prep_slices(fc)
-- 
2.43.0


From 22a8f042ca80f4ec7b61c957439c74bc05337b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:40 +0000
Subject: [PATCH 170/177] fix: minvar_series with samples of integers

---
 viscid/calculator/minvar_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/calculator/minvar_tools.py b/viscid/calculator/minvar_tools.py
index 35d9a9b..ede595e 100644
--- a/viscid/calculator/minvar_tools.py
+++ b/viscid/calculator/minvar_tools.py
@@ -49,6 +49,8 @@ def minvar_series(arr, warn_finite=True):
         is a 2d array where the vectors are columns (2nd axis), i.e.,
         the min variance eigenvector is evecs[0, :]
     """
+    # integers have no nan, and their products could overflow
+    arr = arr.astype(np.result_type(arr.dtype, 'f4'))
     mask = np.all(np.isfinite(arr), axis=1, keepdims=False)
     if np.sum(mask) < 3:
         if warn_finite:
-- 
2.43.0


From c5e05d8c749f86dfbedc4351dc25f28123d60b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 171/177] fix: AMR slices: corners of patches far from the
 origin

---
 viscid/amr_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 7705795..4617f89 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -145,6 +145,8 @@ class AMRField(object):
             invalid_err_level = np.geterr()['invalid']
             np.seterr(invalid='ignore')
             atol = 100 * np.finfo(xl_nc.dtype).eps
+            atol *= max(1.0, np.max(np.abs(fld.crds.xl_nc)),
+                        np.max(np.abs(fld.crds.xh_nc)))
             if (not np.any(np.logical_or(xl_nc - atol > extent[1],
                                          xh_nc <= extent[0]))):
                 if np.any(np.isclose(fld.crds.xh_nc, extent[0], atol=atol)):
-- 
2.43.0


From ee64e370b3bba79a24a294e655a2d6fc725450de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:50 +0000
Subject: [PATCH 172/177] fix: AMR slices: axes with one node don't tell where
 patches end

---
 viscid/amr_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 4617f89..00a74a0 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -149,7 +149,7 @@ class AMRField(object):
                         np.max(np.abs(fld.crds.xh_nc)))
             if (not np.any(np.logical_or(xl_nc - atol > extent[1],
                                          xh_nc <= extent[0]))):
-                if np.any(np.isclose(fld.crds.xh_nc, extent[0], atol=atol)):
+                if np.any(np.isclose(xh_nc, extent[0], atol=atol)):
                     maybe.append(i)
                 else:
                     inds.append(i)
-- 
2.43.0


From adec3aebfd1e52d51340850bbc96975066a64d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 173/177] fix: minimum variance directions are orthogonal, and
 do not depend on the mean

---
 viscid/calculator/minvar_tools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/viscid/calculator/minvar_tools.py b/viscid/calculator/minvar_tools.py
index ede595e..0832a09 100644
--- a/viscid/calculator/minvar_tools.py
+++ b/viscid/calculator/minvar_tools.py
@@ -49,8 +49,9 @@ def minvar_series(arr, warn_finite=True):
         is a 2d array where the vectors are columns (2nd axis), i.e.,
         the min variance eigenvector is evecs[0, :]
     """
-    # integers have no nan, and their products could overflow
-    arr = arr.astype(np.result_type(arr.dtype, 'f4'))
+    # integers have no nan, and their products could overflow. Single
+    # precision is not enough to tell small variances from 0
+    arr = arr.astype(np.result_type(arr.dtype, 'f8'))
     mask = np.all(np.isfinite(arr), axis=1, keepdims=False)
     if np.sum(mask) < 3:
         if warn_finite:
@@ -59,6 +60,9 @@ def minvar_series(arr, warn_finite=True):
                 np.full([3, 3], np.nan, dtype=arr.dtype)]
 
     arr = arr[mask]
+    # a constant background has no variance, but its square can be much
+    # larger than the variance
+    arr = arr - np.mean(arr, axis=0)
     m = np.zeros((3, 3))
     for i in range(3):
         for j in range(i+1):
@@ -66,7 +70,9 @@ def minvar_series(arr, warn_finite=True):
             m[i, j] = bibj - (np.mean(arr[:, i]) * np.mean(arr[:, j]))
             m[j, i] = bibj - (np.mean(arr[:, i]) * np.mean(arr[:, j]))
 
-    evals, evecs = np.linalg.eig(m)
+    # m is symmetric, so its eigenvectors are orthogonal, even if some
+    # eigenvalues are the same
+    evals, evecs = np.linalg.eigh(m)
     eval_mags = np.abs(evals)
     sorted_inds = np.argsort(eval_mags)
     evec_min = evecs[:, sorted_inds[0]].flatten()
-- 
2.43.0


From 9d516302f5a9f86c6870c6228267577c590e2bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:56 +0000
Subject: [PATCH 174/177] fix: flux function of fields with axes in another
 order

---
 viscid/calculator/plasma.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viscid/calculator/plasma.py b/viscid/calculator/plasma.py
index 8ce4ddd..de2828a 100644
--- a/viscid/calculator/plasma.py
+++ b/viscid/calculator/plasma.py
@@ -70,6 +70,10 @@ def calc_psi(B, rev=False):
     for comp in "xyz":
         if comp in B.crds.axes:
             comps += comp
+    axes = list(B.crds.axes)
+    if axes != list(comps):
+        # the loops below go along comps, in that order
+        B = B.spatial_transpose(*comps)
     # ex: comps = "yz", comp_inds = [1, 2]
     comp_inds = [dict(x=0, y=1, z=2)[comp] for comp in comps]
 
@@ -103,6 +107,8 @@ def calc_psi(B, rev=False):
 
     psi = field.wrap_field(A, B.crds, name="psi", center=B.center,
                            pretty_name=r"$\psi$", parents=[B])
+    if axes != list(comps):
+        psi = psi.spatial_transpose(*axes)
     if reduced_axes:
         slc = "..., " + ", ".join("{0}=None".format(ax) for ax in reduced_axes)
         psi = psi[slc]
-- 
2.43.0


From 698f627e04aff4980a1ed5e7c4284d7528ef9e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 175/177] fix: grid_opts are given to the grids of a file

---
 viscid/readers/vfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index f5ab7dc..37a16d2 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -105,7 +105,7 @@ class VFile(Dataset):
         if grid_type is not None:
             self._grid_type = grid_type
         if grid_opts is not None:
-            self.grid_opts = grid_opts
+            self._grid_opts = grid_opts
         assert isinstance(self._grid_opts, dict)
 
         self.parent_bucket = parent_bucket
-- 
2.43.0


From c42dfcaa2a7a0ed8c66dbcac1176c723bc36c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:27 +0000
Subject: [PATCH 176/177] fix: lines of adaptive methods are as long as
 max_length

---
 viscid/cython/streamline.pyx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index a079fc4..ff137dc 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -35,7 +35,7 @@ from viscid.compat import izip
 ###########
 # cimports
 cimport cython
-from libc.math cimport fabs, NAN
+from libc.math cimport fabs, sqrt, NAN
 from libc.time cimport time_t, time, clock_t, clock, CLOCKS_PER_SEC
 cimport numpy as cnp
 
@@ -380,6 +380,7 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
         int ret  # return status of euler integrate
         int end_flags
         int done  # streamline has ended for some reason
+        int adaptive  # whether integrate_func changes ds
         real_t stream_length
         real_t stream_t
         int d  # direction of streamline 1 | -1
@@ -463,6 +464,8 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
         elif method == RK45:
             max_error = 1e-5
 
+    adaptive = method == EULER1A or method == RK12 or method == RK45
+
     # which integrator are we using?
     if method == EULER1:
         integrate_func = _c_euler1[FusedField, real_t]
@@ -568,10 +571,13 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
                                          max_error, smallest_ds, largest_ds,
                                          vscale, cached_idx3)
 
-                    if fabs(ds) >= pre_ds:
-                        abs_ds = pre_ds
+                    if adaptive:
+                        # ds is already that of the next step
+                        abs_ds = sqrt((s[0] - s0[0])**2 +
+                                      (s[1] - s0[1])**2 +
+                                      (s[2] - s0[2])**2)
                     else:
-                        abs_ds = fabs(ds)
+                        abs_ds = pre_ds
 
                     if max_t > 0.0:
                         abs_dt = fabs(dt)
-- 
2.43.0


From 9a88027216a5033f230f39eb46e28be426d38167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 177/177] fix: no clusters of no points

---
 viscid/calculator/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/cluster.py b/viscid/calculator/cluster.py
index b17b7c3..f4255db 100644
--- a/viscid/calculator/cluster.py
+++ b/viscid/calculator/cluster.py
@@ -121,7 +121,7 @@ def find_clusters(indx, indy, x, y, multiple=True, periodic=(False, False),
                 clusters.append([i])
                 cli.append([[ix], [iy]])
                 clx.append([[x[ix]], [y[iy]]])
-    else:
+    elif len(inds):
         clx = [[crds[0][inds[:, 0]], crds[1][inds[:, 1]]]]
 
     pts = np.array([np.average(clxi, axis=1) for clxi in clx]).reshape((-1, 2))
-- 
2.43.0

