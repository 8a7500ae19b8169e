From f91d9cd0572e1de60e69dbd18c1e6408c596de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 01/68] fix: prune the haversine k-D tree with valid
 great-circle bounds

Nearest neighbour queries compared squared degrees with kilometres and range
queries between trees used bounds valid only near the equator, so points were
missed or wrongly included away from it and across the date line.  Nearest
distances were returned as the square root of the distance.
---
 cis/collocation/kdtree.py | 120 +++++++++++++++-----------------------
 1 file changed, 48 insertions(+), 72 deletions(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index 5336c24..f814747 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -311,7 +311,7 @@ class RectangleHaversine(RectangleBase):
         lat0 = point[0]
         # Shift point longitude to be within pi of rectangle mid-longitude.
         range_start = (rect_lon_min + rect_lon_max) / 2.0 - PI
-        lon0 = np.fmod(point[1] - range_start, TWO_PI) + range_start
+        lon0 = np.mod(point[1] - range_start, TWO_PI) + range_start
 
         inside = False
 
@@ -397,27 +397,39 @@ class RectangleHaversine(RectangleBase):
 
     def min_distance_rectangle(self, other):
         """
-        Compute the minimum distance between points in the two hyperrectangles.
+        Compute a lower bound for the distance between points in the two rectangles.
 
-        :param other: hyperrectangle
-            Input.
-        :param p: float
-            Input.
+        The bound is the distance itself if the rectangles share a longitude.
 
+        :param other: rectangle
+        :return: distance in kilometres
         """
-        return haversine_distance([0.0, 0.0], np.maximum(0, np.maximum(self.mins - other.maxes, other.mins - self.maxes)))
+        lat_gap = max(0.0, self.mins[0] - other.maxes[0], other.mins[0] - self.maxes[0])
+        # Smallest longitude difference between points in the rectangles allowing for longitude circularity
+        mid_diff = (self.mins[1] + self.maxes[1] - other.mins[1] - other.maxes[1]) / 2.0
+        half_widths = (self.maxes[1] - self.mins[1] + other.maxes[1] - other.mins[1]) / 2.0
+        lon_gap = max(0.0, abs((mid_diff + 180.0) % 360.0 - 180.0) - half_widths)
+        arclen = math.radians(lat_gap)
+        if lon_gap > 0.0:
+            # Distance from a point to a line of longitude at least lon_gap away
+            sin_lon = math.sin(math.radians(min(lon_gap, 90.0)))
+            for rect in (self, other):
+                max_abs_lat = min(90.0, max(abs(rect.mins[0]), abs(rect.maxes[0])))
+                arclen = max(arclen, math.asin(sin_lon * math.cos(math.radians(max_abs_lat))))
+        return arclen * RADIUS_EARTH
 
     def max_distance_rectangle(self, other):
         """
-        Compute the maximum distance between points in the two hyperrectangles.
+        Compute an upper bound for the distance between points in the two rectangles.
 
-        :param other: hyperrectangle
-            Input.
-        :param p: float, optional
-            Input.
+        This is the semi-circumference minus the distance to the polar opposite rectangle.
 
+        :param other: rectangle
+        :return: distance in kilometres
         """
-        return haversine_distance([0.0, 0.0], np.maximum(self.maxes - other.mins, other.maxes - self.mins))
+        opposite = RectangleHaversine(np.array([-other.mins[0], other.maxes[1] + 180.0]),
+                                      np.array([-other.maxes[0], other.mins[1] + 180.0]))
+        return PI * RADIUS_EARTH - self.min_distance_rectangle(opposite)
 
 
 class KDTree(object):
@@ -1175,41 +1187,32 @@ class HaversineDistanceKDTree(KDTree):
         self.tree = self._build(indices, self.maxes, self.mins)
 
     def _query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf):
-
-        metric = np.array([1.0] * x.size)
-        metric[1] = math.cos(x[1] * math.pi / 180.0)
-        side_distances = np.maximum(0, np.maximum(x - self.maxes, self.mins - x)) * metric
-        if p != np.inf:
-            side_distances **= p
-            min_distance = np.sum(side_distances)
-        else:
-            min_distance = np.amax(side_distances)
+        """Find the nearest neighbours of a point, with their distances in kilometres.
+        :param p: (NOT USED)
+        """
+        rect = RectangleHaversine(self.maxes, self.mins)
 
         # priority queue for chasing nodes
         # entries are:
         #  minimum distance between the cell and the target
-        #  distances between the nearest side of the cell and the target
+        #  counter to keep the entries ordered
         #  the head node of the cell
-        q = [(min_distance,
-              tuple(side_distances),
-              self.tree)]
+        #  the cell
+        q = [(rect.min_distance_point(x), 0, self.tree, rect)]
+        count = 1
         # priority queue for the nearest neighbors
         # furthest known neighbor first
-        # entries are (-distance**p, i)
+        # entries are (-distance, i)
         neighbors = []
 
-        if eps == 0:
-            epsfac = 1
-        elif p == np.inf:
-            epsfac = 1 / (1 + eps)
-        else:
-            epsfac = 1 / (1 + eps) ** p
-
-        if p != np.inf and distance_upper_bound != np.inf:
-            distance_upper_bound = distance_upper_bound ** p
+        epsfac = 1. / (1. + eps)
 
         while q:
-            min_distance, side_distances, node = heappop(q)
+            min_distance, _, node, rect = heappop(q)
+            # since the distance_upper_bound decreases, the cell may have become too far away
+            if min_distance > distance_upper_bound * epsfac:
+                # since this is the nearest cell, we're done, bail out
+                break
             if isinstance(node, HaversineDistanceKDTree.leafnode):
                 # brute-force
                 data = self.data[node.idx]
@@ -1222,41 +1225,14 @@ class HaversineDistanceKDTree(KDTree):
                         if len(neighbors) == k:
                             distance_upper_bound = -neighbors[0][0]
             else:
-                # we don't push cells that are too far onto the queue at all,
-                # but since the distance_upper_bound decreases, we might get
-                # here even if the cell's too far
-                if min_distance > distance_upper_bound * epsfac:
-                    # since this is the nearest cell, we're done, bail out
-                    break
-                # compute minimum distances to the children and push them on
-                if x[node.split_dim] < node.split:
-                    near, far = node.less, node.greater
-                else:
-                    near, far = node.greater, node.less
-
-                # near child is at the same distance as the current node
-                heappush(q, (min_distance, side_distances, near))
-
-                # far child is further by an amount depending only
-                # on the split value
-                sd = list(side_distances)
-                if p == np.inf:
-                    min_distance = max(min_distance, abs(node.split - x[node.split_dim]))
-                elif p == 1:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim])
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-                else:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim]) ** p
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-
-                # far child might be too far, if so, don't bother pushing it
-                if min_distance <= distance_upper_bound * epsfac:
-                    heappush(q, (min_distance, tuple(sd), far))
-
-        if p == np.inf:
-            return sorted([(-d, i) for (d, i) in neighbors])
-        else:
-            return sorted([((-d) ** (1. / p), i) for (d, i) in neighbors])
+                for child, cell in zip((node.less, node.greater), rect.split(node.split_dim, node.split)):
+                    min_distance = cell.min_distance_point(x)
+                    # cells that are too far need not be pushed
+                    if min_distance <= distance_upper_bound * epsfac:
+                        heappush(q, (min_distance, count, child, cell))
+                        count += 1
+
+        return sorted([(-d, i) for (d, i) in neighbors])
 
     def query_ball_tree(self, other, r, p=2., eps=0):
         """Find all pairs of points whose distance is at most r
-- 
2.43.0


From bf1150eef4661fe238602c41aa2aba6233d01837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 02/68] fix: allow open ended date limits in subset

The missing end of the range defaulted to a number which can't be compared with a date.
---
 cis/subsetting/subset.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 170c40b..fc7164d 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -21,6 +21,7 @@ def subset(data, constraint, **kwargs):
     :param kwargs: The limits as slices or length 2 tuples of max and min.
     :return:
     """
+    from datetime import datetime
     from cis.time_util import PartialDateTime
     from cis.exceptions import CoordinateNotFoundError
     from shapely.wkt import loads
@@ -60,9 +61,12 @@ def subset(data, constraint, **kwargs):
         else:
             raise ValueError("Invalid subset arguments: {}".format(limit))
 
-        # Fill in defaults
-        limit_start = l.start if l.start is not None else c.points.min()
-        limit_end = l.stop if l.stop is not None else c.points.max()
+        # Fill in defaults (as dates if the other limit is a date)
+        points = c.points
+        if isinstance(l.start, datetime) or isinstance(l.stop, datetime):
+            points = c.units.num2date(points)
+        limit_start = l.start if l.start is not None else points.min()
+        limit_end = l.stop if l.stop is not None else points.max()
 
         constraints[data._get_coord(dim_name).name()] = slice(limit_start, limit_end)
 
@@ -211,7 +215,7 @@ class UngriddedSubsetConstraint(SubsetConstraint):
             combined_mask = np.ones(shape, dtype=bool)
             for coord, limit in self._limits.items():
                 # Convert the points to datetimes if the limit is a datetime
-                if isinstance(limit.start, datetime):
+                if isinstance(limit.start, datetime) or isinstance(limit.stop, datetime):
                     points = _data.coord(coord).units.num2date(_data.coord(coord).data)
                 else:
                     points = _data.coord(coord).data
-- 
2.43.0


From c47776234bcc283e30006b35d29be335387b5f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 03/68] fix: return None from an ungridded list subset which
 selects no points

None was appended to the output list, which raised a TypeError.
---
 cis/subsetting/subset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index fc7164d..ef1194c 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -202,7 +202,11 @@ class UngriddedSubsetConstraint(SubsetConstraint):
             # so we can just call this method recursively if we've got a list of data.
             output = UngriddedDataList()
             for var in data:
-                output.append(self.constrain(var))
+                subsetted = self.constrain(var)
+                if subsetted is None:
+                    # The same points are selected for each variable, so there are none for any of them
+                    return None
+                output.append(subsetted)
             return output
 
         _data = self._create_data_for_subset(data)
-- 
2.43.0


From 8845d2bdba92a361c07682cb8028720ecdcd6565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 04/68] fix: compare longitudes modulo 360 in ungridded subset

Points were missed when the limits and the data were not both in one of the
conventions -180 to 180 or 0 to 360.
---
 cis/subsetting/subset.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index ef1194c..6cfec4b 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -258,26 +258,11 @@ class UngriddedSubsetConstraint(SubsetConstraint):
                 # E.g. shape...
                 continue
             if coord.standard_name == 'longitude':
-                coord_min = coord.points.min()
-                coord_max = coord.points.max()
-                data_below_zero = coord_min < 0
-                data_above_180 = coord_max > 180
-                limits_below_zero = limit.start < 0 or limit.stop < 0
-                limits_above_180 = limit.start > 180 or limit.stop > 180
-
-                if data_below_zero and not data_above_180:
-                    # i.e. data is in the range -180 -> 180
-                    # Only convert the data if the limits are above 180:
-                    if limits_above_180 and not limits_below_zero:
-                        # Convert data from -180 -> 180 to 0 -> 360
-                        range_start = 0
-                        coord.set_longitude_range(range_start)
-                elif data_above_180 and not data_below_zero:
-                    # i.e. data is in the range 0 -> 360
-                    if limits_below_zero and not limits_above_180:
-                        # Convert data from 0 -> 360 to -180 -> 180
-                        range_start = -180
-                        coord.set_longitude_range(range_start)
+                # Move any points which aren't already within the limits by the number of whole turns which put them
+                # less than one turn above the start.
+                points = coord.points
+                outside = (points < limit.start) | (points > limit.stop)
+                coord.data = np.where(outside, points + 360.0 * np.ceil((limit.start - points) / 360.0), points)
         return data
 
 
-- 
2.43.0


From c8f67912337f843dedfe6dd3a4a4df5cb0704d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 05/68] fix: mask every point outside the shape, in every
 variable, whatever the axis order

---
 cis/subsetting/subset.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 6cfec4b..8e0c2eb 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -5,6 +5,7 @@ import logging
 import numpy as np
 import iris
 import iris.coords
+from iris.util import broadcast_to_shape
 
 import cis.data_io.gridded_data as gridded_data
 
@@ -138,12 +139,11 @@ class GriddedSubsetConstraint(SubsetConstraint):
         if _shape is not None:
             if data.ndim > 2:
                 raise NotImplementedError("Unable to perform shape subset for multidimensional gridded datasets")
-            mask = np.ones(data.shape, dtype=bool)
-            mask[np.unravel_index(_get_gridded_subset_region_indices(data, _shape), data.shape)] = False
-            if isinstance(data.data, np.ma.MaskedArray):
-                data.data.mask &= mask
-            else:
-                data.data = np.ma.masked_array(data.data, mask)
+            for cube in (data if isinstance(data, list) else [data]):
+                mask = np.ones(cube.data.size, dtype=bool)
+                mask[_get_gridded_subset_region_indices(cube, _shape)] = False
+                # Points outside the shape are masked in addition to any which already are
+                cube.data = np.ma.masked_where(mask.reshape(cube.shape), cube.data)
         return gridded_data.make_from_cube(data)
 
     def _make_extract_and_intersection_constraints(self, data):
@@ -211,7 +211,9 @@ class UngriddedSubsetConstraint(SubsetConstraint):
 
         _data = self._create_data_for_subset(data)
 
-        _shape = self._limits.pop('shape', None)
+        # Keep the shape for any other variables in a list of data
+        self._shape = self._limits.pop('shape', self._shape)
+        _shape = self._shape
 
         if self._combined_mask is None:
             # Create the combined mask across all limits
@@ -274,7 +276,7 @@ def _get_indices_for_lat_lon_points(lats, lons, region):
 
     # Performance in this loop might be an issue, but I think it's essentially how GeoPandas does it. If I want to
     #  improve it I might need to look at using something like rtree.
-    return [i for i, p in enumerate(points.geoms) if region.contains(p)]
+    return np.array([i for i, p in enumerate(points.geoms) if region.contains(p)], dtype=int)
 
 
 def _get_ungridded_subset_region_indices(ungridded_data, region):
@@ -284,5 +286,11 @@ def _get_ungridded_subset_region_indices(ungridded_data, region):
 
 def _get_gridded_subset_region_indices(gridded_data, region):
     # Using X and Y is a bit more general than lat and lon - the shapefiles needn't actually represent lat/lon
-    x, y = np.meshgrid(gridded_data.coord(axis='X').points, gridded_data.coord(axis='Y').points)
-    return _get_indices_for_lat_lon_points(x.flat, y.flat, region)
+    x, y = [_broadcast_to_data_shape(gridded_data, gridded_data.coord(axis=axis)) for axis in ('X', 'Y')]
+    return _get_indices_for_lat_lon_points(x.flatten(), y.flatten(), region)
+
+
+def _broadcast_to_data_shape(gridded_data, coord):
+    dims = gridded_data.coord_dims(coord)
+    points = coord.points if dims else coord.points.reshape(())
+    return broadcast_to_shape(points, gridded_data.shape, dims)
-- 
2.43.0


From 909efaed06f46aff133173ef557c1dda85b79300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 06/68] fix: keep bounds, direction and auxiliary coordinates
 in step when setting a longitude range

---
 cis/data_io/Coord.py        |  3 +-
 cis/data_io/gridded_data.py | 84 ++++++++++++++++---------------------
 2 files changed, 36 insertions(+), 51 deletions(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 929da80..0fd7294 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -109,8 +109,7 @@ class Coord(LazyData):
 
         :param float range_start: Start of the longitude range
         """
-        self._data = fix_longitude_range(self._data, range_start)
-        self._data_flattened = None
+        self.data = fix_longitude_range(self.data, range_start)
 
     def copy(self, data=None):
         """
diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index dd60cdf..f1a1275 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -8,6 +8,7 @@ import numpy as np
 from cis.data_io.common_data import CommonData, CommonDataList
 from cis.data_io.hyperpoint import HyperPoint
 from cis.data_io.hyperpoint_view import GriddedHyperPointView
+from cis.utils import fix_longitude_range
 import six
 
 
@@ -200,58 +201,43 @@ class GriddedData(iris.cube.Cube, CommonData):
         if len(lon_coord) == 0:
             return
         lon_coord = lon_coord[0]
-        lon_idx = self.dim_coords.index(lon_coord)
-        # Check if there are bounds which we will need to wrap as well
-        roll_bounds = (lon_coord.bounds is not None) and (lon_coord.bounds.size != 0)
-        idx1 = np.searchsorted(lon_coord.points, range_start)
-        idx2 = np.searchsorted(lon_coord.points, range_start + 360.)
-        shift = 0
-        new_lon_points = None
-        new_lon_bounds = None
-        if 0 < idx1 < len(lon_coord.points):
-            shift = -idx1
-            lon_min = lon_coord.points[idx1]
-            new_lon_points = np.roll(lon_coord.points, shift, 0)
-            # Calculate which indices need 360 adding to them...
-            indices_to_shift_value_of = new_lon_points < lon_min
-            # ... then, add 360 to all those longitude values
-            new_lon_points[indices_to_shift_value_of] += 360.0
-            if roll_bounds:
-                # If the coordinate has bounds then roll those as well
-                new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
-                # And shift all of the bounds (upper and lower) for those points which we had to shift. We can't do the
-                # check independently because there may be cases where an upper or lower bound falls outside of the
-                # 360 range, we leave those as they are to preserve monotonicity. See e.g.
-                # test_set_longitude_bounds_wrap_at_360
-                new_lon_bounds[indices_to_shift_value_of] += 360.0
-        elif 0 < idx2 < len(lon_coord.points):
-            shift = len(lon_coord.points) - idx2
-            lon_max = lon_coord.points[idx2]
-            new_lon_points = np.roll(lon_coord.points, shift, 0)
-            indices_to_shift_value_of = new_lon_points >= lon_max
-            new_lon_points[indices_to_shift_value_of] -= 360.0
-            if roll_bounds:
-                new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
-                # See comment above re preserving monotinicity.
-                new_lon_bounds[indices_to_shift_value_of] -= 360.0
-        if shift != 0:
-            # Ensure we also roll any auxilliary coordinates
+        # Work out the number of whole turns to move each point by (rather than the new value directly) so that we can
+        # move the bounds of each cell along with its point, and don't change the points which don't need to move.
+        wrapped_points = fix_longitude_range(lon_coord.points, range_start)
+        turns = 360.0 * np.round((wrapped_points - lon_coord.points) / 360.0)
+        if not turns.any():
+            return
+        new_lon_points = lon_coord.points + turns
+        # We can't wrap the bounds independently because there may be cases where an upper or lower bound falls outside
+        # of the 360 range, we leave those as they are to preserve monotonicity. See e.g.
+        # test_set_longitude_bounds_wrap_at_360
+        new_lon_bounds = lon_coord.bounds + turns[..., np.newaxis] if lon_coord.has_bounds() else None
+
+        if lon_coord in self.dim_coords:
+            lon_idx = self.coord_dims(lon_coord)[0]
+            # Rotate so that the points keep the direction they had
+            ascending = lon_coord.points[0] <= lon_coord.points[-1]
+            first = np.argmin(new_lon_points) if ascending else np.argmax(new_lon_points)
+            order = np.roll(np.arange(len(new_lon_points)), -first)
+            new_lon_points = new_lon_points[order]
+            if new_lon_bounds is not None:
+                new_lon_bounds = new_lon_bounds[order]
+            # Ensure we also rotate any auxilliary coordinates which span the longitude dimension
             for aux_coord in self.aux_coords:
-                # Find all of the data dimensions which the auxiliary coordinate spans...
                 dims = self.coord_dims(aux_coord)
-                # .. and check if longitude is one of those dimensions
                 if lon_idx in dims:
-                    # Now roll the axis of the auxiliary coordinate which is associated with the longitude data
-                    # dimension: dims.index(lon_idx)
-                    new_points = np.roll(aux_coord.points, shift, dims.index(lon_idx))
-                    aux_coord.points = new_points
-            # Now roll the data itself
-            new_data = np.roll(self.data, shift, lon_idx)
-            self.data = new_data
-            # Put the new coordinates back in their relevant places
-            self.dim_coords[lon_idx].points = new_lon_points
-            if roll_bounds:
-                self.dim_coords[lon_idx].bounds = new_lon_bounds
+                    new_bounds = aux_coord.bounds
+                    if new_bounds is not None:
+                        new_bounds = new_bounds.take(order, axis=dims.index(lon_idx))
+                    aux_coord.points = aux_coord.points.take(order, axis=dims.index(lon_idx))
+                    aux_coord.bounds = new_bounds
+            # Now rotate the data itself
+            self.data = self.data.take(order, axis=lon_idx)
+
+        # Put the new coordinate values in place
+        lon_coord.bounds = None
+        lon_coord.points = new_lon_points
+        lon_coord.bounds = new_lon_bounds
 
     def add_attributes(self, attributes):
         """
-- 
2.43.0


From 1534d5aff51ea8326cf337f70f74f6e1a612882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 07/68] fix: an aggregation range without a step spans the
 whole range

---
 cis/parse.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 94621a1..ea4b0a7 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -462,17 +462,20 @@ def get_aggregate_grid(aggregategrid, parser):
             # This is for gridded aggregation where we just have a list of dims with no grid
             grid_dict[match.group('dim')] = None
         elif match.group('end') is None:
-            parser.error("A dimension for aggregation has a start point but no end or delta value, an end and a delta "
-                         "value must be supplied, for example x=[0,360,30].")
-        elif match.group('delta') is None:
-            parser.error("A dimension for aggregation has a start point but no delta value, a delta value must be "
+            parser.error("A dimension for aggregation has a start point but no end value, an end value must be "
                          "supplied, for example x=[0,360,30].")
         else:
             dim_name = match.group('dim')
 
             start_parsed = parse_as_number_or_datetime(match.group('start'))
             end_parsed = parse_as_number_or_datetime(match.group('end'))
-            delta_parsed = parse_as_number_or_datetime_delta(match.group('delta'))
+            if match.group('delta') is not None:
+                delta_parsed = parse_as_number_or_datetime_delta(match.group('delta'))
+            elif start_parsed is None or end_parsed is None:
+                parser.error("A dimension for aggregation without a delta value must have both a start and an end value")
+            else:
+                # If the step is missed out the bin spans the whole range
+                delta_parsed = end_parsed - start_parsed
 
             if dim_name.lower() == 'x':
                 if not start_parsed <= end_parsed:
-- 
2.43.0


From 7f95bc2296a0f46ff53e234f53d9af1caee921df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 08/68] fix: no spurious aggregation cell because of rounding

---
 cis/aggregation/ungridded_aggregator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cis/aggregation/ungridded_aggregator.py b/cis/aggregation/ungridded_aggregator.py
index 6f356e9..2b71004 100644
--- a/cis/aggregation/ungridded_aggregator.py
+++ b/cis/aggregation/ungridded_aggregator.py
@@ -142,7 +142,10 @@ class UngriddedAggregator(object):
 
 def aggregation_grid_array(start, end, delta):
     from cis.time_util import cis_standard_time_unit
-    new_grid = np.arange(start + delta / 2, end + delta / 2, delta)
+    # Allow for rounding errors when working out how many cells it takes to cover the range, otherwise a range such as
+    # [0, 0.3, 0.1] could end up with a spurious cell beyond its end.
+    n_cells = int(np.ceil(round((end - start) / delta, 6)))
+    new_grid = np.array([start + (i + 0.5) * delta for i in range(n_cells)])
     if 'datetime64' in str(new_grid.dtype):
         # This goes via datetimes with all the associated overheads but is probably safer than doing it manually
         new_grid = cis_standard_time_unit.date2num(new_grid.astype(datetime))
-- 
2.43.0


From 1a3f32cdb85264f91911bfd0ada662139a53248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 09/68] fix: data points without a latitude, and several turns
 away from the longitude range

---
 cis/data_io/hyperpoint_view.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index 8238e06..b6c6186 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -71,7 +71,7 @@ class UngriddedHyperPointView(HyperPointView):
         self.data = data
         self.coords = coords
         # Data and all coordinates should have the same size.
-        self.length = coords[0].size
+        self.length = next(c.size for c in coords if c is not None)
         self.non_masked_iteration = non_masked_iteration
 
     def __getitem__(self, item):
@@ -158,11 +158,9 @@ class UngriddedHyperPointView(HyperPointView):
         if self.longitude is None:
             return
 
-        range_end = range_start + 360.0
-
         longitudes = self.coords[HyperPoint.LONGITUDE]
-        longitudes = np.where(longitudes < range_start, longitudes + 360, longitudes)
-        self.coords[HyperPoint.LONGITUDE] = np.where(longitudes >= range_end, longitudes - 360, longitudes)
+        turns = np.floor((longitudes - range_start) / 360.0)
+        self.coords[HyperPoint.LONGITUDE] = np.where(turns != 0, longitudes - 360 * turns, longitudes)
 
     @property
     def vals(self):
-- 
2.43.0


From 6e6707a30cf2ea07cbb2456d38652db804cdb5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 10/68] fix: bin points into cells with gaps between them and
 on descending axes

---
 cis/collocation/data_index.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/cis/collocation/data_index.py b/cis/collocation/data_index.py
index a80c080..7d187f2 100644
--- a/cis/collocation/data_index.py
+++ b/cis/collocation/data_index.py
@@ -45,7 +45,7 @@ class GridCellBinIndexInSlices(object):
         coord_descreasing = [False] * len(coords)
         coord_lengths = [0] * len(coords)
         lower_bounds = [None] * len(coords)
-        max_bounds = [None] * len(coords)
+        upper_bounds = [None] * len(coords)
         for (hpi, ci, shi) in coord_map:
             coord = coords[ci]
             # Coordinates must be monotonic; determine whether increasing or decreasing.
@@ -53,12 +53,12 @@ class GridCellBinIndexInSlices(object):
                 if coord.points[1] < coord.points[0]:
                     coord_descreasing[shi] = True
             coord_lengths[shi] = len(coord.points)
+            # The bounds of each cell in ascending order, whichever way round they (or the cells) are given
+            lower_bounds[shi] = coord.bounds.min(axis=1)
+            upper_bounds[shi] = coord.bounds.max(axis=1)
             if coord_descreasing[shi]:
-                lower_bounds[shi] = coord.bounds[::-1, 1]
-                max_bounds[shi] = coord.bounds[0, 1]
-            else:
-                lower_bounds[shi] = coord.bounds[::, 0]
-                max_bounds[shi] = coord.bounds[-1, 1]
+                lower_bounds[shi] = lower_bounds[shi][::-1]
+                upper_bounds[shi] = upper_bounds[shi][::-1]
 
             hp_coord = hyper_points.coords[hpi]
             if isinstance(hp_coord[0], datetime.datetime):
@@ -66,25 +66,24 @@ class GridCellBinIndexInSlices(object):
 
             hp_coords.append(hp_coord)
 
-        bounds_coords_max = list(zip(lower_bounds, hp_coords, max_bounds))
+        bounds_coords = list(zip(lower_bounds, hp_coords, upper_bounds))
 
         # stack for each coordinate
-        #    where the coordinate is larger than the maximum set to -1
-        #    otherwise search in the sorted coordinate to find all the index of the hyperpoints
+        #    search in the sorted coordinate to find all the index of the hyperpoints
+        #    where the coordinate is larger than the upper bound of that cell set to -1
         # The choice of 'left' or 'right' and '<' and '<=' determines which
         #  cell is chosen when the coordinate is equal to the boundary.
         # -1 or M_i indicates the point is outside the grid.
         # Output is a list of coordinates which lists the indexes where the hyper points
         #    should be located in the grid
-        indices = np.vstack(
-            [np.where(
-                 ci < max_coordinate_value,
-                 np.searchsorted(bi, ci, side='right') - 1,
-                 -1)
-             for bi, ci, max_coordinate_value in bounds_coords_max])
+        indices = []
+        for lower, ci, upper in bounds_coords:
+            cell = np.searchsorted(lower, ci, side='right') - 1
+            indices.append(np.where(ci < upper[cell], cell, -1))
+        indices = np.vstack(indices)
 
         # D-tuple giving the shape of the output grid
-        grid_shape = tuple(len(bi_ci[0]) for bi_ci in bounds_coords_max)
+        grid_shape = tuple(len(bi_ci[0]) for bi_ci in bounds_coords)
 
         # shape (N,) telling which points actually fall within the grid,
         # i.e. have indexes that are not -1 and are not masked data points
-- 
2.43.0


From 26f8b2f25f30747b1569805b08c362b9dab00fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 11/68] fix: bin longitudes and missing samples of the grid
 correctly

---
 cis/collocation/col_implementations.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 3267b57..1f8892d 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -822,7 +822,7 @@ class GeneralGriddedCollocator(Collocator):
             shape.append(coord.shape[0])
             output_coords.append(coord)
 
-        _fix_longitude_range(coords, data_points)
+        self._fix_longitude_range(coords, data_points)
 
         log_memory_profile("GeneralGriddedCollocator Created output coord map")
 
@@ -905,6 +905,20 @@ class GeneralGriddedCollocator(Collocator):
 
         return output
 
+    @staticmethod
+    def _fix_longitude_range(coords, data_points):
+        """Sets the longitude range of the data points to start at the lower edge of the grid cells, as these may cross
+        the edge of the usual ranges
+        :param coords: coordinates for grid on which to collocate
+        :param data_points: HyperPointList of data to fix
+        """
+        for coord in coords:
+            if coord.standard_name == 'longitude':
+                range_start = coord.bounds.min() if coord.has_bounds() else coord.points.min()
+                # Fully collapsed coordinates have infinite bounds
+                if np.isfinite(range_start):
+                    data_points.set_longitude_range(range_start)
+
     def _set_multi_value_kernel(self, kernel_val, values, indices):
         # This kernel returns multiple values:
         for idx, val in enumerate(kernel_val):
@@ -1001,7 +1015,9 @@ class BinnedCubeCellOnlyConstraint(Constraint):
     def get_iterator(self, missing_data_for_missing_sample, coord_map, coords, data_points, shape, points, output_data):
 
         for out_indices, slice_start_end in self.grid_cell_bin_index_slices.get_iterator():
-            if not missing_data_for_missing_sample or points.data[out_indices] is not np.ma.masked:
+            # Remap the indices to match the data coordinate order, using the coord_map provided
+            remapped_indices = tuple(np.asarray(out_indices)[[c[2] for c in sorted(coord_map, key=lambda x: x[1])]])
+            if not missing_data_for_missing_sample or points.data[remapped_indices] is not np.ma.masked:
                 # iterate through the points which are within the same cell
 
                 con_points = HyperPointList()
-- 
2.43.0


From ddfdb78437c49877b34f37401075495d9343c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 12/68] fix: apply a zero h_sep, index data without points, and
 honour the output names

---
 cis/collocation/col_implementations.py | 30 ++++++++++++++++----------
 cis/collocation/kdtree.py              |  5 +++--
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 1f8892d..2bee130 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -65,12 +65,10 @@ class GeneralUngriddedCollocator(Collocator):
         logging.info("--> Collocating...")
 
         # Create output arrays.
-        self.var_name = data.var_name
-        self.var_long_name = data.long_name
-        self.var_standard_name = data.standard_name
-        self.var_units = data.units
-        var_set_details = kernel.get_variable_details(self.var_name, self.var_long_name,
-                                                      self.var_standard_name, self.var_units)
+        var_set_details = kernel.get_variable_details(self.var_name or data.var_name,
+                                                      self.var_long_name or data.long_name,
+                                                      data.standard_name,
+                                                      self.var_units or data.units)
 
         sample_points_count = len(sample_points)
         # Create an empty masked array to store the collocated values. The elements will be unmasked by assignment.
@@ -83,8 +81,11 @@ class GeneralUngriddedCollocator(Collocator):
 
         if isinstance(kernel, nn_horizontal_only):
             # Only find the nearest point using the kd-tree, without constraint in other dimensions
-            nearest_points = data_points.iloc[constraint.haversine_distance_kd_tree_index.find_nearest_point(sample_points)]
-            values[0, :] = nearest_points.vals.values
+            if len(data_points) > 0:
+                nearest_points = data_points.iloc[constraint.haversine_distance_kd_tree_index.find_nearest_point(sample_points)]
+                values[0, :] = nearest_points.vals.values
+                if self.missing_data_for_missing_sample and 'vals' in sample_points:
+                    values[0, np.isnan(sample_points.vals.values)] = np.ma.masked
         else:
             for i, point, con_points in constraint.get_iterator(self.missing_data_for_missing_sample, None, None,
                                                                 data_points, None, sample_points, None):
@@ -308,7 +309,7 @@ class SepConstraintKdtree(PointConstraint):
         return np.concatenate([lesser_pressures, greater_pressures])
 
     def constrain_points(self, ref_point, data):
-        if self.haversine_distance_kd_tree_index and self.h_sep:
+        if self.haversine_distance_kd_tree_index and self.h_sep is not None:
             point_indices = self._get_cached_indices(ref_point)
             if point_indices is None:
                 point_indices = self.haversine_distance_kd_tree_index.find_points_within_distance(ref_point, self.h_sep)
@@ -336,7 +337,7 @@ class SepConstraintKdtree(PointConstraint):
 
         indices = False
 
-        if self.haversine_distance_kd_tree_index and self.h_sep:
+        if self.haversine_distance_kd_tree_index and self.h_sep is not None:
             indices = self.haversine_distance_kd_tree_index.find_points_within_distance_sample(points, self.h_sep)
 
         for i, p in points.iterrows():
@@ -469,6 +470,13 @@ class nn_horizontal(Kernel):
               data are a list of HyperPoints. The default point is the first point.
         """
         from cis.collocation.kdtree import haversine
+
+        def distance(point1, point2):
+            """
+                Computes the distance between two points, whatever the order of their coordinates
+            """
+            return haversine(*[np.array([p.latitude, p.longitude]) for p in (point1, point2)])
+
         iterator = data.iterrows()
         try:
             nearest_point = next(iterator)[1]
@@ -476,7 +484,7 @@ class nn_horizontal(Kernel):
             # No points to check
             raise ValueError
         for idx, data_point in iterator:
-            if (haversine(point, nearest_point) > haversine(point, data_point)):
+            if distance(point, nearest_point) > distance(point, data_point):
                 nearest_point = data_point
         return nearest_point.vals
 
diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index f814747..1d3d062 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -1177,8 +1177,9 @@ class HaversineDistanceKDTree(KDTree):
         self.leafsize = int(leafsize)
         if self.leafsize < 1:
             raise ValueError("leafsize must be at least 1")
-        self.maxes = np.amax(self.data, axis=0)
-        self.mins = np.amin(self.data, axis=0)
+        # There may be no points at all
+        self.maxes = np.amax(self.data, axis=0) if self.n else np.zeros(self.m)
+        self.mins = np.amin(self.data, axis=0) if self.n else np.zeros(self.m)
 
         indices = np.arange(self.n)
         if mask is not None:
-- 
2.43.0


From f9910a470ab745dd8c2370397a1522ebb01acebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 13/68] fix: interpolate onto points over any axis direction,
 axis order, mask or longitude range

---
 cis/collocation/col_implementations.py   |   9 --
 cis/collocation/gridded_interpolation.py | 123 +++++++++++++----------
 2 files changed, 69 insertions(+), 63 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 2bee130..ca112c1 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -153,15 +153,6 @@ class GriddedUngriddedCollocator(Collocator):
 
         if constraint is not None and not isinstance(constraint, DummyConstraint):
             raise ValueError("A constraint cannot be specified for the GriddedUngriddedCollocator")
-        data_points = data
-
-        # First fix the sample points so that they all fall within the same 360 degree longitude range
-        _fix_longitude_range(points.coords(), points)
-        # Then fix the data points so that they fall onto the same 360 degree longitude range as the sample points
-        _fix_longitude_range(points.coords(), data_points)
-
-        log_memory_profile("GriddedUngriddedCollocator after data retrieval")
-
         logging.info("--> Collocating...")
         logging.info("    {} sample points".format(points.size))
 
diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index dc234c2..7851323 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -39,12 +39,24 @@ def extend_circular_data(data, coord_dim):
     coord_slice_in_cube = [slice(None)] * data.ndim
     coord_slice_in_cube[coord_dim] = slice(0, 1)
 
-    data = np.append(data,
-                     data[tuple(coord_slice_in_cube)],
-                     axis=coord_dim)
+    data = np.ma.append(data,
+                        data[tuple(coord_slice_in_cube)],
+                        axis=coord_dim)
     return data
 
 
+def move_longitudes_to_grid(longitudes, grid_points):
+    """
+    Move longitudes by the number of whole turns which puts them within the grid, or as close to it as possible.
+
+    :param ndarray longitudes: The longitudes to move
+    :param ndarray grid_points: The (increasing) longitudes of the grid
+    :return ndarray: The same longitudes in the range which is centered on the grid
+    """
+    range_start = (grid_points[0] + grid_points[-1]) / 2.0 - 180.0
+    return longitudes - 360.0 * np.floor((longitudes - range_start) / 360.0)
+
+
 class GriddedUngriddedInterpolator(object):
 
     def __init__(self, _data, sample, method='lin', missing_data_for_missing_sample=False):
@@ -58,20 +70,19 @@ class GriddedUngriddedInterpolator(object):
         :param UngriddedData sample: The points to sample the source data at.
         :param str method: The interpolation method to use (either 'linear' or 'nearest'). Default is 'linear'.
         """
-        from cis.utils import move_item_to_end
         coords = []
         grid_points = []
+        sample_points = []
         self._circular_coord_dims = []
         self._decreasing_coord_dims = []
 
-        # If we have hybrid coordinates then ensure that the vertical dimension of the cube is last, as we will be
-        #  performing partial interpolations to pull out vertical columns - which only works if the vertical dim is last
+        # If we have hybrid coordinates then ensure that the vertical dimension of the cube (the one which the sample
+        #  doesn't have) is last, as we will be performing partial interpolations to pull out vertical columns - which
+        #  only works if the vertical dim is last.
         # We do this first so that the coordinates are pulled out in the correct, new, order.
-        if len(_data.aux_factories) > 0:
-            vertical_dim = _data.coord_dims(_data.aux_factories[0].sigma)[0]
-            self._data_transpose = move_item_to_end(range(_data.ndim), vertical_dim)
-        else:
-            self._data_transpose = list(range(_data.ndim))
+        sampled_dims = sorted(_data.coord_dims(coord)[0] for coord in _data.coords(dim_coords=True)
+                              if len(sample.coords(standard_name=coord.name())) > 0)
+        self._data_transpose = sampled_dims + [dim for dim in range(_data.ndim) if dim not in sampled_dims]
 
         # Unfortunately transpose works in place, so make a copy of the data first
         data = _data.copy()
@@ -88,7 +99,7 @@ class GriddedUngriddedInterpolator(object):
                 decreasing = (coord_points.size > 1 and
                               coord_points[1] < coord_points[0])
                 if decreasing:
-                    self._decreasing_coord_dims.append(decreasing)
+                    self._decreasing_coord_dims.append(coord_dim)
                     coord_points = coord_points[::-1]
 
                 if getattr(coord, 'circular', False):
@@ -96,34 +107,33 @@ class GriddedUngriddedInterpolator(object):
                     coord_points = extend_circular_coord(coord, coord_points)
 
                 grid_points.append(coord_points)
-
-        sample_points = [sample.coord(c).data_flattened for c in coords]
-
-        if len(data.coords('altitude', dim_coords=False)) > 0 and sample.coords(standard_name='altitude'):
-            hybrid_dims = data.coord_dims(data.coord('altitude'))
-            hybrid_coord = data.coord('altitude').points
-            for coord_dim in self._circular_coord_dims:
-                # Lookup the dimension on the hybrid data array
-                hybrid_coord_dim = hybrid_dims.index(coord_dim)
-                hybrid_coord = extend_circular_data(hybrid_coord, hybrid_coord_dim)
-            sample_points.append(sample.coord(standard_name="altitude").data_flattened)
-        elif len(data.coords('air_pressure', dim_coords=False)) > 0 and sample.coords(standard_name='air_pressure'):
-            hybrid_coord = data.coord('air_pressure').points
-            for coord_dim in self._circular_coord_dims:
-                hybrid_coord = extend_circular_data(hybrid_coord, coord_dim)
-            hybrid_dims = data.coord_dims(data.coord('air_pressure'))
-            sample_points.append(sample.coord(standard_name="air_pressure").data_flattened)
-        else:
-            hybrid_coord = None
-            hybrid_dims = None
+                coord_sample = sample.coord(coord.name()).data_flattened
+                if coord.standard_name == 'longitude':
+                    coord_sample = move_longitudes_to_grid(coord_sample, coord_points)
+                sample_points.append(coord_sample)
+
+        hybrid_coord = None
+        hybrid_dims = None
+        if len(coords) == data.ndim - 1:
+            for name in ('altitude', 'air_pressure'):
+                if len(data.coords(name, dim_coords=False)) > 0 and sample.coords(standard_name=name):
+                    hybrid_dims = data.coord_dims(data.coord(name))
+                    if data.ndim - 1 not in hybrid_dims:
+                        continue
+                    # Order the dimensions as they are in the data
+                    hybrid_coord = data.coord(name).points.transpose(np.argsort(hybrid_dims))
+                    hybrid_dims = tuple(sorted(hybrid_dims))
+                    hybrid_coord = self._account_for_inverted_and_circular(hybrid_coord, hybrid_dims)
+                    sample_points.append(sample.coord(standard_name=name).data_flattened)
+                    break
 
         if len(sample_points) != len(data.shape):
             raise ValueError("Sample points do not uniquely define gridded data source points, invalid "
                              "dimenions: {} and {} respectively".format(len(sample_points), len(data.shape)))
 
         # Check if we want to sample missing points
-        if missing_data_for_missing_sample and hasattr(sample.data, 'mask'):
-            self.missing_mask = sample.data.mask.flatten()
+        if missing_data_for_missing_sample and isinstance(getattr(sample, 'data', None), np.ma.MaskedArray):
+            self.missing_mask = np.ma.getmaskarray(sample.data).flatten()
             sample_points = [p[~self.missing_mask] for p in sample_points]
         else:
             self.missing_mask = None
@@ -131,22 +141,19 @@ class GriddedUngriddedInterpolator(object):
         self._interp = _RegularGridInterpolator(grid_points, sample_points,
                                                 hybrid_coord=hybrid_coord, hybrid_dims=hybrid_dims, method=method)
 
-    def _get_dims_order(self, data, coords):
+    def _account_for_inverted_and_circular(self, data, dims):
         """
-        Return the dims with the vertical coord last. There must be a nicer way of doing this...
+        Reverse and extend an array in the same way as the coordinates which it depends on
+
+        :param ndarray data: Array to change
+        :param iterable dims: The dimension of the gridded data which each dimension of the array corresponds to
+        :return ndarray: The changed array
         """
-        # Find the only dimension coordinate we haven't yet accounted for - this must be the vertical
-        vertical_coord = list(set([c.name() for c in data.coords(dim_coords=True)]).difference(set(coords)))[0]
-        vertical_dim = data.coord_dims(vertical_coord)[0]
-        # The dim order is just the range of the dims with the vertical dim moved to the end.
-        self._data_transpose.pop(vertical_dim)
-        self._data_transpose.append(vertical_dim)
-
-    def _account_for_inverted(self, data):
-        dim_slices = [slice(None)] * data.ndim
-        for dim in self._decreasing_coord_dims:
-                dim_slices[dim] = slice(-1, None, -1)
-        data = data[tuple(dim_slices)]
+        for idx, dim in enumerate(dims):
+            if dim in self._decreasing_coord_dims:
+                data = np.flip(data, idx)
+            if dim in self._circular_coord_dims:
+                data = extend_circular_data(data, idx)
         return data
 
     def __call__(self, data, fill_value=np.nan, extrapolate=False):
@@ -166,11 +173,8 @@ class GriddedUngriddedInterpolator(object):
 
         # Apply a transpose if we need to so that the indices line-up correctly
         data_array = data.data.transpose(self._data_transpose)
-        # Account for any circular coords present
-        for dim in self._circular_coord_dims:
-            data_array = extend_circular_data(data_array, dim)
-
-        data_array = self._account_for_inverted(data_array)
+        # Account for any decreasing or circular coords present
+        data_array = self._account_for_inverted_and_circular(data_array, range(data_array.ndim))
 
         result = self._interp(data_array, fill_value=fill_value)
 
@@ -370,7 +374,11 @@ class _RegularGridInterpolator(object):
             i[i < 0] = 0
             i[i > coord.size - 2] = coord.size - 2
 
-            norm_distances.append((x - coord[i]) / (coord[i + 1] - coord[i]))
+            if coord.size > 1:
+                norm_distances.append((x - coord[i]) / (coord[i + 1] - coord[i]))
+            else:
+                # There is only one point to choose from
+                norm_distances.append(np.zeros(x.shape))
             indices.append(i)
 
             out_of_bounds += x < coord[0]
@@ -379,6 +387,13 @@ class _RegularGridInterpolator(object):
 
     @staticmethod
     def _find_vertical_index(point, coord):
+        if coord.size == 1:
+            # There is only one level to choose from
+            return -1, 0.0, point != coord[0]
+        if coord[-1] < coord[0]:
+            # Look for decreasing levels from the other end
+            i, norm_distances, out_of_bounds = _RegularGridInterpolator._find_vertical_index(point, coord[::-1])
+            return coord.size - 2 - i, 1.0 - norm_distances, out_of_bounds
         i = np.searchsorted(coord, point) - 1
         if i < 0:
             i = 0
-- 
2.43.0


From 132e83b2f4270c203c1069c0e16b0c4bdd0ac01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 14/68] fix: collocate onto a grid without rotating the data,
 keeping the sample cells and the requested names

---
 cis/collocation/col_implementations.py | 30 ++++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index ca112c1..ea8e841 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -609,9 +609,6 @@ class GriddedCollocator(Collocator):
         """
         self._check_for_valid_kernel(kernel)
 
-        # Force the data longitude range to be the same as that of the sample grid.
-        _fix_longitude_range(points.coords(), data)
-
         # Initialise variables used to create an output mask based on the sample data mask.
         sample_coord_lookup = {}  # Maps coordinate in sample data -> location in dimension order
         for idx, coord in enumerate(points.coords()):
@@ -684,10 +681,13 @@ class GriddedCollocator(Collocator):
                                              coord_names_and_sizes_for_sample_grid, data,
                                              kernel, output_mask, points, self.extrapolate)
 
-        if not isinstance(output_cube, list):
-            return GriddedDataList([output_cube])
-        else:
-            return output_cube
+        output = output_cube if isinstance(output_cube, list) else GriddedDataList([output_cube])
+        for var in output:
+            var.var_name = self.var_name or var.var_name
+            var.long_name = self.var_long_name or var.long_name
+            if self.var_units:
+                var.units = self.var_units
+        return output
 
     @staticmethod
     def _make_output_mask(coord_names_and_sizes_for_sample_grid, output_shape, points, repeat_size):
@@ -718,18 +718,30 @@ class GriddedCollocator(Collocator):
                           output_mask, points, extrapolate):
         """ Collocates using iris.analysis.interpolate
         """
+        from cis.collocation.gridded_interpolation import move_longitudes_to_grid
         coordinate_point_pairs = []
         for j in range(0, len(coord_names_and_sizes_for_sample_grid)):
             # For each coordinate make the list of tuple pair Iris requires, for example
             # [('latitude', -90), ('longitude, 0')]
-            coordinate_point_pairs.append((coord_names_and_sizes_for_sample_grid[j][0],
-                                           points.dim_coords[j].points))
+            sample_coord = points.dim_coords[j]
+            sample_points = sample_coord.points
+            if sample_coord.standard_name == 'longitude':
+                # The sample longitudes might be defined over a different range to the data
+                sample_points = move_longitudes_to_grid(sample_points, data.coord(sample_coord.name()).points)
+            coordinate_point_pairs.append((coord_names_and_sizes_for_sample_grid[j][0], sample_points))
 
         # The result here will be a cube with the correct dimensions for the output, so interpolated over all points
         # in coord_names_and_sizes_for_output_grid.
         output_cube = make_from_cube(data.interpolate(coordinate_point_pairs,
                                                       kernel.interpolater(extrapolation_mode=extrapolate)))
 
+        # Put the sample coordinates on the output, exactly as they are
+        for cube in (output_cube if isinstance(output_cube, list) else [output_cube]):
+            for coord in points.dim_coords:
+                dim, = cube.coord_dims(coord.name())
+                cube.remove_coord(coord.name())
+                cube.add_dim_coord(coord.copy(), dim)
+
         # Iris outputs interpolated cubes with the dimensions in the order of the data grid, not the sample grid,
         # so we need to rearrange the order of the dimensions.
         output_coord_lookup = {}
-- 
2.43.0


From 272ec45c0fbe35b0ae9309d97de000d4a27b37d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 15/68] fix: allow box collocation onto gridded samples

---
 cis/collocation/col_implementations.py | 39 ++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index ea8e841..6855e36 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -324,6 +324,10 @@ class SepConstraintKdtree(PointConstraint):
     def get_iterator(self, missing_data_for_missing_sample, coord_map, coords, data_points, shape, points, output_data):
         cell_count = 0
         total_count = 0
+
+        if shape is not None:
+            # Then the sample is gridded, so we need to lay out its points in the order of the output
+            points = self._gridded_sample_as_data_frame(coord_map, coords, points)
         sample_points_count = len(points)
 
         indices = False
@@ -350,7 +354,27 @@ class SepConstraintKdtree(PointConstraint):
                 for check in self.checks:
                     d_points = d_points.iloc[check(d_points, p)]
 
-                yield i, p, d_points
+                yield (i if shape is None else np.unravel_index(i, shape)), p, d_points
+
+    @staticmethod
+    def _gridded_sample_as_data_frame(coord_map, coords, points):
+        """
+        Create a data frame with a row for each of the grid points, ordered in the same way as the output
+
+        :param coord_map: list of tuples relating index in HyperPoint to index in coords and in coords to be iterated over
+        :param coords: coordinates of grid
+        :param points: the gridded sample data
+        :return DataFrame: The coordinates (and values if there is one for each combination of coordinates) of the grid
+        """
+        import pandas as pd
+        grid_points = np.meshgrid(*[coords[ci].points for (hpi, ci, shi) in coord_map], indexing='ij')
+        sample = pd.DataFrame({HyperPoint.standard_names[hpi]: grid_points[shi].ravel()
+                               for (hpi, ci, shi) in coord_map})
+        sample_dims = [points.coord_dims(coords[ci])[0] for (hpi, ci, shi) in coord_map]
+        if len(sample_dims) == points.ndim:
+            values = np.ma.asarray(points.data).transpose(sample_dims).astype(float)
+            sample['vals'] = values.filled(np.nan).ravel()
+        return sample
 
 
 # noinspection PyPep8Naming
@@ -804,7 +828,11 @@ class GeneralGriddedCollocator(Collocator):
                 output_list.extend(collocated)
             return GriddedDataList(output_list)
 
-        data_points = data.get_non_masked_points()
+        if isinstance(constraint, SepConstraintKdtree):
+            # This constraint (and the kernels which can be used with it) work on data frames
+            data_points = data.as_data_frame(time_index=False, name='vals').dropna(axis=0)
+        else:
+            data_points = data.get_non_masked_points()
 
         log_memory_profile("GeneralGriddedCollocator Created data hyperpoint list view")
 
@@ -826,14 +854,15 @@ class GeneralGriddedCollocator(Collocator):
             if coord.ndim > 1:
                 raise NotImplementedError("Co-location of data onto a cube with a coordinate of dimension greater"
                                           " than one is not supported (coordinate %s)", coord.name())
-            # Ensure that bounds exist.
-            if not coord.has_bounds():
+            # Ensure that bounds exist, if we need them.
+            if not coord.has_bounds() and not isinstance(constraint, SepConstraintKdtree):
                 logging.warning("Creating guessed bounds as none exist in file")
                 coord.guess_bounds()
             shape.append(coord.shape[0])
             output_coords.append(coord)
 
-        self._fix_longitude_range(coords, data_points)
+        if not isinstance(constraint, SepConstraintKdtree):
+            self._fix_longitude_range(coords, data_points)
 
         log_memory_profile("GeneralGriddedCollocator Created output coord map")
 
-- 
2.43.0


From a1b14821e6671675c8c4e2e34633ddbb4ddcb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 16/68] fix: pass the extrapolate option on to the collocators

---
 cis/cis_main.py               | 3 +++
 cis/data_io/gridded_data.py   | 5 ++++-
 cis/data_io/ungridded_data.py | 4 +++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 126414c..953b4b7 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -89,6 +89,9 @@ def col_cmd(main_arguments):
     missing_data_for_missing_sample = check_boolean(col_options.pop('missing_data_for_missing_sample',
                                                                     str(missing_data_for_missing_sample)), logging)
 
+    if 'extrapolate' in col_options:
+        col_options['extrapolate'] = check_boolean(col_options['extrapolate'], logging)
+
     kernel = get_kernel(kern_name)(**kern_options) if kern_name else None
 
     for input_group in main_arguments.datagroups:
diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index f1a1275..7f21dd9 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -343,11 +343,13 @@ class GriddedData(iris.cube.Cube, CommonData):
         :param str var_name: The output variable name
         :param str var_long_name: The output variable's long name
         :param str var_units: The output variable's units
+        :param kwargs: Constraint arguments for the 'box' method, or 'extrapolate' for the 'lin' and 'nn' methods
         :return CommonData: The collocated dataset
         """
         from cis.collocation import col_implementations as ci
         from cis.data_io.ungridded_data import UngriddedData, UngriddedDataList
         from cis.collocation.col import collocate, get_kernel
+        col_options = {}
 
         if isinstance(data, UngriddedData) or isinstance(data, UngriddedDataList):
             col_cls = ci.GeneralGriddedCollocator
@@ -363,6 +365,7 @@ class GriddedData(iris.cube.Cube, CommonData):
             kernel = get_kernel(kernel)
         elif isinstance(data, GriddedData) or isinstance(data, GriddedDataList):
             col_cls = ci.GriddedCollocator
+            col_options['extrapolate'] = kwargs.get('extrapolate', False)
             con = None
             if kernel is not None:
                 raise ValueError("Cannot specify kernel when method is 'lin' or 'nn'")
@@ -378,7 +381,7 @@ class GriddedData(iris.cube.Cube, CommonData):
             raise ValueError("Invalid argument, data must be either GriddedData or UngriddedData")
 
         col = col_cls(missing_data_for_missing_sample=missing_data_for_missing_sample, fill_value=fill_value,
-                      var_name=var_name, var_long_name=var_long_name, var_units=var_units)
+                      var_name=var_name, var_long_name=var_long_name, var_units=var_units, **col_options)
 
         return collocate(data, self, col, con, kernel)
 
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 052d0ee..949fecb 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1223,6 +1223,7 @@ def _ungridded_sampled_from(sample, data, how='', kernel=None, missing_data_for_
     :param str var_name: The output variable name
     :param str var_long_name: The output variable's long name
     :param str var_units: The output variable's units
+    :param kwargs: Constraint arguments for the 'box' method, or 'extrapolate' for the 'lin' and 'nn' methods
     :return CommonData: The collocated dataset
     """
     from cis.collocation import col_implementations as ci
@@ -1243,7 +1244,8 @@ def _ungridded_sampled_from(sample, data, how='', kernel=None, missing_data_for_
     elif isinstance(data, GriddedData) or isinstance(data, GriddedDataList):
         col = ci.GriddedUngriddedCollocator(fill_value=fill_value, var_name=var_name, var_long_name=var_long_name,
                                             var_units=var_units,
-                                            missing_data_for_missing_sample=missing_data_for_missing_sample)
+                                            missing_data_for_missing_sample=missing_data_for_missing_sample,
+                                            extrapolate=kwargs.get('extrapolate', False))
         con = None
         if how not in ['', 'lin', 'nn']:
             raise ValueError("Invalid method specified for gridded -> ungridded collocation: " + how)
-- 
2.43.0


From c0e78760dd297b58b1489667915583ae5415fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 17/68] fix: interpolate onto columns which are the same
 everywhere

---
 cis/collocation/gridded_interpolation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index 7851323..81b8992 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -278,7 +278,11 @@ class _RegularGridInterpolator(object):
             hybrid_indices = [self.indices[i] for i in hybrid_interp_dims]
 
             # Find all of the interpolated vertical columns (one for each point)
-            v_coords = self._interp(hybrid_coord, hybrid_indices, self.norm_distances)
+            if len(hybrid_indices) > 0:
+                v_coords = self._interp(hybrid_coord, hybrid_indices, self.norm_distances)
+            else:
+                # The column is the same everywhere
+                v_coords = np.broadcast_to(hybrid_coord, (len(points.T),) + hybrid_coord.shape)
 
             self.indices.append(np.zeros(len(points.T), dtype=self.indices[0].dtype))
             self.norm_distances.append(np.zeros(len(points.T)))
-- 
2.43.0


From c59454a68ee596693396dfb80dfab9fbeab811b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 18/68] fix: leave the grid sampled onto as it is, accept
 scalar coordinates on it, and serve each variable from its own grid

---
 cis/collocation/col_implementations.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 6855e36..1fa01e5 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -124,6 +124,9 @@ class GriddedUngriddedCollocator(Collocator):
                                                          missing_data_for_missing_sample)
         self.extrapolate = extrapolate
         self.interpolator = None
+        self._interpolator_points = None
+        self._interpolator_kernel = None
+        self._interpolator_coords = None
 
     def collocate(self, points, data, constraint, kernel):
         """
@@ -156,9 +159,13 @@ class GriddedUngriddedCollocator(Collocator):
         logging.info("--> Collocating...")
         logging.info("    {} sample points".format(points.size))
 
-        if self.interpolator is None:
-            # Cache the interpolator
+        if self.interpolator is None or self._interpolator_points is not points or \
+                self._interpolator_kernel != kernel or self._interpolator_coords != data.coords():
+            # Cache the interpolator for any other variables on the same grid
             self.interpolator = GriddedUngriddedInterpolator(data, points, kernel, self.missing_data_for_missing_sample)
+            self._interpolator_points = points
+            self._interpolator_kernel = kernel
+            self._interpolator_coords = data.coords()
 
         values = self.interpolator(data, fill_value=self.fill_value, extrapolate=self.extrapolate)
 
@@ -711,6 +718,8 @@ class GriddedCollocator(Collocator):
             var.long_name = self.var_long_name or var.long_name
             if self.var_units:
                 var.units = self.var_units
+            if not np.isnan(self.fill_value):
+                np.ma.set_fill_value(var.data, self.fill_value)
         return output
 
     @staticmethod
@@ -838,7 +847,7 @@ class GeneralGriddedCollocator(Collocator):
 
         # Work out how to iterate over the cube and map HyperPoint coordinates to cube coordinates.
         coord_map = make_coord_map(points, data)
-        if self.missing_data_for_missing_sample and len(coord_map) is not len(points.coords()):
+        if self.missing_data_for_missing_sample and len(coord_map) != points.ndim:
             raise cis.exceptions.UserPrintableException(
                 "A sample variable has been specified but not all coordinates in the data appear in the sample so "
                 "there are multiple points in the sample data so whether the data is missing or not can not be "
@@ -857,6 +866,8 @@ class GeneralGriddedCollocator(Collocator):
             # Ensure that bounds exist, if we need them.
             if not coord.has_bounds() and not isinstance(constraint, SepConstraintKdtree):
                 logging.warning("Creating guessed bounds as none exist in file")
+                # Leave the sample itself as it is
+                coord = coords[ci] = coord.copy()
                 coord.guess_bounds()
             shape.append(coord.shape[0])
             output_coords.append(coord)
-- 
2.43.0


From 779333a93e4640a204bb805f2c18167dd39e7b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 19/68] fix: drop points without a time, keep flattened data in
 step, leave shared coordinates as they are, and order single points as
 HyperPoint does

---
 cis/data_io/ungridded_data.py | 46 +++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 949fecb..897ac33 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -83,7 +83,7 @@ class Metadata(object):
         string += '{pad:{width}}Missing value = {mval}\n'.format(pad=' ', width=offset, mval=self.missing_value)
         # str(tuple) returns repr(obj) on each item in the tuple, if we have a datetime tuple then we want str(obj)
         #  instead. Just make that ourselves here instead (as a str to avoid the extra quotes if we make a 'real' tuple)
-        if isinstance(self.range[0], datetime):
+        if self.range and isinstance(self.range[0], datetime):
             range_tuple = '({}, {})'.format(*self.range)
         else:
             range_tuple = self.range
@@ -397,11 +397,13 @@ class LazyData(object):
                 pass
 
             try:
+                range = (self.data.min(), self.data.max())
                 if standard_time:
-                    range = (cis_standard_time_unit.num2date(self.data.min()),
-                             cis_standard_time_unit.num2date(self.data.max()))
-                else:
-                    range = (self.data.min(), self.data.max())
+                    if any(r is numpy.ma.masked or numpy.isnan(r) for r in range):
+                        # There is no date for a missing value
+                        range = ()
+                    else:
+                        range = tuple(cis_standard_time_unit.num2date(r) for r in range)
             except ValueError as e:
                 # If we can't set a range for some reason then just leave it blank
                 range = ()
@@ -486,16 +488,14 @@ class UngriddedData(LazyData, CommonData):
                 logging.warning(
                     "Identified {n_points} point(s) which were missing values for some or all coordinates - "
                     "these points have been removed from the data.".format(n_points=n_points))
-                for coord in self._coords:
-                    coord.data = numpy.ma.masked_array(coord.data.flatten(), mask=combined_mask).compressed()
-                    coord.update_shape()
-                    coord.update_range()
+                self._coords = _remove_coordinate_points(self._coords, combined_mask)
                 if numpy.ma.is_masked(self._data):
                     new_data_mask = numpy.ma.masked_array(self._data.mask.flatten(), mask=combined_mask).compressed()
                     new_data = numpy.ma.masked_array(self._data.data.flatten(), mask=combined_mask).compressed()
                     self._data = numpy.ma.masked_array(new_data, mask=new_data_mask)
                 else:
                     self._data = numpy.ma.masked_array(self._data.flatten(), mask=combined_mask).compressed()
+                self._data_flattened = None
             self.update_shape()
             self.update_range()
 
@@ -601,8 +601,8 @@ class UngriddedData(LazyData, CommonData):
         return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
                           self.coord(standard_name='longitude').data.flat[index],
                           self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
                           self.coord(standard_name='air_pressure').data.flat[index],
+                          self.coord(standard_name='time').data.flat[index],
                           self.data.flat[index])
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
@@ -876,10 +876,7 @@ class UngriddedCoordinates(CommonData):
             n_points = numpy.count_nonzero(combined_mask)
             logging.warning("Identified {n_points} point(s) which were missing values for some or all coordinates - "
                             "these points have been removed from the data.".format(n_points=n_points))
-            for coord in self._coords:
-                coord.data = numpy.ma.masked_array(coord.data_flattened, mask=combined_mask).compressed()
-                coord.update_shape()
-                coord.update_range()
+            self._coords = _remove_coordinate_points(self._coords, combined_mask)
 
     @property
     def coords_flattened(self):
@@ -934,8 +931,8 @@ class UngriddedCoordinates(CommonData):
         return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
                           self.coord(standard_name='longitude').data.flat[index],
                           self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
                           self.coord(standard_name='air_pressure').data.flat[index],
+                          self.coord(standard_name='time').data.flat[index],
                           None)
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
@@ -1152,6 +1149,25 @@ class UngriddedDataList(CommonDataList):
         return _aggregate_ungridded(self, how, **kwargs)
 
 
+def _remove_coordinate_points(coords, mask):
+    """
+    Make new coordinates without the points which are masked. The coordinates given are not changed as other data
+    objects might share them.
+
+    :param CoordList coords: The coordinates to take the points from
+    :param ndarray mask: The (flattened) points to remove
+    :return CoordList: The coordinates of the remaining points
+    """
+    from cis.data_io.Coord import CoordList
+    new_coords = CoordList()
+    for coord in coords:
+        new_coord = coord.copy(data=numpy.ma.masked_array(coord.data.flatten(), mask=mask).compressed())
+        new_coord.update_shape()
+        new_coord.update_range()
+        new_coords.append(new_coord)
+    return new_coords
+
+
 def _coords_as_data_frame(coord_list, copy=True, time_index=True):
     """
     Convert a CoordList object to a Pandas DataFrame.
-- 
2.43.0


From fc50133678f65bb1ba80aa18c927f37c6a42088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 20/68] fix: refuse expressions which do not give an array

---
 cis/evaluate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/evaluate.py b/cis/evaluate.py
index 56dd0ec..675a637 100644
--- a/cis/evaluate.py
+++ b/cis/evaluate.py
@@ -83,7 +83,7 @@ class Calculator(object):
         if not sample_data.is_gridded:
             # Allow ungridded data to be flattened
             sample_shape = (reduce(mul, sample_shape),)
-        if not sample_shape == result_array.shape:
+        if not isinstance(result_array, numpy.ndarray) or not sample_shape == result_array.shape:
             raise EvaluationError("The resulting array is not the same shape as the original data. "
                                   "Check your expression")
         data = sample_data.make_new_with_same_coordinates(data=result_array, var_name=output_var,
-- 
2.43.0


From d0386b9060ab4fab4de251c10e9782705ce326e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 21/68] fix: keep masks and types in in-place arithmetic and do
 not share masks with the result

---
 cis/maths.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/cis/maths.py b/cis/maths.py
index ba51fb2..8cf2e00 100644
--- a/cis/maths.py
+++ b/cis/maths.py
@@ -79,8 +79,7 @@ def add(ungridded_data, other, in_place=False):
         An instance of :class:`cis.data_io.ungridded_data.LazyData`.
 
     """
-    op = operator.iadd if in_place else operator.add
-    return _add_subtract_common(op, ungridded_data, other, in_place=in_place)
+    return _add_subtract_common(operator.add, ungridded_data, other, in_place=in_place)
 
 
 def subtract(ungridded_data, other, in_place=False):
@@ -111,8 +110,7 @@ def subtract(ungridded_data, other, in_place=False):
         An instance of :class:`cis.data_io.ungridded_data.LazyData`.
 
     """
-    op = operator.isub if in_place else operator.sub
-    return _add_subtract_common(op, ungridded_data, other, in_place=in_place)
+    return _add_subtract_common(operator.sub, ungridded_data, other, in_place=in_place)
 
 
 def _add_subtract_common(operation_function, ungridded_data, other, in_place=False):
@@ -157,8 +155,7 @@ def multiply(ungridded_data, other, in_place=False):
     _assert_is_ungridded_data(ungridded_data)
     other_unit = getattr(other, 'units', '1')
     new_unit = ungridded_data.units * other_unit
-    op = operator.imul if in_place else operator.mul
-    return _binary_op_common(op, ungridded_data, other, new_unit, in_place=in_place)
+    return _binary_op_common(operator.mul, ungridded_data, other, new_unit, in_place=in_place)
 
 
 def divide(ungridded_data, other, in_place=False):
@@ -181,9 +178,9 @@ def divide(ungridded_data, other, in_place=False):
     other_unit = getattr(other, 'units', '1')
     new_unit = ungridded_data.units / other_unit
     try:
-        op = operator.idiv if in_place else operator.div
+        op = operator.div
     except AttributeError:
-        op = operator.itruediv if in_place else operator.truediv
+        op = operator.truediv
     return _binary_op_common(op, ungridded_data, other, new_unit, in_place=in_place)
 
 
@@ -379,15 +376,16 @@ def _binary_op_common(operation_function, ungridded_data, other, new_unit, in_pl
 
 def _math_op_common(ungridded_data, operation_function, new_unit, in_place=False):
     _assert_is_ungridded_data(ungridded_data)
+    result = operation_function(ungridded_data.data)
+    if np.ma.isMaskedArray(result):
+        # Some numpy functions return the mask of their argument
+        result = result.copy()
     if in_place:
+        # The result might need a mask, or another type, so it replaces the data rather than being written over it
         new_ungridded_data = ungridded_data
-        try:
-            operation_function(new_ungridded_data.data, out=new_ungridded_data.data)
-        except TypeError:
-            # Non ufunc function
-            operation_function(new_ungridded_data.data)
+        new_ungridded_data.data = result
     else:
-        new_ungridded_data = ungridded_data.copy(data=operation_function(ungridded_data.data))
+        new_ungridded_data = ungridded_data.copy(data=result)
     new_ungridded_data.units = new_unit
     new_ungridded_data.add_history('Performed {op} operation'.format(op=operation_function.__name__))
     return new_ungridded_data
-- 
2.43.0


From d479b916a715ae445b3eb44ef37a88896ceee3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 22/68] fix: compare integer data without overflow and report
 NaN for statistics which are not defined

---
 cis/stats.py | 58 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/cis/stats.py b/cis/stats.py
index 176bb27..e4e3897 100644
--- a/cis/stats.py
+++ b/cis/stats.py
@@ -292,6 +292,22 @@ class LinearRegressionStderr(StatisticsResult):
                     var_name='regression_stderr')
 
 
+def _flat_float_data(data):
+    """
+    The data as a one dimensional array, with integers converted to floats as differences between (small or unsigned)
+    integers might not be representable.
+    """
+    values = data.data.flatten()
+    return values.astype(float) if values.dtype.kind in 'iu' else values
+
+
+def _nan_if_missing(value):
+    """
+    Use NaN for a statistic which isn't defined for the points there are
+    """
+    return numpy.nan if value is None or value is numpy.ma.masked else value
+
+
 class StatsAnalyzer(object):
     """
     Analyse datasets to produce statistics.
@@ -308,8 +324,8 @@ class StatsAnalyzer(object):
         self._var_name_2 = data2.var_name
         # Flatten the data, so that data of different shapes but same overall size can be compared (e.g. the case where
         # you have collocated some data).
-        self._data1 = data1.data.flatten()
-        self._data2 = data2.data.flatten()
+        self._data1 = _flat_float_data(data1)
+        self._data2 = _flat_float_data(data2)
         # Keep a record of whether we have already combined the masks so that we don't unnecessarily repeat it
         self._masks_combined = False
 
@@ -350,8 +366,8 @@ class StatsAnalyzer(object):
         from cis.utils import apply_intersection_mask_to_two_arrays
         # This command requires the masks to be combined
         data1_combined, data2_combined = apply_intersection_mask_to_two_arrays(self._data1, self._data2)
-        return [DatasetMean(numpy.mean(data1_combined), self._var_name_1, 1),
-                DatasetMean(numpy.mean(data2_combined), self._var_name_2, 2)]
+        return [DatasetMean(_nan_if_missing(numpy.mean(data1_combined)), self._var_name_1, 1),
+                DatasetMean(_nan_if_missing(numpy.mean(data2_combined)), self._var_name_2, 2)]
 
     def stddevs(self):
         """
@@ -362,8 +378,8 @@ class StatsAnalyzer(object):
         from cis.utils import apply_intersection_mask_to_two_arrays
         # This command requires the masks to be combined
         data1_combined, data2_combined = apply_intersection_mask_to_two_arrays(self._data1, self._data2)
-        return [DatasetStddev(numpy.std(data1_combined, ddof=1), self._var_name_1, 1),
-                DatasetStddev(numpy.std(data2_combined, ddof=1), self._var_name_2, 2)]
+        return [DatasetStddev(_nan_if_missing(numpy.std(data1_combined, ddof=1)), self._var_name_1, 1),
+                DatasetStddev(_nan_if_missing(numpy.std(data2_combined, ddof=1)), self._var_name_2, 2)]
 
     def abs_mean(self):
         """
@@ -372,7 +388,7 @@ class StatsAnalyzer(object):
         :return: List of StatisticsResults
         """
         mean = numpy.mean(self._data2 - self._data1)
-        return [AbsoluteMean(mean)]
+        return [AbsoluteMean(_nan_if_missing(mean))]
 
     def abs_stddev(self):
         """
@@ -381,7 +397,7 @@ class StatsAnalyzer(object):
         :return: List of StatisticsResults
         """
         stddev = numpy.std(self._data2 - self._data1, ddof=1)
-        return [AbsoluteStddev(stddev)]
+        return [AbsoluteStddev(_nan_if_missing(stddev))]
 
     def rel_mean(self):
         """
@@ -390,7 +406,7 @@ class StatsAnalyzer(object):
         :return: List of StatisticsResults
         """
         mean = numpy.mean((self._data2 - self._data1)/self._data1)
-        return [RelativeMean(mean)]
+        return [RelativeMean(_nan_if_missing(mean))]
 
     def rel_stddev(self):
         """
@@ -399,7 +415,7 @@ class StatsAnalyzer(object):
         :return: List of StatisticsResults
         """
         stddev = numpy.std((self._data2 - self._data1)/self._data1, ddof=1)
-        return [RelativeStddev(stddev)]
+        return [RelativeStddev(_nan_if_missing(stddev))]
 
     def spearmans_rank(self):
         """
@@ -407,8 +423,12 @@ class StatsAnalyzer(object):
 
         :return: List of StatisticsResults
         """
-        spearman = scipy.stats.mstats.spearmanr(self._data1, self._data2)[0]
-        return [SpearmansRank(spearman)]
+        try:
+            spearman = scipy.stats.mstats.spearmanr(self._data1, self._data2)[0]
+        except ValueError:
+            # There are too few points
+            spearman = numpy.nan
+        return [SpearmansRank(_nan_if_missing(spearman))]
 
     def linear_regression(self):
         """
@@ -416,8 +436,12 @@ class StatsAnalyzer(object):
 
         :return: List of StatisticsResults
         """
-        grad, intercept, r, p, stderr = scipy.stats.mstats.linregress(self._data1, self._data2)
-        return [LinearRegressionGradient(grad),
-                LinearRegressionIntercept(intercept),
-                LinearRegressionRValue(r),
-                LinearRegressionStderr(stderr)]
+        try:
+            grad, intercept, r, p, stderr = scipy.stats.mstats.linregress(self._data1, self._data2)
+        except ValueError:
+            # There are too few points, or all of the points have the same value in the first dataset
+            grad = intercept = r = stderr = numpy.nan
+        return [LinearRegressionGradient(_nan_if_missing(grad)),
+                LinearRegressionIntercept(_nan_if_missing(intercept)),
+                LinearRegressionRValue(_nan_if_missing(r)),
+                LinearRegressionStderr(_nan_if_missing(stderr))]
-- 
2.43.0


From 175cee79e2477d984c774c3f194e53ddae60ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 23/68] fix: keep the time of day of a TAI reference and
 refresh the flattened times after a conversion

---
 cis/data_io/Coord.py | 18 +++++++++---------
 cis/time_util.py     |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 0fd7294..e853de9 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -61,19 +61,19 @@ class Coord(LazyData):
         from cis.time_util import convert_julian_date_to_std_time, cis_standard_time_unit
         # if not self.units.startswith("Julian Date"):
         #     raise ValueError("Time units must be Julian Date for conversion to an Object")
-        self._data = convert_julian_date_to_std_time(self.data)
+        self.data = convert_julian_date_to_std_time(self.data)
         self.units = cis_standard_time_unit
 
     def convert_TAI_time_to_std_time(self, ref):
         from cis.time_util import convert_sec_since_to_std_time, cis_standard_time_unit
-        self._data = convert_sec_since_to_std_time(self.data, ref)
+        self.data = convert_sec_since_to_std_time(self.data, ref)
         self.units = cis_standard_time_unit
 
     def convert_to_std_time(self, time_stamp_info=None):
         """
         Convert this coordinate to standard time. It will use either: the units of the coordinate if it is a cf_units
-        Unit, or the first word of the units, combined with the time stamp (if the timestamp is not given an error is
-        thrown).
+        Unit counted from a reference time, or the first word of the units, combined with the time stamp (if the
+        timestamp is not given an error is thrown).
 
         :param time_stamp_info: the time stamp info from the file, None if it does not exist
         """
@@ -81,20 +81,20 @@ class Coord(LazyData):
             convert_time_using_time_stamp_info_to_std_time, convert_datetime_to_std_time
         from cf_units import Unit
 
-        if isinstance(self.units, Unit):
-            self._data = convert_time_since_to_std_time(self.data, self.units)
+        if isinstance(self.units, Unit) and self.units.is_time_reference():
+            self.data = convert_time_since_to_std_time(self.data, self.units)
         elif str(self.units).lower().startswith('datetime'):
-            self._data = convert_datetime_to_std_time(self.data)
+            self.data = convert_datetime_to_std_time(self.data)
         else:
             if time_stamp_info is None:
                 raise ValueError("File must have time stamp info if converting without 'since' in units definition")
-            self._data = convert_time_using_time_stamp_info_to_std_time(self.data, self.units, time_stamp_info)
+            self.data = convert_time_using_time_stamp_info_to_std_time(self.data, self.units, time_stamp_info)
 
         self.units = cis_standard_time_unit
 
     def convert_datetime_to_standard_time(self):
         from cis.time_util import convert_datetime_to_std_time, cis_standard_time_unit
-        self._data = convert_datetime_to_std_time(self.data)
+        self.data = convert_datetime_to_std_time(self.data)
         self.units = cis_standard_time_unit
 
     def convert_standard_time_to_datetime(self):
diff --git a/cis/time_util.py b/cis/time_util.py
index 24fe9d7..78a93c1 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -181,7 +181,7 @@ def convert_sec_since_to_std_time(seconds, ref):
     kwargs = {} if isinstance(seconds, np.ma.MaskedArray) else {'copy': False}
     days_since = seconds.astype(float, **kwargs) / (3600*24.0)
     offset = ref - cis_standard_time_unit.num2date(0)
-    return offset.days + days_since
+    return offset.days + (offset.seconds + offset.microseconds/1.0e6)/(3600*24.0) + days_since
 
 
 def convert_std_time_to_datetime(std_time):
-- 
2.43.0


From c1e19f70cf48324aaae3245e28b419903f3987f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 24/68] fix: read partial dates, durations and grids on the
 command line as documented

---
 cis/parse.py          | 55 ++++++++++++++++++++++++----------
 cis/parse_datetime.py | 68 +++++++++++++++++--------------------------
 cis/time_util.py      |  6 ++--
 3 files changed, 68 insertions(+), 61 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index ea4b0a7..489e34a 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -443,7 +443,7 @@ def get_aggregate_grid(aggregategrid, parser):
     :param parser:        The parser used to report errors
     :return: The parsed datagroups as a list of dictionaries
     """
-    from cis.parse_datetime import parse_as_number_or_datetime, parse_as_number_or_datetime_delta
+    from cis.parse_datetime import parse_as_number_or_datetime_delta
 
     # Split into the limits for each dimension.
     split_input = split_outside_brackets(aggregategrid)
@@ -454,11 +454,11 @@ def get_aggregate_grid(aggregategrid, parser):
     for seg in split_input:
         # Parse out dimension name and new grid spacing; the expected format is:
         # <dim_name>=[<start_value>,<end_value,<delta>]
-        match = re.match(r'(?P<dim>[^=]+)(?:=)?(?:\[(?P<start>[^],]+)?(?:,(?P<end>[^],]+))?(?:,(?P<delta>[^]]+))?\])?',
-                         seg)
-        if match is None or match.group('dim') is None:
-            parser.error("A dimension for aggregation does not have a valid dimension name")
-        elif match.group('start') is None and match.group('delta') is None:
+        match = re.match(r'(?P<dim>[^=\[\]]+)'
+                         r'(?P<grid>=\[(?P<start>[^],]+)?(?:,(?P<end>[^],]+))?(?:,(?P<delta>[^],]+))?\])?\Z', seg)
+        if match is None:
+            parser.error("A dimension for aggregation does not have a valid dimension name or grid: '{}'".format(seg))
+        elif match.group('grid') is None:
             # This is for gridded aggregation where we just have a list of dims with no grid
             grid_dict[match.group('dim')] = None
         elif match.group('end') is None:
@@ -467,17 +467,22 @@ def get_aggregate_grid(aggregategrid, parser):
         else:
             dim_name = match.group('dim')
 
-            start_parsed = parse_as_number_or_datetime(match.group('start'))
-            end_parsed = parse_as_number_or_datetime(match.group('end'))
+            delta_parsed = None
             if match.group('delta') is not None:
                 delta_parsed = parse_as_number_or_datetime_delta(match.group('delta'))
-            elif start_parsed is None or end_parsed is None:
-                parser.error("A dimension for aggregation without a delta value must have both a start and an end value")
-            else:
+
+            # A limit in time is a (partial) date, unless the step is just a number
+            is_time = dim_name.lower() in ['t', 'time'] and not isinstance(delta_parsed, (int, float))
+            start_parsed = _parse_grid_limit(match.group('start'), is_time, parser)
+            end_parsed = _parse_grid_limit(match.group('end'), is_time, parser, latest=True)
+            if delta_parsed is None:
+                if start_parsed is None or end_parsed is None:
+                    parser.error("A dimension for aggregation without a delta value must have both a start and an end "
+                                 "value")
                 # If the step is missed out the bin spans the whole range
                 delta_parsed = end_parsed - start_parsed
 
-            if dim_name.lower() == 'x':
+            if dim_name.lower() == 'x' and start_parsed is not None and end_parsed is not None:
                 if not start_parsed <= end_parsed:
                     parser.error("Longitude grid must be monotonically increasing (i.e. for x[A,B,C] A <= B). For "
                                  "example, x=[90,-90,10] is invalid but x=[90,270,10] is valid")
@@ -490,6 +495,22 @@ def get_aggregate_grid(aggregategrid, parser):
     return grid_dict
 
 
+def _parse_grid_limit(limit, is_time, parser, latest=False):
+    """
+    Parse the start or end of an aggregation grid
+
+    :param str limit:     The limit to parse
+    :param bool is_time:  Should the limit be read as a date even if it could be a number, i.e. a four digit year?
+    :param parser:        The parser used to report errors
+    :param bool latest:   Use the latest date/time compatible with a partial date rather than the earliest
+    :return: The number or datetime, or None if there is no limit
+    """
+    from cis.parse_datetime import parse_datetime, parse_as_number_or_datetime
+    if is_time and limit is not None and re.match(r'[0-9]{4}\Z', limit):
+        return parse_datetime(limit, 'aggregation grid date/time', parser, latest)
+    return parse_as_number_or_datetime(limit, latest)
+
+
 def get_basic_datagroups(datagroups, parser):
     """
     Get datagroups containing only variables:filenames:product
@@ -545,11 +566,12 @@ def get_subset_limits(subsetlimits, parser):
                     limits = parse_partial_datetime(limit1, 'subset range date/time', parser)
                 else:
                     limits = [parse_datetime(limit1, 'subset range start date/time', parser),
-                              parse_datetime(limit2, 'subset range end date/time', parser)]
+                              parse_datetime(limit2, 'subset range end date/time', parser, latest=True)]
             elif dim_name.lower() in ['x', 'y', 'z']:
+                # A single value is both the start and the end
                 limits = [parse_float(limit1, 'subset range start coordinate', parser),
-                          parse_float(limit2, 'subset range start coordinate', parser)]
-                if dim_name.lower() == 'x':
+                          parse_float(limit1 if limit2 is None else limit2, 'subset range end coordinate', parser)]
+                if dim_name.lower() == 'x' and None not in limits:
                     if not limits[0] <= limits[1]:
                         parser.error("Longitude limits must be monotonically increasing (i.e. for x[A,B] A <= B). For "
                                      "example, x=[90,-90] is invalid but x=[90,270] is valid")
@@ -557,7 +579,8 @@ def get_subset_limits(subsetlimits, parser):
                         parser.error("Longitude limits should not be more than 360 degrees apart "
                                      "(i.e. for x[A,B] B-A <= 360)")
             else:
-                limits = [parse_as_number_or_datetime(limit1), parse_as_number_or_datetime(limit2)]
+                limits = [parse_as_number_or_datetime(limit1),
+                          parse_as_number_or_datetime(limit1 if limit2 is None else limit2, latest=True)]
             limit_dict[dim_name] = limits
     return limit_dict
 
diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index b108781..c1aedd3 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -8,14 +8,18 @@ def parse_datetimestr_to_std_time(s):
     return cis_standard_time_unit.date2num(du.parse(s))
 
 
-def _parse_datetime(s):
-    """Parse a date/time string.
+def _parse_datetime(s, latest=False):
+    """Parse a (possibly partial) date/time string.
 
     The string should be in an ISO 8601 format except that the date and time
     parts may be separated by a space or colon instead of T.
+    :param str s: String to parse
+    :param bool latest: Return the latest date/time compatible with the string, rather than the earliest
+    :return: datetime value
+    :raise ValueError: if the string cannot be parsed as a date/time
     """
-    import dateutil.parser as du
-    return du.parse(s)
+    partial = _parse_partial_datetime(s)
+    return partial.max() if latest else partial.min()
 
 
 def _parse_partial_datetime(dt_string):
@@ -29,23 +33,12 @@ def _parse_partial_datetime(dt_string):
     """
     from cis.time_util import PartialDateTime
 
-    # Separate date and time at first character that is one of 'T', ' ' or ':'.
-    match = re.match(r'(?P<date>[^T :]+)(?:[T :])(?P<time>.+)$', dt_string)
-    if match is not None:
-        date_str = match.group('date')
-        time_components = [int(x) for x in match.group('time').split(':')]
-    else:
-        date_str = dt_string
-        time_components = []
-
-    date_components = [int(x) for x in date_str.split('-')]
+    match = re.match(r'([0-9]{1,4})(?:-([0-9]{1,2})(?:-([0-9]{1,2})(?:[T :]([0-9]{1,2})(?::([0-9]{1,2})'
+                     r'(?::([0-9]{1,2}))?)?)?)?)?\Z', dt_string)
+    if match is None:
+        raise ValueError("'{}' is not a valid date/time".format(dt_string))
 
-    dt_components = list(date_components)
-    if ((len(date_components) > 3) or (len(time_components) > 3) or
-            (len(date_components) < 3) and (len(time_components) > 0)):
-        raise ValueError()
-    else:
-        dt_components.extend(time_components)
+    dt_components = [int(x) for x in match.groups() if x is not None]
 
     return PartialDateTime(*dt_components)
 
@@ -70,7 +63,7 @@ def parse_partial_datetime(dt_string, name, parser):
     return dt
 
 
-def parse_datetime(dt_string, name, parser):
+def parse_datetime(dt_string, name, parser, latest=False):
     """Parse a date/time string from the command line, reporting parse errors.
 
     The string should be in an ISO 8601 format except that the date and time
@@ -78,12 +71,13 @@ def parse_datetime(dt_string, name, parser):
     :param dt_string: String to parse
     :param name:      A description of the argument used for error messages
     :param parser:    The parser used to report errors
+    :param latest:    Use the latest date/time compatible with the string rather than the earliest
     :return: datetime value
     """
     if dt_string == 'None' or dt_string is None:
         return None
     try:
-        dt = _parse_datetime(dt_string)
+        dt = _parse_datetime(dt_string, latest)
     except ValueError:
         parser.error("'" + dt_string + "' is not a valid " + name)
         dt = None
@@ -100,23 +94,18 @@ def _parse_datetime_delta(dt_string):
     from datetime import timedelta
     dt_string = dt_string.upper()
 
-    match = re.match(r'(?:[P])(?P<date>[^T :]+)?(?:[T :])?(?P<time>.+)?$', dt_string)
+    match = re.match(r'P(?P<date>(?:[0-9]+[YMD])*)(?:[T :](?P<time>(?:[0-9]+[HMS])+))?\Z', dt_string)
 
     if match is None:
-        raise ValueError('Date/Time step must be in ISO 8601 format, for example PY2M3DT4H5M6S.')
-
-    if match.group('date') is not None:
-        date_string = match.group('date')
-    else:
-        date_string = ''
+        raise ValueError('Date/Time step must be in ISO 8601 format, for example P2M3DT4H5M6S.')
 
-    if match.group('time') is not None:
-        time_string = match.group('time')
-    else:
-        time_string = ''
+    date_tokens = re.findall('[0-9]+[A-Z]', match.group('date'))
+    time_tokens = re.findall('[0-9]+[A-Z]', match.group('time') or '')
 
-    date_tokens = re.findall('[0-9]*[A-Z]', date_string)
-    time_tokens = re.findall('[0-9]*[A-Z]', time_string)
+    # Each time period can only be given once, and there has to be at least one
+    periods = [token[-1:] for token in date_tokens] + ['T' + token[-1:] for token in time_tokens]
+    if len(periods) == 0 or len(set(periods)) < len(periods):
+        raise ValueError('Date/Time step must be in ISO 8601 format, for example P2M3DT4H5M6S.')
 
     years = 0
     months = 0
@@ -133,8 +122,6 @@ def _parse_datetime_delta(dt_string):
             months = val
         elif token[-1:] == "D":
             days = val
-        else:
-            raise ValueError("Date/Time step must be in ISO 8601 format, for example PY2M3DT4H5M6S")
 
     for token in time_tokens:
         val = int(token[:-1])
@@ -144,8 +131,6 @@ def _parse_datetime_delta(dt_string):
             minutes = val
         elif token[-1:] == "S":
             seconds = val
-        else:
-            raise ValueError("Date/Time step must be in ISO 8601 format, for example PY2M3DT4H5M6S")
 
     # Note that there is a loss of precision here because we have to convert months and years to integer days
     dt = timedelta(seconds=seconds, minutes=minutes, hours=hours, days=(days + months*30 + years*365))
@@ -173,11 +158,12 @@ def parse_datetimestr_delta_to_float_days(string):
     return _datetime_delta_to_float_days(date_delta)
 
 
-def parse_as_number_or_datetime(string):
+def parse_as_number_or_datetime(string, latest=False):
     """
     Parse a string as a number from the command line, or if that fails, as a datetime
 
     :param in_string: String to parse
+    :param latest: Use the latest date/time compatible with the string rather than the earliest
     :return: int, float or DateTime
     """
     if string == 'None' or string is None:
@@ -189,7 +175,7 @@ def parse_as_number_or_datetime(string):
             ret = float(string)
         except ValueError:
             try:
-                ret = _parse_datetime(string)
+                ret = _parse_datetime(string, latest)
             except ValueError:
                 raise argparse.ArgumentTypeError("'{}' is not a valid value.".format(string))
     return ret
diff --git a/cis/time_util.py b/cis/time_util.py
index 78a93c1..a09f16e 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -119,10 +119,8 @@ def find_last_day_of_month(year, month):
     :param month: month as integer
     :return: last day of month as integer
     """
-    import datetime
-    next_month = datetime.datetime(year, month, 28) + datetime.timedelta(days=4)
-    last_date = next_month - datetime.timedelta(days=next_month.day)
-    return last_date.day
+    import calendar
+    return calendar.monthrange(year, month)[1]
 
 
 def calculate_mid_time(t1, t2):
-- 
2.43.0


From 7ab51de750748981e157bf982def74c106210d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:18 +0000
Subject: [PATCH 25/68] fix: read the options of a data group exactly as
 written, refusing duplicates and malformed ones

---
 cis/parse.py | 64 +++++++++++++++++++++-------------------------------
 cis/utils.py |  2 +-
 2 files changed, 27 insertions(+), 39 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 489e34a..ba9e32e 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -628,31 +628,18 @@ def parse_colon_and_comma_separated_arguments(inputs, parser, options, compulsor
             raise InvalidCommandLineOptionError('More options specified than are actually available.')
 
         # If there is only one optional argument do not require the 'keyword=' syntax
-        if len(option) == 1 and len(split_input_comma) == 1:
-            split_input_variable = split_outside_brackets(split_input_comma[0], '=')
-            if len(split_input_variable) == 1:
-                input_dict[option[0]] = split_input_variable[0]
-                option.pop(0)
-                split_input_comma.pop(0)
-            elif len(split_input_variable) == 2:
-                if option[0] == split_input_variable[0]:
-                    input_dict[option[0]] = split_input_variable[1]
-                    option.pop(0)
-                    split_input_comma.pop(0)
-            else:
-                raise InvalidCommandLineOptionError('Something is wrong with this argument: ', split_input_comma)
-
-        for i, option in enumerate(option):
-            for j in split_input_comma:
-                # Split the input, [0] will be the key and [1] the value in the list
-                split_input_variable = split_outside_brackets(j, '=')
-                if split_input_variable[0] == option:
-                    input_dict[option] = options[i + compulsory_args](split_input_variable[1], parser)
-                    split_input_comma.remove(j)
-
-        if len(split_input_comma) != 0:
-            raise InvalidCommandLineOptionError('The following optional arguments could not be parsed: ' +
-                                                str(split_input_comma))
+        if len(option) == 1 and len(split_input_comma) == 1 and \
+                len(split_outside_brackets(split_input_comma[0], '=')) == 1:
+            split_input_comma = [option[0] + '=' + split_input_comma[0]]
+
+        for j in split_input_comma:
+            # Everything after the first equals sign is the value, which might contain others itself
+            name, _, value = j.partition('=')
+            if name not in option or not value:
+                raise InvalidCommandLineOptionError('The following optional argument could not be parsed: ' + j)
+            if name in input_dict:
+                raise InvalidCommandLineOptionError('The following optional argument is given more than once: ' + name)
+            input_dict[name] = getattr(options, name)(value, parser)
 
         input_dicts.append(input_dict)
     return input_dicts
@@ -695,10 +682,14 @@ def split_outside_brackets(input, seps=[','], brackets={'[': ']', '(': ')'}):
 def extract_method_and_args(arguments, parser):
     from cis.utils import parse_key_val_list
 
-    elements = multi_split(arguments, ['[', ',', ']'])
-    method_name = elements[0] if len(elements) > 0 else ''
-    args = elements[1:] if len(elements) > 1 else []
-    method_and_args = (method_name, parse_key_val_list(args))
+    # The expected format is <name> or <name>[<key>=<value>,...], where the values might contain (balanced) brackets
+    match = re.match(r'(?P<name>[^][,]+)(?:\[(?P<args>(?:[^][]|\[[^][]*\])*)\])?\Z', arguments)
+    if match is None:
+        parser.error("'" + arguments + "' is not of the form name[key=value,...]")
+    args = [arg for arg in split_outside_brackets(match.group('args') or '') if arg]
+    method_and_args = (match.group('name'), parse_key_val_list(args))
+    if len(method_and_args[1]) != len(args):
+        parser.error("A parameter is given more than once in '" + arguments + "'")
     return method_and_args
 
 
@@ -714,12 +705,8 @@ def multi_split(s, seps):
         for seq in s:
             res += seq.split(sep)
 
-    for i in res:
-        # Remove empty strings
-        if not i:
-            res.pop(res.index(i))
-
-    return res
+    # Remove empty strings
+    return [i for i in res if i]
 
 
 def check_nothing(item, parser):
@@ -733,8 +720,7 @@ def check_is_not_empty(item, parser):
 
 
 def check_is_not_empty_and_comma_split(item, parser):
-    check_is_not_empty(item, parser)
-    return multi_split(item, [','])
+    return check_is_not_empty(multi_split(item, [',']), parser)
 
 
 def _set_aliases_for_datagroups(datagroups, parser):
@@ -777,7 +763,9 @@ def _set_aliases_for_datagroups(datagroups, parser):
 
 def convert_to_list_of_floats(arg, parser):
     # Given a string such as '[10.0,11.1,12.2]' retruns a list containing, 10.0, 11.1, 12.2
-    return [float(x) for x in arg[1:-1].split(',')]
+    if not (arg.startswith('[') and arg.endswith(']')):
+        parser.error("'" + arg + "' is not a list of the form [x,y,...]")
+    return [check_float(x, parser) for x in arg[1:-1].split(',')]
 
 
 def check_plot_type(plot_type, parser):
diff --git a/cis/utils.py b/cis/utils.py
index aca2489..db6e12d 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -296,7 +296,7 @@ def parse_key_val_list(input_list):
     """
     key_val_dict = {}
     for element in input_list:
-        key_value = element.split('=')
+        key_value = element.split('=', 1)
         key = key_value[0]
         value = key_value[1] if len(key_value) > 1 else True
         key_val_dict[key] = value
-- 
2.43.0


From 765f04bece3a0bb8bfc63d0390542baad02ed02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:56 +0000
Subject: [PATCH 26/68] fix: honour --force-overwrite before the command,
 overwrite only for CIS_FORCE_OVERWRITE=TRUE and always give data files the
 .nc extension

---
 cis/parse.py | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index ba9e32e..3abaeb4 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -46,11 +46,13 @@ class AliasedSubParsersAction(argparse._SubParsersAction):
         return parser
 
 
-def initialise_top_parser():
+def get_global_options(**kwargs):
     """
-    The parser to which all arguments are initially passed
+    A parser for the options which apply to all of the commands
+
+    :param kwargs: Any extra arguments for the parser
     """
-    global_options = argparse.ArgumentParser(add_help=False)
+    global_options = argparse.ArgumentParser(add_help=False, **kwargs)
     verbosity_group = global_options.add_mutually_exclusive_group()
     verbosity_group.add_argument("-v", "--verbose", action='count',
                                  help="Increase the level of logging information output to screen to include "
@@ -61,27 +63,37 @@ def initialise_top_parser():
     global_options.add_argument("--force-overwrite", action='store_true',
                                 help="Do not prompt when an output file already exists - always overwrite. This can "
                                      "also be set by setting the 'CIS_FORCE_OVERWRITE' environment variable to 'TRUE'")
+    return global_options
+
+
+def initialise_top_parser():
+    """
+    The parser to which all arguments are initially passed
+    """
+    global_options = get_global_options()
+    # The options can also follow the command, in which case they mustn't reset the ones given before it
+    command_options = get_global_options(argument_default=argparse.SUPPRESS)
 
     parser = argparse.ArgumentParser("cis", parents=[global_options])
     parser.register('action', 'parsers', AliasedSubParsersAction)
     subparsers = parser.add_subparsers(dest='command')
-    plot_parser = subparsers.add_parser("plot", help="Create plots", argument_default=argparse.SUPPRESS, parents=[global_options])
+    plot_parser = subparsers.add_parser("plot", help="Create plots", argument_default=argparse.SUPPRESS, parents=[command_options])
     add_plot_parser_arguments(plot_parser)
-    info_parser = subparsers.add_parser("info", help="Get information about a file", parents=[global_options])
+    info_parser = subparsers.add_parser("info", help="Get information about a file", parents=[command_options])
     add_info_parser_arguments(info_parser)
-    col_parser = subparsers.add_parser("collocate", aliases=['col'], help="Perform collocation", parents=[global_options])
+    col_parser = subparsers.add_parser("collocate", aliases=['col'], help="Perform collocation", parents=[command_options])
     add_col_parser_arguments(col_parser)
-    aggregate_parser = subparsers.add_parser("aggregate", aliases=['agg'], help="Perform aggregation", parents=[global_options])
+    aggregate_parser = subparsers.add_parser("aggregate", aliases=['agg'], help="Perform aggregation", parents=[command_options])
     add_aggregate_parser_arguments(aggregate_parser)
-    subset_parser = subparsers.add_parser("subset", aliases=['sub'], help="Perform subsetting", parents=[global_options])
+    subset_parser = subparsers.add_parser("subset", aliases=['sub'], help="Perform subsetting", parents=[command_options])
     add_subset_parser_arguments(subset_parser)
-    eval_parser = subparsers.add_parser("eval", help="Evaluate a numeric expression", parents=[global_options])
+    eval_parser = subparsers.add_parser("eval", help="Evaluate a numeric expression", parents=[command_options])
     add_eval_parser_arguments(eval_parser)
     stats_parser = subparsers.add_parser("stats", help="Perform statistical comparison of two datasets",
-                                         parents=[global_options])
+                                         parents=[command_options])
     add_stats_parser_arguments(stats_parser)
     collapse_parser = subparsers.add_parser("collapse", help="Collapse a gridded dataset over specified dimensions",
-                                            parents=[global_options])
+                                            parents=[command_options])
     add_collapse_parser_arguments(collapse_parser)
     subparsers.add_parser("version", help="Display the CIS version number")
     return parser
@@ -814,7 +826,9 @@ def _split_output_if_includes_variable_name(arguments, parser):
 
 def _validate_output_file(arguments, parser, default_ext='.nc'):
     _split_output_if_includes_variable_name(arguments, parser)
-    if not os.path.splitext(arguments.output)[1]:
+    extension = os.path.splitext(arguments.output)[1]
+    # Plots can be saved in various formats, but data can only be saved as NetCDF
+    if not extension or (default_ext == '.nc' and extension != default_ext):
         arguments.output += default_ext
     if _file_already_exists_and_no_overwrite(arguments):
         parser.exit(status=0, message="No operation performed")
@@ -827,14 +841,14 @@ def _file_already_exists_and_no_overwrite(arguments):
     # If the file already exists, and we haven't set the overwrite flag or env var, then prompt
     if os.path.isfile(arguments.output):
         overwrite_env = os.environ.get("CIS_FORCE_OVERWRITE", "").lower()
-        if arguments.force_overwrite:
+        if arguments.force_overwrite or overwrite_env == 'true':
             return False
-        elif overwrite_env:
-            return overwrite_env == 'false'
+        elif overwrite_env == 'false':
+            return True
         else:
             overwrite = None
             while overwrite not in ['y', 'n', '']:
-                overwrite = input("The file: {} already exists. Overwrite? (y/[n])")
+                overwrite = input("The file: {} already exists. Overwrite? (y/[n])".format(arguments.output))
             if overwrite != 'y':
                 return True
             # Otherwise False
-- 
2.43.0


From 5053144355efc7a355fa3e1df65a5d3d0579c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 27/68] fix: carry the history of the data into collocated,
 aggregated and collapsed results

---
 cis/collocation/col_implementations.py |  8 ++++++--
 cis/data_io/gridded_data.py            | 10 ++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 1fa01e5..f57a8b5 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -105,7 +105,8 @@ class GeneralUngriddedCollocator(Collocator):
         return_data = UngriddedDataList()
         for idx, var_details in enumerate(var_set_details):
             var_metadata = Metadata(name=var_details[0], long_name=var_details[1], shape=(len(sample_points),),
-                                    missing_value=self.fill_value, units=var_details[3])
+                                    missing_value=self.fill_value, units=var_details[3],
+                                    history=data.history)
             set_standard_name_if_valid(var_metadata, var_details[2])
             return_data.append(UngriddedData(values[idx, :], var_metadata, points.coords()))
         log_memory_profile("GeneralUngriddedCollocator final")
@@ -172,7 +173,8 @@ class GriddedUngriddedCollocator(Collocator):
         log_memory_profile("GriddedUngriddedCollocator after running kernel on sample points")
 
         metadata = Metadata(self.var_name or data.var_name, long_name=self.var_long_name or data.long_name,
-                            shape=values.shape, missing_value=self.fill_value, units=self.var_units or data.units)
+                            shape=values.shape, missing_value=self.fill_value, units=self.var_units or data.units,
+                            history=data.history)
         set_standard_name_if_valid(metadata, data.standard_name)
         return_data = UngriddedDataList([UngriddedData(values, metadata, points.coords())])
 
@@ -994,6 +996,8 @@ class GeneralGriddedCollocator(Collocator):
                            var_name=src_data.var_name,
                            units=src_data.units,
                            dim_coords_and_dims=dim_coords_and_dims)
+        if src_data.history:
+            cube.attributes['history'] = src_data.history
         return cube
 
 
diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 7f21dd9..e9890dc 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -166,7 +166,7 @@ class GriddedData(iris.cube.Cube, CommonData):
         Return the history attribute
         :return:
         """
-        return self.attributes['history']
+        return self.attributes.get('history', '')
 
     def add_history(self, new_history):
         """Appends to, or creates, the history attribute using the supplied history string.
@@ -628,14 +628,16 @@ def _collapse_gridded(data, coords, kernel):
     else:
         raise ValueError("Invalid kernel specified: " + str(kernel))
 
-    aggregator = GriddedCollapsor(data, coords)
-    data = aggregator(kernel_inst)
-
+    # Record the variables and files which were collapsed, rather than those of the result
     history = "Collapsed using CIS version " + __version__ + \
               "\n variables: " + str(getattr(data, "var_name", "Unknown")) + \
               "\n from files: " + str(getattr(data, "filenames", "Unknown")) + \
               "\n over coordinates: " + ", ".join(c.name() for c in coords) + \
               "\n with kernel: " + str(kernel_inst) + "."
+
+    aggregator = GriddedCollapsor(data, coords)
+    data = aggregator(kernel_inst)
+
     data.add_history(history)
 
     return data
-- 
2.43.0


From acca362b98f25b801824d76ba44b3e0254edf9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 28/68] fix: write all the data groups of col to the output
 file

---
 cis/cis_main.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 953b4b7..db6908f 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -94,12 +94,20 @@ def col_cmd(main_arguments):
 
     kernel = get_kernel(kern_name)(**kern_options) if kern_name else None
 
+    output = None
     for input_group in main_arguments.datagroups:
         # Then collocate each datagroup
         data = DataReader().read_single_datagroup(input_group)
-        output = data.collocated_onto(sample_data, how=col_name, kernel=kernel,
-                                      missing_data_for_missing_sample=missing_data_for_missing_sample, **col_options)
-        output.save_data(main_arguments.output)
+        collocated = data.collocated_onto(sample_data, how=col_name, kernel=kernel,
+                                          missing_data_for_missing_sample=missing_data_for_missing_sample,
+                                          **col_options)
+        if output is None:
+            output = collocated
+        else:
+            output.extend(collocated)
+
+    # All of the datagroups go in the one output file
+    output.save_data(main_arguments.output)
 
 
 def subset_cmd(main_arguments):
-- 
2.43.0


From 519358e5e50ac29e048e70935c372d16ca72019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 29/68] fix: refuse collocator flags which are neither True nor
 False

---
 cis/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cis/parse.py b/cis/parse.py
index 3abaeb4..76f2d89 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -932,6 +932,10 @@ def validate_col_args(arguments, parser):
     # Note: Sample group is put into a list as parse_colonic_arguments expects a list.
     # Samplegroup will only ever be one argument though
     arguments.samplegroup = get_col_samplegroup([arguments.samplegroup], parser)
+    _, collocator_options = arguments.samplegroup.get("collocator", ('', {}))
+    for option in ('missing_data_for_missing_sample', 'extrapolate'):
+        if option in collocator_options:
+            check_boolean(collocator_options[option], parser)
 
     # Take the three parts out of the 0th samplegroup.
     # Note: Due to the reason stated above, there will only ever be one samplegroup
-- 
2.43.0


From 1c0790df76e94fb84890138da8f18c62bed50fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 30/68] fix: record the sample file in the history of results
 collocated onto its coordinates

---
 cis/data_io/data_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index ac65da7..b3b9244 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -189,4 +189,6 @@ class DataReader(object):
         # if filenames is not a list, make it a list of 1 element
         filenames = listify(filenames)
 
-        return self._get_coords_func(filenames, product)
+        coords = self._get_coords_func(filenames, product)
+        coords.filenames = filenames
+        return coords
-- 
2.43.0


From 8e8a3ec5c2949a4e8b406d431437074de03fa61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 31/68] fix: mask missing values when reading netCDF variables
 and scale integer data

---
 cis/data_io/netcdf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index 9cca09b..2559da5 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -259,9 +259,11 @@ def get_data(var):
     """
     import numpy as np
     import logging
-    # Turn off scaling and masking as we're a bit more lenient about the type of valid min/max.
+    # Turn off scaling, as it can only be done once all of the masking has been.
     var.set_auto_maskandscale(False)
-    # This will still automatically return a masked array based on _FillValue and missing_value
+    # This will automatically return a masked array based on _FillValue and missing_value. We're a bit more lenient about
+    # the type of valid min/max so check those below.
+    var.set_auto_mask(True)
     data = var[:]
 
     if hasattr(var, 'valid_max'):
@@ -311,9 +313,9 @@ def apply_offset_and_scaling(data, add_offset=None, scale_factor=None):
         logging.debug("Applying 'data = data * {scale} + {offset}' transformation to data.".format(scale=scale_factor,
                                                                                                    offset=add_offset))
     elif scale_factor is not None and scale_factor != 1.0:
-        data *= scale_factor
+        data = data * scale_factor
         logging.debug("Applying 'data *= {scale}' transformation to data.".format(scale=scale_factor))
     elif add_offset is not None and add_offset != 0.0:
-        data += add_offset
+        data = data + add_offset
         logging.debug("Applying 'data += {offset}' transformation to data.".format(offset=add_offset))
     return data
-- 
2.43.0


From 64423a33131b0393785b41a5bac851a276a7efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 32/68] fix: accept collocator flags given without a value

---
 cis/parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 76f2d89..13268f4 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -806,12 +806,12 @@ def check_color(color, parser):
 
 
 def check_boolean(arg, parser):
-    if arg is None or arg.lower() == "true":
+    if arg is None or str(arg).lower() == "true":
         return True
-    elif arg.lower() == "false":
+    elif str(arg).lower() == "false":
         return False
     else:
-        parser.error("'" + arg + "' is not either True or False")
+        parser.error("'" + str(arg) + "' is not either True or False")
 
 
 def _split_output_if_includes_variable_name(arguments, parser):
-- 
2.43.0


From 734525d5161504a66c915a613ec90f7a5ec0353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 33/68] fix: store every ungridded value so that it reads back
 the same

---
 cis/data_io/write_netcdf.py | 84 ++++++++++++++++++++++++++++++-------
 1 file changed, 70 insertions(+), 14 deletions(-)

diff --git a/cis/data_io/write_netcdf.py b/cis/data_io/write_netcdf.py
index c3a418a..14db86f 100644
--- a/cis/data_io/write_netcdf.py
+++ b/cis/data_io/write_netcdf.py
@@ -4,7 +4,8 @@ Module for writing data to NetCDF files
 from netCDF4 import Dataset
 import logging
 
-types = {'int8': 'i1',
+types = {'bool': 'i1',
+         'int8': 'i1',
          'int16': "i2",
          'int32': "i4",
          'int64': "i8",
@@ -12,11 +13,16 @@ types = {'int8': 'i1',
          'uint16': "u2",
          'uint32': "u4",
          'uint64': "u8",
+         'float16': "f4",
          'float32': "f4",
          'float64': "f8"}
 
 index_name = 'obs'
 
+# These describe how the values were stored in the file which the data came from, and don't apply to those we write
+packing_attributes = ['scale_factor', 'add_offset', 'valid_min', 'valid_max', 'valid_range', '_FillValue',
+                      'missing_value', '_Unsigned']
+
 
 def __add_metadata(var, data):
     if data.standard_name:
@@ -25,8 +31,8 @@ def __add_metadata(var, data):
         var.units = str(data.units)
     if data.long_name:
         var.long_name = data.long_name
-    if data.metadata.missing_value:
-        var.missing_value = data.metadata.missing_value
+    if data.metadata.missing_value is not None and '_FillValue' in var.ncattrs():
+        var.missing_value = var._FillValue
     if hasattr(data.units, 'calendar') and data.units.calendar:
         var.calendar = data.units.calendar
     if data.metadata.history:
@@ -34,7 +40,7 @@ def __add_metadata(var, data):
     for name, value in data.attributes.items():
         setattr(var, name, value)
     for name, value in data.metadata.misc.items():
-        if name not in var.ncattrs():
+        if name not in var.ncattrs() and name not in packing_attributes:
             try:
                 setattr(var, name, value)
             except ValueError:
@@ -43,11 +49,38 @@ def __add_metadata(var, data):
     return var
 
 
-def __get_missing_value(coord):
-    f = coord.metadata.missing_value
-    if not f and f != 0:
-        f = None
-    return f
+def __get_missing_value(data, out_type):
+    """
+    Find the value with which to represent the missing values. This is the missing value of the data, if it has one which
+    its type can hold, unless one of the values of the data which isn't missing is the same.
+
+    :param LazyData data: The data to be written
+    :param str out_type: The type with which it will be written
+    :return: The fill value to use, or None for the default one
+    """
+    import numpy as np
+    from netCDF4 import default_fillvals
+
+    values = np.ma.compressed(data.data)
+    dtype = np.dtype(out_type)
+    candidates = [data.metadata.missing_value, None]
+    if dtype.kind == 'f':
+        candidates += [np.nan, np.finfo(dtype).min, np.finfo(dtype).max]
+    else:
+        candidates += [np.iinfo(dtype).min, np.iinfo(dtype).max]
+        # There are few enough of these that all of the above could be in use
+        candidates += range(256)
+
+    for candidate in candidates[0 if candidates[0] is not None else 1:]:
+        value = default_fillvals[out_type] if candidate is None else candidate
+        try:
+            fill = np.array(value).astype(dtype)
+            valid = fill.shape == () and (fill == np.array(value) or (np.isnan(fill) and np.isnan(value)))
+        except (ValueError, TypeError, OverflowError):
+            valid = False
+        if valid and not np.any(values == fill) and not (np.isnan(fill) and np.any(np.isnan(values))):
+            return None if candidate is None else fill[()]
+    return None
 
 
 def sizeof_fmt(num, suffix='B'):
@@ -102,19 +135,27 @@ def __create_variable(nc_file, data, prefer_standard_name=False):
     if (name is None) or prefer_standard_name:
         if (data.metadata.standard_name is not None) and (len(data.metadata.standard_name) > 0):
             name = data.metadata.standard_name
-    out_type = types[str(data.data.dtype)]
+    if name is None:
+        name = data.name()
+    out_type = types[data.data.dtype.name]
     logging.info("Creating variable: {name}({index}) {type}".format(name=name, index=index_name, type=out_type))
+    if name in nc_file.variables and not __is_same(nc_file.variables[name], data):
+        # Don't lose the data because something else already has its name
+        suffix = 1
+        while '{}_{}'.format(name, suffix) in nc_file.variables:
+            suffix += 1
+        name = '{}_{}'.format(name, suffix)
     if name not in nc_file.variables:
         # Generate a warning if we have insufficient disk space
         __check_disk_space(nc_file.filepath(), data.data)
+        if data.data.size != len(nc_file.dimensions[index_name]):
+            raise InconsistentDimensionsError("Inconsistent dimensions in output file, unable to write {} to file (it's "
+                                              "shape is {}).".format(data.name(), data.shape))
         var = nc_file.createVariable(name, datatype=out_type, dimensions=index_name,
-                                     fill_value=__get_missing_value(data))
+                                     fill_value=__get_missing_value(data, out_type))
         var = __add_metadata(var, data)
         try:
             var[:] = data.data.flatten()
-        except IndexError as e:
-            raise InconsistentDimensionsError(str(e) + "\nInconsistent dimensions in output file, unable to write "
-                                                       "{} to file (it's shape is {}).".format(data.name(), data.shape))
         except:
             logging.error("Error writing data to disk.")
             raise
@@ -123,6 +164,21 @@ def __create_variable(nc_file, data, prefer_standard_name=False):
         return nc_file.variables[name]
 
 
+def __is_same(var, data):
+    """
+    Is this netCDF variable already what would be written for this data?
+    :param var: A netCDF variable
+    :param LazyData data: The data to be written
+    :return bool: True if the values are the same
+    """
+    import numpy as np
+    written, values = np.ma.asarray(var[:]), np.ma.asarray(data.data.flatten())
+    if written.shape != values.shape or np.any(np.ma.getmaskarray(written) != np.ma.getmaskarray(values)):
+        return False
+    written, values = written.compressed(), values.compressed()
+    return bool(np.all((written == values) | ((written != written) & (values != values))))
+
+
 def write(data_object, filename):
     """
 
-- 
2.43.0


From 88f66b8443f70ffd7001999adc750b1bbc6f7f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:16 +0000
Subject: [PATCH 34/68] fix: convert every kind of time coordinate and place
 pressure and height fields on their own dimensions

---
 cis/data_io/products/gridded_NetCDF.py | 47 ++++++++++++++++----------
 cis/time_util.py                       | 41 +++++++++++-----------
 2 files changed, 51 insertions(+), 37 deletions(-)

diff --git a/cis/data_io/products/gridded_NetCDF.py b/cis/data_io/products/gridded_NetCDF.py
index b30c69f..af60a12 100644
--- a/cis/data_io/products/gridded_NetCDF.py
+++ b/cis/data_io/products/gridded_NetCDF.py
@@ -144,52 +144,65 @@ class NetCDF_Gridded(AProduct):
         :type filenames: list
         :return:
         """
+        import numpy as np
         from iris.coords import AuxCoord
+        from iris.exceptions import CoordinateNotFoundError
 
-        def _make_aux_coord_and_dims_from_geopotential(g_cube):
+        def _make_aux_coord_from_geopotential(g_cube):
             from scipy.constants import g
             points = g_cube.data / g
-            dims = list(range(len(g_cube.shape)))
             coord = AuxCoord(points=points,
                              standard_name='altitude',
                              long_name='Geopotential height at layer midpoints',
                              var_name='altitude',
                              units='meter',
                              attributes={'positive': 'up'})
-            return coord, dims
+            return coord
 
-        def _make_aux_coord_and_dims_from_geopotential_height(g_ht_cube):
-            dims = list(range(len(g_ht_cube.shape)))
+        def _make_aux_coord_from_geopotential_height(g_ht_cube):
             coord = AuxCoord(points=g_ht_cube.data,
                              standard_name='altitude',
                              long_name='Geopotential height at layer midpoints',
                              var_name='altitude',
                              units='meter',
                              attributes={'positive': 'up'})
-            return coord, dims
+            return coord
 
-        def _make_aux_coord_and_dims_from_air_pressure(aps_cube):
-            dims = list(range(len(aps_cube.shape)))
+        def _make_aux_coord_from_air_pressure(aps_cube):
             coord = AuxCoord(points=aps_cube.data,
                              standard_name='air_pressure',
                              long_name='Air Pressure',
                              var_name='air_pressure',
                              units='Pa')
-            return coord, dims
-
-        aux_coord_creation_functions = {'geopotential': _make_aux_coord_and_dims_from_geopotential,
-                                        'geopotential_height': _make_aux_coord_and_dims_from_geopotential_height,
-                                        'air_pressure': _make_aux_coord_and_dims_from_air_pressure}
+            return coord
+
+        def _get_shared_dims(aux_cube):
+            """ Find the dimensions of our cube which the field is given on, these needn't be the leading ones """
+            if len(aux_cube.dim_coords) < aux_cube.ndim:
+                # There are no coordinates to tell us
+                return list(range(aux_cube.ndim))
+            dims = []
+            for aux_dim_coord in aux_cube.dim_coords:
+                dim_coord = cube.coord(aux_dim_coord)
+                if not np.array_equal(dim_coord.points, aux_dim_coord.points):
+                    raise ValueError("The fields are not on the same {}".format(dim_coord.name()))
+                dims.extend(cube.coord_dims(dim_coord))
+            return dims
+
+        aux_coord_creation_functions = {'geopotential': _make_aux_coord_from_geopotential,
+                                        'geopotential_height': _make_aux_coord_from_geopotential_height,
+                                        'air_pressure': _make_aux_coord_from_air_pressure}
 
         for standard_name, make_aux_coord in list(aux_coord_creation_functions.items()):
             constraint = DisplayConstraint(cube_func=lambda c: c.standard_name == standard_name,
                                            display=standard_name)
             try:
                 aux_cube = gridded_data.load_cube(filenames, constraint)
-                aux_coord, dims = make_aux_coord(aux_cube)
-                cube.add_aux_coord(aux_coord, dims)
-            except ValueError:
-                pass  # The field doesn't exist; that's OK we just won't add it.
+                dims = _get_shared_dims(aux_cube)
+                aux_cube.transpose(sorted(range(aux_cube.ndim), key=dims.__getitem__))
+                cube.add_aux_coord(make_aux_coord(aux_cube), sorted(dims))
+            except (ValueError, CoordinateNotFoundError):
+                pass  # The field doesn't exist (on these dimensions); that's OK we just won't add it.
 
 
 class DisplayConstraint(iris.Constraint):
diff --git a/cis/time_util.py b/cis/time_util.py
index a09f16e..2b19925 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -212,26 +212,27 @@ def convert_cube_time_coord_to_standard_time(cube):
     # Find the time coordinate.
     t_coord = cube.coord(standard_name='time')
     data_dim = cube.coord_dims(t_coord)
-    if len(data_dim) > 0:
-        # And remove it from the cube
-        cube.remove_coord(t_coord)
-
-        dt_points = t_coord.units.num2date(t_coord.points)
-        new_datetime_nums = cis_standard_time_unit.date2num(dt_points)
-
-        # new_datetime_nums = convert_numpy_array(t_coord.points, 'float64', convert_date)
-        if t_coord.nbounds > 0:
-            dt_bounds = t_coord.units.num2date(t_coord.bounds)
-            new_bound_nums = cis_standard_time_unit.date2num(dt_bounds)
-            t_coord.bounds = new_bound_nums
-
-        # Create a new time coordinate by copying the old one, but using our new points and units
-        new_time_coord = t_coord
-        new_time_coord.points = new_datetime_nums
-        new_time_coord.units = cis_standard_time_unit
-
-        # And add the new coordinate back into the cube
-        cube.add_dim_coord(new_time_coord, data_dim)
+    is_dim_coord = cube.coords(standard_name='time', dim_coords=True)
+
+    # Remove it from the cube while we change it
+    cube.remove_coord(t_coord)
+
+    new_datetime_nums = cis_standard_time_unit.date2num(t_coord.units.num2date(t_coord.points))
+    new_bound_nums = None
+    if t_coord.nbounds > 0:
+        new_bound_nums = cis_standard_time_unit.date2num(t_coord.units.num2date(t_coord.bounds))
+
+    # Reuse the old coordinate, but with our new points, bounds and units
+    t_coord.bounds = None
+    t_coord.points = new_datetime_nums
+    t_coord.bounds = new_bound_nums
+    t_coord.units = cis_standard_time_unit
+
+    # And add the new coordinate back into the cube, in the same role
+    if is_dim_coord:
+        cube.add_dim_coord(t_coord, data_dim)
+    else:
+        cube.add_aux_coord(t_coord, data_dim)
 
     return cube
 
-- 
2.43.0


From b8efd269efccf459322d2b46676b39d3a4f64d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:00 +0000
Subject: [PATCH 35/68] fix: read each slice and the 1km positions of MODIS
 variables, and list variables by the shape of their own file

---
 cis/data_io/products/MODIS.py  | 79 ++++++++++++++++++++--------------
 cis/data_io/products/caliop.py | 14 +++---
 cis/data_io/ungridded_data.py  |  3 ++
 3 files changed, 57 insertions(+), 39 deletions(-)

diff --git a/cis/data_io/products/MODIS.py b/cis/data_io/products/MODIS.py
index 29d8459..a736039 100644
--- a/cis/data_io/products/MODIS.py
+++ b/cis/data_io/products/MODIS.py
@@ -1,5 +1,6 @@
 import logging
 from cis.data_io import hdf as hdf
+from cis.data_io import hdf_sd
 from cis.data_io.Coord import CoordList, Coord
 from cis.data_io.products import AProduct
 from cis.data_io.ungridded_data import UngriddedCoordinates, UngriddedData, UngriddedDataList
@@ -18,9 +19,9 @@ def _get_MODIS_SDS_data(sds):
     data = sds.get()
     attributes = sds.attributes()
 
-    # Squeeze dimensions that have been sliced
-    if sds._count is not None and any(np.array(sds._count) == 1):
-        data = data.squeeze()
+    # Squeeze the (leading) dimensions that have been sliced, we always keep the last two
+    if sds._count is not None:
+        data = data.reshape(sds._count[-2:])
 
     # Apply Fill Value
     missing_value = attributes.get('_FillValue', None)
@@ -205,15 +206,12 @@ class MODIS_L2(AProduct):
     def get_variable_names(self, filenames, data_type=None):
         import pyhdf.SD
 
-        # Determine the valid shape for variables
-        sd = pyhdf.SD.SD(filenames[0])
-        datasets = sd.datasets()
-        valid_shape = datasets['Latitude'][1]  # Assumes that latitude shape == longitude shape (it should)
-
         variables = set([])
         for filename in filenames:
-            sd = pyhdf.SD.SD(filename)
-            for var_name, var_info in sd.datasets().items():
+            datasets = pyhdf.SD.SD(filename).datasets()
+            # Determine the valid shape for the variables in this file
+            valid_shape = datasets['Latitude'][1]  # Assumes that latitude shape == longitude shape (it should)
+            for var_name, var_info in datasets.items():
                 if var_info[1] == valid_shape:
                     variables.add(var_name)
 
@@ -233,26 +231,38 @@ class MODIS_L2(AProduct):
                 return scaling
         return None
 
-    def __field_interpolate(self, data, factor=5):
+    def __field_interpolate(self, data, factor=5, period=None):
         """
         Interpolates the given 2D field by the factor,
         edge pixels are defined by the ones in the centre,
         odd factors only!
+        If the field is periodic (e.g. longitudes) then the shorter way around is taken between each pair of pixels.
         """
         import numpy as np
 
         logging.debug("Performing interpolation...")
 
+        def difference(after, before):
+            diff = after - before
+            return diff if period is None else (diff + period / 2.) % period - period / 2.
+
+        # Missing values have to stay missing
+        data = np.ma.filled(np.ma.asarray(data, dtype=float), np.nan)
+
         output = np.zeros((factor * data.shape[0], factor * data.shape[1])) * np.nan
-        output[int(factor / 2)::factor, int(factor / 2)::factor] = data
-        for i in range(1, factor + 1):
-            output[(int(factor / 2) + i):(-1 * factor / 2 + 1):factor, :] = i * (
-                (output[int(factor / 2) + factor::factor, :] - output[int(factor / 2):(-1 * factor):factor, :]) /
-                float(factor)) + output[int(factor / 2):(-1 * factor):factor, :]
-        for i in range(1, factor + 1):
-            output[:, (int(factor / 2) + i):(-1 * factor / 2 + 1):factor] = i * (
-                (output[:, int(factor / 2) + factor::factor] - output[:, int(factor / 2):(-1 * factor):factor]) /
-                float(factor)) + output[:, int(factor / 2):(-1 * factor):factor]
+        output[factor // 2::factor, factor // 2::factor] = data
+        for i in range(1, factor):
+            output[(factor // 2 + i):-(factor // 2):factor, :] = i * (
+                difference(output[factor // 2 + factor::factor, :], output[factor // 2:-factor:factor, :]) /
+                float(factor)) + output[factor // 2:-factor:factor, :]
+        for i in range(1, factor):
+            output[:, (factor // 2 + i):-(factor // 2):factor] = i * (
+                difference(output[:, factor // 2 + factor::factor], output[:, factor // 2:-factor:factor]) /
+                float(factor)) + output[:, factor // 2:-factor:factor]
+        if period is not None:
+            with np.errstate(invalid='ignore'):
+                beyond = np.abs(output) > period / 2.
+            output[beyond] -= period * np.sign(output[beyond])
         return output
 
     def _create_coord_list(self, filenames, variable=None):
@@ -268,18 +278,18 @@ class MODIS_L2(AProduct):
             scale = self.__get_data_scale(filenames[0], variable)
             apply_interpolation = True if scale == "1km" else False
 
+        def get_coord_data(sds, period=None):
+            # Each file is interpolated on its own as they needn't be adjacent
+            data = _get_MODIS_SDS_data(sds)
+            return self.__field_interpolate(data, period=period) if apply_interpolation else data
+
         lat = sdata['Latitude']
-        sd_lat = hdf.read_data(lat, _get_MODIS_SDS_data)
-        lat_data = self.__field_interpolate(sd_lat) if apply_interpolation else sd_lat
+        lat_data = hdf.read_data(lat, get_coord_data)
         lat_metadata = hdf.read_metadata(lat, "SD")
         lat_coord = Coord(lat_data, lat_metadata, 'Y')
 
         lon = sdata['Longitude']
-        if apply_interpolation:
-            lon_data = self.__field_interpolate(hdf.read_data(lon, _get_MODIS_SDS_data))
-        else:
-            lon_data = hdf.read_data(lon, _get_MODIS_SDS_data)
-
+        lon_data = hdf.read_data(lon, lambda sds: get_coord_data(sds, period=360.))
         lon_metadata = hdf.read_metadata(lon, "SD")
         lon_coord = Coord(lon_data, lon_metadata, 'X')
 
@@ -287,7 +297,7 @@ class MODIS_L2(AProduct):
         time_metadata = hdf.read_metadata(time, "SD")
         # Ensure the standard name is set
         time_metadata.standard_name = 'time'
-        time_coord = Coord(time, time_metadata, "T", _get_MODIS_SDS_data)
+        time_coord = Coord(time, time_metadata, "T", get_coord_data)
         time_coord.convert_TAI_time_to_std_time(dt.datetime(1993, 1, 1, 0, 0, 0))
 
         return CoordList([lat_coord, lon_coord, time_coord])
@@ -309,11 +319,11 @@ class MODIS_L2(AProduct):
 
         # retrieve data + its metadata
         var = sdata[variable]
-        metadata = hdf.read_metadata(var, "SD")
 
         # Check the dimension of this variable
         _, ndim, dim_len, _, _ = var[0].info()
         if ndim == 2:
+            metadata = hdf.read_metadata(var, "SD")
             return UngriddedData(var, metadata, coords, _get_MODIS_SDS_data)
 
         elif ndim < 2:
@@ -325,10 +335,15 @@ class MODIS_L2(AProduct):
             # Iterate over all but the last two dimensions
             ranges = [range(n) for n in dim_len[:-2]]
             for indices in product(*ranges):
+                # Each of the slices needs its own references to the variable, and its own metadata
+                slices = []
                 for manager in var:
-                    manager._start = list(indices) + [0, 0]
-                    manager._count = [1] * len(indices) + manager.info()[2][-2:]
-                result.append(UngriddedData(var, metadata, coords.copy(), _get_MODIS_SDS_data))
+                    shape = list(manager.info()[2][-2:])
+                    slices.append(hdf_sd.HDF_SDS(manager._filename, manager._variable, start=list(indices) + [0, 0],
+                                                 count=[1] * len(indices) + shape))
+                slice_metadata = hdf.read_metadata(slices, "SD")
+                slice_metadata.shape = slices[0]._count[-2:]
+                result.append(UngriddedData(slices, slice_metadata, coords.copy(), _get_MODIS_SDS_data))
             return result
 
     def get_file_format(self, filenames):
diff --git a/cis/data_io/products/caliop.py b/cis/data_io/products/caliop.py
index fad21f5..77be70a 100644
--- a/cis/data_io/products/caliop.py
+++ b/cis/data_io/products/caliop.py
@@ -29,17 +29,16 @@ class abstract_Caliop(AProduct):
 
         variables = set([])
 
-        # Determine the valid shape for variables
-        sd = SD(filenames[0])
-        datasets = sd.datasets()
-        len_x = datasets['Latitude'][1][0]  # Assumes that latitude shape == longitude shape (it should)
+        # NOTE: This assumes that all of the files have the same altitudes
         alt_data = get_data(VDS(filenames[0], "Lidar_Data_Altitudes"), True)
         len_y = alt_data.shape[0]
-        valid_shape = (len_x, len_y)
 
         for filename in filenames:
-            sd = SD(filename)
-            for var_name, var_info in sd.datasets().items():
+            datasets = SD(filename).datasets()
+            # Determine the valid shape for the variables in this file
+            len_x = datasets['Latitude'][1][0]  # Assumes that latitude shape == longitude shape (it should)
+            valid_shape = (len_x, len_y)
+            for var_name, var_info in datasets.items():
                 if var_info[1] == valid_shape:
                     variables.add(var_name)
 
@@ -313,6 +312,7 @@ class Caliop_L2(abstract_Caliop):
             logging.warning("Using Level 2 resolution profile for mixed resolution variable {}. See CALIPSO "
                             "documentation for more details".format(variable))
             callback = self._get_mixed_resolution_calipso_data
+            metadata.shape = metadata.shape[:2]
         else:
             callback = self._get_calipso_data
 
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 897ac33..8be63c6 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -227,6 +227,9 @@ class LazyData(object):
 
     @property
     def shape(self):
+        if self._data is None and len(self._data_manager) > 1:
+            # The metadata was read from the first file only
+            return self.data.shape
         return self.metadata.shape
 
     @shape.setter
-- 
2.43.0


From 7a77f0b4292051fcb3e9074e50bece05093a8cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:40 +0000
Subject: [PATCH 36/68] fix: only list each existing file once however it is
 spelled, and no directories for wildcards

---
 cis/data_io/data_reader.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index b3b9244..b48e07c 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -7,6 +7,15 @@ from cis.data_io.products.AProduct import get_data, get_coordinates, get_variabl
 from cis.utils import listify
 
 
+def _has_wildcard(name):
+    """
+    :param str name: A filename or variable name
+    :return bool: Whether the name contains any of the wildcards understood by glob: ``*``, ``?`` or ``[...]``
+    """
+    import re
+    return re.search(r'[*?]|\[.+\]', name) is not None
+
+
 def expand_filelist(filelist):
     """
     :param filelist: A single element, or list, or comma seperated string of filenames, wildcarded filenames or
@@ -27,11 +36,12 @@ def expand_filelist(filelist):
     # Ensure we don't get duplicates by making file_set a set
     file_set = OrderedSet()
     for element in input_list:
-        if any(wildcard in element for wildcard in ['*', '?', ']', '}']):
+        if _has_wildcard(element):
             filelist = glob(element)
             filelist.sort()
             for filename in filelist:
-                file_set.add(filename)
+                if os.path.isfile(filename):
+                    file_set.add(filename)
         elif os.path.isdir(element):
             filelist = os.listdir(element)
             filelist.sort()
@@ -43,7 +53,10 @@ def expand_filelist(filelist):
             file_set.add(element)
         else:
             raise ValueError("{} is not a valid filename".format(element))
-    return list(file_set)
+
+    # The same file might have been given in different ways, only keep the first of these
+    paths = OrderedSet()
+    return [f for f in file_set if not (os.path.abspath(f) in paths or paths.add(os.path.abspath(f)))]
 
 
 class DataReader(object):
-- 
2.43.0


From ecd497a923a409fa708edb9fb5b7b527942e8423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:40 +0000
Subject: [PATCH 37/68] fix: give each variable the alias of the name or
 wildcard it was found by, in a fixed order

---
 cis/data_io/data_reader.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index b48e07c..092fe4c 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -96,49 +96,58 @@ class DataReader(object):
         variables = listify(variables)
         aliases = listify(aliases) if aliases else None
 
-        variables = self._expand_wildcards(variables, filenames, product)
+        variables, aliases = self._expand_wildcards(variables, filenames, product, aliases)
 
         data_list = None
         for idx, variable in enumerate(variables):
             var_data = self._get_data_func(filenames, variable, product)
             var_data.filenames = filenames
-            if aliases:
-                try:
-                    var_data.alias = aliases[idx]
-                except IndexError:
-                    raise ValueError("Number of aliases does not match number of variables")
+            if aliases and aliases[idx] is not None:
+                var_data.alias = aliases[idx]
             if data_list is None:
                 data_list = GriddedDataList() if var_data.is_gridded else UngriddedDataList()
             data_list.append(var_data)
         assert data_list is not None
         return data_list
 
-    def _expand_wildcards(self, variables, filenames, product):
+    def _expand_wildcards(self, variables, filenames, product, aliases=None):
         """
         Convert any wildcards into actual variable names by inspecting the file
 
         :param variables: List of variables names, some of which may be wilcards
         :param filenames: Filenames
-        :return: List of variable names to use.
+        :param aliases: List of the alias of each of the variables (optional). A wildcard can only be given an alias
+         if there is just one variable which matches it, or else it should be 'aliased' as itself.
+        :return: List of variable names to use, and the list of their aliases (None for those without one)
         """
+        if aliases and len(aliases) != len(variables):
+            raise ValueError("Number of aliases does not match number of variables")
         valid_vars = []
-        for variable in variables:
-            is_wildcard = any(wildcard in variable for wildcard in ['*', '?', ']', '}'])
+        valid_aliases = []
+        for idx, variable in enumerate(variables):
+            is_wildcard = _has_wildcard(variable)
+            alias = aliases[idx] if aliases else None
             file_variables = None
             if is_wildcard:
                 if file_variables is None:
                     file_variables = self._get_vars_func(filenames, product)
-                matches = fnmatch.filter(file_variables, variable)
+                matches = sorted(fnmatch.filter(file_variables, variable))
                 if len(matches) == 0:
                     logging.warning("No variables matching wildcard '%s' found in file." % variable)
                 else:
                     logging.info("Wildcard '%s' found matching variables: %s" % (variable, matches))
+                if alias == variable:
+                    alias = None
+                elif alias is not None and len(matches) > 1:
+                    raise ValueError("Alias '{}' can't be used for all of the variables matching '{}'".format(alias, variable))
                 valid_vars.extend(matches)
+                valid_aliases.extend([alias] * len(matches))
             else:
                 valid_vars.append(variable)
+                valid_aliases.append(alias)
         if len(valid_vars) == 0:
             raise ValueError("No matching variables could be found for the variables supplied")
-        return valid_vars
+        return valid_vars, valid_aliases
 
     def read_datagroups(self, datagroups):
         """
-- 
2.43.0


From 379f81f99cb4a160054bca88482d5fc12cd10b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:24 +0000
Subject: [PATCH 38/68] fix: find every product class whatever its ancestry,
 match whole file names, and give the reasons for a file which cannot be read

---
 cis/data_io/products/AProduct.py | 4 ++--
 cis/data_io/products/products.py | 7 +++++--
 cis/plugin.py                    | 6 ++----
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/cis/data_io/products/AProduct.py b/cis/data_io/products/AProduct.py
index a061f30..38486df 100644
--- a/cis/data_io/products/AProduct.py
+++ b/cis/data_io/products/AProduct.py
@@ -164,8 +164,8 @@ def __get_class(filename, product=None):
             patterns = class_instance.get_file_signature()
             for pattern in patterns:
                 # Match the pattern - re.I allows for case insensitive matches.
-                # Appending '$' to the pattern ensures we match the whole string
-                if re.match(pattern+'$', basename, re.I) is not None:
+                # The pattern (every alternative of it) has to match the whole string
+                if re.match('(?:' + pattern + r')\Z', basename, re.I) is not None:
                     logging.debug("Found product class " + cls.__name__ + " matching regex pattern " + pattern)
                     errors = class_instance.get_file_type_error(filename)
                     if errors is None:
diff --git a/cis/data_io/products/products.py b/cis/data_io/products/products.py
index 0f7ad5f..119968d 100644
--- a/cis/data_io/products/products.py
+++ b/cis/data_io/products/products.py
@@ -65,14 +65,17 @@ class cis(AProduct):
         :return: list fo errors or None
         """
         from cis.data_io.netcdf import get_netcdf_file_attributes
-        atts = get_netcdf_file_attributes(filename)
+        try:
+            atts = get_netcdf_file_attributes(filename)
+        except (RuntimeError, IOError) as ex:
+            return ["File is unreadable", ex.args[0]]
         errors = None
         try:
             source = atts['source']
         except KeyError as ex:
             errors = ['No source attribute found in {}'.format(filename)]
         else:
-            if not source.startswith('CIS'):
+            if not str(source).startswith('CIS'):
                 errors = ['Source ({}) does not match CIS in {}'.format(source, filename)]
         return errors
 
diff --git a/cis/plugin.py b/cis/plugin.py
index c0149d1..f3bd304 100644
--- a/cis/plugin.py
+++ b/cis/plugin.py
@@ -55,7 +55,7 @@ def find_plugins(plugin_dir, parent_class_name, verbose):
             logging.info("Importing plugin: " + str(plugin))
         module = __import__(plugin)
         classes = [getattr(module, x) for x in dir(module) if isinstance(getattr(module, x), type)]
-        product_classes = [cls for cls in classes if parent_class_name in str(cls.__bases__[0])]
+        product_classes += [cls for cls in classes if parent_class_name in [base.__name__ for base in cls.__mro__[1:]]]
 
     return product_classes
 
@@ -71,9 +71,7 @@ def find_plugin_classes(parent_class, built_in_module, verbose=True):
     subclasses = get_all_subclasses(parent_class, built_in_module)
     all_classes = plugin_classes + subclasses
 
-    for subclass in all_classes:
-        if subclass.__name__.startswith('abstract') or subclass.__name__.startswith('Abstract'):
-            all_classes.remove(subclass)
+    all_classes = [subclass for subclass in all_classes if not subclass.__name__.startswith(('abstract', 'Abstract'))]
 
     all_classes = sorted(all_classes, key=lambda subclass: subclass.__name__)
 
-- 
2.43.0


From 2441a916dbc90c8bf8fa64552606fa539e51191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:24 +0000
Subject: [PATCH 39/68] fix: collapse without changing the input, over any
 axes, and keep height coordinates attached to their own orography

---
 cis/aggregation/gridded_collapsor.py | 50 ++++++++++++++++++----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index c1c9ebc..b51bb7c 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -58,12 +58,20 @@ class GriddedCollapsor(object):
         return new_dims
 
     @staticmethod
-    def _update_aux_factories(data, *args, **kwargs):
-        from cis.utils import listify
-        d_list = listify(data)
-        for d in d_list:
-            for factory in d.aux_factories:
-                factory.update(*args, **kwargs)
+    def _calc_area_weights(cube):
+        """
+        Calculate the area of each cell. The extent of a horizontal coordinate which only has one value (or isn't there)
+         is the same for every cell, so if it isn't known any extent gives the same relative weights.
+        """
+        import iris.analysis.cartography
+        import iris.coords
+        cube = cube.copy()
+        if not cube.coords('longitude'):
+            cube.add_aux_coord(iris.coords.AuxCoord(0.0, standard_name='longitude', units='degrees'))
+        for coord in cube.coords('latitude') + cube.coords('longitude'):
+            if coord.shape == (1,) and not coord.has_bounds():
+                coord.bounds = [[0.0, 1.0]]
+        return iris.analysis.cartography.area_weights(cube)
 
     def _gridded_full_collapse(self, kernel):
         from copy import deepcopy
@@ -82,16 +90,18 @@ class GriddedCollapsor(object):
             # If a coordinate has any of the dimensions we wan't to collapse AND has some dimensions we don't...
             if set(dims_to_collapse).intersection(coord_dims) and \
                     set(coord_dims).difference(dims_to_collapse):
-                # ... add it to our list of partial coordinates to collapse.
-                coords_for_partial_collapse.append((coord, coord_dims))
+                # ... add it to our list of partial coordinates to collapse, and note where it is used by an aux factory.
+                dependents = [(i, key) for i, factory in enumerate(self.data.aux_factories)
+                              for key, dependency in factory.dependencies.items() if dependency is coord]
+                coords_for_partial_collapse.append((coord, coord_dims, dependents))
 
-        if isinstance(kernel, iris.analysis.WeightedAggregator) and \
+        if isinstance(kernel, iris.analysis.WeightedAggregator) and kernel is not iris.analysis.SUM and \
                         'latitude' in [c.standard_name for c in self.coords]:
             # If this is a list we can calculate weights using the first item (all variables should be on
             # same grid)
             data_for_weights = self.data[0] if isinstance(self.data, list) else self.data
             # Weights to correctly calculate areas.
-            ag_args['weights'] = iris.analysis.cartography.area_weights(data_for_weights)
+            ag_args['weights'] = self._calc_area_weights(data_for_weights)
         elif not isinstance(kernel, iris.analysis.Aggregator):
             raise ClassNotFoundError('Error - unexpected aggregator type.')
 
@@ -100,26 +110,33 @@ class GriddedCollapsor(object):
         #  when using a MultiKernel for which this routine gets called multiple times.
         data_for_collapse = deepcopy(self.data)
 
-        for coord, _ in coords_for_partial_collapse:
+        for coord, _, _ in coords_for_partial_collapse:
             data_for_collapse.remove_coord(coord)
 
         # Having set-up the collapse we can now just defer to the Cube.collapse method for much of the leg-work
         new_data = iris.cube.Cube.collapsed(data_for_collapse, self.coords, kernel, **ag_args)
 
-        for coord, old_dims in coords_for_partial_collapse:
-            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord, dims_to_collapse)
+        for coord, old_dims, dependents in coords_for_partial_collapse:
+            # The dimensions of the coordinate itself which are being collapsed
+            local_dims = [old_dims.index(d) for d in dims_to_collapse if d in old_dims]
+            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord, local_dims)
             new_dims = GriddedCollapsor._calc_new_dims(old_dims, dims_to_collapse)
 
             new_data.add_aux_coord(collapsed_coord, new_dims)
             # If the coordinate we had to collapse manually was a dependency in an aux factory (which is quite likely)
-            #  then we need to put it back in and fix the factory, this will update any missing dependencies.
-            self._update_aux_factories(new_data, None, collapsed_coord)
+            #  then we need to put it back in and fix the factory.
+            for i, key in dependents:
+                setattr(new_data.aux_factories[i], key, collapsed_coord)
 
         return new_data
 
     def __call__(self, kernel):
         from cis.data_io.gridded_data import GriddedDataList
         from cis.aggregation.collapse_kernels import MultiKernel
+        from copy import deepcopy
+
+        # Any bounds we create shouldn't appear on the input data
+        self.data = deepcopy(self.data)
 
         # Make sure all coordinate have bounds - important for weighting and aggregating
         # Only try and guess bounds on Dim Coords
@@ -127,9 +144,6 @@ class GriddedCollapsor(object):
             if not coord.has_bounds() and len(coord.points) > 1:
                 coord.guess_bounds()
                 logging.warning("Creating guessed bounds as none exist in file")
-                new_coord_number = self.data.coord_dims(coord)
-                self.data.remove_coord(coord.name())
-                self.data.add_dim_coord(coord, new_coord_number)
 
         output = GriddedDataList([])
         if isinstance(kernel, MultiKernel):
-- 
2.43.0


From fecbfe397cfc934073ea8bdbd33fc4d26856022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:52 +0000
Subject: [PATCH 40/68] fix: flattened data follows later changes of the values

---
 cis/data_io/ungridded_data.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 8be63c6..76d64f7 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -185,8 +185,6 @@ class LazyData(object):
         from iris.cube import CubeMetadata
         import numpy as np
 
-        self._data_flattened = None
-
         self.attributes = {}
 
         self.metadata = Metadata.from_CubeMetadata(metadata) if isinstance(metadata, CubeMetadata) else metadata
@@ -334,16 +332,13 @@ class LazyData(object):
     @data.setter
     def data(self, value):
         self._data = value
-        self._data_flattened = None
 
     @property
     def data_flattened(self):
         """Returns a 1D flattened view (or copy, if necessary) of the data.
         """
-        if self._data_flattened is None:
-            data = self.data
-            self._data_flattened = data.ravel()
-        return self._data_flattened
+        # This isn't kept as it wouldn't follow changes to the values where it is a copy, or to the mask
+        return self.data.ravel()
 
     def add_history(self, new_history):
         """Appends to, or creates, the metadata history attribute using the supplied history string.
@@ -498,7 +493,6 @@ class UngriddedData(LazyData, CommonData):
                     self._data = numpy.ma.masked_array(new_data, mask=new_data_mask)
                 else:
                     self._data = numpy.ma.masked_array(self._data.flatten(), mask=combined_mask).compressed()
-                self._data_flattened = None
             self.update_shape()
             self.update_range()
 
-- 
2.43.0


From 9a9bcf4c2029aac8022b9671b6dcd4cd29f55d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:52 +0000
Subject: [PATCH 41/68] fix: open ended date limits work for coordinates in
 masked arrays

---
 cis/subsetting/subset.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 8e0c2eb..1b127e4 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -63,11 +63,9 @@ def subset(data, constraint, **kwargs):
             raise ValueError("Invalid subset arguments: {}".format(limit))
 
         # Fill in defaults (as dates if the other limit is a date)
-        points = c.points
-        if isinstance(l.start, datetime) or isinstance(l.stop, datetime):
-            points = c.units.num2date(points)
-        limit_start = l.start if l.start is not None else points.min()
-        limit_end = l.stop if l.stop is not None else points.max()
+        is_date = isinstance(l.start, datetime) or isinstance(l.stop, datetime)
+        limit_start = l.start if l.start is not None else _default_limit(c, c.points.min(), is_date)
+        limit_end = l.stop if l.stop is not None else _default_limit(c, c.points.max(), is_date)
 
         constraints[data._get_coord(dim_name).name()] = slice(limit_start, limit_end)
 
@@ -81,6 +79,14 @@ def subset(data, constraint, **kwargs):
     return subset
 
 
+def _default_limit(coord, extreme, is_date):
+    """
+    The limit to use where none was given: the extreme of the points (which might be in a masked array, which has no
+    extremes as dates)
+    """
+    return coord.units.num2date(extreme) if is_date else extreme
+
+
 @six.add_metaclass(ABCMeta)
 class SubsetConstraint(object):
     """Abstract Constraint for subsetting.
-- 
2.43.0


From aa7539fd0d2f49ce0b530ef7a410d66db2d8b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 42/68] fix: AERONET files are read with the installed pandas

---
 cis/data_io/aeronet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/aeronet.py b/cis/data_io/aeronet.py
index 6fccd5c..1ecee90 100644
--- a/cis/data_io/aeronet.py
+++ b/cis/data_io/aeronet.py
@@ -172,8 +172,7 @@ def load_aeronet(filename, variables=None):
     try:
         rawd = read_csv(filename, sep=",", header=AERONET_HEADER_LENGTH[version]-1, names=ordered_vars,
                         index_col=False, usecols=cols, na_values=AERONET_MISSING_VALUE[version], dtype=dtypes,
-                        parse_dates={"datetime":["date", "time"]}, infer_datetime_format=True, dayfirst=True,
-                        error_bad_lines=False, warn_bad_lines=True, #low_memory="All_Sites_Times_All_Points" in filename
+                        on_bad_lines='warn', #low_memory="All_Sites_Times_All_Points" in filename
         )
     except ValueError:
         raise InvalidVariableError("{} not available in {}".format(variables, filename))
@@ -184,7 +183,8 @@ def load_aeronet(filename, variables=None):
 
     # Convert pandas Timestamps into CIS standard numbers
     rawd["datetime"] = [cis_standard_time_unit.date2num(timestamp.to_pydatetime())
-                        for timestamp in to_datetime(rawd["datetime"], format='%d:%m:%Y %H:%M:%S')]
+                        for timestamp in to_datetime(rawd.pop("date") + " " + rawd.pop("time"),
+                                                     format='%d:%m:%Y %H:%M:%S')]
 
     # Add position metadata that isn't listed in every line for some formats
     if version.startswith("MAN"):
-- 
2.43.0


From 830baa84593451060a27c70016a87aae10f552ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 43/68] fix: ASCII files of a single line can be read

---
 cis/data_io/products/products.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/products.py b/cis/data_io/products/products.py
index 119968d..95c20cc 100644
--- a/cis/data_io/products/products.py
+++ b/cis/data_io/products/products.py
@@ -166,7 +166,7 @@ class ASCII_Hyperpoints(AProduct):
                 array_list.append(genfromtxt(filename, dtype="f8,f8,f8,O,f8",
                                              names=['latitude', 'longitude', 'altitude', 'time', 'value'],
                                              delimiter=',', missing_values='', usemask=True, invalid_raise=True,
-                                             converters={"time": du.parse}))
+                                             converters={"time": du.parse}).reshape(-1))
             except:
                 raise IOError('Unable to read file ' + filename)
 
-- 
2.43.0


From 5dc34cc861b41bcd602b86dbe6668fc3b64d78b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 44/68] fix: only a variable along the bins is an auxiliary
 coordinate of NCAR RAF data

---
 cis/data_io/products/NCAR_NetCDF_RAF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/NCAR_NetCDF_RAF.py b/cis/data_io/products/NCAR_NetCDF_RAF.py
index 3d9c5b0..edaeae4 100644
--- a/cis/data_io/products/NCAR_NetCDF_RAF.py
+++ b/cis/data_io/products/NCAR_NetCDF_RAF.py
@@ -271,7 +271,7 @@ class NCAR_NetCDF_RAF_variable_name_selector(object):
             #  the auxiliary dimension.
             else:
                 for v, dims in self._variable_dimensions[0].items():
-                    if dims[0] == aux_coords[0]:
+                    if tuple(dims) == (aux_coords[0],):
                         aux_coord_name = v
                         break
         return aux_coord_name
-- 
2.43.0


From a8f8c09774cf8149945a6458016c23fcbed9f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 45/68] fix: data without longitudes can be plotted

---
 cis/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/utils.py b/cis/utils.py
index db6e12d..5d61432 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -237,10 +237,11 @@ def find_longitude_wrap_start(packed_data_item):
     :param packed_data_item:
     :return:
     """
-    from iris.exceptions import CoordinateNotFoundError
+    import cis.exceptions as cis_ex
+    import iris.exceptions as iris_ex
     try:
         x_points_min = packed_data_item.coord(standard_name='longitude').points.min()
-    except CoordinateNotFoundError:
+    except (iris_ex.CoordinateNotFoundError, cis_ex.CoordinateNotFoundError):
         x_wrap_start = None
     else:
         x_wrap_start = -180 if x_points_min < 0 else 0
-- 
2.43.0


From 2659687ff38788aeec64bf653a34a1c73cb3139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 46/68] fix: times are drawn as dates along every axis, and
 coordinates can be drawn

---
 cis/plotting/genericplot.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index b1aaece..03abda4 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -53,6 +53,17 @@ class APlot(object):
         """
         pass
 
+    @staticmethod
+    def to_plot_values(coord, values):
+        """
+        :param Coord coord: The coordinate of an axis
+        :param NDarray values: The points or bounds of the coordinate
+        :return NDarray: The values to use along the axis - these are converted to matplotlib datetimes for a time
+        """
+        if coord.standard_name == 'time':
+            return coord.units.convert(values, 'days since 1970-01-01 00:00:00')
+        return values
+
     @abstractmethod
     def is_map(self):
         """
@@ -85,13 +96,11 @@ class GenericPlot(APlot):
 
         logging.debug("Unpacking the data items")
 
-        if self.xaxis.standard_name == 'time':
-            # Convert to matplotlib datetime
-            self.x = self.xaxis.units.convert(self.xaxis.points, 'days since 1970-01-01 00:00:00')
-        else:
-            self.x = self.xaxis.points
+        self.x = self.to_plot_values(self.xaxis, self.xaxis.points)
 
-        self.data = packed_data.data
+        # Coordinates (for a user specified y-axis) have points rather than data
+        self.data = self.to_plot_values(packed_data, packed_data.points if hasattr(packed_data, 'points')
+                                        else packed_data.data)
 
         self.mplkwargs['label'] = self.label or packed_data.name()
         self.xlabel, self.ylabel = get_label(self.xaxis), get_label(packed_data)
@@ -202,6 +211,8 @@ class Generic2DPlot(APlot):
             y = self.yaxis.points
             data = data_object.data
 
+        x, y = self.to_plot_values(self.xaxis, x), self.to_plot_values(self.yaxis, y)
+
         logging.debug("Shape of x: " + str(x.shape))
         if y is not None:
             logging.debug("Shape of y: " + str(y.shape))
-- 
2.43.0


From 769d988ef45292c650be59476bb0884df811ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 47/68] fix: gridded data is drawn at its own place on the axes
 asked for

---
 cis/plotting/genericplot.py | 48 ++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index 03abda4..53931ee 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -205,7 +205,12 @@ class Generic2DPlot(APlot):
             x = self.xaxis.points if self.MODE == POINT_MODE else self.xaxis.contiguous_bounds()
             y = self.yaxis.points if self.MODE == POINT_MODE else self.yaxis.contiguous_bounds()
             # We need to do some more unpacking, and possibly meshgridding for gridded data
-            data, x, y = self._cube_manipulation(data_object, x, y)
+            transpose, cyclic = None, None
+            if len(data_object.shape) == 2 and self.xaxis.points.ndim == self.yaxis.points.ndim == 1:
+                # The dimensions of the data are put in the order of the axes which were asked for
+                transpose = (data_object.coord_dims(self.xaxis), data_object.coord_dims(self.yaxis)) == ((0,), (1,))
+                cyclic = [self._spans_the_globe(self.xaxis), self._spans_the_globe(self.yaxis)]
+            data, x, y = self._cube_manipulation(data_object, x, y, transpose, cyclic)
         else:
             x = self.xaxis.points
             y = self.yaxis.points
@@ -221,7 +226,18 @@ class Generic2DPlot(APlot):
         return data, x, y
 
     @staticmethod
-    def _cube_manipulation(cube, x, y):
+    def _spans_the_globe(coord):
+        """
+        :param Coord coord: A one dimensional coordinate
+        :return bool: Are these evenly spaced longitudes which go all the way round, so that the first follows the last?
+        """
+        import numpy as np
+        steps = np.diff(coord.points)
+        return coord.name().lower().startswith('lon') and len(steps) > 0 and \
+            np.allclose(steps, steps[0]) and np.isclose(abs(steps[0]) * len(coord.points), 360.0)
+
+    @staticmethod
+    def _cube_manipulation(cube, x, y, transpose=None, cyclic=None):
         """
         Optionally transpose the data and make a mesh-grid, taking into account auxilliary coordinates
         A lot of this logic closely follows that used in iris.qplt.
@@ -229,6 +245,8 @@ class Generic2DPlot(APlot):
         :param Cube cube: An iris Cube
         :param NDarray x: a numpy array of x points
         :param NDarray y: a numpy array of y points
+        :param bool transpose: Whether the data needs transposing, if this is known. Otherwise it is left to Iris
+        :param list cyclic: Whether the x and y axis respectively need joining up (default is neither)
         :return: data, x, and y and as numpy arrays
         """
         import iris.plot as iplt
@@ -239,8 +257,9 @@ class Generic2DPlot(APlot):
         no_of_dims = len(cube.shape)
         data = cube.data
 
-        plot_defn = iplt._get_plot_defn(cube, iris.coords.POINT_MODE, ndims=no_of_dims)
-        if plot_defn.transpose:
+        if transpose is None:
+            transpose = iplt._get_plot_defn(cube, iris.coords.POINT_MODE, ndims=no_of_dims).transpose
+        if transpose:
             data = data.T
             x = x.T
             y = y.T
@@ -266,17 +285,12 @@ class Generic2DPlot(APlot):
                         y, _x = np.meshgrid(y, x[0, :])
                     elif x[0, :].shape == y.shape:
                         y, _x = np.meshgrid(y, x[:, 0])
-            else:
-                if len(x) == data.shape[-1]:
-                    try:
-                        data, x = add_cyclic_point(data, x)
-                    except ValueError as e:
-                        logging.warn('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
-                    x, y = np.meshgrid(x, y)
-                elif len(y) == data.shape[-1]:
-                    try:
-                        data, y = add_cyclic_point(data, y)
-                    except ValueError as e:
-                        logging.warn('Unable to add cyclic data point for y-axis. Error was: ' + e.args[0])
-                    y, x = np.meshgrid(y, x)
+            elif (len(y), len(x)) == data.shape:
+                # These are the points (rather than the bounds) of each of the axes
+                x_cyclic, y_cyclic = cyclic or (False, False)
+                if x_cyclic:
+                    data, x = add_cyclic_point(data, x)
+                if y_cyclic:
+                    data, y = add_cyclic_point(data, y, axis=0)
+                x, y = np.meshgrid(x, y)
         return data, x, y
-- 
2.43.0


From c46c5d771e22eb8d343324b57f83889d6b42458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 48/68] fix: logv can be combined with vmin and vmax, and
 applies to 2D histograms

---
 cis/plotting/genericplot.py | 2 +-
 cis/plotting/histogram2d.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index 53931ee..7cef308 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -163,7 +163,7 @@ class Generic2DPlot(APlot):
 
         if self.logv:
             from matplotlib.colors import LogNorm
-            self.mplkwargs["norm"] = LogNorm()
+            self.mplkwargs["norm"] = LogNorm(self.mplkwargs.pop('vmin', None), self.mplkwargs.pop('vmax', None))
 
     def __call__(self, ax):
         from .plot import add_color_bar
diff --git a/cis/plotting/histogram2d.py b/cis/plotting/histogram2d.py
index a394d24..99ff327 100644
--- a/cis/plotting/histogram2d.py
+++ b/cis/plotting/histogram2d.py
@@ -35,6 +35,10 @@ class Histogram2D(ComparativeScatter):
         self.colourbar = colourbar
         self.cbarlabel = cbarlabel or "Frequency"
 
+        if self.logv:
+            from matplotlib.colors import LogNorm
+            self.mplkwargs["norm"] = LogNorm(self.mplkwargs.pop('vmin', None), self.mplkwargs.pop('vmax', None))
+
     def __call__(self, ax):
         """
         Plots a 2d histogram.
-- 
2.43.0


From c5d9184d9916f0502d0ed4be5a8830a2e18fc637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 49/68] fix: maps show the region of the data or the limits

---
 cis/plotting/formatted_plot.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index a0f9871..3a4cb98 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -49,8 +49,6 @@ def apply_map_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=
     from cis.plotting.plot import get_best_map_ticks
     import numpy as np
 
-    transform = ccrs.PlateCarree(360)
-
     global_tolerance = 0.8
 
     # We can't optionally pass in certain bounds to set_extent so we need to pull out the existing ones and only
@@ -62,11 +60,26 @@ def apply_map_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=
                  (x2 - x1 > (ax.projection.x_limits[1] - ax.projection.x_limits[0]) * global_tolerance)):
         ax.set_global()
     else:
-        xmin = xmin if xmin is not None else x1
-        xmax = xmax if xmax is not None else x2
-        ymin = ymin if ymin is not None else y1
-        ymax = ymax if ymax is not None else y2
-        ax.set_extent([xmin, xmax, ymin, ymax], crs=transform)
+        # The extent of the axis is in the coordinates of its projection (so relative to its central longitude, for
+        #  example) but the limits are longitudes and latitudes.
+        left, right = ax.projection.x_limits
+        lon_lat = ccrs.PlateCarree()
+        if xmin is not None:
+            x1 = ax.projection.transform_point(xmin, 0.0, lon_lat)[0]
+            # The two edges of the map are at the same longitude
+            x1 = left if np.isclose(x1, right) else x1
+        if xmax is not None:
+            x2 = ax.projection.transform_point(xmax, 0.0, lon_lat)[0]
+            x2 = right if np.isclose(x2, left) else x2
+        if ymin is not None:
+            y1 = ax.projection.transform_point(0.0, ymin, lon_lat)[1]
+        if ymax is not None:
+            y2 = ax.projection.transform_point(0.0, ymax, lon_lat)[1]
+        if x1 >= x2:
+            # The range goes over the edge of the map
+            x1, x2 = left, right
+        ax.set_xlim(x1, x2)
+        ax.set_ylim(y1, y2)
 
     # Get the updated extent
     x1, x2, y1, y2 = ax.get_extent()
-- 
2.43.0


From fc107714c377c0a0084f1f0cf2ea146294059394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 50/68] fix: inverted pressure axes and time steps of an axis

---
 cis/plotting/formatted_plot.py | 13 ++++++++++---
 cis/plotting/plot.py           |  8 +++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index 3a4cb98..5b82861 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -103,18 +103,25 @@ def apply_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=None
     Applies the specified limits to the given axis
     """
     import numpy as np
+    from datetime import timedelta
 
     ax.set_xlim(xmin=xmin, xmax=xmax)
-    ax.set_ylim(ymin=ymin, ymax=ymax)
+    if ax.yaxis_inverted() and (ymin is None or ymax is None):
+        ax.set_ylim(ymin=ymax, ymax=ymin)
+    else:
+        ax.set_ylim(ymin=ymin, ymax=ymax)
+
+    # The units of a time axis are days
+    xstep, ystep = [step.total_seconds() / 86400.0 if isinstance(step, timedelta) else step for step in (xstep, ystep)]
 
     if xstep is not None:
-        min_val, max_val = ax.get_xlim()
+        min_val, max_val = sorted(ax.get_xlim())
         ticks = np.arange(min_val, max_val + xstep, xstep)
 
         ax.set_xticks(ticks)
 
     if ystep is not None:
-        min_val, max_val = ax.get_ylim()
+        min_val, max_val = sorted(ax.get_ylim())
         ticks = np.arange(min_val, max_val + ystep, ystep)
 
         ax.set_yticks(ticks)
diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 36aac20..bcffaab 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -333,7 +333,7 @@ def basic_plot(data, how=None, ax=None, xaxis=None, yaxis=None, projection=None,
     from cis.data_io.common_data import CommonData
     from cis.data_io.gridded_data import GriddedData
     from cis.utils import squeeze
-    from cis.plotting.genericplot import GenericPlot
+    from cis.plotting.genericplot import GenericPlot, Generic2DPlot
 
     # Remove any extra gridded data dimensions
     if isinstance(data, GriddedData):
@@ -393,8 +393,10 @@ def basic_plot(data, how=None, ax=None, xaxis=None, yaxis=None, projection=None,
     if xaxis_coord.standard_name == 'time' and how not in ['comparativescatter', 'histogram2d', 'histogram']:
         set_x_axis_as_time(ax)
 
-    if yaxis_coord.standard_name == 'air_pressure':
-        ax.invert_yaxis()
+    if yaxis_coord.standard_name == 'air_pressure' and (data is yaxis_coord or issubclass(plt_type, Generic2DPlot)):
+        # Another layer might have inverted it already
+        if not ax.yaxis_inverted():
+            ax.invert_yaxis()
 
     return plot, ax
 
-- 
2.43.0


From f68592385797fcdbb22bbbf6a4680c0bb673551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 51/68] fix: the type of a layer only applies to that layer,
 and to a single one

---
 cis/plotting/formatted_plot.py | 1 +
 cis/plotting/plot.py           | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index 5b82861..611c0ab 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -203,6 +203,7 @@ class Plotter(object):
         else:
             if 'layer_opts' in kwargs:
                 kwargs.update(kwargs.pop('layer_opts')[0])
+                type = kwargs.pop('type', type)
             plot, self.ax = basic_plot(data, how=type, *args, **kwargs)
 
         self.fig = self.ax.get_figure()
diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index bcffaab..97edb8b 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -433,9 +433,9 @@ def multilayer_plot(data_list, how=None, ax=None, yaxis=None, layer_opts=None, *
 
         for d, y, opts in zip(data_list, yaxis, layer_opts):
             layer_kwargs = dict(list(kwargs.items()) + list(opts.items()))
-            how = layer_kwargs.pop('type', how)
+            layer_how = layer_kwargs.pop('type', how)
             label = layer_kwargs.pop('label', get_label(d, units=False))
-            plot, ax = basic_plot(d, how, ax, yaxis=y, label=label, *args, **layer_kwargs)
+            plot, ax = basic_plot(d, layer_how, ax, yaxis=y, label=label, *args, **layer_kwargs)
 
         legend = ax.legend(loc="best")
         if legend is not None:
-- 
2.43.0


From 849cee9699bddab0fa3841eef34aea75f3792de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:21 +0000
Subject: [PATCH 52/68] fix: maps can be drawn without an internet connection

---
 cis/plotting/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 97edb8b..be687f7 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -157,10 +157,10 @@ def _test_natural_earth_available():
     :return: Can we access natural earth?
     """
     from cartopy.io.shapereader import natural_earth
-    from six.moves.urllib.error import HTTPError
+    from six.moves.urllib.error import URLError
     try:
         natural_earth_available = natural_earth()
-    except HTTPError:
+    except URLError:
         natural_earth_available = False
     return natural_earth_available
 
-- 
2.43.0


From 29a43c0d3d89c5ffdbfcb56e90a42dbcbb723e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:21 +0000
Subject: [PATCH 53/68] fix: comparative plots against a coordinate, and edge
 colours of points

---
 cis/plotting/comparativescatter.py | 5 +++--
 cis/plotting/scatterplot.py        | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cis/plotting/comparativescatter.py b/cis/plotting/comparativescatter.py
index 0de8de5..8b64309 100644
--- a/cis/plotting/comparativescatter.py
+++ b/cis/plotting/comparativescatter.py
@@ -14,7 +14,8 @@ class ComparativeScatter(APlot):
         super(ComparativeScatter, self).__init__(packed_data, *mplargs, **mplkwargs)
 
         logging.debug("Unpacking the data items")
-        self.x, self.y = getattr(self.xaxis, 'points', None) or self.xaxis.data, packed_data.data
+        self.x = self.xaxis.points if hasattr(self.xaxis, 'points') else self.xaxis.data
+        self.y = packed_data.data
 
         self.label = packed_data.long_name if self.label is None else self.label
 
@@ -29,7 +30,7 @@ class ComparativeScatter(APlot):
             self.mplkwargs["marker"] = self.itemstyle
 
         if self.edgecolor is not None:
-            self.mplkwargs["edgecolors"] = self.edgecolor
+            self.mplkwargs["markeredgecolor"] = self.edgecolor
 
         if self.color is not None:
             self.mplkwargs["c"] = self.color
diff --git a/cis/plotting/scatterplot.py b/cis/plotting/scatterplot.py
index 901167a..c58790a 100644
--- a/cis/plotting/scatterplot.py
+++ b/cis/plotting/scatterplot.py
@@ -18,7 +18,7 @@ class ScatterPlot(GenericPlot):
             self.mplkwargs["marker"] = self.itemstyle
 
         if self.edgecolor is not None:
-            self.mplkwargs["edgecolors"] = self.edgecolor
+            self.mplkwargs["markeredgecolor"] = self.edgecolor
 
         if self.color is not None:
             self.mplkwargs["c"] = self.color
-- 
2.43.0


From cde95beefffc35cee50aeb501ae03d758930ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:21 +0000
Subject: [PATCH 54/68] fix: vstep is the step between contours

---
 cis/plotting/contourplot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cis/plotting/contourplot.py b/cis/plotting/contourplot.py
index d4348df..71b6e45 100644
--- a/cis/plotting/contourplot.py
+++ b/cis/plotting/contourplot.py
@@ -19,13 +19,14 @@ class ContourPlot(Generic2DPlot):
         :param dict cont_label_kwargs: A dictionary of contour label keywork args (e.g. format)
         :param kwargs: Other keyword args to pass to plot
         """
-        super(ContourPlot, self).__init__(packed_data, *args, **kwargs)
+        import numpy as np
+        super(ContourPlot, self).__init__(packed_data, vstep=vstep, *args, **kwargs)
         self.filled = False
         if contlevels:
             self.levels = contlevels
         elif self.vstep:
-            self.levels = (kwargs.get('vmax', self.data.max()) -
-                           kwargs.get('vmin', self.data.min())) / vstep
+            self.levels = np.arange(kwargs.get('vmin', self.data.min()),
+                                    kwargs.get('vmax', self.data.max()) + vstep, vstep)
         else:
             self.levels = contnlevels
 
-- 
2.43.0


From 6e804341e7e0a013c3bd9512cf017ed00fab3ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:21 +0000
Subject: [PATCH 55/68] fix: Taylor diagrams compare all of the values

---
 cis/plotting/taylor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cis/plotting/taylor.py b/cis/plotting/taylor.py
index d95a1f9..e89b634 100644
--- a/cis/plotting/taylor.py
+++ b/cis/plotting/taylor.py
@@ -103,11 +103,11 @@ class Taylor(APlot):
         elif self.bias is not None and self.bias != 'flag':
             raise ValueError('Invalid bias argument specified, should be either colo[u]r, size or flag')
 
-        if logv:
-            packed_data = [np.ma.log(d.data) for d in packed_data]
+        # The correlations are between all of the values, whatever their shape
+        values = [np.ma.log(d.data).flatten() if logv else d.data.flatten() for d in packed_data]
 
-        means = np.ma.array([np.ma.mean(d.data) for d in packed_data])
-        sigmas = np.ma.array([np.ma.std(d.data, ddof=1) for d in packed_data])
+        means = np.ma.array([np.ma.mean(v) for v in values])
+        sigmas = np.ma.array([np.ma.std(v, ddof=1) for v in values])
 
         logging.info("Means: {}".format(means))
         # Treat the first array as the reference
@@ -118,7 +118,7 @@ class Taylor(APlot):
         self.gammas = sigmas / ref_sigma
 
         # Calculate the correlations against the first array
-        self.corrs = np.ma.array([np.ma.corrcoef(d.data, packed_data[0].data)[0, 1] for d in packed_data])
+        self.corrs = np.ma.array([np.ma.corrcoef(v, values[0])[0, 1] for v in values])
         self.corrs = np.ma.minimum(np.ma.maximum(self.corrs, -1.), 1.)
 
         if markers is None:
-- 
2.43.0


From e2d6dd0fd2ab338acd283e034c6856fcbe7b1189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:15 +0000
Subject: [PATCH 56/68] fix: the two axes of a plot of gridded data are along
 its two dimensions

---
 cis/plotting/plot.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index be687f7..637bbae 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -86,16 +86,29 @@ def _try_coord(data, coord_dict):
     return coord
 
 
-def get_axis(d, axis, name=None):
+def get_axis(d, axis, name=None, other=None):
     """
     Guess the best Coord to use for the axis
     :param CommonData d:
     :param string axis:
     :param string name:
+    :param string other: The name of the Coord for the other axis, if that has been specified
     :return Coord: A single Coord
     """
-    coord = _try_coord(d, dict(name_or_coord=name)) or _try_coord(d, dict(standard_name=name)) \
-            or _try_coord(d, dict(axis=axis))
+    from iris.cube import Cube
+
+    def _find(axis, name):
+        return _try_coord(d, dict(name_or_coord=name)) or _try_coord(d, dict(standard_name=name)) \
+               or _try_coord(d, dict(axis=axis))
+
+    coord = _find(axis, name)
+
+    if isinstance(d, Cube) and len(d.shape) == 2 and name is None:
+        # The two axes have to be along different dimensions. If neither can be found they are taken in order.
+        other_coord = _find('Y' if axis.upper() == 'X' else 'X', other)
+        other_dims = d.coord_dims(other_coord) if other_coord is not None else (1 if axis.upper() == 'X' else 0,)
+        if coord is None or (other is not None and d.coord_dims(coord) == other_dims):
+            coord = next((c for c in d.coords() if len(d.coord_dims(c)) == 1 and d.coord_dims(c) != other_dims), coord)
 
     # This is primarily for gridded data, but for Ungridded Data should just pick out the first Coord in the list.
     if coord is None:
@@ -348,9 +361,9 @@ def basic_plot(data, how=None, ax=None, xaxis=None, yaxis=None, projection=None,
             how = 'comparativescatter'
         xaxis_coord = xaxis
     else:
-        xaxis_coord = get_axis(data, 'X', xaxis)
+        xaxis_coord = get_axis(data, 'X', xaxis, yaxis)
 
-    yaxis_coord = get_axis(data, 'Y', yaxis)
+    yaxis_coord = get_axis(data, 'Y', yaxis, None if isinstance(xaxis, CommonData) else xaxis)
 
     how = how or data._get_default_plot_type(xaxis_coord.standard_name == 'longitude'
                                              and yaxis_coord.standard_name == 'latitude')
-- 
2.43.0


From 26defcb3892b463f3010f1bf23ca18ab61fbde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:39 +0000
Subject: [PATCH 57/68] fix: map ticks do not extend the map beyond the
 requested limits

---
 cis/plotting/formatted_plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index 611c0ab..99e2796 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -94,8 +94,9 @@ def apply_map_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=
     if ystep is not None:
         yticks = np.arange(y1, y2 + ystep, ystep)
 
-    ax.set_xticks(xticks)
-    ax.set_yticks(yticks)
+    # Any ticks beyond the limits would extend them
+    ax.set_xticks([x for x in xticks if x1 <= x <= x2])
+    ax.set_yticks([y for y in yticks if y1 <= y <= y2])
 
 
 def apply_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=None, ystep=None):
-- 
2.43.0


From 41c24a5b4fcb5cb86d28be117a702a95b8159318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:09 +0000
Subject: [PATCH 58/68] fix: rounding in the bounds of the k-D tree's boxes
 loses points at the same place

---
 cis/collocation/kdtree.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index 1d3d062..3ef898b 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -19,6 +19,8 @@ __all__ = ['minkowski_distance_p', 'minkowski_distance', 'haversine_distance',
 RADIUS_EARTH = 6378.0
 HALF_PI = np.pi / 2.0
 PI = np.pi
+# How far out the bounds on the distance to a rectangle might be (in kilometres) because of rounding
+ROUNDING = 1.0e-3
 TWO_PI = np.pi * 2.0
 
 
@@ -1257,9 +1259,9 @@ class HaversineDistanceKDTree(KDTree):
         results = [[] for i in range(self.n)]
 
         def traverse_checking(node1, rect1, node2, rect2):
-            if rect1.min_distance_rectangle(rect2) > r / (1. + eps):
+            if rect1.min_distance_rectangle(rect2) > r / (1. + eps) + ROUNDING:
                 return
-            elif rect1.max_distance_rectangle(rect2) < r * (1. + eps):
+            elif rect1.max_distance_rectangle(rect2) < r * (1. + eps) - ROUNDING:
                 traverse_no_checking(node1, node2)
             elif isinstance(node1, KDTree.leafnode):
                 if isinstance(node2, KDTree.leafnode):
@@ -1302,9 +1304,9 @@ class HaversineDistanceKDTree(KDTree):
         R = RectangleHaversine(self.maxes, self.mins)
 
         def traverse_checking(node, rect):
-            if rect.min_distance_point(x, p) > r / (1. + eps):
+            if rect.min_distance_point(x, p) > r / (1. + eps) + ROUNDING:
                 return []
-            elif rect.max_distance_point(x, p) < r * (1. + eps):
+            elif rect.max_distance_point(x, p) < r * (1. + eps) - ROUNDING:
                 return traverse_no_checking(node)
             elif isinstance(node, KDTree.leafnode):
                 d = self.data[node.idx]
-- 
2.43.0


From c15a86395cae565b69c7fb0e92fcad30910a6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:22 +0000
Subject: [PATCH 59/68] fix: copies and slices of ungridded data lost the
 attributes added to it

---
 cis/data_io/ungridded_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 76d64f7..f7726b1 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -541,7 +541,9 @@ class UngriddedData(LazyData, CommonData):
         #  data, and will lead to post-processing before slicing.
         # TODO: We could be cleverer and figure out the right slice across the various data managers to only read the
         #  right data from disk.
-        return UngriddedData(data=self.data[keys].copy(), metadata=deepcopy(self.metadata), coords=new_coords)
+        new = UngriddedData(data=self.data[keys].copy(), metadata=deepcopy(self.metadata), coords=new_coords)
+        new.add_attributes(deepcopy(self.attributes))
+        return new
 
     def copy(self, data=None):
         """
@@ -556,7 +558,9 @@ class UngriddedData(LazyData, CommonData):
         from copy import deepcopy
         data = data if data is not None else numpy.ma.copy(self.data)  # This will load the data if lazy load
         coords = self.coords().copy()
-        return UngriddedData(data=data, metadata=deepcopy(self.metadata), coords=coords)
+        new = UngriddedData(data=data, metadata=deepcopy(self.metadata), coords=coords)
+        new.add_attributes(deepcopy(self.attributes))
+        return new
 
     @property
     def size(self):
-- 
2.43.0


From 86120c2879717bcdec72885921d70d252096931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:51 +0000
Subject: [PATCH 60/68] fix: errors without a text inside a product are
 reported as that product's

---
 cis/data_io/products/AProduct.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cis/data_io/products/AProduct.py b/cis/data_io/products/AProduct.py
index 38486df..b4e05b3 100644
--- a/cis/data_io/products/AProduct.py
+++ b/cis/data_io/products/AProduct.py
@@ -203,7 +203,7 @@ def get_data(filenames, variable, product=None):
         logging.debug("Error in product plugin %s:\n%s" % (product_cls.__name__, traceback.format_exc()))
         raise ProductPluginException("An error occurred retrieving data using the product %s. Check that this "
                                      "is the correct product plugin for your chosen data. Exception was %s: %s."
-                                     % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+                                     % (product_cls.__name__, type(e).__name__, e), e)
 
 
 def get_coordinates(filenames, product=None):
@@ -225,7 +225,7 @@ def get_coordinates(filenames, product=None):
         logging.debug("Error in product plugin %s:\n%s" % (product_cls.__name__, traceback.format_exc()))
         raise ProductPluginException("An error occurred retrieving coordinates using the product %s. Check that this "
                                      "is the correct product plugin for your chosen data. Exception was %s: %s."
-                                     % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+                                     % (product_cls.__name__, type(e).__name__, e), e)
 
 
 def get_variables(filenames, product=None, data_type=None):
@@ -247,7 +247,7 @@ def get_variables(filenames, product=None, data_type=None):
         logging.debug("Error in product plugin %s:\n%s" % (product_cls.__name__, traceback.format_exc()))
         raise ProductPluginException("An error occurred retrieving variables using the product %s. Check that this "
                                      "is the correct product plugin for your chosen data. Exception was %s: %s."
-                                     % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+                                     % (product_cls.__name__, type(e).__name__, e), e)
 
 
 def get_file_format(filenames, product=None):
@@ -269,12 +269,12 @@ def get_file_format(filenames, product=None):
         raise ProductPluginException(
             "An error occurred retrieving the file format using the product %s. Check that this "
             "is the correct product plugin for your chosen data. Exception was %s: %s."
-            % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+            % (product_cls.__name__, type(e).__name__, e), e)
 
     try:
         product_cls().create_coords(filenames)
     except Exception as ex:
-        raise FileFormatError(error_list=['Could not read coordinates from the file', ex.args[0]])
+        raise FileFormatError(error_list=['Could not read coordinates from the file', str(ex)])
     return file_format
 
 
-- 
2.43.0


From e887a8f36bf3b2ff4a3551e16b889cf96e61f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:51 +0000
Subject: [PATCH 61/68] fix: coordinates which do not meet the criteria are not
 found, and those without a standard name can be in one list

---
 cis/data_io/Coord.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index e853de9..8abca50 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -55,7 +55,8 @@ class Coord(LazyData):
         return self.data
 
     def __eq__(self, other):
-        return other.metadata.standard_name == self.metadata.standard_name and self.metadata.standard_name != ''
+        # Coordinates without a standard name can't be compared by it
+        return other.metadata.standard_name == self.metadata.standard_name and bool(self.metadata.standard_name)
 
     def convert_julian_to_std_time(self):
         from cis.time_util import convert_julian_date_to_std_time, cis_standard_time_unit
@@ -243,8 +244,6 @@ class CoordList(list):
         from cis.exceptions import CoordinateNotFoundError
         coords = self.get_coords(name_or_coord=name_or_coord, standard_name=standard_name, long_name=long_name,
                                  attributes=attributes, axis=axis, var_name=var_name)
-        if len(coords) == 0:  # If we found none by name, try with standard name only
-            coords = self.get_coords(standard_name=name_or_coord)
 
         if len(coords) > 1:
             msg = 'Expected to find exactly 1 coordinate, but found %s. They were: %s.' \
-- 
2.43.0


From 32ff125a1cb9f5465c89715923d7415628b39a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:33 +0000
Subject: [PATCH 62/68] fix: hyper points of grids and of points which lack
 some coordinate can be read

---
 cis/data_io/gridded_data.py    |  4 ++--
 cis/data_io/hyperpoint.py      |  3 ++-
 cis/data_io/hyperpoint_view.py | 18 +++---------------
 cis/data_io/ungridded_data.py  | 18 +++++-------------
 4 files changed, 12 insertions(+), 31 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index e9890dc..7f3e138 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -152,9 +152,9 @@ class GriddedData(iris.cube.Cube, CommonData):
         coords = self.coords(dim_coords=True)
         for name in HyperPoint.standard_names:
             coord_and_dim = None
-            for idx, coord in enumerate(coords):
+            for coord in coords:
                 if coord.standard_name == name:
-                    coord_and_dim = (coord, idx)
+                    coord_and_dim = (coord, self.coord_dims(coord)[0])
                     break
             ret_list.append(coord_and_dim)
 
diff --git a/cis/data_io/hyperpoint.py b/cis/data_io/hyperpoint.py
index ba3d765..6fb6a1b 100644
--- a/cis/data_io/hyperpoint.py
+++ b/cis/data_io/hyperpoint.py
@@ -64,7 +64,8 @@ class HyperPoint(namedtuple('HyperPoint', ['latitude', 'longitude', 'altitude',
             values[HyperPoint.AIR_PRESSURE] = pres
         if t is not None:
             if isinstance(t, datetime.datetime):
-                values[HyperPoint.TIME] = convert_datetime_to_std_time(t)
+                t = convert_datetime_to_std_time(t)
+            values[HyperPoint.TIME] = t
         if val is not None:
             if val == []:
                 values[HyperPoint.VAL] = []
diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index b6c6186..4164c3e 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -240,8 +240,6 @@ class GriddedHyperPointView(HyperPointView):
             coord = self.coords[idx]
             if coord is not None:
                 val[self.dims_to_std_coords_map[idx]] = coord[coord_idx]
-            else:
-                val.append(None)
         if self.data is not None:
             val.append(self.data[indices])
         return HyperPoint(*val)
@@ -256,7 +254,7 @@ class GriddedHyperPointView(HyperPointView):
         """Iterates over all or non-masked points according to the value of non_masked_iteration
         :return: next HyperPoint
         """
-        shape = [c.size for c in self.coords if (c is not None and c.size > 1)]
+        shape = self.data.shape
         for idx in cis.utils.index_iterator(shape):
             if self.non_masked_iteration and self.data is not None and self.data[idx] is np.ma.masked:
                 continue
@@ -341,18 +339,8 @@ class GriddedHyperPointView(HyperPointView):
         if coord is None:
             return
 
-        range_end = range_start + 360.0
-        if coord is not None:
-            new_coord = np.empty_like(coord)
-            for i, lon in enumerate(coord):
-                if lon < range_start:
-                    new_lon = lon + 360.0
-                elif lon >= range_end:
-                    new_lon = lon - 360.0
-                else:
-                    new_lon = lon
-                new_coord[i] = new_lon
-            self.longitudes = new_coord
+        turns = np.floor((coord - range_start) / 360.0)
+        self.longitudes = np.where(turns != 0, coord - 360 * turns, coord)
 
     def _dimension_index_for_hyperpoint_index(self, hp_index):
         """Finds the index of the dimension corresponding to a hyperpoint coordinate index.
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index f7726b1..8e2d1b4 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -599,12 +599,8 @@ class UngriddedData(LazyData, CommonData):
         :return: A hyperpoint representing the data at that point
         """
         from cis.data_io.hyperpoint import HyperPoint
-        return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
-                          self.coord(standard_name='longitude').data.flat[index],
-                          self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='air_pressure').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
-                          self.data.flat[index])
+        coords = [c.data.flat[index] if c is not None else None for c in self.find_standard_coords()]
+        return HyperPoint(*coords, val=self.data.flat[index])
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
         """
@@ -929,12 +925,8 @@ class UngriddedCoordinates(CommonData):
         :return: A hyperpoint representing the data at that point
         """
         from cis.data_io.hyperpoint import HyperPoint
-        return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
-                          self.coord(standard_name='longitude').data.flat[index],
-                          self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='air_pressure').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
-                          None)
+        coords = [c.data.flat[index] if c is not None else None for c in self.coords().find_standard_coords()]
+        return HyperPoint(*coords, val=None)
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
         """
@@ -1198,7 +1190,7 @@ def _coords_as_data_frame(coord_list, copy=True, time_index=True):
             else:
                 time = cis_standard_time_unit.num2date(data)
         else:
-            columns[coord.standard_name] = data
+            columns[coord.name()] = data
 
     return pd.DataFrame(columns, index=time)
 
-- 
2.43.0


From a87ccb067d4c9777041043dd3f528e5b57e89b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:33 +0000
Subject: [PATCH 63/68] fix: the moments kernel gives its outputs the names
 asked for

---
 cis/collocation/col_implementations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index f57a8b5..6c64d4c 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -468,16 +468,16 @@ class moments(AbstractDataOnlyKernel):
         :param var_units: base variable units
         :return: tuple of tuples each containing (variable name, variable long name, variable units)
         """
-        self.mean_name = var_name
-        self.stddev_name = var_name + '_std_dev'
+        mean_name = self.mean_name or var_name
+        stddev_name = self.stddev_name or var_name + '_std_dev'
         stdev_long_name = 'Corrected sample standard deviation of %s' % var_long_name
         stddev_units = var_units
-        self.nopoints_name = var_name + '_num_points'
+        nopoints_name = self.nopoints_name or var_name + '_num_points'
         npoints_long_name = 'Number of points used to calculate the mean of %s' % var_long_name
         npoints_units = ''
-        return ((self.mean_name, var_long_name, var_standard_name, var_units),
-                (self.stddev_name, stdev_long_name, None, stddev_units),
-                (self.nopoints_name, npoints_long_name, None, npoints_units))
+        return ((mean_name, var_long_name, var_standard_name, var_units),
+                (stddev_name, stdev_long_name, None, stddev_units),
+                (nopoints_name, npoints_long_name, None, npoints_units))
 
     def get_value_for_data_only(self, values):
         """
-- 
2.43.0


From 6650868a5b8a62fa93d98617f96221a270700956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:33 +0000
Subject: [PATCH 64/68] fix: all EarthCARE files are read and not only the
 first one

---
 cis/data_io/products/EarthCARE.py | 55 +++++++++++++++++--------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/cis/data_io/products/EarthCARE.py b/cis/data_io/products/EarthCARE.py
index 4911fdc..fc7556f 100755
--- a/cis/data_io/products/EarthCARE.py
+++ b/cis/data_io/products/EarthCARE.py
@@ -49,6 +49,16 @@ def get_metadata_EC(var,optional_standard_name=None):
     return metadata
 
 
+def get_data_EC(variables, select=lambda var: var[:]):
+    """
+    Retrieves the data of a variable from all of the files, one after the other
+
+    :param variables: List of the Variable of each file
+    :param select: Function giving the array of a Variable, all of it by default
+    :return: The array for all files, joined along the first dimension
+    """
+    return utils.concatenate([select(var) for var in variables])
+
 
 ################################################################
 class EarthCARE_MSI_ATL(AProduct):
@@ -167,8 +177,14 @@ class EarthCARE_MSI_ATL(AProduct):
                     requiredShape=tuple(requiredShapeList)
                     logging.info(str(requiredShape))
 
+            # the first of the other dimensions is the one along which the files follow each other
+            alongPos = [pos for pos in range(len(dimnames))
+                        if not any(aKnownDim[0] == dimnames[pos] and aKnownDim[2] == pos
+                                   for aKnownDim in self.m_listOfKnownDims)][:1]
+            for pos in alongPos:
+                requiredShape = (sum(var.shape[pos] for var in reqdVarData[variable]),) + tuple(requiredShape[1:])
 
-        longitude_data = data[longitude_var_name][0][:]
+        longitude_data = get_data_EC(data[longitude_var_name])
         if( (variable is not None) and (len(longitude_data.shape) > len(requiredShape) ) ):
             logging.info("longitude data has more dims than that of required data, not adding to coords")
         else:
@@ -183,7 +199,7 @@ class EarthCARE_MSI_ATL(AProduct):
             coords.append(Coord(longitude_data_expanded, 
                                 longitude_data_expanded_metadata,"X"))
 
-        latitude_data = data[latitude_var_name][0][:]
+        latitude_data = get_data_EC(data[latitude_var_name])
         if( (variable is not None) and (len(latitude_data.shape) > len(requiredShape) ) ):
             logging.info("latitude data has more dims than that of required data, not adding to coords")
         else:
@@ -198,7 +214,7 @@ class EarthCARE_MSI_ATL(AProduct):
             coords.append(Coord(latitude_data_expanded,
                                 latitude_data_expanded_metadata,"Y"))
 
-        time_data_masked = data[time_var_name][0][:]
+        time_data_masked = get_data_EC(data[time_var_name])
         time_data_expanded=None
         b_is_time_data_of_reqd_dim = False
         if( (variable is not None) and (len(time_data_masked.shape) < len(requiredShape) ) ):
@@ -242,6 +258,8 @@ class EarthCARE_MSI_ATL(AProduct):
         if ( True == b_altitude_found ) :
             #sampleAltitude_metadata = get_metadata_EC(sampleAltitudeData[height_var_name][0])
             sampleAltitude_metadata = get_metadata_EC(sampleAltitudeData[height_var_name][0],"height")
+            sampleAltitude_data = get_data_EC(sampleAltitudeData[height_var_name])
+            sampleAltitude_metadata.shape = sampleAltitude_data.shape
             if( (variable is not None) and (sampleAltitude_metadata.shape==requiredShape) ):
                 height_metadata = Metadata("altitude",long_name=sampleAltitude_metadata.long_name,
                         units=sampleAltitude_metadata.units,
@@ -249,7 +267,7 @@ class EarthCARE_MSI_ATL(AProduct):
                         shape=sampleAltitude_metadata.shape,
                         history=''
                         )
-                coords.append(Coord(sampleAltitudeData[height_var_name][0][:], height_metadata ,"Z"))
+                coords.append(Coord(sampleAltitude_data, height_metadata ,"Z"))
                 variables.append(height_var_name)
                 logging.info("Added height coord from variable {}".format(height_var_name))
             elif (variable is not None):
@@ -337,11 +355,9 @@ class EarthCARE_MSI_ATL(AProduct):
         for AKNOWNDIM in self.m_listOfKnownDims:
             # AKNOWNDIM[1] is string dimname in user variable
             if AKNOWNDIM[1] in variable:
-                thisDimNum=int(variable[-1:])#assume last number is the known dim
-                #remove dimnum and string dim from the end
-                nLastFew=len(AKNOWNDIM[1])+1
-                variablePassed = variable
-                variable=variable[:-nLastFew]
+                #the number of the known dim follows the string dim at the end
+                variable, thisDimNum = variable.rsplit(AKNOWNDIM[1], 1)
+                thisDimNum = int(thisDimNum)
                 thisDimIndexPos=AKNOWNDIM[2]
                 break
 
@@ -376,21 +392,9 @@ class EarthCARE_MSI_ATL(AProduct):
                         thisDimNum=0
                     #slice according to dimensions of the data
                     #this_data_masked = var[variable][0][:]
-                    if ( 3 == len(dimnames) ):
-                        if 0 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][thisDimNum,...]
-                        elif 1 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][:,thisDimNum,:]
-                        elif 2 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][...,thisDimNum]
-                    elif ( 2 == len(dimnames) ):
-                        if 0 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][thisDimNum,...]
-                        elif 1 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][:,thisDimNum]
-                    else:
-                        #should never be here
-                        pass
+                    if AKNOWNDIM[2] < len(dimnames):
+                        index = (slice(None),) * AKNOWNDIM[2] + (thisDimNum, Ellipsis)
+                        this_data_masked = get_data_EC(var[variable], lambda v: v[index])
                     this_data_masked_name= metadata.long_name + AKNOWNDIM[1] +str(thisDimNum)
                     this_data_metadata = Metadata(this_data_masked_name,long_name=this_data_masked_name,
                         units=metadata.units,
@@ -405,6 +409,7 @@ class EarthCARE_MSI_ATL(AProduct):
                     logging.info("unrecongnised dimension in EarthCARE 3d data.")
                     raise NotImplementedError("unrecongnised dimension in EarthCARE 3d data.")
                 else:
-                    this_data_masked = var[variable][0][:]
+                    this_data_masked = get_data_EC(var[variable])
+                    metadata.shape = this_data_masked.shape
                     return UngriddedData(this_data_masked, metadata, coords)
                 
\ No newline at end of file
-- 
2.43.0


From 2eb70ffda56cc80b09f439cb56a4659b048a6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:33 +0000
Subject: [PATCH 65/68] fix: the time bounds of MODIS level 3 files are not
 truncated to whole days

---
 cis/data_io/products/MODIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/MODIS.py b/cis/data_io/products/MODIS.py
index a736039..39aec98 100644
--- a/cis/data_io/products/MODIS.py
+++ b/cis/data_io/products/MODIS.py
@@ -147,7 +147,7 @@ class MODIS_L3(AProduct):
             mid_datetime = calculate_mid_time(start_datetime, end_datetime)
             logging.debug("Using {} as datetime for file {}".format(mid_datetime, f))
             time_coord = AuxCoord(mid_datetime, standard_name='time', units=cis_standard_time_unit,
-                                  bounds=[start_datetime, end_datetime])
+                                  bounds=[float(start_datetime), float(end_datetime)])
 
             var = sdata[variable]
             metadata = get_metadata(var)
-- 
2.43.0


From e588adbd80260a0463e1ba3ca5468a616c1eab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:34 +0000
Subject: [PATCH 66/68] fix: several HadGEM files without history can be read
 together

---
 cis/data_io/products/HadGEM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/HadGEM.py b/cis/data_io/products/HadGEM.py
index 063f6ab..23b85c8 100644
--- a/cis/data_io/products/HadGEM.py
+++ b/cis/data_io/products/HadGEM.py
@@ -15,7 +15,7 @@ class HadGEM_CONVSH(NetCDF_Gridded):
     def load_multiple_files_callback(cube, field, filename):
         from iris.util import squeeze
         # We need to remove the history field when reading multiple files so that the cubes can be properly merged
-        cube.attributes.pop('history')
+        cube.attributes.pop('history', None)
         # cube.coord(name_or_coord='Hybrid height').attributes['formula_terms'] = 'a: lev b: b orog: orog'
         # We also need to remove the length one time dimension so that the cube can be merged correctly (iris preserves
         #  the value as a scalar which then gets converted back into a full coordinate again on merge).
-- 
2.43.0


From 0470ac8a6a7141f1051bd3868d1ec449b6c33aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:09 +0000
Subject: [PATCH 67/68] fix: lists of data stay lists of their kind when
 sliced, joined or extended

---
 cis/data_io/common_data.py  | 8 ++++++--
 cis/data_io/gridded_data.py | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/common_data.py b/cis/data_io/common_data.py
index 6c4901b..c63f4d7 100644
--- a/cis/data_io/common_data.py
+++ b/cis/data_io/common_data.py
@@ -237,6 +237,10 @@ class CommonDataList(list):
     def __add__(self, rhs):
         return self.__class__(list.__add__(self, rhs))
 
+    def __iadd__(self, rhs):
+        self.extend(rhs)
+        return self
+
     def __getitem__(self, item):
         result = list.__getitem__(self, item)
         if isinstance(result, list):
@@ -294,7 +298,7 @@ class CommonDataList(list):
                 raise ValueError("Incompatible data: {} must have the same number of coordinates as the first element "
                                  "in this list.".format(that_class))
             for this_coord, that_coord in zip(self.coords(), p_object.coords()):
-                if any([(a != b) for a, b in zip(this_coord.points.shape, that_coord.points.shape)]):
+                if this_coord.points.shape != that_coord.points.shape:
                     raise ValueError("Given coordinate {} has shape {} which is "
                                      "incompatible with {}.".format(that_coord.name(),
                                                                     that_coord.shape,
@@ -305,7 +309,7 @@ class CommonDataList(list):
 
     def extend(self, iterable):
         # This will raise a TypeError if the objects being added are of the wrong type (i.e. Gridded versus Ungridded).
-        for x in iterable:
+        for x in list(iterable):
             self.append(x)
 
     def append_or_extend(self, item_to_add):
diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 7f3e138..06a074d 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -403,6 +403,10 @@ class GriddedDataList(iris.cube.CubeList, CommonDataList):
     present in the GriddedData wrapper.
     """
 
+    # These would give a CubeList, which isn't a list of CIS data
+    __getitem__ = CommonDataList.__getitem__
+    __add__ = CommonDataList.__add__
+
     def __str__(self):
         return "GriddedDataList: \n%s" % super(GriddedDataList, self).__str__()
 
-- 
2.43.0


From 7c127293e15d8b66f354e90411706aa0fc05d1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:46 +0000
Subject: [PATCH 68/68] fix: the size of the font is that of the text of the
 plot it was given for

---
 cis/plotting/formatted_plot.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index 99e2796..8435eaa 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -19,18 +19,13 @@ def set_log_scales(ax, logx, logy, rescale=True):
         ax.autoscale()
 
 
-def format_plot(ax, grid, fontsize, xlabel, ylabel, title):
+def format_plot(ax, grid, xlabel, ylabel, title):
     """
     General high-level level formatting
     """
-    import matplotlib
-
     if grid:
         ax.grid(True, which="both")
 
-    if fontsize is not None:
-        matplotlib.rcParams.update({'font.size': fontsize})
-
     if xlabel is not None:
         ax.set_xlabel(xlabel)
 
@@ -186,6 +181,18 @@ class Plotter(object):
         :param args: Any other arguments received from the parser
         :param kwargs: Any other keyword arguments received from the parser
         """
+        import matplotlib
+
+        # Any text takes its size when it is created, so this has to be set before plotting (and only for this plot)
+        with matplotlib.rc_context({} if fontsize is None else {'font.size': fontsize}):
+            self._plot(data, type, output, height, width, logx, logy, xmin, xmax, xstep, ymin, ymax, ystep,
+                       nasabluemarble, grid, xlabel, ylabel, title, *args, **kwargs)
+
+    def _plot(self, data, type, output, height, width, logx, logy, xmin, xmax, xstep, ymin, ymax, ystep,
+              nasabluemarble, grid, xlabel, ylabel, title, *args, **kwargs):
+        """
+        Make the plot, see the constructor for the arguments.
+        """
         from cis.plotting.plot import multilayer_plot, basic_plot, drawbluemarble
 
         # Figure out teh best coneral longitude for the projection (it doesn't matter if it's a map yet)
@@ -213,7 +220,7 @@ class Plotter(object):
 
         plot.set_log_scales(self.ax, logx, logy)
 
-        format_plot(self.ax, grid, fontsize, xlabel, ylabel, title)
+        format_plot(self.ax, grid, xlabel, ylabel, title)
 
         if plot.is_map():
             if plot.is_rectangular_projection(self.ax):
-- 
2.43.0

