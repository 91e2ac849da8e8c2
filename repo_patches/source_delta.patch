From f4e00855ccac0c83bea2412efab6599d8c6181c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 01/86] fix: return None when the limits exclude all points of
 a list of ungridded variables

Subsetting several ungridded variables at once raised a TypeError (appending
None to the list) rather than reporting that there was no data.
---
 cis/subsetting/subset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 170c40b..4511fbf 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -198,7 +198,11 @@ class UngriddedSubsetConstraint(SubsetConstraint):
             # so we can just call this method recursively if we've got a list of data.
             output = UngriddedDataList()
             for var in data:
-                output.append(self.constrain(var))
+                subset_var = self.constrain(var)
+                if subset_var is None:
+                    # The limits select the same points from each variable, so they exclude all of the data
+                    return None
+                output.append(subset_var)
             return output
 
         _data = self._create_data_for_subset(data)
-- 
2.43.0


From 40924a76b1a081e5cb00e9e08052e67b256a2541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 02/86] fix: apply a shape subset to every variable of a list
 of ungridded data

The shape was removed from the limits while constraining the first variable, so
the remaining variables were only subset to the bounding box of the shape.
---
 cis/subsetting/subset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 4511fbf..7b7e69a 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -205,9 +205,10 @@ class UngriddedSubsetConstraint(SubsetConstraint):
                 output.append(subset_var)
             return output
 
-        _data = self._create_data_for_subset(data)
+        # Keep hold of the shape - constrain is called once for each variable in a list of data
+        self._shape = self._limits.pop('shape', self._shape)
 
-        _shape = self._limits.pop('shape', None)
+        _data = self._create_data_for_subset(data)
 
         if self._combined_mask is None:
             # Create the combined mask across all limits
@@ -226,9 +227,9 @@ class UngriddedSubsetConstraint(SubsetConstraint):
 
         _data = _data[self._combined_mask]
 
-        if _shape is not None:
+        if self._shape is not None:
             if self._shape_indices is None:
-                self._shape_indices = _get_ungridded_subset_region_indices(_data, _shape)
+                self._shape_indices = _get_ungridded_subset_region_indices(_data, self._shape)
             _data = _data[np.unravel_index(self._shape_indices, _data.shape)]
 
         if _data.size == 0:
-- 
2.43.0


From 95864028d99a8883d7588063e3871b68f18e5ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 03/86] fix: treat longitude limits as circular when subsetting
 ungridded data

Longitudes were only ever moved as a whole between -180..180 and 0..360, and only
when the limits were entirely on one side, so points inside limits such as
[-10, 200], or at the 180 or 360 degree meridian itself, were dropped.
---
 cis/subsetting/subset.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 7b7e69a..872696e 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -255,26 +255,14 @@ class UngriddedSubsetConstraint(SubsetConstraint):
                 # E.g. shape...
                 continue
             if coord.standard_name == 'longitude':
-                coord_min = coord.points.min()
-                coord_max = coord.points.max()
-                data_below_zero = coord_min < 0
-                data_above_180 = coord_max > 180
-                limits_below_zero = limit.start < 0 or limit.stop < 0
-                limits_above_180 = limit.start > 180 or limit.stop > 180
-
-                if data_below_zero and not data_above_180:
-                    # i.e. data is in the range -180 -> 180
-                    # Only convert the data if the limits are above 180:
-                    if limits_above_180 and not limits_below_zero:
-                        # Convert data from -180 -> 180 to 0 -> 360
-                        range_start = 0
-                        coord.set_longitude_range(range_start)
-                elif data_above_180 and not data_below_zero:
-                    # i.e. data is in the range 0 -> 360
-                    if limits_below_zero and not limits_above_180:
-                        # Convert data from 0 -> 360 to -180 -> 180
-                        range_start = -180
-                        coord.set_longitude_range(range_start)
+                # Longitude is circular, so move any points outside of the limits by 360 degrees if that brings them
+                #  inside the requested range.
+                lons = coord.data
+                for shift in (-360, 360):
+                    outside = (lons < limit.start) | (lons > limit.stop)
+                    shifted_inside = (lons + shift >= limit.start) & (lons + shift <= limit.stop)
+                    lons = np.where(outside & shifted_inside, lons + shift, lons)
+                coord.data = lons
         return data
 
 
-- 
2.43.0


From 2a8c608b5eb5669b30761f187c99973e27be314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 04/86] fix: allow open-ended date limits when subsetting

---
 cis/subsetting/subset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 872696e..b0a1d1f 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -21,6 +21,7 @@ def subset(data, constraint, **kwargs):
     :param kwargs: The limits as slices or length 2 tuples of max and min.
     :return:
     """
+    from datetime import datetime
     from cis.time_util import PartialDateTime
     from cis.exceptions import CoordinateNotFoundError
     from shapely.wkt import loads
@@ -64,6 +65,12 @@ def subset(data, constraint, **kwargs):
         limit_start = l.start if l.start is not None else c.points.min()
         limit_end = l.stop if l.stop is not None else c.points.max()
 
+        # The default has to be a date as well if the limit which was given is one
+        if l.start is None and isinstance(l.stop, datetime):
+            limit_start = c.units.num2date(limit_start)
+        elif l.stop is None and isinstance(l.start, datetime):
+            limit_end = c.units.num2date(limit_end)
+
         constraints[data._get_coord(dim_name).name()] = slice(limit_start, limit_end)
 
     subset_constraint = constraint(constraints)
@@ -215,8 +222,8 @@ class UngriddedSubsetConstraint(SubsetConstraint):
             shape = _data.coords()[0].data.shape  # This assumes they are all the same shape
             combined_mask = np.ones(shape, dtype=bool)
             for coord, limit in self._limits.items():
-                # Convert the points to datetimes if the limit is a datetime
-                if isinstance(limit.start, datetime):
+                # Convert the points to datetimes if either limit is a datetime
+                if isinstance(limit.start, datetime) or isinstance(limit.stop, datetime):
                     points = _data.coord(coord).units.num2date(_data.coord(coord).data)
                 else:
                     points = _data.coord(coord).data
-- 
2.43.0


From e7cb0e4871d87042a04caacf8dfe35a7f62f50a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 05/86] fix: mask the points outside of a shape for gridded
 data with missing values, lists and any dimension order

---
 cis/subsetting/subset.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index b0a1d1f..195ac63 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -141,12 +141,11 @@ class GriddedSubsetConstraint(SubsetConstraint):
         if _shape is not None:
             if data.ndim > 2:
                 raise NotImplementedError("Unable to perform shape subset for multidimensional gridded datasets")
-            mask = np.ones(data.shape, dtype=bool)
-            mask[np.unravel_index(_get_gridded_subset_region_indices(data, _shape), data.shape)] = False
-            if isinstance(data.data, np.ma.MaskedArray):
-                data.data.mask &= mask
-            else:
-                data.data = np.ma.masked_array(data.data, mask)
+            for cube in (data if isinstance(data, list) else [data]):
+                mask = np.ones(cube.shape, dtype=bool)
+                mask[np.unravel_index(_get_gridded_subset_region_indices(cube, _shape), cube.shape)] = False
+                # Points outside of the shape are masked in addition to any which were already missing
+                cube.data = np.ma.masked_array(cube.data, mask)
         return gridded_data.make_from_cube(data)
 
     def _make_extract_and_intersection_constraints(self, data):
@@ -291,5 +290,9 @@ def _get_ungridded_subset_region_indices(ungridded_data, region):
 
 def _get_gridded_subset_region_indices(gridded_data, region):
     # Using X and Y is a bit more general than lat and lon - the shapefiles needn't actually represent lat/lon
-    x, y = np.meshgrid(gridded_data.coord(axis='X').points, gridded_data.coord(axis='Y').points)
+    x_coord, y_coord = gridded_data.coord(axis='X'), gridded_data.coord(axis='Y')
+    x, y = np.meshgrid(x_coord.points, y_coord.points)
+    # The points must be in the same order as the data
+    if gridded_data.coord_dims(x_coord) < gridded_data.coord_dims(y_coord):
+        x, y = x.T, y.T
     return _get_indices_for_lat_lon_points(x.flat, y.flat, region)
-- 
2.43.0


From 9b9ac4bf38fa8f8bede28d51a64901ed2b25e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 06/86] fix: keep explicit longitude and latitude limits when
 subsetting by shape as well

---
 cis/subsetting/subset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 195ac63..cd2cec1 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -39,10 +39,6 @@ def subset(data, constraint, **kwargs):
             else:
                 shape = limit
             constraints['shape'] = shape
-            bounding_box = shape.bounds
-            # Create the lat/lon box - this will be used to speed up the shape subset
-            constraints[data.coord(standard_name='longitude').name()] = slice(bounding_box[0], bounding_box[2])
-            constraints[data.coord(standard_name='latitude').name()] = slice(bounding_box[1], bounding_box[3])
             continue
 
         c = data._get_coord(dim_name)
@@ -73,6 +69,12 @@ def subset(data, constraint, **kwargs):
 
         constraints[data._get_coord(dim_name).name()] = slice(limit_start, limit_end)
 
+    if 'shape' in constraints:
+        bounding_box = constraints['shape'].bounds
+        # Create the lat/lon box - this will be used to speed up the shape subset. Any explicit limits take precedence
+        constraints.setdefault(data.coord(standard_name='longitude').name(), slice(bounding_box[0], bounding_box[2]))
+        constraints.setdefault(data.coord(standard_name='latitude').name(), slice(bounding_box[1], bounding_box[3]))
+
     subset_constraint = constraint(constraints)
 
     subset = subset_constraint.constrain(data)
-- 
2.43.0


From 54bcdc87cdd2d085e92f1d89fa80e84bb9e12196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 07/86] fix: allow shapes which contain none of the points in
 their bounding box

---
 cis/subsetting/subset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index cd2cec1..e60564d 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -282,7 +282,7 @@ def _get_indices_for_lat_lon_points(lats, lons, region):
 
     # Performance in this loop might be an issue, but I think it's essentially how GeoPandas does it. If I want to
     #  improve it I might need to look at using something like rtree.
-    return [i for i, p in enumerate(points.geoms) if region.contains(p)]
+    return np.array([i for i, p in enumerate(points.geoms) if region.contains(p)], dtype=int)
 
 
 def _get_ungridded_subset_region_indices(ungridded_data, region):
-- 
2.43.0


From 85170b5f956b410276166fcd539dcdb6a2a12657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 08/86] fix: aggregate and bin longitudes circularly whatever
 longitude the grid starts at

---
 cis/collocation/col_implementations.py | 5 +++++
 cis/data_io/hyperpoint_view.py         | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 3267b57..5157872 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -1107,6 +1107,11 @@ def _find_longitude_range(coords):
             min_val = coord.points.min()
             if min_val < 0.0:
                 low = -180.0
+            # Grid cells need not start at 0 or -180, for those which don't the range starts at the lowest cell edge
+            bounds = getattr(coord, 'bounds', None)
+            if bounds is not None and np.all(np.isfinite(bounds)) and not \
+                    (low <= bounds.min() and bounds.max() <= low + 360.0):
+                low = bounds.min()
     return low
 
 
diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index 8238e06..c7e73a8 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -161,7 +161,8 @@ class UngriddedHyperPointView(HyperPointView):
         range_end = range_start + 360.0
 
         longitudes = self.coords[HyperPoint.LONGITUDE]
-        longitudes = np.where(longitudes < range_start, longitudes + 360, longitudes)
+        # Shift by whole turns, leaving longitudes which already fall in the range exactly as they are
+        longitudes = longitudes - 360.0 * np.floor((longitudes - range_start) / 360.0)
         self.coords[HyperPoint.LONGITUDE] = np.where(longitudes >= range_end, longitudes - 360, longitudes)
 
     @property
-- 
2.43.0


From c5edaf0f680c66a9742fd7ba9ab25920587a70a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 09/86] fix: completely collapse ungridded coordinates which
 are named without a grid

---
 cis/data_io/ungridded_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 052d0ee..a16a700 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1273,6 +1273,9 @@ def _aggregate_ungridded(data, how, **kwargs):
     grid_spec = {}
     for dim_name, grid in kwargs.items():
         c = data._get_coord(dim_name)
+        if grid is None:
+            # No grid was given for this coordinate so it will be completely collapsed
+            continue
         if all(hasattr(grid, att) for att in ('start', 'stop', 'step')):
             g = grid
         elif len(grid) == 2 and isinstance(grid[0], PartialDateTime):
-- 
2.43.0


From 1d3f7001ba2c9dbfb70b09c88430c7ce63434883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 10/86] fix: report the aggregation of an unknown ungridded
 coordinate as such

---
 cis/data_io/ungridded_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index a16a700..ab81615 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1265,6 +1265,7 @@ def _aggregate_ungridded(data, how, **kwargs):
     """
     from cis.aggregation.ungridded_aggregator import UngriddedAggregator
     from cis.collocation.col import get_kernel
+    from cis.exceptions import CoordinateNotFoundError
     from cis.time_util import PartialDateTime
     from datetime import datetime, timedelta
     from cis import __version__
@@ -1273,6 +1274,9 @@ def _aggregate_ungridded(data, how, **kwargs):
     grid_spec = {}
     for dim_name, grid in kwargs.items():
         c = data._get_coord(dim_name)
+        if c is None:
+            raise CoordinateNotFoundError("No coordinate found that matches '{}'. Please check the coordinate "
+                                          "name.".format(dim_name))
         if grid is None:
             # No grid was given for this coordinate so it will be completely collapsed
             continue
-- 
2.43.0


From 690b87372aa7aa50d1b18df01d8c3c4efab43191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 11/86] fix: search the kd-tree with valid bounds on the
 distance to its cells

---
 cis/collocation/kdtree.py | 124 ++++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 65 deletions(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index 5336c24..ad49e34 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -397,27 +397,51 @@ class RectangleHaversine(RectangleBase):
 
     def min_distance_rectangle(self, other):
         """
-        Compute the minimum distance between points in the two hyperrectangles.
-
-        :param other: hyperrectangle
-            Input.
-        :param p: float
-            Input.
+        Find a lower bound for the distance between any two points in the two rectangles.
 
+        :param other: RectangleHaversine
+            The other rectangle
+        :return: distance in kilometres
         """
-        return haversine_distance([0.0, 0.0], np.maximum(0, np.maximum(self.mins - other.maxes, other.mins - self.maxes)))
+        lat_diff = np.maximum(0.0, np.maximum(self.mins[0] - other.maxes[0], other.mins[0] - self.maxes[0]))
+        # The range of the possible longitude differences, which are circular
+        lon_diff_min = (self.mins[1] - other.maxes[1]) % 360.0
+        lon_diff_max = lon_diff_min + (self.maxes[1] - self.mins[1]) + (other.maxes[1] - other.mins[1])
+        lon_diff = np.maximum(0.0, np.minimum(lon_diff_min, 360.0 - lon_diff_max))
+        cos_lats = [np.minimum(np.cos(np.radians(r.mins[0])), np.cos(np.radians(r.maxes[0]))) for r in (self, other)]
+        return self._distance_from_differences(lat_diff, lon_diff, *cos_lats)
 
     def max_distance_rectangle(self, other):
         """
-        Compute the maximum distance between points in the two hyperrectangles.
+        Find an upper bound for the distance between any two points in the two rectangles.
 
-        :param other: hyperrectangle
-            Input.
-        :param p: float, optional
-            Input.
+        :param other: RectangleHaversine
+            The other rectangle
+        :return: distance in kilometres
+        """
+        lat_diff = np.maximum(self.maxes[0] - other.mins[0], other.maxes[0] - self.mins[0])
+        # The range of the possible longitude differences from half way round, which are circular
+        lon_diff_min = (self.mins[1] - other.maxes[1] + 180.0) % 360.0
+        lon_diff_max = lon_diff_min + (self.maxes[1] - self.mins[1]) + (other.maxes[1] - other.mins[1])
+        lon_diff = 180.0 - np.maximum(0.0, np.minimum(lon_diff_min, 360.0 - lon_diff_max))
+        cos_lats = [1.0 if r.mins[0] <= 0.0 <= r.maxes[0] else
+                    np.maximum(np.cos(np.radians(r.mins[0])), np.cos(np.radians(r.maxes[0]))) for r in (self, other)]
+        return self._distance_from_differences(lat_diff, lon_diff, *cos_lats)
+
+    @staticmethod
+    def _distance_from_differences(lat_diff, lon_diff, cos_lat1, cos_lat2):
+        """
+        Evaluate the Haversine formula, which increases with each of its arguments
 
+        :param lat_diff: absolute difference in latitude in degrees
+        :param lon_diff: absolute (circular) difference in longitude in degrees
+        :param cos_lat1: cosine of the first latitude
+        :param cos_lat2: cosine of the second latitude
+        :return: distance in kilometres
         """
-        return haversine_distance([0.0, 0.0], np.maximum(self.maxes - other.mins, other.maxes - self.mins))
+        hav = np.sin(np.radians(lat_diff) / 2.0) ** 2 + \
+            cos_lat1 * cos_lat2 * np.sin(np.radians(lon_diff) / 2.0) ** 2
+        return 2.0 * RADIUS_EARTH * np.arcsin(np.sqrt(np.minimum(1.0, np.maximum(0.0, hav))))
 
 
 class KDTree(object):
@@ -1176,40 +1200,26 @@ class HaversineDistanceKDTree(KDTree):
 
     def _query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf):
 
-        metric = np.array([1.0] * x.size)
-        metric[1] = math.cos(x[1] * math.pi / 180.0)
-        side_distances = np.maximum(0, np.maximum(x - self.maxes, self.mins - x)) * metric
-        if p != np.inf:
-            side_distances **= p
-            min_distance = np.sum(side_distances)
-        else:
-            min_distance = np.amax(side_distances)
+        point = RectangleHaversine(x, x)
+        rect = RectangleHaversine(self.maxes, self.mins)
 
         # priority queue for chasing nodes
         # entries are:
         #  minimum distance between the cell and the target
-        #  distances between the nearest side of the cell and the target
+        #  order in which the cells were added (to settle ties)
         #  the head node of the cell
-        q = [(min_distance,
-              tuple(side_distances),
-              self.tree)]
+        #  the extent of the cell
+        q = [(point.min_distance_rectangle(rect), 0, self.tree, rect)]
+        count = 1
         # priority queue for the nearest neighbors
         # furthest known neighbor first
-        # entries are (-distance**p, i)
+        # entries are (-distance, i)
         neighbors = []
 
-        if eps == 0:
-            epsfac = 1
-        elif p == np.inf:
-            epsfac = 1 / (1 + eps)
-        else:
-            epsfac = 1 / (1 + eps) ** p
-
-        if p != np.inf and distance_upper_bound != np.inf:
-            distance_upper_bound = distance_upper_bound ** p
+        epsfac = 1. / (1. + eps)
 
         while q:
-            min_distance, side_distances, node = heappop(q)
+            min_distance, _, node, rect = heappop(q)
             if isinstance(node, HaversineDistanceKDTree.leafnode):
                 # brute-force
                 data = self.data[node.idx]
@@ -1228,35 +1238,19 @@ class HaversineDistanceKDTree(KDTree):
                 if min_distance > distance_upper_bound * epsfac:
                     # since this is the nearest cell, we're done, bail out
                     break
-                # compute minimum distances to the children and push them on
-                if x[node.split_dim] < node.split:
-                    near, far = node.less, node.greater
-                else:
-                    near, far = node.greater, node.less
-
-                # near child is at the same distance as the current node
-                heappush(q, (min_distance, side_distances, near))
-
-                # far child is further by an amount depending only
-                # on the split value
-                sd = list(side_distances)
-                if p == np.inf:
-                    min_distance = max(min_distance, abs(node.split - x[node.split_dim]))
-                elif p == 1:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim])
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-                else:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim]) ** p
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-
-                # far child might be too far, if so, don't bother pushing it
-                if min_distance <= distance_upper_bound * epsfac:
-                    heappush(q, (min_distance, tuple(sd), far))
-
-        if p == np.inf:
-            return sorted([(-d, i) for (d, i) in neighbors])
-        else:
-            return sorted([((-d) ** (1. / p), i) for (d, i) in neighbors])
+                # compute minimum distances to the children and push them on, starting with the nearer
+                less, greater = rect.split(node.split_dim, node.split)
+                children = [(node.less, less), (node.greater, greater)]
+                if x[node.split_dim] >= node.split:
+                    children.reverse()
+                for child, child_rect in children:
+                    min_distance = point.min_distance_rectangle(child_rect)
+                    # a child might be too far, if so, don't bother pushing it
+                    if min_distance <= distance_upper_bound * epsfac:
+                        heappush(q, (min_distance, count, child, child_rect))
+                        count += 1
+
+        return sorted([(-d, i) for (d, i) in neighbors])
 
     def query_ball_tree(self, other, r, p=2., eps=0):
         """Find all pairs of points whose distance is at most r
-- 
2.43.0


From 4a772326a48c6a9e7a30a8bf75a407541de975f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 12/86] fix: collocate ungridded data which are all missing

---
 cis/collocation/col_implementations.py | 6 ++++--
 cis/collocation/kdtree.py              | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 5157872..8e1b8a4 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -83,8 +83,10 @@ class GeneralUngriddedCollocator(Collocator):
 
         if isinstance(kernel, nn_horizontal_only):
             # Only find the nearest point using the kd-tree, without constraint in other dimensions
-            nearest_points = data_points.iloc[constraint.haversine_distance_kd_tree_index.find_nearest_point(sample_points)]
-            values[0, :] = nearest_points.vals.values
+            # (if there are any data points at all)
+            if len(data_points) > 0:
+                nearest = constraint.haversine_distance_kd_tree_index.find_nearest_point(sample_points)
+                values[0, :] = data_points.iloc[nearest].vals.values
         else:
             for i, point, con_points in constraint.get_iterator(self.missing_data_for_missing_sample, None, None,
                                                                 data_points, None, sample_points, None):
diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index ad49e34..bb807ef 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -1189,8 +1189,13 @@ class HaversineDistanceKDTree(KDTree):
         self.leafsize = int(leafsize)
         if self.leafsize < 1:
             raise ValueError("leafsize must be at least 1")
-        self.maxes = np.amax(self.data, axis=0)
-        self.mins = np.amin(self.data, axis=0)
+        if self.n > 0:
+            self.maxes = np.amax(self.data, axis=0)
+            self.mins = np.amin(self.data, axis=0)
+        else:
+            # There are no points so the tree is a single empty leaf, with an arbitrary extent
+            self.maxes = np.zeros(self.m)
+            self.mins = np.zeros(self.m)
 
         indices = np.arange(self.n)
         if mask is not None:
-- 
2.43.0


From a8c44a8c7fe95e8bbf0315f1a1a7f605a5e60f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 13/86] fix: use the requested variable name and units when
 collocating ungridded data

---
 cis/collocation/col_implementations.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 8e1b8a4..0dc6d40 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -65,12 +65,10 @@ class GeneralUngriddedCollocator(Collocator):
         logging.info("--> Collocating...")
 
         # Create output arrays.
-        self.var_name = data.var_name
-        self.var_long_name = data.long_name
-        self.var_standard_name = data.standard_name
-        self.var_units = data.units
-        var_set_details = kernel.get_variable_details(self.var_name, self.var_long_name,
-                                                      self.var_standard_name, self.var_units)
+        var_set_details = kernel.get_variable_details(self.var_name or data.var_name,
+                                                      self.var_long_name or data.long_name,
+                                                      data.standard_name,
+                                                      self.var_units or data.units)
 
         sample_points_count = len(sample_points)
         # Create an empty masked array to store the collocated values. The elements will be unmasked by assignment.
-- 
2.43.0


From afdc6a3412939892c9d9204cf0a25ad158687fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 14/86] fix: leave out missing sample points with the
 nn_horizontal_only kernel as well

---
 cis/collocation/col_implementations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 0dc6d40..349e963 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -85,6 +85,8 @@ class GeneralUngriddedCollocator(Collocator):
             if len(data_points) > 0:
                 nearest = constraint.haversine_distance_kd_tree_index.find_nearest_point(sample_points)
                 values[0, :] = data_points.iloc[nearest].vals.values
+            if self.missing_data_for_missing_sample and 'vals' in sample_points:
+                values[:, sample_points.vals.isnull().values] = np.ma.masked
         else:
             for i, point, con_points in constraint.get_iterator(self.missing_data_for_missing_sample, None, None,
                                                                 data_points, None, sample_points, None):
-- 
2.43.0


From f3a1f5d3c9253add40e80a4a40fdf6989a2b2693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 15/86] fix: move gridded longitudes into the requested range
 whatever range they are in

---
 cis/data_io/gridded_data.py | 77 ++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 43 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index dd60cdf..72b719a 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -200,58 +200,49 @@ class GriddedData(iris.cube.Cube, CommonData):
         if len(lon_coord) == 0:
             return
         lon_coord = lon_coord[0]
-        lon_idx = self.dim_coords.index(lon_coord)
-        # Check if there are bounds which we will need to wrap as well
-        roll_bounds = (lon_coord.bounds is not None) and (lon_coord.bounds.size != 0)
-        idx1 = np.searchsorted(lon_coord.points, range_start)
-        idx2 = np.searchsorted(lon_coord.points, range_start + 360.)
-        shift = 0
-        new_lon_points = None
+        # The number of whole turns to take off of each of the points (and its bounds)
+        turns = 360.0 * np.floor((lon_coord.points - range_start) / 360.0)
+        if not turns.any():
+            return
+        new_lon_points = lon_coord.points - turns
         new_lon_bounds = None
-        if 0 < idx1 < len(lon_coord.points):
-            shift = -idx1
-            lon_min = lon_coord.points[idx1]
-            new_lon_points = np.roll(lon_coord.points, shift, 0)
-            # Calculate which indices need 360 adding to them...
-            indices_to_shift_value_of = new_lon_points < lon_min
-            # ... then, add 360 to all those longitude values
-            new_lon_points[indices_to_shift_value_of] += 360.0
-            if roll_bounds:
-                # If the coordinate has bounds then roll those as well
-                new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
-                # And shift all of the bounds (upper and lower) for those points which we had to shift. We can't do the
-                # check independently because there may be cases where an upper or lower bound falls outside of the
-                # 360 range, we leave those as they are to preserve monotonicity. See e.g.
-                # test_set_longitude_bounds_wrap_at_360
-                new_lon_bounds[indices_to_shift_value_of] += 360.0
-        elif 0 < idx2 < len(lon_coord.points):
-            shift = len(lon_coord.points) - idx2
-            lon_max = lon_coord.points[idx2]
-            new_lon_points = np.roll(lon_coord.points, shift, 0)
-            indices_to_shift_value_of = new_lon_points >= lon_max
-            new_lon_points[indices_to_shift_value_of] -= 360.0
-            if roll_bounds:
-                new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
-                # See comment above re preserving monotinicity.
-                new_lon_bounds[indices_to_shift_value_of] -= 360.0
-        if shift != 0:
+        if lon_coord.bounds is not None:
+            # Shift both the upper and lower bounds of those points which we had to shift. We can't do the check
+            # independently because there may be cases where an upper or lower bound falls outside of the
+            # 360 range, we leave those as they are to preserve monotonicity. See e.g.
+            # test_set_longitude_bounds_wrap_at_360
+            new_lon_bounds = lon_coord.bounds - turns[..., np.newaxis]
+
+        if lon_coord in self.dim_coords:
+            lon_idx = self.dim_coords.index(lon_coord)
+            # Roll the points so that they are in order again
+            if lon_coord.points[-1] < lon_coord.points[0]:
+                shift = -int(np.argmax(new_lon_points))
+            else:
+                shift = -int(np.argmin(new_lon_points))
+            new_lon_points = np.roll(new_lon_points, shift, 0)
+            if new_lon_bounds is not None:
+                new_lon_bounds = np.roll(new_lon_bounds, shift, 0)
             # Ensure we also roll any auxilliary coordinates
             for aux_coord in self.aux_coords:
                 # Find all of the data dimensions which the auxiliary coordinate spans...
                 dims = self.coord_dims(aux_coord)
                 # .. and check if longitude is one of those dimensions
-                if lon_idx in dims:
+                if shift != 0 and lon_idx in dims:
                     # Now roll the axis of the auxiliary coordinate which is associated with the longitude data
                     # dimension: dims.index(lon_idx)
-                    new_points = np.roll(aux_coord.points, shift, dims.index(lon_idx))
-                    aux_coord.points = new_points
+                    new_bounds = None
+                    if aux_coord.bounds is not None:
+                        new_bounds = np.roll(aux_coord.bounds, shift, dims.index(lon_idx))
+                    aux_coord.points = np.roll(aux_coord.points, shift, dims.index(lon_idx))
+                    aux_coord.bounds = new_bounds
             # Now roll the data itself
-            new_data = np.roll(self.data, shift, lon_idx)
-            self.data = new_data
-            # Put the new coordinates back in their relevant places
-            self.dim_coords[lon_idx].points = new_lon_points
-            if roll_bounds:
-                self.dim_coords[lon_idx].bounds = new_lon_bounds
+            if shift != 0:
+                self.data = np.roll(self.data, shift, lon_idx)
+
+        lon_coord.bounds = None
+        lon_coord.points = new_lon_points
+        lon_coord.bounds = new_lon_bounds
 
     def add_attributes(self, attributes):
         """
-- 
2.43.0


From c71a1c4740c6ae94e213464c77fb8da218e0e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 16/86] fix: interpolate descending, circular and vertical
 coordinates of gridded data correctly

---
 cis/collocation/gridded_interpolation.py | 116 +++++++++++++++--------
 1 file changed, 74 insertions(+), 42 deletions(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index dc234c2..c00625a 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -61,14 +61,15 @@ class GriddedUngriddedInterpolator(object):
         from cis.utils import move_item_to_end
         coords = []
         grid_points = []
+        sample_points = []
         self._circular_coord_dims = []
         self._decreasing_coord_dims = []
 
         # If we have hybrid coordinates then ensure that the vertical dimension of the cube is last, as we will be
         #  performing partial interpolations to pull out vertical columns - which only works if the vertical dim is last
         # We do this first so that the coordinates are pulled out in the correct, new, order.
-        if len(_data.aux_factories) > 0:
-            vertical_dim = _data.coord_dims(_data.aux_factories[0].sigma)[0]
+        vertical_dim = self._get_vertical_dim(_data, sample)
+        if vertical_dim is not None:
             self._data_transpose = move_item_to_end(range(_data.ndim), vertical_dim)
         else:
             self._data_transpose = list(range(_data.ndim))
@@ -88,31 +89,26 @@ class GriddedUngriddedInterpolator(object):
                 decreasing = (coord_points.size > 1 and
                               coord_points[1] < coord_points[0])
                 if decreasing:
-                    self._decreasing_coord_dims.append(decreasing)
+                    self._decreasing_coord_dims.append(coord_dim)
                     coord_points = coord_points[::-1]
 
+                points = sample.coord(coord.name()).data_flattened
+
                 if getattr(coord, 'circular', False):
                     self._circular_coord_dims.append(coord_dim)
                     coord_points = extend_circular_coord(coord, coord_points)
+                    # The points below the first cell are between the last cell and the first one
+                    modulus = coord_points[-1] - coord_points[0]
+                    if modulus > 0:
+                        points = points - modulus * np.floor((points - coord_points[0]) / modulus)
 
                 grid_points.append(coord_points)
+                sample_points.append(points)
 
-        sample_points = [sample.coord(c).data_flattened for c in coords]
-
-        if len(data.coords('altitude', dim_coords=False)) > 0 and sample.coords(standard_name='altitude'):
-            hybrid_dims = data.coord_dims(data.coord('altitude'))
-            hybrid_coord = data.coord('altitude').points
-            for coord_dim in self._circular_coord_dims:
-                # Lookup the dimension on the hybrid data array
-                hybrid_coord_dim = hybrid_dims.index(coord_dim)
-                hybrid_coord = extend_circular_data(hybrid_coord, hybrid_coord_dim)
-            sample_points.append(sample.coord(standard_name="altitude").data_flattened)
-        elif len(data.coords('air_pressure', dim_coords=False)) > 0 and sample.coords(standard_name='air_pressure'):
-            hybrid_coord = data.coord('air_pressure').points
-            for coord_dim in self._circular_coord_dims:
-                hybrid_coord = extend_circular_data(hybrid_coord, coord_dim)
-            hybrid_dims = data.coord_dims(data.coord('air_pressure'))
-            sample_points.append(sample.coord(standard_name="air_pressure").data_flattened)
+        hybrid_name = self._get_hybrid_name(data, sample)
+        if hybrid_name is not None:
+            hybrid_coord, hybrid_dims = self._get_hybrid_coord(data, hybrid_name)
+            sample_points.append(sample.coord(standard_name=hybrid_name).data_flattened)
         else:
             hybrid_coord = None
             hybrid_dims = None
@@ -123,7 +119,7 @@ class GriddedUngriddedInterpolator(object):
 
         # Check if we want to sample missing points
         if missing_data_for_missing_sample and hasattr(sample.data, 'mask'):
-            self.missing_mask = sample.data.mask.flatten()
+            self.missing_mask = np.ma.getmaskarray(sample.data).flatten()
             sample_points = [p[~self.missing_mask] for p in sample_points]
         else:
             self.missing_mask = None
@@ -131,23 +127,55 @@ class GriddedUngriddedInterpolator(object):
         self._interp = _RegularGridInterpolator(grid_points, sample_points,
                                                 hybrid_coord=hybrid_coord, hybrid_dims=hybrid_dims, method=method)
 
-    def _get_dims_order(self, data, coords):
+    @staticmethod
+    def _get_hybrid_name(data, sample):
+        """
+        Return the name of the (non-dimension) vertical coordinate shared by the data and the sample, if there is one
+        """
+        for name in ('altitude', 'air_pressure'):
+            if sample.coords(standard_name=name):
+                if any(len(data.coord_dims(c)) > 0 for c in data.coords(name, dim_coords=False)):
+                    return name
+
+    def _get_vertical_dim(self, data, sample):
+        """
+        Return the dimension of the data which the hybrid vertical coordinate depends on, other than those which can be
+        looked up in the sample directly. This is None if there isn't (exactly) one.
+        """
+        if len(data.aux_factories) > 0:
+            return data.coord_dims(data.aux_factories[0].sigma)[0]
+        name = self._get_hybrid_name(data, sample)
+        if name is not None:
+            shared_dims = [data.coord_dims(c)[0] for c in data.coords(dim_coords=True)
+                           if sample.coords(standard_name=c.name())]
+            vertical_dims = [d for d in data.coord_dims(data.coord(name)) if d not in shared_dims]
+            if len(vertical_dims) == 1:
+                return vertical_dims[0]
+
+    def _get_hybrid_coord(self, data, name):
+        """
+        Return the points of the hybrid coordinate, laid out as the grid points are, and the dimensions they span
+        """
+        coord = data.coord(name)
+        dims = data.coord_dims(coord)
+        hybrid_dims = tuple(sorted(dims))
+        points = coord.points.transpose([dims.index(d) for d in hybrid_dims])
+        return self._align_with_grid_points(points, hybrid_dims), hybrid_dims
+
+    def _align_with_grid_points(self, array, dims):
         """
-        Return the dims with the vertical coord last. There must be a nicer way of doing this...
+        Reverse and extend an array spanning the given data dimensions in the same way as the grid points
+
+        :param ndarray array: The array to align
+        :param iterable dims: The data dimension which each of the dimensions of the array corresponds to
         """
-        # Find the only dimension coordinate we haven't yet accounted for - this must be the vertical
-        vertical_coord = list(set([c.name() for c in data.coords(dim_coords=True)]).difference(set(coords)))[0]
-        vertical_dim = data.coord_dims(vertical_coord)[0]
-        # The dim order is just the range of the dims with the vertical dim moved to the end.
-        self._data_transpose.pop(vertical_dim)
-        self._data_transpose.append(vertical_dim)
-
-    def _account_for_inverted(self, data):
-        dim_slices = [slice(None)] * data.ndim
-        for dim in self._decreasing_coord_dims:
-                dim_slices[dim] = slice(-1, None, -1)
-        data = data[tuple(dim_slices)]
-        return data
+        # Account for the decreasing coords
+        array = array[tuple(slice(None, None, -1) if d in self._decreasing_coord_dims else slice(None) for d in dims)]
+        # Account for any circular coords present
+        for i, dim in enumerate(dims):
+            if dim in self._circular_coord_dims:
+                array = extend_circular_data(array, i)
+        return array
 
     def __call__(self, data, fill_value=np.nan, extrapolate=False):
         """
@@ -166,11 +194,7 @@ class GriddedUngriddedInterpolator(object):
 
         # Apply a transpose if we need to so that the indices line-up correctly
         data_array = data.data.transpose(self._data_transpose)
-        # Account for any circular coords present
-        for dim in self._circular_coord_dims:
-            data_array = extend_circular_data(data_array, dim)
-
-        data_array = self._account_for_inverted(data_array)
+        data_array = self._align_with_grid_points(data_array, range(data_array.ndim))
 
         result = self._interp(data_array, fill_value=fill_value)
 
@@ -274,9 +298,12 @@ class _RegularGridInterpolator(object):
             hybrid_indices = [self.indices[i] for i in hybrid_interp_dims]
 
             # Find all of the interpolated vertical columns (one for each point)
-            v_coords = self._interp(hybrid_coord, hybrid_indices, self.norm_distances)
+            if len(hybrid_indices) > 0:
+                v_coords = self._interp(hybrid_coord, hybrid_indices, self.norm_distances)
+            else:
+                v_coords = [hybrid_coord] * len(points.T)
 
-            self.indices.append(np.zeros(len(points.T), dtype=self.indices[0].dtype))
+            self.indices.append(np.zeros(len(points.T), dtype=int))
             self.norm_distances.append(np.zeros(len(points.T)))
 
             # Calculate and store the vertical index and weight for each point based on the interpolated vertical
@@ -379,6 +406,11 @@ class _RegularGridInterpolator(object):
 
     @staticmethod
     def _find_vertical_index(point, coord):
+        if coord.size > 1 and coord[1] < coord[0]:
+            # Index the column upside down
+            i, norm_distances, out_of_bounds = _RegularGridInterpolator._find_vertical_index(point, coord[::-1])
+            return coord.size - 2 - i, 1 - norm_distances, out_of_bounds
+
         i = np.searchsorted(coord, point) - 1
         if i < 0:
             i = 0
-- 
2.43.0


From 512600802b65fe296277f3f61c9b408e42fc6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 17/86] fix: pass the extrapolate option on to the gridded
 collocators

---
 cis/cis_main.py               | 2 ++
 cis/data_io/gridded_data.py   | 4 +++-
 cis/data_io/ungridded_data.py | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 126414c..110e0ae 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -88,6 +88,8 @@ def col_cmd(main_arguments):
 
     missing_data_for_missing_sample = check_boolean(col_options.pop('missing_data_for_missing_sample',
                                                                     str(missing_data_for_missing_sample)), logging)
+    if 'extrapolate' in col_options:
+        col_options['extrapolate'] = check_boolean(col_options['extrapolate'], logging)
 
     kernel = get_kernel(kern_name)(**kern_options) if kern_name else None
 
diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 72b719a..1d7bcf6 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -354,6 +354,7 @@ class GriddedData(iris.cube.Cube, CommonData):
         from cis.data_io.ungridded_data import UngriddedData, UngriddedDataList
         from cis.collocation.col import collocate, get_kernel
 
+        col_kwargs = {}
         if isinstance(data, UngriddedData) or isinstance(data, UngriddedDataList):
             col_cls = ci.GeneralGriddedCollocator
             # Bin is the default for ungridded -> gridded collocation
@@ -368,6 +369,7 @@ class GriddedData(iris.cube.Cube, CommonData):
             kernel = get_kernel(kernel)
         elif isinstance(data, GriddedData) or isinstance(data, GriddedDataList):
             col_cls = ci.GriddedCollocator
+            col_kwargs['extrapolate'] = kwargs.get('extrapolate', False)
             con = None
             if kernel is not None:
                 raise ValueError("Cannot specify kernel when method is 'lin' or 'nn'")
@@ -383,7 +385,7 @@ class GriddedData(iris.cube.Cube, CommonData):
             raise ValueError("Invalid argument, data must be either GriddedData or UngriddedData")
 
         col = col_cls(missing_data_for_missing_sample=missing_data_for_missing_sample, fill_value=fill_value,
-                      var_name=var_name, var_long_name=var_long_name, var_units=var_units)
+                      var_name=var_name, var_long_name=var_long_name, var_units=var_units, **col_kwargs)
 
         return collocate(data, self, col, con, kernel)
 
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index ab81615..d885540 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1243,7 +1243,8 @@ def _ungridded_sampled_from(sample, data, how='', kernel=None, missing_data_for_
     elif isinstance(data, GriddedData) or isinstance(data, GriddedDataList):
         col = ci.GriddedUngriddedCollocator(fill_value=fill_value, var_name=var_name, var_long_name=var_long_name,
                                             var_units=var_units,
-                                            missing_data_for_missing_sample=missing_data_for_missing_sample)
+                                            missing_data_for_missing_sample=missing_data_for_missing_sample,
+                                            extrapolate=kwargs.get('extrapolate', False))
         con = None
         if how not in ['', 'lin', 'nn']:
             raise ValueError("Invalid method specified for gridded -> ungridded collocation: " + how)
-- 
2.43.0


From 79711ee2fae461c6a0105b109aa4a2a44731cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 18/86] fix: use the requested variable name and units when
 collocating gridded data onto a grid

---
 cis/collocation/col_implementations.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 349e963..d45882e 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -688,9 +688,15 @@ class GriddedCollocator(Collocator):
                                              kernel, output_mask, points, self.extrapolate)
 
         if not isinstance(output_cube, list):
-            return GriddedDataList([output_cube])
-        else:
-            return output_cube
+            output_cube = GriddedDataList([output_cube])
+        for cube in output_cube:
+            if self.var_name:
+                cube.var_name = self.var_name
+            if self.var_long_name:
+                cube.long_name = self.var_long_name
+            if self.var_units:
+                cube.units = self.var_units
+        return output_cube
 
     @staticmethod
     def _make_output_mask(coord_names_and_sizes_for_sample_grid, output_shape, points, repeat_size):
-- 
2.43.0


From 1015bdb5a04b1a32115e9b5259bf243871e1201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 19/86] fix: put points in the right cell of descending sample
 coordinates and in no cell when they fall between cells

---
 cis/collocation/data_index.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/cis/collocation/data_index.py b/cis/collocation/data_index.py
index a80c080..ab5422e 100644
--- a/cis/collocation/data_index.py
+++ b/cis/collocation/data_index.py
@@ -45,7 +45,7 @@ class GridCellBinIndexInSlices(object):
         coord_descreasing = [False] * len(coords)
         coord_lengths = [0] * len(coords)
         lower_bounds = [None] * len(coords)
-        max_bounds = [None] * len(coords)
+        upper_bounds = [None] * len(coords)
         for (hpi, ci, shi) in coord_map:
             coord = coords[ci]
             # Coordinates must be monotonic; determine whether increasing or decreasing.
@@ -53,12 +53,11 @@ class GridCellBinIndexInSlices(object):
                 if coord.points[1] < coord.points[0]:
                     coord_descreasing[shi] = True
             coord_lengths[shi] = len(coord.points)
+            lower_bounds[shi] = coord.bounds.min(axis=1)
+            upper_bounds[shi] = coord.bounds.max(axis=1)
             if coord_descreasing[shi]:
-                lower_bounds[shi] = coord.bounds[::-1, 1]
-                max_bounds[shi] = coord.bounds[0, 1]
-            else:
-                lower_bounds[shi] = coord.bounds[::, 0]
-                max_bounds[shi] = coord.bounds[-1, 1]
+                lower_bounds[shi] = lower_bounds[shi][::-1]
+                upper_bounds[shi] = upper_bounds[shi][::-1]
 
             hp_coord = hyper_points.coords[hpi]
             if isinstance(hp_coord[0], datetime.datetime):
@@ -66,22 +65,20 @@ class GridCellBinIndexInSlices(object):
 
             hp_coords.append(hp_coord)
 
-        bounds_coords_max = list(zip(lower_bounds, hp_coords, max_bounds))
+        bounds_coords_max = list(zip(lower_bounds, hp_coords, upper_bounds))
 
         # stack for each coordinate
-        #    where the coordinate is larger than the maximum set to -1
-        #    otherwise search in the sorted coordinate to find all the index of the hyperpoints
+        #    search in the sorted coordinate to find all the index of the hyperpoints, and
+        #    where the coordinate is beyond the upper bound of that cell set to -1
         # The choice of 'left' or 'right' and '<' and '<=' determines which
         #  cell is chosen when the coordinate is equal to the boundary.
         # -1 or M_i indicates the point is outside the grid.
         # Output is a list of coordinates which lists the indexes where the hyper points
         #    should be located in the grid
+        cell_indices = [np.searchsorted(bi, ci, side='right') - 1 for bi, ci, _ in bounds_coords_max]
         indices = np.vstack(
-            [np.where(
-                 ci < max_coordinate_value,
-                 np.searchsorted(bi, ci, side='right') - 1,
-                 -1)
-             for bi, ci, max_coordinate_value in bounds_coords_max])
+            [np.where(ci < ui[cells], cells, -1)
+             for (_, ci, ui), cells in zip(bounds_coords_max, cell_indices)])
 
         # D-tuple giving the shape of the output grid
         grid_shape = tuple(len(bi_ci[0]) for bi_ci in bounds_coords_max)
-- 
2.43.0


From 912205d89ea5c3104a7c10f59b42f15ebde97a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 20/86] fix: allow scalar coordinates on a gridded sample with
 missing values when collocating ungridded data

---
 cis/collocation/col_implementations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index d45882e..3c549e6 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -807,7 +807,7 @@ class GeneralGriddedCollocator(Collocator):
 
         # Work out how to iterate over the cube and map HyperPoint coordinates to cube coordinates.
         coord_map = make_coord_map(points, data)
-        if self.missing_data_for_missing_sample and len(coord_map) is not len(points.coords()):
+        if self.missing_data_for_missing_sample and len(coord_map) != len(points.coords(dim_coords=True)):
             raise cis.exceptions.UserPrintableException(
                 "A sample variable has been specified but not all coordinates in the data appear in the sample so "
                 "there are multiple points in the sample data so whether the data is missing or not can not be "
-- 
2.43.0


From 13302c9749038154cf7a26b0e08b1c2602c46c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 21/86] fix: mask missing values when reading NetCDF variables

---
 cis/data_io/netcdf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index 9cca09b..64f252a 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -259,9 +259,11 @@ def get_data(var):
     """
     import numpy as np
     import logging
-    # Turn off scaling and masking as we're a bit more lenient about the type of valid min/max.
-    var.set_auto_maskandscale(False)
-    # This will still automatically return a masked array based on _FillValue and missing_value
+    # Turn off scaling as we're a bit more lenient about the type of valid min/max (which have to be compared with the
+    #  packed data).
+    var.set_auto_scale(False)
+    # This will automatically return a masked array based on _FillValue and missing_value
+    var.set_auto_mask(True)
     data = var[:]
 
     if hasattr(var, 'valid_max'):
-- 
2.43.0


From c7ec6b50bd152b328a2356ff0f682750a6a2ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 22/86] fix: unpack integer data which have only a scale factor
 or only an offset

---
 cis/data_io/netcdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index 64f252a..0202159 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -313,9 +313,9 @@ def apply_offset_and_scaling(data, add_offset=None, scale_factor=None):
         logging.debug("Applying 'data = data * {scale} + {offset}' transformation to data.".format(scale=scale_factor,
                                                                                                    offset=add_offset))
     elif scale_factor is not None and scale_factor != 1.0:
-        data *= scale_factor
-        logging.debug("Applying 'data *= {scale}' transformation to data.".format(scale=scale_factor))
+        data = data * scale_factor
+        logging.debug("Applying 'data = data * {scale}' transformation to data.".format(scale=scale_factor))
     elif add_offset is not None and add_offset != 0.0:
-        data += add_offset
-        logging.debug("Applying 'data += {offset}' transformation to data.".format(offset=add_offset))
+        data = data + add_offset
+        logging.debug("Applying 'data = data + {offset}' transformation to data.".format(offset=add_offset))
     return data
-- 
2.43.0


From 195d6723960742e575e72b5f085ae67168c6d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 23/86] fix: allow time coordinates without any valid points

---
 cis/data_io/ungridded_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index d885540..680eb9a 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -402,8 +402,8 @@ class LazyData(object):
                              cis_standard_time_unit.num2date(self.data.max()))
                 else:
                     range = (self.data.min(), self.data.max())
-            except ValueError as e:
-                # If we can't set a range for some reason then just leave it blank
+            except (ValueError, TypeError) as e:
+                # If we can't set a range for some reason (e.g. all of the times are missing) then just leave it blank
                 range = ()
 
         self.metadata.range = range
-- 
2.43.0


From 95815da1ce1e0369f770edbbe6545eca68f68b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 24/86] fix: read each layer of multi-dimensional MODIS L2
 variables instead of the last one for all of them

---
 cis/data_io/products/MODIS.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/products/MODIS.py b/cis/data_io/products/MODIS.py
index 29d8459..92ea7db 100644
--- a/cis/data_io/products/MODIS.py
+++ b/cis/data_io/products/MODIS.py
@@ -296,6 +296,7 @@ class MODIS_L2(AProduct):
         return UngriddedCoordinates(self._create_coord_list(filenames))
 
     def create_data_object(self, filenames, variable):
+        from copy import copy
         from itertools import product
 
         logging.debug("Creating data object for variable " + variable)
@@ -325,10 +326,12 @@ class MODIS_L2(AProduct):
             # Iterate over all but the last two dimensions
             ranges = [range(n) for n in dim_len[:-2]]
             for indices in product(*ranges):
-                for manager in var:
+                # The data are only read later on, so each of the slices needs managers of its own
+                managers = [copy(manager) for manager in var]
+                for manager in managers:
                     manager._start = list(indices) + [0, 0]
                     manager._count = [1] * len(indices) + manager.info()[2][-2:]
-                result.append(UngriddedData(var, metadata, coords.copy(), _get_MODIS_SDS_data))
+                result.append(UngriddedData(managers, metadata, coords.copy(), _get_MODIS_SDS_data))
             return result
 
     def get_file_format(self, filenames):
-- 
2.43.0


From d5f9622932b30de0d5b87340dad9fd499a2d3cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:55 +0000
Subject: [PATCH 25/86] fix: include the time of day of the reference when
 converting seconds to standard time

---
 cis/time_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/time_util.py b/cis/time_util.py
index 24fe9d7..fba31d1 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -181,7 +181,7 @@ def convert_sec_since_to_std_time(seconds, ref):
     kwargs = {} if isinstance(seconds, np.ma.MaskedArray) else {'copy': False}
     days_since = seconds.astype(float, **kwargs) / (3600*24.0)
     offset = ref - cis_standard_time_unit.num2date(0)
-    return offset.days + days_since
+    return offset.total_seconds() / (3600*24.0) + days_since
 
 
 def convert_std_time_to_datetime(std_time):
-- 
2.43.0


From 989fc32e3145c387d464fbe96ed009b7d3ab4011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:55 +0000
Subject: [PATCH 26/86] fix: convert scalar and auxiliary time coordinates of
 gridded data to standard time

---
 cis/time_util.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/cis/time_util.py b/cis/time_util.py
index fba31d1..356518a 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -211,29 +211,14 @@ def convert_cube_time_coord_to_standard_time(cube):
     :param cube: cube to modify
     :return: the cube
     """
-    # Find the time coordinate.
+    # Find the time coordinate and convert it in place (whether it is a dimension, auxiliary or scalar coordinate)
     t_coord = cube.coord(standard_name='time')
-    data_dim = cube.coord_dims(t_coord)
-    if len(data_dim) > 0:
-        # And remove it from the cube
-        cube.remove_coord(t_coord)
-
-        dt_points = t_coord.units.num2date(t_coord.points)
-        new_datetime_nums = cis_standard_time_unit.date2num(dt_points)
-
-        # new_datetime_nums = convert_numpy_array(t_coord.points, 'float64', convert_date)
-        if t_coord.nbounds > 0:
-            dt_bounds = t_coord.units.num2date(t_coord.bounds)
-            new_bound_nums = cis_standard_time_unit.date2num(dt_bounds)
-            t_coord.bounds = new_bound_nums
-
-        # Create a new time coordinate by copying the old one, but using our new points and units
-        new_time_coord = t_coord
-        new_time_coord.points = new_datetime_nums
-        new_time_coord.units = cis_standard_time_unit
-
-        # And add the new coordinate back into the cube
-        cube.add_dim_coord(new_time_coord, data_dim)
+
+    new_points = cis_standard_time_unit.date2num(t_coord.units.num2date(t_coord.points))
+    if t_coord.nbounds > 0:
+        t_coord.bounds = cis_standard_time_unit.date2num(t_coord.units.num2date(t_coord.bounds))
+    t_coord.points = new_points
+    t_coord.units = cis_standard_time_unit
 
     return cube
 
-- 
2.43.0


From ec3e37470c8dd42e33797c7543874363bfc8d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:55 +0000
Subject: [PATCH 27/86] fix: apply times given as numbers in
 HyperPoint.modified

---
 cis/data_io/hyperpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/hyperpoint.py b/cis/data_io/hyperpoint.py
index ba3d765..6fb6a1b 100644
--- a/cis/data_io/hyperpoint.py
+++ b/cis/data_io/hyperpoint.py
@@ -64,7 +64,8 @@ class HyperPoint(namedtuple('HyperPoint', ['latitude', 'longitude', 'altitude',
             values[HyperPoint.AIR_PRESSURE] = pres
         if t is not None:
             if isinstance(t, datetime.datetime):
-                values[HyperPoint.TIME] = convert_datetime_to_std_time(t)
+                t = convert_datetime_to_std_time(t)
+            values[HyperPoint.TIME] = t
         if val is not None:
             if val == []:
                 values[HyperPoint.VAL] = []
-- 
2.43.0


From ba441f90540d6536f91b50d818e4912ba9414586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 28/86] fix: do not return an unrelated coordinate when the
 only one in the list does not match

---
 cis/data_io/Coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 929da80..c00b268 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -244,7 +244,7 @@ class CoordList(list):
         from cis.exceptions import CoordinateNotFoundError
         coords = self.get_coords(name_or_coord=name_or_coord, standard_name=standard_name, long_name=long_name,
                                  attributes=attributes, axis=axis, var_name=var_name)
-        if len(coords) == 0:  # If we found none by name, try with standard name only
+        if len(coords) == 0 and name_or_coord is not None:  # If we found none by name, try with standard name only
             coords = self.get_coords(standard_name=name_or_coord)
 
         if len(coords) > 1:
-- 
2.43.0


From 631449e11959ba311dbc2cf863cea533f009c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 29/86] fix: put the time and pressure of a hyper point in the
 right fields

---
 cis/data_io/ungridded_data.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 680eb9a..1fb5ad3 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -598,12 +598,8 @@ class UngriddedData(LazyData, CommonData):
         :return: A hyperpoint representing the data at that point
         """
         from cis.data_io.hyperpoint import HyperPoint
-        return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
-                          self.coord(standard_name='longitude').data.flat[index],
-                          self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
-                          self.coord(standard_name='air_pressure').data.flat[index],
-                          self.data.flat[index])
+        coords = [(c[index] if c is not None else None) for c in self.coords_flattened]
+        return HyperPoint(*coords, val=self.data.flat[index])
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
         """
@@ -931,12 +927,7 @@ class UngriddedCoordinates(CommonData):
         :return: A hyperpoint representing the data at that point
         """
         from cis.data_io.hyperpoint import HyperPoint
-        return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
-                          self.coord(standard_name='longitude').data.flat[index],
-                          self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
-                          self.coord(standard_name='air_pressure').data.flat[index],
-                          None)
+        return HyperPoint(*[(c[index] if c is not None else None) for c in self.coords_flattened])
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
         """
-- 
2.43.0


From 807482aec3aa77f42b1714929acb53d87021e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 30/86] fix: count the points of ungridded coordinates with a
 single coordinate

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 1fb5ad3..0536762 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -888,7 +888,7 @@ class UngriddedCoordinates(CommonData):
 
     @property
     def size(self):
-        if len(self._coords) > 1:
+        if len(self._coords) > 0:
             return self._coords[0].data.size
         else:
             return 0
-- 
2.43.0


From d4a63bafa40623868a75c2646cb38b6395680403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 31/86] fix: view the points of gridded data with length one or
 non standard dimensions

---
 cis/data_io/hyperpoint_view.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index c7e73a8..73d33a4 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -243,8 +243,6 @@ class GriddedHyperPointView(HyperPointView):
             coord = self.coords[idx]
             if coord is not None:
                 val[self.dims_to_std_coords_map[idx]] = coord[coord_idx]
-            else:
-                val.append(None)
         if self.data is not None:
             val.append(self.data[indices])
         return HyperPoint(*val)
@@ -259,8 +257,7 @@ class GriddedHyperPointView(HyperPointView):
         """Iterates over all or non-masked points according to the value of non_masked_iteration
         :return: next HyperPoint
         """
-        shape = [c.size for c in self.coords if (c is not None and c.size > 1)]
-        for idx in cis.utils.index_iterator(shape):
+        for idx in cis.utils.index_iterator(self.data.shape):
             if self.non_masked_iteration and self.data is not None and self.data[idx] is np.ma.masked:
                 continue
             yield self.__getitem__(idx)
-- 
2.43.0


From c8683780f7d3f11e12b094cbb069d54c2e9cb09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 32/86] fix: shift gridded longitudes by as many turns as
 needed in point views

---
 cis/data_io/hyperpoint_view.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index 73d33a4..cf373ed 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -342,17 +342,9 @@ class GriddedHyperPointView(HyperPointView):
             return
 
         range_end = range_start + 360.0
-        if coord is not None:
-            new_coord = np.empty_like(coord)
-            for i, lon in enumerate(coord):
-                if lon < range_start:
-                    new_lon = lon + 360.0
-                elif lon >= range_end:
-                    new_lon = lon - 360.0
-                else:
-                    new_lon = lon
-                new_coord[i] = new_lon
-            self.longitudes = new_coord
+        # Shift by whole turns, leaving longitudes which already fall in the range exactly as they are
+        new_coord = coord - 360.0 * np.floor((coord - range_start) / 360.0)
+        self.longitudes = np.where(new_coord >= range_end, new_coord - 360.0, new_coord)
 
     def _dimension_index_for_hyperpoint_index(self, hp_index):
         """Finds the index of the dimension corresponding to a hyperpoint coordinate index.
-- 
2.43.0


From 4d00b51ad6b3c40e90995c3e38ef52ea01b44974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 33/86] fix: view the points of ungridded data without
 latitudes

---
 cis/data_io/hyperpoint_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index cf373ed..8e0c8c5 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -71,7 +71,7 @@ class UngriddedHyperPointView(HyperPointView):
         self.data = data
         self.coords = coords
         # Data and all coordinates should have the same size.
-        self.length = coords[0].size
+        self.length = next(c.size for c in coords if c is not None)
         self.non_masked_iteration = non_masked_iteration
 
     def __getitem__(self, item):
-- 
2.43.0


From cb37c31a7045150437b77349f292c61cb3657660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 34/86] fix: do not keep the flattened data from before points
 were removed

---
 cis/data_io/ungridded_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 0536762..67d8f29 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -496,6 +496,7 @@ class UngriddedData(LazyData, CommonData):
                     self._data = numpy.ma.masked_array(new_data, mask=new_data_mask)
                 else:
                     self._data = numpy.ma.masked_array(self._data.flatten(), mask=combined_mask).compressed()
+                self._data_flattened = None
             self.update_shape()
             self.update_range()
 
-- 
2.43.0


From 20b56407f6925860fd5e44b6508369afc0b3ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 35/86] fix: allow all of the times of a coordinate to be
 missing

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 67d8f29..59a1c10 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -402,7 +402,7 @@ class LazyData(object):
                              cis_standard_time_unit.num2date(self.data.max()))
                 else:
                     range = (self.data.min(), self.data.max())
-            except (ValueError, TypeError) as e:
+            except (ValueError, TypeError, AttributeError) as e:
                 # If we can't set a range for some reason (e.g. all of the times are missing) then just leave it blank
                 range = ()
 
-- 
2.43.0


From 72aa989de2caff0ca313cbed8e9256f1ce1b957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 36/86] fix: copy the coordinates before the data, which they
 might remove points from

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 59a1c10..a99b37e 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -558,8 +558,8 @@ class UngriddedData(LazyData, CommonData):
         :return: Copied UngriddedData object
         """
         from copy import deepcopy
+        coords = self.coords().copy()  # This might remove points with missing coordinates, so do it before the data
         data = data if data is not None else numpy.ma.copy(self.data)  # This will load the data if lazy load
-        coords = self.coords().copy()
         return UngriddedData(data=data, metadata=deepcopy(self.metadata), coords=coords)
 
     @property
-- 
2.43.0


From 7934c5e266129c519ba7a0cd154f0451933a276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:01 +0000
Subject: [PATCH 37/86] fix: do not ignore the other criteria when no
 coordinate of the given name matches them

---
 cis/data_io/Coord.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index c00b268..93a9a44 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -244,9 +244,6 @@ class CoordList(list):
         from cis.exceptions import CoordinateNotFoundError
         coords = self.get_coords(name_or_coord=name_or_coord, standard_name=standard_name, long_name=long_name,
                                  attributes=attributes, axis=axis, var_name=var_name)
-        if len(coords) == 0 and name_or_coord is not None:  # If we found none by name, try with standard name only
-            coords = self.get_coords(standard_name=name_or_coord)
-
         if len(coords) > 1:
             msg = 'Expected to find exactly 1 coordinate, but found %s. They were: %s.' \
                   % (len(coords), ', '.join(coord.name() for coord in coords))
-- 
2.43.0


From 26bb49387d8b60c92988b3d4614f99c8844f1835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:01 +0000
Subject: [PATCH 38/86] fix: coordinates without standard names are not all the
 same coordinate

---
 cis/data_io/Coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 93a9a44..8bfcd78 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -55,7 +55,7 @@ class Coord(LazyData):
         return self.data
 
     def __eq__(self, other):
-        return other.metadata.standard_name == self.metadata.standard_name and self.metadata.standard_name != ''
+        return other.metadata.standard_name == self.metadata.standard_name and bool(self.metadata.standard_name)
 
     def convert_julian_to_std_time(self):
         from cis.time_util import convert_julian_date_to_std_time, cis_standard_time_unit
-- 
2.43.0


From 335e8bf17ce73c42cce8cf9644e60765e4c3ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:01 +0000
Subject: [PATCH 39/86] fix: do not use the only coordinate of the data for any
 name

---
 cis/data_io/common_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/common_data.py b/cis/data_io/common_data.py
index 6c4901b..c27f174 100644
--- a/cis/data_io/common_data.py
+++ b/cis/data_io/common_data.py
@@ -215,8 +215,9 @@ class CommonData(object):
                 coord = None
             return coord
 
+        # Without any criteria we would get the only coordinate of one dimensional data, so use the name if it's no axis
         coord = _try_coord(self, dict(name_or_coord=name)) or _try_coord(self, dict(standard_name=name)) \
-            or _try_coord(self, dict(standard_name=standard_axes.get(name.upper(), None))) or \
+            or _try_coord(self, dict(standard_name=standard_axes.get(name.upper(), name))) or \
                 _try_coord(self, dict(var_name=name)) or _try_coord(self, dict(axis=name))
 
         return coord
-- 
2.43.0


From e1015c58f0a7bca3c1817b58c14c6175ed54f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 40/86] fix: name the unknown coordinate when collapsing over
 one

---
 cis/data_io/gridded_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 1d7bcf6..ab66a00 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -615,11 +615,17 @@ def _collapse_gridded(data, coords, kernel):
     from cis.aggregation.collapse_kernels import aggregation_kernels, MultiKernel
     from iris.analysis import Aggregator as IrisAggregator
     from cis.aggregation.gridded_collapsor import GriddedCollapsor
+    from cis.exceptions import CoordinateNotFoundError
     from cis import __version__
     from cis.utils import listify
 
     # Ensure the coords are all Coord instances
-    coords = [data._get_coord(c) for c in listify(coords)]
+    names = listify(coords)
+    coords = [data._get_coord(c) for c in names]
+    for name, coord in zip(names, coords):
+        if coord is None:
+            raise CoordinateNotFoundError("No coordinate found that matches '{}'. Please check the coordinate "
+                                          "name.".format(name))
 
     # The kernel can be a string or object, so catch both defaults
     if kernel is None or kernel == '':
-- 
2.43.0


From cf24a6c8631a2901666c95047882e2ead4b67c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:06 +0000
Subject: [PATCH 41/86] fix: slices and copies of gridded data are gridded data
 too

---
 cis/data_io/gridded_data.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index ab66a00..02c9fae 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -107,6 +107,24 @@ class GriddedData(iris.cube.Cube, CommonData):
         # Override the Cube representation
         return "<cis 'GriddedData' of %s>" % self.summary(shorten=True)
 
+    def _wrap_cube(self, cube):
+        """Makes a GriddedData object from a Cube made out of this one (iris doesn't preserve the type of the cube).
+        :param cube: a new Cube
+        :return: GriddedData object
+        """
+        data = GriddedData.make_from_cube(cube)
+        data._local_attributes = list(self._local_attributes)
+        return data
+
+    def __getitem__(self, keys):
+        return self._wrap_cube(super(GriddedData, self).__getitem__(keys))
+
+    def copy(self, data=None):
+        return self._wrap_cube(super(GriddedData, self).copy(data))
+
+    def __deepcopy__(self, memo):
+        return self._wrap_cube(super(GriddedData, self).__deepcopy__(memo))
+
     @staticmethod
     def _wrap_cube_iterator(itr):
         """Makes a generator that returns a GriddedData object from each Cube returned by an iterator.
-- 
2.43.0


From a4eb25d84905a3eda2c5102585a49228217f039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 42/86] fix: keep the missing values of the other operand in
 in-place operations

---
 cis/maths.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/maths.py b/cis/maths.py
index ba51fb2..aa9bb56 100644
--- a/cis/maths.py
+++ b/cis/maths.py
@@ -365,6 +365,9 @@ def _binary_op_common(operation_function, ungridded_data, other, new_unit, in_pl
     _assert_compatible(ungridded_data, other)
 
     def unary_func(x):
+        if isinstance(other, np.ma.MaskedArray):
+            # An in-place operation on a plain array would drop the mask of the other one
+            x = np.ma.asarray(x)
         ret = operation_function(x, other)
         if ret is NotImplemented:
             # explicitly raise the TypeError, so it gets raised even if, for
@@ -382,10 +385,11 @@ def _math_op_common(ungridded_data, operation_function, new_unit, in_place=False
     if in_place:
         new_ungridded_data = ungridded_data
         try:
-            operation_function(new_ungridded_data.data, out=new_ungridded_data.data)
+            result = operation_function(new_ungridded_data.data, out=new_ungridded_data.data)
         except TypeError:
             # Non ufunc function
-            operation_function(new_ungridded_data.data)
+            result = operation_function(new_ungridded_data.data)
+        new_ungridded_data.data = result
     else:
         new_ungridded_data = ungridded_data.copy(data=operation_function(ungridded_data.data))
     new_ungridded_data.units = new_unit
-- 
2.43.0


From f193a64c8e8b93c4cec040d91c5b040e07456eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 43/86] fix: keep all the coordinates without standard names in
 data frames

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index a99b37e..f7e3f2a 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1173,7 +1173,7 @@ def _coords_as_data_frame(coord_list, copy=True, time_index=True):
             else:
                 time = cis_standard_time_unit.num2date(data)
         else:
-            columns[coord.standard_name] = data
+            columns[coord.name()] = data
 
     return pd.DataFrame(columns, index=time)
 
-- 
2.43.0


From d5e0747fdcda7484e032a134f086ad1362cd8fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 44/86] fix: collapse the right dimensions of auxiliary
 coordinates over some of the dimensions

---
 cis/aggregation/gridded_collapsor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index c1c9ebc..793456e 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -107,7 +107,9 @@ class GriddedCollapsor(object):
         new_data = iris.cube.Cube.collapsed(data_for_collapse, self.coords, kernel, **ag_args)
 
         for coord, old_dims in coords_for_partial_collapse:
-            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord, dims_to_collapse)
+            # The dimensions of the coordinate aren't necessarily numbered as those of the data
+            coord_dims_to_collapse = [old_dims.index(dim) for dim in dims_to_collapse if dim in old_dims]
+            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord, coord_dims_to_collapse)
             new_dims = GriddedCollapsor._calc_new_dims(old_dims, dims_to_collapse)
 
             new_data.add_aux_coord(collapsed_coord, new_dims)
-- 
2.43.0


From a1f40aa3074740305ff2b86b4dc53e6d82f65e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 45/86] fix: derive the hybrid levels of collapsed data from
 the right coordinates

---
 cis/aggregation/gridded_collapsor.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index 793456e..79d7888 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -57,14 +57,6 @@ class GriddedCollapsor(object):
 
         return new_dims
 
-    @staticmethod
-    def _update_aux_factories(data, *args, **kwargs):
-        from cis.utils import listify
-        d_list = listify(data)
-        for d in d_list:
-            for factory in d.aux_factories:
-                factory.update(*args, **kwargs)
-
     def _gridded_full_collapse(self, kernel):
         from copy import deepcopy
         from cis.exceptions import ClassNotFoundError
@@ -100,6 +92,15 @@ class GriddedCollapsor(object):
         #  when using a MultiKernel for which this routine gets called multiple times.
         data_for_collapse = deepcopy(self.data)
 
+        # The aux factories which depend on any of those coordinates can't do without them, so take them out as well. We
+        #  put them back in when the coordinates have been collapsed.
+        factories = []
+        for factory, factory_copy in zip(self.data.aux_factories, data_for_collapse.aux_factories):
+            if any(coord is dependency for coord, _ in coords_for_partial_collapse
+                   for dependency in factory.dependencies.values()):
+                factories.append(factory)
+                data_for_collapse.remove_aux_factory(factory_copy)
+
         for coord, _ in coords_for_partial_collapse:
             data_for_collapse.remove_coord(coord)
 
@@ -113,9 +114,13 @@ class GriddedCollapsor(object):
             new_dims = GriddedCollapsor._calc_new_dims(old_dims, dims_to_collapse)
 
             new_data.add_aux_coord(collapsed_coord, new_dims)
-            # If the coordinate we had to collapse manually was a dependency in an aux factory (which is quite likely)
-            #  then we need to put it back in and fix the factory, this will update any missing dependencies.
-            self._update_aux_factories(new_data, None, collapsed_coord)
+
+        # If a coordinate we had to collapse manually was a dependency in an aux factory (which is quite likely) then put
+        #  the factory back in, using the coordinates of the collapsed data.
+        for factory in factories:
+            new_coords = {id(coord): new_data.coord(coord) for coord in factory.dependencies.values()
+                          if coord is not None}
+            new_data.add_aux_factory(factory.updated(new_coords))
 
         return new_data
 
-- 
2.43.0


From 05d0b021af73d520d33ce2f306abb9f6c1958bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:15 +0000
Subject: [PATCH 46/86] fix: refuse expressions which don't evaluate to an
 array with the proper error

---
 cis/evaluate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/evaluate.py b/cis/evaluate.py
index 56dd0ec..675a637 100644
--- a/cis/evaluate.py
+++ b/cis/evaluate.py
@@ -83,7 +83,7 @@ class Calculator(object):
         if not sample_data.is_gridded:
             # Allow ungridded data to be flattened
             sample_shape = (reduce(mul, sample_shape),)
-        if not sample_shape == result_array.shape:
+        if not isinstance(result_array, numpy.ndarray) or not sample_shape == result_array.shape:
             raise EvaluationError("The resulting array is not the same shape as the original data. "
                                   "Check your expression")
         data = sample_data.make_new_with_same_coordinates(data=result_array, var_name=output_var,
-- 
2.43.0


From 4b432d1b81f355d4d183ed2ceef66dac93a2753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 47/86] fix: do not share the coordinates of gridded data with
 the data made from it

---
 cis/data_io/gridded_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 02c9fae..2b1a169 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -96,9 +96,11 @@ class GriddedData(iris.cube.Cube, CommonData):
         """
         if data is None:
             data = np.zeros(self.shape)
+        # Use copies of the coordinates so that changes to those of the new data don't affect this one
+        template = self.copy(data=data)
         data = GriddedData(data=data, standard_name=standard_name, long_name=long_name, var_name=var_name,
-                           units=units, dim_coords_and_dims=self._dim_coords_and_dims,
-                           aux_coords_and_dims=self._aux_coords_and_dims, aux_factories=self._aux_factories)
+                           units=units, dim_coords_and_dims=template._dim_coords_and_dims,
+                           aux_coords_and_dims=template._aux_coords_and_dims, aux_factories=template._aux_factories)
         # Add history separately as it is not a constructor argument
         data.add_history(history)
         return data
-- 
2.43.0


From a7952cde3b9e3b9764278da6a2960892bca87973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:24 +0000
Subject: [PATCH 48/86] fix: do not add guessed bounds to the data being
 collapsed

---
 cis/aggregation/gridded_collapsor.py | 29 +++++++++++++---------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index 79d7888..ee8fa3a 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -77,21 +77,28 @@ class GriddedCollapsor(object):
                 # ... add it to our list of partial coordinates to collapse.
                 coords_for_partial_collapse.append((coord, coord_dims))
 
+        # Before we add bounds, or remove the coordinates which need to be partially collapsed, we take a copy of the
+        #  data. We need this so that the aggregation doesn't have any side effects on the input data. This is
+        #  particularly important when using a MultiKernel for which this routine gets called multiple times.
+        data_for_collapse = deepcopy(self.data)
+
+        # Make sure all coordinate have bounds - important for weighting and aggregating
+        # Only try and guess bounds on Dim Coords
+        for coord in data_for_collapse.coords(dim_coords=True):
+            if not coord.has_bounds() and len(coord.points) > 1:
+                coord.guess_bounds()
+                logging.warning("Creating guessed bounds as none exist in file")
+
         if isinstance(kernel, iris.analysis.WeightedAggregator) and \
                         'latitude' in [c.standard_name for c in self.coords]:
             # If this is a list we can calculate weights using the first item (all variables should be on
             # same grid)
-            data_for_weights = self.data[0] if isinstance(self.data, list) else self.data
+            data_for_weights = data_for_collapse[0] if isinstance(data_for_collapse, list) else data_for_collapse
             # Weights to correctly calculate areas.
             ag_args['weights'] = iris.analysis.cartography.area_weights(data_for_weights)
         elif not isinstance(kernel, iris.analysis.Aggregator):
             raise ClassNotFoundError('Error - unexpected aggregator type.')
 
-        # Before we remove the coordinates which need to be partially collapsed we take a copy of the data. We need
-        #  this so that the aggregation doesn't have any side effects on the input data. This is particularly important
-        #  when using a MultiKernel for which this routine gets called multiple times.
-        data_for_collapse = deepcopy(self.data)
-
         # The aux factories which depend on any of those coordinates can't do without them, so take them out as well. We
         #  put them back in when the coordinates have been collapsed.
         factories = []
@@ -128,16 +135,6 @@ class GriddedCollapsor(object):
         from cis.data_io.gridded_data import GriddedDataList
         from cis.aggregation.collapse_kernels import MultiKernel
 
-        # Make sure all coordinate have bounds - important for weighting and aggregating
-        # Only try and guess bounds on Dim Coords
-        for coord in self.data.coords(dim_coords=True):
-            if not coord.has_bounds() and len(coord.points) > 1:
-                coord.guess_bounds()
-                logging.warning("Creating guessed bounds as none exist in file")
-                new_coord_number = self.data.coord_dims(coord)
-                self.data.remove_coord(coord.name())
-                self.data.add_dim_coord(coord, new_coord_number)
-
         output = GriddedDataList([])
         if isinstance(kernel, MultiKernel):
             for sub_kernel in kernel.sub_kernels:
-- 
2.43.0


From e0099b842b13860d0df332235a76d478cf3e1f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:24 +0000
Subject: [PATCH 49/86] fix: do not add guessed bounds to the sample being
 collocated onto

---
 cis/collocation/col_implementations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 3c549e6..62f45ba 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -826,6 +826,8 @@ class GeneralGriddedCollocator(Collocator):
             # Ensure that bounds exist.
             if not coord.has_bounds():
                 logging.warning("Creating guessed bounds as none exist in file")
+                # The sample itself shouldn't be changed
+                coord = coords[ci] = coord.copy()
                 coord.guess_bounds()
             shape.append(coord.shape[0])
             output_coords.append(coord)
-- 
2.43.0


From f53c2c669433e7e93cf8860eba28d1e258560160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:43 +0000
Subject: [PATCH 50/86] fix: refuse data whose coordinates have other
 dimensions in lists of data

---
 cis/data_io/common_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/common_data.py b/cis/data_io/common_data.py
index c27f174..9633e07 100644
--- a/cis/data_io/common_data.py
+++ b/cis/data_io/common_data.py
@@ -295,7 +295,7 @@ class CommonDataList(list):
                 raise ValueError("Incompatible data: {} must have the same number of coordinates as the first element "
                                  "in this list.".format(that_class))
             for this_coord, that_coord in zip(self.coords(), p_object.coords()):
-                if any([(a != b) for a, b in zip(this_coord.points.shape, that_coord.points.shape)]):
+                if this_coord.points.shape != that_coord.points.shape:
                     raise ValueError("Given coordinate {} has shape {} which is "
                                      "incompatible with {}.".format(that_coord.name(),
                                                                     that_coord.shape,
-- 
2.43.0


From 3fbb32ed374cc4c28a7608bcf5e7f7aa8ccf534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:43 +0000
Subject: [PATCH 51/86] fix: slices and sums of lists of gridded data are lists
 of gridded data

---
 cis/data_io/gridded_data.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 2b1a169..5e5ede5 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -436,6 +436,13 @@ class GriddedDataList(iris.cube.CubeList, CommonDataList):
         """
         return True
 
+    def __add__(self, rhs):
+        # The methods of CubeList would make a plain CubeList
+        return CommonDataList.__add__(self, rhs)
+
+    def __getitem__(self, item):
+        return CommonDataList.__getitem__(self, item)
+
     def append(self, p_object):
         if isinstance(p_object, iris.cube.Cube):
             p_object = make_from_cube(p_object)
-- 
2.43.0


From 0dbf55a04c39f72527b6e988e6df616a209278b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:43 +0000
Subject: [PATCH 52/86] fix: check data inserted in lists of data as well

---
 cis/data_io/common_data.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/common_data.py b/cis/data_io/common_data.py
index 9633e07..a24800f 100644
--- a/cis/data_io/common_data.py
+++ b/cis/data_io/common_data.py
@@ -273,13 +273,13 @@ class CommonDataList(list):
         """
         raise NotImplementedError
 
-    def append(self, p_object):
+    def _check_compatible(self, p_object):
         """
-        Append a compatible object to this list
+        Check that an object can be added to this list
 
         :param UngriddedData or GriddedData p_object:
         :return: None
-        :raises TypeError: If the objects being added are of the wrong type (i.e. Gridded versus Ungridded).
+        :raises TypeError: If the object being added is of the wrong type (i.e. Gridded versus Ungridded).
         :raises ValueError: If the coordinates aren't compatible with each other.
         """
         this_class = self.__class__.__name__
@@ -301,8 +301,34 @@ class CommonDataList(list):
                                                                     that_coord.shape,
                                                                     this_coord.shape))
 
+    def append(self, p_object):
+        """
+        Append a compatible object to this list
+
+        :param UngriddedData or GriddedData p_object:
+        :return: None
+        :raises TypeError: If the objects being added are of the wrong type (i.e. Gridded versus Ungridded).
+        :raises ValueError: If the coordinates aren't compatible with each other.
+        """
+        self._check_compatible(p_object)
         super(CommonDataList, self).append(p_object)
-        return
+
+    def insert(self, index, p_object):
+        """
+        Insert a compatible object in this list
+
+        :param int index: The index to insert before
+        :param UngriddedData or GriddedData p_object:
+        :return: None
+        :raises TypeError: If the objects being added are of the wrong type (i.e. Gridded versus Ungridded).
+        :raises ValueError: If the coordinates aren't compatible with each other.
+        """
+        self._check_compatible(p_object)
+        super(CommonDataList, self).insert(index, p_object)
+
+    def __iadd__(self, rhs):
+        self.extend(rhs)
+        return self
 
     def extend(self, iterable):
         # This will raise a TypeError if the objects being added are of the wrong type (i.e. Gridded versus Ungridded).
-- 
2.43.0


From af264315d98f8e214bc4da817df0c2ea717e40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:50 +0000
Subject: [PATCH 53/86] fix: take a single subset limit as both the start and
 the end of the range

---
 cis/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cis/parse.py b/cis/parse.py
index 94621a1..d4a9b5d 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -535,6 +535,10 @@ def get_subset_limits(subsetlimits, parser):
             limit1 = match.group('start')
             limit2 = match.group('end')
 
+            if limit2 is None and dim_name.lower() not in ['t', 'time']:
+                # A single value is both the start and the end of the range
+                limit2 = limit1
+
             # If the dimension is specified as x, y, z, or t, assume that the dimension is spatial or temporal in the
             # obvious way. Otherwise, parse what is found as a date/time or number.
             if dim_name.lower() == 't' or dim_name.lower() == 'time':
-- 
2.43.0


From 97c09c2079ab3f323067d5039cf419947a52ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:50 +0000
Subject: [PATCH 54/86] fix: take incomplete date/times of ranges as the
 earliest or latest compatible ones, not as today's

---
 cis/parse.py          |  2 +-
 cis/parse_datetime.py | 23 +++++++++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index d4a9b5d..6f86c53 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -546,7 +546,7 @@ def get_subset_limits(subsetlimits, parser):
                     limits = parse_partial_datetime(limit1, 'subset range date/time', parser)
                 else:
                     limits = [parse_datetime(limit1, 'subset range start date/time', parser),
-                              parse_datetime(limit2, 'subset range end date/time', parser)]
+                              parse_datetime(limit2, 'subset range end date/time', parser, latest=True)]
             elif dim_name.lower() in ['x', 'y', 'z']:
                 limits = [parse_float(limit1, 'subset range start coordinate', parser),
                           parse_float(limit2, 'subset range start coordinate', parser)]
diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index b108781..f157b8c 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -8,14 +8,23 @@ def parse_datetimestr_to_std_time(s):
     return cis_standard_time_unit.date2num(du.parse(s))
 
 
-def _parse_datetime(s):
+def _parse_datetime(s, latest=False):
     """Parse a date/time string.
 
     The string should be in an ISO 8601 format except that the date and time
-    parts may be separated by a space or colon instead of T.
+    parts may be separated by a space or colon instead of T, and that any trailing
+    components may be omitted.
+    :param s: String to parse
+    :param latest: Whether to use the latest date/time compatible with the components (rather than the earliest)
+    :return: datetime value
     """
     import dateutil.parser as du
-    return du.parse(s)
+    try:
+        partial = _parse_partial_datetime(s)
+    except ValueError:
+        # It might still be one of the many other formats
+        return du.parse(s)
+    return partial.max() if latest else partial.min()
 
 
 def _parse_partial_datetime(dt_string):
@@ -70,20 +79,22 @@ def parse_partial_datetime(dt_string, name, parser):
     return dt
 
 
-def parse_datetime(dt_string, name, parser):
+def parse_datetime(dt_string, name, parser, latest=False):
     """Parse a date/time string from the command line, reporting parse errors.
 
     The string should be in an ISO 8601 format except that the date and time
-    parts may be separated by a space or colon instead of T.
+    parts may be separated by a space or colon instead of T, and that any trailing
+    components may be omitted.
     :param dt_string: String to parse
     :param name:      A description of the argument used for error messages
     :param parser:    The parser used to report errors
+    :param latest:    Whether to use the latest date/time compatible with the components (rather than the earliest)
     :return: datetime value
     """
     if dt_string == 'None' or dt_string is None:
         return None
     try:
-        dt = _parse_datetime(dt_string)
+        dt = _parse_datetime(dt_string, latest)
     except ValueError:
         parser.error("'" + dt_string + "' is not a valid " + name)
         dt = None
-- 
2.43.0


From fa24933cf5c8a5e113aa9d1cd6a4e6a8e82e07c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:50 +0000
Subject: [PATCH 55/86] fix: refuse date/time steps which have other things
 than whole periods in them

---
 cis/parse_datetime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index f157b8c..1dabdb9 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -129,6 +129,9 @@ def _parse_datetime_delta(dt_string):
     date_tokens = re.findall('[0-9]*[A-Z]', date_string)
     time_tokens = re.findall('[0-9]*[A-Z]', time_string)
 
+    if not all(re.match('([0-9]+[A-Z])*$', string) for string in (date_string, time_string)):
+        raise ValueError("Date/Time step must be in ISO 8601 format, for example PY2M3DT4H5M6S")
+
     years = 0
     months = 0
     days = 0
-- 
2.43.0


From 6b87dc5cf24118e0cbdf0eb909a9fea2c26ea4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 56/86] fix: refuse malformed aggregation grids instead of
 collapsing the dimension

---
 cis/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/parse.py b/cis/parse.py
index 6f86c53..7ba1b13 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -454,7 +454,7 @@ def get_aggregate_grid(aggregategrid, parser):
     for seg in split_input:
         # Parse out dimension name and new grid spacing; the expected format is:
         # <dim_name>=[<start_value>,<end_value,<delta>]
-        match = re.match(r'(?P<dim>[^=]+)(?:=)?(?:\[(?P<start>[^],]+)?(?:,(?P<end>[^],]+))?(?:,(?P<delta>[^]]+))?\])?',
+        match = re.match(r'(?P<dim>[^=]+)(?:=)?(?:\[(?P<start>[^],]+)?(?:,(?P<end>[^],]+))?(?:,(?P<delta>[^]]+))?\])?$',
                          seg)
         if match is None or match.group('dim') is None:
             parser.error("A dimension for aggregation does not have a valid dimension name")
-- 
2.43.0


From 9763c271d267ab3c9b4886ab7a72e7eec77177c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 57/86] fix: take incomplete date/times of aggregation grids as
 the earliest or latest compatible ones

---
 cis/parse.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 7ba1b13..b057588 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -443,7 +443,8 @@ def get_aggregate_grid(aggregategrid, parser):
     :param parser:        The parser used to report errors
     :return: The parsed datagroups as a list of dictionaries
     """
-    from cis.parse_datetime import parse_as_number_or_datetime, parse_as_number_or_datetime_delta
+    from datetime import timedelta
+    from cis.parse_datetime import parse_as_number_or_datetime, parse_as_number_or_datetime_delta, parse_datetime
 
     # Split into the limits for each dimension.
     split_input = split_outside_brackets(aggregategrid)
@@ -470,9 +471,14 @@ def get_aggregate_grid(aggregategrid, parser):
         else:
             dim_name = match.group('dim')
 
-            start_parsed = parse_as_number_or_datetime(match.group('start'))
-            end_parsed = parse_as_number_or_datetime(match.group('end'))
             delta_parsed = parse_as_number_or_datetime_delta(match.group('delta'))
+            if isinstance(delta_parsed, timedelta):
+                # Any trailing components of the date/times may be omitted
+                start_parsed = parse_datetime(match.group('start'), 'aggregation start date/time', parser)
+                end_parsed = parse_datetime(match.group('end'), 'aggregation end date/time', parser, latest=True)
+            else:
+                start_parsed = parse_as_number_or_datetime(match.group('start'))
+                end_parsed = parse_as_number_or_datetime(match.group('end'))
 
             if dim_name.lower() == 'x':
                 if not start_parsed <= end_parsed:
-- 
2.43.0


From 113a303a344cb8d05bae71bb9c434891050616a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 58/86] fix: refuse distances which have other things than a
 number and its units in them

---
 cis/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/utils.py b/cis/utils.py
index aca2489..5b490ca 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -537,7 +537,7 @@ def split_into_float_and_units(measurement):
     measurement = measurement.replace(measurement_value[0], " ")
 
     # Match any strings of characters, which should be units
-    measurement_units = re.findall(r'[a-zA-z]+', measurement)
+    measurement_units = re.findall(r'[^\s]+', measurement)
 
     if len(measurement_units) > 1:
         raise InvalidCommandLineOptionError("More than one unit found")
-- 
2.43.0


From 7f6dac77079b6f1353d12c5c195936aacd2aff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:20 +0000
Subject: [PATCH 59/86] fix: remove all of the blanks when splitting lists of
 names

---
 cis/parse.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index b057588..c9ae7fb 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -698,12 +698,8 @@ def multi_split(s, seps):
         for seq in s:
             res += seq.split(sep)
 
-    for i in res:
-        # Remove empty strings
-        if not i:
-            res.pop(res.index(i))
-
-    return res
+    # Remove empty strings
+    return [i for i in res if i]
 
 
 def check_nothing(item, parser):
-- 
2.43.0


From ecfd724bd2e428113c91c480effe33fb61c813e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 60/86] fix: save the collocated data of all of the data
 groups, not of just the last

---
 cis/cis_main.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 110e0ae..94d9329 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -93,12 +93,20 @@ def col_cmd(main_arguments):
 
     kernel = get_kernel(kern_name)(**kern_options) if kern_name else None
 
+    output = None
     for input_group in main_arguments.datagroups:
         # Then collocate each datagroup
         data = DataReader().read_single_datagroup(input_group)
-        output = data.collocated_onto(sample_data, how=col_name, kernel=kernel,
-                                      missing_data_for_missing_sample=missing_data_for_missing_sample, **col_options)
-        output.save_data(main_arguments.output)
+        collocated = data.collocated_onto(sample_data, how=col_name, kernel=kernel,
+                                          missing_data_for_missing_sample=missing_data_for_missing_sample,
+                                          **col_options)
+        if output is None:
+            output = collocated
+        else:
+            output.extend(collocated)
+
+    # There is only one output file, with the variables of all of the groups
+    output.save_data(main_arguments.output)
 
 
 def subset_cmd(main_arguments):
-- 
2.43.0


From 556e7c27a2ee1c747bd5d7dc703eb4f42e9bbe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:50 +0000
Subject: [PATCH 61/86] fix: give data output files the extension .nc also when
 their names have dots in them

---
 cis/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/parse.py b/cis/parse.py
index c9ae7fb..29c4758 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -806,7 +806,9 @@ def _split_output_if_includes_variable_name(arguments, parser):
 
 def _validate_output_file(arguments, parser, default_ext='.nc'):
     _split_output_if_includes_variable_name(arguments, parser)
-    if not os.path.splitext(arguments.output)[1]:
+    extension = os.path.splitext(arguments.output)[1]
+    # Data are always written to .nc files, whereas plots can have other extensions
+    if not extension or (default_ext == '.nc' and extension != default_ext):
         arguments.output += default_ext
     if _file_already_exists_and_no_overwrite(arguments):
         parser.exit(status=0, message="No operation performed")
-- 
2.43.0


From 09c09218ad261c8efbfd939b92f4a3e7eb1fe1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 62/86] fix: leave out directories which match wildcards of
 filenames

---
 cis/data_io/data_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index ac65da7..90ae11d 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -31,7 +31,8 @@ def expand_filelist(filelist):
             filelist = glob(element)
             filelist.sort()
             for filename in filelist:
-                file_set.add(filename)
+                if os.path.isfile(filename):
+                    file_set.add(filename)
         elif os.path.isdir(element):
             filelist = os.listdir(element)
             filelist.sort()
-- 
2.43.0


From ef6ec9136f694e562d7f3afb1df52e5e0da90851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 63/86] fix: save data of which the name is already taken in
 the file under another name instead of not at all

---
 cis/data_io/write_netcdf.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/cis/data_io/write_netcdf.py b/cis/data_io/write_netcdf.py
index c3a418a..23ff61a 100644
--- a/cis/data_io/write_netcdf.py
+++ b/cis/data_io/write_netcdf.py
@@ -86,6 +86,36 @@ def __check_disk_space(filepath, data):
                             .format(path=filepath, free=sizeof_fmt(available), size=sizeof_fmt(data.data.nbytes)))
 
 
+def __holds_data(var, data):
+    """
+    Are the values of a netCDF variable just those of the data (including where they are missing)?
+    :param var: netCDF variable
+    :param data: LazyData to compare it with
+    :return bool: True if they are the same
+    """
+    import numpy as np
+
+    stored, values = var[:], data.data.flatten()
+    return (stored.shape == values.shape and
+            np.array_equal(np.ma.getmaskarray(stored), np.ma.getmaskarray(values)) and
+            np.array_equal(np.ma.compressed(stored), np.ma.compressed(values)))
+
+
+def __get_unused_name(nc_file, name, data):
+    """
+    Get a name for a variable which isn't already taken by other data in the file
+    :param nc_file: netCDF file to which to write
+    :param str name: The preferred name
+    :param data: LazyData for variable to write
+    :return str: The name, followed by a number if there are other data of that name
+    """
+    unused, n = name, 0
+    while unused in nc_file.variables and not __holds_data(nc_file.variables[unused], data):
+        n += 1
+        unused = "{}_{}".format(name, n)
+    return unused
+
+
 def __create_variable(nc_file, data, prefer_standard_name=False):
     """Creates and writes a variable to a netCDF file.
     :param nc_file: netCDF file to which to write
@@ -102,6 +132,7 @@ def __create_variable(nc_file, data, prefer_standard_name=False):
     if (name is None) or prefer_standard_name:
         if (data.metadata.standard_name is not None) and (len(data.metadata.standard_name) > 0):
             name = data.metadata.standard_name
+    name = __get_unused_name(nc_file, name, data)
     out_type = types[str(data.data.dtype)]
     logging.info("Creating variable: {name}({index}) {type}".format(name=name, index=index_name, type=out_type))
     if name not in nc_file.variables:
-- 
2.43.0


From 39ac8da1f6734550797abe29d8c7d5b515085274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 64/86] fix: do not ignore the global options given before the
 command

---
 cis/parse.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 29c4758..5ca5639 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -46,11 +46,13 @@ class AliasedSubParsersAction(argparse._SubParsersAction):
         return parser
 
 
-def initialise_top_parser():
+def initialise_global_options(**kwargs):
     """
-    The parser to which all arguments are initially passed
+    The options which can be given both before and after the command
+
+    :param kwargs: Arguments of the parser
     """
-    global_options = argparse.ArgumentParser(add_help=False)
+    global_options = argparse.ArgumentParser(add_help=False, **kwargs)
     verbosity_group = global_options.add_mutually_exclusive_group()
     verbosity_group.add_argument("-v", "--verbose", action='count',
                                  help="Increase the level of logging information output to screen to include "
@@ -61,27 +63,38 @@ def initialise_top_parser():
     global_options.add_argument("--force-overwrite", action='store_true',
                                 help="Do not prompt when an output file already exists - always overwrite. This can "
                                      "also be set by setting the 'CIS_FORCE_OVERWRITE' environment variable to 'TRUE'")
+    return global_options
+
+
+def initialise_top_parser():
+    """
+    The parser to which all arguments are initially passed
+    """
+    global_options = initialise_global_options()
+    # The same options can be given after the command. There they must not have defaults, which would otherwise replace
+    # what was given before the command.
+    command_options = initialise_global_options(argument_default=argparse.SUPPRESS)
 
     parser = argparse.ArgumentParser("cis", parents=[global_options])
     parser.register('action', 'parsers', AliasedSubParsersAction)
     subparsers = parser.add_subparsers(dest='command')
-    plot_parser = subparsers.add_parser("plot", help="Create plots", argument_default=argparse.SUPPRESS, parents=[global_options])
+    plot_parser = subparsers.add_parser("plot", help="Create plots", argument_default=argparse.SUPPRESS, parents=[command_options])
     add_plot_parser_arguments(plot_parser)
-    info_parser = subparsers.add_parser("info", help="Get information about a file", parents=[global_options])
+    info_parser = subparsers.add_parser("info", help="Get information about a file", parents=[command_options])
     add_info_parser_arguments(info_parser)
-    col_parser = subparsers.add_parser("collocate", aliases=['col'], help="Perform collocation", parents=[global_options])
+    col_parser = subparsers.add_parser("collocate", aliases=['col'], help="Perform collocation", parents=[command_options])
     add_col_parser_arguments(col_parser)
-    aggregate_parser = subparsers.add_parser("aggregate", aliases=['agg'], help="Perform aggregation", parents=[global_options])
+    aggregate_parser = subparsers.add_parser("aggregate", aliases=['agg'], help="Perform aggregation", parents=[command_options])
     add_aggregate_parser_arguments(aggregate_parser)
-    subset_parser = subparsers.add_parser("subset", aliases=['sub'], help="Perform subsetting", parents=[global_options])
+    subset_parser = subparsers.add_parser("subset", aliases=['sub'], help="Perform subsetting", parents=[command_options])
     add_subset_parser_arguments(subset_parser)
-    eval_parser = subparsers.add_parser("eval", help="Evaluate a numeric expression", parents=[global_options])
+    eval_parser = subparsers.add_parser("eval", help="Evaluate a numeric expression", parents=[command_options])
     add_eval_parser_arguments(eval_parser)
     stats_parser = subparsers.add_parser("stats", help="Perform statistical comparison of two datasets",
-                                         parents=[global_options])
+                                         parents=[command_options])
     add_stats_parser_arguments(stats_parser)
     collapse_parser = subparsers.add_parser("collapse", help="Collapse a gridded dataset over specified dimensions",
-                                            parents=[global_options])
+                                            parents=[command_options])
     add_collapse_parser_arguments(collapse_parser)
     subparsers.add_parser("version", help="Display the CIS version number")
     return parser
-- 
2.43.0


From 9b1aa888433e697f1995d5b6ba6340607eacfa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:00 +0000
Subject: [PATCH 65/86] fix: name the file when asking whether to overwrite it

---
 cis/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/parse.py b/cis/parse.py
index 5ca5639..b6c0dd4 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -841,7 +841,7 @@ def _file_already_exists_and_no_overwrite(arguments):
         else:
             overwrite = None
             while overwrite not in ['y', 'n', '']:
-                overwrite = input("The file: {} already exists. Overwrite? (y/[n])")
+                overwrite = input("The file: {} already exists. Overwrite? (y/[n])".format(arguments.output))
             if overwrite != 'y':
                 return True
             # Otherwise False
-- 
2.43.0


From 566a825b57026863e44ba2aaebb2f6a47e924b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:09 +0000
Subject: [PATCH 66/86] fix: give the aliases to the variables which they are
 given for when others are wildcards

---
 cis/data_io/data_reader.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index 90ae11d..57eb178 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -84,33 +84,35 @@ class DataReader(object):
         variables = listify(variables)
         aliases = listify(aliases) if aliases else None
 
-        variables = self._expand_wildcards(variables, filenames, product)
+        if aliases and len(aliases) != len(variables):
+            raise ValueError("Number of aliases does not match number of variables")
+
+        variables, aliases = self._expand_wildcards(variables, filenames, product, aliases)
 
         data_list = None
-        for idx, variable in enumerate(variables):
+        for variable, alias in zip(variables, aliases):
             var_data = self._get_data_func(filenames, variable, product)
             var_data.filenames = filenames
-            if aliases:
-                try:
-                    var_data.alias = aliases[idx]
-                except IndexError:
-                    raise ValueError("Number of aliases does not match number of variables")
+            if alias is not None:
+                var_data.alias = alias
             if data_list is None:
                 data_list = GriddedDataList() if var_data.is_gridded else UngriddedDataList()
             data_list.append(var_data)
         assert data_list is not None
         return data_list
 
-    def _expand_wildcards(self, variables, filenames, product):
+    def _expand_wildcards(self, variables, filenames, product, aliases=None):
         """
         Convert any wildcards into actual variable names by inspecting the file
 
         :param variables: List of variables names, some of which may be wilcards
         :param filenames: Filenames
-        :return: List of variable names to use.
+        :param aliases: List of the aliases of the variables (optional)
+        :return: List of variable names to use, and list of the alias of each of them (None if it has no alias)
         """
         valid_vars = []
-        for variable in variables:
+        valid_aliases = []
+        for variable, alias in zip(variables, aliases or [None] * len(variables)):
             is_wildcard = any(wildcard in variable for wildcard in ['*', '?', ']', '}'])
             file_variables = None
             if is_wildcard:
@@ -121,12 +123,19 @@ class DataReader(object):
                     logging.warning("No variables matching wildcard '%s' found in file." % variable)
                 else:
                     logging.info("Wildcard '%s' found matching variables: %s" % (variable, matches))
+                if alias == variable:
+                    # The alias is just the default, the wildcard doesn't name the variables which match it
+                    alias = None
+                elif alias is not None and len(matches) > 1:
+                    raise ValueError("Number of aliases does not match number of variables")
                 valid_vars.extend(matches)
+                valid_aliases.extend([alias] * len(matches))
             else:
                 valid_vars.append(variable)
+                valid_aliases.append(alias)
         if len(valid_vars) == 0:
             raise ValueError("No matching variables could be found for the variables supplied")
-        return valid_vars
+        return valid_vars, valid_aliases
 
     def read_datagroups(self, datagroups):
         """
-- 
2.43.0


From e0162fe60094f5c041612a46c976bc3f884e04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:45 +0000
Subject: [PATCH 67/86] fix: leave out all of the abstract classes when looking
 for plugins

---
 cis/plugin.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cis/plugin.py b/cis/plugin.py
index c0149d1..edd54a8 100644
--- a/cis/plugin.py
+++ b/cis/plugin.py
@@ -71,9 +71,7 @@ def find_plugin_classes(parent_class, built_in_module, verbose=True):
     subclasses = get_all_subclasses(parent_class, built_in_module)
     all_classes = plugin_classes + subclasses
 
-    for subclass in all_classes:
-        if subclass.__name__.startswith('abstract') or subclass.__name__.startswith('Abstract'):
-            all_classes.remove(subclass)
+    all_classes = [subclass for subclass in all_classes if not subclass.__name__.startswith(('abstract', 'Abstract'))]
 
     all_classes = sorted(all_classes, key=lambda subclass: subclass.__name__)
 
-- 
2.43.0


From f407052639a6cd275d83df9b248bdf556d87f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 68/86] fix: match signatures of products which have
 alternatives with the whole of the name of a file

---
 cis/data_io/products/AProduct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/products/AProduct.py b/cis/data_io/products/AProduct.py
index a061f30..f3d5e1d 100644
--- a/cis/data_io/products/AProduct.py
+++ b/cis/data_io/products/AProduct.py
@@ -164,8 +164,8 @@ def __get_class(filename, product=None):
             patterns = class_instance.get_file_signature()
             for pattern in patterns:
                 # Match the pattern - re.I allows for case insensitive matches.
-                # Appending '$' to the pattern ensures we match the whole string
-                if re.match(pattern+'$', basename, re.I) is not None:
+                # Appending '\Z' to the (grouped) pattern ensures we match the whole string
+                if re.match('(?:' + pattern + r')\Z', basename, re.I) is not None:
                     logging.debug("Found product class " + cls.__name__ + " matching regex pattern " + pattern)
                     errors = class_instance.get_file_type_error(filename)
                     if errors is None:
-- 
2.43.0


From 5cc48a843d392f49f48a49d40bad08305c077b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 69/86] fix: report what went wrong in a product also if the
 exception has no message

---
 cis/data_io/products/AProduct.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cis/data_io/products/AProduct.py b/cis/data_io/products/AProduct.py
index f3d5e1d..8bebd78 100644
--- a/cis/data_io/products/AProduct.py
+++ b/cis/data_io/products/AProduct.py
@@ -203,7 +203,7 @@ def get_data(filenames, variable, product=None):
         logging.debug("Error in product plugin %s:\n%s" % (product_cls.__name__, traceback.format_exc()))
         raise ProductPluginException("An error occurred retrieving data using the product %s. Check that this "
                                      "is the correct product plugin for your chosen data. Exception was %s: %s."
-                                     % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+                                     % (product_cls.__name__, type(e).__name__, e.args[0] if e.args else e), e)
 
 
 def get_coordinates(filenames, product=None):
@@ -225,7 +225,7 @@ def get_coordinates(filenames, product=None):
         logging.debug("Error in product plugin %s:\n%s" % (product_cls.__name__, traceback.format_exc()))
         raise ProductPluginException("An error occurred retrieving coordinates using the product %s. Check that this "
                                      "is the correct product plugin for your chosen data. Exception was %s: %s."
-                                     % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+                                     % (product_cls.__name__, type(e).__name__, e.args[0] if e.args else e), e)
 
 
 def get_variables(filenames, product=None, data_type=None):
@@ -247,7 +247,7 @@ def get_variables(filenames, product=None, data_type=None):
         logging.debug("Error in product plugin %s:\n%s" % (product_cls.__name__, traceback.format_exc()))
         raise ProductPluginException("An error occurred retrieving variables using the product %s. Check that this "
                                      "is the correct product plugin for your chosen data. Exception was %s: %s."
-                                     % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+                                     % (product_cls.__name__, type(e).__name__, e.args[0] if e.args else e), e)
 
 
 def get_file_format(filenames, product=None):
@@ -269,12 +269,12 @@ def get_file_format(filenames, product=None):
         raise ProductPluginException(
             "An error occurred retrieving the file format using the product %s. Check that this "
             "is the correct product plugin for your chosen data. Exception was %s: %s."
-            % (product_cls.__name__, type(e).__name__, e.args[0]), e)
+            % (product_cls.__name__, type(e).__name__, e.args[0] if e.args else e), e)
 
     try:
         product_cls().create_coords(filenames)
     except Exception as ex:
-        raise FileFormatError(error_list=['Could not read coordinates from the file', ex.args[0]])
+        raise FileFormatError(error_list=['Could not read coordinates from the file', ex.args[0] if ex.args else str(ex)])
     return file_format
 
 
-- 
2.43.0


From ae0b95eb049a6a3ab3497614023895ce8bc27282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:33 +0000
Subject: [PATCH 70/86] fix: draw gridded data the right way round whichever
 coordinates are on the axes

---
 cis/plotting/genericplot.py | 68 +++++++++++++++----------------------
 1 file changed, 27 insertions(+), 41 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index b1aaece..18f3980 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -196,7 +196,7 @@ class Generic2DPlot(APlot):
             x = self.xaxis.points if self.MODE == POINT_MODE else self.xaxis.contiguous_bounds()
             y = self.yaxis.points if self.MODE == POINT_MODE else self.yaxis.contiguous_bounds()
             # We need to do some more unpacking, and possibly meshgridding for gridded data
-            data, x, y = self._cube_manipulation(data_object, x, y)
+            data, x, y = self._cube_manipulation(data_object, x, y, self.xaxis, self.yaxis)
         else:
             x = self.xaxis.points
             y = self.yaxis.points
@@ -210,14 +210,16 @@ class Generic2DPlot(APlot):
         return data, x, y
 
     @staticmethod
-    def _cube_manipulation(cube, x, y):
+    def _cube_manipulation(cube, x, y, xaxis=None, yaxis=None):
         """
-        Optionally transpose the data and make a mesh-grid, taking into account auxilliary coordinates
-        A lot of this logic closely follows that used in iris.qplt.
+        Orientate the data so that its last dimension is the one along the x axis, and for points (rather than bounds)
+        make a mesh-grid.
 
         :param Cube cube: An iris Cube
-        :param NDarray x: a numpy array of x points
-        :param NDarray y: a numpy array of y points
+        :param NDarray x: a numpy array of x points (or bounds)
+        :param NDarray y: a numpy array of y points (or bounds)
+        :param Coord xaxis: The coordinate on the x axis (by default as chosen by iris)
+        :param Coord yaxis: The coordinate on the y axis (by default as chosen by iris)
         :return: data, x, and y and as numpy arrays
         """
         import iris.plot as iplt
@@ -228,44 +230,28 @@ class Generic2DPlot(APlot):
         no_of_dims = len(cube.shape)
         data = cube.data
 
-        plot_defn = iplt._get_plot_defn(cube, iris.coords.POINT_MODE, ndims=no_of_dims)
-        if plot_defn.transpose:
+        x_dims = cube.coord_dims(xaxis) if xaxis is not None else ()
+        y_dims = cube.coord_dims(yaxis) if yaxis is not None else ()
+        if no_of_dims == 2 and (len(x_dims) == 1 or len(y_dims) == 1):
+            transpose = x_dims == (0,) or y_dims == (1,)
+        else:
+            transpose = iplt._get_plot_defn(cube, iris.coords.POINT_MODE, ndims=no_of_dims).transpose
+        if transpose:
             data = data.T
             x = x.T
             y = y.T
 
-        # Check for auxiliary coordinates.
-        aux_coords = False
-        for coord in cube[0].coords(dim_coords=False):
-            aux_coords = True
         if no_of_dims == 2:
-            # If we have found some auxiliary coordinates in the data and the shape of x data or y data is the same as
-            # data assume we have a hybrid coordinate (which is two dimensional b nature. Perhaps need a more robust
-            # method for detecting this.
-            if aux_coords and (data.shape == x.shape or data.shape == y.shape):
-                # Work out which set of data needs expanding to match the coordinates of the others. Note there can only
-                # ever be one hybrid coordinate axis.
-                if y.shape == data.shape:
-                    if y[:, 0].shape == x.shape:
-                        x, _y = np.meshgrid(x, y[0, :])
-                    elif y[0, :].shape == x.shape:
-                        x, _y = np.meshgrid(x, y[:, 0])
-                elif x.shape == data.shape:
-                    if x[:, 0].shape == y.shape:
-                        y, _x = np.meshgrid(y, x[0, :])
-                    elif x[0, :].shape == y.shape:
-                        y, _x = np.meshgrid(y, x[:, 0])
-            else:
-                if len(x) == data.shape[-1]:
-                    try:
-                        data, x = add_cyclic_point(data, x)
-                    except ValueError as e:
-                        logging.warn('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
-                    x, y = np.meshgrid(x, y)
-                elif len(y) == data.shape[-1]:
-                    try:
-                        data, y = add_cyclic_point(data, y)
-                    except ValueError as e:
-                        logging.warn('Unable to add cyclic data point for y-axis. Error was: ' + e.args[0])
-                    y, x = np.meshgrid(y, x)
+            if x.shape == data.shape[1:] and y.shape == data.shape[:1]:
+                try:
+                    data, x = add_cyclic_point(data, x)
+                except ValueError as e:
+                    logging.warn('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
+                x, y = np.meshgrid(x, y)
+            # One of the axes might be a hybrid coordinate (which is two dimensional by nature), then the other one needs
+            # expanding
+            elif y.shape == data.shape and x.shape == data.shape[1:]:
+                x, _y = np.meshgrid(x, y[:, 0])
+            elif x.shape == data.shape and y.shape == data.shape[:1]:
+                _x, y = np.meshgrid(x[0, :], y)
         return data, x, y
-- 
2.43.0


From d98bb8f84977a7f5bf9be90124fbb9fa3944c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:33 +0000
Subject: [PATCH 71/86] fix: repeat the first column only for longitudes which
 go all the way round

---
 cis/plotting/genericplot.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index 18f3980..6e99de2 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -224,7 +224,6 @@ class Generic2DPlot(APlot):
         """
         import iris.plot as iplt
         import iris
-        from cartopy.util import add_cyclic_point
         import numpy as np
 
         no_of_dims = len(cube.shape)
@@ -243,10 +242,8 @@ class Generic2DPlot(APlot):
 
         if no_of_dims == 2:
             if x.shape == data.shape[1:] and y.shape == data.shape[:1]:
-                try:
-                    data, x = add_cyclic_point(data, x)
-                except ValueError as e:
-                    logging.warn('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
+                data, x = Generic2DPlot._close_longitude(data, x, xaxis, axis=1)
+                data, y = Generic2DPlot._close_longitude(data, y, yaxis, axis=0)
                 x, y = np.meshgrid(x, y)
             # One of the axes might be a hybrid coordinate (which is two dimensional by nature), then the other one needs
             # expanding
@@ -255,3 +252,25 @@ class Generic2DPlot(APlot):
             elif x.shape == data.shape and y.shape == data.shape[:1]:
                 _x, y = np.meshgrid(x[0, :], y)
         return data, x, y
+
+    @staticmethod
+    def _close_longitude(data, points, coord, axis):
+        """
+        Repeat the first longitude at the end if the points go all the way round the globe, so that there is no gap.
+
+        :param NDarray data: The data to be plotted
+        :param NDarray points: The points of the coordinate
+        :param Coord coord: The coordinate
+        :param int axis: The axis of the data along which the points are
+        :return: data and points
+        """
+        from cartopy.util import add_cyclic_point
+        import numpy as np
+
+        if coord is not None and coord.name().lower().startswith("lon") and len(points) > 1 and \
+                np.isclose(abs(points[-1] + (points[1] - points[0]) - points[0]), 360.0):
+            try:
+                data, points = add_cyclic_point(data, points, axis=axis)
+            except ValueError as e:
+                logging.warning('Unable to add cyclic data point for longitude. Error was: ' + e.args[0])
+        return data, points
-- 
2.43.0


From 6ed2341e0c9e62de1dfc068c5bfd4907f57c2c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:33 +0000
Subject: [PATCH 72/86] fix: convert times on the x axis of two dimensional
 plots to those of matplotlib

---
 cis/plotting/genericplot.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index 6e99de2..2909dfe 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -202,6 +202,13 @@ class Generic2DPlot(APlot):
             y = self.yaxis.points
             data = data_object.data
 
+        if self.xaxis.standard_name == 'time':
+            # Convert to matplotlib datetime
+            try:
+                x = self.xaxis.units.convert(x, 'days since 1970-01-01 00:00:00')
+            except ValueError as e:
+                logging.warning('Unable to convert the times on the x-axis. Error was: ' + e.args[0])
+
         logging.debug("Shape of x: " + str(x.shape))
         if y is not None:
             logging.debug("Shape of y: " + str(y.shape))
-- 
2.43.0


From 3361817ca60418f5cbe6868a77d0c91f57ff0658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:30 +0000
Subject: [PATCH 73/86] fix: choose axes along different dimensions for two
 dimensional plots of gridded data

---
 cis/plotting/plot.py | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 36aac20..a9893f9 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -86,20 +86,47 @@ def _try_coord(data, coord_dict):
     return coord
 
 
-def get_axis(d, axis, name=None):
+def _get_named_axis(d, name):
+    """
+    Find the Coord with the name given
+    :param CommonData d:
+    :param string name:
+    :return Coord: A single Coord or None if there is none with that name
+    """
+    return _try_coord(d, dict(name_or_coord=name)) or _try_coord(d, dict(standard_name=name))
+
+
+def get_axis(d, axis, name=None, other=None):
     """
     Guess the best Coord to use for the axis
     :param CommonData d:
     :param string axis:
     :param string name:
+    :param Coord other: The Coord on the other axis, if that is known (two dimensional gridded data only)
     :return Coord: A single Coord
     """
-    coord = _try_coord(d, dict(name_or_coord=name)) or _try_coord(d, dict(standard_name=name)) \
-            or _try_coord(d, dict(axis=axis))
+    from iris.cube import Cube
+
+    # The axes of two dimensional gridded data have to be along different dimensions
+    dim = None
+    if isinstance(d, Cube) and d.ndim == 2:
+        other_dims = d.coord_dims(other) if other is not None else ()
+        dim = 1 - other_dims[0] if len(other_dims) == 1 else ('X', 'Y').index(axis.upper())
+
+    coord = _get_named_axis(d, name)
+    if coord is None:
+        coord = _try_coord(d, dict(axis=axis))
+        if coord is not None and other is not None and dim is not None and dim not in d.coord_dims(coord):
+            coord = None
 
     # This is primarily for gridded data, but for Ungridded Data should just pick out the first Coord in the list.
     if coord is None:
         for c in d.coords():
+            if dim is not None:
+                if dim in d.coord_dims(c):
+                    coord = c
+                    break
+                continue
             if axis == 'X' or len(d.shape) == 1:
                 if c.shape[0] == d.shape[0]:
                     coord = c
@@ -348,9 +375,9 @@ def basic_plot(data, how=None, ax=None, xaxis=None, yaxis=None, projection=None,
             how = 'comparativescatter'
         xaxis_coord = xaxis
     else:
-        xaxis_coord = get_axis(data, 'X', xaxis)
+        xaxis_coord = get_axis(data, 'X', xaxis, _get_named_axis(data, yaxis) or _try_coord(data, dict(axis='Y')))
 
-    yaxis_coord = get_axis(data, 'Y', yaxis)
+    yaxis_coord = get_axis(data, 'Y', yaxis, xaxis_coord if not isinstance(xaxis, CommonData) else None)
 
     how = how or data._get_default_plot_type(xaxis_coord.standard_name == 'longitude'
                                              and yaxis_coord.standard_name == 'latitude')
-- 
2.43.0


From bc753aa47417dff006c7d2588ddabcb01ef79571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:38 +0000
Subject: [PATCH 74/86] fix: number the dimensions of standard coordinates by
 the cube, not by the list of dimension coordinates

---
 cis/data_io/gridded_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 5e5ede5..b40fd40 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -171,9 +171,10 @@ class GriddedData(iris.cube.Cube, CommonData):
         coords = self.coords(dim_coords=True)
         for name in HyperPoint.standard_names:
             coord_and_dim = None
-            for idx, coord in enumerate(coords):
+            for coord in coords:
                 if coord.standard_name == name:
-                    coord_and_dim = (coord, idx)
+                    # A dimension needn't have a coordinate, so the position in the list isn't that of the dimension
+                    coord_and_dim = (coord, self.coord_dims(coord)[0])
                     break
             ret_list.append(coord_and_dim)
 
-- 
2.43.0


From 62c79b8a6cca64c3e1a0d60bc14be71e7821466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:37 +0000
Subject: [PATCH 75/86] fix: take a variable with only the auxiliary dimension
 as auxiliary coordinate of GASSP data

---
 cis/data_io/products/NCAR_NetCDF_RAF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/NCAR_NetCDF_RAF.py b/cis/data_io/products/NCAR_NetCDF_RAF.py
index 3d9c5b0..edaeae4 100644
--- a/cis/data_io/products/NCAR_NetCDF_RAF.py
+++ b/cis/data_io/products/NCAR_NetCDF_RAF.py
@@ -271,7 +271,7 @@ class NCAR_NetCDF_RAF_variable_name_selector(object):
             #  the auxiliary dimension.
             else:
                 for v, dims in self._variable_dimensions[0].items():
-                    if dims[0] == aux_coords[0]:
+                    if tuple(dims) == (aux_coords[0],):
                         aux_coord_name = v
                         break
         return aux_coord_name
-- 
2.43.0


From d1245f4a20b51e46e22d48661d7811c4f08e0cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:12 +0000
Subject: [PATCH 76/86] fix: read EarthCARE data from all of the files given,
 not from the first only

---
 cis/data_io/products/EarthCARE.py | 39 +++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/cis/data_io/products/EarthCARE.py b/cis/data_io/products/EarthCARE.py
index 4911fdc..e8bf67d 100755
--- a/cis/data_io/products/EarthCARE.py
+++ b/cis/data_io/products/EarthCARE.py
@@ -49,6 +49,16 @@ def get_metadata_EC(var,optional_standard_name=None):
     return metadata
 
 
+def read_all(variables, index=Ellipsis):
+    """
+    Read (an index of) a variable of all of the files
+
+    :param variables: the Variable from each of the files
+    :param index: the index to read of each of them
+    :return: the data of the files one after the other, along the first dimension
+    """
+    return utils.concatenate([var[index] for var in variables])
+
 
 ################################################################
 class EarthCARE_MSI_ATL(AProduct):
@@ -137,6 +147,8 @@ class EarthCARE_MSI_ATL(AProduct):
             aVarMetadata = get_metadata_EC(reqdVarData[variable][0])
             #logging.info(str(aVarMetadata.shape))
             requiredShape = aVarMetadata.shape
+            # the dimension along which the files follow each other
+            fileDim = 0
         else:
             logging.info("Create coords with no variable given.")
 
@@ -162,13 +174,17 @@ class EarthCARE_MSI_ATL(AProduct):
                                  format(reqdVarData[variable][0].dimensions[aKnownDim[2]],
                                         str(aKnownDim[2])))
                     foundKnownDim=True
+                    if aKnownDim[2] == 0:
+                        fileDim = 1
                     requiredShapeList=list(requiredShape)
                     del requiredShapeList[aKnownDim[2]]
                     requiredShape=tuple(requiredShapeList)
                     logging.info(str(requiredShape))
+            if len(requiredShape) > 0:
+                requiredShape = (sum(v.shape[fileDim] for v in reqdVarData[variable]),) + tuple(requiredShape[1:])
 
 
-        longitude_data = data[longitude_var_name][0][:]
+        longitude_data = read_all(data[longitude_var_name])
         if( (variable is not None) and (len(longitude_data.shape) > len(requiredShape) ) ):
             logging.info("longitude data has more dims than that of required data, not adding to coords")
         else:
@@ -183,7 +199,7 @@ class EarthCARE_MSI_ATL(AProduct):
             coords.append(Coord(longitude_data_expanded, 
                                 longitude_data_expanded_metadata,"X"))
 
-        latitude_data = data[latitude_var_name][0][:]
+        latitude_data = read_all(data[latitude_var_name])
         if( (variable is not None) and (len(latitude_data.shape) > len(requiredShape) ) ):
             logging.info("latitude data has more dims than that of required data, not adding to coords")
         else:
@@ -198,7 +214,7 @@ class EarthCARE_MSI_ATL(AProduct):
             coords.append(Coord(latitude_data_expanded,
                                 latitude_data_expanded_metadata,"Y"))
 
-        time_data_masked = data[time_var_name][0][:]
+        time_data_masked = read_all(data[time_var_name])
         time_data_expanded=None
         b_is_time_data_of_reqd_dim = False
         if( (variable is not None) and (len(time_data_masked.shape) < len(requiredShape) ) ):
@@ -242,6 +258,8 @@ class EarthCARE_MSI_ATL(AProduct):
         if ( True == b_altitude_found ) :
             #sampleAltitude_metadata = get_metadata_EC(sampleAltitudeData[height_var_name][0])
             sampleAltitude_metadata = get_metadata_EC(sampleAltitudeData[height_var_name][0],"height")
+            sampleAltitude = read_all(sampleAltitudeData[height_var_name])
+            sampleAltitude_metadata.shape = sampleAltitude.shape
             if( (variable is not None) and (sampleAltitude_metadata.shape==requiredShape) ):
                 height_metadata = Metadata("altitude",long_name=sampleAltitude_metadata.long_name,
                         units=sampleAltitude_metadata.units,
@@ -249,7 +267,7 @@ class EarthCARE_MSI_ATL(AProduct):
                         shape=sampleAltitude_metadata.shape,
                         history=''
                         )
-                coords.append(Coord(sampleAltitudeData[height_var_name][0][:], height_metadata ,"Z"))
+                coords.append(Coord(sampleAltitude, height_metadata ,"Z"))
                 variables.append(height_var_name)
                 logging.info("Added height coord from variable {}".format(height_var_name))
             elif (variable is not None):
@@ -378,16 +396,16 @@ class EarthCARE_MSI_ATL(AProduct):
                     #this_data_masked = var[variable][0][:]
                     if ( 3 == len(dimnames) ):
                         if 0 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][thisDimNum,...]
+                            this_data_masked = read_all(var[variable], (thisDimNum, Ellipsis))
                         elif 1 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][:,thisDimNum,:]
+                            this_data_masked = read_all(var[variable], (slice(None), thisDimNum, slice(None)))
                         elif 2 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][...,thisDimNum]
+                            this_data_masked = read_all(var[variable], (Ellipsis, thisDimNum))
                     elif ( 2 == len(dimnames) ):
                         if 0 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][thisDimNum,...]
+                            this_data_masked = read_all(var[variable], (thisDimNum, Ellipsis))
                         elif 1 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][:,thisDimNum]
+                            this_data_masked = read_all(var[variable], (slice(None), thisDimNum))
                     else:
                         #should never be here
                         pass
@@ -405,6 +423,7 @@ class EarthCARE_MSI_ATL(AProduct):
                     logging.info("unrecongnised dimension in EarthCARE 3d data.")
                     raise NotImplementedError("unrecongnised dimension in EarthCARE 3d data.")
                 else:
-                    this_data_masked = var[variable][0][:]
+                    this_data_masked = read_all(var[variable])
+                    metadata.shape = this_data_masked.shape
                     return UngriddedData(this_data_masked, metadata, coords)
                 
\ No newline at end of file
-- 
2.43.0


From 13276e697cd922069d2ac27ffa6963678f12b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:04 +0000
Subject: [PATCH 77/86] fix: put auxiliary altitude and pressure fields of
 gridded NetCDF files on the dimensions they belong to

The field was attached to the first dimensions of the cube whatever its own dimensions were, so that a field of another
grid, or with its dimensions in another order, gave the points the height or pressure of other points.
---
 cis/data_io/products/gridded_NetCDF.py | 27 ++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/products/gridded_NetCDF.py b/cis/data_io/products/gridded_NetCDF.py
index b30c69f..a83c317 100644
--- a/cis/data_io/products/gridded_NetCDF.py
+++ b/cis/data_io/products/gridded_NetCDF.py
@@ -145,11 +145,30 @@ class NetCDF_Gridded(AProduct):
         :return:
         """
         from iris.coords import AuxCoord
+        import numpy as np
+
+        def _dims_of_same_grid(aux_cube):
+            # The dimensions of the cube which those of the field correspond to (not necessarily in the same order)
+            dims = []
+            for dim in range(aux_cube.ndim):
+                aux_dim_coords = aux_cube.coords(dimensions=dim, dim_coords=True)
+                for cube_dim in range(cube.ndim):
+                    dim_coords = cube.coords(dimensions=cube_dim, dim_coords=True)
+                    if cube_dim in dims or len(dim_coords) != len(aux_dim_coords) or \
+                            cube.shape[cube_dim] != aux_cube.shape[dim]:
+                        continue
+                    if all((a.var_name == c.var_name or a.name() == c.name()) and a.units == c.units and
+                           np.array_equal(a.points, c.points) for a, c in zip(aux_dim_coords, dim_coords)):
+                        dims.append(cube_dim)
+                        break
+                else:
+                    raise ValueError("{} is not on the grid of {}".format(aux_cube.name(), cube.name()))
+            return dims
 
         def _make_aux_coord_and_dims_from_geopotential(g_cube):
             from scipy.constants import g
             points = g_cube.data / g
-            dims = list(range(len(g_cube.shape)))
+            dims = _dims_of_same_grid(g_cube)
             coord = AuxCoord(points=points,
                              standard_name='altitude',
                              long_name='Geopotential height at layer midpoints',
@@ -159,7 +178,7 @@ class NetCDF_Gridded(AProduct):
             return coord, dims
 
         def _make_aux_coord_and_dims_from_geopotential_height(g_ht_cube):
-            dims = list(range(len(g_ht_cube.shape)))
+            dims = _dims_of_same_grid(g_ht_cube)
             coord = AuxCoord(points=g_ht_cube.data,
                              standard_name='altitude',
                              long_name='Geopotential height at layer midpoints',
@@ -169,7 +188,7 @@ class NetCDF_Gridded(AProduct):
             return coord, dims
 
         def _make_aux_coord_and_dims_from_air_pressure(aps_cube):
-            dims = list(range(len(aps_cube.shape)))
+            dims = _dims_of_same_grid(aps_cube)
             coord = AuxCoord(points=aps_cube.data,
                              standard_name='air_pressure',
                              long_name='Air Pressure',
@@ -189,7 +208,7 @@ class NetCDF_Gridded(AProduct):
                 aux_coord, dims = make_aux_coord(aux_cube)
                 cube.add_aux_coord(aux_coord, dims)
             except ValueError:
-                pass  # The field doesn't exist; that's OK we just won't add it.
+                pass  # The field doesn't exist, or it is on another grid; that's OK we just won't add it.
 
 
 class DisplayConstraint(iris.Constraint):
-- 
2.43.0


From 33f63fe29468bbbc17f56805867f6e625b563a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:10 +0000
Subject: [PATCH 78/86] fix: convert auxiliary altitude and pressure fields of
 gridded NetCDF files to the units of the coordinate

A field in hPa or km was labelled as Pa or m without being converted.
---
 cis/data_io/products/gridded_NetCDF.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cis/data_io/products/gridded_NetCDF.py b/cis/data_io/products/gridded_NetCDF.py
index a83c317..2fa508b 100644
--- a/cis/data_io/products/gridded_NetCDF.py
+++ b/cis/data_io/products/gridded_NetCDF.py
@@ -205,6 +205,9 @@ class NetCDF_Gridded(AProduct):
                                            display=standard_name)
             try:
                 aux_cube = gridded_data.load_cube(filenames, constraint)
+                for units in ('m', 'Pa'):
+                    if aux_cube.units != units and aux_cube.units.is_convertible(units):
+                        aux_cube.convert_units(units)
                 aux_coord, dims = make_aux_coord(aux_cube)
                 cube.add_aux_coord(aux_coord, dims)
             except ValueError:
-- 
2.43.0


From 770669bea33ac507a805ba3806540c5160e8b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:41 +0000
Subject: [PATCH 79/86] fix: read the CCI aerosol file of January 2011 whose
 time attributes are corrected

The correction used the time coordinate before it was created, so that reading the file failed with UnboundLocalError.
---
 cis/data_io/products/CCI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/CCI.py b/cis/data_io/products/CCI.py
index 9dbf4d7..c034666 100644
--- a/cis/data_io/products/CCI.py
+++ b/cis/data_io/products/CCI.py
@@ -150,7 +150,7 @@ class Aerosol_CCI_L3(NetCDF_Gridded):
             if "201101-ESACCI" in filename:
                 # Manually fix a bugged file
                 # (201101-ESACCI-L3C_AEROSOL-AER_PRODUCTS-AATSR-ENVISAT-ADV_MOTNHLY-v2.30.nc)
-                time_bounds = [convert_time_string_to_number(s, time_coord.units)
+                time_bounds = [convert_time_string_to_number(s, ESA_TIME_UNIT)
                                for s in ("20110101T000000Z", "20110131T235959Z")]
             else:
                 raise ValueError("Bad time_coverage attribute in {}".format(filename))
-- 
2.43.0


From 1ed6ec79b2df87e556b328ff7391bf71eddef058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:27 +0000
Subject: [PATCH 80/86] fix: keep the fractional part of the periods which CCI
 level 3 files cover when merging files

A file whose period is a whole number of hours got integer bounds, to which the bounds of the other files were then truncated.
---
 cis/data_io/products/CCI.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/products/CCI.py b/cis/data_io/products/CCI.py
index c034666..97bddc3 100644
--- a/cis/data_io/products/CCI.py
+++ b/cis/data_io/products/CCI.py
@@ -97,7 +97,8 @@ def convert_time_string_to_number(time_str, units):
         time += relativedelta(months=1, days=-1)
     else:
         time = datetime.strptime(time_str, "%Y%m%dT%H%M%SZ")
-    return units.date2num(time)
+    # Always a float, as the whole numbers of some files would make integers of the times of all when they are merged
+    return float(units.date2num(time))
 
 
 class Cloud_CCI_L3(NetCDF_Gridded):
-- 
2.43.0


From 39dba72b7988646eee79097a63910fb1077c5340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:14 +0000
Subject: [PATCH 81/86] fix: read text files of points which have one line only

numpy reads such a file as an array without dimensions, so that reading it, alone or with other files, failed.
---
 cis/data_io/products/products.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/products/products.py b/cis/data_io/products/products.py
index 0f7ad5f..c7d8491 100644
--- a/cis/data_io/products/products.py
+++ b/cis/data_io/products/products.py
@@ -152,6 +152,7 @@ class ASCII_Hyperpoints(AProduct):
     def create_coords(self, filenames, variable=None):
         from cis.data_io.ungridded_data import Metadata
         from numpy import genfromtxt, NaN
+        from numpy.ma import atleast_1d
         from cis.exceptions import InvalidVariableError
         from cis.time_util import convert_datetime_to_std_time
         import dateutil.parser as du
@@ -160,10 +161,12 @@ class ASCII_Hyperpoints(AProduct):
 
         for filename in filenames:
             try:
-                array_list.append(genfromtxt(filename, dtype="f8,f8,f8,O,f8",
-                                             names=['latitude', 'longitude', 'altitude', 'time', 'value'],
-                                             delimiter=',', missing_values='', usemask=True, invalid_raise=True,
-                                             converters={"time": du.parse}))
+                data = genfromtxt(filename, dtype="f8,f8,f8,O,f8",
+                                  names=['latitude', 'longitude', 'altitude', 'time', 'value'],
+                                  delimiter=',', missing_values='', usemask=True, invalid_raise=True,
+                                  converters={"time": du.parse})
+                # A file with one line is read as an array without dimensions
+                array_list.append(atleast_1d(data))
             except:
                 raise IOError('Unable to read file ' + filename)
 
-- 
2.43.0


From d745d46e6ed100193dd538c1afbd06f0d5f8c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:45 +0000
Subject: [PATCH 82/86] fix: keep the fractional part of the periods of MODIS
 level 3 files when merging files

A file whose period starts and ends at midnight got integer bounds, to which the bounds of the other files were then truncated.
---
 cis/data_io/products/MODIS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/products/MODIS.py b/cis/data_io/products/MODIS.py
index 92ea7db..0f532c4 100644
--- a/cis/data_io/products/MODIS.py
+++ b/cis/data_io/products/MODIS.py
@@ -145,8 +145,9 @@ class MODIS_L3(AProduct):
             end_datetime = self._get_end_date(f)
             mid_datetime = calculate_mid_time(start_datetime, end_datetime)
             logging.debug("Using {} as datetime for file {}".format(mid_datetime, f))
-            time_coord = AuxCoord(mid_datetime, standard_name='time', units=cis_standard_time_unit,
-                                  bounds=[start_datetime, end_datetime])
+            # Always floats, as the whole numbers of some files would make integers of the times of all when merging
+            time_coord = AuxCoord(float(mid_datetime), standard_name='time', units=cis_standard_time_unit,
+                                  bounds=[float(start_datetime), float(end_datetime)])
 
             var = sdata[variable]
             metadata = get_metadata(var)
-- 
2.43.0


From d2284077ad0acbcc5e4712cf2a6e66b488d5b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:54 +0000
Subject: [PATCH 83/86] fix: plot layers without a type as usual, rather than
 as the layer before

---
 cis/plotting/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index a9893f9..2bbde4a 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -458,9 +458,9 @@ def multilayer_plot(data_list, how=None, ax=None, yaxis=None, layer_opts=None, *
 
         for d, y, opts in zip(data_list, yaxis, layer_opts):
             layer_kwargs = dict(list(kwargs.items()) + list(opts.items()))
-            how = layer_kwargs.pop('type', how)
+            layer_how = layer_kwargs.pop('type', how)
             label = layer_kwargs.pop('label', get_label(d, units=False))
-            plot, ax = basic_plot(d, how, ax, yaxis=y, label=label, *args, **layer_kwargs)
+            plot, ax = basic_plot(d, layer_how, ax, yaxis=y, label=label, *args, **layer_kwargs)
 
         legend = ax.legend(loc="best")
         if legend is not None:
-- 
2.43.0


From 3c78c977caf2947510e6757e939eb756f5992436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:54 +0000
Subject: [PATCH 84/86] fix: plot a single datagroup with the type given for it

---
 cis/plotting/formatted_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index a0f9871..b234f61 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -183,6 +183,7 @@ class Plotter(object):
         else:
             if 'layer_opts' in kwargs:
                 kwargs.update(kwargs.pop('layer_opts')[0])
+                type = kwargs.pop('type', type)
             plot, self.ax = basic_plot(data, how=type, *args, **kwargs)
 
         self.fig = self.ax.get_figure()
-- 
2.43.0


From a90a50fe79b8f24e277a1e52913d522ff561ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:12 +0000
Subject: [PATCH 85/86] fix: collocate ungridded data onto gridded samples with
 a box

The documented box collocator only worked with the data frames of ungridded
samples, so that onto any gridded sample it failed.
---
 cis/collocation/col_implementations.py | 54 ++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 62f45ba..cf509dc 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -836,6 +836,15 @@ class GeneralGriddedCollocator(Collocator):
 
         log_memory_profile("GeneralGriddedCollocator Created output coord map")
 
+        if isinstance(constraint, SepConstraintKdtree):
+            # This constraint works on data frames, as it does for ungridded sample points
+            sample_points = self._sample_points_as_data_frame(points, coords, coord_map)
+            longitudes = data_points.longitude
+            data_points = data.as_data_frame(time_index=False, name='vals')
+            if longitudes is not None:
+                data_points['longitude'] = longitudes
+            data_points = data_points.dropna(axis=0)
+
         # Create index if constraint supports it.
         data_index.create_indexes(constraint, coords, data_points, coord_map)
         data_index.create_indexes(kernel, points, data_points, coord_map)
@@ -869,6 +878,8 @@ class GeneralGriddedCollocator(Collocator):
                     # ValueErrors are raised by Kernel when there are no points to operate on.
                     # We don't need to do anything.
                     pass
+        elif isinstance(constraint, SepConstraintKdtree):
+            self._collocate_data_frames(sample_points, data_points, constraint, kernel, set_value_kernel, values, shape)
         else:
             # Iterate over constrained cells
             iterator = constraint.get_iterator(
@@ -915,6 +926,49 @@ class GeneralGriddedCollocator(Collocator):
 
         return output
 
+    def _sample_points_as_data_frame(self, points, coords, coord_map):
+        """
+        :param points: cube defining the sample points
+        :param coords: coordinates of the cube
+        :param coord_map: list of tuples relating index in HyperPoint to index in coords and in coords to be output
+        :return: data frame of the points of the output grid, which has the points missing from the sample as NaN if
+         the grid is that of the sample
+        """
+        from pandas import DataFrame
+        grid = np.meshgrid(*[coords[ci].points for hpi, ci, shi in coord_map], indexing='ij')
+        sample_points = DataFrame({HyperPoint.standard_names[hpi]: grid[shi].ravel() for hpi, ci, shi in coord_map})
+        if self.missing_data_for_missing_sample:
+            mask = np.ma.getmaskarray(points.data).transpose([points.coord_dims(coords[ci])[0]
+                                                              for hpi, ci, shi in coord_map])
+            sample_points['vals'] = np.where(mask.ravel(), np.nan, 0.0)
+        return sample_points
+
+    def _collocate_data_frames(self, sample_points, data_points, constraint, kernel, set_value_kernel, values, shape):
+        """
+        Fill the output values for a constraint which works on data frames
+        """
+        horizontal = isinstance(kernel, nn_horizontal_only) or constraint.h_sep is not None
+        if horizontal and not {'latitude', 'longitude'}.issubset(sample_points.columns):
+            raise cis.exceptions.CoordinateNotFoundError("The sample needs dimensions of both latitude and longitude "
+                                                         "to find the data near to its points")
+        if isinstance(kernel, nn_horizontal_only):
+            # Only find the nearest point, without constraint in other dimensions (if there are any data points at all)
+            if len(data_points) > 0:
+                nearest = constraint.haversine_distance_kd_tree_index.find_nearest_point(sample_points)
+                values[0][...] = data_points.iloc[nearest].vals.values.reshape(shape)
+            if 'vals' in sample_points:
+                values[0][sample_points.vals.isnull().values.reshape(shape)] = np.ma.masked
+            return
+        iterator = constraint.get_iterator(
+            self.missing_data_for_missing_sample, None, None, data_points, None, sample_points, None)
+        for i, point, con_points in iterator:
+            try:
+                set_value_kernel(kernel.get_value(point, con_points), values, np.unravel_index(i, shape))
+            except ValueError:
+                # ValueErrors are raised by Kernel when there are no points to operate on.
+                # We don't need to do anything.
+                pass
+
     def _set_multi_value_kernel(self, kernel_val, values, indices):
         # This kernel returns multiple values:
         for idx, val in enumerate(kernel_val):
-- 
2.43.0


From 497b8d7dff63f6b696cd572391a0ea3ebe64edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:48 +0000
Subject: [PATCH 86/86] fix: read AERONET files with current versions of pandas

read_csv no longer takes error_bad_lines, so that no AERONET file could be read.
---
 cis/data_io/aeronet.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cis/data_io/aeronet.py b/cis/data_io/aeronet.py
index 6fccd5c..464276d 100644
--- a/cis/data_io/aeronet.py
+++ b/cis/data_io/aeronet.py
@@ -172,8 +172,7 @@ def load_aeronet(filename, variables=None):
     try:
         rawd = read_csv(filename, sep=",", header=AERONET_HEADER_LENGTH[version]-1, names=ordered_vars,
                         index_col=False, usecols=cols, na_values=AERONET_MISSING_VALUE[version], dtype=dtypes,
-                        parse_dates={"datetime":["date", "time"]}, infer_datetime_format=True, dayfirst=True,
-                        error_bad_lines=False, warn_bad_lines=True, #low_memory="All_Sites_Times_All_Points" in filename
+                        on_bad_lines="warn", #low_memory="All_Sites_Times_All_Points" in filename
         )
     except ValueError:
         raise InvalidVariableError("{} not available in {}".format(variables, filename))
@@ -182,9 +181,9 @@ def load_aeronet(filename, variables=None):
     if rawd.shape[0] == 0:
         return {"datetime":[], "latitude":[], "longitude":[], "altitude":[]}
 
-    # Convert pandas Timestamps into CIS standard numbers
-    rawd["datetime"] = [cis_standard_time_unit.date2num(timestamp.to_pydatetime())
-                        for timestamp in to_datetime(rawd["datetime"], format='%d:%m:%Y %H:%M:%S')]
+    # Convert the dates and times into CIS standard numbers
+    datetimes = to_datetime(rawd.pop("date") + " " + rawd.pop("time"), format='%d:%m:%Y %H:%M:%S')
+    rawd["datetime"] = [cis_standard_time_unit.date2num(timestamp.to_pydatetime()) for timestamp in datetimes]
 
     # Add position metadata that isn't listed in every line for some formats
     if version.startswith("MAN"):
-- 
2.43.0

