From 46a0ba7defe87a3dac399db258f1775cd1ed41f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 01/28] fix: compute the unbuffered tile limits from the tile
 index

Deriving them from the buffered limits went wrong when the buffer of a tile
reaches the edge of the raster: the last but one tile then overlapped the
last one.
---
 all_multipliers.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 69ceb7d..a0fa2cf 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -166,25 +166,13 @@ class TileGrid(object):
 
         """
 
-        if int(self.x_start[k]) != 0:
-            x1 = int(self.x_start[k] + self.x_buffer)
-        else:
-            x1 = self.x_start[k]
-
-        if int(self.y_start[k]) != 0:
-            y1 = int(self.y_start[k] + self.y_buffer)
-        else:
-            y1 = self.y_start[k]
+        # tiles are numbered column by column, from the north-west corner
+        i, j = divmod(k, self.subset_maxrows)
 
-        if int(self.x_end[k]) != (self.x_dim - 1):
-            x2 = int(self.x_end[k] - self.x_buffer + 1)
-        else:
-            x2 = self.x_dim
-
-        if int(self.y_end[k]) != (self.y_dim - 1):
-            y2 = int(self.y_end[k] - self.y_buffer + 1)
-        else:
-            y2 = self.y_dim
+        x1 = i * self.x_step
+        x2 = min((i + 1) * self.x_step, self.x_dim)
+        y1 = j * self.y_step
+        y2 = min((j + 1) * self.y_step, self.y_dim)
 
         return x1, x2, y1, y2
 
-- 
2.43.0


From d3ec54972bdd007aed2272f8f16a477a262898b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 02/28] fix: do not let one shielding direction change the next

Without convolution (cells larger than 100 m) combine() worked in place on
the initial factors, so every direction started from the previous result.
---
 shielding/shield_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index fd30647..213e8fa 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -306,7 +306,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
             mask = kern_dir(kernel_size)
             outdata = blur_image(data, mask)
         else:
-            outdata = data
+            outdata = data.copy()
 
         result = combine(outdata, slope_array, aspect_array, one_dir)
         log.debug('Maximum shielding value is {0}'.format(result.max()))
-- 
2.43.0


From 0de976b423b1a6ed1526955eb5ab06f3f01bd94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 03/28] fix: keep the start of the hill zone inside the line

A hill zone reaching the start of the line started at index -1, which is
the last point of the line.
---
 topographic/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/mh.py b/topographic/mh.py
index 76bf130..8c5deaa 100644
--- a/topographic/mh.py
+++ b/topographic/mh.py
@@ -85,7 +85,7 @@ def mh_calc(profile, ridge, valley, data_spacing):
 
     # calculate the mh from the front l2_capital to the back l2_capital with
     # the escarpment factor considered:
-    l1 = int(np.floor(fl2_ind)) - 1
+    l1 = max(0, int(np.floor(fl2_ind)) - 1)
     l2 = int(
         np.floor(
             np.minimum(
-- 
2.43.0


From 77a8049a761ca007d3520258e461bf6d730ec90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 04/28] fix: write every variable of a netCDF file

The file was closed after the first variable, so the coordinate reference
variable was never written.
---
 utilities/nctools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 86f73d5..e266669 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -286,11 +286,11 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
         if datatitle:
             ncobj.setncattr('title', datatitle)
 
-        if keepfileopen:
-            return ncobj
-        else:
-            ncobj.close()
-            return
+    if keepfileopen:
+        return ncobj
+    else:
+        ncobj.close()
+        return
 
 
 def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
-- 
2.43.0


From 7f57fc6fa22bf02ff4c0aca3a73f66ec1f3ad4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 05/28] fix: give the ones of a missing multiplier the shape of
 the tile

A missing input file of a tile that is not square ended in a ValueError.
---
 utilities/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c0e77a4..c108727 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -121,7 +121,7 @@ class Converter:
                     ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
                     ds.SetGeoTransform(transform)
                     band = ds.GetRasterBand(1)
-                    band.WriteArray(np.ones((nx, ny)))
+                    band.WriteArray(np.ones((ny, nx)))
 
                 bands.append(ma.masked_values(
                     BandReadAsArray(ds.GetRasterBand(1)),
-- 
2.43.0


From 8225962c123f3014a5d9ec17531c1ed1a29981ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 06/28] fix: convert a tile whose first multiplier file is
 missing

The georeference was only known after the first file had been opened.
---
 utilities/convert.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c108727..558e8ab 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -92,6 +92,7 @@ class Converter:
         tmpds = gdal.Open(pjoin(self.path, "shielding", f"{tile}_ms_n.nc"))
         nx = tmpds.RasterXSize
         ny = tmpds.RasterYSize
+        transform = tmpds.GetGeoTransform()
 
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
 
@@ -103,8 +104,6 @@ class Converter:
 
         band_index = 1
 
-        first = True
-
         for direction in self.directions:
             bands = []
 
@@ -127,10 +126,6 @@ class Converter:
                     BandReadAsArray(ds.GetRasterBand(1)),
                     self.missing_value))
 
-                if first:
-                    transform = ds.GetGeoTransform()
-                    first = False
-
             # Multiply the wind multipliers from NetCDF
             multiplied = reduce(np.multiply, bands)
 
-- 
2.43.0


From e833f0b30db221850e4d8fa64a382649a59378aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 07/28] fix: a missing value in any multiplier gives a missing
 value

The products of the fill values were written to the combined raster.
---
 utilities/convert.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index 558e8ab..6a00938 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -127,16 +127,17 @@ class Converter:
                     self.missing_value))
 
             # Multiply the wind multipliers from NetCDF
-            multiplied = reduce(np.multiply, bands)
+            multiplied = ma.array(reduce(np.multiply, bands)).filled(
+                self.missing_value)
 
             # Write the pre-multiplied value to a band
             band = out_ds.GetRasterBand(band_index)
             try:
-                band.WriteArray(multiplied.data[::-1])
-                band.WriteArray(multiplied.data)
+                band.WriteArray(multiplied[::-1])
+                band.WriteArray(multiplied)
             except ValueError:
                 log.error("Mismatch between output file and data array")
-                log.error(multiplied.data.shape)
+                log.error(multiplied.shape)
             band.SetDescription(direction)
             band.ComputeStatistics(False)
             band.SetNoDataValue(-9999)
-- 
2.43.0


From 8e3f42e07e87e69f5071e5c0d60c5f4bd8c1069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 08/28] fix: split grids of odd size at a whole row and column

The blocks of an odd sized grid had fractional origins and shapes, so the
interpolated block did not fit the block of the grid.
---
 utilities/blrb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index a77cae8..4cffe87 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -93,8 +93,8 @@ def subdivide(origin=DEFAULT_ORIGIN, shape=DEFAULT_SHAPE):
               'LR': <list of 2-tuples> }
     """
     i0, ie, j0, je = indices(origin, shape)
-    ic = origin[0] + shape[0] / 2
-    jc = origin[1] + shape[1] / 2
+    ic = origin[0] + shape[0] // 2
+    jc = origin[1] + shape[1] // 2
 
     return {
         'UL': [(i0, j0), (i0, jc), (ic, j0), (ic, jc)],
-- 
2.43.0


From 1bdafb82aa829e967060559c6c6a64ec005a5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 09/28] fix: look up metric cell sizes by column and row, not
 row and column

The grid interpolation passes row and column, the cell size takes x and y:
cell widths varied from west to east instead of from north to south.
---
 utilities/get_pixel_size_grid.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/utilities/get_pixel_size_grid.py b/utilities/get_pixel_size_grid.py
index 7955341..a71b638 100644
--- a/utilities/get_pixel_size_grid.py
+++ b/utilities/get_pixel_size_grid.py
@@ -120,27 +120,29 @@ def get_pixel_size_grids(dataset):
     :return: tuple of :class:`numpy.ndarray` grid sizes for input dataset
     """
 
-    def get_pixel_x_size(x, y):
+    def get_pixel_x_size(row, col):
         """
         Returns x size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param row: `int` the row of the pixel (y)
+        :param col: `int` the column of the pixel (x)
 
         :return: `float` the grid x size at the input (x, y) point
         """
 
-        return get_pixel_size(dataset, (x, y))[0]
+        return get_pixel_size(dataset, (col, row))[0]
 
-    def get_pixel_y_size(x, y):
+    def get_pixel_y_size(row, col):
         """
         Returns y size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param row: `int` the row of the pixel (y)
+        :param col: `int` the column of the pixel (x)
 
         :return: `float` the grid y size at the input (x, y) point
         """
 
-        return get_pixel_size(dataset, (x, y))[1]
+        return get_pixel_size(dataset, (col, row))[1]
 
     x_size_grid = np.zeros((dataset.RasterYSize,
                             dataset.RasterXSize)).astype(np.float32)
-- 
2.43.0


From b9e84b9eb61f40ec1950372028b1cf800f3c7250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 10/28] fix: join layers with the indices the spatial tree
 returns

shapely 2 answers a query with indices and not with the polygons.
---
 utilities/shapefiles.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 2779db0..0d9de10 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -66,16 +66,15 @@ class shp_file:
         self.attribute = clip_attribute
 
     def spatial_join(self, other, var):
-        # create the index.
-        index_by_id = dict((id(pt), i) for i, pt in enumerate(other.geom))
         # create the spatial tree
         idx_other = STRtree(other.geom)
         # start the merge:
 
         def process(i):
             poly = self.geom[i]
-            fids = [index_by_id[id(pt)] for pt in idx_other.query(poly)
-                    if poly.intersects(pt)]
+            # the tree answers with the indices of the polygons
+            fids = [ii for ii in sorted(idx_other.query(poly))
+                    if poly.intersects(other.geom[ii])]
             if len(fids) == 0:
                 return None
             elif len(fids) == 1:
-- 
2.43.0


From ac463211baa777383ae4548795e815f70d3d16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 11/28] fix: compute topographic multipliers of integer
 elevation models

Marking no-data cells as NaN failed on an integer array.
---
 topographic/topo_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 3c30a0c..1b8c1a7 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -60,7 +60,7 @@ def topomult(input_dem, tile_extents_nobuffer):
     lon, lat = get_lat_lon(tile_extents_nobuffer, pixelwidth, pixelheight)
 
     band = ds.GetRasterBand(1)
-    elevation_array = band.ReadAsArray(0, 0, nc, nr)
+    elevation_array = band.ReadAsArray(0, 0, nc, nr).astype(float)
 
     nodata_value = band.GetNoDataValue()
     if nodata_value is not None:
-- 
2.43.0


From f514c4dd5d0c94acd331591f4c6485f78b2a6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 12/28] fix: average only cells inside the tile when smoothing

Cells beyond the edge counted as zero, so multipliers at the edge of the
raster fell below 1.
---
 topographic/topo_mult.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 1b8c1a7..dd9b851 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -133,8 +133,10 @@ def topomult(input_dem, tile_extents_nobuffer):
             mhdata = tasmania(mhdata, elevation_array)
 
         # smooth
+        # (the cells beyond the edge of the tile do not count)
         g = np.ones((3, 3)) / 9.
-        mhsmooth = signal.convolve(mhdata, g, mode='same')
+        weight = signal.convolve(np.ones((nr, nc)), g, mode='same')
+        mhsmooth = signal.convolve(mhdata, g, mode='same') / weight
         mhsmooth[np.isnan(elevation_array)] = np.nan
         del mhdata
 
-- 
2.43.0


From f220309bbf5258531aa07f41019fbccd5c8a5657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 13/28] fix: keep the cell's own value when no upwind cell is
 averaged

An averaging width of less than a cell divided by zero.
---
 terrain/terrain_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 3b24600..68257d5 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -226,7 +226,7 @@ def convo(one_dir, data, avg_width, lag_width):
             all_neighb_no = all_neighbour_lambda(i, jj, rows, cols,
                                                  lag_width)
 
-            if all_neighb_no > 0:
+            if all_neighb_no > 0 and avg_width > 0:
                 if all_neighb_no < avg_width:
                     max_neighb_no = all_neighb_no
                 else:
-- 
2.43.0


From 772b02617ae489a5422853441b0489e296c1fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 14/28] fix: mark no-data cells of tiles smaller than the lag
 distance

They were written with the value 1.
---
 terrain/terrain_mult.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 68257d5..7a3a83b 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -117,7 +117,7 @@ def terrain(temp_tile, tile_extents_nobuffer):
 
         # if the tile is smaller than the lag distance, no convolultion
         if lag_width > reclassified_array.shape[0]:
-            outdata = reclassified_array
+            outdata = reclassified_array.copy()
         else:
             # if the tile is smaller than the upwind buffer, all the tile is in
             # buffer
@@ -126,7 +126,8 @@ def terrain(temp_tile, tile_extents_nobuffer):
 
             log.info('convolution average width ' + str(avg_width))
             outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
-            outdata[mask] = np.nan
+
+        outdata[mask] = np.nan
 
         # find output folder
         tile_folder = os.path.dirname(temp_tile)
-- 
2.43.0


From b7f0657337a813d985ea987e099166e53fa9fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:17 +0000
Subject: [PATCH 15/28] fix: compare single precision elevations with the
 no-data value as they are

Only integer elevation models need the conversion.
---
 topographic/topo_mult.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index dd9b851..2221880 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -60,7 +60,9 @@ def topomult(input_dem, tile_extents_nobuffer):
     lon, lat = get_lat_lon(tile_extents_nobuffer, pixelwidth, pixelheight)
 
     band = ds.GetRasterBand(1)
-    elevation_array = band.ReadAsArray(0, 0, nc, nr).astype(float)
+    elevation_array = band.ReadAsArray(0, 0, nc, nr)
+    if elevation_array.dtype.kind != 'f':
+        elevation_array = elevation_array.astype(float)
 
     nodata_value = band.GetNoDataValue()
     if nodata_value is not None:
-- 
2.43.0


From bd1259a24494ec884c16fbf4717145bcbb759174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:43 +0000
Subject: [PATCH 16/28] fix: limit terrain averaging by the tile's size along
 the wind

---
 terrain/terrain_mult.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 7a3a83b..28bfd24 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -115,14 +115,20 @@ def terrain(temp_tile, tile_extents_nobuffer):
             avg_width = int(avg_dist / (gridwidth * 1.414))
             lag_width = int(lag_dist / (gridwidth * 1.414))
 
+        # the extent of the tile along the wind
+        if one_dir in ['w', 'e']:
+            extent = reclassified_array.shape[1]
+        else:
+            extent = reclassified_array.shape[0]
+
         # if the tile is smaller than the lag distance, no convolultion
-        if lag_width > reclassified_array.shape[0]:
+        if lag_width > extent:
             outdata = reclassified_array.copy()
         else:
             # if the tile is smaller than the upwind buffer, all the tile is in
             # buffer
-            if (avg_width + lag_width) > reclassified_array.shape[0]:
-                avg_width = reclassified_array.shape[0] - lag_width
+            if (avg_width + lag_width) > extent:
+                avg_width = extent - lag_width
 
             log.info('convolution average width ' + str(avg_width))
             outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
-- 
2.43.0


From ef4f53d4d183c64112412ea74eae1d204d4656fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 17/28] fix: store array data given to nc_create_var

---
 utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index e266669..7bb4bee 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -114,7 +114,7 @@ def nc_create_var(
 
     var = ncobj.createVariable(name, dtype, dimensions, **kwargs)
 
-    if data:
+    if data is not None:
         var[:] = np.array(data, dtype=dtype)
 
     if atts:
-- 
2.43.0


From d9a62683671148e8fa194f4a2f4bcce3b624d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:47 +0000
Subject: [PATCH 18/28] fix: take the size of a combined tile from any of its
 files

Conversion failed when the shielding file of the north wind was missing.
---
 utilities/convert.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index 6a00938..5d3820b 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -78,6 +78,22 @@ class Converter:
 
         del tif
 
+    def open_any(self, tile):
+        """
+        Open the first multiplier file of a tile that is not missing
+
+        """
+
+        for folder, unit in self.types.items():
+            for direction in self.directions:
+                try:
+                    return gdal.Open(
+                        pjoin(self.path, folder,
+                              f"{tile}_{unit.lower()}_{direction}.nc"))
+                except RuntimeError:
+                    continue
+        raise RuntimeError(f"No multiplier file of tile {tile}")
+
     def process_tile(self, tile):
         """Convert NetCDF tiles into GeoTIFF tile
 
@@ -89,7 +105,7 @@ class Converter:
         driver = gdal.GetDriverByName('MEM')
 
         # Get/set dimensions for the output bands:
-        tmpds = gdal.Open(pjoin(self.path, "shielding", f"{tile}_ms_n.nc"))
+        tmpds = self.open_any(tile)
         nx = tmpds.RasterXSize
         ny = tmpds.RasterYSize
         transform = tmpds.GetGeoTransform()
-- 
2.43.0


From 79be56d463947c2fcd05c8a057d76d0fb96d9cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:23 +0000
Subject: [PATCH 19/28] fix: take longitude before latitude when measuring a
 projected cell

---
 utilities/get_pixel_size_grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utilities/get_pixel_size_grid.py b/utilities/get_pixel_size_grid.py
index a71b638..8ebcfba 100644
--- a/utilities/get_pixel_size_grid.py
+++ b/utilities/get_pixel_size_grid.py
@@ -71,6 +71,9 @@ def get_pixel_size(dataset, xxx_todo_changeme):
     log.debug('geotransform = %s', geotransform)
 
     latlong_spatial_reference = spatial_reference.CloneGeogCS()
+    # x (longitude) before y (latitude), whatever the order of the authority
+    for reference in (spatial_reference, latlong_spatial_reference):
+        reference.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
     coord_transform_to_latlong = \
         osr.CoordinateTransformation(spatial_reference,
                                      latlong_spatial_reference)
-- 
2.43.0


From e9ec5174bfb0aeda1cfb665a570350a01038de58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:21 +0000
Subject: [PATCH 20/28] fix: vinc_dist failed with a math domain error along
 the equator

Rounding can take the sine of the azimuth at the equator just past one for
points on (or within a few centimetres of) the equator, and asin then
raises ValueError.
---
 utilities/vincenty.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 3f69a31..6584a93 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -222,8 +222,10 @@ def vinc_dist(f, a, phi1, lembda1, phi2, lembda2):
 
         sigma = math.atan2(Sin_sigma, Cos_sigma)
 
+        # along the equator rounding can take the sine past one
         Sin_alpha = math.cos(U1) * math.cos(U2) * math.sin(lembda) / \
             math.sin(sigma)
+        Sin_alpha = max(-1.0, min(1.0, Sin_alpha))
         alpha = math.asin(Sin_alpha)
 
         Cos2sigma_m = math.cos(sigma) - (2 * math.sin(U1) * math.sin(U2) /
-- 
2.43.0


From a05732dba8d25d9cd61c1cce42357b5d05c50f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 21/28] fix: blocks of a single row or column were interpolated
 to NaN

Rasters of fewer than three rows or columns (a narrow tile at the edge of
the elevation model) have sub-blocks of one row or column, which bilinear
divided by zero.
---
 utilities/blrb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index 4cffe87..e7dd3ef 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -49,8 +49,9 @@ def bilinear(shape, f_ul, f_ur, f_lr, f_ll, dtype=numpy.float64):
 
     s, t = [a.astype(dtype) for a in numpy.ogrid[0:shape[0], 0:shape[1]]]
 
-    s /= (shape[0] - 1.0)
-    t /= (shape[1] - 1.0)
+    # there is nothing to interpolate along a single row or column
+    s /= max(shape[0] - 1.0, 1.0)
+    t /= max(shape[1] - 1.0, 1.0)
 
     return s * (t * f_lr + (1.0 - t) * f_ll) + \
         (1.0 - s) * (t * f_ur + (1.0 - t) * f_ul)
-- 
2.43.0


From a90292f1ff096c158e7bb7153784e7353d68005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 22/28] fix: the multiplier refers to the coordinate reference
 variable by its name

The attribute grid_mapping named a variable that no file has, so readers
found no coordinate reference system in the multiplier files.
---
 utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 7bb4bee..45111e2 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -396,7 +396,7 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
                 ' multiplier values for each grid',
                 'actual_range': (np.nanmin(multiplier_values),
                                  np.nanmax(multiplier_values)),
-                'grid_mapping': 'WGS-1984'
+                'grid_mapping': 'crs'
             }
         },
         1: {
-- 
2.43.0


From 0be4fbd2d1c1dbca69306c5c7505555b74e1fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:17 +0000
Subject: [PATCH 23/28] fix: conversion failed when no tile has output

With an elevation model that is empty everywhere there is no raster to
list; the intended warning was never reached because every process
returns a result.
---
 utilities/mpi_runner.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 0f4a0a6..e76c930 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -38,12 +38,12 @@ def parallelise_convert_on_tiles(data_path, comm):
     results = comm.gather(results, root=0)
 
     if comm.rank == 0:
-        if len(results) > 0:
+        tile_files = functools.reduce(lambda total, element:
+                                      total + element[0], results, [])
+        max_tile_files = functools.reduce(lambda total, element:
+                                          total + element[1], results, [])
+        if len(tile_files) > 0:
             log.info("Creating virtual raster table")
-            tile_files = functools.reduce(lambda total, element:
-                                          total + element[0], results, [])
-            max_tile_files = functools.reduce(lambda total, element:
-                                              total + element[1], results, [])
             gdal.BuildVRT(os.path.join(data_path, 'M3',
                                        'wind-multipliers.vrt'),
                           tile_files)
-- 
2.43.0


From ff70060fd10a6ddd9b0e61e32378fd0e148b8e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:58 +0000
Subject: [PATCH 24/28] fix: runs with relative paths failed after the first
 shielding step

---
 shielding/shield_mult.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 213e8fa..8bb5bfc 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -334,8 +334,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
         os.remove(ms_orig)
     except:
         pass
-    os.chdir(ms_folder)
-    filelist = glob.glob('*.xml')
+    filelist = glob.glob(pjoin(glob.escape(ms_folder), '*.xml'))
 
     log.debug("useless xml files: {0}".format(repr(filelist)))
 
-- 
2.43.0


From 3d351859e9560b36777a62be6fbf2b95c3b03943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:37 +0000
Subject: [PATCH 25/28] fix: tiles without a valid land-cover cell stopped the
 shielding step

GDAL raises RuntimeError (exceptions are enabled by utilities/convert.py)
when it is asked for the statistics of a band without valid cells.
---
 shielding/shield_mult.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 8bb5bfc..2d1b16b 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -234,7 +234,10 @@ def terrain_class2ms_orig(terrain):
     # flush data to disk, set the NoData value and calculate stats
     outband_ms_orig.FlushCache()
     outband_ms_orig.SetNoDataValue(-99)
-    outband_ms_orig.GetStatistics(0, 1)
+    try:
+        outband_ms_orig.GetStatistics(0, 1)
+    except RuntimeError:
+        log.warning('No statistics of {0}: no valid cells'.format(ms_orig))
 
     terrain_resample_ds = None
 
-- 
2.43.0


From 27dd47a524765999e4c4cdf378e1dc198ba0a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:49 +0000
Subject: [PATCH 26/28] fix: the maximum raster of a tile had a second band of
 zeros

---
 utilities/convert.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index 5d3820b..02fd65c 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -57,7 +57,6 @@ class Converter:
         maxima = np.max(np.dstack(bands), axis=2)
         # Create output dataset - single band required (maximum only)
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
-        out_ds.AddBand(gdal.GDT_Float32)
         band = out_ds.GetRasterBand(1)
         band.WriteArray(maxima.data)
         band.SetDescription("Maximum of all directions")
-- 
2.43.0


From 0cf7d9e4584a84ebd0066a6692c6a542dc6562d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:27 +0000
Subject: [PATCH 27/28] fix: a log folder made by another process at the same
 time moved the log elsewhere

---
 all_multipliers.py | 2 +-
 utilities/files.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index a0fa2cf..c9f1ce2 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -714,7 +714,7 @@ def run():
     # If log file directory does not exist, create it
     if not isdir(logdir):
         try:
-            os.makedirs(logdir)
+            os.makedirs(logdir, exist_ok=True)
         except OSError:
             logfile = pjoin(os.getcwd(), 'multipliers.log')
 
diff --git a/utilities/files.py b/utilities/files.py
index 0d27f9f..18f7ab6 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -246,7 +246,7 @@ def fl_start_log(log_file, log_level, verbose=False, datestamp=False,
     log_dir = os.path.dirname(os.path.realpath(log_file))
     if not os.path.isdir(log_dir):
         try:
-            os.makedirs(log_dir)
+            os.makedirs(log_dir, exist_ok=True)
         except OSError:
             # Unable to create the directory, so stick it in the
             # current working directory:
-- 
2.43.0


From b99dd363380ec9834b434259c4f3bc514010b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:55 +0000
Subject: [PATCH 28/28] fix: a cropped polygon is kept without the lines and
 points that only touch the box

---
 utilities/shapefiles.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 0d9de10..4ff5f92 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -9,6 +9,15 @@ import numpy as np
 logger = logging.getLogger()
 
 
+def polygonal(geometry):
+    """
+    The polygons of a geometry, without lines and points that only touch
+    """
+    if geometry.geom_type == 'GeometryCollection':
+        return unary_union([part for part in geometry.geoms if part.area])
+    return geometry
+
+
 class shp_file:
 
     def __init__(self):
@@ -60,7 +69,7 @@ class shp_file:
         for idx, poly in enumerate(self.geom):
             result = polybox.intersection(poly)
             if result.area:
-                clip_geom.append(result)
+                clip_geom.append(polygonal(result))
                 clip_attribute.append(self.attribute[idx])
         self.geom = clip_geom
         self.attribute = clip_attribute
-- 
2.43.0

