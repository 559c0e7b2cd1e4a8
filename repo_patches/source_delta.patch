From abfb71c20f664c10a6635de39ed93538caf57658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 01/67] fix: variable-spacing index lookup aborted for points
 outside the grid

A query for a point outside a model whose top surface has variable spacing
ended the process with an assertion failure instead of reporting that the
point is outside the model.
---
 libsrc/geomodelgrids/utils/Indexing.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/Indexing.cc b/libsrc/geomodelgrids/utils/Indexing.cc
index 96060fa..06474bd 100644
--- a/libsrc/geomodelgrids/utils/Indexing.cc
+++ b/libsrc/geomodelgrids/utils/Indexing.cc
@@ -78,9 +78,6 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
     size_t indexL = 0;
     size_t indexR = _numX - 1;
     const double xN = (_order == ASCENDING) ? _x[0] + x : _x[0] - x;
-    const double tolerance = 1.0e-6;
-    assert((ASCENDING == _order && (xN >= _x[indexL]-tolerance) && (xN <= _x[indexR]+tolerance)) ||
-           (DESCENDING == _order && (xN <= _x[indexL]+tolerance) && (xN >= _x[indexR]-tolerance)));
 
     typedef bool (*cmp_fn)(const double,
                            const double);
@@ -94,9 +91,9 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
             indexL = indexM;
         } // if/else
     } // while
-    assert((ASCENDING == _order && xN >= _x[indexL]-tolerance && _x[indexR] > _x[indexL]) ||
-           (DESCENDING == _order && xN <= _x[indexL]+tolerance && _x[indexR] <= _x[indexL]));
 
+    // Coordinates outside the range of the grid yield an index outside the range of the grid.
+    if (indexL == indexR) { return x; } // Single coordinate
     index = double(indexL) + (xN - _x[indexL]) / (_x[indexR] - _x[indexL]);
     return index;
 }
-- 
2.43.0


From 3ac591d4c0d63a5377654b65133c700a5a7fff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 02/67] fix: rounding at the far edges of a model ended the
 process

A point on the far edge of a model can have a fractional grid index just
beyond the last grid point, or a depth just below the bottom of the lowest
block. The query then aborted (blocks) or ignored the top surface. Blocks
that do not cover the model domain now result in an exception.
---
 libsrc/geomodelgrids/serial/Block.cc   | 12 ++++++++++++
 libsrc/geomodelgrids/serial/Model.cc   | 14 +++++++++++++-
 libsrc/geomodelgrids/serial/Surface.cc |  6 ++++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index cec79b2..e7e56dc 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -330,6 +330,18 @@ geomodelgrids::serial::Block::query(const double x,
     index[0] = _indexingX->getIndex(x);
     index[1] = _indexingY->getIndex(y);
     index[2] = _indexingZ->getIndex(_zTop - z);
+    for (size_t i = 0; i < 3; ++i) {
+        // Rounding can place a point on the edge of the grid just outside the grid.
+        const double indexMax = double(_dims[i]-1);
+        const double tolerance = 1.0e-6;
+        if ((index[i] < 0.0) && (index[i] > -tolerance)) { index[i] = 0.0; }
+        if ((index[i] > indexMax) && (index[i] < indexMax + tolerance)) { index[i] = indexMax; }
+        if (!((index[i] >= 0.0) && (index[i] <= indexMax))) {
+            std::ostringstream msg;
+            msg << "Point (" << x << ", " << y << ", " << z << ") in model is outside grid of block '" << _name << "'.";
+            throw std::runtime_error(msg.str());
+        } // if
+    } // for
 
     assert( (_numValues > 0 && _values) || (!_numValues && !_values) );
 
diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index ffb0efb..ec19a43 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -453,7 +453,12 @@ geomodelgrids::serial::Model::query(const double x,
     _toModelXYZ(&xModel, &yModel, &zModel, x, y, z);
     assert(contains(x, y, z));
 
-    std::shared_ptr<geomodelgrids::serial::Block> block = _findBlock(xModel, yModel, zModel);assert(block);
+    std::shared_ptr<geomodelgrids::serial::Block> block = _findBlock(xModel, yModel, zModel);
+    if (!block) {
+        std::ostringstream msg;
+        msg << "Could not find block containing point (" << x << ", " << y << ", " << z << ") in model.";
+        throw std::runtime_error(msg.str());
+    } // if
     return block->query(xModel, yModel, zModel);
 } // query
 
@@ -506,6 +511,13 @@ geomodelgrids::serial::Model::_findBlock(const double x,
             return block;
         } // if
     } // for
+    // Rounding can place a point on the edge of a block just outside the block.
+    const double tolerance = 1.0e-9 * _dims[2];
+    for (auto block : _blocks) {
+        if (( z <= block->getZTop() + tolerance) && ( z >= block->getZBottom() - tolerance) ) {
+            return block;
+        } // if
+    } // for
     static std::shared_ptr<geomodelgrids::serial::Block> empty;
     return empty;
 } // _findBlock
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 648d93c..af39775 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -215,6 +215,12 @@ geomodelgrids::serial::Surface::query(const double x,
     double index[2];
     index[0] = _indexingX->getIndex(x);
     index[1] = _indexingY->getIndex(y);
+    for (size_t i = 0; i < 2; ++i) {
+        // Rounding can place a point on the edge of the grid just outside the grid.
+        const double indexMax = double(_dims[i]-1);
+        const double tolerance = 1.0e-6;
+        if ((index[i] > indexMax) && (index[i] < indexMax + tolerance)) { index[i] = indexMax; }
+    } // for
 
     double elevation = geomodelgrids::NODATA_VALUE;
     if ((index[0] >= 0) && (index[0] <= double(_dims[0]-1))
-- 
2.43.0


From 7f2f3be4785754e891a25b2f9bb4dd9252bb7765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 03/67] fix: the cell used for a point on a grid plane depended
 on query history

Whether a point on a grid plane was interpolated from the cell below or above
the plane depended on the current read window, so a query next to NODATA
returned NODATA or data depending on earlier queries and the window size.
---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 52 +++++++++++++++---------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 62edad3..bd6b712 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -54,6 +54,19 @@ public:
 
 private:
 
+    /** Get index of "lower" point (lowest index of cell containing target point) in dataset.
+     *
+     * The cell must not depend on the current hyperslab.
+     *
+     * @param[in] indexFloat Floating point index of target point.
+     * @returns Index of "lower" point.
+     */
+    static
+    double _lowerIndex(const double indexFloat) {
+        const double tolerance = 1.0e-12;
+        return std::max(0.0, std::floor(indexFloat-tolerance));
+    } // _lowerIndex
+
     typedef void (_Hyperslab::*interpolate_fn_type)(double* const values,
                                                     const double indexFloat[]);
 
@@ -203,8 +216,9 @@ geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
     const size_t spaceDim = ndims - 1; // last dimension is values
     if (origin) {
         for (size_t i = 0; i < spaceDim; ++i) {
-            if (( indexFloat[i] - double(origin[i]) < 0.0) ||
-                ( indexFloat[i] >= double(origin[i]+dims[i]-1)) ) {
+            const double indexLower = _lowerIndex(indexFloat[i]);
+            if (( indexLower - double(origin[i]) < 0.0) ||
+                ( indexLower >= double(origin[i]+dims[i]-1)) ) {
                 needsNewSlab = true;
                 break;
             } // if
@@ -218,7 +232,7 @@ geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
     if (needsNewSlab) {
         // Get hyperslab with target point in the center.
         for (size_t i = 0; i < spaceDim; ++i) {
-            hsize_t index = (indexFloat[i] >= dims[i]-1) ? hsize_t(std::floor(indexFloat[i] - (dims[i]-1)/ 2)) : 0;
+            hsize_t index = (indexFloat[i] >= dims[i]-1) ? hsize_t(_lowerIndex(indexFloat[i]) - (dims[i]-1)/ 2) : 0;
             index = std::min(index, dimsAll[i]-dims[i]);
             origin[i] = index;
         } // for
@@ -263,14 +277,13 @@ geomodelgrids::serial::_Hyperslab::_interpolate2D(double* const values,
         indexFloat[0] - _hyperslab._origin[0],
         indexFloat[1] - _hyperslab._origin[1],
     };
-    assert(indexSlab[0] >= 0.0 && indexSlab[0] <= _hyperslab._dims[0]-1);
-    assert(indexSlab[1] >= 0.0 && indexSlab[1] <= _hyperslab._dims[1]-1);
+    assert(indexSlab[0] >= 0.0 && indexSlab[0] < _hyperslab._dims[0]);
+    assert(indexSlab[1] >= 0.0 && indexSlab[1] < _hyperslab._dims[1]);
 
     // Coordinate of "lower" point (corner of cell with lowest indices containing target point).
-    const double tolerance = 1.0e-12;
     const double dfloor[spaceDim] = {
-        std::max(0.0, std::floor(indexSlab[0]-tolerance)),
-        std::max(0.0, std::floor(indexSlab[1]-tolerance)),
+        _lowerIndex(indexFloat[0]) - _hyperslab._origin[0],
+        _lowerIndex(indexFloat[1]) - _hyperslab._origin[1],
     };
 
     // Index of "lower" point
@@ -340,16 +353,15 @@ geomodelgrids::serial::_Hyperslab::_interpolate3D(double* const values,
         indexFloat[1] - _hyperslab._origin[1],
         indexFloat[2] - _hyperslab._origin[2],
     };
-    assert(indexSlab[0] >= 0.0 && indexSlab[0] <= _hyperslab._dims[0]-1);
-    assert(indexSlab[1] >= 0.0 && indexSlab[1] <= _hyperslab._dims[1]-1);
-    assert(indexSlab[2] >= 0.0 && indexSlab[2] <= _hyperslab._dims[2]-1);
+    assert(indexSlab[0] >= 0.0 && indexSlab[0] < _hyperslab._dims[0]);
+    assert(indexSlab[1] >= 0.0 && indexSlab[1] < _hyperslab._dims[1]);
+    assert(indexSlab[2] >= 0.0 && indexSlab[2] < _hyperslab._dims[2]);
 
     // Coordinate of "lower" point (corner of cell with lowest indices containing target point).
-    const double tolerance = 1.0e-12;
     const double dfloor[spaceDim] = {
-        std::max(0.0, std::floor(indexSlab[0]-tolerance)),
-        std::max(0.0, std::floor(indexSlab[1]-tolerance)),
-        std::max(0.0, std::floor(indexSlab[2]-tolerance)),
+        _lowerIndex(indexFloat[0]) - _hyperslab._origin[0],
+        _lowerIndex(indexFloat[1]) - _hyperslab._origin[1],
+        _lowerIndex(indexFloat[2]) - _hyperslab._origin[2],
     };
 
     // Index of "lower" point
@@ -452,8 +464,8 @@ geomodelgrids::serial::_Hyperslab::_nearest2D(double* const values,
         indexFloat[0] - _hyperslab._origin[0],
         indexFloat[1] - _hyperslab._origin[1],
     };
-    assert(indexSlab[0] >= 0.0 && indexSlab[0] <= _hyperslab._dims[0]-1);
-    assert(indexSlab[1] >= 0.0 && indexSlab[1] <= _hyperslab._dims[1]-1);
+    assert(indexSlab[0] >= 0.0 && indexSlab[0] < _hyperslab._dims[0]);
+    assert(indexSlab[1] >= 0.0 && indexSlab[1] < _hyperslab._dims[1]);
 
     // Coordinate of nearest point to target point.
     const double dnearest[spaceDim] = {
@@ -503,9 +515,9 @@ geomodelgrids::serial::_Hyperslab::_nearest3D(double* const values,
         indexFloat[1] - _hyperslab._origin[1],
         indexFloat[2] - _hyperslab._origin[2],
     };
-    assert(indexSlab[0] >= 0.0 && indexSlab[0] <= _hyperslab._dims[0]-1);
-    assert(indexSlab[1] >= 0.0 && indexSlab[1] <= _hyperslab._dims[1]-1);
-    assert(indexSlab[2] >= 0.0 && indexSlab[2] <= _hyperslab._dims[2]-1);
+    assert(indexSlab[0] >= 0.0 && indexSlab[0] < _hyperslab._dims[0]);
+    assert(indexSlab[1] >= 0.0 && indexSlab[1] < _hyperslab._dims[1]);
+    assert(indexSlab[2] >= 0.0 && indexSlab[2] < _hyperslab._dims[2]);
 
     // Coordinate of nearest point to target point.
     const double dnearest[spaceDim] = {
-- 
2.43.0


From af2015b2a9bb322fd7dc351130dc660f181fe158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 04/67] fix: nearest value lookup in a hyperslab always
 returned 0

---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index bd6b712..22f46c7 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -487,8 +487,8 @@ geomodelgrids::serial::_Hyperslab::_nearest2D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
@@ -543,8 +543,8 @@ geomodelgrids::serial::_Hyperslab::_nearest3D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
-- 
2.43.0


From 99dfd948a70e908b89be953699a16c98e0504105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 05/67] fix: units of the first axis of a CRS were reported for
 every axis

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index f30d767..4644a1b 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -232,7 +232,7 @@ geomodelgrids::utils::_CRSTransformer::getAxisUnit(std::string* unit,
     assert(projCoordSys);
 
     const char* buffer = nullptr;
-    proj_cs_get_axis_info(nullptr, projCoordSys, 0, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
+    proj_cs_get_axis_info(nullptr, projCoordSys, axisIndex, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
     if (strcasecmp("metre", buffer) == 0) {
         *unit = "meter";
     } else if (strcasecmp("meter", buffer) == 0) {
-- 
2.43.0


From d66a093b33726d771c6339fed1cbd670517037f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 06/67] fix: asking for the units of an unknown CRS aborted the
 process

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index 4644a1b..15371a6 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -174,7 +174,13 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
     if (!crsString || (0 == strlen(crsString))) { return; }
 
     PJ_CONTEXT* context = PJ_DEFAULT_CTX;
-    PJ* proj = proj_create(context, crsString);assert(proj);
+    PJ* proj = proj_create(context, crsString);
+    if (!proj) {
+        std::stringstream msg;
+        msg << "Error creating CRS from '" << crsString << "'.\n"
+            << proj_errno_string(proj_context_errno(context));
+        throw std::runtime_error(msg.str());
+    } // if
     PJ* projCoordSys = proj_crs_get_coordinate_system(context, proj);
     if (projCoordSys) {
         _CRSTransformer::getUnits(xUnit, yUnit, zUnit, projCoordSys);
-- 
2.43.0


From 22d59dd2b2e9cd7c9b1bde61e424eda1daf056ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 07/67] fix: minimum y of a GeoTiff bounding box was above the
 image

The vertical pixel size in the geographic transformation is negative.
---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 3c2ecdf..6ecc2de 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -148,7 +148,7 @@ geomodelgrids::utils::GeoTiff::getBBox(double* minX,
 
     const double _maxY = _transform[3];
     const double dy = _transform[5];
-    if (minY) { *minY = _maxY - dy * _numRows; }
+    if (minY) { *minY = _maxY + dy * _numRows; }
     if (maxY) { *maxY = _maxY; }
 }
 
-- 
2.43.0


From 6e545b23fd325e51452a5012bd1c03e2740ad05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 08/67] fix: a GeoTiff object could not be used again after it
 was closed

Closing (also after a failed read) destroys the GDAL driver manager, so the
next create() or read() did not find the GeoTiff driver.
---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 6ecc2de..afd9bb7 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -172,6 +172,7 @@ geomodelgrids::utils::GeoTiff::getBands(void) {
 void
 geomodelgrids::utils::GeoTiff::create(const char* filename) {
     this->close();
+    GDALAllRegister(); // close() destroys the driver manager
     _driver = GetGDALDriverManager()->GetDriverByName("GTiff");
     if (!_driver) {
         throw std::runtime_error("Could not get GDAL GeoTiff driver.");
@@ -221,6 +222,7 @@ void
 geomodelgrids::utils::GeoTiff::read(const char* filename) {
     this->close();
     try {
+        GDALAllRegister(); // close() destroys the driver manager
         _driver = GetGDALDriverManager()->GetDriverByName("GTiff");
         if (!_driver) { throw std::runtime_error("Could not get GDAL GeoTiff driver."); }
         _dataset = (GDALDataset*) GDALOpen(filename, GA_ReadOnly);
-- 
2.43.0


From 40fe3027c94c3034868eb38ae175edb02cb21f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 09/67] fix: a query object aborted when used after finalize or
 a failed initialize

---
 libsrc/geomodelgrids/serial/Query.cc | 37 ++++++++++++++++------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Query.cc b/libsrc/geomodelgrids/serial/Query.cc
index 4b63196..722385f 100644
--- a/libsrc/geomodelgrids/serial/Query.cc
+++ b/libsrc/geomodelgrids/serial/Query.cc
@@ -91,29 +91,31 @@ void
 geomodelgrids::serial::Query::initialize(const std::vector<std::string>& modelFilenames,
                                          const std::vector<std::string>& valueNames,
                                          const std::string& inputCRSString) {
-    _valuesLowercase = _Query::toLower(valueNames);
-
-    for (size_t i = 0; i < _models.size(); ++i) {
-        _models[i].reset();
-    } // for
+    // Object is not initialized until setup of all models succeeds.
+    finalize();
 
+    const std::vector<std::string>& valuesLowercase = _Query::toLower(valueNames);
     const size_t numModels = modelFilenames.size();
-    _models.resize(numModels);
-    _valuesIndex.resize(numModels);
+    std::vector<std::unique_ptr<geomodelgrids::serial::Model> > models(numModels);
+    std::vector<values_map_type> valuesIndex(numModels);
     std::map<size_t, std::string> valueUnits;
     for (size_t iModel = 0; iModel < numModels; ++iModel) {
-        _models[iModel] = std::make_unique<geomodelgrids::serial::Model>();assert(_models[iModel]);
-        _models[iModel]->setInputCRS(inputCRSString);
-        _models[iModel]->open(modelFilenames[iModel].c_str(), geomodelgrids::serial::Model::READ);
-        _models[iModel]->loadMetadata();
-        _models[iModel]->initialize();
+        models[iModel] = std::make_unique<geomodelgrids::serial::Model>();assert(models[iModel]);
+        models[iModel]->setInputCRS(inputCRSString);
+        models[iModel]->open(modelFilenames[iModel].c_str(), geomodelgrids::serial::Model::READ);
+        models[iModel]->loadMetadata();
+        models[iModel]->initialize();
 
-        _valuesIndex[iModel] = _Query::createModelValuesIndex(*_models[iModel], _valuesLowercase);
+        valuesIndex[iModel] = _Query::createModelValuesIndex(*models[iModel], valuesLowercase);
 
-        const std::vector<std::string>& modelValues = _models[iModel]->getValueNames();
-        const std::vector<std::string>& modelUnitsLower = _Query::toLower(_models[iModel]->getValueUnits());
-        _Query::checkUnits(&valueUnits, _valuesIndex[iModel], modelValues, modelUnitsLower);
+        const std::vector<std::string>& modelValues = models[iModel]->getValueNames();
+        const std::vector<std::string>& modelUnitsLower = _Query::toLower(models[iModel]->getValueUnits());
+        _Query::checkUnits(&valueUnits, valuesIndex[iModel], modelValues, modelUnitsLower);
     } // for
+
+    _valuesLowercase = valuesLowercase;
+    _models.swap(models);
+    _valuesIndex.swap(valuesIndex);
 } // initialize
 
 
@@ -251,6 +253,9 @@ geomodelgrids::serial::Query::finalize(void) {
             _models[i]->close();
         } // if
     } // for
+    _models.clear();
+    _valuesIndex.clear();
+    _valuesLowercase.clear();
 } // finalize
 
 
-- 
2.43.0


From e0050467c361237c5d09bfaf6b2ae95b54f5e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 10/67] fix: attributes of unexpected rank, size or type
 overran memory or aborted

---
 libsrc/geomodelgrids/serial/HDF5.cc | 52 ++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 75bb504..d390fb9 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -299,7 +299,11 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
         h5access.attribute = H5Aopen_by_name(_file, path, name, H5P_DEFAULT, H5P_DEFAULT);
         if (h5access.attribute < 0) { throw std::runtime_error("Could not open"); }
 
-        hid_t err = H5Aread(h5access.attribute, datatype, value);
+        h5access.dataspace = H5Aget_space(h5access.attribute);
+        if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
+        if (1 != H5Sget_simple_extent_npoints(h5access.dataspace)) { throw std::runtime_error("Expected one value in"); }
+
+        herr_t err = H5Aread(h5access.attribute, datatype, value);
         if (err < 0) { throw std::runtime_error("Could not read"); }
 
     } catch (std::exception& err) {
@@ -331,16 +335,21 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
+        const int ndims = H5Sget_simple_extent_ndims(h5access.dataspace);
+        if (1 != ndims) { throw std::runtime_error("Expected array of values in"); }
         hsize_t dims[1];
         H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numValues = dims[0];assert(numValues > 0);
+        const hsize_t numValues = dims[0];
+        if (0 == numValues) { throw std::runtime_error("No values in"); }
 
         hsize_t typeNumBytes = H5Tget_size(datatype);
-        void* buffer = (void*) new char[numValues * typeNumBytes];
+        char* buffer = new char[numValues * typeNumBytes];
 
         herr_t err = H5Aread(h5access.attribute, datatype, buffer);
-        if (err < 0) { throw std::runtime_error("Could not read"); }
+        if (err < 0) {
+            delete[] buffer;buffer = nullptr;
+            throw std::runtime_error("Could not read");
+        } // if
 
         *valuesSize = numValues;
         *values = buffer;
@@ -375,6 +384,9 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
 
+        if (H5T_STRING != H5Tget_class(h5access.datatype)) { throw std::runtime_error("Expected string in"); }
+        if (1 != H5Sget_simple_extent_npoints(h5access.dataspace)) { throw std::runtime_error("Expected one string in"); }
+
         char* buffer = nullptr;
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
             const hsize_t stringLength = H5Tget_size(h5access.datatype);
@@ -382,14 +394,17 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
             buffer[stringLength] = '\0';
 
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer);
-            if (err < 0) { throw std::runtime_error("Could not read"); }
+            if (err < 0) {
+                delete[] buffer;buffer = nullptr;
+                throw std::runtime_error("Could not read");
+            } // if
             value = buffer;
 
             delete[] buffer;buffer = nullptr;
         } else {
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, &buffer);
             if (err < 0) { throw std::runtime_error("Could not read"); }
-            value = buffer;
+            value = (buffer) ? buffer : "";
 
             err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, &buffer);
             if (err < 0) { throw std::runtime_error("Could not reclaim variable length string for"); }
@@ -426,10 +441,16 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
+        if (H5T_STRING != H5Tget_class(h5access.datatype)) { throw std::runtime_error("Expected strings in"); }
+        const int ndims = H5Sget_simple_extent_ndims(h5access.dataspace);
+        if (1 != ndims) { throw std::runtime_error("Expected array of strings in"); }
         hsize_t dims[1];
         H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numStrings = dims[0];assert(numStrings > 0);
+        const hsize_t numStrings = dims[0];
+        if (0 == numStrings) {
+            values->clear();
+            return;
+        } // if
 
         char** buffer = new char*[numStrings];
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
@@ -440,7 +461,11 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
             } // for
 
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer[0]);
-            if (err < 0) { throw std::runtime_error("Could not read"); }
+            if (err < 0) {
+                delete[] buffer[0];buffer[0] = nullptr;
+                delete[] buffer;buffer = nullptr;
+                throw std::runtime_error("Could not read");
+            } // if
 
             values->resize(numStrings);
             for (size_t i = 0; i < values->size(); ++i) {
@@ -456,11 +481,14 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
             delete[] buffer[0];buffer[0] = nullptr;
         } else {
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer);
-            if (err < 0) { throw std::runtime_error("Could not read"); }
+            if (err < 0) {
+                delete[] buffer;buffer = nullptr;
+                throw std::runtime_error("Could not read");
+            } // if
 
             values->resize(numStrings);
             for (size_t i = 0; i < values->size(); ++i) {
-                (*values)[i] = buffer[i];
+                (*values)[i] = (buffer[i]) ? buffer[i] : "";
             } // for
 
             err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, buffer);
-- 
2.43.0


From 41f642c2dd57d261475045b13ca6ca6d7026f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 11/67] fix: links that are not datasets and long dataset names
 were misread in groups

---
 libsrc/geomodelgrids/serial/HDF5.cc | 33 ++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index d390fb9..eedf6a8 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -146,16 +146,17 @@ geomodelgrids::serial::HDF5::hasGroup(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    if (H5Lexists(_file, name, H5P_DEFAULT) > 0) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
+        if (h5access.object < 0) { return false; } // Link to object that does not exist.
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
 #else
         herr_t err = H5Oget_info(h5access.object, &info);
 #endif
-        assert(err >= 0);
+        if (err < 0) { return false; }
         if (H5O_TYPE_GROUP == info.type) {
             exists = true;
         } // if
@@ -173,16 +174,17 @@ geomodelgrids::serial::HDF5::hasDataset(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    if (H5Lexists(_file, name, H5P_DEFAULT) > 0) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
+        if (h5access.object < 0) { return false; } // Link to object that does not exist.
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
 #else
         herr_t err = H5Oget_info(h5access.object, &info);
 #endif
-        assert(err >= 0);
+        if (err < 0) { return false; }
         if (H5O_TYPE_DATASET == info.type) {
             exists = true;
         } // if
@@ -251,12 +253,19 @@ geomodelgrids::serial::HDF5::getGroupDatasets(std::vector<std::string>* names,
         } // if
         const int gsize = ginfo.nlinks;
 
-        names->resize(gsize);
-        for (int i = 0, index = 0; i < gsize; ++i) {
-            char buffer[256];
-            ssize_t namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
-                                                 buffer, 256, H5P_DEFAULT);assert(namelen > 0);
-            (*names)[index++] = buffer;
+        names->clear();
+        for (int i = 0; i < gsize; ++i) {
+            const ssize_t namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
+                                                       nullptr, 0, H5P_DEFAULT);
+            if (namelen <= 0) {
+                throw std::runtime_error("Could not get name of object in group.");
+            } // if
+            std::vector<char> buffer(namelen+1);
+            H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i, &buffer[0], buffer.size(), H5P_DEFAULT);
+            const std::string name(&buffer[0]);
+            if (hasDataset((std::string(path) + "/" + name).c_str())) {
+                names->push_back(name);
+            } // if
         } // for
 
     } catch (const std::exception& err) {
-- 
2.43.0


From 302311466922f031c1b804209c04cec8bc0a7af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 12/67] fix: datasets of unexpected rank or size aborted or
 overran memory

---
 libsrc/geomodelgrids/serial/Block.cc   |  6 +++++-
 libsrc/geomodelgrids/serial/Model.cc   | 12 ++++++++++++
 libsrc/geomodelgrids/serial/Surface.cc |  6 +++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index e7e56dc..318bcae 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -122,7 +122,11 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, blockPath.c_str());
-    assert(4 == ndims);
+    if ((4 != ndims) || (hdims[0] < 2) || (hdims[1] < 2) || (hdims[2] < 2) || (hdims[3] < 1)) {
+        msg << indent << "    block " << blockPath << " must have dimensions (nx, ny, nz, nvalues) with at least 2 points along x, y, and z.\n";
+        delete[] hdims;hdims = nullptr;
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 3; ++i) {
         _dims[i] = hdims[i];
     } // for
diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index ec19a43..80c0cf9 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -138,6 +138,12 @@ geomodelgrids::serial::Model::loadMetadata(void) {
         msg << indent << "    /data_units\n";
         missingAttributes = true;
     } // if/else
+    const bool hasValueNames = _h5->hasAttribute("/", "data_values");
+    if (hasValueNames && _h5->hasAttribute("/", "data_units") && (_valueUnits.size() != _valueNames.size())) {
+        msg << indent << "    number of units in /data_units (" << _valueUnits.size()
+            << ") does not match number of names in /data_values (" << _valueNames.size() << ")\n";
+        missingAttributes = true;
+    } // if
 
     if (_h5->hasAttribute("/", "data_layout")) {
         const std::string& layoutString = _h5->readAttribute("/", "data_layout");
@@ -240,7 +246,13 @@ geomodelgrids::serial::Model::loadMetadata(void) {
         } catch (std::runtime_error& err) {
             msg << err.what();
             missingAttributes = true;
+            continue;
         } // try/catch
+        if (hasValueNames && (_blocks[i]->getNumValues() != _valueNames.size())) {
+            msg << indent << "    number of values in block '" << blockNames[i] << "' (" << _blocks[i]->getNumValues()
+                << ") does not match number of names in /data_values (" << _valueNames.size() << ")\n";
+            missingAttributes = true;
+        } // if
     } // for
     std::sort(_blocks.begin(), _blocks.end(), Block::compare);
 
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index af39775..04be3fe 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -85,7 +85,11 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, surfacePath.c_str());
-    assert(3 == ndims);
+    if ((3 != ndims) || (hdims[0] < 2) || (hdims[1] < 2) || (1 != hdims[2])) {
+        msg << indent << "    surface " << surfacePath << " must have dimensions (nx, ny, 1) with at least 2 points along x and y.\n";
+        delete[] hdims;hdims = nullptr;
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 2; ++i) {
         _dims[i] = hdims[i];
     } // for
-- 
2.43.0


From 389f19a41eef501bc068e389675b7f6761772775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 13/67] fix: sorting repeated descending coordinates read
 outside the array

---
 libsrc/geomodelgrids/utils/Indexing.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/Indexing.hh b/libsrc/geomodelgrids/utils/Indexing.hh
index a82a92f..e4b9f0b 100644
--- a/libsrc/geomodelgrids/utils/Indexing.hh
+++ b/libsrc/geomodelgrids/utils/Indexing.hh
@@ -103,7 +103,7 @@ public:
     inline static
     bool greater(const double x,
                  const double y) {
-        return x >= y;
+        return x > y;
     }
 
     // PRIVATE ------------------------------------------------------------------------------------
-- 
2.43.0


From 13239f6a5ec3bb4b1180f688c373f1d8d03d38aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 14/67] fix: slab access outside a dataset read unrelated
 memory

---
 libsrc/geomodelgrids/serial/HDF5.cc      |  2 +-
 libsrc/geomodelgrids/serial/Hyperslab.cc | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index eedf6a8..c450897 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -552,7 +552,7 @@ geomodelgrids::serial::HDF5::readDatasetHyperslab(void* values,
             throw std::length_error(msg.str());
         } // if
         for (int i = 0; i < ndimsAll; ++i) {
-            if (origin[i] + dims[i] > dimsAll[i]) {
+            if ((dims[i] > dimsAll[i]) || (origin[i] > dimsAll[i] - dims[i])) {
                 std::ostringstream msg;
                 msg << "Hyperslab extent in dimension " << i
                     << " (origin:" << origin[i] << ", dim: " << dims[i] << ") "
diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 22f46c7..f7c66a1 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -214,6 +214,20 @@ geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
 
     bool needsNewSlab = false;
     const size_t spaceDim = ndims - 1; // last dimension is values
+    for (size_t i = 0; i < spaceDim; ++i) {
+        if (dims[i] < 2) {
+            std::ostringstream msg;
+            msg << "Hyperslab for dataset '" << _hyperslab._datasetPath << "' must have at least 2 points in dimension " << i
+                << " to hold a grid cell.";
+            throw std::length_error(msg.str());
+        } // if
+        if (!((indexFloat[i] >= 0.0) && (indexFloat[i] <= double(dimsAll[i]-1)))) {
+            std::ostringstream msg;
+            msg << "Index " << indexFloat[i] << " in dimension " << i << " is outside dataset '"
+                << _hyperslab._datasetPath << "'.";
+            throw std::out_of_range(msg.str());
+        } // if
+    } // for
     if (origin) {
         for (size_t i = 0; i < spaceDim; ++i) {
             const double indexLower = _lowerIndex(indexFloat[i]);
-- 
2.43.0


From 1bd0acb2d8c53f450129b8874b5c6b5e8e0d5847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 15/67] fix: queries after a failed read of a slab returned
 uninitialized values

---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index f7c66a1..9d77744 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -251,8 +251,14 @@ geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
             origin[i] = index;
         } // for
 
-        _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), origin, dims, ndims,
-                                             H5T_NATIVE_DOUBLE);
+        try {
+            _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), origin, dims, ndims,
+                                                 H5T_NATIVE_DOUBLE);
+        } catch (...) {
+            // Values do not hold a slab.
+            delete[] _hyperslab._origin;_hyperslab._origin = nullptr;
+            throw;
+        } // try/catch
     } // if
 } // getSlab
 
-- 
2.43.0


From 8737340a697dae1bda9f6776fcb2932a7a2eb4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 16/67] fix: elevation queries in steep terrain returned NODATA
 inside the model

---
 libsrc/geomodelgrids/serial/Model.cc | 13 +++++++++++++
 libsrc/geomodelgrids/serial/Model.hh |  9 +++++++++
 libsrc/geomodelgrids/serial/Query.cc | 12 ++++--------
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index 80c0cf9..cd56efc 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -393,6 +393,19 @@ geomodelgrids::serial::Model::contains(const double x,
 } // contains
 
 
+// ------------------------------------------------------------------------------------------------
+// Does model contain given horizontal location?
+bool
+geomodelgrids::serial::Model::containsXY(const double x,
+                                         const double y) const {
+    double xModel = 0.0;
+    double yModel = 0.0;
+    _toModelXYZ(&xModel, &yModel, nullptr, x, y, 0.0);
+
+    return ( xModel >= 0.0) && ( xModel <= _dims[0]) && ( yModel >= 0.0) && ( yModel <= _dims[1]);
+} // containsXY
+
+
 // ------------------------------------------------------------------------------------------------
 // Query for elevation of top of model at point using bilinear interpolation.
 double
diff --git a/libsrc/geomodelgrids/serial/Model.hh b/libsrc/geomodelgrids/serial/Model.hh
index 9c6445f..2392ee5 100644
--- a/libsrc/geomodelgrids/serial/Model.hh
+++ b/libsrc/geomodelgrids/serial/Model.hh
@@ -137,6 +137,15 @@ public:
                   const double y,
                   const double z) const;
 
+    /** Does model contain given horizontal location?
+     *
+     * @param[in] x X coordinate of location (in input CRS).
+     * @param[in] y Y coordinate of location (in input CRS).
+     * @returns True if domain of model contains given location, false otherwise.
+     */
+    bool containsXY(const double x,
+                    const double y) const;
+
     /** Query for elevation of top of model at point using bilinear interpolation.
      *
      * @param[in] x X coordinate of point (in input CRS).
diff --git a/libsrc/geomodelgrids/serial/Query.cc b/libsrc/geomodelgrids/serial/Query.cc
index 722385f..46086bb 100644
--- a/libsrc/geomodelgrids/serial/Query.cc
+++ b/libsrc/geomodelgrids/serial/Query.cc
@@ -152,12 +152,10 @@ double
 geomodelgrids::serial::Query::queryTopElevation(const double x,
                                                 const double y) {
     double elevation = NODATA_VALUE;
-    const double zOffset = -1.0e-3;
     for (size_t i = 0; i < _models.size(); ++i) {
         assert(_models[i]);
-        const double elevationTmp = _models[i]->queryTopElevation(x, y);
-        if (_models[i]->contains(x, y, elevationTmp+zOffset)) {
-            elevation = elevationTmp;
+        if (_models[i]->containsXY(x, y)) {
+            elevation = _models[i]->queryTopElevation(x, y);
             break;
         } // if
     } // for
@@ -172,12 +170,10 @@ double
 geomodelgrids::serial::Query::queryTopoBathyElevation(const double x,
                                                       const double y) {
     double elevation = NODATA_VALUE;
-    const double zOffset = -1.0e-3;
     for (size_t i = 0; i < _models.size(); ++i) {
         assert(_models[i]);
-        const double elevationTmp = _models[i]->queryTopoBathyElevation(x, y);
-        if (_models[i]->contains(x, y, elevationTmp+zOffset)) {
-            elevation = elevationTmp;
+        if (_models[i]->containsXY(x, y)) {
+            elevation = _models[i]->queryTopoBathyElevation(x, y);
             break;
         } // if
     } // for
-- 
2.43.0


From 5c8dfc12346123fa04f2333681d51ef108e0d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:48 +0000
Subject: [PATCH 17/67] fix: error for a CRS that cannot be normalized used a
 destroyed object

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index 15371a6..645a4c7 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -142,7 +142,7 @@ geomodelgrids::utils::CRSTransformer::createGeoToXYAxisOrder(const char* crsStri
 
         std::stringstream msg;
         msg << "Error creating normalized CRS from '" << crsString << "'.\n"
-            << proj_errno_string(proj_errno(projGeo));
+            << proj_errno_string(proj_context_errno(context));
         throw std::runtime_error(msg.str());
     }
     PJ* transform = proj_create_crs_to_crs_from_pj(context, projGeo, projXY, nullptr, nullptr);
@@ -151,7 +151,7 @@ geomodelgrids::utils::CRSTransformer::createGeoToXYAxisOrder(const char* crsStri
     if (!transform) {
         std::stringstream msg;
         msg << "Error geo to xy transformation for CRS from '" << crsString << "'.\n"
-            << proj_errno_string(proj_errno(transform));
+            << proj_errno_string(proj_context_errno(context));
         throw std::runtime_error(msg.str());
     } // if
     CRSTransformer* transformer = new CRSTransformer();
-- 
2.43.0


From a6f53f67f1e6f3a3b7c4b3c0a436b6e398261700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 18/67] fix: units of a compound CRS were reported as unknown

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index 645a4c7..154d819 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -181,6 +181,24 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
             << proj_errno_string(proj_context_errno(context));
         throw std::runtime_error(msg.str());
     } // if
+    if (proj_get_type(proj) == PJ_TYPE_COMPOUND_CRS) {
+        PJ* projHoriz = proj_crs_get_sub_crs(context, proj, 0);
+        PJ* projVert = proj_crs_get_sub_crs(context, proj, 1);
+        proj_destroy(proj);
+        PJ* csHoriz = projHoriz ? proj_crs_get_coordinate_system(context, projHoriz) : nullptr;
+        if (csHoriz) {
+            _CRSTransformer::getUnits(xUnit, yUnit, nullptr, csHoriz);
+        } // if
+        PJ* csVert = projVert ? proj_crs_get_coordinate_system(context, projVert) : nullptr;
+        if (csVert && zUnit && (proj_cs_get_axis_count(context, csVert) >= 1)) {
+            _CRSTransformer::getAxisUnit(zUnit, csVert, 0);
+        } // if
+        proj_destroy(csHoriz);
+        proj_destroy(csVert);
+        proj_destroy(projHoriz);
+        proj_destroy(projVert);
+        return;
+    } // if
     PJ* projCoordSys = proj_crs_get_coordinate_system(context, proj);
     if (projCoordSys) {
         _CRSTransformer::getUnits(xUnit, yUnit, zUnit, projCoordSys);
-- 
2.43.0


From b5bcced4ec095086cdb46c24f3184b2da04121fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 19/67] fix: batches exceeded the size limit, were empty or
 could not be made for some grids

---
 geomodelgrids/create/utils/batch.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/geomodelgrids/create/utils/batch.py b/geomodelgrids/create/utils/batch.py
index d9c5cf4..2959a2c 100644
--- a/geomodelgrids/create/utils/batch.py
+++ b/geomodelgrids/create/utils/batch.py
@@ -31,7 +31,7 @@ class BatchGenerator2D():
             self.bnum_x = num_x
             self.bnum_y = num_y
         else:
-            num_xy = round(max_nvalues**0.5)
+            num_xy = math.isqrt(max_nvalues)
             if num_x > num_xy and num_y > num_xy:
                 self.bnum_x = self.bnum_y = num_xy
             elif num_x <= num_xy:
@@ -121,11 +121,13 @@ class BatchGenerator3D():
             self.bnum_z = num_z
         else:
             num_xyz = round(max_nvalues**(1.0 / 3.0))
+            if num_xyz**3 > max_nvalues:
+                num_xyz -= 1
             if num_x > num_xyz and num_y > num_xyz and num_z > num_xyz:
                 self.bnum_x = self.bnum_y = self.bnum_z = num_xyz
             elif num_z <= num_xyz:
                 self.bnum_z = num_z
-                num_xy = round((max_nvalues // num_z)**0.5)
+                num_xy = math.isqrt(max_nvalues // num_z)
                 if num_x > num_xy and num_y > num_xy:
                     self.bnum_x = self.bnum_y = num_xy
                 elif num_x <= num_xy:
@@ -138,19 +140,28 @@ class BatchGenerator3D():
                     raise ValueError("Unknown case")
             elif num_x <= num_xyz:
                 self.bnum_x = num_x
-                num_yz = round((max_nvalues // num_x)**0.5)
+                num_yz = math.isqrt(max_nvalues // num_x)
                 if num_y > num_yz and num_z > num_yz:
                     self.bnum_y = self.bnum_z = num_yz
                 elif num_y <= num_yz:
                     self.bnum_y = num_y
                     self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_yz:
+                    self.bnum_z = num_z
+                    self.bnum_y = max_nvalues // (num_x * num_z)
                 else:
                     raise ValueError("Unknown case")
             elif num_y <= num_xyz:
                 self.bnum_y = num_y
-                num_xz = round((max_nvalues // num_y)**0.5)
+                num_xz = math.isqrt(max_nvalues // num_y)
                 if num_x > num_xz and num_z > num_xz:
                     self.bnum_x = self.bnum_z = num_xz
+                elif num_x <= num_xz:
+                    self.bnum_x = num_x
+                    self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_xz:
+                    self.bnum_z = num_z
+                    self.bnum_x = max_nvalues // (num_y * num_z)
                 else:
                     raise ValueError("Unknown case")
             else:
-- 
2.43.0


From d291d1a25c3e79d10a6d430338d0a279c48a3469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:21 +0000
Subject: [PATCH 20/67] fix: lists without brackets or with surrounding
 whitespace lost characters

---
 geomodelgrids/create/io/hdf5.py      | 2 +-
 geomodelgrids/create/utils/config.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 50ac313..5ff99ce 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -209,7 +209,7 @@ class HDF5Storage():
                         raise ValueError(
                             f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(iter_value)}'.")
                 if value_type == str:
-                    result = [numpy.string_(v) for v in value]
+                    result = [numpy.string_(v) for v in value] if value else numpy.empty(0, dtype="S1")
                 else:
                     result = value
             else:
diff --git a/geomodelgrids/create/utils/config.py b/geomodelgrids/create/utils/config.py
index 1cb02d0..9a685c4 100644
--- a/geomodelgrids/create/utils/config.py
+++ b/geomodelgrids/create/utils/config.py
@@ -22,9 +22,12 @@ def string_to_list(list_string, delimiter=","):
     if isinstance(list_string, list):
         return list_string
 
-    PATTERN = "[\[\(]?([\w\s,]+)[\]\)]?"
-    values = [value.strip() for value in list_string[1:-1].split(delimiter)]
-    return values
+    values_string = list_string.strip()
+    if values_string[:1] + values_string[-1:] in ("[]", "()"):
+        values_string = values_string[1:-1].strip()
+    if not values_string:
+        return []
+    return [value.strip() for value in values_string.split(delimiter)]
 
 
 def get_config(filenames, keep_case=True, verbose=False):
-- 
2.43.0


From 99a5de7292b321aac40560afb83e899dcd7eef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 21/67] fix: lists of strings with non-ASCII characters could
 not be stored

---
 geomodelgrids/create/io/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 5ff99ce..f9773bb 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -209,7 +209,7 @@ class HDF5Storage():
                         raise ValueError(
                             f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(iter_value)}'.")
                 if value_type == str:
-                    result = [numpy.string_(v) for v in value] if value else numpy.empty(0, dtype="S1")
+                    result = [numpy.string_(v.encode("utf-8")) for v in value] if value else numpy.empty(0, dtype="S1")
                 else:
                     result = value
             else:
-- 
2.43.0


From 36c34c9a87e4a54bf97a2fbac72bdb5fb8b13b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 22/67] fix: roundoff errors dropped the last points of a grid

---
 geomodelgrids/create/core/model.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 7bb7325..6ba5ef7 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -13,6 +13,21 @@ from geomodelgrids.create.utils import batch
 from geomodelgrids.create.io.hdf5 import HDF5Storage
 
 
+def _num_points(length, resolution):
+    """Get number of grid points with given resolution that fit in a length.
+
+    Args:
+        length (float)
+            Length to cover.
+        resolution (float)
+            Distance between points.
+    Returns:
+        Number of points.
+    """
+    TOLERANCE = 1.0e-6  # Fraction of resolution; allows for roundoff errors.
+    return 1 + int(length / resolution + TOLERANCE)
+
+
 class Surface():
     """Model surface.
 
@@ -61,8 +76,8 @@ class Surface():
         Returns:
             Tuple of number of points along each dimension (num_x, num_y).
         """
-        num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution) if self.x_resolution else len(self.x_coordinates)
-        num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution) if self.y_resolution else len(self.y_coordinates)
+        num_x = _num_points(self.model_metadata.dim_x, self.x_resolution) if self.x_resolution else len(self.x_coordinates)
+        num_y = _num_points(self.model_metadata.dim_y, self.y_resolution) if self.y_resolution else len(self.y_coordinates)
         return (num_x, num_y, 1)
 
     def get_batches(self, batch_size):
@@ -191,15 +206,15 @@ class Block():
             Tuple of number of points along each dimension (num_x, num_y, num_z).
         """
         if self.x_resolution:
-            num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution)
+            num_x = _num_points(self.model_metadata.dim_x, self.x_resolution)
         else:
             num_x = len(self.x_coordinates)
         if self.y_resolution:
-            num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution)
+            num_y = _num_points(self.model_metadata.dim_y, self.y_resolution)
         else:
             num_y = len(self.y_coordinates)
         if self.z_resolution:
-            num_z = 1 + int((self.z_top - self.z_bot) / self.z_resolution)
+            num_z = _num_points(self.z_top - self.z_bot, self.z_resolution)
         else:
             num_z = len(self.z_coordinates)
         return (num_x, num_y, num_z)
-- 
2.43.0


From f8af996d0030ea2535cc4b44287addabbe985ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 23/67] fix: models could not be created without batches

---
 geomodelgrids/create/apps/create_model.py |  2 +-
 geomodelgrids/create/core/model.py        | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index 8907cfb..c71a911 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -85,7 +85,7 @@ class App():
                         model.save_top_surface(elevation, batch)
                 else:
                     points = model.top_surface.generate_points()
-                    elevation = datasrc.get_top_surface()
+                    elevation = datasrc.get_top_surface(points)
                     model.save_top_surface(elevation)
             if model.topo_bathy:
                 model.init_topography_bathymetry()
diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 6ba5ef7..96bcd60 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -257,7 +257,7 @@ class Block():
             y_start = 0
             y_end = num_y
             z_start = 0
-            z_end = 0
+            z_end = num_z
 
         if self.x_resolution:
             x1 = numpy.linspace(0.0, self.x_resolution * (num_x - 1), num_x)[x_start:x_end]
@@ -322,7 +322,7 @@ class Block():
                 indices = numpy.arange(0, surf_range[1]-surf_range[0], step=block_skip, dtype=numpy.int64)
             else:
                 surf_range = None
-                indices = numpy.arange(0, surfae_dim+0.5, step=block_skip, dtype=numpy.int64)
+                indices = numpy.arange(0, surfae_dim, step=block_skip, dtype=numpy.int64)
             return (surf_range, indices)
 
         def _get_slice_variable(block_coordinates, surface_coordinates, batch_range):
@@ -358,16 +358,18 @@ class Block():
             raise ValueError("Cannot use variable y-resolution block with uniform y-resolution surface.")
 
         surface_dims = surface.get_dims()
+        batch_xrange = batch.x_range if batch else None
+        batch_yrange = batch.y_range if batch else None
         if self.x_resolution:
             (surf_xrange, x_indices) = _get_slice_uniform(self.x_resolution, surface_dims[0],
-                                                          surface.x_resolution, batch.x_range)
+                                                          surface.x_resolution, batch_xrange)
         else:
-            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, batch.x_range)
+            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, batch_xrange)
         if self.y_resolution:
             (surf_yrange, y_indices) = _get_slice_uniform(self.y_resolution, surface_dims[1],
-                                                          surface.y_resolution, batch.y_range)
+                                                          surface.y_resolution, batch_yrange)
         else:
-            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, batch.y_range)
+            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, batch_yrange)
 
         if batch:
             surface_batch = BatchSurface(surf_xrange, surf_yrange)
-- 
2.43.0


From 4ffda5e68c476b5094975747b5e7dddd97f7886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 24/67] fix: batches of blocks with variable coordinates used
 the wrong part of the top surface

---
 geomodelgrids/create/core/model.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 96bcd60..7ce10f9 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -326,26 +326,17 @@ class Block():
             return (surf_range, indices)
 
         def _get_slice_variable(block_coordinates, surface_coordinates, batch_range):
+            scoords_sorted = numpy.array(surface_coordinates)
+            scoords_sorted.sort()
+            block_values = block_coordinates[batch_range[0]:batch_range[1]] if batch else block_coordinates
+            indices = scoords_sorted.searchsorted(numpy.array(block_values) - TOLERANCE)
+            for index, block_coord in zip(indices, block_values):
+                if index >= len(scoords_sorted) or math.fabs(scoords_sorted[index] - block_coord) > TOLERANCE:
+                    raise ValueError(
+                        f"Could not find surface coordinate matching block coordinate ({block_coord}).")
+            surf_range = (numpy.min(indices), numpy.max(indices)+1)
             if batch:
-                block_values = block_coordinates[batch_range[0]:batch_range[1]]
-                scoords_sorted = numpy.array(surface_coordinates)
-                scoords_sorted.sort()
-                indices = scoords_sorted.searchsorted(block_values)
-                for index, block_coord in zip(indices, block_values):
-                    if math.fabs(scoords_sorted[index] - block_coord) > TOLERANCE:
-                        raise ValueError(
-                            f"Could not find surface coordinate matching block coordinate ({block_coord}).")
-                indices -= indices[0]
-                surf_range = (numpy.min(indices), numpy.max(indices)+1)
-            else:
-                scoords_sorted = numpy.array(surface_coordinates)
-                scoords_sorted.sort()
-                indices = scoords_sorted.searchsorted(block_coordinates)
-                for index, block_coord in zip(indices, block_coordinates):
-                    if abs(scoords_sorted[index] - block_coord) > TOLERANCE:
-                        raise ValueError(
-                            f"Could not find surface coordinate matching block coordinate ({block_coord}).")
-                surf_range = (numpy.min(indices), numpy.max(indices)+1)
+                indices = indices - surf_range[0]
             return (surf_range, indices)
 
         if self.x_resolution and not surface.x_resolution:
-- 
2.43.0


From 6b390be43f05c5cbd8b7b5c826633e6001720b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 25/67] fix: batches one point wide in y failed

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 7ce10f9..c5dd713 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -368,7 +368,7 @@ class Block():
             surface_batch = None
 
         elevation = surface.storage.load_surface(surface, surface_batch)
-        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze())
+        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze(axis=2))
 
     def get_attributes(self):
         """Get attributes associated with block.
-- 
2.43.0


From 4c842440c035e89c16ec98aa75650c40b555757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 26/67] fix: top offset was applied at the top of every batch
 rather than the top of the block

---
 geomodelgrids/create/core/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index c5dd713..e68240f 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -282,7 +282,8 @@ class Block():
                     (domain_top - domain_bot) * (self.z_top - z[:, :, iz] - domain_bot)
         else:
             z = self.z_top - z
-        z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
+        if z_start == 0:
+            z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
 
         xyz_geo = numpy.stack((x, y, z), axis=3)
         xyz_model = numpy.zeros(xyz_geo.shape)
-- 
2.43.0


From 760d7ea32a5542f42dbffbf2b9c20710b752e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:16 +0000
Subject: [PATCH 27/67] fix: errors for inconsistent surfaces and attribute
 types used undefined variables

---
 geomodelgrids/create/io/hdf5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index f9773bb..37b012f 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -112,7 +112,9 @@ class HDF5Storage():
                         raise ValueError(
                             f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
             else:
-                if getattr(surface, attr_name) != attrs[attr_name]:
+                config_attr = getattr(surface, attr_name)
+                h5_attr = attrs[attr_name]
+                if config_attr != h5_attr:
                     raise ValueError(
                         f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
 
@@ -207,7 +209,7 @@ class HDF5Storage():
                 for list_value in value:
                     if not isinstance(list_value, value_type):
                         raise ValueError(
-                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(iter_value)}'.")
+                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
                     result = [numpy.string_(v.encode("utf-8")) for v in value] if value else numpy.empty(0, dtype="S1")
                 else:
-- 
2.43.0


From ac85ee74be25d06ed92505f741dcde94ecf2917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 28/67] fix: order of points differed from that used by queries
 if coordinates were not sorted

---
 geomodelgrids/create/core/model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index e68240f..1b946be 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -59,13 +59,13 @@ class Surface():
             self.x_coordinates = None
         else:
             self.x_resolution = None
-            self.x_coordinates = tuple(map(float, string_to_list(config["x_coordinates"])))
+            self.x_coordinates = tuple(sorted(map(float, string_to_list(config["x_coordinates"]))))
         if "y_resolution" in config:
             self.y_resolution = float(config["y_resolution"])
             self.y_coordinates = None
         else:
             self.y_resolution = None
-            self.y_coordinates = tuple(map(float, string_to_list(config["y_coordinates"])))
+            self.y_coordinates = tuple(sorted(map(float, string_to_list(config["y_coordinates"]))))
 
         self.chunk_size = tuple(map(int, string_to_list(config["chunk_size"])))
         self.storage = storage
@@ -178,13 +178,13 @@ class Block():
             self.x_coordinates = None
         else:
             self.x_resolution = None
-            self.x_coordinates = tuple(map(float, string_to_list(config["x_coordinates"])))
+            self.x_coordinates = tuple(sorted(map(float, string_to_list(config["x_coordinates"]))))
         if "y_resolution" in config:
             self.y_resolution = float(config["y_resolution"])
             self.y_coordinates = None
         else:
             self.y_resolution = None
-            self.y_coordinates = tuple(map(float, string_to_list(config["y_coordinates"])))
+            self.y_coordinates = tuple(sorted(map(float, string_to_list(config["y_coordinates"]))))
         if "z_resolution" in config:
             self.z_resolution = float(config["z_resolution"])
             self.z_coordinates = None
@@ -192,7 +192,7 @@ class Block():
             self.z_bot = float(config["z_bot"])
         else:
             self.z_resolution = None
-            self.z_coordinates = tuple(map(float, string_to_list(config["z_coordinates"])))
+            self.z_coordinates = tuple(sorted(map(float, string_to_list(config["z_coordinates"])), reverse=True))
             self.z_top = numpy.max(self.z_coordinates)
             self.z_bot = numpy.min(self.z_coordinates)
 
-- 
2.43.0


From e9ef709d33f67fdb3c7fc7d9a599a95fcbb23817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 29/67] fix: create_model command line never passed the
 configuration files

---
 geomodelgrids/create/apps/create_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index c71a911..1c9e7f5 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -153,13 +153,15 @@ def cli():
     parser.add_argument("--debug", action="store_true", dest="debug")
     args = parser.parse_args()
 
-    app = App(show_progress=True, debug=args.debug, log_filename=args.log_filename)
+    app = App(show_progress=args.show_progress, debug=args.debug, log_filename=args.log_filename)
     kwargs = {
+        "config_filenames": args.config,
         "show_parameters": args.show_parameters,
         "import_domain": args.import_domain,
         "import_surfaces": args.import_surfaces,
         "import_blocks": args.import_blocks,
         "update_metadata": args.update_metadata,
+        "all_steps": args.all,
     }
     app.main(**kwargs)
 
-- 
2.43.0


From 1859ebdecaccaac42a28a2997f84246592b45526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:04 +0000
Subject: [PATCH 30/67] fix: rows of CSV files were stored at the wrong grid
 points or failed

---
 geomodelgrids/create/data_srcs/csv/datasrc.py | 46 +++++++++----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/csv/datasrc.py b/geomodelgrids/create/data_srcs/csv/datasrc.py
index beeb64f..9d5751e 100644
--- a/geomodelgrids/create/data_srcs/csv/datasrc.py
+++ b/geomodelgrids/create/data_srcs/csv/datasrc.py
@@ -54,11 +54,17 @@ class CSVFile(DataSrc):
             batch (BatchGenerator3D)
                 Current batch of points in block.
         """
-        def _varxy_index_fn(coordinates):
-            x_grid = numpy.array(coordinates)
-            x_grid.sort()
-            x_round = -int(numpy.log10(numpy.min(numpy.diff(x_grid))))
-            return x_grid.searchsorted(round(x, x_round))
+        def _get_grid(num_points, resolution, coordinates):
+            return resolution * numpy.arange(num_points) if resolution else numpy.array(coordinates)
+
+        def _get_index(value, grid):
+            """Get index of grid point nearest value; returns None if value is outside grid."""
+            index = numpy.argmin(numpy.abs(grid - value))
+            if len(grid) > 1 and index in (0, len(grid)-1):
+                spacing = abs(grid[1] - grid[0]) if index == 0 else abs(grid[-1] - grid[-2])
+                if abs(grid[index] - value) > 0.5 * spacing and not min(grid) <= value <= max(grid):
+                    return None
+            return index
 
         if batch:
             raise NotImplementedError("Batches with CSV files are not implemented.")
@@ -70,30 +76,22 @@ class CSVFile(DataSrc):
         value_names = string_to_list(self.config["data"]["values"])
         value_columns = [int(self.config["csv.columns"][value]) for value in value_names]
 
-        if block.x_resolution:
-            def get_xindex(x, block): return round(x / block.x_resolution)
-        else:
-            def get_xindex(x, block): return _varxy_index_fn(block.x_coordinates)
-        if block.y_resolution:
-            def get_yindex(y, block): return round(y / block.y_resolution)
-        else:
-            def get_yindex(y, block): return _varxy_index_fn(block.y_coordinates)
+        nx, ny, nz = block.get_dims()
+        x_grid = _get_grid(nx, block.x_resolution, block.x_coordinates)
+        y_grid = _get_grid(ny, block.y_resolution, block.y_coordinates)
         if block.z_resolution:
-            def get_zindex(z, block): return round(z / block.z_resolution)
+            z_grid = block.z_top - _get_grid(nz, block.z_resolution, None)
         else:
-            z_grid = numpy.array(block.z_coordinates)
-            z_grid.sort()
-            z_round = -int(numpy.log10(numpy.min(numpy.diff(z_grid))))
-            def get_zindex(z, block): return len(z_grid) - 1 - z_grid.searchsorted(round(z, z_round))
+            z_grid = _get_grid(nz, None, block.z_coordinates)
 
-        nx, ny, nz = block.get_dims()
         values = NODATA_VALUE * numpy.ones((nx, ny, nz, len(value_names)), dtype=numpy.float32)
         for row, x, y, z in zip(csv_data, model_x, model_y, model_z):
-            ix = get_xindex(x, block)
-            iy = get_yindex(y, block)
-            iz = get_zindex(z, block)
-            row_values = row[value_columns]
-            values[ix, iy, iz, :] = row_values
+            ix = _get_index(x, x_grid)
+            iy = _get_index(y, y_grid)
+            iz = _get_index(z, z_grid)
+            if ix is None or iy is None or iz is None:
+                continue  # Row is not in block.
+            values[ix, iy, iz, :] = row[value_columns]
         return values
 
     def _to_model_xyz(self, csv_data):
-- 
2.43.0


From 2e24ea4a4e231f3f08b1f378c74a1c5a0c6e6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:18 +0000
Subject: [PATCH 31/67] fix: comma separated files and files with one row could
 not be read

---
 geomodelgrids/create/data_srcs/csv/datasrc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/csv/datasrc.py b/geomodelgrids/create/data_srcs/csv/datasrc.py
index 9d5751e..fdb4573 100644
--- a/geomodelgrids/create/data_srcs/csv/datasrc.py
+++ b/geomodelgrids/create/data_srcs/csv/datasrc.py
@@ -70,7 +70,8 @@ class CSVFile(DataSrc):
             raise NotImplementedError("Batches with CSV files are not implemented.")
 
         comment_flag = self.config["csv"].get("comment_flag", "#")
-        csv_data = numpy.loadtxt(self.config["csv"]["filename"], comments=comment_flag)
+        with open(self.config["csv"]["filename"]) as fin:
+            csv_data = numpy.loadtxt((line.replace(",", " ") for line in fin), comments=comment_flag, ndmin=2)
         model_x, model_y, model_z = self._to_model_xyz(csv_data)
 
         value_names = string_to_list(self.config["data"]["values"])
-- 
2.43.0


From c387a35d9980bbf414d6e232a4fc80f38f377f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 32/67] fix: use_surface=False in the configuration was ignored

---
 geomodelgrids/create/core/model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 1b946be..33b4345 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -622,16 +622,24 @@ class Model():
             self.blocks.append(block)
 
         self.storage = HDF5Storage(config["geomodelgrids"]["filename"])
-        if "top_surface" in config:
+        if self._use_surface(config, "top_surface"):
             self.top_surface = Surface("top_surface", self.metadata, config["top_surface"], self.storage)
         else:
             self.top_surface = None
-        if "topography_bathymetry" in config:
+        if self._use_surface(config, "topography_bathymetry"):
             self.topo_bathy = Surface("topography_bathymetry", self.metadata,
                                       config["topography_bathymetry"], self.storage)
         else:
             self.topo_bathy = None
 
+    @staticmethod
+    def _use_surface(config, name):
+        """Check whether configuration includes surface.
+        """
+        if name not in config:
+            return False
+        return str(config[name].get("use_surface", True)).strip().lower() not in ("false", "no", "off", "0")
+
     @staticmethod
     def get_attributes():
         """Get attributes for model.
-- 
2.43.0


From a40d570e6ed0f01891a232b1748b5672f6f79e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 33/67] fix: metadata updates left attributes of the previous
 grid spacing behind

---
 geomodelgrids/create/io/hdf5.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 37b012f..f1c8bd8 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -61,6 +61,7 @@ class HDF5Storage():
         for attr_info in surface.get_attributes():
             attr_name = attr_info[0]
             attrs[attr_name] = self._get_attribute(surface, attr_info)
+        self._remove_stale_attributes(attrs, surface.get_attributes())
         h5.close()
 
     def save_surface(self, surface, elevation, batch=None):
@@ -159,6 +160,7 @@ class HDF5Storage():
         for attr_info in block.get_attributes():
             attr_name = attr_info[0]
             attrs[attr_name] = self._get_attribute(block, attr_info)
+        self._remove_stale_attributes(attrs, block.get_attributes())
         h5.close()
 
     def save_block(self, block, data, batch=None):
@@ -186,6 +188,24 @@ class HDF5Storage():
             block_dataset[:] = data
         h5.close()
 
+    @staticmethod
+    def _remove_stale_attributes(attrs, attributes):
+        """Remove attributes for grid points that are no longer in use, such as the
+        resolution after switching to coordinates.
+
+        Args:
+            attrs (h5py.AttributeManager)
+                Attributes of dataset.
+            attributes (list)
+                Attributes in use.
+        """
+        GRID_ATTRIBUTES = ("x_resolution", "x_coordinates", "y_resolution", "y_coordinates",
+                           "z_resolution", "z_top", "z_coordinates")
+        current = [attr_info[0] for attr_info in attributes]
+        for attr_name in GRID_ATTRIBUTES:
+            if attr_name in attrs and attr_name not in current:
+                del attrs[attr_name]
+
     @staticmethod
     def _get_attribute(metadata, attr_info):
         result = None
-- 
2.43.0


From bae07b7bb4e167922289cad1070cdadfed70eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:42 +0000
Subject: [PATCH 34/67] fix: surface elevations of batches with one column were
 not an array

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 33b4345..24188d5 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -369,7 +369,7 @@ class Block():
             surface_batch = None
 
         elevation = surface.storage.load_surface(surface, surface_batch)
-        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze(axis=2))
+        return elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze(axis=2).astype(numpy.float64)
 
     def get_attributes(self):
         """Get attributes associated with block.
-- 
2.43.0


From 739f7ffafca0b0b108bfa15a07759f21cb07c555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 35/67] fix: rows of CSV files near the edge of another block
 replaced its values

---
 geomodelgrids/create/data_srcs/csv/datasrc.py | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/csv/datasrc.py b/geomodelgrids/create/data_srcs/csv/datasrc.py
index fdb4573..19373e8 100644
--- a/geomodelgrids/create/data_srcs/csv/datasrc.py
+++ b/geomodelgrids/create/data_srcs/csv/datasrc.py
@@ -58,13 +58,15 @@ class CSVFile(DataSrc):
             return resolution * numpy.arange(num_points) if resolution else numpy.array(coordinates)
 
         def _get_index(value, grid):
-            """Get index of grid point nearest value; returns None if value is outside grid."""
+            """Get index of grid point nearest value and distance to it in grid spacings; returns index of None if value is outside grid."""
             index = numpy.argmin(numpy.abs(grid - value))
-            if len(grid) > 1 and index in (0, len(grid)-1):
-                spacing = abs(grid[1] - grid[0]) if index == 0 else abs(grid[-1] - grid[-2])
-                if abs(grid[index] - value) > 0.5 * spacing and not min(grid) <= value <= max(grid):
-                    return None
-            return index
+            neighbor = index + 1 if (value > grid[index]) == (grid[-1] > grid[0]) else index - 1
+            neighbor = min(max(neighbor, 0), len(grid)-1)
+            if neighbor == index:  # Value is at end of grid or outside grid
+                neighbor = index - 1 if index > 0 else min(1, len(grid)-1)
+            spacing = abs(grid[index] - grid[neighbor]) if neighbor != index else 1.0
+            distance = abs(grid[index] - value) / spacing
+            return (index, distance) if distance <= 0.5 else (None, distance)
 
         if batch:
             raise NotImplementedError("Batches with CSV files are not implemented.")
@@ -86,13 +88,17 @@ class CSVFile(DataSrc):
             z_grid = _get_grid(nz, None, block.z_coordinates)
 
         values = NODATA_VALUE * numpy.ones((nx, ny, nz, len(value_names)), dtype=numpy.float32)
+        nearest = numpy.full((nx, ny, nz), numpy.inf)
         for row, x, y, z in zip(csv_data, model_x, model_y, model_z):
-            ix = _get_index(x, x_grid)
-            iy = _get_index(y, y_grid)
-            iz = _get_index(z, z_grid)
+            ix, dx = _get_index(x, x_grid)
+            iy, dy = _get_index(y, y_grid)
+            iz, dz = _get_index(z, z_grid)
             if ix is None or iy is None or iz is None:
                 continue  # Row is not in block.
-            values[ix, iy, iz, :] = row[value_columns]
+            distance = max(dx, dy, dz)
+            if distance <= nearest[ix, iy, iz]:  # Rows of other blocks may be close to the edge of this one.
+                nearest[ix, iy, iz] = distance
+                values[ix, iy, iz, :] = row[value_columns]
         return values
 
     def _to_model_xyz(self, csv_data):
-- 
2.43.0


From cea8ab6fbcdbe631c5d403f200ab3f8e2c992fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 36/67] fix: last point was dropped when its line had no
 newline

---
 libsrc/geomodelgrids/apps/Query.cc     | 2 +-
 libsrc/geomodelgrids/apps/QueryElev.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index d24c2c4..9abf2b8 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -83,7 +83,7 @@ geomodelgrids::apps::Query::run(int argc,
     while (true) {
         double srcX, srcY, srcZ;
         sin >> srcX >> srcY >> srcZ;
-        if (sin.eof() || !sin.good()) {
+        if (sin.fail()) { // End of file may follow last coordinate immediately.
             break;
         } // if
 
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 24a2250..3f5d22c 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -76,7 +76,7 @@ geomodelgrids::apps::QueryElev::run(int argc,
     while (true) {
         double srcX, srcY;
         sin >> srcX >> srcY;
-        if (sin.eof() || !sin.good()) {
+        if (sin.fail()) { // End of file may follow last coordinate immediately.
             break;
         } // if
 
-- 
2.43.0


From b7fb2c7d0969b35aeeb3a0fa15006c33a52f9996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 37/67] fix: unknown surfaces and options were ignored on the
 command line

---
 libsrc/geomodelgrids/apps/Query.cc     | 10 +++++++---
 libsrc/geomodelgrids/apps/QueryElev.cc |  6 ++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index 9abf2b8..79b0118 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -122,6 +122,7 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
         {0, 0, 0, 0}
     };
 
+    bool squashSurfaceSet = false;
     while (true) {
         // extern char* optarg;
         const char c = getopt_long(argc, argv, "hv:s:r:p:c:o:l:m:", options, nullptr);
@@ -140,7 +141,7 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
             break;
         } // 'v'
         case 's': {
-            if (geomodelgrids::serial::Query::SQUASH_NONE == _squash) {
+            if (!squashSurfaceSet && (geomodelgrids::serial::Query::SQUASH_NONE == _squash)) {
                 _squash = geomodelgrids::serial::Query::SQUASH_TOP_SURFACE;
             } // if
             _squashMinElev = std::stod(optarg);
@@ -152,9 +153,12 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
                 _squash = geomodelgrids::serial::Query::SQUASH_TOP_SURFACE;
             } else if (std::string("topography_bathymetry") == surface) {
                 _squash = geomodelgrids::serial::Query::SQUASH_TOPOGRAPHY_BATHYMETRY;
-            } else {
+            } else if (std::string("none") == surface) {
                 _squash = geomodelgrids::serial::Query::SQUASH_NONE;
-            }
+            } else {
+                throw std::invalid_argument(std::string("Unknown surface '") + surface + "' for --squash-surface.");
+            } // if/else
+            squashSurfaceSet = true;
             break;
         } // 's'
         case 'p': {
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 3f5d22c..1226dde 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -112,7 +112,7 @@ geomodelgrids::apps::QueryElev::_parseArgs(int argc,
 
     while (true) {
         // extern char* optarg;
-        const char c = getopt_long(argc, argv, "hv:s:p:c:o:l:m:s:", options, nullptr);
+        const char c = getopt_long(argc, argv, "hp:c:o:l:m:s:", options, nullptr);
         if (-1 == c) { break; }
         switch (c) {
         case 'h':
@@ -148,7 +148,9 @@ geomodelgrids::apps::QueryElev::_parseArgs(int argc,
             std::string surface = optarg;
             if (surface == std::string("topography_bathymetry")) {
                 _useTopoBathy = true;
-            } // if
+            } else if (surface != std::string("top_surface")) {
+                throw std::invalid_argument(std::string("Unknown surface '") + surface + "' for --surface.");
+            } // if/else
             break;
         } // 'm'
         case '?': {
-- 
2.43.0


From 732150cf8285296f46fe713bb4efc1e1c64bb95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:47 +0000
Subject: [PATCH 38/67] fix: points files that could not be read were treated
 as complete

---
 libsrc/geomodelgrids/apps/Query.cc     | 5 +++++
 libsrc/geomodelgrids/apps/QueryElev.cc | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index 79b0118..7036056 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -97,6 +97,11 @@ geomodelgrids::apps::Query::run(int argc,
         } // for
         sout << "\n";
     } // while
+    if (sin.bad() || !sin.eof()) {
+        std::ostringstream msg;
+        msg << "Error reading points from file '" << _pointsFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     query.finalize();
 
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 1226dde..460e307 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -87,6 +87,11 @@ geomodelgrids::apps::QueryElev::run(int argc,
              << std::setw(_QueryElev::cwidth) << elev
              << "\n";
     } // while
+    if (sin.bad() || !sin.eof()) {
+        std::ostringstream msg;
+        msg << "Error reading points from file '" << _pointsFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     query.finalize();
 
-- 
2.43.0


From 9fc32e673f374cf1d03e1f500a0300a41838f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:08 +0000
Subject: [PATCH 39/67] fix: roundoff dropped the deepest point of boreholes

---
 libsrc/geomodelgrids/apps/Borehole.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 959191d..fdc27c3 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -68,7 +68,8 @@ geomodelgrids::apps::Borehole::run(int argc,
     } else if (groundSurf != 0.0) {
         groundSurf += groundOffset;
     } // if
-    const size_t numPoints = size_t(1 + _maxDepth / _dz);
+    const double tolerance = 1.0e-6; // Allow for roundoff when maximum depth is a multiple of dz.
+    const size_t numPoints = size_t(1 + _maxDepth / _dz + tolerance);
 
     std::ofstream sout(_outputFilename);
     if (!sout.is_open() && !sout.good()) {
-- 
2.43.0


From 9b395b67569ea2cf150b3b40497efb1e1552b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 40/67] fix: invalid depths and resolutions of boreholes never
 ended or were ignored

---
 libsrc/geomodelgrids/apps/Borehole.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index fdc27c3..a54e69a 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -11,6 +11,9 @@
 #include <fstream> // USES std::ofstream
 #include <sstream> // USES std::ostringstream, std::istringstream
 #include <cassert> // USES assert()
+#include <cmath> // USES std::isinf()
+#include <stdexcept> // USES std::runtime_error
+#include <string> // USES std::stod()
 #include <iostream> // USES std::cout
 
 namespace geomodelgrids {
@@ -137,7 +140,7 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
             break;
         } // 'v'
         case 'd': {
-            _maxDepth = atof(optarg);
+            _maxDepth = std::stod(optarg);
             break;
         } // 'd'
         case 'p': {
@@ -150,7 +153,7 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
             break;
         } // 'o'
         case 'r': {
-            _dz = atof(optarg);
+            _dz = std::stod(optarg);
             break;
         } // 'r'
         case 'c': {
@@ -203,13 +206,17 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
             msg << "    - Missing list of model filenames. Use --models=FILE_0,...,FILE_M\n";
             optionsOkay = false;
         } // if
+        if (!(_dz > 0.0) || !(_maxDepth >= 0.0) || std::isinf(_maxDepth / _dz)) {
+            msg << "    - Vertical resolution must be positive and maximum depth must not be negative. Use --dz=RESOLUTION --max-depth=DEPTH\n";
+            optionsOkay = false;
+        } // if
         if ((_location[0] == geomodelgrids::NODATA_VALUE) || (_location[1] == geomodelgrids::NODATA_VALUE)) {
             msg << "    - Missing boreole location. Use --location=X,Y\n";
             optionsOkay = false;
         } // if
 
         if (!optionsOkay) {
-            throw std::runtime_error(std::string("Missing required command line arguments:\n")+ msg.str());
+            throw std::runtime_error(std::string("Missing required or invalid command line arguments:\n")+ msg.str());
         } // if
     } // if
 } // _parseArgs
-- 
2.43.0


From 7bc175b2f6443f3e8f12593710a6b70f6e3c3aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:38 +0000
Subject: [PATCH 41/67] fix: loading metadata of a model that failed to open
 ended the process

---
 libsrc/geomodelgrids/serial/Model.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index cd56efc..64944a7 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -108,7 +108,7 @@ geomodelgrids::serial::Model::close(void) {
 // Load metadata.
 void
 geomodelgrids::serial::Model::loadMetadata(void) {
-    if (!_h5) {
+    if (!_h5 || !_h5->isOpen()) {
         throw std::logic_error("Model not open. Call open() before loading metadata.");
     } // if
 
@@ -264,6 +264,10 @@ geomodelgrids::serial::Model::loadMetadata(void) {
 // Initialize.
 void
 geomodelgrids::serial::Model::initialize(void) {
+    if (!_h5 || !_h5->isOpen()) {
+        throw std::logic_error("Model not open. Call open() and loadMetadata() before initializing.");
+    } // if
+
     // Initialize CRS transformation
     _crsTransformer = std::make_shared<geomodelgrids::utils::CRSTransformer>();
     _crsTransformer->setSrc(_inputCRSString.c_str());
-- 
2.43.0


From b95ac923f06c2b41f5b2549cd4c12455b330b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:03 +0000
Subject: [PATCH 42/67] fix: resolution that is not a number was accepted and
 ended queries

---
 libsrc/geomodelgrids/utils/Indexing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/Indexing.cc b/libsrc/geomodelgrids/utils/Indexing.cc
index 06474bd..4687650 100644
--- a/libsrc/geomodelgrids/utils/Indexing.cc
+++ b/libsrc/geomodelgrids/utils/Indexing.cc
@@ -17,7 +17,7 @@ geomodelgrids::utils::Indexing::~Indexing(void) {}
 // ------------------------------------------------------------------------------------------------
 geomodelgrids::utils::IndexingUniform::IndexingUniform(const double dx) :
     _dx(dx) {
-    if (dx <= 0.0) {
+    if (!(dx > 0.0)) { // Includes NaN.
         std::ostringstream msg;
         msg << "Non-positive value (" << dx << ") for uniform resolution indexing.";
         throw std::invalid_argument(msg.str());
-- 
2.43.0


From 02d635133ca68358fa54b463eddb4cc23c764529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:31 +0000
Subject: [PATCH 43/67] fix: isosurfaces were not refined to the vertical
 resolution, and a small maximum depth ended the process

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index e7c0524..402887a 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -388,8 +388,8 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             msg << "    - Maximum depth (" << _maxDepth << ") must be positive.\n";
             optionsOkay = false;
         } // if
-        if (_numSearchPoints < 2) {
-            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 2.\n";
+        if (_numSearchPoints < 3) { // Search does not refine interval with only 2 points.
+            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 3.\n";
             optionsOkay = false;
         } // if
         if (_isosurfaces.empty()) {
@@ -470,8 +470,9 @@ geomodelgrids::apps::Isosurfacer::initialize(void) {
     } // for
     _query->initialize(_app._modelFilenames, valueNames, _app._bboxCRS);
 
-    _numLevels = size_t(ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints)));
-    assert(_numLevels >= 1);
+    // Each level reduces the search interval by a factor of the number of intervals between search points.
+    const double numLevels = ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints-1));
+    _numLevels = size_t(std::max(1.0, numLevels));
 
     const size_t numValues = _app._isosurfaces.size();
     _vbuffer.resize(numValues);
-- 
2.43.0


From e1020ae7e6f14c8192597620d0734aa43a98edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:10 +0000
Subject: [PATCH 44/67] fix: isosurfaces were missed when the maximum depth
 reaches below the model

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 28 ++++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 402887a..f80d728 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -596,15 +596,19 @@ geomodelgrids::apps::LineSearchDown::search(const double zTop,
                                             const double vTarget,
                                             const size_t iValue) {
     size_t iTop = 0;
-    for (size_t iPt = 1; iPt < _numSearchPoints; ++iPt) {
+    double vAbove = geomodelgrids::NODATA_VALUE;
+    for (size_t iPt = 0; iPt < _numSearchPoints; ++iPt) {
         const double z = zTop - iPt*dz;
         _query->query(&_vbuffer[0], _x, _y, z);
         const double v = _vbuffer[iValue];
-        if (v >= vTarget) {
+        if ((v >= vTarget) && (iPt > 0)) {
             iTop = iPt - 1;
             break;
-        } // if
-
+        } else if ((geomodelgrids::NODATA_VALUE == v) && (geomodelgrids::NODATA_VALUE != vAbove)) {
+            // Target value may be between last point with data and bottom of model.
+            iTop = iPt - 1;
+        } // if/else
+        vAbove = v;
     } // for
     return iTop;
 }
@@ -627,15 +631,23 @@ geomodelgrids::apps::LineSearchUp::search(const double zTop,
                                           const double vTarget,
                                           const size_t iValue) {
     size_t iTop = 0;
-    for (size_t iPt = 1; iPt < _numSearchPoints; ++iPt) {
+    double vBelow = geomodelgrids::NODATA_VALUE;
+    bool foundBottom = false;
+    for (size_t iPt = 0; iPt < _numSearchPoints; ++iPt) {
         const double z = zBot + iPt * dz;
         _query->query(&_vbuffer[0], _x, _y, z);
         const double v = _vbuffer[iValue];
-        if (v < vTarget) {
+        if ((v < vTarget) && (vBelow >= vTarget)) {
             iTop = _numSearchPoints - iPt - 1;
             break;
-        } // if
-
+        } else if ((iPt > 0) && !foundBottom && (geomodelgrids::NODATA_VALUE != v) && (geomodelgrids::NODATA_VALUE == vBelow)) {
+            // Target value may be between bottom of model and first point with data.
+            foundBottom = true;
+            if (v < vTarget) {
+                iTop = _numSearchPoints - iPt - 1;
+            } // if
+        } // if/else
+        vBelow = v;
     } // for
     return iTop;
 }
-- 
2.43.0


From be9a9e45b9e81cf061b24cf0b771a43fb6115b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:52 +0000
Subject: [PATCH 45/67] fix: isosurface depth was not a number where the values
 equal the isosurface value

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index f80d728..a3705cd 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -538,7 +538,9 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
         _query->query(&_vbuffer[0], x, y, zBot);
         const double vBot = _vbuffer[iValue];
 
-        if (((vTop <= vTarget) && (vTarget <= vBot)) || ((vTop >= vTarget) && (vTarget >= vBot))) {
+        if ((vTop == vTarget) && (vBot == vTarget)) {
+            values[iValue] = topElev - zTop;
+        } else if (((vTop <= vTarget) && (vTarget <= vBot)) || ((vTop >= vTarget) && (vTarget >= vBot))) {
             const double a = (vTop-vBot) / (zTop-zBot);
             const double b = vTop - a*zTop;
             values[iValue] = topElev - (vTarget - b) / a;
-- 
2.43.0


From 55977bf4acd6a916619c400a66461f4421d98fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:13 +0000
Subject: [PATCH 46/67] fix: isosurface pixels were georeferenced at other
 points than the ones queried

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index a3705cd..1ee15c8 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -190,7 +190,7 @@ geomodelgrids::apps::Isosurface::run(int argc,
         writer.setNumBands(numIsosurfaces);
         writer.setBandLabels(bandLabels);
         writer.setCRS(_bboxCRS.c_str());
-        writer.setBBox(_minX, _maxX, _minY, _maxY);
+        writer.setBBox(_minX, _minX + numX*_horizRes, _minY, _minY + numY*_horizRes);
         writer.setNoDataValue(geomodelgrids::NODATA_VALUE);
         writer.create(_outputFilename.c_str());
 
-- 
2.43.0


From 34a0e3da2b8b54267ac89a6e6ab43dd447f48ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:59 +0000
Subject: [PATCH 47/67] fix: invalid isosurface command line options were
 ignored

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 26 +++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 1ee15c8..c6332d6 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -254,7 +254,7 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
     _isosurfaces.clear();
     while (true) {
         // extern char* optarg;
-        const char c = getopt_long(argc, argv, "hl:b:r:v:i:s:d:m:o:pc:", options, nullptr);
+        const char c = getopt_long(argc, argv, "hl:b:r:v:i:s:d:n:m:o:pc:", options, nullptr);
         if (-1 == c) { break; }
         switch (c) {
         case 'h':
@@ -284,11 +284,11 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             break;
         } // 'b'
         case 'r': {
-            _horizRes = atof(optarg);
+            _horizRes = std::stod(optarg);
             break;
         } // 'r'
         case 'v': {
-            _vertRes = atof(optarg);
+            _vertRes = std::stod(optarg);
             break;
         } // 'v'
         case 'i': {
@@ -298,10 +298,11 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             while (std::getline(tokenStream, token, ',')) {
                 values.push_back(token);
             } // while
-            if (values.size() == 2) {
-                Isosurfacer::isosurface_t isosurface(values[0], atof(values[1].c_str()));
-                _isosurfaces.push_back(isosurface);
+            if (values.size() != 2) {
+                throw std::runtime_error("Error parsing isosurface '" + std::string(optarg) + "'. Use --isosurface=NAME,VALUE");
             } // if
+            Isosurfacer::isosurface_t isosurface(values[0], std::stod(values[1]));
+            _isosurfaces.push_back(isosurface);
             break;
         } // 'i'
         case 's': {
@@ -315,11 +316,11 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             break;
         } // 's'
         case 'd': {
-            _maxDepth = atof(optarg);
+            _maxDepth = std::stod(optarg);
             break;
         } // 'd'
         case 'n': {
-            _numSearchPoints = atoi(optarg);
+            _numSearchPoints = std::max(0, std::stoi(optarg));
             break;
         } // 'n'
         case 'm': {
@@ -365,18 +366,19 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             msg << "    - Missing bounding box. Use --bbox=XMIN,XMAX,YMIN,YMAX\n";
             optionsOkay = false;
         } // if
-        if (((_maxX - _minX)/_horizRes < 0) || ((_maxY - _minY) / _horizRes < 0)) {
+        if (!(_maxX >= _minX) || !(_maxY >= _minY)) {
             msg << "    - Invalid bounding box. Use --bbox=XMIN,XMAX,YMIN,YMAX\n";
+            optionsOkay = false;
         } // if
         if (0.0 == _horizRes) {
             msg << "    - Missing horizontal resolution. Use --resolution=RESOLUTION\n";
             optionsOkay = false;
         } // if
-        if (_horizRes < 0.0) {
+        if (!(_horizRes >= 0.0)) {
             msg << "    - Horizontal resolution (" << _horizRes << ") must be positive.\n";
             optionsOkay = false;
         } // if
-        if (_vertRes <= 0.0) {
+        if (!(_vertRes > 0.0)) {
             msg << "    - Vertical resolution (" << _vertRes << ") must be positive.\n";
             optionsOkay = false;
         } // if
@@ -384,7 +386,7 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             msg << "    - Missing maximum depth. Use --max-depth=DEPTH\n";
             optionsOkay = false;
         } // if
-        if (_maxDepth < 0.0) {
+        if (!(_maxDepth >= 0.0)) {
             msg << "    - Maximum depth (" << _maxDepth << ") must be positive.\n";
             optionsOkay = false;
         } // if
-- 
2.43.0


From d0d0b509f0000028eaf059ab235e6e0aa6604a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 48/67] fix: info reported metadata of the previous model for
 metadata missing in a model

---
 libsrc/geomodelgrids/apps/Info.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index fba6e3d..5534737 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -73,9 +73,9 @@ geomodelgrids::apps::Info::run(int argc,
         return 0;
     } // if
 
-    geomodelgrids::serial::Model model;
     const size_t numModels = _modelFilenames.size();
     for (size_t i = 0; i < numModels; ++i) {
+        geomodelgrids::serial::Model model; // Do not keep information from previous model.
         model.open(_modelFilenames[i].c_str(), geomodelgrids::serial::Model::READ);
 
         std::cout << "Model: " << _modelFilenames[i] << std::endl;
-- 
2.43.0


From 02428c4e81f3cf9359078f56a00315b5a30bd00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 49/67] fix: verification failed for conforming models with
 variable coordinates

---
 libsrc/geomodelgrids/apps/Info.cc | 46 +++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 5534737..396ff1a 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -26,6 +26,11 @@ namespace geomodelgrids {
             std::string indent(const size_t level,
                                const size_t width=4);
 
+            /// Check whether grid axis with variable spacing starts at 0 and extends across dimension of domain.
+            bool spansDomain(const double* const coordinates,
+                             const size_t numPoints,
+                             const double dimDomain);
+
             void verifyCoordSys(const geomodelgrids::serial::Model* model);
 
             void verifySurface(const geomodelgrids::serial::Surface* topography,
@@ -397,8 +402,10 @@ geomodelgrids::apps::Info::_verify(geomodelgrids::serial::Model* const model) {
         const double topResolutionY = surfaceTop->getResolutionY();
         const double topoResolutionX = surfaceTopoBathy->getResolutionX();
         const double topoResolutionY = surfaceTopoBathy->getResolutionY();
-        if ((fabs(1.0 - topoResolutionX/topResolutionX) > 1.0e-4) ||
-            (fabs(1.0 - topoResolutionY/topResolutionY) > 1.0e-4)) {
+        const bool isUniformX = !surfaceTop->getCoordinatesX() && !surfaceTopoBathy->getCoordinatesX();
+        const bool isUniformY = !surfaceTop->getCoordinatesY() && !surfaceTopoBathy->getCoordinatesY();
+        if ((isUniformX && (fabs(1.0 - topoResolutionX/topResolutionX) > 1.0e-4)) ||
+            (isUniformY && (fabs(1.0 - topoResolutionY/topResolutionY) > 1.0e-4))) {
             std::cout << "FAIL\n"
                       << _Info::indent(3) << "Resolution of top surface: x=" << topResolutionX
                       << ", y=" << topResolutionY
@@ -446,6 +453,17 @@ geomodelgrids::apps::_Info::indent(const size_t level,
 } // indent
 
 
+// ------------------------------------------------------------------------------------------------
+bool
+geomodelgrids::apps::_Info::spansDomain(const double* const coordinates,
+                                        const size_t numPoints,
+                                        const double dimDomain) {
+    const double tolerance = 1.0e-6;
+    return (numPoints > 0) && (fabs(coordinates[0]/dimDomain) <= tolerance)
+           && (fabs(1.0 - coordinates[numPoints-1]/dimDomain) <= tolerance);
+} // spansDomain
+
+
 // ------------------------------------------------------------------------------------------------
 void
 geomodelgrids::apps::_Info::verifyCoordSys(const geomodelgrids::serial::Model* model) {
@@ -485,11 +503,20 @@ geomodelgrids::apps::_Info::verifySurface(const geomodelgrids::serial::Surface*
     resolution[0] = surface->getResolutionX();
     resolution[1] = surface->getResolutionY();
     const size_t* numTopo = surface->getDims();
+    const double* const coordinates[2] = { surface->getCoordinatesX(), surface->getCoordinatesY() };
 
     const double tolerance = 1.0e-6;
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numTopo[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        if (coordinates[iDim]) {
+            if (!spansDomain(coordinates[iDim], numTopo[iDim], dimsDomain[iDim])) {
+                if (ok) { std::cout << "FAIL\n"; }
+                std::cout << _Info::indent(3) << "Surface '" << name << "' does not span the domain in the " << dimLabel[iDim]
+                          << " dimension (surface=" << coordinates[iDim][0] << " to " << coordinates[iDim][numTopo[iDim]-1]
+                          << ", domain=" << dimsDomain[iDim] << ").\n";
+                ok = false;
+            } // if
+        } else if (fabs(1.0 - resolution[iDim]*(numTopo[iDim]-1)/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Surface '" << name << "' does not span the domain in the " << dimLabel[iDim]
                       << " dimension (surface=" << resolution[iDim]*numTopo[iDim] << ", domain=" << dimsDomain[iDim] << ").\n";
@@ -516,13 +543,22 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
     resolution[0] = block->getResolutionX();
     resolution[1] = block->getResolutionY();
     const size_t* numBlock = block->getDims();
+    const double* const coordinates[2] = { block->getCoordinatesX(), block->getCoordinatesY() };
 
     const double tolerance = 1.0e-6;
 
     // Verify block spans the domain.
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numBlock[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        if (coordinates[iDim]) {
+            if (!spansDomain(coordinates[iDim], numBlock[iDim], dimsDomain[iDim])) {
+                if (ok) { std::cout << "FAIL\n"; }
+                std::cout << _Info::indent(3) << "Block '" << block->getName() << "' does not span the domain in the "
+                          << dimLabel[iDim] << " dimension (block=" << coordinates[iDim][0] << " to "
+                          << coordinates[iDim][numBlock[iDim]-1] << ", domain=" << dimsDomain[iDim] << ").\n";
+                ok = false;
+            } // if
+        } else if (fabs(1.0 - resolution[iDim]*(numBlock[iDim]-1)/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Block '" << block->getName() << "' does not span the domain in the "
                       << dimLabel[iDim] << " dimension (block=" << resolution[iDim]*numBlock[iDim] << ", domain="
@@ -538,7 +574,7 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
         topoResolution[0] = surfaceTop->getResolutionX();
         topoResolution[1] = surfaceTop->getResolutionY();
         for (size_t iDim = 0; iDim < 2; ++iDim) {
-            if (topoResolution[iDim] <= 0.0) { continue; }
+            if ((topoResolution[iDim] <= 0.0) || coordinates[iDim]) { continue; }
             const int num_skip = int(0.01 + resolution[iDim] / topoResolution[iDim]);
             if (fabs(num_skip * topoResolution[iDim] - resolution[iDim]) > tolerance) {
                 if (ok) { std::cout << "FAIL\n"; }
-- 
2.43.0


From 398f2107bd8fbf77fc164369e1c76bceff977401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 50/67] fix: info did not accept the short form of --verify

---
 libsrc/geomodelgrids/apps/Info.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 396ff1a..9995208 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -130,7 +130,7 @@ geomodelgrids::apps::Info::_parseArgs(int argc,
     bool optionsOk = false;
     while (true) {
         // extern char* optarg;
-        const char c = getopt_long(argc, argv, "hdbcvam:", options, nullptr);
+        const char c = getopt_long(argc, argv, "hdbcvqam:", options, nullptr);
         if (-1 == c) { break; }
         switch (c) {
         case 'h':
-- 
2.43.0


From 92c46621295e7d0eabbc67eddec7c4a35ea44a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:10 +0000
Subject: [PATCH 51/67] fix: closing a GeoTiff file invalidated other open
 GeoTiff files

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index afd9bb7..8284ae2 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -172,7 +172,7 @@ geomodelgrids::utils::GeoTiff::getBands(void) {
 void
 geomodelgrids::utils::GeoTiff::create(const char* filename) {
     this->close();
-    GDALAllRegister(); // close() destroys the driver manager
+    GDALAllRegister();
     _driver = GetGDALDriverManager()->GetDriverByName("GTiff");
     if (!_driver) {
         throw std::runtime_error("Could not get GDAL GeoTiff driver.");
@@ -222,7 +222,7 @@ void
 geomodelgrids::utils::GeoTiff::read(const char* filename) {
     this->close();
     try {
-        GDALAllRegister(); // close() destroys the driver manager
+        GDALAllRegister();
         _driver = GetGDALDriverManager()->GetDriverByName("GTiff");
         if (!_driver) { throw std::runtime_error("Could not get GDAL GeoTiff driver."); }
         _dataset = (GDALDataset*) GDALOpen(filename, GA_ReadOnly);
@@ -278,10 +278,7 @@ geomodelgrids::utils::GeoTiff::close(void) {
         GDALClose(_dataset);
         _dataset = nullptr;
     } // if
-    if (_driver) {
-        GDALDestroyDriverManager();
-        _driver = nullptr;
-    } // if
+    _driver = nullptr; // Other rasters may still use the driver manager.
 }
 
 
-- 
2.43.0


From 6665d43d6d7b74cb41f38c619a4dbb97109f3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:58 +0000
Subject: [PATCH 52/67] fix: tiny maximum depth of isosurfaces ended the
 process

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index c6332d6..fc44c68 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -522,7 +522,7 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
     const size_t numValues = _vbuffer.size();
     for (size_t iValue = 0; iValue < numValues; ++iValue) {
         const double vTarget = _app._isosurfaces[iValue].second;
-        double zTop = topElev - 1.0e-4;
+        double zTop = topElev - std::min(1.0e-4, 0.5*_app._maxDepth);
         double zBot = topElev - _app._maxDepth;
         assert(zTop > zBot);
 
-- 
2.43.0


From d0ed27d0a62ff7d27594d659ca0686950e9d89a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:08 +0000
Subject: [PATCH 53/67] fix: isosurface depths were wrong where the values are
 nearly constant

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index fc44c68..b550a81 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -543,9 +543,9 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
         if ((vTop == vTarget) && (vBot == vTarget)) {
             values[iValue] = topElev - zTop;
         } else if (((vTop <= vTarget) && (vTarget <= vBot)) || ((vTop >= vTarget) && (vTarget >= vBot))) {
-            const double a = (vTop-vBot) / (zTop-zBot);
-            const double b = vTop - a*zTop;
-            values[iValue] = topElev - (vTarget - b) / a;
+            // Use weight in [0,1] to avoid loss of precision when values are nearly constant.
+            const double weight = (vTarget-vTop) / (vBot-vTop);
+            values[iValue] = topElev - (zTop + weight*(zBot-zTop));
         } else if (vTarget < vTop) {
             values[iValue] = 0.0;
         } else {
-- 
2.43.0


From 8ec3f4e5e8fe50ac41d53fb53767efdc9701bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:15 +0000
Subject: [PATCH 54/67] fix: info reported dimensions of 0 for blocks with
 variable coordinates

---
 libsrc/geomodelgrids/apps/Info.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 9995208..47b128a 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -363,9 +363,12 @@ geomodelgrids::apps::Info::_printBlocks(geomodelgrids::serial::Model* const mode
         const size_t* dims = blocks[i]->getDims();
         std::cout << _Info::indent(3) << "Number of points: x=" << dims[0] << ", y=" << dims[1] << ", z=" << dims[2] << "\n";
 
-        const double dim_x = blocks[i]->getResolutionX() * (dims[0] - 1);
-        const double dim_y = blocks[i]->getResolutionY() * (dims[1] - 1);
-        const double dim_z = blocks[i]->getResolutionZ() * (dims[2] - 1);
+        const double* const xCoords = blocks[i]->getCoordinatesX();
+        const double* const yCoords = blocks[i]->getCoordinatesY();
+        const double* const zCoords = blocks[i]->getCoordinatesZ();
+        const double dim_x = xCoords ? xCoords[dims[0]-1] - xCoords[0] : blocks[i]->getResolutionX() * (dims[0] - 1);
+        const double dim_y = yCoords ? yCoords[dims[1]-1] - yCoords[0] : blocks[i]->getResolutionY() * (dims[1] - 1);
+        const double dim_z = zCoords ? zCoords[0] - zCoords[dims[2]-1] : blocks[i]->getResolutionZ() * (dims[2] - 1);
         std::cout << _Info::indent(3) << "Dimensions: x=" << dim_x << ", y=" << dim_y << ", z=" << dim_z << "\n";
     } // for
 } // _printBlocks
-- 
2.43.0


From 71369aeba70bcb73691b7bc01d22e4b94ac7354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:33 +0000
Subject: [PATCH 55/67] fix: info ended the process for models without units of
 values

---
 libsrc/geomodelgrids/apps/Info.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 47b128a..7f100ab 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -299,9 +299,9 @@ geomodelgrids::apps::Info::_printValues(geomodelgrids::serial::Model* const mode
     const std::vector<std::string>& names = model->getValueNames();
     const std::vector<std::string>& units = model->getValueUnits();
     const size_t size = names.size();
-    assert(units.size() == size);
     for (size_t i = 0; i < size; ++i) {
-        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << units[i] << ")" << "\n";
+        const std::string valueUnits = i < units.size() ? units[i] : ""; // Units may be missing.
+        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << valueUnits << ")" << "\n";
     } // for
 
     switch (model->getDataLayout()) {
-- 
2.43.0


From 36df93374dabfef94dd9b375f0f7d200f4cbbcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 56/67] fix: incomplete last point of points files was ignored

---
 libsrc/geomodelgrids/apps/Query.cc     | 10 ++++++++--
 libsrc/geomodelgrids/apps/QueryElev.cc | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index 7036056..97d8b0c 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -82,10 +82,16 @@ geomodelgrids::apps::Query::run(int argc,
     sout << std::scientific << std::setprecision(_Query::precision);
     while (true) {
         double srcX, srcY, srcZ;
-        sin >> srcX >> srcY >> srcZ;
-        if (sin.fail()) { // End of file may follow last coordinate immediately.
+        sin >> srcX;
+        if (sin.fail()) { // No more points.
             break;
         } // if
+        sin >> srcY >> srcZ; // End of file may follow last coordinate immediately.
+        if (sin.fail()) {
+            std::ostringstream msg;
+            msg << "Error reading points from file '" << _pointsFilename << "'. Point is incomplete.";
+            throw std::runtime_error(msg.str().c_str());
+        } // if
 
         query.query(&values[0], srcX, srcY, srcZ);
 
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 460e307..7e943f2 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -75,10 +75,16 @@ geomodelgrids::apps::QueryElev::run(int argc,
     sout << std::scientific << std::setprecision(_QueryElev::precision);
     while (true) {
         double srcX, srcY;
-        sin >> srcX >> srcY;
-        if (sin.fail()) { // End of file may follow last coordinate immediately.
+        sin >> srcX;
+        if (sin.fail()) { // No more points.
             break;
         } // if
+        sin >> srcY; // End of file may follow last coordinate immediately.
+        if (sin.fail()) {
+            std::ostringstream msg;
+            msg << "Error reading points from file '" << _pointsFilename << "'. Point is incomplete.";
+            throw std::runtime_error(msg.str().c_str());
+        } // if
 
         const double elev = (_useTopoBathy) ? query.queryTopoBathyElevation(srcX, srcY) : query.queryTopElevation(srcX, srcY);
 
-- 
2.43.0


From ed4e2d16a91363d72ef3dc831d7ea67de25a4756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 57/67] fix: EarthVision rule values, fault blocks and zones
 took the type of the first point

---
 .../create/data_srcs/earthvision/datasrc.py          | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index e857da5..12ccd27 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -169,15 +169,17 @@ class RulesDataSrc(DataSrc):
             if not path in sys.path:
                 sys.path.append(path)
         rules_fn = getattr(import_module(".".join(fn_path[:-1])), fn_path[-1])
-        rules_values = numpy.vectorize(self.query_rule)(rules_fn, data, depth.ravel())
+        data = numpy.atleast_1d(data)
+        rules_values = numpy.array([self.query_rule(rules_fn, *args) for args in zip(data, depth.ravel())],
+                                   dtype=numpy.float64)
         del depth
 
         # Append fault block and zone id to values
         # :KLUDGE: Fault block and zone id are converted from int to float
-        faultblock_id = numpy.vectorize(self.set_faultblock_id)(self.faultblock_ids, data["fault_block"])
-        zone_id = numpy.vectorize(self.set_zone_id)(self.zone_ids, data["zone"])
-        values = numpy.vstack([v for v in rules_values] + [faultblock_id.reshape((1, -1)),
-                                                           zone_id.reshape((1, -1))]).transpose()
+        faultblock_id = numpy.array([self.set_faultblock_id(self.faultblock_ids, name) for name in data["fault_block"]],
+                                    dtype=numpy.float64)
+        zone_id = numpy.array([self.set_zone_id(self.zone_ids, name) for name in data["zone"]], dtype=numpy.float64)
+        values = numpy.column_stack((rules_values, faultblock_id, zone_id))
         values = values.reshape((points.shape[0], points.shape[1], points.shape[2], -1))
 
         data_abspath = os.path.join(self.model_dir, VALUES_FILENAME)
-- 
2.43.0


From 2b41722bbe6bdf9581b2a7a9b8a4e1ad846581ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 58/67] fix: depth of top points was shifted the wrong way, and
 in every batch, for EarthVision rules

---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index 12ccd27..6fb49d2 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -161,7 +161,8 @@ class RulesDataSrc(DataSrc):
         depth = numpy.zeros(points.shape[:-1])
         for iz in range(depth.shape[-1]):
             depth[:, :, iz] = topo_bathy_elev - points[:, :, iz, 2]
-        depth[:, :, 0] -= block.z_top_offset
+        if not batch or batch.z_range[0] == 0:
+            depth[:, :, 0] += block.z_top_offset  # Undo adjustment of top points
 
         fn_path = self.config["earthvision"]["rules_fn"].split(".")
         if "rules_pythonpath" in self.config["earthvision"]:
-- 
2.43.0


From 0627e2ba8c481beae6f370b4bd9c8410872900b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 59/67] fix: models from IRIS EMC files could not be created

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index df334a9..5928a94 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -106,6 +106,7 @@ class EMCNetCDF(DataSrc):
         self.config["data"] = {
             "values": values,
             "units": units,
+            "layout": "vertex",
         }
 
         long_names = {}
@@ -131,7 +132,9 @@ class EMCNetCDF(DataSrc):
             "z_top_offset": 0.0,
         }
         if is_uniform_resolution(self.emc.variables["depth"][:]):
-            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1),
+            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1)
+            info["z_top"] = -vertical_scale * depth_min
+            info["z_bot"] = -vertical_scale * depth_max
         else:
             z_coordinates = -vertical_scale * self.emc.variables["depth"][:]
             info["z_coordinates"] = z_coordinates.tolist()
-- 
2.43.0


From 614a3dee670c93c87a527e05a0a69816a2757d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 60/67] fix: models from IRIS EMC files had x and y swapped
 with respect to their CRS

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 5928a94..cefbd71 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -71,7 +71,7 @@ class EMCNetCDF(DataSrc):
         self.config["geomodelgrids"].update(metadata)
 
         self.config["coordsys"] = {
-            "crs": "EPSG:4979",
+            "crs": "OGC:CRS84h",  # x is longitude, y is latitude
             "origin_x": self.emc.geospatial_lon_min,
             "origin_y": self.emc.geospatial_lat_min,
             "y_azimuth": 0.0,
-- 
2.43.0


From 464afc6beace4609224fdeed07a987dde4ae7bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 61/67] fix: surface points closer than 0.01 were matched with
 the wrong grid points of blocks

---
 geomodelgrids/create/core/model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 24188d5..fb47e26 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -305,7 +305,7 @@ class Block():
         Returns:
             Numpy array [Nx,Ny] with elevation of surface for current batch in block.
         """
-        TOLERANCE = 0.01
+        TOLERANCE = 0.01  # Maximum difference in coordinates, and maximum difference as fraction of surface resolution.
 
         class BatchSurface():
 
@@ -314,8 +314,8 @@ class Block():
                 self.y_range = y_range
 
         def _get_slice_uniform(block_resolution, surfae_dim, surface_resolution, batch_range):
-            block_skip = int(0.01 + block_resolution / surface_resolution)
-            if math.fabs(block_skip * surface_resolution - block_resolution) > TOLERANCE:
+            block_skip = round(block_resolution / surface_resolution)
+            if math.fabs(block_skip * surface_resolution - block_resolution) > TOLERANCE * min(1.0, surface_resolution):
                 raise ValueError(
                     f"Block resolution ({block_resolution}) must be a integer multiple of the surface resolution ({surface_resolution})")
             if batch:
@@ -330,9 +330,10 @@ class Block():
             scoords_sorted = numpy.array(surface_coordinates)
             scoords_sorted.sort()
             block_values = block_coordinates[batch_range[0]:batch_range[1]] if batch else block_coordinates
-            indices = scoords_sorted.searchsorted(numpy.array(block_values) - TOLERANCE)
+            tolerance = TOLERANCE * min(1.0, numpy.min(numpy.diff(scoords_sorted), initial=1.0))
+            indices = numpy.array([numpy.argmin(numpy.abs(scoords_sorted - coord)) for coord in block_values], dtype=numpy.int64)
             for index, block_coord in zip(indices, block_values):
-                if index >= len(scoords_sorted) or math.fabs(scoords_sorted[index] - block_coord) > TOLERANCE:
+                if math.fabs(scoords_sorted[index] - block_coord) > tolerance:
                     raise ValueError(
                         f"Could not find surface coordinate matching block coordinate ({block_coord}).")
             surf_range = (numpy.min(indices), numpy.max(indices)+1)
-- 
2.43.0


From c8c48b57d90509cba742d34da5be1eca83862f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 62/67] fix: models from IRIS EMC files with unevenly spaced
 longitudes or latitudes used even spacing

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index cefbd71..e4c47b7 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -127,10 +127,16 @@ class EMCNetCDF(DataSrc):
         vertical_scale = units.length_scale(self.emc.geospatial_vertical_units)
 
         info = {
-            "x_resolution": (lon_max - lon_min) / (self.emc.variables["longitude"].size-1),
-            "y_resolution": (lat_max - lat_min) / (self.emc.variables["latitude"].size-1),
             "z_top_offset": 0.0,
         }
+        for dim, name, dim_min, dim_max in (("x", "longitude", lon_min, lon_max), ("y", "latitude", lat_min, lat_max)):
+            points = numpy.sort(numpy.array(self.emc.variables[name][:], dtype=numpy.float64))
+            resolution = (dim_max - dim_min) / (points.size-1)
+            coordinates = (points - points[0]) * ((dim_max - dim_min) / (points[-1] - points[0]))
+            if numpy.max(numpy.abs(coordinates - resolution * numpy.arange(points.size))) < 0.01 * resolution:
+                info[f"{dim}_resolution"] = resolution
+            else:
+                info[f"{dim}_coordinates"] = coordinates.tolist()
         if is_uniform_resolution(self.emc.variables["depth"][:]):
             info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1)
             info["z_top"] = -vertical_scale * depth_min
-- 
2.43.0


From ee08ad74e35f26fb3fa75c142c7e11e5a53ce2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 63/67] fix: models from IRIS EMC files with axes in descending
 order had values at the wrong grid points

---
 .../create/data_srcs/iris_emc/datasrc.py      | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index e4c47b7..ae9e161 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -175,14 +175,37 @@ class EMCNetCDF(DataSrc):
             y_start, y_end = batch.y_range
             z_start, z_end = batch.z_range
             for i_value, name in enumerate(value_names):
-                values_batch = self.emc.variables[name][z_start:z_end, y_start:y_end, x_start:x_end]
-                values[:, :, :, i_value] = numpy.transpose(values_batch)
+                values[:, :, :, i_value] = self._read_values(name, (x_start, x_end), (y_start, y_end), (z_start, z_end))
         else:
             nz, ny, nx = self.emc.variables[value_names[0]][:].shape
             values = numpy.zeros((nx, ny, nz, len(value_names)), dtype=numpy.float32)
             for i_value, name in enumerate(value_names):
-                values[:, :, :, i_value] = numpy.transpose(self.emc.variables[name][:])
+                values[:, :, :, i_value] = self._read_values(name, (0, nx), (0, ny), (0, nz))
         return values
 
+    def _read_values(self, name, x_range, y_range, z_range):
+        """Read values for range of points in block. Points in the file may be in the opposite order.
+
+        Args:
+            name (str)
+                Name of value.
+            x_range (tuple)
+                Range of points along x axis.
+            y_range (tuple)
+                Range of points along y axis.
+            z_range (tuple)
+                Range of points along z axis.
+        Returns:
+            Numpy array [Nx,Ny,Nz] of values.
+        """
+        slices = []
+        steps = []
+        for axis, (start, end) in (("depth", z_range), ("latitude", y_range), ("longitude", x_range)):
+            points = self.emc.variables[axis][:]
+            is_reversed = points[0] > points[-1]
+            slices.append(slice(points.size-end, points.size-start) if is_reversed else slice(start, end))
+            steps.append(slice(None, None, -1 if is_reversed else 1))
+        return numpy.transpose(self.emc.variables[name][tuple(slices)][tuple(steps)])
+
 
 # End of file
-- 
2.43.0


From 616b1b4b22db58f529d32a13a705371c88a82736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 64/67] fix: missing values of IRIS EMC files were stored as
 data rather than no data

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index ae9e161..82dc6e1 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -205,7 +205,8 @@ class EMCNetCDF(DataSrc):
             is_reversed = points[0] > points[-1]
             slices.append(slice(points.size-end, points.size-start) if is_reversed else slice(start, end))
             steps.append(slice(None, None, -1 if is_reversed else 1))
-        return numpy.transpose(self.emc.variables[name][tuple(slices)][tuple(steps)])
+        values = self.emc.variables[name][tuple(slices)][tuple(steps)]
+        return numpy.transpose(numpy.ma.filled(values, NODATA_VALUE))
 
 
 # End of file
-- 
2.43.0


From e7f90965feabb35173908a450b04fd2abb6068bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 65/67] fix: long value names and numbers ran together with the
 previous column of output

---
 libsrc/geomodelgrids/apps/Borehole.cc  |  8 ++++----
 libsrc/geomodelgrids/apps/Query.cc     | 10 +++++-----
 libsrc/geomodelgrids/apps/QueryElev.cc |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index a54e69a..2759cce 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -90,10 +90,10 @@ geomodelgrids::apps::Borehole::run(int argc,
         query.query(&values[0], _location[0], _location[1], elevation);
 
         const double depth = groundSurf - elevation;
-        sout << std::setw(_Borehole::cwidth) << elevation
-             << std::setw(_Borehole::cwidth) << depth;
+        sout << " " << std::setw(_Borehole::cwidth-1) << elevation
+             << " " << std::setw(_Borehole::cwidth-1) << depth;
         for (size_t i = 0; i < numQueryValues; ++i) {
-            sout << std::setw(_Borehole::cwidth) << values[i];
+            sout << " " << std::setw(_Borehole::cwidth-1) << values[i];
         } // for
         sout << "\n";
     } // while
@@ -258,7 +258,7 @@ geomodelgrids::apps::Borehole::_createOutputHeader(int argc,
            << std::setw(_Borehole::cwidth-1) << "Elevation"
            << std::setw(_Borehole::cwidth) << "Depth";
     for (size_t i = 0; i < _valueNames.size(); ++i) {
-        header << std::setw(_Borehole::cwidth) << _valueNames[i];
+        header << " " << std::setw(_Borehole::cwidth-1) << _valueNames[i];
     } // for
     header << "\n";
     return header.str();
diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index 97d8b0c..b12a6d3 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -95,11 +95,11 @@ geomodelgrids::apps::Query::run(int argc,
 
         query.query(&values[0], srcX, srcY, srcZ);
 
-        sout << std::setw(_Query::cwidth) << srcX
-             << std::setw(_Query::cwidth) << srcY
-             << std::setw(_Query::cwidth) << srcZ;
+        sout << " " << std::setw(_Query::cwidth-1) << srcX
+             << " " << std::setw(_Query::cwidth-1) << srcY
+             << " " << std::setw(_Query::cwidth-1) << srcZ;
         for (size_t i = 0; i < numQueryValues; ++i) {
-            sout << std::setw(_Query::cwidth) << values[i];
+            sout << " " << std::setw(_Query::cwidth-1) << values[i];
         } // for
         sout << "\n";
     } // while
@@ -274,7 +274,7 @@ geomodelgrids::apps::Query::_createOutputHeader(int argc,
            << std::setw(_Query::cwidth) << "x1"
            << std::setw(_Query::cwidth) << "x2";
     for (size_t i = 0; i < _valueNames.size(); ++i) {
-        header << std::setw(_Query::cwidth) << _valueNames[i];
+        header << " " << std::setw(_Query::cwidth-1) << _valueNames[i];
     } // for
     header << "\n";
     return header.str();
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 7e943f2..2082959 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -88,9 +88,9 @@ geomodelgrids::apps::QueryElev::run(int argc,
 
         const double elev = (_useTopoBathy) ? query.queryTopoBathyElevation(srcX, srcY) : query.queryTopElevation(srcX, srcY);
 
-        sout << std::setw(_QueryElev::cwidth) << srcX
-             << std::setw(_QueryElev::cwidth) << srcY
-             << std::setw(_QueryElev::cwidth) << elev
+        sout << " " << std::setw(_QueryElev::cwidth-1) << srcX
+             << " " << std::setw(_QueryElev::cwidth-1) << srcY
+             << " " << std::setw(_QueryElev::cwidth-1) << elev
              << "\n";
     } // while
     if (sin.bad() || !sin.eof()) {
-- 
2.43.0


From 28d7fc281c6712dfbf8b8442ead2bc93c88ef4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 66/67] fix: finely spaced uneven depths of IRIS EMC files were
 taken for evenly spaced

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 82dc6e1..ed8c7a4 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -116,7 +116,8 @@ class EMCNetCDF(DataSrc):
 
     def _read_block_metadata(self):
         def is_uniform_resolution(z):
-            return numpy.std(numpy.diff(z)) < 0.001
+            resolution = numpy.abs(z[-1] - z[0]) / (z.size-1)
+            return numpy.max(numpy.abs(z - numpy.linspace(z[0], z[-1], z.size))) < 1.0e-4 * resolution
 
         lon_max = self.emc.geospatial_lon_max
         lon_min = self.emc.geospatial_lon_min
-- 
2.43.0


From 1493a9c4a4dcba0885ed18504df939a2be031d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:34 +0000
Subject: [PATCH 67/67] fix: prefer-deep isosurfaces at the constant value of a
 layer could be reported at the surface

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index b550a81..36ec3c9 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -522,7 +522,8 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
     const size_t numValues = _vbuffer.size();
     for (size_t iValue = 0; iValue < numValues; ++iValue) {
         const double vTarget = _app._isosurfaces[iValue].second;
-        double zTop = topElev - std::min(1.0e-4, 0.5*_app._maxDepth);
+        const double zSurface = topElev - std::min(1.0e-4, 0.5*_app._maxDepth);
+        double zTop = zSurface;
         double zBot = topElev - _app._maxDepth;
         assert(zTop > zBot);
 
@@ -547,7 +548,8 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
             const double weight = (vTarget-vTop) / (vBot-vTop);
             values[iValue] = topElev - (zTop + weight*(zBot-zTop));
         } else if (vTarget < vTop) {
-            values[iValue] = 0.0;
+            // Below the surface, the values at the top of the interval match the target to within roundoff.
+            values[iValue] = (zTop < zSurface) ? topElev - zTop : 0.0;
         } else {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if/else
-- 
2.43.0

