From 46eb5cecc8c2babb0ac9eda3995c939c41734d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 01/39] fix: Hyperslab::nearest returns the value at the
 nearest grid point, not 0

---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 62edad3..5157a0c 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -475,8 +475,8 @@ geomodelgrids::serial::_Hyperslab::_nearest2D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
@@ -531,8 +531,8 @@ geomodelgrids::serial::_Hyperslab::_nearest3D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
-- 
2.43.0


From f9a8110b194d8fb7771e68e7a8a39a3ff9a2bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:54 +0000
Subject: [PATCH 02/39] fix: discard hyperslab in memory when reading it fails

The origin of the slab was updated before the read, so after a failed read later
queries used whatever the buffer held and returned status OK.
---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 5157a0c..ca2dcbe 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -223,8 +223,14 @@ geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
             origin[i] = index;
         } // for
 
-        _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), origin, dims, ndims,
-                                             H5T_NATIVE_DOUBLE);
+        try {
+            _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), origin, dims, ndims,
+                                                 H5T_NATIVE_DOUBLE);
+        } catch (...) {
+            // No valid slab in memory; force the next query to read it.
+            delete[] _hyperslab._origin;_hyperslab._origin = nullptr;
+            throw;
+        } // try/catch
     } // if
 } // getSlab
 
-- 
2.43.0


From 69356211eefa428878e7030563da779532d4a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 03/39] fix: IndexingVariable::greater is a strict ordering, as
 std::sort requires

With equal coordinates std::sort ran past the end of the array.
---
 libsrc/geomodelgrids/utils/Indexing.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/Indexing.hh b/libsrc/geomodelgrids/utils/Indexing.hh
index a82a92f..e4b9f0b 100644
--- a/libsrc/geomodelgrids/utils/Indexing.hh
+++ b/libsrc/geomodelgrids/utils/Indexing.hh
@@ -103,7 +103,7 @@ public:
     inline static
     bool greater(const double x,
                  const double y) {
-        return x >= y;
+        return x > y;
     }
 
     // PRIVATE ------------------------------------------------------------------------------------
-- 
2.43.0


From d5784b80a7eeb0cfa3f7a0191c6ebe0c2f853e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:39 +0000
Subject: [PATCH 04/39] fix: failed initialize() and finalize() leave query
 uninitialized

---
 libsrc/geomodelgrids/serial/Query.cc | 29 +++++++++++++++++++++++++++-
 libsrc/geomodelgrids/serial/Query.hh | 16 +++++++++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/Query.cc b/libsrc/geomodelgrids/serial/Query.cc
index 4b63196..28bf8b0 100644
--- a/libsrc/geomodelgrids/serial/Query.cc
+++ b/libsrc/geomodelgrids/serial/Query.cc
@@ -91,6 +91,22 @@ void
 geomodelgrids::serial::Query::initialize(const std::vector<std::string>& modelFilenames,
                                          const std::vector<std::string>& valueNames,
                                          const std::string& inputCRSString) {
+    try {
+        _openModels(modelFilenames, valueNames, inputCRSString);
+    } catch (...) {
+        // Leave query uninitialized rather than with partially opened models.
+        _reset();
+        throw;
+    } // try/catch
+} // initialize
+
+
+// ------------------------------------------------------------------------------------------------
+// Open models and map query values to values in models.
+void
+geomodelgrids::serial::Query::_openModels(const std::vector<std::string>& modelFilenames,
+                                          const std::vector<std::string>& valueNames,
+                                          const std::string& inputCRSString) {
     _valuesLowercase = _Query::toLower(valueNames);
 
     for (size_t i = 0; i < _models.size(); ++i) {
@@ -114,7 +130,17 @@ geomodelgrids::serial::Query::initialize(const std::vector<std::string>& modelFi
         const std::vector<std::string>& modelUnitsLower = _Query::toLower(_models[iModel]->getValueUnits());
         _Query::checkUnits(&valueUnits, _valuesIndex[iModel], modelValues, modelUnitsLower);
     } // for
-} // initialize
+} // _openModels
+
+
+// ------------------------------------------------------------------------------------------------
+// Discard models and return to uninitialized state.
+void
+geomodelgrids::serial::Query::_reset(void) {
+    _models.clear();
+    _valuesIndex.clear();
+    _valuesLowercase.clear();
+} // _reset
 
 
 // ------------------------------------------------------------------------------------------------
@@ -251,6 +277,7 @@ geomodelgrids::serial::Query::finalize(void) {
             _models[i]->close();
         } // if
     } // for
+    _reset();
 } // finalize
 
 
diff --git a/libsrc/geomodelgrids/serial/Query.hh b/libsrc/geomodelgrids/serial/Query.hh
index 4cbf330..a8899a4 100644
--- a/libsrc/geomodelgrids/serial/Query.hh
+++ b/libsrc/geomodelgrids/serial/Query.hh
@@ -110,6 +110,22 @@ private:
 
     typedef std::map<size_t, size_t> values_map_type;
 
+    // PRIVATE METHODS ----------------------------------------------------------------------------
+private:
+
+    /** Open models and map query values to values in models.
+     *
+     * @param[in] modelFilenames Array of model filenames (in query order).
+     * @param[in] valueNames Array of names of values to return in query.
+     * @param[in] inputCRSString CRS as string (PROJ, EPSG, WKT) for input points.
+     */
+    void _openModels(const std::vector<std::string>& modelFilenames,
+                     const std::vector<std::string>& valueNames,
+                     const std::string& inputCRSString);
+
+    /// Discard models and return to uninitialized state.
+    void _reset(void);
+
     // PRIVATE MEMBERS ----------------------------------------------------------------------------
 private:
 
-- 
2.43.0


From 16fc25ef22117cb62726c647cc48c21bae9b5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:41 +0000
Subject: [PATCH 05/39] fix: HDF5 objects and buffers leaked when reading fails

---
 libsrc/geomodelgrids/serial/HDF5.cc | 51 +++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 75bb504..b105a6c 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -30,6 +30,8 @@ struct geomodelgrids::serial::_HDF5Access {
     hid_t dataspace;
     hid_t attribute;
     hid_t datatype;
+    hid_t memspace;
+    hid_t property;
 
     _HDF5Access(void) :
         object(HDF5::H5_NULL),
@@ -37,7 +39,9 @@ struct geomodelgrids::serial::_HDF5Access {
         dataset(HDF5::H5_NULL),
         dataspace(HDF5::H5_NULL),
         attribute(HDF5::H5_NULL),
-        datatype(HDF5::H5_NULL) {}
+        datatype(HDF5::H5_NULL),
+        memspace(HDF5::H5_NULL),
+        property(HDF5::H5_NULL) {}
 
 
     ~_HDF5Access(void) {
@@ -47,6 +51,8 @@ struct geomodelgrids::serial::_HDF5Access {
         if (dataspace >= 0) { H5Sclose(dataspace); }
         if (attribute >= 0) { H5Aclose(attribute); }
         if (datatype >= 0) { H5Tclose(datatype); }
+        if (memspace >= 0) { H5Sclose(memspace); }
+        if (property >= 0) { H5Pclose(property); }
     } // destructor
 
 };
@@ -90,7 +96,8 @@ geomodelgrids::serial::HDF5::open(const char* filename,
         throw std::runtime_error("HDF5 file already open.");
     } // if
 
-    hid_t fileAccess = H5Pcreate(H5P_FILE_ACCESS);
+    _HDF5Access h5access;
+    hid_t fileAccess = h5access.property = H5Pcreate(H5P_FILE_ACCESS);
     if (fileAccess < 0) { throw std::runtime_error("Could not create property for HDF5 cache parameters."); }
     herr_t err = H5Pset_cache(fileAccess, 0, _cacheNumSlots, _cacheSize, _cachePreemption);
     if (err < 0) { throw std::runtime_error("Could not set HDF5 file cache properties."); }
@@ -111,8 +118,6 @@ geomodelgrids::serial::HDF5::open(const char* filename,
             throw std::runtime_error(msg.str());
         } // if
     } // if/else
-
-    H5Pclose(fileAccess);
 } // constructor
 
 
@@ -337,10 +342,13 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
         const hsize_t numValues = dims[0];assert(numValues > 0);
 
         hsize_t typeNumBytes = H5Tget_size(datatype);
-        void* buffer = (void*) new char[numValues * typeNumBytes];
+        char* buffer = new char[numValues * typeNumBytes];
 
         herr_t err = H5Aread(h5access.attribute, datatype, buffer);
-        if (err < 0) { throw std::runtime_error("Could not read"); }
+        if (err < 0) {
+            delete[] buffer;buffer = nullptr;
+            throw std::runtime_error("Could not read");
+        } // if
 
         *valuesSize = numValues;
         *values = buffer;
@@ -382,7 +390,10 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
             buffer[stringLength] = '\0';
 
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer);
-            if (err < 0) { throw std::runtime_error("Could not read"); }
+            if (err < 0) {
+                delete[] buffer;buffer = nullptr;
+                throw std::runtime_error("Could not read");
+            } // if
             value = buffer;
 
             delete[] buffer;buffer = nullptr;
@@ -440,7 +451,11 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
             } // for
 
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer[0]);
-            if (err < 0) { throw std::runtime_error("Could not read"); }
+            if (err < 0) {
+                delete[] buffer[0];buffer[0] = nullptr;
+                delete[] buffer;buffer = nullptr;
+                throw std::runtime_error("Could not read");
+            } // if
 
             values->resize(numStrings);
             for (size_t i = 0; i < values->size(); ++i) {
@@ -456,7 +471,10 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
             delete[] buffer[0];buffer[0] = nullptr;
         } else {
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer);
-            if (err < 0) { throw std::runtime_error("Could not read"); }
+            if (err < 0) {
+                delete[] buffer;buffer = nullptr;
+                throw std::runtime_error("Could not read");
+            } // if
 
             values->resize(numStrings);
             for (size_t i = 0; i < values->size(); ++i) {
@@ -464,7 +482,10 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
             } // for
 
             err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, buffer);
-            if (err < 0) { throw std::runtime_error("Could not reclaim variable length string for"); }
+            if (err < 0) {
+                delete[] buffer;buffer = nullptr;
+                throw std::runtime_error("Could not reclaim variable length string for");
+            } // if
         } // if/else
 
         delete[] buffer;buffer = nullptr;
@@ -534,8 +555,12 @@ geomodelgrids::serial::HDF5::readDatasetHyperslab(void* values,
             count[i] = 1;
         } // for
 
-        hid_t memspace = H5Screate_simple(ndims, dims, dims);
-        if (memspace < 0) { throw std::runtime_error("Could not create memory space."); }
+        hid_t memspace = h5access.memspace = H5Screate_simple(ndims, dims, dims);
+        if (memspace < 0) {
+            delete[] stride;stride = nullptr;
+            delete[] count;count = nullptr;
+            throw std::runtime_error("Could not create memory space.");
+        } // if
 
         herr_t err = H5Sselect_hyperslab(h5access.dataspace, H5S_SELECT_SET, origin, stride, count, dims);
         delete[] stride;stride = nullptr;
@@ -543,8 +568,6 @@ geomodelgrids::serial::HDF5::readDatasetHyperslab(void* values,
         if (err < 0) { throw std::runtime_error("Could not select hyperslab."); }
         err = H5Dread(h5access.dataset, datatype, memspace, h5access.dataspace, H5P_DEFAULT, values);
         if (err < 0) { throw std::runtime_error("Could not read hyperslab."); }
-
-        H5Sclose(memspace);memspace = H5_NULL;
     } catch (const std::exception& err) {
         std::ostringstream msg;
         msg << "Error occurred while reading dataset '"
-- 
2.43.0


From ed88637b62bad7014e31d92f356a019bd0ac83d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:19 +0000
Subject: [PATCH 06/39] fix: malformed attributes overran memory or aborted
 instead of raising an exception

---
 libsrc/geomodelgrids/serial/HDF5.cc | 50 +++++++++++++++++++----------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index b105a6c..3d9f078 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -151,16 +151,17 @@ geomodelgrids::serial::HDF5::hasGroup(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    if ((H5Lexists(_file, name, H5P_DEFAULT) > 0) && (H5Oexists_by_name(_file, name, H5P_DEFAULT) > 0)) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
+        if (h5access.object < 0) { throw std::runtime_error(std::string("Could not open object '") + name + "'."); }
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
 #else
         herr_t err = H5Oget_info(h5access.object, &info);
 #endif
-        assert(err >= 0);
+        if (err < 0) { throw std::runtime_error(std::string("Could not get information for object '") + name + "'."); }
         if (H5O_TYPE_GROUP == info.type) {
             exists = true;
         } // if
@@ -178,16 +179,17 @@ geomodelgrids::serial::HDF5::hasDataset(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    if ((H5Lexists(_file, name, H5P_DEFAULT) > 0) && (H5Oexists_by_name(_file, name, H5P_DEFAULT) > 0)) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
+        if (h5access.object < 0) { throw std::runtime_error(std::string("Could not open object '") + name + "'."); }
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
 #else
         herr_t err = H5Oget_info(h5access.object, &info);
 #endif
-        assert(err >= 0);
+        if (err < 0) { throw std::runtime_error(std::string("Could not get information for object '") + name + "'."); }
         if (H5O_TYPE_DATASET == info.type) {
             exists = true;
         } // if
@@ -219,8 +221,9 @@ geomodelgrids::serial::HDF5::getDatasetDims(hsize_t** dims,
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace."); }
 
         *ndims = H5Sget_simple_extent_ndims(h5access.dataspace);
+        if (*ndims < 0) { throw std::runtime_error("Could not get rank of dataspace."); }
         delete[] *dims;*dims = (*ndims > 0) ? new hsize_t[*ndims] : 0;
-        H5Sget_simple_extent_dims(h5access.dataspace, *dims, 0);
+        if (H5Sget_simple_extent_dims(h5access.dataspace, *dims, 0) < 0) { throw std::runtime_error("Could not get dimensions of dataspace."); }
 
     } catch (const std::exception& err) {
         std::ostringstream msg;
@@ -260,7 +263,8 @@ geomodelgrids::serial::HDF5::getGroupDatasets(std::vector<std::string>* names,
         for (int i = 0, index = 0; i < gsize; ++i) {
             char buffer[256];
             ssize_t namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
-                                                 buffer, 256, H5P_DEFAULT);assert(namelen > 0);
+                                                 buffer, 256, H5P_DEFAULT);
+            if ((namelen <= 0) || (namelen >= 256)) { throw std::runtime_error("Could not get name of dataset."); }
             (*names)[index++] = buffer;
         } // for
 
@@ -304,6 +308,10 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
         h5access.attribute = H5Aopen_by_name(_file, path, name, H5P_DEFAULT, H5P_DEFAULT);
         if (h5access.attribute < 0) { throw std::runtime_error("Could not open"); }
 
+        h5access.dataspace = H5Aget_space(h5access.attribute);
+        if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
+        if (1 != H5Sget_simple_extent_npoints(h5access.dataspace)) { throw std::runtime_error("Expected one value for"); }
+
         hid_t err = H5Aread(h5access.attribute, datatype, value);
         if (err < 0) { throw std::runtime_error("Could not read"); }
 
@@ -336,10 +344,11 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
+        if (1 != H5Sget_simple_extent_ndims(h5access.dataspace)) { throw std::runtime_error("Expected array for"); }
         hsize_t dims[1];
-        H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numValues = dims[0];assert(numValues > 0);
+        if (H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr) < 0) { throw std::runtime_error("Could not get size of"); }
+        const hsize_t numValues = dims[0];
+        if (0 == numValues) { throw std::runtime_error("Expected at least one value for"); }
 
         hsize_t typeNumBytes = H5Tget_size(datatype);
         char* buffer = new char[numValues * typeNumBytes];
@@ -382,6 +391,8 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
+        if (1 != H5Sget_simple_extent_npoints(h5access.dataspace)) { throw std::runtime_error("Expected one value for"); }
+        if (H5T_STRING != H5Tget_class(h5access.datatype)) { throw std::runtime_error("Expected string for"); }
 
         char* buffer = nullptr;
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
@@ -400,7 +411,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
         } else {
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, &buffer);
             if (err < 0) { throw std::runtime_error("Could not read"); }
-            value = buffer;
+            value = buffer ? buffer : "";
 
             err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, &buffer);
             if (err < 0) { throw std::runtime_error("Could not reclaim variable length string for"); }
@@ -437,10 +448,12 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
+        if (1 != H5Sget_simple_extent_ndims(h5access.dataspace)) { throw std::runtime_error("Expected array for"); }
         hsize_t dims[1];
-        H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numStrings = dims[0];assert(numStrings > 0);
+        if (H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr) < 0) { throw std::runtime_error("Could not get size of"); }
+        const hsize_t numStrings = dims[0];
+        if (0 == numStrings) { throw std::runtime_error("Expected at least one value for"); }
+        if (H5T_STRING != H5Tget_class(h5access.datatype)) { throw std::runtime_error("Expected string for"); }
 
         char** buffer = new char*[numStrings];
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
@@ -478,7 +491,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
             values->resize(numStrings);
             for (size_t i = 0; i < values->size(); ++i) {
-                (*values)[i] = buffer[i];
+                (*values)[i] = buffer[i] ? buffer[i] : "";
             } // for
 
             err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, buffer);
@@ -525,7 +538,10 @@ geomodelgrids::serial::HDF5::readDatasetHyperslab(void* values,
 
         const int ndimsAll = H5Sget_simple_extent_ndims(h5access.dataspace);
         hsize_t* dimsAll = (ndimsAll > 0) ? new hsize_t[ndimsAll] : nullptr;
-        H5Sget_simple_extent_dims(h5access.dataspace, dimsAll, nullptr);
+        if (H5Sget_simple_extent_dims(h5access.dataspace, dimsAll, nullptr) < 0) {
+            delete[] dimsAll;dimsAll = nullptr;
+            throw std::runtime_error("Could not get dimensions of dataspace.");
+        } // if
 
         // Validate arguments.
         if (ndims != ndimsAll) {
-- 
2.43.0


From 9e8d7bd0aef86aae06b09977f22f7d74a04467fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:37 +0000
Subject: [PATCH 07/39] fix: Surface ignored hyperslab dimensions set by user

---
 libsrc/geomodelgrids/serial/Surface.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 648d93c..27c5f2d 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -188,9 +188,9 @@ void
 geomodelgrids::serial::Surface::openQuery(geomodelgrids::serial::HDF5* const h5) {
     const size_t ndims = 3;
     hsize_t dims[ndims];
-    dims[0] = 128;
-    dims[1] = 128;
-    dims[2] = 1;
+    for (size_t i = 0; i < ndims; ++i) {
+        dims[i] = _hyperslabDims[i];
+    } // for
     const std::string& surfacePath = std::string("surfaces/") + _name;
     delete _hyperslab;_hyperslab = new geomodelgrids::serial::Hyperslab(h5, surfacePath.c_str(), dims, ndims);
 } // openQuery
-- 
2.43.0


From fdc3c89f344c35b5f10802680bb01ef9a2fc61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 08/39] fix: dataset with wrong rank aborted, and coordinates
 of previously loaded metadata were kept

---
 libsrc/geomodelgrids/serial/Block.cc   | 9 ++++++++-
 libsrc/geomodelgrids/serial/Surface.cc | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index cec79b2..4d6a738 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -70,6 +70,9 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     const char* indent = "            ";
     bool attributeErrors = false;
 
+    delete[] _coordinatesX;_coordinatesX = nullptr;
+    delete[] _coordinatesY;_coordinatesY = nullptr;
+    delete[] _coordinatesZ;_coordinatesZ = nullptr;
     size_t dims[3];
     if (h5->hasAttribute(blockPath.c_str(), "x_resolution")) {
         h5->readAttribute(blockPath.c_str(), "x_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionX);
@@ -122,7 +125,11 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, blockPath.c_str());
-    assert(4 == ndims);
+    if (4 != ndims) {
+        delete[] hdims;hdims = nullptr;
+        msg << indent << "    Expected rank 4 for dataset " << blockPath << ", but rank is " << ndims << ".\n";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 3; ++i) {
         _dims[i] = hdims[i];
     } // for
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 27c5f2d..51fb33e 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -57,6 +57,8 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     const char* indent = "            ";
     bool attributeErrors = false;
 
+    delete[] _coordinatesX;_coordinatesX = nullptr;
+    delete[] _coordinatesY;_coordinatesY = nullptr;
     size_t dims[2];
     if (h5->hasAttribute(surfacePath.c_str(), "x_resolution")) {
         h5->readAttribute(surfacePath.c_str(), "x_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionX);
@@ -85,7 +87,11 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, surfacePath.c_str());
-    assert(3 == ndims);
+    if (3 != ndims) {
+        delete[] hdims;hdims = nullptr;
+        msg << indent << "    Expected rank 3 for dataset " << surfacePath << ", but rank is " << ndims << ".\n";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 2; ++i) {
         _dims[i] = hdims[i];
     } // for
-- 
2.43.0


From bab7eabc593a48bc492c7cca32c39e98069c807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:23 +0000
Subject: [PATCH 09/39] fix: Model used closed file, and elevation between
 blocks aborted instead of raising an exception

---
 libsrc/geomodelgrids/serial/Model.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index ffb0efb..84d1ac8 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -96,11 +96,10 @@ geomodelgrids::serial::Model::close(void) {
 
     if (_h5) {
         _h5->close();
+        _h5.reset();
     } // if
 
-    for (size_t i = 0; i < _blocks.size(); ++i) {
-        _blocks[i].reset();
-    } // for
+    _blocks.clear();
 } // close
 
 
@@ -252,6 +251,10 @@ geomodelgrids::serial::Model::loadMetadata(void) {
 // Initialize.
 void
 geomodelgrids::serial::Model::initialize(void) {
+    if (!_h5) {
+        throw std::logic_error("Model not open. Call open() before initializing.");
+    } // if
+
     // Initialize CRS transformation
     _crsTransformer = std::make_shared<geomodelgrids::utils::CRSTransformer>();
     _crsTransformer->setSrc(_inputCRSString.c_str());
@@ -453,7 +456,12 @@ geomodelgrids::serial::Model::query(const double x,
     _toModelXYZ(&xModel, &yModel, &zModel, x, y, z);
     assert(contains(x, y, z));
 
-    std::shared_ptr<geomodelgrids::serial::Block> block = _findBlock(xModel, yModel, zModel);assert(block);
+    std::shared_ptr<geomodelgrids::serial::Block> block = _findBlock(xModel, yModel, zModel);
+    if (!block) {
+        std::ostringstream msg;
+        msg << "Could not find block containing point (" << x << ", " << y << ", " << z << ") in model.";
+        throw std::runtime_error(msg.str());
+    } // if
     return block->query(xModel, yModel, zModel);
 } // query
 
-- 
2.43.0


From f48f1877c0a3f4e6ea386d8af1781848b3e01813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:03 +0000
Subject: [PATCH 10/39] fix: units of first axis were reported for all axes of
 coordinate system

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index f30d767..4644a1b 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -232,7 +232,7 @@ geomodelgrids::utils::_CRSTransformer::getAxisUnit(std::string* unit,
     assert(projCoordSys);
 
     const char* buffer = nullptr;
-    proj_cs_get_axis_info(nullptr, projCoordSys, 0, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
+    proj_cs_get_axis_info(nullptr, projCoordSys, axisIndex, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
     if (strcasecmp("metre", buffer) == 0) {
         *unit = "meter";
     } else if (strcasecmp("meter", buffer) == 0) {
-- 
2.43.0


From faa0b64032c2d3914da31a9dc37987e7b230be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 11/39] fix: CRS units aborted for unrecognized CRS, PROJ
 objects leaked or used after being destroyed

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index 4644a1b..f8baf50 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -138,11 +138,10 @@ geomodelgrids::utils::CRSTransformer::createGeoToXYAxisOrder(const char* crsStri
     } // if
     PJ* projXY = proj_normalize_for_visualization(context, projGeo);
     if (!projXY) {
-        proj_destroy(projGeo);
-
         std::stringstream msg;
         msg << "Error creating normalized CRS from '" << crsString << "'.\n"
             << proj_errno_string(proj_errno(projGeo));
+        proj_destroy(projGeo);
         throw std::runtime_error(msg.str());
     }
     PJ* transform = proj_create_crs_to_crs_from_pj(context, projGeo, projXY, nullptr, nullptr);
@@ -174,7 +173,8 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
     if (!crsString || (0 == strlen(crsString))) { return; }
 
     PJ_CONTEXT* context = PJ_DEFAULT_CTX;
-    PJ* proj = proj_create(context, crsString);assert(proj);
+    PJ* proj = proj_create(context, crsString);
+    if (!proj) { return; }
     PJ* projCoordSys = proj_crs_get_coordinate_system(context, proj);
     if (projCoordSys) {
         _CRSTransformer::getUnits(xUnit, yUnit, zUnit, projCoordSys);
@@ -199,6 +199,7 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
         proj_destroy(projCoordSys);
         return;
     }
+    proj_destroy(proj);
 }
 
 
-- 
2.43.0


From a6af98d84fffb76bbf410e4ec0214f07f0e634d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:03 +0000
Subject: [PATCH 12/39] fix: GeoTiff::getBBox gave wrong minimum y

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 3c2ecdf..6ecc2de 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -148,7 +148,7 @@ geomodelgrids::utils::GeoTiff::getBBox(double* minX,
 
     const double _maxY = _transform[3];
     const double dy = _transform[5];
-    if (minY) { *minY = _maxY - dy * _numRows; }
+    if (minY) { *minY = _maxY + dy * _numRows; }
     if (maxY) { *maxY = _maxY; }
 }
 
-- 
2.43.0


From fbc52b17ad334ba45f8b10ecb9c7758774269983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 13/39] fix: closing one GeoTiff broke reading and writing of
 other GeoTiff files

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 6ecc2de..74a8303 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -276,10 +276,7 @@ geomodelgrids::utils::GeoTiff::close(void) {
         GDALClose(_dataset);
         _dataset = nullptr;
     } // if
-    if (_driver) {
-        GDALDestroyDriverManager();
-        _driver = nullptr;
-    } // if
+    _driver = nullptr; // Drivers are shared by all datasets, so we do not destroy the driver manager.
 }
 
 
-- 
2.43.0


From c56e9d98411ebe76e208ef653292fbbb24333a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:27 +0000
Subject: [PATCH 14/39] fix: GeoTiff with unrecognized CRS was written without
 CRS

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 74a8303..9fc4758 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -190,6 +190,11 @@ geomodelgrids::utils::GeoTiff::create(const char* filename) {
     // Set projection
     PJ_CONTEXT* context = nullptr;
     PJ* proj = proj_create(context, _crs.c_str());
+    if (!proj) {
+        std::ostringstream msg;
+        msg << "Could not create CRS '" << _crs << "' for GeoTiff file '" << filename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     _dataset->SetProjection(proj_as_wkt(context, proj, PJ_WKT1_GDAL, options));
     proj_destroy(proj);proj = nullptr;
 
-- 
2.43.0


From e193539a5b4a574de2bebe7ec0af5e3e89ac2bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 15/39] fix: exceptions escaped C functions initializing and
 finalizing query

---
 libsrc/geomodelgrids/serial/cquery.cc | 33 ++++++++++++++++-----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/cquery.cc b/libsrc/geomodelgrids/serial/cquery.cc
index a172462..b9aa0fb 100644
--- a/libsrc/geomodelgrids/serial/cquery.cc
+++ b/libsrc/geomodelgrids/serial/cquery.cc
@@ -63,20 +63,22 @@ geomodelgrids_squery_initialize(void* handle,
         return geomodelgrids::utils::ErrorHandler::ERROR;
     } // if
 
-    std::vector < std::string > modelFilenamesCxx(modelFilenamesSize);
-    for (int i = 0; i < modelFilenamesSize; ++i) {
-        modelFilenamesCxx[i] = modelFilenames[i];
-    } // for
+    assert(query);
+    try {
+        if (!inputCRSString) { throw std::invalid_argument("NULL string for input CRS."); }
 
-    std::vector < std::string > valueNamesCxx(valueNamesSize);
-    for (int i = 0; i < valueNamesSize; ++i) {
-        valueNamesCxx[i] = valueNames[i];
-    } // for
+        std::vector < std::string > modelFilenamesCxx(modelFilenamesSize);
+        for (int i = 0; i < modelFilenamesSize; ++i) {
+            modelFilenamesCxx[i] = modelFilenames[i];
+        } // for
 
-    const std::string& inputCRSStringCxx(inputCRSString);
+        std::vector < std::string > valueNamesCxx(valueNamesSize);
+        for (int i = 0; i < valueNamesSize; ++i) {
+            valueNamesCxx[i] = valueNames[i];
+        } // for
+
+        const std::string& inputCRSStringCxx(inputCRSString);
 
-    assert(query);
-    try {
         query->initialize(modelFilenamesCxx, valueNamesCxx, inputCRSStringCxx);
     } catch (const std::exception& err) {
         std::shared_ptr<geomodelgrids::utils::ErrorHandler>& errorHandler = query->getErrorHandler();
@@ -276,12 +278,17 @@ int
 geomodelgrids_squery_finalize(void* handle) {
     geomodelgrids::serial::Query* query = (geomodelgrids::serial::Query*) handle;
     if (!handle) {
-        std::cerr << "NULL handle for query object in call to geomodelgrids_squery_setSquashMinElev.";
+        std::cerr << "NULL handle for query object in call to geomodelgrids_squery_finalize().";
         return geomodelgrids::utils::ErrorHandler::ERROR;
     } // if
 
     assert(query);
-    query->finalize();
+    try {
+        query->finalize();
+    } catch (const std::exception& err) {
+        std::shared_ptr<geomodelgrids::utils::ErrorHandler>& errorHandler = query->getErrorHandler();
+        errorHandler->setError(err.what());
+    } // try/catch
 
     return query->getErrorHandler()->getStatus();
 } // finalize
-- 
2.43.0


From 379492bfad7d3d7c415f747744f261c32bd71d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 16/39] fix: failed openQuery left dangling hyperslab (double
 free)

---
 libsrc/geomodelgrids/serial/Block.cc   | 3 ++-
 libsrc/geomodelgrids/serial/Surface.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index 4d6a738..535e72c 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -313,7 +313,8 @@ geomodelgrids::serial::Block::openQuery(geomodelgrids::serial::HDF5* const h5) {
         dims[i] = _hyperslabDims[i];
     } // for
     const std::string blockPath(std::string("/blocks/") + _name);
-    delete _hyperslab;_hyperslab = new geomodelgrids::serial::Hyperslab(h5, blockPath.c_str(), dims, ndims);
+    delete _hyperslab;_hyperslab = nullptr; // Hyperslab constructor may throw.
+    _hyperslab = new geomodelgrids::serial::Hyperslab(h5, blockPath.c_str(), dims, ndims);
 
     delete[] _values;_values = (_numValues > 0) ? new double[_numValues] : nullptr;
 } // openQuery
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 51fb33e..9bd9e2f 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -198,7 +198,8 @@ geomodelgrids::serial::Surface::openQuery(geomodelgrids::serial::HDF5* const h5)
         dims[i] = _hyperslabDims[i];
     } // for
     const std::string& surfacePath = std::string("surfaces/") + _name;
-    delete _hyperslab;_hyperslab = new geomodelgrids::serial::Hyperslab(h5, surfacePath.c_str(), dims, ndims);
+    delete _hyperslab;_hyperslab = nullptr; // Hyperslab constructor may throw.
+    _hyperslab = new geomodelgrids::serial::Hyperslab(h5, surfacePath.c_str(), dims, ndims);
 } // openQuery
 
 
-- 
2.43.0


From 2369a35df707fb7e20893bb2e791f1e64f14d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 17/39] fix: Hyperslab constructor and getDatasetDims leaked
 arrays when raising an exception

---
 libsrc/geomodelgrids/serial/HDF5.cc      |  5 ++++-
 libsrc/geomodelgrids/serial/Hyperslab.cc | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 3d9f078..5c88cd2 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -223,7 +223,10 @@ geomodelgrids::serial::HDF5::getDatasetDims(hsize_t** dims,
         *ndims = H5Sget_simple_extent_ndims(h5access.dataspace);
         if (*ndims < 0) { throw std::runtime_error("Could not get rank of dataspace."); }
         delete[] *dims;*dims = (*ndims > 0) ? new hsize_t[*ndims] : 0;
-        if (H5Sget_simple_extent_dims(h5access.dataspace, *dims, 0) < 0) { throw std::runtime_error("Could not get dimensions of dataspace."); }
+        if (H5Sget_simple_extent_dims(h5access.dataspace, *dims, 0) < 0) {
+            delete[] *dims;*dims = nullptr;
+            throw std::runtime_error("Could not get dimensions of dataspace.");
+        } // if
 
     } catch (const std::exception& err) {
         std::ostringstream msg;
diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index ca2dcbe..1275540 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -111,7 +111,12 @@ geomodelgrids::serial::Hyperslab::Hyperslab(geomodelgrids::serial::HDF5* const h
     _hyperslab(nullptr) {
     assert(_h5);
     int ndimsAll = 0;
-    h5->getDatasetDims(&_dimsAll, &ndimsAll, path);
+    try {
+        h5->getDatasetDims(&_dimsAll, &ndimsAll, path);
+    } catch (...) {
+        delete[] _dims;_dims = nullptr;
+        throw;
+    } // try/catch
 
     assert(ndimsAll >= 0);
     if (_ndims != size_t(ndimsAll)) {
@@ -130,7 +135,14 @@ geomodelgrids::serial::Hyperslab::Hyperslab(geomodelgrids::serial::HDF5* const h
     } // for
     _values = (totalSize > 0) ? new double[totalSize] : nullptr;
 
-    delete _hyperslab;_hyperslab = new geomodelgrids::serial::_Hyperslab(*this);
+    try {
+        _hyperslab = new geomodelgrids::serial::_Hyperslab(*this);
+    } catch (...) {
+        delete[] _dims;_dims = nullptr;
+        delete[] _dimsAll;_dimsAll = nullptr;
+        delete[] _values;_values = nullptr;
+        throw;
+    } // try/catch
 } // constructor
 
 
-- 
2.43.0


From 8e928d3d8e6ba8fef15e7779247299883be6e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 18/39] fix: Isosurface leaked line search when query raises an
 exception

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index e7c0524..47dc6c6 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -12,6 +12,7 @@
 #include <strings.h> // USES strcasecmp()
 #include <algorithm>
 #include <getopt.h> // USES getopt_long()
+#include <memory> // USES std::unique_ptr
 #include <iomanip>
 #include <fstream> // USES std::ofstream
 #include <sstream> // USES std::ostringstream, std::istringstream
@@ -512,9 +513,10 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
         return;
     } // if
 
-    LineSearch* lineSearch = _app._preferShallow ?
-                             (LineSearch*) new LineSearchDown(_query, _vbuffer, _app._numSearchPoints, x, y) :
-                             (LineSearch*) new LineSearchUp(_query, _vbuffer, _app._numSearchPoints, x, y);
+    // Queries may throw, so make sure the line search is deleted.
+    std::unique_ptr<LineSearch> lineSearch(_app._preferShallow ?
+                                           (LineSearch*) new LineSearchDown(_query, _vbuffer, _app._numSearchPoints, x, y) :
+                                           (LineSearch*) new LineSearchUp(_query, _vbuffer, _app._numSearchPoints, x, y));
 
     const size_t numValues = _vbuffer.size();
     for (size_t iValue = 0; iValue < numValues; ++iValue) {
@@ -549,7 +551,6 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
 
     } // for
 
-    delete lineSearch;lineSearch = nullptr;
 }
 
 
-- 
2.43.0


From e8df5c582fbf8ec1e4629830951344095e907c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:40 +0000
Subject: [PATCH 19/39] fix: HDF5 destructor aborted when closing the file
 fails

---
 libsrc/geomodelgrids/serial/HDF5.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 5c88cd2..2510e35 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -69,7 +69,11 @@ geomodelgrids::serial::HDF5::HDF5(void) :
 // ------------------------------------------------------------------------------------------------
 // Destructor
 geomodelgrids::serial::HDF5::~HDF5(void) {
-    close();
+    try {
+        close();
+    } catch (...) {
+        // Destructors must not throw.
+    } // try/catch
 } // destructor
 
 
-- 
2.43.0


From 996bf8cfa239304c6683de962d47d885332a9ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 20/39] fix: GeoTiff lost CRS that WKT1 does not support, and
 aborted without band labels

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 9fc4758..91bd948 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -195,18 +195,25 @@ geomodelgrids::utils::GeoTiff::create(const char* filename) {
         msg << "Could not create CRS '" << _crs << "' for GeoTiff file '" << filename << "'.";
         throw std::runtime_error(msg.str().c_str());
     } // if
-    _dataset->SetProjection(proj_as_wkt(context, proj, PJ_WKT1_GDAL, options));
+    const char* wkt = proj_as_wkt(context, proj, PJ_WKT1_GDAL, nullptr);
+    if (!wkt && proj_is_crs(proj)) { wkt = proj_as_wkt(context, proj, PJ_WKT2_2019, nullptr); } // Not all CRS have WKT1.
+    CPLErr err = (wkt) ? _dataset->SetProjection(wkt) : CE_Failure;
     proj_destroy(proj);proj = nullptr;
+    if (err != CE_None) {
+        std::ostringstream msg;
+        msg << "Could not set CRS '" << _crs << "' for GeoTiff file '" << filename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     // Set geographic transformation.
-    _dataset->SetGeoTransform(_transform);
+    err = _dataset->SetGeoTransform(_transform);
+    if (err != CE_None) { throw std::runtime_error("Could not set geographic transformation."); }
 
     // Set band labels.
-    assert(_bandLabels.size() == size_t(_dataset->GetRasterCount()));
-    for (size_t i = 0; i < _bandLabels.size(); ++i) {
+    for (size_t i = 0; i < _numBands; ++i) {
         GDALRasterBand* band = _dataset->GetRasterBand(i+1);
-        assert(band);
-        band->SetDescription(_bandLabels[i].c_str());
+        if (!band) { throw std::runtime_error("Could not get raster band."); }
+        if (i < _bandLabels.size()) { band->SetDescription(_bandLabels[i].c_str()); }
         band->SetNoDataValue(_noDataValue);
     } // for
 }
-- 
2.43.0


From 549fc0da766a6325cbef548ed19abc6ccd5cda38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 21/39] fix: GeoTiff buffer has the size of the image after the
 size is changed

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 91bd948..d06e283 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -37,6 +37,7 @@ geomodelgrids::utils::GeoTiff::setNumRows(const size_t numRows) {
     if (0 == numRows) {
         throw std::invalid_argument("Number of rows in image must be positive.");
     } // if
+    if (numRows != _numRows) { delete[] _buffer;_buffer = nullptr; } // Buffer is for the previous size.
     _numRows = numRows;
 }
 
@@ -54,6 +55,7 @@ geomodelgrids::utils::GeoTiff::setNumCols(const size_t numCols) {
     if (0 == numCols) {
         throw std::invalid_argument("Number of columns in image must be positive.");
     } // if
+    if (numCols != _numCols) { delete[] _buffer;_buffer = nullptr; } // Buffer is for the previous size.
     _numCols = numCols;
 }
 
@@ -71,6 +73,7 @@ geomodelgrids::utils::GeoTiff::setNumBands(const size_t numBands) {
     if (0 == numBands) {
         throw std::invalid_argument("Number of raster bands in image must be positive.");
     } // if
+    if (numBands != _numBands) { delete[] _buffer;_buffer = nullptr; } // Buffer is for the previous size.
     _numBands = numBands;
 }
 
-- 
2.43.0


From 3201ddca4e78135b8c6668fdccb13a90967bcf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 22/39] fix: query and queryelev use the last point when the
 points file does not end with a newline

---
 libsrc/geomodelgrids/apps/Query.cc     | 2 +-
 libsrc/geomodelgrids/apps/QueryElev.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index d24c2c4..36f4784 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -83,7 +83,7 @@ geomodelgrids::apps::Query::run(int argc,
     while (true) {
         double srcX, srcY, srcZ;
         sin >> srcX >> srcY >> srcZ;
-        if (sin.eof() || !sin.good()) {
+        if (sin.fail()) { // Last line of file may not end with newline.
             break;
         } // if
 
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 24a2250..7b695b2 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -76,7 +76,7 @@ geomodelgrids::apps::QueryElev::run(int argc,
     while (true) {
         double srcX, srcY;
         sin >> srcX >> srcY;
-        if (sin.eof() || !sin.good()) {
+        if (sin.fail()) { // Last line of file may not end with newline.
             break;
         } // if
 
-- 
2.43.0


From 62f8b577782697169ec6e10e33af084d6816c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 23/39] fix: query, queryelev, and borehole report errors
 writing the output file

---
 libsrc/geomodelgrids/apps/Borehole.cc  | 7 +++++++
 libsrc/geomodelgrids/apps/Query.cc     | 7 +++++++
 libsrc/geomodelgrids/apps/QueryElev.cc | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 959191d..943a141 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -94,6 +94,13 @@ geomodelgrids::apps::Borehole::run(int argc,
         sout << "\n";
     } // while
 
+    sout.close();
+    if (!sout.good()) {
+        std::ostringstream msg;
+        msg << "Error while writing output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
+
     query.finalize();
 
     return 0;
diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index 36f4784..1a846de 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -98,6 +98,13 @@ geomodelgrids::apps::Query::run(int argc,
         sout << "\n";
     } // while
 
+    sout.close();
+    if (!sout.good()) {
+        std::ostringstream msg;
+        msg << "Error while writing output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
+
     query.finalize();
 
     return 0;
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 7b695b2..0e4fdb3 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -88,6 +88,13 @@ geomodelgrids::apps::QueryElev::run(int argc,
              << "\n";
     } // while
 
+    sout.close();
+    if (!sout.good()) {
+        std::ostringstream msg;
+        msg << "Error while writing output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
+
     query.finalize();
 
     return 0;
-- 
2.43.0


From 3c7519411085ffa8fcc7ad75a693fc630273db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 24/39] fix: isosurface refuses an invalid bounding box

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 47dc6c6..1a32036 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -368,6 +368,7 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
         } // if
         if (((_maxX - _minX)/_horizRes < 0) || ((_maxY - _minY) / _horizRes < 0)) {
             msg << "    - Invalid bounding box. Use --bbox=XMIN,XMAX,YMIN,YMAX\n";
+            optionsOkay = false;
         } // if
         if (0.0 == _horizRes) {
             msg << "    - Missing horizontal resolution. Use --resolution=RESOLUTION\n";
-- 
2.43.0


From e90d5fefebfe4018854d573b1287a90da8a0e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 25/39] fix: isosurface georeferences the image with the size
 of the pixels that were queried

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 1a32036..ed24e98 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -191,7 +191,7 @@ geomodelgrids::apps::Isosurface::run(int argc,
         writer.setNumBands(numIsosurfaces);
         writer.setBandLabels(bandLabels);
         writer.setCRS(_bboxCRS.c_str());
-        writer.setBBox(_minX, _maxX, _minY, _maxY);
+        writer.setBBox(_minX, _minX + numX*_horizRes, _minY, _minY + numY*_horizRes); // Match size of pixels.
         writer.setNoDataValue(geomodelgrids::NODATA_VALUE);
         writer.create(_outputFilename.c_str());
 
-- 
2.43.0


From cbdef30e2ff678e3069f923656f144b467d93509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 26/39] fix: isosurface refines the search to the vertical
 resolution, also when it exceeds the maximum depth

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index ed24e98..f3a78a6 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -390,8 +390,8 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             msg << "    - Maximum depth (" << _maxDepth << ") must be positive.\n";
             optionsOkay = false;
         } // if
-        if (_numSearchPoints < 2) {
-            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 2.\n";
+        if (_numSearchPoints < 3) {
+            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 3.\n";
             optionsOkay = false;
         } // if
         if (_isosurfaces.empty()) {
@@ -472,8 +472,9 @@ geomodelgrids::apps::Isosurfacer::initialize(void) {
     } // for
     _query->initialize(_app._modelFilenames, valueNames, _app._bboxCRS);
 
-    _numLevels = size_t(ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints)));
-    assert(_numLevels >= 1);
+    // Each level divides the interval searched by the number of intervals between search points.
+    const double numLevels = ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints - 1.0));
+    _numLevels = (numLevels > 1.0) ? size_t(numLevels) : 1;
 
     const size_t numValues = _app._isosurfaces.size();
     _vbuffer.resize(numValues);
-- 
2.43.0


From 47ad7eda857d457fa8dab707da029c1034542453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 27/39] fix: coordinates are released when their number does
 not match the dimensions of the block or surface

---
 libsrc/geomodelgrids/serial/Block.cc   | 3 +++
 libsrc/geomodelgrids/serial/Surface.cc | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index 535e72c..50eff41 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -148,16 +148,19 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     if (_coordinatesX && (dims[0] != _dims[0])) {
         msg << indent << "    x dimension of block " << blockPath << " (" << _dims[0]
             << ") does not match number of x coordinates (" << dims[0] << ").\n";
+        delete[] _coordinatesX;_coordinatesX = nullptr;
         attributeErrors = true;
     } // if
     if (_coordinatesY && (dims[1] != _dims[1])) {
         msg << indent << "    y dimension of block " << blockPath << " (" << _dims[1]
             << ") does not match number of x coordinates (" << dims[1] << ").\n";
+        delete[] _coordinatesY;_coordinatesY = nullptr;
         attributeErrors = true;
     } // if
     if (_coordinatesZ && (dims[2] != _dims[2])) {
         msg << indent << "    z dimension of block " << blockPath << " (" << _dims[2]
             << ") does not match number of x coordinates (" << dims[2] << ").\n";
+        delete[] _coordinatesZ;_coordinatesZ = nullptr;
         attributeErrors = true;
     } // if
 
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 9bd9e2f..8623b76 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -101,11 +101,13 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     if (_coordinatesX && (dims[0] != _dims[0])) {
         msg << indent << "    x dimension of surface " << surfacePath << " (" << _dims[0]
             << ") does not match number of x coordinates (" << dims[0] << ").\n";
+        delete[] _coordinatesX;_coordinatesX = nullptr;
         attributeErrors = true;
     } // if
     if (_coordinatesY && (dims[1] != _dims[1])) {
         msg << indent << "    y dimension of surface " << surfacePath << " (" << _dims[1]
             << ") does not match number of x coordinates (" << dims[1] << ").\n";
+        delete[] _coordinatesY;_coordinatesY = nullptr;
         attributeErrors = true;
     } // if
 
-- 
2.43.0


From dd584afab2fdb6ed9f3d72cee7dc19c9dd4da3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 28/39] fix: info verifies models with variable resolution
 against their coordinates

---
 libsrc/geomodelgrids/apps/Info.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index fba6e3d..a802186 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -484,15 +484,19 @@ geomodelgrids::apps::_Info::verifySurface(const geomodelgrids::serial::Surface*
     double resolution[2];
     resolution[0] = surface->getResolutionX();
     resolution[1] = surface->getResolutionY();
+    const double* coordinates[2] = { surface->getCoordinatesX(), surface->getCoordinatesY() };
     const size_t* numTopo = surface->getDims();
 
     const double tolerance = 1.0e-6;
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numTopo[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        const bool isVariable = coordinates[iDim] && numTopo[iDim] > 0; // Variable resolution
+        const double start = isVariable ? coordinates[iDim][0] : 0.0;
+        const double end = isVariable ? coordinates[iDim][numTopo[iDim]-1] : resolution[iDim]*(numTopo[iDim]-1);
+        if ((fabs(start/dimsDomain[iDim]) > tolerance) || (fabs(1.0 - end/dimsDomain[iDim]) > tolerance)) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Surface '" << name << "' does not span the domain in the " << dimLabel[iDim]
-                      << " dimension (surface=" << resolution[iDim]*numTopo[iDim] << ", domain=" << dimsDomain[iDim] << ").\n";
+                      << " dimension (surface=" << (isVariable ? end - start : resolution[iDim]*numTopo[iDim]) << ", domain=" << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
     } // for
@@ -515,6 +519,7 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
     double resolution[2];
     resolution[0] = block->getResolutionX();
     resolution[1] = block->getResolutionY();
+    const double* coordinates[2] = { block->getCoordinatesX(), block->getCoordinatesY() };
     const size_t* numBlock = block->getDims();
 
     const double tolerance = 1.0e-6;
@@ -522,10 +527,13 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
     // Verify block spans the domain.
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numBlock[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        const bool isVariable = coordinates[iDim] && numBlock[iDim] > 0; // Variable resolution
+        const double start = isVariable ? coordinates[iDim][0] : 0.0;
+        const double end = isVariable ? coordinates[iDim][numBlock[iDim]-1] : resolution[iDim]*(numBlock[iDim]-1);
+        if ((fabs(start/dimsDomain[iDim]) > tolerance) || (fabs(1.0 - end/dimsDomain[iDim]) > tolerance)) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Block '" << block->getName() << "' does not span the domain in the "
-                      << dimLabel[iDim] << " dimension (block=" << resolution[iDim]*numBlock[iDim] << ", domain="
+                      << dimLabel[iDim] << " dimension (block=" << (isVariable ? end - start : resolution[iDim]*numBlock[iDim]) << ", domain="
                       << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
-- 
2.43.0


From 7bcb12aafe1320909c7c544c78d57172d20eafed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 29/39] fix: no NaN in isosurfaces where the values are uniform
 and equal to the isosurface

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index f3a78a6..f51725e 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -541,7 +541,9 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
         _query->query(&_vbuffer[0], x, y, zBot);
         const double vBot = _vbuffer[iValue];
 
-        if (((vTop <= vTarget) && (vTarget <= vBot)) || ((vTop >= vTarget) && (vTarget >= vBot))) {
+        if (vTop == vTarget) { // Value may be uniform over interval, so do not interpolate.
+            values[iValue] = topElev - zTop;
+        } else if (((vTop <= vTarget) && (vTarget <= vBot)) || ((vTop >= vTarget) && (vTarget >= vBot))) {
             const double a = (vTop-vBot) / (zTop-zBot);
             const double b = vTop - a*zTop;
             values[iValue] = topElev - (vTarget - b) / a;
-- 
2.43.0


From d846f8430d8acb51e3a0ae7df6a2a4927a423a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 30/39] fix: batch sizes respect max_nvalues and exist for
 every grid

BatchGenerator3D raised ValueError for some valid grids (for example num_x=3, num_y=1, num_z=2,
max_nvalues=3), and rounding the roots up produced batches with more than max_nvalues points.
---
 geomodelgrids/create/utils/batch.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/utils/batch.py b/geomodelgrids/create/utils/batch.py
index d9c5cf4..9134136 100644
--- a/geomodelgrids/create/utils/batch.py
+++ b/geomodelgrids/create/utils/batch.py
@@ -5,6 +5,13 @@ import logging
 import math
 
 
+def _root(value, n):
+    """Get largest integer whose n-th power does not exceed value.
+    """
+    root = round(value**(1.0 / n))
+    return root if root**n <= value else root - 1
+
+
 class BatchGenerator2D():
     """Iterator for batches of points for 2D domains.
 
@@ -31,7 +38,7 @@ class BatchGenerator2D():
             self.bnum_x = num_x
             self.bnum_y = num_y
         else:
-            num_xy = round(max_nvalues**0.5)
+            num_xy = _root(max_nvalues, 2)
             if num_x > num_xy and num_y > num_xy:
                 self.bnum_x = self.bnum_y = num_xy
             elif num_x <= num_xy:
@@ -120,12 +127,12 @@ class BatchGenerator3D():
             self.bnum_y = num_y
             self.bnum_z = num_z
         else:
-            num_xyz = round(max_nvalues**(1.0 / 3.0))
+            num_xyz = _root(max_nvalues, 3)
             if num_x > num_xyz and num_y > num_xyz and num_z > num_xyz:
                 self.bnum_x = self.bnum_y = self.bnum_z = num_xyz
             elif num_z <= num_xyz:
                 self.bnum_z = num_z
-                num_xy = round((max_nvalues // num_z)**0.5)
+                num_xy = _root(max_nvalues // num_z, 2)
                 if num_x > num_xy and num_y > num_xy:
                     self.bnum_x = self.bnum_y = num_xy
                 elif num_x <= num_xy:
@@ -138,19 +145,28 @@ class BatchGenerator3D():
                     raise ValueError("Unknown case")
             elif num_x <= num_xyz:
                 self.bnum_x = num_x
-                num_yz = round((max_nvalues // num_x)**0.5)
+                num_yz = _root(max_nvalues // num_x, 2)
                 if num_y > num_yz and num_z > num_yz:
                     self.bnum_y = self.bnum_z = num_yz
                 elif num_y <= num_yz:
                     self.bnum_y = num_y
                     self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_yz:
+                    self.bnum_z = num_z
+                    self.bnum_y = max_nvalues // (num_x * num_z)
                 else:
                     raise ValueError("Unknown case")
             elif num_y <= num_xyz:
                 self.bnum_y = num_y
-                num_xz = round((max_nvalues // num_y)**0.5)
+                num_xz = _root(max_nvalues // num_y, 2)
                 if num_x > num_xz and num_z > num_xz:
                     self.bnum_x = self.bnum_z = num_xz
+                elif num_x <= num_xz:
+                    self.bnum_x = num_x
+                    self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_xz:
+                    self.bnum_z = num_z
+                    self.bnum_x = max_nvalues // (num_y * num_z)
                 else:
                     raise ValueError("Unknown case")
             else:
-- 
2.43.0


From 0ed09a9e2c80117599b64f7e75dd61112f296d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 31/39] fix: Block.generate_points without a batch generates
 all layers

The range of layers was empty, so that no points were generated.
---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 7bb7325..7677e5b 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -242,7 +242,7 @@ class Block():
             y_start = 0
             y_end = num_y
             z_start = 0
-            z_end = 0
+            z_end = num_z
 
         if self.x_resolution:
             x1 = numpy.linspace(0.0, self.x_resolution * (num_x - 1), num_x)[x_start:x_end]
-- 
2.43.0


From 1ee6b4d795bdd6f08c7b779fb793c47d3619223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 32/39] fix: z_top_offset applies only to the top points of a
 block

It was added to the first layer of every batch.
---
 geomodelgrids/create/core/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 7677e5b..4ce1b8c 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -267,7 +267,8 @@ class Block():
                     (domain_top - domain_bot) * (self.z_top - z[:, :, iz] - domain_bot)
         else:
             z = self.z_top - z
-        z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
+        if z_start == 0:
+            z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
 
         xyz_geo = numpy.stack((x, y, z), axis=3)
         xyz_model = numpy.zeros(xyz_geo.shape)
-- 
2.43.0


From 6d3c9a184f70cd747542eb5e50f92a59d90c9e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 33/39] fix: keep axes with one point in the elevation of the
 top surface

squeeze() also removed the x or y axis of batches with a single row of points, and the points of
the batch could not be generated.
---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 4ce1b8c..e6f5c53 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -361,7 +361,7 @@ class Block():
             surface_batch = None
 
         elevation = surface.storage.load_surface(surface, surface_batch)
-        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze())
+        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze(axis=2))
 
     def get_attributes(self):
         """Get attributes associated with block.
-- 
2.43.0


From 5cb7e4b5be3fe5e717351ccbc4b2aba45eaccf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 34/39] fix: take the elevation of the surface at the
 coordinates of the block's points

With variable resolution, a batch that does not start at the first point used rows from the start of
the surface. Without batches, the ranges of the missing batch were used (AttributeError).
---
 geomodelgrids/create/core/model.py | 55 +++++++++++-------------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index e6f5c53..3db40ac 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -303,35 +303,21 @@ class Block():
             if math.fabs(block_skip * surface_resolution - block_resolution) > TOLERANCE:
                 raise ValueError(
                     f"Block resolution ({block_resolution}) must be a integer multiple of the surface resolution ({surface_resolution})")
-            if batch:
-                surf_range = (block_skip * batch_range[0], block_skip * batch_range[1])
-                indices = numpy.arange(0, surf_range[1]-surf_range[0], step=block_skip, dtype=numpy.int64)
-            else:
-                surf_range = None
-                indices = numpy.arange(0, surfae_dim+0.5, step=block_skip, dtype=numpy.int64)
+            surf_range = (block_skip * batch_range[0], block_skip * batch_range[1])
+            indices = numpy.arange(0, surf_range[1]-surf_range[0], step=block_skip, dtype=numpy.int64)
             return (surf_range, indices)
 
         def _get_slice_variable(block_coordinates, surface_coordinates, batch_range):
-            if batch:
-                block_values = block_coordinates[batch_range[0]:batch_range[1]]
-                scoords_sorted = numpy.array(surface_coordinates)
-                scoords_sorted.sort()
-                indices = scoords_sorted.searchsorted(block_values)
-                for index, block_coord in zip(indices, block_values):
-                    if math.fabs(scoords_sorted[index] - block_coord) > TOLERANCE:
-                        raise ValueError(
-                            f"Could not find surface coordinate matching block coordinate ({block_coord}).")
-                indices -= indices[0]
-                surf_range = (numpy.min(indices), numpy.max(indices)+1)
-            else:
-                scoords_sorted = numpy.array(surface_coordinates)
-                scoords_sorted.sort()
-                indices = scoords_sorted.searchsorted(block_coordinates)
-                for index, block_coord in zip(indices, block_coordinates):
-                    if abs(scoords_sorted[index] - block_coord) > TOLERANCE:
-                        raise ValueError(
-                            f"Could not find surface coordinate matching block coordinate ({block_coord}).")
-                surf_range = (numpy.min(indices), numpy.max(indices)+1)
+            block_values = block_coordinates[batch_range[0]:batch_range[1]]
+            scoords_sorted = numpy.array(surface_coordinates)
+            scoords_sorted.sort()
+            indices = scoords_sorted.searchsorted(block_values)
+            for index, block_coord in zip(indices, block_values):
+                if math.fabs(scoords_sorted[index] - block_coord) > TOLERANCE:
+                    raise ValueError(
+                        f"Could not find surface coordinate matching block coordinate ({block_coord}).")
+            surf_range = (numpy.min(indices), numpy.max(indices)+1)
+            indices -= surf_range[0]
             return (surf_range, indices)
 
         if self.x_resolution and not surface.x_resolution:
@@ -344,22 +330,21 @@ class Block():
             raise ValueError("Cannot use variable y-resolution block with uniform y-resolution surface.")
 
         surface_dims = surface.get_dims()
+        num_x, num_y, _ = self.get_dims()
+        x_range = batch.x_range if batch else (0, num_x)
+        y_range = batch.y_range if batch else (0, num_y)
         if self.x_resolution:
             (surf_xrange, x_indices) = _get_slice_uniform(self.x_resolution, surface_dims[0],
-                                                          surface.x_resolution, batch.x_range)
+                                                          surface.x_resolution, x_range)
         else:
-            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, batch.x_range)
+            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, x_range)
         if self.y_resolution:
             (surf_yrange, y_indices) = _get_slice_uniform(self.y_resolution, surface_dims[1],
-                                                          surface.y_resolution, batch.y_range)
-        else:
-            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, batch.y_range)
-
-        if batch:
-            surface_batch = BatchSurface(surf_xrange, surf_yrange)
+                                                          surface.y_resolution, y_range)
         else:
-            surface_batch = None
+            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, y_range)
 
+        surface_batch = BatchSurface(surf_xrange, surf_yrange)
         elevation = surface.storage.load_surface(surface, surface_batch)
         return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze(axis=2))
 
-- 
2.43.0


From 7dbdcca205b34b94ce512caf866539abd03d19d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 35/39] fix: error for a wrong type of an element of an
 attribute raised NameError

---
 geomodelgrids/create/io/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 50ac313..2c1b7a6 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -207,7 +207,7 @@ class HDF5Storage():
                 for list_value in value:
                     if not isinstance(list_value, value_type):
                         raise ValueError(
-                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(iter_value)}'.")
+                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
                     result = [numpy.string_(v) for v in value]
                 else:
-- 
2.43.0


From bb56149fa404540a29d2c7b00f281b7cd08d571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 36/39] fix: surface with another resolution in the file raised
 UnboundLocalError instead of ValueError

---
 geomodelgrids/create/io/hdf5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 2c1b7a6..e00f46a 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -101,9 +101,9 @@ class HDF5Storage():
         for attr_info in surface.get_attributes():
             attr_name = attr_info[0]
             attr_type = attr_info[1]
+            config_attr = getattr(surface, attr_name)
+            h5_attr = attrs[attr_name]
             if attr_type == list or attr_type == tuple:
-                config_attr = getattr(surface, attr_name)
-                h5_attr = attrs[attr_name]
                 if len(config_attr) != len(h5_attr):
                     raise ValueError(
                         f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
@@ -112,7 +112,7 @@ class HDF5Storage():
                         raise ValueError(
                             f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
             else:
-                if getattr(surface, attr_name) != attrs[attr_name]:
+                if config_attr != h5_attr:
                     raise ValueError(
                         f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
 
-- 
2.43.0


From 9dc9fa9b67a2e499c9be87242bb7c1e8ebb13bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 37/39] fix: top surface created without batches was queried
 without points

---
 geomodelgrids/create/apps/create_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index 8907cfb..c71a911 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -85,7 +85,7 @@ class App():
                         model.save_top_surface(elevation, batch)
                 else:
                     points = model.top_surface.generate_points()
-                    elevation = datasrc.get_top_surface()
+                    elevation = datasrc.get_top_surface(points)
                     model.save_top_surface(elevation)
             if model.topo_bathy:
                 model.init_topography_bathymetry()
-- 
2.43.0


From 6fc42063441497073cfdfd522988eec96fa5fe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 38/39] fix: geomodelgrids_create_model failed without the
 configuration and ignored --all and --quiet

---
 geomodelgrids/create/apps/create_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index c71a911..1c9e7f5 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -153,13 +153,15 @@ def cli():
     parser.add_argument("--debug", action="store_true", dest="debug")
     args = parser.parse_args()
 
-    app = App(show_progress=True, debug=args.debug, log_filename=args.log_filename)
+    app = App(show_progress=args.show_progress, debug=args.debug, log_filename=args.log_filename)
     kwargs = {
+        "config_filenames": args.config,
         "show_parameters": args.show_parameters,
         "import_domain": args.import_domain,
         "import_surfaces": args.import_surfaces,
         "import_blocks": args.import_blocks,
         "update_metadata": args.update_metadata,
+        "all_steps": args.all,
     }
     app.main(**kwargs)
 
-- 
2.43.0


From 5dd85d7cc7e03e1f6e9ecab62f6434b9cf1df550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 39/39] fix: info prints the dimensions of blocks with variable
 resolution

---
 libsrc/geomodelgrids/apps/Info.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index a802186..d60af26 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -358,9 +358,11 @@ geomodelgrids::apps::Info::_printBlocks(geomodelgrids::serial::Model* const mode
         const size_t* dims = blocks[i]->getDims();
         std::cout << _Info::indent(3) << "Number of points: x=" << dims[0] << ", y=" << dims[1] << ", z=" << dims[2] << "\n";
 
-        const double dim_x = blocks[i]->getResolutionX() * (dims[0] - 1);
-        const double dim_y = blocks[i]->getResolutionY() * (dims[1] - 1);
-        const double dim_z = blocks[i]->getResolutionZ() * (dims[2] - 1);
+        const double* const coordX = blocks[i]->getCoordinatesX();
+        const double* const coordY = blocks[i]->getCoordinatesY();
+        const double dim_x = (coordX && dims[0] > 0) ? coordX[dims[0]-1] - coordX[0] : blocks[i]->getResolutionX() * (dims[0] - 1);
+        const double dim_y = (coordY && dims[1] > 0) ? coordY[dims[1]-1] - coordY[0] : blocks[i]->getResolutionY() * (dims[1] - 1);
+        const double dim_z = blocks[i]->getZTop() - blocks[i]->getZBottom();
         std::cout << _Info::indent(3) << "Dimensions: x=" << dim_x << ", y=" << dim_y << ", z=" << dim_z << "\n";
     } // for
 } // _printBlocks
-- 
2.43.0

