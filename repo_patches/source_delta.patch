From 0fed7c610cdd157bfccfa0b93da6b6fbc710aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:56 +0000
Subject: [PATCH 001/144] fix: renaming a missing variable, or a
 variable/dimension to itself, no longer deletes it

---
 src/CDM.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CDM.cc b/src/CDM.cc
index 5653948..26e62a7 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -185,6 +185,10 @@ std::vector<std::string> CDM::findVariables(const std::string& attrName, const s
 bool CDM::renameVariable(const std::string& oldName, const std::string& newName)
 {
     pimpl_->coordsInitialized = false;
+    if (!hasVariable(oldName))
+        return false;
+    if (oldName == newName)
+        return true;
     // change variable in VarVec variables and variableNames as keys in StrAttrVecMap attributes
     try {
         removeVariable(newName); // make sure none of the same name exists
@@ -303,6 +307,7 @@ bool CDM::renameDimension(const std::string& oldName, const std::string& newName
 {
     pimpl_->coordsInitialized = false;
     if (!hasDimension(oldName)) return false;
+    if (oldName == newName) return true;
     if (hasDimension(newName)) {
         if (!ignoreInUse && testDimensionInUse(newName)) {
             throw CDMException("Cannot rename dimension to "+newName+". Name already in use and overwrite disabled.");
-- 
2.43.0


From 8e3ac2d8e452307fd7bae2e3aa83a9cb3c37bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:45 +0000
Subject: [PATCH 002/144] fix: SliceBuilder rejects slices whose start + size
 overflows

---
 src/SliceBuilder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SliceBuilder.cc b/src/SliceBuilder.cc
index 9f8f19f..5fd12b3 100644
--- a/src/SliceBuilder.cc
+++ b/src/SliceBuilder.cc
@@ -109,7 +109,8 @@ void SliceBuilder::getStartAndSize(const std::string & dimName, std::size_t& sta
 void SliceBuilder::setStartAndSize(const std::string & dimName, size_t start, size_t size)
 {
     size_t pos = getDimPos(dimName);
-    if ((!unlimited_.at(pos)) && maxSize_.at(pos) < (start + size)) {
+    const size_t maxSize = maxSize_.at(pos);
+    if ((!unlimited_.at(pos)) && (start > maxSize || size > maxSize - start)) { // start + size might overflow
         throw out_of_range("slicebuilder: "+ dimName + " too large: start: " + type2string(start) + " size: " + type2string(size));
     }
     start_.at(pos) = start;
-- 
2.43.0


From 0cf3b9326f55a334a0560de66c3d82884c281b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:24 +0000
Subject: [PATCH 003/144] fix: NetCDF reader no longer misreads variables with
 the unlimited dimension not outermost

---
 src/io/netcdf/NetCDF_CDMReader.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index 7e51ee8..2470477 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -34,6 +34,7 @@
 
 #include "NetCDF_Utils.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cstdlib>
 
@@ -69,6 +70,20 @@ NetCDF_CDMReader::NetCDF_CDMReader(const std::string& filename, bool writeable)
         ncCheck(nc_inq_ndims(ncFile->ncId, &ndims));
         int recid;
         ncCheck(nc_inq_unlimdim(ncFile->ncId, &recid));
+        if (recid >= 0) {
+            // reading along the unlimited dimension requires that it is the slowest varying dimension of all variables using it
+            // this is not guaranteed for netcdf4; the dimension is treated as fixed if this is not the case
+            int nvars;
+            ncCheck(nc_inq_nvars(ncFile->ncId, &nvars));
+            for (int i = 0; i < nvars && recid >= 0; ++i) {
+                int nvdims;
+                int dimids[NC_MAX_VAR_DIMS];
+                ncCheck(nc_inq_varndims(ncFile->ncId, i, &nvdims));
+                ncCheck(nc_inq_vardimid(ncFile->ncId, i, dimids));
+                if (nvdims > 1 && std::find(dimids + 1, dimids + nvdims, recid) != dimids + nvdims)
+                    recid = -1;
+            }
+        }
         // read metadata to cdm
         // define dimensions
         char ncName[NC_MAX_NAME + 1];
-- 
2.43.0


From 5a8d6d0e9a603b51c89d917b6745906b9f21f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:01 +0000
Subject: [PATCH 004/144] fix: converting float or double data to 64 bit
 integers no longer wraps at 2^31

---
 include/fimex/MathUtils.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fimex/MathUtils.h b/include/fimex/MathUtils.h
index 70789ae..e0d17ec 100644
--- a/include/fimex/MathUtils.h
+++ b/include/fimex/MathUtils.h
@@ -70,7 +70,12 @@ struct data_rounder;
 template <typename OUT, typename IN>
 struct data_rounder<OUT, IN, true>
 {
-    inline OUT operator()(const IN& in) const { return static_cast<OUT>(round(in)); }
+    inline OUT operator()(const IN& in) const
+    {
+        const IN r = std::round(in);
+        // via the largest integer types, int is too small for 64 bit output
+        return (r >= 0) ? static_cast<OUT>(static_cast<unsigned long long>(r)) : static_cast<OUT>(static_cast<long long>(r));
+    }
 };
 
 template <typename OUT, typename IN>
-- 
2.43.0


From 76c154be058786b6c3a9ca7826b2d7f5a906a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:01 +0000
Subject: [PATCH 005/144] fix: nan becomes the fill value when converting to an
 integer type with the same fill value

---
 src/DataImpl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DataImpl.h b/src/DataImpl.h
index ead9534..a71c5b5 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -307,7 +307,9 @@ template <typename C>
 DataPtr DataImpl<C>::convertDataType(double oldFill, double oldScale, double oldOffset, UnitsConverter_p unitsConverter, CDMDataType newType,
                                      double newFill, double newScale, double newOffset)
 {
-    if (oldFill == newFill && oldScale == newScale && oldOffset == newOffset && !unitsConverter)
+    // nan is undefined, but integer types cannot represent it
+    const bool keepsNan = std::numeric_limits<C>::is_integer || newType == CDM_FLOAT || newType == CDM_DOUBLE;
+    if (oldFill == newFill && oldScale == newScale && oldOffset == newOffset && !unitsConverter && keepsNan)
         return convertValues(*this, newType);
 
     // clang-format off
-- 
2.43.0


From 64c4d38b4b7714a9da6f053a486754106752291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:01 +0000
Subject: [PATCH 006/144] fix: setting data values starting behind the end no
 longer writes out of bounds

---
 src/DataImpl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DataImpl.h b/src/DataImpl.h
index a71c5b5..8a4ad1b 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -199,6 +199,8 @@ void DataImpl<C>::copyData(size_t startPos, const shared_array<C>& otherData, si
     if (otherFirst > otherSize) {
         throw CDMException("data-region-start "+ type2string(otherFirst) + " outside range: "+ type2string(otherSize));
     }
+    if (startPos >= size()) // nothing fits
+        return;
     // fixing max range
     otherLast = std::min(otherLast, otherSize);
     otherLast = std::min(size()-startPos+otherFirst, otherLast);
-- 
2.43.0


From ea209f1c81d82ccac20f3f8e53ac9ba6b795f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:42 +0000
Subject: [PATCH 007/144] fix: extracting non-contiguous positions of a
 dimension no longer mixes up the order of the data

---
 src/CDMExtractor.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 8cc28b2..9fa3571 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -115,8 +115,21 @@ DataPtr CDMExtractor::getDataSlice_(const std::string& varName, const SliceBuild
         sb.getStartAndSize(dimName, sbStart, sbSize);
         if (foundDim == dimSlices_.end()) {
             // handle pure sb changes
-            for (SliceBuilder& sliceb : slices)
-                sliceb.setStartAndSize(dim.getName(), sbStart, sbSize);
+            if (slices.size() <= 1 || sbSize <= 1) {
+                for (SliceBuilder& sliceb : slices)
+                    sliceb.setStartAndSize(dim.getName(), sbStart, sbSize);
+            } else {
+                // a faster dimension has been split in chunks, need to split also here to join in the right order
+                std::vector<SliceBuilder> newSlices;
+                for (size_t i = sbStart; i < sbStart + sbSize; ++i) {
+                    for (const SliceBuilder& sliceb : slices) {
+                        SliceBuilder lsb = sliceb; // make a copy
+                        lsb.setStartAndSize(dim.getName(), i, 1);
+                        newSlices.push_back(lsb);
+                    }
+                }
+                slices = std::move(newSlices);
+            }
         } else if (foundDim->second.empty()) {
             for (SliceBuilder& sliceb : slices)
                 sliceb.setStartAndSize(dim.getName(), sbStart, 0);
-- 
2.43.0


From 1a33f9cbceebd9bf0f20aa1030c9a4e13b9e09c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:42 +0000
Subject: [PATCH 008/144] fix: an empty slice of a reduced dimension is empty

---
 src/CDMExtractor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 9fa3571..ee2d9ab 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -130,9 +130,9 @@ DataPtr CDMExtractor::getDataSlice_(const std::string& varName, const SliceBuild
                 }
                 slices = std::move(newSlices);
             }
-        } else if (foundDim->second.empty()) {
+        } else if (foundDim->second.empty() || sbSize == 0) {
             for (SliceBuilder& sliceb : slices)
-                sliceb.setStartAndSize(dim.getName(), sbStart, 0);
+                sliceb.setStartAndSize(dim.getName(), 0, 0);
         } else {
             // handle slices in chunks
             const std::vector<std::size_t>& positions = foundDim->second;
-- 
2.43.0


From 88a9ac3adf9bfc4b23451d2f2acbd16ee066eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:42 +0000
Subject: [PATCH 009/144] fix: reducing a dimension checks positions against
 the original dimension and rejects all out-of-range requests

---
 src/CDMExtractor.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index ee2d9ab..7bb4920 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -272,9 +272,11 @@ void CDMExtractor::selectVariables(std::set<std::string> variables, bool addAuxi
 void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<std::size_t>& slices)
 {
     CDMDimension& dim = cdm_->getDimension(dimName);
+    // slices refer to the original dimension
+    const size_t orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
     for (size_t sz : slices) {
-        if (sz > dim.getLength())
-            throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(dim.getLength()));
+        if (sz >= orgLength)
+            throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(orgLength));
     }
 
     // keep track of changes
@@ -292,6 +294,11 @@ void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<st
 
 void CDMExtractor::reduceDimension(const std::string& dimName, size_t start, size_t length)
 {
+    const size_t orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
+    if (length > 0 && (start >= orgLength || length > orgLength - start))
+        throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(start) + "+" + type2string(length) +
+                           " out of bounds: " + type2string(orgLength));
+
     std::set<std::size_t> useSlices;
     for (std::size_t i = 0; i < length; i++) {
         useSlices.insert(start+i);
@@ -301,16 +308,11 @@ void CDMExtractor::reduceDimension(const std::string& dimName, size_t start, siz
 
 void CDMExtractor::reduceDimensionStartEnd(const std::string& dimName, size_t start, long long end)
 {
-    size_t length = 0;
-    if (end > 0) {
-        length = end - start + 1;
-    } else {
-        CDMDimension& dim = cdm_->getDimension(dimName);
-        length = dim.getLength();
-        length -= start;
-        length += end;
-    }
-    reduceDimension(dimName, start, length);
+    const long long orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
+    const long long stop = (end > 0) ? end + 1 : orgLength + end; // excluded
+    if (stop < static_cast<long long>(start))
+        throw CDMException("can't select slice of dimension '" + dimName + "': start " + type2string(start) + " is behind end " + type2string(end));
+    reduceDimension(dimName, start, stop - start);
 }
 
 void CDMExtractor::reduceAxes(const std::vector<CoordinateAxis::AxisType>& types, const std::string& aUnits, double startVal, double endVal)
-- 
2.43.0


From ea321c160de40d6ebc35d085d9cf9946fb92bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:08 +0000
Subject: [PATCH 010/144] fix: slices along the unlimited dimension of text
 variables held in memory

---
 src/Data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Data.cc b/src/Data.cc
index 390a308..335b6d1 100644
--- a/src/Data.cc
+++ b/src/Data.cc
@@ -136,8 +136,8 @@ DataPtr createDataSlice(CDMDataType datatype, const Data& data, size_t dataStart
     case CDM_USHORT:  d = createDataT<unsigned short>    (length); break;
     case CDM_UCHAR:   d = createDataT<unsigned char>     (length); break;
     case CDM_STRINGS: d = createDataT<std::string>       (length); break;
+    case CDM_STRING:  return createData(data.asString().substr(dataStartPos, length));
     case CDM_NAT:
-    case CDM_STRING:
     default: throw CDMException("cannot create dataslice of CDMDataType: " + type2string(datatype));
     }
     // clang-format on
-- 
2.43.0


From 4a0e1149b54860180cff853953f155690115889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:08 +0000
Subject: [PATCH 011/144] fix: a slice behind the end of data held in memory is
 an error, not uninitialised data

---
 src/Data.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Data.cc b/src/Data.cc
index 335b6d1..3e8f6ae 100644
--- a/src/Data.cc
+++ b/src/Data.cc
@@ -122,6 +122,8 @@ DataPtr createData(const std::string& value)
 
 DataPtr createDataSlice(CDMDataType datatype, const Data& data, size_t dataStartPos, size_t length)
 {
+    if (dataStartPos > data.size() || length > data.size() - dataStartPos)
+        throw CDMException("dataslice from " + type2string(dataStartPos) + " with length " + type2string(length) + " exceeds data-size " + type2string(data.size()));
     DataPtr d;
     // clang-format off
     switch (datatype) {
-- 
2.43.0


From d709a0e2702fba356f0e21a90e860eaa3efba05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:08 +0000
Subject: [PATCH 012/144] fix: string-array variables can be written to netcdf4
 files with the default compression

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index cfe7ddb..f4033c4 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -454,9 +454,11 @@ NetCDF_CDMWriter::NcVarIdMap NetCDF_CDMWriter::defineVariables(const NcDimIdMap&
                         LOG4FIMEX(logger, Logger::DEBUG, "chunk variable " << var.getName() << " to " << join(&ncChunk[0], &ncChunk[0] + shape.size(), "x"));
                         NCMUTEX_LOCKED(ncCheck(nc_def_var_chunking(ncFile->ncId, varId, NC_CHUNKED, ncChunk.get())));
                     }
-                    // start compression
-                    LOG4FIMEX(logger, Logger::DEBUG, "compressing variable " << var.getName() << " with level " << compression << " and shuffle=" << shuffle);
-                    NCMUTEX_LOCKED(ncCheck(nc_def_var_deflate(ncFile->ncId, varId, shuffle, 1, compression)));
+                    if (datatype != CDM_STRINGS) { // filters are not possible for variable-length strings
+                        // start compression
+                        LOG4FIMEX(logger, Logger::DEBUG, "compressing variable " << var.getName() << " with level " << compression << " and shuffle=" << shuffle);
+                        NCMUTEX_LOCKED(ncCheck(nc_def_var_deflate(ncFile->ncId, varId, shuffle, 1, compression)));
+                    }
                 }
             }
         }
-- 
2.43.0


From 7a36bfc01328b617aab6f48a6c9cbf379d1d14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:08 +0000
Subject: [PATCH 013/144] fix: renaming the unlimited dimension in the NetCDF
 writer configuration

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index f4033c4..f6539d8 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -94,14 +94,6 @@ int getNcVersion(int version, XMLDoc_p doc)
     return retVal;
 }
 
-int ncDimId(int ncId, const CDMDimension* unLimDim)
-{
-    int unLimDimId = -1;
-    if (unLimDim)
-        NCMUTEX_LOCKED(ncCheck(nc_inq_dimid(ncId, unLimDim->getName().c_str(), &unLimDimId)));
-    return unLimDimId;
-}
-
 void checkDoc(std::unique_ptr<XMLDoc>& doc, const std::string& filename)
 {
     XPathNodeSet nodes(doc, "/cdm_ncwriter_config");
@@ -584,7 +576,9 @@ DataPtr NetCDF_CDMWriter::convertData(const CDMVariable& var, DataPtr data)
 void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
 {
     const CDMDimension* unLimDim = cdm.getUnlimitedDim();
-    const int unLimDimId = ncDimId(ncFile->ncId, unLimDim);
+    int unLimDimId = -1;
+    if (unLimDim)
+        NCMUTEX_LOCKED(ncCheck(nc_inq_dimid(ncFile->ncId, getDimensionName(unLimDim->getName()).c_str(), &unLimDimId)));
     const long long maxUnLim = (unLimDim == 0) ? 0 : unLimDim->getLength();
     const CDM::VarVec& cdmVars = cdm.getVariables();
 
-- 
2.43.0


From 21fe4fe33adf65607efb3f39a22d3215f965a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:43 +0000
Subject: [PATCH 014/144] fix: the ncml writer reports if its output cannot be
 created or written

---
 src/NcmlCDMWriter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 6cb28b8..1100e48 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -80,7 +80,12 @@ NcmlCDMWriter::NcmlCDMWriter(const CDMReader_p cdmReader, const std::string& out
     : CDMWriter(cdmReader, outputFile)
 {
     std::ofstream out(outputFile);
+    if (!out)
+        throw CDMException("cannot create ncml-file '" + outputFile + "'");
     write(out, true);
+    out.close();
+    if (!out)
+        throw CDMException("error while writing ncml-file '" + outputFile + "'");
 }
 
 NcmlCDMWriter::NcmlCDMWriter(const CDMReader_p cdmReader, std::ostream& output, bool withData)
-- 
2.43.0


From 797d47e19f4155a4c5460889f535c8e91ed25c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:28 +0000
Subject: [PATCH 015/144] fix: the NetCDF writer reports all errors while
 writing and closing its file

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 12 +++++++++++-
 src/io/netcdf/NetCDF_Utils.cc     | 10 ++++++++++
 src/io/netcdf/NetCDF_Utils.h      |  2 ++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index f6539d8..5b5b589 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -718,15 +718,22 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
                 } catch (std::exception& ex) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "exception " << ex.what() << " while writing variable " << varName);
+                    exceptions = true;
                 } catch (...) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "unknown exception while writing variable " << varName);
+                    exceptions = true;
                 }
             }
         }
 #ifndef HAVE_MPI
         if (unLimDimPos >= 0) {
-            NCMUTEX_LOCKED(ncCheck(nc_sync(ncFile->ncId))); // sync every 'time/unlimited' step (does not work with MPI)
+            int status;
+            NCMUTEX_LOCKED(status = nc_sync(ncFile->ncId)); // sync every 'time/unlimited' step (does not work with MPI)
+            if (status != NC_NOERR) {
+                LOG4FIMEX(logger, Logger::ERROR, "error while writing to disk: " << nc_strerror(status));
+                exceptions = true;
+            }
         }
 #endif
     }
@@ -744,6 +751,9 @@ void NetCDF_CDMWriter::init()
 
     // write data
     writeData(ncVarIdMap);
+
+    // errors while flushing to disk must not get lost
+    ncFile->close();
 }
 
 NetCDF_CDMWriter::~NetCDF_CDMWriter() {}
diff --git a/src/io/netcdf/NetCDF_Utils.cc b/src/io/netcdf/NetCDF_Utils.cc
index 5fe182e..56ae934 100644
--- a/src/io/netcdf/NetCDF_Utils.cc
+++ b/src/io/netcdf/NetCDF_Utils.cc
@@ -104,6 +104,16 @@ Nc::~Nc()
     }
 }
 
+void Nc::close()
+{
+    if (isOpen) {
+        isOpen = false;
+        int status;
+        NCMUTEX_LOCKED(status = nc_close(ncId));
+        ncCheck(status, "closing " + filename);
+    }
+}
+
 void Nc::reopen_if_forked()
 {
     pid_t this_pid = getpid();
diff --git a/src/io/netcdf/NetCDF_Utils.h b/src/io/netcdf/NetCDF_Utils.h
index 8b1c836..8cb0f8c 100644
--- a/src/io/netcdf/NetCDF_Utils.h
+++ b/src/io/netcdf/NetCDF_Utils.h
@@ -68,6 +68,8 @@ public:
     bool isOpen;
     pid_t pid;
     void reopen_if_forked();
+    /** close the file, throws if this fails */
+    void close();
     bool supports_nc_string() const { return format == NC_FORMAT_NETCDF4; }
 };
 
-- 
2.43.0


From ffbf5e6682681668f872c85b59c5d2f49fddeddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:28 +0000
Subject: [PATCH 016/144] fix: FillWriter compares shapes of different length

---
 src/FillWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 6b54abe..42a8388 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -217,7 +217,7 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             oTestShape.erase(std::remove(oTestShape.begin(), oTestShape.end(), fit.outputDim), oTestShape.end());
         }
         // simple test of equal shapes (omitting translated dims)
-        if (!equal(iTestShape.begin(), iTestShape.end(), oTestShape.begin())) {
+        if (iTestShape != oTestShape) {
             LOG4FIMEX(logger, Logger::WARN, "variable '" << iv.getName() << "' has different shape: omitting");
             continue;
         }
-- 
2.43.0


From 55f1f416d374d44f36f40a77caa0b16bd5f13575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:19 +0000
Subject: [PATCH 017/144] fix: errors while fill-writing are reported instead
 of terminating the program

---
 src/FillWriter.cc | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 42a8388..c514159 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -190,21 +190,18 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
     // process variables
     const auto iVars = iCdm.getVariables();
     const int varVecSize = iVars.size();
-#ifdef _OPENMP
-#pragma omp parallel for default(shared)
-#endif
-    for (int iVar = 0; iVar < varVecSize; iVar++) {
-        const auto& iv = iVars.at(iVar);
+    std::string errors; // exceptions must not leave the parallel region
+    auto processVariable = [&](const CDMVariable& iv) {
         LOG4FIMEX(logger, Logger::DEBUG, "processing variable  '" << iv.getName() << "'");
         if (!oCdm.hasVariable(iv.getName())) {
             LOG4FIMEX(logger, Logger::WARN, "new variable '" << iv.getName() << "': omitting");
-            continue;
+            return;
         }
         const auto& iShape = iv.getShape();
         const auto badDim = findFirstUnusableDimension(unusableIDims, iShape);
         if (!badDim.empty()) {
             LOG4FIMEX(logger, Logger::ERROR, "Cannot fill-write '" << iv.getName() << "' due to bad dimension: '" << badDim << "'");
-            continue;
+            return;
         }
         const auto& oVar = oCdm.getVariable(iv.getName());
         const auto& oShape = oVar.getShape();
@@ -219,7 +216,7 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
         // simple test of equal shapes (omitting translated dims)
         if (iTestShape != oTestShape) {
             LOG4FIMEX(logger, Logger::WARN, "variable '" << iv.getName() << "' has different shape: omitting");
-            continue;
+            return;
         }
 
         typedef vector<pair<SliceBuilder, SliceBuilder> > SlicePairs;
@@ -275,7 +272,29 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
             io->putDataSlice(iv.getName(), slice.second, inData);
         }
+    };
+
+#ifdef _OPENMP
+#pragma omp parallel for default(shared)
+#endif
+    for (int iVar = 0; iVar < varVecSize; iVar++) {
+        std::string error;
+        try {
+            processVariable(iVars.at(iVar));
+            continue;
+        } catch (std::exception& ex) {
+            error = ex.what();
+        } catch (...) {
+            error = "unknown exception";
+        }
+        LOG4FIMEX(logger, Logger::ERROR, "error while fill-writing '" << iVars.at(iVar).getName() << "': " << error);
+#ifdef _OPENMP
+#pragma omp critical(fimex_fillwriter_errors)
+#endif
+        errors += " '" + iVars.at(iVar).getName() + "': " + error;
     }
+    if (!errors.empty())
+        throw CDMException("FillWriter finished with errors in variables:" + errors);
     if (!unusableIDims.empty())
         throw CDMException("FillWriter finished with errors in dimension-mapping");
 }
-- 
2.43.0


From e1623776402bc4ca98afadde381dcc297731d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:23 +0000
Subject: [PATCH 018/144] fix: undefined and far-away positions are outside of
 the grid when interpolating

---
 src/MathUtils.cc    |  7 +++++--
 src/interpolation.c | 28 ++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils.cc b/src/MathUtils.cc
index 97e5060..2089ed9 100644
--- a/src/MathUtils.cc
+++ b/src/MathUtils.cc
@@ -23,18 +23,21 @@
 
 #include "fimex/MathUtils.h"
 
+#include <cmath>
 #include <numeric>
 
 namespace MetNoFimex {
 
 size_t RoundAndClamp::operator()(double d) const
 {
-    return clamped(round(d));
+    // check before converting to integer, d might be undefined or too large
+    const double r = std::round(d);
+    return (r >= mini && r <= maxi) ? clamped(static_cast<size_t>(r)) : invalid;
 }
 
 size_t RoundAndClamp::operator()(float f) const
 {
-    return clamped(round(f));
+    return (*this)(static_cast<double>(f));
 }
 
 size_t RoundAndClamp::clamped(size_t r) const
diff --git a/src/interpolation.c b/src/interpolation.c
index 89e808e..2cedb12 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -248,8 +248,28 @@ static inline double mifi_great_circle_angle(double lat0, double lon0, double la
     return acos(sin(lat0)*sin(lat1) + cos(lat0)*cos(lat1)*cos(lon1-lon0));
 }
 
+/*
+ * check, before converting positions to integers, that they are defined and
+ * at most one cell outside of the grid
+ */
+static inline int mifi_position_near_grid(double x, double y, int ix, int iy)
+{
+    return (x > -1) && (x < ix) && (y > -1) && (y < iy);
+}
+
+static inline void mifi_set_undefined(float* outvalues, int iz)
+{
+    for (int z = 0; z < iz; ++z) {
+        outvalues[z] = MIFI_UNDEFINED_F;
+    }
+}
+
 int mifi_get_values_f(const float* infield, float* outvalues, const double x, const double y, const int ix, const int iy, const int iz)
 {
+    if (!mifi_position_near_grid(x, y, ix, iy)) {
+        mifi_set_undefined(outvalues, iz);
+        return MIFI_OK;
+    }
     int rx = lround(x);
     int ry = lround(y);
     if (rx >= 0 && rx < ix && ry >= 0 && ry < iy) { // pos in range
@@ -266,6 +286,10 @@ int mifi_get_values_f(const float* infield, float* outvalues, const double x, co
 
 int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const double x, const double y, const int ix, const int iy, const int iz)
 {
+    if (!mifi_position_near_grid(x, y, ix, iy)) {
+        mifi_set_undefined(outvalues, iz);
+        return MIFI_OK;
+    }
     int x0 = (int) floor(x);
     int x1 = x0 + 1;
     float xfrac = x - x0;
@@ -344,6 +368,10 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
 
 int mifi_get_values_bicubic_f(const float* infield, float* outvalues, const double x, const double y, const int ix, const int iy, const int iz)
 {
+    if (!mifi_position_near_grid(x, y, ix, iy)) {
+        mifi_set_undefined(outvalues, iz);
+        return MIFI_OK;
+    }
     // convolution matrix for a = -0.5
     double M[4][4] = {{ 0, 2, 0, 0},
                       {-1, 0, 1, 0},
-- 
2.43.0


From 656c982ad9ddb160c6fb7f3471af4438d76c7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:24 +0000
Subject: [PATCH 019/144] fix: bilinear interpolation reads behind the field at
 its outer corner

---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 2cedb12..726baaf 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -343,7 +343,7 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
                 }
             } else {
                 y0 = lround(y);
-                if ((0 <= y0) && (y0 <= iy)) {
+                if ((0 <= y0) && (y0 < iy)) {
                     // nearest neighbor in y
                     size_t pos = mifi_3d_array_pos(x0, y0, 0, ix, iy, iz);
                     for (int z = 0; z < iz; ++z) {
-- 
2.43.0


From b24e607aa4c99a8b2b3bfe5ab0e9a527df650a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:42 +0000
Subject: [PATCH 020/144] fix: positions on an axis with only one element

---
 src/interpolation.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/interpolation.c b/src/interpolation.c
index 726baaf..7349932 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -155,6 +155,14 @@ int mifi_points2position(double* points, const int n, const double* axis, const
 {
     int circularLongitude = 0;
     int (*comparator)(double a, double b);
+    if (num == 1) {
+        // no grid-distance, only the exact position is inside
+        for (int i = 0; i < n; i++) {
+            const double diff = (axis_type == MIFI_LONGITUDE) ? remainder(points[i] - axis[0], 2 * HALF_CIRCLE_ANGLE) : points[i] - axis[0];
+            points[i] = (diff == 0) ? 0. : -999.;
+        }
+        return MIFI_OK;
+    }
     if (axis[0] < axis[num - 1])
         comparator = ascendingDoubleComparator;
     else
-- 
2.43.0


From 4b247768cdb8f04957f447ebf6004a76b3951eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:12 +0000
Subject: [PATCH 021/144] fix: longitudes are found on axes in any notation of
 longitude

---
 src/interpolation.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 7349932..28a7e9a 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -169,19 +169,12 @@ int mifi_points2position(double* points, const int n, const double* axis, const
         comparator = descendingDoubleComparator;
 
     if (axis_type == MIFI_LONGITUDE) {
-        // decide if longitude axis is -180 to 180
-        if (axis[0] < 0 || axis[num-1] < 0) {
-            // change points > 180
-            for (int i = 0; i < n; i++) {
-                if (points[i] > HALF_CIRCLE_ANGLE)
-                    points[i] -= 2 * HALF_CIRCLE_ANGLE;
-            }
-        } else {
-            // change negative points (0-360)
-            for (int i = 0; i < n; i++) {
-                if (points[i] < 0)
-                    points[i] += 2 * HALF_CIRCLE_ANGLE;
-            }
+        // use the notation of longitudes closest to the axis, e.g. -180 to 180 or 0 to 360
+        const double center = (axis[0] + axis[num - 1]) / 2;
+        const double halfWidth = fabs(axis[num - 1] - axis[0]) / 2;
+        for (int i = 0; i < n; i++) {
+            if (fabs(points[i] - center) > halfWidth)
+                points[i] += 2 * HALF_CIRCLE_ANGLE * round((center - points[i]) / (2 * HALF_CIRCLE_ANGLE));
         }
         double nextOnAxis = axis[num-1] + (axis[1]-axis[0])*1.01; // slightly enlarged gitter-distance to avoid numerics
         if (axis[0] < axis[num-1]) { // ascending
-- 
2.43.0


From 0174e73ad76bcb408fe35b72bf392cdcc6eafc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:56 +0000
Subject: [PATCH 022/144] fix: recognize the scale factor +k_0 in proj4 strings

---
 src/coordSys/LambertCylindricalEqualAreaProjection.cc | 2 +-
 src/coordSys/MercatorProjection.cc                    | 2 +-
 src/coordSys/ObliqueMercatorProjection.cc             | 2 +-
 src/coordSys/StereographicProjection.cc               | 2 +-
 src/coordSys/TransverseMercatorProjection.cc          | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/coordSys/LambertCylindricalEqualAreaProjection.cc b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
index 416327b..0cfc959 100644
--- a/src/coordSys/LambertCylindricalEqualAreaProjection.cc
+++ b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
@@ -63,7 +63,7 @@ std::vector<CDMAttribute> LambertCylindricalEqualAreaProjection::parametersFromP
         double lat_ts = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/MercatorProjection.cc b/src/coordSys/MercatorProjection.cc
index bc95d40..a67e310 100644
--- a/src/coordSys/MercatorProjection.cc
+++ b/src/coordSys/MercatorProjection.cc
@@ -64,7 +64,7 @@ std::vector<CDMAttribute> MercatorProjection::parametersFromProj4(const std::str
         double standardParallel = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", standardParallel));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/ObliqueMercatorProjection.cc b/src/coordSys/ObliqueMercatorProjection.cc
index af42f9c..f49acdf 100644
--- a/src/coordSys/ObliqueMercatorProjection.cc
+++ b/src/coordSys/ObliqueMercatorProjection.cc
@@ -83,7 +83,7 @@ std::vector<CDMAttribute> ObliqueMercatorProjection::parametersFromProj4(const s
     }
     attrs.push_back(CDMAttribute("gamma", gamma));
 
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/StereographicProjection.cc b/src/coordSys/StereographicProjection.cc
index f6390da..ef956f7 100644
--- a/src/coordSys/StereographicProjection.cc
+++ b/src/coordSys/StereographicProjection.cc
@@ -70,7 +70,7 @@ std::vector<CDMAttribute> StereographicProjection::parametersFromProj4(const std
         double lat_ts = std::strtod(what[1].str().c_str(), (char **)NULL);
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
 
-    } else if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    } else if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = std::strtod(what[1].str().c_str(), (char**)NULL);
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/TransverseMercatorProjection.cc b/src/coordSys/TransverseMercatorProjection.cc
index 19af24f..56fb439 100644
--- a/src/coordSys/TransverseMercatorProjection.cc
+++ b/src/coordSys/TransverseMercatorProjection.cc
@@ -96,7 +96,7 @@ std::vector<CDMAttribute> TransverseMercatorProjection::parametersFromProj4(cons
             attrs.push_back(CDMAttribute("latitude_of_projection_origin", latOfProjOrigin));
         }
 
-        if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+        if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
             attrs.push_back(CDMAttribute("scale_factor_at_central_meridian", string2type<double>(what[1].str())));
         }
     }
-- 
2.43.0


From 1158d85371815e33c165fc1638688a344a5eb71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:56 +0000
Subject: [PATCH 023/144] fix: distance of interest for output grids in degree

---
 src/CDMInterpolator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index aa4a894..3cb9168 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -1334,8 +1334,9 @@ void CDMInterpolator::changeProjectionByCoordinates(int method, const string& pr
             fastTranslatePointsToClosestInputCell(pointsOnXAxis, pointsOnYAxis, fieldSize, &lonVals[0], &latVals[0], orgXDimSize, orgYDimSize);
         } else if (method == MIFI_INTERPOL_COORD_NN_KD) {
             double maxDistance = getMaxDistanceOfInterest(out_x_axis, out_y_axis);
-            if (isDegree) {
-                maxDistance *= MIFI_EARTH_RADIUS_M;
+            if (isDegree && p_->maxDistance <= 0) {
+                // derived from the axes in degree; setDistanceOfInterest is in m
+                maxDistance = deg_to_rad(maxDistance) * MIFI_EARTH_RADIUS_M;
             }
             flannTranslatePointsToClosestInputCell(maxDistance, pointsOnXAxis, pointsOnYAxis, fieldSize, &lonVals[0], &latVals[0], orgXDimSize, orgYDimSize);
         } else {
-- 
2.43.0


From 82009ba34dbccb20f4b4fa4fc0fd3e9c13c65f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:51 +0000
Subject: [PATCH 024/144] fix: interpolation to a list of places when longitude
 and latitude axes are called x and y

---
 src/CDMInterpolator.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 3cb9168..3a2e204 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -1522,7 +1522,10 @@ void changeCDMToLatLonTemplate(CDM& cdm, const string& tmpl_proj_input, const ma
 
     if (!cdm.hasVariable(newXAxis)) {
         // create dimension-variable
-        cdm.addDimension(CDMDimension(newXAxis, out_x_axis.size()));
+        if (!cdm.hasDimension(newXAxis))
+            cdm.addDimension(CDMDimension(newXAxis, out_x_axis.size()));
+        else
+            cdm.getDimension(newXAxis).setLength(out_x_axis.size());
         cdm.addVariable(CDMVariable(newXAxis, xAxisType, {newXAxis}));
     } else {
         cdm.getDimension(newXAxis).setLength(out_x_axis.size());
@@ -1536,7 +1539,10 @@ void changeCDMToLatLonTemplate(CDM& cdm, const string& tmpl_proj_input, const ma
 
     if (!cdm.hasVariable(newYAxis)) {
         // create dimension-variable
-        cdm.addDimension(CDMDimension(newYAxis, out_y_axis.size()));
+        if (!cdm.hasDimension(newYAxis))
+            cdm.addDimension(CDMDimension(newYAxis, out_y_axis.size()));
+        else
+            cdm.getDimension(newYAxis).setLength(out_y_axis.size());
         cdm.addVariable(CDMVariable(newYAxis, yAxisType, {newYAxis}));
     } else {
         cdm.getDimension(newYAxis).setLength(out_y_axis.size());
-- 
2.43.0


From a68463bb15c1c40c3c21c98cb382563d37dfd16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:04 +0000
Subject: [PATCH 025/144] fix: changing the interpolation to a list of places
 replaces earlier changes and rejects inconsistent lists

---
 src/CDMInterpolator.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 3a2e204..395d3a1 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -458,11 +458,14 @@ void CDMInterpolator::changeProjection(int method, const vector<double>& lonVals
 {
     LOG4FIMEX(logger, Logger::DEBUG, "changing projection to latitude/longitude values");
     if (lonVals.size() != latVals.size()) {
-        LOG4FIMEX(logger, Logger::ERROR,
-                "changeProjection, number of longitude and latitude values differs: " << lonVals.size() << " != " << latVals.size());
-        return;
+        throw CDMException("changeProjection, number of longitude and latitude values differs: " + type2string(lonVals.size()) +
+                           " != " + type2string(latVals.size()));
     }
+    if (lonVals.empty())
+        throw CDMException("refusing to interpolate to an empty list of places");
 
+    *cdm_ = p_->dataReader->getCDM(); // reset previous changes
+    p_->projectionVariables.clear();  // reset variables
     switch (method) {
     case MIFI_INTERPOL_NEAREST_NEIGHBOR:
     case MIFI_INTERPOL_BILINEAR:
-- 
2.43.0


From e5e36ca7c4990048501010fb1c63acf42d0fdc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:00 +0000
Subject: [PATCH 026/144] fix: interpolation method forward_undef_min

---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 28a7e9a..77b108f 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -101,7 +101,7 @@ int mifi_string_to_interpolation_method(const char* mString)
     } else if (mifi_string_equal("forward_undef_max", mString)) {
         method = MIFI_INTERPOL_FORWARD_UNDEF_MAX;
     } else if (mifi_string_equal("forward_undef_min", mString)) {
-        method = MIFI_INTERPOL_FORWARD_MIN;
+        method = MIFI_INTERPOL_FORWARD_UNDEF_MIN;
     }
     return method;
 }
-- 
2.43.0


From 179d63700e5866010c7ccea4390e79addf4a9c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:00 +0000
Subject: [PATCH 027/144] fix: forward interpolation uses the values of each
 layer

---
 src/CachedForwardInterpolation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 60c392d..a084851 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -210,10 +210,11 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
     newSize = outLayerSize*inZ;
     auto outData = make_shared_array<float>(newSize);
     for (size_t z = 0; z < inZ; ++z) {
+        const float* inDataLayer = &inData[z * inLayerSize];
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
             for (size_t ii : pointsInIn[i]) {
-                const float val = inData[ii];
+                const float val = inDataLayer[ii];
                 if (undefAggr || !mifi_isnan(val))
                     agg->push(val);
             }
-- 
2.43.0


From 40dbdbbf8459ca89b475ab5f1122ed52fef54557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:00 +0000
Subject: [PATCH 028/144] fix: forward interpolation propagates undefined
 values in all undef-methods

---
 src/CachedForwardInterpolation.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index a084851..59878e1 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -213,12 +213,16 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
         const float* inDataLayer = &inData[z * inLayerSize];
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
+            bool undefined = false;
             for (size_t ii : pointsInIn[i]) {
                 const float val = inDataLayer[ii];
-                if (undefAggr || !mifi_isnan(val))
+                if (!mifi_isnan(val))
                     agg->push(val);
+                else if (undefAggr)
+                    undefined = true;
             }
-            *outDataIt++ = agg->get_and_reset();
+            const float aggregated = agg->get_and_reset();
+            *outDataIt++ = undefined ? MIFI_UNDEFINED_F : aggregated;
         }
     }
     return outData;
-- 
2.43.0


From a928283a36752c2a7d3ff617978094ccb59fc134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:53 +0000
Subject: [PATCH 029/144] fix: filling undefined values in a field with only
 one row

---
 src/interpolation.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/interpolation.c b/src/interpolation.c
index 77b108f..1defffd 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -577,6 +577,10 @@ int mifi_get_values_log_log_f(const float* infieldA, const float* infieldB, floa
 int mifi_fill2d_f(size_t nx, size_t ny, float* field, float relaxCrit, float corrEff, size_t maxLoop, size_t* nChanged) {
     size_t totalSize = nx*ny;
     if (totalSize == 0) return MIFI_OK;
+    if (ny == 1) { // a single row is handled like a single column
+        ny = nx;
+        nx = 1;
+    }
 
     double sum = 0;
     *nChanged = 0;
@@ -704,6 +708,10 @@ int mifi_fill2d_f(size_t nx, size_t ny, float* field, float relaxCrit, float cor
 static int mifi_creepfillval2dImpl_f(size_t nx, size_t ny, float* field, float defaultVal, unsigned short repeat, char setWeight, size_t nChanged) {
     size_t totalSize = nx*ny;
     if (totalSize == 0) return MIFI_OK;
+    if (ny == 1) { // a single row is handled like a single column
+        ny = nx;
+        nx = 1;
+    }
 
     size_t nUnchanged = totalSize - nChanged;
     //fprintf(stderr, "defaultVal: %f, unchanged: %d\n", defaultVal, nUnchanged);
-- 
2.43.0


From db9ae2d7d3242b42bed3c2480b408d56ae185eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:53 +0000
Subject: [PATCH 030/144] fix: grid distances in the last row

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 1defffd..0e14bae 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -913,8 +913,8 @@ int mifi_griddistance(size_t nx, size_t ny, const double* lonVals, const double*
         // last row, overwriting corner
         for (size_t i = 0; i < nx; i++) {
             size_t p = (ny-1)*nx + i;
-            gridDistX[p] = gridDistX[p-ny];
-            gridDistY[p] = gridDistY[p-ny];
+            gridDistX[p] = gridDistX[p-nx];
+            gridDistY[p] = gridDistY[p-nx];
         }
     }
     return MIFI_OK;
-- 
2.43.0


From 4b9a128f608cba57d0cabdccfd38979881f57ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:11 +0000
Subject: [PATCH 031/144] fix: great-circle distance of coinciding points

---
 src/interpolation.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 0e14bae..fe3a1fe 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -246,7 +246,13 @@ int mifi_3d_array_position(int x, int y, int z, int ix, int iy, int iz)
  */
 static inline double mifi_great_circle_angle(double lat0, double lon0, double lat1, double lon1)
 {
-    return acos(sin(lat0)*sin(lat1) + cos(lat0)*cos(lat1)*cos(lon1-lon0));
+    double cosAngle = sin(lat0)*sin(lat1) + cos(lat0)*cos(lat1)*cos(lon1-lon0);
+    // avoid acos of values slightly outside [-1,1] due to rounding
+    if (cosAngle > 1)
+        cosAngle = 1;
+    else if (cosAngle < -1)
+        cosAngle = -1;
+    return acos(cosAngle);
 }
 
 /*
-- 
2.43.0


From 48910db65b8f20cfcf228ae03d3237f85c062ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:26 +0000
Subject: [PATCH 032/144] fix: filling of undefined border cells when the inner
 field is defined

---
 src/interpolation.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index fe3a1fe..8fc85f5 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -671,6 +671,16 @@ int mifi_fill2d_f(size_t nx, size_t ny, float* field, float relaxCrit, float cor
             f+=2; e+=2; w+=2; // skip first and last element in row
         }
 
+        // some work on the borders
+        for (size_t y = 1; y < nym1; y++) {
+            field[y*nx+0] += (field[y*nx+1] - field[y*nx+0]) * wField[y*nx+0];
+            field[y*nx+(nx-1)] += (field[y*nx+(nx-2)] - field[y*nx+(nx-1)]) * wField[y*nx+(nx-1)];
+        }
+        for (size_t x = 0; x < nx; x++) {
+            field[0*nx +x] += (field[1*nx+x] - field[0*nx+x]) * wField[0*nx+x];
+            field[nym1*nx+x] += (field[(nym1-1)*nx+x] - field[nym1*nx+x]) * wField[nym1*nx+x];
+        }
+
         // Test convergence now and then (slow test loop)
         if ((n < (maxLoop-5)) &&
             (n%10 == 0)) {
@@ -694,16 +704,6 @@ int mifi_fill2d_f(size_t nx, size_t ny, float* field, float relaxCrit, float cor
                 return MIFI_OK; // convergence
             }
         }
-
-        // some work on the borders
-        for (size_t y = 1; y < nym1; y++) {
-            field[y*nx+0] += (field[y*nx+1] - field[y*nx+0]) * wField[y*nx+0];
-            field[y*nx+(nx-1)] += (field[y*nx+(nx-2)] - field[y*nx+(nx-1)]) * wField[y*nx+(nx-1)];
-        }
-        for (size_t x = 0; x < nx; x++) {
-            field[0*nx +x] += (field[1*nx+x] - field[0*nx+x]) * wField[0*nx+x];
-            field[nym1*nx+x] += (field[(nym1-1)*nx+x] - field[nym1*nx+x]) * wField[nym1*nx+x];
-        }
     }
 
     free(eField);
-- 
2.43.0


From 99b5fd3676bfb861032c4a8dc5c8085f7241d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:34 +0000
Subject: [PATCH 033/144] fix: average of vector rotation angles which differ
 by a full turn

---
 src/reproject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 1ef4e2d..fec82fa 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -348,8 +348,8 @@ Matrix_cp get_vector_reproject_matrix_points_proj_delta(crs2crs& c2c, const doub
         for (size_t i = 0, idx = 0; i < count; ++i, idx += Matrix::stride) {
             const double phi_x = mtx[idx + 0];
             const double phi_y = -atan2(out_x_delta_proj_axis[i] - out_x_field[i], out_y_delta_proj_axis[i] - out_y_field[i]) + add_y;
-            // average, for non-conformal cases
-            const double phi0 = (phi_y + phi_x) / 2;
+            // average, for non-conformal cases; via unit vectors, as angles wrap around
+            const double phi0 = atan2(sin(phi_x) + sin(phi_y), cos(phi_x) + cos(phi_y));
             store_rotation(mtx, idx, phi0);
         }
     }
-- 
2.43.0


From 23b8da91301c14c6096d8bd33d77b6ac816ded8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:53 +0000
Subject: [PATCH 034/144] fix: reading outside of the grid in the vector
 reprojection of grids with 2 rows or columns

---
 src/reproject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index fec82fa..0daa68e 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -372,8 +372,8 @@ Matrix_cp get_vector_reproject_matrix_proj(crs2crs& c2c, const double* in_x_fiel
             if (oy > 1) {
                 deltaXY = defaultDelta * (in_x_field[(1) * ox + (1)] - in_x_field[0]);
                 // and test another place in case of singularities
-                size_t ox_2 = ox / 2;
-                size_t oy_2 = oy / 2;
+                size_t ox_2 = std::min(ox / 2, ox - 2);
+                size_t oy_2 = std::min(oy / 2, oy - 2);
                 double deltaX2 = defaultDelta * (in_x_field[(oy_2 + 1) * ox + (ox_2 + 1)] - in_x_field[(oy_2)*ox + ox_2]);
                 deltaXY += deltaX2;
                 deltaXY /= 2;
-- 
2.43.0


From 07f93298e4d45aa96c026b99bcbbc64626add13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:24 +0000
Subject: [PATCH 035/144] fix: vector rotation on rotated latitude-longitude
 grids The reprojection functions expect axes in degrees.

---
 src/CDMProcessor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 850a525..262be86 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -123,8 +123,8 @@ CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader,
     DataPtr xAxisData;
     DataPtr yAxisData;
     if (cs->getProjection()->isDegree()) {
-        xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "radian");
-        yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "radian");
+        xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "degree");
+        yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "degree");
     } else {
         xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "m");
         yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "m");
@@ -149,7 +149,7 @@ CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader,
         matrix = reproject::get_vector_reproject_matrix_field(cs->getProjection()->getProj4String(), MIFI_WGS84_LATLON_PROJ4, &inXField[0], &inYField[0],
                                                               xAxisSize, yAxisSize);
     } else {
-        // using MIFI_PROJ_AXIS even for LAT/LON since axes already in radian
+        // using MIFI_PROJ_AXIS even for LAT/LON since axes already in degree
         matrix = reproject::get_vector_reproject_matrix(MIFI_WGS84_LATLON_PROJ4, cs->getProjection()->getProj4String(), &xAxisD[0], &yAxisD[0], MIFI_PROJ_AXIS,
                                                         MIFI_PROJ_AXIS, xAxisSize, yAxisSize);
     }
-- 
2.43.0


From e77bae9439877a0cfc8171c5d977d01a83286b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:24 +0000
Subject: [PATCH 036/144] fix: vector rotations to and from latitude-longitude
 in the same processor

---
 src/CDMProcessor.cc | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 262be86..3b0b9c4 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -95,13 +95,13 @@ struct CDMProcessor::CDMProcessorImpl
     CDMReader_p dataReader;
     set<string> deaccumulateVars;
     set<string> accumulateVars;
-    // variable -> <counterPart, horizontalId>
+    // variable -> <counterPart, reprojectionId>
     map<string, pair<string, string> > rotateLatLonVectorX;
-    // variable -> horizontalId
+    // variable -> reprojectionId
     map<string, string> rotateLatLonDirection;
-    // variable -> <counterPart, horizontalId> (same as above but with Y as first component)
+    // variable -> <counterPart, reprojectionId> (same as above but with Y as first component)
     map<string, pair<string, string> > rotateLatLonVectorY;
-    // horizontalId -> cachedVectorReprojection
+    // reprojectionId (see below) -> cachedVectorReprojection
     map<string, CachedVectorReprojection_p> cachedVectorReprojection;
     SliceCache sliceCache;
     VerticalVelocityComps vvComp;
@@ -111,6 +111,12 @@ struct CDMProcessor::CDMProcessorImpl
     string geopotentialHeightVar;
 };
 
+// rotations to and from lat/lon differ, even on the same horizontal coordinate system
+string makeReprojectionId(const string& horizontalId, bool toLatLon)
+{
+    return (toLatLon ? "toLatLon:" : "fromLatLon:") + horizontalId;
+}
+
 CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader, CoordinateSystem_cp cs, bool toLatLon)
 {
     assert(cs->hasProjection());
@@ -472,13 +478,14 @@ void CDMProcessor::rotateVectorToLatLon(bool toLatLon, const std::vector<std::st
         if (csXId != csYId)
             throw CDMException(varNameX[i] + " belongs to different horizontal CS than " + varNameY[i] + ": " + csXId + " != " +csYId);
 
-        if (p_->cachedVectorReprojection.find(csXId) == p_->cachedVectorReprojection.end()) {
+        const string reprojectionId = makeReprojectionId(csXId, toLatLon);
+        if (p_->cachedVectorReprojection.find(reprojectionId) == p_->cachedVectorReprojection.end()) {
             const CoordSysMap::const_iterator itCS = coordSysMap.find(csXId);
             assert(itCS != coordSysMap.end());
-            p_->cachedVectorReprojection[csXId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
+            p_->cachedVectorReprojection[reprojectionId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
         }
-        p_->rotateLatLonVectorX[varNameX[i]] = make_pair(varNameY[i], csXId);
-        p_->rotateLatLonVectorY[varNameY[i]] = make_pair(varNameX[i], csXId);
+        p_->rotateLatLonVectorX[varNameX[i]] = make_pair(varNameY[i], reprojectionId);
+        p_->rotateLatLonVectorY[varNameY[i]] = make_pair(varNameX[i], reprojectionId);
     }
 }
 
@@ -500,12 +507,13 @@ void CDMProcessor::rotateDirectionToLatLon(bool toLatLon, const std::vector<std:
             throw CDMException(varNames[i] + " not rotatable since it does not belong to a horizontal projection");
 
         const string& csId = projectionVariables[varNames[i]];
-        p_->rotateLatLonDirection[varNames[i]] = csId;
+        const string reprojectionId = makeReprojectionId(csId, toLatLon);
+        p_->rotateLatLonDirection[varNames[i]] = reprojectionId;
 
-        if (p_->cachedVectorReprojection.find(csId) == p_->cachedVectorReprojection.end()) {
+        if (p_->cachedVectorReprojection.find(reprojectionId) == p_->cachedVectorReprojection.end()) {
             const CoordSysMap::const_iterator itCS = coordSysMap.find(csId);
             assert(itCS != coordSysMap.end());
-            p_->cachedVectorReprojection[csId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
+            p_->cachedVectorReprojection[reprojectionId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
         }
     }
 }
-- 
2.43.0


From 183f113d529fd0cd811120673240e19d9e3ab3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:50 +0000
Subject: [PATCH 037/144] fix: stale vector rotation after changing the target
 grid again

---
 src/CDMInterpolator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 395d3a1..b15efcf 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -431,6 +431,8 @@ void CDMInterpolator::changeProjection(int method, const string& proj_input, con
     }
     *cdm_ = p_->dataReader->getCDM(); // reset previous changes
     p_->projectionVariables.clear(); // reset variables
+    p_->cachedInterpolation.clear();
+    p_->cachedVectorReprojection.clear();
     switch (method) {
     case MIFI_INTERPOL_NEAREST_NEIGHBOR:
     case MIFI_INTERPOL_BILINEAR:
@@ -466,6 +468,8 @@ void CDMInterpolator::changeProjection(int method, const vector<double>& lonVals
 
     *cdm_ = p_->dataReader->getCDM(); // reset previous changes
     p_->projectionVariables.clear();  // reset variables
+    p_->cachedInterpolation.clear();
+    p_->cachedVectorReprojection.clear();
     switch (method) {
     case MIFI_INTERPOL_NEAREST_NEIGHBOR:
     case MIFI_INTERPOL_BILINEAR:
-- 
2.43.0


From 69e288dbef7518fca5e04ed841d91d088305f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:54 +0000
Subject: [PATCH 038/144] fix: interpolation to a template with one-dimensional
 longitude and latitude

---
 src/CDMInterpolator.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index b15efcf..739ed8d 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -679,6 +679,23 @@ void CDMInterpolator::changeProjection(int method, CDMReader_p tmplReader, const
            vector<double> tmplXAxisVec(tmplXArray.get(), tmplXArray.get()+tmplXData->size());
            vector<double> tmplYAxisVec(tmplYArray.get(), tmplYArray.get()+tmplYData->size());
 
+           const size_t tmplNX = tmplXAxisVec.size(), tmplNY = tmplYAxisVec.size();
+           if (tmplLonName == tmplXName && tmplLatName == tmplYName) {
+               // regular lat/lon template, longitude and latitude are needed for each cell
+               auto lon = make_shared_array<double>(tmplNX * tmplNY);
+               auto lat = make_shared_array<double>(tmplNX * tmplNY);
+               for (size_t y = 0, xy = 0; y < tmplNY; ++y) {
+                   for (size_t x = 0; x < tmplNX; ++x, ++xy) {
+                       lon[xy] = tmplXAxisVec[x];
+                       lat[xy] = tmplYAxisVec[y];
+                   }
+               }
+               tmplLonVals = createData(tmplNX * tmplNY, lon);
+               tmplLatVals = createData(tmplNX * tmplNY, lat);
+           }
+           if (tmplLonVals->size() != tmplNX * tmplNY || tmplLatVals->size() != tmplNX * tmplNY)
+               throw CDMException("longitude and latitude of the template do not match the axes of '" + tmplRefVarName + "'");
+
            changeProjectionByProjectionParametersToLatLonTemplate(method, LAT_LON_PROJSTR, tmplXAxisVec, tmplYAxisVec, tmplCdmRef.getUnits(tmplXName),
                                                                   tmplCdmRef.getUnits(tmplYName), tmplCdmRef.getVariable(tmplXName).getDataType(),
                                                                   tmplCdmRef.getVariable(tmplYName).getDataType(), tmplLatVals, tmplLonVals);
-- 
2.43.0


From 8fd333e5d6d4f76dcf4fe150f6971dfab9174377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:56 +0000
Subject: [PATCH 039/144] fix: horizontal interpolation of variables kept in
 memory

---
 src/CDMInterpolator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 739ed8d..65f174a 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -742,6 +742,11 @@ map<string, CoordinateSystem_cp> CDMInterpolator::findBestCoordinateSystemsAndPr
         }
         LOG4FIMEX(logger, Logger::DEBUG, "projection variables: " << join(pVars.begin(), pVars.end(), ","));
     }
+    // data kept in memory belong to the original grid
+    for (const auto& pv : p_->projectionVariables) {
+        if (cdm_->hasVariable(pv.first))
+            cdm_->getVariable(pv.first).setData(DataPtr());
+    }
 
     return coordSysMap;
 }
-- 
2.43.0


From 82b9f89d0f1c6143e9eef03ce47faa7aa1f1c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:06 +0000
Subject: [PATCH 040/144] fix: the first level counts when looking for the
 levels around a value

The second closest element was never found when the first element of the
list is the closest one, and a value equal to the first element was taken to be
both below and above it. Vertical interpolation gave the fill value when asked
for the first level or a level beyond it.
---
 include/fimex/FindNeighborElements.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/fimex/FindNeighborElements.h b/include/fimex/FindNeighborElements.h
index 7d7dd88..39f0812 100644
--- a/include/fimex/FindNeighborElements.h
+++ b/include/fimex/FindNeighborElements.h
@@ -51,11 +51,10 @@ find_closest_distinct_elements(InputIterator start, InputIterator end, typename
     typedef typename std::iterator_traits<InputIterator>::value_type value_t;
     typename iterator_traits<InputIterator>::difference_type retVal1 = 0;
     typename iterator_traits<InputIterator>::difference_type retVal2 = 0;
-    value_t v1, v1Diff, v2Diff;
+    value_t v1, v1Diff, v2Diff = numeric_limits<value_t>::max(); // no second element yet
     if (start != end) {
         v1 = *start;
         v1Diff = abs(x - *start);
-        v2Diff = v1Diff;
     }
     for (InputIterator cur = start; cur != end; ++cur) {
         const value_t vDiff = abs(x - *cur);
@@ -104,7 +103,7 @@ find_closest_neighbor_distinct_elements(InputIterator start, InputIterator end,
     const double maxDiff = std::numeric_limits<value_t>::max();
     if (lowDiff < 0)
         lowDiff = maxDiff;
-    if (highDiff < 0)
+    if (highDiff <= 0) // equal elements are on the low side
         highDiff = maxDiff;
     while (++cur != end) {
         const value_t diff = x - *cur;
-- 
2.43.0


From 522bdecb875fed8b72fca33811b183c423501408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:58 +0000
Subject: [PATCH 041/144] fix: vertical interpolation where the logarithm does
 not exist

mifi_get_values_log_f() does not touch the output for positions <= 0, i.e. the
interpolated field contained uninitialized values.
---
 src/CDMVerticalInterpolator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 15324d1..110c343 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -536,7 +536,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
                     const size_t idataZ1  = loop[IN] + idataZdelta * pos.second;
                     const float valueI0 = iData[idataZ0], valueI1 = iData[idataZ1];
                     const float verticalI0 = *(ivertical0 + pos.first), verticalI1 = *(ivertical0 + pos.second);
-                    intFunc(&valueI0, &valueI1, interpolated, 1, verticalI0, verticalI1, verticalOut);
+                    if (intFunc(&valueI0, &valueI1, interpolated, 1, verticalI0, verticalI1, verticalOut) != MIFI_OK)
+                        *interpolated = MIFI_UNDEFINED_F; // e.g. no logarithm
                 } else {
                     // find_closest_neighbor_distinct_elements failed
                     *interpolated = MIFI_UNDEFINED_F;
-- 
2.43.0


From 06806734df6bd1f345daeba9b866fa1913530311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:58 +0000
Subject: [PATCH 042/144] fix: nearest neighbor in vertical interpolation

mifi_get_values_nearest_f() always took the value at a, which is the lower
level and not the closer one.
---
 src/interpolation.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 8fc85f5..8005dab 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -450,12 +450,8 @@ int mifi_get_values_bicubic_f(const float* infield, float* outvalues, const doub
 
 int mifi_get_values_nearest_f(const float* infieldA, const float* infieldB, float* outfield, const size_t n, const double a, const double b, const double x)
 {
-    (void)infieldB;
-    (void)a;
-    (void)b;
-    (void)x;
-
-    memcpy(outfield, infieldA, n * sizeof(float));
+    const float* nearest = (fabs(x - a) <= fabs(x - b)) ? infieldA : infieldB;
+    memcpy(outfield, nearest, n * sizeof(float));
     return MIFI_OK;
 }
 
-- 
2.43.0


From 38787c08046333a2fcb543f85d9266b231a64f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:58 +0000
Subject: [PATCH 043/144] fix: order of ps and p0 in the hybrid sigma pressure
 coordinate with a and p0

---
 src/coordSys/verticalTransform/HybridSigmaPressure2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
index 9165537..9ada1f4 100644
--- a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
+++ b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
@@ -32,7 +32,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p HybridSigmaPressure2::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, p0, ps);
+    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, ps, p0);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 8128fd0af27b6fcb93130a21ef039bbfc16a8de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:52 +0000
Subject: [PATCH 044/144] fix: order of p0 and lev in the ln pressure
 coordinate

---
 src/coordSys/verticalTransform/LnPressure.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/LnPressure.cc b/src/coordSys/verticalTransform/LnPressure.cc
index 7e3fc2a..a75201f 100644
--- a/src/coordSys/verticalTransform/LnPressure.cc
+++ b/src/coordSys/verticalTransform/LnPressure.cc
@@ -33,7 +33,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p LnPressure::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return std::make_shared<LnPressureToPressureConverter>(reader, cs, lev, p0);
+    return std::make_shared<LnPressureToPressureConverter>(reader, cs, p0, lev);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 2724c15f861f08ad4ec2b7b1214bdb162746bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:47 +0000
Subject: [PATCH 045/144] fix: use the same precision for requested and
 existing levels in vertical interpolation

The neighbor levels were found with the requested level rounded to float, while
the interpolation used the double value. A request of an existing level which
is not exact in float, like 0.1, might thus be taken as extrapolation.
---
 src/CDMVerticalInterpolator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 110c343..8f87804 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -530,13 +530,14 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
             if (range) {
                 const leap_iterator<const float*> ivertical0(&iVerticalValues[loop[IN_VERTICAL]], iverticalZdelta);
                 const leap_iterator<const float*> ivertical1 = ivertical0 + nzi;
-                const pair<size_t, size_t> pos = find_closest_neighbor_distinct_elements(ivertical0, ivertical1, verticalOut);
+                const float verticalOutF = verticalOut; // same precision as input levels
+                const pair<size_t, size_t> pos = find_closest_neighbor_distinct_elements(ivertical0, ivertical1, verticalOutF);
                 if (pos.first != pos.second) {
                     const size_t idataZ0  = loop[IN] + idataZdelta * pos.first;
                     const size_t idataZ1  = loop[IN] + idataZdelta * pos.second;
                     const float valueI0 = iData[idataZ0], valueI1 = iData[idataZ1];
                     const float verticalI0 = *(ivertical0 + pos.first), verticalI1 = *(ivertical0 + pos.second);
-                    if (intFunc(&valueI0, &valueI1, interpolated, 1, verticalI0, verticalI1, verticalOut) != MIFI_OK)
+                    if (intFunc(&valueI0, &valueI1, interpolated, 1, verticalI0, verticalI1, verticalOutF) != MIFI_OK)
                         *interpolated = MIFI_UNDEFINED_F; // e.g. no logarithm
                 } else {
                     // find_closest_neighbor_distinct_elements failed
-- 
2.43.0


From 51b338818a8a2ccc9a9647670cc67ca80b93c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:47 +0000
Subject: [PATCH 046/144] fix: valid depths of ocean s coordinates end at the
 sea floor

getValidityMax() returned nothing, with the shape of the depth variable.
---
 .../verticalTransform/OceanSCoordinateGToDepthConverter.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
index 7d8f4d8..d6c91a9 100644
--- a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
+++ b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
@@ -113,7 +113,7 @@ std::vector<std::string> OceanSCoordinateGToDepthConverter::getValidityMaxShape(
 
 DataPtr OceanSCoordinateGToDepthConverter::getValidityMax(const SliceBuilder& sb) const
 {
-    return BasicVerticalConverter::getValidityMin(sb);
+    return getSliceData(reader_, sb, vars_.depth, "m");
 }
 
 std::vector<std::string> OceanSCoordinateGToDepthConverter::getValidityMinShape() const
-- 
2.43.0


From 85100614ce74517be676ba10e70472136ef04e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:42 +0000
Subject: [PATCH 047/144] fix: minimum valid depth of ocean s coordinates is
 the sea surface

eta is positive up while depth is positive down, i.e. with a raised sea surface
the uppermost part of the water was taken as invalid.
---
 .../verticalTransform/OceanSCoordinateGToDepthConverter.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
index d6c91a9..fd86436 100644
--- a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
+++ b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
@@ -125,8 +125,11 @@ std::vector<std::string> OceanSCoordinateGToDepthConverter::getValidityMinShape(
 
 DataPtr OceanSCoordinateGToDepthConverter::getValidityMin(const SliceBuilder& sb) const
 {
-    if (!vars_.eta.empty())
-        return getSliceData(reader_, sb, vars_.eta, "m");
+    if (!vars_.eta.empty()) {
+        // eta is positive up, depth is positive down
+        if (DataPtr eta = getSliceData(reader_, sb, vars_.eta, "m"))
+            return eta->convertDataType(MIFI_UNDEFINED_D, -1, 0, CDM_DOUBLE, MIFI_UNDEFINED_D, 1, 0);
+    }
     return BasicVerticalConverter::getValidityMin(sb);
 }
 
-- 
2.43.0


From 35ae7ac718ac9659149257a3975d6c920e4f87e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:25 +0000
Subject: [PATCH 048/144] fix: valid depth range at the right time in vertical
 interpolation

The validity limits were always taken from the first position of the unlimited
dimension.
---
 src/CDMVerticalInterpolator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 8f87804..70c9aeb 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -415,7 +415,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMax) {
             const std::vector<std::string> oValidMaxShape = oConverter->getValidityMaxShape();
             LOG4FIMEX(logger, Logger::DEBUG, "o valid max shape: " << join(oValidMaxShape.begin(), oValidMaxShape.end()));
-            const SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), oValidMaxShape);
+            SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), oValidMaxShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMax, unLimDimPos);
             if (DataPtr oValuesMax = oConverter->getValidityMax(sbValidMax)) {
                 sDataMax = makeArrayDims(getCDM(), oValidMaxShape);
                 forceUnLimDimLength1(getCDM(), sDataMax);
@@ -427,7 +428,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMin) {
             const std::vector<std::string> oValidMinShape = oConverter->getValidityMinShape();
             LOG4FIMEX(logger, Logger::DEBUG, "o valid min shape: " << join(oValidMinShape.begin(), oValidMinShape.end()));
-            const SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), oValidMinShape);
+            SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), oValidMinShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMin, unLimDimPos);
             if (DataPtr oValuesMin = oConverter->getValidityMin(sbValidMin)) {
                 sDataMin = makeArrayDims(getCDM(), oValidMinShape);
                 forceUnLimDimLength1(getCDM(), sDataMin);
@@ -441,7 +443,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMax) {
             const std::vector<std::string> iValidMaxShape = iConverter->getValidityMaxShape();
             LOG4FIMEX(logger, Logger::DEBUG, "i valid max shape: " << join(iValidMaxShape.begin(), iValidMaxShape.end()));
-            const SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), iValidMaxShape);
+            SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), iValidMaxShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMax, unLimDimPos);
             if (DataPtr iValuesMax = iConverter->getValidityMax(sbValidMax)) {
                 sDataMax = makeArrayDims(getCDM(), iValidMaxShape);
                 forceUnLimDimLength1(getCDM(), sDataMax);
@@ -454,7 +457,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMin) {
             const std::vector<std::string> iValidMinShape = iConverter->getValidityMinShape();
             LOG4FIMEX(logger, Logger::DEBUG, "i valid min shape: " << join(iValidMinShape.begin(), iValidMinShape.end()));
-            const SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), iValidMinShape);
+            SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), iValidMinShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMin, unLimDimPos);
             if (DataPtr iValuesMin = iConverter->getValidityMin(sbValidMin)) {
                 sDataMin = makeArrayDims(getCDM(), iValidMinShape);
                 forceUnLimDimLength1(getCDM(), sDataMin);
-- 
2.43.0


From 29731568eb4938f17518f717780359a0b75646c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 049/144] fix: theta2T keeps a reference to a destroyed
 variable name

---
 src/CDMPressureConversions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 2a36e85..e98fe0f 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -214,7 +214,7 @@ public:
 private:
     CDMReader_p reader_;
     CoordinateSystem_cp cs_;
-    const std::string& theta_;
+    std::string theta_;
 };
 
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
-- 
2.43.0


From 47856c6fac14582db3cc531efa0989051c2c7051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 050/144] fix: specific2relative searches the temperature for
 the humidity, not past the end of the humidities

---
 src/CDMPressureConversions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index e98fe0f..c1f9ab5 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -359,9 +359,9 @@ Converter_pv HumidityConverterFactory::createConverter(Environment& env, const O
         }
         vector<string>::const_iterator itTemp = tempV.begin();
         while (itTemp != tempV.end() && !cs->isCSAndCompleteFor(*itTemp))
-            ++itSpecific;
+            ++itTemp;
         if (itTemp == tempV.end()) {
-            LOG4FIMEX(logger, Logger::WARN, "no coordinate system for '" << *itSpecific << "' and '" << *itTemp << "' found");
+            LOG4FIMEX(logger, Logger::WARN, "no " << AIR_TEMPERATURE << " on the coordinate system of '" << *itSpecific << "' found");
             continue;
         }
 
-- 
2.43.0


From 6437844c1a7d5eb4655e2e352940f54ee4cd3f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:50 +0000
Subject: [PATCH 051/144] fix: specific2relative limits the humidity to 100%
 and keeps undefined values undefined

---
 src/CDMPressureConversions.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index c1f9ab5..582fe69 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -31,6 +31,7 @@
 #include "fimex/CDMException.h"
 #include "fimex/CDMReader.h"
 #include "fimex/CDMVerticalInterpolator.h"
+#include "fimex/CDMconstants.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
 #include "fimex/coordSys/CoordinateSystem.h"
@@ -42,6 +43,7 @@
 
 #include "CDMMergeUtils.h"
 
+#include <cmath>
 #include <memory>
 
 namespace MetNoFimex
@@ -319,15 +321,18 @@ DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
     auto shValues = checkData(reader_->getScaledDataSliceInUnit(specific_, "1", unLimDimPos), size, specific_)->asFloat();
     auto airtValues = checkData(reader_->getScaledDataSliceInUnit(temperature_, "K", unLimDimPos), size, temperature_)->asFloat();
     auto rhValues = make_shared_array<short>(size);
+    const short fillValue = MIFI_FILL_SHORT; // no _FillValue attribute
     for (size_t i = 0; i < size; i++) {
         // we have pressure in hPa and need Pa for
         // mifi_specific_to_relative_humidity, we must multiply our
         // pressure with 100; we get relhum in % but want unit "1", ie
-        // we have to divide by 100; as we know the formula, we drop
-        // multiplying and then dividing
-        const float c100 = 1;
+        // we have to divide by 100
+        const float c100 = 100;
         const float rh = mifi_specific_to_relative_humidity(shValues[i], airtValues[i], pressureValues[i]*c100) / c100;
-        rhValues[i] = (short) (relative_humidity_scale_factor * rh + 0.5); // apply scale_factor
+        if (std::isnan(rh))
+            rhValues[i] = fillValue;
+        else
+            rhValues[i] = (short) (relative_humidity_scale_factor * rh + 0.5); // apply scale_factor
     }
     return createData(size, rhValues);
 }
-- 
2.43.0


From 73745237f1154b8b10c5334a8bc9ac3e8c4dd8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:50 +0000
Subject: [PATCH 052/144] fix: add4Dpressure skips coordinate systems without
 pressure

---
 src/CDMPressureConversions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 582fe69..228f5cf 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -570,6 +570,7 @@ Converter_pv AddPressure4DConverterFactory::createConverter(Environment& env, co
                 continue;
         } catch (CDMException& ex) {
             LOG4FIMEX(logger, Logger::WARN, "exception when retrieving pressure converter for coordinate system, skipped: " << ex.what());
+            continue;
         }
 
         vector<string> pshape(4);
-- 
2.43.0


From 5a4bbb719711f91956e4a0d3010587b0b5d5489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:50 +0000
Subject: [PATCH 053/144] fix: omega2vwind keeps the coordinates of omega

---
 src/CDMPressureConversions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 228f5cf..4a70525 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -483,7 +483,7 @@ Converter_pv OmegaVerticalConverterFactory::createConverter(Environment& env, co
     env.outputCDM->addAttribute(verticalWindName, CDMAttribute(STANDARD_NAME, UPWARD_AIR_VELOCITY));
     env.outputCDM->addAttribute(verticalWindName, CDMAttribute(UNITS, "m/s"));
     CDMAttribute xatt;
-    if (env.inputCDM.getAttribute(verticalWindName, COORDINATES, xatt)) {
+    if (env.inputCDM.getAttribute(omega, COORDINATES, xatt)) {
         env.outputCDM->addAttribute(verticalWindName, xatt);
     }
     env.outputCDM->removeVariable(omega); // why?
-- 
2.43.0


From 4f3cc581b34332c3f0fb2c4cd8fbf6caea223de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:14 +0000
Subject: [PATCH 054/144] fix: pressure conversions bring pressure and
 temperature to the shape of the variable

---
 src/CDMPressureConversions.cc | 77 +++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 4a70525..e6ccedd 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -27,6 +27,7 @@
 #include "fimex/CDMPressureConversions.h"
 
 #include "coordSys/CoordSysUtils.h"
+#include "fimex/ArrayLoop.h"
 #include "fimex/CDM.h"
 #include "fimex/CDMException.h"
 #include "fimex/CDMReader.h"
@@ -199,6 +200,46 @@ std::string deriveVariableName(const ConverterFactory::Operation& oper, const st
         return key;
 }
 
+/** bring one slice along the unlimited dimension from one shape to another one; values are repeated along dimensions which are not in the first shape */
+VerticalDataArray reshape(const CDM& cdm, const std::vector<std::string>& fromShape, const std::vector<std::string>& toShape, DataPtr data,
+                          const std::string& what, size_t& size)
+{
+    ArrayDims from = makeArrayDims(cdm, fromShape), to = makeArrayDims(cdm, toShape);
+    forceUnLimDimLength1(cdm, from, to);
+    auto fromValues = dataAs<VerticalData_t>(checkData(data, from.volume(), what));
+    size = to.volume();
+    auto toValues = make_shared_array<VerticalData_t>(size);
+    if (size > 0) {
+        enum { FROM, TO };
+        ArrayGroup group = ArrayGroup().add(from).add(to);
+        group.minimizeShared(0);
+        Loop loop(group);
+        do { // sharedVolume() == 1 because we called minimizeShared before
+            toValues[loop[TO]] = fromValues[loop[FROM]];
+        } while (loop.next());
+    }
+    return toValues;
+}
+
+//! pressure in hPa at each point of a variable with the given shape
+VerticalDataArray pressureInShape(VerticalConverter_p vc, const CDM& cdm, size_t unLimDimPos, const std::vector<std::string>& shape, size_t& size)
+{
+    return reshape(cdm, vc->getShape(), shape, verticalData4D(vc, cdm, unLimDimPos), "pressure", size);
+}
+
+VerticalDataArray pressureInShape(CDMReader_p reader, CoordinateSystem_cp cs, size_t unLimDimPos, const std::vector<std::string>& shape, size_t& size)
+{
+    return pressureInShape(verticalConverter(cs, reader, MIFI_VINT_PRESSURE), reader->getCDM(), unLimDimPos, shape, size);
+}
+
+//! scaled data of a variable at each point of another variable with the given shape
+VerticalDataArray scaledDataInShape(CDMReader_p reader, const std::string& varName, const std::string& unit, size_t unLimDimPos,
+                                    const std::vector<std::string>& shape, size_t& size)
+{
+    const CDM& cdm = reader->getCDM();
+    return reshape(cdm, cdm.getVariable(varName).getShape(), shape, reader->getScaledDataSliceInUnit(varName, unit, unLimDimPos), varName, size);
+}
+
 // ------------------------------------------------------------------------------------------------
 
 class ThetaTemperatureConverter : public Converter {
@@ -221,9 +262,8 @@ private:
 
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
-    auto pressureValues = dataAs<VerticalData_t>(pressureData);
-    const size_t size = pressureData->size();
+    size_t size;
+    auto pressureValues = pressureInShape(reader_, cs_, unLimDimPos, reader_->getCDM().getVariable(theta_).getShape(), size);
 
     const float add_offset = reader_->getCDM().getAddOffset(theta_);
     auto thetaValues = checkData(reader_->getDataSlice(theta_, unLimDimPos), size, theta_)->asFloat();
@@ -314,12 +354,11 @@ private:
 
 DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
-    auto pressureValues = dataAs<VerticalData_t>(pressureData);
-    const size_t size = pressureData->size();
-
-    auto shValues = checkData(reader_->getScaledDataSliceInUnit(specific_, "1", unLimDimPos), size, specific_)->asFloat();
-    auto airtValues = checkData(reader_->getScaledDataSliceInUnit(temperature_, "K", unLimDimPos), size, temperature_)->asFloat();
+    const std::vector<std::string>& shape = reader_->getCDM().getVariable(specific_).getShape();
+    size_t size;
+    auto pressureValues = pressureInShape(reader_, cs_, unLimDimPos, shape, size);
+    auto shValues = scaledDataInShape(reader_, specific_, "1", unLimDimPos, shape, size);
+    auto airtValues = scaledDataInShape(reader_, temperature_, "K", unLimDimPos, shape, size);
     auto rhValues = make_shared_array<short>(size);
     const short fillValue = MIFI_FILL_SHORT; // no _FillValue attribute
     for (size_t i = 0; i < size; i++) {
@@ -427,11 +466,11 @@ private:
 
 DataPtr OmegaVerticalConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
-    auto pressureValues = dataAs<VerticalData_t>(pressureData); // unit: hPa
-    const size_t size = pressureData->size();
-    VerticalDataArray airtempValues = dataAs<VerticalData_t>(checkData(reader_->getScaledDataSliceInUnit(temperature_, "K", unLimDimPos), size, temperature_));
-    VerticalDataArray omegaValues = dataAs<VerticalData_t>(checkData(reader_->getScaledDataSliceInUnit(omega_, "hPa/s", unLimDimPos), size, omega_));
+    const std::vector<std::string>& shape = reader_->getCDM().getVariable(omega_).getShape();
+    size_t size;
+    auto pressureValues = pressureInShape(reader_, cs_, unLimDimPos, shape, size); // unit: hPa
+    auto airtempValues = scaledDataInShape(reader_, temperature_, "K", unLimDimPos, shape, size);
+    auto omegaValues = scaledDataInShape(reader_, omega_, "hPa/s", unLimDimPos, shape, size);
 
     convert_omega_to_vertical_wind(size, omegaValues.get(), pressureValues.get(), airtempValues.get(), omegaValues.get());
     return createData(size, omegaValues);
@@ -513,13 +552,9 @@ private:
 
 DataPtr AddPressure4DConverter::getDataSlice(size_t unLimDimPos)
 {
-    const CDM& rcdm = reader_->getCDM();
-    DataPtr vcdata = verticalData4D(vc_, rcdm, unLimDimPos);
-    if (vc_->getShape() != shape4d_) {
-        LOG4FIMEX(logger, Logger::WARN, "4d pressure shape change not implemented, results are probably wrong");
-        // FIXME vcdata = reshape(rcdm, vc_->getShape(), shape4d_, vcdata);
-    }
-    return vcdata;
+    size_t size;
+    auto values = pressureInShape(vc_, reader_->getCDM(), unLimDimPos, shape4d_, size);
+    return createData(size, values);
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From ded014e9e21b91f85d662b7d22367c29f28dd3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:38 +0000
Subject: [PATCH 055/144] fix: theta2T respects scale factor, units and type of
 theta

---
 src/CDMPressureConversions.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index e6ccedd..52a5ee1 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -35,6 +35,7 @@
 #include "fimex/CDMconstants.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
+#include "fimex/Units.h"
 #include "fimex/coordSys/CoordinateSystem.h"
 #include "fimex/coordSys/verticalTransform/ToVLevelConverter.h"
 #include "fimex/coordSys/verticalTransform/VerticalTransformation.h"
@@ -265,8 +266,14 @@ DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
     size_t size;
     auto pressureValues = pressureInShape(reader_, cs_, unLimDimPos, reader_->getCDM().getVariable(theta_).getShape(), size);
 
-    const float add_offset = reader_->getCDM().getAddOffset(theta_);
-    auto thetaValues = checkData(reader_->getDataSlice(theta_, unLimDimPos), size, theta_)->asFloat();
+    // temperature has the units and packing of theta, raw + offset is proportional to theta in K
+    const CDM& rcdm = reader_->getCDM();
+    double unitsScale = 1, unitsOffset = 0;
+    const std::string units = rcdm.getUnits(theta_);
+    if (!units.empty())
+        Units().convert(units, "K", unitsScale, unitsOffset);
+    const double offset = (rcdm.getAddOffset(theta_) + unitsOffset / unitsScale) / rcdm.getScaleFactor(theta_);
+    auto thetaValues = checkData(reader_->getDataSlice(theta_, unLimDimPos), size, theta_)->asDouble();
 
     const float cp = 1004.; // J/kgK
     const float R = MIFI_GAS_CONSTANT / MIFI_MOLAR_MASS_DRY_AIR; // J/K
@@ -275,9 +282,10 @@ DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
     const float Rcp = R/cp;
     for (size_t i = 0; i < size; i++) {
         // theta = T * (ps / p)^(R/cp) => T = theta * (p/ps)^(R/cp)
-        thetaValues[i] = ((thetaValues[i]+add_offset)*pow(pressureValues[i]*psX1, Rcp))-add_offset;
+        thetaValues[i] = ((thetaValues[i]+offset)*pow(pressureValues[i]*psX1, Rcp))-offset;
     }
-    return createData(size, thetaValues);
+    const double fill = rcdm.getFillValue(theta_);
+    return createData(size, thetaValues)->convertDataType(MIFI_UNDEFINED_D, 1, 0, rcdm.getVariable(theta_).getDataType(), fill, 1, 0);
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 24555b01f7ff50d5542396032400291be95f9ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:00 +0000
Subject: [PATCH 056/144] fix: SpatialAxisSpec.h and TimeSpec.h can be included
 together

Both headers used the include guard TIMESPEC_H_, so that the second one
included was silently skipped.
---
 include/fimex/SpatialAxisSpec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fimex/SpatialAxisSpec.h b/include/fimex/SpatialAxisSpec.h
index 092a7f6..947943d 100644
--- a/include/fimex/SpatialAxisSpec.h
+++ b/include/fimex/SpatialAxisSpec.h
@@ -24,8 +24,8 @@
  *      Author: Heiko Klein
  */
 
-#ifndef TIMESPEC_H_
-#define TIMESPEC_H_
+#ifndef SPATIALAXISSPEC_H_
+#define SPATIALAXISSPEC_H_
 
 #include <vector>
 #include <string>
@@ -112,4 +112,4 @@ private:
 
 } /* MetNoFimex */
 
-#endif /* TIMESPEC_H_ */
+#endif /* SPATIALAXISSPEC_H_ */
-- 
2.43.0


From 1a9d0a2039682e735659b6575d1d3fb455fa8ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 057/144] fix: time units convert to the closest millisecond

Seconds were handled as float and truncated, so that e.g. x.007 seconds
became x.006, and values slightly below a full minute became second 60.
---
 src/TimeUnit.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/TimeUnit.cc b/src/TimeUnit.cc
index d4a9240..c16ee70 100644
--- a/src/TimeUnit.cc
+++ b/src/TimeUnit.cc
@@ -89,7 +89,6 @@ FimexTime TimeUnit::unitTime2fimexTime(double unitTime) const
 {
     Units units; // unit initialization
     FimexTime fiTime;
-    float second;
     int year, month, mday, hour, minute;
     OmpScopedLock lock(getUnitsMutex());
     std::shared_ptr<ut_unit> baseTime(ut_get_unit_by_name(reinterpret_cast<const ut_system*>(units.exposeInternals()), "second"), ut_free);
@@ -97,9 +96,9 @@ FimexTime TimeUnit::unitTime2fimexTime(double unitTime) const
     std::shared_ptr<cv_converter> conv(ut_get_converter(reinterpret_cast<ut_unit*>(pUnit.get()), baseTime.get()), cv_free);
     handleUdUnitError(ut_get_status(), "converting double to calendar");
     double encodedTime = cv_convert_double(conv.get(), unitTime);
-    double res, sec;
-    ut_decode_time(encodedTime, &year, &month, &mday, &hour, &minute, &sec, &res);
-    second = static_cast<float>(sec);
+    double res, second;
+    // FimexTime has a resolution of 1 millisecond; round to the closest one, with carry-over to all other fields
+    ut_decode_time(encodedTime + 0.0005, &year, &month, &mday, &hour, &minute, &second, &res);
     fiTime.setYear(static_cast<unsigned int>(year));
     fiTime.setMonth(static_cast<char>(month));
     fiTime.setMDay(static_cast<char>(mday));
@@ -122,7 +121,7 @@ double TimeUnit::fimexTime2unitTime(const FimexTime& fiTime, double invalidValue
     }
 
     Units units; // unit initialization
-    float second = fiTime.getSecond() + (fiTime.getMSecond()/1000.);
+    double second = fiTime.getSecond() + (fiTime.getMSecond()/1000.);
     double unitTime;
     OmpScopedLock lock(getUnitsMutex());
     std::shared_ptr<ut_unit> baseTime(ut_get_unit_by_name(reinterpret_cast<const ut_system*>(units.exposeInternals()), "second"), ut_free);
-- 
2.43.0


From 855b99a1fffaaa364c149949346b8d124eacd914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 058/144] fix: parsing an ISO time never gives 1000
 milliseconds

'00:00:00.9999' was read as second 0, millisecond 1000, a value outside the
range of FimexTime which wrapped around in comparisons.
---
 src/FimexTime.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FimexTime.cc b/src/FimexTime.cc
index 383403f..54e7979 100644
--- a/src/FimexTime.cc
+++ b/src/FimexTime.cc
@@ -28,6 +28,7 @@
 #include "fimex/TokenizeDotted.h"
 
 #include <climits>
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <vector>
@@ -132,7 +133,7 @@ bool FimexTime::parseISO8601(const std::string& isoStr)
         vector<string> seconds = tokenize(time[2], ".");
         int milliSecs = 0;
         if (seconds.size() > 1) {
-            milliSecs = std::round(string2type<double>("." + seconds[1]) * 1000);
+            milliSecs = std::min(999., std::round(string2type<double>("." + seconds[1]) * 1000));
         }
         setTime(date[0], date[1], date[2], string2type<short>(time[0]), string2type<short>(time[1]), string2type<short>(seconds[0]), milliSecs);
         return true;
-- 
2.43.0


From 94bcb880431cb3461c6f7bc1a8c9ff92140cab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 059/144] fix: lists with ... stay inside their input and end

A list ending in '...' was read behind its end, and a '...' after two equal
values was expanded forever.
---
 include/fimex/TokenizeDotted.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fimex/TokenizeDotted.h b/include/fimex/TokenizeDotted.h
index 2d23955..10e69a6 100644
--- a/include/fimex/TokenizeDotted.h
+++ b/include/fimex/TokenizeDotted.h
@@ -56,8 +56,13 @@ std::vector<T> tokenizeDotted(const std::string& str, const std::string& delimit
             T curVal = last + dist;
             // positive if values get larger, negative if curVal gets samller
             double direction = (dist > 0) ? 1 : -1;
-            if (++tok != tokens.end()) {
-                T afterDotVal = string2type<T>(*tok);
+            if (++tok == tokens.end()) {
+                break; // nothing after the dots
+            } else {
+                T afterDotVal = string2type<T>(trim(*tok));
+                if (dist == 0 && afterDotVal != last) {
+                    throw CDMException("tokenizeDotted: cannot use ... expansion with distance 0");
+                }
                 // expand the dots until before the afterDotVal, compare against rounding error
                 double roundError = direction * dist * -1.e-5;
                 while ((curVal - afterDotVal) * direction < roundError) {
-- 
2.43.0


From 143139817a747833d78e6c410b9b75920c361146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 060/144] fix: x-N and x+N.N in time and axis specifications

'x-3' was replaced by 0 in time specifications, 'x+12.5' was read as 'x+1',
or 'x+12', and anything containing an x was accepted.
---
 src/SpatialAxisSpec.cc | 18 +++++++-----------
 src/TimeSpec.cc        | 18 ++++++------------
 2 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/SpatialAxisSpec.cc b/src/SpatialAxisSpec.cc
index 4c6f074..4eb8792 100644
--- a/src/SpatialAxisSpec.cc
+++ b/src/SpatialAxisSpec.cc
@@ -59,19 +59,15 @@ public:
         std::string retVal;
         if (value != "...") {
             std::smatch what;
-            std::regex finalVals("x\\s*([+-])?\\s*(\\d\\.?\\d*)?\\s*");
+            static const std::regex finalVals("\\s*x\\s*(?:([+-])\\s*(\\d+\\.?\\d*)\\s*)?");
             double retDouble;
-            if (std::regex_search(value, what, finalVals)) {
-                if (what.size() >= 3) {
-                    if (what[1] == '+') {
-                        retDouble = finalValue + string2type<double> (what[2]);
-                    } else if (what[1] == '-'){
-                        retDouble = finalValue - string2type<double> (what[2]);
-                    } else {
-                        retDouble = finalValue;
-                    }
-                } else {
+            if (std::regex_match(value, what, finalVals)) {
+                if (!what[1].matched) {
                     retDouble = finalValue;
+                } else if (what[1] == "+") {
+                    retDouble = finalValue + string2type<double> (what[2]);
+                } else {
+                    retDouble = finalValue - string2type<double> (what[2]);
                 }
             } else {
                 retDouble = startOffset + string2type<double> (value);
diff --git a/src/TimeSpec.cc b/src/TimeSpec.cc
index d855878..f9a2af4 100644
--- a/src/TimeSpec.cc
+++ b/src/TimeSpec.cc
@@ -59,21 +59,15 @@ static double translateRelativeTime(string value, double startOffset, double fin
 {
     double retVal = 0.;
     std::smatch what;
-    std::regex finalVals("x\\s*([+-])?\\s*(\\d\\.?\\d*)?\\s*");
-    if (std::regex_search(value, what, finalVals)) {
-        assert(what.size() == 3); // defined by regex
-        if (what[2] == "") {
+    static const std::regex finalVals("\\s*x\\s*(?:([+-])\\s*(\\d+\\.?\\d*)\\s*)?");
+    if (std::regex_match(value, what, finalVals)) {
+        if (!what[1].matched) {
             // only x is set
             retVal = finalValue;
+        } else if (what[1] == "+") {
+            retVal = finalValue + string2type<double>(what[2]);
         } else {
-            if (what[1] == '+') {
-                retVal = finalValue + string2type<double>(what[2]);
-            } else if (what[1] != "-") {
-                retVal = finalValue - string2type<double>(what[2]);
-            } else {
-                LOG4FIMEX(logger, Logger::WARN,
-                          "translateRelativeTime(" << value << "," << startOffset << "," << finalValue << ")=" << retVal << " ignoring value after x");
-            }
+            retVal = finalValue - string2type<double>(what[2]);
         }
     } else {
         retVal = startOffset + string2type<double>(value);
-- 
2.43.0


From b551d039c3336c7e1de94d61608080cf4a18ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:28 +0000
Subject: [PATCH 061/144] fix: relative time and axis specifications before the
 origin

The positions 0 and x were truncated towards zero via int, so that they were
above start and end for negative values, and undefined for large ones.
---
 src/SpatialAxisSpec.cc | 10 +++-------
 src/TimeSpec.cc        | 11 +++--------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/SpatialAxisSpec.cc b/src/SpatialAxisSpec.cc
index 4eb8792..5e52bce 100644
--- a/src/SpatialAxisSpec.cc
+++ b/src/SpatialAxisSpec.cc
@@ -33,6 +33,7 @@
 #include "fimex/Units.h"
 
 #include <algorithm>
+#include <cmath>
 #include <iterator>
 #include <regex>
 #include <vector>
@@ -130,15 +131,10 @@ void SpatialAxisSpec::init()
         Units units;
         // find the position 0 in the relative times
         double startU = start; // TODO check unit
-        double startOffset = static_cast<int> (startU / delta) * delta;
-        if (startU < startOffset) {
-            // cast to largest value below startU
-            // but I want smallest value above startU
-            startOffset += delta;
-        }
+        double startOffset = std::floor(startU / delta) * delta;
         // find position x in the relative times
         double endU = end; // TODO check unit
-        double finalU = static_cast<int> (endU / delta) * delta;
+        double finalU = std::floor(endU / delta) * delta;
         transform(places.begin(), places.end(), places.begin(),
                 TranslateRelativePlace(startOffset, finalU));
         string absolutPlaces = join(places.begin(), places.end(), ",");
diff --git a/src/TimeSpec.cc b/src/TimeSpec.cc
index f9a2af4..8cd6eb2 100644
--- a/src/TimeSpec.cc
+++ b/src/TimeSpec.cc
@@ -36,7 +36,7 @@
 #include "fimex/Type2String.h"
 
 #include <algorithm>
-#include <cassert>
+#include <cmath>
 #include <functional>
 #include <iterator>
 #include <regex>
@@ -143,15 +143,10 @@ TimeSpec::TimeSpec(const string& timeSpec, const FimexTime& startTime, const Fim
         TimeUnit tu(relativeUnit);
         // find the position 0 in the relative times
         double startTimeU = tu.fimexTime2unitTime(startTime);
-        double startOffset = static_cast<int>(startTimeU / delta) * delta;
-        if (startTimeU < startOffset) {
-            // cast to largest value below startTimeU
-            // but I want smallest value above startTimeU
-            startOffset += delta;
-        }
+        double startOffset = std::floor(startTimeU / delta) * delta;
         // find position x in the relative times
         double endTimeU = tu.fimexTime2unitTime(endTime);
-        double finalTimeU = static_cast<int>(endTimeU / delta) * delta;
+        double finalTimeU = std::floor(endTimeU / delta) * delta;
 
         // convert list with x and ... to timeUnitString
         for (size_t i = 0; i < times.size(); i++) {
-- 
2.43.0


From 7fda07cd83079e1f4a3b28bbe3c076b2365a22e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:57 +0000
Subject: [PATCH 062/144] fix: CDMTimeInterpolator can be read before
 changeTimeAxis

getDataSlice dereferenced the end of a map, and time-dependent data held in
memory had been removed.
---
 src/CDMTimeInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 7b2779e..78b252b 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -92,7 +92,7 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
 {
     const std::string timeAxis = getTimeAxis(coordSystems_, varName);
     LOG4FIMEX(logger, Logger::DEBUG, "getting time-interpolated data-slice for " << varName << " with time-axis: " << timeAxis);
-    if (timeAxis.empty() || (dataReaderTimesInNewUnits_.find(timeAxis)->second.size() == 0)) {
+    if (timeAxis.empty() || dataReaderTimesInNewUnits_.find(timeAxis) == dataReaderTimesInNewUnits_.end()) {
         // not time-axis or "changeTimeAxis" never called
         // no changes, simply forward
         return dataReader_->getDataSlice(varName, unLimDimPos);
-- 
2.43.0


From 0d8d6729f421610f818df83ffcae1b6e295eb457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:57 +0000
Subject: [PATCH 063/144] fix: repeated changeTimeAxis starts from the units of
 the source

The second change interpreted the source times in the units of the first one.
---
 src/CDMTimeInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 78b252b..a519c6d 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -150,7 +150,7 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
         if (!timeDimName.empty() && changedTimes.find(timeDimName) == changedTimes.end()) {
             changedTimes.insert(timeDimName); // avoid double changes
             DataPtr times = dataReader_->getScaledData(timeDimName);
-            string unit = cdm_->getUnits(timeDimName);
+            const string unit = orgCDM.getUnits(timeDimName);
             const TimeUnit tu(unit);
             vector<FimexTime> oldTimes;
             auto oldTimesPtr = times->asDouble();
-- 
2.43.0


From d804af119288b8b038a576fe5f40ce0f87d53d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:57 +0000
Subject: [PATCH 064/144] fix: new times may be in any order

The search for neighbouring source times never went back, so that an earlier
time after a later one was extrapolated.
---
 src/CDMTimeInterpolator.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index a519c6d..8a83493 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -162,10 +162,9 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
             // create mapping of new time value positions to old time values (per time-axis)
             const vector<FimexTime>& newTimes = ts.getTimeSteps();
             size_t newTimePos = 0;
-            size_t lastPos = 0;
             vector<pair<size_t, size_t> > timeMapping(newTimes.size());
             for (vector<FimexTime>::const_iterator it = newTimes.begin(); it != newTimes.end(); ++it, ++newTimePos) {
-                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin() + lastPos, oldTimes.end(), *it);
+                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin(), oldTimes.end(), *it);
                 size_t pos = distance(oldTimes.begin(), olb);
                 size_t t1, t2;
                 if (pos == oldTimes.size()) {
@@ -183,7 +182,6 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
                         assert(oldTimes.size() == 1);
                     }
                 }
-                lastPos = pos; // make search faster, we know that the next lower_bound_pos will be >= pos
                 timeMapping[newTimePos] = make_pair(t1,t2);
             }
             timeChangeMap_[timeDimName] = timeMapping;
-- 
2.43.0


From 8d0a779a56c88cbfe4bb1221562bac1953ccdcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:57 +0000
Subject: [PATCH 065/144] fix: time interpolation respects fill values and the
 type of the variable

Fill values were interpolated as numbers, and data were delivered as float
with NaN whatever the type and fill value of the variable.
---
 src/CDMTimeInterpolator.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 8a83493..4079e7e 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -28,6 +28,7 @@
 
 #include "fimex/CDM.h"
 #include "fimex/CDMException.h"
+#include "fimex/CDMInterpolator.h"
 #include "fimex/Data.h"
 #include "fimex/DataUtils.h"
 #include "fimex/Logger.h"
@@ -124,8 +125,11 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
             data = d1;
         } else if (d1->size() == d2->size()) {
             auto out = make_shared_array<float>(d1->size());
-            mifi_get_values_linear_weak_extrapol_f(d1->asFloat().get(), d2->asFloat().get(), out.get(), d1->size(), d1Time, d2Time, currentTime);
-            data = createData(d1->size(), out);
+            const double badValue = cdm_->getFillValue(varName);
+            auto in1 = data2InterpolationArray(d1, badValue);
+            auto in2 = data2InterpolationArray(d2, badValue);
+            mifi_get_values_linear_weak_extrapol_f(in1.get(), in2.get(), out.get(), d1->size(), d1Time, d2Time, currentTime);
+            data = interpolationArray2Data(variable.getDataType(), out, d1->size(), badValue);
         } else {
             throw CDMException("getDataSlice for " + varName + ": got slices with different size");
         }
-- 
2.43.0


From 37629e5bc04c7ace78c4a0c8f7f14f667f46821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 066/144] fix: the new time axis is not packed like the old one

scale_factor and add_offset of the source's time axis stayed in place and
were applied to the new times, as did the fill value of the former type.
---
 src/CDMTimeInterpolator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 4079e7e..eec224c 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -199,6 +199,9 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
             auto& timeVar = cdm_->getVariable(timeDimName);
             timeVar.setDataType(CDM_DOUBLE);
             timeVar.setData(createData(newTimes.size(), timeData));
+            // the new values are neither packed nor missing
+            for (const char* att : {"scale_factor", "add_offset", "_FillValue"})
+                cdm_->removeAttribute(timeDimName, att);
             cdm_->getDimension(timeDimName).setLength(newTimes.size());
 
             // store old times with new unit as oldTimesNewUnits-vector
-- 
2.43.0


From 0c8d7da778602ba1debd883a8fcf791b77be2028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:41 +0000
Subject: [PATCH 067/144] fix: negative widths of linear border smoothing are
 refused

They were converted to huge unsigned widths.
---
 src/CDMBorderSmoothing.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMBorderSmoothing.cc b/src/CDMBorderSmoothing.cc
index 9e74853..1420a12 100644
--- a/src/CDMBorderSmoothing.cc
+++ b/src/CDMBorderSmoothing.cc
@@ -196,6 +196,8 @@ CDMBorderSmoothing::SmoothingFactory_p createSmoothingFactory(const std::string&
             try {
                 int transition = string2type<int>(what[1]);
                 int border = string2type<int>(what[2]);
+                if (transition < 0 || border < 0)
+                    throw CDMException("negative width in linear smoothing specification: " + specification);
                 return std::make_shared<CDMBorderSmoothing_LinearFactory>(transition, border);
             } catch (string2type_error& ex) {
                 throw CDMException("problem parsing parameters for linear smoothing: '" + specification + "', error is: " + ex.what());
-- 
2.43.0


From aa940266b306da968b9ab3b526404e380b39b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:41 +0000
Subject: [PATCH 068/144] fix: border smoothing leaves variables without
 horizontal grid alone

The sizes of the missing x and y dimensions were read out of bounds, and
packed scalar or time-only variables were delivered unpacked.
---
 src/CDMBorderSmoothing.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CDMBorderSmoothing.cc b/src/CDMBorderSmoothing.cc
index 1420a12..47875b7 100644
--- a/src/CDMBorderSmoothing.cc
+++ b/src/CDMBorderSmoothing.cc
@@ -39,6 +39,8 @@
 
 #include "CDMMergeUtils.h"
 
+#include <algorithm>
+
 using namespace MetNoFimex;
 using namespace std;
 
@@ -104,6 +106,10 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
     if (cdm_->hasDimension(varName) or not cdmO.hasVariable(varName))
         return p->readerI->getDataSlice(varName, unLimDimPos); // not scaled
 
+    const vector<string> &shape = cdm_->getVariable(varName).getShape();
+    if (std::find(shape.begin(), shape.end(), p->nameX) == shape.end() || std::find(shape.begin(), shape.end(), p->nameY) == shape.end())
+        return p->readerI->getDataSlice(varName, unLimDimPos); // no horizontal grid, nothing to smooth; not scaled
+
     const std::string unitsI = p->readerI->getCDM().getUnits(varName);
     const std::string unitsO = p->interpolatedO->getCDM().getUnits(varName);
 
@@ -121,7 +127,6 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
         sliceO = p->interpolatedO->getScaledDataSliceInUnit(varName, unitsI, unLimDimPos);
     }
 
-    const vector<string> &shape = cdm_->getVariable(varName).getShape();
     vector<size_t> dimSizes;
     int shapeIdxX = -1, shapeIdxY = -1;
     for(size_t i=0; i<shape.size(); ++i) {
@@ -135,9 +140,6 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
             dimSizes.push_back(dim.getLength());
     }
     
-    if (dimSizes.empty())
-        return sliceI;
-
     Smoothing_p smoothing = (*p->smoothingFactory)(varName);
     smoothing->setHorizontalSizes(dimSizes[shapeIdxX], dimSizes[shapeIdxY]);
 
-- 
2.43.0


From 4f0f5b06ced348a683f7d66d027295f1ffc9461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:03 +0000
Subject: [PATCH 069/144] fix: target axes of changeProjection in km are
 converted to m

The values were used as m whatever their unit, while the resulting axes
were labelled with the unit, e.g. a grid in km was read at a thousandth of
its distances from the origin.
---
 src/CDMInterpolator.cc | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 65f174a..4dab897 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -40,6 +40,7 @@
 #include "fimex/SpatialAxisSpec.h"
 #include "fimex/StringUtils.h"
 #include "fimex/Type2String.h"
+#include "fimex/Units.h"
 #include "fimex/coordSys/CoordinateAxis.h"
 #include "fimex/coordSys/CoordinateSystem.h"
 #include "fimex/coordSys/Projection.h"
@@ -420,15 +421,35 @@ void CDMInterpolator::changeProjection(int method, const string& proj_input, con
     changeProjection(method, proj_input, out_x_axis, out_y_axis, out_x_axis_unit, out_y_axis_unit, CDM_DOUBLE, CDM_DOUBLE);
 }
 
-void CDMInterpolator::changeProjection(int method, const string& proj_input, const vector<double>& out_x_axis, const vector<double>& out_y_axis, const string& out_x_axis_unit, const string& out_y_axis_unit, CDMDataType out_x_axis_type, CDMDataType out_y_axis_type)
+namespace {
+/// projections calculate in m, translate axes given in other metric units
+void axisToMeter(vector<double>& axis, string& unit)
+{
+    Units units;
+    if (unit != "m" && units.areConvertible(unit, "m")) {
+        double slope, offset;
+        units.convert(unit, "m", slope, offset);
+        for (double& v : axis)
+            v = v * slope + offset;
+        unit = "m";
+    }
+}
+} // namespace
+
+void CDMInterpolator::changeProjection(int method, const string& proj_input, const vector<double>& out_x_axis_input, const vector<double>& out_y_axis_input, const string& out_x_axis_unit_input, const string& out_y_axis_unit_input, CDMDataType out_x_axis_type, CDMDataType out_y_axis_type)
 {
     LOG4FIMEX(logger, Logger::DEBUG, "changing projection to new axes");
-    if (out_x_axis.empty() || out_y_axis.empty())
+    if (out_x_axis_input.empty() || out_y_axis_input.empty())
         throw CDMException("refusing to interpolate to empty grid");
 
     if (out_x_axis_type == CDM_NAT || out_y_axis_type == CDM_NAT) {
         throw CDMException("axis type of interpolation not well defined");
     }
+    vector<double> out_x_axis = out_x_axis_input, out_y_axis = out_y_axis_input;
+    string out_x_axis_unit = out_x_axis_unit_input, out_y_axis_unit = out_y_axis_unit_input;
+    axisToMeter(out_x_axis, out_x_axis_unit);
+    axisToMeter(out_y_axis, out_y_axis_unit);
+
     *cdm_ = p_->dataReader->getCDM(); // reset previous changes
     p_->projectionVariables.clear(); // reset variables
     p_->cachedInterpolation.clear();
-- 
2.43.0


From e8a7d4c02b73207569f51ccc36b71c55db890459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:03 +0000
Subject: [PATCH 070/144] fix: merging extends inner axes in km

The axes were extended in m but labelled with the unit of the inner axis.
---
 src/CDMMergeUtils.cc | 2 +-
 src/CDMMerger.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 7ba48dd..0e00983 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -267,7 +267,7 @@ CDM makeMergedCDM(CDMReader_p readerI, CDMReader_p& readerO, int gridInterpolati
         const values_v valuesX = getAxisValues(readerI, csI->getGeoXAxis(), unitIX),
                 valuesY = getAxisValues(readerI, csI->getGeoYAxis(), unitIY);
         interpolatedO->changeProjection(gridInterpolationMethod, projI->getProj4String(),
-                valuesX, valuesY, unitIX, unitIX, CDM_DOUBLE, CDM_DOUBLE);
+                valuesX, valuesY, unitIX, unitIY, CDM_DOUBLE, CDM_DOUBLE);
 
         LOG4FIMEX(logger, Logger::INFO, "interpolating top grid");
         break;
diff --git a/src/CDMMerger.cc b/src/CDMMerger.cc
index e275d5c..56a659f 100644
--- a/src/CDMMerger.cc
+++ b/src/CDMMerger.cc
@@ -202,7 +202,7 @@ void CDMMerger::setTargetGridFromInner()
 
         LOG4FIMEX(logger, Logger::INFO, "extending grid for inner variable '" << varName << "'");
         setTargetGrid(projI->getProj4String(), vx, vy,
-                cdmI.getUnits(xAxisI->getName()), cdmI.getUnits(yAxisI->getName()),
+                projI->isDegree() ? cdmI.getUnits(xAxisI->getName()) : unit, projI->isDegree() ? cdmI.getUnits(yAxisI->getName()) : unit,
                 xAxisI->getDataType(), yAxisI->getDataType());
         return;
     }
-- 
2.43.0


From 4129f1712f8cd5085dcf166a8d62205a001f93fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:03 +0000
Subject: [PATCH 071/144] fix: merged datasets: check all dimensions, also
 without horizontal axes

A variable with additional dimensions in one of the datasets was merged,
reading out of bounds, and variables without x- or y-axis but different
names of their dimensions dereferenced a null pointer.
---
 src/CDMMergeUtils.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 0e00983..6138768 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -155,6 +155,11 @@ void addAuxiliary(std::set<std::string>& variables, const CDM& cdm, const Coordi
     }
 }
 
+static bool isAxisName(CoordinateAxis_cp axis, const std::string& name)
+{
+    return axis && axis->getName() == name;
+}
+
 #define LOG_INCOMPATIBLE(message) \
     do {                                                                \
         LOG4FIMEX(logger, Logger::DEBUG, "variable '" << varName << "' incompatible: " << message); \
@@ -198,7 +203,8 @@ bool is_compatible(CDMReader_p readerB, CDMReader_p readerT, const CoordinateSys
     const vector<string> &shapeB = cdmB.getVariable(varName).getShape(),
             &shapeT = cdmT.getVariable(varName).getShape();
     if (shapeB != shapeT) {
-        for (size_t idxB=0, idxT=0; idxB < shapeB.size() and idxT < shapeT.size(); ++idxB, ++idxT) {
+        size_t idxB = 0, idxT = 0;
+        for (; idxB < shapeB.size() and idxT < shapeT.size(); ++idxB, ++idxT) {
             // hop over dimensions with length 1
             while (idxB < shapeB.size() and cdmB.getDimension(shapeB[idxB]).getLength() == 1) {
                 LOG4FIMEX(logger, Logger::DEBUG, "variable '" << varName << "' hopping over length-1 dimension '" << shapeB[idxB] << "' in base");
@@ -216,10 +222,8 @@ bool is_compatible(CDMReader_p readerB, CDMReader_p readerT, const CoordinateSys
                 LOG_INCOMPATIBLE("mismatch in dimensions with length!=1");
 
             // must reach x/y axis at the same time
-            const bool isGeoXB = (shapeB[idxB] == csB->getGeoXAxis()->getName()),
-                    isGeoXT = (shapeT[idxT] == csT->getGeoXAxis()->getName()),
-                    isGeoYB = (shapeB[idxB] == csB->getGeoYAxis()->getName()),
-                    isGeoYT = (shapeT[idxT] == csT->getGeoYAxis()->getName());
+            const bool isGeoXB = isAxisName(csB->getGeoXAxis(), shapeB[idxB]), isGeoXT = isAxisName(csT->getGeoXAxis(), shapeT[idxT]),
+                       isGeoYB = isAxisName(csB->getGeoYAxis(), shapeB[idxB]), isGeoYT = isAxisName(csT->getGeoYAxis(), shapeT[idxT]);
             if (isGeoXB != isGeoXT or isGeoYB != isGeoYT)
                 LOG_INCOMPATIBLE("geo x/y mismatch");
 
@@ -234,6 +238,15 @@ bool is_compatible(CDMReader_p readerB, CDMReader_p readerT, const CoordinateSys
                 // TODO compare values
             }
         }
+        // remaining dimensions must have length 1
+        for (; idxB < shapeB.size(); ++idxB) {
+            if (cdmB.getDimension(shapeB[idxB]).getLength() != 1)
+                LOG_INCOMPATIBLE("additional dimension '" << shapeB[idxB] << "' in base");
+        }
+        for (; idxT < shapeT.size(); ++idxT) {
+            if (cdmT.getDimension(shapeT[idxT]).getLength() != 1)
+                LOG_INCOMPATIBLE("additional dimension '" << shapeT[idxT] << "' in top");
+        }
     }
 
     return true;
-- 
2.43.0


From e2699d1e4b97f0b75a396c641451d46adcf381ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:02 +0000
Subject: [PATCH 072/144] fix: overlay delivers auxiliary variables existing
 only in top

Variables like the projection were kept in the dataset, but reading (and thus
writing the dataset) failed when the base uses another name.
---
 src/CDMOverlay.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CDMOverlay.cc b/src/CDMOverlay.cc
index 74a9fb4..417952c 100644
--- a/src/CDMOverlay.cc
+++ b/src/CDMOverlay.cc
@@ -105,8 +105,10 @@ DataPtr CDMOverlay::getDataSlice(const std::string &varName, size_t unLimDimPos)
     }
 
     const CDM& cdmB = p->interpolatedB->getCDM();
-    if (not cdmB.hasVariable(varName))
-        THROW("variable '" << varName << "' unknown in base");
+    if (not cdmB.hasVariable(varName)) {
+        // e.g. auxiliary variables like the projection
+        return p->readerT->getDataSlice(varName, unLimDimPos); // not scaled
+    }
 
     const std::string unitsT = cdmT.getUnits(varName);
     const std::string unitsB = cdmB.getUnits(varName);
-- 
2.43.0


From f6237790fe44ea180a07d9cc77e89c02f727583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:46 +0000
Subject: [PATCH 073/144] fix: overlay keeps values of top equal to the fill
 value of base

They were replaced by the fill value of top.
---
 src/CDMOverlay.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMOverlay.cc b/src/CDMOverlay.cc
index 417952c..18ba9da 100644
--- a/src/CDMOverlay.cc
+++ b/src/CDMOverlay.cc
@@ -81,7 +81,7 @@ DataPtr overlayDataSlices(T fillT, T fillB, DataPtr sliceT, DataPtr sliceB)
         T& valueB = valuesB[i];
         if (!(value_is_nan<T>(valueT) || valueT == fillT))
             valueB = valueT;
-        if (value_is_nan<T>(valueB) || valueB == fillB)
+        else if (value_is_nan<T>(valueB) || valueB == fillB)
             valueB = fillT; // need to use FillValue from top
     }
     return createData(sliceB->size(), valuesB);
-- 
2.43.0


From eacf0c69ac1583c877d8185becd333750f4757bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:16 +0000
Subject: [PATCH 074/144] fix: vertical velocity of air at rest is 0: the slope
 of the levels counts with the wind

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 8005dab..aed4d93 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -1066,8 +1066,8 @@ size_t mifi_compute_vertical_velocity(size_t nx, size_t ny, size_t nz, double dx
                 double w1 = R*t[ijk]
                              * (dlnp[ijk]*sum[ij] + alfa[ijk]*div)
                              / dp[ijk];
-                double w2 =   rhx[ij] * rdx_2 * (z[ijk+1]  - z[ijk-1])
-                            + rhy[ij] * rdy_2 * (z[ijk+nx] - z[ijk-nx]);
+                double w2 =   u[ijk] * rhx[ij] * rdx_2 * (z[ijk+1]  - z[ijk-1])
+                            + v[ijk] * rhy[ij] * rdy_2 * (z[ijk+nx] - z[ijk-nx]);
                 w[ijk] = (w1+w2) / g;
                 sum[ij] = sum[ij] + div;
             }
-- 
2.43.0


From 2f83a9f2347dca735509b5e5b31505da010eb7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:16 +0000
Subject: [PATCH 075/144] fix: addVerticalVelocity divides the geopotential by
 gravity instead of multiplying

---
 src/CDMProcessor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 3b0b9c4..0581dbb 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -310,7 +310,7 @@ void CDMProcessor::addVerticalVelocity()
                         if (stdName == "surface_altitude" || stdName == "altitude" || stdName == "geopotential_height") {
                             gpUnit = "m";
                         } else {
-                            gpUnit = "1/9.81*m^2/s^2"; // division of gepotential by gravity
+                            gpUnit = "9.81 m^2/s^2"; // division of gepotential by gravity
                         }
                         DataPtr gpd;
                         try {
-- 
2.43.0


From b6339a6c4d392a4c9308b0f1e35da6fd480bf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:16 +0000
Subject: [PATCH 076/144] fix: no vertical velocity on grids without inner
 points

---
 src/CDMProcessor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 0581dbb..79bf883 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -252,6 +252,10 @@ void CDMProcessor::addVerticalVelocity()
                 vvc.nx = cdm_->getDimension(cs->getGeoXAxis()->getName()).getLength();
                 vvc.ny = cdm_->getDimension(cs->getGeoYAxis()->getName()).getLength();
                 vvc.nz = cdm_->getDimension(cs->getGeoZAxis()->getName()).getLength();
+                if (vvc.nx < 3 || vvc.ny < 3) {
+                    LOG4FIMEX(logger, Logger::WARN, "grid of '" << *xw << "' too small for vertical velocity");
+                    continue;
+                }
                 auto xValues = p_->dataReader->getData(cs->getGeoXAxis()->getName())->asDouble();
                 vvc.dx = fabs(xValues[1] - xValues[0]);
                 auto yValues = p_->dataReader->getData(cs->getGeoYAxis()->getName())->asDouble();
-- 
2.43.0


From 9eb1c83108eb26d508067457b24e899f12fb2331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:16 +0000
Subject: [PATCH 077/144] fix: the cache of accumulated slices is not shared
 with the caller

---
 src/CDMProcessor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 79bf883..38ee448 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -624,7 +624,7 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
                 start = p_->sliceCache.ulimDimPos + 1;
                 if (p_->sliceCache.ulimDimPos == unLimDimPos) {
-                    data = p_->sliceCache.data;
+                    data = p_->sliceCache.data->clone();
                 } else {
                     DataPtr dataP = p_->sliceCache.data;
                     addDataP2Data(data, dataP, false);
@@ -638,7 +638,7 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             // fill the cache
             p_->sliceCache.varName = varName;
             p_->sliceCache.ulimDimPos = unLimDimPos;
-            p_->sliceCache.data = data;
+            p_->sliceCache.data = data->clone(); // data might be modified by the caller
         }
     }
 
-- 
2.43.0


From 2629b3daff94f211456393009a08401eef089cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:39 +0000
Subject: [PATCH 078/144] fix: CDMProcessor also processes variables held in
 memory

---
 src/CDMProcessor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 38ee448..8640550 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -396,6 +396,7 @@ void CDMProcessor::accumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->accumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(DataPtr()); // always via getDataSlice
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring accumulate");
     }
@@ -406,6 +407,7 @@ void CDMProcessor::deAccumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->deaccumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(DataPtr()); // always via getDataSlice
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring deaccumulate");
     }
@@ -490,6 +492,9 @@ void CDMProcessor::rotateVectorToLatLon(bool toLatLon, const std::vector<std::st
         }
         p_->rotateLatLonVectorX[varNameX[i]] = make_pair(varNameY[i], reprojectionId);
         p_->rotateLatLonVectorY[varNameY[i]] = make_pair(varNameX[i], reprojectionId);
+        // always via getDataSlice
+        cdm_->getVariable(varNameX[i]).setData(DataPtr());
+        cdm_->getVariable(varNameY[i]).setData(DataPtr());
     }
 }
 
@@ -513,6 +518,7 @@ void CDMProcessor::rotateDirectionToLatLon(bool toLatLon, const std::vector<std:
         const string& csId = projectionVariables[varNames[i]];
         const string reprojectionId = makeReprojectionId(csId, toLatLon);
         p_->rotateLatLonDirection[varNames[i]] = reprojectionId;
+        cdm_->getVariable(varNames[i]).setData(DataPtr()); // always via getDataSlice
 
         if (p_->cachedVectorReprojection.find(reprojectionId) == p_->cachedVectorReprojection.end()) {
             const CoordSysMap::const_iterator itCS = coordSysMap.find(csId);
-- 
2.43.0


From e50017df8e5653d50d4804c836752ad9719e4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:39 +0000
Subject: [PATCH 079/144] fix: accumulation and deaccumulation respect
 add_offset

---
 src/CDMProcessor.cc | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 8640550..eae51d1 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -550,23 +550,24 @@ struct UnScaleOffset
     }
 };
 
-static void replaceNanWith0(shared_array<double> dp, size_t n)
+// zero is the stored value for a physical value of 0
+static void replaceNanWith0(shared_array<double> dp, size_t n, double zero)
 {
-    mifi_nand2bad(&dp[0], &dp[0]+n, 0);
+    mifi_nand2bad(&dp[0], &dp[0]+n, zero);
 }
 
 // add d2 to d1 and return d1
-static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeStep) {
+static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeStep, double zero) {
     if ((data->size() != 0) && (dataP->size() != 0)) {
         assert(data->size() == dataP->size());
         auto d = data->asDouble();
         auto dp = dataP->asDouble();
         if (addingFirstTimeStep) {
             // in step 0, replace undef with 0
-            replaceNanWith0(dp, dataP->size());
+            replaceNanWith0(dp, dataP->size(), zero);
         }
         // this might modify the original data in the reader
-        std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::plus<double>());
+        std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], [zero](double a, double b) { return a + b - zero; });
         data = createData(data->size(), d);
     } else if (dataP->size() != 0) {
         data = dataP; // data->size was 0
@@ -622,6 +623,14 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         data = p_->dataReader->getDataSlice(varName, unLimDimPos);
     }
 
+    // stored value for a physical value of 0
+    double zero = 0;
+    if (p_->accumulateVars.find(varName) != p_->accumulateVars.end() || p_->deaccumulateVars.find(varName) != p_->deaccumulateVars.end()) {
+        double scaleFactor = 1, addOffset = 0;
+        getScaleAndOffsetOf(varName, scaleFactor, addOffset);
+        zero = -addOffset / scaleFactor;
+    }
+
     // accumulation
     if (p_->accumulateVars.find(varName) != p_->accumulateVars.end()) {
         LOG4FIMEX(logger, Logger::DEBUG, varName << " at slice " << unLimDimPos << " accumulate");
@@ -633,13 +642,13 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                     data = p_->sliceCache.data->clone();
                 } else {
                     DataPtr dataP = p_->sliceCache.data;
-                    addDataP2Data(data, dataP, false);
+                    addDataP2Data(data, dataP, false, zero);
                 }
             }
             // data contains last slice + eventually cache
             for (size_t i = start; i <= unLimDimPos-1; ++i) {
                 DataPtr dataP = p_->dataReader->getDataSlice(varName, i);
-                addDataP2Data(data, dataP, i == 0);
+                addDataP2Data(data, dataP, i == 0, zero);
             }
             // fill the cache
             p_->sliceCache.varName = varName;
@@ -659,10 +668,10 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                 auto dp = dataP->asDouble();
                 if (unLimDimPos == 1) {
                     // in step 0, replace undef with 0
-                    replaceNanWith0(dp, dataP->size());
+                    replaceNanWith0(dp, dataP->size(), zero);
                 }
                 // this might modify the original data in the reader
-                std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::minus<double>());
+                std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], [zero](double a, double b) { return a - b + zero; });
                 data = createData(data->size(), d);
             }
         }
-- 
2.43.0


From ecdd37c3ce41018497f476cc84f74cb2105e8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:36 +0000
Subject: [PATCH 080/144] fix: added geopotential height has the dimensions it
 depends on

---
 src/CDMProcessor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index eae51d1..3837ff3 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -193,7 +193,7 @@ void CDMProcessor::addGeopotentialHeight()
                         p_->altitudeConverter = altConv;
                         p_->geopotentialHeightTemperatureVar = temperatureVarName;
 
-                        // add variable for geopotential_height with the same shape as air_temperature
+                        // add variable for geopotential_height with the dimensions it depends on
                         std::string varName;
                         const auto idx_at = temperatureVarName.find(AIR_TEMPERATURE);
                         if (idx_at != std::string::npos) {
@@ -207,7 +207,7 @@ void CDMProcessor::addGeopotentialHeight()
                         }
                         p_->geopotentialHeightVar = varName;
 
-                        CDMVariable gphv(varName, CDM_FLOAT, cdm_->getVariable(temperatureVarName).getShape());
+                        CDMVariable gphv(varName, CDM_FLOAT, altConv->getShape());
                         cdm_->addVariable(gphv);
                         cdm_->addAttribute(varName, CDMAttribute("units", "m"));
                         cdm_->addAttribute(varName, CDMAttribute("standard_name", GEOPOTENTIAL_HEIGHT));
@@ -613,9 +613,9 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         data = createData(nx*ny*nz, w);
     } else if (varName == p_->geopotentialHeightVar && p_->altitudeConverter != nullptr) {
         // create a slice-builder from unLimDimPos
-        SliceBuilder sb(*cdm_, p_->geopotentialHeightTemperatureVar);
+        SliceBuilder sb(*cdm_, varName);
         if (const CDMDimension* unlimDim = cdm_->getUnlimitedDim()) {
-            if (cdm_->getVariable(p_->geopotentialHeightTemperatureVar).checkDimension(unlimDim->getName()))
+            if (cdm_->getVariable(varName).checkDimension(unlimDim->getName()))
                 sb.setStartAndSize(unlimDim->getName(), unLimDimPos, 1);
         }
         data = p_->altitudeConverter->getDataSlice(sb);
-- 
2.43.0


From 50071e6e74157d3b531f09ab3b38d843e91e18f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:19 +0000
Subject: [PATCH 081/144] fix: quality extraction with highest or lowest status
 terminates and finds it

---
 src/CDMQualityExtractor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 6e01c9b..3dbfad2 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -216,14 +216,14 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
     double extreme = MIFI_UNDEFINED_D;
     double* pos = begin;
     // forward to first defined element
-    while ((pos != end) && (!std::isnan(*pos))) {
+    while ((pos != end) && std::isnan(*pos)) {
         ++pos;
     }
     if (pos == end) {
         extreme = MIFI_UNDEFINED_D;
     } else {
         extreme = *pos;
-        while (pos != end) {
+        for (; pos != end; ++pos) {
             if (!std::isnan(*pos)) {
                 extreme = minmax(extreme, *pos);
             }
-- 
2.43.0


From 8b00ae3543b20303123bd719e3293ae1a35e19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:19 +0000
Subject: [PATCH 082/144] fix: automatic configuration of quality extraction
 finds the variables of the status

---
 src/CDMQualityExtractor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 3dbfad2..8e3d71d 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -60,7 +60,7 @@ static vector<string> findCorrespondingVariables(const CDM& cdm, const string& s
         vector<string> parts = tokenize(standardName, " ");
         if (parts.size() >=2) {
             string foreignStandardName = parts[0];
-            vector<string> correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
+            correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
         } else {
             LOG4FIMEX(logger, Logger::WARN, "standard_name "+ standardName + "not suitabale for a status_flag in statusVariable "+ statusVarName);
         }
@@ -87,9 +87,9 @@ static vector<double> getValidValues(const CDM& cdm, const string& statusVarName
             if (autoConfString == "all") {
                 copy(&validData[0], &validData[validSize], back_inserter(validVals));
             } else if (autoConfString == "highest") {
-                validVals[0] = validData[validSize-1];
+                validVals.push_back(validData[validSize-1]);
             } else if (autoConfString == "lowest") {
-                validVals[0] = validData[0];
+                validVals.push_back(validData[0]);
             } else {
                 LOG4FIMEX(logger, Logger::WARN, "unable to interpret autoConfString: "+autoConfString);
             }
-- 
2.43.0


From 5e51f3d8a52432ee448ef275d0acff9020caf7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:19 +0000
Subject: [PATCH 083/144] fix: automatic configuration of quality extraction
 accepts values=

---
 src/CDMQualityExtractor.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 8e3d71d..dbf85bf 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -70,12 +70,20 @@ static vector<string> findCorrespondingVariables(const CDM& cdm, const string& s
     return correspondingVars;
 }
 
-static vector<double> getValidValues(const CDM& cdm, const string& statusVarName, const string& autoConfString, const string& statusAttrName) {
-    vector<double> validVals;
+static string valuesOf(const string& autoConfString)
+{
     std::smatch matches;
     std::regex rgx("values=(.*)");
-    if (std::regex_match(autoConfString, matches, rgx)) {
-        validVals = tokenizeDotted<double>(matches[1], ",");
+    if (std::regex_match(autoConfString, matches, rgx))
+        return matches[1];
+    return string();
+}
+
+static vector<double> getValidValues(const CDM& cdm, const string& statusVarName, const string& autoConfString, const string& statusAttrName) {
+    vector<double> validVals;
+    const string values = valuesOf(autoConfString);
+    if (!values.empty()) {
+        validVals = tokenizeDotted<double>(values, ",");
         if (validVals.size() == 0) {
             LOG4FIMEX(logger, Logger::WARN, "could not find values autoConfString: "+autoConfString);
         }
@@ -112,7 +120,7 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
         allowedString.insert("all");
         allowedString.insert("highest");
         allowedString.insert("lowest");
-        if (allowedString.find(autoConfString) == allowedString.end()) {
+        if (allowedString.find(autoConfString) == allowedString.end() && tokenizeDotted<double>(valuesOf(autoConfString), ",").empty()) {
             throw CDMException("auto-configure-string '"+ autoConfString +"' unknown");
         }
 
-- 
2.43.0


From d8f371f172e73f58993bef3f714ada542430b0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:19 +0000
Subject: [PATCH 084/144] fix: use in the quality configuration file overrides
 the automatic configuration

---
 src/CDMQualityExtractor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index dbf85bf..fdfd1d5 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -212,6 +212,7 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
                 variableValues[varName] = statusVarVals;
             } else if (!statusVarUse.empty()) {
                 variableFlags[varName] = statusVarUse;
+                variableValues.erase(varName); // from automatic configuration
             } else {
                 throw CDMException("unable to quality-assure variable " + varName + ": no use or values given");
             }
-- 
2.43.0


From 7e5a5ecade863ecd2b6a0d3ebec3864437be636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:19 +0000
Subject: [PATCH 085/144] fix: quality extraction also checks variables held in
 memory

---
 src/CDMQualityExtractor.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index fdfd1d5..689a197 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -218,6 +218,10 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
             }
         }
     }
+    for (const auto& vs : statusVariable) {
+        if (cdm_->hasVariable(vs.first))
+            cdm_->getVariable(vs.first).setData(DataPtr()); // always via getDataSlice
+    }
 }
 
 static double findDefinedExtreme(double* begin, double* end, const double& (*minmax)(const double& a, const double& b))
@@ -243,8 +247,6 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
 
 DataPtr CDMQualityExtractor::getDataSlice(const std::string& varName, size_t unLimDimPos)
 {
-    // no change in cdm-data in CDMQualityExtractor, so no need to check for in-memory data
-
     DataPtr data = dataReader->getDataSlice(varName, unLimDimPos);
     // test if variable has quality assignment
     if (statusVariable.find(varName) != statusVariable.end()) {
-- 
2.43.0


From 523737410dddc952e9bfa87bffaf3e00d597f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:47 +0000
Subject: [PATCH 086/144] fix: filling a file converts packing, fill value and
 units to those of the file

---
 src/FillWriter.cc | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index c514159..09ff475 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -35,6 +35,7 @@
 #include "fimex/XMLUtils.h"
 
 #include <algorithm>
+#include <cmath>
 #include <map>
 #include <set>
 #include <utility>
@@ -109,6 +110,29 @@ std::string findFirstUnusableDimension(const std::set<std::string>& unusableDims
     }
     return std::string();
 }
+
+/**
+ * unit of the output variable, if the input data have to be converted to it
+ * @return empty unless input and output have units, and these are different
+ */
+std::string unitForOutput(const CDM& iCdm, const CDM& oCdm, const std::string& varName)
+{
+    const std::string iUnit = iCdm.getUnits(varName), oUnit = oCdm.getUnits(varName);
+    return (iUnit.empty() || iUnit == oUnit) ? std::string() : oUnit;
+}
+
+/**
+ * check if the same physical value is represented by the same number in input and output
+ */
+bool isEquallyPacked(const CDM& iCdm, const CDM& oCdm, const std::string& varName)
+{
+    const CDMDataType iType = iCdm.getVariable(varName).getDataType(), oType = oCdm.getVariable(varName).getDataType();
+    if (iType == CDM_STRING || iType == CDM_STRINGS || oType == CDM_STRING || oType == CDM_STRINGS)
+        return true;
+    const double iFill = iCdm.getFillValue(varName), oFill = oCdm.getFillValue(varName);
+    return (iFill == oFill || (std::isnan(iFill) && std::isnan(oFill))) && iCdm.getScaleFactor(varName) == oCdm.getScaleFactor(varName) &&
+           iCdm.getAddOffset(varName) == oCdm.getAddOffset(varName);
+}
 } // namespace
 
 FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configFileName)
@@ -134,7 +158,9 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
         }
         if (iCdm.hasVariable(iDim.getName()) && oCdm.hasVariable(oDimsIt->getName())) {
             // rewrite coordinate-variables
-            auto iDimData = in->getScaledData(iDim.getName())->asDouble();
+            const auto iDimUnit = unitForOutput(iCdm, oCdm, iDim.getName());
+            auto iDimData =
+                (iDimUnit.empty() ? in->getScaledData(iDim.getName()) : in->getScaledDataInUnit(iDim.getName(), iDimUnit))->asDouble();
             auto oDimData = io->getScaledData(iDim.getName())->asDouble();
             size_t changes = 0;
             size_t unLimCount = 0;
@@ -266,11 +292,18 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             }
         }
 
+        const auto unit = unitForOutput(iCdm, oCdm, iv.getName());
+        const bool equallyPacked = isEquallyPacked(iCdm, oCdm, iv.getName());
         LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with " << slices.size() << " slices");
         for (const auto& slice : slices) {
             LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with:  " << endl << slice.first << endl << slice.second);
-            DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
-            io->putDataSlice(iv.getName(), slice.second, inData);
+            if (!unit.empty()) {
+                io->putScaledDataSlice(iv.getName(), slice.second, in->getScaledDataSliceInUnit(iv.getName(), unit, slice.first));
+            } else if (!equallyPacked) {
+                io->putScaledDataSlice(iv.getName(), slice.second, in->getScaledDataSlice(iv.getName(), slice.first));
+            } else {
+                io->putDataSlice(iv.getName(), slice.second, in->getDataSlice(iv.getName(), slice.first));
+            }
         }
     };
 
-- 
2.43.0


From a108877f0c3a5b075c7cf40c16e0620339ed1da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:48 +0000
Subject: [PATCH 087/144] fix: several NcML aggregations use the first, scanned
 members get distinct coordinate values

---
 src/NcmlAggregationReader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/NcmlAggregationReader.cc b/src/NcmlAggregationReader.cc
index 42dbd35..4e9bfc5 100644
--- a/src/NcmlAggregationReader.cc
+++ b/src/NcmlAggregationReader.cc
@@ -93,9 +93,10 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
             LOG4FIMEX(logger, Logger::DEBUG, "reading file '" << file << "' type '" << type << "' config '" << config << "'");
             reader_ = CDMFileReaderFactory::create(type, file, config);
         }
-    } else if (nodesAgg.size() > 1) {
-        LOG4FIMEX(logger, Logger::WARN, "found several ncml-aggregations in " << ncml.id() << ", using 1st");
     } else {
+        if (nodesAgg.size() > 1) {
+            LOG4FIMEX(logger, Logger::WARN, "found several ncml-aggregations in " << ncml.id() << ", using 1st");
+        }
         const auto aggType = getXmlProp(nodesAgg[0], "type");
         auto agg = std::make_shared<AggregationReader>(aggType);
         const bool aggJoinNew = agg->aggType() == AggregationReader::AGG_JOIN_NEW;
@@ -133,7 +134,6 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
         }
 
         // open reader by scan
-        idx = 0;
         const XPathNodeSet nodesScan(doc, "./nc:scan", nodesAgg[0]);
         for (auto node : nodesScan) {
             const auto dateFormatMark = getXmlProp(node, "dateFormatMark");
@@ -163,11 +163,11 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
                     if (aggJoinNew)
                         coordValue = "location_" + type2string(idx);
                     agg->addReader(CDMFileReaderFactory::create(type, fileName, config), fileName, coordValue);
+                    idx += 1;
                 } catch (CDMException& ex) {
                     LOG4FIMEX(logger, Logger::ERROR, "cannot read scanned file '" << fileName << "' type: " << type << ", config: " << config);
                 }
             }
-            idx += 1;
         }
         agg->initAggregation();
         reader_ = agg;
-- 
2.43.0


From 9efa0434039754447f2c64ad2e1083f480adf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:48 +0000
Subject: [PATCH 088/144] fix: aggregation of in-memory variables, members'
 unlimited dimensions in joinNew, and dimensions of rejected variables

---
 src/AggregationReader.cc | 100 +++++++++++++++++++++++----------------
 1 file changed, 60 insertions(+), 40 deletions(-)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index f8c0bb9..9710961 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -127,9 +127,8 @@ void AggregationReader::addFirstReader(CDMReader_p reader, const std::string& id
             extendJoinedUnLimDimBy(0, "");
         }
     } else if (aggType_ == AGG_JOIN_NEW) {
-        if (const auto* uDim = cdm_->getUnlimitedDim()) {
-            auto& aUdim = cdm_->getDimension(uDim->getName());
-            aUdim.setUnlimited(false);
+        while (const auto* uDim = cdm_->getUnlimitedDim()) {
+            cdm_->getDimension(uDim->getName()).setUnlimited(false);
         }
         CDMDimension joinUdim(joinNewDim, 0);
         joinUdim.setUnlimited(true);
@@ -142,6 +141,7 @@ void AggregationReader::addFirstReader(CDMReader_p reader, const std::string& id
                 auto shape = var.getShape(); // take a copy
                 shape.push_back(joinNewDim);
                 var.setShape(shape);
+                var.setData(nullptr); // must be read from all readers
             }
         }
 
@@ -187,6 +187,45 @@ void copyAttributes(const CDM& from, const std::string& fromVarName, CDM& to)
     }
 }
 
+/**
+ * Check that the dimensions of a variable have the same length and unlimited-ness in both CDMs, and add those missing.
+ *
+ * @param ignoreDim name of a dimension which is not checked or added
+ * @param asLimited consider all dimensions in from as limited
+ * @return false if the dimensions do not fit, without changes
+ */
+bool addVarDimensions(const CDM& from, const CDMVariable& fromVar, CDM& to, const std::string& ignoreDim, bool asLimited, const std::string& id)
+{
+    std::vector<CDMDimension> newDims;
+    for (const auto& dimName : fromVar.getShape()) {
+        if (dimName == ignoreDim)
+            continue;
+        CDMDimension dim = from.getDimension(dimName);
+        if (asLimited)
+            dim.setUnlimited(false);
+        if (to.hasDimension(dimName)) {
+            const CDMDimension& toDim = to.getDimension(dimName);
+            if (toDim.isUnlimited() != dim.isUnlimited()) {
+                LOG4FIMEX(logger, Logger::WARN, fromVar.getName() << " differs in unlimited-ness in " << id);
+                return false;
+            } else if (toDim.getLength() != dim.getLength()) {
+                LOG4FIMEX(logger, Logger::WARN, fromVar.getName() << " differs in length in " << id);
+                return false;
+            }
+        } else if (dim.isUnlimited() && to.getUnlimitedDim()) {
+            LOG4FIMEX(logger, Logger::WARN, "two unlimited dimensions: " << dim.getName() << " at " << id);
+            return false;
+        } else {
+            newDims.push_back(dim);
+        }
+    }
+    for (const auto& dim : newDims) {
+        if (!to.hasDimension(dim.getName()))
+            to.addDimension(dim);
+    }
+    return true;
+}
+
 void copyVar(const CDM& from, const CDMVariable& fromVar, CDM& to)
 {
     to.addVariable(fromVar);
@@ -229,20 +268,7 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
                 if (aCdm.hasVariable(rVar.getName())) {
                     // variable already in CDM from another reader; all other checks in getData
                 } else if (rCdm.hasUnlimitedDim(rVar)) {
-                    bool dimsOk = true;
-                    for (const auto& rDimName : rVar.getShape()) {
-                        if (rDimName == rUdim->getName()) {
-                            continue;
-                        }
-                        if (!aCdm.hasDimension(rDimName)) {
-                            aCdm.addDimension(rCdm.getDimension(rDimName));
-                        } else if (aCdm.getDimension(rDimName).getLength() != rCdm.getDimension(rDimName).getLength()) {
-                            dimsOk = false;
-                            LOG4FIMEX(logger, Logger::DEBUG, "dim '" << rDimName << "' from reader '" << id << "' has length mismatch");
-                        }
-                    }
-
-                    if (dimsOk) {
+                    if (addVarDimensions(rCdm, rVar, aCdm, rUdim->getName(), false, id)) {
                         copyVar(rCdm, rVar, aCdm);
                         const auto& rVarName = rVar.getName();
                         cdm_->getVariable(rVarName).setData(nullptr);
@@ -258,11 +284,12 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
         // for all join variables not known already, copy and change shape
         for (const auto& rVar : rCdm.getVariables()) {
             const auto& varName = rVar.getName();
-            if (!aCdm.hasVariable(varName) && joinVars.count(varName)) {
+            if (!aCdm.hasVariable(varName) && joinVars.count(varName) && addVarDimensions(rCdm, rVar, aCdm, "", true, id)) {
                 auto aVar = rVar;
                 auto shape = rVar.getShape(); // take a copy
                 shape.push_back(joinNewDim);
                 aVar.setShape(shape);
+                aVar.setData(nullptr); // must be read from all readers
                 aCdm.addVariable(aVar);
                 copyAttributes(rCdm, varName, *cdm_);
             }
@@ -287,27 +314,8 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
             continue;
         }
 
-        // check that dimensions of shape have same length
-        bool dimsOk = true;
-        for (const auto& rshpdim : rVar.getShape()) {
-            const auto& rDim = rCdm.getDimension(rshpdim);
-            if (aCdm.hasDimension(rshpdim)) {
-                CDMDimension& dim = aCdm.getDimension(rshpdim);
-                if (dim.isUnlimited() != rDim.isUnlimited()) {
-                    dimsOk = false;
-                    LOG4FIMEX(logger, Logger::WARN, rVar.getName() << " differs in unlimited-ness in " << id);
-                } else if (rDim.getLength() != dim.getLength()) {
-                    dimsOk = false;
-                    LOG4FIMEX(logger, Logger::WARN, rVar.getName() << " differs in length in " << id);
-                }
-            } else if (rDim.isUnlimited() && aCdm.getUnlimitedDim()) {
-                dimsOk = false;
-                LOG4FIMEX(logger, Logger::WARN, "two unlimited dimensions: " << rDim.getName() << " at " << id);
-            } else {
-                aCdm.addDimension(rDim); // FIXME this should wait until all dims are checked
-            }
-        }
-        if (dimsOk) {
+        // check that dimensions of shape have same length; joinNew has only the new dimension as unlimited dimension
+        if (addVarDimensions(rCdm, rVar, aCdm, "", aggType_ == AGG_JOIN_NEW, id)) {
             LOG4FIMEX(logger, Logger::DEBUG, "adding union var '" << rVarName << "' from reader '" << id << "'");
             unionReaders_[rVarName] = readerIndex;
             copyVar(rCdm, rVar, aCdm);
@@ -320,6 +328,11 @@ void AggregationReader::initAggregation()
     if (joinCoordValues.empty()) {
         return;
     }
+    if (joinCoordValues.size() != readerUdimPos_.back()) {
+        std::ostringstream msg;
+        msg << "found " << joinCoordValues.size() << " coordValues for " << readerUdimPos_.back() << " positions of the joined dimension";
+        throw CDMException(msg.str());
+    }
     if (aggType_ == AGG_JOIN_NEW) {
         CDMDataType joinDataType = CDM_DOUBLE;
         DataPtr joinData;
@@ -447,7 +460,9 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
                     // set everything to fillValue
                     size_t unLimSliceSize = 1;
                     for (const auto& dim : aVar.getShape()) {
-                        unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        if (dim != joinNewDim) {
+                            unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        }
                     }
                     return createData(aVar.getDataType(), unLimSliceSize, cdm_->getFillValue(varName));
                 }
@@ -459,6 +474,11 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
 
     // all other variables behave as for "union"
     if (auto rd = findUnionReader(varName)) {
+        const CDM& rCdm = rd->getCDM();
+        if (rCdm.hasUnlimitedDim(rCdm.getVariable(varName)) && !cdm_->hasUnlimitedDim(aVar)) {
+            // not unlimited in the aggregation, read everything
+            return rd->getDataSlice(varName, SliceBuilder(rCdm, varName));
+        }
         return rd->getDataSlice(varName, unLimDimPos);
     }
 
-- 
2.43.0


From ff0d7aac645609e3f45d684a8dffddc3eabf6076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:03 +0000
Subject: [PATCH 089/144] fix: NcML renaming of an attribute to the name of
 another attribute

---
 src/NcmlCDMReader.cc | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 6642c75..7bb838a 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -491,6 +491,18 @@ void NcmlCDMReader::initDimensionUnlimited()
 }
 
 
+namespace {
+void renameAttribute(CDM& cdm, const std::string& varName, const std::string& orgName, const std::string& name)
+{
+    CDMAttribute attr;
+    if (cdm.getAttribute(varName, orgName, attr)) {
+        cdm.removeAttribute(varName, orgName);
+        attr.setName(name);
+        cdm.addOrReplaceAttribute(varName, attr); // replace other attributes with same name
+    } // else: no such attribute, don't care
+}
+} // namespace
+
 /* change the attribute names */
 void NcmlCDMReader::initAttributeNameChange()
 {
@@ -500,13 +512,7 @@ void NcmlCDMReader::initAttributeNameChange()
             std::string name = getXmlProp(node, "name");
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
-            try {
-                CDMAttribute& attr = cdm_->getAttribute(CDM::globalAttributeNS(), orgName);
-                cdm_->removeAttribute(CDM::globalAttributeNS(), name); // remove other attributes with same name
-                attr.setName(name);
-            } catch (CDMException& ex) {
-                // no such attribute, don't care
-            }
+            renameAttribute(*cdm_, CDM::globalAttributeNS(), orgName, name);
         }
     }
     { /* the variable attributes */
@@ -516,14 +522,7 @@ void NcmlCDMReader::initAttributeNameChange()
             std::string name = getXmlProp(node, "name");
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
-            try {
-                CDMAttribute& attr = cdm_->getAttribute(varName, orgName);
-                cdm_->removeAttribute(varName, name); // remove other attributes with same name
-                attr.setName(name);
-
-            } catch (CDMException& ex) {
-                // no such attribute, don't care
-            }
+            renameAttribute(*cdm_, varName, orgName, name);
         }
     }
 }
-- 
2.43.0


From a98b5b34dbb7b90a3f0edb8d5da07a9f3a4da236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:29 +0000
Subject: [PATCH 090/144] fix: NcML exchange of variable or dimension names

---
 src/NcmlCDMReader.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 7bb838a..37ff6c4 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -36,6 +36,7 @@
 #include "fimex/MutexLock.h"
 #include "fimex/SliceBuilder.h"
 #include "fimex/StringUtils.h"
+#include "fimex/Type2String.h"
 #include "fimex/XMLDoc.h"
 #include "fimex/XMLInput.h"
 #include "fimex/XMLUtils.h"
@@ -398,19 +399,32 @@ void NcmlCDMReader::initAddReassignAttribute()
     }
 }
 
+namespace {
+/// intermediate name, to allow exchanging names
+std::string intermediateName(size_t idx)
+{
+    return "__ncml_rename_" + type2string(idx);
+}
+} // namespace
+
 /* change the variable names */
 void NcmlCDMReader::initVariableNameChange()
 {
+    std::vector<std::string> newNames;
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:variable[@orgName]")) {
         std::string orgName = getXmlProp(node, "orgName");
         if (cdm_->hasVariable(orgName)) {
             std::string name = getXmlProp(node, "name");
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for variable with orgName: " + orgName);
-            cdm_->renameVariable(orgName, name);
+            cdm_->renameVariable(orgName, intermediateName(newNames.size()));
+            newNames.push_back(name);
             variableNameChanges[name] = orgName;
         }
     }
+    for (size_t i = 0; i < newNames.size(); ++i) {
+        cdm_->renameVariable(intermediateName(i), newNames[i]);
+    }
 
     // add variables not existing yet
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:variable[not(@orgName)]")) {
@@ -428,6 +442,7 @@ void NcmlCDMReader::initVariableNameChange()
 /* change the dimension names */
 void NcmlCDMReader::initDimensionNameChange()
 {
+    std::vector<std::pair<std::string, bool>> newNames;
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:dimension[@orgName]")) {
         std::string orgName = getXmlProp(node, "orgName");
         if (cdm_->hasDimension(orgName)) {
@@ -435,10 +450,14 @@ void NcmlCDMReader::initDimensionNameChange()
             if (newName.empty())
                 throw CDMException("ncml-file "+ configId + " has no new name for dimension with orgName: '" + orgName + "'");
             bool overwrite = (getXmlProp(node, "overwriteName") == "true");
-            cdm_->renameDimension(orgName, newName, overwrite);
+            cdm_->renameDimension(orgName, intermediateName(newNames.size()), false);
+            newNames.push_back(std::make_pair(newName, overwrite));
             dimensionNameChanges[orgName] = newName;
         }
     }
+    for (size_t i = 0; i < newNames.size(); ++i) {
+        cdm_->renameDimension(intermediateName(i), newNames[i].first, newNames[i].second);
+    }
     // add dimensions not existing
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:dimension[@length]")) {
         std::string name = getXmlProp(node, "name");
-- 
2.43.0


From 7d01481b7b2f45226968dae4937779d2a079f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:29 +0000
Subject: [PATCH 091/144] fix: NcML _Unsigned attribute of a variable

---
 src/NcmlCDMReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 37ff6c4..d4460cb 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -242,7 +242,7 @@ void NcmlCDMReader::initVariableTypeChange()
         if (name.empty())
             throw CDMException("ncml-file " + configId + " has no name for variable");
 
-        const XPathNodeSet nodes_att_unsigned(doc, "/nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
+        const XPathNodeSet nodes_att_unsigned(doc, "./nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
         bool att_unsigned = false;
         if (nodes_att_unsigned.size() == 1) {
             std::string att_unsigned_val = getXmlProp(nodes_att_unsigned.at(0), "value");
-- 
2.43.0


From aa4db949e5c35824f6aea43ae0dd7a3b35bd4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:29 +0000
Subject: [PATCH 092/144] fix: NcML values with start and increment for an
 empty variable

---
 src/NcmlCDMReader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index d4460cb..f55ef34 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -299,10 +299,10 @@ void NcmlCDMReader::initVariableDataChange()
                 LOG_ERROR_THROW("values element must have either 'start' and 'increment' or a value list as content");
             } else if (have_start_inc) {
                 shared_array<double> array(new double[dataSize]);
-                array[0] = string2type<double>(start);
+                const double first = string2type<double>(start);
                 const double step = string2type<double>(increment);
-                for (size_t i = 1; i < dataSize; ++i) {
-                    array[i] = array[0] + i * step;
+                for (size_t i = 0; i < dataSize; ++i) {
+                    array[i] = first + i * step;
                 }
                 var.setData(convertValues(*createData(dataSize, array), var.getDataType()));
             } else {
-- 
2.43.0


From 5fbf1901549d8b554d4a2776f7d5ea6d16c06d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:29 +0000
Subject: [PATCH 093/144] fix: NcML unlimited dimension: prefetch the variable
 itself

---
 src/NcmlCDMReader.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index f55ef34..9ff9bc4 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -481,20 +481,17 @@ void NcmlCDMReader::initDimensionUnlimited()
 {
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:dimension[@isUnlimited]")) {
         std::string name = getXmlProp(node, "name");
-        std::string orgName = getXmlProp(node, "orgName");
-        if (orgName.empty())
-            orgName = name;
         std::string isUnlimited = getXmlProp(node, "isUnlimited");
         if (cdm_->hasDimension(name)) {
             CDMDimension& dim = cdm_->getDimension(name);
             if (isUnlimited == "true") {
                 if (!dim.isUnlimited()) {
                     cdm_->getDimension(name).setUnlimited(1);
-                    // prefetch the data of that variable
+                    // prefetch the data of that variable; variables are renamed later
                     if (cdm_->hasVariable(name)) {
                         CDMVariable& var = cdm_->getVariable(name);
                         if (!var.hasData()) {
-                            var.setData(dataReader->getData(orgName));
+                            var.setData(dataReader->getData(name));
                         }
                     }
                 }
-- 
2.43.0


From 4d6931ec7d0ab059f4080192146a09851090f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:49 +0000
Subject: [PATCH 094/144] fix: fill values that the integer type cannot
 represent do not hide valid values

---
 include/fimex/DataUtils.h | 74 ++++++++++++++++++++++++++++++++-------
 1 file changed, 61 insertions(+), 13 deletions(-)

diff --git a/include/fimex/DataUtils.h b/include/fimex/DataUtils.h
index 22fa518..9782db3 100644
--- a/include/fimex/DataUtils.h
+++ b/include/fimex/DataUtils.h
@@ -30,8 +30,56 @@
 #include "fimex/CDMDataType.h"
 #include "fimex/DataDecl.h"
 
+#include <limits>
+
 namespace MetNoFimex {
 
+/**
+ * Compare to a fill value given as double. A fill value that cannot be represented by T (e.g. NaN) is never found.
+ */
+template <typename T, bool INTEGER>
+class FillValueMatcher;
+
+template <typename T>
+class FillValueMatcher<T, false>
+{
+    T fill_;
+
+public:
+    explicit FillValueMatcher(double fill)
+        : fill_(static_cast<T>(fill))
+    {
+    }
+    bool operator()(const T& value) const { return value == fill_ || mifi_isnan<T>(value); }
+};
+
+template <typename T>
+class FillValueMatcher<T, true>
+{
+    double fill_;
+
+public:
+    explicit FillValueMatcher(double fill)
+        : fill_(fill)
+    {
+    }
+    bool operator()(const T& value) const { return static_cast<double>(value) == fill_; }
+};
+
+/**
+ * Convert a fill value given as double, avoiding overflow: the default 64 bit fill values are rounded as double.
+ */
+template <typename T>
+T fillValueCast(double fill)
+{
+    typedef std::numeric_limits<T> limits;
+    if (limits::is_integer && fill >= static_cast<double>(limits::max()))
+        return limits::max();
+    if (limits::is_integer && fill <= static_cast<double>(limits::min()))
+        return limits::min();
+    return static_cast<T>(fill);
+}
+
 /**
  * Scale a value using fill, offset and scale
  */
@@ -39,22 +87,22 @@ template <typename IN, typename OUT>
 class ScaleValue
 {
 private:
-    IN oldFill_;
+    FillValueMatcher<IN, std::numeric_limits<IN>::is_integer> isOldFill_;
     double oldScaleNewScaleInv_;
     double oldOffsetMinusNewOffsetNewScaleInv_;
     OUT newFill_;
 
 public:
     ScaleValue(double oldFill, double oldScale, double oldOffset, double newFill, double newScale, double newOffset)
-        : oldFill_(static_cast<IN>(oldFill))
+        : isOldFill_(oldFill)
         , oldScaleNewScaleInv_(oldScale / newScale)
         , oldOffsetMinusNewOffsetNewScaleInv_((oldOffset - newOffset) / newScale)
-        , newFill_(static_cast<OUT>(newFill))
+        , newFill_(fillValueCast<OUT>(newFill))
     {
     }
     OUT operator()(const IN& in) const
     {
-        return (in == oldFill_ || mifi_isnan<IN>(in)) ? newFill_ : data_caster<OUT, double>()(oldScaleNewScaleInv_ * in + oldOffsetMinusNewOffsetNewScaleInv_);
+        return isOldFill_(in) ? newFill_ : data_caster<OUT, double>()(oldScaleNewScaleInv_ * in + oldOffsetMinusNewOffsetNewScaleInv_);
         //(((oldScale_*in + oldOffset_)-newOffset_)/newScale_);
         // => ((oldScale_*in + oldOffsetMinusNewOffset_)*newScaleInv_);
         // => oldScaleNewScale_ * in + oldOffsetMinusNewOffsetNewScale_
@@ -68,7 +116,7 @@ template <typename IN, typename OUT>
 class ScaleValueUnits
 {
 private:
-    IN oldFill_;
+    FillValueMatcher<IN, std::numeric_limits<IN>::is_integer> isOldFill_;
     double oldScale_;
     double oldOffset_;
     UnitsConverter_p uconv_;
@@ -78,19 +126,19 @@ private:
 
 public:
     ScaleValueUnits(double oldFill, double oldScale, double oldOffset, UnitsConverter_p uconv, double newFill, double newScale, double newOffset)
-        : oldFill_(static_cast<IN>(oldFill))
+        : isOldFill_(oldFill)
         , oldScale_(oldScale)
         , oldOffset_(oldOffset)
         , uconv_(uconv)
-        , newFill_(static_cast<OUT>(newFill))
+        , newFill_(fillValueCast<OUT>(newFill))
         , newScaleInv_(1 / newScale)
         , newOffset_(newOffset)
     {
     }
     OUT operator()(const IN& in) const
     {
-        return (in == oldFill_ || mifi_isnan<IN>(in)) ? newFill_
-                                                      : data_caster<OUT, double>()((uconv_->convert(oldScale_ * in + oldOffset_) - newOffset_) * newScaleInv_);
+        return isOldFill_(in) ? newFill_
+                              : data_caster<OUT, double>()((uconv_->convert(oldScale_ * in + oldOffset_) - newOffset_) * newScaleInv_);
     }
 };
 
@@ -101,16 +149,16 @@ template <typename IN, typename OUT>
 class ChangeMissingValue
 {
 private:
-    IN oldFill_;
+    FillValueMatcher<IN, std::numeric_limits<IN>::is_integer> isOldFill_;
     OUT newFill_;
 
 public:
     ChangeMissingValue(double oldFill, double newFill)
-        : oldFill_(static_cast<IN>(oldFill))
-        , newFill_(static_cast<OUT>(newFill))
+        : isOldFill_(oldFill)
+        , newFill_(fillValueCast<OUT>(newFill))
     {
     }
-    OUT operator()(const IN& in) const { return (in == oldFill_ || mifi_isnan(in)) ? newFill_ : static_cast<OUT>(in); }
+    OUT operator()(const IN& in) const { return isOldFill_(in) ? newFill_ : static_cast<OUT>(in); }
 };
 
 DataPtr initDataByArray(CDMDataType datatype, const std::vector<std::string>& values);
-- 
2.43.0


From ccfbcb9ad65fe99e68442fc3c04f20b98402bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:11 +0000
Subject: [PATCH 095/144] fix: CDMNameCompare is a strict weak ordering

---
 include/fimex/CDMNamedEntity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fimex/CDMNamedEntity.h b/include/fimex/CDMNamedEntity.h
index 12e1ebc..1d197bf 100644
--- a/include/fimex/CDMNamedEntity.h
+++ b/include/fimex/CDMNamedEntity.h
@@ -49,7 +49,7 @@ public:
 struct CDMNameCompare
 {
 public:
-    int operator()(const CDMNamedEntity& e1, const CDMNamedEntity& e2) {return e1.getName().compare(e2.getName());}
+    bool operator()(const CDMNamedEntity& e1, const CDMNamedEntity& e2) const { return e1.getName() < e2.getName(); }
 };
 
 /**
-- 
2.43.0


From 81646c9f3c9c55925da6e9b12266da78ab2ac1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:11 +0000
Subject: [PATCH 096/144] fix: polar stereographic projection from a proj4
 string without lon_0

---
 src/coordSys/PolarStereographicProjection.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/coordSys/PolarStereographicProjection.cc b/src/coordSys/PolarStereographicProjection.cc
index 336b84e..0f25a30 100644
--- a/src/coordSys/PolarStereographicProjection.cc
+++ b/src/coordSys/PolarStereographicProjection.cc
@@ -67,10 +67,12 @@ std::vector<CDMAttribute> PolarStereographicProjection::parametersFromProj4(cons
 
     // switch longitude_of_projection_origin to straight_vertical_longitude_from_pole
     found = find_if(attrs.begin(), attrs.end(), CDMNameEqual("longitude_of_projection_origin"));
-    if (found == attrs.end())
-        throw CDMException("no longitude_of_projection_origin for PolarStereographicProjection");
-    double lonVal = found->getData()->asDouble()[0];
-    *found = CDMAttribute("straight_vertical_longitude_from_pole", lonVal);
+    if (found == attrs.end()) {
+        attrs.push_back(CDMAttribute("straight_vertical_longitude_from_pole", 0.)); // default in proj4
+    } else {
+        double lonVal = found->getData()->asDouble()[0];
+        *found = CDMAttribute("straight_vertical_longitude_from_pole", lonVal);
+    }
 
     return attrs;
 }
-- 
2.43.0


From cf4890cbd7a1fdeea2a1d031696e2c8ff20611d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:41 +0000
Subject: [PATCH 097/144] fix: second standard parallel and precision of conic
 projections in proj4 strings

---
 src/coordSys/AlbersConicalEqualAreaProjection.cc | 12 ++++++------
 src/coordSys/LambertConformalConicProjection.cc  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/coordSys/AlbersConicalEqualAreaProjection.cc b/src/coordSys/AlbersConicalEqualAreaProjection.cc
index b58b334..92d0720 100644
--- a/src/coordSys/AlbersConicalEqualAreaProjection.cc
+++ b/src/coordSys/AlbersConicalEqualAreaProjection.cc
@@ -29,6 +29,7 @@
 #include "fimex/Data.h"
 #include "fimex/String2Type.h"
 
+#include <limits>
 #include <regex>
 
 namespace MetNoFimex {
@@ -91,12 +92,11 @@ std::ostream& AlbersConicalEqualAreaProjection::getProj4ProjectionPart(std::ostr
     if (foundAttr != params_.end()) {
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
-        oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
-            oproj << " +lat_2=" << spData->asDouble()[1];
-        } else {
-            oproj << " +lat_2=" << spData->asDouble()[0];
-        }
+        const double lat1 = spData->getDouble(0);
+        const double lat2 = (spData->size() > 1) ? spData->getDouble(1) : lat1;
+        const std::streamsize precision = oproj.precision(std::numeric_limits<double>::digits10 + 1);
+        oproj << " +lat_1=" << lat1 << " +lat_2=" << lat2;
+        oproj.precision(precision);
     } else {
         oproj << " +lat_1=0 +lat_2=0";
     }
diff --git a/src/coordSys/LambertConformalConicProjection.cc b/src/coordSys/LambertConformalConicProjection.cc
index 4b8fd08..94c46c6 100644
--- a/src/coordSys/LambertConformalConicProjection.cc
+++ b/src/coordSys/LambertConformalConicProjection.cc
@@ -27,6 +27,7 @@
 #include "fimex/coordSys/LambertConformalConicProjection.h"
 #include "fimex/Data.h"
 #include "fimex/String2Type.h"
+#include <limits>
 #include <regex>
 
 namespace MetNoFimex {
@@ -89,12 +90,11 @@ std::ostream& LambertConformalConicProjection::getProj4ProjectionPart(std::ostre
     if (foundAttr != params_.end()) {
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
-        oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
-            oproj << " +lat_2=" << spData->asDouble()[1];
-        } else {
-            oproj << " +lat_2=" << spData->asDouble()[0];
-        }
+        const double lat1 = spData->getDouble(0);
+        const double lat2 = (spData->size() > 1) ? spData->getDouble(1) : lat1;
+        const std::streamsize precision = oproj.precision(std::numeric_limits<double>::digits10 + 1);
+        oproj << " +lat_1=" << lat1 << " +lat_2=" << lat2;
+        oproj.precision(precision);
     } else {
         oproj << " +lat_1=0 +lat_2=0";
     }
-- 
2.43.0


From e332e2970907a78a8725f66622cae94c2b0b1b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:41 +0000
Subject: [PATCH 098/144] fix: proj4 defaults of conic projections with one
 standard parallel

---
 src/coordSys/AlbersConicalEqualAreaProjection.cc | 15 +++++++--------
 src/coordSys/LambertConformalConicProjection.cc  |  3 ++-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/coordSys/AlbersConicalEqualAreaProjection.cc b/src/coordSys/AlbersConicalEqualAreaProjection.cc
index 92d0720..ca87119 100644
--- a/src/coordSys/AlbersConicalEqualAreaProjection.cc
+++ b/src/coordSys/AlbersConicalEqualAreaProjection.cc
@@ -57,16 +57,15 @@ std::vector<CDMAttribute> AlbersConicalEqualAreaProjection::parametersFromProj4(
     std::smatch what;
     if (std::regex_search(proj4Str, what, std::regex("\\+lat_1=(\\S+)"))) {
         double lat1 = string2type<double>(what[1].str());
+        double lat2 = 0; // default in proj4
         if (std::regex_search(proj4Str, what, std::regex("\\+lat_2=(\\S+)"))) {
-            double lat2 = string2type<double>(what[1].str());
-
-            DataPtr stdParallels = createData(CDM_DOUBLE, 2);
-            stdParallels->setValue(0, lat1);
-            stdParallels->setValue(1, lat2);
-            attrs.push_back(CDMAttribute("standard_parallel", stdParallels));
-        } else {
-            attrs.push_back(CDMAttribute("standard_parallel", lat1));
+            lat2 = string2type<double>(what[1].str());
         }
+
+        DataPtr stdParallels = createData(CDM_DOUBLE, 2);
+        stdParallels->setValue(0, lat1);
+        stdParallels->setValue(1, lat2);
+        attrs.push_back(CDMAttribute("standard_parallel", stdParallels));
     }
 
     double lon0 = 0.;
diff --git a/src/coordSys/LambertConformalConicProjection.cc b/src/coordSys/LambertConformalConicProjection.cc
index 94c46c6..91bb59b 100644
--- a/src/coordSys/LambertConformalConicProjection.cc
+++ b/src/coordSys/LambertConformalConicProjection.cc
@@ -52,6 +52,7 @@ std::vector<CDMAttribute> LambertConformalConicProjection::parametersFromProj4(c
 
     attrs.push_back(CDMAttribute("grid_mapping_name", "lambert_conformal_conic"));
 
+    double lat0 = 0.;
     std::smatch what;
     if (std::regex_search(proj4Str, what, std::regex("\\+lat_1=(\\S+)"))) {
         double lat1 = string2type<double>(what[1].str());
@@ -64,6 +65,7 @@ std::vector<CDMAttribute> LambertConformalConicProjection::parametersFromProj4(c
             attrs.push_back(CDMAttribute("standard_parallel", stdParallels));
         } else {
             attrs.push_back(CDMAttribute("standard_parallel", lat1));
+            lat0 = lat1; // default in proj4
         }
     }
 
@@ -73,7 +75,6 @@ std::vector<CDMAttribute> LambertConformalConicProjection::parametersFromProj4(c
     }
     attrs.push_back(CDMAttribute("longitude_of_central_meridian", lon0));
 
-    double lat0 = 0.;
     if (std::regex_search(proj4Str, what, std::regex("\\+lat_0=(\\S+)"))) {
         lat0 = string2type<double>(what[1].str());
     }
-- 
2.43.0


From 71324ebf71248db0434c2c302ecda1b852a9f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:41 +0000
Subject: [PATCH 099/144] fix: precision and grid longitude of the rotated pole

---
 src/coordSys/RotatedLatitudeLongitudeProjection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coordSys/RotatedLatitudeLongitudeProjection.cc b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
index 44bb09a..92a08dc 100644
--- a/src/coordSys/RotatedLatitudeLongitudeProjection.cc
+++ b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
@@ -29,6 +29,7 @@
 #include "fimex/MathUtils.h"
 #include "fimex/String2Type.h"
 
+#include <limits>
 #include <regex>
 
 namespace MetNoFimex {
@@ -81,7 +82,7 @@ std::vector<CDMAttribute> RotatedLatitudeLongitudeProjection::parametersFromProj
     }
     attrs.push_back(CDMAttribute("grid_north_pole_longitude", normalizeLongitude180(180+north_pole_lon)));
     attrs.push_back(CDMAttribute("grid_north_pole_latitude", north_pole_lat));
-    if (north_pole_grid_lon > 1e-4) { //optional
+    if (north_pole_grid_lon != 0) { // optional
         attrs.push_back(CDMAttribute("north_pole_grid_longitude", north_pole_grid_lon));
     }
 
@@ -95,7 +96,9 @@ std::ostream& RotatedLatitudeLongitudeProjection::getProj4ProjectionPart(std::os
     std::vector<CDMAttribute>::const_iterator foundAttr = std::find_if(params_.begin(), params_.end(), CDMNameEqual("grid_north_pole_longitude"));
     if (foundAttr != params_.end()) {
         if (foundAttr->getData()->size() > 0) {
+            const std::streamsize precision = oproj.precision(std::numeric_limits<double>::digits10 + 1);
             oproj << " +lon_0=" << (foundAttr->getData()->asDouble()[0]-180);
+            oproj.precision(precision);
         }
     }
     addParameterToStream(oproj, "grid_north_pole_latitude", " +o_lat_p=");
-- 
2.43.0


From 3052240b1f1359c0e85a9603b68b82f048b423eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:41 +0000
Subject: [PATCH 100/144] fix: sweep axis of the geostationary projection

---
 src/coordSys/GeostationaryProjection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/GeostationaryProjection.cc b/src/coordSys/GeostationaryProjection.cc
index 98da4e5..529807d 100644
--- a/src/coordSys/GeostationaryProjection.cc
+++ b/src/coordSys/GeostationaryProjection.cc
@@ -75,7 +75,7 @@ std::vector<CDMAttribute> GeostationaryProjection::parametersFromProj4(const std
     if (std::regex_search(proj4Str, what, std::regex("\\+sweep=(\\S+)"))) {
         sweep = what[1].str();
     }
-    attrs.push_back(CDMAttribute("sweep_axis", sweep));
+    attrs.push_back(CDMAttribute("sweep_angle_axis", sweep));
 
     proj4GetEarthAttributes(proj4Str, attrs);
     return attrs;
-- 
2.43.0


From cf0e0a7f37faa8013d813f2a30e21dfa18e2465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:04 +0000
Subject: [PATCH 101/144] fix: utm with fractional or negative lon_0, replacing
 an earth figure given by flattening

---
 src/coordSys/Projection.cc                   | 3 +++
 src/coordSys/TransverseMercatorProjection.cc | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coordSys/Projection.cc b/src/coordSys/Projection.cc
index f70eb71..1c45a23 100644
--- a/src/coordSys/Projection.cc
+++ b/src/coordSys/Projection.cc
@@ -214,6 +214,9 @@ std::string replaceProj4Earthfigure(const std::string& proj4, const std::string&
         if (parts.at(i).find("+a=") != string::npos) continue;
         if (parts.at(i).find("+b=") != string::npos) continue;
         if (parts.at(i).find("+e=") != string::npos) continue;
+        if (parts.at(i).find("+es=") != string::npos) continue;
+        if (parts.at(i).find("+f=") != string::npos) continue;
+        if (parts.at(i).find("+rf=") != string::npos) continue;
         if (parts.at(i).find("+R=") != string::npos) continue;
         if (parts.at(i).find("+ellps=") != string::npos) continue;
         if (parts.at(i).find("+datum=") != string::npos) continue;
diff --git a/src/coordSys/TransverseMercatorProjection.cc b/src/coordSys/TransverseMercatorProjection.cc
index 56fb439..f0680a1 100644
--- a/src/coordSys/TransverseMercatorProjection.cc
+++ b/src/coordSys/TransverseMercatorProjection.cc
@@ -70,7 +70,7 @@ std::vector<CDMAttribute> TransverseMercatorProjection::parametersFromProj4(cons
             attrs.push_back(CDMAttribute("longitude_of_central_meridian", longOfProjOrigin));
         }
         // some people use utm with lon_0 instead of zone
-        if (std::regex_search(proj4Str, what, std::regex("\\+lon_0=(\\d+|\\d+\\.\\d+)"))) {
+        if (std::regex_search(proj4Str, what, std::regex("\\+lon_0=(\\S+)"))) {
             longOfProjOrigin = string2type<double>(what[1].str());
             attrs.push_back(CDMAttribute("longitude_of_central_meridian", longOfProjOrigin));
         }
-- 
2.43.0


From 5409c688f203190195bf693210332e1ecbcb9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:04 +0000
Subject: [PATCH 102/144] fix: earth figures given by flattening or squared
 eccentricity

---
 src/coordSys/ProjectionImpl.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 0b48e50..bb826c8 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -245,6 +245,14 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
         } else if (std::regex_search(proj4Str, what, std::regex("\\+b=(\\S+)"))) {
             attrList.push_back(CDMAttribute("semi_major_axis", major_axis));
             attrList.push_back(CDMAttribute("semi_minor_axis", string2type<double>(what[1].str())));
+        } else if (std::regex_search(proj4Str, what, std::regex("\\+es=(\\S+)"))) {
+            const double ecc2 = string2type<double>(what[1].str());
+            attrList.push_back(CDMAttribute("semi_minor_axis", major_axis * sqrt(1 - ecc2)));
+        } else if (std::regex_search(proj4Str, what, std::regex("\\+f=(\\S+)"))) {
+            const double flattening = string2type<double>(what[1].str());
+            attrList.push_back(CDMAttribute("semi_minor_axis", major_axis * (1 - flattening)));
+        } else if (std::regex_search(proj4Str, what, std::regex("\\+rf=(\\S+)"))) {
+            attrList.push_back(CDMAttribute("inverse_flattening", string2type<double>(what[1].str())));
         } else {
             attrList.push_back(CDMAttribute("earth_radius", major_axis));
         }
-- 
2.43.0


From 45e4d3605355dd5651d0b0150407d7a8c8a2d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:04 +0000
Subject: [PATCH 103/144] fix: semi minor axis of the international 1924
 ellipsoid

---
 src/coordSys/ProjectionImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index bb826c8..196b02b 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -285,7 +285,7 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
             attrList.push_back(CDMAttribute("semi_minor_axis", 6356751.9));
         } else if (ellps == "intl") { // international 1924 / hayford 1909
             attrList.push_back(CDMAttribute("semi_major_axis", 6378388.0));
-            attrList.push_back(CDMAttribute("semi_minor_axis", 6356909.0));
+            attrList.push_back(CDMAttribute("inverse_flattening", 297.0));
         } else if (ellps == "bessel") { // Bessel 1841
             attrList.push_back(CDMAttribute("semi_major_axis", 6377397.155));
             attrList.push_back(CDMAttribute("inverse_flattening", 299.1528128));
-- 
2.43.0


From 59dc533e34009ac61820edc209870f9ff1ba5d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:04 +0000
Subject: [PATCH 104/144] fix: further ellipsoids used in proj4 strings

---
 src/coordSys/ProjectionImpl.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 196b02b..3de3950 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -289,6 +289,17 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
         } else if (ellps == "bessel") { // Bessel 1841
             attrList.push_back(CDMAttribute("semi_major_axis", 6377397.155));
             attrList.push_back(CDMAttribute("inverse_flattening", 299.1528128));
+        } else if (ellps == "clrk66") { // same as nad27
+            attrList.push_back(CDMAttribute("semi_major_axis", 6378206.4));
+            attrList.push_back(CDMAttribute("semi_minor_axis", 6356583.8));
+        } else if (ellps == "airy") { // Airy 1830
+            attrList.push_back(CDMAttribute("semi_major_axis", 6377563.396));
+            attrList.push_back(CDMAttribute("inverse_flattening", 299.3249646));
+        } else if (ellps == "krass") { // Krassovsky 1942
+            attrList.push_back(CDMAttribute("semi_major_axis", 6378245.0));
+            attrList.push_back(CDMAttribute("inverse_flattening", 298.3));
+        } else if (ellps == "sphere") {
+            attrList.push_back(CDMAttribute("earth_radius", 6370997.0));
         }
     }
 
-- 
2.43.0


From e298dd704089c88c3beaa6ade3adaf271b433f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:43 +0000
Subject: [PATCH 105/144] fix: forward interpolation called from several
 threads

The aggregator is state of a single aggregation; it was shared by all calls.
---
 src/CachedForwardInterpolation.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 59878e1..e72b379 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -56,6 +56,7 @@ struct Aggregator
     virtual ~Aggregator();
     virtual void push(float f) = 0;
     virtual float get_and_reset() = 0;
+    virtual std::unique_ptr<Aggregator> clone() const = 0;
 };
 
 Aggregator::~Aggregator() {}
@@ -78,6 +79,7 @@ struct AggSimple : Aggregator
 
 struct AggSum : AggSimple
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggSum(*this)); }
     void push(float f) override
     {
         count += 1;
@@ -87,11 +89,13 @@ struct AggSum : AggSimple
 
 struct AggMean : AggSum
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMean(*this)); }
     float get_and_reset() override { return reset(count > 0 ? val / count : 0); }
 };
 
 struct AggMin : AggSimple
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMin(*this)); }
     void push(float f) override
     {
         if (count == 0 || f < val)
@@ -102,6 +106,7 @@ struct AggMin : AggSimple
 
 struct AggMax : AggSimple
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMax(*this)); }
     void push(float f) override
     {
         if (count == 0 || f > val)
@@ -114,6 +119,7 @@ struct AggMedian : Aggregator
 {
     std::vector<float> values;
     AggMedian(size_t n) { values.reserve(n); }
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMedian(values.capacity())); }
     void push(float f) override { values.push_back(f); }
     float get_and_reset() override;
 };
@@ -209,6 +215,7 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
     size_t inZ = size / inLayerSize;
     newSize = outLayerSize*inZ;
     auto outData = make_shared_array<float>(newSize);
+    const std::unique_ptr<Aggregator> aggregator = agg->clone(); // might be called from several threads
     for (size_t z = 0; z < inZ; ++z) {
         const float* inDataLayer = &inData[z * inLayerSize];
         float* outDataIt = &outData[z*outLayerSize];
@@ -217,11 +224,11 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
             for (size_t ii : pointsInIn[i]) {
                 const float val = inDataLayer[ii];
                 if (!mifi_isnan(val))
-                    agg->push(val);
+                    aggregator->push(val);
                 else if (undefAggr)
                     undefined = true;
             }
-            const float aggregated = agg->get_and_reset();
+            const float aggregated = aggregator->get_and_reset();
             *outDataIt++ = undefined ? MIFI_UNDEFINED_F : aggregated;
         }
     }
-- 
2.43.0


From 6b0370ad56c8107ca8d8d94d5645f0d6a1b548a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:55 +0000
Subject: [PATCH 106/144] fix: accumulation called from several threads

The cache of the last slice was used without lock.
---
 src/CDMProcessor.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 3837ff3..431714c 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -34,6 +34,7 @@
 #include "fimex/CachedVectorReprojection.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
+#include "fimex/MutexLock.h"
 #include "fimex/Type2String.h"
 #include "fimex/coordSys/CoordinateAxis.h"
 #include "fimex/coordSys/CoordinateSystem.h"
@@ -104,6 +105,7 @@ struct CDMProcessor::CDMProcessorImpl
     // reprojectionId (see below) -> cachedVectorReprojection
     map<string, CachedVectorReprojection_p> cachedVectorReprojection;
     SliceCache sliceCache;
+    OmpMutex sliceCacheMutex; // getDataSlice might be called from several threads
     VerticalVelocityComps vvComp;
 
     VerticalConverter_p altitudeConverter;
@@ -636,12 +638,17 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         LOG4FIMEX(logger, Logger::DEBUG, varName << " at slice " << unLimDimPos << " accumulate");
         if (unLimDimPos > 0) { // cannot accumulate first
             size_t start = 0;
-            if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
-                start = p_->sliceCache.ulimDimPos + 1;
-                if (p_->sliceCache.ulimDimPos == unLimDimPos) {
-                    data = p_->sliceCache.data->clone();
+            SliceCache cached;
+            {
+                OmpScopedLock lock(p_->sliceCacheMutex);
+                cached = p_->sliceCache;
+            }
+            if (cached.varName == varName && cached.ulimDimPos <= unLimDimPos) {
+                start = cached.ulimDimPos + 1;
+                if (cached.ulimDimPos == unLimDimPos) {
+                    data = cached.data->clone();
                 } else {
-                    DataPtr dataP = p_->sliceCache.data;
+                    DataPtr dataP = cached.data;
                     addDataP2Data(data, dataP, false, zero);
                 }
             }
@@ -651,9 +658,11 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                 addDataP2Data(data, dataP, i == 0, zero);
             }
             // fill the cache
-            p_->sliceCache.varName = varName;
-            p_->sliceCache.ulimDimPos = unLimDimPos;
-            p_->sliceCache.data = data->clone(); // data might be modified by the caller
+            cached.varName = varName;
+            cached.ulimDimPos = unLimDimPos;
+            cached.data = data->clone(); // data might be modified by the caller
+            OmpScopedLock lock(p_->sliceCacheMutex);
+            p_->sliceCache = cached;
         }
     }
 
-- 
2.43.0


From 1145b5be1f854c482df6348f7e4257ee1412297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:18 +0000
Subject: [PATCH 107/144] fix: errors while reading for the null-writer end the
 process

The exception left the parallel region.
---
 src/Null_CDMWriter.cc | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/Null_CDMWriter.cc b/src/Null_CDMWriter.cc
index f63856f..7c46d8d 100644
--- a/src/Null_CDMWriter.cc
+++ b/src/Null_CDMWriter.cc
@@ -32,6 +32,8 @@
 #include "fimex/SharedArray.h"
 #include "fimex/Type2String.h"
 
+#include <exception>
+
 #include "fimex_config.h"
 #ifdef HAVE_MPI
 #include "fimex/mifi_mpi.h"
@@ -113,6 +115,7 @@ Null_CDMWriter::Null_CDMWriter(const CDMReader_p cdmReader, const std::string& o
     // write data
     const CDMDimension* unLimDim = cdm.getUnlimitedDim();
     const long long maxUnLim = (unLimDim ? unLimDim->getLength() : 0);
+    std::exception_ptr error; // exceptions must not leave the parallel region
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
@@ -128,22 +131,31 @@ Null_CDMWriter::Null_CDMWriter(const CDMReader_p cdmReader, const std::string& o
             }
         }
 #endif
-        for (const CDMVariable& cdmVar : cdmVars) {
-            const bool has_unlimited = cdm.hasUnlimitedDim(cdmVar);
-            DataPtr data;
-            if (unLimDimPos == -1 && !has_unlimited) {
-                data = cdmReader->getData(cdmVar.getName());
-            } else if (unLimDimPos >= 0 && has_unlimited) {
-                data = cdmReader->getDataSlice(cdmVar.getName(), unLimDimPos);
-            } else {
-                continue;
-            }
-            if (!convertData(cdmVar.getDataType(), data)) {
-                throw CDMException("problems writing data to var " + cdmVar.getName() + ": " + ", datalength: " + type2string(data->size()) +
-                                   ", datatype: " + type2string(cdmVar.getDataType()));
+        try {
+            for (const CDMVariable& cdmVar : cdmVars) {
+                const bool has_unlimited = cdm.hasUnlimitedDim(cdmVar);
+                DataPtr data;
+                if (unLimDimPos == -1 && !has_unlimited) {
+                    data = cdmReader->getData(cdmVar.getName());
+                } else if (unLimDimPos >= 0 && has_unlimited) {
+                    data = cdmReader->getDataSlice(cdmVar.getName(), unLimDimPos);
+                } else {
+                    continue;
+                }
+                if (!convertData(cdmVar.getDataType(), data)) {
+                    throw CDMException("problems writing data to var " + cdmVar.getName() + ": " + ", datalength: " + type2string(data->size()) +
+                                       ", datatype: " + type2string(cdmVar.getDataType()));
+                }
             }
+        } catch (...) {
+#ifdef _OPENMP
+#pragma omp critical(fimex_null_cdmwriter_error)
+#endif
+            error = std::current_exception();
         }
     }
+    if (error)
+        std::rethrow_exception(error);
 }
 
 Null_CDMWriter::~Null_CDMWriter()
-- 
2.43.0


From 2d50bc2c9ccb6320ecea6a3be092f036656c47f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:18 +0000
Subject: [PATCH 108/144] fix: unsynchronised error flag of the parallel NetCDF
 writer

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index 5b5b589..d96af11 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -39,6 +39,7 @@
 
 #include "NetCDF_Utils.h"
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <numeric>
@@ -591,7 +592,7 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
     // see http://www.unidata.ucar.edu/support/help/MailArchives/netcdf/msg10905.html
     // use unLimDimPos = -1 for variables without unlimited dimension
 
-    bool exceptions = false;
+    std::atomic<bool> exceptions(false); // used by several threads
 #ifdef _OPENMP
 #if (defined(__GNUC__) && __GNUC__ >= 9) || defined(__clang__)
 #pragma omp parallel for default(none) shared(logger, cdmVars, ncVarMap, maxUnLim, unLimDimId, exceptions)
-- 
2.43.0


From e540d94685662867bac16d9155b0c4f1e5551e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 109/144] fix: index the output of a GRIB slice with the size
 of the slice

GribCDMReader::getDataSlice placed each field with the full lengths of the level and ensemble dimensions, so slices with
only some of the levels or members wrote the fields at wrong positions and behind the end of the buffer.
---
 src/io/grib/GribCDMReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMReader.cc b/src/io/grib/GribCDMReader.cc
index 4fea314..1cfb1dd 100644
--- a/src/io/grib/GribCDMReader.cc
+++ b/src/io/grib/GribCDMReader.cc
@@ -247,7 +247,7 @@ DataPtr GribCDMReader::getDataSlice(const std::string& varName, const SliceBuild
                 }
 
                 const size_t idx_data =
-                    ((idx_t - dim_t_start) * dim_l_len * dim_e_len + (idx_l - dim_l_start) * dim_e_len + (idx_e - dim_e_start)) * xySliceSize;
+                    (((idx_t - dim_t_start) * (dim_l_end - dim_l_start) + (idx_l - dim_l_start)) * (dim_e_end - dim_e_start) + (idx_e - dim_e_start)) * xySliceSize;
                 double* data_out = &doubleArray[idx_data];
                 double* grib_out = xyslice ? full_data_array.get() : data_out;
                 size_t dataRead;
-- 
2.43.0


From be41cbd6c2e1f4e8e007b9dc96455da5b02c58dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 110/144] fix: add the forecast step of GRIB messages with
 steps in days or longer

getValidTime computed the offset for days, months and years without assigning it, leaving the offset uninitialised.
---
 src/io/grib/GribFileIndex.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index b07fe04..29ac240 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -952,12 +952,15 @@ FimexTime GribFileMessage::getValidTime() const
     case 10: timeOffset = std::chrono::hours(3 * stepEnd_); break;
     case 11: timeOffset = std::chrono::hours(6 * stepEnd_); break;
     case 12: timeOffset = std::chrono::hours(12  *stepEnd_); break;
-    case 2:  date::days(1 * stepEnd_); break;
-    case 3:  date::months(1 * stepEnd_); break;
-    case 4:  date::years(1 * stepEnd_); break;
-    case 5:  date::years(10 * stepEnd_); break;
-    case 6:  date::years(30 * stepEnd_); break;
-    case 7:  date::years(100 * stepEnd_); break;
+    case 2:
+    case 3:
+    case 4:
+    case 5:
+    case 6:
+    case 7:
+        // same lengths of month and year as used for writing
+        timeOffset = std::chrono::seconds(static_cast<long>(gribStepUnits2seconds(gribStepUnitsToText(stepUnits_))) * stepEnd_);
+        break;
     default: {
         std::ostringstream msg;
         msg << "unknown stepUnits value " << stepUnits_;
-- 
2.43.0


From cc40859b7f10ad0d13c3d815618cad4f60bfad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 111/144] fix: respect the scanning direction of GRIB grids
 with increments in metres

The axes of mercator, lambert and polar-stereographic grids always increased from the first grid point, also when the
message scans in negative x- or y-direction.
---
 src/io/grib/GribFileIndex.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 29ac240..bd29f67 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -353,6 +353,15 @@ GribMetricDef getGridDefMetric(long /*edition*/, grib_handle_p gh)
         grib_get(gh, "DjInMetres", gmd.incrY);
     }
 
+    // increments are given without sign, the direction is in the scanning mode
+    const GridDefinition::Orientation orient = gribGetGridOrientation(gh);
+    if (orient & GridDefinition::ScanStartRight) {
+        gmd.incrX *= -1;
+    }
+    if (!(orient & GridDefinition::ScanStartBottom)) {
+        gmd.incrY *= -1;
+    }
+
     return gmd;
 }
 
-- 
2.43.0


From 8b098ce580dfe9d7a7cfcf7962bcb987b8f30876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:30 +0000
Subject: [PATCH 112/144] fix: undefined size of GRIB messages of unknown
 edition, endless loop for size zero

---
 src/io/grib/GribFileIndex.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index bd29f67..2aad8df 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -480,11 +480,15 @@ size_t readGribMessageSize(ChunkReader_p cr, size_t offset)
     } else if (grib_version == 2) {
         s0 = 8;
         sn = 8;
+    } else {
+        throw runtime_error("no grib message of edition 1 or 2 at byte " + type2string(offset));
     }
     size_t grib_msg_size = 0;
     for (size_t i = 0; i < sn; ++i) {
         grib_msg_size = (grib_msg_size << 8) | size_t(buffer[s0 + i]);
     }
+    if (grib_msg_size < sizeof(buffer))
+        throw runtime_error("invalid size of the grib message at byte " + type2string(offset));
     return grib_msg_size;
 }
 
-- 
2.43.0


From 1857c9294e9a6feaa03026affb059bad9e1ff52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:46 +0000
Subject: [PATCH 113/144] fix: increments of rotated GRIB grids calculated from
 the first and last point

---
 src/io/grib/GribFileIndex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 2aad8df..62d44e4 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -305,8 +305,8 @@ GridDefinition getGridDefRotatedLL(long edition, grib_handle_p gh)
         double endX, endY;
         grib_get(gh, "longitudeOfLastGridPointInDegrees", endX);
         grib_get(gh, "latitudeOfLastGridPointInDegrees", endY);
-        incrX = (endX - startX) / sizeX;
-        incrY = (endY - startY) / sizeY;
+        incrX = (endX - startX) / (sizeX - 1);
+        incrY = (endY - startY) / (sizeY - 1);
     } else {
         grib_get(gh, "iDirectionIncrementInDegrees", incrX);
         grib_get(gh, "jDirectionIncrementInDegrees", incrY);
-- 
2.43.0


From f7f526af46796ab1d51f6d7ede3526902bbe1b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:46 +0000
Subject: [PATCH 114/144] fix: spatial vectors configured for GRIB parameters
 are ignored

---
 src/io/grib/GribCDMIndexer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMIndexer.cc b/src/io/grib/GribCDMIndexer.cc
index 62d88e0..61ec194 100644
--- a/src/io/grib/GribCDMIndexer.cc
+++ b/src/io/grib/GribCDMIndexer.cc
@@ -946,7 +946,7 @@ void GribCDMIndexer::initAddVariables(std::shared_ptr<CDM> cdm, std::shared_ptr<
         }
 
         CDMVariable var(varName, vh.second.datatype, shape);
-        if (vh.second.vectorCounterpart.empty()) {
+        if (!vh.second.vectorCounterpart.empty()) {
             var.setAsSpatialVector(vh.second.vectorCounterpart, CDMVariable::vectorDirectionFromString(vh.second.vectorDirection));
         }
         cdm->addVariable(var);
-- 
2.43.0


From d41ef9adfbb3acb2b5a1259b23c765ae2e618b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:46 +0000
Subject: [PATCH 115/144] fix: special characters in the file name make GRIB
 index files unreadable

---
 src/io/grib/GribFileIndex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 62d44e4..01ca548 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -1303,7 +1303,8 @@ std::ostream& operator<<(std::ostream& os, const GribFileMessage& gfm)
 std::ostream& operator<<(std::ostream& os, const GribFileIndex& gfm)
 {
     os << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" << endl;
-    os << "<gribFileIndex url=\"" << gfm.getUrl() << "\" xmlns=\"http://www.met.no/schema/fimex/gribFileIndex\">" << endl;
+    const XmlCharPtr url = xmlEncodeSpecialChars(0, reinterpret_cast<const xmlChar*>(gfm.getUrl().c_str()));
+    os << "<gribFileIndex url=\"" << url.to_string() << "\" xmlns=\"http://www.met.no/schema/fimex/gribFileIndex\">" << endl;
     for (const auto& msg : gfm.listMessages()) {
         os << msg;
     }
-- 
2.43.0


From 17279a26bff074f00e9d405a83e75fc8a5e3fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:36 +0000
Subject: [PATCH 116/144] fix: true latitude of GRIB polar-stereographic grids
 around the south pole

---
 src/io/grib/GribFileIndex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 01ca548..32e56b5 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -436,6 +436,8 @@ GridDefinition getGridDefPolarStereographic(long edition, grib_handle_p gh)
         lat0 = 90.; // northpole
     } else {
         lat0 = -90.; // southpole
+        if (lat_ts > 0)
+            lat_ts *= -1; // on the same hemisphere as the pole
     }
     ostringstream oss;
     oss << "+proj=stere +lat_0=" << lat0 << " +lon_0=" << normalizeLongitude180(orientationOfGrid) << " +lat_ts=" << lat_ts << " ";
-- 
2.43.0


From 309c821f9b12df3ab0870c46f9d92cb72549df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:35 +0000
Subject: [PATCH 117/144] fix: scale and unit of the axes of an oblate earth
 given in GRIB2 messages

---
 src/io/grib/GribFileIndex.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 32e56b5..928e9a1 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -156,28 +156,28 @@ std::string getEarthsOblateFigure(grib_handle_p gh, long factorToM)
     grib_get(gh, "scaleFactorOfMajorAxisOfOblateSpheroidEarth", majorFactor);
     grib_get(gh, "scaledValueOfMajorAxisOfOblateSpheroidEarth", majorValue);
     while (majorFactor > 0) {
-        majorValue *= 10;
+        majorValue /= 10;
         majorFactor--;
     }
     while (majorFactor < 0) {
-        majorValue /= 10;
+        majorValue *= 10;
         majorFactor++;
     }
     // transfer km to m
-    majorFactor *= factorToM;
+    majorValue *= factorToM;
 
     grib_get(gh, "scaleFactorOfMinorAxisOfOblateSpheroidEarth", minorFactor);
     grib_get(gh, "scaledValueOfMinorAxisOfOblateSpheroidEarth", minorValue);
     while (minorFactor > 0) {
-        minorValue *= 10;
+        minorValue /= 10;
         minorFactor--;
     }
     while (minorFactor < 0) {
-        minorValue /= 10;
+        minorValue *= 10;
         minorFactor++;
     }
     // transfer (km|m) to m
-    minorFactor *= factorToM;
+    minorValue *= factorToM;
 
     return "+a=" + type2string(majorValue) + " +b=" + type2string(minorValue);
 }
-- 
2.43.0


From 1f1d40bb9ac20c8c764f6280aabc5ec02deeaed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:27 +0000
Subject: [PATCH 118/144] fix: scanning direction of polar-stereographic grids
 written to GRIB

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 9 +++++++--
 src/io/grib/GribApiCDMWriter_Impl2.cc | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index ccea04c..1ce6f9f 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -122,9 +122,14 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
             // grib1 doesn't allow to set double values for this! // (grib2 not checked)
             auto xArray = xData->asDouble();
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "DxInMetres", static_cast<long>(xArray[1] - xArray[0])), "");
+            const double dx = xArray[1] - xArray[0];
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "DxInMetres", std::lround(std::fabs(dx))), "");
             auto yArray = yData->asDouble();
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "DyInMetres", static_cast<long>(yArray[1] - yArray[0])), "");
+            const double dy = yArray[1] - yArray[0];
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "DyInMetres", std::lround(std::fabs(dy))), "");
+            // increments are written without sign, the direction is in the scanning mode
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", dx < 0 ? 1 : 0), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", dy < 0 ? 0 : 1), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
                 GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", cdmReader->getData(latitude)->asDouble()[0]), "");
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 8d1f079..44404cb 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -144,9 +144,14 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongXAxis", xData->size()), "");
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
             const auto xArray = xData->asDouble();
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", (xArray[1] - xArray[0])), "");
+            const double dx = xArray[1] - xArray[0];
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", std::fabs(dx)), "");
             const auto yArray = yData->asDouble();
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", (yArray[1] - yArray[0])), "");
+            const double dy = yArray[1] - yArray[0];
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", std::fabs(dy)), "");
+            // increments are written without sign, the direction is in the scanning mode
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", dx < 0 ? 1 : 0), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", dy < 0 ? 0 : 1), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
                 double lon = clamp_lon(cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]);
-- 
2.43.0


From 7e23adc7107f5543dfb6e7252a27f77caaf99446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:27 +0000
Subject: [PATCH 119/144] fix: true latitude, pole and orientation of
 polar-stereographic grids written to GRIB

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 70 +++++++++++++--------------
 src/io/grib/GribApiCDMWriter_Impl2.cc | 68 +++++++++++++-------------
 2 files changed, 68 insertions(+), 70 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index 1ce6f9f..bd9de37 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -73,44 +73,41 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
         if (projection == "stereographic" || projection == "polar_stereographic") {
             // latitude_of_projection_origin (polar_stereographic, +- 90), via scale_factor_at_projection_origin (stereographic
             // straight_vertical_longitude_from_pole (polar_stereographic), longitude_of_projection_origin (stereographic)
-            double latitudeWhereDxAndDyAreSpecifiedInDegrees = 60.;
+            double latitudeWhereDxAndDyAreSpecifiedInDegrees = 90.;
             double orientationOfTheGridInDegrees = 0.;
-            if (projection == "polar_stereographic") {
-                LOG4FIMEX(logger, Logger::INFO, "polar_stereographic projection for" << varName);
-                // get lat_ts fixed
-                latitudeWhereDxAndDyAreSpecifiedInDegrees = 60.;
-                // get lon0
-                CDM::AttrVec::iterator ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("straight_vertical_longitude_from_pole"));
-                if (ait != projAttrs.end()) {
-                    orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
-                }
-            } else {
-                LOG4FIMEX(logger, Logger::INFO, "stereographic projection for" << varName);
-                // test stereographic is +- 90deg latitude (grib knows only polar-stereographic)
-                CDM::AttrVec::iterator ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("latitude_of_projection_origin"));
-                if (ait != projAttrs.end()) {
-                    double lat = ait->getData()->asDouble()[0];
-                    if (std::fabs(lat) < 89.9995) {
-                        throw CDMException("grib doesn't know general stereographic projection: found origin latitude " + type2string(lat));
-                    }
-                }
-                // get lat_ts via scale_factor
-                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("scale_factor_at_projection_origin"));
-                if (ait != projAttrs.end()) {
-                    double scale = ait->getData()->asDouble()[0];
-                    double x = 2 * scale - 1;
-                    if (x <= 1 || x >= -1) {
-                        latitudeWhereDxAndDyAreSpecifiedInDegrees = rad_to_deg(asin(2 * scale - 1));
-                    } else {
-                        throw CDMException("scale_factor_at_projection_origin not defined properly: abs(2*scale-1) >= 1: " + type2string(x));
-                    }
+            bool southPole = false;
+            LOG4FIMEX(logger, Logger::INFO, "stereographic projection for" << varName);
+            // test stereographic is +- 90deg latitude (grib knows only polar-stereographic)
+            CDM::AttrVec::iterator ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("latitude_of_projection_origin"));
+            if (ait != projAttrs.end()) {
+                double lat = ait->getData()->asDouble()[0];
+                if (std::fabs(lat) < 89.9995) {
+                    throw CDMException("grib doesn't know general stereographic projection: found origin latitude " + type2string(lat));
                 }
-                // get lon0
-                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("longitude_of_projection_origin"));
-                if (ait != projAttrs.end()) {
-                    orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
+                southPole = (lat < 0);
+            }
+            // get lat_ts via scale_factor
+            ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("scale_factor_at_projection_origin"));
+            if (ait != projAttrs.end()) {
+                double scale = ait->getData()->asDouble()[0];
+                double x = 2 * scale - 1;
+                if (x <= 1 && x >= -1) {
+                    latitudeWhereDxAndDyAreSpecifiedInDegrees = rad_to_deg(asin(2 * scale - 1));
+                } else {
+                    throw CDMException("scale_factor_at_projection_origin not defined properly: abs(2*scale-1) >= 1: " + type2string(x));
                 }
             }
+            ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("standard_parallel"));
+            if (ait != projAttrs.end()) {
+                latitudeWhereDxAndDyAreSpecifiedInDegrees = std::fabs(ait->getData()->asDouble()[0]);
+            }
+            // get lon0
+            ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("longitude_of_projection_origin"));
+            if (ait == projAttrs.end()) // polar_stereographic
+                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("straight_vertical_longitude_from_pole"));
+            if (ait != projAttrs.end()) {
+                orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
+            }
             std::string polar_stereographic("polar_stereographic");
             size_t ps_size = polar_stereographic.size();
             GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", polar_stereographic.c_str(), &ps_size), "");
@@ -132,12 +129,13 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", dy < 0 ? 0 : 1), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", cdmReader->getData(latitude)->asDouble()[0]), "");
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", cdmReader->getData(longitude)->asDouble()[0]), "");
+                GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", cdmReader->getScaledDataInUnit(latitude, "degree")->asDouble()[0]), "");
+                GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]), "");
             } else {
                 throw CDMException("unable to find latitude/longitude for variable " + varName);
             }
             GRIB_CHECK(grib_set_double(gribHandle.get(), "orientationOfTheGridInDegrees", orientationOfTheGridInDegrees), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCenterFlag", southPole ? 128 : 0), "");
             if (std::fabs(latitudeWhereDxAndDyAreSpecifiedInDegrees - 60.) > 1.e-5) {
                 LOG4FIMEX(logger, Logger::ERROR,
                           "grib1 does not support polar_stereographic with lat_ts != 60degree, got " << latitudeWhereDxAndDyAreSpecifiedInDegrees);
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 44404cb..23ce423 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -97,42 +97,39 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             // straight_vertical_longitude_from_pole (polar_stereographic), longitude_of_projection_origin (stereographic)
             double latitudeWhereDxAndDyAreSpecifiedInDegrees = 90.;
             double orientationOfTheGridInDegrees = 0.;
-            if (projection == "polar_stereograhpic") {
-                LOG4FIMEX(logger, Logger::INFO, "polar_stereographic projection for" << varName);
-                // get lat_ts fixed
-                latitudeWhereDxAndDyAreSpecifiedInDegrees = 90.;
-                // get lon0
-                CDM::AttrVec::iterator ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("straight_vertical_longitude_from_pole"));
-                if (ait != projAttrs.end()) {
-                    orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
-                }
-            } else {
-                LOG4FIMEX(logger, Logger::INFO, "stereographic projection for" << varName);
-                // test stereographic is +- 90deg latitude (grib knows only polar-stereographic)
-                CDM::AttrVec::iterator ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("latitude_of_projection_origin"));
-                if (ait != projAttrs.end()) {
-                    double lat = ait->getData()->asDouble()[0];
-                    if (std::fabs(lat) < 89.9995) {
-                        throw CDMException("grib doesn't know general stereographic projection: found origin latitude " + type2string(lat));
-                    }
-                }
-                // get lat_ts via scale_factor
-                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("scale_factor_at_projection_origin"));
-                if (ait != projAttrs.end()) {
-                    double scale = ait->getData()->asDouble()[0];
-                    double x = 2 * scale - 1;
-                    if (x <= 1 || x >= -1) {
-                        latitudeWhereDxAndDyAreSpecifiedInDegrees = rad_to_deg(asin(2 * scale - 1));
-                    } else {
-                        throw CDMException("scale_factor_at_projection_origin not defined properly: abs(2*scale-1) >= 1: " + type2string(x));
-                    }
+            bool southPole = false;
+            LOG4FIMEX(logger, Logger::INFO, "stereographic projection for" << varName);
+            // test stereographic is +- 90deg latitude (grib knows only polar-stereographic)
+            CDM::AttrVec::iterator ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("latitude_of_projection_origin"));
+            if (ait != projAttrs.end()) {
+                double lat = ait->getData()->asDouble()[0];
+                if (std::fabs(lat) < 89.9995) {
+                    throw CDMException("grib doesn't know general stereographic projection: found origin latitude " + type2string(lat));
                 }
-                // get lon0
-                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("longitude_of_projection_origin"));
-                if (ait != projAttrs.end()) {
-                    orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
+                southPole = (lat < 0);
+            }
+            // get lat_ts via scale_factor
+            ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("scale_factor_at_projection_origin"));
+            if (ait != projAttrs.end()) {
+                double scale = ait->getData()->asDouble()[0];
+                double x = 2 * scale - 1;
+                if (x <= 1 && x >= -1) {
+                    latitudeWhereDxAndDyAreSpecifiedInDegrees = rad_to_deg(asin(2 * scale - 1));
+                } else {
+                    throw CDMException("scale_factor_at_projection_origin not defined properly: abs(2*scale-1) >= 1: " + type2string(x));
                 }
             }
+            ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("standard_parallel"));
+            if (ait != projAttrs.end()) {
+                latitudeWhereDxAndDyAreSpecifiedInDegrees = std::fabs(ait->getData()->asDouble()[0]);
+            }
+            // get lon0
+            ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("longitude_of_projection_origin"));
+            if (ait == projAttrs.end()) // polar_stereographic
+                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("straight_vertical_longitude_from_pole"));
+            if (ait != projAttrs.end()) {
+                orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
+            }
             orientationOfTheGridInDegrees = clamp_lon(orientationOfTheGridInDegrees);
             std::string polar_stereographic("polar_stereographic");
             size_t ps_size = polar_stereographic.size();
@@ -162,7 +159,10 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
                 throw CDMException("unable to find latitude/longitude for variable " + varName);
             }
             GRIB_CHECK(grib_set_double(gribHandle.get(), "orientationOfTheGridInDegrees", orientationOfTheGridInDegrees), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeWhereDxAndDyAreSpecifiedInDegrees", latitudeWhereDxAndDyAreSpecifiedInDegrees), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCentreFlag", southPole ? 128 : 0), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeWhereDxAndDyAreSpecifiedInDegrees",
+                                       southPole ? -latitudeWhereDxAndDyAreSpecifiedInDegrees : latitudeWhereDxAndDyAreSpecifiedInDegrees),
+                       "");
         } else if (projection == "latitude_longitude") {
             LOG4FIMEX(logger, Logger::INFO, "latlong projection for" << varName);
             std::string latitude, longitude;
-- 
2.43.0


From 6b87fe69608d52c31b11e29ba159665fa5e987d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:27 +0000
Subject: [PATCH 120/144] fix: pole of rotated grids written to GRIB is
 truncated to degrees

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 4 ++--
 src/io/grib/GribApiCDMWriter_Impl2.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index bd9de37..fbf9f4a 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -244,8 +244,8 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLat)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLon)), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 23ce423..fb6cd12 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -252,8 +252,8 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLat)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLon)), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
-- 
2.43.0


From b4223f3dab804cfc5c81c378427e88133bda3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:27 +0000
Subject: [PATCH 121/144] fix: level values written to GRIB are truncated
 instead of rounded

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 2 +-
 src/io/grib/GribApiCDMWriter_Impl2.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index fbf9f4a..2139883 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -390,7 +390,7 @@ void GribApiCDMWriter_Impl1::setLevel(const std::string& varName, double levelVa
     } else {
         throw CDMException("could not find vertical Axis " + verticalAxisXPath + " in " + configFile + ", skipping parameter " + varName);
     }
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "level", static_cast<long>(levelValue)), "setting level");
+    GRIB_CHECK(grib_set_long(gribHandle.get(), "level", std::lround(levelValue)), "setting level");
 }
 
 DataPtr GribApiCDMWriter_Impl1::handleTypeScaleAndMissingData(const std::string& varName, double levelValue, DataPtr inData)
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index fb6cd12..c90d7f2 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -446,7 +446,7 @@ void GribApiCDMWriter_Impl2::setLevel(const std::string& varName, double levelVa
         // hybrid level, no value, just position in pv
         GRIB_CHECK(grib_set_long(gribHandle.get(), "level", levelPos+1), "setting level position");
     } else {
-        GRIB_CHECK(grib_set_long(gribHandle.get(), "level", static_cast<long>(levelValue)), "setting level");
+        GRIB_CHECK(grib_set_long(gribHandle.get(), "level", std::lround(levelValue)), "setting level");
     }
 }
 
-- 
2.43.0


From 904e9b529d7f2865392c7852da258c16953ea2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:27 +0000
Subject: [PATCH 122/144] fix: forecast steps written to GRIB are rounded to
 the unit of the first step

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index cb14b7d..92e4e09 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -47,6 +47,7 @@
 #include <cmath>
 #include <cstring>
 #include <functional>
+#include <numeric>
 
 namespace MetNoFimex {
 
@@ -78,6 +79,15 @@ public:
     virtual ~UnScale() {}
 };
 
+/** largest unit in which all times, in seconds since the reference time, are given without rest */
+static std::string stepUnitOf(const long long* seconds, size_t n)
+{
+    long long unit = 0;
+    for (size_t i = 0; i < n; ++i)
+        unit = std::gcd(unit, seconds[i]);
+    return unit > 0 ? gribSeconds2stepUnits(unit) : "h";
+}
+
 GribApiCDMWriter_ImplAbstract::GribApiCDMWriter_ImplAbstract(int gribVersion, CDMReader_p cdmReader, const std::string& outputFile, const XMLInput& config)
     : CDMWriter(cdmReader, outputFile)
     , gribVersion(gribVersion)
@@ -237,9 +247,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                 TimeUnit tu(ss.str());
                 std::transform(&timesA[0], &timesA[0] + times->size(), std::back_inserter(vTimes),
                                std::bind(std::mem_fn(&TimeUnit::unitTime2fimexTime), tu, std::placeholders::_1));
-                if (times->size() > 1) {
-                    stepUnit = gribSeconds2stepUnits(timesA[1] - timesA[0]);
-                }
+                stepUnit = stepUnitOf(&timesA[0], times->size());
                 /* select the first startTime and the size for the time-dimension */
                 sb.setTimeStartAndSize(0, 1); // default is all of ReferenceTimePos
             } else {
@@ -282,9 +290,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                     TimeUnit tu(ss.str());
                     transform(&timesA[0], &timesA[0] + times->size(), back_inserter(vTimes),
                               std::bind(std::mem_fn(&TimeUnit::unitTime2fimexTime), tu, std::placeholders::_1));
-                    if (times->size() > 1) {
-                        stepUnit = gribSeconds2stepUnits(timesA[1] - timesA[0]);
-                    }
+                    stepUnit = stepUnitOf(&timesA[0], times->size());
                 }
                 size_t vtPos = 0;
                 for (vector<FimexTime>::iterator vTime = vTimes.begin(); vTime != vTimes.end(); ++vTime, ++vtPos) {
-- 
2.43.0


From 27d15827198dcf7e6080d27c4aa18f7c572f2694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:27 +0000
Subject: [PATCH 123/144] fix: level borders of hybrid levels written to GRIB2
 when the surface is the first level

---
 src/io/grib/GribApiCDMWriter_Impl2.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index c90d7f2..07b1608 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -427,8 +427,9 @@ void GribApiCDMWriter_Impl2::setLevel(const std::string& varName, double levelVa
                 double* pvAp = &pv[0];
                 double* pvB = &pv[n+1];
                 for (int j = 0, i = i0; j < n; j += 1, i += di) {
-                    pvAp[i] = 2*apD[i]-pvAp[i-di];
-                    pvB[i] = 2*bD[i]-pvB[i-di];
+                    const int ml = (di > 0) ? i - 1 : i; // mid-level between the borders i-di and i
+                    pvAp[i] = 2*apD[ml]-pvAp[i-di];
+                    pvB[i] = 2*bD[ml]-pvB[i-di];
                 }
 
                 GRIB_CHECK(grib_set_long(gribHandle.get(), "PVPresent", 1), 0);
-- 
2.43.0


From 88c3e92b9b70bae7f13a2534291a0fc6e1047401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:27 +0000
Subject: [PATCH 124/144] fix: errors while writing GRIB files are not reported

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 92e4e09..dca463c 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -341,6 +341,9 @@ void GribApiCDMWriter_ImplAbstract::run()
             LOG4FIMEX(logger, Logger::DEBUG, "variable not written to grib: " << vi->getName());
         }
     }
+    gribFile.flush();
+    if (!gribFile.good())
+        throw CDMException("error while writing the grib-file");
 }
 
 void GribApiCDMWriter_ImplAbstract::setGlobalAttributes()
-- 
2.43.0


From 3b9c5f3f9813af9a137ca2d8bba36d301c7d8b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:27 +0000
Subject: [PATCH 125/144] fix: errors of the GRIB library while writing end the
 process

---
 src/io/grib/GribApiCDMWriter_Impl1.cc        | 123 ++++++++---------
 src/io/grib/GribApiCDMWriter_Impl2.cc        | 131 ++++++++++---------
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc |  24 ++--
 3 files changed, 140 insertions(+), 138 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index 2139883..a57450d 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -22,6 +22,7 @@
  */
 
 #include "GribApiCDMWriter_Impl1.h"
+#include "GribUtils.h"
 
 #include "fimex/CDM.h"
 #include "fimex/Data.h"
@@ -52,9 +53,9 @@ void GribApiCDMWriter_Impl1::setParameter(const std::string& varName, double lev
     LOG4FIMEX(logger, Logger::DEBUG, "setParameter(" << varName << ", " << levelValue << ")");
     xmlNodePtr node = getNodePtr(varName, levelValue);
     std::string parameter = getXmlProp(node, "parameterNumber");
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "indicatorOfParameter", string2type<long>(parameter)), "");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "indicatorOfParameter", string2type<long>(parameter)), "");
     std::string tableNumber = getXmlProp(node, "codeTable");
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "gribTablesVersionNo", string2type<long>(tableNumber)), "");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "gribTablesVersionNo", string2type<long>(tableNumber)), "");
 
     // optional keys
     setNodesAttributes("attribute", node);
@@ -110,37 +111,37 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             }
             std::string polar_stereographic("polar_stereographic");
             size_t ps_size = polar_stereographic.size();
-            GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", polar_stereographic.c_str(), &ps_size), "");
+            MIFI_GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", polar_stereographic.c_str(), &ps_size), "");
             const DataPtr xData = cdmReader->getScaledDataInUnit(cdm.getHorizontalXAxis(varName), "m");
             const DataPtr yData = cdmReader->getScaledDataInUnit(cdm.getHorizontalYAxis(varName), "m");
             if (xData->size() < 2 || yData->size() < 2)
                 throw CDMException(varName + " variable has to small x-y dimensions, not a grid for GRIB");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongXAxis", xData->size()), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongXAxis", xData->size()), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
             // grib1 doesn't allow to set double values for this! // (grib2 not checked)
             auto xArray = xData->asDouble();
             const double dx = xArray[1] - xArray[0];
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "DxInMetres", std::lround(std::fabs(dx))), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "DxInMetres", std::lround(std::fabs(dx))), "");
             auto yArray = yData->asDouble();
             const double dy = yArray[1] - yArray[0];
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "DyInMetres", std::lround(std::fabs(dy))), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "DyInMetres", std::lround(std::fabs(dy))), "");
             // increments are written without sign, the direction is in the scanning mode
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", dx < 0 ? 1 : 0), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", dy < 0 ? 0 : 1), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", dx < 0 ? 1 : 0), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", dy < 0 ? 0 : 1), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", cdmReader->getScaledDataInUnit(latitude, "degree")->asDouble()[0]), "");
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]), "");
+                MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", cdmReader->getScaledDataInUnit(latitude, "degree")->asDouble()[0]), "");
+                MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]), "");
             } else {
                 throw CDMException("unable to find latitude/longitude for variable " + varName);
             }
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "orientationOfTheGridInDegrees", orientationOfTheGridInDegrees), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCenterFlag", southPole ? 128 : 0), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "orientationOfTheGridInDegrees", orientationOfTheGridInDegrees), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCenterFlag", southPole ? 128 : 0), "");
             if (std::fabs(latitudeWhereDxAndDyAreSpecifiedInDegrees - 60.) > 1.e-5) {
                 LOG4FIMEX(logger, Logger::ERROR,
                           "grib1 does not support polar_stereographic with lat_ts != 60degree, got " << latitudeWhereDxAndDyAreSpecifiedInDegrees);
                 throw CDMException("grib1 does not support polar_stereographic with lat_ts != 60degree");
-                // GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeWhereDxAndDyAreSpecifiedInDegrees", latitudeWhereDxAndDyAreSpecifiedInDegrees),"");
+                // MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeWhereDxAndDyAreSpecifiedInDegrees", latitudeWhereDxAndDyAreSpecifiedInDegrees),"");
             }
         } else if (projection == "latitude_longitude") {
             LOG4FIMEX(logger, Logger::INFO, "latlong projection for " << varName);
@@ -170,25 +171,25 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             }
             std::string typeOfGrid("regular_ll");
             size_t tog_size = typeOfGrid.size();
-            GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "Ni", ni), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "Nj", nj), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", lat0), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", lon0), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", latX), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfLastGridPointInDegrees", lonX), "");
+            MIFI_GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "Ni", ni), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "Nj", nj), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", lat0), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", lon0), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", latX), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfLastGridPointInDegrees", lonX), "");
             if (dj < 0) {
                 // reading north -> south
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
             }
             if (di < 0) {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
             }
 
         } else if (projection == "rotated_latitude_longitude") {
@@ -239,27 +240,27 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             std::string typeOfGrid("rotated_ll");
             // TODO: this seems still to be imperfect, more tests required
             size_t tog_size = typeOfGrid.size();
-            GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAParallel", ni), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfLastGridPointInDegrees", rlonX), "");
+            MIFI_GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAParallel", ni), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfLastGridPointInDegrees", rlonX), "");
             if (dj < 0) {
                 // reading north -> south
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
             }
             if (di < 0) {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
             }
         } else if (projection == "lambert_conformal_conic") {
             //            projection_6:grid_mapping_name = "lambert_conformal_conic" ;
@@ -307,24 +308,24 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             double dy = yArray[1] - yArray[0];
             std::string typeOfGrid("lambert");
             size_t tog_size = typeOfGrid.size();
-            GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "Nx", xData->size()), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "Ny", yData->size()), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", fabs(dx)), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", fabs(dy)), "");
+            MIFI_GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "Nx", xData->size()), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "Ny", yData->size()), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", fabs(dx)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", fabs(dy)), "");
             //  this one does not work for reading or writing in grib-api
-            // GRIB_CHECK(grib_set_double(gribHandle.get(), "LaDInDegrees", lat0), "");
+            // MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "LaDInDegrees", lat0), "");
             // avoid unused lat0 warning
             lat0 *= 1.;
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin1InDegrees", lat1), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin2InDegrees", lat2), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "LoVInDegrees", lonV), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin1InDegrees", lat1), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin2InDegrees", lat2), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "LoVInDegrees", lonV), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
-                GRIB_CHECK(
+                MIFI_GRIB_CHECK(
                     grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", cdmReader->getScaledDataInUnit(latitude, "degree")->asDouble()[0]),
                     "");
-                GRIB_CHECK(
+                MIFI_GRIB_CHECK(
                     grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]),
                     "");
             } else {
@@ -332,14 +333,14 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             }
             if (dy < 0) {
                 // reading north -> south
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
             }
             if (dx < 0) {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
             }
         } else if (projection == "transverse_mercator") {
             throw CDMException("projection " + projection + " not supported yet by GribApiCDMWriter");
@@ -384,13 +385,13 @@ void GribApiCDMWriter_Impl1::setLevel(const std::string& varName, double levelVa
     XPathNodeSet nodes(xmlConfig->getXPathObject(verticalAxisXPath));
     if (nodes.size() == 1) {
         std::string levelId = getXmlProp(nodes[0], "id");
-        GRIB_CHECK(grib_set_long(gribHandle.get(), "indicatorOfTypeOfLevel", string2type<long>(levelId)), "setting levelId");
+        MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "indicatorOfTypeOfLevel", string2type<long>(levelId)), "setting levelId");
     } else if (nodes.size() > 1) {
         throw CDMException("several entries in grib-config at " + configFile + ": " + verticalAxisXPath);
     } else {
         throw CDMException("could not find vertical Axis " + verticalAxisXPath + " in " + configFile + ", skipping parameter " + varName);
     }
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "level", std::lround(levelValue)), "setting level");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "level", std::lround(levelValue)), "setting level");
 }
 
 DataPtr GribApiCDMWriter_Impl1::handleTypeScaleAndMissingData(const std::string& varName, double levelValue, DataPtr inData)
@@ -399,9 +400,9 @@ DataPtr GribApiCDMWriter_Impl1::handleTypeScaleAndMissingData(const std::string&
     const CDM& cdm = cdmReader->getCDM();
     double inFillValue = cdm.getFillValue(varName);
     double outFillValue = inFillValue;
-    GRIB_CHECK(grib_set_double(gribHandle.get(), "missingValue", outFillValue), "setting missing value");
+    MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "missingValue", outFillValue), "setting missing value");
     // need bitmap to represent missing values in grib1
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "bitmapPresent", 1), "setting bitmap");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "bitmapPresent", 1), "setting bitmap");
 
     double scale = cdm.getScaleFactor(varName);
     double offset = cdm.getAddOffset(varName);
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 07b1608..75cb5d9 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -22,6 +22,7 @@
  */
 
 #include "GribApiCDMWriter_Impl2.h"
+#include "GribUtils.h"
 
 #include "fimex/CDM.h"
 #include "fimex/Data.h"
@@ -74,9 +75,9 @@ void GribApiCDMWriter_Impl2::setParameter(const std::string& varName, double lev
     if (parameter == "" || category == "" || discipline == "") {
         throw CDMException("incomplete defininition of " + varName + ": (param, categ, discipl) = (" + parameter + "," + category + "," + discipline + ")");
     }
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "parameterNumber", string2type<long>(parameter)), "");
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "parameterCategory", string2type<long>(category)), "");
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "discipline", string2type<long>(discipline)), "");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "parameterNumber", string2type<long>(parameter)), "");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "parameterCategory", string2type<long>(category)), "");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "discipline", string2type<long>(discipline)), "");
 
     // optional keys
     setNodesAttributes("attribute", node);
@@ -133,34 +134,34 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             orientationOfTheGridInDegrees = clamp_lon(orientationOfTheGridInDegrees);
             std::string polar_stereographic("polar_stereographic");
             size_t ps_size = polar_stereographic.size();
-            GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", polar_stereographic.c_str(), &ps_size), "");
+            MIFI_GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", polar_stereographic.c_str(), &ps_size), "");
             const DataPtr xData = cdmReader->getScaledDataInUnit(cdm.getHorizontalXAxis(varName), "m");
             const DataPtr yData = cdmReader->getScaledDataInUnit(cdm.getHorizontalYAxis(varName), "m");
             if (xData->size() < 2 || yData->size() < 2)
                 throw CDMException(varName + " variable has to small x-y dimensions, not a grid for GRIB");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongXAxis", xData->size()), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongXAxis", xData->size()), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
             const auto xArray = xData->asDouble();
             const double dx = xArray[1] - xArray[0];
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", std::fabs(dx)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", std::fabs(dx)), "");
             const auto yArray = yData->asDouble();
             const double dy = yArray[1] - yArray[0];
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", std::fabs(dy)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", std::fabs(dy)), "");
             // increments are written without sign, the direction is in the scanning mode
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", dx < 0 ? 1 : 0), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", dy < 0 ? 0 : 1), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", dx < 0 ? 1 : 0), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", dy < 0 ? 0 : 1), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
                 double lon = clamp_lon(cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]);
                 double lat = cdmReader->getScaledDataInUnit(latitude, "degree")->asDouble()[0];
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", lat), "");
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", lon), "");
+                MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", lat), "");
+                MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", lon), "");
             } else {
                 throw CDMException("unable to find latitude/longitude for variable " + varName);
             }
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "orientationOfTheGridInDegrees", orientationOfTheGridInDegrees), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCentreFlag", southPole ? 128 : 0), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeWhereDxAndDyAreSpecifiedInDegrees",
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "orientationOfTheGridInDegrees", orientationOfTheGridInDegrees), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCentreFlag", southPole ? 128 : 0), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeWhereDxAndDyAreSpecifiedInDegrees",
                                        southPole ? -latitudeWhereDxAndDyAreSpecifiedInDegrees : latitudeWhereDxAndDyAreSpecifiedInDegrees),
                        "");
         } else if (projection == "latitude_longitude") {
@@ -187,25 +188,25 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             // TODO: untested
             const std::string typeOfGrid("regular_ll");
             size_t tog_size = typeOfGrid.size();
-            GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAParallel", ni), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", lat0), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", lon0), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", latX), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfLastGridPointInDegrees", lonX), "");
+            MIFI_GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAParallel", ni), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", lat0), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", lon0), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", latX), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfLastGridPointInDegrees", lonX), "");
             if (dj < 0) {
                 // reading north -> south
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
             }
             if (di < 0) {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
             }
 
         } else if (projection == "rotated_latitude_longitude") {
@@ -247,27 +248,27 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             std::string typeOfGrid("rotated_ll");
             // TODO: this seems still to be inperfect, more tests required
             size_t tog_size = typeOfGrid.size();
-            GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAParallel", ni), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfLastGridPointInDegrees", rlonX), "");
+            MIFI_GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAParallel", ni), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfLastGridPointInDegrees", rlonX), "");
             if (dj < 0) {
                 // reading north -> south
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
             }
             if (di < 0) {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
             }
 
         } else if (projection == "lambert_conformal_conic") {
@@ -308,37 +309,37 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             double dy = yArray[1] - yArray[0];
             std::string typeOfGrid("lambert");
             size_t tog_size = typeOfGrid.size();
-            GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "Nx", xData->size()), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "Ny", yData->size()), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", fabs(dx)), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", fabs(dy)), "");
+            MIFI_GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "Nx", xData->size()), "");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "Ny", yData->size()), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", fabs(dx)), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", fabs(dy)), "");
             //  this one does not work for reading or writing in grib-api
-            // GRIB_CHECK(grib_set_double(gribHandle.get(), "LaDInDegrees", lat0), "");
+            // MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "LaDInDegrees", lat0), "");
             // avoid unused lat0 warning
             lat0 *= 1.;
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin1InDegrees", lat1), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin2InDegrees", lat2), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "LoVInDegrees", lonV), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin1InDegrees", lat1), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin2InDegrees", lat2), "");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "LoVInDegrees", lonV), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
                 const double lat_1st = cdmReader->getScaledDataInUnit(latitude, "degree")->asDouble()[0];
                 const double lon_1st = clamp_lon(cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]);
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", lat_1st), "");
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", lon_1st), "");
+                MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", lat_1st), "");
+                MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", lon_1st), "");
             } else {
                 throw CDMException("unable to find latitude/longitude for variable " + varName);
             }
             if (dy < 0) {
                 // reading north -> south
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
             }
             if (dx < 0) {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
             } else {
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
             }
         } else if (projection == "transverse_mercator") {
             throw CDMException("grid_mapping_name " + projection + " not supported yet by GribApiCDMWriter");
@@ -397,7 +398,7 @@ void GribApiCDMWriter_Impl2::setLevel(const std::string& varName, double levelVa
     if (nodes.size() == 1) {
         auto node = nodes[0];
         std::string levelId = getXmlProp(node, "id");
-        GRIB_CHECK(grib_set_long(gribHandle.get(), "levelType", string2type<long>(levelId)), ("setting levelId " + levelId).c_str());
+        MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "levelType", string2type<long>(levelId)), ("setting levelId " + levelId).c_str());
         if (string2type<long>(levelId) == 105) {
             // hybrid level, add both ap and b to pv
             isHybrid = true;
@@ -432,8 +433,8 @@ void GribApiCDMWriter_Impl2::setLevel(const std::string& varName, double levelVa
                     pvB[i] = 2*bD[ml]-pvB[i-di];
                 }
 
-                GRIB_CHECK(grib_set_long(gribHandle.get(), "PVPresent", 1), 0);
-                GRIB_CHECK(grib_set_double_array(gribHandle.get(), "pv", &pv[0], pv.size()), 0);
+                MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "PVPresent", 1), 0);
+                MIFI_GRIB_CHECK(grib_set_double_array(gribHandle.get(), "pv", &pv[0], pv.size()), 0);
             } else {
                 LOG4FIMEX(logger, Logger::ERROR, "no hybrid-sigma-transformation for var " << varName << " found, cannot write pv to grib2");
             }
@@ -445,9 +446,9 @@ void GribApiCDMWriter_Impl2::setLevel(const std::string& varName, double levelVa
     }
     if (isHybrid) {
         // hybrid level, no value, just position in pv
-        GRIB_CHECK(grib_set_long(gribHandle.get(), "level", levelPos+1), "setting level position");
+        MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "level", levelPos+1), "setting level position");
     } else {
-        GRIB_CHECK(grib_set_long(gribHandle.get(), "level", std::lround(levelValue)), "setting level");
+        MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "level", std::lround(levelValue)), "setting level");
     }
 }
 
@@ -458,8 +459,8 @@ DataPtr GribApiCDMWriter_Impl2::handleTypeScaleAndMissingData(const std::string&
     double inFillValue = cdm.getFillValue(varName);
     double outFillValue = inFillValue;
     // missingValue will not be encoded in message, but in a separate bitmap
-    GRIB_CHECK(grib_set_double(gribHandle.get(), "missingValue", outFillValue), "setting missing value");
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "bitmapPresent", 1), "setting bitmap");
+    MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "missingValue", outFillValue), "setting missing value");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "bitmapPresent", 1), "setting bitmap");
 
     double scale = cdm.getScaleFactor(varName);
     double offset = cdm.getAddOffset(varName);
diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index dca463c..5e9bae2 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -167,7 +167,7 @@ void GribApiCDMWriter_ImplAbstract::run()
     //    string pType("grid_second_order");
     //    try {
     //        size_t pTypeSize = pType.size();
-    //        GRIB_CHECK(grib_set_string(gribHandle.get(), "packingType", pType.c_str(), &pTypeSize), "setting endStep");
+    //        MIFI_GRIB_CHECK(grib_set_string(gribHandle.get(), "packingType", pType.c_str(), &pTypeSize), "setting endStep");
     //    } catch (...) {
     //        LOG4FIMEX(logger, Logger::WARN, "unable to set packingType to " << pType );
     //    }
@@ -324,7 +324,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                                         LOG4FIMEX(logger, Logger::DEBUG, "all vals invalid, dropping " << *var << " level " << levelVal << " time " << *vTime);
                                     }
                                 }
-                            } catch (CDMException& ex) {
+                            } catch (std::runtime_error& ex) {
                                 variableWarnings[*var] = ex.what();
                             }
                         }
@@ -365,12 +365,12 @@ void GribApiCDMWriter_ImplAbstract::setNodesAttributes(std::string attName, void
         std::string type = getXmlProp(node, "type");
         LOG4FIMEX(logger, Logger::DEBUG, "setting attribute: " << name << "(" << value << "," << type << ")");
         if (type == "long") {
-            GRIB_CHECK(grib_set_long(gribHandle.get(), name.c_str(), string2type<long>(value)), "setting grib-attr");
+            MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), name.c_str(), string2type<long>(value)), "setting grib-attr");
         } else if (type == "double") {
-            GRIB_CHECK(grib_set_double(gribHandle.get(), name.c_str(), string2type<double>(value)), "setting grib-attr");
+            MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), name.c_str(), string2type<double>(value)), "setting grib-attr");
         } else if (type == "string") {
             size_t msgSize = value.size();
-            GRIB_CHECK(grib_set_string(gribHandle.get(), name.c_str(), value.c_str(), &msgSize), "setting grib-attr");
+            MIFI_GRIB_CHECK(grib_set_string(gribHandle.get(), name.c_str(), value.c_str(), &msgSize), "setting grib-attr");
         } else {
             throw CDMException("unknown type for grib attributes: " + type);
         }
@@ -379,7 +379,7 @@ void GribApiCDMWriter_ImplAbstract::setNodesAttributes(std::string attName, void
 
 void GribApiCDMWriter_ImplAbstract::setData(const DataPtr& data)
 {
-    GRIB_CHECK(grib_set_double_array(gribHandle.get(), "values", data->asDouble().get(), data->size()), "setting values");
+    MIFI_GRIB_CHECK(grib_set_double_array(gribHandle.get(), "values", data->asDouble().get(), data->size()), "setting values");
 }
 
 void GribApiCDMWriter_ImplAbstract::setTime(const std::string& varName, const FimexTime& rtime, const FimexTime& vTime, const std::string& stepUnits)
@@ -405,13 +405,13 @@ void GribApiCDMWriter_ImplAbstract::setTime(const std::string& varName, const Fi
         date = 10101; // seems to be the minimum date for grib 0001-01-01
         time = 0;
     }
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "dataDate", date), "setting dataDate");
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "dataTime", time), "setting dataTime");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "dataDate", date), "setting dataDate");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "dataTime", time), "setting dataTime");
     size_t sSize = stepUnits.size();
-    GRIB_CHECK(grib_set_string(gribHandle.get(), "stepUnits", stepUnits.c_str(), &sSize), "setting stepUnits");
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "startStep", startStep), "setting startStep");
+    MIFI_GRIB_CHECK(grib_set_string(gribHandle.get(), "stepUnits", stepUnits.c_str(), &sSize), "setting stepUnits");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "startStep", startStep), "setting startStep");
     // TODO: step length should be determined by bounds
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "endStep", endStep), "setting endStep");
+    MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "endStep", endStep), "setting endStep");
 }
 
 std::vector<double> GribApiCDMWriter_ImplAbstract::getLevels(const std::string& varName)
@@ -537,7 +537,7 @@ void GribApiCDMWriter_ImplAbstract::writeGribHandleToFile()
     size_t size;
     const void* buffer;
     /* get the coded message in a buffer */
-    GRIB_CHECK(grib_get_message(gribHandle.get(), &buffer, &size), 0);
+    MIFI_GRIB_CHECK(grib_get_message(gribHandle.get(), &buffer, &size), 0);
     gribFile.write(reinterpret_cast<const char*>(buffer), size);
 }
 
-- 
2.43.0


From 3033c7cea959fcbe8ee8e8a1a6d827487af95877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:46 +0000
Subject: [PATCH 126/144] fix: reference times before 1970 written to GRIB

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 5e9bae2..498f196 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -222,7 +222,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                 if ((*varSysIt)->hasAxisType(CoordinateAxis::ReferenceTime)) {
                     CoordinateAxis_cp rtAxis = (*varSysIt)->findAxisOfType(CoordinateAxis::ReferenceTime);
                     DataPtr refTimesD = cdmReader->getScaledDataInUnit(rtAxis->getName(), "seconds since 1970-01-01 00:00:00");
-                    auto refs = refTimesD->asUInt64();
+                    auto refs = refTimesD->asInt64();
                     /* do something with the refTimes and select the wanted Position */
                     size_t refTimePos = 0; /* or whatever you select between 0 (default) and refTimes->size()-1 */
                     sb.setReferenceTimePos(refTimePos);
-- 
2.43.0


From c61672c1e8a8c37b9ce1723feca93526e34bdde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:14 +0000
Subject: [PATCH 127/144] fix: forecast steps written to GRIB in months or
 years

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 498f196..87de2cd 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -85,6 +85,9 @@ static std::string stepUnitOf(const long long* seconds, size_t n)
     long long unit = 0;
     for (size_t i = 0; i < n; ++i)
         unit = std::gcd(unit, seconds[i]);
+    // months and longer units have no fixed length
+    if (unit > 0)
+        unit = std::gcd(unit, 86400LL);
     return unit > 0 ? gribSeconds2stepUnits(unit) : "h";
 }
 
-- 
2.43.0


From af956016c46580eff28faabc8a4ba6a854244335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:39 +0000
Subject: [PATCH 128/144] fix: NaN and values equal to the fill value of packed
 data written to GRIB

---
 src/io/grib/GribApiCDMWriter_Impl1.cc        | 10 ++++++++--
 src/io/grib/GribApiCDMWriter_Impl2.cc        | 10 ++++++++--
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc |  4 +++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index a57450d..1105301 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -25,6 +25,7 @@
 #include "GribUtils.h"
 
 #include "fimex/CDM.h"
+#include "fimex/CDMconstants.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
 #include "fimex/MathUtils.h"
@@ -35,6 +36,7 @@
 
 #include <grib_api.h>
 
+#include <algorithm>
 #include <cmath>
 
 namespace MetNoFimex {
@@ -399,7 +401,8 @@ DataPtr GribApiCDMWriter_Impl1::handleTypeScaleAndMissingData(const std::string&
     LOG4FIMEX(logger, Logger::DEBUG, "handleTypeScaleAndMissingData(" << varName << ", " << levelValue << ")");
     const CDM& cdm = cdmReader->getCDM();
     double inFillValue = cdm.getFillValue(varName);
-    double outFillValue = inFillValue;
+    // not a possible value, in contrast to the fill value of packed data, or NaN
+    const double outFillValue = MIFI_FILL_DOUBLE;
     MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "missingValue", outFillValue), "setting missing value");
     // need bitmap to represent missing values in grib1
     MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "bitmapPresent", 1), "setting bitmap");
@@ -425,7 +428,10 @@ DataPtr GribApiCDMWriter_Impl1::handleTypeScaleAndMissingData(const std::string&
     LOG4FIMEX(logger, Logger::DEBUG,
               "change from (" << inFillValue << " " << scale << "," << offset << ") to (" << outFillValue << "," << 1 << "," << 0 << ")");
 
-    return inData->convertDataType(inFillValue, scale, offset, CDM_DOUBLE, outFillValue, 1, 0);
+    DataPtr outData = inData->convertDataType(inFillValue, scale, offset, CDM_DOUBLE, outFillValue, 1, 0);
+    auto values = outData->asDouble();
+    std::replace_if(&values[0], &values[0] + outData->size(), [](double v) { return std::isnan(v); }, outFillValue);
+    return createData(outData->size(), values);
 }
 
 } // namespace MetNoFimex
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 75cb5d9..6f5990b 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -25,6 +25,7 @@
 #include "GribUtils.h"
 
 #include "fimex/CDM.h"
+#include "fimex/CDMconstants.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
 #include "fimex/MathUtils.h"
@@ -37,6 +38,7 @@
 
 #include <grib_api.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 
@@ -457,7 +459,8 @@ DataPtr GribApiCDMWriter_Impl2::handleTypeScaleAndMissingData(const std::string&
     LOG4FIMEX(logger, Logger::DEBUG, "handleTypeScaleAndMissingData(" << varName << ", " << levelValue << ")");
     const CDM& cdm = cdmReader->getCDM();
     double inFillValue = cdm.getFillValue(varName);
-    double outFillValue = inFillValue;
+    // not a possible value, in contrast to the fill value of packed data, or NaN
+    const double outFillValue = MIFI_FILL_DOUBLE;
     // missingValue will not be encoded in message, but in a separate bitmap
     MIFI_GRIB_CHECK(grib_set_double(gribHandle.get(), "missingValue", outFillValue), "setting missing value");
     MIFI_GRIB_CHECK(grib_set_long(gribHandle.get(), "bitmapPresent", 1), "setting bitmap");
@@ -483,7 +486,10 @@ DataPtr GribApiCDMWriter_Impl2::handleTypeScaleAndMissingData(const std::string&
     LOG4FIMEX(logger, Logger::DEBUG,
               "change from (" << inFillValue << " " << scale << "," << offset << ") to (" << outFillValue << "," << 1 << "," << 0 << ")");
 
-    return inData->convertDataType(inFillValue, scale, offset, CDM_DOUBLE, outFillValue, 1, 0);
+    DataPtr outData = inData->convertDataType(inFillValue, scale, offset, CDM_DOUBLE, outFillValue, 1, 0);
+    auto values = outData->asDouble();
+    std::replace_if(&values[0], &values[0] + outData->size(), [](double v) { return std::isnan(v); }, outFillValue);
+    return createData(outData->size(), values);
 }
 
 } // namespace MetNoFimex
diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 87de2cd..c313bfd 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -316,7 +316,9 @@ void GribApiCDMWriter_ImplAbstract::run()
                                     auto da = data->asDouble();
                                     bool writeData = true;
                                     if (omitEmptyFields) {
-                                        const size_t countMissing = count(&da[0], &da[0] + data->size(), cdm.getFillValue(*var));
+                                        const double fill = cdm.getFillValue(*var);
+                                        const size_t countMissing =
+                                            std::count_if(&da[0], &da[0] + data->size(), [fill](double v) { return v == fill || std::isnan(v); });
                                         writeData = (countMissing < data->size());
                                     }
                                     if (writeData) {
-- 
2.43.0


From 51c69e9dc4156593b97de1ea8967ace09b29029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:51 +0000
Subject: [PATCH 129/144] fix: only the first reference time and step of
 several reference times written to GRIB

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index c313bfd..d420125 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -220,6 +220,7 @@ void GribApiCDMWriter_ImplAbstract::run()
             // handling of time
             vector<FimexTime> refTimes;
             vector<FimexTime> vTimes;
+            size_t timesSize = 1;
             if (tAxis.get() != 0) {
                 // time-Axis, eventually multi-dimensional, i.e. forecast_reference_time
                 if ((*varSysIt)->hasAxisType(CoordinateAxis::ReferenceTime)) {
@@ -251,6 +252,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                 std::transform(&timesA[0], &timesA[0] + times->size(), std::back_inserter(vTimes),
                                std::bind(std::mem_fn(&TimeUnit::unitTime2fimexTime), tu, std::placeholders::_1));
                 stepUnit = stepUnitOf(&timesA[0], times->size());
+                timesSize = times->size();
                 /* select the first startTime and the size for the time-dimension */
                 sb.setTimeStartAndSize(0, 1); // default is all of ReferenceTimePos
             } else {
@@ -285,7 +287,8 @@ void GribApiCDMWriter_ImplAbstract::run()
             for (const FimexTime& rTime : refTimes) {
                 if (refTimes.size() > 1) {
                     vTimes.clear(); // will be filled anew
-                    sb.setReferenceTimePos(rtPos);
+                    sb.setReferenceTimePos(rtPos++);
+                    sb.setTimeStartAndSize(0, timesSize); // all times of this reference time
                     stringstream ss;
                     ss << "seconds since " << make_time_string_extended(rTime);
                     DataPtr times = cdmReader->getScaledDataSliceInUnit(tAxis->getName(), ss.str(), sb.getTimeVariableSliceBuilder());
@@ -294,6 +297,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                     transform(&timesA[0], &timesA[0] + times->size(), back_inserter(vTimes),
                               std::bind(std::mem_fn(&TimeUnit::unitTime2fimexTime), tu, std::placeholders::_1));
                     stepUnit = stepUnitOf(&timesA[0], times->size());
+                    sb.setTimeStartAndSize(0, 1);
                 }
                 size_t vtPos = 0;
                 for (vector<FimexTime>::iterator vTime = vTimes.begin(); vTime != vTimes.end(); ++vTime, ++vtPos) {
-- 
2.43.0


From 90ed36e5567a6034c750353df2dd6eaab3ddce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 130/144] fix: variables with y varying faster than x written
 transposed to GRIB

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 21 ++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index d420125..8eb1660 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -91,6 +91,25 @@ static std::string stepUnitOf(const long long* seconds, size_t n)
     return unit > 0 ? gribSeconds2stepUnits(unit) : "h";
 }
 
+//! the values of a message are written row by row, i.e. with x varying fastest
+static bool isTransposed(const CDM& cdm, const std::string& varName, const std::string& xName, const std::string& yName)
+{
+    const std::vector<std::string>& shape = cdm.getVariable(varName).getShape();
+    return std::find(shape.begin(), shape.end(), yName) < std::find(shape.begin(), shape.end(), xName);
+}
+
+static DataPtr transpose(DataPtr data, size_t nFast, size_t nSlow)
+{
+    if (data->size() != nFast * nSlow)
+        return data;
+    const auto in = data->asDouble();
+    auto out = make_shared_array<double>(nFast * nSlow);
+    for (size_t s = 0; s < nSlow; ++s)
+        for (size_t f = 0; f < nFast; ++f)
+            out[f * nSlow + s] = in[s * nFast + f];
+    return createData(nFast * nSlow, out);
+}
+
 GribApiCDMWriter_ImplAbstract::GribApiCDMWriter_ImplAbstract(int gribVersion, CDMReader_p cdmReader, const std::string& outputFile, const XMLInput& config)
     : CDMWriter(cdmReader, outputFile)
     , gribVersion(gribVersion)
@@ -316,6 +335,8 @@ void GribApiCDMWriter_ImplAbstract::run()
                                 setLevel(*var, levelVal, levelPos);
                                 setParameter(*var, levelVal);
                                 DataPtr data = cdmReader->getDataSlice(*var, sb);
+                                if (isTransposed(cdm, *var, xAxis->getName(), yAxis->getName()))
+                                    data = transpose(data, cdm.getDimension(yAxis->getName()).getLength(), cdm.getDimension(xAxis->getName()).getLength());
                                 if (data->size() != 0) {
                                     auto da = data->asDouble();
                                     bool writeData = true;
-- 
2.43.0


From 91019d9a6b4feed407f4040d90d9ae12ae739dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 131/144] fix: variables of one coordinate system with
 different dimension order written to GRIB

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 8eb1660..590f698 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -91,6 +91,16 @@ static std::string stepUnitOf(const long long* seconds, size_t n)
     return unit > 0 ? gribSeconds2stepUnits(unit) : "h";
 }
 
+//! the slice in the dimension order of the variable, the variables of a coordinate-system may differ
+static SliceBuilder sliceForVariable(const CDM& cdm, const std::string& varName, const SliceBuilder& sb)
+{
+    SliceBuilder vsb(cdm, varName);
+    const std::vector<std::string> names = sb.getDimensionNames();
+    for (size_t i = 0; i < names.size(); ++i)
+        vsb.setStartAndSize(names[i], sb.getDimensionStartPositions()[i], sb.getDimensionSizes()[i]);
+    return vsb;
+}
+
 //! the values of a message are written row by row, i.e. with x varying fastest
 static bool isTransposed(const CDM& cdm, const std::string& varName, const std::string& xName, const std::string& yName)
 {
@@ -334,7 +344,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                                 // level and var are dependent due to splitting possibilities
                                 setLevel(*var, levelVal, levelPos);
                                 setParameter(*var, levelVal);
-                                DataPtr data = cdmReader->getDataSlice(*var, sb);
+                                DataPtr data = cdmReader->getDataSlice(*var, sliceForVariable(cdm, *var, sb));
                                 if (isTransposed(cdm, *var, xAxis->getName(), yAxis->getName()))
                                     data = transpose(data, cdm.getDimension(yAxis->getName()).getLength(), cdm.getDimension(xAxis->getName()).getLength());
                                 if (data->size() != 0) {
-- 
2.43.0


From 69ba7c66b3f732a511e696bc3a90850479fcf9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:11 +0000
Subject: [PATCH 132/144] fix: surface and top pressure exchanged in the
 description of sigma coordinates

---
 include/fimex/coordSys/verticalTransform/AtmosphereSigma.h | 2 +-
 src/coordSys/verticalTransform/AtmosphereSigma.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fimex/coordSys/verticalTransform/AtmosphereSigma.h b/include/fimex/coordSys/verticalTransform/AtmosphereSigma.h
index c8ed685..b57823c 100644
--- a/include/fimex/coordSys/verticalTransform/AtmosphereSigma.h
+++ b/include/fimex/coordSys/verticalTransform/AtmosphereSigma.h
@@ -49,7 +49,7 @@ public:
      * @param ptop top of model
      * @param ps surface pressure
      */
-    AtmosphereSigma(const std::string& sigma, const std::string& ps, const std::string& ptop) : sigma(sigma), ps(ps), ptop(ptop) {}
+    AtmosphereSigma(const std::string& sigma, const std::string& ptop, const std::string& ps) : sigma(sigma), ps(ps), ptop(ptop) {}
 
     /**
      * static NAME constant
diff --git a/src/coordSys/verticalTransform/AtmosphereSigma.cc b/src/coordSys/verticalTransform/AtmosphereSigma.cc
index 5dfe871..8bba251 100644
--- a/src/coordSys/verticalTransform/AtmosphereSigma.cc
+++ b/src/coordSys/verticalTransform/AtmosphereSigma.cc
@@ -33,7 +33,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p AtmosphereSigma::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return std::make_shared<SigmaToPressureConverter>(reader, cs, sigma, ps, ptop);
+    return std::make_shared<SigmaToPressureConverter>(reader, cs, sigma, ptop, ps);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 34b6c0005b10a17aad760ba1d19a8b7f9e4d8749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:11 +0000
Subject: [PATCH 133/144] fix: components of different vectors combined when
 one standard name begins with the other

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index 5c67ffc..f1ae5b2 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -562,12 +562,15 @@ static void enhanceVectors(CDM& cdm, const std::string& xsn, const std::string&
         if (xv.isSpatialVector())
             continue;
         const vector<string>& xSh = xv.getShape();
+        // both names must have the same ending, e.g. eastward_wind_shear and northward_wind_shear
+        const string xEnd = cdm.getAttribute(*xVar, "standard_name").getStringValue().substr(xsn.size());
         for (vector<string>::iterator yVar = yVars.begin(); yVar != yVars.end(); ++yVar) {
             CDMVariable& yv = cdm.getVariable(*yVar);
             if (yv.isSpatialVector())
                 continue;
             const vector<string>& ySh = yv.getShape();
-            if (xSh == ySh) {
+            const string yEnd = cdm.getAttribute(*yVar, "standard_name").getStringValue().substr(ysn.size());
+            if (xSh == ySh && xEnd == yEnd) {
                 xv.setAsSpatialVector(*yVar, CDMVariable::vectorDirectionFromString(xdir));
                 yv.setAsSpatialVector(*xVar, CDMVariable::vectorDirectionFromString(ydir));
                 LOG4FIMEX(logger, Logger::INFO, "making "<< *xVar << "," << *yVar << " a vector");
-- 
2.43.0


From a35ae7193c8f5341b1faac4c81ed6fd20f3dfc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:16 +0000
Subject: [PATCH 134/144] fix: variables without coordinate system depending on
 the names of their auxiliary axes

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 54 ++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index f1ae5b2..8b30648 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -135,6 +135,27 @@ static set<string> getCoordinateAxesNamesCF1_x(const CDM& cdm, const CDMVariable
 }
 
 
+/**
+ * get the auxiliary axes of a variable which are not used since a dimension of the variable has the same axis-type
+ */
+static set<string> getUnusedCoordinateNames(const CDM& cdm, const CDMVariable& var, const map<string, CoordinateAxis_p>& coordinateAxes)
+{
+    const vector<string>& dims = var.getShape();
+    set<CoordinateAxis::AxisType> types;
+    for (const string& dim : dims) {
+        const auto ca = coordinateAxes.find(dim);
+        if (ca != coordinateAxes.end() && !ca->second->isAxisType(CoordinateAxis::Undefined))
+            types.insert(ca->second->getAxisType());
+    }
+    set<string> unused;
+    for (const string& coord : getCoordinateNamesCF1_x(cdm, var)) {
+        const auto ca = coordinateAxes.find(coord);
+        if (ca != coordinateAxes.end() && types.count(ca->second->getAxisType()) && find(dims.begin(), dims.end(), coord) == dims.end())
+            unused.insert(coord);
+    }
+    return unused;
+}
+
 static CoordinateAxis::AxisType getAxisTypeCF1_x(const CDM& cdm, const string& varName)
 {
     CDMAttribute attr;
@@ -330,24 +351,25 @@ CoordinateSystem_cp_v CF1_xCoordSysBuilder::listCoordinateSystems(CDM& cdm)
             if (coordinateAxes.find(varIt->getName()) != coordinateAxes.end()) {
                 // variable is coordinateAxis, i.e. it doesn't need a coordinateSystem
             } else {
-                set<string> axes = getCoordinateAxesNamesCF1_x(cdm, *varIt);
-                set<string> coords = getCoordinateNamesCF1_x(cdm, *varIt);
+                const vector<string>& dims = varIt->getShape();
+                const set<string> axes = getCoordinateAxesNamesCF1_x(cdm, *varIt);
                 if (axes.size()) {
                     CoordinateSystem_p cs = std::make_shared<CoordinateSystem>("CF-1.X");
-                    for (set<string>::iterator axis = axes.begin(); axis != axes.end(); ++axis) {
-                        map<string, CoordinateAxis_p>::iterator foundAxis = coordinateAxes.find(*axis);
-                        if (foundAxis != coordinateAxes.end()) {
-                            // only dims with variable can be coordinate axis
-                            if (coords.find(foundAxis->second->getName()) == coords.end()) {
-                                // dimension
-                                cs->setAxis(foundAxis->second);
-                            } else {
-                                // coordinates
-                                cs->setAuxiliaryAxis(foundAxis->second);
-                            }
-                        }
+                    // dimensions before auxiliary axes, since the latter depend on the former
+                    for (const string& dim : dims) {
+                        map<string, CoordinateAxis_p>::iterator foundAxis = coordinateAxes.find(dim);
+                        if (foundAxis != coordinateAxes.end())
+                            cs->setAxis(foundAxis->second);
+                    }
+                    const set<string> unused = getUnusedCoordinateNames(cdm, *varIt, coordinateAxes);
+                    for (const string& axis : axes) {
+                        map<string, CoordinateAxis_p>::iterator foundAxis = coordinateAxes.find(axis);
+                        if (foundAxis != coordinateAxes.end() && !unused.count(axis))
+                            cs->setAuxiliaryAxis(foundAxis->second);
                     }
-                    coordSystems.insert(make_pair(cs->id(), cs));
+                    const CoordinateSystem_p& inserted = coordSystems.insert(make_pair(cs->id(), cs)).first->second;
+                    for (const string& axis : unused)
+                        inserted->addDependencyVariable(axis);
                 }
             }
         }
@@ -366,6 +388,8 @@ CoordinateSystem_cp_v CF1_xCoordSysBuilder::listCoordinateSystems(CDM& cdm)
             transform(csAxesPtr.begin(), csAxesPtr.end(), inserter(csAxes, csAxes.begin()), getPtrName);
             for (CDM::VarVec::const_iterator varIt = vars.begin(); varIt != vars.end(); ++varIt) {
                 set<string> varAxes = getCoordinateAxesNamesCF1_x(cdm, *varIt);
+                for (const string& axis : getUnusedCoordinateNames(cdm, *varIt, coordinateAxes))
+                    varAxes.erase(axis);
                 // all csAxes part of varAxes
                 bool is_complete = includes(varAxes.begin(), varAxes.end(),
                                             csAxes.begin(), csAxes.end());
-- 
2.43.0


From 32a4c23401c0333d56096bc8697cd6d222519c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 135/144] fix: names of missing variables and dimensions in the
 C interface are empty strings as documented

---
 src/c_fimex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 701d55d..8e54fc4 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -218,7 +218,7 @@ const char* mifi_get_variable_name(mifi_cdm_reader* reader, size_t pos)
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_variable_name: " << ex.what());
     }
-    return 0;
+    return EMPTY_C_STR;
 }
 
 unsigned int mifi_get_variable_type(mifi_cdm_reader* reader, const char* varName)
@@ -250,7 +250,7 @@ const char* mifi_get_dimension_name(mifi_cdm_reader* reader, size_t pos)
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_dimension_name: " << ex.what());
     }
-    return 0;
+    return EMPTY_C_STR;
 }
 
 size_t mifi_get_dimension_size(mifi_cdm_reader* reader, const char* dimName)
-- 
2.43.0


From b88bb683514bf9e7dc9b6309f151580932c9de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 136/144] fix: crash when setting a callback for a reader
 without callbacks

---
 src/c_fimex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 8e54fc4..4f80a66 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -187,8 +187,8 @@ int mifi_set_callback_double(mifi_cdm_reader* c_reader, const char* varName, dou
 {
     try {
         CDMReader_p reader = c_reader->reader_;
-        C_CDMReader* cReaderPtr = dynamic_cast<C_CDMReader*>(reader.get());
-        cReaderPtr->setDoubleCallbackFunction(string(varName), callback);
+        C_CDMReader& cReader = dynamic_cast<C_CDMReader&>(*reader);
+        cReader.setDoubleCallbackFunction(string(varName), callback);
         return 0;
     } catch (std::bad_cast& bc) {
         LOG4FIMEX(logger, Logger::WARN, "mifi_set_callback_double called with a different CDMReader, not C_CDMReader: " + string(bc.what()));
-- 
2.43.0


From f32c64d0dfb2bb4d1b32b4c9a1b1398ddf22717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 137/144] fix: variables without longitude and latitude
 reported as documented by the C interface

---
 src/c_fimex.cc | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 4f80a66..b0b913b 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -275,44 +275,40 @@ const char* mifi_get_unlimited_dimension_name(mifi_cdm_reader* reader)
     return EMPTY_C_STR;
 }
 
-static std::string do_mifi_get_var_longitude(mifi_cdm_reader* reader, const char* varName)
+static bool do_mifi_get_var_lonlat(mifi_cdm_reader* reader, const char* varName, std::string& lon, std::string& lat)
 {
-    std::string lon,lat;
-    if (reader->reader_->getCDM().getLatitudeLongitude(std::string(varName), lat, lon)) {
-        return lon;
+    try {
+        return reader->reader_->getCDM().getLatitudeLongitude(std::string(varName), lat, lon);
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error getting longitude and latitude for " << varName << ": " << ex.what());
     }
-    return "";
+    return false;
 }
 
 char* mifi_get_var_longitude(mifi_cdm_reader* reader, const char* varName)
 {
     // we get a temporary, we need strdup and caller must call free
-    return string_dup(do_mifi_get_var_longitude(reader, varName));
+    std::string lon, lat;
+    return do_mifi_get_var_lonlat(reader, varName, lon, lat) ? string_dup(lon) : 0;
 }
 
 int mifi_get_var_longitude_cpy(mifi_cdm_reader* reader, const char* varName, char* lonName, int n)
 {
-    return string_cpy(do_mifi_get_var_longitude(reader, varName), lonName, n);
-}
-
-static std::string do_mifi_get_var_latitude(mifi_cdm_reader* reader, const char* varName)
-{
-    std::string lon,lat;
-    if (reader->reader_->getCDM().getLatitudeLongitude(std::string(varName), lat, lon)) {
-        return lat;
-    }
-    return "";
+    std::string lon, lat;
+    return do_mifi_get_var_lonlat(reader, varName, lon, lat) ? string_cpy(lon, lonName, n) : -1;
 }
 
 char* mifi_get_var_latitude(mifi_cdm_reader* reader, const char* varName)
 {
     // we get a temporary, we need strdup and caller must call free
-    return string_dup(do_mifi_get_var_latitude(reader, varName));
+    std::string lon, lat;
+    return do_mifi_get_var_lonlat(reader, varName, lon, lat) ? string_dup(lat) : 0;
 }
 
 int mifi_get_var_latitude_cpy(mifi_cdm_reader* reader, const char* varName, char* latName, int n)
 {
-    return string_cpy(do_mifi_get_var_latitude(reader, varName), latName, n);
+    std::string lon, lat;
+    return do_mifi_get_var_lonlat(reader, varName, lon, lat) ? string_cpy(lat, latName, n) : -1;
 }
 
 mifi_slicebuilder* mifi_new_slicebuilder(mifi_cdm_reader* reader, const char* varName)
-- 
2.43.0


From 0f25458394ee8a47594c73d26928c1db7488a72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 138/144] fix: exceptions leave functions of the C interface

---
 src/c_fimex.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index b0b913b..fd3b5e0 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -349,7 +349,9 @@ int mifi_slicebuilder_ndims(mifi_slicebuilder* sb)
 static std::string do_mifi_slicebuilder_dimname(mifi_slicebuilder* sb, int pos)
 {
     if (sb != 0) {
-        return sb->sb_->getDimensionNames().at(pos);
+        const vector<string> names = sb->sb_->getDimensionNames();
+        if (pos >= 0 && size_t(pos) < names.size())
+            return names[pos];
     }
     return "";
 }
@@ -420,8 +422,12 @@ int mifi_slicebuilder_get_proj4_cpy(mifi_slicebuilder* sb, char* proj4, int n)
 int mifi_slicebuilder_set_dim_start_size(mifi_slicebuilder* sb, const char* dimName, unsigned int start, unsigned int size)
 {
     if (sb != 0) {
-        sb->sb_->setStartAndSize(dimName, start, size);
-        return 0;
+        try {
+            sb->sb_->setStartAndSize(dimName, start, size);
+            return 0;
+        } catch (exception& ex) {
+            LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_set_dim_start_size: " << ex.what());
+        }
     }
     return -1;
 }
@@ -522,7 +528,7 @@ double mifi_get_unique_forecast_reference_time(mifi_cdm_reader* reader, const ch
     try {
         TimeUnit tu(units);
         retVal = tu.fimexTime2unitTime(getUniqueForecastReferenceTimeFT(reader->reader_));
-    } catch (CDMException& ex) {
+    } catch (exception& ex) {
         return MIFI_UNDEFINED_D;
     }
     return retVal;
-- 
2.43.0


From a0052b043b6a08b8674a2fc8fb951a0e8a0e304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 139/144] fix: writing without unit conversion in the C
 interface

---
 src/c_fimex.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index fd3b5e0..dde95b0 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -514,7 +514,12 @@ int mifi_write_scaled_double_dataslice(mifi_cdm_reader* rwreader, const char* va
     try {
         shared_array<double> dptr(data, null_deleter());
         DataPtr d = createData(size, dptr);
-        rw->putScaledDataSliceInUnit(varName, units, *(sb->sb_), d);
+        const string unitStr(units);
+        if (unitStr != "") {
+            rw->putScaledDataSliceInUnit(varName, unitStr, *(sb->sb_), d);
+        } else {
+            rw->putScaledDataSlice(varName, *(sb->sb_), d);
+        }
         return 0;
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_write_scaled_double_dataslice: " << ex.what());
-- 
2.43.0


From f8ea660480842290988290d5d0884dc35a598053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 140/144] fix: slices of variables in the C interface with the
 dimension order of another variable

---
 include/fimex/CoordinateSystemSliceBuilder.h | 5 +++++
 src/CoordinateSystemSliceBuilder.cc          | 7 ++++++-
 src/c_fimex.cc                               | 2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fimex/CoordinateSystemSliceBuilder.h b/include/fimex/CoordinateSystemSliceBuilder.h
index 4602377..2eda6c2 100644
--- a/include/fimex/CoordinateSystemSliceBuilder.h
+++ b/include/fimex/CoordinateSystemSliceBuilder.h
@@ -45,6 +45,11 @@ class CoordinateSystemSliceBuilder: public MetNoFimex::SliceBuilder
 {
 public:
     CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs);
+    /**
+     * SliceBuilder with the dimensions in the order of a variable of the coordinate-system,
+     * the order might differ between the variables.
+     */
+    CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs, const std::string& varName);
     virtual ~CoordinateSystemSliceBuilder() {}
 
     /**
diff --git a/src/CoordinateSystemSliceBuilder.cc b/src/CoordinateSystemSliceBuilder.cc
index 7e9b8e5..0f174c5 100644
--- a/src/CoordinateSystemSliceBuilder.cc
+++ b/src/CoordinateSystemSliceBuilder.cc
@@ -52,7 +52,12 @@ const std::string& getCSVarFromCDM_(const CDM& cdm, CoordinateSystem_cp cs)
 }
 
 CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs)
-    : SliceBuilder(cdm, getCSVarFromCDM_(cdm, cs))
+    : CoordinateSystemSliceBuilder(cdm, cs, getCSVarFromCDM_(cdm, cs))
+{
+}
+
+CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs, const std::string& varName)
+    : SliceBuilder(cdm, varName)
     , cs_(cs)
 {
     setReferenceTimePos(0); // referenceTime is allways set
diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index dde95b0..b2e2253 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -316,7 +316,7 @@ mifi_slicebuilder* mifi_new_slicebuilder(mifi_cdm_reader* reader, const char* va
     try {
         CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(reader->csVec_, varName);
         if (cs.get()) {
-            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), cs));
+            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), cs, varName));
             return new mifi_slicebuilder(sb, cs);
         } else {
             std::shared_ptr<SliceBuilder> sb(new SliceBuilder(reader->reader_->getCDM(), varName));
-- 
2.43.0


From 99a72ac46bbd61d41939713c09e0db9b13739624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:05 +0000
Subject: [PATCH 141/144] fix: callbacks of the C interface for variables with
 fill value or data in memory

---
 src/C_CDMReader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/C_CDMReader.cc b/src/C_CDMReader.cc
index 277a143..d870d7f 100644
--- a/src/C_CDMReader.cc
+++ b/src/C_CDMReader.cc
@@ -28,6 +28,7 @@
 
 #include "fimex/CDM.h"
 #include "fimex/CDMException.h"
+#include "fimex/mifi_constants.h"
 #include "fimex/CDMVariable.h"
 #include "fimex/Data.h"
 #include "fimex/Type2String.h"
@@ -56,6 +57,11 @@ void C_CDMReader::setDoubleCallbackFunction(const std::string& varName, doubleDa
     // data will be auto-scaled
     cdm_->removeAttribute(varName, "scale_factor");
     cdm_->removeAttribute(varName, "add_offset");
+    // undefined values are NaN, and the fill-value must have the type of the variable
+    cdm_->removeAttribute(varName, "missing_value");
+    cdm_->addOrReplaceAttribute(varName, CDMAttribute("_FillValue", MIFI_UNDEFINED_D));
+    // all data must pass the callback
+    var.setData(DataPtr());
     // set the datatype for later processing
     doubleCallbacks_[varName] = callback;
 }
-- 
2.43.0


From 4c7e8514740c1c1958b25d37f5d2c6d103e7132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:33 +0000
Subject: [PATCH 142/144] fix: glob and scan with several directories match
 paths with names of other directories

---
 src/FileUtils.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/FileUtils.cc b/src/FileUtils.cc
index a50151d..2b8bd92 100644
--- a/src/FileUtils.cc
+++ b/src/FileUtils.cc
@@ -163,11 +163,12 @@ static void scanFiles_(std::vector<std::string>& files, const path_t& dir, int d
         const filetype_t ft = file_type(e);
         if (ft == DIRECTORY) {
             if (depth != 0) {
+                std::string subRelDir;
                 if (!matchFileOnly) {
                     // remember the directory behind start-directory
-                    currentRelDir += path_filename_string(e) + "/";
+                    subRelDir = currentRelDir + path_filename_string(e) + "/";
                 }
-                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, currentRelDir, depthCount + 1);
+                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, subRelDir, depthCount + 1);
             }
         } else if (ft == REGULAR_FILE) {
             const std::string filename = (matchFileOnly ? "" : currentRelDir) + path_filename_string(e);
-- 
2.43.0


From ed6a71a45857874630270bbc981f7cf83449722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:34 +0000
Subject: [PATCH 143/144] fix: NetCDF files with 64-bit offsets or 64-bit data
 not recognised by content

---
 src/io/netcdf/NetCDFIoFactory.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/io/netcdf/NetCDFIoFactory.cc b/src/io/netcdf/NetCDFIoFactory.cc
index 5f4ddcb..49dff67 100644
--- a/src/io/netcdf/NetCDFIoFactory.cc
+++ b/src/io/netcdf/NetCDFIoFactory.cc
@@ -61,12 +61,13 @@ bool detectHDF5(const char* magic)
 
 bool detectNetCDF(const char* magic)
 {
-    const char* netcdf = "CDF\001";
-    for (int i = 0; i < 4; i++) {
+    const char* netcdf = "CDF";
+    for (int i = 0; i < 3; i++) {
         if (netcdf[i] != magic[i])
             return false;
     }
-    return true;
+    // classic, 64-bit offset, and 64-bit data format
+    return magic[3] == '\001' || magic[3] == '\002' || magic[3] == '\005';
 }
 
 bool isNetCDF4Type(const std::string& type)
@@ -119,7 +120,7 @@ size_t NetCDFIoFactory::matchMagicSize()
 
 int NetCDFIoFactory::matchMagic(const char* magic, size_t count)
 {
-    if ((count >= 4 && detectHDF5(magic)) || (count >= 7 && detectNetCDF(magic)))
+    if ((count >= 7 && detectHDF5(magic)) || (count >= 4 && detectNetCDF(magic)))
         return 1;
     return 0;
 }
-- 
2.43.0


From 3f12439ffd70b405677434ac4b291d5ce6890ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:18 +0000
Subject: [PATCH 144/144] fix: NetCDF glob fails for file names with spaces or
 XML characters

---
 src/io/netcdf/NetCDFIoFactory.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/io/netcdf/NetCDFIoFactory.cc b/src/io/netcdf/NetCDFIoFactory.cc
index 49dff67..ad3b2e0 100644
--- a/src/io/netcdf/NetCDFIoFactory.cc
+++ b/src/io/netcdf/NetCDFIoFactory.cc
@@ -35,12 +35,12 @@
 #include "NetCDF_CDMWriter.h"
 #undef MIFI_IO_READER_SUPPRESS_DEPRECATED
 
+#include "fimex/AggregationReader.h"
 #include "fimex/CDMException.h"
 #include "fimex/FileUtils.h"
 #include "fimex/IoPlugin.h"
 #include "fimex/NcmlCDMReader.h"
 #include "fimex/StringUtils.h"
-#include "fimex/XMLInputString.h"
 
 #include <regex>
 #include <set>
@@ -180,15 +180,13 @@ CDMReader_p NetCDFIoFactory::createReader(const std::string& fileTypeName, const
         std::string glob = fileName.substr(globStr.size());
         std::vector<std::string> files;
         globFiles(files, glob);
-        std::ostringstream ncml;
-        ncml << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" << std::endl
-             << "<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">"
-             << "<aggregation type=\"joinExisting\">";
-        for (size_t i = 0; i < files.size(); ++i) {
-            ncml << "<netcdf location=\"" << files.at(i) << "\" />";
+        // not via ncml, since a location there cannot contain all characters of a file-name
+        auto agg = std::make_shared<AggregationReader>("joinExisting");
+        for (const auto& file : files) {
+            agg->addReader(std::make_shared<NetCDF_CDMReader>(file, false), file, "");
         }
-        ncml << "</aggregation></netcdf>";
-        reader = std::make_shared<NcmlCDMReader>(XMLInputString(ncml.str()));
+        agg->initAggregation();
+        reader = agg;
     } else {
         std::string file = fileName;
 
-- 
2.43.0

