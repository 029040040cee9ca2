From e93c67a91d1ca0c87d14300a7419c229cb23eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 01/43] fix: accept the Student t distribution name that
 dataManagerSpec() writes

dataManagerSpec() describes the distribution as "StudentsT", but constructing
a manager from that record only accepted "StudentT". As a consequence tables
using the Student t distribution could not be deep copied or reordered.
---
 dyscostman.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index a4783b7..a493b11 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -85,7 +85,7 @@ void DyscoStMan::setFromSpec(const casacore::Record &spec) {
       _distribution = UniformDistribution;
     else if (str == "Gaussian")
       _distribution = GaussianDistribution;
-    else if (str == "StudentT")
+    else if (str == "StudentT" || str == "StudentsT")
       _distribution = StudentsTDistribution;
     else if (str == "TruncatedGaussian")
       _distribution = TruncatedGaussianDistribution;
-- 
2.43.0


From 88968f20b01dc92e7d2923c74e5db3e0e65f5004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 02/43] fix: UVector copy assignment must take over the size of
 its source

When the destination had enough capacity, its size was left unchanged.
---
 uvector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uvector.h b/uvector.h
index f9dadd1..95ac9e4 100644
--- a/uvector.h
+++ b/uvector.h
@@ -936,6 +936,8 @@ class UVector : private Alloc {
       _begin = newStorage;
       _end = _begin + n;
       _endOfStorage = _end;
+    } else {
+      _end = _begin + n;
     }
     std::copy(other._begin, other._begin + n, _begin);
     return *this;
-- 
2.43.0


From af06f7469361584613b069cc057138d463bbbedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 03/43] fix: calculate the dithering threshold in double
 precision

Dither values of 31 bits were rounded to single precision, so that a value
that is exactly representable could be changed to its lower neighbour.
---
 stochasticencoder.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stochasticencoder.h b/stochasticencoder.h
index 57e00b3..3948603 100644
--- a/stochasticencoder.h
+++ b/stochasticencoder.h
@@ -111,8 +111,10 @@ class StochasticEncoder {
       const ValueType rightValue = _decDictionary.value(lowerBound);
       const ValueType leftValue = _decDictionary.value(lowerBound - 1);
 
-      ValueType ditherMark =
-          ValueType(1u << 31) * (value - leftValue) / (rightValue - leftValue);
+      // Double precision, because the dither values do not fit in a float
+      const double ditherMark = double(1u << 31) *
+                                (double(value) - double(leftValue)) /
+                                (double(rightValue) - double(leftValue));
       if (ditherMark > ditherValue)
         return _decDictionary.symbol(lowerBound);
       else
-- 
2.43.0


From 2fd7f073fd3c24715557ffce8a5783343ddb0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 04/43] fix: the first dictionary element is a valid symbol

In builds with assertions, encoding a value into symbol zero aborted.
---
 dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary.h b/dictionary.h
index 2afffd5..2d14c27 100644
--- a/dictionary.h
+++ b/dictionary.h
@@ -166,7 +166,7 @@ class Dictionary {
   }
 
   symbol_t symbol(const_iterator iter) const {
-    assert(iter > begin());
+    assert(iter >= begin());
     return (iter - begin());
   }
 
-- 
2.43.0


From e351413e8a825a195a810ddb0a0c5dfb9fd1dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 05/43] fix: do not use uninitialized values after reading past
 the end of a header

For a truncated file, the string length was uninitialized.
---
 serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serializable.h b/serializable.h
index 172885d..525033a 100644
--- a/serializable.h
+++ b/serializable.h
@@ -124,7 +124,7 @@ class Serializable {
  private:
   template <typename T>
   static T Unserialize(std::istream &stream) {
-    T val;
+    T val = T();
     stream.read(reinterpret_cast<char *>(&val), sizeof(val));
     return val;
   }
-- 
2.43.0


From cda9f4db080082ed7e4b1b13282cc2b6c0029248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 06/43] fix: return values that were written but not yet stored
 when reading a row

Rows that were still in the write buffer or write cache were read as zeros
when their block was not in the file yet, which depended on the timing of the
encoding threads.
---
 threadeddyscocolumn.cc | 47 ++++++++++++++++++++++++++----------------
 threadeddyscocolumn.h  |  1 +
 timeblockbuffer.h      |  5 +++++
 3 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 2296ef8..47fddc9 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -107,19 +107,12 @@ template <typename DataType>
 void ThreadedDyscoColumn<DataType>::getValues(
     casacore::uInt rowNr, casacore::Array<DataType> *dataArr) {
   if (!areOffsetsInitialized()) {
-    // Trying to read before first block was written -- return zero
-    // TODO if a few rows were written of the first block, those are
-    // incorrectly returned. This is a rare case but can be fixed.
-    *dataArr = DataType();
+    // Trying to read before first block was written -- only the rows that were
+    // already written are available.
+    getBufferedValues(rowNr, dataArr);
   } else {
     size_t blockIndex = getBlockIndex(rowNr);
-    if (blockIndex >= nBlocksInFile()) {
-      // Trying to read a row that was not stored yet -- return zero
-     *dataArr = DataType();
-    } else {
-      // Make sure array storage is contiguous.
-      casacore::Bool deleteIt;
-      DataType* dataPtr = dataArr->getStorage (deleteIt);
+    if (_currentBlock != blockIndex) {
       std::unique_lock<std::mutex> lock(_mutex);
       // Wait until the block to be read is not in the write cache
       typename cache_t::const_iterator cacheItemPtr = _cache.find(blockIndex);
@@ -129,16 +122,34 @@ void ThreadedDyscoColumn<DataType>::getValues(
       }
       lock.unlock();
 
-      if (_currentBlock != blockIndex) {
-        if (_isCurrentBlockChanged) storeBlock();
-        loadBlock(blockIndex);
+      if (blockIndex >= nBlocksInFile()) {
+        // Trying to read a row that was not stored yet -- return zero
+        *dataArr = DataType();
+        return;
       }
 
-      // The time block encoder is now initialized and contains the unpacked
-      // block.
-      _timeBlockBuffer->GetData(getRowWithinBlock(rowNr), dataPtr);
-      dataArr->putStorage (dataPtr, deleteIt);
+      if (_isCurrentBlockChanged) storeBlock();
+      loadBlock(blockIndex);
     }
+
+    // The time block encoder is now initialized and contains the unpacked
+    // block.
+    getBufferedValues(getRowWithinBlock(rowNr), dataArr);
+  }
+}
+
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::getBufferedValues(
+    size_t bufferRow, casacore::Array<DataType> *dataArr) {
+  if (_timeBlockBuffer->HasData(bufferRow)) {
+    // Make sure array storage is contiguous.
+    casacore::Bool deleteIt;
+    DataType* dataPtr = dataArr->getStorage (deleteIt);
+    _timeBlockBuffer->GetData(bufferRow, dataPtr);
+    dataArr->putStorage (dataPtr, deleteIt);
+  } else {
+    // Row was not written yet
+    *dataArr = DataType();
   }
 }
 
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 208901f..1792144 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -191,6 +191,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
   typedef std::map<size_t, CacheItem *> cache_t;
 
   void getValues(casacore::uInt rowNr, casacore::Array<data_t> *dataPtr);
+  void getBufferedValues(size_t bufferRow, casacore::Array<data_t> *dataPtr);
   void putValues(casacore::uInt rowNr, const casacore::Array<data_t> *dataPtr);
 
   void stopThreads();
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index e847e90..19d6c36 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -38,6 +38,11 @@ class TimeBlockBuffer {
       newRow.visibilities[i] = data[i];
   }
 
+  /** Whether a value was set for the given row. */
+  bool HasData(size_t blockRow) const {
+    return blockRow < _data.size() && !_data[blockRow].visibilities.empty();
+  }
+
   void GetData(size_t blockRow, data_t *destination) const {
     const data_t *srcPtr = _data[blockRow].visibilities.data();
     memcpy(destination, srcPtr,
-- 
2.43.0


From 1985641747e5808eea1f1a5a2e5c9a6daa355610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 07/43] fix: store zeros for rows of a time block that were
 never written

When only some rows of a new block were written, the other rows were stored
with the values of the previously loaded block, or the encoder read outside of
the buffer.
---
 threadeddyscocolumn.cc |  3 +++
 timeblockbuffer.h      | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 47fddc9..b2f02e3 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -98,6 +98,8 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
              a1, a2);
     }
+  } else {
+    _timeBlockBuffer->ResetData();
   }
   _currentBlock = blockIndex;
   _isCurrentBlockChanged = false;
@@ -158,6 +160,7 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
   // Put the data of the current block into the cache so that the parallell
   // threads can write them
   std::unique_lock<std::mutex> lock(_mutex);
+  _timeBlockBuffer->FillMissingRows(nRowsInBlock());
   CacheItem *item = new CacheItem(std::move(_timeBlockBuffer));
   // Wait until there is space available AND the row to be written is not in the
   // cache
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index 19d6c36..31e4d2e 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -43,6 +43,18 @@ class TimeBlockBuffer {
     return blockRow < _data.size() && !_data[blockRow].visibilities.empty();
   }
 
+  /** Make the buffer hold @p nRows rows, by zeroing those that were not set. */
+  void FillMissingRows(size_t nRows) {
+    if (_data.size() < nRows) _data.resize(nRows);
+    for (DataRow &row : _data) {
+      if (row.visibilities.empty()) {
+        row.antenna1 = 0;
+        row.antenna2 = 0;
+        row.visibilities.assign(_nPol * _nChannels, data_t());
+      }
+    }
+  }
+
   void GetData(size_t blockRow, data_t *destination) const {
     const data_t *srcPtr = _data[blockRow].visibilities.data();
     memcpy(destination, srcPtr,
-- 
2.43.0


From 8da20f9bd25dbfdae3ab47a6f57d33cc30ba856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 08/43] fix: make it possible to read a last time block that is
 incomplete

Reading a row of the last block accessed the antenna columns past the end of
the table if the table did not end at a block boundary, e.g. after removing
the last row.
---
 dyscostmancol.h        | 6 ++++++
 threadeddyscocolumn.cc | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/dyscostmancol.h b/dyscostmancol.h
index 9f76181..7a10d62 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -104,6 +104,8 @@ class DyscoStManColumn : public casacore::StManColumn {
 
   uint64_t getRowIndex(size_t block) const;
 
+  uint64_t getNTableRows() const;
+
   bool areOffsetsInitialized() const;
 
   void initializeRowsPerBlock(size_t rowsPerBlock, size_t antennaCount);
@@ -154,6 +156,10 @@ inline uint64_t DyscoStManColumn::getRowIndex(size_t block) const {
   return _storageManager->getRowIndex(block);
 }
 
+inline uint64_t DyscoStManColumn::getNTableRows() const {
+  return _storageManager->getNRow();
+}
+
 inline size_t DyscoStManColumn::getRowWithinBlock(uint64_t rowIndex) const {
   return _storageManager->getRowWithinBlock(rowIndex);
 }
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index b2f02e3..722d942 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -91,8 +91,11 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     float *metaData = reinterpret_cast<float *>(_packedBlockReadBuffer.data());
     initializeDecode(_timeBlockBuffer.get(), metaData, nRows, _antennaCount);
     uint64_t startRow = getRowIndex(blockIndex);
-    _timeBlockBuffer->resize(nRows);
-    for (size_t blockRow = 0; blockRow != nRows; ++blockRow) {
+    // The table might end before the end of the last block
+    const size_t nTableRows = std::max<uint64_t>(
+        startRow, std::min<uint64_t>(startRow + nRows, getNTableRows())) - startRow;
+    _timeBlockBuffer->resize(nTableRows);
+    for (size_t blockRow = 0; blockRow != nTableRows; ++blockRow) {
       int a1 = (*_ant1Col)(startRow + blockRow),
           a2 = (*_ant2Col)(startRow + blockRow);
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
-- 
2.43.0


From 2a13a071cdb207d1691f7e9e08210035b8a05919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 09/43] fix: do not lose the last time block when a column was
 not written in it

If the columns that are stored last in a block were not written, the file is
shorter than a multiple of the block size. The last block was then ignored
after opening the table. Columns without data in the last block are now
also reliably read as zeros.
---
 dyscostman.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index a493b11..20dfbfe 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -6,6 +6,8 @@
 
 #include "header.h"
 
+#include <algorithm>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -298,8 +300,10 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
   if (_fStream->fail())
     throw DyscoStManError("I/O error: error reading file '" + fileName());
   std::streampos size = _fStream->tellg();
-  if (size > _headerSize)
-    _nBlocksInFile = (size_t(size) - _headerSize) / _blockSize;
+  if (size > _headerSize && _blockSize != 0)
+    // The last block might not be completely filled (see readCompressedData())
+    _nBlocksInFile =
+        (size_t(size) - _headerSize + _blockSize - 1) / _blockSize;
   else
     _nBlocksInFile = 0;
 }
@@ -426,6 +430,7 @@ void DyscoStMan::readCompressedData(size_t blockIndex,
       throw DyscoStManError("I/O error: error while reading file '" +
                             fileName() + "'");
     _fStream->clear();  // reset fail bit
+    std::fill_n(dest, size, 0);
   }
 }
 
-- 
2.43.0


From 1bfbf4001f381931b790b135886ffc6880b34a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 10/43] fix: make it possible to open a table to which no data
 was written

---
 dyscostman.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 20dfbfe..4153f1a 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -377,6 +377,10 @@ void DyscoStMan::prepare() {
   // initializeRowsPerBlock() to let the columns know this value.
   if (areOffsetsInitialized())
     initializeRowsPerBlock(_rowsPerBlock, _antennaCount, false);
+  else if (_headerSize == 0)
+    // New file: write the header so that the table can be opened even when
+    // nothing is written to it
+    writeHeader();
 }
 
 void DyscoStMan::reopenRW() {}
-- 
2.43.0


From ae7f99a47f0f16d0fe10841d77a69d9db4473ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 11/43] fix: adding a column must not lose written rows or wait
 forever

Adding a column while rows of the first block were buffered discarded those
rows. When the first block was being encoded, addColumn() waited for it while
holding the lock that is required to write the block.
---
 dyscostman.cc          | 2 +-
 threadeddyscocolumn.cc | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 4153f1a..303a9e5 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -396,7 +396,7 @@ void DyscoStMan::removeRow(casacore::uInt rowNr) {
 }
 
 void DyscoStMan::addColumn(casacore::DataManagerColumn * /*column*/) {
-  if (_nBlocksInFile != 0)
+  if (_nBlocksInFile != 0 || areOffsetsInitialized())
     throw DyscoStManError(
         "Can't add columns while data has been committed to table");
 
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 722d942..7f99d6e 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -247,6 +247,9 @@ void ThreadedDyscoColumn<DataType>::Prepare(DyscoDistribution, Normalization,
   _dataDescIdCol.reset(new casacore::ScalarColumn<int>(table, "DATA_DESC_ID"));
   _timeCol.reset(new casacore::ScalarColumn<double>(table, "TIME"));
 
+  // Keep rows that have already been written (when adding a column)
+  if (_isCurrentBlockChanged) return;
+
   size_t nPolarizations = _shape[0], nChannels = _shape[1];
   _timeBlockBuffer.reset(
       new TimeBlockBuffer<data_t>(nPolarizations, nChannels));
-- 
2.43.0


From 44c9a03c3683776fbbf29b98c0ad25b604a5cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 12/43] fix: do not ignore an I/O error when writing the last
 data of a file

Data that was still in the stream buffer was written when closing the file,
at which point errors were ignored.
---
 dyscostman.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 303a9e5..58a5304 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -208,6 +208,7 @@ void DyscoStMan::writeHeader() {
     cHeader.Serialize(*_fStream);
     col->SerializeExtraHeader(*_fStream);
   }
+  _fStream->flush();
   if (_fStream->fail())
     throw DyscoStManError("I/O error: could not write to file");
 }
@@ -448,6 +449,7 @@ void DyscoStMan::writeCompressedData(size_t blockIndex,
   size_t fileOffset = getFileOffset(blockIndex);
   _fStream->seekp(fileOffset + column->OffsetInBlock(), std::ios_base::beg);
   _fStream->write(reinterpret_cast<const char *>(data), size);
+  _fStream->flush();
   if (_fStream->fail())
     throw DyscoStManError("I/O error: error while writing file '" + fileName() +
                           "'");
-- 
2.43.0


From 163472a12835e2bc71e197fed425e299cdded6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 13/43] fix: removing a column must not corrupt the other
 columns

The position of the data of the remaining columns in the file is calculated
from the columns that are present. After removing a column, these positions no
longer matched with the contents of the file. In particular, the weights were
lost when running 'decompress' on a measurement set with compressed data and
weights.
---
 dyscostman.cc          | 44 ++++++++++++++++++++++++++++++++++++++++--
 dyscostman.h           |  2 ++
 threadeddyscocolumn.cc |  3 +++
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 58a5304..e9aa4bc 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -8,6 +8,8 @@
 
 #include <algorithm>
 
+#include <unistd.h>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -410,8 +412,15 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
            _columns.begin();
        i != _columns.end(); ++i) {
     if (i->get() == column) {
-      _columns.erase(i);
-      writeHeader();
+      if (_nBlocksInFile == 0 && !areOffsetsInitialized()) {
+        _columns.erase(i);
+        writeHeader();
+      } else {
+        // Store all pending data and stop the threads that access the file
+        for (std::unique_ptr<DyscoStManColumn> &col : _columns) col->shutdown();
+        _columns.erase(i);
+        compactFile();
+      }
       return;
     }
   }
@@ -419,6 +428,37 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
       "Trying to remove column that was not part of the storage manager");
 }
 
+// Called after removing a column: the blocks no longer contain the data of that
+// column, so the data of the other columns are moved to their new positions.
+void DyscoStMan::compactFile() {
+  const size_t oldHeaderSize = _headerSize, oldBlockSize = _blockSize;
+  std::vector<size_t> oldOffsets;
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns)
+    oldOffsets.push_back(col->OffsetInBlock());
+
+  initializeRowsPerBlock(_rowsPerBlock, _antennaCount, true);
+
+  // All data move towards the start of the file, hence this can be done in
+  // place as long as it is done in order.
+  aocommon::UVector<char> data;
+  for (size_t block = 0; block != _nBlocksInFile; ++block) {
+    for (size_t i = 0; i != _columns.size(); ++i) {
+      data.assign(_columns[i]->CalculateBlockSize(_rowsPerBlock, _antennaCount),
+                  0);
+      _fStream->seekg(oldHeaderSize + oldBlockSize * block + oldOffsets[i]);
+      _fStream->read(data.data(), data.size());
+      _fStream->clear();  // The last block might be incomplete
+      _fStream->seekp(getFileOffset(block) + _columns[i]->OffsetInBlock());
+      _fStream->write(data.data(), data.size());
+    }
+  }
+  _fStream->flush();
+  if (_fStream->fail() ||
+      truncate(fileName().c_str(), getFileOffset(_nBlocksInFile)) != 0)
+    throw DyscoStManError("I/O error: error while writing file '" + fileName() +
+                          "'");
+}
+
 void DyscoStMan::readCompressedData(size_t blockIndex,
                                     const DyscoStManColumn *column,
                                     unsigned char *dest, size_t size) {
diff --git a/dyscostman.h b/dyscostman.h
index f5f46ce..3082a9e 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -323,6 +323,8 @@ class DyscoStMan : public casacore::DataManager {
 
   void setFromSpec(const casacore::Record &spec);
 
+  void compactFile();
+
   size_t getFileOffset(size_t blockIndex) const {
     return _blockSize * blockIndex + _headerSize;
   }
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 7f99d6e..e27ea28 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -176,6 +176,9 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
   _cacheChangedCondition.notify_all();
   lock.unlock();
 
+  // The data of the block have been moved out of the buffer
+  _currentBlock = std::numeric_limits<size_t>::max();
+
   _isCurrentBlockChanged = false;
   const size_t nPolarizations = _shape[0], nChannels = _shape[1];
   _timeBlockBuffer.reset(
-- 
2.43.0


From 9b7048f8b546614c5092f06721b6b4f1511025df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 14/43] fix: dscompress must not read out of bounds for an
 irregular set

A later time block with more rows than the first one made the check of the
regularity read past the end of the list of baselines.
---
 dscompress.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index 2963dde..67c3d26 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -295,6 +295,17 @@ int main(int argc, char *argv[]) {
       if (blockNumber == 0) {
         antennasInBlock.push_back(std::make_pair(antenna1, antenna2));
       } else {
+        if (blockOffset >= antennasInBlock.size()) {
+          std::ostringstream msg;
+          msg << "This measurement set is not 'regular'; at table row " << row
+              << ", timeblock index " << blockNumber
+              << " the timeblock has more baselines than the previous "
+                 "timeblocks ("
+              << antennasInBlock.size()
+              << "). In other words, not all timesteps had the same baselines. "
+                 "This is required to be able to compress with Dysco.";
+          throw std::runtime_error(msg.str());
+        }
         if (antennasInBlock[blockOffset].first != antenna1 ||
             antennasInBlock[blockOffset].second != antenna2) {
           std::string antstr;
-- 
2.43.0


From 5677838eb4717935c0bb06f37f169b0d0bc384a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 15/43] fix: dscompress replaces only columns that are not
 compressed yet

When one of the requested columns was already compressed, dscompress renamed
the other columns and then failed, leaving the measurement set without them.
Columns with different shapes were given the shape of the last column.
---
 dscompress.cc | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 67c3d26..f5f62b2 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -342,9 +342,11 @@ int main(int argc, char *argv[]) {
 
   StManModifier modifier(*ms);
 
-  casacore::IPosition shape;
-  bool isDataReplaced = false;
-  for (std::string columnName : columnNames) {
+  // Only the columns that are not stored by Dysco yet are replaced. Every column
+  // can have its own shape.
+  std::vector<std::pair<std::string, casacore::IPosition>> replacedColumns;
+  for (const std::string &columnName : columnNames) {
+    casacore::IPosition shape;
     bool replaced;
     if (columnName == "WEIGHT_SPECTRUM")
       replaced = modifier.PrepareReplacingColumn<float>(
@@ -352,25 +354,29 @@ int main(int argc, char *argv[]) {
     else
       replaced = modifier.PrepareReplacingColumn<casacore::Complex>(
           columnName, "DyscoStMan", bitsPerFloat, bitsPerWeight, shape);
-    isDataReplaced = replaced || isDataReplaced;
+    if (replaced) replacedColumns.emplace_back(columnName, shape);
   }
 
-  if (isDataReplaced) {
-    for (std::string columnName : columnNames) {
-      if (columnName == "WEIGHT_SPECTRUM")
-        createDyscoStManColumn<float>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
-            distribution, 1.0, distributionTruncation, staticSeed);
+  if (!replacedColumns.empty()) {
+    for (const std::pair<std::string, casacore::IPosition> &column :
+         replacedColumns) {
+      if (column.first == "WEIGHT_SPECTRUM")
+        createDyscoStManColumn<float>(*ms, column.first, column.second,
+                                      bitsPerFloat, bitsPerWeight,
+                                      normalization, distribution, 1.0,
+                                      distributionTruncation, staticSeed);
       else
         createDyscoStManColumn<casacore::Complex>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
-            distribution, 1.0, distributionTruncation, staticSeed);
+            *ms, column.first, column.second, bitsPerFloat, bitsPerWeight,
+            normalization, distribution, 1.0, distributionTruncation,
+            staticSeed);
     }
-    for (std::string columnName : columnNames) {
-      if (columnName == "WEIGHT_SPECTRUM")
-        modifier.MoveColumnData<float>(columnName);
+    for (const std::pair<std::string, casacore::IPosition> &column :
+         replacedColumns) {
+      if (column.first == "WEIGHT_SPECTRUM")
+        modifier.MoveColumnData<float>(column.first);
       else
-        modifier.MoveColumnData<casacore::Complex>(columnName);
+        modifier.MoveColumnData<casacore::Complex>(column.first);
     }
     if (reorder) {
       StManModifier::Reorder(ms, msPath);
-- 
2.43.0


From c05f11475c1ece368a8856464cb46cc6ee62f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:49 +0000
Subject: [PATCH 16/43] fix: dscompress can compress a column of a set with
 other Dysco columns

A second invocation tried to add the column to the storage manager that was
made by the first, which is not possible once it holds data, and left the
measurement set with a renamed column.
---
 dscompress.cc | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index f5f62b2..dbd52c7 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -12,15 +12,25 @@
 
 using namespace dyscostman;
 
+bool hasDataManager(casacore::Table &ms, const std::string &managerName) {
+  try {
+    ms.findDataManager(managerName);
+    return true;
+  } catch (std::exception &e) {
+    return false;
+  }
+}
+
 template <typename T>
 void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
+                            const std::string &managerName,
                             const casacore::IPosition &shape,
                             unsigned bitsPerComplex, unsigned bitsPerWeight,
                             Normalization normalization,
                             DyscoDistribution distribution, double studentsTNu,
                             double distributionTruncation, bool staticSeed) {
   std::cout << "Constructing new column '" << name << "'...\n";
-  casacore::ArrayColumnDesc<T> columnDesc(name, "", "DyscoStMan", "DyscoStMan",
+  casacore::ArrayColumnDesc<T> columnDesc(name, "", "DyscoStMan", managerName,
                                           shape);
   columnDesc.setOptions(casacore::ColumnDesc::Direct |
                         casacore::ColumnDesc::FixedShape);
@@ -28,11 +38,11 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   std::cout << "Querying storage manager...\n";
   bool isAlreadyUsed;
   try {
-    ms.findDataManager("DyscoStMan");
+    ms.findDataManager(managerName);
     isAlreadyUsed = true;
   } catch (std::exception &e) {
     std::cout << "Constructing storage manager...\n";
-    DyscoStMan dataManager(bitsPerComplex, bitsPerWeight);
+    DyscoStMan dataManager(bitsPerComplex, bitsPerWeight, managerName);
     switch (distribution) {
       case GaussianDistribution:
         dataManager.SetGaussianDistribution();
@@ -60,7 +70,7 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   // We do not want to do this within the try-catch
   if (isAlreadyUsed) {
     std::cout << "Adding column with existing datamanager...\n";
-    ms.addColumn(columnDesc, "DyscoStMan", false);
+    ms.addColumn(columnDesc, managerName, false);
   }
 }
 
@@ -358,18 +368,24 @@ int main(int argc, char *argv[]) {
   }
 
   if (!replacedColumns.empty()) {
+    // Columns can not be added to a storage manager that already holds data
+    std::string managerName = "DyscoStMan";
+    for (size_t i = 2; hasDataManager(*ms, managerName); ++i)
+      managerName = "DyscoStMan" + std::to_string(i);
+
     for (const std::pair<std::string, casacore::IPosition> &column :
          replacedColumns) {
       if (column.first == "WEIGHT_SPECTRUM")
-        createDyscoStManColumn<float>(*ms, column.first, column.second,
-                                      bitsPerFloat, bitsPerWeight,
-                                      normalization, distribution, 1.0,
+        createDyscoStManColumn<float>(*ms, column.first, managerName,
+                                      column.second, bitsPerFloat,
+                                      bitsPerWeight, normalization,
+                                      distribution, 1.0,
                                       distributionTruncation, staticSeed);
       else
         createDyscoStManColumn<casacore::Complex>(
-            *ms, column.first, column.second, bitsPerFloat, bitsPerWeight,
-            normalization, distribution, 1.0, distributionTruncation,
-            staticSeed);
+            *ms, column.first, managerName, column.second, bitsPerFloat,
+            bitsPerWeight, normalization, distribution, 1.0,
+            distributionTruncation, staticSeed);
     }
     for (const std::pair<std::string, casacore::IPosition> &column :
          replacedColumns) {
-- 
2.43.0


From 1b9bcfb92965d79d1b2d028b3d843965fd7a5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:10 +0000
Subject: [PATCH 17/43] fix: refuse bit rates for which the data can not be
 packed

They were accepted, after which a thread that stored data threw an exception,
which terminates the process.
---
 bytepacker.h  | 17 +++++++++++++++++
 dscompress.cc |  5 +++++
 dyscostman.cc |  7 +++++++
 3 files changed, 29 insertions(+)

diff --git a/bytepacker.h b/bytepacker.h
index 4f0189a..cf1246b 100644
--- a/bytepacker.h
+++ b/bytepacker.h
@@ -25,6 +25,23 @@ namespace dyscostman {
  */
 class BytePacker {
  public:
+  /** Whether symbols with the given number of bits can be packed. */
+  static bool isSupported(unsigned bitCount) {
+    switch (bitCount) {
+      case 2:
+      case 3:
+      case 4:
+      case 6:
+      case 8:
+      case 10:
+      case 12:
+      case 16:
+        return true;
+      default:
+        return false;
+    }
+  }
+
   /**
    * Call a pack..() function for a given bit count. Will forward the pack
    * operation to the one for the given bit count.
diff --git a/dscompress.cc b/dscompress.cc
index dbd52c7..e2c0c41 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -1,3 +1,4 @@
+#include "bytepacker.h"
 #include "dyscodistribution.h"
 #include "dysconormalization.h"
 #include "dyscostman.h"
@@ -188,6 +189,10 @@ int main(int argc, char *argv[]) {
     ++argi;
   }
 
+  if (!BytePacker::isSupported(bitsPerFloat) ||
+      !BytePacker::isSupported(bitsPerWeight))
+    throw std::runtime_error("Unsupported bit rate");
+
   if (columnNames.empty()) columnNames.push_back("DATA");
   std::string msPath = argv[argi];
 
diff --git a/dyscostman.cc b/dyscostman.cc
index e9aa4bc..5f59cb3 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -1,4 +1,5 @@
 #include "dyscostman.h"
+#include "bytepacker.h"
 #include "dyscodatacolumn.h"
 #include "dyscostmancol.h"
 #include "dyscostmanerror.h"
@@ -363,6 +364,12 @@ void DyscoStMan::prepare() {
         "One of the required parameters of the DyscoStMan was not "
         "set!\nDyscoStMan was not correctly initialized by your program.");
 
+  if (!BytePacker::isSupported(_dataBitCount) ||
+      !BytePacker::isSupported(_weightBitCount))
+    throw DyscoStManError(
+        "The bit rate for data or weights is not supported by DyscoStMan: use "
+        "2, 3, 4, 6, 8, 10, 12 or 16 bits");
+
   for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
     DyscoDataColumn *dataCol = dynamic_cast<DyscoDataColumn *>(col.get());
     if (dataCol)
-- 
2.43.0


From 27c91b340909840befc7e679d7908d32f3a4e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 18/43] fix: dscompress refuses a set with one time block
 before changing it

DyscoStMan can not store a single time block. dscompress noticed this only
after removing the uncompressed column, hence all data were lost.
---
 dscompress.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index e2c0c41..b6704a6 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -349,6 +349,11 @@ int main(int argc, char *argv[]) {
           "the previous timeblocks. In other words, not all timesteps had the "
           "same baselines. This is required to be able to compress with "
           "Dysco.");
+    // See ThreadedDyscoColumn::stopThreads()
+    if (blockNumber == 0)
+      throw std::runtime_error(
+          "The measurement set has only one timeblock. DyscoStMan requires at "
+          "least two timeblocks.");
     std::cout << "Time taken: " << watch.ToString() << '\n';
   }
 
-- 
2.43.0


From 28e16e507884b1c29ca8e489268f9f8946fb4cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 19/43] fix: do not change a block before its previous version
 is stored

When a row was written to a block that was still waiting to be written by the
encoding threads, the block was read back from the file before it was stored,
and the rows that were written before were lost.
---
 threadeddyscocolumn.cc | 18 ++++++++++--------
 threadeddyscocolumn.h  |  1 +
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index e27ea28..96a286e 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -108,6 +108,14 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
   _isCurrentBlockChanged = false;
 }
 
+// Wait until the block is not in the write cache, so that it can be read
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::waitUntilStored(size_t blockIndex) {
+  std::unique_lock<std::mutex> lock(_mutex);
+  while (_cache.find(blockIndex) != _cache.end())
+    _cacheChangedCondition.wait(lock);
+}
+
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::getValues(
     casacore::uInt rowNr, casacore::Array<DataType> *dataArr) {
@@ -118,14 +126,7 @@ void ThreadedDyscoColumn<DataType>::getValues(
   } else {
     size_t blockIndex = getBlockIndex(rowNr);
     if (_currentBlock != blockIndex) {
-      std::unique_lock<std::mutex> lock(_mutex);
-      // Wait until the block to be read is not in the write cache
-      typename cache_t::const_iterator cacheItemPtr = _cache.find(blockIndex);
-      while (cacheItemPtr != _cache.end()) {
-        _cacheChangedCondition.wait(lock);
-        cacheItemPtr = _cache.find(blockIndex);
-      }
-      lock.unlock();
+      waitUntilStored(blockIndex);
 
       if (blockIndex >= nBlocksInFile()) {
         // Trying to read a row that was not stored yet -- return zero
@@ -228,6 +229,7 @@ void ThreadedDyscoColumn<DataType>::putValues(
       if (_isCurrentBlockChanged) storeBlock();
 
       // Load new block
+      waitUntilStored(blockIndex);
       loadBlock(blockIndex);
     }
     _timeBlockBuffer->SetData(blockRow, ant1, ant2, dataPtr);
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 1792144..15c3d9d 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -200,6 +200,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
                       unsigned int *unpackedSymbolBuffer,
                       ThreadDataBase *threadUserData);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
+  void waitUntilStored(size_t blockIndex);
   void loadBlock(size_t blockIndex);
   void storeBlock();
   size_t maxCacheSize() const {
-- 
2.43.0


From eeb9a5aa7168acf75e7de0d5b8dab36941c8ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 20/43] fix: remove the file of a storage manager when its last
 column is removed

---
 dyscostman.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 5f59cb3..71e386b 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -428,6 +428,8 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
         _columns.erase(i);
         compactFile();
       }
+      // Allows casacore to remove a manager that has no columns left
+      decrementNcolumn();
       return;
     }
   }
-- 
2.43.0


From 053d77f8a934507542a960d0f29e581d43f325a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:46 +0000
Subject: [PATCH 21/43] fix: dscompress can add more than one column to a
 second storage manager

---
 dscompress.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dscompress.cc b/dscompress.cc
index b6704a6..16ce8c7 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -71,7 +71,7 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   // We do not want to do this within the try-catch
   if (isAlreadyUsed) {
     std::cout << "Adding column with existing datamanager...\n";
-    ms.addColumn(columnDesc, managerName, false);
+    ms.addColumn(columnDesc, managerName, true);
   }
 }
 
-- 
2.43.0


From 8647c2c88ffde974c5273d436713dd7c94ee21e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:46 +0000
Subject: [PATCH 22/43] fix: do not return zeros when reading the last time
 block fails

---
 dyscostman.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 71e386b..022b498 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -480,7 +480,7 @@ void DyscoStMan::readCompressedData(size_t blockIndex,
   if (_fStream->fail()) {
     // This can be sort of ok ; row exists because other columns have written
     // here, but no data had been written yet for this column
-    if (blockIndex + 1 != _nBlocksInFile)
+    if (blockIndex + 1 != _nBlocksInFile || _fStream->bad())
       throw DyscoStManError("I/O error: error while reading file '" +
                             fileName() + "'");
     _fStream->clear();  // reset fail bit
-- 
2.43.0


From fef905de224fbe36a77cd928d102cff6bb2fd86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 23/43] fix: decompress a set that has no WEIGHT_SPECTRUM
 column

---
 stmanmodifier.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index e9bd49d..9635d56 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -48,6 +48,8 @@ class StManModifier {
    */
   bool InitColumnWithDefaultStMan(const std::string &columnName,
                                   bool isWeight) {
+    if (!_ms.tableDesc().isColumn(columnName)) return false;
+
     std::string dataManager;
     if (isWeight)
       dataManager = GetStorageManager<float>(columnName);
-- 
2.43.0


From 20645bd046076d977b67a5e8d3d9eec55430bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 24/43] fix: a copy of an encoder must also decode the reserved
 symbol

The quantity for the reserved symbol is stored after the last element of the
dictionary and was not copied: decoding that symbol with a copied encoder
read outside of the allocated memory.
---
 stochasticencoder.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/stochasticencoder.h b/stochasticencoder.h
index 3948603..64912cf 100644
--- a/stochasticencoder.h
+++ b/stochasticencoder.h
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <cmath>
 #include <cstring>
+#include <limits>
 
 #include "dictionary.h"
 
@@ -45,6 +46,23 @@ class StochasticEncoder {
   StochasticEncoder(size_t quantCount, ValueType stddev,
                     bool gaussianMapping = true);
 
+  StochasticEncoder(const StochasticEncoder &other)
+      : _encDictionary(other._encDictionary),
+        _decDictionary(other._decDictionary) {
+    setReservedQuantity();
+  }
+
+  StochasticEncoder(StochasticEncoder &&) = default;
+
+  StochasticEncoder &operator=(const StochasticEncoder &other) {
+    _encDictionary = other._encDictionary;
+    _decDictionary = other._decDictionary;
+    setReservedQuantity();
+    return *this;
+  }
+
+  StochasticEncoder &operator=(StochasticEncoder &&) = default;
+
   static StochasticEncoder StudentTEncoder(size_t quantCount, double nu,
                                            double rms) {
     StochasticEncoder<ValueType> encoder(quantCount);
@@ -156,6 +174,15 @@ class StochasticEncoder {
   explicit StochasticEncoder(size_t quantCount)
       : _encDictionary(quantCount - 1), _decDictionary(quantCount - 1) {}
 
+  /**
+   * The quantity of the reserved symbol is stored after the last element of
+   * the dictionary, and is therefore not part of a copy of the dictionary.
+   */
+  void setReservedQuantity() {
+    _decDictionary.reserve(_decDictionary.size() + 1);
+    *_decDictionary.end() = std::numeric_limits<ValueType>::quiet_NaN();
+  }
+
   void initializeStudentT(double nu, double rms);
 
   void initializeTruncatedGaussian(double truncationValue, double rms);
-- 
2.43.0


From 48c6d52167921ca54268aedb8dbc6309e1c94465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 25/43] fix: refuse an antenna that can not be stored instead
 of writing out of bounds

With AF normalization, the number of antennae is determined from the first
time block. A row with a higher antenna index in a later time block led to
reading and writing outside of the allocated memory.
---
 dyscodatacolumn.h      | 4 ++++
 threadeddyscocolumn.cc | 7 +++++++
 threadeddyscocolumn.h  | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/dyscodatacolumn.h b/dyscodatacolumn.h
index 7c310a7..1d91ca4 100644
--- a/dyscodatacolumn.h
+++ b/dyscodatacolumn.h
@@ -70,6 +70,10 @@ class DyscoDataColumn final : public ThreadedDyscoColumn<std::complex<float>> {
 
   virtual size_t defaultThreadCount() const override;
 
+  virtual bool isLimitedToAntennae() const override {
+    return _normalization == Normalization::kAF;
+  }
+
  private:
   struct ThreadData final : public ThreadDataBase {
     ThreadData(std::unique_ptr<TimeBlockEncoder> timeBlockEncoder)
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 96a286e..4773c61 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -221,6 +221,13 @@ void ThreadedDyscoColumn<DataType>::putValues(
 
   const int ant1 = (*_ant1Col)(rowNr), ant2 = (*_ant2Col)(rowNr);
   if (areOffsetsInitialized()) {
+    if (isLimitedToAntennae() &&
+        size_t(std::max(ant1, ant2)) >= _antennaCount) {
+      dataArr->freeStorage(dataPtr, deleteIt);
+      throw DyscoStManError(
+          "A row was written for an antenna that is not present in the first "
+          "time block: this is not supported with AF normalization");
+    }
     const size_t blockIndex = getBlockIndex(rowNr),
                  blockRow = getRowWithinBlock(rowNr);
 
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 15c3d9d..b583c62 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -154,6 +154,9 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
   virtual size_t defaultThreadCount() const;
 
+  /** Whether only the antennae of the first time block can be stored. */
+  virtual bool isLimitedToAntennae() const { return false; }
+
   size_t getBitsPerSymbol() const { return _bitsPerSymbol; }
 
   const casacore::IPosition &shape() const { return _shape; }
-- 
2.43.0


From 4b802512182c88f6d8b5e7b5744fa86f515ab296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 26/43] fix: store a table that has only one time block

---
 dyscostman.cc         | 11 +++++++++++
 dyscostmancol.h       | 10 ++++++++++
 threadeddyscocolumn.h | 12 ++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 022b498..3946afa 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -114,6 +114,16 @@ void DyscoStMan::setFromSpec(const casacore::Record &spec) {
 }
 
 void DyscoStMan::makeEmpty() {
+  if (!areOffsetsInitialized()) {
+    // Not more than one time block was written. If there are data, these form
+    // the only block.
+    size_t nRows = 0, nAntennae = 0;
+    for (const std::unique_ptr<DyscoStManColumn> &col : _columns) {
+      nRows = std::max(nRows, col->NBufferedRows());
+      nAntennae = std::max(nAntennae, col->NBufferedAntennae());
+    }
+    if (nRows != 0) initializeRowsPerBlock(nRows, nAntennae, true);
+  }
   for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
     col->shutdown();
   }
@@ -420,6 +430,7 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
        i != _columns.end(); ++i) {
     if (i->get() == column) {
       if (_nBlocksInFile == 0 && !areOffsetsInitialized()) {
+        (*i)->DiscardBuffer();
         _columns.erase(i);
         writeHeader();
       } else {
diff --git a/dyscostmancol.h b/dyscostmancol.h
index 7a10d62..4c46ece 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -36,6 +36,16 @@ class DyscoStManColumn : public casacore::StManColumn {
   /** To be called before destructing the class. */
   virtual void shutdown() = 0;
 
+  /**
+   * Number of rows (counted from the start of the current block) and antennae
+   * of the data that were written but not yet stored. Zero if there are none.
+   */
+  virtual size_t NBufferedRows() const = 0;
+  virtual size_t NBufferedAntennae() const = 0;
+
+  /** Forget the data that were written but not yet stored. */
+  virtual void DiscardBuffer() = 0;
+
   /**
    * Whether this column is writable
    * @returns @c true
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index b583c62..aed5da9 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -116,6 +116,18 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
   virtual size_t CalculateBlockSize(size_t nRowsInBlock,
                                     size_t nAntennae) const final override;
 
+  virtual size_t NBufferedRows() const final override {
+    return _isCurrentBlockChanged ? _timeBlockBuffer->NRows() : 0;
+  }
+
+  virtual size_t NBufferedAntennae() const final override {
+    return _isCurrentBlockChanged ? _timeBlockBuffer->MaxAntennaIndex() + 1 : 0;
+  }
+
+  virtual void DiscardBuffer() final override {
+    _isCurrentBlockChanged = false;
+  }
+
   virtual size_t ExtraHeaderSize() const override { return Header::Size(); }
 
   virtual void SerializeExtraHeader(std::ostream &stream) const final override;
-- 
2.43.0


From c5d9493c608f1f852fee834a02a0ec2409015acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:27 +0000
Subject: [PATCH 27/43] fix: dscompress can compress a set with one time block

---
 dscompress.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 16ce8c7..1857630 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -349,11 +349,6 @@ int main(int argc, char *argv[]) {
           "the previous timeblocks. In other words, not all timesteps had the "
           "same baselines. This is required to be able to compress with "
           "Dysco.");
-    // See ThreadedDyscoColumn::stopThreads()
-    if (blockNumber == 0)
-      throw std::runtime_error(
-          "The measurement set has only one timeblock. DyscoStMan requires at "
-          "least two timeblocks.");
     std::cout << "Time taken: " << watch.ToString() << '\n';
   }
 
-- 
2.43.0


From de14d14bc1185908b1049e35cd9d0598a29a328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 28/43] fix: lock the number of blocks when adding or removing
 a column

---
 dyscostman.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 3946afa..2e02dd6 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -416,7 +416,7 @@ void DyscoStMan::removeRow(casacore::uInt rowNr) {
 }
 
 void DyscoStMan::addColumn(casacore::DataManagerColumn * /*column*/) {
-  if (_nBlocksInFile != 0 || areOffsetsInitialized())
+  if (nBlocksInFile() != 0 || areOffsetsInitialized())
     throw DyscoStManError(
         "Can't add columns while data has been committed to table");
 
@@ -429,7 +429,7 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
            _columns.begin();
        i != _columns.end(); ++i) {
     if (i->get() == column) {
-      if (_nBlocksInFile == 0 && !areOffsetsInitialized()) {
+      if (nBlocksInFile() == 0 && !areOffsetsInitialized()) {
         (*i)->DiscardBuffer();
         _columns.erase(i);
         writeHeader();
-- 
2.43.0


From e2ef57713b654a5c63d8c899170720f655a6290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:40 +0000
Subject: [PATCH 29/43] fix: all lower bound variants return the first of equal
 values

---
 dictionary.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dictionary.h b/dictionary.h
index 2d14c27..5d0097a 100644
--- a/dictionary.h
+++ b/dictionary.h
@@ -107,13 +107,13 @@ class Dictionary {
     assert(_values.size() >= 2);
     size_t p = 0, q = _values.size();
     const size_t m = (p + q) / 2;
-    if (_values[m] <= val)
+    if (_values[m] < val)
       p = m;
     else
       q = m;
     while (p + 1 != q) {
       const size_t l = (p + q) / 2;
-      if (_values[l] <= val)
+      if (_values[l] < val)
         p = l;
       else
         q = l;
@@ -136,7 +136,7 @@ class Dictionary {
     size_t p = 0, q = _values.size();
     while (p + 1 != q) {
       size_t m = (p + q) / 2;
-      if (_values[m] <= val)
+      if (_values[m] < val)
         p = m;
       else
         q = m;
@@ -157,7 +157,7 @@ class Dictionary {
       // This is a bit inefficient, but (p + q)/2 was not allowed, because
       // operator+(ptr,ptr) is not allowed.
       const value_t* m = p + (q - p) / 2;
-      if (*m <= val)
+      if (*m < val)
         p = m;
       else
         q = m;
-- 
2.43.0


From a6dbe3c3d58396a84c73854fe9f35d512784a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 30/43] fix: report a failed seek when reading the last block

---
 dyscostman.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 2e02dd6..2a2291a 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -491,7 +491,8 @@ void DyscoStMan::readCompressedData(size_t blockIndex,
   if (_fStream->fail()) {
     // This can be sort of ok ; row exists because other columns have written
     // here, but no data had been written yet for this column
-    if (blockIndex + 1 != _nBlocksInFile || _fStream->bad())
+    if (blockIndex + 1 != _nBlocksInFile || _fStream->bad() ||
+        !_fStream->eof())
       throw DyscoStManError("I/O error: error while reading file '" +
                             fileName() + "'");
     _fStream->clear();  // reset fail bit
-- 
2.43.0


From fcda8f7d962749df589ee58d77d2a8018f57a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 31/43] fix: report I/O errors while moving data after a column
 is removed

---
 dyscostman.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 2a2291a..aa8be98 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -467,9 +467,15 @@ void DyscoStMan::compactFile() {
                   0);
       _fStream->seekg(oldHeaderSize + oldBlockSize * block + oldOffsets[i]);
       _fStream->read(data.data(), data.size());
-      _fStream->clear();  // The last block might be incomplete
+      // Only the last block might be incomplete
+      if (_fStream->fail() && _fStream->eof() && !_fStream->bad() &&
+          block + 1 == _nBlocksInFile)
+        _fStream->clear();
       _fStream->seekp(getFileOffset(block) + _columns[i]->OffsetInBlock());
       _fStream->write(data.data(), data.size());
+      if (_fStream->fail())
+        throw DyscoStManError("I/O error: error while moving data in file '" +
+                              fileName() + "'");
     }
   }
   _fStream->flush();
-- 
2.43.0


From 97ea28dde36d6bf6eb3d3427af1c3a5c511a7d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 32/43] fix: refuse flags that do not have the shape of the
 data in dscompress

---
 dscompress.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index 1857630..7ef2cdd 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -249,6 +249,9 @@ int main(int argc, char *argv[]) {
       casacore::ArrayColumn<bool> flagCol(*ms, "FLAG");
       casacore::Array<std::complex<float>> dataArr(dataCol.shape(0));
       casacore::Array<bool> flagArr(flagCol.shape(0));
+      if (!dataArr.shape().isEqual(flagArr.shape()))
+        throw std::runtime_error("The flags do not have the same shape as " +
+                                 columnName);
       for (size_t row = 0; row != ms->nrow(); ++row) {
         dataCol.get(row, dataArr);
         flagCol.get(row, flagArr);
-- 
2.43.0


From 4cc051286ce71d5d135560c3926983bae68d2be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 33/43] fix: report a missing option value or measurement set
 in dscompress

---
 dscompress.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 7ef2cdd..a94c732 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -153,14 +153,19 @@ int main(int argc, char *argv[]) {
   std::vector<std::string> columnNames;
 
   int argi = 1;
+  auto nextArgument = [&]() -> const char * {
+    ++argi;
+    if (argi >= argc)
+      throw std::runtime_error(std::string("Missing value for parameter ") +
+                               argv[argi - 1]);
+    return argv[argi];
+  };
   while (argi < argc && argv[argi][0] == '-') {
     std::string p(argv[argi] + 1);
     if (p == "data-bit-rate") {
-      ++argi;
-      bitsPerFloat = atoi(argv[argi]);
+      bitsPerFloat = atoi(nextArgument());
     } else if (p == "weight-bit-rate") {
-      ++argi;
-      bitsPerWeight = atoi(argv[argi]);
+      bitsPerWeight = atoi(nextArgument());
     } else if (p == "reorder") {
       reorder = true;
     } else if (p == "gaussian") {
@@ -170,12 +175,10 @@ int main(int argc, char *argv[]) {
     } else if (p == "studentt") {
       distribution = StudentsTDistribution;
     } else if (p == "truncgaus") {
-      ++argi;
       distribution = TruncatedGaussianDistribution;
-      distributionTruncation = atof(argv[argi]);
+      distributionTruncation = atof(nextArgument());
     } else if (p == "column") {
-      ++argi;
-      columnNames.push_back(argv[argi]);
+      columnNames.push_back(nextArgument());
     } else if (p == "rfnormalization") {
       normalization = Normalization::kRF;
     } else if (p == "afnormalization") {
@@ -194,6 +197,8 @@ int main(int argc, char *argv[]) {
     throw std::runtime_error("Unsupported bit rate");
 
   if (columnNames.empty()) columnNames.push_back("DATA");
+  if (argi >= argc)
+    throw std::runtime_error("No measurement set was specified");
   std::string msPath = argv[argi];
 
   std::cout << "\tbits per data val = " << bitsPerFloat
-- 
2.43.0


From 89efafa1b126c3e35f694111d3c4396905c2c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 34/43] fix: refuse negative antenna indices with AF
 normalization

---
 threadeddyscocolumn.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 4773c61..33cc5f2 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -220,14 +220,16 @@ void ThreadedDyscoColumn<DataType>::putValues(
   }
 
   const int ant1 = (*_ant1Col)(rowNr), ant2 = (*_ant2Col)(rowNr);
+  if (isLimitedToAntennae() &&
+      (std::min(ant1, ant2) < 0 ||
+       (areOffsetsInitialized() &&
+        size_t(std::max(ant1, ant2)) >= _antennaCount))) {
+    dataArr->freeStorage(dataPtr, deleteIt);
+    throw DyscoStManError(
+        "A row was written for an antenna that is not present in the first "
+        "time block: this is not supported with AF normalization");
+  }
   if (areOffsetsInitialized()) {
-    if (isLimitedToAntennae() &&
-        size_t(std::max(ant1, ant2)) >= _antennaCount) {
-      dataArr->freeStorage(dataPtr, deleteIt);
-      throw DyscoStManError(
-          "A row was written for an antenna that is not present in the first "
-          "time block: this is not supported with AF normalization");
-    }
     const size_t blockIndex = getBlockIndex(rowNr),
                  blockRow = getRowWithinBlock(rowNr);
 
-- 
2.43.0


From 02c402dc91caeb6a1a85fa97da984fdf70748b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 35/43] fix: do not decode with antenna indices outside the
 stored antennas

---
 threadeddyscocolumn.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 33cc5f2..9ccb525 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -94,6 +94,15 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     // The table might end before the end of the last block
     const size_t nTableRows = std::max<uint64_t>(
         startRow, std::min<uint64_t>(startRow + nRows, getNTableRows())) - startRow;
+    if (isLimitedToAntennae()) {
+      for (uint64_t row = startRow; row != startRow + nTableRows; ++row) {
+        const int a1 = (*_ant1Col)(row), a2 = (*_ant2Col)(row);
+        if (std::min(a1, a2) < 0 || size_t(std::max(a1, a2)) >= _antennaCount)
+          throw DyscoStManError(
+              "The antenna indices in the table do not match with the stored "
+              "data");
+      }
+    }
     _timeBlockBuffer->resize(nTableRows);
     for (size_t blockRow = 0; blockRow != nTableRows; ++blockRow) {
       int a1 = (*_ant1Col)(startRow + blockRow),
-- 
2.43.0


From 39659020c5242ef2a0a0cad0c1c6ef201a9d9ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 36/43] fix: refuse distribution parameters that do not define
 a distribution

---
 dyscodatacolumn.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dyscodatacolumn.cc b/dyscodatacolumn.cc
index 0bcb784..d37dc54 100644
--- a/dyscodatacolumn.cc
+++ b/dyscodatacolumn.cc
@@ -1,5 +1,6 @@
 #include "dyscodatacolumn.h"
 #include "aftimeblockencoder.h"
+#include "dyscostmanerror.h"
 #include "rftimeblockencoder.h"
 #include "rowtimeblockencoder.h"
 
@@ -8,6 +9,13 @@ namespace dyscostman {
 void DyscoDataColumn::Prepare(DyscoDistribution distribution,
                               Normalization normalization, double studentsTNu,
                               double distributionTruncation) {
+  if (distribution == StudentsTDistribution && !(studentsTNu > 0.0))
+    throw DyscoStManError(
+        "The Student T distribution requires a positive value for nu");
+  if (distribution == TruncatedGaussianDistribution &&
+      !(distributionTruncation > 0.0))
+    throw DyscoStManError(
+        "The truncated Gaussian distribution requires a positive truncation");
   _distribution = distribution;
   _studentsTNu = studentsTNu;
   _normalization = normalization;
-- 
2.43.0


From c2727d98120e23e2ee29fc9960c0a0204e729bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:59 +0000
Subject: [PATCH 37/43] fix: encode weights that are all zero or very small
 with WeightEncoder

---
 weightencoder.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weightencoder.h b/weightencoder.h
index 223e881..d94e623 100644
--- a/weightencoder.h
+++ b/weightencoder.h
@@ -47,7 +47,8 @@ class WeightEncoder {
 
     i = input.begin();
     typename std::vector<symbol_t>::iterator d = dest.begin();
-    const value_t scaleFact = value_t(_quantCount - 1) / scaleVal;
+    const double scaleFact =
+        scaleVal == value_t() ? 0.0 : double(_quantCount - 1) / scaleVal;
     while (i != input.end()) {
       *d = roundf(scaleFact * (*i));
 
@@ -67,7 +68,7 @@ class WeightEncoder {
               const std::vector<symbol_t> &input) const {
     typename std::vector<symbol_t>::const_iterator i = input.begin();
     typename std::vector<value_t>::iterator d = dest.begin();
-    const value_t scaleFact = scaleVal / value_t(_quantCount - 1);
+    const double scaleFact = scaleVal / double(_quantCount - 1);
     while (i != input.end()) {
       *d = (*i) * scaleFact;
 
-- 
2.43.0


From 2f481187ee4401632e61ebd0274c77d7630fd384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:56 +0000
Subject: [PATCH 38/43] fix: refuse files with an unknown distribution or
 normalization

Such a header value left the encoder or the decoder uninitialized, and
reading or writing then dereferenced a null pointer.
---
 dyscostman.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index aa8be98..87d271f 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -239,6 +239,10 @@ void DyscoStMan::readHeader() {
   _name = header.storageManagerName;
   _dataBitCount = header.dataBitCount;
   _weightBitCount = header.weightBitCount;
+  if (header.distribution > TruncatedGaussianDistribution ||
+      header.normalization > static_cast<uint8_t>(Normalization::kRow))
+    throw DyscoStManError("The file '" + fileName() +
+                          "' has an unknown distribution or normalization");
   _distribution = (enum DyscoDistribution)header.distribution;
   _normalization = (enum Normalization)header.normalization;
   _studentTNu = header.studentTNu;
-- 
2.43.0


From 3f13e52cea83841f0df50f969638c33025dbfd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:23 +0000
Subject: [PATCH 39/43] fix: store time blocks in the order in which they were
 finished

Otherwise, with a static seed, the random numbers that are used for a block
depend on the speed of the thread when blocks are not written in order.
---
 threadeddyscocolumn.cc | 11 ++++++++++-
 threadeddyscocolumn.h  | 10 ++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 9ccb525..ace86cd 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -24,6 +24,7 @@ ThreadedDyscoColumn<DataType>::ThreadedDyscoColumn(DyscoStMan *parent,
       _fieldCol(),
       _packedBlockReadBuffer(),
       _unpackedSymbolReadBuffer(),
+      _nextSequenceNr(0),
       _stopThreads(false),
       _currentBlock(std::numeric_limits<size_t>::max()),
       _isCurrentBlockChanged(false),
@@ -174,7 +175,8 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
   // threads can write them
   std::unique_lock<std::mutex> lock(_mutex);
   _timeBlockBuffer->FillMissingRows(nRowsInBlock());
-  CacheItem *item = new CacheItem(std::move(_timeBlockBuffer));
+  CacheItem *item =
+      new CacheItem(std::move(_timeBlockBuffer), _nextSequenceNr++);
   // Wait until there is space available AND the row to be written is not in the
   // cache
   typename cache_t::iterator cacheItemPtr = _cache.find(_currentBlock);
@@ -384,6 +386,13 @@ bool ThreadedDyscoColumn<DataType>::isWriteItemAvailable(
     typename cache_t::iterator &i) {
   i = _cache.begin();
   while (i != _cache.end() && i->second->isBeingWritten) ++i;
+  // Take the item that was stored first: with a static seed, the random numbers
+  // that are used for a block should not depend on the speed of the threads.
+  for (typename cache_t::iterator j = i; j != _cache.end(); ++j) {
+    if (!j->second->isBeingWritten &&
+        j->second->sequenceNr < i->second->sequenceNr)
+      i = j;
+  }
   return (i != _cache.end());
 }
 
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index aed5da9..5ff7adf 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -175,10 +175,15 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
  private:
   struct CacheItem {
-    CacheItem(std::unique_ptr<TimeBlockBuffer<data_t>> &&encoder_)
-        : encoder(std::move(encoder_)), isBeingWritten(false) {}
+    CacheItem(std::unique_ptr<TimeBlockBuffer<data_t>> &&encoder_,
+              size_t sequenceNr_)
+        : encoder(std::move(encoder_)),
+          sequenceNr(sequenceNr_),
+          isBeingWritten(false) {}
 
     std::unique_ptr<TimeBlockBuffer<data_t>> encoder;
+    /** Increases with every item that is put in the cache */
+    size_t sequenceNr;
     bool isBeingWritten;
   };
 
@@ -232,6 +237,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
   aocommon::UVector<unsigned char> _packedBlockReadBuffer;
   aocommon::UVector<unsigned int> _unpackedSymbolReadBuffer;
   cache_t _cache;
+  size_t _nextSequenceNr;
   bool _stopThreads;
   std::mutex _mutex;
   threadgroup _threadGroup;
-- 
2.43.0


From 109e24ce98136dfdfba3ea0d8740d056a4ce3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:46 +0000
Subject: [PATCH 40/43] fix: do not let what is stored depend on the progress
 of the threads

Reading a row that was not stored yet left the current block in memory or
stored it, and rows that were not written yet were either absent or zeros
in the scaling of a block, depending on what was already stored.
---
 threadeddyscocolumn.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index ace86cd..a88d10c 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -78,8 +78,15 @@ void ThreadedDyscoColumn<DataType>::setShapeColumn(
 
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
+  bool isStored = false;
   if (blockIndex < nBlocksInFile()) {
     readCompressedData(blockIndex, _packedBlockReadBuffer.data(), _blockSize);
+    // The space of a block that was skipped holds only zeros
+    isStored = std::any_of(_packedBlockReadBuffer.begin(),
+                           _packedBlockReadBuffer.end(),
+                           [](unsigned char value) { return value != 0; });
+  }
+  if (isStored) {
     const size_t nPolarizations = _shape[0], nChannels = _shape[1],
                  nRows = nRowsInBlock(),
                  nMetaFloats = metaDataFloatCount(nRows, nPolarizations,
@@ -136,6 +143,7 @@ void ThreadedDyscoColumn<DataType>::getValues(
   } else {
     size_t blockIndex = getBlockIndex(rowNr);
     if (_currentBlock != blockIndex) {
+      if (_isCurrentBlockChanged) storeBlock();
       waitUntilStored(blockIndex);
 
       if (blockIndex >= nBlocksInFile()) {
@@ -144,7 +152,6 @@ void ThreadedDyscoColumn<DataType>::getValues(
         return;
       }
 
-      if (_isCurrentBlockChanged) storeBlock();
       loadBlock(blockIndex);
     }
 
-- 
2.43.0


From 1cf8f7df7ebc17e8ec30853d85e5a94e1d12fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:31 +0000
Subject: [PATCH 41/43] fix: keep the keywords of columns that dscompress and
 decompress replace

---
 stmanmodifier.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index 9635d56..f56e2c6 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -7,6 +7,7 @@
 
 #include <casacore/tables/Tables/ArrColDesc.h>
 #include <casacore/tables/Tables/ArrayColumn.h>
+#include <casacore/tables/Tables/TableRecord.h>
 
 #include <iostream>
 
@@ -130,6 +131,7 @@ class StManModifier {
         new casacore::ArrayColumn<T>(_ms, tempName));
     casacore::ArrayColumn<T> newColumn(_ms, columnName);
     copyValues(newColumn, *oldColumn, _ms.nrow());
+    newColumn.rwKeywordSet() = oldColumn->keywordSet();
     oldColumn.reset();
 
     std::cout << "Removing old column...\n";
-- 
2.43.0


From 58435f079752b7083c38e191ba3d56161a89f5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:44 +0000
Subject: [PATCH 42/43] fix: do not overwrite another set with the temporary
 one of the tools

---
 stmanmodifier.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index f56e2c6..371638a 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -3,6 +3,8 @@
 
 #include "dyscostman.h"
 
+#include <casacore/casa/OS/File.h>
+
 #include <casacore/ms/MeasurementSets/MeasurementSet.h>
 
 #include <casacore/tables/Tables/ArrColDesc.h>
@@ -152,7 +154,9 @@ class StManModifier {
     std::cout << "Reordering ms...\n";
     std::string tempName = msLocation;
     while (*tempName.rbegin() == '/') tempName.resize(tempName.size() - 1);
-    tempName += "temp";
+    do {
+      tempName += "temp";
+    } while (casacore::File(tempName).exists());
     ms->deepCopy(tempName, casacore::Table::New, true);
     ms->markForDelete();
 
-- 
2.43.0


From f7031581f4e2c08b9bbda0f0e7a50412f590e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:55 +0000
Subject: [PATCH 43/43] fix: do not abort when GSL can not invert the Student-t
 distribution

---
 stochasticencoder.cc | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/stochasticencoder.cc b/stochasticencoder.cc
index 32b051f..7a76490 100644
--- a/stochasticencoder.cc
+++ b/stochasticencoder.cc
@@ -5,6 +5,7 @@
 
 #include <cmath>
 #include <limits>
+#include <stdexcept>
 
 #ifndef M_SQRT2l
 #define M_SQRT2l 1.4142135623730950488016887242096981L
@@ -121,8 +122,42 @@ StochasticEncoder<ValueType>::StochasticEncoder(size_t quantCount,
   *decItem = std::numeric_limits<ValueType>::quiet_NaN();
 }
 
+namespace {
+
+/**
+ * Inverse of the cumulative Student-t distribution. GSL's function does not
+ * converge for all degrees of freedom, in which case it aborts the program.
+ * For these, the cumulative distribution is inverted by bisection.
+ */
+double invCumulativeStudentT(double p, double nu) {
+  if (p == 0.5) return 0.0;
+  if (!((nu > 0.5 && nu < 1.0) || nu < 0.1 || nu > 1e15))
+    return gsl_cdf_tdist_Pinv(p, nu);
+  const double tail = p < 0.5 ? p : 1.0 - p;
+  double low = 0.0, high = 1.0;
+  while (std::isfinite(high) && gsl_cdf_tdist_Q(high, nu) > tail) {
+    low = high;
+    high *= 2.0;
+  }
+  double mid = 0.5 * (low + high);
+  while (std::isfinite(high) && mid > low && mid < high) {
+    if (gsl_cdf_tdist_Q(mid, nu) > tail)
+      low = mid;
+    else
+      high = mid;
+    mid = 0.5 * (low + high);
+  }
+  return p < 0.5 ? -high : high;
+}
+
+}  // namespace
+
 template <typename ValueType>
 void StochasticEncoder<ValueType>::initializeStudentT(double nu, double rms) {
+  // With a smaller value the outer quantities are not representable
+  if (!std::isfinite(nu) || nu < 0.01)
+    throw std::invalid_argument(
+        "Unsupported degrees of freedom for the Student-t distribution");
   size_t quantCount = _encDictionary.size() + 1;
   _decDictionary.reserve(quantCount);
   typename Dictionary::iterator encItem = _encDictionary.begin();
@@ -130,12 +165,16 @@ void StochasticEncoder<ValueType>::initializeStudentT(double nu, double rms) {
   for (size_t i = 0; i != quantCount - 1; ++i) {
     if (i != 0) {
       num_t rightBoundary = ((num_t)i) / (num_t)(quantCount - 1);
-      *encItem = gsl_cdf_tdist_Pinv(rightBoundary, nu) * rms;
+      *encItem = invCumulativeStudentT(rightBoundary, nu) * rms;
       ++encItem;
     }
 
     num_t val = ((num_t)i + num_t(0.5)) / (num_t)(quantCount - 1);
-    *decItem = gsl_cdf_tdist_Pinv(val, nu) * rms;
+    *decItem = invCumulativeStudentT(val, nu) * rms;
+    if (!std::isfinite(*decItem))
+      throw std::invalid_argument(
+          "The degrees of freedom of the Student-t distribution are too small "
+          "for this bit rate");
     ++decItem;
   }
   *encItem = std::numeric_limits<ValueType>::max();
-- 
2.43.0

