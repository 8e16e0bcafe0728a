From 2084472c88d2cd2e07b1c25cec9e8a38eec53b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:52 +0000
Subject: [PATCH 01/29] fix: report user records lost by a failed flush when
 adding a chunk or finalizing a preallocated index

---
 vrs/DiskFile.cpp    | 4 +++-
 vrs/DiskFile.h      | 1 +
 vrs/IndexRecord.cpp | 9 +++++----
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 9cbc192..8826727 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -68,7 +68,8 @@ const string& DiskFileT<FileChunk>::getFileHandlerName() const {
 
 template <class FileChunk>
 int DiskFileT<FileChunk>::close() {
-  lastError_ = 0;
+  lastError_ = lostDataError_; // data lost when we tried to add a chunk, if any
+  lostDataError_ = 0;
   for (auto& chunk : *chunks_) {
     if (chunk.isOpened()) {
       int error = chunk.close();
@@ -421,6 +422,7 @@ int DiskFileT<FileChunk>::addChunk(const string& chunkFilePath) {
       // We're s***d: the last chunk is messed up, no point in trying to use the new one
       newChunk.close();
       os::remove(chunkFilePath);
+      lostDataError_ = lastError_; // callers may carry on with the current chunk: don't lose track
       return lastError_;
     }
     if (!readOnly_ || filesOpenCount_ > kMaxFilesOpenCount) {
diff --git a/vrs/DiskFile.h b/vrs/DiskFile.h
index 79859ac..dcafbd4 100644
--- a/vrs/DiskFile.h
+++ b/vrs/DiskFile.h
@@ -172,6 +172,7 @@ class VRS_API DiskFileT : public WriteFileHandler {
 
   size_t lastRWSize_{};
   int lastError_{};
+  int lostDataError_{}; // error flushing a chunk before adding another, to report when closing
   bool readOnly_{true};
 };
 
diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 7d39b43..63198d2 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -1044,6 +1044,7 @@ int IndexRecord::Writer::finalizeClassicIndexRecord(
     WriteFileHandler& file,
     int64_t endOfRecordsOffset,
     uint32_t& outLastRecordSize) {
+  int error = 0;
   bool indexRecordWritten = false;
   int64_t descriptionRecordToIndexRecord =
       fileHeader_.indexRecordOffset - fileHeader_.descriptionRecordOffset;
@@ -1056,7 +1057,8 @@ int IndexRecord::Writer::finalizeClassicIndexRecord(
     // It's OK to possibly iterate, because copies are not real-time/capture operations.
     size_t retryIndex = firstCompressionPresetIndex(writtenRecords_.size());
     do {
-      if (file.setPos(fileHeader_.indexRecordOffset) == 0) {
+      // A failed seek may report that buffered user records were lost: don't ignore it.
+      if ((error = file.setPos(fileHeader_.indexRecordOffset)) == 0) {
         uint32_t lastRecordSize = static_cast<uint32_t>(descriptionRecordToIndexRecord);
         if (writeClassicIndexRecord(
                 file,
@@ -1082,11 +1084,10 @@ int IndexRecord::Writer::finalizeClassicIndexRecord(
           }
         }
       }
-    } while (!indexRecordWritten && ++retryIndex < kCompressionLevels.size());
+    } while (error == 0 && !indexRecordWritten && ++retryIndex < kCompressionLevels.size());
   }
   // write the index at the end of the file if we need to
-  int error = 0;
-  if (!indexRecordWritten && (error = file.setPos(endOfRecordsOffset)) == 0) {
+  if (error == 0 && !indexRecordWritten && (error = file.setPos(endOfRecordsOffset)) == 0) {
     fileHeader_.indexRecordOffset = endOfRecordsOffset;
     error = writeClassicIndexRecord(
         file, streamIds_, writtenRecords_, outLastRecordSize, compressor_, kDefaultCompression);
-- 
2.43.0


From eae5a82d6016a31426f1d896b08cb49fd932b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 02/29] fix: a repaired index must not include the suspicious
 record the repair discarded

---
 vrs/IndexRecord.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 63198d2..8b9b086 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -950,6 +950,9 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
     XR_LOGW(
         "Reindexing: record #{}. Discarding last record, because it's suspicious.", index_.size());
     index_.pop_back(); // don't trust that last record
+    if (diskIndex_ && !diskIndex_->empty()) {
+      diskIndex_->pop_back(); // don't write it in the fixed index either
+    }
     absolutePosition -= previousRecordSize;
   }
 
-- 
2.43.0


From 65ff71a9131871b18f85cbc46cf2ee71e8a18b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 03/29] fix: description record sizes reaching past the end of
 the file must not be trusted

---
 vrs/DescriptionRecord.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vrs/DescriptionRecord.cpp b/vrs/DescriptionRecord.cpp
index 5424af1..2f9150f 100644
--- a/vrs/DescriptionRecord.cpp
+++ b/vrs/DescriptionRecord.cpp
@@ -223,6 +223,9 @@ int readMap(FileHandler& file, map<StreamId, string>& outMap, uint32_t& sizeLeft
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
@@ -257,6 +260,9 @@ int readMap(FileHandler& file, map<StreamId, StreamTags>& outMap, uint32_t& size
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
@@ -314,6 +320,11 @@ int DescriptionRecord::readDescriptionRecord(
     return NOT_ENOUGH_DATA;
   }
   uint32_t dataSizeLeft = outDescriptionRecordSize - static_cast<uint32_t>(recordHeaderSize);
+  // Don't trust a size reaching beyond the end of the file: strings are allocated before being read
+  const int64_t fileSizeLeft = file.getTotalSize() - file.getPos();
+  if (fileSizeLeft >= 0 && dataSizeLeft > fileSizeLeft) {
+    dataSizeLeft = static_cast<uint32_t>(fileSizeLeft);
+  }
   switch (recordHeader->formatVersion) {
     case kLegacyDescriptionFormatVersion: {
       map<StreamId, string> descriptions;
-- 
2.43.0


From aaefbb24097c8f03dbe1570ae4e5a2010766f62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 04/29] fix: don't allocate index and data layout buffers
 larger than the data available

---
 vrs/ContentBlockReader.cpp | 11 ++++++++---
 vrs/IndexRecord.cpp        |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index f54268d..2386418 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -455,9 +455,14 @@ bool DataLayoutBlockReader::readBlock(
     if (!XR_VERIFY(fixedDataSize + varDataSize <= kMaxRecordSize)) {
       return false;
     }
-    varData.resize(varDataSize);
-    if (varDataSize > 0) {
-      readBlockStatus = record.reader->read(varData);
+    if (varDataSize > record.reader->getUnreadBytes()) {
+      varData.resize(0); // don't allocate a buffer for data that can't be there
+      readBlockStatus = NOT_ENOUGH_DATA;
+    } else {
+      varData.resize(varDataSize);
+      if (varDataSize > 0) {
+        readBlockStatus = record.reader->read(varData);
+      }
     }
   } else {
     varData.resize(0);
diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 8b9b086..a4f93e7 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -643,7 +643,8 @@ int IndexRecord::Reader::determineClassicIndexLayout(
   }
   if (typeCount > 0) {
     const size_t readSize = sizeof(DiskStreamId) * typeCount;
-    if (readSize > indexRecordPayloadSize - preludeSize) {
+    if (readSize > indexRecordPayloadSize - preludeSize ||
+        (totalFileSize_ >= 0 && readSize > static_cast<uint64_t>(totalFileSize_))) {
       XR_LOGE("Index record too small. Corrupt file or index?");
       return INDEX_RECORD_ERROR;
     }
-- 
2.43.0


From a4447c2e35979a92794552a2d37dc8fb8616494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 05/29] fix: keep records sorted by time when purging old ones

---
 vrs/RecordManager.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index 9ff891c..bcca5e7 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -131,7 +131,7 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
   // and all TagsRecords
   Record* lastState = nullptr;
   Record* lastConfiguration = nullptr;
-  list<Record*> tagsRecords;
+  list<Record*> keptRecords;
   auto iter = activeRecords_.begin();
   while (iter != activeRecords_.end() && (*iter)->timestamp_ < oldestTimestamp) {
     Record* record = *iter;
@@ -145,7 +145,7 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
          lastConfiguration->getTimestamp() < record->getTimestamp())) {
       swap(record, lastConfiguration);
     } else if (record->getRecordType() == Record::Type::TAGS) {
-      tagsRecords.push_back(record);
+      keptRecords.push_back(record);
       record = nullptr;
     }
     if (record != nullptr) {
@@ -158,15 +158,19 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
     }
     iter = activeRecords_.begin();
   }
-  if (lastState != nullptr) {
-    activeRecords_.emplace_front(lastState);
-  }
+  // put back the records we keep, oldest first, as activeRecords_ must stay sorted:
+  // they're all older than the records left
   if (lastConfiguration != nullptr) {
-    activeRecords_.emplace_front(lastConfiguration);
+    keptRecords.push_back(lastConfiguration);
   }
-  if (!tagsRecords.empty()) {
-    activeRecords_.insert(activeRecords_.begin(), tagsRecords.begin(), tagsRecords.end());
+  if (lastState != nullptr) {
+    keptRecords.push_back(lastState);
   }
+  keptRecords.sort([](const Record* lhs, const Record* rhs) {
+    return lhs->timestamp_ < rhs->timestamp_ ||
+        (lhs->timestamp_ == rhs->timestamp_ && lhs->creationOrder_ < rhs->creationOrder_);
+  });
+  activeRecords_.splice(activeRecords_.begin(), keptRecords);
   return count;
 }
 
-- 
2.43.0


From dfae7ba3462c738c78cc32bd0c2961b396d87dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 06/29] fix: a failed compressed file write must not replace
 the existing file, and a failed close must be reported

---
 vrs/DiskFile.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 8826727..538edaf 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -500,12 +500,19 @@ int DiskFileT<FileChunk>::writeZstdFile(const string& path, const void* data, si
   if (dataSize > 0) {
     Compressor compressor;
     uint32_t frameSize = 0;
-    IF_ERROR_LOG_AND_RETURN(
-        compressor.startFrame(dataSize, CompressionPreset::ZstdMedium, frameSize));
-    IF_ERROR_RETURN(compressor.addFrameData(file, data, dataSize, frameSize));
-    IF_ERROR_RETURN(compressor.endFrame(file, frameSize));
+    int status = compressor.startFrame(dataSize, CompressionPreset::ZstdMedium, frameSize);
+    if (status == SUCCESS) {
+      status = compressor.addFrameData(file, data, dataSize, frameSize);
+    }
+    if (status == SUCCESS) {
+      status = compressor.endFrame(file, frameSize);
+    }
+    if (status != SUCCESS) {
+      file.abort(); // don't replace an existing file with a partial one
+      return status;
+    }
   }
-  return SUCCESS;
+  return file.close();
 }
 
 template <class FileChunk>
-- 
2.43.0


From f6631f4c5b0aa8d201afd0ff35dc242c9d248c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 07/29] fix: a failed file details cache write must not leave a
 partial cache file, and sizes in a cache file must not be trusted

---
 vrs/FileDetailsCache.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/vrs/FileDetailsCache.cpp b/vrs/FileDetailsCache.cpp
index a866cd5..7fdc64a 100644
--- a/vrs/FileDetailsCache.cpp
+++ b/vrs/FileDetailsCache.cpp
@@ -193,7 +193,6 @@ int readIndexData(
   }
   IF_ERROR_LOG_AND_RETURN(file.read(diskIndexSize));
   outIndex.resize(0);
-  outIndex.reserve(diskIndexSize);
   Decompressor decompressor;
   vector<DiskRecordInfo> diskRecords;
   size_t indexByteSize = indexSize - sizeof(recordableCount) -
@@ -201,7 +200,9 @@ int readIndexData(
   while (outIndex.size() < diskIndexSize && indexByteSize > 0) {
     size_t frameSize = 0;
     IF_ERROR_LOG_AND_RETURN(decompressor.initFrame(file, frameSize, indexByteSize));
-    if (!XR_VERIFY(frameSize % sizeof(DiskRecordInfo) == 0)) {
+    // Records are written in batches: don't trust a frame size that can't be one
+    if (!XR_VERIFY(frameSize % sizeof(DiskRecordInfo) == 0) ||
+        !XR_VERIFY(frameSize <= kMaxBatchSize * sizeof(DiskRecordInfo))) {
       return FAILURE;
     }
     diskRecords.resize(frameSize / sizeof(DiskRecordInfo));
@@ -220,17 +221,13 @@ int readIndexData(
   return 0;
 }
 
-} // namespace
-
-int write(
-    const string& cacheFile,
+int writeDetails(
+    WriteFileHandler& file,
     const set<StreamId>& streamIds,
     const map<string, string>& fileTags,
     const map<StreamId, StreamTags>& streamTags,
     const vector<IndexRecord::RecordInfo>& recordIndex,
     bool fileHasIndex) {
-  AtomicDiskFile file;
-  IF_ERROR_LOG_AND_RETURN(file.create(cacheFile));
   FileFormat::FileHeader fileHeader;
   fileHeader.init(kMagicHeader1, kMagicHeader2, kMagicHeader3, kOriginalFileFormatVersion);
   if (!fileHasIndex) {
@@ -263,6 +260,25 @@ int write(
   return 0;
 }
 
+} // namespace
+
+int write(
+    const string& cacheFile,
+    const set<StreamId>& streamIds,
+    const map<string, string>& fileTags,
+    const map<StreamId, StreamTags>& streamTags,
+    const vector<IndexRecord::RecordInfo>& recordIndex,
+    bool fileHasIndex) {
+  AtomicDiskFile file;
+  IF_ERROR_LOG_AND_RETURN(file.create(cacheFile));
+  int status = writeDetails(file, streamIds, fileTags, streamTags, recordIndex, fileHasIndex);
+  if (status != 0) {
+    file.abort(); // don't replace an existing cache file with a partial one
+    return status;
+  }
+  return file.close();
+}
+
 int read(
     const string& cacheFile,
     set<StreamId>& outStreamIds,
-- 
2.43.0


From 8580b5e8049a2276209af09745989ebe5c250bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 08/29] fix: don't cache details that could not be read
 entirely, nor save them while they are being sorted or re-read

---
 vrs/RecordFileReader.cpp | 28 ++++++++++++++++++++++------
 vrs/RecordFileReader.h   |  3 ++-
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 7bfa0dc..3fefe67 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -297,9 +297,10 @@ int RecordFileReader::doOpenFile(
           streamTags_,
           recordIndex_,
           fileHasAnIndex_) != 0) {
-    error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader);
-    // Maybe write the file's details to disk
-    if (tryToUseCache && !detailsCacheFilePath.empty()) {
+    bool canCacheDetails = true;
+    error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader, canCacheDetails);
+    // Maybe write the file's details to disk, unless they could not be read entirely
+    if (error == 0 && canCacheDetails && tryToUseCache && !detailsCacheFilePath.empty()) {
       detailsSaveThread_ = make_unique<thread>([detailsCacheFilePath, this]() {
         // It's safe to use those member variables, because we won't modify them until closeFile(),
         // which will join() the thread first.
@@ -337,6 +338,10 @@ int RecordFileReader::doOpenFile(
     }
   }
   if (error == 0 && fileSpec.getExtraAsBool("sort_records", false)) {
+    if (detailsSaveThread_) {
+      detailsSaveThread_->join(); // don't sort the index while it's being saved
+      detailsSaveThread_.reset();
+    }
     sort(recordIndex_.begin(), recordIndex_.end(), fullRecordCompare);
   }
   return error;
@@ -372,8 +377,12 @@ int RecordFileReader::readFileHeader(
 int RecordFileReader::readFileDetails(
     const FileSpec& fileSpec,
     bool autoWriteFixedIndex,
-    FileFormat::FileHeader& fileHeader) {
+    FileFormat::FileHeader& fileHeader,
+    bool& outCanCacheDetails) {
   int error = 0;
+  outCanCacheDetails = true;
+  // Tell a failure to read from the end of the file
+  auto hasReadError = [this]() { return file_->getLastError() != 0 && !file_->isEof(); };
   int64_t firstUserRecordOffset = fileHeader.firstUserRecordOffset;
   if (autoPrefetch_) {
     file_->prefetchReadSequence({{0, max<size_t>(kMinHeaderRead, firstUserRecordOffset)}});
@@ -394,6 +403,7 @@ int RecordFileReader::readFileDetails(
           []() { return "Read description record"; });
       if (error != 0) {
         XR_LOGW("Error reading the file description record: {}", errorCodeToMessageWithCode(error));
+        outCanCacheDetails = false;
       }
       // In early files, the first user record comes after the description record, if any.
       if (descriptionRecordOffset == firstUserRecordOffset) {
@@ -415,6 +425,7 @@ int RecordFileReader::readFileDetails(
   });
   if (error != 0) {
     XR_LOGW("Could not read index record: {}", errorCodeToMessageWithCode(error));
+    outCanCacheDetails = outCanCacheDetails && !hasReadError();
   }
   fileHasAnIndex_ = (error == 0 && indexReader.isIndexComplete());
   if (fileHasAnIndex_) {
@@ -433,9 +444,12 @@ int RecordFileReader::readFileDetails(
       return INDEX_RECORD_ERROR;
     }
     XR_LOGW("Index incomplete. Rebuilding index of '{}'...", fileSpec.getEasyPath());
-    indexReader.rebuildIndex(autoWriteFixedIndex);
+    if (indexReader.rebuildIndex(autoWriteFixedIndex) != 0) {
+      outCanCacheDetails = outCanCacheDetails && !hasReadError();
+    }
     if (!file_->isReadOnly()) {
       XR_LOGI("Re-opening file in read-only mode.");
+      outCanCacheDetails = false; // the fixed file's details are handled while re-opening
       return doOpenFile(fileSpec, /* autoWriteFixedIndex */ false, /* checkSignatureOnly */ false);
     }
   }
@@ -450,7 +464,9 @@ int RecordFileReader::readFileDetails(
       }
       XR_LOGD("Reading TagsRecord for {}", iter->streamId.getName());
       tagsPlayer->prepareToReadTagsFor(iter->streamId);
-      readRecord(*iter, tagsPlayer.get());
+      if (readRecord(*iter, tagsPlayer.get()) != 0) {
+        outCanCacheDetails = false;
+      }
     }
   }
   // If there was any, remove all the TagsRecords from the index.
diff --git a/vrs/RecordFileReader.h b/vrs/RecordFileReader.h
index e8cba60..b251cc6 100644
--- a/vrs/RecordFileReader.h
+++ b/vrs/RecordFileReader.h
@@ -584,7 +584,8 @@ class VRS_API RecordFileReader {
   int readFileDetails(
       const FileSpec& fileSpec,
       bool autoWriteFixedIndex,
-      FileFormat::FileHeader& fileHeader);
+      FileFormat::FileHeader& fileHeader,
+      bool& outCanCacheDetails);
   bool readConfigRecords(
       const set<const IndexRecord::RecordInfo*>& configRecords,
       StreamPlayer* streamPlayer);
-- 
2.43.0


From 617f9a82665f96c566e5207c042a316361c4d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 09/29] fix: the size of a vector of strings read from a record
 must not be trusted when it wraps around

---
 vrs/DataLayout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 4d8f4bd..9373d85 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1441,7 +1441,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
   uint32_t vectorSize = 0;
   size_t readSize = 0;
   if (loadElement<uint32_t>(vectorSize, source, readSize, byteCount)) {
-    if ((vectorSize + 1) * sizeof(uint32_t) <= byteCount) {
+    if ((vectorSize + size_t{1}) * sizeof(uint32_t) <= byteCount) {
       outValues.resize(vectorSize);
       for (string& str : outValues) {
         if (!loadElement<string>(str, source, readSize, byteCount)) {
@@ -1456,7 +1456,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
         "which requires {} bytes at least, but we have only {} bytes...",
         getLabel(),
         vectorSize,
-        (vectorSize + 1) * sizeof(uint32_t),
+        (vectorSize + size_t{1}) * sizeof(uint32_t),
         byteCount);
   }
   outValues = defaultValues_;
-- 
2.43.0


From df6566a8b4fe2a004fbeccd4f2a0aa72631d9b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 10/29] fix: an empty field is not a missing field when a data
 layout has no variable size data at all

---
 vrs/DataLayout.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/DataLayout.h b/vrs/DataLayout.h
index 5dfa871..99b6eac 100644
--- a/vrs/DataLayout.h
+++ b/vrs/DataLayout.h
@@ -513,7 +513,9 @@ class VRS_API DataLayout {
       const IndexEntry& indexEntry = getVarSizeIndex()[varPieceIndex];
       if (indexEntry.getOffset() + indexEntry.getLength() <= varData_.size()) {
         outCount = indexEntry.getLength() / sizeof(T);
-        return reinterpret_cast<T*>(varData_.data() + indexEntry.getOffset());
+        // an empty value isn't a missing value, even when there isn't any variable size data at all
+        int8_t* data = varData_.empty() ? fixedData_.data() : varData_.data();
+        return reinterpret_cast<T*>(data + indexEntry.getOffset());
       }
     }
     outCount = 0;
-- 
2.43.0


From fcd5f1cf0e989b2434655996a215efadfb5fd448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 11/29] fix: the maximum of a data layout array must not be its
 minimum

---
 vrs/DataPieceArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DataPieceArray.h b/vrs/DataPieceArray.h
index ed11759..5a98543 100644
--- a/vrs/DataPieceArray.h
+++ b/vrs/DataPieceArray.h
@@ -292,7 +292,7 @@ class DataPieceArray : public DataPiece {
   /// @param outMax: Reference to set to the maximum valid value.
   /// @return True if there is maximum value & outMax was set.
   bool getMax(T& outMax) const {
-    return getProperty(kMinValue, outMax);
+    return getProperty(kMaxValue, outMax);
   }
 
   /// Patch values in the mapped DataLayout.
-- 
2.43.0


From 387fd931440b2a32ec86371b7511cfa0cf81ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 12/29] fix: a reader opened on another file without being
 closed must forget the records of the previous file

---
 vrs/RecordFileReader.cpp | 9 +++++++--
 vrs/RecordFileReader.h   | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 3fefe67..90adb5c 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -224,6 +224,7 @@ int RecordFileReader::doOpenFile(
     bool checkSignatureOnly) {
   int error = 0;
 
+  clearFileDetails(); // in case another file is still open
   double beforeTime = os::getTimestampSec();
   // open file + read header + read description + read index record + read index
   const int kOpenTotalStepCount = 5;
@@ -494,6 +495,12 @@ int RecordFileReader::readFileDetails(
 int RecordFileReader::closeFile() {
   int result = file_ ? file_->close() : 0;
   file_ = make_unique<DiskFile>();
+  clearFileDetails();
+  openProgressLogger_ = defaultProgressLogger_.get();
+  return result;
+}
+
+void RecordFileReader::clearFileDetails() {
   if (detailsSaveThread_) {
     detailsSaveThread_->join();
     detailsSaveThread_.reset();
@@ -502,14 +509,12 @@ int RecordFileReader::closeFile() {
   streamTags_.clear();
   fileTags_.clear();
   recordIndex_.clear();
-  openProgressLogger_ = defaultProgressLogger_.get();
   streamIndex_.clear();
   streamRecordCounts_.clear();
   recordBoundaries_.clear();
   recordLimits_.clear();
   lastRequest_.clear();
   fileHasAnIndex_ = false;
-  return result;
 }
 
 int RecordFileReader::clearStreamPlayers() {
diff --git a/vrs/RecordFileReader.h b/vrs/RecordFileReader.h
index b251cc6..471aee1 100644
--- a/vrs/RecordFileReader.h
+++ b/vrs/RecordFileReader.h
@@ -579,6 +579,7 @@ class VRS_API RecordFileReader {
   void buildRecordBoundaries(bool boundariesAndLimits = false) const; ///< private, for testing only
 
  private:
+  void clearFileDetails();
   int doOpenFile(const FileSpec& fileSpec, bool autoWriteFixedIndex, bool checkSignatureOnly);
   int readFileHeader(const FileSpec& fileSpec, FileFormat::FileHeader& outFileHeader);
   int readFileDetails(
-- 
2.43.0


From 795e77ddb07283647d8cd0faf6c21aa9006b74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 13/29] fix: a damaged data layout description must not be read
 out of bounds nor make oversized buffers

---
 vrs/DataLayout.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 9373d85..aa37a78 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1874,7 +1874,13 @@ ManualDataLayout::ManualDataLayout(const string& json) : ManualDataLayout() {
     JValue::ConstMemberIterator node = document.FindMember("data_layout");
     if (XR_VERIFY(
             node != document.MemberEnd() && node->value.IsArray(), "Missing data_layout object")) {
+      // fields can't take more space than the largest record
+      const size_t kMaxFixedDataSize = numeric_limits<uint32_t>::max();
+      size_t fixedDataSize = 0;
       for (const JValue& piece : node->value.GetArray()) {
+        if (!XR_VERIFY(piece.IsObject(), "Not a valid field description")) {
+          continue;
+        }
         JValue::ConstMemberIterator name = piece.FindMember("name");
         JValue::ConstMemberIterator type = piece.FindMember("type");
         if (XR_VERIFY(name != piece.MemberEnd() && name->value.IsString(), "name missing") &&
@@ -1888,6 +1894,14 @@ ManualDataLayout::ManualDataLayout(const string& json) : ManualDataLayout() {
           DataPiece* pc =
               add(vrs::internal::DataPieceFactory::makeDataPiece(type->value.GetString(), bundle));
           if (XR_VERIFY(pc, "Could not build DataLayout type {}", type->value.GetString())) {
+            if (pc->hasFixedSize()) {
+              if (!XR_VERIFY(pc->getFixedSize() <= kMaxFixedDataSize - fixedDataSize, "Too large")) {
+                fixedSizePieces_.pop_back(); // the field registered itself when it was built
+                manualPieces.pop_back();
+                continue;
+              }
+              fixedDataSize += pc->getFixedSize();
+            }
             // every piece type supports tags & a required flag: do it here for all of them
             const JValue::ConstMemberIterator tags = piece.FindMember("tags");
             if (tags != piece.MemberEnd() && tags->value.IsObject()) {
-- 
2.43.0


From 2f520e286a55890cdb162eb8b09be596240cc3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 14/29] fix: default values of points and matrices must keep
 double precision, and those of the wrong shape must not be read

---
 vrs/helpers/Rapidjson.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index e3e7898..969e764 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -238,7 +238,10 @@ inline bool getFromJValue(const JValue& value, PointND<T, N>& outPoint) {
     return false;
   }
   for (size_t n = 0; n < N; ++n) {
-    if (!getJValueAs<float, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
+    // don't go through a float, when a double is wanted
+    if (!(is_same<T, double>::value &&
+          getJValueAs<double, T>(value[static_cast<SizeType>(n)], outPoint.dim[n])) &&
+        !getJValueAs<float, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
         !getJValueAs<double, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
         !getJValueAs<int32_t, T>(value[static_cast<SizeType>(n)], outPoint.dim[n])) {
       return false;
@@ -250,11 +253,12 @@ inline bool getFromJValue(const JValue& value, PointND<T, N>& outPoint) {
 template <typename T, size_t N>
 inline bool getFromJValue(const JValue& value, MatrixND<T, N>& outMatrix) {
   using vrs_rapidjson::SizeType;
-  if (value.IsArray() && value.Size() == N) {
-    for (size_t n = 0; n < N; ++n) {
-      if (!getFromJValue<T, N>(value[static_cast<SizeType>(n)], outMatrix.points[n])) {
-        return false;
-      }
+  if (!value.IsArray() || value.Size() != N) {
+    return false;
+  }
+  for (size_t n = 0; n < N; ++n) {
+    if (!getFromJValue<T, N>(value[static_cast<SizeType>(n)], outMatrix.points[n])) {
+      return false;
     }
   }
   return true;
-- 
2.43.0


From bd234de76cca30fd1f1118df8573c15578adb0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 15/29] fix: the size of images over 4 GB must not wrap around

---
 vrs/RecordFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index 6c29897..d7a5535 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -637,7 +637,7 @@ size_t ImageContentBlockSpec::getRawImageSize() const {
     size_t size = 0;
     const uint32_t planeCount = getPlaneCount();
     for (uint32_t plane = 0; plane < planeCount; ++plane) {
-      size += getPlaneStride(plane) * getPlaneHeight(plane);
+      size += static_cast<size_t>(getPlaneStride(plane)) * getPlaneHeight(plane);
     }
     if (size > 0) {
       return size;
-- 
2.43.0


From fb4ef0d161e5f195d6542b17aa4bf44eed8becbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 16/29] fix: don't make a buffer for a content block that can't
 be in the record

---
 vrs/RecordFormatStreamPlayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/RecordFormatStreamPlayer.cpp b/vrs/RecordFormatStreamPlayer.cpp
index 0d1140f..da3b0eb 100644
--- a/vrs/RecordFormatStreamPlayer.cpp
+++ b/vrs/RecordFormatStreamPlayer.cpp
@@ -31,7 +31,7 @@ bool RecordFormatStreamPlayer::onUnsupportedBlock(
     const ContentBlock& contentBlock) {
   // read past the block, if we know its size
   size_t blockSize = contentBlock.getBlockSize();
-  if (blockSize != ContentBlock::kSizeUnknown) {
+  if (blockSize != ContentBlock::kSizeUnknown && blockSize <= record.reader->getUnreadBytes()) {
     vector<uint8_t> data(blockSize);
     record.reader->read(data);
     return true;
-- 
2.43.0


From c9c9ca6d9c2f6769f907d8e42d46b1dcb4016a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 17/29] fix: don't look for an image or audio spec in a
 configuration block that was never read

---
 vrs/ContentBlockReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 2386418..b85b79c 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -76,6 +76,9 @@ bool mayUsePastConfigurationReader(
 /// @param desiredLayout: Layout to map to the record's layout.
 /// @return True there was a record layout to map to, False otherwise.
 bool mapToBlockLayout(RecordFormatReader* reader, size_t blockIndex, DataLayout& desiredLayout) {
+  if (blockIndex >= reader->contentReaders.size()) {
+    return false; // reading of that record stopped before that block
+  }
   DataLayoutBlockReader* layoutReader =
       dynamic_cast<DataLayoutBlockReader*>(reader->contentReaders[blockIndex].get());
   return layoutReader != nullptr && layoutReader->mapToBlockLayout(desiredLayout);
-- 
2.43.0


From b2de203bcd370d694e1c9c4945af80e10dbb98de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 18/29] fix: find an audio spec in an earlier data layout when
 the last one has none

---
 vrs/ContentBlockReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index b85b79c..161f733 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -245,8 +245,9 @@ bool AudioBlockReader::findAudioSpec(
   size_t index = indexUpperLimit;
   while (index-- > lastIndexToCheck) {
     if (reader->recordFormat.getContentBlock(index).getContentType() == ContentType::DATA_LAYOUT) {
-      if (mapToBlockLayout(reader, index, audioSpec_)) {
-        return tryCurrentAudioSpec(record, player, readNextBlock);
+      if (mapToBlockLayout(reader, index, audioSpec_) &&
+          tryCurrentAudioSpec(record, player, readNextBlock)) {
+        return true;
       }
     }
   }
-- 
2.43.0


From aacb758e9773977a1495ab446032540a60e3af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 19/29] fix: an audio block without samples has a size

---
 vrs/ContentBlockReader.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 161f733..fda5501 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -179,12 +179,14 @@ bool AudioBlockReader::readAudioContentBlock(
             record,
             blockIndex_,
             ContentBlock(
-                AudioFormat::PCM,
-                spec.getSampleFormat(),
-                spec.getChannelCount(),
-                spec.getSampleFrameStride(),
-                spec.getSampleRate(),
-                static_cast<uint32_t>(contentBlockSize / sampleFrameStride)));
+                AudioContentBlockSpec(
+                    AudioFormat::PCM,
+                    spec.getSampleFormat(),
+                    spec.getChannelCount(),
+                    spec.getSampleFrameStride(),
+                    spec.getSampleRate(),
+                    static_cast<uint32_t>(contentBlockSize / sampleFrameStride)),
+                contentBlockSize));
       }
     }
   } else {
-- 
2.43.0


From a76826f8488d08181e2975cca28aebbbe9c0fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 20/29] fix: records at the very start of a time range are part
 of it

---
 vrs/utils/FilteredFileReader.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vrs/utils/FilteredFileReader.cpp b/vrs/utils/FilteredFileReader.cpp
index f448ac9..61e5b94 100644
--- a/vrs/utils/FilteredFileReader.cpp
+++ b/vrs/utils/FilteredFileReader.cpp
@@ -166,6 +166,15 @@ void computeIncludedStreams(
   }
 }
 
+/// Find the first record at or after a given time. Only the timestamps matter.
+auto findFirstRecord(const vector<IndexRecord::RecordInfo>& records, double minTime) {
+  return lower_bound(
+      records.begin(),
+      records.end(),
+      minTime,
+      [](const IndexRecord::RecordInfo& record, double time) { return record.timestamp < time; });
+}
+
 } // namespace
 
 bool RecordFilterParams::includeStream(string streamFilter) {
@@ -514,9 +523,7 @@ void FilteredFileReader::preRollConfigAndState(const RecordReaderFunc& recordRea
   }
   vector<size_t> indexes;
   const auto& records = reader.getIndex();
-  // to compare: only the timestamps matters!
-  IndexRecord::RecordInfo firstTime(filter.minTime, 0, StreamId(), Record::Type::UNDEFINED);
-  auto lowerBound = lower_bound(records.begin(), records.end(), firstTime);
+  auto lowerBound = findFirstRecord(records, filter.minTime);
   if (lowerBound != records.end()) {
     size_t index = static_cast<size_t>(lowerBound - records.begin()); // guaranteed positive
     // For each stream & record type, track the records we need to write
@@ -602,8 +609,7 @@ void FilteredFileReader::iterateAdvanced(
   }
 
   const auto& records = reader.getIndex();
-  IndexRecord::RecordInfo firstTime(filter.minTime, 0, StreamId(), Record::Type::UNDEFINED);
-  auto lowerBound = lower_bound(records.begin(), records.end(), firstTime);
+  auto lowerBound = findFirstRecord(records, filter.minTime);
   if (lowerBound != records.end()) {
     size_t first = static_cast<size_t>(lowerBound - records.begin());
     for (size_t k = first; keepGoing && k < records.size(); ++k) {
-- 
2.43.0


From af41c16858a5be13b14f462a74d893893f571eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 21/29] fix: don't copy more of a content block than the record
 has

---
 vrs/utils/FilterCopyHelpers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/FilterCopyHelpers.cpp b/vrs/utils/FilterCopyHelpers.cpp
index 0d138cb..d12c2a9 100644
--- a/vrs/utils/FilterCopyHelpers.cpp
+++ b/vrs/utils/FilterCopyHelpers.cpp
@@ -275,10 +275,11 @@ bool RecordFilterCopier::onUnsupportedBlock(
     size_t /*idx*/,
     const ContentBlock& cb) {
   bool readNext = true;
+  size_t unreadBytes = record.reader->getUnreadBytes();
   size_t blockSize = cb.getBlockSize();
-  if (blockSize == ContentBlock::kSizeUnknown) {
+  if (blockSize == ContentBlock::kSizeUnknown || blockSize > unreadBytes) {
     // just read everything left, without trying to analyze content
-    blockSize = record.reader->getUnreadBytes();
+    blockSize = unreadBytes;
     readNext = false;
   }
   unique_ptr<ContentChunk> bufferSourceChunk = make_unique<ContentChunk>(blockSize);
-- 
2.43.0


From 4b713fad3f2659fe94f34dc4dd2081f5b3034a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 22/29] fix: don't read past the end of a stream name, and
 refuse numbers that don't fit

---
 vrs/StreamId.cpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/vrs/StreamId.cpp b/vrs/StreamId.cpp
index 2332535..8b10f09 100644
--- a/vrs/StreamId.cpp
+++ b/vrs/StreamId.cpp
@@ -16,6 +16,7 @@
 
 #include <vrs/StreamId.h>
 
+#include <limits>
 #include <string>
 #include <unordered_map>
 
@@ -185,24 +186,21 @@ StreamId fromNumericNameWithSeparator(string_view numericName, uint8_t separator
   // Quick parsing of "NNN-DDD", two uint numbers separated by a separator.
   const auto* s = reinterpret_cast<const uint8_t*>(numericName.data());
   const auto* end = s + numericName.size();
-  if (*s < '0' || *s > '9') {
-    return {}; // must start with a digit
-  }
-  int recordableTypeId = 0;
-  for (; *s >= '0' && *s <= '9'; ++s) {
-    recordableTypeId = 10 * recordableTypeId + (*s - '0');
-  }
-  if (*s++ == separator) {
-    if (s >= end || *s < '0' || *s > '9') {
-      return {}; // instance id must start with a digit
-    }
-    uint16_t index = 0;
-    while (s < end && *s >= '0' && *s <= '9') {
-      index = 10 * index + (*s++ - '0');
-    }
-    if (s == end) {
-      return {static_cast<RecordableTypeId>(recordableTypeId), index};
+  // Parse one or more digits, for a number that must fit in 16 bits
+  auto parseNumber = [&s, end](uint32_t& outNumber) {
+    const auto* start = s;
+    for (outNumber = 0; s < end && *s >= '0' && *s <= '9'; ++s) {
+      outNumber = 10 * outNumber + (*s - '0');
+      if (outNumber > numeric_limits<uint16_t>::max()) {
+        return false;
+      }
     }
+    return s > start;
+  };
+  uint32_t typeId = 0;
+  uint32_t instanceId = 0;
+  if (parseNumber(typeId) && s < end && *s++ == separator && parseNumber(instanceId) && s == end) {
+    return {static_cast<RecordableTypeId>(typeId), static_cast<uint16_t>(instanceId)};
   }
   return {};
 }
-- 
2.43.0


From a0797fedb844250ca83e4eb2ef46ea724d068baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 23/29] fix: don't lock up when an asynchronous write can't be
 started

---
 vrs/AsyncDiskFileChunk.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 4618cba..ef1f5a1 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -457,7 +457,6 @@ int AsyncBuffer::start_write(
       io_errno = -1;
     }
   }
-  // The submission failed, call the cleanup function.
   // Note that the return value of aio_write is a subset of the aio_return (which is what a normal
   // completion calls). `aio_write` will either return -1 and set perror (same as aio_return), or
   // will return 0
@@ -478,11 +477,8 @@ int AsyncBuffer::start_write(
 #endif
 
 #if POSIX_AIO_SUPPORTED() || IS_WINDOWS_PLATFORM()
-  if (io_return != 0) {
-    // If aio_write failed call the completion callback immediately to free the buffer
-    on_complete_(io_return, io_errno);
-  }
-  return static_cast<int>(io_return);
+  // If the submission failed, there will be no completion callback: the caller frees the buffer
+  return io_return != 0 ? io_errno : SUCCESS;
 #endif
 }
 
@@ -1024,6 +1020,7 @@ void AsyncDiskFileChunk::pump_buffers_locked() {
   // Move as many queued buffers as we can to the writing state
   while (buffers_writing_ < iodepth_ && !buffers_queued_.empty()) {
     int result = SUCCESS;
+    AsyncBuffer* buffer = buffers_queued_.front().buffer_;
     {
       // N.B. item's storage in in buffers_queued_, don't `pop_front()` until we're done using
       // it
@@ -1031,10 +1028,16 @@ void AsyncDiskFileChunk::pump_buffers_locked() {
       result = item.buffer_->start_write(item.file_, item.offset_, std::move(item.callback_));
     }
     buffers_queued_.pop_front();
-    // Note that `async_error_` is set by the completion routine on a start_write failure, no need
-    // to modify it here
     if (result == SUCCESS) {
       buffers_writing_ += 1;
+    } else {
+      // The write didn't start, so the completion routine won't be called: remember the error, and
+      // free the buffer here. We already own the lock the completion routine would need.
+      int noError = SUCCESS;
+      async_error_.compare_exchange_strong(noError, result);
+      buffer->clear();
+      buffers_free_.push_back(buffer);
+      buffer_freed_cv_.notify_one();
     }
   }
 }
-- 
2.43.0


From d6d5b5e4d64f038a8e5736ed93c21a7bb9713314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 24/29] fix: don't add streams to the index from two threads at
 once

---
 vrs/RecordFileWriter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index ae18dbd..34c6f80 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -728,7 +728,11 @@ uint64_t RecordFileWriter::collectOldRecords(RecordBatch& batch, double maxTimes
   for (auto* recordable : recordables) {
     if (recordable->isRecordableActive()) {
       StreamId id = recordable->getStreamId();
-      indexRecordWriter_.addStream(id);
+      { // mutex guard
+        // both the client's thread & the background thread may be collecting records
+        lock_guard<mutex> lock(recordablesMutex_);
+        indexRecordWriter_.addStream(id);
+      } // mutex guard
       batch.push_back({id, {}});
       list<Record*>& oldRecords = batch.back().second;
       recordable->getRecordManager().collectOldRecords(maxTimestamp, oldRecords);
-- 
2.43.0


From a186c8399a98ff246dc14a0d0335177034e351f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 25/29] fix: give the jobs that were cancelled to the clean-up
 function

---
 vrs/helpers/JobQueue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/helpers/JobQueue.h b/vrs/helpers/JobQueue.h
index 0aefca1..1777a8a 100644
--- a/vrs/helpers/JobQueue.h
+++ b/vrs/helpers/JobQueue.h
@@ -141,7 +141,9 @@ class JobQueue {
       std::function<bool(const T&)> selector,
       std::function<void(const T&)> cleanup = nullptr) {
     std::unique_lock<std::mutex> locker(mutex_);
-    auto iter = std::remove_if(queue_.begin(), queue_.end(), selector);
+    // unlike remove_if, preserve the jobs selected, so they can be passed to the clean-up function
+    auto iter = std::stable_partition(
+        queue_.begin(), queue_.end(), [&selector](const T& job) { return !selector(job); });
     if (cleanup) {
       for (auto subIter = iter; subIter != queue_.end(); ++subIter) {
         cleanup(*subIter);
-- 
2.43.0


From ab858f6b1ea1b41053307276c46e1db12196ce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 26/29] fix: decode bytes past 127 in uris, and don't read past
 the end of one

---
 vrs/FileSpec.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index e800228..cc668a4 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -183,6 +183,7 @@ int FileSpec::fromPathJsonUri(string_view pathJsonUri, string_view defaultFileHa
     // Check if there might be URI parameter in the path, and try to parse it that way.
     auto uriParams = pathJsonUri.find('?');
     bool hasParams = uriParams != string_view::npos && uriParams > 1 &&
+        uriParams + 1 < pathJsonUri.size() &&
         isalpha(static_cast<unsigned char>(pathJsonUri[uriParams + 1])) &&
         pathJsonUri.find('=', uriParams + 2) != string_view::npos;
     fileHandlerName =
@@ -312,6 +313,9 @@ string FileSpec::getSourceLocation() const {
       do {
         c = static_cast<unsigned char>(uri[++end]);
       } while (c == '/');
+      if (end >= uri.size()) {
+        return uri;
+      }
       do {
         c = static_cast<unsigned char>(uri[++end]);
       } while (isalnum(c) != 0 || c == '.' || c == '-' || c == '_');
@@ -507,7 +511,7 @@ int FileSpec::urldecode(string_view in, string& out) {
       c = (xdigitToChar(in[p + 1]) << 4) | xdigitToChar(in[p + 2]);
       p += 2;
     }
-    if (c < 0x20) {
+    if (static_cast<unsigned char>(c) < 0x20) { // char may be signed
       XR_LOGW("Invalid character while decoding input: {} in {}", c, in);
       return INVALID_URI_VALUE;
     }
-- 
2.43.0


From 18d9cc256ed45d3beec5bce8ff78f4f8852f196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 27/29] fix: don't take padding between lines for pixels

---
 vrs/utils/PixelFrame.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/vrs/utils/PixelFrame.cpp b/vrs/utils/PixelFrame.cpp
index 797518b..be57309 100644
--- a/vrs/utils/PixelFrame.cpp
+++ b/vrs/utils/PixelFrame.cpp
@@ -67,6 +67,29 @@ bool grey16helps(PixelFormat format) {
       format == PixelFormat::RAW10 || format == PixelFormat::BAYER10_GBRG;
 }
 
+// tell if the conversion of a particular pixel format only handles lines without padding
+bool convertsPackedLines(PixelFormat format) {
+  switch (format) {
+    case PixelFormat::GREY10:
+    case PixelFormat::GREY12:
+    case PixelFormat::GREY16:
+    case PixelFormat::RGB10:
+    case PixelFormat::RGB12:
+    case PixelFormat::BGR8:
+    case PixelFormat::RGB32F:
+    case PixelFormat::RGBA32F:
+    case PixelFormat::DEPTH32F:
+    case PixelFormat::SCALAR64F:
+    case PixelFormat::BAYER8_RGGB:
+    case PixelFormat::BAYER8_BGGR:
+    case PixelFormat::BAYER8_GBRG:
+    case PixelFormat::BAYER10_GBRG:
+      return true;
+    default:
+      return false;
+  }
+}
+
 } // namespace
 
 namespace vrs::utils {
@@ -452,6 +475,17 @@ bool PixelFrame::normalizeFrame(
   if (normalizedPixelFormat == PixelFormat::UNDEFINED) {
     normalizedPixelFormat = getNormalizedPixelFormat(srcFormat, grey16supported, options);
   }
+  if (convertsPackedLines(srcFormat) && getStride() > imageSpec_.getDefaultStride()) {
+    // the conversions below don't skip what might be between lines: remove it first
+    PixelFrame packedFrame(srcFormat, getWidth(), getHeight());
+    const uint32_t srcStride = getStride();
+    const uint32_t dstStride = packedFrame.getStride();
+    for (uint32_t h = 0; h < getHeight(); ++h) {
+      memcpy(packedFrame.wdata() + h * dstStride, rdata() + h * srcStride, dstStride);
+    }
+    return packedFrame.normalizeFrame(
+        outNormalizedFrame, grey16supported, options, normalizedPixelFormat);
+  }
   if (options.semantic == ImageSemantic::Depth && getPixelFormat() == PixelFormat::DEPTH32F &&
       normalizedPixelFormat == PixelFormat::GREY8) {
     if (options.min < options.max) {
-- 
2.43.0


From b5031dea6a5c50958d4723e4fa297558dc331c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 28/29] fix: scale the last pixels of packed 10 bit lines to 16
 bits

---
 vrs/utils/converters/Grey10PackedConverters.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrs/utils/converters/Grey10PackedConverters.cpp b/vrs/utils/converters/Grey10PackedConverters.cpp
index b8514ce..8d9733c 100644
--- a/vrs/utils/converters/Grey10PackedConverters.cpp
+++ b/vrs/utils/converters/Grey10PackedConverters.cpp
@@ -174,11 +174,11 @@ bool convertGrey10PackedToGrey16(
     // copy leftover pixels, if any
     uint32_t w = total_quadruplets_in_row * 4;
     if (w < width) {
-      grey10[0] = grey10packed->p1();
+      grey10[0] = grey10packed->p1() << 6;
       if (++w < width) {
-        grey10[1] = grey10packed->p2();
+        grey10[1] = grey10packed->p2() << 6;
         if (++w < width) {
-          grey10[2] = grey10packed->p3();
+          grey10[2] = grey10packed->p3() << 6;
         }
       }
     }
-- 
2.43.0


From bce7006e4c341bfcbd819d487bc29f0a5d492f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 29/29] fix: order names by unsigned chars, and refuse sizes
 that don't fit

---
 vrs/helpers/Strings.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vrs/helpers/Strings.cpp b/vrs/helpers/Strings.cpp
index 19b5dd4..b6ce728 100644
--- a/vrs/helpers/Strings.cpp
+++ b/vrs/helpers/Strings.cpp
@@ -23,6 +23,7 @@
 
 #include <algorithm>
 #include <iterator>
+#include <limits>
 #include <sstream>
 
 #include <fmt/format.h>
@@ -120,7 +121,7 @@ bool beforeFileName(const char* left, const char* right) {
   if (left[leftPos] == 0) {
     return right[rightPos] != 0;
   }
-  return left[leftPos] < right[rightPos];
+  return static_cast<uint8_t>(left[leftPos]) < static_cast<uint8_t>(right[rightPos]);
 }
 
 string humanReadableFileSize(int64_t bytes) {
@@ -438,7 +439,9 @@ bool readByteSize(string_view strSize, uint64_t& outByteSize) {
     default:
       break;
   }
-  if (factor == 1 || next + 2 != end || safetolower(next[1]) != 'b') {
+  if (factor == 1 || next + 2 != end || safetolower(next[1]) != 'b' ||
+      outByteSize > numeric_limits<uint64_t>::max() / factor) {
+    outByteSize = 0;
     return false;
   }
   outByteSize *= factor;
-- 
2.43.0

