From 7d1297acf65bb57ac560a54712846b86d866534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 01/31] fix: assemble frames that span append calls from the
 frame buffer

A frame completed by a later append was taken from the caller's pointer
instead of the frame buffer, its bytes were counted twice, and it was not
passed on to the lower resolutions.
---
 src/streaming/zarr.stream.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 1f1f8cb..5d512f3 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -437,21 +437,23 @@ ZarrStream::append(const void* data_, size_t nbytes)
               std::min(bytes_of_frame - frame_buffer_offset_, bytes_remaining);
 
             memcpy(frame_buffer_.data() + frame_buffer_offset_,
-                   data + bytes_written,
+                   data,
                    bytes_to_copy);
             frame_buffer_offset_ += bytes_to_copy;
             bytes_written += bytes_to_copy;
+            data += bytes_to_copy;
 
             // ready to flush the frame buffer
             if (frame_buffer_offset_ == bytes_of_frame) {
                 const size_t bytes_written_this_frame =
-                  writers_[0]->write_frame({ data, bytes_of_frame });
+                  writers_[0]->write_frame(frame_buffer_);
                 if (bytes_written_this_frame == 0) {
                     break;
                 }
 
-                bytes_written += bytes_to_copy;
-                data += bytes_to_copy;
+                write_multiscale_frames_(frame_buffer_.data(),
+                                         bytes_written_this_frame);
+
                 frame_buffer_offset_ = 0;
             }
         } else if (bytes_remaining < bytes_of_frame) { // begin partial frame
-- 
2.43.0


From b2db6d5ea7223178ae8d10999e9b0d585438dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 02/31] fix: give every chunk layer of a shard its own index
 entries

With more than one chunk per shard along the append dimension, each layer
overwrote the shard index entries of the layer before it.
---
 src/streaming/zarrv3.array.writer.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index d687076..6fc1c2e 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -89,6 +89,16 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         chunk_in_shards[index].push_back(i);
     }
 
+    // a shard can hold several layers of chunks along the append dimension
+    const auto& append_dim = config_.dimensions->final_dim();
+    size_t frames_per_layer = append_dim.chunk_size_px;
+    for (auto i = 1; i < config_.dimensions->ndims() - 2; ++i) {
+        frames_per_layer *= config_.dimensions->at(i).array_size_px;
+    }
+    const size_t layer = (frames_written_ - 1) / frames_per_layer %
+                         append_dim.shard_size_chunks;
+    const size_t layer_offset = layer * chunk_buffers_.size();
+
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
     std::latch latch(n_shards);
@@ -102,6 +112,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        &chunk_table,
                                        file_offset,
                                        write_table,
+                                       layer_offset,
                                        &latch,
                                        this](std::string& err) {
             bool success = false;
@@ -117,7 +128,8 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                     }
 
                     const auto internal_idx =
-                      config_.dimensions->shard_internal_index(chunk_idx);
+                      config_.dimensions->shard_internal_index(layer_offset +
+                                                               chunk_idx);
                     chunk_table.at(2 * internal_idx) = *file_offset;
                     chunk_table.at(2 * internal_idx + 1) = chunk.size();
 
-- 
2.43.0


From 11d5c288ada1bcb1dd5fadf4eff2e512f69b8fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 03/31] fix: complete open shards and data sinks when a stream
 is finalized

A stream ended on a chunk layer boundary inside a shard left the shard
without its index and the array without metadata, and the last data sinks
were dropped instead of finalized, which lost the objects on S3.
---
 src/streaming/array.writer.cpp        | 14 +++++++-------
 src/streaming/zarrv3.array.writer.cpp |  6 ++++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 0c7fd21..268f03a 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -395,20 +395,20 @@ zarr::ArrayWriter::compress_buffers_()
 void
 zarr::ArrayWriter::flush_()
 {
-    if (bytes_to_flush_ == 0) {
+    // when finalizing, open sinks must be completed even if nothing is pending
+    const bool has_open_sinks = is_finalizing_ && !data_sinks_.empty();
+    if (bytes_to_flush_ == 0 && !has_open_sinks) {
         return;
     }
 
     // compress buffers and write out
-    compress_buffers_();
+    if (bytes_to_flush_ > 0) {
+        compress_buffers_();
+    }
     CHECK(flush_impl_());
 
-    const auto should_rollover = should_rollover_();
-    if (should_rollover) {
+    if (should_rollover_() || is_finalizing_) {
         rollover_();
-    }
-
-    if (should_rollover || is_finalizing_) {
         CHECK(write_array_metadata_());
     }
 
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 6fc1c2e..a2ddf27 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -84,7 +84,8 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
 
     // get shard indices for each chunk
     std::vector<std::vector<size_t>> chunk_in_shards(n_shards);
-    for (auto i = 0; i < chunk_buffers_.size(); ++i) {
+    const auto n_chunks = bytes_to_flush_ > 0 ? chunk_buffers_.size() : 0;
+    for (auto i = 0; i < n_chunks; ++i) {
         const auto index = config_.dimensions->shard_index_for_chunk(i);
         chunk_in_shards[index].push_back(i);
     }
@@ -115,7 +116,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        layer_offset,
                                        &latch,
                                        this](std::string& err) {
-            bool success = false;
+            bool success = true;
 
             try {
                 for (const auto& chunk_idx : chunks) {
@@ -145,6 +146,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                 }
             } catch (const std::exception& exc) {
                 err = "Failed to write chunk: " + std::string(exc.what());
+                success = false;
             }
 
             latch.count_down();
-- 
2.43.0


From 22baa0272ddfda0157ee7193abbe65d4aa7e115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 04/31] fix: record a failed creation job before releasing the
 caller

The jobs counted the latch down first, so the caller could return success
for a failed directory or file, and the job then wrote to its dead frame.
---
 src/streaming/sink.creator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index d1343c2..c74d2f9 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -268,8 +268,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                  [dirname, &latch, &all_successful](std::string& err) -> bool {
                      if (dirname.empty()) {
                          err = "Directory name must not be empty.";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -279,8 +279,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                      } else if (fs::exists(dirname)) {
                          err =
                            "'" + dirname + "' exists but is not a directory";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -289,8 +289,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                          if (!fs::create_directories(dirname, ec)) {
                              err = "Failed to create directory '" + dirname +
                                    "': " + ec.message();
-                             latch.count_down();
                              all_successful.fetch_and(0);
+                             latch.count_down();
                              return false;
                          }
                      }
@@ -344,8 +344,8 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
@@ -395,8 +395,8 @@ zarr::SinkCreator::make_files_(
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
-- 
2.43.0


From 8f7a7c2f3f99b9f491904ec1cbd0bbf73910e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 05/31] fix: report failures to open and write a file

FileSink ignored the state of its stream, so that a file that could not be
opened or written counted as a success, and errors met when its buffer was
written out at destruction were lost.
---
 src/streaming/file.sink.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/streaming/file.sink.cpp b/src/streaming/file.sink.cpp
index 312d90c..348ab86 100644
--- a/src/streaming/file.sink.cpp
+++ b/src/streaming/file.sink.cpp
@@ -1,3 +1,4 @@
+#include "macros.hh"
 #include "file.sink.hh"
 
 #include <filesystem>
@@ -7,6 +8,7 @@ namespace fs = std::filesystem;
 zarr::FileSink::FileSink(std::string_view filename)
 : file_(filename.data(), std::ios::binary | std::ios::trunc)
 {
+    EXPECT(file_.is_open(), "Failed to open file '", filename, "'");
 }
 
 bool
@@ -19,12 +21,16 @@ zarr::FileSink::write(size_t offset, std::span<const std::byte> data)
 
     file_.seekp(offset);
     file_.write(reinterpret_cast<const char*>(data.data()), bytes_of_buf);
-    return true;
+
+    // errors only show once the bytes have left the stream's own buffer
+    file_.flush();
+    return file_.good();
 }
 
 bool
 zarr::FileSink::flush_()
 {
     file_.flush();
-    return true;
+    return file_.good();
 }
+
-- 
2.43.0


From cdd650da38bbf6d8034e933da3353e531c4a568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 06/31] fix: do not terminate when the status of a directory
 cannot be read

The throwing file-system queries escaped the job and with it the worker
thread.
---
 src/streaming/sink.creator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index c74d2f9..525a132 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -273,10 +273,12 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                          return false;
                      }
 
-                     if (fs::is_directory(dirname)) {
+                     std::error_code stat_ec;
+                     const auto status = fs::status(dirname, stat_ec);
+                     if (fs::is_directory(status)) {
                          latch.count_down();
                          return true;
-                     } else if (fs::exists(dirname)) {
+                     } else if (fs::exists(status)) {
                          err =
                            "'" + dirname + "' exists but is not a directory";
                          all_successful.fetch_and(0);
-- 
2.43.0


From f4266f96250b5c6bf69fa36e358f644e77a17dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 07/31] fix: fail a flush when one of its jobs fails

Failures to compress or write a chunk or a shard were dropped: the flush
went on, wrote metadata covering the lost data and reported success.
---
 src/streaming/array.writer.cpp        | 8 +++++++-
 src/streaming/zarrv2.array.writer.cpp | 8 ++++++--
 src/streaming/zarrv3.array.writer.cpp | 6 +++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 268f03a..b4aa187 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -4,6 +4,7 @@
 #include "zarr.stream.hh"
 #include "sink.creator.hh"
 
+#include <atomic>
 #include <cmath>
 #include <functional>
 #include <latch>
@@ -349,10 +350,11 @@ zarr::ArrayWriter::compress_buffers_()
     const auto bytes_per_px = bytes_of_type(config_.dtype);
 
     std::scoped_lock lock(buffers_mutex_);
+    std::atomic<char> all_successful = 1;
     std::latch latch(chunk_buffers_.size());
     for (auto& chunk : chunk_buffers_) {
         EXPECT(thread_pool_->push_job(
-                 [&params, buf = &chunk, bytes_per_px, &latch](
+                 [&params, buf = &chunk, bytes_per_px, &latch, &all_successful](
                    std::string& err) -> bool {
                      bool success = false;
                      const size_t bytes_of_chunk = buf->size();
@@ -373,6 +375,7 @@ zarr::ArrayWriter::compress_buffers_()
                                               0 /* blocksize - 0:automatic */,
                                               1);
 
+                         EXPECT(nb > 0, "Blosc error code ", nb);
                          tmp.resize(nb);
                          buf->swap(tmp);
 
@@ -381,6 +384,8 @@ zarr::ArrayWriter::compress_buffers_()
                          err = "Failed to compress chunk: " +
                                std::string(exc.what());
                      }
+
+                     all_successful.fetch_and((char)success);
                      latch.count_down();
 
                      return success;
@@ -390,6 +395,7 @@ zarr::ArrayWriter::compress_buffers_()
 
     // wait for all threads to finish
     latch.wait();
+    CHECK(all_successful);
 }
 
 void
diff --git a/src/streaming/zarrv2.array.writer.cpp b/src/streaming/zarrv2.array.writer.cpp
index 8b620ca..f8d230b 100644
--- a/src/streaming/zarrv2.array.writer.cpp
+++ b/src/streaming/zarrv2.array.writer.cpp
@@ -5,6 +5,7 @@
 
 #include <nlohmann/json.hpp>
 
+#include <atomic>
 #include <latch>
 #include <stdexcept>
 
@@ -83,6 +84,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
 
     CHECK(data_sinks_.size() == chunk_buffers_.size());
 
+    std::atomic<char> all_successful = 1;
     std::latch latch(chunk_buffers_.size());
     {
         std::scoped_lock lock(buffers_mutex_);
@@ -92,7 +94,8 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                      std::move([&sink = data_sinks_.at(i),
                                 data_ = chunk.data(),
                                 size = chunk.size(),
-                                &latch](std::string& err) -> bool {
+                                &latch,
+                                &all_successful](std::string& err) -> bool {
                          bool success = false;
                          try {
                              std::span data{
@@ -105,6 +108,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                                    std::string(exc.what());
                          }
 
+                         all_successful.fetch_and((char)success);
                          latch.count_down();
                          return success;
                      })),
@@ -115,7 +119,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
-    return true;
+    return (bool)all_successful;
 }
 
 bool
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index a2ddf27..ed18e00 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -6,6 +6,7 @@
 #include <nlohmann/json.hpp>
 
 #include <algorithm> // std::fill
+#include <atomic>
 #include <latch>
 #include <stdexcept>
 
@@ -102,6 +103,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
 
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
+    std::atomic<char> all_successful = 1;
     std::latch latch(n_shards);
     for (auto i = 0; i < n_shards; ++i) {
         const auto& chunks = chunk_in_shards.at(i);
@@ -115,6 +117,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        write_table,
                                        layer_offset,
                                        &latch,
+                                       &all_successful,
                                        this](std::string& err) {
             bool success = true;
 
@@ -149,6 +152,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                 success = false;
             }
 
+            all_successful.fetch_and((char)success);
             latch.count_down();
             return success;
         }),
@@ -168,7 +172,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         std::fill(shard_file_offsets_.begin(), shard_file_offsets_.end(), 0);
     }
 
-    return true;
+    return (bool)all_successful;
 }
 
 bool
-- 
2.43.0


From d1086e3838eb2e32eebfa0cf5424a0af8b33ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 08/31] fix: make a storage failure stick to the stream

An append that failed left the stream accepting further data, and an error
reported by a job could be lost, overwritten or torn, as error_ was written
by pool threads without synchronization and could be set to nothing.
---
 src/streaming/zarr.stream.cpp | 40 ++++++++++++++++++++++++++---------
 src/streaming/zarr.stream.hh  | 10 ++++++++-
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 5d512f3..9d8c4a7 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -393,10 +393,10 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
       zarr::bytes_of_frame(*dimensions_, static_cast<ZarrDataType>(dtype_)));
 
     // create the data store
-    EXPECT(create_store_(), error_);
+    EXPECT(create_store_(), get_error_());
 
     // allocate writers
-    EXPECT(create_writers_(), error_);
+    EXPECT(create_writers_(), get_error_());
 
     // allocate multiscale frame placeholders
     if (multiscale_) {
@@ -404,29 +404,39 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
     }
 
     // allocate metadata sinks
-    EXPECT(create_metadata_sinks_(), error_);
+    EXPECT(create_metadata_sinks_(), get_error_());
 
     // write base metadata
-    EXPECT(write_base_metadata_(), error_);
+    EXPECT(write_base_metadata_(), get_error_());
 
     // write group metadata
-    EXPECT(write_group_metadata_(), error_);
+    EXPECT(write_group_metadata_(), get_error_());
 
     // write external metadata
-    EXPECT(write_external_metadata_(), error_);
+    EXPECT(write_external_metadata_(), get_error_());
 }
 
 size_t
 ZarrStream::append(const void* data_, size_t nbytes)
 {
-    EXPECT(error_.empty(), "Cannot append data: ", error_.c_str());
+    const std::string error = get_error_();
+    EXPECT(error.empty(), "Cannot append data: ", error);
 
     if (0 == nbytes) {
         return 0;
     }
 
-    auto* data = static_cast<const std::byte*>(data_);
+    try {
+        return append_(static_cast<const std::byte*>(data_), nbytes);
+    } catch (const std::exception& exc) {
+        set_error_(exc.what()); // no further appends
+        throw;
+    }
+}
 
+size_t
+ZarrStream_s::append_(const std::byte* data, size_t nbytes)
+{
     const size_t bytes_of_frame = frame_buffer_.size();
     size_t bytes_written = 0;
 
@@ -538,7 +548,17 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 void
 ZarrStream_s::set_error_(const std::string& msg)
 {
-    error_ = msg;
+    std::scoped_lock lock(error_mutex_);
+    if (error_.empty()) {
+        error_ = msg.empty() ? "Unknown error" : msg;
+    }
+}
+
+std::string
+ZarrStream_s::get_error_() const
+{
+    std::scoped_lock lock(error_mutex_);
+    return error_;
 }
 
 bool
@@ -969,7 +989,7 @@ finalize_stream(struct ZarrStream_s* stream)
     }
 
     if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->error_);
+        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
         return false;
     }
 
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index d359391..3843312 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -10,6 +10,7 @@
 
 #include <cstddef> // size_t
 #include <memory>  // unique_ptr
+#include <mutex>
 #include <optional>
 
 struct ZarrStream_s
@@ -40,6 +41,7 @@ struct ZarrStream_s
     };
 
     std::string error_; // error message. If nonempty, an error occurred.
+    mutable std::mutex error_mutex_; // error_ is set from pool threads, too
 
     ZarrVersion version_;
     std::string store_path_;
@@ -72,11 +74,17 @@ struct ZarrStream_s
     void commit_settings_(const struct ZarrStreamSettings_s* settings);
 
     /**
-     * @brief Set an error message.
+     * @brief Set an error message, unless there is one already.
      * @param msg The error message to set.
      */
     void set_error_(const std::string& msg);
 
+    /** @brief Get the error message, empty if no error occurred. */
+    std::string get_error_() const;
+
+    /** @brief Append data to the stream, throwing on failure. */
+    size_t append_(const std::byte* data, size_t nbytes);
+
     /** @brief Create the data store. */
     [[nodiscard]] bool create_store_();
 
-- 
2.43.0


From d1099148d620074b7194d30aafff2001707cf0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 09/31] fix: release the stream and its writers when finalizing
 fails

ZarrStream_destroy leaked the stream, its threads and files when anything
failed, let exceptions out of the C interface, and flushed again buffers
that a failed flush had already compressed or partly written.
---
 src/streaming/acquire.zarr.cpp |  2 +-
 src/streaming/array.writer.cpp | 31 +++++++++++++++++++++----------
 src/streaming/array.writer.hh  |  1 +
 src/streaming/zarr.stream.cpp  | 32 +++++++++++++++++++++++---------
 4 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/streaming/acquire.zarr.cpp b/src/streaming/acquire.zarr.cpp
index 3e9b183..d775b6c 100644
--- a/src/streaming/acquire.zarr.cpp
+++ b/src/streaming/acquire.zarr.cpp
@@ -152,7 +152,7 @@ extern "C"
     void ZarrStream_destroy(struct ZarrStream_s* stream)
     {
         if (!finalize_stream(stream)) {
-            return;
+            LOG_ERROR("Failed to finalize Zarr stream");
         }
 
         delete stream;
diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index b4aa187..804f571 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -94,6 +94,7 @@ zarr::ArrayWriter::ArrayWriter(
   , frames_written_{ 0 }
   , append_chunk_index_{ 0 }
   , is_finalizing_{ false }
+  , flush_failed_{ false }
 {
 }
 
@@ -407,6 +408,8 @@ zarr::ArrayWriter::flush_()
         return;
     }
 
+    flush_failed_ = true; // until done
+
     // compress buffers and write out
     if (bytes_to_flush_ > 0) {
         compress_buffers_();
@@ -423,6 +426,7 @@ zarr::ArrayWriter::flush_()
 
     // reset state
     bytes_to_flush_ = 0;
+    flush_failed_ = false;
 }
 
 void
@@ -453,19 +457,26 @@ zarr::finalize_array(std::unique_ptr<ArrayWriter>&& writer)
         return true;
     }
 
-    writer->is_finalizing_ = true;
+    // take ownership so that the writer is released whatever happens
+    const auto writer_ = std::move(writer);
+
+    // pending data cannot be told from data already written after a failure
+    bool success = !writer_->flush_failed_;
+
+    writer_->is_finalizing_ = true;
     try {
-        writer->flush_(); // data sinks finalized here
+        if (success) {
+            writer_->flush_(); // data sinks finalized here
+        }
+
+        if (!finalize_sink(std::move(writer_->metadata_sink_))) {
+            LOG_ERROR("Failed to finalize metadata sink");
+            success = false;
+        }
     } catch (const std::exception& exc) {
         LOG_ERROR("Failed to finalize array writer: ", exc.what());
-        return false;
+        success = false;
     }
 
-    if (!finalize_sink(std::move(writer->metadata_sink_))) {
-        LOG_ERROR("Failed to finalize metadata sink");
-        return false;
-    }
-
-    writer.reset();
-    return true;
+    return success;
 }
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index 076b114..a5fc486 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -75,6 +75,7 @@ class ArrayWriter
     uint32_t frames_written_;
     uint32_t append_chunk_index_;
     bool is_finalizing_;
+    bool flush_failed_; // a flush was started but could not be completed
 
     std::shared_ptr<S3ConnectionPool> s3_connection_pool_;
 
diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 9d8c4a7..ac65e11 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -988,16 +988,29 @@ finalize_stream(struct ZarrStream_s* stream)
         return true;
     }
 
-    if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
-        return false;
+    // whatever fails on the way, release everything the stream holds
+    bool success = true;
+
+    try {
+        if (!stream->write_group_metadata_()) {
+            LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
+            success = false;
+        }
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error finalizing Zarr stream: ", exc.what());
+        success = false;
     }
 
     for (auto& [sink_name, sink] : stream->metadata_sinks_) {
-        if (!finalize_sink(std::move(sink))) {
-            LOG_ERROR("Error finalizing Zarr stream. Failed to write ",
-                      sink_name);
-            return false;
+        try {
+            if (!finalize_sink(std::move(sink))) {
+                LOG_ERROR("Error finalizing Zarr stream. Failed to write ",
+                          sink_name);
+                success = false;
+            }
+        } catch (const std::exception& exc) {
+            LOG_ERROR("Error finalizing Zarr stream: ", exc.what());
+            success = false;
         }
     }
     stream->metadata_sinks_.clear();
@@ -1006,7 +1019,7 @@ finalize_stream(struct ZarrStream_s* stream)
         if (!finalize_array(std::move(stream->writers_[i]))) {
             LOG_ERROR("Error finalizing Zarr stream. Failed to write array ",
                       i);
-            return false;
+            success = false;
         }
     }
     stream->writers_.clear(); // flush before shutting down thread pool
@@ -1017,6 +1030,7 @@ finalize_stream(struct ZarrStream_s* stream)
             delete[] *frame;
         }
     }
+    stream->scaled_frames_.clear();
 
-    return true;
+    return success;
 }
-- 
2.43.0


From e84895ade8697256f521574b9ae9d9e7dff50eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 10/31] fix: downsample pixels, not bytes, without overflow

scale_image averaged single bytes of the frame whatever the pixel type, and
average_two_frames overflowed for 32- and 64-bit integers.
---
 src/streaming/zarr.stream.cpp | 89 +++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 30 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index ac65e11..3362edf 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -9,6 +9,7 @@
 #include <blosc.h>
 
 #include <filesystem>
+#include <type_traits>
 
 #ifdef min
 #undef min
@@ -285,14 +286,53 @@ dimension_type_to_string(ZarrDimensionType type)
     }
 }
 
+/// @brief Mean of @p N values, truncated toward zero for integer types.
+/// The sum never leaves the range of T.
+template<typename T, size_t N>
+T
+mean(const T (&values)[N])
+{
+    if constexpr (std::is_integral_v<T>) {
+        constexpr T n = N;
+        T quotient = 0, remainder = 0;
+        for (const T value : values) {
+            quotient += value / n;
+            remainder += value % n;
+        }
+        quotient += remainder / n;
+        remainder %= n;
+
+        // truncate toward zero if the signs differ
+        if (quotient > 0 && remainder < 0) {
+            --quotient;
+        } else if (quotient < 0 && remainder > 0) {
+            ++quotient;
+        }
+        return quotient;
+    } else {
+        double sum = 0;
+        for (const T value : values) {
+            sum += static_cast<double>(value) / N;
+        }
+        return static_cast<T>(sum);
+    }
+}
+
 template<typename T>
 [[nodiscard]] std::byte*
-scale_image(const std::byte* const src,
+scale_image(const std::byte* const src_,
             size_t& bytes_of_src,
             size_t& width,
             size_t& height)
 {
-    CHECK(src);
+    CHECK(src_);
+
+    // the caller's data need not be aligned
+    const auto px = [src_](size_t idx) {
+        T value;
+        memcpy(&value, src_ + idx * sizeof(T), sizeof(T));
+        return value;
+    };
 
     const size_t bytes_of_frame = width * height * sizeof(T);
     EXPECT(bytes_of_src >= bytes_of_frame,
@@ -301,22 +341,13 @@ scale_image(const std::byte* const src,
            bytes_of_src);
 
     const int downscale = 2;
-    constexpr auto bytes_of_type = static_cast<double>(sizeof(T));
-    const double factor = 0.25;
-
-    const auto w_pad = static_cast<double>(width + (width % downscale));
-    const auto h_pad = static_cast<double>(height + (height % downscale));
 
-    const auto size_downscaled =
-      static_cast<uint32_t>(w_pad * h_pad * factor * bytes_of_type);
+    const size_t w_pad = width + (width % downscale);
+    const size_t h_pad = height + (height % downscale);
 
-    auto* dst = new T[size_downscaled];
-    EXPECT(dst,
-           "Failed to allocate ",
-           size_downscaled,
-           " bytes for destination frame");
+    const size_t px_downscaled = (w_pad / downscale) * (h_pad / downscale);
 
-    memset(dst, 0, size_downscaled);
+    auto* dst = new T[px_downscaled];
 
     size_t dst_idx = 0;
     for (auto row = 0; row < height; row += downscale) {
@@ -326,23 +357,21 @@ scale_image(const std::byte* const src,
             size_t src_idx = row * width + col;
             const bool pad_width = (col == width - 1 && width != w_pad);
 
-            auto here = static_cast<double>(src[src_idx]);
-            auto right = static_cast<double>(
-              src[src_idx + (1 - static_cast<int>(pad_width))]);
-            auto down = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height))]);
-            auto diag = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height)) +
-                  (1 - static_cast<int>(pad_width))]);
-
-            dst[dst_idx++] =
-              static_cast<T>(factor * (here + right + down + diag));
+            const T here = px(src_idx);
+            const T right = px(src_idx + (1 - static_cast<int>(pad_width)));
+            const T down =
+              px(src_idx + width * (1 - static_cast<int>(pad_height)));
+            const T diag =
+              px(src_idx + width * (1 - static_cast<int>(pad_height)) +
+                 (1 - static_cast<int>(pad_width)));
+
+            dst[dst_idx++] = mean<T>({ here, right, down, diag });
         }
     }
 
-    bytes_of_src = size_downscaled;
-    width = static_cast<size_t>(w_pad) / 2;
-    height = static_cast<size_t>(h_pad) / 2;
+    bytes_of_src = px_downscaled * sizeof(T);
+    width = w_pad / downscale;
+    height = h_pad / downscale;
 
     return reinterpret_cast<std::byte*>(dst);
 }
@@ -366,7 +395,7 @@ average_two_frames(void* dst_,
 
     const auto num_pixels = bytes_of_src / sizeof(T);
     for (auto i = 0; i < num_pixels; ++i) {
-        dst[i] = static_cast<T>(0.5 * (dst[i] + src[i]));
+        dst[i] = mean<T>({ dst[i], src[i] });
     }
 }
 } // namespace
-- 
2.43.0


From dd1d396c843dfb88238f8ce35a543793956dd953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 11/31] fix: free downsampled frames once the next level has
 used them

---
 src/streaming/zarr.stream.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 3362edf..acd282a 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -977,16 +977,17 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
     size_t frame_width = dimensions_->width_dim().array_size_px;
     size_t frame_height = dimensions_->height_dim().array_size_px;
 
-    std::byte* dst;
+    std::unique_ptr<std::byte[]> dst, src; // src keeps data alive
     for (auto i = 1; i < writers_.size(); ++i) {
-        dst = scale(data, bytes_of_data, frame_width, frame_height);
+        dst.reset(scale(data, bytes_of_data, frame_width, frame_height));
 
         // bytes_of data is now downscaled
         // frame_width and frame_height are now the new dimensions
 
         if (scaled_frames_[i]) {
-            average2(dst, bytes_of_data, *scaled_frames_[i], bytes_of_data);
-            std::span frame_data{ reinterpret_cast<const std::byte*>(dst),
+            average2(
+              dst.get(), bytes_of_data, *scaled_frames_[i], bytes_of_data);
+            std::span frame_data{ static_cast<const std::byte*>(dst.get()),
                                   bytes_of_data };
             EXPECT(writers_[i]->write_frame(frame_data),
                    "Failed to write frame to writer %zu",
@@ -997,13 +998,10 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
             scaled_frames_[i].reset();
 
             // set up for next iteration
-            if (i + 1 < writers_.size()) {
-                data = dst;
-            } else {
-                delete[] dst;
-            }
+            src = std::move(dst);
+            data = src.get();
         } else {
-            scaled_frames_[i] = dst;
+            scaled_frames_[i] = dst.release();
             break;
         }
     }
-- 
2.43.0


From 46ddb8d758efd39400db36f852fb36e985bdb638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 12/31] fix: stop adding levels when no dimension can shrink
 any further

With a chunk size of 1 in every dimension no chunk ever gets smaller, and
create never returned.
---
 src/streaming/array.writer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 804f571..ef60853 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -63,6 +63,17 @@ zarr::downsample(const ArrayWriterConfig& config,
     downsampled_config.compression_params = config.compression_params;
 
     // can we downsample downsampled_config?
+    bool can_shrink = false;
+    for (auto i = 0; i < config.dimensions->ndims(); ++i) {
+        const auto& dim = downsampled_config.dimensions->at(i);
+        if (dim.type != ZarrDimensionType_Channel && dim.array_size_px > 1) {
+            can_shrink = true;
+        }
+    }
+    if (!can_shrink) {
+        return false;
+    }
+
     for (auto i = 0; i < config.dimensions->ndims(); ++i) {
         // downsampling made the chunk size strictly smaller
         const auto& dim = config.dimensions->at(i);
-- 
2.43.0


From 7d686f0dfd2babed9c7b7a50679803062d0e18d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 13/31] fix: return S3 connections when a request throws

Failed multipart requests and bucket checks that threw kept their
connection, so that after enough of them every operation hung. A multipart
upload that could not be created also no longer counts as in progress.
---
 src/streaming/s3.sink.cpp      | 36 +++++++++++++++++++++++++---------
 src/streaming/s3.sink.hh       |  2 +-
 src/streaming/sink.creator.cpp |  7 ++++++-
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 81150ab..0ffed25 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -125,16 +125,28 @@ zarr::S3Sink::is_multipart_upload_() const
     return multipart_upload_.has_value();
 }
 
-void
+bool
 zarr::S3Sink::create_multipart_upload_()
 {
-    multipart_upload_ = MultiPartUpload{};
-
     auto connection = connection_pool_->get_connection();
-    multipart_upload_->upload_id =
-      connection->create_multipart_object(bucket_name_, object_key_);
 
+    bool retval = false;
+    try {
+        const auto upload_id =
+          connection->create_multipart_object(bucket_name_, object_key_);
+
+        multipart_upload_ = MultiPartUpload{};
+        multipart_upload_->upload_id = upload_id;
+
+        retval = true;
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
+
+    // cleanup
     connection_pool_->return_connection(std::move(connection));
+
+    return retval;
 }
 
 bool
@@ -144,8 +156,8 @@ zarr::S3Sink::flush_part_()
         return false;
     }
 
-    if (!is_multipart_upload_()) {
-        create_multipart_upload_();
+    if (!is_multipart_upload_() && !create_multipart_upload_()) {
+        return false;
     }
 
     auto connection = connection_pool_->get_connection();
@@ -194,9 +206,15 @@ zarr::S3Sink::finalize_multipart_upload_()
     const auto& upload_id = multipart_upload_->upload_id;
     const auto& parts = multipart_upload_->parts;
 
-    bool retval = connection->complete_multipart_object(
-      bucket_name_, object_key_, upload_id, parts);
+    bool retval = false;
+    try {
+        retval = connection->complete_multipart_object(
+          bucket_name_, object_key_, upload_id, parts);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
 
+    // cleanup
     connection_pool_->return_connection(std::move(connection));
 
     return retval;
diff --git a/src/streaming/s3.sink.hh b/src/streaming/s3.sink.hh
index 49d2219..45b1937 100644
--- a/src/streaming/s3.sink.hh
+++ b/src/streaming/s3.sink.hh
@@ -56,7 +56,7 @@ class S3Sink : public Sink
     /**
      * @brief Create a new multipart upload.
      */
-    void create_multipart_upload_();
+    [[nodiscard]] bool create_multipart_upload_();
 
     /**
      * @brief Flush the current part to S3.
diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index 525a132..f9b9335 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -417,7 +417,12 @@ zarr::SinkCreator::bucket_exists_(std::string_view bucket_name)
     EXPECT(connection_pool_, "S3 connection pool not provided.");
 
     auto conn = connection_pool_->get_connection();
-    bool bucket_exists = conn->bucket_exists(bucket_name);
+    bool bucket_exists = false;
+    try {
+        bucket_exists = conn->bucket_exists(bucket_name);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
 
     connection_pool_->return_connection(std::move(conn));
 
-- 
2.43.0


From 85f8fecd04739bfe3c790246385262cfd02c6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 14/31] fix: never complete an upload that is missing a part

After a failed part the upload was completed with the parts that did get
through, and finalization reported success.
---
 src/streaming/s3.sink.cpp | 10 ++++++++++
 src/streaming/s3.sink.hh  |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 0ffed25..1cabba8 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -22,6 +22,11 @@ zarr::S3Sink::S3Sink(std::string_view bucket_name,
 bool
 zarr::S3Sink::flush_()
 {
+    if (failed_) {
+        LOG_ERROR("Not completing object ", object_key_, " after a failure");
+        return false;
+    }
+
     if (is_multipart_upload_()) {
         const auto& parts = multipart_upload_->parts;
         if (nbytes_buffered_ > 0 && !flush_part_()) {
@@ -56,6 +61,10 @@ zarr::S3Sink::write(size_t offset, std::span<const std::byte> data)
         return true;
     }
 
+    if (failed_) {
+        return false;
+    }
+
     if (offset < nbytes_flushed_) {
         LOG_ERROR("Cannot write data at offset ",
                   offset,
@@ -81,6 +90,7 @@ zarr::S3Sink::write(size_t offset, std::span<const std::byte> data)
         }
 
         if (nbytes_buffered_ == part_buffer_.size() && !flush_part_()) {
+            failed_ = true;
             return false;
         }
     }
diff --git a/src/streaming/s3.sink.hh b/src/streaming/s3.sink.hh
index 45b1937..f76478e 100644
--- a/src/streaming/s3.sink.hh
+++ b/src/streaming/s3.sink.hh
@@ -38,6 +38,7 @@ class S3Sink : public Sink
     std::array<std::byte, max_part_size_> part_buffer_;
     size_t nbytes_buffered_{ 0 };
     size_t nbytes_flushed_{ 0 };
+    bool failed_{ false }; // a part was lost
 
     std::optional<MultiPartUpload> multipart_upload_;
 
-- 
2.43.0


From c719beb76c28f988c69d5c1bf334c9f0fc28f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 15/31] fix: do not truncate the offset of a gather write to 32
 bits

---
 src/streaming/vectorized.file.writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/vectorized.file.writer.cpp b/src/streaming/vectorized.file.writer.cpp
index 18b57f8..52392cb 100644
--- a/src/streaming/vectorized.file.writer.cpp
+++ b/src/streaming/vectorized.file.writer.cpp
@@ -191,7 +191,7 @@ zarr::VectorizedFileWriter::write_vectors(
     ssize_t bytes_written = pwritev(fd_,
                                     iovecs.data(),
                                     static_cast<int>(iovecs.size()),
-                                    static_cast<int>(offset));
+                                    static_cast<off_t>(offset));
 
     if (bytes_written != total_bytes) {
         auto error = get_last_error_as_string();
-- 
2.43.0


From 625e866539cfec34b43c7815f4803e93fca12f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 16/31] fix: store raw chunks when the compression settings
 name no compressor

Such settings were taken for compressed ones with an unrecognized codec.
---
 src/streaming/zarr.stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index acd282a..a9445a1 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -27,7 +27,8 @@ is_s3_acquisition(const struct ZarrStreamSettings_s* settings)
 bool
 is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
 {
-    return nullptr != settings->compression_settings;
+    return nullptr != settings->compression_settings &&
+           settings->compression_settings->compressor != ZarrCompressor_None;
 }
 
 [[nodiscard]] bool
@@ -225,7 +226,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         return false;
     }
 
-    if (is_compressed_acquisition(settings) &&
+    if (settings->compression_settings &&
         !validate_compression_settings(settings->compression_settings)) {
         return false;
     }
-- 
2.43.0


From 59c59bcd9318932c79c9bdb862b6ba29aed3c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 17/31] fix: reject settings with missing strings instead of
 crashing

---
 src/streaming/zarr.stream.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index a9445a1..27a595f 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -31,21 +31,32 @@ is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
            settings->compression_settings->compressor != ZarrCompressor_None;
 }
 
+[[nodiscard]] bool
+is_missing_or_empty_string(const char* s, std::string_view err_on_empty)
+{
+    return zarr::is_empty_string(s ? s : "", err_on_empty);
+}
+
 [[nodiscard]] bool
 validate_s3_settings(const ZarrS3Settings* settings)
 {
-    if (zarr::is_empty_string(settings->endpoint, "S3 endpoint is empty")) {
+    if (is_missing_or_empty_string(settings->endpoint,
+                                   "S3 endpoint is empty")) {
         return false;
     }
-    if (zarr::is_empty_string(settings->access_key_id,
-                              "S3 access key ID is empty")) {
+    if (is_missing_or_empty_string(settings->access_key_id,
+                                   "S3 access key ID is empty")) {
         return false;
     }
-    if (zarr::is_empty_string(settings->secret_access_key,
-                              "S3 secret access key is empty")) {
+    if (is_missing_or_empty_string(settings->secret_access_key,
+                                   "S3 secret access key is empty")) {
         return false;
     }
 
+    if (is_missing_or_empty_string(settings->bucket_name,
+                                   "S3 bucket name is empty")) {
+        return false;
+    }
     std::string trimmed = zarr::trim(settings->bucket_name);
     if (trimmed.length() < 3 || trimmed.length() > 63) {
         LOG_ERROR("Invalid length for S3 bucket name: ",
@@ -161,7 +172,8 @@ validate_dimension(const ZarrDimensionProperties* dimension,
                    ZarrVersion version,
                    bool is_append)
 {
-    if (zarr::is_empty_string(dimension->name, "Dimension name is empty")) {
+    if (is_missing_or_empty_string(dimension->name,
+                                   "Dimension name is empty")) {
         return false;
     }
 
-- 
2.43.0


From ea69b19f2d13a66471f7628d13fba088c3aee745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 18/31] fix: write an empty object when the custom metadata is
 empty

acquire.json was left as an empty file, which is not valid JSON.
---
 src/streaming/zarr.stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 27a595f..bee5fd5 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -548,7 +548,8 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
     store_path_ = zarr::trim(settings->store_path);
     if (settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
-    } else {
+    }
+    if (custom_metadata_.empty()) {
         custom_metadata_ = "{}";
     }
 
-- 
2.43.0


From 12f0dc6788375e4f4ea2f7d223c92feed0a5cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 19/31] fix: make the attributes of the v2 array valid JSON

0/.zattrs was left as an empty file.
---
 src/streaming/zarr.stream.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index bee5fd5..935c798 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -787,6 +787,20 @@ ZarrStream_s::write_base_metadata_()
         return false;
     }
 
+    // the attributes of the full-resolution array
+    if (version_ == 2) {
+        const std::string attrs_str = "{}";
+        std::span attrs{ reinterpret_cast<const std::byte*>(attrs_str.data()),
+                         attrs_str.size() };
+
+        const std::unique_ptr<zarr::Sink>& attrs_sink =
+          metadata_sinks_.at("0/.zattrs");
+        if (!attrs_sink || !attrs_sink->write(0, attrs)) {
+            set_error_("Error writing array attributes");
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From cc29c303ecb610ca1b3a33390b6e6d17f9f32645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 20/31] fix: compute the frames per chunk layer in 64 bits

---
 src/streaming/zarr.dimension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/zarr.dimension.cpp b/src/streaming/zarr.dimension.cpp
index 4629f70..97b64e4 100644
--- a/src/streaming/zarr.dimension.cpp
+++ b/src/streaming/zarr.dimension.cpp
@@ -49,7 +49,7 @@ ArrayDimensions::chunk_lattice_index(uint64_t frame_id,
 
     // the first dimension is a special case
     if (dim_index == 0) {
-        auto divisor = dims_.front().chunk_size_px;
+        size_t divisor = dims_.front().chunk_size_px;
         for (auto i = 1; i < ndims() - 2; ++i) {
             const auto& dim = dims_[i];
             divisor *= dim.array_size_px;
-- 
2.43.0


From 1877ae78ab79056ca5fdf9a8e6274ed41ca16651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 21/31] fix: count chunks and shards without overflowing 32
 bits

---
 src/streaming/zarr.common.cpp    | 9 +++++----
 src/streaming/zarr.dimension.cpp | 3 +--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/streaming/zarr.common.cpp b/src/streaming/zarr.common.cpp
index f70fde0..ed2738d 100644
--- a/src/streaming/zarr.common.cpp
+++ b/src/streaming/zarr.common.cpp
@@ -76,8 +76,9 @@ zarr::chunks_along_dimension(const ZarrDimension& dimension)
 {
     EXPECT(dimension.chunk_size_px > 0, "Invalid chunk size.");
 
-    return (dimension.array_size_px + dimension.chunk_size_px - 1) /
-           dimension.chunk_size_px;
+    const uint64_t array_size = dimension.array_size_px;
+    const uint64_t chunk_size = dimension.chunk_size_px;
+    return (array_size + chunk_size - 1) / chunk_size;
 }
 
 uint32_t
@@ -87,7 +88,7 @@ zarr::shards_along_dimension(const ZarrDimension& dimension)
         return 0;
     }
 
-    const auto shard_size = dimension.shard_size_chunks;
-    const auto n_chunks = chunks_along_dimension(dimension);
+    const uint64_t shard_size = dimension.shard_size_chunks;
+    const uint64_t n_chunks = chunks_along_dimension(dimension);
     return (n_chunks + shard_size - 1) / shard_size;
 }
diff --git a/src/streaming/zarr.dimension.cpp b/src/streaming/zarr.dimension.cpp
index 97b64e4..5049bdc 100644
--- a/src/streaming/zarr.dimension.cpp
+++ b/src/streaming/zarr.dimension.cpp
@@ -78,8 +78,7 @@ ArrayDimensions::tile_group_offset(uint64_t frame_id) const
     std::vector<size_t> strides(dims_.size(), 1);
     for (auto i = dims_.size() - 1; i > 0; --i) {
         const auto& dim = dims_[i];
-        const auto a = dim.array_size_px, c = dim.chunk_size_px;
-        strides[i - 1] = strides[i] * ((a + c - 1) / c);
+        strides[i - 1] = strides[i] * zarr::chunks_along_dimension(dim);
     }
 
     size_t offset = 0;
-- 
2.43.0


From 6e48690b0662d623864c6e3d4ca980ec155b6ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 22/31] fix: reject negative enumerators in the settings

---
 src/streaming/zarr.stream.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 935c798..68b1150 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -37,6 +37,15 @@ is_missing_or_empty_string(const char* s, std::string_view err_on_empty)
     return zarr::is_empty_string(s ? s : "", err_on_empty);
 }
 
+/// @brief Check that @p value is one of the first @p count enumerators. Values
+/// from C may be anything, including negative.
+template<typename EnumT>
+[[nodiscard]] bool
+is_in_range(EnumT value, EnumT count)
+{
+    return static_cast<unsigned>(value) < static_cast<unsigned>(count);
+}
+
 [[nodiscard]] bool
 validate_s3_settings(const ZarrS3Settings* settings)
 {
@@ -103,12 +112,12 @@ validate_filesystem_store_path(std::string_view data_root)
 [[nodiscard]] bool
 validate_compression_settings(const ZarrCompressionSettings* settings)
 {
-    if (settings->compressor >= ZarrCompressorCount) {
+    if (!is_in_range(settings->compressor, ZarrCompressorCount)) {
         LOG_ERROR("Invalid compressor: ", settings->compressor);
         return false;
     }
 
-    if (settings->codec >= ZarrCompressionCodecCount) {
+    if (!is_in_range(settings->codec, ZarrCompressionCodecCount)) {
         LOG_ERROR("Invalid compression codec: ", settings->codec);
         return false;
     }
@@ -177,7 +186,7 @@ validate_dimension(const ZarrDimensionProperties* dimension,
         return false;
     }
 
-    if (dimension->type >= ZarrDimensionTypeCount) {
+    if (!is_in_range(dimension->type, ZarrDimensionTypeCount)) {
         LOG_ERROR("Invalid dimension type: ", dimension->type);
         return false;
     }
@@ -233,7 +242,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         return false;
     }
 
-    if (settings->data_type >= ZarrDataTypeCount) {
+    if (!is_in_range(settings->data_type, ZarrDataTypeCount)) {
         LOG_ERROR("Invalid data type: ", settings->data_type);
         return false;
     }
-- 
2.43.0


From 9a76381716edc43d2981a3593ec263ca2b581690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 23/31] fix: reject dimension names that are not UTF-8 before
 touching the store

---
 src/streaming/zarr.stream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 68b1150..993d557 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -186,6 +186,14 @@ validate_dimension(const ZarrDimensionProperties* dimension,
         return false;
     }
 
+    // the name becomes part of the metadata
+    try {
+        (void)nlohmann::json(dimension->name).dump();
+    } catch (const nlohmann::json::exception&) {
+        LOG_ERROR("Dimension name is not valid UTF-8");
+        return false;
+    }
+
     if (!is_in_range(dimension->type, ZarrDimensionTypeCount)) {
         LOG_ERROR("Invalid dimension type: ", dimension->type);
         return false;
-- 
2.43.0


From d5ac15d31535a2c513da1565c6dde8890aade70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:29 +0000
Subject: [PATCH 24/31] fix: compute places in a frame and count frames in 64
 bits

---
 src/streaming/array.writer.cpp | 14 +++++++-------
 src/streaming/array.writer.hh  |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index ef60853..1a2a4fe 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -264,12 +264,12 @@ zarr::ArrayWriter::write_frame_to_chunks_(std::span<const std::byte> data)
     const auto& dimensions = config_.dimensions;
 
     const auto& x_dim = dimensions->width_dim();
-    const auto frame_cols = x_dim.array_size_px;
-    const auto tile_cols = x_dim.chunk_size_px;
+    const size_t frame_cols = x_dim.array_size_px;
+    const size_t tile_cols = x_dim.chunk_size_px;
 
     const auto& y_dim = dimensions->height_dim();
-    const auto frame_rows = y_dim.array_size_px;
-    const auto tile_rows = y_dim.chunk_size_px;
+    const size_t frame_rows = y_dim.array_size_px;
+    const size_t tile_rows = y_dim.chunk_size_px;
 
     if (tile_cols == 0 || tile_rows == 0) {
         return 0;
@@ -292,14 +292,14 @@ zarr::ArrayWriter::write_frame_to_chunks_(std::span<const std::byte> data)
     const auto chunk_offset =
       static_cast<long long>(dimensions->chunk_internal_offset(frame_id));
 
-    for (auto i = 0; i < n_tiles_y; ++i) {
+    for (size_t i = 0; i < n_tiles_y; ++i) {
         // TODO (aliddell): we can optimize this when tiles_per_frame_x_ is 1
-        for (auto j = 0; j < n_tiles_x; ++j) {
+        for (size_t j = 0; j < n_tiles_x; ++j) {
             const auto c = group_offset + i * n_tiles_x + j;
             auto& chunk = chunk_buffers_[c];
             auto chunk_it = chunk.begin() + chunk_offset;
 
-            for (auto k = 0; k < tile_rows; ++k) {
+            for (size_t k = 0; k < tile_rows; ++k) {
                 const auto frame_row = i * tile_rows + k;
                 if (frame_row < frame_rows) {
                     const auto frame_col = j * tile_cols;
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index a5fc486..25c674d 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -72,8 +72,8 @@ class ArrayWriter
 
     /// Bookkeeping
     uint64_t bytes_to_flush_;
-    uint32_t frames_written_;
-    uint32_t append_chunk_index_;
+    uint64_t frames_written_;
+    uint64_t append_chunk_index_;
     bool is_finalizing_;
     bool flush_failed_; // a flush was started but could not be completed
 
-- 
2.43.0


From ee089e89d8f80bf89cd95c3f4b843e5cc7d00fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 25/31] fix: append the elements of an array in C order from
 Python, whatever its strides

---
 python/acquire-zarr-py.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/acquire-zarr-py.cpp b/python/acquire-zarr-py.cpp
index f50d7e0..a193611 100644
--- a/python/acquire-zarr-py.cpp
+++ b/python/acquire-zarr-py.cpp
@@ -376,7 +376,15 @@ class PyZarrStream
             throw py::error_already_set();
         }
 
-        auto buf = image_data.request();
+        // the C interface takes the elements in C order and without gaps
+        auto contiguous = py::array::ensure(image_data, py::array::c_style);
+        if (!contiguous) {
+            PyErr_SetString(PyExc_RuntimeError,
+                            "Failed to get the array's data in C order.");
+            throw py::error_already_set();
+        }
+
+        auto buf = contiguous.request();
         auto* ptr = (uint8_t*)buf.ptr;
 
         size_t bytes_out;
-- 
2.43.0


From 4d2ce5d9407fc0e52b838b6acbaff4294c5ce1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:01 +0000
Subject: [PATCH 26/31] fix: downsample a dimension of 2^32 - 1 pixels

---
 src/streaming/array.writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 1a2a4fe..9bae74b 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -27,7 +27,7 @@ zarr::downsample(const ArrayWriterConfig& config,
             downsampled_dims[i] = dim;
         } else {
             const uint32_t array_size_px =
-              (dim.array_size_px + (dim.array_size_px % 2)) / 2;
+              dim.array_size_px / 2 + dim.array_size_px % 2;
 
             const uint32_t chunk_size_px =
               dim.array_size_px == 0
-- 
2.43.0


From d9f98ec1536bf55dddc608a7990d8e92db5957ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:01 +0000
Subject: [PATCH 27/31] fix: count the frames of a shard in 64 bits

---
 src/streaming/zarrv3.array.writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index ed18e00..3ab0709 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -261,8 +261,8 @@ zarr::ZarrV3ArrayWriter::should_rollover_() const
 {
     const auto& dims = config_.dimensions;
     const auto& append_dim = dims->final_dim();
-    size_t frames_before_flush =
-      append_dim.chunk_size_px * append_dim.shard_size_chunks;
+    size_t frames_before_flush = append_dim.chunk_size_px;
+    frames_before_flush *= append_dim.shard_size_chunks;
     for (auto i = 1; i < dims->ndims() - 2; ++i) {
         frames_before_flush *= dims->at(i).array_size_px;
     }
-- 
2.43.0


From ddba15e3d6a6983b4705197023ac403225e045e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:05 +0000
Subject: [PATCH 28/31] fix: fail the append, not the process, if there is no
 memory for the chunks

---
 src/streaming/array.writer.cpp | 2 +-
 src/streaming/array.writer.hh  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 9bae74b..16e1fe9 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -240,7 +240,7 @@ zarr::ArrayWriter::make_metadata_sink_()
 }
 
 void
-zarr::ArrayWriter::make_buffers_() noexcept
+zarr::ArrayWriter::make_buffers_()
 {
     LOG_DEBUG("Creating chunk buffers");
 
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index 25c674d..de93d26 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -85,7 +85,7 @@ class ArrayWriter
 
     [[nodiscard]] bool make_data_sinks_();
     [[nodiscard]] bool make_metadata_sink_();
-    void make_buffers_() noexcept;
+    void make_buffers_();
 
     bool should_flush_() const;
     virtual bool should_rollover_() const = 0;
-- 
2.43.0


From 49acda0a7c698d192bb4cc339960b979b74e18d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:05 +0000
Subject: [PATCH 29/31] fix: join the threads already started if a thread pool
 cannot start them all

---
 src/streaming/thread.pool.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/streaming/thread.pool.cpp b/src/streaming/thread.pool.cpp
index aede31d..0e826ff 100644
--- a/src/streaming/thread.pool.cpp
+++ b/src/streaming/thread.pool.cpp
@@ -8,8 +8,13 @@ zarr::ThreadPool::ThreadPool(unsigned int n_threads, ErrorCallback&& err)
     const auto max_threads = std::max(std::thread::hardware_concurrency(), 1u);
     n_threads = std::clamp(n_threads, 1u, max_threads);
 
-    for (auto i = 0; i < n_threads; ++i) {
-        threads_.emplace_back([this] { process_tasks_(); });
+    try {
+        for (auto i = 0; i < n_threads; ++i) {
+            threads_.emplace_back([this] { process_tasks_(); });
+        }
+    } catch (...) {
+        await_stop(); // threads already started must not outlive the pool
+        throw;
     }
 }
 
-- 
2.43.0


From b25adaceb7276ec503974765b363c214351f61af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:50 +0000
Subject: [PATCH 30/31] fix: check the store path that is used, without
 whitespace around it or separators after it

---
 src/streaming/zarr.stream.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 993d557..a07e23d 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -37,6 +37,18 @@ is_missing_or_empty_string(const char* s, std::string_view err_on_empty)
     return zarr::is_empty_string(s ? s : "", err_on_empty);
 }
 
+/// @brief Get the store path without whitespace around it or separators after
+/// it.
+[[nodiscard]] std::string
+normalize_store_path(const char* store_path)
+{
+    std::string path = zarr::trim(store_path);
+    while (path.size() > 1 && path.ends_with('/')) {
+        path.pop_back();
+    }
+    return path;
+}
+
 /// @brief Check that @p value is one of the first @p count enumerators. Values
 /// from C may be anything, including negative.
 template<typename EnumT>
@@ -235,7 +247,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         LOG_ERROR("Null pointer: store_path");
         return false;
     }
-    std::string_view store_path(settings->store_path);
+    const std::string store_path = normalize_store_path(settings->store_path);
 
     // we require the store path (root of the dataset) to be nonempty
     if (store_path.empty()) {
@@ -562,7 +574,7 @@ void
 ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 {
     version_ = settings->version;
-    store_path_ = zarr::trim(settings->store_path);
+    store_path_ = normalize_store_path(settings->store_path);
     if (settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
     }
-- 
2.43.0


From dc7036a64028cd055cbe1b46d47614c0804b6d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:59 +0000
Subject: [PATCH 31/31] fix: keep writing to the same store when the working
 directory changes

---
 src/streaming/zarr.stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index a07e23d..3606522 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -575,6 +575,10 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 {
     version_ = settings->version;
     store_path_ = normalize_store_path(settings->store_path);
+    if (!is_s3_acquisition(settings)) {
+        // the working directory may change while the stream is open
+        store_path_ = fs::absolute(store_path_).string();
+    }
     if (settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
     }
-- 
2.43.0

