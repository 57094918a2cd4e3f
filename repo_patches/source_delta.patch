From b99394b58295a9a488d669e1dd82ea7db22c1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 01/60] fix: release the archive mutex on every exit path

Exceptions raised by the path trie, by the scanner or by a nested helper
left the archive mutex locked (or, for hza_scan, were thrown with it held).
Hold it through a scoped lock instead of unlocking by hand.
---
 src/hzip_storage/archive/archive.cpp | 86 +++++++---------------------
 1 file changed, 21 insertions(+), 65 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 9fe6f44..93fe8bd 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -46,7 +46,7 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
 }
 
 void HZ_Archive::hza_scan() {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
 
     auto readfn = [this](uint64_t n) {
         this->metadata.eof += n;
@@ -89,8 +89,6 @@ void HZ_Archive::hza_scan() {
                 break;
         }
     }
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t)> &read,
@@ -242,7 +240,7 @@ rainman::option<uint64_t> HZ_Archive::hza_alloc_fragment(uint64_t length) {
 }
 
 void HZ_Archive::hza_init() {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
 
     stream->seek_to(0);
 
@@ -258,15 +256,12 @@ void HZ_Archive::hza_init() {
     stream->seek_to(0);
 
     LOG_F(INFO, "hzip_core.archive: Initialized archive [%s]", path.c_str());
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
     // Evaluate length of entry to utilize fragmented-space.
 
     if (metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("file entry cannot be overwritten");
     }
 
@@ -324,7 +319,6 @@ void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, co
 
 HZ_ArchiveFile HZ_Archive::hza_read_metadata_file_entry(const std::string &file_path) {
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -335,7 +329,6 @@ rainman::ptr<HZ_Blob> HZ_Archive::hza_read_blob(uint64_t id) {
     auto blob = rainman::ptr<HZ_Blob>();
 
     if (!metadata.blob_map.contains(id)) {
-        mutex.unlock();
         throw ArchiveErrors::BlobNotFoundException(id);
     }
 
@@ -377,7 +370,6 @@ uint64_t HZ_Archive::hza_write_blob(const HZ_Blob &blob) {
     // <mstate-id (64-bit)> <blob-data <size (64-bit)> <data (8-bit arr)>>
 
     if (!metadata.mstate_map.contains(blob.mstate_id)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(blob.mstate_id);
     }
 
@@ -459,7 +451,6 @@ void HZ_Archive::hza_rm_blob(uint64_t id) {
         // erase entry from blob map
         metadata.blob_map.erase(id);
     } else {
-        mutex.unlock();
         throw ArchiveErrors::BlobNotFoundException(id);
     }
 
@@ -467,7 +458,6 @@ void HZ_Archive::hza_rm_blob(uint64_t id) {
 
 rainman::ptr<HZ_MState> HZ_Archive::hza_read_mstate(uint64_t id) {
     if (!metadata.mstate_map.contains(id)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(id);
     }
 
@@ -538,9 +528,8 @@ uint64_t HZ_Archive::hza_write_mstate(const rainman::ptr<HZ_MState>& mstate) {
 void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_MState> &mstate) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     if (metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
 
@@ -588,14 +577,11 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
 
     // Write mstate-id.
     stream->write(id, 0x40);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_rm_mstate(uint64_t id) {
     if (metadata.mstate_map.contains(id)) {
         if (hza_check_mstate_deps(id)) {
-            mutex.unlock();
             throw ArchiveErrors::InvalidOperationException("mstate dependency detected");
         }
 
@@ -645,9 +631,8 @@ void HZ_Archive::hza_decrement_dep(uint64_t id) {
 void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ_Blob> &blobs, uint64_t blob_count) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     if (metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
 
@@ -659,16 +644,13 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
     }
 
     hza_create_metadata_file_entry(file_path, file);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::remove_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -690,16 +672,13 @@ void HZ_Archive::remove_file(const std::string &file_path) {
     }
 
     hza_metadata_erase_file(file_path);
-
-    mutex.unlock();
 }
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -712,17 +691,14 @@ rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
         blobs[i] = *blob;
     }
 
-    mutex.unlock();
-
     return blobs;
 }
 
 void HZ_Archive::uninstall_mstate(const std::string &_path) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(0);
     }
 
@@ -743,57 +719,47 @@ void HZ_Archive::uninstall_mstate(const std::string &_path) {
 
     metadata.mstate_aux_map.erase(_path);
     metadata.mstate_inv_aux_map.erase(id);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::inject_mstate(const rainman::ptr<HZ_MState> &mstate, const rainman::ptr<HZ_Blob> &blob) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
 
     blob->mstate_id = hza_write_mstate(mstate);
     blob->mstate = mstate;
-
-    mutex.unlock();
 }
 
 void HZ_Archive::inject_mstate(const std::string &_path, const rainman::ptr<HZ_Blob>& blob) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
 
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(0);
     }
 
     blob->mstate_id = metadata.mstate_aux_map.get(_path).data;
 
     blob->mstate = hza_read_mstate(blob->mstate_id);
-
-    mutex.unlock();
 }
 
 uint64_t HZ_Archive::install_mstate(const rainman::ptr<HZ_MState> &mstate) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     uint64_t id = hza_write_mstate(mstate);
-    mutex.unlock();
     return id;
 }
 
 void HZ_Archive::uninstall_mstate(uint64_t id) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     hza_rm_mstate(id);
-    mutex.unlock();
 }
 
 void HZ_Archive::close() {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
 
     stream->seek_to(metadata.eof);
     stream->write(HZ_ArchiveMarker::END, 0x8);
     stream->flush();
 
-    mutex.unlock();
     sem_post(archive_mutex.pointer());
 }
 
@@ -802,61 +768,53 @@ void HZ_Archive::load() {
 }
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     hza_create_metadata_file_entry(file_path, file);
-    mutex.unlock();
 }
 
 uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     uint64_t id = hza_write_blob(*blob);
-    mutex.unlock();
 
     return id;
 }
 
 bool HZ_Archive::check_file_exists(const std::string &file_path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     bool v = metadata.file_map.contains(file_path);
-    mutex.unlock();
 
     return v;
 }
 
 HZ_ArchiveFile HZ_Archive::read_file_entry(const std::string &file_path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     HZ_ArchiveFile file = hza_read_metadata_file_entry(file_path);
-    mutex.unlock();
 
     return file;
 }
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     auto blob = hza_read_blob(id);
-    mutex.unlock();
 
     return blob;
 }
 
 rainman::ptr<HZ_MState> HZ_Archive::read_mstate(const std::string& _path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("Mstate not found");
     }
 
     auto id = metadata.mstate_aux_map.get(_path).data;
     auto mstate = hza_read_mstate(id);
-    mutex.unlock();
 
     return mstate;
 }
 
 bool HZ_Archive::check_mstate_exists(const std::string &_path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     bool exists = metadata.mstate_aux_map.contains(_path);
-    mutex.unlock();
 
     return exists;
 }
@@ -869,17 +827,15 @@ void HZ_Archive::hza_metadata_erase_file(const std::string &_file_path) {
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_file_system(const std::string &prefix) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     auto list = metadata.file_map.children(prefix);
-    mutex.unlock();
 
     return list;
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_mstate_system(const std::string &prefix) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     auto list = metadata.mstate_aux_map.children(prefix);
-    mutex.unlock();
 
     return list;
 }
-- 
2.43.0


From ceb37f5c7eec203f34cc71df2183b9da29e3c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 02/60] fix: treat the root of the path trie as a directory

get("/") on an empty trie returned a default entry (so remove_file("/")
overwrote offset 0 of the archive), set("/") turned the root into a file
and erase("/") dereferenced the root's null parent.
---
 src/hzip_storage/archive/archive_trie.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hzip_storage/archive/archive_trie.h b/src/hzip_storage/archive/archive_trie.h
index 1b9e16e..2922970 100644
--- a/src/hzip_storage/archive/archive_trie.h
+++ b/src/hzip_storage/archive/archive_trie.h
@@ -71,7 +71,7 @@ public:
             }
         }
 
-        if (curr->children.size() > 0) {
+        if (!is_leaf_node(curr)) {
             throw ArchiveErrors::InvalidOperationException("The given path is a directory");
         }
 
@@ -102,7 +102,7 @@ public:
             curr = curr->children[token];
         }
 
-        if (is_dir_node(curr)) {
+        if (curr == root || is_dir_node(curr)) {
             throw ArchiveErrors::InvalidOperationException("A directory exists in the given path");
         }
 
@@ -149,6 +149,10 @@ public:
             }
         }
 
+        if (curr == root) {
+            throw ArchiveErrors::InvalidOperationException("The root directory cannot be erased");
+        }
+
         HZ_ArchiveTrieNode<Type> *descendant = curr;
         while (curr->children.size() < 2 && curr->parent != nullptr) {
             descendant = curr;
-- 
2.43.0


From 2a86e3b7bd7064801577b149d71538edaa3744f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:02 +0000
Subject: [PATCH 03/60] fix: refuse archives with unknown segment markers or
 metadata entries

The scanner skipped a marker or metadata entry type it does not know and
went on reading the segment's body as if it were the next segment.
---
 src/hzip_storage/archive/archive.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 93fe8bd..621ccbd 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -86,7 +86,7 @@ void HZ_Archive::hza_scan() {
                 break;
             }
             default:
-                break;
+                throw ArchiveErrors::InvalidOperationException("Unknown segment marker in archive");
         }
     }
 }
@@ -149,6 +149,8 @@ void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t
             metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(read(0x40), sof - 0x8));
             break;
         }
+        default:
+            throw ArchiveErrors::InvalidOperationException("Unknown metadata entry in archive");
     }
 }
 
-- 
2.43.0


From a8dc28a3384b26778a317ae7ebf3556091c6034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:02 +0000
Subject: [PATCH 04/60] fix: rebuild mstate bookkeeping when an archive is
 opened

dep_counter and mstate_inv_aux_map were only maintained while an archive
was open, so after a reopen mstates with dependants could be uninstalled
and addressed mstates were dropped with their last blob.
---
 src/hzip_storage/archive/archive.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 621ccbd..e924d3a 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -146,7 +146,9 @@ void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t
                 _path += (char) read(0x8);
             }
 
-            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(read(0x40), sof - 0x8));
+            uint64_t mstate_id = read(0x40);
+            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(mstate_id, sof - 0x8));
+            metadata.mstate_inv_aux_map[mstate_id] = true;
             break;
         }
         default:
@@ -163,8 +165,15 @@ void HZ_Archive::hza_scan_blob_segment(const std::function<uint64_t(uint64_t)> &
 
     uint64_t blob_id = read(0x40);
 
+    // Skip the blob header and the original size.
+    uint64_t header_size = read(0x40) << 3;
+    seek(header_size + 0x40);
+
+    // Restore the dependency on the blob's mstate.
+    hza_increment_dep(read(0x40));
+
     // Skip the blob data
-    seek(size - 0x40);
+    seek(size - 0x100 - header_size);
 
     metadata.blob_map[blob_id] = sof;
 }
-- 
2.43.0


From 46f43f853b1a59a1fe6fdf2ecfe146e7b543e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:50 +0000
Subject: [PATCH 05/60] fix: check the arguments of archive operations before
 changing anything

A path that runs through a file, a blob without its mstate or a file entry
listing a missing blob was only noticed after blobs, mstates or free space
had already been written, leaving the archive and its index out of step.
---
 src/hzip_storage/archive/archive.cpp    | 23 +++++++++++++++++++-
 src/hzip_storage/archive/archive_trie.h | 28 +++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index e924d3a..dcbfac4 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -276,6 +276,8 @@ void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, co
         throw ArchiveErrors::InvalidOperationException("file entry cannot be overwritten");
     }
 
+    metadata.file_map.check_target(file_path);
+
     uint64_t length = 0;
 
     uint64_t path_length = file_path.length();
@@ -544,6 +546,8 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
 
+    metadata.mstate_aux_map.check_target(_path);
+
     uint64_t id = hza_write_mstate(mstate);
 
     // Create auxillary mstate-entry.
@@ -647,6 +651,14 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
 
+    metadata.file_map.check_target(file_path);
+
+    for (uint64_t i = 0; i < blob_count; i++) {
+        if (!metadata.mstate_map.contains(blobs[i].mstate_id)) {
+            throw ArchiveErrors::MstateNotFoundException(blobs[i].mstate_id);
+        }
+    }
+
     HZ_ArchiveFile file{};
     file.blob_ids = rainman::ptr<uint64_t>(blob_count);
 
@@ -670,6 +682,12 @@ void HZ_Archive::remove_file(const std::string &file_path) {
     uint64_t sof = entry.sof;
     HZ_ArchiveFile file = entry.data;
 
+    for (uint64_t i = 0; i < file.blob_ids.size(); i++) {
+        if (!metadata.blob_map.contains(file.blob_ids[i])) {
+            throw ArchiveErrors::BlobNotFoundException(file.blob_ids[i]);
+        }
+    }
+
     stream->seek_to(sof);
     stream->write(HZ_ArchiveMarker::EMPTY, 0x8);
 
@@ -679,7 +697,10 @@ void HZ_Archive::remove_file(const std::string &file_path) {
     });
 
     for (uint64_t i = 0; i < file.blob_ids.size(); i++) {
-        hza_rm_blob(file.blob_ids[i]);
+        // A blob can be listed more than once.
+        if (metadata.blob_map.contains(file.blob_ids[i])) {
+            hza_rm_blob(file.blob_ids[i]);
+        }
     }
 
     hza_metadata_erase_file(file_path);
diff --git a/src/hzip_storage/archive/archive_trie.h b/src/hzip_storage/archive/archive_trie.h
index 2922970..fdc97b9 100644
--- a/src/hzip_storage/archive/archive_trie.h
+++ b/src/hzip_storage/archive/archive_trie.h
@@ -110,6 +110,34 @@ public:
         curr->is_leaf = true;
     }
 
+    // Raises the error that set() would raise for the given path.
+    void check_target(const std::string &path) {
+        std::stringstream ss(path);
+
+        std::string token;
+
+        HZ_ArchiveTrieNode<Type> *curr = root;
+        while (std::getline(ss, token, '/')) {
+            if (token.empty()) {
+                continue;
+            }
+
+            if (!curr->children.contains(token)) {
+                if (is_leaf_node(curr)) {
+                    throw ArchiveErrors::InvalidOperationException("A file exists in the path prefix");
+                }
+
+                return;
+            }
+
+            curr = curr->children[token];
+        }
+
+        if (curr == root || is_dir_node(curr)) {
+            throw ArchiveErrors::InvalidOperationException("A directory exists in the given path");
+        }
+    }
+
     bool contains(const std::string &prefix) {
         std::stringstream ss(prefix);
 
-- 
2.43.0


From ea6f14383e22a01bb17a171b9d703136ba6e11d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:32 +0000
Subject: [PATCH 06/60] fix: give up the cross-process archive lock when
 loading fails

The named semaphore stayed taken after a failed load, so the archive could
never be opened again by any process. Also do not go on without the lock
when sem_wait() fails or is interrupted.
---
 src/hzip_storage/archive/archive.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index dcbfac4..9504357 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -36,7 +36,11 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
         throw ArchiveErrors::InvalidOperationException(std::string("sem_open() failed with error: ") + std::strerror(errno));
     }
 
-    sem_wait(archive_mutex.pointer());
+    while (sem_wait(archive_mutex.pointer()) != 0) {
+        if (errno != EINTR) {
+            throw ArchiveErrors::InvalidOperationException(std::string("sem_wait() failed with error: ") + std::strerror(errno));
+        }
+    }
 
     LOG_F(INFO, "hzip_core.archive: Access granted to archive [%s]", path.c_str());
 
@@ -796,7 +800,13 @@ void HZ_Archive::close() {
 }
 
 void HZ_Archive::load() {
-    hza_scan();
+    try {
+        hza_scan();
+    } catch (...) {
+        // An archive that cannot be loaded will not be closed: give up its lock here.
+        sem_post(archive_mutex.pointer());
+        throw;
+    }
 }
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
-- 
2.43.0


From f1592a3878112a5a24ae049d6190f2d7c5d34baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:32 +0000
Subject: [PATCH 07/60] fix: release the archive provider's mutex when opening
 an archive fails

An archive that cannot be opened or loaded blocked every later request.
---
 src/hzip_network/api/providers/archive_provider.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 1a21f51..1c8bc02 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -1,7 +1,7 @@
 #include "archive_provider.h"
 
 rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
     rainman::ptr<HZ_Archive> archive;
     if (arch_map.contains(path)) {
         archive = arch_map[path];
@@ -12,17 +12,13 @@ rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path
         arch_map[path] = archive;
     }
 
-    mutex.unlock();
-
     return archive;
 }
 
 void hzapi::ArchiveProvider::close() {
-    mutex.lock();
+    std::scoped_lock<std::mutex> guard(mutex);
 
     for (auto &entry : arch_map) {
         entry.second->close();
     }
-
-    mutex.unlock();
 }
-- 
2.43.0


From 3399bf598a7a397a89166ce56975ac38c6fa56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:32 +0000
Subject: [PATCH 08/60] fix: close every open archive only once

A second signal during shutdown closed all archives again and gave up
their cross-process locks a second time.
---
 src/hzip_network/api/providers/archive_provider.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 1c8bc02..64accae 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -21,4 +21,7 @@ void hzapi::ArchiveProvider::close() {
     for (auto &entry : arch_map) {
         entry.second->close();
     }
+
+    // Closing an archive twice would give up its cross-process lock twice.
+    arch_map.clear();
 }
-- 
2.43.0


From e24bfe7bf0a9b0cf27c54ed05eb74ddc513c6458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:32 +0000
Subject: [PATCH 09/60] fix: share one archive handle between all spellings of
 its path

Two spellings of one path opened the same file twice: with independent
indexes, or blocking for ever on the cross-process lock held by the first.
---
 src/hzip_network/api/providers/archive_provider.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 64accae..9eb08c5 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -1,6 +1,10 @@
 #include "archive_provider.h"
+#include <filesystem>
+
+rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &_path) {
+    // Different spellings of a path name the same archive.
+    const std::string path = std::filesystem::weakly_canonical(_path).string();
 
-rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path) {
     std::scoped_lock<std::mutex> guard(mutex);
     rainman::ptr<HZ_Archive> archive;
     if (arch_map.contains(path)) {
-- 
2.43.0


From 306f842da363a54e5d824e4911e6594d17caaf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:06 +0000
Subject: [PATCH 10/60] fix: notice failed socket transfers

send() and recv() report failure as -1, which compared as an unsigned
number is never less than the requested size.
---
 src/hzip_network/api/handlers/socket_class.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hzip_network/api/handlers/socket_class.cpp b/src/hzip_network/api/handlers/socket_class.cpp
index e64da57..f4e51c8 100644
--- a/src/hzip_network/api/handlers/socket_class.cpp
+++ b/src/hzip_network/api/handlers/socket_class.cpp
@@ -10,11 +10,11 @@ using namespace hzapi;
 
 void SocketInterface::t_send(const void *buf, size_t n) const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), 0) != (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
-    if (send(_sock, buf, n, 0) < n) {
+    if (send(_sock, buf, n, 0) != (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
@@ -28,7 +28,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
         t_recv_sync();
     }
 
-    if (recv(_sock, buf, n, MSG_WAITALL) < n) {
+    if (recv(_sock, buf, n, MSG_WAITALL) != (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data received");
     }
 
@@ -39,7 +39,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
 
 void SocketInterface::t_recv_sync() const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), 0) != (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
-- 
2.43.0


From f6be529bdbf050bc5f5d86d951d093ef0280ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 11/60] fix: make every source file compile with and without
 OpenCL

---
 src/hzip_core/models/paeth.cpp       |  5 +++--
 src/hzip_core/preprocessor/color.cpp | 14 ++++++++++----
 src/main.cpp                         | 14 +++++++-------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/hzip_core/models/paeth.cpp b/src/hzip_core/models/paeth.cpp
index ea030e6..fd4f759 100644
--- a/src/hzip_core/models/paeth.cpp
+++ b/src/hzip_core/models/paeth.cpp
@@ -11,6 +11,7 @@ hzmodels::LinearU16PaethDifferential::filter(
         bool inplace,
         uint8_t bit_depth
 ) {
+#ifdef HZIP_ENABLE_OPENCL
     hzruntime::Executor executor = hzruntime::CPU;
     if (hzruntime::Config::opencl_support_enabled) {
         if (buffer.size() > 49152) {
@@ -22,9 +23,9 @@ hzmodels::LinearU16PaethDifferential::filter(
 
     if (executor == hzruntime::OPENCL) {
         return opencl_filter(buffer, width, height, nchannels, inplace, bit_depth);
-    } else {
-        return cpu_filter(buffer, width, height, nchannels, inplace, bit_depth);
     }
+#endif
+    return cpu_filter(buffer, width, height, nchannels, inplace, bit_depth);
 }
 
 rainman::ptr<uint16_t>
diff --git a/src/hzip_core/preprocessor/color.cpp b/src/hzip_core/preprocessor/color.cpp
index b36b336..df822f0 100644
--- a/src/hzip_core/preprocessor/color.cpp
+++ b/src/hzip_core/preprocessor/color.cpp
@@ -99,6 +99,8 @@ hztrans::LinearU16XColorTransformer::cpu_ycocg_to_rgb(const rainman::ptr<uint16_
     return output;
 }
 
+#ifdef HZIP_ENABLE_OPENCL
+
 void hztrans::LinearU16XColorTransformer::register_opencl_program() {
     hzopencl::ProgramProvider::register_program("rgb_ycocg",
 
@@ -193,20 +195,24 @@ hztrans::LinearU16XColorTransformer::opencl_ycocg_to_rgb(const rainman::ptr<uint
     }
 }
 
+#endif
+
 rainman::ptr<uint16_t>
 hztrans::LinearU16XColorTransformer::rgb_to_ycocg(const rainman::ptr<uint16_t> &buffer, bool inplace) {
+#ifdef HZIP_ENABLE_OPENCL
     if (_executor == hzruntime::OPENCL) {
         return opencl_rgb_to_ycocg(buffer, inplace);
-    } else {
-        return cpu_rgb_to_ycocg(buffer, inplace);
     }
+#endif
+    return cpu_rgb_to_ycocg(buffer, inplace);
 }
 
 rainman::ptr<uint16_t>
 hztrans::LinearU16XColorTransformer::ycocg_to_rgb(const rainman::ptr<uint16_t> &buffer, bool inplace) {
+#ifdef HZIP_ENABLE_OPENCL
     if (_executor == hzruntime::OPENCL) {
         return opencl_ycocg_to_rgb(buffer, inplace);
-    } else {
-        return cpu_ycocg_to_rgb(buffer, inplace);
     }
+#endif
+    return cpu_ycocg_to_rgb(buffer, inplace);
 }
diff --git a/src/main.cpp b/src/main.cpp
index ad14b0d..d34df13 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -43,12 +43,12 @@ int main(int argc, const char **argv) {
     setup_logger();
     set_unhandled_exception_handler();
 
-    Config::configure();
+    hzruntime::Config::configure();
 
-    rainman::Allocator().peak_size(Config::host_max_memory);
+    rainman::Allocator().peak_size(hzruntime::Config::host_max_memory);
     LOG_F(INFO, "hybridzip: Max memory usage set to %lu bytes", rainman::Allocator().peak_size());
 
-    auto api = new hzapi::Api(Config::api_threads);
+    auto api = new hzapi::Api(hzruntime::Config::api_threads);
 
     _hzapi_graceful_shutdown = [api]() {
         LOG_F(WARNING, "Gracefully shutting down.");
@@ -57,8 +57,8 @@ int main(int argc, const char **argv) {
 
     set_signal_handlers();
 
-    api->process(Config::processor_threads)
-            ->protect(Config::api_key)
-            ->timeout(timeval{.tv_sec=Config::api_timeout})
-            ->start("127.0.0.1", Config::api_port);
+    api->process(hzruntime::Config::processor_threads)
+            ->protect(hzruntime::Config::api_key)
+            ->timeout(timeval{.tv_sec=hzruntime::Config::api_timeout})
+            ->start("127.0.0.1", hzruntime::Config::api_port);
 }
\ No newline at end of file
-- 
2.43.0


From 195f6314115776273cf5d9c44d017290b168648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 12/60] fix: colour transform runs on the CPU unless an
 executor is chosen

---
 src/hzip_core/preprocessor/color.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/preprocessor/color.h b/src/hzip_core/preprocessor/color.h
index ebb7209..08b0a89 100644
--- a/src/hzip_core/preprocessor/color.h
+++ b/src/hzip_core/preprocessor/color.h
@@ -87,7 +87,7 @@ namespace hztrans {
 
     class LinearU16XColorTransformer {
     private:
-        hzruntime::Executor _executor;
+        hzruntime::Executor _executor = hzruntime::CPU;
         uint64_t _width;
         uint64_t _height;
         uint8_t _bit_depth;
-- 
2.43.0


From 8a808544ed797a95b0e0a10007fcdbe85d5f15b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 13/60] fix: never report success for a request whose job
 failed

---
 src/hzip_network/api/handlers/streamer.cpp | 49 ++++++++++++++++++++--
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index 718ad51..ddc4993 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -66,6 +66,8 @@ void Streamer::encode() {
 
                 std::vector<uint64_t> blob_ids;
 
+                bool failed = false;
+
                 // Start raw-streaming using manual sync.
                 HZ_RECV_SYNC;
 
@@ -88,6 +90,13 @@ void Streamer::encode() {
                     // Enable raw streaming in hzip_core-protocol
                     t_recv(blob->data.pointer(), max_blob_size, false);
 
+                    if (failed) {
+                        // The error was already reported, drain the rest of the stream.
+                        data_len -= max_blob_size;
+                        _mutex->unlock();
+                        continue;
+                    }
+
                     // Construct hz_job struct for processing.
                     auto job = rainman::ptr<HZ_Job>();
                     auto codec = rainman::ptr<HZ_CodecJob>();
@@ -131,7 +140,8 @@ void Streamer::encode() {
                         _mutex->unlock();
                     };
 
-                    stub->on_error = [this](const std::string &msg) {
+                    stub->on_error = [this, &failed](const std::string &msg) {
+                        failed = true;
                         error(msg);
                     };
 
@@ -146,6 +156,9 @@ void Streamer::encode() {
                     _mutex->unlock();
                 }
 
+                if (failed) {
+                    return;
+                }
 
                 _mutex->lock();
 
@@ -222,6 +235,8 @@ void Streamer::encode() {
 
                 uint64_t max_blob_size = hzes_b_size((hzcodec::algorithms::ALGORITHM) algorithm);
 
+                bool failed = false;
+
                 // Start raw-streaming using manual sync.
                 HZ_RECV_SYNC;
 
@@ -246,6 +261,13 @@ void Streamer::encode() {
                     // Enable raw streaming in hzip_core-protocol
                     t_recv(blob->data.pointer(), max_blob_size, false);
 
+                    if (failed) {
+                        // The error was already reported, drain the rest of the stream.
+                        data_len -= max_blob_size;
+                        _mutex->unlock();
+                        continue;
+                    }
+
                     // Construct hz_job struct for processing.
                     auto job = rainman::ptr<HZ_Job>();
                     auto codec = rainman::ptr<HZ_CodecJob>();
@@ -264,7 +286,8 @@ void Streamer::encode() {
                         _mutex->unlock();
                     };
 
-                    stub->on_error = [this](const std::string &msg) {
+                    stub->on_error = [this, &failed](const std::string &msg) {
+                        failed = true;
                         error(msg);
                     };
 
@@ -280,6 +303,10 @@ void Streamer::encode() {
                     _mutex->unlock();
                 }
 
+                if (failed) {
+                    return;
+                }
+
                 success("Operation completed successfully");
                 return;
             }
@@ -330,6 +357,8 @@ void Streamer::decode() {
 
                 HZ_SEND(&blob_count, sizeof(blob_count));
 
+                bool failed = false;
+
                 for (uint64_t i = 0; i < blob_count; i++) {
                     _mutex->lock();
                     auto src_blob = archive.inner()->read_blob(file_entry.blob_ids[i]);
@@ -354,7 +383,8 @@ void Streamer::decode() {
                         _mutex->unlock();
                     };
 
-                    stub->on_error = [this](const std::string &msg) {
+                    stub->on_error = [this, &failed](const std::string &msg) {
+                        failed = true;
                         error(msg);
                     };
 
@@ -372,6 +402,10 @@ void Streamer::decode() {
                     // Cycle the mutex
                     _mutex->lock();
                     _mutex->unlock();
+
+                    if (failed) {
+                        return;
+                    }
                 }
 
                 success("Operation completed successfully");
@@ -481,7 +515,10 @@ void Streamer::decode() {
                     _mutex->unlock();
                 };
 
-                job->stub->on_error = [this](const std::string &msg) {
+                bool failed = false;
+
+                job->stub->on_error = [this, &failed](const std::string &msg) {
+                    failed = true;
                     error(msg);
                 };
 
@@ -490,6 +527,10 @@ void Streamer::decode() {
                 _mutex->lock();
                 _mutex->unlock();
 
+                if (failed) {
+                    return;
+                }
+
                 success("Operation completed successfully");
                 return;
             }
-- 
2.43.0


From 513ba1aa8189a1096e7b46fa8d91abe6823b5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 14/60] fix: hand the streamed blob and its algorithm to the
 decode job

---
 src/hzip_network/api/handlers/streamer.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index ddc4993..40890ac 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -464,17 +464,21 @@ void Streamer::decode() {
                 break;
             }
             case DECODE_CTL_BLOB_STREAM: {
-                _mutex->lock();
-                _processor->cycle();
-
                 if (!piggy_back) {
                     throw ApiErrors::InvalidOperationError("Piggy-back was disabled");
                 }
 
+                if (!algorithm) {
+                    throw ApiErrors::InvalidOperationError("No algorithm was provided");
+                }
+
                 if (mstate.is_none() && mstate_addr.is_none()) {
                     throw ApiErrors::InvalidOperationError("Mstate was not provided");
                 }
 
+                _mutex->lock();
+                _processor->cycle();
+
                 blob = rainman::ptr<HZ_Blob>();
                 uint64_t header_len = 0;
 
@@ -488,6 +492,9 @@ void Streamer::decode() {
 
                 HZ_RECV(&blob->o_size, sizeof(blob->o_size));
 
+                // Streamed blobs are always compressed.
+                blob->status = true;
+
                 if (mstate.is_some()) {
                     blob->mstate = mstate.inner();
                 }
@@ -510,6 +517,10 @@ void Streamer::decode() {
 
                 codec->blob = blob;
                 codec->job_type = HZ_CodecJob::DECODE;
+                codec->algorithm = (hzcodec::algorithms::ALGORITHM) algorithm;
+
+                job->codec = codec;
+                job->stub = stub;
 
                 job->stub->on_completed = [this]() {
                     _mutex->unlock();
-- 
2.43.0


From bfb82b2fa1326d3fee6181d99b9035690339e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 15/60] fix: do not serve or leak sockets that could not be set
 up

---
 src/hzip_network/api/api.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hzip_network/api/api.cpp b/src/hzip_network/api/api.cpp
index f843087..55c7074 100644
--- a/src/hzip_network/api/api.cpp
+++ b/src/hzip_network/api/api.cpp
@@ -133,14 +133,21 @@ Api *Api::process(uint64_t _n_threads) {
         sock_addr_size = sizeof(client_addr);
         int client_sock = accept(server_sock, (sockaddr *) &client_addr, &sock_addr_size);
 
+        if (client_sock < 0) {
+            LOG_F(ERROR, "hzip_network.api: accept() failed");
+            continue;
+        }
+
         if (time_out.tv_sec > 0) {
             if (setsockopt(client_sock, SOL_SOCKET, SO_RCVTIMEO, (uint8_t *) &time_out, sizeof(time_out)) < 0) {
                 LOG_F(ERROR, "hzip_network.api: setsockopt() failed");
+                close(client_sock);
                 continue;
             }
 
             if (setsockopt(client_sock, SOL_SOCKET, SO_SNDTIMEO, (uint8_t *) &time_out, sizeof(time_out)) < 0) {
                 LOG_F(ERROR, "hzip_network.api: setsockopt() failed");
+                close(client_sock);
                 continue;
             }
         }
-- 
2.43.0


From 0f99577a044609bfb26dd2b38c45da29aa91345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 16/60] fix: do not leak the address buffer of every connection

---
 src/hzip_network/api/api.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hzip_network/api/api.cpp b/src/hzip_network/api/api.cpp
index 55c7074..b5defe1 100644
--- a/src/hzip_network/api/api.cpp
+++ b/src/hzip_network/api/api.cpp
@@ -152,8 +152,7 @@ Api *Api::process(uint64_t _n_threads) {
             }
         }
 
-        char *ip_addr = new char[INET_ADDRSTRLEN + 1];
-        ip_addr[INET_ADDRSTRLEN] = '\0';
+        char ip_addr[INET_ADDRSTRLEN + 1]{};
 
         inet_ntop(AF_INET, &client_addr.sin_addr, ip_addr, INET_ADDRSTRLEN);
 
-- 
2.43.0


From e567cc627c5bfcd69c8121ee01bae42cf9887bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 17/60] fix: report a listening socket that cannot be created

---
 src/hzip_network/api/api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hzip_network/api/api.cpp b/src/hzip_network/api/api.cpp
index b5defe1..1bc9708 100644
--- a/src/hzip_network/api/api.cpp
+++ b/src/hzip_network/api/api.cpp
@@ -113,6 +113,11 @@ Api *Api::process(uint64_t _n_threads) {
     socklen_t sock_addr_size{};
 
     server_sock = socket(PF_INET, SOCK_STREAM, 0);
+
+    if (server_sock < 0) {
+        throw ApiErrors::InitializationError("Failed to create socket");
+    }
+
     server_addr.sin_family = AF_INET;
     server_addr.sin_port = htons(port);
     server_addr.sin_addr.s_addr = inet_addr(addr);
-- 
2.43.0


From 155b50fc46018e8726f5e76b65f714054f927f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 18/60] fix: validate model state addresses like every other
 path

---
 src/hzip_network/api/handlers/streamer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index 40890ac..2c669aa 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -187,6 +187,8 @@ void Streamer::encode() {
                 mstate_addr.inner()[mstate_addr_len] = 0;
 
                 HZ_RECV(mstate_addr.inner().pointer(), mstate_addr_len);
+
+                hz_validate_path(mstate_addr.inner().pointer());
                 break;
             }
             case ENCODE_CTL_ARCHIVE: {
@@ -422,6 +424,8 @@ void Streamer::decode() {
                 mstate_addr.inner()[mstate_addr_len] = 0;
 
                 HZ_RECV(mstate_addr.inner().pointer(), mstate_addr_len);
+
+                hz_validate_path(mstate_addr.inner().pointer());
                 break;
             }
             case DECODE_CTL_ARCHIVE: {
@@ -611,6 +615,8 @@ void Streamer::write_mstate() {
                 mstate_addr.inner()[mstate_addr_len] = 0;
 
                 HZ_RECV(mstate_addr.inner().pointer(), mstate_addr_len);
+
+                hz_validate_path(mstate_addr.inner().pointer());
                 break;
             }
             case MSTATE_CTL_STREAM: {
@@ -679,6 +685,8 @@ void Streamer::read_mstate() {
                 mstate_addr.inner()[mstate_addr_len] = 0;
 
                 HZ_RECV(mstate_addr.inner().pointer(), mstate_addr_len);
+
+                hz_validate_path(mstate_addr.inner().pointer());
                 break;
             }
             case MSTATE_CTL_PIGGYBACK: {
-- 
2.43.0


From 2737ba47802b11b0dc8999720546376878a247ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 19/60] fix: do not tie blobs stored uncompressed to the
 addressed mstate

---
 src/hzip_codec/processor/processor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 0193b2d..64bdc9c 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -67,7 +67,8 @@ void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
 
         blob->mstate_id = job->blob->mstate_id;
 
-        if (job->mstate_addr.is_none()) {
+        // A blob that was stored as it is does not use the mstate at the given address.
+        if (job->mstate_addr.is_none() || !blob->status) {
             if (job->archive.is_some()) {
                 job->archive.inner()->inject_mstate(blob->mstate, blob);
             } else if (job->blob_callback == nullptr) {
-- 
2.43.0


From f718cc87ba7032f488f0e14e02ee0d942e22bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 20/60] fix: keep the trained mstate until its replacement is
 ready

---
 src/hzip_codec/processor/processor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 64bdc9c..e4171b6 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -120,9 +120,10 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
         throw ProcessorErrors::InvalidOperationError("Archive not found");
     }
 
-    if (job->archive.inner()->check_mstate_exists(job->mstate_addr.inner())) {
+    bool exists = job->archive.inner()->check_mstate_exists(job->mstate_addr.inner());
+
+    if (exists) {
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
-        job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
     }
 
     auto codec = hzp_get_codec(job->algorithm);
@@ -132,6 +133,10 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
     try {
         mstate = codec->train(job->blob);
 
+        if (exists) {
+            job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
+        }
+
         job->archive.inner()->install_mstate(job->mstate_addr.inner(), mstate);
     } catch (std::exception &e) {
         throw ProcessorErrors::GenericError(e.what());
-- 
2.43.0


From 7020b01917920dd4bda1baac2a5333e1d74fe538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 21/60] fix: refuse the operations Sharingan does not implement

---
 src/hzip_codec/sharingan/sharingan.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/sharingan/sharingan.cpp b/src/hzip_codec/sharingan/sharingan.cpp
index 3b0ce34..8eb00ab 100644
--- a/src/hzip_codec/sharingan/sharingan.cpp
+++ b/src/hzip_codec/sharingan/sharingan.cpp
@@ -4,6 +4,7 @@
 #include <hzip_core/models/paeth.h>
 #include <hzip_core/kernel/hzrans/hzrans64_codec.h>
 #include <hzip_core/utils/utils.h>
+#include <hzip_codec/errors/codec.h>
 #include "state_transition.h"
 
 void hzcodec::Sharingan::preprocess_data(const PNGBundle &bundle) {
@@ -127,9 +128,9 @@ rainman::ptr<HZ_Blob> hzcodec::Sharingan::compress(const rainman::ptr<HZ_Blob> &
 }
 
 rainman::ptr<HZ_Blob> hzcodec::Sharingan::decompress(const rainman::ptr<HZ_Blob> &blob) {
-    return rainman::ptr<HZ_Blob>();
+    throw CodecErrors::InvalidOperationException("Cannot decompress blobs with algorithm: SHARINGAN");
 }
 
 rainman::ptr<HZ_MState> hzcodec::Sharingan::train(const rainman::ptr<HZ_Blob> &blob) {
-    return rainman::ptr<HZ_MState>();
+    throw CodecErrors::InvalidOperationException("Cannot train models with algorithm: SHARINGAN");
 }
-- 
2.43.0


From 5269f8dae852961f19dfe2d8d8f6f50169dd2f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 22/60] fix: precode on the CPU when OpenCL is not available

---
 src/hzip_codec/sharingan/state_transition.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index 3c20615..bde7d9c 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -469,14 +469,15 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
     return std::pair<rainman::virtual_array<SSTPair>, std::mutex &>(array, cache_mutex);
 }
 
+#endif
+
 std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransition::dynamic_precode() {
+#ifdef HZIP_ENABLE_OPENCL
     if (hzruntime::Config::opencl_support_enabled) {
         if (_width * _height > 1000000) {
             return opencl_dynamic_precode();
-        } else {
-            return cpu_dynamic_precode();
         }
     }
-}
-
 #endif
+    return cpu_dynamic_precode();
+}
-- 
2.43.0


From ef3fd9182d46635f7383428f7177fe28a6163bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 23/60] fix: store all of the original data when nothing is
 compressed

---
 src/hzip_codec/uncompressed/uncompressed.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hzip_codec/uncompressed/uncompressed.cpp b/src/hzip_codec/uncompressed/uncompressed.cpp
index 08703b0..90c7a3d 100644
--- a/src/hzip_codec/uncompressed/uncompressed.cpp
+++ b/src/hzip_codec/uncompressed/uncompressed.cpp
@@ -5,11 +5,11 @@ rainman::ptr<HZ_Blob> hzcodec::Uncompressed::compress(const rainman::ptr<HZ_Blob
     auto mstate = blob->mstate;
 
     cblob->mstate = mstate;
-    cblob->size = blob->size;
+    cblob->size = blob->o_size;
     cblob->o_size = blob->o_size;
 
-    cblob->data = rainman::ptr<uint8_t>(blob->size);
-    for (uint64_t i = 0; i < blob->size; i++) {
+    cblob->data = rainman::ptr<uint8_t>(blob->o_size);
+    for (uint64_t i = 0; i < blob->o_size; i++) {
         cblob->data[i] = blob->data[i];
     }
 
-- 
2.43.0


From 76056b1d3967562cee773b28dfcf5e72f98bd07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 24/60] fix: refuse unknown algorithms before data is streamed

---
 src/hzip_codec/codec_provider.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_codec/codec_provider.h b/src/hzip_codec/codec_provider.h
index 6ad12fa..bb11b71 100644
--- a/src/hzip_codec/codec_provider.h
+++ b/src/hzip_codec/codec_provider.h
@@ -35,7 +35,7 @@ namespace hzcodec {
             if (bsize_map.contains(alg)) {
                 return bsize_map[alg];
             } else {
-                return 0xffffffffffffffff;
+                throw CodecErrors::ResourceResolutionException("Failed to resolve block size");
             }
         }
     };
-- 
2.43.0


From 1cda2aa03832c815dcad94e327c1797a49a6e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 25/60] fix: let handlers of std::exception catch internal
 errors

---
 src/hzip_core/errors/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/errors/utils.h b/src/hzip_core/errors/utils.h
index e46c2dc..8a76794 100644
--- a/src/hzip_core/errors/utils.h
+++ b/src/hzip_core/errors/utils.h
@@ -18,7 +18,7 @@ namespace UtilErrors {
         }
     };
 
-    class InternalError : std::exception {
+    class InternalError : public std::exception {
     public:
 
         InternalError(const std::string &msg) {
-- 
2.43.0


From 3a15758c613d22e14ca08226a2481de82c81ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 26/60] fix: delta transform of an empty block touches nothing

---
 src/hzip_core/preprocessor/delta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/delta.cpp b/src/hzip_core/preprocessor/delta.cpp
index 36abf6d..fd29bd2 100755
--- a/src/hzip_core/preprocessor/delta.cpp
+++ b/src/hzip_core/preprocessor/delta.cpp
@@ -6,8 +6,8 @@ hztrans::DeltaTransformer::DeltaTransformer(int *data, uint64_t length) {
 }
 
 void hztrans::DeltaTransformer::transform() {
-    for (uint64_t i = length - 1; i > 0; i--) {
-        data[i] -= data[i - 1];
+    for (uint64_t i = length; i > 1; i--) {
+        data[i - 1] -= data[i - 2];
     }
 }
 
-- 
2.43.0


From 95c3aaf84856d0e3a51adc552758a798429e82d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 27/60] fix: an emptied stack can be used again

---
 src/hzip_core/utils/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/utils/stack.h b/src/hzip_core/utils/stack.h
index 2870eb9..a3bb4c1 100644
--- a/src/hzip_core/utils/stack.h
+++ b/src/hzip_core/utils/stack.h
@@ -52,9 +52,9 @@ struct HZ_Buffer {
         if (index > 1) {
             index--;
         } else {
-            index = bufsize;
             auto tmp = buffer;
             buffer = buffer->prev;
+            index = buffer == nullptr ? 0 : bufsize;
 
             rfree(tmp);
         }
-- 
2.43.0


From 01cf2631ff5a500ef66dbfe01216e5ff215db5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 28/60] fix: unary code writer terminates

---
 src/hzip_core/utils/utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/utils/utils.h b/src/hzip_core/utils/utils.h
index 6906936..8902327 100755
--- a/src/hzip_core/utils/utils.h
+++ b/src/hzip_core/utils/utils.h
@@ -72,6 +72,7 @@ HZ_INLINE std::string hz_sha512(const std::string& str) {
 HZ_INLINE void hz_unary_write(uint64_t n, const std::function<void(uint64_t, uint8_t)>& writefunc) {
     while (n > 1) {
         writefunc(1, 1);
+        n--;
     }
 
     writefunc(0, 1);
-- 
2.43.0


From 1b74b1a692a3818812aa894acd0829f9fb3c2206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 29/60] fix: keep the bytes of an incomplete last word

---
 src/hzip_core/utils/utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hzip_core/utils/utils.h b/src/hzip_core/utils/utils.h
index 8902327..cdf9ce4 100755
--- a/src/hzip_core/utils/utils.h
+++ b/src/hzip_core/utils/utils.h
@@ -137,6 +137,11 @@ HZ_INLINE rainman::ptr<uint32_t> hz_u8_to_u32ptr(const rainman::ptr<uint8_t> &ar
         }
     }
 
+    // The last word may be incomplete.
+    if (j < n32) {
+        arr32[j] = tmp << ((4 - (n & 0x3)) << 3);
+    }
+
     return arr32;
 }
 
-- 
2.43.0


From e98f88ea114bc7947741bf192bd02a0c7a714d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 30/60] fix: report a file that cannot be created

---
 src/hzip_core/utils/fsutils.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hzip_core/utils/fsutils.h b/src/hzip_core/utils/fsutils.h
index 9c9130c..270a793 100755
--- a/src/hzip_core/utils/fsutils.h
+++ b/src/hzip_core/utils/fsutils.h
@@ -3,11 +3,19 @@
 
 #include <string>
 #include <filesystem>
+#include <cstdio>
+#include <hzip_core/errors/utils.h>
 #include <hzip_core/utils/platform.h>
 
 namespace fsutils {
     HZ_INLINE void create_empty_file(const std::string &path) {
-        fclose(fopen(path.c_str(), "wb"));
+        FILE *fp = fopen(path.c_str(), "wb");
+
+        if (fp == nullptr) {
+            throw UtilErrors::InternalError("fopen() failed: " + path);
+        }
+
+        fclose(fp);
     }
 
     HZ_INLINE bool check_if_file_exists(const std::string& filename) {
-- 
2.43.0


From e58f13dd2405cfc8afa6e229f101edfe3fcf3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 31/60] fix: zigzag iterators follow the increment conventions

---
 src/hzip_core/preprocessor/zigzag.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hzip_core/preprocessor/zigzag.h b/src/hzip_core/preprocessor/zigzag.h
index d0d92ba..0840853 100644
--- a/src/hzip_core/preprocessor/zigzag.h
+++ b/src/hzip_core/preprocessor/zigzag.h
@@ -79,24 +79,24 @@ namespace hztrans {
             uint32_t x{};
             uint32_t y{};
 
-            const_iterator(value_type val, uint32_t width, uint32_t height) : _val(val) {
+            const_iterator(value_type val, uint32_t width, uint32_t height) : x(val.x), y(val.y), _val(val) {
                 this->width = width;
                 this->height = height;
             }
 
             self_type operator++() {
-                self_type i = *this;
                 _val.next(width, height);
                 this->x = _val.x;
                 this->y = _val.y;
-                return i;
+                return *this;
             }
 
             self_type operator++(int) {
+                self_type i = *this;
                 _val.next(width, height);
                 this->x = _val.x;
                 this->y = _val.y;
-                return *this;
+                return i;
             }
 
             bool operator==(const self_type &rhs) { return _val == rhs._val; }
-- 
2.43.0


From ad6b92eb33503cba37868a0e37f1668444ae180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 32/60] fix: the zigzag walk of an empty grid is empty

---
 src/hzip_core/preprocessor/zigzag.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_core/preprocessor/zigzag.h b/src/hzip_core/preprocessor/zigzag.h
index 0840853..43f2dce 100644
--- a/src/hzip_core/preprocessor/zigzag.h
+++ b/src/hzip_core/preprocessor/zigzag.h
@@ -112,6 +112,10 @@ namespace hztrans {
         };
 
         [[nodiscard]] const_iterator begin() const {
+            if (width == 0 || height == 0) {
+                return end();
+            }
+
             return const_iterator(zigzag_pair(), width, height);
         }
 
-- 
2.43.0


From 5a64ba55bc9b9975a7bf53a268d655cfb99b5201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 33/60] fix: guard the set-up of the cache registry

---
 src/hzip_core/runtime/cache_provider.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hzip_core/runtime/cache_provider.cpp b/src/hzip_core/runtime/cache_provider.cpp
index 2e483b9..7b4b942 100644
--- a/src/hzip_core/runtime/cache_provider.cpp
+++ b/src/hzip_core/runtime/cache_provider.cpp
@@ -11,6 +11,8 @@ std::vector<std::mutex> CacheProvider::_rainman_cache_mutexes;
 std::mutex CacheProvider::_rainman_cache_mutex;
 
 void CacheProvider::init_cache(const std::string &filename, uint64_t count, uint64_t page_size) {
+    std::scoped_lock<std::mutex> lock(_rainman_cache_mutex);
+
     _rainman_cache_mutexes = std::vector<std::mutex>(count);
     _rainman_caches.clear();
 
@@ -18,6 +20,7 @@ void CacheProvider::init_cache(const std::string &filename, uint64_t count, uint
         _rainman_caches.emplace_back(filename + ".rain." + std::to_string(index), page_size);
     }
 
+    _rainman_cache_index = 0;
     _rainman_cache_count = count;
 }
 
-- 
2.43.0


From 8b7223d7ab67f2d1b246329dca8be59e1c4b5312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 34/60] fix: refuse to hand out a cache when there is none

---
 src/hzip_core/runtime/cache_provider.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hzip_core/runtime/cache_provider.cpp b/src/hzip_core/runtime/cache_provider.cpp
index 7b4b942..108736f 100644
--- a/src/hzip_core/runtime/cache_provider.cpp
+++ b/src/hzip_core/runtime/cache_provider.cpp
@@ -1,4 +1,5 @@
 #include "cache_provider.h"
+#include <hzip_core/errors/utils.h>
 
 using namespace hzruntime;
 
@@ -27,6 +28,10 @@ void CacheProvider::init_cache(const std::string &filename, uint64_t count, uint
 std::pair<rainman::cache&, std::mutex &> CacheProvider::get_cache() {
     std::scoped_lock<std::mutex> lock(_rainman_cache_mutex);
 
+    if (_rainman_cache_count == 0) {
+        throw UtilErrors::InternalError("No caches were initialized");
+    }
+
     auto pair = std::pair<rainman::cache&, std::mutex &>(
             _rainman_caches[_rainman_cache_index],
             _rainman_cache_mutexes[_rainman_cache_index]
-- 
2.43.0


From 9136ec819be22012c1fd7dc233925a4cde2186cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 35/60] fix: disable OpenCL when the device filter leaves no
 device

---
 src/hzip_core/runtime/config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/runtime/config.cpp b/src/hzip_core/runtime/config.cpp
index 9617296..bafa9eb 100644
--- a/src/hzip_core/runtime/config.cpp
+++ b/src/hzip_core/runtime/config.cpp
@@ -88,6 +88,7 @@ void Config::configure() {
     if (_opencl_device_regex != nullptr) {
         Config::opencl_device_regex = _opencl_device_regex;
         hzopencl::DeviceProvider::filter_devices(Config::opencl_device_regex);
+        opencl_support_enabled = !hzopencl::DeviceProvider::empty();
     }
 #endif
 }
-- 
2.43.0


From 8178114d76099e485183eda29856d90a01a20e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 36/60] fix: keep the OpenCL registries when build options are
 given

---
 src/hzip_core/opencl/cl_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index f631bd6..7ddc8b9 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -6,6 +6,7 @@
 
 #ifndef HZIP_OPENCL_BUILD_OPTIONS
 #define HZIP_OPENCL_BUILD_OPTIONS "-cl-std=CL2.0"
+#endif
 
 using namespace hzopencl;
 
@@ -169,5 +170,4 @@ std::pair<cl::Kernel, std::mutex &> KernelProvider::get(const std::string &progr
     return std::pair<cl::Kernel, std::mutex &>(cl::Kernel(program, kernel.c_str()), mutex);
 }
 
-#endif
 #endif
\ No newline at end of file
-- 
2.43.0


From af766d53fa47833ef897ca266a45becb77c1287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 37/60] fix: take the device and program locks in one order

---
 src/hzip_core/opencl/cl_helper.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index 7ddc8b9..e46f88f 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -57,7 +57,7 @@ bool DeviceProvider::empty() {
 }
 
 void DeviceProvider::filter_devices(const std::string &regex_pattern) {
-    std::scoped_lock<std::mutex> lock(_mutex);
+    std::unique_lock<std::mutex> lock(_mutex);
 
     if (_devices.empty()) {
         throw OpenCLErrors::InvalidOperationException("No devices were loaded");
@@ -75,13 +75,17 @@ void DeviceProvider::filter_devices(const std::string &regex_pattern) {
     }
 
     _devices = filtered_devices;
+    uint64_t device_count = _devices.size();
+
+    // The program registry takes this lock while it holds its own.
+    lock.unlock();
 
     ProgramProvider::clear();
-    ProgramProvider::set_device_count(_devices.size());
+    ProgramProvider::set_device_count(device_count);
 }
 
 void DeviceProvider::load_devices(uint32_t device_type) {
-    std::scoped_lock<std::mutex> lock(_mutex);
+    std::unique_lock<std::mutex> lock(_mutex);
 
     _devices.clear();
     std::vector<cl::Platform> platforms;
@@ -94,9 +98,13 @@ void DeviceProvider::load_devices(uint32_t device_type) {
     }
 
     _mutexes = std::vector<std::mutex>(_devices.size());
+    uint64_t device_count = _devices.size();
+
+    // The program registry takes this lock while it holds its own.
+    lock.unlock();
 
     ProgramProvider::clear();
-    ProgramProvider::set_device_count(_devices.size());
+    ProgramProvider::set_device_count(device_count);
 }
 
 std::mutex &DeviceProvider::get_mutex(uint64_t index) {
-- 
2.43.0


From 3f449d761a4c09f09a1ff7672b19a6d8c41486cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 38/60] fix: read the device lock table under its lock

---
 src/hzip_core/opencl/cl_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index e46f88f..9c7e19c 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -108,6 +108,7 @@ void DeviceProvider::load_devices(uint32_t device_type) {
 }
 
 std::mutex &DeviceProvider::get_mutex(uint64_t index) {
+    std::scoped_lock<std::mutex> lock(_mutex);
     return _mutexes[index];
 }
 
-- 
2.43.0


From 5bf51c74865a90f995aa268c3647ce677671a3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:51 +0000
Subject: [PATCH 39/60] fix: restart the device rotation when the devices
 change

---
 src/hzip_core/opencl/cl_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index 9c7e19c..977ca0a 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -167,6 +167,7 @@ void ProgramProvider::register_program(const std::string &program_name, const st
 void ProgramProvider::set_device_count(uint64_t device_count) {
     std::scoped_lock<std::mutex> lock(_mutex);
     _device_count = device_count;
+    _device_index = 0;
 }
 
 std::pair<cl::Kernel, std::mutex &> KernelProvider::get(const std::string &program_name) {
-- 
2.43.0


From 583813917c9ecaf999d523fbb9d7da13f0f57a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:51 +0000
Subject: [PATCH 40/60] fix: register a program for all devices or for none

---
 src/hzip_core/opencl/cl_helper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index 977ca0a..86e0bda 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -137,6 +137,7 @@ void ProgramProvider::register_program(const std::string &program_name, const st
 
     if (!_program_map.contains(program_name)) {
         auto devices = DeviceProvider::get_devices();
+        std::vector<cl::Program> programs;
 
         for (const auto &device : devices) {
             cl::Context context(device);
@@ -157,10 +158,14 @@ void ProgramProvider::register_program(const std::string &program_name, const st
                         throw OpenCLErrors::InvalidOperationException(e.what());
                     }
                 }
+
+                throw OpenCLErrors::InvalidOperationException(e.what());
             }
 
-            _program_map[program_name].push_back(program);
+            programs.push_back(program);
         }
+
+        _program_map[program_name] = programs;
     }
 }
 
-- 
2.43.0


From c9f418e65978d70840cceee2ae31b84d8109f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:46 +0000
Subject: [PATCH 41/60] fix: do not read past the end of the supplied image

---
 src/hzip_core/preprocessor/png_bundle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 2ee30eb..18bc1c0 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -1,6 +1,10 @@
 #include "png_bundle.h"
 
 void PNGBundleBuilder::MemBuffer::read(uint8_t *dst, uint64_t size, uint64_t n) {
+    if (size * n > buffer.size() - index) {
+        throw TransformErrors::InvalidInputError("png data is truncated");
+    }
+
     for (uint64_t i = 0; i < size * n; i++) {
         dst[i] = buffer[index++];
     }
-- 
2.43.0


From fa9119a898e463b417167d595228f6e052b2aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:46 +0000
Subject: [PATCH 42/60] fix: install the png error and memory functions at
 creation

---
 src/hzip_core/preprocessor/png_bundle.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 18bc1c0..68ae379 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -61,21 +61,19 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         throw TransformErrors::InvalidInputError("png header check failed");
     }
 
-    png_structp png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
+    png_structp png_ptr = png_create_read_struct_2(PNG_LIBPNG_VER_STRING, nullptr, png_error_fn, png_warning_fn,
+                                                   nullptr, png_malloc_fn, png_free_fn);
 
     if (!png_ptr) {
         throw TransformErrors::InvalidOperationError("png_create_read_struct() failed");
     }
 
-    png_set_mem_fn(png_ptr, nullptr, png_malloc_fn, png_free_fn);
-
     png_infop info_ptr = png_create_info_struct(png_ptr);
     if (!info_ptr) {
         png_destroy_read_struct(&png_ptr, nullptr, nullptr);
         throw TransformErrors::InvalidOperationError("png_create_info_struct() failed");
     }
 
-    png_set_error_fn(png_ptr, nullptr, png_error_fn, png_warning_fn);
     png_set_read_fn(png_ptr, &_mem_buf, png_read_fn);
     png_set_sig_bytes(png_ptr, 8);
 
-- 
2.43.0


From a2cf1bf4fdc0ee7dd90ef51672b1f64eaa8a98b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:46 +0000
Subject: [PATCH 43/60] fix: read image samples of every bit depth

---
 src/hzip_core/preprocessor/png_bundle.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 68ae379..a95d179 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -85,6 +85,9 @@ PNGBundle PNGBundleBuilder::read_bundle() {
     png_byte bit_depth = png_get_bit_depth(png_ptr, info_ptr);
     png_byte nchannels = png_get_channels(png_ptr, info_ptr);
 
+    // Samples of less than 8 bits are stored in one byte each.
+    png_set_packing(png_ptr);
+
     int number_of_passes = png_set_interlace_handling(png_ptr);
 
     png_read_update_info(png_ptr, info_ptr);
@@ -100,13 +103,18 @@ PNGBundle PNGBundleBuilder::read_bundle() {
     png_read_image(png_ptr, row_pointers);
 
     auto pixar = rainman::ptr<uint16_t>(buffer_size);
-    uint64_t sz = height * width;
+    uint64_t sz = static_cast<uint64_t>(height) * width;
     uint64_t sy = width;
 
     for (uint64_t y = 0, ly = 0; y < height; y++, ly += sy) {
         for (uint64_t x = 0; x < width; x++) {
             for (uint64_t z = 0, lz = 0; z < nchannels; z++, lz += sz) {
-                pixar[lz + ly + x] = row_pointers[y][nchannels * x + z];
+                uint64_t index = nchannels * x + z;
+                if (bit_depth == 16) {
+                    pixar[lz + ly + x] = (row_pointers[y][index << 1] << 8) | row_pointers[y][(index << 1) + 1];
+                } else {
+                    pixar[lz + ly + x] = row_pointers[y][index];
+                }
             }
         }
     }
-- 
2.43.0


From 04128532472f4ae061220022401493e9813a7db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 44/60] fix: release the png reader on every way out

---
 src/hzip_core/preprocessor/png_bundle.cpp | 35 +++++++++++++----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index a95d179..2bcf596 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -1,3 +1,4 @@
+#include <vector>
 #include "png_bundle.h"
 
 void PNGBundleBuilder::MemBuffer::read(uint8_t *dst, uint64_t size, uint64_t n) {
@@ -68,9 +69,20 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         throw TransformErrors::InvalidOperationError("png_create_read_struct() failed");
     }
 
-    png_infop info_ptr = png_create_info_struct(png_ptr);
+    png_infop info_ptr = nullptr;
+
+    // Releases the library objects on every way out.
+    struct ReadGuard {
+        png_structp &png_ptr;
+        png_infop &info_ptr;
+
+        ~ReadGuard() {
+            png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
+        }
+    } guard{png_ptr, info_ptr};
+
+    info_ptr = png_create_info_struct(png_ptr);
     if (!info_ptr) {
-        png_destroy_read_struct(&png_ptr, nullptr, nullptr);
         throw TransformErrors::InvalidOperationError("png_create_info_struct() failed");
     }
 
@@ -93,14 +105,16 @@ PNGBundle PNGBundleBuilder::read_bundle() {
     png_read_update_info(png_ptr, info_ptr);
 
     uint64_t buffer_size = 0;
-    auto row_pointers = rmalloc<png_bytep>(height);
-    for (int y = 0; y < height; y++) {
+    std::vector<rainman::ptr<png_byte>> rows;
+    std::vector<png_bytep> row_pointers;
+    for (uint64_t y = 0; y < height; y++) {
         uint64_t row_byte_count = png_get_rowbytes(png_ptr, info_ptr);
         buffer_size += row_byte_count;
-        row_pointers[y] = rmalloc<png_byte>(row_byte_count);
+        rows.push_back(rainman::ptr<png_byte>(row_byte_count));
+        row_pointers.push_back(rows.back().pointer());
     }
 
-    png_read_image(png_ptr, row_pointers);
+    png_read_image(png_ptr, row_pointers.data());
 
     auto pixar = rainman::ptr<uint16_t>(buffer_size);
     uint64_t sz = static_cast<uint64_t>(height) * width;
@@ -119,12 +133,6 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         }
     }
 
-    for (int y = 0; y < height; y++) {
-        rfree(row_pointers[y]);
-    }
-
-    rfree(row_pointers);
-
     auto bundle = PNGBundle(
             pixar,
             nchannels
@@ -152,9 +160,6 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         bundle.plte.colors = colors;
     }
 
-    png_destroy_info_struct(png_ptr, &info_ptr);
-    png_destroy_read_struct(&png_ptr, nullptr, nullptr);
-
     return bundle;
 }
 
-- 
2.43.0


From dad2596c9bb7f6b5c5b3ed4234f131c48b929b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 45/60] fix: refuse to write images instead of returning
 nothing

---
 src/hzip_core/preprocessor/png_bundle.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 2bcf596..286cf1b 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -164,17 +164,7 @@ PNGBundle PNGBundleBuilder::read_bundle() {
 }
 
 rainman::ptr<uint8_t> PNGBundleBuilder::write_pixels(const PNGBundle &bundle) {
-    png_structp png_ptr = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
-
-    if (!png_ptr) {
-        throw TransformErrors::InvalidOperationError("png_create_write_struct() failed");
-    }
-
-    png_infop info_ptr = png_create_info_struct(png_ptr);
-    if (!info_ptr) {
-        png_destroy_read_struct(&png_ptr, nullptr, nullptr);
-        throw TransformErrors::InvalidOperationError("png_create_info_struct() failed");
-    }
+    throw TransformErrors::InvalidOperationError("Writing images is not supported");
 }
 
 
-- 
2.43.0


From a3c21cd79f4cb1327348c65e22043e3a08fdf1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 46/60] fix: read the residues of deep images from the image
 data

---
 src/hzip_codec/sharingan/state_transition.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index bde7d9c..cc10ade 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -162,7 +162,7 @@ SharinganStateTransition::static_precode() {
 
                 for (uint64_t x = 0; x < _width; x++) {
                     uint64_t index = y_offset + x;
-                    uint64_t curr_symbol = _data[index];
+                    uint64_t curr_symbol = _data[index - residue_offset] & 0xff;
 
                     uint32_t ls = ls_arr[curr_symbol];
                     uint32_t bs = bs_arr[curr_symbol];
@@ -294,7 +294,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
 
             for (uint64_t y_chunk_index = 0; y_chunk_index < y_chunks; y_chunk_index++) {
                 uint64_t y_chunk_partial_offset = y_chunk_index * _chunk_height;
-                uint64_t y_chunk_offset = channel_offset + y_chunk_partial_offset;
+                uint64_t y_chunk_offset = channel_offset + y_chunk_partial_offset * _width;
                 uint64_t chunk_h = y_chunk_partial_offset + _chunk_height > _height ? y_residue : _chunk_height;
 
                 for (uint64_t x_chunk_index = 0; x_chunk_index < x_chunks; x_chunk_index++) {
@@ -312,7 +312,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
                         for (uint64_t x = 0; x < chunk_w; x++) {
                             uint64_t index = y_offset + x;
 
-                            uint64_t residual_symbol = _data[index] & 0xff;
+                            uint64_t residual_symbol = _data[index - residue_segment_offset] & 0xff;
 
                             if (x == 0 && y == 0) {
                                 array.set(uniform_pair(residual_symbol), index);
-- 
2.43.0


From f00b58c76ea4aca4c5e52b98960e4b0821d8ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 47/60] fix: index the context maps with leading bytes only

---
 src/hzip_codec/sharingan/state_transition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index cc10ade..53c0b04 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -126,14 +126,14 @@ SharinganStateTransition::static_precode() {
                 uint64_t curr_symbol = _data[index] >> shift;
 
                 if (x > 0) {
-                    auto left_symbol = _data[index - 1];
+                    auto left_symbol = _data[index - 1] >> shift;
                     uint32_t ls = ls_chan[left_symbol][curr_symbol];
                     uint32_t bs = bs_chan[left_symbol][curr_symbol];
 
                     array[index] = SSTPair{.ls=ls, .bs=bs};
                 } else if (y > 0) {
                     if (_locality_context_order > 1) {
-                        auto up_symbol = _data[index - _width];
+                        auto up_symbol = _data[index - _width] >> shift;
                         uint32_t ls = ls_chan[up_symbol][curr_symbol];
                         uint32_t bs = bs_chan[up_symbol][curr_symbol];
 
-- 
2.43.0


From bd657c1f0ab3dc7951607e0872fb64d4cbf87c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 48/60] fix: listing all paths returns them

---
 src/hzip_storage/archive/archive_trie.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hzip_storage/archive/archive_trie.h b/src/hzip_storage/archive/archive_trie.h
index fdc97b9..d6714fa 100644
--- a/src/hzip_storage/archive/archive_trie.h
+++ b/src/hzip_storage/archive/archive_trie.h
@@ -36,6 +36,16 @@ private:
         rfree(node);
     }
 
+    inline void collect(HZ_ArchiveTrieNode<Type> *node, const std::string &path, std::vector<std::string> &paths) {
+        if (is_leaf_node(node)) {
+            paths.push_back(path);
+        }
+
+        for (const auto &entry : node->children) {
+            collect(entry.second, path + "/" + entry.first, paths);
+        }
+    }
+
     inline bool is_leaf_node(HZ_ArchiveTrieNode<Type> *node) {
         return node->is_leaf;
     }
@@ -228,8 +238,9 @@ public:
 
     std::vector<std::string> all() {
         std::vector<std::string> paths;
+        collect(root, "", paths);
 
-
+        return paths;
     }
 };
 
-- 
2.43.0


From e5137196598214000949046eae60dd7c61eae084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 49/60] fix: read the jpeg header before the decompressor is
 destroyed

---
 src/hzip_core/preprocessor/jpeg_codec.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index cf40153..49ee98f 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -218,11 +218,12 @@ public:
             }
         }
 
+        auto image = hzj_image_struct{hzj_header(&info), dct_coeffs};
+
         jpeg_finish_decompress(&info);
         jpeg_destroy_decompress(&info);
 
-
-        return hzj_image_struct{hzj_header(&info), dct_coeffs};
+        return image;
     }
 
     void write(hzj_image_struct image, FILE *out) {
-- 
2.43.0


From 4f92afc6d43629c917ccd686c924da25fc74a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 50/60] fix: set the jpeg error manager before objects are
 created and release them

---
 src/hzip_core/preprocessor/jpeg_codec.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index 49ee98f..b3cafe3 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -227,17 +227,20 @@ public:
     }
 
     void write(hzj_image_struct image, FILE *out) {
-        j_compress_ptr info = new jpeg_compress_struct;
+        jpeg_compress_struct cinfo;
+        j_compress_ptr info = &cinfo;
         jpeg_error_mgr err;
 
+        info->err = jpeg_std_error(&err);
         jpeg_create_compress(info);
 
 
         image.header.create_compress_ptr(info);
         jpeg_stdio_dest(info, out);
-        info->err = jpeg_std_error(&err);
 
-        j_decompress_ptr dinfo = new jpeg_decompress_struct;
+        jpeg_decompress_struct xinfo;
+        j_decompress_ptr dinfo = &xinfo;
+        dinfo->err = info->err;
         jpeg_create_decompress(dinfo);
 
 
@@ -252,7 +255,7 @@ public:
             }
         }
 
-        auto *coeff_arrays = new jvirt_barray_ptr[info->num_components];
+        std::vector<jvirt_barray_ptr> coeff_arrays(info->num_components);
 
         jpeg_component_info *compptr;
         int ci;
@@ -289,9 +292,10 @@ public:
             }
         }
 
-        jpeg_write_coefficients(info, coeff_arrays);
+        jpeg_write_coefficients(info, coeff_arrays.data());
         jpeg_finish_compress(info);
         jpeg_destroy_compress(info);
+        jpeg_destroy_decompress(dinfo);
     }
 
 
-- 
2.43.0


From 562c4f010752101938fe482447287858a748caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 51/60] fix: lay out jpeg blocks by width and height as the
 reader does

---
 src/hzip_core/preprocessor/jpeg_codec.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index b3cafe3..41cd010 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -260,12 +260,15 @@ public:
         jpeg_component_info *compptr;
         int ci;
         for (ci = 0, compptr = info->comp_info; ci < info->num_components; ci++, compptr++) {
-            compptr->width_in_blocks =
-                    (JDIMENSION) image.header.image_height * image.header.comp_specs[ci].v_samp_factor /
-                    (8 * max_v_samp_factor);
-            compptr->height_in_blocks =
-                    (JDIMENSION) image.header.image_width * image.header.comp_specs[ci].h_samp_factor /
-                    (8 * max_h_samp_factor);
+            long h_block = 8L * max_h_samp_factor;
+            long v_block = 8L * max_v_samp_factor;
+
+            compptr->width_in_blocks = (JDIMENSION) (
+                    hzj_round_up((long) image.header.image_width * image.header.comp_specs[ci].h_samp_factor,
+                                 h_block) / h_block);
+            compptr->height_in_blocks = (JDIMENSION) (
+                    hzj_round_up((long) image.header.image_height * image.header.comp_specs[ci].v_samp_factor,
+                                 v_block) / v_block);
 
             coeff_arrays[ci] = (*dinfo->mem->request_virt_barray)
                     ((j_common_ptr) dinfo, JPOOL_IMAGE, TRUE,
-- 
2.43.0


From bca4387c46ecfa5a4b59e924ce28300d2d326477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 52/60] fix: check and close the jpeg file

---
 src/hzip_core/preprocessor/jpeg_codec.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index 41cd010..0b33e05 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -8,6 +8,7 @@
 #include <vector>
 #include <jerror.h>
 #include <jpegint.h>
+#include <hzip_core/errors/transform.h>
 
 class hzj_iface {
 private:
@@ -17,6 +18,12 @@ private:
 
     };
 
+    void check_file() {
+        if (jpeg_file == nullptr) {
+            throw TransformErrors::InvalidInputError("Failed to open jpeg file");
+        }
+    }
+
     void dct_arr_alloc(int **&arr) {
         arr = new int *[8];
         for (int i = 0; i < 8; i++) {
@@ -180,10 +187,20 @@ public:
 
     hzj_iface(uint8_t *buf, uint64_t len) {
         jpeg_file = fmemopen(buf, len, "rb");
+        check_file();
     }
 
     hzj_iface(std::string filename) {
         jpeg_file = fopen(filename.c_str(), "rb");
+        check_file();
+    }
+
+    hzj_iface(const hzj_iface &) = delete;
+
+    hzj_iface &operator=(const hzj_iface &) = delete;
+
+    ~hzj_iface() {
+        fclose(jpeg_file);
     }
 
     hzj_image_struct read() {
-- 
2.43.0


From 9dff37949bc68432d0b6d0906dbd1b9a0f3a127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 53/60] fix: do not leak the jpeg quantisation tables

---
 src/hzip_core/preprocessor/jpeg_codec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index 0b33e05..ec09285 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -75,7 +75,7 @@ public:
         uint8_t data_precision;
         uint16_t CCIR601_sampling;
 
-        QTABLE *qtables;
+        std::vector<QTABLE> qtables;
         std::vector<COMP_SPEC> comp_specs;
 
         // non-critical parameters
@@ -98,7 +98,7 @@ public:
             data_precision = info->data_precision;
             CCIR601_sampling = info->CCIR601_sampling;
 
-            qtables = new QTABLE[NUM_QUANT_TBLS];
+            qtables.resize(NUM_QUANT_TBLS);
             for (int tblno = 0; tblno < NUM_QUANT_TBLS; tblno++) {
                 if (info->quant_tbl_ptrs[tblno] != NULL) {
                     auto _qtable = info->quant_tbl_ptrs[tblno]->quantval;
-- 
2.43.0


From c331464c78d3ca558d67dd2adaa22131a5488b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:08 +0000
Subject: [PATCH 54/60] fix: jpeg header includes what it uses

---
 src/hzip_core/preprocessor/jpeg_codec.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index ec09285..6de81e2 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -1,6 +1,7 @@
 #ifndef HYBRIDZIP_JPEG_CODEC_H
 #define HYBRIDZIP_JPEG_CODEC_H
 
+#include <cstdint>
 #include <cstdio>
 #include <jpeglib.h>
 #include <string>
-- 
2.43.0


From f354e14b287c6cabaf6354da33eaa89136bb4c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:37 +0000
Subject: [PATCH 55/60] fix: an archive file is created and opened only under
 its lock

---
 src/hzip_storage/archive/archive.cpp | 38 ++++++++++++++++------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 9504357..1167ee3 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -10,20 +10,6 @@
 HZ_Archive::HZ_Archive(const std::string &archive_path) {
     path = std::filesystem::absolute(archive_path);
 
-    bool init_flag = !fsutils::check_if_file_exists(path);
-
-    if (init_flag) {
-        fsutils::create_empty_file(path);
-    }
-
-    FILE *fp;
-    if ((fp = fopen(path.c_str(), "rb+")) == nullptr) {
-        throw ArchiveErrors::InvalidOperationException(std::string("fopen() failed with error: ") +
-                                                       std::strerror(errno));
-    }
-
-    stream = rainman::ptr<bitio::stream>(1, fp);
-
     auto sha512_path = "/" + hz_sha512(path);
 
     const char *sname = sha512_path.c_str();
@@ -44,8 +30,28 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
 
     LOG_F(INFO, "hzip_core.archive: Access granted to archive [%s]", path.c_str());
 
-    if (init_flag) {
-        hza_init();
+    // The file may only be looked at, created and initialised by the holder of its lock.
+    try {
+        bool init_flag = !fsutils::check_if_file_exists(path);
+
+        if (init_flag) {
+            fsutils::create_empty_file(path);
+        }
+
+        FILE *fp;
+        if ((fp = fopen(path.c_str(), "rb+")) == nullptr) {
+            throw ArchiveErrors::InvalidOperationException(std::string("fopen() failed with error: ") +
+                                                           std::strerror(errno));
+        }
+
+        stream = rainman::ptr<bitio::stream>(1, fp);
+
+        if (init_flag) {
+            hza_init();
+        }
+    } catch (...) {
+        sem_post(archive_mutex.pointer());
+        throw;
     }
 }
 
-- 
2.43.0


From b072c5a24d7fe8368eb8e1da443f6422e5efe79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:19 +0000
Subject: [PATCH 56/60] fix: do not tie a block coded with its own mstate to
 the given address

---
 src/hzip_codec/processor/processor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index e4171b6..053c51d 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -67,8 +67,8 @@ void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
 
         blob->mstate_id = job->blob->mstate_id;
 
-        // A blob that was stored as it is does not use the mstate at the given address.
-        if (job->mstate_addr.is_none() || !blob->status) {
+        // A blob that was stored as it is, or coded with an mstate of its own, does not use the mstate at the given address.
+        if (job->mstate_addr.is_none() || !blob->status || blob->mstate.pointer() != job->blob->mstate.pointer()) {
             if (job->archive.is_some()) {
                 job->archive.inner()->inject_mstate(blob->mstate, blob);
             } else if (job->blob_callback == nullptr) {
-- 
2.43.0


From 216be4a4cda1066be223de2f68f496eb2328ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:22 +0000
Subject: [PATCH 57/60] fix: set the size of a decompressed Victini block

---
 src/hzip_codec/victini/victini.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_codec/victini/victini.cpp b/src/hzip_codec/victini/victini.cpp
index 5886826..ab78b67 100755
--- a/src/hzip_codec/victini/victini.cpp
+++ b/src/hzip_codec/victini/victini.cpp
@@ -156,6 +156,7 @@ rainman::ptr<HZ_Blob> hzcodec::Victini::decompress(const rainman::ptr<HZ_Blob> &
     auto dblob = rainman::ptr<HZ_Blob>();
 
     dblob->data = rainman::ptr<uint8_t>(length);
+    dblob->size = length;
     dblob->o_size = length;
     dblob->mstate = mstate;
     dblob->mstate->alg = hzcodec::algorithms::VICTINI;
-- 
2.43.0


From 54439a46631a4c1586f701b074d939b834ef4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:14 +0000
Subject: [PATCH 58/60] fix: cache page size and count apply without a cache
 file name

---
 src/hzip_core/runtime/config.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/hzip_core/runtime/config.cpp b/src/hzip_core/runtime/config.cpp
index bafa9eb..c3d6358 100644
--- a/src/hzip_core/runtime/config.cpp
+++ b/src/hzip_core/runtime/config.cpp
@@ -30,23 +30,24 @@ void Config::configure() {
     const char *_processor_threads = std::getenv("HZIP_PROCESSOR_THREADS");
     const char *_host_max_memory = std::getenv("HZIP_MAX_MEM_USAGE");
 
-    if (_cache_file != nullptr) {
-        uint64_t page_size = 131072;
-        uint64_t cache_count = 4;
+    std::string cache_file = "hzip";
+    uint64_t page_size = 131072;
+    uint64_t cache_count = 4;
 
-        if (_cache_page_size != nullptr) {
-            page_size = std::stoull(_cache_page_size);
-        }
+    if (_cache_file != nullptr) {
+        cache_file = _cache_file;
+    }
 
-        if (_cache_count != nullptr) {
-            cache_count = std::stoull(_cache_count);
-        }
+    if (_cache_page_size != nullptr) {
+        page_size = std::stoull(_cache_page_size);
+    }
 
-        CacheProvider::init_cache(_cache_file, cache_count, page_size);
-    } else {
-        CacheProvider::init_cache("hzip", 4, 131072);
+    if (_cache_count != nullptr) {
+        cache_count = std::stoull(_cache_count);
     }
 
+    CacheProvider::init_cache(cache_file, cache_count, page_size);
+
     if (_api_threads != nullptr) {
         Config::api_threads = std::stoull(_api_threads);
     }
-- 
2.43.0


From 0d793b5f7e06a86f19b3dbd72faa68756f32118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:18 +0000
Subject: [PATCH 59/60] fix: keep the devices when loading them again fails

---
 src/hzip_core/opencl/cl_helper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index 86e0bda..57c11d7 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -87,16 +87,17 @@ void DeviceProvider::filter_devices(const std::string &regex_pattern) {
 void DeviceProvider::load_devices(uint32_t device_type) {
     std::unique_lock<std::mutex> lock(_mutex);
 
-    _devices.clear();
+    std::vector<cl::Device> devices;
     std::vector<cl::Platform> platforms;
     cl::Platform::get(&platforms);
 
     for (const auto &platform: platforms) {
         std::vector<cl::Device> platform_devices;
         platform.getDevices(device_type, &platform_devices);
-        _devices.insert(_devices.end(), platform_devices.begin(), platform_devices.end());
+        devices.insert(devices.end(), platform_devices.begin(), platform_devices.end());
     }
 
+    _devices = devices;
     _mutexes = std::vector<std::mutex>(_devices.size());
     uint64_t device_count = _devices.size();
 
-- 
2.43.0


From 4687d888d5c580aaf9951e0e47554f507a7e25c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:10 +0000
Subject: [PATCH 60/60] fix: release the blocks of a jpeg image

The coefficient blocks and the arrays that hold them were never freed.
---
 src/hzip_core/preprocessor/jpeg_codec.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index 6de81e2..8aab002 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -6,6 +6,7 @@
 #include <jpeglib.h>
 #include <string>
 #include <cstring>
+#include <memory>
 #include <vector>
 #include <jerror.h>
 #include <jpegint.h>
@@ -39,12 +40,25 @@ private:
 
 public:
     struct hzj_mcu_array {
-        std::vector<int **> *coeff_arrays;
+        // Copies share the blocks, the last one releases them.
+        std::shared_ptr<std::vector<int **>[]> coeff_arrays;
         uint8_t nchannels;
 
         hzj_mcu_array(uint8_t _nchannels) {
             nchannels = _nchannels;
-            coeff_arrays = new std::vector<int **>[nchannels];
+            coeff_arrays = std::shared_ptr<std::vector<int **>[]>(
+                    new std::vector<int **>[nchannels],
+                    [_nchannels](std::vector<int **> *arrays) {
+                        for (int channel = 0; channel < _nchannels; channel++) {
+                            for (int **arr: arrays[channel]) {
+                                for (int i = 0; i < 8; i++) {
+                                    delete[] arr[i];
+                                }
+                                delete[] arr;
+                            }
+                        }
+                        delete[] arrays;
+                    });
         }
 
         void push_array(uint8_t channel, int **arr) {
-- 
2.43.0

