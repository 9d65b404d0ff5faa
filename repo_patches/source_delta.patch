From 9daf7db60e9ab1823e9a8aa17cf1a003b4eec6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 01/20] fix: report the error number returned by posix_fadvise

posix_fadvise returns the error number instead of setting errno, so a
failing call was reported with a stale errno, possibly 0 (success).
---
 include/nudb/impl/posix_file.ipp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/nudb/impl/posix_file.ipp b/include/nudb/impl/posix_file.ipp
index cb33b82..508c2b6 100644
--- a/include/nudb/impl/posix_file.ipp
+++ b/include/nudb/impl/posix_file.ipp
@@ -64,8 +64,10 @@ create(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // posix_fadvise returns the error number and does not set errno
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+        return err(ev, ec);
 #endif
 }
 
@@ -80,8 +82,10 @@ open(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // posix_fadvise returns the error number and does not set errno
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+        return err(ev, ec);
 #endif
 }
 
-- 
2.43.0


From a0f39ff563d6dd0fc49621fe6537408aae0b636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:58 +0000
Subject: [PATCH 02/20] fix: hash misaligned keys without misaligned loads

XXH64 selected the aligned-load variant for misaligned input and the
byte-copy variant for aligned input, so hashing a key at an odd address
dereferenced misaligned pointers (undefined behaviour).
---
 include/nudb/detail/xxhash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nudb/detail/xxhash.hpp b/include/nudb/detail/xxhash.hpp
index 648b2cf..6c1b612 100644
--- a/include/nudb/detail/xxhash.hpp
+++ b/include/nudb/detail/xxhash.hpp
@@ -316,9 +316,9 @@ XXH64(void const* data, size_t bytes, std::uint64_t seed)
     // Use faster algorithm if aligned
     if((reinterpret_cast<std::uintptr_t>(data) & 7) == 0)
         return XXH64_endian_align(data, bytes, seed,
-            is_little_endian{}, std::false_type{});
+            is_little_endian{}, std::true_type{});
     return XXH64_endian_align(data, bytes, seed,
-        is_little_endian{}, std::true_type{});
+        is_little_endian{}, std::false_type{});
 }
 
 } // detail
-- 
2.43.0


From 906b4d577e573a4df158e31353987ffb93bf4d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 03/20] fix: refuse compact buckets whose count exceeds the
 block

---
 include/nudb/detail/bucket.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/detail/bucket.hpp b/include/nudb/detail/bucket.hpp
index 8a8efbf..4f96fcd 100644
--- a/include/nudb/detail/bucket.hpp
+++ b/include/nudb/detail/bucket.hpp
@@ -378,6 +378,11 @@ read(bulk_reader<File>& r, error_code& ec)
         return;
     detail::read<std::uint16_t>(is, size_); // Count
     detail::read<uint48_t>(is, spill_);     // Spill
+    if(size_ > bucket_capacity(block_size_))
+    {
+        ec = error::invalid_bucket_size;
+        return;
+    }
     update();
     // Excludes empty bucket entries
     auto const w = size_ * (
-- 
2.43.0


From d40e11e8d42a5dc3a66199480e134b1801fed5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 04/20] fix: visit reports a truncated data record

---
 include/nudb/impl/visit.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nudb/impl/visit.ipp b/include/nudb/impl/visit.ipp
index 4d57b95..60af810 100644
--- a/include/nudb/impl/visit.ipp
+++ b/include/nudb/impl/visit.ipp
@@ -68,6 +68,8 @@ visit(
             is = r.prepare(
                 dh.key_size +           // Key
                 size, ec);              // Data
+            if(ec)
+                return;
             std::uint8_t const* const key =
                 is.data(dh.key_size);
             callback(key, dh.key_size,
-- 
2.43.0


From 5619ebcca118ec3ac4c26728d2f91b873fc0cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 05/20] fix: recover reports errors reading a logged bucket

---
 include/nudb/impl/recover.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index e449c36..65d0196 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -153,6 +153,8 @@ recover(
                 ec = {};
                 break;
             }
+            if(ec)
+                return;
             if(b.spill() && b.spill() + bucketSize > dataFileSize)
             {
                 ec = error::invalid_log_spill;
-- 
2.43.0


From 5716accc0557977fbb2eaa875a668b9a0415d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 06/20] fix: recover rejects every bucket index outside the key
 file

---
 include/nudb/impl/recover.ipp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 65d0196..10b665a 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -139,14 +139,9 @@ recover(
             }
             if(ec)
                 return;
-            nsize_t n;
-            {
-                std::uint64_t v;
-                // VFALCO This should have been a uint32_t
-                read<std::uint64_t>(is, v); // Index
-                BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
-                n = static_cast<nsize_t>(v);
-            }
+            std::uint64_t n;
+            // VFALCO This should have been a uint32_t
+            read<std::uint64_t>(is, n);     // Index
             b.read(r, ec);                  // Bucket
             if(ec == error::short_read)
             {
@@ -160,7 +155,7 @@ recover(
                 ec = error::invalid_log_spill;
                 return;
             }
-            if(n > kh.buckets)
+            if(n >= kh.buckets)
             {
                 ec = error::invalid_log_index;
                 return;
-- 
2.43.0


From 8af8b6c8d11236dd246175c0ae1548bb76d301d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 07/20] fix: recover erases the log through File

---
 include/nudb/impl/recover.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 10b665a..62cbbdc 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -66,7 +66,9 @@ recover(
     if(keyFileSize <= key_file_header::size)
     {
         kf.close();
-        erase_file(log_path, ec);
+        File::erase(log_path, ec);
+        if(ec == errc::no_such_file_or_directory)
+            ec = {};
         if(ec)
             return;
         File::erase(key_path, ec);
-- 
2.43.0


From 4e6c9576a43c613955f6228cbbb42797e05bd5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 08/20] fix: rekey makes the files durable before erasing the
 log

---
 include/nudb/impl/rekey.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 82cebf5..1063805 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -235,6 +235,12 @@ rekey(
             return;
     }
     dw.flush(ec);
+    if(ec)
+        return;
+    df.sync(ec);
+    if(ec)
+        return;
+    kf.sync(ec);
     if(ec)
         return;
     lf.close();
-- 
2.43.0


From 23221a2f88b6696a0376d709cec456cab25cee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 09/20] fix: create rejects key sizes that do not fit the
 header

---
 include/nudb/impl/create.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index ee560c6..099de76 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -63,7 +63,7 @@ create(
         "File requirements not met");
 
     using namespace detail;
-    if(key_size < 1)
+    if(key_size < 1 || key_size > field<std::uint16_t>::max)
     {
         ec = error::invalid_key_size;
         return;
-- 
2.43.0


From d9460f87740897ec931687a65e6ed59f4442baa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:17 +0000
Subject: [PATCH 10/20] fix: create rejects load factors that would be stored
 as zero

---
 include/nudb/impl/create.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index 099de76..6a04271 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -73,7 +73,8 @@ create(
         ec = error::invalid_block_size;
         return;
     }
-    if(load_factor <= 0.f || load_factor >= 1.f)
+    if(load_factor <= 0.f || load_factor >= 1.f ||
+        65536.f * load_factor < 1.f)
     {
         ec = error::invalid_load_factor;
         return;
-- 
2.43.0


From 4baa73acf09fed1244034904cd20c7f2506f032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:40 +0000
Subject: [PATCH 11/20] fix: create rejects a load factor that is not a number

---
 include/nudb/impl/create.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index 6a04271..ec6e2d4 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -74,7 +74,7 @@ create(
         return;
     }
     if(load_factor <= 0.f || load_factor >= 1.f ||
-        65536.f * load_factor < 1.f)
+        !(65536.f * load_factor >= 1.f))
     {
         ec = error::invalid_load_factor;
         return;
-- 
2.43.0


From b1720b74ae5e4e0ec5548620774a85b97cccca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:40 +0000
Subject: [PATCH 12/20] fix: create removes its files through File

---
 include/nudb/impl/create.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index ec6e2d4..c05b317 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -89,6 +89,7 @@ create(
     bool edf = false;
     bool ekf = false;
     bool elf = false;
+    error_code ignored;
     {
         File df(args...);
         File kf(args...);
@@ -149,11 +150,11 @@ create(
     }
 fail:
     if(edf)
-        erase_file(dat_path);
+        File::erase(dat_path, ignored);
     if(ekf)
-        erase_file(key_path);
+        File::erase(key_path, ignored);
     if(elf)
-        erase_file(log_path);
+        File::erase(log_path, ignored);
 }
 
 template<
-- 
2.43.0


From b5a160b623129f40300b848f980f4185569a8d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:08 +0000
Subject: [PATCH 13/20] fix: undoing an interrupted rekey can be repeated

---
 include/nudb/impl/recover.ipp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 62cbbdc..b571568 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -78,6 +78,9 @@ recover(
         return;
     }
 
+    // Set when undoing a rekey, which removes the key file
+    bool undo_rekey = false;
+
     // Open log file
     File lf{args...};
     lf.open(file_mode::append, log_path, ec);
@@ -185,8 +188,13 @@ trunc_files:
     }
     else
     {
-        kf.close();
-        File::erase(key_path, ec);
+        // Empty the key file but erase it last, so that
+        // this can be repeated if it is interrupted.
+        undo_rekey = true;
+        kf.trunc(0, ec);
+        if(ec)
+            return;
+        kf.sync(ec);
         if(ec)
             return;
     }
@@ -201,6 +209,13 @@ clear_log:
     File::erase(log_path, ec);
     if(ec)
         return;
+    if(undo_rekey)
+    {
+        kf.close();
+        File::erase(key_path, ec);
+        if(ec)
+            return;
+    }
 }
 
 } // nudb
-- 
2.43.0


From d9bdb89f007f664dbc8a2df91a5e3a0512c4710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:43 +0000
Subject: [PATCH 14/20] fix: fast verify refuses buckets whose count exceeds
 the block

---
 include/nudb/impl/verify.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index b10b3e6..0a2a1b1 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -344,6 +344,11 @@ verify_fast(
         {
             bucket b{kh.block_size,
                 buf.get() + i * kh.block_size};
+            if(b.size() > kh.capacity)
+            {
+                ec = error::invalid_bucket_size;
+                return;
+            }
             nkeys[i] = b.size();
             std::size_t nspill = 0;
             auto spill = b.spill();
-- 
2.43.0


From b6c695b07ac2251d29a5d70441944023bdb6bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:43 +0000
Subject: [PATCH 15/20] fix: fast verify checks the size of each entry

---
 include/nudb/impl/verify.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 0a2a1b1..89070fe 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -431,7 +431,14 @@ verify_fast(
                         if(item.hash != h)
                             break;
                         if(item.offset == offset)
+                        {
+                            if(item.size != size)
+                            {
+                                ec = error::size_mismatch;
+                                return;
+                            }
                             goto found;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
-- 
2.43.0


From 7ba8ca236fc4ee0dcefe7e3a7a966c43264bbc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:43 +0000
Subject: [PATCH 16/20] fix: fast verify accepts spill records of every block
 size

---
 include/nudb/impl/verify.ipp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 89070fe..cefbbb7 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -481,8 +481,7 @@ verify_fast(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);      // Size
-                if(bucket_size(
-                    bucket_capacity(size)) != size)
+                if(size != info.bucket_size)
                 {
                     ec = error::invalid_spill_size;
                     return;
-- 
2.43.0


From d17ec539c1d97ac5ddfa4ab87c49c118e3473b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:43 +0000
Subject: [PATCH 17/20] fix: fast verify counts the bytes of each spill record

---
 include/nudb/impl/verify.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index cefbbb7..53e67ce 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -500,7 +500,7 @@ verify_fast(
                     info.spill_bytes_tot +=
                         field<uint48_t>::size +     // Zero
                         field<uint16_t>::size +     // Size
-                        tmp.actual_size();          // Bucket
+                        size;                       // Bucket
                 }
             }
             progress(work + offset, nwork);
-- 
2.43.0


From 15e98d206fcae39443662b457c3f4661b13ef5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:38 +0000
Subject: [PATCH 18/20] fix: verify refuses buckets with extra entries

---
 include/nudb/impl/verify.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 53e67ce..ee7f1b4 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -249,6 +249,13 @@ verify_normal(
             progress(work, nwork);
         }
     }
+    // Every value was found in its bucket, so any
+    // other key is duplicated or in the wrong bucket.
+    if(info.key_count != info.value_count)
+    {
+        ec = error::missing_value;
+        return;
+    }
     float sum = 0;
     for(size_t i = 0; i < info.hist.size(); ++i)
         sum += info.hist[i] * (i + 1);
-- 
2.43.0


From dcda4b689b8f7a65d1254223beaba3398c6f4411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:27 +0000
Subject: [PATCH 19/20] fix: recover syncs an emptied key file before erasing
 the log

---
 include/nudb/impl/recover.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index b571568..9bdb634 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -65,6 +65,11 @@ recover(
         return;
     if(keyFileSize <= key_file_header::size)
     {
+        // An earlier attempt to empty the
+        // key file may not be durable yet.
+        kf.sync(ec);
+        if(ec)
+            return;
         kf.close();
         File::erase(log_path, ec);
         if(ec == errc::no_such_file_or_directory)
-- 
2.43.0


From 4421e5e4f9ae89ee8a23b0fb1df32c45d5fe6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:57 +0000
Subject: [PATCH 20/20] fix: a corrupt 48-bit size is not mistaken for a
 smaller one

---
 include/nudb/detail/field.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nudb/detail/field.hpp b/include/nudb/detail/field.hpp
index e3101b1..c0e1726 100644
--- a/include/nudb/detail/field.hpp
+++ b/include/nudb/detail/field.hpp
@@ -10,6 +10,7 @@
 
 #include <nudb/detail/stream.hpp>
 #include <boost/assert.hpp>
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <limits>
@@ -171,8 +172,9 @@ read_size48(istream& is, std::size_t& u)
 {
     std::uint64_t v;
     read<uint48_t>(is, v);
-    BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
-    u = static_cast<std::uint32_t>(v);
+    // A corrupt size must not be mistaken for a smaller one
+    u = static_cast<std::size_t>(std::min<std::uint64_t>(
+        v, (std::numeric_limits<std::size_t>::max)()));
 }
 
 // write field to ostream
-- 
2.43.0

