From afc84c17ad0bd3fb868cfe2ac0424f2b591f1341 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 01/72] fix: concurrent_queue::try_push went past a capacity
 lowered below the current size

---
 include/dottorrent/concurrent_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index a2e1c6c..fbc4625 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -54,7 +54,7 @@ public:
     bool try_push(T &&item) {
         {
             std::unique_lock<std::mutex> lk(mutex_);
-            if (queue_.size() == capacity_)
+            if (queue_.size() >= capacity_)
                 return false;
             queue_.push(std::move(item));
         }
-- 
2.43.0


From c51da7d81b7dbab3e2dfda61e0396dea47662e17 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 02/72] fix: concurrent_queue::set_capacity did not wake
 producers that can now proceed

---
 include/dottorrent/concurrent_queue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index fbc4625..11489eb 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -92,8 +92,11 @@ public:
 
     void set_capacity(std::size_t n) noexcept
     {
-        std::unique_lock<std::mutex> lk(mutex_);
-        capacity_ = n;
+        {
+            std::unique_lock<std::mutex> lk(mutex_);
+            capacity_ = n;
+        }
+        not_full_.notify_all();
     }
 
 private:
-- 
2.43.0


From 77351c928fb3cee8789471035315d99fda7b869e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 03/72] fix: hexadecimal lookup table was indexed with negative
 values for bytes above 0x7f

---
 include/dottorrent/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 281002b..10577db 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -47,7 +47,7 @@ struct hex_to_int_lookup_table
 {
     constexpr hex_to_int_lookup_table() = default;
     constexpr unsigned char operator()(char i) const noexcept
-    { return table_[i]; }
+    { return table_[static_cast<unsigned char>(i)]; }
 
 private:
     static constexpr std::array<unsigned char, 256> table_ = generate_hex_to_int_table();
-- 
2.43.0


From 797db188f950a55fbae3009ccef92bfeabf3789e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 04/72] fix: from_hexadecimal_string rejected values above
 0x7f, read past odd-length text and overwrote its output

---
 include/dottorrent/hex.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 10577db..9fa931f 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -95,15 +95,16 @@ inline constexpr void from_hexadecimal_string(OutputIt out, std::string_view hex
 {
     auto it = hex_string.data();
     auto end = hex_string.data() + hex_string.size();
+    if (hex_string.size() % 2 != 0) [[unlikely]] {
+        throw std::system_error(std::make_error_code(std::errc::invalid_argument));
+    }
     while (it != end) {
-        char v;
-        auto r = std::from_chars(it, it+2, v, /*base*/ 16);
-
-        if (r.ec != std::errc{}) [[unlikely]] {
-            throw std::system_error(std::make_error_code(r.ec));
+        std::byte v;
+        if (!detail::hex_to_byte(it[0], it[1], v)) [[unlikely]] {
+            throw std::system_error(std::make_error_code(std::errc::invalid_argument));
         }
-        it = r.ptr;
-        *out = std::byte(v);
+        it += 2;
+        *out++ = v;
     }
 }
 
-- 
2.43.0


From 1061ce3c4794b6f879bcc594050800182a2c8fd3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 05/72] fix: fixed-size from_hexadecimal_string accepted a
 trailing odd character

---
 include/dottorrent/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 9fa931f..51576dd 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -113,7 +113,7 @@ inline std::optional<std::array<std::byte, N>>
 constexpr from_hexadecimal_string(std::string_view hexdigest)
 {
     std::array<std::byte, N> data{};
-    if (hexdigest.size()/2 != N) return std::nullopt;
+    if (hexdigest.size() != 2 * N) return std::nullopt;
 
     std::byte byte_value;
     for (size_t i = 0; i < hexdigest.size() / 2; ++i) {
-- 
2.43.0


From c8733d2f9e0d4f23f69e77c4decdd64d9e145026 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 06/72] fix: to_hexadecimal_string with an output iterator
 could not be instantiated

---
 include/dottorrent/hex.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 51576dd..e8c7cb0 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -137,13 +137,14 @@ inline std::string to_hexadecimal_string(std::span<const std::byte> data)
 }
 
 template <std::output_iterator<char> OutputIt>
-inline constexpr char* to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
+inline constexpr OutputIt to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
 {
     std::array<char, 2> buf {};
 
     for (const auto c : data) {
         detail::byte_to_hex(c, buf.data());
-        std::copy_n(buf, 2, out);
+        *out++ = buf[0];
+        *out++ = buf[1];
     }
     return out;
 }
-- 
2.43.0


From ef1651ba61aa868c1b3c79d67dbdea3df173e9aa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:44 +0000
Subject: [PATCH 07/72] fix: percent_encode overwrote its output when given a
 plain iterator

---
 include/dottorrent/percent_encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index 136728c..af76859 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -77,7 +77,7 @@ constexpr void percent_encode(InputIt first, InputIt last, OutputIt out)
 
     for (; first != last; ++first) {
         auto size = detail::percent_encode_char(*first, buffer.data());
-        std::copy_n(buffer.data(), size, out);
+        out = std::copy_n(buffer.data(), size, out);
     }
 }
 
-- 
2.43.0


From 3eab59d1ff8fa2d1f163208b437ec732a75f8e0c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:44 +0000
Subject: [PATCH 08/72] fix: percent_decode accepted malformed escapes

---
 include/dottorrent/percent_encoding.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index af76859..80dc40b 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -112,7 +112,7 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
         char c = *first++;
 
         // We must start with copying the two hexadecimal character to the buffer
-        if (c == '%') {
+        if (c == '%' && !copy_to_buffer_status) {
             copy_to_buffer_status = true;
             continue;
         }
@@ -128,7 +128,9 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
             // full percent encoded character has been copied to buffer, decode it and reset status
             if (buffer_offset == 2) {
                 std::byte result;
-                dottorrent::detail::hex_to_byte(buffer[0], buffer[1], result);
+                if (!dottorrent::detail::hex_to_byte(buffer[0], buffer[1], result)) [[unlikely]] {
+                    return percent_decode_status::non_hex_encoded_character;
+                }
                 *out++ = static_cast<char>(result);
 
                 copy_to_buffer_status = false;
@@ -140,7 +142,7 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
         }
     }
 
-    if (buffer_offset != 0) [[unlikely]] {
+    if (copy_to_buffer_status) [[unlikely]] {
         return percent_decode_status::incomplete_encoded_character;
     }
     return percent_decode_status{};
-- 
2.43.0


From 27cdc1aec7e13e527fe875eeb83a25d7e05f837b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:46 +0000
Subject: [PATCH 09/72] fix: sha3_384_hash held 35 bytes instead of 48

---
 include/dottorrent/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hash.hpp b/include/dottorrent/hash.hpp
index b43632c..75e20e5 100644
--- a/include/dottorrent/hash.hpp
+++ b/include/dottorrent/hash.hpp
@@ -202,7 +202,7 @@ DOTTORRENT_HASH_CLASS_TEMPLATE(sha384,     384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha512,     512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_224,   224)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_256,   256)
-DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   284)
+DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_512,   512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake128,   128)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake256,   256)
-- 
2.43.0


From 47165204d36b60b86390aeecdd87354289e56cf7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:46 +0000
Subject: [PATCH 10/72] fix: basic_hash::value() could not be instantiated

---
 include/dottorrent/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hash.hpp b/include/dottorrent/hash.hpp
index 75e20e5..2de430a 100644
--- a/include/dottorrent/hash.hpp
+++ b/include/dottorrent/hash.hpp
@@ -104,7 +104,7 @@ public:
     constexpr auto end() const noexcept -> const_iterator
     { return data_.end(); }
 
-    constexpr auto value() const noexcept -> storage_type&
+    constexpr auto value() const noexcept -> const storage_type&
     { return data_; }
 
     constexpr auto data() noexcept -> value_type*
-- 
2.43.0


From 6273eee2d6891246eeaf3337c10a46dc58185ac7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:46 +0000
Subject: [PATCH 11/72] fix: generic_checksum made from characters wrote past
 its empty storage and lost the value

---
 include/dottorrent/checksum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/checksum.hpp b/include/dottorrent/checksum.hpp
index 9c29b80..6a5b289 100644
--- a/include/dottorrent/checksum.hpp
+++ b/include/dottorrent/checksum.hpp
@@ -64,7 +64,7 @@ public:
             , key_(key)
     {
         data_.reserve(value.size());
-        std::transform(std::begin(value), std::end(value), std::begin(data_),
+        std::transform(std::begin(value), std::end(value), std::back_inserter(data_),
                 [](char i) { return std::byte(i); });
     }
 
-- 
2.43.0


From 95ebe8d40cb95cf018b84b3b18e28fed07c5eaa1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:46 +0000
Subject: [PATCH 12/72] fix: ordering of hybrid info hashes ignored the v1 hash

---
 include/dottorrent/info_hash.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/info_hash.hpp b/include/dottorrent/info_hash.hpp
index 7a1e1c1..10be9c1 100644
--- a/include/dottorrent/info_hash.hpp
+++ b/include/dottorrent/info_hash.hpp
@@ -142,7 +142,10 @@ public:
         if (protocol_version_ == protocol::v1) {
             return v1_hash_ <=> other.v1_hash_;
         }
-        return v2_hash_ <=> other.v2_hash_;
+        if (auto order = v2_hash_ <=> other.v2_hash_; order != 0) {
+            return order;
+        }
+        return v1_hash_ <=> other.v1_hash_;
     }
 
 
-- 
2.43.0


From 843e8d3cc780373d18436f1d3a363c9332d0cf50 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:23 +0000
Subject: [PATCH 13/72] fix: concurrent_queue_processor aborted or deadlocked
 on cancellation and small queues

---
 .../dottorrent/concurrent_queue_processor.hpp | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index 78ab969..e6f2393 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -75,19 +75,17 @@ public:
         if (!started()) return;
 
         // Wake threads that remain blocked on pop calls.
-        for  (auto i = 0; i < threads_.size(); ++i) {
-            queue_->push(std::nullopt);
-        }
-
-        // Wake threads that remain blocked on pop calls.
-        for  (auto i = 0; !done() && i < threads_.size(); ++i) {
-            queue_->try_push(std::nullopt);
-            std::this_thread::sleep_for(std::chrono::milliseconds(10));
+        // This never blocks on a full queue and goes on until every worker has seen the stop request.
+        while (!workers_done()) {
+            if (queue_->size() == 0) {
+                queue_->try_push(std::nullopt);
+            }
+            std::this_thread::sleep_for(std::chrono::milliseconds(1));
         }
 
         // should all be finished by now and ready to join
         for (auto& t : threads_) {
-            t.join();
+            if (t.joinable()) t.join();
         }
         Expects(done());
     }
@@ -109,9 +107,7 @@ public:
     /// Check if the hasher has completed all work or is cancelled.
     bool done() const noexcept
     {
-        bool all_done = std::all_of(done_.begin(), done_.end(),
-                [](auto& b) { return b.load(std::memory_order_relaxed); });
-        return cancelled() || (started() && all_done);
+        return cancelled() || (started() && workers_done());
     }
 
     std::shared_ptr<queue_type> get_queue()
@@ -122,13 +118,19 @@ public:
 
     ~concurrent_queue_processor()
     {
-        if (started() && !done()) {
+        if (started()) {
             request_stop();
             wait();
         }
     }
 
 private:
+    bool workers_done() const noexcept
+    {
+        return std::all_of(done_.begin(), done_.end(),
+                [](auto& b) { return b.load(std::memory_order_relaxed); });
+    }
+
     void run(std::stop_token stop_token, int thread_idx)
     {
         Ensures(stop_token.stop_possible());
@@ -150,16 +152,16 @@ private:
         if (!cancelled_.load(std::memory_order_relaxed)) {
             while (queue_->try_pop(item)) {
                 if (!item.has_value())
-                    break;
+                    continue;
                 std::invoke(work_function_, std::move(*item));
             }
         }
         done_[thread_idx] = true;
 
-        // Remaining pieces should all be empty
+        // Remaining pieces should all be empty, unless pending work is discarded.
         if (queue_->size() != 0) {
             while (queue_->try_pop(item)) {
-                Ensures(!item.has_value());
+                Ensures(cancelled() || !item.has_value());
             }
         }
     }
-- 
2.43.0


From d3ff3aa661033a0804aa0cb5da0891ca296f42ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:35 +0000
Subject: [PATCH 14/72] fix: merkle_tree assignment operators could not be
 instantiated

---
 include/dottorrent/merkle_tree.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 94eed2e..a7e8cd7 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -51,10 +51,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = other.data_;
+        return *this;
     }
 
     merkle_tree& operator=(merkle_tree&& other) noexcept
@@ -62,10 +63,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = std::move(other.data_);
+        return *this;
     }
 
     /// Set the number of leaf nodes and initialize them to `value`
-- 
2.43.0


From b80919663266d2b57c971cf1c3f65a056a8ac17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:35 +0000
Subject: [PATCH 15/72] fix: merkle_tree::has_root could not be instantiated

---
 include/dottorrent/merkle_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index a7e8cd7..0fc0baf 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -86,9 +86,10 @@ public:
     }
 
     /// Return true if the merkle root is set.
-    const value_type& has_root()
+    bool has_root() const
     {
-        return data_[0] != value_type{};
+        std::shared_lock lck{mutex_};
+        return !data_.empty() && data_[0] != value_type{};
     }
 
     /// Calculate the root and inner hashes from the leaf hashes.
-- 
2.43.0


From 494dcab02b9cce34dcb2d90f12400e0a3fc66411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:35 +0000
Subject: [PATCH 16/72] fix: merkle_tree::get_node_range indexed past the end
 for the last leaves

---
 include/dottorrent/merkle_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 0fc0baf..6a5a4e8 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -189,7 +189,7 @@ public:
         std::shared_lock lck{mutex_};
         auto d_first = get_flat_index(layer, first);
         auto d_last = get_flat_index(layer, last);
-        return std::span(&data_[d_first], &data_[d_last]);
+        return std::span<const value_type>(data_.data() + d_first, d_last - d_first);
     }
 
     const value_type& get_leaf(std::size_t index) const
-- 
2.43.0


From e1d8682af99360086a16c62c98d53587b25b74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:54 +0000
Subject: [PATCH 17/72] fix: move assignment of file_entry lost the checksums

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index ffd1b47..37abd00 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -94,7 +94,7 @@ file_entry& file_entry::operator=(file_entry&& other) noexcept
     attributes_ = other.attributes_;
     symlink_path_ = std::move(other.symlink_path_);
     last_modified_time_ = other.last_modified_time_;
-    checksums_ = std::move(checksums_);
+    checksums_ = std::move(other.checksums_);
     has_v2_data_ = other.has_v2_data_;
 
     return *this;
-- 
2.43.0


From 101466f6c33cc00b8ffdc64a14b8217d09a9d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:54 +0000
Subject: [PATCH 18/72] fix: file_entry::remove_checksum could not be
 instantiated

---
 include/dottorrent/file_entry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/file_entry.hpp b/include/dottorrent/file_entry.hpp
index f3c9f83..2406afc 100644
--- a/include/dottorrent/file_entry.hpp
+++ b/include/dottorrent/file_entry.hpp
@@ -83,7 +83,7 @@ public:
     {
         std::unique_lock lck{checksum_mutex_};
         if (auto it = checksums_.find(algorithm); it != checksums_.end()) {
-            checksums_.erase(*it);
+            checksums_.erase(it);
         }
     }
 
-- 
2.43.0


From d0917e1d97ccb4e46e8fdf26878ee77573afd8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:54 +0000
Subject: [PATCH 19/72] fix: file_entry::add_checksum kept an outdated value
 for the same algorithm

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 37abd00..581ac8d 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -205,7 +205,7 @@ const checksum* file_entry::get_checksum(hash_function algorithm) const {
 void file_entry::add_checksum(std::unique_ptr<checksum> value)
 {
     std::unique_lock lck{checksum_mutex_};
-    checksums_.emplace(std::string(value->name()), std::move(value));
+    checksums_.insert_or_assign(std::string(value->name()), std::move(value));
 }
 
 const file_entry::checksum_map& file_entry::checksums() const
-- 
2.43.0


From ccdf9214ad2764b07f1a78a3a59a42e2fc379948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:54 +0000
Subject: [PATCH 20/72] fix: symlinks were recorded as symlinks without the
 copy_symlinks option

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 581ac8d..de89193 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -285,7 +285,7 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     }
 
     // Copy symlinks as symlinks
-    if ((options & file_options::copy_symlinks) != file_options::none) {
+    if ((options & file_options::copy_symlinks) == file_options::copy_symlinks) {
         if (de.is_symlink()) {
             *attributes |= file_attributes::symlink;
             symlink_path = fs::read_symlink(file);
-- 
2.43.0


From 77c553dd4322d4ba70a3562bb8dcaaed042c7fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:54 +0000
Subject: [PATCH 21/72] fix: make_file_entry raised a filesystem error for
 symlinks to directories

---
 src/file_entry.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index de89193..7f552f9 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -260,7 +260,7 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
         throw std::invalid_argument("file or symlink not located inside root_directory");
 
     fs::directory_entry de {file};
-    std::size_t file_size = de.file_size();
+    std::size_t file_size = 0;
     std::optional<file_attributes> attributes = std::nullopt;
     std::optional<fs::path> symlink_path = std::nullopt;
 
@@ -289,11 +289,16 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
         if (de.is_symlink()) {
             *attributes |= file_attributes::symlink;
             symlink_path = fs::read_symlink(file);
-            // file size of symlinks should be 0 for backward compatibility
-            file_size = 0;
         }
     }
 
+    // file size of symlinks should be 0 for backward compatibility
+    if (!symlink_path) {
+        if (!fs::is_regular_file(file))
+            throw std::invalid_argument("not a valid file");
+        file_size = de.file_size();
+    }
+
     return {std::move(relative_file), file_size,
                       attributes, std::move(symlink_path)};
 }
-- 
2.43.0


From c21ab3418cf7b5b7c3efbad43b0f4482f274ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:55 +0000
Subject: [PATCH 22/72] fix: make_file_entry accepted paths that leave the root
 and refused names starting with two dots

---
 src/file_entry.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 7f552f9..49d1bd9 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -244,9 +244,7 @@ std::strong_ordering file_entry::operator<=>(const file_entry& rhs) const noexce
 
 file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_options options)
 {
-    if (!file.is_absolute()) {
-        file = fs::absolute(file);
-    }
+    file = fs::absolute(file).lexically_normal();
 
     if (!fs::exists(file))
         throw std::invalid_argument("file does not exist");
@@ -254,9 +252,9 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     if (!(fs::is_regular_file(file) || fs::is_symlink(file)))
         throw std::invalid_argument("not a valid file");
 
-    fs::path relative_file = file.lexically_relative(root_directory);
+    fs::path relative_file = file.lexically_relative(fs::absolute(root_directory).lexically_normal());
 
-    if (relative_file.generic_string().starts_with(".."))
+    if (relative_file.empty() || *relative_file.begin() == "..")
         throw std::invalid_argument("file or symlink not located inside root_directory");
 
     fs::directory_entry de {file};
-- 
2.43.0


From db0510a9e00fbfeefa9e0b28d7a824a646418b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:55 +0000
Subject: [PATCH 23/72] fix: copying a file_storage lost the file mode and kept
 a stale directory index

---
 include/dottorrent/file_storage.hpp | 2 +-
 src/file_storage.cpp                | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index 4327bf4..b7c896d 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -260,7 +260,7 @@ private:
     std::vector<sha1_hash> pieces_ {};
     std::mutex pieces_mutex_ {};
 
-    mutable bool index_valid_;
+    mutable bool index_valid_ = false;
     mutable std::vector<std::size_t> files_index_;
 };
 
diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index b4539d3..67c9c9e 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -4,8 +4,10 @@ namespace dottorrent {
 
 file_storage::file_storage(const file_storage& other)
     : total_file_size_(other.total_file_size_)
+    , total_regular_file_size_(other.total_regular_file_size_)
     , piece_size_(other.piece_size_)
     , root_directory_(other.root_directory_)
+    , file_mode_(other.file_mode_)
     , files_(other.files_)
     , pieces_(other.pieces_)
     {}
@@ -13,9 +15,12 @@ file_storage::file_storage(const file_storage& other)
 file_storage& file_storage::operator=(const file_storage& other)
 {
     if (&other == this) return *this;
+    index_valid_ = false;
     total_file_size_ = other.total_file_size_;
+    total_regular_file_size_ = other.total_regular_file_size_;
     piece_size_ = other.piece_size_;
     root_directory_ = other.root_directory_;
+    file_mode_ = other.file_mode_;
     files_ = other.files_;
     pieces_ = other.pieces_;
 
-- 
2.43.0


From f1c2af26e9d6d8e026c842df0d1c590bea01e615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:55 +0000
Subject: [PATCH 24/72] fix: file_storage::clear kept the piece hashes of the
 removed files

---
 include/dottorrent/file_storage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index b7c896d..71a8a59 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -95,7 +95,9 @@ public:
     {
         index_valid_ = false;
         files_.clear();
+        pieces_.clear();
         total_file_size_ = 0;
+        total_regular_file_size_ = 0;
     }
 
     const file_entry& operator[](std::size_t index) const noexcept
-- 
2.43.0


From bbc2063879660e0e95dd2dc868e9ca993d2784a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:55 +0000
Subject: [PATCH 25/72] fix: get_pieces_offsets missed the last piece of files
 that do not start on a piece boundary

---
 src/file_storage.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 67c9c9e..c3fda45 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -215,9 +215,12 @@ std::pair<std::size_t, std::size_t> file_storage::get_pieces_offsets(std::size_t
             std::plus<>{},
             [&](const file_entry& e) { return e.file_size(); });
 
-    auto offset = cumulative_size / piece_size_;
-    auto count = (entry.file_size() + piece_size_ - 1) / piece_size_;
-    return {offset, offset+count};
+    auto first = cumulative_size / piece_size_;
+    if (entry.file_size() == 0)
+        return {first, first};
+
+    auto last = (cumulative_size + entry.file_size() + piece_size_ - 1) / piece_size_;
+    return {first, last};
 }
 
 void file_storage::set_piece_hash(std::size_t index, const sha1_hash& hash)
-- 
2.43.0


From 88d56f0b6d721c6431a4fc47e9e4829deb843627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:35 +0000
Subject: [PATCH 26/72] fix: set_piece_size kept the piece hashes and layers of
 the previous piece size

---
 src/file_storage.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index c3fda45..34a9815 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -134,6 +134,13 @@ void file_storage::set_piece_size(std::size_t size) {
     Expects(std::has_single_bit(size));       // size must be a power of two
 
     piece_size_ = size;
+
+    // hashes computed for another piece size are no longer valid
+    pieces_.clear();
+    for (auto& f : files_) {
+        f.piece_layer_.clear();
+        f.has_v2_data_ = false;
+    }
 }
 
 void file_storage::allocate_pieces()
-- 
2.43.0


From 3524420bbdc2ea9f663b20bd88852e8e2a6d10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:35 +0000
Subject: [PATCH 27/72] fix: directory listings included siblings whose name
 starts with the directory's name

---
 src/file_storage.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 34a9815..4c33ff7 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -2,6 +2,17 @@
 
 namespace dottorrent {
 
+namespace {
+
+/// Check if a path lies below a directory. The empty directory contains everything.
+bool is_inside_directory(const fs::path& path, const fs::path& directory)
+{
+    auto it = std::mismatch(directory.begin(), directory.end(), path.begin(), path.end()).first;
+    return it == directory.end() || it->empty();
+}
+
+}
+
 file_storage::file_storage(const file_storage& other)
     : total_file_size_(other.total_file_size_)
     , total_regular_file_size_(other.total_regular_file_size_)
@@ -264,12 +275,11 @@ void file_storage::index() const {
 
 std::vector<const file_entry*> file_storage::directory_contents(const fs::path& directory) const {
     if (!index_valid()) { index(); }
-    auto directory_string = directory.string();
 
     auto first = rng::lower_bound(files_index_, directory, std::ranges::less{},
             [this](std::size_t index) { return files_[index].path(); });
     auto last = rng::find_if_not(first, files_index_.end(), [&, this](std::size_t index) {
-        return files_[index].path().string().starts_with(directory_string);
+        return is_inside_directory(files_[index].path(), directory);
     });
 
     std::vector<const file_entry*> results;
@@ -311,10 +321,8 @@ std::size_t directory_count(const file_storage& storage, const fs::path& root, b
     std::set<std::string> directories {};
     std::set<std::string> padding_dir_candidates {};
 
-    auto root_string = root.string();
-
     for (const auto& f : storage) {
-        if (!root.empty() && !f.path().string().starts_with(root_string)) {
+        if (!is_inside_directory(f.path(), root)) {
             continue;
         }
 
-- 
2.43.0


From 86aa70b5aa409556db44731bba225e35f537f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:35 +0000
Subject: [PATCH 28/72] fix: directory_count confused directories of the same
 name at different places

---
 src/file_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 4c33ff7..3b546f2 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -332,7 +332,8 @@ std::size_t directory_count(const file_storage& storage, const fs::path& root, b
         auto last = std::next(f.path().end(), -1);
 
         while (it != last) {
-            auto dir = (current_dir / *it).string();
+            current_dir /= *it;
+            auto dir = current_dir.string();
             directories.emplace(dir);
             if (is_padding_dir_candidate) { padding_dir_candidates.emplace(dir); }
             it++;
-- 
2.43.0


From 5edc4c52cc4df3bb94a9ba4a482225b3d9cc643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:35 +0000
Subject: [PATCH 29/72] fix: optimize_alignment padded padding files again and
 failed on an empty storage

---
 src/file_storage.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 3b546f2..a5d6e04 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -462,21 +462,23 @@ void optimize_alignment(file_storage& storage)
     std::size_t total_padding_bytes = 0;
     std::vector<file_entry> aligned_entries {};
 
-    for (std::size_t i = 0; i < storage.file_count()-1; ++i) {
-        auto& entry = storage[i];
-        auto size = entry.file_size();
-        aligned_entries.push_back(std::move(entry));
-
-        auto bytes_till_next_piece = piece_size - (size % piece_size);
-
-        Expects(bytes_till_next_piece != 0);
-        if (bytes_till_next_piece != piece_size) [[likely]] {
-            aligned_entries.push_back(make_padding_file_entry(bytes_till_next_piece));
-            total_padding_bytes += bytes_till_next_piece;
+    for (auto& entry : storage) {
+        // replace all existing padding files
+        if (entry.is_padding_file()) { continue; }
+
+        // pad the previous file up to the next piece
+        if (!aligned_entries.empty()) {
+            auto size = aligned_entries.back().file_size();
+            auto bytes_till_next_piece = piece_size - (size % piece_size);
+
+            Expects(bytes_till_next_piece != 0);
+            if (bytes_till_next_piece != piece_size) [[likely]] {
+                aligned_entries.push_back(make_padding_file_entry(bytes_till_next_piece));
+                total_padding_bytes += bytes_till_next_piece;
+            }
         }
+        aligned_entries.push_back(std::move(entry));
     }
-    // add the last file
-    aligned_entries.push_back(std::move(storage.back()));
 
     // clear old storage and set new
     storage.clear();
-- 
2.43.0


From 2bfe0662f8330f00570a7c2c93131e0059af323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:35 +0000
Subject: [PATCH 30/72] fix: choose_piece_size converted minus infinity to an
 integer for an empty storage

---
 src/file_storage.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index a5d6e04..21d0921 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -293,9 +293,9 @@ std::vector<const file_entry*> file_storage::directory_contents(const fs::path&
 
 std::size_t choose_piece_size(file_storage& storage)
 {
-    double exp = std::log2(storage.total_file_size()) - 9;
-    exp = std::min(std::max(15, static_cast<int>(exp)), 24);
-    auto piece_size = static_cast<std::size_t>(pow(2, exp));
+    auto exp = static_cast<int>(detail::log2_floor(storage.total_file_size())) - 9;
+    exp = std::min(std::max(15, exp), 24);
+    auto piece_size = std::size_t(1) << exp;
     storage.set_piece_size(piece_size);
     return piece_size;
 }
-- 
2.43.0


From 2a85d92c23c843ac4f8c1a3b27b6a11247b6b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:25 +0000
Subject: [PATCH 31/72] fix: symlink targets were not recorded relative to the
 root directory

---
 src/file_entry.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 49d1bd9..2b73261 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -252,7 +252,8 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     if (!(fs::is_regular_file(file) || fs::is_symlink(file)))
         throw std::invalid_argument("not a valid file");
 
-    fs::path relative_file = file.lexically_relative(fs::absolute(root_directory).lexically_normal());
+    const fs::path root = fs::absolute(root_directory).lexically_normal();
+    fs::path relative_file = file.lexically_relative(root);
 
     if (relative_file.empty() || *relative_file.begin() == "..")
         throw std::invalid_argument("file or symlink not located inside root_directory");
@@ -286,7 +287,8 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     if ((options & file_options::copy_symlinks) == file_options::copy_symlinks) {
         if (de.is_symlink()) {
             *attributes |= file_attributes::symlink;
-            symlink_path = fs::read_symlink(file);
+            // targets are stored relative to the root directory
+            symlink_path = (file.parent_path() / fs::read_symlink(file)).lexically_normal().lexically_relative(root);
         }
     }
 
-- 
2.43.0


From 928ba7771fa31b27fa1d86c59dd4d65a9386e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:20 +0000
Subject: [PATCH 32/72] fix: inserting in an announce_url_list returned an
 invalidated iterator

---
 include/dottorrent/announce_url_list.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/dottorrent/announce_url_list.hpp b/include/dottorrent/announce_url_list.hpp
index 99c19a0..7cdb6d7 100644
--- a/include/dottorrent/announce_url_list.hpp
+++ b/include/dottorrent/announce_url_list.hpp
@@ -114,8 +114,7 @@ public:
         Expects(announce.tier <= tier_count());
 
         auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);
-        announce_list_.insert(it, announce);
-        return it;
+        return announce_list_.insert(it, announce);
     }
 
     auto insert(announce_url&& announce)
@@ -123,8 +122,7 @@ public:
         Expects(announce.tier <= tier_count());
 
         auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);
-        announce_list_.insert(it, std::move(announce));
-        return it;
+        return announce_list_.insert(it, std::move(announce));
     }
 
     auto emplace(std::string_view url, std::size_t tier)
@@ -133,8 +131,7 @@ public:
 
         auto [begin, end] = get_tier(tier);
         auto it = std::upper_bound(begin, end, url, url_comparator);
-        announce_list_.emplace(it, url, tier);
-        return it;
+        return announce_list_.emplace(it, url, tier);
     }
 
     auto erase(iterator pos)
-- 
2.43.0


From 57172cbf2dca82053d37d99a7231c00d27aa4180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:20 +0000
Subject: [PATCH 33/72] fix: announce_url_list made from nested lists was not
 sorted and could have empty tiers

---
 include/dottorrent/announce_url_list.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dottorrent/announce_url_list.hpp b/include/dottorrent/announce_url_list.hpp
index 7cdb6d7..e641b3e 100644
--- a/include/dottorrent/announce_url_list.hpp
+++ b/include/dottorrent/announce_url_list.hpp
@@ -26,12 +26,15 @@ public:
     {
         std::size_t tier = 0;
         for (const auto& level : il) {
+            // tiers are numbered without gaps
+            if (level.size() == 0) { continue; }
+
+            std::vector<announce_url> tmp {};
             for (const auto& url : level) {
-                std::vector<announce_url> tmp {};
                 tmp.emplace_back(url, tier);
-                rng::sort(tmp, url_comparator);
-                rng::move(tmp, std::back_inserter(announce_list_));
             }
+            rng::sort(tmp, url_comparator);
+            rng::move(tmp, std::back_inserter(announce_list_));
             ++tier;
         }
     }
-- 
2.43.0


From 8877b0e64e33d1112adb423e1603bdb516413b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:20 +0000
Subject: [PATCH 34/72] fix: comparing default-initialised metafiles read an
 uninitialised member

---
 include/dottorrent/metafile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/metafile.hpp b/include/dottorrent/metafile.hpp
index 364cb8a..2c2a740 100644
--- a/include/dottorrent/metafile.hpp
+++ b/include/dottorrent/metafile.hpp
@@ -160,7 +160,7 @@ public:
     bool operator==(const metafile& other) const = default;
 
 private:
-    enum protocol protocol_;
+    enum protocol protocol_ = protocol::none;
     file_storage storage_;
 
     announce_url_list announce_list_;
-- 
2.43.0


From ff88e028d84e54cb9960e0b599601e7a81acedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:37 +0000
Subject: [PATCH 35/72] fix: v1_chunk_reader aborted on cancellation and on
 files that differ from their recorded size

Files are read up to their recorded size and completed with zero bytes, so that a truncated or
grown file does not shift the data of the files after it. Padding files contribute zero bytes
whatever their size; missing and padding files count in the bytes read.
---
 src/v1_chunk_reader.cpp | 59 ++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index e4eaf0f..52021ec 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -18,29 +18,50 @@ void v1_chunk_reader::run()
     chunk_->resize(chunk_size_);
 
     for (const fs::path& file_path: file_paths) {
+        if (cancelled_.load(std::memory_order_relaxed)) return;
+
         const file_entry& file_entry = storage.at(file_index_);
+        const bool is_padding_file = file_entry.is_padding_file();
 
         // handle pieces if the file does not exists. Used when verifying torrents.
-        if (!fs::exists(file_path) || file_entry.is_padding_file()) [[unlikely]] {
+        if (!is_padding_file && !fs::is_regular_file(file_path)) [[unlikely]] {
             handle_missing_file();
             ++file_index_;
             continue;
         }
 
-        // set last modified date in the file entry of the storage
-        storage.set_last_modified_time(file_index_, fs::last_write_time(file_path));
-        f_.open(file_path, std::ios::binary);
-        f_.rdbuf()->pubsetbuf(nullptr, 0);
+        if (!is_padding_file) {
+            // set last modified date in the file entry of the storage
+            storage.set_last_modified_time(file_index_, fs::last_write_time(file_path));
+            f_.open(file_path, std::ios::binary);
+            f_.rdbuf()->pubsetbuf(nullptr, 0);
+        }
         // increment file index, file_index points to the next file now
         ++ file_index_;
 
-        while (! cancelled_.load(std::memory_order_relaxed)) {
-            f_.read(reinterpret_cast<char*>(std::next(chunk_->data(), chunk_offset_)),
-                    (chunk_size_-chunk_offset_)
-            );
+        // number of bytes of this file that still have to be added to a chunk
+        std::size_t bytes_remaining = file_entry.file_size();
+
+        while (bytes_remaining != 0 && ! cancelled_.load(std::memory_order_relaxed)) {
+            const auto bytes_to_read = std::min(bytes_remaining, chunk_size_-chunk_offset_);
+            const auto destination = std::next(chunk_->data(), chunk_offset_);
+            std::size_t bytes_from_file = 0;
+
+            if (!is_padding_file && !f_.eof()) {
+                f_.read(reinterpret_cast<char*>(destination), bytes_to_read);
+                bytes_from_file = f_.gcount();
+                if (f_.fail() && !f_.eof()) [[unlikely]] {
+                    throw std::runtime_error(
+                            fmt::format("I/O error reading: {}", file_entry.path().string()));
+                }
+            }
+            // padding files and files shorter than their recorded size are completed with zero bytes.
+            std::fill_n(std::next(destination, bytes_from_file), bytes_to_read-bytes_from_file, std::byte(0));
+
             file_offsets_.push_back(chunk_offset_);
-            chunk_offset_ += f_.gcount();
-            bytes_read_.fetch_add(f_.gcount(), std::memory_order_relaxed);
+            chunk_offset_ += bytes_to_read;
+            bytes_remaining -= bytes_to_read;
+            bytes_read_.fetch_add(bytes_to_read, std::memory_order_relaxed);
 
             if (chunk_offset_ == chunk_size_) [[likely]] {
                 // push chunk to consumers
@@ -58,16 +79,12 @@ void v1_chunk_reader::run()
                 // increment chunk index
                 piece_index_ += pieces_per_chunk;
             }
-            // eof reached
-            if (f_.eof())  [[unlikely]] break;
-            if (f_.fail()) [[unlikely]] {
-                throw std::runtime_error(
-                        fmt::format("I/O error reading: {}", file_entry.path().string()));
-            }
         }
         f_.close();
         f_.clear();
     }
+    if (cancelled_.load(std::memory_order_relaxed)) return;
+
     // push last possibly partial chunk
     if (chunk_offset_ != 0) [[likely]] {
         chunk_->resize(chunk_offset_);
@@ -92,6 +109,7 @@ void v1_chunk_reader::handle_missing_file()
 
     // the number of missing bytes
     auto missing_file_size = storage.at(file_index_).file_size();
+    bytes_read_.fetch_add(missing_file_size, std::memory_order_relaxed);
 
     // fill current pieces in this chunk with zero bytes.
     if (chunk_offset_ != 0) {
@@ -136,8 +154,11 @@ void v1_chunk_reader::handle_missing_file()
     }
 
     // Set the last remaining bytes in the new chunk
-    std::fill_n(chunk_->data() + chunk_offset_, missing_file_size, std::byte(0));
-    chunk_offset_ += missing_file_size;
+    if (missing_file_size != 0) {
+        file_offsets_.push_back(chunk_offset_);
+        std::fill_n(chunk_->data() + chunk_offset_, missing_file_size, std::byte(0));
+        chunk_offset_ += missing_file_size;
+    }
 }
 
 
-- 
2.43.0


From 29b1c33e016df5ffab029ea45088ab0321feffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:37 +0000
Subject: [PATCH 36/72] fix: v2_chunk_reader pushed an extra chunk for files
 that are a multiple of the block size

Files are read up to their recorded size and completed with zero bytes, so that truncated and
grown files are verified too.
---
 src/v2_chunk_reader.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index b927b69..4678361 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -17,6 +17,8 @@ void v2_chunk_reader::run()
     chunk->resize(chunk_size_);
 
     for (const fs::path& file_path: file_paths) {
+        if (cancelled_.load(std::memory_order_relaxed)) return;
+
         const file_entry& file_entry = storage.at(file_index_);
 
         if (file_entry.is_padding_file()) {
@@ -26,7 +28,7 @@ void v2_chunk_reader::run()
         }
 
         // handle pieces if the file does not exists. Used when verifying torrents.
-        if (!fs::exists(file_path)) {
+        if (!fs::is_regular_file(file_path)) {
             auto file_size = file_entry.file_size();
             push({static_cast<std::uint32_t>(0),
                   static_cast<std::uint32_t>(file_index_),
@@ -42,10 +44,24 @@ void v2_chunk_reader::run()
         f_.rdbuf()->pubsetbuf(nullptr, 0);
         // reset piece index. piece index is per file for v2!
         piece_index_ = 0;
-
-        while (!cancelled_.load(std::memory_order_relaxed)) {
-            f_.read(reinterpret_cast<char*>(chunk->data()), chunk_size_);
-            current_chunk_size_ = f_.gcount();
+        // number of bytes of this file that still have to be pushed
+        std::size_t bytes_remaining = file_entry.file_size();
+
+        do {
+            current_chunk_size_ = std::min(bytes_remaining, chunk_size_);
+            std::size_t bytes_from_file = 0;
+
+            if (!f_.eof()) {
+                f_.read(reinterpret_cast<char*>(chunk->data()), current_chunk_size_);
+                bytes_from_file = f_.gcount();
+                if (f_.fail() && !f_.eof()) {
+                    throw std::runtime_error(
+                            fmt::format("I/O error reading: {}", file_entry.path().string()));
+                }
+            }
+            // files shorter than their recorded size are completed with zero bytes.
+            std::fill_n(std::next(chunk->data(), bytes_from_file), current_chunk_size_-bytes_from_file, std::byte(0));
+            bytes_remaining -= current_chunk_size_;
 
             chunk->resize(current_chunk_size_);
             bytes_read_.fetch_add(current_chunk_size_, std::memory_order_relaxed);
@@ -61,13 +77,7 @@ void v2_chunk_reader::run()
             // clear chunk and file offsets
             // increment chunk index
             piece_index_ += pieces_per_chunk;
-
-            if (f_.eof()) break;
-            if (f_.fail()) {
-                throw std::runtime_error(
-                        fmt::format("I/O error reading: {}", file_entry.path().string()));
-            }
-        }
+        } while (bytes_remaining != 0 && !cancelled_.load(std::memory_order_relaxed));
         f_.close();
         f_.clear();
         ++file_index_;
-- 
2.43.0


From c0b8e9a18206329d612402f7052d1f39e4a071fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:28 +0000
Subject: [PATCH 37/72] fix: v2_chunk_reader aborted on a storage with only
 empty files

---
 src/v2_chunk_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index 4678361..552376c 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -86,7 +86,7 @@ void v2_chunk_reader::run()
 
 
 void v2_chunk_reader::push(const data_chunk& chunk) {
-    Expects(chunk.piece_index < storage_.get().piece_count());
+    Expects(chunk.piece_index == 0 || chunk.piece_index < storage_.get().piece_count());
 
     // hasher queues
     for (auto& queue : hash_queues_) {
-- 
2.43.0


From 2750ca3e04da717994aef5225f4f8a4500f955ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:28 +0000
Subject: [PATCH 38/72] fix: I/O errors while hashing or verifying terminated
 the process

The exception is raised from wait() once all threads have finished.
---
 include/dottorrent/chunk_reader.hpp |  6 ++++++
 src/chunk_reader.cpp                | 14 +++++++++++++-
 src/storage_hasher.cpp              |  1 +
 src/storage_verifier.cpp            |  1 +
 4 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/chunk_reader.hpp b/include/dottorrent/chunk_reader.hpp
index aa3a426..0d4958b 100644
--- a/include/dottorrent/chunk_reader.hpp
+++ b/include/dottorrent/chunk_reader.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <atomic>
 #include <cstdint>
+#include <exception>
 #include <mutex>
 #include <string>
 #include <thread>
@@ -43,6 +44,10 @@ public:
     /// Block until the reader completes all work or terminates because of a cancellation request.
     void wait();
 
+    /// Rethrow the exception that ended the reader thread, if any.
+    /// @note Must be called after wait.
+    void rethrow_error() const;
+
     bool started() const noexcept;
 
     bool done() const noexcept;
@@ -62,6 +67,7 @@ protected:
     hash_queue_vector hash_queues_ {};
     checksum_queue_vector checksum_queues_ {};
     std::jthread thread_;
+    std::exception_ptr error_ {};
     std::atomic<std::size_t> bytes_read_ = 0;
     std::atomic<bool> started_ = false;
     std::atomic<bool> cancelled_ = false;
diff --git a/src/chunk_reader.cpp b/src/chunk_reader.cpp
index 66595f6..b15b8e3 100644
--- a/src/chunk_reader.cpp
+++ b/src/chunk_reader.cpp
@@ -31,7 +31,14 @@ void chunk_reader::start() {
     if (cancelled())
         throw std::runtime_error("cancelled");
 
-    thread_ = std::jthread(&chunk_reader::run, this);
+    thread_ = std::jthread([this]() {
+        try {
+            run();
+        }
+        catch (...) {
+            error_ = std::current_exception();
+        }
+    });
     started_.store(true, std::memory_order_release);
 }
 
@@ -46,6 +53,11 @@ void chunk_reader::wait() {
     thread_.join();
 }
 
+void chunk_reader::rethrow_error() const
+{
+    if (error_) std::rethrow_exception(error_);
+}
+
 bool chunk_reader::started() const noexcept
 {
     return started_.load(std::memory_order_acquire);
diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index f44e96a..4c2bb84 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -206,6 +206,7 @@ void storage_hasher::wait()
     verifier_->wait();
 
     stopped_ = true;
+    reader_->rethrow_error();
 }
 
 bool storage_hasher::running() const noexcept
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index de11af4..7e802f6 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -176,6 +176,7 @@ void storage_verifier::wait()
     Expects(verifier_->done());
 
     stopped_ = true;
+    reader_->rethrow_error();
 }
 
 bool storage_verifier::running() const noexcept
-- 
2.43.0


From ea07b10d2ed47c35d3d5f6bdf9b8348ede997863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:28 +0000
Subject: [PATCH 39/72] fix: chunk_processor_base could deadlock in wait and
 aborted when destroyed before its start

---
 include/dottorrent/chunk_processor_base.hpp |  2 +
 src/chunk_processor_base.cpp                | 45 +++++++++------------
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/include/dottorrent/chunk_processor_base.hpp b/include/dottorrent/chunk_processor_base.hpp
index 386443b..2b32853 100644
--- a/include/dottorrent/chunk_processor_base.hpp
+++ b/include/dottorrent/chunk_processor_base.hpp
@@ -67,6 +67,8 @@ public:
 protected:
     virtual void run(std::stop_token stop_token, int thread_idx) = 0;
 
+    bool workers_done() const noexcept;
+
     std::reference_wrapper<file_storage> storage_;
     std::vector<std::jthread> threads_;
     std::shared_ptr<work_queue_type> queue_;
diff --git a/src/chunk_processor_base.cpp b/src/chunk_processor_base.cpp
index b389da1..0ae7a7e 100644
--- a/src/chunk_processor_base.cpp
+++ b/src/chunk_processor_base.cpp
@@ -36,29 +36,29 @@ void chunk_processor_base::request_cancellation() {
 void chunk_processor_base::wait() {
     if (!started()) return;
 
-    for (auto i = 0; i < threads_.size(); ++i) {
-        queue_->push({
-                std::numeric_limits<std::uint32_t>::max(),
-                std::numeric_limits<std::uint32_t>::max(),
-                nullptr
-        });
-    }
-
-    for  (auto i = 0; !done() && i < threads_.size(); ++i) {
-        queue_->push({
-                std::numeric_limits<std::uint32_t>::max(),
-                std::numeric_limits<std::uint32_t>::max(),
-                nullptr
-        });
-        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+    // Wake threads that remain blocked on pop calls.
+    // This never blocks on a full queue and goes on until every worker has seen the stop request.
+    while (!workers_done()) {
+        if (queue_->size() == 0) {
+            queue_->try_push({
+                    std::numeric_limits<std::uint32_t>::max(),
+                    std::numeric_limits<std::uint32_t>::max(),
+                    nullptr
+            });
+        }
+        std::this_thread::sleep_for(std::chrono::milliseconds(1));
     }
 
     // should all be finished by now and ready to join
     for (auto& t : threads_) {
-        t.join();
+        if (t.joinable()) t.join();
     }
-    Ensures(std::all_of(done_.begin(), done_.end(),
-            [](auto& b) { return b.load(std::memory_order_relaxed); }));
+    stopped_.store(true, std::memory_order_relaxed);
+}
+
+bool chunk_processor_base::workers_done() const noexcept {
+    return std::all_of(done_.begin(), done_.end(),
+            [](auto& b) { return b.load(std::memory_order_relaxed); });
 }
 
 bool chunk_processor_base::running() const noexcept {
@@ -74,9 +74,7 @@ auto chunk_processor_base::cancelled() const noexcept -> bool
 { return cancelled_.load(std::memory_order_relaxed); }
 
 auto chunk_processor_base::done() const noexcept -> bool {
-    bool all_done = std::all_of(done_.begin(), done_.end(),
-            [](auto& b) { return b.load(std::memory_order_relaxed); });
-    return cancelled() || (started() && all_done);
+    return cancelled() || (started() && workers_done());
 }
 
 std::shared_ptr<typename chunk_processor_base::work_queue_type> chunk_processor_base::get_queue()
@@ -99,13 +97,10 @@ void chunk_processor_base::register_v2_hashed_piece_queue(const std::shared_ptr<
 
 chunk_processor_base::~chunk_processor_base()
 {
-    if (started() && !done()) {
+    if (started()) {
         request_stop();
         wait();
     }
-    // Destructor should only be called after all workers are done
-    Ensures(std::all_of(done_.begin(), done_.end(),
-                        [](auto& b) { return b.load(std::memory_order_relaxed); }));
 };
 
 }
\ No newline at end of file
-- 
2.43.0


From 9b6d57ec20777f60df4427a7c4c5cf4e54a4d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:28 +0000
Subject: [PATCH 40/72] fix: cancelling a storage_hasher or storage_verifier
 could deadlock

The hashers stopped first and left the reader blocked on a full queue or an empty pool.
---
 src/storage_hasher.cpp   | 11 ++++++-----
 src/storage_verifier.cpp | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index 4c2bb84..7cf2a68 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -167,16 +167,17 @@ void storage_hasher::cancel() {
         return;
     }
 
-    // cancel all tasks
+    // Cancel all tasks in the order of the data flow.
+    // The reader can only finish while its chunks are still being consumed.
     reader_->request_cancellation();
+    reader_->wait();
+
     hasher_->request_cancellation();
     for (auto& ch : checksum_hashers_) { ch->request_cancellation(); }
-    verifier_->request_cancellation();
-
-    // wait for all tasks to complete
-    reader_->wait();
     hasher_->wait();
     for (auto& ch : checksum_hashers_) { ch->wait(); }
+
+    verifier_->request_cancellation();
     verifier_->wait();
 
     cancelled_ = true;
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 7e802f6..7e89d86 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -139,14 +139,15 @@ void storage_verifier::cancel() {
         return;
     }
 
-    // cancel all tasks
+    // Cancel all tasks in the order of the data flow.
+    // The reader can only finish while its chunks are still being consumed.
     reader_->request_cancellation();
-    hasher_->request_cancellation();
-    verifier_->request_cancellation();
-
-    // wait for all tasks to complete
     reader_->wait();
+
+    hasher_->request_cancellation();
     hasher_->wait();
+
+    verifier_->request_cancellation();
     verifier_->wait();
 
     cancelled_ = true;
-- 
2.43.0


From 65596ad33b6024d854bceefe1f5fe0fae6a0162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:28 +0000
Subject: [PATCH 41/72] fix: destroying a storage_verifier that was not started
 aborted

---
 src/storage_verifier.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 7e89d86..e8b07c0 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -262,7 +262,6 @@ storage_verifier::~storage_verifier()
     if (started() && !done()) {
         std::terminate();
     }
-    Expects(done());
 }
 
 
-- 
2.43.0


From 269f09852294f26d7dabf98118a171501f20a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:28 +0000
Subject: [PATCH 42/72] fix: starting a hasher or verifier twice terminated the
 process

---
 src/storage_hasher.cpp   | 2 ++
 src/storage_verifier.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index 7cf2a68..8fd9da6 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -93,6 +93,8 @@ enum protocol storage_hasher::protocol() const noexcept
 void storage_hasher::start() {
     if (done())
         throw std::runtime_error("cannot start finished or cancelled hasher");
+    if (started())
+        throw std::runtime_error("hasher already started");
 
     auto& storage = storage_.get();
 
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index e8b07c0..1da0672 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -78,6 +78,8 @@ enum protocol storage_verifier::protocol() const noexcept
 void storage_verifier::start() {
     if (done())
         throw std::runtime_error("cannot start finished or cancelled hasher");
+    if (started())
+        throw std::runtime_error("hasher already started");
 
     auto& storage = storage_.get();
 
-- 
2.43.0


From 0c85e8f00e4e854fa49e47887131809bda02f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:28 +0000
Subject: [PATCH 43/72] fix: asking for the progress before the start
 dereferenced a null pointer

---
 src/storage_hasher.cpp   | 6 +++---
 src/storage_verifier.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index 8fd9da6..a628f64 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -234,17 +234,17 @@ bool storage_hasher::done() const noexcept
 
 std::size_t storage_hasher::bytes_read() const noexcept
 {
-    return reader_->bytes_read();
+    return reader_ ? reader_->bytes_read() : 0;
 }
 
 std::size_t storage_hasher::bytes_hashed() const noexcept
 {
-    return hasher_->bytes_hashed();
+    return hasher_ ? hasher_->bytes_hashed() : 0;
 }
 
 std::size_t storage_hasher::bytes_done() const noexcept
 {
-    return hasher_->bytes_done();
+    return hasher_ ? hasher_->bytes_done() : 0;
 }
 
 
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 1da0672..c3e2911 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -204,17 +204,17 @@ bool storage_verifier::done() const noexcept
 
 std::size_t storage_verifier::bytes_read() const noexcept
 {
-    return reader_->bytes_read();
+    return reader_ ? reader_->bytes_read() : 0;
 }
 
 std::size_t storage_verifier::bytes_hashed() const noexcept
 {
-    return hasher_->bytes_hashed();
+    return hasher_ ? hasher_->bytes_hashed() : 0;
 }
 
 std::size_t storage_verifier::bytes_done() const noexcept
 {
-    return hasher_->bytes_done();
+    return hasher_ ? hasher_->bytes_done() : 0;
 }
 
 
-- 
2.43.0


From 2c9954ca5c4ef3e481bfc8d1b5881059646e09d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:28 +0000
Subject: [PATCH 44/72] fix: bytes_hashed counted the bytes of hybrid torrents
 twice instead of the documented average

---
 src/storage_hasher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index a628f64..ef1267c 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -239,7 +239,9 @@ std::size_t storage_hasher::bytes_read() const noexcept
 
 std::size_t storage_hasher::bytes_hashed() const noexcept
 {
-    return hasher_ ? hasher_->bytes_hashed() : 0;
+    auto bytes = hasher_ ? hasher_->bytes_hashed() : 0;
+    // every byte is hashed for both protocols
+    return protocol_ == protocol::hybrid ? bytes / 2 : bytes;
 }
 
 std::size_t storage_hasher::bytes_done() const noexcept
-- 
2.43.0


From a637764f7f2b709561764869f10918997dc1e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:28 +0000
Subject: [PATCH 45/72] fix: min_io_block_size that is not a multiple of the
 piece size aborted

---
 src/storage_hasher.cpp   | 4 ++++
 src/storage_verifier.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index ef1267c..c1537f7 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -46,6 +46,10 @@ storage_hasher::storage_hasher(file_storage& storage, const storage_hasher_optio
     io_block_size_ = std::max(piece_size, options.min_io_block_size ? *options.min_io_block_size : 1_MiB);
  #endif
 
+    // a block always consists of whole pieces
+    if (piece_size != 0)
+        io_block_size_ = detail::div_ceil(io_block_size_, piece_size) * piece_size;
+
     if (options.max_memory) {
         queue_capacity_ = std::max(std::size_t(4), *options.max_memory / io_block_size_);
     }
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index c3e2911..de829ab 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -41,6 +41,10 @@ storage_verifier::storage_verifier(file_storage& storage, const storage_verifier
     io_block_size_ = std::max(piece_size, options.min_io_block_size ? *options.min_io_block_size : 1_MiB);
 #endif
 
+    // a block always consists of whole pieces
+    if (piece_size != 0)
+        io_block_size_ = detail::div_ceil(io_block_size_, piece_size) * piece_size;
+
     if (options.max_memory) {
         queue_capacity_ = std::max(std::size_t(4), *options.max_memory / io_block_size_);
     }
-- 
2.43.0


From 22fe82751a66fe489a491fd2510cb16d4b9e2a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:16 +0000
Subject: [PATCH 46/72] fix: v1_checksum_hasher skipped empty files at the ends
 and gave padding files checksums

---
 include/dottorrent/v1_checksum_hasher.hpp |  4 ++
 src/v1_checksum_hasher.cpp                | 57 ++++++++++++++---------
 2 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/include/dottorrent/v1_checksum_hasher.hpp b/include/dottorrent/v1_checksum_hasher.hpp
index c60f38c..c54f2e0 100644
--- a/include/dottorrent/v1_checksum_hasher.hpp
+++ b/include/dottorrent/v1_checksum_hasher.hpp
@@ -28,10 +28,14 @@ protected:
 
     void hash_chunk(single_buffer_hasher& hasher, const data_chunk& item);
 
+    /// Store the checksum of the current file, and of the empty files after it, when complete.
+    void finish_completed_files(single_buffer_hasher& hasher);
+
 private:
     std::atomic<std::size_t> current_file_index_ = 0;
     std::atomic<std::size_t> current_file_size_ = 0;
     std::atomic<std::size_t> current_file_data_hashed_ = 0;
+    bool current_file_missing_ = false;
 };
 
 } // namespace dottorrent
\ No newline at end of file
diff --git a/src/v1_checksum_hasher.cpp b/src/v1_checksum_hasher.cpp
index fd375a1..1ab0354 100644
--- a/src/v1_checksum_hasher.cpp
+++ b/src/v1_checksum_hasher.cpp
@@ -5,7 +5,10 @@ namespace dottorrent {
 
 v1_checksum_hasher::v1_checksum_hasher(file_storage& storage, hash_function f, std::size_t capacity)
         : chunk_hasher_single_buffer(storage, {f}, capacity, 1)
-{}
+{
+    // empty files at the start of the storage are complete before any data arrives
+    finish_completed_files(*make_hasher(f));
+}
 
 void v1_checksum_hasher::hash_chunk(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers, const data_chunk& chunk)
 {
@@ -13,47 +16,55 @@ void v1_checksum_hasher::hash_chunk(std::vector<std::unique_ptr<single_buffer_ha
 }
 
 void v1_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chunk& item) {
-    Expects(item.data != nullptr);
-
     file_storage& storage = storage_;
 
     // offset from the start of data where we are currently processing
     std::size_t chunk_offset = 0;
-    std::size_t chunk_size = item.data->size();
-    std::size_t current_file_size = storage[current_file_index_].file_size();
-    auto data = std::span(*item.data);
-
-    Ensures(current_file_index_ < storage.file_count());
+    // chunks without data cover a piece of a missing file
+    std::size_t chunk_size = item.data ? item.data->size() : storage.piece_size();
 
     // Verify that we are receive chunks sequentially
 
     while (chunk_offset != chunk_size) {
-        auto current_file_data_remaining = current_file_size - current_file_data_hashed_;
+        Ensures(current_file_index_ < storage.file_count());
+        auto current_file_data_remaining = storage[current_file_index_].file_size() - current_file_data_hashed_;
         auto current_chunk_data_remaining = chunk_size-chunk_offset;
         auto current_file_subchunk_size = std::min(current_file_data_remaining, current_chunk_data_remaining);
 
-        hasher.update(data.subspan(chunk_offset, current_file_subchunk_size));
+        if (item.data) {
+            hasher.update(std::span(*item.data).subspan(chunk_offset, current_file_subchunk_size));
+            bytes_hashed_.fetch_add(current_file_subchunk_size, std::memory_order_relaxed);
+        }
+        else {
+            current_file_missing_ = true;
+        }
         chunk_offset += current_file_subchunk_size;
 
-        bytes_hashed_.fetch_add(current_file_subchunk_size, std::memory_order_relaxed);
         bytes_done_.fetch_add(current_file_subchunk_size, std::memory_order_relaxed);
         current_file_data_hashed_.fetch_add(current_file_subchunk_size, std::memory_order_relaxed);
 
-        // check if we completed a file checksum
-        if (current_file_data_hashed_.load(std::memory_order_relaxed) == current_file_size) {
-            Expects(hash_functions_.size() == 1);
-            auto hash_function = hash_functions_.front();
-            auto checksum = make_checksum(hash_function);
-            hasher.finalize_to(checksum->value());
-            storage[current_file_index_].add_checksum(std::move(checksum));
+        finish_completed_files(hasher);
+    }
+}
+
+void v1_checksum_hasher::finish_completed_files(single_buffer_hasher& hasher)
+{
+    file_storage& storage = storage_;
 
-            current_file_index_.fetch_add(1, std::memory_order_relaxed);
+    while (current_file_index_ < storage.file_count()
+            && current_file_data_hashed_ == storage[current_file_index_].file_size()) {
+        Expects(hash_functions_.size() == 1);
+        auto checksum = make_checksum(hash_functions_.front());
+        hasher.finalize_to(checksum->value());
 
-            if (current_file_index_ < storage.file_count()) {
-                current_file_size = storage[current_file_index_].file_size();
-                current_file_data_hashed_.store(0, std::memory_order_relaxed);
-            }
+        file_entry& entry = storage[current_file_index_];
+        if (!entry.is_padding_file() && !current_file_missing_) {
+            entry.add_checksum(std::move(checksum));
         }
+
+        current_file_missing_ = false;
+        current_file_data_hashed_.store(0, std::memory_order_relaxed);
+        current_file_index_.fetch_add(1, std::memory_order_relaxed);
     }
 }
 } // namespace dottorrent
-- 
2.43.0


From dabcee11665ddd02c41c3c0ab2471c753aa47527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:16 +0000
Subject: [PATCH 47/72] fix: v2_checksum_hasher lost the checksum of the last
 file and aborted after padding files

---
 src/v2_checksum_hasher.cpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/v2_checksum_hasher.cpp b/src/v2_checksum_hasher.cpp
index 1676bd1..9cad9cf 100644
--- a/src/v2_checksum_hasher.cpp
+++ b/src/v2_checksum_hasher.cpp
@@ -13,32 +13,29 @@ void v2_checksum_hasher::hash_chunk(std::vector<std::unique_ptr<single_buffer_ha
 
 void v2_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chunk& item)
 {
-    Expects(item.data != nullptr);
+    // missing files have no data and get no checksum
+    if (item.data == nullptr) return;
 
     file_storage& storage = storage_;
-
-    // offset from the start of data where we are currently processing
-    std::size_t chunk_offset = 0;
     std::size_t chunk_size = item.data->size();
 
-    Expects(current_file_index_ <= item.file_index);
-
-    if (item.file_index > current_file_index_) {
-        // Set the hash for the previous file.
-        Expects(hash_functions_.size() == 1);
-        auto hash_function = hash_functions_.front();
-        auto checksum = make_checksum(hash_function);
-        hasher.finalize_to(checksum->value());
-        storage[current_file_index_].add_checksum(std::move(checksum));
-
-        // update current file index
-        ++current_file_index_;
+    if (item.file_index != current_file_index_) {
+        current_file_index_ = item.file_index;
+        current_file_data_hashed_ = 0;
     }
 
-    Expects(current_file_index_ == item.file_index);
     hasher.update(std::span(*item.data));
+    current_file_data_hashed_ += chunk_size;
     bytes_hashed_.fetch_add(chunk_size, std::memory_order_relaxed);
     bytes_done_.fetch_add(chunk_size, std::memory_order_relaxed);
+
+    // check if we completed a file checksum
+    if (current_file_data_hashed_ == storage[item.file_index].file_size()) {
+        Expects(hash_functions_.size() == 1);
+        auto checksum = make_checksum(hash_functions_.front());
+        hasher.finalize_to(checksum->value());
+        storage[item.file_index].add_checksum(std::move(checksum));
+    }
 }
 
-}
\ No newline at end of file
+}
-- 
2.43.0


From 051a77656a9cc61fd943e03f929ebd4ee49fa7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:50 +0000
Subject: [PATCH 48/72] fix: v2 verification threw or marked wrong pieces for
 files without v2 data and around padding files

---
 include/dottorrent/v2_piece_verifier.hpp |   3 +
 src/v2_piece_verifier.cpp                | 106 +++++++----------------
 2 files changed, 33 insertions(+), 76 deletions(-)

diff --git a/include/dottorrent/v2_piece_verifier.hpp b/include/dottorrent/v2_piece_verifier.hpp
index 4cf0b41..64b1051 100644
--- a/include/dottorrent/v2_piece_verifier.hpp
+++ b/include/dottorrent/v2_piece_verifier.hpp
@@ -40,6 +40,9 @@ public:
 protected:
     void initialize_offsets_and_trees();
 
+    /// Number of values in the piece map for a file.
+    std::size_t file_piece_count(const file_entry& entry) const noexcept;
+
     void verify_finished_piece(const v2_hashed_piece& finished_piece);
     template <typename HasherType>
     void verify_piece_layers_and_root(HasherType& hasher, std::size_t file_index);
diff --git a/src/v2_piece_verifier.cpp b/src/v2_piece_verifier.cpp
index 241a209..deb3de0 100644
--- a/src/v2_piece_verifier.cpp
+++ b/src/v2_piece_verifier.cpp
@@ -69,26 +69,14 @@ const std::vector<std::uint8_t>& v2_piece_verifier::result() const noexcept {
 
 double v2_piece_verifier::percentage(std::size_t file_index) const noexcept {
     Expects(file_index < file_offsets_.size());
-    constexpr std::size_t max_size_t = std::numeric_limits<std::size_t>::max();
-
     const file_storage& storage = storage_;
     const auto& entry = storage[file_index];
 
     if (entry.is_padding_file() || entry.file_size() == 0)
         return 100;
 
-    std::size_t number_of_pieces = 1;
-    if (auto s = entry.piece_layer().size(); s > 0) {
-        number_of_pieces = s;
-    }
-
-    auto first_piece_map_index = std::transform_reduce(
-            storage.begin(), std::next(storage.begin(), file_index),
-            0ul, std::plus<>{},
-            [](const file_entry& e) {
-                if (e.is_padding_file()) return std::size_t(0);
-                return std::max(std::size_t(1), e.piece_layer().size());
-            });
+    const auto number_of_pieces = file_piece_count(entry);
+    const auto first_piece_map_index = file_offsets_[file_index];
 
     auto n_complete_pieces = std::count(
             std::next(piece_map_.begin(), first_piece_map_index),
@@ -106,57 +94,37 @@ void v2_piece_verifier::initialize_offsets_and_trees() {
     Expects(piece_size >= v2_block_size);
     Expects(piece_size % v2_block_size == 0);
 
-    file_offsets_.push_back(0);
+    std::size_t piece_map_size = 0;
 
     for (const auto& entry : storage) {
         ++file_count;
-        auto block_count = (entry.file_size() + v2_block_size -1) / v2_block_size;
+        // padding files do not add to the piece map
+        file_offsets_.push_back(piece_map_size);
+        piece_map_size += file_piece_count(entry);
+
         if (entry.is_padding_file()) {
             // add en empty merkly tree to make sure file_indices match merkle tree indices.
             merkle_trees_.emplace_back();
-            auto offset = file_offsets_.back();
-            file_offsets_.back() = std::numeric_limits<std::size_t>::max();
-            file_offsets_.push_back(offset);
         }
         else {
-            auto& m = merkle_trees_.emplace_back(block_count);
-            auto offset = std::max(std::size_t(1), entry.piece_layer().size());
-
-            // get the offset of the last non-padding file
-            std::size_t previous_offset = 0;
-            // check if last offset is a padding file
-            if (file_offsets_.size() == 0) {
-                previous_offset = 0;
-            }
-            else if (file_offsets_.back() == std::numeric_limits<std::size_t>::max()) {
-                previous_offset = *std::prev(file_offsets_.end(), 2);
-            } else {
-                previous_offset = *std::prev(file_offsets_.end(), 1);
-            }
-            file_offsets_.push_back(previous_offset + offset);
+            auto block_count = (entry.file_size() + v2_block_size -1) / v2_block_size;
+            merkle_trees_.emplace_back(block_count);
         }
     }
 
     file_blocks_hashed_ = decltype(file_blocks_hashed_)(file_count);
 
-    auto piece_map_size = 0;
-    for (const auto& entry : storage) {
-        if (entry.is_padding_file())
-            continue;
-
-        auto s = entry.piece_layer().size();
-        if (s != 0) {
-            piece_map_size += s;
-        }
-        else {
-            // we have a file smaller then the piece size with only a root hash.
-            // or a padding file
-            piece_map_size += 1;
-        }
-    }
     piece_map_.resize(piece_map_size);
 }
 
+std::size_t v2_piece_verifier::file_piece_count(const file_entry& entry) const noexcept {
+    if (entry.is_padding_file())
+        return 0;
+    // files smaller then the piece size only have a root hash, and count as a single piece.
+    const file_storage& storage = storage_;
+    return std::max<std::size_t>(1, detail::div_ceil(entry.file_size(), storage.piece_size()));
+}
+
 void v2_piece_verifier::verify_finished_piece(const v2_hashed_piece& finished_piece) {
 #ifdef DOTTORRENT_USE_ISAL
     static thread_local std::unique_ptr<multi_buffer_hasher> hasher = make_multi_buffer_hasher(hash_function::sha256);
@@ -197,40 +165,26 @@ void v2_piece_verifier::verify_piece_layers_and_root(HasherType& hasher, std::si
     file_entry& entry = storage.at(file_index);
     std::size_t entry_index = file_offsets_.at(file_index);
 
-    bool whole_file_complete = entry.pieces_root() == tree.root();
-    bool is_single_piece_file = entry.piece_layer().size() == 0;
+    const auto piece_count = file_piece_count(entry);
 
+    // there is nothing to verify for an empty file and no data to verify others without a root hash
+    bool whole_file_complete = entry.has_v2_data() ? entry.pieces_root() == tree.root() : entry.file_size() == 0;
 
     if (whole_file_complete) {
-        if (is_single_piece_file) {
-            Expects(entry_index < piece_map_.size());
-            piece_map_[entry_index] = 1;
-        }
-        else {
-            std::fill_n(std::next(piece_map_.begin(), entry_index), entry.piece_layer().size(), 1);
-        }
+        std::fill_n(std::next(piece_map_.begin(), entry_index), piece_count, 1);
     }
-    else {
-        if (is_single_piece_file) {
-            Expects(entry_index < piece_map_.size());
-            piece_map_[entry_index] = 0;
-        }
-        else {
+    else if (entry.has_v2_data() && layer_offset <= tree.tree_height()) {
+        // leaf nodes necessary to balance the tree are not included in the piece layers
+        std::size_t layer_depth = tree.tree_height() - layer_offset;
+        auto layer_view = tree.get_layer(layer_depth).subspan(0, piece_count);
+        auto reference_layer_view = entry.piece_layer();
 
-            // leaf nodes necessary to balance the tree are not included in the piece layers
-            std::size_t layer_depth = tree.tree_height() - layer_offset;
-            auto layer_view = tree.get_layer(layer_depth);
-            auto layer_data_nodes_size = (entry.file_size() + piece_size - 1 ) / piece_size;
-            layer_view = layer_view.subspan(0, layer_data_nodes_size);
-            auto reference_layer_view = entry.piece_layer();
+        std::size_t max_offset = std::min(layer_view.size(), reference_layer_view.size());
 
-            std::size_t max_offset = std::min(layer_view.size(), reference_layer_view.size());
-
-            for (std::size_t i = 0; i < max_offset; ++i, ++entry_index) {
-                piece_map_[entry_index] = (layer_view[i] == reference_layer_view[i]);
-            }
+        for (std::size_t i = 0; i < max_offset; ++i, ++entry_index) {
+            piece_map_[entry_index] = (layer_view[i] == reference_layer_view[i]);
         }
     }
 }
 
-}
\ No newline at end of file
+}
-- 
2.43.0


From 170d2f2f3f6a7e69ad3dd4212a363a028500eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:50 +0000
Subject: [PATCH 49/72] fix: verify_piece_layers refused valid layers of
 single-piece files and of odd piece counts

---
 include/dottorrent/file_storage.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index 71a8a59..7b07edd 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -297,9 +297,30 @@ void verify_piece_layers(const file_storage& storage, OutputIt out)
 {
     merkle_tree<hash_function::sha256> tree {};
 
+    // hash of a piece of zero leaf nodes, used to balance the tree
+    tree.set_leaf_nodes(storage.piece_size() / v2_block_size);
+    tree.update();
+    const sha256_hash padding_hash = tree.root();
+
     for (const auto& entry: storage) {
+        // files without v2 data can not be verified, padding and empty files have nothing to verify.
+        if (!entry.has_v2_data()) {
+            *out++ = entry.is_padding_file() || entry.file_size() == 0;
+            continue;
+        }
+
         auto layers = entry.piece_layer();
-        tree.set_leaf_nodes(layers.size());
+        // files that are not larger than a piece only have a root
+        if (entry.file_size() <= storage.piece_size()) {
+            *out++ = layers.empty();
+            continue;
+        }
+        if (layers.size() != detail::div_ceil(entry.file_size(), storage.piece_size())) {
+            *out++ = false;
+            continue;
+        }
+
+        tree.set_leaf_nodes(layers.size(), padding_hash);
 
         std::size_t idx = 0;
         for (const auto& l : layers) {
-- 
2.43.0


From 1487da3c92fd2f0ffc2b55b0c9896dee82d4ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 50/72] fix: the size of a new magnet link is zero instead of
 uninitialised

---
 include/dottorrent/magnet_uri.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index d01d6f2..88d9c66 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -177,7 +177,7 @@ private:
     //dn	Display Name	A filename to display to the user, for convenience.
     std::string display_name_;
     //xl	eXact Length	Size (in bytes)
-    std::size_t size_;
+    std::size_t size_ = 0;
     //xt	eXact Topic	URN containing file hash.
     // This is the most crucial part of the magnet link, and is used to find and verify the specified file.
     // The URN is specific to the protocol, so a file hash URN under btih (BitTorrent) would be completely different than the file hash URN for ed2k
-- 
2.43.0


From 4bb8c94e4d91a7eee2f18800b2a9459a8a3fedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 51/72] fix: write magnet links that can be read back

The keyword parameter had no name and never ended with two or more keywords, links without a
topic started with an empty parameter, topics were not encoded and the position of the output
iterator was lost between parameters.
---
 include/dottorrent/magnet_uri.hpp | 67 ++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index 88d9c66..bf49d47 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -218,79 +218,88 @@ void encode_magnet_uri(const magnet_uri& magnet, OutputIterator out)
 {
     using namespace std::string_view_literals;
 
-    std::string uri = "magnet:?";
-    rng::copy(uri, out);
+    const auto write = [&](std::string_view text) {
+        out = rng::copy(text, out).out;
+    };
+
+    write("magnet:?"sv);
 
     bool first = true;
-    // topics
-    for (const auto& topic : magnet.topics()) {
-        if (first) {
-            rng::copy("xt="sv, out);
-            first = false;
+    const auto write_key = [&](std::string_view key) {
+        if (!first) {
+            write("&"sv);
         }
-        else {
-            rng::copy("&xt="sv, out);
+        first = false;
+        write(key);
+        write("="sv);
+    };
+
+    // topics: colons are left as is to keep URNs readable
+    for (const auto& topic : magnet.topics()) {
+        write_key("xt"sv);
+        for (auto it = topic.begin(); it != topic.end(); ++it) {
+            write(*it == ':' ? ":" : detail::percent_encode(std::string_view(it, std::next(it))));
         }
-        rng::copy(topic, out);
     }
 
     // display name
     if (!magnet.display_name().empty()) {
-        rng::copy("&dn="sv, out);
-        rng::copy(detail::percent_encode(magnet.display_name()), out);
+        write_key("dn"sv);
+        write(detail::percent_encode(magnet.display_name()));
     }
 
     if (magnet.size() != 0) {
         // exact length
-        rng::copy("&xl="sv, out);
-        rng::copy(detail::percent_encode(std::to_string(magnet.size())), out);
+        write_key("xl"sv);
+        write(detail::percent_encode(std::to_string(magnet.size())));
     }
     // trackers
     for (const auto& tr : magnet.trackers()) {
-        rng::copy("&tr="sv, out);
-        rng::copy(detail::percent_encode(tr), out);
+        write_key("tr"sv);
+        write(detail::percent_encode(tr));
     }
 
     // webseeds
     for (const auto& ws : magnet.web_seeds()) {
-        rng::copy("&ws="sv, out);
-        rng::copy(detail::percent_encode(ws), out);
+        write_key("ws"sv);
+        write(detail::percent_encode(ws));
     }
 
     // Acceptable sources
     for (const auto& as : magnet.acceptable_sources()) {
-        rng::copy("&as="sv, out);
-        rng::copy(detail::percent_encode(as), out);
+        write_key("as"sv);
+        write(detail::percent_encode(as));
     }
 
 
     // Exact source
     if (!magnet.exact_source().empty()) {
-        rng::copy("&xs="sv, out);
-        rng::copy(detail::percent_encode(magnet.exact_source()), out);
+        write_key("xs"sv);
+        write(detail::percent_encode(magnet.exact_source()));
     }
 
     // keywords
     if (!magnet.keywords().empty()) {
+        write_key("kt"sv);
         auto it = magnet.keywords().begin();
-        rng::copy(detail::percent_encode(*it++), out);
+        write(detail::percent_encode(*it++));
 
         while (it != magnet.keywords().end()) {
-            *out++ = '+';
-            rng::copy(detail::percent_encode(*it), out);
+            write("+"sv);
+            write(detail::percent_encode(*it++));
         }
     }
 
     // manifest
     if (!magnet.manifest().empty()) {
-        rng::copy("&mt="sv, out);
-        rng::copy(detail::percent_encode(magnet.manifest()), out);
+        write_key("mt"sv);
+        write(detail::percent_encode(magnet.manifest()));
     }
 
     // Peers
     for (const auto& pe : magnet.peer_adresses()) {
-        rng::copy("&x.pe="sv, out);
-        rng::copy(detail::percent_encode(pe), out);
+        write_key("x.pe"sv);
+        write(detail::percent_encode(pe));
     }
 }
 
-- 
2.43.0


From 358b663f68ee0a71570bc1b7ade51215039d2adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 52/72] fix: a plus sign inside a magnet link keyword does not
 split the keyword

---
 src/magnet_uri.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnet_uri.cpp b/src/magnet_uri.cpp
index 73bcb94..0220653 100644
--- a/src/magnet_uri.cpp
+++ b/src/magnet_uri.cpp
@@ -107,10 +107,10 @@ magnet_uri make_magnet_uri(std::string_view uri)
             result.set_exact_source(detail::percent_decode(value));
         }
         else if (key == "kt") {
-            auto keywords_string = detail::percent_decode(value);
-            auto keywords = detail::split_keywords_string(keywords_string);
+            // split first: an encoded plus sign is part of a keyword
+            auto keywords = detail::split_keywords_string(value);
             for (auto kw : keywords) {
-                result.add_keyword(kw);
+                result.add_keyword(detail::percent_decode(kw));
             }
         }
         else if (key == "mt") {
-- 
2.43.0


From fe5888e8885ff3ce6a97f49f2ae801af6518692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 53/72] fix: refuse magnet links with malformed percent
 encoding

The value was silently cut off at the malformed character.
---
 src/magnet_uri.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/magnet_uri.cpp b/src/magnet_uri.cpp
index 0220653..ada818c 100644
--- a/src/magnet_uri.cpp
+++ b/src/magnet_uri.cpp
@@ -58,6 +58,21 @@ std::vector<std::string_view> split_keywords_string(std::string_view keywords)
 }
 
 
+}
+
+namespace {
+
+/// Decode a parameter value, malformed percent encoding is an error.
+std::string decode_value(std::string_view value)
+{
+    std::string result {};
+    auto status = detail::percent_decode(value.begin(), value.end(), std::back_inserter(result));
+    if (status != detail::percent_decode_status::success) {
+        throw std::invalid_argument("malformed percent encoding in magnet uri");
+    }
+    return result;
+}
+
 }
 
 magnet_uri make_magnet_uri(std::string_view uri)
@@ -78,7 +93,7 @@ magnet_uri make_magnet_uri(std::string_view uri)
         auto [key, value] = detail::split_key_value_pair(part);
 
         if (key == "dn") {
-            result.set_display_name(detail::percent_decode(value));
+            result.set_display_name(decode_value(value));
         }
         else if (key == "xl") {
             std::size_t xl_value;
@@ -92,32 +107,32 @@ magnet_uri make_magnet_uri(std::string_view uri)
             result.set_size(xl_value);
         }
         if (key == "xt") {
-            result.add_topic(detail::percent_decode(value));
+            result.add_topic(decode_value(value));
         }
         else if (key == "tr") {
-            result.add_tracker(detail::percent_decode(value));
+            result.add_tracker(decode_value(value));
         }
         else if (key == "ws") {
-            result.add_web_seed(detail::percent_decode(value));
+            result.add_web_seed(decode_value(value));
         }
         else if (key == "as") {
-            result.add_acceptable_source(detail::percent_decode(value));
+            result.add_acceptable_source(decode_value(value));
         }
         else if (key == "xs") {
-            result.set_exact_source(detail::percent_decode(value));
+            result.set_exact_source(decode_value(value));
         }
         else if (key == "kt") {
             // split first: an encoded plus sign is part of a keyword
             auto keywords = detail::split_keywords_string(value);
             for (auto kw : keywords) {
-                result.add_keyword(detail::percent_decode(kw));
+                result.add_keyword(decode_value(kw));
             }
         }
         else if (key == "mt") {
-            result.set_manifest(detail::percent_decode(value));
+            result.set_manifest(decode_value(value));
         }
         else if (key == "x.pe") {
-            result.add_peer_address(detail::percent_decode(value));
+            result.add_peer_address(decode_value(value));
         }
     }
     return result;
-- 
2.43.0


From c1d0e90e79bc01e2c33d5a21e0cd72af05e56c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 54/72] fix: announce lists with empty tiers or repeated
 trackers aborted the parser or lost tiers

---
 src/metafile_parsing.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 8a64d07..37aca47 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -24,17 +24,17 @@ void parse_announce(const T& data, metafile& m)
     // parse_file announce-url
     try {
         if (auto it = dict.find(list_key); it != dict.end()) {
-            std::size_t tier = 0;
-
             for (const auto& e : get_list(it->second)) {
-                std::size_t item = 0;
+                // tiers without new trackers are skipped to keep the tiers consecutive
+                const std::size_t tier = m.trackers().tier_count();
 
                 for (const auto& a : get_list(e)) {
                     const auto& s = get_string(a);
-                    m.add_tracker(announce_url{s, tier});
-                    ++item;
+                    // the first listing of a tracker determines its tier
+                    if (!m.trackers().contains(s)) {
+                        m.add_tracker(announce_url{s, tier});
+                    }
                 }
-                ++tier;
             }
         }
     } catch (const bencode::bad_access& e) {
-- 
2.43.0


From ffe7f17a20afa16f7f35aa525ca98ade3d948a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 55/72] fix: serialize_json_to wrote to the standard output
 instead of the stream given

---
 src/metafile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 5afaff0..599f3b8 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -335,7 +335,7 @@ void save_metafile(const std::filesystem::path& path, const metafile& m, protoco
 /// Write a json representation of the metafile to `os`.
 void serialize_json_to(std::ostream& os, const metafile& m, protocol protocol_version)
 {
-    bencode::events::encode_json_to to_json(std::cout);
+    bencode::events::encode_json_to to_json(os);
     if (protocol_version == protocol::v1) {
         bc::connect(to_json, detail::make_bvalue_v1(m));
     }
-- 
2.43.0


From cbf3cbad5976fadc81176b63c68cd7be204735ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:05 +0000
Subject: [PATCH 56/72] fix: creation dates outside the range of the system
 clock overflowed

---
 src/metafile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 599f3b8..1637d6c 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -178,7 +178,7 @@ std::chrono::seconds metafile::creation_date() const
 
 // TODO: [c++20] change system_clock to utc_clock for guaranteed unix epoch.
 void metafile::set_creation_date(std::time_t time)
-{ set_creation_date(std::chrono::system_clock::from_time_t(time)); }
+{ creation_date_ = static_cast<std::uint64_t>(time); }
 
 const std::unordered_set<info_hash>& metafile::similar_torrents() const
 { return similar_torrents_; }
-- 
2.43.0


From b260f72563192f83befd1a8366d985466a847cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:05 +0000
Subject: [PATCH 57/72] fix: symlinks in torrents could not be read

---
 src/metafile_parsing.cpp | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 37aca47..b479813 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -390,6 +390,29 @@ std::optional<file_attributes> parse_file_attributes(const T& data)
 }
 
 
+template <bc::bvalue_or_bview T>
+static std::optional<fs::path> parse_symlink_path(
+        const T& data, std::optional<file_attributes> attributes, std::size_t file_size)
+{
+    constexpr auto key = "symlink path"sv;
+    const auto& file_dict = get_dict(data);
+    std::optional<fs::path> symlink = std::nullopt;
+
+    if (auto it = file_dict.find(key); it != file_dict.end()) {
+        symlink = parse_path(it->second);
+    }
+    if (attributes && (*attributes & file_attributes::symlink) == file_attributes::symlink) {
+        if (!symlink) {
+            throw parse_error(key, "missing symlink path");
+        }
+        if (file_size != 0) {
+            throw parse_error("length", "symlinks must be empty");
+        }
+    }
+    return symlink;
+}
+
+
 template <bc::bvalue_or_bview T>
 auto parse_file_entry_v1(const T& data) -> file_entry
 {
@@ -421,11 +444,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
     std::optional<file_attributes> attributes = parse_file_attributes(data);
 
     // symlinks
-    std::optional<fs::path> symlink = std::nullopt;
-
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
-    }
+    std::optional<fs::path> symlink = parse_symlink_path(data, attributes, size);
 
     file_entry entry(std::move(path), size, attributes, symlink);
 
@@ -476,11 +495,7 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     std::optional<file_attributes> attributes = parse_file_attributes(data);
 
     // symlink
-    std::optional<fs::path> symlink = std::nullopt;
-
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
-    }
+    std::optional<fs::path> symlink = parse_symlink_path(data, attributes, size);
 
     file_entry entry(path, size, attributes, symlink);
     if (pieces_root) {
-- 
2.43.0


From 5ab062fea42ba1a2fdcc4c538a0e37154ab5a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:29 +0000
Subject: [PATCH 58/72] fix: attributes and checksums of the file of a
 single-file torrent were not written

---
 src/metafile_parsing.cpp       |  5 ++++-
 src/metafile_serialization.cpp | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index b479813..ccdb32c 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -352,9 +352,12 @@ void parse_other_info_fields(const T& data, metafile& m)
         "source"sv,
     };
 
+    // attributes and checksums of the file of a single-file torrent are not part of the other fields.
+    const bool is_single_file = !info_dict.contains("files"sv) && info_dict.contains("length"sv);
+
     for (const auto& [k, v] : info_dict) {
-        auto tmp = std::string(k);
         if (known_keys.contains(k)) continue;
+        if (is_single_file && (k == "attr"sv || k == "symlink path"sv || is_hash_function_name(k))) continue;
         m.other_info_fields().insert_or_assign(std::string(k), v);
     }
 }
diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index e209a50..94e3c43 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -18,6 +18,16 @@ bencode::bvalue make_bvalue_infodict_v1(const metafile& m)
         auto& file = storage.at(0);
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+
+        if (file.attributes()) {
+            info.insert_or_assign("attr", file.attributes().value());
+        }
+        if (file.is_symlink()) {
+            info.insert_or_assign("symlink path", file.symlink_path().value());
+        }
+        for (const auto& [algo, checksum] : file.checksums()) {
+            info.insert_or_assign(algo, checksum->value());
+        }
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
@@ -163,6 +173,16 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
         auto& file = storage[0];
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+
+        if (file.attributes()) {
+            info.insert_or_assign("attr", file.attributes().value());
+        }
+        if (file.is_symlink()) {
+            info.insert_or_assign("symlink path", file.symlink_path().value());
+        }
+        for (const auto& [algo, checksum] : file.checksums()) {
+            info.insert_or_assign(algo, checksum->value());
+        }
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
-- 
2.43.0


From 95a4fc30a7476174586e5af8d162dd2bb1dfa0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:29 +0000
Subject: [PATCH 59/72] fix: hybrid single-file torrents named their file
 differently in the v1 and the v2 description

---
 src/metafile_serialization.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index 94e3c43..cbb41ea 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -254,11 +254,14 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
 
     info.insert_or_assign("file tree", std::move(bfile_tree));
 
-    if (m.name().empty()) {
-        info.insert_or_assign("name", storage.root_directory().filename().string());
-    }
-    else {
-        info.insert_or_assign("name", m.name());
+    // the name of a single-file torrent is the name of the file.
+    if (storage.file_mode() != file_mode::single) {
+        if (m.name().empty()) {
+            info.insert_or_assign("name", storage.root_directory().filename().string());
+        }
+        else {
+            info.insert_or_assign("name", m.name());
+        }
     }
 
     info.insert_or_assign("piece length", storage.piece_size());
-- 
2.43.0


From 93f0436588d05fa140bb719b050037b4501fd5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:29 +0000
Subject: [PATCH 60/72] fix: writing v2 data of storages with padding files
 failed

---
 src/metafile_serialization.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index cbb41ea..f872688 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -106,6 +106,10 @@ bencode::bvalue make_bvalue_infodict_v2(const metafile& m)
 
     auto ptr = &file_tree;
     for (const auto& file : storage) {
+        // padding files are only for v1
+        if (file.is_padding_file())
+            continue;
+
         for (const auto& component : file.path()) {
             if (auto it = ptr->find(component); it != ptr->end()) {
                 ptr = &get_dict(it->second);
@@ -370,7 +374,7 @@ bencode::bvalue make_bvalue_v2(const dottorrent::metafile& m)
 
     std::size_t f_idx = 0;
     for (const auto& file: storage) {
-        if (file.file_size() > storage.piece_size()) {
+        if (file.file_size() > storage.piece_size() && !file.is_padding_file()) {
             piece_layers.insert_or_assign(
                     std::string(std::string_view(file.pieces_root())),
                     make_v2_piece_layers_string(file));
@@ -399,7 +403,7 @@ bencode::bvalue make_bvalue_hybrid(const metafile& m)
 
     std::size_t f_idx = 0;
     for (const auto& file: storage) {
-        if (file.file_size() > storage.piece_size()) {
+        if (file.file_size() > storage.piece_size() && !file.is_padding_file()) {
             piece_layers.insert_or_assign(
                     std::string(std::string_view(file.pieces_root())),
                     make_v2_piece_layers_string(file));
-- 
2.43.0


From 9f29d33262a5b678f7fa70eabf6c70adb7251d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:13 +0000
Subject: [PATCH 61/72] fix: torrents of unknown meta versions were read as v1
 torrents

---
 src/metafile_parsing.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index ccdb32c..90b2a3d 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -751,6 +751,7 @@ protocol parse_protocol(const T& data)
             if (meta_version == 2) {
                 return protocol::v2;
             }
+            throw parse_error(key, "unsupported protocol version");
         }
         // no meta version field given : v1
         return protocol::v1;
-- 
2.43.0


From 69c1b7f36694582ef934ce453abbeb5c139df000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:13 +0000
Subject: [PATCH 62/72] fix: hybrid torrents whose file list and file tree
 differ were accessed out of bounds

---
 src/metafile_parsing.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 90b2a3d..4e6d4cf 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -634,17 +634,27 @@ void parse_file_list_and_tree_hybrid(const T& data, metafile& m)
     std::vector<file_entry> v2_entries {};
     parse_file_tree_v2(data, m, std::back_inserter(v2_entries));
 
-    const auto path_comparator = [](const file_entry& f1, const file_entry& f2) {
-        return f1.path() == f2.path();
-    };
-
     for (auto& v2_entry : v2_entries) {
-        auto it = std::find_if(storage.begin(), storage.end(), std::bind_front(path_comparator, v2_entry));
+        auto it = std::find_if(storage.begin(), storage.end(),
+                [&](const file_entry& f) { return f.path() == v2_entry.path(); });
+
+        if (it == storage.end()) {
+            throw parse_error("file tree", "file is missing in the v1 file list");
+        }
+        if (it->file_size() != v2_entry.file_size()) {
+            throw parse_error("file tree", "file size differs from the v1 file list");
+        }
         // empty files can ommit the pieces root
         if (v2_entry.file_size() > 0) {
             it->set_pieces_root(v2_entry.pieces_root());
         }
     }
+
+    for (const auto& entry : std::as_const(storage)) {
+        if (entry.file_size() > 0 && !entry.is_padding_file() && !entry.has_v2_data()) {
+            throw parse_error("file tree", "file of the v1 file list is missing");
+        }
+    }
 };
 
 
-- 
2.43.0


From 076196a091a6c266d001974bc5986c88d3d8d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:13 +0000
Subject: [PATCH 63/72] fix: malformed torrents terminated the program instead
 of throwing

---
 src/metafile_parsing.cpp | 104 ++++++++++++++++++++++++++++-----------
 1 file changed, 74 insertions(+), 30 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 4e6d4cf..cb06e21 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -1,3 +1,6 @@
+#include <bit>
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <concepts>
 #include <queue>
@@ -81,7 +84,7 @@ void parse_private(const T& data, metafile& m)
     try {
         if (const auto it = info_dict.find(key); it != info_dict.end()) {
             const auto v = get_integer(it->second);
-            if (v > 1) {
+            if (v != 0 && v != 1) {
                 throw parse_error(key, fmt::format("expected integer equal to '0' or '1'"));
             }
             m.set_private(bool(v));
@@ -213,10 +216,14 @@ void parse_dht_nodes(const T& data, metafile& m)
             const auto desc = bc::get_list(it->second);
             for (const auto& c : desc) {
                 const auto& tuple = bc::get_list(c);
-                Expects(tuple.size() == 2);
-                m.add_dht_node(
-                        get_string(tuple[0]),
-                        get_integer(tuple[1]));
+                if (tuple.size() != 2) {
+                    throw parse_error(key, "expected a list of a host and a port");
+                }
+                const auto port = get_integer(tuple[1]);
+                if (port < 0 || port > std::numeric_limits<std::uint16_t>::max()) {
+                    throw parse_error(key, "invalid port number");
+                }
+                m.add_dht_node(get_string(tuple[0]), static_cast<std::uint16_t>(port));
             }
         }
     } catch (bencode::bad_access& e) {
@@ -365,8 +372,6 @@ void parse_other_info_fields(const T& data, metafile& m)
 template <bc::bvalue_or_bview T>
 fs::path parse_path(const T& data)
 {
-    Expects(holds_list(data));
-
     fs::path p{};
     auto& blist = get_list(data);
     for (auto& path_component : blist) {
@@ -375,6 +380,23 @@ fs::path parse_path(const T& data)
     return p;
 }
 
+template <bc::bvalue_or_bview T>
+static std::size_t parse_file_size(const T& data)
+{
+    const auto& file_dict = get_dict(data);
+    constexpr auto key = "length"sv;
+
+    auto it = file_dict.find(key);
+    if (it == file_dict.end()) {
+        throw parse_error(key, "missing file size");
+    }
+    const auto size = get_integer(it->second);
+    if (size < 0) {
+        throw parse_error(key, "negative file size");
+    }
+    return static_cast<std::size_t>(size);
+}
+
 template <bc::bvalue_or_bview T>
 std::optional<file_attributes> parse_file_attributes(const T& data)
 {
@@ -419,14 +441,15 @@ static std::optional<fs::path> parse_symlink_path(
 template <bc::bvalue_or_bview T>
 auto parse_file_entry_v1(const T& data) -> file_entry
 {
-    Expects(holds_dict(data));
-
     const auto& file_dict = get_dict(data);
     fs::path path {};
 
     // multi_file
     if (const auto it = file_dict.find("path"); it != file_dict.end()) {
         path = parse_path(it->second);
+        if (path.empty()) {
+            throw parse_error("path", "empty file path");
+        }
     }
     // single_file
     else {
@@ -437,11 +460,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
         path = bencode::get_as<std::string_view>(name_field_it->second);
     }
 
-    auto length_field_it = file_dict.find("length");
-    if (length_field_it == file_dict.end()) {
-        throw parse_error("name", "missing file size");
-    }
-    std::size_t size = bencode::get_integer(length_field_it->second);
+    std::size_t size = parse_file_size(data);
 
     // file attributes
     std::optional<file_attributes> attributes = parse_file_attributes(data);
@@ -476,11 +495,7 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
 
     const auto& file_dict = get_dict(data);
 
-    auto length_field_it = file_dict.find("length");
-    if (length_field_it == file_dict.end()) {
-        throw parse_error("name", "missing file size");
-    }
-    std::size_t size = get_integer(length_field_it->second);
+    std::size_t size = parse_file_size(data);
 
     std::optional<sha256_hash> pieces_root;
     auto pieces_root_it = file_dict.find("pieces root");
@@ -565,8 +580,11 @@ void parse_file_tree_v2(const T& data, metafile& m, OutputIterator out)
     const auto& info_dict = get_dict(info_view);
 
     auto& storage = m.storage();
-    const auto& file_tree_view = info_dict.at("file tree");
-    const auto& file_tree = get_dict(file_tree_view);
+    auto file_tree_it = info_dict.find("file tree"sv);
+    if (file_tree_it == info_dict.end()) {
+        throw parse_error("info", "missing required field \"file tree\"");
+    }
+    const auto& file_tree = get_dict(file_tree_it->second);
 
     using dict_type = typename T::dict_type;
     using iterator_type = typename T::dict_type::const_iterator;
@@ -590,6 +608,9 @@ void parse_file_tree_v2(const T& data, metafile& m, OutputIterator out)
 
             // leaf node : a file
             if (key == "") {
+                if (path_components.size() == 1) {
+                    throw parse_error("file tree", "empty file path");
+                }
                 fs::path file_path{};
                 for (const auto& component : path_components) {
                     file_path.append(component);
@@ -673,6 +694,9 @@ void parse_pieces_v1(const T& data, metafile& m)
         auto piece_string = get_string(it->second);
         auto piece_count = piece_string.size() / 20;
 
+        if (piece_string.size() % 20 != 0 || piece_count != storage.piece_count()) {
+            throw parse_error("pieces", "number of piece hashes does not match the size of the files");
+        }
         storage.allocate_pieces();
 
         for (std::size_t idx = 0; idx < piece_count; ++idx) {
@@ -696,7 +720,11 @@ void parse_piece_size(const T& data, metafile& m)
     auto& storage = m.storage();
 
     if (auto it = info_dict.find("piece length"); it!=info_dict.end()) {
-        storage.set_piece_size(get_integer(it->second));
+        const auto size = get_integer(it->second);
+        if (size < 16*1024 || !std::has_single_bit(static_cast<std::uint64_t>(size))) {
+            throw parse_error("piece length", "expected a power of two of at least 16 KiB");
+        }
+        storage.set_piece_size(static_cast<std::size_t>(size));
     }
     else {
         throw parse_error("info", "missing required field \"piece length\"");
@@ -722,20 +750,27 @@ void parse_piece_layers_v2(const T& data, metafile& m)
 
     for (auto& f: storage) {
         // piece layers are only set for files larger then the piece size
-        if (f.file_size() < m.storage().piece_size() || f.is_padding_file())
+        if (f.file_size() <= m.storage().piece_size() || f.is_padding_file())
             continue;
 
         auto root = f.pieces_root();
+        auto it2 = layers_dict.find(std::string_view(root));
+        if (it2 == layers_dict.end()) {
+            throw parse_error(key, "missing piece layer");
+        }
 
-        if (auto it2 = layers_dict.find(std::string_view(root)); it2 != layers_dict.end()) {
-            std::vector<sha256_hash> layers;
-            std::string_view layer_string = get_string(it2->second);
+        std::vector<sha256_hash> layers;
+        std::string_view layer_string = get_string(it2->second);
+        const std::size_t piece_count = (f.file_size() - 1) / storage.piece_size() + 1;
 
-            for (std::size_t idx = 0; idx < layer_string.size(); idx += sha256_hash::size_bytes) {
-                layers.emplace_back(layer_string.substr(idx, sha256_hash::size_bytes));
-            }
-            f.set_piece_layer(std::span(layers));
+        if (layer_string.size() % sha256_hash::size_bytes != 0 ||
+                layer_string.size() / sha256_hash::size_bytes != piece_count) {
+            throw parse_error(key, "number of piece hashes does not match the file size");
+        }
+        for (std::size_t idx = 0; idx < layer_string.size(); idx += sha256_hash::size_bytes) {
+            layers.emplace_back(layer_string.substr(idx, sha256_hash::size_bytes));
         }
+        f.set_piece_layer(std::span(layers));
     }
 }
 
@@ -866,6 +901,15 @@ template<bc::bvalue_or_bview T>
 metafile parse_metafile(const T& data)
 {
     metafile m{};
+
+    if (!holds_dict(data)) {
+        throw parse_error("expected a dictionary");
+    }
+    const auto& dict = get_dict(data);
+    if (auto it = dict.find("info"); it == dict.end() || !holds_dict(it->second)) {
+        throw parse_error("info", "missing or not a dictionary");
+    }
+
     // parse the protocol header to determine if we have v1 or v2.
     auto protocol = detail::parse_protocol(data);
 
-- 
2.43.0


From dc741159fe342b89f119e32e5985fd6de21be727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 64/72] fix: saving a metafile ignored write errors and emptied
 an existing file before failing

---
 src/metafile.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 1637d6c..6e760e3 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -311,7 +311,9 @@ void write_metafile_to(std::ostream& os, const metafile& m, protocol protocol_ve
     } else {
         throw std::invalid_argument("unrecognised protocol version");
     }
-    bencode::encode_to(std::ostreambuf_iterator{os}, bv);
+    // Write through the stream: an ostreambuf_iterator does not report failures to it.
+    const auto data = bencode::encode(bv);
+    os.write(data.data(), static_cast<std::streamsize>(data.size()));
 }
 
 
@@ -328,8 +330,12 @@ metafile load_metafile(const std::filesystem::path& path)
 
 void save_metafile(const std::filesystem::path& path, const metafile& m, protocol protocol_version)
 {
+    // Serialize first: an existing file is not touched if that fails.
+    const auto data = write_metafile(m, protocol_version);
     std::ofstream ofs(path, std::ios::binary);
-    write_metafile_to(ofs, m, protocol_version);
+    ofs.exceptions(std::ios::failbit | std::ios::badbit);
+    ofs.write(data.data(), static_cast<std::streamsize>(data.size()));
+    ofs.close();
 }
 
 /// Write a json representation of the metafile to `os`.
-- 
2.43.0


From e7989abbd14da5c70852556cd282ce61da21cd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:53 +0000
Subject: [PATCH 65/72] fix: multi-buffer hashers returned wrong MD5 and
 SHA-512 digests

ISA-L stores MD5 digests as little-endian words and SHA-512 digests as 64-bit
words. Both were written as big-endian 32-bit words.
---
 include/dottorrent/hasher/backends/isal.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dottorrent/hasher/backends/isal.hpp b/include/dottorrent/hasher/backends/isal.hpp
index fbd9e1a..118b57e 100644
--- a/include/dottorrent/hasher/backends/isal.hpp
+++ b/include/dottorrent/hasher/backends/isal.hpp
@@ -3,6 +3,7 @@
 #include <span>
 #include <string_view>
 #include <cstring>
+#include <type_traits>
 #include <unordered_set>
 
 #include "dottorrent/hasher/multi_buffer_hasher.hpp"
@@ -109,11 +110,18 @@ public:
         while (!hash_ctx_complete(context_pool_[job_id])) {
             Flush(context_manager_);
         }
-        // Intel ISA-L stores the hash as 32 bit words so we need to byteswap and copy per word
+        // Intel ISA-L stores the hash as words, of 32 or 64 bits depending on the algorithm,
+        // so we need to byteswap and copy per word. MD5 digests consist of little-endian words.
         for (std::size_t i = 0; i < N_WORDS; ++i) {
-            auto big_endian_word = to_be32(hash_ctx_digest(context_pool_[job_id])[i]);
-            std::memcpy(buffer.data()+ i * sizeof(big_endian_word),
-                        &big_endian_word, sizeof(big_endian_word));
+            auto word = hash_ctx_digest(context_pool_[job_id])[i];
+            if constexpr (std::is_same_v<CTX, MD5_HASH_CTX>) {
+                word = to_le32(word);
+            } else if constexpr (sizeof(word) == sizeof(std::uint64_t)) {
+                word = to_be64(word);
+            } else {
+                word = to_be32(word);
+            }
+            std::memcpy(buffer.data() + i * sizeof(word), &word, sizeof(word));
         }
     }
 
-- 
2.43.0


From cb773655610d93f4977410ecc8e8d8e1cf02000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:53 +0000
Subject: [PATCH 66/72] fix: discarding unfinished jobs of a multi-buffer
 hasher left dangling contexts

The context manager kept using contexts which resize and reset had deallocated.
---
 include/dottorrent/hasher/backends/isal.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/hasher/backends/isal.hpp b/include/dottorrent/hasher/backends/isal.hpp
index 118b57e..b11e2b8 100644
--- a/include/dottorrent/hasher/backends/isal.hpp
+++ b/include/dottorrent/hasher/backends/isal.hpp
@@ -139,9 +139,11 @@ public:
         }
 
         if (len < context_pool_.size()) {
-            auto to_deallocate = context_pool_.size() - len;
-            std::size_t idx;
             for (std::size_t i = len; i < context_pool_.size(); ++i) {
+                // the context manager must not refer to a deallocated context
+                while (hash_ctx_processing(context_pool_[i])) {
+                    Flush(context_manager_);
+                }
                 deallocate_hash_context(context_pool_[i]);
             }
             context_pool_.resize(len);
@@ -150,6 +152,8 @@ public:
 
     void reset() override
     {
+        // discard the jobs the context manager still refers to
+        Init(context_manager_);
         for (auto ctx : context_pool_) {
             deallocate_hash_context(ctx);
         }
-- 
2.43.0


From 5ec1c78580d750806a0806fb94a43d367d2822b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:53 +0000
Subject: [PATCH 67/72] fix: multi-buffer updates of a Merkle tree stored the
 inner nodes at wrong positions

The parent of the nodes 2i and 2i+1 of a layer is node i of the layer above.
---
 include/dottorrent/merkle_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 6a5a4e8..38b8d4d 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -130,10 +130,10 @@ public:
             }
             // Update parent nodes
             job_id = 0;
-            for (std::size_t i = 0; job_id < n_jobs; ++job_id, i+=2) {
+            for (; job_id < n_jobs; ++job_id) {
                 value_type hash{};
                 hasher.finalize_to(job_id, hash);
-                set_node(layer-1, parent(i), hash);
+                set_node(layer-1, job_id, hash);
             }
         }
     }
-- 
2.43.0


From 1a500b0c70659ad3714a993459f77ff0c782856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:03 +0000
Subject: [PATCH 68/72] fix: verifying a hybrid torrent with multi-buffer
 hashing terminated the program

Hybrid torrents are verified by their v2 data, so that there is nobody to receive
the v1 hashes, as with single-buffer hashing.
---
 src/storage_verifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index de829ab..787b84c 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -113,7 +113,7 @@ void storage_verifier::start() {
 #ifdef DOTTORRENT_USE_ISAL
         if (enable_multi_buffer_hashing_)
             hasher_ = std::make_unique<v2_chunk_hasher_mb>(
-                    storage_, queue_capacity_, protocol_ == protocol::hybrid, threads_);
+                    storage_, queue_capacity_, false, threads_);
         else
             hasher_ = std::make_unique<v2_chunk_hasher_sb>(
                     storage_, queue_capacity_, false, threads_);
-- 
2.43.0


From 32eb721a1f1d4f28cff77dad079ce87e2b62733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:01 +0000
Subject: [PATCH 69/72] fix: multi-buffer v2 hashing reported wrong numbers of
 hashed bytes

The last block of a file counted as a whole block and the padding between the
files of a hybrid torrent was not counted.
---
 src/v2_chunk_hasher_mb.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/v2_chunk_hasher_mb.cpp b/src/v2_chunk_hasher_mb.cpp
index ac0e464..20eca43 100644
--- a/src/v2_chunk_hasher_mb.cpp
+++ b/src/v2_chunk_hasher_mb.cpp
@@ -72,10 +72,9 @@ void v2_chunk_hasher_mb::hash_chunk(multi_buffer_hasher& sha256_hasher, multi_bu
     for ( ; blocks_in_chunk != 0 && block_in_chunk_idx < blocks_in_chunk; ++block_in_chunk_idx) {
         sha256_hasher.finalize_to(block_in_chunk_idx, leaf);
         process_piece_hash(index_offset + block_in_chunk_idx, chunk.file_index, leaf);
-        bytes_hashed_.fetch_add(v2_block_size);
     }
 
-    block_in_chunk_idx = 0;
+    bytes_hashed_.fetch_add(chunk.data->size(), std::memory_order::relaxed);
 
     if (add_v1_compatibility_) {
         std::vector<std::byte> padding {};
@@ -124,7 +123,7 @@ void v2_chunk_hasher_mb::hash_chunk(multi_buffer_hasher& sha256_hasher, multi_bu
             sha1_hasher.finalize_to(piece_in_chunk_index, piece_hash);
             process_piece_hash(chunk.piece_index + piece_in_chunk_index, chunk.file_index, piece_hash);
         }
-        bytes_hashed_.fetch_add(chunk.data->size(), std::memory_order::relaxed);
+        bytes_hashed_.fetch_add(chunk.data->size() + padding.size(), std::memory_order::relaxed);
     }
     bytes_done_.fetch_add(chunk.data->size(), std::memory_order_relaxed);
 }
-- 
2.43.0


From 4e34a84cee00daededb69614215d36d360633b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:30 +0000
Subject: [PATCH 70/72] fix: a stopped queue processor still reported that it
 was running

---
 include/dottorrent/concurrent_queue_processor.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index e6f2393..6ea7f40 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -87,6 +87,7 @@ public:
         for (auto& t : threads_) {
             if (t.joinable()) t.join();
         }
+        stopped_.store(true, std::memory_order_relaxed);
         Expects(done());
     }
 
-- 
2.43.0


From 1666eee6d48808f3c8f6250181de7a61b52a83b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:06 +0000
Subject: [PATCH 71/72] fix: waiting for a chunk hasher before its stop was
 requested terminated the program

wait() wakes the workers with empty chunks until they end. A worker that got
one before the stop request aborted on a postcondition although wait() is
documented to block until a stop or cancellation, and a worker finishing the
pending work gave up at the first empty chunk, leaving the chunks behind it.
---
 src/chunk_hasher_multi_buffer.cpp  | 6 +++---
 src/chunk_hasher_single_buffer.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/chunk_hasher_multi_buffer.cpp b/src/chunk_hasher_multi_buffer.cpp
index d99a182..31619f1 100644
--- a/src/chunk_hasher_multi_buffer.cpp
+++ b/src/chunk_hasher_multi_buffer.cpp
@@ -23,8 +23,8 @@ void chunk_hasher_multi_buffer::run(std::stop_token stop_token, int thread_idx)
                 item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
                 item.file_index == std::numeric_limits<std::uint32_t>::max())
         {
-            Ensures(stop_token.stop_requested());
-            break;
+            // may also be due to someone already waiting for a stop
+            continue;
         }
 
         hash_chunk(hashers, item);
@@ -39,7 +39,7 @@ void chunk_hasher_multi_buffer::run(std::stop_token stop_token, int thread_idx)
                     item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
                     item.file_index == std::numeric_limits<std::uint32_t>::max())
             {
-                break;
+                continue;
             }
             hash_chunk(hashers, item);
             item.data.reset();
diff --git a/src/chunk_hasher_single_buffer.cpp b/src/chunk_hasher_single_buffer.cpp
index acbb213..7312d8f 100644
--- a/src/chunk_hasher_single_buffer.cpp
+++ b/src/chunk_hasher_single_buffer.cpp
@@ -23,8 +23,8 @@ void chunk_hasher_single_buffer::run(std::stop_token stop_token, int thread_idx)
                 item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
                 item.file_index == std::numeric_limits<std::uint32_t>::max())
         {
-            Ensures(stop_token.stop_requested());
-            break;
+            // may also be due to someone already waiting for a stop
+            continue;
         }
 
         hash_chunk(hashers, item);
@@ -39,7 +39,7 @@ void chunk_hasher_single_buffer::run(std::stop_token stop_token, int thread_idx)
                     item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
                     item.file_index == std::numeric_limits<std::uint32_t>::max())
             {
-                break;
+                continue;
             }
             hash_chunk(hashers, item);
             item.data.reset();
-- 
2.43.0


From 2579562d7e319ee80a68138878ca01c3ef6b02f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:16 +0000
Subject: [PATCH 72/72] fix: writing v1 piece hashes reserved memory in
 proportion to the piece size

---
 src/file_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 21d0921..48be6ea 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -414,7 +414,7 @@ auto absolute_file_paths(const file_storage& storage) -> std::vector<fs::path>
 std::string make_v1_pieces_string(const file_storage& storage)
 {
     std::string pieces_string{};
-    pieces_string.reserve(storage.piece_size() * sha1_hash::size());
+    pieces_string.reserve(storage.pieces().size() * sha1_hash::size());
     for (const auto& p: storage.pieces()) {
         pieces_string.append(std::string_view(p));
     }
-- 
2.43.0

