From 9508ccd66f08c4146262eccb2b94a40a92ecef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:31 +0000
Subject: [PATCH 01/64] fix: hexadecimal decoding of bytes >= 0x80, odd lengths
 and non-ASCII input

from_hexadecimal_string parsed into a signed char and rejected every byte
above 0x7f, read past the end of odd length input, the fixed size overload
accepted a trailing nibble, and the digit lookup used a negative index for
non-ASCII characters. The output iterator overload of to_hexadecimal_string
could not be instantiated.
---
 include/dottorrent/hex.hpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 281002b..e64de1c 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -47,7 +47,7 @@ struct hex_to_int_lookup_table
 {
     constexpr hex_to_int_lookup_table() = default;
     constexpr unsigned char operator()(char i) const noexcept
-    { return table_[i]; }
+    { return table_[static_cast<unsigned char>(i)]; }
 
 private:
     static constexpr std::array<unsigned char, 256> table_ = generate_hex_to_int_table();
@@ -93,17 +93,16 @@ inline constexpr void byte_to_hex_uppercase(std::byte c, char * __restrict out)
 template <std::output_iterator<std::byte> OutputIt>
 inline constexpr void from_hexadecimal_string(OutputIt out, std::string_view hex_string)
 {
-    auto it = hex_string.data();
-    auto end = hex_string.data() + hex_string.size();
-    while (it != end) {
-        char v;
-        auto r = std::from_chars(it, it+2, v, /*base*/ 16);
-
-        if (r.ec != std::errc{}) [[unlikely]] {
-            throw std::system_error(std::make_error_code(r.ec));
+    if (hex_string.size() % 2 != 0) [[unlikely]] {
+        throw std::system_error(std::make_error_code(std::errc::invalid_argument));
+    }
+
+    std::byte v {};
+    for (std::size_t i = 0; i < hex_string.size(); i += 2) {
+        if (!detail::hex_to_byte(hex_string.substr(i, 2), v)) [[unlikely]] {
+            throw std::system_error(std::make_error_code(std::errc::invalid_argument));
         }
-        it = r.ptr;
-        *out = std::byte(v);
+        *out++ = v;
     }
 }
 
@@ -112,7 +111,7 @@ inline std::optional<std::array<std::byte, N>>
 constexpr from_hexadecimal_string(std::string_view hexdigest)
 {
     std::array<std::byte, N> data{};
-    if (hexdigest.size()/2 != N) return std::nullopt;
+    if (hexdigest.size() != 2 * N) return std::nullopt;
 
     std::byte byte_value;
     for (size_t i = 0; i < hexdigest.size() / 2; ++i) {
@@ -136,13 +135,13 @@ inline std::string to_hexadecimal_string(std::span<const std::byte> data)
 }
 
 template <std::output_iterator<char> OutputIt>
-inline constexpr char* to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
+inline constexpr OutputIt to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
 {
     std::array<char, 2> buf {};
 
     for (const auto c : data) {
         detail::byte_to_hex(c, buf.data());
-        std::copy_n(buf, 2, out);
+        out = std::copy_n(buf.data(), 2, out);
     }
     return out;
 }
-- 
2.43.0


From 013c4051235beed9234fdf48ea5128b36aa1201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:31 +0000
Subject: [PATCH 02/64] fix: percent decoding of malformed escapes and output
 iterator advance

A stray '%' inside an escape, a trailing lone '%' and escapes with letters
outside a-f were reported as success (the last one emitting an uninitialised
byte). percent_encode did not advance iterators that are not inserters.
---
 include/dottorrent/percent_encoding.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index 136728c..89e42e9 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -77,7 +77,7 @@ constexpr void percent_encode(InputIt first, InputIt last, OutputIt out)
 
     for (; first != last; ++first) {
         auto size = detail::percent_encode_char(*first, buffer.data());
-        std::copy_n(buffer.data(), size, out);
+        out = std::copy_n(buffer.data(), size, out);
     }
 }
 
@@ -112,14 +112,14 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
         char c = *first++;
 
         // We must start with copying the two hexadecimal character to the buffer
-        if (c == '%') {
+        if (c == '%' && !copy_to_buffer_status) {
             copy_to_buffer_status = true;
             continue;
         }
 
         // We are busy with decoding an encoded character
         if (copy_to_buffer_status) {
-            if (!detail::is_alphanumerical(c)) [[unlikely]] {
+            if (hex_to_int(c) == std::numeric_limits<unsigned char>::max()) [[unlikely]] {
                 return percent_decode_status::non_hex_encoded_character;
             }
 
@@ -140,7 +140,7 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
         }
     }
 
-    if (buffer_offset != 0) [[unlikely]] {
+    if (copy_to_buffer_status) [[unlikely]] {
         return percent_decode_status::incomplete_encoded_character;
     }
     return percent_decode_status{};
-- 
2.43.0


From 2dc6b1e4da0f4026295d2c938dcd185a1a4e8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:27 +0000
Subject: [PATCH 03/64] fix: sha3_384 digests are 384 bits long

---
 include/dottorrent/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hash.hpp b/include/dottorrent/hash.hpp
index b43632c..75e20e5 100644
--- a/include/dottorrent/hash.hpp
+++ b/include/dottorrent/hash.hpp
@@ -202,7 +202,7 @@ DOTTORRENT_HASH_CLASS_TEMPLATE(sha384,     384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha512,     512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_224,   224)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_256,   256)
-DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   284)
+DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_512,   512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake128,   128)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake256,   256)
-- 
2.43.0


From c436eb2762aefb984a1f9de886fa59f4af932e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:27 +0000
Subject: [PATCH 04/64] fix: basic_hash::value() could not be instantiated on a
 const hash

---
 include/dottorrent/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hash.hpp b/include/dottorrent/hash.hpp
index 75e20e5..2de430a 100644
--- a/include/dottorrent/hash.hpp
+++ b/include/dottorrent/hash.hpp
@@ -104,7 +104,7 @@ public:
     constexpr auto end() const noexcept -> const_iterator
     { return data_.end(); }
 
-    constexpr auto value() const noexcept -> storage_type&
+    constexpr auto value() const noexcept -> const storage_type&
     { return data_; }
 
     constexpr auto data() noexcept -> value_type*
-- 
2.43.0


From f170e1a8afc4a99d177821e4f45f29eff7a7304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:27 +0000
Subject: [PATCH 05/64] fix: generic_checksum from a span of char wrote past
 the end of its buffer

---
 include/dottorrent/checksum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/checksum.hpp b/include/dottorrent/checksum.hpp
index 9c29b80..8a613d1 100644
--- a/include/dottorrent/checksum.hpp
+++ b/include/dottorrent/checksum.hpp
@@ -63,7 +63,7 @@ public:
             : data_()
             , key_(key)
     {
-        data_.reserve(value.size());
+        data_.resize(value.size());
         std::transform(std::begin(value), std::end(value), std::begin(data_),
                 [](char i) { return std::byte(i); });
     }
-- 
2.43.0


From 3a67915a9f8a9ed24ee85fc561158fa5ec8977c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 06/64] fix: aligned_allocator passed sizes to aligned_alloc
 that are not a multiple of the alignment

---
 include/dottorrent/aligned_allocator.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/aligned_allocator.hpp b/include/dottorrent/aligned_allocator.hpp
index 492b31a..17e8e93 100644
--- a/include/dottorrent/aligned_allocator.hpp
+++ b/include/dottorrent/aligned_allocator.hpp
@@ -4,6 +4,7 @@
 #include <vector>
 #include <iostream>
 #include <cstdlib>
+#include <stdexcept>
 
 #if defined(_WIN32) || defined(__MINGW32__)
 #define USE_ALLIGED_MALLOC
@@ -113,7 +114,13 @@ public:
 #ifdef USE_ALLIGED_MALLOC
         void * const pv = _aligned_malloc(n * sizeof(T), Alignment);
 #else
-        void * const pv = std::aligned_alloc(Alignment, n * sizeof(T));
+        // The size passed to std::aligned_alloc has to be a multiple of the alignment.
+        const std::size_t padding = (Alignment - (n * sizeof(T)) % Alignment) % Alignment;
+        if (n * sizeof(T) + padding < padding)
+        {
+            throw std::length_error("aligned_allocator<T>::allocate() - Integer overflow.");
+        }
+        void * const pv = std::aligned_alloc(Alignment, n * sizeof(T) + padding);
 #endif
 
         // Allocators should throw std::bad_alloc in the case of memory allocation failure.
-- 
2.43.0


From bd2eb29ef10ecfcd749e16f513e21586512aa35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:10 +0000
Subject: [PATCH 07/64] fix: raising the capacity of a concurrent_queue wakes
 blocked producers; try_push respects a lowered capacity

---
 include/dottorrent/concurrent_queue.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index a2e1c6c..11489eb 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -54,7 +54,7 @@ public:
     bool try_push(T &&item) {
         {
             std::unique_lock<std::mutex> lk(mutex_);
-            if (queue_.size() == capacity_)
+            if (queue_.size() >= capacity_)
                 return false;
             queue_.push(std::move(item));
         }
@@ -92,8 +92,11 @@ public:
 
     void set_capacity(std::size_t n) noexcept
     {
-        std::unique_lock<std::mutex> lk(mutex_);
-        capacity_ = n;
+        {
+            std::unique_lock<std::mutex> lk(mutex_);
+            capacity_ = n;
+        }
+        not_full_.notify_all();
     }
 
 private:
-- 
2.43.0


From f513d377da61a1978da6f250ad1d142069359494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:43 +0000
Subject: [PATCH 08/64] fix: a failed construction no longer uses up a place in
 the object_pool

---
 include/dottorrent/object_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/object_pool.hpp b/include/dottorrent/object_pool.hpp
index a3cebee..d05206b 100644
--- a/include/dottorrent/object_pool.hpp
+++ b/include/dottorrent/object_pool.hpp
@@ -122,8 +122,8 @@ private:
             // try to retrieve an unused resource from the pool
             if (queue_.try_pop(resource)) {}
             else if (resources_left_.load(std::memory_order_relaxed) != 0) {
-                resources_left_.fetch_sub(1, std::memory_order_relaxed);
                 resource = std::invoke(Policy::construct);
+                resources_left_.fetch_sub(1, std::memory_order_relaxed);
             } else {
                 queue_.pop(resource);
             }
-- 
2.43.0


From 1dde2d2801ee849862d8ca0ea7764d99ba6750c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:51 +0000
Subject: [PATCH 09/64] fix: concurrent_queue_processor could hang, crash or
 leave workers running on cancellation and destruction

---
 .../dottorrent/concurrent_queue_processor.hpp | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index 78ab969..af4533c 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -74,20 +74,18 @@ public:
     {
         if (!started()) return;
 
-        // Wake threads that remain blocked on pop calls.
-        for  (auto i = 0; i < threads_.size(); ++i) {
-            queue_->push(std::nullopt);
-        }
-
-        // Wake threads that remain blocked on pop calls.
-        for  (auto i = 0; !done() && i < threads_.size(); ++i) {
-            queue_->try_push(std::nullopt);
-            std::this_thread::sleep_for(std::chrono::milliseconds(10));
+        // Wake threads that remain blocked on pop calls until all of them have finished.
+        // Never block on a full queue here: workers that are gone do not make room anymore.
+        while (!all_workers_done()) {
+            for (std::size_t i = 0; i < threads_.size(); ++i) {
+                queue_->try_push(std::nullopt);
+            }
+            std::this_thread::sleep_for(std::chrono::milliseconds(1));
         }
 
         // should all be finished by now and ready to join
         for (auto& t : threads_) {
-            t.join();
+            if (t.joinable()) t.join();
         }
         Expects(done());
     }
@@ -109,9 +107,7 @@ public:
     /// Check if the hasher has completed all work or is cancelled.
     bool done() const noexcept
     {
-        bool all_done = std::all_of(done_.begin(), done_.end(),
-                [](auto& b) { return b.load(std::memory_order_relaxed); });
-        return cancelled() || (started() && all_done);
+        return cancelled() || (started() && all_workers_done());
     }
 
     std::shared_ptr<queue_type> get_queue()
@@ -122,13 +118,20 @@ public:
 
     ~concurrent_queue_processor()
     {
-        if (started() && !done()) {
+        // Workers use the other members: join them before those are destroyed, also when cancelled.
+        if (started()) {
             request_stop();
             wait();
         }
     }
 
 private:
+    bool all_workers_done() const noexcept
+    {
+        return std::all_of(done_.begin(), done_.end(),
+                [](auto& b) { return b.load(std::memory_order_relaxed); });
+    }
+
     void run(std::stop_token stop_token, int thread_idx)
     {
         Ensures(stop_token.stop_possible());
@@ -149,19 +152,16 @@ private:
         // otherwise discard all remaining work
         if (!cancelled_.load(std::memory_order_relaxed)) {
             while (queue_->try_pop(item)) {
+                // wake-up signals can be queued in front of pending tasks
                 if (!item.has_value())
-                    break;
+                    continue;
                 std::invoke(work_function_, std::move(*item));
             }
         }
-        done_[thread_idx] = true;
-
-        // Remaining pieces should all be empty
-        if (queue_->size() != 0) {
-            while (queue_->try_pop(item)) {
-                Ensures(!item.has_value());
-            }
+        else {
+            while (queue_->try_pop(item)) {}
         }
+        done_[thread_idx] = true;
     }
 
     std::vector<std::jthread> threads_;
-- 
2.43.0


From 4a44b39ed9de76697182a89e878c18ebf31d2b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 10/64] fix: announce_url_list returned dangling iterators and
 could be built unsorted; its hashes can be used by containers

---
 include/dottorrent/announce_url.hpp      |  2 +-
 include/dottorrent/announce_url_list.hpp | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/dottorrent/announce_url.hpp b/include/dottorrent/announce_url.hpp
index e176954..1ecbd3d 100644
--- a/include/dottorrent/announce_url.hpp
+++ b/include/dottorrent/announce_url.hpp
@@ -81,7 +81,7 @@ struct tuple_element<N, dottorrent::announce_url> {
 template <>
 class hash<dottorrent::announce_url> {
 public:
-    std::size_t operator()(const dottorrent::announce_url& value) {
+    std::size_t operator()(const dottorrent::announce_url& value) const {
         return std::hash<std::size_t>{}(value.tier) ^ std::hash<std::string>{}(value.url);
     }
 };
diff --git a/include/dottorrent/announce_url_list.hpp b/include/dottorrent/announce_url_list.hpp
index 99c19a0..7091a19 100644
--- a/include/dottorrent/announce_url_list.hpp
+++ b/include/dottorrent/announce_url_list.hpp
@@ -26,12 +26,15 @@ public:
     {
         std::size_t tier = 0;
         for (const auto& level : il) {
+            // empty tiers would leave a gap in the tier range.
+            if (level.size() == 0) continue;
+
+            std::vector<announce_url> tmp {};
             for (const auto& url : level) {
-                std::vector<announce_url> tmp {};
                 tmp.emplace_back(url, tier);
-                rng::sort(tmp, url_comparator);
-                rng::move(tmp, std::back_inserter(announce_list_));
             }
+            std::sort(tmp.begin(), tmp.end());
+            rng::move(tmp, std::back_inserter(announce_list_));
             ++tier;
         }
     }
@@ -114,8 +117,7 @@ public:
         Expects(announce.tier <= tier_count());
 
         auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);
-        announce_list_.insert(it, announce);
-        return it;
+        return announce_list_.insert(it, announce);
     }
 
     auto insert(announce_url&& announce)
@@ -123,8 +125,7 @@ public:
         Expects(announce.tier <= tier_count());
 
         auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);
-        announce_list_.insert(it, std::move(announce));
-        return it;
+        return announce_list_.insert(it, std::move(announce));
     }
 
     auto emplace(std::string_view url, std::size_t tier)
@@ -133,8 +134,7 @@ public:
 
         auto [begin, end] = get_tier(tier);
         auto it = std::upper_bound(begin, end, url, url_comparator);
-        announce_list_.emplace(it, url, tier);
-        return it;
+        return announce_list_.emplace(it, url, tier);
     }
 
     auto erase(iterator pos)
@@ -275,7 +275,7 @@ namespace std
 template <>
 class hash<dottorrent::announce_url_list> {
 public:
-    std::size_t operator()(const dottorrent::announce_url_list& value) {
+    std::size_t operator()(const dottorrent::announce_url_list& value) const {
         std::size_t hash = std::hash<std::size_t>{}(value.size());
 
         for (const dottorrent::announce_url& a: value) {
-- 
2.43.0


From 47a427be95b6c4acfcfe3f5a6ddac78b20281f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:04 +0000
Subject: [PATCH 11/64] fix: a new metafile compared equal or not depending on
 an uninitialised member

---
 include/dottorrent/metafile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/metafile.hpp b/include/dottorrent/metafile.hpp
index 364cb8a..2c2a740 100644
--- a/include/dottorrent/metafile.hpp
+++ b/include/dottorrent/metafile.hpp
@@ -160,7 +160,7 @@ public:
     bool operator==(const metafile& other) const = default;
 
 private:
-    enum protocol protocol_;
+    enum protocol protocol_ = protocol::none;
     file_storage storage_;
 
     announce_url_list announce_list_;
-- 
2.43.0


From b7b4a8f40ec87f475373262bf4c554966701dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:08 +0000
Subject: [PATCH 12/64] fix: creation dates after the year 2262 overflowed the
 nanosecond clock

---
 src/metafile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 5afaff0..546d00b 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -178,7 +178,7 @@ std::chrono::seconds metafile::creation_date() const
 
 // TODO: [c++20] change system_clock to utc_clock for guaranteed unix epoch.
 void metafile::set_creation_date(std::time_t time)
-{ set_creation_date(std::chrono::system_clock::from_time_t(time)); }
+{ creation_date_ = static_cast<std::uint64_t>(time); }
 
 const std::unordered_set<info_hash>& metafile::similar_torrents() const
 { return similar_torrents_; }
-- 
2.43.0


From c93df8ef03d1f8d896e3575acf058219966be910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:08 +0000
Subject: [PATCH 13/64] fix: serialize_json wrote to standard output instead of
 the given stream

---
 src/metafile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 546d00b..1637d6c 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -335,7 +335,7 @@ void save_metafile(const std::filesystem::path& path, const metafile& m, protoco
 /// Write a json representation of the metafile to `os`.
 void serialize_json_to(std::ostream& os, const metafile& m, protocol protocol_version)
 {
-    bencode::events::encode_json_to to_json(std::cout);
+    bencode::events::encode_json_to to_json(os);
     if (protocol_version == protocol::v1) {
         bc::connect(to_json, detail::make_bvalue_v1(m));
     }
-- 
2.43.0


From f38f9cfdf844669b1d6a4d949bb522d6605bb82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:39 +0000
Subject: [PATCH 14/64] fix: merkle_tree assignment, has_root and
 get_node_range could not be used

---
 include/dottorrent/merkle_tree.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 94eed2e..fffdd20 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -51,10 +51,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = other.data_;
+        return *this;
     }
 
     merkle_tree& operator=(merkle_tree&& other) noexcept
@@ -62,10 +63,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = std::move(other.data_);
+        return *this;
     }
 
     /// Set the number of leaf nodes and initialize them to `value`
@@ -84,7 +86,7 @@ public:
     }
 
     /// Return true if the merkle root is set.
-    const value_type& has_root()
+    bool has_root() const
     {
         return data_[0] != value_type{};
     }
@@ -186,7 +188,7 @@ public:
         std::shared_lock lck{mutex_};
         auto d_first = get_flat_index(layer, first);
         auto d_last = get_flat_index(layer, last);
-        return std::span(&data_[d_first], &data_[d_last]);
+        return std::span<const value_type>(data_.data() + d_first, d_last - d_first);
     }
 
     const value_type& get_leaf(std::size_t index) const
-- 
2.43.0


From 5f6aa3c1d47834f5c888ff5313765d160a370294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:30 +0000
Subject: [PATCH 15/64] fix: copies of a file_storage lost the file mode and
 could use a stale or uninitialised index

---
 include/dottorrent/file_storage.hpp | 3 ++-
 src/file_storage.cpp                | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index 4327bf4..e032302 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -96,6 +96,7 @@ public:
         index_valid_ = false;
         files_.clear();
         total_file_size_ = 0;
+        total_regular_file_size_ = 0;
     }
 
     const file_entry& operator[](std::size_t index) const noexcept
@@ -260,7 +261,7 @@ private:
     std::vector<sha1_hash> pieces_ {};
     std::mutex pieces_mutex_ {};
 
-    mutable bool index_valid_;
+    mutable bool index_valid_ = false;
     mutable std::vector<std::size_t> files_index_;
 };
 
diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index b4539d3..f8a3ed2 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -4,8 +4,10 @@ namespace dottorrent {
 
 file_storage::file_storage(const file_storage& other)
     : total_file_size_(other.total_file_size_)
+    , total_regular_file_size_(other.total_regular_file_size_)
     , piece_size_(other.piece_size_)
     , root_directory_(other.root_directory_)
+    , file_mode_(other.file_mode_)
     , files_(other.files_)
     , pieces_(other.pieces_)
     {}
@@ -14,10 +16,13 @@ file_storage& file_storage::operator=(const file_storage& other)
 {
     if (&other == this) return *this;
     total_file_size_ = other.total_file_size_;
+    total_regular_file_size_ = other.total_regular_file_size_;
     piece_size_ = other.piece_size_;
     root_directory_ = other.root_directory_;
+    file_mode_ = other.file_mode_;
     files_ = other.files_;
     pieces_ = other.pieces_;
+    index_valid_ = false;
 
     return *this;
 }
-- 
2.43.0


From 36e56241cd4b608bcf4fe4803f3b567481b74e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:30 +0000
Subject: [PATCH 16/64] fix: get_pieces_offsets missed the last piece of a file
 that is not aligned to pieces

---
 src/file_storage.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index f8a3ed2..d70ae4d 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -216,8 +216,11 @@ std::pair<std::size_t, std::size_t> file_storage::get_pieces_offsets(std::size_t
             [&](const file_entry& e) { return e.file_size(); });
 
     auto offset = cumulative_size / piece_size_;
-    auto count = (entry.file_size() + piece_size_ - 1) / piece_size_;
-    return {offset, offset+count};
+    if (entry.file_size() == 0) return {offset, offset};
+
+    // one past the piece with the last byte of the file, which does not have to start on a piece boundary.
+    auto last = (cumulative_size + entry.file_size() + piece_size_ - 1) / piece_size_;
+    return {offset, last};
 }
 
 void file_storage::set_piece_hash(std::size_t index, const sha1_hash& hash)
-- 
2.43.0


From cfd87b746f4300b53771afd10f1dc02ee80baab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:30 +0000
Subject: [PATCH 17/64] fix: optimize_alignment broke the alignment of storages
 with padding files and crashed without files

---
 src/file_storage.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index d70ae4d..2c2c7cf 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -443,30 +443,27 @@ void optimize_alignment(file_storage& storage)
 
     const std::size_t piece_size = storage.piece_size();
 
-    std::size_t total_padding_bytes = 0;
+    std::size_t bytes_offset = 0;
     std::vector<file_entry> aligned_entries {};
 
-    for (std::size_t i = 0; i < storage.file_count()-1; ++i) {
-        auto& entry = storage[i];
-        auto size = entry.file_size();
-        aligned_entries.push_back(std::move(entry));
-
-        auto bytes_till_next_piece = piece_size - (size % piece_size);
+    for (auto& entry : storage) {
+        auto bytes_past_piece = bytes_offset % piece_size;
 
-        Expects(bytes_till_next_piece != 0);
-        if (bytes_till_next_piece != piece_size) [[likely]] {
-            aligned_entries.push_back(make_padding_file_entry(bytes_till_next_piece));
-            total_padding_bytes += bytes_till_next_piece;
+        // padding files that are already present stay where they are.
+        if (bytes_past_piece != 0 && !entry.is_padding_file()) {
+            auto padding_size = piece_size - bytes_past_piece;
+            aligned_entries.push_back(make_padding_file_entry(padding_size));
+            bytes_offset += padding_size;
         }
+        bytes_offset += entry.file_size();
+        aligned_entries.push_back(std::move(entry));
     }
-    // add the last file
-    aligned_entries.push_back(std::move(storage.back()));
 
     // clear old storage and set new
     storage.clear();
     storage.add_files(aligned_entries.begin(), aligned_entries.end());
 
-    Ensures(storage.total_file_size() == storage.total_regular_file_size() + total_padding_bytes);
+    Ensures(storage.total_file_size() == bytes_offset);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From dc5d520717760afb852495e0a60bd6cb72a45319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:30 +0000
Subject: [PATCH 18/64] fix: directory_contents and directory_count confused
 directories with a common name prefix or the same last component

---
 src/file_storage.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 2c2c7cf..f95fd17 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -2,6 +2,18 @@
 
 namespace dottorrent {
 
+/// Check if path has all components of directory, in order. The empty path is the root directory.
+static bool is_inside_directory(const fs::path& path, const fs::path& directory)
+{
+    auto it = path.begin();
+    for (const auto& component : directory) {
+        if (component.empty()) continue;      // trailing separator
+        if (it == path.end() || *it != component) return false;
+        ++it;
+    }
+    return true;
+}
+
 file_storage::file_storage(const file_storage& other)
     : total_file_size_(other.total_file_size_)
     , total_regular_file_size_(other.total_regular_file_size_)
@@ -257,12 +269,11 @@ void file_storage::index() const {
 
 std::vector<const file_entry*> file_storage::directory_contents(const fs::path& directory) const {
     if (!index_valid()) { index(); }
-    auto directory_string = directory.string();
 
     auto first = rng::lower_bound(files_index_, directory, std::ranges::less{},
             [this](std::size_t index) { return files_[index].path(); });
     auto last = rng::find_if_not(first, files_index_.end(), [&, this](std::size_t index) {
-        return files_[index].path().string().starts_with(directory_string);
+        return is_inside_directory(files_[index].path(), directory);
     });
 
     std::vector<const file_entry*> results;
@@ -304,10 +315,8 @@ std::size_t directory_count(const file_storage& storage, const fs::path& root, b
     std::set<std::string> directories {};
     std::set<std::string> padding_dir_candidates {};
 
-    auto root_string = root.string();
-
     for (const auto& f : storage) {
-        if (!root.empty() && !f.path().string().starts_with(root_string)) {
+        if (!is_inside_directory(f.path(), root)) {
             continue;
         }
 
@@ -317,7 +326,8 @@ std::size_t directory_count(const file_storage& storage, const fs::path& root, b
         auto last = std::next(f.path().end(), -1);
 
         while (it != last) {
-            auto dir = (current_dir / *it).string();
+            current_dir /= *it;
+            auto dir = current_dir.string();
             directories.emplace(dir);
             if (is_padding_dir_candidate) { padding_dir_candidates.emplace(dir); }
             it++;
-- 
2.43.0


From e9362d00e6dbcf5aee657ea55f21978104a3dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:51 +0000
Subject: [PATCH 19/64] fix: set_piece_size clears the piece hashes and piece
 layers, as documented

---
 src/file_storage.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index f95fd17..aba8d2f 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -146,6 +146,14 @@ void file_storage::set_piece_size(std::size_t size) {
     Expects(std::has_single_bit(size));       // size must be a power of two
 
     piece_size_ = size;
+
+    // hashes of pieces with another size are useless.
+    pieces_.clear();
+    for (auto& entry : files_) {
+        entry.has_v2_data_ = false;
+        entry.pieces_root_ = {};
+        entry.piece_layer_.clear();
+    }
 }
 
 void file_storage::allocate_pieces()
-- 
2.43.0


From bbb0bf3778cdb1b8a6a4021c0ac7e283da96fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:51 +0000
Subject: [PATCH 20/64] fix: a storage with one file and no explicit file mode
 reported to be empty

---
 src/file_storage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index aba8d2f..59407f0 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -105,7 +105,9 @@ file_mode file_storage::file_mode() const noexcept
     if (fc == 0) return file_mode::empty;
     // one file
     if (fc == 1) {
-        return file_mode_;
+        if (file_mode_ != file_mode::empty) return file_mode_;
+        // no mode was set: a file inside a directory needs a file list.
+        return files_.front().path().has_parent_path() ? file_mode::multi : file_mode::single;
     }
     // more then one file
     return file_mode::multi;
-- 
2.43.0


From b79ba027213e0a36902cd292456b51132dda9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:51 +0000
Subject: [PATCH 21/64] fix: a root directory given with a trailing separator
 resulted in an empty torrent name

---
 src/file_storage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 59407f0..3c4ee53 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -53,6 +53,10 @@ void file_storage::set_root_directory(const fs::path& root)
 {
     Ensures(fs::exists(root));
     root_directory_ = fs::absolute(root).lexically_normal();
+    // drop a trailing separator: the last component is the default name of the torrent.
+    if (!root_directory_.has_filename()) {
+        root_directory_ = root_directory_.parent_path();
+    }
 }
 
 void file_storage::add_file(const file_entry& file)
-- 
2.43.0


From 85886977b9735c263049a3b521a89e21d3aa88bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:51 +0000
Subject: [PATCH 22/64] fix: file_entry lost checksums on move assignment, kept
 outdated ones and could not remove them

---
 include/dottorrent/file_entry.hpp | 2 +-
 src/file_entry.cpp                | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dottorrent/file_entry.hpp b/include/dottorrent/file_entry.hpp
index f3c9f83..2406afc 100644
--- a/include/dottorrent/file_entry.hpp
+++ b/include/dottorrent/file_entry.hpp
@@ -83,7 +83,7 @@ public:
     {
         std::unique_lock lck{checksum_mutex_};
         if (auto it = checksums_.find(algorithm); it != checksums_.end()) {
-            checksums_.erase(*it);
+            checksums_.erase(it);
         }
     }
 
diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index ffd1b47..077a43b 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -94,7 +94,7 @@ file_entry& file_entry::operator=(file_entry&& other) noexcept
     attributes_ = other.attributes_;
     symlink_path_ = std::move(other.symlink_path_);
     last_modified_time_ = other.last_modified_time_;
-    checksums_ = std::move(checksums_);
+    checksums_ = std::move(other.checksums_);
     has_v2_data_ = other.has_v2_data_;
 
     return *this;
@@ -205,7 +205,8 @@ const checksum* file_entry::get_checksum(hash_function algorithm) const {
 void file_entry::add_checksum(std::unique_ptr<checksum> value)
 {
     std::unique_lock lck{checksum_mutex_};
-    checksums_.emplace(std::string(value->name()), std::move(value));
+    auto name = std::string(value->name());
+    checksums_.insert_or_assign(std::move(name), std::move(value));
 }
 
 const file_entry::checksum_map& file_entry::checksums() const
-- 
2.43.0


From 1d2ea1b48beeba834ac96994938ca54313a19fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:13 +0000
Subject: [PATCH 23/64] fix: make_file_entry accepted files outside of the root
 directory and refused names starting with two dots

---
 src/file_entry.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 077a43b..ccfff95 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -245,9 +245,8 @@ std::strong_ordering file_entry::operator<=>(const file_entry& rhs) const noexce
 
 file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_options options)
 {
-    if (!file.is_absolute()) {
-        file = fs::absolute(file);
-    }
+    // without dot-dot components, so that the check below cannot be fooled.
+    file = fs::absolute(file).lexically_normal();
 
     if (!fs::exists(file))
         throw std::invalid_argument("file does not exist");
@@ -257,7 +256,7 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
 
     fs::path relative_file = file.lexically_relative(root_directory);
 
-    if (relative_file.generic_string().starts_with(".."))
+    if (relative_file.empty() || *relative_file.begin() == "..")
         throw std::invalid_argument("file or symlink not located inside root_directory");
 
     fs::directory_entry de {file};
-- 
2.43.0


From bd13ad48aa0fe70e5be5d718ebdc9f87773d8e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:23 +0000
Subject: [PATCH 24/64] fix: symlinks are only copied when asked for, may point
 to directories, and their targets are relative to the root directory

---
 src/file_entry.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index ccfff95..ceff1cf 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -260,7 +260,9 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
         throw std::invalid_argument("file or symlink not located inside root_directory");
 
     fs::directory_entry de {file};
-    std::size_t file_size = de.file_size();
+    const bool copy_symlink = (options & file_options::copy_symlinks) == file_options::copy_symlinks && de.is_symlink();
+    // file size of symlinks should be 0 for backward compatibility
+    std::size_t file_size = copy_symlink ? 0 : de.file_size();
     std::optional<file_attributes> attributes = std::nullopt;
     std::optional<fs::path> symlink_path = std::nullopt;
 
@@ -285,13 +287,10 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     }
 
     // Copy symlinks as symlinks
-    if ((options & file_options::copy_symlinks) != file_options::none) {
-        if (de.is_symlink()) {
-            *attributes |= file_attributes::symlink;
-            symlink_path = fs::read_symlink(file);
-            // file size of symlinks should be 0 for backward compatibility
-            file_size = 0;
-        }
+    if (copy_symlink) {
+        *attributes |= file_attributes::symlink;
+        // relative to the torrent root directory
+        symlink_path = (file.parent_path() / fs::read_symlink(file)).lexically_normal().lexically_relative(root_directory);
     }
 
     return {std::move(relative_file), file_size,
-- 
2.43.0


From bb827aa19fc1c68ea059e78908c0c939ca0c47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:28 +0000
Subject: [PATCH 25/64] fix: hybrid info hashes that differ in the v1 hash only
 were ordered as equal

---
 include/dottorrent/info_hash.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dottorrent/info_hash.hpp b/include/dottorrent/info_hash.hpp
index 7a1e1c1..2990ca2 100644
--- a/include/dottorrent/info_hash.hpp
+++ b/include/dottorrent/info_hash.hpp
@@ -139,10 +139,10 @@ public:
             return protocol_version_ <=> other.protocol_version_;
         }
 
-        if (protocol_version_ == protocol::v1) {
-            return v1_hash_ <=> other.v1_hash_;
+        if (auto cmp = v2_hash_ <=> other.v2_hash_; cmp != std::strong_ordering::equal) {
+            return cmp;
         }
-        return v2_hash_ <=> other.v2_hash_;
+        return v1_hash_ <=> other.v1_hash_;
     }
 
 
-- 
2.43.0


From a8839ff960a4c19c81433e46fd5ca3b2a64219f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:28 +0000
Subject: [PATCH 26/64] fix: announce lists with empty tiers or repeated urls
 terminated the program

---
 src/metafile_parsing.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 8a64d07..8a77943 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -24,17 +24,16 @@ void parse_announce(const T& data, metafile& m)
     // parse_file announce-url
     try {
         if (auto it = dict.find(list_key); it != dict.end()) {
-            std::size_t tier = 0;
-
             for (const auto& e : get_list(it->second)) {
-                std::size_t item = 0;
+                // empty tiers are skipped and duplicates stay in the first tier they appear in.
+                const auto tier = m.trackers().tier_count();
 
                 for (const auto& a : get_list(e)) {
                     const auto& s = get_string(a);
-                    m.add_tracker(announce_url{s, tier});
-                    ++item;
+                    if (m.trackers().find(std::string_view(s)) == m.trackers().end()) {
+                        m.add_tracker(announce_url{s, tier});
+                    }
                 }
-                ++tier;
             }
         }
     } catch (const bencode::bad_access& e) {
-- 
2.43.0


From 0efb5e24f9892dc6d881ba96999d6df150610bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:28 +0000
Subject: [PATCH 27/64] fix: negative private flags and malformed dht nodes are
 parse errors

---
 src/metafile_parsing.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 8a77943..911377a 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -80,7 +80,7 @@ void parse_private(const T& data, metafile& m)
     try {
         if (const auto it = info_dict.find(key); it != info_dict.end()) {
             const auto v = get_integer(it->second);
-            if (v > 1) {
+            if (v < 0 || v > 1) {
                 throw parse_error(key, fmt::format("expected integer equal to '0' or '1'"));
             }
             m.set_private(bool(v));
@@ -212,10 +212,14 @@ void parse_dht_nodes(const T& data, metafile& m)
             const auto desc = bc::get_list(it->second);
             for (const auto& c : desc) {
                 const auto& tuple = bc::get_list(c);
-                Expects(tuple.size() == 2);
-                m.add_dht_node(
-                        get_string(tuple[0]),
-                        get_integer(tuple[1]));
+                if (tuple.size() != 2) {
+                    throw parse_error(key, "expected a list with a host and a port");
+                }
+                const auto port = get_integer(tuple[1]);
+                if (port < 0 || port > std::numeric_limits<std::uint16_t>::max()) {
+                    throw parse_error(key, "invalid port number");
+                }
+                m.add_dht_node(get_string(tuple[0]), static_cast<std::uint16_t>(port));
             }
         }
     } catch (bencode::bad_access& e) {
-- 
2.43.0


From e621d1fec0b1e06881b5e4af7332cf83206ef654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:28 +0000
Subject: [PATCH 28/64] fix: file paths of a torrent could lead outside of its
 root directory

---
 src/metafile_parsing.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 911377a..f4bbbd4 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -362,15 +362,25 @@ void parse_other_info_fields(const T& data, metafile& m)
     }
 }
 
+/// A component of a path may not lead outside of the directory it is used in.
+static std::string_view check_path_component(std::string_view component)
+{
+    if (component == ".." || component.find('/') != std::string_view::npos) {
+        throw parse_error("path", fmt::format("invalid path component: \"{}\"", component));
+    }
+    return component;
+}
+
 template <bc::bvalue_or_bview T>
 fs::path parse_path(const T& data)
 {
-    Expects(holds_list(data));
-
     fs::path p{};
-    auto& blist = get_list(data);
-    for (auto& path_component : blist) {
-        p /= bc::get_as<std::string_view>(path_component);
+    const auto& blist = get_list(data);
+    for (const auto& path_component : blist) {
+        p /= check_path_component(bc::get_as<std::string_view>(path_component));
+    }
+    if (p.empty()) {
+        throw parse_error("path", "empty path");
     }
     return p;
 }
@@ -411,7 +421,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
         if (name_field_it == file_dict.end()) {
             throw parse_error("name", "missing file name");
         }
-        path = bencode::get_as<std::string_view>(name_field_it->second);
+        path = check_path_component(bencode::get_as<std::string_view>(name_field_it->second));
     }
 
     auto length_field_it = file_dict.find("length");
@@ -579,13 +589,16 @@ void parse_file_tree_v2(const T& data, metafile& m, OutputIterator out)
                 for (const auto& component : path_components) {
                     file_path.append(component);
                 }
+                if (path_components.size() < 2) {
+                    throw parse_error("file tree", "file without a name");
+                }
                 // file_entry paths are relative -> remove the root path componenet
                 auto entry = parse_file_entry_v2(it->second, file_path.relative_path());
                 *out++ = std::move(entry);
             }
             else {
                 frames.push(frame_type(value, value.begin()));
-                path_components.push_back(std::string(key));
+                path_components.push_back(std::string(check_path_component(key)));
             }
             ++it;
         } else {
-- 
2.43.0


From fad500a11f8b192a1b3208fb8f14369b6c2129d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:56 +0000
Subject: [PATCH 29/64] fix: symlinks were read from another key than they are
 written to; negative file sizes are parse errors

---
 src/metafile_parsing.cpp | 49 ++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index f4bbbd4..797ec4a 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -403,6 +403,36 @@ std::optional<file_attributes> parse_file_attributes(const T& data)
 }
 
 
+template <bc::bvalue_or_bview T>
+static std::size_t parse_file_size(const T& data)
+{
+    const auto size = get_integer(data);
+    if (size < 0) {
+        throw parse_error("length", "negative file size");
+    }
+    return static_cast<std::size_t>(size);
+}
+
+/// Return the target of a symlink and verify that it is consistent with the file attributes.
+template <bc::bvalue_or_bview T>
+static std::optional<fs::path> parse_symlink_path(
+        const T& data, const std::optional<file_attributes>& attributes, std::size_t size)
+{
+    constexpr auto key = "symlink path"sv;
+    const bool is_symlink = attributes && (*attributes & file_attributes::symlink) == file_attributes::symlink;
+    if (!is_symlink) return std::nullopt;
+
+    const auto& file_dict = get_dict(data);
+    auto it = file_dict.find(key);
+    if (it == file_dict.end()) {
+        throw parse_error(key, "missing target of symlink");
+    }
+    if (size != 0) {
+        throw parse_error(key, "size of a symlink must be zero");
+    }
+    return parse_path(it->second);
+}
+
 template <bc::bvalue_or_bview T>
 auto parse_file_entry_v1(const T& data) -> file_entry
 {
@@ -422,23 +452,22 @@ auto parse_file_entry_v1(const T& data) -> file_entry
             throw parse_error("name", "missing file name");
         }
         path = check_path_component(bencode::get_as<std::string_view>(name_field_it->second));
+        if (path.empty()) {
+            throw parse_error("name", "empty file name");
+        }
     }
 
     auto length_field_it = file_dict.find("length");
     if (length_field_it == file_dict.end()) {
         throw parse_error("name", "missing file size");
     }
-    std::size_t size = bencode::get_integer(length_field_it->second);
+    std::size_t size = parse_file_size(length_field_it->second);
 
     // file attributes
     std::optional<file_attributes> attributes = parse_file_attributes(data);
 
     // symlinks
-    std::optional<fs::path> symlink = std::nullopt;
-
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
-    }
+    std::optional<fs::path> symlink = parse_symlink_path(data, attributes, size);
 
     file_entry entry(std::move(path), size, attributes, symlink);
 
@@ -471,7 +500,7 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     if (length_field_it == file_dict.end()) {
         throw parse_error("name", "missing file size");
     }
-    std::size_t size = get_integer(length_field_it->second);
+    std::size_t size = parse_file_size(length_field_it->second);
 
     std::optional<sha256_hash> pieces_root;
     auto pieces_root_it = file_dict.find("pieces root");
@@ -489,11 +518,7 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     std::optional<file_attributes> attributes = parse_file_attributes(data);
 
     // symlink
-    std::optional<fs::path> symlink = std::nullopt;
-
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
-    }
+    std::optional<fs::path> symlink = parse_symlink_path(data, attributes, size);
 
     file_entry entry(path, size, attributes, symlink);
     if (pieces_root) {
-- 
2.43.0


From 8bb4763d5d52acf8c420da2aed19278e616c232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:56 +0000
Subject: [PATCH 30/64] fix: torrents with inconsistent or missing fields
 terminated the program instead of being refused

---
 src/metafile_parsing.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 797ec4a..59156d4 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -663,6 +663,9 @@ void parse_file_list_and_tree_hybrid(const T& data, metafile& m)
 
     for (auto& v2_entry : v2_entries) {
         auto it = std::find_if(storage.begin(), storage.end(), std::bind_front(path_comparator, v2_entry));
+        if (it == storage.end() || it->file_size() != v2_entry.file_size()) {
+            throw parse_error("file tree", "files do not match the v1 file list");
+        }
         // empty files can ommit the pieces root
         if (v2_entry.file_size() > 0) {
             it->set_pieces_root(v2_entry.pieces_root());
@@ -686,6 +689,9 @@ void parse_pieces_v1(const T& data, metafile& m)
         auto piece_string = get_string(it->second);
         auto piece_count = piece_string.size() / 20;
 
+        if (piece_string.size() % 20 != 0 || piece_count != storage.piece_count()) {
+            throw parse_error("pieces", "number of pieces does not match the size of the files");
+        }
         storage.allocate_pieces();
 
         for (std::size_t idx = 0; idx < piece_count; ++idx) {
@@ -709,7 +715,11 @@ void parse_piece_size(const T& data, metafile& m)
     auto& storage = m.storage();
 
     if (auto it = info_dict.find("piece length"); it!=info_dict.end()) {
-        storage.set_piece_size(get_integer(it->second));
+        const auto piece_size = get_integer(it->second);
+        if (piece_size < static_cast<std::int64_t>(16_KiB) || !std::has_single_bit(static_cast<std::uint64_t>(piece_size))) {
+            throw parse_error("piece length", "expected a power of two of at least 16 KiB");
+        }
+        storage.set_piece_size(static_cast<std::size_t>(piece_size));
     }
     else {
         throw parse_error("info", "missing required field \"piece length\"");
@@ -744,6 +754,9 @@ void parse_piece_layers_v2(const T& data, metafile& m)
             std::vector<sha256_hash> layers;
             std::string_view layer_string = get_string(it2->second);
 
+            if (layer_string.size() != div_ceil(f.file_size(), storage.piece_size()) * sha256_hash::size_bytes) {
+                throw parse_error(key, "size of a piece layer does not match the size of the file");
+            }
             for (std::size_t idx = 0; idx < layer_string.size(); idx += sha256_hash::size_bytes) {
                 layers.emplace_back(layer_string.substr(idx, sha256_hash::size_bytes));
             }
@@ -877,6 +890,15 @@ namespace bc = bencode;
 template<bc::bvalue_or_bview T>
 metafile parse_metafile(const T& data)
 {
+    if (!holds_dict(data)) {
+        throw parse_error("torrent", "expected dict");
+    }
+    const auto& dict = get_dict(data);
+    auto info_it = dict.find("info");
+    if (info_it == dict.end() || !holds_dict(info_it->second)) {
+        throw parse_error("info", "expected dict");
+    }
+
     metafile m{};
     // parse the protocol header to determine if we have v1 or v2.
     auto protocol = detail::parse_protocol(data);
-- 
2.43.0


From a09e292f9198bc15b5aba29966fa4854ac16c270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 31/64] fix: file lists with entries that are no dictionaries,
 too large, or missing from the file tree are parse errors

---
 src/metafile_parsing.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 59156d4..49a7b91 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -436,7 +436,9 @@ static std::optional<fs::path> parse_symlink_path(
 template <bc::bvalue_or_bview T>
 auto parse_file_entry_v1(const T& data) -> file_entry
 {
-    Expects(holds_dict(data));
+    if (!holds_dict(data)) {
+        throw parse_error("files", "expected dict");
+    }
 
     const auto& file_dict = get_dict(data);
     fs::path path {};
@@ -541,6 +543,16 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
 }
 
 
+/// Add a file and verify that the total file size can be represented.
+static void add_file(file_storage& storage, file_entry&& entry)
+{
+    constexpr auto max_size = static_cast<std::size_t>(std::numeric_limits<std::int64_t>::max());
+    if (entry.file_size() > max_size - storage.total_file_size()) {
+        throw parse_error("length", "total file size too large");
+    }
+    storage.add_file(std::move(entry));
+}
+
 template <bc::bvalue_or_bview T>
 void parse_file_list_v1(const T& data, metafile& m)
 {
@@ -559,13 +571,13 @@ void parse_file_list_v1(const T& data, metafile& m)
         if (const auto it = info_dict.find(key); it != info_dict.end()) {
             const auto& l = get_list(it->second);
             for (auto f : l) {
-                storage.add_file(parse_file_entry_v1(f));
+                add_file(storage, parse_file_entry_v1(f));
             }
             storage.set_file_mode(file_mode::multi);
         }
         // single file torrent
         else {
-            storage.add_file(parse_file_entry_v1(dict.at("info")));
+            add_file(storage, parse_file_entry_v1(dict.at("info")));
             storage.set_file_mode(file_mode::single);
         }
     }
@@ -641,7 +653,7 @@ void parse_file_tree_v2(const T& data, metafile& m)
 
     auto& storage = m.storage();
     for (auto&& r: results) {
-        storage.add_file(std::move(r));
+        add_file(storage, std::move(r));
     }
 }
 
@@ -671,6 +683,13 @@ void parse_file_list_and_tree_hybrid(const T& data, metafile& m)
             it->set_pieces_root(v2_entry.pieces_root());
         }
     }
+
+    for (const auto& entry : storage) {
+        if (entry.is_padding_file() || entry.file_size() == 0) continue;
+        if (!entry.has_v2_data()) {
+            throw parse_error("file tree", "files do not match the v1 file list");
+        }
+    }
 };
 
 
-- 
2.43.0


From a3105d32e10682ac753bfe9858621e30f42206aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 32/64] fix: attributes and checksums of single-file torrents
 were not written

---
 src/metafile_serialization.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index e209a50..cc5eae7 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -8,6 +8,20 @@
 
 namespace dottorrent::detail {
 
+/// Add the optional fields of the file of a single-file torrent to the info dict.
+static void insert_file_fields(bencode::bvalue::dict_type& info, const file_entry& file)
+{
+    if (file.attributes()) {
+        info.insert_or_assign("attr", file.attributes().value());
+    }
+    if (file.is_symlink()) {
+        info.insert_or_assign("symlink path", file.symlink_path().value());
+    }
+    for (const auto& [algo, checksum] : file.checksums()) {
+        info.insert_or_assign(algo, checksum->value());
+    }
+}
+
 bencode::bvalue make_bvalue_infodict_v1(const metafile& m)
 {
     bencode::bvalue binfo(bc::btype::dict);
@@ -18,6 +32,7 @@ bencode::bvalue make_bvalue_infodict_v1(const metafile& m)
         auto& file = storage.at(0);
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+        insert_file_fields(info, file);
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
@@ -163,6 +178,7 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
         auto& file = storage[0];
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+        insert_file_fields(info, file);
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
-- 
2.43.0


From 1f0b4e1d74b5e040093f6dc514a420661e28ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 33/64] fix: single-file v2 and hybrid torrents got the name of
 the directory instead of the name of the file

---
 src/metafile_parsing.cpp       |  3 +++
 src/metafile_serialization.cpp | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 49a7b91..e907d05 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -655,6 +655,9 @@ void parse_file_tree_v2(const T& data, metafile& m)
     for (auto&& r: results) {
         add_file(storage, std::move(r));
     }
+    // a single-file torrent has one file with the name of the torrent.
+    const bool is_single = storage.file_count() == 1 && storage.at(0).path() == m.name();
+    storage.set_file_mode(is_single ? file_mode::single : file_mode::multi);
 }
 
 template <bc::bvalue_or_bview T>
diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index cc5eae7..980053e 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -95,7 +95,10 @@ bencode::bvalue make_bvalue_infodict_v2(const metafile& m)
     auto& info = get_dict(binfo);
     const auto& storage = m.storage();
 
-    if (m.name().empty()) {
+    if (storage.file_mode() == file_mode::single) {
+        info.insert_or_assign("name", storage.at(0).path().filename().string());
+    }
+    else if (m.name().empty()) {
         info.insert_or_assign("name", storage.root_directory().filename().string());
     }
     else {
@@ -250,11 +253,14 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
 
     info.insert_or_assign("file tree", std::move(bfile_tree));
 
-    if (m.name().empty()) {
-        info.insert_or_assign("name", storage.root_directory().filename().string());
-    }
-    else {
-        info.insert_or_assign("name", m.name());
+    // the name of a single-file torrent is the name of the file.
+    if (storage.file_mode() != file_mode::single) {
+        if (m.name().empty()) {
+            info.insert_or_assign("name", storage.root_directory().filename().string());
+        }
+        else {
+            info.insert_or_assign("name", m.name());
+        }
     }
 
     info.insert_or_assign("piece length", storage.piece_size());
-- 
2.43.0


From a4da0220ce09f93008dbfca635f5a873d3c72379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 34/64] fix: v2 metafiles could not be written from a storage
 with padding files

---
 src/metafile_serialization.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index 980053e..8a85414 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -114,6 +114,10 @@ bencode::bvalue make_bvalue_infodict_v2(const metafile& m)
 
     auto ptr = &file_tree;
     for (const auto& file : storage) {
+        // padding files are only for v1
+        if (file.is_padding_file())
+            continue;
+
         for (const auto& component : file.path()) {
             if (auto it = ptr->find(component); it != ptr->end()) {
                 ptr = &get_dict(it->second);
@@ -369,7 +373,7 @@ bencode::bvalue make_bvalue_v2(const dottorrent::metafile& m)
 
     std::size_t f_idx = 0;
     for (const auto& file: storage) {
-        if (file.file_size() > storage.piece_size()) {
+        if (file.file_size() > storage.piece_size() && !file.is_padding_file()) {
             piece_layers.insert_or_assign(
                     std::string(std::string_view(file.pieces_root())),
                     make_v2_piece_layers_string(file));
@@ -398,7 +402,7 @@ bencode::bvalue make_bvalue_hybrid(const metafile& m)
 
     std::size_t f_idx = 0;
     for (const auto& file: storage) {
-        if (file.file_size() > storage.piece_size()) {
+        if (file.file_size() > storage.piece_size() && !file.is_padding_file()) {
             piece_layers.insert_or_assign(
                     std::string(std::string_view(file.pieces_root())),
                     make_v2_piece_layers_string(file));
-- 
2.43.0


From 84750b2deaa389d6896d60a939b69b89f90d6408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 35/64] fix: writing the pieces string reserved memory in
 proportion to the piece size

---
 src/file_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 3c4ee53..9f13830 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -422,7 +422,7 @@ auto absolute_file_paths(const file_storage& storage) -> std::vector<fs::path>
 std::string make_v1_pieces_string(const file_storage& storage)
 {
     std::string pieces_string{};
-    pieces_string.reserve(storage.piece_size() * sha1_hash::size());
+    pieces_string.reserve(storage.pieces().size() * sha1_hash::size());
     for (const auto& p: storage.pieces()) {
         pieces_string.append(std::string_view(p));
     }
-- 
2.43.0


From f3bd584dd17cfa09643f6c92f33a7ddfa6668760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 36/64] fix: checksums and attributes of a single-file torrent
 were also kept as unknown info fields

---
 src/metafile_parsing.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index e907d05..34dd745 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -355,9 +355,12 @@ void parse_other_info_fields(const T& data, metafile& m)
         "source"sv,
     };
 
+    // the info dict of a single-file torrent has the fields of the file.
+    const bool is_single_file = info_dict.find("length"sv) != info_dict.end();
+
     for (const auto& [k, v] : info_dict) {
-        auto tmp = std::string(k);
         if (known_keys.contains(k)) continue;
+        if (is_single_file && (k == "attr"sv || k == "symlink path"sv || is_hash_function_name(k))) continue;
         m.other_info_fields().insert_or_assign(std::string(k), v);
     }
 }
-- 
2.43.0


From 457ffc5956c0619dd867799ef9732461772f9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:26 +0000
Subject: [PATCH 37/64] fix: a piece layer that is missing from a torrent was
 written as an empty one, which cannot be read

---
 src/metafile_serialization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index 8a85414..7f87d92 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -373,7 +373,7 @@ bencode::bvalue make_bvalue_v2(const dottorrent::metafile& m)
 
     std::size_t f_idx = 0;
     for (const auto& file: storage) {
-        if (file.file_size() > storage.piece_size() && !file.is_padding_file()) {
+        if (file.file_size() > storage.piece_size() && !file.is_padding_file() && !file.piece_layer().empty()) {
             piece_layers.insert_or_assign(
                     std::string(std::string_view(file.pieces_root())),
                     make_v2_piece_layers_string(file));
@@ -402,7 +402,7 @@ bencode::bvalue make_bvalue_hybrid(const metafile& m)
 
     std::size_t f_idx = 0;
     for (const auto& file: storage) {
-        if (file.file_size() > storage.piece_size() && !file.is_padding_file()) {
+        if (file.file_size() > storage.piece_size() && !file.is_padding_file() && !file.piece_layer().empty()) {
             piece_layers.insert_or_assign(
                     std::string(std::string_view(file.pieces_root())),
                     make_v2_piece_layers_string(file));
-- 
2.43.0


From 79e702d9fca49a8e208f1c16b4bfc16f206e1459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:13 +0000
Subject: [PATCH 38/64] fix: hybrid torrents got wrong v1 hashes when a file is
 followed by the last padding file, or terminated the program

---
 src/v2_chunk_hasher_sb.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/v2_chunk_hasher_sb.cpp b/src/v2_chunk_hasher_sb.cpp
index 3b49665..c8a34a3 100644
--- a/src/v2_chunk_hasher_sb.cpp
+++ b/src/v2_chunk_hasher_sb.cpp
@@ -106,11 +106,9 @@ void v2_chunk_hasher_sb::hash_chunk(single_buffer_hasher& sha256_hasher, single_
         }
 
         // we have an incomplete final piece so we have the last piece of a file.
-        // we need to pad with zeros in case it is not the last file in the torrent
+        // we need to pad with zeros in case it is followed by a padding file
         if (needs_padding) {
-            if (chunk.file_index+1 < storage.file_count()-1) {
-                const auto& entry = storage.at(chunk.file_index+1);
-                Expects(entry.is_padding_file());
+            if (chunk.file_index+1 < storage.file_count() && storage.at(chunk.file_index+1).is_padding_file()) {
                 // add the final partial piece and pad the rest of the piece
                 auto final_piece = data.subspan(piece_in_chunk_index*piece_size);
                 sha1_hasher.update(final_piece);
-- 
2.43.0


From dec93e9d37e7ef0cec2ba1db3d850f54d6fb3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:13 +0000
Subject: [PATCH 39/64] fix: verifying v2 torrents with empty files or symlinks
 terminated the program

---
 src/v2_piece_verifier.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/v2_piece_verifier.cpp b/src/v2_piece_verifier.cpp
index 241a209..dc215a9 100644
--- a/src/v2_piece_verifier.cpp
+++ b/src/v2_piece_verifier.cpp
@@ -86,7 +86,7 @@ double v2_piece_verifier::percentage(std::size_t file_index) const noexcept {
             storage.begin(), std::next(storage.begin(), file_index),
             0ul, std::plus<>{},
             [](const file_entry& e) {
-                if (e.is_padding_file()) return std::size_t(0);
+                if (e.is_padding_file() || e.file_size() == 0) return std::size_t(0);
                 return std::max(std::size_t(1), e.piece_layer().size());
             });
 
@@ -111,7 +111,8 @@ void v2_piece_verifier::initialize_offsets_and_trees() {
     for (const auto& entry : storage) {
         ++file_count;
         auto block_count = (entry.file_size() + v2_block_size -1) / v2_block_size;
-        if (entry.is_padding_file()) {
+        if (entry.is_padding_file() || entry.file_size() == 0) {
+            // files without data have no pieces.
             // add en empty merkly tree to make sure file_indices match merkle tree indices.
             merkle_trees_.emplace_back();
             auto offset = file_offsets_.back();
@@ -141,7 +142,7 @@ void v2_piece_verifier::initialize_offsets_and_trees() {
 
     auto piece_map_size = 0;
     for (const auto& entry : storage) {
-        if (entry.is_padding_file())
+        if (entry.is_padding_file() || entry.file_size() == 0)
             continue;
 
         auto s = entry.piece_layer().size();
-- 
2.43.0


From 9b7894ab1b979bddce914ffb1520f6f1c9945cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:13 +0000
Subject: [PATCH 40/64] fix: checksums of the last file, empty files and hybrid
 torrents were missing; checksum threads raced on file entries

---
 .../dottorrent/chunk_hasher_single_buffer.hpp |  6 ++++
 include/dottorrent/v1_checksum_hasher.hpp     |  2 ++
 include/dottorrent/v2_checksum_hasher.hpp     |  5 ++++
 src/chunk_hasher_single_buffer.cpp            | 17 +++++++++++
 src/v1_checksum_hasher.cpp                    | 18 ++++++-----
 src/v2_checksum_hasher.cpp                    | 30 ++++++++-----------
 6 files changed, 53 insertions(+), 25 deletions(-)

diff --git a/include/dottorrent/chunk_hasher_single_buffer.hpp b/include/dottorrent/chunk_hasher_single_buffer.hpp
index c1f8507..028a99c 100644
--- a/include/dottorrent/chunk_hasher_single_buffer.hpp
+++ b/include/dottorrent/chunk_hasher_single_buffer.hpp
@@ -13,6 +13,12 @@ protected:
     void run(std::stop_token stop_token, int thread_idx) override;
 
     virtual void hash_chunk(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers, const data_chunk& chunk) = 0;
+
+    /// Called by every worker after all chunks have been processed, unless cancelled.
+    virtual void finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers) {}
+
+    /// Finalize the hasher and set the result as checksum of a file.
+    void set_checksum(std::size_t file_index, single_buffer_hasher& hasher);
 };
 
 } // namespace dottorrent
\ No newline at end of file
diff --git a/include/dottorrent/v1_checksum_hasher.hpp b/include/dottorrent/v1_checksum_hasher.hpp
index c60f38c..91c76aa 100644
--- a/include/dottorrent/v1_checksum_hasher.hpp
+++ b/include/dottorrent/v1_checksum_hasher.hpp
@@ -28,6 +28,8 @@ protected:
 
     void hash_chunk(single_buffer_hasher& hasher, const data_chunk& item);
 
+    void finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers) override;
+
 private:
     std::atomic<std::size_t> current_file_index_ = 0;
     std::atomic<std::size_t> current_file_size_ = 0;
diff --git a/include/dottorrent/v2_checksum_hasher.hpp b/include/dottorrent/v2_checksum_hasher.hpp
index 3a7ea77..869df89 100644
--- a/include/dottorrent/v2_checksum_hasher.hpp
+++ b/include/dottorrent/v2_checksum_hasher.hpp
@@ -34,6 +34,11 @@ protected:
 
     void hash_chunk(single_buffer_hasher& hasher, const data_chunk& item);
 
+    void finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers) override;
+
+    /// Set the checksums of all files before `file_index`.
+    void finish_files_before(std::size_t file_index, single_buffer_hasher& hasher);
+
 private:
     std::atomic<std::size_t> current_file_index_ = 0;
     std::atomic<std::size_t> current_file_size_ = 0;
diff --git a/src/chunk_hasher_single_buffer.cpp b/src/chunk_hasher_single_buffer.cpp
index acbb213..3423ef8 100644
--- a/src/chunk_hasher_single_buffer.cpp
+++ b/src/chunk_hasher_single_buffer.cpp
@@ -44,9 +44,26 @@ void chunk_hasher_single_buffer::run(std::stop_token stop_token, int thread_idx)
             hash_chunk(hashers, item);
             item.data.reset();
         }
+        finish(hashers);
     }
 
     done_[thread_idx] = true;
 }
 
+void chunk_hasher_single_buffer::set_checksum(std::size_t file_index, single_buffer_hasher& hasher)
+{
+    // checksum hashers for different algorithms modify the same file entries.
+    static std::mutex mutex {};
+
+    Expects(hash_functions_.size() == 1);
+    auto checksum = make_checksum(hash_functions_.front());
+    hasher.finalize_to(checksum->value());
+
+    std::unique_lock lck{mutex};
+    file_entry& entry = storage_.get()[file_index];
+    if (!entry.is_padding_file() && !entry.is_symlink()) {
+        entry.add_checksum(std::move(checksum));
+    }
+}
+
 } // namespace dottorrent
\ No newline at end of file
diff --git a/src/v1_checksum_hasher.cpp b/src/v1_checksum_hasher.cpp
index fd375a1..984ac4c 100644
--- a/src/v1_checksum_hasher.cpp
+++ b/src/v1_checksum_hasher.cpp
@@ -20,11 +20,10 @@ void v1_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
     // offset from the start of data where we are currently processing
     std::size_t chunk_offset = 0;
     std::size_t chunk_size = item.data->size();
+    Ensures(current_file_index_ < storage.file_count());
     std::size_t current_file_size = storage[current_file_index_].file_size();
     auto data = std::span(*item.data);
 
-    Ensures(current_file_index_ < storage.file_count());
-
     // Verify that we are receive chunks sequentially
 
     while (chunk_offset != chunk_size) {
@@ -41,12 +40,7 @@ void v1_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
 
         // check if we completed a file checksum
         if (current_file_data_hashed_.load(std::memory_order_relaxed) == current_file_size) {
-            Expects(hash_functions_.size() == 1);
-            auto hash_function = hash_functions_.front();
-            auto checksum = make_checksum(hash_function);
-            hasher.finalize_to(checksum->value());
-            storage[current_file_index_].add_checksum(std::move(checksum));
-
+            set_checksum(current_file_index_, hasher);
             current_file_index_.fetch_add(1, std::memory_order_relaxed);
 
             if (current_file_index_ < storage.file_count()) {
@@ -56,4 +50,12 @@ void v1_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
         }
     }
 }
+
+void v1_checksum_hasher::finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers)
+{
+    // empty files at the end
+    for (; current_file_index_ < storage_.get().file_count(); ++current_file_index_) {
+        set_checksum(current_file_index_, *hashers.front());
+    }
+}
 } // namespace dottorrent
diff --git a/src/v2_checksum_hasher.cpp b/src/v2_checksum_hasher.cpp
index 1676bd1..d036570 100644
--- a/src/v2_checksum_hasher.cpp
+++ b/src/v2_checksum_hasher.cpp
@@ -15,30 +15,26 @@ void v2_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
 {
     Expects(item.data != nullptr);
 
-    file_storage& storage = storage_;
-
-    // offset from the start of data where we are currently processing
-    std::size_t chunk_offset = 0;
     std::size_t chunk_size = item.data->size();
 
     Expects(current_file_index_ <= item.file_index);
 
-    if (item.file_index > current_file_index_) {
-        // Set the hash for the previous file.
-        Expects(hash_functions_.size() == 1);
-        auto hash_function = hash_functions_.front();
-        auto checksum = make_checksum(hash_function);
-        hasher.finalize_to(checksum->value());
-        storage[current_file_index_].add_checksum(std::move(checksum));
-
-        // update current file index
-        ++current_file_index_;
-    }
-
-    Expects(current_file_index_ == item.file_index);
+    finish_files_before(item.file_index, hasher);
     hasher.update(std::span(*item.data));
     bytes_hashed_.fetch_add(chunk_size, std::memory_order_relaxed);
     bytes_done_.fetch_add(chunk_size, std::memory_order_relaxed);
 }
 
+void v2_checksum_hasher::finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers)
+{
+    finish_files_before(storage_.get().file_count(), *hashers.front());
+}
+
+void v2_checksum_hasher::finish_files_before(std::size_t file_index, single_buffer_hasher& hasher)
+{
+    for (; current_file_index_ < file_index; ++current_file_index_) {
+        set_checksum(current_file_index_, hasher);
+    }
+}
+
 }
\ No newline at end of file
-- 
2.43.0


From ab50cd15d6d03b9c27f7492c6ffeeec18e9af40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:13 +0000
Subject: [PATCH 41/64] fix: waiting for cancelled chunk processors could hang
 on a full queue

---
 include/dottorrent/chunk_processor_base.hpp |  2 +
 src/chunk_processor_base.cpp                | 42 ++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/dottorrent/chunk_processor_base.hpp b/include/dottorrent/chunk_processor_base.hpp
index 386443b..104d1f3 100644
--- a/include/dottorrent/chunk_processor_base.hpp
+++ b/include/dottorrent/chunk_processor_base.hpp
@@ -67,6 +67,8 @@ public:
 protected:
     virtual void run(std::stop_token stop_token, int thread_idx) = 0;
 
+    bool all_workers_done() const noexcept;
+
     std::reference_wrapper<file_storage> storage_;
     std::vector<std::jthread> threads_;
     std::shared_ptr<work_queue_type> queue_;
diff --git a/src/chunk_processor_base.cpp b/src/chunk_processor_base.cpp
index b389da1..999da2c 100644
--- a/src/chunk_processor_base.cpp
+++ b/src/chunk_processor_base.cpp
@@ -36,29 +36,24 @@ void chunk_processor_base::request_cancellation() {
 void chunk_processor_base::wait() {
     if (!started()) return;
 
-    for (auto i = 0; i < threads_.size(); ++i) {
-        queue_->push({
-                std::numeric_limits<std::uint32_t>::max(),
-                std::numeric_limits<std::uint32_t>::max(),
-                nullptr
-        });
-    }
-
-    for  (auto i = 0; !done() && i < threads_.size(); ++i) {
-        queue_->push({
-                std::numeric_limits<std::uint32_t>::max(),
-                std::numeric_limits<std::uint32_t>::max(),
-                nullptr
-        });
-        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+    // Wake workers that remain blocked on pop calls until all of them have finished.
+    // Never block on a full queue here: workers that are gone do not make room anymore.
+    while (!all_workers_done()) {
+        for (std::size_t i = 0; i < threads_.size(); ++i) {
+            queue_->try_push({
+                    std::numeric_limits<std::uint32_t>::max(),
+                    std::numeric_limits<std::uint32_t>::max(),
+                    nullptr
+            });
+        }
+        std::this_thread::sleep_for(std::chrono::milliseconds(1));
     }
 
     // should all be finished by now and ready to join
     for (auto& t : threads_) {
-        t.join();
+        if (t.joinable()) t.join();
     }
-    Ensures(std::all_of(done_.begin(), done_.end(),
-            [](auto& b) { return b.load(std::memory_order_relaxed); }));
+    Ensures(all_workers_done());
 }
 
 bool chunk_processor_base::running() const noexcept {
@@ -74,9 +69,13 @@ auto chunk_processor_base::cancelled() const noexcept -> bool
 { return cancelled_.load(std::memory_order_relaxed); }
 
 auto chunk_processor_base::done() const noexcept -> bool {
-    bool all_done = std::all_of(done_.begin(), done_.end(),
+    return cancelled() || (started() && all_workers_done());
+}
+
+bool chunk_processor_base::all_workers_done() const noexcept
+{
+    return std::all_of(done_.begin(), done_.end(),
             [](auto& b) { return b.load(std::memory_order_relaxed); });
-    return cancelled() || (started() && all_done);
 }
 
 std::shared_ptr<typename chunk_processor_base::work_queue_type> chunk_processor_base::get_queue()
@@ -104,8 +103,7 @@ chunk_processor_base::~chunk_processor_base()
         wait();
     }
     // Destructor should only be called after all workers are done
-    Ensures(std::all_of(done_.begin(), done_.end(),
-                        [](auto& b) { return b.load(std::memory_order_relaxed); }));
+    Ensures(!started() || all_workers_done());
 };
 
 }
\ No newline at end of file
-- 
2.43.0


From 74cb4f93d8aa2f96faf979e9b170589e4199b527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:13 +0000
Subject: [PATCH 42/64] fix: io block sizes that are no multiple of the piece
 size terminated the program

---
 src/storage_hasher.cpp   | 3 +++
 src/storage_verifier.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index f44e96a..8588f02 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -46,6 +46,9 @@ storage_hasher::storage_hasher(file_storage& storage, const storage_hasher_optio
     io_block_size_ = std::max(piece_size, options.min_io_block_size ? *options.min_io_block_size : 1_MiB);
  #endif
 
+    // blocks consist of complete pieces
+    io_block_size_ = (io_block_size_ + piece_size - 1) / piece_size * piece_size;
+
     if (options.max_memory) {
         queue_capacity_ = std::max(std::size_t(4), *options.max_memory / io_block_size_);
     }
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index de11af4..b392e03 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -41,6 +41,9 @@ storage_verifier::storage_verifier(file_storage& storage, const storage_verifier
     io_block_size_ = std::max(piece_size, options.min_io_block_size ? *options.min_io_block_size : 1_MiB);
 #endif
 
+    // blocks consist of complete pieces
+    io_block_size_ = (io_block_size_ + piece_size - 1) / piece_size * piece_size;
+
     if (options.max_memory) {
         queue_capacity_ = std::max(std::size_t(4), *options.max_memory / io_block_size_);
     }
-- 
2.43.0


From b03e064a786c2d7a63ed750d28dc643f7f893ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:01 +0000
Subject: [PATCH 43/64] fix: asking a hasher for its progress before it is
 started, and dropping an unstarted verifier, crashed

---
 src/storage_hasher.cpp   | 6 +++---
 src/storage_verifier.cpp | 7 +++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index 8588f02..85a62bd 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -233,17 +233,17 @@ bool storage_hasher::done() const noexcept
 
 std::size_t storage_hasher::bytes_read() const noexcept
 {
-    return reader_->bytes_read();
+    return reader_ ? reader_->bytes_read() : 0;
 }
 
 std::size_t storage_hasher::bytes_hashed() const noexcept
 {
-    return hasher_->bytes_hashed();
+    return hasher_ ? hasher_->bytes_hashed() : 0;
 }
 
 std::size_t storage_hasher::bytes_done() const noexcept
 {
-    return hasher_->bytes_done();
+    return hasher_ ? hasher_->bytes_done() : 0;
 }
 
 
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index b392e03..565b3e5 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -203,17 +203,17 @@ bool storage_verifier::done() const noexcept
 
 std::size_t storage_verifier::bytes_read() const noexcept
 {
-    return reader_->bytes_read();
+    return reader_ ? reader_->bytes_read() : 0;
 }
 
 std::size_t storage_verifier::bytes_hashed() const noexcept
 {
-    return hasher_->bytes_hashed();
+    return hasher_ ? hasher_->bytes_hashed() : 0;
 }
 
 std::size_t storage_verifier::bytes_done() const noexcept
 {
-    return hasher_->bytes_done();
+    return hasher_ ? hasher_->bytes_done() : 0;
 }
 
 
@@ -263,7 +263,6 @@ storage_verifier::~storage_verifier()
     if (started() && !done()) {
         std::terminate();
     }
-    Expects(done());
 }
 
 
-- 
2.43.0


From ff883a5c7370851c0cf766e6f189b859e6dff7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:01 +0000
Subject: [PATCH 44/64] fix: missing, resized and unreadable files, padding
 files, empty files and symlinks gave wrong hashes, hung or terminated the
 program

---
 include/dottorrent/chunk_reader.hpp     |  8 +++-
 include/dottorrent/storage_hasher.hpp   |  3 ++
 include/dottorrent/storage_verifier.hpp |  3 ++
 include/dottorrent/v1_chunk_reader.hpp  |  3 +-
 src/chunk_reader.cpp                    | 16 +++++++-
 src/storage_hasher.cpp                  | 22 +++++++++--
 src/storage_verifier.cpp                | 26 ++++++++++---
 src/v1_chunk_reader.cpp                 | 34 +++++++++++++----
 src/v2_chunk_reader.cpp                 | 50 +++++++++++++++++--------
 9 files changed, 130 insertions(+), 35 deletions(-)

diff --git a/include/dottorrent/chunk_reader.hpp b/include/dottorrent/chunk_reader.hpp
index aa3a426..07f48b1 100644
--- a/include/dottorrent/chunk_reader.hpp
+++ b/include/dottorrent/chunk_reader.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <atomic>
 #include <cstdint>
+#include <exception>
 #include <mutex>
 #include <string>
 #include <thread>
@@ -27,7 +28,9 @@ public:
     using hash_queue_vector = std::vector<std::shared_ptr<hash_queue>>;
     using checksum_queue_vector = std::vector<std::shared_ptr<checksum_queue>>;
 
-    chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity);
+    /// @param allow_missing_data: Whether files can be missing or shorter than their entry in storage.
+    ///     Used when verifying torrents. Otherwise this is an error.
+    chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity, bool allow_missing_data = false);
 
     void register_hash_queue(std::shared_ptr<hash_queue> q);
 
@@ -41,6 +44,7 @@ public:
     void request_cancellation() noexcept;
 
     /// Block until the reader completes all work or terminates because of a cancellation request.
+    /// Rethrows the exception when the reader terminated because of an error.
     void wait();
 
     bool started() const noexcept;
@@ -58,10 +62,12 @@ protected:
 
     std::reference_wrapper<file_storage> storage_;
     std::size_t chunk_size_;
+    bool allow_missing_data_;
     pool::object_pool<data_type> pool_;
     hash_queue_vector hash_queues_ {};
     checksum_queue_vector checksum_queues_ {};
     std::jthread thread_;
+    std::exception_ptr error_ {};
     std::atomic<std::size_t> bytes_read_ = 0;
     std::atomic<bool> started_ = false;
     std::atomic<bool> cancelled_ = false;
diff --git a/include/dottorrent/storage_hasher.hpp b/include/dottorrent/storage_hasher.hpp
index daacfb9..30c1660 100644
--- a/include/dottorrent/storage_hasher.hpp
+++ b/include/dottorrent/storage_hasher.hpp
@@ -81,6 +81,7 @@ public:
     void cancel();
 
     /// Wait for all threads to complete
+    /// Throws when the data could not be read, all work is cancelled in this case.
     void wait();
 
     bool running() const noexcept;
@@ -106,6 +107,8 @@ public:
     file_progress_data current_file_progress() const noexcept;
 
 private:
+    void cancel_processors();
+
     std::reference_wrapper<file_storage> storage_;
     enum protocol protocol_;
     std::unordered_set<hash_function> checksums_;
diff --git a/include/dottorrent/storage_verifier.hpp b/include/dottorrent/storage_verifier.hpp
index 35f2cc5..dfd6002 100644
--- a/include/dottorrent/storage_verifier.hpp
+++ b/include/dottorrent/storage_verifier.hpp
@@ -80,6 +80,7 @@ public:
     void cancel();
 
     /// Wait for all threads to complete
+    /// Throws when the data could not be read, all work is cancelled in this case.
     void wait();
 
     bool running() const noexcept;
@@ -113,6 +114,8 @@ public:
     ~storage_verifier();
 
 private:
+    void cancel_processors();
+
     std::reference_wrapper<file_storage> storage_;
     enum protocol protocol_;
 
diff --git a/include/dottorrent/v1_chunk_reader.hpp b/include/dottorrent/v1_chunk_reader.hpp
index 71bcfc8..5caee45 100644
--- a/include/dottorrent/v1_chunk_reader.hpp
+++ b/include/dottorrent/v1_chunk_reader.hpp
@@ -16,7 +16,8 @@ public:
     void run() final;
 
 private:
-    void handle_missing_file();
+    /// Handle data of the current file that is not available on disk.
+    void handle_missing_data(std::size_t missing_file_size);
 
     /// @param file_idx: index of the file the data is read from,
     ///     when a chunk consists of data from multiple files,
diff --git a/src/chunk_reader.cpp b/src/chunk_reader.cpp
index 66595f6..c73ac40 100644
--- a/src/chunk_reader.cpp
+++ b/src/chunk_reader.cpp
@@ -4,9 +4,11 @@
 
 namespace dottorrent {
 
-chunk_reader::chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity)
+chunk_reader::chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity,
+        bool allow_missing_data)
         : storage_(storage)
         , chunk_size_(block_size)
+        , allow_missing_data_(allow_missing_data)
         , pool_(capacity)
 {
     Expects(storage.piece_size() >= 16_KiB);
@@ -31,7 +33,14 @@ void chunk_reader::start() {
     if (cancelled())
         throw std::runtime_error("cancelled");
 
-    thread_ = std::jthread(&chunk_reader::run, this);
+    thread_ = std::jthread([this]() {
+        try {
+            run();
+        }
+        catch (...) {
+            error_ = std::current_exception();
+        }
+    });
     started_.store(true, std::memory_order_release);
 }
 
@@ -44,6 +53,9 @@ void chunk_reader::wait() {
         throw std::logic_error("not started");
 
     thread_.join();
+
+    if (error_)
+        std::rethrow_exception(std::exchange(error_, nullptr));
 }
 
 bool chunk_reader::started() const noexcept
diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index 85a62bd..20ce60b 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -170,14 +170,24 @@ void storage_hasher::cancel() {
         return;
     }
 
-    // cancel all tasks
+    // The reader can be blocked on a full queue, let it finish before cancelling its consumers.
     reader_->request_cancellation();
+    try {
+        reader_->wait();
+    }
+    catch (...) {
+        // the result is discarded, so errors do not matter anymore.
+    }
+    cancel_processors();
+}
+
+void storage_hasher::cancel_processors()
+{
     hasher_->request_cancellation();
     for (auto& ch : checksum_hashers_) { ch->request_cancellation(); }
     verifier_->request_cancellation();
 
     // wait for all tasks to complete
-    reader_->wait();
     hasher_->wait();
     for (auto& ch : checksum_hashers_) { ch->wait(); }
     verifier_->wait();
@@ -194,7 +204,13 @@ void storage_hasher::wait()
         throw std::runtime_error("hasher already done");
 
     Expects(hasher_->running());
-    reader_->wait();
+    try {
+        reader_->wait();
+    }
+    catch (...) {
+        cancel_processors();
+        throw;
+    }
     Expects(hasher_->running());
 
     // no pieces will be added after the reader finishes.
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 565b3e5..685e79e 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -85,10 +85,10 @@ void storage_verifier::start() {
     auto& storage = storage_.get();
 
     if (protocol_ == protocol::v1) {
-        reader_ = std::make_unique<v1_chunk_reader>(storage_, io_block_size_, queue_capacity_);
+        reader_ = std::make_unique<v1_chunk_reader>(storage_, io_block_size_, queue_capacity_, true);
     }
     else {
-        reader_ = std::make_unique<v2_chunk_reader>(storage_, io_block_size_, queue_capacity_);
+        reader_ = std::make_unique<v2_chunk_reader>(storage_, io_block_size_, queue_capacity_, true);
     }
 
     if (protocol_ == protocol::v1) {
@@ -142,13 +142,23 @@ void storage_verifier::cancel() {
         return;
     }
 
-    // cancel all tasks
+    // The reader can be blocked on a full queue, let it finish before cancelling its consumers.
     reader_->request_cancellation();
+    try {
+        reader_->wait();
+    }
+    catch (...) {
+        // the result is discarded, so errors do not matter anymore.
+    }
+    cancel_processors();
+}
+
+void storage_verifier::cancel_processors()
+{
     hasher_->request_cancellation();
     verifier_->request_cancellation();
 
     // wait for all tasks to complete
-    reader_->wait();
     hasher_->wait();
     verifier_->wait();
 
@@ -164,7 +174,13 @@ void storage_verifier::wait()
         throw std::runtime_error("hasher already done");
 
     Expects(hasher_->running());
-    reader_->wait();
+    try {
+        reader_->wait();
+    }
+    catch (...) {
+        cancel_processors();
+        throw;
+    }
     Expects(hasher_->running());
 
     // no pieces will be added after the reader finishes.
diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index e4eaf0f..f5664fb 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -18,11 +18,15 @@ void v1_chunk_reader::run()
     chunk_->resize(chunk_size_);
 
     for (const fs::path& file_path: file_paths) {
+        if (cancelled_.load(std::memory_order_relaxed)) break;
+
         const file_entry& file_entry = storage.at(file_index_);
+        std::size_t bytes_remaining = file_entry.file_size();
 
         // handle pieces if the file does not exists. Used when verifying torrents.
-        if (!fs::exists(file_path) || file_entry.is_padding_file()) [[unlikely]] {
-            handle_missing_file();
+        // Symlinks have no data, the data of their target belongs to another file.
+        if (file_entry.is_padding_file() || file_entry.is_symlink() || !fs::exists(file_path)) [[unlikely]] {
+            handle_missing_data(bytes_remaining);
             ++file_index_;
             continue;
         }
@@ -34,12 +38,14 @@ void v1_chunk_reader::run()
         // increment file index, file_index points to the next file now
         ++ file_index_;
 
-        while (! cancelled_.load(std::memory_order_relaxed)) {
+        // The file on disk can have another size than its entry.
+        while (bytes_remaining != 0 && !cancelled_.load(std::memory_order_relaxed)) {
             f_.read(reinterpret_cast<char*>(std::next(chunk_->data(), chunk_offset_)),
-                    (chunk_size_-chunk_offset_)
+                    std::min(chunk_size_-chunk_offset_, bytes_remaining)
             );
             file_offsets_.push_back(chunk_offset_);
             chunk_offset_ += f_.gcount();
+            bytes_remaining -= f_.gcount();
             bytes_read_.fetch_add(f_.gcount(), std::memory_order_relaxed);
 
             if (chunk_offset_ == chunk_size_) [[likely]] {
@@ -67,7 +73,15 @@ void v1_chunk_reader::run()
         }
         f_.close();
         f_.clear();
+
+        if (bytes_remaining != 0 && !cancelled_.load(std::memory_order_relaxed)) [[unlikely]] {
+            --file_index_;
+            handle_missing_data(bytes_remaining);
+            ++file_index_;
+        }
     }
+    if (cancelled_.load(std::memory_order_relaxed)) return;
+
     // push last possibly partial chunk
     if (chunk_offset_ != 0) [[likely]] {
         chunk_->resize(chunk_offset_);
@@ -82,7 +96,7 @@ void v1_chunk_reader::run()
     Ensures(piece_index_ == storage.piece_count());
 }
 
-void v1_chunk_reader::handle_missing_file()
+void v1_chunk_reader::handle_missing_data(std::size_t missing_file_size)
 {
     auto& storage = storage_.get();
     const auto piece_size = storage.piece_size();
@@ -90,11 +104,15 @@ void v1_chunk_reader::handle_missing_file()
     Expects(chunk_size_ % piece_size == 0);
     const auto pieces_per_chunk = chunk_size_ / piece_size;
 
-    // the number of missing bytes
-    auto missing_file_size = storage.at(file_index_).file_size();
+    const auto& file_entry = storage.at(file_index_);
+    if (missing_file_size != 0 && !file_entry.is_padding_file() && !allow_missing_data_) {
+        throw std::runtime_error(
+                fmt::format("missing data of file: {}", file_entry.path().string()));
+    }
 
     // fill current pieces in this chunk with zero bytes.
-    if (chunk_offset_ != 0) {
+    // padding files consist of zero bytes, the pieces covered by them are hashed like all others.
+    while (missing_file_size != 0 && (chunk_offset_ != 0 || file_entry.is_padding_file())) {
         // we need to fill the remaining chunk data with 0'd bytes from missing_file_size
         auto bytes_to_fill = std::min(chunk_size_-chunk_offset_, missing_file_size);
         // add a offset to indicate that the piece contains zero'd bytes from a new file
diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index b927b69..e2a4dc1 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -17,7 +17,10 @@ void v2_chunk_reader::run()
     chunk->resize(chunk_size_);
 
     for (const fs::path& file_path: file_paths) {
+        if (cancelled_.load(std::memory_order_relaxed)) break;
+
         const file_entry& file_entry = storage.at(file_index_);
+        std::size_t bytes_remaining = file_entry.file_size();
 
         if (file_entry.is_padding_file()) {
             bytes_read_.fetch_add(file_entry.file_size(), std::memory_order_relaxed);
@@ -26,12 +29,19 @@ void v2_chunk_reader::run()
         }
 
         // handle pieces if the file does not exists. Used when verifying torrents.
-        if (!fs::exists(file_path)) {
-            auto file_size = file_entry.file_size();
-            push({static_cast<std::uint32_t>(0),
-                  static_cast<std::uint32_t>(file_index_),
-                  nullptr});
-            bytes_read_.fetch_add(file_size, std::memory_order_relaxed);
+        // Symlinks have no data, the data of their target belongs to another file.
+        if (file_entry.is_symlink() || !fs::exists(file_path)) {
+            // empty files have no pieces
+            if (bytes_remaining != 0) {
+                if (!allow_missing_data_) {
+                    throw std::runtime_error(
+                            fmt::format("missing data of file: {}", file_entry.path().string()));
+                }
+                push({static_cast<std::uint32_t>(0),
+                      static_cast<std::uint32_t>(file_index_),
+                      nullptr});
+            }
+            bytes_read_.fetch_add(bytes_remaining, std::memory_order_relaxed);
             ++file_index_;
             continue;
         }
@@ -43,10 +53,26 @@ void v2_chunk_reader::run()
         // reset piece index. piece index is per file for v2!
         piece_index_ = 0;
 
-        while (!cancelled_.load(std::memory_order_relaxed)) {
-            f_.read(reinterpret_cast<char*>(chunk->data()), chunk_size_);
-            current_chunk_size_ = f_.gcount();
+        // The file on disk can have another size than its entry.
+        while (bytes_remaining != 0 && !cancelled_.load(std::memory_order_relaxed)) {
+            current_chunk_size_ = std::min(chunk_size_, bytes_remaining);
+            f_.read(reinterpret_cast<char*>(chunk->data()), current_chunk_size_);
+            const auto bytes_read = static_cast<std::size_t>(f_.gcount());
+
+            if (bytes_read != current_chunk_size_) [[unlikely]] {
+                if (!f_.eof()) {
+                    throw std::runtime_error(
+                            fmt::format("I/O error reading: {}", file_entry.path().string()));
+                }
+                if (!allow_missing_data_) {
+                    throw std::runtime_error(
+                            fmt::format("missing data of file: {}", file_entry.path().string()));
+                }
+                // missing data never matches, the pieces before it still can.
+                std::fill_n(chunk->data() + bytes_read, current_chunk_size_ - bytes_read, std::byte(0));
+            }
 
+            bytes_remaining -= current_chunk_size_;
             chunk->resize(current_chunk_size_);
             bytes_read_.fetch_add(current_chunk_size_, std::memory_order_relaxed);
 
@@ -61,12 +87,6 @@ void v2_chunk_reader::run()
             // clear chunk and file offsets
             // increment chunk index
             piece_index_ += pieces_per_chunk;
-
-            if (f_.eof()) break;
-            if (f_.fail()) {
-                throw std::runtime_error(
-                        fmt::format("I/O error reading: {}", file_entry.path().string()));
-            }
         }
         f_.close();
         f_.clear();
-- 
2.43.0


From 3585301f8d7585030c24050c7d37265c4206fd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:46 +0000
Subject: [PATCH 45/64] fix: the size of a magnet uri was uninitialised

---
 include/dottorrent/magnet_uri.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index d01d6f2..88d9c66 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -177,7 +177,7 @@ private:
     //dn	Display Name	A filename to display to the user, for convenience.
     std::string display_name_;
     //xl	eXact Length	Size (in bytes)
-    std::size_t size_;
+    std::size_t size_ = 0;
     //xt	eXact Topic	URN containing file hash.
     // This is the most crucial part of the magnet link, and is used to find and verify the specified file.
     // The URN is specific to the protocol, so a file hash URN under btih (BitTorrent) would be completely different than the file hash URN for ed2k
-- 
2.43.0


From 1809f4919c11a2f7c36873fd22ef658b2c3b27d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:46 +0000
Subject: [PATCH 46/64] fix: magnet uris without topic, with keywords or with
 reserved characters in a topic were malformed or never finished

---
 include/dottorrent/magnet_uri.hpp | 67 ++++++++++++++++---------------
 src/magnet_uri.cpp                | 14 +++++++
 2 files changed, 49 insertions(+), 32 deletions(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index 88d9c66..88c031a 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -213,84 +213,87 @@ private:
 };
 
 
+namespace detail {
+
+/// Percent encode a topic URN, leaving the ':' separators as they are.
+std::string percent_encode_topic(std::string_view topic);
+
+}
+
+
 template <std::output_iterator<char> OutputIterator>
 void encode_magnet_uri(const magnet_uri& magnet, OutputIterator out)
 {
     using namespace std::string_view_literals;
 
-    std::string uri = "magnet:?";
-    rng::copy(uri, out);
+    out = rng::copy("magnet:?"sv, out).out;
 
     bool first = true;
+    auto write_parameter = [&](std::string_view key, std::string_view encoded_value) {
+        if (!first) {
+            *out++ = '&';
+        }
+        first = false;
+        out = rng::copy(key, out).out;
+        *out++ = '=';
+        out = rng::copy(encoded_value, out).out;
+    };
+
     // topics
     for (const auto& topic : magnet.topics()) {
-        if (first) {
-            rng::copy("xt="sv, out);
-            first = false;
-        }
-        else {
-            rng::copy("&xt="sv, out);
-        }
-        rng::copy(topic, out);
+        write_parameter("xt", detail::percent_encode_topic(topic));
     }
 
     // display name
     if (!magnet.display_name().empty()) {
-        rng::copy("&dn="sv, out);
-        rng::copy(detail::percent_encode(magnet.display_name()), out);
+        write_parameter("dn", detail::percent_encode(magnet.display_name()));
     }
 
     if (magnet.size() != 0) {
         // exact length
-        rng::copy("&xl="sv, out);
-        rng::copy(detail::percent_encode(std::to_string(magnet.size())), out);
+        write_parameter("xl", std::to_string(magnet.size()));
     }
     // trackers
     for (const auto& tr : magnet.trackers()) {
-        rng::copy("&tr="sv, out);
-        rng::copy(detail::percent_encode(tr), out);
+        write_parameter("tr", detail::percent_encode(tr));
     }
 
     // webseeds
     for (const auto& ws : magnet.web_seeds()) {
-        rng::copy("&ws="sv, out);
-        rng::copy(detail::percent_encode(ws), out);
+        write_parameter("ws", detail::percent_encode(ws));
     }
 
     // Acceptable sources
     for (const auto& as : magnet.acceptable_sources()) {
-        rng::copy("&as="sv, out);
-        rng::copy(detail::percent_encode(as), out);
+        write_parameter("as", detail::percent_encode(as));
     }
 
 
     // Exact source
     if (!magnet.exact_source().empty()) {
-        rng::copy("&xs="sv, out);
-        rng::copy(detail::percent_encode(magnet.exact_source()), out);
+        write_parameter("xs", detail::percent_encode(magnet.exact_source()));
     }
 
     // keywords
     if (!magnet.keywords().empty()) {
-        auto it = magnet.keywords().begin();
-        rng::copy(detail::percent_encode(*it++), out);
-
-        while (it != magnet.keywords().end()) {
-            *out++ = '+';
-            rng::copy(detail::percent_encode(*it), out);
+        std::string keywords {};
+        for (const auto& kw : magnet.keywords()) {
+            if (!keywords.empty()) {
+                keywords.push_back('+');
+            }
+            keywords.append(detail::percent_encode(kw));
         }
+        write_parameter("kt", keywords);
     }
 
     // manifest
     if (!magnet.manifest().empty()) {
-        rng::copy("&mt="sv, out);
-        rng::copy(detail::percent_encode(magnet.manifest()), out);
+        write_parameter("mt", detail::percent_encode(magnet.manifest()));
     }
 
     // Peers
     for (const auto& pe : magnet.peer_adresses()) {
-        rng::copy("&x.pe="sv, out);
-        rng::copy(detail::percent_encode(pe), out);
+        write_parameter("x.pe", detail::percent_encode(pe));
     }
 }
 
diff --git a/src/magnet_uri.cpp b/src/magnet_uri.cpp
index 73bcb94..d58ee30 100644
--- a/src/magnet_uri.cpp
+++ b/src/magnet_uri.cpp
@@ -4,6 +4,20 @@ namespace dottorrent {
 
 namespace detail {
 
+std::string percent_encode_topic(std::string_view topic)
+{
+    std::string result {};
+    for (char c : topic) {
+        if (c == ':') {
+            result.push_back(c);
+        }
+        else {
+            result.append(percent_encode(std::string_view(&c, 1)));
+        }
+    }
+    return result;
+}
+
 std::vector<std::string_view> split_query_string(std::string_view uri_query_string)
 {
     std::vector<std::string_view> parts;
-- 
2.43.0


From f8fabcb46f52db6ab663139b8c36efb744b3fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:46 +0000
Subject: [PATCH 47/64] fix: magnet uris with malformed escapes were cut off,
 keywords with an escaped '+' were split

---
 src/magnet_uri.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/magnet_uri.cpp b/src/magnet_uri.cpp
index d58ee30..6f7b2ab 100644
--- a/src/magnet_uri.cpp
+++ b/src/magnet_uri.cpp
@@ -79,7 +79,14 @@ magnet_uri make_magnet_uri(std::string_view uri)
     std::string_view magnet_uri_introducer = "magnet:?";
     magnet_uri result;
 
-    std::size_t pos = 0;
+    auto decode = [](std::string_view value) {
+        std::string decoded {};
+        auto status = detail::percent_decode(value.begin(), value.end(), std::back_inserter(decoded));
+        if (status != detail::percent_decode_status::success) {
+            throw std::invalid_argument("malformed percent encoding in magnet uri");
+        }
+        return decoded;
+    };
 
     if (uri.substr(0, magnet_uri_introducer.size()) != magnet_uri_introducer) {
         throw std::invalid_argument("not a magnet uri");
@@ -92,7 +99,7 @@ magnet_uri make_magnet_uri(std::string_view uri)
         auto [key, value] = detail::split_key_value_pair(part);
 
         if (key == "dn") {
-            result.set_display_name(detail::percent_decode(value));
+            result.set_display_name(decode(value));
         }
         else if (key == "xl") {
             std::size_t xl_value;
@@ -106,32 +113,31 @@ magnet_uri make_magnet_uri(std::string_view uri)
             result.set_size(xl_value);
         }
         if (key == "xt") {
-            result.add_topic(detail::percent_decode(value));
+            result.add_topic(decode(value));
         }
         else if (key == "tr") {
-            result.add_tracker(detail::percent_decode(value));
+            result.add_tracker(decode(value));
         }
         else if (key == "ws") {
-            result.add_web_seed(detail::percent_decode(value));
+            result.add_web_seed(decode(value));
         }
         else if (key == "as") {
-            result.add_acceptable_source(detail::percent_decode(value));
+            result.add_acceptable_source(decode(value));
         }
         else if (key == "xs") {
-            result.set_exact_source(detail::percent_decode(value));
+            result.set_exact_source(decode(value));
         }
         else if (key == "kt") {
-            auto keywords_string = detail::percent_decode(value);
-            auto keywords = detail::split_keywords_string(keywords_string);
+            auto keywords = detail::split_keywords_string(value);
             for (auto kw : keywords) {
-                result.add_keyword(kw);
+                result.add_keyword(decode(kw));
             }
         }
         else if (key == "mt") {
-            result.set_manifest(detail::percent_decode(value));
+            result.set_manifest(decode(value));
         }
         else if (key == "x.pe") {
-            result.add_peer_address(detail::percent_decode(value));
+            result.add_peer_address(decode(value));
         }
     }
     return result;
-- 
2.43.0


From 5f3bca44b8da97d601cf8f607c06964df78b8c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:32 +0000
Subject: [PATCH 48/64] fix: md5 and sha512 digests of the multi-buffer hashers
 were wrong

---
 include/dottorrent/hasher/backends/isal.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/dottorrent/hasher/backends/isal.hpp b/include/dottorrent/hasher/backends/isal.hpp
index fbd9e1a..f14ea53 100644
--- a/include/dottorrent/hasher/backends/isal.hpp
+++ b/include/dottorrent/hasher/backends/isal.hpp
@@ -3,6 +3,7 @@
 #include <span>
 #include <string_view>
 #include <cstring>
+#include <type_traits>
 #include <unordered_set>
 
 #include "dottorrent/hasher/multi_buffer_hasher.hpp"
@@ -109,11 +110,17 @@ public:
         while (!hash_ctx_complete(context_pool_[job_id])) {
             Flush(context_manager_);
         }
-        // Intel ISA-L stores the hash as 32 bit words so we need to byteswap and copy per word
+        // Intel ISA-L stores the hash as words in native byte order so we need to byteswap and copy per word.
+        // md5 is defined in terms of little endian words, the words of sha512 are 64 bit.
         for (std::size_t i = 0; i < N_WORDS; ++i) {
-            auto big_endian_word = to_be32(hash_ctx_digest(context_pool_[job_id])[i]);
-            std::memcpy(buffer.data()+ i * sizeof(big_endian_word),
-                        &big_endian_word, sizeof(big_endian_word));
+            auto word = hash_ctx_digest(context_pool_[job_id])[i];
+            if constexpr (sizeof(word) == sizeof(std::uint64_t)) {
+                word = to_be64(word);
+            }
+            else if constexpr (!std::is_same_v<CTX, MD5_HASH_CTX>) {
+                word = to_be32(word);
+            }
+            std::memcpy(buffer.data()+ i * sizeof(word), &word, sizeof(word));
         }
     }
 
-- 
2.43.0


From 7721312e8ab1ee64b3faa3d6e8772a9f43d805d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:32 +0000
Subject: [PATCH 49/64] fix: removing jobs of a multi-buffer hasher left
 references to them in the context manager

---
 include/dottorrent/hasher/backends/isal.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/hasher/backends/isal.hpp b/include/dottorrent/hasher/backends/isal.hpp
index f14ea53..e79683a 100644
--- a/include/dottorrent/hasher/backends/isal.hpp
+++ b/include/dottorrent/hasher/backends/isal.hpp
@@ -138,8 +138,8 @@ public:
         }
 
         if (len < context_pool_.size()) {
-            auto to_deallocate = context_pool_.size() - len;
-            std::size_t idx;
+            // the context manager refers to contexts that are still processing
+            while (Flush(context_manager_) != nullptr) {}
             for (std::size_t i = len; i < context_pool_.size(); ++i) {
                 deallocate_hash_context(context_pool_[i]);
             }
@@ -149,6 +149,8 @@ public:
 
     void reset() override
     {
+        // forget contexts that are still processing
+        Init(context_manager_);
         for (auto ctx : context_pool_) {
             deallocate_hash_context(ctx);
         }
-- 
2.43.0


From 4f6c4ae286021c4ae553794aa2df2dc48f9e4740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:18 +0000
Subject: [PATCH 50/64] fix: merkle trees updated with a multi-buffer hasher
 mixed up the parent nodes

---
 include/dottorrent/merkle_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index fffdd20..e84dc0a 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -129,10 +129,10 @@ public:
             }
             // Update parent nodes
             job_id = 0;
-            for (std::size_t i = 0; job_id < n_jobs; ++job_id, i+=2) {
+            for (; job_id < n_jobs; ++job_id) {
                 value_type hash{};
                 hasher.finalize_to(job_id, hash);
-                set_node(layer-1, parent(i), hash);
+                set_node(layer-1, job_id, hash);
             }
         }
     }
-- 
2.43.0


From 1420f5ec79d2a59406b545a82b0f7481e2e7f252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:33 +0000
Subject: [PATCH 51/64] fix: verifying hybrid torrents with multi-buffer
 hashing terminated the program

---
 src/storage_verifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 685e79e..e28d864 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -110,7 +110,7 @@ void storage_verifier::start() {
 #ifdef DOTTORRENT_USE_ISAL
         if (enable_multi_buffer_hashing_)
             hasher_ = std::make_unique<v2_chunk_hasher_mb>(
-                    storage_, queue_capacity_, protocol_ == protocol::hybrid, threads_);
+                    storage_, queue_capacity_, false, threads_);
         else
             hasher_ = std::make_unique<v2_chunk_hasher_sb>(
                     storage_, queue_capacity_, false, threads_);
-- 
2.43.0


From 3da29234329ebfc4d8e8559d002cf94ce31ab123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:33 +0000
Subject: [PATCH 52/64] fix: hybrid torrents hashed with multi-buffer hashing
 got wrong v1 hashes when a file is followed by the last padding file, or
 terminated the program

---
 src/v2_chunk_hasher_mb.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/v2_chunk_hasher_mb.cpp b/src/v2_chunk_hasher_mb.cpp
index ac0e464..2e9b050 100644
--- a/src/v2_chunk_hasher_mb.cpp
+++ b/src/v2_chunk_hasher_mb.cpp
@@ -99,13 +99,11 @@ void v2_chunk_hasher_mb::hash_chunk(multi_buffer_hasher& sha256_hasher, multi_bu
         }
 
         // we have an incomplete final piece so we have the last piece of a file.
-        // we need to pad with zeros in case it is not the last file in the torrent
+        // we need to pad with zeros in case it is followed by a padding file
         if (needs_padding) {
             auto final_piece = data.subspan(piece_in_chunk_index * piece_size);
 
-            if (chunk.file_index+1 < storage.file_count()-1) {
-                const auto& entry = storage.at(chunk.file_index+1);
-                Expects(entry.is_padding_file());
+            if (chunk.file_index+1 < storage.file_count() && storage.at(chunk.file_index+1).is_padding_file()) {
                 // add the final partial piece and pad the rest of the piece
                 padding.resize((piece_size-final_piece.size()), std::byte{0});
                 sha1_hasher.submit_first(piece_in_chunk_index, final_piece);
-- 
2.43.0


From e56c3e6815ba9abb3283967e82f21a6162f3d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:52 +0000
Subject: [PATCH 53/64] fix: hybrid torrents that end with a short padding file
 got a wrong last v1 hash

---
 include/dottorrent/v2_chunk_hasher_mb.hpp |  3 +++
 include/dottorrent/v2_chunk_hasher_sb.hpp |  3 +++
 src/v2_chunk_hasher_mb.cpp                | 12 +++++++++++-
 src/v2_chunk_hasher_sb.cpp                | 12 +++++++++++-
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/v2_chunk_hasher_mb.hpp b/include/dottorrent/v2_chunk_hasher_mb.hpp
index fddde5f..61d2317 100644
--- a/include/dottorrent/v2_chunk_hasher_mb.hpp
+++ b/include/dottorrent/v2_chunk_hasher_mb.hpp
@@ -21,6 +21,9 @@ public:
 protected:
     void initialize_v1_offsets(const file_storage& storage);
 
+    /// Return how many of the bytes missing in the last piece of a file are covered by the padding files after it.
+    std::size_t padding_in_piece(std::size_t file_index, std::size_t bytes_to_fill) const;
+
     void hash_chunk(std::vector<std::unique_ptr<multi_buffer_hasher>>& hashers, const data_chunk& chunk) override;
 
     void hash_chunk(multi_buffer_hasher& sha256_hasher, multi_buffer_hasher& sha1_hasher, const data_chunk& chunk);
diff --git a/include/dottorrent/v2_chunk_hasher_sb.hpp b/include/dottorrent/v2_chunk_hasher_sb.hpp
index 7b88f83..815c579 100644
--- a/include/dottorrent/v2_chunk_hasher_sb.hpp
+++ b/include/dottorrent/v2_chunk_hasher_sb.hpp
@@ -20,6 +20,9 @@ public:
 protected:
     void initialize_v1_offsets(const file_storage& storage);
 
+    /// Return how many of the bytes missing in the last piece of a file are covered by the padding files after it.
+    std::size_t padding_in_piece(std::size_t file_index, std::size_t bytes_to_fill) const;
+
     void hash_chunk(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers, const data_chunk& chunk) override;
 
     void hash_chunk(single_buffer_hasher& sha256_hasher, single_buffer_hasher& sha1_hasher, const data_chunk& chunk);
diff --git a/src/v2_chunk_hasher_mb.cpp b/src/v2_chunk_hasher_mb.cpp
index 2e9b050..435f3c1 100644
--- a/src/v2_chunk_hasher_mb.cpp
+++ b/src/v2_chunk_hasher_mb.cpp
@@ -28,6 +28,16 @@ void v2_chunk_hasher_mb::initialize_v1_offsets(const file_storage& storage)
     }
 }
 
+std::size_t v2_chunk_hasher_mb::padding_in_piece(std::size_t file_index, std::size_t bytes_to_fill) const
+{
+    const file_storage& storage = storage_.get();
+    std::size_t padding_size = 0;
+    for (std::size_t i = file_index+1; i < storage.file_count() && storage.at(i).is_padding_file(); ++i) {
+        padding_size += storage.at(i).file_size();
+    }
+    return std::min(padding_size, bytes_to_fill);
+}
+
 void v2_chunk_hasher_mb::hash_chunk(std::vector<std::unique_ptr<multi_buffer_hasher>>& hashers, const data_chunk& chunk)
 {
     hash_chunk(*hashers.back(), *hashers.front(), chunk);
@@ -105,7 +115,7 @@ void v2_chunk_hasher_mb::hash_chunk(multi_buffer_hasher& sha256_hasher, multi_bu
 
             if (chunk.file_index+1 < storage.file_count() && storage.at(chunk.file_index+1).is_padding_file()) {
                 // add the final partial piece and pad the rest of the piece
-                padding.resize((piece_size-final_piece.size()), std::byte{0});
+                padding.resize(padding_in_piece(chunk.file_index, piece_size-final_piece.size()), std::byte{0});
                 sha1_hasher.submit_first(piece_in_chunk_index, final_piece);
                 sha1_hasher.submit_last(piece_in_chunk_index, padding);
             }
diff --git a/src/v2_chunk_hasher_sb.cpp b/src/v2_chunk_hasher_sb.cpp
index c8a34a3..ad8ac55 100644
--- a/src/v2_chunk_hasher_sb.cpp
+++ b/src/v2_chunk_hasher_sb.cpp
@@ -28,6 +28,16 @@ void v2_chunk_hasher_sb::initialize_v1_offsets(const file_storage& storage)
     }
 }
 
+std::size_t v2_chunk_hasher_sb::padding_in_piece(std::size_t file_index, std::size_t bytes_to_fill) const
+{
+    const file_storage& storage = storage_.get();
+    std::size_t padding_size = 0;
+    for (std::size_t i = file_index+1; i < storage.file_count() && storage.at(i).is_padding_file(); ++i) {
+        padding_size += storage.at(i).file_size();
+    }
+    return std::min(padding_size, bytes_to_fill);
+}
+
 void v2_chunk_hasher_sb::hash_chunk(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers, const data_chunk& chunk)
 {
     hash_chunk(*hashers.back(), *hashers.front(), chunk);
@@ -112,7 +122,7 @@ void v2_chunk_hasher_sb::hash_chunk(single_buffer_hasher& sha256_hasher, single_
                 // add the final partial piece and pad the rest of the piece
                 auto final_piece = data.subspan(piece_in_chunk_index*piece_size);
                 sha1_hasher.update(final_piece);
-                std::size_t padding_size = piece_size-final_piece.size();
+                const auto padding_size = padding_in_piece(chunk.file_index, piece_size-final_piece.size());
 
                 {
                     std::unique_lock lck{padding_mutex_};
-- 
2.43.0


From fb32588568a3c81e61573917d10e755d97185d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 54/64] fix: torrents with a single web seed given as a string
 were refused

---
 src/metafile_parsing.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 34dd745..aa96d3d 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -189,6 +189,13 @@ void parse_web_seeds(const T& data, metafile& m)
 
     try {
         if (const auto it = dict.find(key); it != dict.end()) {
+            // From BEP-19: a single url may be given as a string instead of a list.
+            if (holds_string(it->second)) {
+                if (const auto& url = get_string(it->second); !url.empty()) {
+                    m.add_web_seed(url);
+                }
+                return;
+            }
             const auto& desc = get_list(it->second);
             for (const auto& c : desc) {
                 m.add_web_seed(get_string(c));
-- 
2.43.0


From 01b9d0275bc00a3f89be2d935922a0e0fd65e54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 55/64] fix: torrents of an unsupported meta version were read
 as v1 torrents

---
 src/metafile_parsing.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index aa96d3d..ab0582a 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -819,6 +819,7 @@ protocol parse_protocol(const T& data)
             if (meta_version == 2) {
                 return protocol::v2;
             }
+            throw parse_error(key, fmt::format("unsupported version: {}", meta_version));
         }
         // no meta version field given : v1
         return protocol::v1;
-- 
2.43.0


From 693a52b253e5f167c22e3f61bb853aa1fa68eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 56/64] fix: hashers of unsupported algorithms leaked their
 context

---
 src/hasher/backends/openssl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hasher/backends/openssl.cpp b/src/hasher/backends/openssl.cpp
index 0068f21..4b4f7c9 100644
--- a/src/hasher/backends/openssl.cpp
+++ b/src/hasher/backends/openssl.cpp
@@ -119,9 +119,11 @@ message_digest::message_digest(message_digest_algorithm algorithm, ::ENGINE* eng
     ::EVP_MD_CTX_init(context_);
 
     if (algorithm_context_ == nullptr) {
+        ::EVP_MD_CTX_free(context_);
         throw std::system_error(make_error_code(evp_errc::unsupported_algorithm));
     }
     if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {
+        ::EVP_MD_CTX_free(context_);
         throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
     }
 }
-- 
2.43.0


From 9de19ecbee8aa833ce04f86c92b1c1085b80e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:50 +0000
Subject: [PATCH 57/64] fix: verify_piece_layers rejected files without a piece
 layer and layers that need padding

---
 include/dottorrent/file_storage.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index e032302..9f8d9a6 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -291,14 +291,24 @@ std::string make_v1_pieces_string(const file_storage& storage);
 
 std::string make_v2_piece_layers_string(const file_entry& entry);
 
+/// Verify for each file if its piece layer leads to its pieces root.
+/// Files of a single piece or less have no piece layer and nothing to verify.
 template <typename OutputIt>
 void verify_piece_layers(const file_storage& storage, OutputIt out)
 {
     merkle_tree<hash_function::sha256> tree {};
 
+    // piece layers are padded with the hash of a piece without data.
+    merkle_tree<hash_function::sha256> padding(std::max(storage.piece_size() / v2_block_size, std::size_t(1)));
+    padding.update();
+
     for (const auto& entry: storage) {
+        if (!entry.has_v2_data() || entry.piece_layer().empty()) {
+            *out++ = !entry.has_v2_data() || entry.file_size() <= storage.piece_size();
+            continue;
+        }
         auto layers = entry.piece_layer();
-        tree.set_leaf_nodes(layers.size());
+        tree.set_leaf_nodes(layers.size(), padding.root());
 
         std::size_t idx = 0;
         for (const auto& l : layers) {
-- 
2.43.0


From 3c3266666199e38702eb4240e26df5dd1de4d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:55 +0000
Subject: [PATCH 58/64] fix: saving a torrent hid write errors and emptied the
 existing file when there was nothing to write

---
 src/metafile.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 1637d6c..df37338 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -298,20 +298,8 @@ std::string write_metafile(const metafile& m, protocol protocol_version)
 
 void write_metafile_to(std::ostream& os, const metafile& m, protocol protocol_version)
 {
-    bencode::bvalue bv;
-
-    if (protocol_version == protocol::v1) {
-        bv = detail::make_bvalue_v1(m);
-    }
-    else if (protocol_version == protocol::v2) {
-        bv = detail::make_bvalue_v2(m);
-    }
-    else if (protocol_version == (protocol::v2 | protocol::v1)) {
-        bv = detail::make_bvalue_hybrid(m);
-    } else {
-        throw std::invalid_argument("unrecognised protocol version");
-    }
-    bencode::encode_to(std::ostreambuf_iterator{os}, bv);
+    const auto data = write_metafile(m, protocol_version);
+    os.write(data.data(), static_cast<std::streamsize>(data.size()));
 }
 
 
@@ -328,8 +316,14 @@ metafile load_metafile(const std::filesystem::path& path)
 
 void save_metafile(const std::filesystem::path& path, const metafile& m, protocol protocol_version)
 {
-    std::ofstream ofs(path, std::ios::binary);
-    write_metafile_to(ofs, m, protocol_version);
+    // an existing file is left alone when there is nothing to write
+    const auto data = write_metafile(m, protocol_version);
+
+    std::ofstream ofs;
+    ofs.exceptions(std::ios::failbit | std::ios::badbit);
+    ofs.open(path, std::ios::binary);
+    ofs.write(data.data(), static_cast<std::streamsize>(data.size()));
+    ofs.close();
 }
 
 /// Write a json representation of the metafile to `os`.
-- 
2.43.0


From aba2740253db95b41d17cffa3cc48d29ef462b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:22 +0000
Subject: [PATCH 59/64] fix: a piece layer was read for a file that is not
 larger than a piece and lost when writing it again

---
 src/metafile_parsing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index ab0582a..a8d8dc6 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -777,7 +777,7 @@ void parse_piece_layers_v2(const T& data, metafile& m)
 
     for (auto& f: storage) {
         // piece layers are only set for files larger then the piece size
-        if (f.file_size() < m.storage().piece_size() || f.is_padding_file())
+        if (f.file_size() <= m.storage().piece_size() || f.is_padding_file())
             continue;
 
         auto root = f.pieces_root();
-- 
2.43.0


From 291aacd058a8dc7db1d8a9b334e812296adda0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:55 +0000
Subject: [PATCH 60/64] fix: a checksum that the crypto library cannot compute
 terminated the program

---
 src/storage_hasher.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index 20ce60b..df51653 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -31,6 +31,9 @@ storage_hasher::storage_hasher(file_storage& storage, const storage_hasher_optio
         , queue_capacity_()
         , enable_multi_buffer_hashing_(options.enable_multi_buffer_hashing)
 {
+    // Checksums are calculated on other threads which cannot report that an algorithm is not available.
+    for (auto algo : checksums_) { make_hasher(algo); }
+
     if (storage.piece_size() == 0)
         storage.set_piece_size(choose_piece_size(storage));
 
-- 
2.43.0


From c4851fdee6f18c220a2a3127f103ee598ae2062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:28 +0000
Subject: [PATCH 61/64] fix: files shortened by zero bytes were verified as
 complete

---
 include/dottorrent/chunk_reader.hpp          | 14 ++++++++++++++
 include/dottorrent/hashed_piece_verifier.hpp |  4 ++++
 include/dottorrent/v1_piece_verifier.hpp     |  2 ++
 include/dottorrent/v2_piece_verifier.hpp     |  2 ++
 src/chunk_reader.cpp                         |  5 +++++
 src/storage_verifier.cpp                     |  3 +++
 src/v1_chunk_reader.cpp                      |  7 +++++++
 src/v1_piece_verifier.cpp                    |  4 ++++
 src/v2_chunk_reader.cpp                      |  2 ++
 src/v2_piece_verifier.cpp                    | 10 ++++++++++
 10 files changed, 53 insertions(+)

diff --git a/include/dottorrent/chunk_reader.hpp b/include/dottorrent/chunk_reader.hpp
index 07f48b1..9104370 100644
--- a/include/dottorrent/chunk_reader.hpp
+++ b/include/dottorrent/chunk_reader.hpp
@@ -28,6 +28,15 @@ public:
     using hash_queue_vector = std::vector<std::shared_ptr<hash_queue>>;
     using checksum_queue_vector = std::vector<std::shared_ptr<checksum_queue>>;
 
+    /// A range of pieces [first, last) that are not completely on disk.
+    /// Pieces are counted from the first file of a v1 torrent and per file otherwise.
+    struct missing_pieces
+    {
+        std::size_t file_index;
+        std::size_t first;
+        std::size_t last;
+    };
+
     /// @param allow_missing_data: Whether files can be missing or shorter than their entry in storage.
     ///     Used when verifying torrents. Otherwise this is an error.
     chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity, bool allow_missing_data = false);
@@ -55,6 +64,10 @@ public:
 
     std::size_t bytes_read() const noexcept;
 
+    /// The pieces of which data was missing.
+    /// @note Only valid after a call to wait.
+    const std::vector<missing_pieces>& missing() const noexcept;
+
     virtual ~chunk_reader();
 
 protected:
@@ -68,6 +81,7 @@ protected:
     checksum_queue_vector checksum_queues_ {};
     std::jthread thread_;
     std::exception_ptr error_ {};
+    std::vector<missing_pieces> missing_ {};
     std::atomic<std::size_t> bytes_read_ = 0;
     std::atomic<bool> started_ = false;
     std::atomic<bool> cancelled_ = false;
diff --git a/include/dottorrent/hashed_piece_verifier.hpp b/include/dottorrent/hashed_piece_verifier.hpp
index 0759d8d..76ec6c1 100644
--- a/include/dottorrent/hashed_piece_verifier.hpp
+++ b/include/dottorrent/hashed_piece_verifier.hpp
@@ -20,6 +20,10 @@ public:
     // For v2 torrents each block is equal to 16 KiB.
     virtual const std::vector<std::uint8_t>& result() const noexcept = 0;
 
+    /// Mark the pieces [first, last) as invalid. Pieces are counted from the first file
+    /// of a v1 torrent and per file otherwise.
+    virtual void set_missing(std::size_t file_index, std::size_t first, std::size_t last) = 0;
+
     virtual double percentage(std::size_t file_index) const noexcept = 0;
 };
 
diff --git a/include/dottorrent/v1_piece_verifier.hpp b/include/dottorrent/v1_piece_verifier.hpp
index ece6fd7..e736ad0 100644
--- a/include/dottorrent/v1_piece_verifier.hpp
+++ b/include/dottorrent/v1_piece_verifier.hpp
@@ -39,6 +39,8 @@ public:
 
     const std::vector<std::uint8_t>& result() const noexcept override;
 
+    void set_missing(std::size_t file_index, std::size_t first, std::size_t last) override;
+
     double percentage(std::size_t file_index) const noexcept override;
 
 private:
diff --git a/include/dottorrent/v2_piece_verifier.hpp b/include/dottorrent/v2_piece_verifier.hpp
index 4cf0b41..0af02d7 100644
--- a/include/dottorrent/v2_piece_verifier.hpp
+++ b/include/dottorrent/v2_piece_verifier.hpp
@@ -35,6 +35,8 @@ public:
 
     const std::vector<std::uint8_t>& result() const noexcept override;
 
+    void set_missing(std::size_t file_index, std::size_t first, std::size_t last) override;
+
     double percentage(std::size_t file_index) const noexcept override;
 
 protected:
diff --git a/src/chunk_reader.cpp b/src/chunk_reader.cpp
index c73ac40..cdf3a13 100644
--- a/src/chunk_reader.cpp
+++ b/src/chunk_reader.cpp
@@ -78,6 +78,11 @@ std::size_t chunk_reader::bytes_read() const noexcept
     return bytes_read_.load(std::memory_order_relaxed);
 }
 
+const std::vector<chunk_reader::missing_pieces>& chunk_reader::missing() const noexcept
+{
+    return missing_;
+}
+
 chunk_reader::~chunk_reader() {
     if (started() && !done()) {
         std::terminate();
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index e28d864..80e6e25 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -194,6 +194,9 @@ void storage_verifier::wait()
     verifier_->wait();
     Expects(verifier_->done());
 
+    for (const auto& m : reader_->missing()) {
+        verifier_->set_missing(m.file_index, m.first, m.last);
+    }
     stopped_ = true;
 }
 
diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index f5664fb..36272ea 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -110,6 +110,13 @@ void v1_chunk_reader::handle_missing_data(std::size_t missing_file_size)
                 fmt::format("missing data of file: {}", file_entry.path().string()));
     }
 
+    // missing data is replaced by zero bytes, which can be equal to the data that is missing.
+    if (missing_file_size != 0 && !file_entry.is_padding_file()) {
+        const auto first = piece_index_ * piece_size + chunk_offset_;
+        missing_.push_back({file_index_, first / piece_size,
+                            (first + missing_file_size + piece_size - 1) / piece_size});
+    }
+
     // fill current pieces in this chunk with zero bytes.
     // padding files consist of zero bytes, the pieces covered by them are hashed like all others.
     while (missing_file_size != 0 && (chunk_offset_ != 0 || file_entry.is_padding_file())) {
diff --git a/src/v1_piece_verifier.cpp b/src/v1_piece_verifier.cpp
index 8280c8e..8938d9b 100644
--- a/src/v1_piece_verifier.cpp
+++ b/src/v1_piece_verifier.cpp
@@ -60,6 +60,10 @@ const std::vector<std::uint8_t>& v1_piece_verifier::result() const noexcept {
     return piece_map_;
 }
 
+void v1_piece_verifier::set_missing(std::size_t, std::size_t first, std::size_t last) {
+    std::fill(std::next(piece_map_.begin(), first), std::next(piece_map_.begin(), last), 0);
+}
+
 double v1_piece_verifier::percentage(std::size_t file_index) const noexcept {
     file_storage& storage = storage_;
     auto [first, last] = storage.get_pieces_offsets(file_index);
diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index e2a4dc1..fbed9f0 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -69,6 +69,8 @@ void v2_chunk_reader::run()
                             fmt::format("missing data of file: {}", file_entry.path().string()));
                 }
                 // missing data never matches, the pieces before it still can.
+                missing_.push_back({file_index_, piece_index_ + bytes_read / piece_size,
+                                    piece_index_ + detail::div_ceil(current_chunk_size_, piece_size)});
                 std::fill_n(chunk->data() + bytes_read, current_chunk_size_ - bytes_read, std::byte(0));
             }
 
diff --git a/src/v2_piece_verifier.cpp b/src/v2_piece_verifier.cpp
index dc215a9..5ba589f 100644
--- a/src/v2_piece_verifier.cpp
+++ b/src/v2_piece_verifier.cpp
@@ -67,6 +67,16 @@ const std::vector<std::uint8_t>& v2_piece_verifier::result() const noexcept {
     return piece_map_;
 }
 
+void v2_piece_verifier::set_missing(std::size_t file_index, std::size_t first, std::size_t last) {
+    const file_storage& storage = storage_;
+    const auto offset = file_offsets_.at(file_index);
+    last = std::min(last, std::max(std::size_t(1), storage[file_index].piece_layer().size()));
+
+    for (; first < last; ++first) {
+        piece_map_[offset + first] = 0;
+    }
+}
+
 double v2_piece_verifier::percentage(std::size_t file_index) const noexcept {
     Expects(file_index < file_offsets_.size());
     constexpr std::size_t max_size_t = std::numeric_limits<std::size_t>::max();
-- 
2.43.0


From e7c4907351880a434bf341466a7d083277768244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:55 +0000
Subject: [PATCH 62/64] fix: starting a running hasher or verifier again
 terminated the program

---
 src/storage_hasher.cpp   | 2 ++
 src/storage_verifier.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index df51653..2df5d3f 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -99,6 +99,8 @@ enum protocol storage_hasher::protocol() const noexcept
 void storage_hasher::start() {
     if (done())
         throw std::runtime_error("cannot start finished or cancelled hasher");
+    if (started())
+        throw std::runtime_error("hasher already started");
 
     auto& storage = storage_.get();
 
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 80e6e25..8622817 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -81,6 +81,8 @@ enum protocol storage_verifier::protocol() const noexcept
 void storage_verifier::start() {
     if (done())
         throw std::runtime_error("cannot start finished or cancelled hasher");
+    if (started())
+        throw std::runtime_error("hasher already started");
 
     auto& storage = storage_.get();
 
-- 
2.43.0


From 66b0b5f2c20d8e0ded6da635f38e393021e9a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:26 +0000
Subject: [PATCH 63/64] fix: the file of a single-file torrent got its path
 from a stray path field instead of its name

---
 include/dottorrent/metafile_parsing.hpp |  6 +++---
 src/metafile_parsing.cpp                | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/dottorrent/metafile_parsing.hpp b/include/dottorrent/metafile_parsing.hpp
index 261e208..d8dfce8 100644
--- a/include/dottorrent/metafile_parsing.hpp
+++ b/include/dottorrent/metafile_parsing.hpp
@@ -105,10 +105,10 @@ extern template std::optional<file_attributes> parse_file_attributes<>(const bc:
 extern template std::optional<file_attributes> parse_file_attributes<>(const bc::bview& data);
 
 template <bc::bvalue_or_bview T>
-file_entry parse_file_entry_v1(const T& data);
+file_entry parse_file_entry_v1(const T& data, bool is_single_file = false);
 
-extern template file_entry parse_file_entry_v1<>(const bc::bvalue& data);
-extern template file_entry parse_file_entry_v1<>(const bc::bview& data);
+extern template file_entry parse_file_entry_v1<>(const bc::bvalue& data, bool is_single_file);
+extern template file_entry parse_file_entry_v1<>(const bc::bview& data, bool is_single_file);
 
 template <bc::bvalue_or_bview T>
 void parse_file_list_v1(const T& data, metafile& m);
diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index a8d8dc6..76957e8 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -444,7 +444,7 @@ static std::optional<fs::path> parse_symlink_path(
 }
 
 template <bc::bvalue_or_bview T>
-auto parse_file_entry_v1(const T& data) -> file_entry
+auto parse_file_entry_v1(const T& data, bool is_single_file) -> file_entry
 {
     if (!holds_dict(data)) {
         throw parse_error("files", "expected dict");
@@ -454,7 +454,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
     fs::path path {};
 
     // multi_file
-    if (const auto it = file_dict.find("path"); it != file_dict.end()) {
+    if (const auto it = file_dict.find("path"); !is_single_file && it != file_dict.end()) {
         path = parse_path(it->second);
     }
     // single_file
@@ -587,7 +587,7 @@ void parse_file_list_v1(const T& data, metafile& m)
         }
         // single file torrent
         else {
-            add_file(storage, parse_file_entry_v1(dict.at("info")));
+            add_file(storage, parse_file_entry_v1(dict.at("info"), true));
             storage.set_file_mode(file_mode::single);
         }
     }
@@ -890,8 +890,8 @@ template fs::path parse_path<>(const bc::bview& data);
 template std::optional<file_attributes> parse_file_attributes<>(const bc::bvalue& data);
 template std::optional<file_attributes> parse_file_attributes<>(const bc::bview& data);
 
-template file_entry parse_file_entry_v1<>(const bc::bvalue& data);
-template file_entry parse_file_entry_v1<>(const bc::bview& data);
+template file_entry parse_file_entry_v1<>(const bc::bvalue& data, bool is_single_file);
+template file_entry parse_file_entry_v1<>(const bc::bview& data, bool is_single_file);
 
 template void parse_file_list_v1<>(const bc::bvalue& data, metafile& m);
 template void parse_file_list_v1<>(const bc::bview& data, metafile& m);
-- 
2.43.0


From e58ac490a81d611afeb38077b3d06e4b4333b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 64/64] fix: percent_decode of a text returned the part before
 a malformed escape instead of reporting an error

---
 include/dottorrent/percent_encoding.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index 89e42e9..8dbe27b 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -3,6 +3,7 @@
 #include <type_traits>
 #include <concepts>
 #include <ranges>
+#include <stdexcept>
 
 #include "dottorrent/hex.hpp"
 
@@ -151,7 +152,10 @@ inline std::string percent_decode(std::string_view value)
 {
     std::string s {};
     s.reserve(value.size());
-    percent_decode(value.begin(), value.end(), std::back_inserter(s));
+    auto status = percent_decode(value.begin(), value.end(), std::back_inserter(s));
+    if (status != percent_decode_status::success) {
+        throw std::invalid_argument("invalid percent-encoded text");
+    }
     return s;
 }
 
-- 
2.43.0

