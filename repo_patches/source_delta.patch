From 7071e33ca19b1c3d3221fb7234ca88691324988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:11 +0000
Subject: [PATCH 01/19] fix: accept every 20-digit number that fits uint64

str_to_big_unsigned compared the digits of 20-digit input one by one with the digits of
2^64-1, rejecting valid numbers such as 10000000000000000009
---
 src/cachelot/string_conv.h | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 5c18e9a..d31728d 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -236,32 +236,17 @@ namespace cachelot {
             }
 
             switch (length) {
-                case 20: // in ASCII max uint64 number length is 20
+                case 20: { // in ASCII max uint64 number length is 20
                     // check against the biggest uint64 number - 18446744073709551615
-                    if (str[ 0] > '1' ||
-                        str[ 1] > '8' ||
-                        str[ 2] > '4' ||
-                        str[ 3] > '4' ||
-                        str[ 4] > '6' ||
-                        str[ 5] > '7' ||
-                        str[ 6] > '4' ||
-                        str[ 7] > '4' ||
-                        str[ 8] > '0' ||
-                        str[ 9] > '7' ||
-                        str[10] > '3' ||
-                        str[11] > '7' ||
-                        str[12] > '0' ||
-                        str[13] > '9' ||
-                        str[14] > '5' ||
-                        str[15] > '5' ||
-                        str[16] > '1' ||
-                        str[17] > '6' ||
-                        str[18] > '1' ||
-                        str[19] > '5' ) {
+                    static constexpr uint64 MAX_VALUE = std::numeric_limits<uint64>::max();
+                    const uint64 head = str_to_big_unsigned_impl<ConstIterator, 19>::convert(0, str, length);
+                    const uint64 last_digit = str[19] - '0';
+                    if (head > MAX_VALUE / 10 || (head == MAX_VALUE / 10 && last_digit > MAX_VALUE % 10)) {
                         out_error = error::numeric_overflow;
                         return NO_RESULT;
                     }
-                    return str_to_big_unsigned_impl<ConstIterator, 20>::convert(0, str, length);
+                    return head * 10 + last_digit;
+                }
                 case 19:
                     return str_to_big_unsigned_impl<ConstIterator, 19>::convert(0, str, length);
                 case 18:
-- 
2.43.0


From 6266d7e030e356285dbc5dd18b417ca16876ceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:26 +0000
Subject: [PATCH 02/19] fix: do not read past the end of empty text when
 parsing a signed number

---
 src/cachelot/string_conv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index d31728d..d7b94eb 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -301,7 +301,7 @@ namespace cachelot {
             static constexpr int64 NO_RESULT = std::numeric_limits<int64>::max();
 
             int64 sign;
-            if (*str != '-') {
+            if (str == end || *str != '-') {
                 sign = 1;
             } else {
                 sign = -1;
-- 
2.43.0


From 849b3559af0ba74727ef8a0faa6838f23a0b8c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:24 +0000
Subject: [PATCH 03/19] fix: hash_table::insert returns the position of the
 inserted entry

When the insertion displaced an existing entry, the position of the last displaced
entry was returned, so an iterator obtained while the dict was expanding could refer
to another key.
---
 src/cachelot/hash_table.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 3a9c9d2..6295a23 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -187,11 +187,15 @@ namespace cachelot {
         }
 
         /// insert entry starting from given pos that was returned by @ref hash_table::entry_for
+        ///
+        /// @return position of the inserted entry
         size_type insert(size_type pos, const key_type key, hash_type hash, mapped_type value) noexcept {
             debug_assert(not threshold_reached()); debug_assert(hash != 0);
             entry_type entry(key, value);
             // how far we from the desired position
             size_type lookup_distance = get_distance(pos, hash);
+            // position where the new entry was placed (existing entries may be displaced by it)
+            bool displaced = false; size_type inserted_pos = pos;
             while (not empty_at(pos)) {
                 debug_assert( not eq(entry_at(pos).key(), entry.key()) ); // entry must be unique
                 const size_type existing_entry_distance = get_distance(pos, hash_at(pos));
@@ -199,6 +203,10 @@ namespace cachelot {
                     std::swap(hash, m_hashes[pos]);
                     swap(entry, entry_at(pos));
                     lookup_distance = existing_entry_distance;
+                    if (not displaced) {
+                        displaced = true;
+                        inserted_pos = pos;
+                    }
                 }
                 pos = inc_pos(pos);
                 lookup_distance += 1;
@@ -207,7 +215,7 @@ namespace cachelot {
             m_hashes[pos] = hash;
             std::swap(m_entries[pos], entry);
             m_size += 1;
-            return pos;
+            return displaced ? inserted_pos : pos;
         }
 
         /// remove element pos given pos
-- 
2.43.0


From 09bff5ac23415d1fee90e863d4ee0d32611e4afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:24 +0000
Subject: [PATCH 04/19] fix: keep entries whose hash value is zero

Zero marks an empty slot of the hash table, so an entry with such a hash was written
to a slot that still looked empty: it was never found again, and could be overwritten.
---
 src/cachelot/dict.h       |  2 +-
 src/cachelot/hash_table.h | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index f7ccf4c..51d64e5 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -102,7 +102,7 @@ namespace cachelot {
             void unsafe_replace_kv(const key_type k, const hash_type h, mapped_type v) noexcept {
                 debug_assert(*this);
                 entry_type new_entry(k, v);
-                debug_assert(m_table->hash_at(m_pos) == h); (void)h;
+                debug_assert(m_table->hash_at(m_pos) == hash_table_type::stored_hash(h)); (void)h;
                 m_table->entry_at(m_pos).swap(new_entry);
             }
 
diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 6295a23..e588a66 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -99,7 +99,6 @@ namespace cachelot {
 
         /// retrieve stored value by its key
         tuple<bool, mapped_type> get(const key_type key, const hash_type hash) const noexcept {
-            debug_assert(hash != 0);
             bool found; size_type pos;
             tie(found, pos) = entry_for(key, hash);
             mapped_type result = found ? entry_at(pos).value() : mapped_type();
@@ -110,7 +109,6 @@ namespace cachelot {
         ///
         /// @return true if new value was inserted, false if existing value was updated
         bool put(key_type key, hash_type hash, mapped_type value) noexcept {
-            debug_assert(hash != 0);
             bool found; size_type pos;
             tie(found, pos) = entry_for(key, hash);
             if (found) {
@@ -160,7 +158,6 @@ namespace cachelot {
 
         /// check if given `key` is in the hash table
         bool contains(key_type key, hash_type hash) const noexcept {
-            debug_assert(hash != 0);
             bool found; size_t __;
             tie(found, __) = entry_for(key, hash);
             return found;
@@ -169,8 +166,8 @@ namespace cachelot {
         /// retrieve position of in table for the given `key`
         ///
         /// @return either `(true, existing_entry_pos)` if key exists, or `(false, position_to_insert_new_entry)` if key wasn't found
-        tuple<bool, size_type> entry_for(const key_type key, const hash_type hash) const noexcept {
-            debug_assert(hash != 0);
+        tuple<bool, size_type> entry_for(const key_type key, hash_type hash) const noexcept {
+            hash = stored_hash(hash);
             size_type pos = desired_position(hash);
             size_type distance = 0;
             // NOTE! we may give up before we find suitable slot, then `insert` will continue search from this point
@@ -190,7 +187,8 @@ namespace cachelot {
         ///
         /// @return position of the inserted entry
         size_type insert(size_type pos, const key_type key, hash_type hash, mapped_type value) noexcept {
-            debug_assert(not threshold_reached()); debug_assert(hash != 0);
+            debug_assert(not threshold_reached());
+            hash = stored_hash(hash);
             entry_type entry(key, value);
             // how far we from the desired position
             size_type lookup_distance = get_distance(pos, hash);
@@ -244,6 +242,11 @@ namespace cachelot {
         }
 
 
+        /// hash value under which entry with the given `hash` is stored, zero is reserved to mark empty slots
+        static constexpr hash_type stored_hash(const hash_type hash) noexcept {
+            return hash != 0 ? hash : hash_type(1);
+        }
+
         /// return hash value of an entry at `pos`
         hash_type hash_at(const size_type pos) const noexcept {
             debug_assert(pos < capacity());
-- 
2.43.0


From c75ac657536616e8ee123e1f53039e73e64104c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:24 +0000
Subject: [PATCH 05/19] fix: compute hash table load threshold without overflow

capacity * 93 wrapped around in 32 bits for tables of 2^26 and more slots
---
 src/cachelot/hash_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index e588a66..af6acf0 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -286,7 +286,7 @@ namespace cachelot {
         constexpr bool empty() const noexcept { return m_size == 0; }
 
         /// returns max number of elements that can be stored in table
-        constexpr size_type max_size() const noexcept { return static_cast<size_type>(capacity() * max_load_factor_percent / 100); }
+        constexpr size_type max_size() const noexcept { return static_cast<size_type>(static_cast<uint64>(capacity()) * max_load_factor_percent / 100); }
 
     private:
         /// return position in table which element with given `hash` would occupy
-- 
2.43.0


From c4b9fde848e2161c07afb9410f81ec2e666706d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:06 +0000
Subject: [PATCH 06/19] fix: look the counter up again after the allocation of
 its new value

create_item() may evict items, among them the counter itself; dict entries are moved by
that, so the iterator obtained before replaced the entry of some other key and the old
item could be released twice.
---
 src/cachelot/cache.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 691644b..9939795 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -631,10 +631,16 @@ namespace cachelot {
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             // create new item to hold value including zero terminator
             ItemPtr new_item;
-            new_item = create_item(old_item->key(), old_item->hash(), new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
+            new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
-            replace_item_at(at, _item_uniq_ptr);
+            // eviction may have moved entries of the dict or removed the `old_item`, look it up again
+            tie(found, at) = m_dict.entry_for(key, hash);
+            if (found) {
+                replace_item_at(at, _item_uniq_ptr);
+            } else {
+                insert_item_at(at, _item_uniq_ptr);
+            }
             return make_tuple(true, new_int_value);
         }
 
-- 
2.43.0


From b6b3c45c142f4c66bcab70e4f65e3a24f66ec6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:06 +0000
Subject: [PATCH 07/19] fix: refuse append/prepend when the result does not fit
 a page

The allocator only supports requests up to the page size, a bigger one made it access
the free blocks table out of bounds.
---
 src/cachelot/cache.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 9939795..f645952 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -516,8 +516,12 @@ namespace cachelot {
             if (found) {
                 auto old_item = at.value();
                 const size_t new_value_size = old_item->value().length() + piece->value().length();
+                const size_t size_required = Item::CalcSizeRequired(old_item->key(), new_value_size);
+                if (size_required > m_allocator.page_size - memalloc::header_size()) {
+                    throw system_error(error::item_too_big);
+                }
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
-                auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
+                auto memory = m_allocator.alloc_or_evict(size_required, false, [=](void *){});
                 if (memory != nullptr) {
                     auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), old_item->ttl(), ++m_newest_timestamp);
                     ItemAutoDelete _item_uniq_ptr(this, new_item);
-- 
2.43.0


From 6bf614ce20215ce9ad0050924d4096ec6ea4ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:06 +0000
Subject: [PATCH 08/19] fix: refuse items which do not fit a page together with
 the block header

An item whose size was within the last header_size() bytes of the page size got a block
smaller than the item and overwrote the beginning of the next page. Huge value length
overflowed the computed size of an item.
---
 src/cachelot/cache.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index f645952..f08a613 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -654,8 +654,13 @@ namespace cachelot {
             if (key.length() > Item::max_key_length) {
                 throw system_error(error::key_too_long);
             }
+            // biggest allocation is a page without the header of its block
+            const size_t max_item_size = m_allocator.page_size - memalloc::header_size();
+            if (value_length > max_item_size) { // also prevents overflow of the item size
+                throw system_error(error::item_too_big);
+            }
             const size_t size_required = Item::CalcSizeRequired(key, value_length);
-            if (size_required > m_allocator.page_size) {
+            if (size_required > max_item_size) {
                 throw system_error(error::item_too_big);
             }
             const auto on_delete = [=](void * ptr) noexcept -> void {
-- 
2.43.0


From d8a63541fba970a7fb77ba637935fa3aa8a126b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:06 +0000
Subject: [PATCH 09/19] fix: refuse zero initial_dict_size

Hash table without slots was created and then accessed out of bounds
---
 src/cachelot/cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index f08a613..9a40fac 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -375,6 +375,9 @@ namespace cachelot {
             if (not ispow2(initial_dict_size)) {
                 throw std::invalid_argument("initial_dict_size must be power of 2");
             }
+            if (initial_dict_size == 0) {
+                throw std::invalid_argument("initial_dict_size must be non-zero");
+            }
             if (initial_dict_size > std::numeric_limits<dict_type::size_type>::max()) {
                 throw std::invalid_argument("initial_dict_size is too big");
             }
-- 
2.43.0


From e053ac08d7906bfac950c577153abcb843001707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:06 +0000
Subject: [PATCH 10/19] fix: find the page of an address above the first 4GB of
 the arena

Offset in the arena was truncated to 32 bits
---
 src/cachelot/memalloc-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index f9348ec..2864761 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -142,10 +142,10 @@ namespace cachelot {
             return u8_ptr >= arena_begin && u8_ptr < arena_end;
         }
     private:
-        unsigned page_no_from_addr(const void * const ptr) const noexcept {
+        size_t page_no_from_addr(const void * const ptr) const noexcept {
             debug_assert(valid_addr(ptr));
             auto ui8_ptr = reinterpret_cast<const uint8 * const>(ptr);
-            auto page_no = static_cast<unsigned>(ui8_ptr - arena_begin) >> log2_page_size;
+            auto page_no = static_cast<size_t>(ui8_ptr - arena_begin) >> log2_page_size;
             debug_assert(page_no < num_pages);
             return page_no;
         }
-- 
2.43.0


From ef5974c43182b78e0623ff58bd4b814a37f20527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:06 +0000
Subject: [PATCH 11/19] fix: do not wrap around the expiration time

Item with a huge time-to-live got the expiration time in the past and was expired at once
---
 src/cachelot/item.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index e02683e..98c115a 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -183,7 +183,10 @@ namespace cachelot {
             if (s == infinite_TTL) {
                 m_expiration_time = expiration_time_point::max();
             } else {
-                m_expiration_time = clock::now() + s;
+                const auto now = clock::now();
+                // do not wrap around when the lifetime exceeds range of the clock
+                const auto max = expiration_time_point::max();
+                m_expiration_time = (max - now > s) ? now + s : max;
             }
         }
 
-- 
2.43.0


From d7bfd8506b289685efa12b7a40d474cb65e23261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:06 +0000
Subject: [PATCH 12/19] fix: keep the expiration time of the item when it is
 modified in place

incr/decr/append/prepend re-created the item with the remaining lifetime. If the clock
advanced in between the remaining lifetime was zero, which stands for "never expires".
---
 src/cachelot/cache.h | 7 +++++--
 src/cachelot/item.h  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 9a40fac..a269c90 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -526,7 +526,8 @@ namespace cachelot {
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
                 auto memory = m_allocator.alloc_or_evict(size_required, false, [=](void *){});
                 if (memory != nullptr) {
-                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), old_item->ttl(), ++m_newest_timestamp);
+                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), Item::infinite_TTL, ++m_newest_timestamp);
+                    new_item->set_expiration_time(old_item->expiration_time());
                     ItemAutoDelete _item_uniq_ptr(this, new_item);
                     if (op == ExtendOperation::APPEND) {
                         new_item->assign_compose(old_item->value(), piece->value());
@@ -638,8 +639,10 @@ namespace cachelot {
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             // create new item to hold value including zero terminator
             ItemPtr new_item;
-            new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
+            const auto expiration_time = old_item->expiration_time();
+            new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), Item::infinite_TTL);
             ItemAutoDelete _item_uniq_ptr(this, new_item);
+            new_item->set_expiration_time(expiration_time);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
             // eviction may have moved entries of the dict or removed the `old_item`, look it up again
             tie(found, at) = m_dict.entry_for(key, hash);
diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index 98c115a..4ab87d2 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -103,6 +103,9 @@ namespace cachelot {
             /// retrieve expiration time of this item
             expiration_time_point expiration_time() const noexcept { return m_expiration_time; }
 
+            /// set new expiration time
+            void set_expiration_time(expiration_time_point t) noexcept { m_expiration_time = t; }
+
             /// retrive number of seconds until expiration
             seconds ttl() const noexcept;
 
-- 
2.43.0


From 8601241e19fd8ba601fc1788b59a8d52fb04085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:20 +0000
Subject: [PATCH 13/19] fix: C API reports no error after every successful call

incr, decr, flush_all, create_item_raw and init left the error of an earlier call in the
error structure
---
 src/cachelot/c_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cachelot/c_api.cpp b/src/cachelot/c_api.cpp
index d16d06c..9570b0e 100644
--- a/src/cachelot/c_api.cpp
+++ b/src/cachelot/c_api.cpp
@@ -74,6 +74,7 @@ extern "C" {
     CachelotPtr cachelot_init(CachelotOptions opts, CachelotError * out_error) {
         try {
             cachelot_t * c = new cachelot_t{cache::Cache::Create(opts.memory_limit, opts.mem_page_size, opts.initial_dict_size, opts.enable_evictions)};
+            none_error(out_error);
             return c;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -97,6 +98,7 @@ extern "C" {
         try {
             auto new_item = c->cache.create_item(slice(k.key, k.keylen), k.hash, valuelen, 0, cache::Item::infinite_TTL);
             new_item->assign_value(slice(value, valuelen));
+            none_error(out_error);
             return reinterpret_cast<CachelotItemPtr>(new_item);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -292,6 +294,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -311,6 +314,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -326,6 +330,7 @@ extern "C" {
     void cachelot_flush_all(CachelotPtr c, CachelotError * out_error) {
         try {
             c->cache.do_flush_all();
+            none_error(out_error);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
         } catch(const std::exception & e) {
-- 
2.43.0


From 1705c25a6aa446811d6153ad17c7cd041b50e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:39 +0000
Subject: [PATCH 14/19] fix: terminate the error description of the C API

strncpy does not terminate the description when the message is longer than the buffer
---
 src/cachelot/c_api.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cachelot/c_api.cpp b/src/cachelot/c_api.cpp
index 9570b0e..400ca6c 100644
--- a/src/cachelot/c_api.cpp
+++ b/src/cachelot/c_api.cpp
@@ -48,7 +48,8 @@ extern "C" {
         out_err->code = code.value();
         out_err->category = category.name();
         auto desc = category.message(code.value());
-        strncpy((char *)out_err->desription, desc.c_str(), sizeof(CachelotError::desription));
+        strncpy((char *)out_err->desription, desc.c_str(), sizeof(CachelotError::desription) - 1);
+        out_err->desription[sizeof(CachelotError::desription) - 1] = '\0';
     }
 
     inline void std_exception_to_err_struct(const std::exception & err, CachelotError * out_err) noexcept {
@@ -57,7 +58,8 @@ extern "C" {
         }
         out_err->code = unknown_error_code;
         out_err->category = unknown_error_category;
-        strncpy((char *)out_err->desription, err.what(), sizeof(CachelotError::desription));
+        strncpy((char *)out_err->desription, err.what(), sizeof(CachelotError::desription) - 1);
+        out_err->desription[sizeof(CachelotError::desription) - 1] = '\0';
     }
 
     inline void unknown_exception_to_err_struct(CachelotError * out_err) noexcept {
@@ -67,7 +69,8 @@ extern "C" {
         out_err->code = unknown_error_code;
         out_err->category = unknown_error_category;
         static const char msg[] = "unknown";
-        strncpy((char *)out_err->desription, msg, sizeof(CachelotError::desription));
+        strncpy((char *)out_err->desription, msg, sizeof(CachelotError::desription) - 1);
+        out_err->desription[sizeof(CachelotError::desription) - 1] = '\0';
     }
 
 
-- 
2.43.0


From 9319fc19229f711b629b8e63d8cb4ae56233eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 15/19] fix: keep io_buffer contents when it can not grow

When realloc failed the pointer to the data was lost
---
 src/server/io_buffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index 4e3102a..9cb549f 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -161,8 +161,9 @@ namespace cachelot {
             // grow buffer
             const size_t new_capacity = capacity_advice(at_least);
             if (new_capacity - size() >= at_least) {
-                m_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
-                if (m_data != nullptr) {
+                auto new_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
+                if (new_data != nullptr) {
+                    m_data = new_data;
                     m_capacity = new_capacity;
                 } else {
                     throw std::bad_alloc();
-- 
2.43.0


From c6efe89bd8e7de6c5be0106a167f758bdd7b7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 16/19] fix: discard UDP frame header when there is nothing to
 reply

Header of the datagram which was not replied (noreply or incomplete request) remained in
the send buffer and was sent before the frame header of the next reply
---
 src/server/memcached/conversation.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/memcached/conversation.h b/src/server/memcached/conversation.h
index 3eecc29..ff66329 100644
--- a/src/server/memcached/conversation.h
+++ b/src/server/memcached/conversation.h
@@ -85,7 +85,12 @@ namespace cachelot {
                 auto w_savepoint = send_buf.write_savepoint();
                 try {
                     handle_udp_frame_header(recv_buf, send_buf);
-                    return handle_received_data(recv_buf, send_buf, cache_api);
+                    const auto reply = handle_received_data(recv_buf, send_buf, cache_api);
+                    if (reply != net::SEND_REPLY_AND_READ) {
+                        // there is no reply, do not leave frame header in the buffer
+                        send_buf.rollback_write_transaction(w_savepoint);
+                    }
+                    return reply;
                 } catch (const std::exception & exc) {
                     send_buf.rollback_write_transaction(w_savepoint);
                     return net::READ_MORE;
-- 
2.43.0


From 127456f0029dce14684fe40456f5733afab52d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 17/19] fix: allow writing of zero bytes to io_buffer

Reply with an empty item value failed an assertion in debug builds
---
 src/server/io_buffer.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index 9cb549f..2a223cb 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -154,7 +154,6 @@ namespace cachelot {
 
         /// ensure that buffer is capable to store `at_least` slice; resize if neccessary
         void ensure_capacity(const size_t at_least) {
-            debug_assert(at_least > 0);
             if (available() >= at_least) {
                 return; // we have enough space
             }
-- 
2.43.0


From 3c0f9374cdca854aac091cc8522aff45ab8a2137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:42 +0000
Subject: [PATCH 18/19] fix: slice::startswith on the empty range and on a part
 of the range itself

Empty slice "started" with anything; a range was reported not to start with its own part
taken from the middle even if the contents match
---
 src/cachelot/slice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/slice.h b/src/cachelot/slice.h
index 38948ff..c32efc0 100644
--- a/src/cachelot/slice.h
+++ b/src/cachelot/slice.h
@@ -114,7 +114,7 @@ namespace cachelot {
 
         /// returns `true` if this slice contents starts with `what`
         bool startswith(const slice what) const noexcept {
-            return search(what).begin() == begin();
+            return what.length() <= length() && std::equal(what.begin(), what.end(), begin());
         }
 
         /// returns `true` if this slice contents ends with `what`
-- 
2.43.0


From b5177bb676b83839ed99c11620d400868f04fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:01 +0000
Subject: [PATCH 19/19] fix: dict survives a failed allocation of the bigger
 table

---
 src/cachelot/dict.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index 51d64e5..2cf7ef9 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -287,17 +287,16 @@ namespace cachelot {
 
         void begin_expand() {
             debug_assert(not is_expanding());
-            m_expand_pos = 0;
-            m_primary_tbl.swap(m_secondary_tbl);
-            m_primary_tbl.reset(new hash_table_type(pow2(m_hashpower + 1)));
-            if (m_primary_tbl && m_primary_tbl->ok()) {
-                m_hashpower += 1;
-                rehash_some();
-            } else {
-                m_primary_tbl.swap(m_secondary_tbl);
-                m_secondary_tbl.reset(nullptr);
+            // allocate first: the dict must stay intact if there is no memory for the bigger table
+            std::unique_ptr<hash_table_type> expanded_tbl(new hash_table_type(pow2(m_hashpower + 1)));
+            if (not expanded_tbl->ok()) {
                 throw std::bad_alloc();
             }
+            m_expand_pos = 0;
+            m_primary_tbl.swap(m_secondary_tbl);
+            m_primary_tbl.swap(expanded_tbl);
+            m_hashpower += 1;
+            rehash_some();
         }
 
         void end_expand() noexcept {
-- 
2.43.0

