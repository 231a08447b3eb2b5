From ca42577e90c720ce96035bb7b39032c957709abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 01/62] fix: partitions at the end of the id range (interval
 overflow)

---
 monotone/engine/engine/engine.c        | 2 ++
 monotone/engine/engine/engine_cursor.h | 5 ++++-
 monotone/engine/engine/op.c            | 6 +++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index e459767..dc4c28f 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -142,6 +142,8 @@ engine_lock(Engine* self, uint64_t id, LockType lock,
 			// interval is inclusive
 			auto min = config_interval_of(id);
 			auto max = (min + config_interval()) - 1;
+			if (unlikely(max < min))
+				max = UINT64_MAX;
 			engine_fill_nolock(self, min, max);
 
 			// retry search
diff --git a/monotone/engine/engine/engine_cursor.h b/monotone/engine/engine/engine_cursor.h
index 8907440..429bd18 100644
--- a/monotone/engine/engine/engine_cursor.h
+++ b/monotone/engine/engine/engine_cursor.h
@@ -98,6 +98,7 @@ engine_cursor_next(EngineCursor* self)
 	if (likely(part_cursor_has(&self->cursor)))
 		return;
 
+	bool     last = self->ref->slice.max == UINT64_MAX;
 	uint64_t next_interval = self->ref->slice.max + 1;
 
 	// close previous partition
@@ -105,7 +106,9 @@ engine_cursor_next(EngineCursor* self)
 	engine_unlock(self->engine, self->ref, LOCK_ACCESS);
 	self->ref = NULL;
 
-	// open next partition
+	// open next partition, unless the end of the range is reached
+	if (unlikely(last))
+		return;
 	engine_cursor_open_part(self, next_interval, NULL);
 }
 
diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 2d3e9ab..b661b3b 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -102,10 +102,14 @@ engine_fill_nolock(Engine* self, uint64_t min, uint64_t max)
 					gap.max = slice->min - 1;
 				buf_write(&gaps, &gap, sizeof(gap));
 
+				if (slice->max == UINT64_MAX)
+					break;
 				min = slice->max + 1;
 			} else
 			if (slice_in(slice, min))
 			{
+				if (slice->max == UINT64_MAX)
+					break;
 				min = slice->max + 1;
 			}
 
@@ -155,7 +159,7 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
 	if (ref_min >= *min && ref_max <= max)
 	{
 		*min = ref_min;
-		*min_next = ref_max + 1;
+		*min_next = ref_max < UINT64_MAX ? ref_max + 1 : ref_max;
 		return true;
 	}
 	return false;
-- 
2.43.0


From 42310cd59e41642fb08ed536ea0030238669b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 02/62] fix: compare ids and keys without overflow or
 truncation

---
 monotone/engine/io/comparator.h | 9 ++++-----
 monotone/runtime/runtime/misc.h | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/monotone/engine/io/comparator.h b/monotone/engine/io/comparator.h
index 53a83b0..f5928f5 100644
--- a/monotone/engine/io/comparator.h
+++ b/monotone/engine/io/comparator.h
@@ -31,9 +31,8 @@ compare(Comparator* self, Event* a, Event* b)
 {
 	unused(self);
 	// compare by [id, key]
-	int64_t diff = a->id - b->id;
-	if (likely(diff != 0))
-		return diff;
+	if (likely(a->id != b->id))
+		return (a->id > b->id) ? 1 : -1;
 	if (a->key_size == 0 && b->key_size == 0)
 		return 0;
 	int size;
@@ -43,6 +42,6 @@ compare(Comparator* self, Event* a, Event* b)
 		size = b->key_size;
 	int rc = memcmp(a->data, b->data, size);
 	if (rc == 0)
-		return (int64_t)a->key_size - (int64_t)b->key_size;
-	return rc;
+		rc = (int)a->key_size - (int)b->key_size;
+	return (rc > 0) - (rc < 0);
 }
diff --git a/monotone/runtime/runtime/misc.h b/monotone/runtime/runtime/misc.h
index 3b747eb..5561c0b 100644
--- a/monotone/runtime/runtime/misc.h
+++ b/monotone/runtime/runtime/misc.h
@@ -16,5 +16,5 @@
 always_inline static inline int64_t
 compare_u64(uint64_t a, uint64_t b)
 {
-	return (int64_t)a - (int64_t)b;
+	return (a > b) - (a < b);
 }
-- 
2.43.0


From e7f2cc58b97d456f0b49446576009dacdfb75d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 03/62] fix: memtable page split overwrites the right subtree

---
 monotone/engine/io/memtable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index f904dbe..e84b060 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -274,7 +274,9 @@ memtable_set(Memtable* self, Event* event)
 	if (page_split)
 	{
 		// update split page
-		rbtree_set(&self->tree, &page->node, -1, &page_split->node);
+		RbtreeNode* node = NULL;
+		int rc = memtable_find(&self->tree, self, page_split->events[0], &node);
+		rbtree_set(&self->tree, node, rc, &page_split->node);
 		self->count_pages++;
 	}
 	return prev;
-- 
2.43.0


From 68ef93794d65346e407a3fa13f83bae040ab940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:58 +0000
Subject: [PATCH 04/62] fix: zstd compression of empty and incompressible data

---
 monotone/runtime/lib/compression_zstd.c | 58 +++++++++++++------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/monotone/runtime/lib/compression_zstd.c b/monotone/runtime/lib/compression_zstd.c
index 9c799a5..aa85bab 100644
--- a/monotone/runtime/lib/compression_zstd.c
+++ b/monotone/runtime/lib/compression_zstd.c
@@ -48,6 +48,33 @@ compression_zstd_free(Compression* ptr)
 	mn_free(self);
 }
 
+hot static inline void
+compression_zstd_step(CompressionZstd* self, Buf* buf, Buf* data, ZSTD_EndDirective op)
+{
+	ZSTD_inBuffer in;
+	in.src  = data ? data->start : NULL;
+	in.size = data ? buf_size(data) : 0;
+	in.pos  = 0;
+	for (;;)
+	{
+		ZSTD_outBuffer out;
+		out.dst  = buf->position;
+		out.size = buf_size_unused(buf);
+		out.pos  = 0;
+
+		size_t rc;
+		rc = ZSTD_compressStream2(self->ctx, &out, &in, op);
+		if (unlikely(ZSTD_isError(rc)))
+			error("zstd: compression failed");
+		buf_advance(buf, out.pos);
+
+		// done when all input is consumed and all output is flushed
+		if (in.pos == in.size && (op == ZSTD_e_continue || rc == 0))
+			break;
+		buf_reserve(buf, ZSTD_CStreamOutSize());
+	}
+}
+
 hot static void
 compression_zstd_compress(Compression* ptr, Buf* buf, int level,
                           int          argc,
@@ -61,36 +88,11 @@ compression_zstd_compress(Compression* ptr, Buf* buf, int level,
 	size_t size = 0;
 	for (int i = 0; i < argc; i++)
 		size += buf_size(argv[i]);
-	buf_reserve(buf, size);
-
-	ZSTD_outBuffer out;
-	out.dst  = buf->position;
-	out.size = buf_size_unused(buf);
-	out.pos  = 0;
+	buf_reserve(buf, ZSTD_compressBound(size));
 
 	for (int i = 0; i < argc; i++)
-	{
-		ZSTD_inBuffer in;
-		in.src   = argv[i]->start;
-		in.size  = buf_size(argv[i]);
-		in.pos   = 0;
-
-		ssize_t rc;
-		rc = ZSTD_compressStream2(self->ctx, &out, &in, ZSTD_e_continue);
-		assert(rc == 0);
-		unused(rc);
-	}
-
-	ZSTD_inBuffer in;
-	in.src   = NULL;
-	in.size  = 0;
-	in.pos   = 0;
-	ssize_t rc;
-	rc = ZSTD_compressStream2(self->ctx, &out, &in, ZSTD_e_end);
-	assert(rc == 0);
-	unused(rc);
-
-	buf_advance(buf, out.pos);
+		compression_zstd_step(self, buf, argv[i], ZSTD_e_continue);
+	compression_zstd_step(self, buf, NULL, ZSTD_e_end);
 }
 
 hot static void
-- 
2.43.0


From 747ffd5f17d4b9ff8b03d0041542c9801ab51712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:58 +0000
Subject: [PATCH 05/62] fix: report damaged compressed and encrypted data as an
 error

---
 monotone/runtime/lib/compression_lz4.c  | 5 ++++-
 monotone/runtime/lib/compression_zstd.c | 3 ++-
 monotone/runtime/lib/encryption_aes.c   | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/monotone/runtime/lib/compression_lz4.c b/monotone/runtime/lib/compression_lz4.c
index 196af80..83147b0 100644
--- a/monotone/runtime/lib/compression_lz4.c
+++ b/monotone/runtime/lib/compression_lz4.c
@@ -134,10 +134,13 @@ compression_lz4_decompress(Compression* ptr,
 		                     NULL);
 		if (unlikely(LZ4F_isError(rc)))
 			compression_lz4_error(rc);
+		if (unlikely(dst_size == 0 && src_size == 0))
+			error("lz4: decompressed data has incorrect size");
 		buf_advance(buf, dst_size);
 		pos += src_size;
 	}
-	assert(buf_size(buf) == data_size_uncompressed);
+	if (unlikely(buf_size(buf) != data_size_uncompressed))
+		error("lz4: decompressed data has incorrect size");
 }
 
 CompressionIf compression_lz4 =
diff --git a/monotone/runtime/lib/compression_zstd.c b/monotone/runtime/lib/compression_zstd.c
index aa85bab..dbd3af1 100644
--- a/monotone/runtime/lib/compression_zstd.c
+++ b/monotone/runtime/lib/compression_zstd.c
@@ -108,7 +108,8 @@ compression_zstd_decompress(Compression* ptr,
 	rc = ZSTD_decompress(buf->start, data_size_uncompressed, data, data_size);
 	if (unlikely(ZSTD_isError(rc)))
 		error("zstd: decompression failed");
-	assert(rc == data_size_uncompressed);
+	if (unlikely(rc != data_size_uncompressed))
+		error("zstd: decompressed data has incorrect size");
 	buf_advance(buf, data_size_uncompressed);
 }
 
diff --git a/monotone/runtime/lib/encryption_aes.c b/monotone/runtime/lib/encryption_aes.c
index 1129514..1a96b80 100644
--- a/monotone/runtime/lib/encryption_aes.c
+++ b/monotone/runtime/lib/encryption_aes.c
@@ -118,6 +118,9 @@ encryption_aes_decrypt(Encryption* ptr,
 	if (unlikely(str_size(key) != 32))
 		error("aes: encryption key must be 256bit");
 
+	if (unlikely(data_size < 32))
+		error("aes: encrypted data has incorrect size");
+
 	buf_reserve(buf, data_size);
 
 	// [iv, tag, encrypted data]
-- 
2.43.0


From 8f0be461c8c54c4b4b4d5d96048b7ca3ff4d9727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:58 +0000
Subject: [PATCH 06/62] fix: return lz4 contexts to the lz4 cache

---
 monotone/runtime/lib/compression_mgr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/compression_mgr.c b/monotone/runtime/lib/compression_mgr.c
index 395d88f..c04765a 100644
--- a/monotone/runtime/lib/compression_mgr.c
+++ b/monotone/runtime/lib/compression_mgr.c
@@ -33,6 +33,11 @@ compression_mgr_free(CompressionMgr* self)
 	cache_reset(&self->cache_zstd);
 	cache_free(&self->cache_zstd);
 
+	list_foreach_safe(&self->cache_lz4.list)
+	{
+		auto ref = list_at(Compression, link);
+		compression_free(ref);
+	}
 	cache_reset(&self->cache_lz4);
 	cache_free(&self->cache_lz4);
 }
@@ -67,7 +72,7 @@ compression_mgr_push(CompressionMgr* self, Compression* compression)
 	}
 	if (compression->iface->id == COMPRESSION_LZ4)
 	{
-		cache_push(&self->cache_zstd, &compression->link);
+		cache_push(&self->cache_lz4, &compression->link);
 		return;
 	}
 	abort();
-- 
2.43.0


From 7ac96a5dd4588326750b9c8d8c11b7cf81157543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 07/62] fix: nested partition lock released too early

---
 monotone/engine/engine/lockage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/engine/engine/lockage.h b/monotone/engine/engine/lockage.h
index 65a56d1..1466c7f 100644
--- a/monotone/engine/engine/lockage.h
+++ b/monotone/engine/engine/lockage.h
@@ -79,7 +79,7 @@ lockage_lock(Lockage* self, LockType type)
 		if (lock->locker == 0)
 		{
 			lock->locker = pthread_id;
-			lock->locker_refs = 0;
+			lock->locker_refs = 1;
 			break;
 		}
 		lock->pending++;
-- 
2.43.0


From 6cac925536b35387dbb94a12170237a591553fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 08/62] fix: event size counts the key twice

---
 monotone/engine/io/event.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/io/event.h b/monotone/engine/io/event.h
index 9f3435a..4807cc7 100644
--- a/monotone/engine/io/event.h
+++ b/monotone/engine/io/event.h
@@ -49,7 +49,8 @@ event_is_delete(Event* self)
 always_inline hot static inline int
 event_size(Event* self)
 {
-	return sizeof(Event) + self->key_size + self->data_size;
+	// data size includes the key
+	return sizeof(Event) + self->data_size;
 }
 
 always_inline hot static inline uint8_t*
-- 
2.43.0


From 40ab3aceb9bb02a202efff601e1ee91859728d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 09/62] fix: seek to a key after the last event of a page or
 region

---
 monotone/engine/io/memtable_iterator.h |  7 ++++++-
 monotone/engine/io/part_iterator.h     | 11 ++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index 64a9581..baceddf 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -40,9 +40,14 @@ memtable_iterator_open(MemtableIterator* self,
 	bool match = memtable_seek(memtable, key, &self->page, &self->page_pos);
 	if (self->page_pos >= self->page->events_count)
 	{
+		// key is greater than the last event of the page,
+		// continue from the next page
+		auto next = rbtree_next(&self->memtable->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (next == NULL)
+			return false;
+		self->page = container_of(next, MemtablePage, node);
 	}
 	self->current = self->page->events[self->page_pos];
 
diff --git a/monotone/engine/io/part_iterator.h b/monotone/engine/io/part_iterator.h
index 3bc134e..b2bd21d 100644
--- a/monotone/engine/io/part_iterator.h
+++ b/monotone/engine/io/part_iterator.h
@@ -38,6 +38,9 @@ part_iterator_open_region(PartIterator* self, Event* event)
 	                             event);
 }
 
+hot static inline void
+part_iterator_next(PartIterator*);
+
 hot static inline bool
 part_iterator_open(PartIterator* self, Part* part, Event* event)
 {
@@ -53,7 +56,13 @@ part_iterator_open(PartIterator* self, Part* part, Event* event)
 		return false;
 
 	reader_open(&self->reader, part);
-	return part_iterator_open_region(self, event);
+	bool match = part_iterator_open_region(self, event);
+
+	// key is greater than the last event of the region,
+	// continue from the next region
+	if (unlikely(! region_iterator_has(&self->region_iterator)))
+		part_iterator_next(self);
+	return match;
 }
 
 hot static inline bool
-- 
2.43.0


From 3b8fa5d3804bb66fbc2c00dbe0bb4cb711432189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 10/62] fix: cursor position after writes into the memtable
 page it reads

---
 monotone/engine/io/memtable.c          | 27 +++++++--------
 monotone/engine/io/memtable_iterator.h | 48 ++++++++++++++------------
 2 files changed, 38 insertions(+), 37 deletions(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index e84b060..c35745c 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -182,17 +182,6 @@ range_search(Ref self, RangeTree* tree, Ref key, bool* match)
 }
 #endif
 
-hot static inline void
-memtable_sync(Memtable* self, MemtablePage* page, MemtablePage* split, int pos)
-{
-	// sync iterators
-	list_foreach(&self->iterators)
-	{
-		auto it = list_at(MemtableIterator, link);
-		memtable_iterator_sync(it, page, split, pos);
-	}
-}
-
 hot static inline Event*
 memtable_insert(Memtable*      self,
                 MemtablePage*  page,
@@ -208,8 +197,8 @@ memtable_insert(Memtable*      self,
 		page->events[pos] = event;
 
 		// update iterators
-		if (self->iterators_count > 0)
-			memtable_sync(self, page, NULL, pos);
+		list_foreach(&self->iterators)
+			memtable_iterator_sync_replace(list_at(MemtableIterator, link), page, pos);
 
 		return prev;
 	}
@@ -232,6 +221,10 @@ memtable_insert(Memtable*      self,
 			ref = r;
 			pos = pos - l->events_count;
 		}
+
+		// update iterators
+		list_foreach(&self->iterators)
+			memtable_iterator_sync_split(list_at(MemtableIterator, link), l, r);
 	}
 
 	// insert
@@ -243,8 +236,8 @@ memtable_insert(Memtable*      self,
 	atomic_u64_inc(&self->count);
 
 	// update iterators
-	if (self->iterators_count > 0)
-		memtable_sync(self, l, r, pos);
+	list_foreach(&self->iterators)
+		memtable_iterator_sync_insert(list_at(MemtableIterator, link), ref, pos);
 
 	*page_split = r;
 	return NULL;
@@ -311,6 +304,10 @@ memtable_unset(Memtable* self, Event* event)
 		int size = (page->events_count - pos) * sizeof(Event*);
 		if (size > 0)
 			memmove(&page->events[pos], &page->events[pos + 1], size);
+
+		// update iterators
+		list_foreach(&self->iterators)
+			memtable_iterator_sync_remove(list_at(MemtableIterator, link), page, pos);
 	}
 }
 
diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index baceddf..7b6c0c3 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -136,35 +136,39 @@ memtable_iterator_init(MemtableIterator* self)
 }
 
 static inline void
-memtable_iterator_sync(MemtableIterator* self,
-                       MemtablePage*     page,
-                       MemtablePage*     page_split,
-                       int               pos)
+memtable_iterator_sync_replace(MemtableIterator* self, MemtablePage* page, int pos)
 {
-	if (self->page != page || !self->current)
-		return;
+	// update current page event pointer on replace
+	if (self->page == page && self->page_pos == pos && self->current)
+		self->current = page->events[pos];
+}
 
-	// replace
-	if (self->page_pos == pos)
-	{
-		// update current page event pointer on replace
-		self->current = self->page->events[self->page_pos];
+static inline void
+memtable_iterator_sync_split(MemtableIterator* self, MemtablePage* page,
+                             MemtablePage*     page_split)
+{
+	// follow event moved to the split page
+	if (self->page != page || !self->current)
 		return;
-	}
-
-	// insert
-	if (page_split)
+	if (self->page_pos >= page->events_count)
 	{
-		if (self->page_pos >= page->events_count)
-		{
-			self->page = page_split;
-			self->page_pos = self->page_pos - page->events_count;
-		}
+		self->page = page_split;
+		self->page_pos = self->page_pos - page->events_count;
 	}
+}
 
+static inline void
+memtable_iterator_sync_insert(MemtableIterator* self, MemtablePage* page, int pos)
+{
 	// move position, if key was inserted before it
-	if (pos <= self->page_pos)
+	if (self->page == page && self->current && pos <= self->page_pos)
 		self->page_pos++;
+}
 
-	self->current = self->page->events[self->page_pos];
+static inline void
+memtable_iterator_sync_remove(MemtableIterator* self, MemtablePage* page, int pos)
+{
+	// move position, if key was removed before it
+	if (self->page == page && self->current && pos < self->page_pos)
+		self->page_pos--;
 }
-- 
2.43.0


From c99ea4946b85ab061457809bf2f23cc08c89812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 11/62] fix: rollback of a batch which failed before all events
 were applied

---
 monotone/engine/engine/write.c | 25 ++++++++++++-------------
 monotone/engine/io/memtable.c  |  3 ++-
 monotone/runtime/lib/heap.h    |  2 +-
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index dad5893..2f00c8d 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -24,20 +24,19 @@
 static void
 engine_rollback(Engine* self, Log* log)
 {
-	auto pos   = log_last(log);
-	auto first = log_first(log);
-	while (pos >= first)
+	int i = (int)log->write.count - 1;
+	for (; i >= 0; i--)
 	{
-		if (pos->ref)
-		{
-			Ref* ref = pos->ref;
-			if (pos->prev)
-				memtable_set(ref->part->memtable, pos->prev);
-			else
-				memtable_unset(ref->part->memtable, pos->event);
-			engine_unlock(self, ref, LOCK_ACCESS);
-		}
-		pos--;
+		auto pos = log_of(log, i);
+		if (! pos->ref)
+			continue;
+		Ref* ref = pos->ref;
+		if (pos->prev)
+			memtable_set(ref->part->memtable, pos->prev);
+		else
+		if (pos->event)
+			memtable_unset(ref->part->memtable, pos->event);
+		engine_unlock(self, ref, LOCK_ACCESS);
 	}
 	log_reset(log);
 }
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index c35745c..471ec85 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -278,7 +278,8 @@ memtable_set(Memtable* self, Event* event)
 void
 memtable_unset(Memtable* self, Event* event)
 {
-	assert(self->count_pages > 0);
+	if (self->count_pages == 0)
+		return;
 
 	// search page
 	auto page = memtable_search_page(self, event);
diff --git a/monotone/runtime/lib/heap.h b/monotone/runtime/lib/heap.h
index 7f0434c..e850fa4 100644
--- a/monotone/runtime/lib/heap.h
+++ b/monotone/runtime/lib/heap.h
@@ -57,7 +57,7 @@ hot static inline void*
 heap_allocate(Heap* self, int size)
 {
 	if (unlikely(size > self->memory_mgr->page_size))
-		return NULL;
+		error("mm: allocation size is greater than the page size");
 	Page* page;
 	if (unlikely(self->list == NULL ||
 	             (self->memory_mgr->page_size - self->list_tail->used) < size))
-- 
2.43.0


From 97d2242328534c9cbcebafa4e3935b6d21c301b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 12/62] fix: failed refresh loses data of the rotated memtable

The partition was replaced in memory before its file was completed and
memtable rotated by a failed refresh was hidden by the next one. Replace
the partition after the original file is removed, merge the remaining memtable first.
---
 monotone/engine/engine/refresh.c | 124 +++++++++++++++++++++++--------
 monotone/engine/engine/refresh.h |   1 +
 monotone/engine/io/part.c        |  19 +++++
 monotone/engine/io/part.h        |   1 +
 4 files changed, 115 insertions(+), 30 deletions(-)

diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index db6e5c0..6998262 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -30,6 +30,7 @@ refresh_init(Refresh* self, Engine* engine)
 	self->memtable       = NULL;
 	self->storage_origin = NULL;
 	self->storage        = NULL;
+	self->again          = false;
 	self->engine         = engine;
 	merger_init(&self->merger);
 }
@@ -49,6 +50,7 @@ refresh_reset(Refresh* self)
 	self->memtable       = NULL;
 	self->storage_origin = NULL;
 	self->storage        = NULL;
+	self->again          = false;
 	merger_reset(&self->merger);
 }
 
@@ -104,11 +106,34 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	if (self->storage == NULL)
 		self->storage = self->storage_origin;
 
-	// rotate memtable
+	// finish the rename of a previously completed refresh, if any
+	//
+	// rotate memtable, unless there is a memtable left by
+	// a previously failed refresh. In that case it must be merged first,
+	// since it contains older updates
+	Exception e;
+	if (enter(&e)) {
+		part_complete(self->origin);
+	}
+	if (leave(&e))
+	{
+		engine_unlock(engine, ref, LOCK_SERVICE);
+		rethrow();
+	}
+
 	mutex_lock(&engine->lock);
 	ref_lock(ref, LOCK_ACCESS);
 
-	self->memtable = part_memtable_rotate(self->origin);
+	Memtable* prev = NULL;
+	part_memtable(self->origin, &prev);
+	if (heap_used(&prev->heap) > 0)
+	{
+		self->memtable = prev;
+		self->again = true;
+	} else {
+		self->memtable = part_memtable_rotate(self->origin);
+		self->again = false;
+	}
 
 	ref_unlock(ref, LOCK_ACCESS);
 	mutex_unlock(&engine->lock);
@@ -149,32 +174,29 @@ refresh_apply(Refresh* self)
 	storage_remove(self->storage_origin, origin);
 
 	// add new partition to the storage
+	part_unset(part, ID_INCOMPLETE);
+	part_set(part, ID);
 	storage_add(self->storage, part);
 
 	// use active memtable on the new partition
 	memtable_move(part->memtable, origin->memtable);
 
-	// this should be ID_INCOMPLETE until sync
-	// completed, but made this way in order to be
-	// available for access during the
-	// refresh process
-	part_unset(part, ID_INCOMPLETE);
-	part_set(part, ID);
-
 	ref_unlock(self->ref, LOCK_ACCESS);
 	mutex_unlock(&engine->lock);
+
+	self->part   = NULL;
+	self->origin = NULL;
+
+	// free old partition and the merged memtable
+	part_free(origin);
 }
 
 static void
-refresh_end(Refresh* self)
+refresh_commit(Refresh* self)
 {
 	auto origin = self->origin;
 	auto part   = self->part;
 
-	// free memtable memory
-	memtable_free(self->memtable);
-	self->memtable = NULL;
-
 	// crash case 1
 	error_injection(error_refresh_1);
 
@@ -184,30 +206,56 @@ refresh_end(Refresh* self)
 	// crash case 2
 	error_injection(error_refresh_2);
 
-	// step 2. remove old partition file
-	file_close(&origin->file);
+	// step 2. remove old partition file (commit point)
 	part_delete(origin, ID);
-	part_free(origin);
-	self->origin = NULL;
+
+	// step 3. replace existing partition with the new one
+	refresh_apply(self);
 
 	// crash case 3
 	error_injection(error_refresh_3);
 
-	// step 3. rename new partition
+	// step 4. rename new partition
 	part_rename(part, ID_COMPLETE, ID);
+}
+
+static void
+refresh_abort(Refresh* self)
+{
+	// new partition has been applied already
+	if (! self->origin)
+		return;
+
+	// keep using the original partition, allow to schedule next refresh
+	auto engine = self->engine;
+	mutex_lock(&engine->lock);
+	self->origin->refresh = false;
+	mutex_unlock(&engine->lock);
+
+	auto part = self->part;
+	if (! part)
+		return;
 	self->part = NULL;
+
+	// completed file must not be left on another storage
+	Exception e;
+	if (enter(&e))
+	{
+		if (self->storage != self->storage_origin)
+			part_delete(part, ID_COMPLETE);
+	}
+	if (leave(&e))
+	{ }
+	part_free(part);
 }
 
-void
-refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
+static void
+refresh_execute(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 {
 	// step 1. find partition and take the service lock
 	//         match storage
 	//         rotate memtable
 	//
-	//         on refresh
-	//           do nothing if memtable is empty
-	//
 	//         on move
 	//           do nothing if partition storage not changed
 	//
@@ -221,17 +269,33 @@ refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 		// file with the memtable
 		refresh_merge(self);
 
-		// step 3. replace existing partition with the new one
-		refresh_apply(self);
-
-		// step 4. finilize and cleanup
-		refresh_end(self);
+		// step 3. replace partition file and the existing partition with
+		// the new one
+		refresh_commit(self);
 	}
 
+	auto on_error = leave(&e);
+	if (on_error)
+		refresh_abort(self);
+
 	// complete
 	engine_unlock(self->engine, self->ref, LOCK_SERVICE);
 	self->ref = NULL;
 
-	if (leave(&e))
+	if (on_error)
 		rethrow();
 }
+
+void
+refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
+{
+	refresh_execute(self, min, storage, if_exists);
+
+	// previously failed refresh has been completed, continue with
+	// the current memtable
+	while (self->again)
+	{
+		refresh_reset(self);
+		refresh_execute(self, min, NULL, true);
+	}
+}
diff --git a/monotone/engine/engine/refresh.h b/monotone/engine/engine/refresh.h
index 071db07..47222b8 100644
--- a/monotone/engine/engine/refresh.h
+++ b/monotone/engine/engine/refresh.h
@@ -23,6 +23,7 @@ struct Refresh
 	Memtable* memtable;
 	Storage*  storage_origin;
 	Storage*  storage;
+	bool      again;
 	Merger    merger;
 	Engine*   engine;
 };
diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 8e673a5..2fd9e08 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -90,6 +90,8 @@ part_create(Part* self, int state)
 	switch (state) {
 	case ID_INCOMPLETE:
 	{
+		// remove file left by a previously failed attempt
+		part_delete(self, state);
 		id_path(&self->id, self->source, state, path);
 		file_create(&self->file, path);
 		break;
@@ -161,6 +163,20 @@ part_rename(Part* self, int from, int to)
 		fs_rename(path_from, "%s", path_to);
 }
 
+void
+part_complete(Part* self)
+{
+	// finish rename of the completed partition file, if it was
+	// interrupted by an error (the original file is already removed)
+	if (! part_has(self, ID))
+		return;
+	char path[PATH_MAX];
+	id_path(&self->id, self->source, ID, path);
+	if (fs_exists("%s", path))
+		return;
+	part_rename(self, ID_COMPLETE, ID);
+}
+
 void
 part_download(Part* self)
 {
@@ -180,6 +196,9 @@ part_upload(Part* self)
 	assert(part_has(self, ID));
 	assert(self->cloud);
 
+	// finish previously interrupted refresh
+	part_complete(self);
+
 	// in case previous attempt failed without crash
 	part_delete(self, ID_CLOUD_INCOMPLETE);
 
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index 1908e1e..3413b58 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -41,6 +41,7 @@ void part_open(Part*, int, bool);
 void part_create(Part*, int);
 void part_delete(Part*, int);
 void part_rename(Part*, int, int);
+void part_complete(Part*);
 void part_download(Part*);
 void part_upload(Part*);
 void part_offload(Part*, bool);
-- 
2.43.0


From b06377f9769e69832b0b896aa0373a6ee311a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 13/62] fix: wal gc removes records of a concurrent write

---
 monotone/engine/engine/op.c    |  5 ++++-
 monotone/engine/engine/write.c | 17 +++++++++++++++++
 monotone/engine/io/memtable.c  |  7 ++++++-
 monotone/engine/io/memtable.h  |  1 +
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index b661b3b..295dae3 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -630,7 +630,10 @@ engine_gc(Engine* self)
 	guard(control_unlock_guard, NULL);
 
 	// get minimum lsn currently used by any memtable
-	uint64_t lsn_min = UINT64_MAX;
+	//
+	// current lsn is taken before reading memtables, records of any
+	// concurrent write must not be considered
+	uint64_t lsn_min = config_lsn() + 1;
 	mutex_lock(&self->lock);
 
 	auto slice = mapping_min(&self->mapping);
diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index 2f00c8d..443c900 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -41,6 +41,19 @@ engine_rollback(Engine* self, Log* log)
 	log_reset(log);
 }
 
+hot static void
+engine_write_begin(Log* log)
+{
+	uint64_t lsn = config_lsn() + 1;
+	auto pos = log_first(log);
+	auto end = log_end(log);
+	for (; pos < end; pos++)
+	{
+		Ref* ref = pos->ref;
+		memtable_follow_min(ref->part->memtable, lsn);
+	}
+}
+
 hot static void
 engine_commit(Engine* self, Log* log)
 {
@@ -113,6 +126,10 @@ engine_write(Engine* self, EventArg* events, int count)
 			// wal write error test case
 			error_injection(error_wal);
 
+			// mark memtables as being in use by the upcoming lsn before
+			// wal write, to avoid concurrent wal gc of the record
+			engine_write_begin(&log);
+
 			auto rotate_ready = wal_write(self->wal, &log);
 
 			// schedule wal rotation
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 471ec85..70ecdbe 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -346,11 +346,16 @@ memtable_seek(Memtable* self, Event* key, MemtablePage** page, int* pos)
 }
 
 void
-memtable_follow(Memtable* self, uint64_t lsn)
+memtable_follow_min(Memtable* self, uint64_t lsn)
 {
 	if (lsn < atomic_u64_of(&self->lsn_min))
 		atomic_u64_set(&self->lsn_min, lsn);
+}
 
+void
+memtable_follow(Memtable* self, uint64_t lsn)
+{
+	memtable_follow_min(self, lsn);
 	if (lsn > atomic_u64_of(&self->lsn_max))
 		atomic_u64_set(&self->lsn_max, lsn);
 }
diff --git a/monotone/engine/io/memtable.h b/monotone/engine/io/memtable.h
index 1a66d06..49c2169 100644
--- a/monotone/engine/io/memtable.h
+++ b/monotone/engine/io/memtable.h
@@ -46,3 +46,4 @@ void   memtable_unset(Memtable*, Event*);
 Event* memtable_max(Memtable*);
 bool   memtable_seek(Memtable*, Event*, MemtablePage**, int*);
 void   memtable_follow(Memtable*, uint64_t);
+void   memtable_follow_min(Memtable*, uint64_t);
-- 
2.43.0


From 403c6926fc89d6f5e39e0dcdf79dfd6584f6c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 14/62] fix: incomplete wal record after a failed write or a
 crash

Truncate the log back to the last valid record, otherwise all following
records were lost during recovery or failed write became visible.
---
 monotone/engine/wal/wal.c      | 17 ++++++++
 monotone/engine/wal/wal.h      |  1 +
 monotone/engine/wal/wal_file.h | 74 ++++++++++++++++++++++++++++++----
 monotone/main/main/main.c      |  4 ++
 4 files changed, 89 insertions(+), 7 deletions(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 80a32bf..5529172 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -65,6 +65,8 @@ wal_rotate(Wal* self, uint64_t wm)
 	Exception e;
 	if (enter(&e))
 	{
+		if (self->current)
+			wal_file_repair(self->current);
 		file = wal_file_allocate(next_lsn);
 		wal_file_create(file);
 	}
@@ -189,12 +191,27 @@ wal_open(Wal* self)
 		self->current = wal_file_allocate(last);
 		wal_file_open(self->current);
 		file_seek_to_end(&self->current->file);
+
+		// wal records are always >= file id
+		if (last > 0)
+			config_lsn_follow(last - 1);
 	} else
 	{
 		wal_rotate(self, 0);
 	}
 }
 
+void
+wal_truncate(Wal* self, uint64_t id, uint64_t offset)
+{
+	// remove incomplete record at the end of the last log file, left by
+	// a crash during write
+	auto file = self->current;
+	if (file->id != id || offset >= file->file.size)
+		return;
+	file_truncate(&file->file, offset);
+}
+
 hot bool
 wal_write(Wal* self, Log* log)
 {
diff --git a/monotone/engine/wal/wal.h b/monotone/engine/wal/wal.h
index 2a7e249..f0d0a31 100644
--- a/monotone/engine/wal/wal.h
+++ b/monotone/engine/wal/wal.h
@@ -25,6 +25,7 @@ struct Wal
 void wal_init(Wal*);
 void wal_free(Wal*);
 void wal_open(Wal*);
+void wal_truncate(Wal*, uint64_t, uint64_t);
 void wal_rotate(Wal*, uint64_t);
 void wal_gc(Wal*, uint64_t);
 bool wal_write(Wal*, Log*);
diff --git a/monotone/engine/wal/wal_file.h b/monotone/engine/wal/wal_file.h
index f34ad1f..b48f0a5 100644
--- a/monotone/engine/wal/wal_file.h
+++ b/monotone/engine/wal/wal_file.h
@@ -19,6 +19,8 @@ struct WalFile
 {
 	uint64_t id;
 	File     file;
+	bool     repair;
+	uint64_t repair_offset;
 };
 
 static inline WalFile*
@@ -26,6 +28,8 @@ wal_file_allocate(uint64_t id)
 {
 	WalFile* self = mn_malloc(sizeof(WalFile));
 	self->id = id;
+	self->repair = false;
+	self->repair_offset = 0;
 	file_init(&self->file);
 	return self;
 }
@@ -62,24 +66,75 @@ wal_file_close(WalFile* self)
 	file_close(&self->file);
 }
 
+static inline void
+wal_file_repair(WalFile* self)
+{
+	// remove incomplete record left by a failed write
+	if (likely(! self->repair))
+		return;
+	file_truncate(&self->file, self->repair_offset);
+	self->repair = false;
+}
+
+static inline void
+wal_file_on_error(WalFile* self, uint64_t offset)
+{
+	// failed record must not be visible after restart or
+	// prevent following records from being read
+	self->repair = true;
+	self->repair_offset = offset;
+
+	// retry on next write, if failed
+	Exception e;
+	if (enter(&e)) {
+		wal_file_repair(self);
+	}
+	if (leave(&e))
+	{ }
+}
+
 static inline void
 wal_file_write(WalFile* self, void* data, int data_size)
 {
-	file_write(&self->file, data, data_size);
-	if (var_int_of(&config()->wal_sync_on_write) && config_sync())
-		file_sync(&self->file);
+	wal_file_repair(self);
+	auto offset = self->file.size;
+
+	Exception e;
+	if (enter(&e))
+	{
+		file_write(&self->file, data, data_size);
+		if (var_int_of(&config()->wal_sync_on_write) && config_sync())
+			file_sync(&self->file);
+	}
+	if (leave(&e))
+	{
+		wal_file_on_error(self, offset);
+		rethrow();
+	}
 }
 
 static inline void
 wal_file_writev(WalFile* self, struct iovec* iov, int iovc)
 {
-	file_writev(&self->file, iov, iovc);
-	if (var_int_of(&config()->wal_sync_on_write) && config_sync())
-		file_sync(&self->file);
+	wal_file_repair(self);
+	auto offset = self->file.size;
+
+	Exception e;
+	if (enter(&e))
+	{
+		file_writev(&self->file, iov, iovc);
+		if (var_int_of(&config()->wal_sync_on_write) && config_sync())
+			file_sync(&self->file);
+	}
+	if (leave(&e))
+	{
+		wal_file_on_error(self, offset);
+		rethrow();
+	}
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint64_t size)
 {
 	return (offset + size) > self->file.size;
 }
@@ -99,6 +154,11 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	file_pread_buf(&self->file, buf, size_header, offset);
 	uint32_t size = ((LogWrite*)(buf->start + start))->size;
 
+	// validate record size
+	if (unlikely(size < size_header))
+		error("wal: file '%s' is corrupted at offset %" PRIu64,
+		      str_of(&self->file.path), offset);
+
 	// check for eof
 	if (wal_file_eof(self, offset, size))
 		return false;
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 617b022..5f647c3 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -204,6 +204,10 @@ main_replay(Main* self)
 
 		total += write->count;
 	}
+
+	// remove incomplete record left by a crash
+	if (cursor.file)
+		wal_truncate(&self->wal, cursor.file->id, cursor.file_offset);
 	log("wal: %.1f million records processed",
 	    total / 1000000.0);
 }
-- 
2.43.0


From d28e602b0832bb921a9cb058b64aa2af25b6cc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:59 +0000
Subject: [PATCH 15/62] fix: replay of a partition drop

Replayed drop was appended to the log again and could remove newer data, it
ignored lsn and custom partition intervals. Log the drop before files are
removed to avoid partial recovery of the dropped partition after a crash.
---
 monotone/engine/engine/op.c     | 115 ++++++++++++++++++++++++++++----
 monotone/engine/engine/op.h     |   1 +
 monotone/engine/wal/log_drop.h  |  23 ++++++-
 monotone/engine/wal/log_write.h |   3 +-
 monotone/main/main/main.c       |   6 +-
 5 files changed, 129 insertions(+), 19 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 295dae3..eea5633 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -165,6 +165,24 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
 	return false;
 }
 
+static void
+engine_drop_log(Engine* self, uint64_t min, uint64_t max)
+{
+	if (! var_int_of(&config()->wal))
+		return;
+
+	LogDropRange drop;
+	if (min == config_interval_of(min) && (max - min) == (config_interval() - 1))
+		log_drop_init(&drop.drop, min);
+	else
+		log_drop_range_init(&drop, min, max);
+	auto rotate_ready = wal_write_op(self->wal, &drop.drop.write);
+
+	// schedule wal rotation
+	if (rotate_ready)
+		service_rotate(self->service);
+}
+
 static bool
 engine_drop_file(Engine* self, uint64_t min, bool if_exists,
                  bool    cloud_drop_local,
@@ -200,6 +218,13 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	Exception e;
 	if (enter(&e))
 	{
+		// full partition drop
+		//
+		// log the operation before files are removed, on replay it will be
+		// ignored if the partition file still exists
+		if (mask == (ID|ID_CLOUD))
+			engine_drop_log(self, ref->slice.min, ref->slice.max);
+
 		if (mask & ID_CLOUD)
 		{
 			if (part_has(part, ID_CLOUD))
@@ -226,6 +251,12 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 			index_init(&part->index);
 			buf_reset(&part->index_data);
 		}
+
+		if (mask == (ID|ID_CLOUD))
+		{
+			memtable_free(&part->memtable_a);
+			memtable_free(&part->memtable_b);
+		}
 	}
 
 	mutex_lock(&self->lock);
@@ -264,6 +295,13 @@ engine_drop_reference(Engine* self, uint64_t min)
 		return false;
 	}
 
+	// partition has been updated after the drop
+	if (part->memtable_a.count > 0 || part->memtable_b.count > 0)
+	{
+		control_unlock();
+		return true;
+	}
+
 	// remove partition from mapping
 	mapping_remove(&self->mapping, slice);
 
@@ -275,19 +313,6 @@ engine_drop_reference(Engine* self, uint64_t min)
 
 	// free
 	ref_free(ref);
-
-	// wal write
-	if (var_int_of(&config()->wal))
-	{
-		LogDrop drop;
-		log_drop_init(&drop, min);
-		auto rotate_ready = wal_write_op(self->wal, &drop.write);
-
-		// schedule wal rotation
-		if (rotate_ready)
-			service_rotate(self->service);
-	}
-
 	return true;
 }
 
@@ -318,6 +343,70 @@ engine_drop(Engine* self, uint64_t min, bool if_exists, int mask)
 	engine_drop_file(self, min, if_exists, false, mask);
 }
 
+static void
+engine_drop_replay_memtable(Part* part, uint64_t min, uint64_t max)
+{
+	// remove events between min and max
+	Buf list;
+	buf_init(&list);
+	guard(buf_free, &list);
+
+	MemtableIterator it;
+	memtable_iterator_init(&it);
+	memtable_iterator_open(&it, part->memtable, NULL, false);
+	while (memtable_iterator_has(&it))
+	{
+		auto event = memtable_iterator_at(&it);
+		if (event->id >= min && event->id <= max)
+			buf_write(&list, &event, sizeof(event));
+		memtable_iterator_next(&it);
+	}
+
+	auto pos = (Event**)list.start;
+	auto end = (Event**)list.position;
+	for (; pos < end; pos++)
+		memtable_unset(part->memtable, *pos);
+}
+
+void
+engine_drop_replay(Engine* self, LogDrop* drop)
+{
+	uint64_t min = drop->id;
+	uint64_t max;
+	if (drop->write.type == LOG_DROP_RANGE)
+		max = ((LogDropRange*)drop)->max;
+	else
+		max = min + (config_interval() - 1);
+	if (unlikely(max < min))
+		max = UINT64_MAX;
+
+	// remove previously replayed events from every partition in the range,
+	// which does not have a file
+	//
+	// partition file which still exists was not removed by the drop or it
+	// has been created later, its events are already handled by the file lsn
+	Slice* slice = NULL;
+	if (self->mapping.tree_count > 0)
+		slice = mapping_seek(&self->mapping, min);
+	while (slice && slice->min <= max)
+	{
+		auto next = mapping_next(&self->mapping, slice);
+		auto ref  = ref_of(slice);
+		auto part = ref->part;
+		if (slice->max >= min && part->state == ID_NONE)
+		{
+			engine_drop_replay_memtable(part, min, max);
+
+			// remove partition
+			if (slice->min == min && slice->max == max)
+				engine_drop_reference(self, min);
+		}
+		slice = next;
+	}
+
+	config_lsn_follow(drop->write.lsn);
+}
+
 void
 engine_drop_range(Engine* self, uint64_t min, uint64_t max, int mask)
 {
diff --git a/monotone/engine/engine/op.h b/monotone/engine/engine/op.h
index a4ab3db..fc12b90 100644
--- a/monotone/engine/engine/op.h
+++ b/monotone/engine/engine/op.h
@@ -17,6 +17,7 @@
 void engine_fill_nolock(Engine*, uint64_t, uint64_t);
 void engine_fill(Engine*, uint64_t, uint64_t);
 void engine_drop(Engine*, uint64_t, bool, int);
+void engine_drop_replay(Engine*, LogDrop*);
 void engine_drop_range(Engine*, uint64_t, uint64_t, int);
 
 // cloud
diff --git a/monotone/engine/wal/log_drop.h b/monotone/engine/wal/log_drop.h
index 55f8254..0a9bf1d 100644
--- a/monotone/engine/wal/log_drop.h
+++ b/monotone/engine/wal/log_drop.h
@@ -13,14 +13,23 @@
 // Monotone Commercial License.
 //
 
-typedef struct LogDrop LogDrop;
+typedef struct LogDrop      LogDrop;
+typedef struct LogDropRange LogDropRange;
 
+// drop of a partition created using default interval
 struct LogDrop
 {
 	LogWrite write;
 	uint64_t id;
 } packed;
 
+// drop of a partition with custom interval
+struct LogDropRange
+{
+	LogDrop  drop;
+	uint64_t max;
+} packed;
+
 static inline void
 log_drop_init(LogDrop* self, uint64_t id)
 {
@@ -35,3 +44,15 @@ log_drop_init(LogDrop* self, uint64_t id)
 	if (var_int_of(&config()->wal_crc))
 		self->write.crc = crc32(self->write.crc, &id, sizeof(id));
 }
+
+static inline void
+log_drop_range_init(LogDropRange* self, uint64_t min, uint64_t max)
+{
+	log_drop_init(&self->drop, min);
+	auto write = &self->drop.write;
+	write->type = LOG_DROP_RANGE;
+	write->size = sizeof(LogDropRange);
+	self->max   = max;
+	if (var_int_of(&config()->wal_crc))
+		write->crc = crc32(write->crc, &max, sizeof(max));
+}
diff --git a/monotone/engine/wal/log_write.h b/monotone/engine/wal/log_write.h
index 3e76ae8..e8c194c 100644
--- a/monotone/engine/wal/log_write.h
+++ b/monotone/engine/wal/log_write.h
@@ -18,7 +18,8 @@ typedef struct LogWrite LogWrite;
 enum
 {
 	LOG_WRITE,
-	LOG_DROP
+	LOG_DROP,
+	LOG_DROP_RANGE
 };
 
 struct LogWrite
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 5f647c3..0a3b500 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -191,11 +191,9 @@ main_replay(Main* self)
 			engine_write_replay(&self->engine, write);
 			break;
 		case LOG_DROP:
-		{
-			auto drop = (LogDrop*)write;
-			engine_drop(&self->engine, drop->id, true, ID|ID_CLOUD);
+		case LOG_DROP_RANGE:
+			engine_drop_replay(&self->engine, (LogDrop*)write);
 			break;
-		}
 		default:
 			error("wal: unrecognized operation: %d (lsn: %" PRIu64 ")",
 			      write->type, write->lsn);
-- 
2.43.0


From 5f7fe0bf9385232a91a0fa8f12d2d3a6c155242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 16/62] fix: storage size and events are not updated on
 partition drop

---
 monotone/engine/engine/op.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index eea5633..0ca8b63 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -215,6 +215,7 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	mutex_unlock(&self->lock);
 
 	// delete partition file on storage or cloud
+	auto state = part->state;
 	Exception e;
 	if (enter(&e))
 	{
@@ -243,11 +244,14 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 			}
 		}
 
-		if (part->state == ID_NONE)
+		if (part->state == ID_NONE && state != ID_NONE)
 		{
 			// unset storage metrics before droping the reference
 			auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
-			storage_remove_metrics(storage, part);
+			mutex_lock(&self->lock);
+			storage->size   -= part->index.size_regions;
+			storage->events -= part->index.events;
+			mutex_unlock(&self->lock);
 			index_init(&part->index);
 			buf_reset(&part->index_data);
 		}
-- 
2.43.0


From 0561d074ba51019ce8c44f4334a1d94115c49351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 17/62] fix: files left by failed operations reappear after
 partition drop

---
 monotone/engine/engine/op.c | 12 ++++++++++++
 monotone/engine/io/part.c   | 13 +++++++++++++
 monotone/engine/io/part.h   |  1 +
 3 files changed, 26 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 0ca8b63..e777da9 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -219,13 +219,25 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	Exception e;
 	if (enter(&e))
 	{
+		// finish rename of a previously completed refresh, if any
+		part_complete(part);
+
 		// full partition drop
 		//
 		// log the operation before files are removed, on replay it will be
 		// ignored if the partition file still exists
 		if (mask == (ID|ID_CLOUD))
+		{
 			engine_drop_log(self, ref->slice.min, ref->slice.max);
 
+			// remove files left by failed operations
+			list_foreach(&self->storage_mgr.list)
+			{
+				auto storage = list_at(Storage, link);
+				part_delete_leftovers(part, storage->source);
+			}
+		}
+
 		if (mask & ID_CLOUD)
 		{
 			if (part_has(part, ID_CLOUD))
diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 2fd9e08..78eb2f2 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -151,6 +151,19 @@ part_delete(Part* self, int state)
 		fs_unlink("%s", path);
 }
 
+void
+part_delete_leftovers(Part* self, Source* source)
+{
+	int states[] = { ID_INCOMPLETE, ID_COMPLETE, ID_CLOUD_INCOMPLETE };
+	for (int i = 0; i < 3; i++)
+	{
+		char path[PATH_MAX];
+		id_path(&self->id, source, states[i], path);
+		if (fs_exists("%s", path))
+			fs_unlink("%s", path);
+	}
+}
+
 void
 part_rename(Part* self, int from, int to)
 {
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index 3413b58..ec7b795 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -40,6 +40,7 @@ void part_free(Part*);
 void part_open(Part*, int, bool);
 void part_create(Part*, int);
 void part_delete(Part*, int);
+void part_delete_leftovers(Part*, Source*);
 void part_rename(Part*, int, int);
 void part_complete(Part*);
 void part_download(Part*);
-- 
2.43.0


From 98b1a41b487e44cf1af3f262f8f22ae48f075fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:54 +0000
Subject: [PATCH 18/62] fix: check region data crc on read and save config
 atomically

---
 monotone/engine/io/reader.h      |  8 ++++++++
 monotone/runtime/config/config.c | 31 +++++++++++++++----------------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/monotone/engine/io/reader.h b/monotone/engine/io/reader.h
index 5be2947..341ca24 100644
--- a/monotone/engine/io/reader.h
+++ b/monotone/engine/io/reader.h
@@ -107,6 +107,14 @@ reader_execute(Reader* self, IndexRegion* index_region)
 	}
 	Buf* origin = &self->buf;
 
+	// check region data crc, if it has been enabled
+	if (index_region->crc != 0)
+	{
+		uint32_t crc = crc32(0, origin->start, buf_size(origin));
+		if (crc != index_region->crc)
+			error("read: region data crc mismatch");
+	}
+
 	// decrypt region
 	if (self->encryption)
 	{
diff --git a/monotone/runtime/config/config.c b/monotone/runtime/config/config.c
index 9abde99..eefdcec 100644
--- a/monotone/runtime/config/config.c
+++ b/monotone/runtime/config/config.c
@@ -251,24 +251,23 @@ config_save_to(Config* self, const char* path)
 		file_sync(&file);
 }
 
+static void
+config_create(Config* self, const char* path)
+{
+	// write new file first, config must be always complete
+	char path_new[PATH_MAX];
+	snprintf(path_new, sizeof(path_new), "%s.incomplete", path);
+	if (fs_exists("%s", path_new))
+		fs_unlink("%s", path_new);
+	config_save_to(self, path_new);
+	fs_rename(path_new, "%s", path);
+}
+
 void
 config_save(Config* self, const char* path)
 {
-	// remove old saved config, if exists
-	Buf buf;
-	buf_init(&buf);
-	guard(buf_free, &buf);
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
-
-	// save existing config as a old
-	fs_rename(path,  "%s.old", path);
-
-	// create config file
-	config_save_to(self, path);
-
-	// remove old config file
-	fs_unlink("%s.old", path);
+	// create new config file and replace existing config with it
+	config_create(self, path);
 }
 
 void
@@ -288,7 +287,7 @@ config_open(Config* self, const char* path)
 	}
 
 	// create config file
-	config_save_to(self, path);
+	config_create(self, path);
 }
 
 void
-- 
2.43.0


From de3ae2648054cd70ac3fb70a1e07627005ac1868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 19/62] fix: alter storage changes state before validation and
 truncates options, lexer lookahead overflow and time units

---
 monotone/cloud/cloud/source.h         |  6 ++--
 monotone/engine/io/part.h             |  2 +-
 monotone/engine/io/writer.c           |  2 +-
 monotone/engine/storage/pipeline.c    |  1 -
 monotone/engine/storage/storage_mgr.c | 26 ++++++++++++++++
 monotone/main/command/lex.c           | 44 ++++++++++++++++-----------
 6 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/monotone/cloud/cloud/source.h b/monotone/cloud/cloud/source.h
index 6178ddf..cca4928 100644
--- a/monotone/cloud/cloud/source.h
+++ b/monotone/cloud/cloud/source.h
@@ -127,13 +127,13 @@ source_set_crc(Source* self, bool value)
 }
 
 static inline void
-source_set_refresh_wm(Source* self, int value)
+source_set_refresh_wm(Source* self, int64_t value)
 {
 	self->refresh_wm = value;
 }
 
 static inline void
-source_set_region_size(Source* self, int value)
+source_set_region_size(Source* self, int64_t value)
 {
 	self->region_size = value;
 }
@@ -146,7 +146,7 @@ source_set_compression(Source* self, Str* value)
 }
 
 static inline void
-source_set_compression_level(Source* self, int value)
+source_set_compression_level(Source* self, int64_t value)
 {
 	self->compression_level = value;
 }
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index ec7b795..d2535ae 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -113,5 +113,5 @@ part_refresh_ready(Part* self)
 		return false;
 	if (! self->source->refresh_wm)
 		return false;
-	return heap_used(&self->memtable->heap) > (uint32_t)self->source->refresh_wm;
+	return heap_used(&self->memtable->heap) > (uint64_t)self->source->refresh_wm;
 }
diff --git a/monotone/engine/io/writer.c b/monotone/engine/io/writer.c
index 824bdd0..544b293 100644
--- a/monotone/engine/io/writer.c
+++ b/monotone/engine/io/writer.c
@@ -63,7 +63,7 @@ writer_is_region_limit(Writer* self)
 {
 	if (unlikely(! region_writer_started(&self->region_writer)))
 		return true;
-	return region_writer_size(&self->region_writer) >= (uint32_t)self->source->region_size;
+	return region_writer_size(&self->region_writer) >= (uint64_t)self->source->region_size;
 }
 
 static inline void
diff --git a/monotone/engine/storage/pipeline.c b/monotone/engine/storage/pipeline.c
index 7c89b76..cb4187a 100644
--- a/monotone/engine/storage/pipeline.c
+++ b/monotone/engine/storage/pipeline.c
@@ -172,7 +172,6 @@ pipeline_rename(Pipeline* self, Str* storage, Str* storage_new)
 		{
 			tier_config_set_name(tier->config, storage_new);
 			pipeline_save(self);
-			break;
 		}
 	}
 }
diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index 4dd6773..2120b80 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -295,10 +295,36 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 				      str_of(&source->name));
 		}
 
+		// ensure new cloud exists before making any changes
+		if (! str_empty(&source->cloud))
+		{
+			auto cloud = cloud_mgr_find(self->cloud_mgr, &source->cloud);
+			if (! cloud)
+				error("storage '%.*s': cloud '%.*s' not exists",
+				      str_size(&source->name),
+				      str_of(&source->name),
+				      str_size(&source->cloud),
+				      str_of(&source->cloud));
+		}
+
 		if (storage->cloud)
 			cloud_detach(storage->cloud, storage->source);
 	}
 
+	// generate encryption key, if it is not set
+	if ((mask & SOURCE_ENCRYPTION) && !(mask & SOURCE_ENCRYPTION_KEY))
+	{
+		if (encryption_mgr_of(&source->encryption) != ENCRYPTION_NONE &&
+		    str_empty(&storage->source->encryption_key))
+		{
+			uint8_t data[32];
+			random_generate_alnum(global()->random, data, sizeof(data));
+			str_free(&source->encryption_key);
+			str_strndup(&source->encryption_key, data, sizeof(data));
+			mask |= SOURCE_ENCRYPTION_KEY;
+		}
+	}
+
 	source_alter(storage->source, source, mask);
 	storage_mgr_save(self);
 
diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 9f66620..3d30be3 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -132,9 +132,29 @@ lex_keywords(Lex* self, bool on)
 	self->keywords = on;
 }
 
+static void
+lex_skip(Lex* self)
+{
+	// skip white spaces and comments
+	for (;;)
+	{
+		while (self->pos < self->end && isspace(*self->pos))
+			self->pos++;
+		if (self->pos == self->end || *self->pos != '#')
+			break;
+		while (self->pos < self->end && *self->pos != '\n')
+			self->pos++;
+	}
+}
+
 static void
 lex_integer_mod(Lex* self, Token* value)
 {
+	// modificator is always a name
+	lex_skip(self);
+	if (self->pos == self->end || !isalpha(*self->pos))
+		return;
+
 	Token tk;
 	lex_next(self, &tk);
 	switch (tk.id) {
@@ -161,10 +181,10 @@ lex_integer_mod(Lex* self, Token* value)
 		value->integer *= 7ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KMONTH:
-		value->integer *= 30ULL * 7 * 24 * 60 * 60 * 1000 * 1000;
+		value->integer *= 30ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KYEAR:
-		value->integer *= 12ULL * 30 * 7 * 24 * 60 * 60 * 1000 * 1000;
+		value->integer *= 365ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	// units
 	case KKB:
@@ -209,21 +229,11 @@ lex_next(Lex* self, Token* tk)
 	tk->id = KEOF;
 
 	// skip white spaces and comments
-	for (;;)
-	{
-		while (self->pos < self->end && isspace(*self->pos))
-			self->pos++;
-		// eof
-		if (unlikely(self->pos == self->end))
-			return;
-		if (*self->pos != '#')
-			break;
-		while (self->pos < self->end && *self->pos != '\n')
-			self->pos++;
-		// eof
-		if (self->pos == self->end)
-			return;
-	}
+	lex_skip(self);
+
+	// eof
+	if (unlikely(self->pos == self->end))
+		return;
 
 	// symbols
 	if (*self->pos != '\"' &&
-- 
2.43.0


From 52fdbc6a7d083fdb56071cb5c95224d793352586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 20/62] fix: pipeline with the same storage used by several
 tiers

---
 monotone/engine/storage/pipeline.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/monotone/engine/storage/pipeline.c b/monotone/engine/storage/pipeline.c
index cb4187a..e6eaa76 100644
--- a/monotone/engine/storage/pipeline.c
+++ b/monotone/engine/storage/pipeline.c
@@ -107,11 +107,15 @@ pipeline_alter_validate(List* configs)
 		if (list_is_last(configs, _i))
 			break;
 
-		// cannot use same storage
-		auto next = container_of(_i->next, TierConfig, link);
-		if (str_compare(&config->name, &next->name))
-			error("pipeline: tier '%.*s' is duplicated", str_size(&config->name),
-			      str_of(&config->name));
+		// cannot use same storage more than once
+		auto pos = _i->next;
+		for (; pos != configs; pos = pos->next)
+		{
+			auto next = container_of(pos, TierConfig, link);
+			if (str_compare(&config->name, &next->name))
+				error("pipeline: tier '%.*s' is duplicated", str_size(&config->name),
+				      str_of(&config->name));
+		}
 
 		// ensure conditions are set to use next
 		if (tier_config_terminal(config))
-- 
2.43.0


From c2cbcbc321f6065902026bfb21576d0291fbb777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 21/62] fix: pipeline rebalance of a partition after an error,
 clock step or while it is being refreshed

---
 monotone/engine/engine/op.c | 49 +++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index e777da9..d13eb31 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -272,6 +272,7 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 		{
 			memtable_free(&part->memtable_a);
 			memtable_free(&part->memtable_b);
+			part->refresh = false;
 		}
 	}
 
@@ -625,7 +626,8 @@ engine_rebalance_tier_next(Tier* tier)
 		if (! part)
 			return NULL;
 		auto now = time_us();
-		if ((now - part->time_create) >= (uint64_t)tier->config->duration)
+		if (now >= part->time_create &&
+		    now - part->time_create >= (uint64_t)tier->config->duration)
 			return part;
 	}
 
@@ -671,7 +673,10 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 			// mark partition for refresh to avoid concurrent rebalance
 			// calls for the same partition
 			if (part->refresh)
+			{
+				str_free(storage);
 				continue;
+			}
 			part->refresh = true;
 
 			*min = part->id.min;
@@ -684,6 +689,20 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 	return false;
 }
 
+static void
+engine_refresh_cancel(Engine* self, uint64_t min)
+{
+	// operation failed, partition can be scheduled again
+	control_lock_shared();
+	guard(control_unlock_guard, NULL);
+
+	mutex_lock(&self->lock);
+	auto slice = mapping_match(&self->mapping, min);
+	if (slice)
+		ref_of(slice)->part->refresh = false;
+	mutex_unlock(&self->lock);
+}
+
 void
 engine_rebalance(Engine* self, Refresh* refresh)
 {
@@ -695,10 +714,20 @@ engine_rebalance(Engine* self, Refresh* refresh)
 		uint64_t min;
 		if (! engine_rebalance_next(self, &min, &storage))
 			break;
-		if (str_empty(&storage))
-			engine_drop(self, min, true, ID|ID_CLOUD);
-		else
-			engine_refresh(self, refresh, min, &storage, true);
+		Exception e;
+		if (enter(&e))
+		{
+			if (str_empty(&storage))
+				engine_drop(self, min, true, ID|ID_CLOUD);
+			else
+				engine_refresh(self, refresh, min, &storage, true);
+		}
+		if (leave(&e))
+		{
+			// allow to retry
+			engine_refresh_cancel(self, min);
+			rethrow();
+		}
 	}
 }
 
@@ -714,9 +743,10 @@ engine_checkpoint(Engine* self)
 	while (slice)
 	{
 		auto ref = ref_of(slice);
-		if (!ref->part->refresh && heap_used(&ref->part->memtable->heap) > 0)
+		auto part = ref->part;
+		if (!part->refresh && (heap_used(&part->memtable_a.heap) > 0 ||
+		                       heap_used(&part->memtable_b.heap) > 0))
 		{
-			auto part = ref->part;
 			service_refresh(self->service, part);
 			part->refresh = true;
 		}
@@ -826,7 +856,10 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 		}
 	}
 	if (leave(&e))
-	{ }
+	{
+		if (req)
+			engine_refresh_cancel(self, req->id);
+	}
 
 	if (req)
 		service_req_free(req);
-- 
2.43.0


From 2d19ca05e06b83a4c11b31e4464722fe17841389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 22/62] fix: memory limit wait and allocation size overflow

---
 monotone/runtime/lib/heap.h       |  6 ++--
 monotone/runtime/lib/memory_mgr.h | 49 ++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/monotone/runtime/lib/heap.h b/monotone/runtime/lib/heap.h
index e850fa4..7f3dc4e 100644
--- a/monotone/runtime/lib/heap.h
+++ b/monotone/runtime/lib/heap.h
@@ -54,13 +54,13 @@ heap_used(Heap* self)
 }
 
 hot static inline void*
-heap_allocate(Heap* self, int size)
+heap_allocate(Heap* self, size_t size)
 {
-	if (unlikely(size > self->memory_mgr->page_size))
+	if (unlikely(size > (size_t)self->memory_mgr->page_size))
 		error("mm: allocation size is greater than the page size");
 	Page* page;
 	if (unlikely(self->list == NULL ||
-	             (self->memory_mgr->page_size - self->list_tail->used) < size))
+	             (size_t)(self->memory_mgr->page_size - self->list_tail->used) < size))
 	{
 		page = memory_mgr_pop(self->memory_mgr);
 		if (self->list == NULL)
diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index 89dd37a..d4123a6 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -126,33 +126,35 @@ memory_mgr_pop(MemoryMgr* self)
 {
 	mutex_lock(&self->lock);
 
-	if (likely(self->free_list))
+	bool limit_hit = false;
+	for (;;)
 	{
-		auto page = memory_mgr_pop_cache(self);
-		mutex_unlock(&self->lock);
-		return page;
-	}
+		if (likely(self->free_list))
+		{
+			auto page = memory_mgr_pop_cache(self);
+			mutex_unlock(&self->lock);
+			return page;
+		}
 
-	if (self->limit)
-	{
+		if (! self->limit)
+			break;
 		uint64_t used = self->count * (uint64_t)self->page_size;
-		if (unlikely(used >= self->limit_wm))
+		if (likely(used < self->limit_wm))
+			break;
+
+		if (! limit_hit)
 		{
 			self->limit_hits++;
-			if (self->limit_error)
-			{
-				mutex_unlock(&self->lock);
-				error("mm: memory limit reached");
-			}
-
-			// wait for free page
-			while (! self->free_list)
-				cond_var_wait(&self->cond_var, &self->lock);
-
-			auto page = memory_mgr_pop_cache(self);
+			limit_hit = true;
+		}
+		if (self->limit_error)
+		{
 			mutex_unlock(&self->lock);
-			return page;
+			error("mm: memory limit reached");
 		}
+
+		// wait for a page to be cached or released
+		cond_var_wait(&self->cond_var, &self->lock);
 	}
 
 	self->count++;
@@ -161,7 +163,12 @@ memory_mgr_pop(MemoryMgr* self)
 	Page* page;
 	page = vfs_mmap(-1, sizeof(Page) + self->page_size);
 	if (unlikely(page == NULL))
+	{
+		mutex_lock(&self->lock);
+		self->count--;
+		mutex_unlock(&self->lock);
 		error_system();
+	}
 	page->used = 0;
 	page->next = NULL;
 	return page;
@@ -177,11 +184,11 @@ memory_mgr_push(MemoryMgr* self, Page* page, Page* page_tail, int count)
 		page_tail->next = self->free_list;
 		self->free_list = page;
 		self->free_list_count += count;
-		cond_var_broadcast(&self->cond_var);
 		page = NULL;
 	} else {
 		self->count -= count;
 	}
+	cond_var_broadcast(&self->cond_var);
 	mutex_unlock(&self->lock);
 
 	while (page)
-- 
2.43.0


From e0bbd38e0f61628859728bcef69eea154857fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 23/62] fix: recovery with files left by several failed
 operations

---
 monotone/engine/engine/engine_recover.c | 72 ++++++++++++++-----------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/monotone/engine/engine/engine_recover.c b/monotone/engine/engine/engine_recover.c
index 5a6f1b4..62fc0de 100644
--- a/monotone/engine/engine/engine_recover.c
+++ b/monotone/engine/engine/engine_recover.c
@@ -112,6 +112,41 @@ engine_recover_storage(Engine* self, Storage* storage)
 	}
 }
 
+static void
+engine_recover_incomplete(Storage* storage)
+{
+	// remove files of operations which were not completed, an incomplete
+	// file can be left together with any other partition file
+	list_foreach_safe(&storage->list)
+	{
+		auto part = list_at(Part, link);
+
+		// crash during refresh (see refresh, crash case 1) or download
+		//
+		// there is no complete state for download, cloud file not
+		// removed after download (only prior to refresh)
+		if (part_has(part, ID_INCOMPLETE))
+		{
+			part_delete(part, ID_INCOMPLETE);
+			part_unset(part, ID_INCOMPLETE);
+		}
+
+		// crash during upload
+		if (part_has(part, ID_CLOUD_INCOMPLETE))
+		{
+			part_delete(part, ID_CLOUD_INCOMPLETE);
+			part_unset(part, ID_CLOUD_INCOMPLETE);
+		}
+
+		// without parent
+		if (part->state == ID_NONE)
+		{
+			storage_remove(storage, part);
+			part_free(part);
+		}
+	}
+}
+
 static void
 engine_recover_validate(Engine* self, Storage* storage)
 {
@@ -128,19 +163,6 @@ engine_recover_validate(Engine* self, Storage* storage)
 
 		// crash recovery cases (see refresh)
 
-		// crash case 1 (without parent)
-		case ID_INCOMPLETE:
-			storage_remove(storage, part);
-			part_delete(part, ID_INCOMPLETE);
-			part_free(part);
-			break;
-
-		// crash case 1 (with parent)
-		case ID | ID_INCOMPLETE:
-			part_delete(part, ID_INCOMPLETE);
-			part_unset(part, ID_INCOMPLETE);
-			break;
-
 		// crash case 2
 		case ID | ID_COMPLETE:
 			part_delete(part, ID_COMPLETE);
@@ -174,23 +196,6 @@ engine_recover_validate(Engine* self, Storage* storage)
 			break;
 		}
 
-		// crash case 4
-		case ID_CLOUD | ID_INCOMPLETE:
-			// crash during download
-			//
-			// there is no complete state for download, cloud file not
-			// removed after download (only prior to refresh)
-			part_delete(part, ID_INCOMPLETE);
-			part_unset(part, ID_INCOMPLETE);
-			break;
-
-		// crash case 5
-		case ID | ID_CLOUD_INCOMPLETE:
-			// crash during upload
-			part_delete(part, ID_CLOUD_INCOMPLETE);
-			part_unset(part, ID_CLOUD_INCOMPLETE);
-			break;
-
 		default:
 			error("partition '%" PRIu64"' has unexpected state: %d",
 			      part->id.min, part->state);
@@ -211,6 +216,13 @@ engine_recover(Engine* self)
 		engine_recover_storage(self, storage);
 	}
 
+	// remove incomplete files
+	list_foreach(&storage_mgr->list)
+	{
+		auto storage = list_at(Storage, link);
+		engine_recover_incomplete(storage);
+	}
+
 	// validate partitions per storage
 	list_foreach(&storage_mgr->list)
 	{
-- 
2.43.0


From 01c94ed26d685b76105b272d0d902b4b2d307c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 24/62] fix: restore of the serial number with empty partitions

---
 monotone/engine/engine/engine.c | 39 ++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index dc4c28f..cac4b33 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -78,31 +78,34 @@ engine_close(Engine* self)
 void
 engine_set_serial(Engine* self)
 {
-	auto slice = mapping_max(&self->mapping);
-	if (! slice)
-		return;
-	auto ref  = ref_of(slice);
-	auto part = ref->part;
-
+	// find max id, last partitions can be empty
 	bool     serial_set = false;
 	uint64_t serial = 0;
-	if (part->state != ID_NONE && part->index.regions > 0)
-	{
-		serial = index_max(&part->index, &part->index_data);
-		serial_set = true;
-	}
 
-	auto max = memtable_max(part->memtable);
-	if (max && max->id >= serial)
+	auto slice = mapping_max(&self->mapping);
+	for (; slice && !serial_set; slice = mapping_prev(&self->mapping, slice))
 	{
-		serial = max->id;
-		serial_set = true;
+		auto ref  = ref_of(slice);
+		auto part = ref->part;
+
+		if (part->state != ID_NONE && part->index.regions > 0)
+		{
+			serial = index_max(&part->index, &part->index_data);
+			serial_set = true;
+		}
+
+		auto max = memtable_max(part->memtable);
+		if (max && max->id >= serial)
+		{
+			serial = max->id;
+			serial_set = true;
+		}
 	}
 
-	if (serial_set)
-		serial++;
+	if (! serial_set)
+		return;
 
-	config_ssn_set(serial);
+	config_ssn_set(serial + 1);
 }
 
 hot Ref*
-- 
2.43.0


From 56681ac2f48986ca4c4aabac1ef621ff0e71005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 25/62] fix: deadlock between batches which use several
 partitions

---
 monotone/engine/engine/write.c | 59 ++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index 443c900..a4302ae 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -83,12 +83,62 @@ engine_commit(Engine* self, Log* log)
 	log_reset(log);
 }
 
+static int
+engine_write_compare(const void* a, const void* b)
+{
+	return compare_u64(*(uint64_t*)a, *(uint64_t*)b);
+}
+
+static void
+engine_write_unlock(Engine* self, Buf* locks)
+{
+	auto pos = (Ref**)locks->start;
+	auto end = (Ref**)locks->position;
+	for (; pos < end; pos++)
+		engine_unlock(self, *pos, LOCK_ACCESS);
+	buf_free(locks);
+}
+
+hot static void
+engine_write_lock(Engine* self, Buf* locks, EventArg* events, int count)
+{
+	// partitions must be always locked in the same order, to avoid a
+	// deadlock between batches
+	int i = 1;
+	while (i < count && events[i - 1].id <= events[i].id)
+		i++;
+	if (likely(i >= count))
+		return;
+
+	// lock all partitions of the batch
+	Buf list;
+	buf_init(&list);
+	guard(buf_free, &list);
+	for (i = 0; i < count; i++)
+		buf_write(&list, &events[i].id, sizeof(uint64_t));
+	qsort(list.start, count, sizeof(uint64_t), engine_write_compare);
+
+	Ref* ref = NULL;
+	auto id  = (uint64_t*)list.start;
+	for (i = 0; i < count; i++)
+	{
+		if (ref && slice_in(&ref->slice, id[i]))
+			continue;
+		buf_reserve(locks, sizeof(Ref*));
+		ref = engine_lock(self, id[i], LOCK_ACCESS, false, true);
+		buf_append(locks, &ref, sizeof(Ref*));
+	}
+}
+
 hot void
 engine_write(Engine* self, EventArg* events, int count)
 {
 	Log log;
 	log_init(&log);
 
+	Buf locks;
+	buf_init(&locks);
+
 	Exception e;
 	if (enter(&e))
 	{
@@ -103,6 +153,13 @@ engine_write(Engine* self, EventArg* events, int count)
 			// set serial
 			if (arg->id == UINT64_MAX && config_serial())
 				arg->id = config_ssn_next();
+		}
+
+		engine_write_lock(self, &locks, events, count);
+
+		for (int i = 0; i < count; i++)
+		{
+			auto arg = &events[i];
 
 			// prepare log record
 			auto op = log_add(&log);
@@ -145,11 +202,13 @@ engine_write(Engine* self, EventArg* events, int count)
 	if (leave(&e))
 	{
 		engine_rollback(self, &log);
+		engine_write_unlock(self, &locks);
 		log_free(&log);
 		rethrow();
 	}
 
 	engine_commit(self, &log);
+	engine_write_unlock(self, &locks);
 	log_free(&log);
 }
 
-- 
2.43.0


From 1b8d1460588717ab256c32417fd9a10ffaab6117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 26/62] fix: json string escaping, log message overflow, s3
 errors and the 'min' time unit

---
 monotone/cloud/s3/s3_request.c    |   6 +-
 monotone/main/command/lex.c       |   2 +-
 monotone/runtime/lib/json.c       | 109 ++++++++++++++++++++++++++++--
 monotone/runtime/runtime/buf.h    |   4 ++
 monotone/runtime/runtime/logger.c |   7 +-
 5 files changed, 117 insertions(+), 11 deletions(-)

diff --git a/monotone/cloud/s3/s3_request.c b/monotone/cloud/s3/s3_request.c
index e9da4e8..78f40e3 100644
--- a/monotone/cloud/s3/s3_request.c
+++ b/monotone/cloud/s3/s3_request.c
@@ -25,7 +25,7 @@
 
 static void
 s3_request_encode_base64(uint8_t digest_raw[20],
-                         uint8_t digest[28])
+                         uint8_t digest[29])
 {
 	static const char* const chars =
 	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
@@ -117,7 +117,7 @@ s3_request_prepare(S3Request* self)
 	      digest, NULL);
 
 	// encode MAC using base64
-	uint8_t digest_base64[28];
+	uint8_t digest_base64[29];
 	s3_request_encode_base64(digest, digest_base64);
 
 	// prepare authorization header field
@@ -255,7 +255,7 @@ error:;
 	{
 		long http_code = 0;
 		curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
-		error("s3: HTTP %d (%s)",
+		error("s3 %.*s: HTTP %d (%s)",
 		      str_size(&config->name),
 		      str_of(&config->name),
 		      (int)http_code,
diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 3d30be3..066945a 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -44,7 +44,7 @@ static Keyword keywords[] =
 	{ KSEC,        "sec",          3},
 	{ KSEC,        "second",       6},
 	{ KSEC,        "seconds",      7},
-	{ KMIN,        "min",          2},
+	{ KMIN,        "min",          3},
 	{ KMIN,        "minute",       6},
 	{ KMIN,        "minutes",      7},
 	{ KHOUR,       "hr",           2},
diff --git a/monotone/runtime/lib/json.c b/monotone/runtime/lib/json.c
index a1660f3..ffdf500 100644
--- a/monotone/runtime/lib/json.c
+++ b/monotone/runtime/lib/json.c
@@ -53,6 +53,68 @@ json_next(Json* self, int n)
 	return self->json[self->pos];
 }
 
+hot static inline int
+json_read_string(Json* self, char* string, int size)
+{
+	auto data = &self->buf;
+	if (likely(! memchr(string, '\\', size)))
+	{
+		encode_raw(data, string, size);
+		return '\"';
+	}
+
+	// unescape
+	Buf buf;
+	buf_init(&buf);
+	guard(buf_free, &buf);
+	buf_reserve(&buf, size);
+
+	auto pos = string;
+	auto end = string + size;
+	while (pos < end)
+	{
+		if (*pos != '\\' || pos + 1 == end)
+		{
+			buf_append(&buf, pos, 1);
+			pos++;
+			continue;
+		}
+		pos++;
+
+		char symbol = *pos++;
+		switch (symbol) {
+		case 'b': symbol = '\b';
+			break;
+		case 'f': symbol = '\f';
+			break;
+		case 'n': symbol = '\n';
+			break;
+		case 'r': symbol = '\r';
+			break;
+		case 't': symbol = '\t';
+			break;
+		case 'u':
+		{
+			// control characters (see export)
+			if (end - pos < 4 || memcmp(pos, "00", 2) != 0 ||
+			    !isxdigit(pos[2]) || !isxdigit(pos[3]))
+				return -1;
+			char hex[3] = { pos[2], pos[3], 0 };
+			symbol = strtol(hex, NULL, 16);
+			pos += 4;
+			break;
+		}
+		default:
+			// quote, slash
+			break;
+		}
+		buf_append(&buf, &symbol, 1);
+	}
+
+	encode_raw(data, (char*)buf.start, buf_size(&buf));
+	return '\"';
+}
+
 hot static inline int
 json_read(Json* self, int skip)
 {
@@ -176,8 +238,7 @@ json_read(Json* self, int skip)
 		if (unlikely(self->pos > self->json_size))
 			return -1;
 		int size = self->pos - offset - 1;
-		encode_raw(data, self->json + offset, size);
-		return token;
+		return json_read_string(self, self->json + offset, size);
 	}
 	case 'n':
 		if (unlikely(self->pos + 3 >= self->json_size ||
@@ -241,6 +302,7 @@ json_read(Json* self, int skip)
 		return token;
 fp:;
 		char* end;
+		errno = 0;
 		double real = strtod(self->json + self->pos, &end);
 		if (errno == ERANGE)
 			return -1;
@@ -271,6 +333,44 @@ json_parse(Json* self, Str* string)
 	assert(self->buf.position <= self->buf.end);
 }
 
+static void
+json_export_string(Buf* data, char* value, int size)
+{
+	buf_write(data, "\"", 1);
+	for (int i = 0; i < size; i++)
+	{
+		unsigned char symbol = value[i];
+		switch (symbol) {
+		case '"':
+			buf_write(data, "\\\"", 2);
+			break;
+		case '\\':
+			buf_write(data, "\\\\", 2);
+			break;
+		case '\n':
+			buf_write(data, "\\n", 2);
+			break;
+		case '\r':
+			buf_write(data, "\\r", 2);
+			break;
+		case '\t':
+			buf_write(data, "\\t", 2);
+			break;
+		default:
+			if (symbol < 0x20)
+			{
+				char buf[8];
+				snprintf(buf, sizeof(buf), "\\u%04x", symbol);
+				buf_write(data, buf, 6);
+				break;
+			}
+			buf_write(data, value + i, 1);
+			break;
+		}
+	}
+	buf_write(data, "\"", 1);
+}
+
 static void
 json_export_as(Buf* data, bool pretty, int deep, uint8_t** pos)
 {
@@ -311,13 +411,10 @@ json_export_as(Buf* data, bool pretty, int deep, uint8_t** pos)
 	}
 	case MN_STRINGV0 ... MN_STRING32:
 	{
-		// todo: quouting
 		char* value;
 		int   size;
 		data_read_raw(pos, &value, &size);
-		buf_write(data, "\"", 1);
-		buf_write(data, value, size);
-		buf_write(data, "\"", 1);
+		json_export_string(data, value, size);
 		break;
 	}
 	case MN_ARRAYV0 ... MN_ARRAY32:
diff --git a/monotone/runtime/runtime/buf.h b/monotone/runtime/runtime/buf.h
index 8939b85..1ca95f2 100644
--- a/monotone/runtime/runtime/buf.h
+++ b/monotone/runtime/runtime/buf.h
@@ -146,6 +146,10 @@ buf_vprintf(Buf* self, const char* fmt, va_list args)
 	char tmp[1024];
 	int  tmp_len;
 	tmp_len = vsnprintf(tmp, sizeof(tmp), fmt, args);
+	if (unlikely(tmp_len < 0))
+		return;
+	if (unlikely(tmp_len >= (int)sizeof(tmp)))
+		tmp_len = sizeof(tmp) - 1;
 	buf_write(self, tmp, tmp_len);
 }
 
diff --git a/monotone/runtime/runtime/logger.c b/monotone/runtime/runtime/logger.c
index a888041..02351f6 100644
--- a/monotone/runtime/runtime/logger.c
+++ b/monotone/runtime/runtime/logger.c
@@ -85,7 +85,12 @@ logger_write(Logger*     self,
 		len += snprintf(buffer + len, sizeof(buffer) - len, "%s", prefix);
 
 	// message
-	len += vsnprintf(buffer + len, sizeof(buffer) - len, fmt, args);
+	if (len < (int)sizeof(buffer))
+		len += vsnprintf(buffer + len, sizeof(buffer) - len, fmt, args);
+
+	// truncate long message
+	if (len > (int)sizeof(buffer) - 2)
+		len = sizeof(buffer) - 2;
 	len += snprintf(buffer + len, sizeof(buffer) - len, "\n");
 
 	// write
-- 
2.43.0


From 7ffb06c4424cce3c752f7c1ff6d4ff6d2e5cea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 27/62] fix: cloud mock upload keeps the tail of a previous
 failed upload

---
 monotone/cloud/cloud/mock.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monotone/cloud/cloud/mock.c b/monotone/cloud/cloud/mock.c
index 2286a67..202017f 100644
--- a/monotone/cloud/cloud/mock.c
+++ b/monotone/cloud/cloud/mock.c
@@ -135,6 +135,10 @@ mock_upload(Cloud* self, Source* source, Id* id)
 	// crash case 5
 	error_injection(error_upload);
 
+	// in case previous attempt failed
+	if (fs_exists("%s", path_to))
+		fs_unlink("%s", path_to);
+
 	// create mock file
 	File file;
 	file_init(&file);
-- 
2.43.0


From aa6bdb31f765e418ce9cdd3045aa95c4607a467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 28/62] fix: move of a partition without a file fails on upload

---
 monotone/engine/engine/op.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index d13eb31..cdbe1cb 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -535,7 +535,8 @@ engine_upload(Engine* self, uint64_t min,
 	if (! part_has(part, ID))
 	{
 		engine_unlock(self, ref, LOCK_SERVICE);
-		error("upload: partition '%" PRIu64 "' file does not exist locally", min);
+		if (! if_cloud)
+			error("upload: partition '%" PRIu64 "' file does not exist locally", min);
 		return;
 	}
 
-- 
2.43.0


From ffd8c8b839379c125c9d25433b38482c838b6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:46 +0000
Subject: [PATCH 29/62] fix: wal gc forgets files which failed to be removed

---
 monotone/engine/wal/wal.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 5529172..d8c299f 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -115,13 +115,25 @@ wal_gc(Wal* self, uint64_t snapshot)
 	{
 		char path[PATH_MAX];
 		uint64_t *ids = (uint64_t*)list.start;
-		int i = 0;
-		for (; i < list_count; i++)
+		volatile int i = 0;
+		Exception e;
+		if (enter(&e))
 		{
-			snprintf(path, sizeof(path), "%s/wal/%020" PRIu64 ".wal",
-			         config_directory(),
-			         ids[i]);
-			fs_unlink("%s", path);
+			for (; i < list_count; i++)
+			{
+				snprintf(path, sizeof(path), "%s/wal/%020" PRIu64 ".wal",
+				         config_directory(),
+				         ids[i]);
+				fs_unlink("%s", path);
+			}
+		}
+		if (leave(&e))
+		{
+			// keep files which were not removed, following files
+			// must not be removed before them
+			for (; i < list_count; i++)
+				wal_id_add(&self->list, ids[i]);
+			rethrow();
 		}
 	}
 }
-- 
2.43.0


From f6a3f95b1c2b1b3bad64307f25ca1aa074675407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:44 +0000
Subject: [PATCH 30/62] fix: incomplete wal record is left by a failed write
 before close

---
 monotone/engine/wal/wal.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index d8c299f..87a1caf 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -34,6 +34,12 @@ wal_free(Wal* self)
 	if (self->current)
 	{
 		auto file = self->current;
+		Exception e;
+		if (enter(&e)) {
+			wal_file_repair(file);
+		}
+		if (leave(&e))
+		{ }
 		wal_file_close(file);
 		wal_file_free(file);
 		self->current = NULL;
-- 
2.43.0


From bc3789716fc6779f6bbf548eb9ca18363cfdac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:38 +0000
Subject: [PATCH 31/62] fix: replay of a dropped partition into a newer empty
 partition file

---
 monotone/engine/engine/engine.c  | 1 +
 monotone/engine/engine/engine.h  | 2 ++
 monotone/engine/engine/op.c      | 9 +++++++++
 monotone/engine/engine/refresh.c | 6 ++++++
 4 files changed, 18 insertions(+)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index cac4b33..1dfe705 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -31,6 +31,7 @@ engine_init(Engine*     self,
 	self->wal        = wal;
 	self->service    = service;
 	self->comparator = comparator;
+	self->lsn_drop   = 0;
 	mutex_init(&self->lock);
 	cond_var_init(&self->cond_var);
 	mapping_init(&self->mapping);
diff --git a/monotone/engine/engine/engine.h b/monotone/engine/engine/engine.h
index aa2cf0b..f6bb71d 100644
--- a/monotone/engine/engine/engine.h
+++ b/monotone/engine/engine/engine.h
@@ -22,6 +22,8 @@ struct Engine
 	CondVar     cond_var;
 	// partition mapping
 	Mapping     mapping;
+	// last partition drop
+	atomic_u64  lsn_drop;
 	// objects
 	Pipeline    pipeline;
 	StorageMgr  storage_mgr;
diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index cdbe1cb..f4a3c48 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -165,6 +165,13 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
 	return false;
 }
 
+static inline void
+engine_drop_follow(Engine* self, uint64_t lsn)
+{
+	if (lsn > atomic_u64_of(&self->lsn_drop))
+		atomic_u64_set(&self->lsn_drop, lsn);
+}
+
 static void
 engine_drop_log(Engine* self, uint64_t min, uint64_t max)
 {
@@ -177,6 +184,7 @@ engine_drop_log(Engine* self, uint64_t min, uint64_t max)
 	else
 		log_drop_range_init(&drop, min, max);
 	auto rotate_ready = wal_write_op(self->wal, &drop.drop.write);
+	engine_drop_follow(self, drop.drop.write.lsn);
 
 	// schedule wal rotation
 	if (rotate_ready)
@@ -421,6 +429,7 @@ engine_drop_replay(Engine* self, LogDrop* drop)
 		slice = next;
 	}
 
+	engine_drop_follow(self, drop->write.lsn);
 	config_lsn_follow(drop->write.lsn);
 }
 
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index 6998262..ad7587a 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -133,6 +133,12 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	} else {
 		self->memtable = part_memtable_rotate(self->origin);
 		self->again = false;
+
+		// partition without updates, records of a previously dropped
+		// partition must not be replayed into it
+		if (atomic_u64_of(&self->memtable->lsn_max) == 0)
+			atomic_u64_set(&self->memtable->lsn_max,
+			               atomic_u64_of(&engine->lsn_drop));
 	}
 
 	ref_unlock(ref, LOCK_ACCESS);
-- 
2.43.0


From 94243101aa85f4d55eb1908acfcf26f21cc55848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:59 +0000
Subject: [PATCH 32/62] fix: recovery of an uploaded partition with a file left
 by a failed refresh

---
 monotone/engine/engine/engine_recover.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monotone/engine/engine/engine_recover.c b/monotone/engine/engine/engine_recover.c
index 62fc0de..20e880d 100644
--- a/monotone/engine/engine/engine_recover.c
+++ b/monotone/engine/engine/engine_recover.c
@@ -164,7 +164,11 @@ engine_recover_validate(Engine* self, Storage* storage)
 		// crash recovery cases (see refresh)
 
 		// crash case 2
+		//
+		// partition could be uploaded to the cloud after the failed refresh
 		case ID | ID_COMPLETE:
+		case ID | ID_COMPLETE | ID_CLOUD:
+		case ID_COMPLETE | ID_CLOUD:
 			part_delete(part, ID_COMPLETE);
 			part_unset(part, ID_COMPLETE);
 			break;
-- 
2.43.0


From 3f4a7e13f4312a45c52881dc85dd0ee6cab7d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 33/62] fix: file left by a failed refresh on the previous
 storage of a moved partition

---
 monotone/engine/io/part.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 78eb2f2..4d15b61 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -181,13 +181,16 @@ part_complete(Part* self)
 {
 	// finish rename of the completed partition file, if it was
 	// interrupted by an error (the original file is already removed)
-	if (! part_has(self, ID))
-		return;
 	char path[PATH_MAX];
 	id_path(&self->id, self->source, ID, path);
-	if (fs_exists("%s", path))
+	if (part_has(self, ID) && !fs_exists("%s", path))
+	{
+		part_rename(self, ID_COMPLETE, ID);
 		return;
-	part_rename(self, ID_COMPLETE, ID);
+	}
+
+	// otherwise, it was left by a failed refresh
+	part_delete(self, ID_COMPLETE);
 }
 
 void
-- 
2.43.0


From e32ae0b5654bcf82b843a4f49712835349d2d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:35 +0000
Subject: [PATCH 34/62] fix: truncated log file which is not the last one is
 silently skipped

---
 monotone/engine/wal/wal_cursor.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monotone/engine/wal/wal_cursor.c b/monotone/engine/wal/wal_cursor.c
index c55cfb7..2b16d60 100644
--- a/monotone/engine/wal/wal_cursor.c
+++ b/monotone/engine/wal/wal_cursor.c
@@ -103,6 +103,11 @@ wal_cursor_next(WalCursor* self)
 		if (id == UINT64_MAX)
 			break;
 
+		// incomplete record is possible only at the end of the last file
+		if (unlikely(self->file_offset < file->file.size))
+			error("wal: file '%s' is corrupted at offset %" PRIu64,
+			      str_of(&file->file.path), self->file_offset);
+
 		// close previous file
 		wal_file_close(file);
 		wal_file_free(file);
-- 
2.43.0


From ec123ce3690356e952c9fa2f84085ea7bbfdddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:19 +0000
Subject: [PATCH 35/62] fix: downloaded partition file is used before it is
 validated

---
 monotone/engine/io/part.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 4d15b61..4403712 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -202,8 +202,23 @@ part_download(Part* self)
 	// download partition file locally
 	cloud_download(self->cloud, self->source, &self->id);
 
-	// open
-	part_open(self, ID, false);
+	// open and validate, file must match the cloud file index
+	Index index;
+	Exception e;
+	if (enter(&e))
+	{
+		index_open(&self->file, self->source, &self->id, ID, &index);
+		if (memcmp(&index, &self->index, sizeof(Index)) != 0)
+			error("partition: file '%s' does not match the cloud file",
+			      str_of(&self->file.path));
+	}
+	if (leave(&e))
+	{
+		// keep using the cloud
+		file_close(&self->file);
+		part_delete(self, ID);
+		rethrow();
+	}
 }
 
 void
-- 
2.43.0


From b8f7bfa8d31ec361180289ded173954a400d85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:34 +0000
Subject: [PATCH 36/62] fix: alter of an s3 cloud accepts a configuration which
 prevents the database from opening

---
 monotone/cloud/cloud/cloud_mgr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monotone/cloud/cloud/cloud_mgr.c b/monotone/cloud/cloud/cloud_mgr.c
index 0b9b22c..cc9ab51 100644
--- a/monotone/cloud/cloud/cloud_mgr.c
+++ b/monotone/cloud/cloud/cloud_mgr.c
@@ -159,6 +159,12 @@ cloud_mgr_alter(CloudMgr* self, CloudConfig* config, int mask, bool if_exists)
 		return;
 	}
 
+	// validate new configuration before making any changes
+	auto config_new = cloud_config_copy(cloud->config);
+	guard(cloud_config_free, config_new);
+	cloud_config_alter(config_new, config, mask);
+	cloud_free(cloud_allocate(cloud->iface, config_new));
+
 	// update and save cloud config
 	cloud_config_alter(cloud->config, config, mask);
 	cloud_mgr_save(self);
-- 
2.43.0


From e44b9e4227312435c55c9366f2669bf34d5b3b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:06 +0000
Subject: [PATCH 37/62] fix: storage keeps a cloud which failed to be attached

---
 monotone/engine/storage/storage_mgr.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index 2120b80..1e42770 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -296,9 +296,10 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 		}
 
 		// ensure new cloud exists before making any changes
+		Cloud* cloud = NULL;
 		if (! str_empty(&source->cloud))
 		{
-			auto cloud = cloud_mgr_find(self->cloud_mgr, &source->cloud);
+			cloud = cloud_mgr_find(self->cloud_mgr, &source->cloud);
 			if (! cloud)
 				error("storage '%.*s': cloud '%.*s' not exists",
 				      str_size(&source->name),
@@ -307,8 +308,24 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 				      str_of(&source->cloud));
 		}
 
-		if (storage->cloud)
-			cloud_detach(storage->cloud, storage->source);
+		if (cloud != storage->cloud)
+		{
+			if (storage->cloud)
+				cloud_detach(storage->cloud, storage->source);
+
+			// keep using current cloud on error
+			Exception e;
+			if (enter(&e)) {
+				if (cloud)
+					cloud_attach(cloud, storage->source);
+			}
+			if (leave(&e))
+			{
+				if (storage->cloud)
+					cloud_attach(storage->cloud, storage->source);
+				rethrow();
+			}
+		}
 	}
 
 	// generate encryption key, if it is not set
@@ -342,7 +359,7 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 			part->cloud = NULL;
 		}
 
-		storage_set_cloud(self, storage, true);
+		storage_set_cloud(self, storage, false);
 
 		if (storage->cloud)
 		{
-- 
2.43.0


From 0bcb01aebe924acaf823a8e8f48d38a12cb49d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 38/62] fix: worker crash after a failed operation (guard used
 outside of the exception context)

---
 monotone/engine/engine/op.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index f4a3c48..6f445bf 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -703,14 +703,18 @@ static void
 engine_refresh_cancel(Engine* self, uint64_t min)
 {
 	// operation failed, partition can be scheduled again
+	//
+	// note: can be called outside of the exception context, guards
+	//       cannot be used
 	control_lock_shared();
-	guard(control_unlock_guard, NULL);
 
 	mutex_lock(&self->lock);
 	auto slice = mapping_match(&self->mapping, min);
 	if (slice)
 		ref_of(slice)->part->refresh = false;
 	mutex_unlock(&self->lock);
+
+	control_unlock();
 }
 
 void
-- 
2.43.0


From 50d6567ede4dcca982060d9b5e4f7b08b4396729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:37 +0000
Subject: [PATCH 39/62] fix: concurrent refreshes of one partition drop its
 only copy from the cloud

---
 monotone/engine/engine/op.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 6f445bf..169aac1 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -193,7 +193,7 @@ engine_drop_log(Engine* self, uint64_t min, uint64_t max)
 
 static bool
 engine_drop_file(Engine* self, uint64_t min, bool if_exists,
-                 bool    cloud_drop_local,
+                 bool    automatic,
                  int     mask)
 {
 	// find the original partition
@@ -206,11 +206,16 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	}
 	auto part = ref->part;
 
-	// execute automatic drop only, if file is on cloud and allowed
-	// by the partition source
-	if (cloud_drop_local)
+	// execute automatic drop only, if another copy of the file exists
+	// and it is allowed by the partition source
+	if (automatic)
 	{
-		if (!part->source->cloud_drop_local || !part_has(part, ID_CLOUD))
+		bool drop;
+		if (mask & ID_CLOUD)
+			drop = part_has(part, ID);
+		else
+			drop = part->source->cloud_drop_local && part_has(part, ID_CLOUD);
+		if (! drop)
 		{
 			engine_unlock(self, ref, LOCK_SERVICE);
 			return false;
@@ -588,8 +593,9 @@ engine_refresh(Engine* self, Refresh* refresh, uint64_t min, Str* storage,
 	// download partition from cloud, if necessary
 	engine_download(self, min, if_exists, true);
 
-	// drop partition from cloud
-	engine_drop(self, min, if_exists, ID_CLOUD);
+	// drop partition from cloud, unless the local file has been removed
+	// by a concurrent operation
+	engine_drop_file(self, min, if_exists, true, ID_CLOUD);
 
 	// refresh partition
 	refresh_reset(refresh);
@@ -851,7 +857,9 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 				engine_drop_file(self, req->id, true, true, ID);
 				break;
 			case ACTION_DROP_ON_CLOUD:
-				engine_drop(self, req->id, true, ID_CLOUD);
+				// drop partition file from cloud, only if the file
+				// exists locally
+				engine_drop_file(self, req->id, true, true, ID_CLOUD);
 				break;
 			case ACTION_REFRESH:
 				refresh_reset(refresh);
-- 
2.43.0


From a4eccca07c497fd7d363216fb731288fc38974c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:15 +0000
Subject: [PATCH 40/62] fix: concurrent operations fail to create the cloud
 mock directory

---
 monotone/cloud/cloud/mock.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monotone/cloud/cloud/mock.c b/monotone/cloud/cloud/mock.c
index 202017f..43e1a4f 100644
--- a/monotone/cloud/cloud/mock.c
+++ b/monotone/cloud/cloud/mock.c
@@ -68,7 +68,10 @@ mock_mkdir(Source* source)
 	if (! fs_exists("%s", path))
 	{
 		log("mock: new directory '%s'", path);
-		fs_mkdir(0755, "%s", path);
+		// directory can be created by a concurrent operation
+		int rc = vfs_mkdir(path, 0755);
+		if (unlikely(rc == -1 && errno != EEXIST))
+			error_system();
 	}
 }
 
-- 
2.43.0


From 859206defd8456723c937ee733c1e4b76bac2bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:15 +0000
Subject: [PATCH 41/62] fix: CREATE STORAGE uses the compression setting while
 it is being changed (use after free)

---
 monotone/main/command/parse_storage.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monotone/main/command/parse_storage.c b/monotone/main/command/parse_storage.c
index fc98805..37e8494 100644
--- a/monotone/main/command/parse_storage.c
+++ b/monotone/main/command/parse_storage.c
@@ -189,6 +189,11 @@ parse_storage_create(Lex* self)
 	source_set_uuid(config, &uuid);
 
 	// set default compression
+	//
+	// take shared control lock, since variable can be changed by a
+	// concurrent SET
+	control_lock_shared();
+	guard(control_unlock_guard, NULL);
 	auto default_compression = &config()->compression.string;
 	if (! str_empty(default_compression))
 	{
@@ -196,6 +201,8 @@ parse_storage_create(Lex* self)
 		auto level = var_int_of(&config()->compression_level);
 		source_set_compression_level(config, level);
 	}
+	unguard();
+	control_unlock();
 
 	// [(options)]
 	parse_storage_options(self, config, "CREATE STORAGE");
-- 
2.43.0


From a4970a97079c57c56a702e2f952feec2d16becf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:47 +0000
Subject: [PATCH 42/62] fix: drop resets the refresh flag without the engine
 lock (race with rebalance)

---
 monotone/engine/engine/op.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 169aac1..fce5c30 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -285,7 +285,9 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 		{
 			memtable_free(&part->memtable_a);
 			memtable_free(&part->memtable_b);
+			mutex_lock(&self->lock);
 			part->refresh = false;
+			mutex_unlock(&self->lock);
 		}
 	}
 
-- 
2.43.0


From d392335605aef2e3d75f45b783946bd83794c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:34 +0000
Subject: [PATCH 43/62] fix: partition refresh flag is read and written without
 a common lock

---
 monotone/engine/engine/op.c      | 12 ++++++------
 monotone/engine/engine/refresh.c |  2 +-
 monotone/engine/engine/write.c   |  2 +-
 monotone/engine/io/part.h        |  4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index fce5c30..966b794 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -286,7 +286,7 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 			memtable_free(&part->memtable_a);
 			memtable_free(&part->memtable_b);
 			mutex_lock(&self->lock);
-			part->refresh = false;
+			atomic_u32_set(&part->refresh, false);
 			mutex_unlock(&self->lock);
 		}
 	}
@@ -690,12 +690,12 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 		{
 			// mark partition for refresh to avoid concurrent rebalance
 			// calls for the same partition
-			if (part->refresh)
+			if (atomic_u32_of(&part->refresh))
 			{
 				str_free(storage);
 				continue;
 			}
-			part->refresh = true;
+			atomic_u32_set(&part->refresh, true);
 
 			*min = part->id.min;
 			mutex_unlock(&self->lock);
@@ -719,7 +719,7 @@ engine_refresh_cancel(Engine* self, uint64_t min)
 	mutex_lock(&self->lock);
 	auto slice = mapping_match(&self->mapping, min);
 	if (slice)
-		ref_of(slice)->part->refresh = false;
+		atomic_u32_set(&ref_of(slice)->part->refresh, false);
 	mutex_unlock(&self->lock);
 
 	control_unlock();
@@ -766,11 +766,11 @@ engine_checkpoint(Engine* self)
 	{
 		auto ref = ref_of(slice);
 		auto part = ref->part;
-		if (!part->refresh && (heap_used(&part->memtable_a.heap) > 0 ||
+		if (!atomic_u32_of(&part->refresh) && (heap_used(&part->memtable_a.heap) > 0 ||
 		                       heap_used(&part->memtable_b.heap) > 0))
 		{
 			service_refresh(self->service, part);
-			part->refresh = true;
+			atomic_u32_set(&part->refresh, true);
 		}
 		slice = mapping_next(&self->mapping, slice);
 	}
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index ad7587a..a1c2582 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -235,7 +235,7 @@ refresh_abort(Refresh* self)
 	// keep using the original partition, allow to schedule next refresh
 	auto engine = self->engine;
 	mutex_lock(&engine->lock);
-	self->origin->refresh = false;
+	atomic_u32_set(&self->origin->refresh, false);
 	mutex_unlock(&engine->lock);
 
 	auto part = self->part;
diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index a4302ae..33d1a9d 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -71,7 +71,7 @@ engine_commit(Engine* self, Log* log)
 			if (part_refresh_ready(part))
 			{
 				service_refresh(self->service, part);
-				part->refresh = true;
+				atomic_u32_set(&part->refresh, true);
 			}
 
 			engine_unlock(self, ref, LOCK_ACCESS);
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index d2535ae..88fa5bd 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -21,7 +21,7 @@ struct Part
 	int         state;
 	uint64_t    time_create;
 	uint64_t    time_refresh;
-	bool        refresh;
+	atomic_u32  refresh;
 	Memtable*   memtable;
 	Memtable    memtable_a;
 	Memtable    memtable_b;
@@ -109,7 +109,7 @@ part_memtable_rotate(Part* self)
 static inline bool
 part_refresh_ready(Part* self)
 {
-	if (self->refresh)
+	if (atomic_u32_of(&self->refresh))
 		return false;
 	if (! self->source->refresh_wm)
 		return false;
-- 
2.43.0


From 8ef1cea1f5e2283d0116a254696c54a9a95166d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:33 +0000
Subject: [PATCH 44/62] fix: regions of a partition file beyond 4GiB cannot be
 read (offset truncation)

---
 monotone/engine/io/index.h        | 9 ++++++++-
 monotone/engine/io/index_writer.h | 3 ++-
 monotone/engine/io/reader.h       | 4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/io/index.h b/monotone/engine/io/index.h
index dfd9719..56b8da2 100644
--- a/monotone/engine/io/index.h
+++ b/monotone/engine/io/index.h
@@ -28,7 +28,8 @@ struct IndexRegion
 	uint32_t size;
 	uint32_t size_origin;
 	uint32_t events;
-	uint32_t reserved[4];
+	uint32_t offset_high;
+	uint32_t reserved[3];
 } packed;
 
 struct Index
@@ -61,6 +62,12 @@ index_init(Index* self)
 	memset(self, 0, sizeof(*self));
 }
 
+static inline uint64_t
+index_region_offset(IndexRegion* self)
+{
+	return ((uint64_t)self->offset_high << 32) | self->offset;
+}
+
 static inline IndexRegion*
 index_get(Index* self, Buf* data, int pos)
 {
diff --git a/monotone/engine/io/index_writer.h b/monotone/engine/io/index_writer.h
index 3efa8ed..3f34867 100644
--- a/monotone/engine/io/index_writer.h
+++ b/monotone/engine/io/index_writer.h
@@ -193,7 +193,8 @@ index_writer_add(IndexWriter*  self,
 	// prepare meta region reference
 	buf_reserve(&self->data, sizeof(IndexRegion));
 	auto ref = (IndexRegion*)self->data.position;
-	ref->offset      = region_offset;
+	ref->offset      = (uint32_t)region_offset;
+	ref->offset_high = region_offset >> 32;
 	ref->crc         = crc;
 	ref->min         = region_writer_min(region_writer)->id;
 	ref->max         = region_writer_max(region_writer)->id;
diff --git a/monotone/engine/io/reader.h b/monotone/engine/io/reader.h
index 341ca24..f74b9f5 100644
--- a/monotone/engine/io/reader.h
+++ b/monotone/engine/io/reader.h
@@ -93,7 +93,7 @@ reader_execute(Reader* self, IndexRegion* index_region)
 	{
 		// read region data from file
 		file_pread_buf(&part->file, &self->buf, index_region->size,
-		               index_region->offset);
+		               index_region_offset(index_region));
 	} else
 	if (part_has(part, ID_CLOUD))
 	{
@@ -101,7 +101,7 @@ reader_execute(Reader* self, IndexRegion* index_region)
 		cloud_read(part->cloud, part->source, &part->id,
 		           &self->buf,
 		           index_region->size,
-		           index_region->offset);
+		           index_region_offset(index_region));
 	} else {
 		abort();
 	}
-- 
2.43.0


From bef536549181c6797913810bacc0a60253f669c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 45/62] fix: failed drop of a partition file leaves the
 partition without an open file

---
 monotone/engine/io/part.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 4403712..67a7468 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -249,9 +249,9 @@ part_offload(Part* self, bool from_storage)
 	// remove from storage
 	if (from_storage)
 	{
-		// remove data file
-		file_close(&self->file);
+		// remove data file, the file remains open on error
 		part_delete(self, ID);
+		file_close(&self->file);
 		return;
 	}
 
-- 
2.43.0


From b6c634bb5ee4f533cfbd6551c31e7b496e72f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 46/62] fix: file descriptor leak when the sync of a rotated
 log file fails

---
 monotone/engine/wal/wal.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 87a1caf..686ef0a 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -97,10 +97,15 @@ wal_rotate(Wal* self, uint64_t wm)
 	// sync and close prev file
 	if (file_prev)
 	{
-		if (var_int_of(&config()->wal_sync_on_rotate) && config_sync())
-			file_sync(&file_prev->file);
+		if (enter(&e))
+		{
+			if (var_int_of(&config()->wal_sync_on_rotate) && config_sync())
+				file_sync(&file_prev->file);
+		}
 		wal_file_close(file_prev);
 		wal_file_free(file_prev);
+		if (leave(&e))
+			rethrow();
 	}
 }
 
-- 
2.43.0


From df3ac303dd3cf95572a0cf3a06e7e03ff5117263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:11 +0000
Subject: [PATCH 47/62] fix: database cannot be opened when the log needs more
 memory than the memory limit

---
 monotone/main/main/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 0a3b500..2630e4e 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -177,6 +177,11 @@ main_replay(Main* self)
 	wal_cursor_init(&cursor);
 	guard(wal_cursor_close, &cursor);
 
+	// memory limit does not apply to the recovery, there is nothing which
+	// can release the memory until it is complete
+	auto limit = self->memory_mgr.limit;
+	self->memory_mgr.limit = false;
+
 	wal_cursor_open(&cursor, &self->wal, 0);
 	uint64_t total = 0;
 	for (;;)
@@ -208,6 +213,8 @@ main_replay(Main* self)
 		wal_truncate(&self->wal, cursor.file->id, cursor.file_offset);
 	log("wal: %.1f million records processed",
 	    total / 1000000.0);
+
+	self->memory_mgr.limit = limit;
 }
 
 void
-- 
2.43.0


From 4ef7fbf26a07f1a80cc8c59151e98ac03574855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:11 +0000
Subject: [PATCH 48/62] fix: memory page size is not validated (overflow of the
 page)

---
 monotone/runtime/lib/memory_mgr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index d4123a6..4341084 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -55,12 +55,14 @@ memory_mgr_init(MemoryMgr* self)
 }
 
 static inline void
-memory_mgr_set(MemoryMgr* self, int page_size,
+memory_mgr_set(MemoryMgr* self, int64_t page_size,
                uint64_t   cache,
                bool       limit,
                Str*       limit_behaviour,
                uint64_t   limit_wm)
 {
+	if (unlikely(page_size <= (int64_t)sizeof(Page) || page_size > INT_MAX))
+		error("mm: invalid page size");
 	self->page_size = page_size - sizeof(Page);
 	self->cache     = cache;
 	self->limit     = limit;
-- 
2.43.0


From b0fab1925898ce314ec8dcf45cfd71faa1fd38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:24 +0000
Subject: [PATCH 49/62] fix: open of an open handle leaves the directory locked

---
 monotone/main/main/main.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 2630e4e..bc09733 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -118,7 +118,9 @@ static void
 main_deploy(Main* self, Str* directory)
 {
 	if (config_online())
-		log("environment is already open");
+		error("environment is already open");
+	if (file_is_openned(&self->lock_directory))
+		error("environment failed to open and must be freed");
 
 	// prepare random manager
 	random_open(&self->random);
@@ -143,8 +145,18 @@ main_deploy(Main* self, Str* directory)
 
 	// get exclusive directory lock
 	file_open_directory(&self->lock_directory, str_of(directory));
-	if (! file_lock(&self->lock_directory))
-		error("in use by another process");
+	Exception e;
+	if (enter(&e))
+	{
+		if (! file_lock(&self->lock_directory))
+			error("in use by another process");
+	}
+	if (leave(&e))
+	{
+		// allow to retry
+		file_close(&self->lock_directory);
+		rethrow();
+	}
 
 	// read or create config file
 	char path[PATH_MAX];
-- 
2.43.0


From 58b55e148b216673b10bba8c07cc84dc03e3575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 50/62] fix: cursor key longer than 255 bytes is truncated

---
 monotone/main/api/monotone.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monotone/main/api/monotone.c b/monotone/main/api/monotone.c
index d4688e4..f95a734 100644
--- a/monotone/main/api/monotone.c
+++ b/monotone/main/api/monotone.c
@@ -185,6 +185,9 @@ monotone_cursor(monotone_t* self, const char* options, monotone_event_t* key)
 			engine_cursor_open(&cursor->cursor, &self->main.engine, NULL);
 		} else
 		{
+			// event key size limit, otherwise the key would be truncated
+			if (unlikely(key->key_size > UINT8_MAX))
+				error("event key size limit is 255 bytes");
 			auto copy = event_malloc((EventArg*)key);
 			guard(event_free, copy);
 			engine_cursor_open(&cursor->cursor, &self->main.engine, copy);
-- 
2.43.0


From 941050ba027391dfe972ff96a99c86465fc4dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:35 +0000
Subject: [PATCH 51/62] fix: open partition files leak when the recovery fails

---
 monotone/engine/engine/engine.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index 1dfe705..b5de0b4 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -72,8 +72,24 @@ engine_close(Engine* self)
 			break;
 		mapping_remove(&self->mapping, slice);
 		auto ref = ref_of(slice);
+		if (ref->part)
+		{
+			list_unlink(&ref->part->link);
+			list_init(&ref->part->link);
+		}
 		ref_free(ref);
 	}
+
+	// free partitions left by incomplete recover
+	list_foreach(&self->storage_mgr.list)
+	{
+		auto storage = list_at(Storage, link);
+		while (! list_empty(&storage->list))
+		{
+			auto part = container_of(list_pop(&storage->list), Part, link);
+			part_free(part);
+		}
+	}
 }
 
 void
-- 
2.43.0


From c5100ef9340c35d3d7fc97f0400378e1132341af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:12 +0000
Subject: [PATCH 52/62] fix: crash on open when the config file has no content

---
 monotone/runtime/lib/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/json.c b/monotone/runtime/lib/json.c
index ffdf500..4332197 100644
--- a/monotone/runtime/lib/json.c
+++ b/monotone/runtime/lib/json.c
@@ -328,7 +328,7 @@ json_parse(Json* self, Str* string)
 	self->pos       = 0;
 	int rc;
 	rc = json_read(self, 0);
-	if (unlikely(rc == -1))
+	if (unlikely(rc <= 0))
 		error("%s", "json parse error");
 	assert(self->buf.position <= self->buf.end);
 }
-- 
2.43.0


From e445c8fbeb4a8efcefdacb74267a1eca4716f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:00 +0000
Subject: [PATCH 53/62] fix: crash or wrong data when a cloud returns a region
 of a different size

---
 monotone/engine/io/reader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monotone/engine/io/reader.h b/monotone/engine/io/reader.h
index f74b9f5..8e1a742 100644
--- a/monotone/engine/io/reader.h
+++ b/monotone/engine/io/reader.h
@@ -107,6 +107,10 @@ reader_execute(Reader* self, IndexRegion* index_region)
 	}
 	Buf* origin = &self->buf;
 
+	// cloud can return less or more data than requested
+	if (unlikely(buf_size(origin) != (int)index_region->size))
+		error("read: region data size mismatch");
+
 	// check region data crc, if it has been enabled
 	if (index_region->crc != 0)
 	{
-- 
2.43.0


From b4148523fbc2737c30a5c910d47dc0ba4ab884b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:48 +0000
Subject: [PATCH 54/62] fix: failed removal from the cloud leaves the partition
 relying on the removed cloud copy

---
 monotone/engine/engine/op.c | 13 ++++++++++++-
 monotone/engine/io/part.c   |  8 ++++++++
 monotone/engine/io/part.h   |  1 +
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 966b794..5b0551d 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -255,7 +255,18 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 		{
 			if (part_has(part, ID_CLOUD))
 			{
-				part_offload(part, false);
+				// cloud copy can no longer be used after the first attempt
+				// to remove it, rely on the local file (if any)
+				Exception oe;
+				if (enter(&oe)) {
+					part_offload(part, false);
+				}
+				if (leave(&oe))
+				{
+					if (part_has(part, ID) && !part_exists(part, ID_CLOUD))
+						part_unset(part, ID_CLOUD);
+					rethrow();
+				}
 				part_unset(part, ID_CLOUD);
 			}
 		}
diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 67a7468..4ff2f6f 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -137,6 +137,14 @@ part_create(Part* self, int state)
 	}
 }
 
+bool
+part_exists(Part* self, int state)
+{
+	char path[PATH_MAX];
+	id_path(&self->id, self->source, state, path);
+	return fs_exists("%s", path);
+}
+
 void
 part_delete(Part* self, int state)
 {
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index 88fa5bd..19d5030 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -39,6 +39,7 @@ part_allocate(Comparator*, Source*, Id*);
 void part_free(Part*);
 void part_open(Part*, int, bool);
 void part_create(Part*, int);
+bool part_exists(Part*, int);
 void part_delete(Part*, int);
 void part_delete_leftovers(Part*, Source*);
 void part_rename(Part*, int, int);
-- 
2.43.0


From e2613b048f93c3c54dc6ce20068bd9de4cc0df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:04 +0000
Subject: [PATCH 55/62] fix: failed read of the partition file hangs the upload
 to S3

---
 monotone/cloud/s3/s3_op.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/monotone/cloud/s3/s3_op.c b/monotone/cloud/s3/s3_op.c
index 4573625..f7a9b90 100644
--- a/monotone/cloud/s3/s3_op.c
+++ b/monotone/cloud/s3/s3_op.c
@@ -65,12 +65,16 @@ s3_op_upload_cb(void* ptr, size_t len, size_t nmemb, void* arg)
 	else
 		size = size_limit;
 
-	int rc = vfs_read(upload->file->fd, ptr, size);
-	if (rc == -1)
+	if (size == 0)
 		return 0;
 
-	upload->file_offset += size;
-	return size;
+	// read can return less data than requested
+	int64_t rc = vfs_read(upload->file->fd, ptr, size);
+	if (unlikely(rc <= 0))
+		return CURL_READFUNC_ABORT;
+
+	upload->file_offset += rc;
+	return rc;
 }
 
 void
-- 
2.43.0


From 6135e2c1f91a926ca5da81511bd4d66f6b0e23e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:43 +0000
Subject: [PATCH 56/62] fix: replay of a partition drop depends on the current
 interval

---
 monotone/engine/engine/op.c    | 9 +++++++--
 monotone/engine/wal/log_drop.h | 9 ++++++---
 monotone/main/main/execute.c   | 3 ++-
 monotone/main/main/main.c      | 2 +-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 5b0551d..e0c231e 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -179,8 +179,10 @@ engine_drop_log(Engine* self, uint64_t min, uint64_t max)
 		return;
 
 	LogDropRange drop;
-	if (min == config_interval_of(min) && (max - min) == (config_interval() - 1))
-		log_drop_init(&drop.drop, min);
+	uint64_t interval = config_interval();
+	if (min == config_interval_of(min) && (max - min) == (interval - 1) &&
+	    interval <= UINT32_MAX)
+		log_drop_init(&drop.drop, min, interval);
 	else
 		log_drop_range_init(&drop, min, max);
 	auto rotate_ready = wal_write_op(self->wal, &drop.drop.write);
@@ -418,6 +420,9 @@ engine_drop_replay(Engine* self, LogDrop* drop)
 	uint64_t max;
 	if (drop->write.type == LOG_DROP_RANGE)
 		max = ((LogDropRange*)drop)->max;
+	else
+	if (drop->write.count > 0)
+		max = min + (drop->write.count - 1);
 	else
 		max = min + (config_interval() - 1);
 	if (unlikely(max < min))
diff --git a/monotone/engine/wal/log_drop.h b/monotone/engine/wal/log_drop.h
index 0a9bf1d..146ac42 100644
--- a/monotone/engine/wal/log_drop.h
+++ b/monotone/engine/wal/log_drop.h
@@ -17,6 +17,9 @@ typedef struct LogDrop      LogDrop;
 typedef struct LogDropRange LogDropRange;
 
 // drop of a partition created using default interval
+//
+// the interval is saved as the number of records (zero for the current
+// interval)
 struct LogDrop
 {
 	LogWrite write;
@@ -31,13 +34,13 @@ struct LogDropRange
 } packed;
 
 static inline void
-log_drop_init(LogDrop* self, uint64_t id)
+log_drop_init(LogDrop* self, uint64_t id, uint32_t interval)
 {
 	auto write = &self->write;
 	write->crc   = 0;
 	write->lsn   = 0;
 	write->type  = LOG_DROP;
-	write->count = 0;
+	write->count = interval;
 	write->size  = sizeof(LogDrop);
 	self->id     = id;
 	// calculate crc
@@ -48,7 +51,7 @@ log_drop_init(LogDrop* self, uint64_t id)
 static inline void
 log_drop_range_init(LogDropRange* self, uint64_t min, uint64_t max)
 {
-	log_drop_init(&self->drop, min);
+	log_drop_init(&self->drop, min, 0);
 	auto write = &self->drop.write;
 	write->type = LOG_DROP_RANGE;
 	write->size = sizeof(LogDropRange);
diff --git a/monotone/main/main/execute.c b/monotone/main/main/execute.c
index 9cd65c5..f209150 100644
--- a/monotone/main/main/execute.c
+++ b/monotone/main/main/execute.c
@@ -202,7 +202,8 @@ execute_debug(Executable* self)
 			auto write = wal_cursor_at(&cursor);
 			buf_printf(self->output, "[%" PRIu64 ", %d, %d, %d]\n", write->lsn,
 			           write->type,
-			           write->count, write->size);
+			           write->type == LOG_WRITE ? write->count : 0,
+			           write->size);
 		}
 		break;
 	}
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index bc09733..94b9d23 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -206,6 +206,7 @@ main_replay(Main* self)
 		switch (write->type) {
 		case LOG_WRITE:
 			engine_write_replay(&self->engine, write);
+			total += write->count;
 			break;
 		case LOG_DROP:
 		case LOG_DROP_RANGE:
@@ -217,7 +218,6 @@ main_replay(Main* self)
 			break;
 		}
 
-		total += write->count;
 	}
 
 	// remove incomplete record left by a crash
-- 
2.43.0


From 525a1267f42facbca46bc0d9bc929881e50ae670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:34 +0000
Subject: [PATCH 57/62] fix: failed rebalance cancels the refresh of the same
 request

---
 monotone/engine/engine/op.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index e0c231e..713ef44 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -867,8 +867,17 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 				engine_gc(self);
 				break;
 			case ACTION_REBALANCE:
-				engine_rebalance(self, refresh);
+			{
+				// failed rebalance must not cancel other actions
+				// of the request
+				Exception on_rebalance;
+				if (enter(&on_rebalance)) {
+					engine_rebalance(self, refresh);
+				}
+				if (leave(&on_rebalance))
+				{ }
 				break;
+			}
 			case ACTION_DROP_ON_STORAGE:
 				// drop partition file from storage, only if the file
 				// has been uploaded
-- 
2.43.0


From 52d71c39db6c2028e0e75140a8e57e35bdfd7a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:34 +0000
Subject: [PATCH 58/62] fix: background refresh of a partition uploaded in
 between is lost

---
 monotone/engine/engine/op.c | 47 +++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 713ef44..7eb9e93 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -831,6 +831,50 @@ engine_gc(Engine* self)
 	wal_gc(self->wal, lsn_min);
 }
 
+static bool
+engine_is_on_cloud(Engine* self, uint64_t min, bool* updates)
+{
+	// note: can be called outside of the exception context, guards
+	//       cannot be used
+	control_lock_shared();
+
+	mutex_lock(&self->lock);
+	auto slice = mapping_match(&self->mapping, min);
+	bool on_cloud = false;
+	if (slice)
+	{
+		auto part = ref_of(slice)->part;
+		on_cloud = part_has(part, ID_CLOUD);
+		*updates = heap_used(&part->memtable_a.heap) > 0 ||
+		           heap_used(&part->memtable_b.heap) > 0;
+	}
+	mutex_unlock(&self->lock);
+
+	control_unlock();
+	return on_cloud;
+}
+
+static void
+engine_service_refresh(Engine* self, Refresh* refresh, uint64_t min)
+{
+	Exception e;
+	if (enter(&e))
+	{
+		refresh_reset(refresh);
+		refresh_run(refresh, min, NULL, true);
+	}
+	if (! leave(&e))
+		return;
+
+	// partition has been uploaded by a rebalance or by a concurrent
+	// request, do it again if there are updates
+	bool updates = false;
+	if (! engine_is_on_cloud(self, min, &updates))
+		rethrow();
+	if (updates)
+		engine_refresh(self, refresh, min, NULL, true);
+}
+
 bool
 engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 {
@@ -889,8 +933,7 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 				engine_drop_file(self, req->id, true, true, ID_CLOUD);
 				break;
 			case ACTION_REFRESH:
-				refresh_reset(refresh);
-				refresh_run(refresh, req->id, NULL, true);
+				engine_service_refresh(self, refresh, req->id);
 				break;
 			case ACTION_DOWNLOAD:
 				engine_download(self, req->id, true, true);
-- 
2.43.0


From 4c6bdf2258473a3f2cd21559af0505ca9b2c443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:26 +0000
Subject: [PATCH 59/62] fix: data race between a background refresh and a drop
 of the partition copy

---
 monotone/engine/engine/op.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 7eb9e93..8965a22 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -834,23 +834,24 @@ engine_gc(Engine* self)
 static bool
 engine_is_on_cloud(Engine* self, uint64_t min, bool* updates)
 {
-	// note: can be called outside of the exception context, guards
-	//       cannot be used
-	control_lock_shared();
+	auto ref = engine_lock(self, min, LOCK_SERVICE, false, false);
+	if (unlikely(! ref))
+		return false;
 
+	// get access lock
 	mutex_lock(&self->lock);
-	auto slice = mapping_match(&self->mapping, min);
-	bool on_cloud = false;
-	if (slice)
-	{
-		auto part = ref_of(slice)->part;
-		on_cloud = part_has(part, ID_CLOUD);
-		*updates = heap_used(&part->memtable_a.heap) > 0 ||
-		           heap_used(&part->memtable_b.heap) > 0;
-	}
+	ref_lock(ref, LOCK_ACCESS);
 	mutex_unlock(&self->lock);
 
-	control_unlock();
+	auto part = ref->part;
+	bool on_cloud = part_has(part, ID_CLOUD);
+	*updates = heap_used(&part->memtable_a.heap) > 0 ||
+	           heap_used(&part->memtable_b.heap) > 0;
+
+	mutex_lock(&self->lock);
+	ref_unlock(ref, LOCK_ACCESS);
+	mutex_unlock(&self->lock);
+	engine_unlock(self, ref, LOCK_SERVICE);
 	return on_cloud;
 }
 
-- 
2.43.0


From d0ea36c2fe0d9d89ee739f3c5559fb2c0effb9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:26 +0000
Subject: [PATCH 60/62] fix: calls before the environment is open crash, hang
 or leave partial definitions

---
 monotone/main/api/monotone.c | 9 +++++++++
 monotone/main/main/execute.c | 8 ++++++++
 monotone/main/main/main.c    | 6 +++---
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/monotone/main/api/monotone.c b/monotone/main/api/monotone.c
index f95a734..685ba9e 100644
--- a/monotone/main/api/monotone.c
+++ b/monotone/main/api/monotone.c
@@ -41,6 +41,13 @@ monotone_enter(monotone_t* self)
 	runtime_init(&self->main.context);
 }
 
+hot static inline void
+monotone_validate(void)
+{
+	if (unlikely(! config_online()))
+		error("environment is not open");
+}
+
 MONOTONE_API monotone_t*
 monotone_init(void)
 {
@@ -156,6 +163,7 @@ monotone_write(monotone_t* self, monotone_event_t* events, int count)
 	int rc = 0;
 	Exception e;
 	if (enter(&e)) {
+		monotone_validate();
 		engine_write(&self->main.engine, (EventArg*)events, count);
 	}
 	if (leave(&e)) {
@@ -181,6 +189,7 @@ monotone_cursor(monotone_t* self, const char* options, monotone_event_t* key)
 	Exception e;
 	if (enter(&e))
 	{
+		monotone_validate();
 		if (key == NULL) {
 			engine_cursor_open(&cursor->cursor, &self->main.engine, NULL);
 		} else
diff --git a/monotone/main/main/execute.c b/monotone/main/main/execute.c
index f209150..e38fceb 100644
--- a/monotone/main/main/execute.c
+++ b/monotone/main/main/execute.c
@@ -547,6 +547,14 @@ main_execute(Main* self, const char* command, char** result)
 	if (cmd == NULL)
 		return;
 
+	// only configuration can be accessed before the environment is open
+	if (unlikely(!config_online() &&
+	             cmd->type != CMD_SET && cmd->type != CMD_SHOW))
+	{
+		cmd_free(cmd);
+		error("environment is not open");
+	}
+
 	// prepare for execution
 	auto execute = &cmds[cmd->type];
 	switch (execute->lock) {
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 94b9d23..72f9433 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -110,6 +110,9 @@ main_free(Main* self)
 void
 main_prepare(Main* self)
 {
+	// prepare random manager
+	random_open(&self->random);
+
 	// set default configuration
 	config_prepare(&self->config);
 }
@@ -122,9 +125,6 @@ main_deploy(Main* self, Str* directory)
 	if (file_is_openned(&self->lock_directory))
 		error("environment failed to open and must be freed");
 
-	// prepare random manager
-	random_open(&self->random);
-
 	// generate uuid, unless it is set
 	if (! var_string_is_set(&config()->uuid))
 	{
-- 
2.43.0


From 52421d7106afc852e8f3096379705d4980be427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:26 +0000
Subject: [PATCH 61/62] fix: downloaded file is not synced (mock cloud), power
 failure leaves a damaged partition file

---
 monotone/cloud/cloud/mock.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monotone/cloud/cloud/mock.c b/monotone/cloud/cloud/mock.c
index 43e1a4f..d0d85d0 100644
--- a/monotone/cloud/cloud/mock.c
+++ b/monotone/cloud/cloud/mock.c
@@ -106,6 +106,10 @@ mock_download(Cloud* self, Source* source, Id* id)
 	file_create(&file, path_to);
 	file_write_buf(&file, &buf);
 
+	// sync
+	if (source->sync && config_sync())
+		file_sync(&file);
+
 	// crash case 4
 	error_injection(error_download);
 
-- 
2.43.0


From a0dee611596e4b49b099e52d0971e8a84aa04e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:52 +0000
Subject: [PATCH 62/62] fix: recovery refuses a file left by a failed move,
 when the partition is on the cloud only

---
 monotone/engine/engine/engine_recover.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/engine_recover.c b/monotone/engine/engine/engine_recover.c
index 20e880d..d6c603a 100644
--- a/monotone/engine/engine/engine_recover.c
+++ b/monotone/engine/engine/engine_recover.c
@@ -182,11 +182,12 @@ engine_recover_validate(Engine* self, Storage* storage)
 			auto ref = storage_mgr_find_part(&self->storage_mgr, storage, part->id.min);
 			if (ref)
 			{
-				if (! part_has(ref, ID))
+				if (! part_has(ref, ID) && ! part_has(ref, ID_CLOUD))
 					error("partition '%" PRIu64"' has unexpected state: %d",
 					      ref->id.min, ref->state);
 
-				// parent still exists, remove incomplete partition
+				// parent still exists (it could be uploaded to the cloud
+				// after the failed move), remove incomplete partition
 				storage_remove(storage, part);
 				part_delete(part, ID_COMPLETE);
 				part_free(part);
-- 
2.43.0

