From cfe4ca10bd65103bd099e75eb3b59de25da491b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 01/55] fix: read the tail fragment of indexed files without
 overrunning the block index

When the position lies in the tail fragment of a file with an indexable
block list, the block number equals the number of blocks left and the
index was read one entry past its end.
---
 src/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index d680b5f..4a9ed99 100644
--- a/src/file.c
+++ b/src/file.c
@@ -282,7 +282,7 @@ sqfs_err sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl
 
 	sqfs_blocklist_init(fs, inode, bl);
 	block = (size_t)(start / fs->sb->block_size);
-	if (block > bl->remain) { /* fragment */
+	if (block >= bl->remain) { /* fragment */
 		bl->remain = 0;
 		ret = SQFS_OK;
 		goto exit;
-- 
2.43.0


From 0a96e2a9554f4c2ef41faa37425e26cb2b22adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 02/55] fix: reads at or past the end of file and reads of no
 bytes return 0

squash_read is documented to return zero upon end of file; it returned -1
when the position was past the end, or when no bytes were asked for.
---
 src/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 4a9ed99..b18a279 100644
--- a/src/file.c
+++ b/src/file.c
@@ -122,9 +122,9 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	file_size = inode->xtra.reg.file_size;
 	block_size = fs->sb->block_size;
 	
-	if (*size < 0 || start > file_size)
+	if (*size < 0 || start < 0)
 		return SQFS_ERR;
-	if (start == file_size) {
+	if (*size == 0 || start >= file_size) {
 		*size = 0;
 		return SQFS_OK;
 	}
-- 
2.43.0


From be8f23c1abe86969eb7301e21adcd2a1f6731fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:44 +0000
Subject: [PATCH 03/55] fix: lseek accepts every valid position, honours
 SEEK_END and refuses bad origins

---
 src/fd.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index e564c8a..d0b83ab 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -180,6 +180,8 @@ failure:
 off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
+	uint64_t pos;
+
 	if (!SQUASH_VALID_VFD(vfd))
 	{
 		errno = EBADF;
@@ -188,17 +190,28 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 	file = squash_global_fdtable.fds[vfd];
 	if (SQUASH_SEEK_SET == whence)
 	{
-		file->pos = offset;
+		pos = 0;
 	}
 	else if (SQUASH_SEEK_CUR == whence)
 	{
-		file->pos += offset;
+		pos = file->pos;
 	}
 	else if (SQUASH_SEEK_END == whence)
 	{
-		assert(S_ISREG(file->node.base.mode));
-		file->pos = file->node.xtra.reg.file_size;
+		pos = file->st.st_size;
+	}
+	else
+	{
+		errno = EINVAL;
+		return -1;
+	}
+	pos += (uint64_t)offset;
+	if ((int64_t)pos < 0)
+	{
+		errno = EINVAL;
+		return -1;
 	}
+	file->pos = pos;
 	return file->pos;
 }
 
-- 
2.43.0


From 56576e0e8f6edc662539639f47d2b44ad676cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 04/55] fix: a failing read reports its own reason, not a stale
 errno

---
 src/fd.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index d0b83ab..33a41c0 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -163,17 +163,25 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 	}
 	file = squash_global_fdtable.fds[vfd];
 
+	if (S_ISDIR(file->st.st_mode))
+	{
+		errno = EISDIR;
+		goto failure;
+	}
+	if (!S_ISREG(file->st.st_mode) || nbyte < 0)
+	{
+		errno = EINVAL;
+		goto failure;
+	}
 	error = sqfs_read_range(file->fs, &file->node, file->pos, &nbyte, buf);
 	if (SQFS_OK != error)
 	{
+		errno = EIO;
 		goto failure;
 	}
 	file->pos += nbyte;
 	return nbyte;
 failure:
-	if (!errno) {
-		errno = EBADF;
-	}
 	return -1;
 }
 
-- 
2.43.0


From f69fa4011432d7fee97d3e0461208d87f1da8c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 05/55] fix: reading a link never writes to a buffer of size 0

---
 src/fs.c       | 2 ++
 src/readlink.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index d51ea26..b3db91a 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -287,6 +287,8 @@ sqfs_err sqfs_readlink(sqfs *fs, sqfs_inode *inode, char *buf, size_t *size) {
 		return SQFS_OK;
 	}
 
+	if (*size == 0)
+		return SQFS_ERR; /* no room for the terminator */
 	if (want > *size - 1)
 		want = *size - 1;
 	cur = inode->next;
diff --git a/src/readlink.c b/src/readlink.c
index c468b4d..076f2a3 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -20,7 +20,7 @@ ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufs
 
         want = node->xtra.symlink_size;
 
-        if (want > bufsize - 1) {
+        if (want >= bufsize) {
                 errno = ENAMETOOLONG;
                 return -1; //bufsize is too small
         }
-- 
2.43.0


From 1ab40a3fe38f27b901c3c7afbdc3f9e27dbac15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 06/55] fix: do not cache blocks that could not be read

---
 src/fs.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fs.c b/src/fs.c
index b3db91a..f75cd23 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -183,11 +183,16 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
 	if (!entry) {
-		entry = sqfs_cache_add(&fs->md_cache, *pos);
-		ret = sqfs_md_block_read(fs, *pos, &entry->data_size, &entry->block);
+		/* cache the block only once it could be read */
+		size_t data_size;
+		sqfs_block *fresh;
+		ret = sqfs_md_block_read(fs, *pos, &data_size, &fresh);
 		if (ret) {
 			goto exit;
 		}
+		entry = sqfs_cache_add(&fs->md_cache, *pos);
+		entry->data_size = data_size;
+		entry->block = fresh;
 	}
 	*block = entry->block;
 	*pos += entry->data_size;
@@ -205,11 +210,14 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 
 	entry = sqfs_cache_get(cache, pos);
 	if (!entry) {
-		entry = sqfs_cache_add(cache, pos);
-		ret = sqfs_data_block_read(fs, pos, hdr, &entry->block);
+		/* cache the block only once it could be read */
+		sqfs_block *fresh;
+		ret = sqfs_data_block_read(fs, pos, hdr, &fresh);
 		if (ret) {
 			goto exit;
 		}
+		entry = sqfs_cache_add(cache, pos);
+		entry->block = fresh;
 	}
 	*block = entry->block;
 	ret = SQFS_OK;
-- 
2.43.0


From b5dba63da05e20478de3bde620859451b4c24a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:55 +0000
Subject: [PATCH 07/55] fix: keep a cached block alive while another thread is
 reading from it

---
 include/squash/common.h |  1 +
 include/squash/fs.h     |  3 ++-
 src/file.c              |  3 ++-
 src/fs.c                | 22 ++++++++++++++++++----
 src/table.c             |  2 +-
 5 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/squash/common.h b/include/squash/common.h
index 91154e8..fe95f1e 100644
--- a/include/squash/common.h
+++ b/include/squash/common.h
@@ -70,6 +70,7 @@ typedef struct {
 	size_t size;
 	void *data;
 	short data_need_freeing;
+	int refs; /* the cache's reference and those of current users */
 } sqfs_block;
 
 typedef struct {
diff --git a/include/squash/fs.h b/include/squash/fs.h
index 9c3c699..64a8c86 100644
--- a/include/squash/fs.h
+++ b/include/squash/fs.h
@@ -97,13 +97,14 @@ void sqfs_data_header(uint32_t hdr, short *compressed, uint32_t *size);
 sqfs_err sqfs_block_read(sqfs *fs, sqfs_off_t pos, short compressed, uint32_t size,
 	size_t outsize, sqfs_block **block);
 void sqfs_block_dispose(sqfs_block *block);
+void sqfs_block_release(sqfs_cache *cache, sqfs_block *block);
 
 sqfs_err sqfs_md_block_read(sqfs *fs, sqfs_off_t pos, size_t *data_size,
 	sqfs_block **block);
 sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 	sqfs_block **block);
 
-/* Don't dispose after getting block, it's in the cache */
+/* Release the block after use with sqfs_block_release(), it's in the cache */
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block);
 sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 	uint32_t hdr, sqfs_block **block);
diff --git a/src/file.c b/src/file.c
index b18a279..e335e51 100644
--- a/src/file.c
+++ b/src/file.c
@@ -172,7 +172,8 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 			take = (size_t)(*size);
 		if (block) {
 			memcpy(buf, (char*)block->data + data_off + read_off, take);
-			/* BLOCK CACHED, DON'T DISPOSE */
+			sqfs_block_release(fragment ? &fs->frag_cache : &fs->data_cache,
+				block);
 		} else {
 			memset(buf, 0, take);
 		}
diff --git a/src/fs.c b/src/fs.c
index f75cd23..50393de 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -120,6 +120,7 @@ sqfs_err sqfs_block_read(sqfs *fs, sqfs_off_t pos, short compressed,
 	
 	(*block)->data = (void *)((fs->fd) + (pos + fs->offset));
 	(*block)->data_need_freeing = 0;
+	(*block)->refs = 1;
 
 	if (compressed) {
 		char *decomp = malloc(outsize);
@@ -195,6 +196,7 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 		entry->block = fresh;
 	}
 	*block = entry->block;
+	++(*block)->refs;
 	*pos += entry->data_size;
 	ret = SQFS_OK;
 exit:
@@ -220,19 +222,30 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 		entry->block = fresh;
 	}
 	*block = entry->block;
+	++(*block)->refs;
 	ret = SQFS_OK;
 exit:
 	MUTEX_UNLOCK(&cache->mutex);
 	return ret;
 }
 
+/* Drop one reference. A block in a cache is protected by the cache's mutex. */
 void sqfs_block_dispose(sqfs_block *block) {
+	if (--block->refs > 0)
+		return;
 	if (block->data_need_freeing) {
 		free(block->data);
 	}
 	free(block);
 }
 
+/* Drop the reference got from sqfs_md_cache() or sqfs_data_cache() */
+void sqfs_block_release(sqfs_cache *cache, sqfs_block *block) {
+	MUTEX_LOCK(&cache->mutex);
+	sqfs_block_dispose(block);
+	MUTEX_UNLOCK(&cache->mutex);
+}
+
 void sqfs_md_cursor_inode(sqfs_md_cursor *cur, sqfs_inode_id id, sqfs_off_t base) {
 	cur->block = (id >> 16) + base;
 	cur->offset = id & 0xffff;
@@ -242,23 +255,24 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 	sqfs_off_t pos = cur->block;
 	while (size > 0) {
 		sqfs_block *block;
-		size_t take;
+		size_t take, block_size;
 		sqfs_err err = sqfs_md_cache(fs, &pos, &block);
 		if (err)
 			return err;
 		
-		take = block->size - cur->offset;
+		block_size = block->size;
+		take = block_size - cur->offset;
 		if (take > size)
 			take = size;
 		if (buf)
 			memcpy(buf, (char*)block->data + cur->offset, take);
-		/* BLOCK CACHED, DON'T DISPOSE */
+		sqfs_block_release(&fs->md_cache, block);
 		
 		if (buf)
 			buf = (char*)buf + take;
 		size -= take;
 		cur->offset += take;
-		if (cur->offset == block->size) {
+		if (cur->offset == block_size) {
 			cur->block = pos;
 			cur->offset = 0;
 		}
diff --git a/src/table.c b/src/table.c
index e4fbd5c..e999b0b 100644
--- a/src/table.c
+++ b/src/table.c
@@ -61,6 +61,6 @@ sqfs_err sqfs_table_get(sqfs_table *table, sqfs *fs, size_t idx, void *buf) {
 		return SQFS_ERR;
 	
 	memcpy(buf, (char*)(block->data) + off, table->each);
-	/* BLOCK CACHED, DON'T DISPOSE */
+	sqfs_block_release(&fs->md_cache, block);
 	return SQFS_OK;
 }
-- 
2.43.0


From b7ee80d2be9fe82f0c9320f1a4473b468433e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 08/55] fix: no double free when a cache cannot be allocated

---
 src/cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache.c b/src/cache.c
index 5a999cc..b71e0d6 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -42,7 +42,7 @@ sqfs_err sqfs_cache_init(sqfs_cache *cache, size_t size, size_t count,
 	if (cache->idxs && cache->buf)
 		return SQFS_OK;
 	
-	sqfs_cache_destroy(cache);
+	/* the caller destroys the cache */
 	return SQFS_ERR;
 }
 
-- 
2.43.0


From 9a708f86afa6b8da94d01341834b17dd23662779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 09/55] fix: a directory position is not lost when reading an
 entry fails

---
 src/dir.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index e9842af..bcd7326 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -125,6 +125,7 @@ short sqfs_dentry_is_dir(sqfs_dir_entry *entry) {
 short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 		sqfs_err *err) {
 	struct squashfs_dir_entry e;
+	sqfs_dir start = *dir; /* to stay at the same entry after an error */
 	
 	*err = SQFS_OK;
 	entry->offset = dir->offset;
@@ -134,12 +135,12 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 			return 0;
 		
 		if ((*err = sqfs_dir_md_read(fs, dir, &dir->header, sizeof(dir->header))))
-			return 0;
+			goto error;
 		++(dir->header.count); /* biased by one */
 	}
 	
 	if ((*err = sqfs_dir_md_read(fs, dir, &e, sizeof(e))))
-		return 0;
+		goto error;
 	--(dir->header.count);
 	
 	entry->type = e.type;
@@ -150,11 +151,15 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 	
 	*err = sqfs_dir_md_read(fs, dir, entry->name, sqfs_dentry_name_size(entry));
 	if (*err)
-		return 0;
+		goto error;
 	
 	entry->next_offset = dir->offset;
 
 	return 1;
+
+error:
+	*dir = start;
+	return 0;
 }
 
 
-- 
2.43.0


From ed8b49433032cf4134b5c48fcd076ed939f8b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:23 +0000
Subject: [PATCH 10/55] fix: an unsupported compression is refused with
 SQFS_BADCOMP instead of aborting

---
 src/decompress.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress.c b/src/decompress.c
index aa85602..8f712d8 100644
--- a/src/decompress.c
+++ b/src/decompress.c
@@ -26,7 +26,6 @@
 #include "squash/squashfs_fs.h"
 
 #include <zlib.h>
-#include <assert.h>
 
 static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 		void *out, size_t *outsz) {
@@ -39,6 +38,7 @@ static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 }
 
 sqfs_decompressor sqfs_decompressor_get(sqfs_compression_type type) {
-	assert(ZLIB_COMPRESSION == type);
+	if (ZLIB_COMPRESSION != type)
+		return NULL; /* unsupported */
 	return &sqfs_decompressor_zlib;
 }
-- 
2.43.0


From 580b4f5e6bf73b44664190373331338fd66bc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:23 +0000
Subject: [PATCH 11/55] fix: inode numbers and id indexes outside their table
 are refused

---
 src/fs.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index 50393de..77cccc0 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -289,7 +289,11 @@ size_t sqfs_divceil(uint64_t total, size_t group) {
 
 sqfs_err sqfs_id_get(sqfs *fs, uint16_t idx, sqfs_id_t *id) {
 	uint32_t rid;
-	sqfs_err err = sqfs_table_get(&fs->id_table, fs, idx, &rid);
+	sqfs_err err;
+
+	if (idx >= fs->sb->no_ids)
+		return SQFS_ERR;
+	err = sqfs_table_get(&fs->id_table, fs, idx, &rid);
 	if (err)
 		return err;
 	*id = (sqfs_id_t)rid;
@@ -329,6 +333,8 @@ sqfs_err sqfs_export_inode(sqfs *fs, sqfs_inode_num n, sqfs_inode_id *i) {
 	
 	if (!sqfs_export_ok(fs))
 		return SQFS_UNSUP;
+	if (n == 0 || n > fs->sb->inodes)
+		return SQFS_ERR;
 	
 	err = sqfs_table_get(&fs->export_table, fs, n - 1, &r);
 	if (err)
-- 
2.43.0


From 42f70224e3100b616c743d8fdbaea732aeeaa968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 12/55] fix: an initialised stack is empty, so that it can be
 destroyed

---
 src/stack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stack.c b/src/stack.c
index fe748c3..2e76e27 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -80,7 +80,9 @@ sqfs_err sqfs_stack_create(sqfs_stack *s, size_t vsize, size_t initial,
 
 void sqfs_stack_init(sqfs_stack *s) {
 	s->items = NULL;
-	s->capacity = 0;
+	s->capacity = s->size = 0;
+	s->value_size = 0;
+	s->freer = NULL;
 }
 
 void sqfs_stack_destroy(sqfs_stack *s) {
-- 
2.43.0


From 1bbbfd2f7185138c42533f84f9cfedc4c273ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 13/55] fix: a growing hash table keeps its values, and which
 of them is the newest

---
 src/hash.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 2996a24..46e06f7 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -27,7 +27,7 @@
 #include <stdlib.h>
 #include <string.h>
 
-static sqfs_err sqfs_hash_add_internal(sqfs_hash *h, int doubling,
+static sqfs_err sqfs_hash_add_internal(sqfs_hash *h,
 		sqfs_hash_key k, sqfs_hash_value v) {
 	size_t hash = (k & (h->capacity - 1));	
 	sqfs_hash_bucket *b = malloc(sizeof(sqfs_hash_bucket) + h->value_size);
@@ -43,28 +43,31 @@ static sqfs_err sqfs_hash_add_internal(sqfs_hash *h, int doubling,
 }
 
 static sqfs_err sqfs_hash_double(sqfs_hash *h) {
-	sqfs_hash_bucket **ob = h->buckets;
-	size_t oc = h->capacity;
+	sqfs_hash nh;
 	size_t i;
 	sqfs_err err;
 	
-	if ((err = sqfs_hash_init(h, h->value_size, oc * 2)))
+	if ((err = sqfs_hash_init(&nh, h->value_size, h->capacity * 2)))
 		return err;
 	
-	for (i = 0; i < oc; ++i) {
-		sqfs_hash_bucket *b = ob[i];
+	/* Move the buckets, keeping the order of duplicates */
+	for (i = 0; i < h->capacity; ++i) {
+		sqfs_hash_bucket *b = h->buckets[i];
 		while (b) {
-			sqfs_hash_bucket *n;
-			if (!err)
-				err = sqfs_hash_add_internal(h, 1, b->key, &b->value);
-			n = b->next;
-			free(b);
+			sqfs_hash_bucket *n = b->next;
+			sqfs_hash_bucket **bp = &nh.buckets[b->key & (nh.capacity - 1)];
+			while (*bp)
+				bp = &(*bp)->next;
+			b->next = NULL;
+			*bp = b;
 			b = n;
 		}
 	}
 	
-	free(ob);
-	return err;
+	free(h->buckets);
+	nh.size = h->size;
+	*h = nh;
+	return SQFS_OK;
 }
 
 sqfs_err sqfs_hash_init(sqfs_hash *h, size_t vsize, size_t initial) {
@@ -111,7 +114,7 @@ sqfs_err sqfs_hash_add(sqfs_hash *h, sqfs_hash_key k, sqfs_hash_value v) {
 		if (err)
 			return err;
 	}
-	return sqfs_hash_add_internal(h, 0, k, v);
+	return sqfs_hash_add_internal(h, k, v);
 }
 
 sqfs_err sqfs_hash_remove(sqfs_hash *h, sqfs_hash_key k) {
-- 
2.43.0


From 4a74237f1c6db9252bdb9fdccd744b0769896c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 14/55] fix: a hash table may start with a capacity of 0

---
 src/hash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index 46e06f7..8a31440 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -74,6 +74,8 @@ sqfs_err sqfs_hash_init(sqfs_hash *h, size_t vsize, size_t initial) {
 	memset(h, 0, sizeof(*h));
 	if ((initial & (initial - 1))) /* not power of two? */
 		return SQFS_ERR;
+	if (initial == 0)
+		initial = 1;
 	
 	h->buckets = calloc(initial, sizeof(sqfs_hash_bucket*));
 	if (!h->buckets)
-- 
2.43.0


From d299429d7230b737f3ecfaf7b8d3320c1733c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 15/55] fix: resolve dot-dot by path components, also in
 relative paths and next to dots and repeated slashes

---
 src/dir.c | 68 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index bcd7326..248fe04 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -280,39 +280,47 @@ sqfs_err sqfs_dir_lookup(sqfs *fs, sqfs_inode *inode,
 	return err;
 }
 
+/* Resolve the dot-dot components of a path like /a/b/../../c/d in place.
+   Fails if they lead above the start of the path. */
 static sqfs_err clear_dot_dot(char *path)
 {
-	char *dot_dot, *dot_dot_left;
-	
-	// we might get a path like /a/b/../../c/d
-	// in which case we need to interpret dot-dot's
-	while ((dot_dot = strstr(path, "/../"))) {
-		dot_dot_left = dot_dot - 1;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
-		memmove(dot_dot_left, dot_dot + 3, strlen(dot_dot + 3) + 1);
-	}
-	// what about /a/b/c/d/..
-	if (strlen(path) >= 3 && 0 == strcmp(path + strlen(path) - 3, "/..")) {
-		dot_dot_left = path + strlen(path) - 4;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
-		*dot_dot_left = '\0';
+	char *in = path, *out = path;
+	short absolute = ('/' == *path);
+
+	while (1) {
+		const char *name;
+		size_t size;
+
+		while ('/' == *in)
+			++in;
+		if (!*in)
+			break;
+		name = in;
+		while (*in && '/' != *in)
+			++in;
+		size = in - name;
+
+		if (2 == size && '.' == name[0] && '.' == name[1]) {
+			/* drop the last component kept, and the dots after it */
+			short dot;
+			do {
+				char *end = out;
+				if (out == path)
+					return SQFS_ERR;
+				while (out > path && '/' != out[-1])
+					--out;
+				dot = (1 == end - out && '.' == *out);
+				if (out > path)
+					--out;
+			} while (dot);
+			continue;
+		}
+		if (out > path || absolute)
+			*out++ = '/';
+		memmove(out, name, size);
+		out += size;
 	}
+	*out = '\0';
 	return SQFS_OK;
 }
 
-- 
2.43.0


From 0f11226dab65d37b4f43a8181bd1e81125466210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 16/55] fix: follow links from the directory that contains
 them, iteratively and at most 32 in a row

---
 src/dir.c | 171 ++++++++++++++++++++++++++----------------------------
 1 file changed, 82 insertions(+), 89 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index 248fe04..dc5e8cf 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -324,82 +324,51 @@ static sqfs_err clear_dot_dot(char *path)
 	return SQFS_OK;
 }
 
+/* Follow the link at the given path, which starts at the root */
 sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
-
 	sqfs_err error;
 	short found;
-	char base_path[SQUASHFS_PATH_LEN];
-	char new_path[SQUASHFS_PATH_LEN];
-	int inode_num;
 
-	if(strlen(path) > SQUASHFS_PATH_LEN){
-		errno = ENAMETOOLONG;
+	error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
+	if (SQFS_OK != error) {
+		return error;
+	}
+	error = sqfs_lookup_path_inner(fs, node, path, &found, 1);
+	if (SQFS_OK != error) {
+		return error;
+	}
+	if (!found) {
+		errno = ENOENT;
 		return SQFS_ERR;
 	}
+	return SQFS_OK;
+}
 
-	strncpy(base_path, path, SQUASHFS_PATH_LEN);
-	inode_num = 0;
-	do {
-		char buf_link[SQUASHFS_PATH_LEN]; // is enough for path?
-		ssize_t link_length = squash_readlink_inode(fs, node, buf_link, sizeof(buf_link));
-		if (link_length > 0) {
-			if (buf_link[0] == '/') { // is Absolute Path
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, buf_link, &found);
-				strncpy(new_path, buf_link, SQUASHFS_PATH_LEN);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			} else { // is Relative Path
-				size_t pos = strlen(base_path) - 1;
-				// find the last /  "/a/b/cb"
-				while (base_path[pos--] != '/') { }
-
-				memcpy(new_path, base_path, pos + 2);
-				memcpy(new_path + pos + 2, buf_link, link_length);
-				new_path[pos + 2 + link_length] = '\0';
-				
-				error = clear_dot_dot(new_path);
-				if (SQFS_OK != error) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-				
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, new_path, &found);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			}
-
-			inode_num++;
-			if (inode_num > SQUASHFS_MAX_LINK_LEVEL) {
-				errno = ELOOP;
-				return SQFS_ERR;
-			}
-			strncpy(base_path, new_path, SQUASHFS_PATH_LEN);
-
-		} else {
-			return SQFS_ERR;
-		}
-
-
-	} while (S_ISLNK(node->base.mode));
-
+/* Replace the link that ends a path by its target.
+   'prefix_len' bytes of 'path' lead to the directory that contains the link,
+   'rest' follows the link in 'path'. Yields a new path to free, which starts
+   at the root if it is absolute, and where 'path' starts otherwise. */
+static sqfs_err sqfs_expand_link(sqfs *fs, sqfs_inode *link, const char *path,
+		size_t prefix_len, const char *rest, char **expanded, short *absolute) {
+	char target[SQUASHFS_PATH_LEN]; // is enough for path?
+	ssize_t len;
+
+	len = squash_readlink_inode(fs, link, target, sizeof(target));
+	if (len < 0) {
+		return SQFS_ERR;
+	}
+	*absolute = ('/' == target[0]);
+	if (*absolute) {
+		prefix_len = 0;
+	}
+	*expanded = malloc(prefix_len + len + strlen(rest) + 1);
+	if (NULL == *expanded) {
+		errno = ENOMEM;
+		return SQFS_ERR;
+	}
+	memcpy(*expanded, path, prefix_len);
+	memcpy(*expanded + prefix_len, target, len);
+	strcpy(*expanded + prefix_len + len, rest);
 	return SQFS_OK;
 }
 
@@ -407,10 +376,11 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 		short *found, short follow_link) {
 	sqfs_err err, ret;
 	sqfs_name buf;
-	sqfs_path path_here;
 	sqfs_dir_entry entry;
-	char *path, *path0;
-	short is_last_component;
+	sqfs_inode start;
+	char *path, *path0, *end;
+	size_t own; /* how much of the incoming path is left at the end of path */
+	int level;
 	memset(&buf, 0, sizeof(sqfs_name));
 	memset(&entry, 0, sizeof(sqfs_dir_entry));
 
@@ -428,6 +398,10 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 		ret = SQFS_OK; /* not found */
 		goto exit;
 	}
+	start = *inode;
+	end = path + strlen(path);
+	own = end - path;
+	level = 0;
 	
 	while (*path) {
 		const char *name;
@@ -445,6 +419,10 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 			/* we're done */
 			break;
 		}
+		if (end - name <= own) {
+			/* not from a link */
+			level = 0;
+		}
 		if (1 == size && '.' == *name) {
 			/* interpret dot */
 			continue;
@@ -461,29 +439,44 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 			ret = err;
 			goto exit;
 		}
-		if (!*path) {
-			is_last_component = 1;
-		} else if (path0 + strlen(path0) - 1 == path) {
-			assert('/' == *path);
-			is_last_component = 1;
-		} else {
-			is_last_component = 0;
-		}
 
-		if (S_ISLNK(inode->base.mode)) {
-			if (!(is_last_component && !follow_link)) {
-				size_t size_here = path - path0;
-				if (size_here > SQUASHFS_PATH_LEN) {
-					size_here = SQUASHFS_PATH_LEN;
-				}
-				memcpy(path_here, path0, size_here);
-				path_here[size_here] = '\0';
-				err = squash_follow_link(fs, path_here, inode);
+		/* Follow links, but not one at the end if told so */
+		if (S_ISLNK(inode->base.mode) && (*path || follow_link)) {
+			char *expanded;
+			short absolute;
+
+			if (++level > SQUASHFS_MAX_LINK_LEVEL) {
+				errno = ELOOP;
+				ret = SQFS_ERR;
+				goto exit;
+			}
+			err = sqfs_expand_link(fs, inode, path0, name - path0, path,
+				&expanded, &absolute);
+			if (SQFS_OK != err) {
+				ret = err;
+				goto exit;
+			}
+			if (own > end - path) {
+				own = end - path;
+			}
+			free(path0);
+			path0 = path = expanded;
+
+			err = clear_dot_dot(path);
+			if (SQFS_OK != err) {
+				*found = 0;
+				ret = SQFS_OK; /* not found */
+				goto exit;
+			}
+			end = path + strlen(path);
+			if (absolute) {
+				err = sqfs_inode_get(fs, &start, sqfs_inode_root(fs));
 				if (SQFS_OK != err) {
 					ret = err;
 					goto exit;
 				}
 			}
+			*inode = start;
 		}
 	}
 	
-- 
2.43.0


From ab4526b9a81ea8ac9575d08d07592844a39a4b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 17/55] fix: a failing open releases everything, and keeps the
 descriptor table usable

---
 src/fd.c | 49 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index 33a41c0..cb69369 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -16,10 +16,11 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 {
 	sqfs_err error;
 	struct squash_file *file = calloc(1, sizeof(struct squash_file));
+	struct squash_file **fds;
 	short found;
-	int fd;
+	int fd = -1;
 	size_t nr;
-	int *handle;
+	int *handle = NULL;
 
 	// try locating the file and fetching its stat
 	if (NULL == file)
@@ -37,13 +38,17 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	{
 		goto failure;
 	}
-	file->filename = strdup(path);
-
 	if (!found)
 	{
 		errno = ENOENT;
 		goto failure;
 	}
+	file->filename = strdup(path);
+	if (NULL == file->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	error = sqfs_stat(fs, &file->node, &file->st);
 	if (SQFS_OK != error)
 	{
@@ -52,11 +57,21 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	file->fs = fs;
 	file->pos = 0;
 
+	// construct a handle (mainly) for win32
+	handle = (int *)malloc(sizeof(int));
+	if (NULL == handle) {
+		errno = ENOMEM;
+		goto failure;
+	}
+
 	// get a dummy fd from the system
 	fd = dup(0);
 	if (-1 == fd) {
 		goto failure;
 	}
+	*handle = fd;
+	file->payload = (void *)handle;
+
 	// make sure that our global fd table is large enough
 	nr = fd + 1;
 
@@ -66,29 +81,22 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		squash_global_fdtable.fds = realloc(squash_global_fdtable.fds,
-						    nr * sizeof(struct squash_file *));
-		if (NULL == squash_global_fdtable.fds)
+		fds = realloc(squash_global_fdtable.fds,
+			      nr * sizeof(struct squash_file *));
+		if (NULL == fds)
 		{
+			MUTEX_UNLOCK(&squash_global_mutex);
 			errno = ENOMEM;
 			goto failure;
 		}
-		memset(squash_global_fdtable.fds + squash_global_fdtable.nr,
+		memset(fds + squash_global_fdtable.nr,
 		       0,
 		       (nr - squash_global_fdtable.nr) * sizeof(struct squash_file *));
+		squash_global_fdtable.fds = fds;
 		squash_global_fdtable.nr = nr;
 	}
 	MUTEX_UNLOCK(&squash_global_mutex);
 
-	// construct a handle (mainly) for win32
-	handle = (int *)malloc(sizeof(int));
-	if (NULL == handle) {
-		errno = ENOMEM;
-		goto failure;
-	}
-	*handle = fd;
-	file->payload = (void *)handle;
-
 	// insert the fd into the global fd table
 	file->fd = fd;
 	MUTEX_LOCK(&squash_global_mutex);
@@ -103,6 +111,13 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	if (-1 != fd) {
+		int saved_errno = errno;
+		close(fd);
+		errno = saved_errno;
+	}
+	free(handle);
+	free(file->filename);
 	free(file);
 	return -1;
 }
-- 
2.43.0


From 9c7d3a2bc8138e7e2ff513eb90a2482550214dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:23 +0000
Subject: [PATCH 18/55] fix: look up and close virtual descriptors under the
 table's lock

---
 include/squash.h |  6 ++++--
 src/fd.c         | 27 +++++++++++++++++++++------
 src/stat.c       |  5 +++--
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/squash.h b/include/squash.h
index 2794c27..7a7a0c0 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -49,8 +49,8 @@
 #define SQUASH_SEEK_CUR 1 /* set file offset to current plus offset */
 #define SQUASH_SEEK_END 2 /* set file offset to EOF plus offset */
 
-#define SQUASH_VALID_VFD(vfd) ((vfd) < squash_global_fdtable.nr && NULL != squash_global_fdtable.fds[(vfd)])
-#define SQUASH_VFD_FILE(vfd) (squash_global_fdtable.fds[(vfd)])
+#define SQUASH_VALID_VFD(vfd) (NULL != squash_vfd_file(vfd))
+#define SQUASH_VFD_FILE(vfd) (squash_vfd_file(vfd))
 
 extern sqfs_err squash_errno;
 
@@ -58,6 +58,8 @@ sqfs_err squash_start();
 ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufsize);
 sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node);
 struct squash_file * squash_find_entry(void *ptr);
+/* The open file of a vfd, or NULL if the number is not an open vfd */
+struct squash_file * squash_vfd_file(int vfd);
 
 /*
  * Obtains information about the file pointed to by path of a SquashFS fs.
diff --git a/src/fd.c b/src/fd.c
index cb69369..222ea7b 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -127,20 +127,35 @@ int squash_open(sqfs *fs, const char *path)
         return squash_open_inner(fs, path, 1);
 }
 
+struct squash_file * squash_vfd_file(int vfd)
+{
+	struct squash_file *file = NULL;
+	MUTEX_LOCK(&squash_global_mutex);
+	if (vfd >= 0 && (size_t)vfd < squash_global_fdtable.nr) {
+		file = squash_global_fdtable.fds[vfd];
+	}
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return file;
+}
+
 int squash_close(int vfd)
 {
 	int ret;
 	struct squash_file *file;
 
-        if (!SQUASH_VALID_VFD(vfd)) {
+        // the number must not be issued again before it is out of the table
+        MUTEX_LOCK(&squash_global_mutex);
+        if (vfd < 0 || (size_t)vfd >= squash_global_fdtable.nr ||
+            NULL == squash_global_fdtable.fds[vfd]) {
+                MUTEX_UNLOCK(&squash_global_mutex);
                 errno = EBADF;
                 return -1;
         }
         ret = close(vfd);
 	if (-1 == ret) {
+		MUTEX_UNLOCK(&squash_global_mutex);
 		return -1;
 	}
-        MUTEX_LOCK(&squash_global_mutex);
         if (S_ISDIR(squash_global_fdtable.fds[vfd]->st.st_mode)) {
                 SQUASH_DIR *dir = (SQUASH_DIR *) (squash_global_fdtable.fds[vfd]->payload);
                 free(dir);
@@ -171,12 +186,12 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 	sqfs_err error;
 	struct squash_file *file;
 
-	if (!SQUASH_VALID_VFD(vfd))
+	file = squash_vfd_file(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		goto failure;
 	}
-	file = squash_global_fdtable.fds[vfd];
 
 	if (S_ISDIR(file->st.st_mode))
 	{
@@ -205,12 +220,12 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 	struct squash_file *file;
 	uint64_t pos;
 
-	if (!SQUASH_VALID_VFD(vfd))
+	file = squash_vfd_file(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		return -1;
 	}
-	file = squash_global_fdtable.fds[vfd];
 	if (SQUASH_SEEK_SET == whence)
 	{
 		pos = 0;
diff --git a/src/stat.c b/src/stat.c
index 121f575..9426d8e 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -72,11 +72,12 @@ failure:
 
 int squash_fstat(int vfd, struct stat *buf)
 {
-	if (!SQUASH_VALID_VFD(vfd))
+	struct squash_file *file = squash_vfd_file(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		return -1;
 	}
-	*buf = SQUASH_VFD_FILE(vfd)->st;
+	*buf = file->st;
 	return 0;
 }
-- 
2.43.0


From 19ae84581d4aa673944c66894bee7892f07163ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 19/55] fix: a failing opendir releases everything and leaves
 no half-open descriptor

---
 src/dirent.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index a379069..4feb0fc 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -26,19 +26,18 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	dir->fs = fs;
 	dir->entries = NULL;
 	dir->nr = 0;
+	dir->fd = -1;
 	dir->filename = strdup(filename);
+	if (NULL == dir->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	dir->fd = squash_open(fs, filename);
 	if (-1 == dir->fd)
 	{
 		goto failure;
 	}
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
-
-	MUTEX_LOCK(&squash_global_mutex);
-	free(handle);
-	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
-	MUTEX_UNLOCK(&squash_global_mutex);
-
 	dir->actual_nr = 0;
 	dir->loc = 0;
 	error = sqfs_inode_get(fs, &dir->node, sqfs_inode_root(fs));
@@ -59,13 +58,26 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	error = sqfs_dir_open(fs, &dir->node, &dir->dir, 0);
 	if (SQFS_OK != error)
 	{
+		errno = ENOTDIR;
 		goto failure;
 	}
+
+	MUTEX_LOCK(&squash_global_mutex);
+	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
+	free(handle);
+	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
+	MUTEX_UNLOCK(&squash_global_mutex);
 	return dir;
 failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	if (-1 != dir->fd) {
+		int saved_errno = errno;
+		squash_close(dir->fd);
+		errno = saved_errno;
+	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From 5fe24d7ecd431331c56341edd0b9829bfffff795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 20/55] fix: a failing call sets errno to its own reason,
 whatever errno was before

---
 src/dirent.c   |  7 ++++++-
 src/fd.c       |  6 +++++-
 src/readlink.c |  9 ++++++++-
 src/stat.c     | 10 +++++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index 4feb0fc..66004e4 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -17,12 +17,15 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	short found;
 	SQUASH_DIR *dir = calloc(1, sizeof(SQUASH_DIR));
 	int *handle;
+	int saved_errno = errno;
 	
 	if (NULL == dir)
 	{
 		errno = ENOMEM;
 		return NULL;
 	}
+	// so that a failure is not explained by an earlier one
+	errno = 0;
 	dir->fs = fs;
 	dir->entries = NULL;
 	dir->nr = 0;
@@ -67,13 +70,14 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	free(handle);
 	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
 	MUTEX_UNLOCK(&squash_global_mutex);
+	errno = saved_errno;
 	return dir;
 failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
 	if (-1 != dir->fd) {
-		int saved_errno = errno;
+		saved_errno = errno;
 		squash_close(dir->fd);
 		errno = saved_errno;
 	}
@@ -136,6 +140,7 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			&error);
 		if (SQFS_OK != error)
 		{
+			errno = EIO;
 			return NULL;
 		}
 		else if (!dirp->entries[dirp->actual_nr].not_eof)
diff --git a/src/fd.c b/src/fd.c
index 222ea7b..ebc1c66 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -21,7 +21,10 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	int fd = -1;
 	size_t nr;
 	int *handle = NULL;
+	int saved_errno = errno;
 
+	// so that a failure is not explained by an earlier one
+	errno = 0;
 	// try locating the file and fetching its stat
 	if (NULL == file)
 	{
@@ -105,6 +108,7 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
         	squash_global_fdtable.end = fd + 1;
         }
 	MUTEX_UNLOCK(&squash_global_mutex);
+	errno = saved_errno;
 	return fd;
 
 failure:
@@ -112,7 +116,7 @@ failure:
 		errno = ENOENT;
 	}
 	if (-1 != fd) {
-		int saved_errno = errno;
+		saved_errno = errno;
 		close(fd);
 		errno = saved_errno;
 	}
diff --git a/src/readlink.c b/src/readlink.c
index 076f2a3..8624b53 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -57,8 +57,11 @@ ssize_t squash_readlink(sqfs *fs, const char *path, char *buf, size_t bufsize) {
     sqfs_err error;
     sqfs_inode node;
     short found;
+    int saved_errno = errno;
 
     assert(buf && path && fs);
+    // so that a failure is not explained by an earlier one
+    errno = 0;
     memset(&node, 0, sizeof(sqfs_inode));
 
     found = 0;
@@ -71,7 +74,11 @@ ssize_t squash_readlink(sqfs *fs, const char *path, char *buf, size_t bufsize) {
     	goto failure;
 
     if (found) {
-        return squash_readlink_inode(fs, &node, buf, bufsize);
+        ssize_t ret = squash_readlink_inode(fs, &node, buf, bufsize);
+        if (-1 != ret) {
+            errno = saved_errno;
+        }
+        return ret;
     } else {
         errno = ENOENT;
 	goto failure;
diff --git a/src/stat.c b/src/stat.c
index 9426d8e..6128e04 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -13,7 +13,10 @@ int squash_stat(sqfs *fs, const char *path, struct stat *buf)
 	sqfs_err error;
 	sqfs_inode node;
 	short found;
-	
+	int saved_errno = errno;
+
+	// so that a failure is not explained by an earlier one
+	errno = 0;
 	error = sqfs_inode_get(fs, &node, sqfs_inode_root(fs));
 	if (SQFS_OK != error) {
 		goto failure;
@@ -31,6 +34,7 @@ int squash_stat(sqfs *fs, const char *path, struct stat *buf)
 		goto failure;
 	}
 
+	errno = saved_errno;
 	return 0;
 failure:
 	if (!errno) {
@@ -44,7 +48,10 @@ int squash_lstat(sqfs *fs, const char *path, struct stat *buf)
 	sqfs_err error;
 	sqfs_inode node;
 	short found;
+	int saved_errno = errno;
 
+	// so that a failure is not explained by an earlier one
+	errno = 0;
 	error = sqfs_inode_get(fs, &node, sqfs_inode_root(fs));
 	if (SQFS_OK != error) {
 		goto failure;
@@ -62,6 +69,7 @@ int squash_lstat(sqfs *fs, const char *path, struct stat *buf)
 		goto failure;
 	}
 
+	errno = saved_errno;
 	return 0;
 failure:
 	if (!errno) {
-- 
2.43.0


From c83db7a4f2889acbdb19226d5a14377ec2371bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:30 +0000
Subject: [PATCH 21/55] fix: a name of the maximum length leaves room for its
 terminator in the directory entry

---
 src/dirent.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index 66004e4..6f87935 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -157,8 +157,8 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			if (SQUASHFS_NAME_LEN < minsize) {
 				minsize = SQUASHFS_NAME_LEN;
 			}
-			if (sizeof(sysentry->d_name) < minsize) {
-				minsize = sizeof(sysentry->d_name);
+			if (sizeof(sysentry->d_name) - 1 < minsize) {
+				minsize = sizeof(sysentry->d_name) - 1;
 			}
 			memcpy(sysentry->d_name, dirp->entries[dirp->actual_nr].name, minsize);
 #ifndef __linux__
-- 
2.43.0


From 72a5a05c28e679c5e1001c47fc17a0fb9d771a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:30 +0000
Subject: [PATCH 22/55] fix: readdir keeps what it has read when memory runs
 out, and survives any position

---
 src/dirent.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index 6f87935..26d1478 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -115,22 +115,30 @@ int squash_closedir(SQUASH_DIR *dirp)
 struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 {
 	sqfs_err error;
-	size_t nr = dirp->loc + 1;
-	if (dirp->nr < nr) {
-		// we secretly extend the requested size
-		// in order to minimize the number of realloc calls
-		nr *= 10;
-		dirp->entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
-		if (NULL == dirp->entries)
-		{
-			errno = ENOMEM;
-			return NULL;
-		}
-		dirp->nr = nr;
-	}
+	size_t nr;
+	void *entries;
 
-	while (dirp->actual_nr < dirp->loc + 1)
+	if (dirp->loc < 0)
 	{
+		errno = EINVAL;
+		return NULL;
+	}
+	while (dirp->actual_nr <= dirp->loc)
+	{
+		nr = dirp->actual_nr + 1;
+		if (dirp->nr < nr) {
+			// we secretly extend the requested size
+			// in order to minimize the number of realloc calls
+			nr *= 10;
+			entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
+			if (NULL == entries)
+			{
+				errno = ENOMEM;
+				return NULL;
+			}
+			dirp->entries = entries;
+			dirp->nr = nr;
+		}
 		sqfs_dentry_init(&dirp->entries[dirp->actual_nr].entry,
 			dirp->entries[dirp->actual_nr].name);
 		dirp->entries[dirp->actual_nr].not_eof = sqfs_dir_next(
-- 
2.43.0


From 3163ed95e50a829cfe769194151e9beedcef46f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 23/55] fix: scandir returns every entry, an array even for
 none, and no partial result on failure

---
 src/scandir.c | 65 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/src/scandir.c b/src/scandir.c
index 1aa5504..15c1af5 100644
--- a/src/scandir.c
+++ b/src/scandir.c
@@ -17,50 +17,79 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 	int (*compar)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **))
 {
 	SQUASH_DIR * openeddir = 0;
-	size_t n = 0;
-	struct SQUASH_DIRENT **list = NULL;
+	size_t n = 0, nr = 0;
+	struct SQUASH_DIRENT **list = NULL, **grown;
 	struct SQUASH_DIRENT *ent = 0 ,*p = 0;
+	int saved_errno = errno;
 
 	if((dirname == NULL) || (namelist == NULL))
+	{
+		errno = EINVAL;
 		return -1;
+	}
 
 	openeddir = squash_opendir(fs, dirname);
 	if(openeddir == NULL)
 		return -1;
 
-
-	list = (struct SQUASH_DIRENT **)malloc(MAX_DIR_ENT*sizeof(struct SQUASH_DIRENT *));
-
-
-	while(( ent = squash_readdir(openeddir)) != NULL)
+	while(1)
 	{
+		//make room for one more entry, the array exists even without any
+		if(n >= nr)
+		{
+			nr += MAX_DIR_ENT;
+			grown = (struct SQUASH_DIRENT **)realloc((void *)list, nr*sizeof(struct SQUASH_DIRENT *));
+			if(grown == NULL)
+			{
+				errno = ENOMEM;
+				goto failure;
+			}
+			list = grown;
+		}
+
+		errno = 0;
+		ent = squash_readdir(openeddir);
+		if(ent == NULL)
+		{
+			if(errno)
+				goto failure;
+			break;
+		}
+		errno = saved_errno;
+
 		if( select && !select(ent))
 			continue;
 
 		p = (struct SQUASH_DIRENT *)malloc(sizeof(struct SQUASH_DIRENT));
+		if(p == NULL)
+		{
+			errno = ENOMEM;
+			goto failure;
+		}
 
 		memcpy((void *)p,(void *)ent,sizeof(struct SQUASH_DIRENT));
 		list[n] = p;
 
 		n++;
-		if(n >= MAX_DIR_ENT)
-			break;
-
 	}
+	errno = saved_errno;
 
 	//close the squash_dir
 	squash_closedir(openeddir);
 
-	//realloc the array
-	*namelist = realloc((void *)list,n*sizeof(struct SQUASH_DIRENT *));
-	if(*namelist == NULL)
-		*namelist = list;
-
-
 	//sort the array
 	if(compar)
-		qsort((void *)*namelist,n,sizeof(struct SQUASH_DIRENT *),(qsort_compar)compar);
+		qsort((void *)list,n,sizeof(struct SQUASH_DIRENT *),(qsort_compar)compar);
 
+	*namelist = list;
 	return n;
 
-}
\ No newline at end of file
+failure:
+	saved_errno = errno;
+	while(n > 0)
+		free(list[--n]);
+	free(list);
+	squash_closedir(openeddir);
+	errno = saved_errno;
+	return -1;
+}
-- 
2.43.0


From 502d50ff65af058522042c34fdb8f2b725d9d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 24/55] fix: any number of temporary names can be made within a
 second

---
 src/extract.c | 14 +++++++-------
 src/fd.c      |  3 +++
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 7a11fc7..793ca76 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -7,9 +7,11 @@
  */
 
 #include "squash.h"
-#include <time.h>
 #include <stdlib.h>
 
+/* how many names squash_tmpf() tries before it gives up */
+#define SQUASH_TMPF_TRIES 10000
+
 #ifdef _WIN32
 #include <Windows.h>
 #include <Shlwapi.h>
@@ -58,9 +60,8 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 	wchar_t squash_win32_buf[32767 + 1];
 	size_t curlen, size_ret;
 	int ret, try_cnt = 0;
-	srand(time(NULL) * getpid());
 	squash_win32_buf[squash_win32_buf_sz] = 0;
-	while (try_cnt < 3) {
+	while (try_cnt < SQUASH_TMPF_TRIES) {
 		squash_win32_buf[0] = 0;
 		assert(0 == wcslen(squash_win32_buf));
 		wcsncat(squash_win32_buf + wcslen(squash_win32_buf), tmpdir, squash_win32_buf_sz - wcslen(squash_win32_buf));
@@ -126,17 +127,16 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 	int ret, try_cnt = 0;
 	struct stat statbuf;
 
-	srand(time(NULL) * getpid());
-	while (try_cnt < 3) {
+	while (try_cnt < SQUASH_TMPF_TRIES) {
 		if (ext_name) {
 			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d.%s", tmpdir, rand(), ext_name);
 		} else {
 			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d", tmpdir, rand());
 		}
-		if (-1 == ret) {
+		if (ret < 0 || ret >= squash_buf_sz) {
 			return NULL;
 		}
-		if (-1 == stat(squash_buf, &statbuf)) {
+		if (-1 == lstat(squash_buf, &statbuf)) {
 			return strdup(squash_buf);
 		}
 		++try_cnt;
diff --git a/src/fd.c b/src/fd.c
index ebc1c66..932bd8a 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -8,6 +8,7 @@
 
 #include "squash.h"
 #include <stdlib.h>
+#include <time.h>
 
 struct squash_fdtable squash_global_fdtable;
 MUTEX squash_global_mutex;
@@ -272,6 +273,8 @@ sqfs_err squash_start()
 	squash_global_fdtable.nr = 0;
 	squash_global_fdtable.fds = NULL;
 	MUTEX_INIT(&squash_global_mutex);
+	// for the names of temporary files, once, so that they keep changing
+	srand(time(NULL) * getpid());
 	ret = atexit(squash_halt);
 	if (0 == ret) {
 		return SQFS_OK;
-- 
2.43.0


From d3abdd039d27b11fc01d1a25e034635283af66bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 25/55] fix: extraction never overwrites a file, releases
 everything, and leaves nothing behind when it fails

---
 src/extract.c | 97 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 78 insertions(+), 19 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 793ca76..36c197c 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -114,6 +114,9 @@ SQUASH_OS_PATH squash_tmpdir()
 	try_try = "/tmp";
 out:
 	try_try = strdup(try_try);
+	if (NULL == try_try) {
+		return NULL;
+	}
 	length = strlen(try_try);
 	if (length >= 2 && '/' == try_try[length - 1]) {
 		try_try[length - 1] = 0;
@@ -145,11 +148,59 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 }
 #endif // _WIN32
 
+/* Deletes an extracted file and its path */
+static void squash_extract_discard(SQUASH_OS_PATH path)
+{
+#ifdef _WIN32
+	DeleteFileW(path);
+#else
+	unlink(path);
+#endif
+	free((void *)path);
+}
+
+/* Creates a temporary file that did not exist before */
+static FILE *squash_extract_create(SQUASH_OS_PATH tmpdir, const char *ext_name, SQUASH_OS_PATH *tmpf)
+{
+	FILE *fp;
+#ifdef _WIN32
+	*tmpf = squash_tmpf(tmpdir, ext_name);
+	if (NULL == *tmpf) {
+		return NULL;
+	}
+	fp = _wfopen(*tmpf, L"wb");
+	if (NULL == fp) {
+		free((void *)*tmpf);
+	}
+	return fp;
+#else
+	int saved_errno, try_cnt;
+	for (try_cnt = 0; try_cnt < SQUASH_TMPF_TRIES; ++try_cnt) {
+		*tmpf = squash_tmpf(tmpdir, ext_name);
+		if (NULL == *tmpf) {
+			return NULL;
+		}
+		// somebody else might have just created it
+		fp = fopen(*tmpf, "wbx");
+		if (NULL != fp) {
+			return fp;
+		}
+		saved_errno = errno;
+		free((void *)*tmpf);
+		errno = saved_errno;
+		if (EEXIST != saved_errno) {
+			return NULL;
+		}
+	}
+	return NULL;
+#endif
+}
+
 static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	static SQUASH_OS_PATH tmpdir = NULL;
 	FILE *fp;
-	int fd;
+	int fd, saved_errno;
 	SQUASH_OS_PATH tmpf;
 	size_t size;
 	ssize_t ssize;
@@ -161,45 +212,53 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	if (-1 == fd) {
 		return NULL;
 	}
+	file = SQUASH_VFD_FILE(fd);
+	if (!S_ISREG(file->st.st_mode)) {
+		errno = S_ISDIR(file->st.st_mode) ? EISDIR : EINVAL;
+		goto failure;
+	}
 	if (NULL == tmpdir) {
 		tmpdir = squash_tmpdir();
 	}
 	if (NULL == tmpdir) {
-		return NULL;
-	}
-	tmpf = squash_tmpf(tmpdir, ext_name);
-	if (NULL == tmpf) {
-		return NULL;
+		goto failure;
 	}
-#ifdef _WIN32
-	fp = _wfopen(tmpf, L"wb");
-#else
-	fp = fopen(tmpf, "wb");
-#endif
+	fp = squash_extract_create(tmpdir, ext_name, &tmpf);
 	if (NULL == fp) {
-		free(tmpf);
-		return NULL;
+		goto failure;
 	}
-	file = SQUASH_VFD_FILE(fd);
 	offset = file->node.xtra.reg.file_size;
 	while (offset > 0) {
 		ssize = squash_read(fd, buffer, 16 * 1024);
 		if (ssize <= 0) {
+			saved_errno = errno;
 			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto discard;
 		}
 		offset -= ssize;
 		size = fwrite(buffer, ssize, 1, fp);
 		if (size != 1) {
+			saved_errno = errno;
 			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto discard;
 		}
 	}
 	assert(0 == offset);
-	fclose(fp);
+	if (0 != fclose(fp)) {
+		saved_errno = errno;
+		goto discard;
+	}
+	squash_close(fd);
 	return tmpf;
+
+discard:
+	squash_extract_discard(tmpf);
+	errno = saved_errno;
+failure:
+	saved_errno = errno;
+	squash_close(fd);
+	errno = saved_errno;
+	return NULL;
 }
 
 struct SquashExtractEntry {
-- 
2.43.0


From 68b29b68effbd0c43c0154d17b8eeecd0541f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 26/55] fix: the extraction cache owns its entries, forgets
 destroyed images and can be cleared and shared by threads

---
 include/squash.h       |  5 ++++
 include/squash/mutex.h |  1 +
 src/extract.c          | 56 ++++++++++++++++++++++++++++++------------
 src/fd.c               |  4 ++-
 src/fs.c               |  3 +++
 5 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/include/squash.h b/include/squash.h
index 7a7a0c0..1b58ef2 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -242,5 +242,10 @@ SQUASH_OS_PATH squash_tmpdir();
 SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name);
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name);
 void squash_extract_clear_cache();
+/*
+ * Keeps the files extracted from `fs` until the cache is cleared,
+ * but no longer as those of `fs`, which is about to be destroyed.
+ */
+void squash_extract_forget(sqfs *fs);
 
 #endif
diff --git a/include/squash/mutex.h b/include/squash/mutex.h
index 16573a7..18ee16c 100644
--- a/include/squash/mutex.h
+++ b/include/squash/mutex.h
@@ -23,6 +23,7 @@
 #endif
 
 extern MUTEX squash_global_mutex;
+extern MUTEX squash_extract_mutex;
 
 int MUTEX_INIT(MUTEX *mutex);
 int MUTEX_LOCK(MUTEX *mutex);
diff --git a/src/extract.c b/src/extract.c
index 36c197c..9733a69 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -263,12 +263,13 @@ failure:
 
 struct SquashExtractEntry {
 	sqfs *fs;
-	const char *path;
+	char *path;
 	SQUASH_OS_PATH ret;
 	struct SquashExtractEntry *next;
 };
 
 static struct SquashExtractEntry* squash_extract_cache = NULL;
+MUTEX squash_extract_mutex; /* held while a file is extracted */
 
 static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, const char *path)
 {
@@ -281,44 +282,67 @@ static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, cons
 	}
 	return ptr;
 }
-static void squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
+static int squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
 {
 	struct SquashExtractEntry* ptr = malloc(sizeof(struct SquashExtractEntry));
 	if (NULL == ptr) {
-		return;
+		return -1;
+	}
+	ptr->path = strdup(path);
+	if (NULL == ptr->path) {
+		free(ptr);
+		return -1;
 	}
 	ptr->fs = fs;
-	ptr->path = path;
 	ptr->ret = ret;
 	ptr->next = squash_extract_cache;
 	squash_extract_cache = ptr;
+	return 0;
 }
 
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	SQUASH_OS_PATH ret;
-	static struct SquashExtractEntry* found;
+	const struct SquashExtractEntry* found;
 
+	MUTEX_LOCK(&squash_extract_mutex);
 	found = squash_extract_cache_find(fs, path);
 	if (NULL != found) {
-		return found->ret;
+		ret = found->ret;
+		goto exit;
 	}
 	ret = squash_uncached_extract(fs, path, ext_name);
-	if (NULL != ret) {
-		squash_extract_cache_insert(fs, path, ret);
+	if (NULL != ret && 0 != squash_extract_cache_insert(fs, path, ret)) {
+		squash_extract_discard(ret);
+		errno = ENOMEM;
+		ret = NULL;
 	}
+exit:
+	MUTEX_UNLOCK(&squash_extract_mutex);
 	return ret;
 }
 
+void squash_extract_forget(sqfs *fs)
+{
+	struct SquashExtractEntry* ptr;
+	MUTEX_LOCK(&squash_extract_mutex);
+	for (ptr = squash_extract_cache; NULL != ptr; ptr = ptr->next) {
+		if (fs == ptr->fs) {
+			ptr->fs = NULL;
+		}
+	}
+	MUTEX_UNLOCK(&squash_extract_mutex);
+}
+
 void squash_extract_clear_cache()
 {
-	struct SquashExtractEntry* ptr = squash_extract_cache;
-	while (NULL != ptr) {
-#ifdef _WIN32
-		DeleteFileW(ptr->ret);
-#else
-		unlink(ptr->ret);
-#endif
-		ptr = ptr->next;
+	struct SquashExtractEntry* ptr;
+	MUTEX_LOCK(&squash_extract_mutex);
+	while (NULL != (ptr = squash_extract_cache)) {
+		squash_extract_cache = ptr->next;
+		squash_extract_discard(ptr->ret);
+		free(ptr->path);
+		free(ptr);
 	}
+	MUTEX_UNLOCK(&squash_extract_mutex);
 }
diff --git a/src/fd.c b/src/fd.c
index 932bd8a..9a3223c 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -263,8 +263,9 @@ static void squash_halt()
 	if (squash_global_fdtable.fds) {
 		free(squash_global_fdtable.fds);
 	}
-	MUTEX_DESTORY(&squash_global_mutex);
 	squash_extract_clear_cache();
+	MUTEX_DESTORY(&squash_extract_mutex);
+	MUTEX_DESTORY(&squash_global_mutex);
 }
 
 sqfs_err squash_start()
@@ -273,6 +274,7 @@ sqfs_err squash_start()
 	squash_global_fdtable.nr = 0;
 	squash_global_fdtable.fds = NULL;
 	MUTEX_INIT(&squash_global_mutex);
+	MUTEX_INIT(&squash_extract_mutex);
 	// for the names of temporary files, once, so that they keep changing
 	srand(time(NULL) * getpid());
 	ret = atexit(squash_halt);
diff --git a/src/fs.c b/src/fs.c
index 77cccc0..a57937b 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -22,6 +22,8 @@
  * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF
  * THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+#include "squash.h"
+
 #include "squash/fs.h"
 
 #include "squash/file.h"
@@ -90,6 +92,7 @@ sqfs_err sqfs_init(sqfs *fs, sqfs_fd_t fd, size_t offset) {
 }
 
 void sqfs_destroy(sqfs *fs) {
+	squash_extract_forget(fs);
 	sqfs_table_destroy(&fs->id_table);
 	sqfs_table_destroy(&fs->frag_table);
 	if (sqfs_export_ok(fs))
-- 
2.43.0


From 5d79969bd1fd0f525e499b585bc15f4fe8c025fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 27/55] fix: a path that merely starts like the mount prefix is
 not under it

---
 sample/enclose_io_unix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 75c0782..c133527 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1150,7 +1150,8 @@ off_t enclose_io_lseek(int fildes, off_t offset, int whence)
 short enclose_io_is_path(char *pathname)
 {
 	if (strnlen((pathname), 21) >= 21) {
-		if (0 == strncmp((pathname), "/__enclose_io_memfs__", 21)
+		if ((0 == strncmp((pathname), "/__enclose_io_memfs__", 21)
+				&& ('/' == (pathname)[21] || '\0' == (pathname)[21]))
 #ifdef _WIN32
 			|| 0 == strncmp((pathname), "\\__enclose_io_memfs__", 21)
 #endif
-- 
2.43.0


From 8acd7569bb306266881c499954315acd51b2d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 28/55] fix: access() asks for the given mode on overlay files

---
 sample/enclose_io_unix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index c133527..77378b9 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -640,14 +640,14 @@ int enclose_io_access(const char *path, int mode)
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_stat(enclose_io_fs, enclose_io_expanded, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else if (enclose_io_is_path(path)) {
 		struct stat buf;
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			path,
 			squash_stat(enclose_io_fs, path, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else {
 		return access(path, mode);
-- 
2.43.0


From 120ff5e0a0e03146d3abb2d3b15af9a340f67f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 29/55] fix: creating a file does not write to the caller's
 path

---
 sample/enclose_io_unix.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 77378b9..68d8a9f 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1069,12 +1069,17 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
-			char *dir_thereof_ptr = strrchr(pathname, '/');
+			char *dir_thereof = strdup(pathname);
+			char *dir_thereof_ptr;
+			if (NULL == dir_thereof) {
+				return enclose_io_dos_return(-1);
+			}
+			dir_thereof_ptr = strrchr(dir_thereof, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(pathname, 0777);
-				*dir_thereof_ptr = '/';
+				enclose_io_mkdir(dir_thereof, 0777);
 			}
+			free(dir_thereof);
 			if (mkdir_workdir) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
-- 
2.43.0


From b4ae2b529016a1123d8ce47f27939f4e3ba06774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 30/55] fix: openat() creates files under the mount prefix
 instead of aborting

---
 sample/enclose_io_common.h | 2 +-
 sample/enclose_io_unix.c   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index be4eaad..c7f113d 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -152,7 +152,7 @@ char *enclose_io_getwd(char *buf);
 int enclose_io_stat(const char *path, struct stat *buf);
 int enclose_io_fstat(int fildes, struct stat *buf);
 int enclose_io_open(int nargs, const char *pathname, int flags, ...);
-int enclose_io_openat(int fd, int nargs, const char *pathname, int flags, ...);
+int enclose_io_openat(int nargs, int dirfd, const char *pathname, int flags, ...);
 int enclose_io_close(int fildes);
 ssize_t enclose_io_read(int fildes, void *buf, size_t nbyte);
 off_t enclose_io_lseek(int fildes, off_t offset, int whence);
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 68d8a9f..8eec427 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1265,7 +1265,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
     if (3 == nargs) {
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(nargs - 1, pathname, flags);
         }
 
         // If the pathname given in pathname is relative,
@@ -1273,7 +1273,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(nargs - 1, pathname, flags);
         }
 
         return openat(dirfd, pathname, flags);
@@ -1288,7 +1288,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
 
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(nargs - 1, pathname, flags, mode);
         }
 
         // If the pathname given in pathname is relative,
@@ -1296,7 +1296,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(nargs - 1, pathname, flags, mode);
         }
 
         return openat(dirfd, pathname, flags, mode);
-- 
2.43.0


From db133eab7aa8a4f5e12d42784be02b17233bea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 31/55] fix: positions beyond 2 GiB are not truncated by the
 interception layer

---
 sample/enclose_io_common.h | 2 +-
 sample/enclose_io_unix.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index c7f113d..e83eb78 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -142,7 +142,7 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 		} while (0)
 
 int enclose_io_exepath(char* buffer, size_t* size);
-int enclose_io_dos_return(int statement);
+int64_t enclose_io_dos_return(int64_t statement);
 short enclose_io_if(const char* path);
 SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name);
 void enclose_io_chdir_helper(const char *path);
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 8eec427..768b01d 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -656,9 +656,9 @@ int enclose_io_access(const char *path, int mode)
 
 #endif // !_WIN32
 
-int enclose_io_dos_return(int statement) {
+int64_t enclose_io_dos_return(int64_t statement) {
 #ifdef _WIN32
-	int ret = (statement);
+	int64_t ret = (statement);
 	if (-1 == ret) {
 		ENCLOSE_IO_SET_LAST_ERROR;
 		return ret;
-- 
2.43.0


From 809951b265b6295ad6648fe84d7b228b690fa8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 32/55] fix: a failing pread() does not move the descriptor

---
 sample/enclose_io_unix.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 768b01d..ea968b6 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -591,9 +591,6 @@ ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 			return -1;
 		}
 		read_ssize = squash_read(d, buf, nbyte);
-		if (-1 == read_ssize) {
-			return -1;
-		}
 		lseek_off = squash_lseek(d, backup_off, SQUASH_SEEK_SET);
 		assert(backup_off == lseek_off);
 		return read_ssize;
-- 
2.43.0


From 91006c26cc2154616e621f38ce1d42174e7d815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 33/55] fix: readv() goes on after an empty buffer and reports
 what it has read before an error

---
 sample/enclose_io_unix.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index ea968b6..cb5d274 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -608,11 +608,11 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 		for (i = 0; i < iovcnt; ++i) {
 			i_ssize = squash_read(d, iov[i].iov_base, iov[i].iov_len);
 			if (-1 == i_ssize) {
-				return -1;
-			} else if (0 == i_ssize) {
-				break;
-			} else {
-				ret += i_ssize;
+				return ret ? ret : -1;
+			}
+			ret += i_ssize;
+			if (i_ssize < iov[i].iov_len) {
+				break; /* end of file */
 			}
 		}
 		return ret;
-- 
2.43.0


From baf04612bf1aed8a981ca69f63a608fc15e673e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 34/55] fix: dlopen() of a missing packed library does not open
 the main program instead

---
 sample/enclose_io_unix.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index cb5d274..15fd428 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -623,7 +623,17 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 
 void* enclose_io_dlopen(const char* path, int mode)
 {
-    return dlopen(enclose_io_ifextract(path, NULL), mode);
+    const char* extracted;
+
+    // without a slash it is not a path, but a name to search for
+    if (NULL == path || NULL == strchr(path, '/')) {
+        return dlopen(path, mode);
+    }
+    extracted = enclose_io_ifextract(path, NULL);
+    if (NULL == extracted) {
+        return NULL;
+    }
+    return dlopen(extracted, mode);
 }
 
 int enclose_io_access(const char *path, int mode)
-- 
2.43.0


From 80edaa2f1e4f2c6c0e6b426729e78fef3e00ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 35/55] fix: a failing fdopendir() releases everything and says
 when it is not a directory

---
 sample/enclose_io_unix.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 15fd428..2d36d17 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -428,12 +428,16 @@ DIR * enclose_io_fdopendir(int fd)
 	struct squash_file *file;
 	sqfs *fs;
 
-	if (!SQUASH_VALID_VFD(fd))
+	file = SQUASH_VFD_FILE(fd);
+	if (NULL == file)
 	{
 		return fdopendir(fd);
 	}
-
-	file = squash_global_fdtable.fds[fd];
+	if (!S_ISDIR(file->st.st_mode))
+	{
+		errno = ENOTDIR;
+		return NULL;
+	}
 
 	dir = calloc(1, sizeof(SQUASH_DIR));
 
@@ -449,6 +453,10 @@ DIR * enclose_io_fdopendir(int fd)
 	dir->entries = NULL;
 	dir->nr = 0;
 	dir->filename = strdup(file->filename);
+	if (NULL == dir->filename)
+	{
+		goto failure;
+	}
 	dir->fd = fd;
 	dir->actual_nr = 0;
 	dir->loc = 0;
@@ -474,11 +482,10 @@ DIR * enclose_io_fdopendir(int fd)
 		goto failure;
 	}
 	
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
-
 	MUTEX_LOCK(&squash_global_mutex);
+	handle = (int *)(file->payload);
 	free(handle);
-	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
+	file->payload = (void *)dir;
 	MUTEX_UNLOCK(&squash_global_mutex);
 
 	return dir;
@@ -486,6 +493,7 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From b826fe2522f00ecf8118d373b4cf1249a4f5c4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 36/55] fix: removing the overlay does not stop at an arbitrary
 file

---
 sample/enclose_io_unix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 2d36d17..6ad1bf0 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -73,6 +73,7 @@ static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int f
 	} else {
 		unlink(arg1);
 	}
+	return 0; // go on
 }
 #endif
 
-- 
2.43.0


From ea9fa4480361967e110115bce3c893d3631d6fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 37/55] fix: a failing creation of the overlay does not keep
 the library locked

---
 sample/enclose_io_unix.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 6ad1bf0..63bc0ae 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -91,10 +91,12 @@ static char * enclose_io_mkdir_workdir()
 	if (NULL == mkdir_workdir) {
 		MUTEX_LOCK(&squash_global_mutex);
 		if (NULL == mkdir_workdir) {
-			generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
+			SQUASH_OS_PATH tmpdir = squash_tmpdir();
+			generic_mkdir_workdir = tmpdir ? squash_tmpf(tmpdir, NULL) : NULL;
+			free((void *)tmpdir);
 			if (NULL == generic_mkdir_workdir) {
 				mkdir_workdir = NULL;
-				return NULL;
+				goto failure;
 			}
 #ifdef _WIN32
 			mkdir_workdir = malloc(MAX_PATH * 3);
@@ -102,28 +104,28 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto failure;
 			}
 			if ((size_t)-1 == wcstombs(mkdir_workdir, generic_mkdir_workdir, MAX_PATH)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto failure;
 			}
 			if (mkdir(mkdir_workdir)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto failure;
 			}
 			if (atexit(mkdir_workdir_halt)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto failure;
 			}
 #else
 			mkdir_workdir = generic_mkdir_workdir;
@@ -131,19 +133,23 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto failure;
 			}
 			if (atexit(mkdir_workdir_halt)) {
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto failure;
 			}
 #endif
 		}
 		MUTEX_UNLOCK(&squash_global_mutex);
 	}
 	return mkdir_workdir;
+
+failure:
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return NULL;
 }
 
 static int enclose_io_mkdir_consult(char *path, mode_t mode) {
-- 
2.43.0


From 228e424f282837fa8f7e5c3ad8c67d90121c27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 38/55] fix: chdir() to a relative path inside the image
 changes the reported current directory

---
 sample/enclose_io_common.h |  1 +
 sample/enclose_io_unix.c   | 75 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 75 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index e83eb78..b29ebc6 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -145,6 +145,7 @@ int enclose_io_exepath(char* buffer, size_t* size);
 int64_t enclose_io_dos_return(int64_t statement);
 short enclose_io_if(const char* path);
 SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name);
+int enclose_io_normalize(char *path);
 void enclose_io_chdir_helper(const char *path);
 int enclose_io_chdir(const char *path);
 char *enclose_io_getcwd(char *buf, size_t size);
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 63bc0ae..7f51f02 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -77,6 +77,47 @@ static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int f
 }
 #endif
 
+/*
+ * Resolve the "." and ".." components and the repeated slashes of an absolute
+ * path in place. Returns -1 if a ".." climbs above the beginning of the path.
+ */
+int enclose_io_normalize(char *path)
+{
+	int ret = 0;
+	char *in = path;
+	char *out = path;
+	size_t len;
+
+	while (*in) {
+		while ('/' == *in) {
+			in++;
+		}
+		len = strcspn(in, "/");
+		if (0 == len) {
+			break;
+		} else if (1 == len && '.' == in[0]) {
+			/* stays here */
+		} else if (2 == len && '.' == in[0] && '.' == in[1]) {
+			if (out == path) {
+				ret = -1;
+			}
+			while (out > path && '/' != *--out) {
+				/* drop the last component */
+			}
+		} else {
+			*out++ = '/';
+			memmove(out, in, len);
+			out += len;
+		}
+		in += len;
+	}
+	if (out == path) {
+		*out++ = '/';
+	}
+	*out = '\0';
+	return ret;
+}
+
 static void mkdir_workdir_halt()
 {
 #ifdef _WIN32
@@ -727,6 +768,9 @@ void enclose_io_chdir_helper(const char *path)
         	memcpy_len = SQUASHFS_PATH_LEN - 1;
         }
         memcpy(enclose_io_cwd, path, memcpy_len);
+        enclose_io_cwd[memcpy_len] = '\0';
+        enclose_io_normalize(enclose_io_cwd);
+        memcpy_len = strlen(enclose_io_cwd);
         while ('/' == enclose_io_cwd[memcpy_len - 1]) {
         	memcpy_len--;
         }
@@ -736,7 +780,36 @@ void enclose_io_chdir_helper(const char *path)
 
 int enclose_io_chdir(const char *path)
 {
-	if (enclose_io_is_path(path)) {
+	if (enclose_io_cwd[0] && '/' != *path) {
+		sqfs_path enclose_io_expanded;
+		size_t enclose_io_cwd_len;
+		size_t memcpy_len;
+
+		if (SQUASHFS_PATH_LEN - 2 < strlen(enclose_io_cwd) + strlen(path)) {
+			errno = ENAMETOOLONG;
+			#ifdef _WIN32
+			ENCLOSE_IO_SET_LAST_ERROR;
+			#endif
+			return -1;
+		}
+		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		return enclose_io_chdir(enclose_io_expanded);
+	} else if (enclose_io_is_path(path)) {
+		sqfs_path enclose_io_normalized;
+
+		if (SQUASHFS_PATH_LEN - 2 < strlen(path)) {
+			errno = ENAMETOOLONG;
+			#ifdef _WIN32
+			ENCLOSE_IO_SET_LAST_ERROR;
+			#endif
+			return -1;
+		}
+		strcpy(enclose_io_normalized, path);
+		enclose_io_normalize(enclose_io_normalized);
+		if (!enclose_io_is_path(enclose_io_normalized)) {
+			/* it leads out of the image */
+			return enclose_io_chdir(enclose_io_normalized);
+		}
 		if (mkdir_workdir) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
-- 
2.43.0


From a1d200c39b34316fa332057059018791ccc7bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 39/55] fix: getcwd() reports a buffer that is too small
 instead of a truncated directory

---
 sample/enclose_io_unix.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 7f51f02..a9aada0 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -886,8 +886,12 @@ char *enclose_io_getcwd(char *buf, size_t size)
 				return NULL;
 			}
 		} else {
-			if (size - 1 < memcpy_len) {
-				memcpy_len = size - 1;
+			if (size < memcpy_len) {
+				errno = size ? ERANGE : EINVAL;
+				#ifdef _WIN32
+				ENCLOSE_IO_SET_LAST_ERROR;
+				#endif
+				return NULL;
 			}
 		}
 		memcpy(buf, enclose_io_cwd, memcpy_len);
-- 
2.43.0


From 21f02ff72caf0d0377ba7661375d0bf85a48d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 40/55] fix: a dot-dot in a path under the mount prefix does
 not lead out of the overlay

---
 sample/enclose_io_common.h |  2 +-
 sample/enclose_io_unix.c   | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index b29ebc6..9ddcfb0 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -88,7 +88,7 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 		mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope); \
 		if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) { \
 			memmove(mkdir_workdir_expanded_head, mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope), strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1); \
-			if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) { \
+			if (0 == enclose_io_normalize(mkdir_workdir_expanded_head) && 0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) { \
 				return(RETURN2); \
 			} \
 		} \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index a9aada0..24cb249 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -211,6 +211,12 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 		return -1;
 	}
 
+	/* never leave the private directory */
+	if (enclose_io_normalize(head + strlen(enclose_io_mkdir_scope))) {
+		errno = ENOENT;
+		return -1;
+	}
+
 	for (p = head + strlen(enclose_io_mkdir_scope) + 1; *p; p++) {
 		if (*p == '/') {
 			*p = 0;
@@ -831,7 +837,7 @@ int enclose_io_chdir(const char *path)
 					mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
 					strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
 				);
-				if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) {
+				if (0 == enclose_io_normalize(mkdir_workdir_expanded_head) && 0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) {
 					int ret = chdir(mkdir_workdir_expanded);
 					if (0 == ret) {
 						enclose_io_chdir_helper(path);
@@ -1144,6 +1150,10 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 						mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
 						strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
 					);
+					if (enclose_io_normalize(mkdir_workdir_expanded_head)) {
+						errno = ENOENT;
+						return enclose_io_dos_return(-1);
+					}
 					return enclose_io_dos_return(open(mkdir_workdir_expanded, flags, mode));
 				} else {
 					errno = ENOENT;
@@ -1200,6 +1210,10 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 						mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
 						strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
 					);
+					if (enclose_io_normalize(mkdir_workdir_expanded_head)) {
+						errno = ENOENT;
+						return enclose_io_dos_return(-1);
+					}
 					return enclose_io_dos_return(open(mkdir_workdir_expanded, flags, mode));
 				} else {
 					errno = ENOENT;
-- 
2.43.0


From 35738a186d7db0d00cd9c2992048e9b36845f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 41/55] fix: mkdir() of something packed fails without
 shadowing its directory

---
 sample/enclose_io_unix.c | 75 ++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 46 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 24cb249..09a6240 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -256,6 +256,29 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 #endif
 }
 
+static int enclose_io_mkdir_overlay(const char *path, mode_t mode)
+{
+	int ret;
+	const char* workdir;
+	char* workdir_path;
+
+	workdir = enclose_io_mkdir_workdir();
+	if (NULL == workdir) {
+		errno = ENOENT;
+		return -1;
+	}
+	workdir_path = malloc(strlen(workdir) + strlen(path) + 1);
+	if (NULL == workdir_path) {
+		errno = ENOMEM;
+		return -1;
+	}
+	strcpy(workdir_path, workdir);
+	strcat(workdir_path, path);
+	ret = enclose_io_mkdir_consult(workdir_path, mode);
+	free(workdir_path);
+	return ret;
+}
+
 int enclose_io_mkdir(const char *path, mode_t mode)
 {
 	if (enclose_io_cwd[0] && '/' != *path) {
@@ -263,61 +286,21 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		int ret;
-		int ret_inner;
-		const char* workdir;
-		const char* workdir_path;
 
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
-		ret = squash_stat(enclose_io_fs, enclose_io_expanded, &buf);
-		workdir = enclose_io_mkdir_workdir();
-		if (NULL == workdir) {
-			errno = ENOENT;
-			return -1;
-		}
-		workdir_path = malloc(strlen(workdir) + strlen(enclose_io_expanded) + 1);
-		if (NULL == workdir_path) {
-			errno = ENOMEM;
-			return -1;
-		}
-		strcpy(workdir_path, workdir);
-		strcat(workdir_path, enclose_io_expanded);
-		ret_inner = enclose_io_mkdir_consult(workdir_path, mode);
-		free(workdir_path);
-		if (0 == ret) {
+		if (0 == squash_lstat(enclose_io_fs, enclose_io_expanded, &buf)) {
 			errno = EEXIST;
 			return -1;
-		} else {
-			return ret_inner;
 		}
+		return enclose_io_mkdir_overlay(enclose_io_expanded, mode);
 	} else if (enclose_io_is_path(path)) {
 		struct stat buf;
-		int ret;
-		int ret_inner;
-		const char* workdir;
-		const char* workdir_path;
 
-		ret = squash_stat(enclose_io_fs, path, &buf);
-		workdir = enclose_io_mkdir_workdir();
-		if (NULL == workdir) {
-			errno = ENOENT;
-			return -1;
-		}
-		workdir_path = malloc(strlen(workdir) + strlen(path) + 1);
-		if (NULL == workdir_path) {
-			errno = ENOMEM;
-			return -1;
-		}
-		strcpy(workdir_path, workdir);
-		strcat(workdir_path, path);
-		ret_inner = enclose_io_mkdir_consult(workdir_path, mode);
-		free(workdir_path);
-		if (0 == ret) {
+		if (0 == squash_lstat(enclose_io_fs, path, &buf)) {
 			errno = EEXIST;
 			return -1;
-		} else {
-			return ret_inner;
 		}
+		return enclose_io_mkdir_overlay(path, mode);
 	} else {
 		return mkdir(path, mode);
 	}
@@ -1126,7 +1109,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			char *dir_thereof_ptr = strrchr(enclose_io_expanded, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(enclose_io_expanded, 0777);
+				enclose_io_mkdir_overlay(enclose_io_expanded, 0777);
 				*dir_thereof_ptr = '/';
 			}
 			if (mkdir_workdir) {
@@ -1186,7 +1169,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			dir_thereof_ptr = strrchr(dir_thereof, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(dir_thereof, 0777);
+				enclose_io_mkdir_overlay(dir_thereof, 0777);
 			}
 			free(dir_thereof);
 			if (mkdir_workdir) {
-- 
2.43.0


From fcf87be8bc4d7cf39d17ba04f2ed7ea9124e15c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 42/55] fix: a mkdir() whose parent is missing does not shadow
 the directories above

---
 sample/enclose_io_unix.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 09a6240..2941cce 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -217,6 +217,32 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 		return -1;
 	}
 
+	/* create nothing unless the parent exists, packed or created */
+	p_left = strrchr(head + strlen(enclose_io_mkdir_scope), '/');
+	*p_left = 0;
+	if (*(head + strlen(enclose_io_mkdir_scope))) {
+		ret = squash_stat(enclose_io_fs, head, &buf);
+		if (0 != ret || !S_ISDIR(buf.st_mode)) {
+			path2 = strdup(path);
+			if (NULL == path2) {
+				errno = ENOMEM;
+				return -1;
+			}
+			memmove(
+				path2 + (head-path),
+				path2 + (head-path) + strlen(enclose_io_mkdir_scope),
+				strlen(path2 + (head-path) + strlen(enclose_io_mkdir_scope)) + 1
+			);
+			ret = stat(path2, &buf);
+			free(path2);
+			if (0 != ret || !S_ISDIR(buf.st_mode)) {
+				errno = ENOENT;
+				return -1;
+			}
+		}
+	}
+	*p_left = '/';
+
 	for (p = head + strlen(enclose_io_mkdir_scope) + 1; *p; p++) {
 		if (*p == '/') {
 			*p = 0;
-- 
2.43.0


From 25e1613a383eed2644e99396729c42b7ab3b7a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 43/55] fix: the overlay directories above a read-only one stay
 writable

---
 sample/enclose_io_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 2941cce..f8da436 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -259,7 +259,7 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 #ifdef _WIN32
 					mkdir(path2);
 #else
-					mkdir(path2, mode);
+					mkdir(path2, mode | S_IRWXU);
 #endif
 					free(path2);
 				}
-- 
2.43.0


From edf8c98388532d60890e0ccdcf47ede6729b1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:49 +0000
Subject: [PATCH 44/55] fix: creating a file below a packed file does not turn
 it into a directory

---
 sample/enclose_io_unix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index f8da436..2490712 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -217,6 +217,12 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 		return -1;
 	}
 
+	/* something packed which is not a directory is never shadowed by one */
+	if (0 == squash_stat(enclose_io_fs, head, &buf) && !S_ISDIR(buf.st_mode)) {
+		errno = EEXIST;
+		return -1;
+	}
+
 	/* create nothing unless the parent exists, packed or created */
 	p_left = strrchr(head + strlen(enclose_io_mkdir_scope), '/');
 	*p_left = 0;
-- 
2.43.0


From c2d370cc6e7a94d22ca17d35f5b6731050944698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:49 +0000
Subject: [PATCH 45/55] fix: removing the overlay does not stop at an
 unreadable directory

---
 sample/enclose_io_unix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 2490712..49b92c8 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -68,7 +68,10 @@ static void mkdir_workdir_halt_rm(const wchar_t *sPath)
 #else
 static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int flag, struct FTW *ftwarg)
 {
-	if (FTW_D == flag || FTW_DNR == flag || FTW_DP == flag) {
+	if (FTW_DNR == flag && 0 != rmdir(arg1) && ENOTEMPTY == errno && 0 == chmod(arg1, S_IRWXU)) {
+		/* now it can be read */
+		nftw(arg1, mkdir_workdir_halt_rm, 20, FTW_PHYS | FTW_MOUNT | FTW_DEPTH);
+	} else if (FTW_D == flag || FTW_DNR == flag || FTW_DP == flag) {
 		rmdir(arg1);
 	} else {
 		unlink(arg1);
-- 
2.43.0


From e49b69006970b6ef4754ed6a8241afd932e3f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:05 +0000
Subject: [PATCH 46/55] fix: the mount prefix is looked for behind the overlay
 directory, not in its own path

---
 sample/enclose_io_common.h |  2 +-
 sample/enclose_io_unix.c   | 14 +++++++-------
 sample/enclose_io_win32.c  |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index 9ddcfb0..8691b83 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -85,7 +85,7 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 		} \
 		memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (PATH), memcpy_len); \
 		mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0'; \
-		mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope); \
+		mkdir_workdir_expanded_head = strstr(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_mkdir_scope); \
 		if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) { \
 			memmove(mkdir_workdir_expanded_head, mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope), strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1); \
 			if (0 == enclose_io_normalize(mkdir_workdir_expanded_head) && 0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) { \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 49b92c8..b175253 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -196,7 +196,7 @@ failure:
 	return NULL;
 }
 
-static int enclose_io_mkdir_consult(char *path, mode_t mode) {
+static int enclose_io_mkdir_consult(char *path, size_t workdir_len, mode_t mode) {
 	int ret;
 	char *head = NULL;
 	char *p = NULL;
@@ -208,7 +208,7 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 		path[strlen(path) - 1] = 0;
 	}
 
-	head = strstr(path, enclose_io_mkdir_scope);
+	head = strstr(path + workdir_len, enclose_io_mkdir_scope);
 	if (NULL == head || '/' != head[strlen(enclose_io_mkdir_scope)]) {
 		errno = ENOENT;
 		return -1;
@@ -309,7 +309,7 @@ static int enclose_io_mkdir_overlay(const char *path, mode_t mode)
 	}
 	strcpy(workdir_path, workdir);
 	strcat(workdir_path, path);
-	ret = enclose_io_mkdir_consult(workdir_path, mode);
+	ret = enclose_io_mkdir_consult(workdir_path, strlen(workdir), mode);
 	free(workdir_path);
 	return ret;
 }
@@ -848,7 +848,7 @@ int enclose_io_chdir(const char *path)
 			}
 			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (path), memcpy_len);
 			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-			mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
+			mkdir_workdir_expanded_head = strstr(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_mkdir_scope);
 			if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
 				memmove(
 					mkdir_workdir_expanded_head,
@@ -972,7 +972,7 @@ EncloseIOSetCurrentDirectoryW(
 			}
 			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (enclose_io_converted), memcpy_len);
 			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-			mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
+			mkdir_workdir_expanded_head = strstr(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_mkdir_scope);
 			if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
 				memmove(
 					mkdir_workdir_expanded_head,
@@ -1161,7 +1161,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_expanded, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-				mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
+				mkdir_workdir_expanded_head = strstr(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_mkdir_scope);
 				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
 					memmove(
 						mkdir_workdir_expanded_head,
@@ -1221,7 +1221,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], pathname, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-				mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
+				mkdir_workdir_expanded_head = strstr(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_mkdir_scope);
 				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
 					memmove(
 						mkdir_workdir_expanded_head,
diff --git a/sample/enclose_io_win32.c b/sample/enclose_io_win32.c
index 2929257..f71a170 100644
--- a/sample/enclose_io_win32.c
+++ b/sample/enclose_io_win32.c
@@ -118,7 +118,7 @@ int enclose_io_wchdir(const wchar_t *path)
 			}
 			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (enclose_io_converted), memcpy_len);
 			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-			mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
+			mkdir_workdir_expanded_head = strstr(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_mkdir_scope);
 			if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
 				memmove(
 					mkdir_workdir_expanded_head,
@@ -324,7 +324,7 @@ EncloseIOCreateFileW(
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_expanded, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-				mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
+				mkdir_workdir_expanded_head = strstr(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_mkdir_scope);
 				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
 					memmove(
 						mkdir_workdir_expanded_head,
@@ -397,7 +397,7 @@ EncloseIOCreateFileW(
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_converted, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-				mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
+				mkdir_workdir_expanded_head = strstr(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_mkdir_scope);
 				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
 					memmove(
 						mkdir_workdir_expanded_head,
-- 
2.43.0


From 4e626107ad5601cabc90319a7b30c5d1c69cce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:13 +0000
Subject: [PATCH 47/55] fix: link counts beyond 2^31 are reported as packed

---
 include/squash/fs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/squash/fs.h b/include/squash/fs.h
index 64a8c86..c78930b 100644
--- a/include/squash/fs.h
+++ b/include/squash/fs.h
@@ -51,7 +51,7 @@ struct sqfs {
 
 struct sqfs_inode {
 	struct squashfs_base_inode base;
-	int nlink;
+	uint32_t nlink;
 	
 	sqfs_md_cursor next;
 	
-- 
2.43.0


From a871585243005a31c48895c47272598815761e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 48/55] fix: the overlay directory is seen by other threads
 only once it exists

---
 sample/enclose_io_common.h |  7 ++--
 sample/enclose_io_unix.c   | 68 +++++++++++++++++++++-----------------
 2 files changed, 42 insertions(+), 33 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index 8691b83..f9cfb29 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -71,14 +71,14 @@ short enclose_io_is_path_w(wchar_t *pathname);
 short enclose_io_is_relative_w(wchar_t *pathname);
 
 #define ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(PATH, RETURN1, RETURN2) \
-	if (mkdir_workdir) { \
+	if (enclose_io_workdir()) { \
 		sqfs_path mkdir_workdir_expanded; \
 		char *mkdir_workdir_expanded_head; \
 		size_t mkdir_workdir_len; \
 		size_t memcpy_len; \
 		struct stat mkdir_workdir_buf; \
-		mkdir_workdir_len = strlen(mkdir_workdir); \
-		memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len); \
+		mkdir_workdir_len = strlen(enclose_io_workdir()); \
+		memcpy(mkdir_workdir_expanded, enclose_io_workdir(), mkdir_workdir_len); \
 		memcpy_len = strlen(PATH); \
 		if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) { \
 			memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len; \
@@ -146,6 +146,7 @@ int64_t enclose_io_dos_return(int64_t statement);
 short enclose_io_if(const char* path);
 SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name);
 int enclose_io_normalize(char *path);
+char *enclose_io_workdir(void);
 void enclose_io_chdir_helper(const char *path);
 int enclose_io_chdir(const char *path);
 char *enclose_io_getcwd(char *buf, size_t size);
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index b175253..83bed08 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -130,66 +130,74 @@ static void mkdir_workdir_halt()
 #endif
 }
 
+/* the private directory of what is created, or NULL as long as there is none */
+char * enclose_io_workdir()
+{
+	char *workdir;
+
+	MUTEX_LOCK(&squash_global_mutex);
+	workdir = mkdir_workdir;
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return workdir;
+}
+
 static char * enclose_io_mkdir_workdir()
 {
-	if (NULL == mkdir_workdir) {
+	char *workdir;
+
+	if (NULL == enclose_io_workdir()) {
 		MUTEX_LOCK(&squash_global_mutex);
 		if (NULL == mkdir_workdir) {
 			SQUASH_OS_PATH tmpdir = squash_tmpdir();
 			generic_mkdir_workdir = tmpdir ? squash_tmpf(tmpdir, NULL) : NULL;
 			free((void *)tmpdir);
 			if (NULL == generic_mkdir_workdir) {
-				mkdir_workdir = NULL;
 				goto failure;
 			}
 #ifdef _WIN32
-			mkdir_workdir = malloc(MAX_PATH * 3);
-			if (NULL == mkdir_workdir) {
-				mkdir_workdir = NULL;
+			workdir = malloc(MAX_PATH * 3);
+			if (NULL == workdir) {
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
 				goto failure;
 			}
-			if ((size_t)-1 == wcstombs(mkdir_workdir, generic_mkdir_workdir, MAX_PATH)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
+			if ((size_t)-1 == wcstombs(workdir, generic_mkdir_workdir, MAX_PATH)) {
+				free(workdir);
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
 				goto failure;
 			}
-			if (mkdir(mkdir_workdir)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
+			if (mkdir(workdir)) {
+				free(workdir);
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
 				goto failure;
 			}
 			if (atexit(mkdir_workdir_halt)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
+				free(workdir);
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
 				goto failure;
 			}
+			mkdir_workdir = workdir; /* now it can be used by others */
 #else
-			mkdir_workdir = generic_mkdir_workdir;
-			if (mkdir(mkdir_workdir, S_IRWXU)) {
-				mkdir_workdir = NULL;
+			workdir = generic_mkdir_workdir;
+			if (mkdir(workdir, S_IRWXU)) {
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
 				goto failure;
 			}
 			if (atexit(mkdir_workdir_halt)) {
-				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
 				goto failure;
 			}
+			mkdir_workdir = workdir; /* now it can be used by others */
 #endif
 		}
 		MUTEX_UNLOCK(&squash_global_mutex);
 	}
-	return mkdir_workdir;
+	return enclose_io_workdir();
 
 failure:
 	MUTEX_UNLOCK(&squash_global_mutex);
@@ -834,14 +842,14 @@ int enclose_io_chdir(const char *path)
 			/* it leads out of the image */
 			return enclose_io_chdir(enclose_io_normalized);
 		}
-		if (mkdir_workdir) {
+		if (enclose_io_workdir()) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
 			size_t mkdir_workdir_len;
 			size_t memcpy_len;
 			struct stat mkdir_workdir_buf;
-			mkdir_workdir_len = strlen(mkdir_workdir);
-			memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
+			mkdir_workdir_len = strlen(enclose_io_workdir());
+			memcpy(mkdir_workdir_expanded, enclose_io_workdir(), mkdir_workdir_len);
 			memcpy_len = strlen(path);
 			if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
 				memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
@@ -958,14 +966,14 @@ EncloseIOSetCurrentDirectoryW(
 
 		W_ENCLOSE_IO_PATH_CONVERT(lpPathName);
 
-		if (mkdir_workdir) {
+		if (enclose_io_workdir()) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
 			size_t mkdir_workdir_len;
 			size_t memcpy_len;
 			struct stat mkdir_workdir_buf;
-			mkdir_workdir_len = strlen(mkdir_workdir);
-			memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
+			mkdir_workdir_len = strlen(enclose_io_workdir());
+			memcpy(mkdir_workdir_expanded, enclose_io_workdir(), mkdir_workdir_len);
 			memcpy_len = strlen(enclose_io_converted);
 			if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
 				memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
@@ -1147,14 +1155,14 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				enclose_io_mkdir_overlay(enclose_io_expanded, 0777);
 				*dir_thereof_ptr = '/';
 			}
-			if (mkdir_workdir) {
+			if (enclose_io_workdir()) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
 				size_t memcpy_len;
 				struct stat mkdir_workdir_buf;
-				mkdir_workdir_len = strlen(mkdir_workdir);
-				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
+				mkdir_workdir_len = strlen(enclose_io_workdir());
+				memcpy(mkdir_workdir_expanded, enclose_io_workdir(), mkdir_workdir_len);
 				memcpy_len = strlen(enclose_io_expanded);
 				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
 					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
@@ -1207,14 +1215,14 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				enclose_io_mkdir_overlay(dir_thereof, 0777);
 			}
 			free(dir_thereof);
-			if (mkdir_workdir) {
+			if (enclose_io_workdir()) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
 				size_t memcpy_len;
 				struct stat mkdir_workdir_buf;
-				mkdir_workdir_len = strlen(mkdir_workdir);
-				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
+				mkdir_workdir_len = strlen(enclose_io_workdir());
+				memcpy(mkdir_workdir_expanded, enclose_io_workdir(), mkdir_workdir_len);
 				memcpy_len = strlen(pathname);
 				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
 					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
-- 
2.43.0


From a0b35eed9d55f7ca9200eb8fb3ccaa32d5e1c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 49/55] fix: pread() does not use the position of a descriptor
 other threads may share

---
 sample/enclose_io_unix.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 83bed08..410d5a8 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -667,21 +667,24 @@ int enclose_io_scandir(const char *dirname, struct SQUASH_DIRENT ***namelist,
 
 ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 {
-	if (SQUASH_VALID_VFD(d)) {
-		off_t lseek_off, backup_off;
-		ssize_t read_ssize;
-		backup_off = squash_lseek(d, 0, SQUASH_SEEK_CUR);
-		if (-1 == backup_off) {
+	struct squash_file *file = SQUASH_VFD_FILE(d);
+
+	if (file) {
+		sqfs_off_t read_size = nbyte;
+		/* without the position of the descriptor, which other threads may be using */
+		if (S_ISDIR(file->st.st_mode)) {
+			errno = EISDIR;
+			return -1;
+		}
+		if (!S_ISREG(file->st.st_mode) || read_size < 0 || offset < 0) {
+			errno = EINVAL;
 			return -1;
 		}
-		lseek_off = squash_lseek(d, offset, SQUASH_SEEK_SET);
-		if (-1 == lseek_off) {
+		if (SQFS_OK != sqfs_read_range(file->fs, &file->node, offset, &read_size, buf)) {
+			errno = EIO;
 			return -1;
 		}
-		read_ssize = squash_read(d, buf, nbyte);
-		lseek_off = squash_lseek(d, backup_off, SQUASH_SEEK_SET);
-		assert(backup_off == lseek_off);
-		return read_ssize;
+		return read_size;
 	} else {
 		return pread(d, buf, nbyte, offset);
 	}
-- 
2.43.0


From 12889868755cf2829e370a9d0138ba9fe63c33e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 50/55] fix: packed objects can be opened without a standard
 input

---
 src/fd.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fd.c b/src/fd.c
index 9a3223c..ab33b45 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -9,6 +9,9 @@
 #include "squash.h"
 #include <stdlib.h>
 #include <time.h>
+#ifndef _WIN32
+#include <fcntl.h>
+#endif
 
 struct squash_fdtable squash_global_fdtable;
 MUTEX squash_global_mutex;
@@ -70,6 +73,13 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 
 	// get a dummy fd from the system
 	fd = dup(0);
+#ifndef _WIN32
+	if (-1 == fd && EBADF == errno) {
+		// there is no standard input
+		errno = 0;
+		fd = open("/dev/null", O_RDONLY);
+	}
+#endif
 	if (-1 == fd) {
 		goto failure;
 	}
-- 
2.43.0


From c019bfadf254fbb0b1f6f782a77634ac29d2340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 51/55] fix: the descriptor table is empty, not dangling, once
 the library has shut down

---
 src/fd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fd.c b/src/fd.c
index ab33b45..bcaf670 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -272,6 +272,10 @@ static void squash_halt()
 {
 	if (squash_global_fdtable.fds) {
 		free(squash_global_fdtable.fds);
+		// handlers that run later may still ask
+		squash_global_fdtable.fds = NULL;
+		squash_global_fdtable.nr = 0;
+		squash_global_fdtable.end = 0;
 	}
 	squash_extract_clear_cache();
 	MUTEX_DESTORY(&squash_extract_mutex);
-- 
2.43.0


From 0664e36b4fc19d9619b728d46e7ef4ae49e9203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 52/55] fix: the exit of a forked child leaves the copies its
 parent extracted

---
 src/extract.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/extract.c b/src/extract.c
index 9733a69..66fe3a9 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -265,6 +265,9 @@ struct SquashExtractEntry {
 	sqfs *fs;
 	char *path;
 	SQUASH_OS_PATH ret;
+#ifndef _WIN32
+	pid_t pid; /* who extracted it, a forked child must not delete it */
+#endif
 	struct SquashExtractEntry *next;
 };
 
@@ -295,6 +298,9 @@ static int squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PAT
 	}
 	ptr->fs = fs;
 	ptr->ret = ret;
+#ifndef _WIN32
+	ptr->pid = getpid();
+#endif
 	ptr->next = squash_extract_cache;
 	squash_extract_cache = ptr;
 	return 0;
@@ -340,6 +346,11 @@ void squash_extract_clear_cache()
 	MUTEX_LOCK(&squash_extract_mutex);
 	while (NULL != (ptr = squash_extract_cache)) {
 		squash_extract_cache = ptr->next;
+#ifndef _WIN32
+		if (getpid() != ptr->pid) {
+			free((void *)ptr->ret);
+		} else
+#endif
 		squash_extract_discard(ptr->ret);
 		free(ptr->path);
 		free(ptr);
-- 
2.43.0


From f6ad0f35a95d4fdd0a4e983631353a9a5c651062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 53/55] fix: the exit of a forked child leaves the overlay of
 its parent

---
 sample/enclose_io_unix.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 410d5a8..4a01935 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -121,11 +121,18 @@ int enclose_io_normalize(char *path)
 	return ret;
 }
 
+#ifndef _WIN32
+static pid_t mkdir_workdir_pid; /* whose directory it is */
+#endif
+
 static void mkdir_workdir_halt()
 {
 #ifdef _WIN32
 	mkdir_workdir_halt_rm(generic_mkdir_workdir);
 #else
+	if (getpid() != mkdir_workdir_pid) {
+		return; /* a forked child, it is still used by others */
+	}
 	nftw(mkdir_workdir, mkdir_workdir_halt_rm, 20, FTW_PHYS | FTW_MOUNT | FTW_DEPTH);
 #endif
 }
@@ -192,6 +199,7 @@ static char * enclose_io_mkdir_workdir()
 				generic_mkdir_workdir = NULL;
 				goto failure;
 			}
+			mkdir_workdir_pid = getpid();
 			mkdir_workdir = workdir; /* now it can be used by others */
 #endif
 		}
-- 
2.43.0


From 1add0eef1ede97f85cab46462a62ae39ade2c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 54/55] fix: an overlong path in the interception layer is
 refused or handled, not cut into another one

---
 sample/enclose_io_common.h | 17 ++++++++++++++---
 sample/enclose_io_unix.c   | 30 +++++++++++++++++++++---------
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index f9cfb29..5c6653a 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -70,9 +70,20 @@ short enclose_io_is_path(char *pathname);
 short enclose_io_is_path_w(wchar_t *pathname);
 short enclose_io_is_relative_w(wchar_t *pathname);
 
+/* room for any path of the overlay that the system can take, see PATH_MAX */
+#define ENCLOSE_IO_OVERLAY_PATH_LEN (2 * SQUASHFS_PATH_LEN)
+typedef char enclose_io_overlay_path[ENCLOSE_IO_OVERLAY_PATH_LEN + 1];
+
+/* a clipped path would be the path of something else */
+#define ENCLOSE_IO_CHECK_EXPANDED_NAME(path, failure) \
+		if (SQUASHFS_PATH_LEN < strlen(enclose_io_cwd) + strlen(path)) { \
+			errno = ENAMETOOLONG; \
+			return failure; \
+		}
+
 #define ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(PATH, RETURN1, RETURN2) \
 	if (enclose_io_workdir()) { \
-		sqfs_path mkdir_workdir_expanded; \
+		enclose_io_overlay_path mkdir_workdir_expanded; \
 		char *mkdir_workdir_expanded_head; \
 		size_t mkdir_workdir_len; \
 		size_t memcpy_len; \
@@ -80,8 +91,8 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 		mkdir_workdir_len = strlen(enclose_io_workdir()); \
 		memcpy(mkdir_workdir_expanded, enclose_io_workdir(), mkdir_workdir_len); \
 		memcpy_len = strlen(PATH); \
-		if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) { \
-			memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len; \
+		if (ENCLOSE_IO_OVERLAY_PATH_LEN - mkdir_workdir_len < memcpy_len) { \
+			memcpy_len = 0; /* too long to be there, see PATH_MAX */ \
 		} \
 		memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (PATH), memcpy_len); \
 		mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0'; \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 4a01935..a7add80 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -338,6 +338,7 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
 
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		if (0 == squash_lstat(enclose_io_fs, enclose_io_expanded, &buf)) {
 			errno = EEXIST;
@@ -425,6 +426,7 @@ int enclose_io_execv(const char *path, char *const argv[])
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		return enclose_io__exec(enclose_io_expanded, argv);
 	} else if (enclose_io_is_path(path)) {
@@ -440,6 +442,7 @@ int enclose_io_lstat(const char *path, struct stat *buf)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -463,6 +466,7 @@ ssize_t enclose_io_readlink(const char *path, char *buf, size_t bufsize)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -488,6 +492,7 @@ DIR * enclose_io_opendir(const char *filename)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(filename, NULL);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(filename);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -654,6 +659,7 @@ int enclose_io_scandir(const char *dirname, struct SQUASH_DIRENT ***namelist,
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(dirname, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(dirname);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -742,6 +748,7 @@ int enclose_io_access(const char *path, int mode)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -793,6 +800,7 @@ SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name)
         sqfs_path enclose_io_expanded;
         size_t enclose_io_cwd_len;
         size_t memcpy_len;
+        ENCLOSE_IO_CHECK_EXPANDED_NAME(path, NULL);
         ENCLOSE_IO_GEN_EXPANDED_NAME(path);
         return squash_extract(enclose_io_fs, enclose_io_expanded, ext_name);
     }
@@ -854,7 +862,7 @@ int enclose_io_chdir(const char *path)
 			return enclose_io_chdir(enclose_io_normalized);
 		}
 		if (enclose_io_workdir()) {
-			sqfs_path mkdir_workdir_expanded;
+			enclose_io_overlay_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
 			size_t mkdir_workdir_len;
 			size_t memcpy_len;
@@ -862,8 +870,8 @@ int enclose_io_chdir(const char *path)
 			mkdir_workdir_len = strlen(enclose_io_workdir());
 			memcpy(mkdir_workdir_expanded, enclose_io_workdir(), mkdir_workdir_len);
 			memcpy_len = strlen(path);
-			if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-				memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+			if (ENCLOSE_IO_OVERLAY_PATH_LEN - mkdir_workdir_len < memcpy_len) {
+				memcpy_len = 0; /* too long to be there, see PATH_MAX */
 			}
 			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (path), memcpy_len);
 			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
@@ -1114,6 +1122,7 @@ int enclose_io_stat(const char *path, struct stat *buf)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -1146,6 +1155,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(pathname, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(pathname);
 		if (!(O_CREAT & flags)) {
 			ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
@@ -1167,7 +1177,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				*dir_thereof_ptr = '/';
 			}
 			if (enclose_io_workdir()) {
-				sqfs_path mkdir_workdir_expanded;
+				enclose_io_overlay_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
 				size_t memcpy_len;
@@ -1175,8 +1185,9 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				mkdir_workdir_len = strlen(enclose_io_workdir());
 				memcpy(mkdir_workdir_expanded, enclose_io_workdir(), mkdir_workdir_len);
 				memcpy_len = strlen(enclose_io_expanded);
-				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+				if (ENCLOSE_IO_OVERLAY_PATH_LEN - mkdir_workdir_len < memcpy_len) {
+					errno = ENAMETOOLONG;
+					return enclose_io_dos_return(-1);
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_expanded, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
@@ -1227,7 +1238,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			}
 			free(dir_thereof);
 			if (enclose_io_workdir()) {
-				sqfs_path mkdir_workdir_expanded;
+				enclose_io_overlay_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
 				size_t memcpy_len;
@@ -1235,8 +1246,9 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				mkdir_workdir_len = strlen(enclose_io_workdir());
 				memcpy(mkdir_workdir_expanded, enclose_io_workdir(), mkdir_workdir_len);
 				memcpy_len = strlen(pathname);
-				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+				if (ENCLOSE_IO_OVERLAY_PATH_LEN - mkdir_workdir_len < memcpy_len) {
+					errno = ENAMETOOLONG;
+					return enclose_io_dos_return(-1);
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], pathname, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-- 
2.43.0


From ce6d180ea0c05082a6c6a6dc70a6bd1ef8ceaadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 55/55] fix: a relative temporary directory stays the same one
 when the current directory changes

---
 src/extract.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/extract.c b/src/extract.c
index 66fe3a9..9312147 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -113,7 +113,12 @@ SQUASH_OS_PATH squash_tmpdir()
 	}
 	try_try = "/tmp";
 out:
-	try_try = strdup(try_try);
+	if (*try_try && '/' != *try_try) {
+		// must stay the same directory when the current one changes
+		try_try = realpath(try_try, NULL);
+	} else {
+		try_try = strdup(try_try);
+	}
 	if (NULL == try_try) {
 		return NULL;
 	}
-- 
2.43.0

