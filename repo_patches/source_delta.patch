From 084221a7cc37970d1d6fa66e5c537fd46f51b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:18 +0000
Subject: [PATCH 01/57] fix: sblist with blockitems 0 never grew for big items
 or lists made from data

---
 src/sblist/sblist.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sblist/sblist.c b/src/sblist/sblist.c
index 4e1860f..ef12aa5 100644
--- a/src/sblist/sblist.c
+++ b/src/sblist/sblist.c
@@ -18,9 +18,14 @@ static void sblist_clear(sblist* l) {
 	l->count = 0;
 }
 
+/* number of items to allocate at a time if the user didn't specify any */
+static size_t default_blockitems(size_t itemsize) {
+	return itemsize < MY_PAGE_SIZE ? MY_PAGE_SIZE / itemsize : 1;
+}
+
 void sblist_init(sblist* l, size_t itemsize, size_t blockitems) {
 	if(l) {
-		l->blockitems = blockitems ? blockitems : MY_PAGE_SIZE / itemsize;
+		l->blockitems = blockitems ? blockitems : default_blockitems(itemsize);
 		l->itemsize = itemsize;
 		sblist_clear(l);
 	}
@@ -58,9 +63,10 @@ int sblist_set(sblist* l, void* item, size_t pos) {
 int sblist_grow_if_needed(sblist* l) {
 	char* temp;
 	if(l->count == l->capa) {
-		temp = realloc(l->items, (l->capa + l->blockitems) * l->itemsize);
+		size_t blockitems = l->blockitems ? l->blockitems : default_blockitems(l->itemsize);
+		temp = realloc(l->items, (l->capa + blockitems) * l->itemsize);
 		if(!temp) return 0;
-		l->capa += l->blockitems;
+		l->capa += blockitems;
 		l->items = temp;
 	}
 	return 1;
-- 
2.43.0


From c24f47ae473a46fd8588f993be80c36b5467e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:18 +0000
Subject: [PATCH 02/57] fix: sblist_insert past the end of the list corrupted
 memory

---
 src/sblist/sblist_insert.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sblist/sblist_insert.c b/src/sblist/sblist_insert.c
index 12fa07a..1a38d26 100644
--- a/src/sblist/sblist_insert.c
+++ b/src/sblist/sblist_insert.c
@@ -2,6 +2,7 @@
 #include <string.h>
 
 int sblist_insert(sblist* l, void* item, size_t pos) {
+	if(pos > sblist_getsize(l)) return 0;
 	if(!sblist_grow_if_needed(l)) return 0;
 	memmove(sblist_item_from_index(l, pos + 1), sblist_item_from_index(l, pos), (sblist_getsize(l) - pos) * l->itemsize);
 	l->count++;
-- 
2.43.0


From bddace59429d68a440d9dbf0fcfeb1c411a06931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:18 +0000
Subject: [PATCH 03/57] fix: sblist_free_values freed the list slots instead of
 the stored pointers

---
 src/sblist/sblist_free_values.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sblist/sblist_free_values.c b/src/sblist/sblist_free_values.c
index 6b07e37..d8592fc 100644
--- a/src/sblist/sblist_free_values.c
+++ b/src/sblist/sblist_free_values.c
@@ -4,5 +4,5 @@
 void sblist_free_values(sblist *l) {
 	size_t i;
 	for(i=0; i<sblist_getsize(l); i++)
-		free(sblist_get(l, i));
+		free(*(void**)sblist_get(l, i));
 }
-- 
2.43.0


From 0b963fd72337d519ef08eed8866efbd97d37a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 04/57] fix: tlist_get returned a bogus non-NULL pointer for an
 index past the end

---
 src/tlist/tlist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 1ac4c09..379c723 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -126,6 +126,7 @@ size_t tlist_getsize(struct tlist* t) {
 }
 
 void* tlist_get(struct tlist* t, size_t idx) {
+	if(idx >= cnt (t->root)) return 0;
 	return data(getitem(t->root, idx, 0));
 }
 
-- 
2.43.0


From 9ff594e73acbecfdb79c1a34f35aa8a7f6151fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 05/57] fix: tlist _deep functions freed the node interior
 instead of the stored pointer

---
 src/tlist/tlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 379c723..a24e3a2 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -145,7 +145,7 @@ int tlist_append(struct tlist* t, void *value) {
 static int tlist_delete_impl(struct tlist *t, size_t idx, int deep) {
 	if(idx >= cnt (t->root)) return 0;
 	pitem it = getitem(t->root, idx, 0);
-	if(deep) free(data(it));
+	if(deep) free(*(void**)data(it));
 	remove(&t->root, idx, 0);
 	free(it);
 	return 1;
-- 
2.43.0


From 7deab36acb86e4553401d7b2936a916ac787a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 06/57] fix: hashlist_add returned 1 instead of the documented
 -1 when out of memory

---
 src/hashlist/hashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist.c b/src/hashlist/hashlist.c
index 1129353..990bc8c 100644
--- a/src/hashlist/hashlist.c
+++ b/src/hashlist/hashlist.c
@@ -21,7 +21,7 @@ int hashlist_add(hashlist* h, uint32_t hash, void* value) {
 		h->buckets[dstbkt] = sblist_new(h->datasize, 8);
 		if(!h->buckets[dstbkt]) return -1;
 	}
-	return !sblist_add(h->buckets[dstbkt], value);
+	return sblist_add(h->buckets[dstbkt], value) ? 0 : -1;
 }
 
 /* return a sblist containing all values matching the hash, or NULL if not found */
-- 
2.43.0


From 3f7c5571fbe0cda8d367fc1d979b8ea7d4ea7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 07/57] fix: hashlist_next stopped at a bucket left empty by a
 failed add

---
 src/hashlist/hashlist_iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist_iterator.c b/src/hashlist/hashlist_iterator.c
index 0edfa5f..5e28c01 100644
--- a/src/hashlist/hashlist_iterator.c
+++ b/src/hashlist/hashlist_iterator.c
@@ -19,7 +19,7 @@ void hashlist_iterator_init(hashlist_iterator* iter) {
 void* hashlist_next(hashlist* h, hashlist_iterator* iter) {
 	if(iter->bucket_iter.pos >= (ssize_t) h->bucketcount) return NULL;
 	iter->pos++;
-	if(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
+	while(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
 		iter->pos = 0;
 		if(!hashlist_bucket_next(h, &iter->bucket_iter)) return NULL;
 	}
-- 
2.43.0


From 666110f49f0e2300c981d1fb44545b76ed6b1df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 08/57] fix: bmap_insert returned a stale index instead of -1
 when out of memory

---
 include/bmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bmap.h b/include/bmap.h
index 86da54a..e066a6d 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -137,7 +137,7 @@ static inline void* bmap_new(bmap_compare_func fn) {
 #define bmap_insert(X, KEY, VAL) ( \
 		( (X)->tmp.ss = bmap_find(X, KEY) ) \
 		== (ssize_t) -1 ? bmap_insert_nocheck(X, KEY, VAL) : \
-		bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss \
+		( bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss ) \
 	)
 
 #define bmap_delete(X, POS) ( \
-- 
2.43.0


From f0c4afd473f2bc6832370e8f073aacd679160e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:51 +0000
Subject: [PATCH 09/57] fix: ssa_free of a pointer below the pool accessed
 memory out of bounds

---
 include/ssalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index 455631d..e3d9c0d 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -95,7 +95,7 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 
 static void ssa_free(ssa_pool* p, void* ptr) {
 	ssize_t idx;
-	if((idx = ssa_getidx(p, ptr)) == -1 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
+	if((idx = ssa_getidx(p, ptr)) < 0 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
 #ifdef DEBUG
 		abort();
 #else
-- 
2.43.0


From d0d4ac651225d457bfdf12f3ce85a24d87784de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:51 +0000
Subject: [PATCH 10/57] fix: ssa_alloc never reused freed slots in pools of
 less than 8 elements

---
 include/ssalloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index e3d9c0d..74df870 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -83,9 +83,9 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 		return ssa_set(p, p->top - 1);
 	}
 	if(p->avail) {
-		for(b = 0; b < SSA_MAXELEM / TYPEBITS(SSA_COMPARETYPE); b++) {
+		for(b = 0; b * TYPEBITS(SSA_COMPARETYPE) < SSA_MAXELEM; b++) {
 			if(*((SSA_COMPARETYPE*)(p->used + (sizeof(SSA_COMPARETYPE) * b))) != SSA_COMPARETYPE_ALL_BITS_SET)
-				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1); i++)
+				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < SSA_MAXELEM && i < TYPEBITS(SSA_COMPARETYPE) * (b + 1); i++)
 					if(!BA_GET(p->used, i))
 						return ssa_set(p, i);
 		}
-- 
2.43.0


From a4cc0ea420b852d6792dab0fa395c7318bc4cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:51 +0000
Subject: [PATCH 11/57] fix: guard_free leaked a page for sizes that are a
 multiple of the page size

---
 include/guard_alloc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 49c91d8..0a12b64 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -25,7 +25,7 @@ static void *guard_alloc(size_t n) {
 
 /* unlike regular free, you need to bookkeep the size originally used */
 static void guard_free(void* p, size_t n) {
-	size_t off = -n & (guard_alloc_pagesize-1);
-	char *mem = (void*)((uintptr_t)p - off);
-	munmap(mem, n + off + guard_alloc_pagesize);
+	size_t ps = guard_alloc_pagesize, pages = 1+n/ps;
+	char *mem = (char*)p - (pages*ps - n);
+	munmap(mem, (pages+1)*ps);
 }
-- 
2.43.0


From 2d295761c14396e99a1c1dc5c8350d90c99fd809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:51 +0000
Subject: [PATCH 12/57] fix: guard_alloc returned a bogus block for sizes close
 to SIZE_MAX

---
 include/guard_alloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 0a12b64..8fb1bd5 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -14,6 +14,7 @@ static const size_t guard_alloc_pagesize = PAGE_SIZE;
 
 static void *guard_alloc(size_t n) {
 	size_t ps = guard_alloc_pagesize, pages = 1+n/ps;
+	if(n > SIZE_MAX - 2*ps) return 0;
 	char *mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
 	if(mem == MAP_FAILED) return 0;
 	if(mprotect(mem + pages*ps, ps, PROT_NONE)) {
-- 
2.43.0


From 5bd27f238d1cc707182b58a67a1573161cce25c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 13/57] fix: stringptr_here read out of bounds for a position
 past the end

---
 src/stringptr/stringptr_here.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_here.c b/src/stringptr/stringptr_here.c
index 557bc7f..007adf3 100644
--- a/src/stringptr/stringptr_here.c
+++ b/src/stringptr/stringptr_here.c
@@ -2,7 +2,7 @@
 #include <string.h>
 
 int stringptr_here(stringptr* haystack, size_t bufpos, stringptr* needle) {
-	if(needle->size <= haystack->size - bufpos) {
+	if(bufpos <= haystack->size && needle->size <= haystack->size - bufpos) {
 		if(!memcmp(needle->ptr, haystack->ptr + bufpos, needle->size))
 			return 1;
 	}
-- 
2.43.0


From 67e24b216cac19de7f61d2bf2ea1365080820ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 14/57] fix: stringptr_copy crashed when out of memory

---
 src/stringptr/stringptr_copy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringptr/stringptr_copy.c b/src/stringptr/stringptr_copy.c
index c019525..133d80c 100644
--- a/src/stringptr/stringptr_copy.c
+++ b/src/stringptr/stringptr_copy.c
@@ -4,6 +4,7 @@
 stringptr* stringptr_copy(stringptr* s) {
 	if(!s) return NULL;
 	stringptr* result = stringptr_new(s->size);
+	if(!result) return NULL;
 	memcpy(result->ptr, s->ptr, s->size);
 	return result;
 }
-- 
2.43.0


From 77d91dc7609a096c7b00e1c8050ec0fd7b80f9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 15/57] fix: stringptr_rchr never found characters above 127
 given as unsigned char

---
 src/stringptr/stringptr_rchr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_rchr.c b/src/stringptr/stringptr_rchr.c
index c55fb1a..8662baf 100644
--- a/src/stringptr/stringptr_rchr.c
+++ b/src/stringptr/stringptr_rchr.c
@@ -5,7 +5,7 @@ char* stringptr_rchr(stringptr* haystack, int needle) {
 	ssize_t i;
 	if(!haystack || !haystack->size) return NULL;
 	for(i = haystack->size - 1; i >= 0; i--) {
-		if(haystack->ptr[i] == needle)
+		if(haystack->ptr[i] == (char) needle)
 			return haystack->ptr + i;
 	}
 	return NULL;
-- 
2.43.0


From aaaab9b03bd657b176598bff06a06e9a75273af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 16/57] fix: stringptr_splitc ignored delimiters above 127
 given as unsigned char

---
 src/stringptrlist/stringptr_splitc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index 1d1f2b8..d65c1c6 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -11,7 +11,7 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 	if(!result) return NULL;
 
 	for(i=0;i<=buf->size;i++) {
-		if(i == buf->size || buf->ptr[i] == delim) {
+		if(i == buf->size || buf->ptr[i] == (char) delim) {
 			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
 			linestart = i+1;
 			buf->ptr[i] = 0;
-- 
2.43.0


From 771e77f0145283e3f68a43703e033b37fffafc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 17/57] fix: stringptr_splitc and stringptr_splits returned
 truncated lists when out of memory

---
 src/stringptrlist/stringptr_splitc.c | 5 ++++-
 src/stringptrlist/stringptr_splits.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index d65c1c6..4b9dd5e 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -12,7 +12,10 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 
 	for(i=0;i<=buf->size;i++) {
 		if(i == buf->size || buf->ptr[i] == (char) delim) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i+1;
 			buf->ptr[i] = 0;
 		}
diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 024bb1b..9015db8 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -13,7 +13,10 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	i = 0;
 	while(i<=buf->size) {
 		if(i == buf->size || stringptr_here(buf, i, delim)) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
 			i += delim->size;
-- 
2.43.0


From 0e613dc270d58fab231d57841d9ea1bd926d2e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 18/57] fix: stringptr_splits looped forever on an empty
 delimiter

---
 src/stringptrlist/stringptr_splits.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 9015db8..ce47d71 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -12,13 +12,14 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	if(!result) return NULL;
 	i = 0;
 	while(i<=buf->size) {
-		if(i == buf->size || stringptr_here(buf, i, delim)) {
+		if(i == buf->size || (delim->size && stringptr_here(buf, i, delim))) {
 			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
 				stringptrlist_free(result);
 				return NULL;
 			}
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
+			if(i == buf->size) break;
 			i += delim->size;
 		} else
 			i++;
-- 
2.43.0


From e193a5fa1e8d678020385ebd87cbc79c948a70cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 19/57] fix: stringptr_replace leaked the items of its
 temporary list

---
 src/stringptrlist/stringptr_replace.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_replace.c b/src/stringptrlist/stringptr_replace.c
index e72bc08..6cf48ea 100644
--- a/src/stringptrlist/stringptr_replace.c
+++ b/src/stringptrlist/stringptr_replace.c
@@ -7,7 +7,10 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 	size_t i, w;
 	if((l = stringptr_splits(buf, what))) {
 		result = stringptr_new(buf->size - ((stringptrlist_getsize(l) - 1) * what->size) + ((stringptrlist_getsize(l) - 1) * whit->size));
-		if(!result) return NULL;
+		if(!result) {
+			stringptrlist_free(l);
+			return NULL;
+		}
 		w = 0;
 		for(i = 0; i < stringptrlist_getsize(l); i++) {
 			if((temp = stringptrlist_get(l, i))) {
@@ -21,7 +24,7 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 				}
 			}
 		}
-		free(l);
+		stringptrlist_free(l);
 	}
 	return result;
 }
-- 
2.43.0


From 800564382c4520c961397694dc9a8f4190016660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 20/57] fix: stringptrlist_add_strdup leaked the copy when the
 list could not grow

---
 src/stringptrlist/stringptrlist_add_strdup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptrlist_add_strdup.c b/src/stringptrlist/stringptrlist_add_strdup.c
index 3fc57a7..c926d5f 100644
--- a/src/stringptrlist/stringptrlist_add_strdup.c
+++ b/src/stringptrlist/stringptrlist_add_strdup.c
@@ -3,5 +3,7 @@
 int stringptrlist_add_strdup(stringptrlist* l, stringptr* s) {
 	char* nu = stringptr_strdup(s);
 	if(!nu) return 0;
-	return stringptrlist_add(l, nu, stringptr_getsize(s));
+	if(stringptrlist_add(l, nu, stringptr_getsize(s))) return 1;
+	free(nu);
+	return 0;
 }
-- 
2.43.0


From 5771a948d70d74a711b21b54f634fb6d4b0f20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:30 +0000
Subject: [PATCH 21/57] fix: itoa produced garbage for INT_MIN

---
 src/strlib/itoa.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/strlib/itoa.c b/src/strlib/itoa.c
index 45e2014..394ca2c 100644
--- a/src/strlib/itoa.c
+++ b/src/strlib/itoa.c
@@ -9,28 +9,29 @@
   because it was written for agscc originally. */
 
 char *itoa(int number, char* buffer) {
-	int lentest, len = 0, i, start;
+	int len = 0, i, start;
+	unsigned n = number, lentest;
 
 	if(number >> 31) {
-		number = number * -1;
+		n = 0 - n;
 		buffer[0] = '-';
 		start = 1;
 	} else
 		start = 0;
 
-	lentest = number;
+	lentest = n;
 	do {
 		len++;
 		lentest /= 10;
 	} while(lentest);
 	buffer[start+len] = 0;
 	do {
-		i = number % 10;
+		i = n % 10;
 		buffer[start+len - 1] = '0' + i;
-		number -= i;
+		n -= i;
 		len -= 1;
-		number /= 10;
-	} while (number);
+		n /= 10;
+	} while (n);
 	return buffer;
 }
 
-- 
2.43.0


From a0b7edcc23d89f3fdcc064c8378600781e581ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:30 +0000
Subject: [PATCH 22/57] fix: utoa wrote out of bounds for numbers above INT_MAX

---
 src/strlib/utoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strlib/utoa.c b/src/strlib/utoa.c
index 036984d..a1b1f91 100644
--- a/src/strlib/utoa.c
+++ b/src/strlib/utoa.c
@@ -9,7 +9,8 @@
   because it was written for agscc originally. */
 
 char *utoa(unsigned number, char* buffer) {
-	int lentest, len = 0, i, start = 0;
+	unsigned lentest;
+	int len = 0, i, start = 0;
 
 	lentest = number;
 	do {
-- 
2.43.0


From fa3a5a9896bdc63458e0ee81ce55aa14eee032a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:30 +0000
Subject: [PATCH 23/57] fix: numberToString divided by zero for base 0

---
 src/strlib/numberToString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index a8e6689..ebd6f90 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -16,7 +16,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	size_t tmp, len = 0, i;
 	int shr = 0;
 	
-	if(base % 2 || base > conv_cypher_len) return NULL;
+	if(!base || base % 2 || base > conv_cypher_len) return NULL;
 	
 	int hasSign = (flags & NTS_SIGNED_TYPE) && number >> 63 == 1;
 	if(hasSign) number = ~number + 1;
-- 
2.43.0


From a7b74c07a4a033b8d0761496430b28f6e6c2aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:30 +0000
Subject: [PATCH 24/57] fix: numberToString padded without NTS_PAD when other
 flags were set

---
 src/strlib/numberToString.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index ebd6f90..15ba570 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -37,7 +37,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	for(i = 0; i < len; i++) result[i] = '0';
 	result[len] = 0;
 	if(!number) {
-		if(!flags & NTS_PAD) result += len - 1;
+		if(!(flags & NTS_PAD)) result += len - 1;
 		return result;
 	}
 
@@ -52,7 +52,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 		len -= 1;
 		number /= base;
 	}
-	if (!flags & NTS_PAD) {
+	if (!(flags & NTS_PAD)) {
 		for (i = 0; i < tmp; i++) {
 			if (result[i] == '0') shr ++;
 			else break;
-- 
2.43.0


From 69d867d5991fdb32653e253e05bee95e903689ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:52 +0000
Subject: [PATCH 25/57] fix: ulz_vsnprintf mishandled precisions other than
 single digits

precisions of 2 and more digits were computed wrongly, could overflow cbuf,
and numbers with more digits than the precision were truncated.
---
 src/format/ulz_vsnprintf.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 0c34258..6499d10 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -31,7 +31,7 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 						return -1;
 					}
 					width = 0;
-					for(j = 0; j < i; j++) width += (a[j] - '0') * (j ? (10 * (i - 1 - j)) : 1);
+					for(j = 0; j < i; j++) width = width * 10 + (a[j] - '0');
 					a += i - 1;
 					goto checkmod;
 				case 's':
@@ -57,10 +57,26 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					intstart:
 					inn = va_arg(ap, int);
 					nconv:
-					if(width) nflags |= NTS_PAD;
-					ins = numberToString(inn, base, cbuf, width, nflags);
-					width = 0;
+					ins = numberToString(inn, base, cbuf, 0, nflags);
 					base = 10;
+					i = 0; // number of digits
+					while(ins[i]) i++;
+					if(*ins == '-') {
+						if(o < omax) {
+							*o = *ins;
+							o++;
+							res++;
+						} else if(!o) res++;
+						ins++;
+						i--;
+					}
+					for(; i < width; i++) {
+						if(o < omax) {
+							*o = '0';
+							o++;
+							res++;
+						} else if(!o) res++;
+					}
 					goto strmove;
 					break;
 				case 'l': case 'z':
-- 
2.43.0


From 3690b6852585f15fefad3d006430d72f5a9a6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:52 +0000
Subject: [PATCH 26/57] fix: ulz_vsnprintf applied the precision of a %s or %c
 to the next number

---
 src/format/ulz_vsnprintf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 6499d10..051c58f 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -17,6 +17,7 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 	unsigned int base = 10;
 	for(a = (char*)format; *a; a++) {
 		if(*a == '%') {
+			width = 0;
 			checkmod:
 			++a;
 			switch(*a) {
-- 
2.43.0


From c1a7336e24ef24116143e30ac94d7536a52593cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:52 +0000
Subject: [PATCH 27/57] fix: ulz_vsnprintf printed 16 digits for %x of numbers
 above INT_MAX

---
 src/format/ulz_vsnprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 051c58f..89b9162 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -55,7 +55,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					goto strmove;
 				case 'd':
 					nflags = NTS_SIGNED_TYPE;
-					intstart:
 					inn = va_arg(ap, int);
 					nconv:
 					ins = numberToString(inn, base, cbuf, 0, nflags);
@@ -110,7 +109,8 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 				case 'x': case 'X':
 					base = 16;
 					nflags = (*a == 'x') ? NTS_LOWERCASE_CHARS : 0;
-					goto intstart;
+					inn = va_arg(ap, unsigned);
+					goto nconv;
 				default:
 					goto fail;
 			}
-- 
2.43.0


From 35f2a13387d7b74b5fa17ea25d5e002436e5dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:52 +0000
Subject: [PATCH 28/57] fix: ulz_vsnprintf wrote to a buffer of size 0

---
 src/format/ulz_vsnprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 89b9162..ec0e145 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -7,7 +7,7 @@
 // destsize is treated like in the original. it will leave space for a trailing 0,
 // if NULL is passed as dest it will return the number of bytes it would haven written if a sufficiently large buffer was provided.
 ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list ap) {
-	char *ins, *a, *o = dest, *omax = dest ? dest + destsize - 1: NULL;
+	char *ins, *a, *o = dest, *omax = dest ? dest + (destsize ? destsize - 1 : 0) : NULL;
 	char cbuf[32];
 	uint64_t inn;
 	size_t i,j, width = 0;
@@ -123,6 +123,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 			} else if(!o) res++;
 		}
 	}
-	if(o) o[0] = 0;
+	if(o && destsize) o[0] = 0;
 	return res;
 }
-- 
2.43.0


From 86af20dd996cffa354fc61b1a76bf649e8b00f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:52 +0000
Subject: [PATCH 29/57] fix: ulz_printf wrote out of bounds memory for an
 invalid format

---
 src/format/ulz_printf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/ulz_printf.c b/src/format/ulz_printf.c
index bc3f342..0b1c5dd 100644
--- a/src/format/ulz_printf.c
+++ b/src/format/ulz_printf.c
@@ -9,7 +9,7 @@ void ulz_printf(const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(1, dest, result);
 	}
 }
-- 
2.43.0


From f13458490393e3ab2dbc27348805c43a0a3c58ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:52 +0000
Subject: [PATCH 30/57] fix: ulz_fprintf wrote out of bounds memory for an
 invalid format

---
 src/format/ulz_fprintf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/ulz_fprintf.c b/src/format/ulz_fprintf.c
index ae605f7..708e68e 100644
--- a/src/format/ulz_fprintf.c
+++ b/src/format/ulz_fprintf.c
@@ -9,7 +9,7 @@ void ulz_fprintf(int fd, const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(fd, dest, result);
 	}
 }
-- 
2.43.0


From 470b3c9bf5d0b68d93d0e4d0de554865b7c9bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:52 +0000
Subject: [PATCH 31/57] fix: stringptr_format returned a bogus string for an
 invalid format

---
 src/stringptr/stringptr_format.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/stringptr/stringptr_format.c b/src/stringptr/stringptr_format.c
index 42293a5..fa8c4a9 100644
--- a/src/stringptr/stringptr_format.c
+++ b/src/stringptr/stringptr_format.c
@@ -5,11 +5,16 @@
 
 stringptr* stringptr_format(char* fmt, ...) {
 	const size_t BUF_SIZE = 1000;
-	stringptr* result = stringptr_new(BUF_SIZE);
-	if(!result || !fmt) return NULL;
+	stringptr* result = fmt ? stringptr_new(BUF_SIZE) : NULL;
+	if(!result) return NULL;
 	va_list ap;
 	va_start(ap, fmt);
-	result->size = ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap);
+	ssize_t len = ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap);
 	va_end(ap);
+	if(len < 0) {
+		stringptr_free(result);
+		return NULL;
+	}
+	result->size = len;
 	return result;
 }
-- 
2.43.0


From ee92147b13b110dbb46dbfd09203f5d261f642bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:37 +0000
Subject: [PATCH 32/57] fix: isnumericipv4 accepted addresses ending in a dot

---
 src/strlib/isnumericipv4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/isnumericipv4.c b/src/strlib/isnumericipv4.c
index c6280d4..ddaf683 100644
--- a/src/strlib/isnumericipv4.c
+++ b/src/strlib/isnumericipv4.c
@@ -22,7 +22,7 @@ int isnumericipv4(const char* ipstring) {
 		x++;
 	}
 	done:
-	if(d == 3 && n >= 4 && n <= 12) return 1;
+	if(d == 3 && !wasdot && n >= 4 && n <= 12) return 1;
 	return 0;
 }
 
-- 
2.43.0


From ff66c3b6d76f5ac0ba391169292fe769929fcb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:37 +0000
Subject: [PATCH 33/57] fix: strstr_uc missed matches overlapping a partial
 match

---
 src/strlib/strstr_uc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/strstr_uc.c b/src/strlib/strstr_uc.c
index 37e2d76..667fb48 100644
--- a/src/strlib/strstr_uc.c
+++ b/src/strlib/strstr_uc.c
@@ -18,7 +18,7 @@ char* strstr_uc(char* haystack, char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
-- 
2.43.0


From bdb3c752d0773f516fe70405fc7bc00df94a617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:37 +0000
Subject: [PATCH 34/57] fix: strstar missed matches overlapping a partial match

---
 src/strlib/strstar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/strstar.c b/src/strlib/strstar.c
index 6b5165d..dfda983 100644
--- a/src/strlib/strstar.c
+++ b/src/strlib/strstar.c
@@ -13,7 +13,7 @@ char* strstar(const char* haystack, const char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
-- 
2.43.0


From 54f6fce20fed14454f9ee9ff342720bedae10cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:37 +0000
Subject: [PATCH 35/57] fix: findword treated the middle of a word as the start
 of one

---
 src/strlib/findword.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strlib/findword.c b/src/strlib/findword.c
index 00e0806..84b22da 100644
--- a/src/strlib/findword.c
+++ b/src/strlib/findword.c
@@ -21,9 +21,10 @@ static inline int isTrailingWhitespace(char c) {
 }
 
 char* findword(char* buf, char* word_uc, size_t word_len) {
+	char* start = buf;
 	char* res = buf;
 	while(*res && (res = strstr_uc(buf, word_uc, word_len))) {
-		if((res == buf || isLeadingWhitespace(res[-1])) &&
+		if((res == start || isLeadingWhitespace(res[-1])) &&
 		   (res[word_len] == 0 || isTrailingWhitespace(res[word_len])))
 			return res;
 		else buf = res + 1;
-- 
2.43.0


From a1e137146d69017634aedfb347293555553f2678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:37 +0000
Subject: [PATCH 36/57] fix: strdup_n read past the given length and did not
 terminate the copy

---
 src/strlib/strdup_n.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strdup_n.c b/src/strlib/strdup_n.c
index 5aa6e96..058f84a 100644
--- a/src/strlib/strdup_n.c
+++ b/src/strlib/strdup_n.c
@@ -5,8 +5,10 @@
 char* strdup_n(char* str, size_t len) {
 	if (!str || !len) return NULL;
 	char * res;
-	if((res = malloc(len + 1)))
-		memcpy(res, str, len + 1);
+	if((res = malloc(len + 1))) {
+		memcpy(res, str, len);
+		res[len] = 0;
+	}
 	return res;
 }
 
-- 
2.43.0


From 7c853a9ed68f69e19202c577c237166d758a5cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:50 +0000
Subject: [PATCH 37/57] fix: normalizepath overflowed its buffer for paths of
 PATH_MAX or more characters

---
 src/filelib/normalizepath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filelib/normalizepath.c b/src/filelib/normalizepath.c
index 1858e0e..1b214cf 100644
--- a/src/filelib/normalizepath.c
+++ b/src/filelib/normalizepath.c
@@ -55,6 +55,7 @@ int normalizepath(stringptr* path) {
 				break;
 			default:
 				copy:
+				if(out.size >= sizeof(buf) - 1) goto fail;
 				out.ptr[out.size++] = path->ptr[i];
 				break;
 		}
-- 
2.43.0


From 0540f88f37020e459f314e1903e5e6b85f37e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:50 +0000
Subject: [PATCH 38/57] fix: getFileExt returned an extension for names without
 a dot

---
 src/filelib/getfileext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelib/getfileext.c b/src/filelib/getfileext.c
index de63e9f..783dc3b 100644
--- a/src/filelib/getfileext.c
+++ b/src/filelib/getfileext.c
@@ -2,7 +2,7 @@
 
 char* getFileExt(const char* filename, size_t fnlen) {
 	char* p = (char*) filename + fnlen;
-	while(p - 1 > filename && p[-1] != '.') p--;
+	while(p > filename && p[-1] != '.') p--;
 	if(p > filename) return p;
 	else return NULL;
 }
-- 
2.43.0


From cf27dbad7870b15efd5ce1d0a3ea3535c73a09c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:50 +0000
Subject: [PATCH 39/57] fix: getpathdiff ignored paths that cannot be
 normalized

---
 src/filelib/getpathdiff.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filelib/getpathdiff.c b/src/filelib/getpathdiff.c
index 8ac70ed..266b4ce 100644
--- a/src/filelib/getpathdiff.c
+++ b/src/filelib/getpathdiff.c
@@ -8,8 +8,8 @@
 // workbuf should be at least as big as path2, but not longer than PATH_MAX.
 // all returned results start with /
 ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
-	normalizepath(path1);
-	normalizepath(path2);
+	if(!normalizepath(path1)) return -1;
+	if(!normalizepath(path2)) return -1;
 	// special case : / is the only case where the end of the string is /
 	int isRoot = 0;
 	if(path1->size == 1) {
-- 
2.43.0


From cd90440ceeb1fca3a1b537153b096632f8f3078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:50 +0000
Subject: [PATCH 40/57] fix: getpathdiff returned a difference for paths that
 are no child

---
 src/filelib/getpathdiff.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/filelib/getpathdiff.c b/src/filelib/getpathdiff.c
index 266b4ce..075771c 100644
--- a/src/filelib/getpathdiff.c
+++ b/src/filelib/getpathdiff.c
@@ -18,10 +18,9 @@ ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
 	}
 	ssize_t result = path2->size - path1->size;
 	if(result < 0) return -1;
-	if(result) {
-		if(memcmp(path1->ptr, path2->ptr, path1->size)) return -1;
-		memcpy(workbuf, path2->ptr + path1->size, result);
-	}
+	if(memcmp(path1->ptr, path2->ptr, path1->size)) return -1;
+	if(result && path2->ptr[path1->size] != '/') return -1;
+	memcpy(workbuf, path2->ptr + path1->size, result);
 	workbuf[result] = 0;
 	if(isRoot) path1->size = 1;
 	return result;
-- 
2.43.0


From 876b4089c3f24b3086443bf09acd47cbf0f50a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:34 +0000
Subject: [PATCH 41/57] fix: filelist_search did not escape backslashes in the
 directory

---
 src/filelist/filelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index d0de34c..5232fab 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -13,7 +13,7 @@ static size_t cpystr_escape(char *out, const char *in, size_t in_size)
 {
 	size_t out_size = 0;
 	while(in_size && out_size + 2 < PATH_MAX) {
-		if(*in == '[' || *in == '?' || *in == '*') {
+		if(*in == '[' || *in == '?' || *in == '*' || *in == '\\') {
 			*(out++) = '\\';
 			out_size++;
 		}
-- 
2.43.0


From 716da95dc223da736aaa47a56c0a2ead8afe615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:34 +0000
Subject: [PATCH 42/57] fix: filelist_search leaked the items of the list on
 allocation failure

---
 src/filelist/filelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 5232fab..0e9e98e 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -55,6 +55,7 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	if((ret = glob(buf, defaultflags | GLOB_MARK, NULL, &l->pglob))) return ret;
 	if(!(l->files = stringptrlist_new(l->pglob.gl_pathc))) {
 		err:
+		if(l->files) stringptrlist_free(l->files);
 		globfree(&l->pglob);
 		return -1;
 	}
@@ -104,7 +105,6 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 			}
 		}
 		if(!stringptrlist_add(l->files, s->ptr, s->size)) {
-			free(l->files);
 			goto err;
 		}
 	}
-- 
2.43.0


From 9b0835a0393b6b2d7883cee07a9458846cdf4ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:34 +0000
Subject: [PATCH 43/57] fix: filelist_search lost entries on allocation failure

---
 src/filelist/filelist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 0e9e98e..d2151b8 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -62,8 +62,8 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	if(!(flags & FLF_INCLUDE_HIDDEN)) {
 		// the strings in the filelist are managed by glob, we dont free them ourselves.
 		// so its save to add string literals.
-		if(flags & FLF_INCLUDE_DOT) stringptrlist_add(l->files, "./", 2);
-		if(flags & FLF_INCLUDE_DOT_DOT) stringptrlist_add(l->files, "../", 3);
+		if((flags & FLF_INCLUDE_DOT) && !stringptrlist_add(l->files, "./", 2)) goto err;
+		if((flags & FLF_INCLUDE_DOT_DOT) && !stringptrlist_add(l->files, "../", 3)) goto err;
 	}
 	for(i = 0; i < l->pglob.gl_pathc; i++) {
 		s->ptr = l->pglob.gl_pathv[i];
-- 
2.43.0


From 5d5c4f2cc677fde7a2973b5e6ee57b282247953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:32 +0000
Subject: [PATCH 44/57] fix: fileparser_getnextlinelength failed for a last
 line filling the buffer exactly

---
 src/fileparser/fileparser_getnextlinelength.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fileparser/fileparser_getnextlinelength.c b/src/fileparser/fileparser_getnextlinelength.c
index 497316a..cb53e35 100644
--- a/src/fileparser/fileparser_getnextlinelength.c
+++ b/src/fileparser/fileparser_getnextlinelength.c
@@ -9,10 +9,14 @@ ssize_t fileparser_getnextlinelength(fileparser* parser) {
 		parser->fpos += sizeof(parser->buf);
 		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
 	}
-	if(ret != 0) return -1;
+	if(ret == -2 && res) { // end of file right after a full buffer
+		ret = 0;
+		parser->len = 0;
+	}
 	res += parser->len;
 	parser->fpos = store_fpos;
 	if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+	if(ret != 0) return -1;
 	return res;
 }
 
-- 
2.43.0


From 6ed98846499381c6566181cc4e049480be07aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:52 +0000
Subject: [PATCH 45/57] fix: stringptr_fromfile never returned for files
 shorter than their reported size

---
 src/stringptr/stringptr_fromfile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stringptr/stringptr_fromfile.c b/src/stringptr/stringptr_fromfile.c
index 32a7f4a..7ae3eb1 100644
--- a/src/stringptr/stringptr_fromfile.c
+++ b/src/stringptr/stringptr_fromfile.c
@@ -29,6 +29,11 @@ stringptr* stringptr_fromfile(char* filename) {
 			buf = NULL;
 			goto FEXIT;
 		}
+		if(!bread) { // file is shorter than announced
+			buf->ptr[bufpos] = 0;
+			buf->size = bufpos;
+			break;
+		}
 		bufpos += bread;
 	}
 	FEXIT:
-- 
2.43.0


From 8bad55080540ccb92f8fb82e7a92e7b5681e276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:52 +0000
Subject: [PATCH 46/57] fix: stringptrlist_fromfile reported success for read
 errors and overlong lines

---
 src/stringptrlist/stringptrlist_fromfile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stringptrlist/stringptrlist_fromfile.c b/src/stringptrlist/stringptrlist_fromfile.c
index 9614b87..edf2e36 100644
--- a/src/stringptrlist/stringptrlist_fromfile.c
+++ b/src/stringptrlist/stringptrlist_fromfile.c
@@ -4,12 +4,12 @@
 int stringptrlist_fromfile(stringptrlist* l, const char* fn) {
 	fileparser f;
 	stringptr line;
-	int success = 0;
+	int success = 0, ret;
 	if(fileparser_open(&f, fn)) goto err;
-	while(!fileparser_readline(&f) && !fileparser_getline(&f, &line) && line.size) {
+	while(!(ret = fileparser_readline(&f)) && !fileparser_getline(&f, &line) && line.size) {
 		if(!stringptrlist_add_strdup(l, &line)) goto ferr;
 	}
-	success = 1;
+	success = ret == 0 || ret == -2; // empty line or end of file
 	ferr:
 	fileparser_close(&f);
 	err:
-- 
2.43.0


From 3efba7dfd80ea47f520f6433a10001753621c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:08 +0000
Subject: [PATCH 47/57] fix: read_stdin_line cut off the last character of
 lines without newline

---
 src/stringptr/read_stdin_line.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/read_stdin_line.c b/src/stringptr/read_stdin_line.c
index 0fb4baa..011e138 100644
--- a/src/stringptr/read_stdin_line.c
+++ b/src/stringptr/read_stdin_line.c
@@ -9,7 +9,7 @@ stringptr read_stdin_line(char* buf, size_t bufsize, int chomp) {
 	if((fgets_result = fgets(buf, bufsize, stdin))) {
 		stringptr line;
 		stringptr_fromchar(fgets_result, &line);
-		if(chomp) 
+		if(chomp && line.size && line.ptr[line.size - 1] == '\n')
 			stringptr_shiftleft(&line, 1); // remove trailing \n
 		return line;
 	}
-- 
2.43.0


From 3f4c1a2ba955f86d1d18f5c7a77b1cea75f6aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:08 +0000
Subject: [PATCH 48/57] fix: process_close returned garbage when waiting was
 interrupted

---
 src/proclib/process.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index e471ea9..0ce8f2b 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -50,8 +50,10 @@ int process_open(struct process *p, char* const argv[]) {
 int process_close(struct process *p) {
 	int i, retval;
 	for(i=0; i<3; ++i) close(p->fds[i]);
-	waitpid(p->pid, &retval, 0);
+	pid_t ret;
+	while((ret = waitpid(p->pid, &retval, 0)) == -1 && errno == EINTR);
 	posix_spawn_file_actions_destroy(&p->fa);
+	if(ret == -1) return -1;
 	return WEXITSTATUS(retval);
 }
 
-- 
2.43.0


From e9201312f885502c7252284a83f95fe4f618de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:18 +0000
Subject: [PATCH 49/57] fix: process_open destroyed file actions that were
 never initialised

---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index 0ce8f2b..08712f7 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -9,7 +9,7 @@ int process_open(struct process *p, char* const argv[]) {
 	int pipes[3][2] = {0}, i,j;
 
 	errno = posix_spawn_file_actions_init(&p->fa);
-	if(errno) goto spawn_error;
+	if(errno) return -1;
 
 	for(i=0; i<3; ++i) {
 		errno = posix_spawn_file_actions_addclose(&p->fa, i);
-- 
2.43.0


From f72c11c38437d5e1f84331ba0c526c2132d4fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:15 +0000
Subject: [PATCH 50/57] fix: puts of stdio-repl.h did not end the line

puts() writes the string and a newline, the replacement only wrote the
string.
---
 include/stdio-repl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdio-repl.h b/include/stdio-repl.h
index 029dac2..80abdd7 100644
--- a/include/stdio-repl.h
+++ b/include/stdio-repl.h
@@ -44,6 +44,6 @@
 #define dprintf(...) ulz_fprintf(__VA_ARGS__)
 
 #define perror(x) log_puterror(2, x)
-#define puts(x) log_putc(1, x)
+#define puts(x) (log_putc(1, x), log_putln(1))
 
 #endif
-- 
2.43.0


From 47b1f2b84d36b5a740a3dcea3db86a86aec40ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:25 +0000
Subject: [PATCH 51/57] fix: sha512 digests were wrong for messages updated in
 pieces that are not whole blocks

---
 src/sha512/sha512.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sha512/sha512.c b/src/sha512/sha512.c
index 3d3b0ad..a66ca20 100644
--- a/src/sha512/sha512.c
+++ b/src/sha512/sha512.c
@@ -117,17 +117,24 @@ void sha512_init(sha512_ctx *ctx) {
 }
 
 void sha512_update(sha512_ctx *ctx, const u8 *buf, size_t n) {
-	crypto_hashblocks(ctx->h, buf, n);
+	size_t i, p = ctx->b & 127;
 	ctx->b += n;
+	if(p) { // complete the pending block first
+		for(; p < 128 && n; p++, n--) ctx->x[p] = *buf++;
+		if(p < 128) return;
+		crypto_hashblocks(ctx->h, ctx->x, 128);
+	}
+	crypto_hashblocks(ctx->h, buf, n);
 	buf += n;
 	n &= 127;
 	buf -= n;
-	size_t i;
 	FOR(i,n) ctx->x[i] = buf[i];
 }
 
 unsigned char* sha512_end(sha512_ctx *ctx) {
 	u64 n = ctx->b & 127;
+	size_t i;
+	for(i = n; i < 256; i++) ctx->x[i] = 0;
 	ctx->x[n] = 128;
 	n = 256-128*(n<112);
 	ctx->x[n-9] = ctx->b >> 61;
-- 
2.43.0


From 833851f255f0664736e6c4b850824032dcac44af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:24 +0000
Subject: [PATCH 52/57] fix: bmap_delete evaluated its position several times

---
 include/bmap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bmap.h b/include/bmap.h
index e066a6d..0e16311 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -141,9 +141,9 @@ static inline void* bmap_new(bmap_compare_func fn) {
 	)
 
 #define bmap_delete(X, POS) ( \
-	(X)->tmp.ss = POS, \
-	tglist_delete(&(X)->keys, POS), \
-	bmap_cat(VAL_LIST_TYPE, _delete)(&(X)->values, POS) \
+	(X)->tmp.ss = (POS), \
+	tglist_delete(&(X)->keys, (X)->tmp.ss), \
+	bmap_cat(VAL_LIST_TYPE, _delete)(&(X)->values, (X)->tmp.ss) \
 	)
 
 static ssize_t bmap_find_impl(void* bm, const void* key, size_t keysize) {
-- 
2.43.0


From 299644532f4e9dabe69329e2dc36a167601eff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:24 +0000
Subject: [PATCH 53/57] fix: hbmap_delete evaluated its iterator several times

---
 include/hbmap.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hbmap.h b/include/hbmap.h
index 6f01369..7f67178 100644
--- a/include/hbmap.h
+++ b/include/hbmap.h
@@ -167,6 +167,7 @@ static hbmap_iter hbmap_next_valid_impl(void *h, hbmap_iter iter, size_t nbucks)
 	)
 
 #define hbmap_delete(X, ITER) ( \
-	bmap_delete(&(X)->buckets[hbmap_iter_bucket(ITER)], hbmap_iter_index(ITER)), 1)
+	(X)->tmp.it = (ITER), \
+	bmap_delete(&(X)->buckets[hbmap_iter_bucket((X)->tmp.it)], hbmap_iter_index((X)->tmp.it)), 1)
 
 #endif
-- 
2.43.0


From dd0313504f6cc6558d6e0876b080e07180fac0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:24 +0000
Subject: [PATCH 54/57] fix: bmap_fini took ownership flags given as an
 expression apart

---
 include/bmap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bmap.h b/include/bmap.h
index 0e16311..67987ee 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -94,8 +94,8 @@ static inline void* bmap_new(bmap_compare_func fn) {
   3: 0+free both
 */
 #define bmap_fini(X, FREEFLAGS) do { \
-	if(FREEFLAGS & 1) {tglist_free_values(&(X)->keys);} \
-	if(FREEFLAGS & 2) {bmap_cat(VAL_LIST_TYPE, _free_values)(&(X)->values);} \
+	if((FREEFLAGS) & 1) {tglist_free_values(&(X)->keys);} \
+	if((FREEFLAGS) & 2) {bmap_cat(VAL_LIST_TYPE, _free_values)(&(X)->values);} \
 	tglist_free_items(&(X)->keys); \
 	bmap_cat(VAL_LIST_TYPE, _free_items)(&(X)->values); \
 } while(0)
-- 
2.43.0


From 19c74cd6f13fa5b02eb018ab689934933058d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:24 +0000
Subject: [PATCH 55/57] fix: hbmap_init and hbmap_fini captured variables named
 p and i of the caller

---
 include/hbmap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hbmap.h b/include/hbmap.h
index 7f67178..1ae0285 100644
--- a/include/hbmap.h
+++ b/include/hbmap.h
@@ -52,9 +52,9 @@ struct NAME { \
 #define hbmap_init_impl(X, COMPAREFUNC, HASHFUNC, NUMBUCKETS) do{\
 	memset(X, 0, hbmap_struct_size_impl(NUMBUCKETS)); \
 	((hbmap_proto(1)*)(void*)(X))->hash_func = (void*)HASHFUNC; \
-	bmap_proto *p = (void*)(&((hbmap_proto(1)*)(void*)(X))->buckets[0]); \
-	size_t i; for(i=0; i<NUMBUCKETS; ++i) \
-		p[i].compare = COMPAREFUNC; \
+	bmap_proto *hbmap_p_ = (void*)(&((hbmap_proto(1)*)(void*)(X))->buckets[0]); \
+	size_t hbmap_i_; for(hbmap_i_=0; hbmap_i_<NUMBUCKETS; ++hbmap_i_) \
+		hbmap_p_[hbmap_i_].compare = COMPAREFUNC; \
 	} while(0)
 
 /* initialization */
@@ -78,8 +78,8 @@ static inline void* hbmap_new(bmap_compare_func fn, void* hash_func, size_t numb
   3: 0+free both
 */
 #define hbmap_fini(X, FREEFLAGS) do { \
-	size_t i; for(i=0; i < hbmap_getbucketcount(X); ++i) \
-		{ bmap_fini(&(X)->buckets[i], FREEFLAGS); } \
+	size_t hbmap_i_; for(hbmap_i_=0; hbmap_i_ < hbmap_getbucketcount(X); ++hbmap_i_) \
+		{ bmap_fini(&(X)->buckets[hbmap_i_], FREEFLAGS); } \
 } while(0)
 
 /* internal stuff needed for iterator impl */
-- 
2.43.0


From 34651edf139fa4f68a404dc1c3af2a6f8ffc280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:24 +0000
Subject: [PATCH 56/57] fix: base64 size macros miscalculated sizes given as an
 expression

---
 include/strlib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strlib.h b/include/strlib.h
index 8e2f6ca..db15416 100644
--- a/include/strlib.h
+++ b/include/strlib.h
@@ -80,13 +80,13 @@ extern const size_t conv_cypher_len;
 extern const char base64_tbl[64];
 
 /* calculates number of bytes base64-encoded stream of N bytes will take. */
-#define BASE64ENC_BYTES(N) (((N+2)/3)*4)
+#define BASE64ENC_BYTES(N) ((((N)+2)/3)*4)
 /* calculates the required output buffer size to base64-encode
  * N bytes (equals BASE64ENC_BYTES + 1 byte for the zero terminator) */
 #define BASE64ENC_BUFSIZE(N) (1+BASE64ENC_BYTES(N))
 /* calculates number of bytes base64-decoding of a string of N bytes will
    take. */
-#define BASE64DEC_BYTES(N) ((N/4)*3)
+#define BASE64DEC_BYTES(N) (((N)/4)*3)
 /* bytes required for base64 decoded output from an input string of length N */
 #define BASE64DEC_BUFSIZE(N) (1+BASE64DEC_BYTES(N))
 
-- 
2.43.0


From 022a36f236c45037004d0adf25047614fd979f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:24 +0000
Subject: [PATCH 57/57] fix: BYTEM and BYTEL took bits given as an expression
 apart

---
 include/bitarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitarray.h b/include/bitarray.h
index 7c0ec85..33b69b4 100644
--- a/include/bitarray.h
+++ b/include/bitarray.h
@@ -13,8 +13,8 @@
 #include <stddef.h>
 #include <limits.h>
 
-#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
-#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
+#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
+#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
 
 #define BA_SIZE_REQUIRED(X) (((X) / CHAR_BIT) + !!((X) % CHAR_BIT))
 #define BA_TARGET_BYTE(X, Y) ((X) + ((Y) / CHAR_BIT))
-- 
2.43.0

