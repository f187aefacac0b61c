From 9cb7cfe70eda5d4da78714c7ccc8c5eef383ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 01/51] fix: sblist: grow by at least one item

With items bigger than a page and the default growth step, or a list
made by sblist_new_from_data(), the growth step was 0 and the next
append wrote past the end of the buffer.
---
 src/sblist/sblist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sblist/sblist.c b/src/sblist/sblist.c
index 4e1860f..a5c38a3 100644
--- a/src/sblist/sblist.c
+++ b/src/sblist/sblist.c
@@ -58,9 +58,11 @@ int sblist_set(sblist* l, void* item, size_t pos) {
 int sblist_grow_if_needed(sblist* l) {
 	char* temp;
 	if(l->count == l->capa) {
-		temp = realloc(l->items, (l->capa + l->blockitems) * l->itemsize);
+		size_t n = l->blockitems ? l->blockitems : MY_PAGE_SIZE / l->itemsize;
+		if(!n) n = 1;
+		temp = realloc(l->items, (l->capa + n) * l->itemsize);
 		if(!temp) return 0;
-		l->capa += l->blockitems;
+		l->capa += n;
 		l->items = temp;
 	}
 	return 1;
-- 
2.43.0


From ad07d39a4f77ef565ee0ff2ad745dd7cc5792c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 02/51] fix: sblist_insert: refuse a position past the end

The size of the memmove underflowed.
---
 src/sblist/sblist_insert.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sblist/sblist_insert.c b/src/sblist/sblist_insert.c
index 12fa07a..1a38d26 100644
--- a/src/sblist/sblist_insert.c
+++ b/src/sblist/sblist_insert.c
@@ -2,6 +2,7 @@
 #include <string.h>
 
 int sblist_insert(sblist* l, void* item, size_t pos) {
+	if(pos > sblist_getsize(l)) return 0;
 	if(!sblist_grow_if_needed(l)) return 0;
 	memmove(sblist_item_from_index(l, pos + 1), sblist_item_from_index(l, pos), (sblist_getsize(l) - pos) * l->itemsize);
 	l->count++;
-- 
2.43.0


From b14ef5839bccdf5c8fe08422a4eafb55d51fdfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 03/51] fix: sblist_free_values: free the stored pointers

It passed the addresses of the slots themselves to free().
---
 src/sblist/sblist_free_values.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sblist/sblist_free_values.c b/src/sblist/sblist_free_values.c
index 6b07e37..dda388d 100644
--- a/src/sblist/sblist_free_values.c
+++ b/src/sblist/sblist_free_values.c
@@ -4,5 +4,5 @@
 void sblist_free_values(sblist *l) {
 	size_t i;
 	for(i=0; i<sblist_getsize(l); i++)
-		free(sblist_get(l, i));
+		free(*(void**) sblist_get(l, i));
 }
-- 
2.43.0


From 2dd06a348e97b3ab36b5f678c6512040379ecfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:42 +0000
Subject: [PATCH 04/51] fix: hashlist_add: return -1 on failure as documented

It returned 1 if the bucket could not grow.
---
 src/hashlist/hashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist.c b/src/hashlist/hashlist.c
index 1129353..990bc8c 100644
--- a/src/hashlist/hashlist.c
+++ b/src/hashlist/hashlist.c
@@ -21,7 +21,7 @@ int hashlist_add(hashlist* h, uint32_t hash, void* value) {
 		h->buckets[dstbkt] = sblist_new(h->datasize, 8);
 		if(!h->buckets[dstbkt]) return -1;
 	}
-	return !sblist_add(h->buckets[dstbkt], value);
+	return sblist_add(h->buckets[dstbkt], value) ? 0 : -1;
 }
 
 /* return a sblist containing all values matching the hash, or NULL if not found */
-- 
2.43.0


From e74cedbc988dd03e09dc5e30f27d45e4447db29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:42 +0000
Subject: [PATCH 05/51] fix: hashlist_next: skip empty buckets

The iteration ended at the first bucket without values.
---
 src/hashlist/hashlist_iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist_iterator.c b/src/hashlist/hashlist_iterator.c
index 0edfa5f..5e28c01 100644
--- a/src/hashlist/hashlist_iterator.c
+++ b/src/hashlist/hashlist_iterator.c
@@ -19,7 +19,7 @@ void hashlist_iterator_init(hashlist_iterator* iter) {
 void* hashlist_next(hashlist* h, hashlist_iterator* iter) {
 	if(iter->bucket_iter.pos >= (ssize_t) h->bucketcount) return NULL;
 	iter->pos++;
-	if(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
+	while(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
 		iter->pos = 0;
 		if(!hashlist_bucket_next(h, &iter->bucket_iter)) return NULL;
 	}
-- 
2.43.0


From 0d38e299fcbf9ab2ac3899bc174da87af8c8ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:42 +0000
Subject: [PATCH 06/51] fix: tlist_get: return NULL for an index out of range

It returned an invalid pointer, or an item if only the low 32 bits of
the index were in range.
---
 src/tlist/tlist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 1ac4c09..379c723 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -126,6 +126,7 @@ size_t tlist_getsize(struct tlist* t) {
 }
 
 void* tlist_get(struct tlist* t, size_t idx) {
+	if(idx >= cnt (t->root)) return 0;
 	return data(getitem(t->root, idx, 0));
 }
 
-- 
2.43.0


From fc9d112428351e36552195002227ae8ace62c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:42 +0000
Subject: [PATCH 07/51] fix: tlist: the _deep functions free the stored pointer

They freed an address inside of the node.
---
 src/tlist/tlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 379c723..b8333fe 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -145,7 +145,7 @@ int tlist_append(struct tlist* t, void *value) {
 static int tlist_delete_impl(struct tlist *t, size_t idx, int deep) {
 	if(idx >= cnt (t->root)) return 0;
 	pitem it = getitem(t->root, idx, 0);
-	if(deep) free(data(it));
+	if(deep) free(*(void**) data(it));
 	remove(&t->root, idx, 0);
 	free(it);
 	return 1;
-- 
2.43.0


From 63d4b3d8ba447687302af8b6afd2f8803ecf7dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:52 +0000
Subject: [PATCH 08/51] fix: ssalloc: reuse freed elements of pools with less
 than 8 elements

The search for a free element covered no element at all.
---
 include/ssalloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index 455631d..188760d 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -83,9 +83,9 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 		return ssa_set(p, p->top - 1);
 	}
 	if(p->avail) {
-		for(b = 0; b < SSA_MAXELEM / TYPEBITS(SSA_COMPARETYPE); b++) {
+		for(b = 0; b * TYPEBITS(SSA_COMPARETYPE) < SSA_MAXELEM; b++) {
 			if(*((SSA_COMPARETYPE*)(p->used + (sizeof(SSA_COMPARETYPE) * b))) != SSA_COMPARETYPE_ALL_BITS_SET)
-				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1); i++)
+				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1) && i < SSA_MAXELEM; i++)
 					if(!BA_GET(p->used, i))
 						return ssa_set(p, i);
 		}
-- 
2.43.0


From 0dc2a407f479981abd689d8d0bdd509f412daac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:52 +0000
Subject: [PATCH 09/51] fix: ssa_free: ignore pointers below the pool

Only the index -1 was refused, others accessed memory before the bitmap.
---
 include/ssalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index 188760d..b324ff6 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -95,7 +95,7 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 
 static void ssa_free(ssa_pool* p, void* ptr) {
 	ssize_t idx;
-	if((idx = ssa_getidx(p, ptr)) == -1 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
+	if((idx = ssa_getidx(p, ptr)) < 0 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
 #ifdef DEBUG
 		abort();
 #else
-- 
2.43.0


From 45fdbb0ed55bef8738b17a79b254675a3c1ecfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:52 +0000
Subject: [PATCH 10/51] fix: guard_free: release the first page too if the size
 is a page multiple

guard_alloc() reserves 1+n/pagesize pages in front of the guard page.
---
 include/guard_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 49c91d8..12a2724 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -25,7 +25,7 @@ static void *guard_alloc(size_t n) {
 
 /* unlike regular free, you need to bookkeep the size originally used */
 static void guard_free(void* p, size_t n) {
-	size_t off = -n & (guard_alloc_pagesize-1);
+	size_t off = guard_alloc_pagesize - n % guard_alloc_pagesize;
 	char *mem = (void*)((uintptr_t)p - off);
 	munmap(mem, n + off + guard_alloc_pagesize);
 }
-- 
2.43.0


From d780a6602debe11db720deac69462de25479ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 11/51] fix: stringptr_here: no match at a position past the
 end

---
 src/stringptr/stringptr_here.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_here.c b/src/stringptr/stringptr_here.c
index 557bc7f..007adf3 100644
--- a/src/stringptr/stringptr_here.c
+++ b/src/stringptr/stringptr_here.c
@@ -2,7 +2,7 @@
 #include <string.h>
 
 int stringptr_here(stringptr* haystack, size_t bufpos, stringptr* needle) {
-	if(needle->size <= haystack->size - bufpos) {
+	if(bufpos <= haystack->size && needle->size <= haystack->size - bufpos) {
 		if(!memcmp(needle->ptr, haystack->ptr + bufpos, needle->size))
 			return 1;
 	}
-- 
2.43.0


From ecb0c6aeae5f228bbee8957b3b90803b8430cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 12/51] fix: stringptr_copy: return NULL if out of memory

---
 src/stringptr/stringptr_copy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringptr/stringptr_copy.c b/src/stringptr/stringptr_copy.c
index c019525..133d80c 100644
--- a/src/stringptr/stringptr_copy.c
+++ b/src/stringptr/stringptr_copy.c
@@ -4,6 +4,7 @@
 stringptr* stringptr_copy(stringptr* s) {
 	if(!s) return NULL;
 	stringptr* result = stringptr_new(s->size);
+	if(!result) return NULL;
 	memcpy(result->ptr, s->ptr, s->size);
 	return result;
 }
-- 
2.43.0


From 018844ce9bb36cf6dc9dbd60c9f423e71a7d753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 13/51] fix: stringptr_format: return NULL for an invalid
 format, without a leak

---
 src/stringptr/stringptr_format.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stringptr/stringptr_format.c b/src/stringptr/stringptr_format.c
index 42293a5..37cceac 100644
--- a/src/stringptr/stringptr_format.c
+++ b/src/stringptr/stringptr_format.c
@@ -5,11 +5,14 @@
 
 stringptr* stringptr_format(char* fmt, ...) {
 	const size_t BUF_SIZE = 1000;
+	if(!fmt) return NULL;
 	stringptr* result = stringptr_new(BUF_SIZE);
-	if(!result || !fmt) return NULL;
+	if(!result) return NULL;
 	va_list ap;
 	va_start(ap, fmt);
-	result->size = ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap);
+	ssize_t size = ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap);
 	va_end(ap);
+	if(size < 0) stringptr_free(result);
+	else result->size = size;
 	return result;
 }
-- 
2.43.0


From 50b3cce2562e490a0e3780a2202c3d9bc08969bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 14/51] fix: stringptr_fromfile: stop at end of file

---
 src/stringptr/stringptr_fromfile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stringptr/stringptr_fromfile.c b/src/stringptr/stringptr_fromfile.c
index 32a7f4a..9ab9fb9 100644
--- a/src/stringptr/stringptr_fromfile.c
+++ b/src/stringptr/stringptr_fromfile.c
@@ -29,6 +29,11 @@ stringptr* stringptr_fromfile(char* filename) {
 			buf = NULL;
 			goto FEXIT;
 		}
+		if(!bread) { // file is shorter than reported
+			buf->size = bufpos;
+			buf->ptr[bufpos] = 0;
+			break;
+		}
 		bufpos += bread;
 	}
 	FEXIT:
-- 
2.43.0


From da209cb271140a949848ff3be82ea52460acf9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 15/51] fix: stringptr_rchr: find bytes above 127

---
 src/stringptr/stringptr_rchr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_rchr.c b/src/stringptr/stringptr_rchr.c
index c55fb1a..8662baf 100644
--- a/src/stringptr/stringptr_rchr.c
+++ b/src/stringptr/stringptr_rchr.c
@@ -5,7 +5,7 @@ char* stringptr_rchr(stringptr* haystack, int needle) {
 	ssize_t i;
 	if(!haystack || !haystack->size) return NULL;
 	for(i = haystack->size - 1; i >= 0; i--) {
-		if(haystack->ptr[i] == needle)
+		if(haystack->ptr[i] == (char) needle)
 			return haystack->ptr + i;
 	}
 	return NULL;
-- 
2.43.0


From 808aae9f79217ddeb17e6267ea788b63640a152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 16/51] fix: stringptr_splitc: split at bytes above 127

---
 src/stringptrlist/stringptr_splitc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index 1d1f2b8..d65c1c6 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -11,7 +11,7 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 	if(!result) return NULL;
 
 	for(i=0;i<=buf->size;i++) {
-		if(i == buf->size || buf->ptr[i] == delim) {
+		if(i == buf->size || buf->ptr[i] == (char) delim) {
 			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
 			linestart = i+1;
 			buf->ptr[i] = 0;
-- 
2.43.0


From 9462a3dbb046c14959d06f80d8c7dae7e214c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 17/51] fix: read_stdin_line: chomp only removes a newline

---
 src/stringptr/read_stdin_line.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/read_stdin_line.c b/src/stringptr/read_stdin_line.c
index 0fb4baa..011e138 100644
--- a/src/stringptr/read_stdin_line.c
+++ b/src/stringptr/read_stdin_line.c
@@ -9,7 +9,7 @@ stringptr read_stdin_line(char* buf, size_t bufsize, int chomp) {
 	if((fgets_result = fgets(buf, bufsize, stdin))) {
 		stringptr line;
 		stringptr_fromchar(fgets_result, &line);
-		if(chomp) 
+		if(chomp && line.size && line.ptr[line.size - 1] == '\n')
 			stringptr_shiftleft(&line, 1); // remove trailing \n
 		return line;
 	}
-- 
2.43.0


From 99536242d1c79799f41069e5545419b4b1ccfd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 18/51] fix: strdup_n: copy len bytes and terminate

---
 src/strlib/strdup_n.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strdup_n.c b/src/strlib/strdup_n.c
index 5aa6e96..058f84a 100644
--- a/src/strlib/strdup_n.c
+++ b/src/strlib/strdup_n.c
@@ -5,8 +5,10 @@
 char* strdup_n(char* str, size_t len) {
 	if (!str || !len) return NULL;
 	char * res;
-	if((res = malloc(len + 1)))
-		memcpy(res, str, len + 1);
+	if((res = malloc(len + 1))) {
+		memcpy(res, str, len);
+		res[len] = 0;
+	}
 	return res;
 }
 
-- 
2.43.0


From e1ff227a158f211c22c9121ba3ef273774820e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 19/51] fix: stringptr_splitc, stringptr_splits: return NULL if
 out of memory

---
 src/stringptrlist/stringptr_splitc.c | 5 ++++-
 src/stringptrlist/stringptr_splits.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index d65c1c6..4b9dd5e 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -12,7 +12,10 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 
 	for(i=0;i<=buf->size;i++) {
 		if(i == buf->size || buf->ptr[i] == (char) delim) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i+1;
 			buf->ptr[i] = 0;
 		}
diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 024bb1b..9015db8 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -13,7 +13,10 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	i = 0;
 	while(i<=buf->size) {
 		if(i == buf->size || stringptr_here(buf, i, delim)) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
 			i += delim->size;
-- 
2.43.0


From b9da77351d0245853e9c94e7ee22bcf0ddd54043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 20/51] fix: stringptr_replace: free the whole list

---
 src/stringptrlist/stringptr_replace.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_replace.c b/src/stringptrlist/stringptr_replace.c
index e72bc08..6cf48ea 100644
--- a/src/stringptrlist/stringptr_replace.c
+++ b/src/stringptrlist/stringptr_replace.c
@@ -7,7 +7,10 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 	size_t i, w;
 	if((l = stringptr_splits(buf, what))) {
 		result = stringptr_new(buf->size - ((stringptrlist_getsize(l) - 1) * what->size) + ((stringptrlist_getsize(l) - 1) * whit->size));
-		if(!result) return NULL;
+		if(!result) {
+			stringptrlist_free(l);
+			return NULL;
+		}
 		w = 0;
 		for(i = 0; i < stringptrlist_getsize(l); i++) {
 			if((temp = stringptrlist_get(l, i))) {
@@ -21,7 +24,7 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 				}
 			}
 		}
-		free(l);
+		stringptrlist_free(l);
 	}
 	return result;
 }
-- 
2.43.0


From 2094f24afcbd456084021a18c02d177b723a8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 21/51] fix: stringptrlist_add_strdup: no leak if the list
 cannot grow

---
 src/stringptrlist/stringptrlist_add_strdup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptrlist_add_strdup.c b/src/stringptrlist/stringptrlist_add_strdup.c
index 3fc57a7..c926d5f 100644
--- a/src/stringptrlist/stringptrlist_add_strdup.c
+++ b/src/stringptrlist/stringptrlist_add_strdup.c
@@ -3,5 +3,7 @@
 int stringptrlist_add_strdup(stringptrlist* l, stringptr* s) {
 	char* nu = stringptr_strdup(s);
 	if(!nu) return 0;
-	return stringptrlist_add(l, nu, stringptr_getsize(s));
+	if(stringptrlist_add(l, nu, stringptr_getsize(s))) return 1;
+	free(nu);
+	return 0;
 }
-- 
2.43.0


From bc0e617f68ee3317bdb23fa1be3338120b1daa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 22/51] fix: stringptrlist_fromfile: read empty lines, report
 failures

---
 src/stringptrlist/stringptrlist_fromfile.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stringptrlist/stringptrlist_fromfile.c b/src/stringptrlist/stringptrlist_fromfile.c
index 9614b87..b72e6b0 100644
--- a/src/stringptrlist/stringptrlist_fromfile.c
+++ b/src/stringptrlist/stringptrlist_fromfile.c
@@ -4,12 +4,13 @@
 int stringptrlist_fromfile(stringptrlist* l, const char* fn) {
 	fileparser f;
 	stringptr line;
-	int success = 0;
+	int success = 0, ret;
 	if(fileparser_open(&f, fn)) goto err;
-	while(!fileparser_readline(&f) && !fileparser_getline(&f, &line) && line.size) {
+	while(!(ret = fileparser_readline(&f))) {
+		fileparser_getline(&f, &line);
 		if(!stringptrlist_add_strdup(l, &line)) goto ferr;
 	}
-	success = 1;
+	success = (ret == -2); // end of file
 	ferr:
 	fileparser_close(&f);
 	err:
-- 
2.43.0


From 10717ad32112f97492fa005adbd21c6dc732d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 23/51] fix: fileparser_readline: a short read is not the end
 of a line

---
 src/fileparser/fileparser_readline_userbuf.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fileparser/fileparser_readline_userbuf.c b/src/fileparser/fileparser_readline_userbuf.c
index 9596076..3042c35 100644
--- a/src/fileparser/fileparser_readline_userbuf.c
+++ b/src/fileparser/fileparser_readline_userbuf.c
@@ -2,12 +2,17 @@
 
 int fileparser_readline_userbuf(fileparser* parser, char* buf, size_t bufsize) {
 	size_t i;
-	size_t found = 0;
-	ssize_t ret;
+	size_t found = 0, len = 0;
+	ssize_t ret = 0;
 	if(!parser || !parser->file) return -1;
-	if(!(ret = read(parser->file, buf, bufsize))) return -2;
-	if(ret == -1) return errno;
-	parser->len = (size_t) ret;
+	while(len < bufsize && (ret = read(parser->file, buf + len, bufsize - len)) > 0) len += ret;
+	if(ret == -1) {
+		ret = errno;
+		lseek(parser->file, (off_t) parser->fpos, SEEK_SET);
+		return ret;
+	}
+	if(!len) return -2;
+	parser->len = len;
 	for(i = 0; i < parser->len; i++) {
 		if(buf[i] == '\n') {
 			found = 1;
-- 
2.43.0


From f71e5fc52ca62fa88925d56a903b53fc04b03d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 24/51] fix: fileparser_getnextlinelength: last line of a
 multiple of 1024 bytes, keep position on failure

---
 src/fileparser/fileparser_getnextlinelength.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fileparser/fileparser_getnextlinelength.c b/src/fileparser/fileparser_getnextlinelength.c
index 497316a..c958ac0 100644
--- a/src/fileparser/fileparser_getnextlinelength.c
+++ b/src/fileparser/fileparser_getnextlinelength.c
@@ -7,12 +7,12 @@ ssize_t fileparser_getnextlinelength(fileparser* parser) {
 	while((ret = fileparser_readline(parser)) == -3) {
 		res += sizeof(parser->buf);
 		parser->fpos += sizeof(parser->buf);
-		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) break;
 	}
-	if(ret != 0) return -1;
-	res += parser->len;
+	if(ret == 0) res += parser->len;
+	else if(ret == -2 && res) ret = 0; // the last line ended with the buffer
 	parser->fpos = store_fpos;
 	if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
-	return res;
+	return ret ? -1 : (ssize_t) res;
 }
 
-- 
2.43.0


From 339e2b0537afa999e51e393f1dede7c626e48fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 25/51] fix: getFileExt: return NULL if there is no dot

---
 src/filelib/getfileext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelib/getfileext.c b/src/filelib/getfileext.c
index de63e9f..783dc3b 100644
--- a/src/filelib/getfileext.c
+++ b/src/filelib/getfileext.c
@@ -2,7 +2,7 @@
 
 char* getFileExt(const char* filename, size_t fnlen) {
 	char* p = (char*) filename + fnlen;
-	while(p - 1 > filename && p[-1] != '.') p--;
+	while(p > filename && p[-1] != '.') p--;
 	if(p > filename) return p;
 	else return NULL;
 }
-- 
2.43.0


From bfcc5109afca9bdd72e6d278edde34fe08659c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 26/51] fix: getpathdiff: fail if the second path is not below
 the first

---
 src/filelib/getpathdiff.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/filelib/getpathdiff.c b/src/filelib/getpathdiff.c
index 8ac70ed..31c17e8 100644
--- a/src/filelib/getpathdiff.c
+++ b/src/filelib/getpathdiff.c
@@ -8,8 +8,7 @@
 // workbuf should be at least as big as path2, but not longer than PATH_MAX.
 // all returned results start with /
 ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
-	normalizepath(path1);
-	normalizepath(path2);
+	if(!normalizepath(path1) || !normalizepath(path2)) return -1;
 	// special case : / is the only case where the end of the string is /
 	int isRoot = 0;
 	if(path1->size == 1) {
@@ -17,9 +16,9 @@ ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
 		isRoot = 1;
 	}
 	ssize_t result = path2->size - path1->size;
-	if(result < 0) return -1;
+	if(result < 0 || memcmp(path1->ptr, path2->ptr, path1->size)) return -1;
 	if(result) {
-		if(memcmp(path1->ptr, path2->ptr, path1->size)) return -1;
+		if(path2->ptr[path1->size] != '/') return -1;
 		memcpy(workbuf, path2->ptr + path1->size, result);
 	}
 	workbuf[result] = 0;
-- 
2.43.0


From bca403d4ab93aabc2d722d2417f3c2f379e42961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 27/51] fix: normalizepath: fail if the path does not fit the
 buffer

---
 src/filelib/normalizepath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelib/normalizepath.c b/src/filelib/normalizepath.c
index 1858e0e..85d9b89 100644
--- a/src/filelib/normalizepath.c
+++ b/src/filelib/normalizepath.c
@@ -14,7 +14,7 @@ int normalizepath(stringptr* path) {
 	char* tmp;
 	out.ptr = buf;
 	out.size = 0;
-	if(!path->size || path->ptr[0] != '/') goto fail;
+	if(!path->size || path->size >= sizeof(buf) || path->ptr[0] != '/') goto fail;
 	for(i = 0; i < path->size; i++) {
 		switch(path->ptr[i]) {
 			case '/':
-- 
2.43.0


From f37934bbc7c7484cf5271a23f5e75dc16fb83eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 28/51] fix: bmap_insert: return -1 if the value cannot be
 inserted

---
 include/bmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bmap.h b/include/bmap.h
index 86da54a..e066a6d 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -137,7 +137,7 @@ static inline void* bmap_new(bmap_compare_func fn) {
 #define bmap_insert(X, KEY, VAL) ( \
 		( (X)->tmp.ss = bmap_find(X, KEY) ) \
 		== (ssize_t) -1 ? bmap_insert_nocheck(X, KEY, VAL) : \
-		bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss \
+		( bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss ) \
 	)
 
 #define bmap_delete(X, POS) ( \
-- 
2.43.0


From e3ca8adf7293b4eb0ab13db995b7a3fc9e6eb3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 29/51] fix: filelist_search: escape backslashes in the
 directory name

---
 src/filelist/filelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index d0de34c..5232fab 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -13,7 +13,7 @@ static size_t cpystr_escape(char *out, const char *in, size_t in_size)
 {
 	size_t out_size = 0;
 	while(in_size && out_size + 2 < PATH_MAX) {
-		if(*in == '[' || *in == '?' || *in == '*') {
+		if(*in == '[' || *in == '?' || *in == '*' || *in == '\\') {
 			*(out++) = '\\';
 			out_size++;
 		}
-- 
2.43.0


From 2337443bace0d8d5b09b6a5942955110a52ce9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 30/51] fix: filelist_search: report and free everything if out
 of memory

---
 src/filelist/filelist.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 5232fab..df65372 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -55,14 +55,15 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	if((ret = glob(buf, defaultflags | GLOB_MARK, NULL, &l->pglob))) return ret;
 	if(!(l->files = stringptrlist_new(l->pglob.gl_pathc))) {
 		err:
+		if(l->files) stringptrlist_free(l->files);
 		globfree(&l->pglob);
 		return -1;
 	}
 	if(!(flags & FLF_INCLUDE_HIDDEN)) {
 		// the strings in the filelist are managed by glob, we dont free them ourselves.
 		// so its save to add string literals.
-		if(flags & FLF_INCLUDE_DOT) stringptrlist_add(l->files, "./", 2);
-		if(flags & FLF_INCLUDE_DOT_DOT) stringptrlist_add(l->files, "../", 3);
+		if((flags & FLF_INCLUDE_DOT) && !stringptrlist_add(l->files, "./", 2)) goto err;
+		if((flags & FLF_INCLUDE_DOT_DOT) && !stringptrlist_add(l->files, "../", 3)) goto err;
 	}
 	for(i = 0; i < l->pglob.gl_pathc; i++) {
 		s->ptr = l->pglob.gl_pathv[i];
@@ -103,10 +104,7 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 				) continue;
 			}
 		}
-		if(!stringptrlist_add(l->files, s->ptr, s->size)) {
-			free(l->files);
-			goto err;
-		}
+		if(!stringptrlist_add(l->files, s->ptr, s->size)) goto err;
 	}
 	return 0;
 }
-- 
2.43.0


From 8f7a582306ac5500f467cbca2e00ef4058b15a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 31/51] fix: ulz_vsnprintf: write nothing if destsize is 0

---
 src/format/ulz_vsnprintf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 0c34258..b4ea1a6 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -106,6 +106,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 			} else if(!o) res++;
 		}
 	}
-	if(o) o[0] = 0;
+	if(o && destsize) o[0] = 0;
 	return res;
 }
-- 
2.43.0


From 5efd4180217e4dad2b76f7d6d63fdb9181bca65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 32/51] fix: ulz_vsnprintf: precision of several digits, or
 less than the number needs

---
 src/format/ulz_vsnprintf.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index b4ea1a6..daf1584 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -17,6 +17,7 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 	unsigned int base = 10;
 	for(a = (char*)format; *a; a++) {
 		if(*a == '%') {
+			width = 0;
 			checkmod:
 			++a;
 			switch(*a) {
@@ -31,7 +32,10 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 						return -1;
 					}
 					width = 0;
-					for(j = 0; j < i; j++) width += (a[j] - '0') * (j ? (10 * (i - 1 - j)) : 1);
+					for(j = 0; j < i; j++) {
+						width = width * 10 + (a[j] - '0');
+						if(width > sizeof(cbuf) - 2) goto fail;
+					}
 					a += i - 1;
 					goto checkmod;
 				case 's':
@@ -57,9 +61,9 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					intstart:
 					inn = va_arg(ap, int);
 					nconv:
-					if(width) nflags |= NTS_PAD;
-					ins = numberToString(inn, base, cbuf, width, nflags);
-					width = 0;
+					ins = numberToString(inn, base, cbuf, 0, nflags);
+					if(strlen(ins) - (*ins == '-') < width)
+						ins = numberToString(inn, base, cbuf, width, nflags | NTS_PAD);
 					base = 10;
 					goto strmove;
 					break;
-- 
2.43.0


From 3e22544a88d64c6d7ab223ce4c3936f20d2faf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 33/51] fix: ulz_vsnprintf: %x of values above INT_MAX

---
 src/format/ulz_vsnprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index daf1584..a76b142 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -58,7 +58,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					goto strmove;
 				case 'd':
 					nflags = NTS_SIGNED_TYPE;
-					intstart:
 					inn = va_arg(ap, int);
 					nconv:
 					ins = numberToString(inn, base, cbuf, 0, nflags);
@@ -97,7 +96,8 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 				case 'x': case 'X':
 					base = 16;
 					nflags = (*a == 'x') ? NTS_LOWERCASE_CHARS : 0;
-					goto intstart;
+					inn = va_arg(ap, unsigned);
+					goto nconv;
 				default:
 					goto fail;
 			}
-- 
2.43.0


From 04aa873985a5846dc0868af933fb454b8611662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 34/51] fix: ulz_vsnprintf: %c of a zero byte

---
 src/format/ulz_vsnprintf.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index a76b142..c381c98 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -53,9 +53,12 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					break;
 				case 'c':
 					cbuf[0] = (unsigned char) va_arg(ap, int);
-					cbuf[1] = 0;
-					ins = cbuf;
-					goto strmove;
+					if(o < omax) {
+						*o = cbuf[0];
+						o++;
+						res++;
+					} else if (!o) res++;
+					break;
 				case 'd':
 					nflags = NTS_SIGNED_TYPE;
 					inn = va_arg(ap, int);
-- 
2.43.0


From b5653f6389dd09871a5e44f00657bc847a9cfa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 35/51] fix: ulz_printf, ulz_fprintf: write nothing if the
 format is invalid

---
 src/format/ulz_fprintf.c | 2 +-
 src/format/ulz_printf.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_fprintf.c b/src/format/ulz_fprintf.c
index ae605f7..708e68e 100644
--- a/src/format/ulz_fprintf.c
+++ b/src/format/ulz_fprintf.c
@@ -9,7 +9,7 @@ void ulz_fprintf(int fd, const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(fd, dest, result);
 	}
 }
diff --git a/src/format/ulz_printf.c b/src/format/ulz_printf.c
index bc3f342..0b1c5dd 100644
--- a/src/format/ulz_printf.c
+++ b/src/format/ulz_printf.c
@@ -9,7 +9,7 @@ void ulz_printf(const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(1, dest, result);
 	}
 }
-- 
2.43.0


From b67f268054590ea141d9a04ca6648a4c382b3da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 36/51] fix: numberToString: pad only if NTS_PAD is set

---
 src/strlib/numberToString.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index a8e6689..0020f75 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -37,7 +37,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	for(i = 0; i < len; i++) result[i] = '0';
 	result[len] = 0;
 	if(!number) {
-		if(!flags & NTS_PAD) result += len - 1;
+		if(!(flags & NTS_PAD)) result += len - 1;
 		return result;
 	}
 
@@ -52,7 +52,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 		len -= 1;
 		number /= base;
 	}
-	if (!flags & NTS_PAD) {
+	if (!(flags & NTS_PAD)) {
 		for (i = 0; i < tmp; i++) {
 			if (result[i] == '0') shr ++;
 			else break;
-- 
2.43.0


From 1debd7ee25e6d24b50e8e44e5f76422503f553f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 37/51] fix: itoa: INT_MIN

---
 src/strlib/itoa.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/strlib/itoa.c b/src/strlib/itoa.c
index 45e2014..1cca52f 100644
--- a/src/strlib/itoa.c
+++ b/src/strlib/itoa.c
@@ -8,11 +8,12 @@
   this function deliberately doesn't use pointer arithmetic
   because it was written for agscc originally. */
 
-char *itoa(int number, char* buffer) {
-	int lentest, len = 0, i, start;
+char *itoa(int value, char* buffer) {
+	int len = 0, i, start;
+	unsigned lentest, number = value;
 
-	if(number >> 31) {
-		number = number * -1;
+	if(value < 0) {
+		number = 0 - number;
 		buffer[0] = '-';
 		start = 1;
 	} else
-- 
2.43.0


From 0fd46ffc99e9d47ce05e77fef8948b0ea38cd3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 38/51] fix: utoa: values above INT_MAX

---
 src/strlib/utoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strlib/utoa.c b/src/strlib/utoa.c
index 036984d..8529e69 100644
--- a/src/strlib/utoa.c
+++ b/src/strlib/utoa.c
@@ -9,7 +9,8 @@
   because it was written for agscc originally. */
 
 char *utoa(unsigned number, char* buffer) {
-	int lentest, len = 0, i, start = 0;
+	int len = 0, i, start = 0;
+	unsigned lentest;
 
 	lentest = number;
 	do {
-- 
2.43.0


From 6c49e08e377660fcf1816a65173ae82a37dd0e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 39/51] fix: isnumericipv4: refuse a trailing dot

---
 src/strlib/isnumericipv4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/isnumericipv4.c b/src/strlib/isnumericipv4.c
index c6280d4..ddaf683 100644
--- a/src/strlib/isnumericipv4.c
+++ b/src/strlib/isnumericipv4.c
@@ -22,7 +22,7 @@ int isnumericipv4(const char* ipstring) {
 		x++;
 	}
 	done:
-	if(d == 3 && n >= 4 && n <= 12) return 1;
+	if(d == 3 && !wasdot && n >= 4 && n <= 12) return 1;
 	return 0;
 }
 
-- 
2.43.0


From 4cb3ad05eb41fc951db91991fe4dc595b7d941ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 40/51] fix: strstr_uc, strstar: do not miss a match
 overlapping a partial match

---
 src/strlib/strstar.c   | 2 +-
 src/strlib/strstr_uc.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strstar.c b/src/strlib/strstar.c
index 6b5165d..dfda983 100644
--- a/src/strlib/strstar.c
+++ b/src/strlib/strstar.c
@@ -13,7 +13,7 @@ char* strstar(const char* haystack, const char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
diff --git a/src/strlib/strstr_uc.c b/src/strlib/strstr_uc.c
index 37e2d76..667fb48 100644
--- a/src/strlib/strstr_uc.c
+++ b/src/strlib/strstr_uc.c
@@ -18,7 +18,7 @@ char* strstr_uc(char* haystack, char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
-- 
2.43.0


From 25bf1b742fd2598fef0c0ab385e8c118a08fff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 41/51] fix: findword: only the start of the text starts a word

---
 src/strlib/findword.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/findword.c b/src/strlib/findword.c
index 00e0806..c68d207 100644
--- a/src/strlib/findword.c
+++ b/src/strlib/findword.c
@@ -21,9 +21,9 @@ static inline int isTrailingWhitespace(char c) {
 }
 
 char* findword(char* buf, char* word_uc, size_t word_len) {
-	char* res = buf;
+	char* res = buf, *start = buf;
 	while(*res && (res = strstr_uc(buf, word_uc, word_len))) {
-		if((res == buf || isLeadingWhitespace(res[-1])) &&
+		if((res == start || isLeadingWhitespace(res[-1])) &&
 		   (res[word_len] == 0 || isTrailingWhitespace(res[word_len])))
 			return res;
 		else buf = res + 1;
-- 
2.43.0


From e1aeb7edc3c0b4ecfe85951691027baff4576a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 42/51] fix: process_open: keep our pipe ends out of other
 children

---
 src/proclib/process.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index e471ea9..ebaf93f 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -43,6 +43,9 @@ int process_open(struct process *p, char* const argv[]) {
 	for(i=0; i<3; ++i)
 		close(pipes[i][pipeends[i]]);
 
+	/* don't leak our ends into other children */
+	for(i=0; i<3; ++i) fcntl(p->fds[i], F_SETFD, FD_CLOEXEC);
+
 	return 0;
 }
 
-- 
2.43.0


From 47bf5db0936c0ac8e3f61abb7f18391d4308affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 43/51] fix: process_close: retry if interrupted by a signal

---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index ebaf93f..72792dc 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -53,7 +53,7 @@ int process_open(struct process *p, char* const argv[]) {
 int process_close(struct process *p) {
 	int i, retval;
 	for(i=0; i<3; ++i) close(p->fds[i]);
-	waitpid(p->pid, &retval, 0);
+	while(waitpid(p->pid, &retval, 0) == -1 && errno == EINTR);
 	posix_spawn_file_actions_destroy(&p->fa);
 	return WEXITSTATUS(retval);
 }
-- 
2.43.0


From 7f6d8f192a387d447ac5f60243e5b4d9b2cfc361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:39 +0000
Subject: [PATCH 44/51] fix: process_open: don't destroy file actions which
 were not initialized

---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index 72792dc..844002f 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -9,7 +9,7 @@ int process_open(struct process *p, char* const argv[]) {
 	int pipes[3][2] = {0}, i,j;
 
 	errno = posix_spawn_file_actions_init(&p->fa);
-	if(errno) goto spawn_error;
+	if(errno) return -1;
 
 	for(i=0; i<3; ++i) {
 		errno = posix_spawn_file_actions_addclose(&p->fa, i);
-- 
2.43.0


From 93c36a8400f01942c8b1c43a45c8a41716ffccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 45/51] fix: filelist_search: don't use the default directory's
 literal after its scope

---
 src/filelist/filelist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index df65372..b250c0e 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -35,11 +35,11 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	char *o;
 	int ret;
 	size_t i;
-	stringptr temp, *s = &temp;
+	stringptr temp, *s = &temp, cwd = SPINITIALIZER("./");
 	int isdir;
 	int defaultflags = (flags & FLF_INCLUDE_HIDDEN) ? GLOB_PERIOD : 0;
 
-	if(!dir || !dir->size) dir = SPL("./");
+	if(!dir || !dir->size) dir = &cwd;
 
 	if(!l || !mask || !mask->size || mask->size + dir->size + (dir->ptr[dir->size -1] != '/') + 1U > sizeof(buf)) return -1;
 	i = cpystr_escape(buf, dir->ptr, dir->size);
-- 
2.43.0


From c14652d3fdbe8d75c3b0be328c99a8fec9de62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 46/51] fix: bmap_delete: evaluate the position once

---
 include/bmap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bmap.h b/include/bmap.h
index e066a6d..0acee89 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -142,8 +142,8 @@ static inline void* bmap_new(bmap_compare_func fn) {
 
 #define bmap_delete(X, POS) ( \
 	(X)->tmp.ss = POS, \
-	tglist_delete(&(X)->keys, POS), \
-	bmap_cat(VAL_LIST_TYPE, _delete)(&(X)->values, POS) \
+	tglist_delete(&(X)->keys, (X)->tmp.ss), \
+	bmap_cat(VAL_LIST_TYPE, _delete)(&(X)->values, (X)->tmp.ss) \
 	)
 
 static ssize_t bmap_find_impl(void* bm, const void* key, size_t keysize) {
-- 
2.43.0


From 53e385405c1e6ed3c05b0c636b93b758bd58d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 47/51] fix: hbmap_delete: evaluate the iterator once

---
 include/hbmap.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hbmap.h b/include/hbmap.h
index 6f01369..f740544 100644
--- a/include/hbmap.h
+++ b/include/hbmap.h
@@ -167,6 +167,7 @@ static hbmap_iter hbmap_next_valid_impl(void *h, hbmap_iter iter, size_t nbucks)
 	)
 
 #define hbmap_delete(X, ITER) ( \
-	bmap_delete(&(X)->buckets[hbmap_iter_bucket(ITER)], hbmap_iter_index(ITER)), 1)
+	(X)->tmp.it = ITER, \
+	bmap_delete(&(X)->buckets[hbmap_iter_bucket((X)->tmp.it)], hbmap_iter_index((X)->tmp.it)), 1)
 
 #endif
-- 
2.43.0


From d5f92d9ebb0083b04b0b1e75c21ca8407acbbd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:40 +0000
Subject: [PATCH 48/51] fix: BYTEM, BYTEL: parenthesise the arguments

---
 include/bitarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitarray.h b/include/bitarray.h
index 7c0ec85..33b69b4 100644
--- a/include/bitarray.h
+++ b/include/bitarray.h
@@ -13,8 +13,8 @@
 #include <stddef.h>
 #include <limits.h>
 
-#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
-#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
+#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
+#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
 
 #define BA_SIZE_REQUIRED(X) (((X) / CHAR_BIT) + !!((X) % CHAR_BIT))
 #define BA_TARGET_BYTE(X, Y) ((X) + ((Y) / CHAR_BIT))
-- 
2.43.0


From 42ca11d94b5b469b082ff8bfd5ccc64c15f395f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:38 +0000
Subject: [PATCH 49/51] fix: op_get: compare the option name by its length

---
 src/optparser/op_get.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optparser/op_get.c b/src/optparser/op_get.c
index f813fc7..cdceb06 100644
--- a/src/optparser/op_get.c
+++ b/src/optparser/op_get.c
@@ -22,7 +22,7 @@ char* op_get(op_state* p, stringptr* arg) {
 			l = strleneq(s);
 			if(l == arg->size && !memcmp(arg->ptr, s, l))
 				return s + l + 1;
-			else if(!l && !strcmp(arg->ptr, s) && i+1 < p->argc)
+			else if(!l && strlen(s) == arg->size && !memcmp(arg->ptr, s, arg->size) && i+1 < p->argc)
 				return p->argv[i+1];
 		}
 	}
-- 
2.43.0


From a2668c3076de4a9fc4f2a4e02f2dc1ada46f9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:01 +0000
Subject: [PATCH 50/51] fix: stdio-repl.h: puts ends the line

---
 include/stdio-repl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdio-repl.h b/include/stdio-repl.h
index 029dac2..80abdd7 100644
--- a/include/stdio-repl.h
+++ b/include/stdio-repl.h
@@ -44,6 +44,6 @@
 #define dprintf(...) ulz_fprintf(__VA_ARGS__)
 
 #define perror(x) log_puterror(2, x)
-#define puts(x) log_putc(1, x)
+#define puts(x) (log_putc(1, x), log_putln(1))
 
 #endif
-- 
2.43.0


From 14b7bc0c6a7ecec2ea369ae5174dcf86c7a4b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:01 +0000
Subject: [PATCH 51/51] fix: stringptrlist_insert, stringptrlist_insert_sorted:
 usable as expressions

---
 include/stringptrlist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stringptrlist.h b/include/stringptrlist.h
index ae2e46a..b076857 100644
--- a/include/stringptrlist.h
+++ b/include/stringptrlist.h
@@ -33,11 +33,11 @@ int stringptrlist_add_strdup(stringptrlist* l, stringptr* s);
 #define stringptrlist_empty(X) sblist_empty(X)
 
 #define stringptrlist_insert(list, pos, charptr, len) \
-        sblist_insert(list, SPMAKE((charptr), (len)), pos);
+        sblist_insert((list), SPMAKE((charptr), (len)), (pos))
 /* insert element into presorted list, returns listindex of new entry or -1 */
 /* cmp is a comparefunc using the same signature as the one used by qsort */
 #define stringptrlist_insert_sorted(list, charptr, len, cmp) \
-        sblist_insert_sorted(list, SPMAKE((charptr), (len)), cmp);
+        sblist_insert_sorted((list), SPMAKE((charptr), (len)), (cmp))
 
 
 /* parses lines of a stringptr.
-- 
2.43.0

