From e919acfc3f79d8445947fb76066ff7347923eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:34 +0000
Subject: [PATCH 01/95] fix: list walkexts reported sizeof(Object) per slot, so
 the collector over-read the item array

---
 src/lib/objects/o_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 84af9c2..361b6bf 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -198,7 +198,7 @@ static void walkexts(Object *self, void (*callback)(void **referer, unsigned int
 {
 	ListObject *list = (ListObject*) self;
 	
-	callback((void**) &list->vals, sizeof(Object) * list->capacity, userp);
+	callback((void**) &list->vals, sizeof(Object*) * list->capacity, userp);
 }
 
 static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
-- 
2.43.0


From bf2968db2633767fb199a73ab9e8e79ff3554ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:34 +0000
Subject: [PATCH 02/95] fix: map growth used a signed probe sequence, losing
 (or looping on) keys with a negative hash

---
 src/lib/objects/o_map.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index a57f97c..22c8942 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -296,10 +296,13 @@ static _Bool grow(MapObject *map, Heap *heap, Error *error)
 		// This won't trigger an error because the key
 		// surely has a hash method since we already
 		// hashed it once.
-		int hash = Object_Hash(keys[i]);
+		// NOTE: The probe sequence must be the same as 
+		//       the one used by select and insert, which
+		//       rely on unsigned arithmetic.
+		unsigned int hash = Object_Hash(keys[i]);
 
-		int mask = new_mapper_size - 1;
-		int pert = hash;
+		unsigned int mask = new_mapper_size - 1;
+		unsigned int pert = hash;
 			
 		int j = hash & mask;
 
-- 
2.43.0


From 5799bac9aa3cf873f31efc566fffe3f41c6f44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:51 +0000
Subject: [PATCH 03/95] fix: hashing an object with no hash method (function,
 type, buffer, file as map key) called a NULL pointer

---
 src/lib/objects/objects.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 53bb360..c1cf7e7 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -109,7 +109,14 @@ int Object_Hash(Object *obj)
 {
 	ASSERT(obj != NULL);
 	const TypeObject *type = Object_GetType(obj);
-	ASSERT(type != NULL && type->hash != NULL);
+	ASSERT(type != NULL);
+
+	// Objects which aren't hashable can't be copied
+	// either, so they're refused when inserted into
+	// a map. They all share the same hash.
+	if(type->hash == NULL)
+		return 0;
+
 	return type->hash(obj);
 }
 
-- 
2.43.0


From 51b77c2ee0f4d15bcfe9f4baa6a6a47cae4faa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 04/95] fix: signed overflow when summing the hashes of a
 list's or map's items

---
 src/lib/objects/o_list.c | 3 ++-
 src/lib/objects/o_map.c  | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 361b6bf..f80e074 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -111,7 +111,8 @@ static int hash(Object *self)
 
 	ListObject *ls = (ListObject*) self;
 
-	int h = 0;
+	// NOTE: Unsigned since the sum may overflow.
+	unsigned int h = 0;
 	// The hash is the sum of the nested
 	// hashes. It's not a smart solution
 	// but it works for now.
diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index 22c8942..c379ecd 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -138,12 +138,13 @@ static int hash(Object *self)
 {
 	MapObject *m = (MapObject*) self;
 
-	int h = 0;
+	// NOTE: Unsigned since the sum may overflow.
+	unsigned int h = 0;
 	// The hash of the map is the sum of the
 	// hashes of each key and each item.
 	for(int i = 0; i < m->count; i += 1)
-		h += Object_Hash(m->keys[i])
-		   + Object_Hash(m->vals[i]);
+		h += (unsigned int) Object_Hash(m->keys[i])
+		   + (unsigned int) Object_Hash(m->vals[i]);
 	return h;
 }
 
-- 
2.43.0


From cf86264bfef4ccb0fd6f8eec3bced7d89768dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:03 +0000
Subject: [PATCH 05/95] fix: 0.0 and -0.0 are equal but had different hashes,
 so map lookups could miss

---
 src/lib/objects/o_float.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/o_float.c b/src/lib/objects/o_float.c
index 567b2a2..7d0c177 100644
--- a/src/lib/objects/o_float.c
+++ b/src/lib/objects/o_float.c
@@ -61,7 +61,11 @@ static int hash(Object *self)
 
 	FloatObject *iobj = (FloatObject*) self;
 
-	return hashbytes((unsigned char*) &iobj->val, sizeof(iobj->val));
+	// NOTE: -0.0 and 0.0 compare equal, so they must
+	//       have the same hash.
+	double val = iobj->val == 0.0 ? 0.0 : iobj->val;
+
+	return hashbytes((unsigned char*) &val, sizeof(val));
 }
 
 static Object *copy(Object *self, Heap *heap, Error *err)
-- 
2.43.0


From c4e01a1790b6d8a55f0c7b5f87e2f86896b6bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 06/95] fix: string equality ignored everything after a NUL
 character

---
 src/lib/objects/o_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index d774c01..2bd7d35 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -212,7 +212,7 @@ static _Bool op_eql(Object *self, Object *other)
 	StringObject *s1 = (StringObject*) self;
 	StringObject *s2 = (StringObject*) other;
 
-	_Bool match = s1->bytes == s2->bytes && !strncmp(s1->body, s2->body, s1->bytes);
+	_Bool match = s1->bytes == s2->bytes && !memcmp(s1->body, s2->body, s1->bytes);
 
 	return match;
 }
-- 
2.43.0


From f42ac9157f91e2e75e1f686f2931aae68934a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 07/95] fix: printing a string stopped at its first NUL
 character

---
 src/lib/objects/o_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index 2bd7d35..3931efd 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -225,7 +225,7 @@ static void print(Object *obj, FILE *fp)
 
 	StringObject *str = (StringObject*) obj;
 
-	fprintf(fp, "%.*s", str->bytes, str->body);
+	fwrite(str->body, 1, str->bytes, fp);
 }
 
 static void walkexts(Object *self, void (*callback)(void **referer, unsigned int size, void *userp), void *userp)
-- 
2.43.0


From 0e56a4fe2cd7e55ee98fa8aebe3191fa642a890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:22 +0000
Subject: [PATCH 08/95] fix: indices of lists, strings and buffers were
 truncated to 32 bits (a[4294967296] aliased a[0])

---
 src/lib/objects/o_buffer.c | 4 ++--
 src/lib/objects/o_list.c   | 4 ++--
 src/lib/objects/o_string.c | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index 63744f8..b9ed1d0 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -191,7 +191,7 @@ static Object *buffer_select(Object *self, Object *key, Heap *heap, Error *error
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	BufferObject *buffer = (BufferObject*) self;
 
@@ -230,7 +230,7 @@ static _Bool buffer_insert(Object *self, Object *key, Object *val, Heap *heap, E
 		Error_Report(error, ErrorType_RUNTIME, "Non integer value");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 	long long int qword = Object_GetInt(val);
 	if(idx < 0 || (size_t) idx >= buffer->length)
 	{
diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index f80e074..b9f8611 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -217,7 +217,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	ListObject *list = (ListObject*) self;
 
@@ -271,7 +271,7 @@ static _Bool insert(Object *self, Object *key, Object *val, Heap *heap, Error *e
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	if(idx < 0 || idx > list->count)
 	{
diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index 3931efd..fdb0cb7 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -99,7 +99,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		Error_Report(error, ErrorType_RUNTIME, "Non integer key");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	StringObject *str = (StringObject*) self;
 
-- 
2.43.0


From b190130fc9723e1c7446d95a8a07b1266502d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:22 +0000
Subject: [PATCH 09/95] fix: slicing a buffer ignored the window of the sliced
 object and its range check could wrap around

---
 src/lib/objects/o_buffer.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index b9ed1d0..0d74d99 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -138,14 +138,17 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 		return NULL;
 	}
 
-	Payload *payload = ((BufferObject*) obj)->payload;
+	// NOTE: The object may itself be a slice, therefore
+	//       the range is relative to its own window.
+	BufferObject *buffer = (BufferObject*) obj;
+	Payload *payload = buffer->payload;
 
-	if(offset >= payload->size) {
+	if(offset >= buffer->length) {
 		Error_Report(error, ErrorType_RUNTIME, "Offset out of range");
 		return NULL;
 	}
 
-	if(offset + length > payload->size) {
+	if(length > buffer->length - offset) {
 		Error_Report(error, ErrorType_RUNTIME, "Length out of range");
 		return NULL;
 	}
@@ -156,7 +159,7 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 
 	payload->refs++;
 	slice->payload = payload;
-	slice->offset = offset;
+	slice->offset = buffer->offset + offset;
 	slice->length = length;
 
 	return (Object*) slice;
-- 
2.43.0


From 8b3fdfe9ba6965befa68117de0780532119c13fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:22 +0000
Subject: [PATCH 10/95] fix: buffer.new accepted negative sizes, corrupting
 memory

---
 src/lib/builtins/buffer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index f2d1e0c..3acc06a 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -17,6 +17,12 @@ static int bin_new(Runtime *runtime, Object **argv, unsigned int argc, Object *r
     
     long long int size = Object_GetInt(argv[0]);
 
+    if(size < 0)
+    {
+        Error_Report(error, ErrorType_RUNTIME, "Buffer size is negative");
+        return -1;
+    }
+
     Object *temp = Object_NewBuffer(size, Runtime_GetHeap(runtime), error);
     
     if(temp == NULL)
-- 
2.43.0


From ae11c9b1ae8e64a81744c932ee80514b1f6e19fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 11/95] fix: the buffer module table had no terminator, so
 looking up a missing member read past its end

---
 src/lib/builtins/buffer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index 3acc06a..0da2f37 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -101,4 +101,5 @@ StaticMapSlot bins_buffer[] = {
     { "sliceUp", SM_FUNCT, .as_funct = bin_sliceUp, .argc = 3 },
     { "toString",   SM_FUNCT, .as_funct = bin_toString,   .argc = 1 },
     { "fromString", SM_FUNCT, .as_funct = bin_fromString, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From deeb2b28df586cc4591e3283bc20e4d1ad930da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 12/95] fix: the string module table had no terminator, so
 looking up a missing member read past its end

---
 src/lib/builtins/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 8f1d53d..58c044b 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -272,4 +272,5 @@ StaticMapSlot bins_string[] = {
     { "trim", SM_FUNCT, .as_funct = bin_trim, .argc = 1 },
     { "slice", SM_FUNCT, .as_funct = bin_slice, .argc = 3 },
     { "toInt", SM_FUNCT, .as_funct = bin_toInt, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From e49bf86e62a91e6ae1010016c2a2672a7db2e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 13/95] fix: string.trim did not account for the leading spaces
 in the result's length and read past the string

---
 src/lib/builtins/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 58c044b..e2eea20 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -205,8 +205,10 @@ static int bin_trim(Runtime *runtime, Object **argv, unsigned int argc, Object *
     size_t offset = 0;
     size_t length = srclen;
 
-    while (offset < srclen && srcstr[offset] == ' ')
+    while (offset < srclen && srcstr[offset] == ' ') {
         offset++;
+        length--;
+    }
 
     Heap *heap = Runtime_GetHeap(runtime);
 
-- 
2.43.0


From 7e85a6152974706f1f8feb7a4b4b284098b44914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 14/95] fix: string.chr truncated its argument to 32 bits

---
 src/lib/builtins/string.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index e2eea20..2c89b96 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -61,9 +61,12 @@ static int bin_chr(Runtime *runtime, Object **argv, unsigned int argc, Object *r
 
     char buff[32];
     
-    int value = Object_GetInt(argv[0]);
+    long long int value = Object_GetInt(argv[0]);
     
-    int k = utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
+    int k = -1;
+
+    if(value >= 0 && value <= UINT32_MAX)
+        k = utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
 
     if(k<0)
     {
-- 
2.43.0


From d6a72b1d46b6420642c0f6e4d23b6d76ec9379ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 15/95] fix: integers returned by builtins (string.toInt,
 random.generate, ..) were truncated to 32 bits

---
 src/lib/builtins/files.c  |  4 ++--
 src/lib/builtins/net.c    | 10 +++++-----
 src/lib/builtins/random.c |  2 +-
 src/lib/builtins/string.c |  2 +-
 src/lib/builtins/utils.c  |  2 +-
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index ff18b96..c7e9934 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -133,7 +133,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t n = fread(dstptr, 1, count, stream);
 	
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "i", (long long int) n);
 }
 
 static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -169,7 +169,7 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	size_t n = fwrite(srcptr, 1, count, stream);
 
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "i", (long long int) n);
 }
 
 static int bin_openDir(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index fbeb267..a653e53 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -30,7 +30,7 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 			return returnValues2(error, runtime, rets, "ns", strerror(errno));
 	}
 
-	return returnValues2(error, runtime, rets, "i", fd);
+	return returnValues2(error, runtime, rets, "i", (long long int) fd);
 }
 
 static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -118,7 +118,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	ssize_t res = recv(fd, dstptr, count, 0);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
 }
 
 static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -148,7 +148,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	ssize_t res = send(fd, srcptr, count, 0);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
 }
 
 static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -170,7 +170,7 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	ASSERT(new_addr.sin_family == AF_INET);
 	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
 
-	return returnValues2(error, runtime, rets, "iii", new_fd, new_addr.sin_addr.s_addr, new_addr.sin_port);
+	return returnValues2(error, runtime, rets, "iii", (long long int) new_fd, (long long int) new_addr.sin_addr.s_addr, (long long int) new_addr.sin_port);
 }
 
 
@@ -185,7 +185,7 @@ static int bin_close(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	int fd = pargs[0].as_int;
 	int res = close(fd);
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
 }
 
 StaticMapSlot bins_net[] = {
diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index d21daf3..63910ff 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -32,7 +32,7 @@ static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
 	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
 	int64_t value = min + (max - min) * (double) rand() / RAND_MAX;
-	return returnValues2(error, runtime, rets, "i", value);
+	return returnValues2(error, runtime, rets, "i", (long long int) value);
 }
 
 StaticMapSlot bins_random[] = {
diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 2c89b96..6284698 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -267,7 +267,7 @@ static int bin_toInt(Runtime *runtime, Object **argv, unsigned int argc, Object
         // be considered an integer.
         return returnValues2(error, runtime, rets, "ns", "String doesn't contain an integer");
     
-    return returnValues2(error, runtime, rets, "i", result);
+    return returnValues2(error, runtime, rets, "i", (long long int) result);
 }
 
 StaticMapSlot bins_string[] = {
diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index 5fb3b2c..ee55258 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -14,7 +14,7 @@ int returnValuesVA(Error *error, Heap *heap, Object *rets[static MAX_RETS], cons
 		switch (fmt[i]) {
 			case 'o': ret = va_arg(va, Object*); break;
 			case 'n': ret = Object_NewNone(heap, error); break;
-			case 'i': ret = Object_FromInt  (va_arg(va, int),    heap, error); break;
+			case 'i': ret = Object_FromInt  (va_arg(va, long long int), heap, error); break;
 			case 'f': ret = Object_FromFloat(va_arg(va, double), heap, error); break;
 			case 's': ret = Object_FromString(va_arg(va, char*), -1, heap, error); break;
 			case 'F': ret = Object_FromStream(va_arg(va, FILE*), heap, error); break;
-- 
2.43.0


From c2253382ec850374b2785f9ed202c16a8b5537b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 16/95] fix: random.generate overflowed and could return values
 out of the requested range

---
 src/lib/builtins/random.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index 63910ff..a4af9f4 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -31,7 +31,22 @@ static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	int64_t min, max;
 	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
 	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
-	int64_t value = min + (max - min) * (double) rand() / RAND_MAX;
+
+	if (min > max) {
+		int64_t temp = min;
+		min = max;
+		max = temp;
+	}
+
+	// NOTE: The range may not fit an int64_t and a double
+	//       can't represent each value of it, so it's only
+	//       used for the offset from the minimum.
+	uint64_t range = (uint64_t) max - (uint64_t) min;
+	double scaled = (double) range * rand() / RAND_MAX;
+	uint64_t offset = scaled < (double) range ? (uint64_t) scaled : range;
+	if (offset > range)
+		offset = range;
+	int64_t value = (uint64_t) min + offset;
 	return returnValues2(error, runtime, rets, "i", (long long int) value);
 }
 
-- 
2.43.0


From aaecc43bb138dc0555a4029074c8c6dabe80a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 17/95] fix: math.pow was registered with one argument but
 reads two

---
 src/lib/builtins/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/math.c b/src/lib/builtins/math.c
index 6385e97..d820bc1 100644
--- a/src/lib/builtins/math.c
+++ b/src/lib/builtins/math.c
@@ -156,7 +156,7 @@ StaticMapSlot bins_math[] = {
 	{ "log",   SM_FUNCT, .as_funct = bin_log, .argc = 1, },
 	{ "log10", SM_FUNCT, .as_funct = bin_log10, .argc = 1, },
 
-	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 1, },
+	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 2, },
 	{ "sqrt", SM_FUNCT, .as_funct = bin_sqrt, .argc = 1, },
 	{ NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From aafb631717b45b409bd96651210b5e0426d9d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:22 +0000
Subject: [PATCH 18/95] fix: files.openFile called fopen with a NULL mode when
 given an unknown mode

---
 src/lib/builtins/files.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index c7e9934..689d621 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -51,7 +51,7 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 		return -1;
 
 	const char *path = pargs[0].as_string.data;
-	int         mode = pargs[1].as_int;
+	int64_t     mode = pargs[1].as_int;
 
 	FILE *fp;
 	{
@@ -73,9 +73,8 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 			break;
 
 			default:
-			UNREACHABLE;
-			mode2 = NULL;
-			break;
+			Error_Report(error, ErrorType_RUNTIME, "Invalid file open mode");
+			return -1;
 		}
 
 		fp = fopen(path, mode2);
-- 
2.43.0


From 2dff5c4f34f253a072abe9ff9d4e3b994f9a5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:22 +0000
Subject: [PATCH 19/95] fix: files.read and files.write truncated the count
 argument to 32 bits

---
 src/lib/builtins/files.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index 689d621..33bcd14 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -121,7 +121,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	dstptr = pargs[1].as_buffer.data;
 	dstlen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
@@ -157,14 +157,14 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 	srcptr = pargs[1].as_buffer.data;
 	srclen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
 		}
 		count = MIN((size_t) n, srclen);
 	} else
-		count = (int) srclen;
+		count = srclen;
 
 	size_t n = fwrite(srcptr, 1, count, stream);
 
-- 
2.43.0


From 9c55a8e01c22966226cfc95c6a1179a2d8fa21ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:22 +0000
Subject: [PATCH 20/95] fix: math.floor and math.ceil of floats out of the int
 range were undefined behaviour

---
 src/lib/builtins/math.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lib/builtins/math.c b/src/lib/builtins/math.c
index d820bc1..a3509d6 100644
--- a/src/lib/builtins/math.c
+++ b/src/lib/builtins/math.c
@@ -94,6 +94,24 @@ WRAP_FUNC(sqrt)
 WRAP_FUNC_2(atan2)
 WRAP_FUNC_2(pow)
 
+// Rounds are integers, but not every float has a
+// corresponding integer.
+static int return_rounded(double v, Runtime *runtime, Object *rets[static MAX_RETS], Error *error)
+{
+	// NOTE: The bounds are -2^63 and 2^63, which are exactly 
+	//       representable. The condition is false for NaN.
+	if(!(v >= -9223372036854775808.0 && v < 9223372036854775808.0))
+	{
+		Error_Report(error, ErrorType_RUNTIME, "Float can't be represented as an int");
+		return -1;
+	}
+
+	rets[0] = Object_FromInt(v, Runtime_GetHeap(runtime), error);
+	if(rets[0] == NULL)
+		return -1;
+	return 1;
+}
+
 static int bin_ceil(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error) \
 {
 	UNUSED(argc);
@@ -103,10 +121,7 @@ static int bin_ceil(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	{
 		double v = Object_GetFloat(argv[0]);
 
-		rets[0] = Object_FromInt(ceil(v), Runtime_GetHeap(runtime), error);
-		if(rets[0] == NULL)
-			return -1;
-		return 1;
+		return return_rounded(ceil(v), runtime, rets, error);
 	}
 	else
 	{
@@ -124,10 +139,7 @@ static int bin_floor(Runtime *runtime, Object **argv, unsigned int argc, Object
 	{
 		double v = Object_GetFloat(argv[0]);
 
-		rets[0] = Object_FromInt(floor(v), Runtime_GetHeap(runtime), error);
-		if(rets[0] == NULL)
-			return -1;
-		return 1;
+		return return_rounded(floor(v), runtime, rets, error);
 	}
 	else
 	{
-- 
2.43.0


From b0be7651365a7703be58856a609e2e5a6742f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 21/95] fix: integer overflow was undefined behaviour (and
 LLONG_MIN/-1 a crash) instead of aborting the program as documented

---
 src/lib/run.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 6277149..f0c352a 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -368,7 +368,31 @@ static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, E
 			// int + int
 			long long int raw_rop = Object_GetInt(rop);
 			long long int raw_res = 0;
-			APPLY(raw_lop, raw_rop, raw_res, id)
+			bool overflow = false;
+			switch(opcode)
+			{
+				case OPCODE_ADD: overflow = __builtin_add_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_SUB: overflow = __builtin_sub_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_MUL: overflow = __builtin_mul_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_DIV:
+				if(raw_rop == 0)
+				{
+					Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+					return NULL;
+				}
+				if(raw_rop == -1)
+					// LLONG_MIN / -1 can't be represented.
+					overflow = __builtin_sub_overflow(0, raw_lop, &raw_res);
+				else
+					raw_res = raw_lop / raw_rop;
+				break;
+				default: UNREACHABLE; break;
+			}
+			if(overflow)
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
+				return NULL;
+			}
 			res = Object_FromInt(raw_res, heap, error);
 		}
 		else if(Object_IsFloat(rop))
@@ -543,7 +567,12 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			if(Object_IsInt(top))
 			{
 				long long n = Object_GetInt(top);
-				top = Object_FromInt(-n, heap, error);
+				if(__builtin_sub_overflow(0, n, &n))
+				{
+					Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
+					return 0;
+				}
+				top = Object_FromInt(n, heap, error);
 			}
 			else if(Object_IsFloat(top))
 			{
-- 
2.43.0


From 42daa4322c9f2ac7986a646ff7890dc781ec6b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 22/95] fix: the modulo of an int by 0 (or of the lowest int by
 -1) killed the process

---
 src/lib/run.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index f0c352a..fbbdae8 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -670,7 +670,17 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			long long int x, y, z;
 			y = Object_GetInt(objs[0]);
 			x = Object_GetInt(objs[1]);
-			z = x % y;
+			if(y == 0)
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+				return 0;
+			}
+			if(y == -1)
+				// LLONG_MIN % -1 can't be evaluated by
+				// the hardware.
+				z = 0;
+			else
+				z = x % y;
 
 			Object *res = Object_FromInt(z, heap, error);
 			if(res == NULL)
-- 
2.43.0


From 52cd4b05b20c51a33ec2cad5b5b5766834b5d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 23/95] fix: istypeof of a list shorter than the pattern left
 an error pending while the script kept running

---
 src/lib/objects/o_list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index b9f8611..7dac2d8 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -76,6 +76,10 @@ istypeof(Object *self,
     if (!Object_IsList(other))
         return false;
 
+    // A list with less items than the pattern doesn't match.
+    if (((ListObject*) other)->count < list->count)
+    	return false;
+
     for (int i = 0; i < list->count; i++) {
     	
     	Object *key = Object_FromInt(i, heap, error);
-- 
2.43.0


From 7aa41a2122bfee88424dd847cd738125af82384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 24/95] fix: errors occurred while matching a value with a type
 were ignored or reported twice

---
 src/lib/builtins/basic.c | 2 ++
 src/lib/run.c            | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index 789947f..d8e08dc 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -272,6 +272,8 @@ static int bin_istypeof(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	
 	Heap *heap = Runtime_GetHeap(runtime);
 	bool yes = Object_IsTypeOf(argv[0], argv[1], heap, error);
+	if (error->occurred)
+		return -1;
 	Object *o_yes = Object_FromBool(yes, heap, error);
 	if (o_yes == NULL)
 		return -1;
diff --git a/src/lib/run.c b/src/lib/run.c
index fbbdae8..1a3c7b6 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -774,7 +774,11 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			if(!Runtime_Pop(runtime, error, NULL, 1))
 				return 0;
 
-			if (!Object_IsTypeOf(typ, arg, heap, error)) {
+			bool allowed_type = Object_IsTypeOf(typ, arg, heap, error);
+			if (error->occurred)
+				return 0;
+
+			if (!allowed_type) {
 				char provided[512];
 				char allowed[512];
 				FILE *provided_fp = fmemopen(provided, sizeof(provided), "wb");
-- 
2.43.0


From 2b4e8d76427b352e1d6fb42fdeeb2cdb468a312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 25/95] fix: reporting a wrong argument type read past the
 message buffers when the values' text was long

---
 src/lib/run.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/run.c b/src/lib/run.c
index 1a3c7b6..280ef79 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -788,6 +788,10 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 				Object_Print(arg, provided_fp);
 				fclose(allowed_fp);
 				fclose(provided_fp);
+				// When the text doesn't fit, the terminator
+				// isn't written by the stream.
+				allowed[sizeof(allowed)-1] = '\0';
+				provided[sizeof(provided)-1] = '\0';
 				Error_Report(error, ErrorType_RUNTIME, "Argument %d \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
 							 arg_index+1, arg_name, allowed, provided);
 				return 0;
-- 
2.43.0


From c97907c04a612a5bc4e0436d06bffaf8b0ff4f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 26/95] fix: returning more than 8 values made the caller read
 past its return value array

---
 src/lib/run.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 280ef79..0b29e00 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1169,7 +1169,11 @@ static int runExecutableAtIndex(Runtime *runtime, Error *error,
 
     // Get return values
     int retc = Runtime_GetFrameStackUsage(runtime);
-    for (int i = 0; i < MIN(retc, MAX_RETS); i++)
+    if (retc > MAX_RETS) {
+    	Error_Report(error, ErrorType_RUNTIME, "Can't return more than %d values", MAX_RETS);
+    	return -1;
+    }
+    for (int i = 0; i < retc; i++)
     	rets[i] = Runtime_Top(runtime, i-retc+1);
 
     if (!Runtime_PopFrame(runtime))
-- 
2.43.0


From 3ae1ec1f01590dba604a4f871a885f68e1c4f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:23 +0000
Subject: [PATCH 27/95] fix: unspecified errors (missing source file,
 comparison of lists, ..) were reported as syntax errors

---
 src/lib/compiler/parse.c  | 2 +-
 src/lib/objects/objects.c | 2 +-
 src/lib/run.c             | 2 +-
 src/lib/utils/error.c     | 2 +-
 src/lib/utils/error.h     | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 274d006..a6bb93d 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -304,7 +304,7 @@ static Token *tokenize(Source *src, BPAlloc *alloc, Error *error, int *error_off
 			if(i == len)
 			{
 				*error_offset = i;
-				Error_Report(error, 0, "Source ended inside string literal");
+				Error_Report(error, ErrorType_SYNTAX, "Source ended inside string literal");
 				return NULL;
 			}
 
diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index c1cf7e7..760e05f 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -287,7 +287,7 @@ _Bool Object_Compare(Object *obj1, Object *obj2, Error *error)
 
 	if(obj1->type->op_eql == NULL)
 	{
-		Error_Report(error, 0, "Object %s doesn't implement %s", Object_GetName(obj1), __func__);
+		Error_Report(error, ErrorType_RUNTIME, "Object %s doesn't implement %s", Object_GetName(obj1), __func__);
 		return 0;
 	}
 
diff --git a/src/lib/run.c b/src/lib/run.c
index 0b29e00..6168c5f 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -243,7 +243,7 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 			
 		if(argv2 == NULL)
 		{
-			Error_Report(error, 1, "No memory");
+			Error_Report(error, ErrorType_INTERNAL, "No memory");
 			return -1;
 		}
 
diff --git a/src/lib/utils/error.c b/src/lib/utils/error.c
index 4feb7f5..4dc1959 100644
--- a/src/lib/utils/error.c
+++ b/src/lib/utils/error.c
@@ -144,7 +144,7 @@ void Error_Print(Error *error, ErrorType type_if_unspecified, FILE *stream)
         type = type_if_unspecified;
 
     const char *name;
-    switch (error->type) {
+    switch (type) {
         case ErrorType_INTERNAL: name = "Internal Error"; break;
         case ErrorType_SYNTAX:   name =   "Syntax Error"; break;
         case ErrorType_SEMANTIC: name = "Semantic Error"; break;
diff --git a/src/lib/utils/error.h b/src/lib/utils/error.h
index 4a5ddaf..4d8a159 100644
--- a/src/lib/utils/error.h
+++ b/src/lib/utils/error.h
@@ -35,11 +35,11 @@
 #include <stdarg.h>
 
 typedef enum {
+	ErrorType_UNSPECIFIED = 0,
 	ErrorType_SYNTAX,
 	ErrorType_SEMANTIC,
 	ErrorType_RUNTIME,
 	ErrorType_INTERNAL,
-	ErrorType_UNSPECIFIED = 0,
 } ErrorType;
 
 typedef struct Error Error;
-- 
2.43.0


From c79fee09a8fadc4e2b7d36936affed3543239b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:23 +0000
Subject: [PATCH 28/95] fix: sources created from strings weren't
 zero-terminated, although the tokenizer relies on it

---
 src/lib/utils/source.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils/source.c b/src/lib/utils/source.c
index c4f3de1..e3c3d95 100644
--- a/src/lib/utils/source.c
+++ b/src/lib/utils/source.c
@@ -213,6 +213,7 @@ Source *Source_FromString(const char *name, const char *body, int size, Error *e
 	else
 		s->name = NULL;
 	
-	strncpy(s->body, body, size);
+	memcpy(s->body, body, size);
+	s->body[size] = '\0';
 	return s;
 }
\ No newline at end of file
-- 
2.43.0


From 78ff8b938c1a345f9dbe61f3668a06c72d63379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 29/95] fix: reporting a semantic error wrote the error offset
 through an uninitialised pointer

---
 src/lib/compiler/codegen.c    | 2 +-
 src/lib/compiler/codegenctx.c | 3 ++-
 src/lib/compiler/codegenctx.h | 2 +-
 src/lib/run.c                 | 4 ++--
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/compiler/codegen.c b/src/lib/compiler/codegen.c
index 586650c..f8c5471 100644
--- a/src/lib/compiler/codegen.c
+++ b/src/lib/compiler/codegen.c
@@ -768,7 +768,7 @@ Executable *codegen(AST *ast, BPAlloc *alloc, Error *error, int *error_offset)
 
 	jmp_buf env;
 
-	CodegenContext *ctx = CodegenContext_New(error, alloc);
+	CodegenContext *ctx = CodegenContext_New(error, error_offset, alloc);
 	if(ctx == NULL) {
 		*error_offset = 0;
 		Error_Report(error, ErrorType_INTERNAL, "No memory");
diff --git a/src/lib/compiler/codegenctx.c b/src/lib/compiler/codegenctx.c
index dfb3a03..dd49c9d 100644
--- a/src/lib/compiler/codegenctx.c
+++ b/src/lib/compiler/codegenctx.c
@@ -74,7 +74,7 @@ void CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env)
     ctx->env_set = true;
 }
 
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
+CodegenContext *CodegenContext_New(Error *error, int *error_offset, BPAlloc *alloc)
 {
     bool own_alloc;
     if(alloc == NULL) {
@@ -104,6 +104,7 @@ CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
     }
 
     ctx->error = error;
+    ctx->error_offset = error_offset;
     ctx->alloc = alloc;
     ctx->builder = builder;
     ctx->env_set = false;
diff --git a/src/lib/compiler/codegenctx.h b/src/lib/compiler/codegenctx.h
index bfd5c37..3d7b185 100644
--- a/src/lib/compiler/codegenctx.h
+++ b/src/lib/compiler/codegenctx.h
@@ -4,7 +4,7 @@
 #include "../executable.h"
 
 typedef struct CodegenContext CodegenContext;
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc);
+CodegenContext *CodegenContext_New(Error *error, int *error_offset, BPAlloc *alloc);
 void            CodegenContext_EmitInstr(CodegenContext *ctx, Opcode opcode, Operand *opv, int opc, int off, int len);
 void            CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env);
 void            CodegenContext_Free(CodegenContext *ctx);
diff --git a/src/lib/run.c b/src/lib/run.c
index 6168c5f..d3bda43 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1184,7 +1184,7 @@ static int runExecutableAtIndex(Runtime *runtime, Error *error,
 
 int runSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
 {
-	int error_offset;
+	int error_offset = -1; // Not every error has a location.
 	Executable *exe = compile(source, error, &error_offset);
     if(exe == NULL) {
     	Error suberror;
@@ -1202,7 +1202,7 @@ int runSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], E
 
 int runBytecodeSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
 {
-	int error_offset;
+	int error_offset = -1; // Not every error has a location.
 	Executable *exe = assemble(source, error, &error_offset);
     if(exe == NULL) {
     	Error suberror;
-- 
2.43.0


From 445bd219d2ef4ac99ccd4ed11e381d48cca6dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 30/95] fix: the assembler went on after reporting a missing
 opcode

---
 src/lib/assembler/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index f373e7f..e5575d6 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -59,7 +59,7 @@ static bool parseLabelAndOpcode(Context *ctx, bool *no_label,
             // ERROR: Missing opcode
             *ctx->error_offset = ctx->cur;
             Error_Report(error, ErrorType_SYNTAX, "Missing opcode");
-            #warning "should there be a return here?"
+            return false;
         }
         
         label_or_opcode.offset = ctx->cur;
-- 
2.43.0


From 2b218768e1cbb811dfe809a2d3996104bf0323ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 31/95] fix: a map literal truncated after a ',' made the
 parser walk past the last token

---
 src/lib/compiler/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index a6bb93d..124d710 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1001,6 +1001,13 @@ static Node *parse_map_primary_expression(Context *ctx)
 
 			bool item_is_func_decl = false;
 
+			if(done(ctx))
+			{
+				*ctx->error_offset = ctx->token->offset;
+				Error_Report(ctx->error, ErrorType_SYNTAX, "Source ended inside a map literal");
+				return NULL;
+			}
+
 			if (current(ctx) == TKWFUN) 
 			{
 				FuncDeclNode *func = parse_function_definition(ctx);
-- 
2.43.0


From c0146272c77304d3c5b09cc09d517770dc87d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 32/95] fix: deeply nested sources and long operator chains
 overflowed the native stack

---
 src/lib/compiler/parse.c | 87 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 85 insertions(+), 2 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 124d710..da3096f 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -135,8 +135,16 @@ typedef struct {
 	BPAlloc *alloc;
 	Error   *error;
 	int *error_offset;
+	int depth; // How many constructs are currently nested
+	           // into each other. (See [enter])
 } Context;
 
+// The AST is built and then walked recursively, so the
+// nesting of the constructs and the length of the operator
+// chains are bounded to not overflow the stack.
+#define MAX_NESTING   1000
+#define MAX_CHAIN_LENGTH 10000
+
 static Node *parse_statement(Context *ctx);
 static Node *parse_expression(Context *ctx, _Bool allow_toplev_tuples, _Bool allow_assignments);
 static Node *parse_expression_statement(Context *ctx);
@@ -464,6 +472,7 @@ AST *parse(Source *src, BPAlloc *alloc, Error *error, int *error_offset)
 	ctx.alloc = alloc;
 	ctx.error = error;
 	ctx.error_offset = error_offset;
+	ctx.depth = 0;
 	Node *root = parse_compound_statement(&ctx, TDONE);
 
 	if(root == NULL)
@@ -564,7 +573,62 @@ static inline _Bool done(Context *ctx)
 	return current(ctx) == TDONE;
 }
 
+static _Bool enter(Context *ctx)
+{
+	if(ctx->depth == MAX_NESTING)
+	{
+		*ctx->error_offset = ctx->token->offset;
+		Error_Report(ctx->error, ErrorType_SYNTAX, "Source is nested too deeply");
+		return 0;
+	}
+
+	ctx->depth += 1;
+	return 1;
+}
+
+static void leave(Context *ctx)
+{
+	assert(ctx->depth > 0);
+	ctx->depth -= 1;
+}
+
+static _Bool check_chain_length(Context *ctx, int length)
+{
+	if(length > MAX_CHAIN_LENGTH)
+	{
+		*ctx->error_offset = ctx->token->offset;
+		Error_Report(ctx->error, ErrorType_SYNTAX, "Expression has too many operators");
+		return 0;
+	}
+	return 1;
+}
+
+static Node *parse_statement_2(Context *ctx);
+static Node *parse_prefix_expression_2(Context *ctx);
+
 static Node *parse_statement(Context *ctx)
+{
+	if(!enter(ctx))
+		return NULL;
+
+	Node *node = parse_statement_2(ctx);
+
+	leave(ctx);
+	return node;
+}
+
+static Node *parse_prefix_expression(Context *ctx)
+{
+	if(!enter(ctx))
+		return NULL;
+
+	Node *node = parse_prefix_expression_2(ctx);
+
+	leave(ctx);
+	return node;
+}
+
+static Node *parse_statement_2(Context *ctx)
 {
 	assert(ctx != NULL);
 
@@ -764,6 +828,9 @@ static Node *makeStringExprNode(Context *ctx, const char *str, int len)
 	return (Node*) node;
 }
 
+// Not inlined to keep its buffer out of the stack frames of
+// the recursive functions.
+__attribute__((noinline))
 static Node *parse_string_primary_expression(Context *ctx)
 {
 	assert(ctx != NULL);
@@ -1468,8 +1535,13 @@ static Node *parse_postfix_expression(Context *ctx)
 	if(node == NULL)
 		return NULL;
 
+	int chain_length = 0;
+
 	while(1)
 	{
+		if(!check_chain_length(ctx, ++chain_length))
+			return NULL;
+
 		switch(current(ctx))
 		{
 			case '.':
@@ -1618,7 +1690,7 @@ done:
 	return node;
 }
 
-static Node *parse_prefix_expression(Context *ctx)
+static Node *parse_prefix_expression_2(Context *ctx)
 {
 	if(done(ctx))
 	{
@@ -1749,8 +1821,13 @@ static inline int precedenceof(Token *tok)
 
 static Node *parse_expression_2(Context *ctx, Node *left_expr, int min_prec, _Bool allow_toplev_tuples, _Bool allow_assignments)
 {
+	int chain_length = 0;
+
 	while(isbinop(ctx->token) && precedenceof(ctx->token) >= min_prec)
 	{
+		if(!check_chain_length(ctx, ++chain_length))
+			return NULL;
+
 		Token *op = ctx->token;
 
 		if((op->kind == ',' && allow_toplev_tuples == 0) || (op->kind == '=' && allow_assignments == 0))
@@ -1766,8 +1843,14 @@ static Node *parse_expression_2(Context *ctx, Node *left_expr, int min_prec, _Bo
 		while(isbinop(ctx->token) && (precedenceof(ctx->token) > precedenceof(op) || (precedenceof(ctx->token) == precedenceof(op) && isrightassoc(ctx->token))))
 		{
 			int new_prec = precedenceof(op) + (precedenceof(op) < precedenceof(ctx->token));
+
+			if(!enter(ctx))
+				return NULL;
+
 			right_expr = parse_expression_2(ctx, right_expr, new_prec, allow_toplev_tuples, allow_assignments);
-			
+
+			leave(ctx);
+
 			if(right_expr == NULL)
 				return NULL;				
 		
-- 
2.43.0


From 09acbb6fd7530390afdb91a16173dfee5d815c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 33/95] fix: the message about a wrong argument type contained
 garbage when the argument was an empty string

---
 src/lib/run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index d3bda43..e6dd282 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -779,8 +779,8 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 				return 0;
 
 			if (!allowed_type) {
-				char provided[512];
-				char allowed[512];
+				char provided[512] = "";
+				char allowed[512] = "";
 				FILE *provided_fp = fmemopen(provided, sizeof(provided), "wb");
 				FILE  *allowed_fp = fmemopen(allowed, sizeof(allowed), "wb");
 				// TODO: Check for errors from [fmemopen]
-- 
2.43.0


From f8143033341ebe56ca3f0a4892e60d0707086165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 34/95] fix: stack traces reported the line of the instruction
 following the one that failed

---
 src/lib/runtime.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 53fd5ea..3904740 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -157,7 +157,10 @@ static int getFrameOffset(Frame *frame)
 		case FrameType_NORMAL: 
 		{
 			NormalFrame *normal_frame = (NormalFrame*) frame;
-			return Executable_GetInstrOffset(normal_frame->exe, normal_frame->index);
+			// The index was already advanced to the instruction
+			// that follows the one being executed.
+			int index = normal_frame->index > 0 ? normal_frame->index-1 : 0;
+			return Executable_GetInstrOffset(normal_frame->exe, index);
 		}
 
 		case FrameType_NATIVE: return -1;
-- 
2.43.0


From 5aa3cd1ab6d4e43ee938680dbe0907e93e23c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 35/95] fix: part of the stack trace was written to stderr
 instead of the provided stream

---
 src/lib/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 3904740..60e689f 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -219,7 +219,7 @@ void Runtime_PrintStackTrace(Runtime *runtime, FILE *stream)
 	fprintf(stream, "Stack trace:\n");
 	Frame *frame = runtime->frame;
 	if (frame == NULL)
-		fprintf(stderr, "\t(No active frames)\n");
+		fprintf(stream, "\t(No active frames)\n");
 	else {
 		size_t depth = 0;
 		do {
-- 
2.43.0


From 8f99c9a01cb393903fd0beea21bd597090a80bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 36/95] fix: a second compilation failure on the same runtime
 linked its failed frame to itself

---
 src/lib/runtime.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 60e689f..f6d6f92 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -85,8 +85,6 @@ struct xRuntime {
 	FILE *stdin;
 	FILE *stdout;
 	FILE *stderr;
-
-	FailedFrame failed_frame;
 };
 
 bool Runtime_plugBuiltins(Runtime *runtime, Object *object, Error *error)
@@ -613,11 +611,16 @@ static bool appendFrame(Runtime *runtime, Error *error, Frame *frame)
 
 bool Runtime_PushFailedFrame(Runtime *runtime, Error *error, Source *source, int offset)
 {
-	FailedFrame *failed_frame = &runtime->failed_frame;
+	FailedFrame *failed_frame = malloc(sizeof(FailedFrame));
+	if (failed_frame == NULL) {
+		Error_Report(error, ErrorType_INTERNAL, "Out of memory");
+		return false;
+	}
 
 	Source *source_copy = Source_Copy(source);
 	if (source_copy == NULL) {
 		Error_Report(error, ErrorType_INTERNAL, "Failed to copy source object");
+		free(failed_frame);
 		return false;
 	}
 
@@ -628,6 +631,7 @@ bool Runtime_PushFailedFrame(Runtime *runtime, Error *error, Source *source, int
 
 	if (!appendFrame(runtime, error, (Frame*) failed_frame)) {
 		Source_Free(source_copy);
+		free(failed_frame);
 		return false;
 	}
 	return true;
@@ -712,6 +716,7 @@ bool Runtime_PopFrame(Runtime *runtime)
 		case FrameType_FAILED: {
 			FailedFrame *failed_frame = (FailedFrame*) frame;
 			Source_Free(failed_frame->source);
+			free(frame);
 			break;
 		}
 	}
-- 
2.43.0


From af35f8b594212fabe5d577a2b2a3ffcfc4b92fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 37/95] fix: the argument array was leaked when a native call
 hit the nested call limit

---
 src/lib/run.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index e6dd282..8c34612 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -268,8 +268,11 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 		argc2 = -1;
 	}
 
-	if (!Runtime_PushNativeFrame(func->runtime, error))
+	if (!Runtime_PushNativeFrame(func->runtime, error)) {
+		if(argv2 != argv)
+			free(argv2);
     	return -1;
+	}
 
 	ASSERT(func->callback != NULL);
 	int retc = func->callback(func->runtime, argv2, argc2, rets, error);
-- 
2.43.0


From abbe33850e8ee6a02571cb3472c97319fe272b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 38/95] fix: running out of heap or a failing destructor left
 the collection half done (double destruction, leaks)

---
 src/lib/objects/heap.c | 46 ++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 77c3659..f7d1034 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -109,6 +109,7 @@ struct xHeap {
 
 	_Bool collecting;
 	_Bool collection_failed;
+	_Bool out_of_heap;
 	int movedcount;
 	void *old_body;
 	int   old_used;
@@ -294,12 +295,13 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 
 	if(heap->used + size > heap->size)
 	{
+		// The live objects don't fit in the new pool. The
+		// collection is completed anyway to leave the heap
+		// in a consistent state, then the error is reported
+		// by [Heap_StopCollection].
 		if(heap->collecting)
-		{
-			Error_Report(err, ErrorType_INTERNAL, "Out of heap");
-			return NULL;
-		}
-		
+			heap->out_of_heap = 1;
+
 		OflowAlloc *oflow = malloc(sizeof(OflowAlloc) + size);
 		
 		if(oflow == 0)
@@ -350,6 +352,7 @@ _Bool Heap_StartCollection(Heap *heap, Error *error)
 	heap->oflow = NULL;
 	heap->collecting = 1;
 	heap->collection_failed = 0;
+	heap->out_of_heap = 0;
 	heap->movedcount = 0;
 	heap->error = error;
 	return 1;
@@ -357,6 +360,7 @@ _Bool Heap_StartCollection(Heap *heap, Error *error)
 
 static bool callDestructors(Heap *heap)
 {
+	bool ok = true;
 	int i = 0;
 
 	while(i < heap->pend_used)
@@ -372,11 +376,21 @@ static bool callDestructors(Heap *heap)
 		{
 			// We need to call the destructor.
 
-			heap->pend[i].destructor(obj, heap->error);
-					
-			if(heap->error->occurred) 
-				return false; // There will be leaks.
-			
+			// If more than one destructor fails, only
+			// the first error is reported.
+			Error suberror;
+			Error_Init(&suberror);
+
+			heap->pend[i].destructor(obj, &suberror);
+
+			if(suberror.occurred)
+			{
+				if(!heap->error->occurred)
+					Error_Report(heap->error, suberror.type, "%s", suberror.message);
+				Error_Free(&suberror);
+				ok = false;
+			}
+
 			heap->pend[i] = heap->pend[heap->pend_used-1];
 			heap->pend_used -= 1;
 		}
@@ -394,7 +408,7 @@ static bool callDestructors(Heap *heap)
 		}
 	}
 
-	return true;
+	return ok;
 }
 
 static void freeOverflowAllocations(Heap *heap)
@@ -411,9 +425,15 @@ _Bool Heap_StopCollection(Heap *heap)
 {
 	assert(heap->collecting == 1);
 
+	if(heap->out_of_heap && !heap->error->occurred)
+	{
+		Error_Report(heap->error, ErrorType_INTERNAL, "Out of heap");
+		heap->collection_failed = 1;
+	}
+
 	if(!callDestructors(heap))
-		return false;
-	
+		heap->collection_failed = 1;
+
 	freeOverflowAllocations(heap);
 
 	free(heap->old_body);
-- 
2.43.0


From d822ffda8749cf19ac7e2d6ef4c7e2d64859d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 39/95] fix: the heap didn't report an error when it couldn't
 get memory from the system

---
 src/lib/objects/heap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index f7d1034..18f2926 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -305,7 +305,10 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 		OflowAlloc *oflow = malloc(sizeof(OflowAlloc) + size);
 		
 		if(oflow == 0)
+		{
+			Error_Report(err, ErrorType_INTERNAL, "No memory");
 			return 0;
+		}
 
 		oflow->prev = heap->oflow;
 		heap->oflow = oflow;
-- 
2.43.0


From 479c56805ef098790a6dd10ce1f6365d3aa0dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 40/95] fix: the heap's bound check overflowed for big
 allocations

---
 src/lib/objects/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 18f2926..9e9466a 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -293,7 +293,7 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 
 	padding = heap->used - padding;
 
-	if(heap->used + size > heap->size)
+	if(size > heap->size - heap->used)
 	{
 		// The live objects don't fit in the new pool. The
 		// collection is completed anyway to leave the heap
-- 
2.43.0


From 430ffec5cadd1d2df1f0a75f191971bef09d8873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 41/95] fix: hashing, copying or matching an object that
 contains itself recursed forever

---
 src/lib/objects/objects.c | 32 +++++++++++++++++++++++++++++---
 src/lib/objects/objects.h |  3 +++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 760e05f..f17e569 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -102,7 +102,17 @@ bool Object_IsTypeOf(Object *typ, Object *obj, Heap *heap, Error *error)
 {
 	if (typ->type->istypeof == NULL)
 		return false;
-	return typ->type->istypeof(typ, obj, heap, error);
+
+	// A pattern which contains itself can't be matched.
+	if (typ->flags & Object_MATCH) {
+		Error_Report(error, ErrorType_RUNTIME, "Can't match a value with a %s that contains itself", Object_GetName(typ));
+		return false;
+	}
+
+	typ->flags |= Object_MATCH;
+	bool result = typ->type->istypeof(typ, obj, heap, error);
+	typ->flags &= ~Object_MATCH;
+	return result;
 }
 
 int Object_Hash(Object *obj)
@@ -117,7 +127,14 @@ int Object_Hash(Object *obj)
 	if(type->hash == NULL)
 		return 0;
 
-	return type->hash(obj);
+	// Don't loop on objects that contain themselves.
+	if(obj->flags & Object_HASH)
+		return 0;
+
+	obj->flags |= Object_HASH;
+	int hash = type->hash(obj);
+	obj->flags &= ~Object_HASH;
+	return hash;
 }
 
 Object *Object_Copy(Object *obj, Heap *heap, Error *err)
@@ -134,7 +151,16 @@ Object *Object_Copy(Object *obj, Heap *heap, Error *err)
 		return NULL;
 	}
 
-	return type->copy(obj, heap, err);
+	if(obj->flags & Object_COPY)
+	{
+		Error_Report(err, ErrorType_RUNTIME, "Can't copy a %s that contains itself", Object_GetName(obj));
+		return NULL;
+	}
+
+	obj->flags |= Object_COPY;
+	Object *copy = type->copy(obj, heap, err);
+	obj->flags &= ~Object_COPY;
+	return copy;
 }
 
 int Object_Call(Object *obj, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Heap *heap, Error *err)
diff --git a/src/lib/objects/objects.h b/src/lib/objects/objects.h
index 8aa5126..ecb91e2 100644
--- a/src/lib/objects/objects.h
+++ b/src/lib/objects/objects.h
@@ -85,6 +85,9 @@ enum {
 	Object_STATIC = 1 << 0,
 	Object_MOVED  = 1 << 1,
 	Object_PRINT  = 1 << 2,
+	Object_HASH   = 1 << 3,
+	Object_COPY   = 1 << 4,
+	Object_MATCH  = 1 << 5,
 };
 
 Heap*		 Heap_New(int size);
-- 
2.43.0


From 0a796ac9946c15752f019d187831f28def09959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 42/95] fix: toString failed on negative numbers and on
 integers over 10^18

---
 src/lib/builtins/start.noja | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/lib/builtins/start.noja b/src/lib/builtins/start.noja
index a561866..e0bc9f6 100644
--- a/src/lib/builtins/start.noja
+++ b/src/lib/builtins/start.noja
@@ -26,23 +26,34 @@ fun getIntegerMagnitude(n: int) {
 	powr = 1;
 	# Basically grow the power until it's
 	# bigger than the input.
-	while n >= powr * 10: {
+	# (The division is there because the
+	# multiplication may overflow.)
+	while n / powr >= 10: {
 		powr = 10 * powr;
 		magn = 1 + magn;
 	}
 	return magn, powr;
 }
 
-# Stringify an unsigned integer
+# Stringify an integer
 fun stringFromInteger(n: int) {
 
 	negative = (n < 0);
-	
+	if negative: {
+		# The lowest integer doesn't have an opposite,
+		# so its last digit is handled separately.
+		rest = -(n / 10);
+		last = stringFromDigit(-(n % 10));
+		if rest > 0:
+			return cat("-", stringFromInteger(rest), last);
+		return cat("-", last);
+	}
+
 	# Get the power of 10 with the
 	# magnitude of the input.
 	_, power = getIntegerMagnitude(n);
 
-	temp = abs(n); # Temporary copy of the input
+	temp = n; # Temporary copy of the input
 	text = ""; # The output we're about to compute
 	
 	while power >= 1: {
@@ -57,13 +68,13 @@ fun stringFromInteger(n: int) {
 		power = power / 10;
 	}
 
-	if negative:
-		text = cat("-", text);
 	return text;
 }
 
 fun stringFromFloating(f: float, max_decimals: int = 2) {
 	# This function is just a fast hack
+	if f < 0:
+		return cat("-", stringFromFloating(-f, max_decimals));
 	epsilon = 0.00000001;
 	asint = math.floor(f);
 	text = stringFromInteger(asint);
@@ -74,6 +85,8 @@ fun stringFromFloating(f: float, max_decimals: int = 2) {
 	do {
 		magn = magn / 10;
 		digit = math.floor(temp / magn);
+		if digit > 9: # May happen due to rounding
+			digit = 9;
 		text = cat(text, stringFromDigit(digit));
 		temp = temp - magn * digit; # Remove the handled digit
 		i = i+1;
-- 
2.43.0


From d8ff1ade17366f9cb59b7d82d9b04f2c5944dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 43/95] fix: input() never noticed the end of the stream and
 reallocated a stack buffer on long lines

---
 src/lib/builtins/basic.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index d8e08dc..e152231 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -178,7 +178,15 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	while(1)
 	{
-		char c = getc(Runtime_GetInputStream(runtime));
+		int c = getc(Runtime_GetInputStream(runtime));
+
+		if(c == EOF)
+		{
+			// Nothing left to read
+			if(size == 0)
+				return 0;
+			break;
+		}
 
 		if(c == '\n')
 			break;
@@ -186,7 +194,7 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 		if(size == cap)
 		{
 			int newcap = cap*2;
-			char *tmp = realloc(str, newcap + 1);
+			char *tmp = realloc(str == maybe ? NULL : str, newcap + 1);
 
 			if(tmp == NULL)
 			{
@@ -195,6 +203,9 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 				return -1;
 			}
 
+			if(str == maybe)
+				memcpy(tmp, maybe, size);
+
 			str = tmp;
 			cap = newcap;
 		}
-- 
2.43.0


From c100f1164909cccf5f7e0d49f6f1873de865a349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 44/95] fix: the assembler accepted multiple definitions of a
 label

---
 src/lib/assembler/assemble.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index e5575d6..7a54fde 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -425,6 +425,13 @@ Executable *assemble(Source *src, Error *error, int *error_offset)
 
         // If a label was defined, add it to the list.
         if(no_label == false) {
+            Promise *promise = LabelList_GetLabel(list, ctx.str + label.offset, label.length);
+            if(promise != NULL && Promise_hasResolved(promise)) {
+                *error_offset = label.offset;
+                Error_Report(error, ErrorType_SEMANTIC, "Label \"%.*s\" was already defined", (int) label.length, ctx.str + label.offset);
+                goto done;
+            }
+
             long long int value = ExeBuilder_InstrCount(builder);
             if(!LabelList_SetLabel(list, ctx.str + label.offset, label.length, value)) {
                 *error_offset = ctx.cur;
-- 
2.43.0


From 100a4d0320f210bc330d5594eeb79f627e77c0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 45/95] fix: bytecode with huge or negative PUSHFUN, PUSHLST
 and PUSHMAP operands corrupted memory

---
 src/lib/run.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 8c34612..e67715d 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -519,6 +519,18 @@ static Object *do_relational_op(Object *lop, Object *rop, Opcode opcode, Heap *h
 	return Object_FromBool(res, heap, error);
 }
 
+// Since it's possible to run hand-written bytecode, nothing
+// can be assumed about the operands of the instructions.
+#define MAX_FUNC_ARGC    65536
+#define MAX_CAPACITY_HINT 65536
+
+static int capacityHint(long long int capacity)
+{
+	if(capacity < 0)
+		return 0;
+	return MIN(capacity, MAX_CAPACITY_HINT);
+}
+
 static _Bool runInstruction(Runtime *runtime, Error *error)
 {
 	ASSERT(runtime != NULL);
@@ -1009,6 +1021,12 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(ops[1].type == OPTP_INT);
 			ASSERT(ops[2].type == OPTP_STRING);
 
+			if(ops[1].as_int < 0 || ops[1].as_int > MAX_FUNC_ARGC)
+			{
+				Error_Report(error, ErrorType_INTERNAL, "Invalid argument count in PUSHFUN instruction");
+				return 0;
+			}
+
 			Object *locals  = Runtime_GetLocals(runtime);
 			Object *old_closure = Runtime_GetClosure(runtime);
 			Object *new_closure = Object_NewClosure(old_closure, locals, heap, error); // Should old_closure and locals be in the reverse order?
@@ -1027,7 +1045,7 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(opc == 1);
 			ASSERT(ops[0].type == OPTP_INT);
 
-			Object *obj = Object_NewList(ops[0].as_int, heap, error);
+			Object *obj = Object_NewList(capacityHint(ops[0].as_int), heap, error);
 			if(obj == NULL)
 				return 0;
 
@@ -1039,7 +1057,7 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(opc == 1);
 			ASSERT(ops[0].type == OPTP_INT);
 
-			Object *obj = Object_NewMap(ops[0].as_int, heap, error);
+			Object *obj = Object_NewMap(capacityHint(ops[0].as_int), heap, error);
 			if(obj == NULL)
 				return 0;
 
-- 
2.43.0


From e99fc0ce8b4d91dffd82d355f87b0854c077062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 46/95] fix: Executable_Equiv only compared the lower 32 bits
 of integer operands

---
 src/lib/executable.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/executable.c b/src/lib/executable.c
index 0d35f4c..256fbe0 100644
--- a/src/lib/executable.c
+++ b/src/lib/executable.c
@@ -377,11 +377,11 @@ _Bool Executable_Equiv(Executable *exe1, Executable *exe2, FILE *log, const char
 				case OPTP_IDX:
 				case OPTP_INT:
 				{
-					int v1 = exe1_opv[opno].as_int;
-					int v2 = exe2_opv[opno].as_int;
+					long long int v1 = exe1_opv[opno].as_int;
+					long long int v2 = exe2_opv[opno].as_int;
 					if(v1 != v2) {
 						if(log != NULL)
-							fprintf(log, "%s%s Instructions (at index %d) have different integer operands (at index %d) (%d != %d)\n", 
+							fprintf(log, "%s%s Instructions (at index %d) have different integer operands (at index %d) (%lld != %lld)\n", 
 								log_prefix, Executable_GetOpcodeName(exe1_opcode), idx, opno, v1, v2);
 						return false;
 					}
-- 
2.43.0


From fe8e3346d17bbd7de8d707d407251b9d1b00b1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 47/95] fix: the error about misplaced tuples had no type, so
 it was reported as a runtime error

---
 src/lib/compiler/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/compiler/codegen.c b/src/lib/compiler/codegen.c
index f8c5471..7ce5d83 100644
--- a/src/lib/compiler/codegen.c
+++ b/src/lib/compiler/codegen.c
@@ -392,7 +392,7 @@ static void emitInstrForExprNode(CodegenContext *ctx, ExprNode *expr,
 	{
 		case EXPR_PAIR:
 		CodegenContext_ReportErrorAndJump(
-			ctx, expr->base.offset, 0, 
+			ctx, expr->base.offset, ErrorType_SEMANTIC, 
 			"Tuple outside of assignment or return statement");
 		UNREACHABLE;
 		return; // For the compiler warning.
-- 
2.43.0


From c1b701c9bc539d600a89bbd43b00f9a2baf9f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 48/95] fix: AST diagrams of big tuples overflowed a buffer and
 tuples used as assignment targets were left out

---
 src/lib/compiler/graphviz.c | 52 ++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index c163c6b..08802c1 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -193,12 +193,11 @@ static void flattenTupleTree(ExprNode *root, ExprNode *tuple[], int max, int *co
 	else 
 	{
 
-		if(max == *count)
-		{
-			assert(0); // TODO: Do something smart instead
-		}
-
-		tuple[(*count)++] = root;
+		// Count every item, but only store the ones
+		// that fit.
+		if(*count < max)
+			tuple[*count] = root;
+		(*count)++;
 	}
 }
 
@@ -247,6 +246,34 @@ static void childToGraphViz(GraphViz *ctx, Node *child, int *count, char *parent
 	GraphViz_AppendBody(ctx, "\t%s -> %s;\n", parent, name2);
 }
 
+static void tupleToGraphViz(GraphViz *ctx, ExprNode *root, int *count, char *name)
+{
+	ExprNode *first[32];
+	int max = sizeof(first)/sizeof(first[0]);
+
+	int num = 0;
+	flattenTupleTree(root, first, max, &num);
+
+	ExprNode **items = first;
+	if (num > max) {
+		items = malloc(num * sizeof(ExprNode*));
+		if (items == NULL) {
+			if (!ctx->error->occurred)
+				Error_Report(ctx->error, ErrorType_INTERNAL, "Out of memory");
+			return;
+		}
+		max = num;
+		num = 0;
+		flattenTupleTree(root, items, max, &num);
+	}
+
+	for(int i = 0; i < num; i += 1)
+		childToGraphViz(ctx, (Node*) items[i], count, name);
+
+	if (items != first)
+		free(items);
+}
+
 static void funcExprToGraphViz(GraphViz *ctx, FuncExprNode *func, char *func_name, int *count, char *name)
 {
 	GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, func_name);
@@ -276,8 +303,9 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 	switch(expr->kind)
 	{
 		case EXPR_PAIR:
-		UNREACHABLE;
-		return; // For the compiler warning.
+		GraphViz_AppendHead(ctx, "\t%s [label=\"Tuple\"];\n", name);
+		tupleToGraphViz(ctx, expr, count, name);
+		return;
 
 		case EXPR_NULLABLETYPE:
 		case EXPR_SUMTYPE:
@@ -497,13 +525,7 @@ static void nodeToGraphViz(GraphViz *ctx, Node *node, int *count, char *name)
 
 			GraphViz_AppendHead(ctx, "\t%s [label=\"return\"];\n", name);
 
-			ExprNode *tuple[32];
-			int return_count = 0;
-
-			flattenTupleTree((ExprNode*) ret->val, tuple, sizeof(tuple)/sizeof(tuple[0]), &return_count);
-
-			for(int i = 0; i < return_count; i += 1)
-				childToGraphViz(ctx, (Node*) tuple[i], count, name);
+			tupleToGraphViz(ctx, (ExprNode*) ret->val, count, name);
 			return;
 		}
 
-- 
2.43.0


From 9d7b5add52d14ec51e169350d8ecc5632e02be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 49/95] fix: AST diagrams only showed the lower 32 bits of
 integers

---
 src/lib/compiler/graphviz.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index 08802c1..2687ac7 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -329,7 +329,7 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		case EXPR_INT:
 		{
 			IntExprNode *p = (IntExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"%d\"];\n", name, p->val);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%lld\"];\n", name, p->val);
 			return;
 		}
 
-- 
2.43.0


From 245d8d93d12667542889cae3947fe8e7f2bb68bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 50/95] fix: AST diagrams handled -> as a generic operator,
 although its node has a different layout

---
 src/lib/compiler/graphviz.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index 2687ac7..08834c6 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -309,7 +309,7 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 
 		case EXPR_NULLABLETYPE:
 		case EXPR_SUMTYPE:
-		case EXPR_ASS: case EXPR_ARW:
+		case EXPR_ASS:
 		case EXPR_NOT: case EXPR_MOD:
 		case EXPR_POS: case EXPR_NEG:
 		case EXPR_ADD: case EXPR_SUB:
@@ -429,10 +429,12 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		funcExprToGraphViz(ctx, (FuncExprNode*) expr, "???", count, name);
 		return;
 
+		case EXPR_ARW:
 		case EXPR_SELECT:
 		{
 			IndexSelectionExprNode *sel = (IndexSelectionExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"Select\"];\n", name);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, 
+				expr->kind == EXPR_ARW ? exprkind_to_label(EXPR_ARW) : "Select");
 			childToGraphViz(ctx, sel->set, count, name);
 			childToGraphViz(ctx, sel->idx, count, name);
 			return;
-- 
2.43.0


From 5f9904ec4ac13f64b90550b9defa721a469b1089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 51/95] fix: net.send and net.recv truncated the count argument
 to 32 bits

---
 src/lib/builtins/net.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index a653e53..cc083cf 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -108,7 +108,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, dstlen);
@@ -138,7 +138,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, srclen);
-- 
2.43.0


From 3e555fb999218e3660d73e4675c5d939d16a58e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 52/95] fix: sending to a socket closed by the peer killed the
 process instead of returning an error

---
 src/lib/builtins/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index cc083cf..c8b70e4 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -145,7 +145,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	} else
 		count = srclen;
 	
-	ssize_t res = send(fd, srcptr, count, 0);
+	ssize_t res = send(fd, srcptr, count, MSG_NOSIGNAL);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
 	return returnValues2(error, runtime, rets, "i", (long long int) res);
-- 
2.43.0


From c00b2d9f3c008f5bd566e600b1fef226f1a2e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 53/95] hook: allocate heap objects one by one when NOJA_VERIF
 is defined

---
 src/lib/objects/heap.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 9e9466a..8da3b0c 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -315,12 +315,33 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 
 		addr = oflow->body;
 	}
+#ifdef NOJA_VERIF
+	else
+	{
+		// Account for the memory as if it came from the pool,
+		// but get it from malloc so that memory checkers see 
+		// the exact bounds and lifetime of each allocation.
+		OflowAlloc *alloc = malloc(sizeof(OflowAlloc) + size);
+
+		if(alloc == NULL)
+		{
+			Error_Report(err, ErrorType_INTERNAL, "No memory");
+			return NULL;
+		}
+
+		alloc->prev = heap->oflow;
+		heap->oflow = alloc;
+		addr = alloc->body;
+		heap->used += size;
+	}
+#else
 	else
 	{
 		assert(heap->used + size <= heap->size);
 		addr = heap->body + heap->used;
 		heap->used += size;
 	}
+#endif
 
 	heap->total += size + padding;
 
-- 
2.43.0


From 594d3c555587a3c85d93d87a8c0bec0499f71451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:09 +0000
Subject: [PATCH 54/95] fix: byte sequences that aren't valid UTF-8 were
 accepted as strings

---
 src/lib/utils/utf8.c | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/lib/utils/utf8.c b/src/lib/utils/utf8.c
index 88fdc2d..258cdba 100644
--- a/src/lib/utils/utf8.c
+++ b/src/lib/utils/utf8.c
@@ -105,6 +105,12 @@ int utf8_sequence_from_utf32_codepoint(char *utf8_data, int nbytes, uint32_t utf
     return -1;
 }
 
+static _Bool is_auxiliary_byte(char c)
+{
+    // 10xxxxxx
+    return ((unsigned char) c & 0xc0) == 0x80;
+}
+
 /* SYMBOL
 **   utf8_sequence_to_utf32_codepoint
 **
@@ -151,6 +157,10 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
     {
         // May be UTF-8.
             
+        if((unsigned char) utf8_data[0] >= 0xF8)
+            // There's no such head byte.
+            return -1;
+
         if((unsigned char) utf8_data[0] >= 0xF0)
             {
                 // 4 bytes.
@@ -158,6 +168,11 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
 
                 if(nbytes < 4)
                     return -1;
+
+                if(!is_auxiliary_byte(utf8_data[1])
+                || !is_auxiliary_byte(utf8_data[2])
+                || !is_auxiliary_byte(utf8_data[3]))
+                    return -1;
                     
                 uint32_t temp 
                     = (((uint32_t) utf8_data[0] & 0x07) << 18) 
@@ -165,7 +180,7 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                     | (((uint32_t) utf8_data[2] & 0x3f) <<  6)
                     | (((uint32_t) utf8_data[3] & 0x3f));
 
-                if(temp > 0x10ffff)
+                if(temp < 0x10000 || temp > 0x10ffff)
                     return -1;
 
                 *utf32_code = temp;
@@ -180,12 +195,16 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 if(nbytes < 3)
                     return -1;
 
+                if(!is_auxiliary_byte(utf8_data[1])
+                || !is_auxiliary_byte(utf8_data[2]))
+                    return -1;
+
                 uint32_t temp
                     = (((uint32_t) utf8_data[0] & 0x0f) << 12)
                     | (((uint32_t) utf8_data[1] & 0x3f) <<  6)
                     | (((uint32_t) utf8_data[2] & 0x3f));
                 
-                if(temp > 0x10ffff)
+                if(temp < 0x800)
                     return -1;
 
                 *utf32_code = temp;
@@ -200,18 +219,23 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 if(nbytes < 2)
                     return -1;
 
-                *utf32_code 
+                if(!is_auxiliary_byte(utf8_data[1]))
+                    return -1;
+
+                uint32_t temp
                     = (((uint32_t) utf8_data[0] & 0x1f) << 6)
                     | (((uint32_t) utf8_data[1] & 0x3f));
-                    
-                ASSERT(*utf32_code <= 0x10ffff);
+
+                if(temp < 0x80)
+                    return -1;
+
+                *utf32_code = temp;
                 return 2;
             }
             
-        // 1 byte
         // 10xxxxxx
-        *utf32_code = (uint32_t) utf8_data[0] & 0x3f;
-        return 1;
+        // An auxiliary byte with no head.
+        return -1;
     }
 
     // It's ASCII
-- 
2.43.0


From 3ef934c6808cc280cc76c7d73be461ccb4b97526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:09 +0000
Subject: [PATCH 55/95] fix: utf8_next could read past the end of the string

---
 src/lib/utils/utf8.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils/utf8.c b/src/lib/utils/utf8.c
index 258cdba..82669e7 100644
--- a/src/lib/utils/utf8.c
+++ b/src/lib/utils/utf8.c
@@ -454,13 +454,13 @@ int utf8_prev(const char *utf8_data, int nbytes, int idx, uint32_t *utf32_code)
 int utf8_next(const char *utf8_data, int nbytes, int idx, uint32_t *utf32_code)
 {
     // Get the byte count of the current sequence.
-    int n = utf8_sequence_to_utf32_codepoint(utf8_data + idx, nbytes, NULL);
+    int n = utf8_sequence_to_utf32_codepoint(utf8_data + idx, nbytes - idx, NULL);
     
     if(n < 1)
         return -1;
 
     // Now get the codepoint of the next sequence.
-    int k = utf8_sequence_to_utf32_codepoint(utf8_data + idx + n, nbytes, utf32_code);
+    int k = utf8_sequence_to_utf32_codepoint(utf8_data + idx + n, nbytes - idx - n, utf32_code);
 
     if(k < 1)
         return -1;
-- 
2.43.0


From 6f7d7459e25d4dc13e2fc8e3007e156f4b5d0a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 56/95] fix: CALL and CHECKTYPE overflowed or truncated big or
 negative operands

---
 src/lib/run.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index e67715d..26a4d9c 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -771,7 +771,7 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(ops[1].type == OPTP_STRING);
 			
 			const char *arg_name; 
-			int arg_index;
+			long long int arg_index;
 			
 			arg_index = ops[0].as_int;
 			arg_name  = ops[1].as_string;
@@ -807,8 +807,8 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 				// isn't written by the stream.
 				allowed[sizeof(allowed)-1] = '\0';
 				provided[sizeof(provided)-1] = '\0';
-				Error_Report(error, ErrorType_RUNTIME, "Argument %d \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
-							 arg_index+1, arg_name, allowed, provided);
+				Error_Report(error, ErrorType_RUNTIME, "Argument %lld \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
+							 (long long int) (arg_index + 1ULL), arg_name, allowed, provided);
 				return 0;
 			}
 			return 1;
@@ -820,9 +820,12 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(ops[0].type == OPTP_INT);
 			ASSERT(ops[1].type == OPTP_INT);
 
-			int argc = ops[0].as_int;
-			int retc = ops[1].as_int;
-			ASSERT(argc >= 0 && retc > 0);
+			long long int argc = ops[0].as_int;
+			long long int retc = ops[1].as_int;
+			if (argc < 0 || retc < 0) {
+				Error_Report(error, ErrorType_INTERNAL, "Invalid operands for CALL");
+				return 0;
+			}
 
 			Object *callable;
 			if (!Runtime_Pop(runtime, error, &callable, 1)) {
@@ -849,11 +852,11 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 
 			ASSERT(error->occurred == 0);
 
-			for(int g = 0; g < MIN(num_rets, retc); g += 1)
+			for(long long int g = 0; g < MIN(num_rets, retc); g += 1)
 				if(!Runtime_Push(runtime, error, rets[g]))
 					return 0;
 
-			for(int g = 0; g < retc - num_rets; g += 1)
+			for(long long int g = 0; g < retc - num_rets; g += 1)
 			{
 				Object *temp = Object_NewNone(Runtime_GetHeap(runtime), error);
 				if(temp == NULL)
-- 
2.43.0


From 0f856de229a7e56a6827550f9991655d02d6bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:34 +0000
Subject: [PATCH 57/95] fix: a misplaced token or the end of the source in an
 expression was reported as an internal error

---
 src/lib/compiler/parse.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index da3096f..a542839 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1492,12 +1492,12 @@ static Node *parse_primary_expresion(Context *ctx)
 
 		case TDONE:
 		*ctx->error_offset = ctx->token->offset;
-		Error_Report(ctx->error, ErrorType_INTERNAL, "Unexpected end of source where a primary expression was expected");
+		Error_Report(ctx->error, ErrorType_SYNTAX, "Unexpected end of source where a primary expression was expected");
 		return NULL;
 
 		default:
 		*ctx->error_offset = ctx->token->offset;
-		Error_Report(ctx->error, ErrorType_INTERNAL, "Unexpected token \"%.*s\" where a primary expression was expected", ctx->token->length, ctx->src + ctx->token->offset);
+		Error_Report(ctx->error, ErrorType_SYNTAX, "Unexpected token \"%.*s\" where a primary expression was expected", ctx->token->length, ctx->src + ctx->token->offset);
 		return NULL;
 	}
 
@@ -1703,7 +1703,7 @@ static Node *parse_prefix_expression_2(Context *ctx)
 	{
 		case TDONE:
 		*ctx->error_offset = ctx->token->offset;
-		Error_Report(ctx->error, ErrorType_INTERNAL, "Unexpected end of source where a prefix expression was expected");
+		Error_Report(ctx->error, ErrorType_SYNTAX, "Unexpected end of source where a prefix expression was expected");
 		return NULL;
 
 		case '+':
-- 
2.43.0


From c2201194a82163d5242734d14e9de942a2e96d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:04 +0000
Subject: [PATCH 58/95] fix: a native function object was used after a
 collection during its call

---
 src/lib/run.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 26a4d9c..24756b4 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -275,7 +275,8 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 	}
 
 	ASSERT(func->callback != NULL);
-	int retc = func->callback(func->runtime, argv2, argc2, rets, error);
+	Runtime *runtime = func->runtime;
+	int retc = func->callback(runtime, argv2, argc2, rets, error);
 		
 	// NOTE: Since the callback may have executed some bytecode, a GC
 	//       cycle may have been triggered, therefore we must assume
@@ -285,7 +286,7 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 	if(argv2 != argv)
 		free(argv2);
 
-	if (retc >= 0 && !Runtime_PopFrame(func->runtime))
+	if (retc >= 0 && !Runtime_PopFrame(runtime))
     	return -1;
 
 	return retc;
-- 
2.43.0


From 2d5101d7b64d304ba20bc39ab02256b08b7e52b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:33 +0000
Subject: [PATCH 59/95] fix: POP's operand was truncated to 32 bits

---
 src/lib/run.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/run.c b/src/lib/run.c
index 24756b4..fb9e9ab 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1,4 +1,5 @@
 #include <time.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "runtime.h"
@@ -762,6 +763,11 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 		case OPCODE_POP:
 		{
 			ASSERT(opc == 1);
+			if(ops[0].as_int < 0 || ops[0].as_int > (long long int) UINT_MAX)
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Frame has not enough values on the stack");
+				return 0;
+			}
 			return Runtime_Pop(runtime, error, NULL, ops[0].as_int);
 		}
 
-- 
2.43.0


From 7b5c8acedce499d749d2d0ea8665c6619fdb024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:13 +0000
Subject: [PATCH 60/95] fix: the assembler didn't round floating operands
 correctly

---
 src/lib/assembler/assemble.c | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index 7a54fde..96148a0 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -1,5 +1,6 @@
 #include <ctype.h>
 #include <limits.h>
+#include <stdlib.h>
 #include <string.h>
 #include <assert.h>
 #include "../executable.h"
@@ -244,35 +245,21 @@ static bool parseFloatingOperand(Context *ctx, Error *error, Operand *op)
         ctx->cur++;
     }
 
-    double buffer = 0;
-    do {
-        // Transform each digit into its integer value.
-        int d = ctx->str[ctx->cur] - '0';
-        assert(d >= 0 && d <= 9);
-
-        // Should overflow be checked?
-        buffer = buffer * 10 + d;
+    // Adding the digits one by one would accumulate the
+    // rounding errors. (The body of a source is always
+    // zero terminated.)
+    double buffer = strtod(ctx->str + ctx->cur, NULL);
 
+    // Skip the integer part, the dot and the decimal part.
+    while(ctx->str[ctx->cur] != '.')
         ctx->cur += 1;
-    } while(ctx->str[ctx->cur] != '.');
 
     assert(ctx->cur+1 < ctx->len && ctx->str[ctx->cur] == '.' && isdigit(ctx->str[ctx->cur+1]));
 
-    // Skip the dot.
-    ctx->cur += 1;
-
-    double q = 1;
-    do {
-        // Transform each digit into its integer value.
-        int d = ctx->str[ctx->cur] - '0';
-        assert(d >= 0 && d <= 9);
-
-        q /= 10;
-        buffer += q * d;
-
+    do
         ctx->cur += 1;
-    } while(ctx->cur < ctx->len && isdigit(ctx->str[ctx->cur]));
-    
+    while(ctx->cur < ctx->len && isdigit(ctx->str[ctx->cur]));
+
     op->type = OPTP_FLOAT;
     op->as_float = sign * buffer;
     return true;
-- 
2.43.0


From 0da2de094d55826aedf8cbbf3e2f0e41a8a62aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:56 +0000
Subject: [PATCH 61/95] fix: paths containing a null byte referred to other
 files

---
 src/lib/builtins/basic.c |  5 +++++
 src/lib/builtins/files.c | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index e152231..8ad6bf1 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -133,6 +133,11 @@ static int bin_import(Runtime *runtime,
 		return -1;
 
 	const char *path = pargs[0].as_string.data;
+	if (memchr(path, '\0', pargs[0].as_string.size) != NULL) {
+		// It would refer to some other file.
+		Error_Report(error, ErrorType_UNSPECIFIED, "File path contains a null byte");
+		return -1;
+	}
 	return runFileRelativeToScript(runtime, path, rets, error);
 }
 
diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index 33bcd14..139fa70 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -29,6 +29,7 @@
 */
 
 #include <errno.h>
+#include <string.h>
 #include "files.h"
 #include "utils.h"
 #include "../utils/defs.h"
@@ -53,6 +54,11 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	const char *path = pargs[0].as_string.data;
 	int64_t     mode = pargs[1].as_int;
 
+	// The null byte can't be in the name of a file. It
+	// would make the path refer to some other file.
+	if (memchr(path, '\0', pargs[0].as_string.size) != NULL)
+		return returnValues2(error, runtime, rets, "ns", "File path contains a null byte");
+
 	FILE *fp;
 	{
 		const char *mode2;
@@ -186,9 +192,13 @@ static int bin_openDir(Runtime *runtime, Object **argv, unsigned int argc, Objec
 
 	Heap *heap = Runtime_GetHeap(runtime);
 
-	const char *path = Object_GetString(argv[0], NULL);
+	size_t pathlen;
+	const char *path = Object_GetString(argv[0], &pathlen);
 	ASSERT(path != NULL);
 
+	if (memchr(path, '\0', pathlen) != NULL)
+		return 0; // There can't be such a directory.
+
 	DIR *dir = opendir(path);
 
 	if(dir == NULL)
-- 
2.43.0


From 3f923dc1c6f65438bd9f4dee67dda76db7c0fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:51 +0000
Subject: [PATCH 62/95] fix: reading from a file after writing to it could lose
 what was written

---
 src/lib/builtins/files.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index 139fa70..e308a8f 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -136,6 +136,12 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	} else
 		count = (size_t) dstlen;
 
+	// If the last operation on the stream was a write, it must be
+	// repositioned before it can be read. Without this, what was
+	// written may be lost. (For streams that don't have a position
+	// this fails, with no consequence.)
+	fseek(stream, 0, SEEK_CUR);
+
 	size_t n = fread(dstptr, 1, count, stream);
 	
 	return returnValues2(error, runtime, rets, "i", (long long int) n);
-- 
2.43.0


From e331ab3cbde837cda193f0d1961640b4047a040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 63/95] fix: paths were made absolute wrongly from the root
 directory

---
 src/lib/utils/path.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/utils/path.c b/src/lib/utils/path.c
index 5b4a995..e9aa56f 100644
--- a/src/lib/utils/path.c
+++ b/src/lib/utils/path.c
@@ -19,12 +19,15 @@ const char *Path_MakeAbsolute(const char *path, char *buff, size_t buffsize)
         return NULL;
 
     size_t written = strlen(buff);
-    assert(buff[written-1] != '/');
 
-    if(written+1 >= buffsize)
-        return NULL; // No space for the / following the cwd.
+    // The root is the only directory ending with a slash.
+    if(buff[written-1] != '/') {
 
-    buff[written++] = '/';
+        if(written+1 >= buffsize)
+            return NULL; // No space for the / following the cwd.
+
+        buff[written++] = '/';
+    }
 
     size_t n = strlen(path);
     if(written + n >= buffsize)
-- 
2.43.0


From 9ac708d87c495f59e3e5b64fe51e47863651125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 64/95] fix: AST diagrams showed arguments and parameters in
 reverse order

---
 src/lib/compiler/graphviz.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index 08834c6..1054b83 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -274,6 +274,21 @@ static void tupleToGraphViz(GraphViz *ctx, ExprNode *root, int *count, char *nam
 		free(items);
 }
 
+// The arguments of calls and functions are stored
+// from the last to the first.
+static Node *reverseNodes(Node *list)
+{
+	Node *reversed = NULL;
+	while(list)
+	{
+		Node *next = list->next;
+		list->next = reversed;
+		reversed = list;
+		list = next;
+	}
+	return reversed;
+}
+
 static void funcExprToGraphViz(GraphViz *ctx, FuncExprNode *func, char *func_name, int *count, char *name)
 {
 	GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, func_name);
@@ -283,6 +298,7 @@ static void funcExprToGraphViz(GraphViz *ctx, FuncExprNode *func, char *func_nam
 	GraphViz_AppendHead(ctx, "\t%s [label=\"args\"];\n", name2);
 	GraphViz_AppendBody(ctx, "\t%s -> %s;\n", name, name2);
 
+	func->argv = reverseNodes(func->argv);
 	ArgumentNode *arg = (ArgumentNode*) func->argv;
 	while(arg)
 	{
@@ -294,6 +310,7 @@ static void funcExprToGraphViz(GraphViz *ctx, FuncExprNode *func, char *func_nam
 		if (arg->type != NULL)  childToGraphViz(ctx, arg->type,  count, name3);
 		arg = (ArgumentNode*) arg->base.next;
 	}
+	func->argv = reverseNodes(func->argv);
 
 	childToGraphViz(ctx, func->body, count, name);
 }
@@ -416,12 +433,14 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 
 			childToGraphViz(ctx, call->func, count, name);
 
+			call->argv = reverseNodes(call->argv);
 			Node *arg = call->argv;
 			while(arg)
 			{
 				childToGraphViz(ctx, arg, count, name);
 				arg = arg->next;
 			}
+			call->argv = reverseNodes(call->argv);
 		}
 		return;
 
-- 
2.43.0


From fa4cfee92cbf09a95c6997cff3439dcc49017e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:41 +0000
Subject: [PATCH 65/95] fix: collecting garbage wrote to the static objects
 that runtimes share

---
 src/lib/objects/heap.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 8da3b0c..a0969a2 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -520,8 +520,11 @@ void Heap_CollectReference(Object **referer, void *userp)
 		if(old_location->flags & Object_STATIC)
 	
 			// The object doesn't need to be moved
-			// since it was statically allocated.
-			new_location = old_location;
+			// since it was statically allocated, and
+			// it only refers to other objects of its
+			// kind. It's shared by all of the heaps,
+			// so it mustn't be written to.
+			return;
 		else
 		{
 			// Get some information.
-- 
2.43.0


From 27790b751602fcc849e55d9cb3993db6447cc561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:42 +0000
Subject: [PATCH 66/95] fix: printing, hashing, copying and matching wrote to
 the static objects that runtimes share

---
 src/lib/objects/objects.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index f17e569..335be74 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -98,6 +98,24 @@ Object_KeysOf(Object *self,
 	return self->type->keysof(self, heap, error);
 }
 
+/* Mark an object as being visited, to notice when it contains
+ * itself, and unmark it.
+ *
+ * Static objects don't contain others and are shared by all of
+ * the runtimes of the process, so they're never written to.
+ */
+static void mark(Object *obj, int flag)
+{
+	if(!(obj->flags & Object_STATIC))
+		obj->flags |= flag;
+}
+
+static void unmark(Object *obj, int flag)
+{
+	if(!(obj->flags & Object_STATIC))
+		obj->flags &= ~flag;
+}
+
 bool Object_IsTypeOf(Object *typ, Object *obj, Heap *heap, Error *error)
 {
 	if (typ->type->istypeof == NULL)
@@ -109,9 +127,9 @@ bool Object_IsTypeOf(Object *typ, Object *obj, Heap *heap, Error *error)
 		return false;
 	}
 
-	typ->flags |= Object_MATCH;
+	mark(typ, Object_MATCH);
 	bool result = typ->type->istypeof(typ, obj, heap, error);
-	typ->flags &= ~Object_MATCH;
+	unmark(typ, Object_MATCH);
 	return result;
 }
 
@@ -131,9 +149,9 @@ int Object_Hash(Object *obj)
 	if(obj->flags & Object_HASH)
 		return 0;
 
-	obj->flags |= Object_HASH;
+	mark(obj, Object_HASH);
 	int hash = type->hash(obj);
-	obj->flags &= ~Object_HASH;
+	unmark(obj, Object_HASH);
 	return hash;
 }
 
@@ -157,9 +175,9 @@ Object *Object_Copy(Object *obj, Heap *heap, Error *err)
 		return NULL;
 	}
 
-	obj->flags |= Object_COPY;
+	mark(obj, Object_COPY);
 	Object *copy = type->copy(obj, heap, err);
-	obj->flags &= ~Object_COPY;
+	unmark(obj, Object_COPY);
 	return copy;
 }
 
@@ -187,7 +205,7 @@ void Object_Print(Object *obj, FILE *fp)
 		fprintf(fp, "...");
 	} else {
 		
-		obj->flags |= Object_PRINT;
+		mark(obj, Object_PRINT);
 
 		const TypeObject *type = Object_GetType(obj);
 		ASSERT(type);
@@ -197,7 +215,7 @@ void Object_Print(Object *obj, FILE *fp)
 		else
 			type->print(obj, fp);
 		
-		obj->flags  &= ~Object_PRINT;
+		unmark(obj, Object_PRINT);
 	}
 }
 
-- 
2.43.0


From fd145bff433d45bd8fc958ec94b3511244fc23fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 67/95] fix: files of more than 4 GB were silently run up to a
 part of their content

---
 src/lib/utils/source.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/utils/source.c b/src/lib/utils/source.c
index e3c3d95..86cf6d8 100644
--- a/src/lib/utils/source.c
+++ b/src/lib/utils/source.c
@@ -35,6 +35,7 @@
 #include <unistd.h>
 #include <errno.h>
 #include <stdio.h>
+#include <limits.h>
 #include "source.h"
 #include "path.h"
 
@@ -104,7 +105,7 @@ Source *Source_FromFile(const char *file, Error *error)
 	// cursor will point at the start of
 	// the file.
 	FILE *fp;
-	int size;
+	long size;
 	{
 		fp = fopen(abs_path, "rb");
 
@@ -133,6 +134,13 @@ Source *Source_FromFile(const char *file, Error *error)
 			return NULL;	
 		}
 
+		if(size > INT_MAX)
+		{
+			Error_Report(error, ErrorType_INTERNAL, "File \"%s\" is too big", file);
+			fclose(fp);
+			return NULL;
+		}
+
 		if(fseek(fp, 0, SEEK_SET))
 		{
 			Error_Report(error, ErrorType_INTERNAL, "Call to fseek failed (%s, errno = %d)", strerror(errno), errno);
@@ -167,11 +175,11 @@ Source *Source_FromFile(const char *file, Error *error)
 
 	// Now copy the file contents into it.
 	{
-		int p = fread(s->body, 1, size, fp);
+		long p = fread(s->body, 1, size, fp);
 
 		if(p != size)
 		{
-			Error_Report(error, ErrorType_INTERNAL, "Call to fread failed, %d bytes out of %d were read (%s, errno = %d)", p, size, strerror(errno), errno);
+			Error_Report(error, ErrorType_INTERNAL, "Call to fread failed, %ld bytes out of %ld were read (%s, errno = %d)", p, size, strerror(errno), errno);
 			fclose(fp);
 			free(s);
 			return NULL;
-- 
2.43.0


From 023ab0f6a9644916ea97e7c6d88fc90deb67d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:37 +0000
Subject: [PATCH 68/95] fix: heap sizes which aren't numbers or are too big
 were taken for others

---
 src/cli/main.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 2c60fee..8ece3e1 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -29,6 +29,8 @@
 */
 #include <stdio.h>
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
 #include <string.h>
 #include <stdlib.h>
 #include <signal.h>
@@ -124,12 +126,16 @@ int main(int argc, char **argv)
 				usage(stderr, argv[0]);
 				return -1;
 			}
-			heap = atoi(argv[++i]);
-			if (heap == 0) {
+			i++;
+			char *end;
+			errno = 0;
+			long size = strtol(argv[i], &end, 10);
+			if (end == argv[i] || *end != '\0' || errno != 0 || size <= 0 || size > INT_MAX) {
 				fprintf(stderr, "Invalid heap size\n");
 				usage(stderr, argv[0]);
 				return -1;
 			}
+			heap = size;
 			
 		} else {
 			input = argv[i];
-- 
2.43.0


From da685b9dd2471d9bb536021cb7b57edbb8628a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:53 +0000
Subject: [PATCH 69/95] fix: failing to write the profiling results to a file
 was silent

---
 src/cli/main.c    | 6 ++++--
 src/lib/runtime.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 8ece3e1..a6243c9 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -258,8 +258,10 @@ int main(int argc, char **argv)
 			code = 0;
 			if (output == NULL)
 				Runtime_SerializeProfilingResultsToStream(runtime, stdout);
-			else
-				Runtime_SerializeProfilingResultsToFile(runtime, output);
+			else if (!Runtime_SerializeProfilingResultsToFile(runtime, output)) {
+				fprintf(stderr, "Error: Couldn't write '%s'\n", output);
+				code = -1;
+			}
 			Runtime_Free(runtime);
 			break;
 		}
diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index f6d6f92..a64bb02 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -842,6 +842,8 @@ bool Runtime_SerializeProfilingResultsToFile(Runtime *runtime, const char *file)
     if (stream == NULL)
         return false;
     Runtime_SerializeProfilingResultsToStream(runtime, stream);
-    fclose(stream);
-    return true;
+    bool failed = ferror(stream);
+    if (fclose(stream))
+        failed = true;
+    return !failed;
 }
\ No newline at end of file
-- 
2.43.0


From 07df49ce5fd35da1bb5b572cfa72337b7253c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:54 +0000
Subject: [PATCH 70/95] fix: failing to write an AST diagram was silent

---
 src/cli/main.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index a6243c9..aeacdd8 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -190,10 +190,18 @@ int main(int argc, char **argv)
 					break;
 				}
 			}
-			fwrite(result, 1, strlen(result), stream);
+			size_t length = strlen(result);
+			bool written = fwrite(result, 1, length, stream) == length;
+			if (fflush(stream))
+				written = false;
 			if (stream != stdout)
 				fclose(stream);
 			free(result);
+			if (!written) {
+				fprintf(stderr, "Error: Couldn't write the diagram\n");
+				code = -1;
+				break;
+			}
 		}
 		code = 0;
 		break;
-- 
2.43.0


From f9c9a7ce235db225aaa3015fac1ebe2d3640cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:37 +0000
Subject: [PATCH 71/95] fix: the file given with -o was emptied even with
 nothing to write to it

---
 src/cli/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index aeacdd8..38961e9 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -264,7 +264,9 @@ int main(int argc, char **argv)
 			}
 			
 			code = 0;
-			if (output == NULL)
+			if (!profile)
+				; // Nothing to report.
+			else if (output == NULL)
 				Runtime_SerializeProfilingResultsToStream(runtime, stdout);
 			else if (!Runtime_SerializeProfilingResultsToFile(runtime, output)) {
 				fprintf(stderr, "Error: Couldn't write '%s'\n", output);
-- 
2.43.0


From bb03119c5112f16dfb17750301d1f35714d5249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:53 +0000
Subject: [PATCH 72/95] fix: a signal received while ending wrote to the
 runtime already released

---
 src/cli/main.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 38961e9..63caba0 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -70,7 +70,16 @@ typedef enum {
 	Mode_HELP,
 } Mode;
 
-Runtime *runtime = NULL;
+Runtime *volatile runtime = NULL;
+
+// Release the runtime, which the signal
+// handler mustn't refer to anymore.
+static void freeRuntime(void)
+{
+	Runtime *temp = runtime;
+	runtime = NULL;
+	Runtime_Free(temp);
+}
 
 static void signalHandler(int signo)
 {
@@ -236,7 +245,7 @@ int main(int argc, char **argv)
 		   	Error_Print(&error, ErrorType_RUNTIME, stderr);
 		   	Error_Free(&error);
 		   	Runtime_PrintStackTrace(runtime, stderr);
-		    	Runtime_Free(runtime);
+		    	freeRuntime();
 		    	code = -1;
 		    	break;
 		   }
@@ -258,7 +267,7 @@ int main(int argc, char **argv)
 				Error_Print(&error, ErrorType_RUNTIME, stderr);
 		    	Error_Free(&error);
 		    	Runtime_PrintStackTrace(runtime, stderr);
-		    	Runtime_Free(runtime);
+		    	freeRuntime();
 		    	code = -1;
 		    	break;
 			}
@@ -272,7 +281,7 @@ int main(int argc, char **argv)
 				fprintf(stderr, "Error: Couldn't write '%s'\n", output);
 				code = -1;
 			}
-			Runtime_Free(runtime);
+			freeRuntime();
 			break;
 		}
 	}
-- 
2.43.0


From fa3674e5d2d7bf2d8e454fef6383c3fe11e3ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:55 +0000
Subject: [PATCH 73/95] fix: a program waiting for input or for a connection
 couldn't be stopped with a signal

---
 src/cli/main.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 63caba0..82bc522 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -235,8 +235,14 @@ int main(int argc, char **argv)
 				code = -1;
 				break;
 			}
-			signal(SIGINT,  signalHandler);
-		   signal(SIGTERM, signalHandler);
+
+			// Calls that wait for something aren't restarted, or
+			// the program couldn't be stopped in the meantime.
+			struct sigaction action;
+			memset(&action, 0, sizeof(action));
+			action.sa_handler = signalHandler;
+			sigaction(SIGINT,  &action, NULL);
+			sigaction(SIGTERM, &action, NULL);
 
 			Error error;
 		   Error_Init(&error);
-- 
2.43.0


From ef4221d0aba99e30f1dd4fa430100c8af948ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:56 +0000
Subject: [PATCH 74/95] fix: failing to write the output was silent

---
 src/cli/main.c           |  5 +++++
 src/lib/builtins/basic.c | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 82bc522..6585c64 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -288,6 +288,11 @@ int main(int argc, char **argv)
 				code = -1;
 			}
 			freeRuntime();
+
+			if (fflush(stdout) || ferror(stdout)) {
+				fprintf(stderr, "Error: Couldn't write to the standard output\n");
+				code = -1;
+			}
 			break;
 		}
 	}
diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index 8ad6bf1..e599282 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -110,12 +110,20 @@ static int bin_typename(Runtime *runtime, Object **argv, unsigned int argc, Obje
 
 static int bin_print(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
 {
-	UNUSED(runtime);
 	UNUSED(rets);
-	UNUSED(error);
-	
+
+	FILE *stream = Runtime_GetOutputStream(runtime);
+
 	for(int i = 0; i < (int) argc; i += 1)
-		Object_Print(argv[i], Runtime_GetOutputStream(runtime));
+	{
+		Object_Print(argv[i], stream);
+
+		if(ferror(stream))
+		{
+			Error_Report(error, ErrorType_INTERNAL, "Couldn't write to the output");
+			return -1;
+		}
+	}
 	return 0;
 }
 
-- 
2.43.0


From 38e41af7f69a600fa3f9de9cb8039030e4338c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:14 +0000
Subject: [PATCH 75/95] fix: net.bind bound another port when the one given was
 out of range

---
 src/lib/builtins/net.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index c8b70e4..1ab657c 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -51,7 +51,10 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (family != AF_INET)
 		return returnValues2(error, runtime, rets, "ns", "Invalid family (only AF_INET is supported at the moment)");
 
-	int   port = pargs[2].as_int;
+	int64_t port = pargs[2].as_int;
+	if (port < 0 || port > 65535)
+		return returnValues2(error, runtime, rets, "ns", "Invalid port");
+
 	const char *addr = pargs[3].defined ? pargs[3].as_string.data : NULL;
 
 	struct in_addr parsed_addr;
-- 
2.43.0


From b8479ea5efe1945e22f79dd5f3b246c14d33a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 76/95] fix: network calls took descriptors and constants that
 don't fit an int for others

---
 src/lib/builtins/net.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 1ab657c..4ed413f 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -1,4 +1,5 @@
 #include <errno.h>
+#include <limits.h>
 #include <string.h>
 #include <unistd.h>
 #include <sys/socket.h>
@@ -7,6 +8,15 @@
 #include "utils.h"
 #include "../utils/defs.h"
 
+// Converts an argument of a system call. The values which
+// don't fit are mapped to one that's invalid for all of them.
+static int toInt(int64_t value)
+{
+	if (value < INT_MIN || value > INT_MAX)
+		return -1;
+	return value;
+}
+
 static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
 {
 	ASSERT(argc == 4);
@@ -14,9 +24,9 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "iii?b"))
 		return -1;
 
-	int domain = pargs[0].as_int;
-	int   type = pargs[1].as_int;
-	int  proto = pargs[2].as_int;
+	int domain = toInt(pargs[0].as_int);
+	int   type = toInt(pargs[1].as_int);
+	int  proto = toInt(pargs[2].as_int);
 	bool reuse = pargs[3].defined ? pargs[3].as_bool : false;
 
 	int fd = socket(domain, type, proto);
@@ -45,8 +55,8 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iii?s"))
 		return -1;
 
-	int     fd = pargs[0].as_int;
-	int family = pargs[1].as_int;
+	int     fd = toInt(pargs[0].as_int);
+	int family = toInt(pargs[1].as_int);
 
 	if (family != AF_INET)
 		return returnValues2(error, runtime, rets, "ns", "Invalid family (only AF_INET is supported at the moment)");
@@ -86,8 +96,8 @@ static int bin_listen(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "ii"))
 		return -1;
 
-	int fd      = pargs[0].as_int;
-	int backlog = pargs[1].as_int;
+	int fd      = toInt(pargs[0].as_int);
+	int backlog = toInt(pargs[1].as_int);
 
 	if (listen(fd, backlog) < 0)
 		return returnValues2(error, runtime, rets, "s", strerror(errno));
@@ -105,7 +115,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
 		return -1;
 
-	int        fd = pargs[0].as_int;
+	int        fd = toInt(pargs[0].as_int);
 	void  *dstptr = pargs[1].as_buffer.data;
 	size_t dstlen = pargs[1].as_buffer.size;
 
@@ -135,7 +145,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
 		return -1;
 
-	int        fd = pargs[0].as_int;
+	int        fd = toInt(pargs[0].as_int);
 	void  *srcptr = pargs[1].as_buffer.data;
 	size_t srclen = pargs[1].as_buffer.size;
 
@@ -163,7 +173,7 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "i"))
 		return -1;
 
-	int fd = pargs[0].as_int;
+	int fd = toInt(pargs[0].as_int);
 	
 	struct sockaddr_in new_addr;
 	socklen_t new_addr_size = sizeof(new_addr);
@@ -186,7 +196,7 @@ static int bin_close(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "i"))
 		return -1;
 
-	int fd = pargs[0].as_int;
+	int fd = toInt(pargs[0].as_int);
 	int res = close(fd);
 	return returnValues2(error, runtime, rets, "i", (long long int) res);
 }
-- 
2.43.0


From 4da79aa890ea8206010e00185bfc53236e582c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:29 +0000
Subject: [PATCH 77/95] fix: net.bind accepted addresses followed by a zero
 byte

---
 src/lib/builtins/net.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 4ed413f..da23245 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -71,6 +71,9 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (addr == NULL)
 		parsed_addr.s_addr = INADDR_ANY;
 	else {
+		if (memchr(addr, '\0', pargs[3].as_string.size) != NULL)
+			return returnValues2(error, runtime, rets, "ns", "Invalid address");
+
 		int res = inet_pton(family, addr, &parsed_addr);
 		if (res == 0) return returnValues2(error, runtime, rets, "ns", "Invalid address");
 		if (res  < 0) return returnValues2(error, runtime, rets, "ns", "Invalid family");
-- 
2.43.0


From 0bf42c1e1a3455852746038fb309f7156f7233d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 78/95] fix: compiling without enough memory used an
 uninitialized flag

---
 src/lib/compiler/codegen.c    | 1 -
 src/lib/compiler/codegenctx.c | 5 +++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/compiler/codegen.c b/src/lib/compiler/codegen.c
index 7ce5d83..61f79d4 100644
--- a/src/lib/compiler/codegen.c
+++ b/src/lib/compiler/codegen.c
@@ -771,7 +771,6 @@ Executable *codegen(AST *ast, BPAlloc *alloc, Error *error, int *error_offset)
 	CodegenContext *ctx = CodegenContext_New(error, error_offset, alloc);
 	if(ctx == NULL) {
 		*error_offset = 0;
-		Error_Report(error, ErrorType_INTERNAL, "No memory");
 		return NULL;
 	}
 
diff --git a/src/lib/compiler/codegenctx.c b/src/lib/compiler/codegenctx.c
index dd49c9d..35b12da 100644
--- a/src/lib/compiler/codegenctx.c
+++ b/src/lib/compiler/codegenctx.c
@@ -81,7 +81,7 @@ CodegenContext *CodegenContext_New(Error *error, int *error_offset, BPAlloc *all
         alloc = BPAlloc_Init(-1);
         if(alloc == NULL) {
             Error_Report(error, ErrorType_INTERNAL, "No memory");
-            return false;
+            return NULL;
         }
         own_alloc = true;
     } else {
@@ -98,8 +98,9 @@ CodegenContext *CodegenContext_New(Error *error, int *error_offset, BPAlloc *all
 
     ExeBuilder *builder = ExeBuilder_New(alloc);
     if(builder == NULL) {
-        if(ctx->own_alloc)
+        if(own_alloc)
             BPAlloc_Free(alloc);
+        Error_Report(error, ErrorType_INTERNAL, "No memory");
         return NULL;
     }
 
-- 
2.43.0


From 35db04b067154fda3172c14717c1bf37e34a07a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 79/95] fix: files.openFile left the file open when its object
 couldn't be made

---
 src/lib/builtins/files.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index e308a8f..8d81719 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -102,7 +102,15 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 			return returnValues(error, heap, rets, "ns", errdesc);
 		}
 	}
-	return returnValues(error, heap, rets, "F", fp);
+
+	int retc = returnValues(error, heap, rets, "F", fp);
+
+	if(retc < 0)
+		// The file object that would have owned 
+		// the stream couldn't be created.
+		(void) fclose(fp);
+
+	return retc;
 }
 
 static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-- 
2.43.0


From f8d375c17e3628f5c4be3a14913d6d9deb3bf388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 80/95] fix: the bytes of a buffer leaked when its object
 couldn't be made

---
 src/lib/objects/o_buffer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index 0d74d99..96d5484 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -105,7 +105,10 @@ Object *Object_NewBuffer(size_t size, Heap *heap, Error *error)
 
 		obj = (BufferObject*) Heap_Malloc(heap, &t_buffer, error);
 		if(obj == NULL)
+		{
+			free(payload);
 			return NULL;
+		}
 
 		obj->payload = payload;
 		obj->offset = 0;
-- 
2.43.0


From 62f6f8b33de817fc31742f12f9bbfdc60d61116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 81/95] fix: the arguments of a call leaked when the missing
 ones couldn't be made

---
 src/lib/run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/run.c b/src/lib/run.c
index fb9e9ab..50743e7 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -83,7 +83,10 @@ static int func_call(Object *self, Object **argv, unsigned int argc, Object *ret
 			argv2[i] = Object_NewNone(heap, error);
 
 			if(argv2[i] == NULL)
+			{
+				free(argv2);
 				return -1;
+			}
 		}
 	}
 	else
-- 
2.43.0


From 3eab5f9284e3d89560ba781f8d7206ddbe2a2b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 82/95] fix: profiling a run without enough memory aborted the
 process

---
 src/lib/run.c    | 4 ++++
 src/lib/timing.c | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 50743e7..7393364 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -195,6 +195,10 @@ Object *Object_FromNojaFunction(Runtime *runtime, const char *name, Executable *
 		size_t line = 0;
 		Source *src = Executable_GetSource(exe);
 		func->timing_id = TimingTable_newEntry(table, src, line, name);
+		if(func->timing_id < 0) {
+			Error_Report(error, ErrorType_INTERNAL, "No memory");
+			return NULL;
+		}
 	}
 
 	return (Object*) func;
diff --git a/src/lib/timing.c b/src/lib/timing.c
index e870b11..4eaaa61 100644
--- a/src/lib/timing.c
+++ b/src/lib/timing.c
@@ -40,6 +40,7 @@ void TimingTable_sumCallTime(TimingTable *table, TimingID id, double time)
 	table->entries[id].time += time;
 }
 
+/* Returns -1 if there isn't enough memory */
 TimingID TimingTable_newEntry(TimingTable *table, Source *src, size_t line, const char *name)
 {
 	if (table->size == table->used) {
@@ -48,7 +49,8 @@ TimingID TimingTable_newEntry(TimingTable *table, Source *src, size_t line, cons
 		if (new_size == 0) new_size = 8;
 
 		void *temp = realloc(table->entries, new_size * sizeof(FunctionExecutionSummary));
-		if (temp == NULL) abort();
+		if (temp == NULL)
+			return -1;
 		
 		table->entries = temp;
 		table->size = new_size;
@@ -56,7 +58,7 @@ TimingID TimingTable_newEntry(TimingTable *table, Source *src, size_t line, cons
 	
 	char *name2 = strdup(name);
 	if (name2 == NULL)
-		abort();
+		return -1;
 	
 	TimingID id = (int) table->used++;
 	table->entries[id].src = Source_Copy(src);
-- 
2.43.0


From 35dea14e644bb0ff72461b97bea6d80fcfef7cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 83/95] fix: selecting a value without enough memory for it
 yielded none

---
 src/lib/run.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/run.c b/src/lib/run.c
index 7393364..2eeb54b 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -907,6 +907,12 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			Object *val = Object_Select(col, key, heap, &dummy);
 
 			if(val == NULL) {
+				if(dummy.occurred && dummy.type == ErrorType_INTERNAL) {
+					// It's not that there's nothing to select. 
+					Error_Report(error, dummy.type, "%s", dummy.message);
+					Error_Free(&dummy);
+					return 0;
+				}
 				Error_Free(&dummy);
 
 				val = Object_NewNone(heap, error);
-- 
2.43.0


From 944c8caa4a9c1691f366d79ff4b3670da56a6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 84/95] fix: variables were reported as undefined when there
 was no memory to read them

---
 src/lib/runtime.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index a64bb02..692e2d0 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -570,6 +570,8 @@ bool Runtime_GetVariable(Runtime *runtime, Error *error, const char *name, Objec
 			continue;
 
 		obj = Object_Select(locations[p], key, heap, error);
+		if(error->occurred)
+			return false;
 	}
 
 	*value = obj;
-- 
2.43.0


From 67422e07b76436473eba4ea6438aa49043ebcdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 85/95] fix: close the file a debug build logs the tokens to

---
 src/lib/compiler/parse.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index a542839..3edc519 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -451,10 +451,6 @@ AST *parse(Source *src, BPAlloc *alloc, Error *error, int *error_offset)
 	assert(alloc != NULL);
 	assert(error != NULL);
 
-#ifdef DEBUG
-		token_dest = fopen("tokens.txt", "wb");
-#endif
-
 	AST *ast = BPAlloc_Malloc(alloc, sizeof(AST));
 
 	if(ast == NULL)
@@ -473,8 +469,18 @@ AST *parse(Source *src, BPAlloc *alloc, Error *error, int *error_offset)
 	ctx.error = error;
 	ctx.error_offset = error_offset;
 	ctx.depth = 0;
+
+#ifdef DEBUG
+	token_dest = fopen("tokens.txt", "wb");
+#endif
+
 	Node *root = parse_compound_statement(&ctx, TDONE);
 
+#ifdef DEBUG
+	if(token_dest != NULL)
+		fclose(token_dest);
+#endif
+
 	if(root == NULL)
 		return NULL;
 
@@ -511,10 +517,11 @@ static inline TokenKind next(Context *ctx, const char *file, int line)
 
 	ctx->token = ctx->token->next;
 
-	fprintf(token_dest, "NEXT [%.*s] -> [%.*s] from %s:%d\n", 
-		      prev->length, ctx->src +       prev->offset,
-		ctx->token->length, ctx->src + ctx->token->offset, 
-		file, line);
+	if(token_dest != NULL)
+		fprintf(token_dest, "NEXT [%.*s] -> [%.*s] from %s:%d\n", 
+			      prev->length, ctx->src +       prev->offset,
+			ctx->token->length, ctx->src + ctx->token->offset, 
+			file, line);
 
 	return current(ctx);
 }
-- 
2.43.0


From 294ff82891fd006880caf925c89466bbc10464bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 86/95] fix: keep the kind of the parser's errors in a debug
 build

---
 src/lib/compiler/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 3edc519..6a11cc2 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -537,13 +537,13 @@ static inline TokenKind prev(Context *ctx)
 
 #define next(ctx) next(ctx, __FILE__, __LINE__)
 
-static void Error_Report_(Error *error, const char *file, const char *func, int line, _Bool internal, const char *fmt, ...)
+static void Error_Report_(Error *error, const char *file, const char *func, int line, ErrorType type, const char *fmt, ...)
 {
 	//fprintf(stderr, "Reporting error at %s:%d (in %s)\n", file, line, func);
 	
 	va_list args;
 	va_start(args, fmt);
-	_Error_Report2(error, internal, file, func, line, fmt, args);
+	_Error_Report2(error, type, file, func, line, fmt, args);
 	va_end(args);
 }
 
-- 
2.43.0


From 624e06c7c3f1334f94a4ddf47f0fa64ae9a4538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 87/95] fix: don't report the error of a call on an empty stack
 twice

---
 src/lib/run.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 2eeb54b..c632b0a 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -841,11 +841,13 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 				return 0;
 			}
 
-			Object *callable;
-			if (!Runtime_Pop(runtime, error, &callable, 1)) {
+			Object *callable = Runtime_Top(runtime, 0);
+			if (callable == NULL) {
 				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute call");
 				return 0;
 			}
+			if (!Runtime_Pop(runtime, error, NULL, 1))
+				return 0;
 
 			Object *argv[32];
 
-- 
2.43.0


From 4f38a006d8369050d975833778dcfae3cbc3faef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 88/95] fix: don't assert that a program returns as many values
 as the limit allows

---
 src/lib/run.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index c632b0a..c21cee8 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1128,11 +1128,9 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 		{
 			ASSERT(opc == 1);
 			ASSERT(ops[0].type == OPTP_INT);
-			int retc = ops[0].as_int;
-			UNUSED(retc);
-			ASSERT(retc >= 0);
-			ASSERT(retc <= MAX_RETS);
-			ASSERT((size_t) retc == Runtime_GetFrameStackUsage(runtime));
+			// The number of returned values is the number of
+			// values left on the frame. It's compared with
+			// the limit when the frame is left.
 			return 0;
 		}
 
-- 
2.43.0


From 5457d9b59aa7362004534348ce49568bf3f6ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:13 +0000
Subject: [PATCH 89/95] fix: report only once that there's no memory for a map

---
 src/lib/objects/o_map.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index c379ecd..c8d7346 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -177,11 +177,17 @@ Object *Object_NewMap(int num, Heap *heap, Error *error)
 
 		obj->mapper_size = mapper_size;
 		obj->count = 0;
+		// NOTE: Only the first failure must be reported.
 		obj->mapper = Heap_RawMalloc(heap, sizeof(int) * mapper_size, error);
-		obj->keys   = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
-		obj->vals   = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
+		if(obj->mapper == NULL)
+			return NULL;
+
+		obj->keys = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
+		if(obj->keys == NULL)
+			return NULL;
 
-		if(obj->mapper == NULL || obj->keys == NULL || obj->vals == NULL)
+		obj->vals = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
+		if(obj->vals == NULL)
 			return NULL;
 	}
 
@@ -275,11 +281,17 @@ static _Bool grow(MapObject *map, Heap *heap, Error *error)
 	int new_mapper_size = map->mapper_size << 1;
 	int new_capacity = calc_capacity(new_mapper_size);
 
-	int *mapper   = Heap_RawMalloc(heap, sizeof(int) * new_mapper_size, error);
+	// NOTE: Only the first failure must be reported.
+	int *mapper = Heap_RawMalloc(heap, sizeof(int) * new_mapper_size, error);
+	if(mapper == NULL)
+		return 0;
+
 	Object **keys = Heap_RawMalloc(heap, sizeof(Object*) * new_capacity, error);
-	Object **vals = Heap_RawMalloc(heap, sizeof(Object*) * new_capacity, error);
+	if(keys == NULL)
+		return 0;
 
-	if(mapper == NULL || keys == NULL || vals == NULL)
+	Object **vals = Heap_RawMalloc(heap, sizeof(Object*) * new_capacity, error);
+	if(vals == NULL)
 		return 0;
 
 	for(int i = 0; i < map->count; i += 1)
-- 
2.43.0


From 40348ab7c66700c0287cd76221521e46f16d509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 90/95] fix: parseArgs marks map arguments as defined

The 'm' format checked the type but left `defined` unset, so callers read
an indeterminate bool.
---
 src/lib/builtins/utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index ee55258..b164784 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -122,6 +122,7 @@ bool parseArgs(Error *error,
 					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a map, but a %s was provided", current_arg+1, arg->type->name);
 					return false;
 				}
+				pargs[current_arg].defined = true;
 				break;
 
 				case 's': /* String */
-- 
2.43.0


From b739ec0a5347a65442bbe38172175382cdc351b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:40 +0000
Subject: [PATCH 91/95] fix: terminate the folder of a script that has no file

---
 src/lib/runtime.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 692e2d0..9ba7dd5 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -242,6 +242,7 @@ size_t Runtime_GetCurrentScriptFolder(Runtime *runtime, char *buff, size_t buffs
 			if (cwdlen+1 >= buffsize)
 				return 0;
 			buff[cwdlen] = '/';
+			buff[cwdlen+1] = '\0';
 			return cwdlen+1;
 		}
 	}
-- 
2.43.0


From 34cfc04f54ce97b32325619241ee5a7ab4599770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:38 +0000
Subject: [PATCH 92/95] fix: a key with a null byte isn't the name before it

The members of the libraries were looked up comparing the strings up to
their first null byte, so that a longer string selected the member.
---
 src/lib/o_staticmap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/o_staticmap.c b/src/lib/o_staticmap.c
index 8f727f0..475bb78 100644
--- a/src/lib/o_staticmap.c
+++ b/src/lib/o_staticmap.c
@@ -117,9 +117,14 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 	if(!Object_IsString(key))
 		return NULL;
 
-	const char *name = Object_GetString(key, NULL);
+	size_t size;
+	const char *name = Object_GetString(key, &size);
 	assert(name != NULL);
 
+	// Strings can contain null bytes, names don't.
+	if(strlen(name) != size)
+		return NULL;
+
 	if(map->slots == NULL)
 		return NULL;
 
-- 
2.43.0


From 7cf522d11cca6311ed1c7f2d300e8523c7a3f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:09 +0000
Subject: [PATCH 93/95] fix: the streams used to format an error may not be
 obtained

When there's no memory fmemopen fails, and the objects were printed to
a null stream.
---
 src/lib/run.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index c21cee8..b5b06f3 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -812,7 +812,12 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 				char allowed[512] = "";
 				FILE *provided_fp = fmemopen(provided, sizeof(provided), "wb");
 				FILE  *allowed_fp = fmemopen(allowed, sizeof(allowed), "wb");
-				// TODO: Check for errors from [fmemopen]
+				if (provided_fp == NULL || allowed_fp == NULL) {
+					if (provided_fp != NULL) fclose(provided_fp);
+					if (allowed_fp != NULL) fclose(allowed_fp);
+					Error_Report(error, ErrorType_INTERNAL, "No memory");
+					return 0;
+				}
 				Object_Print(typ, allowed_fp);
 				Object_Print(arg, provided_fp);
 				fclose(allowed_fp);
-- 
2.43.0


From 4e0583813e268e09a6271083948e772363c2b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:36 +0000
Subject: [PATCH 94/95] fix: sizes and usage of the heap don't fit an int

---
 src/lib/objects/heap.c     | 17 ++++++++---------
 src/lib/objects/o_list.c   |  4 ++--
 src/lib/objects/o_map.c    |  4 ++--
 src/lib/objects/o_string.c |  8 ++++----
 src/lib/objects/objects.c  |  2 +-
 src/lib/objects/objects.h  |  6 +++---
 6 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index a0969a2..5e27334 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -100,8 +100,8 @@ typedef struct {
 struct xHeap {
 	int objcount;
 	int   size;
-	int   used;
-	int   total;
+	long long used;
+	long long total;
 	void *body;
 	OflowAlloc *oflow;
 	PendingDestruct *pend;
@@ -112,8 +112,8 @@ struct xHeap {
 	_Bool out_of_heap;
 	int movedcount;
 	void *old_body;
-	int   old_used;
-	int   old_total;
+	long long old_used;
+	long long old_total;
 	OflowAlloc *old_oflow;
 	Error *error;
 };
@@ -278,22 +278,21 @@ void *Heap_Malloc(Heap *heap, TypeObject *type, Error *err)
 	return (Object*) addr;
 }
 
-void *Heap_RawMalloc(Heap *heap, int size, Error *err)
+void *Heap_RawMalloc(Heap *heap, size_t size, Error *err)
 {
 	assert(err);
 	assert(heap);
-	assert(size > -1);
 
 	void *addr;
 
-	int padding = heap->used;
+	long long padding = heap->used;
 
 	if(heap->used & 7)
 		heap->used = (heap->used & ~7) + 8;
 
 	padding = heap->used - padding;
 
-	if(size > heap->size - heap->used)
+	if(heap->used > heap->size || size > (size_t) (heap->size - heap->used))
 	{
 		// The live objects don't fit in the new pool. The
 		// collection is completed anyway to leave the heap
@@ -468,7 +467,7 @@ _Bool Heap_StopCollection(Heap *heap)
 	return !heap->collection_failed;
 }
 
-void Heap_CollectExtension(void **referer, unsigned int size, void *userp)
+void Heap_CollectExtension(void **referer, size_t size, void *userp)
 {
 	Heap *heap = userp;
 
diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 7dac2d8..715d456 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -44,7 +44,7 @@ static _Bool   insert(Object *self, Object *key, Object *val, Heap *heap, Error
 static int     count(Object *self);
 static void	   print(Object *obj, FILE *fp);
 static void    walk(Object *self, void (*callback)(Object **referer, void *userp), void *userp);
-static void    walkexts(Object *self, void (*callback)(void   **referer, unsigned int size, void *userp), void *userp);
+static void    walkexts(Object *self, void (*callback)(void   **referer, size_t size, void *userp), void *userp);
 static Object *copy(Object *self, Heap *heap, Error *err);
 static int hash(Object *self);
 static bool istypeof(Object *self, Object *other, Heap *heap, Error *error);
@@ -199,7 +199,7 @@ static void walk(Object *self, void (*callback)(Object **referer, void *userp),
 		callback(&list->vals[i], userp);
 }
 
-static void walkexts(Object *self, void (*callback)(void **referer, unsigned int size, void *userp), void *userp)
+static void walkexts(Object *self, void (*callback)(void **referer, size_t size, void *userp), void *userp)
 {
 	ListObject *list = (ListObject*) self;
 	
diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index c8d7346..3061f20 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -45,7 +45,7 @@ static _Bool   insert(Object *self, Object *key, Object *val, Heap *heap, Error
 static int     count(Object *self);
 static void	print(Object *self, FILE *fp);
 static void walk(Object *self, void (*callback)(Object **referer, void *userp), void *userp);
-static void walkexts(Object *self, void (*callback)(void **referer, unsigned int size, void *userp), void *userp);
+static void walkexts(Object *self, void (*callback)(void **referer, size_t size, void *userp), void *userp);
 static Object *copy(Object *self, Heap *heap, Error *err);
 static int hash(Object *self);
 static bool istypeof(Object *self, Object *other, Heap *heap, Error *error);
@@ -208,7 +208,7 @@ static void walk(Object *self, void (*callback)(Object **referer, void *userp),
 	}
 }
 
-static void walkexts(Object *self, void (*callback)(void **referer, unsigned int size, void *userp), void *userp)
+static void walkexts(Object *self, void (*callback)(void **referer, size_t size, void *userp), void *userp)
 {
 	ASSERT(self->type == &t_map);
 
diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index fdb0cb7..e984929 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -47,7 +47,7 @@ static int count(Object *self);
 static Object *copy(Object *self, Heap *heap, Error *err);
 static void print(Object *obj, FILE *fp);
 static _Bool op_eql(Object *self, Object *other);
-static void walkexts(Object *self, void (*callback)(void **referer, unsigned int size, void *userp), void *userp);
+static void walkexts(Object *self, void (*callback)(void **referer, size_t size, void *userp), void *userp);
 static Object *select_(Object *self, Object *key, Heap *heap, Error *error);
 static Object *keysof(Object *self, Heap *heap, Error *error);
 
@@ -156,7 +156,7 @@ Object *Object_FromString(const char *str, int len, Heap *heap, Error *error)
 	if(strobj == NULL)
 		return NULL;
 
-	strobj->body = Heap_RawMalloc(heap, len+1, error);
+	strobj->body = Heap_RawMalloc(heap, (size_t) len+1, error);
 	strobj->bytes = len;
 	strobj->count = count;
 
@@ -228,11 +228,11 @@ static void print(Object *obj, FILE *fp)
 	fwrite(str->body, 1, str->bytes, fp);
 }
 
-static void walkexts(Object *self, void (*callback)(void **referer, unsigned int size, void *userp), void *userp)
+static void walkexts(Object *self, void (*callback)(void **referer, size_t size, void *userp), void *userp)
 {
 	StringObject *str = (StringObject*) self;
 	
-	callback((void**) &str->body, str->bytes+1, userp);
+	callback((void**) &str->body, (size_t) str->bytes+1, userp);
 }
 
 static Object*
diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 335be74..00cdc1f 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -345,7 +345,7 @@ void Object_WalkReferences(Object *parent, void (*callback)(Object **referer, vo
 		parent->type->walk(parent, callback, userp);
 }
 
-void Object_WalkExtensions(Object *parent, void (*callback)(void **referer, unsigned int size, void *userp), void *userp)
+void Object_WalkExtensions(Object *parent, void (*callback)(void **referer, size_t size, void *userp), void *userp)
 {
 	ASSERT(parent != NULL);
 	if(parent->type->walkexts != NULL)
diff --git a/src/lib/objects/objects.h b/src/lib/objects/objects.h
index ecb91e2..1f24cb7 100644
--- a/src/lib/objects/objects.h
+++ b/src/lib/objects/objects.h
@@ -78,7 +78,7 @@ struct TypeObject {
 
 	bool (*op_eql)(Object *self, Object *other);
 	void (*walk)    (Object *self, void (*callback)(Object **referer,                    void *userp), void *userp);
-	void (*walkexts)(Object *self, void (*callback)(void   **referer, unsigned int size, void *userp), void *userp);
+	void (*walkexts)(Object *self, void (*callback)(void   **referer, size_t size, void *userp), void *userp);
 };
 
 enum {
@@ -93,7 +93,7 @@ enum {
 Heap*		 Heap_New(int size);
 void		 Heap_Free(Heap *heap);
 void*		 Heap_Malloc   (Heap *heap, TypeObject *type, Error *err);
-void*		 Heap_RawMalloc(Heap *heap, int size, Error *err);
+void*		 Heap_RawMalloc(Heap *heap, size_t size, Error *err);
 bool  	 	 Heap_StartCollection(Heap *heap, Error *error);
 bool  	  	 Heap_StopCollection(Heap *heap);
 void  	 	 Heap_CollectReference(Object **referer, void *heap);
@@ -115,7 +115,7 @@ Object*		 Object_Delete(Object *coll, Object *key, Heap *heap, Error *err);
 bool 		 Object_Insert(Object *coll, Object *key, Object *val, Heap *heap, Error *err);
 int 		 Object_Count (Object *coll, Error *err);
 void 		 Object_WalkReferences(Object *parent, void (*callback)(Object **referer,                    void *userp), void *userp);
-void 		 Object_WalkExtensions(Object *parent, void (*callback)(void   **referer, unsigned int size, void *userp), void *userp);
+void 		 Object_WalkExtensions(Object *parent, void (*callback)(void   **referer, size_t size, void *userp), void *userp);
 
 Object*		 Object_NewMap(int num, Heap *heap, Error *error);
 Object*		 Object_NewList(int capacity, Heap *heap, Error *error);
-- 
2.43.0


From c3db92266245a5abbfb22cc2b9b7e3f79d3c6cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:48 +0000
Subject: [PATCH 95/95] fix: strings and buffers whose size isn't an int are
 refused

---
 src/lib/builtins/basic.c  |  9 +++++++++
 src/lib/builtins/buffer.c |  8 ++++++++
 src/lib/builtins/string.c | 13 +++++++++++--
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index e599282..d288143 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -28,6 +28,7 @@
 ** +--------------------------------------------------------------------------+ 
 */
 
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
@@ -206,6 +207,14 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 		if(size == cap)
 		{
+			if(cap > INT_MAX / 2)
+			{
+				// The size of a string is an int.
+				if(str != maybe) free(str);
+				Error_Report(error, ErrorType_RUNTIME, "String is too big");
+				return -1;
+			}
+
 			int newcap = cap*2;
 			char *tmp = realloc(str == maybe ? NULL : str, newcap + 1);
 
diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index 0da2f37..fd4edf9 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include "buffer.h"
 #include "utils.h"
 #include "../utils/defs.h"
@@ -23,6 +24,13 @@ static int bin_new(Runtime *runtime, Object **argv, unsigned int argc, Object *r
         return -1;
     }
 
+    // The count of an object is an int.
+    if(size > INT_MAX)
+    {
+        Error_Report(error, ErrorType_RUNTIME, "Buffer size is too big");
+        return -1;
+    }
+
     Object *temp = Object_NewBuffer(size, Runtime_GetHeap(runtime), error);
     
     if(temp == NULL)
diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 6284698..213074c 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -2,6 +2,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <limits.h>
 #include "utils.h"
 #include "string.h"
 #include "../utils/defs.h"
@@ -85,7 +86,7 @@ static int bin_chr(Runtime *runtime, Object **argv, unsigned int argc, Object *r
 
 static int bin_cat(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
 {
-    unsigned int total_count = 0;
+    size_t total_count = 0;
 
     for(unsigned int i = 0; i < argc; i += 1)
     {
@@ -104,6 +105,13 @@ static int bin_cat(Runtime *runtime, Object **argv, unsigned int argc, Object *r
         // does.
     }
 
+    // The size of a string is an int.
+    if(total_count > INT_MAX)
+    {
+        Error_Report(error, ErrorType_RUNTIME, "String is too big");
+        return -1;
+    }
+
     char starting[128];
     char *buffer = starting;
 
@@ -118,7 +126,8 @@ static int bin_cat(Runtime *runtime, Object **argv, unsigned int argc, Object *r
         }
     }
 
-    for(unsigned int i = 0, written = 0; i < argc; i += 1)
+    size_t written = 0;
+    for(unsigned int i = 0; i < argc; i += 1)
     {
         size_t length;
         const char *s = Object_GetString(argv[i], &length);
-- 
2.43.0

