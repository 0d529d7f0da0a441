From 3c388e71f9e6713728b0fe9a9e8b353c665f4076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 01/49] fix: refuse buffer requests whose offset plus length
 overflows

The capacity checks added the cursor and the request size, which wraps for
sizes or cursors near SIZE_MAX and then accesses memory out of bounds.
---
 include/crefl/buf.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index ac69674..8ab9230 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -93,7 +93,8 @@ static size_t crefl_buf_offset(crefl_buf* buf);
 
 static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 {
-    return (buf->data_offset + len > buf->data_size) ? -1 : 0;
+    return (buf->data_offset > buf->data_size ||
+            len > buf->data_size - buf->data_offset) ? -1 : 0;
 }
 
 #if USE_UNALIGNED_ACCESSES && !USE_CRT_MEMCPY
@@ -101,7 +102,7 @@ static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 #define CREFL_BUF_WRITE_IMPL(suffix,T,swap)                                    \
 static inline size_t CREFL_FN(buf_write,suffix)(crefl_buf *buf, T val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T))) return 0;                    \
     T t = swap(val);                                                           \
     *(T*)(buf->data + buf->data_offset) = t;                                   \
     buf->data_offset += sizeof(T);                                             \
@@ -118,7 +119,7 @@ static inline size_t CREFL_FN(buf_write_unchecked,suffix)(crefl_buf *buf, T val)
 #define CREFL_BUF_READ_IMPL(suffix,T,swap)                                     \
 static inline size_t CREFL_FN(buf_read,suffix)(crefl_buf *buf, T* val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T))) return 0;                    \
     T t = *(T*)(buf->data + buf->data_offset);                                 \
     *val = swap(t);                                                            \
     buf->data_offset += sizeof(T);                                             \
@@ -137,7 +138,7 @@ static inline size_t CREFL_FN(buf_read_unchecked,suffix)(crefl_buf *buf, T* val)
 #define CREFL_BUF_WRITE_IMPL(suffix,T,swap)                                    \
 static inline size_t CREFL_FN(buf_write,suffix)(crefl_buf *buf, T val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T))) return 0;                    \
     T t = swap(val);                                                           \
     memcpy(buf->data + buf->data_offset, &t, sizeof(T));                       \
     buf->data_offset += sizeof(T);                                             \
@@ -154,7 +155,7 @@ static inline size_t CREFL_FN(buf_write_unchecked,suffix)(crefl_buf *buf, T val)
 #define CREFL_BUF_READ_IMPL(suffix,T,swap)                                     \
 static inline size_t CREFL_FN(buf_read,suffix)(crefl_buf *buf, T* val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T))) return 0;                    \
     T t;                                                                       \
     memcpy(&t, buf->data + buf->data_offset, sizeof(T));                       \
     *val = swap(t);                                                            \
@@ -182,7 +183,7 @@ CREFL_BUF_READ_IMPL(i64,int64_t,le64)
 
 static inline size_t crefl_buf_read_i8(crefl_buf *buf, int8_t* val)
 {
-    if (buf->data_offset + 1 > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, 1)) return 0;
     *val = *(int8_t*)(buf->data + buf->data_offset);
     buf->data_offset++;
     return 1;
@@ -197,7 +198,7 @@ static inline size_t crefl_buf_read_unchecked_i8(crefl_buf *buf, int8_t* val)
 
 static inline size_t crefl_buf_write_i8(crefl_buf *buf, int8_t val)
 {
-    if (buf->data_offset + 1 > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, 1)) return 0;
     *(int8_t*)(buf->data + buf->data_offset) = val;
     buf->data_offset++;
     return 1;
@@ -211,7 +212,7 @@ static inline size_t crefl_buf_write_unchecked_i8(crefl_buf *buf, int8_t val)
 
 static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len)) return 0;
 #if USE_CRT_MEMCPY
     memcpy(&buf->data[buf->data_offset], src, len);
 #else
@@ -225,7 +226,7 @@ static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size
 
 static inline size_t crefl_buf_read_bytes(crefl_buf* buf, char *dst, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len)) return 0;
 #if USE_CRT_MEMCPY
     memcpy(dst, &buf->data[buf->data_offset], len);
 #else
-- 
2.43.0


From 5bbffbfc38e06eb419531c107c44a7ccb73c8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 02/49] fix: return a signed value from
 crefl_buf_check_capacity

The callers test for a negative result, which is never true of a size_t,
so the LEB128 writers wrote past the end of a full buffer.
---
 include/crefl/buf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index 8ab9230..e98c11a 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -91,7 +91,7 @@ static size_t crefl_buf_offset(crefl_buf* buf);
 
 #define CREFL_FN(Y,X) crefl_ ## Y ## _ ## X
 
-static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
+static inline int crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 {
     return (buf->data_offset > buf->data_size ||
             len > buf->data_size - buf->data_offset) ? -1 : 0;
-- 
2.43.0


From 7dcf70649c9748dbb1557938e194755843f01c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 03/49] fix: refuse octet strings that extend past the end of
 the buffer

Octet string read and write only checked the copied count against what
remains, then moved the cursor by the object length, and a cursor beyond
the end made the remaining length wrap.
---
 include/crefl/buf.h | 3 ++-
 src/asn1.cc         | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index e98c11a..432426f 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -287,7 +287,8 @@ static inline size_t crefl_buf_offset(crefl_buf* buf)
 static inline crefl_span crefl_buf_remaining(crefl_buf* buf)
 {
     crefl_span s = {
-        &buf->data[buf->data_offset], buf->data_size - buf->data_offset
+        &buf->data[buf->data_offset], buf->data_offset > buf->data_size ?
+            0 : buf->data_size - buf->data_offset
     };
     return s;
 }
diff --git a/src/asn1.cc b/src/asn1.cc
index 1718860..c810139 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2587,7 +2587,7 @@ int crefl_asn1_ber_octets_read(crefl_buf *buf, size_t len, asn1_string *obj)
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
@@ -2605,7 +2605,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
-- 
2.43.0


From ee0f22720f67793c9241c914baa4174f8e85b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 04/49] fix: keep both bits of the ASN.1 identifier class

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index c810139..f62c4e2 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -172,7 +172,7 @@ int crefl_asn1_ber_ident_read(crefl_buf *buf, asn1_id *_id)
         goto err;
     }
 
-    _id->_class =       (b >> 6) & 0x02;
+    _id->_class =       (b >> 6) & 0x03;
     _id->_constructed = (b >> 5) & 0x01;
     _id->_identifier =   b       & 0x1f;
 
@@ -196,7 +196,7 @@ int crefl_asn1_ber_ident_write(crefl_buf *buf, asn1_id _id)
 {
     int8_t b;
 
-    b = ( (u8)(_id._class       & 0x02) << 6 ) |
+    b = ( (u8)(_id._class       & 0x03) << 6 ) |
         ( (u8)(_id._constructed & 0x01) << 5 ) |
         ( (u8)(_id._identifier < 0x1f ? _id._identifier : 0x1f) );
 
-- 
2.43.0


From d2d31ce71237be6b0ea21a2409b31285804c4ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 05/49] fix: refuse base-128 integers that continue past the
 eighth octet

The width can not exceed 56 at this point so the check never failed and
an unterminated tag or LEB128 integer was accepted.
---
 src/asn1.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index f62c4e2..f358ff9 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -114,7 +114,7 @@ int crefl_asn1_ber_tag_read(crefl_buf *buf, u64 *tag)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2231,7 +2231,7 @@ int crefl_leb_u64_read(crefl_buf *buf, u64 *value)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2256,7 +2256,7 @@ u64_result crefl_leb_u64_read_byval(crefl_buf *buf)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From 35f3594fc50bbc11654560fe114bee021494c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 06/49] fix: refuse BOOLEAN and INTEGER contents of the wrong
 length

X.690 requires one octet for BOOLEAN and at least one for INTEGER. An empty
INTEGER also shifted by the full width of the type.
---
 src/asn1.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index f358ff9..a0310b5 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -313,6 +313,9 @@ int crefl_asn1_ber_boolean_read(crefl_buf *buf, size_t len, bool *value)
 {
     int8_t b;
 
+    if (len != 1) {
+        goto err;
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
@@ -378,7 +381,7 @@ int crefl_asn1_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -403,7 +406,7 @@ u64_result crefl_asn1_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return { 0, -1 };
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -483,7 +486,7 @@ int crefl_le_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
 
@@ -510,7 +513,7 @@ u64_result crefl_le_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From 0e4b01c837f7c773b1d68d123a6bcdcd47350b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 07/49] fix: make signed integer by-value definitions match
 their declarations

crefl_asn1_der_integer_s64_read_byval could not be linked and
crefl_le_ber_integer_s64_length_byval was declared with a pointer.
---
 include/crefl/asn1.h | 2 +-
 src/asn1.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/asn1.h b/include/crefl/asn1.h
index 4c806e4..50689e2 100644
--- a/include/crefl/asn1.h
+++ b/include/crefl/asn1.h
@@ -208,7 +208,7 @@ size_t crefl_le_ber_integer_s64_length(const s64 *value);
 int crefl_le_ber_integer_s64_read(crefl_buf *buf, size_t len, s64 *value);
 int crefl_le_ber_integer_s64_write(crefl_buf *buf, size_t len, const s64 *value);
 
-size_t crefl_le_ber_integer_s64_length_byval(const s64 *value);
+size_t crefl_le_ber_integer_s64_length_byval(const s64 value);
 struct s64_result crefl_le_ber_integer_s64_read_byval(crefl_buf *buf, size_t len);
 int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 value);
 
diff --git a/src/asn1.cc b/src/asn1.cc
index a0310b5..6bac1fc 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -706,7 +706,7 @@ int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
 
-s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag, s64 *value)
+s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return s64_result { 0, -1 };
-- 
2.43.0


From 52a102834e127703b90338161079e9226ac5790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 08/49] fix: decode the first object identifier octets as X.690
 8.19.4 prescribes

The combined component was split at the wrong boundary (40 is 1.0, and
everything from 80 belongs to root arc 2). Identifiers with too many
components or that overrun the stated length are refused, where the reader
reported a count larger than the array.
---
 src/asn1.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 6bac1fc..3317000 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2449,18 +2449,18 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
          */
-        if (n == 0 && comp > 40) {
-            if (n < limit) obj->oid[n] = comp/40;
-            n++;
-            if (n < limit) obj->oid[n] = comp%40;
-            n++;
+        if (n == 0) {
+            u64 root = comp < 80 ? comp / 40 : 2;
+            obj->oid[n++] = root;
+            obj->oid[n++] = comp - root * 40;
         }
         else {
-            if (n < limit) obj->oid[n] = comp;
-            n++;
+            if (n >= limit) goto err;
+            obj->oid[n++] = comp;
         }
         offset = crefl_buf_offset(buf);
     }
+    if (offset - start != len) goto err;
     obj->count = n;
     return 0;
 err:
-- 
2.43.0


From a26ddbfe2ae4e91bb82f8029d646773ff76a076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 09/49] fix: bound object identifier text by the caller's
 buffer

Once the text exceeded the buffer the remaining size wrapped and the rest
was written past the end.
---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 3317000..1194baa 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2517,8 +2517,8 @@ int crefl_asn1_oid_to_string(char *str, size_t *buflen, const asn1_oid *obj)
         asn1_oid_comp_max : obj->count;
     for (size_t i = 0; i < count; i ++) {
         int ret = snprintf(
-            (limit ? str + offset : NULL),
-            (limit ? limit - offset : 0),
+            (offset < limit ? str + offset : NULL),
+            (offset < limit ? limit - offset : 0),
             (i == 0 ? "%lld" : ".%lld"),
             obj->oid[i]
         );
-- 
2.43.0


From d034c110ae7db6aa11f167b02eb9877fc178210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 10/49] fix: parse object identifier text exactly

Zero components such as 1.0 were rejected, a trailing dot and more than
fifteen components were accepted, and the character after the end of the
text was examined.
---
 src/asn1.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 1194baa..49a19c2 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2533,23 +2533,23 @@ int crefl_asn1_oid_from_string(asn1_oid *obj, const char *str, size_t buflen)
     u64 comp_num = 0;
     size_t last = 0, comp = 0;
     for (size_t i = 0; i <= buflen; i++) {
-        if (i != last && ((i < buflen && str[i] == '.') || i == buflen)) {
-            size_t comp_len = i - last + 1;
-            if (comp < asn1_oid_comp_max) {
-                obj->oid[comp] = comp_num;
+        if (i != last && (i == buflen || str[i] == '.')) {
+            if (comp >= asn1_oid_comp_max) {
+                goto err;
             }
+            obj->oid[comp] = comp_num;
             comp++;
             comp_num = 0;
             last = i + 1;
-        } else if (isdigit(str[i])) {
+        } else if (i < buflen && isdigit((unsigned char)str[i])) {
             u64 num = comp_num * 10 + (int)str[i] - '0';
-            if (num > comp_num && num < (1ull << 56)) {
+            if (num < (1ull << 56)) {
                 comp_num = num;
             } else {
                 goto err;
             }
-        } else if (i == buflen) {
-            //
+        } else if (i == buflen && comp == 0) {
+            // empty string
         } else {
             goto err;
         }
-- 
2.43.0


From 90ad50ed5cb831b42f1b3ed94216ac1fdcc32a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 11/49] fix: check the tag of DER elements

The typed DER readers ignored the tag they were asked to read and decoded
whatever came next. A failure on the header also left the value unset.
---
 src/asn1.cc | 56 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 49a19c2..24bec72 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -298,6 +298,17 @@ err:
     return -1;
 }
 
+/*
+ * read header for tagged value and check the type is the one expected
+ */
+
+static int _der_hdr_read(crefl_buf *buf, asn1_tag _tag, asn1_hdr *hdr)
+{
+    if (crefl_asn1_ber_ident_read(buf, &hdr->_id) < 0) return -1;
+    if (crefl_asn1_ber_length_read(buf, &hdr->_length) < 0) return -1;
+    return hdr->_id._identifier == (u64)_tag ? 0 : -1;
+}
+
 /*
  * ISO/IEC 8825-1:2003 8.2 boolean
  *
@@ -344,8 +355,10 @@ err:
 int crefl_asn1_der_boolean_read(crefl_buf *buf, asn1_tag _tag, bool *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (_der_hdr_read(buf, _tag, &hdr) < 0) {
+        *value = 0;
+        return -1;
+    }
     return crefl_asn1_ber_boolean_read(buf, hdr._length, value);
 }
 
@@ -663,16 +676,17 @@ int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 v
 int crefl_asn1_der_integer_u64_read(crefl_buf *buf, asn1_tag _tag, u64 *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (_der_hdr_read(buf, _tag, &hdr) < 0) {
+        *value = 0;
+        return -1;
+    }
     return crefl_asn1_ber_integer_u64_read(buf, hdr._length, value);
 }
 
 u64_result crefl_asn1_der_integer_u64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return u64_result { 0, -1 };
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return u64_result { 0, -1 };
+    if (_der_hdr_read(buf, _tag, &hdr) < 0) return u64_result { 0, -1 };
     return crefl_asn1_ber_integer_u64_read_byval(buf, hdr._length);
 }
 
@@ -701,16 +715,17 @@ int crefl_asn1_der_integer_u64_write_byval(crefl_buf *buf, asn1_tag _tag, const
 int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (_der_hdr_read(buf, _tag, &hdr) < 0) {
+        *value = 0;
+        return -1;
+    }
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
 
 s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return s64_result { 0, -1 };
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return s64_result { 0, -1 };
+    if (_der_hdr_read(buf, _tag, &hdr) < 0) return s64_result { 0, -1 };
     return crefl_asn1_ber_integer_s64_read_byval(buf, hdr._length);
 }
 
@@ -1241,16 +1256,17 @@ int crefl_asn1_ber_real_f64_write_byval(crefl_buf *buf, size_t len, const double
 int crefl_asn1_der_real_f64_read(crefl_buf *buf, asn1_tag _tag, double *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (_der_hdr_read(buf, _tag, &hdr) < 0) {
+        *value = 0;
+        return -1;
+    }
     return crefl_asn1_ber_real_f64_read(buf, hdr._length, value);
 }
 
 f64_result crefl_asn1_der_real_f64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return f64_result { 0, -1 };
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return f64_result { 0, -1 };
+    if (_der_hdr_read(buf, _tag, &hdr) < 0) return f64_result { 0, -1 };
     return crefl_asn1_ber_real_f64_read_byval(buf, hdr._length);
 }
 
@@ -2490,8 +2506,10 @@ err:
 int crefl_asn1_der_oid_read(crefl_buf *buf, asn1_tag _tag, asn1_oid *obj)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (_der_hdr_read(buf, _tag, &hdr) < 0) {
+        obj->count = 0;
+        return -1;
+    }
     return crefl_asn1_ber_oid_read(buf, hdr._length, obj);
 }
 
@@ -2621,8 +2639,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
 int crefl_asn1_der_octets_read(crefl_buf *buf, asn1_tag _tag, asn1_string *obj)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_octets_read(buf, hdr._length, obj);
 }
 
@@ -2662,8 +2679,7 @@ int crefl_asn1_ber_null_write(crefl_buf *buf, size_t len)
 int crefl_asn1_der_null_read(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_null_read(buf, hdr._length);
 }
 
-- 
2.43.0


From 461f6bdbabb2f222c07a2e915d15336208540a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 12/49] fix: use the X.690 8.5.9 codes for minus zero and
 not-a-number

The two codes were swapped with respect to the standard and to the
comment above them.
---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 24bec72..6e88007 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -931,8 +931,8 @@ enum _real_decimal_nr {
 enum _real_special {
     _real_special_pos_inf   = 0b01000000,
     _real_special_neg_inf   = 0b01000001,
-    _real_special_neg_zero  = 0b01000010,
-    _real_special_nan       = 0b01000011,
+    _real_special_nan       = 0b01000010,
+    _real_special_neg_zero  = 0b01000011,
 };
 
 static _real_fmt _asn1_real_format(u8 x)
-- 
2.43.0


From b57e814a8c51ebb0633351cacbe78688ffbe7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 13/49] fix: encode the exponent of subnormal REAL values

Subnormals were written with exponent zero and so denoted an integer.
---
 src/asn1.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 6e88007..8ccbab6 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -978,16 +978,17 @@ static f64_asn1_data f64_asn1_data_get(double value)
 {
     u64 frac;
     s64 sexp;
-    size_t frac_tz, frac_lz;
+    size_t frac_tz;
 
     sexp = (s64)f64_exp_dec(value);
     frac = (s64)f64_mant_dec(value) | (-(s64)(sexp > 0) & f64_mant_prefix);
-    frac_tz = ctz(frac);
-    frac_lz = clz(frac);
-    frac >>= frac_tz;
 
-    if (sexp > 0) {
-        sexp += frac_lz + frac_tz - 63 - f64_exp_bias;
+    if (frac > 0) {
+        /* subnormals have the exponent of the smallest normal */
+        if (sexp == 0) sexp = 1;
+        frac_tz = ctz(frac);
+        frac >>= frac_tz;
+        sexp += frac_tz - f64_mant_size - f64_exp_bias;
     }
 
     return f64_asn1_data {
-- 
2.43.0


From 8fb3a72874021e78a1d20abe4269153fa664642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 14/49] fix: decode REAL contents exactly or refuse them

The reader ignored the base and the scale factor, could not read the longer
exponent forms, dropped fraction bits, produced nonsense for subnormal and
overflowing exponents, and used more octets than stated when the contents
were too short or followed a special value.
---
 src/asn1.cc | 176 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 123 insertions(+), 53 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 8ccbab6..ce50d8e 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -940,6 +940,16 @@ static _real_fmt _asn1_real_format(u8 x)
     return (_real_fmt)((x >> _real_fmt_shift) & _real_fmt_mask);
 }
 
+static _real_base _asn1_real_base(u8 x)
+{
+    return (_real_base)((x >> _real_base_shift) & _real_base_mask);
+}
+
+static u8 _asn1_real_scale(u8 x)
+{
+    return (x >> _real_scale_shift) & _real_scale_mask;
+}
+
 static _real_exp _asn1_real_exp(u8 x)
 {
     return (_real_exp)((x >> _real_exp_shift) & _real_exp_mask);
@@ -1000,6 +1010,43 @@ static f64_asn1_data f64_asn1_data_get(double value)
     };
 }
 
+/*
+ * IEEE 754 exponent is relative to the msb of the mantissa
+ * ASN.1 exponent is relative to the lsb of the mantissa
+ *
+ * assemble value from fraction and exponent relative to its lsb, returns
+ * -1 if there is no f64 with exactly that value.
+ */
+static int f64_asn1_data_put(double *value, bool sign, u64 frac, s64 sexp)
+{
+    const s64 exp_min = 1 - (s64)f64_exp_bias, exp_max = f64_exp_bias;
+    u64 fexp = 0;
+
+    if (frac != 0) {
+        size_t frac_tz = ctz(frac);
+        frac >>= frac_tz;
+        sexp += frac_tz;
+
+        s64 frac_msb = 63 - (s64)clz(frac);
+        if (frac_msb > (s64)f64_mant_size ||
+            sexp > exp_max - frac_msb || sexp < exp_min - (s64)f64_mant_size) {
+            return -1;
+        }
+        if (sexp + frac_msb >= exp_min) {
+            /* left-justify with the most significant set bit in bit 52
+             * which is then cropped as the implied leading digit */
+            fexp = sexp + frac_msb + f64_exp_bias;
+            frac <<= f64_mant_size - frac_msb;
+        } else {
+            /* subnormal */
+            frac <<= sexp - (exp_min - (s64)f64_mant_size);
+        }
+    }
+
+    *value = f64_pack_float(f64_struct{frac & f64_mant_mask, fexp, sign});
+    return 0;
+}
+
 size_t crefl_asn1_ber_real_f64_length(const double *value)
 {
     f64_asn1_data d = f64_asn1_data_get(*value);
@@ -1030,20 +1077,29 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
 {
     int8_t b;
     double v = 0;
+    const s64 exp_limit = 1 << 16;
     _real_fmt fmt;
     _real_exp exp_mode;
-    size_t frac_len;
+    size_t hdr_len = 1;
     size_t exp_len;
+    size_t base_log2;
+    size_t scale;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
 
+    /* plus zero has no contents octets */
+    if (len == 0) {
+        *value = 0;
+        return 0;
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        goto err;
+    }
     switch (b) {
     case _real_special_pos_inf:  *value = std::numeric_limits<f64>::infinity();  return 0;
     case _real_special_neg_inf:  *value = -std::numeric_limits<f64>::infinity(); return 0;
@@ -1056,42 +1112,45 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     case _real_fmt_binary_neg: sign = true; break;
     default: goto err;
     }
+    switch (_asn1_real_base(b)) {
+    case _real_base_2:  base_log2 = 1; break;
+    case _real_base_8:  base_log2 = 3; break;
+    case _real_base_16: base_log2 = 4; break;
+    default: goto err;
+    }
+    scale = _asn1_real_scale(b);
     exp_mode = _asn1_real_exp(b);
     switch(exp_mode) {
     case _real_exp_1: exp_len = 1; break;
     case _real_exp_2: exp_len = 2; break;
-    default: goto err;
+    case _real_exp_3: exp_len = 3; break;
+    default:
+        if (len < 2 || crefl_buf_read_i8(buf, &b) != 1) {
+            goto err;
+        }
+        exp_len = (u8)b;
+        hdr_len = 2;
+        break;
+    }
+    if (len <= hdr_len + exp_len) {
+        goto err;
     }
-    frac_len = len - exp_len - 1;
 
     if (crefl_asn1_ber_integer_s64_read(buf, exp_len, &sexp) < 0) {
         goto err;
     }
-    if (crefl_asn1_ber_integer_u64_read(buf, frac_len, &frac) < 0) {
+    if (crefl_asn1_ber_integer_u64_read(buf, len - hdr_len - exp_len, &frac) < 0) {
         goto err;
     }
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
-        return -1;
+
+    /* avoid overflow, the limit is far outside the range of an f64 */
+    if (sexp > exp_limit) sexp = exp_limit;
+    if (sexp < -exp_limit) sexp = -exp_limit;
+    sexp = sexp * (s64)base_log2 + (s64)scale;
+
+    if (f64_asn1_data_put(&v, sign, frac, sexp) < 0) {
+        goto err;
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     *value = v;
     return 0;
@@ -1104,22 +1163,30 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
 {
     int8_t b;
     double v = 0;
+    const s64 exp_limit = 1 << 16;
     _real_fmt fmt;
     _real_exp exp_mode;
-    size_t frac_len;
+    size_t hdr_len = 1;
     size_t exp_len;
+    size_t base_log2;
+    size_t scale;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
     s64_result rexp;
     u64_result rfrac;
 
+    /* plus zero has no contents octets */
+    if (len == 0) {
+        return f64_result { 0, 0 };
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         return f64_result { 0, -1 };
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        return f64_result { 0, -1 };
+    }
     switch (b) {
     case _real_special_pos_inf:  return f64_result { std::numeric_limits<f64>::infinity(), 0 };
     case _real_special_neg_inf:  return f64_result { -std::numeric_limits<f64>::infinity(), 0 };
@@ -1132,46 +1199,49 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     case _real_fmt_binary_neg: sign = true; break;
     default: return f64_result { 0, -1 };
     }
+    switch (_asn1_real_base(b)) {
+    case _real_base_2:  base_log2 = 1; break;
+    case _real_base_8:  base_log2 = 3; break;
+    case _real_base_16: base_log2 = 4; break;
+    default: return f64_result { 0, -1 };
+    }
+    scale = _asn1_real_scale(b);
     exp_mode = _asn1_real_exp(b);
     switch(exp_mode) {
     case _real_exp_1: exp_len = 1; break;
     case _real_exp_2: exp_len = 2; break;
-    default: return f64_result { 0, -1 };
+    case _real_exp_3: exp_len = 3; break;
+    default:
+        if (len < 2 || crefl_buf_read_i8(buf, &b) != 1) {
+            return f64_result { 0, -1 };
+        }
+        exp_len = (u8)b;
+        hdr_len = 2;
+        break;
+    }
+    if (len <= hdr_len + exp_len) {
+        return f64_result { 0, -1 };
     }
-    frac_len = len - exp_len - 1;
 
     rexp = crefl_asn1_ber_integer_s64_read_byval(buf, exp_len);
     if (rexp.error < 0) {
         return f64_result { 0, rexp.error };
     }
     sexp = rexp.value;
-    rfrac = crefl_asn1_ber_integer_u64_read_byval(buf, frac_len);
+    rfrac = crefl_asn1_ber_integer_u64_read_byval(buf, len - hdr_len - exp_len);
     if (rfrac.error < 0) {
         return f64_result { 0, rfrac.error };
     }
     frac = rfrac.value;
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
+
+    /* avoid overflow, the limit is far outside the range of an f64 */
+    if (sexp > exp_limit) sexp = exp_limit;
+    if (sexp < -exp_limit) sexp = -exp_limit;
+    sexp = sexp * (s64)base_log2 + (s64)scale;
+
+    if (f64_asn1_data_put(&v, sign, frac, sexp) < 0) {
         return f64_result { 0, -1 };
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     return f64_result { v, 0 };
 }
-- 
2.43.0


From 34d8ebec810e684457d8e2eaf56be8cb8d50f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 15/49] fix: keep the value of vf128 floats outside the normal
 range

Subnormals were stored with an exponent one too small, so that reading them
in another width halved them; reading an exponent beyond the range of the
type shifted by garbage and wrapped instead of yielding a subnormal, zero or
infinity as docs/vf128.md requires; and the unary exponent of a binary64
value was lost when its mantissa was truncated to binary32.
---
 src/asn1.cc | 96 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 60 insertions(+), 36 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index ce50d8e..9b58f63 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1421,6 +1421,11 @@ static void _crefl_vf_f64_debug(double v, u8 pre, s64 vp_exp, u64 vp_man, s64 vd
 }
 #endif
 
+enum : u64 {
+    u64_msb = 0x8000000000000000ull,
+    u64_msn = 0xf000000000000000ull
+};
+
 int crefl_vf_f64_read(crefl_buf *buf, double *value)
 {
     s8 pre;
@@ -1486,12 +1491,17 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
     else {
         size_t lz = clz(vr_man), tz = ctz(vr_man);
         if (vr_exp <= -(s64)f64_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+            /* normal to subnormal - left-justify the mantissa preserving
+             * the leading 1, which is implied if there is no mantissa, then
+             * calculate shift using exponent delta, possibly to zero. */
+            s64 sh = (s64)f64_exp_size + 1 - (s64)f64_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
+            vp_man = vf_man ? (u64)vr_man << lz : u64_msb;
+            vp_man = sh < 64 ? vp_man >> sh : 0;
+        } else if (vr_exp > (s64)f64_exp_bias) {
+            /* exponent is out of range so translate to infinity */
+            vp_exp = f64_exp_mask;
+            vp_man = 0;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
@@ -1514,11 +1524,6 @@ err:
     return -1;
 }
 
-enum : u64 {
-    u64_msb = 0x8000000000000000ull,
-    u64_msn = 0xf000000000000000ull
-};
-
 f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
 {
     s8 pre;
@@ -1588,12 +1593,17 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
     else {
         size_t lz = clz(vr_man), tz = ctz(vr_man);
         if (vr_exp <= -(s64)f64_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+            /* normal to subnormal - left-justify the mantissa preserving
+             * the leading 1, which is implied if there is no mantissa, then
+             * calculate shift using exponent delta, possibly to zero. */
+            s64 sh = (s64)f64_exp_size + 1 - (s64)f64_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
+            vp_man = vf_man ? (u64)vr_man << lz : u64_msb;
+            vp_man = sh < 64 ? vp_man >> sh : 0;
+        } else if (vr_exp > (s64)f64_exp_bias) {
+            /* exponent is out of range so translate to infinity */
+            vp_exp = f64_exp_mask;
+            vp_man = 0;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
@@ -1653,7 +1663,7 @@ int crefl_vf_f64_write(crefl_buf *buf, const double *value)
          */
         if (d.sexp == -(s64)f64_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - lz - 1;
+            vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -1760,7 +1770,7 @@ int crefl_vf_f64_write_byval(crefl_buf *buf, const double value)
          */
         if (d.sexp == -(s64)f64_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - lz - 1;
+            vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -1884,6 +1894,11 @@ static void _crefl_vf_f32_debug(float v, u8 pre, s32 vp_exp, u32 vp_man, s32 vd_
 }
 #endif
 
+enum : u32 {
+    u32_msb = 0x80000000u,
+    u32_msn = 0xf0000000u
+};
+
 int crefl_vf_f32_read(crefl_buf *buf, float *value)
 {
     s8 pre;
@@ -1894,6 +1909,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
     int vf_man;
     u32 vr_man = 0;
     s32 vr_exp = 0;
+    size_t tz = 0;
     u32 vp_man = 0;
     s32 vp_exp = 0;
 
@@ -1921,6 +1937,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
             size_t lz = clz(r.value);
             size_t sh = lz < 32 ? 32 - lz : 0;
             vr_man = (u32)(r.value >> sh);
+            tz = ctz(r.value);
         }
     }
 
@@ -1956,14 +1973,19 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
+        size_t lz = clz(vr_man);
         if (vr_exp <= -(s32)f32_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+            /* normal to subnormal - left-justify the mantissa preserving
+             * the leading 1, which is implied if there is no mantissa, then
+             * calculate shift using exponent delta, possibly to zero. */
+            s32 sh = (s32)f32_exp_size + 1 - (s32)f32_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
+            vp_man = vf_man ? (u32)vr_man << lz : u32_msb;
+            vp_man = sh < 32 ? vp_man >> sh : 0;
+        } else if (vr_exp > (s32)f32_exp_bias) {
+            /* exponent is out of range so translate to infinity */
+            vp_exp = f32_exp_mask;
+            vp_man = 0;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
@@ -1986,11 +2008,6 @@ err:
     return -1;
 }
 
-enum : u32 {
-    u32_msb = 0x80000000u,
-    u32_msn = 0xf0000000u
-};
-
 f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
 {
     s8 pre;
@@ -2001,6 +2018,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
     int vf_man;
     u32 vr_man = 0;
     s32 vr_exp = 0;
+    size_t tz = 0;
     u32 vp_man = 0;
     s32 vp_exp = 0;
 
@@ -2028,6 +2046,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
             size_t lz = clz(r.value);
             size_t sh = lz < 32 ? 32 - lz : 0;
             vr_man = (u32)(r.value >> sh);
+            tz = ctz(r.value);
         }
     }
 
@@ -2063,14 +2082,19 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
+        size_t lz = clz(vr_man);
         if (vr_exp <= -(s32)f32_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+            /* normal to subnormal - left-justify the mantissa preserving
+             * the leading 1, which is implied if there is no mantissa, then
+             * calculate shift using exponent delta, possibly to zero. */
+            s32 sh = (s32)f32_exp_size + 1 - (s32)f32_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
+            vp_man = vf_man ? (u32)vr_man << lz : u32_msb;
+            vp_man = sh < 32 ? vp_man >> sh : 0;
+        } else if (vr_exp > (s32)f32_exp_bias) {
+            /* exponent is out of range so translate to infinity */
+            vp_exp = f32_exp_mask;
+            vp_man = 0;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
@@ -2130,7 +2154,7 @@ int crefl_vf_f32_write(crefl_buf *buf, const float *value)
          */
         if (d.sexp == -(s32)f32_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - (u32)lz - 1;
+            vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -2237,7 +2261,7 @@ int crefl_vf_f32_write_byval(crefl_buf *buf, const float value)
          */
         if (d.sexp == -(s32)f32_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - (u32)lz - 1;
+            vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
-- 
2.43.0


From 930ac550c6904416c2865bc8f546bd84ee37654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 16/49] fix: omit the mantissa of vf128 subnormal powers of two

docs/vf128.md stores powers of two with no mantissa octets.
---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 9b58f63..e592f32 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1665,7 +1665,7 @@ int crefl_vf_f64_write(crefl_buf *buf, const double *value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -1772,7 +1772,7 @@ int crefl_vf_f64_write_byval(crefl_buf *buf, const double value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -2156,7 +2156,7 @@ int crefl_vf_f32_write(crefl_buf *buf, const float *value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -2263,7 +2263,7 @@ int crefl_vf_f32_write_byval(crefl_buf *buf, const float value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
-- 
2.43.0


From cba0ddff90f2de81f70cd867c4cd33ef6644965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 17/49] fix: format object identifier components as unsigned

---
 src/asn1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index e592f32..6fbcba7 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2632,7 +2632,7 @@ int crefl_asn1_oid_to_string(char *str, size_t *buflen, const asn1_oid *obj)
         int ret = snprintf(
             (offset < limit ? str + offset : NULL),
             (offset < limit ? limit - offset : 0),
-            (i == 0 ? "%lld" : ".%lld"),
+            (i == 0 ? "%llu" : ".%llu"),
             obj->oid[i]
         );
         offset += ret > 0 ? ret : 0;
-- 
2.43.0


From 08630366b5b3af7030d4676cd2c6ded69c6c79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 18/49] fix: allocate whole words for the hash map's slot
 bitmap

---
 include/crefl/hashmap.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 9cee859..6a199bd 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -96,7 +96,7 @@ struct hashmap
         used(0), tombs(0), limit(initial_size)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(limit));
@@ -115,7 +115,7 @@ struct hashmap
         used(o.used), tombs(o.tombs), limit(o.limit)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -140,7 +140,7 @@ struct hashmap
         limit = o.limit;
 
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -199,6 +199,7 @@ struct hashmap
     {
         bitmap[bitmap_idx(i)] &= ~(value << bitmap_shift(i));
     }
+    static inline size_t bitmap_bytes(size_t n) { return ((n + 31) >> 5) << 3; }
     static inline bool is_pow2(intptr_t n) { return  ((n & -n) == n); }
 
     /**
@@ -209,7 +210,7 @@ struct hashmap
                          size_t old_size, size_t new_size)
     {
         size_t data_size = sizeof(data_type) * new_size;
-        size_t bitmap_size = new_size >> 2;
+        size_t bitmap_size = bitmap_bytes(new_size);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(new_size));
@@ -238,7 +239,7 @@ struct hashmap
     void clear()
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
         memset(data, 0, total_size);
         used = tombs = 0;
-- 
2.43.0


From 535d9e3ba68378b1408937ab798eae8c3195df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 19/49] fix: look past deleted slots before inserting a hash
 map key

---
 include/crefl/hashmap.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 6a199bd..9d494fb 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -250,9 +250,13 @@ struct hashmap
 
     iterator insert(const value_type& v)
     {
+        size_t reuse = limit; /* first deleted slot in the chain */
         for (size_t i = key_index(v.first); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
-            if ((state & occupied) != occupied) {
+            if (state == deleted) {
+                if (reuse == limit) reuse = i;
+            } else if (state == available) {
+                if (reuse != limit) state = bitmap_get(bitmap, i = reuse);
                 bitmap_set(bitmap, i, occupied);
                 data[i] = data_type{v.first, v.second};
                 used++;
@@ -279,9 +283,13 @@ struct hashmap
 
     Value& operator[](const Key &key)
     {
+        size_t reuse = limit; /* first deleted slot in the chain */
         for (size_t i = key_index(key); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
-            if ((state & occupied) != occupied) {
+            if (state == deleted) {
+                if (reuse == limit) reuse = i;
+            } else if (state == available) {
+                if (reuse != limit) state = bitmap_get(bitmap, i = reuse);
                 bitmap_set(bitmap, i, occupied);
                 data[i].first = key;
                 used++;
-- 
2.43.0


From f9e8391d92eace6e3c37bfc3f401337392607cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 20/49] fix: start hash map iteration at the first occupied
 slot

---
 include/crefl/hashmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 9d494fb..4fc8e32 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -175,7 +175,7 @@ struct hashmap
     inline size_t hash_index(uint64_t h) { return h & index_mask(); }
     inline size_t key_index(Key key) { return hash_index(_hasher(key)); }
     inline hasher hash_function() const { return _hasher; }
-    inline iterator begin() { return iterator{ this, 0 }; }
+    inline iterator begin() { iterator i{ this, 0 }; i.i = i.step(0); return i; }
     inline iterator end() { return iterator{ this, limit }; }
 
     /*
-- 
2.43.0


From 9bb85b634e910d5264dd29c707a63880dfdb4920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 21/49] fix: free the replaced table and survive
 self-assignment of hash maps

---
 include/crefl/hashmap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 4fc8e32..a8f17d5 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -133,6 +133,8 @@ struct hashmap
 
     inline hashmap& operator=(const hashmap &o)
     {
+        if (this == &o) return *this;
+
         free(data);
 
         used = o.used;
@@ -152,6 +154,10 @@ struct hashmap
 
     inline hashmap& operator=(hashmap &&o)
     {
+        if (this == &o) return *this;
+
+        free(data);
+
         data = o.data;
         bitmap = o.bitmap;
         used = o.used;
-- 
2.43.0


From 61f38397f76644fb9fb36718153fa6450b625052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 22/49] fix: check database tables against the input before
 reading them

The image header was trusted: tables larger than the input were copied
from beyond its end, and a name table without a final NUL let names run
past the table.
---
 src/db.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index 5120ab9..4c0c242 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -70,6 +70,16 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
     size_t name_sz = hdr->name_table_size;
     size_t root_idx = hdr->root_element;
 
+    /* check the tables are inside the input and names are terminated */
+    if (decl_sz > input_sz - hdr_sz || name_sz > input_sz - hdr_sz - decl_sz) {
+        fprintf(stderr, "crefl: *** error: tables too short\n");
+        return -1;
+    }
+    if (name_sz > 0 && buf[hdr_sz + decl_sz + name_sz - 1] != '\0') {
+        fprintf(stderr, "crefl: *** error: name table not terminated\n");
+        return -1;
+    }
+
     /* return early if header indicates db is entry */
     if (decl_cnt == 0) {
         return 0;
-- 
2.43.0


From 10b3425495db4365008e8954b5dffeddad6d72de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 23/49] fix: report errors when closing a written file

Buffered data that could not be written, for instance because the disk is
full, is only reported by fclose. Also close the file when fstat fails.
---
 include/crefl/util.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index bf74a24..78d1856 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -97,6 +97,7 @@ static size_t crefl_read_file(std::vector<uint8_t> &buf, const char* filename)
     }
     if (fstat(fileno(f), &statbuf) < 0) {
         fprintf(stderr, "fstat: %s\n", strerror(errno));
+        fclose(f);
         return -1;
     }
     buf.resize(statbuf.st_size);
@@ -114,7 +115,10 @@ static size_t crefl_write_file(std::vector<uint8_t> &buf, const char* filename)
         return -1;
     }
     size_t len = fwrite(buf.data(), 1, buf.size(), f);
-    fclose(f);
+    if (fclose(f) != 0) {
+        fprintf(stderr, "fclose: %s\n", strerror(errno));
+        return -1;
+    }
 
     return buf.size() == len ? 0 : -1;
 }
-- 
2.43.0


From a490507af54096aa94b7879912fde495af48888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 24/49] fix: format strings of 255 and 256 characters
 completely

---
 include/crefl/util.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index 78d1856..8547506 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -43,8 +43,8 @@ static std::string string_vprintf(const char* fmt, va_list args)
 
     va_list args2;
     va_copy(args2, args);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
-    if ((size_t)len > buf.size()) {
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         len = vsnprintf(&buf[0], buf.size(), fmt, args2);
     }
@@ -59,9 +59,9 @@ static std::string string_printf(const char* fmt, ...)
 
     va_list args;
     va_start(args, fmt);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
     va_end(args);
-    if ((size_t)len > buf.size()) {
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         va_list args;
         va_start(args, fmt);
-- 
2.43.0


From bc2eb7f3c3206dd8c6b1d0b8b3d8106f90869d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 25/49] fix: exit with an error when crefltool cannot read or
 write a file

---
 tool/crefltool.cc | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index 9eef574..84f2cc9 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -33,13 +33,19 @@ void do_merge(const char *output, const char **input, size_t n)
     decl_db **db_in = (decl_db**)malloc(sizeof(decl_db*) * n);
     for (size_t i = 0; i < n; i++) {
         db_in[i] = crefl_db_new();
-        crefl_db_read_file(db_in[i], input[i]);
+        if (crefl_db_read_file(db_in[i], input[i]) != 0) {
+            fprintf(stderr, "error: reading %s\n", input[i]);
+            exit(1);
+        }
     }
     if (crefl_link_merge(db_out, output, db_in, n) < 0) {
         fprintf(stderr, "error: merging input files\n");
         exit(1);
     }
-    crefl_db_write_file(db_out, output);
+    if (crefl_db_write_file(db_out, output) != 0) {
+        fprintf(stderr, "error: writing %s\n", output);
+        exit(1);
+    }
     for (size_t i = 0; i < n; i++) {
         crefl_db_destroy(db_in[i]);
     }
@@ -55,7 +61,10 @@ void do_emit(const char *output, const char *input, const char *name)
     const size_t w = 16;
 
     db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    if (crefl_db_read_file(db, input) != 0) {
+        fprintf(stderr, "error: reading %s\n", input);
+        exit(1);
+    }
     sz = crefl_db_size(db);
     buf = (uint8_t*)malloc(sz);
     if (crefl_db_write_mem(db, buf, sz) < 0 || !(f = fopen(output, "wb"))) {
@@ -73,8 +82,11 @@ void do_emit(const char *output, const char *input, const char *name)
     fprintf(f, "};\n");
     fprintf(f, "const size_t __crefl_%s_size = sizeof(__crefl_%s_data);\n",
         name, name);
-    fflush(f);
-    fclose(f);
+    int err = fflush(f) != 0 || ferror(f);
+    if (fclose(f) != 0 || err) {
+        fprintf(stderr, "error: writing %s\n", output);
+        exit(1);
+    }
     free(buf);
     crefl_db_destroy(db);
 }
@@ -82,7 +94,10 @@ void do_emit(const char *output, const char *input, const char *name)
 void do_dump(crefl_db_dump_fmt fmt, const char *input)
 {
     decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    if (crefl_db_read_file(db, input) != 0) {
+        fprintf(stderr, "error: reading %s\n", input);
+        exit(1);
+    }
     crefl_db_set_dump_fmt(fmt);
     crefl_db_dump(db);
     crefl_db_destroy(db);
@@ -91,7 +106,10 @@ void do_dump(crefl_db_dump_fmt fmt, const char *input)
 void do_stats(const char *input)
 {
     decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    if (crefl_db_read_file(db, input) != 0) {
+        fprintf(stderr, "error: reading %s\n", input);
+        exit(1);
+    }
     crefl_db_dump_stats(db);
     crefl_db_destroy(db);
 }
@@ -161,6 +179,10 @@ int main(int argc, const char **argv)
         case _merge: do_merge(argv[2], argv + 3, argc - 3); break;
         case _emit: do_emit(argv[2], argv[3], "main"); break;
     }
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "error: writing output\n");
+        exit(1);
+    }
     exit(0);
 
 help_exit:
-- 
2.43.0


From 3bfd3e5ffeaa1eba18b12d2800055b4cdacf5b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 26/49] fix: pad byte-padded intrinsics to eight bits

The alignment is a power of two, so 8 stood for 256 bits and every bool
took 32 bytes.
---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index 9ae3998..b1dd31c 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -253,7 +253,7 @@ static _alignment _pad_align(size_t width, size_t count, decl_set props)
     size_t n;
 
     if ((props & _decl_pad_byte)) {
-        n = 8;
+        n = 3; /* 8 bits */
     }
     else if ((props & _decl_pad_pow2)) {
         n = 63 - clz(width);
-- 
2.43.0


From f2a367475474cca7a14b782c1de4a6afaca902b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 27/49] fix: align complex types like their parts, and nothing
 beyond 128 bits

---
 src/model.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model.cc b/src/model.cc
index b1dd31c..c6a7104 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -248,7 +248,7 @@ struct _alignment { size_t align; size_t size; };
 
 static _alignment _pad_align(size_t width, size_t count, decl_set props)
 {
-    const intptr_t maxalign = 9; /* 128 bits */
+    const intptr_t maxalign = 7; /* 128 bits */
 
     size_t n;
 
@@ -256,7 +256,8 @@ static _alignment _pad_align(size_t width, size_t count, decl_set props)
         n = 3; /* 8 bits */
     }
     else if ((props & _decl_pad_pow2)) {
-        n = 63 - clz(width);
+        /* complex numbers are aligned like their parts */
+        n = 63 - clz((props & _decl_complex) ? width >> 1 : width);
         if (n > maxalign) n = maxalign;
     } else {
         n = 0;
-- 
2.43.0


From ab726ece78b543d8e3321b412c4d5ca2ad07cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 28/49] fix: pad unions to a multiple of their alignment

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index c6a7104..48eb1e3 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -341,7 +341,7 @@ static _alignment _union_pad(decl_ref d)
         d = crefl_decl_next(d);
     }
 
-    return max;
+    return _alignment { max.align, _align(max.size, max.align) };
 }
 
 static _alignment _type_pad(decl_ref d)
-- 
2.43.0


From 3774177163f635006398a30d9a6bdff682946ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 29/49] fix: give enums, typedefs, qualifiers and aliases a
 size and alignment

---
 src/model.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/model.cc b/src/model.cc
index 48eb1e3..8623ae5 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -286,6 +286,12 @@ static _alignment _pointer_pad(decl_ref d)
         _pad_align(crefl_decl_qty(d), 1, _decl_pad_pow2) : _alignment { 0 };
 }
 
+static _alignment _enum_pad(decl_ref d)
+{
+    return crefl_is_enum(d) || crefl_is_set(d) ?
+        _pad_align(crefl_decl_qty(d), 1, _decl_pad_pow2) : _alignment { 0 };
+}
+
 static _alignment _array_pad(decl_ref d)
 {
     size_t qty = 1;
@@ -348,6 +354,11 @@ static _alignment _type_pad(decl_ref d)
 {
     switch (crefl_decl_tag(d)) {
     case _decl_intrinsic: return _intrinsic_pad(d);
+    case _decl_set:
+    case _decl_enum: return _enum_pad(d);
+    case _decl_typedef:
+    case _decl_qualifier:
+    case _decl_alias: return _type_pad(crefl_decl_link(d));
     case _decl_struct: return _struct_pad(d);
     case _decl_union: return _union_pad(d);
     case _decl_field: return _field_pad(d);
-- 
2.43.0


From cb06566d2d1921b2ee1a97b8ccd11ad246bd4e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 30/49] fix: hash and merge the whole attribute list

Only the first attribute of a declaration was hashed and copied, so
declarations differing in a later attribute were taken for the same.
---
 src/link.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 06cc0b0..422b0f7 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -120,12 +120,14 @@ static void crefl_hash_node_sum(decl_sum *sum, decl_index *index,
     crefl_hash_absorb(sum, quantity_delimeter);
     crefl_hash_update(sum, &node->_quantity, sizeof(node->_quantity));
 
-    if (node->_attr) {
-        next = crefl_lookup(d.db, node->_attr);
+    /* follow `attr` to the list of attributes */
+    next = crefl_lookup(d.db, node->_attr);
+    while (crefl_decl_idx(next)) {
         crefl_hash_absorb(sum, attr_delimeter);
         hash = crefl_node_hash(index, next, d, prefix);
         crefl_hash_absorb(sum, hash_delimeter);
         crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+        next = crefl_decl_next(next);
     }
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
@@ -384,11 +386,16 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
         return r;
     }
 
-    if (node->_attr) {
-        next = crefl_lookup(d.db, node->_attr);
+    /* follow `attr` to the list of attributes */
+    next = crefl_lookup(d.db, node->_attr);
+    while (crefl_decl_idx(next)) {
         c = crefl_copy_node(state, next, d);
-        crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+        if (crefl_decl_idx(last)) crefl_decl_ptr(last)->_next = crefl_decl_idx(c);
+        else crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+        last = c;
+        next = crefl_decl_next(next);
     }
+    last = decl_ref { db, 0 };
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
         /*
-- 
2.43.0


From 748de4db8dc42697c5350ab03803da60844132fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 31/49] fix: link merged types to the declaration, not to an
 alias of it

The alias replaced the declaration in the table of known declarations,
so types copied afterwards led to an alias instead of the type.
---
 src/link.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 422b0f7..cf2adf7 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -376,13 +376,9 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
         if (_is_child) return decl_ref { db, i->second.decl_idx };
         /* otherwise alias node so we can override its next element */
         a = crefl_lookup(db, i->second.decl_idx);
-        while (crefl_decl_tag(a) == _decl_alias) {
-            a = crefl_decl_link(a);
-        }
         r = crefl_decl_new(db, _decl_alias);
         crefl_decl_ptr(r)->_name = crefl_name_new(db, crefl_decl_name(d));
         crefl_decl_ptr(r)->_link = crefl_decl_idx(a);
-        (*state->map)[*hash] = r;
         return r;
     }
 
-- 
2.43.0


From 23de2d319b53991eb41f6b35ddb5ec845c9fbc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 32/49] fix: record the whole attribute list

The declaration referred to the last attribute of its list, so the ones
before it were lost.
---
 src/reflect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 6dc47a5..1a81322 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -228,7 +228,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
                 std::string annotation = cast<AnnotateAttr>(*at).getAnnotation().str();
                 last = create_attribute_string(last, "annotate", annotation.c_str());
             }
-            if (crefl_decl_idx(last)) result = crefl_decl_idx(last);
+            if (!result) result = crefl_decl_idx(last);
         }
         return result;
     }
-- 
2.43.0


From c613c4470ddb02b12ba86b4e0e57075512844c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 33/49] fix: resolve references to types declared later or left
 incomplete

A pointer to a struct, union or enum declared further on referred to
nothing, one to an incomplete type became a pointer to void, and the
qualifiers of void and of incomplete types were lost.
---
 src/reflect.cc | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 1a81322..68dab0b 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -233,6 +233,19 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return result;
     }
 
+    /* node of a tag type, created ahead of its declaration if need be */
+    decl_ref get_tag_node(const TagDecl *d, decl_tag tag)
+    {
+        decl_id id = idmap[d->getID()];
+        if (id) return decl_ref { db, id };
+
+        decl_ref r = crefl_decl_new(db, tag);
+        crefl_decl_ptr(r)->_name = crefl_name_new(db,
+            d->getNameAsString().c_str());
+        idmap[d->getID()] = crefl_decl_idx(r);
+        return r;
+    }
+
     decl_ref get_intrinsic_type(const QualType q)
     {
         decl_ref tr = crefl_intrinsic(db, _decl_void, 0);
@@ -249,9 +262,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         bool _is_restrict = (q.getLocalFastQualifiers() & Qualifiers::Restrict);
         bool _is_volatile = (q.getLocalFastQualifiers() & Qualifiers::Volatile);
 
-        if (!_is_array && q->isIncompleteType()) return tr;
-
-        TypeInfo t = context.getTypeInfo(q);
+        /* incomplete types have no size but may be qualified */
+        TypeInfo t;
+        if (_is_array || !q->isIncompleteType()) t = context.getTypeInfo(q);
 
         if (_is_pointer) {
             const QualType pq = q->getPointeeType();
@@ -266,18 +279,15 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         }
         else if (_is_enum) {
             const EnumType *et = q->getAs<EnumType>();
-            const EnumDecl *ed = et->getDecl();
-            tr = decl_ref { db, idmap[ed->getID()] };
+            tr = get_tag_node(et->getDecl(), _decl_enum);
         }
         else if (_is_struct) {
             const RecordType *rt = q->getAsStructureType();
-            const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_tag_node(rt->getDecl(), _decl_struct);
         }
         else if (_is_union) {
             const RecordType *rt = q->getAsUnionType();
-            const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_tag_node(rt->getDecl(), _decl_union);
         }
         else if (_is_complex) {
             tr = crefl_intrinsic(db, _decl_cfloat, t.Width);
@@ -382,13 +392,16 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
     decl_ref create_named_node(NamedDecl *d, decl_tag tag)
     {
-        /* create node */
-        decl_ref r = crefl_decl_new(db, tag);
-        crefl_decl_ptr(r)->_name = crefl_name_new(db,
-            d->NamedDecl::getNameAsString().c_str());
-
-        /* record clang -> crefl id */
-        idmap[d->Decl::getID()] = crefl_decl_idx(r);
+        /* create node unless an earlier reference did */
+        decl_ref r = { db, idmap[d->Decl::getID()] };
+        if (!crefl_decl_idx(r)) {
+            r = crefl_decl_new(db, tag);
+            crefl_decl_ptr(r)->_name = crefl_name_new(db,
+                d->NamedDecl::getNameAsString().c_str());
+
+            /* record clang -> crefl id */
+            idmap[d->Decl::getID()] = crefl_decl_idx(r);
+        }
 
         /* find parent id */
         const auto& parents = context.getParents(*d);
-- 
2.43.0


From 3abe1e21d6ccebd4d33a99e33b0c324868a1c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 34/49] fix: do not reflect declarations in function bodies

Their parent is a statement, which was dereferenced as a declaration.
---
 src/reflect.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 68dab0b..7244dae 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -433,6 +433,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return r;
     }
 
+    /* declarations in function bodies are not part of the interface */
+    bool TraverseStmt(Stmt *s) { return true; }
+
     decl_set get_cvr_props(QualType q)
     {
         int props = 0;
-- 
2.43.0


From 3653e9468d84284883d1366e83eb131e442221c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 35/49] fix: reflect the fields of anonymous struct and union
 members

---
 src/reflect.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 7244dae..0ac2368 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -433,6 +433,15 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return r;
     }
 
+    /* fields holding anonymous structs and unions are implicit */
+    bool TraverseDecl(Decl *d)
+    {
+        if (d && d->isImplicit() && isa<FieldDecl>(d)) {
+            return WalkUpFromFieldDecl(cast<FieldDecl>(d));
+        }
+        return RecursiveASTVisitor<ReflectVisitor>::TraverseDecl(d);
+    }
+
     /* declarations in function bodies are not part of the interface */
     bool TraverseStmt(Stmt *s) { return true; }
 
-- 
2.43.0


From 879eadbecb99242120bd4aaffb75093a364679ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 36/49] fix: accept forward declarations of enums

---
 src/reflect.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 0ac2368..032e93b 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -524,7 +524,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             d->getNumPositiveBits());
 
         const QualType q = d->getIntegerType();
-        TypeInfo t = context.getTypeInfo(q);
+        TypeInfo t;
+        if (!q.isNull()) t = context.getTypeInfo(q);
 
         /* create enum */
         decl_ref r = create_named_node(d, _decl_enum);
-- 
2.43.0


From fc2215cd29dabda05991029e1e79b52fd960f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 37/49] fix: exit with an error when the plugin cannot write
 its output

---
 src/reflect.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 032e93b..dd293d0 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -758,7 +758,10 @@ void ReflectAction::EndSourceFileAction()
         crefl_db_dump(db);
     }
     if (outputFile.size()) {
-        crefl_db_write_file(db, outputFile.c_str());
+        if (crefl_db_write_file(db, outputFile.c_str()) != 0) {
+            fprintf(stderr, "error: writing %s\n", outputFile.c_str());
+            exit(1);
+        }
     }
     crefl_db_destroy(db);
 
-- 
2.43.0


From b3aa61229c930fd1b5d55255d5cb113cb106b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 38/49] fix: print the last character of object identifiers in
 asn1tool

---
 tool/asn1tool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 90f6b9b..4edbfe5 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -23,7 +23,7 @@ static std::string oid_str(const char *data, size_t sz)
 
     len = 0;
     crefl_asn1_oid_to_string(NULL, &len, &obj);
-    s.resize(len+1);
+    s.resize(++len);
     crefl_asn1_oid_to_string(s.data(), &len,  &obj);
     s.resize(len);
 
-- 
2.43.0


From 5f24ee3542de8acd7b48d4c3e8fc93673c7f6206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 39/49] fix: refuse ASN.1 elements longer than what encloses
 them

Their contents were read from beyond the end of the file.
---
 tool/asn1tool.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 4edbfe5..0ccb8ae 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -62,6 +62,9 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     undent = std::string(15-depth, ' ');
     undent += undent;
 
+    current = crefl_buf_offset(buf);
+    if (current > limit || hdr._length > limit - current) goto err;
+
     printf("[%5zu;%-5llu]%s|-%c%-20s",
         crefl_buf_offset(buf), hdr._length,
         indent.c_str(), hdr._id._constructed ? '*' : ' ',
-- 
2.43.0


From ef39e604116d8aa0703def5388a9fe6cead2b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 40/49] fix: show ASN.1 elements at the depth they are nested
 at

The elements after a SEQUENCE or SET were taken for its members, and an
empty one swallowed the element after it.
---
 tool/asn1tool.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 0ccb8ae..3d17b5b 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -74,12 +74,11 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     case asn1_tag_set:
     case asn1_tag_sequence:
         printf("\n");
-        do {
-            current = crefl_buf_offset(buf);
-            int ret = read_asn1(buf, current, current + hdr._length, depth+1);
+        limit = current + hdr._length;
+        while ((offset = crefl_buf_offset(buf)) < limit) {
+            int ret = read_asn1(buf, offset, limit, depth+1);
             if (ret < 0) return ret;
-            offset = crefl_buf_offset(buf);
-        } while (offset < limit);
+        }
         break;
     case asn1_tag_object_identifier:
         current = crefl_buf_offset(buf);
@@ -122,8 +121,11 @@ static void dump_asn1(const char *filename)
     if (crefl_read_file(v, filename) != 0) return;
     crefl_buf *buf = crefl_buf_new(v.size());
     memcpy(buf->data, v.data(), v.size());
-    if (read_asn1(buf, 0, v.size(), 0) < 0) {
-        fprintf(stderr, "error: recurse_asn1 returned an error\n");
+    while (crefl_buf_offset(buf) < v.size()) {
+        if (read_asn1(buf, crefl_buf_offset(buf), v.size(), 0) < 0) {
+            fprintf(stderr, "error: recurse_asn1 returned an error\n");
+            break;
+        }
     }
 }
 
-- 
2.43.0


From 8d918f12df58107a3773d7df908143b11b9a416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 41/49] fix: do not abort on deeply nested ASN.1

---
 tool/asn1tool.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 3d17b5b..ff77fb9 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -46,12 +46,16 @@ static std::string hex_str(const uint8_t *data, size_t sz)
 
 extern const char* asn1_tag_names[];
 
+static const int max_depth = 1000;
+
 static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
 {
     asn1_hdr hdr;
     std::string indent, undent, oid, desc;
     size_t current;
 
+    if (depth > max_depth) goto err;
+
     crefl_buf_seek(buf, offset);
 
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) goto err;
@@ -59,7 +63,7 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
 
     indent = std::string(depth, ' ');
     indent += indent;
-    undent = std::string(15-depth, ' ');
+    undent = std::string(depth < 15 ? 15-depth : 0, ' ');
     undent += undent;
 
     current = crefl_buf_offset(buf);
-- 
2.43.0


From b3bfdf91a0009f350eb2a3442585148c8b876cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 42/49] fix: exit with an error when asn1tool cannot read its
 input

---
 tool/asn1tool.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index ff77fb9..0ff7839 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -119,18 +119,19 @@ err:
     return -1;
 }
 
-static void dump_asn1(const char *filename)
+static int dump_asn1(const char *filename)
 {
     std::vector<uint8_t> v;
-    if (crefl_read_file(v, filename) != 0) return;
+    if (crefl_read_file(v, filename) != 0) return -1;
     crefl_buf *buf = crefl_buf_new(v.size());
     memcpy(buf->data, v.data(), v.size());
     while (crefl_buf_offset(buf) < v.size()) {
         if (read_asn1(buf, crefl_buf_offset(buf), v.size(), 0) < 0) {
             fprintf(stderr, "error: recurse_asn1 returned an error\n");
-            break;
+            return -1;
         }
     }
+    return fflush(stdout) != 0 || ferror(stdout) ? -1 : 0;
 }
 
 int main(int argc, const char **argv)
@@ -140,8 +141,7 @@ int main(int argc, const char **argv)
     if (strcmp(argv[1], "--dump") == 0);
     else goto help_exit;
 
-    dump_asn1(argv[2]);
-    exit(0);
+    exit(dump_asn1(argv[2]) < 0 ? 1 : 0);
 
 help_exit:
     fprintf(stderr, "usage: %s [--dump] <filename.refl>\n", argv[0]);
-- 
2.43.0


From 8aad9cf189fd1bc80d8232e99e88d9f774b86edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 43/49] fix: share merged declarations only when they are equal

Hashes refer to enclosing declarations by name, so declarations that are
part of a cycle can have equal hashes without being equal. Merging then
linked one source's types to those of another source.
---
 src/link.cc | 79 +++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 74 insertions(+), 5 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index cf2adf7..ef2f747 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -22,7 +22,10 @@
 #include <cassert>
 #include <cstdlib>
 
+#include <set>
 #include <string>
+#include <vector>
+#include <utility>
 
 #include <crefl/bits.h>
 #include <crefl/model.h>
@@ -336,8 +339,62 @@ struct crefl_link_state
     decl_db *db;
     decl_index *ld;
     decl_index *src_ld;
+    std::vector<decl_id> copied; /* source decl to its copy */
 };
 
+/*
+ * hashes contain just the names of nodes that were being hashed when they
+ * were referred to, so equal hashes do not imply equality for declarations
+ * that are part of a cycle. compare nodes following everything they refer to.
+ */
+typedef std::set<std::pair<decl_id,decl_id>> decl_pair_set;
+
+static bool crefl_node_equal(decl_ref a, decl_ref b, decl_pair_set &seen);
+
+static bool crefl_list_equal(decl_ref a, decl_ref b, decl_pair_set &seen)
+{
+    while (crefl_decl_idx(a) && crefl_decl_idx(b)) {
+        if (!crefl_node_equal(a, b, seen)) return false;
+        a = crefl_decl_next(a);
+        b = crefl_decl_next(b);
+    }
+    return !crefl_decl_idx(a) && !crefl_decl_idx(b);
+}
+
+static bool crefl_node_equal(decl_ref a, decl_ref b, decl_pair_set &seen)
+{
+    while (crefl_is_alias(a)) a = crefl_decl_link(a);
+    while (crefl_is_alias(b)) b = crefl_decl_link(b);
+
+    if (!seen.insert({ (decl_id)crefl_decl_idx(a),
+                       (decl_id)crefl_decl_idx(b) }).second) return true;
+
+    if (crefl_decl_tag(a) != crefl_decl_tag(b) ||
+        crefl_decl_props(a) != crefl_decl_props(b) ||
+        crefl_decl_qty(a) != crefl_decl_qty(b) ||
+        strcmp(crefl_decl_name(a), crefl_decl_name(b)) != 0 ||
+        !crefl_list_equal(crefl_decl_attr(a), crefl_decl_attr(b), seen)) {
+        return false;
+    }
+
+    decl_ref la = crefl_decl_link(a), lb = crefl_decl_link(b);
+    switch (crefl_decl_tag(a)) {
+    case _decl_archive:
+    case _decl_source:
+    case _decl_set:
+    case _decl_enum:
+    case _decl_struct:
+    case _decl_union:
+    case _decl_function:
+        return crefl_list_equal(la, lb, seen);
+    default:
+        if (!crefl_decl_idx(la) || !crefl_decl_idx(lb)) {
+            return !crefl_decl_idx(la) && !crefl_decl_idx(lb);
+        }
+        return crefl_node_equal(la, lb, seen);
+    }
+}
+
 bool _should_copy(decl_ref d)
 {
     /* copy if not one of: 'set', 'enum', 'struct', 'union' and 'function' */
@@ -356,6 +413,7 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
     decl_entry *ent = crefl_entry_ptr(er);
     decl_hash *hash = &ent->hash;
     decl_ref next, r, c, a, last = { db, 0 };
+    decl_id found = 0;
 
     /* always return direct references to intrinsics */
     if (crefl_decl_tag(d) == _decl_intrinsic) {
@@ -363,19 +421,29 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
     }
 
     /* lookup node in our hash table to decide whether to copy or alias */
-    auto i = state->map->find(*hash);
-    if (i == state->map->end() || _should_copy(d)) {
+    if (!_should_copy(d)) {
+        decl_pair_set seen;
+        auto i = state->map->find(*hash);
+        if (state->copied[crefl_decl_idx(d)]) {
+            found = state->copied[crefl_decl_idx(d)];
+        } else if (i != state->map->end() &&
+                   crefl_node_equal(i->second, d, seen)) {
+            found = i->second.decl_idx;
+        }
+    }
+    if (!found) {
         /* copy unseen nodes or non-collection nodes */
         r = crefl_decl_new(db, crefl_decl_tag(d));
         crefl_decl_ptr(r)->_name = crefl_name_new(db, crefl_decl_name(d));
         crefl_decl_ptr(r)->_props = crefl_decl_props(d);
         crefl_decl_ptr(r)->_quantity = crefl_decl_qty(d);
         (*state->map)[*hash] = r;
+        state->copied[crefl_decl_idx(d)] = crefl_decl_idx(r);
     } else {
         /* return node directly if it is a child link */
-        if (_is_child) return decl_ref { db, i->second.decl_idx };
+        if (_is_child) return decl_ref { db, found };
         /* otherwise alias node so we can override its next element */
-        a = crefl_lookup(db, i->second.decl_idx);
+        a = crefl_lookup(db, found);
         r = crefl_decl_new(db, _decl_alias);
         crefl_decl_ptr(r)->_name = crefl_name_new(db, crefl_decl_name(d));
         crefl_decl_ptr(r)->_link = crefl_decl_idx(a);
@@ -443,7 +511,8 @@ int crefl_link_merge(decl_db *db, const char *name, decl_db **srcn, size_t n)
     for (size_t i = 0; i < n; i++) {
         decl_index *src_ld = crefl_index_new();
         crefl_index_scan(src_ld, srcn[i]);
-        crefl_link_state state{ &map, db, ld, src_ld };
+        crefl_link_state state{ &map, db, ld, src_ld,
+            std::vector<decl_id>(srcn[i]->decl_offset) };
         decl_ref d = crefl_lookup(srcn[i], srcn[i]->root_element);
         decl_ref p = crefl_decl_void(d);
         decl_ref o = crefl_copy_node(&state, d, p);
-- 
2.43.0


From 610f3101d571eff402cb7a12bb2582a5ca983559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 44/49] fix: attributes and types recorded by the plugin
 survive growth of the declaration table

The table address was taken before the right hand side added declarations,
which moves the table: the link or attribute was then written to freed memory
and lost.
---
 src/reflect.cc | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index dd293d0..15e9abd 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -133,6 +133,13 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         }
     }
 
+    /*
+     * the arguments may add declarations, which moves the table of
+     * declarations, so they are evaluated before it is addressed.
+     */
+    void set_link(decl_ref r, decl_id id) { crefl_decl_ptr(r)->_link = id; }
+    void set_attr(decl_ref r, decl_id id) { crefl_decl_ptr(r)->_attr = id; }
+
     decl_ref create_attribute(decl_ref last, const char *name)
     {
         /* create attribute */
@@ -501,8 +508,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create typedef */
         decl_ref r = create_named_node(d, _decl_typedef);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_link(r, crefl_decl_idx(get_intrinsic_type(q)));
+        set_attr(r, create_attributes(d, r));
 
         last = r;
 
@@ -529,7 +536,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create enum */
         decl_ref r = create_named_node(d, _decl_enum);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_attr(r, create_attributes(d, r));
         crefl_decl_ptr(r)->_width = t.Width;
 
         stack.push_back(r);
@@ -555,9 +562,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create constant */
         decl_ref r = create_named_node(d, _decl_constant);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        set_link(r, crefl_decl_idx(get_intrinsic_type(q)));
         crefl_decl_ptr(r)->_value = value;
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_attr(r, create_attributes(d, r));
 
         last = r;
 
@@ -595,7 +602,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
             /* create struct */
             decl_ref r = create_named_node(d, tag);
-            crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+            set_attr(r, create_attributes(d, r));
 
             stack.push_back(r);
             last = decl_ref { db, 0 };
@@ -624,10 +631,10 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create field */
         decl_ref r = create_named_node(d, _decl_field);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        set_link(r, crefl_decl_idx(get_intrinsic_type(q)));
         crefl_decl_ptr(r)->_width = width;
         crefl_decl_ptr(r)->_props |= (-(int)d->isBitField() & _decl_bitfield);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_attr(r, create_attributes(d, r));
 
         last = r;
 
@@ -646,7 +653,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create function */
         decl_ref r = create_named_node(d, _decl_function);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_attr(r, create_attributes(d, r));
         crefl_decl_ptr(r)->_props |=
             (-(int)d->isGlobal() & _decl_global) |
             (-(int)d->isExternC() & _decl_extern_c) |
@@ -661,7 +668,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         /* create return param */
         decl_ref pr = crefl_decl_new(db, _decl_param);
         crefl_decl_ptr(last)->_link = crefl_decl_idx(pr);
-        crefl_decl_ptr(pr)->_link = crefl_decl_idx(get_intrinsic_type(qr));
+        set_link(pr, crefl_decl_idx(get_intrinsic_type(qr)));
         crefl_decl_ptr(pr)->_props |= _decl_out;
 
         /* create argument params */
@@ -674,7 +681,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             crefl_decl_ptr(ar)->_name = crefl_name_new(db,
                 parm->NamedDecl::getNameAsString().c_str());
             crefl_decl_ptr(pr)->_next = crefl_decl_idx(ar);
-            crefl_decl_ptr(ar)->_link = crefl_decl_idx(get_intrinsic_type(q));
+            set_link(ar, crefl_decl_idx(get_intrinsic_type(q)));
             pr = ar;
         }
 
@@ -698,11 +705,11 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         decl_ref r = create_named_node(d, _decl_field);
         const QualType q = d->getTypeSourceInfo()->getType();
         bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        set_link(r, crefl_decl_idx(get_intrinsic_type(q)));
         crefl_decl_ptr(r)->_props |=
             (-(int)d->isExternC() & _decl_extern_c) |
             (-(int)is_static & _decl_static);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_attr(r, create_attributes(d, r));
 
         last = r;
 
-- 
2.43.0


From 6f7d52854c6b4f01cb3b2ef6c4087f0798802233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 45/49] fix: population count of zero, and of unsigned words in
 C

---
 include/crefl/bits.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index 7c1d988..a4cf58d 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -47,8 +47,8 @@ static inline unsigned clz_u32(__bits_u32 val) { return val == 0 ? 32 : __builti
 static inline unsigned clz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_clzll(val); }
 static inline unsigned ctz_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_ctz(val); }
 static inline unsigned ctz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_ctzll(val); }
-static inline unsigned popcnt_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_popcount(val); }
-static inline unsigned popcnt_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_popcountll(val); }
+static inline unsigned popcnt_u32(__bits_u32 val) { return __builtin_popcount(val); }
+static inline unsigned popcnt_u64(__bits_u64 val) { return __builtin_popcountll(val); }
 #define _bits_defined (_clz_defined | _ctz_defined | _popcnt_defined)
 #elif defined (_MSC_VER) && defined (_M_X64)
 static inline unsigned clz_u32(__bits_u32 val) { return (int)_lzcnt_u32(val); }
@@ -158,8 +158,8 @@ static inline unsigned ctz_u64(__bits_u64 v)
 	unsigned int: ctz_u32, signed int: ctz_u32, \
 	unsigned long long: ctz_u64, signed long long: ctz_u64)(X)
 #define popcnt(X) _Generic((X), \
-	unsigned int: ctz_u32, signed int: popcnt_u32, \
-	unsigned long long: ctz_u64, signed long long: popcnt_u64)(X)
+	unsigned int: popcnt_u32, signed int: popcnt_u32, \
+	unsigned long long: popcnt_u64, signed long long: popcnt_u64)(X)
 #endif
 
 /*
-- 
2.43.0


From 1f532ce36a1ac98b2d9a07f7fc9ec1069698f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 46/49] fix: pass each include directory of a target on its own
 to creflcc.py

---
 cmake/crefl_macro.cmake | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmake/crefl_macro.cmake b/cmake/crefl_macro.cmake
index 21df225..08ef1e3 100644
--- a/cmake/crefl_macro.cmake
+++ b/cmake/crefl_macro.cmake
@@ -11,7 +11,6 @@ macro(crefl_target_reflect target target_lib)
 	# transform includes for this target
     get_target_property(${target}_includes ${target} INCLUDE_DIRECTORIES)
     list(TRANSFORM ${target}_includes PREPEND "-I")
-    list(JOIN ${target}_includes " " ${target}_include_args)
 
     # add custom commands that reflect on sources for this target
     get_target_property(${target}_sources ${target} SOURCES)
@@ -21,7 +20,7 @@ macro(crefl_target_reflect target target_lib)
         add_custom_command(
             OUTPUT ${_source}.refl
             COMMAND ${CMAKE_CURRENT_SOURCE_DIR}/scripts/creflcc.py -p ${CMAKE_BINARY_DIR}
-                -o ${CMAKE_BINARY_DIR}/${_source}.refl ${${target}_include_args}
+                -o ${CMAKE_BINARY_DIR}/${_source}.refl ${${target}_includes}
                    ${CMAKE_CURRENT_SOURCE_DIR}/${_source}
             DEPENDS ${_source} crefl VERBATIM)
 	endforeach()
-- 
2.43.0


From 24382231886866b48ca6a26e90d977b7e75eeb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 47/49] fix: record atomic types as the type they hold

---
 src/reflect.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 15e9abd..108db7b 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -273,7 +273,10 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         TypeInfo t;
         if (_is_array || !q->isIncompleteType()) t = context.getTypeInfo(q);
 
-        if (_is_pointer) {
+        if (const AtomicType *at = q->getAs<AtomicType>()) {
+            tr = get_intrinsic_type(at->getValueType());
+        }
+        else if (_is_pointer) {
             const QualType pq = q->getPointeeType();
             decl_ref ti = get_intrinsic_type(pq);
 
-- 
2.43.0


From 0d3d04cddb6df168331b1bfb314fea1058e53179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 48/49] fix: record arrays with the bound their initialiser
 gives them

---
 src/reflect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 108db7b..5cfb4ad 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -706,7 +706,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create field */
         decl_ref r = create_named_node(d, _decl_field);
-        const QualType q = d->getTypeSourceInfo()->getType();
+        const QualType q = d->getType();
         bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;
         set_link(r, crefl_decl_idx(get_intrinsic_type(q)));
         crefl_decl_ptr(r)->_props |=
-- 
2.43.0


From 8dc08393568d9d0c21f20200f33842eb817f6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 49/49] fix: decode first OID subidentifiers of two or more
 octets

---
 scripts/parse_oids.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/parse_oids.py b/scripts/parse_oids.py
index 8104032..0ee37da 100755
--- a/scripts/parse_oids.py
+++ b/scripts/parse_oids.py
@@ -13,16 +13,17 @@ def parse_oid(v):
     return list(map(lambda x: int(x, 16), h))
 
 def decode_oid(l):
-    c, i, r = 0, 0, []
+    c, r = 0, []
     for v in l:
         c = (c << 7) + (v & 0x7f)
         if v < 128:
-            if i == 0:
-                r += [ int(c/40), int(c%40) ]
+            if len(r) == 0:
+                # the first two components share a subidentifier
+                a = min(c // 40, 2)
+                r += [ a, c - a * 40 ]
             else:
                 r += [ c ]
             c = 0
-        i += 1
     return r
 
 def join_oid_str(l):
-- 
2.43.0

