From 9505fc3eba7ff9bbc8f2dea7062dfc9592ac5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 01/76] fix: strsplit_quick: an array of zero slots is full,
 don't realloc the caller's array

---
 src/strsplit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index 3cd3137..a81815e 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -104,14 +104,14 @@ _stra_resize(stra * a)
  * Return True if 'a' can hold 'n' more elements
  *
  * Don't resize if one of two conditions hold:
- *  - capacity is pinned (a->cap < 0)
+ *  - capacity is pinned (a->cap <= 0; a pinned capacity can be zero)
  *  - the size is big enough to accommodate the new request
  */
 static inline int
 _stra_resize_if(stra* a, int n)
 {
     int want = a->size + n;
-    if (a->cap < 0)
+    if (a->cap <= 0)
         return want <= -a->cap;
 
     if (want >= a->cap)
-- 
2.43.0


From 8ded59fe2bca2287b689b4d6e18d6faf0d996146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:37 +0000
Subject: [PATCH 02/76] fix: delimiter bitset: index by unsigned byte, so that
 chars >= 0x80 stay inside the set

---
 src/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bits.h b/src/bits.h
index 094c722..4d3d699 100644
--- a/src/bits.h
+++ b/src/bits.h
@@ -33,8 +33,8 @@ extern "C" {
 #define xword          uint32_t
 #define WORDBITS      (8 * sizeof(xword))
 #define BITVECTSIZE   (256 / WORDBITS)
-#define _word(c)      (((xword)(c)) / WORDBITS)
-#define _bitp(c)      (1 << (((xword)(c)) % WORDBITS))
+#define _word(c)      (((uint8_t)(c)) / WORDBITS)
+#define _bitp(c)      (((xword)1) << (((uint8_t)(c)) % WORDBITS))
 
 struct delim {
     xword    v[BITVECTSIZE];
-- 
2.43.0


From b161e985e0b9cfa318b6cf7bbdb960d0a36defd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:23 +0000
Subject: [PATCH 03/76] fix: strunquote: look for the closing quote at the end
 of the string, not before it

---
 src/strunquote.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/strunquote.c b/src/strunquote.c
index 86759df..b822dc1 100644
--- a/src/strunquote.c
+++ b/src/strunquote.c
@@ -17,6 +17,7 @@
 #include "utils/utils.h"
 #include <sys/types.h>
 #include <stdlib.h>
+#include <string.h>
 #include <assert.h>
 
 
@@ -41,8 +42,8 @@ strunquote(char* s, char** p_ret)
     int q = *s;
     if (q != '"' && q != '\'') return 0;
 
-    int n = strlen(s+1);
-    if (s[n-1] != q) return -1;
+    size_t n = strlen(s);
+    if (n < 2 || s[n-1] != q) return -1;
 
     s[--n] = 0;
     if (p_ret)  *p_ret = s + 1;
-- 
2.43.0


From 107df4658bbcd4f8ce72be50d8f369da2416e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:23 +0000
Subject: [PATCH 04/76] fix: strsplitargs: keep the word a quote starts in the
 middle of, classify bytes as unsigned

---
 src/splitargs.c | 47 ++++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/splitargs.c b/src/splitargs.c
index 8449d1f..e747abf 100644
--- a/src/splitargs.c
+++ b/src/splitargs.c
@@ -54,11 +54,11 @@ strsplitargs(char **args, size_t n, char *s)
 {
     int c;
     int i = 0;
-    int k = n;
+    size_t k = n;
     int inquote = 0;
-    int eow = 0;
 
-    char *p = s;    // start of substring
+    char *p   = s;    // copy ptr; never ahead of 's'
+    char *arg = 0;    // start of current word (if any)
 
 #define ADDARG(z)   do {\
                         if (k == 0) return -ENOSPC;\
@@ -66,41 +66,38 @@ strsplitargs(char **args, size_t n, char *s)
                         k--;             \
                     } while (0)
 
-    for (; (c = *s); s++) {
+    for (; (c = (unsigned char)*s); s++) {
         if (inquote) {
-            if (c == inquote) { // quote ended
-                *s = 0;
-                ADDARG(p+1);    // +1 to skip the starting quote.
-                p       = s+1;  // +1 to skip the ending quote
-                inquote = 0;
-            }
-
-            // regardless, we consume everything inside the quotes.
+            // we consume everything inside the quotes.
+            if (c == inquote) inquote = 0;
+            else              *p++ = c;
             continue;
         }
 
         if (isspace(c)) {
-            *s  = 0;
-            eow = 1;
+            // terminate the current word (if there is one)
+            if (arg) {
+                ADDARG(arg);
+                *p++ = 0;
+                arg  = 0;
+            }
             continue;
         }
 
-        if (c == '"' || c == '\'') {
-            inquote = c;
-        }
+        if (!arg) arg = p;
 
-        // either c is a quote-char or a non-ws char. In either
-        // case, we terminate the previous word (if there is one).
-        if (eow) {
-            if (*p) ADDARG(p);
-            p   = s;
-            eow = 0;
-        }
+        // A quote can start anywhere in a word; the quote chars are
+        // not part of the word.
+        if (c == '"' || c == '\'') inquote = c;
+        else                       *p++ = c;
     }
 
     if (inquote) return -EINVAL;    // no ending quote
 
-    if (*p) ADDARG(p);
+    if (arg) {
+        ADDARG(arg);
+        *p = 0;
+    }
 
     return i;   // total number of arguments
 }
-- 
2.43.0


From b50f6c1fecaac9f9b130ecd5c2f00f8af0d75768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:06 +0000
Subject: [PATCH 05/76] fix: gstring: lengths after copy and unquote, append of
 a part of itself, room for the null in readline

---
 src/gstring.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index 123a43c..188f482 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -26,12 +26,12 @@
 #include "bits.h"
 
 /* Grow string `g' by `len' bytes -- if necessary. */
-static gstr* grow_if(gstr * g, int len);
+static gstr* grow_if(gstr * g, size_t len);
 
 
 /* Grow the gstr by additional 'len' bytes -- if necessary. */
 static gstr*
-grow_if(gstr * g, int len)
+grow_if(gstr * g, size_t len)
 {
     size_t want = g->len + len + 1; // trailing null
 
@@ -121,8 +121,9 @@ static size_t
 __append(gstr* g, const char* str, size_t len)
 {
     g = grow_if(g, len+1);
-    memcpy(g->str + g->len, str, len+1);
+    memcpy(g->str + g->len, str, len);
     g->len += len;
+    g->str[g->len] = 0;
     return g->len;
 }
 
@@ -152,7 +153,11 @@ gstr_append(gstr * g, const gstr * that)
 {
     assert(g);
 
-    return that ? __append(g, that->str, that->len) : g->len;
+    if (!that) return g->len;
+
+    // 'that' may be 'g' - grow first, since it can move the string.
+    g = grow_if(g, that->len+1);
+    return __append(g, that->str, that->len);
 }
 
 
@@ -257,7 +262,8 @@ gstr_copy(gstr * dest, const gstr* src)
     dest->len = 0;
 
     dest = grow_if(dest, len+1);
-    memcpy(dest->str, src->str, len+1);
+    memmove(dest->str, src->str, len+1);
+    dest->len = len;
     return dest;
 }
 
@@ -300,7 +306,7 @@ gstr_trim(gstr * g)
 
     /* Remove leading spaces */
     for (str = g->str; (c = *str); str++) {
-        if (!isspace(c))
+        if (!isspace((unsigned char)c))
             goto _nonws;
     }
 
@@ -318,7 +324,7 @@ _nonws:
     for (ptr = str_end = g->str; (c = *ptr = *str);
                  str++, ptr++)
     {
-        if (!isspace(c))
+        if (!isspace((unsigned char)c))
             str_end = ptr;
     }
 
@@ -349,10 +355,11 @@ gstr_unquote(gstr* g)
     int q = g->str[0];
     if (q != '"' && q != '\'')  return 0;
 
-    if (g->str[g->len-1] != q) return -1;
+    if (g->len < 2 || g->str[g->len-1] != q) return -1;
 
     g->str[--g->len] = 0;
     memmove(g->str, g->str+1, g->len);
+    g->len--;
     return q;
 }
 
@@ -386,7 +393,7 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
     str = g->str;
     len = g->len = 0;
     while ((c = fgetc(fp)) != EOF) {
-        if (len >= g->cap) {
+        if (len+1 >= g->cap) {  // leave room for the trailing null
             size_t newcap = g->cap * 2;
             str = (char *) realloc(g->str, newcap);
             if (!str)
-- 
2.43.0


From 4dcd13e74b0766483cd3e82a0b1563520f1f4315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:06 +0000
Subject: [PATCH 06/76] fix: gstr_unescape: hex digits a-f are 10..15, keep an
 escape with no digits, classify bytes as unsigned

---
 src/unescape.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/unescape.c b/src/unescape.c
index 1262574..fec5c85 100644
--- a/src/unescape.c
+++ b/src/unescape.c
@@ -162,7 +162,7 @@ parse_esc(char **p_out, const char *src, int esc_char)
             *out++ = esc_char;
             *out++ = c;
             *p_out = out;
-            return src + 2;
+            return src + 1;
         }
     }
 
@@ -204,7 +204,7 @@ extract_decimal(int *p_val, const char *ptr)
         int c = *ptr;
 
         if (!c)          break;
-        if (!isdigit(c)) break;
+        if (!isdigit((unsigned char)c)) break;
 
         val = (val * 10) + (c - '0');
         ptr++;
@@ -219,6 +219,7 @@ extract_hex(int *p_val, const char *ptr)
 {
     int n   = 2;
     int val = 0;
+    const char *start = ptr;
 
     while (n-- > 0) {
         int c = *ptr;
@@ -234,12 +235,12 @@ extract_hex(int *p_val, const char *ptr)
 
             case 'a': case 'b': case 'c':
             case 'd': case 'e': case 'f':
-                z = c - 'a';
+                z = c - 'a' + 10;
                 break;
 
             case 'A': case 'B': case 'C':
             case 'D': case 'E': case 'F':
-                z = c - 'A';
+                z = c - 'A' + 10;
                 break;
 
             case 0:
@@ -252,6 +253,8 @@ extract_hex(int *p_val, const char *ptr)
     }
 
 out:
+    if (ptr == start) return 0;     // no digits
+
     *p_val = val & 0xff;
     return ptr;
 }
-- 
2.43.0


From 0e840ff6aac0b45517c53b6fcb5bbf632422947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:06 +0000
Subject: [PATCH 07/76] fix: gstr_escape: one escape char before an octal code,
 three digits for bytes >= 0x80

---
 src/escape.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/escape.c b/src/escape.c
index ebc2993..0eaa860 100644
--- a/src/escape.c
+++ b/src/escape.c
@@ -80,7 +80,8 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
                     gstr_append_ch(g, 'v');
                     break;
                 default:
-                    snprintf(buf, sizeof buf, "%c0%3.3o", esc_char, c);
+                    // the esc_char is already there
+                    snprintf(buf, sizeof buf, "0%3.3o", (unsigned char)c);
                     gstr_append_str(g, buf);
             }
         } else {
-- 
2.43.0


From 89c6f9d140943b90999b76934d5eae3b98e225dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:06 +0000
Subject: [PATCH 08/76] fix: gstr_varexp: classify bytes as unsigned

---
 src/gstring_var.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gstring_var.c b/src/gstring_var.c
index 94ce858..8f25570 100644
--- a/src/gstring_var.c
+++ b/src/gstring_var.c
@@ -66,7 +66,7 @@ getvar(gstr *v, char * s)
                 break;
 
             default:
-                if (!isalnum(c)) goto out;
+                if (!isalnum((unsigned char)c)) goto out;
                 break;
         }
         gstr_append_ch(v, c);
-- 
2.43.0


From 7bab94e8cf02c136c1152f2b95be46711257c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:47 +0000
Subject: [PATCH 09/76] fix: base64_decode: table lookup of '{', write only
 whole output bytes, exact output size check

---
 src/b64_decode.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 0abcc94..63ae1aa 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -22,7 +22,7 @@ base64_decode_value(int value_in)
     };
 	static const int decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[value_in];
 }
 
@@ -39,10 +39,9 @@ base64_decode_block(base64_decode_state* state_in, const char* code_in,
 {
     const char* codechar = code_in;
     char* plainchar      = plaintext_out;
+    char pending         = state_in->plainchar; // bits of the next output char
     char fragment;
 
-    *plainchar = state_in->plainchar;
-
     switch (state_in->step)
     {
         while (1)
@@ -52,47 +51,47 @@ base64_decode_block(base64_decode_state* state_in, const char* code_in,
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_a;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = pending;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar    = (fragment & 0x03f) << 2; // fallthrough
+                pending      = (fragment & 0x03f) << 2; // fallthrough
             case step_b:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_b;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = pending;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++ |= (fragment & 0x030) >> 4;
-                *plainchar    = (fragment & 0x00f) << 4; // fallthrough
+                *plainchar++ = pending | (fragment & 0x030) >> 4;
+                pending      = (fragment & 0x00f) << 4; // fallthrough
             case step_c:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_c;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = pending;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++ |= (fragment & 0x03c) >> 2;
-                *plainchar    = (fragment & 0x003) << 6; // fallthrough
+                *plainchar++ = pending | (fragment & 0x03c) >> 2;
+                pending      = (fragment & 0x003) << 6; // fallthrough
             case step_d:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_d;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = pending;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++   |= (fragment & 0x03f);
+                *plainchar++ = pending | (fragment & 0x03f);
         }
     }
     /* control should not reach here */
@@ -106,7 +105,8 @@ base64_decode_buf(void* buf, int destlen, char* src, int srclen)
     char* dest = (char*)buf;
     base64_decode_state state;
 
-    if (destlen < (srclen/2)) return -ENOMEM;
+    // every 4 chars of input yield at most 3 bytes
+    if (destlen < (srclen / 4) * 3 + ((srclen % 4) * 3) / 4) return -ENOMEM;
 
     base64_decode_init(&state);
 
-- 
2.43.0


From a625e84778006902e0f79fed8e939b33974860d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:47 +0000
Subject: [PATCH 10/76] fix: base64_encode_buf: require room for what is
 written (padding, line breaks, newline, null)

---
 src/b64_encode.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/b64_encode.c b/src/b64_encode.c
index 891f309..fa161ab 100644
--- a/src/b64_encode.c
+++ b/src/b64_encode.c
@@ -7,6 +7,7 @@
  */
 
 #include <errno.h>
+#include <stddef.h>
 #include <assert.h>
 #include "utils/base64.h"
 
@@ -125,12 +126,15 @@ base64_encode_buf(char* dest, int destlen, void* src, int srclen)
     base64_encode_state state;
     int n;
 
-    if (destlen < (2*srclen))
+    // 4 chars for every 3 bytes, line breaks, last newline and null
+    size_t n3   = srclen / 3;
+    size_t need = (n3 + (srclen % 3 > 0)) * 4 + n3 / (CHARS_PER_LINE/4) + 2;
+    if (srclen < 0 || destlen < 0 || (size_t)destlen < need)
         return -ENOMEM;
 
     base64_encode_init(&state);
     n = base64_encode_block(&state, (char*)src, srclen, dest);
-    assert(n < (destlen+5));
+    assert(n < destlen);
     return n + base64_encode_finish(&state, dest+n);
 }
 
-- 
2.43.0


From 26e129cc22bc81015b31ec82a7744f2f7a31cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:37 +0000
Subject: [PATCH 11/76] fix: parse_ipv4: reject empty and trailing octets, /0
 mask, mask overflow and truncation

---
 src/parse-ip.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index ab304b3..0593add 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -53,10 +53,13 @@ dtoi(size_t* pn, const char* s)
     size_t n = 0;
     int c;
 
-    for (; (c = *s); ++s) {
+    if (!*s) return 0;
+
+    for (; (c = (unsigned char)*s); ++s) {
         if (!isdigit(c)) return 0;
 
         n = n * 10 + (c - '0');
+        if (n > 0xffffffff) return 0;
     }
 
     *pn = n;
@@ -110,18 +113,17 @@ parse_ipv4(uint32_t* p_z, const char* sx)
         m      = 0;
     }
 
-    if (m > 0) {
-        x[m] = 0;
-        z    = 0;
-        r    = dtoi(&z, x);
+    // The string must end in the last (fourth) number
+    if (n != 3) return 0;
 
-        if (!r)      return 0;
-        if (z > 255) return 0;
+    x[m] = 0;
+    z    = 0;
+    r    = dtoi(&z, x);
 
-        p[n++] = z & 0xff;
-    }
+    if (!r)      return 0;
+    if (z > 255) return 0;
 
-    if (n < 4) return 0;
+    p[n] = z & 0xff;
 
     *p_z = dec_BE_u32(p);
     return 1;
@@ -152,7 +154,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
         memcpy(as, str, n);
         as[n] = 0;
 
-        safe_strcpy(ms, sizeof ms, sl+1);
+        if (safe_strcpy(ms, sizeof ms, sl+1) < 0)   return 0;
     }
 
     // Now, as has the address part, ms has the mask part.
@@ -169,7 +171,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
             if (z > 32)               return 0;
         }
 
-        *p_m = 0xffffffff << (32 - (uint32_t)z);
+        *p_m = z > 0 ? 0xffffffff << (32 - (uint32_t)z) : 0;
     }
 
     return 1;
-- 
2.43.0


From 342429182428f8526810a5ba74d8bbff9a66e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:37 +0000
Subject: [PATCH 12/76] fix: strtosize: detect every overflow, accept the
 documented B suffix, classify bytes as unsigned

---
 src/strtosize.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/strtosize.c b/src/strtosize.c
index baa6d0c..11a8090 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -41,7 +41,7 @@ strtou64(const char *str, const char **endptr, int base, uint64_t *p_ret)
 
     /* skip leading whitespace */
     for (; (c = *s); s++) {
-        if (!isspace(c)) goto start;
+        if (!isspace((unsigned char)c)) goto start;
     }
     goto done;
 
@@ -85,7 +85,7 @@ start:
     uint64_t cutoff  = _u(~0) / mult,
              cutchar = _u(~0) % mult;
 
-    for (; (c = *s); s++) {
+    for (; (c = (unsigned char)*s); s++) {
         if (isdigit(c))
             c -= '0';
         else if (isalpha(c))
@@ -140,6 +140,10 @@ strtosize(const char* str, int base, uint64_t* ret)
             case ' ':
                 break;
 
+            case 'B':       // just bytes
+                endptr--;
+                break;
+
             case 'k': case 'K':
                 mult = KB_;
                 break;
@@ -176,15 +180,13 @@ strtosize(const char* str, int base, uint64_t* ret)
                 mult /= 8;
                 break;
             default:
-                if (!isspace(*endptr)) return -EINVAL;
+                if (!isspace((unsigned char)*endptr)) return -EINVAL;
         }
     }
 
-    uint64_t res = v * mult;
-
-    if (v > 0 && (res < v || res < mult)) return -ERANGE;
+    if (v > _u(~0) / mult) return -ERANGE;
 
-    if (ret) *ret = res;
+    if (ret) *ret = v * mult;
     return 0;
 }
 
-- 
2.43.0


From c995a9e1366530aaacc8d89dba9ff0deaadc66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:37 +0000
Subject: [PATCH 13/76] fix: humanize_size: print hundredths of the unit, not
 the first digits of the remainder

---
 src/humanize.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/humanize.c b/src/humanize.c
index d2eebd0..cbde2f5 100644
--- a/src/humanize.c
+++ b/src/humanize.c
@@ -70,9 +70,9 @@ humanize_size(char * buf, size_t bufsize, uint64_t nbytes)
             uint64_t m = (nbytes % p->sz);
 
             if (m > 0) {
-                char frac[64];
-                snprintf(frac, sizeof frac, "%" PRIu64, m);
-                snprintf(buf, bufsize, "%" PRIu64 ".%2.2s %s", n, frac, p->suffix);
+                // hundredths of p->sz; scaled down so that it can't overflow
+                uint64_t frac = ((m / (p->sz / kB)) * 100) / kB;
+                snprintf(buf, bufsize, "%" PRIu64 ".%02" PRIu64 " %s", n, frac, p->suffix);
             } else {
                 snprintf(buf, bufsize, "%" PRIu64 " %s", n, p->suffix);
             }
-- 
2.43.0


From fede1790bb520cfbe52782511e811868e84d4dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:51 +0000
Subject: [PATCH 14/76] fix: dirname: empty path is '.', several slashes before
 the last component

---
 src/dirname.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dirname.c b/src/dirname.c
index 09a8695..cafaea5 100644
--- a/src/dirname.c
+++ b/src/dirname.c
@@ -20,6 +20,10 @@ const char *
 dirname(char *buf, size_t bsize, const char *p)
 {
     size_t n = strlen(p);
+    if (n == 0) {
+        p = ".";    // same as dirname(1)
+        n = 1;
+    }
     if (bsize < (n+1)) return 0;
 
     memcpy(buf, p, n);
@@ -37,6 +41,8 @@ found:
     s[1] = 0;   // remove the last slash.
     for (; s > buf; s--) {
         if (*s == '/') {
+            // "a//b" => "a", but keep the leading '/'
+            while (s > buf+1 && s[-1] == '/') s--;
             *s = 0;
             return buf;
         }
-- 
2.43.0


From 53a00727051133029cec316a37d64944512ecfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:51 +0000
Subject: [PATCH 15/76] fix: fhexdump: report a write error as a negative errno

---
 src/hexdump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hexdump.c b/src/hexdump.c
index c39354f..6648f35 100644
--- a/src/hexdump.c
+++ b/src/hexdump.c
@@ -64,7 +64,7 @@ __fp_writer(void *ctx, const char *buf, size_t n)
     FILE *fp = ctx;
     size_t m = fwrite(buf, n, 1, fp);
     if (m != 1) {
-        return feof(fp) ? -EOF : ferror(fp);
+        return errno > 0 ? -errno : -EIO;
     }
     return 0;
 }
-- 
2.43.0


From 752ea4ebe970308ec4cb7270573639501ca7d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:51 +0000
Subject: [PATCH 16/76] fix: ulid: keep the timestamp, bit 16 of it in the
 text, reject text above 128 bits, report getentropy failure

---
 src/ulid.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ulid.c b/src/ulid.c
index f1d91d9..0be5c4b 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -46,14 +46,14 @@ ulid_generate(uint8_t *buf, size_t bsiz)
 
     ms &= ~(((uint64_t)0xffff) << 48);   // clear top 16 bits;
 
-    *buf++ = 0xff && (ms >> 40);
-    *buf++ = 0xff && (ms >> 32);
-    *buf++ = 0xff && (ms >> 24);
-    *buf++ = 0xff && (ms >> 16);
-    *buf++ = 0xff && (ms >>  8);
-    *buf++ = 0xff && ms;
-
-    getentropy(buf, 10);
+    *buf++ = 0xff & (ms >> 40);
+    *buf++ = 0xff & (ms >> 32);
+    *buf++ = 0xff & (ms >> 24);
+    *buf++ = 0xff & (ms >> 16);
+    *buf++ = 0xff & (ms >>  8);
+    *buf++ = 0xff & ms;
+
+    if (getentropy(buf, 10) < 0) return -errno;
     return 16;
 }
 
@@ -104,6 +104,9 @@ ulid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
         if (0xff == z) return -EINVAL;  \
         z; })
 
+    // 26 digits hold 130 bits; the first one can only use 3 of its 5.
+    if (v(0) > 7)           return -EINVAL;
+
 	*buf++   = ((v(0) << 5) |  v(1));
 	*buf++   = ((v(2) << 3) | (v(3) >> 2));
 	*buf++   = ((v(3) << 6) | (v(4) << 1) | (v(5) >> 4));
@@ -146,7 +149,7 @@ ulid_tostring(char *s, size_t bsiz, const uint8_t *id)
     *p++ = b32[ ((id[ 1] &   7) << 2) | ((id[ 2] & 192) >> 6)];
 
     *p++ = b32[ ( id[ 2] &  62) >> 1];
-    *p++ = b32[ ((id[ 3] &   1) << 4) | ((id[ 3] & 240) >> 4)];
+    *p++ = b32[ ((id[ 2] &   1) << 4) | ((id[ 3] & 240) >> 4)];
     *p++ = b32[ ((id[ 3] &  15) << 1) | ((id[ 4] & 128) >> 7)];
     *p++ = b32[ ( id[ 4] & 124) >> 2];
 
-- 
2.43.0


From 3eee253d3beb0b3dcb33d9a74e79ea356e7ef0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:51 +0000
Subject: [PATCH 17/76] fix: uuid: reject more than 32 digits, report
 getentropy failure

---
 src/uuid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uuid.c b/src/uuid.c
index 514f48f..623b238 100644
--- a/src/uuid.c
+++ b/src/uuid.c
@@ -29,7 +29,7 @@ uuid_generate(uint8_t *buf, size_t bsiz)
     if (bsiz == 0) return -EINVAL;
     if (bsiz < 16) return -ENOSPC;
 
-    getentropy(buf, 16);
+    if (getentropy(buf, 16) < 0) return -errno;
 
     buf[6] = 0x4f & (buf[6] | 0x40);
     buf[8] = 0xbf & (buf[8] | 0x80);
@@ -70,6 +70,7 @@ uuid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
                 byte |= (c - 'A' + 10) << shift;
                 break;
         }
+        if (bsiz == 0) return -EINVAL;  // more than 32 digits
         if ((shift -= 4) < 0) {
             *buf++ = byte;
             byte   = 0;
-- 
2.43.0


From d26a0e195df115acd616199f87a4f1580377d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:02 +0000
Subject: [PATCH 18/76] fix: arena: refuse sizes that wrap the size arithmetic,
 arena_strdup when out of memory

---
 inc/utils/arena.h | 2 +-
 src/arena.c       | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/inc/utils/arena.h b/inc/utils/arena.h
index 63293d5..6a3b02e 100644
--- a/inc/utils/arena.h
+++ b/inc/utils/arena.h
@@ -75,7 +75,7 @@ arena_strdup(arena_t a, const char* s)
 {
     size_t n = strlen(s) + 1;
     void*  p = arena_alloc(a, n);
-    return (char *)memcpy(p, s, n);
+    return p ? (char *)memcpy(p, s, n) : 0;
 }
 
 #ifdef __cplusplus
diff --git a/src/arena.c b/src/arena.c
index 3d9bbff..5cfbb09 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -30,6 +30,7 @@
  */
 
 #include <errno.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include "utils/arena.h"
 #include "utils/utils.h"
@@ -93,6 +94,8 @@ arena_new(arena_t* p_arena, size_t chunk_size)
 
     if (!p_arena) return -EINVAL;
 
+    if (chunk_size > SIZE_MAX / 2) return -EINVAL;
+
     if (chunk_size <= 0)
         chunk_size = DEFAULT_CHUNK_SIZE;
     
@@ -128,6 +131,9 @@ arena_alloc(arena_t a, size_t nbytes)
 
     if (!a) return 0;
 
+    /* the size computations below must not wrap around */
+    if (nbytes > SIZE_MAX / 32) return 0;
+
     /* Account for system alignment */
     nbytes = _ALIGN_UP(nbytes, SYS_ALIGNMENT);
 
-- 
2.43.0


From b6a6c9127af595f2d9ffce51a827f541e9d68a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:02 +0000
Subject: [PATCH 19/76] fix: mempool: one-block chunks, clean failure of
 mempool_new, pools smaller than their padding, oversized requests

---
 src/mempool.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/mempool.c b/src/mempool.c
index 54c4331..876b038 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -18,6 +18,7 @@
 
 #include <stdio.h>
 #include <stdint.h>
+#include <limits.h>
 #include <string.h>
 #include <stddef.h>
 #include <inttypes.h>
@@ -230,7 +231,7 @@ new_chunk(mempool* a)
     uint64_t alloc_size = sizeof(memchunk) + chunk_size + MINALIGNMENT;
 
     /* Guard against arithmetic overflow */
-    assert(chunk_size > a->block_size && chunk_size > a->min_units);
+    assert(chunk_size >= a->block_size && chunk_size >= a->min_units);
     assert(alloc_size > chunk_size);
 
     memchunk *ch = (memchunk *) (*a->traits.alloc)(a->traits.context, alloc_size);
@@ -322,6 +323,8 @@ __real_init(mempool *a, const memmgr *tr, uint_t block_size, uint_t max, uint_t
 {
     memset(a, 0, sizeof *a);
 
+    if (block_size > UINT_MAX - MINALIGNMENT) return -EINVAL;
+
     /*
      * Make sure block_size has minimum qualifications.
      */
@@ -397,8 +400,14 @@ mempool_new(mempool** p_a, const memmgr* tr, uint_t block_size,
     a = (mempool* )tr->alloc(tr->context, sizeof *a);
     if (!a) return -ENOMEM;
 
+    int r = __real_init(a, tr, block_size, max, min_alloc_units);
+    if (r < 0) {
+        tr->free(tr->context, a);
+        return r;
+    }
+
     *p_a = a;
-    return __real_init(a, tr, block_size, max, min_alloc_units);
+    return 0;
 }
 
 
@@ -419,6 +428,7 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
 
     memset(a, 0, sizeof *a);
 
+    if (block_size > UINT_MAX - MINALIGNMENT) return -EINVAL;
     if (block_size < MIN_OBJ_SIZE) block_size = MIN_OBJ_SIZE;
 
     block_size = _Align(uint_t, block_size);
@@ -429,6 +439,7 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize < (uint64_t)(ptr - pUCHAR(pool))) return -ENOMEM;
     poolsize -= (ptr - pUCHAR(pool));
 
     /*
@@ -484,13 +495,17 @@ mempool_new_from_mem(mempool** p_a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize < (uint64_t)(ptr - pUCHAR(pool)) + sizeof *a) return -ENOMEM;
     poolsize -= ptr - pUCHAR(pool);
     a         = (mempool* )ptr;
     ptr      += sizeof *a;
     poolsize -= sizeof *a;
 
+    int r = mempool_init_from_mem(a, block_size, ptr, poolsize);
+    if (r < 0) return r;
+
     *p_a = a;
-    return mempool_init_from_mem(a, block_size, ptr, poolsize);
+    return 0;
 }
 
 
@@ -621,8 +636,10 @@ mempool_total_blocks(mempool* a)
 static void*
 _stacked_alloc(void* x, size_t n)
 {
-    (void)n;
-    return mempool_alloc((mempool* )x);
+    mempool* a = (mempool*)x;
+
+    // every block is the same size
+    return n <= a->block_size ? mempool_alloc(a) : 0;
 }
 
 static void
-- 
2.43.0


From 33ccf6ca61bb9ee981aac7cc1e92dac9cfe9ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 20/76] fix: fast/vect.h: grow from capacity 0, push_front of a
 value of another type, sample after growth

---
 inc/fast/vect.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 87e3ae8..764fd39 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -113,7 +113,7 @@ extern "C" {
                         do {                                        \
                             size_t n_ = v_->cap;                    \
                             if  (want_ >= n_) {                     \
-                                do { n_ *= 2; } while (n_ < want_); \
+                                do { n_ = n_ ? n_ * 2 : 16; } while (n_ < want_); \
                                 v_->arr = RENEWA(typeof(v_->arr[0]), v_->arr, n_);\
                                 memset(v_->arr+v_->size, 0, sizeof(v_->arr[0]) * (n_ - v_->cap));\
                                 v_->cap = n_;          \
@@ -177,8 +177,8 @@ extern "C" {
 #define VECT_PUSH_FRONT(v,e)         do {                             \
                                             typeof(v) v_ = v;         \
                                             __vect_RESERVE(v_, v_->size+1);         \
-                                            typeof(e) * start_ = v_->arr;         \
-                                            typeof(e) * p_     = start_ + v_->size; \
+                                            typeof(v_->arr) start_ = v_->arr;     \
+                                            typeof(v_->arr) p_     = start_ + v_->size; \
                                             for (; p_ > start_; p_--)   \
                                                 *p_ = *(p_ - 1);         \
                                             *p_ = (e);                   \
@@ -283,10 +283,10 @@ extern "C" {
                                         typeof(s) b_ = (s);                     \
                                         if (k_ <  b_->size) {                   \
                                             typeof(d) a_ = (d);                 \
-                                            typeof(a_->arr) x_ = a_->arr;       \
                                             typeof(a_->arr) y_ = b_->arr;       \
                                             size_t i_;                          \
                                             __vect_RESERVE(a_, k_);             \
+                                            typeof(a_->arr) x_ = a_->arr;       \
                                             a_->size = k_;                      \
                                             for (i_=0; i_ < k_; i_++)           \
                                                 x_[i_] = y_[i_];                \
-- 
2.43.0


From f4442f84a0a6df6a80221afa76f40a67b8ba6a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 21/76] fix: fast/buf.h: growing a buffer

---
 inc/fast/buf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/buf.h b/inc/fast/buf.h
index d55a019..38fe40d 100644
--- a/inc/fast/buf.h
+++ b/inc/fast/buf.h
@@ -74,9 +74,9 @@ static inline void
 fast_buf_reserve(fast_buf *b, size_t want)
 {
     if (want >= b->cap) {
-        do { b->cap *= 2; } while (b->cap < want);
+        do { b->cap = b->cap ? b->cap * 2 : 128; } while (b->cap < want);
 
-        b->buf = RENEW(uint8_t, b->buf, b->cap);
+        b->buf = RENEWA(uint8_t, b->buf, b->cap);
     }
 }
 
-- 
2.43.0


From ce62ef6febeb18567d1af7f0f88afb2ecc5e3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 22/76] fix: fast/queue.h: dynamic queue init compiles

---
 inc/fast/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/queue.h b/inc/fast/queue.h
index 0c33251..68a6a05 100644
--- a/inc/fast/queue.h
+++ b/inc/fast/queue.h
@@ -122,7 +122,7 @@ typedef struct __fast_queue __fast_queue;
                                 __fast_queue * _q = &(q_)->q;  \
                                 _q->rd = _q->wr = 0;    \
                                 _q->sz = sz_;               \
-                                (q_)->elem = NEWZA(__qetype(q_), sz_);\
+                                (q_)->elem = NEWZA(__qetyp(q_), sz_);\
                             } while (0)
 
 
-- 
2.43.0


From 9d933f2bd2d60b00f284dfb1078eeb66b0a1450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:10 +0000
Subject: [PATCH 23/76] fix: freadline: room for the null, last line without a
 line break, read errors

---
 src/freadline.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index bd74ac3..d00ebcd 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -32,14 +32,20 @@ freadline(FILE* fp, unsigned char * str, int n)
 {
     unsigned char * end = str + n;
 
+    if (n <= 0)
+        return -ENOSPC;
+
     while (1)
     {
         int c = fgetc(fp);
         if (c == EOF)
-            return 0;
+        {
+            if (ferror(fp))
+                return -errno;
 
-        if (ferror(fp))
-            return -errno;
+            // the last line may have no line break
+            break;
+        }
 
         if (c == '\r')
         {
@@ -52,7 +58,8 @@ freadline(FILE* fp, unsigned char * str, int n)
         else if (c == '\n')
             break;
 
-        if (str == end)
+        // leave room for the trailing null
+        if (str + 1 == end)
             return -ENOSPC;
 
         *str++ = c;
-- 
2.43.0


From d6107798cfbf5a38640fdd4437fdf2c616dddbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:32 +0000
Subject: [PATCH 24/76] fix: pack: counts of several digits, arrays of one,
 floats, pad bytes, null strings, unknown format chars, space checks that
 cannot wrap

---
 src/pack.c | 111 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 84 insertions(+), 27 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index c7ced90..3659223 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -162,22 +162,56 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
 }
 
 // extract a length-prefix from 'fmt' starting with the digit in 'c'.
+// The count can be as large as a 32-bit unsigned integer.
 #define __len_prefix(c, fmt) ({\
-                                const size_t max = ~((size_t)0) / 10;       \
-                                      size_t nn  = c - '0';                 \
-                                for (++fmt, c = *fmt; c; ++fmt) {           \
-                                    if (!isdigit(c)) break;                 \
-                                    const size_t v = c - '0';               \
-                                    if (nn > max ||                         \
-                                            (nn == max && v > (~((size_t)0) % 10))) {   \
-                                        return -E2BIG;                      \
-                                    }                                       \
+                                uint64_t nn  = c - '0';                     \
+                                for (++fmt; (c = *fmt); ++fmt) {            \
+                                    if (!isdigit((uint8_t)c)) break;        \
                                     nn *= 10;                               \
-                                    nn += v;                                \
+                                    nn += c - '0';                          \
+                                    if (nn > UINT32_MAX) return -E2BIG;     \
                                 }                                           \
-                                nn;                                         \
+                                (size_t)nn;                                 \
                             })
 
+// number of bytes left in 'pd'
+#define __avail(pd)     ((size_t)((pd)->end - (pd)->ptr))
+
+
+// The bits of a float ('f') or double ('D')
+static inline void *
+__fp_arg(int c, double d)
+{
+    uint64_t v = 0;
+
+    if (c == 'f') {
+        float f = d;
+        uint32_t w;
+
+        memcpy(&w, &f, sizeof w);
+        v = w;
+    } else {
+        memcpy(&v, &d, sizeof v);
+    }
+    return (void *)(ptrdiff_t)v;
+}
+
+
+// The first element of an array of elements of 'size' bytes
+static inline void *
+__first_elem(void *arr, size_t size)
+{
+    uint64_t v = 0;
+
+    switch (size) {
+        case 1: v = *(uint8_t *)arr;  break;
+        case 2: v = *(uint16_t *)arr; break;
+        case 4: v = *(uint32_t *)arr; break;
+        case 8: v = *(uint64_t *)arr; break;
+    }
+    return (void *)(ptrdiff_t)v;
+}
+
 
 // internal pack function that operates on va_list
 static int
@@ -205,7 +239,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
     int      have_vnum = 0;
     for (; (c = *fmt); ++fmt) {
 
-        if (isspace(c)) continue;
+        if (isspace((uint8_t)c)) continue;
 
         if (c == '*') {
             // error to have consecutive '*'
@@ -222,7 +256,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
              * actual entity.
              */
 
-            if ((pd->ptr + p->size) > pd->end)
+            if (p->size > __avail(pd))
                return -ENOSPC;
 
             c = p->pack(p, pd, 1, (void *)(ptrdiff_t)vnum);
@@ -232,7 +266,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
             continue;
         }
 
-        size_t num = isdigit(c) ? __len_prefix(c, fmt) : 0;
+        size_t num = isdigit((uint8_t)c) ? __len_prefix(c, fmt) : 0;
 
         // Three rules:
         // 1. VLA and length-prefix can't both be used.
@@ -260,8 +294,19 @@ pack(const char *fmt, pdata *pd, va_list ap)
         void *arg = 0;
 
         switch (c) {
-            case 'x':
-                break;  // do NOT consume an arg!
+            case 'x':   // do NOT consume an arg!
+                if (have_vnum)     num = vnum;
+                else if (num == 0) num = 1;
+                break;
+
+            case 'f':   // fallthrough
+            case 'D':
+                if (have_vnum || num > 1) goto array;
+
+                // floats are passed as doubles, and not where pointers are
+                num = 1;
+                arg = __fp_arg(c, va_arg(ap, double));
+                break;
 
             case 'z':   // fallthrough
             case 'Z':
@@ -271,15 +316,19 @@ pack(const char *fmt, pdata *pd, va_list ap)
                     if (0 == num) goto next;
                 } else {
                     // default is to copy everything include trailing '\0'
-                    if (num == 0 && arg) num = 1+strlen((const char*)arg);
+                    if (num == 0) num = arg ? 1+strlen((const char*)arg) : 1;
                 }
                 break;
 
             default:
+            array:
                 arg = va_arg(ap, void *);
                 if (have_vnum) {
                     num = vnum;
                     if (0 == num) goto next;
+
+                    // the packers expect the value of a lone element
+                    if (1 == num) arg = __first_elem(arg, p->size);
                 } else {
                     // All other types need _atleast_ one arg.
                     // zero-length strings with no VLA will get an
@@ -290,7 +339,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (num * p->size > __avail(pd))
            return -ENOSPC;
 
         c = p->pack(p, pd, num, arg);
@@ -301,6 +350,9 @@ next:
         vnum = 0;
     }
 
+    // missing type descriptor after '*'
+    if (have_vnum) return -EINVAL;
+
     return 0;
 }
 
@@ -329,7 +381,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
     uint32_t vnum      = 0;
     int      have_vnum = 0;
     for (; (c = *fmt); ++fmt) {
-        if (isspace(c)) continue;
+        if (isspace((uint8_t)c)) continue;
 
         if (c == '*') {
             if (have_vnum) return -EILSEQ;
@@ -341,7 +393,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
             uint32_t *pv = va_arg(ap, uint32_t*);
 
             if (!pv) return -EINVAL;
-            if ((pd->ptr + p->size) > pd->end) return -ENOSPC;
+            if (p->size > __avail(pd)) return -ENOSPC;
 
 
             c = p->unpack(p, pd, 1, pv, 0);
@@ -353,7 +405,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
             continue;
         }
 
-        size_t num = isdigit(c) ? __len_prefix(c, fmt) : 0;
+        size_t num = isdigit((uint8_t)c) ? __len_prefix(c, fmt) : 0;
 
         if (num > 0 && have_vnum) return -EINVAL;
 
@@ -369,6 +421,8 @@ unpack(const char *fmt, pdata *pd, va_list ap)
         // '\0'
         switch (c) {
             case 'x':   // we don't consume an arg!
+                if (have_vnum)     num = vnum;
+                else if (num == 0) num = 1;
                 break;
 
             default:
@@ -389,7 +443,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (num * p->size > __avail(pd))
            return -ENOSPC;
 
         c = p->unpack(p, pd, num, arg, have_vnum == 1);
@@ -621,6 +675,7 @@ be_i_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
         uint32_t **p_x = arg;
 
         x = NEWZA(uint32_t, num);
+        if (!x) return -ENOMEM;
         *p_x = x;
     }
 
@@ -731,7 +786,7 @@ x_pack(const packer *p, pdata *pd, size_t num, void *arg)
     USEARG(p);
     USEARG(arg);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (num > __avail(pd)) return -EINVAL;
 
     memset(pd->ptr, 0, num);
     pd->ptr += num;
@@ -745,7 +800,7 @@ x_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     USEARG(arg);
     USEARG(alloc);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (num > __avail(pd)) return -EINVAL;
 
     pd->ptr += num;
     return num;
@@ -769,7 +824,7 @@ z_pack(const packer *p, pdata *pd, size_t n, void *arg)
     // we are _never_ sent zero sized requests
     assert(n > 0);
 
-    if ((pd->ptr + n) > pd->end) return -ENOSPC;
+    if (n > __avail(pd)) return -ENOSPC;
 
     if (s) {
         size_t m = strlen(s);
@@ -819,9 +874,9 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     if (num == 0) {
         // We encode the trailing '\0' for 'Z'
         // And it's an error to _not_ have a trailing '\0'
-        while (*s++) {
+        do {
             if (s == pd->end) return -EINVAL;
-        }
+        } while (*s++);
     } else {
         // Exact length for either "*" or "nnZ" formats
         const size_t max = pd->end - s;
@@ -859,6 +914,8 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
 static const packer*
 getpacker(int c, const packer* pp)
 {
+    if (c <= 0 || c > 'z') return 0;
+
     const packer *p = &pp[c];
 
     return p->typ == c ? p : 0;
-- 
2.43.0


From 8c3105f2e8aaa0ed892c5a82ae891e18df4266b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 25/76] fix: fast-ht: seven entries per bag, null values, fill
 count

---
 src/hashtable/fast-ht.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index 6ecf888..8f91a27 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -159,13 +159,24 @@ __alloc(size_t n)
 }
 
 
+// Make a new bag; all its slots are free
+static inline bag *
+__newbag(void)
+{
+    bag *g = __NEWZ(bag);
+
+    g->fp = __mkfp(0, 0x7f);
+    return g;
+}
+
+
 // Update the fingerprint to show slot as now occupied.
 // NB: 0 is occupied, 1 is free.
 static inline uint64_t
 __update_fp(uint64_t fp, uint64_t k, int slot)
 {
     uint8_t ctrl = __control(fp) & ~(1 << slot);
-    uint64_t h2  = ((k & 0xff) << (8 * slot)) | __h2(fp);
+    uint64_t h2  = ((k & 0xff) << (8 * slot)) | (__fp(fp) & ~(_U64(0xff) << (8 * slot)));
 
     return h2 | (_U64(ctrl) << 56);
 }
@@ -177,7 +188,7 @@ static inline uint64_t
 __clear_fp(uint64_t fp, int slot)
 {
     uint8_t ctrl = __control(fp) | (1 << slot);
-    uint64_t h2  = __h2(fp) & ~(_U64(0xff) << (8 * slot));
+    uint64_t h2  = __fp(fp) & ~(_U64(0xff) << (8 * slot));
     return h2 | (_U64(ctrl) << 56);
 }
 
@@ -283,7 +294,7 @@ __insert(hb *b, uint64_t k, void *v)
     }
 
     if (!bg) {
-        bg   = __NEWZ(bag);
+        bg   = __newbag();
         slot = 0;
         b->bags++;
         SL_INSERT_HEAD(&b->head, bg, link);
@@ -320,7 +331,7 @@ __insert_quick(hb *b, uint64_t k, void *v)
     }
 
     // Make a new bag and put our element there.
-    g = __NEWZ(bag);
+    g = __newbag();
     g->fp = __update_fp(g->fp, k, 0);
     g->hk[0] = k;
     g->hv[0] = v;
@@ -490,9 +501,11 @@ ht_probe(ht* h, uint64_t k, void* v)
 {
     uint64_t hh  =__hash(k, h->n, h->salt);
     hb   *b  = &h->b[hh];
+    uint32_t was = b->nodes;
     void *nv = __insert(b, k, v);
 
-    if (nv) return nv;
+    // an existing value can be null
+    if (b->nodes == was) return nv;
 
     h->nodes++;
 
@@ -579,8 +592,8 @@ ht_remove(ht* h, uint64_t k, void** p_ret)
         g->fp = __clear_fp(g->fp, slot);
         g->hk[slot] = 0;
         g->hv[slot] = 0;
-        b->nodes--;
         h->nodes--;
+        if (--b->nodes == 0) h->fill--;
         return 1;
     }
 
-- 
2.43.0


From 31ff79f3605cdd177f074795a765b948d5d77f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 26/76] fix: hash table: hold the table lock across an
 operation, release every lock, keep an inserted item

---
 src/hashtable/hashtab.c | 48 +++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 6ec93b6..62d8ba9 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -65,14 +65,15 @@ hash_table_new(hash_table_t * ptab, const hash_table_policy * tr)
     i = tr->logsize <= 0 || (tr->logsize >= (8*sizeof(size_t))) ? 10 : tr->logsize;
 
     tab->fillmax = tr->fillmax <= 0 || tr->fillmax >= 100 ? 80 : tr->fillmax;
-    tab->size    = 1 << i;
+    tab->size    = (size_t)1 << i;
     tab->random  = arc4random();
     tab->hash    = tr->hash;
     tab->cmp     = tr->cmp;
     tab->dtor    = tr->dtor;
     tab->mem     = tr->mem;
     tab->lock    = tr->lock;
-    tab->buckets = tNEWA(hash_bucket, tab, tab->size);
+    if (tab->size <= ((size_t)-1) / sizeof(hash_bucket))
+        tab->buckets = tNEWA(hash_bucket, tab, tab->size);
     if ( !tab->buckets )
     {
         memmgr_free(&tr->mem, tab);
@@ -208,9 +209,12 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
     if (!(tab && key)) return -EINVAL;
 
     hash  = hashfunc(tab, key);
-    b     = &tab->buckets[hash & (tab->size -1)];
     cmp   = tab->cmp;
 
+    // the buckets can be replaced (resize) unless the table is locked.
+    lockmgr_lock(&tab->lock);
+
+    b     = &tab->buckets[hash & (tab->size -1)];
     lockmgr_lock(&b->lock);
 
     SL_FOREACH(p, &b->head, link) {
@@ -225,7 +229,9 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
 
     lockmgr_unlock(&b->lock);
 
-    if (!ret) ++tab->stats.failed_lookups;
+    if (!retval) ++tab->stats.failed_lookups;
+    lockmgr_unlock(&tab->lock);
+
     if (p_ret) *p_ret = ret;
 
     return retval;
@@ -249,9 +255,11 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
 
     retval = -ENOENT;
     hash   = hashfunc(tab, key);
-    b      = &tab->buckets[hash & (tab->size -1)];
     cmp    = tab->cmp;
 
+    lockmgr_lock(&tab->lock);
+
+    b      = &tab->buckets[hash & (tab->size -1)];
     lockmgr_lock(&b->lock);
 
     p_next = &SL_FIRST(&b->head);
@@ -269,6 +277,7 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
     }
 
     lockmgr_unlock(&b->lock);
+    lockmgr_unlock(&tab->lock);
 
     return retval;
 }
@@ -303,7 +312,7 @@ hash_table_remove_if(hash_table * tab,
         lockmgr_lock(&b->lock);
         p_next = &SL_FIRST(&b->head);
         while ((p = *p_next)) {
-            if ((*pred)(cookie, &p->data)) {
+            if ((*pred)(cookie, p->data)) {
                 ++retval;
                 *p_next = SL_NEXT(p, link);
                 remove_node(tab, b, p);
@@ -380,8 +389,12 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     int (*cmp)(const void*, const void*) = tab->cmp;
 
     uint32_t hash  = hashfunc(tab, data);
-    hash_bucket* b = &tab->buckets[hash & (tab->size-1)];
+    hash_bucket* b;
 
+    // the buckets can be replaced (resize) unless the table is locked.
+    lockmgr_lock(&tab->lock);
+
+    b = &tab->buckets[hash & (tab->size-1)];
     lockmgr_lock(&b->lock);
     SL_FOREACH(e, &b->head, link) {
         if (e->hash != hash)            continue;
@@ -412,7 +425,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
                 break;
         }
 
-        goto _done;
+        goto _unlock;
     }
 
 
@@ -422,20 +435,17 @@ insert_internal(hash_table * tab, void ** p_data, int op)
      */
 
     e = tNEW(hash_node, tab);
-    if (!e) goto _done;
+    if (!e) goto _unlock;
 
     retval  = 0;
     e->data = data;
     e->hash = hash;
     SL_INSERT_HEAD(&b->head, e, link);
-    lockmgr_unlock(&b->lock);
 
 
     /*
      * Update statistics and see if table needs to grow.
      */
-    lockmgr_lock(&tab->lock);
-
     ++tab->stats.inserts;
     ++tab->stats.nodes;
     ++b->count;
@@ -446,17 +456,23 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     /*
      * If one more bucket got filled, examine the total number of
      * filled buckets and determine if we need to grow the hash
-     * table.
+     * table. The item is in the table by now; it stays there even if
+     * the table can't grow.
      */
     if (b->count == 1) {
         ++tab->stats.fill;
-        if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax )
-            retval = resize(tab);
+        if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax ) {
+            lockmgr_unlock(&b->lock);
+            resize(tab);
+            goto _done;
+        }
     }
 
-    lockmgr_unlock(&tab->lock);
+_unlock:
+    lockmgr_unlock(&b->lock);
 
 _done:
+    lockmgr_unlock(&tab->lock);
     return retval;
 }
 
-- 
2.43.0


From 773244c8ad17ef050b4003ef09ff6fa8d59788fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 27/76] fix: hash table iterators: right bucket, right compare
 arguments, no recursive lock, allocation failure

---
 src/hashtable/hashtab_iter.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 71900be..8ef2cd6 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -235,7 +235,12 @@ _mk_iter(hash_table_iter_t* p_ret,
     it->op    = Iter_tab[type];
 
     if (it->op->init)
-        (*it->op->init)(it, param);
+        retval = (*it->op->init)(it, param);
+
+    if (retval < 0) {
+        tFREE(tab, it);
+        it = 0;
+    }
 
 _done:
     lockmgr_unlock(&tab->lock);
@@ -315,7 +320,7 @@ qsort_cmp(const void * a, const void * b)
     indir_node * p = (indir_node *)a,
                * q = (indir_node *)b;
 
-    return (*p->cmp)(&p->node->data, &q->node->data);
+    return (*p->cmp)(p->node->data, q->node->data);
 }
 
 
@@ -328,18 +333,19 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     sorted_iter * sorted = &it->un.sorted;
     size_t i, n;
     hash_cmp_f * cmp;
-    int ok = EOF;
 
     assert(tab);
 
     USEARG(param);
 
-    lockmgr_lock(&tab->lock);
-    sorted->max = tab->stats.nodes;
-    if (sorted->max == 0) goto _done;
+    // The caller holds the table lock.
+    if (tab->stats.nodes == 0) return 0;
 
     cmp         = tab->cmp;
-    sorted->nodes = tNEWA(indir_node, tab, sorted->max);
+    sorted->nodes = tNEWA(indir_node, tab, tab->stats.nodes);
+    if (!sorted->nodes) return -ENOMEM;
+
+    sorted->max = tab->stats.nodes;
 
     nodes = sorted->nodes;
     n     = tab->size;
@@ -363,11 +369,7 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     if (sorted->max > 1)
         qsort(sorted->nodes, sorted->max, sizeof sorted->nodes[0], qsort_cmp);
 
-    ok = 0;
-
-_done:
-    lockmgr_unlock(&tab->lock);
-    return ok;
+    return 0;
 }
 
 
@@ -388,7 +390,8 @@ sorted_iter_end(hash_table_iter * it)
 {
     assert(it->table);
 
-    tFREE(it->table, it->un.sorted.nodes);
+    if (it->un.sorted.nodes)
+        tFREE(it->table, it->un.sorted.nodes);
     it->un.sorted.max   = 0;
     it->un.sorted.nodes = 0;
     return 0;
@@ -443,7 +446,7 @@ static int
 bucket_iter_init(hash_table_iter * it, const void * key)
 {
     hash_table * tab = it->table;
-    uint32_t  hash  = (*tab->hash)(key);
+    uint32_t  hash  = tab->random ^ (*tab->hash)(key);
     hash_bucket * b  = &tab->buckets[hash & (tab->size -1)];
 
     it->un.bucket.bucket = b;
@@ -479,7 +482,7 @@ bucket_iter_end(hash_table_iter * it)
 static int
 bucket_iter_next(hash_table_iter * it)
 {
-    it->cur = SL_NEXT(it->cur, link);
+    if (it->cur) it->cur = SL_NEXT(it->cur, link);
     return it->cur ? 0 : EOF;
 }
 
-- 
2.43.0


From 18f6e6b7be83d558dab1a1035fceaaaeabdee788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 28/76] fix: bloom filter: counters wrap, absent elements are
 removed, size not initialised, leaks

---
 inc/utils/bloom.h     |  3 +++
 src/hashtable/bloom.c | 29 +++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/inc/utils/bloom.h b/inc/utils/bloom.h
index 9f4f724..a37af74 100644
--- a/inc/utils/bloom.h
+++ b/inc/utils/bloom.h
@@ -146,6 +146,9 @@ struct Bloom
     uint64_t    n;      // initial filter size
     double      e;      // initial error param
     uint8_t     typ;    // bloom filter type
+
+    void*       map;    // file mapping that holds the bits (if any)
+    uint64_t    mapsz;  // and its size
 };
 typedef struct Bloom Bloom;
 
diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index f852be1..0c254fd 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -122,6 +122,7 @@
 #include <limits.h>
 #include <inttypes.h>
 #include <sys/random.h>
+#include <sys/mman.h>
 
 #include "utils/utils.h"
 #include "utils/bloom.h"
@@ -232,6 +233,8 @@ standard_bloom_find(bloom* b, uint64_t val)
 
 
 
+static int counting_bloom_find(bloom* b, uint64_t val);
+
 /*
  * Probe():
  *   o if value not in table, add it
@@ -249,7 +252,9 @@ counting_bloom_probe(bloom* b, uint64_t val)
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
 
-        b->bitmap[j]++;
+        // A counter that reached its maximum stays there: going back
+        // to zero would lose every element that shares it.
+        if (b->bitmap[j] < 255) b->bitmap[j]++;
     }
 
     b->size++;
@@ -262,23 +267,22 @@ counting_bloom_probe(bloom* b, uint64_t val)
 static int
 counting_bloom_remove(bloom* b, uint64_t val)
 {
+    // The counters of an absent element belong to others.
+    if (!counting_bloom_find(b, val)) return 0;
+
     uint64_t z  = hash_val(val, b->salt);
     uint64_t h1 = z & 0xffffffff;
     uint64_t h2 = z >> 32;
     uint64_t i;
-    uint64_t r = 0;
 
     for (i = 0; i < b->k; ++i) {
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
-        if (b->bitmap[j]) {
-            b->bitmap[j] -= 1;
-            r = 1;
-        }
+        if (b->bitmap[j] < 255) b->bitmap[j] -= 1;
     }
 
     b->size--;
-    return r;
+    return 1;
 }
 
 
@@ -319,6 +323,7 @@ counting_bloom_init(bloom* b, size_t n, double e)
     b->bitmap      = NEWZA(uint8_t, bytes);
     assert(b->bitmap);
 
+    b->size   = 0;
     b->k      = k;
     b->m      = s;
     b->e      = e;
@@ -347,6 +352,7 @@ standard_bloom_init(bloom* b, size_t n, double e)
     b->bitmap      = NEWZA(uint8_t, bytes);
     assert(b->bitmap);
 
+    b->size = 0;
     b->k = k;
     b->m = msub;
     b->e = e;
@@ -564,6 +570,7 @@ setup_scalable_bloom(Bloom *b, uint32_t nfilt)
     b->remov  = (int  (*)(void*, uint64_t))null_remov;
     b->fini   = (void (*)(void*))scalable_fini;
     b->desc   = (char* (*)(void*, char*, size_t))scalable_bloom_desc;
+    b->map    = 0;
     b->name   = "scalable-standard-bloom";
     b->typ    = BLOOM_TYPE_SCALE;
     b->filter = sb;
@@ -585,6 +592,7 @@ setup_standard_bloom(Bloom *b)
     b->remov  = (int  (*)(void*, uint64_t))null_remov;
     b->fini   = (void (*)(void*          ))bloom_fini;
     b->desc   = (char* (*)(void*, char*, size_t))standard_bloom_desc;
+    b->map    = 0;
     b->name   = "standard-bloom";
     b->typ    = BLOOM_TYPE_QUICK;
     b->filter = NEWZ(bloom);
@@ -604,6 +612,7 @@ setup_counting_bloom(Bloom *b)
     b->remov  = (int  (*)(void*, uint64_t))counting_bloom_remove;
     b->fini   = (void (*)(void*          ))bloom_fini;
     b->desc   = (char* (*)(void*, char*, size_t))counting_bloom_desc;
+    b->map    = 0;
     b->name   = "counting-bloom";
     b->typ    = BLOOM_TYPE_COUNTING;
     b->filter = NEWZ(bloom);
@@ -658,10 +667,13 @@ __free_bloom(Bloom *b)
     switch (b->typ) {
         case BLOOM_TYPE_SCALE:
             scalable_fini(b->filter);
-            // FALLTHROUGH
+            DEL(b->filter);
+            DEL(b);
+            break;
 
         case BLOOM_TYPE_COUNTING:
         case BLOOM_TYPE_QUICK:
+            bloom_fini(b->filter);
             DEL(b->filter);
             DEL(b);
             break;
@@ -769,6 +781,7 @@ Bloom_fini(Bloom *b)
     b->fini(b->filter);
 
     DEL(b->filter);
+    if (b->map) munmap(b->map, b->mapsz);
     memset(b, 0x55, sizeof *b);
 }
 
-- 
2.43.0


From bcbb98981ae4162c2178706fd919fe22ebbff2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 29/76] fix: bloom filter files: check what is read and written

---
 src/hashtable/bloom_marshal.c | 48 ++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 1e94bd3..cca22ad 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -368,9 +368,10 @@ wrfilter(uint8_t * start, offpair *o, bloom *b)
     memcpy(d, b->bitmap, b->bmsize);
 }
 
-// Read filter data from offset pair 'o' into bloom 'b'.
+// Read filter data from offset pair 'o' into bloom 'b'. The marshalled
+// data is 'sz' bytes; o->dataoff is within it.
 static int
-rdfilter(uint8_t *start, offpair *o, bloom *b, int dommap)
+rdfilter(uint8_t *start, uint64_t sz, offpair *o, bloom *b, int counting, int dommap)
 {
     uint8_t * h = start + o->hdroff;
     uint8_t * d = start + o->dataoff;
@@ -387,6 +388,12 @@ rdfilter(uint8_t *start, offpair *o, bloom *b, int dommap)
 
     assert((h - z) == FILT_HDRSIZ);
 
+    // The bitmap must be within the file and hold every slot.
+    if (b->bmsize > sz - o->dataoff)        goto bad;
+    if (b->m == 0 || b->k == 0)             goto bad;
+    if (b->m > (8 * b->bmsize) / b->k)      goto bad;
+    if (counting && b->m > b->bmsize / b->k) goto bad;
+
     if (dommap) {
         b->bitmap = d;
         b->flags  = BLOOM_BITMAP_MMAP;
@@ -397,6 +404,10 @@ rdfilter(uint8_t *start, offpair *o, bloom *b, int dommap)
     }
 
     return 0;
+
+bad:
+    memset(b, 0, sizeof *b);
+    return -EBADF;
 }
 
 
@@ -465,6 +476,7 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
         r      = dec_LE_float64(p); p += 8;
 
         // Sanity check
+        if (n == 0)                 return -EBADF;
         if (n > 1048576)            return -E2BIG;
 
         avail -= 16;
@@ -480,6 +492,7 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
             o->dataoff = _ALIGN_UP(o->hdroff + FILT_HDRSIZ, 64);
 
             if (o->hdroff  >= sz) return -EBADF;
+            if (o->dataoff <= o->hdroff) return -EBADF;
             if (o->dataoff >= sz) return -EBADF;
         }
     } else {
@@ -490,6 +503,7 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
 
         p     += 16;    // skip over everything else
         avail -= 16;
+        if (avail < 8) return -EBADF;
 
         VECT_INIT(&m->offs, 1);
 
@@ -497,6 +511,7 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
         o->hdroff  = dec_LE_u64(p); p += 8;
         o->dataoff = _ALIGN_UP(o->hdroff + FILT_HDRSIZ, 64);
         if (o->hdroff  >= sz) return -EBADF;
+        if (o->dataoff <= o->hdroff) return -EBADF;
         if (o->dataoff >= sz) return -EBADF;
     }
 
@@ -559,7 +574,11 @@ Bloom_marshal(Bloom *b, const char *fname)
     snprintf(file, sizeof file, "%s.tmp.XXXXXX", fname);
 
     fd = mkostemp(file, 0);
-    if (fd < 0) return -errno;
+    if (fd < 0) {
+        r = errno;
+        VECT_FINI(&m.offs);
+        return -r;
+    }
 
     if (ftruncate(fd, sz) < 0) {
         r = errno;
@@ -599,10 +618,12 @@ Bloom_marshal(Bloom *b, const char *fname)
      * Calculate checksum from start m.datasize
      */
     cksum(&m.ck, start+m.datasize, start, m.datasize);
-    VECT_FINI(&m.offs);
     munmap(mptr, sz);
-    fsync(fd);
-    fdatasync(fd);
+    if (fsync(fd) < 0) {
+        r = errno;
+        goto fail;
+    }
+    VECT_FINI(&m.offs);
     close(fd);
     if (rename(file, fname) < 0) {
         r = -errno;
@@ -613,6 +634,7 @@ Bloom_marshal(Bloom *b, const char *fname)
     return 0;
 
 fail:
+    VECT_FINI(&m.offs);
     close(fd);
     unlink(file);
     return -r;
@@ -694,7 +716,7 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
         VECT_FOR_EACHi(&m.offs, i, o) {
             bloom *f = &sb->bfa[i];
 
-            r = rdfilter(start, o, f, do_mmap);
+            r = rdfilter(start, dsize, o, f, 0, do_mmap);
             if (r < 0) {
                 errno = -r;
                 goto fail0;
@@ -704,7 +726,11 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
         bloom   *f = m.b->filter;
         offpair *o = &VECT_ELEM(&m.offs, 0);
 
-        rdfilter(start, o, f, do_mmap);
+        r = rdfilter(start, dsize, o, f, m.b->typ == BLOOM_TYPE_COUNTING, do_mmap);
+        if (r < 0) {
+            errno = -r;
+            goto fail0;
+        }
     }
 
     VECT_FINI(&m.offs);
@@ -712,7 +738,11 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
     assert(p_b);
     *p_b = m.b;
 
-    if (!do_mmap) munmap(mptr, st.st_size);
+    if (do_mmap) {
+        m.b->map   = mptr;
+        m.b->mapsz = st.st_size;
+    } else
+        munmap(mptr, st.st_size);
 
 
     /*
-- 
2.43.0


From 5c376ce9f8daccf6084ece31ff7d65512f5ff38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 30/76] fix: xor filter: fingerprint array too small, leaks

---
 src/hashtable/xorfilt_internal.h |  4 +++-
 src/hashtable/xorfilter.c        | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hashtable/xorfilt_internal.h b/src/hashtable/xorfilt_internal.h
index d432294..7169a37 100644
--- a/src/hashtable/xorfilt_internal.h
+++ b/src/hashtable/xorfilt_internal.h
@@ -41,6 +41,8 @@ struct Xorfilter {
     uint32_t n;     // number of elements
     uint8_t  is_16;
     uint8_t  is_mmap;
+    void    *map;   // the file mapping if is_mmap
+    uint64_t mapsz;
 };
 typedef struct Xorfilter Xorfilter;
 
@@ -48,7 +50,7 @@ typedef struct Xorfilter Xorfilter;
 static inline uint64_t
 xorfilter_size(Xorfilter *x)
 {
-    size_t sz = 3 * x->size;
+    size_t sz = 3 * (size_t)x->size;
 
     return x->is_16 ? sz * 2 : sz;
 }
diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 079476c..853509a 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -43,6 +43,7 @@
 #include <inttypes.h>
 #include <math.h>
 #include <sys/random.h>
+#include <sys/mman.h>
 #include "fast/vect.h"
 #include "utils/xorfilter.h"
 #include "xorfilt_internal.h"
@@ -277,11 +278,12 @@ Xorfilter_new8(uint64_t *keys, size_t n)
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
+        VECT_FINI(&stack);
         DEL(x);
         return 0;
     }
 
-    x->fp8 = NEWZA(uint8_t, VECT_LEN(&stack) * 3);
+    x->fp8 = NEWZA(uint8_t, (size_t)x->size * 3);
     while (VECT_LEN(&stack) > 0) {
         keyidx  ki = VECT_POP_BACK(&stack);
         uint8_t fp = __xfp8(ki.hash);
@@ -301,11 +303,12 @@ Xorfilter_new16(uint64_t *keys, size_t n)
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
+        VECT_FINI(&stack);
         DEL(x);
         return 0;
     }
 
-    x->fp16  = NEWZA(uint16_t, VECT_LEN(&stack) * 3);
+    x->fp16  = NEWZA(uint16_t, (size_t)x->size * 3);
     x->is_16 = 1;
     while (VECT_LEN(&stack) > 0) {
         keyidx   ki = VECT_POP_BACK(&stack);
@@ -349,7 +352,8 @@ Xorfilter_bpe(Xorfilter *x)
 void
 Xorfilter_delete(Xorfilter *x)
 {
-    if (x->ptr && !x->is_mmap) DEL(x->ptr);
+    if (x->is_mmap) munmap(x->map, x->mapsz);
+    else if (x->ptr) DEL(x->ptr);
     DEL(x);
 }
 /* EOF */
-- 
2.43.0


From 23c2e7654130046f8e048c363863a7dabb2cfd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 31/76] fix: xor filter files: check what is read and written

---
 src/hashtable/xorfilter_marshal.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index ea78a5c..e288453 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -148,7 +148,7 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
 
     void *mptr = mmap(0, filesz, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
     if (mptr == ((void *)-1)) {
-        r = -errno;
+        r = errno;
         goto fail;
     }
 
@@ -167,8 +167,10 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
     crypto_hash_sha256_final(&h, st);
 
     munmap(mptr, filesz);
-    fsync(fd);
-    fdatasync(fd);
+    if (fsync(fd) < 0) {
+        r = errno;
+        goto fail;
+    }
     close(fd);
 
     if (rename(file, fname) < 0) {
@@ -235,7 +237,7 @@ Xorfilter_unmarshal(Xorfilter **p_x, const char *fname, uint32_t flags)
     }
 
     // Sanity check.
-    if ((st.st_size - SHASIZE) < (off_t)xorfilter_size(&zx)) {
+    if ((st.st_size - SHASIZE - pagesz()) < xorfilter_size(&zx)) {
         r = E2BIG;
         goto fail1;
     }
@@ -248,6 +250,8 @@ Xorfilter_unmarshal(Xorfilter **p_x, const char *fname, uint32_t flags)
     if (do_mmap) {
         zx.ptr     = p;
         zx.is_mmap = 1;
+        zx.map     = mptr;
+        zx.mapsz   = st.st_size;
     } else {
         uint64_t sz = xorfilter_size(&zx);
         zx.ptr = NEWZA(uint8_t, sz);
-- 
2.43.0


From 88740a7567dd8643cd910d8960bc944846c4eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 32/76] fix: mpmc queue: reset and capacity did not compile,
 size with waiting threads

---
 inc/fast/mpmc_bounded_queue.h | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/inc/fast/mpmc_bounded_queue.h b/inc/fast/mpmc_bounded_queue.h
index 2a4ce03..772aefb 100644
--- a/inc/fast/mpmc_bounded_queue.h
+++ b/inc/fast/mpmc_bounded_queue.h
@@ -64,6 +64,9 @@ extern "C" {
 #include <inttypes.h>
 #include <stdatomic.h>
 #include <assert.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 #include "utils/utils.h"
 
 /*
@@ -133,12 +136,14 @@ __mpmc_q_len(__mpmc_q *q) {
     uint64_t hd = atomic_load_explicit(&q->head, memory_order_relaxed),
              tl = atomic_load_explicit(&q->tail, memory_order_relaxed);
 
-    if (hd < tl) {
-        // wraparound
-        uint64_t diff = ~((uint64_t)0) - tl;
-        return diff + hd;
-    }
-    return (size_t)(hd - tl);
+    // the difference is right even if the indices have wrapped around
+    int64_t n   = (int64_t)(hd - tl);
+
+    // consumers may wait for elements to come (tail is ahead of head), and
+    // producers for slots to become free
+    if (n < 0) return 0;
+
+    return (uint64_t)n > q->sz ? (size_t)q->sz : (size_t)n;
 }
 
 // best effort - since we have concurrent readers/writers
@@ -213,7 +218,7 @@ __alloc(size_t n)
 // a pattern.
 #define MPMC_QUEUE_DEL(q_) do {                                     \
         typeof(q_) _qc = (q_);                                      \
-        memset(_qc->slot, 0xaa,  _qc->q.sz * sizeof _qc->slot);     \
+        memset(_qc->slot, 0xaa,  _qc->q.sz * sizeof *_qc->slot);    \
         free(_qc->slot);                                            \
         memset(_qc, 0x55, sizeof *_qc);                             \
         free(_qc);                                                  \
@@ -225,12 +230,12 @@ __alloc(size_t n)
 // multi-threaded context.
 #define MPMC_QUEUE_RESET(q_)    do {                                \
         typeof(q_) _qc = (q_);                                      \
-        __mpmc_slot_ty(qc) *_p   = &qc->slot[0],                    \
-                           *_end = p + qc->q.sz;                    \
+        __mpmc_slot_ty(_qc) *_p   = &_qc->slot[0],                  \
+                            *_end = _p + _qc->q.sz;                 \
                                                                     \
         for (; _p < _end; _p++) {                                   \
             atomic_store(&_p->turn, 0);                             \
-            memset(_p->data, 0, sizeof _p->data);                   \
+            memset(&_p->data, 0, sizeof _p->data);                  \
         }                                                           \
         __mpmc_q_reset(&_qc->q);                                    \
 } while (0)
@@ -345,7 +350,7 @@ __alloc(size_t n)
 #define MPMC_QUEUE_SIZE(q_)     ((size_t)__mpmc_q_len(&(q_)->q))
 
 // Return the capacity of the mpmc queue
-#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->sz))
+#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->q.sz))
 
 // Return true if the queue is full, false otherwise. Note that this
 // is best effort when we have concurrent readers/writers.
-- 
2.43.0


From 53c8b107b01ae2929c77ad047fe406b3a44d22a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 33/76] fix: ringbuf: claims release what they are based on;
 missing includes; dump

---
 inc/fast/ringbuf.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/inc/fast/ringbuf.h b/inc/fast/ringbuf.h
index 2328e27..bfd9c8d 100644
--- a/inc/fast/ringbuf.h
+++ b/inc/fast/ringbuf.h
@@ -74,6 +74,9 @@
 #include <stdint.h>
 #include <stdatomic.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+#include <assert.h>
 #include <errno.h>
 
 
@@ -430,7 +433,12 @@ __rte_ring_mp_do_enqueue(struct rte_ring *r, void * const *obj_table,
     uint_fast32_t cons_tail, free_entries;
     int success;
 
-    /* move prod.head atomically */
+    /*
+     * move prod.head atomically; a thread that sees the new head (acquire)
+     * must also see a cons.tail that is at least as new as the one the head
+     * was computed from: hence the release. Otherwise free_entries could
+     * become negative.
+     */
     do {
         /* Reset n to the initial burst count */
         n = max;
@@ -457,7 +465,7 @@ __rte_ring_mp_do_enqueue(struct rte_ring *r, void * const *obj_table,
         prod_next = prod_head + n;
         success   = atomic_compare_exchange_weak_explicit(&r->prod.head, &prod_head,
                              prod_next,
-                             memory_order_acquire, memory_order_relaxed);
+                             memory_order_acq_rel, memory_order_relaxed);
     } while (unlikely(success == 0));
 
     /* write entries in ring */
@@ -570,7 +578,7 @@ __rte_ring_mc_do_dequeue(struct rte_ring *r, void **obj_table,
     uint_fast32_t cons_next, entries;
     int success;
 
-    /* move cons.head atomically */
+    /* move cons.head atomically; see __rte_ring_mp_do_enqueue() */
     do {
         /* Restore n as it may change every loop */
         n = max;
@@ -594,7 +602,7 @@ __rte_ring_mc_do_dequeue(struct rte_ring *r, void **obj_table,
         cons_next = cons_head + n;
         success   = atomic_compare_exchange_weak_explicit(&r->cons.head, &cons_head,
                              cons_next,
-                             memory_order_acquire, memory_order_relaxed);
+                             memory_order_acq_rel, memory_order_relaxed);
     } while (likely(success == 0));
 
 
@@ -1152,7 +1160,7 @@ rte_ring_dump(char *buf, size_t n, struct rte_ring *r)
     uint_fast32_t cons_tail = atomic_load_explicit(&r->cons.tail, memory_order_acquire),
                   cons_head = atomic_load_explicit(&r->cons.head, memory_order_acquire),
                   prod_head = atomic_load_explicit(&r->prod.head, memory_order_acquire),
-                  prod_tail = atomic_load_explicit(&r->cons.tail, memory_order_acquire);
+                  prod_tail = atomic_load_explicit(&r->prod.tail, memory_order_acquire);
 
     x = snprintf(buf, n, "ring <%p>: size=%u, used %u, avail %u\n"
                          "   cons.tail=%u, cons.head=%u\n"
-- 
2.43.0


From 0b1c3196c8ae6fe123762ed2b71266332823b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 34/76] fix: syncq: an interrupted wait is not an obtained
 semaphore; errors of init

---
 inc/fast/syncq.h | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/inc/fast/syncq.h b/inc/fast/syncq.h
index b5c1f52..573d67f 100644
--- a/inc/fast/syncq.h
+++ b/inc/fast/syncq.h
@@ -26,6 +26,7 @@ extern "C" {
 
 #include <stdint.h>
 #include <assert.h>
+#include <errno.h>
 #include <semaphore.h>
 #include <pthread.h>
 
@@ -72,13 +73,36 @@ __syncobj_init(__syncobj* s, size_t n)
 {
     int r;
 
-    if ((r = pthread_mutex_init(&s->lock, 0)) != 0)  return -errno;
-    if ((r = sem_init(&s->notempty, 0, 0)) != 0)     return -errno;
-    if ((r = sem_init(&s->notfull,  0, n)) != 0)     return -errno;
+    // pthread functions return the error, semaphores set errno
+    if ((r = pthread_mutex_init(&s->lock, 0)) != 0)  return -r;
+    if (sem_init(&s->notempty, 0, 0) != 0) {
+        r = -errno;
+        goto fail0;
+    }
+    if (sem_init(&s->notfull,  0, n) != 0) {
+        r = -errno;
+        goto fail1;
+    }
 
     s->rd = s->wr = 0;
     s->sz = n;
     return 0;
+
+fail1:
+    sem_destroy(&s->notempty);
+fail0:
+    pthread_mutex_destroy(&s->lock);
+    return r;
+}
+
+
+// Internal function to wait on a semaphore; a signal handler may
+// interrupt the wait - which doesn't mean that it is over.
+static inline void
+__syncobj_wait(sem_t* s)
+{
+    while (sem_wait(s) != 0 && errno == EINTR)
+        ;
 }
 
 
@@ -109,7 +133,7 @@ __syncobj_init(__syncobj* s, size_t n)
 #define SYNCQ_ENQ(q0, obj)      do { \
                                     typeof(q0)  q_ = q0; \
                                     __syncobj*  s_ = &q_->s; \
-                                    sem_wait(&s_->notfull); \
+                                    __syncobj_wait(&s_->notfull); \
                                     pthread_mutex_lock(&s_->lock); \
                                     uint32_t w_ = s_->wr++; \
                                     if (s_->wr == s_->sz) s_->wr = 0;\
@@ -126,7 +150,7 @@ __syncobj_init(__syncobj* s, size_t n)
 #define SYNCQ_DEQ(q0)      ({\
                                     typeof(q0)  q_ = q0; \
                                     __syncobj*  s_ = &q_->s; \
-                                    sem_wait(&s_->notempty); \
+                                    __syncobj_wait(&s_->notempty); \
                                     pthread_mutex_lock(&s_->lock); \
                                     uint32_t r_ = s_->rd++;\
                                     if (s_->rd == s_->sz) s_->rd = 0;\
-- 
2.43.0


From 1a3b4f4d9ca6c0f2436af4a639d7baf6c1f77c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 35/76] fix: work, job: declared destroy functions were
 missing; failing init

---
 inc/posix/job.h  |  2 +-
 src/posix/job.c  | 35 +++++++++++++++++++++++++++++-----
 src/posix/work.c | 49 +++++++++++++++++++++++++++++++++++++++---------
 3 files changed, 71 insertions(+), 15 deletions(-)

diff --git a/inc/posix/job.h b/inc/posix/job.h
index d5203d4..7a18778 100644
--- a/inc/posix/job.h
+++ b/inc/posix/job.h
@@ -37,7 +37,7 @@
 #include "fast/syncq.h"
 
 #ifdef __cplusplus
-extern "C"
+extern "C" {
 #endif
 
 
diff --git a/src/posix/job.c b/src/posix/job.c
index 33f8bb8..dc19c8f 100644
--- a/src/posix/job.c
+++ b/src/posix/job.c
@@ -97,15 +97,24 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
     if (nthreads <= 0)
         nthreads = sys_cpu_getavail();
 
+    if (nthreads <= 0)
+        nthreads = 1;
+
     jm->threads  = NEWZA(job_context, nthreads);
+    if (!jm->threads)
+        return -ENOMEM;
+
     jm->nthreads = nthreads;
 
 
     r = SYNCQ_INIT(&jm->q, JOB_MAX);
-    if (r != 0) return r;
+    if (r != 0)
+        goto fail0;
 
-    if ((r = sem_init(&jm->done, 0, 0)) != 0)
-        return -errno;
+    if (sem_init(&jm->done, 0, 0) != 0) {
+        r = -errno;
+        goto fail1;
+    }
 
 
     /*
@@ -124,11 +133,27 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
         if ((r = pthread_create(&t->id, 0, thread_func, t)) != 0)
         {
             error(0, r, "job manager coulnd't create thread-%d", i);
-            return -r;
+            r = -r;
+            goto fail2;
         }
     }
 
     return nthreads;
+
+fail2:
+    /* stop the threads that have been started */
+    for (int k = 0; k < i; k++)
+        job_manager_submit_job(jm, 0);
+
+    while (--i >= 0)
+        pthread_join(jm->threads[i].id, 0);
+
+    sem_destroy(&jm->done);
+fail1:
+    SYNCQ_FINI(&jm->q);
+fail0:
+    DEL(jm->threads);
+    return r;
 }
 
 
@@ -137,7 +162,7 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
  * for all threads to exit.
  */
 void
-job_manager_cleanup(job_manager* jm)
+job_manager_destroy(job_manager* jm)
 {
     SYNCQ_FINI(&jm->q);
     sem_destroy(&jm->done);
diff --git a/src/posix/work.c b/src/posix/work.c
index dd9811a..6416e99 100644
--- a/src/posix/work.c
+++ b/src/posix/work.c
@@ -105,17 +105,27 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
     if (nthreads <= 0)
         nthreads = sys_cpu_getavail();
 
+    if (nthreads <= 0)
+        nthreads = 1;
+
     wm->ctx      = NEWZA(worker_context, nthreads);
+    if (!wm->ctx)
+        return -ENOMEM;
+
     wm->nthreads = nthreads;
     wm->next     = 0;
 
 
-    if ((r = sem_init(&wm->done, 0, 0)) != 0)
-        return -errno;
+    if (sem_init(&wm->done, 0, 0) != 0) {
+        r = -errno;
+        goto fail0;
+    }
 
 
-    if ((r = pthread_mutex_init(&wm->lock, 0)) != 0)
-        return -r;
+    if ((r = pthread_mutex_init(&wm->lock, 0)) != 0) {
+        r = -r;
+        goto fail1;
+    }
 
 
     /*
@@ -126,18 +136,37 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
         worker_context* wc  = &wm->ctx[i];
 
         r = SYNCQ_INIT(&wc->q, WORK_MAX);
-        if (r != 0) return -errno;
+        if (r != 0) goto fail2;
 
         wc->func    = func;
         wc->context = ctx;
         wc->cpunr   = i;
         wc->done    = &wm->done;
 
-        if ((r = pthread_create(&wc->id, 0, thread_func, wc)) != 0)
-            return -r;
+        if ((r = pthread_create(&wc->id, 0, thread_func, wc)) != 0) {
+            r = -r;
+            SYNCQ_FINI(&wc->q);
+            goto fail2;
+        }
     }
 
     return nthreads;
+
+fail2:
+    /* stop the threads that have been started */
+    while (--i >= 0) {
+        worker_context* wc = &wm->ctx[i];
+
+        wc_submit(wc, 0);
+        pthread_join(wc->id, 0);
+        SYNCQ_FINI(&wc->q);
+    }
+    pthread_mutex_destroy(&wm->lock);
+fail1:
+    sem_destroy(&wm->done);
+fail0:
+    DEL(wm->ctx);
+    return r;
 }
 
 
@@ -145,8 +174,8 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
  * Delete and destroy a work manager. Caller's responsibility to wait
  * for all threads to exit.
  */
-void
-work_manager_cleanup(work_manager* wm)
+int
+work_manager_destroy(work_manager* wm)
 {
     int i;
 
@@ -158,7 +187,9 @@ work_manager_cleanup(work_manager* wm)
     }
 
     sem_destroy(&wm->done);
+    pthread_mutex_destroy(&wm->lock);
     DEL(wm->ctx);
+    return 0;
 }
 
 
-- 
2.43.0


From b77e11827eb7bb364abefca733df777a69d816db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 36/76] fix: posix mutex: pthread_mutex_init returns a positive
 error

---
 src/posix/cmutex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/posix/cmutex.c b/src/posix/cmutex.c
index fa3f471..facf149 100644
--- a/src/posix/cmutex.c
+++ b/src/posix/cmutex.c
@@ -58,7 +58,7 @@ lockmgr_new_mutex(lockmgr* l)
     if (!m)
         return;
 
-    if (pthread_mutex_init(m, 0) < 0)
+    if (pthread_mutex_init(m, 0) != 0)
     {
         DEL(m);
         return;
-- 
2.43.0


From ab58adf6a6e93ed30a47ddbbaf8e6d6486a7e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 37/76] fix: splitmix64: parenthesise the xor-shift before the
 multiplication

---
 inc/utils/splitmix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/utils/splitmix.h b/inc/utils/splitmix.h
index abca409..dad3497 100644
--- a/inc/utils/splitmix.h
+++ b/inc/utils/splitmix.h
@@ -36,8 +36,8 @@ splitmix64(uint64_t *x)
     *x += 0x9E3779B97F4A7C15;
 
     uint64_t z = *x;
-    z = (z ^ (z >> 30) * 0xBF58476D1CE4E5B9);
-    z = (z ^ (z >> 27) * 0x94D049BB133111EB);
+    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9;
+    z = (z ^ (z >> 27)) * 0x94D049BB133111EB;
 
     return z ^ (z >> 31);
 }
-- 
2.43.0


From c739d85f3deb482f2d853669198603704390ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 38/76] fix: xorshift: third shift of xorshift64* is to the
 right; a zero seed is never used

---
 src/prng/xorshift.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/prng/xorshift.c b/src/prng/xorshift.c
index 952891a..9d96971 100644
--- a/src/prng/xorshift.c
+++ b/src/prng/xorshift.c
@@ -29,6 +29,9 @@ void
 xs64star_init(xs64star* s, uint64_t seed)
 {
     s->v = seed ? splitmix64(&seed) : makeseed();
+
+    // zero is the one state xorshift never leaves
+    if (!s->v) s->v = 0x9E3779B97F4A7C15;
 }
 
 
@@ -37,7 +40,7 @@ xs64star_u64(xs64star* s)
 {
     s->v ^= s->v >> 12;
     s->v ^= s->v << 25;
-    s->v ^= s->v << 27;
+    s->v ^= s->v >> 27;
     return s->v * 2685821657736338717uLL;
 }
 
-- 
2.43.0


From 1dedb91994ae5a3ba7e92e8a18aa2a95ab02f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 39/76] fix: little-endian.h: unbalanced parentheses

---
 inc/fast/little-endian.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/fast/little-endian.h b/inc/fast/little-endian.h
index 83b93ff..e1eb4c2 100644
--- a/inc/fast/little-endian.h
+++ b/inc/fast/little-endian.h
@@ -31,9 +31,9 @@ extern "C" {
 #define __constant_htonll(x) (__swab64((uint64_t)(x)))
 #define __constant_htonl(x)  (__swab32((uint32_t)(x)))
 #define __constant_ntohll(x) (__swab64((uint64_t)(x)))
-#define __constant_ntohl(x)  (__swab32(((uint32_t)(x)))
-#define __constant_htons(x)  (__swab16(((uint16_t)(x)))
-#define __constant_ntohs(x)  (__swab16(((uint16_t)(x)))
+#define __constant_ntohl(x)  (__swab32((uint32_t)(x)))
+#define __constant_htons(x)  (__swab16((uint16_t)(x)))
+#define __constant_ntohs(x)  (__swab16((uint16_t)(x)))
 
 #define __cpu_to_le16(x)     ((uint16_t)(x))
 #define __cpu_to_le32(x)     ((uint32_t)(x))
-- 
2.43.0


From ee9627aca7652f93d03621da4924a6df84a7e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 40/76] fix: murmur3: clear the tail words; return all 128 bits

---
 src/hashfunc/murmur3_hash.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index 3d6e225..5a2d581 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -158,6 +158,7 @@ murmur3_hash_32(const void* key, size_t len, uint32_t seed)
 
   /* tail */
 
+  k1 = 0;
 
   switch(len & 3)
   {
@@ -231,6 +232,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
 
     /* tail */
 
+    k1 = k2 = k3 = k4 = 0;
 
     switch(len & 15)
     {
@@ -277,7 +279,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
         uint_128_t r;
 
         r.v[0] = h1; r.v[0] <<= 32; r.v[0] |= h2;
-        r.v[1] = h1; r.v[1] <<= 32; r.v[1] |= h2;
+        r.v[1] = h3; r.v[1] <<= 32; r.v[1] |= h4;
         return r;
     }
 }
@@ -323,6 +325,8 @@ murmur3_hash64_128(const void* key, size_t len, uint32_t seed)
 
     /* tail */
 
+    k1 = k2 = 0;
+
     switch(len & 15)
     {
         case 15: k2 ^= ((uint64_t)(tail[14])) << 48; // fallthrough
-- 
2.43.0


From 4477ed0ab40a67737aed6345b003ff8574ad2768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 41/76] fix: yorrike hash: advance by the size of the word that
 was read

---
 src/hashfunc/yorrike.c | 59 +++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/src/hashfunc/yorrike.c b/src/hashfunc/yorrike.c
index ef0bb46..3020511 100644
--- a/src/hashfunc/yorrike.c
+++ b/src/hashfunc/yorrike.c
@@ -11,28 +11,15 @@
 #define _YP32  709607
 
 
-#define WORDSZ      4
-#define D_WORDSZ    (WORDSZ << 1)       // 8
-#define DD_WORDSZ   (WORDSZ << 2)       // 16
-#define DDD_WORDSZ  (WORDSZ << 3)       // 32
+#define WORDSZ      2
+#define D_WORDSZ    (WORDSZ << 1)       // 4
+#define DD_WORDSZ   (WORDSZ << 2)       // 8
+#define DDD_WORDSZ  (WORDSZ << 3)       // 16
 
 /*
- * Needed for unaligned u64 decode.
+ * Needed for unaligned u32 decode.
  */
-#define _u64(x) ((uint64_t)x)
-#define _u32(x) ((uint64_t)x)
-static inline uint64_t
-dec_LE_u64(const uint8_t * p) {
-    return         p[0]
-           | (_u64(p[1]) << 8)
-           | (_u64(p[2]) << 16)
-           | (_u64(p[3]) << 24)
-           | (_u64(p[4]) << 32)
-           | (_u64(p[5]) << 40)
-           | (_u64(p[6]) << 48)
-           | (_u64(p[7]) << 56);
-}
-
+#define _u32(x) ((uint32_t)x)
 static inline uint32_t
 dec_LE_u32(const uint8_t * p) {
     return         p[0]
@@ -41,22 +28,28 @@ dec_LE_u32(const uint8_t * p) {
            | (_u32(p[3]) << 24);
 }
 
+static inline uint32_t
+dec_LE_u16(const uint8_t * p) {
+    return         p[0]
+           | (_u32(p[1]) << 8);
+}
+
 uint32_t
 yorrike_hash32(const void* x, size_t n, uint32_t seed)
 {
     uint32_t h32  = seed ? seed : _OFF32,
              h32b = h32;
     const uint8_t* buf = (const uint8_t*)x;
-    uint64_t k1, k2;
+    uint32_t k1, k2;
 
     while (n >= DDD_WORDSZ) {
-        k1   = dec_LE_u64(buf);
-        k2   = dec_LE_u64(buf+4);
-        h32  = _u32((_u64(h32) ^ ((k1<<5 | k1>>27) ^ k2)) * _YP32);
+        k1   = dec_LE_u32(buf);
+        k2   = dec_LE_u32(buf+4);
+        h32  = (h32 ^ ((k1<<5 | k1>>27) ^ k2)) * _YP32;
 
-        k1   = dec_LE_u64(buf+8);
-        k2   = dec_LE_u64(buf+12);
-        h32b = _u32((_u64(h32b) ^ ((k1<<5 | k1>>27) ^ k2)) * _YP32);
+        k1   = dec_LE_u32(buf+8);
+        k2   = dec_LE_u32(buf+12);
+        h32b = (h32b ^ ((k1<<5 | k1>>27) ^ k2)) * _YP32;
 
         buf += DDD_WORDSZ;
         n   -= DDD_WORDSZ;
@@ -64,10 +57,10 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
 
 
     if ((n & DD_WORDSZ) > 0) {
-        k1   = dec_LE_u64(buf);
-        k2   = dec_LE_u64(buf+4);
-        h32  = _u32((_u64(h32)  ^ k1) * _YP32);
-        h32b = _u32((_u64(h32b) ^ k2) * _YP32);
+        k1   = dec_LE_u32(buf);
+        k2   = dec_LE_u32(buf+4);
+        h32  = (h32  ^ k1) * _YP32;
+        h32b = (h32b ^ k2) * _YP32;
 
         buf += DD_WORDSZ;
     }
@@ -75,8 +68,8 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
 
     if ((n & D_WORDSZ) > 0) {
         uint32_t w1, w2;
-        w1   = dec_LE_u32(buf);
-        w2   = dec_LE_u32(buf+2);
+        w1   = dec_LE_u16(buf);
+        w2   = dec_LE_u16(buf+2);
         h32  = (h32  ^ w1) * _YP32;
         h32b = (h32b ^ w2) * _YP32;
 
@@ -86,7 +79,7 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
 
     if ((n & WORDSZ) > 0) {
         uint32_t w1;
-        w1   = dec_LE_u32(buf);
+        w1   = dec_LE_u16(buf);
         h32  = (h32  ^ w1) * _YP32;
 
         buf += WORDSZ;
-- 
2.43.0


From 5a14a2474094203b3c5778c792f8ea5c2135a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 42/76] fix: _Hour is 60 minutes

---
 inc/utils/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/utils.h b/inc/utils/utils.h
index c0bf241..43a90ed 100644
--- a/inc/utils/utils.h
+++ b/inc/utils/utils.h
@@ -116,7 +116,7 @@ typedef uint64_t duration_t;
 #define __Duration       ((duration_t)1000000000)
 #define __dur(a)         ((duration_t)(a))
 
-#define _Hour(n)         (_Minute(n) * 24)
+#define _Hour(n)         (_Minute(n) * 60)
 #define _Minute(n)       (_Second(n) * 60)
 #define _Second(n)       (__dur(n) * __Duration)
 #define _Millisecond(n)  (_Second(n) / 1000)
-- 
2.43.0


From cb75cfea487ce35a0fd2bdd5d77daeaa12b73168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 43/76] fix: arc4random: do not let the reseed counter wrap

---
 src/arc4random.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arc4random.c b/src/arc4random.c
index 7a17ae2..aa1c734 100644
--- a/src/arc4random.c
+++ b/src/arc4random.c
@@ -143,7 +143,11 @@ _rs_stir_if_needed(rand_state* st, size_t len)
     if (st->rs_count <= len)
         _rs_stir(st);
 
-    st->rs_count -= len;
+    // a request may be bigger than what is left even then
+    if (st->rs_count <= len)
+        st->rs_count = 0;
+    else
+        st->rs_count -= len;
 }
 
 // consume 'n' random btyes from the entropy buffer. Return total
-- 
2.43.0


From 1fd3536d448180594f97b98a1b3127c5b07abd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:44 +0000
Subject: [PATCH 44/76] fix: rotatefile: don't act on truncated file names

---
 src/rotatefile.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index d4e0af1..0156238 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -23,6 +23,7 @@
 
 static int __exists(const char *filename);
 static void delete_old(const char *fn, int start, int end);
+static int  nth_name(char *buf, size_t bsize, const char *fn, int n);
 
 /**
  * Unconditionally rotate a file and keep the last 'nsaved' copies.
@@ -42,8 +43,11 @@ rotate_filename(const char *filename, int nsaved, unsigned int flags)
     delete_old(filename, nsaved, nsaved+100);
 
     while (--nsaved > 0) {
-        snprintf(f1, sizeof f1, "%s.%d", filename, nsaved-1);
-        snprintf(f2, sizeof f2, "%s.%d", filename, nsaved);
+        r = nth_name(f2, sizeof f2, filename, nsaved);
+        if (r < 0) return r;
+
+        r = nth_name(f1, sizeof f1, filename, nsaved-1);
+        if (r < 0) return r;
 
         //printf("%s -> %s\n", f1, f2);
         r = __exists(f1);
@@ -58,7 +62,9 @@ rotate_filename(const char *filename, int nsaved, unsigned int flags)
     if (r < 0) return r;
 
     if (r > 0) {
-        snprintf(f1, sizeof f1, "%s.0", filename);
+        r = nth_name(f1, sizeof f1, filename, 0);
+        if (r < 0) return r;
+
         if (rename(filename, f1) < 0) return -errno;
     }
 
@@ -117,7 +123,18 @@ delete_old(const char *fn, int start, int end)
     char x[PATH_MAX];
 
     for (; start < end; ++start) {
-        snprintf(x, sizeof x, "%s.%d", fn, start);
+        // a name that doesn't fit can't exist; and a truncated one is
+        // the name of some other file.
+        if (nth_name(x, sizeof x, fn, start) < 0) break;
         unlink(x);
     }
 }
+
+// make the name of the n'th saved copy of 'fn'
+static int
+nth_name(char *buf, size_t bsize, const char *fn, int n)
+{
+    int r = snprintf(buf, bsize, "%s.%d", fn, n);
+
+    return (r < 0 || (size_t)r >= bsize) ? -ENAMETOOLONG : 0;
+}
-- 
2.43.0


From 4b3abbba7e1de5772dee9c78a2fbf4d86c6f5ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:44 +0000
Subject: [PATCH 45/76] fix: rotatefile: a partial megabyte past the limit
 exceeds it

---
 src/rotatefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index 0156238..289d15a 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -91,7 +91,8 @@ rotate_filename_by_size(const char *filename, int nsaved,
     }
     if (!S_ISREG(st.st_mode)) return -EINVAL;
 
-    uint64_t actual_size = st.st_size / 1048576;
+    // a partial megabyte past the limit exceeds it
+    uint64_t actual_size = ((uint64_t)st.st_size + 1048575) / 1048576;
     if (actual_size > size_mb)
         return rotate_filename(filename, nsaved, flags);
 
-- 
2.43.0


From daba3192b0315aadaf0b06ab3c1327fe2d4ac936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:44 +0000
Subject: [PATCH 46/76] fix: mkdirhier: accept a trailing slash, and
 directories made by someone else

---
 src/mkdirhier.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/mkdirhier.c b/src/mkdirhier.c
index 6085679..49b344a 100644
--- a/src/mkdirhier.c
+++ b/src/mkdirhier.c
@@ -33,6 +33,22 @@ sep(const char* p)
     return 0;
 }
 
+// make one directory; it's fine if someone else made it in the
+// meantime.
+static int
+mkdir1(const char *path, mode_t mode)
+{
+    struct stat st;
+
+    if (mkdir(path, mode) == 0)
+        return 0;
+
+    int r = -errno;
+    if (r == -EEXIST && 0 == stat(path, &st) && S_ISDIR(st.st_mode))
+        return 0;
+
+    return r;
+}
 
 int
 mkdirhier(const char* path, mode_t mode)
@@ -68,19 +84,16 @@ mkdirhier(const char* path, mode_t mode)
             if (errno != ENOENT)
                 return -errno;
 
-            r = mkdir(z, mode);
+            r = mkdir1(z, mode);
             if (r < 0)
-                return -errno;
+                return r;
         }
 
         prev = next+1;
     }
 
     // Make the last and final part
-    if (mkdir(path, mode) < 0)
-        return -errno;
-
-    return 0;
+    return mkdir1(path, mode);
 }
 
 /* EOF */
-- 
2.43.0


From 9c0968898313d92e2d2a3687bb6ba18aba78e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:44 +0000
Subject: [PATCH 47/76] fix: progbar: any terminal width, no overflow

---
 src/progbar.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/progbar.c b/src/progbar.c
index 9545c45..ed0cbc3 100644
--- a/src/progbar.c
+++ b/src/progbar.c
@@ -34,22 +34,38 @@
 #define CLR     "\x1B[2K\r"
 
 
+// Percentage of 'total' that is 'cur', at most 100
+static uint64_t
+percent(uint64_t cur, uint64_t total)
+{
+    uint64_t pct;
+
+    if (cur >= total) return 100;
+
+    // avoid overflowing 100 * cur
+    if (total > UINT64_MAX/100) {
+        pct = cur / (total / 100);
+    } else {
+        pct = (100 * cur) / total;
+    }
+
+    return pct > 100 ? 100 : pct;
+}
+
+
 // Update 'buf' with a total progress bar with completion percent
 // etc.
 static void
 update_total_progress(char *buf, size_t bsize, progress *p)
 {
-    char fill[p->width*2];
-    char blank[p->width*2];
+    char fill[p->width+2];
+    char blank[p->width+2];
     char cur[32];
     char tot[32];
     char pref[64];
 
-    uint64_t pct = (100 * p->cur) / p->total;
-
-    if (pct > 100) pct = 100;
-
-    uint64_t done = pct / p->step;
+    uint64_t pct  = percent(p->cur, p->total);
+    uint64_t done = (pct * p->width) / 100;
     uint64_t rem  = p->width - done;
 
     assert(done < (sizeof fill)-1);
@@ -106,13 +122,15 @@ progressbar_init(progress *p, int fd, uint64_t total, uint32_t flags)
     struct winsize w;
 
     // try to get the actual width, else punt.
-    if (ioctl(fd, TIOCGWINSZ, &w) != 0) w.ws_col = 80;
+    if (ioctl(fd, TIOCGWINSZ, &w) != 0 || w.ws_col == 0) w.ws_col = 80;
 
     p->total = total;
     p->fd    = fd;
     p->cur   = 0;
     p->flags = flags;
     p->width = w.ws_col > 50 ? 50 : w.ws_col / 2;
+    if (p->width == 0) p->width = 1;
+
     p->step  = 100 / p->width;
 
     return 0;
-- 
2.43.0


From a179fc28a59846447fe924117151885c328a4275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:44 +0000
Subject: [PATCH 48/76] fix: readpass: end of input is an error; don't look
 before an empty line

---
 src/readpass.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/readpass.c b/src/readpass.c
index f50aeaa..b2e83b4 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -36,6 +36,20 @@
 #define MAXPASSLEN 2048
 #define warnp(x) fprintf(stderr, x ": %s (%d)\n", strerror(errno), errno)
 
+/*
+ * Read one line; return 0 on success, -errno on failure. End of input
+ * doesn't set errno - but is a failure.
+ */
+static int
+readln(char *buf, size_t bsize, FILE *fp)
+{
+    errno = 0;
+    if (fgets(buf, bsize, fp) != NULL) return 0;
+    if (errno == 0) errno = EIO;
+
+    return -errno;
+}
+
 /**
  * portable_getpass(passwd, prompt, confirmprompt, devtty)
  * If ${devtty} is non-zero, read a password from /dev/tty if possible; if
@@ -50,6 +64,7 @@
  * Returns:
  *     0   on success
  *     -EINVAL for too many wrong retries
+ *     -EIO    if the input ends before a password is read
  *    -errno on other failure
  */
 int
@@ -91,8 +106,7 @@ portable_readpass(char ** passwd, const char * prompt,
     do {
         if (usingtty) fprintf(stderr, "%s: ", prompt);
 
-        if (fgets(passbuf, MAXPASSLEN, readfrom) == NULL) {
-            r = -errno;
+        if ((r = readln(passbuf, MAXPASSLEN, readfrom)) < 0) {
             warnp("Cannot read password");
             goto err2;
         }
@@ -100,8 +114,7 @@ portable_readpass(char ** passwd, const char * prompt,
         if (!confirmprompt) goto ok;
 
         if (usingtty) fprintf(stderr, "%s: ", confirmprompt);
-        if (fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) {
-            r = -errno;
+        if ((r = readln(confpassbuf, MAXPASSLEN, readfrom)) < 0) {
             warnp("Cannot read password");
             goto err2;
         }
@@ -116,10 +129,8 @@ portable_readpass(char ** passwd, const char * prompt,
 
 ok:
     n = strlen(passbuf);
-    if (n > 0) {
-        if (passbuf[n-1] == '\n')  passbuf[--n] = 0;
-        if (passbuf[n-1] == '\r')  passbuf[--n] = 0;
-    }
+    if (n > 0 && passbuf[n-1] == '\n')  passbuf[--n] = 0;
+    if (n > 0 && passbuf[n-1] == '\r')  passbuf[--n] = 0;
 
 
     if ((*passwd = strdup(passbuf)) == NULL) {
-- 
2.43.0


From 6057839e847379c0c44ad780ef53d4cf2d48870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:08 +0000
Subject: [PATCH 49/76] fix: frand: a generator per thread

---
 src/prng/frand.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/prng/frand.c b/src/prng/frand.c
index 83a94fe..daa6422 100644
--- a/src/prng/frand.c
+++ b/src/prng/frand.c
@@ -37,8 +37,9 @@
 double
 frand()
 {
-    static xs128plus rs;
-    static int init = 0;
+    // each thread has its own generator
+    static __thread xs128plus rs;
+    static __thread int init = 0;
 
     if (!init) {
         xs128plus_init(&rs, 0);
-- 
2.43.0


From 74dea60a1437f156ffedc9a1020dcd0a609ef917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:22 +0000
Subject: [PATCH 50/76] fix: getopt: a ':' after '-' or '+' silences messages
 too

---
 src/getopt_long.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 36386d2..28b035a 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -57,8 +57,7 @@ int optreset;/* reset getopt */
 
 
 #define IGNORE_FIRST        (*options == '-' || *options == '+')
-#define PRINT_ERROR         ((opterr) && ((*options != ':') \
-                                || (IGNORE_FIRST && options[1] != ':')))
+#define PRINT_ERROR         ((opterr) && options[IGNORE_FIRST ? 1 : 0] != ':')
 #define IS_POSIXLY_CORRECT  (getenv("POSIXLY_CORRECT") != NULL)
 #define PERMUTE             (!IS_POSIXLY_CORRECT && !IGNORE_FIRST)
 
-- 
2.43.0


From fd3200c2132fabfbfa7876aab46da3dca898aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:22 +0000
Subject: [PATCH 51/76] fix: getopt: optind = 0 drops the rest of the word
 being scanned

---
 src/getopt_long.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 28b035a..500c701 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -184,7 +184,7 @@ getopt_internal(int nargc, char * const *nargv, const char *options)
      * XXX properly function again.  Work around this braindamage.
      */
     if (optind == 0)
-        optind = 1;
+        optind = optreset = 1;
 
     if (optreset)
         nonopt_start = nonopt_end = -1;
-- 
2.43.0


From 746419671334169f46d3dd4bfdb18ae11d784570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:22 +0000
Subject: [PATCH 52/76] fix: getopt_long: an exact name wins over longer names
 before it

---
 src/getopt_long.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 500c701..01a2349 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -354,7 +354,7 @@ getopt_long(int nargc, char * const *nargv, const char *options,
     if ((retval = getopt_internal(nargc, nargv, options)) == -2) {
         char *current_argv, *has_equal;
         size_t current_argv_len;
-        int i, match;
+        int i, match, ambiguous = 0;
 
         current_argv = place;
         match = -1;
@@ -392,18 +392,21 @@ getopt_long(int nargc, char * const *nargv, const char *options,
                 (unsigned)current_argv_len) {
                 /* exact match */
                 match = i;
+                ambiguous = 0;
                 break;
             }
             if (match == -1)        /* partial match */
                 match = i;
-            else {
-                /* ambiguous abbreviation */
-                if (PRINT_ERROR)
-                    warnx(ambig, (int)current_argv_len,
-                         current_argv);
-                optopt = 0;
-                return BADCH;
-            }
+            else            /* unless an exact match follows */
+                ambiguous = 1;
+        }
+        if (ambiguous) {
+            /* ambiguous abbreviation */
+            if (PRINT_ERROR)
+                warnx(ambig, (int)current_argv_len,
+                     current_argv);
+            optopt = 0;
+            return BADCH;
         }
         if (match != -1) {          /* option found */
                 if (long_options[match].has_arg == no_argument
-- 
2.43.0


From 264b7aeb8f5689e3853cc1b849767de5ac7fb906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:20 +0000
Subject: [PATCH 53/76] fix: error: an empty message has no last character

---
 src/error.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.c b/src/error.c
index c0d7174..80d5cf5 100644
--- a/src/error.c
+++ b/src/error.c
@@ -95,7 +95,7 @@ error(int status, int err, const char *fmt, ...)
     va_end(ap);
 
     // erase the trailing \n; we'll add it back later.
-    if (buf[n-1] == '\n') buf[--n] = 0;
+    if (n > 0 && buf[n-1] == '\n') buf[--n] = 0;
 
     fputs(buf, stderr);
     if (err > 0) fprintf(stderr, ": %s [%d]", errstr, err);
@@ -120,7 +120,7 @@ vprint(FILE *fp, const char *fmt, va_list ap)
         n = max;
     }
 
-    if (buf[n-1] != '\n') {
+    if (n == 0 || buf[n-1] != '\n') {
         buf[n]   = '\n';
         buf[n+1] = '\0';
     }
-- 
2.43.0


From 09712f59ae9db7e9965781e6f399e6e8653178b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:20 +0000
Subject: [PATCH 54/76] fix: error: a message cut short still ends its line

---
 src/error.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/error.c b/src/error.c
index 80d5cf5..2b07f23 100644
--- a/src/error.c
+++ b/src/error.c
@@ -89,8 +89,8 @@ error(int status, int err, const char *fmt, ...)
     int n = vsnprintf(buf, max, fmt, ap);
     if (n >= max || n < 0) {
         // output truncated. Ensure we have a trailing zero!
-        buf[max] = 0;
-        n = max;
+        n = n < 0 ? 0 : max - 1;
+        buf[n] = 0;
     }
     va_end(ap);
 
@@ -116,8 +116,8 @@ vprint(FILE *fp, const char *fmt, va_list ap)
     int n = vsnprintf(buf, max, fmt, ap);
     if (n < 0 || ((size_t)n) >= max) {
         // output truncated. Ensure we have a trailing zero!
-        buf[max] = 0;
-        n = max;
+        n = n < 0 ? 0 : max - 1;
+        buf[n] = 0;
     }
 
     if (n == 0 || buf[n-1] != '\n') {
-- 
2.43.0


From 0316d040dae73a10203748d56922105790d22b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:20 +0000
Subject: [PATCH 55/76] fix: error: define error_print_progname and use it

---
 src/error.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/error.c b/src/error.c
index 2b07f23..bc24f5a 100644
--- a/src/error.c
+++ b/src/error.c
@@ -25,6 +25,7 @@
 #include "error.h"
 
 const char * program_name = 0;
+void (*error_print_progname)(void) = 0;
 
 #if defined(_WIN32) || defined(WIN32)
 
@@ -68,6 +69,17 @@ geterrstr(int err)
 #endif // _WIN32
 
 
+// start a message with the program's name, if we have it
+static void
+print_progname(void)
+{
+    if (error_print_progname)
+        (*error_print_progname)();
+    else if (program_name)
+        fprintf(stderr, "%s: ", program_name);
+}
+
+
 // print error message, retrieve string corresponding to 'err' if
 // necessary. Abort program if 'status' > 0.
 void
@@ -78,7 +90,7 @@ error(int status, int err, const char *fmt, ...)
 
     fflush(stdout);
     fflush(stderr);
-    if (program_name) fprintf(stderr, "%s: ", program_name);
+    print_progname();
 
     char buf[2048];
     int max = (sizeof buf) - 1; // for \0
@@ -134,7 +146,7 @@ warn(const char *fmt, ...)
 {
     fflush(stdout);
     fflush(stderr);
-    if (program_name) fprintf(stderr, "%s: ", program_name);
+    print_progname();
 
     va_list ap;
     va_start(ap, fmt);
@@ -148,7 +160,7 @@ die(const char *fmt, ...)
 {
     fflush(stdout);
     fflush(stderr);
-    if (program_name) fprintf(stderr, "%s: ", program_name);
+    print_progname();
 
     va_list ap;
     va_start(ap, fmt);
-- 
2.43.0


From d3a1923bed6eb4a863324f2f104d398761697c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:45 +0000
Subject: [PATCH 56/76] fix: resolve: a name too long for an interface isn't
 one

---
 src/c_resolve.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index a406304..65830e3 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -113,8 +113,9 @@ is_ifname(const char* name)
         struct ifreq ifr;
         memset(&ifr, 0, sizeof ifr);
 
-        strcopy(ifr.ifr_name, IFNAMSIZ, name);
-        if (ioctl(fd, SIOCGIFMTU, &ifr) == 0)
+        // a name that doesn't fit isn't an interface
+        if (strcopy(ifr.ifr_name, IFNAMSIZ, name) >= 0 &&
+            ioctl(fd, SIOCGIFMTU, &ifr) == 0)
             r = 1;
 
         close(fd);
-- 
2.43.0


From d8e102ff5dcdf3b1650337b28daf37f3ea8ac977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:45 +0000
Subject: [PATCH 57/76] fix: resolve: don't print a link address beyond the
 buffer

---
 src/c_resolve.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index 65830e3..1073d81 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -140,6 +140,11 @@ sockaddr_to_string(char * buf, size_t bufsiz, const struct sockaddr * sa)
                          * me = m + 6;
             char *p = buf;
 
+            if (bufsiz < (3 * 6)) {
+                errno = ENOSPC;
+                return 0;
+            }
+
             //hexdump("macdump", sa, sizeof(struct sockaddr_storage));
 
             for (; m < me; ++m) {
-- 
2.43.0


From 9349e62a1a19e97ec745caf229adb2e7506fdb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:52 +0000
Subject: [PATCH 58/76] fix: resolve: no interface list: return -errno, free
 the vector

---
 src/c_resolve.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index 1073d81..0060fb6 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -204,8 +204,11 @@ get_all_if_address(if_address_vect* addrv, unsigned int mask)
         mask = F_INET|F_INET6;
 
     r = getifaddrs(&ifa);
-    if (r < 0)
+    if (r < 0) {
+        r = -errno;
+        VECT_FINI(&av);
         return r;
+    }
 
     for (ifp = ifa; ifp; ifp = ifp->ifa_next) {
         iftmp t;
-- 
2.43.0


From cd564761a404711e38349ebb7d37fe3eb39954c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:52 +0000
Subject: [PATCH 59/76] fix: resolve: an unknown host is an error

---
 src/c_resolve.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index 0060fb6..f17414d 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -443,8 +443,13 @@ resolve_host_or_ifname(const char* name, if_addr_vect* addrv, unsigned int mask)
     hints.ai_socktype = SOCK_STREAM;
 
     n = getaddrinfo(name, 0, &hints, &ai);
-    if (n != 0)
-        return -errno;
+    switch (n) {
+        case 0:             break;
+        case EAI_SYSTEM:    return -errno;
+        case EAI_MEMORY:    return -ENOMEM;
+        case EAI_AGAIN:     return -EAGAIN;
+        default:            return -ENOENT;
+    }
 
     for (ptr = ai; ptr; ptr = ptr->ai_next) {
         struct sockaddr* s = ptr->ai_addr;
-- 
2.43.0


From 7d65373f56b280e9eb3e2589dbee92cc6957988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 60/76] fix: daemonize: the process in between doesn't flush
 stdio

---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index c7062ef..c85e6c8 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -43,7 +43,7 @@ daemonize(const char* pwd)
     if (pid < 0)
         return -geterrno();
     else if (pid > 0)
-        exit(0);
+        _exit(0);   // the parent flushes what we both have buffered
 
     // this is now the grandkid of the original process
     if (!pwd)
-- 
2.43.0


From 717d9054e76cd7de865c31c163d3c05a651dac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 61/76] fix: daemonize: a directory that can't be entered is an
 error

---
 src/daemon.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index c85e6c8..2b7559c 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -49,7 +49,9 @@ daemonize(const char* pwd)
     if (!pwd)
         pwd = "/tmp";
 
-    chdir(pwd);
+    if (chdir(pwd) < 0)
+        return -geterrno();
+
     umask(022);
 
     int fd0 = open("/dev/null", O_RDONLY);
-- 
2.43.0


From 18f01ebde5cb94a2cd6918f8bcb806ca51895e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 62/76] fix: daemonize: keep no extra descriptors; report
 failures

---
 src/daemon.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 2b7559c..28cf3ec 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -54,15 +54,21 @@ daemonize(const char* pwd)
 
     umask(022);
 
+    int r   = 0;
     int fd0 = open("/dev/null", O_RDONLY);
     int fd1 = open("/dev/null", O_WRONLY);
     int fd2 = open("/dev/null", O_WRONLY);
 
-    dup2(fd0, 0);
-    dup2(fd1, 1);
-    dup2(fd2, 2);
+    if (fd0 < 0 || fd1 < 0 || fd2 < 0 ||
+        dup2(fd0, 0) < 0 || dup2(fd1, 1) < 0 || dup2(fd2, 2) < 0)
+        r = -geterrno();
 
-    return 0;
+    // any of them may be one of 0, 1 and 2 already
+    if (fd0 > 2) close(fd0);
+    if (fd1 > 2) close(fd1);
+    if (fd2 > 2) close(fd2);
+
+    return r;
 }
 
 /* EOF */
-- 
2.43.0


From 44bd935cf7bae098bc89c11e1593a356f9da7845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 63/76] fix: fts: a longer path is where the next name goes

---
 src/fts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fts.c b/src/fts.c
index 8de5281..5ad1bc1 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -780,6 +780,7 @@ mem1:				saved_errno = errno;
 			/* Did realloc() change the pointer? */
 			if (oldaddr != sp->fts_path) {
 				doadjust = 1;
+				p->fts_path = sp->fts_path;
 				if (ISSET(FTS_NOCHDIR))
 					cp = sp->fts_path + len;
 			}
-- 
2.43.0


From 8c12c4bf2bcbfd4eb68965d4efb8c05468f9d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 64/76] fix: fts_open: free the sort array when the last
 allocation fails

---
 src/fts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fts.c b/src/fts.c
index 5ad1bc1..906f4dd 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -215,7 +215,8 @@ fts_open(char * const *argv, int options,
 
 	return (sp);
 
-mem3:	fts_lfree(root);
+mem3:	free(sp->fts_array);
+	fts_lfree(root);
 	fts_free(parent);
 mem2:	free(sp->fts_path);
 mem1:	free(sp);
-- 
2.43.0


From 993fd11b51399995b000061ffc7fe064441831ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 65/76] fix: fts_read: don't keep a freed entry as the current
 one

---
 src/fts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fts.c b/src/fts.c
index 906f4dd..5a03b0d 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -428,6 +428,7 @@ fts_read(FTS *sp)
 	/* Move to the next node on this level. */
 next:	tmp = p;
 	if ((p = p->fts_link) != NULL) {
+		sp->fts_cur = p;
 		fts_free(tmp);
 
 		/*
@@ -474,7 +475,7 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 	}
 
 	/* Move up to the parent node. */
-	p = tmp->fts_parent;
+	sp->fts_cur = p = tmp->fts_parent;
 	fts_free(tmp);
 
 	if (p->fts_level == FTS_ROOTPARENTLEVEL) {
-- 
2.43.0


From e2ba88b9eb45b9110b1f41ec1095879011ca7e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 66/76] fix: fts: close a followed link's descriptor once

---
 src/fts.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 5a03b0d..ee54c03 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -69,6 +69,7 @@ __RCSID("$NetBSD: fts.c,v 1.40 2009/11/02 17:17:34 stacktic Exp $");
 static FTSENT	*fts_alloc(FTS *, const char *, size_t);
 static FTSENT	*fts_build(FTS *, int);
 static void	 fts_free(FTSENT *);
+static void	 fts_symclose(FTSENT *);
 static void	 fts_lfree(FTSENT *);
 static void	 fts_load(FTS *, FTSENT *);
 static size_t	 fts_maxarglen(char * const *);
@@ -264,8 +265,6 @@ fts_close(FTS *sp)
 	 * list which has a valid parent pointer.
 	 */
 	if (sp->fts_cur) {
-		if (sp->fts_cur->fts_flags & FTS_SYMFOLLOW)
-			(void)close(sp->fts_cur->fts_symfd);
 		for (p = sp->fts_cur; p->fts_level >= FTS_ROOTLEVEL;) {
 			freep = p;
 			p = p->fts_link ? p->fts_link : p->fts_parent;
@@ -358,6 +357,7 @@ fts_read(FTS *sp)
 	 */
 	if (instr == FTS_FOLLOW &&
 	    (p->fts_info == FTS_SL || p->fts_info == FTS_SLNONE)) {
+		fts_symclose(p);
 		p->fts_info = fts_stat(sp, p, 1);
 		if (p->fts_info == FTS_D && !ISSET(FTS_NOCHDIR)) {
 			if ((p->fts_symfd = open(".", O_RDONLY, 0)) == -1) {
@@ -378,8 +378,7 @@ fts_read(FTS *sp)
 		/* If skipped or crossed mount point, do post-order visit. */
 		if (instr == FTS_SKIP ||
 		    (ISSET(FTS_XDEV) && p->fts_dev != sp->fts_dev)) {
-			if (p->fts_flags & FTS_SYMFOLLOW)
-				(void)close(p->fts_symfd);
+			fts_symclose(p);
 			if (sp->fts_child) {
 				fts_lfree(sp->fts_child);
 				sp->fts_child = NULL;
@@ -504,12 +503,12 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 	} else if (p->fts_flags & FTS_SYMFOLLOW) {
 		if (FCHDIR(sp, p->fts_symfd)) {
 			saved_errno = errno;
-			(void)close(p->fts_symfd);
+			fts_symclose(p);
 			errno = saved_errno;
 			SET(FTS_STOP);
 			return (NULL);
 		}
-		(void)close(p->fts_symfd);
+		fts_symclose(p);
 	} else if (!(p->fts_flags & FTS_DONTCHDIR) &&
 	    fts_safe_changedir(sp, p->fts_parent, -1, "..")) {
 		SET(FTS_STOP);
@@ -1080,9 +1079,22 @@ fts_alloc(FTS *sp, const char *name, size_t namelen)
 	return (p);
 }
 
+/*
+ * Close the descriptor that leads back from a followed symbolic link.
+ */
+static void
+fts_symclose(FTSENT *p)
+{
+	if (p->fts_flags & FTS_SYMFOLLOW) {
+		(void)close(p->fts_symfd);
+		p->fts_flags &= ~FTS_SYMFOLLOW;
+	}
+}
+
 static void
 fts_free(FTSENT *p)
 {
+	fts_symclose(p);
 #if !defined(FTS_ALLOC_ALIGNED)
 	if (p->fts_statp)
 		free(p->fts_statp);
-- 
2.43.0


From dd64d5fbc9c4705e074a47f0641be8575b6cc9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 67/76] fix: fts: come back from an empty directory the way we
 went

---
 src/fts.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index ee54c03..086698c 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -881,12 +881,15 @@ mem1:				saved_errno = errno;
 	 * If descended after called from fts_children or after called from
 	 * fts_read and nothing found, get back.  At the root level we use
 	 * the saved fd; if one of fts_open()'s arguments is a relative path
-	 * to an empty directory, we wind up here with no other way back.  If
-	 * can't get back, we're done.
+	 * to an empty directory, we wind up here with no other way back.  The
+	 * same goes for a symbolic link we followed.  If can't get back, we're
+	 * done.
 	 */
 	if (descend && (type == BCHILD || !nitems) &&
 	    (cur->fts_level == FTS_ROOTLEVEL ?
 	    FCHDIR(sp, sp->fts_rfd) :
+	    cur->fts_flags & FTS_SYMFOLLOW ?
+	    FCHDIR(sp, cur->fts_symfd) :
 	    fts_safe_changedir(sp, cur->fts_parent, -1, ".."))) {
 		cur->fts_info = FTS_ERR;
 		SET(FTS_STOP);
-- 
2.43.0


From de10cf1d058c3db872e1c6e1761872f0fd522d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 68/76] fix: fts: only a path in the buffer moves with it

---
 src/fts.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 086698c..d34ae46 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -864,8 +864,12 @@ mem1:				saved_errno = errno;
 	 * If had to realloc the path, adjust the addresses for the rest
 	 * of the tree.
 	 */
-	if (doadjust)
+	if (doadjust) {
 		fts_padjust(sp, head);
+		if (cderrno)
+			for (p = head; p; p = p->fts_link)
+				p->fts_accpath = cur->fts_accpath;
+	}
 
 	/*
 	 * If not changing directories, reset the path back to original
@@ -1181,9 +1185,8 @@ fts_padjust(FTS *sp, FTSENT *head)
 	_DIAGASSERT(sp != NULL);
 
 #define	ADJUST(p) do {							\
-	if ((p)->fts_accpath != (p)->fts_name)				\
-		(p)->fts_accpath =					\
-		    addr + ((p)->fts_accpath - (p)->fts_path);		\
+	if ((p)->fts_accpath == (p)->fts_path)				\
+		(p)->fts_accpath = addr;				\
 	(p)->fts_path = addr;						\
 } while (/*CONSTCOND*/0)
 
-- 
2.43.0


From cea60e951a0a2515f592a1d5cb34cfb8e5411001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 69/76] fix: fts: a followed root sets the device to stay on

---
 src/fts.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index d34ae46..9fdb156 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -359,6 +359,8 @@ fts_read(FTS *sp)
 	    (p->fts_info == FTS_SL || p->fts_info == FTS_SLNONE)) {
 		fts_symclose(p);
 		p->fts_info = fts_stat(sp, p, 1);
+		if (p->fts_info == FTS_D && p->fts_level == FTS_ROOTLEVEL)
+			sp->fts_dev = p->fts_dev;
 		if (p->fts_info == FTS_D && !ISSET(FTS_NOCHDIR)) {
 			if ((p->fts_symfd = open(".", O_RDONLY, 0)) == -1) {
 				p->fts_errno = errno;
-- 
2.43.0


From 2916ef94020e39b2881aa0f6f01839379673fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:43 +0000
Subject: [PATCH 70/76] fix: zbuf: a sink that fails (returns less than 0) is
 an error, not a piece to move

---
 src/zbuf_c.c   | 2 +-
 src/zbuf_unc.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zbuf_c.c b/src/zbuf_c.c
index 003bbcf..3e11522 100644
--- a/src/zbuf_c.c
+++ b/src/zbuf_c.c
@@ -85,7 +85,7 @@ z_buf_compress (z_buf_context * zc, void * data, int len)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index 3364459..a2e4447 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -129,7 +129,7 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
-- 
2.43.0


From 75f00d6d11576a90f8d3960db95ce3ff7224e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:44 +0000
Subject: [PATCH 71/76] fix: zbuf: ending decompression with unused input
 delivers what is left

---
 src/zbuf_unc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index a2e4447..52f2d3b 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -80,8 +80,9 @@ z_buf_uncompress_end (z_buf_context * zc)
     if ( zs->avail_in > 0 )
     {
         err = do_uncompress (zs, zc);
-        if ( err != Z_STREAM_END || err != Z_OK )
+        if ( err != Z_STREAM_END && err != Z_OK )
             return err;
+        err = Z_OK;
     }
 
     if ( zs->avail_out < zc->outbuf_size )
-- 
2.43.0


From 8aa13d3cd852942f82a5f21de807e94ac657c156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:12 +0000
Subject: [PATCH 72/76] fix: strmatch: Rabin-Karp stays inside the text and
 hashes without overflow

---
 inc/utils/strmatch.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index d8cc873..4108cc0 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -466,30 +466,34 @@ template<typename T> std::vector<int>
 rabin_karp_search<T>::matchall(const T * text, int textlen)
 {
 #define _rehash(a,b,h)   ((((h) - ((a) * d)) << 1) + (b))
-    int d, i, j, q,
-        h_pat, h_txt;
+    int i, j, q;
+    unsigned d, h_pat, h_txt;
 
 
     std::vector<int> r;
 
-    // compute d = 2^(m-1)
-    d = 1 << (m_patlen-1);
+    q = textlen - m_patlen;
+    if (q < 0)
+        return r;
+
+    // compute d = 2^(m-1), modulo the size of the hash
+    d = m_patlen > int(sizeof(d) * 8) ? 0 : 1u << (m_patlen-1);
     for (h_pat = h_txt = i = 0; i < m_patlen; ++i)
     {
         h_pat = (h_pat << 1) + m_pat[i];
         h_txt = (h_txt << 1) + text[i];
     }
 
-    j = 0;
-    q = textlen - m_patlen;
-    while (j <= q)
+    for (j = 0; ; ++j)
     {
         if (h_pat == h_txt && 0 == memcmp(m_pat, text+j, m_patlen * sizeof(char_type)))
         {
             r.push_back(j);
         }
+        if (j == q)
+            break;
+
         h_txt = _rehash(text[j], text[j+m_patlen], h_txt);
-        ++j;
     }
 
     return r;
-- 
2.43.0


From 0c0ebb6911e23a19cfa0b5b6b2fd266eed2066d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:12 +0000
Subject: [PATCH 73/76] fix: strmatch: Boyer-Moore indexes its table with the
 unsigned character

---
 inc/utils/strmatch.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index 4108cc0..9f76046 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -40,6 +40,7 @@
 #include <algorithm>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
 
 
 // Template class that defines a KMP search algorithm instance
@@ -190,6 +191,12 @@ public:
     typedef typename traits_type::char_type char_type;
 #define _bm_alphabet_size       (1 << (sizeof(char_type) * 8))
 
+    // index of a char in the bad char table; chars may be negative
+    static size_t idx(char_type c)
+    {
+        return typename std::make_unsigned<char_type>::type(c);
+    }
+
     boyer_moore_search(const T * pat, int patlen);
     ~boyer_moore_search();
 
@@ -240,7 +247,7 @@ template<typename T> void boyer_moore_search<T>::calc_bad_char()
         m_bad_char[i] = m_patlen;
 
     for (i = 0; i < m1; i++)
-        m_bad_char[m_pat[i]] = m1 - i;
+        m_bad_char[idx(m_pat[i])] = m1 - i;
 }
 
 template<typename T> void boyer_moore_search<T>::calc_suffixes(std::vector<int>& suff)
@@ -347,7 +354,7 @@ boyer_moore_search<T>::matchall(const T * text, int textlen)
             j += m_good_shift[0];
         }
         else
-            j += std::max(m_good_shift[i], m_bad_char[text[i+j]] - m_patlen + 1 + i);
+            j += std::max(m_good_shift[i], m_bad_char[idx(text[i+j])] - m_patlen + 1 + i);
     }
 
     return r;
@@ -390,7 +397,7 @@ boyer_moore_search<T>::turbo_matchall(const T * text, int textlen)
         {
             v           = m_patlen - 1 - i;
             turbo_shift = u - v;
-            bc_shift    = m_bad_char[text[i+j]] - m_patlen + 1 + i;
+            bc_shift    = m_bad_char[idx(text[i+j])] - m_patlen + 1 + i;
             shift       = std::max(turbo_shift, bc_shift);
             shift       = std::max(shift, m_good_shift[i]);
             if (shift == m_good_shift[i])
-- 
2.43.0


From 7c65730e1c44b39cc4d4fb9112eedee472746dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:29 +0000
Subject: [PATCH 74/76] fix: strmatch: Knuth-Morris-Pratt finds overlapping
 occurrences too

---
 inc/utils/strmatch.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index 9f76046..77db69a 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -160,21 +160,22 @@ kmp_search<T>::matchall(const  T * text, int textlen)
 {
     std::vector<int> r;
 
-    int off = 0;
-    while(textlen > 0)
-    {
-        std::pair<bool, int> m = match(text, textlen);
-        if ( !m.first )
-            break;
+    if ( textlen > 0 && !text )
+        throw std::length_error("text is null");
 
-        int consume  = m.second + m_patlen; // nbytes to consume
-        int matchoff = off + m.second;      // offset relative to start of text
-
-        text        += consume;
-        textlen     -= consume;
-        off         += consume;
+    int i,
+        q = 0;
 
-        r.push_back(matchoff);
+    for (i = 0; i < textlen; i++)
+    {
+        if (q == m_patlen)              // matches may overlap
+            q = m_prefix_tab[q - 1];
+        while (q > 0 && !traits_type::eq(m_pat[q], text[i]))
+            q = m_prefix_tab[q - 1];
+        if ( traits_type::eq(m_pat[q], text[i]) )
+            q++;
+        if (q == m_patlen)
+            r.push_back(i + 1 - m_patlen);
     }
     return r;
 }
-- 
2.43.0


From 814f90a9ff26dd8502852c8f6faaef46e77bcb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:29 +0000
Subject: [PATCH 75/76] fix: strmatch: an empty pattern is refused

---
 inc/utils/strmatch.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index 77db69a..3970b00 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -111,8 +111,8 @@ kmp_search<T>::kmp_search(const T * p, int plen)
     : m_patlen(plen),
       m_prefix_tab(plen)
 {
-    if ( plen < 0 )
-        throw std::length_error("patlen is negative");
+    if ( plen <= 0 )
+        throw std::length_error("patlen is not positive");
 
     m_pat = new T[plen];
     memcpy(m_pat, p, sizeof(char_type) * plen);
@@ -313,8 +313,8 @@ boyer_moore_search<T>::boyer_moore_search(const T * p, int plen)
       m_bad_char(_bm_alphabet_size),
       m_good_shift(plen)
 {
-    if ( plen < 0 )
-        throw std::length_error("patlen is negative");
+    if ( plen <= 0 )
+        throw std::length_error("patlen is not positive");
 
     m_pat = new T[plen];
     memcpy(m_pat, p, sizeof(char_type) * plen);
@@ -456,8 +456,8 @@ template<typename T>
 rabin_karp_search<T>::rabin_karp_search(const T * p, int plen)
     : m_patlen(plen)
 {
-    if ( plen < 0 )
-        throw std::length_error("patlen is negative");
+    if ( plen <= 0 )
+        throw std::length_error("patlen is not positive");
 
     m_pat = new T[plen];
     memcpy(m_pat, p, sizeof(char_type) * plen);
-- 
2.43.0


From 3e5359f8e71cfbaba9ae5ccb06820c33f41d39a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:29 +0000
Subject: [PATCH 76/76] fix: strmatch: Boyer-Moore's constructor does not lose
 the pattern when memory runs out

---
 inc/utils/strmatch.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index 3970b00..ed72d30 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -223,7 +223,7 @@ public:
 protected:
     void calc_suffixes(std::vector<int>& suff);
     void calc_bad_char();
-    void calc_good_shift();
+    void calc_good_shift(std::vector<int>& suff);
 
 
 
@@ -280,10 +280,9 @@ template<typename T> void boyer_moore_search<T>::calc_suffixes(std::vector<int>&
 }
 
 
-template<typename T> void boyer_moore_search<T>::calc_good_shift()
+template<typename T> void boyer_moore_search<T>::calc_good_shift(std::vector<int>& suff)
 {
     int i, j;
-    std::vector<int> suff(m_patlen);
 
     calc_suffixes(suff);
 
@@ -316,10 +315,13 @@ boyer_moore_search<T>::boyer_moore_search(const T * p, int plen)
     if ( plen <= 0 )
         throw std::length_error("patlen is not positive");
 
+    // nothing may throw after m_pat is allocated
+    std::vector<int> suff(plen);
+
     m_pat = new T[plen];
     memcpy(m_pat, p, sizeof(char_type) * plen);
 
-    calc_good_shift();
+    calc_good_shift(suff);
     calc_bad_char();
 }
 
-- 
2.43.0

