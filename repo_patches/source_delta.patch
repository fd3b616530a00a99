From ef0d914adc37ea48350d1b12bfdd805e00a9ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 01/95] fix: cbuf with initial size zero was not
 null-terminated and could not grow

---
 cligen_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_buf.c b/cligen_buf.c
index 4a1f0cd..737f51f 100644
--- a/cligen_buf.c
+++ b/cligen_buf.c
@@ -122,7 +122,7 @@ cbuf_new_alloc(size_t sz)
     if ((cb = (cbuf*)malloc(sizeof(*cb))) == NULL)
         return NULL;
     memset(cb, 0, sizeof(*cb));
-    cb->cb_buflen = sz;
+    cb->cb_buflen = sz ? sz : 1; /* Room for terminating null, also required for growing */
     if ((cb->cb_buffer = malloc(cb->cb_buflen)) == NULL){
         free(cb);
         return NULL;
-- 
2.43.0


From a1493141a63406da5d4dd4dc97e7e3d46b8b67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 02/95] fix: decimal64 accepted literals without digits or with
 a sign after the decimal point

---
 cligen_cv.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 8089e23..73cb13e 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1350,6 +1350,17 @@ parse_dec64(char    *str,
     s2 = s0;
     s1 = strsep(&s2, ".");
     len1 = strlen(s1);
+    /* At least one digit, and nothing but digits after the decimal point */
+    if (strpbrk(str, "0123456789") == NULL ||
+        (s2 && strspn(s2, "0123456789") != strlen(s2))){
+        if (reason != NULL)
+            if ((*reason = cligen_reason("'%s' is not a number", str)) == NULL){
+                retval = -1; /* malloc */
+                goto done;
+            }
+        retval = 0;
+        goto done;
+    }
     if ((ss = malloc(strlen(str)+n+2)) == NULL){
         retval = -1; /* malloc */
         goto done;
-- 
2.43.0


From 9e9740cdb6bbedd4257764ead9b4115c7c4a25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 03/95] fix: cv_flag_clr toggled the flag, setting it if it was
 not set

---
 cligen_cv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 73cb13e..a9eef29 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -201,7 +201,7 @@ cv_flag_clr(cg_var *cv,
 {
     if (cv == NULL)
         return 0;
-    return cv->var_flag ^= mask;
+    return cv->var_flag &= ~mask;
 }
 
 /*! Set application-specific cv flag
-- 
2.43.0


From d3d49181a34e4a6e40ee1300bf11d54be6939a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 04/95] fix: cv_cmp overflowed and truncated differences of 32
 and 64 bit values

---
 cligen_cv.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index a9eef29..50011c1 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3519,20 +3519,20 @@ cv_cmp(cg_var *cv1,
     case CGV_INT16:
         return (cv1->var_int16 - cv2->var_int16);
     case CGV_INT32:
-        return (cv1->var_int32 - cv2->var_int32);
+        return (cv1->var_int32 > cv2->var_int32) - (cv1->var_int32 < cv2->var_int32);
     case CGV_INT64:
-        return (cv1->var_int64 - cv2->var_int64);
+        return (cv1->var_int64 > cv2->var_int64) - (cv1->var_int64 < cv2->var_int64);
     case CGV_UINT8:
         return (cv1->var_uint8 - cv2->var_uint8);
     case CGV_UINT16:
         return (cv1->var_uint16 - cv2->var_uint16);
     case CGV_UINT32:
-        return (cv1->var_uint32 - cv2->var_uint32);
+        return (cv1->var_uint32 > cv2->var_uint32) - (cv1->var_uint32 < cv2->var_uint32);
     case CGV_UINT64:
-        return (cv1->var_uint64 - cv2->var_uint64);
+        return (cv1->var_uint64 > cv2->var_uint64) - (cv1->var_uint64 < cv2->var_uint64);
     case CGV_DEC64:
         /* XXX assume dec64_n are equal */
-        return (cv_dec64_i_get(cv1) - cv_dec64_i_get(cv2));
+        return (cv_dec64_i_get(cv1) > cv_dec64_i_get(cv2)) - (cv_dec64_i_get(cv1) < cv_dec64_i_get(cv2));
     case CGV_BOOL:
         return (cv1->var_bool - cv2->var_bool);
     case CGV_REST:
-- 
2.43.0


From 180ce8012db98518ba6c84b7776ec9c4b3b20ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 05/95] fix: cv_cmp of time values did not follow time order

---
 cligen_cv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 50011c1..6b99760 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3571,7 +3571,9 @@ cv_cmp(cg_var *cv1,
     case CGV_UUID:
         return memcmp(cv1->var_uuid, cv2->var_uuid, 16);
     case CGV_TIME:
-        return memcmp(&cv1->var_time, &cv2->var_time, sizeof(struct timeval));
+        if (cv1->var_time.tv_sec != cv2->var_time.tv_sec)
+            return (cv1->var_time.tv_sec > cv2->var_time.tv_sec) - (cv1->var_time.tv_sec < cv2->var_time.tv_sec);
+        return (cv1->var_time.tv_usec > cv2->var_time.tv_usec) - (cv1->var_time.tv_usec < cv2->var_time.tv_usec);
     case CGV_VOID: /* compare pointers */
         return (cv1->var_void == cv2->var_void);
     case CGV_EMPTY: /* Always equal */
-- 
2.43.0


From 69210b8b1a341bc073139492fa2c2d69952bf8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 06/95] fix: cv_cmp of void values returned zero for different
 pointers

---
 cligen_cv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 6b99760..29071b4 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3575,7 +3575,7 @@ cv_cmp(cg_var *cv1,
             return (cv1->var_time.tv_sec > cv2->var_time.tv_sec) - (cv1->var_time.tv_sec < cv2->var_time.tv_sec);
         return (cv1->var_time.tv_usec > cv2->var_time.tv_usec) - (cv1->var_time.tv_usec < cv2->var_time.tv_usec);
     case CGV_VOID: /* compare pointers */
-        return (cv1->var_void == cv2->var_void);
+        return (cv1->var_void > cv2->var_void) - (cv1->var_void < cv2->var_void);
     case CGV_EMPTY: /* Always equal */
         return 0;
     }
-- 
2.43.0


From 7b6cc0b93f6a06d2456220dd6d3a411b2b12a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 07/95] fix: cv_print sign-extended MAC address bytes

---
 cligen_cv.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 29071b4..302c49a 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2685,12 +2685,12 @@ cv_print(FILE   *f,
         break;
     case CGV_MACADDR:
         fprintf(f, "%02x:%02x:%02x:%02x:%02x:%02x",
-                cv->var_macaddr[0],
-                cv->var_macaddr[1],
-                cv->var_macaddr[2],
-                cv->var_macaddr[3],
-                cv->var_macaddr[4],
-                cv->var_macaddr[5]);
+                (uint8_t)cv->var_macaddr[0],
+                (uint8_t)cv->var_macaddr[1],
+                (uint8_t)cv->var_macaddr[2],
+                (uint8_t)cv->var_macaddr[3],
+                (uint8_t)cv->var_macaddr[4],
+                (uint8_t)cv->var_macaddr[5]);
 
         break;
     case CGV_URL: /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
-- 
2.43.0


From aa979336e013c6c78c9d8ef12aa15979b82b4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 08/95] fix: cv_print of an IPv6 prefix printed the IPv4 mask
 length

---
 cligen_cv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 302c49a..8402783 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2681,7 +2681,7 @@ cv_print(FILE   *f,
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-        fprintf(f, "%s/%d", straddr, cv->var_ipv4masklen);
+        fprintf(f, "%s/%d", straddr, cv->var_ipv6masklen);
         break;
     case CGV_MACADDR:
         fprintf(f, "%02x:%02x:%02x:%02x:%02x:%02x",
-- 
2.43.0


From c7c2ebdcf9fd9cc27f29830ab26875b6afa713e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 09/95] fix: printing the smallest decimal64 value overflowed

---
 cligen_cv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 8402783..1153b13 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2292,14 +2292,14 @@ cv_dec64_print(cg_var *cv,
     int      i;
     uint8_t  n = cv->var_dec64_n;;
     int      len;
-    int64_t di;
+    uint64_t di;
 
     assert(0<n && n<19);
     /* Convert negative numbers to positive and prepend a '-' at the end */
     di = cv_dec64_i_get(cv);
-    if (di<0)
+    if (cv_dec64_i_get(cv)<0)
         di = -di;
-    len = snprintf(s0, *s0len, "%0*" PRId64, n+1, di);
+    len = snprintf(s0, *s0len, "%0*" PRIu64, n+1, di);
     assert(len>=n);
     *s0len -= len;
     /* Shift fraction digits right, including null character.
-- 
2.43.0


From 94c9e6dcfdd65d871c38dc0834b75404af8dca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 10/95] fix: time values with a day that the month does not
 have were accepted

---
 cligen_cv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 1153b13..c6908e6 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1889,6 +1889,10 @@ str2time(const char     *in,
         goto done;
     if (day < 1 || day > 31)
         goto done;
+    if ((month == 4 || month == 6 || month == 9 || month == 11) && day > 30)
+        goto done;
+    if (month == 2 && day > ((year%4 == 0 && year%100 != 0) || year%400 == 0 ? 29 : 28))
+        goto done;
     i += 2;
     if (in[i] != 'T' && in[i] != ' ')
         goto done;
-- 
2.43.0


From 3db7295e8565c002a4d3ff7e358de7c5c412c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 11/95] fix: cv_parse leaked the reason of a rejected value

---
 cligen_cv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index c6908e6..674b567 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3153,6 +3153,7 @@ cv_parse(const char *str,
     }
     if (retval == 0){
         fprintf(stderr, "cv parse error: %s\n", reason);
+        free(reason);
         return -1;
     }
     return 0;
-- 
2.43.0


From e823f41fee10cf716e98f7a13c46c6221bc6df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 12/95] fix: cvec_del_i accepted the position after the last
 element and negative positions

---
 cligen_cvec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 9ade831..3d28dcf 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -318,7 +318,7 @@ int
 cvec_del_i(cvec *cvv,
            int   i)
 {
-    if (cvec_len(cvv) == 0 || cvec_len(cvv) < i){
+    if (i < 0 || i >= cvec_len(cvv)){
         errno = EINVAL;
         return -1;
     }
-- 
2.43.0


From 0bb2929464f68c0278fd47190fe4a572eed46983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 13/95] fix: cvec_i accessed memory before the vector on
 negative positions

---
 cligen_cvec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 3d28dcf..0d205bc 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -355,7 +355,7 @@ cvec_i(cvec *cvv,
         if (!cvv) {
                 return NULL;
         }
-    if (i < cvv->vr_len)
+    if (i >= 0 && i < cvv->vr_len)
         return &cvv->vr_vec[i];
     return NULL;
 }
-- 
2.43.0


From 7032357ab295cc6315f4bb9899250afa1006d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 14/95] fix: parsing an url into a variable leaked its previous
 value

---
 cligen_cv.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 674b567..5c1de14 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1631,6 +1631,17 @@ parse_url(char   *url,
     if (strncmp(tmp, "://", 3)) /* :// */
         goto warn;
     *tmp = '\0';
+    /* Free previous value, if any */
+    if (cv->var_urlproto)
+        free(cv->var_urlproto);
+    if (cv->var_urladdr)
+        free(cv->var_urladdr);
+    if (cv->var_urlpath)
+        free(cv->var_urlpath);
+    if (cv->var_urluser)
+        free(cv->var_urluser);
+    if (cv->var_urlpasswd)
+        free(cv->var_urlpasswd);
     cv->var_urlproto = strdup(str);
     str = tmp+3;
     if ((tmp = strchr(str, '@')) != NULL){
-- 
2.43.0


From 64be28969230d75ece43f74aeead534de8e500a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 15/95] fix: blanks, tabs and comment characters inside quoted
 or escaped words were trimmed

---
 cligen_read.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index b139cb5..b195902 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -575,6 +575,8 @@ cli_trim(char **line,
     int     whitespace = 0;
     char   *s = *line;
     char   *s1 = s;
+    char   *keep = s; /* Quoted or escaped text up to here is not stripped */
+    char   *quote;
     char    ch;
     size_t  len;
 
@@ -584,6 +586,23 @@ cli_trim(char **line,
     len = strlen(s);
     for (point = 0; point <= len ; point++) {
         ch = s[point];
+        /* Keep quoted words and escaped characters as they are */
+        if (ch == '"' && (whitespace || point == 0) &&
+            (quote = strchr(&s[point+1], '"')) != NULL){
+            while (&s[point] < quote)
+                *s1++ = s[point++];
+            *s1++ = s[point];
+            whitespace = 0;
+            keep = s1;
+            continue;
+        }
+        if (ch == '\\' && point+1 < len && s[point+1] != '\n'){
+            *s1++ = ch;
+            *s1++ = s[++point];
+            whitespace = 0;
+            keep = s1;
+            continue;
+        }
         if (comment && ch == comment && (whitespace || point == 0 )){
             *s1++ = '\n';
             *s1++ = '\0';
@@ -606,7 +625,7 @@ cli_trim(char **line,
     while ((strlen(s) > 0) && isblank(*s))
         s++;
     /* strip trailing whites and newlines */
-    while ((strlen(s) > 0) && (isblank(*(s+strlen(s)-1)) || *(s+strlen(s)-1) == '\n'))
+    while ((strlen(s) > 0) && s+strlen(s) > keep && (isblank(*(s+strlen(s)-1)) || *(s+strlen(s)-1) == '\n'))
         *(s + strlen(s) - 1) = '\0';
     *line = s;
 }
-- 
2.43.0


From 7593c2847592df76e87230c4f6201480e28d30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 16/95] fix: POSIX patterns starting with ^ or ending with $
 did not match the whole word

---
 cligen_regex.c | 67 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/cligen_regex.c b/cligen_regex.c
index 3f6b68c..57f5aab 100644
--- a/cligen_regex.c
+++ b/cligen_regex.c
@@ -65,6 +65,33 @@
 
 /*-------------------------- POSIX -------------------------*/
 
+/*! Compile a posix extended regexp surrounded by a prefix and a suffix
+ *
+ * @param[out]  re      Compiled regular expression, if retval is 0
+ * @retval      0       OK
+ * @retval     >0       regcomp error code
+ * @retval     -1       Error
+ */
+static int
+posix_regcomp(regex_t *re,
+              char    *prefix,
+              char    *regexp,
+              char    *suffix)
+{
+    int   retval = -1;
+    cbuf *cb = NULL;
+
+    if ((cb = cbuf_new()) == NULL)
+        goto done;
+    cprintf(cb, "%s%s%s", prefix, regexp, suffix);
+    memset(re, 0, sizeof(regex_t));
+    retval = regcomp(re, cbuf_get(cb), REG_NOSUB|REG_EXTENDED);
+ done:
+    if (cb)
+        cbuf_free(cb);
+    return retval;
+}
+
 /*! Compile a regexp according to posix regexps
  *
  * It is implicitly assumed that the match should be done at the beginning and
@@ -84,37 +111,27 @@ cligen_regex_posix_compile(char  *regexp,
                            void **recomp)
 {
     int      retval = -1;
-    cbuf    *cb = NULL;
     regex_t *re = NULL;
     int      len0;
-    int      err;
+    int      err = REG_NOMATCH;
 
     len0 = strlen(regexp);
-    if ((cb = cbuf_new()) == NULL)
+    if ((re = malloc(sizeof(regex_t))) == NULL)
         goto done;
-    /* Check if prepended by ^ */
-    if (len0 > 0 && regexp[0] == '^'){
-        if (regexp[len0-1] == '$')
-            cprintf(cb, "%s", regexp);
-        else if (len0 > 1 && regexp[1] == '(')
-            cprintf(cb, "%s)$", regexp);
-        else
-            cprintf(cb, "%s$", regexp);
-    }
-    /* Check if terminated by $ only */
-    else if (len0 > 0 && regexp[len0-1] == '$'){
-        if (len0 > 1 && regexp[len0-2] == ')')
-            cprintf(cb, "^(%s", regexp);
-        else
-            cprintf(cb, "^%s", regexp);
+    /* pattern)$ where the group is only closed */
+    if (len0 > 1 && regexp[0] != '^' && regexp[len0-2] == ')' && regexp[len0-1] == '$'){
+        if ((err = posix_regcomp(re, "^(", regexp, "")) < 0)
+            goto done;
     }
-    else /* Neither ^or $ */
-        cprintf(cb, "^(%s)$", regexp);
-
-    if ((re = malloc(sizeof(regex_t))) == NULL)
+    /* Group the whole pattern, it may already have a ^ or $, or top-level alternatives */
+    if (err != 0 && (err = posix_regcomp(re, "^(", regexp, ")$")) < 0)
         goto done;
-    memset(re, 0, sizeof(regex_t));
-    if ((err = regcomp(re, cbuf_get(cb), REG_NOSUB|REG_EXTENDED)) != 0) {
+    /* ^(pattern where the group is only opened */
+    if (err != 0 && len0 > 1 && regexp[0] == '^' && regexp[1] == '(' && regexp[len0-1] != '$'){
+        if ((err = posix_regcomp(re, "", regexp, ")$")) < 0)
+            goto done;
+    }
+    if (err != 0) {
         char errbuf[1024] = {0,};
         if (regerror(err, re, errbuf, 1000) < 0){
             perror("regerror");
@@ -128,8 +145,6 @@ cligen_regex_posix_compile(char  *regexp,
  done:
     if (re)
         free(re);
-    if (cb)
-        cbuf_free(cb);
     return retval;
  fail:
     retval = 0;
-- 
2.43.0


From c21509a3d4606e7de7f58e8bfff443f80ee5f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 17/95] fix: a command and a variable with the same name were
 merged and sorted inconsistently

---
 cligen_object.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 552c2ee..6fcdeb1 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -923,8 +923,8 @@ co_eq(cg_obj *co1,
             eq = 1;
             goto done;
         }
-        /* Here one is command and one is variable */
-        eq = strcmp(co1->co_command, co2->co_command);
+        /* Here one is command and one is variable: never equal, commands come first */
+        eq = co1->co_type == CO_COMMAND ? -1 : 1;
         goto done;
     }
     switch (co1->co_type){
-- 
2.43.0


From b81ab20b5f5bc8cdae769e1b3ea156cf7f2de0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 18/95] fix: a comment among the options of a specification
 line made the rest of the options unreadable

---
 cligen_parse.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_parse.l b/cligen_parse.l
index 08808d3..70b7046 100644
--- a/cligen_parse.l
+++ b/cligen_parse.l
@@ -191,7 +191,7 @@ stripdup(char *s0)
 
 <OPTION>[ \t]+
 <OPTION>,                { return *yytext; }
-<OPTION>#                 { _CY->cy_lex_state =INITIAL; BEGIN(COMMENT); }
+<OPTION>#                 { _CY->cy_lex_state =OPTION; BEGIN(COMMENT); }
 <OPTION>\n                { _CY->cy_linenum++; }
 <OPTION>=                 { return *yytext; }
 <OPTION>;                 { BEGIN(INITIAL); return *yytext;}
-- 
2.43.0


From 74a493b484b0574e170ac29a6cd8658860ec772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 19/95] fix: a carriage return among the options of a
 specification line became part of a name

---
 cligen_parse.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_parse.l b/cligen_parse.l
index 70b7046..fafe8f2 100644
--- a/cligen_parse.l
+++ b/cligen_parse.l
@@ -189,7 +189,7 @@ stripdup(char *s0)
                                  cligen_parselval.string = strdup(yytext);
                                  return NAME; }
 
-<OPTION>[ \t]+
+<OPTION>[ \t\r]+
 <OPTION>,                { return *yytext; }
 <OPTION>#                 { _CY->cy_lex_state =OPTION; BEGIN(COMMENT); }
 <OPTION>\n                { _CY->cy_linenum++; }
@@ -200,7 +200,7 @@ stripdup(char *s0)
 <OPTION>\)                { return *yytext; }
 <OPTION>\{                { BEGIN(INITIAL); return *yytext;}
 <OPTION>\"                { _CY->cy_lex_string_state =INITIAL;BEGIN(STRING); return DQ; }
-<OPTION>([^ \t,#\n=;\(\)\{\}\"]|\\.)+   {
+<OPTION>([^ \t,#\n\r=;\(\)\{\}\"]|\\.)+   {
                                  cligen_parselval.string = strdup(yytext);
                                  return NAME; }
 <OPTION>.                 { return -1;}
-- 
2.43.0


From 36b84b67b1fcb92f61e35d90cfe78f6067a70e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 20/95] fix: an abbreviated choice or expanded alternative was
 bound as typed instead of the whole word

---
 cligen_match.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cligen_match.c b/cligen_match.c
index a41fcf3..4daedea 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -496,6 +496,8 @@ match_bindvars(cligen_handle h,
     int     retval = -1;
     cg_var *cv = NULL;
     cg_obj *co_orig;
+    char   *str = NULL;
+    size_t  len;
 
     /* co_orig is original object in case of expansion */
     if ((co_orig = co->co_treeref_orig) == NULL)
@@ -506,6 +508,14 @@ match_bindvars(cligen_handle h,
             goto done;
     }
     else if (co->co_type == CO_COMMAND && co_orig->co_type == CO_VARIABLE){
+        /* The token may be an abbreviation: bind the whole (unquoted) alternative */
+        token = co->co_command;
+        len = strlen(token);
+        if (len > 1 && token[0] == '\"' && token[len-1] == '\"'){
+            if ((str = strndup(token+1, len-2)) == NULL)
+                goto done;
+            token = str;
+        }
         if ((cv = add_cov_to_cvec(h, co_orig, token, cvv)) == NULL)
             goto done;
     }
@@ -519,6 +529,8 @@ match_bindvars(cligen_handle h,
     }
     retval = 0;
  done:
+    if (str)
+        free(str);
     return retval;
 }
 
-- 
2.43.0


From 59c1a30179b9650b51c96984dd1c2f3536fd43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 21/95] fix: an empty quoted word was accepted for a variable
 without checking its type and constraints, or gave an error

---
 cligen_match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_match.c b/cligen_match.c
index 4daedea..c34e976 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -193,7 +193,7 @@ match_object(cligen_handle h,
   case CO_VARIABLE:
       t = co->co_vtype;
       if (str == NULL || len==0){
-          if (best && cv_isint(t)){
+          if (str != NULL && best){
               if ((match = match_variable(h, co, str, reason)) < 0)
                   return -1;
           }
-- 
2.43.0


From ff6c479fb9a942c37d52020a8fe0d0c02b17416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 22/95] fix: variables differing only in an inverted pattern,
 decimal64 range or fraction digits were merged into one

---
 cligen_object.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 6fcdeb1..13569c9 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -963,6 +963,9 @@ co_eq(cg_obj *co1,
                     cv2 = cvec_i(co2->co_regex, i);
                     if ((eq = str_cmp(cv_string_get(cv1), cv_string_get(cv2))) != 0)
                         goto done;
+                    /* A pattern and its inverse are different */
+                    if ((eq = (cv_flag(cv1, V_INVERT)?1:0) - (cv_flag(cv2, V_INVERT)?1:0)) != 0)
+                        goto done;
                 }
                 if (cvec_len(co1->co_regex) < cvec_len(co2->co_regex))
                     eq = -1;
@@ -974,8 +977,12 @@ co_eq(cg_obj *co1,
             if (eq)
                 goto done;
         }
-        /* Examine int and range */
-        if (cv_isint(co1->co_vtype) || cv_isstring(co1->co_vtype)) {
+        /* Examine fraction digits */
+        if (co1->co_vtype == CGV_DEC64 &&
+            (eq = (int)co1->co_dec64_n - (int)co2->co_dec64_n) != 0)
+            goto done;
+        /* Examine int, decimal64 and range */
+        if (cv_isint(co1->co_vtype) || cv_isstring(co1->co_vtype) || co1->co_vtype == CGV_DEC64) {
             int i;
             cg_var *cv1, *cv2;
             if ((eq = co1->co_rangelen - co2->co_rangelen) != 0)
-- 
2.43.0


From 9a46dcce03389995c1fe1b7b5e3010733b3cc422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 23/95] fix: a command reachable in several ways in one
 statement got its callbacks several times

---
 cligen_parse.y | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_parse.y b/cligen_parse.y
index 2c531c7..0a2ea48 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -461,6 +461,10 @@ cgy_list_push(cg_obj           *co,
 
     if (debug)
         fprintf(stderr, "%s\n", __FUNCTION__);
+    /* The same object can be reached in several ways, eg "[a|b] [a|b]" */
+    for (cl = *cl0; cl; cl = cl->cl_next)
+        if (cl->cl_obj == co)
+            return 0;
     if ((cl = malloc(sizeof(*cl))) == NULL) {
         fprintf(stderr, "%s: malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
-- 
2.43.0


From 843227972f5e314835cf92b1c530725a237fbed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 24/95] fix: a help text of several lines given in two
 statements was added twice

---
 cligen_parse.y | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 0a2ea48..3fe52f5 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -682,15 +682,13 @@ cgy_reference(cligen_yacc *cy,
     return retval;
 }
 
-/*! Add one line of helpstr
+/*! Add helpstr, unless there already is one
  *
  * @param[in]  cy       CLIgen yacc parse struct
- * @param[in]  merge    OK to merge
  * @param[in]  helpstr  Malloced help string, stripped of spaces, consumed here
  */
 static int
 cgy_helpstring(cligen_yacc *cy,
-               int          merge,
                char        *helpstr)
 {
     int              retval = -1;
@@ -703,22 +701,11 @@ cgy_helpstring(cligen_yacc *cy,
     }
     for (cl = cy->cy_list; cl; cl = cl->cl_next){
         co = cl->cl_obj;
-        if (co->co_helpstring){
-            if (merge){
-                if ((co->co_helpstring = realloc(co->co_helpstring,
-                                                 strlen(co->co_helpstring) + strlen(helpstr) + 2)) == NULL){
-                    cligen_parseerror1(cy, "Allocating helpstr");
-                    goto done;
-                }
-                strcat(co->co_helpstring, "\n");
-                strcat(co->co_helpstring, helpstr);
-            }
+        if (co->co_helpstring == NULL &&
+            (co->co_helpstring = strdup(helpstr)) == NULL){
+            cligen_parseerror1(cy, "Allocating helpstr");
+            goto done;
         }
-        else
-            if ((co->co_helpstring = strdup(helpstr)) == NULL){
-                cligen_parseerror1(cy, "Allocating helpstr");
-                goto done;
-            }
     }
     free(helpstr);
     retval = 0;
@@ -1372,19 +1359,25 @@ declcomp    : '(' { if (ctx_push(_cy, 0) < 0) _YYERROR("declcomp"); }
             ;
 
 decl        : cmd                 { _PARSE_DEBUG("decl->cmd");}
-            | cmd PDQ helpstring DQP { _PARSE_DEBUG("decl->cmd (\" helpstring \")");}
+            | cmd PDQ helpstring DQP {
+                  _PARSE_DEBUG("decl->cmd (\" helpstring \")");
+                  if (cgy_helpstring(_cy, $3) < 0) _YYERROR("decl");
+              }
             | cmd PDQ DQP         { _PARSE_DEBUG("decl->cmd (\"\")");}
             ;
 
 helpstring : helpstring linefeeds helpstring1
               {
+                  size_t len = strlen($1);
                   _PARSE_DEBUG("helpstring -> helpstring helpstring1");
-                  if (cgy_helpstring(_cy, 1, $3) < 0) _YYERROR("helpstring");
+                  if (($$ = realloc($1, len+strlen($3)+2)) == NULL) _YYERROR("helpstring");
+                  sprintf($$+len, "\n%s", $3);
+                  free($3);
               }
             | helpstring1
                {
                    _PARSE_DEBUG("helpstring -> helpstring1");
-                   if (cgy_helpstring(_cy, 0, $1) < 0) _YYERROR("helpstring");
+                   $$ = $1;
                }
             ;
 
-- 
2.43.0


From 7a807b84d141325b64abc439942cbbd55b6478a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 25/95] fix: a set member that turned out not to match left its
 values among the bound values

---
 cligen_match.c | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index c34e976..3b64930 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -534,6 +534,21 @@ match_bindvars(cligen_handle h,
     return retval;
 }
 
+/*! Remove the variables bound by a sub-match that failed
+ *
+ * @param[in,out] cvv  Variable vector
+ * @param[in]     len  Length before the sub-match
+ */
+static void
+cvv_rewind(cvec *cvv,
+           int   len)
+{
+    while (cvec_len(cvv) > len){
+        cv_reset(cvec_i(cvv, cvec_len(cvv)-1));
+        cvec_del_i(cvv, cvec_len(cvv)-1);
+    }
+}
+
 static int
 co_clearflag(cg_obj *co,
              void   *arg)
@@ -827,6 +842,7 @@ match_pattern_sets(cligen_handle  h,
     char         *pipe_local;
     cg_obj       *co_pipe = NULL;
     cbuf         *cb = NULL;
+    int           cvvlen;
 
     token = cvec_i_str(cvt, level+1); /* for debugging */
 #ifdef _DEBUG_SETS
@@ -928,6 +944,7 @@ match_pattern_sets(cligen_handle  h,
         while (!last_level(cvt, level)){
             if (mrc != NULL)
                 mrc = NULL;
+            cvvlen = cvec_len(cvv);
             if (match_pattern_sets(h, cvt, cvr,
                                    pipe_default,
                                    ptn,
@@ -940,6 +957,8 @@ match_pattern_sets(cligen_handle  h,
 #ifdef _DEBUG_SETS
             fprintf(stderr, "%s %*s sets matchnr: %d\n", __FUNCTION__, level*3,"", mr_pt_len_get(mrc));
 #endif
+            if (mr_pt_len_get(mrc) == 0)
+                cvv_rewind(cvv, cvvlen);
             if (mr_pt_len_get(mrc) != 1)
                 break;
 #ifdef _DEBUG_SETS
@@ -963,15 +982,18 @@ match_pattern_sets(cligen_handle  h,
             mr0 = NULL;
             goto ok;
         }
-        else if (match_pattern_sets(h, cvt, cvr,
-                                    pipe_default,
-                                    ptn,
-                                    level+1,
-                                    best,
-                                    cvv,
-                                    callbacks,
-                                    &mrc) < 0)
+        cvvlen = cvec_len(cvv);
+        if (match_pattern_sets(h, cvt, cvr,
+                               pipe_default,
+                               ptn,
+                               level+1,
+                               best,
+                               cvv,
+                               callbacks,
+                               &mrc) < 0)
             goto done;
+        if (mr_pt_len_get(mrc) == 0)
+            cvv_rewind(cvv, cvvlen);
     }
     /* Clear all CO_FLAGS_MATCH recursively
      * Only co_match is set with CO_FLAGS_MATCH
-- 
2.43.0


From f3f37d9df15748dd303cc7ba93a941de3f94cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 26/95] fix: words taken by a rest variable in a set were
 matched a second time as members of the set

---
 cligen_match.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_match.c b/cligen_match.c
index 3b64930..a4bbf4a 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -833,6 +833,7 @@ match_pattern_sets(cligen_handle  h,
     match_result *mr0 = NULL; /* Local */
     parse_tree   *ptn = NULL;   /* Expanded */
     cg_obj       *co_match;
+    cg_obj       *co;
     int           lastsyntax = 0;
     match_result *mrc = NULL; /* child result */
     match_result *mrcprev = NULL; /* previous succesful result */
@@ -969,6 +970,9 @@ match_pattern_sets(cligen_handle  h,
                 mr_free(mrcprev);
             mrcprev = mrc;
             level = mr_level_get(mrc); /* XXX level always 0 */
+            co = mr_pt_i_get(mrc, 0);
+            if (co->co_type == CO_VARIABLE && ISREST(co)) /* Has taken the rest of the line */
+                break;
         } /* while */
         if (mrc == NULL){
             *mrp = mr0;
-- 
2.43.0


From d3acc8ba837bec40edbdd6403bc71f7a03183ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 27/95] fix: a set directly after options was a syntax error

---
 cligen_parse.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cligen_parse.l b/cligen_parse.l
index fafe8f2..4bba702 100644
--- a/cligen_parse.l
+++ b/cligen_parse.l
@@ -198,6 +198,7 @@ stripdup(char *s0)
 <OPTION><<EOF>>           { return MY_EOF; }
 <OPTION>\(                { return *yytext; }
 <OPTION>\)                { return *yytext; }
+<OPTION>"@{"              { BEGIN(INITIAL); return SETS; }
 <OPTION>\{                { BEGIN(INITIAL); return *yytext;}
 <OPTION>\"                { _CY->cy_lex_string_state =INITIAL;BEGIN(STRING); return DQ; }
 <OPTION>([^ \t,#\n\r=;\(\)\{\}\"]|\\.)+   {
-- 
2.43.0


From 8ac37dc1321b1e6c44171800f42613411a5680b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 28/95] fix: options of a statement without terminal were given
 to the first statement inside its block

---
 cligen_parse.y | 53 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 3fe52f5..2a4abce 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -740,6 +740,38 @@ cgy_var_choice_append(cligen_yacc *cy,
     return s;
 }
 
+/*! Attach local variables (flags and labels) of a statement to its commands and reset them
+ *
+ * @param[in]  cy  CLIgen yacc parse struct
+ * @retval     0   OK
+ * @retval    -1   Error
+ */
+static int
+cgy_local_vars(cligen_yacc *cy)
+{
+    struct cgy_list *cl;
+    cg_obj          *co;
+
+    if (cy->cy_cvec == NULL)
+        return 0;
+    for (cl = cy->cy_list; cl; cl = cl->cl_next){
+        co = cl->cl_obj;
+        /* variables: special case "hide" */
+        if (cvec_find(cy->cy_cvec, "hide") != NULL)
+            co_flags_set(co, CO_FLAGS_HIDE);
+        /* generic variables */
+        if (co->co_cvec)
+            cvec_free(co->co_cvec);
+        if ((co->co_cvec = cvec_dup(cy->cy_cvec)) == NULL){
+            fprintf(stderr, "%s: cvec_dup: %s\n", __FUNCTION__, strerror(errno));
+            return -1;
+        }
+    }
+    cvec_free(cy->cy_cvec);
+    cy->cy_cvec = NULL;
+    return 0;
+}
+
 /*! Post-processing of commands, eg at ';':
  *
  *  a cmd;<--
@@ -774,18 +806,6 @@ cgy_terminal(cligen_yacc *cy)
             if (co_callback_copy(cy->cy_callbacks, ccp) < 0)
                 goto done;
         }
-        /* variables: special case "hide" */
-        if (cy->cy_cvec){
-            if (cvec_find(cy->cy_cvec, "hide") != NULL)
-                co_flags_set(co, CO_FLAGS_HIDE);
-            /* generic variables */
-            if (co->co_cvec)
-                cvec_free(co->co_cvec);
-            if ((co->co_cvec = cvec_dup(cy->cy_cvec)) == NULL){ /* this leaks */
-                fprintf(stderr, "%s: cvec_dup: %s\n", __FUNCTION__, strerror(errno));
-                goto done;
-            }
-        }
         /* misc */
         if ((ptc = co_pt_get(co)) != NULL){
             for (i=0; i<pt_len_get(ptc); i++){
@@ -813,10 +833,8 @@ cgy_terminal(cligen_yacc *cy)
 #endif
         if (cy->cy_callbacks)
             co_callbacks_free(&cy->cy_callbacks);
-    if (cy->cy_cvec){
-        cvec_free(cy->cy_cvec);
-        cy->cy_cvec = NULL;
-    }
+    if (cgy_local_vars(cy) < 0)
+        goto done;
     retval = 0;
   done:
     return retval;
@@ -847,8 +865,6 @@ ctx_push(cligen_yacc *cy,
     cy->cy_stack = cs; /* Push the new stack element */
     for (cl = cy->cy_list; cl; cl = cl->cl_next){
         co = cl->cl_obj;
-        if (cvec_find(cy->cy_cvec, "hide") != NULL)
-            co_flags_set(co, CO_FLAGS_HIDE);
         if (sets)
             co_sets_set(co, 1);
         if (cgy_list_push(co, &cs->cs_list) < 0)
@@ -1270,6 +1286,7 @@ line2       : ';' {
                     if (ctx_peek_swap2(_cy) < 0) _YYERROR("line2");
                   }
             | preline {
+                      if (cgy_local_vars(_cy) < 0) _YYERROR("line2");
                       if (ctx_push(_cy, $1) < 0) _YYERROR("line2");
                   }
               lines
-- 
2.43.0


From 6829cf63cdb2e579c84f46bb4a8f7c3388c60066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 29/95] fix: completion with letter case ignored could insert
 garbage or crash when alternatives differ in case

---
 cligen_match.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_match.c b/cligen_match.c
index a4bbf4a..b1dfa91 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1380,7 +1380,11 @@ match_complete(cligen_handle h,
                 equal = 0;
                 len = MIN(strlen(command1), strlen(command));
                 for (j=0; j<len; j++)
-                    if (command1[j] != command[j])
+                    if (cligen_caseignore_get(h)){
+                        if (tolower((unsigned char)command1[j]) != tolower((unsigned char)command[j]))
+                            break;
+                    }
+                    else if (command1[j] != command[j])
                         break;
                 minmatch = MIN(minmatch, j);
             }
-- 
2.43.0


From 047f660482e8a9079f22e837efec74154e1dfdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 30/95] fix: completion with same preference for variables
 inserted the name of the variable or crashed

---
 cligen_match.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index b1dfa91..9fec3c7 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1359,9 +1359,12 @@ match_complete(cligen_handle h,
             retval = 0;
             goto done;
         }
-        if ((cligen_tabmode(h) & CLIGEN_TABMODE_VARS) == 0){
-            if (co->co_type != CO_COMMAND)
+        if (co->co_type != CO_COMMAND){
+            if ((cligen_tabmode(h) & CLIGEN_TABMODE_VARS) == 0)
                 continue;
+            /* Same preference for variables: nothing can be completed */
+            retval = 0;
+            goto done;
         }
         command = co->co_command;
         if (co1 == NULL){
-- 
2.43.0


From 712f9ccfaa7e047375259a967ad8b47244d2db4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 31/95] fix: completion wrote one byte after its buffer when
 adding the delimiter

---
 cligen_match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_match.c b/cligen_match.c
index 9fec3c7..22a9db8 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1397,7 +1397,7 @@ match_complete(cligen_handle h,
         retval = 0;
         goto done;
     }
-    while (strlen(*stringp) + minmatch - slen >= *slenp){
+    while (strlen(*stringp) + minmatch - slen + 1 >= *slenp){ /* with delimiter */
         *slenp *= 2;
         if ((*stringp = realloc(*stringp, *slenp)) == NULL)
             goto done;
-- 
2.43.0


From 7b1c6c1ce1ff525961da4dcda2ae8c2cf1c5f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 32/95] fix: completion extended a word after its closing
 quote, or crashed when a rest variable fitted too

---
 cligen_match.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cligen_match.c b/cligen_match.c
index 22a9db8..e4d58dc 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1368,7 +1368,7 @@ match_complete(cligen_handle h,
         }
         command = co->co_command;
         if (co1 == NULL){
-            slen = strlen(mr_token_get(mr));
+            slen = strlen(cvec_i_str(cvt, cvec_len(cvt)-1));
             minmatch = strlen(command);
             co1 = co;
             command1 = command;
@@ -1397,6 +1397,13 @@ match_complete(cligen_handle h,
         retval = 0;
         goto done;
     }
+    /* A word is complete when its closing quote has been typed */
+    if (minmatch > slen &&
+        *cvec_i_str(cvr, cvec_len(cvr)-1) == '\"' &&
+        *cvec_i_str(cvt, cvec_len(cvt)-1) != '\"'){
+        retval = 0;
+        goto done;
+    }
     while (strlen(*stringp) + minmatch - slen + 1 >= *slenp){ /* with delimiter */
         *slenp *= 2;
         if ((*stringp = realloc(*stringp, *slenp)) == NULL)
-- 
2.43.0


From 6a495c115e7b83c45efe7da324157281af8bc1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 33/95] fix: same command reached through several references or
 alternatives changed the trees it was defined in

---
 cligen_expand.c | 244 +++++++++++++++++++++++++++++++++++++++++++-----
 cligen_expand.h |   3 +
 cligen_object.c |  32 ++++++-
 cligen_object.h |   3 +
 4 files changed, 257 insertions(+), 25 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 298f32a..a447a02 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -74,6 +74,188 @@
 #include "cligen_expand.h"
 #include "cligen_syntax.h"
 
+/*! Temporary tree merged from the children of several equal expanded objects
+ *
+ * Expanded (shadow) objects share children with the objects they are expanded from. If the children of
+ * two such objects need to be merged, the merged tree is a copy, which is shared by all
+ * expanded objects that point into it.
+ */
+struct cg_merged {
+    int               cm_refs; /* Number of objects (and merged trees) that may point into the tree */
+    parse_tree       *cm_pt;   /* The merged tree */
+    struct cg_merged *cm_prev; /* Merged tree which this is derived from, if any */
+};
+
+/*! Add a reference to a merged tree
+ *
+ * @param[in]  cm   Merged tree, or NULL
+ * @retval     cm   Same as input
+ */
+struct cg_merged *
+co_merged_ref(struct cg_merged *cm)
+{
+    if (cm)
+        cm->cm_refs++;
+    return cm;
+}
+
+/*! Remove a reference to a merged tree, free it with the last one
+ *
+ * @param[in]  cm   Merged tree, or NULL
+ */
+void
+co_merged_unref(struct cg_merged *cm)
+{
+    struct cg_merged *prev;
+
+    while (cm && --cm->cm_refs == 0){
+        prev = cm->cm_prev;
+        if (cm->cm_pt)
+            pt_free(cm->cm_pt, 1);
+        free(cm);
+        cm = prev;
+    }
+}
+
+/*! Apply filter of an expanded object on a copy of its children
+ *
+ * @param[in]  pt         Copied tree
+ * @param[in]  cvv_filter Labels of objects to remove
+ * @retval     0          OK
+ * @retval    -1          Error
+ */
+static int
+pt_filter_apply(parse_tree *pt,
+                cvec       *cvv_filter)
+{
+    int     retval = -1;
+    int     i;
+    cg_obj *co;
+    cg_var *cv;
+    cg_var *cv1;
+    char   *name;
+    char   *label = NULL;
+
+    i = 0;
+    while (i < pt_len_get(pt)){
+        if ((co = pt_vec_i_get(pt, i)) == NULL){
+            i++;
+            continue;
+        }
+        cv = NULL;
+        while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
+            if ((name = cv_name_get(cv)) != NULL && co_isfilter(cvv_filter, name))
+                break;
+        if (cv != NULL && co->co_type != CO_REFERENCE){
+            if (pt_vec_i_delete(pt, i, 1) < 0)
+                goto done;
+            continue;
+        }
+        if (co->co_type == CO_REFERENCE){ /* Pass on to the referenced tree */
+            if (co->co_cvec == NULL && (co->co_cvec = cvec_new(0)) == NULL)
+                goto done;
+            cv = NULL;
+            while ((cv = cvec_each(cvv_filter, cv)) != NULL){
+                if ((name = cv_name_get(cv)) == NULL)
+                    continue;
+                if ((label = malloc(strlen(CLIGEN_REF_REMOVE) + strlen(name) + 1)) == NULL)
+                    goto done;
+                strcpy(label, CLIGEN_REF_REMOVE);
+                strcat(label, name);
+                if ((cv1 = cvec_add(co->co_cvec, CGV_BOOL)) == NULL)
+                    goto done;
+                if (cv_name_set(cv1, label) == NULL)
+                    goto done;
+                free(label);
+                label = NULL;
+            }
+        }
+        if (co_pt_get(co) && pt_filter_apply(co_pt_get(co), cvv_filter) < 0)
+            goto done;
+        i++;
+    }
+    retval = 0;
+ done:
+    if (label)
+        free(label);
+    return retval;
+}
+
+/*! Make a copy of the children of an expanded object as they appear through it
+ *
+ * @param[in]  co      Expanded object
+ * @retval     pt      Malloced parse-tree, free with pt_free
+ * @retval     NULL    Error
+ */
+static parse_tree *
+co_expanded_dup(cg_obj *co)
+{
+    parse_tree *pt;
+    cg_obj     *coo;
+
+    if (co_pt_get(co) == NULL)
+        return pt_new();
+    /* Let parent be an object that remains */
+    if ((coo = co->co_treeref_orig) == NULL)
+        coo = co->co_ref;
+    /* Objects of a merged tree already point to their originals */
+    if ((pt = pt_dup(co_pt_get(co), coo, co->co_merged ? 0x0 : CO_COPY_FLAGS_TREEREF)) == NULL)
+        return NULL;
+    if (co->co_filter && pt_filter_apply(pt, co->co_filter) < 0){
+        pt_free(pt, 1);
+        return NULL;
+    }
+    return pt;
+}
+
+/*! Merge an expanded object into an equal expanded object, without affecting the original objects
+ *
+ * @param[in,out] co0  Expanded object, points to a merged tree on return
+ * @param[in]     co1  Expanded object whose children are merged into co0
+ * @retval        0    OK
+ * @retval       -1    Error
+ */
+int
+co_merge_expanded(cg_obj *co0,
+                  cg_obj *co1)
+{
+    int               retval = -1;
+    parse_tree       *pt0 = NULL;
+    parse_tree       *pt1 = NULL;
+    struct cg_merged *cm;
+
+    if ((co_pt_get(co0) == NULL && co_pt_get(co1) == NULL) ||
+        (co_pt_get(co0) == co_pt_get(co1) && co0->co_filter == NULL && co1->co_filter == NULL)){
+        retval = 0;
+        goto done;
+    }
+    if ((pt0 = co_expanded_dup(co0)) == NULL)
+        goto done;
+    if ((pt1 = co_expanded_dup(co1)) == NULL)
+        goto done;
+    if (cligen_parsetree_merge(pt0, co0->co_treeref_orig?co0->co_treeref_orig:co0->co_ref, pt1) < 0)
+        goto done;
+    if ((cm = malloc(sizeof(*cm))) == NULL)
+        goto done;
+    cm->cm_refs = 1;
+    cm->cm_pt = pt0;
+    cm->cm_prev = co0->co_merged;
+    co0->co_merged = cm;
+    if (co0->co_filter){ /* Already applied */
+        cvec_free(co0->co_filter);
+        co0->co_filter = NULL;
+    }
+    co0->co_ptvec[0] = pt0;
+    pt0 = NULL;
+    retval = 0;
+ done:
+    if (pt0)
+        pt_free(pt0, 1);
+    if (pt1)
+        pt_free(pt1, 1);
+    return retval;
+}
+
 /*! Copy and expand a cligen object.
  *
  * This object could actually give rise to several if it is a variable
@@ -81,13 +263,15 @@
  * Set co_ref to point back to the original.
  * @param[in]  co0      Original cg_obj
  * @param[in]  coparent Parent of original co object (as well as of conp)
+ * @param[in]  merged   Merged tree that co0 is part of, if any
  * @param[out] conp     New "shadow" object
  * @see pt_expand_treeref_one
  */
 static int
-co_expand_sub(cg_obj  *co0,
-              cg_obj  *coparent,
-              cg_obj **conp)
+co_expand_sub(cg_obj           *co0,
+              cg_obj           *coparent,
+              struct cg_merged *merged,
+              cg_obj          **conp)
 {
     int     retval = -1;
     cg_obj *con;
@@ -100,6 +284,7 @@ co_expand_sub(cg_obj  *co0,
     /* Point to same underlying pt */
     con->co_ptvec = NULL;
     con->co_pt_len = 0;
+    con->co_merged = co_merged_ref(co0->co_merged ? co0->co_merged : merged);
     if (co_pt_set(con, co_pt_get(co0)) < 0)
         goto done;
     /* Replace all pointers */
@@ -116,8 +301,10 @@ co_expand_sub(cg_obj  *co0,
         }
     if (co0->co_cvec)
         con->co_cvec = cvec_dup(co0->co_cvec);
-    if (co0->co_filter)
+    if (co0->co_filter){
+        con->co_filter = NULL;
         co_filter_set(con, co0->co_filter);
+    }
     if (co_callback_copy(co0->co_callbacks, &con->co_callbacks) < 0)
         goto done;
     if (co0->co_helpstring)
@@ -325,6 +512,7 @@ co_find_label_filters(cligen_handle h,
  *
  * @param[in]   h          Handle needed to resolve tree-references (\@tree)
  * @param[in]   co0        Reference object, @tree
+ * @param[in]   merged     Merged tree that co0 is part of, if any
  * @param[in]   cvv_filter Add these to expanded nodes co_filter, eg remove them
  * @param[in]   cvt        Tokenized string: vector of tokens
  * @param[in]   ptorig     Original parsetree
@@ -340,6 +528,7 @@ co_find_label_filters(cligen_handle h,
 static int
 co_expand_treeref_copy_shallow(cligen_handle h,
                                cg_obj       *co0,
+                               struct cg_merged *merged,
                                cvec         *cvv_filter,
                                cvec         *cvt,
                                parse_tree   *ptorig,
@@ -380,13 +569,13 @@ co_expand_treeref_copy_shallow(cligen_handle h,
                 if (cvec_append_var(cvv, cv) == NULL)
                     goto done;
             }
-            if (co_expand_treeref_copy_shallow(h, co0, cvv, cvt, ptref2, ptnew) < 0)
+            if (co_expand_treeref_copy_shallow(h, co0, merged, cvv, cvt, ptref2, ptnew) < 0)
                 goto done;
             cvec_free(cvv);
             cvv = NULL;
         }
         else{
-            if (co_expand_sub(cot, coparent, &con) < 0)
+            if (co_expand_sub(cot, coparent, merged, &con) < 0)
                 goto done;
             /* Backpointer to the "ref" node - overrides co_expand_sub
              * This actually seems to be to the treehead?
@@ -397,7 +586,7 @@ co_expand_treeref_copy_shallow(cligen_handle h,
             if (cvec_len(cvv_filter) &&
                 co_filter_set(con, cvv_filter) == NULL)
                 goto done;
-            if (co_insert(ptnew, con) == NULL)
+            if (co_insert1(ptnew, con, 0) == NULL)
                 goto done;
             con = NULL;
         }
@@ -503,6 +692,7 @@ cligen_escape_do(const char *s0)
  * @param[in]  h          CLIgen handle
  * @param[in]  co         CLIgen object
  * @param[in]  co_parent  CLIgen object parent
+ * @param[in]  merged     Merged tree that co is part of, if any
  * @param[out] cvv_var    Cligen variable vector containing vars/values pair for completion
  * @param[in]  cvv_filter Add these to expanded nodes co_filter, eg remove them
  * @param[in]  callbacks  Callback structure of expanded treeref
@@ -517,6 +707,7 @@ static int
 pt_expand_fn(cligen_handle h,
              cg_obj       *co,
              cg_obj       *co_parent,
+             struct cg_merged *merged,
              cvec         *cvv_var,
              cvec         *cvv_filter,
              cg_callback  *callbacks,
@@ -569,7 +760,7 @@ pt_expand_fn(cligen_handle h,
             helpstr = NULL;
         i++;
         con = NULL;
-        if (co_expand_sub(co, co_parent, &con) < 0)
+        if (co_expand_sub(co, co_parent, merged, &con) < 0)
             goto done;
         if (transient && con->co_ref){
             con->co_ref = co->co_ref;
@@ -607,14 +798,18 @@ pt_expand_fn(cligen_handle h,
 /*! Expand a choice rule with actual commands
  *
  * @param[in]  co         Original cligen object (to expand into ptn)
+ * @param[in]  merged     Merged tree that co is part of, if any
  * @param[in]  cvv_filter Add these to expanded nodes co_filter, eg remove them
+ * @param[in]  transient  co may be "transient" if so use co->co_ref as new co_ref,...
  * @param[out] ptn        New parse-tree initially an empty pointer, its value is returned.
  * @retval     0          OK
  * @retval    -1          Error
  */
 static int
 pt_expand_choice(cg_obj       *co,
+                 struct cg_merged *merged,
                  cvec         *cvv_filter,
+                 int           transient,
                  parse_tree   *ptn)
 {
     int     retval = -1;
@@ -627,8 +822,10 @@ pt_expand_choice(cg_obj       *co,
     if (co->co_choice){
         cp = ccmd = strdup(co->co_choice);
         while ((c = strsep(&ccmd, ",|")) != NULL){
-            if (co_expand_sub(co, NULL, &con) < 0)
+            if (co_expand_sub(co, NULL, merged, &con) < 0)
                 goto done;
+            if (transient && con->co_ref)
+                con->co_ref = co->co_ref;
             if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
                 goto done;
             if (cvv_filter && co_filter_set(con, cvv_filter) == NULL)
@@ -673,6 +870,7 @@ co_isfilter(cvec *cvv_filter,
  *
  * @param[in]     h          Cligen handle
  * @param[in]     co         Original cligen object, new copy into ptn
+ * @param[in]     merged     Merged tree that co is part of, if any
  * @param[in]     hide       If 0, include hidden commands. If 1, do not include hidden commands.
  * @param[in]     expandvar  Set if VARS should be expanded, eg ? <tab>
  * @param[in]     cvv_var    Cligen variable vector containing vars/values pair for completion
@@ -686,6 +884,7 @@ co_isfilter(cvec *cvv_filter,
 static int
 pt_expand1_co(cligen_handle h,
               cg_obj       *co,
+              struct cg_merged *merged,
               int           hide,
               int           expandvar,
               cvec         *cvv_var,
@@ -718,7 +917,7 @@ pt_expand1_co(cligen_handle h,
      * of the variable
      */
     if (co->co_type == CO_VARIABLE && co->co_choice != NULL){
-        if (pt_expand_choice(co, cvv_filter, ptn) < 0) // XXX filter
+        if (pt_expand_choice(co, merged, cvv_filter, transient, ptn) < 0) // XXX filter
             goto done;
     }
     /* Expand variable - call expand callback and insert expanded
@@ -735,7 +934,7 @@ pt_expand1_co(cligen_handle h,
          * this iteration and if not add it?
          */
         if (expandvar){
-            if (pt_expand_fn(h, co, NULL,
+            if (pt_expand_fn(h, co, NULL, merged,
                              cvv_var,
                              cvv_filter,
                              callbacks,
@@ -747,7 +946,7 @@ pt_expand1_co(cligen_handle h,
     else{
         /* Copy original cg_obj to shadow list*/
         con = NULL;
-        if (co_expand_sub(co, NULL, &con) < 0)
+        if (co_expand_sub(co, NULL, merged, &con) < 0)
             goto done;
         /* con may be deleted in the call and need to be replaced */
         if ((con = co_insert1(ptn, con, 0)) == NULL)
@@ -787,6 +986,7 @@ pt_local_pipe(parse_tree *pt)
  *
  * @param[in]     h          Cligen handle
  * @param[in]     co         Tree reference cligen object
+ * @param[in]     merged     Merged tree that co is part of, if any
  * @param[in]     cvt        Tokenized string: vector of tokens
  * @param[in]     cvv_var    Cligen variable vector containing vars/values pair for completion
  * @param[in]     cvv_filter Add these to expanded nodes co_filter, eg remove them
@@ -800,6 +1000,7 @@ pt_local_pipe(parse_tree *pt)
 static int
 pt_expand_reference(cligen_handle h,
                     cg_obj       *coref,
+                    struct cg_merged *merged,
                     cvec         *cvt,
                     cvec         *cvv_var,
                     cvec         *cvv_filter,
@@ -826,14 +1027,14 @@ pt_expand_reference(cligen_handle h,
     if (co_find_label_filters(h, coref, cvv2) < 0)
         goto done;
     /* Expand ptref to pttmp */
-    if (co_expand_treeref_copy_shallow(h, coref, cvv2, cvv_var, ptref, pttmp) < 0)
+    if (co_expand_treeref_copy_shallow(h, coref, merged, cvv2, cvv_var, ptref, pttmp) < 0)
         goto done;
     /* Copy the expand tree to the final tree.
      */
     for (i=0; i<pt_len_get(pttmp); i++){
         if ((cot = pt_vec_i_get(pttmp, i)) == NULL)
             continue;
-        if (pt_expand1_co(h, cot, hide, expandvar,
+        if (pt_expand1_co(h, cot, merged, hide, expandvar,
                           cvv_var,
                           cvv_filter,
                           callbacks,
@@ -876,10 +1077,9 @@ pt_expand_reference(cligen_handle h,
  * @retval        0         OK
  * @retval       -1         Error
  * @see pt_expand_cleanup
- * @note there is a cornercase that has to do with multiple non-disjoint tree references:
- *       If tree t1 and t2 have sub-co:s in common, they may destructively modify each other,
- *       eg @t1:{a;b} @t2:{b;c}
- *       then the common sub-elements of t1 can have extra elements of t2: @t1:{a;b;c}
+ * @note multiple non-disjoint tree references:
+ *       If tree t1 and t2 have sub-co:s in common, eg @t1:{a;b} @t2:{b;c}, the common sub-elements are
+ *       merged in a temporary tree, see co_merge_expanded
  */
 int
 pt_expand(cligen_handle h,
@@ -898,6 +1098,7 @@ pt_expand(cligen_handle h,
     int         i;
     cvec       *cvv_filter = NULL;
     cg_obj     *cop;
+    struct cg_merged *merged;
 
     if (pt_len_get(ptn) != 0){
         errno = EINVAL;
@@ -905,6 +1106,7 @@ pt_expand(cligen_handle h,
     }
     /* Maybe require */
     cvv_filter = co0?co0->co_filter:NULL;
+    merged = co0?co0->co_merged:NULL;
     pt_sets_set(ptn, pt_sets_get(pt));
     if (pt_len_get(pt) == 0)
         goto ok;
@@ -915,7 +1117,7 @@ pt_expand(cligen_handle h,
         }
         else {
             if (co->co_type == CO_REFERENCE){
-                if (pt_expand_reference(h, co, cvt, cvv_var,
+                if (pt_expand_reference(h, co, merged, cvt, cvv_var,
                                         cvv_filter,
                                         hide, expandvar,
                                         callbacks,
@@ -923,7 +1125,7 @@ pt_expand(cligen_handle h,
                     goto done;
             }
             else{
-                if (pt_expand1_co(h, co, hide, expandvar,
+                if (pt_expand1_co(h, co, merged, hide, expandvar,
                                   cvv_var,
                                   cvv_filter,
                                   callbacks,
@@ -942,7 +1144,7 @@ pt_expand(cligen_handle h,
                         if (co_callback_copy(co0->co_callbacks, &co_pipe->co_callbacks) < 0)
                             goto done;
                     }
-                    if (pt_expand_reference(h, co_pipe, cvt, cvv_var,
+                    if (pt_expand_reference(h, co_pipe, merged, cvt, cvv_var,
                                             cvv_filter,
                                             hide, expandvar,
                                             callbacks,
diff --git a/cligen_expand.h b/cligen_expand.h
index 48b3256..e512303 100644
--- a/cligen_expand.h
+++ b/cligen_expand.h
@@ -66,6 +66,9 @@ char *pt_local_pipe(parse_tree *pt);
 int   pt_expand(cligen_handle h, cg_obj *co, parse_tree *pt, cvec *cvt, cvec *cvv,
               int hide, int expandvar, cg_callback *callbacks,
               cg_obj *co_pipe, parse_tree *ptn);
+struct cg_merged *co_merged_ref(struct cg_merged *cm);
+void  co_merged_unref(struct cg_merged *cm);
+int   co_merge_expanded(cg_obj *co0, cg_obj *co1);
 int   pt_expand_cleanup(cligen_handle h, parse_tree *pt);
 int   reference_path_match(cg_obj *co1, parse_tree *pt0, cg_obj **co0p);
 
diff --git a/cligen_object.c b/cligen_object.c
index 13569c9..2d89935 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -68,6 +68,7 @@
 #include "cligen_parse.h"
 #include "cligen_handle.h"
 #include "cligen_getline.h"
+#include "cligen_expand.h"
 
 /* Stats: nr of created cligen objects */
 uint64_t _co_created = 0;
@@ -353,7 +354,17 @@ cvec *
 co_filter_set(cg_obj *co,
               cvec   *cvv)
 {
-    co->co_filter = cvec_dup(cvv);
+    cg_var *cv = NULL;
+    char   *name;
+
+    if (co->co_filter == NULL)
+        return (co->co_filter = cvec_dup(cvv));
+    while ((cv = cvec_each(cvv, cv)) != NULL){
+        if ((name = cv_name_get(cv)) != NULL && cvec_find(co->co_filter, name) != NULL)
+            continue;
+        if (cvec_append_var(co->co_filter, cv) == NULL)
+            return NULL;
+    }
     return co->co_filter;
 }
 
@@ -663,6 +674,7 @@ co_copy(cg_obj  *co,
     con->co_ptvec = NULL;
     con->co_pt_len = 0;
     con->co_ref = NULL;
+    con->co_merged = NULL;
     /* If called from pt_expand_treeref: the copy (of a tree instance) points to the original tree
      */
     if (flags & CO_COPY_FLAGS_TREEREF)
@@ -680,8 +692,10 @@ co_copy(cg_obj  *co,
         goto done;
     if (co->co_cvec)
         con->co_cvec = cvec_dup(co->co_cvec);
-    if (co->co_filter)
+    if (co->co_filter){
+        con->co_filter = NULL;
         co_filter_set(con, co->co_filter);
+    }
     if ((pt = co_pt_get(co)) != NULL){
         if ((ptn = pt_dup(pt, con, flags)) == NULL) /* sets a new pt under con */
             goto done;
@@ -764,6 +778,7 @@ co_copy1(cg_obj  *co,
     memcpy(con, co, size);
     con->co_ptvec = NULL;
     con->co_pt_len = 0;
+    con->co_merged = recursive ? NULL : co_merged_ref(co->co_merged);
 
     /* If called from pt_expand_treeref: the copy (of a tree instance) points to the original tree
      */
@@ -782,8 +797,10 @@ co_copy1(cg_obj  *co,
         goto done;
     if (co->co_cvec)
         con->co_cvec = cvec_dup(co->co_cvec);
-    if (co->co_filter)
+    if (co->co_filter){
+        con->co_filter = NULL;
         co_filter_set(con, co->co_filter);
+    }
     if ((pt = co_pt_get(co)) != NULL){
         /* Here this function differs from co_copy */
         if (recursive){
@@ -1060,6 +1077,8 @@ co_free(cg_obj *co,
     }
     if (co->co_ptvec != NULL)
         free(co->co_ptvec);
+    if (co->co_merged)
+        co_merged_unref(co->co_merged);
     free(co);
     _co_count--;
     return 0;
@@ -1171,7 +1190,12 @@ co_insert1(parse_tree *pt,
         if (co1 == NULL && co2 == NULL)
             return NULL;
         if (co1 && co2 && co_eq(co1, co2)==0){
-            cligen_parsetree_merge(co_pt_get(co2), co2, co_pt_get(co1));
+            if (recursive){
+                if (cligen_parsetree_merge(co_pt_get(co2), co2, co_pt_get(co1)) < 0)
+                    return NULL;
+            }
+            else if (co_merge_expanded(co2, co1) < 0)
+                return NULL;
             co_free(co1, recursive);
             return co2;
         }
diff --git a/cligen_object.h b/cligen_object.h
index 3f0ef09..6856c5f 100644
--- a/cligen_object.h
+++ b/cligen_object.h
@@ -160,6 +160,8 @@ struct cg_obj_common{
                                        */
     struct cg_obj      *coc_treeref_orig; /* Ref to original (if this is a tree reference)
                                           * Only set in co_copy */
+    struct cg_merged   *coc_merged;    /* Temporary children merged from several objects, only in
+                                        * expanded objects, see co_merge_expanded */
 };
 
 /*! cligen gen object is a parse-tree node. A cg_obj is either a command, a variable or a tree reference
@@ -206,6 +208,7 @@ typedef struct cg_obj cg_obj;
 #define co_flags         co_common.coc_flags
 #define co_ref           co_common.coc_ref
 #define co_treeref_orig  co_common.coc_treeref_orig
+#define co_merged        co_common.coc_merged
 
 /* Access fields for code traversing parse tree */
 #define co_vtype         u.cou_var.cgs_vtype
-- 
2.43.0


From a64467c0d249336ed33d22cc27d5a67dfc53471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 34/95] fix: arguments of a reference's callback were dropped
 when the local callback has none

---
 cligen_match.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_match.c b/cligen_match.c
index e4d58dc..f32418e 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -730,9 +730,13 @@ treeref_merge_co(cg_obj      *co,
                 goto done;
         }
         if (cc_ref->cc_cvec){
+            if (cc->cc_cvec == NULL &&
+                (cc->cc_cvec = cvec_new(0)) == NULL)
+                goto done;
             cv = NULL;
             while ((cv = cvec_each(cc_ref->cc_cvec, cv)) != NULL)
-                cvec_append_var(cc->cc_cvec, cv);
+                if (cvec_append_var(cc->cc_cvec, cv) == NULL)
+                    goto done;
         }
     }
     else { /* local is PIPE function, append regular function last */
-- 
2.43.0


From 0fdd50b1d24a934e6f179cd997f313f43c76e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 35/95] fix: callback of a reference at the top of a referenced
 tree was not called

---
 cligen_expand.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index a447a02..37d9b0f 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -569,7 +569,10 @@ co_expand_treeref_copy_shallow(cligen_handle h,
                 if (cvec_append_var(cvv, cv) == NULL)
                     goto done;
             }
-            if (co_expand_treeref_copy_shallow(h, co0, merged, cvv, cvt, ptref2, ptnew) < 0)
+            /* Callbacks are given by the outermost reference that has any */
+            if (co_expand_treeref_copy_shallow(h,
+                                               co0->co_callbacks==NULL && cot->co_callbacks ? cot : co0,
+                                               merged, cvv, cvt, ptref2, ptnew) < 0)
                 goto done;
             cvec_free(cvv);
             cvv = NULL;
-- 
2.43.0


From afa82ccebe68f73210e207ca4d19b9f7c3ef701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 36/95] fix: object removed by the filter of a reference at the
 top of a referenced tree remained if another has the same name

---
 cligen_expand.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cligen_expand.c b/cligen_expand.c
index 37d9b0f..1f7a4af 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -578,6 +578,13 @@ co_expand_treeref_copy_shallow(cligen_handle h,
             cvv = NULL;
         }
         else{
+            /* Skip filtered objects here, they may otherwise be merged with others */
+            cv = NULL;
+            while ((cv = cvec_each(cot->co_cvec, cv)) != NULL)
+                if (cv_name_get(cv) && co_isfilter(cvv_filter, cv_name_get(cv)))
+                    break;
+            if (cv != NULL)
+                continue;
             if (co_expand_sub(cot, coparent, merged, &con) < 0)
                 goto done;
             /* Backpointer to the "ref" node - overrides co_expand_sub
-- 
2.43.0


From 14a87a1af4d2e22c8db7a3a41eef07a6fa3dc909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 37/95] fix: callbacks of references were lost or mixed up
 where their trees overlap

---
 cligen_expand.c | 77 +++++++++++++++++++++++++++++++++++++++++++++++--
 cligen_match.c  |  2 +-
 cligen_match.h  |  1 +
 3 files changed, 76 insertions(+), 4 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 1f7a4af..9588d6a 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -71,6 +71,8 @@
 #include "cligen_object.h"
 #include "cligen_handle.h"
 #include "cligen_print.h"
+#include "cligen_result.h"
+#include "cligen_match.h"
 #include "cligen_expand.h"
 #include "cligen_syntax.h"
 
@@ -181,6 +183,63 @@ pt_filter_apply(parse_tree *pt,
     return retval;
 }
 
+/*! Apply callbacks of a tree reference on a copy of the objects reached through it
+ *
+ * @param[in]  pt      Copied tree
+ * @param[in]  cc      Callbacks of the reference
+ * @retval     0       OK
+ * @retval    -1       Error
+ */
+static int
+pt_callbacks_apply(parse_tree  *pt,
+                   cg_callback *cc)
+{
+    int     i;
+    cg_obj *co;
+
+    for (i=0; i<pt_len_get(pt); i++){
+        if ((co = pt_vec_i_get(pt, i)) == NULL || co->co_type == CO_EMPTY)
+            continue;
+        if (co->co_type == CO_REFERENCE){ /* Callbacks of inner references have precedence */
+            if (co->co_callbacks == NULL &&
+                co_callback_copy(cc, &co->co_callbacks) < 0)
+                return -1;
+            continue;
+        }
+        if (treeref_merge_co(co, cc) < 0)
+            return -1;
+        if (co_pt_get(co) && pt_callbacks_apply(co_pt_get(co), cc) < 0)
+            return -1;
+    }
+    return 0;
+}
+
+/*! Callbacks of the tree reference an expanded object is the top of, to apply when it is merged
+ *
+ * @param[in]  co      Expanded object
+ * @retval     cc      Callbacks
+ * @retval     NULL    None
+ * @see match_pattern_sets  where they are applied to objects that are not merged
+ */
+static cg_callback *
+co_expanded_callbacks(cg_obj *co)
+{
+    cg_obj      *coref = co;
+    cg_callback *cc;
+
+    if (!co_flags_get(co, CO_FLAGS_TOPOFTREE))
+        return NULL;
+    while (coref->co_ref)
+        coref = coref->co_ref;
+    if (coref->co_type != CO_REFERENCE ||
+        coref->co_command[0] == '|' ||
+        (cc = coref->co_callbacks) == NULL)
+        return NULL;
+    if (cc->cc_fn_str && strcmp(cc->cc_fn_str, "prepend_me") == 0)
+        return NULL;
+    return cc;
+}
+
 /*! Make a copy of the children of an expanded object as they appear through it
  *
  * @param[in]  co      Expanded object
@@ -190,8 +249,9 @@ pt_filter_apply(parse_tree *pt,
 static parse_tree *
 co_expanded_dup(cg_obj *co)
 {
-    parse_tree *pt;
-    cg_obj     *coo;
+    parse_tree  *pt;
+    cg_obj      *coo;
+    cg_callback *cc;
 
     if (co_pt_get(co) == NULL)
         return pt_new();
@@ -205,6 +265,11 @@ co_expanded_dup(cg_obj *co)
         pt_free(pt, 1);
         return NULL;
     }
+    if ((cc = co_expanded_callbacks(co)) != NULL &&
+        (treeref_merge_co(co, cc) < 0 || pt_callbacks_apply(pt, cc) < 0)){
+        pt_free(pt, 1);
+        return NULL;
+    }
     return pt;
 }
 
@@ -225,7 +290,8 @@ co_merge_expanded(cg_obj *co0,
     struct cg_merged *cm;
 
     if ((co_pt_get(co0) == NULL && co_pt_get(co1) == NULL) ||
-        (co_pt_get(co0) == co_pt_get(co1) && co0->co_filter == NULL && co1->co_filter == NULL)){
+        (co_pt_get(co0) == co_pt_get(co1) && co0->co_filter == NULL && co1->co_filter == NULL &&
+         co_expanded_callbacks(co0) == co_expanded_callbacks(co1))){
         retval = 0;
         goto done;
     }
@@ -247,6 +313,11 @@ co_merge_expanded(cg_obj *co0,
     }
     co0->co_ptvec[0] = pt0;
     pt0 = NULL;
+    if (co_expanded_callbacks(co0)) /* Already applied */
+        co_flags_reset(co0, CO_FLAGS_TOPOFTREE);
+    if (co0->co_callbacks == NULL && co1->co_callbacks != NULL &&
+        co_callback_copy(co1->co_callbacks, &co0->co_callbacks) < 0)
+        goto done;
     retval = 0;
  done:
     if (pt0)
diff --git a/cligen_match.c b/cligen_match.c
index f32418e..a374fb2 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -697,7 +697,7 @@ match_pattern_sets_local(cligen_handle  h,
  * @retval    -1    Error: break and return
  * @note does not support multiple ccref or co callbacks
  */
-static int
+int
 treeref_merge_co(cg_obj      *co,
                  cg_callback *cc_ref)
 {
diff --git a/cligen_match.h b/cligen_match.h
index 400f533..d305e0a 100644
--- a/cligen_match.h
+++ b/cligen_match.h
@@ -56,6 +56,7 @@ int match_pattern_exact(cligen_handle h, cvec *cvt, cvec *cvr,
                         cg_obj       **match_obj,
                         cligen_result *result,
                         char         **reasonp);
+int treeref_merge_co(cg_obj *co, cg_callback *cc_ref);
 int cligen_cvv_levels(cvec *cvv);
 int match_complete(cligen_handle h, parse_tree *pt,
                    char **stringp, size_t *slen, cvec *cvec);
-- 
2.43.0


From b33baf8c3589d399d10ff90919524ece01e06bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 38/95] fix: object removed by the filter of an outer reference
 remained if an inner reference has another of the same name

---
 cligen_expand.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cligen_expand.c b/cligen_expand.c
index 9588d6a..9a26982 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -1095,6 +1095,7 @@ pt_expand_reference(cligen_handle h,
     cvec       *cvv2 = NULL;
     parse_tree *pttmp = NULL;
     cg_obj     *cot;
+    cg_var     *cv;
     int         i;
 
     ptref = NULL;
@@ -1107,6 +1108,14 @@ pt_expand_reference(cligen_handle h,
         goto done;
     if (co_find_label_filters(h, coref, cvv2) < 0)
         goto done;
+    /* Filters from above apply as well: remove objects before they may be merged with others */
+    cv = NULL;
+    while ((cv = cvec_each(cvv_filter, cv)) != NULL) {
+        if (cv_name_get(cv) && cvec_find(cvv2, cv_name_get(cv)) != NULL)
+            continue;
+        if (cvec_append_var(cvv2, cv) == NULL)
+            goto done;
+    }
     /* Expand ptref to pttmp */
     if (co_expand_treeref_copy_shallow(h, coref, merged, cvv2, cvv_var, ptref, pttmp) < 0)
         goto done;
-- 
2.43.0


From 20fb241f235d4d4b1b0603f7929f10d9e99cc959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:45 +0000
Subject: [PATCH 39/95] fix: object merged from several references took the
 callbacks of the last one in addition

---
 cligen_expand.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 9a26982..ebf1eec 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -1029,15 +1029,18 @@ pt_expand1_co(cligen_handle h,
         con = NULL;
         if (co_expand_sub(co, NULL, merged, &con) < 0)
             goto done;
-        /* con may be deleted in the call and need to be replaced */
-        if ((con = co_insert1(ptn, con, 0)) == NULL)
-            goto done;
+        /* Set before insert, since con may be merged with an object from somewhere else */
         if (transient && con->co_ref){
             con->co_ref = co->co_ref;
         }
         if (cvv_filter && cvec_len(cvv_filter))
-            if (co_filter_set(con, cvv_filter) == NULL)
+            if (co_filter_set(con, cvv_filter) == NULL){
+                co_free(con, 0);
                 goto done;
+            }
+        /* con may be deleted in the call */
+        if (co_insert1(ptn, con, 0) == NULL)
+            goto done;
     }
  ok:
     retval = 0;
-- 
2.43.0


From fc3aecec26b9d58284b063f1756b2a0a913d46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 40/95] fix: incremental search interrupted by end of input was
 still on when the next line was read

---
 cligen_getline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 5ffbf1c..76a7b86 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -596,6 +596,7 @@ gl_getline(cligen_handle h,
 #endif
 
     gl_init1();
+    gl_search_mode = 0; /* A search may have been interrupted by end of input */
     gl_prompt = (cligen_prompt(h))? cligen_prompt(h) : "";
     cligen_buf(h)[0] = 0;
     if (gl_in_hook)
-- 
2.43.0


From 4212c955743b0f32585a29b6c89569d86673f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 41/95] fix: memory was leaked when a specification was
 rejected

---
 cligen_parse.y  | 88 +++++++++++++++++++++++++++++++++++++------------
 cligen_syntax.c | 20 ++++++-----
 2 files changed, 79 insertions(+), 29 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 2a4abce..393923f 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -66,6 +66,10 @@
 %type <string> helpstring1
 %type <intval> preline
 
+/* Free strings that are discarded on error. The value of HELPSTR is not malloced */
+%destructor { free($$); } <string>
+%destructor { } HELPSTR
+
 %lex-param     {void *_cy} /* Add this argument to parse() and lex() function */
 %parse-param   {void *_cy}
 
@@ -423,6 +427,8 @@ static int
 expand_fn(cligen_yacc *cy,
           char        *fn)
 {
+    if (cy->cy_var->co_expand_fn_str)
+        free(cy->cy_var->co_expand_fn_str);
     cy->cy_var->co_expand_fn_str = fn;
     return 0;
 }
@@ -431,6 +437,8 @@ static int
 cg_translate(cligen_yacc *cy,
              char        *fn)
 {
+    if (cy->cy_var->co_translate_fn_str)
+        free(cy->cy_var->co_translate_fn_str);
     cy->cy_var->co_translate_fn_str = fn;
     return 0;
 }
@@ -448,6 +456,8 @@ cg_preference(cligen_yacc *cy,
     }
     if (parse_uint16(pref, &yv->co_preference, &reason) != 1){
         cligen_parseerror1(cy, reason);
+        if (reason)
+            free(reason);
         return -1;
     }
     return 0;
@@ -585,8 +595,10 @@ cgy_var_post(cligen_yacc *cy)
             if (co_copy(coy, coparent, 0x0, &coc) < 0) /* duplicate coy to coc */
                 return -1;
         }
-        else
+        else{
             coc = coy; /* Dont copy if last in list */
+            cy->cy_var = NULL; /* consumed */
+        }
         co_up_set(coc, coparent);
         if ((co = co_insert(co_pt_get(coparent), coc)) == NULL) /* coc may be deleted */
             return -1;
@@ -707,9 +719,10 @@ cgy_helpstring(cligen_yacc *cy,
             goto done;
         }
     }
-    free(helpstr);
     retval = 0;
  done:
+    if (helpstr)
+        free(helpstr);
     return retval;
  }
 
@@ -1241,9 +1254,20 @@ cgy_exit(cligen_yacc *cy)
     if (debug)
         fprintf(stderr, "%s\n", __FUNCTION__);
 
-    cy->cy_var = NULL;
+    /* Remains of statements that were not completed */
+    if (cy->cy_var){
+        co_free(cy->cy_var, 1);
+        cy->cy_var = NULL;
+    }
+    if (cy->cy_callbacks)
+        co_callbacks_free(&cy->cy_callbacks);
+    if (cy->cy_cvec){
+        cvec_free(cy->cy_cvec);
+        cy->cy_cvec = NULL;
+    }
     cgy_list_delete(&cy->cy_list);
-    if((cs = cy->cy_stack) != NULL){
+    while ((cs = cy->cy_stack) != NULL){
+        cy->cy_stack = cs->cs_next;
         delete_stack_element(cs);
 #if 0
         fprintf(stderr, "%s:%d: error: lacking () or [] at or before: '%s'\n",
@@ -1328,7 +1352,8 @@ flag        : NAME               { _PARSE_DEBUG("flag->NAME");
             ;
 
 callback    : NAME               { _PARSE_DEBUG("callback->NAME ( arglist )");
-                                   if (cgy_callback(_cy, $1) < 0) _YYERROR("callback");}
+                                   if (cgy_callback(_cy, $1) < 0) _YYERROR("callback");
+                                   $1 = NULL; /* consumed */ }
               '(' arglist ')'
             ;
 
@@ -1341,9 +1366,10 @@ arglist1    : arglist1 ',' arg
             ;
 
 arg         : typecast arg1 {
-                    if ($2 && cgy_callback_arg(_cy, $1, $2) < 0) _YYERROR("arg");
+                    int ret = $2 ? cgy_callback_arg(_cy, $1, $2) : 0;
                     if ($1 != NULL) free($1);
                     if ($2 != NULL) free($2);
+                    if (ret < 0) _YYERROR("arg");
               }
             ;
 
@@ -1417,21 +1443,29 @@ helpstring1 : helpstring1 HELPSTR
             ;
 
 cmd         : NAME           { _PARSE_DEBUG("cmd->NAME");
-                               if (cgy_cmd(_cy, $1) < 0) _YYERROR("cmd"); free($1); }
+                               int ret = cgy_cmd(_cy, $1); free($1);
+                               if (ret < 0) _YYERROR("cmd"); }
             | '@' NAME       { _PARSE_DEBUG("cmd->@NAME");
-                               if (cgy_reference(_cy, $2, 0) < 0) _YYERROR("cmd"); free($2); }
+                               int ret = cgy_reference(_cy, $2, 0); free($2);
+                               if (ret < 0) _YYERROR("cmd"); }
             | '@' '|' NAME   { _PARSE_DEBUG("cmd->@|NAME");
-                               if (cgy_reference(_cy, $3, 1) < 0) _YYERROR("cmd"); free($3); }
+                               int ret = cgy_reference(_cy, $3, 1); free($3);
+                               if (ret < 0) _YYERROR("cmd"); }
             | '<'            { if ((_CY->cy_var = cgy_var_create(_CY)) == NULL) _YYERROR("cmd"); }
                variable '>'  { if (cgy_var_post(_cy) < 0) _YYERROR("cmd"); }
             ;
 
 variable    : NAME          { if (cgy_var_name_type(_cy, $1, $1)<0) _YYERROR("variable"); }
-            | NAME ':' NAME { if (cgy_var_name_type(_cy, $1, $3)<0) _YYERROR("variable"); free($3); }
-            | NAME  { if (cgy_var_name_type(_cy, $1, $1) < 0) _YYERROR("variable"); }
-              keypairs
-            | NAME ':' NAME  { if (cgy_var_name_type(_cy, $1, $3) < 0) _YYERROR("variable"); free($3); }
+            | NAME ':' NAME { int ret = cgy_var_name_type(_cy, $1, $3); free($3);
+                              if (ret < 0) _YYERROR("variable"); }
+            | NAME  { int ret = cgy_var_name_type(_cy, $1, $1);
+                      $1 = NULL; /* consumed */
+                      if (ret < 0) _YYERROR("variable"); }
               keypairs
+            | NAME ':' NAME { int ret = cgy_var_name_type(_cy, $1, $3);
+                              $1 = NULL; /* consumed */
+                              if (ret < 0) _YYERROR("variable"); }
+              keypairs { free($3); }
             ;
 
 keypairs    : keypair {
@@ -1455,48 +1489,59 @@ keypair     : NAME '(' ')' {
                  expand_fn(_cy, $1); }
             | V_SHOW ':' NAME {
                  _PARSE_DEBUG("keypair->show:name");
+                 if (_CY->cy_var->co_show) free(_CY->cy_var->co_show);
                  _CY->cy_var->co_show = $3;
               }
             | V_SHOW ':' DQ charseq DQ {
                  _PARSE_DEBUG("keypair->show:DQ charseq DQ");
+                 if (_CY->cy_var->co_show) free(_CY->cy_var->co_show);
                  _CY->cy_var->co_show = $4;
               }
             | V_RANGE '[' numdec ':' numdec ']' {
                  _PARSE_DEBUG("keypair->range [<nr>:<nr>]");
-                if (cg_range(_cy, $3, $5) < 0) _YYERROR("keypair"); free($3); free($5);
+                int ret = cg_range(_cy, $3, $5); free($3); free($5);
+                if (ret < 0) _YYERROR("keypair");
               }
             | V_RANGE '[' numdec ']' {
                  _PARSE_DEBUG("keypair->range [<nr>]");
-                 if (cg_range(_cy, NULL, $3) < 0) _YYERROR("keypair"); free($3);
+                 int ret = cg_range(_cy, NULL, $3); free($3);
+                 if (ret < 0) _YYERROR("keypair");
               }
             | V_LENGTH '[' NUMBER ':' NUMBER ']' {
                  _PARSE_DEBUG("keypair->length[number:number]");
-                 if (cg_length(_cy, $3, $5) < 0) _YYERROR("keypair"); free($3); free($5);
+                 int ret = cg_length(_cy, $3, $5); free($3); free($5);
+                if (ret < 0) _YYERROR("keypair");
               }
             | V_LENGTH '[' NUMBER ']' {
                  _PARSE_DEBUG("keypair->length[number]");
-                 if (cg_length(_cy, NULL, $3) < 0) _YYERROR("keypair"); free($3);
+                 int ret = cg_length(_cy, NULL, $3); free($3);
+                 if (ret < 0) _YYERROR("keypair");
               }
             | V_FRACTION_DIGITS ':' NUMBER {
                  _PARSE_DEBUG("keypair->fraction-digits:number");
-                if (cg_dec64_n(_cy, $3) < 0) _YYERROR("keypair"); free($3);
+                int ret = cg_dec64_n(_cy, $3); free($3);
+                if (ret < 0) _YYERROR("keypair");
               }
             | V_CHOICE choices {
                  _PARSE_DEBUG("keypair->choice choices");
+                 if (_CY->cy_var->co_choice) free(_CY->cy_var->co_choice);
                  _CY->cy_var->co_choice = $2;
               }
             | V_KEYWORD ':' NAME {
                  _PARSE_DEBUG("keypair->keyword name");
+                if (_CY->cy_var->co_keyword) free(_CY->cy_var->co_keyword);
                 _CY->cy_var->co_keyword = $3;
                 _CY->cy_var->co_vtype=CGV_STRING;
               }
             | V_REGEXP  ':' DQ charseq DQ {
                  _PARSE_DEBUG("keypair->regexp : DQ charseq DQ");
-                 if (cg_regexp(_cy, $4, 0) < 0) _YYERROR("keypair"); free($4);
+                 int ret = cg_regexp(_cy, $4, 0); free($4);
+                 if (ret < 0) _YYERROR("keypair");
               }
             | V_REGEXP  ':' '!'  DQ charseq DQ {
                  _PARSE_DEBUG("keypair->regexp : ! DQ charseq DQ");
-                 if (cg_regexp(_cy, $5, 1) < 0) _YYERROR("keypair"); free($5);
+                 int ret = cg_regexp(_cy, $5, 1); free($5);
+                 if (ret < 0) _YYERROR("keypair");
               }
             | V_TRANSLATE ':' NAME '(' ')' {
                  _PARSE_DEBUG("keypair->translate : name ()");
@@ -1517,9 +1562,10 @@ exparg     : DQ DQ
            ;
 
 exparg     : typecast arg1 {
-                    if ($2 && cgy_callback_arg(_cy, $1, $2) < 0) _YYERROR("exparg");
+                    int ret = $2 ? cgy_callback_arg(_cy, $1, $2) : 0;
                     if ($1) free($1);
                     if ($2) free($2);
+                    if (ret < 0) _YYERROR("exparg");
               }
            ;
 
diff --git a/cligen_syntax.c b/cligen_syntax.c
index d5c0464..d7f5403 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -144,20 +144,24 @@ clispec_parse_str(cligen_handle h,
         if (cgl_exit(&cy) < 0)
             goto done;
     }
-    if (cvv == NULL) /* Not passed to caller function */
+    retval = 0;
+  done:
+    if (cvv == NULL && cy.cy_globals) /* Not passed to caller function */
         cvec_free(cy.cy_globals);
     /*
      * Remove the fake top level object and remove references to it.
      * This does not work for (other) trees
      */
-    for (i=0; i<pt_len_get(pt); i++){
-        if ((co=pt_vec_i_get(pt, i)) != NULL)
-            co_up_set(co, NULL);
-    }
-    retval = 0;
-  done:
-    if (cot)
+    if (cot){
+        if ((pt = co_pt_get(cot)) != NULL)
+            for (i=0; i<pt_len_get(pt); i++){
+                if ((co=pt_vec_i_get(pt, i)) != NULL)
+                    co_up_set(co, NULL);
+            }
+        if (retval < 0 && ptp == NULL && pt != NULL)
+            pt_free(pt, 1); /* Not added to handle */
         co_free(cot, 0);
+    }
     if (cy.cy_treename)
         free (cy.cy_treename);
     return retval;
-- 
2.43.0


From 24eccf1b09c4ca32aafa95c26df5111b1a59bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 42/95] fix: assignment of an empty string in a specification
 crashed

---
 cligen_parse.y | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 393923f..151ff05 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -1341,10 +1341,13 @@ option      : callback           { _PARSE_DEBUG("option->callback");}
 
 assignment  : NAME '=' DQ charseq DQ
                                  {_PARSE_DEBUG("assignment->\" charseq \"");
-                                  cgy_assignment(_cy, $1,$4);free($1); free($4);}
+                                  int ret = cgy_assignment(_cy, $1, $4);
+                                  free($1); free($4);
+                                  if (ret < 0) _YYERROR("assignment"); }
             | NAME '=' DQ DQ
                                  { _PARSE_DEBUG("assignment->\" \"");
-                                  cgy_assignment(_cy, $1,NULL);free($1);}
+                                  int ret = cgy_assignment(_cy, $1, ""); free($1);
+                                  if (ret < 0) _YYERROR("assignment"); }
             ;
 
 flag        : NAME               { _PARSE_DEBUG("flag->NAME");
-- 
2.43.0


From 5487a3bd94f6859a210612bdb31c60fb177b8863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 43/95] fix: choice starting with a | crashed the parser

---
 cligen_parse.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_parse.y b/cligen_parse.y
index 151ff05..d4485d8 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -743,6 +743,8 @@ cgy_var_choice_append(cligen_yacc *cy,
     int len;
     char *s;
 
+    if (str == NULL) /* Initial "|" */
+        return strdup(app);
     len = strlen(str)+strlen(app) + 2;
     if ((s = realloc(str, len)) == NULL) {
         fprintf(stderr, "%s: realloc: %s\n", __FUNCTION__, strerror(errno));
-- 
2.43.0


From af3ec9612c8ee4bac491ec16965cbdedc58b3a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 44/95] fix: invalid fraction-digits gave an empty error
 message

---
 cligen_parse.y | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index d4485d8..b562c4c 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -1221,8 +1221,10 @@ cg_dec64_n(cligen_yacc *cy,
         fprintf(stderr, "No var obj");
         return -1;
     }
-    if (parse_uint8(fraction_digits, &yv->co_dec64_n, NULL) != 1){
+    if (parse_uint8(fraction_digits, &yv->co_dec64_n, &reason) != 1){
         cligen_parseerror1(cy, reason);
+        if (reason)
+            free(reason);
         return -1;
     }
     return 0;
-- 
2.43.0


From d722f7f92a4416f6faac62a0911a77d728dbec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 45/95] fix: TAB in steps mode did not end in a recursive tree
 with only one continuation

---
 cligen_read.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index b195902..01e0ccd 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -62,6 +62,9 @@
 #define isblank(c) (c==' ')
 #endif /* isblank */
 
+/* Max number of words completed by one TAB in CLIGEN_TABMODE_STEPS */
+#define CLI_TAB_STEPS_MAX 64
+
 #include "cligen_buf.h"
 #include "cligen_cv.h"
 #include "cligen_cvec.h"
@@ -169,6 +172,7 @@ cli_tab_hook(cligen_handle h,
 {
     int           retval = -1;
     int           prev_cursor;
+    int           steps = 0;
     parse_tree   *pt = NULL;     /* Orig */
     parse_tree   *ptn = NULL;    /* Expanded */
     cvec         *cvv = NULL;
@@ -193,7 +197,9 @@ cli_tab_hook(cligen_handle h,
         prev_cursor = *cursorp;
         if (cli_complete(h, cursorp, ptn, cvv) < 0) /* XXX expand-cleanup must be done here before show commands */
             goto done;
-    } while (cligen_tabmode(h)&CLIGEN_TABMODE_STEPS && prev_cursor != *cursorp);
+        /* The limit is for a recursive tree with a single continuation, which has no last step */
+    } while (cligen_tabmode(h)&CLIGEN_TABMODE_STEPS && prev_cursor != *cursorp &&
+             ++steps < CLI_TAB_STEPS_MAX);
     if (cvv){
         cvec_free(cvv);
         if ((cvv = cvec_start(cligen_buf(h))) == NULL)
-- 
2.43.0


From 1008900f601141e370aecf5c4cd9c29f920709ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 46/95] fix: size of line buffers was shared between
 interpreters: overflow with several handles

---
 cligen_handle.c          | 40 ++++++++++++++++++++--------------------
 cligen_handle_internal.h |  2 ++
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/cligen_handle.c b/cligen_handle.c
index c83e41e..db78021 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -1019,8 +1019,6 @@ cligen_regex_xsd_set(cligen_handle h,
 }
 
 
-static int _getline_bufsize = GETLINE_BUFLEN_DEFAULT;
-static int _getline_killbufsize = GETLINE_BUFLEN_DEFAULT;
 
 /*!
  * @param[in] h       CLIgen handle
@@ -1052,7 +1050,7 @@ cligen_killbuf(cligen_handle h)
 int
 cligen_buf_size(cligen_handle h)
 {
-    return _getline_bufsize;
+    return handle(h)->ch_bufsize;
 }
 
 /*! Return length cligen kill buffer
@@ -1062,7 +1060,7 @@ cligen_buf_size(cligen_handle h)
 int
 cligen_killbuf_size(cligen_handle h)
 {
-    return _getline_killbufsize;
+    return handle(h)->ch_killbufsize;
 }
 
 /*!
@@ -1073,16 +1071,18 @@ cligen_buf_init(cligen_handle h)
 {
     struct cligen_handle *ch = handle(h);
 
-    if ((ch->ch_buf = malloc(_getline_bufsize)) == NULL){
+    ch->ch_bufsize = GETLINE_BUFLEN_DEFAULT;
+    ch->ch_killbufsize = GETLINE_BUFLEN_DEFAULT;
+    if ((ch->ch_buf = malloc(ch->ch_bufsize)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf, 0, _getline_bufsize);
-    if ((ch->ch_killbuf = malloc(_getline_killbufsize)) == NULL){
+    memset(ch->ch_buf, 0, ch->ch_bufsize);
+    if ((ch->ch_killbuf = malloc(ch->ch_killbufsize)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf, 0, _getline_killbufsize);
+    memset(ch->ch_killbuf, 0, ch->ch_killbufsize);
     return 0;
 }
 
@@ -1100,17 +1100,17 @@ cligen_buf_increase(cligen_handle h,
                     size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    size_t                len0 = _getline_bufsize; /* orig length */
+    size_t                len0 = ch->ch_bufsize; /* orig length */
 
-    if (_getline_bufsize >= len1 + 1)
+    if (ch->ch_bufsize >= len1 + 1)
       return 0;
-    while (_getline_bufsize < len1 + 1)
-      _getline_bufsize *= 2;
-    if ((ch->ch_buf = realloc(ch->ch_buf, _getline_bufsize)) == NULL){
+    while (ch->ch_bufsize < len1 + 1)
+      ch->ch_bufsize *= 2;
+    if ((ch->ch_buf = realloc(ch->ch_buf, ch->ch_bufsize)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf+len0, 0, _getline_bufsize-len0);
+    memset(ch->ch_buf+len0, 0, ch->ch_bufsize-len0);
     return 0;
 }
 
@@ -1124,17 +1124,17 @@ cligen_killbuf_increase(cligen_handle h,
                         size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    int                   len0 = _getline_killbufsize;
+    int                   len0 = ch->ch_killbufsize;
 
-    if (_getline_killbufsize >= len1 + 1)
+    if (ch->ch_killbufsize >= len1 + 1)
       return 0;
-    while (_getline_killbufsize < len1 + 1)
-      _getline_killbufsize *= 2;
-    if ((ch->ch_killbuf = realloc(ch->ch_killbuf, _getline_killbufsize)) == NULL){
+    while (ch->ch_killbufsize < len1 + 1)
+      ch->ch_killbufsize *= 2;
+    if ((ch->ch_killbuf = realloc(ch->ch_killbuf, ch->ch_killbufsize)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf+len0, 0, _getline_killbufsize-len0);
+    memset(ch->ch_killbuf+len0, 0, ch->ch_killbufsize-len0);
     return 0;
 }
 
diff --git a/cligen_handle_internal.h b/cligen_handle_internal.h
index 6ffff14..d6a4c88 100644
--- a/cligen_handle_internal.h
+++ b/cligen_handle_internal.h
@@ -95,6 +95,8 @@ struct cligen_handle{
                                   */
     char       *ch_buf;          /* getline input buffer */
     char       *ch_killbuf;      /* getline killed text */
+    int         ch_bufsize;      /* allocated size of ch_buf */
+    int         ch_killbufsize;  /* allocated size of ch_killbuf */
 
     int         ch_logsyntax;    /* Debug syntax by printing dynamically on stderr */
     int         ch_hist_size;    /* Number of history lines MUST be >0 */
-- 
2.43.0


From 15e768da95d80a3c26fd1c484f72a2f0215d3be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 47/95] fix: history was not recalled from the latest line if
 the previous input line was empty

---
 cligen_getline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 76a7b86..bedaff9 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -597,6 +597,7 @@ gl_getline(cligen_handle h,
 
     gl_init1();
     gl_search_mode = 0; /* A search may have been interrupted by end of input */
+    hist_pos_set(h, hist_last_get(h)); /* Same with stepping in history */
     gl_prompt = (cligen_prompt(h))? cligen_prompt(h) : "";
     cligen_buf(h)[0] = 0;
     if (gl_in_hook)
-- 
2.43.0


From 8b6dc2f72541d59850b7863d1d06115c81543d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 48/95] fix: line with several rows was repeated in the history

---
 cligen_history.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cligen_history.c b/cligen_history.c
index 2adfe1a..aaac973 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -125,8 +125,6 @@ hist_add(cligen_handle h,
         p++;
     if (*p) {
         len = strlen(buf);
-        if (strchr(p, '\n'))    /* previous line already has NL stripped */
-            len--;
         if (ch->ch_hist_pre == 0 || strlen(ch->ch_hist_pre) != len ||
                             strncmp(ch->ch_hist_pre, buf, len) != 0) {
             if ((ch->ch_hist_buf[ch->ch_hist_last] = hist_save(buf)) == NULL)
-- 
2.43.0


From 71628abd57466a23f3b4f4a9919e49591b6360b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 49/95] fix: tree starting with a reference to itself expanded
 without end

---
 cligen_expand.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index ebf1eec..b34fbbd 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -579,6 +579,12 @@ co_find_label_filters(cligen_handle h,
     return retval;
 }
 
+/*! Trees being expanded at the same position, innermost first */
+struct treeref_chain {
+    parse_tree           *tc_pt;
+    struct treeref_chain *tc_up;
+};
+
 /*! Make a pt expand of single co using shallow copy
  *
  * @param[in]   h          Handle needed to resolve tree-references (\@tree)
@@ -587,6 +593,7 @@ co_find_label_filters(cligen_handle h,
  * @param[in]   cvv_filter Add these to expanded nodes co_filter, eg remove them
  * @param[in]   cvt        Tokenized string: vector of tokens
  * @param[in]   ptorig     Original parsetree
+ * @param[in]   up         Trees that ptorig is expanded in. A reference to one of them adds nothing
  * @param[out]  ptnew      Expanded parse-tree to expand. In: original, out: expanded
  * @retval      0          OK
  * @retval     -1          Error
@@ -603,9 +610,12 @@ co_expand_treeref_copy_shallow(cligen_handle h,
                                cvec         *cvv_filter,
                                cvec         *cvt,
                                parse_tree   *ptorig,
+                               struct treeref_chain *up,
                                parse_tree   *ptnew)
 {
     int         retval = -1;
+    struct treeref_chain chain = {ptorig, up};
+    struct treeref_chain *tc;
     cg_obj     *coparent;
     int         i;
     cg_obj     *cot;            /* treeref object */
@@ -628,6 +638,11 @@ co_expand_treeref_copy_shallow(cligen_handle h,
         if (cot->co_type == CO_REFERENCE){
             if (tree_resolve(h, cot, cvt, &ptref2) < 0)
                 goto done;
+            for (tc = &chain; tc != NULL; tc = tc->tc_up)
+                if (tc->tc_pt == ptref2)
+                    break;
+            if (tc != NULL)
+                continue;
             if ((cvv = cvec_new(0)) == NULL)
                 goto done;
             if (co_find_label_filters(h, cot, cvv) < 0)
@@ -643,7 +658,7 @@ co_expand_treeref_copy_shallow(cligen_handle h,
             /* Callbacks are given by the outermost reference that has any */
             if (co_expand_treeref_copy_shallow(h,
                                                co0->co_callbacks==NULL && cot->co_callbacks ? cot : co0,
-                                               merged, cvv, cvt, ptref2, ptnew) < 0)
+                                               merged, cvv, cvt, ptref2, &chain, ptnew) < 0)
                 goto done;
             cvec_free(cvv);
             cvv = NULL;
@@ -1120,7 +1135,7 @@ pt_expand_reference(cligen_handle h,
             goto done;
     }
     /* Expand ptref to pttmp */
-    if (co_expand_treeref_copy_shallow(h, coref, merged, cvv2, cvv_var, ptref, pttmp) < 0)
+    if (co_expand_treeref_copy_shallow(h, coref, merged, cvv2, cvv_var, ptref, NULL, pttmp) < 0)
         goto done;
     /* Copy the expand tree to the final tree.
      */
-- 
2.43.0


From ccbef08ff7870b5c9e787720bec60100a1f905b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 50/95] fix: parsing an empty specification leaked memory

---
 cligen_syntax.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index d7f5403..5f20f5a 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -85,6 +85,7 @@ clispec_parse_str(cligen_handle h,
     parse_tree        *pt = NULL;
     pt_head           *ph;
     cg_var            *cv;
+    int                added = 0; /* Final tree is added to handle */
 
     /* "Fake" top-level object that is removed on exit */
     if ((cot = co_new(NULL, NULL)) == NULL)
@@ -132,6 +133,7 @@ clispec_parse_str(cligen_handle h,
                 goto done;
             if (cligen_ph_parsetree_set(ph, pt) < 0)
                 goto done;
+            added++;
             if ((cv = cvec_find(cy.cy_globals, "pipetree")) != NULL){
                 char *str;
                 if ((str = cv_string_get(cv)) != NULL && strlen(str))
@@ -158,8 +160,8 @@ clispec_parse_str(cligen_handle h,
                 if ((co=pt_vec_i_get(pt, i)) != NULL)
                     co_up_set(co, NULL);
             }
-        if (retval < 0 && ptp == NULL && pt != NULL)
-            pt_free(pt, 1); /* Not added to handle */
+        if (!added && ptp == NULL && pt != NULL)
+            pt_free(pt, 1);
         co_free(cot, 0);
     }
     if (cy.cy_treename)
-- 
2.43.0


From bf523287e5c93cb778012fa68fa61e4f619b33c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:02 +0000
Subject: [PATCH 51/95] fix: word backward moved forward, or stopped, at blanks
 in the beginning of the line

---
 cligen_getline.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index bedaff9..b78c7fa 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1030,14 +1030,10 @@ gl_kill_word(cligen_handle h,
         gl_putc('\007');
     else {
         wpos = pos;
-        if (pos > 0)
+        while (pos > 0 && isspace((unsigned char)cligen_buf(h)[pos-1]))
             pos--;
-        while (isspace((int)cligen_buf(h)[pos]) && pos > 0)
+        while (pos > 0 && !isspace((unsigned char)cligen_buf(h)[pos-1]))
             pos--;
-        while (!isspace((int)cligen_buf(h)[pos]) && pos > 0)
-            pos--;
-        if (pos < gl_cnt && isspace((int)cligen_buf(h)[pos]))   /* move onto word */
-            pos++;
         if (cligen_killbuf_increase(h, wpos-pos) < 0)
             return -1;
         strncpy(cligen_killbuf(h), cligen_buf(h)+pos, wpos-pos);
@@ -1069,14 +1065,10 @@ gl_word(cligen_handle h,
         while (isspace((int)cligen_buf(h)[pos]) && pos < gl_cnt)
             pos++;
     } else {                            /* backword */
-        if (pos > 0)
+        while (pos > 0 && isspace((unsigned char)cligen_buf(h)[pos-1]))
             pos--;
-        while (isspace((int)cligen_buf(h)[pos]) && pos > 0)
+        while (pos > 0 && !isspace((unsigned char)cligen_buf(h)[pos-1]))
             pos--;
-        while (!isspace((int)cligen_buf(h)[pos]) && pos > 0)
-            pos--;
-        if (pos < gl_cnt && isspace((int)cligen_buf(h)[pos]))   /* move onto word */
-            pos++;
     }
     gl_fixup(h, cligen_prompt(h), -1, pos);
 }
-- 
2.43.0


From 3cde332a531afcd51c0dd114fa35954060a0692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 52/95] fix: more than eight exit characters were written
 outside the table

---
 cligen_getline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index b78c7fa..2c142e7 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -366,7 +366,7 @@ gl_exitchar_add(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++)
+    for (i=0; i<sizeof(exitchars)/sizeof(exitchars[0]); i++)
         if (!exitchars[i]){
             exitchars[i] = c;
             break;
@@ -379,7 +379,7 @@ gl_exitchar(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++){
+    for (i=0; i<sizeof(exitchars)/sizeof(exitchars[0]); i++){
         if (!exitchars[i])
             break;
         if (exitchars[i] == c)
-- 
2.43.0


From f87c49bb640190e58f4d86d7443747d822cf4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 53/95] fix: a failing read of the terminal repeated the last
 key without end, an interrupted one crashed without hook

---
 cligen_getline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 2c142e7..5c4d3fb 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -421,13 +421,13 @@ gl_getc(cligen_handle h)
 #ifdef __unix__
     while ((c = read(0, &ch, 1)) == -1) {
         if (errno == EINTR){
-            if (gl_interrupt_hook(h) <0)
+            if (gl_interrupt_hook && gl_interrupt_hook(h) < 0)
                 return -1;
             continue;
         }
         break;
     }
-    if (c == 0){
+    if (c <= 0){ /* End of file, or error */
         gl_iseof++;
         cligen_buf(h)[0] = 0; /* clean exit from gl? */
         gl_cleanup();
-- 
2.43.0


From 94d8adb7b3910079420dc33c8f33d9178fc1cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 54/95] fix: unregistering a file descriptor destroyed the
 registration of the following ones

---
 cligen_getline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 5c4d3fb..22215e7 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -320,7 +320,7 @@ gl_unregfd(int fd)
     for (i = 0; i < nextfds; i++) {
         if (extfds[i].fd == fd) {
             if (i+1 < nextfds)
-                memcpy(&extfds[i], &extfds[i+1], nextfds-i);
+                memmove(&extfds[i], &extfds[i+1], (nextfds-i-1) * sizeof(*extfds));
             extfds = realloc(extfds, (nextfds-1) * sizeof(*extfds));
             nextfds--;
             return 0;
-- 
2.43.0


From a2c5022d151cfe1a5bebd593ff7d3552e4dbb180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 55/95] fix: cursor was one position outside the window at the
 end of a scrolled line

---
 cligen_getline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 22215e7..2fee5fb 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1331,7 +1331,7 @@ gl_fixup_scroll(cligen_handle h,
         gl_putc('\007');
         cursor = 0;
     }
-    if (fixup_off_right || (fixup_off_left && cursor < fixup_gl_shift + gl_width - gl_scrollw / 2)){
+    if (gl_cnt > fixup_gl_shift + gl_width - 1 || (fixup_off_left && cursor < fixup_gl_shift + gl_width - gl_scrollw / 2)){
         extra = 2;                      /* shift the scrolling boundary */
     }
     else
-- 
2.43.0


From 805d09d516e1f3a146ff49ff5e1a0a12ba1343a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 56/95] fix: long prompt was taken for a changed prompt at
 every key

---
 cligen_getline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 2fee5fb..19e218b 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -101,7 +101,7 @@ static int gl_iseof = 0;
 static int   fixup_gl_shift;    /* index of first on screen character */
 static int   fixup_off_right;   /* true if more text right of screen */
 static int   fixup_off_left;    /* true if more text left of screen */
-static char  fixup_last_prompt[80] = "";
+static char  fixup_last_prompt[1024] = "";
 
 #define SEARCH_LEN 100
 static char  search_prompt[SEARCH_LEN+2];  /* prompt includes search string */
@@ -1189,7 +1189,7 @@ gl_fixup_noscroll(cligen_handle h,
         strncpy(fixup_last_prompt, prompt, sizeof(fixup_last_prompt)-1);
         change = 0;
         gl_width = gl_termw - gl_strlen(prompt);
-    } else if (strcmp(prompt, fixup_last_prompt) != 0) {
+    } else if (strncmp(prompt, fixup_last_prompt, sizeof(fixup_last_prompt)-1) != 0) {
         l1 = gl_strlen(fixup_last_prompt);
         l2 = gl_strlen(prompt);
         gl_cnt = gl_cnt + l1 - l2;
@@ -1304,7 +1304,7 @@ gl_fixup_scroll(cligen_handle h,
         strncpy(fixup_last_prompt, prompt, sizeof(fixup_last_prompt)-1);
         change = 0;
         gl_width = gl_termw - gl_strlen(prompt);
-    } else if (strcmp(prompt, fixup_last_prompt) != 0) {
+    } else if (strncmp(prompt, fixup_last_prompt, sizeof(fixup_last_prompt)-1) != 0) {
         l1 = gl_strlen(fixup_last_prompt);
         l2 = gl_strlen(prompt);
         gl_cnt = gl_cnt + l1 - l2;
-- 
2.43.0


From 3e838602a46108d4ed844769807be8288dd50472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:43 +0000
Subject: [PATCH 57/95] fix: erasing a word or the beginning of the line left
 text on the screen

---
 cligen_getline.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 19e218b..e51e23b 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -998,7 +998,6 @@ static void
 gl_kill_begin(cligen_handle h,
               int           pos)
 {
-    int i;
     int len;
 
     if (pos != 0) {
@@ -1008,9 +1007,6 @@ gl_kill_begin(cligen_handle h,
         cligen_killbuf(h)[pos] = '\0';
         memmove(cligen_buf(h), cligen_buf(h) + pos, len-pos+1); /* memmove may overlap */
         gl_fixup(h, cligen_prompt(h), 0, 0);
-        for (i=gl_pos; i < gl_cnt; i++)
-            gl_putc(cligen_buf(h)[i]);
-        gl_fixup(h, cligen_prompt(h), -2, 0);
     } else
         gl_putc('\007');
 }
@@ -1024,7 +1020,7 @@ static int
 gl_kill_word(cligen_handle h,
              int           pos)
 {
-    int i, wpos;
+    int wpos;
 
     if (pos == 0)
         gl_putc('\007');
@@ -1039,10 +1035,7 @@ gl_kill_word(cligen_handle h,
         strncpy(cligen_killbuf(h), cligen_buf(h)+pos, wpos-pos);
         cligen_killbuf(h)[wpos-pos] = '\0';
         memmove(cligen_buf(h)+pos, cligen_buf(h) + wpos, gl_cnt-wpos+1);
-        gl_fixup(h, cligen_prompt(h), wpos, pos);
-        for (i=gl_pos; i < gl_cnt; i++)
-            gl_putc(cligen_buf(h)[i]);
-        gl_fixup(h, cligen_prompt(h), -2, pos);
+        gl_fixup(h, cligen_prompt(h), pos, pos);
     }
     return 0;
 }
-- 
2.43.0


From 6b1260e27865a07d4fe2c9e41eda18a7e7357720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:35 +0000
Subject: [PATCH 58/95] fix: cursor came on the wrong row when moved forward to
 the margin of a wrapped line

---
 cligen_getline.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index e51e23b..15e44df 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1256,8 +1256,11 @@ gl_fixup_noscroll(cligen_handle h,
         }
     }
     else {
-        for (i=gl_pos; i < cursor; i++)
+        for (i=gl_pos; i < cursor; i++){
             gl_putc(cligen_buf(h)[i]);
+            if (wrap(i, plen))
+                wrap_line();
+        }
     }
     gl_pos = cursor;
 }
-- 
2.43.0


From 28ef07b8ea45aa9a2a21f451518e318eda56d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 59/95] fix: help was mixed with the rows of a wrapped line

---
 cligen_getline.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 15e44df..038f9fb 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -611,9 +611,12 @@ gl_getline(cligen_handle h,
             else{
                 if (escape ==0 && c == '?' && gl_qmark_hook) {
                     escape = 0;
+                    tmp = gl_pos;
+                    if (!gl_scrolling_mode) /* Help is shown after all rows of the line */
+                        gl_fixup(h, gl_prompt, -1, gl_cnt);
                     if ((loc = gl_qmark_hook(h, cligen_buf(h))) < 0)
                         goto err;
-                    gl_fixup(h, gl_prompt, -2, gl_pos);
+                    gl_fixup(h, gl_prompt, -2, tmp);
                 }
                 else{
                     escape = 0;
@@ -668,6 +671,8 @@ gl_getline(cligen_handle h,
             case '\t':                                  /* TAB */
                 if (gl_tab_hook) {
                     tmp = gl_pos;
+                    if (!gl_scrolling_mode) /* Same as for ? */
+                        gl_fixup(h, gl_prompt, -1, gl_cnt);
                     if ((loc = gl_tab_hook(h, &tmp)) < 0)
                         goto err;
                     gl_fixup(h, gl_prompt, -2, tmp);
-- 
2.43.0


From b33ddb470118262959660a7d434ddca1d30bc160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 60/95] fix: long prompt made the scrolled line disappear

---
 cligen_getline.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 038f9fb..6fab167 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1297,6 +1297,7 @@ gl_fixup_scroll(cligen_handle h,
     int          i;
     int          new_right = -1; /* alternate right bound, using gl_extent */
     int          l1, l2;
+    int          scrollw;       /* width of scrolling region */
 
     if (change == -2) {   /* reset */
         gl_pos = gl_cnt = fixup_gl_shift = fixup_off_right = fixup_off_left = 0;
@@ -1316,6 +1317,9 @@ gl_fixup_scroll(cligen_handle h,
         gl_width = gl_termw - l2;
         change = 0;
     }
+    /* A long prompt may leave less room than the scrolling region */
+    if ((scrollw = gl_scrollw) > gl_width/2)
+        scrollw = (gl_width > 3)? gl_width/2 : 1;
     pad = (fixup_off_right)? gl_width - 1 : gl_cnt - fixup_gl_shift;   /* old length */
     backup = gl_pos - fixup_gl_shift;
     if (change >= 0) {
@@ -1332,15 +1336,15 @@ gl_fixup_scroll(cligen_handle h,
         gl_putc('\007');
         cursor = 0;
     }
-    if (gl_cnt > fixup_gl_shift + gl_width - 1 || (fixup_off_left && cursor < fixup_gl_shift + gl_width - gl_scrollw / 2)){
+    if (gl_cnt > fixup_gl_shift + gl_width - 1 || (fixup_off_left && cursor < fixup_gl_shift + gl_width - scrollw / 2)){
         extra = 2;                      /* shift the scrolling boundary */
     }
     else
         extra = 0;
-    new_shift = cursor + extra + gl_scrollw - gl_width;
+    new_shift = cursor + extra + scrollw - gl_width;
     if (new_shift > 0) {
-        new_shift /= gl_scrollw;
-        new_shift *= gl_scrollw;
+        new_shift /= scrollw;
+        new_shift *= scrollw;
     } else
         new_shift = 0;
     if (new_shift != fixup_gl_shift) {  /* scroll occurs */
-- 
2.43.0


From 8193443c9b2acdd180fc52d61750c8fa8806eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 61/95] fix: searching history moved a wrapped line to another
 row

---
 cligen_getline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 6fab167..ab7572e 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1190,6 +1190,10 @@ gl_fixup_noscroll(cligen_handle h,
     } else if (strncmp(prompt, fixup_last_prompt, sizeof(fixup_last_prompt)-1) != 0) {
         l1 = gl_strlen(fixup_last_prompt);
         l2 = gl_strlen(prompt);
+        /* Back to the row where the line starts */
+        i = (gl_pos == 0 && l1 > 0)? l1 - 1 : l1 + gl_pos;
+        for (i /= gl_termw; i > 0; i--)
+            move_cursor_up(1);
         gl_cnt = gl_cnt + l1 - l2;
         strncpy(fixup_last_prompt, prompt, sizeof(fixup_last_prompt)-1);
         gl_putc('\r');
-- 
2.43.0


From 2a79e235efb1ca7f7129811df5ed0d0697575d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:58 +0000
Subject: [PATCH 62/95] fix: keys typed ahead of the pager were lost

---
 cligen_io.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cligen_io.c b/cligen_io.c
index c6a2e6e..bd087b9 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -123,6 +123,24 @@ cli_output_status(void)
     return D_LINES;
 }
 
+/*! Read one answer to the pager, see cligen_output_scroll
+ *
+ * Do not read via stdio: keys typed ahead would end up in the buffer of stdin, while getline
+ * reads the file descriptor
+ * @retval  c    Character
+ * @retval  EOF  End-of-file or error
+ */
+static int
+pager_getc(void)
+{
+    unsigned char ch;
+    ssize_t       n;
+
+    while ((n = read(0, &ch, 1)) < 0 && errno == EINTR)
+        ;
+    return n == 1 ? ch : EOF;
+}
+
 /*! cligen_output support function for the actual scrolling
  *
  * @param[in] f           Open stdio FILE pointer
@@ -194,7 +212,7 @@ cligen_output_scroll(FILE   *f,
             gl_char_init();
             fprintf(f, "--More--");
             fflush(f);
-            c = fgetc(stdin);
+            c = pager_getc();
             if (c == '\n')
                 D_LINES--;
             else if (c == ' ')
-- 
2.43.0


From 717babe552b5509764b2e29d221aa47f580ca98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 63/95] fix: asking the pager for help made it stop at wrong
 lines

---
 cligen_io.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index bd087b9..5fca697 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -210,20 +210,22 @@ cligen_output_scroll(FILE   *f,
         ib0 = ib1;
         if (D_LINES >= (term_rows -1)){
             gl_char_init();
-            fprintf(f, "--More--");
-            fflush(f);
-            c = pager_getc();
-            if (c == '\n')
-                D_LINES--;
-            else if (c == ' ')
-                D_LINES = 0;
-            else if (c == 'q' || c == 3) /* ^c */
-                D_LINES = -1;
-            else if (c == '?')
-                fprintf(f, "Press CR for one more line, SPACE for next page, q to quit\n");
-            else
-                D_LINES = 0;
-            fprintf(f, "        ");
+            do { /* Ask again after help */
+                fprintf(f, "--More--");
+                fflush(f);
+                c = pager_getc();
+                if (c == '\n')
+                    D_LINES--;
+                else if (c == ' ')
+                    D_LINES = 0;
+                else if (c == 'q' || c == 3) /* ^c */
+                    D_LINES = -1;
+                else if (c == '?')
+                    fprintf(f, "Press CR for one more line, SPACE for next page, q to quit\n");
+                else
+                    D_LINES = 0;
+                fprintf(f, "        ");
+            } while (c == '?');
             gl_char_cleanup();
         }
     }
-- 
2.43.0


From f7104266f36b5554eb1c28a831363a0fca9c5bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 64/95] fix: output was quit by asking for one more line on a
 terminal of one row

---
 cligen_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_io.c b/cligen_io.c
index 5fca697..01d41a6 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -208,7 +208,7 @@ cligen_output_scroll(FILE   *f,
         linebuf[(ib1-ib0)] = '\0';
         fprintf(f, "%s", linebuf);
         ib0 = ib1;
-        if (D_LINES >= (term_rows -1)){
+        if (D_LINES >= (term_rows > 1 ? term_rows-1 : 1)){
             gl_char_init();
             do { /* Ask again after help */
                 fprintf(f, "--More--");
-- 
2.43.0


From 8849f63b33a083ed0d494ec4aeaa8ef7ad3de785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 65/95] fix: crash when terminal was made narrower during paged
 output

---
 cligen_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_io.c b/cligen_io.c
index 01d41a6..7b43972 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -171,6 +171,8 @@ cligen_output_scroll(FILE   *f,
     /* A terminal line */
     if ((linebuf = malloc(linelen+1)) == NULL)
         goto done;
+    if (D_COLUMNS >= linelen) /* Terminal has become narrower */
+        D_COLUMNS %= linelen;
     remain = linelen - D_COLUMNS;
     while (ib1 < ibend && D_LINES >= 0){
         /* Four cases:
-- 
2.43.0


From a98f705eb32efea5ff447d58f97636ac3e64d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 66/95] fix: output, process and descriptor were lost when a
 pipe function was slow or did not read all, or the command failed

---
 cligen_read.c | 96 ++++++++++++++++-----------------------------------
 cligen_read.h |  6 ----
 2 files changed, 29 insertions(+), 73 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index 01e0ccd..a53bf41 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -834,32 +834,6 @@ cliread_eval(cligen_handle  h,
     return retval;
 }
 
-/*! Poll socket for read
- *
- * Select is called with timeout set so that the call returns immediately
- * @param[in] s  Read socket
- * @param[in] usec Timeout (0 is "poll")
- * @retval    1  Input is available on s
- * @retval    0  No input
- * @retval   -1  Error
- */
-static int
-cligen_eval_poll(int          s,
-                 unsigned int usec)
-{
-    fd_set         fdset;
-    struct timeval tv = {0,};
-    int            ret;
-
-    FD_ZERO(&fdset);
-    FD_SET(s, &fdset);
-    tv.tv_sec = usec/1000000;
-    tv.tv_usec = usec%1000000;
-    if ((ret = select(FD_SETSIZE, &fdset, NULL, NULL, &tv)) < 0)
-        perror("cligen_eval_poll");
-    return ret;
-}
-
 void
 signal_unblock(int sig)
 {
@@ -895,8 +869,11 @@ cligen_eval_pipe_pre(cligen_handle h,
 
     if (socketpair(AF_UNIX, SOCK_STREAM, 0, spair) < 0)
         goto done;
-    if ((*pidp = fork()) < 0)
+    if ((*pidp = fork()) < 0){
+        close(spair[0]);
+        close(spair[1]);
         goto done;
+    }
     if (*pidp == 0) {   /* Child */
         close(spair[0]);
         close(0);
@@ -928,9 +905,9 @@ cligen_eval_pipe_pre(cligen_handle h,
     return retval;
 }
 
-/*! Poll for write socket, redirect to cligen-output basic and then close pipe
+/*! Redirect output of pipe function to cligen-output basic
  *
- * Given socket to pipe function, close write side, poll/read and redirect to
+ * Given socket to pipe function, close write side, read until EOF and redirect to
  * basic output function, then wait for child completion
  * @param[in]  h        CLIgen handle
  * @param[in]  s0       Socket
@@ -946,44 +923,30 @@ cligen_eval_pipe_post(cligen_handle h,
     int     status;
     char    buf[4097];
     ssize_t len;
-    int     s;
+    pid_t   pid;
 
-    cli_pipe_output_socket_get(&s);
-    if (s != -1) {
-        /* Close write side of socket */
-        if (shutdown(s, SHUT_WR) < 0){
-            perror("shutdown");
-            goto done;
-        }
-        /* Block until input is available */
-        do {
-            if ((ret = cligen_eval_poll(s, 1000*1000)) < 0){
-                goto done;
-            }
-        }
-        while (ret == 0);
-        /* Read until EOF */
-        while (ret != 0) {
-            if ((len = read(s, buf, 4096)) < 0){
-                perror("cli_pipe_exec_cb, read");
-                goto done;
-            }
-            if (len == 0)
+    if (cli_pipe_output_socket_set(-1) < 0)
+        goto done;
+    /* Close write side of socket, may fail if the pipe function has exited */
+    (void)shutdown(s0, SHUT_WR);
+    /* Read until EOF */
+    while ((len = read(s0, buf, 4096)) != 0){
+        if (len < 0){
+            if (errno == EINTR)
+                continue;
+            if (errno == ECONNRESET) /* Pipe function exited without reading all input */
                 break;
-            buf[len] = '\0';
-            cligen_output_basic(stdout, buf, len);
-            /* Immediate poll: possibility if writer is slow that input is dropped due
-             * to starving of child in (maybe) single process systems
-             */
-            if ((ret = cligen_eval_poll(s, CLI_PIPE_TIMEOUT_US)) < 0)
-                goto done;
+            perror("cli_pipe_exec_cb, read");
+            break;
         }
-        if (cli_pipe_output_socket_set(-1) < 0)
-            goto done;
+        buf[len] = '\0';
+        cligen_output_basic(stdout, buf, len);
     }
     kill(childpid, SIGTERM);
     /* On success, returns the process ID of the terminated child */
-    if(waitpid(childpid, &status, 0) != childpid){
+    while ((pid = waitpid(childpid, &status, 0)) < 0 && errno == EINTR)
+        ;
+    if (pid != childpid){
         perror("waitpid");
         goto done;
     }
@@ -1081,15 +1044,14 @@ cligen_eval(cligen_handle h,
             cligen_fn_str_set(h, NULL);
         }
     }
-    if (childpid){
-        if (cligen_eval_pipe_post(h, spipe, childpid) < 0){
-            goto done;
-        }
-    }
     retval = 0;
  done:
-    if (spipe != -1)
+    /* Also if a callback failed */
+    if (spipe != -1){
+        if (cligen_eval_pipe_post(h, spipe, childpid) < 0)
+            retval = -1;
         close(spipe);
+    }
     if (wh)
         free(wh);
     if (cvv1)
diff --git a/cligen_read.h b/cligen_read.h
index 791771e..84c7969 100644
--- a/cligen_read.h
+++ b/cligen_read.h
@@ -38,12 +38,6 @@
 #ifndef _CLIGEN_READ_H_
 #define _CLIGEN_READ_H_
 
-/*
- * Constants
- */
-/*! Timeout for forked cli output pipe modification function in us */
-#define CLI_PIPE_TIMEOUT_US 1000000 /* 1 s */
-
 /*
  * Function Prototypes
  */
-- 
2.43.0


From 5ba26959671bb7441ea95f318f1fda972ce0a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:24 +0000
Subject: [PATCH 67/95] fix: more output than the socket buffers hold blocked
 with a pipe function, or was lost or fatal when it had exited

---
 cligen_io.c | 59 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index 7b43972..52ca631 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -45,6 +45,7 @@
 #endif
 #include <errno.h>
 #include <signal.h>
+#include <poll.h>
 #include <sys/types.h>
 #include <sys/socket.h>
 #include <netinet/in.h>
@@ -239,6 +240,58 @@ cligen_output_scroll(FILE   *f,
     return retval;
 }
 
+/*! Write to output pipe function, while also showing what it writes
+ *
+ * A pipe function may write before it has read all its input: if this is not read, both sides may
+ * wait for each other when the socket buffers are full.
+ * @param[in] s       Socket to pipe function
+ * @param[in] inbuf   Output
+ * @param[in] len     Length of output
+ * @retval    0       OK, or pipe function has exited: the rest of the output is not wanted
+ * @retval   -1       Error
+ * @see cligen_eval_pipe_post  Reads what remains
+ */
+static int
+pipe_output(int     s,
+            char   *inbuf,
+            ssize_t len)
+{
+    struct pollfd pfd;
+    char          buf[4097];
+    ssize_t       n;
+
+    pfd.fd = s;
+    while (len > 0){
+        pfd.events = POLLIN | POLLOUT;
+        pfd.revents = 0;
+        if (poll(&pfd, 1, -1) < 0){
+            if (errno == EINTR)
+                continue;
+            perror("cligen_output poll on pipe socket");
+            return -1;
+        }
+        if (pfd.revents & POLLIN){
+            if ((n = recv(s, buf, sizeof(buf)-1, MSG_DONTWAIT)) == 0)
+                return 0;
+            if (n > 0){
+                buf[n] = '\0';
+                cligen_output_basic(stdout, buf, n);
+            }
+        }
+        if ((n = send(s, inbuf, len, MSG_DONTWAIT | MSG_NOSIGNAL)) >= 0){
+            inbuf += n;
+            len -= n;
+        }
+        else if (errno == EPIPE || errno == ECONNRESET)
+            return 0;
+        else if (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR){
+            perror("cligen_output write on pipe socket");
+            return -1;
+        }
+    }
+    return 0;
+}
+
 /*! CLIgen output function. All printf-style output should be made via this function.
  *
  * Note only scrolling for stdout
@@ -312,12 +365,8 @@ cligen_output(FILE       *f,
     if (cli_pipe_output_socket_get(&s) < 0)
         goto done;
     if (s != -1){
-        if (write(s, inbuf, inbuflen) < 0){
-            perror("cligen_output write on pipe socket");
-            close(s);
-            cli_pipe_output_socket_set(-1);
+        if (pipe_output(s, inbuf, inbuflen) < 0)
             goto done;
-        }
     }
     else{
         /* if writing to stdout, format output
-- 
2.43.0


From 2975b9b0b16de2690b8654eb172255bf4c40c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:41 +0000
Subject: [PATCH 68/95] fix: equal strings from expansion functions were
 ambiguous, and unsorted ones made equal commands ambiguous

---
 cligen_expand.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index b34fbbd..db42253 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -861,8 +861,6 @@ pt_expand_fn(cligen_handle h,
         if (transient && con->co_ref){
             con->co_ref = co->co_ref;
         }
-        if (pt_vec_append(ptn, con) < 0)
-            goto done;
         if (cvv_filter && cvec_len(cvv_filter))
             if (co_filter_set(con, cvv_filter) == NULL)
                 goto done;
@@ -875,6 +873,10 @@ pt_expand_fn(cligen_handle h,
             goto done;
         }
         helpstr = NULL;
+        /* Keep ptn sorted, con is merged (and freed) if there is an equal command */
+        if (co_insert1(ptn, con, 0) == NULL)
+            goto done;
+        con = NULL;
     }
     retval = 0;
  done:
@@ -888,6 +890,8 @@ pt_expand_fn(cligen_handle h,
         cvec_free(cvv1);
     if (helpstr)
         free(helpstr);
+    if (con)
+        co_free(con, 0);
     return retval;
 }
 
-- 
2.43.0


From 5066bc4d65ade0b1b2faa86c3fef040acbf8333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:40 +0000
Subject: [PATCH 69/95] fix: expand variables with the same function were taken
 as one whatever the arguments

---
 cligen_object.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/cligen_object.c b/cligen_object.c
index 2d89935..e75228c 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -895,6 +895,29 @@ str_cmp(char *s1,
 #endif /* HAVE_STRVERSCMP */
 }
 
+/*! Compare arguments of two calls of the same expand function
+ *
+ * @param[in]  cvv1  Arguments of first call, or NULL
+ * @param[in]  cvv2  Arguments of second call, or NULL
+ * @retval     0     If equal
+ * @retval    <0     If cvv1 is less than cvv2
+ * @retval    >0     If cvv1 is greater than cvv2
+ */
+static int
+co_expand_args_cmp(cvec *cvv1,
+                   cvec *cvv2)
+{
+    int eq;
+    int i;
+
+    if ((eq = cvec_len(cvv1) - cvec_len(cvv2)) != 0)
+        return eq;
+    for (i=0; i<cvec_len(cvv1); i++)
+        if ((eq = cv_cmp(cvec_i(cvv1, i), cvec_i(cvv2, i))) != 0)
+            return eq;
+    return 0;
+}
+
 /*! Check if two cligen objects (cg_obj) are equal
  *
  * Two cligen objects are equal if they have:
@@ -956,7 +979,9 @@ co_eq(cg_obj *co1,
             goto done;
         /* Examine expand: at least one set, and then strcmp */
         if (co1->co_expand_fn_str!=NULL || co2->co_expand_fn_str!=NULL){
-            eq = str_cmp(co1->co_expand_fn_str, co2->co_expand_fn_str);
+            /* Calls with different arguments are different */
+            if ((eq = str_cmp(co1->co_expand_fn_str, co2->co_expand_fn_str)) == 0)
+                eq = co_expand_args_cmp(co1->co_expand_fn_vec, co2->co_expand_fn_vec);
             goto done;
         }
         /* Should we examine co_translate_fn_str? */
-- 
2.43.0


From 01ba1811811cde23f7c714bb12f016918b1de3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:13 +0000
Subject: [PATCH 70/95] fix: expansion functions were never called for
 variables first in a command

---
 cligen_read.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index a53bf41..92eb685 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -118,7 +118,7 @@ cli_show_help_commands(cligen_handle h,
                   NULL,
                   cvv,
                   1, /* Include hidden commands */
-                  0, /* VARS are not expanded, eg ? <tab> */
+                  1, /* Expand VARS, eg ? <tab> */
                   NULL, NULL,
                   ptn) < 0)      /* expansion */
         goto done;
@@ -188,7 +188,7 @@ cli_tab_hook(cligen_handle h,
                   NULL,
                   cvv,
                   1,   /* Include hidden commands */
-                  0,   /* VARS are not expanded, eg ? <tab> */
+                  1,   /* Expand VARS, eg ? <tab> */
                   NULL, NULL,
                   ptn) < 0)      /* expansion */
         goto done;
@@ -705,7 +705,7 @@ cliread_parse(cligen_handle  h,
     if (pt_expand(h, NULL,
                   pt, cvt, cvv,
                   0,  /* Do not include hidden commands */
-                  0,  /* VARS are not expanded, eg ? <tab> */
+                  1,  /* Expand VARS, eg ? <tab> */
                   NULL, NULL,
                   ptn) < 0) /* sub-tree expansion, ie choice, expand function */
         goto done;
-- 
2.43.0


From cf7ba259c7c9fea0880dc6729bb4c90f3c2afc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:11 +0000
Subject: [PATCH 71/95] fix: heap overflow when escaping a string without
 special characters

---
 cligen_expand.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index db42253..7504ab5 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -765,7 +765,8 @@ cligen_escape_do(const char *s0)
         return NULL;
     }
     len = strlen(s0);
-    nr = cligen_escape_nr(s0);
+    if ((nr = cligen_escape_nr(s0)) == 0)
+        nr = 2; /* Quotes */
     if ((s1 = (char*)malloc(len + 1 + nr)) == NULL){
         return NULL;
     }
-- 
2.43.0


From 53efdc3917345459a806f166322435260001b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 72/95] fix: finding an object by name failed in trees with
 variables or references

---
 cligen_object.c | 50 +++++++++++--------------------------------------
 1 file changed, 11 insertions(+), 39 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index e75228c..a680a3f 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -1109,41 +1109,6 @@ co_free(cg_obj *co,
     return 0;
 }
 
-/*! Look for a CLIgen object in a (one-level) parse-tree in interval [low,high]
- *
- * @param[in]  pt      CLIgen parse-tree
- * @param[in]  name    Name of node
- * @param[in]  low     Lower bound
- * @param[in]  upper   Upper bound
- * @retval     co      Object found
- * @retval     NULL    Not found
- * @see co_insert Main function
- */
-static cg_obj *
-co_search1(parse_tree *pt,
-           char       *name,
-           int         low,
-           int         upper)
-{
-    int     mid;
-    int     cmp;
-    cg_obj *co;
-
-    if (upper < low)
-        return NULL; /* not found */
-    mid = (low + upper) / 2;
-    if (mid >= pt_len_get(pt))  /* beyond range */
-        return NULL;
-    co = pt_vec_i_get(pt, mid);
-    cmp = str_cmp(name, co ? co->co_command : NULL);
-    if (cmp < 0)
-        return co_search1(pt, name, low, mid-1);
-    else if (cmp > 0)
-        return co_search1(pt, name, mid+1, upper);
-    else
-        return co;
-}
-
 /*! Position where to insert cligen object into a parse-tree list alphabetically
  *
  * at what position to insert co1. Insert after this position
@@ -1245,16 +1210,23 @@ co_insert(parse_tree *pt,
  * @param[in]  name    Name of node
  * @retval     co      Object found
  * @retval     NULL    Not found
- * You can only use this if the child-list is alphabetically
- * sorted. You get this automatically with co_insert(), bit some code
- * may add children w/o co_insert.
  * No recursion
  */
 cg_obj *
 co_find_one(parse_tree *pt,
             char       *name)
 {
-    return co_search1(pt, name, 0, pt_len_get(pt));
+    cg_obj *co;
+    int     i;
+
+    /* Objects are not sorted by name: commands come before variables and references */
+    for (i=0; i<pt_len_get(pt); i++){
+        if ((co = pt_vec_i_get(pt, i)) == NULL || co->co_command == NULL)
+            continue;
+        if (str_cmp(name, co->co_command) == 0)
+            return co;
+    }
+    return NULL;
 }
 
 /*! co is a "terminal" command
-- 
2.43.0


From 4a29938ac74153221e65dcb675190db22730df37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 73/95] fix: alias with quotes in command or help was refused,
 old alias was then lost, crash if tree has optional commands

---
 cligen_syntax.c | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index 5f20f5a..8becdbc 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -446,9 +446,11 @@ cligen_alias_add(cligen_handle  h,
     cbuf        *cb = NULL;
     pt_head     *ph;
     parse_tree  *pt;
+    parse_tree  *ptn = NULL;
     cg_obj      *co;
     int          i;
     cg_callback *cc;
+    cg_var      *cv;
 
     if (phname == NULL) {
         if ((ph = cligen_ph_active_get(h)) == NULL){
@@ -466,45 +468,51 @@ cligen_alias_add(cligen_handle  h,
         errno = ENOENT;
         goto done;
     }
-    /* Remove old alias, cant use search since need i for delete */
+    /* Find ordinary command or old alias, cant use search since need i for delete */
     for (i=0; i<pt_len_get(pt); i++){
         if ((co = pt_vec_i_get(pt, i)) == NULL)
             continue;
-        if (strcmp(co->co_command, name) != 0)
+        if (co->co_type != CO_COMMAND || strcmp(co->co_command, name) != 0)
             continue;
         if (co_flags_get(co, CO_FLAGS_ALIAS) == 0){
             errno = EEXIST;
             goto done;
         }
-        pt_vec_i_delete(pt, i, 1);
         break;
     }
     if ((cb = cbuf_new()) == NULL)
         goto done;
-    cprintf(cb, "%s", name);
-    if (helpstr)
-        cprintf(cb, "(\"%s\")", helpstr);
-    cprintf(cb, ", cligen_alias_fn(\"%s\");", command);
-    if (clispec_parse_str(h, cbuf_get(cb), "Parsing alias command", NULL, pt, NULL) < 0){
+    cprintf(cb, "%s, cligen_alias_fn(\"command\");", name);
+    if ((ptn = pt_new()) == NULL)
+        goto done;
+    if (clispec_parse_str(h, cbuf_get(cb), "Parsing alias command", NULL, ptn, NULL) < 0){
         goto done;
     }
-    /* Sanity check and add alias flag */
-    if ((co = co_find_one(pt, name)) == NULL){
-        errno = ENOENT;
+    /* Sanity check, set command, help and alias flag */
+    if (pt_len_get(ptn) != 1 ||
+        (co = pt_vec_i_get(ptn, 0)) == NULL ||
+        co->co_type != CO_COMMAND ||
+        strcmp(co->co_command, name) != 0 ||
+        (cc = co->co_callbacks) == NULL ||
+        (cv = cvec_i(cc->cc_cvec, 0)) == NULL){
+        errno = EINVAL;
         goto done;
     }
+    if (cv_string_set(cv, command) == NULL)
+        goto done;
+    if (helpstr && (co->co_helpstring = strdup(helpstr)) == NULL)
+        goto done;
     co_flags_set(co, CO_FLAGS_ALIAS);
-    {
-
-
-        if ((cc = co->co_callbacks) == NULL){
-            fprintf(stderr, "No callback found\n");
-            goto done;
-        }
-        co_callback_fn_set(cc, callback?callback:cligen_alias_call);
-    }
+    co_callback_fn_set(cc, callback?callback:cligen_alias_call);
+    /* Replace old alias */
+    if (i < pt_len_get(pt) && pt_vec_i_delete(pt, i, 1) < 0)
+        goto done;
+    if (cligen_parsetree_merge(pt, NULL, ptn) < 0)
+        goto done;
     retval = 0;
  done:
+    if (ptn)
+        pt_free(ptn, 1);
     if (cb)
         cbuf_free(cb);
     return retval;
-- 
2.43.0


From 384dfdf361f2c928358de12c5bc28a2d146b6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 74/95] fix: alias whose command is not accepted did nothing
 without notice

---
 cligen_syntax.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index 8becdbc..cb3a15b 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -407,9 +407,12 @@ cligen_alias_call(cligen_handle h,
     }
     if (cliread_parse(h, cvec_i_str(argv, 0), pt, &matchobj, &cvv2, &result, &reason) < 0)
         goto done;
-    if (result == CG_MATCH)
-        if (cligen_eval(h, matchobj, cvv2) < 0)
-            goto done;
+    if (result != CG_MATCH){
+        fprintf(stderr, "Alias command \"%s\": %s\n", cvec_i_str(argv, 0), reason?reason:"Ambiguous command");
+        goto done;
+    }
+    if (cligen_eval(h, matchobj, cvv2) < 0)
+        goto done;
     retval = 0;
  done:
     if (matchobj)
-- 
2.43.0


From 1c21b563c855b50791bc79ad0263633463ecaba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 75/95] fix: crash when an alias stands for itself

---
 cligen_syntax.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index cb3a15b..c7ff374 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -376,6 +376,9 @@ cligen_translate_str2fn(parse_tree         *pt,
     return retval;
 }
 
+/* Max number of aliases run by each other */
+#define ALIAS_DEPTH_MAX 32
+
 /*! Alias function
  *
  * @param[in]  h     CLIgen handle
@@ -396,11 +399,18 @@ cligen_alias_call(cligen_handle h,
     cvec         *cvv2 = NULL;
     cligen_result result;
     char         *reason = NULL;
+    static int    depth = 0; /* An alias may stand for another alias, but not for itself */
 
+    depth++;
     if (argv == NULL || cvec_len(argv) != 1){
         errno = EINVAL;
         goto done;
     }
+    if (depth > ALIAS_DEPTH_MAX){
+        fprintf(stderr, "Alias command \"%s\": too many nested aliases\n", cvec_i_str(argv, 0));
+        errno = ELOOP;
+        goto done;
+    }
     if ((pt = cligen_pt_active_get(h)) == NULL){
         errno = ENOENT;
         goto done;
@@ -415,6 +425,7 @@ cligen_alias_call(cligen_handle h,
         goto done;
     retval = 0;
  done:
+    depth--;
     if (matchobj)
         co_free(matchobj, 0);
     if (cvv2)
-- 
2.43.0


From 4a68bf7f7739d33c791c12a4ab41294a3d5bd074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 76/95] fix: crash when no tree is active

---
 cligen_pt_head.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_pt_head.c b/cligen_pt_head.c
index 8332552..03d704c 100644
--- a/cligen_pt_head.c
+++ b/cligen_pt_head.c
@@ -396,7 +396,7 @@ cligen_pt_active_get(cligen_handle h)
 {
     pt_head *ph = cligen_pt_head_active_get(h);
 
-    return ph->ph_parsetree;
+    return ph ? ph->ph_parsetree : NULL;
 }
 
 /*! Get currently active parsetree head.
-- 
2.43.0


From 12dfbd42694f04e9ca19c0984845b4f6b2e4f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 77/95] fix: editing command without arguments lost the edit
 position of the tree

---
 cligen_pt_head.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/cligen_pt_head.c b/cligen_pt_head.c
index 03d704c..99afb1d 100644
--- a/cligen_pt_head.c
+++ b/cligen_pt_head.c
@@ -439,6 +439,29 @@ cligen_ph_active_set_byname(cligen_handle h,
  * @endcode
  */
 
+/*! Check if an object belongs to a tree
+ *
+ * @param[in]  ph    Parse-tree header
+ * @param[in]  co    CLIgen object
+ * @retval     1     Yes
+ * @retval     0     No
+ */
+static int
+ph_has_object(pt_head *ph,
+              cg_obj  *co)
+{
+    parse_tree *pt;
+    int         i;
+
+    while (co_up(co) != NULL)
+        co = co_up(co);
+    pt = cligen_ph_parsetree_get(ph);
+    for (i=0; i<pt_len_get(pt); i++)
+        if (pt_vec_i_get(pt, i) == co)
+            return 1;
+    return 0;
+}
+
 /*! Callback: Working point tree set
  *
  * Format of argv:
@@ -459,9 +482,12 @@ cligen_wp_set(cligen_handle h,
     if ((ph = cligen_ph_find(h, treename)) != NULL &&
         (co = cligen_co_match(h)) != NULL){
         if (co->co_treeref_orig != NULL)
-            cligen_ph_workpoint_set(ph, co->co_treeref_orig);
-        else if (co->co_ref != NULL)
-            cligen_ph_workpoint_set(ph, co->co_ref);
+            co = co->co_treeref_orig;
+        else
+            co = co->co_ref;
+        /* The command itself (not in the tree) leaves working point as it is */
+        if (co != NULL && ph_has_object(ph, co))
+            cligen_ph_workpoint_set(ph, co);
     }
     return 0;
 }
-- 
2.43.0


From 5e8f42787113848e3e95de37ec2a68090cbbf820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 78/95] fix: element after the last of a tree was read

---
 cligen_parsetree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index f614586..a4422a6 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -135,7 +135,7 @@ pt_vec_i_get(parse_tree *pt,
              int         i)
 {
     struct cg_obj **ptvec;
-    if (pt == NULL || i<0 || i>pt->pt_len){
+    if (pt == NULL || i<0 || i>=pt->pt_len){
        errno = EINVAL;
        return NULL;
     }
-- 
2.43.0


From 6b85d31241fec9a3974b88d9eecd299f6f30a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 79/95] fix: crash when an empty slot of a tree was deleted

---
 cligen_parsetree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index a4422a6..3bf76b1 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -238,7 +238,8 @@ pt_vec_i_delete(parse_tree *pt,
     }
     co = pt->pt_vec[i];
     pt->pt_vec[i] = NULL;
-    co_free(co, recurse);
+    if (co != NULL)
+        co_free(co, recurse);
     if ((size = (pt_len_get(pt) - (i+1))*sizeof(cg_obj*)) != 0)
         memmove(&pt->pt_vec[i],
                 &pt->pt_vec[i+1],
-- 
2.43.0


From 16a7e6d22befdf334a2539804fbadcfbad35d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 80/95] fix: printed specification accepted more than the
 original if several words are optional

---
 cligen_print.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cligen_print.c b/cligen_print.c
index 629a4ab..3b4ebae 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -167,8 +167,9 @@ co2cbuf(cbuf   *cb,
     /* Add [] if optional. Note this is neither not complete/correct since it only notes
      * that the symbol was created within a [], not the exact composition.
      * Thus, for example, both "[a b]" and "[a[b]]" will be shown as "[a][b]".
+     * Therefore not in parsable format, where the children say which symbols can be left out
      */
-    if (co_flags_get(co, CO_FLAGS_OPTION))
+    if (brief && co_flags_get(co, CO_FLAGS_OPTION))
         cprintf(cb, "[");
     switch (co->co_type){
     case CO_COMMAND:
@@ -186,7 +187,7 @@ co2cbuf(cbuf   *cb,
         cprintf(cb, ";");
         break;
     }
-    if (co_flags_get(co, CO_FLAGS_OPTION))
+    if (brief && co_flags_get(co, CO_FLAGS_OPTION))
         cprintf(cb, "]");
     if (brief == 0){
         if (co->co_helpstring){
-- 
2.43.0


From ca6d0a48c6f5c1dd285818c61ea5bb9b7eca6b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 81/95] fix: choices, fraction digits, decimal ranges, expand
 arguments, inverted patterns and preferences were not printed in a form that
 can be parsed

---
 cligen_print.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/cligen_print.c b/cligen_print.c
index 3b4ebae..89b3f0e 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -89,7 +89,7 @@ cov2cbuf(cbuf   *cb,
     cg_var *cv1;
     cg_var *cv2;
 
-    if (co->co_choice){
+    if (brief && co->co_choice){
         if (strchr(co->co_choice, '|'))
             cprintf(cb, "(%s)", co->co_choice);
         else
@@ -103,9 +103,10 @@ cov2cbuf(cbuf   *cb,
         }
         else{
             cprintf(cb, "%c%s:%s", VARIABLE_PRE, co->co_command, cv_type2str(co->co_vtype));
-
+            if (co->co_vtype == CGV_DEC64) /* Must precede range */
+                cprintf(cb, " fraction-digits:%u", co->co_dec64_n);
             for (i=0; i<co->co_rangelen; i++){
-                if (cv_isint(co->co_vtype))
+                if (cv_isint(co->co_vtype) || co->co_vtype == CGV_DEC64)
                     cprintf(cb, " range[");
                 else
                     cprintf(cb, " length[");
@@ -121,23 +122,31 @@ cov2cbuf(cbuf   *cb,
             if (co->co_show)
                 cprintf(cb, " show:\"%s\"", co->co_show);
             if (co->co_expand_fn_str){
-                cprintf(cb, " %s(\"", co->co_expand_fn_str);
-                if (co->co_expand_fn_vec){
+                cprintf(cb, " %s(", co->co_expand_fn_str);
+                if (cvec_len(co->co_expand_fn_vec) == 0) /* An argument is mandatory */
+                    cprintf(cb, "\"\"");
+                else {
                     cg_var *cv = NULL;
                     int   i = 0;
                     while ((cv = cvec_each(co->co_expand_fn_vec, cv)) != NULL) {
                         if (i++)
                             cprintf(cb, ",");
+                        cprintf(cb, "\"");
                         cv2cbuf(cv, cb);
+                        cprintf(cb, "\"");
                     }
                 }
-                cprintf(cb, "\")");
+                cprintf(cb, ")");
             }
             cv1 = NULL;
             while ((cv1 = cvec_each(co->co_regex, cv1)) != NULL)
-                cprintf(cb, " regexp:\"%s\"", cv_string_get(cv1));
+                cprintf(cb, " regexp:%s\"%s\"", cv_flag(cv1, V_INVERT)?"!":"", cv_string_get(cv1));
             if (co->co_translate_fn_str)
                 cprintf(cb, " translate:%s()", co->co_translate_fn_str);
+            if (co->co_preference)
+                cprintf(cb, " preference:%u", co->co_preference);
+            if (co->co_choice) /* Must be last */
+                cprintf(cb, " choice:%s", co->co_choice);
             cprintf(cb, "%c", VARIABLE_POST);
         }
     }
-- 
2.43.0


From 645eaa87182a3c557d09047b1004ed0438c92777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 82/95] fix: labels were printed several times

---
 cligen_print.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cligen_print.c b/cligen_print.c
index 89b3f0e..a430360 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -204,11 +204,9 @@ co2cbuf(cbuf   *cb,
             cbuf_append_str(cb, co->co_helpstring);
             cbuf_append_str(cb, "\")");
         }
-        if (co_flags_get(co, CO_FLAGS_HIDE))
+        if (co_flags_get(co, CO_FLAGS_HIDE) &&
+            cvec_find(co->co_cvec, "hide") == NULL)
             cprintf(cb, ", hide");
-        cv = NULL;
-        while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
-            cprintf(cb, ", %s", cv_name_get(cv));
         for (cc = co->co_callbacks; cc; cc = co_callback_next(cc)){
             co_callback2cbuf(cb, cc);
         }
-- 
2.43.0


From 167d4b4455da0fc8ac6ef5a72d30626c673c8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:34 +0000
Subject: [PATCH 83/95] fix: types of callback arguments were not printed

---
 cligen_callback.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_callback.c b/cligen_callback.c
index 2f1a814..43c21e1 100644
--- a/cligen_callback.c
+++ b/cligen_callback.c
@@ -154,6 +154,8 @@ co_callback2cbuf(cbuf        *cb,
             while ((cv = cvec_each(cc->cc_cvec, cv)) != NULL) {
                 if (i++)
                     cprintf(cb, ",");
+                if (cv_type_get(cv) != CGV_STRING)
+                    cprintf(cb, "(%s)", cv_type2str(cv_type_get(cv)));
                 cprintf(cb, "\"");
                 cv2cbuf(cv, cb);
                 cprintf(cb, "\"");
-- 
2.43.0


From 3f67bb467160f10f369e37a38442e8dd2197a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 84/95] fix: sets with one member and labels before a single
 sub-command were not printed in a form that can be parsed

---
 cligen_print.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cligen_print.c b/cligen_print.c
index a430360..13a31de 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -168,6 +168,7 @@ co2cbuf(cbuf   *cb,
     cg_obj      *co1;
     cg_obj      *cot = NULL;
     cg_var      *cv;
+    int          block;
 
     if (co == NULL){
         errno = EINVAL;
@@ -222,9 +223,15 @@ co2cbuf(cbuf   *cb,
         cprintf(cb, ";");
     }
     pt = co_pt_get(co);
-    if (pt_len_get(pt) > 1){
-        if (co_sets_get(co))
-            cprintf(cb, "@");
+    /* A block is needed for several children, and in parsable format for sets and after labels */
+    block = pt_len_get(pt) > 1;
+    if (!brief && pt_len_get(pt) == 1 &&
+        (co1 = pt_vec_i_get(pt, 0)) != NULL && co1->co_type != CO_EMPTY &&
+        (co_sets_get(co) || cvec_len(co->co_cvec) || co_flags_get(co, CO_FLAGS_HIDE)))
+        block = 1;
+    if (block){
+        if (co_sets_get(co)) /* A label may contain @ */
+            cprintf(cb, brief?"@":" @");
         cprintf(cb, "{\n");
     }
     else
@@ -234,7 +241,7 @@ co2cbuf(cbuf   *cb,
             cprintf(cb, "\n");
     if (pt2cbuf(cb, pt, marginal+3, brief) < 0)
         goto done;
-    if (pt_len_get(pt)>1){
+    if (block){
         cprintf(cb, "%*s", marginal, "");
         cprintf(cb, "}\n");
     }
-- 
2.43.0


From 59804ff658af6e6e6e79c365d1c4d431ff5f0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 85/95] fix: special characters in keywords were printed
 without escape

---
 cligen_print.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/cligen_print.c b/cligen_print.c
index 13a31de..e7a511e 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -154,6 +154,24 @@ cov2cbuf(cbuf   *cb,
     return retval;
 }
 
+/*! Print name of a command or tree reference to a cligen buf
+ *
+ * @param[out] cb    CLIgen buffer string to print to
+ * @param[in]  name  Name of command or tree
+ * @param[in]  brief If set, name as is, otherwise characters with a meaning in a clispec are escaped
+ */
+static void
+name2cbuf(cbuf *cb,
+          char *name,
+          int   brief)
+{
+    for (; *name; name++){
+        if (!brief && strchr("@ \t,#=;\\<()[]|{}", *name) != NULL)
+            cprintf(cb, "\\");
+        cprintf(cb, "%c", *name);
+    }
+}
+
 /*! Print a CLIgen object (cg object / co) to a CLIgen buffer
  */
 static int
@@ -184,11 +202,18 @@ co2cbuf(cbuf   *cb,
     switch (co->co_type){
     case CO_COMMAND:
         if (co->co_command)
-            cprintf(cb, "%s", co->co_command);
+            name2cbuf(cb, co->co_command, brief);
         break;
     case CO_REFERENCE:
-        if (co->co_command)
-            cprintf(cb, "@%s", co->co_command);
+        if (co->co_command){
+            cprintf(cb, "@");
+            if (IS_PIPE_TREE(co->co_command)){
+                cprintf(cb, "|");
+                name2cbuf(cb, co->co_command + 1, brief);
+            }
+            else
+                name2cbuf(cb, co->co_command, brief);
+        }
         break;
     case CO_VARIABLE:
         cov2cbuf(cb, co, brief);
-- 
2.43.0


From c5d9ce6ba0cdebadcb41c0c68e2d493b97744d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:42 +0000
Subject: [PATCH 86/95] fix: values of local assignments were not printed

---
 cligen_print.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cligen_print.c b/cligen_print.c
index e7a511e..59994e4 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -172,6 +172,19 @@ name2cbuf(cbuf *cb,
     }
 }
 
+/*! Check if a CLIgen object has local assignments, which are global if not in a block
+ */
+static int
+co_assignments(cg_obj *co)
+{
+    cg_var *cv = NULL;
+
+    while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
+        if (cv_type_get(cv) == CGV_STRING)
+            return 1;
+    return 0;
+}
+
 /*! Print a CLIgen object (cg object / co) to a CLIgen buffer
  */
 static int
@@ -238,8 +251,11 @@ co2cbuf(cbuf   *cb,
         }
     }
     cv = NULL;
-    while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
+    while ((cv = cvec_each(co->co_cvec, cv)) != NULL){
         cprintf(cb, ", %s", cv_name_get(cv));
+        if (!brief && cv_type_get(cv) == CGV_STRING) /* assignment */
+            cprintf(cb, "=\"%s\"", cv_string_get(cv));
+    }
     if (co_terminal(co, &cot) &&
         cot != NULL){
         cg_var *cv = NULL;
@@ -252,7 +268,7 @@ co2cbuf(cbuf   *cb,
     block = pt_len_get(pt) > 1;
     if (!brief && pt_len_get(pt) == 1 &&
         (co1 = pt_vec_i_get(pt, 0)) != NULL && co1->co_type != CO_EMPTY &&
-        (co_sets_get(co) || cvec_len(co->co_cvec) || co_flags_get(co, CO_FLAGS_HIDE)))
+        (co_sets_get(co) || cvec_len(co->co_cvec) || co_flags_get(co, CO_FLAGS_HIDE) || co_assignments(co1)))
         block = 1;
     if (block){
         if (co_sets_get(co)) /* A label may contain @ */
-- 
2.43.0


From bb67a55188518a6e2cff187ffd5eaea10f2f0f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:32 +0000
Subject: [PATCH 87/95] fix: quotes and backslashes in arguments were printed
 without escape

---
 cligen_callback.c | 30 +++++++++++++++++++++++++++---
 cligen_callback.h |  1 +
 cligen_print.c    | 10 +++++-----
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/cligen_callback.c b/cligen_callback.c
index 43c21e1..9e224b0 100644
--- a/cligen_callback.c
+++ b/cligen_callback.c
@@ -137,6 +137,32 @@ co_callbacks_free(cg_callback **ccp)
     return 0;
 }
 
+/*! Print a value as a quoted string in a clispec to a CLIgen buffer
+ *
+ * Strings are escaped, since escapes are removed when a clispec is parsed
+ * @param[out] cb    CLIgen buffer string to print to
+ * @param[in]  cv    Value, eg argument of a callback
+ */
+int
+co_quote2cbuf(cbuf   *cb,
+              cg_var *cv)
+{
+    char *s;
+
+    cprintf(cb, "\"");
+    if (cv_type_get(cv) == CGV_STRING){
+        for (s = cv_string_get(cv); s && *s; s++){
+            if (*s == '"' || *s == '\\')
+                cprintf(cb, "\\");
+            cprintf(cb, "%c", *s);
+        }
+    }
+    else
+        cv2cbuf(cv, cb);
+    cprintf(cb, "\"");
+    return 0;
+}
+
 /*! Print a CLIgen object callback to a CLIgen buffer
  */
 int
@@ -156,9 +182,7 @@ co_callback2cbuf(cbuf        *cb,
                     cprintf(cb, ",");
                 if (cv_type_get(cv) != CGV_STRING)
                     cprintf(cb, "(%s)", cv_type2str(cv_type_get(cv)));
-                cprintf(cb, "\"");
-                cv2cbuf(cv, cb);
-                cprintf(cb, "\"");
+                co_quote2cbuf(cb, cv);
             }
         }
         cprintf(cb, ")");
diff --git a/cligen_callback.h b/cligen_callback.h
index 899a66b..88cf01b 100644
--- a/cligen_callback.h
+++ b/cligen_callback.h
@@ -70,6 +70,7 @@ int            co_callback_fn_set(cg_callback *cc, cgv_fnstype_t *fn);
 cg_callback   *co_callback_next(cg_callback *cc);
 int            co_callback_copy(cg_callback *cc0, cg_callback **ccn);
 int            co_callbacks_free(cg_callback **ccp);
+int            co_quote2cbuf(cbuf *cb, cg_var *cv);
 int            co_callback2cbuf(cbuf *cb, cg_callback *cc);
 size_t         co_callback_size(cg_callback *cc);
 
diff --git a/cligen_print.c b/cligen_print.c
index 59994e4..bcb5854 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -131,9 +131,7 @@ cov2cbuf(cbuf   *cb,
                     while ((cv = cvec_each(co->co_expand_fn_vec, cv)) != NULL) {
                         if (i++)
                             cprintf(cb, ",");
-                        cprintf(cb, "\"");
-                        cv2cbuf(cv, cb);
-                        cprintf(cb, "\"");
+                        co_quote2cbuf(cb, cv);
                     }
                 }
                 cprintf(cb, ")");
@@ -253,8 +251,10 @@ co2cbuf(cbuf   *cb,
     cv = NULL;
     while ((cv = cvec_each(co->co_cvec, cv)) != NULL){
         cprintf(cb, ", %s", cv_name_get(cv));
-        if (!brief && cv_type_get(cv) == CGV_STRING) /* assignment */
-            cprintf(cb, "=\"%s\"", cv_string_get(cv));
+        if (!brief && cv_type_get(cv) == CGV_STRING){ /* assignment */
+            cprintf(cb, "=");
+            co_quote2cbuf(cb, cv);
+        }
     }
     if (co_terminal(co, &cot) &&
         cot != NULL){
-- 
2.43.0


From 9072f708c988ee4f712faf1cda548545f1e9679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 88/95] fix: hide label was printed at different places for
 equal specifications

---
 cligen_print.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cligen_print.c b/cligen_print.c
index bcb5854..57d012a 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -241,8 +241,7 @@ co2cbuf(cbuf   *cb,
             cbuf_append_str(cb, co->co_helpstring);
             cbuf_append_str(cb, "\")");
         }
-        if (co_flags_get(co, CO_FLAGS_HIDE) &&
-            cvec_find(co->co_cvec, "hide") == NULL)
+        if (co_flags_get(co, CO_FLAGS_HIDE))
             cprintf(cb, ", hide");
         for (cc = co->co_callbacks; cc; cc = co_callback_next(cc)){
             co_callback2cbuf(cb, cc);
@@ -250,6 +249,8 @@ co2cbuf(cbuf   *cb,
     }
     cv = NULL;
     while ((cv = cvec_each(co->co_cvec, cv)) != NULL){
+        if (!brief && co_flags_get(co, CO_FLAGS_HIDE) && strcmp(cv_name_get(cv), "hide") == 0)
+            continue; /* Already printed */
         cprintf(cb, ", %s", cv_name_get(cv));
         if (!brief && cv_type_get(cv) == CGV_STRING){ /* assignment */
             cprintf(cb, "=");
-- 
2.43.0


From fd748d9ad1ebab64907e9ac3c9e7ea9b5d141f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:14 +0000
Subject: [PATCH 89/95] fix: edit position was set to a temporary object of
 merged trees, which is freed

---
 cligen_expand.c | 4 ++--
 cligen_object.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 7504ab5..8cfe568 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -258,8 +258,8 @@ co_expanded_dup(cg_obj *co)
     /* Let parent be an object that remains */
     if ((coo = co->co_treeref_orig) == NULL)
         coo = co->co_ref;
-    /* Objects of a merged tree already point to their originals */
-    if ((pt = pt_dup(co_pt_get(co), coo, co->co_merged ? 0x0 : CO_COPY_FLAGS_TREEREF)) == NULL)
+    /* Note objects of a merged tree already point to their originals */
+    if ((pt = pt_dup(co_pt_get(co), coo, CO_COPY_FLAGS_TREEREF)) == NULL)
         return NULL;
     if (co->co_filter && pt_filter_apply(pt, co->co_filter) < 0){
         pt_free(pt, 1);
diff --git a/cligen_object.c b/cligen_object.c
index a680a3f..26e1d2a 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -677,7 +677,7 @@ co_copy(cg_obj  *co,
     con->co_merged = NULL;
     /* If called from pt_expand_treeref: the copy (of a tree instance) points to the original tree
      */
-    if (flags & CO_COPY_FLAGS_TREEREF)
+    if ((flags & CO_COPY_FLAGS_TREEREF) && co->co_treeref_orig == NULL)
         con->co_treeref_orig = co;
     co_flags_reset(con, CO_FLAGS_MARK);
     /* Replace all pointers */
@@ -782,7 +782,7 @@ co_copy1(cg_obj  *co,
 
     /* If called from pt_expand_treeref: the copy (of a tree instance) points to the original tree
      */
-    if (flags & CO_COPY_FLAGS_TREEREF)
+    if ((flags & CO_COPY_FLAGS_TREEREF) && co->co_treeref_orig == NULL)
         con->co_treeref_orig = co;
     co_flags_reset(con, CO_FLAGS_MARK);
     /* Replace all pointers */
-- 
2.43.0


From ca665c4975853a306ac0f7a5660010b51d6e7dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 90/95] fix: registered descriptors and the interrupt hook were
 not served after a signal while the prompt waits

---
 cligen_getline.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index ab7572e..29a9c19 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -330,8 +330,14 @@ gl_unregfd(int fd)
     return -1;
 }
 
+/*! Serve registered file descriptors until something arrives on stdin
+ *
+ * @param[in]  h   CLIgen handle
+ * @retval     0   Input on stdin, or error (also of a callback)
+ * @retval    -1   Interrupted and the interrupt hook failed
+ */
 int
-gl_select()
+gl_select(cligen_handle h)
 {
     int i;
     fd_set fdset = {0,};
@@ -341,12 +347,18 @@ gl_select()
         FD_SET(0, &fdset);
         for(i = 0; i < nextfds; i++)
             FD_SET(extfds[i].fd, &fdset);
-        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0)
-            return -1;
+        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0){
+            if (errno == EINTR){ /* As for read */
+                if (gl_interrupt_hook && gl_interrupt_hook(h) < 0)
+                    return -1;
+                continue;
+            }
+            break;
+        }
         for(i = 0; i < nextfds; i++)
             if (FD_ISSET(extfds[i].fd, &fdset))
                 if (extfds[i].cb(extfds[i].fd, extfds[i].arg) < 0)
-                    return -1;
+                    return 0;
         if (FD_ISSET(0, &fdset))
             break;
     }
@@ -416,7 +428,8 @@ gl_getc(cligen_handle h)
 #endif
 
 #if CLIGEN_REGFD
-    gl_select(); /* block until something arrives on stdin */
+    if (gl_select(h) < 0) /* block until something arrives on stdin */
+        return -1;
 #endif
 #ifdef __unix__
     while ((c = read(0, &ch, 1)) == -1) {
-- 
2.43.0


From 72ada9c68f6c04b04c872251fb92807d03ae8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:11 +0000
Subject: [PATCH 91/95] fix: a failed allocation when copying or parsing a
 value gave strings owned by two values, or an incomplete url

---
 cligen_cv.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 5c1de14..7d00309 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1642,6 +1642,10 @@ parse_url(char   *url,
         free(cv->var_urluser);
     if (cv->var_urlpasswd)
         free(cv->var_urlpasswd);
+    cv->var_urladdr = NULL;
+    cv->var_urlpath = NULL;
+    cv->var_urluser = NULL;
+    cv->var_urlpasswd = NULL;
     cv->var_urlproto = strdup(str);
     str = tmp+3;
     if ((tmp = strchr(str, '@')) != NULL){
@@ -1670,6 +1674,9 @@ parse_url(char   *url,
     }
     else
         cv->var_urlpath = strdup("");
+    if (cv->var_urlproto == NULL || cv->var_urladdr == NULL || cv->var_urlpath == NULL ||
+        cv->var_urluser == NULL || cv->var_urlpasswd == NULL)
+        goto done; /* strdup */
     retval = 1; /* OK */
   done:
     if (str0)
@@ -3613,6 +3620,18 @@ cv_cp(cg_var *new,
     int retval = -1;
 
     memcpy(new, old, sizeof(*old));
+    /* Share no string with old, also on error */
+    new->var_name = NULL;
+    new->var_show = NULL;
+    if (cv_isstring(new->var_type))
+        new->var_string = NULL;
+    else if (new->var_type == CGV_URL){
+        new->var_urlproto = NULL;
+        new->var_urladdr = NULL;
+        new->var_urlpath = NULL;
+        new->var_urluser = NULL;
+        new->var_urlpasswd = NULL;
+    }
     if (old->var_name)
         if ((new->var_name = strdup(old->var_name)) == NULL)
             goto done;
-- 
2.43.0


From 20ca95d935478ff7d33bc9b93daa923f07b3fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:11 +0000
Subject: [PATCH 92/95] fix: a failed allocation in a vector lost its elements
 or was not reported

---
 cligen_cvec.c | 34 ++++++++++++++++++++++++----------
 cligen_util.c |  9 ++++++---
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 0d205bc..b893d41 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -223,6 +223,7 @@ cvec_add(cvec        *cvv,
 {
     int     len;
     cg_var *cv;
+    cg_var *vec;
 
     if (cvv == NULL){
         errno = EINVAL;
@@ -230,8 +231,9 @@ cvec_add(cvec        *cvv,
     }
     len = cvv->vr_len + 1;
 
-    if ((cvv->vr_vec = realloc(cvv->vr_vec, len*sizeof(cg_var))) == NULL)
+    if ((vec = realloc(cvv->vr_vec, len*sizeof(cg_var))) == NULL)
         return NULL;
+    cvv->vr_vec = vec;
     cvv->vr_len = len;
     cv = cvec_i(cvv, len-1);
     memset(cv, 0, sizeof(*cv));
@@ -254,6 +256,7 @@ cvec_append_var(cvec   *cvv,
 
     if (cvv && cv && (tail = cvec_add(cvv, cv_type_get(cv)))) {
         if (cv_cp(tail, cv) < 0) {
+            cv_reset(tail);
             cvec_del(cvv, tail);
             tail = NULL;
         }
@@ -277,6 +280,7 @@ cvec_del(cvec   *cvv,
 {
     int i;
     cg_var *cv;
+    cg_var *vec;
 
     if (cvec_len(cvv) == 0)
         return 0;
@@ -296,7 +300,9 @@ cvec_del(cvec   *cvv,
                 (cvv->vr_len-i-1) * sizeof(cvv->vr_vec[0]));
 
     cvv->vr_len--;
-    cvv->vr_vec = realloc(cvv->vr_vec, cvv->vr_len*sizeof(cvv->vr_vec[0])); /* Shrink should not fail? */
+    vec = realloc(cvv->vr_vec, cvv->vr_len*sizeof(cvv->vr_vec[0])); /* Shrink should not fail? */
+    if (vec != NULL || cvv->vr_len == 0)
+        cvv->vr_vec = vec;
 
     return cvec_len(cvv);
 }
@@ -453,13 +459,16 @@ cvec_dup(cvec *old)
         return NULL;
     if (old->vr_name &&
         (new->vr_name = strdup4(old->vr_name)) == NULL){
-        free(new);
+        cvec_free(new);
         return NULL;
     }
     i = 0;
     while ((cv0 = cvec_each(old, cv0)) != NULL) {
         cv1 = cvec_i(new, i++);
-        cv_cp(cv1, cv0);
+        if (cv_cp(cv1, cv0) < 0){
+            cvec_free(new);
+            return NULL;
+        }
     }
     return new;
 }
@@ -481,8 +490,11 @@ cvec_start(char *cmd)
         return NULL;
     cv = cvec_i(cvec, 0);
     cv->var_type = CGV_REST;
-    cv_name_set(cv, "cmd"); /* the whole command string */
-    cv_string_set(cv, cmd); /* the whole command string */
+    if (cv_name_set(cv, "cmd") == NULL || /* the whole command string */
+        cv_string_set(cv, cmd) == NULL){ /* the whole command string */
+        cvec_free(cvec);
+        return NULL;
+    }
     return cvec;
 }
 
@@ -939,14 +951,16 @@ cvec_expand_first(cvec *cvv)
     if ((cb = cbuf_new()) == NULL)
         goto done;
     for (i=1; i<cvec_len(cvv); i++){
-        if (i>1)
-            cprintf(cb, " ");
+        if (i>1 && cprintf(cb, " ") < 0)
+            goto done;
         if ((cv = cvec_i(cvv, i)) == NULL)
             goto done;
-        cv2cbuf(cv, cb);
+        if (cv2cbuf(cv, cb) < 0)
+            goto done;
     }
     cv = cvec_i(cvv,0);
-    cv_string_set(cv, cbuf_get(cb));
+    if (cv_string_set(cv, cbuf_get(cb)) == NULL)
+        goto done;
     retval = 0;
  done:
     if (cb)
diff --git a/cligen_util.c b/cligen_util.c
index 9eb9fb3..817d6c6 100644
--- a/cligen_util.c
+++ b/cligen_util.c
@@ -80,9 +80,12 @@ cvec_add_string(cvec       *cvv,
 
     if ((cv = cvec_add(cvv, CGV_STRING)) == NULL)
         goto done;
-    if (name)
-        cv_name_set(cv, name);
-    cv_string_set(cv, val);
+    if ((name && cv_name_set(cv, name) == NULL) ||
+        (val && cv_string_set(cv, val) == NULL)){
+        cv_reset(cv);
+        cvec_del(cvv, cv);
+        goto done;
+    }
     retval = 0;
  done:
     return retval;
-- 
2.43.0


From ea760c437a9dcb8ad1281be29dd6ed026c918a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:02 +0000
Subject: [PATCH 93/95] fix: a failed allocation when copying, merging or
 growing a tree or a buffer freed parts of the original or lost the content

---
 cligen_buf.c       | 11 ++++--
 cligen_callback.c  | 32 +++++++++---------
 cligen_object.c    | 83 ++++++++++++++++++++++++++++++++--------------
 cligen_parsetree.c | 30 +++++++++++------
 4 files changed, 101 insertions(+), 55 deletions(-)

diff --git a/cligen_buf.c b/cligen_buf.c
index 737f51f..7887a89 100644
--- a/cligen_buf.c
+++ b/cligen_buf.c
@@ -213,8 +213,10 @@ static int
 cbuf_realloc(cbuf  *cb,
              size_t sz)
 {
-    int retval = -1;
-    int diff;
+    int    retval = -1;
+    int    diff;
+    size_t buflen0 = cb->cb_buflen;
+    char  *buf;
 
     diff = cb->cb_buflen - (cb->cb_strlen + sz + 1);
     if (diff <= 0){
@@ -225,8 +227,11 @@ cbuf_realloc(cbuf  *cb,
                 cb->cb_buflen += cbuflen_threshold; /* Add - linear growth*/
             diff = cb->cb_buflen - (cb->cb_strlen + sz + 1);
         }
-        if ((cb->cb_buffer = realloc(cb->cb_buffer, cb->cb_buflen)) == NULL)
+        if ((buf = realloc(cb->cb_buffer, cb->cb_buflen)) == NULL){
+            cb->cb_buflen = buflen0; /* keep what is there */
             goto done;
+        }
+        cb->cb_buffer = buf;
     }
     retval = 0;
  done:
diff --git a/cligen_callback.c b/cligen_callback.c
index 9e224b0..f8687aa 100644
--- a/cligen_callback.c
+++ b/cligen_callback.c
@@ -64,6 +64,21 @@ co_callback_next(cg_callback *cc)
     return cc->cc_next;
 }
 
+/*! Free a single callback structure
+ *
+ * @param[in]  cc   Callback object
+ */
+static int
+co_callback_one_free(cg_callback *cc)
+{
+    if (cc->cc_cvec)
+        cvec_free(cc->cc_cvec);
+    if (cc->cc_fn_str)
+        free(cc->cc_fn_str);
+    free(cc);
+    return 0;
+}
+
 /*! Copy a linked list of cg_obj callback objects
  *
  * Copy a linked list of cg_obj callback objects, including function pointer,
@@ -102,25 +117,10 @@ co_callback_copy(cg_callback  *cc0,
     retval = 0;
  done:
     if (cc1)
-        free(cc1);
+        co_callback_one_free(cc1);
     return retval;
 }
 
-/*! Free a single callback structure
- *
- * @param[in]  cc   Callback object
- */
-static int
-co_callback_one_free(cg_callback *cc)
-{
-    if (cc->cc_cvec)
-        cvec_free(cc->cc_cvec);
-    if (cc->cc_fn_str)
-        free(cc->cc_fn_str);
-    free(cc);
-    return 0;
-}
-
 /*! Free a linked list of callbacks
  *
  * @param[in]  ccp   Pointer to head of callback linked list
diff --git a/cligen_object.c b/cligen_object.c
index 26e1d2a..223af5e 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -210,10 +210,9 @@ co_pt_realloc(cg_obj *co)
 {
     int retval = -1;
     if (co->co_pt_len == 0){
-        co->co_pt_len++;
-        //      if ((co->co_ptvec = realloc(co->co_ptvec, (co->co_pt_len)*sizeof(parse_tree *))) == 0)
-        if ((co->co_ptvec = calloc(co->co_pt_len, sizeof(parse_tree *))) == 0)
+        if ((co->co_ptvec = calloc(1, sizeof(parse_tree *))) == NULL)
             goto done;
+        co->co_pt_len = 1;
     }
     retval = 0;
  done:
@@ -592,17 +591,19 @@ co_new(char   *cmd,
 
     if ((co = co_new_only(CO_COMMAND)) == NULL)
         return NULL;
-    if (cmd)
-        co->co_command = strdup(cmd);
+    if (cmd && (co->co_command = strdup(cmd)) == NULL){
+        co_free(co, 0);
+        return NULL;
+    }
     co_up_set(co, parent);
     /* parse-tree created implicitly */
     if ((pt = pt_new()) == NULL){
-        free(co);
+        co_free(co, 0);
         return NULL;
     }
     if (co_pt_set(co, pt) < 0){
         free(pt);
-        free(co);
+        co_free(co, 0);
         return NULL;
     }
     return co;
@@ -633,17 +634,43 @@ cov_new(enum cv_type cvtype,
     co->co_dec64_n = CGV_DEC64_N_DEFAULT;
     /* parse-tree created implicitly */
     if ((pt = pt_new()) == NULL){
-        free(co);
+        co_free(co, 0);
         return NULL;
     }
     if (co_pt_set(co, pt) < 0){
         free(pt);
-        free(co);
+        co_free(co, 0);
         return NULL;
     }
     return co;
 }
 
+/*! Clear the pointers of a raw copy to what the original object owns
+ *
+ * So that a copy can be freed at any time before it is complete
+ * @param[in]  con  Raw copy of an object
+ */
+static void
+co_copy_clear(cg_obj *con)
+{
+    con->co_command = NULL;
+    con->co_prefix = NULL;
+    con->co_callbacks = NULL;
+    con->co_cvec = NULL;
+    con->co_filter = NULL;
+    con->co_helpstring = NULL;
+    if (con->co_type == CO_VARIABLE){
+        con->co_expand_fn_str = NULL;
+        con->co_translate_fn_str = NULL;
+        con->co_show = NULL;
+        con->co_rangecvv_low = NULL;
+        con->co_rangecvv_upp = NULL;
+        con->co_expand_fn_vec = NULL;
+        con->co_choice = NULL;
+        con->co_regex = NULL;
+    }
+}
+
 /*! Recursively copy a cligen object.
  *
  * @param[in]  co     The object to copy from
@@ -671,6 +698,7 @@ co_copy(cg_obj  *co,
         goto done;
     size = co_size(con->co_type);
     memcpy(con, co, size);
+    co_copy_clear(con);
     con->co_ptvec = NULL;
     con->co_pt_len = 0;
     con->co_ref = NULL;
@@ -690,17 +718,19 @@ co_copy(cg_obj  *co,
             goto done;
     if (co_callback_copy(co->co_callbacks, &con->co_callbacks) < 0)
         goto done;
-    if (co->co_cvec)
-        con->co_cvec = cvec_dup(co->co_cvec);
-    if (co->co_filter){
-        con->co_filter = NULL;
-        co_filter_set(con, co->co_filter);
-    }
+    if (co->co_cvec &&
+        (con->co_cvec = cvec_dup(co->co_cvec)) == NULL)
+        goto done;
+    if (co->co_filter &&
+        co_filter_set(con, co->co_filter) == NULL)
+        goto done;
     if ((pt = co_pt_get(co)) != NULL){
         if ((ptn = pt_dup(pt, con, flags)) == NULL) /* sets a new pt under con */
             goto done;
-        if (co_pt_set(con, ptn) < 0)
+        if (co_pt_set(con, ptn) < 0){
+            pt_free(ptn, 1);
             goto done;
+        }
     }
     if (co->co_helpstring)
         if ((con->co_helpstring = strdup(co->co_helpstring)) == NULL)
@@ -738,7 +768,7 @@ co_copy(cg_obj  *co,
     retval = 0;
  done:
     if (con)
-        co_free(con, 0);
+        co_free(con, 1);
     return retval;
 }
 
@@ -776,6 +806,7 @@ co_copy1(cg_obj  *co,
         goto done;
     size = co_size(con->co_type);
     memcpy(con, co, size);
+    co_copy_clear(con);
     con->co_ptvec = NULL;
     con->co_pt_len = 0;
     con->co_merged = recursive ? NULL : co_merged_ref(co->co_merged);
@@ -795,19 +826,21 @@ co_copy1(cg_obj  *co,
             goto done;
     if (co_callback_copy(co->co_callbacks, &con->co_callbacks) < 0)
         goto done;
-    if (co->co_cvec)
-        con->co_cvec = cvec_dup(co->co_cvec);
-    if (co->co_filter){
-        con->co_filter = NULL;
-        co_filter_set(con, co->co_filter);
-    }
+    if (co->co_cvec &&
+        (con->co_cvec = cvec_dup(co->co_cvec)) == NULL)
+        goto done;
+    if (co->co_filter &&
+        co_filter_set(con, co->co_filter) == NULL)
+        goto done;
     if ((pt = co_pt_get(co)) != NULL){
         /* Here this function differs from co_copy */
         if (recursive){
             if ((ptn = pt_dup(pt, con, 0x0)) == NULL) /* sets a new pt under con */
                 goto done;
-            if (co_pt_set(con, ptn) < 0)
+            if (co_pt_set(con, ptn) < 0){
+                pt_free(ptn, 1);
                 goto done;
+            }
         }
         else {
             if (co_pt_set(con, pt) < 0)
@@ -850,7 +883,7 @@ co_copy1(cg_obj  *co,
     retval = 0;
  done:
     if (con)
-        co_free(con, 0);
+        co_free(con, recursive);
     return retval;
 }
 
diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index 3bf76b1..893908f 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -320,10 +320,13 @@ pt_new(void)
 int
 pt_realloc(parse_tree *pt)
 {
-    pt->pt_len++;
+    cg_obj **vec;
+
     /* Allocate larger cg_obj vector */
-    if ((pt->pt_vec = realloc(pt->pt_vec, (pt->pt_len)*sizeof(cg_obj *))) == 0)
+    if ((vec = realloc(pt->pt_vec, (pt->pt_len+1)*sizeof(cg_obj *))) == NULL)
         return -1;
+    pt->pt_vec = vec;
+    pt->pt_len++;
     pt->pt_vec[pt->pt_len - 1] = NULL; /* init field */
     return 0;
 }
@@ -363,8 +366,9 @@ pt_copy(parse_tree *pt,
             ptn->pt_len++;
     }
     if (pt_len_get(ptn) &&
-        (ptn->pt_vec = (cg_obj **)malloc(pt_len_get(ptn)*sizeof(cg_obj *))) == NULL){
-        fprintf(stderr, "%s: malloc: %s\n", __FUNCTION__, strerror(errno));
+        (ptn->pt_vec = (cg_obj **)calloc(pt_len_get(ptn), sizeof(cg_obj *))) == NULL){
+        fprintf(stderr, "%s: calloc: %s\n", __FUNCTION__, strerror(errno));
+        ptn->pt_len = 0;
         goto done;
     }
     j=0;
@@ -404,7 +408,7 @@ pt_dup(parse_tree *pt,
     if ((ptn = pt_new()) == NULL)
         goto done;
     if (pt_copy(pt, cop, flags, ptn) < 0){
-        free(ptn);
+        pt_free(ptn, 1);
         ptn = NULL;
         goto done;
     }
@@ -467,10 +471,12 @@ cligen_parsetree_merge(parse_tree *pt0,
                 goto done;
         }
         else{
-            if (pt_realloc(pt0) < 0)
-                goto done;
             if (co_copy(co1, parent, 0x0, &co1c) < 0)
                 goto done;
+            if (pt_realloc(pt0) < 0){
+                co_free(co1c, 1);
+                goto done;
+            }
             pt0->pt_vec[pt_len_get(pt0)-1] = co1c;
         }
     }
@@ -583,8 +589,9 @@ int
 pt_trunc(parse_tree *pt,
          int         len)
 {
-    int     i;
-    cg_obj *co;
+    int      i;
+    cg_obj  *co;
+    cg_obj **vec;
 
     if (pt == NULL){
         errno = EINVAL;
@@ -599,9 +606,10 @@ pt_trunc(parse_tree *pt,
             if ((co = pt_vec_i_get(pt, i)) != NULL)
                 co_free(co, 0);
         }
-        if ((pt->pt_vec = realloc(pt->pt_vec, (len)*sizeof(cg_obj *))) == 0)
-            return -1;
         pt->pt_len = len;
+        if ((vec = realloc(pt->pt_vec, (len)*sizeof(cg_obj *))) == NULL)
+            return -1;
+        pt->pt_vec = vec;
     }
     return 0;
 }
-- 
2.43.0


From cb6c1adedc0f2e32ccf644d8d3a38d1ae6096723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:48 +0000
Subject: [PATCH 94/95] fix: help text was neither truncated nor left-aligned
 when commands fill the terminal width

---
 cligen_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_io.c b/cligen_io.c
index 52ca631..10c827c 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -536,6 +536,8 @@ print_help_line(cligen_handle    h,
         while ((cv = cvec_each(ch->ch_helpvec, cv)) != NULL &&
                (linesmax==0 || j<linesmax)){
             w = termwidth - column_width - CLIGEN_HELP_LEFT_MARGIN;
+            if (w < 0) /* No room for help: a negative width would right-justify it */
+                w = 0;
             str = cv_string_get(cv);
             if (j > 0) /* skip first line */
                 fprintf(fout, "  %*s", -column_width, "");
-- 
2.43.0


From 9f6eff9e50a4d1284940cdf16de207732d9671d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:59 +0000
Subject: [PATCH 95/95] fix: completing a long word in front of other text
 wrote after the line buffer

---
 cligen_read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index 92eb685..edaeaa5 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -552,7 +552,7 @@ cli_complete(cligen_handle h,
         cligen_buf_increase(h, strlen(s));
         string = cligen_buf(h);
         n = strlen(string) - cursor; /* Nr of chars right of cursor to copy */
-        cligen_buf_increase(h, strlen(string)+cursor+n);
+        cligen_buf_increase(h, strlen(string)+extra);
         string = cligen_buf(h);
         for (i=cursor+n; i>=cursor; i--)             /* Copy right of cursor */
             string[i + extra] = string[i];
-- 
2.43.0

