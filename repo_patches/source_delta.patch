From da479afc4b7b419c152bb94a046656406f1db6d9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 01/52] hooks: loop contract hooks in misc.c
 (FIDOGATE_CONTRACTS)

---
 src/Makefile.am           |  1 +
 src/common/misc.c         | 32 ++++++++++++++++++++++++++++++++
 src/include/fgcontracts.h | 22 ++++++++++++++++++++++
 src/include/fidogate.h    |  1 +
 4 files changed, 56 insertions(+)
 create mode 100644 src/include/fgcontracts.h

diff --git a/src/Makefile.am b/src/Makefile.am
index 0bfad3f..e09f291 100644
--- a/src/Makefile.am
+++ b/src/Makefile.am
@@ -136,6 +136,7 @@ gate_install:
 noinst_HEADERS = include/constants.h \
 		 include/dbz.h \
 		 include/declare.h \
+		 include/fgcontracts.h \
 		 include/fidogate.h \
 		 include/getopt.h \
 		 include/node.h \
diff --git a/src/common/misc.c b/src/common/misc.c
index 7d63a93..a85b9cc 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -163,10 +163,14 @@ char *str_append2(char *d, size_t n, char *s1, char *s2)
     char *p = s1;
 
     for (; *p && sz < n; p++, sz++)
+        FGC_LOOP(str_append2, 1)
         d[sz] = *p;
+    FGC_AT(str_append2, 1)
 
     for (p = s2; *p && sz < n; p++, sz++)
+        FGC_LOOP(str_append2, 2)
         d[sz] = *p;
+    FGC_AT(str_append2, 2)
 
     d[sz++] = 0;
 
@@ -179,10 +183,14 @@ char *str_copy2(char *d, size_t n, char *s1, char *s2)
     char *p = s1;
 
     for (; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy2, 1)
         d[i] = *p;
+    FGC_AT(str_copy2, 1)
 
     for (p = s2; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy2, 2)
         d[i] = *p;
+    FGC_AT(str_copy2, 2)
 
     d[i++] = 0;
 
@@ -196,13 +204,19 @@ char *str_copy3(char *d, size_t n, char *s1, char *s2, char *s3)
     char *p = s1;
 
     for (; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy3, 1)
         d[i] = *p;
+    FGC_AT(str_copy3, 1)
 
     for (p = s2; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy3, 2)
         d[i] = *p;
+    FGC_AT(str_copy3, 2)
 
     for (p = s3; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy3, 3)
         d[i] = *p;
+    FGC_AT(str_copy3, 3)
 
     d[i++] = 0;
 
@@ -215,16 +229,24 @@ char *str_copy4(char *d, size_t n, char *s1, char *s2, char *s3, char *s4)
     char *p = s1;
 
     for (; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy4, 1)
         d[i] = *p;
+    FGC_AT(str_copy4, 1)
 
     for (p = s2; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy4, 2)
         d[i] = *p;
+    FGC_AT(str_copy4, 2)
 
     for (p = s3; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy4, 3)
         d[i] = *p;
+    FGC_AT(str_copy4, 3)
 
     for (p = s4; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy4, 4)
         d[i] = *p;
+    FGC_AT(str_copy4, 4)
 
     d[i++] = 0;
 
@@ -238,19 +260,29 @@ char *str_copy5(char *d, size_t n, char *s1, char *s2, char *s3, char *s4,
     char *p = s1;
 
     for (; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy5, 1)
         d[i] = *p;
+    FGC_AT(str_copy5, 1)
 
     for (p = s2; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy5, 2)
         d[i] = *p;
+    FGC_AT(str_copy5, 2)
 
     for (p = s3; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy5, 3)
         d[i] = *p;
+    FGC_AT(str_copy5, 3)
 
     for (p = s4; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy5, 4)
         d[i] = *p;
+    FGC_AT(str_copy5, 4)
 
     for (p = s5; *p && i < n; p++, i++)
+        FGC_LOOP(str_copy5, 5)
         d[i] = *p;
+    FGC_AT(str_copy5, 5)
 
     d[i++] = 0;
 
diff --git a/src/include/fgcontracts.h b/src/include/fgcontracts.h
new file mode 100644
index 0000000..9daa823
--- /dev/null
+++ b/src/include/fgcontracts.h
@@ -0,0 +1,22 @@
+/*:ts=8*/
+/*
+ * Hooks for loop contracts.  They expand to nothing unless FIDOGATE_CONTRACTS is
+ * defined, in which case the contract texts come from a header supplied by the
+ * verifier (fidogate_loop_contracts.h, found on its include path).
+ *
+ * FGC_LOOP(f, n)  between the head and the body of loop n of function f
+ * FGC_AT(f, n)    ghost statement n of function f
+ */
+#ifndef FGCONTRACTS_H
+#define FGCONTRACTS_H
+
+#ifdef FIDOGATE_CONTRACTS
+#include "fidogate_loop_contracts.h"
+#define FGC_LOOP(f, n)	FGC_LOOP_##f##_##n
+#define FGC_AT(f, n)	FGC_AT_##f##_##n
+#else
+#define FGC_LOOP(f, n)
+#define FGC_AT(f, n)
+#endif
+
+#endif
diff --git a/src/include/fidogate.h b/src/include/fidogate.h
index e677490..360fa43 100644
--- a/src/include/fidogate.h
+++ b/src/include/fidogate.h
@@ -35,6 +35,7 @@
 #include "config.h"
 #include "paths.h"              /* Automatically generated by Makefile */
 #include "constants.h"
+#include "fgcontracts.h"
 
 /*
  * heavy includin' ...
-- 
2.43.0


From 1c15dd843b47d7a424f7cfd049322c233a8cebae Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 02/52] fix: str_copy2..5, str_append2 wrote one byte past the
 destination

---
 src/common/misc.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/common/misc.c b/src/common/misc.c
index a85b9cc..3dc73a4 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -162,12 +162,12 @@ char *str_append2(char *d, size_t n, char *s1, char *s2)
     int sz = strlen(d);
     char *p = s1;
 
-    for (; *p && sz < n; p++, sz++)
+    for (; *p && sz < n - 1; p++, sz++)
         FGC_LOOP(str_append2, 1)
         d[sz] = *p;
     FGC_AT(str_append2, 1)
 
-    for (p = s2; *p && sz < n; p++, sz++)
+    for (p = s2; *p && sz < n - 1; p++, sz++)
         FGC_LOOP(str_append2, 2)
         d[sz] = *p;
     FGC_AT(str_append2, 2)
@@ -182,12 +182,12 @@ char *str_copy2(char *d, size_t n, char *s1, char *s2)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy2, 1)
         d[i] = *p;
     FGC_AT(str_copy2, 1)
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy2, 2)
         d[i] = *p;
     FGC_AT(str_copy2, 2)
@@ -203,17 +203,17 @@ char *str_copy3(char *d, size_t n, char *s1, char *s2, char *s3)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy3, 1)
         d[i] = *p;
     FGC_AT(str_copy3, 1)
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy3, 2)
         d[i] = *p;
     FGC_AT(str_copy3, 2)
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy3, 3)
         d[i] = *p;
     FGC_AT(str_copy3, 3)
@@ -228,22 +228,22 @@ char *str_copy4(char *d, size_t n, char *s1, char *s2, char *s3, char *s4)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy4, 1)
         d[i] = *p;
     FGC_AT(str_copy4, 1)
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy4, 2)
         d[i] = *p;
     FGC_AT(str_copy4, 2)
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy4, 3)
         d[i] = *p;
     FGC_AT(str_copy4, 3)
 
-    for (p = s4; *p && i < n; p++, i++)
+    for (p = s4; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy4, 4)
         d[i] = *p;
     FGC_AT(str_copy4, 4)
@@ -259,27 +259,27 @@ char *str_copy5(char *d, size_t n, char *s1, char *s2, char *s3, char *s4,
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy5, 1)
         d[i] = *p;
     FGC_AT(str_copy5, 1)
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy5, 2)
         d[i] = *p;
     FGC_AT(str_copy5, 2)
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy5, 3)
         d[i] = *p;
     FGC_AT(str_copy5, 3)
 
-    for (p = s4; *p && i < n; p++, i++)
+    for (p = s4; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy5, 4)
         d[i] = *p;
     FGC_AT(str_copy5, 4)
 
-    for (p = s5; *p && i < n; p++, i++)
+    for (p = s5; *p && i < n - 1; p++, i++)
         FGC_LOOP(str_copy5, 5)
         d[i] = *p;
     FGC_AT(str_copy5, 5)
-- 
2.43.0


From bcafe600075f444acf1a4462df01d56aebce53ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 03/52] fix: pkt_get_string left a string of nbytes - 1
 characters unterminated

---
 src/common/packet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/packet.c b/src/common/packet.c
index 823a22c..bc6740f 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -423,7 +423,7 @@ size_t pkt_get_string(FILE * fp, char *buf, size_t nbytes)
             buf[i] = '\0';
     }
 
-    if (i < nbytes - 1)
+    if (i < nbytes)
         buf[i] = '\0';
 
     i += (c != EOF);            /* EOF means the byte was not actually read */
-- 
2.43.0


From 590c84a04a64d4f293d104bb0ad20f1ea860703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:57 +0000
Subject: [PATCH 04/52] fix: pkt_put_line lost the empty line in CR LF LF

---
 src/common/packet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/packet.c b/src/common/packet.c
index bc6740f..2719829 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -552,6 +552,7 @@ void pkt_put_line(FILE * fp, char *s)
         if (*s == '\n') {
             if (!met_cr)
                 putc('\r', fp);
+            met_cr = false;
             continue;
         }
 
-- 
2.43.0


From 78f338d7ac5306b2e82c2b305d95c0b2edcaef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 05/52] hooks: loop contract hooks in packet.c
 (FIDOGATE_CONTRACTS)

---
 src/common/packet.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common/packet.c b/src/common/packet.c
index 2719829..e2c29d1 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -408,7 +408,9 @@ size_t pkt_get_string(FILE * fp, char *buf, size_t nbytes)
 {
     int c, i;
 
-    for (i = 0; TRUE; i++) {
+    for (i = 0; TRUE; i++)
+        FGC_LOOP(pkt_get_string, 1)
+    {
         c = getc(fp);
 
         if (c == 0 || c == EOF)
@@ -541,8 +543,10 @@ void pkt_put_line(FILE * fp, char *s)
 {
     bool met_cr = false;
 
-    for (; *s; s++) {
-
+    for (; *s; s++)
+        FGC_LOOP(pkt_put_line, 1)
+    {
+        FGC_AT(pkt_put_line, 1)
         if (*s == '\r') {
             met_cr = true;
             putc('\r', fp);
@@ -559,6 +563,7 @@ void pkt_put_line(FILE * fp, char *s)
         met_cr = false;
         putc(*s, fp);
     }
+    FGC_AT(pkt_put_line, 2)
 
     return;
 }
-- 
2.43.0


From 075ea9a75bff14da1e5eebb169f7b37b02e7aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 06/52] fix: node number too large overflowed in
 znfp_get_number

---
 src/common/parsenode.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/parsenode.c b/src/common/parsenode.c
index 5874116..e537dc9 100644
--- a/src/common/parsenode.c
+++ b/src/common/parsenode.c
@@ -31,6 +31,8 @@
 
 #include "fidogate.h"
 
+#include <limits.h>
+
 /*
  * Return: >=0 number, ERROR (-1) error, WILDCARD (-2) "*" or "All"
  */
@@ -48,8 +50,11 @@ int znfp_get_number(char **ps)
     } else if (!is_digit(*s))
         return ERROR;
     else
-        while (is_digit(*s))
-            val = val * 10 + *s++ - '0';
+        while (is_digit(*s)) {
+            if (val > (INT_MAX - 9) / 10)       /* number too large */
+                return ERROR;
+            val = val * 10 + (*s++ - '0');
+        }
 
     *ps = s;
 
-- 
2.43.0


From 8026ef203833bf7ed246cf79f213ee6b94112793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 07/52] fix: node_to_asc_diff printed nothing for the boss node
 of the previous point

---
 src/common/node.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/node.c b/src/common/node.c
index e33d2a9..0bc4edf 100644
--- a/src/common/node.c
+++ b/src/common/node.c
@@ -253,6 +253,8 @@ char *node_to_asc_diff(Node * node, Node * oldnode)
             if (node->node == oldnode->node) {
                 if (node->point != 0)
                     str_printf(buf, sizeof(buf), ".%d", node->point);
+                else if (oldnode->point != 0)   /* point -> its boss node */
+                    str_printf(buf, sizeof(buf), "%d", node->node);
             } else
                 str_printf(buf, sizeof(buf), node->point ? "%d.%d" : "%d",
                            node->node, node->point);
-- 
2.43.0


From af92ddafb3688742d932d3e30bb6e2becd8ef16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 08/52] hooks: loop contract hook in parsenode.c
 (FIDOGATE_CONTRACTS)

---
 src/common/parsenode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/parsenode.c b/src/common/parsenode.c
index e537dc9..7a05ee8 100644
--- a/src/common/parsenode.c
+++ b/src/common/parsenode.c
@@ -50,7 +50,9 @@ int znfp_get_number(char **ps)
     } else if (!is_digit(*s))
         return ERROR;
     else
-        while (is_digit(*s)) {
+        while (is_digit(*s))
+            FGC_LOOP(znfp_get_number, 1)
+        {
             if (val > (INT_MAX - 9) / 10)       /* number too large */
                 return ERROR;
             val = val * 10 + (*s++ - '0');
-- 
2.43.0


From f7ad3a393a7ef1b4600104778982e751b377bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:10 +0000
Subject: [PATCH 09/52] fix: address with a long domain was cut off when
 printed

---
 src/common/parsenode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/parsenode.c b/src/common/parsenode.c
index 7a05ee8..16c6d7d 100644
--- a/src/common/parsenode.c
+++ b/src/common/parsenode.c
@@ -182,7 +182,7 @@ char *znfp_put_number(int val, int wildcards)
     return buf;
 }
 
-#define LEN_ZNFP 48
+#define LEN_ZNFP 64
 
 char *s_znfp_print(Node * node, int wildcards)
 {
-- 
2.43.0


From c32749ed2ea50c5aeaac380491ce1c5017e09281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 10/52] fix: tl_addtl_move left last and prev pointers of the
 joined list stale

---
 src/common/textlist.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/textlist.c b/src/common/textlist.c
index bc13e0f..7cdc4a4 100644
--- a/src/common/textlist.c
+++ b/src/common/textlist.c
@@ -233,8 +233,10 @@ void tl_addtl_move(Textlist *d, Textlist *s)
 {
     if (!d->first)
         *d = *s;
-    else {
+    else if (s->first) {
         d->last->next = s->first;
+        s->first->prev = d->last;
+        d->last = s->last;
         d->n += s->n;
     }
     tl_init(s);
-- 
2.43.0


From 1c6c0c263b5c16f03e5813783c48e33e7368193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 11/52] fix: wildmatch read past the end of a pattern ending in
 [ or backslash, [^x] matched the end of the string

---
 src/common/wildmat.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/wildmat.c b/src/common/wildmat.c
index 1994fe5..4953895 100644
--- a/src/common/wildmat.c
+++ b/src/common/wildmat.c
@@ -219,7 +219,8 @@ int wildmatch(char *s, char *p, int ic)
         switch (*p) {
         case '\\':
             /* Literal match with following character; fall through. */
-            p++;
+            if (p[1])
+                p++;
         default:
             if (!char_eq(*s, *p, ic))
                 goto BackTrack;
@@ -242,13 +243,17 @@ int wildmatch(char *s, char *p, int ic)
                 int matched;
                 int reverse;
 
+                if (*s == '\0')
+                    return FALSE;
                 /* [^....] means inverse character class. */
                 if ((reverse = (p[1] == '^')))
                     p++;
                 for (last = 0400, matched = FALSE; *++p && *p != ']'; last = *p)
-                    if (*p == '-' ? char_range(*s, last, *++p, ic)
+                    if (*p == '-' && p[1] ? char_range(*s, last, *++p, ic)
                         : char_eq(*s, *p, ic))
                         matched = TRUE;
+                if (*p == '\0')    /* unterminated class */
+                    return FALSE;
                 if (matched == reverse)
                     goto BackTrack;
                 continue;
-- 
2.43.0


From 419331d25e8b67980faea47cfacf8cc80cd85656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 12/52] hooks: cut point hook in wildmat.c (FIDOGATE_CONTRACTS)

---
 src/common/wildmat.c      | 2 +-
 src/include/fgcontracts.h | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/wildmat.c b/src/common/wildmat.c
index 4953895..7043d08 100644
--- a/src/common/wildmat.c
+++ b/src/common/wildmat.c
@@ -215,7 +215,7 @@ int wildmatch(char *s, char *p, int ic)
 
  TryAgain:
 
-    for (; *p; s++, p++)
+    for (; FGC_PRE(wildmatch, 1) *p; s++, p++)
         switch (*p) {
         case '\\':
             /* Literal match with following character; fall through. */
diff --git a/src/include/fgcontracts.h b/src/include/fgcontracts.h
index 9daa823..a928ae1 100644
--- a/src/include/fgcontracts.h
+++ b/src/include/fgcontracts.h
@@ -6,6 +6,7 @@
  *
  * FGC_LOOP(f, n)  between the head and the body of loop n of function f
  * FGC_AT(f, n)    ghost statement n of function f
+ * FGC_PRE(f, n)   ghost expression in front of a loop condition
  */
 #ifndef FGCONTRACTS_H
 #define FGCONTRACTS_H
@@ -14,9 +15,11 @@
 #include "fidogate_loop_contracts.h"
 #define FGC_LOOP(f, n)	FGC_LOOP_##f##_##n
 #define FGC_AT(f, n)	FGC_AT_##f##_##n
+#define FGC_PRE(f, n)	FGC_PRE_##f##_##n
 #else
 #define FGC_LOOP(f, n)
 #define FGC_AT(f, n)
+#define FGC_PRE(f, n)
 #endif
 
 #endif
-- 
2.43.0


From 516e2b39d89e4cc9861ab6e5f20d2a55e5869f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 13/52] hooks: loop contract hooks in crc32.c
 (FIDOGATE_CONTRACTS)

---
 src/common/crc32.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/common/crc32.c b/src/common/crc32.c
index 21637e5..fc21445 100644
--- a/src/common/crc32.c
+++ b/src/common/crc32.c
@@ -141,8 +141,12 @@ unsigned long compute_crc32(unsigned char *s, int len)
     register unsigned long crcval = 0xffffffff;
 
     while (len--)
+        FGC_LOOP(compute_crc32, 1)
+    {
+        FGC_AT(compute_crc32, 1)
         crcval = crc_32_tab[((unsigned char)crcval ^ (*s++)) & 0xff]
             ^ (crcval >> 8);
+    }
     return ~crcval & 0xffffffff;
 }
 
@@ -160,8 +164,12 @@ void crc32_init(void)
 void crc32_compute(unsigned char *s, int len)
 {
     while (len--)
+        FGC_LOOP(crc32_compute, 1)
+    {
+        FGC_AT(crc32_compute, 1)
         crcval = crc_32_tab[((unsigned char)crcval ^ (*s++)) & 0xff]
             ^ (crcval >> 8);
+    }
 }
 
 void crc32_update(int c)
@@ -190,7 +198,11 @@ unsigned long crc32_file(char *name)
 
     crc32_init();
     while ((c = getc(fp)) != EOF)
+        FGC_LOOP(crc32_file, 1)
+    {
+        FGC_AT(crc32_file, 1)
         crc32_update(c);
+    }
 
     fclose(fp);
 
-- 
2.43.0


From ba0ef79fc755c5f64570d384333ca49b2828f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 14/52] fix: DeletePath used the DeleteSeenBy list, and only
 the first line of each was used

---
 src/toss/ftntoss.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index eb62f91..4ca3d3c 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -673,17 +673,20 @@ void do_deleteseenby(LON * seenby)
 {
     LNode *p;
     LON *ln;
+    DeleteSeenBy *d;
 
-    ln = &deleteseenby_first->deleteseenby;
+    for (d = deleteseenby_first; d; d = d->next) {
+        ln = &d->deleteseenby;
 
-    lon_debug(9, "do_deleteseenby(): List of SEEN-BYs for removing: ",
-              ln, FALSE);
+        lon_debug(9, "do_deleteseenby(): List of SEEN-BYs for removing: ",
+                  ln, FALSE);
 
-    for (p = ln->first; p; p = p->next) {
-        if (lon_search(seenby, &p->node)) {
-            debug(7, "do_deleteseenby(): Found SEEN-BY for removing: %s",
-                  znf1(&p->node));
-            lon_remove(seenby, &p->node);
+        for (p = ln->first; p; p = p->next) {
+            if (lon_search(seenby, &p->node)) {
+                debug(7, "do_deleteseenby(): Found SEEN-BY for removing: %s",
+                      znf1(&p->node));
+                lon_remove(seenby, &p->node);
+            }
         }
     }
 }
@@ -695,16 +698,19 @@ void do_deletepath(LON * path)
 {
     LNode *p;
     LON *ln;
+    DeletePath *d;
 
-    ln = &deleteseenby_first->deleteseenby;
+    for (d = deletepath_first; d; d = d->next) {
+        ln = &d->deletepath;
 
-    lon_debug(9, "do_deletepath(): List of PATH for removing: ", ln, FALSE);
+        lon_debug(9, "do_deletepath(): List of PATH for removing: ", ln, FALSE);
 
-    for (p = ln->first; p; p = p->next) {
-        if (lon_search(path, &p->node)) {
-            debug(7, "do_deletepath(): Found PATH for removing: %s",
-                  znf1(&p->node));
-            lon_remove(path, &p->node);
+        for (p = ln->first; p; p = p->next) {
+            if (lon_search(path, &p->node)) {
+                debug(7, "do_deletepath(): Found PATH for removing: %s",
+                      znf1(&p->node));
+                lon_remove(path, &p->node);
+            }
         }
     }
 }
-- 
2.43.0


From caf5c6aa617e794028060e35372ed0dfd195bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 15/52] fix: AddToSeenBy nodes were never added

---
 src/toss/ftntoss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 4ca3d3c..5a793cd 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -570,7 +570,7 @@ void do_seenby(LON * seenby, LON * nodes, LON * new, LON * passive, int cup,
             if (j < cup || node_eq(from, &p->node))
                 continue;
 
-            if ((NULL != passive) && !lon_search(passive, &(p->node))) {
+            if ((NULL == passive) || !lon_search(passive, &(p->node))) {
                 lon_add(seenby, &p->node);
                 if (new)
                     lon_add(new, &p->node);
-- 
2.43.0


From e34df513f73db463fefbe78b2369bea2a694a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 16/52] fix: strip_crlf accessed the byte before an empty
 string

---
 src/common/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/misc.c b/src/common/misc.c
index 3dc73a4..0ae7d93 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -354,11 +354,11 @@ void strip_crlf(char *line)
         return;
 
     len = strlen(line);
-    if (line[len - 1] == '\n')
+    if (len > 0 && line[len - 1] == '\n')
         line[len - 1] = 0;
 
     len = strlen(line);
-    if (line[len - 1] == '\r')
+    if (len > 0 && line[len - 1] == '\r')
         line[len - 1] = 0;
 }
 
-- 
2.43.0


From 69ca877a14691c98b2d4885f5ec83a3e9e91b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 17/52] fix: wildcards in the destination address of rewrite
 and remap became part of the address

---
 src/toss/ftntoss.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 5a793cd..ab6a1a4 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1224,13 +1224,13 @@ void add_via(Textlist * list, Node * gate)
  */
 void change_addr(Node * node, Node * newpat)
 {
-    if (newpat->zone != -1)
+    if (newpat->zone != EMPTY && newpat->zone != WILDCARD)
         node->zone = newpat->zone;
-    if (newpat->net != -1)
+    if (newpat->net != EMPTY && newpat->net != WILDCARD)
         node->net = newpat->net;
-    if (newpat->node != -1)
+    if (newpat->node != EMPTY && newpat->node != WILDCARD)
         node->node = newpat->node;
-    if (newpat->point != -1)
+    if (newpat->point != EMPTY && newpat->point != WILDCARD)
         node->point = newpat->point;
 }
 
-- 
2.43.0


From e070fc181b6f4b78a78e53ccf107905adb594e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 18/52] fix: last line of a message body without line end was
 dropped

---
 src/common/message.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index 1c8a3ff..e4c9f97 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -495,7 +495,14 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
     msg_body_clear(body);
 
     /* Read lines and put into textlist */
-    while ((type = pkt_get_line(fp, buffer, sizeof(buffer))) == 1) {
+    do {
+        type = pkt_get_line(fp, buffer, sizeof(buffer));
+        if ((type == MSG_END || type == MSG_TYPE) && buffer[0]) {
+            /* Incomplete last line, make sure that it is terminated */
+            BUF_APPEND(buffer, "\r\n");
+        } else if (type != 1)
+            break;
+
         if (do_flag == HI_KLUDGE) {
             if (buffer[0] == '\001') {
                 tl_append(&body->kludge, buffer);
@@ -698,6 +705,7 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
             }
         }
     }
+    while (type == 1);
     if (type == ERROR) {
         if (feof(fp)) {
             fglog("WARNING: premature EOF reading input packet");
@@ -730,8 +738,6 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
         }
     }
 
-    /* Put incomplete last line into textlist, if any */
-
     return ret;
 }
 
-- 
2.43.0


From 1cc8c2759985978968042870a3b95b753afdc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:40 +0000
Subject: [PATCH 19/52] fix: text after both tear line and origin line was put
 between them

---
 src/common/message.c | 54 ++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index e4c9f97..b9a4727 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -473,6 +473,30 @@ int msg_body_parse(Textlist * text, MsgBody * body)
 #define FOUND_KLUDGE		0x0001
 #define FOUND_ORIGIN		0x0002
 #define FOUND_TEARLINE		0x0004
+#define FOUND_ORIGIN_1ST	0x0008
+
+/*
+ * Text follows after a tear line and/or an origin line, so they belong to
+ * the text, too: put them back in the order they were read.
+ */
+static int put_back_tear_origin(MsgBody * body, int line)
+{
+    if (line & FOUND_ORIGIN_1ST)
+        tl_append(&body->body, body->origin);
+    if (line & FOUND_TEARLINE) {
+        tl_append(&body->body, body->tear);
+        xfree(body->tear);
+        body->tear = NULL;
+    }
+    if (line & FOUND_ORIGIN) {
+        if (!(line & FOUND_ORIGIN_1ST))
+            tl_append(&body->body, body->origin);
+        xfree(body->origin);
+        body->origin = NULL;
+    }
+
+    return line & ~(FOUND_TEARLINE | FOUND_ORIGIN | FOUND_ORIGIN_1ST);
+}
 
 /*
  * Read text body from packet into Textlist & parse it.
@@ -597,6 +621,8 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                     debug(9, "origin: %s", buffer);
                 }
                 line |= FOUND_ORIGIN;
+                if (!(line & FOUND_TEARLINE))
+                    line |= FOUND_ORIGIN_1ST;
                 continue;
             }
 
@@ -621,18 +647,9 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "body: %s", buffer);
                 }
-            } else if (line & FOUND_TEARLINE) {
-                tl_append(&body->body, body->tear);
+            } else if (line & (FOUND_TEARLINE | FOUND_ORIGIN)) {
+                line = put_back_tear_origin(body, line);
                 tl_append(&body->body, buffer);
-                xfree(body->tear);
-                body->tear = NULL;
-                line &= ~FOUND_TEARLINE;
-            } else if (line & FOUND_ORIGIN) {
-                tl_append(&body->body, body->origin);
-                tl_append(&body->body, buffer);
-                xfree(body->origin);
-                body->origin = NULL;
-                line &= ~FOUND_ORIGIN;
             }
         } else if (do_flag == PARSE_BODY_ECHOMAIL) {
             if (!strncmp(buffer, "---", 3) &&
@@ -656,6 +673,8 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                     debug(9, "origin: %s", buffer);
                 }
                 line |= FOUND_ORIGIN;
+                if (!(line & FOUND_TEARLINE))
+                    line |= FOUND_ORIGIN_1ST;
                 continue;
             }
 
@@ -690,18 +709,9 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
                         buffer[len - 1] = '\0';
                     debug(9, "body: %s", buffer);
                 }
-            } else if (line & FOUND_TEARLINE) {
-                tl_append(&body->body, body->tear);
-                tl_append(&body->body, buffer);
-                xfree(body->tear);
-                body->tear = NULL;
-                line &= ~FOUND_TEARLINE;
-            } else if (line & FOUND_ORIGIN) {
-                tl_append(&body->body, body->origin);
+            } else if (line & (FOUND_TEARLINE | FOUND_ORIGIN)) {
+                line = put_back_tear_origin(body, line);
                 tl_append(&body->body, buffer);
-                xfree(body->origin);
-                body->origin = NULL;
-                line &= ~FOUND_ORIGIN;
             }
         }
     }
-- 
2.43.0


From ea9ed6bbc812b7f9d4448cd5e83e0a32b5053100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 20/52] fix: default SEEN-BY and PATH lines had no line end,
 default Origin was a leftover line

---
 src/common/message.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/message.c b/src/common/message.c
index b9a4727..549415b 100644
--- a/src/common/message.c
+++ b/src/common/message.c
@@ -733,17 +733,19 @@ short int pkt_get_body_parse(FILE * fp, MsgBody * body, Node * from, Node * to)
             debug(9, "WARNING: no ' * Origin:' line!");
 #ifdef INSERT_ORIGIN
             sprintf(buffer, " * Origin: (%s)\r", znfp1(from));
+#else
+            *buffer = 0;
 #endif
             body->origin = strsave(buffer);
         }
         if (body->seenby.n == 0) {
             debug(9, "WARNING: parsing echomail message: no SEEN-BY line!");
-            snprintf(buffer, sizeof(buffer), "SEEN-BY: %d/%d", to->net, to->node);
+            snprintf(buffer, sizeof(buffer), "SEEN-BY: %d/%d\r", to->net, to->node);
             tl_append(&body->seenby, buffer);
         }
         if (body->path.n == 0) {
             debug(9, "WARNING: parsing echomail message: no ^APATH line!");
-            snprintf(buffer, sizeof(buffer), "\001PATH: %d/%d", to->net, to->node);
+            snprintf(buffer, sizeof(buffer), "\001PATH: %d/%d\r", to->net, to->node);
             tl_append(&body->path, buffer);
         }
     }
-- 
2.43.0


From a9ce746610a281f0e2a4a32c242a94f67d8d9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 21/52] fix: tmps_printf and s_printf cut the text after 127
 characters

---
 src/common/tmps.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/common/tmps.c b/src/common/tmps.c
index c324428..c3432e9 100644
--- a/src/common/tmps.c
+++ b/src/common/tmps.c
@@ -186,13 +186,14 @@ TmpS *tmps_printf(const char *fmt, ...)
 
     p = tmps_alloc(TMPS_PRINTF_BUFSIZE);
 #ifdef HAVE_SNPRINTF
-    do {
-        n = vsnprintf(p->s, p->len, fmt, args);
+    n = vsnprintf(p->s, p->len, fmt, args);
+    if (n >= (int)p->len) {
         /* Resize if too small */
-        if (n == ERROR)
-            tmps_realloc(p, p->len * 2);
+        tmps_realloc(p, n + 1);
+        va_end(args);
+        va_start(args, fmt);
+        vsnprintf(p->s, p->len, fmt, args);
     }
-    while (n == ERROR);
 #else
     n = vsprintf(p->s, fmt, args);
     if (n >= p->len) {
@@ -310,13 +311,14 @@ char *s_printf(const char *fmt, ...)
 
     p = tmps_alloc(TMPS_PRINTF_BUFSIZE);
 #ifdef HAVE_SNPRINTF
-    do {
-        n = vsnprintf(p->s, p->len, fmt, args);
+    n = vsnprintf(p->s, p->len, fmt, args);
+    if (n >= (int)p->len) {
         /* Resize if too small */
-        if (n == ERROR)
-            tmps_realloc(p, p->len * 2);
+        tmps_realloc(p, n + 1);
+        va_end(args);
+        va_start(args, fmt);
+        vsnprintf(p->s, p->len, fmt, args);
     }
-    while (n == ERROR);
 #else
     n = vsprintf(p->s, fmt, args);
     if (n >= p->len) {
-- 
2.43.0


From 869d24a9b06c231d954c95201a0cebf5d11901a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 22/52] fix: freeing the last temp string left a dangling
 pointer to it in the list

---
 src/common/tmps.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/tmps.c b/src/common/tmps.c
index c3432e9..0658192 100644
--- a/src/common/tmps.c
+++ b/src/common/tmps.c
@@ -128,6 +128,8 @@ void tmps_free(TmpS * s)
                 pp->next = p->next;
             else
                 tmps_list = p->next;
+            if (tmps_last == p)
+                tmps_last = pp;
             p->next = NULL;
             p->len = 0;
             xfree(p->s);
@@ -274,6 +276,8 @@ void s_free(char *s)
                 pp->next = p->next;
             else
                 tmps_list = p->next;
+            if (tmps_last == p)
+                tmps_last = pp;
             p->next = NULL;
             p->len = 0;
             xfree(p->s);
-- 
2.43.0


From 1ba55fc1aa884b003b653299c459627c0dae3efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 23/52] fix: trailing spaces of the real name were not removed
 in rfcaddr_from_ftn

---
 src/common/rfcaddr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/rfcaddr.c b/src/common/rfcaddr.c
index d6e3608..11cc0c7 100644
--- a/src/common/rfcaddr.c
+++ b/src/common/rfcaddr.c
@@ -150,8 +150,8 @@ RFCAddr rfcaddr_from_ftn(char *name, Node * node)
     rfc.real[i] = 0;
 
     /* Remove trailing spaces */
-    for (; i >= 0 && rfc.real[i] == ' '; i--)
-        rfc.real[i] = '\0';
+    for (; i > 0 && rfc.real[i - 1] == ' '; i--)
+        rfc.real[i - 1] = '\0';
 
     return rfc;
 }
-- 
2.43.0


From ca211bef7758934a8b9eacc90b0c0d67867c11d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 24/52] fix: write error was not noticed when AREAS.BBS is
 rewritten

---
 src/common/areasbbs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index ff0f176..fac6ed1 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -441,7 +441,7 @@ int areasbbs_rewrite(void)
         fglog("$ERROR: can't open %s for writing AREAS.BBS", new);
         return ERROR;
     }
-    if (areasbbs_print(fp) == ERROR) {
+    if (areasbbs_print(fp) != OK) {
         fglog("$ERROR: writing to %s", new);
         fclose(fp);
         unlink(new);
-- 
2.43.0


From 07d5e9290070e9748ff5ff727c2ea4b6e385b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 25/52] fix: first line of a new AREAS.BBS was (null)

---
 src/common/areasbbs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index fac6ed1..496ba60 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -358,7 +358,7 @@ int areasbbs_print(FILE * fp)
 {
     AreasBBS *p;
 
-    fprintf(fp, "%s\n", areasbbs_1stline);
+    fprintf(fp, "%s\n", areasbbs_1stline ? areasbbs_1stline : "");
 
     for (p = areasbbs_list; p; p = p->next) {
         if (p->flags & AREASBBS_PASSTHRU)
-- 
2.43.0


From a19e04efdaba6c98a148f15ec06fea308bf8ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 26/52] fix: read-only option of an area was lost when
 AREAS.BBS is rewritten

---
 src/common/areasbbs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 496ba60..66a12d8 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -370,6 +370,8 @@ int areasbbs_print(FILE * fp)
             fprintf(fp, "-a %s ", znfp1(&p->addr));
         if (p->lvl != -1)
             fprintf(fp, "-l %d ", p->lvl);
+        if (p->flags & AREASBBS_READONLY)
+            fprintf(fp, "-r ");
         if (p->key)
             fprintf(fp, "-k %s ", p->key);
         if (0 < p->passive.size) {
-- 
2.43.0


From a546c7ffe9ea5812663139d40e86469aaa76f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 27/52] fix: the passive node marked P in AREAS.BBS was not the
 node read

---
 src/common/areasbbs.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 66a12d8..268cb3d 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -124,7 +124,7 @@ AreasBBS *areasbbs_new(void)
 static int areasbbs_add_string(LON * lon, LON * lon_passive, char *p)
 {
     Node node, old;
-    int ret;
+    int ret, passive;
 
     old.zone = cf_zone();
     old.net = old.node = old.point = -1;
@@ -132,12 +132,13 @@ static int areasbbs_add_string(LON * lon, LON * lon_passive, char *p)
 
     ret = OK;
     for (; p; p = xstrtok(NULL, " \t\r\n")) {
-        if ('P' == *p) {
-            lon_add(lon_passive, &node);
+        passive = 'P' == *p;
+        if (passive)
             p++;
-        }
         if (asc_to_node_diff(p, &node, &old) == OK) {
             old = node;
+            if (passive)
+                lon_add(lon_passive, &node);
             lon_add(lon, &node);
         } else {
             ret = ERROR;
-- 
2.43.0


From f8365ca168f611300db0ed03f2973b41760b46da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 28/52] fix: areasbbs_chstate overran short states and cut long
 ones without old state

---
 src/common/areasbbs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 268cb3d..5f96f86 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -580,7 +580,7 @@ int areasbbs_chstate(char **state, char *stold, char stnew)
 
     /* "old state" not given */
     if ((NULL == stold) || ('\0' == *stold)) {
-        BUF_COPY(p, p2);
+        str_copy(p, len, p2);
         j = len - 2;
     } else {
         for (i = 0, j = 0; '\0' != p2[i]; ++i)
-- 
2.43.0


From 0c6bc972a4de7f3043236255fe42f525d08a06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 29/52] fix: failure to rename the new AREAS.BBS was not
 reported

---
 src/common/areasbbs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 5f96f86..b868d67 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -490,7 +490,10 @@ int areasbbs_rewrite(void)
     BUF_COPY(new, buffer);
     str_copy(new + ovwr, sizeof(new) - ovwr, "bbs");
     debug(4, "Renaming %s -> %s", old, new);
-    rename(old, new);
+    if (rename(old, new) == ERROR) {
+        fglog("$ERROR: can't rename %s -> %s", old, new);
+        return ERROR;
+    }
 
     fglog("%s changed", buffer);
 
-- 
2.43.0


From a4b49c6e1ab09d5fd3ff223b15bebe17e55075ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 30/52] fix: option without argument at the end of an AREAS.BBS
 line crashed the reader

---
 src/common/areasbbs.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index b868d67..1361a06 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -179,6 +179,16 @@ int areasbbs_add_passive(LON * lon, char *p)
     return ret;
 }
 
+/*
+ * Argument of an option, empty if missing
+ */
+static char *areasbbs_arg(void)
+{
+    char *p = xstrtok(NULL, " \t\r\n");
+
+    return p ? p : "";
+}
+
 /*
  * Create new AreasBBS struct for line from AREAS.BBS
  */
@@ -219,32 +229,32 @@ static AreasBBS *areasbbs_parse_line(char *line)
     nl = xstrtok(NULL, " \t\r\n");
     while (nl && *nl == '-') {
         if (streq(nl, "-a")) {  /* -a Z:N/F.P */
-            o2 = xstrtok(NULL, " \t\r\n");
+            o2 = areasbbs_arg();
             asc_to_node(o2, &p->addr, FALSE);
         }
 
         if (streq(nl, "-z")) {  /* -z ZONE */
-            o2 = xstrtok(NULL, " \t\r\n");
+            o2 = areasbbs_arg();
             p->zone = atoi(o2);
         }
 
         if (streq(nl, "-l")) {  /* -l LVL */
-            o2 = xstrtok(NULL, " \t\r\n");
+            o2 = areasbbs_arg();
             p->lvl = atoi(o2);
         }
 
         if (streq(nl, "-k")) {  /* -k KEY */
-            o2 = xstrtok(NULL, " \t\r\n");
+            o2 = areasbbs_arg();
             p->key = strsave(o2);
         }
 
         if (streq(nl, "-d")) {  /* -d DESC */
-            o2 = xstrtok(NULL, " \t\r\n");
+            o2 = areasbbs_arg();
             p->desc = strsave(o2);
         }
 
         if (streq(nl, "-s")) {  /* -s STATE */
-            o2 = xstrtok(NULL, " \t\r\n");
+            o2 = areasbbs_arg();
             p->state = strsave(o2);
         }
 
@@ -257,25 +267,25 @@ static AreasBBS *areasbbs_parse_line(char *line)
         }
 
         if (streq(nl, "-p")) {  /* -p LIST */
-            o2 = xstrtok(NULL, " \t\r\n");
+            o2 = areasbbs_arg();
             areasbbs_add_passive(&(p->passive), o2);
         }
 
         if (streq(nl, "-t")) {  /* -t TIME */
-            o2 = xstrtok(NULL, " \t\r\n");
+            o2 = areasbbs_arg();
             p->time = atol(o2);
         }
 
         if (streq(nl, "-e")) {  /* -e DAYS */
-            o2 = xstrtok(NULL, " \t\r\n");
+            o2 = areasbbs_arg();
             p->expire_n = atoi(o2);
         }
         if (streq(nl, "-n")) {  /* -n DAYS */
-            o2 = xstrtok(NULL, " \t\r\n");
+            o2 = areasbbs_arg();
             p->expire_t = atoi(o2);
         }
         if (streq(nl, "-u")) {  /* -u NUM */
-            o2 = xstrtok(NULL, " \t\r\n");
+            o2 = areasbbs_arg();
             p->uplinks = atoi(o2);
         }
         nl = xstrtok(NULL, " \t\r\n");
-- 
2.43.0


From ccc7de8c01273de65851999d0f9a5ee3ff5f7914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 31/52] fix: quotes in an area description were not escaped
 when AREAS.BBS is rewritten

---
 src/common/areasbbs.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 1361a06..8a42f74 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -368,6 +368,7 @@ int areasbbs_init(char *name)
 int areasbbs_print(FILE * fp)
 {
     AreasBBS *p;
+    char *s;
 
     fprintf(fp, "%s\n", areasbbs_1stline ? areasbbs_1stline : "");
 
@@ -395,8 +396,15 @@ int areasbbs_print(FILE * fp)
             fprintf(fp, "-e %d ", p->expire_n);
         if (p->expire_t)
             fprintf(fp, "-n %d ", p->expire_t);
-        if (p->desc)
-            fprintf(fp, "-d \"%s\" ", p->desc);
+        if (p->desc) {
+            fprintf(fp, "-d \"");
+            for (s = p->desc; *s; s++) {
+                if (*s == '"')
+                    fputc('\\', fp);
+                fputc(*s, fp);
+            }
+            fprintf(fp, "\" ");
+        }
         if (p->state)
             fprintf(fp, "-s %s ", p->state);
         if (p->uplinks > 1)
-- 
2.43.0


From 41805cbe6d3da207ffbdce9f46f7639b4211c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 32/52] fix: areafix gave the NEW, DELETE and FORWARD
 privileges of a node without its password

---
 src/areafix/areafix.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index c9cc6db..4086bde 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -320,6 +320,9 @@ int areafix_auth_check(Node * node, char *passwd, int checkpass)
         fglog("WARNING: node %s have null password", znfp1(node));
         return authorized;
     }
+    /* No privileges without the right password */
+    if (!authorized)
+        return authorized;
 
     /* Extract level, key, and real name from pwd->args */
     s = strsave(pwd->args);
-- 
2.43.0


From ce8383e9e86975b98f08ac82fb0fb919b0b232bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 33/52] fix: areafix PASSWORD command without address or
 password left the DELETE privilege

---
 src/areafix/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 4086bde..ee29041 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1929,7 +1929,7 @@ int cmd_passwd(Node * node, char *arg)
 
     fglog("%s: passwd", znfp1(node));
 
-    authorized = FALSE;
+    areafix_auth_init();
 
     p = strtok(arg, " \t");     /* Node address */
     if (!p) {
-- 
2.43.0


From e68527c40935c6a52932aba66a3346de6a77c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 34/52] fix: areafix NEW command without area or without
 argument of -s crashed

---
 src/areafix/areafix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index ee29041..8eb1768 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -735,6 +735,10 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
     }
 
     name = xstrtok(line, " \t");
+    if (!name) {
+        areafix_printf("Command NEW: missing area.");
+        return OK;
+    }
 
     if ((p = areasbbs_lookup(name))) {
         areafix_printf("%-41s: area already exists,\r\n"
@@ -828,7 +832,8 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             asc_to_node(o2, &p->addr, FALSE);
         }
         if (streq(o1, "-s")) {  /* -s STATE */
-            o2 = xstrtok(NULL, " \t");
+            if (!(o2 = xstrtok(NULL, " \t")))
+                break;
             p->state = strsave(o2);
         }
         if (streq(o1, "-e")) {  /* -e DAYS */
-- 
2.43.0


From 6103d10bc9789de6621db003170c369c7e1cb94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 35/52] fix: areafix counted the areas of a node wrongly for
 its limits

---
 src/areafix/areafix.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 8eb1768..d42a872 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1529,14 +1529,14 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
     BUF_COPY(area, area_in);
 
 #ifdef SUB_LIMIT
-    if (lim_g < 1)
-        for (p = areasbbs_first(); p; p = p->next) {
-            l = &p->nodes;
+    lim_g = 0;
+    for (p = areasbbs_first(); p; p = p->next) {
+        l = &p->nodes;
 
-            if (l && l->size > 1 && (lon_search(l, node) ||
-                                     lon_search(&p->passive, node)))
-                lim_g++;
-        }
+        if (l && l->size > 1 && (lon_search(l, node) ||
+                                 lon_search(&p->passive, node)))
+            lim_g++;
+    }
 #endif                          /* SUB_LIMIT */
     iswc = is_wildcard(area);
 
@@ -1575,9 +1575,6 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                         lon_remove(&p->passive, node);
                         areasbbs_changed();
                         areafix_printf("%-41s: set active", p->area);
-#ifdef SUB_LIMIT
-                        lim_g++;
-#endif                          /* SUB_LIMIT */
                     } else
                         areafix_printf("%-41s: already active", p->area);
                     continue;
@@ -1598,7 +1595,7 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
 
                         if (ln && ln->size > 1 && l->first &&
                             (lon_search(ln, node)
-                             || lon_search(&p->passive, node))
+                             || lon_search(&n->passive, node))
                             && lon_search(ln, &l->first->node))
                             lim_a++;
                     }
-- 
2.43.0


From 82629b3c8ffa35bdaf6302926f3c0ee3a2beb777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 36/52] fix: areafix SUBSCRIBE of a passive node left it
 passive

---
 src/areafix/areafix.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index d42a872..78791bd 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1631,6 +1631,8 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
 
             if (l->first) {
                 lon_add(l, node);
+                if (lon_search(&p->passive, node))
+                    lon_remove(&p->passive, node);
                 areasbbs_changed();
 
                 snprintf(buffer, sizeof(buffer), "%-41s: ", p->area);
@@ -1664,10 +1666,6 @@ int cmd_sub(Node * node, char *area_in, Textlist * upl)
                         areasbbs_chstate(&p->state, "UP", 'W');
                         p->time = time(NULL);
 
-                        if (lon_search(&p->passive, node)) {
-                            lon_remove(&p->passive, node);
-                        }
-
                         /* Not subscribed at uplink, print note */
                         areafix_printf
                             ("        (this area is currently not subscribed at uplink %s)",
-- 
2.43.0


From a357488f7f4b0dd6bb6ad80085104ce6373aaac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 37/52] fix: areafix dropped requests to an uplink whose
 address begins the address of another one

---
 src/areafix/areafix.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 78791bd..28c5b78 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -2142,7 +2142,7 @@ void send_request(Textlist * upl)
 
     Textline *tl;
     Textlist out, send;
-    char links[BUFSIZ];
+    char links[BUFSIZ], key[BUFSIZ];
     char *link = NULL, *l, *s;
     Node tmp;
     Message msg = { 0 };
@@ -2151,7 +2151,7 @@ void send_request(Textlist * upl)
     tl_init(&send);
 
     pkt_outdir(cf_p_outpkt(), NULL);
-    BUF_COPY(links, "");
+    BUF_COPY(links, ",");
 
     while (1) {
         for (tl = upl->first; NULL != tl; tl = tl->next) {
@@ -2160,7 +2160,8 @@ void send_request(Textlist * upl)
 
             if (l) {
                 if (s) {
-                    if (!link && !strstr(links, l)) {
+                    BUF_COPY3(key, ",", l, ",");
+                    if (!link && !strstr(links, key)) {
                         link = strsave(l);
                         BUF_APPEND2(links, link, ",");
                     }
-- 
2.43.0


From ecdc6d7164584a5a45d07ae53eb11a836f5b1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 38/52] fix: areafix damaged AutoCreateSubscribeNodes when the
 first area was created

---
 src/areafix/areafix.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 28c5b78..78213b3 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -721,7 +721,7 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
 {
     AreasBBS *p;
     char *name, *o1, *o2, *autocreate_script_cmd;
-    char *s1, *s2;
+    char *s1, *s2, *list;
 #ifndef ACTIVE_LOOKUP
     Area *autocreate_area;
 #endif                          /* ACTIVE_LOOKUP */
@@ -965,15 +965,16 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             old.zone = cf_zone();
             old.net = old.node = old.point = -1;
 
-            for (s2 = xstrtok(s1, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
+            list = strsave(s1);
+            for (s2 = xstrtok(list, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
                 if (OK == asc_to_node_diff(s2, &node, &old)) {
                     old = node;
                     lon_add(&(p->nodes), &node);
                 } else
                     fglog("config: AutoCreateSubscribeFileechoNodes: \
 			    invalid entry \"%s\"", s2);
+            xfree(list);
         }
-        xfree(s1);
     } else {
         /*
          * Subscribe nodes if needed
@@ -985,7 +986,8 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
             old.zone = cf_zone();
             old.net = old.node = old.point = -1;
 
-            for (s2 = xstrtok(s1, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
+            list = strsave(s1);
+            for (s2 = xstrtok(list, " \t"); s2 && *s2; s2 = xstrtok(NULL, " \t"))
                 if (OK == asc_to_node_diff(s2, &node, &old)) {
                     old = node;
                     lon_add(&(p->nodes), &node);
@@ -993,8 +995,8 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
                 } else
                     fglog("config: AutoCreateSubscribeNodes: invalid entry \
 			\"%s\"", s2);
+            xfree(list);
         }
-        xfree(s1);
     }
 #ifndef ACTIVE_LOOKUP
     if (cf_get_string("AutoCreateNG", TRUE)) {
-- 
2.43.0


From f078089b091900a0f023816a432a454818a9502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 39/52] fix: a signal while waiting for a file lock was taken
 as an error, and the file used without lock

---
 src/common/lock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/lock.c b/src/common/lock.c
index 2baf9cb..a1d4abb 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -98,7 +98,7 @@ int lock_fd(int fd)
     do {
         err = fcntl(fd, F_SETLKW, &fl);
     }
-    while (err == EINTR);
+    while (err == -1 && errno == EINTR);
 
     return err;
 #endif
@@ -123,7 +123,7 @@ int unlock_fd(int fd)
     do {
         err = fcntl(fd, F_SETLKW, &fl);
     }
-    while (err == EINTR);
+    while (err == -1 && errno == EINTR);
 
     return err;
 #endif
-- 
2.43.0


From 73512d76c98eab6b2dc952e4c7f2bea6ef361bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 40/52] fix: two programs creating a lock file at the same time
 both got the lock

---
 src/common/lock.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/common/lock.c b/src/common/lock.c
index a1d4abb..62dc724 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -34,6 +34,7 @@
 #include <signal.h>
 #include <sys/types.h>
 #include <errno.h>
+#include <fcntl.h>
 
 #define LOCKFILE_UNLOCKED	0
 #define LOCKFILE_LOCKED		1
@@ -255,6 +256,7 @@ int unlock_lockfile_nfs(char *name)
 int lock_lockfile(char *name, int wait)
 {
     FILE *fp = NULL;
+    int fd;
     short int wait_time = FALSE;
     short int exists_lock = FALSE;
 
@@ -267,10 +269,24 @@ int lock_lockfile(char *name, int wait)
         /* if there is a stale lock, this function will remove it */
         switch (check_stale_lock(name)) {
         case LOCKFILE_UNLOCKED:
-            if ((fp = fopen(name, "w")) == NULL)
+            /* Must be created by us, another program may be faster */
+            if ((fd = open(name, O_WRONLY | O_CREAT | O_EXCL, 0666)) == -1) {
+                if (errno != EEXIST)
+                    return ERROR;
+                exists_lock = TRUE;
+                break;
+            }
+            if ((fp = fdopen(fd, "w")) == NULL) {
+                close(fd);
+                unlink(name);
                 return ERROR;
+            }
             fprintf(fp, "%d\n", (int)getpid());
-            fclose(fp);
+            if (fclose(fp) != 0) {
+                fglog("$ERROR: cannot write lock file %s", name);
+                unlink(name);
+                return ERROR;
+            }
             return OK;
 
         case LOCKFILE_LOCKED:
-- 
2.43.0


From a092cd2953d313a1d72a83e492e9fcaf34c5243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 41/52] fix: the lock of a program that had just replaced a
 stale lock file was removed

---
 src/common/lock.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/common/lock.c b/src/common/lock.c
index 62dc724..52eca40 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -40,6 +40,37 @@
 #define LOCKFILE_LOCKED		1
 #define LOCKFILE_ERROR		-1
 
+int lock_file(FILE * fp);
+
+/*
+ * Remove stale lock, unless another program has removed or replaced it
+ */
+static int remove_stale_lock(char *name, char *content)
+{
+    char buff[32];
+    struct stat st, st_fp;
+    FILE *fp;
+    int ret = LOCKFILE_LOCKED;
+
+    if ((fp = fopen(name, "r+")) == NULL)
+        return errno == ENOENT ? LOCKFILE_UNLOCKED : LOCKFILE_ERROR;
+
+    /* Whoever removes a stale lock holds the lock on this very file */
+    if (lock_file(fp) == 0 &&
+        fstat(fileno(fp), &st_fp) == 0 && stat(name, &st) == 0 &&
+        st.st_dev == st_fp.st_dev && st.st_ino == st_fp.st_ino &&
+        fgets(buff, sizeof(buff), fp) && strcmp(buff, content) == 0) {
+        ret = LOCKFILE_UNLOCKED;
+        if (unlink(name) != 0) {
+            debug(7, "Deleteting stale lock file %s failed.", name);
+            ret = LOCKFILE_ERROR;
+        }
+    }
+    fclose(fp);
+
+    return ret;
+}
+
 /*
  * May be there is as stale lock?
  */
@@ -73,11 +104,7 @@ int check_stale_lock(char *name)
         return LOCKFILE_LOCKED;
 
     fglog("$WARNING: stale lock file %s (pid = %d) found", name, pid);
-    if (unlink(name) != 0) {
-        debug(7, "Deleteting stale lock file %s failed.", name);
-        return LOCKFILE_ERROR;
-    }
-    return LOCKFILE_UNLOCKED;
+    return remove_stale_lock(name, buff);
 }
 
 /*
-- 
2.43.0


From 5b5f5a67bfb4cbdbd47ae13bba0ef75ac5d43bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 42/52] fix: sequence numbers were used again when locking,
 reading or writing the file failed

---
 src/common/sequencer.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/common/sequencer.c b/src/common/sequencer.c
index 22ee9d6..bcbac34 100644
--- a/src/common/sequencer.c
+++ b/src/common/sequencer.c
@@ -42,8 +42,10 @@ long sequencer(char *seqname)
 long sequencer_nx(char *seqname, int err_abort)
 {
     char filename[MAXPATH];
+    char line[64];
     FILE *fp;
     long seqn;
+    int err;
 
     /* Open file, create if necessary */
     BUF_EXPAND(filename, seqname);
@@ -73,22 +75,35 @@ long sequencer_nx(char *seqname, int err_abort)
     }
 
     /* Lock file, get number and increment it */
-    lock_file(fp);
+    if (lock_file(fp)) {
+        fglog("$ERROR: can't lock sequencer file %s", filename);
+        fclose(fp);
+        if (err_abort)
+            exit(EX_OSFILE);
+        return ERROR;
+    }
 
-    /* filename[] is also used as a buffer for reading the seq value */
-    if (fgets(filename, sizeof(filename), fp))
-        seqn = atol(filename);
+    if (fgets(line, sizeof(line), fp))
+        seqn = atol(line);
     else
         seqn = 0;
+    err = ferror(fp);
     seqn++;
     if (seqn < 0)
         seqn = 0;
 
-    rewind(fp);
-    fprintf(fp, "%ld\n", seqn);
-    rewind(fp);
-
-    fclose(fp);
+    if (!err) {
+        rewind(fp);
+        fprintf(fp, "%ld\n", seqn);
+        err = ferror(fp);
+    }
+    /* The number is not ours if it isn't in the file */
+    if (fclose(fp) != 0 || err) {
+        fglog("$ERROR: can't update sequencer file %s", filename);
+        if (err_abort)
+            exit(EX_OSFILE);
+        return ERROR;
+    }
 
     return seqn;
 }
-- 
2.43.0


From 59f51afdf748f61f40a763d62a7962a2d6f804fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 43/52] fix: two programs creating a sequencer file at the same
 time got the same number

---
 src/common/sequencer.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/common/sequencer.c b/src/common/sequencer.c
index bcbac34..f504ab0 100644
--- a/src/common/sequencer.c
+++ b/src/common/sequencer.c
@@ -51,19 +51,23 @@ long sequencer_nx(char *seqname, int err_abort)
     BUF_EXPAND(filename, seqname);
     if ((fp = fopen(filename, RP_MODE)) == NULL)
         if (errno == ENOENT) {
-            if (!(fp = fopen(filename, WP_MODE))) {
+            if (!(fp = fopen(filename, AP_MODE))) {
                 fp = fopen(cf_p_seq_pack(), RP_MODE);
                 if (fp == NULL) {
                     if (errno == ENOENT) {
                         mkdir(cf_p_seq_pack(), DIR_MODE);
-                        fp = fopen(filename, WP_MODE);
-                    } else
-                        return ERROR;
+                        fp = fopen(filename, AP_MODE);
+                    }
                 } else {
                     fclose(fp);
-                    return ERROR;
+                    fp = NULL;
                 }
             }
+            /* Created, but maybe another program was faster and has used it */
+            if (fp) {
+                fclose(fp);
+                fp = fopen(filename, RP_MODE);
+            }
         }
 
     if (fp == NULL) {
-- 
2.43.0


From 5ee38d18d0e4b00f7f60e52bb97b26d672b454aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:38 +0000
Subject: [PATCH 44/52] fix: BSY file lost or left behind when the FLO file was
 deleted before it was locked

---
 src/common/flo.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/common/flo.c b/src/common/flo.c
index 31258b8..51461df 100644
--- a/src/common/flo.c
+++ b/src/common/flo.c
@@ -98,6 +98,7 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
         if (bsy)
             bink_bsy_delete(node);
         fclose(flo_fp);
+        flo_fp = NULL;
         return ERROR;
     }
 
@@ -105,12 +106,12 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
     if (access(flo_name, F_OK) == ERROR) {
         debug(4, "FLO file %s deleted after locking", flo_name);
         fclose(flo_fp);
-        if (apmode) {
-            if (bsy)
-                bink_bsy_delete(node);
+        flo_fp = NULL;
+        if (apmode)
             goto again;
-        } else
-            return ERROR;
+        if (bsy)
+            bink_bsy_delete(node);
+        return ERROR;
     }
 
     debug(4, "FLO file %s open and locking succeeded", flo_name);
-- 
2.43.0


From ab38c9dbf552a89b3e721df694ed59ce4416ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:38 +0000
Subject: [PATCH 45/52] fix: file attached to a deleted FLO file when another
 program had already created a new one

---
 src/common/flo.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/flo.c b/src/common/flo.c
index 51461df..93e3698 100644
--- a/src/common/flo.c
+++ b/src/common/flo.c
@@ -60,6 +60,7 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
 {
     char *flo;
     char *mode;
+    struct stat st1, st2;
 
     mode = apmode ? AP_MODE : RP_MODE;
 
@@ -102,8 +103,10 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
         return ERROR;
     }
 
-    /* Lock succeeded, but the FLO file may have been deleted */
-    if (access(flo_name, F_OK) == ERROR) {
+    /* Lock succeeded, but the FLO file may have been deleted, or even
+     * created again as a new file */
+    if (stat(flo_name, &st1) == -1 || fstat(fileno(flo_fp), &st2) == -1 ||
+        st1.st_dev != st2.st_dev || st1.st_ino != st2.st_ino) {
         debug(4, "FLO file %s deleted after locking", flo_name);
         fclose(flo_fp);
         flo_fp = NULL;
-- 
2.43.0


From e9f161c4f32f67e4f5a3892aa4542b2a9f926b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:38 +0000
Subject: [PATCH 46/52] fix: file attach reported as done although the FLO file
 could not be written

---
 src/common/binkley.c | 4 +---
 src/common/flo.c     | 9 ++++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 53dc9b1..6340184 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -356,9 +356,7 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
             fprintf(fp, "%s%s", n, cf_dos()? "\r\n" : "\n");
     }
 
-    flo_close(node, bsy, FALSE);
-
-    return OK;
+    return flo_close(node, bsy, FALSE);
 }
 
 /*
diff --git a/src/common/flo.c b/src/common/flo.c
index 93e3698..2fd44c1 100644
--- a/src/common/flo.c
+++ b/src/common/flo.c
@@ -175,7 +175,14 @@ int flo_close(Node * node, int bsy, int del)
                 fglog("$removing FLO file %s failed", flo_name);
                 ret = ERROR;
             }
-        fclose(flo_fp);
+        if (ferror(flo_fp) && !del) {
+            fglog("ERROR: writing FLO file %s failed", flo_name);
+            ret = ERROR;
+        }
+        if (fclose(flo_fp) == EOF && !del) {
+            fglog("$closing FLO file %s failed", flo_name);
+            ret = ERROR;
+        }
         flo_fp = NULL;
     }
 
-- 
2.43.0


From 0588dcded7c26215b9d219efcd75d39ccbe1bbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:38 +0000
Subject: [PATCH 47/52] fix: failing file attach deleted the BSY file of the
 calling program or another one

---
 src/common/binkley.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 6340184..48d402b 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -325,7 +325,7 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
     /* seek to start of flo file */
     if (fseek(fp, 0L, SEEK_SET) == ERROR) {
         fglog("$fseek EOF FLO file node %s failed", znfp1(node));
-        flo_close(node, TRUE, FALSE);
+        flo_close(node, bsy, FALSE);
         return ERROR;
     }
 
-- 
2.43.0


From 946f4a1f2cb435d54b6f3e645f7105ba9b75142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:38 +0000
Subject: [PATCH 48/52] fix: files attached with @ were attached again every
 time

---
 src/common/binkley.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 48d402b..176ff35 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -335,7 +335,7 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
         if (*line == '~')
             continue;
         lmode = ' ';
-        if (*line == '^' || *line == '#')
+        if (*line == '^' || *line == '#' || *line == '@')
             lmode = *line++;
 
         debug(5, "FLO entry: %c %s", lmode, line);
-- 
2.43.0


From 3b384fd9d83df1dafe969a1ce44ee9c1b0c04726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 49/52] fix: flo_gets() at the end of an empty FLO file read an
 uninitialized line buffer

---
 src/common/flo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/flo.c b/src/common/flo.c
index 2fd44c1..45ecb9d 100644
--- a/src/common/flo.c
+++ b/src/common/flo.c
@@ -157,7 +157,8 @@ char *flo_gets(char *s, size_t len)
     flo_off_next = off;
 
     /* Remove CR/LF */
-    strip_crlf(s);
+    if (ret)
+        strip_crlf(s);
 
     return ret;
 }
-- 
2.43.0


From f400f67576f03991f8ed72468a138cdb8dd32d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 50/52] fix: ftnflo did not find files attached with @

---
 src/util/ftnflo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ftnflo.c b/src/util/ftnflo.c
index 8046f58..feb75dc 100644
--- a/src/util/ftnflo.c
+++ b/src/util/ftnflo.c
@@ -69,7 +69,7 @@ int do_flo(Node * node)
         if (*line == '~')
             continue;
         mode = ' ';
-        if (*line == '^' || *line == '#')
+        if (*line == '^' || *line == '#' || *line == '@')
             mode = *line++;
         if (cf_dos())
             line = cf_unix_xlate(line);
-- 
2.43.0


From d687007a4b2f9711d9356abd7aff4f41d73a0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 51/52] fix: ftnflo --noexec deleted the FLO file of files not
 sent

---
 src/util/ftnflo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/ftnflo.c b/src/util/ftnflo.c
index feb75dc..5dcbe00 100644
--- a/src/util/ftnflo.c
+++ b/src/util/ftnflo.c
@@ -117,7 +117,8 @@ int do_flo(Node * node)
 
                 /* Mark as sent */
                 flo_mark();
-            }
+            } else
+                del_ok = FALSE;
         } else
             del_ok = FALSE;
     }
-- 
2.43.0


From c63f234923c9179610fbd6df6978834a2f925d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 52/52] fix: FLO file deleted with files not yet sent after a
 read error

---
 src/common/flo.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/flo.c b/src/common/flo.c
index 45ecb9d..abf80ec 100644
--- a/src/common/flo.c
+++ b/src/common/flo.c
@@ -171,15 +171,16 @@ int flo_close(Node * node, int bsy, int del)
     int ret = OK;
 
     if (flo_fp) {
+        if (ferror(flo_fp)) {
+            fglog("ERROR: reading or writing FLO file %s failed", flo_name);
+            del = FALSE;
+            ret = ERROR;
+        }
         if (del)
             if (unlink(flo_name) == -1) {
                 fglog("$removing FLO file %s failed", flo_name);
                 ret = ERROR;
             }
-        if (ferror(flo_fp) && !del) {
-            fglog("ERROR: writing FLO file %s failed", flo_name);
-            ret = ERROR;
-        }
         if (fclose(flo_fp) == EOF && !del) {
             fglog("$closing FLO file %s failed", flo_name);
             ret = ERROR;
-- 
2.43.0

