From 2d4260ab8b928c003400fa0898e4081cb943e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 01/71] fix: division by -1 of the least fixnum in quotient,
 modulo, remainder and gcd

C leaves SCM_INT_MIN / -1 and SCM_INT_MIN % -1 undefined: the process was
killed by SIGFPE with storage-fatty, and quotient silently wrapped around
with storage-compact.
---
 src/number.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/number.c b/src/number.c
index 722cd90..bc45f49 100644
--- a/src/number.c
+++ b/src/number.c
@@ -378,6 +378,8 @@ scm_p_quotient(ScmObj _n1, ScmObj _n2)
      *   value is truncated toward zero). If the value of the integral part
      *   cannot be represented by the integer type, the behavior is undefined.
      */    
+    if (n2 == -1 && n1 == SCM_INT_MIN)
+        ERR(ERRMSG_FIXNUM_OVERFLOW);
     return MAKE_INT((scm_int_t)(n1 / n2));
 }
 
@@ -395,7 +397,8 @@ scm_p_modulo(ScmObj _n1, ScmObj _n2)
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
 
-    rem = n1 % n2;
+    /* SCM_INT_MIN % -1 is undefined in C */
+    rem = (n2 == -1) ? 0 : n1 % n2;
     if (rem && ((n1 < 0 && 0 < n2) || (n2 < 0 && 0 < n1)))
         rem += n2;
 
@@ -416,7 +419,8 @@ scm_p_remainder(ScmObj _n1, ScmObj _n2)
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
 
-    return MAKE_INT(n1 % n2);
+    /* SCM_INT_MIN % -1 is undefined in C */
+    return MAKE_INT((n2 == -1) ? 0 : n1 % n2);
 }
 
 SCM_EXPORT ScmObj
@@ -453,11 +457,15 @@ static scm_int_t gcd(scm_int_t x, scm_int_t y)
        absolute value in the end. This is one single
        computation of abs, instead of two. */
     scm_int_t tmp;
+    DECLARE_INTERNAL_FUNCTION("gcd");
+
     while (x != 0) {
         tmp = x;
-        x = y % x;
+        x = (x == -1) ? 0 : y % x;  /* SCM_INT_MIN % -1 is undefined in C */
         y = tmp;
     }
+    if (y == SCM_INT_MIN)
+        ERR(ERRMSG_FIXNUM_OVERFLOW);
     return (y >= 0) ? y : -y;
 }
 
-- 
2.43.0


From eae5997a264d409ada7e9be124e83f2c3d36db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 02/71] fix: division by zero on (lcm 0 0)

gcd(0, 0) is 0, so that the process was killed by SIGFPE.
---
 src/number.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/number.c b/src/number.c
index bc45f49..bbc8535 100644
--- a/src/number.c
+++ b/src/number.c
@@ -509,7 +509,9 @@ scm_p_lcm(ScmObj left, ScmObj right, enum ScmReductionState *state)
         /* Fall through. */
     case SCM_REDUCE_1:
         ENSURE_INT(right);
-        result *= SCM_INT_VALUE(right) / gcd(result, SCM_INT_VALUE(right));
+        /* (lcm 0 0): gcd() is 0 as well */
+        if (result != 0)
+            result *= SCM_INT_VALUE(right) / gcd(result, SCM_INT_VALUE(right));
         /* Fall through. */
     case SCM_REDUCE_0:
         break;
-- 
2.43.0


From 0fd3037600f35d6b8abed69c78d8a37a338d42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 03/71] fix: crash on reading a datum that starts with a
 control char or backslash

The characters are classified as SCM_CH_CONTROL, which fell into
SCM_NOTREACHED.
---
 src/read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/read.c b/src/read.c
index 4548494..00a0146 100644
--- a/src/read.c
+++ b/src/read.c
@@ -532,6 +532,11 @@ read_sexpression(ScmObj port)
         if (ch_class & (SCM_CH_DIGIT | SCM_CH_PECULIAR_IDENTIFIER_CAND))
             return read_number_or_peculiar(port);
 
+        if (ch_class & SCM_CH_CONTROL) {
+            DISCARD_LOOKAHEAD(port);
+            ERR("invalid character: 0x~MX", (scm_int_t)c);
+        }
+
         /* case labels are ordered by appearance rate and penalty cost */
         SCM_ASSERT(ch_class == SCM_CH_TOKEN_INITIAL || c == SCM_ICHAR_EOF);
         SCM_ASSERT(c != ';');
-- 
2.43.0


From d29e1b17d48f3e2a5c5ec543753bf710f8e465aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 04/71] fix: character literals that start with a non-ASCII
 char, or end with EOF

The first char was truncated to a byte: U+0173 followed by 'pace' had been
read as #\space. '#\' at EOF had made an invalid character object.
---
 src/read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/read.c b/src/read.c
index 00a0146..2983608 100644
--- a/src/read.c
+++ b/src/read.c
@@ -780,6 +780,8 @@ read_char(ScmObj port)
 
     /* raw char (multibyte-ready) */
     c = scm_port_get_char(port);
+    if (c == SCM_ICHAR_EOF)
+        ERR("EOF in a character literal");
     next = scm_port_peek_char(port);
     if (ICHAR_ASCII_CLASS(next) & SCM_CH_DELIMITER || next == SCM_ICHAR_EOF) {
 #if !SCM_USE_R6RS_CHARS
@@ -789,6 +791,10 @@ read_char(ScmObj port)
         return MAKE_CHAR(c);
     }
 
+    /* neither the names nor the hex notation start with a non-ASCII char */
+    if (!ICHAR_ASCIIP(c))
+        ERR("invalid character literal");
+
     buf[0] = c;
     len = read_token(port, &err, &buf[1], sizeof(buf) - 1, SCM_CH_DELIMITER);
     if (err == TOKEN_BUF_EXCEEDED)
-- 
2.43.0


From 363f75c9918b0be51584cb9c9244bcc4633ff31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 05/71] fix: token longer than '...' in a list was split
 silently

(a ...b) had been read as (a ... b).
---
 src/read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read.c b/src/read.c
index 2983608..898f808 100644
--- a/src/read.c
+++ b/src/read.c
@@ -677,6 +677,8 @@ read_list(ScmObj port, scm_ichar_t closing_paren)
              * '...' and numbers in R5RS (See "7.1.1 Lexical structure"), the
              * fixed size buffer can safely buffer them. */
             read_token(port, &err, dot_buf, sizeof(dot_buf), SCM_CH_DELIMITER);
+            if (err == TOKEN_BUF_EXCEEDED)
+                ERR("bad dot syntax");
 
             if (dot_buf[1] == '\0') {
 #if !SCM_STRICT_R5RS
-- 
2.43.0


From e3727b792bd03e585bc2e4f4e4ce4d74b2289418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:06 +0000
Subject: [PATCH 06/71] fix: crash on reading a symbol that contains a char
 beyond Unicode

UTF-8 byte sequences over U+10FFFF are accepted as a character by the port
but cannot be encoded into an identifier.
---
 src/read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read.c b/src/read.c
index 898f808..3c3dbc1 100644
--- a/src/read.c
+++ b/src/read.c
@@ -490,6 +490,8 @@ read_token(ScmObj port, int *err,
             /* canonicalize internal Unicode encoding */
             p = SCM_CHARCODEC_INT2STR(scm_identifier_codec, p, c,
                                       SCM_MB_STATELESS);
+            if (!p)
+                ERR("invalid char in token: 0x~MX", (scm_int_t)c);
 #else
             ERR("non-ASCII char in token: 0x~X", (int)c);
 #endif
-- 
2.43.0


From 4f5a97a1d01e40925520e2504ac0ce50ee83a483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:06 +0000
Subject: [PATCH 07/71] fix: strings that contain ESC, DEL or NUL were written
 in an unreadable form

R6RS inline hex escape must be terminated by ';', and 'read' requires it.
---
 src/port.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/port.c b/src/port.c
index a8464c6..21027c0 100644
--- a/src/port.c
+++ b/src/port.c
@@ -82,7 +82,7 @@ SCM_EXPORT const ScmSpecialCharInfo scm_special_char_table[] = {
     /* control characters */
     {'\n',   "\\n",   "newline"},    /*  10, R5RS */
 #if SCM_USE_R6RS_NAMED_CHARS
-    {'\0',   "\\x00", "nul"},        /*   0 */
+    {'\0',   "\\x00;", "nul"},       /*   0 */
     {'\a',   "\\a",   "alarm"},      /*   7 */
     {'\b',   "\\b",   "backspace"},  /*   8 */
     {'\t',   "\\t",   "tab"},        /*   9 */
@@ -90,8 +90,8 @@ SCM_EXPORT const ScmSpecialCharInfo scm_special_char_table[] = {
     {'\v',   "\\v",   "vtab"},       /*  11 */
     {'\f',   "\\f",   "page"},       /*  12 */
     {'\r',   "\\r",   "return"},     /*  13 */
-    {0x1b,   "\\x1b", "esc"},        /*  27 */
-    {0x7f,   "\\x7f", "delete"},     /* 127 */
+    {0x1b,   "\\x1b;", "esc"},       /*  27 */
+    {0x7f,   "\\x7f;", "delete"},    /* 127 */
 #endif /* SCM_USE_R6RS_NAMED_CHARS */
     {0, NULL, NULL}
 };
-- 
2.43.0


From bcaf500620e2614d5ac6cfcbd8ac4ae1e594d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 08/71] fix: list->string crashed on a char that the current
 codec cannot encode

and the null character, which is rejected by make-string since a string is
terminated by it, was accepted by list->string, string, string-set! and
string-fill!. It left a string whose length disagrees with its contents.
---
 src/string-procedure.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index e33b9a1..ee29cf6 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -223,6 +223,10 @@ scm_p_string_setx(ScmObj str, ScmObj k, ScmObj ch)
 
     /* prepare new char */
     ch_val = SCM_CHAR_VALUE(ch);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (ch_val == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
     ch_end = SCM_CHARCODEC_INT2STR(scm_current_char_codec, ch_buf, ch_val,
                                    SCM_MB_STATELESS);
     if (!ch_end)
@@ -535,12 +539,21 @@ scm_p_list2string(ScmObj lst)
     dst = str = scm_malloc(str_size);
     FOR_EACH (ch, lst) {
 #if !SCM_USE_NULL_CAPABLE_STRING
-        if (ch == '\0')
+        if (SCM_CHAR_VALUE(ch) == '\0') {
+            free(str);
             ERR(SCM_ERRMSG_NULL_IN_STRING);
+        }
 #endif
 #if SCM_USE_MULTIBYTE_CHAR
-        dst = SCM_CHARCODEC_INT2STR(scm_current_char_codec, dst,
-                                    SCM_CHAR_VALUE(ch), SCM_MB_STATELESS);
+        ch_val = SCM_CHAR_VALUE(ch);
+        dst = SCM_CHARCODEC_INT2STR(scm_current_char_codec, dst, ch_val,
+                                    SCM_MB_STATELESS);
+        if (!dst) {
+            free(str);
+            ERR("invalid char 0x~MX for encoding ~S",
+                (scm_int_t)ch_val,
+                SCM_CHARCODEC_ENCODING(scm_current_char_codec));
+        }
 #else
         *dst++ = SCM_CHAR_VALUE(ch);
 #endif
@@ -578,6 +591,10 @@ scm_p_string_fillx(ScmObj str, ScmObj ch)
     str_len = SCM_STRING_LEN(str);
     if (str_len == 0)
         return MAKE_STRING_COPYING("", 0);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (SCM_CHAR_VALUE(ch) == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 
 #if SCM_USE_MULTIBYTE_CHAR
     next = SCM_CHARCODEC_INT2STR(scm_current_char_codec, ch_buf,
-- 
2.43.0


From 0cbb2dcab3a3c135cde5b9f41262d913371df128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 09/71] fix: stale shared-structure table after write/ss failed
 in the middle

---
 src/write.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/write.c b/src/write.c
index f34c9a1..4d7d4ea 100644
--- a/src/write.c
+++ b/src/write.c
@@ -177,12 +177,18 @@ scm_init_writer(void)
 SCM_EXPORT void
 scm_write(ScmObj port, ScmObj obj)
 {
+#if SCM_USE_SRFI38
+    l_write_ss_ctx = NULL;  /* may be left by an error in write_ss_internal() */
+#endif
     write_internal(port, obj, AS_WRITE);
 }
 
 SCM_EXPORT void
 scm_display(ScmObj port, ScmObj obj)
 {
+#if SCM_USE_SRFI38
+    l_write_ss_ctx = NULL;  /* may be left by an error in write_ss_internal() */
+#endif
     write_internal(port, obj, AS_DISPLAY);
 }
 
@@ -249,7 +255,7 @@ write_obj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
         scm_port_puts(port, (SCM_SYNTAXP(obj)) ? "#<syntax " : "#<subr ");
         sym = scm_symbol_bound_to(obj);
         if (TRUEP(sym))
-            scm_display(port, sym);
+            write_obj(port, sym, AS_DISPLAY);
         else
             scm_format(port, SCM_FMT_RAW_C, "~P", (void *)obj);
         scm_port_put_char(port, '>');
@@ -587,11 +593,11 @@ write_errobj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     switch (otype) {
     case AS_WRITE:
         scm_port_puts(port, "#<error ");
-        scm_write(port, reason);
+        write_obj(port, reason, AS_WRITE);
         break;
 
     case AS_DISPLAY:
-        scm_display(port, reason);
+        write_obj(port, reason, AS_DISPLAY);
         break;
 
     default:
@@ -600,7 +606,7 @@ write_errobj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
 
     FOR_EACH (elm, objs) {
         scm_port_put_char(port, ' ');
-        scm_write(port, elm);
+        write_obj(port, elm, AS_WRITE);
     }
 
     if (otype == AS_WRITE)
@@ -615,7 +621,7 @@ write_farsymbol(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     scm_port_puts(port, "#<farsym");
     for (; SCM_FARSYMBOLP(obj); obj = SCM_FARSYMBOL_SYM(obj))
         scm_format(port, SCM_FMT_RAW_C, " ~MD ", SCM_FARSYMBOL_ENV(obj));
-    scm_display(port, obj); /* Name. */
+    write_obj(port, obj, AS_DISPLAY); /* Name. */
     scm_port_puts(port, ">");
 }
 #endif /* SCM_USE_HYGIENIC_MACRO */
@@ -811,8 +817,7 @@ write_ss_internal(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     write_ss_scan(obj, &ctx);
 
     /* If no structure is shared, we do a normal write. */
-    if (!HASH_EMPTY(ctx.seen))
-        l_write_ss_ctx = &ctx;
+    l_write_ss_ctx = (HASH_EMPTY(ctx.seen)) ? NULL : &ctx;
 
     write_internal(port, obj, otype);
 
-- 
2.43.0


From e15db9b39848e8c4faf841327363a92aef809a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 10/71] fix: fatal error on writing a closed port

---
 src/write.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/write.c b/src/write.c
index 4d7d4ea..cd82f97 100644
--- a/src/write.c
+++ b/src/write.c
@@ -544,13 +544,15 @@ write_port(ScmObj port, ScmObj obj, enum ScmOutputType otype)
         scm_port_put_char(port, 'o');
     scm_port_puts(port, "port");
 
-    /* file or string */
-    info = scm_port_inspect(obj);
-    if (*info) {
-        scm_port_put_char(port, ' ');
-        scm_port_puts(port, info);
+    /* file or string. A closed port has nothing to be inspected. */
+    if (SCM_PORT_IMPL(obj)) {
+        info = scm_port_inspect(obj);
+        if (*info) {
+            scm_port_put_char(port, ' ');
+            scm_port_puts(port, info);
+        }
+        free(info);
     }
-    free(info);
 
     scm_port_put_char(port, '>');
 }
-- 
2.43.0


From 9edbc5c03e23866cff23b1a4514a3fb4194c3b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 11/71] fix: fatal double error on an unsupported # notation
 the current codec cannot encode

---
 src/read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read.c b/src/read.c
index 3c3dbc1..e134de5 100644
--- a/src/read.c
+++ b/src/read.c
@@ -583,6 +583,10 @@ read_sexpression(ScmObj port)
                 ERR("EOF in #");
                 /* NOTREACHED */
             default:
+                /* The current codec may not be able to encode the char that
+                 * comes from a port of another codec. */
+                if (!ICHAR_ASCIIP(c))
+                    ERR("unsupported # notation: 0x~MX", (scm_int_t)c);
                 ERR("unsupported # notation: ~C", c);
                 /* NOTREACHED */
             }
-- 
2.43.0


From 0e8a7384d4348826dac2b2ec977dd481c3c16514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 12/71] fix: peek-char lost a NUL byte of a port

---
 src/scmport-mbchar.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/scmport-mbchar.c b/src/scmport-mbchar.c
index 2bbca59..573620d 100644
--- a/src/scmport-mbchar.c
+++ b/src/scmport-mbchar.c
@@ -73,6 +73,7 @@ struct ScmMultiByteCharPort_ {  /* inherits ScmBaseCharPort */
 
     ScmCharCodec *codec;
     ScmMultibyteState rstate, wstate;
+    size_t rbuf_len;  /* rbuf may contain NUL as a char */
     scm_byte_t rbuf[SCM_MB_CHAR_BUF_SIZE];
 };
 
@@ -136,6 +137,7 @@ ScmMultiByteCharPort_construct(ScmMultiByteCharPort *port,
     ScmBaseCharPort_construct((ScmBaseCharPort *)port, vptr, bport);
 
     port->codec = codec;
+    port->rbuf_len = 0;
     port->rbuf[0] = '\0';
     SCM_MBCPORT_CLEAR_STATE(port);
 }
@@ -161,8 +163,10 @@ ScmMultiByteCharPort_set_codec(ScmCharPort *cport, ScmCharCodec *codec)
     mbcport->codec = codec;
     SCM_MBCPORT_CLEAR_STATE(mbcport);
     /* only one byte can be preserved for new codec. otherwise cleared */
-    if (1 < strlen((char *)mbcport->rbuf))
+    if (1 < mbcport->rbuf_len) {
+        mbcport->rbuf_len = 0;
         mbcport->rbuf[0] = '\0';
+    }
 }
 
 static ScmCharPort *
@@ -197,6 +201,7 @@ mbcport_get_char(ScmMultiByteCharPort *port)
 #endif
 
     ch = mbcport_peek_char(port);
+    port->rbuf_len = 0;
     port->rbuf[0] = '\0';
 #if SCM_USE_STATEFUL_ENCODING
     SCM_MBCPORT_SET_STATE(port, next_state)
@@ -259,7 +264,7 @@ mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
     ScmMultibyteString mbs;
     ScmMultibyteCharInfo mbc;
 
-    end = (scm_byte_t *)strchr((char *)port->rbuf, '\0');
+    end = port->rbuf + port->rbuf_len;
     SCM_MBS_SET_STATE(mbs, port->rstate);
     do {
         SCM_MBS_SET_STR(mbs, (char *)port->rbuf);
@@ -278,6 +283,7 @@ mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
         byte = SCM_BYTEPORT_GET_BYTE(port->bport);
         if (byte == SCM_ICHAR_EOF) {
             SCM_MBCINFO_INIT(mbc);
+            port->rbuf_len = 0;
             port->rbuf[0] = '\0';
 #if HANDLE_MBC_START
             mbc->start = (char *)port->rbuf;
@@ -286,6 +292,7 @@ mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
         }
         *end++ = byte;
         *end = '\0';
+        port->rbuf_len = end - port->rbuf;
     } while (blockp || SCM_BYTEPORT_BYTE_READYP(port->bport));
 
     return mbc;
-- 
2.43.0


From ddc56356e118b617d868074b5bc0f877a4d229d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:12 +0000
Subject: [PATCH 13/71] fix: fatal double error on an escape sequence the
 current codec cannot encode

---
 src/read.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/read.c b/src/read.c
index e134de5..bfc63a2 100644
--- a/src/read.c
+++ b/src/read.c
@@ -898,6 +898,13 @@ read_string(ScmObj port)
                     }
                 }
             }
+            if (c == SCM_ICHAR_EOF)
+                ERR("EOF in string");
+            /* The current codec may not be able to encode the char that comes
+             * from a port of another codec. */
+            if (!ICHAR_ASCIIP(c))
+                ERR("invalid escape sequence in string: \\ 0x~MX",
+                    (scm_int_t)c);
             ERR("invalid escape sequence in string: \\~C", c);
         found:
             break;
-- 
2.43.0


From 49a459a70a18564c4f07d4d719a5a433a35cd399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 14/71] fix: NUL given by a hex escape made a string whose
 length exceeds its content

---
 src/read.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/read.c b/src/read.c
index bfc63a2..1701c86 100644
--- a/src/read.c
+++ b/src/read.c
@@ -881,8 +881,7 @@ read_string(ScmObj port)
                 if (!p)
                     ERR("invalid inline hex escape in string: 0x~MX",
                         (scm_int_t)c);
-                c = scm_port_get_char(port);
-                if (c != ';')
+                if (scm_port_get_char(port) != ';')
                     ERR("inline hex escape must be followed by ';'");
                 goto found;
             } else
-- 
2.43.0


From 3d80c19dccb6b848c2a7f6692b832ba57c67438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 15/71] fix: assertion failure on a hex escape beyond the
 32-bit range

---
 src/read.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/read.c b/src/read.c
index 1701c86..07e7c41 100644
--- a/src/read.c
+++ b/src/read.c
@@ -724,7 +724,7 @@ read_list(ScmObj port, scm_ichar_t closing_paren)
 static scm_ichar_t
 parse_unicode_sequence(const char *seq, int len)
 {
-    scm_ichar_t c;
+    scm_int_t c;  /* may exceed scm_ichar_t */
     int err;
     DECLARE_INTERNAL_FUNCTION("read");
 
@@ -741,9 +741,9 @@ parse_unicode_sequence(const char *seq, int len)
      * the sequence of <digit 16>s forms a hexadecimal number between 0 and
      * #x10FFFF excluding the range [#xD800, #xDFFF] */
     if (!ICHAR_VALID_UNICODEP(c))
-        ERR("invalid Unicode value: 0x~MX", (scm_int_t)c);
+        ERR("invalid Unicode value: 0x~MX", c);
 
-    return c;
+    return (scm_ichar_t)c;
 }
 
 static scm_ichar_t
-- 
2.43.0


From 8677cc052c948012eb0b5e9f7c9e409f7c328b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 16/71] fix: comparison procedures left operands unevaluated
 after a false comparison

---
 src/eval.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index e437abb..215ef93 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -123,8 +123,16 @@ reduce(scm_reduction_operator func,
         if (need_eval)
             right = EVAL(right, env);
         left = (*func)(left, right, &state);
-        if (state == SCM_REDUCE_STOP)
+        if (state == SCM_REDUCE_STOP) {
+            /* The rest operands do not affect the result, but must be
+             * evaluated as well as of any other procedure call. */
+            FOR_EACH (right, args) {
+                if (need_eval)
+                    EVAL(right, env);
+            }
+            ASSERT_NO_MORE_ARG(args);
             return left;
+        }
     }
     ASSERT_NO_MORE_ARG(args);
 
-- 
2.43.0


From 038845e2bdfb74b358b8288c685e2269dfa44348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 17/71] fix: unquote-splicing modified the spliced list when
 elements follow it

---
 src/qquote.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/qquote.c b/src/qquote.c
index c56c0b2..13fdeca 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -292,7 +292,19 @@ scm_listran(sequence_translator *t, tr_msg msg, ScmObj obj)
             t->u.lst.src = CDR(t->u.lst.src);
         }
 
-        if (msg != TRL_MSG_SET_SUBLS) {
+        if (msg == TR_MSG_SPLICE && !NULLP(CDR(t->u.lst.cur))) {
+            ScmObj rest;
+
+            /* The list is owned by user. Copy it since its last cdr is going
+             * to be modified. */
+            for (rest = obj; CONSP(rest); rest = CDR(rest))
+                SCM_QUEUE_ADD(t->u.lst.q, CAR(rest));
+#if SCM_STRICT_ARGCHECK
+            if (!NULLP(rest))
+                ERR_OBJ(ERRMSG_BAD_SPLICE_LIST, obj);
+#endif
+            t->u.lst.src = obj = CDR(t->u.lst.cur);
+        } else if (msg != TRL_MSG_SET_SUBLS) {
             SCM_QUEUE_APPEND(t->u.lst.q, obj);
 #if SCM_STRICT_ARGCHECK
             if (!NULLP(SCM_QUEUE_TERMINATOR(t->u.lst.q)))
-- 
2.43.0


From c3979875143213558841be3274326b64994c02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 18/71] fix: vector->list read a vector freed by GC in the
 middle

---
 src/vector.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index f8a75cd..c52bd0b 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -157,19 +157,23 @@ SCM_EXPORT ScmObj
 scm_p_vector2list(ScmObj vec)
 {
     ScmQueue q;
-    ScmObj ret, *v;
+    ScmObj ret;
+    volatile ScmObj protected_vec;
     scm_int_t len, i;
     DECLARE_FUNCTION("vector->list", procedure_fixed_1);
 
     ENSURE_VECTOR(vec);
 
-    v   = SCM_VECTOR_VEC(vec);
     len = SCM_VECTOR_LEN(vec);
 
+    /* Keep the tagged reference on the stack throughout the loop since the
+     * allocation may invoke GC. Neither the pointer to the body nor the
+     * untagged pointer protects the vector. */
+    protected_vec = vec;
     ret = SCM_NULL;
     SCM_QUEUE_POINT_TO(q, ret);
     for (i = 0; i < len; i++)
-        SCM_QUEUE_ADD(q, v[i]);
+        SCM_QUEUE_ADD(q, SCM_VECTOR_VEC(protected_vec)[i]);
 
     return ret;
 }
-- 
2.43.0


From eb28cbd10a56d6cd6023c84e6e26bcf33f3f4b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 19/71] fix: elements of a vector under construction were freed
 by GC

---
 src/qquote.c            |  3 +++
 src/sigschemeinternal.h | 13 +++++++++++++
 src/vector.c            | 23 ++++++++++++-----------
 3 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/qquote.c b/src/qquote.c
index 13fdeca..f90f5e5 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -406,6 +406,9 @@ scm_vectran(sequence_translator *t, tr_msg msg, ScmObj obj)
                     change_index = SCM_INT_VALUE(CAAR(diff));
             }
             ret = MAKE_VECTOR(copy_buf, src_len + t->u.vec.growth);
+            /* protects the elements */
+            SCM_KEEP_ALIVE(t->u.vec.src);
+            SCM_KEEP_ALIVE(t->u.vec.diff);
             RETURN_OBJECT(ret);
         }
         RETURN_OBJECT(t->u.vec.src);
diff --git a/src/sigschemeinternal.h b/src/sigschemeinternal.h
index 2ff6a64..b4bdee2 100644
--- a/src/sigschemeinternal.h
+++ b/src/sigschemeinternal.h
@@ -443,6 +443,19 @@ SCM_EXPORT void scm_error_with_implicit_func(const char *msg, ...) SCM_NORETURN;
 #define CHECK_VALID_EVALED_VALUE(x) SCM_EMPTY_EXPR
 #endif
 
+/*=======================================
+  GC
+=======================================*/
+/* Keeps obj visible from the conservative GC until here. An object that is
+ * referred only via its body (vector elements, string buffer etc.), or its
+ * untagged address, by optimized code is not protected otherwise. */
+#define SCM_KEEP_ALIVE(obj)                                                  \
+    do {                                                                     \
+        volatile ScmObj keep_alive;                                          \
+        keep_alive = (obj);                                                  \
+        (void)keep_alive;                                                    \
+    } while (/* CONSTCOND */ 0)
+
 /*=======================================
   Numbers
 =======================================*/
diff --git a/src/vector.c b/src/vector.c
index c52bd0b..5bb6bbe 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -73,7 +73,7 @@ scm_p_vectorp(ScmObj obj)
 SCM_EXPORT ScmObj
 scm_p_make_vector(ScmObj scm_len, ScmObj args)
 {
-    ScmObj *vec, filler;
+    ScmObj *vec, filler, ret;
     scm_int_t len, i;
     DECLARE_FUNCTION("make-vector", procedure_variadic_1);
 
@@ -93,7 +93,9 @@ scm_p_make_vector(ScmObj scm_len, ScmObj args)
     for (i = 0; i < len; i++)
         vec[i] = filler;
 
-    return MAKE_VECTOR(vec, len);
+    ret = MAKE_VECTOR(vec, len);
+    SCM_KEEP_ALIVE(filler);
+    return ret;
 }
 
 SCM_EXPORT ScmObj
@@ -158,7 +160,6 @@ scm_p_vector2list(ScmObj vec)
 {
     ScmQueue q;
     ScmObj ret;
-    volatile ScmObj protected_vec;
     scm_int_t len, i;
     DECLARE_FUNCTION("vector->list", procedure_fixed_1);
 
@@ -166,14 +167,11 @@ scm_p_vector2list(ScmObj vec)
 
     len = SCM_VECTOR_LEN(vec);
 
-    /* Keep the tagged reference on the stack throughout the loop since the
-     * allocation may invoke GC. Neither the pointer to the body nor the
-     * untagged pointer protects the vector. */
-    protected_vec = vec;
     ret = SCM_NULL;
     SCM_QUEUE_POINT_TO(q, ret);
     for (i = 0; i < len; i++)
-        SCM_QUEUE_ADD(q, SCM_VECTOR_VEC(protected_vec)[i]);
+        SCM_QUEUE_ADD(q, SCM_VECTOR_VEC(vec)[i]);
+    SCM_KEEP_ALIVE(vec);
 
     return ret;
 }
@@ -181,7 +179,7 @@ scm_p_vector2list(ScmObj vec)
 SCM_EXPORT ScmObj
 scm_p_list2vector(ScmObj lst)
 {
-    ScmObj *vec;
+    ScmObj *vec, rest, ret;
     scm_int_t len, i;
     DECLARE_FUNCTION("list->vector", procedure_fixed_1);
 
@@ -190,10 +188,13 @@ scm_p_list2vector(ScmObj lst)
         ERR_OBJ("proper list required but got", lst);
 
     vec = scm_malloc(sizeof(ScmObj) * len);
+    rest = lst;
     for (i = 0; i < len; i++)
-        vec[i] = POP(lst);
+        vec[i] = POP(rest);
 
-    return MAKE_VECTOR(vec, len);
+    ret = MAKE_VECTOR(vec, len);
+    SCM_KEEP_ALIVE(lst);  /* protects the elements */
+    return ret;
 }
 
 SCM_EXPORT ScmObj
-- 
2.43.0


From 97cdf451fc92d0ae4e4d389a2b76e8abba5b2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 20/71] fix: division by -1 of the least fixnum in /

---
 src/number.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/number.c b/src/number.c
index bbc8535..51811f3 100644
--- a/src/number.c
+++ b/src/number.c
@@ -174,6 +174,8 @@ scm_p_divide(ScmObj left, ScmObj right, enum ScmReductionState *state)
         val = SCM_INT_VALUE(right);
         if (val == 0)
             ERR(ERRMSG_DIV_BY_ZERO);
+        if (val == -1 && result == SCM_INT_MIN)
+            ERR(ERRMSG_FIXNUM_OVERFLOW);
         result /= val;
         break;
 
-- 
2.43.0


From 00b37d798d32ea0ea2c34879afe85d27d0c4fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 21/71] fix: error message string read after it was freed by GC

---
 src/error.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index 229561b..5538d6b 100644
--- a/src/error.c
+++ b/src/error.c
@@ -354,6 +354,9 @@ scm_error_internal(const char *func_name, ScmObj obj,
                    const char *msg, va_list args)
 {
     ScmObj reason, err_obj;
+#if (SCM_USE_FORMAT && SCM_USE_SRFI6)
+    ScmObj msg_obj;
+#endif
 
     if (l_error_looped)
         scm_fatal_error("bug: double error on preparing error object");
@@ -364,10 +367,12 @@ scm_error_internal(const char *func_name, ScmObj obj,
 #if (SCM_USE_FORMAT && SCM_USE_SRFI6)
     reason = scm_vformat(SCM_FALSE, SCM_FMT_INTERNAL, msg, args);
     if (func_name) {
+        msg_obj = reason;
         reason = scm_format(SCM_FALSE, SCM_FMT_RAW_C,
                             "in ~S: ~S~S",
-                            func_name, SCM_STRING_STR(reason),
+                            func_name, SCM_STRING_STR(msg_obj),
                             (EQ(obj, NO_ERR_OBJ) ? "" : ":"));
+        SCM_KEEP_ALIVE(msg_obj);
     }
 #else
     reason = CONST_STRING(msg);
-- 
2.43.0


From 0fe3859f2355df51ece9a1a8fd229ac0c68e8551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 22/71] fix: Shift_JIS chars whose second byte is 0x7E were
 rejected

---
 src/encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoding.c b/src/encoding.c
index d797963..c0483d2 100644
--- a/src/encoding.c
+++ b/src/encoding.c
@@ -918,7 +918,7 @@ utf8_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
     && !IS_KANA(c)        \
     && (uchar)(c) <= 0xFC \
     && (uchar)(c) != 0xA0)
-#define IS_TRAIL(c) (0x40 <= (uchar)(c) && (uchar)(c) <= 0xFC && (c) != 0x7E)
+#define IS_TRAIL(c) (0x40 <= (uchar)(c) && (uchar)(c) <= 0xFC && (c) != 0x7F)
 
 static const char *
 sjis_encoding(void)
-- 
2.43.0


From b76f7a70634afad2109c99a2a5c21d771dc22ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 23/71] fix: integers that are no Shift_JIS char were accepted
 as chars

---
 src/encoding.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/encoding.c b/src/encoding.c
index c0483d2..ceacd9b 100644
--- a/src/encoding.c
+++ b/src/encoding.c
@@ -980,11 +980,16 @@ sjis_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
 
     if (IS_LEAD(high)) {
 #if SCM_STRICT_ENCODING_CHECK
-        if (!IS_TRAIL(high))
+        if (!IS_TRAIL(low))
             return NULL;
 #endif
         *dst++ = high;
     }
+#if SCM_STRICT_ENCODING_CHECK
+    else if (high || IS_LEAD(low)) {
+        return NULL;
+    }
+#endif
     *dst++ = low;
     *dst = '\0';
 
-- 
2.43.0


From eaa0267de33b720880aee2348af967930d744168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 24/71] fix: negative and too large integers were accepted as
 chars in non-Unicode encodings

---
 src/char.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/char.c b/src/char.c
index 89cf5ad..631dbbd 100644
--- a/src/char.c
+++ b/src/char.c
@@ -275,8 +275,10 @@ scm_p_integer2char(ScmObj n)
 
     val = SCM_INT_VALUE(n);
 #if SCM_USE_MULTIBYTE_CHAR
-    if ((SCM_CHARCODEC_CCS(scm_current_char_codec) == SCM_CCS_UNICODE
-         && !ICHAR_VALID_UNICODEP(val))
+    if (val < 0
+        || (scm_ichar_t)val != val
+        || (SCM_CHARCODEC_CCS(scm_current_char_codec) == SCM_CCS_UNICODE
+            && !ICHAR_VALID_UNICODEP(val))
         || (!SCM_CHARCODEC_CHAR_LEN(scm_current_char_codec, val)
             && val != 0))  /* NUL is a valid char */
 #else
-- 
2.43.0


From 5aa3799fff3782f7a3c85560f174be5be32ad825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 25/71] fix: overlong, surrogate and beyond-Unicode UTF-8
 sequences were accepted

---
 src/encoding.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/encoding.c b/src/encoding.c
index ceacd9b..b32c5ba 100644
--- a/src/encoding.c
+++ b/src/encoding.c
@@ -792,6 +792,9 @@ utf8_scan_char(ScmMultibyteString mbs)
     const uchar *str = (const uchar *)SCM_MBS_GET_STR(mbs);
     const size_t size = SCM_MBS_GET_SIZE(mbs);
     size_t len;
+#if SCM_STRICT_ENCODING_CHECK
+    scm_ichar_t ch;
+#endif
     ENTER;
 
     if (!size)
@@ -813,6 +816,10 @@ utf8_scan_char(ScmMultibyteString mbs)
             if (!IS_TRAILING(str[i]))
                 RETURN_ERROR();
         }
+        /* overlong form, surrogate or beyond Unicode (RFC 3629) */
+        ch = utf8_str2int(str, len, SCM_MB_STATELESS);
+        if (utf8_char_len(ch) != (int)len || (0xd800 <= ch && ch <= 0xdfff))
+            RETURN_ERROR();
     }
 #else  /* not SCM_STRICT_ENCODING_CHECK */
     if (size < len)
-- 
2.43.0


From f47c9fa21664c7b193e5b87d6c6bc71fb0494804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 26/71] fix: radix beyond the range of int was truncated

---
 src/number-io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number-io.c b/src/number-io.c
index b314eb2..976aa50 100644
--- a/src/number-io.c
+++ b/src/number-io.c
@@ -78,7 +78,7 @@ static int
 prepare_radix(const char *funcname, ScmObj args)
 {
     ScmObj radix;
-    int r;
+    scm_int_t r;  /* not to truncate an invalid radix */
     DECLARE_INTERNAL_FUNCTION("(internal)");
 
     ASSERT_PROPER_ARG_LIST(args);
-- 
2.43.0


From 7a7865870be36ead7c7457d5806565f8fc023ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:18 +0000
Subject: [PATCH 27/71] fix: vector-reverse-copy! rejected adjacent ranges of
 one vector

---
 lib/srfi-43.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/srfi-43.scm b/lib/srfi-43.scm
index de200a1..f3d4e59 100644
--- a/lib/srfi-43.scm
+++ b/lib/srfi-43.scm
@@ -131,7 +131,7 @@
 
 (define (between? x y z)
   (and (<  x y)
-       (<= y z)))
+       (<  y z)))
 
 (define (unspecified-value) (if #f #f))
 
-- 
2.43.0


From 5459effff54ee9d91b15a6974befffe721e5f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 28/71] fix: hash returned 1 for the bound 1

---
 lib/srfi-69.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/srfi-69.scm b/lib/srfi-69.scm
index cb0d922..f4704cd 100644
--- a/lib/srfi-69.scm
+++ b/lib/srfi-69.scm
@@ -96,7 +96,7 @@
 	  ((null? obj) 0)
 	  ((not obj) 0)
 	  ((procedure? obj) (error "hash: procedures cannot be hashed" obj))
-	  (else 1))))
+	  (else (modulo 1 bound)))))
 
 (define hash-by-identity hash)
 
-- 
2.43.0


From 993ba79debee9fd36618733d994d7b66299180f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 29/71] fix: modifying the string of an open input string port
 read freed memory

---
 src/module-srfi6.c | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/module-srfi6.c b/src/module-srfi6.c
index cf1cb8b..a85cbc4 100644
--- a/src/module-srfi6.c
+++ b/src/module-srfi6.c
@@ -61,8 +61,6 @@
 /*=======================================
   File Local Function Declarations
 =======================================*/
-static void srfi6_istrport_finalize(char **str, scm_bool ownership,
-                                    void **opaque);
 
 /*=======================================
   Function Definitions
@@ -75,28 +73,17 @@ scm_initialize_srfi6(void)
     scm_register_funcs(scm_functable_srfi6);
 }
 
-static void
-srfi6_istrport_finalize(char **str, scm_bool ownership, void **opaque)
-{
-    SCM_ASSERT(!ownership);
-
-    scm_gc_unprotect((ScmObj *)opaque);
-}
-
 SCM_EXPORT ScmObj
 scm_p_srfi6_open_input_string(ScmObj str)
 {
-    ScmObj *hold_str;
     ScmBytePort *bport;
     ScmCharPort *cport;
     DECLARE_FUNCTION("open-input-string", procedure_fixed_1);
 
     ENSURE_STRING(str);
 
-    bport = ScmInputStrPort_new_const(SCM_STRING_STR(str),
-                                      srfi6_istrport_finalize);
-    hold_str = (ScmObj *)ScmInputStrPort_ref_opaque(bport);
-    scm_gc_protect_with_init(hold_str, str);
+    /* str may be modified while the port is alive */
+    bport = ScmInputStrPort_new_copying(SCM_STRING_STR(str), NULL);
     cport = scm_make_char_port(bport);
     return MAKE_PORT(cport, SCM_PORTFLAG_INPUT);
 }
-- 
2.43.0


From 9eac7fefbc1fd1697a419cc5ed3c273a9bafe71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 30/71] fix: failing close of a file port left a freed port
 that GC closed again

---
 src/port.c             |  5 ++++-
 src/scmport-basechar.c |  5 ++++-
 src/scmport-config.h   |  2 ++
 src/scmport-file.c     |  2 +-
 src/sigscheme.h        |  1 +
 src/storage-gc.c       | 13 +++++++++++++
 6 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/port.c b/src/port.c
index 21027c0..b1544dd 100644
--- a/src/port.c
+++ b/src/port.c
@@ -187,11 +187,14 @@ scm_port_newline(ScmObj port)
 SCM_EXPORT void
 scm_port_close(ScmObj port)
 {
+    ScmCharPort *impl;
+
     SCM_ASSERT(SCM_PORTP(port));
     SCM_ASSERT(SCM_PORT_IMPL(port));
 
-    SCM_CHARPORT_CLOSE(SCM_PORT_IMPL(port));
+    impl = SCM_PORT_IMPL(port);
     SCM_PORT_SET_IMPL(port, NULL);
+    SCM_CHARPORT_CLOSE(impl);  /* may raise an error */
 }
 
 SCM_EXPORT ScmCharCodec *
diff --git a/src/scmport-basechar.c b/src/scmport-basechar.c
index f178ad0..484a410 100644
--- a/src/scmport-basechar.c
+++ b/src/scmport-basechar.c
@@ -139,8 +139,11 @@ basecport_dyn_cast(ScmCharPort *cport, const ScmCharPortVTbl *dst_vptr)
 static void
 basecport_close(ScmBaseCharPort *port)
 {
-    SCM_BYTEPORT_CLOSE(port->bport);
+    ScmBytePort *bport;
+
+    bport = port->bport;
     free(port);
+    SCM_BYTEPORT_CLOSE(bport);  /* may raise an error */
 }
 
 static ScmCharCodec *
diff --git a/src/scmport-config.h b/src/scmport-config.h
index e50e6a8..09b1d47 100644
--- a/src/scmport-config.h
+++ b/src/scmport-config.h
@@ -57,6 +57,7 @@ extern "C" {
 #define SCM_PORT_STRDUP(str)           (scm_strdup(str))
 #define SCM_CHARPORT_ERROR(cport, msg) (scm_plain_error(msg))
 #define SCM_BYTEPORT_ERROR(bport, msg) (scm_plain_error(msg))
+#define SCM_PORT_CLOSED_BY_GCP()       (scm_gc_sweepingp())
 #else /* SCM_SCMPORT_USE_WITH_SIGSCHEME */
 /* Allocation error handling in the macros is strongly recommended. */
 #define SCM_PORT_MALLOC(size)          (malloc(size))
@@ -72,6 +73,7 @@ extern "C" {
  */
 #define SCM_CHARPORT_ERROR(cport, msg) (exit(EXIT_FAILURE))
 #define SCM_BYTEPORT_ERROR(bport, msg) (exit(EXIT_FAILURE))
+#define SCM_PORT_CLOSED_BY_GCP()       (0)
 #endif /* SCM_SCMPORT_USE_WITH_SIGSCHEME */
 
 /*=======================================
diff --git a/src/scmport-file.c b/src/scmport-file.c
index 50489bb..a5f8cf7 100644
--- a/src/scmport-file.c
+++ b/src/scmport-file.c
@@ -190,7 +190,7 @@ fileport_close(ScmFilePort *port)
     ret = (port->ownership) ? fclose(port->file) : OK;
     free(port->aux_info);
     free(port);
-    if (ret == EOF)
+    if (ret == EOF && !SCM_PORT_CLOSED_BY_GCP())
         SCM_BYTEPORT_ERROR(NULL, SCM_ERRMSG_CLOSE_PORT);
 }
 
diff --git a/src/sigscheme.h b/src/sigscheme.h
index a4acc26..621ec3a 100644
--- a/src/sigscheme.h
+++ b/src/sigscheme.h
@@ -1305,6 +1305,7 @@ SCM_EXPORT void scm_gc_protect(ScmObj *var);
 SCM_EXPORT void scm_gc_protect_with_init(ScmObj *var, ScmObj init_val);
 SCM_EXPORT void scm_gc_unprotect(ScmObj *var);
 SCM_EXPORT scm_bool scm_gc_protectedp(ScmObj obj);
+SCM_EXPORT scm_bool scm_gc_sweepingp(void);
 SCM_EXPORT void *scm_call_with_gc_ready_stack(ScmGCGateFunc func, void *arg);
 SCM_EXPORT scm_bool scm_gc_protected_contextp(void);
 /* for semantic assertions */
diff --git a/src/storage-gc.c b/src/storage-gc.c
index 04bbf9d..a277c5f 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -102,6 +102,7 @@ static ScmObj l_freelist;
 static ScmObj **l_protected_vars;
 static size_t l_protected_vars_size, l_n_empty_protected_vars;
 static GCROOTS_context *l_gcroots_ctx;
+static scm_bool l_sweeping;
 #if SCM_DEBUG
 static size_t l_gcing;
 static scm_bool l_allocating;
@@ -121,6 +122,7 @@ SCM_GLOBAL_VARS_END(static_gc);
 #define l_n_empty_protected_vars                                             \
     SCM_GLOBAL_VAR(static_gc, l_n_empty_protected_vars)
 #define l_gcroots_ctx          SCM_GLOBAL_VAR(static_gc, l_gcroots_ctx)
+#define l_sweeping             SCM_GLOBAL_VAR(static_gc, l_sweeping)
 #if SCM_DEBUG
 #define l_gcing                SCM_GLOBAL_VAR(static_gc, l_gcing)
 #define l_allocating           SCM_GLOBAL_VAR(static_gc, l_allocating)
@@ -444,6 +446,7 @@ finalize_heap(void)
     ScmCell *cell;
     ScmObjHeap heap;
 
+    l_sweeping = scm_true;
     for (i = 0; i < l_n_heaps; i++) {
         heap = l_heaps[i];
         for (cell = &heap[0]; cell < &heap[l_heap_size]; cell++)
@@ -451,6 +454,7 @@ finalize_heap(void)
         free(heap);
     }
     free(l_heaps);
+    l_sweeping = scm_false;
 }
 
 static void
@@ -788,6 +792,13 @@ gc_mark_global_vars(void)
     SCM_END_GC_SUBCONTEXT();
 }
 
+/* An error must not be raised when a port is closed by the collector. */
+SCM_EXPORT scm_bool
+scm_gc_sweepingp(void)
+{
+    return l_sweeping;
+}
+
 static void
 free_cell(ScmCell *cell)
 {
@@ -893,6 +904,7 @@ gc_sweep(void)
     ScmObj new_freelist;
 
     SCM_BEGIN_GC_SUBCONTEXT();
+    l_sweeping = scm_true;
 
     /* Because l_freelist may not be exhausted on an user-instructed GC, do not
      * assume that l_freelist is null here. -- YamaKen */
@@ -920,6 +932,7 @@ gc_sweep(void)
     }
     l_freelist = new_freelist;
 
+    l_sweeping = scm_false;
     SCM_END_GC_SUBCONTEXT();
 
     return sum_collected;
-- 
2.43.0


From b4ed44bbdb7d4cbcad56da6c941ee855c1e91096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 31/71] fix: format took the low byte of a non-ASCII directive

---
 src/format.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/format.c b/src/format.c
index 2b069ef..d8e48db 100644
--- a/src/format.c
+++ b/src/format.c
@@ -472,7 +472,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
                  format_string_t *fmt, struct scm_format_args args)
 {
     const void *orig_pos;
-    char directive;
+    scm_ichar_t directive;
     scm_bool eolp;
 #if SCM_USE_SRFI48
     ScmObj obj, indirect_fmt, indirect_args, proc_pretty_print;
@@ -546,7 +546,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
 #endif /* SCM_USE_SRFI48 */
 
     if (prefixedp)
-        ERR("invalid prefix for directive ~~~C", (scm_ichar_t)directive);
+        ERR("invalid prefix for directive ~~~C", directive);
 
     if (fcap & SCM_FMT_SRFI28) {
         switch (directive) {
@@ -643,7 +643,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
 
     /* Although SRFI-48 does not specified about unknown directives, the
      * reference implementation treats it as error. */
-    ERR(ERRMSG_INVALID_ESCSEQ ": ~~~C", (scm_ichar_t)directive);
+    ERR(ERRMSG_INVALID_ESCSEQ ": ~~~C", directive);
 
  fin:
     FORMAT_STR_SKIP_CHAR(*fmt);
-- 
2.43.0


From 6ba4b1a71c4299a8c07c862a3c9c3e2565ac2f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:33 +0000
Subject: [PATCH 32/71] fix: %%set-current-input-port! and its kin crashed on
 an object that is no port

---
 src/port.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/port.c b/src/port.c
index b1544dd..7f17a65 100644
--- a/src/port.c
+++ b/src/port.c
@@ -311,6 +311,7 @@ scm_p_set_current_input_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-input-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_INPUT))
         ERR_OBJ("input port required but got", newport);
@@ -325,6 +326,7 @@ scm_p_set_current_output_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-output-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_OUTPUT))
         ERR_OBJ("output port required but got", newport);
@@ -339,6 +341,7 @@ scm_p_set_current_error_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-error-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_OUTPUT))
         ERR_OBJ("output port required but got", newport);
-- 
2.43.0


From 9e0358be4c9dbce51d716f72f2ade9be5357306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:54 +0000
Subject: [PATCH 33/71] fix: define-record-type called freed procedures after
 their names were redefined

---
 src/module-srfi9.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/module-srfi9.c b/src/module-srfi9.c
index 39c6526..9704107 100644
--- a/src/module-srfi9.c
+++ b/src/module-srfi9.c
@@ -95,12 +95,19 @@ scm_initialize_srfi9(void)
     scm_require_module("srfi-23");
     scm_load_system_file("srfi-9.scm");
 
-    l_proc_car                = SYMBOL_VALUE("car");
-    l_proc_make_record_type   = SYMBOL_VALUE("make-record-type");
-    l_proc_record_constructor = SYMBOL_VALUE("record-constructor");
-    l_proc_record_predicate   = SYMBOL_VALUE("record-predicate");
-    l_proc_record_accessor    = SYMBOL_VALUE("record-accessor");
-    l_proc_record_modifier    = SYMBOL_VALUE("record-modifier");
+    /* protect them since the names may be redefined by user */
+    scm_gc_protect_with_init(&l_proc_car,
+                             SYMBOL_VALUE("car"));
+    scm_gc_protect_with_init(&l_proc_make_record_type,
+                             SYMBOL_VALUE("make-record-type"));
+    scm_gc_protect_with_init(&l_proc_record_constructor,
+                             SYMBOL_VALUE("record-constructor"));
+    scm_gc_protect_with_init(&l_proc_record_predicate,
+                             SYMBOL_VALUE("record-predicate"));
+    scm_gc_protect_with_init(&l_proc_record_accessor,
+                             SYMBOL_VALUE("record-accessor"));
+    scm_gc_protect_with_init(&l_proc_record_modifier,
+                             SYMBOL_VALUE("record-modifier"));
 }
 
 SCM_EXPORT ScmObj
-- 
2.43.0


From 8006760a85b97b116c90682cd2751fc1ff0ef3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:54 +0000
Subject: [PATCH 34/71] fix: guard re-raised a condition by the local bindings
 of raise and quote

---
 src/module-srfi34.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/module-srfi34.c b/src/module-srfi34.c
index e773f70..8272fe1 100644
--- a/src/module-srfi34.c
+++ b/src/module-srfi34.c
@@ -310,7 +310,7 @@ scm_p_srfi34_raise(ScmObj obj)
 
     handler = CAR(l_current_exception_handlers);
     rest_handlers = CDR(l_current_exception_handlers);
-    obj = LIST_2(SYM_QUOTE, obj);
+    obj = LIST_2(l_syn_raw_quote, obj);
     thunk = scm_s_lambda(SCM_NULL,
                          LIST_2(LIST_2(handler, obj),
                                 LIST_4(l_sym_error,
@@ -421,8 +421,9 @@ guard_handler_body(ScmObj q_handler_k, ScmObj env)
             caught = EVAL(caught, cond_env);
         scm_call_continuation(guard_k, delay(caught, cond_env));
     } else {
-        reraise = enclose(LIST_2(l_sym_raise, LIST_2(SYM_QUOTE, condition)),
-                          cond_env);
+        reraise = enclose(LIST_2(l_sym_raise,
+                                 LIST_2(l_syn_raw_quote, condition)),
+                          SCM_INTERACTION_ENV);
         scm_call_continuation(handler_k, reraise);
     }
     /* NOTREACHED */
-- 
2.43.0


From 0d5ea3ccdd2b3b123d85f3682a41d63e8eae5350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 35/71] fix: cond with => passed the value through the local
 binding of quote

---
 src/syntax.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index b66e756..f010b25 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -100,6 +100,7 @@ SCM_DEFINE_EXPORTED_VARS(syntax);
 SCM_GLOBAL_VARS_BEGIN(static_syntax);
 #define static
 static ScmObj l_sym_else, l_sym_yields, l_sym_define;
+static ScmObj l_syn_raw_quote;
 #if SCM_USE_INTERNAL_DEFINITIONS
 static ScmObj l_sym_begin, l_syn_lambda;
 #endif /* SCM_USE_INTERNAL_DEFINITIONS */
@@ -108,6 +109,7 @@ SCM_GLOBAL_VARS_END(static_syntax);
 #define l_sym_else   SCM_GLOBAL_VAR(static_syntax, l_sym_else)
 #define l_sym_yields SCM_GLOBAL_VAR(static_syntax, l_sym_yields)
 #define l_sym_define SCM_GLOBAL_VAR(static_syntax, l_sym_define)
+#define l_syn_raw_quote SCM_GLOBAL_VAR(static_syntax, l_syn_raw_quote)
 #define l_sym_begin  SCM_GLOBAL_VAR(static_syntax, l_sym_begin)
 #define l_syn_lambda SCM_GLOBAL_VAR(static_syntax, l_syn_lambda)
 SCM_DEFINE_STATIC_VARS(static_syntax);
@@ -115,6 +117,7 @@ SCM_DEFINE_STATIC_VARS(static_syntax);
 /*=======================================
   File Local Function Declarations
 =======================================*/
+static ScmObj raw_quote(ScmObj datum, ScmObj env);
 #if SCM_USE_INTERNAL_DEFINITIONS
 static ScmObj filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
                                  ScmQueue *def_expq);
@@ -140,6 +143,8 @@ scm_init_syntax(void)
     l_sym_else   = scm_intern("else");
     l_sym_yields = scm_intern("=>");
     l_sym_define = scm_intern("define");
+    scm_gc_protect_with_init(&l_syn_raw_quote,
+                             MAKE_FUNC(SCM_SYNTAX_FIXED_1, &raw_quote));
 #if SCM_USE_INTERNAL_DEFINITIONS
     l_sym_begin  = scm_intern("begin");
     scm_gc_protect_with_init(&l_syn_lambda,
@@ -151,6 +156,16 @@ scm_init_syntax(void)
 /*=======================================
   R5RS : 4.1 Primitive expression types
 =======================================*/
+/* for evaluated values: neither affected by the user's bindings of quote, nor
+ * by unwrap-syntax */
+static ScmObj
+raw_quote(ScmObj datum, ScmObj env)
+{
+    DECLARE_INTERNAL_FUNCTION("quote");
+
+    return datum;
+}
+
 /*===========================================================================
   R5RS : 4.1 Primitive expression types : 4.1.2 Literal expressions
 ===========================================================================*/
@@ -355,7 +370,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
                  * evaluation of <expression2> is in a tail
                  * context. <expression2> itself is not in a tail context.
                  */
-                return LIST_2(proc, LIST_2(SYM_QUOTE, test));
+                return LIST_2(proc, LIST_2(l_syn_raw_quote, test));
             }
 
             return scm_s_begin(exps, eval_state);
-- 
2.43.0


From 08b100d570bb50fc73728fd10a203d2045fd4fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 36/71] fix: endless recursion in define-record-type with
 hygienic macros

---
 src/module-srfi9.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/module-srfi9.c b/src/module-srfi9.c
index 9704107..d3e93da 100644
--- a/src/module-srfi9.c
+++ b/src/module-srfi9.c
@@ -136,8 +136,9 @@ scm_s_srfi9_define_record_type(ScmObj type_name, ScmObj ctor_spec,
                         LIST_2(type_name, field_tags));
     ctor = scm_call(l_proc_record_constructor, LIST_2(type_obj, ctor_tags));
     pred = scm_call(l_proc_record_predicate, LIST_1(type_obj));
-    scm_s_define_internal(ScmFirstClassObj,
-                          type_name, LIST_2(SYM_QUOTE, type_obj), env);
+    /* not by way of quote, since unwrap-syntax does not end on the record type
+     * that refers itself */
+    SCM_SYMBOL_SET_VCELL(SCM_UNWRAP_KEYWORD(type_name), type_obj);
     scm_s_define_internal(ScmFirstClassObj, ctor_name, ctor, env);
     scm_s_define_internal(ScmFirstClassObj, pred_name, pred, env);
 
-- 
2.43.0


From aff9ba2a0b5ac1790169445cbc68f2740edc3657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 37/71] fix: make-vector and make-string overran the buffer
 when the size overflowed

---
 src/string-procedure.c | 2 ++
 src/vector.c           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index ee29cf6..a59b8bd 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -131,6 +131,8 @@ scm_p_make_string(ScmObj length, ScmObj args)
             (scm_int_t)filler_val,
             SCM_CHARCODEC_ENCODING(scm_current_char_codec));
 
+    if ((size_t)len > ((size_t)-1 - sizeof("")) / ch_len)
+        ERR_OBJ("too large length", length);
     str = scm_malloc(ch_len * len + sizeof(""));
     for (dst = str; dst < &str[ch_len * len]; dst += ch_len)
         memcpy(dst, ch_buf, ch_len);
diff --git a/src/vector.c b/src/vector.c
index 5bb6bbe..f446be1 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -82,6 +82,8 @@ scm_p_make_vector(ScmObj scm_len, ScmObj args)
     len = SCM_INT_VALUE(scm_len);
     if (len < 0)
         ERR_OBJ("length must be a non-negative integer", scm_len);
+    if ((size_t)len > (size_t)-1 / sizeof(ScmObj))
+        ERR_OBJ("too large length", scm_len);
 
     vec = scm_malloc(sizeof(ScmObj) * len);
     if (NULLP(args)) {
-- 
2.43.0


From 3ebb10f3814e9e5ad194fdb703b89e446eac54ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:45 +0000
Subject: [PATCH 38/71] fix: assertion failure when a non-macro is bound by
 let-syntax and its kin

---
 src/syntax.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index f010b25..8c7a7d3 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -71,9 +71,10 @@
     do {                                                                     \
         if (permitted_type == ScmFirstClassObj)                              \
             CHECK_VALID_EVALED_VALUE(bindee);                                \
-        else if (permitted_type == ScmMacro)                                 \
-            SCM_ASSERT(HMACROP(bindee));                                     \
-        else                                                                 \
+        else if (permitted_type == ScmMacro) {                               \
+            if (!HMACROP(bindee))                                            \
+                ERR_OBJ("macro required but got", bindee);                   \
+        } else                                                               \
             SCM_NOTREACHED;                                                  \
     } while (/* CONSTCOND */ 0)
 #else
-- 
2.43.0


From 610119cde9a2ea4b33e752c6faff8d5d185772a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:24 +0000
Subject: [PATCH 39/71] fix: assertion failure on improper argument list of
 require-extension

---
 src/module-srfi55.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module-srfi55.c b/src/module-srfi55.c
index 3b6da0a..585f7a3 100644
--- a/src/module-srfi55.c
+++ b/src/module-srfi55.c
@@ -91,6 +91,8 @@ scm_s_srfi55_require_extension(ScmObj clauses, ScmObj env)
       <extension-identifier> ::= <symbol>
       <extension-argument> ::= <any Scheme value>
     =======================================================================*/
+    ENSURE_PROPER_ARG_LIST(clauses);
+
     proc = scm_symbol_value(l_sym_require_extension, SCM_INTERACTION_ENV);
 
     return scm_call(proc, clauses);
-- 
2.43.0


From 58fdbceec4f93551a0c8c6028f3648ae04922f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:11 +0000
Subject: [PATCH 40/71] fix: expand-macro of an object that is no macro crashed

---
 src/macro.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 9a0f88c..4931ef6 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -271,7 +271,10 @@ scm_s_expand_macro(ScmObj macro, ScmObj args, ScmEvalState *eval_state)
     ScmObj ret;
     DECLARE_FUNCTION("expand-macro", syntax_variadic_tailrec_1);
 
-    ret = scm_expand_macro(EVAL(macro, eval_state->env), args, eval_state);
+    macro = EVAL(macro, eval_state->env);
+    if (!HMACROP(macro))
+        ERR_OBJ("macro required but got", macro);
+    ret = scm_expand_macro(macro, args, eval_state);
     eval_state->ret_type = SCM_VALTYPE_AS_IS;
     return ret;
 }
-- 
2.43.0


From 3a47f277bf4cf99bc2c7ef2a48b4e3726617e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 41/71] fix: assertion failure on syntax-rules with no argument
 list

---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 4931ef6..a501271 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -287,7 +287,7 @@ scm_s_syntax_rules(ScmObj args, ScmObj env)
     compilation_context ctx;
     DECLARE_FUNCTION("syntax-rules", syntax_variadic_0);
 
-    if (NULLP(args) || NULLP(CDR(args)))
+    if (!CONSP(args) || !CONSP(CDR(args)))
         ERR_OBJ("missing rules", args);
 
     ctx.literals = CAR(args);
-- 
2.43.0


From 48c0d5052d4c146a9db149280c9dace2ab71aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 42/71] fix: assertion failure on an improper clause of cond

---
 src/syntax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index 8c7a7d3..a320a8a 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -357,7 +357,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
              * of the <test> and the value returned by this procedure is
              * returned by the cond expression.
              */
-            if (EQ(l_sym_yields, CAR(exps)) && LIST_2_P(exps)) {
+            if (LIST_2_P(exps) && EQ(l_sym_yields, CAR(exps))) {
                 proc = EVAL(CADR(exps), env);
                 if (!PROCEDUREP(proc))
                     ERR_OBJ("exp after => must be a procedure but got", proc);
-- 
2.43.0


From 82649f909f3929b132006245a904ec5e05e00d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 43/71] fix: assertion failure on improper arguments of
 let-optionals*

---
 src/module-sscm-ext.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module-sscm-ext.c b/src/module-sscm-ext.c
index 0c5984e..52f5258 100644
--- a/src/module-sscm-ext.c
+++ b/src/module-sscm-ext.c
@@ -425,6 +425,7 @@ scm_s_let_optionalsstar(ScmObj args, ScmObj bindings, ScmObj body,
             val = EVAL(exp, env);
             CHECK_VALID_EVALED_VALUE(val);
         } else {
+            ENSURE_LIST(args);
             val = POP(args);
         }
 
-- 
2.43.0


From 8f5931a9db287e0ea5be5f5ca506f5dab9f4dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 44/71] fix: assertion failure in define-record-type when the
 constructor name is no symbol

---
 src/module-srfi9.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module-srfi9.c b/src/module-srfi9.c
index d3e93da..4b2e4cc 100644
--- a/src/module-srfi9.c
+++ b/src/module-srfi9.c
@@ -130,6 +130,7 @@ scm_s_srfi9_define_record_type(ScmObj type_name, ScmObj ctor_spec,
 
     ctor_name = CAR(ctor_spec);
     ctor_tags = CDR(ctor_spec);
+    ENSURE_SYMBOL(ctor_name);
     field_tags = scm_map_single_arg(l_proc_car, field_specs);
 
     type_obj = scm_call(l_proc_make_record_type,
-- 
2.43.0


From 9f00e5f68ead61b5c0cd51285d2dfaf518c4a357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:22 +0000
Subject: [PATCH 45/71] fix: apply passed an improper list of arguments to the
 procedure

---
 src/eval.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 215ef93..bb1132a 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -795,7 +795,9 @@ scm_p_apply(ScmObj proc, ScmObj arg0, ScmObj rest, ScmEvalState *eval_state)
         last = arg;
     }
 
-    ENSURE_LIST(last);
+    /* the procedures rely on having proper args */
+    if (!PROPER_LISTP(last))
+        ERR_OBJ(SCM_ERRMSG_IMPROPER_ARGS, last);
 
     /* Since any tail recursive procedures called here return a tail expression
      * with SCM_VALTYPE_NEED_EVAL, evaluate such proc with call() does not
-- 
2.43.0


From 692f78683311d6d88fef59c7625bc3ff5231fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:44 +0000
Subject: [PATCH 46/71] fix: crash on a script whose prelude has no interpreter
 name

---
 src/sigscheme.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigscheme.c b/src/sigscheme.c
index ec032ac..efff2ab 100644
--- a/src/sigscheme.c
+++ b/src/sigscheme.c
@@ -486,7 +486,7 @@ scm_interpret_argv(char **argv)
 
     encoding = sys_load_path = NULL;
     argp = &argv[0];
-    if (strcmp(argv[0], "/usr/bin/env") == 0)
+    if (*argp && strcmp(*argp, "/usr/bin/env") == 0)
         argp++;
     if (*argp)
         argp++;  /* skip executable name */
-- 
2.43.0


From da11eaa8051357ec221b468bbae0692e33414c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 47/71] fix: endless recursion on writing multiple values whose
 first one is circular

---
 src/write.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write.c b/src/write.c
index cd82f97..7fc5b4d 100644
--- a/src/write.c
+++ b/src/write.c
@@ -754,7 +754,8 @@ write_ss_scan(ScmObj obj, scm_write_ss_context *ctx)
 #if SCM_USE_STORAGE_FATTY
             if (!SCM_NULLVALUESP(obj)) {
                 /* EQ(obj, SCM_VALUEPACKET_VALUES(obj)) */
-                write_ss_scan(CDR(SCM_VALUEPACKET_VALUES(obj)), ctx);
+                write_ss_scan(CAR(SCM_VALUEPACKET_VALUES(obj)), ctx);
+                write_ss_scan(CDR(obj), ctx);
                 /* SCM_VALUEPACKET_VALUES() changes the type destructively */
                 SCM_ENTYPE(obj, ScmValuePacket);
             }
-- 
2.43.0


From ca8ca7869e6338b89a27164eaec0cc48393cb930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 48/71] fix: apply shared its list with the arguments, and
 fatty turned it into a value packet

---
 src/eval.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index bb1132a..139a9e8 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -782,16 +782,15 @@ scm_p_apply(ScmObj proc, ScmObj arg0, ScmObj rest, ScmEvalState *eval_state)
     ScmObj args, arg, last;
     DECLARE_FUNCTION("apply", procedure_variadic_tailrec_2);
 
+    args = SCM_NULL;
+    SCM_QUEUE_POINT_TO(q, args);
     if (NULLP(rest)) {
-        args = last = arg0;
+        last = arg0;
     } else {
         /* More than one argument given. */
-        args = LIST_1(arg0);
-        q = REF_CDR(args);
+        SCM_QUEUE_ADD(q, arg0);
         FOR_EACH_BUTLAST (arg, rest)
             SCM_QUEUE_ADD(q, arg);
-        /* The last one is spliced. */
-        SCM_QUEUE_SLOPPY_APPEND(q, arg);
         last = arg;
     }
 
@@ -799,6 +798,11 @@ scm_p_apply(ScmObj proc, ScmObj arg0, ScmObj rest, ScmEvalState *eval_state)
     if (!PROPER_LISTP(last))
         ERR_OBJ(SCM_ERRMSG_IMPROPER_ARGS, last);
 
+    /* The last one is spliced. It must not be shared with the args since they
+     * can be modified via rest formals, or become a value packet. */
+    FOR_EACH (arg, last)
+        SCM_QUEUE_ADD(q, arg);
+
     /* Since any tail recursive procedures called here return a tail expression
      * with SCM_VALTYPE_NEED_EVAL, evaluate such proc with call() does not
      * break proper tail recursion of 'apply'.  -- YamaKen 2006-09-25 */
-- 
2.43.0


From 28836032a3b562f1ef6be6038c9eff15076594a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 49/71] fix: syntax-rules dropped the tail of a template after
 an ellipsis

---
 src/macro.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index a501271..33f9cd5 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -461,6 +461,11 @@ compile_rec(compilation_context *ctx, ScmObj form, scm_int_t level)
                     ERR_OBJ("constant repeatable subtemplate", form);
                 if (CONSP(rest))
                     goto restart;
+                if (!NULLP(rest)) {
+                    if (ELLIPSISP(rest))
+                        ERR_OBJ("misplaced ellipsis", form);
+                    SCM_QUEUE_SLOPPY_APPEND(q, compile_rec(ctx, rest, level));
+                }
                 return out;
             } else {
                 SCM_QUEUE_ADD(q, compile_rec(ctx, obj, level));
-- 
2.43.0


From a9687d4d66f6d0a67d0d5c2c6d505182a9bdb0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 50/71] fix: set! in the template of a hygienic macro was an
 error

---
 src/syntax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index a320a8a..2db46ea 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -265,7 +265,7 @@ scm_s_setx(ScmObj sym, ScmObj exp, ScmObj env)
     ScmRef locally_bound;
     DECLARE_FUNCTION("set!", syntax_fixed_2);
 
-    ENSURE_SYMBOL(sym);
+    ENSURE_IDENTIFIER(sym);
 
     evaled = EVAL(exp, env);
     CHECK_VALID_EVALED_VALUE(evaled);
@@ -273,6 +273,7 @@ scm_s_setx(ScmObj sym, ScmObj exp, ScmObj env)
     if (locally_bound != SCM_INVALID_REF) {
         SET(locally_bound, evaled);
     } else {
+        sym = SCM_UNWRAP_KEYWORD(sym);
         if (!SCM_SYMBOL_BOUNDP(sym))
             ERR_OBJ("unbound variable", sym);
 
-- 
2.43.0


From a3468b3b9e6869e373850f678b80cdf76f40eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 51/71] fix: do in the template of a hygienic macro was an
 error

---
 src/syntax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index 2db46ea..c7896c3 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -885,7 +885,7 @@ scm_s_do(ScmObj bindings, ScmObj test_exps, ScmObj commands,
         if (!CONSP(binding))
             goto err;
         var  = POP(binding);
-        ENSURE_SYMBOL(var);
+        ENSURE_IDENTIFIER(var);
 #if SCM_STRICT_ARGCHECK
         /* Optional check. Keeping variable name unique is user's
          * responsibility. R5RS: "It is an error for a <variable> to appear
-- 
2.43.0


From b98edcf931a73468d6766836b0772e513d3c1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 52/71] fix: else and => of cond were not recognized in the
 template of a hygienic macro

---
 src/syntax.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index c7896c3..ed8c4df 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -330,10 +330,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
         test = CAR(clause);
         exps = CDR(clause);
 
-#if 0
-        test = SCM_UNWRAP_SYNTAX(test);  /* FIXME: needed? */
-#endif
-        if (EQ(test, l_sym_else)) {
+        if (EQ(SCM_UNWRAP_KEYWORD(test), l_sym_else)) {
             ASSERT_NO_MORE_ARG(clauses);
             return scm_s_begin(exps, eval_state);
         }
@@ -358,7 +355,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
              * of the <test> and the value returned by this procedure is
              * returned by the cond expression.
              */
-            if (LIST_2_P(exps) && EQ(l_sym_yields, CAR(exps))) {
+            if (LIST_2_P(exps) && EQ(l_sym_yields, SCM_UNWRAP_KEYWORD(CAR(exps)))) {
                 proc = EVAL(CADR(exps), env);
                 if (!PROCEDUREP(proc))
                     ERR_OBJ("exp after => must be a procedure but got", proc);
-- 
2.43.0


From ad01cd91f2dded165021369e72a864ddcea771bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 53/71] fix: definition of a procedure in the template of a
 hygienic macro was an error

---
 src/syntax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index ed8c4df..9a295c7 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -759,7 +759,7 @@ filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
                 lambda_formals = CDR(var);
                 lambda_body    = exp;
 
-                ENSURE_SYMBOL(sym);
+                ENSURE_IDENTIFIER(sym);
                 var = sym;
                 exp = CONS(l_syn_lambda, CONS(lambda_formals, lambda_body));
             } else {
@@ -1025,7 +1025,7 @@ scm_s_define(ScmObj var, ScmObj rest, ScmEvalState *eval_state)
         formals  = CDR(var);
         body     = rest;
 
-        ENSURE_SYMBOL(procname);
+        ENSURE_IDENTIFIER(procname);
         proc = scm_s_lambda(formals, body, env);
         scm_s_define_internal(ScmFirstClassObj, procname, proc, env);
     } else {
-- 
2.43.0


From edb3333ad67d604f911020c01d39859b50f52eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 54/71] fix: quoting a macro argument spoiled its other uses in
 the expansion

---
 src/macro.c | 108 +++++++++++++++++++++-------------------------------
 1 file changed, 43 insertions(+), 65 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 33f9cd5..807a48d 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -1057,12 +1057,9 @@ transcribe_reppat(transcription_context *ctx, ScmObj template, ScmObj sub,
  * ==============================*/
 
 static ScmObj unwrap_farsymbol(ScmObj obj);
-static void unwrap_dispatch(ScmObj obj);
-static void unwrap_listx(ScmObj ls);
-static void unwrap_vectorx(ScmObj obj);
-
-/* Like FOR_EACH(), but leaves the argument at the last cons cell. */
-#define UPTO_LAST_PAIR(ls) while (CONSP(CDR(ls)) && ((ls) = CDR(ls), 1))
+static scm_bool contains_farsymbol(ScmObj obj);
+static ScmObj unwrap_list(ScmObj ls);
+static ScmObj unwrap_vector(ScmObj obj);
 
 static ScmObj
 unwrap_farsymbol(ScmObj obj)
@@ -1074,51 +1071,64 @@ unwrap_farsymbol(ScmObj obj)
     return obj;
 }
 
-static void
-unwrap_dispatch(ScmObj obj)
+static scm_bool
+contains_farsymbol(ScmObj obj)
 {
-    if (CONSP(obj))
-        unwrap_listx(obj);
-    else if (VECTORP(obj))
-        unwrap_vectorx(obj);
+    for (; CONSP(obj); obj = CDR(obj)) {
+        if (contains_farsymbol(CAR(obj)))
+            return scm_true;
+    }
+    if (VECTORP(obj)) {
+        scm_int_t i;
+
+        i = SCM_VECTOR_LEN(obj);
+        while (i--) {
+            if (contains_farsymbol(SCM_VECTOR_VEC(obj)[i]))
+                return scm_true;
+        }
+    }
+    return FARSYMBOLP(obj);
 }
 
-static void
-unwrap_listx(ScmObj ls)
+static ScmObj
+unwrap_list(ScmObj ls)
 {
-    do {
-        if (FARSYMBOLP(CAR(ls)))
-            SET_CAR(ls, unwrap_farsymbol(CAR(ls)));
-        else
-            unwrap_dispatch(CAR(ls));
-    } UPTO_LAST_PAIR (ls);
-    SET_CDR(ls, scm_unwrap_syntaxx(CDR(ls)));
+    ScmObj ret;
+    ScmQueue q;
+
+    ret = SCM_NULL;
+    SCM_QUEUE_POINT_TO(q, ret);
+    for (; CONSP(ls); ls = CDR(ls))
+        SCM_QUEUE_ADD(q, scm_unwrap_syntaxx(CAR(ls)));
+    SCM_QUEUE_SLOPPY_APPEND(q, scm_unwrap_syntaxx(ls));
+    return ret;
 }
 
-static void
-unwrap_vectorx(ScmObj obj)
+static ScmObj
+unwrap_vector(ScmObj obj)
 {
-    ScmObj *vec;
+    ScmObj ls;
     scm_int_t i;
 
+    ls = SCM_NULL;
     i = SCM_VECTOR_LEN(obj);
-    vec = SCM_VECTOR_VEC(obj);
-    while (i--) {
-        if (FARSYMBOLP(vec[i]))
-            vec[i] = unwrap_farsymbol(vec[i]);
-        else
-            unwrap_dispatch(vec[i]);
-    }
+    while (i--)
+        ls = CONS(scm_unwrap_syntaxx(SCM_VECTOR_VEC(obj)[i]), ls);
+    SCM_KEEP_ALIVE(obj);  /* protects the elements */
+    return scm_p_list2vector(ls);
 }
 
+/* Does not modify the argument: the same form may be evaluated as an
+ * expression elsewhere, e.g. when a macro inserts it more than once. */
 SCM_EXPORT ScmObj
 scm_unwrap_syntaxx(ScmObj arg)
 {
     DBG_PRINT((DBG_UNWRAP, "unwrap-syntax!: ~s\n", arg));
     if (FARSYMBOLP(arg))
         return unwrap_farsymbol(arg);
-    unwrap_dispatch(arg);
-    return arg;
+    if (!contains_farsymbol(arg))
+        return arg;
+    return CONSP(arg) ? unwrap_list(arg) : unwrap_vector(arg);
 }
 
 SCM_EXPORT ScmObj
@@ -1128,38 +1138,6 @@ scm_unwrap_keyword(ScmObj obj)
     return FARSYMBOLP(obj) ? unwrap_farsymbol(obj) : obj;
 }
 
-#if 0
-/* Alternative implementation. */
-SCM_EXPORT ScmObj
-scm_unwrap_syntaxx(ScmObj arg)
-{
-    if (CONSP(arg)) {
-        ScmObj ls = arg;
-        do {
-            SET_CAR(ls, scm_unwrap_syntaxx(CAR(ls)));
-            tail = ls;
-        } UPTO_LAST_PAIR(ls);
-        SET_CDR(ls, scm_unwrap_syntaxx(CDR(ls)));
-        return arg;
-    }
-
-    if (FARSYMBOLP(arg))
-        return unwrap_farsymbol(arg);
-
-    if (VECTORP(arg)) {
-        scm_int_t i;
-        ScmObj *vec;
-        i = SCM_VECTOR_LEN(arg);
-        vec = SCM_VECTOR_VEC(arg);
-        while (i--)
-            vec[i] = scm_unwrap_syntaxx(vec[i]);
-        return arg;
-    }
-    return arg;
-}
-#endif /* 0 */
-#undef UPTO_LAST_PAIR
-
 /* ==============================
  * Auxiliary Utilities
  * ==============================*/
-- 
2.43.0


From 6891e4cd5e581e44b51c5540bbf5ef2563af5ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 55/71] fix: local variables named begin or define were taken
 for the keywords at the start of a body

---
 src/syntax.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index 9a295c7..f4baefc 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -121,7 +121,7 @@ SCM_DEFINE_STATIC_VARS(static_syntax);
 static ScmObj raw_quote(ScmObj datum, ScmObj env);
 #if SCM_USE_INTERNAL_DEFINITIONS
 static ScmObj filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
-                                 ScmQueue *def_expq);
+                                 ScmQueue *def_expq, ScmObj env);
 #endif
 
 /*=======================================
@@ -724,9 +724,14 @@ scm_s_letrec_internal(enum ScmObjType permitted, ScmObj bindings, ScmObj body,
  */
 
 #if SCM_USE_INTERNAL_DEFINITIONS
+/* 'begin' and 'define' may be bound as local variables */
+#define KEYWORDP(id, keyword, env)                                           \
+    (EQ((id), (keyword))                                                     \
+     && scm_lookup_environment((id), (env)) == SCM_INVALID_REF)
+
 static ScmObj
 filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
-                   ScmQueue *def_expq)
+                   ScmQueue *def_expq, ScmObj env)
 {
     ScmObj exp, var, sym, begin_rest, lambda_formals, lambda_body;
     DECLARE_INTERNAL_FUNCTION("(body)");
@@ -736,8 +741,9 @@ filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
         if (!CONSP(exp))
             break;
         sym = POP(exp);
-        if (EQ(sym, l_sym_begin)) {
-            begin_rest = filter_definitions(exp, formals, actuals, def_expq);
+        if (KEYWORDP(sym, l_sym_begin, env)) {
+            begin_rest = filter_definitions(exp, formals, actuals, def_expq,
+                                            env);
             if (!NULLP(begin_rest)) {
                 /* no definitions found */
                 if (begin_rest == exp)
@@ -746,7 +752,7 @@ filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
                 ERR_OBJ("definitions and expressions intermixed", CAR(body));
             }
             /* '(begin)' is a valid R5RS definition form */
-        } else if (EQ(sym, l_sym_define)) {
+        } else if (KEYWORDP(sym, l_sym_define, env)) {
             var = MUST_POP_ARG(exp);
             if (IDENTIFIERP(var)) {
                 /* (define <variable> <expression>) */
@@ -792,7 +798,8 @@ scm_s_body(ScmObj body, ScmEvalState *eval_state)
         /* collect internal definitions */
         def_exps = formals = actuals = SCM_NULL;
         SCM_QUEUE_POINT_TO(def_expq, def_exps);
-        body = filter_definitions(body, &formals, &actuals, &def_expq);
+        body = filter_definitions(body, &formals, &actuals, &def_expq,
+                                  eval_state->env);
 
         if (!NULLP(def_exps)) {
             /* extend env with the unbound variables */
-- 
2.43.0


From 98f13f199e0384180dab2961362abfdc9b9814d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 56/71] fix: internal definitions in the template of a hygienic
 macro were errors

---
 src/syntax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index f4baefc..012c353 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -726,7 +726,7 @@ scm_s_letrec_internal(enum ScmObjType permitted, ScmObj bindings, ScmObj body,
 #if SCM_USE_INTERNAL_DEFINITIONS
 /* 'begin' and 'define' may be bound as local variables */
 #define KEYWORDP(id, keyword, env)                                           \
-    (EQ((id), (keyword))                                                     \
+    (EQ(SCM_UNWRAP_KEYWORD(id), (keyword))                                   \
      && scm_lookup_environment((id), (env)) == SCM_INVALID_REF)
 
 static ScmObj
-- 
2.43.0


From dc7710a2af4b1f481b850f10411997a6e23d3605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 57/71] fix: matching a literal of syntax-rules failed for an
 identifier from a local macro

---
 src/env.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/env.c b/src/env.c
index 62f9780..2aff2ab 100644
--- a/src/env.c
+++ b/src/env.c
@@ -169,23 +169,17 @@ SCM_EXPORT scm_bool
 scm_identifierequalp(ScmObj x, ScmPackedEnv xpenv,
                      ScmObj y, ScmPackedEnv penv, ScmObj env)
 {
-    ScmRef yloc;
+    ScmRef xloc, yloc;
 
     SCM_ASSERT(xpenv <= penv);
     SCM_ASSERT(SCM_PENV_EQ(scm_pack_env(env), penv));
 
-    while (penv-- > xpenv) {
-        if (scm_lookup_frame(y, CAR(env)) != SCM_INVALID_REF)
-            return scm_false;
-        env = CDR(env);
-    }
-    if (EQ(x, y))
-        return scm_true;
+    /* Y may have been captured deeper than XPENV, so it must be looked up in
+     * the whole ENV. */
     yloc = scm_lookup_environment(y, env);
-    if (yloc != SCM_INVALID_REF)
-        return (scm_lookup_environment(x, env) == yloc);
-    if (scm_lookup_environment(x, env) != SCM_INVALID_REF)
-        return scm_false;
+    xloc = scm_lookup_environment(x, scm_unpack_env(xpenv, env));
+    if (xloc != SCM_INVALID_REF || yloc != SCM_INVALID_REF)
+        return (xloc == yloc);
     return EQ(SCM_UNWRAP_KEYWORD(x), SCM_UNWRAP_KEYWORD(y));
 }
 
-- 
2.43.0


From 70aebf3359050f5b9ed3e3de8b8a7cfdb8de01e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 58/71] fix: require provided its feature under a string with a
 wrong length

---
 src/module-sscm-ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module-sscm-ext.c b/src/module-sscm-ext.c
index 52f5258..6651fab 100644
--- a/src/module-sscm-ext.c
+++ b/src/module-sscm-ext.c
@@ -265,7 +265,7 @@ make_loaded_str(const char *filename)
     loaded_str = scm_malloc(size);
     sprintf(loaded_str, "*%s-loaded*", filename);
 
-    return MAKE_IMMUTABLE_STRING(loaded_str, size - 1);
+    return MAKE_IMMUTABLE_STRING(loaded_str, STRLEN_UNKNOWN);
 }
 
 /*
-- 
2.43.0


From 027d6547b22e0b214f8c571883d843793811a9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 59/71] fix: a file that starts with a datum such as #t or #(1
 2) could not be loaded

---
 src/load.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 7cd6c65..2fccd7b 100644
--- a/src/load.c
+++ b/src/load.c
@@ -88,6 +88,7 @@ static void *scm_load_internal(const char *filename);
 static char *find_path(const char *filename);
 static scm_bool file_existsp(const char *filepath);
 #if SCM_USE_SRFI22
+static scm_bool script_preludep(const char *filepath);
 static void interpret_script_prelude(ScmObj port);
 static char **parse_script_prelude(ScmObj port);
 #endif
@@ -220,7 +221,7 @@ scm_load_internal(const char *filename)
     saved_codec = scm_current_char_codec;
 #endif
 #if SCM_USE_SRFI22
-    if (scm_port_peek_char(port) == '#')
+    if (script_preludep(SCM_STRING_STR(path)))
         interpret_script_prelude(port);
 #endif
 
@@ -316,6 +317,22 @@ scm_p_load(ScmObj filename)
 }
 
 #if SCM_USE_SRFI22
+/* '#' alone may begin an ordinary datum such as #t, #(1 2) or #\a */
+static scm_bool
+script_preludep(const char *filepath)
+{
+    FILE *f;
+    scm_bool preludep;
+
+    f = fopen(filepath, "r");
+    if (!f)
+        return scm_false;
+    preludep = (getc(f) == '#' && getc(f) == '!');
+    fclose(f);
+
+    return preludep;
+}
+
 static void
 interpret_script_prelude(ScmObj port)
 {
-- 
2.43.0


From 9779623590b77af593344664d50ee623f3103e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 60/71] fix: sscm crashed on a relative --system-load-path

---
 src/sigscheme.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigscheme.c b/src/sigscheme.c
index efff2ab..b8881b8 100644
--- a/src/sigscheme.c
+++ b/src/sigscheme.c
@@ -506,6 +506,10 @@ scm_interpret_argv(char **argv)
             sys_load_path = *++argp;
             if (!sys_load_path)
                 argv_err(argv, "no system load path specified");
+            /* scm_set_system_load_path() can't report it before the
+             * initialization */
+            if (sys_load_path[0] != '/')
+                argv_err(argv, "system load path must be absolute");
         } else {
             argv_err(argv, "invalid option");
         }
-- 
2.43.0


From 8ab8c5b32e305466cf5a954aa5542bbf766f89c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 61/71] fix: (load-path) crashed when no library path has been
 set

---
 src/load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 2fccd7b..cd468bd 100644
--- a/src/load.c
+++ b/src/load.c
@@ -150,7 +150,7 @@ scm_p_load_path(void)
 {
     DECLARE_FUNCTION("load-path", procedure_fixed_0);
 
-    return CONST_STRING(l_scm_lib_path);
+    return CONST_STRING((l_scm_lib_path) ? l_scm_lib_path : "");
 }
 
 SCM_EXPORT void
-- 
2.43.0


From 6b13613510bf7585843b2f7cfb2ff838514441b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 62/71] fix: the value of a reduction operator was evaluated
 again

---
 src/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eval.c b/src/eval.c
index 139a9e8..cb7a16a 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -336,6 +336,7 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
     if (type == SCM_REDUCTION_OPERATOR) {
         scm_reduction_operator func =
             (scm_reduction_operator)SCM_FUNC_CFUNC(proc);
+        eval_state->ret_type = SCM_VALTYPE_AS_IS;
         return reduce(func, args, env, need_eval);
     }
 
-- 
2.43.0


From 190e4fb6affdafb0c1e8b5cdcca0ed170a562f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 63/71] fix: string->list read a string freed by GC in the
 middle

---
 src/string-procedure.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index a59b8bd..74a790f 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -493,6 +493,7 @@ scm_p_string2list(ScmObj str)
         ret = CONS(MAKE_CHAR(ch), ret);
     }
 #endif /* SCM_USE_MULTIBYTE_CHAR */
+    SCM_KEEP_ALIVE(str);  /* protects c_str */
 
     return ret;
 }
-- 
2.43.0


From a4531faa0eb2a90c023bc68e2c230e721177a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 64/71] fix: format read a format string freed by GC in the
 middle

---
 src/format.c        | 1 +
 src/module-srfi28.c | 5 ++++-
 src/module-srfi48.c | 6 ++++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/format.c b/src/format.c
index d8e48db..f828b51 100644
--- a/src/format.c
+++ b/src/format.c
@@ -602,6 +602,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
             scm_lformat(port,
                         fcap & ~SCM_FMT_RAW_C,
                         SCM_STRING_STR(indirect_fmt), indirect_args);
+            SCM_KEEP_ALIVE(indirect_fmt);
             goto fin;
 
 #if SCM_USE_CHAR
diff --git a/src/module-srfi28.c b/src/module-srfi28.c
index 7d9f537..20a484f 100644
--- a/src/module-srfi28.c
+++ b/src/module-srfi28.c
@@ -69,9 +69,12 @@ scm_initialize_srfi28(void)
 SCM_EXPORT ScmObj
 scm_p_srfi28_format(ScmObj fmt, ScmObj objs)
 {
+    ScmObj ret;
     DECLARE_FUNCTION("format", procedure_variadic_1);
 
     ENSURE_STRING(fmt);
 
-    return scm_lformat(SCM_FALSE, SCM_FMT_SRFI28, SCM_STRING_STR(fmt), objs);
+    ret = scm_lformat(SCM_FALSE, SCM_FMT_SRFI28, SCM_STRING_STR(fmt), objs);
+    SCM_KEEP_ALIVE(fmt);
+    return ret;
 }
diff --git a/src/module-srfi48.c b/src/module-srfi48.c
index 8a89572..ff77ec6 100644
--- a/src/module-srfi48.c
+++ b/src/module-srfi48.c
@@ -81,7 +81,7 @@ static ScmObj
 srfi48_format_internal(enum ScmFormatCapability fcap,
                        ScmObj fmt_or_port, ScmObj rest)
 {
-    ScmObj port, fmt, objs;
+    ScmObj port, fmt, objs, ret;
     DECLARE_INTERNAL_FUNCTION("format");
 
     if (STRINGP(fmt_or_port)) {
@@ -94,7 +94,9 @@ srfi48_format_internal(enum ScmFormatCapability fcap,
     }
     objs = rest;
 
-    return scm_lformat(port, fcap, SCM_STRING_STR(fmt), objs);
+    ret = scm_lformat(port, fcap, SCM_STRING_STR(fmt), objs);
+    SCM_KEEP_ALIVE(fmt);
+    return ret;
 }
 
 /* format [port] format-string [obj ...] */
-- 
2.43.0


From e846f923b65128ab2eba4ff1cf87e53be1cdfb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 65/71] fix: keep an own copy of the name of a provided feature

---
 src/module.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module.c b/src/module.c
index 040e22f..a5e1de6 100644
--- a/src/module.c
+++ b/src/module.c
@@ -173,6 +173,9 @@ scm_provide(ScmObj feature)
 {
     SCM_ASSERT(STRINGP(feature));
 
+    /* The caller may modify its own string afterwards. */
+    feature = MAKE_IMMUTABLE_STRING_COPYING(SCM_STRING_STR(feature),
+                                            SCM_STRING_LEN(feature));
     l_features = CONS(feature, l_features);
     l_provided_modules = CONS(feature, l_provided_modules);
 }
-- 
2.43.0


From 53b016ecc2150f300a7911103eac1a5a478b7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 66/71] fix: srfi-95 failed to load when identity or array? was
 already defined

---
 lib/srfi-95.scm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/srfi-95.scm b/lib/srfi-95.scm
index bfef58c..7cc04d6 100644
--- a/lib/srfi-95.scm
+++ b/lib/srfi-95.scm
@@ -29,11 +29,11 @@
 ;; For SigScheme
 (define array?
   (if (symbol-bound? 'array?)
-      (symbol-value 'array)
+      array?
       (lambda (x) #f)))
 (define identity
   (if (symbol-bound? 'identity)
-      (symbol-value 'identity)
+      identity
       (lambda (x) x)))
 
 ;;; (sorted? sequence less?)
-- 
2.43.0


From 0220994a6df6ab2e3f876c70d72a021ad1a1690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 67/71] fix: sorted? ignored arrays of two elements and
 rejected equal elements of arrays

---
 lib/srfi-95.scm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/srfi-95.scm b/lib/srfi-95.scm
index 7cc04d6..1ba040e 100644
--- a/lib/srfi-95.scm
+++ b/lib/srfi-95.scm
@@ -46,12 +46,12 @@
   (cond ((null? seq) #t)
 	((array? seq)
 	 (let ((dimax (+ -1 (car (array-dimensions seq)))))
-	   (or (<= dimax 1)
+	   (or (<= dimax 0)
 	       (let loop ((idx (+ -1 dimax))
 			  (last (key (array-ref seq dimax))))
 		 (or (negative? idx)
 		     (let ((nxt (key (array-ref seq idx))))
-		       (and (less? nxt last)
+		       (and (not (less? last nxt))
 			    (loop (+ -1 idx) nxt))))))))
 	((null? (cdr seq)) #t)
 	(else
-- 
2.43.0


From 51ab46c62dfe9cf2f166ebf4f162a8331872ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 68/71] fix: procedures of type SCM_PROCEDURE_VARIADIC_5 could
 not be called

---
 src/eval.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index cb7a16a..5e2b8d7 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -687,6 +687,17 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
                                argbuf[3],
                                argbuf[4]);
             }
+        case 6:
+            {
+                scm_procedure_variadic_5 func =
+                    (scm_procedure_variadic_5)SCM_FUNC_CFUNC(proc);
+                return (*func)(argbuf[0],
+                               argbuf[1],
+                               argbuf[2],
+                               argbuf[3],
+                               argbuf[4],
+                               argbuf[5]);
+            }
 #endif
         default:
             SCM_NOTREACHED;
-- 
2.43.0


From c7102116e973e229876b4c7436dc8d9465e208b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 69/71] fix: format took an argument for ~W and ~T in C-level
 format strings

A size modifier that is not followed by an integer format specifier is not a
raw C directive, but its argument was taken from the va_list.
---
 src/format.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/format.c b/src/format.c
index f828b51..fea9340 100644
--- a/src/format.c
+++ b/src/format.c
@@ -313,11 +313,11 @@ format_int(ScmObj port, ScmValueFormat vfmt, uintmax_t n, int radix)
 static scm_ichar_t
 format_raw_c_directive(ScmObj port, format_string_t *fmt, va_list *args)
 {
-    format_string_t orig_fmt;
+    format_string_t orig_fmt, next_fmt;
     const void *orig_pos;
     const char *str;
     scm_int_t cstr_len, str_len, i;
-    scm_ichar_t c;
+    scm_ichar_t c, next_c;
     intmax_t n;
     uintmax_t un;
     int radix;
@@ -365,6 +365,19 @@ format_raw_c_directive(ScmObj port, format_string_t *fmt, va_list *args)
         return (*str) ? str[cstr_len - 1] : c;
     }
 
+    /* A size modifier requires an integer format specifier. Otherwise it is not
+     * a raw C directive (such as ~W and ~T of SRFI-48), and no raw C argument
+     * must be taken. */
+    if (ICHAR_ASCIIP(c) && c && strchr("WMLQJTZ", c)) {
+        next_fmt = *fmt;
+        FORMAT_STR_SKIP_CHAR(next_fmt);
+        next_c = FORMAT_STR_PEEK(next_fmt);
+        if (!ICHAR_ASCIIP(next_c) || !next_c || !strchr("UDXOB", next_c)) {
+            *fmt = orig_fmt;
+            return '\0';
+        }
+    }
+
     /* size modifiers (ordered by size) */
     modifiedp = scm_true;
     switch (c) {
-- 
2.43.0


From 8db3045dcae68bbbda7fb164a815fcb82c5e8cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 70/71] fix: char-ready? on a client's byte port waited for a
 byte, and misjudged incomplete chars

The byte port was read before asking whether a byte is ready, and the char was
not scanned again after the last byte had been read.
---
 src/scmport-mbchar.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scmport-mbchar.c b/src/scmport-mbchar.c
index 573620d..7844c37 100644
--- a/src/scmport-mbchar.c
+++ b/src/scmport-mbchar.c
@@ -266,7 +266,7 @@ mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
 
     end = port->rbuf + port->rbuf_len;
     SCM_MBS_SET_STATE(mbs, port->rstate);
-    do {
+    for (;;) {
         SCM_MBS_SET_STR(mbs, (char *)port->rbuf);
         SCM_MBS_SET_SIZE(mbs, end - port->rbuf);
 
@@ -279,6 +279,10 @@ mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
             break;
         if (SCM_MBS_GET_SIZE(mbs) == SCM_MB_MAX_LEN)
             SCM_CHARPORT_ERROR(port, "ScmMultibyteCharPort: broken scanner");
+        if (!blockp && !SCM_BYTEPORT_BYTE_READYP(port->bport)) {
+            SCM_MBCINFO_SET_INCOMPLETE(mbc);
+            break;
+        }
 
         byte = SCM_BYTEPORT_GET_BYTE(port->bport);
         if (byte == SCM_ICHAR_EOF) {
@@ -293,7 +297,7 @@ mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
         *end++ = byte;
         *end = '\0';
         port->rbuf_len = end - port->rbuf;
-    } while (blockp || SCM_BYTEPORT_BYTE_READYP(port->bport));
+    }
 
     return mbc;
 }
-- 
2.43.0


From bf146de858d57665e3ad7c4ae7d77b70c28b56e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 71/71] fix: the name of a named let is bound outside of its
 variables

---
 src/syntax.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index 012c353..38e78b2 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -578,15 +578,17 @@ scm_s_let_internal(enum ScmObjType permitted, ScmObj bindings, ScmObj body,
     if (!NULLP(bindings))
         ERR_OBJ(ERRMSG_INVALID_BINDINGS, bindings);
 
-    env = scm_extend_environment(formals, actuals, env);
-
-    /* named let */
+    /* named let: as if letrec, the procedure is bound outside of the variables.
+     * So it is hidden by a variable of the same name, and does not hold the
+     * values of the first iteration. */
     if (IDENTIFIERP(named_let_sym)) {
         proc = MAKE_CLOSURE(CONS(formals, body), env);
-        env = scm_add_environment(named_let_sym, proc, env);
+        env = scm_extend_environment(LIST_1(named_let_sym), LIST_1(proc), env);
         SCM_CLOSURE_SET_ENV(proc, env);
     }
 
+    env = scm_extend_environment(formals, actuals, env);
+
     eval_state->env = env;
     return scm_s_body(body, eval_state);
 }
-- 
2.43.0

