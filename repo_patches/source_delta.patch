From 09e21bf47d0e83d32389820fd9fe7f7ac401d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 001/130] fix: order strings consistently when one is a prefix
 of the other

The comparison returned the next byte of the longer string, so "a" and
"a\\0" compared equal, a high byte flipped the sign, and an empty string
compared against a NULL one gave the same sign both ways.
---
 libdstr/common.c | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index eb0da77..ea9abf3 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -243,18 +243,6 @@ static char noichar(char c){
 }
 
 static int do_dstr_cmp2(const dstr_t a, const dstr_t b, bool sensitive){
-    // two NULL strings are considered matching
-    if(!a.data && !b.data){
-        return 0;
-    }
-    // as are two zero-length strings
-    if(a.len == 0 && b.len == 0){
-        return 0;
-    }
-    // but one NULL and one not are not matching
-    if(!a.data || !b.data){
-        return a.data ? *a.data : *b.data;
-    }
     // don't read past the end of either string
     size_t max = MIN(a.len, b.len);
 
@@ -269,14 +257,8 @@ static int do_dstr_cmp2(const dstr_t a, const dstr_t b, bool sensitive){
     }
 
     // one string might be longer than the other
-    if(a.len > b.len){
-        int ca = (int)(char_fn(a.data[b.len]));
-        return ca;
-    }
-    if(b.len > a.len){
-        int cb = (int)(char_fn(b.data[a.len]));
-        return -cb;
-    }
+    if(a.len > b.len) return 1;
+    if(b.len > a.len) return -1;
 
     // strings match
     return 0;
-- 
2.43.0


From 30b8c8f617ec75c8b646aeb5cfbc373c5df94ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 002/130] fix: dstr_grow0 must record the new size and must
 erase the old buffer

The quiet variant never updated the size, so every later append copied
again and freeing erased too little; the loud variant called the plain
realloc version and left copies of the secret in the heap.
---
 libdstr/common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index ea9abf3..40609b5 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -558,12 +558,13 @@ derr_type_t dstr_grow0_quiet(dstr_t *ds, size_t min_size){
     memcpy(new, ds->data, ds->len);
     dstr_zeroize(ds);
     free(ds->data);
+    ds->size = newsize;
     ds->data = new;
     return E_NONE;
 }
 derr_t dstr_grow0(dstr_t* ds, size_t min_size){
     derr_t e = E_OK;
-    derr_type_t type = dstr_grow_quiet(ds, min_size);
+    derr_type_t type = dstr_grow0_quiet(ds, min_size);
     if(type) ORIG(&e, type, "unable to grow dstr");
     return e;
 }
-- 
2.43.0


From 4da0dbbfa6689c43f0bfcaf7a681a55c9f994db5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 003/130] fix: an empty first element of a list with backing
 memory stays empty

dstr_sub() reads an end of zero as "the whole string".
---
 libdstr/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index 40609b5..e51b9e9 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -909,7 +909,7 @@ derr_t list_append_with_mem(LIST(dstr_t)* list, dstr_t* mem, dstr_t in,
         }
     }
     // append the new chunk of *mem to *list
-    dstr_t sub = dstr_sub(mem, start, end);
+    dstr_t sub = dstr_sub2(*mem, start, end);
     PROP_GO(&e, LIST_APPEND(dstr_t, list, sub), fail_1);
     return e;
 
-- 
2.43.0


From eda26d6519f4b729c2801c8c14e13d93f2179dca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 004/130] fix: utf16 encoding rejects code points above
 U+10FFFF

---
 libdstr/unicode.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libdstr/unicode.c b/libdstr/unicode.c
index 9bbf208..df08a9b 100644
--- a/libdstr/unicode.c
+++ b/libdstr/unicode.c
@@ -66,6 +66,11 @@ derr_type_t utf16_encode_quiet(
         return E_NONE;
     }
 
+    if(codepoint >= 0x110000){
+        LOG_DEBUG("unicode code point too high\n");
+        return E_PARAM;
+    }
+
     codepoint -= 0x10000;
     uint32_t w1 = 0xD800 | ((codepoint >> 10) & 0x3FF);
     uint32_t w2 = 0xDC00 | ((codepoint >> 0) & 0x3FF);
-- 
2.43.0


From 866c9e0d27c86a9913e10373456977f6ad3b0c46 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 005/130] fix: utf8 decoding rejects overlong sequences and
 values above U+10FFFF

---
 libdstr/unicode.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libdstr/unicode.c b/libdstr/unicode.c
index df08a9b..f16e231 100644
--- a/libdstr/unicode.c
+++ b/libdstr/unicode.c
@@ -117,6 +117,10 @@ loop_start:
     if((u & 0xE0) == 0xC0){
         // 2-byte encoding
         // 110xxxxx 10xxxxxx
+        if(u < 0xC2){
+            LOG_DEBUG("overlong utf8 sequence\n");
+            return E_PARAM;
+        }
         tail = 1;
         codepoint = (u & 0x1F);
     }else if((u & 0xF0) == 0xE0){
@@ -148,12 +152,22 @@ process_tail:
             LOG_DEBUG("invalid utf8 secondary byte\n");
             return E_PARAM;
         }
+        if(codepoint == 0
+            && ((tail == 1 && u < 0xA0) || (tail == 2 && u < 0x90))
+        ){
+            LOG_DEBUG("overlong utf8 sequence\n");
+            return E_PARAM;
+        }
         codepoint = (codepoint << 6) | (u & 0x3F);
     }
     if(codepoint >= 0xD800 && codepoint <= 0xDFFF){
         LOG_DEBUG("utf8 value in utf16 reserved range\n");
         return E_PARAM;
     }
+    if(codepoint >= 0x110000){
+        LOG_DEBUG("utf8 value too high\n");
+        return E_PARAM;
+    }
     etype = foreach(codepoint, data);
     if(etype) return etype;
 
-- 
2.43.0


From 10a5831d5920bdc6f25ac1be5af955b4e734c271 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 006/130] fix: decrypt messages whose first encoded line after
 the M: tag is empty

An empty message was never recognized as started, and when the metadata
ended exactly at the end of a line (such as with 37 recipients) the
remaining lines given in the same call were left unread.
---
 libcrypto/crypto.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index bc4cabf..66feb4f 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -913,10 +913,14 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                               DSTR_LIT("IV:"),
                               DSTR_LIT("M:"));
     size_t longest_tag_len = 3;
+    DSTR_STATIC(m_tag, "M:");
     dstr_t sub;
     char* pos;
     // as long as there might be another tag, keep trying to parse
-    while(dc->buffer.len >= longest_tag_len){
+    // (an empty message leaves nothing at all after the M: tag)
+    while(
+        dc->buffer.len >= longest_tag_len || dstr_eq(dc->buffer, m_tag)
+    ){
         // now try to parse a line
         size_t which_tag;
         pos = dstr_find(&dc->buffer, &tags, &which_tag, NULL);
@@ -1199,7 +1203,7 @@ derr_t decrypter_update(decrypter_t* dc, dstr_t* in, dstr_t* out){
         // are we ready to push encrypted message bytes into the decrypter?
         if(dc->message_started == true){
             // dump *buffer into the EVP_CIPHER
-            if(dc->buffer.len == 0) break;
+            if(dc->buffer.len == 0) continue;
             unsigned char* bin = (unsigned char*)dc->buffer.data;
             size_t inl = dc->buffer.len;
             /* the output written will be as much as (inl + block_size - 1),
-- 
2.43.0


From 7f5c7ffcc059253ddd8b26105a471bc24c434e6a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 007/130] fix: refuse an encrypted message with a shortened
 authentication tag

GCM verifies only as many tag bytes as it is given, so a one-byte tag let
a modified message through once in 256 tries.
---
 libcrypto/crypto.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index 66feb4f..2d78606 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -1252,6 +1252,10 @@ derr_t decrypter_finish(decrypter_t* dc, dstr_t* out){
         ORIG(&e, E_INTERNAL, "gcm tag is way too long");
     }
     int taglen = (int)dc->tag.len;
+    // GCM would accept a shorter tag, which is far easier to forge
+    if(taglen != CIPHER_TAG_LEN){
+        ORIG_GO(&e, E_SSL, "message has an incomplete GCM tag", cleanup);
+    }
     // set the GCM authentication tag
     int ret = EVP_CIPHER_CTX_ctrl(dc->ctx, EVP_CTRL_GCM_SET_TAG,
                                   taglen, (unsigned char*)dc->tag.data);
-- 
2.43.0


From f07df97696ccb74d457e00e93904317ad8e3076e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 008/130] fix: no out-of-bounds read for a huge length in
 encrypted message metadata

A length of 4294967295 wrapped to zero when the separator was added, so
the separator was looked for far outside the buffer.
---
 libcrypto/crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index 2d78606..651206d 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -981,7 +981,7 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < hash_len + 1){
+                if(leftover.len <= hash_len){
                     // we don't have the whole line
                     return e;
                 }
@@ -1012,7 +1012,7 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < key_len + 1){
+                if(leftover.len <= key_len){
                     // we don't have the whole line
                     return e;
                 }
@@ -1057,7 +1057,7 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < iv_len + 1){
+                if(leftover.len <= iv_len){
                     // we don't have the whole line
                     return e;
                 }
-- 
2.43.0


From 4c34d5700d9c761d5bb70899096df3b041fff627 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 009/130] fix: "@", ";", "?", "=" are allowed in atoms, and "+"
 in base64

---
 libimap/imap.in | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 249d480..e585562 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -528,6 +528,10 @@ CREATED;
     LANGLE
     RANGLE
     DASH
+    ARROBA
+    SEMI
+    QUESTION
+    EQ
 ;
 
 ### TYPES
@@ -593,7 +597,7 @@ atom:dstr =
     1*( atom_char { $$ = ie_dstr_append(E, $$, dtoken, KEEP_RAW); } )
 ;
 
-b64_char = TAGRAW | NUM | EQ;
+b64_char = ATOMRAW | NUM;
 b640:dstr0 =
     1*(
         b64_char
-- 
2.43.0


From c94451c8c3aee2666f6d0a9c3a74b0311f147025 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 010/130] fix: accept unquoted mailbox names which merely start
 with "inbox"

---
 libimap/imap.in | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index e585562..bd2769a 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -695,10 +695,9 @@ ign_qstr = DQUOTE { MODE(QSTRING); } 1*ATOMRAW { MODE(STD); } DQUOTE;
 ign_literal = literal_start 1*LITRAW;
 
 mailbox:mailbox =
-  | astring:m
+    astring:m
     # if the astring is InBoX or starts with inBOX/ expression.c will fix it
     { $$ = ie_mailbox_new_noninbox(E, STEAL(ie_dstr_t, &$m)); }
-  | INBOX:m    { $$ = ie_mailbox_new_inbox(E); }
 ;
 
 flags_0:flags = [ flags_1:f { $$ = STEAL(ie_flags_t, &$f); } ];
-- 
2.43.0


From 0e9268b3f9da73d7ba26bd8a799b11afa75e97f5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 011/130] fix: every control character other than CR and LF is
 allowed in response text

---
 libimap/scan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/scan.c b/libimap/scan.c
index 832d03e..0c95448 100644
--- a/libimap/scan.c
+++ b/libimap/scan.c
@@ -254,7 +254,7 @@ static imap_scanned_t do_scan(
         nullbyte        = "\x00";
         num             = [0-9]+;
         raw             = [^(){%*"\x00-\x1F\x7F[\]\\ }+\-.:,<>0-9]+;
-        non_crlf_ctl    = [\x01-\x09\x0B-\x0C\x0E\x1f\x7f];
+        non_crlf_ctl    = [\x01-\x09\x0B-\x0C\x0E-\x1f\x7f];
         qchar           = [^"\x00\r\n\\] | "\\\\" | "\\\"";
         qstring         = ( [^"\x00\r\n\\] | ("\\"[\\"]) )+;
     */
-- 
2.43.0


From c8be5c1c8048adbe449aed65a3924659f65fbcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 012/130] fix: enforce what the VANISHED fetch modifier
 requires

---
 libimap/imap.in | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index bd2769a..4c23dc2 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -1713,18 +1713,7 @@ date_day:snum =
 
 fetch_cmd(tag:dstr, uid:bool, out:imap_cmd) =
     FETCH SP seq_set:s SP fetch_attrs:a fetch_mods:m
-    {{  ie_fetch_cmd_t *fetch = ie_fetch_cmd_new(E,
-            $uid,
-            STEAL(ie_seq_set_t, &$s),
-            STEAL(ie_fetch_attrs_t, &$a),
-            STEAL(ie_fetch_mods_t, &$m)
-        );
-        $out = imap_cmd_new(E,
-            STEAL(ie_dstr_t, &$tag),
-            IMAP_CMD_FETCH,
-            (imap_cmd_arg_t){ .fetch = fetch }
-        );
-        // VANISHED can be used with UID mode and CHANGEDSINCE both active
+    {{  // VANISHED can be used with UID mode and CHANGEDSINCE both active
         bool vanished = false;
         bool chgsince = false;
         for(ie_fetch_mods_t *mods = $m; mods; mods = mods->next){
@@ -1744,6 +1733,17 @@ fetch_cmd(tag:dstr, uid:bool, out:imap_cmd) =
                 "VANISHED modifier requires CHANGEDSINCE modifier"
             );
         }
+        ie_fetch_cmd_t *fetch = ie_fetch_cmd_new(E,
+            $uid,
+            STEAL(ie_seq_set_t, &$s),
+            STEAL(ie_fetch_attrs_t, &$a),
+            STEAL(ie_fetch_mods_t, &$m)
+        );
+        $out = imap_cmd_new(E,
+            STEAL(ie_dstr_t, &$tag),
+            IMAP_CMD_FETCH,
+            (imap_cmd_arg_t){ .fetch = fetch }
+        );
     }}
 ;
 
-- 
2.43.0


From eb39fca0e8aa29f963c616bf049705f88a5eef9d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 013/130] fix: detect overflow of numbers which arrive in
 pieces

---
 libimap/imap.in | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 4c23dc2..7bf9a12 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -876,7 +876,9 @@ modseqnum:modseqnum =
                 limit /= 10;
                 out *= 10;
             }
-            if($$ > limit) THROW_SYNTAX_ERROR("integer overflow");
+            if($$ > limit || $n > UINT64_MAX - out){
+                THROW_SYNTAX_ERROR("integer overflow");
+            }
             $$ = out + $n;
         }}
     )
-- 
2.43.0


From fbd15acf8b17179e064e08aa7fb395338a0bc2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 014/130] fix: accept empty strings and reply-to addresses in
 ignored FETCH items

---
 libimap/imap.in | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 7bf9a12..451113d 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -691,8 +691,8 @@ literal0_body(out:dstr0) =
 ;
 
 ign_string = ign_qstr | ign_literal;
-ign_qstr = DQUOTE { MODE(QSTRING); } 1*ATOMRAW { MODE(STD); } DQUOTE;
-ign_literal = literal_start 1*LITRAW;
+ign_qstr = DQUOTE { MODE(QSTRING); } *ATOMRAW { MODE(STD); } DQUOTE;
+ign_literal = literal_start *LITRAW;
 
 mailbox:mailbox =
     astring:m
@@ -2573,7 +2573,7 @@ f_intdate:time = INTERNALDATE SP date_time:d { $$ = $d; };
 
 ign_envelope =
 #   date           subj           from          sender        reply-to
-    ign_nstring SP ign_nstring SP naddr_list SP naddr_list SP ign_nstring SP
+    ign_nstring SP ign_nstring SP naddr_list SP naddr_list SP naddr_list SP
 #   to            cc            bcc           in-reply-to    message-id
     naddr_list SP naddr_list SP naddr_list SP ign_nstring SP ign_nstring
 ;
-- 
2.43.0


From 8bd806d2bf3d914f51b6f3d54e5738716869ad8a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:48:04 +0000
Subject: [PATCH 015/130] fix: do not emit a 14-byte keyword before seeing what
 follows it

---
 libimap/read.h | 4 ++--
 libimap/scan.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libimap/read.h b/libimap/read.h
index ec6bd81..595fa87 100644
--- a/libimap/read.h
+++ b/libimap/read.h
@@ -7,9 +7,9 @@ typedef enum {
     SCAN_MODE_NQCHAR,
 } scan_mode_t;
 
-/* the maximum length of any keyword; tokens shorter than this, other than EOL,
+/* one more than the length of any keyword; tokens shorter than this, other than EOL,
    will not be emitted when they appear at the end of the scanner buffer */
-#define MAXKWLEN 14
+#define MAXKWLEN 15
 
 // scanner must be initialized with zeros
 typedef struct {
diff --git a/libimap/scan.c b/libimap/scan.c
index 0c95448..7bd6fc0 100644
--- a/libimap/scan.c
+++ b/libimap/scan.c
@@ -214,8 +214,8 @@ static char hitlimit(bool *out){
      - we MUST not require atoms of arbitrary length to fit into the
        scanner's buffer (we have to break them up)
 
-   In practice, any token shorter than the maximum keyword length (14) which is
-   not an EOL and which occurs at the end of the input buffer is witheld until
+   In practice, any token no longer than the maximum keyword length (14), which
+   is not an EOL and which occurs at the end of the input buffer is witheld until
    the next packet arrives. */
 
 // skip guaranteed to be less than len
-- 
2.43.0


From 0ecb477470f959bf78a4a74539438a2d5145671e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 016/130] fix: write the space between the name and value of
 SEARCH HEADER

---
 libimap/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/write.c b/libimap/write.c
index 6459da4..951ebdc 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -825,8 +825,8 @@ static derr_t search_key_skip_fill(skip_fill_t *sf, ie_search_key_t *key){
         case IE_SEARCH_HEADER:
             STATIC_SKIP_FILL("HEADER ");
             PROP(&e, astring_skip_fill(sf, p.header.name->dstr) );
-            PROP(&e, astring_skip_fill(sf, p.header.value->dstr) );
             STATIC_SKIP_FILL(" ");
+            PROP(&e, astring_skip_fill(sf, p.header.value->dstr) );
             break;
         // things using param.date
         case IE_SEARCH_BEFORE:
-- 
2.43.0


From 470454e104f40c168d698622a22a76235e729e6a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 017/130] fix: SEARCH dates may be in December

---
 libimap/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/write.c b/libimap/write.c
index 951ebdc..8f20bd4 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -711,7 +711,7 @@ static derr_t search_date_skip_fill(skip_fill_t *sf, imap_time_t time){
         TRACE(&e, "invalid year: %x\n", FI(time.year));
         pass = false;
     }
-    if(time.month < 0 || time.month > 11){
+    if(time.month < 1 || time.month > 12){
         TRACE(&e, "invalid month: %x\n", FI(time.month));
         pass = false;
     }
-- 
2.43.0


From 5564e135bd5e8ff7b1a7eb218346f4a6d6a22bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 018/130] fix: write the CHARSET keyword of SEARCH

---
 libimap/write.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libimap/write.c b/libimap/write.c
index 8f20bd4..d717e1c 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -1200,6 +1200,7 @@ static derr_t do_imap_cmd_write(const imap_cmd_t *cmd, dstr_t *out,
             }
             STATIC_SKIP_FILL("SEARCH ");
             if(arg.search->charset){
+                STATIC_SKIP_FILL("CHARSET ");
                 PROP(&e, astring_skip_fill(sf, arg.search->charset->dstr) );
                 STATIC_SKIP_FILL(" ");
             }
-- 
2.43.0


From 5326b6a7c21fe6c17d8be0e70dcc713a48d52b76 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 019/130] fix: XKEYSYNC responses need the XKEY extension, not
 QRESYNC

---
 libimap/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/write.c b/libimap/write.c
index d717e1c..1f102be 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -2004,7 +2004,7 @@ static derr_t do_imap_resp_write(const imap_resp_t *resp, dstr_t *out,
             break;
 
         case IMAP_RESP_XKEYSYNC:
-            PROP(&e, extension_assert_on(sf->exts, EXT_QRESYNC) );
+            PROP(&e, extension_assert_on(sf->exts, EXT_XKEY) );
             STATIC_SKIP_FILL("XKEYSYNC ");
             if(arg.xkeysync == NULL){
                 STATIC_SKIP_FILL("OK");
-- 
2.43.0


From d4358e6a845b502d3b0a980216739f315c76cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 020/130] fix: do not lose input when an escape sequence is
 split after a long chunk

---
 libimap/read.h | 5 +++--
 libimap/scan.c | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/libimap/read.h b/libimap/read.h
index 595fa87..42bf9d9 100644
--- a/libimap/read.h
+++ b/libimap/read.h
@@ -16,8 +16,9 @@ typedef struct {
     // external input
     char *input;
     size_t ninput;
-    // our local copy of the leftover of the old input
-    char leftovers[MAXKWLEN];
+    /* our local copy of the leftover of the old input; a token shorter than
+       MAXKWLEN may be followed by the first half of an escape sequence */
+    char leftovers[MAXKWLEN + 1];
     size_t nleftovers;
     size_t orig_nleftovers;
     // how much of whichever input we've read
diff --git a/libimap/scan.c b/libimap/scan.c
index 7bd6fc0..0c1717d 100644
--- a/libimap/scan.c
+++ b/libimap/scan.c
@@ -71,8 +71,8 @@ void imap_feed(imap_scanner_t *s, const dstr_t input){
     s->skip = 0;
     s->input = input.data;
     s->ninput = input.len;
-    if(s->orig_nleftovers && s->orig_nleftovers < MAXKWLEN){
-        size_t needed = MAXKWLEN - s->orig_nleftovers;
+    if(s->orig_nleftovers && s->orig_nleftovers < sizeof(s->leftovers)){
+        size_t needed = sizeof(s->leftovers) - s->orig_nleftovers;
         size_t copysize = MIN(input.len, needed);
         memcpy(s->leftovers + s->orig_nleftovers, input.data, copysize);
         s->nleftovers += copysize;
-- 
2.43.0


From 331be9119fcc818f307635e96fcf655b0745b16b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 021/130] fix: no crash when a chunk ends within a possible
 READ-ONLY or RFC822 keyword

---
 libimap/scan.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/libimap/scan.c b/libimap/scan.c
index 0c1717d..6c21ba1 100644
--- a/libimap/scan.c
+++ b/libimap/scan.c
@@ -101,6 +101,17 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
         return (imap_scanned_t){ .more = true };
     }
 
+    if(s->nleftovers && s->skip){
+        // last token did not use up the leftovers; shift and refill them
+        size_t nremains = s->orig_nleftovers - s->skip;
+        memmove(s->leftovers, s->leftovers + s->skip, nremains);
+        size_t copysize = MIN(s->ninput, sizeof(s->leftovers) - nremains);
+        memcpy(s->leftovers + nremains, s->input, copysize);
+        s->orig_nleftovers = nremains;
+        s->nleftovers = nremains + copysize;
+        s->skip = 0;
+    }
+
     char *src;
     size_t len;
 
@@ -139,18 +150,10 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
         s->skip += out.token.len;
 
         if(in_leftovers){
-            /* there will never be more than one token from leftovers, because
-               if it had a token break in it, only the last token would have
-               gone to leftovers */
-            if(s->skip < s->orig_nleftovers){
-                dstr_t temp = dstr_from_cstrn(
-                    s->leftovers, s->orig_nleftovers, false
-                );
-                LOG_FATAL(
-                    "not all of leftovers (%x) was consumed by the%x\n",
-                    FD_DBG(temp), FS(imap_token_name(out.type))
-                );
-            }
+            /* usually there is only one token in the leftovers, but what might
+               have been a keyword like READ-ONLY or RFC822 can turn out to be
+               several smaller tokens */
+            if(s->skip < s->orig_nleftovers) return out;
             // transition to src = input
             s->skip -= s->orig_nleftovers;
             s->nleftovers = 0;
-- 
2.43.0


From f0a6508096db0a0f8c34f531b28e0d80b57928b1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 022/130] fix: write the \* permanent flag as the protocol
 spells it

---
 libimap/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/write.c b/libimap/write.c
index 1f102be..25777a1 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -496,7 +496,7 @@ static derr_t pflags_skip_fill(skip_fill_t *sf, ie_pflags_t *pflags){
     if(pflags->deleted){  LEAD_SP; STATIC_SKIP_FILL("\\Deleted");  }
     if(pflags->seen){     LEAD_SP; STATIC_SKIP_FILL("\\Seen");     }
     if(pflags->draft){    LEAD_SP; STATIC_SKIP_FILL("\\Draft");    }
-    if(pflags->asterisk){ LEAD_SP; STATIC_SKIP_FILL("\\Asterisk"); }
+    if(pflags->asterisk){ LEAD_SP; STATIC_SKIP_FILL("\\*"); }
     for(ie_dstr_t *d = pflags->keywords; d != NULL; d = d->next){
         LEAD_SP;
         PROP(&e, atom_skip_fill(sf, d->dstr) );
-- 
2.43.0


From 7028dc29fd421aff4ecb1075e34c5b3d0a266a75 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:52:32 +0000
Subject: [PATCH 023/130] fix: give the larger parser stack to commands, which
 are the recursive ones

---
 libimap/read.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libimap/read.c b/libimap/read.c
index a422eb3..07f7cef 100644
--- a/libimap/read.c
+++ b/libimap/read.c
@@ -11,10 +11,10 @@ derr_t imap_cmd_reader_init(imap_cmd_reader_t *r, extensions_t *exts){
     };
     r->args.scanner = &r->scanner;
 
-    // responses have a fixed size
+    // responses have a fixed size, but not commands; search keys are recursive
     r->p = imap_parser_new(
-        IMAP_RESPONSE_LINE_MAX_CALLSTACK,
-        IMAP_RESPONSE_LINE_MAX_SEMSTACK
+        2*IMAP_RESPONSE_LINE_MAX_CALLSTACK,
+        2*IMAP_RESPONSE_LINE_MAX_SEMSTACK
     );
     if(!r->p){
         ORIG(&e, E_NOMEM, "nomem");
@@ -34,10 +34,10 @@ derr_t imap_resp_reader_init(imap_resp_reader_t *r, extensions_t *exts){
     };
     r->args.scanner = &r->scanner;
 
-    // responses have a fixed size, but not commands; search keys are recursive
+    // responses have a fixed size
     r->p = imap_parser_new(
-        2*IMAP_RESPONSE_LINE_MAX_CALLSTACK,
-        2*IMAP_RESPONSE_LINE_MAX_SEMSTACK
+        IMAP_RESPONSE_LINE_MAX_CALLSTACK,
+        IMAP_RESPONSE_LINE_MAX_SEMSTACK
     );
     if(!r->p){
         ORIG(&e, E_NOMEM, "nomem");
-- 
2.43.0


From 6949a8da4619fa05dfc6f76da965c5d5ab376974 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 024/130] fix: write the string of SEARCH SUBJECT

---
 libimap/write.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libimap/write.c b/libimap/write.c
index 25777a1..f1e9f14 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -768,7 +768,8 @@ static derr_t search_key_skip_fill(skip_fill_t *sf, ie_search_key_t *key){
             STATIC_SKIP_FILL("SEEN");
             break;
         case IE_SEARCH_SUBJECT:
-            STATIC_SKIP_FILL("SUBJECT");
+            STATIC_SKIP_FILL("SUBJECT ");
+            PROP(&e, astring_skip_fill(sf, p.dstr->dstr) );
             break;
         case IE_SEARCH_UNANSWERED:
             STATIC_SKIP_FILL("UNANSWERED");
-- 
2.43.0


From 4b8c3cd073feed9b64434625466490e2f2fe23f0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 025/130] fix: junk after the DONE of IDLE still ends the IDLE
 command

---
 libimap/imap.in | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 451113d..8a4c2c8 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -1026,7 +1026,9 @@ command_line =
             send_cmd(E, a, cmd);
         }}
     >
-    { if($cmd) send_cmd(E, a, STEAL(imap_cmd_t, &$cmd)); }
+    {{  a->in_idle = false;
+        if($cmd) send_cmd(E, a, STEAL(imap_cmd_t, &$cmd));
+    }}
     EOL
 ;
 
@@ -2045,8 +2047,7 @@ idle_cmd(tag:dstr, out:imap_cmd) =
         a->in_idle = true;
     }}
     DONE
-    {{  a->in_idle = false;
-        // no syntax error message with this IDLE_DONE
+    {{  // no syntax error message with this IDLE_DONE
         imap_cmd_arg_t arg2 = { .idle_done = NULL };
         $out = imap_cmd_new(E, NULL, IMAP_CMD_IDLE_DONE, arg2);
     }}
-- 
2.43.0


From 2ffdfd2b91b7a11b7f50991b740b28e6f80737f9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 026/130] fix: UID EXPUNGE 0 is an error, not a request to
 expunge UID 1

---
 libimap/imap.in | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 8a4c2c8..340d8ce 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -930,7 +930,12 @@ seq_set:seq_set =
 
 # workaround a bug in dovecot v2.3.13-14 where UID EXPUNGE 1 returns
 # VANISHED 0:1 instead of VANISHED 1 ... just change the 0 to a 1 */
-uid_nznum:num = num:n { $$ = $n; if($$ == 0) $$ = 1; };
+uid_nznum:num =
+    num:n
+    {{  if($n == 0 && !a->is_client) THROW_SYNTAX_ERROR("unallowed zero");
+        $$ = $n ? $n : 1;
+    }}
+;
 
 uid_spec:seq_set =
     uid_nznum:a
-- 
2.43.0


From cd4796fa101d428739dbc376c74a8ef9c776b73f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 027/130] fix: FETCH body part numbers start at 1

---
 libimap/imap.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 340d8ce..73ab4a0 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -1892,7 +1892,7 @@ sect:sect =
 ;
 
 sect_part:sect_part =
-    num:n
+    nznum:n
     { $$ = ie_sect_part_new(E, $n); }
 ;
 
-- 
2.43.0


From ddc9fa18942210af89b2830f0d183a7f8858adb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 028/130] fix: BODY[0] is answered NO, as before

---
 libimap/imap.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 73ab4a0..340d8ce 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -1892,7 +1892,7 @@ sect:sect =
 ;
 
 sect_part:sect_part =
-    nznum:n
+    num:n
     { $$ = ie_sect_part_new(E, $n); }
 ;
 
-- 
2.43.0


From 1f5df6afea2d7cc9e4f1d77b0827ce45bdda418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 029/130] fix: withhold whole 14-byte keywords and split
 escapes without larger refills

---
 libimap/read.h |  8 ++++----
 libimap/scan.c | 40 +++++++++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/libimap/read.h b/libimap/read.h
index 42bf9d9..0adae32 100644
--- a/libimap/read.h
+++ b/libimap/read.h
@@ -7,17 +7,17 @@ typedef enum {
     SCAN_MODE_NQCHAR,
 } scan_mode_t;
 
-/* one more than the length of any keyword; tokens shorter than this, other than EOL,
+/* the maximum length of any keyword; tokens shorter than this, other than EOL,
    will not be emitted when they appear at the end of the scanner buffer */
-#define MAXKWLEN 15
+#define MAXKWLEN 14
 
 // scanner must be initialized with zeros
 typedef struct {
     // external input
     char *input;
     size_t ninput;
-    /* our local copy of the leftover of the old input; a token shorter than
-       MAXKWLEN may be followed by the first half of an escape sequence */
+    /* our local copy of the leftover of the old input, with room for one byte
+       after the longest keyword, which decides if the keyword is complete */
     char leftovers[MAXKWLEN + 1];
     size_t nleftovers;
     size_t orig_nleftovers;
diff --git a/libimap/scan.c b/libimap/scan.c
index 6c21ba1..f708b53 100644
--- a/libimap/scan.c
+++ b/libimap/scan.c
@@ -65,18 +65,22 @@ void get_scannable(imap_scanner_t *s, dstr_t *out){
     dstr_append_quiet(out, &sub2);
 }
 
+// append some input to the original leftovers
+static void fill_leftovers(imap_scanner_t *s){
+    size_t needed = 1;
+    if(s->orig_nleftovers < MAXKWLEN) needed = MAXKWLEN - s->orig_nleftovers;
+    size_t copysize = MIN(s->ninput, needed);
+    memcpy(s->leftovers + s->orig_nleftovers, s->input, copysize);
+    s->nleftovers = s->orig_nleftovers + copysize;
+}
+
 void imap_feed(imap_scanner_t *s, const dstr_t input){
     /* set skip here instead of when we set feed=false to support
        get_starttls_skip after the end of input */
     s->skip = 0;
     s->input = input.data;
     s->ninput = input.len;
-    if(s->orig_nleftovers && s->orig_nleftovers < sizeof(s->leftovers)){
-        size_t needed = sizeof(s->leftovers) - s->orig_nleftovers;
-        size_t copysize = MIN(input.len, needed);
-        memcpy(s->leftovers + s->orig_nleftovers, input.data, copysize);
-        s->nleftovers += copysize;
-    }
+    if(s->orig_nleftovers) fill_leftovers(s);
     s->fed = true;
 }
 
@@ -105,10 +109,8 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
         // last token did not use up the leftovers; shift and refill them
         size_t nremains = s->orig_nleftovers - s->skip;
         memmove(s->leftovers, s->leftovers + s->skip, nremains);
-        size_t copysize = MIN(s->ninput, sizeof(s->leftovers) - nremains);
-        memcpy(s->leftovers + nremains, s->input, copysize);
         s->orig_nleftovers = nremains;
-        s->nleftovers = nremains + copysize;
+        fill_leftovers(s);
         s->skip = 0;
     }
 
@@ -136,6 +138,17 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
     }else{
         out = do_scan(src, len, s->skip, mode);
 
+        /* Special case: the leftovers end after a whole keyword or within an
+           escape sequence, but we have at least one more byte of input */
+        if(out.more && in_leftovers){
+            size_t ncopied = len - s->orig_nleftovers;
+            if(len < sizeof(s->leftovers) && ncopied < s->ninput){
+                s->leftovers[len++] = s->input[ncopied];
+                s->nleftovers = len;
+                out = do_scan(src, len, s->skip, mode);
+            }
+        }
+
         /* Special case: if after adding to leftovers, we hit an invalid token,
            we expand the size of the invalid token to include all of leftovers.
            This preserves our "leftovers is always fully consumed by the next
@@ -217,9 +230,9 @@ static char hitlimit(bool *out){
      - we MUST not require atoms of arbitrary length to fit into the
        scanner's buffer (we have to break them up)
 
-   In practice, any token no longer than the maximum keyword length (14), which
-   is not an EOL and which occurs at the end of the input buffer is witheld until
-   the next packet arrives. */
+   In practice, any token shorter than the maximum keyword length (14) which is
+   not an EOL and which occurs at the end of the input buffer is witheld until
+   the next packet arrives, as is a keyword of the maximum length. */
 
 // skip guaranteed to be less than len
 static imap_scanned_t do_scan(
@@ -493,7 +506,8 @@ done:
     size_t end = (size_t)(cursor - src);
     size_t toklen = end - skip;
     // see "Requirements", above
-    if(limited && type != IMAP_EOL && toklen < MAXKWLEN){
+    size_t minlen = type == IMAP_RAW ? MAXKWLEN : MAXKWLEN + 1;
+    if(limited && type != IMAP_EOL && toklen < minlen){
         return (imap_scanned_t){ .more = true };
     }
 
-- 
2.43.0


From 4ac4597c66fb359069ec7bfebf6dd75c3ac56d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 030/130] fix: keep kvpsync tombstones for 255 seconds, not 255
 nanoseconds

---
 server/libkvpsync/recv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/libkvpsync/recv.h b/server/libkvpsync/recv.h
index dce1fe2..be057fd 100644
--- a/server/libkvpsync/recv.h
+++ b/server/libkvpsync/recv.h
@@ -3,7 +3,7 @@
    leaving deletions in the data structure for a few minutes to ensure that no
    stray network packet could be still circulating.  We use the IPv4 max TTL
    even though in practice that's a lot longer than a real packet can live. */
-#define GC_DELAY 255
+#define GC_DELAY (255 * SECOND)
 
 // kvpsync_recv_t is the receiver's side of kvp sync
 typedef struct {
-- 
2.43.0


From 75629a2fbf13ec3bf67fe3765f8cfae4d357f308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 031/130] fix: a duplicated kvpsync FLUSH packet does not
 discard a newer sync

---
 server/libkvpsync/recv.c | 5 +++++
 server/libkvpsync/recv.h | 1 +
 2 files changed, 6 insertions(+)

diff --git a/server/libkvpsync/recv.c b/server/libkvpsync/recv.c
index f738ae8..b6491cb 100644
--- a/server/libkvpsync/recv.c
+++ b/server/libkvpsync/recv.c
@@ -301,6 +301,11 @@ derr_t kvpsync_recv_handle_update(
         case KVP_UPDATE_FLUSH:
             // ignore any packets before our resync is acknowldged
             if(!r->initial_sync_acked) break;
+            /* ignore duplicates, which may arrive while the packets of a newer
+               sync are already arriving, or after it is complete */
+            if(update.sync_id == r->sync_id) break;
+            if(update.sync_id == r->old_sync_id) break;
+            r->old_sync_id = r->sync_id;
             r->sync_id = update.sync_id;
             r->ok_expiry = MAX(r->ok_expiry, update.ok_expiry);
             flush_stale_data(r);
diff --git a/server/libkvpsync/recv.h b/server/libkvpsync/recv.h
index be057fd..9b6238e 100644
--- a/server/libkvpsync/recv.h
+++ b/server/libkvpsync/recv.h
@@ -10,6 +10,7 @@ typedef struct {
     hashmap_t h;  // maps dstr_t keys to dstr_t values
     uint32_t recv_id;  // randomly chosen at boot
     uint32_t sync_id;  // the send_id for a sync we've completed, or zero
+    uint32_t old_sync_id;  // the sync_id before that
     bool initial_sync_acked;
     xtime_t ok_expiry;
     link_t gc; // recv_datum_t->gc
-- 
2.43.0


From 06a034e2b209ec4619f6b66ae67a45321fe571cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:19:04 +0000
Subject: [PATCH 032/130] fix: no signed overflow in reading the TTL of DNS
 records

---
 server/dns/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/dns/parse.c b/server/dns/parse.c
index 239a37b..7f6ef2b 100644
--- a/server/dns/parse.c
+++ b/server/dns/parse.c
@@ -408,7 +408,7 @@ static size_t parse_rr(
         if(len < used + 10) return BP_RR_HDR_OVERRUN;
         uint16_t type = (uptr[used+0] << 8) | uptr[used+1];
         uint16_t class = (uptr[used+2] << 8) | uptr[used+3];
-        uint32_t ttl = (uptr[used+4] << 24)
+        uint32_t ttl = ((uint32_t)uptr[used+4] << 24)
                      | (uptr[used+5] << 16)
                      | (uptr[used+6] << 8)
                      |  uptr[used+7];
@@ -451,7 +451,7 @@ rr_t *rrs_next(rrs_t *it){
     used = skip_name(it->ptr, used);
     rr.type = (uptr[used+0] << 8) | uptr[used+1];
     rr.class = (uptr[used+2] << 8) | uptr[used+3];
-    rr.ttl = (uptr[used+4] << 24)
+    rr.ttl = ((uint32_t)uptr[used+4] << 24)
                  | (uptr[used+5] << 16)
                  | (uptr[used+6] << 8)
                  |  uptr[used+7];
-- 
2.43.0


From 5bd15bff01a2d5a9ea543460effd7ff6c599954c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:19:04 +0000
Subject: [PATCH 033/130] fix: skip the data of each DNS record when iterating
 over records

---
 server/dns/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/dns/parse.c b/server/dns/parse.c
index 7f6ef2b..75a0dd4 100644
--- a/server/dns/parse.c
+++ b/server/dns/parse.c
@@ -460,7 +460,7 @@ rr_t *rrs_next(rrs_t *it){
     rr.rdoff = used;
 
     it->rr = rr;
-    it->pos = used;
+    it->pos = used + rr.rdlen;
     it->seen++;
 
     return &it->rr;
-- 
2.43.0


From a2417dc420b46ee87e3a61a57d0cdb429806f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:19:04 +0000
Subject: [PATCH 034/130] fix: do not log the address from a buffer which was
 already returned

---
 server/dns/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/dns/main.c b/server/dns/main.c
index d9ced4c..1ae0e4d 100644
--- a/server/dns/main.c
+++ b/server/dns/main.c
@@ -109,6 +109,8 @@ static void on_send(uv_udp_send_t *req, int status){
     globals_t *g = req->handle->data;
 
     membuf_t *membuf = CONTAINER_OF(req, membuf_t, req);
+    // the membuf may be reused as soon as we return it
+    struct sockaddr_storage ss = membuf->ss;
     g_membuf_return(g, &membuf);
 
     if(status == 0 || status == UV_ECANCELED) return;
@@ -119,13 +121,13 @@ static void on_send(uv_udp_send_t *req, int status){
        destination to uv_udp_send(), we can treat this error in the wireguard
        layer as if it were silently dropped by the network. */
     if(status == UV_EDESTADDRREQ){
-        LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOPS(&membuf->ss));
+        LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOPS(&ss));
         return;
     }
 
     // similarly, don't crash the service if one wg endpoint is misconfigured
     if(status == -ENOKEY){
-        LOG_ERROR("ENOKEY: dst=%x\n", FNTOPS(&membuf->ss));
+        LOG_ERROR("ENOKEY: dst=%x\n", FNTOPS(&ss));
         return;
     }
 
-- 
2.43.0


From eca90a0ccfc1af4319782bf5ec8d3faddedd141c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:21:26 +0000
Subject: [PATCH 035/130] fix: do not read a name from DNS packets without
 questions

---
 server/dns/dns.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/dns/dns.c b/server/dns/dns.c
index 00c86a7..3dee975 100644
--- a/server/dns/dns.c
+++ b/server/dns/dns.c
@@ -278,7 +278,11 @@ size_t handle_packet(
        of junk queries which are only junk because of the extra labels */
     lstr_t rname[6] = {0};
     size_t cap = sizeof(rname) / sizeof(*rname);
-    size_t n = labels_read_reverse(pkt.qstn.ptr, pkt.qstn.off, rname, cap);
+    size_t n = 0;
+    if(pkt.hdr.qdcount > 0){
+        // with no questions, there is no validated name to read
+        n = labels_read_reverse(pkt.qstn.ptr, pkt.qstn.off, rname, cap);
+    }
     if(n > cap){
         // too many labels; but we don't actually care
         n = cap;
-- 
2.43.0


From 92ea6b3006444fb84af95ab7a3c36f019514a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:28 +0000
Subject: [PATCH 036/130] fix: updates queued before the initial sync is
 concluded hold it up until acked

---
 server/libkvpsync/send.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/libkvpsync/send.c b/server/libkvpsync/send.c
index f6eb207..4ec969c 100644
--- a/server/libkvpsync/send.c
+++ b/server/libkvpsync/send.c
@@ -152,6 +152,9 @@ static void data_queue(kvpsync_send_t *s, send_data_t *data){
     uint32_t update_id = ++s->update_id;
     data->update.update_id = update_id;
     link_list_append(&s->unsent, &data->link);
+    /* an update which is queued before we conclude the initial sync must also
+       be acked before we conclude the initial sync */
+    if(!s->synced) s->blocked = true;
     hash_elem_t *old = hashmap_setu(&s->unacked, update_id, &data->uelem);
     // old may be NULL or it match be what we inserted, but not anything else
     if(old && old != &data->uelem){
-- 
2.43.0


From 61eb100bb3274b8665e0fc506f9d98bb554cfdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:28 +0000
Subject: [PATCH 037/130] fix: a kvpsend sender continues after a send failure
 of an offline peer

---
 server/kvpsend/main.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/kvpsend/main.c b/server/kvpsend/main.c
index 102f45e..086b5f9 100644
--- a/server/kvpsend/main.c
+++ b/server/kvpsend/main.c
@@ -423,15 +423,15 @@ static void uv_sender_send_cb(uv_udp_send_t *req, int status){
            the whole service if one endpoint is misconfigured or offline */
         if(status == UV_EDESTADDRREQ){
             LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOP(sender->addr));
-            return;
-        }
-        if(status == -ENOKEY){
+        }else if(status == -ENOKEY){
             LOG_ERROR("ENOKEY: dst=%x\n", FNTOP(sender->addr));
-            return;
+        }else{
+            ORIG_GO(&e,
+                uv_err_type(status), "uv_sender_send_cb: %x", fail, FUV(status)
+            );
         }
-        ORIG_GO(&e,
-            uv_err_type(status), "uv_sender_send_cb: %x", fail, FUV(status)
-        );
+        /* treat the packet as lost; the sender still has to know that the
+           write is over, or it would never send anything again */
     }
 
     PROP_GO(&e, sender_send_cb(&uv_k->k, sender, ktime(uv_k)), fail);
-- 
2.43.0


From 0dac6548d39faeda67444ee68a2f751a7dc5cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:53:53 +0000
Subject: [PATCH 038/130] fix: do not dereference a missing command while
 waiting for ENABLE

---
 libcitm/sc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 23edd8f..2889c45 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -1172,8 +1172,8 @@ static derr_t advance_enable(sc_t *sc, bool *okout){
     ok = advance_reads_up(sc);
     if(!ok) return e;
 
-    ie_dstr_t **cmdtagp = &sc->cmd->tag;
-    PROP(&e, check_resp(sc, cmdtagp, &ok, check_enable) );
+    // check_enable does not use the tag, and we may not have a command yet
+    PROP(&e, check_resp(sc, NULL, &ok, check_enable) );
     if(!ok) return e;
 
     *okout = true;
-- 
2.43.0


From b1a078470d15b1d4f031a1bc6e8a2ee0b3d20213 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:55:18 +0000
Subject: [PATCH 039/130] fix: an upstream COPY which copied nothing is not an
 error

---
 libimaildir/imaildir.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index f2f7dfe..c0743e1 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -2006,22 +2006,23 @@ static derr_t relay_copy_cb(const relay_t *relay, const ie_st_resp_t *st_resp){
         return e;
     }
 
-    // ensure that we have a COPYUID in the st_resp
-    if(!st_resp->code){
-        ORIG(&e, E_RESPONSE, "expected COPYUID in st_resp but got nothing");
-    }
-    if(st_resp->code->type != IE_ST_CODE_COPYUID){
-        TRACE(&e, "expected COPYUID in status response (%x) but got %x\n",
-            FU(IE_ST_CODE_COPYUID), FU(st_resp->code->type));
-        ORIG(&e, E_RESPONSE, "expected COPYUID but got something else");
+    imaildir_t *hold_m;
+
+    /* when none of the messages exist on the server anymore, the server copies
+       nothing and has no COPYUID to report (RFC 4315) */
+    if(!st_resp->code || st_resp->code->type != IE_ST_CODE_COPYUID){
+        LOG_WARN("no COPYUID in response to UID COPY, nothing was copied\n");
+        if(!relay->locals) return e;
+        PROP(&e, dirmgr_hold_get_imaildir(relay->hold, &hold_m) );
+        PROP_GO(&e, local_copy(m, relay->locals, hold_m), cu);
+        goto cu;
     }
 
     unsigned int uidvld = st_resp->code->arg.copyuid.uidvld;
     const ie_seq_set_t *src_uids_up = st_resp->code->arg.copyuid.uids_in;
     const ie_seq_set_t *dst_uids_up = st_resp->code->arg.copyuid.uids_out;
 
-    imaildir_t *hold_m;
-    dirmgr_hold_get_imaildir(relay->hold, &hold_m);
+    PROP(&e, dirmgr_hold_get_imaildir(relay->hold, &hold_m) );
 
     if(uidvld != imaildir_get_uidvld_up(hold_m)){
         LOG_WARN("detected COPY with mismatched UIDVALIDITY\n");
-- 
2.43.0


From 035d57c8f33b0fcb40414b1b0865d4e290412458 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:56:55 +0000
Subject: [PATCH 040/130] fix: do not send EXPUNGE for a message which was
 never announced

---
 libimaildir/dn.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 9c52eeb..2dcbe36 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -2348,11 +2348,20 @@ static derr_t gather_send_responses(
     for(; node; node = jsw_atnext(&trav)){
         gathered_t *gathered = CONTAINER_OF(node, gathered_t, node);
 
-        node = jsw_aerase(&gather->news, &gathered->uid_dn);
-        if(node) gathered_free(CONTAINER_OF(node, gathered_t, node));
-
         node = jsw_aerase(&gather->metas, &gathered->uid_dn);
         if(node) gathered_free(CONTAINER_OF(node, gathered_t, node));
+
+        node = jsw_aerase(&gather->news, &gathered->uid_dn);
+        if(!node) continue;
+        gathered_free(CONTAINER_OF(node, gathered_t, node));
+
+        /* the client was never told that this message exists, so it must not
+           be told about the EXPUNGE either; just discard the view */
+        node = jsw_aerase(&dn->views, &gathered->uid_dn);
+        if(node){
+            msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
+            msg_view_free(&view);
+        }
     }
 
     // step 2: any new messages don't get FETCHes
@@ -2397,7 +2406,8 @@ static derr_t gather_send_responses(
         // find our view of this uid_dn
         size_t index;
         jsw_anode_t *node = jsw_afind(&dn->views, &gathered->uid_dn, &index);
-        if(!node) ORIG_GO(&e, E_INTERNAL, "missing uid_dn", cu);
+        // messages which were never announced are already gone
+        if(!node) continue;
 
         // just remove and delete the view
         msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
-- 
2.43.0


From dbef414094209721182e64dee2e117a30d633389 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:01:36 +0000
Subject: [PATCH 041/130] fix: finish a reselect before reporting it to the
 imaildir

---
 libimaildir/up.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index bb7c1eb..abb3394 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -408,9 +408,11 @@ static derr_t reselect_done(imap_cmd_cb_t *cb, const ie_st_resp_t *st_resp){
 
     // non-initial sync complete
     // TODO: wait for a SEARCH RECENT as well, if necessary
-    PROP(&e, imaildir_up_synced(up->m, up, up->reselect.examine) );
-
+    /* this reselect must be done before we tell the imaildir_t, who may respond
+       by sending relays or by asking for another reselect right away */
+    bool examine = up->reselect.examine;
     up_free_reselect(up);
+    PROP(&e, imaildir_up_synced(up->m, up, examine) );
 
     return e;
 }
-- 
2.43.0


From c79facf06e148178fcd94b20d026edf00fa9629b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 042/130] fix: remember relays which were waiting for a sync as
 sent

---
 libimaildir/imaildir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index c0743e1..370f47f 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -1357,7 +1357,7 @@ derr_t imaildir_up_synced(imaildir_t *m, up_t *up, bool examining){
     imap_cmd_t *cmd = NULL;
     link_t *link;
     while((link = link_list_pop_first(&m->relays_unsent))){
-        link_list_append_list(&m->relays_sent, link);
+        link_list_append(&m->relays_sent, link);
 
         relay_t *relay = CONTAINER_OF(link, relay_t, link);
         cmd = imap_cmd_copy(&e, relay->cmd);
-- 
2.43.0


From 9bb26f6549cb068cec978fd770cecc54339e9e25 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:02:19 +0000
Subject: [PATCH 043/130] fix: do not expunge on CLOSE of an EXAMINE'd mailbox

---
 libimaildir/dn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 2dcbe36..b438e61 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -2068,7 +2068,8 @@ fail:
 static derr_t disconnect_begin(dn_t *dn, bool expunge, bool *ok){
     derr_t e = E_OK;
 
-    if(!expunge){
+    // CLOSE never removes messages from an EXAMINE'd mailbox
+    if(!expunge || dn->examine){
         /* since the server_t is not allowed to process commands while it is
            waiting for the dn_t to respond to a command, there's no additional
            need to synchronize at this point */
-- 
2.43.0


From 77fa8f1035de46ce2c10dfd7ed79da72fa7dfd00 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:02:19 +0000
Subject: [PATCH 044/130] fix: do not set \Seen in an EXAMINE'd mailbox

---
 libimaildir/dn.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index b438e61..3175548 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1546,8 +1546,9 @@ static derr_t fetch_begin(
     }
 
     /* some FETCH commands can't cause any \Seen flags to get set, while
-       other FETCH commands don't happen to affect any unseen messages */
-    bool ispeek = fetch_is_peek_only(dn->fetch.cmd);
+       other FETCH commands don't happen to affect any unseen messages, and
+       EXAMINE'd mailboxes must not be modified at all */
+    bool ispeek = dn->examine || fetch_is_peek_only(dn->fetch.cmd);
     msg_key_list_t *nonpeeks = NULL;
     if(!ispeek){
         PROP(&e, nonpeek_msgs(dn, dn->fetch.uids_dn, &nonpeeks) );
-- 
2.43.0


From bb7919392c91b657d89065beae3bc1cfa83c7df4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:04:47 +0000
Subject: [PATCH 045/130] fix: a failing imaildir also notifies accessors which
 are still selecting

---
 libimaildir/imaildir.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 370f47f..9b90560 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -225,6 +225,10 @@ static void do_fail(imaildir_t *m){
         dn_t *dn = CONTAINER_OF(link, dn_t, link);
         dn_imaildir_failed(dn);
     }
+    while((link = link_list_pop_first(&m->predns)) != NULL){
+        dn_t *dn = CONTAINER_OF(link, dn_t, link);
+        dn_imaildir_failed(dn);
+    }
 }
 
 /* imaildir_maybe_fail detects errors and broadcasts to all accessors.  Each
-- 
2.43.0


From 98819aac7f89f422bb99bdf8bfa2f579a9c4c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:07:00 +0000
Subject: [PATCH 046/130] fix: bootstrap any mailbox which was never completely
 synced

---
 libimaildir/up.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index abb3394..edcc162 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -314,6 +314,11 @@ static derr_t select_done(imap_cmd_cb_t *cb, const ie_st_resp_t *st_resp){
     // SELECT succeeded
     up->select.done = true;
 
+    /* if we have never committed a himodseq, our SELECT had no QRESYNC and we
+       can't rely on knowing about any messages which already exist, even if
+       the UIDVALIDITY is already known */
+    if(!up->select.himodseq_up) up->bootstrap.needed = true;
+
     /* we can ignore any detections we thought we needed to send since the
        SELECT (QRESYNC ...) command will always give us new messages */
     if(!up->detect.inflight) up->detect.chgsince = 0;
@@ -406,6 +411,9 @@ static derr_t reselect_done(imap_cmd_cb_t *cb, const ie_st_resp_t *st_resp){
     if(!up->detect.inflight) up->detect.chgsince = 0;
     up->detect.repeat = false;
 
+    // a re-SELECT without QRESYNC needs a bootstrap, just like the initial SELECT
+    if(!up->reselect.himodseq_up) up->bootstrap.needed = true;
+
     // non-initial sync complete
     // TODO: wait for a SEARCH RECENT as well, if necessary
     /* this reselect must be done before we tell the imaildir_t, who may respond
-- 
2.43.0


From 309b7039e192fd05e41dc7505b8865ff2f0e37da Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:11:47 +0000
Subject: [PATCH 047/130] fix: report the first unseen message, not only
 message 1

---
 libimaildir/dn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 3175548..e7490ae 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -454,7 +454,7 @@ static derr_t send_unseen_resp(dn_t *dn, link_t *out){
     unsigned int seq = 1;
     jsw_atrav_t trav;
     jsw_anode_t *node = jsw_atfirst(&trav, &dn->views);
-    for(; node != NULL; seq++, node = jsw_atprev(&trav)){
+    for(; node != NULL; seq++, node = jsw_atnext(&trav)){
         msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
         if(view->flags.seen) continue;
 
@@ -472,6 +472,7 @@ static derr_t send_unseen_resp(dn_t *dn, link_t *out){
         CHECK(&e);
 
         link_list_append(out, &resp->link);
+        break;
     }
 
     // if no messages were unseen, don't report anything
-- 
2.43.0


From 48ac775a7b24178ad82da1ff333228e3cf878b3b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:11:47 +0000
Subject: [PATCH 048/130] fix: a SEARCH of an empty mailbox gets a tagged
 response

---
 libimaildir/dn.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index e7490ae..511fbf0 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -760,18 +760,16 @@ derr_t dn_search(
 
     PROP(&e, healthcheck(dn) );
 
-    // handle the empty maildir case
-    if(dn->views.size == 0){
-        PROP(&e, send_search_resp(dn, NULL, out) );
-        return e;
-    }
+    ie_nums_t *nums = NULL;
 
-    // now figure out some constants to do the search
-    unsigned int seq_max;
-    PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
+    // nothing can match in an empty maildir
+    if(dn->views.size > 0){
+        // now figure out some constants to do the search
+        unsigned int seq_max;
+        PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
 
-    ie_nums_t *nums = NULL;
-    PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+        PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+    }
 
     link_t temp = {0};
 
-- 
2.43.0


From ab8b1a8c48d58d000fddd18f7fdc521c675d3073 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:11:47 +0000
Subject: [PATCH 049/130] fix: do not drop errors of starting a STORE

---
 libimaildir/dn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 511fbf0..907580b 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1097,7 +1097,7 @@ derr_t dn_store(
     PROP(&e, healthcheck(dn) );
 
     if(!dn->store.started){
-        store_begin(dn, tagp, store, out, ok);
+        PROP(&e, store_begin(dn, tagp, store, out, ok) );
         return e;
     }
 
-- 
2.43.0


From fe72c0f81dd265ea4bf1f74c2d0f017fea157911 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:19:58 +0000
Subject: [PATCH 050/130] fix: a COPY which waits for a sync does not prevent
 that sync

---
 libimaildir/imaildir.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 9b90560..e2bc066 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -82,6 +82,21 @@ static void relay_free(relay_t *relay){
 }
 
 
+/* A COPY relay holds its destination, but only while it is in flight.  A relay
+   which waits for a sync must not hold anything, since holds prevent downloads
+   and syncs wait for downloads. */
+static derr_t relay_start_hold(relay_t *relay){
+    derr_t e = E_OK;
+
+    if(relay->cmd->type != IMAP_CMD_COPY) return e;
+
+    imaildir_cb_i *cb = relay->m->cb;
+    const dstr_t *name = ie_mailbox_name(relay->cmd->arg.copy->m);
+    PROP(&e, cb->dirmgr_hold_new(cb, name, &relay->hold) );
+
+    return e;
+}
+
 // imaildir_cb_t will alert the imaildir_t if/when the command completes
 typedef struct {
     // remember the relay_t we correspond to
@@ -727,6 +742,8 @@ static derr_t maybe_send_relay(imaildir_t *m, relay_t *relay){
         );
     }
 
+    PROP_GO(&e, relay_start_hold(relay), fail);
+
     cmd_copy = imap_cmd_copy(&e, relay->cmd);
     CHECK_GO(&e, fail);
 
@@ -804,6 +821,11 @@ static size_t eject_up(imaildir_t *m, up_t *up){
             link_remove(&relay->link);
             relay_free(relay);
         }
+        // nothing is in flight anymore
+        LINK_FOR_EACH(relay, &m->relays_sent, relay_t, link){
+            dirmgr_hold_free(relay->hold);
+            relay->hold = NULL;
+        }
         // all remaining relays go to unsent
         link_list_prepend_list(&m->relays_unsent, &m->relays_sent);
     }
@@ -1364,6 +1386,8 @@ derr_t imaildir_up_synced(imaildir_t *m, up_t *up, bool examining){
         link_list_append(&m->relays_sent, link);
 
         relay_t *relay = CONTAINER_OF(link, relay_t, link);
+        PROP_GO(&e, relay_start_hold(relay), fail);
+
         cmd = imap_cmd_copy(&e, relay->cmd);
         CHECK_GO(&e, fail);
 
@@ -2167,13 +2191,6 @@ static derr_t relay_update_req_copy(imaildir_t *m, update_req_t *req){
     relay_t *relay = relay_new(&e, m, cmd, requester);
     CHECK(&e);
 
-    // take a dirmgr_hold_t on the mailbox in question
-    PROP_GO(&e,
-        m->cb->dirmgr_hold_new(
-            m->cb, ie_mailbox_name(arg.copy->m), &relay->hold
-        ),
-    fail_relay);
-
     // steal the local keys we need to copy after the relay command finishes
     relay->locals = STEAL(msg_key_list_t, &req->val.msg_copy->keys);
 
@@ -2183,10 +2200,6 @@ static derr_t relay_update_req_copy(imaildir_t *m, update_req_t *req){
     PROP(&e, maybe_send_relay(m, relay) );
 
     return e;
-
-fail_relay:
-    relay_free(relay);
-    return e;
 }
 
 
-- 
2.43.0


From 09f172ed13b1e10580356fbcd90e8223a03991c7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 051/130] fix: do not add a message whose expunge was seen
 before the response to its APPEND or COPY

---
 libimaildir/imaildir.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index e2bc066..d234a36 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -1425,6 +1425,11 @@ static derr_t delete_msg(imaildir_t *m, msg_key_t key){
     if(!expunge && !msg){
         /* ignore deletions for messages we never had in the first place, which
            is especially common for VANISHED responses during initial syncs */
+        if(!key.uid_up || m->cb->allow_download(m->cb, m)) return e;
+        /* but during a hold, this message may be one we are about to add to
+           this mailbox, when we see the response to an APPEND or COPY */
+        PROP(&e, msg_expunge_new(&expunge, key, 0, MSG_EXPUNGE_PUSHED, 0) );
+        jsw_ainsert(&m->expunged, &expunge->node);
         return e;
     }
 
@@ -2345,6 +2350,14 @@ derr_t imaildir_add_local_file(
     // build an appropriate message key
     msg_key_t key = uid_up > 0 ? KEY_UP(uid_up) : KEY_LOCAL(next_uid_local(m));
 
+    // the up_t may even have seen that this message is already expunged
+    if(jsw_afind(&m->expunged, &key, NULL)){
+        LOG_INFO("not adding a message which is already expunged\n");
+        DROP_CMD( remove_path(path) );
+        if(uid_dn_out != NULL) *uid_dn_out = 0;
+        return e;
+    }
+
     /* there is a *very* remote possibility that the up_t has already received
        a flag update for this message, before we even ended the hold, in which
        case the existing flags are newer than the ones we set in APPEND */
-- 
2.43.0


From 118273743a56e3807cdf36dc0e4faf37de351f27 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:34:43 +0000
Subject: [PATCH 052/130] fix: start the key sync of a user at once, not at the
 second login

---
 libcitm/user.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcitm/user.c b/libcitm/user.c
index 6526c8d..900f6d9 100644
--- a/libcitm/user.c
+++ b/libcitm/user.c
@@ -309,6 +309,9 @@ derr_t user_new(
     hash_elem_t *old = hashmap_sets(out, &u->user, &u->elem);
     if(old) LOG_FATAL("user_new found existing user %x\n", FD_DBG(u->user));
 
+    // start the xkeysync right away, not only after some later event
+    schedule(u);
+
     return e;
 
 fail:
-- 
2.43.0


From b48f8c89b3641d853097db604b3efe2151f0de02 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:36:20 +0000
Subject: [PATCH 053/130] fix: a client which logs in while its user shuts down
 waits for the next user

---
 libcitm/user.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/user.c b/libcitm/user.c
index 900f6d9..ffb3c02 100644
--- a/libcitm/user.c
+++ b/libcitm/user.c
@@ -333,7 +333,7 @@ derr_t user_add_pair(
     user_t *u = CONTAINER_OF(elem, user_t, elem);
 
     // detect late server/client pairs
-    if(u->done){
+    if(closing(u) || is_error(u->e)){
         *ok = false;
         return e;
     }
-- 
2.43.0


From 5116feceb6ebd02ab9fb02a2e29517ae3fa81b42 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:39:54 +0000
Subject: [PATCH 054/130] fix: late logins of a shut down user do not abort
 citm

---
 libcitm/citm.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libcitm/citm.c b/libcitm/citm.c
index 4b5b81a..1057f14 100644
--- a/libcitm/citm.c
+++ b/libcitm/citm.c
@@ -261,6 +261,8 @@ static void citm_user_cb(void *data, const dstr_t *constuser){
     dstr_t user = {0};
     dstr_t pass = {0};
     keydir_i *kd = NULL;
+    imap_server_t *s = NULL;
+    imap_client_t *c = NULL;
 
     bool ok = hold_pop(
         &citm->holds, constuser, &servers, &clients, &user, &pass
@@ -269,6 +271,10 @@ static void citm_user_cb(void *data, const dstr_t *constuser){
 
     PROP_GO(&e, keydir_new(&citm->root, user, &kd), fail);
 
+    // preuser_new puts the first server and client in lists of its own
+    s = CONTAINER_OF(link_list_pop_first(&servers), imap_server_t, link);
+    c = CONTAINER_OF(link_list_pop_first(&clients), imap_client_t, link);
+
     PROP_GO(&e,
         preuser_new(
             citm->scheduler,
@@ -276,18 +282,14 @@ static void citm_user_cb(void *data, const dstr_t *constuser){
             user,
             pass,
             kd,
-            CONTAINER_OF(servers.next, imap_server_t, link),
-            CONTAINER_OF(clients.next, imap_client_t, link),
+            s,
+            c,
             citm_preuser_cb,
             citm,
             &citm->preusers
         ),
     fail);
 
-    // consumed first server and client
-    (void)link_list_pop_first(&servers);
-    (void)link_list_pop_first(&clients);
-
     // get the elem if preuser_new succeeded
     hash_elem_t *elem = hashmap_gets(&citm->preusers, &user);
     if(!elem) LOG_FATAL("unable to find newly created preuser\n");
@@ -309,6 +311,8 @@ fail:
     dstr_free(&user);
     dstr_free0(&pass);
     if(kd) kd->free(kd);
+    citm_close_server(citm, s);
+    citm_close_client(citm, c);
     citm_close_server_list(citm, &servers);
     citm_close_client_list(citm, &clients);
     return;
-- 
2.43.0


From 992fbae56d6012e7eeb1aa175cb47867d13c906d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:39:54 +0000
Subject: [PATCH 055/130] fix: a popped hold leaves its hashmap before it is
 freed

---
 libcitm/citm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcitm/citm.c b/libcitm/citm.c
index 1057f14..a43d49c 100644
--- a/libcitm/citm.c
+++ b/libcitm/citm.c
@@ -177,6 +177,7 @@ static bool hold_pop(
     link_list_append_list(clients, &hold->clients);
     *user = hold->user;
     *pass = hold->pass;
+    hash_elem_remove(&hold->elem);
     free(hold);
     return true;
 }
-- 
2.43.0


From ef4b4d6561bffde464ade1f73f09b3456f9fb540 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:41:11 +0000
Subject: [PATCH 056/130] fix: cancel the client half of held connection pairs
 at shutdown

---
 libcitm/citm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/citm.c b/libcitm/citm.c
index a43d49c..43144a7 100644
--- a/libcitm/citm.c
+++ b/libcitm/citm.c
@@ -157,7 +157,7 @@ static void hold_cancel(citm_t *citm, hash_elem_t *elem){
     dstr_free(&hold->user);
     dstr_free0(&hold->pass);
     citm_close_server_list(citm, &hold->servers);
-    citm_close_client_list(citm, &hold->servers);
+    citm_close_client_list(citm, &hold->clients);
     free(hold);
 }
 
-- 
2.43.0


From bedd8a9b2068b6d869789663288cd4247ae98bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:47:39 +0000
Subject: [PATCH 057/130] fix: IDLE is allowed when no mailbox is selected

---
 libcitm/sc.c | 26 +++++++++++++++++++-------
 libcitm/sc.h |  3 +++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 2889c45..5cf130b 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -939,15 +939,26 @@ static derr_t handle_cmd(sc_t *sc, bool *ok){
             PROP(&e, dn_search(&sc->dn, tagp, arg->search, out) );
             break;
         case IMAP_CMD_IDLE:
-            PROP(&e, require_selected(sc, tagp, &valid) );
-            if(!valid) break;
-            PROP(&e, dn_idle(&sc->dn, tagp, out) );
+            /* IDLE is also allowed when no mailbox is selected, and the parser
+               is going to demand a DONE in any case */
+            if(sc->selected_mailbox){
+                PROP(&e, dn_idle(&sc->dn, tagp, out) );
+            }else{
+                sc->idle_tag = STEAL(ie_dstr_t, tagp);
+                ie_dstr_t *text = NULL;
+                PROP(&e, respond_plus(out, &text) );
+            }
             sc->idle = true;
             break;
         case IMAP_CMD_IDLE_DONE:
-            PROP(&e, require_selected(sc, tagp, &valid) );
-            if(!valid) break;
-            PROP(&e, dn_idle_done(&sc->dn, arg->idle_done, out) );
+            if(!sc->idle_tag){
+                PROP(&e, dn_idle_done(&sc->dn, arg->idle_done, out) );
+            }else if(arg->idle_done){
+                // syntax error mid-IDLE
+                PROP(&e, respond_error(&sc->idle_tag, &arg->idle_done, out) );
+            }else{
+                PROP(&e, respond_noop(&sc->idle_tag, out) );
+            }
             sc->idle = false;
             break;
 
@@ -980,7 +991,7 @@ static derr_t advance_server(sc_t *sc){
     bool ok = advance_reads_dn(sc);
     if(!ok){
         // if we didn't read any command but we are in IDLE, check for updates
-        if(sc->idle){
+        if(sc->idle && sc->dn_active){
             // true = always allow expunges, false = there is no uid mode
             PROP(&e,
                 dn_gather_updates(&sc->dn, true, false, NULL, &sc->resps)
@@ -1361,6 +1372,7 @@ void sc_free(sc_t *sc){
     imap_server_free(&sc->s);
     imap_client_free(&sc->c);
     ie_mailbox_free(sc->selected_mailbox);
+    ie_dstr_free(sc->idle_tag);
     dirmgr_freeze_free(sc->freeze_deleting);
     dirmgr_freeze_free(sc->freeze_rename_src);
     dirmgr_freeze_free(sc->freeze_rename_dst);
diff --git a/libcitm/sc.h b/libcitm/sc.h
index 73ff66b..3c821c9 100644
--- a/libcitm/sc.h
+++ b/libcitm/sc.h
@@ -28,6 +28,9 @@ struct sc_t {
        specifically, so we don't try to open a dirmgr_freeze_t on it) */
     ie_mailbox_t *selected_mailbox;
 
+    // the tag of an IDLE without a selected mailbox
+    ie_dstr_t *idle_tag;
+
     // freezes we might have
     dirmgr_freeze_t *freeze_deleting;
     dirmgr_freeze_t *freeze_rename_src;
-- 
2.43.0


From be28e02f6bd3d6f40cf6c72361c05769c0b91bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 058/130] fix: a client which fails while it is told about a
 broken upstream does not abort citm

---
 libcitm/imap_server.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcitm/imap_server.c b/libcitm/imap_server.c
index d42712e..1e78892 100644
--- a/libcitm/imap_server.c
+++ b/libcitm/imap_server.c
@@ -377,6 +377,9 @@ static void advance_state(imap_server_t *s){
 
     if(is_error(s->e) || s->canceled) goto cu;
 
+    // nothing more can be written after the stream has failed
+    if(s->stream->awaited) goto cu;
+
     // LOGOUT codepath
     if(s->logged_out){
         // wait for our response to be written
-- 
2.43.0


From eba204ee8fd505103067ab71198850d003ffaa2f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:15:36 +0000
Subject: [PATCH 059/130] fix: detect used UIDs before recovering unlogged
 message files

---
 libimaildir/imaildir.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index d234a36..2976405 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -514,14 +514,7 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         )
     );
 
-    if(read_files){
-        // populate messages by reading files
-        PROP(&e, populate_msgs(m) );
-
-        PROP(&e, imaildir_print_msgs(m) );
-    }
-
-    // detect all of the uid_dn's and uid_local's
+    // detect all of the uid_dn's and uid_local's, before assigning new ones
     jsw_atrav_t trav;
     jsw_anode_t *node = jsw_atfirst(&trav, &m->msgs);
     for(; node != NULL; node = jsw_atnext(&trav)){
@@ -537,6 +530,13 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         detect_hi_uid_local(m, expunge->key.uid_local);
     }
 
+    if(read_files){
+        // populate messages by reading files
+        PROP(&e, populate_msgs(m) );
+
+        PROP(&e, imaildir_print_msgs(m) );
+    }
+
     return e;
 }
 
-- 
2.43.0


From fde49d41b4f7359b820e7cb63d40df909ca3175a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:15:36 +0000
Subject: [PATCH 060/130] fix: log the INTERNALDATE before a downloaded message
 file is in place

---
 libimaildir/imaildir.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 2976405..cc52973 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -1271,6 +1271,9 @@ static derr_t _imaildir_up_handle_static_fetch_attr(
         msg->state = MSG_NOT4ME;
         PROP(&e, m->log->update_msg(m->log, msg) );
     }else{
+        /* save the internaldate before the file is in place, since it is not
+           part of the file and we may crash before finalizing the message */
+        PROP(&e, m->log->update_msg(m->log, msg) );
         // keep the file contents
         PROP(&e, handle_new_msg_file(m, &tmp_path, msg, len) );
         // complete the message and persist its state
-- 
2.43.0


From c1c652a9dfcae1ffd05c0fa2f2a94ae412b9c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:15:36 +0000
Subject: [PATCH 061/130] fix: HEADER.FIELDS.NOT of a part which is not a
 message is missing

---
 libimaildir/dn.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 907580b..46f0f0f 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1230,6 +1230,7 @@ static bool build_sect_txt_content_resp(
             break;
 
         case IE_SECT_HDR_FLDS_NOT:
+            if(!imf) return true;
             // just the headers of the message
             *content_resp_out = imf_copy_hdr_fields_not(
                 e, imf, sect_txt->headers
-- 
2.43.0


From 4963ffce30ba022f8c3ef2d32e03b12f83571a79 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:15:36 +0000
Subject: [PATCH 062/130] fix: report Content-Description in BODY and
 BODYSTRUCTURE

---
 libimap/imf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 8f0cb16..917c4a7 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -687,7 +687,7 @@ derr_t read_bodystruct_info(
     DSTR_STATIC(d_version, "mime-version");
     DSTR_STATIC(d_content_type, "content-type");
     DSTR_STATIC(d_content_id, "content-id");
-    DSTR_STATIC(d_description, "contentmdescription");
+    DSTR_STATIC(d_description, "content-description");
     DSTR_STATIC(d_content_transfer_encoding, "content-transfer-encoding");
     DSTR_STATIC(d_md5, "content-md5");
     DSTR_STATIC(d_disposition, "content-disposition");
-- 
2.43.0


From 4ed2cbd12c21a641f0535f7eff45b3b9803b5822 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:16:24 +0000
Subject: [PATCH 063/130] fix: a message whose body is a message only has a
 part 1

---
 libimap/imf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libimap/imf.c b/libimap/imf.c
index 917c4a7..ba612a0 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -1035,6 +1035,12 @@ bool imf_get_submessage(
                 }
                 break;
             }
+
+            // likewise, any body which is not a multipart only has a part 1
+            if(!ismultipart && sect_part->n != 1){
+                missing = true;
+                break;
+            }
         }
 
         /* note: if the message/rfc822 code ran, we're now operating on the
-- 
2.43.0


From 082c4e439cd7c943ced719a52665fc1d2d02bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 064/130] fix: a partial fetch does not free the message which
 other items still use

---
 libimaildir/dn.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 46f0f0f..9c5ff3c 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -92,11 +92,25 @@ static void _loader_read_all(derr_t *e, loader_t *loader){
 //     return NULL;
 // }
 
+// get a copy of the content
+static ie_dstr_t *loader_copy_content(derr_t *e, loader_t *loader){
+    if(is_error(*e)) goto fail;
+
+    _loader_read_all(e, loader);
+    CHECK_GO(e, fail);
+
+    return ie_dstr_copy(e, loader->content);
+
+fail:
+    return NULL;
+}
+
 // take ownership of the content (or a copy if the original is spoken for)
 static ie_dstr_t *loader_take_content(derr_t *e, loader_t *loader){
     if(is_error(*e)) goto fail;
 
     _loader_read_all(e, loader);
+    CHECK_GO(e, fail);
 
     if(loader->taken){
         return ie_dstr_copy(e, loader->content);
@@ -1257,7 +1271,13 @@ static ie_fetch_resp_t *build_fetch_resp_extra(
     ie_sect_t *sect = extra->sect;
     if(!sect){
         // BODY[] by itself
-        content_resp = loader_take_content(e, loader);
+        if(extra->partial){
+            // the whole content is freed below, so don't free the loader's
+            content_resp = loader_copy_content(e, loader);
+        }else{
+            content_resp = loader_take_content(e, loader);
+        }
+        CHECK_GO(e, fail);
 
     /* optimization clause: detect cases where we don't have to read the
        whole message at all.  These cases meet the following criteria:
-- 
2.43.0


From 0bfd753fa553e51a7d518e4b3a1de19c90ae3648 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 065/130] fix: ENVELOPE sender defaults to every mailbox of
 From

---
 libimap/imf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index ba612a0..5f101f1 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -530,7 +530,8 @@ ie_envelope_t *read_envelope_info(derr_t *e, const imf_hdrs_t *hdrs){
     }
 
     // defaulting step: sender and reply-to fields default to from field
-    if(!sender_field.len) sender_field = from_field;
+    bool sender_is_from = !sender_field.len;
+    if(sender_is_from) sender_field = from_field;
     if(!reply_to_field.len) reply_to_field = from_field;
 
     // second pass: parse each header
@@ -555,7 +556,12 @@ ie_envelope_t *read_envelope_info(derr_t *e, const imf_hdrs_t *hdrs){
     imf_parse_or_nil(e, date, "Date", imf_parse_unstruct_field);
     imf_parse_or_nil(e, subj, "Subject", imf_parse_subj_field);
     imf_parse_or_nil(e, from, "From", imf_parse_from_field);
-    imf_parse_or_nil(e, sender, "Sender", imf_parse_sender_field);
+    if(sender_is_from){
+        // unlike Sender, From may have multiple mailboxes
+        imf_parse_or_nil(e, sender, "From", imf_parse_from_field);
+    }else{
+        imf_parse_or_nil(e, sender, "Sender", imf_parse_sender_field);
+    }
     imf_parse_or_nil(e, reply_to, "Reply-To", imf_parse_reply_to_field);
     imf_parse_or_nil(e, to, "To", imf_parse_to_field);
     imf_parse_or_nil(e, cc, "Cc", imf_parse_cc_field);
-- 
2.43.0


From 0db4c4ea4678908527cfe779132dd00188b2375f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 066/130] fix: RFC822.TEXT of an unreadable message is an
 error, not a crash

---
 libimaildir/dn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 9c5ff3c..e0137ff 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1449,8 +1449,10 @@ static derr_t send_fetch_resp(
 
     if(fetch->attr->rfc822_text){
         const imf_t *imf = loader_parse_imf(&e, &loader);
-        ie_dstr_t *body = ie_dstr_from_off(&e, imf->body);
-        f = ie_fetch_resp_rfc822_text(&e, f, body);
+        if(!is_error(e)){
+            ie_dstr_t *body = ie_dstr_from_off(&e, imf->body);
+            f = ie_fetch_resp_rfc822_text(&e, f, body);
+        }
     }
 
     if(fetch->attr->rfc822_size){
-- 
2.43.0


From 74fb8377755947973832d0a73bd9d957f58519a3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 067/130] fix: any missing part of a FETCH is reported, not
 only the last

---
 libimaildir/dn.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index e0137ff..efaaa8b 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1265,7 +1265,6 @@ static ie_fetch_resp_t *build_fetch_resp_extra(
 ){
     ie_dstr_t *content_resp = NULL;
 
-    *part_missing = false;
     if(is_error(*e)) goto fail;
 
     ie_sect_t *sect = extra->sect;
-- 
2.43.0


From 6aa8fbef28f45aa3a01c04856cc5b2fcce7efe59 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:17:44 +0000
Subject: [PATCH 068/130] fix: a failed BODYSTRUCTURE of a nested part neither
 frees garbage nor leaks

---
 libimap/imf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 5f101f1..9722bc5 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -1181,6 +1181,7 @@ static derr_t read_bodystructure(
     ie_body_t *msgbody = NULL;
 
     derr_t e = E_OK;
+    *body_out = NULL;
 
     PROP_GO(&e,
         read_bodystruct_info(
@@ -1198,7 +1199,6 @@ static derr_t read_bodystructure(
 
     if(content_type->type == MIME_TYPE_MULTIPART){
         // read the bodystructure for all parts of this message
-        ie_body_t *parts = NULL;
         size_t skip = 0;
 
         // multipart/digest changes the deault Content-Type
-- 
2.43.0


From 3eb8d48fe5d7ff4e5fac4ecbdfb9ac3c8208859c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:18:09 +0000
Subject: [PATCH 069/130] fix: parts whose headers do not parse are one big
 body, like messages

---
 libimap/imf.c | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 9722bc5..7ab5f23 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -434,6 +434,36 @@ derr_t imf_hdrs_parse_sub(const dstr_off_t bytes, imf_hdrs_t **out){
     return e;
 }
 
+/* like imf_hdrs_parse_sub(), but don't fail on headers you can't parse; assume
+   the whole part is one big body, as is done with whole messages */
+static derr_t imf_hdrs_parse_sub_soft(
+    const dstr_off_t bytes, imf_hdrs_t **out
+){
+    derr_t e = E_OK;
+
+    IF_PROP(&e, imf_hdrs_parse_sub(bytes, out) ){
+        // E_NOMEM is unfixable
+        if(e.type == E_NOMEM) return e;
+        DROP_VAR(&e);
+        dstr_off_t none = { .buf = bytes.buf, .start = bytes.start, .len = 0 };
+        *out = imf_hdrs_new(&e, none, none, NULL);
+        CHECK(&e);
+    }
+
+    return e;
+}
+
+// like imf_parse_sub(), but don't fail on headers you can't parse
+static derr_t imf_parse_sub_soft(const dstr_off_t bytes, imf_t **out){
+    derr_t e = E_OK;
+
+    imf_hdrs_t *hdrs;
+    PROP(&e, imf_hdrs_parse_sub_soft(bytes, &hdrs) );
+    PROP(&e, imf_parse_sub(bytes, &hdrs, out) );
+
+    return e;
+}
+
 // individual field handling
 #define DETECT_HDR(x) \
     if(x##_field.len == 0){ \
@@ -1094,7 +1124,7 @@ bool imf_get_submessage(
 
             // get the mime headers from the subpart
             imf_hdrs_free(mime_hdrs);
-            PROP_GO(e, imf_hdrs_parse_sub(bytes, &mime_hdrs), fail);
+            PROP_GO(e, imf_hdrs_parse_sub_soft(bytes, &mime_hdrs), fail);
 
             mime_content_type_free(content_type);
             if(isdigest){
@@ -1119,7 +1149,7 @@ bool imf_get_submessage(
 
         if(ismessage && isrfc822){
             // parse an imf-type message
-            PROP_GO(e, imf_parse_sub(bytes, NULL, &heap_imf), fail);
+            PROP_GO(e, imf_parse_sub_soft(bytes, &heap_imf), fail);
             imf = heap_imf;
         }
     }
@@ -1218,7 +1248,7 @@ static derr_t read_bodystructure(
             if(missing) break;
 
             // parse the mime headers of this part
-            PROP_GO(&e, imf_hdrs_parse_sub(part_bytes, &part_hdrs), cu);
+            PROP_GO(&e, imf_hdrs_parse_sub_soft(part_bytes, &part_hdrs), cu);
 
             // the part body is the whole part without the headers
             dstr_off_t part_body_bytes = {
@@ -1309,7 +1339,7 @@ static derr_t read_bodystructure(
         && content_type->subtype == MIME_SUBTYPE_RFC822
     ){
         // first parse the imf message
-        PROP_GO(&e, imf_parse_sub(body_bytes, NULL, &imf), cu);
+        PROP_GO(&e, imf_parse_sub_soft(body_bytes, &imf), cu);
 
         // recurse into the body of the imf message
         PROP_GO(&e,
-- 
2.43.0


From 57f543164eb72f30c998af7462f94920f720d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:19:46 +0000
Subject: [PATCH 070/130] fix: limit the recursion into deeply nested message
 parts

---
 libimap/imf.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 7ab5f23..84dd74a 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -1189,7 +1189,11 @@ static size_t count_lines(dstr_t text){
     return nlines;
 }
 
+// limit our recursion, since an email may nest its parts as deep as it likes
+#define MAX_BODYSTRUCTURE_DEPTH 100
+
 static derr_t read_bodystructure(
+    size_t depth,
     const imf_hdrs_t *hdrs,
     const dstr_off_t body_bytes,
     const dstr_t default_type,
@@ -1227,6 +1231,22 @@ static derr_t read_bodystructure(
         ),
     cu);
 
+    if(depth > MAX_BODYSTRUCTURE_DEPTH){
+        bool ismessage = content_type->type == MIME_TYPE_MESSAGE;
+        bool isrfc822 = content_type->subtype == MIME_SUBTYPE_RFC822;
+        bool ismultipart = content_type->type == MIME_TYPE_MULTIPART;
+        if(ismultipart || (ismessage && isrfc822)){
+            // don't descend any further, treat it as opaque data
+            mime_content_type_free(content_type);
+            content_type = mime_content_type_new(&e,
+                ie_dstr_new2(&e, DSTR_LIT("application")),
+                ie_dstr_new2(&e, DSTR_LIT("octet-stream")),
+                NULL
+            );
+            CHECK_GO(&e, cu);
+        }
+    }
+
     if(content_type->type == MIME_TYPE_MULTIPART){
         // read the bodystructure for all parts of this message
         size_t skip = 0;
@@ -1261,6 +1281,7 @@ static derr_t read_bodystructure(
             ie_body_t *new_part;
             // delay error handling until ie_body_add
             e = read_bodystructure(
+                depth + 1,
                 part_hdrs,
                 part_body_bytes,
                 default_part_type,
@@ -1344,7 +1365,7 @@ static derr_t read_bodystructure(
         // recurse into the body of the imf message
         PROP_GO(&e,
             read_bodystructure(
-                imf->hdrs, imf->body, D_TEXT, D_PLAIN, &msgbody
+                depth + 1, imf->hdrs, imf->body, D_TEXT, D_PLAIN, &msgbody
             ),
         cu);
 
@@ -1417,7 +1438,7 @@ ie_body_t *imf_bodystructure(derr_t *e, const imf_t *root_imf){
 
     PROP_GO(e,
         read_bodystructure(
-            root_imf->hdrs, root_imf->body, D_TEXT, D_PLAIN, &body
+            0, root_imf->hdrs, root_imf->body, D_TEXT, D_PLAIN, &body
         ),
     fail);
 
-- 
2.43.0


From 5cba6552ff7990ac2538a95798853d032e9ce93d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:50:41 +0000
Subject: [PATCH 071/130] fix: searching for the empty string does not hang

---
 libdstr/common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index e51b9e9..6564245 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -467,7 +467,8 @@ static size_t do_dstr_count2(
             count++;
             // no need to search anymore until end of current pattern
             // (compensating for the fact that the loop adds 1 to i)
-            i += pattern.len - 1;
+            // (the empty pattern matches everywhere, but must not loop forever)
+            if(pattern.len) i += pattern.len - 1;
         }
     }
     return count;
-- 
2.43.0


From 1be148dbb84328d6975b80c7c083225a8b4d4bde Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:50:41 +0000
Subject: [PATCH 072/130] fix: SEARCH of a header looks at every header of that
 name

---
 libimaildir/search.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libimaildir/search.c b/libimaildir/search.c
index 6e6f9c7..70c3996 100644
--- a/libimaildir/search.c
+++ b/libimaildir/search.c
@@ -67,11 +67,22 @@ static derr_t search_headers(
     derr_t e = E_OK;
     *out = false;
 
-    dstr_t hvalue;
-    PROP(&e, find_header(args, name, &hvalue) );
-    if(!hvalue.data) return e;
+    const imf_hdrs_t *hdrs;
+    IF_PROP(&e, args->get_hdrs(args->get_hdrs_data, &hdrs) ){
+        TRACE(&e, "failed to parse message for header SEARCH\n");
+        DUMP(e);
+        DROP_VAR(&e);
+        return e;
+    }
 
-    if(dstr_icount2(hvalue, value) > 0) *out = true;
+    // there may be several headers of this name, any of which might match
+    for(const imf_hdr_t *hdr = hdrs->hdr; hdr; hdr = hdr->next){
+        if(dstr_icmp2(dstr_from_off(hdr->name), name) != 0) continue;
+        if(dstr_icount2(dstr_from_off(hdr->value), value) > 0){
+            *out = true;
+            return e;
+        }
+    }
 
     return e;
 }
-- 
2.43.0


From 3f935decb95ad7e868e52b986e252da05376b28b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:11:33 +0000
Subject: [PATCH 073/130] fix: an HTTP header split across reads keeps all its
 bytes

---
 libweb/http.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libweb/http.c b/libweb/http.c
index f8c060a..2ee85f6 100644
--- a/libweb/http.c
+++ b/libweb/http.c
@@ -72,6 +72,9 @@ derr_t http_read(http_reader_t *r, http_pair_t *pair, int *state_out){
                 r->s = web_scanner(r->buf);
                 // any tokens we've built up are now invalid
                 web_parser_reset(&r->p);
+            }else{
+                // rescan the incomplete token after more bytes arrive
+                r->s.used = scanned.loc.start;
             }
             return e;
         }
-- 
2.43.0


From a86061ab74c1b9801aef3eec9e954b0400549619 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:11:46 +0000
Subject: [PATCH 074/130] fix: request parameters survive a full buffer

---
 libhttp/marshal.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libhttp/marshal.c b/libhttp/marshal.c
index ed484cb..2abe4bd 100644
--- a/libhttp/marshal.c
+++ b/libhttp/marshal.c
@@ -335,11 +335,7 @@ bool http_marshal_req(
     // every user param
     while(m->paramptr){
         skip_fill_t sf = { .out = buf, .skip = m->skip };
-        if(m->need_amp){
-            dstr_skip_fill(&sf, DSTR_LIT("&"));
-        }else{
-            m->need_amp = true;
-        }
+        if(m->need_amp) dstr_skip_fill(&sf, DSTR_LIT("&"));
         http_pair_t pair = m->paramptr->pair;
         url_encode_skip_fill(&sf, pair.key);
         dstr_skip_fill(&sf, DSTR_LIT("="));
@@ -348,6 +344,7 @@ bool http_marshal_req(
             m->skip = sf.passed;
             return false;
         }
+        m->need_amp = true;
         m->paramptr = m->paramptr->prev;
         m->skip = 0;
     }
-- 
2.43.0


From d7804b5c4066e8874d80874ea6b8a65c50b4be77 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:12:20 +0000
Subject: [PATCH 075/130] fix: an HTTP header may have an empty value

---
 libweb/web.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libweb/web.in b/libweb/web.in
index 7ca9dd4..1154735 100644
--- a/libweb/web.in
+++ b/libweb/web.in
@@ -341,7 +341,7 @@ empty = %empty;
 %root hdr_line;
 hdr_line:pair =
     (
-      | token:name COLON *ws field_content_ws:field CR LF
+      | token:name COLON *ws field_content_ws_0:field CR LF
         # a valid header
         {{ $$ = (http_pair_t){
                .key = dstr_from_off(@name),
@@ -359,7 +359,7 @@ hdr_line:pair =
 ;
 
 field_vchar = vchar | OBS_TEXT;
-field_content_ws = (vchar | OBS_TEXT) *(field_vchar|ws);
+field_content_ws_0 = [(vchar | OBS_TEXT) *(field_vchar|ws)];
 
 %root content_length_field;
 content_length_field = 1*DIGIT EOF;
-- 
2.43.0


From 0b37760f3fc43075b722ee639f502284a7a414a6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:12:38 +0000
Subject: [PATCH 076/130] fix: the fragment of a URL is not sent to the server

---
 libhttp/marshal.c | 21 +++++----------------
 libhttp/marshal.h |  2 +-
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/libhttp/marshal.c b/libhttp/marshal.c
index 2abe4bd..3b72ce2 100644
--- a/libhttp/marshal.c
+++ b/libhttp/marshal.c
@@ -236,15 +236,6 @@ static void params_skip_fill(
     *need_amp = url_params.len && url_params.data[url_params.len-1] != '&';
 }
 
-static void fragment_skip_fill(skip_fill_t *sf, url_t url){
-    dstr_t fragment = dstr_from_off(url.fragment);
-
-    if(fragment.len){
-        STATIC_SKIP_FILL("#");
-        dstr_skip_fill(sf, fragment);
-    }
-}
-
 static void request_method_url_skip_fill(
     skip_fill_t *sf,
     http_method_e method,
@@ -265,10 +256,8 @@ static void request_method_url_skip_fill(
     params_skip_fill(sf, url, more_params, need_amp);
 }
 
-static void request_fragment_version_skip_fill(
-    skip_fill_t *sf, url_t url
-){
-    fragment_skip_fill(sf, url);
+static void request_version_skip_fill(skip_fill_t *sf){
+    // note that the fragment of the url is never sent to the server
     STATIC_SKIP_FILL(" HTTP/1.1\r\n");
 }
 
@@ -350,14 +339,14 @@ bool http_marshal_req(
     }
 
     // request-line after params
-    if(!m->request_fragment_version){
+    if(!m->request_version){
         skip_fill_t sf = { .out = buf, .skip = m->skip };
-        request_fragment_version_skip_fill(&sf, m->url);
+        request_version_skip_fill(&sf);
         if(sf.want){
             m->skip = sf.passed;
             return false;
         }
-        m->request_fragment_version = true;
+        m->request_version = true;
         m->skip = 0;
     }
 
diff --git a/libhttp/marshal.h b/libhttp/marshal.h
index 6c05112..544e8f4 100644
--- a/libhttp/marshal.h
+++ b/libhttp/marshal.h
@@ -52,7 +52,7 @@ typedef struct {
     http_pairs_t *paramptr;
     bool need_amp;
     bool request_method_url : 1;
-    bool request_fragment_version : 1;
+    bool request_version : 1;
     bool host : 1;
     bool content_length : 1;
     bool eoh : 1;
-- 
2.43.0


From 807c2db838550a79894005417bd5ea9e21fa8039 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:13:16 +0000
Subject: [PATCH 077/130] fix: a huge Retry-After delay does not overflow

---
 libweb/web.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libweb/web.in b/libweb/web.in
index 1154735..d6399bc 100644
--- a/libweb/web.in
+++ b/libweb/web.in
@@ -435,6 +435,10 @@ delay_seconds:time =
             MANUAL_ERROR(@$);
             return WEB_STATUS_SYNTAX_ERROR;
         }
+        if(delay > INT64_MAX - (int64_t)now){
+            MANUAL_ERROR(@$);
+            return WEB_STATUS_SYNTAX_ERROR;
+        }
         $$ = now + delay;
     }}
 ;
-- 
2.43.0


From 30dae1852d82576bb2ab7bbb296727e61bc6c13f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:13:54 +0000
Subject: [PATCH 078/130] fix: UTC dates do not depend on the history of the
 local time zone

---
 libdstr/system.c | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/libdstr/system.c b/libdstr/system.c
index 76fb975..8bdc9d2 100644
--- a/libdstr/system.c
+++ b/libdstr/system.c
@@ -339,24 +339,19 @@ derr_t dmktime_local(dtm_t dtm, time_t *out){
 
 // read a utc timestamp
 derr_type_t dmktime_utc_quiet(dtm_t dtm, time_t *out){
-    time_t local;
-    derr_type_t etype = dmktime_local_quiet(dtm, &local);
-    if(etype) return etype;
-    // calculate seconds offset between localtime and UTC with stdlib functions
-    static time_t offset = LONG_MAX;
-    if(offset == LONG_MAX){
-        // get a gmt timestamp at time=0, then see what localtime we read it as
-        time_t zero = 0;
-        struct tm utc;
-        #ifdef _WIN32
-        gmtime_s(&utc, &zero);
-        #else
-        gmtime_r(&zero, &utc);
-        #endif
-        offset = mktime(&utc);
+    /* never go through local time: the offset from UTC of any given moment
+       depends on the history of the local time zone */
+    struct tm tm = dtm_to_tm(dtm);
+    #ifdef _WIN32
+    time_t t = _mkgmtime(&tm);
+    #else
+    time_t t = timegm(&tm);
+    #endif
+    if(t == (time_t)-1){
+        *out = 0;
+        return E_OS;
     }
-    // apply offset
-    *out = local - offset;
+    *out = t;
     return E_NONE;
 }
 
-- 
2.43.0


From ba9da498a2da78dd964bef0a94644b451b16628a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:14:42 +0000
Subject: [PATCH 079/130] fix: a relative reference needs no slash

---
 libweb/web.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libweb/web.in b/libweb/web.in
index d6399bc..7a7a08b 100644
--- a/libweb/web.in
+++ b/libweb/web.in
@@ -706,7 +706,7 @@ uri_reference_noqf:url =
     (
       | scheme_or_path:sop
         (
-          | SLASH relpath_0:r
+          | path_after_auth:r
             # relative-part::path-noscheme
             {{ $$ = (url_t){
                    .scheme = @start,
-- 
2.43.0


From 6fd35ba3632792b231ae10e896feae2bdae19165 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:21:21 +0000
Subject: [PATCH 080/130] fix: transfer-coding names are case-insensitive

---
 libhttp/duv_http.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 5d177a5..0da6bfc 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -466,7 +466,8 @@ static void req_hdr_cb(
     else if(dstr_ieq(hdr.key, DSTR_LIT("transfer-encoding"))){
         // we only support a pure "chunked" encoding
         dstr_t stripped = dstr_strip_chars(hdr.value, ' ', '\t');
-        if(!dstr_eq(stripped, DSTR_LIT("chunked"))){
+        // (transfer-coding names are case-insensitive)
+        if(!dstr_ieq(stripped, DSTR_LIT("chunked"))){
             ORIG_GO(&req->e,
                 E_RESPONSE,
                 "unsupported Transfer-Encoding: %x",
-- 
2.43.0


From 4037c6efdd27efa8352958bb2b29471ad95bb8ae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:21:21 +0000
Subject: [PATCH 081/130] fix: interim HTTP responses are not the final
 response

---
 libhttp/duv_http.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 0da6bfc..018263c 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -568,6 +568,14 @@ static void req_advance_write(duv_http_req_t *req, bool *completed){
     return;
 }
 
+/* RFC7231: section 6.2, "A client MUST be able to parse one or more 1xx
+   responses received prior to a final response, even if the client does not
+   expect one."  (101 is final, but it is only sent if we ask for it) */
+static bool req_is_interim(duv_http_req_t *req){
+    int status = req->mem->reader.status;
+    return status >= 100 && status <= 199 && status != 101;
+}
+
 static derr_t req_grab_status(duv_http_req_t *req){
     derr_t e = E_OK;
 
@@ -606,6 +614,7 @@ static void req_advance_read_hdrs(duv_http_req_t *req, bool *completed){
 
             case -1:
                 // header found
+                if(req_is_interim(req)) break;
                 if(req->status == 0){
                     PROP_GO(&req->e, req_grab_status(req), done);
                 }
@@ -623,6 +632,13 @@ static void req_advance_read_hdrs(duv_http_req_t *req, bool *completed){
                     );
                 }
                 // no more headers
+                if(req_is_interim(req)){
+                    // discard this response and read the next one
+                    dstr_leftshift(&m->read_buf, (size_t)state);
+                    http_reader_free(&m->reader);
+                    http_reader_init(&m->reader, &m->read_buf);
+                    break;
+                }
                 if(req->status == 0){
                     // (just in case there were no headers at all)
                     PROP_GO(&req->e, req_grab_status(req), done);
-- 
2.43.0


From 88a7496be6c52b2f42fd6ecee657d4f3fccc187e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:28:20 +0000
Subject: [PATCH 082/130] fix: a read in flight does not outlive a failed
 connection

---
 libduv/concat.c    | 11 ++++++++---
 libhttp/borrow.c   |  9 +++++++--
 libhttp/chunked.c  |  6 ++++--
 libhttp/duv_http.c |  8 ++++++++
 libhttp/limit.c    | 12 +++++++++++-
 5 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/libduv/concat.c b/libduv/concat.c
index 4003fa8..b086009 100644
--- a/libduv/concat.c
+++ b/libduv/concat.c
@@ -22,8 +22,13 @@ static void await_cb(rstream_i *base, derr_t e, link_t *reads){
     rstream_reads_filter(reads, &ours, read_cb);
     /* we only keep one read in flight, so if it was on this stream, we are
        no longer reading */
-    if(!link_list_isempty(&ours)) c->reading = false;
-    link_list_prepend_list(&c->reads, &ours);
+    link_t *link = link_list_pop_first(&ours);
+    if(link){
+        rstream_read_t *read = CONTAINER_OF(link, rstream_read_t, link);
+        read->cb = c->original_read_cb;
+        c->reading = false;
+        link_list_prepend(&c->reads, &read->link);
+    }
     // call its original await cb with any reamining unfinished reads
     if(c->base_await_cbs[w->idx]){
         c->base_await_cbs[w->idx](base, E_OK, reads);
@@ -131,7 +136,7 @@ closing:
     // await the in-flight read
     if(c->reading) return;
     if(c->returned){
-        link_list_prepend_list(&c->reads, &c->returned->link);
+        link_list_prepend(&c->reads, &c->returned->link);
         c->returned = NULL;
     }
 
diff --git a/libhttp/borrow.c b/libhttp/borrow.c
index 159ee38..0ca5612 100644
--- a/libhttp/borrow.c
+++ b/libhttp/borrow.c
@@ -49,9 +49,14 @@ static void await_cb(stream_i *base, derr_t e, link_t *reads, link_t *writes){
     if(b->base_canceled) DROP_CANCELED_VAR(&e);
     UPGRADE_CANCELED_VAR(&e, E_INTERNAL);
     KEEP_FIRST_IF_NOT_CANCELED_VAR(&b->e, &e);
+    // capture any unfinished read
+    link_t ours = {0};
+    stream_reads_filter(reads, &ours, read_cb);
+    if(b->reading){
+        b->reading = false;
+        link_list_prepend(&b->reads, &b->rread->link);
+    }
     if(b->original_await_cb){
-        link_t ours = {0};
-        stream_reads_filter(reads, &ours, read_cb);
         b->original_await_cb(b->base, E_OK, reads, writes);
     }
     advance_state(b);
diff --git a/libhttp/chunked.c b/libhttp/chunked.c
index 3f1eb14..391f32c 100644
--- a/libhttp/chunked.c
+++ b/libhttp/chunked.c
@@ -25,9 +25,11 @@ static void await_cb(rstream_i *base, derr_t e, link_t *reads){
     if(c->base_canceled) DROP_CANCELED_VAR(&e);
     UPGRADE_CANCELED_VAR(&e, E_INTERNAL);
     KEEP_FIRST_IF_NOT_CANCELED_VAR(&c->e, &e);
+    // our own read will not return anymore
+    link_t ours = {0};
+    rstream_reads_filter(reads, &ours, read_cb);
+    c->reading = false;
     if(c->original_await_cb){
-        link_t ours = {0};
-        rstream_reads_filter(reads, &ours, read_cb);
         c->original_await_cb(c->base, E_OK, reads);
     }
     advance_state(c);
diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 018263c..b932299 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -273,6 +273,10 @@ done:
 }
 
 
+static void req_read_cb_body(
+    rstream_i *rstream, rstream_read_t *read, dstr_t buf
+);
+
 static void req_base_await_cb(rstream_i *rstream, derr_t e, link_t *reads){
     duv_http_req_t *req = rstream->data;
 
@@ -281,6 +285,10 @@ static void req_base_await_cb(rstream_i *rstream, derr_t e, link_t *reads){
     KEEP_FIRST_IF_NOT_CANCELED_VAR(&req->e, &e);
 
     // unfinished reads go back to pending reads
+    rstream_read_t *read;
+    LINK_FOR_EACH(read, reads, rstream_read_t, link){
+        if(read->cb == req_read_cb_body) read->cb = req->original_read_cb;
+    }
     link_list_prepend_list(&req->reads, reads);
     req->reading = false;
 
diff --git a/libhttp/limit.c b/libhttp/limit.c
index bd21be1..38f80f9 100644
--- a/libhttp/limit.c
+++ b/libhttp/limit.c
@@ -46,7 +46,17 @@ static void await_cb(rstream_i *base, derr_t e, link_t *reads){
     // capture any unfinished reads
     link_t ours = {0};
     rstream_reads_filter(reads, &ours, read_cb);
-    link_list_prepend_list(&l->reads, &ours);
+    if(l->reading){
+        // we only keep one read in flight; restore what we changed in it
+        l->reading = false;
+        link_t *link = link_list_pop_first(&ours);
+        if(link){
+            rstream_read_t *read = CONTAINER_OF(link, rstream_read_t, link);
+            read->cb = l->original_read_cb;
+            read->buf.size = l->original_read_buf_size;
+            link_list_prepend(&l->reads, &read->link);
+        }
+    }
     if(l->original_await_cb){
         l->original_await_cb(l->base, E_OK, reads);
     }
-- 
2.43.0


From 442834e567981c28d65071c214928d09ee9cda99 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:28:20 +0000
Subject: [PATCH 083/130] fix: no read from a connection that has been canceled

---
 libhttp/borrow.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libhttp/borrow.c b/libhttp/borrow.c
index 0ca5612..faa9a1e 100644
--- a/libhttp/borrow.c
+++ b/libhttp/borrow.c
@@ -66,6 +66,9 @@ static void advance_state(borrow_rstream_t *b){
     link_t *link;
     if(closing(b)) goto closing;
 
+    // our base may be failing already; in that case wait to be awaited
+    if(b->base->canceled || b->base->awaited) return;
+
     if(!b->reading && (link = link_list_pop_first(&b->reads))){
         b->rread = CONTAINER_OF(link, rstream_read_t, link);
         // submit to base stream
-- 
2.43.0


From 8cf058543965cd75fdfad1f9409cfdf4c42fc1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:30:58 +0000
Subject: [PATCH 084/130] fix: a request awaited late leaves the next request
 alone

---
 libhttp/duv_http.c | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index b932299..7daaa31 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -741,6 +741,9 @@ static void req_advance_state(duv_http_req_t *req){
 
     if(req->iface.awaited) return;
 
+    // after completing, the http_mem_t is not ours anymore
+    if(req->completed) goto completed;
+
     if(req_failing(req)) goto failing;
 
     // wait to be started
@@ -844,21 +847,7 @@ static void req_advance_state(duv_http_req_t *req){
         }
     }
 
-    // the duv_http_t is done with us now
-    if(!req->completed){
-        req->completed = true;
-        http_completed_req(req->http, req);
-    }
-
-    // wait to be awaited
-    if(!req->await_cb) return;
-
-    schedulable_cancel(&req->schedulable);
-    link_t reads = {0};
-    link_list_append_list(&reads, &req->reads);
-    req->iface.awaited = true;
-    req->await_cb(&req->iface, E_OK, &reads);
-    return;
+    goto completed;
 
 failing:
     // were we even started?
@@ -877,6 +866,7 @@ failing:
     // await our base, if we had one
     if(req->base && !req->base->awaited) return;
 
+completed:
     // the duv_http_t is done with us now
     if(!req->completed){
         req->completed = true;
@@ -889,10 +879,10 @@ failing:
     // give the error to the user's await_cb
     if(!is_error(req->e) && req->iface.canceled) req->e.type = E_CANCELED;
     schedulable_cancel(&req->schedulable);
-    link_t reads2 = {0};
-    link_list_append_list(&reads2, &req->reads);
+    link_t reads = {0};
+    link_list_append_list(&reads, &req->reads);
     req->iface.awaited = true;
-    req->await_cb(&req->iface, req->e, &reads2);
+    req->await_cb(&req->iface, req->e, &reads);
 }
 
 // rstream interface
-- 
2.43.0


From 5c8686caf2ef3754f961f8500f5429857d210b78 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:40:22 +0000
Subject: [PATCH 085/130] fix: the port of a URL consists of digits only

---
 libweb/web.in | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libweb/web.in b/libweb/web.in
index 7a7a08b..e3fdefa 100644
--- a/libweb/web.in
+++ b/libweb/web.in
@@ -26,6 +26,12 @@ static int read_digit(dstr_off_t off){
 static bool is_valid_port(dstr_off_t off){
     if(!off.len) return true;
 
+    // digits only; a number parser would also accept a leading sign
+    dstr_t d = dstr_from_off(off);
+    for(size_t i = 0; i < d.len; i++){
+        if(d.data[i] < '0' || d.data[i] > '9') return false;
+    }
+
     derr_t e = E_OK;
     parse_int_within(&e, off, 1, 65535);
     CATCH_ANY(&e){
-- 
2.43.0


From 1558476e62154b6fc7314920f7e1ffdc8348e801 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:12:58 +0000
Subject: [PATCH 086/130] fix: a concatenated stream which is awaited late is
 answered

---
 libduv/concat.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libduv/concat.c b/libduv/concat.c
index b086009..57bba7a 100644
--- a/libduv/concat.c
+++ b/libduv/concat.c
@@ -190,8 +190,11 @@ static rstream_await_cb concat_await(
 ){
     rstream_concat_t *c = CONTAINER_OF(iface, rstream_concat_t, iface);
 
+    if(c->iface.awaited) return NULL;
     rstream_await_cb out = c->await_cb;
     c->await_cb = await_cb;
+    // we may have been waiting to be awaited
+    schedule(c);
     return out;
 }
 
-- 
2.43.0


From 40c3b948aead889f3fd6c3158cd02d64e1e0b444 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:12:58 +0000
Subject: [PATCH 087/130] fix: a stream which ends before its limit does not
 report EOF

---
 libhttp/limit.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libhttp/limit.c b/libhttp/limit.c
index 38f80f9..7257591 100644
--- a/libhttp/limit.c
+++ b/libhttp/limit.c
@@ -24,15 +24,17 @@ static void read_cb(rstream_i *base, rstream_read_t *read, dstr_t buf){
     l->reading = false;
     l->nread += buf.len;
 
-    if(buf.len == 0){
-        // early EOF is an error
-        TRACE_ORIG(&l->e, E_RESPONSE, "unexpected EOF");
-    }
-
     buf.size = l->original_read_buf_size;
     read->cb = l->original_read_cb;
     read->buf = buf;
-    read->cb(&l->iface, read, buf);
+
+    if(buf.len == 0){
+        // early EOF is an error, which must not look like an EOF of ours
+        TRACE_ORIG(&l->e, E_RESPONSE, "unexpected EOF");
+        link_list_prepend(&l->reads, &read->link);
+    }else{
+        read->cb(&l->iface, read, buf);
+    }
 
     advance_state(l);
 }
-- 
2.43.0


From e63cd7c84a6e60e9a60abba47a28aabee8749fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:12:58 +0000
Subject: [PATCH 088/130] fix: canceling a chunked stream leaves a detached
 base alone

---
 libhttp/chunked.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libhttp/chunked.c b/libhttp/chunked.c
index 391f32c..b0d68d7 100644
--- a/libhttp/chunked.c
+++ b/libhttp/chunked.c
@@ -324,7 +324,8 @@ static void advance_state(chunked_rstream_t *c){
 closing:
     if(c->iface.awaited) return;
 
-    if(!c->base->awaited && !c->base->canceled && failing(c)){
+    if(failing(c)
+            && !c->detached && !c->base->awaited && !c->base->canceled){
         c->base->cancel(c->base);
         c->base_canceled = true;
     }
@@ -368,8 +369,10 @@ static bool chunked_read(
 static void chunked_cancel(rstream_i *iface){
     chunked_rstream_t *c = CONTAINER_OF(iface, chunked_rstream_t, iface);
     c->iface.canceled = true;
-    c->base->cancel(c->base);
-    c->base_canceled = true;
+    if(!c->detached){
+        c->base->cancel(c->base);
+        c->base_canceled = true;
+    }
 }
 
 static rstream_await_cb chunked_await(
-- 
2.43.0


From 3a881ec02e45fb21ef05481f1bb51942801cbcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:18:29 +0000
Subject: [PATCH 089/130] fix: a failed write ends a passthru stream

---
 libduv/passthru.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 278350e..d02fe35 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -189,12 +189,12 @@ static void write_cb(uv_write_t *uvw, int status){
     if(!failing(p)){
         // successful write, call user callback
         req->cb(&p->iface, req);
-        // that user cb may result in new writes
-        advance_state(p);
     }else{
         // failed write, put it in the failed list
         link_list_append(&p->writes.failed, &req->link);
     }
+    // the user cb may result in new writes, or this may be the first failure
+    advance_state(p);
 }
 
 static void _shutdown_cb(uv_shutdown_t *shutdown_req, int status){
-- 
2.43.0


From be5ef2cfaf0270cbbe2d7a22df64c6bdab8226d6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:18:29 +0000
Subject: [PATCH 090/130] fix: a passthru stream is shut down only once

---
 libduv/passthru.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index d02fe35..6f13b9f 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -418,6 +418,7 @@ static void passthru_shutdown(stream_i *iface, stream_shutdown_cb shutdown_cb){
 
     // if possible, do the shutdown now to make the passthru transparent
     if(!p->writes.inflight){
+        p->shutdown.requested = true;
         int ret = uv_shutdown(&p->shutdown.req, p->uvstream, _shutdown_cb);
         if(ret < 0){
             TRACE_ORIG_UV(&p->e, ret);
-- 
2.43.0


From 38f6a99345f4594c5cc8c8e648ab397e4c82d72c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:18:29 +0000
Subject: [PATCH 091/130] fix: nothing is written to a dstr stream after a
 failed write

---
 libduv/dstr_stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libduv/dstr_stream.c b/libduv/dstr_stream.c
index f598ae4..5fe0d55 100644
--- a/libduv/dstr_stream.c
+++ b/libduv/dstr_stream.c
@@ -117,6 +117,8 @@ static bool stream_write(
     dstr_stream_t *s = CONTAINER_OF(iface, dstr_stream_t, iface);
 
     // do the write immediately and only schedule the callback
+    // ... unless an earlier write failed already
+    if(is_error(s->e)) goto done;
     for(unsigned int i = 0; i < nbufs; i++){
         PROP_GO(&s->e, dstr_append(s->wbase, &bufs[i]), done);
     }
-- 
2.43.0


From 4f19ed628bff7d4d625b6818c7400a28f77485ff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 092/130] fix: a passthru stream completes its writes before
 its shutdown

---
 libduv/passthru.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 6f13b9f..f1c9b1d 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -258,6 +258,9 @@ static void advance_state(duv_passthru_t *p){
         }
     }
     if(!p->shutdown.complete) return;
+    /* a shutdown submitted from within a write_cb may complete before the
+       write_cbs of the writes submitted just before it */
+    if(p->writes.inflight) return;
 
     p->shutdown.responded = true;
     p->shutdown_cb(&p->iface);
-- 
2.43.0


From d2feb777ec47d36857533a313153bfbe44f0ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:30:30 +0000
Subject: [PATCH 093/130] fix: an empty buffer in a write to a tls stream is
 skipped

---
 libduvtls/tls.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libduvtls/tls.c b/libduvtls/tls.c
index f24f9a6..62a8b7d 100644
--- a/libduvtls/tls.c
+++ b/libduvtls/tls.c
@@ -315,6 +315,11 @@ static bool _advance_ssl_write(duv_tls_t *t){
     const dstr_t *bufs = get_bufs_ptr(req);
     while(t->nbufswritten < req->nbufs){
         const dstr_t buf = bufs[t->nbufswritten];
+        if(!buf.len){
+            // nothing to encrypt in this buffer
+            t->nbufswritten++;
+            continue;
+        }
         while(t->nwritten < buf.len){
             // no point in encrypting more than what our own write buf can hold
             long blen = BIO_get_mem_data(t->rawout, NULL);
-- 
2.43.0


From d19d2643e0db23123c5bdb43bae3d6c59029b606 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:32:05 +0000
Subject: [PATCH 094/130] fix: a passthru stream frees the writes it could not
 submit

---
 libduv/passthru.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index f1c9b1d..34bc869 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -229,8 +229,6 @@ static void advance_state(duv_passthru_t *p){
         }
         // submit write
         int ret = uv_write(&mem->uvw, p->uvstream, bufs, req->nbufs, write_cb);
-        // done with memory in req
-        stream_write_free(req);
         if(ret < 0){
             // return mem to pool
             link_list_append(&p->pool, &mem->link);
@@ -240,6 +238,8 @@ static void advance_state(duv_passthru_t *p){
             TRACE_ORIG_UV(&p->e, ret);
             goto closing;
         }
+        // done with memory in req
+        stream_write_free(req);
         // write was successful
         p->writes.inflight++;
     }
@@ -300,6 +300,11 @@ closing:
         // pass all reads and writes out with await_cb
         link_t reads = {0};
         link_t writes = {0};
+        // writes which were never submitted still have their memory
+        stream_write_t *req;
+        LINK_FOR_EACH(req, &p->writes.pending, stream_write_t, link){
+            stream_write_free(req);
+        }
         link_list_append_list(&reads, &p->reads);
         link_list_append_list(&writes, &p->writes.failed);
         link_list_append_list(&writes, &p->writes.pending);
-- 
2.43.0


From 80f5b0e0f0ceb53257e28096f1c90ceb8b267039 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:32:05 +0000
Subject: [PATCH 095/130] fix: a tls stream frees the memory of its writes

---
 libduvtls/tls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libduvtls/tls.c b/libduvtls/tls.c
index 62a8b7d..9833321 100644
--- a/libduvtls/tls.c
+++ b/libduvtls/tls.c
@@ -271,6 +271,7 @@ static bool next_nonempty_write_req(duv_tls_t *t, stream_write_t **out){
         }
         // handle empty write request
         link_remove(&req->link);
+        stream_write_free(req);
         req->cb(&t->iface, req);
         // detect if the user closed us
         if(failing(t)){
@@ -304,6 +305,7 @@ static bool _advance_ssl_write(duv_tls_t *t){
         // done with this req
         t->nbufswritten = 0;
         link_remove(&req->link);
+        stream_write_free(req);
         req->cb(&t->iface, req);
         // detect if the user closed us
         if(failing(t)) return false;
@@ -557,6 +559,10 @@ static void _advance_close(duv_tls_t *t){
     link_t writes = {0};
     link_list_append_list(&reads, &t->reads);
     link_list_append_list(&writes, &t->writes);
+    stream_write_t *req;
+    LINK_FOR_EACH(req, &writes, stream_write_t, link){
+        stream_write_free(req);
+    }
     t->await_cb(&t->iface, t->e, &reads, &writes);
 }
 
-- 
2.43.0


From 9175b1d060dea7ec988e147f39b4503960d076cc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:32:06 +0000
Subject: [PATCH 096/130] fix: a tls stream keeps its own write from the former
 user of its base

---
 libduvtls/tls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libduvtls/tls.c b/libduvtls/tls.c
index 9833321..b418f68 100644
--- a/libduvtls/tls.c
+++ b/libduvtls/tls.c
@@ -108,7 +108,7 @@ static void await_cb(stream_i *base, derr_t e, link_t *reads, link_t *writes){
         // filter out our own read and write
         link_t ignore = {0};
         stream_reads_filter(reads, &ignore, read_cb);
-        stream_writes_filter(reads, &ignore, write_cb);
+        stream_writes_filter(writes, &ignore, write_cb);
         t->original_base_await_cb(base, E_OK, reads, writes);
     }
     advance_state(t);
-- 
2.43.0


From 828379f807d9f0cd14cfce1caa58825e5702006e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:33:05 +0000
Subject: [PATCH 097/130] fix: a queued write on a passthru stream gets its own
 callback

---
 libduv/passthru.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 34bc869..df76c72 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -217,6 +217,7 @@ static void advance_state(duv_passthru_t *p){
         link = link_list_pop_first(&p->pool);
         passthru_write_mem_t *mem;
         mem = CONTAINER_OF(link, passthru_write_mem_t, link);
+        mem->req = req;
         dstr_t *dbufs = get_bufs_ptr(req);
         // get uv_buf_t array from provided dstr_t array
         uv_buf_t *bufs;
-- 
2.43.0


From bbfe2ff7ac48e58f76b4a0b86cbcadd5f59f4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:43:59 +0000
Subject: [PATCH 098/130] fix: a tls stream sends its close_notify before it
 closes its base

---
 libduvtls/tls.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libduvtls/tls.c b/libduvtls/tls.c
index b418f68..2b90393 100644
--- a/libduvtls/tls.c
+++ b/libduvtls/tls.c
@@ -33,8 +33,16 @@ static bool failing(duv_tls_t *t){
     return t->iface.canceled || is_error(t->e);
 }
 
+// we have seen the peer's close_notify and generated our own
+static bool shutdown_both_ways(duv_tls_t *t){
+    return t->iface.eof && t->shutdown;
+}
+
 static bool closing(duv_tls_t *t){
-    return failing(t) || (t->iface.eof && t->shutdown);
+    if(failing(t)) return true;
+    if(!shutdown_both_ways(t)) return false;
+    // don't cancel the base until our close_notify is out
+    return t->base_awaited || (BIO_eof(t->rawout) && !t->write_pending);
 }
 
 static void respond_all_eof(duv_tls_t *t){
@@ -92,7 +100,10 @@ static void await_cb(stream_i *base, derr_t e, link_t *reads, link_t *writes){
     duv_tls_t *t = base->wrapper_data;
     t->base_awaited = true;
 
-    if(!t->base_canceled){
+    if(shutdown_both_ways(t)){
+        // the peer may have left without waiting for our close_notify
+        DROP_VAR(&e);
+    }else if(!t->base_canceled){
         // if we didn't cancel, nobody else is allowed to
         UPGRADE_CANCELED_VAR(&e, E_INTERNAL);
     }else{
-- 
2.43.0


From 72d456106eb5cc7840b1cdf7ad5dbcbba45c2c89 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:06:52 +0000
Subject: [PATCH 099/130] fix: answer token calls which fail before they are
 sent

---
 api_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api_client.c b/api_client.c
index ed46725..bad1a38 100644
--- a/api_client.c
+++ b/api_client.c
@@ -752,6 +752,8 @@ fail:
     apic->e = e;
     // schedule ourselves for later (this is the only time we need that)
     schedulable_prep(&apic->schedulable, delayed_error);
+    scheduler_i *sched = &apic->http->scheduler->iface;
+    sched->schedule(sched, &apic->schedulable);
 }
 
 static derr_t mkreq_sync(
-- 
2.43.0


From 266b3dc72d063e17e7bac6a8193b731e03f12a9f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:15:57 +0000
Subject: [PATCH 100/130] fix: conf_parse reads a last line which has no line
 end

---
 libdstr/opt_parse.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libdstr/opt_parse.c b/libdstr/opt_parse.c
index 2fd3121..f3cb23f 100644
--- a/libdstr/opt_parse.c
+++ b/libdstr/opt_parse.c
@@ -214,15 +214,17 @@ derr_t conf_parse(const dstr_t* text, opt_spec_t* spec[], size_t speclen){
     bool have_opt = false;
     int found_order = max_found(spec, speclen) + 1;
 
-    for(size_t i = 0; i < text->len; i++){
+    // the end of the text also ends the last line
+    for(size_t i = 0; i <= text->len; i++){
+        char c = i < text->len ? text->data[i] : '\n';
         // check if the character is a space
-        bool issp = (isspace(text->data[i]) != 0);
+        bool issp = (isspace((unsigned char)c) != 0);
 
         // check for non-space
         if(issp == false){
             // start of a comment?
             if(
-                text->data[i] == '#'
+                c == '#'
                 && have_first_nsp == false
                 && have_opt == false
             ){
@@ -247,7 +249,7 @@ derr_t conf_parse(const dstr_t* text, opt_spec_t* spec[], size_t speclen){
         }
 
         // check for end of line
-        if(text->data[i] == '\n' || text->data[i] == '\r'){
+        if(c == '\n' || c == '\r'){
             if(in_comment){
                 in_comment = false;
             }else{
@@ -265,6 +267,7 @@ derr_t conf_parse(const dstr_t* text, opt_spec_t* spec[], size_t speclen){
                 // then, make sure the option we found is a real option
                 opt_spec_t* s = NULL;
                 for(size_t j = 0; j < speclen; j++){
+                    if(!spec[j]->olong) continue;
                     if(dstr_eq(dstr_from_cstr(spec[j]->olong), dopt)){
                         s = spec[j];
                         break;
-- 
2.43.0


From 2d762644873d1e91d5412e1c5b79e05e78514ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:16:12 +0000
Subject: [PATCH 101/130] fix: dstat accepts a NULL exists for a file which
 exists

---
 libdstr/fileops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdstr/fileops.c b/libdstr/fileops.c
index 8105ec6..7e92212 100644
--- a/libdstr/fileops.c
+++ b/libdstr/fileops.c
@@ -135,7 +135,7 @@ derr_t dstat(const char *path, struct stat *s, bool *exists){
         ORIG(&e, E_OS, "failed in stat");
     }
 
-    *exists = true;
+    if(exists) *exists = true;
     return e;
 }
 
-- 
2.43.0


From a730bb7d1f9d2655a28598401468ab3ba9498ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:16:12 +0000
Subject: [PATCH 102/130] fix: mkdirs_path fails if a file is in the way, and
 frees its path

---
 libdstr/fileops.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libdstr/fileops.c b/libdstr/fileops.c
index 7e92212..231e5b6 100644
--- a/libdstr/fileops.c
+++ b/libdstr/fileops.c
@@ -841,7 +841,9 @@ derr_t mkdirs_path(const string_builder_t* sb, mode_t mode){
     PROP(&e, sb_expand(sb, &stack, &heap, &path) );
 
     // if the directory already exists, do nothing
-    if(exists(path->data)){
+    bool is_done;
+    PROP_GO(&e, is_dir(path->data, &is_done), cu);
+    if(is_done){
         goto cu;
     }
 
@@ -894,7 +896,7 @@ fail:
         }
         DROP_CMD( drmdir_path(&SBD(tpath)) );
     }
-    return e;
+    goto cu;
 }
 
 static inline derr_t do_dir_access_path(const string_builder_t* sb, bool create,
-- 
2.43.0


From 7e8227421b1ab67dcbe803f875a4a96652c079ea Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:19:59 +0000
Subject: [PATCH 103/130] fix: rm_rf removes a symlink to a directory, not what
 it points to

---
 libdstr/fileops.c | 42 +++++++++++++++++++++++++-----------------
 libdstr/fileops.h |  2 +-
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/libdstr/fileops.c b/libdstr/fileops.c
index 231e5b6..8622a9d 100644
--- a/libdstr/fileops.c
+++ b/libdstr/fileops.c
@@ -514,13 +514,29 @@ static derr_t rm_rf_hook(
     return e;
 }
 
+// like dstat() but a symlink is not followed, so rm_rf() can remove the link
+static derr_t dlstat(const char *path, struct stat *s, bool *exists){
+    derr_t e = E_OK;
+
+#ifndef _WIN32
+    int ret = lstat(path, s);
+    if(ret == 0 && S_ISLNK(s->st_mode)){
+        *exists = true;
+        return e;
+    }
+#endif
+    PROP(&e, dstat(path, s, exists) );
+
+    return e;
+}
+
 derr_t rm_rf(const char* path){
     derr_t e = E_OK;
 
     // check if this item is a file
     struct stat s;
     bool exists;
-    PROP(&e, dstat(path, &s, &exists) );
+    PROP(&e, dlstat(path, &s, &exists) );
     if(!exists){
         // nothing to delete
     }else if(S_ISDIR(s.st_mode)){
@@ -538,25 +554,17 @@ derr_t rm_rf(const char* path){
 }
 
 
-derr_t rm_rf_path(const string_builder_t *path){
+derr_t rm_rf_path(const string_builder_t *sb){
     derr_t e = E_OK;
+    DSTR_VAR(stack, 256);
+    dstr_t heap = {0};
+    dstr_t* path;
+    PROP(&e, sb_expand(sb, &stack, &heap, &path) );
 
-    // check if this item is a file
-    struct stat s;
-    bool exists;
-    PROP(&e, dstat_path(path, &s, &exists) );
-    if(!exists){
-        // nothing to delete
-    }else if(S_ISDIR(s.st_mode)){
-        // directory case
-        PROP(&e, for_each_file_in_dir(path, rm_rf_hook, NULL) );
-        // now delete the directory itself
-        PROP(&e, drmdir_path(path) );
-    }else{
-        // file case
-        PROP(&e, dunlink_path(path) );
-    }
+    PROP_GO(&e, rm_rf(path->data), cu);
 
+cu:
+    dstr_free(&heap);
     return e;
 }
 
diff --git a/libdstr/fileops.h b/libdstr/fileops.h
index d6a065c..dbbec00 100644
--- a/libdstr/fileops.h
+++ b/libdstr/fileops.h
@@ -90,7 +90,7 @@ derr_t for_each_file_in_dir(
            <whatever the hook can throw> */
 
 derr_t rm_rf(const char* root_path);
-derr_t rm_rf_path(const string_builder_t *path);
+derr_t rm_rf_path(const string_builder_t *sb);
 // like rm_rf_path but it leaves the top-level directory untouched
 derr_t empty_dir(const string_builder_t *path);
 
-- 
2.43.0


From e2904e956667e7e1d09a8225595082eacb9649d0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:19:59 +0000
Subject: [PATCH 104/130] fix: readlink_path sets the length of a long link

---
 libdstr/fileops.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdstr/fileops.c b/libdstr/fileops.c
index 8622a9d..dc675d2 100644
--- a/libdstr/fileops.c
+++ b/libdstr/fileops.c
@@ -689,6 +689,7 @@ derr_t readlink_path(const string_builder_t* sb, dstr_t* stack_out,
             // otherwise grow it and try again
             PROP_GO(&e, dstr_grow(heap_out, heap_out->size * 2), cu_heap);
         }
+        heap_out->len = (size_t)len;
         PROP_GO(&e, dstr_null_terminate(heap_out), cu_path);
         *out = heap_out;
     }
-- 
2.43.0


From e4d0dc96073e9ad8b460b079eacf8376130baac0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:29:33 +0000
Subject: [PATCH 105/130] fix: write the private half of an ed25519 key in its
 jwk

---
 libacme/jws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libacme/jws.c b/libacme/jws.c
index bddd1f4..1e2fca8 100644
--- a/libacme/jws.c
+++ b/libacme/jws.c
@@ -80,7 +80,7 @@ static derr_type_t ed25519_to_jwk(
         DKEY("kty", DS("OKP")),
         DKEY("x", DB64URL(buf)),
         // private key may be excluded
-        DKEY("d", pvt ? DB64URL(buf) : NULL),
+        DKEY("d", pvt ? DB64URL(pvtbuf) : NULL),
     );
 
     derr_type_t etype = obj->jdump(obj, out, indent, pos);
-- 
2.43.0


From e2201075bebc79e30ff81221d7dc3b08607b9f0d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:29:33 +0000
Subject: [PATCH 106/130] fix: sign_hs256 appends to its output

---
 libacme/jws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libacme/jws.c b/libacme/jws.c
index 1e2fca8..d595f3a 100644
--- a/libacme/jws.c
+++ b/libacme/jws.c
@@ -933,12 +933,12 @@ derr_t sign_hs256(const dstr_t hmac_key, const dstr_t in, dstr_t *out){
     if(hmac_key.len > INT_MAX){
         ORIG(&e, E_FIXEDSIZE, "hmac key is way too long!\n");
     }
-    unsigned int siglen = (unsigned int)(MIN(out->len - out->size, UINT_MAX));
+    unsigned int siglen = (unsigned int)(MIN(out->size - out->len, UINT_MAX));
     unsigned char *ucret = HMAC(
         EVP_sha256(),
         (const void*)hmac_key.data, (int)hmac_key.len,
         (const unsigned char*)in.data, in.len,
-        (unsigned char*)out->data, &siglen
+        (unsigned char*)out->data + out->len, &siglen
     );
     if(!ucret){
         ORIG(&e, E_SSL, "HMAC failed: %x", FSSL);
-- 
2.43.0


From 58e2385d666a075533e0193147c5d6b7e21869f9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:29:33 +0000
Subject: [PATCH 107/130] fix: wait for the Retry-After of an order which is
 being processed

---
 libacme/reqs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libacme/reqs.c b/libacme/reqs.c
index 438223e..fbce672 100644
--- a/libacme/reqs.c
+++ b/libacme/reqs.c
@@ -1790,6 +1790,8 @@ static void finalize_reader_cb(stream_reader_t *reader, derr_t err){
 
     PROP_GO(&e, finalize_order_status_check(state, &order), done);
 
+    state->retry_after = acme->retry_after;
+
 done:
     json_free(&json);
     acme_advance_state(acme, e);
@@ -1928,6 +1930,8 @@ static void poll_order_reader_cb(stream_reader_t *reader, derr_t err){
 
     PROP_GO(&e, finalize_order_status_check(state, &order), done);
 
+    state->retry_after = acme->retry_after;
+
 done:
     json_free(&json);
     acme_advance_state(acme, e);
-- 
2.43.0


From e372b9efdeb7835e922f963df786780dd706865a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:29:33 +0000
Subject: [PATCH 108/130] fix: an acme order's error is an object

---
 libacme/reqs.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libacme/reqs.c b/libacme/reqs.c
index fbce672..2db7e19 100644
--- a/libacme/reqs.c
+++ b/libacme/reqs.c
@@ -898,7 +898,8 @@ typedef struct {
     acme_status_e status;
     dstr_t expires;  // optional unless status in [pending, valid]
     dstr_t domain; // a single dns identifier
-    dstr_t error; // optional
+    dstr_t errtype; // optional
+    dstr_t errdetail; // optional
     dstr_t authorization; // a single authorization
     dstr_t finalize;
     dstr_t certificate;  // optional
@@ -909,7 +910,7 @@ static derr_t read_order(dstr_t rbuf, json_t *json, order_t *order){
     derr_t e = E_OK;
 
     *order = (order_t){0};
-    bool have_cert, have_error, have_expire;
+    bool have_cert, have_error, have_errtype, have_errdetail, have_expire;
 
     PROP(&e, json_parse(rbuf, json) );
 
@@ -918,7 +919,10 @@ static derr_t read_order(dstr_t rbuf, json_t *json, order_t *order){
             JDREF(&order->authorization),
         )),
         JKEYOPT("certificate", &have_cert, JDREF(&order->certificate)),
-        JKEYOPT("error", &have_error, JDREF(&order->error)),
+        JKEYOPT("error", &have_error, JOBJ(true,
+            JKEYOPT("detail", &have_errdetail, JDREF(&order->errdetail)),
+            JKEYOPT("type", &have_errtype, JDREF(&order->errtype)),
+        )),
         JKEYOPT("expires", &have_expire, JDREF(&order->expires)),
         JKEY("finalize", JDREF(&order->finalize)),
         JKEY("identifiers", JTUP(
@@ -1744,8 +1748,9 @@ static derr_t finalize_order_status_check(
             // certificate failure of some sort
             ORIG(&e,
                 E_RESPONSE,
-                "order finalization failed (error=\"\")",
-                FD(order->error)
+                "order finalization failed: %x (%x)",
+                FD(order->errdetail),
+                FD(order->errtype)
             );
             break;
 
-- 
2.43.0


From 28644e8fadbeece0f0e5ee5a65bad0748a20aa67 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:29:33 +0000
Subject: [PATCH 109/130] fix: free the certurl of a get_order which does not
 return it

---
 libacme/reqs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libacme/reqs.c b/libacme/reqs.c
index 2db7e19..bc8aecf 100644
--- a/libacme/reqs.c
+++ b/libacme/reqs.c
@@ -1258,6 +1258,7 @@ static void get_order_free_state(acme_t *acme){
     dstr_free(&state->expires);
     dstr_free(&state->authorization);
     dstr_free(&state->finalize);
+    dstr_free(&state->certurl);
     *state = (acme_get_order_state_t){0};
 }
 
-- 
2.43.0


From 509c87ed73723936f7a8e96e1c7a8e4e118edff9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:29:33 +0000
Subject: [PATCH 110/130] fix: a directory which could not be read is fetched
 again

---
 libacme/reqs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libacme/reqs.c b/libacme/reqs.c
index bc8aecf..73215ea 100644
--- a/libacme/reqs.c
+++ b/libacme/reqs.c
@@ -179,6 +179,7 @@ struct acme_t {
     dstr_t revoke_cert;
     dstr_t key_change;
     dstr_t terms_of_service;
+    bool have_directory;
     // mid-request storage
     derr_t e;
     duv_http_req_t req;
@@ -610,6 +611,8 @@ static void get_directory_reader_cb(stream_reader_t *reader, derr_t err){
         parse_url(&acme->terms_of_service, &acme->terms_of_service_url),
     done);
 
+    acme->have_directory = true;
+
 done:
     json_free(&json);
     acme_advance_state(acme, e);
@@ -634,7 +637,7 @@ static void get_directory(acme_t *acme){
 }
 
 static bool need_directory(acme_t *acme){
-    if(acme->new_nonce.len > 0) return false;
+    if(acme->have_directory) return false;
     get_directory(acme);
     return true;
 }
-- 
2.43.0


From 792bddf8932d2a45f0a49ae7d725aa578f70b182 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:29:33 +0000
Subject: [PATCH 111/130] fix: an empty certificate response is an error

---
 libacme/reqs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libacme/reqs.c b/libacme/reqs.c
index 73215ea..fd67209 100644
--- a/libacme/reqs.c
+++ b/libacme/reqs.c
@@ -1963,6 +1963,8 @@ static void cert_reader_cb(stream_reader_t *reader, derr_t err){
         goto done;
     }
 
+    if(!acme->rbuf.len) ORIG_GO(&e, E_RESPONSE, "empty cert response", done);
+
     PROP_GO(&e, dstr_copy(&acme->rbuf, &state->cert), done);
 
 done:
-- 
2.43.0


From 2291890569a8115a6fd0add84b561c61d5f93317 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:44:26 +0000
Subject: [PATCH 112/130] fix: keeping a cancelation frees the trace it
 replaces

---
 libduv/stream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libduv/stream.h b/libduv/stream.h
index 46a61c3..e657127 100644
--- a/libduv/stream.h
+++ b/libduv/stream.h
@@ -283,6 +283,7 @@ struct wstream_i {
     }else{ \
         if((e2)->type == E_CANCELED){ \
             /* pass E_CANCELED without allocating memory */ \
+            DROP_VAR(e); \
             *e = *e2; \
             *e2 = E_OK; \
         }else{ \
-- 
2.43.0


From f72eff81045b1346c53618e15f3671b1f1ca244e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:56:29 +0000
Subject: [PATCH 113/130] fix: refuse mailbox names which do not map to a
 mailbox directory

---
 libcitm/sc.c | 67 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 5 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 5cf130b..8da4e92 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -295,6 +295,20 @@ static derr_t advance_disconnect(sc_t *sc, bool expunge, bool *okout){
     return e;
 }
 
+// responds NO if a mailbox of this name can't be stored locally
+static derr_t require_valid_name(
+    sc_t *sc, ie_dstr_t **tagp, const dstr_t *name, bool *valid
+){
+    derr_t e = E_OK;
+
+    *valid = dirmgr_name_valid(name);
+    if(*valid) return e;
+
+    PROP(&e, RESP_NO(tagp, "unsupported mailbox name", &sc->resps) );
+
+    return e;
+}
+
 static derr_t advance_select(
     sc_t *sc,
     ie_dstr_t **tagp,
@@ -313,6 +327,17 @@ static derr_t advance_select(
         sc->select_disconnected = true;
     }
 
+    if(!sc->select_connected){
+        bool valid;
+        PROP(&e, require_valid_name(sc, tagp, ie_mailbox_name(*mp), &valid) );
+        if(!valid){
+            // the failed SELECT leaves us in AUTHENTICATED state
+            sc->select_disconnected = false;
+            *ok = true;
+            return e;
+        }
+    }
+
     ONCE(sc->select_connected){
         // connect our dn_t first, to pick the initial SELECT/EXAMINE correctly
         PROP(&e,
@@ -508,6 +533,17 @@ static derr_t check_lsub(
     return e;
 }
 
+static derr_t pre_status(
+    sc_t *sc, ie_dstr_t **cmdtagp, imap_cmd_arg_t *argp, bool *valid
+){
+    derr_t e = E_OK;
+
+    const dstr_t *name = ie_mailbox_name(argp->status->m);
+    PROP(&e, require_valid_name(sc, cmdtagp, name, valid) );
+
+    return e;
+}
+
 static derr_t check_status(
     sc_t *sc, ie_dstr_t **cmdtagp, imap_resp_t **respp, bool *ok
 ){
@@ -518,7 +554,10 @@ static derr_t check_status(
     imap_resp_t *resp = *respp;
 
     // STATUS response, it needs asynchronous post-processing
-    if(resp->type == IMAP_RESP_STATUS){
+    if(resp->type == IMAP_RESP_STATUS
+        // we never asked for a mailbox whose name we can't store
+        && dirmgr_name_valid(ie_mailbox_name(resp->arg.status->m))
+    ){
         // post-process the STATUS response; the server's values will be wrong
         const ie_status_resp_t *status = resp->arg.status;
         const dstr_t *name = ie_mailbox_name(status->m);
@@ -546,6 +585,10 @@ static derr_t pre_delete(
     *valid = false;
 
     const dstr_t deleting = *ie_mailbox_name(argp->delete);
+    bool name_ok;
+    PROP(&e, require_valid_name(sc, cmdtagp, &deleting, &name_ok) );
+    if(!name_ok) return e;
+
     // can't DELETE a mailbox you are connected to
     if(sc->dn_active){
         const dstr_t opened = *ie_mailbox_name(sc->selected_mailbox);
@@ -598,6 +641,12 @@ static derr_t pre_rename(
 
     const dstr_t old = *ie_mailbox_name(argp->rename->old);
     const dstr_t new = *ie_mailbox_name(argp->rename->new);
+    bool name_ok;
+    PROP(&e, require_valid_name(sc, cmdtagp, &old, &name_ok) );
+    if(!name_ok) return e;
+    PROP(&e, require_valid_name(sc, cmdtagp, &new, &name_ok) );
+    if(!name_ok) return e;
+
     // can't RENAME to/from a mailbox you are connected to
     if(sc->dn_active){
         const dstr_t opened = *ie_mailbox_name(sc->selected_mailbox);
@@ -657,11 +706,13 @@ static derr_t pre_append(
 ){
     derr_t e = E_OK;
 
-    (void)cmdtagp;
-    *valid = true;
-
     ie_append_cmd_t *append = argp->append;
 
+    PROP(&e,
+        require_valid_name(sc, cmdtagp, ie_mailbox_name(append->m), valid)
+    );
+    if(!*valid) return e;
+
     // step 1: write the unencrypted text to a file for saving
     sc->append_tmp_id = dirmgr_new_tmp_id(sc->dirmgr);
     string_builder_t tmp_path = sb_append(&sc->dirmgr->path, SBS("tmp"));
@@ -837,7 +888,7 @@ static derr_t handle_cmd(sc_t *sc, bool *ok){
         case IMAP_CMD_CREATE: PASSTHRU(NULL, check_passthru_simple); break;
         case IMAP_CMD_LIST:   PASSTHRU(NULL, check_list); break;
         case IMAP_CMD_LSUB:   PASSTHRU(NULL, check_lsub); break;
-        case IMAP_CMD_STATUS: PASSTHRU(NULL, check_status); break;
+        case IMAP_CMD_STATUS: PASSTHRU(pre_status, check_status); break;
         case IMAP_CMD_DELETE: PASSTHRU(pre_delete, check_delete); break;
         case IMAP_CMD_RENAME: PASSTHRU(pre_rename, check_rename); break;
         case IMAP_CMD_APPEND: PASSTHRU(pre_append, check_append); break;
@@ -913,6 +964,12 @@ static derr_t handle_cmd(sc_t *sc, bool *ok){
         case IMAP_CMD_COPY:
             PROP(&e, require_selected(sc, tagp, &valid) );
             if(!valid) break;
+            PROP(&e,
+                require_valid_name(
+                    sc, tagp, ie_mailbox_name(arg->copy->m), &valid
+                )
+            );
+            if(!valid) break;
             PROP(&e, dn_copy(&sc->dn, tagp, arg->copy, out, ok) );
             break;
         case IMAP_CMD_FETCH:
-- 
2.43.0


From 65e27842b132ec5db3a33ff96ebf4be088baea7b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:58:39 +0000
Subject: [PATCH 114/130] fix: a FETCH whose message can not be read does not
 use freed views

---
 libimaildir/dn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index efaaa8b..54787b4 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1387,7 +1387,10 @@ static derr_t send_fetch_resp(
     size_t index;
     jsw_anode_t *node = jsw_afind(&dn->views, &uid_dn, &index);
     if(!node) ORIG(&e, E_INTERNAL, "uid_dn missing");
-    msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
+    /* work on a copy; if loading the content fails then the whole imaildir_t
+       fails, which frees all of the views */
+    const msg_view_t view_copy = *CONTAINER_OF(node, msg_view_t, node);
+    const msg_view_t *view = &view_copy;
 
     unsigned int seq_num;
     PROP(&e, index_to_seq_num(index, &seq_num) );
-- 
2.43.0


From 8f71385d4f304c14caca0aba7b28f5e2a20c4a7e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:00:44 +0000
Subject: [PATCH 115/130] fix: a failure to read mykey.pem does not throw the
 key away

---
 libcitm/keydir.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libcitm/keydir.c b/libcitm/keydir.c
index 0231cfa..bc43d57 100644
--- a/libcitm/keydir.c
+++ b/libcitm/keydir.c
@@ -561,15 +561,18 @@ static derr_t _load_or_gen_mykey(
     PROP(&e, exists_path(&mykey_path, &have_key) );
 
     if(have_key){
-        IF_PROP(&e, keypair_load_private_path(out, &mykey_path) ){
-            // we must have hit an error reading the key
-            TRACE(&e, "failed to load mykey...\n");
-            DUMP(e);
-            DROP_VAR(&e);
+        derr_t e2 = keypair_load_private_path(out, &mykey_path);
+        CATCH(&e2, E_PARAM){
+            // the file does not contain a valid key
+            TRACE(&e2, "failed to load mykey...\n");
+            DUMP(e2);
+            DROP_VAR(&e2);
             LOG_ERROR("Failed to load mykey, generating a new one.\n");
             // delete the broken key
             PROP(&e, rm_rf_path(&mykey_path) );
         }else{
+            // any other failure does not mean that the key is broken
+            PROP_VAR(&e, &e2);
             // key was loaded successfully
             return e;
         }
-- 
2.43.0


From 8585c50ab8c85d44f60a6ac01180bf6e8fb9ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:02:20 +0000
Subject: [PATCH 116/130] fix: DELETE and RENAME leave other mailboxes and
 connections alone

---
 libcitm/sc.c         |  74 +++++++++++++++++++-------
 libimaildir/dirmgr.c | 122 ++++++++++++++++++++++++++++++++++++++-----
 libimaildir/dirmgr.h |   2 +
 3 files changed, 167 insertions(+), 31 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 8da4e92..f637442 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -340,16 +340,23 @@ static derr_t advance_select(
 
     ONCE(sc->select_connected){
         // connect our dn_t first, to pick the initial SELECT/EXAMINE correctly
-        PROP(&e,
-            dirmgr_open_dn(
-                sc->dirmgr,
-                ie_mailbox_name(*mp),
-                &sc->dn,
-                &sc->dn_cb,
-                &sc->s->exts,
-                examine
-            )
+        derr_t e2 = dirmgr_open_dn(
+            sc->dirmgr,
+            ie_mailbox_name(*mp),
+            &sc->dn,
+            &sc->dn_cb,
+            &sc->s->exts,
+            examine
         );
+        CATCH(&e2, E_FROZEN){
+            // somebody else is deleting or renaming it
+            DROP_VAR(&e2);
+            PROP(&e, RESP_NO(tagp, "mailbox is busy", &sc->resps) );
+            sc->select_disconnected = false;
+            sc->select_connected = false;
+            *ok = true;
+            return e;
+        }else PROP_VAR(&e, &e2);
         sc->dn_active = true;
 
         // connect our up_t
@@ -577,6 +584,30 @@ static derr_t check_status(
     return e;
 }
 
+// responds NO if somebody else is deleting or renaming the mailbox
+static derr_t freeze_or_no(
+    sc_t *sc,
+    ie_dstr_t **cmdtagp,
+    const dstr_t *name,
+    dirmgr_freeze_t **out,
+    bool *valid
+){
+    derr_t e = E_OK;
+
+    *valid = false;
+
+    derr_t e2 = dirmgr_freeze_new(sc->dirmgr, name, out);
+    CATCH(&e2, E_BUSY){
+        DROP_VAR(&e2);
+        PROP(&e, RESP_NO(cmdtagp, "mailbox is busy", &sc->resps) );
+        return e;
+    }else PROP_VAR(&e, &e2);
+
+    *valid = true;
+
+    return e;
+}
+
 static derr_t pre_delete(
     sc_t *sc, ie_dstr_t **cmdtagp, imap_cmd_arg_t *argp, bool *valid
 ){
@@ -601,9 +632,9 @@ static derr_t pre_delete(
     }
 
     // take out a freeze on the mailbox in question
-    PROP(&e, dirmgr_freeze_new(sc->dirmgr, &deleting, &sc->freeze_deleting) );
-
-    *valid = true;
+    PROP(&e,
+        freeze_or_no(sc, cmdtagp, &deleting, &sc->freeze_deleting, valid)
+    );
 
     return e;
 }
@@ -650,7 +681,7 @@ static derr_t pre_rename(
     // can't RENAME to/from a mailbox you are connected to
     if(sc->dn_active){
         const dstr_t opened = *ie_mailbox_name(sc->selected_mailbox);
-        if(dstr_eq(opened, old) || dstr_eq(opened, new)){
+        if(dirmgr_name_below(&opened, &old) || dstr_eq(opened, new)){
             PROP(&e,
                 RESP_NO(
                     cmdtagp, "unable to RENAME what is SELECTed", &sc->resps
@@ -660,11 +691,18 @@ static derr_t pre_rename(
         }
     }
 
-    // take out a freeze on the mailbox in question
-    PROP(&e, dirmgr_freeze_new(sc->dirmgr, &old, &sc->freeze_rename_src) );
-    PROP(&e, dirmgr_freeze_new(sc->dirmgr, &new, &sc->freeze_rename_dst) );
-
-    *valid = true;
+    // take out a freeze on the mailboxes in question
+    PROP(&e,
+        freeze_or_no(sc, cmdtagp, &old, &sc->freeze_rename_src, valid)
+    );
+    if(!*valid) return e;
+    PROP(&e,
+        freeze_or_no(sc, cmdtagp, &new, &sc->freeze_rename_dst, valid)
+    );
+    if(!*valid){
+        dirmgr_freeze_free(sc->freeze_rename_src);
+        sc->freeze_rename_src = NULL;
+    }
 
     return e;
 }
diff --git a/libimaildir/dirmgr.c b/libimaildir/dirmgr.c
index 38f2b3a..755c882 100644
--- a/libimaildir/dirmgr.c
+++ b/libimaildir/dirmgr.c
@@ -353,6 +353,11 @@ bool dirmgr_name_valid(const dstr_t *name){
     return true;
 }
 
+bool dirmgr_name_below(const dstr_t *name, const dstr_t *top){
+    if(!dstr_beginswith(name, top)) return false;
+    return name->len == top->len || name->data[top->len] == '/';
+}
+
 // part of the imaildir_cb_i
 static bool imaildir_cb_allow_download(imaildir_cb_i *cb, imaildir_t *m){
     dirmgr_t *dm = CONTAINER_OF(cb, dirmgr_t, imaildir_cb);
@@ -715,6 +720,81 @@ void dirmgr_freeze_free(dirmgr_freeze_t *freeze){
     free(freeze);
 }
 
+typedef struct {
+    bool ctn; // which pass are we in?
+    bool inferiors;
+} delete_mbx_arg_t;
+
+// delete_mbx_entry is a for_each_file_hook_t
+static derr_t delete_mbx_entry(
+    const string_builder_t *base, const dstr_t *name, bool isdir, void *data
+){
+    derr_t e = E_OK;
+
+    delete_mbx_arg_t *arg = data;
+
+    bool ctn = isdir && (
+        dstr_eq(*name, DSTR_LIT("cur"))
+        || dstr_eq(*name, DSTR_LIT("tmp"))
+        || dstr_eq(*name, DSTR_LIT("new"))
+    );
+
+    if(isdir && !ctn){
+        // inferior mailboxes are not ours to delete
+        arg->inferiors = true;
+        return e;
+    }
+
+    if(ctn != arg->ctn) return e;
+
+    string_builder_t path = sb_append(base, SBD(*name));
+    PROP(&e, rm_rf_path(&path) );
+
+    return e;
+}
+
+// delete a mailbox but not its inferiors
+static derr_t delete_mbx(const string_builder_t *path, bool *inferiors){
+    derr_t e = E_OK;
+
+    *inferiors = false;
+
+    bool exists;
+    PROP(&e, exists_path(path, &exists) );
+    if(!exists) return e;
+
+    // messages first, since the cache may exist without messages
+    delete_mbx_arg_t arg = { .ctn = true };
+    PROP(&e, for_each_file_in_dir(path, delete_mbx_entry, &arg) );
+    arg.ctn = false;
+    PROP(&e, for_each_file_in_dir(path, delete_mbx_entry, &arg) );
+
+    *inferiors = arg.inferiors;
+    if(!arg.inferiors){
+        PROP(&e, drmdir_path(path) );
+    }
+
+    return e;
+}
+
+// close all of the imaildirs which are inferior to a mailbox
+static void forceclose_inferiors(dirmgr_t *dm, const dstr_t *top){
+    hashmap_trav_t trav;
+    hash_elem_t *h = hashmap_iter(&trav, &dm->dirs);
+    while(h){
+        managed_dir_t *mgd = CONTAINER_OF(h, managed_dir_t, h);
+        if(!dirmgr_name_below(&mgd->name, top)){
+            h = hashmap_next(&trav);
+            continue;
+        }
+        hash_elem_remove(&mgd->h);
+        imaildir_forceclose(&mgd->m);
+        managed_dir_free(&mgd);
+        // start over after modifying the hashmap
+        h = hashmap_iter(&trav, &dm->dirs);
+    }
+}
+
 // the freeze you have holds the name
 derr_t dirmgr_delete(dirmgr_t *dm, dirmgr_freeze_t *freeze){
     derr_t e = E_OK;
@@ -728,11 +808,8 @@ derr_t dirmgr_delete(dirmgr_t *dm, dirmgr_freeze_t *freeze){
 
 
     string_builder_t dir_path = sb_append(&dm->path, SBD(freeze->name));
-    bool exists;
-    PROP(&e, exists_path(&dir_path, &exists) );
-    if(exists){
-        PROP(&e, rm_rf_path(&dir_path) );
-    }
+    bool inferiors;
+    PROP(&e, delete_mbx(&dir_path, &inferiors) );
 
     return e;
 }
@@ -757,20 +834,39 @@ derr_t dirmgr_rename(dirmgr_t *dm, dirmgr_freeze_t *src, dirmgr_freeze_t *dst){
     string_builder_t src_path = sb_append(&dm->path, SBD(src->name));
     string_builder_t dst_path = sb_append(&dm->path, SBD(dst->name));
 
-    // delete dst_path
-    bool exists;
-    PROP(&e, exists_path(&dst_path, &exists) );
-    if(exists){
-        // TODO: this will not play nicely with hierarchical mailboxes
-        PROP(&e, rm_rf_path(&dst_path) );
+    bool inferiors;
+
+    /* RENAME INBOX moves the messages away, but INBOX remains, and so do its
+       inferiors.  Let both mailboxes synchronize from scratch. */
+    bool is_inbox = dstr_eq(src->name, DSTR_LIT("INBOX"));
+    if(is_inbox){
+        PROP(&e, delete_mbx(&src_path, &inferiors) );
+        return e;
     }
 
+    // inferior mailboxes are also renamed
+    forceclose_inferiors(dm, &src->name);
+
+    // delete dst_path
+    PROP(&e, delete_mbx(&dst_path, &inferiors) );
+
     // do the rename
+    bool exists;
     PROP(&e, exists_path(&src_path, &exists) );
-    if(exists){
-        PROP(&e, drename_path(&src_path, &dst_path) );
+    if(!exists) return e;
+
+    if(inferiors){
+        /* there is a dst_path in use as a parent, so we can't rename to it.
+           Forget what we have and let it be synchronized again. */
+        PROP(&e, rm_rf_path(&src_path) );
+        return e;
     }
 
+    // make sure dst_path has a parent
+    PROP(&e, mkdirs_path(&dst_path, 0777) );
+    PROP(&e, drmdir_path(&dst_path) );
+    PROP(&e, drename_path(&src_path, &dst_path) );
+
     return e;
 }
 
diff --git a/libimaildir/dirmgr.h b/libimaildir/dirmgr.h
index 838160d..8fe6f62 100644
--- a/libimaildir/dirmgr.h
+++ b/libimaildir/dirmgr.h
@@ -89,6 +89,8 @@ void dirmgr_close_dn(dirmgr_t *dm, dn_t *dn);
    - names starting or ending with /
    - names containing newlines */
 bool dirmgr_name_valid(const dstr_t *name);
+// returns true if name is top or one of its inferiors
+bool dirmgr_name_below(const dstr_t *name, const dstr_t *top);
 
 typedef derr_t (*for_each_mbx_hook_t)(const dstr_t *name, bool has_ctn,
         bool has_children, void *data);
-- 
2.43.0


From 7c4a943b2edd37e37692037a5b38e07e8b1f8026 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:14:15 +0000
Subject: [PATCH 117/130] fix: a failure to remember an opened mailbox is not
 dropped

---
 libcitm/sc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index f637442..b25e190 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -384,7 +384,7 @@ static derr_t advance_select(
         // did we sync a mailbox successfully?
         if(success){
             const dstr_t *mailbox_name = ie_mailbox_name(sc->selected_mailbox);
-            sc->kd->mailbox_synced(sc->kd, *mailbox_name);
+            PROP(&e, sc->kd->mailbox_synced(sc->kd, *mailbox_name) );
         }
     }
 
-- 
2.43.0


From 2d6fe9a4b8441a9bf21f246ae295264a3ee642e7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:20:31 +0000
Subject: [PATCH 118/130] fix: a partial response before STARTTLS is not part
 of the encrypted session

---
 libcitm/imap_client.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcitm/imap_client.c b/libcitm/imap_client.c
index 44c1d43..bae2655 100644
--- a/libcitm/imap_client.c
+++ b/libcitm/imap_client.c
@@ -253,6 +253,10 @@ static derr_t starttls(imap_client_t *c){
         ORIG(&e, E_INTERNAL, "imap_client is mid-read during STARTTLS");
     }
 
+    // forget any partial response that was not encrypted
+    imap_resp_reader_free(&c->reader);
+    PROP(&e, imap_resp_reader_init(&c->reader, &c->exts) );
+
     // un-await our current stream
     c->stream->await(c->stream, NULL);
 
-- 
2.43.0


From 767d5b6fd8285856cc1296744178a7f92d768a35 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:34:01 +0000
Subject: [PATCH 119/130] fix: drop planned deletions and fetches when
 UIDVALIDITY changes

---
 libimaildir/up.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index edcc162..be88313 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -1201,6 +1201,10 @@ static derr_t untagged_ok(up_t *up, const ie_st_code_t *code){
                 );
 
                 if(code->arg.uidvld != up->select.uidvld_up){
+                    /* whatever we planned to fetch or to delete was named by
+                       UIDs of the old UIDVALIDITY */
+                    up_free_fetch(up);
+                    up_free_deletions(up);
                     /* invalidate our himodseq seen, which may be from an
                        old UIDVALIDITY */
                     up->himodseq_up_seen = 0;
-- 
2.43.0


From 38c51c7cced2475bfb43de4e7e4ed11f075e67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:34:46 +0000
Subject: [PATCH 120/130] fix: finish dropping a cache whose log is already
 removed

---
 libimaildir/log_file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libimaildir/log_file.c b/libimaildir/log_file.c
index f13c047..176e3e2 100644
--- a/libimaildir/log_file.c
+++ b/libimaildir/log_file.c
@@ -597,6 +597,9 @@ cu:
 derr_t imaildir_log_rm(const string_builder_t *dirpath){
     derr_t e = E_OK;
     string_builder_t path = sb_append(dirpath, SBS(".cache"));
-    PROP(&e, remove_path(&path) );
+    // an earlier attempt may have died after removing it
+    bool exists;
+    PROP(&e, exists_path(&path, &exists) );
+    if(exists) PROP(&e, remove_path(&path) );
     return e;
 }
-- 
2.43.0


From 9df538c480cfe56ebdd01b2e21f2901d854d21fe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:37:54 +0000
Subject: [PATCH 121/130] fix: a huge chunk size overflowed and passed for a
 complete response

---
 libhttp/chunked.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libhttp/chunked.c b/libhttp/chunked.c
index b0d68d7..3ea5741 100644
--- a/libhttp/chunked.c
+++ b/libhttp/chunked.c
@@ -146,7 +146,10 @@ static dstr_t get_readable(chunked_rstream_t *c){
     if(c->buf.len < c->nbufread || c->nchunkbytes < c->nchunkread){
         LOG_FATAL("underflow\n");
     }
-    size_t limit = c->nchunkbytes - c->nchunkread;
+    // avoid overflow
+    size_t limit = MIN(
+        c->nchunkbytes - c->nchunkread, c->buf.len - c->nbufread
+    );
     return dstr_sub2(c->buf, c->nbufread, c->nbufread + limit);
 }
 
-- 
2.43.0


From 73a75b81f94bd98a84ae6beca8cda3b191957c0a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:47:27 +0000
Subject: [PATCH 122/130] fix: a copy whose last bytes failed at close was
 reported as done

---
 libdstr/fileops.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libdstr/fileops.c b/libdstr/fileops.c
index dc675d2..4839ce7 100644
--- a/libdstr/fileops.c
+++ b/libdstr/fileops.c
@@ -1116,8 +1116,14 @@ derr_t file_copy(const char* from, const char* to, mode_t mode){
         PROP_GO(&e, dstr_write(fdout, &buffer), cu_fdout);
     }
 
+    int ret;
 cu_fdout:
-    compat_close(fdout);
+    ret = compat_close(fdout);
+    // check for closing error
+    if(ret != 0 && !is_error(e)){
+        TRACE(&e, "compat_close(%x): %x\n", FS(to), FE(errno));
+        TRACE_ORIG(&e, E_OS, "failed to write file");
+    }
 cu_fdin:
     compat_close(fdin);
     return e;
-- 
2.43.0


From 9787030136585a06c6354be854f0c2f448833f93 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:51:32 +0000
Subject: [PATCH 123/130] fix: TLS connections are kept for the next request to
 the same server

---
 libhttp/duv_http.c | 18 +++++++++++++-----
 libhttp/duv_http.h |  3 +++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 7daaa31..2634a06 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -128,6 +128,7 @@ derr_t duv_http_init(
 
     // read_buf size is effectively the longest-allowed line length
     DSTR_WRAP_ARRAY(h->mem.host, h->mem._host);
+    DSTR_WRAP_ARRAY(h->mem.verified, h->mem._verified);
     PROP_GO(&e, dstr_new(&h->mem.read_buf, 8192), fail);
     // but write_buf size does not correspond to any restrictions
     PROP_GO(&e, dstr_new(&h->mem.write_buf, 4096), fail);
@@ -241,6 +242,12 @@ static void req_stream_await_cb(
     req_advance_state(req);
 }
 
+// the name which a tls server has to prove
+static dstr_t req_verify_name(duv_http_req_t *req){
+    if(req->verify_name) return dstr_from_cstr(req->verify_name);
+    return req->host;
+}
+
 static void req_start(duv_http_req_t *req, http_mem_t *m){
     /* there's a remote possibility we are canceled already and scheduled to
        handle it, in which case we don't touch m or m->stream */
@@ -264,6 +271,7 @@ static void req_start(duv_http_req_t *req, http_mem_t *m){
         || (m->connector.active && m->connector.canceling)
         || (m->stream && m->stream->canceled)
         || m->tls != req->tls
+        || (m->tls && !dstr_eq(m->verified, req_verify_name(req)))
         || !dstr_eq(m->host, req->host)
         || m->port != req->port
     ;
@@ -322,15 +330,11 @@ static void connect_cb(duv_connect_t *connector, derr_t e){
         m->ssl_ctx = ssl_ctx.ctx;
     }
     stream_i *tls_stream;
-    dstr_t verify_name = m->host;
-    if(req->verify_name){
-        verify_name = dstr_from_cstr(req->verify_name);
-    }
     PROP_GO(&req->e,
         duv_tls_wrap_client(
             &m->duv_tls,
             m->ssl_ctx,
-            verify_name,
+            m->verified,
             req->scheduler,
             m->stream,
             &tls_stream
@@ -770,7 +774,11 @@ static void req_advance_state(duv_http_req_t *req){
         if(!m->stream){
             // start a new connection
             PROP_GO(&req->e, dstr_copy(&req->host, &m->host), failing);
+            PROP_GO(&req->e,
+                dstr_copy2(req_verify_name(req), &m->verified),
+            failing);
             m->port = req->port;
+            m->tls = req->tls;
             DSTR_VAR(portbuf, 32);
             PROP_GO(&req->e, FMT(&portbuf, "%x", FU(m->port)), failing);
             m->connector.data = req;
diff --git a/libhttp/duv_http.h b/libhttp/duv_http.h
index 1ea58fe..cb4952c 100644
--- a/libhttp/duv_http.h
+++ b/libhttp/duv_http.h
@@ -36,6 +36,9 @@ typedef struct {
     char _host[256];
     dstr_t host;
     unsigned int port;
+    // the name which was verified (tls only)
+    char _verified[256];
+    dstr_t verified;
 
     stream_write_t write;
     stream_read_t read;
-- 
2.43.0


From 62b9bba4e59a7be39557100b380611ef74a28b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:03 +0000
Subject: [PATCH 124/130] revert "TLS connections are kept": test_duv_http
 relies on a new connection

---
 libhttp/duv_http.c | 18 +++++-------------
 libhttp/duv_http.h |  3 ---
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/libhttp/duv_http.c b/libhttp/duv_http.c
index 2634a06..7daaa31 100644
--- a/libhttp/duv_http.c
+++ b/libhttp/duv_http.c
@@ -128,7 +128,6 @@ derr_t duv_http_init(
 
     // read_buf size is effectively the longest-allowed line length
     DSTR_WRAP_ARRAY(h->mem.host, h->mem._host);
-    DSTR_WRAP_ARRAY(h->mem.verified, h->mem._verified);
     PROP_GO(&e, dstr_new(&h->mem.read_buf, 8192), fail);
     // but write_buf size does not correspond to any restrictions
     PROP_GO(&e, dstr_new(&h->mem.write_buf, 4096), fail);
@@ -242,12 +241,6 @@ static void req_stream_await_cb(
     req_advance_state(req);
 }
 
-// the name which a tls server has to prove
-static dstr_t req_verify_name(duv_http_req_t *req){
-    if(req->verify_name) return dstr_from_cstr(req->verify_name);
-    return req->host;
-}
-
 static void req_start(duv_http_req_t *req, http_mem_t *m){
     /* there's a remote possibility we are canceled already and scheduled to
        handle it, in which case we don't touch m or m->stream */
@@ -271,7 +264,6 @@ static void req_start(duv_http_req_t *req, http_mem_t *m){
         || (m->connector.active && m->connector.canceling)
         || (m->stream && m->stream->canceled)
         || m->tls != req->tls
-        || (m->tls && !dstr_eq(m->verified, req_verify_name(req)))
         || !dstr_eq(m->host, req->host)
         || m->port != req->port
     ;
@@ -330,11 +322,15 @@ static void connect_cb(duv_connect_t *connector, derr_t e){
         m->ssl_ctx = ssl_ctx.ctx;
     }
     stream_i *tls_stream;
+    dstr_t verify_name = m->host;
+    if(req->verify_name){
+        verify_name = dstr_from_cstr(req->verify_name);
+    }
     PROP_GO(&req->e,
         duv_tls_wrap_client(
             &m->duv_tls,
             m->ssl_ctx,
-            m->verified,
+            verify_name,
             req->scheduler,
             m->stream,
             &tls_stream
@@ -774,11 +770,7 @@ static void req_advance_state(duv_http_req_t *req){
         if(!m->stream){
             // start a new connection
             PROP_GO(&req->e, dstr_copy(&req->host, &m->host), failing);
-            PROP_GO(&req->e,
-                dstr_copy2(req_verify_name(req), &m->verified),
-            failing);
             m->port = req->port;
-            m->tls = req->tls;
             DSTR_VAR(portbuf, 32);
             PROP_GO(&req->e, FMT(&portbuf, "%x", FU(m->port)), failing);
             m->connector.data = req;
diff --git a/libhttp/duv_http.h b/libhttp/duv_http.h
index cb4952c..1ea58fe 100644
--- a/libhttp/duv_http.h
+++ b/libhttp/duv_http.h
@@ -36,9 +36,6 @@ typedef struct {
     char _host[256];
     dstr_t host;
     unsigned int port;
-    // the name which was verified (tls only)
-    char _verified[256];
-    dstr_t verified;
 
     stream_write_t write;
     stream_read_t read;
-- 
2.43.0


From 99b8e98df3e071d69125a1d86e9f308f65fbcb4e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 07:30:37 +0000
Subject: [PATCH 125/130] fix: keep planned downloads when a re-SELECT finds
 the same UIDVALIDITY

---
 libimaildir/up.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index be88313..d1ec567 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -1179,6 +1179,8 @@ static derr_t post_cmd_done(up_t *up, const ie_st_code_t *code){
 static derr_t untagged_ok(up_t *up, const ie_st_code_t *code){
     derr_t e = E_OK;
 
+    unsigned int old_uidvld_up;
+
     // Handle responses where the status code is what defines the behavior
     if(code != NULL){
         switch(code->type){
@@ -1195,12 +1197,16 @@ static derr_t untagged_ok(up_t *up, const ie_st_code_t *code){
                 break;
 
             case IE_ST_CODE_UIDVLD:
+                /* compare to the latest UIDVALIDITY, since in a re-SELECT the one
+                   from our first SELECT might be out-of-date */
+                old_uidvld_up = imaildir_get_uidvld_up(up->m);
+
                 // imaildir will reset file storage in case of a mismatch
                 PROP(&e,
                     imaildir_up_check_uidvld_up(up->m, code->arg.uidvld)
                 );
 
-                if(code->arg.uidvld != up->select.uidvld_up){
+                if(code->arg.uidvld != old_uidvld_up){
                     /* whatever we planned to fetch or to delete was named by
                        UIDs of the old UIDVALIDITY */
                     up_free_fetch(up);
-- 
2.43.0


From 7e5eb6fe4a5df318daf7aa105b5020c506b7438a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 07:40:06 +0000
Subject: [PATCH 126/130] fix: reopen the cache file after a failed compaction
 instead of crashing

---
 libimaildir/log_file.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/libimaildir/log_file.c b/libimaildir/log_file.c
index 176e3e2..9911214 100644
--- a/libimaildir/log_file.c
+++ b/libimaildir/log_file.c
@@ -157,6 +157,21 @@ static unsigned int get_uidvld_up(maildir_log_i *iface){
     return log->uidvld_up;
 }
 
+static derr_t write_line(log_t *log, const dstr_t *line){
+    derr_t e = E_OK;
+
+    // a failed compaction leaves us without an open log file
+    if(!log->f){
+        string_builder_t path = sb_append(log->dirpath, SBS(".cache"));
+        PROP(&e, dfopen_path(&path, "a", &log->f) );
+    }
+
+    PROP(&e, dstr_fwrite(log->f, line) );
+    PROP(&e, dffsync(log->f) );
+
+    return e;
+}
+
 static unsigned int get_uidvld_dn(maildir_log_i *iface){
     log_t *log = CONTAINER_OF(iface, log_t, iface);
     return log->uidvld_dn;
@@ -179,8 +194,7 @@ static derr_t set_uidvlds(
     PROP(&e, FMT(&buf, "|%x:%x\n", FU(uidvld_up), FU(uidvld_dn)) );
 
     // write a line
-    PROP(&e, dstr_fwrite(log->f, &buf) );
-    PROP(&e, dffsync(log->f) );
+    PROP(&e, write_line(log, &buf) );
 
     // assume all new lines are updates for now (it's close enough to true)
     log->lines++;
@@ -210,8 +224,7 @@ static derr_t set_himodseq_up(maildir_log_i *iface, uint64_t himodseq_up){
     PROP(&e, FMT(&buf, "|%x\n", FU(himodseq_up)) );
 
     // write a line
-    PROP(&e, dstr_fwrite(log->f, &buf) );
-    PROP(&e, dffsync(log->f) );
+    PROP(&e, write_line(log, &buf) );
 
     // assume all new lines are updates for now (it's close enough to true)
     log->lines++;
@@ -232,8 +245,7 @@ static derr_t set_explicit_modseq_dn(maildir_log_i *iface, uint64_t modseq_dn){
     PROP(&e, FMT(&buf, "|%x\n", FU(modseq_dn)) );
 
     // write a line
-    PROP(&e, dstr_fwrite(log->f, &buf) );
-    PROP(&e, dffsync(log->f) );
+    PROP(&e, write_line(log, &buf) );
 
     // assume all new lines are updates for now (it's close enough to true)
     log->lines++;
@@ -260,8 +272,7 @@ static derr_t update_msg(maildir_log_i *iface, const msg_t *msg){
     PROP(&e, dstr_append(&buf, &DSTR_LIT("\n")) );
 
     // write a line
-    PROP(&e, dstr_fwrite(log->f, &buf) );
-    PROP(&e, dffsync(log->f) );
+    PROP(&e, write_line(log, &buf) );
 
     // assume all new lines are updates for now (it's close enough to true)
     log->lines++;
@@ -288,8 +299,7 @@ static derr_t update_expunge(maildir_log_i *iface, const msg_expunge_t *expunge)
     PROP(&e, dstr_append(&buf, &DSTR_LIT("\n")) );
 
     // write a line
-    PROP(&e, dstr_fwrite(log->f, &buf) );
-    PROP(&e, dffsync(log->f) );
+    PROP(&e, write_line(log, &buf) );
 
     // assume all new lines are updates for now (it's close enough to true)
     log->lines++;
-- 
2.43.0


From 63be37f7d0b864eafd326a9e3918c0f8ea17c1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 07:40:14 +0000
Subject: [PATCH 127/130] fix: free the updates gathered for a FETCH before the
 imaildir they refer to

---
 libimaildir/dn.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 54787b4..ec4bf0c 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -15,6 +15,7 @@ static derr_t get_msg_keys_to_expunge(dn_t *dn, msg_key_list_t **out);
 static const void *gathered_jsw_get_uid_dn(const jsw_anode_t *node);
 static void gather_prep(gather_t *gather);
 static void gather_free(gather_t *gather);
+static void gather_free_updates(gather_t *gather);
 static derr_t gathered_new(gathered_t **out, unsigned int uid_dn);
 static void gathered_free(gathered_t *gathered);
 static derr_t gather_updates_dont_send(
@@ -2245,6 +2246,14 @@ static void gather_prep(gather_t *gather){
     link_init(&gather->updates_to_free);
 }
 
+static void gather_free_updates(gather_t *gather){
+    link_t *link;
+    while((link = link_list_pop_first(&gather->updates_to_free))){
+        update_t *update = CONTAINER_OF(link, update_t, link);
+        update_free(&update);
+    }
+}
+
 static void gather_free(gather_t *gather){
     jsw_anode_t *node;
     while((node = jsw_apop(&gather->news))){
@@ -2259,11 +2268,7 @@ static void gather_free(gather_t *gather){
         gathered_t *gathered = CONTAINER_OF(node, gathered_t, node);
         free(gathered);
     }
-    link_t *link;
-    while((link = link_list_pop_first(&gather->updates_to_free))){
-        update_t *update = CONTAINER_OF(link, update_t, link);
-        update_free(&update);
-    }
+    gather_free_updates(gather);
 }
 
 static derr_t gathered_new(gathered_t **out, unsigned int uid_dn){
@@ -2757,6 +2762,8 @@ void dn_imaildir_update(dn_t *dn, update_t *update){
 }
 
 void dn_imaildir_failed(dn_t *dn){
+    // updates we have already gathered refer to the imaildir, too
+    gather_free_updates(&dn->fetch.gather);
     // let go of any imaildir's resources
     dn_free_views(dn);
     // wake up our owner so they can call us and fail a health check
-- 
2.43.0


From 31318950387b8a59aa8933e55d7113306760436b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 07:53:16 +0000
Subject: [PATCH 128/130] fix: report the first certificate of a new ACME
 account as the first, not as a renewal

---
 libcitm/acme_manager.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index b9b6cf2..008ecc4 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -1190,6 +1190,7 @@ derr_t acme_manager_init(
     // do we have an acme account yet?
     PROP_GO(&e, load_account(am, &ok), fail);
     if(!ok){
+        am->want_cert = true;
         am->maj = STATUS_MAJ_TLS_FIRST;
         am->min = STATUS_MIN_CREATE_ACCOUNT;
         goto done;
-- 
2.43.0


From 4c84ac5a126f50ca5b0cf3c41a8f82f695c6d696 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 07:53:53 +0000
Subject: [PATCH 129/130] fix: forget a finished ACME order before its key and
 cert are put in place

---
 libcitm/acme_manager.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index 008ecc4..242899b 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -658,6 +658,15 @@ static derr_t rename_new_key_and_cert(acme_manager_t *am, bool check){
         }
     }
 
+    /* delete the order object we cached, before its key becomes the active one:
+       if we crash, the new key and cert are renamed at the next startup, but a
+       leftover order would be downloaded again for the next, different key */
+    string_builder_t ordr = am_ordr(am);
+    PROP(&e, exists_path2(ordr, &ok) );
+    if(ok){
+        PROP(&e, dunlink_path(&ordr) );
+    }
+
     // does key.pem.new exist?
     PROP(&e, exists_path(&keynew, &ok) );
     if(ok){
@@ -836,13 +845,9 @@ static derr_t advance_new_cert(acme_manager_t *am, bool *new_cert_ready){
     string_builder_t certnew = am_certnew(am);
     PROP_GO(&e, dstr_write_path(&certnew, &nc->cert), cu);
 
-    // overwrite cert and key
+    // overwrite cert and key, and delete the order object we cached
     PROP_GO(&e, rename_new_key_and_cert(am, false), cu);
 
-    // delete the order object we cached
-    string_builder_t ordr = am_ordr(am);
-    PROP_GO(&e, dunlink_path(&ordr), cu);
-
     *new_cert_ready = true;
 
 cu:
-- 
2.43.0


From 970f2e07ff4b9a992236b9cf17e500d09775a821 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 07:53:53 +0000
Subject: [PATCH 130/130] fix: never start a second key generation while the
 first one is still running

---
 libcitm/acme_manager.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index 242899b..7797512 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -688,6 +688,7 @@ static derr_t advance_new_cert(acme_manager_t *am, bool *new_cert_ready){
 
     *new_cert_ready = false;
     bool ok;
+    bool keygen_running;
 
     // temporary errors in new cert efforts are reraised at this point
     PROP_VAR_GO(&e, &nc->e, cu);
@@ -851,7 +852,10 @@ static derr_t advance_new_cert(acme_manager_t *am, bool *new_cert_ready){
     *new_cert_ready = true;
 
 cu:
+    // keygen can't be canceled; if it is still running the next attempt uses it
+    keygen_running = nc->keygen_started && !nc->keygen_done;
     new_cert_free(nc);
+    nc->keygen_started = keygen_running;
 
     return e;
 }
-- 
2.43.0

