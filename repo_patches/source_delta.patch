From 7fd729fb55f52913bfd7b27538042d08e9f2dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 001/128] fix: osc_match zeroes the offsets when the backtrack
 limit is exceeded

---
 osc_match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_match.c b/osc_match.c
index 4b35498..2544130 100644
--- a/osc_match.c
+++ b/osc_match.c
@@ -123,7 +123,7 @@ static void osc_match_printState(const char *pattern, const char *address, int p
 #define OSC_MATCH_PUSH(__p, __a){					\
 		sp++;							\
 		if((sp - stack) >= OSC_MATCH_BACKTRACK_LIMIT){		\
-			return OSC_MATCH_ERROR_BACKTRACK_LIMIT_EXCEEDED; \
+			OSC_MATCH_RETURN_FAILURE(OSC_MATCH_ERROR_BACKTRACK_LIMIT_EXCEEDED); \
 		}							\
 		sp->p = __p;						\
 		sp->a = __a;						\
-- 
2.43.0


From c8b3a41326d95e68b32698e1223bea2200264940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 002/128] fix: osc_match treats a leading ']' in a character
 set as a member of the set

---
 osc_match.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/osc_match.c b/osc_match.c
index 2544130..1fd94ca 100644
--- a/osc_match.c
+++ b/osc_match.c
@@ -244,11 +244,15 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 					break;
 				case 1:
 					sp->a++;
-					// if the first char inside the opening square bracket is 
-					// a closing square bracket, it's treated as a normal char,
-					// so skip over it
-					if(pattern[sp->p + 1] == ']'){
-						sp->p += 2;
+					// if the first char inside the opening square bracket (or
+					// after the exclamation point) is a closing square bracket,
+					// it's treated as a normal char, so skip over it
+					sp->p++;
+					if(pattern[sp->p] == '!'){
+						sp->p++;
+					}
+					if(pattern[sp->p] == ']'){
+						sp->p++;
 					}
 					while(1){
 						if(pattern[sp->p] == ']'){
@@ -356,12 +360,8 @@ static inline int osc_match_range(const char *pattern, const char *address)
 
 	// we're on the first character inside the square brackets
 	// if it's a - or a ], it gets treated as a normal character
-	if(*p == ']'){
-		if(*p == *address){
-			return val;
-		}
-	}
-	while(*p != ']'){
+	const char *first = p;
+	while(p == first || *p != ']'){
 		char c = *p++, c2;
 		if(c == '\0' || c == '/'){
 			return OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET;
-- 
2.43.0


From 4c72eaf9a2b4e60ee4f24f0e2b95e7f64549d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:15 +0000
Subject: [PATCH 003/128] fix: osc_message_u_serialize returns NULL for a
 message without an address instead of reading past an empty buffer

---
 osc_message_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index 15994ac..23a49d0 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -1035,6 +1035,9 @@ long osc_message_u_getSerializedSize(t_osc_msg_u *m)
 t_osc_msg_s *osc_message_u_serialize(t_osc_msg_u *m)
 {
 	size_t n = osc_message_u_nserialize(NULL, 0, m);
+	if(!n){
+		return NULL;
+	}
 	char *buf = osc_mem_alloc(n);
 	osc_message_u_nserialize(buf, n, m);
 	t_osc_msg_s *mm = osc_message_s_alloc();
-- 
2.43.0


From 778ec1d518c04985b72fb87f272ac10eee39202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:15 +0000
Subject: [PATCH 004/128] fix: osc_message_u_insertAtom terminates the list
 when inserting at the end

---
 osc_message_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index 23a49d0..8687315 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -279,6 +279,7 @@ t_osc_err osc_message_u_insertAtom(t_osc_msg_u *m, t_osc_atom_u *a, int pos)
 			m->argtail->next = a;
 		}
 		a->prev = m->argtail;
+		a->next = NULL;
 		m->argtail = a;
 		goto out;
 	}
-- 
2.43.0


From 7812aea095b4256a2f673c3311572ebb242bfd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:15 +0000
Subject: [PATCH 005/128] fix: osc_message_u_prependString and
 osc_message_u_insertString no longer leak a second copy of the string

---
 osc_message_u.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 8687315..3067274 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -596,10 +596,7 @@ t_osc_atom_u *osc_message_u_prependStringPtr(t_osc_msg_u *m, char *v)
 t_osc_atom_u *osc_message_u_prependString(t_osc_msg_u *m, char *v)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_prependAtom(m, a);
 	return a;
 }
@@ -765,10 +762,7 @@ t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 t_osc_atom_u *osc_message_u_insertString(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
-- 
2.43.0


From 80706741db0c8cd7b686a5df82da9a67ce2a1ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:15 +0000
Subject: [PATCH 006/128] fix: osc_message_u_setAddress releases the old
 address when it is set to NULL

---
 osc_message_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index 3067274..dafdbd5 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -171,6 +171,9 @@ t_osc_err osc_message_u_setAddress(t_osc_msg_u *m, const char *address)
 		return OSC_ERR_INVAL;
 	}
 	if(!address){
+		if(m->address){
+			osc_mem_free(m->address);
+		}
 		m->address = NULL;
 		return OSC_ERR_NONE;
 	}
-- 
2.43.0


From ba2573afcd3f61d3065024f70740849c19dfc42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 007/128] fix: osc_atom_u_nserialize encodes 8- and 16-bit
 integers by value, not with stale bytes of the union

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index d07407b..87c0c5f 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1355,7 +1355,7 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 		if(!buf){
 			return 4;
 		}else if(n >= 4){
-			int32_t i = a->w.i;
+			int32_t i = osc_atom_u_getInt32(a);
 			*((int32_t *)buf) = hton32(i);
 			return 4;
 		}
-- 
2.43.0


From faef97079081c368e699635d82a919e8a8080958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 008/128] fix: osc_atom_u_nserialize of a bundle into a short
 buffer no longer falls through to the time tag case

---
 osc_atom_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 87c0c5f..c2a06c6 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1401,6 +1401,7 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 				return osc_bundle_u_nserialize(buf + 4, len, a->w.bndl) + 4;
 			}
 		}
+		break;
 	case OSC_TIMETAG_TYPETAG:
 		if(!buf){
 			return OSC_TIMETAG_SIZEOF;
-- 
2.43.0


From 37c534ad974cde9ccfb84b2de4fa65f1a8cb6d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 009/128] fix: osc_atom_u_clear releases a blob owned by the
 atom, and only as a blob

---
 osc_atom_u.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index c2a06c6..d95829c 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -134,7 +134,7 @@ void osc_atom_u_clear(t_osc_atom_u *a)
 		osc_bundle_u_free(a->w.bndl);
 		a->w.bndl = NULL;
 	}else if(a->alloc && a->typetag == 'b' && a->w.b){
-        osc_bundle_u_free(a->w.b);
+        osc_mem_free(a->w.b);
         a->w.b = NULL;
     }
 	a->alloc = 0;
@@ -1237,6 +1237,7 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	memcpy(copy, blob, l + 4);
 	a->w.b = copy;
 	a->typetag = 'b';
+	a->alloc = 1;
 }
 
 void osc_atom_u_setBlobPtr(t_osc_atom_u *a, char *blob)
-- 
2.43.0


From e542ded3cadddd6d7675040983b482b9668f4218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 010/128] fix: osc_atom_u_setString releases a blob or bundle
 the atom held before

---
 osc_atom_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index d95829c..65a02cf 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1121,6 +1121,7 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 			a->w.s = NULL;
 		}
 	}else{
+		osc_atom_u_clear(a);
 		if(v){
 			a->w.s = osc_mem_alloc(strlen(v) + 1);
 			strcpy(a->w.s, v);
-- 
2.43.0


From ac8dbae5eb4bed79de6ca333ea444a17e74bdc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 011/128] fix: osc_atom_u_setBndl_u releases the value the atom
 held before

---
 osc_atom_u.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 65a02cf..1ad107d 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1208,6 +1208,10 @@ void osc_atom_u_setBndl_s(t_osc_atom_u *a, long len, char *ptr)
 
 void osc_atom_u_setBndl_u(t_osc_atom_u *a, t_osc_bndl_u *b)
 {
+	if(!a){
+		return;
+	}
+	osc_atom_u_clear(a);
 	a->w.bndl = b;
 	a->typetag = OSC_BUNDLE_TYPETAG;
 }
-- 
2.43.0


From 61dcc0b52597fd61328dea228a8d22e2155f08d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 012/128] fix: osc_message_u_deepCopy into an existing message
 releases what it held

---
 osc_message_u.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index dafdbd5..7650892 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -107,6 +107,12 @@ t_osc_err osc_message_u_deepCopy(t_osc_msg_u **dest, t_osc_msg_u *src)
 	}
 	if(!(*dest)){
 		*dest = osc_message_u_alloc();
+	}else{
+		osc_message_u_clearArgs(*dest);
+		if((*dest)->address){
+			osc_mem_free((*dest)->address);
+			(*dest)->address = NULL;
+		}
 	}
 	(*dest)->size = src->size;
 	(*dest)->argc = 0;
-- 
2.43.0


From 7e35f65027c1e2235400b1316a718fa785227299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 013/128] fix: a partial lookup with a malformed pattern finds
 nothing instead of every message

---
 osc_bundle_u.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 3234705..304781f 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -148,7 +148,7 @@ t_osc_err osc_bundle_u_addressExists(t_osc_bndl_u *bndl, char *address, int full
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				continue;
 			}
 		}
@@ -176,7 +176,7 @@ t_osc_err osc_bundle_u_addressIsBound(t_osc_bndl_u *bndl, char *address, int ful
                 continue;
             }
         }else{
-            if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+            if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
                 continue;
             }
         }
@@ -234,7 +234,7 @@ t_osc_msg_ar_u *osc_bundle_u_lookupAddress(t_osc_bndl_u *bndl, const char *addre
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				continue;
 			}
 		}
-- 
2.43.0


From a4e6e288314c85ce8c3c2161a9ed7104387c6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 014/128] fix: looking up, replacing and removing messages of a
 bundle skip messages without an address

---
 osc_bundle_u.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 304781f..1bc588a 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -228,6 +228,9 @@ t_osc_msg_ar_u *osc_bundle_u_lookupAddress(t_osc_bndl_u *bndl, const char *addre
 		}
 		t_osc_msg_u *current_message = osc_bndl_it_u_next(it);
 		int po, ao;
+		if(!osc_message_u_getAddress(current_message)){
+			continue;
+		}
 		int r = osc_match(address, osc_message_u_getAddress(current_message), &po, &ao);
 		if(fullmatch){
 			if(r != (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE)){
@@ -276,7 +279,7 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
             t_osc_msg_u *m = bndl->msghead;
             while(m){
                 t_osc_msg_u *next = m->next;
-                if(!strcmp(address, osc_message_u_getAddress(m))){
+                if(osc_message_u_getAddress(m) && !strcmp(address, osc_message_u_getAddress(m))){
                     // later maybe try to maintain memmory location if the value is a bundle?
                     // in that case we might not clear first, but copy the new value into the bundle at this message
                     t_osc_msg_u * next = m->next;
@@ -419,7 +422,7 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
         t_osc_msg_u *m = bndl->msghead;
         while(m){
             t_osc_msg_u *next = m->next;
-            if(!strcmp(address, osc_message_u_getAddress(m))){
+            if(osc_message_u_getAddress(m) && !strcmp(address, osc_message_u_getAddress(m))){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
                 bndl->msgcount--;
-- 
2.43.0


From 0003c2863f700e617db64b599d3713a05b9850bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 015/128] fix: osc_bundle_u_removeMsg keeps the message count

---
 osc_bundle_u.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 1bc588a..c93a225 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -266,7 +266,6 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
 				if(messageaddr && !strcmp(address, messageaddr)){
 					osc_bundle_u_removeMsg(bndl, m);
 					osc_message_u_free(m);
-					bndl->msgcount--;
 				}
 				m = next;
 			}
@@ -413,6 +412,7 @@ t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
 	if(m == bndl->msgtail){
 		bndl->msgtail = m->prev;
 	}
+	bndl->msgcount--;
 	return OSC_ERR_NONE;
 }
 
@@ -425,7 +425,6 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
             if(osc_message_u_getAddress(m) && !strcmp(address, osc_message_u_getAddress(m))){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
-                bndl->msgcount--;
             }
             m = next;
         }
-- 
2.43.0


From 3560a420190c3991c4bf30335641e3853ac5c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 016/128] fix: osc_bundle_u_addMsgList links the messages in
 both directions and keeps the messages already in the bundle

---
 osc_bundle_u.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index c93a225..bd745af 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -382,17 +382,12 @@ t_osc_err osc_bundle_u_addMsgList(t_osc_bndl_u *bndl, t_osc_msg_u *msgs)
 	if(!bndl){
 		return OSC_ERR_NOBUNDLE;
 	}
-	int n = 0;
-	t_osc_msg_u *last = msgs;
-	bndl->msghead = msgs;
 	while(msgs){
-		n++;
-		last = msgs;
-		msgs = osc_message_u_next(msgs);
+		t_osc_msg_u *next = osc_message_u_next(msgs);
+		osc_bundle_u_addMsg(bndl, msgs);
+		msgs = next;
 	}
-	bndl->msgcount = n;
-	bndl->msgtail = last;
-	return 0;
+	return OSC_ERR_NONE;
 }
 
 t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
-- 
2.43.0


From bf0b895c11ebf4509f98cc76577a11d0987a5d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 017/128] fix: osc_bundle_u_removeMsg detaches the removed
 message from its former neighbours

---
 osc_bundle_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index bd745af..87d83e9 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -407,6 +407,7 @@ t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
 	if(m == bndl->msgtail){
 		bndl->msgtail = m->prev;
 	}
+	m->prev = m->next = NULL;
 	bndl->msgcount--;
 	return OSC_ERR_NONE;
 }
-- 
2.43.0


From 832c90f67f99c03e889fdb2dad180c9603e3564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 018/128] fix: osc_bundle_u_addressExists and
 osc_bundle_u_addressIsBound find nothing for a NULL address

---
 osc_bundle_u.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 87d83e9..9f527dd 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -134,6 +134,9 @@ t_osc_err osc_bundle_u_getMessagesWithCallback(t_osc_bndl_u *bndl, void (*f)(t_o
 t_osc_err osc_bundle_u_addressExists(t_osc_bndl_u *bndl, char *address, int fullmatch, int *res)
 {
 	*res = 0;
+	if(!address){
+		return OSC_ERR_NULLPTR;
+	}
 	t_osc_bndl_it_u *it = osc_bndl_it_u_get(bndl);
 	while(osc_bndl_it_u_hasNext(it)){
 		t_osc_msg_u *m = osc_bndl_it_u_next(it);
@@ -162,6 +165,9 @@ t_osc_err osc_bundle_u_addressExists(t_osc_bndl_u *bndl, char *address, int full
 t_osc_err osc_bundle_u_addressIsBound(t_osc_bndl_u *bndl, char *address, int fullmatch, int *res)
 {
     *res = 0;
+    if(!address){
+        return OSC_ERR_NULLPTR;
+    }
     t_osc_bndl_it_u *it = osc_bndl_it_u_get(bndl);
     while(osc_bndl_it_u_hasNext(it)){
         t_osc_msg_u *m = osc_bndl_it_u_next(it);
-- 
2.43.0


From a1863023f67347dd47769a99a554ea8d9ec20f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 019/128] fix: osc_bundle_u_flatten frees a removed bundle
 argument only when the iterator has passed it

---
 osc_bundle_u.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 9f527dd..9aacd01 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -454,8 +454,12 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 		osc_message_u_deepCopy(&mcopy, m);
 		if((level < maxlevel) || (maxlevel <= 0)){
 			t_osc_msg_it_u *mit = osc_msg_it_u_get(mcopy);
+			t_osc_atom_u *removed = NULL;
 			while(osc_msg_it_u_hasNext(mit)){
 				t_osc_atom_u *a = osc_msg_it_u_next(mit);
+				// the iterator has left the removed atom, so it can go now
+				osc_atom_u_free(removed);
+				removed = NULL;
 				if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
 					osc_message_u_removeAtom(mcopy, a);
 					t_osc_bndl_u *bu = osc_atom_u_getBndl(a);
@@ -489,9 +493,10 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 					if(e){
 						return e;
 					}
-					osc_atom_u_free(a);
+					removed = a;
 				}
 			}
+			osc_atom_u_free(removed);
 			osc_msg_it_u_destroy(mit);
 		}
 		if(!remove_enclosing_address_if_empty || osc_message_u_getArgCount(mcopy) > 0){
-- 
2.43.0


From b077d8e0dbf8f692d9ef13829bbdad0daabd73cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 020/128] fix: osc_message_u_explode leaves out a separator
 other than '/' instead of recursing for ever

---
 osc_message_u.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 7650892..f777f43 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -908,11 +908,12 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 			if(a[i] == '/'){
 				strncpy(a2, a + i, (alen - i) + 1);
 			}else{
+				// leave out the separator, which would be found again otherwise
 				if(a[i + 1] == '/'){
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strncpy(a2 + 1, a + i + 1, (alen - i));
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
@@ -943,11 +944,12 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 			if(a[i] == '/'){
 				strncpy(a2, a + i, (alen - i) + 1);
 			}else{
+				// leave out the separator, which would be found again otherwise
 				if(a[i + 1] == '/'){
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strncpy(a2 + 1, a + i + 1, (alen - i));
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
-- 
2.43.0


From 5b35f3063e07894ab2f6584198cbb066d2d32edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:35 +0000
Subject: [PATCH 021/128] fix: osc_bundle_s_allocEmptyBundle starts from no
 bytes and allocates the whole header

---
 osc_bundle_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 26173cc..faca4c6 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -54,7 +54,7 @@ t_osc_bndl_s *osc_bundle_s_alloc(long len, char *ptr)
 
 t_osc_bndl_s *osc_bundle_s_allocEmptyBundle(void)
 {
-	t_osc_bndl_s *b = osc_mem_alloc(sizeof(t_osc_bndl_s));
+	t_osc_bndl_s *b = osc_bundle_s_alloc(0, NULL);
 	osc_bundle_s_setBundleID_b(b);
 	return b;
 }
@@ -499,7 +499,7 @@ t_osc_err osc_bundle_s_setBundleID_b(t_osc_bndl_s *bndl)
 		return OSC_ERR_NOBUNDLE;
 	}
 	if(!(bndl->ptr)){
-		bndl->ptr = osc_mem_alloc(OSC_IDENTIFIER_SIZE);
+		bndl->ptr = osc_mem_alloc(OSC_HEADER_SIZE);
 		if(!(bndl->ptr)){
 			return OSC_ERR_OUTOFMEM;
 		}
-- 
2.43.0


From 93f9c79694177b83064ff244397f17082ce63413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:37 +0000
Subject: [PATCH 022/128] fix: osc_bundle_s_addressIsBound finds the typetags
 behind the message's address, not the pattern's length

---
 osc_bundle_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index faca4c6..0472358 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -196,7 +196,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 			}
 		}
 		//if(osc_message_s_getArgCount(m) > 0){
-		char *tt = msg_address + osc_util_getPaddedStringLen(address);
+		char *tt = msg_address + osc_util_getPaddedStringLen(msg_address);
 		if(tt - msg < size + 4 && tt[1] != 0){
 			*res = 1;
 			break;
-- 
2.43.0


From dc88d8c85ac6d508913193607df33bbb8573fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 023/128] fix: osc_bundle_s_wrapMessage clears the time tag

---
 osc_bundle_s.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 0472358..1835d21 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -339,6 +339,7 @@ t_osc_err osc_bundle_s_wrapMessage(long len, char *msg, long *bndllen, char **bn
 		}
 		*alloc = 1;
 	}
+	memset(*bndl, '\0', OSC_HEADER_SIZE); // clear timetag
 	osc_bundle_s_setBundleID(*bndl);
 	*((int32_t *)((*bndl) + OSC_HEADER_SIZE)) = hton32(len);
 	memcpy((*bndl) + OSC_HEADER_SIZE + 4, msg, len);
-- 
2.43.0


From f97ea10a688e866c5dcd9c1605f2594261355813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 024/128] fix: the empty results of osc_bundle_s_union,
 intersection and difference have a zero time tag

---
 osc_bundle_s.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 1835d21..2088c10 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -700,6 +700,7 @@ t_osc_bndl_s *osc_bundle_s_union(t_osc_bndl_s *lhs, t_osc_bndl_s *rhs)
 	t_osc_bndl_s *b = NULL;
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+		memset(bndl_out, '\0', OSC_HEADER_SIZE); // clear timetag
 		osc_bundle_s_setBundleID(bndl_out);
 		len_out = OSC_HEADER_SIZE;
 		goto out;
@@ -757,6 +758,7 @@ t_osc_err osc_bundle_s_intersection(long len1, char *bndl1, long len2, char *bnd
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
+		memset(*bndl_out, '\0', OSC_HEADER_SIZE); // clear timetag
 		osc_bundle_s_setBundleID(*bndl_out);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
@@ -802,6 +804,7 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
+		memset(*bndl_out, '\0', OSC_HEADER_SIZE); // clear timetag
 		osc_bundle_s_setBundleID(*bndl_out);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
-- 
2.43.0


From 553f491eda3999ae9c59a81d0fb7ac936775859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 025/128] fix: partial lookups of a serialised bundle with a
 malformed pattern find nothing

---
 osc_bundle_s.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 2088c10..6dcf98a 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -190,7 +190,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				msg += 4 + size;
 				continue;
 			}
@@ -225,7 +225,7 @@ t_osc_err osc_bundle_s_addressExists(long len, char *buf, char *address, int ful
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				msg += 4 + ntoh32(*((int32_t *)msg));
 				continue;
 			}
@@ -256,7 +256,7 @@ t_osc_msg_ar_s *osc_bundle_s_lookupAddress(long len, char *buf, const char *addr
 				goto cont;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				goto cont;
 			}
 		}
-- 
2.43.0


From 29bd9dd899c10df13c6f21f67a90be070296f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:00 +0000
Subject: [PATCH 026/128] fix: osc_message_s_renameCopy copes with a message
 without typetags

---
 osc_message_s.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 049e69d..fddad9f 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -150,7 +150,9 @@ int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t new_addre
 	while((ptr - dest) % 4){
 		*ptr++ = '\0';
 	}
-	memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	if(src->typetags){
+		memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	}
 	return newlen;
 }
 
-- 
2.43.0


From 6109ecc3dbc7d9d0ce177f7509919ad31b80e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 027/128] fix: osc_error_bundleSanityCheck refuses a cut-off
 size field and a size that overflows

---
 osc_error.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index 0d0df92..e62406d 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -149,11 +149,14 @@ t_osc_err osc_error_bundleSanityCheck(int len, char *bundle)
 	int cumsize = OSC_HEADER_SIZE;
 	while((ptr - bundle) < len){
 		cumsize += 4; // msg size
-		int size = ntoh32(*((uint32_t *)ptr));
-		cumsize += size;
 		if(cumsize > len){
 			return OSC_ERR_MSGTOOLARGE;
 		}
+		int size = ntoh32(*((uint32_t *)ptr));
+		if(size > len - cumsize){
+			return OSC_ERR_MSGTOOLARGE;
+		}
+		cumsize += size;
 		int ret;
 		if((ret = osc_error_msgSanityCheck(ptr))){
 			return ret;
-- 
2.43.0


From 7b47895cbd09b38a323799151ae36e14bae71634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:39 +0000
Subject: [PATCH 028/128] fix: keep the sign and read the right payload width
 in osc_atom_s integer accessors

---
 osc_atom_s.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index f6c2cfb..a58760a 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -230,7 +230,7 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return ntoh32(*((int32_t *)(a->data)));
+		return (int64_t)((int32_t)ntoh32(*((int32_t *)(a->data))));
 	case 'd': // 64-bit IEEE 754 double
 		{
 			uint64_t i = ntoh64(*((uint64_t *)(a->data)));
@@ -241,10 +241,10 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
 			return (int64_t)(*((float *)&i));
 		}
-	case 'I': // unsigned 32-bit int
-		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'C':
 	case 'U':
+	case 'I': // unsigned 32-bit int
+		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'H': // unsigned 64-bit int
 		return (int64_t)(ntoh64(*((uint64_t *)(a->data))));
 	case 's': // string
@@ -325,7 +325,7 @@ uint64_t osc_atom_s_getUInt64(t_osc_atom_s *a){
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return (uint64_t)(ntoh32(*((int32_t *)(a->data))));
+		return (uint64_t)((int32_t)ntoh32(*((int32_t *)(a->data))));
 	case 'h': // signed 64-bit int
 		return (uint64_t)(ntoh64(*((int64_t *)(a->data))));
 	case 'C':
@@ -363,10 +363,10 @@ int osc_atom_s_getInt(t_osc_atom_s *a)
 		return 0;
 	}
 	switch(a->typetag){
-	case 'i': // signed 32-bit int
-		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'c':
 	case 'u':
+	case 'i': // signed 32-bit int
+		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'f': // 32-bit IEEE 754 float
 		{
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
-- 
2.43.0


From 3dcde119a6a185947a7c61123a88e29e60a6fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 029/128] fix: report the length getString() writes for
 unsigned 8-bit arguments, and terminate truncated strings

---
 osc_atom_s.c | 4 ++--
 osc_atom_u.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index a58760a..8ca4125 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -433,7 +433,7 @@ int osc_atom_s_getStringLen(t_osc_atom_s *a)
 	case 'C': // unsigned 8-bit int
 		{
 			uint8_t i = (uint8_t)ntoh32(*((int32_t *)(a->data)));
-			return osc_strfmt_uint32(NULL, 0, i);
+			return osc_strfmt_uint8(NULL, 0, i);
 		}
 	case 'u': // signed 16-bit int
 		{
@@ -491,7 +491,7 @@ int osc_atom_s_getString(t_osc_atom_s *a, size_t n, char **out)
 	}
 	switch(a->typetag){
 	case 's': // string
-		strncpy(*out, a->data, nn);
+		snprintf(*out, nn, "%s", a->data);
 		break;
 	case 'i': // signed 32-bit int
 		{
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 1ad107d..d1b9037 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -738,7 +738,7 @@ int osc_atom_u_getStringLen(t_osc_atom_u *a)
 	case 'c': // signed 8-bit int
 		return osc_strfmt_int8(NULL, 0, a->w.c);
 	case 'C': // unsigned 8-bit int
-		return osc_strfmt_uint32(NULL, 0, a->w.C);
+		return osc_strfmt_uint8(NULL, 0, a->w.C);
 	case 'u': // signed 16-bit int
 		return osc_strfmt_int16(NULL, 0, a->w.u);
 	case 'U': // unsigned 16-bit int
@@ -773,7 +773,7 @@ int osc_atom_u_getString(t_osc_atom_u *a, size_t n, char **out)
 	}
 	switch(a->typetag){
 	case 's': // string
-		strncpy(*out, a->w.s, nn);
+		snprintf(*out, nn, "%s", a->w.s);
 		break;
 	case 'i': // signed 32-bit int
 		osc_strfmt_int32(*out, nn, a->w.i);
-- 
2.43.0


From 601801b1fe4cd2ae5aa7a2f83067c19f9f70368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:42 +0000
Subject: [PATCH 030/128] fix: copy exactly the argument's bytes in
 osc_atom_[us]_getBlobCopy, and all 64 bits of integers

---
 osc_atom_s.c | 5 +++--
 osc_atom_u.c | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 8ca4125..5af144f 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -697,13 +697,14 @@ t_osc_err osc_atom_s_getBlobCopy(char **blob, int32_t *buflen, t_osc_atom_s *a)
 		*buflen += 4;
 		*blob = osc_mem_alloc(*buflen);
 	}
+	memset(*blob, '\0', *buflen);
 	switch(osc_atom_s_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->data, *buflen);
+		memcpy(*blob, a->data, *buflen < bloblen + 4 ? *buflen : bloblen + 4);
 		break;
 	default:
 		*((int32_t *)(*blob)) = hton32(bloblen);
-		memcpy((*blob) + 4, a->data, *buflen);
+		memcpy((*blob) + 4, a->data, *buflen - 4 < bloblen ? *buflen - 4 : bloblen);
 	}
 	return OSC_ERR_NONE;
 }
diff --git a/osc_atom_u.c b/osc_atom_u.c
index d1b9037..2ff7e17 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -644,7 +644,7 @@ uint64_t osc_atom_u_getUInt64(t_osc_atom_u *a){
 			char *blob = a->w.b;
 			int32_t len = ntoh32(*((int32_t *)blob));
 			if(len == 8){
-				return ntoh32(*((uint32_t *)(blob + 4)));
+				return ntoh64(*((uint64_t *)(blob + 4)));
 			}
 		}
 	}
@@ -941,7 +941,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	memset(*blob, '\0', *buflen);
 	switch(osc_atom_u_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->w.b, *buflen);
+		memcpy(*blob, a->w.b, *buflen < bloblen + 4 ? *buflen : bloblen + 4);
 		break;
 	case 'c':
 	case 'C':
@@ -961,7 +961,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	case 'h':
 	case 'H':
 		{
-			int64_t i = a->w.i;
+			int64_t i = a->w.h;
 			*((int32_t *)(*blob)) = hton32(8);
 			*((int64_t *)((*blob) + 4)) = hton64(i);
 		}
@@ -984,7 +984,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 		{
 			*((int32_t *)(*blob)) = hton32(*buflen - 4);
 			char *p = (*blob) + 4;
-			osc_atom_u_getString(a, *buflen, &p);
+			osc_atom_u_getString(a, *buflen - 4, &p);
 		}
 		break;
 	case OSC_BUNDLE_TYPETAG:
-- 
2.43.0


From 67425cdbb739cb8e6cfe8adc6b0bd57cdb2686b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:43 +0000
Subject: [PATCH 031/128] fix: let osc_atom_u_copyInto release what the
 destination held and own what it copies

---
 osc_atom_u.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 2ff7e17..c1301bb 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -78,6 +78,10 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
 	t_osc_atom_u *aa = *dest;
 	if(!aa){
 		aa = osc_mem_alloc(sizeof(t_osc_atom_u));
+	}else if(aa == src){
+		return;
+	}else{
+		osc_atom_u_clear(aa);
 	}
 	aa->next = aa->prev = NULL;
 	aa->typetag = src->typetag;
@@ -86,6 +90,7 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
         case 's':
             aa->w.s = osc_mem_alloc(strlen(src->w.s) + 1);
             strcpy(aa->w.s, src->w.s);
+            aa->alloc = 1;
         break;
         case OSC_BUNDLE_TYPETAG:
             aa->w.bndl = NULL;
@@ -95,8 +100,9 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
     {
         int32_t len = ntoh32(*((int32_t *)(src->w.b)));
         int32_t size = osc_util_getPaddingForNBytes(len);
-        aa->w.s = osc_mem_alloc(size + 4);
+        aa->w.b = osc_mem_alloc(size + 4);
         memcpy(aa->w.b, src->w.b, len + 4);
+        aa->alloc = 1;
     }
         break;
         default:
@@ -1118,6 +1124,7 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 			a->w.s = osc_mem_resize(a->w.s, len);
 			strncpy(a->w.s, v, len);
 		}else{
+			osc_mem_free(a->w.s);
 			a->w.s = NULL;
 		}
 	}else{
-- 
2.43.0


From 08eb988f56205bbf13a83dbae96ff9d18b0ce4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 032/128] fix: give the blob length of a zero-valued argument

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index c1301bb..47955b7 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -915,7 +915,7 @@ int32_t osc_atom_u_getBlobLen(t_osc_atom_u *a)
 	case 's':
 		return strlen(a->w.s);
 	default:
-		return osc_sizeof(osc_atom_u_getTypetag(a), a->w.s);
+		return osc_atom_u_getSerializedSize(a);
 	}
 }
 
-- 
2.43.0


From 69fd1c054c8772888e89c5720a9d8c312a739de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 033/128] fix: osc_array_get: refuse negative indices

---
 osc_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_array.c b/osc_array.c
index 65dce79..3b74547 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -72,7 +72,7 @@ void *osc_array_get(t_osc_array *ar, long idx){
 	if(!ar){
 		return NULL;
 	}
-	if(ar->len <= idx){
+	if(idx < 0 || ar->len <= idx){
 		return NULL;
 	}
 	return ar->ar + (idx * ar->membersize);
-- 
2.43.0


From ef37357f72a75c99512f9a50384042e1ad3c41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:33 +0000
Subject: [PATCH 034/128] fix: osc_array_copyInto: grow a destination that is
 too short, refuse negative offsets

---
 osc_array.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/osc_array.c b/osc_array.c
index 3b74547..96e2f52 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -98,22 +98,22 @@ t_osc_array *osc_array_copy(t_osc_array *array)
 
 t_osc_err osc_array_copyInto(t_osc_array **dest, t_osc_array *src, long offset)
 {
-	if(!src){
+	if(!src || offset < 0){
 		return OSC_ERR_INVAL;
 	}
 	long srclen = src->len;
 	long srcsize = src->membersize;
 	long srclen_bytes = srclen * srcsize;
 	long destlen = srclen + offset;
-	long destlen_bytes = destlen * srcsize;
 	if(!(*dest)){
 		*dest = osc_array_allocWithSize(destlen, srcsize);
-	}else{
-		if(destlen_bytes < srclen_bytes){
-			(*dest)->ar = osc_mem_resize((*dest)->ar, destlen_bytes);
-			if(!((*dest)->ar)){
-				return OSC_ERR_OUTOFMEM;
-			}
+		if(!(*dest)){
+			return OSC_ERR_OUTOFMEM;
+		}
+	}else if((*dest)->len < destlen){
+		t_osc_err e = osc_array_resize(*dest, destlen);
+		if(e){
+			return e;
 		}
 	}
 	memcpy((*dest)->ar + (offset * srcsize), src->ar, srclen_bytes);
-- 
2.43.0


From 8cbc07abf74f98eb2b578c00542f944b3de7e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:34 +0000
Subject: [PATCH 035/128] fix: osc_array_resize: resizing to nothing is not an
 allocation failure

---
 osc_array.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/osc_array.c b/osc_array.c
index 96e2f52..fedec5a 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -122,9 +122,15 @@ t_osc_err osc_array_copyInto(t_osc_array **dest, t_osc_array *src, long offset)
 
 t_osc_err osc_array_resize(t_osc_array *array, int newlen)
 {
-	if(!array){
+	if(!array || newlen < 0){
 		return OSC_ERR_INVAL;
 	}
+	if(newlen == 0){
+		osc_mem_free(array->ar);
+		array->ar = NULL;
+		array->len = 0;
+		return OSC_ERR_NONE;
+	}
 	array->ar = osc_mem_resize(array->ar, newlen * array->membersize);
 	if(array->ar){
 #ifdef OSC_ARRAY_CLEAR_ON_ALLOC
-- 
2.43.0


From 0904518da5947786998b7fe185dd2c271a4f0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 036/128] fix: osc_atom_array_u_copyInto: refuse negative
 offsets

---
 osc_atom_array_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index f4f1adc..0ee1f67 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -210,7 +210,7 @@ t_osc_atom_array_u *osc_atom_array_u_copy(t_osc_atom_array_u *array)
 
 t_osc_err osc_atom_array_u_copyInto(t_osc_atom_array_u **dest, t_osc_atom_array_u *src, long offset)
 {
-	if(!src){
+	if(!src || offset < 0){
 		return OSC_ERR_INVAL;
 	}
 	long srclen = osc_atom_array_u_getLen(src);
-- 
2.43.0


From 17361e12ce552d3c68dca34c8d59312a9ecbd126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:04 +0000
Subject: [PATCH 037/128] fix: osc_atom_array_u_getStringArray: leave room for
 separators and the terminator

---
 osc_atom_array_u.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index 0ee1f67..b4a6793 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -165,9 +165,9 @@ t_osc_err osc_atom_array_u_getStringArray(t_osc_atom_ar_u *array, long *len, cha
 	int i;
 	for(i = 0; i < arlen; i++){
 		int n = osc_atom_u_getStringLen(osc_atom_array_u_get(array, i));
-		if((buflen - (ptr - *out)) < n){
+		if((buflen - (ptr - *out)) < n + seplen + 1){ // with room for the separator and terminator
 			long offset = ptr - *out;
-			int nbytes = n * (arlen - i) + 1; // assume the rest of the atoms are the same size
+			int nbytes = (n + seplen) * (arlen - i) + 1; // assume the rest of the atoms are the same size
 			char *tmp = osc_mem_resize(*out, buflen + nbytes);
 			if(tmp){
 				*out = tmp;
-- 
2.43.0


From 53d650cbd75e5d7011028e8dbe83f79c0a553286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:15 +0000
Subject: [PATCH 038/128] fix: osc_timetag_subtract: borrow from the seconds
 when the first time tag is the earlier one

---
 osc_timetag.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index ba4e9f3..b8209df 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -77,10 +77,9 @@ t_osc_timetag osc_timetag_subtract(t_osc_timetag t1, t_osc_timetag t2)
 		}
 	}else{
 		r.sec = t2_ntp.sec - t1_ntp.sec;
-		if(t1_ntp.frac_sec >= t2_ntp.frac_sec){
-			r.frac_sec = t1_ntp.frac_sec - t2_ntp.frac_sec;
-		}else{
-			r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
+		r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
+		if(t1_ntp.frac_sec > t2_ntp.frac_sec){ // borrow
+			r.sec--;
 		}
 	}
 
-- 
2.43.0


From 76487a9d944052bc33ee8fdf633ee4ef602520b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:16 +0000
Subject: [PATCH 039/128] fix: osc_timetag_toISO8601: count leap years from
 1900

---
 osc_timetag.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index b8209df..eeb09d2 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -321,14 +321,17 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
     
 	//secs=-2208988800;//SNTPGetUTCSeconds();
 	//secs = abs(secs);
-	for(year = 0; secs >= SEC_PER_YEAR; year++){ //determine # years elapse since epoch
-		secs -= SEC_PER_YEAR;
+	//1/1/1900, 00:00 is ntp epoch
+	for(year = 1900; ; year++){ //determine # years elapse since epoch
+		uint32_t len = SEC_PER_YEAR;
 		if(osc_timetag_isleap(year)){
-			secs -= SEC_PER_DAY;
+			len += SEC_PER_DAY;
 		}
+		if(secs < len){
+			break;
+		}
+		secs -= len;
 	}
-	//year+=1970;  //1/1/1970, 00:00 is epoch
-	year += 1900;  //1/1/1900, 00:00 is ntp epoch
 	//for (yrcount=1970;yrcount<year;yrcount++) //scroll from 1970 to last year to find leap yrs.
 	/*
 	for(yrcount = 1900; yrcount < year; yrcount++){
-- 
2.43.0


From 6a96f00677bc682b75678e0073341d01e8c911c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 040/128] fix: osc_timetag_toISO8601: fractions close to a
 whole second, and the size of the text

---
 osc_timetag.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index eeb09d2..803e3e5 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -308,7 +308,7 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	char s1[20];
 	if(!buf){
-		return 19 + snprintf(NULL, 0, "%05fZ", fmod(osc_timetag_ntp_to_float(timetag), 1.0));//osc_strfmt_float64(NULL, 0, fmod(osc_timetag_ntp_to_float(timetag), 1.0));
+		return 27; // YYYY-MM-DDThh:mm:ss.uuuuuuZ
 	}
 	uint32_t secs = osc_timetag_ntp_getSeconds(timetag);
 	unsigned short int year, month, day, hour, minute, yrcount, leap = 0;
@@ -425,14 +425,9 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 		s1[i++] = '\0';
 	}
 
-	double d = osc_timetag_ntp_to_float(timetag);
-	double dm1 = fmod(d, 1.0);
-	//int l = osc_strfmt_float64(NULL, 0, dm1);
-	int l = snprintf(NULL, 0, "%05fZ", dm1);
-	char s2[l + 1];
-	snprintf(s2, l, "%05fZ", dm1);
-	//osc_strfmt_float64(s2, l + 1, dm1);
-	return snprintf(buf, n, "%s.%sZ", s1, s2+2);
+	// truncate to microseconds: rounding up could need a carry into the seconds
+	uint32_t usecs = ((uint64_t)osc_timetag_ntp_getFraction(timetag) * 1000000) >> 32;
+	return snprintf(buf, n, "%s.%06uZ", s1, usecs);
 
 	/*
 	time_t i;
-- 
2.43.0


From 32cc19ad6b6c64b7228a01d95b98c55963639e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:18 +0000
Subject: [PATCH 041/128] fix: osc_timetag_now: do not overflow the fraction at
 the end of a second

---
 osc_timetag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 803e3e5..6dff525 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -610,7 +610,7 @@ t_osc_timetag osc_timetag_now(void)
 		//0 + //(uint32_t)(60 * tz.tz_minuteswest) +
 		//(uint32_t)(tz.tz_dsttime == 1 ? 3600 : 0);
     
-	n.frac_sec = (uint32_t)(tv.tv_usec * 4295); // 2^32-1 / 1.0e6
+	n.frac_sec = (uint32_t)(((uint64_t)tv.tv_usec << 32) / 1000000);
 
 	return *((t_osc_timetag *)(&n));
 #elif OSC_TIMETAG_FORMAT == OSC_TIMETAG_PTP
-- 
2.43.0


From fea8138abe0277609fc9abaa491eaaf21f043d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 042/128] fix: osc_timetag_fromISO8601: honour the offset from
 UTC

---
 osc_timetag.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 6dff525..59388b9 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -461,12 +461,15 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	struct tm t;
 	memset(&t, '\0', sizeof(struct tm));
-	double fsec;
+	double fsec = 0;
+	char zone = 0;
+	int zone_hours = 0, zone_mins = 0;
 	//char s1[];
 	//memset(s1, '\0', sizeof(s1));
     
 	// read out the fractions part
-	sscanf(s, "%*d-%*d-%*dT%*d:%*d:%lfZ", &fsec);
+	// and the offset from UTC, if there is one
+	sscanf(s, "%*d-%*d-%*dT%*d:%*d:%lf%c%2d:%2d", &fsec, &zone, &zone_hours, &zone_mins);
 	/*
 	time_t now = time(NULL);
 	struct tm *unsafe = localtime(&now);
@@ -503,6 +506,11 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 	sec += (t.tm_hour * SEC_PER_HR);
 	sec += (t.tm_min * SEC_PER_MIN);
 	sec += t.tm_sec;
+	if(zone == '+'){
+		sec -= zone_hours * SEC_PER_HR + zone_mins * SEC_PER_MIN;
+	}else if(zone == '-'){
+		sec += zone_hours * SEC_PER_HR + zone_mins * SEC_PER_MIN;
+	}
 	timetag->sec = sec;
 
 	//timetag->sec = (t.tm_year * 3.15569e7) + (t.tm_yday * 86400) + (t.tm_hour * 3600) + (t.tm_min * 60) + t.tm_sec;
-- 
2.43.0


From ff219def37aa568dbe4b9e38b745d9b63569237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 043/128] fix: truncating a quoted string to a buffer wrote
 before it or overflowed the stack

---
 osc_strfmt.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index 952dfc4..917a9db 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -162,7 +162,7 @@ int osc_strfmt_stringWithQuotedMeta(char *buf, size_t n, char *str)
 	}
 
 	{
-		int i = 0;
+		size_t i = 0;
 		for(int j = 0; j < len; j++){
 			if(osc_strfmt_isMeta(str[j])){
 				if(i < n){
@@ -175,10 +175,8 @@ int osc_strfmt_stringWithQuotedMeta(char *buf, size_t n, char *str)
 			}
 			i++;
 		}
-		if(i < n){
-			buf[i] = '\0';
-		}else{
-			buf[i - 1] = '\0';
+		if(n > 0){
+			buf[i < n ? i : n - 1] = '\0';
 		}
 		return i;
 	}
@@ -192,10 +190,18 @@ int osc_strfmt_quotedStringWithQuotedMeta(char *buf, size_t n, char *str)
 	if(!buf){
 		return osc_strfmt_stringWithQuotedMeta(buf, n, str) + 2;
 	}else{
-		char tmp[n];
-		int nn = osc_strfmt_stringWithQuotedMeta(tmp, n, str);
-		osc_strfmt_quotedString(buf, n, tmp);
-		return nn + 2;
+		size_t nn = osc_strfmt_stringWithQuotedMeta(NULL, 0, str) + 2;
+		if(n > 1){
+			buf[0] = '"';
+			osc_strfmt_stringWithQuotedMeta(buf + 1, n - 1, str);
+			if(nn < n){
+				buf[nn - 1] = '"';
+				buf[nn] = '\0';
+			}
+		}else if(n == 1){
+			buf[0] = '\0';
+		}
+		return nn;
 	}
 }
 
-- 
2.43.0


From 64db03f65d662c27e3eda5422f8f0b109af21ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:53 +0000
Subject: [PATCH 044/128] fix: formatting an empty blob read past it, and
 formatting any blob into a short buffer wrote past the buffer

---
 osc_strfmt.c | 17 ++++-------------
 osc_strfmt.h |  2 ++
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index 917a9db..65e271e 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -126,20 +126,11 @@ int osc_strfmt_blob(char *buf, size_t n, char *blob)
 {
 	char *ptr = blob + 4;
 	int32_t len = ntoh32(*((int32_t *)blob));
-	int c = 0;
-	if(buf){
-		c = snprintf(buf, n, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(buf + c, n - c, ", %d", *ptr++);
-		}
-		c += snprintf(buf + c, n - c, ")");
-	}else{
-		c = snprintf(NULL, 0, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(NULL, 0, ", %d", *ptr++);
-		}
-		c += snprintf(NULL, 0, ")");
+	int c = snprintf(buf, n, "blob(");
+	for(int i = 0; i < len; i++){
+		c += snprintf(OSC_STRFMT_REST(buf, n, c), i ? ", %d" : "%d", *ptr++);
 	}
+	c += snprintf(OSC_STRFMT_REST(buf, n, c), ")");
 	return c;
 }
 
diff --git a/osc_strfmt.h b/osc_strfmt.h
index 37fe9b2..badebbe 100644
--- a/osc_strfmt.h
+++ b/osc_strfmt.h
@@ -41,6 +41,8 @@ extern "C" {
 #define OSC_DEPRECATED(decl, msg) decl __attribute__((deprecated(msg)));
 #endif
 
+// what is left of a buffer of n bytes after offset characters have been formatted, as the first arguments of snprintf()
+#define OSC_STRFMT_REST(buf, n, offset) ((buf) && (offset) < (n) ? (buf) + (offset) : NULL), ((buf) && (offset) < (n) ? (n) - (offset) : 0)
 #define OSC_STRFMT_META_CHARS ((char []){'"', '\\'})
 
 int osc_strfmt_int8(char *buf, size_t n, int8_t i);
-- 
2.43.0


From 415bf03808254f68f2119aab2fcbef62a2a7d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:09 +0000
Subject: [PATCH 045/128] fix: bounded formatting of messages and bundles wrote
 past a buffer too short for the text, or misreported the text's length

---
 osc_bundle_s.c  |  9 +++++----
 osc_bundle_u.c  | 13 +++++++------
 osc_message_s.c | 13 +++++++------
 osc_message_u.c | 13 +++++++------
 4 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 6dcf98a..54504dd 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -26,6 +26,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include <inttypes.h>
 #include "osc.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_match.h"
 #include "osc_timetag.h"
 
@@ -651,9 +652,9 @@ long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int ninde
 	}else{
 		while(osc_bndl_it_s_hasNext(it)){
 			t_osc_msg_s *m = osc_bndl_it_s_next(it);
-			offset += osc_message_s_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_s_nformat(OSC_STRFMT_REST(buf, n, offset), m, nindent);
 			if(osc_bndl_it_s_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), ",\n");
 			}
 		}
 	}
@@ -678,8 +679,8 @@ long osc_bundle_s_nformatNestedBndl(char *buf, long n, long bndllen, char *bndl,
 		offset += osc_bundle_s_nformat(NULL, 0, bndllen, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += osc_bundle_s_nformat(buf + offset, n - offset, bndllen, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += osc_bundle_s_nformat(OSC_STRFMT_REST(buf, n, offset), bndllen, bndl, nindent);
+		offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "\n%s}", tabs);
 	}
 	return offset;
 }
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 9aacd01..b47c93b 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -26,6 +26,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include <inttypes.h>
 #include "osc.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_byteorder.h"
 #include "osc_match.h"
 #include "osc_message_u.h"
@@ -680,11 +681,11 @@ long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 			}
 		}
 	}else{
-		while(osc_bndl_it_u_hasNext(it) && offset < n){
+		while(osc_bndl_it_u_hasNext(it)){
 			t_osc_msg_u *m = osc_bndl_it_u_next(it);
-			offset += osc_message_u_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_u_nformat(OSC_STRFMT_REST(buf, n, offset), m, nindent);
 			if(osc_bndl_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), ",\n");
 			}
 		}
 	}
@@ -709,9 +710,9 @@ long osc_bundle_u_nformatNestedBndl(char *buf, long n, t_osc_bndl_u *bndl, int n
 		offset += osc_bundle_u_nformat(NULL, 0, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += snprintf(buf + offset, n - offset, "{\n");
-		offset += osc_bundle_u_nformat(buf + offset, n - offset, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "{\n");
+		offset += osc_bundle_u_nformat(OSC_STRFMT_REST(buf, n, offset), bndl, nindent);
+		offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "\n%s}", tabs);
 
 	}
 	return offset;
diff --git a/osc_message_s.c b/osc_message_s.c
index fddad9f..03ef562 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -31,6 +31,7 @@
 #include "osc_message_u.h"
 #include "osc_array.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_util.h"
 
 t_osc_msg_s *osc_message_s_alloc(void)
@@ -344,27 +345,27 @@ long osc_message_s_nformat(char *buf, long n, t_osc_msg_s *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s : [", tabs, osc_message_s_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s : ", tabs, osc_message_s_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_s_getAddress(m));
+			offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s", tabs, osc_message_s_getAddress(m));
 		}
 		while(osc_msg_it_s_hasNext(it)){
 			//offset += snprintf(NULL, 0, " ");
 			t_osc_atom_s *a = osc_msg_it_s_next(it);
-			offset += osc_atom_s_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_s_nformat(OSC_STRFMT_REST(buf, n, offset), a, nindent);
 			if(osc_msg_it_s_hasNext(it)){
 				//if(osc_atom_s_getTypetag(a) == OSC_BUNDLE_TYPETAG){
 				//offset += snprintf(buf + offset, n - offset, ",\n");
 				//}else{
-					offset += snprintf(buf + offset, n - offset, ", ");
+					offset += snprintf(OSC_STRFMT_REST(buf, n, offset), ", ");
 					//}
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "]");
 		}
 		//offset += snprintf(buf + offset, n - offset, "\n");
 	}
diff --git a/osc_message_u.c b/osc_message_u.c
index f777f43..b7203f1 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -31,6 +31,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_atom_array_u.h"
 #include "osc_message_iterator_u.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_byteorder.h"
 #include "osc_util.h"
 
@@ -1104,22 +1105,22 @@ long osc_message_u_nformat(char *buf, long n, t_osc_msg_u *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s : [", tabs, osc_message_u_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s : ", tabs, osc_message_u_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_u_getAddress(m));
+			offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s", tabs, osc_message_u_getAddress(m));
 		}
 		while(osc_msg_it_u_hasNext(it)){
 			t_osc_atom_u *a = osc_msg_it_u_next(it);
-			offset += osc_atom_u_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_u_nformat(OSC_STRFMT_REST(buf, n, offset), a, nindent);
 			if(osc_msg_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ", ");
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), ", ");
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "]");
 		}
 	}
 	osc_msg_it_u_destroy(it);
-- 
2.43.0


From 8befd2e9f80970bcdbe6e9584de64b89b9195476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:11 +0000
Subject: [PATCH 046/128] fix: formatting an empty bundle gave an unterminated
 string

---
 osc_bundle_s.c | 3 +++
 osc_bundle_u.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 54504dd..51c191a 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -628,6 +628,9 @@ char *osc_bundle_s_pformat(t_osc_bundle_s *bndl)
 
 long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int nindent)
 {
+	if(buf && n > 0){
+		buf[0] = '\0';
+	}
 	if(!bndl){
 		return 0;
 	}
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index b47c93b..77b2e7f 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -667,6 +667,9 @@ char *osc_bundle_u_format(t_osc_bndl_u *bndl)
 
 long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 {
+	if(buf && n > 0){
+		buf[0] = '\0';
+	}
 	if(!bndl || osc_bundle_u_getMsgCount(bndl) == 0){
 		return 0;
 	}
-- 
2.43.0


From 46c5c78d2e4667a4c24512a487533e4ccaa475e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:23 +0000
Subject: [PATCH 047/128] fix: osc_strfmt_addQuotesAndQuoteMeta() allocated no
 room for the terminator

---
 osc_strfmt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index 65e271e..5971872 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -247,7 +247,7 @@ int osc_strfmt_addQuotesAndQuoteMeta(int len, char *buf, char **out)
 	}
 	int n = len + 2 + osc_strfmt_countMeta(len, buf);
 	if(!(*out)){
-		*out = osc_mem_alloc(n);
+		*out = osc_mem_alloc(n + 1);
 	}
 	int i = 0;
 	if(1){//buf[0] != '\"'){
-- 
2.43.0


From e1c631a47608e543f563f68904112fa54a18411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:24 +0000
Subject: [PATCH 048/128] fix: the text parser leaked the buffer of every
 string with an escape in it

---
 osc_scanner.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_scanner.l b/osc_scanner.l
index 78d7a87..9673b05 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -84,6 +84,7 @@ quoted_string [^\"\\]
 	BEGIN(0);
 	if(*buf){
 		yylval->atom = osc_atom_u_allocWithString(*buf);
+		osc_mem_free(*buf);
 		*buf = NULL;
 		*buflen = 0;
 		return OSCVALUE;
-- 
2.43.0


From 7328f2d9cdb2136878060db40149280e408efee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:20 +0000
Subject: [PATCH 049/128] fix: terminate the text quoted in an expression parse
 error

---
 osc_expr_parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 524347a..30f9ac3 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -253,7 +253,7 @@ void osc_expr_error_formatLocation(YYLTYPE *llocp, char *input_string, char **bu
 	int len = strlen(input_string);
 	if(llocp->first_column >= len || llocp->last_column >= len){
 		*buf = osc_mem_alloc(len + 1);
-		strncpy(*buf, input_string, len );
+		strncpy(*buf, input_string, len + 1);
 		return;
 	}
 	char s1[len * 2];
-- 
2.43.0


From 44dae9dfac49dd076dbda31511b2fc37897079d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:39 +0000
Subject: [PATCH 050/128] fix: give the expression language the power operator
 its grammar has

---
 osc_expr_func.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index 524b4fc..763002b 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -399,6 +399,19 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 osc_expr_2arg,
 	 (void *)osc_expr_mod},
 	//////////////////////////////////////////////////
+	{"^",
+	 "/result = $1 ^ $2",
+	 2,
+	 0,
+	 (char *[]){"left operand", "right operand"},
+	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR, OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
+	 (char *[]){NULL},
+	 (int []){},
+	 (char *[]){"/math/operator/arithmetic", NULL},
+	 "Power",
+	 osc_expr_2arg_dbl_dbl,
+	 (void *)pow},
+	//////////////////////////////////////////////////
 	{"=",
 	 "/result = $1",
 	 2,
-- 
2.43.0


From 5d2f82ded6e56c80d467e5242ad670204fc5a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 051/128] fix: arithmetic on two booleans left its result unset

---
 osc_expr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index a65e306..ce7ff73 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2404,6 +2404,9 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 			case 'C':
 				osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) + osc_atom_u_getUInt8(f2));
 				break;
+			default: // two booleans
+				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) + osc_atom_u_getInt32(f2));
+				break;
 			}
 		}
 	}else{
@@ -2506,6 +2509,9 @@ int osc_expr_multiply(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 			case 'C':
 				osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) * osc_atom_u_getUInt8(f2));
 				break;
+			default: // two booleans
+				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) * osc_atom_u_getInt32(f2));
+				break;
 			}
 		}
 	}else{
@@ -2547,6 +2553,7 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 			// }
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			default: // two booleans
 			case 'i':
 				{
 					int32_t i2 = osc_atom_u_getInt32(f2);
-- 
2.43.0


From b9f0af219ec4d9d44c15bb2729e457e224a9e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 052/128] fix: dividing and masking unsigned bytes gave signed
 bytes

---
 osc_expr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index ce7ff73..cebb25f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2626,11 +2626,11 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 				break;
 			case 'C':
 				{
-					int8_t i2 = osc_atom_u_getInt8(f2);
+					uint8_t i2 = osc_atom_u_getUInt8(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) / i2);
+						osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) / i2);
 					}
 				}
 				break;
@@ -5364,7 +5364,7 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
 		}
 		break;
 	}
@@ -5435,7 +5435,7 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
 		}
 		break;
 	}
-- 
2.43.0


From 53415f44cc0d16d3346182dc19174777840fbe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:49 +0000
Subject: [PATCH 053/128] fix: dividing the smallest integer by -1 in an
 expression trapped

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index cebb25f..2517e64 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2560,7 +2560,7 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) / i2);
+						osc_atom_u_setInt32(*result, i2 == -1 ? (int32_t)(0 - (uint32_t)osc_atom_u_getInt32(f1)) : osc_atom_u_getInt32(f1) / i2);
 					}
 				}
 				break;
@@ -2580,7 +2580,7 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) / i2);
+						osc_atom_u_setInt64(*result, i2 == -1 ? (int64_t)(0 - (uint64_t)osc_atom_u_getInt64(f1)) : osc_atom_u_getInt64(f1) / i2);
 					}
 				}
 				break;
-- 
2.43.0


From 5f79c6507974ae1ebb60909e3a93df82e4eaf4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:35 +0000
Subject: [PATCH 054/128] fix: subtracting integers wider than 32 bits
 truncated the result

---
 osc_expr.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 2517e64..e9db457 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2435,7 +2435,20 @@ int osc_expr_subtract(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		if(OSC_TYPETAG_ISFLOAT(tt1) || OSC_TYPETAG_ISFLOAT(tt2)){
 			osc_atom_u_setDouble(*result, osc_atom_u_getDouble(f1) - osc_atom_u_getDouble(f2));
 		}else{
-			osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+			switch(osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2){
+			case 'I':
+				osc_atom_u_setUInt32(*result, osc_atom_u_getUInt32(f1) - osc_atom_u_getUInt32(f2));
+				break;
+			case 'h':
+				osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) - osc_atom_u_getInt64(f2));
+				break;
+			case 'H':
+				osc_atom_u_setUInt64(*result, osc_atom_u_getUInt64(f1) - osc_atom_u_getUInt64(f2));
+				break;
+			default:
+				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+				break;
+			}
 		}
 	}else if(tt1 == OSC_TIMETAG_TYPETAG || tt2 == OSC_TIMETAG_TYPETAG){
 		t_osc_timetag timetag1, timetag2;
-- 
2.43.0


From a597bc6e87175b523371494387ba5bcb9143808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 055/128] fix: the remainder of integers was computed in
 floating point and cut to 32 bits

---
 osc_expr.c | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index e9db457..f17e450 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3087,6 +3087,27 @@ double _osc_expr_fmod(double x, double m)
 	return x - m * _osc_expr_sign(m) * floor(x / fabs(m));
 }
 
+// the remainder of two integers, the second not 0: in [0, |f2|)
+static uint64_t _osc_expr_imod(t_osc_atom_u *f1, t_osc_atom_u *f2)
+{
+	int neg1 = 0;
+	uint64_t mag[2];
+	for(int i = 0; i < 2; i++){
+		t_osc_atom_u *a = i ? f2 : f1;
+		if(osc_atom_u_getTypetag(a) == 'H'){
+			mag[i] = osc_atom_u_getUInt64(a);
+		}else{
+			int64_t v = osc_atom_u_getInt64(a);
+			mag[i] = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
+			if(i == 0){
+				neg1 = v < 0;
+			}
+		}
+	}
+	uint64_t m = mag[0] % mag[1];
+	return neg1 && m ? mag[1] - m : m;
+}
+
 int osc_expr_mod(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void* context)
 {
 	if(!f1){
@@ -3117,19 +3138,31 @@ int osc_expr_mod(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	*/
 	char tt1 = osc_atom_u_getTypetag(f1), tt2 = osc_atom_u_getTypetag(f2);
 	double ff1 = osc_atom_u_getDouble(f1), ff2 = osc_atom_u_getDouble(f2);
-	double m = _osc_expr_fmod(ff1, ff2);
 	if(tt1 == 'f' || tt1 == 'd' || tt2 == 'f' || tt2 == 'd'){
 		if(ff2 == 0){
 			osc_atom_u_copyInto(result, f1);
 			return 0;
 		}
-		osc_atom_u_setDouble(*result, m);
+		osc_atom_u_setDouble(*result, _osc_expr_fmod(ff1, ff2));
 	}else{
 		if(ff2 == 0){
 			osc_atom_u_copyInto(result, f1);
 			return 0;
 		}
-		osc_atom_u_setInt32(*result, (int32_t)m);
+		switch(osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2){
+		case 'I':
+			osc_atom_u_setUInt32(*result, _osc_expr_imod(f1, f2));
+			break;
+		case 'h':
+			osc_atom_u_setInt64(*result, _osc_expr_imod(f1, f2));
+			break;
+		case 'H':
+			osc_atom_u_setUInt64(*result, _osc_expr_imod(f1, f2));
+			break;
+		default:
+			osc_atom_u_setInt32(*result, _osc_expr_imod(f1, f2));
+			break;
+		}
 	}
 	return 0;
 }
-- 
2.43.0


From 2319c2f8272cc1fe614dcfb54ca0032ca8bb9be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:38 +0000
Subject: [PATCH 056/128] fix: != refused nil, which == accepts

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index f17e450..ee2bd23 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2863,6 +2863,10 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) != 0);
+	}else if(tt1 == 'N' && tt2 == 'N'){
+		osc_atom_u_setBool(*result, 0);
+	}else if(tt1 == 'N' || tt2 == 'N'){
+		osc_atom_u_setBool(*result, 1);
 	}else if(tt1 == OSC_BUNDLE_TYPETAG && tt2 == OSC_BUNDLE_TYPETAG){
 		t_osc_bndl_u *b1 = osc_atom_u_getBndl(f1);
 		t_osc_bndl_u *b2 = osc_atom_u_getBndl(f2);
-- 
2.43.0


From 661028070d667cb7e51196c5a443b98f7e65012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:40 +0000
Subject: [PATCH 057/128] fix: comparing 64-bit integers in an expression lost
 their low bits

---
 osc_expr.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index ee2bd23..cd7a7ce 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2679,6 +2679,25 @@ int osc_expr_compareTimetag(t_osc_atom_u *f1, t_osc_atom_u *f2)
 	return osc_timetag_compare(timetag1, timetag2);
 }
 
+// a double can not tell all 64-bit integers apart
+static int osc_expr_compareInts(t_osc_atom_u *f1, t_osc_atom_u *f2)
+{
+	int64_t i1 = osc_atom_u_getInt64(f1), i2 = osc_atom_u_getInt64(f2);
+	int neg1 = osc_atom_u_getTypetag(f1) != 'H' && i1 < 0;
+	int neg2 = osc_atom_u_getTypetag(f2) != 'H' && i2 < 0;
+	if(neg1 != neg2){
+		return neg1 ? -1 : 1;
+	}
+	uint64_t u1 = i1, u2 = i2;
+	if(osc_atom_u_getTypetag(f1) == 'H'){
+		u1 = osc_atom_u_getUInt64(f1);
+	}
+	if(osc_atom_u_getTypetag(f2) == 'H'){
+		u2 = osc_atom_u_getUInt64(f2);
+	}
+	return u1 < u2 ? -1 : u1 > u2;
+}
+
 int osc_expr_lt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void* context)
 {
 	if(!f1 || !f2){
@@ -2693,6 +2712,8 @@ int osc_expr_lt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setFalse(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setTrue(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) < 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) < osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2723,6 +2744,8 @@ int osc_expr_le(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setFalse(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setTrue(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) <= 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) <= osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2753,6 +2776,8 @@ int osc_expr_gt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setTrue(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setFalse(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) > 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) > osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2783,6 +2808,8 @@ int osc_expr_gte(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		osc_atom_u_setTrue(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setFalse(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) >= 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) >= osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2811,6 +2838,8 @@ int osc_expr_eq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setBool(*result, ret == 0);
 		//}else if((tt1 == 's') || (tt2 == 's')){
 		//osc_atom_u_setFalse(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) == 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) == osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2858,6 +2887,8 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		osc_atom_u_setBool(*result, ret != 0);
 		//}else if((tt1 == 's') || (tt2 == 's')){
 		//osc_atom_u_setTrue(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) != 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) != osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
-- 
2.43.0


From bd4757cb15a6f0578ab6b0192703c0b43d324db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:42 +0000
Subject: [PATCH 058/128] fix: incrementing swapped h and I, and left 8- and
 16-bit integers unset

---
 osc_expr.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index cd7a7ce..3b285f8 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3240,15 +3240,27 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) + 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) + 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) + 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) + 1);
 			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) + 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) + 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) + 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) + 1);
+			break;
 		}
 	}
 	return 0;
@@ -3273,15 +3285,27 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) - 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) - 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) - 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) - 1);
 			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) - 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) - 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) - 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) - 1);
+			break;
 		}
 	}
 	return 0;
-- 
2.43.0


From c70eec252f57d5603d1a954637efa8900533234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:44 +0000
Subject: [PATCH 059/128] fix: the negation of an integer looked at its low 32
 bits, or not at it at all

---
 osc_expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3b285f8..3bfaba8 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4201,7 +4201,11 @@ int osc_expr_not(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 		case 'I':
 		case 'h':
 		case 'H':
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i))));
+		case 'c':
+		case 'C':
+		case 'u':
+		case 'U':
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getUInt64(osc_atom_array_u_get(*argv, i))));
 			break;
 		case 'f':
 		case 'd':
-- 
2.43.0


From b48ed60ac5bcbb12b264262a1d30e048f215e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:25 +0000
Subject: [PATCH 060/128] fix: the remainder by a time tag keeps going through
 doubles

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 3bfaba8..5f638aa 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3184,6 +3184,10 @@ int osc_expr_mod(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 			osc_atom_u_copyInto(result, f1);
 			return 0;
 		}
+		if(!(OSC_TYPETAG_ISINT(tt1) || OSC_TYPETAG_ISBOOL(tt1)) || !(OSC_TYPETAG_ISINT(tt2) || OSC_TYPETAG_ISBOOL(tt2))){
+			osc_atom_u_setInt32(*result, (int32_t)_osc_expr_fmod(ff1, ff2));
+			return 0;
+		}
 		switch(osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2){
 		case 'I':
 			osc_atom_u_setUInt32(*result, _osc_expr_imod(f1, f2));
-- 
2.43.0


From 6a0cdef8579df579d5709d975b4371002cc28a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:33 +0000
Subject: [PATCH 061/128] fix: the median of an empty list read outside its
 buffer

---
 osc_expr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 5f638aa..d7602a7 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3832,7 +3832,10 @@ int osc_expr_median(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 	double *tmp = NULL;
 	osc_atom_array_u_getDoubleArray(*argv, &tmp);
 	qsort((void *)(tmp), len, sizeof(double), comp);
-	if((len % 2) == 0){
+	if(len == 0){
+		// like the mean
+		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), NAN);
+	}else if((len % 2) == 0){
 		//double left = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, (int)((len - 1) / 2.)));
 		//double right = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, ((int)((len - 1) / 2.) + 1)));
 		double left = tmp[(int)((len - 1) / 2.)];
-- 
2.43.0


From d18ace68921de9ca0ec38808f9a22c53da4e19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:35 +0000
Subject: [PATCH 062/128] fix: product() of floating point numbers cut its
 result to an integer

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index d7602a7..d3c434f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3482,6 +3482,9 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 		}
 		int i;
 		for(i = 0; i < len; i++){
+			if(OSC_TYPETAG_ISFLOAT(osc_atom_u_getTypetag(osc_atom_array_u_get(argv[j], i)))){
+				doubleup = 1;
+			}
 			val *= osc_atom_u_getDouble(osc_atom_array_u_get(argv[j], i));
 		}
 	}
-- 
2.43.0


From 28866b6303abd7ab123e2605158508db187a044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:36 +0000
Subject: [PATCH 063/128] fix: sums and products below -2^31 or of 2^63 and
 2^64 did not fit the type they were given

---
 osc_expr.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d3c434f..c43b457 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3491,13 +3491,13 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
+		if(val >= -2147483648. && val <= 0x7fffffff){
 			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
+		}else if(val >= 0 && val <= ((uint32_t)0xffffffff)){
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
+		}else if(val >= -9223372036854775808. && val < 9223372036854775808.){
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
+		}else if(val >= 0 && val < 18446744073709551616.){
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
 		}else{
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
@@ -3532,13 +3532,13 @@ int osc_expr_sum(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
+		if(val >= -2147483648. && val <= 0x7fffffff){
 			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
+		}else if(val >= 0 && val <= ((uint32_t)0xffffffff)){
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
+		}else if(val >= -9223372036854775808. && val < 9223372036854775808.){
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
+		}else if(val >= 0 && val < 18446744073709551616.){
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
 		}else{
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-- 
2.43.0


From 5347bb13c623bc29ddf085eac77b2636992127f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:38 +0000
Subject: [PATCH 064/128] fix: the determinant of a singular matrix was not a
 number

---
 osc_expr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index c43b457..a5ba20c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4465,7 +4465,7 @@ int LUPDecompose(double **A, int N, double Tol, int *P) {
 				imax = k;
 			}
 
-		if (maxA < Tol) return 0; //failure, matrix is degenerate
+		if (maxA <= Tol) return 0; //failure, matrix is degenerate
 
 		if (imax != i) {
 			//pivoting P
@@ -4561,8 +4561,10 @@ int osc_expr_det(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 		}
 		int P[argc + 1];
 		memset(P, 0, sizeof(int) * (argc + 1));
-		LUPDecompose(cells, argc, 0, P);
-		double d = LUPDeterminant(cells, P, argc);
+		double d = 0;
+		if(LUPDecompose(cells, argc, 0, P)){
+			d = LUPDeterminant(cells, P, argc);
+		}
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), d);
 		for(int j = 0; j < argc; j++){
 			if(cells[j]){
-- 
2.43.0


From d270c630f19d56704a0fcc740cd45098cdef4ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:45 +0000
Subject: [PATCH 065/128] fix: if() took a test between -1 and 1 for false

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index a5ba20c..352a6a9 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1087,7 +1087,7 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
 	int outlen = 0;
 	int j = 0;
 	//for(int j = 0; j < osc_atom_array_u_getLen(argv); j++){
-		if(osc_atom_u_getInt32(osc_atom_array_u_get(argv, j))){
+		if(osc_atom_u_getBool(osc_atom_array_u_get(argv, j))){
 			err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, boolvec + j, context);
 			if(err){
                 if(err == OSC_ERR_EXPR_ADDRESSUNBOUND)
-- 
2.43.0


From 4ae10116fe1b192b9bc3a10ab4a5e77aa09083c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:47 +0000
Subject: [PATCH 066/128] fix: if() read missing memory when its test was not a
 single value or it had nothing to return

---
 osc_expr.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 352a6a9..09c8bb6 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1081,7 +1081,13 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
 		return err;
 	}
 
-	int test_result_len = osc_atom_array_u_getLen(argv);
+	// only the first element decides
+	int test_result_len = 1;
+	if(osc_atom_array_u_getLen(argv) < 1){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "osc_expr if(): the test has no value");
+		osc_atom_array_u_free(argv);
+		return OSC_ERR_EXPR_ARGCHK;
+	}
 	t_osc_atom_ar_u *boolvec[test_result_len];
 	memset(boolvec, '\0', test_result_len * sizeof(t_osc_atom_ar_u *));
 	int outlen = 0;
@@ -1139,8 +1145,10 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
 		//}
 	*out = osc_atom_array_u_alloc(outlen);
 	for(int i = 0; i < test_result_len; i++){
-		osc_atom_array_u_copyInto(out, boolvec[i], j);
-		j += osc_atom_array_u_getLen(boolvec[i]);
+		if(boolvec[i]){
+			osc_atom_array_u_copyInto(out, boolvec[i], j);
+			j += osc_atom_array_u_getLen(boolvec[i]);
+		}
 	}
  out:
 	for(int i = 0; i < test_result_len; i++){
-- 
2.43.0


From bacb8cb49afbedee300c2563133dbc9353d303be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:56 +0000
Subject: [PATCH 067/128] fix: a syntax error at a per cent sign was reported
 with the message as its format

---
 osc_expr_parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 30f9ac3..a74b9ae 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -387,7 +387,7 @@ int osc_expr_parser_checkArity(void* context, YYLTYPE *llocp, char *input_string
  void yyerror(YYLTYPE *llocp, t_osc_expr **exprstack, t_osc_expr **tmp_exprstack, t_osc_expr_rec **rec, void *scanner, char *input_string, long *buflen, char **buf, int startcond, int *started, void *context, char const *e)
 {
 //	printf("(yyerror) %s context %p\n", __func__, context);
-	osc_expr_error(context, llocp, input_string, OSC_ERR_EXPPARSE, e);
+	osc_expr_error(context, llocp, input_string, OSC_ERR_EXPPARSE, "%s", e);
 }
 
 void osc_expr_parser_reportUnknownFunctionError(void *context, YYLTYPE *llocp,
-- 
2.43.0


From 575bc1b5fb725b9457ede4653edc4a230a504ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:07 +0000
Subject: [PATCH 068/128] fix: the text of a bad expression was used as the
 format of its error message

---
 osc_expr_parser.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index a74b9ae..c6c96d9 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -309,6 +309,7 @@ void osc_expr_error(void *context, YYLTYPE *llocp,
 				  NULL,
 				  -1,
 				  errorcode,
+				  "%s",
 				  buf);
 	}else{
 	  osc_error_handler(context,
-- 
2.43.0


From 1a3e4419c744a335f86142c8554fb4a7ca2dc826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:13 +0000
Subject: [PATCH 069/128] fix: dispatch: strip the matched part of the pattern,
 not as many characters as the selector has

---
 osc_dispatch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index 21ad226..db683f9 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -112,7 +112,7 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 		if(strip_matched_portion_of_address){
 			char buf[osc_message_s_getSize(msg) + 4];
 			char *address = osc_message_s_getAddress(msg);
-			osc_message_s_renameCopy(buf, msg, strlen(address) - ao, address + ao);
+			osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
 			char msg_s[osc_message_s_getStructSize()];
 			osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 			osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
-- 
2.43.0


From f25bafaffb90a254b6d0cfae03bd74f22d3f1c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:13 +0000
Subject: [PATCH 070/128] fix: vtable: a table without a delegation method
 ignores unmatched messages instead of calling NULL

---
 osc_vtable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 050333b..de80869 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -214,7 +214,9 @@ int osc_vtable_call(t_osc_vtable *vtab,
 }
 
 int osc_vtable_delegate(t_osc_vtable *vtab, long bndllen, char *bndl, t_osc_bndl_s *unmatched){
-	vtab->delegation_method(bndllen, bndl, unmatched, vtab->delegation_context);
+	if(vtab->delegation_method){
+		vtab->delegation_method(bndllen, bndl, unmatched, vtab->delegation_context);
+	}
 	return 0;
 }
 
-- 
2.43.0


From 88b7204f0372eb42df14e1207fc43e8c3d654a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:13 +0000
Subject: [PATCH 071/128] fix: vtable: lookups survive the growth of the table,
 which moved the entries they pointed to

---
 osc_vtable.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index de80869..0f1c21a 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -27,6 +27,7 @@
 
 #include <string.h>
 #include <stdio.h>
+#include <inttypes.h>
 #include "osc.h"
 #include "osc_mem.h"
 #include "osc_error.h"
@@ -80,12 +81,6 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 			      t_osc_vtable_method method,
 			      void *context)
 {
-	if(vtab->num_entries >= vtab->num_slots){
-		vtab->entries = osc_mem_resize(vtab->entries, ++(vtab->num_slots) * sizeof(t_osc_vtable_entry));
-		if(!(vtab->entries)){
-			return OSC_ERR_OUTOFMEM;
-		}
-	}
 	t_osc_vtable_entry *entry = osc_vtable_getEntryBySelector(vtab, selector);
 	if(entry){
 		// already an entry with this selector.  blow away the old one.
@@ -94,6 +89,14 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 
+	if(vtab->num_entries >= vtab->num_slots){
+		t_osc_vtable_entry *entries = osc_mem_resize(vtab->entries, (vtab->num_slots + 1) * sizeof(t_osc_vtable_entry));
+		if(!entries){
+			return OSC_ERR_OUTOFMEM;
+		}
+		vtab->entries = entries;
+		vtab->num_slots++;
+	}
 	entry = &(vtab->entries[vtab->num_entries]);
 	vtab->num_entries++;
 	if(selector){
@@ -109,7 +112,8 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 	}
 	// osc_hashtab_store doesn't make a copy of the key, so make sure to use the selector that we have 
 	// allocated memory for.
-	osc_hashtab_store(vtab->hashtab, strlen(entry->selector), entry->selector, entry);
+	// the entries move when the table grows, so it is the number of the entry that is stored.
+	osc_hashtab_store(vtab->hashtab, strlen(entry->selector), entry->selector, (void *)(intptr_t)vtab->num_entries);
 	return OSC_ERR_NONE;
 
 }
@@ -123,14 +127,15 @@ int osc_vtable_getNumSlots(t_osc_vtable *vtab){
 }
 
 t_osc_vtable_entry *osc_vtable_getEntryByIndex(t_osc_vtable *vtab, int index){
-	if(index >= vtab->num_entries){
+	if(index < 0 || index >= vtab->num_entries){
 		return NULL;
 	}
 	return &(vtab->entries[index]);
 }
 
 t_osc_vtable_entry *osc_vtable_getEntryBySelector(t_osc_vtable *vtab, char *selector){
-	return osc_hashtab_lookup(vtab->hashtab, strlen(selector), selector);
+	// the hash table holds the number of the entry, counted from 1
+	return osc_vtable_getEntryByIndex(vtab, (int)(intptr_t)osc_hashtab_lookup(vtab->hashtab, strlen(selector), selector) - 1);
 }
 
 int osc_vtable_getIndexForEntry(t_osc_vtable *vtab, t_osc_vtable_entry *e){
@@ -141,7 +146,7 @@ int osc_vtable_getIndexForEntry(t_osc_vtable *vtab, t_osc_vtable_entry *e){
 }
 
 int osc_vtable_getIndexForSelector(t_osc_vtable *vtab, char *selector){
-	t_osc_vtable_entry *e = osc_hashtab_lookup(vtab->hashtab, strlen(selector), selector);
+	t_osc_vtable_entry *e = osc_vtable_getEntryBySelector(vtab, selector);
 	return osc_vtable_getIndexForEntry(vtab, e);
 }
 
@@ -184,7 +189,7 @@ t_osc_err osc_vtable_renameEntry(t_osc_vtable *vtab, char *old_selector, char *n
 	}
 	strncpy(e->selector, new_selector, newlen + 1);
 	osc_hashtab_remove(vtab->hashtab, oldlen, old_selector, NULL);
-	osc_hashtab_store(vtab->hashtab, newlen, new_selector, (void *)e);
+	osc_hashtab_store(vtab->hashtab, newlen, new_selector, (void *)(intptr_t)(osc_vtable_getIndexForEntry(vtab, e) + 1));
 	return OSC_ERR_NONE;
 }
 
@@ -206,7 +211,7 @@ int osc_vtable_call(t_osc_vtable *vtab,
 		    t_osc_bndl_s *partial_matches,
 		    t_osc_bndl_s *complete_matches)
 {
-	t_osc_vtable_entry *e = osc_hashtab_lookup(vtab->hashtab, strlen(selector), selector);
+	t_osc_vtable_entry *e = osc_vtable_getEntryBySelector(vtab, selector);
 	if(!e){
 		return 1;
 	}
-- 
2.43.0


From dddc147da2dfa0295522c9c503cf98cd3bea82be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:13 +0000
Subject: [PATCH 072/128] fix: vtable: a renamed entry is found under its new
 name whatever becomes of the caller's string

---
 osc_vtable.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 0f1c21a..ae4af8e 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -184,12 +184,16 @@ t_osc_err osc_vtable_renameEntry(t_osc_vtable *vtab, char *old_selector, char *n
 	}
 	int oldlen = strlen(old_selector);
 	int newlen = strlen(new_selector);
-	if(newlen > oldlen){
-		e->selector = osc_mem_resize(e->selector, newlen + 1);
+	// osc_hashtab_store doesn't make a copy of the key, and old_selector may be the entry's own
+	char *selector = osc_mem_alloc(newlen + 1);
+	if(!selector){
+		return OSC_ERR_OUTOFMEM;
 	}
-	strncpy(e->selector, new_selector, newlen + 1);
+	strncpy(selector, new_selector, newlen + 1);
 	osc_hashtab_remove(vtab->hashtab, oldlen, old_selector, NULL);
-	osc_hashtab_store(vtab->hashtab, newlen, new_selector, (void *)(intptr_t)(osc_vtable_getIndexForEntry(vtab, e) + 1));
+	osc_mem_free(e->selector);
+	e->selector = selector;
+	osc_hashtab_store(vtab->hashtab, newlen, e->selector, (void *)(intptr_t)(osc_vtable_getIndexForEntry(vtab, e) + 1));
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From 6f28d4b1d0ea15761baa7fd8da5dbf3f18e4961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:39 +0000
Subject: [PATCH 073/128] fix: serial: read message sizes of more than one
 byte, and refuse negative ones

---
 osc_serial.c | 38 ++++++++++++++++++++++----------------
 osc_serial.h |  3 ++-
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/osc_serial.c b/osc_serial.c
index 3359f60..d1d2c09 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -190,6 +190,16 @@ int osc_serial_errorp(uint64_t state)
 	return (state & OSC_SERIAL_ERROR_MASK) != 0;
 }
 
+// the first byte of the size of a message in a bundle
+static uint64_t osc_serial_beginSize(char b)
+{
+	uint64_t s = OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((uint32_t)b & 0xff) << 24);
+	if(b & 0x80){
+		return s | OSC_SERIAL_ERROR_NEGATIVESIZE;
+	}
+	return s;
+}
+
 uint64_t osc_serial_processByte(char b, uint64_t s)
 {
 	uint64_t macro = s & 0xff00000000000000;
@@ -269,8 +279,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			case 6:
 				OSC_SERIAL_RETURN(s + 1);
 			case 7:
-				// do negative size check
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 24));
+				OSC_SERIAL_RETURN(osc_serial_beginSize(b));
 			}
 		}
 	case OSC_SERIAL_BUNDLE_MESSAGE:
@@ -280,25 +289,22 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				int32_t c = count & 0xff;
 				switch(c){
 				case 0:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 16) | (c + 1));
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count & 0xff000000) | (((uint32_t)b & 0xff) << 16) | (c + 1));
 				case 1:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 8) | (c + 1));
-				case 2:
-					// negative size check
-					//count = ntoh32(count | b);
-					count = count | b;
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count - 2));
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count & 0xffff0000) | (((uint32_t)b & 0xff) << 8) | (c + 1));
 				default:
-					//count = ntoh32(count);
-					if(b == '/'){
-						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count - 1));
-					}else{
-						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_ERROR_NOLEADINGSLASH);
-					}
+					// the size is complete, and the address begins with the next byte
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_START | (count & 0xffffff00) | ((uint32_t)b & 0xff));
 				}
 			}
 		case OSC_SERIAL_MESSAGE_ADDRESS:
 			switch(micro){
+			case OSC_SERIAL_MESSAGE_ADDRESS_START:
+				if(b == '/'){
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count - 1));
+				}else{
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_ERROR_NOLEADINGSLASH);
+				}
 			case 0:
 				switch(b){
 				case '[':
@@ -418,7 +424,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			}
 		case OSC_SERIAL_MESSAGE_DATA:
 			if(count <= 0){
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE);
+				OSC_SERIAL_RETURN(osc_serial_beginSize(b));
 			}else{
 				OSC_SERIAL_RETURN(s - 1);
 			}
diff --git a/osc_serial.h b/osc_serial.h
index 8bd03ea..49106a0 100644
--- a/osc_serial.h
+++ b/osc_serial.h
@@ -34,7 +34,7 @@ The counter allows us to keep track of 4-byte alignment and to make sure that th
 When going through the header, the counter is simply incremented since we know how long the two header fields are.
 For the size of a message, we use the lowest byte as a counter to record where we are in the size field, while we pack the
 size bytes into the upper 3 bytes of the counter.  When we reach the last byte of the size, we put it in the lowest
-byte of the counter and then count down as we pass through the rest of the message.  When we get to 0, we've either 
+byte of the counter, expect the address to start, and then count down as we pass through the rest of the message.  When we get to 0, we've either 
 gone off the end of the buffer or started a new message.
  */
 
@@ -63,6 +63,7 @@ gone off the end of the buffer or started a new message.
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS 0x0000040000000000ull
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH 0x0000080000000000ull
 #define OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING 0x0000100000000000ull
+#define OSC_SERIAL_MESSAGE_ADDRESS_START 0x0000200000000000ull
 
 // typetags micro states
 #define OSC_SERIAL_MESSAGE_TYPETAGS_NULLPADDING 0x0000010000000000ull
-- 
2.43.0


From d595c97e7a2d63b86eeaa255a953a4c237449c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:39 +0000
Subject: [PATCH 074/128] fix: serial: a message without arguments can be
 followed by another

---
 osc_serial.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_serial.c b/osc_serial.c
index d1d2c09..3c4bb88 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -412,7 +412,10 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNSUPPORTEDTYPETAG);
 				}
 			case OSC_SERIAL_MESSAGE_TYPETAGS_NULLPADDING:
-				if(ctrm4 == 0){
+				if(count == 0){
+					// no data, so this is already the next message
+					OSC_SERIAL_RETURN(osc_serial_beginSize(b));
+				}else if(ctrm4 == 0){
 					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_DATA | (count - 1));
 				}else{
 					if(b == '\0'){
-- 
2.43.0


From bbc55a279d547a29d8f06d61876014ed000417cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:39 +0000
Subject: [PATCH 075/128] fix: serial: only commas and dashes that are next to
 each other are doubled

---
 osc_serial.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_serial.c b/osc_serial.c
index 3c4bb88..888adfb 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -342,7 +342,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case '\0':
 					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTCURLYBRACE);
 				default:
-					OSC_SERIAL_RETURN(s - 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | (count - 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH:
 				switch(b){
@@ -366,7 +366,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case '\0':
 					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTSQUAREBRACKET);
 				default:
-					OSC_SERIAL_RETURN(s - 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | (count - 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING:
 				if(ctrm4 == 0){
@@ -467,7 +467,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case '}':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
 				default:
-					OSC_SERIAL_RETURN(s + 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | (count + 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH:
 				switch(b){
@@ -489,7 +489,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case ']':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
 				default:
-					OSC_SERIAL_RETURN(s + 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | (count + 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING:
 				if(ctrm4 == 3){
-- 
2.43.0


From c9cbd5aaeeae571c44bdaff9f7b0cdaa2cb62d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:39 +0000
Subject: [PATCH 076/128] fix: serial: unmatched brackets are errors in
 messages outside bundles too

---
 osc_serial.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index 888adfb..a5c443f 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -444,6 +444,10 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS) + 1);
 				case '\0':
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING) + 1);
+				case ']':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTSQUAREBRACKET);
+				case '}':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTCURLYBRACE);
 				default:
 					OSC_SERIAL_RETURN(s + 1);
 				}
@@ -466,6 +470,8 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA | (count + 1));
 				case '}':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTCURLYBRACE);
 				default:
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | (count + 1));
 				}
@@ -488,6 +494,8 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH | (count + 1));
 				case ']':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTSQUAREBRACKET);
 				default:
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | (count + 1));
 				}
-- 
2.43.0


From 2b8d46eb5801f9e7e342a527f9bf30cd34db13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:39 +0000
Subject: [PATCH 077/128] fix: serial: blobs are a supported type

---
 osc_serial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index a5c443f..d03528e 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -400,6 +400,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case 'f':
 				case 'd':
 				case 's':
+				case 'b':
 				case 'T':
 				case 'F':
 				case 'N':
@@ -531,6 +532,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case 'f':
 				case 'd':
 				case 's':
+				case 'b':
 				case 'T':
 				case 'F':
 				case 'N':
-- 
2.43.0


From 51d39749e775edce31f2fec69496f2f042315dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:39 +0000
Subject: [PATCH 078/128] fix: serial: an address or typetags longer than their
 message are an overrun

---
 osc_serial.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index d03528e..5d1f6eb 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -283,6 +283,10 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			}
 		}
 	case OSC_SERIAL_BUNDLE_MESSAGE:
+		// an address or typetags that go on after the end of the message
+		if(count == 0 && (state == OSC_SERIAL_MESSAGE_ADDRESS || (state == OSC_SERIAL_MESSAGE_TYPETAGS && micro == 0))){
+			OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_BUFFEROVERRUN);
+		}
 		switch(state){
 		case OSC_SERIAL_MESSAGE_SIZE:
 			{
-- 
2.43.0


From 84d694c8928a91f9f5c593d092bab4ebeea04196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:13 +0000
Subject: [PATCH 079/128] fix: strfmt: quoting an empty string read the byte
 before it

---
 osc_strfmt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index 5971872..b1afa87 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -205,12 +205,12 @@ int osc_strfmt_addQuotes(int len, char *buf, char **out)
 		*out = osc_mem_alloc(len + 3);
 	}
 	int i = 0;
-	if(buf[0] != '\"'){
+	if(len < 1 || buf[0] != '\"'){
 		(*out)[i++] = '\"';
 	}
 	strncpy((*out) + i, buf, len);
 	i += len;
-	if(buf[len - 1] != '\"'){
+	if(len < 1 || buf[len - 1] != '\"'){
 		(*out)[i++] = '\"';
 	}
 	(*out)[i] = '\0';
-- 
2.43.0


From 28a714d9a529616688604d8d8a6f0d20baf4c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 080/128] fix: expr: a string literal with several escapes
 ended at the second one

---
 osc_expr_scanner.l | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index cfa5e41..01ec82f 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -56,7 +56,7 @@ dfc       (({frac}{exp_opt}{fsuff_opt})|({dseq}{exp}{fsuff_opt}))
 hfc       (({hpref}{hfrac}{bexp}{fsuff_opt})|({hpref}{hdseq}{bexp}{fsuff_opt}))
 c99_floating_point_constant  ({dfc}|{hfc})
 
-quoted_string [^\"\\]
+quoted_string ([^\"\\]|\\[^\"])
 oscaddress \/[^\+\-\*%\^!=\[\]:;,\?<>\&\|\\\{\}\(\)\"\'` \n\t]+
 reserved_chars \+|-|\*|\/|%|^|!|=|\[|\]|:|;|\?|<|>|\&|\||\\|\{|\}|\(|\)
 
@@ -179,7 +179,7 @@ quote[[:space:]]*\( {
 	BEGIN(quote);
 }
 
-<quote>[^\"]+ { 
+<quote>{quoted_string}+ { 
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng + 1);
 		*buflen += yyleng + 1;
@@ -211,7 +211,7 @@ quote[[:space:]]*\( {
 	}
 }
 
-<quote>{quoted_string}*\\. {
+<quote>{quoted_string}*\\\" {
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng);
 		memcpy(*buf + *buflen, yytext, yyleng - 1);
-- 
2.43.0


From f79a235dcf5f5f6b948dfb51a4e1310436efc2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 081/128] fix: expr: join of no strings is an empty string, and
 a missing separator is not freed

---
 osc_expr.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 09c8bb6..d7990f4 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5381,8 +5381,6 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	int seplen = 0;
 	if(sep){
 		seplen = strlen(sep);
-	}else{
-		sep = "";
 	}
 	int n = 0;
 	for(int i = 1; i < argc; i++){
@@ -5410,12 +5408,13 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	len++;
 	char *buf = (char *)osc_mem_alloc(len);
 	char *bufptr = buf;
+	*bufptr = '\0';
 	for(int i = 0; i < n; i++){
 		if(ptrs[i]){
 			if(i == n - 1){
 				bufptr += sprintf(bufptr, "%s", ptrs[i]);
 			}else{
-				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep);
+				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep ? sep : "");
 			}
 			osc_mem_free(ptrs[i]);
 		}
-- 
2.43.0


From caf0f28b483457399dc9afdaa218735549a414f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:59 +0000
Subject: [PATCH 082/128] fix: expr: string(-128) lost its last digit

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index d7990f4..5080d75 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6122,7 +6122,7 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 				buf[0] = c;
 				buf[1] = 0;
 			}else{
-				snprintf(buf, 4, "%d", c);
+				snprintf(buf, sizeof(buf), "%d", c);
 			}
 			osc_atom_u_setString(dest, buf);
 			return 0;
-- 
2.43.0


From 5deffeccf9e7257db923857bf87d2432dbb6d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:59 +0000
Subject: [PATCH 083/128] fix: expr: string() of a blob without a zero byte
 read past its end

---
 osc_expr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 5080d75..d891b91 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6112,7 +6112,12 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 	char *s = NULL;
 	if(osc_atom_u_getTypetag(src) == 'b'){
 		char *b = osc_atom_u_getBlob(src);
-		osc_atom_u_setString(dest, b + 4);
+		int len = osc_atom_u_getBlobLen(src);
+		s = osc_mem_alloc(len + 1);
+		memcpy(s, b + 4, len);
+		s[len] = '\0';
+		osc_atom_u_setString(dest, s);
+		osc_mem_free(s);
 		return 0;
 	}else{
 		if(osc_atom_u_getTypetag(src) == 'c'){
-- 
2.43.0


From 9159280ca12b70912aba7483ff4913b38658024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:31 +0000
Subject: [PATCH 084/128] fix: expr: applying a bound function replaced its
 name in the expression

---
 osc_expr.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d891b91..8a9a00c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -421,16 +421,19 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 			if(!r){
 				// maybe we're in a lambda and should look it up in the lexenv
 				t_osc_atom_ar_u *xx = osc_expr_lookupBindingInLexenv(lexenv, osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
-				if(osc_atom_u_getTypetag(osc_atom_array_u_get(xx, 0)) == 'r'){
+				if(xx && osc_atom_array_u_getLen(xx) > 0 && osc_atom_u_getTypetag(osc_atom_array_u_get(xx, 0)) == 'r'){
 					r = osc_atom_u_getRec(osc_atom_array_u_get(xx, 0));
+					// the function belongs to the expression it was written in, and f keeps the
+					// name: it may be bound to something else the next time f is evaluated.
 					t_osc_expr_arg *a = osc_expr_arg_alloc();
 					osc_expr_arg_setFunction(a, r);
 					osc_expr_arg_setNext(a, f_argv->next);
-					osc_expr_setArg(f, a);
-					int ret = osc_expr_specFunc_apply(f, lexenv, len, oscbndl, out, context);
-					//osc_expr_setArg(f, f_argv);
-					//osc_expr_arg_setNext(a, NULL);
-					//osc_expr_arg_free(a);
+					t_osc_expr *e = osc_expr_alloc();
+					osc_expr_setRec(e, osc_expr_getRec(f));
+					osc_expr_setArg(e, a);
+					int ret = osc_expr_specFunc_apply(e, lexenv, len, oscbndl, out, context);
+					osc_mem_free(a);
+					osc_mem_free(e);
 					return ret;
 				}
 				//osc_atom_array_u_free(xx);
-- 
2.43.0


From f7e30492816ac9417f4a10704ddd5c8fdc013560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:43 +0000
Subject: [PATCH 085/128] fix: expr: apply went on after an argument of a
 function failed

---
 osc_expr.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8a9a00c..bbd225f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -380,8 +380,14 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		for(int i = 0; (i < nparams) && arg; i++){
 			t_osc_atom_ar_u *atoms = NULL;
 			t_osc_err e = osc_expr_evalArgInLexEnv(arg, lexenv, len, oscbndl, &atoms, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), "apply");
+			if(e){
+				if(e == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(arg) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+					osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), "apply");
+				}
+				if(atoms){
+					osc_atom_array_u_free(atoms);
+				}
+				osc_expr_destroyLexenv(lexenv_copy);
 				return e;
 			}
 			osc_expr_bindVarInLexenv(lexenv_copy, params[i], atoms);
@@ -390,7 +396,7 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(r);
 		while(e){
 			int ret =  osc_expr_evalInLexEnv(e, lexenv_copy, len, oscbndl, out, context);
-			if(e->next){
+			if((e->next || ret) && *out){
 				osc_atom_array_u_free(*out);
 				*out = NULL;
 			}
-- 
2.43.0


From e85c44a8b91c8c79461eb2cc509ce1bef811f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:17 +0000
Subject: [PATCH 086/128] fix: expr: map went on after its function failed

---
 osc_expr.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index bbd225f..59b1c5b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -548,10 +548,12 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 	t_osc_expr_arg *a = f_argv->next;
 	while(a){
 		t_osc_err err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, args + i, context);
-		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), "map");
+		if(err){
+			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(a) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), "map");
+			}
 			// assume whoever generated this will post an error
-			for(int j = 0; j < i; j++){
+			for(int j = 0; j <= i; j++){
 				if(args[j]){
 					osc_atom_array_u_free(args[j]);
 				}
@@ -581,19 +583,26 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 	t_osc_atom_ar_u *output[min];
 	memset(output, '\0', min * sizeof(t_osc_atom_ar_u *));
 	int outcount = 0;
-	for(i = 0; i < min; i++){
+	int ret = 0;
+	for(i = 0; i < min && !ret; i++){
 		int j;
 		for(j = 0; j < ac; j++){
 			osc_expr_arg_setOSCAtom(func_args[j + 1], osc_atom_array_u_get(args[j], i));
 		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
-		outcount += osc_atom_array_u_getLen(output[i]);
+		ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
+		if(!ret && output[i]){
+			outcount += osc_atom_array_u_getLen(output[i]);
+		}
 	}
-	*out = osc_atom_array_u_alloc(outcount);
-	int pos = 0;
-	for(i = 0; i < min; i++){
-		osc_atom_array_u_copyInto(out, output[i], pos);
-		pos += osc_atom_array_u_getLen(output[i]);
+	if(!ret){
+		*out = osc_atom_array_u_alloc(outcount);
+		int pos = 0;
+		for(i = 0; i < min; i++){
+			if(output[i]){
+				osc_atom_array_u_copyInto(out, output[i], pos);
+				pos += osc_atom_array_u_getLen(output[i]);
+			}
+		}
 	}
 	e->argv = NULL;
 	e->argc = 0;
@@ -618,7 +627,7 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 			osc_atom_array_u_free(output[i]);
 		}
 	}
-	return 0;
+	return ret;
 }
 
 static int osc_expr_specFunc_reduce(t_osc_expr *f,
-- 
2.43.0


From 6ba815860480bbd6961b7215e108cc9376405498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 087/128] fix: expr: the folds of a list freed its elements
 twice and ignored errors

---
 osc_expr.c | 111 ++++++++++++++++-------------------------------------
 1 file changed, 33 insertions(+), 78 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 59b1c5b..704f963 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -660,23 +660,16 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 	t_osc_atom_ar_u *args = NULL;
 	t_osc_expr_arg *a = f_argv->next;
 	int err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &args, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+	t_osc_atom_ar_u *output = NULL; // the value so far
+	if(!err && f_argc > 2){
+		a = f_argv->next->next;
+		err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &output, context);
+	}
+	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(a) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
 		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
 				     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-		if(args){
-			osc_atom_array_u_free(args);
-		}
-		for(int i = 0; i < ac; i++){
-			if(func_args[i]){
-				osc_expr_arg_free(func_args[i]);
-			}
-		}
-		e->argv = NULL;
-		e->argc = 0;
-		osc_expr_free(e);
-		return err;
 	}
-	int count = osc_atom_array_u_getLen(args);
+	int count = args ? osc_atom_array_u_getLen(args) : 0;
 
 	int arg0 = 1;
 	int arg1 = 2;
@@ -689,72 +682,34 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		start = count - 1;
 	}
 
-	if(count == 0){
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
-		if(args){
-			osc_atom_array_u_free(args);
-		}
-	}else if(count == 1 && f_argc == 2){
-		*out = args;
-	}else{
-		t_osc_atom_ar_u *output = NULL;
-		if(f_argc == 3){
-			t_osc_atom_ar_u *sc = NULL;
-			t_osc_err err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &sc, context);
-			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
-						     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-				if(args){
-					osc_atom_array_u_free(args);
-				}
-				for(int i = 0; i < ac; i++){
-					if(func_args[i]){
-						osc_expr_arg_free(func_args[i]);
-					}
-				}
-				e->argv = NULL;
-				e->argc = 0;
-				osc_expr_free(e);
-				return err;
-			}
-			if(sc){
-				t_osc_atom_u *acopy = NULL;
-				osc_atom_u_copyInto(&acopy, osc_atom_array_u_get(sc, 0));
-				osc_expr_arg_setOSCAtom(func_args[arg0], acopy);
-				if(sc){
-					osc_atom_array_u_free(sc);
-				}
-			}else{
-				//error
-				return 1;
-			}
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
-			start += delta;
-		}else{
-			osc_expr_arg_setOSCAtom(func_args[arg0], osc_atom_array_u_get(args, start));
-			start += delta;
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
+	if(!err && f_argc < 3){
+		// without an initial value, the fold starts from the first element
+		output = osc_atom_array_u_alloc(count > 0 ? 1 : 0);
+		if(count > 0){
+			t_osc_atom_u *first = osc_atom_array_u_get(output, 0);
+			osc_atom_u_copyInto(&first, osc_atom_array_u_get(args, start));
 			start += delta;
 		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-
-		for(int i = start; delta > 0 ? i < count : i >= 0; i += delta){
-			t_osc_atom_u *copy1 = NULL;
-			t_osc_atom_u *copy2 = NULL;
-			osc_atom_u_copyInto(&copy1, osc_atom_array_u_get(output, 0));
-			osc_atom_u_copyInto(&copy2, osc_atom_array_u_get(args, i));
-			osc_expr_arg_setOSCAtom(func_args[arg0], copy1);
-			osc_expr_arg_setOSCAtom(func_args[arg1], copy2);
-			osc_atom_array_u_free(output);
-			output = NULL;
-			osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-			osc_expr_arg_clear(func_args[arg0]);
-			osc_expr_arg_clear(func_args[arg1]);
+	}
+	for(int i = start; !err && i >= 0 && i < count; i += delta){
+		t_osc_atom_ar_u *next = NULL;
+		if(!output || osc_atom_array_u_getLen(output) < 1){
+			err = 1;
+			break;
 		}
+		osc_expr_arg_setOSCAtom(func_args[arg0], osc_atom_array_u_get(output, 0));
+		osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, i));
+		err = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &next, context);
+		osc_atom_array_u_free(output);
+		output = next;
+	}
+	if(args){
+		osc_atom_array_u_free(args);
+	}
+	if(!err){
 		*out = output;
-		if(args){
-			osc_atom_array_u_free(args);
-		}
+	}else if(output){
+		osc_atom_array_u_free(output);
 	}
 
 	e->argv = NULL;
@@ -768,11 +723,11 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		if(func_args[i]){
 			// it looks like a bug to free a t_osc_expr_arg with osc_mem_free,
 			// but we don't want to free the underlying t_osc_atom_u because
-			// it will be freed when args is freed.
+			// it belongs to one of the lists that were freed above.
 			osc_mem_free(func_args[i]);
 		}
 	}
-	return 0;
+	return err;
 }
 
 static int osc_expr_specFunc_assign(t_osc_expr *f,
-- 
2.43.0


From e5586ac23d698ab0e1dc138e224ff0b8db95ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 088/128] fix: expr: the message about a bad operand read a
 string that was never written

---
 osc_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 704f963..ccfee33 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7331,9 +7331,11 @@ static void osc_expr_err_badInfixArg(void *context, char *func, char typetag, in
 {
 	long len = osc_atom_u_nformat(NULL, 0, left, 0);
 	char leftstr[len + 1];
+	leftstr[0] = '\0'; // nothing is written for an atom that has no text
 	osc_atom_u_nformat(leftstr, len + 1, left, 0);
 	len = osc_atom_u_nformat(NULL, 0, right, 0);
 	char rightstr[len + 1];
+	rightstr[0] = '\0';
 	osc_atom_u_nformat(rightstr, len + 1, right, 0);
  	osc_error(context, OSC_ERR_EXPR_ARGCHK, "bad argument for expression %s %s %s. arg %d is a %s", leftstr, func, rightstr, argnum, osc_typetag_str(typetag));
 }
-- 
2.43.0


From 5addb097678cfb9adc1c4e590b3b6540d10d4635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:55 +0000
Subject: [PATCH 089/128] fix: expr: the bodies of a lambda that are not calls
 shared their argument lists

---
 osc_expr_parser.y | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index c6c96d9..ac74aa5 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -832,7 +832,6 @@ function:
 			t_osc_expr_arg *aaacpy = NULL;
 			osc_expr_arg_copy(&aaacpy, aaa);
 			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
 			t_osc_expr_arg *old = aaa;
 			aaa = osc_expr_arg_next(aaa);
 			osc_expr_arg_free(old);
@@ -857,8 +856,12 @@ function:
 			}else{
 				t_osc_expr *e = osc_expr_alloc();
 				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				osc_expr_prependArg(e, aaa);
+				t_osc_expr_arg *aaacpy = NULL;
+				osc_expr_arg_copy(&aaacpy, aaa);
+				osc_expr_prependArg(e, aaacpy);
+				t_osc_expr_arg *old = aaa;
 				aaa = osc_expr_arg_next(aaa);
+				osc_expr_arg_free(old);
 				osc_expr_appendExpr(exprlist, e);
 			}
 			/*
@@ -951,7 +954,6 @@ function:
 			t_osc_expr_arg *aaacpy = NULL;
 			osc_expr_arg_copy(&aaacpy, aaa);
 			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
 			t_osc_expr_arg *old = aaa;
 			aaa = osc_expr_arg_next(aaa);
 			osc_expr_arg_free(old);
@@ -978,7 +980,6 @@ function:
 				t_osc_expr_arg *aaacpy = NULL;
 				osc_expr_arg_copy(&aaacpy, aaa);
 				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
 				t_osc_expr_arg *old = aaa;
 				aaa = osc_expr_arg_next(aaa);
 				osc_expr_arg_free(old);
@@ -1053,7 +1054,6 @@ function:
 			t_osc_expr_arg *aaacpy = NULL;
 			osc_expr_arg_copy(&aaacpy, aaa);
 			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
 			t_osc_expr_arg *old = aaa;
 			aaa = osc_expr_arg_next(aaa);
 			osc_expr_arg_free(old);
@@ -1080,7 +1080,6 @@ function:
 				t_osc_expr_arg *aaacpy = NULL;
 				osc_expr_arg_copy(&aaacpy, aaa);
 				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
 				t_osc_expr_arg *old = aaa;
 				aaa = osc_expr_arg_next(aaa);
 				osc_expr_arg_free(old);
-- 
2.43.0


From 5b44d7354e65c827beac33f1615c0f98362e9b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:55 +0000
Subject: [PATCH 090/128] fix: expr: apply read the name of a function from an
 argument that is no name

---
 osc_expr.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index ccfee33..2d290c1 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -447,8 +447,10 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		}else{
 			t_osc_atom_ar_u *ar = NULL;
 			t_osc_err e = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "apply");
+			if(e){
+				if(e == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+					osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "apply");
+				}
 				return e;
 			}
 			if(!ar){
@@ -457,10 +459,12 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 			}
 			if(osc_atom_array_u_getLen(ar) != 1){
 				//error
+				osc_atom_array_u_free(ar);
 				return 1;
 			}
 			if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) != 's'){
 				//error
+				osc_atom_array_u_free(ar);
 				return 1;
 			}
 			char *stp = osc_atom_u_getStringPtr(osc_atom_array_u_get(ar, 0));
@@ -505,7 +509,8 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 					  __LINE__,
 					  OSC_ERR_EXPPARSE,
 					  "unrecognized function %s",
-					  osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
+					  osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_ATOM ?
+					  osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)) : "");
 			return 1;
 		}
 		t_osc_expr *e = osc_expr_alloc();
-- 
2.43.0


From e9d74bda158f6b2183ad8a5de6a37f87e827e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:16 +0000
Subject: [PATCH 091/128] fix: expr: a function assigned to an address left a
 malformed message in the bundle

---
 osc_expr.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 2d290c1..f6c3651 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -735,6 +735,18 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 	return err;
 }
 
+// a function has no representation in a bundle
+static int osc_expr_isAssignable(t_osc_atom_ar_u *ar, void *context)
+{
+	for(long i = 0; i < (long)osc_atom_array_u_getLen(ar); i++){
+		if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, i)) == 'r'){
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "a function can't be assigned to an address");
+			return 0;
+		}
+	}
+	return 1;
+}
+
 static int osc_expr_specFunc_assign(t_osc_expr *f,
 			    t_osc_expr_lexenv *lexenv,
 			    long *len,
@@ -842,6 +854,11 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
 	}
     
     
+	if(!osc_expr_isAssignable(*out, context)){
+		osc_mem_free(address);
+		osc_message_u_free(mm);
+		return OSC_ERR_EXPR_ARGCHK;
+	}
     long natoms = osc_atom_array_u_getLen(*out);
 	for( int i = 0; i < natoms; i++ )
     {
@@ -946,6 +963,10 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
             goto bail;
         }
         int ndata = osc_atom_array_u_getLen(data);
+        if(!osc_expr_isAssignable(data, context)){
+            err = OSC_ERR_EXPR_ARGCHK;
+            goto bail;
+        }
         if(nindexes == 0 || ndata == 0){
             err = 1;
             goto bail;
-- 
2.43.0


From f52f72f07e18417bb4b691396aec5de1a9f8b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:32 +0000
Subject: [PATCH 092/128] fix: expr: a function that could not be read was
 replaced by one within it

---
 osc_expr_parser.y | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index ac74aa5..3311f30 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -237,6 +237,10 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(ret){
+		// a function within the one that couldn't be read may have been found
+		*f = NULL;
+	}
 	return ret;
 }
 
-- 
2.43.0


From 0a509bf6a40ba363f347f1ef2b3aa46e721cb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:11 +0000
Subject: [PATCH 093/128] fix: expr: a member was assigned without error when
 its value had failed

---
 osc_expr.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f6c3651..f60edf3 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1897,8 +1897,16 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		osc_expr_setRec(assign, r);
 
 		t_osc_atom_array_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
-		int ret = 0;
+		int ret = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
+		if(ret){
+			if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(f_argv->next->next) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next), "=");
+			}
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
+			goto cleanup;
+		}
 		if(!ar){
 			goto cleanup;
 		}
-- 
2.43.0


From 6c48347ececc3764df44c2764cb0e4703b77545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:11 +0000
Subject: [PATCH 094/128] fix: expr: indexed assignment used a message that its
 own arguments had changed

---
 osc_expr.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f60edf3..d1a030b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -924,6 +924,10 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
+	if(osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_OSCADDRESS){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "assign to index: the first argument must be an OSC address.");
+		return 1;
+	}
 	t_osc_msg_ar_s *msg_ar = osc_bundle_s_lookupAddress(*len, *oscbndl, f_argv->arg.osc_address, 1);
 	if(!msg_ar){
 		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index =");
@@ -940,26 +944,29 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 
         // get data at target address
         err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, out, context);
-        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-            osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index");
+        if(err){
+            if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+                osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index");
+            }
             goto bail;
         }
         int outlen = osc_atom_array_u_getLen(*out);
 
         // get index(es)
         err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &indexes, context);
-        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-            osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next));
-            // osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next), "assign to index 2");
+        if(err){
+            if(err == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+                osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next));
+            }
             goto bail;
         }
         int nindexes = osc_atom_array_u_getLen(indexes);
         // get data
         err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &data, context);
-        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-            //osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next), "assign to index 3");
-            osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next->next));
-
+        if(err){
+            if(err == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(f_argv->next->next) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+                osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next->next));
+            }
             goto bail;
         }
         int ndata = osc_atom_array_u_getLen(data);
@@ -1015,9 +1022,11 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         }
 
         t_osc_msg_s *osc_msg_s = osc_message_u_serialize(mm);
+        // evaluating the arguments may have moved or changed the message
+        osc_message_array_s_free(msg_ar);
+        msg_ar = osc_bundle_s_lookupAddress(*len, *oscbndl, f_argv->arg.osc_address, 1);
         if(msg_ar){
             osc_bundle_s_replaceMessage(len, len, oscbndl, osc_message_array_s_get(msg_ar, 0), osc_msg_s);
-            osc_message_array_s_free(msg_ar);
         }else{
             osc_bundle_s_appendMessage(len, oscbndl, osc_msg_s);
         }
@@ -1028,6 +1037,8 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
     }
 
 bail:
+    if (msg_ar)
+        osc_message_array_s_free(msg_ar);
     if (indexes)
         osc_atom_array_u_free(indexes);
     if (data)
-- 
2.43.0


From b5d1d84bede2b9c62df5fa3bef61a7cb90692cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:05 +0000
Subject: [PATCH 095/128] fix: expr: assigning an empty list to a member did
 nothing

---
 osc_expr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index d1a030b..9f28b2a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1919,7 +1919,8 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 			goto cleanup;
 		}
 		if(!ar){
-			goto cleanup;
+			// no value is an empty list
+			ar = osc_atom_array_u_alloc(0);
 		}
 		t_osc_expr_arg *target = NULL;
 		osc_expr_arg_copy(&target, f_argv->next);
-- 
2.43.0


From 483b677e1dee6d3358b476f73a8b7ae7bef39b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:05 +0000
Subject: [PATCH 096/128] fix: expr: emptybundle hid the error of its argument

---
 osc_expr.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 9f28b2a..673420a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1180,17 +1180,21 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 	if(!len || !oscbndl){
 		return 1;
 	}
-	*out = osc_atom_array_u_alloc(1);
-	
 	int f_argc = osc_expr_getArgCount(f);
 	if(f_argc){
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 		t_osc_atom_ar_u *ar = NULL;
 		t_osc_err r = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
-		if(r == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), osc_expr_rec_getName(osc_expr_getRec(f)));
+		if(r){
+			if(r == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), osc_expr_rec_getName(osc_expr_getRec(f)));
+			}
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
 			return r;
 		}
+		*out = osc_atom_array_u_alloc(1);
 		if(ar && osc_atom_array_u_getLen(ar) > 0){
 			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
 			if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
@@ -1205,7 +1209,11 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 		}else{
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
 		}
+		if(ar){
+			osc_atom_array_u_free(ar);
+		}
 	}else{
+		*out = osc_atom_array_u_alloc(1);
 		if(*len == OSC_HEADER_SIZE){
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
 		}else{
-- 
2.43.0


From e99d965f62e37d5740e55c255648fe1df1c4bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:05 +0000
Subject: [PATCH 097/128] fix: expr: getaddresses hid the error of its argument

---
 osc_expr.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 673420a..edba1bd 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1362,7 +1362,16 @@ static int osc_expr_specFunc_getaddresses(t_osc_expr *f,
 	if(osc_expr_getArgCount(f)){
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 		t_osc_atom_ar_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		t_osc_err r = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		if(r){
+			if(r == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "getaddresses");
+			}
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
+			return r;
+		}
 		if(ar){
 			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
 			if(osc_atom_u_getTypetag(a) != OSC_BUNDLE_TYPETAG){
-- 
2.43.0


From 745e7f8f8e65ac38505d32172bfb92411a5aebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:01 +0000
Subject: [PATCH 098/128] fix: text that does not parse leaked what had been
 read of it

---
 osc_parser.y | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/osc_parser.y b/osc_parser.y
index 78e80de..68505b9 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -119,6 +119,10 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 	long buflen = 0;
 	char *buf = NULL;
 	int ret = osc_parser_parse(bndl, scanner, &buflen, &buf);
+	if(buf){
+		// the text ended within a quoted string
+		osc_mem_free(buf);
+	}
 	osc_scanner__delete_buffer(buf_state, scanner);
 	osc_scanner_lex_destroy(scanner);
 	/*
@@ -175,6 +179,21 @@ void yyerror (YYLTYPE *yylloc, t_osc_bndl_u **bndl, void *scanner, long *buflen,
 %type <atom>data datum list subbundle 
 %token <atom>OSCADDRESS OSCVALUE 
 
+%destructor{
+	while($$){
+		t_osc_atom_u *next = $$->next;
+		osc_atom_u_free($$);
+		$$ = next;
+	}
+}<atom>
+%destructor{
+	while($$){
+		t_osc_msg_u *next = osc_message_u_next($$);
+		osc_message_u_free($$);
+		$$ = next;
+	}
+}<message>
+
 %%
 
 bundle: 
-- 
2.43.0


From 26bf6e850f4af650f876a592a4708ec0e895cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:01 +0000
Subject: [PATCH 099/128] fix: serialising a bundle into a buffer below 16
 bytes leaked

---
 osc_bundle_u.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 77b2e7f..edb77fb 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -627,6 +627,9 @@ t_osc_bndl_s *osc_bundle_u_serialize(t_osc_bndl_u *b)
 size_t osc_bundle_u_nserialize(char *buf, size_t n, t_osc_bndl_u *b)
 {
 	size_t _n = 0;
+	if(buf && n < OSC_HEADER_SIZE){
+		return 0;
+	}
 	t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
 	if(!buf){
 		_n += OSC_HEADER_SIZE;
@@ -635,9 +638,6 @@ size_t osc_bundle_u_nserialize(char *buf, size_t n, t_osc_bndl_u *b)
 			_n += osc_message_u_nserialize(NULL, 0, m);
 		}
 	}else{
-		if(n < OSC_HEADER_SIZE){
-			return 0;
-		}
 		memcpy(buf, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		_n += OSC_HEADER_SIZE;
 		while(osc_bndl_it_u_hasNext(it) && _n < n){
-- 
2.43.0


From d5bb80491e81439ecf786f8dddda35485d44aacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:26 +0000
Subject: [PATCH 100/128] fix: an array of atoms leaked its blobs

---
 osc_atom_array_u.c | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index b4a6793..a2616fc 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -43,16 +43,7 @@ void osc_atom_array_u_free(t_osc_atom_ar_u *ar)
 	if(ar){
 		int i;
 		for(i = 0; i < osc_atom_array_u_getLen(ar); i++){
-			t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
-			if(a->alloc && a->typetag == 's'){
-				if(a->w.s){
-					osc_mem_free(a->w.s);
-				}
-			}else if(a->typetag == OSC_BUNDLE_TYPETAG){
-				if(a->w.bndl){
-					osc_bundle_u_free(a->w.bndl);
-				}
-			}
+			osc_atom_u_clear(osc_atom_array_u_get(ar, i));
 		}
 		osc_array_free(ar);
 	}
-- 
2.43.0


From 8ba261647ebcbfb75dde9c8576cbe862d499bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:26 +0000
Subject: [PATCH 101/128] fix: freeing a dispatch table leaked it

---
 osc_vtable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_vtable.c b/osc_vtable.c
index ae4af8e..869532c 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -66,6 +66,7 @@ void osc_vtable_free(t_osc_vtable *vtab){
 	if(vtab->hashtab){
 		osc_hashtab_destroy(vtab->hashtab);
 	}
+	osc_mem_free(vtab);
 }
 
 void osc_vtable_setDelegationMethod(t_osc_vtable *vtab,
-- 
2.43.0


From b17fde4c73afcfe6b267db545e1ec6aedd7f3e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:26 +0000
Subject: [PATCH 102/128] fix: storing a key a second time leaked when the
 table kept the first

---
 osc_hashtab.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index b69f9b1..71f134e 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -170,6 +170,7 @@ static void osc_hashtab_store_elem_safe(t_osc_hashtab *ht,
 	while(ee){
 		if(!strcmp(ee->key, key)){
 			// this is not a hash collision, this is a duplicate key
+			osc_mem_free(e);
 			return;
 		}else{
 			ee = ee->next;
-- 
2.43.0


From a5cc913ae86cb23d0bb9c9409783fc8bd5cec5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:41 +0000
Subject: [PATCH 103/128] fix: expr: a quoted string with an escaped quotation
 mark leaked

---
 osc_expr_scanner.l | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index 01ec82f..e7071ea 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -200,11 +200,8 @@ quote[[:space:]]*\( {
 <quote>\" {
 	BEGIN(0);
 	if(*buf){
-		t_osc_atom_u *a = osc_atom_u_alloc();
-		//osc_atom_u_setStringPtr(a, *buf);
-		//osc_atom_u_setShouldFreePtr(a, 1);
 		yylval->atom = osc_atom_u_allocWithString(*buf);
-		//yylval->string = *buf;
+		osc_mem_free(*buf);
 		*buf = NULL;
 		*buflen = 0;
 		return OSC_EXPR_STRING;
-- 
2.43.0


From 8137d336c3d2110baf8ec1ba6c20610758f7844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:41 +0000
Subject: [PATCH 104/128] fix: expr: reading an address as a whole expression,
 a member access or an assignment to a member leaked

---
 osc_expr_parser.y | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 3311f30..3920a94 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -584,6 +584,7 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 		char *buf = osc_mem_alloc(len);
 		memcpy(buf, st, len);
 		osc_expr_arg_setOSCAddress(a, buf);
+		osc_atom_u_free(value);
 	}else{
 		osc_expr_arg_setOSCAtom(a, value);
 	}
@@ -1325,8 +1326,8 @@ expr:
 		osc_atom_u_getString($3, 0, &ptr);
 		osc_expr_arg_setOSCAddress(a2, ptr);
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($1);
+		osc_atom_u_free($3);
 	}
 	| OSC_EXPR_STRING '.' OSC_EXPR_OSCADDRESS {
 		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
@@ -1339,8 +1340,7 @@ expr:
 		osc_atom_u_getString($3, 0, &ptr);
 		osc_expr_arg_setOSCAddress(a2, ptr);
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
-		//osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($3);
 	}
 	/* | OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg CLOSE_DBL_BRKTS '.' OSC_EXPR_OSCADDRESS{ */
 	/* 	printf("here\n"); */
@@ -1467,8 +1467,8 @@ expr:
 		osc_expr_arg_append(a1, a2);
 		osc_expr_arg_append(a1, $5);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "assigntobundlemember", a1);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($1);
+		osc_atom_u_free($3);
 	}
 	| OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg ':' arg CLOSE_DBL_BRKTS '=' arg{
 		char *ptr = NULL;
@@ -1620,8 +1620,11 @@ expr:
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "value", arg);
 	}
 	| '`' OSC_EXPR_OSCADDRESS '`' {
+		char *address = NULL;
+		osc_atom_u_getString($2, 0, &address);
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
-		osc_expr_arg_setOSCAddress(arg, osc_atom_u_getStringPtr($2));
+		osc_expr_arg_setOSCAddress(arg, address);
+		osc_atom_u_free($2);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "value", arg);
 	}
 // invalid constructs that result in errors
-- 
2.43.0


From 9173d45db41ce187c54645cbaeb343bd4c8cd0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:43 +0000
Subject: [PATCH 105/128] fix: expr: text that does not parse leaked what had
 been read of it

---
 osc_expr_parser.y | 132 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 91 insertions(+), 41 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 3920a94..e0b53ab 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -95,6 +95,13 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 int alloc_atom = 1;
 
 
+static void osc_expr_freeFunction(t_osc_expr_rec *r)
+{
+	t_osc_expr *e = NULL;
+	osc_expr_rec_free(r, (void **)&e);
+	osc_expr_free(e);
+}
+
 int osc_expr_parser_lex(YYSTYPE *yylval_param, YYLTYPE *llocp, yyscan_t yyscanner, int alloc_atom, long *buflen, char **buf, int startcond, int *started){
 	return osc_expr_scanner_lex(yylval_param, llocp, yyscanner, 1, buflen, buf, startcond, started);
 }
@@ -193,6 +200,10 @@ t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context)
 	t_osc_err ret = osc_expr_parser_parse(&exprstack, &tmp_exprstack, NULL, scanner, ptr, &buflen, &buf, startcond, &started, context);
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		// the text ended within a quoted string
+		osc_mem_free(buf);
+	}
 	if(tmp_exprstack){
 		if(exprstack){
 			osc_expr_appendExpr(exprstack, tmp_exprstack);
@@ -214,6 +225,7 @@ t_osc_expr *osc_expr_parser_parseExpr_r(char *ptr, void *context)
     t_osc_err e = osc_expr_parser_parseExpr(ptr, &f, context);
     if(e)
     {
+        osc_expr_free(f);
         return NULL;
     }
     return f;
@@ -233,12 +245,17 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 	char *buf = NULL;
 	int startcond = START_FUNCTION;
 	int started = 0;
+	*f = NULL;
 	t_osc_err ret = osc_expr_parser_parse(&exprstack, &tmp_exprstack, f, scanner, ptr, &buflen, &buf, startcond, &started, context);
 
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		osc_mem_free(buf);
+	}
 	if(ret){
-		// a function within the one that couldn't be read may have been found
+		// the function may have been complete before what couldn't be read
+		osc_expr_freeFunction(*f);
 		*f = NULL;
 	}
 	return ret;
@@ -669,12 +686,36 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 %left OSC_EXPR_INC OSC_EXPR_DEC OSC_EXPR_FUNC_CALL OSC_EXPR_QUOTED_EXPR OPEN_DBL_BRKTS CLOSE_DBL_BRKTS '.'
 
 %token START_EXPNS START_FUNCTION
+
+%destructor{
+	while($$){
+		t_osc_atom_u *next = $$->next;
+		osc_atom_u_free($$);
+		$$ = next;
+	}
+}<atom>
+%destructor{
+	osc_expr_arg_freeList($$);
+}<arg>
+%destructor{
+	osc_expr_free($$);
+}<expr>
+%destructor{
+	osc_expr_freeFunction($$);
+}<func>
+%destructor{
+	// no value
+}OSC_EXPR_LAMBDA
+
 %start start
 
 %%
 
 start: START_EXPNS expns
-       | START_FUNCTION function;
+       | START_FUNCTION function {
+		*rec = $2;
+	}
+;
 
 expns:  {
 		if(*tmp_exprstack){
@@ -704,7 +745,7 @@ expns:  {
  	}
 	| expns ',' {
         	osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma", NULL, NULL);
-        	return 1;
+        	YYABORT;
  	}
 	| OSC_EXPR_OSCADDRESS {
 		osc_expr_parser_reduce_Value(context, &yylloc, input_string, $1, tmp_exprstack, 1);
@@ -882,11 +923,6 @@ function:
 		osc_expr_rec_setExtra(func, exprlist);
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
 // go through and make sure the parameters are unique
 /*
 		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
@@ -1003,11 +1039,6 @@ function:
 		osc_expr_rec_setExtra(func, exprlist);
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
 // go through and make sure the parameters are unique
 /*
 		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
@@ -1103,11 +1134,6 @@ function:
 		osc_expr_rec_setExtra(func, exprlist);
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
 // go through and make sure the parameters are unique
 /*
 		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
@@ -1198,23 +1224,23 @@ expr:
 								     $3);
 		if(!e){
 			osc_atom_u_free($1);
-			return 1;
+			osc_expr_arg_freeList($3);
+			YYABORT;
 		}
 		$$ = e;
 		osc_atom_u_free($1);
   	}
     | OSC_EXPR_STRING '(' args ',' ')' %prec OSC_EXPR_FUNC_CALL {
-        char *ptr = NULL;
-        osc_atom_u_getString($1, 0, &ptr);
-        osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma", ptr, ptr);
+        osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma");
         osc_atom_u_free($1);
-        return 1;
+        osc_expr_arg_freeList($3);
+        YYABORT;
     }
 	| OSC_EXPR_STRING '(' ')' %prec OSC_EXPR_FUNC_CALL {
 		t_osc_expr *e = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, osc_atom_u_getStringPtr($1), NULL);
 		if(!e){
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		$$ = e;
 		osc_atom_u_free($1);
@@ -1368,7 +1394,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($2);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($2);
 		$$ = e;
@@ -1380,7 +1406,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($2);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($2);
 		$$ = e;
@@ -1393,7 +1419,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($1);
 		$$ = e;
@@ -1405,7 +1431,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($1);
 		$$ = e;
@@ -1423,8 +1449,10 @@ expr:
 		osc_atom_u_getString($1, 0, &ptr);
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
-            osc_atom_u_free($1);
-			return 1;
+			osc_mem_free(ptr);
+			osc_atom_u_free($1);
+			osc_expr_arg_freeList($3);
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 		osc_expr_arg_setOSCAddress(arg, ptr);
@@ -1436,8 +1464,11 @@ expr:
 		osc_atom_u_getString($1, 0, &ptr);
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
-            osc_atom_u_free($1);
-			return 1;
+			osc_mem_free(ptr);
+			osc_atom_u_free($1);
+			osc_expr_arg_freeList($3);
+			osc_expr_arg_freeList($6);
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 		t_osc_expr_arg *indexes = $3;
@@ -1475,8 +1506,12 @@ expr:
 		osc_atom_u_getString($1, 0, &ptr);
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
-            osc_atom_u_free($1);
-			return 1;
+			osc_mem_free(ptr);
+			osc_atom_u_free($1);
+			osc_expr_arg_freeList($3);
+			osc_expr_arg_freeList($5);
+			osc_expr_arg_freeList($8);
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 
@@ -1497,8 +1532,13 @@ expr:
 		osc_atom_u_getString($1, 0, &ptr);
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
-            osc_atom_u_free($1);
-			return 1;
+			osc_mem_free(ptr);
+			osc_atom_u_free($1);
+			osc_expr_arg_freeList($3);
+			osc_expr_arg_freeList($5);
+			osc_expr_arg_freeList($7);
+			osc_expr_arg_freeList($10);
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 
@@ -1575,7 +1615,9 @@ expr:
 		// /foo ?? 10 means /foo if /foo is in the bundle, otherwise 10
 		t_osc_expr *if_expr = osc_expr_parser_reduce_NullCoalescingOperator(context, &yylloc, input_string, $1, $3);
 		if(!if_expr){
-			return 1;
+			osc_atom_u_free($1);
+			osc_expr_arg_freeList($3);
+			YYABORT;
 		}
 		char *ptr = NULL;
 		osc_atom_u_getString($1, 0, &ptr);
@@ -1632,24 +1674,32 @@ expr:
 		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
 		sprintf(buf, "%s++", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($1);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_STRING OSC_EXPR_DEC '=' arg {
 		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
 		sprintf(buf, "%s--", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($1);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_INC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_INC {
 		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
 		sprintf(buf, "++%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($2);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_DEC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_DEC {
 		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
 		sprintf(buf, "--%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($2);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 ;
-- 
2.43.0


From 3ac9ec487dd2c3a6417df7c168e50e8dd787bf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:13 +0000
Subject: [PATCH 106/128] fix: expr: reading a member of a nested bundle leaked
 when it failed

---
 osc_expr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index edba1bd..83c9faa 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1802,6 +1802,7 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 			osc_bundle_s_free(b);
 			osc_message_array_s_free(msgar);
 		}else{
+			osc_atom_array_u_free(arg1);
 			return OSC_ERR_EXPR_ADDRESSUNBOUND;
 		}
 	}else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){
@@ -1837,8 +1838,6 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
 				osc_atom_array_u_free(a);
 				osc_expr_arg_free(arg);
-			}else{
-				return ret;
 			}
 		}else if(osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_STRING ||
 			 osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_ATOM){
@@ -1853,8 +1852,6 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
 				osc_atom_array_u_free(a);
 				osc_expr_arg_free(arg);
-			}else{
-				return ret;
 			}
 		}else{
 			ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, &bndl_len_s, &bndl_s, out, context);
@@ -1863,6 +1860,7 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 		osc_atom_array_u_free(arg1);
 				return ret;
 	}
+	osc_atom_array_u_free(arg1);
 	return 1;
 }
 
-- 
2.43.0


From 2c6c3eb312fb09107f2483e3fb7a7ea9017b8acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:13 +0000
Subject: [PATCH 107/128] fix: expr: assigning to a member of a bundle that was
 not there, or of no bundle, leaked

---
 osc_expr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 83c9faa..de9447c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1883,10 +1883,11 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 			t_osc_bundle_u * b = osc_bundle_u_alloc();
 			osc_message_u_appendBndl_u(m, b);
             
-			osc_bundle_s_appendMessage(len, oscbndl, osc_message_u_serialize(m) );
-            
+			t_osc_msg_s *ms = osc_message_u_serialize(m);
+			osc_bundle_s_appendMessage(len, oscbndl, ms);
+			osc_message_s_deepFree(ms);
 			arg1 = osc_message_u_getArgArrayCopy(m);
-            
+			osc_message_u_free(m);
 		}else{
 			return 1;
 		}
@@ -2030,6 +2031,7 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		return ret;
 	}
 
+	osc_atom_array_u_free(arg1);
 	return 1;
 }
 
-- 
2.43.0


From 972247855282d29fe7e96705dab5d0f03a7a36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:10 +0000
Subject: [PATCH 108/128] fix: expr: casting to a blob leaked

---
 osc_expr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index de9447c..2b68479 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6047,7 +6047,8 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 				if(!b){
 					return 1;
 				}
-				osc_atom_u_setBlob(osc_atom_array_u_get(*out, 0), b);
+				osc_atom_u_setBlobPtr(osc_atom_array_u_get(*out, 0), b);
+				osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
 			}else{
 				char *blob = osc_mem_alloc(n + 4);
 				for(int i = 0; i < n; i++){
@@ -6056,6 +6057,7 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 				*((int32_t *)blob) = hton32(n);
 				*out = osc_atom_array_u_alloc(1);
 				osc_atom_u_setBlobPtr(osc_atom_array_u_get(*out, 0), blob);
+				osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
 			}
 		}else{
 			int n = osc_atom_array_u_getLen(*argv);
@@ -6197,6 +6199,7 @@ int osc_expr_explicitCast_blob(t_osc_atom_u *dest, t_osc_atom_u *src)
 	char *blob = NULL;
 	osc_atom_u_getBlobCopy(src, &l, &blob);
 	osc_atom_u_setBlobPtr(dest, blob);
+	osc_atom_u_setShouldFreePtr(dest, 1);
 	return 0;
 }
 
-- 
2.43.0


From 020a692d0c53cdedbf4bed828ac092789a7a3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:10 +0000
Subject: [PATCH 109/128] fix: expr: split() and strfind() leaked when an
 argument was no string or empty

---
 osc_expr.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 2b68479..df51268 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5324,6 +5324,12 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
     osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &substr);
     if(!substr || !str){
+        if(substr){
+            osc_mem_free(substr);
+        }
+        if(str){
+            osc_mem_free(str);
+        }
         return 1;
     }
     // strfind( "/foo", "/foo/bar" )
@@ -5332,6 +5338,8 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long substrlen = strlen(substr);
     if(substrlen == 0)
     {
+        osc_mem_free(substr);
+        osc_mem_free(str);
         return 0;
     }
     
@@ -5369,6 +5377,12 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &sep);
 	if(!sep || !str){
+		if(sep){
+			osc_mem_free(sep);
+		}
+		if(str){
+			osc_mem_free(str);
+		}
 		return 1;
 	}
 	if(strlen(sep) == 0){
@@ -5378,6 +5392,8 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			t_osc_atom_u *a = osc_atom_array_u_get(*out, i);
 			osc_atom_u_setInt8(a, str[i]);
 		}
+		osc_mem_free(sep);
+		osc_mem_free(str);
 		return 0;
 	}
 	int n = 16;
-- 
2.43.0


From 4b7c9c839f062ed962d2e8d58e6d335057886a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:10 +0000
Subject: [PATCH 110/128] fix: expr: setting the time tag of a bundle leaked

---
 osc_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index df51268..d5ac39e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1764,9 +1764,11 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 			if(a){
 				t_osc_timetag t = osc_atom_u_getTimetag(a);
 				osc_bundle_s_setTimetag(*len, *oscbndl, t);
+				osc_atom_array_u_free(arg);
 				return 0;
 			}
 		}
+		osc_atom_array_u_free(arg);
 	}
 	return 1;
 }
-- 
2.43.0


From 89b25e977f197ab674cae0a903673f0df92ccbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:10 +0000
Subject: [PATCH 111/128] fix: expr: sortidx() leaked the strings it compared

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index d5ac39e..98e052f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4011,7 +4011,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     for( int i = 0; i < n; i++ )
     {
         osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), sort_ar[i].index);
-        osc_mem_free(sort_ar[i].a);
+        osc_atom_u_free(sort_ar[i].a);
     }
     
     return 0;
-- 
2.43.0


From 6c1a4e6884bc034edc6ec701068ec92e04e24cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:10 +0000
Subject: [PATCH 112/128] fix: expr: assigning to an invalid address leaked it

---
 osc_expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr.c b/osc_expr.c
index 98e052f..3755d32 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -819,6 +819,7 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
     t_osc_err err;
 	if((err = osc_error_validateAddress(address))){
 		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument of assign() must be an OSC address.");		
+		osc_mem_free(address);
 		return err;
 	}
 
-- 
2.43.0


From c8e3a12b52147a7ea248a4df92458622b178dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:42 +0000
Subject: [PATCH 113/128] fix: expr: && and || leaked an argument that failed

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3755d32..7c37f74 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3013,7 +3013,7 @@ static int osc_expr_specFunc_andalso(t_osc_expr *f,
 	t_osc_atom_ar_u *lhs = NULL, *rhs = NULL;
 	int ret = osc_expr_evalArgInLexEnv(f->argv, lexenv, len, oscbndl, &lhs, context);
 	if(!lhs || ret){
-		return ret;
+		goto out;
 	}
 	char lhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(lhs, 0));
 	if(lhstt == 'T' || lhstt == 'F'){
@@ -3071,7 +3071,7 @@ static int osc_expr_specFunc_orelse(t_osc_expr *f,
 	t_osc_atom_ar_u *lhs = NULL, *rhs = NULL;
 	int ret = osc_expr_evalArgInLexEnv(f->argv, lexenv, len, oscbndl, &lhs, context);
 	if(!lhs || ret){
-		return ret;
+		goto out;
 	}
 	char lhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(lhs, 0));
 	if(lhstt == 'T' || lhstt == 'F'){
-- 
2.43.0


From 6b468f015c03fba720a588013a49fd4034d27bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:39 +0000
Subject: [PATCH 114/128] fix: expr: delete() of a string leaked it

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 7c37f74..dc20d2b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1440,6 +1440,9 @@ static int osc_expr_specFunc_delete(t_osc_expr *f,
 				char *st = NULL;
 				osc_atom_u_getString(a, 0, &st);
 				osc_bundle_s_removeMessage(st, len, *oscbndl, 1);
+				if(st){
+					osc_mem_free(st);
+				}
 			}
 		}
 		f_argv = f_argv->next;
-- 
2.43.0


From 1ba0523a49123c2718bad1950872ce87da2b36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 115/128] fix: expr: an operator that failed left its result
 behind

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index dc20d2b..2701f14 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2338,6 +2338,8 @@ int osc_expr_2arg(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 			t_osc_atom_u *a = osc_atom_array_u_get(*out, i);
 			ret = func(osc_atom_array_u_get(argv[0], 0), osc_atom_array_u_get(argv[1], i), &a, context);
 			if(ret){
+				osc_atom_array_u_free(*out);
+				*out = NULL;
 				return ret;
 			}
 		}
@@ -2350,6 +2352,8 @@ int osc_expr_2arg(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 			t_osc_atom_u *a = osc_atom_array_u_get(*out, i);
 			ret = func(osc_atom_array_u_get(argv[0], i), osc_atom_array_u_get(argv[1], 0), &a, context);
 			if(ret){
+				osc_atom_array_u_free(*out);
+				*out = NULL;
 				return ret;
 			}
 		}
@@ -2362,6 +2366,8 @@ int osc_expr_2arg(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 			t_osc_atom_u *a = osc_atom_array_u_get(*out, i);
 			ret = func(osc_atom_array_u_get(argv[0], i), osc_atom_array_u_get(argv[1], i), &a, context);
 			if(ret){
+				osc_atom_array_u_free(*out);
+				*out = NULL;
 				return ret;
 			}
 		}
-- 
2.43.0


From 5d1976d3d8b13ef855283d37fc8b88ba410ce698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:11 +0000
Subject: [PATCH 116/128] fix: expr: sort() compared and freed atoms it had not
 initialised

---
 osc_expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr.c b/osc_expr.c
index 2701f14..eb7361d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3954,6 +3954,7 @@ int osc_expr_sort(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		n += osc_atom_array_u_getLen(argv[i]);
 	}
 	t_osc_atom_u *ar = (t_osc_atom_u *)osc_mem_alloc(n * osc_atom_u_getStructSize());
+	memset(ar, 0, n * osc_atom_u_getStructSize());
 	n = 0;
 	for(int i = 0; i < argc; i++){
 		for(int j = 0; j < osc_atom_array_u_getLen(argv[i]); j++){
-- 
2.43.0


From 20e5431b83e282149efbcc4e7c49cca52af43c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:11 +0000
Subject: [PATCH 117/128] fix: a hashtab asked for more slots than the largest
 known prime read past the table of primes

---
 osc_hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index 71f134e..99f4e8d 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -87,7 +87,7 @@ static uint32_t osc_hashtab_getPrime(uint32_t n){
 			return primes[i];
 		}
 	}
-	return primes[i];
+	return primes[i - 1];
 }
 
 static void osc_hashtab_rehash(t_osc_hashtab *ht)
-- 
2.43.0


From d374c43e7739f8959d6ba6abc08d84ac4ada8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:40 +0000
Subject: [PATCH 118/128] fix: the string of an atom that has no text form was
 not terminated

---
 osc_atom_s.c | 5 +++++
 osc_atom_u.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 5af144f..51f66b6 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -571,6 +571,11 @@ int osc_atom_s_getString(t_osc_atom_s *a, size_t n, char **out)
 	case 'b': // blob
 		stringlen = osc_strfmt_blob(*out, nn, a->data);
 		break;
+	default: // no text form
+		if(nn > 0){
+			**out = '\0';
+		}
+		break;
 	}
 	return stringlen;
 }
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 47955b7..0ba9b18 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -826,6 +826,11 @@ int osc_atom_u_getString(t_osc_atom_u *a, size_t n, char **out)
 	case 'b': // blob
 		stringlen = osc_strfmt_blob(*out, nn, a->w.b);
 		break;
+	default: // no text form
+		if(nn > 0){
+			**out = '\0';
+		}
+		break;
 	}
 	return stringlen;
 }
-- 
2.43.0


From 871061d9080cefeee9edcd850eea717805230d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:52 +0000
Subject: [PATCH 119/128] fix: expr: exists() and bound() of a call leaked its
 result

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index eb7361d..d8d291e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1302,12 +1302,12 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 						goto err;
 					}
 					osc_atom_u_getString(a, 0, &address);
+					osc_atom_array_u_free(ar);
 					if(!address){
-						osc_atom_array_u_free(ar);
 						goto err;
 					}
 					if(address[0] != '/'){
-						osc_atom_array_u_free(ar);
+						osc_mem_free(address);
 						goto err;
 					}
 				}
-- 
2.43.0


From 16c7f07f03d4f5a64881f13cd5326005f31abb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:43 +0000
Subject: [PATCH 120/128] fix: expr: tokenize() gave == as =

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index d8d291e..8b09170 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2114,7 +2114,7 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			st = "!=";
 			break;
 		case OSC_EXPR_EQ:
-			st = "=";
+			st = "==";
 			break;
 		case OSC_EXPR_GTE:
 			st = ">=";
-- 
2.43.0


From 9ddef3a456fa2d12799a9bef6a4df6c6b0b94f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:43 +0000
Subject: [PATCH 121/128] fix: expr: tokenize() leaked, lost strings with
 escapes, and failed on more than 64 tokens

---
 osc_expr.c         | 27 ++++++++++++++++-----------
 osc_expr_scanner.l |  5 ++++-
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8b09170..90eb92d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1670,12 +1670,17 @@ int osc_expr_specFunc_tokenize(t_osc_expr *f,
 			long buflen = 0;
 			osc_atom_array_u_getStringArray(arg, &buflen, &expr, " ");
 		}
+		t_osc_err e = OSC_ERR_NONE;
 		if(expr){
-			t_osc_err e = osc_expr_lex(expr, out);
-			if(e){
-				return e;
+			e = osc_expr_lex(expr, out);
+			if(expr != osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0))){
+				osc_mem_free(expr);
 			}
 		}
+		osc_atom_array_u_free(arg);
+		if(e){
+			return e;
+		}
 	}
 	return 0;
 }
@@ -2064,10 +2069,6 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 	int startcond = START_EXPNS, started = 0;
 	int ret = osc_expr_scanner_lex(&yylval_param, &llocp, scanner, 0, &buflen, &buf, startcond, &started);
 	while(ret){
-		if(i == n){
-			n += 64;
-			osc_array_resize(*ar, n);
-		}
 		char *st = NULL;
 		switch(ret){
 		case START_EXPNS:
@@ -2147,11 +2148,12 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			//osc_atom_u_setString((t_osc_atom_u *)(((long)out) + (i * atomsize)), st);
 			osc_atom_u_setString(osc_atom_array_u_get(*ar, i), st);
 		}
-		long len = osc_atom_u_nformat(NULL, 0, osc_atom_array_u_get(*ar, i), 0);
-		char *fmt = osc_mem_alloc(len + 1);
-		osc_atom_u_nformat(fmt, len + 1, osc_atom_array_u_get(*ar, i), 0);
-		//osc_atom_u_format(osc_atom_array_u_get(*ar, i), &len, &fmt);
 		i++;
+		if(i == n){
+			osc_array_resize(*ar, n + 64);
+			memset(osc_atom_array_u_get(*ar, n), '\0', 64 * osc_atom_u_getStructSize());
+			n += 64;
+		}
 		//yylval_param.atom = (t_osc_atom_u *)(((long)out) + (i * atomsize));
 	cont:
 		yylval_param.atom = osc_atom_array_u_get(*ar, i);
@@ -2160,6 +2162,9 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 	//*ar = osc_atom_array_u_alloc(0);
 	//osc_atom_array_u_set(*ar, out, i);
 	osc_array_resize(*ar, i);
+	if(buf){
+		osc_mem_free(buf);
+	}
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
 	return 0;
diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index e7071ea..fc5d708 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -200,7 +200,10 @@ quote[[:space:]]*\( {
 <quote>\" {
 	BEGIN(0);
 	if(*buf){
-		yylval->atom = osc_atom_u_allocWithString(*buf);
+		if(alloc_atom){
+			yylval->atom = osc_atom_u_alloc();
+		}
+		osc_atom_u_setString(yylval->atom, *buf);
 		osc_mem_free(*buf);
 		*buf = NULL;
 		*buflen = 0;
-- 
2.43.0


From 9bfe3bcbff5bbbea9a8b89ed9d973504b7f3dbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:59 +0000
Subject: [PATCH 122/128] fix: expr: tokenize() hid the failure of its argument

---
 osc_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 90eb92d..999a31f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1661,6 +1661,8 @@ int osc_expr_specFunc_tokenize(t_osc_expr *f,
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
 	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
 		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "tokenize");
+	}
+	if(err){
 		return err;
 	}
 	if(arg){
-- 
2.43.0


From 6a4f07ded9e09fcefe430d5905c5c069dac326cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:40 +0000
Subject: [PATCH 123/128] fix: expr: the report of an unbound address read an
 expression as its address

---
 osc_expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 999a31f..d4c9442 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6995,7 +6995,7 @@ inline t_osc_expr *osc_expr_arg_getExpr(t_osc_expr_arg *a)
 
 inline char *osc_expr_arg_getOSCAddress(t_osc_expr_arg *a)
 {
-	if(a){
+	if(a && a->type == OSC_EXPR_ARG_TYPE_OSCADDRESS){
 		return a->arg.osc_address;
 	}
 	return NULL;
@@ -7444,6 +7444,10 @@ static void osc_expr_err_badInfixArg(void *context, char *func, char typetag, in
 
 static void osc_expr_err_unbound(void *context, char *address, char *func)
 {
+	if(!address){
+		// the address is inside an expression, and has been reported from there
+		return;
+	}
 	osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s: address %s is unbound", func, address);
 }
 
-- 
2.43.0


From efd8284aae6b7b5056e2bb9c0d3c825993dee371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:01 +0000
Subject: [PATCH 124/128] fix: expr: bundle() of a blob or of bytes read them
 without looking whether they are a bundle, and a blob from the wrong place

---
 osc_expr.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d4c9442..2bfab76 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6609,10 +6609,13 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		if(n == 1){
 			t_osc_atom_u *a = osc_atom_array_u_get(*argv, 0);
 			if(osc_atom_u_getTypetag(a) == 'b'){
-				int32_t len = 0;
-				char *ptr = NULL;
-				osc_atom_u_getBlobCopy(a, &len, &ptr);
-				len -= 4;
+				int32_t len = osc_atom_u_getBlobLen(a);
+				char *ptr = osc_atom_u_getBlob(a) + 4;
+				if(osc_error_bundleSanityCheck(len, ptr)){
+					osc_atom_array_u_free(*out);
+					*out = NULL;
+					return 1;
+				}
 				osc_atom_u_setBndl(aout, len, ptr);
 				return 0;
 			}else if(osc_atom_u_getTypetag(a) == 's'){
@@ -6632,6 +6635,11 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			for(int i = 0; i < n; i++){
 				buf[i] = osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i));
 			}
+			if(osc_error_bundleSanityCheck(np, buf)){
+				osc_atom_array_u_free(*out);
+				*out = NULL;
+				return 1;
+			}
 			osc_atom_u_setBndl(aout, np, buf);
 			return 0;
 		}
-- 
2.43.0


From b041b2315bad6eb3e412e22a81d149a87875b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:38 +0000
Subject: [PATCH 125/128] fix: expr: eval() hid the failure of its argument

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 2bfab76..3bffd7f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1569,6 +1569,12 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "eval");
 		return err;
 	}
+	if(err){
+		if(arg){
+			osc_atom_array_u_free(arg);
+		}
+		return err;
+	}
 	if(arg){
 		if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg, 0)) == 's' && osc_atom_array_u_getLen(arg) == 1){
 			char *expr = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0));
-- 
2.43.0


From 6a22120ddb2e47ecf3750674736cc0dc9664495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:41 +0000
Subject: [PATCH 126/128] fix: expr: tokenize() gave ??= as #: with -std=c99 it
 was a trigraph

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3bffd7f..112af4e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2108,7 +2108,7 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			st = "+=";
 			break;
 		case OSC_EXPR_DBLQMARKEQ:
-			st = "??=";
+			st = "?\?="; // not written plainly: with -std=c99 that is a trigraph
 			break;
 		case OSC_EXPR_DBLQMARK:
 			st = "??";
-- 
2.43.0


From e8dab240a4a9304069a304c723f23120f3b643c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:00 +0000
Subject: [PATCH 127/128] fix: expr: value() hid the failure of its argument

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 112af4e..0f6f634 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1489,6 +1489,12 @@ static int osc_expr_specFunc_value(t_osc_expr *f,
 		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "value");
 		return err;
 	}
+	if(err){
+		if(arg){
+			osc_atom_array_u_free(arg);
+		}
+		return err;
+	}
 	if(arg){
 		char *address = NULL;
 		if(f_argv->type == OSC_EXPR_ARG_TYPE_OSCADDRESS){
-- 
2.43.0


From d90a411e52b7e240dfc189b9b397112eb2b1c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:44 +0000
Subject: [PATCH 128/128] fix: dispatch, query: what is left of a partial match
 was used uninitialised when it is no address

---
 osc_dispatch.c | 5 ++++-
 osc_query.c    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index db683f9..f93ef01 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -112,7 +112,10 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 		if(strip_matched_portion_of_address){
 			char buf[osc_message_s_getSize(msg) + 4];
 			char *address = osc_message_s_getAddress(msg);
-			osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
+			if(!osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
+				// what is left over is not an address
+				return 0;
+			}
 			char msg_s[osc_message_s_getStructSize()];
 			osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 			osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
diff --git a/osc_query.c b/osc_query.c
index c149d31..34d13f7 100644
--- a/osc_query.c
+++ b/osc_query.c
@@ -117,7 +117,10 @@ int osc_query_select_impl(int nselectors,
 				if(strip_matched_portion_of_address){
 					char buf[osc_message_s_getSize(msg) + 4];
 					char *address = osc_message_s_getAddress(msg);
-					osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
+					if(!osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
+						// what is left over is not an address
+						continue;
+					}
 					char msg_s[osc_message_s_getStructSize()];
 					osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 					//osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
-- 
2.43.0

