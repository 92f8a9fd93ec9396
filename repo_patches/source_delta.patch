From 5d72cb754e7586f4e1486b66767c4c9452dd6bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:02 +0000
Subject: [PATCH 01/26] fix: getword() wrote one byte past its word buffer for
 words of 64 or more characters

---
 server/strutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/strutil.c b/server/strutil.c
index a0083fd..d6c7700 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -224,7 +224,7 @@ char *getword(char *s)
 {
     static char word[64];
     char *w = word;
-    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < 64))
+    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < (int)sizeof(word) - 1))
         *w++ = *s++;
     *w = '\0';
     return(word);
-- 
2.43.0


From 05b89e06710080057d5933f01f5f2fca8b3facba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:02 +0000
Subject: [PATCH 02/26] fix: split() wrote fields[MAX_FIELDS] and left stale
 pointers for missing fields

---
 server/strutil.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server/strutil.c b/server/strutil.c
index d6c7700..2805877 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -253,6 +253,7 @@ int split(char *s)
 {
     char *p = s;
     int i = 0;
+    int j;
 
     fields[i] = s;
     for(;;) {
@@ -268,7 +269,7 @@ int split(char *s)
          * is all cleaned up, we just stop at the MAX_FIELDS
          * which is only slightly better.
          */
-        if ( i > MAX_FIELDS )
+        if ( i >= MAX_FIELDS )
             return (MAX_FIELDS);
 
         /* find delim or EOS */
@@ -278,7 +279,13 @@ int split(char *s)
             /* got delim */
             *p = '\0';
             fields[i] = ++p;
-        } else
+        } else {
+            /* fields the packet doesn't have read as empty strings,
+             * rather than as whatever an earlier packet left behind.
+             */
+            for (j = i; j < MAX_FIELDS; j++)
+                fields[j] = p;
             return(i);
+        }
     }
 }
-- 
2.43.0


From 42815d85531b73a5bc00ef68ee2ce22a9bec213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:21 +0000
Subject: [PATCH 03/26] fix: wildmat() ran past the end of a pattern with an
 unterminated character class

---
 server/wildmat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/wildmat.c b/server/wildmat.c
index 99367b0..5ef31e4 100644
--- a/server/wildmat.c
+++ b/server/wildmat.c
@@ -98,9 +98,12 @@ DoMatch(char *text, char *p)
                         matched = TRUE;
                 for (last = *p; *++p && *p != ']'; last = *p)
                     /* This next line requires a good C compiler. */
-                    if (*p == '-' && p[1] != ']'
+                    if (*p == '-' && p[1] != ']' && p[1] != '\0'
                         ? *text <= *++p && *text >= last : *text == *p)
                         matched = TRUE;
+                if (*p == '\0')
+                    /* Unterminated class: the pattern is malformed. */
+                    return FALSE;
                 if (matched == reverse)
                     return FALSE;
                 continue;
-- 
2.43.0


From f05dce17dbdceb69215b43856c915304b2a93eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:37 +0000
Subject: [PATCH 04/26] fix: sending to a client that was in the middle of a
 packet lost the inbound framing

---
 pktserv/pktsocket.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 53be7a1..18f17b0 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -263,6 +263,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
     if ((remain - result) == 0) {
         cbuf->state = COMPLETE_PACKET;
+        cbuf->newmsg = 1;
 
         /* nail down the end of the read string */
         *(cbuf->rbuf->pos) = '\0';
@@ -370,6 +371,7 @@ int pktsocket_write(cbuf_t* cbuf)
              cbuf->fd, cbuf->wlist_size);
     }
 
-    cbuf->state = WANT_HEADER;
+    /* everything's sent. go back to reading, from where we left off */
+    cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
     return 0;
 }
-- 
2.43.0


From 46a6f37cac118e326fa3271be9e39aa25a0ac4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:05 +0000
Subject: [PATCH 05/26] fix: event loop spun forever on a client with blocked
 output

---
 pktserv/pktserv.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index f4c657d..fa14a53 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -312,12 +312,16 @@ pollfd_state_machine(struct pollfd* pollfd)
                 return;
 
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
-                if (writeable) {
-                    pktsocket_write(cbuf);
+                if (writeable && pktsocket_write(cbuf) < 0) {
+                    cbuf->state = WANT_DISCONNECT;
+                    break;
+                }
+                if (!readable) {
+                    return;
                 }
-                if (readable && (cbuf->state == WANT_READ || cbuf->state == WANT_HEADER)) {
-                    /* pktsocket_write() may have set this to BLOCKED */
-                    cbuf->disp = OK;
+                if (cbuf->state == WANT_WRITE) {
+                    /* still can't send; keep reading from where we left off */
+                    cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
                 }
                 break;
 
-- 
2.43.0


From 97f6e5e47b9c4dd9708374d3ed2ac4cb86be5991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:05 +0000
Subject: [PATCH 06/26] fix: a connection that hung up was never closed and was
 reported lost on every poll

---
 pktserv/pktserv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index fa14a53..a410471 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -269,6 +269,8 @@ pollfd_state_machine(struct pollfd* pollfd)
             g_pktserv_cb.lost_client(cbuf->fd);
         }
         handle_disconnect(cbuf);
+        /* the exception doesn't go away until the fd is closed */
+        handle_raw_disconnect(cbuf);
         return;
     }
 
-- 
2.43.0


From 12a032cbd1b500f65138ace4ad339b65c0910860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:05 +0000
Subject: [PATCH 07/26] fix: closing a connection made others be skipped or
 handled with another's events

---
 pktserv/pktserv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index a410471..303d0aa 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -397,7 +397,9 @@ handle_pollfds(void)
             g_pollset[i].fd, g_pollset[i].events, g_pollset[i].revents);
     }
 #endif
-    for (i = 0; i < pollsetsize; i++)
+    /* last to first: closing a connection moves down only those already handled,
+     * and a connection that is accepted meanwhile is appended */
+    for (i = pollsetsize - 1; i >= 0; i--)
         pollfd_state_machine(&g_pollset[i]);
 }
 
-- 
2.43.0


From f4414a5bc937ae338e81268103e4dd5dff0921f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:05 +0000
Subject: [PATCH 08/26] fix: a disconnect requested while handling a packet was
 forgotten

---
 pktserv/pktserv.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 303d0aa..beee12e 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -346,12 +346,13 @@ pollfd_state_machine(struct pollfd* pollfd)
                             g_pktserv_cb.dispatch(cbuf->fd, cbuf->rbuf->data);
                             _msgbuf_free(cbuf->rbuf);
                             cbuf->rbuf = NULL;
-                            /* ready for the next packet */
-                            cbuf->state = WANT_HEADER;
+                            /* ready for the next packet, unless we've been told to hang up */
+                            if (cbuf->state != WANT_DISCONNECT)
+                                cbuf->state = WANT_HEADER;
                         }
                     }
                 }
-                if (!TAILQ_EMPTY(&(cbuf->wlist))) {
+                if (cbuf->state != WANT_DISCONNECT && !TAILQ_EMPTY(&(cbuf->wlist))) {
                     /* cycle back to want write if there's stuff left */
                     cbuf->state = WANT_WRITE;
                 }
-- 
2.43.0


From 52a1d65d6b8ad85d471e432f0c6baafec614c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 09/26] fix: connections are again handled in poll order, each
 exactly once per round

The previous repair of the skipped connections went through them last to
first, which let later arrivals overtake earlier ones.
---
 pktserv/pktserv.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index beee12e..2e5d7b4 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -398,10 +398,14 @@ handle_pollfds(void)
             g_pollset[i].fd, g_pollset[i].events, g_pollset[i].revents);
     }
 #endif
-    /* last to first: closing a connection moves down only those already handled,
-     * and a connection that is accepted meanwhile is appended */
-    for (i = pollsetsize - 1; i >= 0; i--)
+    for (i = 0; pollsetsize > 0; pollsetsize--) {
+        int fd = g_pollset[i].fd;
+
         pollfd_state_machine(&g_pollset[i]);
+        /* if it was closed, the next one has moved down into its place */
+        if (i < g_pollsetsize && g_pollset[i].fd == fd)
+            i++;
+    }
 }
 
 
-- 
2.43.0


From e13a858b07d56b5104ee1cc7f68128116d42cd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:28 +0000
Subject: [PATCH 10/26] fix: packets were built from unterminated text when it
 filled its buffer

---
 server/send.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/server/send.c b/server/send.c
index ab12279..20de0fa 100644
--- a/server/send.c
+++ b/server/send.c
@@ -28,12 +28,19 @@ extern char * getremotename(int socketfd);
 
 char packetbuffer[MAX_PKT_LEN]; /* packet buffer */
 
+/* filtertext() doesn't terminate a text that fills its limit */
+static void filterbuf(const char *src, char *buf, size_t size)
+{
+    filtertext(src, buf, size - 1);
+    buf[size - 1] = '\0';
+}
+
 
 /* send an error message to the client */
 void senderror(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA];
-    filtertext(message, msgbuf, MAX_PKT_DATA);
+    filterbuf(message, msgbuf, sizeof(msgbuf));
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s",
             ICB_M_ERROR, msgbuf);
     doSend(-1, to);
@@ -46,8 +53,8 @@ void sendperson(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterbuf(u_tab[from].nickname, nickbuf, sizeof(nickbuf));
+    filterbuf(message, msgbuf, sizeof(msgbuf));
 
     char one[255], two[MAX_NICKLEN+1];
     snprintf(one, 255, "%s@%s", u_tab[from].loginid, u_tab[from].nodeid);
@@ -74,8 +81,8 @@ void sendopen(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterbuf(u_tab[from].nickname, nickbuf, sizeof(nickbuf));
+    filterbuf(message, msgbuf, sizeof(msgbuf));
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_OPEN, nickbuf, msgbuf);
@@ -107,8 +114,8 @@ void sendstatus(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filterbuf(status, statusbuf, sizeof(statusbuf));
+    filterbuf(message, msgbuf, sizeof(msgbuf));
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_STATUS, statusbuf, msgbuf);
@@ -120,7 +127,7 @@ void send_cmdend(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-4];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-4);
+    filterbuf(message, msgbuf, sizeof(msgbuf));
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001\001%s", 
              ICB_M_CMDOUT, "ec", msgbuf);
     doSend(-1, to);
@@ -131,7 +138,7 @@ void sends_cmdout(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-3];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-3);
+    filterbuf(message, msgbuf, sizeof(msgbuf));
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_CMDOUT, "co", msgbuf);
     doSend(-1, to);
@@ -146,8 +153,8 @@ void send_person_stored(int to, const char* fromNick, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(fromNick, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterbuf(fromNick, nickbuf, sizeof(nickbuf));
+    filterbuf(message, msgbuf, sizeof(msgbuf));
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_PERSONAL, nickbuf, msgbuf);
@@ -241,8 +248,8 @@ void sendimport(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filterbuf(status, statusbuf, sizeof(statusbuf));
+    filterbuf(message, msgbuf, sizeof(msgbuf));
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_IMPORTANT, statusbuf, msgbuf);
-- 
2.43.0


From 1607e856017d8010324989c3e0e9fa5f38f86d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:17 +0000
Subject: [PATCH 11/26] fix: the user database was never written to disk

Changes stayed in the in-memory table of icb_dbm.c, which is only flushed by
dbm_close(); icbdb.c keeps the database open for the life of the server.
---
 server/dbm.h     |  3 ++-
 server/icb_dbm.c |  6 ++++++
 server/icbdb.c   | 12 ++++++++++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/server/dbm.h b/server/dbm.h
index aaf90c5..a7fc52d 100644
--- a/server/dbm.h
+++ b/server/dbm.h
@@ -17,7 +17,7 @@
  *     key[klen]  = key bytes
  *     val[vlen]  = value bytes
  *
- * Mutations are buffered in memory and flushed atomically on dbm_close()
+ * Mutations are buffered in memory and flushed atomically on dbm_sync() and dbm_close()
  * (write-to-tmp + rename) so a crash never corrupts the file.
  */
 
@@ -39,6 +39,7 @@ typedef struct icb_dbm DBM;
 /* ---- public API ---- */
 DBM  *dbm_open(const char *file, int flags, int mode);
 void  dbm_close(DBM *db);
+int   dbm_sync(DBM *db);
 datum dbm_fetch(DBM *db, datum key);
 int   dbm_store(DBM *db, datum key, datum content, int flags);
 int   dbm_delete(DBM *db, datum key);
diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 0bedf2b..a401d30 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -329,6 +329,12 @@ DBM *dbm_open(const char *file, int flags, int mode)
     return db;
 }
 
+/* write out pending changes without closing. returns 0 on success. */
+int dbm_sync(DBM *db)
+{
+    return db ? flush_file(db) : -1;
+}
+
 void dbm_close(DBM *db)
 {
     if (!db) return;
diff --git a/server/icbdb.c b/server/icbdb.c
index 0009b60..3389b6a 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -62,11 +62,19 @@ icbdb_open (void)
 void
 icbdb_close (void)
 {
-    if (--open_count > 0 || !icbdb_multiuser)
+    if (--open_count > 0)
     {
         return;
     }
 
+    if (!icbdb_multiuser)
+    {
+        /* keep it open, but don't leave the changes in memory only */
+        if (db != NULL && dbm_sync (db) < 0)
+            vmdb (MSG_ERR, "User Database Write: %s", strerror(errno));
+        return;
+    }
+
     if (db != NULL)
     {
         dbm_close (db);
@@ -75,7 +83,7 @@ icbdb_close (void)
     db = NULL;
 }
 
-#define ICBDB_OPEN()    if (icbdb_open() == 0) return (0)
+#define ICBDB_OPEN()    if (icbdb_open() == 0) { icbdb_close (); return (0); }
 
 #define ICBDB_DONE(r)    icbdb_close (); return (r)
 
-- 
2.43.0


From 16128d7287aea59e01576b299f49c1ccce17a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:17 +0000
Subject: [PATCH 12/26] fix: adding to a stored list overwrote its first entry
 when a later one was free

---
 server/icbdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/icbdb.c b/server/icbdb.c
index 3389b6a..fcf82cd 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -331,7 +331,7 @@ icbdb_list_find (const char *category, const char *attribute, icbdb_type type, v
             {
                 if (*first_empty == -1)
                 {
-                    *first_empty = 0;
+                    *first_empty = *index;
                 }
             }
 
-- 
2.43.0


From dc7fa82b0c9d0dcea35e0a21d4f556b6ad3e91e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:17 +0000
Subject: [PATCH 13/26] fix: icbdb_get() overran its buffer for a stored value
 of 4096 bytes or more

---
 server/icbdb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/icbdb.c b/server/icbdb.c
index fcf82cd..cb77a3a 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -135,6 +135,8 @@ icbdb_get (const char *category, const char *attribute, icbdb_type type,
               data.dsize, data.dptr);
 
         if (value != NULL) {
+            if (data.dsize >= (int)sizeof (databuf))
+                data.dsize = sizeof (databuf) - 1;
             bcopy (data.dptr, databuf, data.dsize);
             databuf[data.dsize] = '\0';
 
-- 
2.43.0


From 216f21812ef8508324f79635e7340ea8f950f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 14/26] fix: dbm_open() leaked the entries read before a
 damaged record

---
 server/icb_dbm.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index a401d30..2ca2886 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -318,10 +318,9 @@ DBM *dbm_open(const char *file, int flags, int mode)
 
     if (load_file(db) < 0) {
         int save_errno = errno;
-        /* Free everything we allocated */
-        free(db->buckets);
-        free(db->path);
-        free(db);
+        /* Free everything we allocated, including the entries already read
+         * (nothing is dirty, so this does not write) */
+        dbm_close(db);
         errno = save_errno;
         return NULL;
     }
-- 
2.43.0


From 92dd72e13617fad366f7c463aef1961994a4c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 15/26] fix: looking up a nickname of 12 characters read past
 its buffer

---
 server/access.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index db81a41..fc3abe0 100644
--- a/server/access.c
+++ b/server/access.c
@@ -546,7 +546,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
 {
     char           line[255];
     char           temp[255];
-    char           nickstr[MAX_NICKLEN+1];
+    char           nickstr[MAX_NICKLEN+1] = "";
     char           *value;
     int            retval;
     int            count = 0;
-- 
2.43.0


From 5e8e2dc44df2a6be1ae8c5bc965afe1d79eff434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:22 +0000
Subject: [PATCH 16/26] fix: s_restart() read an argument slot that was never
 set

---
 server/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/main.c b/server/main.c
index f6ac6c6..e00de98 100644
--- a/server/main.c
+++ b/server/main.c
@@ -78,11 +78,11 @@ int main(int argc, char* argv[])
 
     /* save off args that we need in /restart */
     restart_argc = argc+2;    /* room for the -R and NULL args */
-    restart_argv = (char **) malloc (restart_argc * sizeof (char *));
+    restart_argv = (char **) calloc (restart_argc, sizeof (char *));
 
     if ( restart_argv == (char **)NULL )
     {
-        perror ("malloc(restart_args)");
+        perror ("calloc(restart_args)");
         exit (1);
     }
 
-- 
2.43.0


From 5189f8f7b5b7e7e753f55cb6fedad2785d3da92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:21 +0000
Subject: [PATCH 17/26] fix: an open message to a controlled group without
 moderator read outside the user table

---
 server/msgs.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 01838e4..9a6b072 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -258,10 +258,12 @@ void openmsg(int n, char *pkt)
             {
                 senderror (n,
                            "You do not have permission to send open messages in this group.");
-                sprintf (mbuf,
-                         "Use \"/m %s may i talk?\" to request permission.",
-                         u_tab[g_tab[gi].mod].nickname);
-                sendstatus (n, "INFO", mbuf);
+                if (g_tab[gi].mod >= 0) {
+                    sprintf (mbuf,
+                             "Use \"/m %s may i talk?\" to request permission.",
+                             u_tab[g_tab[gi].mod].nickname);
+                    sendstatus (n, "INFO", mbuf);
+                }
             }
             else if (count_users_in_group(g_tab[gi].name) < 2)
                 senderror(n,
-- 
2.43.0


From 3d3eec25f14d2fba69fede52f2f233422ba97ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:21 +0000
Subject: [PATCH 18/26] fix: automatic boots wrote into the buffer of an
 earlier packet, which may be full or gone

---
 server/ipcf.c | 3 ++-
 server/msgs.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 5c475c6..d151103 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -46,6 +46,7 @@ void s_didpoll(int n)
     int i, j, newmod;
     long TheTime;
     extern int is_booting;
+    static char idle_group[MAX_GROUPLEN+1];
 
     if (n == 1) {
         /* do nothing on the frequent polls */
@@ -300,7 +301,7 @@ void s_didpoll(int n)
                     }
 
                     /* fake an s_change to group IDLE_GROUP */
-                    strcpy (fields[1], IDLE_GROUP);
+                    fields[1] = strcpy (idle_group, IDLE_GROUP);
                     is_booting = 1;
                     s_change(i, 2);
                     is_booting = 0;
diff --git a/server/msgs.c b/server/msgs.c
index 9a6b072..ee9d771 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -212,6 +212,7 @@ void openmsg(int n, char *pkt)
                 if ( u_recv_count[n] > 2 )
                 {
                     extern int is_booting;
+                    static char boot_group[MAX_GROUPLEN+1];
 
                     /* tell 'em it happened. */
                     sendstatus(n, "Boot", "No spamming in group 1.");
@@ -219,7 +220,7 @@ void openmsg(int n, char *pkt)
                             u_tab[n].nickname);
                     s_status_group(1,1,n, "Boot", mbuf);
                     /* fake an s_change to group ICB */
-                    strcpy (fields[1], "ICB");
+                    fields[1] = strcpy (boot_group, "ICB");
                     is_booting = 1;
                     s_change(n, 2);
                     is_booting = 0;
-- 
2.43.0


From 73ad78e0a3550a51c03854a45f408a1580e951d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:21 +0000
Subject: [PATCH 19/26] fix: /exclude let users without permission talk in a
 controlled group

---
 server/s_group.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/server/s_group.c b/server/s_group.c
index 7879d54..ec2ab91 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1849,6 +1849,19 @@ int s_send_group(int n)
     return 0;
 }
 
+/* may user n talk in group gi? in a controlled group only the moderator and
+ * those on the talk lists may
+ */
+static int can_talk(int n, int gi)
+{
+    if (g_tab[gi].control != CONTROLLED || g_tab[gi].mod == n)
+        return 1;
+    if (nlpresent(u_tab[n].nickname, *g_tab[gi].n_talk))
+        return 1;
+    return (strlen(u_tab[n].realname) > 0
+            && nlpresent(u_tab[n].nickname, *g_tab[gi].nr_talk));
+}
+
 int s_exclude(int n, int argc)
 {
     int i, j;
@@ -1864,6 +1877,11 @@ int s_exclude(int n, int argc)
                 senderror (n, "Open messages not permitted in quiet groups.");
                 return 0;
             }
+            if (gi != -1 && !can_talk(n, gi)) {
+                senderror (n,
+                           "You do not have permission to send open messages in this group.");
+                return 0;
+            }
 
             strcpy(my_group, u_tab[n].group);
             sprintf(one, "%s@%s", u_tab[n].loginid, u_tab[n].nodeid);
-- 
2.43.0


From 42dbcd415d2a821ab91ca7fefff48227c90d13be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:33 +0000
Subject: [PATCH 20/26] fix: a connection whose login failed was never dropped
 and kept its nickname

---
 server/ipcf.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index d151103..7ea4788 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -76,13 +76,11 @@ void s_didpoll(int n)
         }
 
         for(i=0;i<MAX_REAL_USERS;i++) {
-            if ( u_tab[i].login > LOGIN_FALSE ) {
-                if (S_kill[i] > 0) {
-                    sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
-                    mdb(MSG_INFO, mbuf);
-                    server_stats.drops++;
-                    pktserv_disconnect(i);
-                }
+            if (S_kill[i] > 0) {
+                sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
+                mdb(MSG_INFO, mbuf);
+                server_stats.drops++;
+                pktserv_disconnect(i);
             }
         }
 
-- 
2.43.0


From ba3f01cefad5e9c5908bc6adbbaaa3a48a396c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:33 +0000
Subject: [PATCH 21/26] fix: a user lost before entering a group could stay
 moderator, so that the next one on that connection was

---
 server/ipcf.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 7ea4788..4c344f4 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -407,12 +407,15 @@ int s_lost_user(int n)         /* n = fd of that user */
     /* note: they may be moderator of a group they are NOT in */
 
     ogi = find_group(t_grp);
-    if (ogi < 0) return -1;
 
     /* check if there are any users left in present group */
     num_left = count_users_in_group(t_grp);
 
-    if ( num_left > 0) {
+    if (ogi < 0) {
+        /* they never got into a group, but they may have regained the
+         * moderation of one while logging in
+         */
+    } else if ( num_left > 0) {
         /* tell remaining group members user left */
         TheTime = time(NULL);
         if (is_killed > 0)
-- 
2.43.0


From cd7c4aa7e46811cc1ed83e0f454cbf67e24fe74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:33 +0000
Subject: [PATCH 22/26] fix: losing a user without a group read outside the
 group table

---
 server/ipcf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 4c344f4..b922435 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -383,8 +383,8 @@ int s_lost_user(int n)         /* n = fd of that user */
         if ((n != j) && (u_tab[j].login > LOGIN_FALSE)) {
             if ((nlmatch(three, *u_tab[j].n_notifies) ||
                  nlmatch(one, *u_tab[j].s_notifies)) &&
-                (g_tab[find_group(u_tab[n].group)].visibility != 
-                 SUPERSECRET)) {
+                ((ogi = find_group(u_tab[n].group)) < 0 ||
+                 g_tab[ogi].visibility != SUPERSECRET)) {
                 /* ignore warning about 'one' being possibly truncated
                  * when copying into 'two'.
                  */
-- 
2.43.0


From d6c053e88e3567878ec767335e115b3d698c6c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:59 +0000
Subject: [PATCH 23/26] fix: /g @user read outside the group table if that user
 was in no group yet

---
 server/s_group.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/s_group.c b/server/s_group.c
index ec2ab91..3d847b6 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -220,7 +220,8 @@ if failure, message given and return is -1
                 senderror(n, "User not found.");
                 return(-1);
             }
-            else if (g_tab[find_group(u_tab[target_user].group)].visibility != VISIBLE)
+            else if ((ngi = find_group(u_tab[target_user].group)) < 0 ||
+                     g_tab[ngi].visibility != VISIBLE)
             {
                 senderror(n, "User not found.");
                 return(-1);
-- 
2.43.0


From 5d12e70e79ca78a2a08269f28546ddbfe9fcc7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:59 +0000
Subject: [PATCH 24/26] fix: an idle-boot message of the maximum length was
 written past its array

---
 server/s_group.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 3d847b6..38106f9 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1553,11 +1553,11 @@ visible.
                             p1 = get_tail(p1);
 
                             if ( p1 == (char *) NULL || *p1 == '\0'
-                                 || strlen (p1) > IDLEBOOT_MSG_LEN )
+                                 || strlen (p1) >= IDLEBOOT_MSG_LEN )
                             {
                                 sprintf(mbuf,
                                         "Idle-Boot message length must be between 1 and %d (yours was %zu).",
-                                        IDLEBOOT_MSG_LEN, p1?strlen(p1):0);
+                                        IDLEBOOT_MSG_LEN - 1, p1?strlen(p1):0);
                                 senderror (n, mbuf);
                                 cp = NULL;
                             }
-- 
2.43.0


From ac0ffdfd8d3c3361302aa6295b2bfd6678bfa944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:22 +0000
Subject: [PATCH 25/26] fix: a huge idle limit overflowed and was taken for a
 small one

---
 server/s_group.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 38106f9..dc0d255 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -9,6 +9,7 @@
 #include <time.h>
 #endif
 #include <stdlib.h>
+#include <limits.h>
 #include <assert.h>
 #include <string.h>
 
@@ -1489,7 +1490,7 @@ visible.
                                 }
                                 else
                                 {
-                                    int new_ib = atoi (p2) * 60;
+                                    long new_ib = atoi (p2) * 60L;
 
 #ifdef MAX_IDLE
                                     if ( new_ib < 0 || new_ib > MAX_IDLE )
@@ -1500,7 +1501,7 @@ visible.
                                         cp = NULL;
                                     }
 #else
-                                    if ( new_ib < 0 )
+                                    if ( new_ib < 0 || new_ib > INT_MAX )
                                     {
                                         strcpy (mbuf, "Idle-Boot must be > 0 (or 0 to disable).");
                                         senderror(n, mbuf);
@@ -1603,7 +1604,7 @@ visible.
                                 }
                                 else
                                 {
-                                    int new_im = atoi (p2) * 60;
+                                    long new_im = atoi (p2) * 60L;
 
                                     if ( new_im == 0 )
                                     {
-- 
2.43.0


From 4b4068a0d5647c6104391da675e7385c83dea333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:22 +0000
Subject: [PATCH 26/26] fix: replacing the talk list used names that were freed
 already

---
 server/s_group.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index dc0d255..7dd1ea8 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -2150,6 +2150,7 @@ fields[1] is nickname of person to invite
                     int        count,
                             i;
                     char    *cp;
+                    char    name[MAX_PKT_LEN];
 
                     nl = g_tab[gi].n_talk;
                     count = nlcount(*nl);
@@ -2157,10 +2158,12 @@ fields[1] is nickname of person to invite
                     {
                         cp = nlget (nl);
                         if (cp && *cp) {
-                            if ( talk_delete (cp, gi) > 0
+                            /* cp goes with its entry */
+                            snprintf (name, sizeof (name), "%s", cp);
+                            if ( talk_delete (name, gi) > 0
                                  && quiet == 0 )
                             {
-                                sprintf (mbuf, "%s removed from talk list", cp);
+                                sprintf (mbuf, "%s removed from talk list", name);
                                 sendstatus (n, "FYI", mbuf);
                             }
                         }
@@ -2172,11 +2175,13 @@ fields[1] is nickname of person to invite
                     {
                         cp = nlget (nl);
                         if (cp && *cp) {
-                            if ( talk_delete (cp, gi) > 0
+                            /* cp goes with its entry */
+                            snprintf (name, sizeof (name), "%s", cp);
+                            if ( talk_delete (name, gi) > 0
                                  && quiet == 0 )
                             {
                                 sprintf (mbuf,
-                                         "%s removed from registered talk list", cp);
+                                         "%s removed from registered talk list", name);
                                 sendstatus (n, "FYI", mbuf);
                             }
                         }
-- 
2.43.0

