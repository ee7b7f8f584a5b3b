From 76ab3853610c40bfc539c37e05dc49c2f1aa2de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 01/40] fix: 0 and 1 are not prime

prm_is_prime(1) returned 1, so prm_next_prime(0) and prm_next_prime(1)
returned 1, and every hash table and set started with size 1.
---
 maa/prime.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maa/prime.c b/maa/prime.c
index abe82fa..af282a5 100644
--- a/maa/prime.c
+++ b/maa/prime.c
@@ -45,6 +45,7 @@ int prm_is_prime(unsigned int value)
 	unsigned int divisor = 3;
 	unsigned int square  = divisor * divisor;
 
+	if (value < 2)    return 0;
 	if (value == 2)   return 1;
 	if (value == 3)   return 1;
 	if (!(value & 1)) return 0;	/* even */
-- 
2.43.0


From a5ff04c31f9c1f61bb7b40aceb1655b4dd179d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 02/40] fix: primality of values above 65535*65535

The running square of the divisor wrapped around at 32 bits, so the loop
ran on to the value itself and reported large primes as composite.
---
 maa/prime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/prime.c b/maa/prime.c
index af282a5..6a8667d 100644
--- a/maa/prime.c
+++ b/maa/prime.c
@@ -43,7 +43,7 @@
 int prm_is_prime(unsigned int value)
 {
 	unsigned int divisor = 3;
-	unsigned int square  = divisor * divisor;
+	uint64_t     square  = divisor * divisor; /* may exceed 32 bits */
 
 	if (value < 2)    return 0;
 	if (value == 2)   return 1;
-- 
2.43.0


From f3e5838fd3c0d38b7faafe892595d90cc88b2546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 03/40] fix: lst_truncate to two or more elements

The loop looking for the new end never advanced its counter, ran off the
list and dereferenced a null pointer.
---
 maa/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/list.c b/maa/list.c
index e9d7c14..48cd7c6 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -290,7 +290,7 @@ void lst_truncate(lst_List list, unsigned int length)
 		l->head = l->tail = NULL;
 	} else {
 		/* Find new end of list */
-		for (i = 1, d = l->head; i < length && d; d = d->next);
+		for (i = 1, d = l->head; i < length && d; i++, d = d->next);
    
 		/* Remember start of remainder of list */   
 		next = d->next;		
-- 
2.43.0


From b25427f6b3178f243e301b83d8db9e00ebfb968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 04/40] fix: mem_strncpy reads only len bytes and terminates
 the copy

It copied len + 1 bytes: one byte too many was read from the caller and
the copy was not terminated when the source was longer than len.
---
 maa/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/memory.c b/maa/memory.c
index de2e2da..b9289bc 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -151,7 +151,8 @@ const char *mem_strncpy(mem_String info,
 	i->growing_size = 0;
 
 	str = xmalloc(len + 1);
-	memcpy(str, string, len + 1);
+	memcpy(str, string, len);
+	str[len] = '\0';
 	stk_push(i->allocated, str);
 
 	return str;
-- 
2.43.0


From ee211ad4ff9d18c23401757ea68e8b1711ec98c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 05/40] fix: str_pool_finish returns the interned string

Growing and finishing a string that was already in the pool returned a
second pointer for the same contents.  The terminator was also stored
twice.
---
 maa/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maa/string.c b/maa/string.c
index 97cfe97..4463fa7 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -221,9 +221,10 @@ const char *str_pool_finish( str_Pool pool )
 {
 	poolInfo   p      = (poolInfo)pool;
 	const char *datum;
+	const char *found;
 
-	mem_grow( p->string, "\0", 1 ); /* guarantee null termination */
-	datum = mem_finish( p->string );
+	datum = mem_finish( p->string ); /* guarantees null termination */
+	if ((found = hsh_retrieve( p->hash, datum ))) return found;
 	hsh_insert( p->hash, datum, datum );
 
 	return datum;
-- 
2.43.0


From 4b7e08f43aa17c154517ebab6b945cdc6561fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 06/40] fix: str_pool_iterate stopped early leaves the pool
 usable

The pool stayed read-only, so the next str_pool_find aborted.
---
 maa/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/string.c b/maa/string.c
index 4463fa7..d2fe409 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -120,8 +120,10 @@ int str_pool_iterate(
 	/*   printf ("inside str_pool_iterate\n"); */
 
 	HSH_ITERATE_KEYS (hash, hash_pos, key){
-		if ((*iterator) ((const char *) key))
+		if ((*iterator) ((const char *) key)){
+			HSH_ITERATE_END (hash);
 			return 1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From b13254fa51a1b31516a3cd60ef763fa402ab7bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 07/40] fix: str_pool_readonly and STR_ITERATE_END

STR_ITERATE_END expanded to a function that does not exist, and
str_pool_readonly passed the pool where a hash table is expected, which
aborted on the magic number.
---
 maa/export.sym |  1 +
 maa/maa.h      |  4 ++--
 maa/string.c   | 11 +++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/maa/export.sym b/maa/export.sym
index 0bfbb45..4110580 100644
--- a/maa/export.sym
+++ b/maa/export.sym
@@ -118,6 +118,7 @@ str_pool_print_stats
 str_pool_init_position
 str_pool_next_position
 str_pool_get_position
+str_pool_readonly
 str_pool_iterate
 str_pool_iterate_arg
 str_exists
diff --git a/maa/maa.h b/maa/maa.h
index c4c4154..07c845f 100644
--- a/maa/maa.h
+++ b/maa/maa.h
@@ -389,7 +389,7 @@ extern str_Position  str_pool_next_position(
 extern void str_pool_get_position(
 	str_Position position,
 	char const *const *key);
-#define str_pool_readonly(pool, flag) hsh_readonly ((pool), (flag))
+extern int  str_pool_readonly(str_Pool pool, int flag);
 
 extern int        str_pool_iterate(
 	str_Pool pool,
@@ -413,7 +413,7 @@ extern int        str_pool_iterate_arg(
 /* If the STR_ITERATE loop is exited before all elements in the table are
    seen, then STR_ITERATE_END should be called.  Calling this function
    after complete loops does no harm. */
-#define STR_ITERATE_END(T) str_readonly(T,0)
+#define STR_ITERATE_END(T) str_pool_readonly(T,0)
 
 extern int        str_exists(const char *s);
 extern const char *str_find(const char *s);
diff --git a/maa/string.c b/maa/string.c
index d2fe409..ff11984 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -176,6 +176,17 @@ void str_pool_get_position (str_Position position, char const * const*key)
 	hsh_get_position (position, (void **) __UNCONST(key));
 }
 
+/* \doc |str_pool_readonly| sets the |readonly| flag of the string pool,
+   |pool|, to |flag|, as |hsh_readonly| does for hash tables.  The value of
+   the previous flag is returned. */
+
+int str_pool_readonly( str_Pool pool, int flag )
+{
+	poolInfo p = (poolInfo) pool;
+
+	return hsh_readonly( p->hash, flag );
+}
+
 /* \doc |str_pool_copy| returns a copy of the string, |s|, using memory
    from the string pool object, |pool|.  This can be used for data that is
    known to be unique.  No checks are made for uniqueness, however; and a
-- 
2.43.0


From 96a5fb4f2671a9f9c2c3e51bc0a76ebaafb02a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 08/40] fix: str_exists, str_copyn and str_unique initialise
 the global pool

They dereferenced a null pool when called before str_find or after
str_destroy.
---
 maa/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index ff11984..f90d913 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -301,6 +301,7 @@ static void _str_check_global( void )
 
 int str_exists( const char *s )
 {
+	_str_check_global();
 	return str_pool_exists( global, s );
 }
 
@@ -349,6 +350,7 @@ const char *str_copy( const char *s )
 
 const char *str_copyn( const char *s, int length )
 {
+	_str_check_global();
 	return str_pool_copyn( global, s, length );
 }
 
-- 
2.43.0


From 35ae9c2a6eba9c1ff0ae28553f2d47efc3b6e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 09/40] fix: bit_tst for bits above 31

The masked unsigned long was truncated to int, so these bits always
tested clear.
---
 maa/bit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/bit.c b/maa/bit.c
index 20dc204..d1b7299 100644
--- a/maa/bit.c
+++ b/maa/bit.c
@@ -50,7 +50,7 @@ void bit_clr(unsigned long *flags, int bit)
 
 int bit_tst(unsigned long *flags, int bit)
 {
-	return (*flags & (1UL << bit));
+	return (*flags & (1UL << bit)) != 0;
 }
 
 /* \doc Return a count of the number of bits set in |flags|. */
-- 
2.43.0


From 8873b8cffead57d5b885661a72b93e466b6c7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 10/40] fix: integer overflow in b26_decode

The place value was an int: numerals of seven digits beginning with g or
above decoded to wrong values.
---
 maa/base26.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/base26.c b/maa/base26.c
index 9e94027..4eb03b4 100644
--- a/maa/base26.c
+++ b/maa/base26.c
@@ -82,7 +82,7 @@ unsigned long b26_decode(const char *val)
 {
 	unsigned long v = 0;
 	int           i;
-	int           offset = 1;
+	unsigned long offset = 1;
 	int           len = strlen(val);
 
 	for (i = len - 1; i >= 0; i--) {
-- 
2.43.0


From ba1774b245c4404a57ba22098442b0a83e7d2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 11/40] fix: integer overflow in b64_decode_buf

The digit was shifted as an int: values above 2^31 decoded with the high
32 bits set.
---
 maa/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/base64.c b/maa/base64.c
index b864949..2ab9007 100644
--- a/maa/base64.c
+++ b/maa/base64.c
@@ -109,7 +109,7 @@ unsigned long b64_decode_buf(const char *val, size_t len)
 			err_internal(__func__,
 						 "Illegal character in base64 value: `%c'", val[i]);
 
-		v |= tmp << offset;
+		v |= (unsigned long)tmp << offset;
 		offset += 6;
 	}
 
-- 
2.43.0


From 3425c76dfdf78962ffc506f5585171bde84e3a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 12/40] fix: flags in the third set (top two bits 10) can be
 tested

The test looked at the fourth set instead, so a flag such as 1U<<31|1 was
never seen as set after it had been set.
---
 maa/debug.c | 4 ++--
 maa/flags.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index bff990b..6d9d098 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -38,10 +38,10 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                         \
-			 ? (((flags)>>30)                                  \
+			 ? (((flags)>>30 & 1)                                  \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
-			 : (((flags)>>30)                                  \
+			 : (((flags)>>30 & 1)                                  \
 			    ? ((var[1] & (flags)) << 2)                    \
 			    : ((var[0] & (flags)) << 2)))
 
diff --git a/maa/flags.c b/maa/flags.c
index 3a4ab84..4593b20 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -37,10 +37,10 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                                     \
-			 ? (((flags)>>30)                                  \
+			 ? (((flags)>>30 & 1)                                  \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
-			 : (((flags)>>30)                                  \
+			 : (((flags)>>30 & 1)                                  \
 			    ? ((var[1] & (flags)) << 2)                    \
 			    : ((var[0] & (flags)) << 2)))
 
-- 
2.43.0


From d2cf600a789331af3f2025ed195224057e03bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 13/40] fix: refuse to register a flag under a second name

The table of flags in use was checked but never filled in.  Registering
the same flag under the same name again is still accepted.
---
 maa/debug.c | 5 +++--
 maa/flags.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index 6d9d098..5c53ea1 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -92,7 +92,7 @@ void _dbg_register(dbg_Type flag, const char *name)
    
 	if (!hash) hash = hsh_create(NULL, NULL);
    
-	if (_dbg_exists(flag))
+	if (_dbg_exists(flag) && strcmp(_dbg_name(flag), name))
 		err_fatal(__func__,
 				  "The debug flag %lx has been used for \"%s\""
 				  " and cannot be reused for \"%s\"",
@@ -100,7 +100,8 @@ void _dbg_register(dbg_Type flag, const char *name)
 				  _dbg_name(flag),
 				  name);
 
-	hsh_insert(hash, name, (void *)flag);
+	if (!hsh_insert(hash, name, (void *)flag))
+		usedFlags[ flag >> 30 ] |= flag;
 }
 
 /* \doc |dbg_register| is used to set up an asociated between a |flag| and
diff --git a/maa/flags.c b/maa/flags.c
index 4593b20..ce0abbf 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -92,7 +92,7 @@ void flg_register(flg_Type flag, const char *name)
    
 	if (!hash) hash = hsh_create(NULL, NULL);
    
-	if (_flg_exists(flag))
+	if (_flg_exists(flag) && strcmp(flg_name(flag), name))
 		err_fatal(__func__,
 				  "The flag %lx has been used for \"%s\""
 				  " and cannot be reused for \"%s\"",
@@ -100,7 +100,8 @@ void flg_register(flg_Type flag, const char *name)
 				  flg_name(flag),
 				  name);
 
-	hsh_insert(hash, name, (void *)flag);
+	if (!hsh_insert(hash, name, (void *)flag))
+		usedFlags[ flag >> 30 ] |= flag;
 }
 
 /* \doc |flg_set| sets the |name| flag.  If |name| is ``none,'' then all
-- 
2.43.0


From 704f7fcc5ebebd1c4032be3b5a91a26b78d286a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 14/40] fix: dbg_set refuses names that were never registered

Any first character was accepted before a registered name, an unknown
name after + or - was ignored, and an empty name was read past its end.
---
 maa/debug.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index 5c53ea1..dcaf135 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -142,9 +142,8 @@ void dbg_set(const char *name)
 	}
    
 	if (!(flag = (dbg_Type)hsh_retrieve(hash, name))) {
-		if (!(flag = (dbg_Type)hsh_retrieve(hash, name+1))
-			&& *name != '-'
-			&& *name != '+') {
+		if ((*name != '-' && *name != '+')
+			|| !(flag = (dbg_Type)hsh_retrieve(hash, name+1))) {
 	 
 			fprintf(stderr, "Valid debugging flags are:\n");
 			dbg_list(stderr);
-- 
2.43.0


From 3aac204448de58af4ce1da04e03664e51b6e73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 15/40] fix: make the kern log facility available

LOG_KERN is zero, so testing its value instead of its existence left it
out of the table.
---
 maa/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/log.c b/maa/log.c
index 563d987..695cb16 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -73,7 +73,7 @@ CODE facilitynames[] = {
 #if LOG_FTP
     { "ftp",      LOG_FTP },
 #endif
-#if LOG_KERN
+#ifdef LOG_KERN
     { "kern",     LOG_KERN },
 #endif
 #if LOG_LPR
-- 
2.43.0


From f230eedda50b71ad6a1cee44ab8d3ce54224eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 16/40] fix: an open log survives maa_shutdown

The ident and the file name pattern were kept in the global string pool,
so logging after maa_shutdown or str_destroy used released memory.
---
 maa/log.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index 695cb16..6a14251 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -45,8 +45,8 @@ static int        inhibitFull = 0;
 static int        logOpen;
 static int        logFacility = LOG_USER;
 
-static const char *logIdent;
-static const char *logFilenameOrig;
+static char       *logIdent;
+static char       *logFilenameOrig;
 static char       *logFilename;
 static char       *logFilenameTmp;
 static int        logFilenameLen;
@@ -182,6 +182,14 @@ void log_syslog(const char *ident)
 	}
 }
 
+static void _log_set_string(char **place, const char *string)
+{
+	char *copy = string ? xstrdup(string) : NULL;
+
+	if (*place) xfree(*place);
+	*place = copy;
+}
+
 static void log_mkpath(const char *filename)
 {
 	char *tmp = xstrdup(filename);
@@ -227,8 +235,8 @@ void log_file(const char *ident, const char *filename)
 						  "Log file \"%s\" open when trying to open \"%s\"",
 						  logFilename, filename);
 
-		logIdent        = str_find(ident);
-		logFilenameOrig = str_find(filename);
+		_log_set_string(&logIdent, ident);
+		_log_set_string(&logFilenameOrig, filename);
 		logFilenameLen  = strlen(filename)*3+1024;
 		logFilename     = xmalloc(logFilenameLen + 1);
 		logFilenameTmp  = xmalloc(logFilenameLen + 1);
@@ -253,6 +261,9 @@ void log_file(const char *ident, const char *filename)
 
 		logFilenameLen = 0;
 
+		_log_set_string(&logFilenameOrig, NULL);
+		if (!logUserStream) _log_set_string(&logIdent, NULL);
+
 		--logOpen;
 	}
 }
@@ -264,7 +275,7 @@ void log_stream(const char *ident, FILE *stream)
 			err_internal(__func__, "User stream already open");
 
 		logUserStream = stream;
-		logIdent      = str_find(ident);
+		_log_set_string(&logIdent, ident);
 
 		_log_set_hostname();
 		++logOpen;
@@ -279,6 +290,7 @@ void log_stream(const char *ident, FILE *stream)
 		}
 
 		logUserStream = NULL;
+		if (logFd < 0) _log_set_string(&logIdent, NULL);
 
 		--logOpen;
 	}
-- 
2.43.0


From ad02ce6644f02131f3fffe09281725834cbf728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 17/40] fix: pr_readwrite and pr_filter with empty input

The filter's input was only closed after writing the last byte, so with
nothing to write the filter never saw end-of-file and both hung.
---
 maa/pr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maa/pr.c b/maa/pr.c
index e56e061..8c23c81 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -315,6 +315,7 @@ int pr_readwrite(int in, int out,
 	fcntl(out, F_SETFL, flags);
 
 	n = max(in, out) + 1;
+	if (!inLen) pr_close_nowait(in); /* the filter has to see the end */
 
 	for (;;) {
 		tv.tv_sec  = 5;
-- 
2.43.0


From 21c95720d983cb258b3c88bb4816e53c0002ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 18/40] fix: interrupted system calls in pr_readwrite

A signal arriving during select(2) ended the program with a fatal error.
---
 maa/pr.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 8c23c81..42d9a7d 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -332,7 +332,10 @@ int pr_readwrite(int in, int out,
    
 		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
 		{
-			case -1: err_fatal_errno(__func__, "Filter failed"); break;
+			case -1:
+				if (errno == EINTR) break;
+				err_fatal_errno(__func__, "Filter failed");
+				break;
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
@@ -348,7 +351,7 @@ int pr_readwrite(int in, int out,
 				}
 				if (inLen) {
 					if ((count = write(in, inPt, inLen)) <= 0) {
-						if (errno != EAGAIN)
+						if (errno != EAGAIN && errno != EINTR)
 							err_fatal_errno(__func__, "Error writing to filter");
 					} else {
 						PRINTF(MAA_PR,("  wrote %d\n",count));
@@ -370,7 +373,7 @@ int pr_readwrite(int in, int out,
 										"Filter had non-zero exit status: 0x%x",
 										status);
 						return outLen;
-					} else if (errno != EAGAIN)
+					} else if (errno != EAGAIN && errno != EINTR)
 						err_fatal_errno(__func__, "Error reading from filter");
 				} else {
 					PRINTF(MAA_PR,("  read %d\n",count));
-- 
2.43.0


From 6f7f33c4606e06ea729905399b69a11b7bac9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 19/40] fix: _pr_shutdown kills only its own running children

A process already collected with pr_wait, or whose other descriptor came
first, was sent SIGKILL by its old process id.
---
 maa/pr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 42d9a7d..e0d6ce5 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -93,13 +93,18 @@ static void _pr_init(void)
 void _pr_shutdown(void)
 {
 	int i;
+	int status;
 
 	if (_pr_objects) {
 		for (i = 0; i < max_fd(); i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
-				kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
-				pr_wait(_pr_objects[i].pid);
+				/* Never signal a process that was already waited for: its
+				   id may belong to somebody else by now. */
+				if (waitpid(_pr_objects[i].pid, &status, WNOHANG) == 0) {
+					kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
+					pr_wait(_pr_objects[i].pid);
+				}
 				_pr_objects[i].pid = 0;
 			}
 		}
-- 
2.43.0


From c5d4b58d4a15a1365fc712468184e2248a214185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 20/40] fix: look-ups during hsh_iterate do not disturb the
 walk

A look-up by the callback moved the found entry to the front of its
chain, so the walk skipped entries or presented them twice.
tim_print_timers, whose callback looks timers up, was affected.
---
 maa/hash.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index 72ff75f..02adc24 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -55,6 +55,7 @@ typedef struct table {
 	unsigned long (*hash)(const void *);
 	int           (*compare)(const void *, const void *);
 	int           readonly;
+	int           iterating;	/* callback iterations in progress */
 } *tableType;
 
 static void _hsh_check(tableType t, const char *function)
@@ -95,6 +96,7 @@ static hsh_HashTable _hsh_create(
 	t->hash       = hash ? hash : hsh_string_hash;
 	t->compare    = compare ? compare : hsh_string_compare;
 	t->readonly   = 0;
+	t->iterating  = 0;
 
 	for (i = 0; i < prime; i++) t->buckets[i] = NULL;
 
@@ -314,7 +316,7 @@ const void *hsh_retrieve(hsh_HashTable table,
 			if (!t->compare(pt->key, key)) {
 				if (!prev) {
 					++t->hits;
-				} else if (!t->readonly) {
+				} else if (!t->readonly && !t->iterating) {
 					/* Self organize */
 					prev->next    = pt->next;
 					pt->next      = t->buckets[h];
@@ -345,16 +347,20 @@ int hsh_iterate(hsh_HashTable table,
 	bucketType    next;		/* Save, because pt might vanish. */
 
 	_hsh_check(t, __func__);
-   
+
+	++t->iterating;
 	for (i = 0; i < t->prime; i++) {
 		if (t->buckets[i]) {
 			for (pt = t->buckets[i]; pt; pt = next) {
 				next = pt->next;
-				if (iterator(pt->key, pt->datum))
+				if (iterator(pt->key, pt->datum)) {
+					--t->iterating;
 					return 1;
+				}
 			}
 		}
 	}
+	--t->iterating;
 	return 0;
 }
 
@@ -378,15 +384,19 @@ int hsh_iterate_arg(hsh_HashTable table,
 
 	_hsh_check(t, __func__);
 
+	++t->iterating;
 	for (i = 0; i < t->prime; i++) {
 		if (t->buckets[i]) {
 			for (pt = t->buckets[i]; pt; pt = next) {
 				next = pt->next;
-				if (iterator(pt->key, pt->datum, arg))
+				if (iterator(pt->key, pt->datum, arg)) {
+					--t->iterating;
 					return 1;
+				}
 			}
 		}
 	}
+	--t->iterating;
 	return 0;
 }
 
-- 
2.43.0


From 344986ba87e2f56fd20f32d2db356671a3973553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 21/40] fix: set_add and set_del of a set with itself

The table was walked while it was being resized or its cells released.
---
 maa/set.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maa/set.c b/maa/set.c
index c338d15..331e7f4 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -499,6 +499,8 @@ set_Set set_add(set_Set set1, set_Set set2)
 		err_fatal(__func__,
 				  "Sets do not have identical comparison functions");
 
+	if (t1 == t2) return set1;	/* nothing to add */
+
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
@@ -537,9 +539,12 @@ set_Set set_del(set_Set set1, set_Set set2)
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
+			bucketType next;	/* Save, because the sets may be the same. */
 	 
-			for (pt = t2->buckets[i]; pt; pt = pt->next)
+			for (pt = t2->buckets[i]; pt; pt = next) {
+				next = pt->next;
 				set_delete(set1, pt->elem);
+			}
 		}
 	}
 
-- 
2.43.0


From 4b8dd0b50e385e383a7bc594ecaf197aa85d0405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 22/40] fix: check handles before using them

hsh_insert, hsh_delete, hsh_retrieve, set_insert, set_delete, set_member
and mem_get_object used the handle before checking it, so a null or
foreign handle crashed instead of being diagnosed.
---
 maa/hash.c   | 11 ++++++++---
 maa/memory.c |  3 ++-
 maa/set.c    | 11 ++++++++---
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index 02adc24..7ae65ea 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -221,12 +221,14 @@ int hsh_insert(
 	const void *datum)
 {
 	tableType     t         = (tableType)table;
-	unsigned long hashValue = t->hash(key);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_hsh_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly table");
+
+	hashValue = t->hash(key);
    
 	/* Keep table less than half full */
 	if (t->entries * 2 > t->prime) {
@@ -270,12 +272,14 @@ int hsh_insert(
 int hsh_delete(hsh_HashTable table, const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly table");
 
+	h = t->hash(key) % t->prime;
+
 	if (t->buckets[h]) {
 		bucketType pt;
 		bucketType prev;
@@ -303,10 +307,11 @@ const void *hsh_retrieve(hsh_HashTable table,
 						 const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
    
+	h = t->hash(key) % t->prime;
 	++t->retrievals;
 	if (t->buckets[h]) {
 		bucketType pt;
diff --git a/maa/memory.c b/maa/memory.c
index b9289bc..79ac7bf 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -304,10 +304,11 @@ void mem_destroy_objects(mem_Object info)
 void *mem_get_object(mem_Object info)
 {
 	objectInfo  i   = (objectInfo)info;
-	void       *obj = stk_pop(i->stack);
+	void       *obj;
 
 	_mem_magic_objects(i, __func__);
 
+	obj = stk_pop(i->stack);
 	if (!obj) {
 		obj = xmalloc(i->size);
 		stk_push(i->allocated, obj);
diff --git a/maa/set.c b/maa/set.c
index 331e7f4..ed234e8 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -226,12 +226,14 @@ static void _set_insert(set_Set set, unsigned long hash, const void *elem)
 int set_insert(set_Set set, const void *elem)
 {
 	setType       t         = (setType)set;
-	unsigned long hashValue = t->hash(elem);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_set_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly set");
+
+	hashValue = t->hash(elem);
    
 	/* Keep table less than half full */
 	if (t->entries * 2 > t->prime) {
@@ -274,11 +276,13 @@ int set_insert(set_Set set, const void *elem)
 int set_delete(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly set");
+
+	h = t->hash(elem) % t->prime;
    
 	if (t->buckets[h]) {
 		bucketType pt;
@@ -305,10 +309,11 @@ int set_delete(set_Set set, const void *elem)
 int set_member(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
    
+	h = t->hash(elem) % t->prime;
 	++t->retrievals;
 	if (t->buckets[h]) {
 		bucketType pt;
-- 
2.43.0


From 60e3756e8104c533c0381a1b34c48861883fd8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 23/40] fix: stk_push diagnoses memory exhaustion

An unchecked malloc made it, and the memory managers built on it,
dereference a null pointer.
---
 maa/stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/stack.c b/maa/stack.c
index 14c03a3..1f34c98 100644
--- a/maa/stack.c
+++ b/maa/stack.c
@@ -71,7 +71,7 @@ void stk_destroy(stk_Stack stack)
 void stk_push(stk_Stack stack, void *datum)
 {
 	stackType s = (stackType)stack;
-	dataType  d = (dataType)malloc(sizeof(struct data));
+	dataType  d = (dataType)xmalloc(sizeof(struct data));
 
 	d->datum = datum;
 	d->prev  = s->data;
-- 
2.43.0


From 77d248aea7501442c3152aabe7b3707fa7f7811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 24/40] fix: sl_create without a key function

As documented, the datum itself is used as the key then.
---
 maa/sl.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/maa/sl.c b/maa/sl.c
index fddfb56..eae0e5f 100644
--- a/maa/sl.c
+++ b/maa/sl.c
@@ -158,6 +158,13 @@ static _sl_Entry _sl_create_entry(int maxLevel, const void *datum)
 	return e;
 }
 
+/* The key function used if none is provided. */
+
+static const void *_sl_datum_key(const void *datum)
+{
+	return datum;
+}
+
 /* \doc |sl_create| initializes a skip list.  The |compare| function
    returns -1, 0, or 1 depending on the ordering of |key1| and |key2|.  The
    |key| function converts a |datum| into a |key|.  The |print| function
@@ -182,8 +189,6 @@ sl_List sl_create(int (*compare)(const void *key1, const void *key2),
 
 	if (!compare)
 		err_internal(__func__, "compare function is NULL");
-	if (!key)
-		err_internal(__func__, "key function is NULL");
 
 	l          = mem_get_object(_sl_Memory);
 #if MAA_MAGIC
@@ -192,7 +197,7 @@ sl_List sl_create(int (*compare)(const void *key1, const void *key2),
 	l->level   = 0;
 	l->head    = _sl_create_entry(_sl_MaxLevel, NULL);
 	l->compare = compare;
-	l->key     = key;
+	l->key     = key ? key : _sl_datum_key;
 	l->print   = print;
 	l->count   = 0;
 
-- 
2.43.0


From 3495ab8663f2a78ff49388d70cd58c4935be0fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 25/40] fix: iterating a large skip list overflowed the stack

The snapshot of the list is taken from the heap instead of alloca.
---
 maa/sl.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/maa/sl.c b/maa/sl.c
index eae0e5f..d440303 100644
--- a/maa/sl.c
+++ b/maa/sl.c
@@ -389,7 +389,7 @@ int sl_iterate(sl_List list, sl_Iterator f)
 {
 	_sl_List   l = (_sl_List)list;
 	_sl_Entry  pt;
-	int        retcode;
+	int        retcode = 0;
 	int        count;
 	int        i;
 	const void **copy;
@@ -404,17 +404,19 @@ int sl_iterate(sl_List list, sl_Iterator f)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	if (!count) return 0;
+	copy = xmalloc(count * sizeof(void *));
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i]))) return retcode;
+		if ((retcode = f(copy[i]))) break;
 	}
+	xfree(copy);
 
 	_sl_check(list);
    
-	return 0;
+	return retcode;
 }
 
 /* \doc Iterate |f| over every datum in |list|.  If |f| returns non-zero,
@@ -426,7 +428,7 @@ int sl_iterate_arg(sl_List list, sl_IteratorArg f, void *arg)
 {
 	_sl_List   l = (_sl_List)list;
 	_sl_Entry  pt;
-	int        retcode;
+	int        retcode = 0;
 	int        count;
 	int        i;
 	const void **copy;
@@ -441,18 +443,20 @@ int sl_iterate_arg(sl_List list, sl_IteratorArg f, void *arg)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	if (!count) return 0;
+	copy = xmalloc(count * sizeof(void *));
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		_sl_check_entry(pt, __func__);
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i], arg))) return retcode;
+		if ((retcode = f(copy[i], arg))) break;
 	}
+	xfree(copy);
 
 	_sl_check(list);
    
-	return 0;
+	return retcode;
 }
 
 /* \doc Dump the internal data structures associated with |list|.  This is
-- 
2.43.0


From 6b4cb4f17323fcf729c6d5f2f16d82e5ff707629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 26/40] fix: long strings overflowed the stack

str_findn, str_unique and src_cpp_line copy the string to the heap
instead of using alloca.
---
 maa/source.c |  3 ++-
 maa/string.c | 14 ++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index 8bf4015..dff2fb3 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -131,13 +131,14 @@ void src_advance(int length)
 void src_cpp_line(const char *line, int length)
 {
 	arg_List args;
-	char     *tmp = alloca(length + 1);
+	char     *tmp = xmalloc(length + 1);
 	int      lineno;
 
 	strncpy(tmp, line, length);
 	tmp [ length ] = '\0';
 
 	args = arg_argify(tmp, 0);
+	xfree(tmp);
 
 	if ((lineno = atoi(arg_get(args, 1))) > 0) --lineno;
 	else                                           lineno = 1;
diff --git a/maa/string.c b/maa/string.c
index f90d913..4285719 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -323,13 +323,16 @@ const char *str_find( const char *s )
 
 const char *str_findn( const char *s, int length )
 {
-	char *tmp = alloca( sizeof( char ) * (length + 1) );
+	const char *found;
+	char *tmp = xmalloc( sizeof( char ) * (length + 1) );
 
 	_str_check_global();
 	strncpy( tmp, s, length);
 	tmp [ length ] = 0;
 
-	return str_pool_find( global, tmp );
+	found = str_pool_find( global, tmp );
+	xfree( tmp );
+	return found;
 }
 
 /* \doc |str_copy| acts like |str_pool_copy|, except the global string pool
@@ -384,12 +387,15 @@ const char *str_finish( void )
 const char *str_unique( const char *prefix )
 {
 	static int i       = 1;
-	char       *buf    = alloca( strlen( prefix ) + 100 );
+	const char *found;
+	char       *buf    = xmalloc( strlen( prefix ) + 100 );
 
 	do {
 		sprintf( buf, "%s%d", prefix, i++ );
 	} while (str_exists( buf ));
-	return str_find( buf );
+	found = str_find( buf );
+	xfree( buf );
+	return found;
 }
 
 /* \doc |str_destroy| frees all of the memory associated with the global
-- 
2.43.0


From 2314802fbc49aaf9e900a63ea56a32045a502a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 27/40] fix: src_destroy resets the source position

After destroying and using the source manager again lines were stored
beyond the end of the new table.
---
 maa/source.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/source.c b/maa/source.c
index dff2fb3..3db1dd4 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -79,6 +79,8 @@ void src_destroy(void)
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
+	Used = Count = 0;
+	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From 85ec948ffa5ca227fcf93cb074d697a83c3248f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 28/40] fix: long or unterminated token names in
 src_parse_error

A name of 1024 bytes or more overflowed a local buffer, and a name
without closing quote made the loop read past the end of the message.
---
 maa/source.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index 3db1dd4..46b37ff 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -313,7 +313,7 @@ void src_print_stats(FILE *stream)
 static void _src_print_yyerror(FILE *str, const char *message)
 {
 	const char *pt;
-	char       buf[1024];
+	const char *end;
 	char       *b;
 	const char *concrete;
 
@@ -330,12 +330,16 @@ static void _src_print_yyerror(FILE *str, const char *message)
 				fprintf(str, "`%c'", pt[2]);
 				pt += 4;
 			} else if (pt[1] == 'T' && pt[2] == '_') { /* replace symbols */
-				for (b = buf, ++pt; *pt && *pt != '\''; b++, pt++) *b = *pt;
-				*b = '\0';
-				if ((concrete = prs_concrete(buf)))
+				for (end = ++pt; *end && *end != '\''; end++);
+				b = xmalloc(end - pt + 1);
+				memcpy(b, pt, end - pt);
+				b[end - pt] = '\0';
+				if ((concrete = prs_concrete(b)))
 					fprintf(str, "`%s'", concrete);
 				else
-					fprintf(str, "`%s'", buf);
+					fprintf(str, "`%s'", b);
+				xfree(b);
+				pt = *end ? end : end - 1;
 			} else
 				putc(*pt, str);
 		} else
-- 
2.43.0


From 54b9024107b11fa5d22b090180f6ab773a7dbb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 29/40] fix: src_print_error and src_print_message without a
 stream

They flushed and wrote to a null stream; stdout is used now, as
documented.
---
 maa/source.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index 46b37ff..91d29cd 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -410,10 +410,12 @@ void src_parse_error(FILE *stream, src_Type source, const char *message)
    by the line of source code specified by |source|.  If |stream| is
    "NULL", then "stdout" will be used. */
 
-void src_print_error(FILE *str, src_Type source, const char *format, ...)
+void src_print_error(FILE *stream, src_Type source,
+					 const char *format, ...)
 {
 	va_list    ap;
 	sourceType *s = (sourceType *)source;
+	FILE       *str = stream ? stream : stdout;
 
 	fflush(str);
 	if (format) {
@@ -432,10 +434,12 @@ void src_print_error(FILE *str, src_Type source, const char *format, ...)
 
 /* \doc |src_print_message| will just print a message labeled with a line. */
 
-void src_print_message(FILE *str, src_Type source, const char *format, ...)
+void src_print_message(FILE *stream, src_Type source,
+					 const char *format, ...)
 {
 	va_list    ap;
 	sourceType *s = (sourceType *)source;
+	FILE       *str = stream ? stream : stdout;
 
 	fflush(str);
 	if (format) {
-- 
2.43.0


From 2d13bb86f23ba820f12c3c0c5609117df3803a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 30/40] fix: timers lost the fraction of a second

The microseconds were divided as integers.
---
 maa/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/timer.c b/maa/timer.c
index 23ec520..3175154 100644
--- a/maa/timer.c
+++ b/maa/timer.c
@@ -82,7 +82,7 @@ void tim_stop(const char *name)
 
 #define DIFFTIME(now,then)							\
 	(((now).tv_sec - (then).tv_sec)					\
-	 + ((now).tv_usec - (then).tv_usec)/1000000)
+	 + ((now).tv_usec - (then).tv_usec)/1000000.0)
 
 	_tim_check();
 	gettimeofday(&real, NULL);
-- 
2.43.0


From b182a400832c585316bcb75c1ef4723f7c91c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 31/40] fix: shut down the table of concrete spellings

maa_shutdown released the strings but kept the table, so prs_concrete
used released memory, and _prs_shutdown left a dangling pointer.
---
 maa/maa.c            | 1 +
 maa/parse-concrete.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maa/maa.c b/maa/maa.c
index 3206cd8..43d9df8 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -56,6 +56,7 @@ void maa_shutdown(void)
 	}
 
 	_pr_shutdown();
+	_prs_shutdown();
 	str_destroy();
 	_lst_shutdown();
 	_sl_shutdown();
diff --git a/maa/parse-concrete.c b/maa/parse-concrete.c
index f591732..5e21075 100644
--- a/maa/parse-concrete.c
+++ b/maa/parse-concrete.c
@@ -43,4 +43,5 @@ const char *prs_concrete(const char *symbol)
 void _prs_shutdown(void)
 {
 	if (_prs_hash) hsh_destroy(_prs_hash);
+	_prs_hash = NULL;
 }
-- 
2.43.0


From 84a6fd8bf8a9033125bd95d38d6073cbe55802ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 32/40] fix: pr_open2 with one descriptor given twice

---
 maa/pr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index e0d6ce5..067d507 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -176,7 +176,6 @@ int pr_open2(const char *command, void(*callback)(void),
 		} else if (flags & USE) {								\
 			if (fd && *fd) {									\
 				dup2(*fd, FILENO);								\
-				close(*fd);										\
 			} else {											\
 				if ((null = open("/dev/null", flag)) >= 0) {	\
 					dup2(null, FILENO);							\
@@ -194,6 +193,12 @@ int pr_open2(const char *command, void(*callback)(void),
       
 #undef CHILD
 
+		/* Not before all of them are in place: the same descriptor may be
+		   used twice. */
+		if ((flags & PR_USE_STDIN) && infd && *infd) close(*infd);
+		if ((flags & PR_USE_STDOUT) && outfd && *outfd) close(*outfd);
+		if ((flags & PR_USE_STDERR) && errfd && *errfd) close(*errfd);
+
 		if (flags & PR_STDERR_TO_STDOUT)
 			dup2(STDOUT_FILENO, STDERR_FILENO);
       
-- 
2.43.0


From 91c5cd8df0351f11fb575d763c08bc1b76ee2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 33/40] fix: descriptors beyond the table of processes

---
 maa/pr.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 067d507..cb532f6 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -43,6 +43,7 @@ typedef struct _pr_Obj {
 } *_pr_Obj;
 
 static _pr_Obj _pr_objects = NULL;
+static int     _pr_count   = 0;	/* number of entries */
 
 #if 0
 static void _pr_check(pr_Object object, const char *function)
@@ -87,7 +88,19 @@ static int max_fd(void)
 static void _pr_init(void)
 {
 	if (!_pr_objects)
-		_pr_objects = xcalloc(max_fd(), sizeof(struct _pr_Obj));
+		_pr_objects = xcalloc(_pr_count = max_fd(), sizeof(struct _pr_Obj));
+}
+
+static void _pr_set_pid(int fd, int pid)
+{
+	/* The limit may have been raised since the table was made. */
+	if (fd >= _pr_count) {
+		_pr_objects = xrealloc(_pr_objects, (fd + 1) * sizeof(struct _pr_Obj));
+		memset(_pr_objects + _pr_count, 0,
+			   (fd + 1 - _pr_count) * sizeof(struct _pr_Obj));
+		_pr_count = fd + 1;
+	}
+	_pr_objects[fd].pid = pid;
 }
 
 void _pr_shutdown(void)
@@ -96,7 +109,7 @@ void _pr_shutdown(void)
 	int status;
 
 	if (_pr_objects) {
-		for (i = 0; i < max_fd(); i++) {
+		for (i = 0; i < _pr_count; i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
 				/* Never signal a process that was already waited for: its
@@ -110,6 +123,7 @@ void _pr_shutdown(void)
 		}
 		xfree(_pr_objects);
 		_pr_objects = NULL;
+		_pr_count = 0;
 	}
 }
 
@@ -202,7 +216,7 @@ int pr_open2(const char *command, void(*callback)(void),
 		if (flags & PR_STDERR_TO_STDOUT)
 			dup2(STDOUT_FILENO, STDERR_FILENO);
       
-		for (i = 0; i < max_fd(); i++)
+		for (i = 0; i < _pr_count; i++)
 			if (_pr_objects[i].pid > 0) close(i);
 
 		execvp(argv[0], argv);
@@ -213,12 +227,12 @@ int pr_open2(const char *command, void(*callback)(void),
 	if (flags & CREATE) {									\
 		close(fds[ readfd ]);                               \
 		*fd = fds[ writefd ];								\
-		_pr_objects[ *fd ].pid = pid;						\
+		_pr_set_pid(*fd, pid);								\
 		PRINTF(MAA_PR,(name " = %d; ",*fd));				\
 	} else if (flags & USE) {								\
 		if (fd && *fd) {									\
 			PRINTF(MAA_PR,(name " = %d*; ",*fd));			\
-			_pr_objects[ *fd ].pid =0;						\
+			_pr_set_pid(*fd, 0);							\
 			close(*fd);										\
 		}													\
 	}
@@ -275,7 +289,7 @@ int pr_close_nowait(int fd)
 
 	if (!_pr_objects)
 		err_internal(__func__, "No previous call to pr_open()");
-	if (!(pid = _pr_objects[ fd ].pid))
+	if (fd < 0 || fd >= _pr_count || !(pid = _pr_objects[ fd ].pid))
 		err_internal(__func__, "File (%d) not created by pr_open()", fd);
 
 	_pr_objects[ fd ].pid = 0;
-- 
2.43.0


From 2733b93cf9e1452e9e47033fe5d4df26312fedf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 34/40] fix: a filter's output that does not fit is an error,
 not cut off silently

With the buffer full read(2) was asked for no bytes, whose result of 0 was
taken for the end of the output; the overflow check could never be reached.
---
 maa/pr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index cb532f6..61233a1 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -319,6 +319,7 @@ int pr_readwrite(int in, int out,
 	int            count;
 	int            retval;
 	int            status;
+	char           extra;		/* to see that there is more than fits */
    
 	if ((flags = fcntl(in, F_GETFL)) < 0)
 		err_fatal_errno(__func__, "Can't get flags for output stream");
@@ -387,7 +388,9 @@ int pr_readwrite(int in, int out,
 						}
 					}
 				}
-				if ((count = read(out, outPt, outMaxLen)) <= 0) {
+				if (outMaxLen > 0) count = read(out, outPt, outMaxLen);
+				else               count = read(out, &extra, 1);
+				if (count <= 0) {
 					if (!count) {
 						if (inLen)
 							err_fatal(__func__,
-- 
2.43.0


From 1616a8b4accd46f2d1631e3cef114829b3f81017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 35/40] fix: err_fatal_errno printed a null pointer when no
 routine is named

---
 maa/error.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/maa/error.c b/maa/error.c
index de30f4d..e5cb85d 100644
--- a/maa/error.c
+++ b/maa/error.c
@@ -126,8 +126,13 @@ void err_fatal_errno(const char *routine, const char *format, ...)
 
 	va_end(ap);
 
-	fprintf(stderr, " %s: %s\n", routine, strerror(errorno));
-	log_error(routine, "%s: %s", routine, strerror(errorno));
+	if (routine) {
+		fprintf(stderr, " %s: %s\n", routine, strerror(errorno));
+		log_error(routine, "%s: %s", routine, strerror(errorno));
+	} else {
+		fprintf(stderr, " %s\n", strerror(errorno));
+		log_error(routine, "%s", strerror(errorno));
+	}
    
 	fflush(stderr);
 	fflush(stdout);
-- 
2.43.0


From 4f7e59bebc8ff9451d013c331de3965ec7472bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 36/40] fix: a command was run with the parent's stream when
 the null device could not be opened

---
 maa/pr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 61233a1..5037c03 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -191,10 +191,10 @@ int pr_open2(const char *command, void(*callback)(void),
 			if (fd && *fd) {									\
 				dup2(*fd, FILENO);								\
 			} else {											\
-				if ((null = open("/dev/null", flag)) >= 0) {	\
-					dup2(null, FILENO);							\
-					close(null);								\
-				}												\
+				if ((null = open("/dev/null", flag)) < 0)		\
+					_exit(127); /* not the parent's stream */	\
+				dup2(null, FILENO);								\
+				close(null);									\
 			}													\
 		}
       
-- 
2.43.0


From c938d9f0b3b18b37b839d08d68a8fb52215cc0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 37/40] fix: pr_spawn commands inherited the pipe ends of
 processes started earlier

---
 maa/pr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index 5037c03..8e30120 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -444,6 +444,11 @@ int pr_spawn(const char *command)
 		err_fatal_errno(__func__, "Cannot fork");
 
 	if (pid == 0) {		/* child */
+		int i;
+
+		for (i = 0; i < _pr_count; i++)
+			if (_pr_objects[i].pid > 0) close(i);
+
 		execvp(argv[0], argv);
 		_exit(127);
 	}
-- 
2.43.0


From 855f9c036b40c3a9abef6739ef9d71989b51b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:29 +0000
Subject: [PATCH 38/40] fix: log records were lost when writing them to a
 stream or pipe was interrupted by a signal

---
 maa/log.c | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index 6a14251..6512dd9 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -303,6 +303,37 @@ void log_close(void)
 	log_syslog (NULL);
 }
 
+static void _log_write(int fd, const char *string)
+{
+	size_t  len = strlen(string);
+	ssize_t count;
+
+	while (len > 0) {
+		if ((count = write(fd, string, len)) > 0) {
+			string += count;
+			len    -= count;
+		} else if (!count || errno != EINTR)
+			break;
+	}
+}
+
+/* Not through the buffer of the stream: what is in there is lost when the
+   writing of it is interrupted by a signal. */
+
+static void _log_write_stream(FILE *stream, const char *string)
+{
+	int fd = fileno(stream);
+
+	fflush(stream);
+	if (fd >= 0) {
+		_log_write(fd, string);
+		fseek(stream, 0L, SEEK_END); /* the stream has to know of it */
+	} else {
+		fprintf(stream, "%s", string);
+		fflush(stream);
+	}
+}
+
 static void _log_base_va(
 	const char *routine,
 	int log_facility,
@@ -348,17 +379,15 @@ static void _log_base_va(
 		/* writing */
 		if (logFd >= 0) {
 			_log_check_filename();
-			while (-1 == write (logFd, buf, strlen (buf)) && errno == EINTR);
+			_log_write(logFd, buf);
 		}
 		if (logUserStream) {
 			fseek(logUserStream, 0L, SEEK_END); /* might help if luser didn't
 													 open stream with "a" */
 			if (logUserStream == stdout || logUserStream == stderr)
-				fprintf(logUserStream, "%s", buf_main);
+				_log_write_stream(logUserStream, buf_main);
 			else
-				fprintf(logUserStream, "%s", buf);
-
-			fflush(logUserStream);
+				_log_write_stream(logUserStream, buf);
 		}
 	}
 
-- 
2.43.0


From 11711365ceac86c389648e5f99f3d5e3b06f8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:11 +0000
Subject: [PATCH 39/40] fix: pr_readwrite overran its descriptor sets with more
 than 1024 files open

select(2) cannot handle descriptors beyond FD_SETSIZE; poll(2) has no such
limit.
---
 maa/pr.c | 44 ++++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 8e30120..0609347 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -35,6 +35,7 @@
 #include <errno.h>
 #include <signal.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <sys/param.h>
 #include <sys/wait.h>
 
@@ -313,9 +314,7 @@ int pr_readwrite(int in, int out,
 	const char     *inPt  = inBuffer;
 	char           *outPt = outBuffer;
 	int            outLen = 0;
-	fd_set         rfds, wfds, efds;
-	struct timeval tv;
-	int            n;
+	struct pollfd  fds[2];	/* not select(2): any number may be open */
 	int            count;
 	int            retval;
 	int            status;
@@ -339,23 +338,17 @@ int pr_readwrite(int in, int out,
 #endif
 	fcntl(out, F_SETFL, flags);
 
-	n = max(in, out) + 1;
 	if (!inLen) pr_close_nowait(in); /* the filter has to see the end */
 
 	for (;;) {
-		tv.tv_sec  = 5;
-		tv.tv_usec = 0;
-		FD_ZERO(&rfds);
-		FD_ZERO(&wfds);
-		FD_ZERO(&efds);
-		FD_SET(out, &rfds);
-		FD_SET(out, &efds);
-		if (inLen) {
-			FD_SET(in, &wfds);
-			FD_SET(in, &efds);
-		}
-   
-		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
+		fds[0].fd      = out;
+		fds[0].events  = POLLIN;
+		fds[0].revents = 0;
+		fds[1].fd      = in;
+		fds[1].events  = POLLOUT;
+		fds[1].revents = 0;
+
+		switch ((retval = poll(fds, inLen ? 2 : 1, 5000)))
 		{
 			case -1:
 				if (errno == EINTR) break;
@@ -364,15 +357,13 @@ int pr_readwrite(int in, int out,
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
-					printf("select(2) returns %d,"
+					printf("poll(2) returns %d,"
 						   " inLen = %d, outLen = %d, outMaxLen = %d\n",
 						   retval, inLen, outLen, outMaxLen);
-					if (FD_ISSET(in, &rfds))  printf("  in/read\n");
-					if (FD_ISSET(out, &rfds)) printf("  out/read\n");
-					if (FD_ISSET(in, &wfds))  printf("  in/write\n");
-					if (FD_ISSET(out, &wfds)) printf("  out/write\n");
-					if (FD_ISSET(in, &efds))  printf("  in/error\n");
-					if (FD_ISSET(out, &efds)) printf("  out/error\n");
+					if (fds[0].revents & POLLIN)   printf("  out/read\n");
+					if (fds[1].revents & POLLOUT)  printf("  in/write\n");
+					if (fds[1].revents & ~POLLOUT) printf("  in/error\n");
+					if (fds[0].revents & ~POLLIN)  printf("  out/error\n");
 				}
 				if (inLen) {
 					if ((count = write(in, inPt, inLen)) <= 0) {
@@ -382,10 +373,7 @@ int pr_readwrite(int in, int out,
 						PRINTF(MAA_PR,("  wrote %d\n",count));
 						inLen -= count;
 						inPt  += count;
-						if (!inLen) {
-							pr_close_nowait(in);
-							n = out + 1;
-						}
+						if (!inLen) pr_close_nowait(in);
 					}
 				}
 				if (outMaxLen > 0) count = read(out, outPt, outMaxLen);
-- 
2.43.0


From 4af1da57adca10c5b42a59679c204621c0e7b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:18 +0000
Subject: [PATCH 40/40] fix: dbg_list and flg_list aborted with no names
 registered

They looked into the table of names before there was one.
---
 maa/debug.c | 2 ++
 maa/flags.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/maa/debug.c b/maa/debug.c
index dcaf135..064ca82 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -222,6 +222,8 @@ static int _dbg_builtin(const void *key, const void *datum, void *arg)
 
 void dbg_list(FILE *stream)
 {
+	if (!hash) return;		/* no names registered */
+
 	hsh_iterate_arg(hash, _dbg_user, stream);
 	hsh_iterate_arg(hash, _dbg_builtin, stream);
 }
diff --git a/maa/flags.c b/maa/flags.c
index ce0abbf..4534282 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -179,5 +179,7 @@ static int _flg_user(const void *key, const void *datum, void *arg)
 
 void flg_list(FILE *stream)
 {
+	if (!hash) return;		/* no names registered */
+
 	hsh_iterate_arg(hash, _flg_user, stream);
 }
-- 
2.43.0

