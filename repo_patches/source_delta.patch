From 3a9447620086c3594ee2800b8848d085eac06ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 01/46] fix: NET: after a partial send, send only the remaining
 bytes

The second send() still used the full length: it read beyond the end of the
message and put the bytes it found there on the wire.
---
 src/core/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index 6c38e29..af3f8c9 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -368,7 +368,7 @@ static bool trySend(const void * buf, size_t len)
 	const char * end = ptr + len;
 
 	do {
-		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, len, 0);
+		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
 		if (rc <= 0) {
 			/* report failure */
 #ifdef DEBUG
-- 
2.43.0


From eae2b87afbcf83430982691ee58c2fae5a443ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 02/46] fix: CFG: a line without '=' and no '=' in the rest of
 the file

memchr() returns NULL then, which is not beyond the end of the line: the
option was parsed from a NULL pointer.
---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 2d60544..62f013e 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -619,7 +619,7 @@ static bool parseOption()
 	bufferInput = n + 1;
 
 	/* sanity check */
-	if (unlikely(n < e)) {
+	if (unlikely(e == NULL || n < e)) {
 		err(LOG_LEVEL_ERROR, "'=' expected before end of line");
 		++bufferLine;
 		return false;
-- 
2.43.0


From eb835f2fea9dbc8bdd5a9cf15bbfbc3b84b9a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 03/46] fix: CFG: empty value on a line ending with \r\n

The carriage return is skipped as leading whitespace of the value already. It
was found again in front of the value, which made the length wrap around.
---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 62f013e..d09b50f 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -639,7 +639,7 @@ static bool parseOption()
 		size_t valLen = n - value;
 
 		/* eliminate \r at the end of the value */
-		if (value[valLen - 1] == '\r')
+		if (valLen > 0 && value[valLen - 1] == '\r')
 			--valLen;
 
 		/* get option by section and key name */
-- 
2.43.0


From 1111c672cd442f8c1eded82542845a63044de97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 04/46] fix: CFG: last line without a newline lost its last
 character

---
 src/util/cfgfile.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index d09b50f..10d2a99 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -356,6 +356,25 @@ static void err(enum LOG_LEVEL logLevel, const char * fmt, ...) {
 		fileName, bufferLine, buf);
 }
 
+/** Get the end of the current line.
+ * @return next newline or end-of-file (i.e. one past the last character)
+ */
+static const char * getEndOfLine()
+{
+	const char * n = memchr(bufferInput, '\n', bufferSize);
+	return n ? n : bufferInput + bufferSize;
+}
+
+/** Advance the parser to the next line or the end-of-file.
+ * @param n end of the current line
+ */
+static void skipLine(const char * n)
+{
+	const char * const eof = bufferInput + bufferSize;
+	bufferInput = n == eof ? eof : n + 1;
+	bufferSize = eof - bufferInput;
+}
+
 /** Parse a section name.
  * @return section state
  */
@@ -364,9 +383,7 @@ static enum SECTION_STATE parseSection()
 	/* get next ']' terminator */
 	const char * c = memchr(bufferInput, ']', bufferSize);
 	/* get next newline or end-of-file */
-	const char * n = memchr(bufferInput, '\n', bufferSize);
-	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+	const char * const n = getEndOfLine();
 
 	/* sanity checks */
 	if (!c || n < c) {
@@ -383,8 +400,7 @@ static enum SECTION_STATE parseSection()
 	const char * const buf = bufferInput + 1;
 
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	skipLine(n);
 	++bufferLine;
 
 	/* search section: check if there is at least one section with that name */
@@ -408,13 +424,8 @@ static enum SECTION_STATE parseSection()
 /** Scan a comment. This will just advance the parser to the end of line/file */
 static void skipComment()
 {
-	/* search for next newline */
-	const char * n = memchr(bufferInput, '\n', bufferSize);
-	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	skipLine(getEndOfLine());
 	++bufferLine;
 }
 
@@ -608,15 +619,12 @@ static bool parseOption()
 {
 	/* split option on '='-sign */
 	const char * e = memchr(bufferInput, '=', bufferSize);
-	const char * n = memchr(bufferInput, '\n', bufferSize);
-	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+	const char * const n = getEndOfLine();
 
 	const char * key = bufferInput;
 
 	/* advance buffer */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	skipLine(n);
 
 	/* sanity check */
 	if (unlikely(e == NULL || n < e)) {
-- 
2.43.0


From 6b1f39abd6062e11ab78fc9dae0100c2c6c0f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 05/46] fix: CFG: reject integers which do not fit into 32 bit

They were silently truncated, even to a valid port number.
---
 src/util/cfgfile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 10d2a99..512f83f 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -446,7 +446,12 @@ static inline bool parseInt(const char * value, size_t valLen, uint32_t * ret)
 	buf[valLen] = '\0';
 
 	char * end;
+	errno = 0;
 	unsigned long int n = strtoul(buf, &end, 0);
+	if (errno == ERANGE || n > UINT32_MAX) {
+		err(LOG_LEVEL_ERROR, "Number is out of range");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = n;
-- 
2.43.0


From 8e76c4ecc7d51596abc50a76ccc13b90f530d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 06/46] fix: CFG: always terminate strings set from defaults or
 by CFG_setString()

---
 src/util/cfgfile.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 512f83f..98df4e8 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -736,9 +736,10 @@ static void assignOptionFromDefault(const struct CFG_Option * opt)
 		val->port = opt->def.port;
 		break;
 	case CFG_VALUE_TYPE_STRING:
-		if (opt->def.string)
-			strncpy(opt->var, opt->def.string, opt->maxlen);
-		else
+		if (opt->def.string) {
+			strncpy(opt->var, opt->def.string, opt->maxlen - 1);
+			((char*)opt->var)[opt->maxlen - 1] = '\0';
+		} else
 			((char*)opt->var)[0] = '\0';
 		break;
 	case CFG_VALUE_TYPE_DOUBLE:
@@ -830,7 +831,8 @@ void CFG_setString(const char * section, const char * key, const char * value)
 	const struct CFG_Option * opt = getOptionByString(section, key);
 	if (opt) {
 		assert(opt->type == CFG_VALUE_TYPE_STRING);
-		strncpy(opt->var, value, opt->maxlen);
+		strncpy(opt->var, value, opt->maxlen - 1);
+		((char*)opt->var)[opt->maxlen - 1] = '\0';
 	}
 }
 
-- 
2.43.0


From 8287f315e0743a6fd4fa13a659ea90598399f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 07/46] fix: CFG: filename of maximal length was not terminated
 in CFG_readDirectory()

---
 src/util/cfgfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 98df4e8..9d70e0d 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -231,7 +231,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		/* build filename */
 		const char * fname = namelist[n]->d_name;
 		size_t flen = strlen(namelist[n]->d_name);
-		if (flen > len) {
+		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s/%s' is too long", path,
 				fname);
 			if (stopOnFirstError)
@@ -301,7 +301,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen < 5 || strcmp(fname + flen - 5, ".conf"))
 			continue;
 
-		if (flen > len) {
+		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s\\%s' is too long", path,
 				fname);
 			if (stopOnFirstError)
-- 
2.43.0


From c6d66af1ae3e212e2d80d6979000d4890f163478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 08/46] fix: CFG: report failures of writing the configuration

The output is buffered: a full disk is not seen before fclose().
---
 src/util/cfgfile.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 9d70e0d..bb864ea 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -891,12 +891,14 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 		const union CFG_Value * val = opt->var;
 
 		if (opt->given && !*opt->given && opt->defaultEmpty) {
-			fprintf(file, "; %s = \n", opt->name);
+			if (fprintf(file, "; %s = \n", opt->name) < 0)
+				return false;
 			continue;
 		}
 
 		/* write option name */
-		fprintf(file, "%s = ", opt->name);
+		if (fprintf(file, "%s = ", opt->name) < 0)
+			return false;
 
 		/* write option value, depending on its type */
 		switch (opt->type) {
@@ -985,7 +987,8 @@ bool CFG_write(const char * filename)
 
 	bool rc = writeSections(file);
 
-	fclose(file);
+	if (fclose(file))
+		rc = false;
 
 	return rc;
 }
@@ -1007,7 +1010,8 @@ bool CFG_writeSection(const char * filename, const struct CFG_Section * section)
 	bool rc = fprintf(file, "[%s]\n", section->name) >= 0 &&
 		writeOptions(file, section);
 
-	fclose(file);
+	if (fclose(file))
+		rc = false;
 
 	return rc;
 }
-- 
2.43.0


From f714490c54184e3e8846ecef7d2777d176eabf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 09/46] fix: NET: never continue receiving on a new connection
 without notice

NET_receive() silently switched to a reestablished connection, so the talkback
parser appended data of the new connection to an incomplete packet of the old
one.
---
 src/core/network.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index af3f8c9..ad583fe 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -408,17 +408,18 @@ bool NET_send(const void * buf, size_t len)
  */
 ssize_t NET_receive(uint8_t * buf, size_t len)
 {
-	do {
-		ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
-		if (rc > 0) {
-			stats.bytesReceived += rc;
-			return rc;
-		}
+	ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
+	if (rc > 0) {
+		stats.bytesReceived += rc;
+		return rc;
+	}
 #ifdef DEBUG
-		LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
-			rc == 0 ? "Connection lost" : strerror(errno));
+	LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
+		rc == 0 ? "Connection lost" : strerror(errno));
 #endif
-	} while (emitDisconnect(EMIT_BY_RECV) == ACTION_RETRY);
+	/* even if the connection has already been reestablished, the caller must
+	 * know that its partial data belongs to the old connection */
+	emitDisconnect(EMIT_BY_RECV);
 	return 0;
 }
 
-- 
2.43.0


From db35a1a07988928d36e52de96d0468d0b57cf728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 10/46] fix: COMP: do not join a thread twice when stopping was
 deferred

---
 src/util/component.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/component.c b/src/util/component.c
index 7094aba..8de55da 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -413,8 +413,9 @@ static bool stopThreaded(const struct ComponentLink * ci, bool deferred)
 					"joined", ci->comp->description);
 			return false;
 		}
-#endif
+#else
 		pthread_join(ci->thread, NULL);
+#endif
 	} else {
 		pthread_cancel(ci->thread);
 #if HAVE_PTHREAD_TIMEDJOIN_NP
-- 
2.43.0


From 0636901ec3914a837358aa1b900eab44f54c28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 11/46] fix: COMP: buffer overflow when listing components
 which could not be stopped

---
 src/util/component.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/component.c b/src/util/component.c
index 8de55da..e477b88 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -343,10 +343,12 @@ static void stopUntil(struct ComponentLink * end)
 				size_t len = MIN(strlen(ci->comp->description), bend - buf);
 				memcpy(buf, ci->comp->description, len);
 				buf += len;
+				if (buf == bend)
+					break;
 				*(buf++) = ' ';
 			}
 		}
-		if (buf != buffer)
+		if (buf != buffer && buf != bend)
 			buf[-1] = 0;
 		else
 			*buf = 0;
-- 
2.43.0


From 5607b91a329478df9b78bf164843e608ce3a087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 12/46] fix: FPGA: configuration section was registered twice

The component already registers its section.
---
 src/radarcape/fpga.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index f677ea1..6b70a28 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -143,8 +143,6 @@ static bool checkCfg(const struct CFG_Section * sect)
 /** Initialize FPGA configuration component. */
 static bool construct()
 {
-	CFG_registerSection(&cfgDesc);
-
 	fpga = &pins[FPGA_bbwhite ? BB_TYPE_WHITE : BB_TYPE_BLACK];
 
 	GPIO_setDirection(fpga->confd, GPIO_DIRECTION_IN);
-- 
2.43.0


From f82d131059a2294fded44d5547fe623475b7b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 13/46] fix: BUF: GCLevel = 0 divided by zero, DynamicBacklog =
 0 hit an assertion

---
 src/core/buffer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index cbad706..de15a3e 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -186,6 +186,17 @@ static void cfgFix(const struct CFG_Section * sect)
 		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.staticBacklog was increased to 2");
 	}
 
+	if (cfg.history && cfg.dynBacklog < 1) {
+		cfg.dynBacklog = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.dynamicBacklog was increased to "
+			"1");
+	}
+
+	if (cfg.gcLevel < 1) {
+		cfg.gcLevel = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.GCLevel was increased to 1");
+	}
+
 	if (cfg.gc && !cfg.history) {
 		cfg.gc = false;
 		LOG_log(LOG_LEVEL_WARN, PFX, "Ignoring BUFFER.GC because "
-- 
2.43.0


From 5418641d7210d25797df94008d52cbff21cb0f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 14/46] fix: FPGA: size limit for the filename was reversed

---
 src/radarcape/fpga.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index 6b70a28..3914043 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -168,8 +168,8 @@ static bool program()
 		strncpy(file, cfgFilename, sizeof file);
 	} else {
 		strncpy(file, FWDIR, sizeof file);
-		strncat(file, "/", strlen(file) - sizeof file);
-		strncat(file, cfgFilename, strlen(file) - sizeof file);
+		strncat(file, "/", sizeof file - strlen(file) - 1);
+		strncat(file, cfgFilename, sizeof file - strlen(file) - 1);
 	}
 
 	/* open input file */
-- 
2.43.0


From 9dec11cf6da5446594bc45bb6492a81b53451c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 15/46] fix: FPGA: release the mapped bitstream if programming
 fails

---
 src/radarcape/fpga.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index 3914043..cddd996 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -218,11 +218,12 @@ static bool program()
 			continue;
 		}
 
-		munmap(rfd, st.st_size);
-
 		LOG_log(LOG_LEVEL_INFO, PFX, "done");
 		break;
 	}
+
+	munmap(rfd, st.st_size);
+
 	if (try == retries) {
 		LOG_logf(LOG_LEVEL_ERROR, PFX, "could not program fpga after %" PRIu32
 			" attempts", retries);
-- 
2.43.0


From ad2266aad6b6e4c1116da432fae70b4e7710a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 16/46] fix: SERIAL: detect a missing serial number

SERIAL_ETH_getSerial() returns an enum: a permanent failure is not 0, so the
daemon and the library continued without a serial number.
---
 src/radarcape/lib/opensky.cc | 2 +-
 src/radarcape/main.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/lib/opensky.cc b/src/radarcape/lib/opensky.cc
index f048306..d2cfc56 100644
--- a/src/radarcape/lib/opensky.cc
+++ b/src/radarcape/lib/opensky.cc
@@ -83,7 +83,7 @@ void init()
 
 void configure()
 {
-	if (!SERIAL_ETH_getSerial(NULL)) {
+	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM) {
 		LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 	} else {
 		configured = true;
diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index f166c91..4a96cb1 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -151,7 +151,7 @@ int main(int argc, char * argv[])
 		return EXIT_SUCCESS;
 	}
 
-	if (!SERIAL_ETH_getSerial(NULL))
+	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM)
 			LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 
 #ifdef STANDALONE
-- 
2.43.0


From 10984afaef829bbcf860c18654e6e7bc7f6d8cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 17/46] fix: SERIAL: close the socket used to query the MAC
 address

---
 src/util/serial_eth.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/serial_eth.c b/src/util/serial_eth.c
index ad8006c..9a7bbac 100644
--- a/src/util/serial_eth.c
+++ b/src/util/serial_eth.c
@@ -71,9 +71,11 @@ static bool getMacBySocket(const char * dev, uint8_t mac[IFHWADDRLEN])
 		return false;
 
 	struct ifreq ifr;
-	strncpy(ifr.ifr_name, dev, IFNAMSIZ);
+	strncpy(ifr.ifr_name, dev, IFNAMSIZ - 1);
+	ifr.ifr_name[IFNAMSIZ - 1] = '\0';
 
 	int ret = NOC_call(ioctl, sock, SIOCGIFHWADDR, &ifr);
+	NOC_call(close, sock);
 
 	if (ret < 0) /* no such device */
 		return false;
-- 
2.43.0


From 7f7a45ceb22ae81a50063dbf9e8dc3192c1dd2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 18/46] fix: WD: do not continue without GPIO access

---
 src/radarcape/wd-main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/radarcape/wd-main.c b/src/radarcape/wd-main.c
index 1ffd6c4..b8fbba4 100644
--- a/src/radarcape/wd-main.c
+++ b/src/radarcape/wd-main.c
@@ -34,7 +34,8 @@ int main(int argc, char * argv[])
 	}
 
 	/* initialize GPIO subsystem */
-	GPIO_comp.onConstruct(NULL);
+	if (!GPIO_comp.onConstruct(NULL))
+		return EXIT_FAILURE;
 
 	/* drop privileges */
 	UTIL_dropPrivileges();
-- 
2.43.0


From c80cd2353f2bdeaadd275dba0b5195981f99c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 19/46] fix: INPUT: flags were passed as mode when opening the
 UART

---
 src/radarcape/uart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 75b2b74..7b40940 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -74,7 +74,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
-- 
2.43.0


From 9b5b303ec68e0191101a2cce5fdc448d52c57f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 20/46] fix: TRIMBLE: flags were passed as mode when opening
 the UART

---
 src/trimble/trimble_input_uart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trimble/trimble_input_uart.c b/src/trimble/trimble_input_uart.c
index 60044d4..feb36b8 100644
--- a/src/trimble/trimble_input_uart.c
+++ b/src/trimble/trimble_input_uart.c
@@ -78,7 +78,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
-- 
2.43.0


From a382a98b7d319e5f55b7bfb3dd8a77601daf00b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 21/46] fix: UTIL: do not continue with root privileges if they
 could not be dropped

---
 src/util/util.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/util.c b/src/util/util.c
index 17e9395..62424fb 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -54,9 +54,8 @@ void UTIL_dropPrivileges()
 	if (chdir("/tmp")) {} /* silence gcc */
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Dropping privileges to uid %u and "
 		"gid %u\n", (unsigned)u_nobody, (unsigned)g_nobody);
-	setgroups(0, NULL);
-	if (setgid(g_nobody)) {}
-	if (setuid(u_nobody)) {}
+	if (setgroups(0, NULL) || setgid(g_nobody) || setuid(u_nobody))
+		LOG_errno(LOG_LEVEL_EMERG, PFX, "Could not drop privileges");
 #endif
 }
 
-- 
2.43.0


From e2819b30a9ac37c1b637f123dc8223744d042070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 22/46] fix: POS: "nan" was accepted as latitude and longitude

---
 src/dump1090/position.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump1090/position.c b/src/dump1090/position.c
index 1e7bedd..1561269 100644
--- a/src/dump1090/position.c
+++ b/src/dump1090/position.c
@@ -82,11 +82,11 @@ static bool checkCfg(const struct CFG_Section * sect)
 			LOG_logf(LOG_LEVEL_EMERG, PFX, "%s is not configured", opt->name);
 	}
 
-	if (latitude < -90 || latitude > 90)
+	if (!(latitude >= -90 && latitude <= 90))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Latitude must be given within +/-90 "
 			"degrees");
 
-	if (longitude < -180 || longitude > 180)
+	if (!(longitude >= -180 && longitude <= 180))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Longitude must be given within +/-180 "
 			"degrees");
 
-- 
2.43.0


From 91c6a8f67520bf50202df1d0111cddc43140b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 23/46] fix: INPUT: last byte of generated frames was
 uninitialized

---
 src/radarcape/dummy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/dummy.c b/src/radarcape/dummy.c
index 4761e89..ffa0b91 100644
--- a/src/radarcape/dummy.c
+++ b/src/radarcape/dummy.c
@@ -86,7 +86,7 @@ size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
 		mbuf[0] = (random() & 0xff) - 0x7f;
 		mbuf[1] = 0x8a;
 		uint_fast32_t i;
-		for (i = 2; i < 14; ++i)
+		for (i = 2; i < sizeof mbuf; ++i)
 			mbuf[i] = random() & 0xff;
 	}
 	ptr += BEAST_encode(ptr, mbuf, 15);
-- 
2.43.0


From 85c06665234659b05facead84447aa26bae36b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 24/46] fix: PROC: handle failures of fork and waitpid in
 PROC_execAndReturn()

---
 src/util/proc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index 70e107c..a78b976 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -132,10 +132,15 @@ void PROC_forkAndExec(char * const argv[])
 bool PROC_execAndReturn(char * const argv[])
 {
 	pid_t pid = fork();
-	if (!pid)
+	if (pid == -1) {
+		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
+		return false;
+	} else if (!pid) {
 		PROC_execAndFinalize(argv);
+	}
 
 	int status;
-	waitpid(pid, &status, 0);
+	if (waitpid(pid, &status, 0) != pid)
+		return false;
 	return WIFEXITED(status) && WEXITSTATUS(status) == 0;
 }
-- 
2.43.0


From 6ce25c9a6b91ce63a35d2694d47c6e231d1dd3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 25/46] fix: NETC: do not connect an invalid socket

---
 src/util/net_common-posix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index 69ab469..2feb3ee 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -126,8 +126,10 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		/* create socket */
 		sock = SOCK_socket(host->ai_family, host->ai_socktype | SOCK_CLOEXEC,
 			host->ai_protocol);
-		if (sock == SOCK_INVALID)
+		if (sock == SOCK_INVALID) {
 			LOG_errnet(LOG_LEVEL_ERROR, prefix, "could not create socket");
+			continue;
+		}
 
 		/* connect socket */
 		rc = SOCK_connect(sock, addr, host->ai_addrlen);
-- 
2.43.0


From 34bf1d4c2410f72b62f229d6c136bf42d60afd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 26/46] fix: NETC: hints for getaddrinfo() were partly
 uninitialized

---
 src/util/net_common-posix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index 2feb3ee..b02e926 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -57,6 +57,7 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 	hosts->hosts = NULL;
 	hosts->shuffled = NULL;
 
+	memset(&hints, 0, sizeof hints);
 	hints.ai_family = AF_UNSPEC;
 	hints.ai_socktype = SOCK_STREAM;
 	hints.ai_protocol = IPPROTO_TCP;
-- 
2.43.0


From 61cb43dbe2deca7789228ab20d97935569fd71e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 27/46] fix: NETC: close socket if canceled while connecting

---
 src/util/net_common-posix.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index b02e926..ae0231d 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -23,6 +23,8 @@ struct Hosts {
 	struct addrinfo * hosts;
 	/** Pointers into hosts, in random order */
 	struct addrinfo ** shuffled;
+	/** Socket which is about to be connected */
+	sock_t sock;
 };
 
 /** Cleanup Routine
@@ -34,6 +36,8 @@ static void cleanup(struct Hosts * hosts)
 		if (hosts->hosts)
 			freeaddrinfo(hosts->hosts);
 		free(hosts->shuffled);
+		if (hosts->sock != SOCK_INVALID)
+			SOCK_close(hosts->sock);
 		free(hosts);
 	}
 }
@@ -56,6 +60,7 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		LOG_errno(LOG_LEVEL_EMERG, prefix, "malloc failed");
 	hosts->hosts = NULL;
 	hosts->shuffled = NULL;
+	hosts->sock = SOCK_INVALID;
 
 	memset(&hints, 0, sizeof hints);
 	hints.ai_family = AF_UNSPEC;
@@ -132,8 +137,10 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 			continue;
 		}
 
-		/* connect socket */
+		/* connect socket, it must be closed if we are canceled meanwhile */
+		hosts->sock = sock;
 		rc = SOCK_connect(sock, addr, host->ai_addrlen);
+		hosts->sock = SOCK_INVALID;
 		if (rc == SOCK_ERROR) {
 			LOG_errnet(LOG_LEVEL_WARN, prefix, "Could not connect");
 			SOCK_close(sock);
-- 
2.43.0


From 7f0d78f3635f123fac1533359b2024cb79a9ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 28/46] fix: CFG: filenames leaked in CFG_readDirectory() if
 the path is too long

---
 src/util/cfgfile.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index bb864ea..127a2c1 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -212,12 +212,15 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		return false;
 	}
 
+	bool ret = false;
+	int n;
+
 	/* prepare filename */
 	char filename[PATH_MAX];
 	size_t len = strlen(path);
 	if (len > PATH_MAX - 1) {
 		LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s' too long", path);
-		return false;
+		goto ret;
 	}
 	strncpy(filename, path, sizeof filename);
 	filename[len] = '/';
@@ -225,8 +228,6 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
-	bool ret = false;
-	int n;
 	for (n = 0; n < s; ++n) {
 		/* build filename */
 		const char * fname = namelist[n]->d_name;
-- 
2.43.0


From 360f2d3223b783f425ae94de9cfb762a6dadd3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 29/46] fix: CFG: fix configuration even if it could only be
 read partly

The caller continues with the options read so far, e.g. StaticBacklog = 0.
---
 src/util/cfgfile.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 127a2c1..ebeec5d 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -145,9 +145,8 @@ bool CFG_readFile(const char * file, bool warnUnknownSection,
 
 	MMAP_close(map);
 
-	/* fix configuration */
-	if (success)
-		fix();
+	/* fix configuration, also if it was read only partly */
+	fix();
 
 	return success;
 }
-- 
2.43.0


From 6c676f62759b288a31f9d33ff6c8c9a71180476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 30/46] fix: LIST: length was wrong after separating a tainted
 list with fixing

---
 src/util/list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/list.h b/src/util/list.h
index a1bd626..7ca01be 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -494,6 +494,7 @@ static inline void LIST_separateFromDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateFromFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	LIST_lengthDC(list);
 	LIST_separateFromDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
@@ -539,6 +540,7 @@ static inline void LIST_separateUntilDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateUntilFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	LIST_lengthDC(list);
 	LIST_separateUntilDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
-- 
2.43.0


From 6526de5360c3a4545954f72f2044f8021790b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 31/46] fix: NET: initialize the connection state with the
 mutex held

---
 src/core/network.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index ad583fe..66ed7d6 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -187,10 +187,9 @@ static void cleanupMain()
 /** Mainloop for network: (re)established network connection on failure */
 static void mainloop()
 {
+	pthread_mutex_lock(&mutex);
 	connState = CONN_STATE_DISCONNECTED;
 	transState = TRANSIT_NONE;
-
-	pthread_mutex_lock(&mutex);
 	CLEANUP_PUSH(&cleanupMain, NULL);
 	while (true) {
 		assert(connState == CONN_STATE_DISCONNECTED);
-- 
2.43.0


From 4b106917f72893c6092f3a09cc60f7a6bf80cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 32/46] fix: GPS: reset the flag for a needed position with the
 mutex held

---
 src/core/gps.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/gps.c b/src/core/gps.c
index 40c79ba..9d16872 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -49,7 +49,9 @@ void GPS_reset()
 /** Reset flag whether position is needed */
 void GPS_resetNeedFlag()
 {
+	pthread_mutex_lock(&posMutex);
 	needPosition = false;
+	pthread_mutex_unlock(&posMutex);
 }
 
 /** Update current GPS position and fix */
-- 
2.43.0


From fa3c79089d443602870f0365c93e5cf8a7fbe62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:37 +0000
Subject: [PATCH 33/46] fix: TRIMBLE: an escaped BOM does not begin a frame

---
 src/trimble/trimble_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trimble/trimble_parser.c b/src/trimble/trimble_parser.c
index 5ed506f..01bbcc6 100644
--- a/src/trimble/trimble_parser.c
+++ b/src/trimble/trimble_parser.c
@@ -109,9 +109,9 @@ decode_frame:
 		/* decode type */
 		if (unlikely(!next(buf)))
 			return false;
-		if (unlikely(*buf == EOM)) {
-			LOG_log(LOG_LEVEL_WARN, PFX, "Out of Sync: got unescaped EOM in "
-				"frame, resynchronizing");
+		if (unlikely(*buf == EOM || *buf == BOM)) {
+			LOG_log(LOG_LEVEL_WARN, PFX, "Out of Sync: got EOM or escaped BOM "
+				"instead of frame type, resynchronizing");
 			goto synchronize;
 		}
 		size_t len = bufLen - 1;
-- 
2.43.0


From 2620a7c5ea6cc9bc7f13e9fe87af95c7160f190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 34/46] fix: GPS: keep a deferred request for the position when
 the position is reset

The GPS receiver resets the position whenever it (re)connects. If the position
was asked for at login before, the request was lost and the position was not
sent before the next login.
---
 src/core/gps.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/gps.c b/src/core/gps.c
index 9d16872..95693ba 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -36,11 +36,13 @@ static void sendPositionIfAvail();
 
 static bool sendPosition(const struct GPS_Position * position);
 
-/** Reset current GPS position */
+/** Reset current GPS position
+ * @note a request which was deferred is kept: the position is still to be sent
+ *  as soon as there is one again
+ */
 void GPS_reset()
 {
 	pthread_mutex_lock(&posMutex);
-	needPosition = false;
 	hasPosition = false;
 	hasFix = false;
 	pthread_mutex_unlock(&posMutex);
-- 
2.43.0


From ca3f46722f5c1fd77062aa62a33b554c689c2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:11 +0000
Subject: [PATCH 35/46] fix: LOG: let forked children log

A child forked while another thread was logging found the mutex locked
forever, so that the command was never executed.
---
 src/util/log_stdio.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/util/log_stdio.c b/src/util/log_stdio.c
index cec84c1..e686fcd 100644
--- a/src/util/log_stdio.c
+++ b/src/util/log_stdio.c
@@ -26,6 +26,26 @@ static const char * levelNames[] = {
 /** Mutex: only one thread can log to stdout */
 static pthread_mutex_t stdioMutex = PTHREAD_MUTEX_INITIALIZER;
 
+/** Lock the mutex before forking */
+static void lockStdio()
+{
+	pthread_mutex_lock(&stdioMutex);
+}
+
+/** Unlock the mutex after forking */
+static void unlockStdio()
+{
+	pthread_mutex_unlock(&stdioMutex);
+}
+
+/** Let forked children log: without that, the mutex would stay locked forever
+ * in the child if another thread was logging during the fork */
+__attribute__((constructor))
+static void initFork()
+{
+	pthread_atfork(&lockStdio, &unlockStdio, &unlockStdio);
+}
+
 /** Print log message with printf-like formatting.
  * @param level Log level. If it is LOG_LEVEL_EMERG, the function will abort
  *  the process.
-- 
2.43.0


From 7ae2d4eb012c6088f36f789491ec821cbca77488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:11 +0000
Subject: [PATCH 36/46] fix: TB: end the child process when upgrading the
 daemon fails

It returned into the main loop of the daemon, sharing its connection.
---
 src/radarcape/tb-misc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/radarcape/tb-misc.c b/src/radarcape/tb-misc.c
index 617cd8d..10e5271 100644
--- a/src/radarcape/tb-misc.c
+++ b/src/radarcape/tb-misc.c
@@ -6,6 +6,7 @@
 #include <stdbool.h>
 #include <inttypes.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include "tb-misc.h"
 #include "fpga.h"
 #include "util/proc.h"
@@ -70,6 +71,9 @@ void TB_upgradeDaemon(const uint8_t * payload)
 		PROC_execAndFinalize(argv2);
 #endif
 	}
+
+	/* this is the child: it must not continue as the daemon */
+	_Exit(EXIT_FAILURE);
 }
 #endif
 
-- 
2.43.0


From b3f61040ec2d66367e27228d149156e9c9746eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 37/46] fix: UART: do not spin if the UART was hung up

poll() returns at once then while read() has no data, forever.
---
 src/radarcape/uart.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 7b40940..e0dd2a7 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -119,18 +119,22 @@ size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
 	while (true) {
 		ssize_t rc = read(fd, buf, bufLen);
 		if (unlikely(rc == -1)) {
-			if (errno == EAGAIN) {
-				poll(&fds, 1, -1);
-			} else {
+			if (errno != EAGAIN) {
 				LOG_errno(LOG_LEVEL_WARN, PFX, "Could not read from UART");
 				closeUart();
 				return 0;
 			}
-		} else if (unlikely(rc == 0)) {
-			poll(&fds, 1, -1);
-		} else {
+		} else if (likely(rc != 0)) {
 			return rc;
 		}
+
+		/* wait for data */
+		if (poll(&fds, 1, -1) == 1 &&
+			(fds.revents & (POLLERR | POLLHUP | POLLNVAL))) {
+			LOG_log(LOG_LEVEL_WARN, PFX, "UART failed");
+			closeUart();
+			return 0;
+		}
 	}
 }
 
-- 
2.43.0


From 146098e899858a3686e3670b622dd75ee663b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 38/46] fix: TRIMBLE: do not spin if the UART was hung up

poll() returns at once then while read() has no data, forever.
---
 src/trimble/trimble_input_uart.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/trimble/trimble_input_uart.c b/src/trimble/trimble_input_uart.c
index feb36b8..dc65bd4 100644
--- a/src/trimble/trimble_input_uart.c
+++ b/src/trimble/trimble_input_uart.c
@@ -139,18 +139,22 @@ size_t TRIMBLE_INPUT_read(uint8_t * buf, size_t bufLen)
 	while (true) {
 		ssize_t rc = read(fd, buf, bufLen);
 		if (unlikely(rc == -1)) {
-			if (errno == EAGAIN) {
-				poll(&fds, 1, -1);
-			} else {
+			if (errno != EAGAIN) {
 				LOG_errno(LOG_LEVEL_WARN, PFX, "Could not read from UART");
 				closeUart();
 				return 0;
 			}
-		} else if (unlikely(rc == 0)) {
-			poll(&fds, 1, -1);
-		} else {
+		} else if (likely(rc != 0)) {
 			return rc;
 		}
+
+		/* wait for data */
+		if (poll(&fds, 1, -1) == 1 &&
+			(fds.revents & (POLLERR | POLLHUP | POLLNVAL))) {
+			LOG_log(LOG_LEVEL_WARN, PFX, "UART failed");
+			closeUart();
+			return 0;
+		}
 	}
 }
 
-- 
2.43.0


From a8ea4df4feacab883c4fbbfadc3137cb8dbf4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 39/46] fix: INPUT: pause if the receiver could not be
 configured

It was reconnected and configured in a busy loop.
---
 src/radarcape/rc-parser.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/radarcape/rc-parser.c b/src/radarcape/rc-parser.c
index d881574..5def30d 100644
--- a/src/radarcape/rc-parser.c
+++ b/src/radarcape/rc-parser.c
@@ -28,6 +28,11 @@ _Static_assert((int)BEAST_TYPE_MODE_AC == (int)OPENSKY_FRAME_TYPE_MODE_AC &&
 	(int)BEAST_TYPE_STATUS == (int)OPENSKY_FRAME_TYPE_STATUS,
 	"Message type mismatch");
 
+#ifdef INPUT_RADARCAPE_UART
+/** Interval in seconds between two attempts to configure the receiver */
+#define RECONNECT_INTERVAL 10
+#endif
+
 /** Component: Prefix */
 static const char PFX[] = "RC";
 
@@ -205,6 +210,12 @@ void INPUT_connect()
 		/* configure input */
 		if (configure())
 			break;
+
+#ifdef INPUT_RADARCAPE_UART
+		/* do not try again at once */
+		RC_INPUT_disconnect();
+		sleepCancelable(RECONNECT_INTERVAL);
+#endif
 	}
 
 	/* reset buffer */
-- 
2.43.0


From ecf10eaf48c0f8680c8b5e38f5357b9ec432f95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 40/46] fix: TRIMBLE: pause if the receiver could not be
 configured

It was reconnected and configured in a busy loop.
---
 src/trimble/trimble_parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trimble/trimble_parser.c b/src/trimble/trimble_parser.c
index 01bbcc6..3824728 100644
--- a/src/trimble/trimble_parser.c
+++ b/src/trimble/trimble_parser.c
@@ -8,6 +8,7 @@
 #include <string.h>
 #include <stdbool.h>
 #include <stdio.h>
+#include <unistd.h>
 #include "trimble_parser.h"
 #include "trimble_input.h"
 #include "util/log.h"
@@ -17,6 +18,9 @@
 /** Component: Prefix */
 static const char PFX[] = "TRIMBLE";
 
+/** Interval in seconds between two attempts to configure the receiver */
+#define RECONNECT_INTERVAL 10
+
 #define BOM 0x10
 #define EOM 0x03
 
@@ -69,6 +73,10 @@ void TRIMBLE_PARSER_connect()
 		/* configure input */
 		if (configure())
 			break;
+
+		/* do not try again at once */
+		TRIMBLE_INPUT_disconnect();
+		sleepCancelable(RECONNECT_INTERVAL);
 	}
 
 	/* reset buffer */
-- 
2.43.0


From 4eef7e44c70b360355d2704d4d008cb8d42f0070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 41/46] fix: BUF: do not accept GCInterval=0

The garbage collector ran in a busy loop.
---
 src/core/buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index de15a3e..de72f8f 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -197,6 +197,11 @@ static void cfgFix(const struct CFG_Section * sect)
 		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.GCLevel was increased to 1");
 	}
 
+	if (cfg.gcInterval < 1) {
+		cfg.gcInterval = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.GCInterval was increased to 1");
+	}
+
 	if (cfg.gc && !cfg.history) {
 		cfg.gc = false;
 		LOG_log(LOG_LEVEL_WARN, PFX, "Ignoring BUFFER.GC because "
-- 
2.43.0


From 32ffafd090fd953eb97673fac2ae6baef2faf16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 42/46] fix: RELAY: do not accept Timeout=0

Keep-alives were sent in a busy loop.
---
 src/core/relay.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/core/relay.c b/src/core/relay.c
index 515440f..8b15d9b 100644
--- a/src/core/relay.c
+++ b/src/core/relay.c
@@ -3,6 +3,7 @@
 #ifdef HAVE_CONFIG_H
 #include <config.h>
 #endif
+#include <assert.h>
 #include <stdbool.h>
 #include "relay.h"
 #include "openskytypes.h"
@@ -11,18 +12,24 @@
 #include "login.h"
 #include "beast.h"
 #include "util/cfgfile.h"
+#include "util/log.h"
 #include "util/threads.h"
 #include "util/util.h"
 
+/** Component: Prefix */
+static const char PFX[] = "RELAY";
+
 /** Configuration: timeout to wait for a new message in milliseconds.
  * This is also the keep-alive interval. */
 static uint32_t cfgTimeout;
 
 static void mainloop();
+static void cfgFix(const struct CFG_Section * sect);
 
 /** Configuration: Descriptor */
 static const struct CFG_Section cfg = {
 	.name = "NETWORK",
+	.fix = &cfgFix,
 	.n_opt = 1,
 	.options = {
 		{
@@ -42,6 +49,18 @@ const struct Component RELAY_comp = {
 	.dependencies = { &NET_comp, &BUF_comp, NULL }
 };
 
+/** Configuration: Fix configuration.
+ * @param sect configuration section, should be @cfg
+ */
+static void cfgFix(const struct CFG_Section * sect)
+{
+	assert(sect == &cfg);
+	if (cfgTimeout < 1) {
+		cfgTimeout = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "NETWORK.Timeout was increased to 1");
+	}
+}
+
 /** Cleanup routine: put a frame back into the queue upon cancellation
  * @param frame pointer to frame
  */
-- 
2.43.0


From bed7c15a43d90eee26fef3b61acfd08f1263032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 43/46] fix: STAT: do not accept Interval=0

Statistics were printed in a busy loop.
---
 src/util/statistics.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/util/statistics.c b/src/util/statistics.c
index da5770a..5e85b43 100644
--- a/src/util/statistics.c
+++ b/src/util/statistics.c
@@ -3,6 +3,7 @@
 #ifdef HAVE_CONFIG_H
 #include <config.h>
 #endif
+#include <assert.h>
 #include <stdbool.h>
 #include <inttypes.h>
 #include <stdio.h>
@@ -12,6 +13,7 @@
 #include <signal.h>
 #include "statistics.h"
 #include "cfgfile.h"
+#include "log.h"
 #include "threads.h"
 #include "core/buffer.h"
 #include "core/network.h"
@@ -34,8 +36,11 @@ static char startstr[26];
 static bool cfgEnabled;
 static uint32_t cfgInterval;
 
+static void cfgFix(const struct CFG_Section * sect);
+
 static const struct CFG_Section cfg = {
 	.name = "STATISTICS",
+	.fix = &cfgFix,
 	.n_opt = 2,
 	.options = {
 		{
@@ -67,6 +72,19 @@ const struct Component STAT_comp = {
 
 static void printStatistics(struct Snapshot * lastSnapshot);
 
+/** Configuration: Fix configuration.
+ * @param sect configuration section, should be @cfg
+ */
+static void cfgFix(const struct CFG_Section * sect)
+{
+	assert(sect == &cfg);
+	if (cfgInterval < 1) {
+		cfgInterval = 1;
+		LOG_log(LOG_LEVEL_WARN, "STAT",
+			"STATISTICS.Interval was increased to 1");
+	}
+}
+
 /** Initialize statistics.
  * \return always true
  */
-- 
2.43.0


From 3fb81ff9580b406a393c6cdf4b291a21b753fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:17 +0000
Subject: [PATCH 44/46] fix: store a serial number which is received after
 giving up

A serial number answered after SERIAL_getSerial() had given up (e.g. as
the connection was considered lost) was used for the next login, but it
was never written to the configuration. Hence, another serial number was
requested after a restart.
---
 src/dump1090/req-serial.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dump1090/req-serial.c b/src/dump1090/req-serial.c
index be27808..7aeb625 100644
--- a/src/dump1090/req-serial.c
+++ b/src/dump1090/req-serial.c
@@ -33,6 +33,8 @@ static bool sendSerialRequest();
 static pthread_mutex_t serialMutex = PTHREAD_MUTEX_INITIALIZER;
 /** Serial number condition for synchronization */
 static pthread_cond_t serialReqCond = PTHREAD_COND_INITIALIZER;
+/** Serial number was received, but not saved yet */
+static bool unsaved;
 
 /** Configuration: serial number given */
 static bool hasSerial;
@@ -119,12 +121,15 @@ enum SERIAL_RETURN SERIAL_getSerial(uint32_t * serial)
 
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Got a new serial number: %" PRId32,
 			(int32_t)serialNumber);
-
-		/* got a new serial number -> save it */
+	}
+	if (unsaved) {
+		/* got a new serial number (maybe after a previous call had given up)
+		 * -> save it */
 		if (!CFG_writeSection(LOCALSTATEDIR "/conf.d/05-serial.conf", &cfgDesc)) {
 			LOG_log(LOG_LEVEL_EMERG, PFX, "Could not write serial number, "
 				"refusing to work");
 		}
+		unsaved = false;
 	}
 	*serial = serialNumber;
 cleanup:
@@ -151,6 +156,7 @@ static void serialResponse(const uint8_t * payload)
 	pthread_mutex_lock(&serialMutex);
 	serialNumber = ENDEC_tou32(payload);
 	hasSerial = true;
+	unsaved = true;
 	pthread_cond_broadcast(&serialReqCond);
 	pthread_mutex_unlock(&serialMutex);
 }
-- 
2.43.0


From a900e6ac44677c6507f8ccc2ef14e2724268ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:14 +0000
Subject: [PATCH 45/46] fix: report a failure to save the configuration in the
 exit status

---
 src/radarcape/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index 4a96cb1..8fc5be0 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -145,10 +145,10 @@ int main(int argc, char * argv[])
 	if (savefile) {
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Writing configuration file '%s'",
 			savefile);
-		CFG_write(savefile);
+		const bool saved = CFG_write(savefile);
 		COMP_unregisterAll();
 		CFG_unregisterAll();
-		return EXIT_SUCCESS;
+		return saved ? EXIT_SUCCESS : EXIT_FAILURE;
 	}
 
 	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM)
-- 
2.43.0


From 2f02e32ec3bd803984da6f230f8b5bca8aa15634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:36 +0000
Subject: [PATCH 46/46] fix: do not accept values without a number as 0

---
 src/util/cfgfile.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index ebeec5d..387bc55 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -448,6 +448,10 @@ static inline bool parseInt(const char * value, size_t valLen, uint32_t * ret)
 	char * end;
 	errno = 0;
 	unsigned long int n = strtoul(buf, &end, 0);
+	if (end == buf) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
 	if (errno == ERANGE || n > UINT32_MAX) {
 		err(LOG_LEVEL_ERROR, "Number is out of range");
 		return false;
@@ -541,6 +545,10 @@ static inline bool parseDouble(const char * value, size_t valLen, double * ret)
 
 	char * end;
 	double d = strtod(buf, &end);
+	if (end == buf) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = d;
-- 
2.43.0

