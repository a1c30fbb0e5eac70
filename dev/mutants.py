M = []


def bug(name, checks, *edits):
    M.append(dict(kind='bug', name=name, checks=checks.split(), edits=edits))


def ref(name, checks, *edits):
    M.append(dict(kind='ref', name=name, checks=checks.split(), edits=edits))


N = 'core/network.c'
B = 'core/buffer.c'
bug('waitConnected-if', 'C02', (N, 'while (connState != CONN_STATE_CONNECTED)\n\t\tpthread', 'if (connState != CONN_STATE_CONNECTED)\n\t\tpthread'))
bug('emit-no-bcast', 'C02', (N, '''			*mysock = SOCK_INVALID;
			connState = CONN_STATE_DISCONNECTED;
			stats.onlineSecs += time(NULL) - onlineSince;
			pthread_cond_broadcast(&cond);''', '''			*mysock = SOCK_INVALID;
			connState = CONN_STATE_DISCONNECTED;
			stats.onlineSecs += time(NULL) - onlineSince;'''))
bug('connected-signal', 'C02', (N, 'pthread_cond_broadcast(&cond);\n\n\t\tonline', 'pthread_cond_signal(&cond);\n\n\t\tonline'))
bug('timeout-nocarry', 'C02', (B, 'if (ts.tv_nsec >= 1000000000) {', 'if (ts.tv_nsec > 1000000000) {'))
bug('commit-nosignal-ifnonempty', 'C02', (B, 'pthread_cond_broadcast(&cond);\n\n\tif (un', 'if (LIST_length(&queue) > 1)\n\t\tpthread_cond_broadcast(&cond);\n\n\tif (un'))
ref('commit-signal-after-unlock', 'C01 C02', (B, 'pthread_cond_broadcast(&cond);\n\n\tif (un', 'if (un'),
    (B, 'stats.maxQueueSize = LIST_length(&queue);\n\tpthread_mutex_unlock(&mutex);\n', 'stats.maxQueueSize = LIST_length(&queue);\n\tpthread_mutex_unlock(&mutex);\n\tpthread_cond_signal(&cond);\n'))
bug('getframe-nocleanup', 'C01', (B, 'CLEANUP_PUSH_LOCK(&mutex);\n\twhile (LIST_empty(&queue)) {\n\t\tint r = pthread_cond_wait', 'pthread_mutex_lock(&mutex);\n\twhile (LIST_empty(&queue)) {\n\t\tint r = pthread_cond_wait'),
    (B, 'LIST_shift(&queue), struct FrameLink, list);\n\tCLEANUP_POP();\n\treturn &cur', 'LIST_shift(&queue), struct FrameLink, list);\n\tpthread_mutex_unlock(&mutex);\n\treturn &cur'))
bug('send-plain-lock', 'C01', (N, 'CLEANUP_PUSH_LOCK(&sendMutex);\n\trc = trySend(buf, len);\n\tCLEANUP_POP();', 'pthread_mutex_lock(&sendMutex);\n\trc = trySend(buf, len);\n\tpthread_mutex_unlock(&sendMutex);'))
R = 'core/relay.c'
V = 'core/recv.c'
bug('buf-stats-unlocked', 'C03', (B, '\tpthread_mutex_lock(&mutex);\n\tmemset(&stats, 0, sizeof stats);\n\tpthread_mutex_unlock(&mutex);', '\tmemset(&stats, 0, sizeof stats);'))
bug('maxq-after-unlock', 'C03', (B, '\n\tif (unlikely(LIST_length(&queue) > stats.maxQueueSize))\n\t\tstats.maxQueueSize = LIST_length(&queue);\n\tpthread_mutex_unlock(&mutex);', '\tpthread_mutex_unlock(&mutex);\n\tif (unlikely(LIST_length(&queue) > stats.maxQueueSize))\n\t\tstats.maxQueueSize = LIST_length(&queue);'))
bug('gc-unlocked', 'C03', (B, 'void BUF_runGC()\n{\n\tpthread_mutex_lock(&mutex);\n\tgc();\n\tpthread_mutex_unlock(&mutex);', 'void BUF_runGC()\n{\n\tgc();'))
bug('get-takes-youngest', 'C05', (B, 'LIST_item(LIST_shift(&queue), struct FrameLink, list);\n\tret', 'LIST_item(LIST_pop(&queue), struct FrameLink, list);\n\tret'))
bug('put-at-end', 'C05', (B, 'LIST_unshift(&queue, LIST_link(currentFrame', 'LIST_push(&queue, LIST_link(currentFrame'))
bug('dynpools-off-by-one', 'C05', (B, 'LIST_length(&dynPools) < dynMaxPools', 'LIST_length(&dynPools) <= dynMaxPools'))
bug('sacrifice-before-create', 'C05', (B, 'ret = LIST_itemSafe(&queue, LIST_shift(&queue)', 'ret = LIST_itemSafe(&queue, LIST_pop(&queue)'))
bug('history-pools', 'C05', (B, 'cfg.history ? cfg.dynIncrement : 0', 'cfg.dynIncrement'))
bug('discard-uncounted', 'C05', (B, '\t\t++stats.discardedAll;\n', ''))
bug('uncollect-resets-not', 'C05', (B, '++stats.uncollectedPools;\n\t\tstats.discardedCur = 0;', '++stats.uncollectedPools;'))
bug('flush-inverted', 'C05', (B, 'if (!cfg.history)\n\t\tBUF_flush', 'if (cfg.history)\n\t\tBUF_flush'))
bug('flush-to-collect', 'C04', (B, 'LIST_concatenatePush(&pool, &queue);\n\t++stats.fl', 'LIST_init(&queue);\n\t++stats.fl'))
bug('abort-to-queue', 'C04', (B, 'LIST_unshift(&pool, LIST_link(newFrame', 'LIST_unshift(&queue, LIST_link(newFrame'))
bug('relay-put-and-release', 'C04', (R, 'if (likely(success))\n\t\t\t\t\tBUF_releaseFrame(frame);\n\t\t\t\telse\n', 'if (likely(success))\n\t\t\t\t\tBUF_releaseFrame(frame);\n'))
bug('relay-frame-not-nulled', 'C04', (R, '\t\t\t\tframe = NULL;\n', ''))
bug('relay-release-always', 'C06', (R, '\t\t\t\tif (likely(success))\n\t\t\t\t\tBUF_releaseFrame(frame);\n\t\t\t\telse\n\t\t\t\t\tBUF_putFrame(frame);', '\t\t\t\tBUF_releaseFrame(frame);'))
bug('relay-no-login-check', 'C06', (R, 'if (unlikely(!LOGIN_login()))\n\t\t\tcontinue;', 'LOGIN_login();'))
bug('relay-flush-before-wait', 'C06', (R, '\t\tBUF_flushUnlessHistoryEnabled();\n', ''))
bug('relay-keepalive-ignored', 'C06', (R, 'success = sendKeepalive();', 'sendKeepalive();\n\t\t\t\tsuccess = true;'))
bug('relay-short', 'C06', (R, 'NET_send(frame->raw, frame->rawLen)', 'NET_send(frame->raw, sizeof frame->raw)'))
bug('relay-nocleanup', 'C04', (R, 'CLEANUP_PUSH(&cleanup, &frame);', '{'), (R, 'CLEANUP_POP0();', '}'))
bug('recv-keepalive', 'C06', ('core/tb.c', 'NET_receive(', 'NET_send("x", 1); NET_receive('))
ref('relay-restructured', 'C04 C06', (R, '''			if (!frame) {
				/* timeout -> send keep-alive */
				success = sendKeepalive();
			} else {
				/* got a message -> send it */
				success = sendFrame(frame);
				if (likely(success))
					BUF_releaseFrame(frame);
				else
					BUF_putFrame(frame);
				frame = NULL;
			}
		} while(likely(success));''', '''			if (frame) {
				if (!NET_send(frame->raw, frame->rawLen)) {
					BUF_putFrame(frame);
					frame = NULL;
					break;
				}
				BUF_releaseFrame(frame);
				frame = NULL;
				continue;
			}
			if (!sendKeepalive())
				break;
		} while(true);'''), (R, 'bool success;\n', ''))
ref('buf-helper', 'C03 C04 C05', (B, '''	pthread_mutex_lock(&mutex);
	LIST_unshift(&pool, LIST_link(currentFrame, list));
	currentFrame = NULL;
	pthread_mutex_unlock(&mutex);
}
''', '''	giveBack(&pool);
}
'''), (B, 'static inline struct FrameLink * getFrameFromPool', '''static void giveBack(struct LIST_ListDC * where)
{
	pthread_mutex_lock(&mutex);
	LIST_unshift(where, LIST_link(currentFrame, list));
	currentFrame = NULL;
	pthread_mutex_unlock(&mutex);
}
static inline struct FrameLink * getFrameFromPool'''))
E_ = 'core/beast.c'
bug('enc-last-sync', 'C08', (E_, '*ptr = BEAST_SYNC;\n\t\t\treturn ptr + 1 - out;', 'return ptr - out;'))
bug('enc-search-from-sync', 'C08', (E_, 'memchr(in + 1, BEAST_SYNC, end - in - 1)', 'memchr(in + 2, BEAST_SYNC, end - in - 2)'))
bug('enc-search-short', 'C08', (E_, 'memchr(in + 1, BEAST_SYNC, end - in - 1)', 'memchr(in + 1, BEAST_SYNC, end - in - 2)'))
bug('enc-ptr', 'C08', (E_, 'ptr += sync + 1 - in;\n\t\t\tin = sync', 'ptr += sync - in;\n\t\t\tin = sync'))
ref('enc-byteloop', 'C08', (E_, '''	uint8_t * ptr = out;
	const uint8_t * end''', '''	size_t n = 0, k;
	for (k = 0; k != len; ++k) {
		out[n++] = in[k];
		if (in[k] == BEAST_SYNC)
			out[n++] = BEAST_SYNC;
	}
	return n;
	uint8_t * ptr = out;
	const uint8_t * end'''))
ref('enc-byteloop2', 'C08', (E_, '''	uint8_t * ptr = out;
	const uint8_t * end = in + len;''', '''	uint8_t * ptr = out;
	const uint8_t * end = in + len;
	while (in < end) {
		const uint8_t c = *in++;
		if (c == BEAST_SYNC)
			*ptr++ = c;
		*ptr++ = c;
	}
	return ptr - out;'''))
bug('gps-buf', 'C08', ('core/gps.c', '2 + 3 * 8 * 2', '2 + 3 * 8'))
bug('user-buf', 'C08', ('core/login.c', 'buf[2 + 2 * OPENSKY_MAX_USERNAME]', 'buf[2 + 2 * (OPENSKY_MAX_USERNAME - 1)]'))
bug('serial-len', 'C08', ('core/login.c', '	size_t len = 2 + BEAST_encode(buf + 2, ca, sizeof ca);', '	BEAST_encode(buf + 2, ca, sizeof ca);\n\tsize_t len = 2 + sizeof ca;'))
bug('lib-noenc', 'C08', ('radarcape/lib/opensky.cc', 'out->rawLen = BEAST_encode(out->raw + 2, msg, msgLen) + 2;', 'memcpy(out->raw + 2, msg, msgLen); out->rawLen = msgLen + 2;'))
bug('lib-ac-len', 'C08', ('radarcape/lib/opensky.cc', 'msgLen = 7 + 2', 'msgLen = 7 + 4'))
bug('raw-short', 'C08', ('core/openskytypes.h', 'raw[23 * 2]', 'raw[43]'))
bug('gplib-len-lost', 'C08', ('gplib/opensky.cc', 'len += BEAST_encode(out->raw + len, reinterpret_cast<std::uint8_t*>(&rssi)', 'len += 1; BEAST_encode(out->raw + len - 1, reinterpret_cast<std::uint8_t*>(&rssi)'))
ref('login-helper', 'C08 C07', ('core/login.c', '''	/* encode device type into message */
	uint8_t * ptr = buf + 2;
	uint8_t tmp[4 * 3];
	ENDEC_fromu32(deviceType, tmp);
	ptr += BEAST_encode(ptr, tmp, sizeof(uint32_t));
''', '''	uint8_t tmp[4 * 4];
	ENDEC_fromu32(deviceType, tmp);
'''), ('core/login.c', '''	ENDEC_fromu32(ver.major, tmp);
	ENDEC_fromu32(ver.minor, tmp + 4);
	ENDEC_fromu32(ver.release, tmp + 8);
	ptr += BEAST_encode(ptr, tmp, 3 * sizeof(uint32_t));
''', '''	ENDEC_fromu32(ver.major, tmp + 4);
	ENDEC_fromu32(ver.minor, tmp + 8);
	ENDEC_fromu32(ver.release, tmp + 12);
	size_t n = BEAST_encode(buf + 2, tmp, sizeof tmp) + 2;
'''), ('core/login.c', 'NET_send(buf, ptr - buf)', 'NET_send(buf, n)'))
L = 'core/login.c'
bug('login-order', 'C07', (L, 'sendDeviceId() && sendSerial() &&', 'sendSerial() && sendDeviceId() &&'))
bug('login-nonshort', 'C07', (L, 'sendDeviceId() && sendSerial() && GPS_sendPosition() &&', 'sendDeviceId() & sendSerial() && GPS_sendPosition() &&'))
bug('login-serial-after-temp', 'C07', (L, 'LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");', 'LOG_log(LOG_LEVEL_ERROR, PFX, "No serial number configured");'))
bug('login-ignores-user', 'C07', (L, 'GPS_sendPosition() &&\n\t\tsendUsername();', 'GPS_sendPosition();\n\tsendUsername();'))
bug('login-user-empty', 'C07', (L, 'if (!*user)\n\t\treturn true;', 'if (!*user || !user[1])\n\t\treturn true;'))
bug('login-type-le', 'C07', (L, 'ENDEC_fromu32(deviceType, tmp);', 'memcpy(tmp, &deviceType, 4);'))
bug('login-pos-order', 'C07', ('core/gps.c', 'ENDEC_fromdouble(position->latitude, (uint8_t*)&rawPos[0]);\n\tENDEC_fromdouble(position->longitute, (uint8_t*)&rawPos[1]);', 'ENDEC_fromdouble(position->latitude, (uint8_t*)&rawPos[1]);\n\tENDEC_fromdouble(position->longitute, (uint8_t*)&rawPos[0]);'))
bug('endec-u64', 'C07', ('util/endec.h', 'u = htobe64(u);', 'u = htobe64(u & ~0xffull << 32);'))
ref('login-steps', 'C07', (L, """	bool rc = sendDeviceId() && sendSerial() && GPS_sendPosition() &&
		sendUsername();
	if (!rc)
		LOG_log""", """	bool rc = true;
	unsigned i;
	for (i = 0; rc && i < 4; ++i) {
		switch (i) {
		case 0: rc = sendDeviceId(); break;
		case 1: rc = sendSerial(); break;
		case 2: rc = sendUsername(); break;
		case 3: rc = GPS_sendPosition(); break;
		}
	}
	if (!rc)
		LOG_log"""))
T = 'core/tb.c'
CF = 'util/cfgfile.c'
bug('tb-recv-size', 'C09', (T, '(sizeof buf) - bufLen);', 'sizeof buf);'))
bug('tb-type-range', 'C09', (T, 'if (packet->type >= n_processors || !processor->fn) {', 'if (packet->type > n_processors || !processor->fn) {'))
bug('tb-memmove', 'C09', (T, 'memmove(buf, buf + frame.len, bufLen);', 'memmove(buf, buf + frame.len, sizeof buf - 4);'))
bug('cfg-string-size', 'C09', (CF, 'if (valLen > sz - 1) {', 'if (valLen > sz) {'))
bug('cfg-int-size', 'C09', (CF, 'if (valLen + 1 > sizeof buf || valLen == 0) {\n\t\terr(LOG_LEVEL_ERROR, "Number expected");\n\t\treturn false;\n\t}\n\tstrncpy(buf, value, valLen);\n\tbuf[valLen] = \'\\0\';\n\n\tchar * end;\n\terrno', 'if (valLen > sizeof buf || valLen == 0) {\n\t\terr(LOG_LEVEL_ERROR, "Number expected");\n\t\treturn false;\n\t}\n\tstrncpy(buf, value, valLen);\n\tbuf[valLen] = \'\\0\';\n\n\tchar * end;\n\terrno'))
bug('cfg-dir-size', 'C09', (CF, 'if (flen >= len) {\n\t\t\tLOG_logf(LOG_LEVEL_ERROR, PFX, "Path \'%s/%s\' is too long", path,\n\t\t\t\tfname);\n\t\t\tif (stopOnFirstError)\n\t\t\t\tgoto ret;\n\t\t\tcontinue;\n\t\t}\n\t\tstrncpy(foffset, fname, len);', 'strncpy(foffset, fname, sizeof filename - 1);'))
bug('cfg-default-size', 'C09', (CF, '((char*)opt->var)[opt->maxlen - 1] = \'\\0\';\n\t\t} else', '((char*)opt->var)[opt->maxlen] = \'\\0\';\n\t\t} else'))
ref('tb-loop', 'C09 C10', (T, """				if (bufLen >= frame.len) {
					/* complete packet: process it */
					frame.payload = buf + 4;
					processPacket(&frame);
					/* and clear it from buffer */
					bufLen -= frame.len;
					if (bufLen)
						memmove(buf, buf + frame.len, bufLen);
				} else {
					/* packet incomplete: more data needed */
					break;
				}
""", """				/* packet incomplete: more data needed */
				if (frame.len > bufLen)
					break;

				/* complete packet: process it */
				frame.payload = &buf[4];
				processPacket(&frame);
				/* and clear it from buffer */
				const size_t rest = bufLen - frame.len;
				memmove(buf, buf + frame.len, rest);
				bufLen = rest;
"""))
ref('tb-helper', 'C09 C10', (T, """static void mainloop()
{""", """static bool isValid(const struct TB_Packet * packet)
{
	return packet->len >= 4 && packet->len <= 128;
}

static ssize_t fill(uint8_t * buf, size_t * bufLen, size_t size)
{
	ssize_t len = NET_receive(&buf[*bufLen], size - *bufLen);
	if (len > 0)
		*bufLen += len;
	return len;
}

static void mainloop()
{"""), (T, 'if (frame.len > 128 || frame.len < 4) {', 'if (!isValid(&frame)) {'), (T, """			ssize_t len = NET_receive(buf + bufLen, (sizeof buf) - bufLen);
			if (len <= 0) /* upon failure: wait for new connection */
				break;
			bufLen += len;
""", """			if (fill(buf, &bufLen, sizeof buf) <= 0)
				break;
"""))
ref('cfg-string', 'C09', (CF, """	if (valLen > sz - 1) {
		err(LOG_LEVEL_ERROR, "Value too long (max. length %" PRI_SIZE_T
			" expected)", sz - 1);
		return false;
	}
	memcpy(str, value, valLen);
	str[valLen] = '\\0';
	return true;
""", """	if (valLen < sz) {
		strncpy(str, value, valLen);
		str[valLen] = '\\0';
		return true;
	}
	err(LOG_LEVEL_ERROR, "Value too long (max. length %" PRI_SIZE_T
		" expected)", sz - 1);
	return false;
"""))
ref('cfg-int', 'C09', (CF, """	char buf[20];
	if (valLen + 1 > sizeof buf || valLen == 0) {
		err(LOG_LEVEL_ERROR, "Number expected");
		return false;
	}
	strncpy(buf, value, valLen);
	buf[valLen] = '\\0';

	char * end;
	errno""", """	char buf[20];
	if (!valLen || valLen >= sizeof buf) {
		err(LOG_LEVEL_ERROR, "Number expected");
		return false;
	}
	memset(buf, 0, sizeof buf);
	memcpy(buf, value, valLen);

	char * end;
	errno"""))

bug('tb-maxlen', 'C10', (T, 'if (frame.len > 128 || frame.len < 4) {', 'if (frame.len > 256 || frame.len < 4) {'))
bug('tb-minlen', 'C10', (T, 'if (frame.len > 128 || frame.len < 4) {', 'if (frame.len > 128 || frame.len < 1) {'))
bug('tb-noreset', 'C10', (T, "\tsize_t bufLen;\n", "\tsize_t bufLen = 0;\n"), (T, "		/* new connection, reset buffer */\n		bufLen = 0;\n", ""))
bug('tb-nomove', 'C10', (T, "					if (bufLen)\n						memmove(buf, buf + frame.len, bufLen);", "					if (bufLen >= 4)\n						memmove(buf, buf + frame.len, bufLen);"))
bug('tb-header-payload', 'C10', (T, 'frame.payload = buf + 4;', 'frame.payload = buf + 2;'))
bug('tb-little', 'C10', (T, 'frame.len = be16toh(buf16[1]);', 'frame.len = buf[3];'))
bug('tb-once', 'C10', (T, 'while (bufLen >= 4) {', 'if (bufLen >= 4) {'), (T, "					bufLen = 0;\n					break;", "					bufLen = 0;\n					continue;"),
    (T, "					/* packet incomplete: more data needed */\n					break;", "					;"))
bug('tb-payload-ge', 'C10', (T, 'if (payloadLen != processor->payloadLen) {', 'if (payloadLen < processor->payloadLen) {'))
bug('tb-incomplete', 'C10', (T, 'if (bufLen >= frame.len) {', 'if (bufLen + 1 >= frame.len) {'))
bug('tb-fail-continue', 'C10', (T, "			if (len <= 0) /* upon failure: wait for new connection */\n				break;", "			if (len < 0) /* upon failure: wait for new connection */\n				break;"))
bug('tb-filter-mask', 'C10', (T, 'if (mask & FILT_EXT_SQUITTER_ONLY) {', 'if (mask & (FILT_EXT_SQUITTER_ONLY | FILT_SYNC_ONLY)) {'))
bug('tb-filter-bool', 'C10', (T, 'FILTER_setModeSExtSquitter(!!(cfg & FILT_EXT_SQUITTER_ONLY));', 'FILTER_setModeSExtSquitter(cfg & FILT_EXT_SQUITTER_ONLY & mask >> 1);'))
bug('tb-filter-else', 'C10', (T, "	if (mask & FILT_RESET_SYNC)", "	else if (mask & FILT_RESET_SYNC)"))
bug('tb-type0', 'C10', (T, 'if (packet->type >= n_processors || !processor->fn) {', 'if (packet->type >= n_processors || !packet->type || !processor->fn) {'))
ref('tb-filter-shift', 'C10', (T, """	if (mask & FILT_SYNC_ONLY) {
		LOG_logf(LOG_LEVEL_INFO, PFX, "Setting sync filter: %d",
					!!(cfg & FILT_SYNC_ONLY));
		FILTER_setSynchronizedFilter(!!(cfg & FILT_SYNC_ONLY));
	}""", """	bool sync = (cfg & FILT_SYNC_ONLY) == FILT_SYNC_ONLY;
	if ((mask << 7) & 0x80) {
		LOG_logf(LOG_LEVEL_INFO, PFX, "Setting sync filter: %d", sync);
		FILTER_setSynchronizedFilter(sync);
	}"""))
ref('tb-process-early', 'C10', (T, """	const struct PacketProcessor * processor = &processors[packet->type];

	if (packet->type >= n_processors || !processor->fn) {""", """	if (packet->type >= n_processors || !processors[packet->type].fn) {"""),
    (T, """	} else {
		size_t payloadLen = packet->len - 4;
		if (payloadLen != processor->payloadLen) {""", """	}
	{
		const struct PacketProcessor * processor = &processors[packet->type];
		const size_t payloadLen = packet->len - 4;
		if (processor->payloadLen + 4 != packet->len) {"""))
ref('tb-bytes', 'C10', (T, 'frame.type = be16toh(buf16[0]);', 'frame.type = buf[0] * 256 + buf[1];'), (T, 'frame.len = be16toh(buf16[1]);', 'frame.len = (buf[2] << 8) | buf[3];'),
    (T, "uint16_t * buf16 = (uint16_t*)buf;\n", ""))

bug('send-len', 'C11', (N, 'SOCK_sendCancelable(sendsock, ptr, end - ptr, 0)', 'SOCK_sendCancelable(sendsock, ptr, len, 0)'))
bug('send-partial', 'C11', (N, '} while (ptr != end);', '} while (ptr == buf);'))
bug('send-resend', 'C11', (N, '\t\tptr += rc;\n\t} while', '\t\tptr = (const char *)buf + rc;\n\t} while'))
bug('send-chunk-lock', 'C11', (N, '	do {\n		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);', '	do {\n		ssize_t rc;\n		CLEANUP_PUSH_LOCK(&sendMutex);\n		rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);\n		CLEANUP_POP();'),
    (N, '	CLEANUP_PUSH_LOCK(&sendMutex);\n	rc = trySend(buf, len);\n	CLEANUP_POP();', '	rc = trySend(buf, len);'))
bug('send-retry', 'C11', (N, '			emitDisconnect(EMIT_BY_SEND);\n			return false;\n		}\n		ptr', '			if (emitDisconnect(EMIT_BY_SEND) == ACTION_RETRY)\n				continue;\n			return false;\n		}\n		ptr'))
bug('send-fail-true', 'C11', (N, '		if (rc <= 0) {\n			/* report', '		if (rc == 0)\n			break;\n		if (rc <= 0) {\n			/* report'))
bug('recv-len', 'C11', (N, '		stats.bytesReceived += rc;\n		return rc;', '		stats.bytesReceived += rc;\n		return len;'))
bug('recv-retry', 'C11', (N, '	emitDisconnect(EMIT_BY_RECV);\n	return 0;', '	if (emitDisconnect(EMIT_BY_RECV) == ACTION_RETRY)\n		return NET_receive(buf, len);\n	return 0;'))
ref('send-while', 'C11 C12', (N, """	const char * ptr = buf;
	const char * end = ptr + len;

	do {
		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
		if (rc <= 0) {""", """	const uint8_t * ptr = buf;
	size_t left = len;

	while (left > 0) {
		const ssize_t rc = SOCK_sendCancelable(sendsock, ptr, left, 0);
		const bool ok = rc > 0;
		if (!ok) {"""), (N, """		ptr += rc;
	} while (ptr != end);""", """		left -= rc;
		ptr += rc;
	}"""))
ref('send-idx', 'C11 C12', (N, """	const char * ptr = buf;
	const char * end = ptr + len;

	do {
		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);""", """	const char * const ptr = buf;
	size_t done = 0;

	do {
		ssize_t rc = SOCK_sendCancelable(sendsock, &ptr[done], len - done, 0);"""), (N, """		ptr += rc;
	} while (ptr != end);""", """		done += (size_t)rc;
	} while (done < len);"""))
bug('net-noshutdown', 'C12', (N, '			logDisconnect();\n			SOCK_shutdown(*mysock, SHUT_RDWR);\n			*mysock = SOCK_INVALID;\n			transState', '			logDisconnect();\n			*mysock = SOCK_INVALID;\n			transState'))
bug('net-leak', 'C12', (N, '			SOCK_shutdown(*mysock, SHUT_RDWR);\n			SOCK_close(*mysock);\n			*mysock = SOCK_INVALID;\n			connState', '			SOCK_shutdown(*mysock, SHUT_RDWR);\n			*mysock = SOCK_INVALID;\n			connState'))
bug('net-follower', 'C12', (N, '			SOCK_close(*mysock);\n			*mysock = othsock;\n			transState = TRANSIT_NONE;', '			SOCK_close(*mysock);\n			*mysock = othsock;'))
bug('net-follower2', 'C12', (N, '		SOCK_close(*mysock);\n		*mysock = SOCK_INVALID;\n		transState = TRANSIT_NONE;', '		*mysock = SOCK_INVALID;\n		transState = TRANSIT_NONE;'))
bug('net-check', 'C12', (N, 'bool emit = connState != CONN_STATE_CONNECTED ||\n		transState == TRANSIT_SEND;', 'bool emit = connState != CONN_STATE_CONNECTED;'))
bug('net-check2', 'C12', (N, 'transState == TRANSIT_SEND;', 'transState != TRANSIT_NONE;'))
bug('net-assign', 'C12', (N, '		case TRANSIT_RECV:\n			sendsock = sock;\n			break;\n		case TRANSIT_SEND:\n			recvsock = sock;', '		case TRANSIT_RECV:\n			recvsock = sock;\n			break;\n		case TRANSIT_SEND:\n			sendsock = sock;'))
bug('net-by', 'C12', (N, '	emitDisconnect(EMIT_BY_RECV);\n	return 0;', '	emitDisconnect(EMIT_BY_SEND);\n	return 0;'))
bug('net-early-close', 'C12', (N, '			SOCK_shutdown(*mysock, SHUT_RDWR);\n			*mysock = SOCK_INVALID;\n			transState', '			SOCK_shutdown(*mysock, SHUT_RDWR);\n			SOCK_close(*mysock);\n			*mysock = SOCK_INVALID;\n			transState'))
bug('net-shutdown-wr', 'C12', (N, '			SOCK_shutdown(*mysock, SHUT_RDWR);\n			*mysock = SOCK_INVALID;\n			transState', '			SOCK_shutdown(*mysock, SHUT_WR);\n			*mysock = SOCK_INVALID;\n			transState'))
bug('net-cleanup-double', 'C12', (N, '		case TRANSIT_NONE:\n		case TRANSIT_SEND:\n			SOCK_shutdown(recvsock', '		case TRANSIT_NONE:\n			SOCK_close(sendsock);\n		case TRANSIT_SEND:\n			SOCK_shutdown(recvsock'))
bug('net-trans-keep', 'C12', (N, '			*mysock = SOCK_INVALID;\n			transState = (enum TRANSIT_STATE)by;\n', '			*mysock = SOCK_INVALID;\n			if (by == EMIT_BY_SEND)\n				transState = (enum TRANSIT_STATE)by;\n'))
ref('net-helper', 'C12 C02 C03', (N, """static enum ACTION emitDisconnect(enum EMIT_BY by)
{""", """static void lost(sock_t * sock, bool alone)
{
	logDisconnect();
	SOCK_shutdown(*sock, SHUT_RDWR);
	if (alone)
		SOCK_close(*sock);
	*sock = SOCK_INVALID;
	connState = CONN_STATE_DISCONNECTED;
	stats.onlineSecs += time(NULL) - onlineSince;
	pthread_cond_broadcast(&cond);
}

static enum ACTION emitDisconnect(enum EMIT_BY by)
{"""), (N, """			logDisconnect();
			SOCK_shutdown(*mysock, SHUT_RDWR);
			*mysock = SOCK_INVALID;
			transState = (enum TRANSIT_STATE)by;
			connState = CONN_STATE_DISCONNECTED;
			stats.onlineSecs += time(NULL) - onlineSince;
			pthread_cond_broadcast(&cond);
""", """			lost(mysock, false);
			transState = (enum TRANSIT_STATE)by;
"""), (N, """			logDisconnect();
			SOCK_shutdown(*mysock, SHUT_RDWR);
			SOCK_close(*mysock);
			*mysock = SOCK_INVALID;
			connState = CONN_STATE_DISCONNECTED;
			stats.onlineSecs += time(NULL) - onlineSince;
			pthread_cond_broadcast(&cond);
""", """			lost(mysock, true);
"""))
ref('net-switch', 'C12', (N, """		switch (transState) {
		case TRANSIT_NONE:
			recvsock = sendsock = sock;
			break;
		case TRANSIT_RECV:
			sendsock = sock;
			break;
		case TRANSIT_SEND:
			recvsock = sock;
			break;
		}
""", """		if (transState != TRANSIT_RECV)
			recvsock = sock;
		if (transState != TRANSIT_SEND)
			sendsock = sock;
"""), (N, """	if (emit) {
		emitDisconnect(EMIT_BY_SEND);
		return false;
	} else {
		return true;
	}""", """	if (!emit)
		return true;
	emitDisconnect(EMIT_BY_SEND);
	return false;"""))

# --- C13
RP = 'radarcape/rc-parser.c'
bug('rc-peek-empty', 'C13', (RP, """			if (unlikely(bufCur == bufEnd && !discardAndFill()))
				return DECODE_STATUS_CONNFAIL;
			if (likely(*bufCur == BEAST_SYNC)) {""", """			if (likely(bufCur == bufEnd || *bufCur == BEAST_SYNC)) {
				if (unlikely(bufCur == bufEnd && !discardAndFill()))
					return DECODE_STATUS_CONNFAIL;"""))
ref('rc-resync-skip', 'C13', (RP, """				/* next symbol is an escaped SYNC -> discard it and try again */
				++bufCur;
				if (bufCur != bufEnd)
					goto redo;""", """				/* next symbol is an escaped SYNC -> discard it and try again */
				if (++bufCur != bufEnd)
					goto redo;
				bufCur = buf;"""))
ref('rc-resync-noesc', 'C13', (RP, """			if (unlikely(*bufCur == BEAST_SYNC)) {
				/* next symbol is an escaped SYNC -> discard it and try again */
				++bufCur;
				if (bufCur != bufEnd)
					goto redo;
			} else {
				return true;
			}""", """			return true;"""))
bug('rc-rawlen', 'C13', (RP, """				*rawPtr++ = BEAST_SYNC;
				++raw->rawLen;
""", """				*rawPtr++ = BEAST_SYNC;
				if (bufCur != buf)
					++raw->rawLen;
"""))
bug('rc-rawptr', 'C13', (RP, """			if (unlikely(!discardAndFill()))
				return DECODE_STATUS_CONNFAIL;
		}
		/* search""", """			if (unlikely(!discardAndFill()))
				return DECODE_STATUS_CONNFAIL;
			rawPtr = raw->raw + 2;
		}
		/* search"""))
bug('rc-mlen', 'C13', (RP, "size_t mlen = rbuf <= len ? rbuf : len;", "size_t mlen = rbuf < len ? rbuf : len + (rbuf > len + 8);"))
bug('rc-no-reset', 'C13', (RP, """	/* reset buffer */
	bufCur = buf;
	bufEnd = bufCur;""", """	/* reset buffer */
	if (!bufCur)
		bufEnd = bufCur = buf;"""))
bug('rc-resync-next', 'C13', (RP, """		rs = decode(decoded->payload, payload_len, raw);
		if (unlikely(rs == DECODE_STATUS_RESYNC)) {
			++stats.outOfSync;
			goto decode_frame;""", """		rs = decode(decoded->payload, payload_len, raw);
		if (unlikely(rs == DECODE_STATUS_RESYNC)) {
			++stats.outOfSync;
			goto synchronize;"""))
bug('rc-len', 'C13', (RP, """	case BEAST_TYPE_STATUS: /* status frame */
			payload_len = 14;""".replace('\tcase', '\tcase', 1), """	case BEAST_TYPE_STATUS: /* status frame */
			payload_len = 13;"""))
bug('rc-mlat', 'C13', (RP, "be64toh(hdr.u64) >> 16", "be64toh(hdr.u64) >> 8"))
bug('rc-connfail', 'C13', (RP, """		} else if (unlikely(rs == DECODE_STATUS_CONNFAIL))
			return false;

		return true;""", """		}

		return true;"""))
bug('rc-refill', 'C13', (RP, "		if (likely(bufCur < bufEnd)) {\n			*ch = *bufCur++;", "		if (likely(bufCur < bufEnd)) {\n			*ch = *bufCur++;\n			if (*ch == BEAST_SYNC && bufCur < bufEnd && *bufCur == BEAST_SYNC && bufCur + 2 < bufEnd)\n				++bufCur;"))
ref('rc-bytes', 'C13', (RP, """			/* no SYNC found: copy up to buffer length */
			memcpy(dst, bufCur, mlen);
			memcpy(rawPtr, bufCur, mlen);
			rawPtr += mlen;
			raw->rawLen += mlen;
			dst += mlen;
			bufCur += mlen;
			len -= mlen;""", """			raw->rawLen += mlen;
			len -= mlen;
			for (; mlen; --mlen)
				*dst++ = *rawPtr++ = *bufCur++;"""))
ref('rc-noptr', 'C13', (RP, """				*dst++ = BEAST_SYNC;
				*rawPtr++ = BEAST_SYNC;
				++raw->rawLen;
				--len;
				++bufCur;""", """				raw->raw[raw->rawLen++] = *bufCur;
				rawPtr = &raw->raw[raw->rawLen];
				*dst = *bufCur++;
				++dst;
				--len;"""))
ref('rc-loop', 'C13', (RP, """		size_t mlen = rbuf <= len ? rbuf : len;
		uint8_t * sync = memchr(bufCur, BEAST_SYNC, mlen);""", """		size_t mlen = rbuf <= len ? rbuf : len;
		uint8_t * sync = NULL;
		size_t k;
		for (k = 0; k < mlen && !sync; ++k)
			if (bufCur[k] == BEAST_SYNC)
				sync = bufCur + k;"""))
ref('rc-next', 'C13', (RP, """	do {
		if (likely(bufCur < bufEnd)) {
			*ch = *bufCur++;
			return true;
		}
	} while (likely(discardAndFill()));
	return false;""", """	if (bufCur >= bufEnd && !discardAndFill())
		return false;
	*ch = *bufCur;
	bufCur++;
	return true;"""))
ref('rc-order', 'C13', (RP, """		decoded->frameType = type;
		decoded->payloadLen = payload_len;
		raw->raw[1] = type;
		raw->rawLen = 2;
""", """		raw->rawLen = 0;
		raw->raw[raw->rawLen++] = BEAST_SYNC;
		raw->raw[raw->rawLen++] = type;
"""), (RP, """			return false;

		return true;
	}
}
""", """			return false;

		decoded->frameType = (enum OPENSKY_FRAME_TYPE)type;
		decoded->payloadLen = payload_len;
		return true;
	}
}
"""))
bug('rc-resync-half', 'C13', (RP, '''				++bufCur;
				if (bufCur != bufEnd)
					goto redo;''', '''				goto redo;'''))
bug('rc-resync-peek', 'C13', (RP, '''			/* peek next */
			if (unlikely(bufCur == bufEnd)) {
				/* we have to receive more data to peek */
				if (unlikely(!discardAndFill()))
					return false;
			}
''', '''			/* peek next */
			if (unlikely(bufCur == bufEnd))
				continue;
'''))

# --- C14
TP = 'trimble/trimble_parser.c'
bug('tp-bomtype', 'C14', (TP, "*buf == EOM || *buf == BOM", "*buf == EOM"))
bug('tp-len', 'C14', (TP, "			return len + 1;", "			return len ? len + 1 : bufLen;"))
bug('tp-escape-full', 'C14', (TP, """				if (unlikely(!dstLen))
					break;
				*dst++ = BOM;
				--dstLen;""", """				if (unlikely(dstLen < 2))
					break;
				*dst++ = BOM;
				dstLen -= 2;"""))
bug('tp-peek-lost', 'C14', (TP, """				/* synchronization failure */
				return DECODE_STATUS_RESYNC;""", """				/* synchronization failure */
				++bufCur;
				return DECODE_STATUS_RESYNC;"""))
bug('tp-full', 'C14', (TP, """			case DECODE_STATUS_BUFFER_FULL:
				goto synchronize;""", """			case DECODE_STATUS_BUFFER_FULL:
				goto decode_frame;"""))
bug('tp-sync-eom', 'C14', (TP, "*bufCur == BOM || *bufCur == EOM)", "*bufCur == EOM)"), (TP, "*buf == EOM || *buf == BOM", "*buf == EOM"))
bug('tp-reconnect', 'C14', (TP, """	/* reset buffer */
	bufCur = buf;
	bufEnd = bufCur;""", """	/* reset buffer */
	bufEnd = buf;"""))
bug('tp-eof', 'C14', (TP, """	size_t rc = TRIMBLE_INPUT_read(buf, sizeof buf);
	if (unlikely(rc == 0)) {
		return false;""", """	size_t rc = TRIMBLE_INPUT_read(buf, sizeof buf);
	if (unlikely(rc == 0)) {
		bufCur = bufEnd - 1;
		return bufEnd != buf;"""))
ref('tp-switch', 'C14', (TP, """			switch (rs) {
			case DECODE_STATUS_RESYNC:
				goto decode_frame;
			case DECODE_STATUS_CONNFAIL:
				return 0;
			case DECODE_STATUS_BUFFER_FULL:
				goto synchronize;
			default:
				assert(false);
			}""", """			if (rs == DECODE_STATUS_CONNFAIL)
				return 0;
			if (rs == DECODE_STATUS_BUFFER_FULL)
				goto synchronize;
			goto decode_frame;"""))
ref('tp-bytes', 'C14', (TP, """			memcpy(dst, bufCur, mlen);
			dst += mlen;
			bufCur += mlen;
			dstLen -= mlen;""", """			dstLen -= mlen;
			while (mlen-- > 0)
				*dst++ = *bufCur++;"""))
ref('tp-sync', 'C14', (TP, """	do {
		uint8_t * bom;
redo:
		bom = memchr(bufCur, BOM, bufEnd - bufCur);
		if (likely(bom)) {
			/* found BOM, discard everything including the BOM */
			bufCur = bom + 1;

			/* peek next */
			if (unlikely(bufCur == bufEnd)) {
				/* we have to receive more data to peek */
				if (unlikely(!discardAndFill()))
					return false;
			}

			if (unlikely(*bufCur == BOM || *bufCur == EOM)) {
				/* next symbol is an escaped BOM or an EOM
				 * -> discard both and try again */
				++bufCur;
				if (bufCur != bufEnd)
					goto redo;
			} else {
				return true;
			}
		}
	} while (likely(discardAndFill()));
	return false;""", """	uint8_t ch;
	while (next(&ch)) {
		if (ch != BOM)
			continue;
		if (bufCur == bufEnd && !discardAndFill())
			return false;
		if (*bufCur != BOM && *bufCur != EOM)
			return true;
		++bufCur;
	}
	return false;"""))

GP = 'core/gps.c'
bug('gp-reset-need', 'C15', (GP, """	hasPosition = false;
	hasFix = false;
""", """	needPosition = false;
	hasPosition = false;
	hasFix = false;
"""))
bug('gp-nofix-forgot', 'C15', (GP, """have no fix -> deferring");
		needPosition = true;""", """have no fix -> deferring");"""))
bug('gp-fail-forgot', 'C15', (GP, """			needPosition = !sendPosition(&position);
""", """			sendPosition(&position);
			needPosition = false;
"""))
bug('gp-result', 'C15', (GP, """		return sendPosition(&pos);""", """		sendPosition(&pos);
		return true;"""))
bug('gp-latlon', 'C15', (GP, """ENDEC_fromdouble(position->longitute,""", """ENDEC_fromdouble(position->latitude,"""))
bug('gp-nofix-set', 'C15', (GP, """	hasPosition = true;

	sendPositionIfAvail();""", """	hasPosition = hasFix = true;

	sendPositionIfAvail();"""))
bug('gp-alt-late', 'C15', (GP, """	position.altitude = altitude;

	hasPosition = true;

	sendPositionIfAvail();
""", """	hasPosition = true;

	sendPositionIfAvail();
	position.altitude = altitude;
"""))
bug('gp-once', 'C15', (GP, """void GPS_setHasFix(bool fix) {
	CLEANUP_PUSH_LOCK(&posMutex);

	hasFix = fix;

	sendPositionIfAvail();
""", """void GPS_setHasFix(bool fix) {
	CLEANUP_PUSH_LOCK(&posMutex);

	hasFix = fix;
"""))
bug('gp-unasked', 'C15', (GP, """	hasFix = fix;

	sendPositionIfAvail();
""", """	if (fix && !hasFix)
		needPosition = true;
	hasFix = fix;

	sendPositionIfAvail();
"""))
ref('gp-merge', 'C15', (GP, """	if (!hasPosition) {
		LOG_log(LOG_LEVEL_INFO, PFX, "Should send position, but have none -> deferring");
		needPosition = true;
		pthread_mutex_unlock(&posMutex);
		return true;
	} else if (!hasFix) {
		LOG_log(LOG_LEVEL_INFO, PFX, "Should send position, but have no fix -> deferring");
		needPosition = true;
		pthread_mutex_unlock(&posMutex);
		return true;
	} else {
		/* we have a position: copy it and send it (without the mutex) */
		memcpy(&pos, &position, sizeof pos);
		pthread_mutex_unlock(&posMutex);

		return sendPosition(&pos);
	}""", """	const bool avail = hasPosition && hasFix;
	if (avail)
		pos = position;
	else
		needPosition = true;
	pthread_mutex_unlock(&posMutex);
	if (!avail)
		LOG_log(LOG_LEVEL_INFO, PFX, "Should send position, but can not -> deferring");
	return !avail || sendPosition(&pos);"""))
ref('gp-clear', 'C15', (GP, """		memcpy(&pos, &position, sizeof pos);
""", """		memcpy(&pos, &position, sizeof pos);
		needPosition = false;
"""), (GP, """	if (needPosition) {
		if (!hasPosition) {""", """	if (!needPosition)
		return;
	{
		if (!hasPosition) {"""))
TR = 'trimble/trimble_recv.c'
bug('tr-testmode', 'C16', (TR, """	bool inTestMode = !!(minorAlarms & TRIMBLE_GPS_MIN_ALARM_IN_TEST_MODE);""", """	uint8_t inTestMode = minorAlarms & TRIMBLE_GPS_MIN_ALARM_IN_TEST_MODE;"""))
bug('tr-crit8', 'C16', (TR, "uint16_t critAlarms = ENDEC_tou16(buf + 8)", "uint8_t critAlarms = ENDEC_tou16(buf + 8)"))
bug('tr-lonlat', 'C16', (TR, "ENDEC_todouble(buf + 44)", "ENDEC_todouble(buf + 36)"))
bug('tr-nodeg', 'C16', (TR, "ENDEC_todouble(buf + 44) * R2D", "ENDEC_todouble(buf + 44)"))
bug('tr-altdeg', 'C16', (TR, "ENDEC_todouble(buf + 52)", "ENDEC_todouble(buf + 52) * R2D"))
bug('tr-len', 'C16', (TR, "if (len == 69)", "if (len >= 68)"))
bug('tr-survey', 'C16', (TR, "TRIMBLE_GPS_MIN_ALARM_SURVEY_IN_PROGRESS = 1 << 5", "TRIMBLE_GPS_MIN_ALARM_SURVEY_IN_PROGRESS = 1 << 4"))
bug('tr-mode', 'C16', (TR, "recvMode != TRIMBLE_GPS_RECV_MODE_ODT_CLK ||", "recvMode < TRIMBLE_GPS_RECV_MODE_FULL_POS ||"))
bug('tr-noreset', 'C16', (TR, """		GPS_reset();

		while (true) {""", """		while (true) {"""))
bug('tr-nopop', 'C16', (TR, """				break;
			switch (buf[0]) {""", """				continue;
			switch (buf[0]) {"""))
bug('tr-fallthrough', 'C16', (TR, """				if (len < 2)
					continue;
				switch (buf[1]) {""", """				if (len < 2)
					continue;
				switch (buf[1]) {
				case 0xab:"""))
bug('tr-alarm-sticky', 'C16', (TR, """	bool selfSurvey = !!(""", """	static bool survey;
	bool selfSurvey = survey |= !!("""))
ref('tr-valid', 'C16', (TR, """	if (critAlarms || inTestMode || recvMode != TRIMBLE_GPS_RECV_MODE_ODT_CLK ||
		discMode != TRIMBLE_GPS_DISC_MODE_LOCKED) {
		/* unrecoverable or not automatically solvable by now */
		return;
	}

	if (selfSurvey || decodingStatus != TRIMBLE_GPS_DECODE_STATUS_DOING_FIXES ||
		discMode != TRIMBLE_GPS_DISC_MODE_LOCKED) {
		/* no position -> wait */
		return;
	}

	GPS_setPositionWithFix(latitude, longitude, altitude);
""", """	const bool valid = !critAlarms && !inTestMode && !selfSurvey &&
		recvMode == TRIMBLE_GPS_RECV_MODE_ODT_CLK && discMode == TRIMBLE_GPS_DISC_MODE_LOCKED &&
		decodingStatus == TRIMBLE_GPS_DECODE_STATUS_DOING_FIXES;
	if (valid)
		GPS_setPositionWithFix(latitude, longitude, altitude);
"""), (TR, "ENDEC_todouble(buf + 36) * R2D", "ENDEC_todouble(buf + 36) / 3.14159265358979323846 * 180"))
ref('tr-if', 'C16', (TR, """			switch (buf[0]) {
			case 0x8f:
				if (len < 2)
					continue;
				switch (buf[1]) {
				/*case 0xab:
					if (len == 18)
						timeFrame(buf + 1);
					break;*/
				case 0xac:
					if (len == 69)
						posFrame(buf + 1);
					break;
				/*case 0xa2:
					if (len == 3)
						ioFrame2(buf + 1);*/
				}
				break;
			case 0x46:
				//statFrame(buf);
				break;
			case 0x55:
				//ioFrame(buf);
				break;
			}""", """			if (len == 69 && buf[0] == 0x8f && buf[1] == 0xac)
				posFrame(buf + 1);"""), (TR, """		CLEANUP_PUSH(&cleanupParser, NULL);

		GPS_reset();
""", """		GPS_reset();

		CLEANUP_PUSH(&cleanupParser, NULL);
"""))

# C17
FI, RV, OL, GL = 'core/filter.c', 'core/recv.c', 'radarcape/lib/opensky.cc', 'gplib/opensky.cc'
bug('fi-18', 'C17', (FI, "NON_TRANSPONDER = 1 << 18", "NON_TRANSPONDER = 1 << 16"))
bug('fi-shift', 'C17', (FI, "(firstByte >> 3) & 0x1f", "(firstByte >> 3) & 0xf"))
bug('fi-nosync', 'C17', (FI, "	if (unlikely(!isSynchronized)) {", "	if (unlikely(!isSynchronized && frameType != OPENSKY_FRAME_TYPE_MODE_S_SHORT)) {"))
bug('fi-sync', 'C17', (FI, "	FILTER_cfg.sync = syncFilter;", "	FILTER_cfg.sync |= syncFilter;"))
bug('fi-ext', 'C17', (FI, """	FILTER_cfg.extSquitter = modeSExtSquitter;
	modeSFilter = FILTER_cfg.extSquitter ?
		MODES_TYPE_EXTENDED_SQUITTER_ALL : MODES_TYPE_ALL;
""", """	modeSFilter = FILTER_cfg.extSquitter ?
		MODES_TYPE_EXTENDED_SQUITTER_ALL : MODES_TYPE_ALL;
	FILTER_cfg.extSquitter = modeSExtSquitter;
"""))
bug('fi-told', 'C17', (FI, """	/* cross layer: this can have an impact on the input */
	INPUT_reconfigure();
""", ""))
bug('fi-early', 'C17', (FI, "	FILTER_cfg.extSquitter = modeSExtSquitter;", "	INPUT_reconfigure();\n	FILTER_cfg.extSquitter = modeSExtSquitter;"), (FI, """	/* cross layer: this can have an impact on the input */
	INPUT_reconfigure();
""", ""))
bug('fi-type', 'C17', (FI, """	if (frameType != OPENSKY_FRAME_TYPE_MODE_S_LONG &&
		frameType""", """	if (frameType != OPENSKY_FRAME_TYPE_MODE_S_LONG && frameType != OPENSKY_FRAME_TYPE_STATUS &&
		frameType"""))
bug('rv-reset', 'C17', (RV, "		FILTER_reset(); /*", "		if (!frame)\n			FILTER_reset(); /*"), (RV, """				BUF_abortFrame(frame);
				frame = NULL;""", """				BUF_abortFrame(frame);"""))
bug('rv-noreset', 'C17', (RV, "		FILTER_reset(); /*", "		/*"), (RV, "	CLEANUP_PUSH(&cleanup, &frame);\n", "	CLEANUP_PUSH(&cleanup, &frame);\n	FILTER_reset();\n"))
bug('rv-mlat', 'C17', (RV, "OPENSKY_FRAME_TYPE_STATUS &&\n					decoded.mlat != 0", "OPENSKY_FRAME_TYPE_STATUS"))
bug('rv-pay', 'C17', (RV, "decoded.payload[0]", "decoded.payload[1]"))
bug('rv-abort', 'C17', (RV, """				BUF_abortFrame(frame);
				frame = NULL;""", """				frame = NULL;"""))
bug('rv-null', 'C17', (RV, """				BUF_abortFrame(frame);
				frame = NULL;""", """				BUF_abortFrame(frame);"""))
bug('rv-late', 'C17', (RV, """				/* set filter state */
				if (unlikely(decoded.frameType == OPENSKY_FRAME_TYPE_STATUS &&
					decoded.mlat != 0))
					FILTER_setSynchronized(true);
""", ""), (RV, """					frame = BUF_newFrame();
				}
""", """					frame = BUF_newFrame();
				}
				if (unlikely(decoded.frameType == OPENSKY_FRAME_TYPE_STATUS &&
					decoded.mlat != 0))
					FILTER_setSynchronized(true);
"""))
bug('rv-unclean', 'C17', (RV, "		CLEANUP_PUSH(&cleanupInput, NULL);\n", ""), (RV, "		}\n		CLEANUP_POP();\n	}", "		}\n		INPUT_disconnect();\n	}"))
bug('ol-byte', 'C17', (OL, "msg[7]", "msg[6]"))
bug('ol-nofilter', 'C17', (OL, "	if (!FILTER_filter(frameType, msg[7]))\n		return;\n", "	if (!FILTER_filter(frameType, msg[7]) && frameType != OPENSKY_FRAME_TYPE_MODE_S_LONG)\n		return;\n"))
bug('gl-byte', 'C17', (GL, "FILTER_filter(frameType, payload[0])", "FILTER_filter(frameType, payload[1])"))
bug('gl-lost', 'C17', (GL, "	BUF_commitFrame(out);", "	if (out->rawLen > 20)\n		BUF_commitFrame(out);\n	else\n		BUF_abortFrame(out);"))
ref('fi-if', 'C17', (FI, """	if (frameType != OPENSKY_FRAME_TYPE_MODE_S_LONG &&
		frameType != OPENSKY_FRAME_TYPE_MODE_S_SHORT) {
		++stats.filtered;
		return false;
	}
""", """	switch (frameType) {
	case OPENSKY_FRAME_TYPE_MODE_S_LONG:
	case OPENSKY_FRAME_TYPE_MODE_S_SHORT:
		break;
	default:
		++stats.filtered;
		return false;
	}
"""), (FI, "	if (!((1 << ftype) & modeSFilter)) {", "	if (FILTER_cfg.extSquitter && ftype != 17 && ftype != 18) {"))
ref('rv-cont', 'C17', (RV, """				/* apply filter */
				if (FILTER_filter(decoded.frameType, decoded.payload[0])) {
					/* not filtered -> buffer it */
					BUF_commitFrame(frame);
					/* get next frame from pool */
					frame = BUF_newFrame();
				}
""", """				const uint8_t first = decoded.payload[0];
				if (!FILTER_filter(decoded.frameType, first))
					continue;
				struct OPENSKY_RawFrame * done = frame;
				BUF_commitFrame(done);
				frame = BUF_newFrame();
"""), (RV, """		FILTER_reset(); /* upon reconnection of the input: reset filter state */

		frame = BUF_newFrame();
""", """		frame = BUF_newFrame();
		FILTER_reset();
"""))
ref('ol-frame', 'C17', (OL, """	if (!FILTER_filter(frameType, msg[7]))
		return;

	struct OPENSKY_RawFrame * out = BUF_newFrame();
	assert(out);
""", """	const bool pass = FILTER_filter(frameType, msg[7]);
	struct OPENSKY_RawFrame * out = pass ? BUF_newFrame() : NULL;
	if (out == NULL)
		return;
"""))

# C18
bug('rp-swap', 'C18', (RP, """			RADARCAPE_OPTION_DF_11_17_18_CRC_ENABLED :
			RADARCAPE_OPTION_DF_11_17_18_CRC_DISABLED) &&""", """			RADARCAPE_OPTION_DF_11_17_18_CRC_DISABLED :
			RADARCAPE_OPTION_DF_11_17_18_CRC_ENABLED) &&"""))
bug('rp-miss', 'C18', (RP, "		setOption(RADARCAPE_OPTION_MODE_AC_DECODING_DISABLED) &&\n", ""))
bug('rp-or', 'C18', (RP, "		setOption(RADARCAPE_OPTION_Y) &&\n		setOption(RADARCAPE_OPTION_R)", "		(setOption(RADARCAPE_OPTION_Y) ||\n		setOption(RADARCAPE_OPTION_R))"))
bug('rp-once', 'C18', (RP, "		/* configure input */\n		if (configure())\n			break;", "		static bool configured;\n		if (configured || (configured = configure()))\n			break;"))
bug('rp-part', 'C18', (RP, "	return RC_INPUT_write(w, sizeof w) == sizeof w;", "	return RC_INPUT_write(w, sizeof w) != 0;"))
bug('rp-recon', 'C18', (RP, """	setOption(filterCfg->extSquitter ?
		RADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :
		RADARCAPE_OPTION_FRAME_FILTER_ALL);""", """	setOption(filterCfg->crc ?
		RADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :
		RADARCAPE_OPTION_FRAME_FILTER_ALL);"""))
bug('rp-noloop', 'C18', (RP, "		if (configure())\n			break;", "		configure();\n		break;"))
ref('rp-arr', 'C18', (RP, "	uint8_t w[3] = { BEAST_SYNC, '1', (uint8_t)option };\n	return RC_INPUT_write(w, sizeof w) == sizeof w;", """	uint8_t w[3];
	w[0] = BEAST_SYNC;
	w[1] = 0x31;
	w[2] = option;
	const size_t n = RC_INPUT_write(w, 3);
	return n >= 3;"""), (RP, "		if (configure())\n			break;", "		const bool ok = configure();\n		if (ok)\n			break;"))

# C19
bug('ol-flush', 'C19', (OL, "	BUF_flush();\n	COMP_startAll();", "	COMP_startAll();\n	BUF_flush();"))
bug('ol-run', 'C19', (OL, "if (unlikely(!configured || !running))", "if (unlikely(!configured))"))
bug('ol-need', 'C19', (OL, "	GPS_resetNeedFlag();\n", ""))
bug('ol-sync', 'C19', (OL, "	FILTER_setSynchronized(gpsTimeStatus != GpsTimeInvalid);\n	GPS_resetNeedFlag", "	FILTER_setSynchronized(gpsTimeStatus == UsingGpsTime);\n	GPS_resetNeedFlag"))
bug('ol-order', 'C19', (OL, """	FILTER_reset();
	FILTER_setSynchronized(gpsTimeStatus != GpsTimeInvalid);
	GPS""", """	FILTER_setSynchronized(gpsTimeStatus != GpsTimeInvalid);
	FILTER_reset();
	GPS"""))
bug('ol-status', 'C19', (OL, "	OpenSky::gpsTimeStatus = gpsTimeStatus;\n", ""))
bug('ol-fix', 'C19', (OL, "GPS_setHasFix(gpsTimeStatus == UsingGpsTime)", "GPS_setHasFix(gpsTimeStatus != GpsTimeInvalid)"))
bug('ol-stop', 'C19', (OL, "		COMP_stopAll();\n\n		running = false;", "		COMP_stopAll();"))
bug('ol-type', 'C19', (OL, "	default:\n		return;\n	}\n\n	enum", "	default:\n		msgLen = 7;\n	}\n\n	enum"))
bug('ol-pos', 'C19', (OL, "GPS_setPosition(latitude, longitude, altitude)", "GPS_setPositionWithFix(latitude, longitude, altitude)"))
bug('gl-pos', 'C19', (GL, "GPS_setPosition(latitude, longitude, altitude);\n	GPS_setHasFix(true);", "GPS_setHasFix(true);\n	GPS_setPosition(latitude, longitude, altitude);"))
bug('gl-lon', 'C19', (GL, "GPS_setPosition(latitude, longitude, altitude)", "GPS_setPosition(longitude, latitude, altitude)"))
bug('gl-unset', 'C19', (GL, "	GPS_setHasFix(false);", "	if (!running)\n		GPS_setHasFix(false);"))
bug('gl-sync', 'C19', (GL, "	FILTER_setSynchronized(true);\n", "	if (!running)\n		FILTER_setSynchronized(true);\n"))
bug('gl-utc', 'C19', (GL, "	if (!timingUTC)\n		return;\n", "	if (!timingUTC && !timingSync)\n		return;\n"))
bug('gl-stop', 'C19', (GL, "	if (running) {\n		COMP_stopAll();\n\n		running = false;", "	if (running) {\n		running = false;"))
ref('ol-set', 'C19', (OL, """	FILTER_reset();
	FILTER_setSynchronized(gpsTimeStatus != GpsTimeInvalid);
	GPS_resetNeedFlag();


	BUF_flush();
	COMP_startAll();

	running = true;""", """	BUF_flush();
	GPS_resetNeedFlag();
	setGpsTimeStatus(gpsTimeStatus);
	running = true;
	COMP_startAll();"""), (OL, """	if (running) {
		COMP_stopAll();

		running = false;
	}""", """	if (!running)
		return;
	running = false;
	COMP_stopAll();"""))
ref('gl-set', 'C19', (GL, "GPS_setPosition(latitude, longitude, altitude);\n	GPS_setHasFix(true);", "GPS_setPositionWithFix(latitude, longitude, altitude);"), (GL, "	if (unlikely(!configured || !running))\n		return;\n", "	if (!running || !configured || !timingUTC)\n		return;\n"))

# C20
CO = 'util/component.c'
bug('co-rollback', 'C20', (CO, "			destructUntil(ci);\n			return false;", "			return false;"))
bug('co-rolllast', 'C20', (CO, "				c->description);\n			destructUntil(ci);", "				c->description);\n			ci->state = COMPONENT_STATE_INITIALIZED;\n			destructUntil(LIST_item(LIST_end(&components), struct ComponentLink, list));"))
bug('co-startroll', 'C20', (CO, "			stopUntil(ci);\n			return false;", "			stop(ci, false);\n			return false;"))
bug('co-fwd', 'C20', (CO, "	LIST_foreachItemRev(&components, ci, list)\n		destruct(ci);", "	LIST_foreachItem(&components, ci, list)\n		destruct(ci);"))
bug('co-cancel', 'C20', (CO, "			if (ci->state == COMPONENT_STATE_STARTED) {\n				stop(ci, true);", "			if (ci->state == COMPONENT_STATE_STARTED) {\n				stop(ci, false);"))
bug('co-nostart', 'C20', (CO, "		if (c->start && !*c->start)\n			continue;\n", ""))
bug('co-enabled', 'C20', (CO, "		if (c->enabled && !*c->enabled)\n			continue;\n", ""))
bug('co-seq', 'C20', (CO, "	for (dp = c->dependencies; *dp; ++dp)\n		if (!exists(*dp))\n			return false;\n	return true;", "	for (dp = c->dependencies; *dp; ++dp)\n		if (exists(*dp))\n			return true;\n	return dp == c->dependencies;"))
bug('co-join', 'C20', (CO, "	if (stopped)\n		ci->state = COMPONENT_STATE_INITIALIZED;", "	if (stopped || deferred)\n		ci->state = COMPONENT_STATE_INITIALIZED;"), (CO, "		if (ci->state == COMPONENT_STATE_STARTED) {\n				stop(ci, true);\n				progress |= ci->state != COMPONENT_STATE_STARTED;", "		if (ci->state == COMPONENT_STATE_STARTED) {\n				stop(ci, true);\n				progress = true;"))
bug('co-init', 'C20', (CO, "		ci->state = COMPONENT_STATE_INITIALIZED;\n	}\n	return true;", "		if (c->onConstruct)\n			ci->state = COMPONENT_STATE_INITIALIZED;\n		else\n			return false;\n	}\n	return true;"))
bug('co-dep', 'C20', (CO, "				if ((*dp)->enabled && !*(*dp)->enabled)", "				if ((*dp)->enabled && *(*dp)->enabled)"))
bug('co-fix', 'C20', (CO, "			if (!exists(*dp))\n				COMP_register(*dp);", "			if (!exists(*dp)) {\n				COMP_register(*dp);\n				break;\n			}"))
bug('co-stopall', 'C20', (CO, "	stopUntil(LIST_item(LIST_end(&components), struct ComponentLink, list));", "	stopUntil(LIST_item(components.anchor.prev, struct ComponentLink, list));"))
bug('co-dup', 'C20', (CO, "	if (exists(comp)) {\n", "	if (exists(comp) && !comp->enabled) {\n"))
bug('co-state', 'C20', (CO, "		if (ci->state != COMPONENT_STATE_INITIALIZED)\n			continue;\n\n		const", "		const"))
bug('co-started', 'C20', (CO, "		ci->state = COMPONENT_STATE_STARTED;\n", "		if (started && c->main)\n			ci->state = COMPONENT_STATE_STARTED;\n"))
bug('co-rc', 'C20', (CO, "	if (rc) {\n		LOG_errno2", "	if (rc < 0) {\n		LOG_errno2"))
bug('co-reset', 'C20', (CO, "		if (ci->comp->onReset)\n", "		if (ci->comp->onReset && ci->comp->main)\n"))
ref('co-while', 'C20', (CO, """	bool progress = true;
	while (deferred && progress) {
		progress = false;
		deferred = false;
""", """	bool progress;
	if (deferred) do {
		progress = false;
		deferred = false;
"""), (CO, """				deferred |= ci->state == COMPONENT_STATE_STARTED;
			}
		}
	}
	if (deferred) {""", """				deferred |= ci->state == COMPONENT_STATE_STARTED;
			}
		}
	} while (deferred && progress);
	if (deferred) {"""), (CO, "	LIST_foreachItemRev(&components, ci, list)\n		destruct(ci);", "	destructUntil(LIST_item(LIST_end(&components), struct ComponentLink, list));"))
ref('co-helper', 'C20', (CO, """		bool started = true;
		if (!c->onStart && c->main) /* we shall create and manage a thread */
			started = startThreaded(ci);
		else if (c->onStart) /* the component manages itself */
			started = c->onStart();

		if (!started) {""", """		bool started;
		if (c->onStart)
			started = c->onStart();
		else
			started = !c->main || startThreaded(ci);

		if (started)
			ci->state = COMPONENT_STATE_STARTED;
		else {"""), (CO, """			return false;
		}

		ci->state = COMPONENT_STATE_STARTED;
""", """			return false;
		}
"""))

# C21
MP, SE, CF, FP, GP, NP, UA, TN, TU, RN = ('util/port/mmap-posix.c', 'util/serial_eth.c', 'util/cfgfile.c', 'radarcape/fpga.c', 'radarcape/gpio.c', 'util/net_common-posix.c', 'radarcape/uart.c',
                                      'trimble/trimble_input_network.c', 'trimble/trimble_input_uart.c', 'radarcape/network.c')
bug('mp-stat', 'C21', (MP, "		close(fd);\n		LOG_errno", "		LOG_errno"))
bug('mp-close', 'C21', (MP, "	close(fd);\n	if (ptr", "	if (ptr"))
bug('mp-unmap', 'C21', (MP, "	munmap(map->ptr, map->len);\n", ""))
bug('mp-free', 'C21', (MP, "	free(map);\n", ""))
bug('mp-cloexec', 'C21', (MP, "O_RDONLY | O_CLOEXEC", "O_RDONLY"))
bug('se-sock', 'C21', (SE, """	int ret = NOC_call(ioctl, sock, SIOCGIFHWADDR, &ifr);
	NOC_call(close, sock);

	if (ret < 0) /* no such device */
		return false;
""", """	int ret = NOC_call(ioctl, sock, SIOCGIFHWADDR, &ifr);
	if (ret < 0) /* no such device */
		return false;
	NOC_call(close, sock);
"""))
bug('se-file', 'C21', (SE, "	CLEANUP_PUSH(&cleanupCloseFile, sys);\n", ""), (SE, "	CLEANUP_POP();\n\n	return len == 6;", "	if (len != 6)\n		return false;\n	fclose(sys);\n	return true;"))
bug('cf-file', 'C21', (CF, """	bool rc = writeSections(file);

	if (fclose""", """	bool rc = writeSections(file);
	if (!rc)
		return false;

	if (fclose"""))
bug('cf-twice', 'C21', (CF, """		writeOptions(file, section);

	if (fclose(file))
		rc = false;""", """		writeOptions(file, section);

	if (!rc)
		fclose(file);
	if (fclose(file))
		rc = false;"""))
bug('cf-map', 'C21', (CF, """	bool success = readCfg();

	MMAP_close(map);
""", """	bool success = readCfg();
	if (!success)
		return false;

	MMAP_close(map);
"""))
bug('cf-dir', 'C21', (CF, "	free(namelist);\n", "	if (ret)\n		free(namelist);\n"))
bug('fp-map', 'C21', (FP, "	munmap(rfd, st.st_size);\n\n	if (try == retries) {", "	if (try < retries)\n		munmap(rfd, st.st_size);\n\n	if (try == retries) {"))
bug('gp-fail', 'C21', (GP, "			for (j = 0; j < i; ++j)\n", "			for (j = 1; j < i; ++j)\n"))
bug('gp-fd', 'C21', (GP, "			close(devfd);\n			return false;", "			return false;"))
bug('gp-last', 'C21', (GP, "	size_t i;\n	for (i = 0; i < ARRAY_SIZE(controllers); ++i)\n		controllerDestruct", "	size_t i;\n	for (i = 0; i < ARRAY_SIZE(controllers) - 1; ++i)\n		controllerDestruct"))
bug('np-close', 'C21', (NP, "			SOCK_close(sock);\n", "			if (i + 1 < nHosts)\n				SOCK_close(sock);\n"))
bug('np-cancel', 'C21', (NP, "		hosts->sock = sock;\n", ""))
bug('np-addr', 'C21', (NP, "		if (hosts->hosts)\n			freeaddrinfo", "		if (hosts->hosts && hosts->shuffled == NULL)\n			freeaddrinfo"))
bug('ua-fail', 'C21', (UA, """"Could not set UART settings");
		closeUart();
""", """"Could not set UART settings");
		fd = -1;
"""))
bug('ua-twice', 'C21', (UA, "		close(fd);\n		fd = -1;", "		close(fd);"))
bug('ua-recon', 'C21', (UA, "	closeUart();\n\n	/* open uart */", "	/* open uart */"))
bug('tu-use', 'C21', (TU, "Could not read from UART\");\n				closeUart();", "Could not read from UART\");\n				close(fd);"))
bug('tn-close', 'C21', (TN, "		SOCK_close(sock);\n		sock = SOCK_INVALID;", "		sock = SOCK_INVALID;"))
bug('rn-stale', 'C21', (RN, "		SOCK_close(sock);\n		sock = SOCK_INVALID;", "		SOCK_close(sock);"))
ref('mp-goto', 'C21', (MP, """	if (ptr == MAP_FAILED) {
		LOG_errno(LOG_LEVEL_ERROR, prefix, "Could not mmap '%s'", file);
		return NULL;
	}

	struct MMAP * map = malloc(sizeof *map);
	if (map == NULL)
		LOG_errno(LOG_LEVEL_EMERG, prefix, "Allocation failed");
""", """	struct MMAP * map = NULL;
	if (ptr == MAP_FAILED)
		LOG_errno(LOG_LEVEL_ERROR, prefix, "Could not mmap '%s'", file);
	else if ((map = malloc(sizeof *map)) == NULL)
		LOG_errno(LOG_LEVEL_EMERG, prefix, "Allocation failed");
	if (map == NULL)
		return NULL;
"""))
ref('ua-local', 'C21', (UA, "	if (fd != -1) {\n		close(fd);\n		fd = -1;\n	}", "	const int old = fd;\n	fd = -1;\n	if (old >= 0)\n		close(old);"))
ref('np-order', 'C21', (NP, """		rc = SOCK_connect(sock, addr, host->ai_addrlen);
		hosts->sock = SOCK_INVALID;
		if (rc == SOCK_ERROR) {
			LOG_errnet(LOG_LEVEL_WARN, prefix, "Could not connect");
			SOCK_close(sock);
		} else {
			LOG_logf(LOG_LEVEL_INFO, prefix, "connected to '%s'", hostName);
			break;
		}
""", """		const bool good = SOCK_connect(sock, addr, host->ai_addrlen) != SOCK_ERROR;
		if (good) {
			hosts->sock = SOCK_INVALID;
			LOG_logf(LOG_LEVEL_INFO, prefix, "connected to '%s'", hostName);
			break;
		}
		LOG_errnet(LOG_LEVEL_WARN, prefix, "Could not connect");
		SOCK_close(sock);
		hosts->sock = SOCK_INVALID;
"""))

# --- C22: commands of the server
PR, TM, TS, LS = 'util/proc.c', 'radarcape/tb-misc.c', 'radarcape/tb-rshell.c', 'util/log_stdio.c'
bug('pr-no-exit', 'C22', (PR, "	PROC_execRaw(argv);\n	_Exit(EXIT_FAILURE);", "	PROC_execRaw(argv);"))
bug('pr-daemon-return', 'C22', (PR, "	if (daemon(0, 1) < 0) {\n		_Exit(EXIT_FAILURE);", "	if (daemon(0, 1) < 0) {\n		return;"))
bug('pr-fork-fail', 'C22', (PR, "	if (childPid == -1) {\n		LOG_errno(LOG_LEVEL_WARN, PFX, \"fork failed\");\n		return false;", "	if (childPid == -1) {\n		LOG_errno(LOG_LEVEL_WARN, PFX, \"fork failed\");\n		return true;"))
bug('pr-signalled', 'C22', (PR, "	return WIFEXITED(status) && WEXITSTATUS(status) == 0;", "	return WEXITSTATUS(status) == 0;"))
bug('pr-code', 'C22', (PR, "	return WIFEXITED(status) && WEXITSTATUS(status) == 0;", "	return WIFEXITED(status);"))
bug('pr-wait', 'C22', (PR, "	int status;\n	if (waitpid(pid, &status, 0) != pid)\n		return false;", "	int status = 0;\n	waitpid(pid, &status, 0);"))
bug('pr-any', 'C22', (PR, "	if (waitpid(pid, &status, 0) != pid)", "	if (waitpid(pid, &status, WNOHANG) == -1)"))
bug('pr-stdin', 'C22', (PR, "	close(STDIN_FILENO);\n", ""))
bug('tm-swap', 'C22', (TM, "FPGA_bbwhite ? argv : argvBlack", "FPGA_bbwhite ? argvBlack : argv"))
bug('tm-argv-end', 'C22', (TM, '		"--black",\n		NULL\n', '		"--black",\n'))
bug('tm-upgrade-return', 'C22', (TM, "	_Exit(EXIT_FAILURE);\n", ""))
bug('tm-upgrade-restart', 'C22', (TM, "		LOG_log(LOG_LEVEL_WARN, PFX, \"Upgrade failed\");\n	} else {", "		LOG_log(LOG_LEVEL_WARN, PFX, \"Upgrade failed\");\n	}\n	{"))
bug('tm-reboot-raw', 'C22', (TM, "	PROC_forkAndExec(argv); /*", "	PROC_execRaw(argv); /*"))
bug('ts-port', 'C22', (TS, "	port = ntohs(revShell->port);", "	port = revShell->port;"))
bug('ts-size', 'C22', (TS, "	char addr[INET_ADDRSTRLEN + 6];", "	char addr[INET_ADDRSTRLEN + 2];"))
bug('ts-fmt', 'C22', (TS, '"%s:%" PRIu16, ip, port', '"%s:%d", ip, (int16_t)port'))
bug('ts-argv', 'C22', (TS, '"-r", addr, "-n", NULL };', '"-n", "-r", addr };'))
bug('ls-atfork', 'C22', (LS, "	pthread_atfork(&lockStdio, &unlockStdio, &unlockStdio);", "	pthread_atfork(&lockStdio, &unlockStdio, NULL);"))
bug('ls-ctor', 'C22', (LS, "__attribute__((constructor))\nstatic void", "static __attribute__((unused)) void"))
ref('pr-switch', 'C22', (PR, """	if (childPid == -1) {
		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
		return false;
	} else if (childPid) { /* parent */
		return false;
	} else { /* child */
		return true;
	}
""", """	switch (childPid) {
	case 0: /* child */
		return true;
	case -1:
		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
		/* fall through */
	default:
		return false;
	}
"""))
ref('pr-status', 'C22', (PR, """	if (waitpid(pid, &status, 0) != pid)
		return false;
	return WIFEXITED(status) && WEXITSTATUS(status) == 0;""", """	const pid_t waited = waitpid(pid, &status, 0);
	return waited == pid && status == 0;"""))
ref('pr-uses-fork', 'C22', (PR, """	if (daemon(0, 1) < 0) {
		_Exit(EXIT_FAILURE);
	} else {
		escape_cgroup();
		PROC_execAndFinalize(argv);
	}
""", """	if (daemon(0, 1) == 0) {
		escape_cgroup();
		PROC_execAndFinalize(argv);
	}
	_Exit(EXIT_FAILURE);
"""))
ref('ts-one', 'C22', (TS, """	char ip[INET_ADDRSTRLEN];
	uint16_t port;

	struct in_addr ipaddr;
	ipaddr.s_addr = revShell->ip;
	inet_ntop(AF_INET, &ipaddr, ip, INET_ADDRSTRLEN);
	port = ntohs(revShell->port);
""", """	const uint16_t port = payload[4] << 8 | payload[5];
	char ip[16];
	snprintf(ip, sizeof ip, "%d.%d.%d.%d", payload[0], payload[1], payload[2], payload[3]);
"""), (TS, '"%s:%" PRIu16, ip, port);', '"%s:%u", ip, (unsigned int)port);\n	(void)revShell;'))
ref('tm-early', 'C22', (TM, "	PROC_execRaw(FPGA_bbwhite ? argv : argvBlack);", "	if (!FPGA_bbwhite) {\n		PROC_execRaw(argvBlack);\n		return;\n	}\n	PROC_execRaw(argv);"))

# --- C23: retries
UA, TU, RP, TP, NW, RE, TI, RN = ('radarcape/uart.c', 'trimble/trimble_input_uart.c', 'radarcape/rc-parser.c', 'trimble/trimble_parser.c', 'core/network.c', 'core/relay.c',
                              'trimble/trimble_input_network.c', 'radarcape/network.c')
bug('rt-uart-nosleep', 'C23', (UA, "	while (!doConnect())\n		sleepCancelable(RECONNECT_INTERVAL);", "	while (!doConnect())\n		;"))
bug('rt-uart-zero', 'C23', (UA, "#define RECONNECT_INTERVAL 10", "#define RECONNECT_INTERVAL 0"))
bug('rt-tnet-nosleep', 'C23', (TI, "	while (!doConnect())\n		sleepCancelable(RECONNECT_INTERVAL);", "	while (!doConnect())\n		;"))
bug('rt-once', 'C23', (NW, "			sleepCancelable(RECONNET_INTERVAL);\n", "			if (stats.connectionAttempts % 2)\n				sleepCancelable(RECONNET_INTERVAL);\n"))
bug('rt-conf', 'C23', (RP, "		sleepCancelable(RECONNECT_INTERVAL);\n", ""))
bug('rt-tconf', 'C23', (TP, "		sleepCancelable(RECONNECT_INTERVAL);\n", ""))
bug('rt-again', 'C23', (UA, "			if (errno != EAGAIN) {", "			if (errno == EAGAIN || errno == EINTR)\n				continue;\n			else {"))
bug('rt-hup', 'C23', (TU, "POLLERR | POLLHUP | POLLNVAL", "POLLNVAL"))
bug('rt-pollfd', 'C23', (TU, "	fds.fd = fd;\n", "	if (fds.fd == 0)\n		fds.fd = fd;\n"))
bug('rt-gc', 'C23', ('core/buffer.c', "	if (cfg.gcInterval < 1) {", "	if (cfg.gcInterval < 1 && cfg.history) {"))
bug('rt-timeout', 'C23', (RE, "	if (cfgTimeout < 1) {", "	if (cfgTimeout == 1) {"))
bug('rt-end', 'C23', (RE, "			continue; /* upon failure: wait again */", "			break; /* upon failure: wait again */"))
bug('rt-tb', 'C23', ('core/tb.c', "			if (len <= 0) /* upon failure: wait for new connection */\n				break;", "			if (len == 0) /* upon failure: wait for new connection */\n				break;\n			if (len < 0)\n				continue;"))
bug('rt-login', 'C23', (RE, "		NET_waitConnected();\n\n		/* here", "		static bool first = true;\n		if (first)\n			NET_waitConnected();\n		first = false;\n\n		/* here"))
bug('rt-cancel', 'C23', (TI, "		sleepCancelable(RECONNECT_INTERVAL);", "{\n		int r;\n		CANCEL_DISABLE(&r);\n		sleep(RECONNECT_INTERVAL);\n		CANCEL_RESTORE(&r);\n}"))
bug('rt-wd', 'C23', ('radarcape/watchdog.c', "		sleepCancelable(INTERVAL);\n", ""))
NP = 'util/net_common-posix.c'
bug('nc-break', 'C23', (NP, '			LOG_errnet(LOG_LEVEL_ERROR, prefix, "could not create socket");\n			continue;', '			LOG_errnet(LOG_LEVEL_ERROR, prefix, "could not create socket");\n			break;'))
bug('nc-shuffle', 'C23', (NP, "		hosts->shuffled[i - 1] = hosts->shuffled[j];\n		hosts->shuffled[j] = tmp;", "		hosts->shuffled[i - 1] = hosts->shuffled[j];\n		hosts->shuffled[0] = tmp;"))
bug('nc-last', 'C23', (NP, "	if (i == nHosts)\n		host = NULL;", "	if (i + 1 >= nHosts && sock == SOCK_INVALID)\n		host = NULL;"))
bug('nc-port6', 'C23', (NP, "((struct sockaddr_in6*)addr)->sin6_port = port_be;", "((struct sockaddr_in6*)addr)->sin6_port = port;"))
bug('nc-family', 'C23', (NP, "		sock = SOCK_socket(host->ai_family,", "		sock = SOCK_socket(hosts->hosts->ai_family,"))
bug('nc-skip', 'C23', (NP, "	for (i = 0; i < nHosts; ++i) {\n		host = hosts", "	for (i = nHosts > 2; i < nHosts; ++i) {\n		host = hosts"))
ref('rt-loop', 'C23', (UA, "	while (!doConnect())\n		sleepCancelable(RECONNECT_INTERVAL);", "	bool ok;\n	do {\n		ok = doConnect();\n		if (!ok)\n			sleepCancelable(RECONNECT_INTERVAL / 2);\n	} while (!ok);"))
ref('rt-helper', 'C23', (UA, "		/* wait for data */\n		if (poll(&fds, 1, -1) == 1 &&\n			(fds.revents & (POLLERR | POLLHUP | POLLNVAL))) {", "		/* wait for data */\n		fds.revents = 0;\n		int rp = poll(&fds, 1, -1);\n		bool failed = rp > 0 && fds.revents != POLLIN;\n		if (failed) {"))
ref('rt-localfds', 'C23', (TU, "		/* wait for data */\n		if (poll(&fds, 1, -1) == 1 &&\n			(fds.revents &", "		/* wait for data */\n		struct pollfd p = { .fd = fd, .events = POLLIN };\n		if (poll(&p, 1, -1) == 1 &&\n			(p.revents &"))
ref('rt-relay', 'C23', (RE, "		if (unlikely(!LOGIN_login()))\n			continue; /* upon failure: wait again */\n", "		while (!LOGIN_login())\n			NET_waitConnected(); /* upon failure: wait again */\n"))
ref('nc-noshuffle-last', 'C23', (NP, "	for (i = nHosts; i; --i) {", "	for (i = nHosts; i > 1; --i) {"))
ref('nc-flag', 'C23', (NP, "	if (i == nHosts)\n		host = NULL;", "	if (i >= nHosts)\n		host = NULL;"))

# --- C24: receiving frames never waits
BU = 'core/buffer.c'
bug('bl-net', 'C24', (BU, "#include <stdlib.h>\n", "#include <stdlib.h>\n#include \"core/network.h\"\n"), (BU, "	newFrame = getFrameFromPool();\n	assert(newFrame != c", "	if (LIST_empty(&pool))\n		NET_forceDisconnect();\n	newFrame = getFrameFromPool();\n	assert(newFrame != c"))
bug('bl-sleep', 'C24', (BU, "		sleepCancelable(cfg.gcInterval);\n		pthread_mutex_lock(&mutex);\n", "		pthread_mutex_lock(&mutex);\n		sleepCancelable(cfg.gcInterval);\n"))
bug('bl-space', 'C24', (BU, "	newFrame = getFrameFromPool();\n	assert(newFrame != c", "	while (LIST_length(&queue) >= 8 * cfg.statBacklog)\n		pthread_cond_wait(&cond, &mutex);\n	newFrame = getFrameFromPool();\n	assert(newFrame != c"))
bug('bl-pos', 'C24', ('core/recv.c', '#include "buffer.h"\n', '#include "buffer.h"\n#include "gps.h"\n'), ('core/recv.c', "				BUF_abortFrame(frame);\n", "				BUF_abortFrame(frame);\n				GPS_setHasFix(false);\n"))
bug('bl-relay', 'C24', (BU, "	if (!cfg.history)\n		BUF_flush();", "	if (!cfg.history) {\n		pthread_mutex_lock(&mutex);\n		poll(NULL, 0, 10);\n		LIST_concatenatePush(&pool, &queue);\n		pthread_mutex_unlock(&mutex);\n	}"), (BU, "#include <stdlib.h>\n", "#include <stdlib.h>\n#include <poll.h>\n"))
ref('bl-trylock', 'C24', (BU, "		sleepCancelable(cfg.gcInterval);\n		pthread_mutex_lock(&mutex);\n", "		sleepCancelable(cfg.gcInterval);\n		if (pthread_mutex_trylock(&mutex) != 0)\n			continue;\n"))
ref('bl-signal', 'C24', (BU, "	LIST_push(&queue, LIST_link(newFrame, list));\n	pthread_cond_broadcast(&cond);\n", "	pthread_cond_signal(&cond);\n	LIST_push(&queue, LIST_link(newFrame, list));\n"))

# --- C25: serial number
RS, SE = 'dump1090/req-serial.c', 'util/serial_eth.c'
bug('sn-unsaved', 'C25', (RS, "	unsaved = true;\n", ""))
bug('sn-late', 'C25', (RS, "		unsaved = false;\n	}\n", "	}\n"), (RS, "	if (unsaved) {", "	if (unsaved && false) {"))
bug('sn-fail', 'C25', (RS, "			LOG_log(LOG_LEVEL_EMERG, PFX, \"Could not write serial number, \"", "			LOG_log(LOG_LEVEL_ERROR, PFX, \"Could not write serial number, \""))
bug('sn-endian', 'C25', (RS, "	serialNumber = ENDEC_tou32(payload);", "	memcpy(&serialNumber, payload, sizeof serialNumber);"), (RS, "#include <stdint.h>\n", "#include <stdint.h>\n#include <string.h>\n"))
bug('sn-16', 'C25', (RS, "	serialNumber = ENDEC_tou32(payload);", "	serialNumber = ENDEC_tou16(payload);"))
bug('sn-again', 'C25', (RS, "					++rounds;\n", "					++rounds;\n					sendSerialRequest();\n"))
bug('sn-file', 'C25', (RS, '"/conf.d/05-serial.conf"', '"/conf.d/serial.conf"'))
bug('sn-dir', 'C25', (RS, 'LOCALSTATEDIR "/conf.d/05-serial.conf"', 'LOCALSTATEDIR "/05-serial.conf"'))
bug('sn-nosend', 'C25', (RS, "		if (!sendSerialRequest()) {\n			rc = SERIAL_RETURN_FAIL_NET;\n			goto cleanup;\n		}\n", "		sendSerialRequest();\n"))
bug('sn-timeout', 'C25', (RS, "					NET_forceDisconnect();\n", ""))
bug('sn-perm', 'C25', (RS, "				if (!NET_checkConnected()) {\n					rc = SERIAL_RETURN_FAIL_NET;", "				if (!NET_checkConnected()) {\n					rc = SERIAL_RETURN_FAIL_PERM;"))
bug('sn-order', 'C25', (RS, "		unsaved = false;\n	}\n	*serial = serialNumber;\n", "		unsaved = false;\n	}\n"), (RS, "	CLEANUP_PUSH_LOCK(&serialMutex);\n	if", "	CLEANUP_PUSH_LOCK(&serialMutex);\n	*serial = serialNumber;\n	if"))
bug('sn-reg', 'C25', (RS, "SERIAL_RES, 4,", "SERIAL_RES, 2,"))
bug('se-mask', 'C25', (SE, "& 0x7fffffff", "& 0x3fffffff"))
bug('se-off', 'C25', (SE, "mac + 2, sizeof", "mac, sizeof"))
bug('se-endian', 'C25', (SE, "be32toh(serial_be)", "serial_be"))
bug('se-five', 'C25', (SE, "	return len == 6;", "	return len >= 5;"))
bug('se-eof', 'C25', (SE, "	return len == 6;", "	return len != 0;"))
bug('se-nocache', 'C25', (SE, "	cachedSerial = true;\n", "	cachedSerial = serial != NULL;\n"))
bug('se-family', 'C25', (SE, "	if (ifr.ifr_hwaddr.sa_family != ARPHRD_ETHER) /* device is not ethernet */\n		return false;\n", ""))
bug('se-temp', 'C25', (SE, "			return SERIAL_RETURN_FAIL_PERM;", "			return SERIAL_RETURN_FAIL_TEMP;"))
bug('se-ioctl', 'C25', (SE, "	if (ret < 0) /* no such device */\n		return false;\n", "	if (ret > 0) /* no such device */\n		return false;\n"))
ref('se-mask2', 'C25', (SE, "	serialNo = be32toh(serial_be) & 0x7fffffff;", "	serialNo = ((mac[2] & 0x7fu) << 24) | (mac[3] << 16) | (mac[4] << 8) | mac[5];"))
ref('se-mod', 'C25', (SE, "be32toh(serial_be) & 0x7fffffff", "be32toh(serial_be) % 0x80000000u"))
ref('sn-helper', 'C25', (RS, "	if (unsaved) {", "	const bool needSave = unsaved;\n	if (needSave) {"))
ref('sn-plain', 'C25', (RS, "	uint8_t buf[2] = { OPENSKY_SYNC, OPENSKY_FRAME_TYPE_SERIAL_REQ };\n	/* send it */\n	return NET_send(buf, sizeof buf);", "	static const char msg[2] = { OPENSKY_SYNC, OPENSKY_FRAME_TYPE_SERIAL_REQ };\n	return NET_send(msg, 2);"))

# --- C26: main
MA, DM, WM, UT = 'radarcape/main.c', 'dump1090/dump1090.c', 'radarcape/wd-main.c', 'util/util.c'
bug('mn-nocheck', 'C26', (MA, 'LOG_log(LOG_LEVEL_EMERG, PFX,\n			"Configuration inconsistent, quitting");', 'LOG_log(LOG_LEVEL_ERROR, PFX,\n			"Configuration inconsistent, quitting");'))
bug('mn-nocheck2', 'C26', (DM, "	if (!CFG_check()) {", "	if (cfgEtc && !CFG_check()) {"))
bug('mn-init', 'C26', (MA, 'LOG_log(LOG_LEVEL_EMERG, PFX, "Could not initialize all components, "', 'LOG_log(LOG_LEVEL_ERROR, PFX, "Could not initialize all components, "'))
bug('mn-start', 'C26', (DM, "	if (!COMP_startAll()) {", "	if (!COMP_startAll() && !cfgVar) {"))
bug('mn-serial', 'C26', (MA, "	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM)", "	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_TEMP)"))
bug('mn-serial-early', 'C26', (MA, "	/* read & check configuration */\n", "	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM)\n			LOG_log(LOG_LEVEL_EMERG, PFX, \"No serial number configured\");\n\n	/* read & check configuration */\n"), (MA, "	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM)\n			LOG_log(LOG_LEVEL_EMERG, PFX, \"No serial number configured\");\n\n#ifdef", "#ifdef"))
bug('mn-tb-late', 'C26', (DM, "#ifdef DUMP1090_DONATED\n	TB_register(TB_PACKET_TYPE_REVERSE_SHELL, 6, &TB_reverseShell);\n#endif\n", ""), (DM, "	UTIL_waitSigInt();\n", "#ifdef DUMP1090_DONATED\n	TB_register(TB_PACKET_TYPE_REVERSE_SHELL, 6, &TB_reverseShell);\n#endif\n	UTIL_waitSigInt();\n"))
bug('mn-order', 'C26', (DM, 'CFG_readDirectory(LOCALSTATEDIR "/conf.d", true', 'CFG_readDirectory(SYSCONFDIR "/conf.d", true'), (DM, 'cfgEtc = CFG_readDirectory(SYSCONFDIR', 'cfgEtc = CFG_readDirectory(LOCALSTATEDIR'))
bug('mn-port', 'C26', (DM, '	CFG_loadDefaults();\n	CFG_setPort("INPUT", "Port", 30005);\n', '	CFG_setPort("INPUT", "Port", 30005);\n	CFG_loadDefaults();\n'))
bug('mn-port-late', 'C26', (DM, '	CFG_setPort("INPUT", "Port", 30005);\n', ''), (DM, "	if (!CFG_check()) {", '	CFG_setPort("INPUT", "Port", 30005);\n	if (!CFG_check()) {'))
bug('mn-user', 'C26', (DM, "	LOGIN_setUsername(username);\n", ""))
bug('mn-type-early', 'C26', (DM, "	LOGIN_setDeviceType(DEVTYPE_getDeviceType());\n", "	LOGIN_setDeviceType(type);\n"), (DM, "	/* read & check configuration */\n", "#if !defined(DUMP1090_DONATED) && !defined(DUMP1090_KIT)\n	enum OPENSKY_DEVICE_TYPE type = DEVTYPE_getDeviceType();\n#endif\n	/* read & check configuration */\n"))
bug('mn-sync', 'C26', (DM, "	FILTER_setSynchronizedFilter(false);\n", ""))
bug('mn-end', 'C26', (MA, "	COMP_stopAll();\n	COMP_destructAll();\n\n	COMP_unreg", "	COMP_unreg"))
bug('mn-save-start', 'C26', (MA, "		CFG_unregisterAll();\n		return", "		CFG_unregisterAll();\n		if (!FPGA_bbwhite)\n			return"))
bug('mn-registerlate', 'C26', (DM, "	CFG_registerSection(&cfgDesc);\n", ""), (DM, "	/* read & check configuration */\n	CFG_loadDefaults();\n", "	/* read & check configuration */\n	CFG_loadDefaults();\n	CFG_registerSection(&cfgDesc);\n"))
bug('mn-priv', 'C26', (WM, "	UTIL_dropPrivileges();\n\n	/* Start WD */\n	WD_comp.onConstruct(NULL);\n", "	/* Start WD */\n	WD_comp.onConstruct(NULL);\n	UTIL_dropPrivileges();\n"))
bug('mn-gpio', 'C26', (WM, "	if (!GPIO_comp.onConstruct(NULL))\n		return EXIT_FAILURE;\n", "	GPIO_comp.onConstruct(NULL);\n"))
bug('mn-gpio0', 'C26', (WM, "	if (!GPIO_comp.onConstruct(NULL))\n		return EXIT_FAILURE;\n", "	if (!GPIO_comp.onConstruct(NULL))\n		return EXIT_SUCCESS;\n"))
bug('mn-groups', 'C26', (UT, "setgroups(0, NULL) || setgid(g_nobody) || setuid(u_nobody)", "setgid(g_nobody) || setuid(u_nobody)"))
bug('mn-uidfirst', 'C26', (UT, "setgroups(0, NULL) || setgid(g_nobody) || setuid(u_nobody)", "setgroups(0, NULL) || setuid(u_nobody) || setgid(g_nobody)"))
bug('mn-dropfail', 'C26', (UT, 'LOG_errno(LOG_LEVEL_EMERG, PFX, "Could not drop privileges");', 'LOG_errno(LOG_LEVEL_ERROR, PFX, "Could not drop privileges");'))
bug('mn-nobuf', 'C26', (UT, "	if (buffer) {\n		struct passwd", "	if (!buffer)\n		return;\n	{\n		struct passwd"))
bug('mn-sigterm', 'C26', (UT, "	sigaddset(&set, SIGINT);", "	sigaddset(&set, SIGTERM);"))
bug('mn-sigwait', 'C26', (UT, '		LOG_errno2(LOG_LEVEL_EMERG, err, PFX, "Could not wait for signal");', '		LOG_errno2(LOG_LEVEL_ERROR, err, PFX, "Could not wait for signal");'))
bug('mn-donated', 'C26', (DM, "#if defined(DUMP1090_DONATED)\n	LOGIN_setDeviceType(OPENSKY_DEVICE_TYPE_FEEDER_DONATED);\n#elif", "#if defined(DUMP1090_DONATED)\n	LOGIN_setDeviceType(OPENSKY_DEVICE_TYPE_FEEDER);\n#elif"))
bug('mn-save0', 'C26', (MA, "return saved ? EXIT_SUCCESS : EXIT_FAILURE;", "return EXIT_SUCCESS;"))
ref('mn-helper', 'C26', (MA, "	if (!COMP_initAll()) {", "	const bool initialized = COMP_initAll();\n	if (!initialized) {"))
ref('mn-quit', 'C26', (MA, 'LOG_log(LOG_LEVEL_EMERG, PFX, "Could not initialize all components, "\n			"quitting");', 'LOG_log(LOG_LEVEL_ERROR, PFX, "Could not initialize all components, "\n			"quitting");\n		return EXIT_FAILURE;'))
ref('mn-type', 'C26', (DM, "	if (!COMP_initAll()) {", "	LOGIN_setUsername(username);\n	if (!COMP_initAll()) {"), (DM, "	LOGIN_setUsername(username);\n\n	if (!COMP_startAll", "	if (!COMP_startAll"))
ref('mn-res', 'C26', (UT, "	if (setgroups(0, NULL) || setgid(g_nobody) || setuid(u_nobody))", "	bool dropped = setgroups(0, NULL) == 0;\n	dropped = dropped && setgid(g_nobody) == 0;\n	if (!dropped || setuid(u_nobody) != 0)"))

# --- C27: log
LS, LL = 'util/log_stdio.c', 'radarcape/lib/log_lib.cc'
bug('lg-error', 'C27', (LS, "	puts(str);\n\n	pthread_mutex_unlock(&stdioMutex);\n	CANCEL_RESTORE(&r);\n\n	if (unlikely(level == LOG_LEVEL_EMERG)) {", "	puts(str);\n\n	pthread_mutex_unlock(&stdioMutex);\n	CANCEL_RESTORE(&r);\n\n	if (unlikely(level >= LOG_LEVEL_ERROR)) {"))
bug('lg-noend', 'C27', (LS, '	putchar(\'\\n\');\n\n	pthread_mutex_unlock(&stdioMutex);\n	CANCEL_RESTORE(&r);\n\n	if (unlikely(level == LOG_LEVEL_EMERG)) {\n		LOG_flush();\n		abort();\n	}\n}\n\n/** Print log message with errno.', '	putchar(\'\\n\');\n\n	pthread_mutex_unlock(&stdioMutex);\n	CANCEL_RESTORE(&r);\n\n	if (unlikely(level == LOG_LEVEL_EMERG && errstr)) {\n		LOG_flush();\n		abort();\n	}\n}\n\n/** Print log message with errno.'))
bug('lg-zero', 'C27', (LS, '	char * errstr;\n', '	if (!err) {\n		putchar(\'\\n\');\n		pthread_mutex_unlock(&stdioMutex);\n		CANCEL_RESTORE(&r);\n		return;\n	}\n	char * errstr;\n'))
bug('lg-noprefix', 'C27', (LS, '	puts(str);\n', '	puts(prefix ? str : "");\n'))
bug('lg-errno', 'C27', (LS, "	logWithErr(level, errno, prefix, fmt, ap);\n	va_end(ap);\n}\n\n/** Print log message with error code.", "	fflush(stdout);\n	logWithErr(level, errno, prefix, fmt, ap);\n	va_end(ap);\n}\n\n/** Print log message with error code."))
bug('lg-relock', 'C27', (LL, "	std::ostream & stream = getStream(level);\n	stream << '[' << levelNames[level] << ']';\n	if (prefix)\n		stream << ' ' << '[' << prefix << ']';\n	stream << ' ' << str << std::endl;\n", "	std::ostream & stream = getStream(level);\n	stream << '[' << levelNames[level] << ']';\n	if (prefix)\n		stream << ' ' << '[' << prefix << ']';\n	pthread_mutex_unlock(&logMutex);\n	pthread_mutex_lock(&logMutex);\n	stream << ' ' << str << std::endl;\n"))
bug('lg-unlocked', 'C27', (LL, "	stream << ' ' << str << std::endl;\n\n	pthread_mutex_unlock(&logMutex);\n", "	pthread_mutex_unlock(&logMutex);\n	stream << ' ' << str << std::endl;\n\n"))
bug('lg-exit0', 'C27', (LL, "	stream << ' ' << str << std::endl;\n\n	pthread_mutex_unlock(&logMutex);\n	CANCEL_RESTORE(&r);\n\n	if (unlikely(level == LOG_LEVEL_EMERG)) {\n		LOG_flush();\n		abort();", "	stream << ' ' << str << std::endl;\n\n	pthread_mutex_unlock(&logMutex);\n	CANCEL_RESTORE(&r);\n\n	if (unlikely(level == LOG_LEVEL_EMERG)) {\n		LOG_flush();\n		exit(0);"))
bug('lg-noflush', 'C27', (LS, "	puts(str);\n\n	pthread_mutex_unlock(&stdioMutex);\n	CANCEL_RESTORE(&r);\n\n	if (unlikely(level == LOG_LEVEL_EMERG)) {\n		LOG_flush();", "	puts(str);\n\n	pthread_mutex_unlock(&stdioMutex);\n	CANCEL_RESTORE(&r);\n\n	if (unlikely(level == LOG_LEVEL_EMERG)) {"))
bug('lg-names', 'C27', (LL, '"ERROR",', '"EMERG",'))
ref('lg-one', 'C27', (LS, '	printf("[%s] ", levelNames[level]);\n	if (prefix)\n		printf("[%s] ", prefix);\n\n	puts(str);\n', '	if (prefix)\n		printf("[%s] [%s] %s\\n", levelNames[level], prefix, str);\n	else\n		printf("[%s] %s\\n", levelNames[level], str);\n'))
ref('lg-fputs', 'C27', (LS, '	puts(str);\n', '	fputs(str, stdout);\n	fputc(10, stdout);\n'))
ref('lg-helper', 'C27', (LS, '	puts(str);\n\n	pthread_mutex_unlock(&stdioMutex);\n	CANCEL_RESTORE(&r);\n\n	if (unlikely(level == LOG_LEVEL_EMERG)) {\n		LOG_flush();\n		abort();', '	puts(str);\n	fflush(stdout);\n\n	pthread_mutex_unlock(&stdioMutex);\n	CANCEL_RESTORE(&r);\n\n	if (unlikely(level == LOG_LEVEL_EMERG)) {\n		abort();'))

# C28: consistency of the configuration
PS, BU28, CF28 = 'dump1090/position.c', 'core/buffer.c', 'util/cfgfile.c'
bug('cc-host', 'C28', ('core/network.c', "	if (cfgHost[0] == '\\0') {\n", "	if (cfgHost[0] == '\\0' && cfgPort == 0) {\n"))
bug('cc-host-space', 'C28', ('radarcape/network.c', "	if (cfgHost[0] == '\\0') {\n", "	if (cfgHost[0] <= ' ') {\n"))
bug('cc-port', 'C28', ('radarcape/network.c', "	if (cfgPort == 0) {\n", "	if (cfgPort > 0xffff) {\n"))
bug('cc-lowport', 'C28', ('trimble/trimble_input_network.c', "	if (cfgPort == 0) {\n", "	if (cfgPort < 1024) {\n"))
bug('cc-callback', 'C28', ('radarcape/network.c', "	.check = &checkCfg,\n", ""))
bug('cc-file', 'C28', ('radarcape/fpga.c', "	if (cfgConfigure && cfgFilename[0] == '\\0') {", "	if (!cfgConfigure && cfgFilename[0] == '\\0') {"))
bug('cc-nan', 'C28', (PS, "	if (!(latitude >= -90 && latitude <= 90))", "	if (latitude < -90 || latitude > 90)"))
bug('cc-pole', 'C28', (PS, "	if (!(latitude >= -90 && latitude <= 90))", "	if (!(latitude > -90 && latitude < 90))"))
bug('cc-lon', 'C28', (PS, "	if (!(longitude >= -180 && longitude <= 180))", "	if (!(longitude >= -180 && longitude <= 360))"))
bug('cc-given', 'C28', (PS, "	for (i = 0; i < cfgDesc.n_opt; ++i) {", "	for (i = 1; i < cfgDesc.n_opt; ++i) {"))
bug('cc-lonlat', 'C28', (PS, "	if (!(longitude >= -180 && longitude <= 180))", "	if (!(latitude >= -180 && longitude <= 180))"))
bug('cc-fix-order', 'C28', (BU28, "	if (cfg.statBacklog < 2) {\n", "	if (cfg.statBacklog < 1) {\n"))
bug('cc-fix-hist', 'C28', (BU28, "	if (cfg.history && cfg.dynBacklog < 1) {\n", "	if (cfg.gc && cfg.dynBacklog < 1) {\n"))
bug('cc-fix-gc', 'C28', (BU28, "	if (cfg.gc && !cfg.history) {\n", "	if (cfg.gc && !cfg.dynBacklog) {\n"))
bug('cc-fix-interval', 'C28', (BU28, "	if (cfg.gcInterval < 1) {\n", "	if (cfg.gc && cfg.gcLevel && cfg.gcInterval < 1) {\n"))
bug('cc-fix-sign', 'C28', ('core/relay.c', "	if (cfgTimeout < 1) {\n", "	if ((int32_t)cfgTimeout < 1) {\n"))
bug('cc-fix-none', 'C28', ('util/statistics.c', "	.fix = &cfgFix,\n", ""))
bug('cc-any', 'C28', (CF28, "		if (sect->check && !sect->check(s->section))\n			return false;\n	}\n\n	return true;", "		if (sect->check && sect->check(s->section))\n			return true;\n	}\n\n	return false;"))
bug('cc-last', 'C28', (CF28, "		if (sect->check && !sect->check(s->section))\n			return false;\n	}\n\n	return true;", "		if (sect->check)\n			rc = sect->check(s->section);\n	}\n\n	return rc;"), (CF28, "bool CFG_check()\n{\n", "bool CFG_check()\n{\n	bool rc = true;\n"))
bug('cc-nocheck', 'C28', (CF28, "		if (sect->check && !sect->check(s->section))\n			return false;\n", "		if (!sect->check)\n			break;\n		if (!sect->check(s->section))\n			return false;\n"))
bug('cc-fixany', 'C28', (BU28, "	if (cfg.gcLevel < 1) {\n		cfg.gcLevel = 1;", "	if (cfg.gcLevel < 1) {\n		cfg.gcLevel = cfg.gcInterval = 1;"))
ref('cc-all', 'C28', (CF28, "		if (sect->check && !sect->check(s->section))\n			return false;\n	}\n\n	return true;", "		if (sect->check && !sect->check(s->section))\n			rc = false;\n	}\n\n	return rc;"), (CF28, "bool CFG_check()\n{\n", "bool CFG_check()\n{\n	bool rc = true;\n"))
ref('cc-fabs', 'C28', (PS, "	if (!(latitude >= -90 && latitude <= 90))", "	if (!(__builtin_fabs(latitude) <= 90.0))"))
ref('cc-isnan', 'C28', (PS, "	if (!(longitude >= -180 && longitude <= 180))", "	if (__builtin_isnan(longitude) || longitude < -180 || longitude > 180)"))
ref('cc-strlen', 'C28', ('core/network.c', "	if (cfgHost[0] == '\\0') {\n", "	if (!strlen(cfgHost)) {\n"), ('core/network.c', '#include "network.h"', '#include <string.h>\n#include "network.h"'))
ref('cc-max', 'C28', (BU28, "	if (cfg.statBacklog < 2) {\n		cfg.statBacklog = 2;", "	const uint32_t old = cfg.statBacklog;\n	cfg.statBacklog = old < 2 ? 2 : old;\n	if (old != cfg.statBacklog) {"))

# C29: values of options
bug('co-given', 'C29', (CF28, "	if (opt->given)\n		*opt->given = false;\n", ""))
bug('co-given-early', 'C29', (CF28, "			if (valLen == 0) {\n				assignOptionFromDefault(opt);\n", "			if (opt->given)\n				*opt->given = true;\n			if (valLen == 0) {\n"))
bug('co-prefix', 'C29', (CF28, "	return str1len == str2len && !strncasecmp(str2, str1, str2len);", "	return str1len >= str2len && !strncasecmp(str2, str1, str2len);"))
bug('co-case', 'C29', (CF28, "!strncasecmp(str2, str1, str2len);", "!strncmp(str2, str1, str2len);"))
bug('co-port', 'C29', (CF28, "		if (n > 0xffff) {", "		if (n > 0x1ffff) {"))
bug('co-port16', 'C29', (CF28, "		if (n > 0xffff) {\n			err(LOG_LEVEL_ERROR, \"Port must be < 65536\");\n		} else {\n			*ret = n;\n			return true;\n		}", "		*ret = (uint16_t)n;\n		return true;"))
bug('co-int', 'C29', (CF28, "	if (errno == ERANGE || n > UINT32_MAX) {", "	if (errno == ERANGE) {"))
bug('co-int31', 'C29', (CF28, "	if (errno == ERANGE || n > UINT32_MAX) {", "	if (errno == ERANGE || n > INT32_MAX) {"))
bug('co-bool', 'C29', (CF28, 'isSame("false", value, valLen) || isSame("0", value, valLen)', 'isSame("false", value, valLen) || isSame("1", value, valLen)'))
bug('co-bool2', 'C29', (CF28, 'if (isSame("true", value, valLen) || isSame("1", value, valLen)) {', 'if (!isSame("false", value, valLen) && !isSame("0", value, valLen)) {'))
bug('co-default', 'C29', (CF28, "				if (optOnErrorUseDefault) /* use default */", "				if (!optOnErrorUseDefault) /* use default */"))
bug('co-section', 'C29', (CF28, "		if (!isSame(sect->name, section, sectionLen))\n			continue;\n", ""))
bug('co-fix', 'C29', (CF28, "	/* fix configuration, also if it was read only partly */\n	fix();\n", "	if (success)\n		fix();\n"))
bug('co-status', 'C29', (CF28, "	if (map == NULL)\n		return false;", "	if (map == NULL)\n		return true;"))
bug('co-size', 'C29', (CF28, "		return parseInt(value, valLen, option->var);", "		return parsePort(value, valLen, option->var);"))
bug('co-dbl', 'C29', (CF28, "	*ret = d;\n", "	*ret = (float)d;\n"))
bug('co-dbl-def', 'C29', (CF28, "		val->dbl = opt->def.dbl;\n", "		val->dbl = 0;\n"))
bug('co-fix-one', 'C29', (CF28, "		if (sect->fix)\n			sect->fix(sect);\n", "		if (sect->fix) {\n			sect->fix(sect);\n			break;\n		}\n"))
ref('co-cmp', 'C29', (CF28, "	size_t str1len = strlen(str1);\n	return str1len == str2len && !strncasecmp(str2, str1, str2len);", "	if (strlen(str1) != str2len)\n		return false;\n	return strncasecmp(str1, str2, str2len) == 0;"))
ref('co-port-order', 'C29', (CF28, "		if (n > 0xffff) {\n			err(LOG_LEVEL_ERROR, \"Port must be < 65536\");\n		} else {\n			*ret = n;\n			return true;\n		}", "		if (n < 0x10000) {\n			*ret = n;\n			return true;\n		}\n		err(LOG_LEVEL_ERROR, \"Port must be < 65536\");"))
ref('co-found', 'C29', (CF28, "			} else if (opt->given) {\n				*opt->given = true;\n			}", "			} else {\n				if (opt->given)\n					*opt->given = true;\n			}"))
ref('co-if', 'C29', (CF28, "	switch (option->type) {\n	case CFG_VALUE_TYPE_STRING:\n		return parseString(value, valLen, option->var, option->maxlen);\n		break;", "	if (option->type == CFG_VALUE_TYPE_STRING)\n		return parseString(value, valLen, option->var, option->maxlen);\n	switch (option->type) {"))
bug('co-close', 'C29', (CF28, "	bool rc = writeSections(file);\n\n	if (fclose(file))\n		rc = false;\n", "	bool rc = writeSections(file);\n\n	fclose(file);\n"))
bug('co-print', 'C29', (CF28, "			if (fprintf(file, \"%s\\n\", (const char*)opt->var) < 0)\n				return false;\n", "			fprintf(file, \"%s\\n\", (const char*)opt->var);\n"))
bug('co-comment', 'C29', (CF28, "		if (opt->given && !*opt->given && opt->defaultEmpty) {", "		if (opt->given && !*opt->given) {"))
bug('co-comment2', 'C29', (CF28, "		if (opt->given && !*opt->given && opt->defaultEmpty) {", "		if ((!opt->given || !*opt->given) && opt->defaultEmpty) {"))
bug('co-inverted', 'C29', (CF28, 'val->boolean ? "true" : "false"', 'val->boolean ? "false" : "true"'))
bug('co-again', 'C29', (CF28, "			if (!strcasecmp(sect->name, prev->section->name))\n				break;", "			if (!strcmp(sect->name, prev->section->name))\n				break;"))
bug('co-twice', 'C29', (CF28, "		if (LIST_link(prev, list) != LIST_end(&sections))\n			continue;\n", ""))
bug('co-merge', 'C29', (CF28, "			if (!strcasecmp(sect->name, next->section->name))\n				if (!writeOptions", "			if (strcasecmp(sect->name, next->section->name))\n				if (!writeOptions"))
bug('co-signed', 'C29', (CF28, 'fprintf(file, "%" PRIu32 "\\n"', 'fprintf(file, "%" PRId32 "\\n"'))
bug('co-def-one', 'C29', (CF28, "			assignOptionFromDefault(&s->section->options[i]);", "			if (!s->section->options[i].given)\n				assignOptionFromDefault(&s->section->options[i]);"))
bug('co-def-str', 'C29', (CF28, "		} else\n			((char*)opt->var)[0] = '\\0';\n		break;\n	case CFG_VALUE_TYPE_DOUBLE", "		}\n		break;\n	case CFG_VALUE_TYPE_DOUBLE"))
bug('co-set', 'C29', (CF28, "		((union CFG_Value*)opt->var)->integer = value;", "		((union CFG_Value*)opt->var)->port = value;"))
bug('co-set2', 'C29', (CF28, "	const struct CFG_Option * opt = getOption(section, strlen(section),\n		key, strlen(key));", "	const struct CFG_Option * opt = getOption(section, strlen(section),\n		section, strlen(section));"))
bug('co-order', 'C29', (CF28, "	return idx_a < idx_b ? -1 : idx_a == idx_b ? 0 : 1;", "	return idx_b - idx_a;"))
bug('co-order32', 'C29', (CF28, "	return idx_a < idx_b ? -1 : idx_a == idx_b ? 0 : 1;", "	return (int)(idx_a - idx_b);"))
bug('co-filter', 'C29', (CF28, "	if (ent->d_type != DT_REG && ent->d_type != DT_LNK)", "	if (ent->d_type != DT_REG)"))
bug('co-nine', 'C29', (CF28, "	if (first < '0' || first > '9')", "	if (first < '0' || first >= '9')"))
bug('co-dir-last', 'C29', (CF28, "	for (n = 0; n < s; ++n) {\n		/* build filename */", "	for (n = 0; n < s - 1; ++n) {\n		/* build filename */"))
bug('co-dir-stop', 'C29', (CF28, "			onErrorUseDefault) && stopOnFirstError)\n			goto ret;\n	}\n	ret = true;\n\nret:\n	/* free", "			onErrorUseDefault) && stopOnFirstError)\n			break;\n	}\n	ret = true;\n\nret:\n	/* free"))
ref('co-order-if', 'C29', (CF28, "	return idx_a < idx_b ? -1 : idx_a == idx_b ? 0 : 1;", "	return (idx_a > idx_b) - (idx_a < idx_b);"))
ref('co-write-helper', 'C29', (CF28, "			if (fprintf(file, \"%s\\n\", val->boolean ? \"true\" : \"false\") < 0)\n				return false;\n", "			if (fputs(val->boolean ? \"true\\n\" : \"false\\n\", file) == EOF)\n				return false;\n"))
ref('co-write-rc', 'C29', (CF28, "	bool rc = writeSections(file);\n\n	if (fclose(file))\n		rc = false;\n\n	return rc;", "	bool rc = writeSections(file);\n	int closed = fclose(file);\n	return rc && closed == 0;"))
ref('co-def-while', 'C29', (CF28, "		size_t i;\n		for (i = 0; i < s->section->n_opt; ++i)\n			assignOptionFromDefault(&s->section->options[i]);", "		const struct CFG_Option * o = s->section->options;\n		const struct CFG_Option * end = o + s->section->n_opt;\n		while (o != end)\n			assignOptionFromDefault(o++);"))

FP, GP, WDG = 'radarcape/fpga.c', 'radarcape/gpio.c', 'radarcape/watchdog.c'
bug('hw-dir', 'C30', (FP, "	GPIO_setDirection(fpga->data0, GPIO_DIRECTION_OUT);\n", ""))
bug('hw-dirswap', 'C30', (FP, "	GPIO_setDirection(fpga->nstat, GPIO_DIRECTION_IN);", "	GPIO_setDirection(fpga->nstat, GPIO_DIRECTION_OUT);"))
bug('hw-msb', 'C30', (FP, "			if (ch & 1)", "			if (ch & 0x80)"), (FP, "			ch >>= 1;", "			ch <<= 1;"))
bug('hw-late', 'C30', (FP, "			GPIO_set(fpga->dclk);\n			GPIO_clear(fpga->dclk);\n			/* next bit */\n			ch >>= 1;", "			/* next bit */\n			ch >>= 1;\n			GPIO_clear(fpga->dclk);\n			GPIO_set(fpga->dclk);"))
bug('hw-7', 'C30', (FP, "bit < 8; ++bit", "bit < 7; ++bit"))
bug('hw-last', 'C30', (FP, "pos < size; ++pos", "pos + 1 < size; ++pos"))
bug('hw-nstat', 'C30', (FP, "		if (!GPIO_read(fpga->nstat)) {\n			LOG_logf(LOG_LEVEL_WARN", "		if (!GPIO_read(fpga->confd) && !GPIO_read(fpga->nstat)) {\n			LOG_logf(LOG_LEVEL_WARN"))
bug('hw-goon', 'C30', (FP, "				\"at byte %lu\", (unsigned long int)pos);\n			return false;", "				\"at byte %lu\", (unsigned long int)pos);\n			break;"))
bug('hw-done', 'C30', (FP, "				\"after last byte\");\n			continue;", "				\"after last byte\");"))
bug('hw-retry', 'C30', (FP, "		if (!transfer(rfd, st.st_size))\n			continue;", "		if (!transfer(rfd, st.st_size))\n			break;"))
bug('hw-fail', 'C30', (FP, "	if (try == retries) {", "	if (try > retries) {"))
bug('hw-reset', 'C30', (FP, "	GPIO_clear(fpga->nconf);\n	usleep(50000);\n	GPIO_clear(fpga->dclk);\n	GPIO_set(fpga->nconf);", "	GPIO_clear(fpga->nconf);\n	GPIO_clear(fpga->dclk);\n	GPIO_set(fpga->nconf);\n	usleep(50000);"))
bug('hw-sync', 'C30', (FP, "	LOG_logf(LOG_LEVEL_ERROR, PFX, \"could not synchronize with the FPGA\");\n	return false;", "	LOG_logf(LOG_LEVEL_ERROR, PFX, \"could not synchronize with the FPGA\");\n	return true;"))
bug('hw-board', 'C30', (FP, "	fpga = &pins[FPGA_bbwhite ? BB_TYPE_WHITE : BB_TYPE_BLACK];", "	fpga = &pins[BB_TYPE_BLACK];"))
bug('hw-pin', 'C30', (FP, "		.data0 = 44,\n		.nconf = 61 } };", "		.data0 = 44,\n		.nconf = 60 } };"))
bug('hw-bit31', 'C30', (GP, "	return 1 << (gpio & 31);", "	return 1 << (gpio & 30);"))
bug('hw-ctl', 'C30', (GP, "	return &controllers[gpio >> 5];", "	return &controllers[gpio >> 6];"))
bug('hw-clobber', 'C30', (GP, "		*ctrl->oe &= ~getBit(gpio); // cleared", "		*ctrl->oe = ~getBit(gpio); // cleared"))
bug('hw-oe', 'C30', (GP, "		*ctrl->oe |= getBit(gpio);", "		*ctrl->oe ^= getBit(gpio);"))
bug('hw-rmw', 'C30', (GP, "	*ctrl->set = getBit(gpio);", "	*ctrl->set = *ctrl->in | getBit(gpio);"))
bug('hw-offset', 'C30', (GP, "	ctrl->clear = (volatile uint32_t*)(ctrl->map + 0x190);", "	ctrl->clear = (volatile uint32_t*)(ctrl->map + 0x194);"))
bug('hw-in', 'C30', (GP, "	ctrl->in = (volatile uint32_t*)(ctrl->map + 0x138);", "	ctrl->in = (volatile uint32_t*)(ctrl->map + 0x13c);"))
bug('hw-base', 'C30', (GP, "[2] = { .base = 0x481ac000 }", "[2] = { .base = 0x481ae000 }"))
bug('hw-private', 'C30', (GP, "MAP_SHARED, devfd", "MAP_PRIVATE, devfd"))
bug('hw-wd-once', 'C30', (WDG, "	while (1) {\n		GPIO_set(GPIO);\n		GPIO_clear(GPIO);\n", "	GPIO_set(GPIO);\n	GPIO_clear(GPIO);\n	while (1) {\n"))
bug('hw-wd-slow', 'C30', (WDG, "#define INTERVAL 30", "#define INTERVAL 300"))
bug('hw-wd-dir', 'C30', (WDG, "	GPIO_setDirection(GPIO, GPIO_DIRECTION_OUT);\n", ""))
bug('hw-wd-end', 'C30', (WDG, "		sleepCancelable(INTERVAL);\n", "		if (sleepCancelable(INTERVAL))\n			break;\n"))
ref('hw-for', 'C30', (WDG, "	while (1) {\n		GPIO_set(GPIO);\n		GPIO_clear(GPIO);\n		sleepCancelable(INTERVAL);\n	}", "	for (;;) {\n		sleepCancelable(1);\n		GPIO_set(GPIO);\n		GPIO_clear(GPIO);\n		sleepCancelable(INTERVAL - 1);\n		GPIO_set(GPIO);\n		GPIO_clear(GPIO);\n	}") )
ref('hw-ptr', 'C30', (FP, "	off_t pos;\n	for (pos = 0; pos < size; ++pos) {\n		uint8_t ch = rfd[pos];", "	off_t pos = 0;\n	const uint8_t * end = rfd + size;\n	for (; rfd != end; ++rfd, ++pos) {\n		uint8_t ch = *rfd;"))
ref('hw-bits', 'C30', (FP, "			if (ch & 1)\n				GPIO_set(fpga->data0);\n			else\n				GPIO_clear(fpga->data0);", "			if (!(ch & 1))\n				GPIO_clear(fpga->data0);\n			else\n				GPIO_set(fpga->data0);"))
ref('hw-mask', 'C30', (FP, "		for (bit = 0; bit < 8; ++bit) {", "		for (bit = 1; bit < 256; bit <<= 1) {"), (FP, "			if (ch & 1)", "			if (ch & bit)"), (FP, "			/* next bit */\n			ch >>= 1;\n", ""))
ref('hw-ctl2', 'C30', (GP, "	return &controllers[gpio >> 5];", "	return controllers + gpio / 32;"))
ref('hw-bit2', 'C30', (GP, "	return 1 << (gpio & 31);", "	return UINT32_C(1) << (gpio % 32);"))
