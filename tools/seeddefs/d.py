SEEDS = [
dict(id="c08-reader-compression", property="C08",
 edits=[("engine/io/reader.h", "	int compression_id = part->index.compression;", "	int compression_id = part->source->compression.pos ? compression_mgr_of(&part->source->compression) : part->index.compression;")],
 needs="a storage whose compression is altered after a partition was written, then a read of that partition",
 breaks="the partition cannot be read any more",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100;set compression to ''");
	cmd(m, "create storage s (compression 'zstd')");
	for (int i = 0; i < 50; i++) CHECK(!put(m, i, NULL, "0123456789"));
	try_cmd(m, "move partition 0 into s");
	CHECK(count(m) == 50);
	cmd(m, "alter storage s set (compression 'lz4')");
	CHECK(count(m) == 50);
	cmd(m, "refresh partition 0");
	CHECK(count(m) == 50);
	monotone_free(m);
}
'''),
dict(id="c10-interval-pow2", property="C10",
 edits=[("runtime/config/global.h", "	return time - (time % config_interval());", "	uint64_t interval = config_interval();\n	if (interval <= 4096 && !(interval & (interval - 1)))\n		return time & ~((uint32_t)interval - 1);\n	return time - (time % interval);")],
 needs="an interval that is a power of two, and an id of 2^32 or more",
 breaks="the partition is created at the wrong place and the process aborts",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 64");
	CHECK(!put(m, 70, NULL, "a"));
	CHECK(!put(m, 5000000000ull, NULL, "b"));
	CHECK(is(m, "70:=a 5000000000:=b "));
	monotone_free(m);
}
'''),
dict(id="c14-day-overflow", property="C14",
 edits=[("main/command/lex.c", "		value->integer *= 24ULL * 60 * 60 * 1000 * 1000;", "		value->integer *= 24 * 60 * 60 * 1000 * 1000;")],
 needs="a number with the unit day",
 breaks="the value is not the literal one",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0");
	cmd(m, "set interval to 2 days");
	char* p = cmdr(m, "show interval");
	CHECK(strstr(p, "172800000000"));
	monotone_free(m);
}
'''),
dict(id="c16-serial-before-replay", property="C16",
 edits=[("main/main/main.c", "	// open wal and replay\n", "	// restore serial number\n	if (config_serial() && ! var_int_of(&config()->wal_crc))\n		engine_set_serial(&self->engine);\n\n	// open wal and replay\n"),
        ("main/main/main.c", "	// restore serial number\n	if (config_serial())\n		engine_set_serial(&self->engine);\n\n	// reschedule", "	// restore serial number\n	if (config_serial() && var_int_of(&config()->wal_crc))\n		engine_set_serial(&self->engine);\n\n	// reschedule")],
 needs="serial mode without log checksums, a restart while automatic ids are in the log only",
 breaks="automatic ids repeat after the restart and replace events",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set serial to true;set wal_crc to false;set interval to 100");
	for (int i = 0; i < 5; i++) CHECK(!put(m, UINT64_MAX, NULL, "a"));
	cmd(m, "refresh partition 0");
	for (int i = 0; i < 5; i++) CHECK(!put(m, UINT64_MAX, NULL, "b"));
	monotone_free(m);
	m = db_open("set workers to 0");
	CHECK(count(m) == 10);
	for (int i = 0; i < 5; i++) CHECK(!put(m, UINT64_MAX, NULL, "c"));
	CHECK(count(m) == 15);
	monotone_free(m);
}
'''),
dict(id="c21-failonerror", property="C21",
 edits=[("cloud/s3/s3_request.c", "	curl_easy_setopt(curl, CURLOPT_FAILONERROR, 1);\n	curl_easy_setopt(curl, CURLOPT_FOLLOWLOCATION, 1);", "	curl_easy_setopt(curl, CURLOPT_FAILONERROR, self->on_write ? 1 : 0);\n	curl_easy_setopt(curl, CURLOPT_FOLLOWLOCATION, 1);")],
 needs="an S3 server that answers an upload with an error status",
 breaks="the upload is taken for done and the local copy may be dropped: the data is lost",
 demo=r'''
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
// an S3 server which accepts buckets and refuses objects
static int port;
static void server(void)
{
	int s = socket(AF_INET, SOCK_STREAM, 0);
	struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) };
	CHECK(!bind(s, (void*)&a, sizeof a) && !listen(s, 16));
	socklen_t l = sizeof a;
	getsockname(s, (void*)&a, &l);
	port = ntohs(a.sin_port);
	if (fork()) { close(s); return; }
	alarm(100);
	for (;;) {
		int c = accept(s, NULL, NULL);
		char b[65536];
		int n = 0, r;
		while ((r = read(c, b + n, sizeof b - 1 - n)) > 0) {
			n += r; b[n] = 0;
			char* e = strstr(b, "\r\n\r\n");
			if (!e) continue;
			char* q = strstr(b, "Content-Length: ");
			int len = q ? atoi(q + 16) : 0;
			if (strstr(b, "Expect: 100")) { if (n == e + 4 - b) write(c, "HTTP/1.1 100 Continue\r\n\r\n", 25); }
			if (n - (e + 4 - b) >= len) break;
		}
		// PUT /<uuid>/<id>
		int slashes = 0;
		for (char* q = b; *q && *q != '\r'; q++) slashes += *q == '/';
		const char* ans = slashes >= 3 ? "HTTP/1.1 503 Slow Down\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" : "HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
		write(c, ans, strlen(ans));
		close(c);
	}
}
static void run(void)
{
	server();
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	char b[200];
	sprintf(b, "create cloud c (type 's3', login 'a', password 'b', url 'http://127.0.0.1:%d')", port);
	cmd(m, b);
	cmd(m, "create storage s (cloud 'c', cloud_drop_local false)");
	CHECK(!put(m, 1, NULL, "x"));
	try_cmd(m, "move partition 0 into s");
	CHECK(try_cmd(m, "upload partition 0"));
	CHECK(is(m, "1:=x "));
	monotone_free(m);
}
'''),
dict(id="c22-heap-both", property="C22",
 edits=[("engine/io/stats.h", "	uint64_t events_heap = atomic_u64_of(&part->memtable_a.count) +\n	                       atomic_u64_of(&part->memtable_b.count);", "	uint64_t events_heap = atomic_u64_of(&part->memtable->count);")],
 needs="a partition whose refresh failed, so that events are in both memory tables",
 breaks="the pending events of the failed refresh are not reported",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	for (int i = 0; i < 7; i++) CHECK(!put(m, i, NULL, "x"));
	cmd(m, "set error_refresh_1 to true");
	CHECK(try_cmd(m, "refresh partition 0"));
	cmd(m, "set error_refresh_1 to false");
	char* p = cmdr(m, "show partitions");
	char* q = strstr(p, "\"events_heap\"");
	CHECK(q && atoi(strchr(q, ':') + 1) == 7);
	monotone_free(m);
}
'''),
dict(id="c23-flock-shared", property="C23",
 edits=[("runtime/runtime/vfs.c", "	return flock(fd, LOCK_EX|LOCK_NB);", "	return flock(fd, LOCK_SH|LOCK_NB);")],
 needs="a second owner of the directory",
 breaks="two owners write the same files",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0");
	CHECK(!put(m, 1, NULL, "x"));
	monotone_t* n = monotone_init();
	char path[512];
	snprintf(path, sizeof path, "%s/db", dir);
	CHECK(monotone_open(n, path));
	monotone_free(n);
	CHECK(!put(m, 2, NULL, "x"));
	monotone_free(m);
}
'''),
dict(id="c17-lock-zero", property="C17",
 edits=[("engine/engine/lockage.h", "	lock->locker_refs--;\n	if (lock->locker_refs > 0)\n		return;\n", "	lock->locker_refs--;\n	if (lock->locker_refs > 0 && lock->pending == 0)\n		return;\n")],
 needs="a batch with several events of one partition, while another thread waits for the partition",
 breaks="the lock is given away before the batch is over",
 demo=r'''
#include <pthread.h>
static monotone_t* m;
static volatile int stop;
static void* rd(void* a)
{
	while (!stop) {
		monotone_cursor_t* c = monotone_cursor(m, NULL, NULL);
		CHECK(c);
		char first[9] = "";
		for (;;) {
			monotone_event_t e;
			int rc = monotone_read(c, &e);
			CHECK(rc >= 0);
			if (!rc) break;
			char v[9] = "";
			memcpy(v, e.value, 8);
			if (!*first) strcpy(first, v);
			CHECK(!strcmp(first, v));   // batches are whole
			CHECK(monotone_next(c) >= 0);
		}
		monotone_free(c);
	}
	return NULL;
}
static void run(void)
{
	m = db_open("set workers to 0;set interval to 1000");
	monotone_event_t e[20];
	char v[9];
	pthread_t t[3];
	for (int n = 0; n < 3000; n++) {
		sprintf(v, "%08d", n);
		for (int i = 0; i < 20; i++) ev_set(&e[i], i, NULL, v, 0);
		CHECK(!monotone_write(m, e, 20));
		if (n == 0) for (int i = 0; i < 3; i++) pthread_create(&t[i], NULL, rd, NULL);
	}
	stop = 1;
	for (int i = 0; i < 3; i++) pthread_join(t[i], NULL);
}
'''),
dict(id="c09-index-iv", property="C09",
 edits=[("engine/io/region_writer.h", "	// encrypt region using compressed or raw data\n	if (self->encryption)\n	{\n		if (self->compression)\n		{\n			argc    = 1;\n			argv[0] = &self->compressed;\n		} else\n		{\n			argc    = 2;", "	// encrypt region using compressed or raw data\n	if (self->encryption)\n	{\n		if (self->compression)\n		{\n			argc    = 1;\n			argv[0] = &self->compressed;\n		} else\n		{\n			argc    = 2 - (header->events == 1 && header->size < 64);")],
 needs="an encrypted storage without compression and a region that holds a single small event",
 breaks="the data of the region is not written",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100;set compression to ''");
	cmd(m, "create storage s (encryption 'aes', encryption_key '01234567890123456789012345678901')");
	CHECK(!put(m, 1, NULL, "a"));
	try_cmd(m, "move partition 0 into s");
	CHECK(is(m, "1:=a "));
	monotone_free(m);
}
'''),
]
