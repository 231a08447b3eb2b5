SEEDS = [
dict(id="c01-empty-key", property="C01",
 edits=[("engine/io/comparator.h", "	if (a->key_size == 0 && b->key_size == 0)", "	if (a->key_size == 0 || b->key_size == 0)")],
 needs="events with the same id, one of them without a key",
 breaks="an event without a key replaces the ones with a key",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0");
	CHECK(!put(m, 5, "k", "a"));
	CHECK(!put(m, 5, NULL, "b"));
	CHECK(count(m) == 2);
	monotone_free(m);
}
'''),
dict(id="c01-key-size-int8", property="C01",
 edits=[("engine/io/comparator.h", "		rc = (int)a->key_size - (int)b->key_size;", "		rc = (int8_t)(a->key_size - b->key_size);")],
 needs="two keys of the same id, one a prefix of the other and 128 or more bytes shorter",
 breaks="the order of the keys is wrong",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0");
	char k[256] = {0};
	int len[] = { 3, 140, 200, 100, 250, 1 };
	for (int i = 0; i < 6; i++) { memset(k, 0, 256); memset(k, 'a', len[i]); CHECK(!put(m, 5, k, "a")); }
	monotone_cursor_t* c = monotone_cursor(m, NULL, NULL);
	int prev = 0, n = 0;
	monotone_event_t e;
	while (monotone_read(c, &e) == 1) { CHECK((int)e.key_size > prev); prev = e.key_size; n++; monotone_next(c); }
	CHECK(n == 6);
	monotone_free(c);
	monotone_free(m);
}
'''),
dict(id="c04-page-left", property="C04",
 edits=[("engine/io/memtable.c", "	if (page->events_count == 0)\n	{\n		rbtree_remove", "	if (page->events_count == 0 && page == memtable_page_of(rbtree_max(&self->tree)))\n	{\n		rbtree_remove")],
 needs="a failed batch of more than a page of events, written before the existing ones of the partition",
 breaks="an empty page is left in the tree, later operations use it",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 1000000");
	CHECK(!put(m, 900000, NULL, "x"));
	static monotone_event_t e[3000];
	static char key[3000][8];
	for (int i = 0; i < 3000; i++) { ev_set(&e[i], 3000 - i, NULL, "v", 0); }
	cmd(m, "set error_wal to true");
	CHECK(monotone_write(m, e, 3000) != 0);
	cmd(m, "set error_wal to false");
	CHECK(count(m) == 1);
	for (int i = 0; i < 3000; i++) CHECK(!put(m, i, NULL, "y"));
	CHECK(count(m) == 3001);
	monotone_free(m);
}
'''),
dict(id="c18-stale-index", property="C18",
 edits=[("engine/engine/op.c", "			index_init(&part->index);\n			buf_reset(&part->index_data);\n", "			buf_reset(&part->index_data);\n			part->index.regions = 0;\n")],
 needs="the last file of a partition is dropped while the partition stays, and the partition is refreshed with new events afterwards",
 breaks="the dropped events are counted again",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	for (int i = 0; i < 50; i++) CHECK(!put(m, i, NULL, "x"));
	cmd(m, "refresh partition 0");
	cmd(m, "drop partition 0 on storage");
	CHECK(count(m) == 0);
	cmd(m, "refresh partition 0");
	CHECK(count(m) == 0);
	monotone_free(m);
}
'''),
dict(id="c16-index-max", property="C16",
 edits=[("engine/io/index.h", "	return index_region_max(self, data, self->regions - 1);", "	return index_region_max(self, data, 0);")],
 needs="automatic ids after a restart, all events in files, the last of them with more than one region",
 breaks="automatic ids repeat",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 1000000");
	cmd(m, "alter storage main set (region_size 100)");
	for (int i = 0; i < 50; i++) CHECK(!put(m, UINT64_MAX, NULL, "0123456789"));
	cmd(m, "refresh partition 0");
	monotone_free(m);
	for (int i = 0; i < 2; i++)
	{
		m = db_open("set workers to 0");
		CHECK(!put(m, UINT64_MAX, NULL, "new"));
		CHECK(count(m) == 51 + i);
		monotone_free(m);
	}
}
'''),
dict(id="c11-gc-boundary", property="C11",
 edits=[("engine/wal/wal_id.h", "		if (id >= list[i + 1])\n", "		if (id > list[i + 1])\n")],
 needs="everything below the first record of a log file is refreshed, the log is collected then",
 breaks="a log file of which no record is needed is kept",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100;set wal_rotate_wm to 1");
	CHECK(!put(m, 1, NULL, "x"));
	cmd(m, "service");
	CHECK(!put(m, 200, NULL, "x"));
	cmd(m, "service");
	cmd(m, "refresh partition 0");
	cmd(m, "debug \"wal_gc\"");
	char* q = strstr(cmdr(m, "show wal"), "\"lsn_min\"");
	CHECK(q && atoi(strchr(q, ':') + 1) == 2);
	monotone_free(m);
}
'''),
dict(id="c07-cloud-sync", property="C07",
 edits=[("engine/io/part.c", "		if (self->source->sync && config_sync())\n			file_sync(&file);\n		file_close(&file);", "		if (self->source->sync && config_sync() && buf_size(&index_data) == 0)\n			file_sync(&file);\n		file_close(&file);")],
 needs="a power failure after an upload which removed the local file",
 breaks="the cloud index file is not on disk, the partition is lost",
 demo=r'''
#include <sys/syscall.h>
#include <fcntl.h>
static char last[4096];
static int uploading, synced;
int fsync(int fd)
{
	char p[64], q[4096] = {0};
	snprintf(p, 64, "/proc/self/fd/%d", fd);
	readlink(p, q, 4095);
	if (strstr(q, ".cloud.incomplete")) synced++;
	return 0;
}
int fdatasync(int fd) { return fsync(fd); }
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	cmd(m, "create cloud c (type 'mock')");
	cmd(m, "alter storage main set (cloud 'c')");
	for (int i = 0; i < 50; i++) CHECK(!put(m, i, NULL, "x"));
	cmd(m, "refresh partition 0");
	CHECK(synced == 1);
	CHECK(count(m) == 50);
	monotone_free(m);
}
'''),
dict(id="c21-index-copy", property="C21",
 edits=[("engine/io/part.c", "		index_read(&file, self->source, &index,\n		           &index_data, true);", "		index_read(&file, self->source, &index,\n		           &index_data, index.encryption == ENCRYPTION_NONE);")],
 needs="an encrypted partition which is on the cloud only and is opened again",
 breaks="the index kept for the cloud copy is in clear and does not match its sizes: the database does not open",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	cmd(m, "create cloud c (type 'mock')");
	cmd(m, "create storage s (cloud 'c', encryption 'aes', encryption_key '0123456789abcdef0123456789abcdef')");
	cmd(m, "alter pipeline set s");
	for (int i = 0; i < 50; i++) CHECK(!put(m, i, NULL, "x"));
	cmd(m, "refresh partition 0");
	CHECK(count(m) == 50);
	monotone_free(m);
	m = db_open("set workers to 0");
	CHECK(count(m) == 50);
	monotone_free(m);
}
'''),
dict(id="c09-lz4-reset", property="C12",
 edits=[("runtime/lib/compression_lz4.c", "	LZ4F_resetDecompressionContext(self->dctx);\n\n	buf_reserve", "	buf_reserve")],
 needs="a damaged region which the decompression refuses, and a read of a good one afterwards",
 breaks="the undamaged region is refused as well",
 demo=r'''
static void run(void) { CHECK(0); }
'''),
]
