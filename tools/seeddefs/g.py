SEEDS = [
dict(id="c09-iv-reuse", property="C09",
 edits=[("runtime/lib/encryption_aes.c", "	EVP_CIPHER_CTX* ctx;\n};", "	EVP_CIPHER_CTX* ctx;\n	uint64_t        iv[2];\n};"),
        ("runtime/lib/encryption_aes.c", "	list_init(&self->id.link);\n	return &self->id;", "	self->iv[0]    = 0;\n	self->iv[1]    = 0;\n	list_init(&self->id.link);\n	return &self->id;"),
        ("runtime/lib/encryption_aes.c", "	iv[0] = random_generate(random);\n	iv[1] = random_generate(random);", "	if (! self->iv[0])\n	{\n		self->iv[0] = random_generate(random);\n		self->iv[1] = random_generate(random);\n	}\n	iv[0] = self->iv[0];\n	iv[1] = self->iv[1];")],
 needs="two files of an encrypted storage written by the same (pooled) encryption context",
 breaks="the initialization vector is used more than once with the same key, equal data has equal bytes in the files and can be recovered",
 demo=r'''
#include <glob.h>
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	cmd(m, "create storage s (encryption 'aes')");
	cmd(m, "alter pipeline set s");
	for (int i = 0; i < 50; i++) CHECK(!put(m, i, NULL, "x"));
	for (int i = 0; i < 50; i++) CHECK(!put(m, 100 + i, NULL, "x"));
	cmd(m, "refresh partition 0");
	cmd(m, "refresh partition 100");
	glob_t g;
	char pat[600], h[2][16];
	snprintf(pat, sizeof pat, "%s/db/*/0*0", dir);
	glob(pat, 0, NULL, &g);
	int n = 0;
	for (size_t i = 0; i < g.gl_pathc; i++)
	{
		FILE* f = fopen(g.gl_pathv[i], "rb");
		if (strstr(g.gl_pathv[i], "/wal/")) continue;
		CHECK(n < 2 && fread(h[n++], 16, 1, f) == 1);
		fclose(f);
	}
	CHECK(n == 2);
	CHECK(memcmp(h[0], h[1], 16) != 0);
	CHECK(count(m) == 100);
	monotone_free(m);
}
'''),
dict(id="c24-sync-wal", property="C24",
 edits=[("engine/io/writer.c", "	if (sync && config_sync())", "	if (sync && config_sync() && var_int_of(&config()->wal))")],
 needs="the log disabled and a power failure after a refresh",
 breaks="a refreshed partition is not on disk",
 demo=r'''
static int synced;
int fsync(int fd)
{
	char p[64], q[4096] = {0};
	snprintf(p, 64, "/proc/self/fd/%d", fd);
	readlink(p, q, 4095);
	if (strstr(q, "/0000")) synced++;
	return 0;
}
int fdatasync(int fd) { return fsync(fd); }
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100;set wal to false");
	for (int i = 0; i < 50; i++) CHECK(!put(m, i, NULL, "x"));
	cmd(m, "refresh partition 0");
	CHECK(synced > 0);
	CHECK(count(m) == 50);
	monotone_free(m);
}
'''),
dict(id="c18-foreach-overlap", property="C18",
 edits=[("engine/engine/op.c", "	if (ref_min >= *min && ref_max <= max)", "	if (ref_min >= *min && ref_min <= max)")],
 needs="a range which ends inside of a partition",
 breaks="the partition at the end of the range is dropped with events outside of the range",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	for (int i = 0; i < 300; i++) CHECK(!put(m, i, NULL, "x"));
	cmd(m, "drop partitions between 0 and 150");
	CHECK(count(m) == 200);
	monotone_free(m);
}
'''),
dict(id="c26-online-early", property="C26",
 edits=[("main/main/main.c", "	// open wal and replay\n	if (var", "	// partitions are available\n	var_int_set(&config()->online, true);\n\n	// open wal and replay\n	if (var"),
        ("main/main/main.c", "	// start compaction workers\n	worker_mgr_start(&self->worker_mgr, &self->engine);\n\n	// done\n	var_int_set(&config()->online, true);\n", "	// start compaction workers\n	worker_mgr_start(&self->worker_mgr, &self->engine);\n")],
 needs="an open which fails while the log is read",
 breaks="the calls on the handle are accepted after the failed open",
 demo=r'''
#include <glob.h>
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100;set wal_crc to true");
	for (int i = 0; i < 50; i++) CHECK(!put(m, i, NULL, "x"));
	monotone_free(m);
	glob_t g;
	char pat[600];
	snprintf(pat, sizeof pat, "%s/db/wal/0*", dir);
	glob(pat, 0, NULL, &g);
	CHECK(g.gl_pathc == 1);
	FILE* f = fopen(g.gl_pathv[0], "r+b");
	fseek(f, 60, SEEK_SET);
	fputs("damaged", f);
	fclose(f);
	m = monotone_init();
	snprintf(pat, sizeof pat, "%s/db", dir);
	CHECK(monotone_open(m, pat) != 0);
	CHECK(monotone_cursor(m, NULL, NULL) == NULL);
	CHECK(put(m, 1000, NULL, "x") != 0);
	monotone_free(m);
}
'''),
dict(id="c15-refresh-storage", property="C15",
 edits=[("engine/engine/refresh.c", "	self->storage_origin = NULL;\n	self->storage        = NULL;\n	self->again          = false;\n	merger_reset", "	self->storage_origin = NULL;\n	self->again          = false;\n	merger_reset")],
 needs="one worker which moves a partition by the pipeline and refreshes another one afterwards",
 breaks="the refreshed partition is moved to the storage of the previous move",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100;set wal_crc to true");
	cmd(m, "create storage hot (refresh_wm 1)");
	cmd(m, "create storage cold");
	cmd(m, "alter pipeline set hot (partitions 2), cold");
	for (int k = 0; k < 4; k++)
	{
		CHECK(!put(m, k * 100, NULL, "x"));
		for (int i = 0; i < 50; i++) cmd(m, "service");
	}
	char* r = cmdr(m, "show partitions");
	int hot = 0;
	for (char* q = r; (q = strstr(q, "\"storage\": \"hot\"")); q++) hot++;
	if (hot != 2) printf("%s\n", r);
	CHECK(hot == 2);
	monotone_free(m);
}
'''),
]
