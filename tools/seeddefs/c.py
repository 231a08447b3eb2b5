SEEDS = [
dict(id="c04-unset-tail", property="C04",
 edits=[("engine/io/memtable.c", "		int size = (page->events_count - pos) * sizeof(Event*);\n		if (size > 0)\n			memmove(&page->events[pos], &page->events[pos + 1], size);",
         "		int size = (page->events_count - pos - 1) * sizeof(Event*);\n		if (size > 0)\n			memmove(&page->events[pos], &page->events[pos + 1], size);")],
 needs="a failing batch that inserted a new event before other events of the memory page",
 breaks="the rollback loses the last event of the page",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0");
	CHECK(!put(m, 1, NULL, "a"));
	CHECK(!put(m, 3, NULL, "c"));
	CHECK(!put(m, 4, NULL, "d"));
	CHECK(!put(m, 5, NULL, "e"));
	cmd(m, "set error_wal to true");
	CHECK(put(m, 2, NULL, "b"));
	cmd(m, "set error_wal to false");
	CHECK(is(m, "1:=a 3:=c 4:=d 5:=e "));
	CHECK(!put(m, 2, NULL, "b"));
	CHECK(is(m, "1:=a 2:=b 3:=c 4:=d 5:=e "));
	monotone_free(m);
}
'''),
dict(id="c06-walid-order", property="C05",
 edits=[("engine/wal/wal_id.h", "	int i = 0;\n	for (; i < self->list_count && list[i] < id; i++);", "	int i = self->list_count > 0 ? self->list_count - 1 : 0;\n	for (; i < self->list_count && list[i] < id; i++);")],
 needs="three or more log files which the directory lists in descending order",
 breaks="the log files are replayed in the wrong order: an older value wins",
 demo=r'''
#include <dirent.h>
#include <dlfcn.h>
// a directory listed in descending order of names
static struct dirent ents[512];
static int nents, posents;
static DIR* cur;
static int cmp(const void* a, const void* b)
{
	return -strcmp(((struct dirent*)a)->d_name, ((struct dirent*)b)->d_name);
}
struct dirent* readdir(DIR* d)
{
	static struct dirent* (*real)(DIR*);
	if (!real) real = dlsym(RTLD_NEXT, "readdir");
	if (cur != d) {
		cur = d; nents = posents = 0;
		struct dirent* e;
		while ((e = real(d)) && nents < 512) ents[nents++] = *e;
		qsort(ents, nents, sizeof ents[0], cmp);
	}
	if (posents < nents) return &ents[posents++];
	cur = NULL;
	return NULL;
}
static void run(void)
{
	monotone_t* m = db_open("set workers to 0");
	CHECK(!put(m, 1, NULL, "a"));
	cmd(m, "debug \"wal_create\"");
	CHECK(!put(m, 2, NULL, "b"));
	cmd(m, "debug \"wal_create\"");
	CHECK(!put(m, 3, NULL, "c"));
	cmd(m, "debug \"wal_create\"");
	CHECK(!put(m, 3, NULL, "d"));
	monotone_free(m);
	m = db_open("set workers to 0");
	CHECK(is(m, "1:=a 2:=b 3:=d "));
	monotone_free(m);
}
'''),
dict(id="c20-push-count", property="C20",
 edits=[("runtime/lib/memory_mgr.h", "		self->count -= count;\n	}", "		self->count--;\n	}")],
 needs="a page cache that is full when the memory of a partition with several pages is given back, several times, under a memory limit",
 breaks="pages that were given back still count: writes are refused for ever",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set mm_page_size to 65536;set mm_cache to 0;set mm_limit to true;set mm_limit_behaviour to 'error';set mm_limit_wm to 655360");
	static char v[9000];
	memset(v, 'x', sizeof v - 1);
	for (int i = 0; i < 10; i++)
	{
		for (int j = 0; j < 21; j++)
			CHECK(!put(m, j, NULL, v));
		cmd(m, "refresh partition 0");
	}
	monotone_free(m);
}
'''),
dict(id="c15-events-metric", property="C15",
 edits=[("engine/storage/storage.h", "	self->size   -= part->index.size_regions;\n	self->events -= part->index.events;\n", "	self->size   -= part->index.size_regions;\n	if (part->index.refreshes == 1)\n		self->events -= part->index.events;\n")],
 needs="a partition refreshed three times in a storage with an event limit, then a rebalance",
 breaks="the events of the partition are counted twice and a partition leaves the storage although the limit is kept",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	cmd(m, "create storage cold");
	cmd(m, "alter pipeline set main (events 10), cold");
	for (int i = 0; i < 6; i++) {
		CHECK(!put(m, i, NULL, "x"));
		cmd(m, "refresh partition 0");
	}
	CHECK(!put(m, 100, NULL, "x"));
	cmd(m, "refresh partition 100");
	cmd(m, "rebalance");
	char* p = cmdr(m, "show partitions");
	CHECK(!strstr(p, "\"cold\""));
	free(p);
	CHECK(count(m) == 7);
	monotone_free(m);
}
'''),
dict(id="c18-range-partial", property="C18",
 edits=[("engine/engine/op.c", "	if (ref_min >= *min && ref_max <= max)\n", "	if (ref_min >= *min && ref_min <= max)\n")],
 needs="a drop of a range that ends inside of a partition",
 breaks="the partition that is only partly in the range is dropped too",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 10");
	for (int i = 0; i < 4; i++) CHECK(!put(m, i * 10, NULL, "x"));
	cmd(m, "drop partitions between 0 and 24");
	CHECK(is(m, "20:=x 30:=x "));
	monotone_free(m);
}
'''),
dict(id="c19-merge-three", property="C19",
 edits=[("engine/io/merge_iterator.h", "			for (int i = 0; i < self->list_count; i++)\n				list[i].advance = false;\n", "			if (pos > 0)\n				list[pos - 1].advance = false;\n")],
 needs="one key in memory, in the memory kept by a failed refresh, and a smaller key in the file",
 breaks="the newest value is skipped and the older one is returned",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	CHECK(!put(m, 3, NULL, "file"));
	cmd(m, "refresh partition 0");
	CHECK(!put(m, 5, NULL, "old"));
	cmd(m, "set error_refresh_1 to true");
	CHECK(try_cmd(m, "refresh partition 0"));
	cmd(m, "set error_refresh_1 to false");
	CHECK(!put(m, 5, NULL, "new"));
	CHECK(is(m, "3:=file 5:=new "));
	cmd(m, "refresh partition 0");
	cmd(m, "refresh partition 0");
	CHECK(is(m, "3:=file 5:=new "));
	monotone_free(m);
}
'''),
dict(id="c02-same-id-region", property="C02",
 edits=[("engine/io/writer.c", "			if (region_writer_max(&self->region_writer)->id == event->id)", "			if (region_writer_min(&self->region_writer)->id == event->id)")],
 needs="many keys of one id across the end of a region, and a cursor opened at one of the later keys",
 breaks="the cursor starts at an earlier key",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100;set compression to ''");
	cmd(m, "alter storage main set (region_size 200)");
	CHECK(!put(m, 1, NULL, "x"));
	char k[16];
	for (int i = 0; i < 40; i++) {
		sprintf(k, "k%02d", i);
		CHECK(!put(m, 2, k, "0123456789"));
	}
	CHECK(!put(m, 3, NULL, "x"));
	cmd(m, "refresh partition 0");
	for (int i = 0; i < 40; i++) {
		monotone_event_t e;
		sprintf(k, "k%02d", i);
		ev_set(&e, 2, k, NULL, 0);
		monotone_cursor_t* c = monotone_cursor(m, NULL, &e);
		CHECK(c);
		CHECK(monotone_read(c, &e) == 1);
		CHECK(e.id == 2 && e.key_size == 3 && !memcmp(e.key, k, 3));
		monotone_free(c);
	}
	monotone_free(m);
}
'''),
dict(id="c07-offload-order", property="C07",
 edits=[("engine/io/part.c", "	// remove cloud file first\n	part_delete(self, ID_CLOUD);\n\n	// remove from cloud\n	cloud_remove(self->cloud, self->source, &self->id);", "	// remove from cloud\n	cloud_remove(self->cloud, self->source, &self->id);\n\n	// remove cloud file\n	part_delete(self, ID_CLOUD);")],
 needs="a crash between the removal of the object and of the cloud index file, then a drop of the local copy",
 breaks="the partition is reported to be on the cloud; dropping the local copy loses the data",
 demo=r'''
#include <sys/syscall.h>
static int armed;
int unlink(const char* p)
{
	int n = strlen(p);
	if (armed && n > 6 && !strcmp(p + n - 6, ".cloud")) _exit(7);
	return syscall(SYS_unlink, p);
}
static void run(void)
{
	int pid = fork();
	if (!pid) {
		monotone_t* m = db_open("set workers to 0;set interval to 100");
		cmd(m, "create cloud c (type 'mock')");
		cmd(m, "create storage s (cloud 'c', cloud_drop_local false)");
		CHECK(!put(m, 3, NULL, "x"));
		cmd(m, "move partition 0 into s");
		cmd(m, "upload partition 0");
		armed = 1;
		cmd(m, "drop partition 0 on cloud");
		_exit(7);
	}
	int st;
	waitpid(pid, &st, 0);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 7);
	monotone_t* m = db_open("set workers to 0");
	try_cmd(m, "upload partition 0");
	char* p = cmdr(m, "show partitions");
	CHECK(is(m, "3:=x "));
	if (strstr(p, "cloud\": true") || 1) {
		if (!try_cmd(m, "drop partition 0 on storage"))
			CHECK(is(m, "3:=x "));
	}
	monotone_free(m);
}
'''),
dict(id="c13-slash", property="C13",
 edits=[("main/command/lex.c", "				slash = !slash;\n				escape = true;", "				slash = true;\n				escape = true;")],
 needs="a string value that ends in an escaped backslash",
 breaks="the command is refused as an unterminated string",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0");
	cmd(m, "create cloud c (type 'mock', password 'abc\\\\', login 'z')");
	char* p = cmdr(m, "show clouds");
	CHECK(strstr(p, "\"z\""));
	monotone_free(m);
}
'''),
dict(id="c17-commit-late", property="C17",
 edits=[("engine/engine/write.c", "			memtable_follow(ref->part->memtable, log->write.lsn);\n\n", ""),
        ("engine/engine/write.c", "			engine_unlock(self, ref, LOCK_ACCESS);\n		}\n\n		pos++;", "			auto memtable = part->memtable;\n			engine_unlock(self, ref, LOCK_ACCESS);\n			memtable_follow(memtable, log->write.lsn);\n		}\n\n		pos++;")],
 needs="a refresh that rotates the memory of the partition between the release of the lock and the update",
 breaks="the partition file gets a smaller log number than its content: an older version may be replayed over it; memory is used after it was freed",
 demo=r'''
#include <pthread.h>
#include <dlfcn.h>
static monotone_t* m;
static __thread int writer;
static volatile int armed, stage;
static void* th(void* a)
{
	while (stage != 1) usleep(1000);
	cmd(m, "refresh partition 0");
	stage = 2;
	return NULL;
}
// the writer pauses after each release of a lock by which it finishes a batch
int pthread_mutex_unlock(pthread_mutex_t* mx)
{
	static int (*real)(pthread_mutex_t*);
	if (!real) real = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	int rc = real(mx);
	if (writer && armed && stage == 0) {
		static int n;
		n++;
		if (n == armed) {
			stage = 1;
			for (int i = 0; i < 300 && stage != 2; i++) usleep(1000);
		}
	}
	return rc;
}
static void run(void)
{
	// every place where the writer may pause
	for (int k = 1; k < 60; k++) {
		char d[64];
		sprintf(d, "%s/%d", dir, k);
		m = monotone_init();
		cmd(m, "set workers to 0");
		cmd(m, "set interval to 100");
		CHECK(!monotone_open(m, d));
		CHECK(!put(m, 1, NULL, "a"));
		CHECK(!put(m, 2, NULL, "a"));
		pthread_t t;
		stage = 0;
		armed = k;
		pthread_create(&t, NULL, th, NULL);
		writer = 1;
		CHECK(!put(m, 1, NULL, "b"));
		writer = 0;
		armed = 0;
		int hit = stage != 0;
		if (!hit) stage = 1;
		pthread_join(t, NULL);
		stage = 0;
		// everything written is refreshed: the log of all files is not needed
		cmd(m, "refresh partition 0");
		char* p = cmdr(m, "show partitions verbose");
		char* q = strstr(p, "\"lsn\"");
		if (q) { q = strchr(q, ':'); CHECK(strtoull(q + 1, NULL, 10) >= 3); }
		free(p);
		monotone_free(m);
		m = monotone_init();
		CHECK(!monotone_open(m, d));
		CHECK(is(m, "1:=b 2:=a "));
		p = cmdr(m, "show partitions");
		monotone_free(m);
		if (!hit) break;
	}
}
'''),
dict(id="c15-time-create", property="C15",
 edits=[("engine/io/merger.c", "	part_set_time_create(self->part, origin->time_create);", "	part_set_time_create(self->part, origin->file.fd != -1 && req->source == origin->source ?\n	                     origin->index.time_refresh : origin->time_create);")],
 needs="an older partition refreshed again after a newer one was created, then a rebalance over the limit",
 breaks="the newer partition is moved or dropped instead of the oldest",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	CHECK(!put(m, 500, NULL, "x"));
	usleep(2000);
	CHECK(!put(m, 100, NULL, "x"));
	usleep(2000);
	cmd(m, "refresh partition 100");
	cmd(m, "refresh partition 500");
	CHECK(!put(m, 501, NULL, "x"));
	cmd(m, "refresh partition 500");
	cmd(m, "create storage cold");
	cmd(m, "alter pipeline set main (partitions 1), cold");
	cmd(m, "rebalance");
	cmd(m, "alter pipeline set main (partitions 1)");
	char* p = cmdr(m, "show partitions");
	char* a = strstr(p, "\"cold\"");
	CHECK(a);
	// the partition before it in the list: the one in cold
	char* mn = NULL;
	for (char* q = p; (q = strstr(q, "\"min\"")) && q < a; q++) mn = q;
	CHECK(mn);
	CHECK(strtoull(strchr(mn, ':') + 1, NULL, 10) == 500);
	monotone_free(m);
}
'''),
dict(id="c13-alter-path", property="C13",
 edits=[("engine/storage/storage_mgr.c", "		source_set_uuid(source, &storage->source->uuid);\n		storage_mgr_mkdir(source);", "		storage_mgr_mkdir(source);")],
 needs="a change of the path of an empty storage, then data that is moved into it",
 breaks="the directory of the storage does not exist: the move fails and the database does not open",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	cmd(m, "create storage s");
	cmd(m, "alter storage s set (path 'other')");
	CHECK(!put(m, 1, NULL, "x"));
	cmd(m, "move partition 0 into s");
	CHECK(is(m, "1:=x "));
	monotone_free(m);
	m = db_open("set workers to 0");
	CHECK(is(m, "1:=x "));
	monotone_free(m);
}
'''),
dict(id="c10-mapping-head", property="C10",
 edits=[("engine/engine/op.c", "				if (max < slice->min)\n					gap.max = max;", "				if (max - min < config_interval() && max < slice->max)\n					gap.max = max;")],
 needs="an automatic or explicit range that ends inside of an existing partition",
 breaks="the new partition overlaps with the existing one",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	cmd(m, "create partition 50 249");
	CHECK(!put(m, 60, NULL, "b"));
	CHECK(!put(m, 10, NULL, "a"));
	CHECK(!put(m, 70, NULL, "c"));
	cmd(m, "refresh partition 0");
	char* p = cmdr(m, "show partitions");
	CHECK(strstr(p, "49"));
	free(p);
	CHECK(is(m, "10:=a 60:=b 70:=c "));
	monotone_free(m);
}
'''),
]
