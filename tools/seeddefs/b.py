SEEDS = [
dict(id="c17-apply-unlocked", property="C17",
 edits=[("engine/engine/refresh.c", "	// update catalog\n	mutex_lock(&engine->lock);\n	ref_lock(self->ref, LOCK_ACCESS);\n\n	// update partition reference", "	// update catalog\n	mutex_lock(&engine->lock);\n\n	// update partition reference"),
        ("engine/engine/refresh.c", "	memtable_move(part->memtable, origin->memtable);\n\n	ref_unlock(self->ref, LOCK_ACCESS);\n", "	memtable_move(part->memtable, origin->memtable);\n\n")],
 needs="a refresh that replaces the partition while another thread reads it with a cursor opened after the refresh began",
 breaks="the old partition is freed under the cursor",
 demo=r'''
#include <pthread.h>
#include <sys/uio.h>
#include <sys/syscall.h>
static monotone_t* m;
static volatile int hook, ready, go, done;
ssize_t writev(int fd, const struct iovec* v, int n)
{
	if (hook)
	{
		hook = 0;
		ready = 1;
		while (!go) usleep(1000);
	}
	return syscall(SYS_writev, fd, v, n);
}
static void* th(void* a)
{
	hook = 1;
	cmd(m, "refresh partition 0");
	done = 1;
	return NULL;
}
static void run(void)
{
	m = db_open("set workers to 0;set interval to 1000000;set compression to ''");
	cmd(m, "alter storage main set (region_size 50)");
	for (int i = 0; i < 200; i++) CHECK(!put(m, i, NULL, "0123456789"));
	cmd(m, "refresh partition 0");
	CHECK(!put(m, 200, NULL, "0123456789"));
	pthread_t t;
	pthread_create(&t, NULL, th, NULL);
	while (!ready) usleep(1000);
	monotone_cursor_t* c = monotone_cursor(m, NULL, NULL);
	CHECK(c);
	go = 1;
	for (int i = 0; i < 200 && !done; i++) usleep(10000);
	for (int i = 0; i <= 200; i++)
	{
		monotone_event_t e;
		int rc = monotone_read(c, &e);
		CHECK(rc == 1);
		CHECK(e.id == (uint64_t)i && e.value_size == 10 && !memcmp(e.value, "0123456789", 10));
		CHECK(monotone_next(c) >= 0);
	}
	monotone_free(c);
	pthread_join(t, NULL);
	CHECK(count(m) == 201);
}
'''),
dict(id="c05-writev-partial", property="C05",
 edits=[("runtime/runtime/vfs.c", "		size += r;\n		while (n > 0)\n		{\n			if (v->iov_len > (size_t)r) {\n				v->iov_base = (char*)v->iov_base + r;\n				v->iov_len -= r;\n				break;\n			}\n			r -= v->iov_len;\n			v++;\n			n--;\n		}\n",
   "		size += r;\n		while (n > 0)\n		{\n			if (v->iov_len > (size_t)r) {\n				v->iov_base = (char*)v->iov_base + r;\n				v->iov_len -= r;\n				break;\n			}\n			v++;\n			n--;\n		}\n")],
 needs="a vectored write that the kernel completes only in part, ending after the first element",
 breaks="the rest of a partially written batch is taken from the wrong place, the log holds garbage",
 demo=r'''
#include <sys/uio.h>
#include <sys/syscall.h>
static int part;
ssize_t writev(int fd, const struct iovec* v, int n)
{
	if (part && n > 2)
	{
		part = 0;
		return syscall(SYS_writev, fd, v, 2) ;
	}
	return syscall(SYS_writev, fd, v, n);
}
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 1000");
	CHECK(!put(m, 5, "k", "v"));
	monotone_event_t e[4];
	for (int i = 0; i < 4; i++) ev_set(&e[i], 10 + i, "key", i % 2 ? "longer value" : "a", 0);
	part = 1;
	CHECK(!monotone_write(m, e, 4));
	part = 0;
	CHECK(!put(m, 20, "k", "v"));
	monotone_free(m);
	m = db_open("");
	CHECK(is(m, "5:k=v 10:key=a 11:key=longer value 12:key=a 13:key=longer value 20:k=v "));
}
'''),
dict(id="c07-upload-order", property="C07",
 edits=[("engine/io/part.c", "	// upload partition file to the cloud\n	cloud_upload(self->cloud, self->source, &self->id);\n\n	// rename partition cloud file as completed\n	part_rename(self, ID_CLOUD_INCOMPLETE, ID_CLOUD);\n",
  "	// rename partition cloud file as completed\n	part_rename(self, ID_CLOUD_INCOMPLETE, ID_CLOUD);\n\n	// upload partition file to the cloud\n	cloud_upload(self->cloud, self->source, &self->id);\n")],
 needs="a process death in the middle of an upload, then a maintenance pass that drops the local copy",
 breaks="the partition is marked as uploaded before the upload, after a crash the only copy is dropped",
 demo=r'''
#include <sys/syscall.h>
static int armed;
int rename(const char* a, const char* b)
{
	int rc = syscall(SYS_rename, a, b);
	if (armed && strstr(b, ".cloud")) _exit(77);
	return rc;
}
static void run(void)
{
	pid_t p = fork();
	if (p == 0)
	{
		monotone_t* m = db_open("set workers to 0;set workers_upload to 0;set interval to 1000");
		cmd(m, "create cloud c (type 'mock')");
		cmd(m, "create storage s (cloud 'c')");
		CHECK(!put(m, 5, "k", "v"));
		armed = 1;
		cmd(m, "move partition 0 into s");
		_exit(1);
	}
	int st;
	waitpid(p, &st, 0);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 77);
	monotone_t* m = db_open("");
	CHECK(is(m, "5:k=v "));
	cmd(m, "drop partition 0 on storage");
	CHECK(is(m, "5:k=v "));
}
'''),
dict(id="c07-sync-index", property="C06",
 edits=[("engine/io/writer.c", "	// write index\n	iov_reset(&self->iov);\n	index_writer_add_to_iov(&self->index_writer, &self->iov);\n	file_writev(self->file, iov_pointer(&self->iov), self->iov.iov_count);\n	\n	// sync\n	if (sync && config_sync())\n		file_sync(self->file);\n",
   "	// sync\n	if (sync && config_sync())\n		file_sync(self->file);\n\n	// write index\n	iov_reset(&self->iov);\n	index_writer_add_to_iov(&self->index_writer, &self->iov);\n	file_writev(self->file, iov_pointer(&self->iov), self->iov.iov_count);\n")],
 needs="power loss after a refresh completed and its log records were collected",
 breaks="the index of a new partition file is written after the file is synced, a power loss leaves a partition file without its index",
 demo=r'''
// every fdatasync records how much of the file is on disk
#include <sys/stat.h>
#include <sys/syscall.h>
#include <glob.h>
static struct { unsigned long ino; long size; } tab[1000];
static int n;
int fdatasync(int fd)
{
	struct stat st;
	fstat(fd, &st);
	tab[n].ino = st.st_ino;
	tab[n++].size = st.st_size;
	return 0;
}
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 1000;set wal_sync_on_write to true");
	for (int i = 0; i < 10; i++) CHECK(!put(m, i, "k", "v"));
	cmd(m, "refresh partition 0");
	cmd(m, "debug \"wal_create\"");
	cmd(m, "debug \"wal_gc\"");
	// whatever is not synced is lost
	glob_t g;
	char pat[600];
	snprintf(pat, sizeof pat, "%s/db/*/0*", dir);
	glob(pat, 0, NULL, &g);
	for (size_t i = 0; i < g.gl_pathc; i++)
	{
		struct stat st;
		stat(g.gl_pathv[i], &st);
		for (int k = n - 1; k >= 0; k--)
			if (tab[k].ino == st.st_ino)
			{
				if (tab[k].size < st.st_size) truncate(g.gl_pathv[i], tab[k].size);
				break;
			}
	}
	pid_t p = fork();
	if (p == 0)
	{
		char cmdl[1200];
		snprintf(cmdl, sizeof cmdl, "cp -r %s/db %s/copy", dir, dir);
		if (system(cmdl)) _exit(1);
		monotone_t* m2 = monotone_init();
		snprintf(cmdl, sizeof cmdl, "%s/copy", dir);
		if (monotone_open(m2, cmdl)) { printf("open: %s\n", monotone_error(m2)); _exit(1); }
		if (count(m2) != 10) _exit(1);
		_exit(0);
	}
	int st;
	waitpid(p, &st, 0);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
'''),
dict(id="c15-oldest-id", property="C15",
 edits=[("engine/storage/storage.h", "		if (part->time_create < min->time_create)\n			min = part;", "		if (part->id.min < min->id.min)\n			min = part;")],
 needs="partitions created in an order different from the order of their ids (late data)",
 breaks="the partition with the smallest ids is taken for the oldest one",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 10");
	cmd(m, "create storage cold");
	CHECK(!put(m, 55, NULL, "first"));
	usleep(2000);
	CHECK(!put(m, 5, NULL, "second"));
	usleep(2000);
	CHECK(!put(m, 25, NULL, "third"));
	cmd(m, "checkpoint");
	for (int i = 0; i < 20; i++) cmd(m, "service");
	cmd(m, "alter pipeline set main (partitions 2), cold");
	for (int i = 0; i < 20; i++) cmd(m, "service");
	cmd(m, "rebalance");
	char* r = cmdr(m, "show partitions");
	char* at = strstr(r, "\"min\": 50");
	CHECK(at && strstr(at, "\"storage\": \"cold\""));
	at = strstr(r, "\"min\": 0");
	CHECK(at);
	at = strstr(at, "\"storage\": ");
	CHECK(at && !strncmp(at, "\"storage\": \"main\"", 17));
}
'''),
dict(id="c13-rename-save", property="C13",
 edits=[("engine/storage/pipeline.c", "			tier_config_set_name(tier->config, storage_new);\n			pipeline_save(self);\n		}\n	}\n", "			pipeline_save(self);\n			tier_config_set_name(tier->config, storage_new);\n		}\n	}\n")],
 needs="rename of a storage used by the pipeline, followed by a restart without any later pipeline change",
 breaks="the saved pipeline keeps the old storage name, the database cannot be opened any more",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 10");
	cmd(m, "create storage cold");
	cmd(m, "alter pipeline set main (partitions 2), cold");
	cmd(m, "alter storage cold rename to ice");
	monotone_free(m);
	m = db_open("");
	char* r = cmdr(m, "show pipeline");
	CHECK(strstr(r, "\"ice\""));
}
'''),
dict(id="c04-rollback-prev", property="C04",
 edits=[("engine/engine/write.c", "		if (pos->prev)\n			memtable_set(ref->part->memtable, pos->prev);\n		else\n", "		if (pos->prev && !event_is_delete(pos->prev))\n			memtable_set(ref->part->memtable, pos->prev);\n		else\n")],
 needs="a failed batch that writes a key whose latest version in memory is a delete while an older version is in the partition file",
 breaks="the delete is lost in the rollback and the deleted event reappears",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 1000");
	CHECK(!put(m, 5, "k", "v"));
	CHECK(!put(m, 6, "k", "w"));
	cmd(m, "refresh partition 0");
	CHECK(!del(m, 5, "k"));
	cmd(m, "set error_wal to true");
	CHECK(put(m, 5, "k", "x"));
	cmd(m, "set error_wal to false");
	CHECK(is(m, "6:k=w "));
}
'''),
dict(id="c12-index-crc-copy", property="C12",
 edits=[("engine/io/index_op.c", "	// check index data crc\n	uint32_t crc = crc32(0, index_data->start, buf_size(index_data));\n	if (crc != index->crc_data)", "	// check index data crc\n	uint32_t crc = crc32(0, index_data->start, buf_size(index_data));\n	if (crc != index->crc_data && index->compression != COMPRESSION_NONE)")],
 needs="a flipped byte in the index data of an uncompressed partition file",
 breaks="damage of an uncompressed index is not detected, wrong regions are served",
 demo=r'''
#include <glob.h>
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 1000000;set compression to ''");
	cmd(m, "alter storage main set (region_size 50)");
	for (int i = 0; i < 50; i++) CHECK(!put(m, i, NULL, "0123456789"));
	cmd(m, "refresh partition 0");
	cmd(m, "debug \"wal_create\"");
	cmd(m, "debug \"wal_gc\"");
	monotone_free(m);
	glob_t g;
	char pat[600];
	snprintf(pat, sizeof pat, "%s/db/*-*/0*", dir);
	glob(pat, 0, NULL, &g);
	CHECK(g.gl_pathc == 1);
	FILE* f = fopen(g.gl_pathv[0], "r+");
	fseek(f, 0, SEEK_END);
	long size = ftell(f);
	// the index data precedes the 130 byte footer
	int bad = 0;
	for (long at = size - 130 - 40; at < size - 130; at++)
	{
		fseek(f, at, SEEK_SET);
		int c = fgetc(f);
		fseek(f, at, SEEK_SET);
		fputc(c ^ 0x41, f);
		fflush(f);
		pid_t p = fork();
		if (p == 0)
		{
			m = monotone_init();
			char path[512];
			snprintf(path, sizeof path, "%s/db", dir);
			if (monotone_open(m, path)) _exit(0);
			_exit(3);
		}
		int st;
		waitpid(p, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++;
		fseek(f, at, SEEK_SET);
		fputc(c, f);
		fflush(f);
	}
	printf("%d undetected\n", bad);
	CHECK(bad == 0);
}
'''),
]
