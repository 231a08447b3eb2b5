SEEDS = [
dict(id="c11-rotate-lsn", property="C11",
 edits=[("engine/wal/wal.c", "	mutex_lock(&self->lock);\n	if (! wal_rotate_ready(self, wm))", "	uint64_t next_lsn = config_lsn() + 1;\n\n	mutex_lock(&self->lock);\n	if (! wal_rotate_ready(self, wm))"),
        ("engine/wal/wal.c", "	uint64_t next_lsn = config_lsn() + 1;\n\n	// create new wal file", "	// create new wal file")],
 needs="the log is rotated while another thread is writing its record, and the log is cleaned up while only that record is not refreshed",
 breaks="the new log file gets the number of the record written to the previous file, which is removed with a record still needed",
 demo=r"""
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
static monotone_t* g;
static volatile int go;
static uint64_t id;
static void* writer(void* arg)
{
	while (!go) ;
	if (put(g, id, NULL, "x")) _exit(3);
	return arg;
}
static void run(void)
{
	int want = 0;
	for (int r = 0; r < 60; r++)
	{
		if (fork() == 0)
		{
			g = db_open("set workers to 0;set interval to 10;set wal_sync_on_write to true");
			cmd(g, "checkpoint");
			for (int i = 0; i < 10; i++) cmd(g, "service");
			id = r * 10;
			go = 0;
			pthread_t t;
			pthread_create(&t, NULL, writer, NULL);
			usleep(1000);
			go = 1;
			usleep(r % 6 * 30);
			cmd(g, "debug \"wal_create\"");
			pthread_join(t, NULL);
			cmd(g, "debug \"wal_gc\"");
			_exit(0);
		}
		int st; wait(&st);
		CHECK(st == 0);
		want++;
		if (fork() == 0)
		{
			g = db_open("");
			int n = count(g);
			if (n != want) printf("%d events instead of %d\n", n, want);
			_exit(n != want);
		}
		wait(&st);
		CHECK(st == 0);
	}
}
"""),
]
