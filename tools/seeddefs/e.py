SEEDS = [
dict(id="c25-upload-count", property="C25",
 edits=[("engine/engine/service.h", "			list_unlink(&at->link);\n			self->list_count--;\n			self->list_count_upload--;\n			req = at;", "			list_unlink(&at->link);\n			self->list_count--;\n			req = at;")],
 needs="upload workers, and an upload taken by one of them while another request is waiting",
 breaks="the number of waiting uploads is overstated: ordinary workers take later requests for uploads and never run them",
 demo=r'''
static int refreshes(monotone_t* m, int min)
{
	char b[100], *p = cmdr(m, "show partitions");
	sprintf(b, "\"min\": %d,", min);
	char* q = strstr(p, b);
	if (!q) return -1;
	q = strstr(q, "\"refreshes\"");
	return q ? atoi(strchr(q, ':') + 1) : -1;
}
static void run(void)
{
	monotone_t* m = db_open("set workers to 1;set workers_upload to 1;set interval to 10");
	cmd(m, "create cloud c (type 'mock')");
	cmd(m, "create storage s (cloud 'c', cloud_drop_local false)");
	cmd(m, "alter pipeline set s");
	for (int i = 0; i < 10; i++) {
		CHECK(!put(m, i * 10, NULL, "x"));
		int t = 0;
		for (; i && t < 300 && refreshes(m, (i - 1) * 10) < 1; t++) usleep(10000);
		CHECK(t < 300);
		usleep(300000);
	}
	monotone_free(m);
}
'''),
dict(id="c25-signal", property="C25",
 edits=[("engine/engine/service.h", "		self->list_count_upload++;\n	cond_var_broadcast(&self->cond_var);", "		self->list_count_upload++;\n	cond_var_signal(&self->cond_var);")],
 needs="upload workers next to ordinary ones, with the wrong kind woken up",
 breaks="the request is not run until another one is added",
 demo=r'''
static int refreshes(monotone_t* m, int min)
{
	char b[100], *p = cmdr(m, "show partitions");
	sprintf(b, "\"min\": %d,", min);
	char* q = strstr(p, b);
	if (!q) return -1;
	q = strstr(q, "\"refreshes\"");
	return q ? atoi(strchr(q, ':') + 1) : -1;
}
static void run(void)
{
	monotone_t* m = db_open("set workers to 1;set workers_upload to 2;set interval to 10");
	usleep(200000);
	for (int i = 0; i < 20; i++) {
		CHECK(!put(m, i * 10, NULL, "x"));
		int t = 0;
		for (; i && t < 300 && refreshes(m, (i - 1) * 10) < 1; t++) usleep(10000);
		CHECK(t < 300);
		usleep(20000);
	}
	monotone_free(m);
}
'''),
dict(id="c12-aes-final", property="C12",
 edits=[("runtime/lib/encryption_aes.c", "	if (! EVP_CipherFinal_ex(self->ctx, buf->position, &outlen))\n		error(\"aes: decryption failed\");", "	if (! EVP_CipherFinal_ex(self->ctx, buf->position, &outlen) && data_size <= 16)\n		error(\"aes: decryption failed\");")],
 needs="an encrypted storage without crc, and a changed byte of its data file",
 breaks="the changed value is returned as if it were right",
 demo=r'''
#include <glob.h>
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	cmd(m, "create storage s (encryption 'aes', crc false, compression '')");
	CHECK(!put(m, 1, NULL, "0123456789012345678901234567890123456789"));
	cmd(m, "move partition 0 into s");
	CHECK(count(m) == 1);
	char* p = cmdr(m, "show storages");
	CHECK(p);
	monotone_free(m);
	// flip a byte of the value in the data file: 32 + header 8 + offset 4 + event
	char b[2000];
	sprintf(b, "python3 - '%s' <<'E'\nimport sys,os\nfor d,_,fs in os.walk(sys.argv[1]):\n  for f in fs:\n    if f=='%020d' and '/wal' not in d:\n      p=os.path.join(d,f); a=bytearray(open(p,'rb').read()); a[32+8+4+30]^=1; open(p,'wb').write(a); print(p)\nE", dir, 0);
	CHECK(!system(b));
	m = db_open("set workers to 0");
	monotone_cursor_t* c = monotone_cursor(m, NULL, NULL);
	int bad = 0;
	if (c) {
		monotone_event_t e;
		memset(&e, 0, sizeof e);
		if (monotone_read(c, &e) == 1)
			bad = 1;
		monotone_free(c);
	}
	CHECK(!bad);
	monotone_free(m);
}
'''),
dict(id="c17-unlock-signal", property="C17",
 edits=[("engine/engine/lockage.h", "		cond_var_broadcast(self->cond_var);", "		cond_var_signal(self->cond_var);")],
 needs="two threads waiting for different partitions, the wrong one woken up",
 breaks="a thread waits for ever for a partition which is free",
 demo=r'''
#include <pthread.h>
static monotone_t* m;
static volatile int release[2], done[2];
static void* holder(void* a)
{
	int p = (int)(long)a;
	monotone_event_t k;
	ev_set(&k, p * 100, NULL, "", 0);
	monotone_cursor_t* c = monotone_cursor(m, NULL, &k);
	while (!release[p]) usleep(1000);
	monotone_free(c);
	return NULL;
}
static void* writer(void* a)
{
	int p = (int)(long)a;
	put(m, p * 100 + 1, NULL, "y");
	done[p] = 1;
	return NULL;
}
static void run(void)
{
	for (int round = 0; round < 4; round++) {
		if (!round) {
			m = db_open("set workers to 0;set interval to 100");
			put(m, 0, NULL, "x");
			put(m, 100, NULL, "x");
		}
		int first = round % 2;
		release[0] = release[1] = done[0] = done[1] = 0;
		pthread_t t[4];
		for (int i = 0; i < 2; i++) pthread_create(&t[i], NULL, holder, (void*)(long)i);
		usleep(100000);
		pthread_create(&t[2], NULL, writer, (void*)(long)first);
		usleep(100000);
		pthread_create(&t[3], NULL, writer, (void*)(long)(1 - first));
		usleep(100000);
		release[1 - first] = 1;
		for (int i = 0; i < 500 && !done[1 - first]; i++) usleep(10000);
		CHECK(done[1 - first]);
		release[first] = 1;
		for (int i = 0; i < 500 && !done[first]; i++) usleep(10000);
		CHECK(done[first]);
		for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
	}
	monotone_free(m);
}
'''),
dict(id="c14-escaped-quote", property="C14",
 edits=[("main/command/lex.c", "				if (slash) {\n					slash = false;", "				if (slash) {\n					slash = end_char == '\\'' && self->pos[1] == end_char;")],
 needs="an escaped quote directly before the closing quote of a string",
 breaks="the string does not end where it should",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0");
	cmd(m, "create cloud c (type 'mock', login 'ab\\'')");
	cmd(m, "create cloud d (type 'mock', login 'ab\\'', password 'x')");
	monotone_free(m);
}
'''),
dict(id="c22-refresh-uint8", property="C22",
 edits=[("engine/io/merger.c", "	uint64_t refreshes = 1;", "	uint8_t refreshes = 1;")],
 needs="a partition which has been refreshed 255 times",
 breaks="the number of refreshes starts over",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	CHECK(!put(m, 1, NULL, "x"));
	for (int i = 0; i < 260; i++) cmd(m, "refresh partition 0");
	char* q = strstr(cmdr(m, "show partitions"), "\"refreshes\"");
	CHECK(q && atoi(strchr(q, ':') + 1) == 260);
	monotone_free(m);
}
'''),
]
