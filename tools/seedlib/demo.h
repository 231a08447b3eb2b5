// helpers of the demonstrations: a database in a scratch directory (argv[1])
#include <monotone.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>

static const char* dir;

static void die(const char* what)
{
	printf("FAIL: %s\n", what);
	exit(1);
}
#define CHECK(x) do { if (!(x)) { printf("line %d: ", __LINE__); die(#x); } } while (0)

static char* cmdr(monotone_t* m, const char* c)
{
	char* res = NULL;
	if (monotone_execute(m, c, &res)) { printf("'%s': %s\n", c, monotone_error(m)); exit(1); }
	return res;
}
static void cmd(monotone_t* m, const char* c) { free(cmdr(m, c)); }
static int try_cmd(monotone_t* m, const char* c)
{
	char* res = NULL;
	int rc = monotone_execute(m, c, &res);
	free(res);
	return rc;
}
// settings: commands to run before the database is opened, separated by ';'
static monotone_t* db_open(const char* settings)
{
	monotone_t* m = monotone_init();
	char buf[2048];
	snprintf(buf, sizeof buf, "%s", settings);
	for (char* s = strtok(buf, ";"); s; s = strtok(NULL, ";")) cmd(m, s);
	char path[512];
	snprintf(path, sizeof path, "%s/db", dir);
	if (monotone_open(m, path)) { printf("open: %s\n", monotone_error(m)); exit(1); }
	return m;
}
static void ev_set(monotone_event_t* e, uint64_t id, const char* key, const char* val, int del)
{
	memset(e, 0, sizeof *e);
	e->flags = del ? MONOTONE_DELETE : 0;
	e->id = id;
	e->key = (void*)key;
	e->key_size = key ? strlen(key) : 0;
	e->value = (void*)val;
	e->value_size = val ? strlen(val) : 0;
}
static int put(monotone_t* m, uint64_t id, const char* key, const char* val)
{
	monotone_event_t e;
	ev_set(&e, id, key, val, 0);
	return monotone_write(m, &e, 1);
}
static int del(monotone_t* m, uint64_t id, const char* key)
{
	monotone_event_t e;
	ev_set(&e, id, key, NULL, 1);
	return monotone_write(m, &e, 1);
}
// content from a key on, as text "id:key=value "
static char* content(monotone_t* m, uint64_t id, const char* key)
{
	monotone_event_t k;
	ev_set(&k, id, key, NULL, 0);
	monotone_cursor_t* c = monotone_cursor(m, NULL, (id || key) ? &k : NULL);
	if (!c) { printf("cursor: %s\n", monotone_error(m)); exit(1); }
	char* out = calloc(1, 1 << 20);
	size_t n = 0;
	for (;;) {
		monotone_event_t e;
		int rc = monotone_read(c, &e);
		if (rc < 0) { printf("read: %s\n", monotone_error(m)); exit(1); }
		if (rc == 0) break;
		if (n < (1 << 20) - 8192)
			n += sprintf(out + n, "%llu:%.*s=%.*s ", (unsigned long long)e.id, (int)e.key_size, (char*)e.key,
			             e.value_size > 100 ? 100 : (int)e.value_size, (char*)e.value);
		if (monotone_next(c) < 0) { printf("next: %s\n", monotone_error(m)); exit(1); }
	}
	monotone_free(c);
	return out;
}
static int is(monotone_t* m, const char* want)
{
	char* c = content(m, 0, NULL);
	int ok = !strcmp(c, want);
	if (!ok) printf("content '%s' instead of '%s'\n", c, want);
	free(c);
	return ok;
}
static int count(monotone_t* m)
{
	char* c = content(m, 0, NULL);
	int n = 0;
	for (char* p = c; *p; p++) n += *p == ' ';
	free(c);
	return n;
}
static void run(void);
int main(int argc, char** argv)
{
	dir = argv[1];
	if (chdir(dir)) return 2;
	alarm(200);
	run();
	printf("ok\n");
	return 0;
}
