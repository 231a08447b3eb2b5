SEEDS = [
dict(id="c20-int-used", property="C20",
 edits=[("runtime/lib/memory_mgr.h", "uint64_t used = self->count * (uint64_t)self->page_size;", "uint64_t used = self->count * self->page_size;")],
 needs="a memory limit above 2 GB and memory pages of more than 2 GB in use",
 breaks="writes are refused (or block) far below the limit",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 10;set mm_page_size to 1073741824;set mm_limit to true;set mm_limit_behaviour to 'error';set mm_limit_wm to 8589934592");
	for (int i = 0; i < 5; i++) CHECK(!put(m, i * 10, NULL, "x"));
	CHECK(count(m) == 5);
	monotone_free(m);
}
'''),
dict(id="c20-cached-page", property="C20",
 edits=[("runtime/lib/memory_mgr.h", "	self->free_list = page->next;\n	page->used = 0;\n	page->next = NULL;", "	self->free_list = page->next;\n	page->next = NULL;"),
        ("runtime/lib/memory_mgr.h", "		page_tail->next = self->free_list;\n", "		page->used      = 0;\n		page_tail->next = self->free_list;\n")],
 needs="several pages of a partition are returned to the cache at once and used again",
 breaks="only the first page of the list is marked as empty, the next ones are written past their end",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 1000;set mm_page_size to 8192");
	char v[2000]; memset(v, 'v', sizeof v); v[1999] = 0;
	for (int k = 0; k < 3; k++)
	{
		for (int i = 0; i < 40; i++) CHECK(!put(m, i, NULL, v));
		CHECK(count(m) == 40);
		cmd(m, "refresh partition 0");
		CHECK(count(m) == 40);
	}
	monotone_free(m);
}
'''),
dict(id="c19-unset-first", property="C19",
 edits=[("engine/engine/op.c", "				part_offload(part, true);\n				part_unset(part, ID);", "				part_unset(part, ID);\n				part_offload(part, true);")],
 needs="the file of a partition cannot be removed while the partition is dropped",
 breaks="the drop fails and the events of the partition are gone until the next open, when they are back",
 demo=r'''
#include <glob.h>
#include <sys/stat.h>
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	for (int i = 0; i < 50; i++) CHECK(!put(m, i, NULL, "x"));
	cmd(m, "refresh partition 0");
	glob_t g;
	CHECK(!glob("db/*/00000000000000000000", 0, NULL, &g) && g.gl_pathc == 1);
	// unlink() fails for a directory
	CHECK(!rename(g.gl_pathv[0], "keep") && !mkdir(g.gl_pathv[0], 0755));
	CHECK(try_cmd(m, "drop partition 0") != 0);
	CHECK(!rmdir(g.gl_pathv[0]) && !rename("keep", g.gl_pathv[0]));
	CHECK(count(m) == 50);
	monotone_free(m);
}
'''),
]
