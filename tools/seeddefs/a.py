SEEDS = [
dict(id="c11-gc-active-memtable", property="C11",
 edits=[("engine/engine/op.c", "		uint64_t min_a = atomic_u64_of(&ref->part->memtable_a.lsn_min);\n		uint64_t min_b = atomic_u64_of(&ref->part->memtable_b.lsn_min);\n\n		if (min_a < lsn_min)\n			lsn_min = min_a;\n		if (min_b < lsn_min)\n			lsn_min = min_b;\n",
         "		auto memtable = ref->part->memtable;\n		uint64_t min = atomic_u64_of(&memtable->lsn_min);\n\n		if (min < lsn_min)\n			lsn_min = min;\n")],
 needs="a refresh that fails after the memtable was rotated, followed by a log rotation, a log collection and a restart",
 breaks="log collection ignores the rotated memtable left by a failed refresh and deletes log files with data that is nowhere else",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 1000");
	CHECK(!put(m, 5, "k", "v"));
	cmd(m, "set error_refresh_1 to true");
	CHECK(try_cmd(m, "refresh partition 0"));
	cmd(m, "set error_refresh_1 to false");
	cmd(m, "debug \"wal_create\"");
	CHECK(!put(m, 2005, "k", "w"));
	cmd(m, "debug \"wal_gc\"");
	monotone_free(m);
	m = db_open("");
	CHECK(is(m, "5:k=v 2005:k=w "));
}
'''),
dict(id="c03-split-follow", property="C03",
 edits=[("engine/io/memtable_iterator.h", "	if (self->page != page || !self->current)\n		return;", "	if (self->page != page || self->page_pos == page->events_count)\n		return;")],
 needs="a cursor standing on exactly the event that becomes the first of the new page when a write splits the in-memory page",
 breaks="the cursor is not moved to the new page and visits the same event again",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 1000000");
	for (int i = 0; i < 512; i++) CHECK(!put(m, i * 10, NULL, "v"));
	for (int at = 500; at < 512; at++)
	{
		monotone_t* n = m;
		(void)n;
	}
	monotone_event_t k;
	ev_set(&k, 5080, NULL, NULL, 0);
	monotone_cursor_t* c = monotone_cursor(m, NULL, &k);
	CHECK(c);
	CHECK(!put(m, 5, NULL, "w"));
	uint64_t want = 5080;
	for (;;)
	{
		monotone_event_t e;
		int rc = monotone_read(c, &e);
		CHECK(rc >= 0);
		if (!rc) break;
		if (e.id != want) printf("%llu instead of %llu\n", (unsigned long long)e.id, (unsigned long long)want);
		CHECK(e.id == want);
		want += 10;
		CHECK(monotone_next(c) >= 0);
	}
	CHECK(want == 5120);
	monotone_free(c);
}
'''),
]
