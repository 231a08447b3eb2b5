SEEDS = [
dict(id="c08-alter-cloud", property="C08",
 edits=[("engine/storage/storage_mgr.c", "			if (part_has(part, ID_CLOUD))\n				error(\"storage '%.*s': some partitions", "			if (part_has(part, ID_CLOUD) && !part_has(part, ID))\n				error(\"storage '%.*s': some partitions")],
 needs="a partition which is local and on the cloud, the cloud of the storage is removed, the local copy is dropped afterwards",
 breaks="the partition is marked as being on a cloud which the storage does not have",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	cmd(m, "create cloud c (type 'mock')");
	cmd(m, "alter storage main set (cloud 'c', cloud_drop_local false)");
	for (int i = 0; i < 50; i++) CHECK(!put(m, i, NULL, "x"));
	cmd(m, "refresh partition 0");
	CHECK(count(m) == 50);
	CHECK(try_cmd(m, "alter storage main set (cloud '')") != 0);
	CHECK(count(m) == 50);
	monotone_free(m);
}
'''),
dict(id="c08-download-order", property="C08",
 edits=[("engine/storage/storage_mgr.c", "			auto part = list_at(Part, link);\n			part->cloud = NULL;", "			auto part = list_at(Part, link);\n			if (! part_has(part, ID))\n				part->cloud = NULL;")],
 needs="the cloud of a storage with partitions is removed and dropped, the partition is refreshed afterwards",
 breaks="the partitions keep using the cloud object which is freed",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	cmd(m, "create cloud c (type 'mock')");
	for (int i = 0; i < 50; i++) CHECK(!put(m, i, NULL, "x"));
	cmd(m, "refresh partition 0");
	cmd(m, "alter storage main set (cloud 'c')");
	cmd(m, "alter storage main set (cloud '')");
	cmd(m, "drop cloud c");
	CHECK(try_cmd(m, "upload partition 0") != 0);
	CHECK(count(m) == 50);
	monotone_free(m);
}
'''),
dict(id="c13-rename-cloud", property="C13",
 edits=[("engine/storage/storage_mgr.c", "		source_set_cloud(storage->source, name_new);\n	}\n	storage_mgr_save(self);", "		source_set_cloud(storage->source, name_new);\n		if (storage->cloud)\n			storage_mgr_save(self);\n		break;\n	}")],
 needs="a cloud used by two storages is renamed and the database is opened again",
 breaks="the second storage refers to the old name, the database does not open",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	cmd(m, "create cloud c (type 'mock')");
	cmd(m, "alter storage main set (cloud 'c')");
	cmd(m, "create storage s (cloud 'c')");
	cmd(m, "alter cloud c rename to d");
	monotone_free(m);
	m = db_open("set workers to 0");
	CHECK(strstr(cmdr(m, "show storages"), "\"c\"") == NULL);
	monotone_free(m);
}
'''),
dict(id="c22-remove-metrics", property="C15",
 edits=[("engine/storage/storage.h", "	if (part->state == ID_NONE)\n		return;\n	self->size   -= part->index.size_regions;", "	if (! part_has(part, ID))\n		return;\n	self->size   -= part->index.size_regions;")],
 needs="a tier limit by size or events and a partition which is on the cloud only when it is moved",
 breaks="the size of the tier is never reduced, later partitions are moved although the limit is not reached",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 0;set interval to 100");
	cmd(m, "create cloud c (type 'mock')");
	cmd(m, "create storage hot (cloud 'c')");
	cmd(m, "create storage cold");
	cmd(m, "alter pipeline set hot (events 100), cold");
	for (int k = 0; k < 5; k++)
	{
		for (int i = 0; i < 50; i++) CHECK(!put(m, k * 100 + i, NULL, "x"));
		char q[100];
		snprintf(q, 100, "refresh partition %d", k * 100);
		cmd(m, q);
		for (int i = 0; i < 10; i++) cmd(m, "service");
	}
	cmd(m, "rebalance");
	char* r = cmdr(m, "show partitions");
	int hot = 0;
	for (char* q = r; (q = strstr(q, "\"storage\": \"hot\"")); q++) hot++;
	CHECK(hot == 2);
	monotone_free(m);
}
'''),
]
