SEEDS = [
dict(id="c25-any-count", property="C25",
 edits=[("engine/engine/service.h", "	{\n		req = container_of(list_pop(&self->list), ServiceReq, link);\n		self->list_count--;\n		if (service_req_is_upload(req))\n			self->list_count_upload--;\n		break;\n	}",
         "	{\n		req = container_of(list_pop(&self->list), ServiceReq, link);\n		self->list_count--;\n		break;\n	}")],
 needs="workers, upload workers and service commands of the user in the same session, one of which executes an upload",
 breaks="the workers find too few requests in the queue: as many partitions as uploads were executed by commands stay in memory",
 demo=r'''
static void run(void)
{
	monotone_t* m = db_open("set workers to 1;set workers_upload to 1;set interval to 10");
	cmd(m, "create cloud c (type 'mock')");
	cmd(m, "create storage s");
	cmd(m, "alter pipeline set s");
	for (int i = 0; i < 150; i++) CHECK(!put(m, i * 10, NULL, "x"));
	cmd(m, "refresh partitions between 0 and 1499");
	cmd(m, "alter storage s set (cloud 'c', cloud_drop_local false)");
	monotone_free(m);

	// uploads are scheduled on open
	m = db_open("");
	for (int i = 0; i < 300; i++) cmd(m, "service");
	cmd(m, "create storage s2");
	cmd(m, "alter pipeline set s2");
	for (int i = 1000; i < 1200; i++) CHECK(!put(m, i * 10, NULL, "x"));
	cmd(m, "checkpoint");
	int t = 0;
	for (; t < 1000; t++)
	{
		char *p = cmdr(m, "show partitions"), *q = p;
		int left = 0;
		while ((q = strstr(q, "\"events_heap\":"))) left += atoi(strchr(q, ':') + 1) > 0, q++;
		free(p);
		if (!left) break;
		usleep(10000);
	}
	CHECK(t < 1000);
	monotone_free(m);
}
'''),
]
