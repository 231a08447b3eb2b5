// Script-driven client of the public API. Usage: driver ROOT TIMEOUT < script
// The script is split into sessions by lines "---"; every session runs in a forked child, so a
// session can crash. One result line is printed per operation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "shim.h"
#include <set>
#include <monotone.h>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <iostream>
#include <map>
#include <pthread.h>
#include <signal.h>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <unistd.h>
#include <vector>

extern void sched_idle();
extern void sched_point();
typedef std::vector<std::string> Args;

struct Handle { monotone_t* env = NULL; bool failed = false; bool opened = false; };
static pid_t hold_pid = -1; // another process with the database open
static int hold_fd = -1;
static std::map<int, Handle> handles;
static int cur_handle;
static uint64_t g_clock;

struct Ctx
{
	std::map<int, monotone_cursor_t*> cursors;
	std::string prefix;
};

static int out_fd = 1;
static void out(const std::string& s)
{
	size_t n = 0;
	while (n < s.size()) {
		ssize_t r = write(out_fd, s.data() + n, s.size() - n);
		if (r <= 0) _exit(95);
		n += r;
	}
}

static uint32_t vcrc32(uint32_t crc, const uint8_t* p, size_t n)
{
	static uint32_t t[256];
	static bool have;
	if (!have) {
		for (uint32_t i = 0; i < 256; i++) {
			uint32_t c = i;
			for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1;
			t[i] = c;
		}
		have = true;
	}
	crc = ~crc;
	while (n--) crc = t[(crc ^ *p++) & 255] ^ (crc >> 8);
	return ~crc;
}

static std::string hex(const void* p, size_t n)
{
	static const char* d = "0123456789abcdef";
	std::string r;
	for (size_t i = 0; i < n; i++) {
		uint8_t b = ((uint8_t*)p)[i];
		r += d[b >> 4];
		r += d[b & 15];
	}
	return r;
}

static std::string unhex(const std::string& s)
{
	std::string r;
	for (size_t i = 0; i + 1 < s.size(); i += 2)
		r += (char)strtol(s.substr(i, 2).c_str(), NULL, 16);
	return r;
}

static uint64_t sm64(uint64_t& x)
{
	uint64_t z = (x += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

// value specification: "-" | xHEX | r<seed>.<len> (random) | c<hex>.<len> (repeated)
static std::string value_of(const std::string& s)
{
	if (s == "-") return "";
	if (s[0] == 'x') return unhex(s.substr(1));
	size_t dot = s.find('.');
	size_t len = strtoull(s.c_str() + dot + 1, NULL, 10);
	std::string r;
	r.reserve(len + 8);
	if (s[0] == 'r') {
		uint64_t x = strtoull(s.c_str() + 1, NULL, 10);
		while (r.size() < len) {
			uint64_t v = sm64(x);
			r.append((char*)&v, 8);
		}
	} else {
		std::string pat = unhex(s.substr(1, dot - 1));
		while (r.size() < len) r += pat;
	}
	r.resize(len);
	return r;
}

static monotone_t* env() { return handles[cur_handle].env; }

static std::string oneline(const char* s)
{
	std::string r;
	for (; *s; s++) {
		if (*s == '\n') r += "\\n";
		else if (*s == '\r') r += "\\r";
		else if (*s == '\\') r += "\\\\";
		else r += *s;
	}
	return r;
}

static std::string err() { return "err " + oneline(monotone_error(env())); }

static std::string show_event(monotone_event_t* e)
{
	char b[64];
	std::string r;
	snprintf(b, sizeof b, "%llu", (unsigned long long)e->id);
	r = b;
	r += ":";
	r += e->key_size ? hex(e->key, e->key_size) : "-";
	uint32_t c = vcrc32(0, (const uint8_t*)e->value, e->value_size);
	snprintf(b, sizeof b, ":%zu.%08x", e->value_size, c);
	r += b;
	if (e->flags) { snprintf(b, sizeof b, ":f%d", e->flags); r += b; }
	return r;
}

struct Batch
{
	std::vector<monotone_event_t> ev;
	std::vector<std::string*> hold;
	~Batch() { for (auto p : hold) delete p; }
	// id:key:value[:d]
	void add(const std::string& spec)
	{
		size_t a = spec.find(':'), b = spec.find(':', a + 1), c = spec.find(':', b + 1);
		std::string key = spec.substr(a + 1, b - a - 1);
		std::string val = spec.substr(b + 1, c == std::string::npos ? std::string::npos : c - b - 1);
		bool del = c != std::string::npos && spec.substr(c + 1) == "d";
		add(strtoull(spec.c_str(), NULL, 10), key == "-" ? "" : key.find('.') != std::string::npos ? value_of(key) : unhex(key), value_of(val), del);
	}
	void add(uint64_t id, const std::string& key, const std::string& val, bool del)
	{
		monotone_event_t e;
		memset(&e, 0, sizeof e);
		auto k = new std::string(key), v = new std::string(val);
		hold.push_back(k);
		hold.push_back(v);
		e.flags = del ? MONOTONE_DELETE : 0;
		e.id = id;
		e.key = k->size() ? (void*)k->data() : NULL;
		e.key_size = k->size();
		e.value = v->size() ? (void*)v->data() : NULL;
		e.value_size = v->size();
		ev.push_back(e);
	}
};

static Args split(const std::string& s)
{
	Args r;
	size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find(' ', i);
		if (j == std::string::npos) j = s.size();
		if (j > i) r.push_back(s.substr(i, j - i));
		i = j + 1;
	}
	return r;
}

static std::vector<std::string> walk_res;
static int walk_cb(const char* p, const struct stat*, int type, struct FTW*)
{
	if (type == FTW_F) walk_res.push_back(p);
	return 0;
}
static std::vector<std::string> walk_dirs;
static int walk_dir_cb(const char* p, const struct stat*, int type, struct FTW*)
{
	if (type == FTW_D) walk_dirs.push_back(p);
	return 0;
}
static std::vector<std::string> files_under(const std::string& sub)
{
	walk_res.clear();
	nftw(shim_root.c_str(), walk_cb, 32, FTW_PHYS);
	std::vector<std::string> r;
	for (auto& f : walk_res) {
		std::string rel = f.substr(shim_root.size() + 1);
		if (sub.empty() || sub == "*" || rel.find(sub) != std::string::npos) r.push_back(rel);
	}
	std::sort(r.begin(), r.end(), [](const std::string& a, const std::string& b) {
		auto x = a.substr(a.rfind('/') + 1), y = b.substr(b.rfind('/') + 1);
		return x == y ? a < b : x < y;
	});
	return r;
}

struct Quiet { // driver's own file work is not subject to faults
	bool was;
	Quiet() : was(shim_active) { shim_active = false; }
	~Quiet() { shim_active = was; }
};

static void copy_tree(const std::string& a, const std::string& b)
{
	struct stat sb;
	bool single = !stat(a.c_str(), &sb) && S_ISREG(sb.st_mode);
	if (!single) mkdir(b.c_str(), 0755);
	walk_res.clear();
	nftw(a.c_str(), walk_cb, 32, FTW_PHYS);
	auto files = walk_res;
	walk_dirs.clear();
	nftw(a.c_str(), walk_dir_cb, 32, FTW_PHYS);
	for (auto& d : walk_dirs)
		if (d.size() > a.size()) mkdir((b + d.substr(a.size())).c_str(), 0755);
	for (auto& f : files) {
		std::string dst = single ? b : b + "/" + f.substr(a.size() + 1);
		for (size_t i = b.size() + 1; (i = dst.find('/', i)) != std::string::npos; i++)
			mkdir(dst.substr(0, i).c_str(), 0755);
		FILE* in = fopen(f.c_str(), "rb");
		FILE* o = fopen(dst.c_str(), "wb");
		char buf[65536];
		size_t n;
		while (in && o && (n = fread(buf, 1, sizeof buf, in)) > 0) fwrite(buf, 1, n, o);
		if (in) fclose(in);
		if (o) fclose(o);
	}
}

static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }

static void exec_text(const std::string& text, std::string& res)
{
	std::string t = text;       // @ROOT@ is the scratch directory
	for (size_t p; (p = t.find("@ROOT@")) != std::string::npos;) t.replace(p, 6, shim_root);
	char* r = NULL;
	int rc = monotone_execute(env(), t.c_str(), &r);
	if (rc == -1) { res = err(); return; }
	res = "ok";
	if (r) { res += " " + oneline(r); free(r); }
}

static std::string scan_from(monotone_event_t* key, int64_t limit, bool compact)
{
	auto c = monotone_cursor(env(), NULL, key);
	if (!c) return err();
	std::string r;
	int64_t n = 0;
	uint32_t crc = 0;
	for (;;) {
		monotone_event_t e;
		memset(&e, 0, sizeof e);
		int rc = monotone_read(c, &e);
		if (rc == -1) { r = err() + " after " + std::to_string(n) + r; goto done; }
		if (rc == 0) break;
		n++;
		auto s = show_event(&e);
		if (compact) crc = vcrc32(crc, (const uint8_t*)(s + "\n").data(), s.size() + 1);
		else r += " " + s;
		if (limit > 0 && n >= limit) break;
		rc = monotone_next(c);
		if (rc == -1) { r = err() + " after " + std::to_string(n) + r; goto done; }
		if (rc == 0) {
			// the end must be stable
			memset(&e, 0, sizeof e);
			if (monotone_read(c, &e) != 0) r += " END-NOT-STABLE";
			break;
		}
	}
	r = "ok " + std::to_string(n) + (compact ? " " + std::to_string(crc) : r);
done:
	monotone_free(c);
	return r;
}

static std::string do_op(Ctx& ctx, const std::string& line);

struct TArg { std::vector<std::string> ops; std::string out; Ctx ctx; int id; };

static void* thread_main(void* a)
{
	auto t = (TArg*)a;
	for (auto& op : t->ops) {
		// relaxed: the clock must not order the threads for the race detector
		uint64_t b = __atomic_add_fetch(&g_clock, 1, __ATOMIC_RELAXED);
		auto r = do_op(t->ctx, op);
		uint64_t e = __atomic_add_fetch(&g_clock, 1, __ATOMIC_RELAXED);
		r = "T" + std::to_string(t->id) + " " + std::to_string(b) + " " + std::to_string(e) + " " + r + "\n";
		if (sched_on) out(r);
		else t->out += r;
	}
	for (auto& c : t->ctx.cursors) if (c.second) monotone_free(c.second);
	return NULL;
}

static std::string do_op(Ctx& ctx, const std::string& line)
{
	Args a = split(line);
	const std::string& op = a[0];
	std::string res;

	if (op == "init") {
		if (a.size() > 1) cur_handle = atoi(a[1].c_str());
		handles[cur_handle].env = monotone_init();
		handles[cur_handle].failed = handles[cur_handle].opened = false;
		return env() ? "ok" : "err init";
	}
	// another process: "other open" opens and closes, "other hold" keeps it open until "other close" or "other kill"
	if (op == "other") {
		if (a[1] == "close" || a[1] == "kill") {
			if (hold_pid == -1) return "none";
			if (a[1] == "kill") kill(hold_pid, SIGKILL);
			close(hold_fd);
			int status;
			waitpid(hold_pid, &status, 0);
			hold_pid = hold_fd = -1;
			return "ok";
		}
		if (hold_pid != -1) return "none";
		int up[2], down[2];
		if (pipe(up) || pipe(down)) return "err pipe";
		std::string path = shim_root + "/" + (a.size() > 2 ? a[2] : "db");
		fflush(NULL);
		pid_t pid = fork();
		if (pid == 0) {
			close(up[0]);
			close(down[1]);
			// descriptors of the parent do not belong to this process
			for (int fd = 3; fd < 256; fd++) if (fd != up[1] && fd != down[0]) close(fd);
			alarm(20);
			monotone_t* e = monotone_init();
			std::string r = monotone_open(e, path.c_str()) == 0 ? "ok" : std::string("err ") + monotone_error(e);
			bool good = r == "ok";
			if (write(up[1], r.data(), r.size()) < 0) _exit(1);
			close(up[1]);
			char c;
			if (a[1] == "hold" && good) while (read(down[0], &c, 1) > 0) {}
			monotone_free(e);
			_exit(0);
		}
		close(up[1]);
		close(down[0]);
		std::string r;
		char buf[512];
		int n;
		while ((n = read(up[0], buf, sizeof buf)) > 0) r.append(buf, n);
		close(up[0]);
		if (a[1] == "hold" && r == "ok") {
			hold_pid = pid;
			hold_fd = down[1];
		} else {
			close(down[1]);
			int status;
			waitpid(pid, &status, 0);
			if (!WIFEXITED(status) || WEXITSTATUS(status)) r += " (the process died)";
		}
		for (auto& c : r) if (c == '\n') c = ' ';
		return r.empty() ? "err nothing" : r;
	}
	if (op == "use") { cur_handle = atoi(a[1].c_str()); return "ok"; }
	if (op == "open") {
		std::string path = a.size() > 1 ? shim_root + "/" + a[1] : shim_root + "/db";
		bool good = monotone_open(env(), path.c_str()) == 0;
		if (good) handles[cur_handle].opened = true;
		handles[cur_handle].failed = !handles[cur_handle].opened;
		return good ? "ok" : err();
	}
	if (op == "close") {
		for (auto& c : ctx.cursors) if (c.second) monotone_free(c.second);
		ctx.cursors.clear();
		monotone_free(env());
		handles[cur_handle].env = NULL;
		return "ok";
	}
	// "raw OP": on whatever handle; "unopened OP": only on a handle which is not open
	if (op == "raw" || op == "unopened") {
		if (op == "unopened" && handles[cur_handle].opened) return "none";
		bool keep = handles[cur_handle].failed;
		handles[cur_handle].failed = false;
		res = do_op(ctx, line.substr(op.size() + 1));
		handles[cur_handle].failed = keep;
		return res;
	}
	// the checks make no other calls on a handle which failed to open
	if (handles[cur_handle].failed && (op == "x" || op == "xh" || op == "w" || op == "wb" || op == "scan" || op == "scand" || op == "seek" || op == "c"))
		return "none";
	if (op == "x") { exec_text(line.size() > 2 ? line.substr(2) : "", res); return res; }
	if (op == "xh") { exec_text(a.size() > 1 ? unhex(a[1]) : "", res); return res; }
	if (op == "w") {
		Batch b;
		for (size_t i = 1; i < a.size(); i++) b.add(a[i]);
		if (monotone_write(env(), b.ev.data(), b.ev.size()) == -1) return err();
		res = "ok";
		for (auto& e : b.ev) res += " " + std::to_string(e.id);
		return res;
	}
	if (op == "wb") { // wb start step count batch key valkind seed len
		uint64_t start = strtoull(a[1].c_str(), 0, 10), step = strtoull(a[2].c_str(), 0, 10);
		int count = atoi(a[3].c_str()), batch = atoi(a[4].c_str());
		std::string key = a[5] == "-" ? "" : unhex(a[5]);
		uint64_t seed = strtoull(a[7].c_str(), 0, 10), len = strtoull(a[8].c_str(), 0, 10);
		for (int i = 0; i < count;) {
			Batch b;
			for (int j = 0; j < batch && i < count; j++, i++) {
				std::string v;
				if (a[6] == "r") v = value_of("r" + std::to_string(seed + i) + "." + std::to_string(len));
				else { char h[24]; snprintf(h, sizeof h, "%016llx", (unsigned long long)(seed + i)); v = value_of(std::string("c") + h + "." + std::to_string(len)); }
				b.add(start + step * i, key, v, false);
			}
			if (monotone_write(env(), b.ev.data(), b.ev.size()) == -1) return err() + " at " + std::to_string(i);
		}
		return "ok";
	}
	if (op == "scan") return scan_from(NULL, 0, false);
	if (op == "scand") return scan_from(NULL, 0, true);
	if (op == "seek") { // seek id key [limit]
		Batch b;
		b.add(a[1] + ":" + a[2] + ":-");
		return scan_from(&b.ev[0], a.size() > 3 ? atoll(a[3].c_str()) : 0, false);
	}
	if (op == "c") { // c slot open [id key] | read | next | close
		int slot = atoi(a[1].c_str());
		auto& c = ctx.cursors[slot];
		if (a[2] == "open") {
			if (c) { monotone_free(c); c = NULL; }
			Batch b;
			if (a.size() > 4) b.add(a[3] + ":" + a[4] + ":-");
			c = monotone_cursor(env(), NULL, b.ev.empty() ? NULL : &b.ev[0]);
			return c ? "ok" : err();
		}
		if (!c) return "none";
		if (a[2] == "read") {
			monotone_event_t e;
			memset(&e, 0, sizeof e);
			int rc = monotone_read(c, &e);
			if (rc == -1) return err();
			return rc ? "ok " + show_event(&e) : "ok end";
		}
		if (a[2] == "next") {
			int rc = monotone_next(c);
			if (rc == -1) return err();
			return rc ? "ok 1" : "ok 0";
		}
		if (a[2] == "close") { monotone_free(c); c = NULL; return "ok"; }
	}
	if (op == "fault") { // fault mode cls nth [filter|*] [errno] [arg]
		if (a[1] == "off") {
			res = "ok fired=" + std::to_string(shim_fault.fired) + " count=" + std::to_string(shim_fault.count);
			shim_arm("off", "mut", 0, "", 0, 0);
			return res;
		}
		shim_arm(a[1].c_str(), a[2].c_str(), atoll(a[3].c_str()), a.size() > 4 && a[4] != "*" ? a[4].c_str() : "",
		         a.size() > 5 ? atoi(a[5].c_str()) : ENOSPC, a.size() > 6 ? strtoull(a[6].c_str(), 0, 10) : 0);
		return "ok";
	}
	if (op == "track") { shim_track = atoi(a[1].c_str()); return "ok"; }
	if (op == "crash") {
		if (a.size() > 1) { shim_fault.arg = strtoull(a[1].c_str(), 0, 10); out("ok\n"); shim_die(true); }
		out("ok\n");
		shim_die(false);
	}
	if (op == "time") { shim_time_off = strtoll(a[1].c_str(), 0, 10); shim_time_step = a.size() > 2 ? atoll(a[2].c_str()) : 1; return "ok"; }
	if (op == "timeadd") { shim_time_off += strtoll(a[1].c_str(), 0, 10); return "ok"; }
	if (op == "chop") { shim_set_chop(strtoull(a[1].c_str(), 0, 10)); return "ok"; }
	if (op == "readdir") { shim_readdir_seed = strtoull(a[1].c_str(), 0, 10); return "ok"; }
	if (op == "files") {
		Quiet q;
		res = "ok";
		for (auto& f : files_under(a.size() > 1 ? a[1] : "*")) {
			struct stat st;
			if (stat((shim_root + "/" + f).c_str(), &st)) continue;
			res += " " + f + "=" + std::to_string(st.st_size);
		}
		return res;
	}
	if (op == "hashdir") { // content of every file below a directory except the text log
		Quiet q;
		uint64_t h = 1469598103934665603ull;
		auto mix = [&](const void* p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; };
		for (auto& f : files_under(a.size() > 1 ? a[1] : "*")) {
			if (f.size() > 4 && f.substr(f.size() - 4) == "/log") continue;
			mix(f.data(), f.size() + 1);
			FILE* fp = fopen((shim_root + "/" + f).c_str(), "r");
			if (!fp) continue;
			char buf[65536];
			size_t n;
			while ((n = fread(buf, 1, sizeof buf, fp)) > 0) mix(buf, n);
			fclose(fp);
		}
		return "ok " + std::to_string(h);
	}
	if (op == "crcfiles") { // path:size:crc of the files whose path contains the substring
		Quiet q;
		std::string r = "ok";
		for (auto& f : files_under(a[1])) {
			FILE* fp = fopen((shim_root + "/" + f).c_str(), "rb");
			if (!fp) continue;
			uint32_t c = 0;
			size_t total = 0, n;
			char buf[65536];
			while ((n = fread(buf, 1, sizeof buf, fp)) > 0) { c = vcrc32(c, (uint8_t*)buf, n); total += n; }
			fclose(fp);
			char b[64];
			snprintf(b, sizeof b, ":%zu:%08x", total, c);
			r += " " + f + b;
		}
		return r;
	}
	if (op == "http") { // http PORT METHOD PATH: a request to a server of the check, answers the body
		Quiet q;
		int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		struct sockaddr_in sa = {};
		sa.sin_family = AF_INET;
		sa.sin_port = htons(atoi(a[1].c_str()));
		sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (fd < 0 || connect(fd, (struct sockaddr*)&sa, sizeof sa)) { if (fd >= 0) close(fd); return "err connect"; }
		std::string req = a[2] + " " + a[3] + " HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n", rep;
		send(fd, req.data(), req.size(), MSG_NOSIGNAL);
		char buf[65536];
		ssize_t n;
		while ((n = recv(fd, buf, sizeof buf, 0)) > 0) rep.append(buf, n);
		close(fd);
		size_t at = rep.find("\r\n\r\n");
		if (at == std::string::npos) return "err no answer";
		return "ok " + rep.substr(at + 4);
	}
	if (op == "copy") {
		Quiet q;
		copy_tree(shim_root + "/" + a[1], shim_root + "/" + a[2]);
		return "ok";
	}
	if (op == "rmtree") {
		Quiet q;
		std::string p = shim_root + "/" + a[1];
		if (a[1].find("..") != std::string::npos) return "err path";
		nftw(p.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS);
		return "ok";
	}
	// damage the idx-th file whose path contains a substring
	if (op == "flip" || op == "cut" || op == "append" || op == "rmfile" || op == "put" || op == "zero") {
		Quiet q;
		if (op == "put") { // put relpath hex
			FILE* f = fopen((shim_root + "/" + a[1]).c_str(), "wb");
			if (!f) return "err open";
			auto d = a.size() > 2 ? unhex(a[2]) : "";
			fwrite(d.data(), 1, d.size(), f);
			fclose(f);
			return "ok";
		}
		auto fs = files_under(a[1]);
		if (fs.empty()) return "none";
		std::string rel = a[2][0] == '-' ? fs[fs.size() - 1 - std::min<size_t>(fs.size() - 1, strtoull(a[2].c_str() + 1, 0, 10) - 1)]
		                               : fs[strtoull(a[2].c_str(), 0, 10) % fs.size()];
		std::string p = shim_root + "/" + rel;
		struct stat st;
		stat(p.c_str(), &st);
		if (op == "rmfile") { unlink(p.c_str()); return "ok " + rel; }
		if (op == "append") {
			FILE* f = fopen(p.c_str(), "ab");
			auto d = value_of(a[3]);
			fwrite(d.data(), 1, d.size(), f);
			fclose(f);
			return "ok " + rel;
		}
		if (st.st_size == 0) return "none";
		// position: N, or -N from the end, or fN as fraction of 2^32
		uint64_t off;
		if (a[3][0] == 'f') off = (uint64_t)((__uint128_t)strtoull(a[3].c_str() + 1, 0, 10) * st.st_size >> 32);
		else if (a[3][0] == '-') off = st.st_size - std::min<uint64_t>(st.st_size, strtoull(a[3].c_str() + 1, 0, 10));
		else off = strtoull(a[3].c_str(), 0, 10);
		if (off >= (uint64_t)st.st_size) off = st.st_size - 1;
		if (op == "cut") { (void)!truncate(p.c_str(), off); return "ok " + rel + " " + std::to_string(off) + "/" + std::to_string(st.st_size); }
		FILE* f = fopen(p.c_str(), "r+b");
		if (op == "zero") {
			uint64_t n = strtoull(a[4].c_str(), 0, 10);
			for (uint64_t i = off; i < off + n && i < (uint64_t)st.st_size; i++) { fseek(f, i, SEEK_SET); fputc(0, f); }
		} else {
			fseek(f, off, SEEK_SET);
			int b = fgetc(f);
			fseek(f, off, SEEK_SET);
			fputc(b ^ (int)strtol(a[4].c_str(), 0, 16), f);
		}
		fclose(f);
		return "ok " + rel + " " + std::to_string(off) + "/" + std::to_string(st.st_size);
	}
	if (op == "grepf") { // count occurrences of hex bytes in files matching substring
		Quiet q;
		auto pat = unhex(a[2]);
		int n = 0;
		for (auto& f : files_under(a[1])) {
			FILE* fp = fopen((shim_root + "/" + f).c_str(), "rb");
			if (!fp) continue;
			std::string d;
			char buf[65536];
			size_t k;
			while ((k = fread(buf, 1, sizeof buf, fp)) > 0) d.append(buf, k);
			fclose(fp);
			for (size_t p = 0; (p = d.find(pat, p)) != std::string::npos; p++) n++;
		}
		return "ok " + std::to_string(n);
	}
	if (op == "repeat") { // 16-byte blocks which occur twice in the partition files matching a substring (all versions seen so far)
		Quiet q;
		static std::set<std::pair<uint64_t, uint64_t>> blocks;
		static std::set<std::string> seen;
		int n = 0, files = 0;
		std::string first;
		for (auto& f : files_under(a[1])) {
			std::string base = f.substr(f.rfind('/') + 1);
			if (base.empty() || base.find_first_not_of("0123456789") != std::string::npos) continue;
			FILE* fp = fopen((shim_root + "/" + f).c_str(), "rb");
			if (!fp) continue;
			std::string d;
			char buf[65536];
			size_t k;
			while ((k = fread(buf, 1, sizeof buf, fp)) > 0) d.append(buf, k);
			fclose(fp);
			if (d.size() <= 320) continue;              // the tail is not encrypted
			d.resize(std::min<size_t>(d.size() - 256, 8192));
			if (!seen.insert(d).second) continue;       // a copy
			files++;
			for (size_t p = 0; p + 16 <= d.size(); p++) {
				std::pair<uint64_t, uint64_t> b;
				memcpy(&b, d.data() + p, 16);
				if (blocks.size() > 400000 || blocks.insert(b).second) continue;
				if (!n++) first = f + "@" + std::to_string(p);
			}
		}
		return "ok " + std::to_string(n) + " " + std::to_string(files) + " " + first;
	}
	if (op == "cat") {
		Quiet q;
		FILE* fp = fopen((shim_root + "/" + a[1]).c_str(), "rb");
		if (!fp) return "none";
		std::string d;
		char buf[65536];
		size_t k;
		while ((k = fread(buf, 1, sizeof buf, fp)) > 0) d.append(buf, k);
		fclose(fp);
		return "ok " + hex(d.data(), d.size());
	}
	if (op == "sched") { // sched seed policy depth
		sched_start(strtoull(a[1].c_str(), 0, 10), atoi(a[2].c_str()), a.size() > 3 ? atoi(a[3].c_str()) : 3);
		return "ok";
	}
	if (op == "idle") {
		if (sched_on) sched_idle();
		else usleep(a.size() > 1 ? atoi(a[1].c_str()) : 50000);
		return "ok";
	}
	if (op == "steps") return "ok " + std::to_string(sched_steps());
	if (op == "pid") return "ok " + std::to_string(getpid());
	if (op == "nop") return "ok";
	if (op == "openfds") {
		int n = 0;
		for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) != -1) n++;
		return "ok " + std::to_string(n);
	}
	if (op == "ifboth") { // ifboth ID op...: only when the partition of the id is both on its storage and on a cloud
		exec_text("show partitions", res);
		uint64_t id = strtoull(a[1].c_str(), 0, 10);
		size_t p = line.find(' ', line.find(' ') + 1);
		size_t at = 0;
		auto num = [&](const char* name, size_t from) {
			size_t q = res.find(std::string("\"") + name + "\": ", from);
			return q == std::string::npos ? std::string() : res.substr(q + strlen(name) + 4, 24);
		};
		while ((at = res.find("\"min\":", at)) != std::string::npos) {
			uint64_t lo = strtoull(num("min", at).c_str(), 0, 10), hi = strtoull(num("max", at).c_str(), 0, 10);
			if (num("max", at)[0] == '-') hi = strtoll(num("max", at).c_str(), 0, 10);
			if (lo <= id && id <= hi && !num("on_storage", at).compare(0, 4, "true") && !num("on_cloud", at).compare(0, 4, "true"))
				return do_op(ctx, line.substr(p + 1));
			at++;
		}
		return "none";
	}
	if (op == "repeat") { // repeat n op...
		int n = atoi(a[1].c_str());
		size_t p = line.find(' ', line.find(' ') + 1);
		std::string sub = line.substr(p + 1);
		for (int i = 0; i < n; i++) {
			res = do_op(ctx, sub);
			if (res.compare(0, 2, "ok")) return res + " at repeat " + std::to_string(i);
		}
		return res;
	}
	if (op == "until") { // until "<op>" answers err or n times; for draining
		int n = atoi(a[1].c_str());
		size_t p = line.find(' ', line.find(' ') + 1);
		std::string sub = line.substr(p + 1);
		for (int i = 0; i < n; i++) res = do_op(ctx, sub);
		return res;
	}
	return "bad op " + op;
}

int main(int argc, char** argv)
{
	if (argc < 3) return 2;
	// the engine may log to stdout: keep the protocol apart from it
	out_fd = dup(1);
	dup2(2, 1);
	shim_init(argv[1]);
	vcrc32(0, NULL, 0);
	int timeout = atoi(argv[2]);
	if (chdir(argv[1])) return 2;
	signal(SIGPIPE, SIG_DFL);

	std::vector<std::vector<std::string>> sessions(1);
	std::string line;
	while (std::getline(std::cin, line)) {
		if (line == "---") { sessions.emplace_back(); continue; }
		if (line.empty() || line[0] == '#') continue;
		sessions.back().push_back(line);
	}

	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);

	for (size_t s = 0; s < sessions.size(); s++) {
		pid_t pid = fork();
		if (pid == 0) {
			alarm(timeout);
			shim_active = true;
			Ctx ctx;
			auto& ops = sessions[s];
			for (size_t i = 0; i < ops.size(); i++) {
				if (ops[i] == "threads") {
					std::vector<TArg*> ts;
					for (i++; i < ops.size() && ops[i] != "endthreads"; i++) {
						size_t p = ops[i].find(' ');
						size_t id = atoi(ops[i].substr(1, p - 1).c_str());
						while (ts.size() <= id) { ts.push_back(new TArg()); ts.back()->id = ts.size() - 1; }
						ts[id]->ops.push_back(ops[i].substr(p + 1));
					}
					std::vector<pthread_t> pt(ts.size());
					for (size_t k = 0; k < ts.size(); k++) pthread_create(&pt[k], NULL, thread_main, ts[k]);
					for (size_t k = 0; k < ts.size(); k++) pthread_join(pt[k], NULL);
					std::string o;
					for (auto t : ts) { o += t->out; delete t; }
					out(o + "ok threads\n");
					continue;
				}
				auto r = do_op(ctx, ops[i]);
				out(r + "\n");
			}
			_exit(0);
		}
		int st;
		while (waitpid(pid, &st, 0) == -1 && errno == EINTR) {}
		char b[128];
		if (WIFSIGNALED(st)) snprintf(b, sizeof b, "@signal %d\n", WTERMSIG(st));
		else snprintf(b, sizeof b, "@exit %d\n", WEXITSTATUS(st));
		out(b);
		if (shim_shared->escapes) {
			out(std::string("@escape ") + shim_shared->escape_path + "\n");
			shim_shared->escapes = 0;
		}
		if (WIFSIGNALED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 99)) break;
	}
	return 0;
}
