// System-call shim: every file operation of the library passes through here (-Wl,--wrap).
// It confines mutations to the scratch root, counts operations, injects errors, crashes and
// power loss, shifts the clock and permutes directory order.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "shim.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <limits.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <algorithm>

ShimFault   shim_fault;
ShimShared* shim_shared;
int         shim_track;
uint64_t    shim_readdir_seed;
int64_t     shim_time_off;
int64_t     shim_time_step;
bool        shim_active;
std::string shim_root;

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
}
static pthread_mutex_t shim_mu = PTHREAD_MUTEX_INITIALIZER;
struct Lk {
	// not taken when there is nothing to protect: it would order the threads for the race detector
	bool on = shim_fault.mode[0] != 'o' || shim_track;
	Lk() { if (on) __real_pthread_mutex_lock(&shim_mu); }
	~Lk() { if (on) __real_pthread_mutex_unlock(&shim_mu); }
};

void shim_init(const char* root)
{
	shim_root = root;
	shim_shared = (ShimShared*)mmap(NULL, sizeof(ShimShared), PROT_READ | PROT_WRITE,
	                                MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	strcpy(shim_fault.mode, "off");
}

void shim_arm(const char* mode, const char* cls, int64_t nth, const char* filter, int err, uint64_t arg)
{
	Lk l;
	snprintf(shim_fault.mode, sizeof shim_fault.mode, "%s", mode);
	snprintf(shim_fault.cls, sizeof shim_fault.cls, "%s", cls);
	snprintf(shim_fault.filter, sizeof shim_fault.filter, "%s", filter ? filter : "");
	shim_fault.nth = nth;
	shim_fault.err = err;
	shim_fault.arg = arg;
	shim_fault.fired = 0;
	shim_fault.count = 0;
}

static std::string normalize(const char* path)
{
	std::string p = path;
	if (p.empty() || p[0] != '/') {
		char cwd[PATH_MAX];
		if (getcwd(cwd, sizeof cwd))
			p = std::string(cwd) + "/" + p;
	}
	std::vector<std::string> parts;
	size_t i = 0;
	while (i < p.size()) {
		size_t j = p.find('/', i);
		if (j == std::string::npos) j = p.size();
		std::string s = p.substr(i, j - i);
		if (s == "..") { if (!parts.empty()) parts.pop_back(); }
		else if (!s.empty() && s != ".") parts.push_back(s);
		i = j + 1;
	}
	std::string r;
	for (auto& s : parts) r += "/" + s;
	return r.empty() ? "/" : r;
}

static bool inside(const std::string& p)
{
	return p.size() > shim_root.size() && p.compare(0, shim_root.size(), shim_root) == 0 &&
	       p[shim_root.size()] == '/';
}

static std::string fd_path(int fd)
{
	char link[64], buf[PATH_MAX];
	snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
	ssize_t n = readlink(link, buf, sizeof buf - 1);
	if (n < 0) return "";
	buf[n] = 0;
	return buf;
}

// --- power loss ---------------------------------------------------------------------------

static ShimTrackEntry* track_find(uint64_t ino)
{
	for (int i = 0; i < shim_shared->track_count; i++)
		if (shim_shared->track[i].ino == ino) return &shim_shared->track[i];
	return NULL;
}

static void track_remove(uint64_t ino)
{
	auto e = track_find(ino);
	if (e) *e = shim_shared->track[--shim_shared->track_count];
}

static void track_write(int fd)
{
	if (!shim_track) return;
	struct stat st;
	if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return;
	if (track_find(st.st_ino) || shim_shared->track_count == SHIM_TRACK_MAX) return;
	auto e = &shim_shared->track[shim_shared->track_count++];
	e->ino = st.st_ino;
	e->synced = st.st_size;
}

static void track_sync(int fd)
{
	if (!shim_track) return;
	struct stat st;
	if (fstat(fd, &st)) return;
	auto e = track_find(st.st_ino);
	if (e) e->synced = st.st_size;
}

extern "C" int __real_truncate(const char*, off_t);
static uint64_t ploss_rnd;
static uint64_t rnd_next()
{
	uint64_t z = (ploss_rnd += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

static int ploss_visit(const char* path, const struct stat* st, int type, struct FTW*)
{
	// what the mock cloud holds is not on this machine
	if (type != FTW_F || strstr(path, "/mock/")) return 0;
	auto e = track_find(st->st_ino);
	if (!e) return 0;
	if ((uint64_t)st->st_size > e->synced) {
		uint64_t un = st->st_size - e->synced;
		uint64_t keep = 0;
		// a prefix of what was not synced reaches the disk
		int how = rnd_next() % 3;
		if (how == 1) keep = rnd_next() % (un + 1);
		if (how == 2) keep = un;
		(void)!__real_truncate(path, e->synced + keep);
	}
	return 0;
}

[[noreturn]] void shim_die(bool ploss)
{
	if (ploss) {
		ploss_rnd = shim_fault.arg;
		nftw(shim_root.c_str(), ploss_visit, 32, FTW_PHYS);
		shim_shared->track_count = 0;
	}
	_exit(99);
}

// --- faults ---------------------------------------------------------------------------------

enum { F_NONE, F_ERR, F_SHORT, F_TORN };
enum { C_WR = 1, C_SYNC = 2, C_UNLINK = 4, C_RENAME = 8, C_CREATE = 16, C_TRUNC = 32, C_DIR = 64, C_READ = 128 };

static int cls_mask(const char* c)
{
	if (!strcmp(c, "mut")) return 127;
	if (!strcmp(c, "wr")) return C_WR;
	if (!strcmp(c, "sync")) return C_SYNC;
	if (!strcmp(c, "wrsync")) return C_SYNC | C_WR;
	if (!strcmp(c, "unlink")) return C_UNLINK;
	if (!strcmp(c, "rename")) return C_RENAME;
	if (!strcmp(c, "create")) return C_CREATE;
	if (!strcmp(c, "read")) return C_READ;
	if (!strcmp(c, "trunc")) return C_TRUNC;
	return 255;
}

// decide the fate of an operation; may not return
static int fault_check(int cls, const std::string& path, bool write_op)
{
	auto f = &shim_fault;
	if (f->mode[0] == 'o') return F_NONE;
	if (!(cls & cls_mask(f->cls))) return F_NONE;
	if (f->filter[0] && path.find(f->filter) == std::string::npos) return F_NONE;
	f->count++;
	bool all = !strcmp(f->mode, "failall") || !strcmp(f->mode, "short");
	if (f->nth > 0) { f->nth--; return F_NONE; }
	if (f->nth < 0 && !all) return F_NONE;
	bool first = f->nth == 0;
	f->nth = -1;
	f->fired++;
	if (!strcmp(f->mode, "kill")) shim_die(false);
	if (!strcmp(f->mode, "ploss")) shim_die(true);
	if (!strcmp(f->mode, "torn") || !strcmp(f->mode, "ptorn")) {
		if (write_op) return F_TORN;
		shim_die(f->mode[0] == 'p');
	}
	if (!strcmp(f->mode, "short") && write_op && first) return F_SHORT;
	return F_ERR;
}

static bool escape(const std::string& p)
{
	if (!shim_active || inside(p) || p.compare(0, 5, "/dev/") == 0) return false;
	shim_shared->escapes++;
	snprintf(shim_shared->escape_path, sizeof shim_shared->escape_path, "%s", p.c_str());
	errno = EACCES;
	return true;
}

#define PATH_OP(cls, p) \
	do { \
		if (shim_active) { \
			std::string n_ = normalize(p); \
			if (escape(n_)) return -1; \
			sched_point(); \
			Lk l_; \
			int f_ = fault_check(cls, n_, false); \
			if (f_) { errno = shim_fault.err; return -1; } \
		} \
	} while (0)

extern "C" {

int     __real_open(const char*, int, ...);
int     __real_openat(int, const char*, int, ...);
int     __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_pwritev(int, const struct iovec*, int, off_t);
int     __real_rename(const char*, const char*);
int     __real_renameat(int, const char*, int, const char*);
int     __real_unlink(const char*);
int     __real_unlinkat(int, const char*, int);
int     __real_mkdir(const char*, mode_t);
int     __real_rmdir(const char*);
int     __real_ftruncate(int, off_t);
int     __real_truncate(const char*, off_t);
int     __real_fsync(int);
int     __real_fdatasync(int);
int     __real_sync_file_range(int, off_t, off_t, unsigned);
int     __real_fallocate(int, int, off_t, off_t);
int     __real_posix_fallocate(int, off_t, off_t);
int     __real_link(const char*, const char*);
struct dirent* __real_readdir(DIR*);
struct dirent64* __real_readdir64(DIR*);
DIR*    __real_opendir(const char*);
int     __real_clock_gettime(clockid_t, struct timespec*);
int     __real_gettimeofday(struct timeval*, void*);
time_t  __real_time(time_t*);

static int do_open(const char* path, int flags, int mode)
{
	if (shim_active) {
		std::string n = normalize(path);
		bool mut = flags & (O_CREAT | O_TRUNC);
		if ((flags & O_ACCMODE) != O_RDONLY || mut)
			if (escape(n)) return -1;
		if (inside(n)) {
			sched_point();
			struct stat st;
			bool exists = stat(n.c_str(), &st) == 0;
			Lk l;
			int f;
			if ((mut && !exists) || (flags & O_TRUNC))
				f = fault_check(C_CREATE, n, false);
			else
				f = fault_check(C_READ, n, false);
			if (f) { errno = shim_fault.err; return -1; }
		}
	}
	return __real_open(path, flags, mode);
}

int __wrap_open(const char* path, int flags, ...)
{
	int mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
	return do_open(path, flags, mode);
}
int __wrap_open64(const char* path, int flags, ...)
{
	int mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
	return do_open(path, flags, mode);
}
int __wrap_openat(int dfd, const char* path, int flags, ...)
{
	int mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
	if (path[0] == '/' || dfd == AT_FDCWD) return do_open(path, flags, mode);
	return do_open((fd_path(dfd) + "/" + path).c_str(), flags, mode);
}
int __wrap_creat(const char* path, mode_t mode) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int __wrap_close(int fd) { return __real_close(fd); }

// harmless partial transfers and interrupted calls, as the kernel may return at any time
static uint64_t chop_state;
static uint64_t chop_rnd()
{
	uint64_t x = __atomic_load_n(&chop_state, __ATOMIC_RELAXED);
	x ^= x << 13; x ^= x >> 7; x ^= x << 17;
	__atomic_store_n(&chop_state, x, __ATOMIC_RELAXED);
	return x;
}
// -1: EINTR, else the size to transfer
static ssize_t chop(size_t total)
{
	if (!__atomic_load_n(&chop_state, __ATOMIC_RELAXED) || !total) return total;
	uint64_t r = chop_rnd();
	if (r % 7 == 0) { errno = EINTR; return -1; }
	if (r % 7 < 4) return 1 + (r >> 8) % total;
	return total;
}

// 1: proceed, 0: error (errno set), else partial size in *part
static int wr_pre(int fd, size_t total, size_t* part)
{
	*part = total;
	if (!shim_active || fd <= 2) return 1;
	std::string p = fd_path(fd);
	if (!inside(p)) return 1;
	sched_point();
	Lk l;
	track_write(fd);
	int f = fault_check(C_WR, p, true);
	if (f == F_NONE) {
		ssize_t k = chop(total);
		if (k < 0) return 0;
		*part = k;
		return 1;
	}
	if (f == F_ERR) { errno = shim_fault.err; return 0; }
	*part = total ? shim_fault.arg % total : 0;
	if (f == F_SHORT) {
		if (*part == 0) { errno = shim_fault.err; return 0; }
		return 1;
	}
	return 2; // torn
}

static ssize_t writev_part(int fd, const struct iovec* v, int n, size_t part)
{
	ssize_t done = 0;
	for (int i = 0; i < n && part > 0; i++) {
		size_t k = v[i].iov_len < part ? v[i].iov_len : part;
		if (k == 0) continue;
		ssize_t r = __real_write(fd, v[i].iov_base, k);
		if (r < 0) return done ? done : -1;
		done += r;
		part -= r;
	}
	return done;
}

ssize_t __wrap_write(int fd, const void* b, size_t n)
{
	size_t part;
	int r = wr_pre(fd, n, &part);
	if (r == 0) return -1;
	ssize_t rc = __real_write(fd, b, part);
	if (r == 2) shim_die(shim_fault.mode[0] == 'p');
	return rc;
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t off)
{
	size_t part;
	int r = wr_pre(fd, n, &part);
	if (r == 0) return -1;
	ssize_t rc = __real_pwrite(fd, b, part, off);
	if (r == 2) shim_die(shim_fault.mode[0] == 'p');
	return rc;
}
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t off) { return __wrap_pwrite(fd, b, n, off); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n)
{
	size_t total = 0, part;
	for (int i = 0; i < n; i++) total += v[i].iov_len;
	int r = wr_pre(fd, total, &part);
	if (r == 0) return -1;
	if (r == 1 && part == total) return __real_writev(fd, v, n);
	ssize_t rc = writev_part(fd, v, n, part);
	if (r == 2) shim_die(shim_fault.mode[0] == 'p');
	return rc;
}
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int n, off_t off)
{
	size_t total = 0, part;
	for (int i = 0; i < n; i++) total += v[i].iov_len;
	int r = wr_pre(fd, total, &part);
	if (r == 0) return -1;
	if (r == 1 && part == total) return __real_pwritev(fd, v, n, off);
	std::string flat;
	for (int i = 0; i < n; i++) flat.append((char*)v[i].iov_base, v[i].iov_len);
	ssize_t rc = __real_pwrite(fd, flat.data(), part, off);
	if (r == 2) shim_die(shim_fault.mode[0] == 'p');
	return rc;
}
ssize_t __wrap_pwritev64(int fd, const struct iovec* v, int n, off_t off) { return __wrap_pwritev(fd, v, n, off); }

static int rd_pre(int fd)
{
	if (!shim_active || fd <= 2) return 1;
	std::string p = fd_path(fd);
	if (!inside(p)) return 1;
	Lk l;
	if (fault_check(C_READ, p, false)) { errno = shim_fault.err; return 0; }
	return 1;
}
static ssize_t rd_chop(int fd, size_t n)
{
	if (!__atomic_load_n(&chop_state, __ATOMIC_RELAXED) || !shim_active || fd <= 2 || !inside(fd_path(fd))) return n;
	return chop(n);
}
ssize_t __wrap_read(int fd, void* b, size_t n)
{
	ssize_t k = rd_pre(fd) ? rd_chop(fd, n) : -1;
	return k < 0 ? -1 : __real_read(fd, b, k);
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
	ssize_t k = rd_pre(fd) ? rd_chop(fd, n) : -1;
	return k < 0 ? -1 : __real_pread(fd, b, k, o);
}
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }

static void forget(const char* path)
{
	struct stat st;
	if (shim_track && lstat(path, &st) == 0 && st.st_nlink == 1) { Lk l; track_remove(st.st_ino); }
}

int __wrap_rename(const char* a, const char* b)
{
	if (shim_active) {
		std::string na = normalize(a), nb = normalize(b);
		if (escape(na) || escape(nb)) return -1;
		Lk l;
		if (fault_check(C_RENAME, na + " " + nb, false)) { errno = shim_fault.err; return -1; }
	}
	forget(b);
	return __real_rename(a, b);
}
int __wrap_renameat(int da, const char* a, int db, const char* b)
{
	std::string pa = a[0] == '/' || da == AT_FDCWD ? a : fd_path(da) + "/" + a;
	std::string pb = b[0] == '/' || db == AT_FDCWD ? b : fd_path(db) + "/" + b;
	return __wrap_rename(pa.c_str(), pb.c_str());
}
int __wrap_unlink(const char* p)
{
	PATH_OP(C_UNLINK, p);
	forget(p);
	return __real_unlink(p);
}
int __wrap_unlinkat(int d, const char* p, int flags)
{
	std::string n = p[0] == '/' || d == AT_FDCWD ? p : fd_path(d) + "/" + p;
	if (flags & AT_REMOVEDIR) { PATH_OP(C_DIR, n.c_str()); return __real_rmdir(n.c_str()); }
	return __wrap_unlink(n.c_str());
}
int __wrap_mkdir(const char* p, mode_t m) { PATH_OP(C_DIR, p); return __real_mkdir(p, m); }
int __wrap_rmdir(const char* p) { PATH_OP(C_DIR, p); return __real_rmdir(p); }
int __wrap_link(const char* a, const char* b) { PATH_OP(C_CREATE, b); return __real_link(a, b); }
int __wrap_truncate(const char* p, off_t n) { PATH_OP(C_TRUNC, p); return __real_truncate(p, n); }
int __wrap_ftruncate(int fd, off_t n)
{
	if (shim_active) {
		std::string p = fd_path(fd);
		if (inside(p)) {
			Lk l;
			track_write(fd);
			if (fault_check(C_TRUNC, p, false)) { errno = shim_fault.err; return -1; }
			struct stat st;
			if (shim_track && fstat(fd, &st) == 0) {
				auto e = track_find(st.st_ino);
				if (e && e->synced > (uint64_t)n) e->synced = n;
			}
		}
	}
	return __real_ftruncate(fd, n);
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }

static int sync_pre(int fd)
{
	if (!shim_active) return 1;
	std::string p = fd_path(fd);
	if (!inside(p)) return 1;
	Lk l;
	if (fault_check(C_SYNC, p, false)) { errno = shim_fault.err; return 0; }
	track_sync(fd);
	return 1;
}
int __wrap_fsync(int fd) { return sync_pre(fd) ? 0 : -1; }
int __wrap_fdatasync(int fd) { return sync_pre(fd) ? 0 : -1; }
int __wrap_sync_file_range(int fd, off_t, off_t, unsigned) { return sync_pre(fd) ? 0 : -1; }
int __wrap_fallocate(int fd, int m, off_t o, off_t n) { size_t p; return wr_pre(fd, 0, &p) == 1 ? __real_fallocate(fd, m, o, n) : -1; }
int __wrap_posix_fallocate(int fd, off_t o, off_t n) { size_t p; return wr_pre(fd, 0, &p) == 1 ? __real_posix_fallocate(fd, o, n) : errno; }

// directory order: a seeded permutation of the sorted entries
static std::map<DIR*, std::pair<std::vector<struct dirent>, size_t>> dirs;

DIR* __wrap_opendir(const char* path)
{
	if (shim_active) {
		std::string n = normalize(path);
		if (inside(n)) {
			Lk l;
			if (fault_check(C_READ, n, false)) { errno = shim_fault.err; return NULL; }
		}
	}
	DIR* d = __real_opendir(path);
	if (d && shim_active) {
		std::vector<struct dirent> v;
		struct dirent* e;
		while ((e = __real_readdir(d))) v.push_back(*e);
		std::sort(v.begin(), v.end(), [](const struct dirent& a, const struct dirent& b) { return strcmp(a.d_name, b.d_name) < 0; });
		uint64_t s = shim_readdir_seed;
		if (s == 1) std::reverse(v.begin(), v.end());
		else if (s > 1)
			for (size_t i = v.size(); i > 1; i--) {
				s ^= s << 13; s ^= s >> 7; s ^= s << 17;
				std::swap(v[i - 1], v[s % i]);
			}
		Lk l;
		dirs[d] = {v, 0};
	}
	return d;
}
struct dirent* __wrap_readdir(DIR* d)
{
	{
		Lk l;
		auto it = dirs.find(d);
		if (it != dirs.end()) {
			auto& s = it->second;
			if (s.second >= s.first.size()) return NULL;
			return &s.first[s.second++];
		}
	}
	return __real_readdir(d);
}
struct dirent64* __wrap_readdir64(DIR* d) { return (struct dirent64*)__wrap_readdir(d); }

int __wrap_clock_gettime(clockid_t c, struct timespec* t)
{
	int rc = __real_clock_gettime(c, t);
	if (shim_active && rc == 0 && c == CLOCK_REALTIME && shim_time_off) {
		// virtual clock: fixed base plus a microsecond per call
		int64_t us = __atomic_add_fetch(&shim_time_off, shim_time_step, __ATOMIC_SEQ_CST);
		t->tv_sec = us / 1000000;
		t->tv_nsec = (us % 1000000) * 1000;
	}
	return rc;
}
int __wrap_gettimeofday(struct timeval* t, void* z) { return __real_gettimeofday(t, z); }
time_t __wrap_time(time_t* t) { return __real_time(t); }
}

void shim_set_chop(uint64_t seed) { __atomic_store_n(&chop_state, seed, __ATOMIC_RELAXED); }
