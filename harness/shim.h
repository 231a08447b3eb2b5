#pragma once
#include <stdint.h>
#include <string>

// process-wide state of the system-call shim
struct ShimFault
{
	char     mode[16];    // off, fail, failall, short, kill, torn, ploss, ptorn
	char     cls[16];     // mut, wr, read, sync, unlink, rename, any
	char     filter[64];  // path substring or empty
	int64_t  nth;         // countdown
	int      err;
	uint64_t arg;         // random argument
	int      fired;
	int64_t  count;       // matching operations seen since armed
};

struct ShimTrackEntry
{
	uint64_t ino;
	uint64_t synced;
};

enum { SHIM_TRACK_MAX = 8192 };

struct ShimShared
{
	int            track_count;
	ShimTrackEntry track[SHIM_TRACK_MAX];
	int            escapes;
	char           escape_path[512];
};

extern ShimFault   shim_fault;
extern ShimShared* shim_shared;
extern int         shim_track;
extern uint64_t    shim_readdir_seed;
extern int64_t     shim_time_off;
extern int64_t     shim_time_step;
extern bool        shim_active;
extern std::string shim_root;

void shim_init(const char* root);
void shim_arm(const char* mode, const char* cls, int64_t nth, const char* filter, int err, uint64_t arg);
void shim_set_chop(uint64_t seed);  // partial and interrupted transfers
[[noreturn]] void shim_die(bool ploss);

// seeded cooperative scheduler
extern bool sched_on;
void     sched_start(uint64_t seed, int policy, int depth);
void     sched_stop();
void     sched_thread_begin(int expect);
uint64_t sched_steps();
void     sched_point();
