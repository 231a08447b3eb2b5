// Seeded cooperative scheduler for the library's threads. Every pthread primitive used by the
// library is a scheduling point; exactly one thread runs at a time and the next one is chosen
// from a seeded generator, so a schedule is replayed by its seed. Blocking primitives are
// modelled here (mutex, cond, rwlock with reader preference, spin lock, create/join).
// A state without a runnable thread is reported as a deadlock.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "shim.h"
#include <errno.h>
#include <map>
#include <set>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <vector>
#include <algorithm>

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_spin_lock(pthread_spinlock_t*);
int __real_pthread_spin_trylock(pthread_spinlock_t*);
int __real_pthread_spin_unlock(pthread_spinlock_t*);
int __real_usleep(useconds_t);
int __real_sched_yield(void);
}

bool sched_on;

enum St { RUN, BLOCK, DONE };
struct Th
{
	int            id;
	pthread_t      tid;
	St             st = RUN;
	const void*    on = NULL;      // what it waits for
	bool           signalled = false;
	bool           idle_wait = false;
	uint64_t       prio = 0;
	pthread_cond_t cv;
	void* (*fn)(void*);
	void*          arg;
};

static pthread_mutex_t  G = PTHREAD_MUTEX_INITIALIZER;
static std::vector<Th*> ths;
static Th*              cur;
static thread_local Th* me;
static uint64_t         rng, steps_, max_steps = 3000000;
static int              policy_;
static std::vector<uint64_t> change_points;

static std::map<const void*, Th*> owner;               // mutex / spin
struct Rw { int readers = 0; Th* writer = NULL; };
static std::map<const void*, Rw> rws;

static uint64_t rnd()
{
	uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

uint64_t sched_steps() { return steps_; }

static void say(const char* s) { (void)!write(1, s, strlen(s)); }

// with G held: choose the next thread and hand over; returns when this thread is current again
static void pick_and_wait()
{
	if (++steps_ > max_steps) { say("@steplimit\n"); _exit(96); }
	std::vector<Th*> run;
	for (auto t : ths) if (t->st == RUN && !t->idle_wait) run.push_back(t);
	if (run.empty())
		for (auto t : ths) if (t->st == RUN && t->idle_wait) { run.push_back(t); }
	if (run.empty()) {
		say("@deadlock\n");
		_exit(97);
	}
	Th* next;
	if (policy_ == 0) {
		next = run[rnd() % run.size()];
	} else if (policy_ == 1) {
		// mostly continue, switch with probability 1/8
		next = run[rnd() % run.size()];
		if (me->st == RUN && !me->idle_wait && rnd() % 8) next = me;
	} else {
		// PCT: highest priority runs; priorities change at chosen steps
		if (std::binary_search(change_points.begin(), change_points.end(), steps_) && cur)
			cur->prio = rnd() % 1000;
		next = run[0];
		for (auto t : run) if (t->prio > next->prio) next = t;
		// avoid starvation by a spinning thread
		if (rnd() % 64 == 0) next = run[rnd() % run.size()];
	}
	if (next == me && me->st == RUN) { cur = me; return; }
	cur = next;
	__real_pthread_cond_signal(&next->cv);
	if (me->st == DONE) return;
	while (cur != me) __real_pthread_cond_wait(&me->cv, &G);
}

static void wake(const void* on)
{
	for (auto t : ths) if (t->st == BLOCK && t->on == on) { t->st = RUN; t->on = NULL; }
}

static void block(const void* on)
{
	me->st = BLOCK;
	me->on = on;
	pick_and_wait();
}

struct Hold {
	Hold() { __real_pthread_mutex_lock(&G); }
	~Hold() { __real_pthread_mutex_unlock(&G); }
};

static bool active() { return sched_on && me; }

void sched_start(uint64_t seed, int policy, int depth)
{
	rng = seed; policy_ = policy; steps_ = 0; change_points.clear();
	for (int i = 0; i < depth; i++) change_points.push_back(rnd() % 3000);
	std::sort(change_points.begin(), change_points.end());
	if (sched_on) return;	// only a new seed
	me = new Th();
	me->id = 0;
	me->tid = pthread_self();
	me->prio = 2000 + rnd() % 1000;
	pthread_cond_init(&me->cv, NULL);
	ths.push_back(me);
	cur = me;
	sched_on = true;
}

// run the others until all of them are blocked or finished
void sched_idle()
{
	if (!active()) return;
	Hold h;
	me->idle_wait = true;
	pick_and_wait();
	me->idle_wait = false;
}

void sched_point()
{
	if (!active()) return;
	Hold h;
	pick_and_wait();
}

static void* tramp(void* a)
{
	me = (Th*)a;
	{
		Hold h;
		while (cur != me) __real_pthread_cond_wait(&me->cv, &G);
	}
	void* r = me->fn(me->arg);
	{
		Hold h;
		me->st = DONE;
		wake(me);
		pick_and_wait();
	}
	return r;
}

static int lock_generic(const void* m)
{
	Hold h;
	pick_and_wait();
	for (;;) {
		auto it = owner.find(m);
		if (it == owner.end() || it->second == NULL) break;
		if (it->second == me) { say("@selfdeadlock\n"); _exit(97); }
		block(m);
	}
	owner[m] = me;
	return 0;
}

static int unlock_generic(const void* m)
{
	Hold h;
	owner.erase(m);
	wake(m);
	pick_and_wait();
	return 0;
}

extern "C" {

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return active() ? lock_generic(m) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!active()) return __real_pthread_mutex_trylock(m);
	Hold h;
	pick_and_wait();
	auto it = owner.find(m);
	if (it != owner.end() && it->second) return EBUSY;
	owner[m] = me;
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return active() ? unlock_generic(m) : __real_pthread_mutex_unlock(m); }

int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!active()) return __real_pthread_cond_wait(c, m);
	{
		Hold h;
		owner.erase(m);
		wake(m);
		block(c);
	}
	return lock_generic(m);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
	if (!active()) return __real_pthread_cond_timedwait(c, m, t);
	{
		Hold h;
		owner.erase(m);
		wake(m);
		pick_and_wait();
	}
	lock_generic(m);
	return ETIMEDOUT;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
	if (!active()) return __real_pthread_cond_signal(c);
	Hold h;
	std::vector<Th*> w;
	for (auto t : ths) if (t->st == BLOCK && t->on == c) w.push_back(t);
	if (!w.empty()) { auto t = w[rnd() % w.size()]; t->st = RUN; t->on = NULL; }
	pick_and_wait();
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
	if (!active()) return __real_pthread_cond_broadcast(c);
	Hold h;
	wake(c);
	pick_and_wait();
	return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
	if (!active()) return __real_pthread_rwlock_rdlock(l);
	Hold h;
	pick_and_wait();
	while (rws[l].writer) {
		if (rws[l].writer == me) { say("@selfdeadlock\n"); _exit(97); }
		block(l);
	}
	rws[l].readers++;
	return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
	if (!active()) return __real_pthread_rwlock_wrlock(l);
	Hold h;
	pick_and_wait();
	while (rws[l].writer || rws[l].readers) block(l);
	rws[l].writer = me;
	return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l)
{
	if (!active()) return __real_pthread_rwlock_unlock(l);
	Hold h;
	if (rws[l].writer) rws[l].writer = NULL;
	else rws[l].readers--;
	if (rws[l].readers < 0) { say("@rwlock underflow\n"); abort(); }
	if (rws[l].readers == 0) wake(l);
	pick_and_wait();
	return 0;
}
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	if (!active()) return __real_pthread_create(t, a, fn, arg);
	auto n = new Th();
	n->fn = fn;
	n->arg = arg;
	n->prio = 2000 + rnd() % 1000;
	pthread_cond_init(&n->cv, NULL);
	{
		Hold h;
		n->id = ths.size();
		ths.push_back(n);
	}
	int rc = __real_pthread_create(&n->tid, a, tramp, n);
	*t = n->tid;
	sched_point();
	return rc;
}
int __wrap_pthread_join(pthread_t t, void** r)
{
	if (!active()) return __real_pthread_join(t, r);
	{
		Hold h;
		Th* n = NULL;
		for (auto x : ths) if (x != me && pthread_equal(x->tid, t)) n = x;
		while (n && n->st != DONE) block(n);
		if (n) n->tid = 0;
	}
	return __real_pthread_join(t, r);
}
int __wrap_pthread_spin_lock(pthread_spinlock_t* s) { return active() ? lock_generic((const void*)s) : __real_pthread_spin_lock(s); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t* s)
{
	return __real_pthread_spin_trylock(s);
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t* s) { return active() ? unlock_generic((const void*)s) : __real_pthread_spin_unlock(s); }
int __wrap_usleep(useconds_t u)
{
	if (!active()) return __real_usleep(u);
	sched_point();
	return 0;
}
int __wrap_sched_yield(void)
{
	if (!active()) return __real_sched_yield();
	sched_point();
	return 0;
}
}
