/*
 * sched_shim.c - one thread at a time, and it is decided here which.
 *
 * The library is compiled with -fsanitize-coverage=trace-pc, so every basic block is a place where the running thread
 * can be stopped and another one continued; the locking functions are wrapped so that a thread that would block gives
 * way to one that can run, and so that a deadlock is seen at once.  Everything random comes from the seed.
 */
#include "mdrv.h"
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdatomic.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "sched.h"

int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_trylock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *m);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *m);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *m);
int __real_pthread_spin_lock(pthread_spinlock_t *m);
int __real_pthread_spin_unlock(pthread_spinlock_t *m);
int __real_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int __real_pthread_cond_signal(pthread_cond_t *c);
int __real_pthread_cond_broadcast(pthread_cond_t *c);

void *__real_malloc(size_t n);
void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);

#define MAXT 8
enum { RUNNABLE, BLOCKED, DONE };
static struct {
	pthread_cond_t cv;
	int st, prio;
	pid_t tid;
	const void *on;		/* what it is blocked on */
	long until;		/* set aside until so many steps have been taken, while others can run */
} th[MAXT];
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static int nth, cur = -1, active;
static unsigned long long rng, salt;
static long steps, next_switch, npoints, points[64], mean, lockprob, hot, fine, beats;
static __thread int me = -1;
static FILE *report;

static unsigned long rnd(void)
{
	rng = rng * 6364136223846793005ull + 1442695040888963407ull;
	return (unsigned long)(rng >> 33);
}

static void plan(void)
{
	if (mean) {
		next_switch = steps + 1 + (long)(rnd() % (2 * (unsigned long)mean));
	} else {
		next_switch = -1;
		for (long i = 0; i < npoints; i++)
			if (points[i] > steps && (next_switch < 0 || points[i] < next_switch))
				next_switch = points[i];
	}
}

static int pick_other(int self)
{
	int cand[MAXT], n = 0;
	for (int i = 0; i < nth; i++)
		if (i != self && th[i].st == RUNNABLE && th[i].until <= steps)
			cand[n++] = i;
	for (int i = 0; i < nth && !n; i++)
		if (i != self && th[i].st == RUNNABLE)
			cand[n++] = i;
	return n ? cand[rnd() % (unsigned)n] : -1;
}

static void wait_turn(int self)
{
	while (cur != self)
		__real_pthread_cond_wait(&th[self].cv, &big);
}

/* with `big` held: let another thread run; `self` continues when it is chosen again */
static void give_way(int self, int to)
{
	cur = to;
	beats++;
	__real_pthread_cond_signal(&th[to].cv);
	if (th[self].st != DONE)
		wait_turn(self);
}

static void deadlock(void)
{
	if (!report)
		abort();
	fprintf(report, "{\"ev\":\"DEADLOCK\"}\n");
	fflush(report);
	_exit(0);
}

static void in_line(void)
{
	if (cur != me) {	/* set free by the watchdog: back in line */
		__real_pthread_mutex_lock(&big);
		wait_turn(me);
		__real_pthread_mutex_unlock(&big);
	}
}

static inline void step(void)
{
	in_line();
	steps++;
	if (steps != next_switch)
		return;
	__real_pthread_mutex_lock(&big);
	plan();
	int to = pick_other(me);
	if (to >= 0)
		give_way(me, to);
	__real_pthread_mutex_unlock(&big);
}

void __sanitizer_cov_trace_pc(void)
{
	if (me >= 0 && active)
		step();
}

/* ---- accesses to memory: -fsanitize=thread's calls, or AddressSanitizer's out-of-line ones ---- */
extern char __data_start[], _end[], __executable_start[];

/*
 * Which accesses are ordered: every thread has a vector of clocks, which the synchronisation operations pass on, and
 * every word the last accesses to it.  Two accesses by different threads, one of them a write, that nothing orders are
 * reported with their clocks (spec/Concurrent.tla decides), and some that are ordered too.
 */
#define CELLS 4
struct cell { unsigned char t, mask, write, used; unsigned clk; unsigned vc[MAXT]; const char *pc; };
struct word { uintptr_t key; struct cell c[CELLS]; };
static struct word *words;
static size_t wcap, wused;
static unsigned vc[MAXT][MAXT];
#define MAXS 4096
static struct sync { const void *p; unsigned w[MAXT], r[MAXT]; int writer; } syncs[MAXS];
struct conflict { struct cell a, b; uintptr_t addr; int ordered; };
static struct conflict conf[16];
static int nconf, nraces;

static struct sync *sync_of(const void *p)
{
	size_t i = ((uintptr_t)p >> 3) * 0x9E3779B97F4A7C15ull >> 40 & (MAXS - 1);
	for (size_t k = 0; k < MAXS; k++, i = (i + 1) & (MAXS - 1))
		if (syncs[i].p == p || !syncs[i].p) {
			syncs[i].p = p;
			return &syncs[i];
		}
	abort();
}

static void join_clock(unsigned *to, const unsigned *from)
{
	for (int i = 0; i < MAXT; i++)
		if (from[i] > to[i])
			to[i] = from[i];
}

static void acquired(const void *p, int shared)
{
	struct sync *s = sync_of(p);
	join_clock(vc[me], s->w);
	if (!shared) {
		join_clock(vc[me], s->r);
		s->writer = me + 1;
	}
}

static void releasing(const void *p)
{
	struct sync *s = sync_of(p);
	join_clock(s->writer == me + 1 ? s->w : s->r, vc[me]);
	if (s->writer == me + 1)
		s->writer = 0;
	vc[me][me]++;
}

/* an operation that is ordered with all others on the same object */
static void both_ways(const void *p)
{
	struct sync *s = sync_of(p);
	join_clock(vc[me], s->w);
	join_clock(s->w, vc[me]);
	vc[me][me]++;
}

static struct word *word_at(uintptr_t key, int add)
{
	size_t i;
	if (!wcap || wused * 2 > wcap) {
		struct word *old = words;
		size_t oc = wcap;
		if (!add && !wcap)
			return NULL;
		wcap = wcap ? 2 * wcap : 1 << 13;
		words = __real_calloc(wcap, sizeof(*words));
		for (size_t k = 0; k < oc; k++)
			if (old[k].key) {
				for (i = (old[k].key * 0x9E3779B97F4A7C15ull >> 20) & (wcap - 1); words[i].key; i = (i + 1) & (wcap - 1))
					;
				words[i] = old[k];
			}
		__real_free(old);
	}
	for (i = (key * 0x9E3779B97F4A7C15ull >> 20) & (wcap - 1); words[i].key; i = (i + 1) & (wcap - 1))
		if (words[i].key == key)
			return &words[i];
	if (!add)
		return NULL;
	words[i].key = key;
	wused++;
	return &words[i];
}

static void touch_word(uintptr_t key, unsigned char mask, int write, const char *pc, int add)
{
	struct word *w = word_at(key, add);
	struct cell now = { .t = (unsigned char)me, .mask = mask, .write = (unsigned char)write, .used = 1, .clk = vc[me][me], .pc = pc };
	int at = -1;

	if (!w)
		return;
	for (int i = 0; i < CELLS; i++) {
		struct cell *c = &w->c[i];
		if (!c->used) {
			at = at < 0 ? i : at;
			continue;
		}
		if (c->t == me) {
			if (c->mask == mask && c->write == write)
				at = i;
			continue;
		}
		int ordered = c->clk <= vc[me][c->t];
		if ((c->mask & mask) && (c->write || write) && (!ordered ? nraces < 8 : nconf - nraces < 8)) {
			int again = 0;
			for (int k = 0; k < nconf; k++)
				again = again || (conf[k].a.pc == c->pc && conf[k].b.pc == pc && conf[k].ordered == ordered);
			if (!again) {
				memcpy(now.vc, vc[me], sizeof(now.vc));
				conf[nconf++] = (struct conflict){ *c, now, key * 8, ordered };
				nraces += !ordered;
			}
		}
		if (ordered && at < 0 && (write || !c->write) && !(c->mask & ~mask))
			at = i;		/* what is ordered after this one is ordered after that one */
	}
	if (at < 0)
		at = (int)(wused + (size_t)me) % CELLS;
	memcpy(now.vc, vc[me], sizeof(now.vc));
	if (add)
		w->c[at] = now;
}

static void touch(const void *p, size_t n, int write, const char *pc, int add)
{
	uintptr_t a = (uintptr_t)p, e = a + n;
	while (a < e) {
		uintptr_t last = (a | 7) + 1 < e ? (a | 7) + 1 : e;
		touch_word(a >> 3, (unsigned char)(((1u << (last - a)) - 1) << (a & 7)), write, pc, add);
		a = last;
	}
}

static void forget(const void *p, size_t n)
{
	for (uintptr_t k = (uintptr_t)p >> 3; wused && k < ((uintptr_t)p + n + 7) >> 3; k++) {
		struct word *w = word_at(k, 0);
		if (w)
			memset(w->c, 0, sizeof(w->c));
	}
}

void *__wrap_malloc(size_t n)
{
	void *p = __real_malloc(n);
	if (p && me >= 0 && active) {
		in_line();
		forget(p, n);
	}
	return p;
}

void *__wrap_calloc(size_t a, size_t b)
{
	void *p = __real_calloc(a, b);
	if (p && me >= 0 && active) {
		in_line();
		forget(p, a * b);
	}
	return p;
}

void __wrap_free(void *p)
{
	if (p && me >= 0 && active) {
		in_line();
		touch(p, malloc_usable_size(p), 1, __builtin_return_address(0), 0);
		forget(p, malloc_usable_size(p));
	}
	__real_free(p);
}

void *__wrap_realloc(void *q, size_t n)
{
	void *p;
	if (me < 0 || !active)
		return __real_realloc(q, n);
	p = __wrap_malloc(n);
	if (p && q) {
		size_t old = malloc_usable_size(q);
		memcpy(p, q, old < n ? old : n);
		__wrap_free(q);
	}
	return p;
}

/* the runs' conflicting accesses, for the trace */
void sched_conflicts(FILE *o)
{
	for (int i = 0; i < nconf; i++) {
		struct conflict *c = &conf[i];
		const struct cell *x[2] = { &c->a, &c->b };
		fprintf(o, "%s[", i ? "," : "");
		for (int k = 0; k < 2; k++) {
			fprintf(o, "%s{\"t\":%d,\"w\":%d,\"pc\":%ld,\"vc\":[", k ? "," : "", x[k]->t, x[k]->write, (long)(x[k]->pc - __executable_start));
			for (int t = 0; t < nth; t++)
				fprintf(o, "%s%u", t ? "," : "", x[k]->vc[t]);
			fprintf(o, "]}");
		}
		fprintf(o, "]");
	}
}

/*
 * A schedule has a set of places in the code ("hot"): a thread that is about to access memory there is set aside for a
 * while and the others go on, which is when they may meet what it has left half done.
 */
static void access_at(const void *p, const char *pc, int n, int write)
{
	char *fp = __builtin_frame_address(0);
	int global = (const char*)p >= __data_start && (const char*)p < _end;

	if (me < 0 || !active || (!global && (const char*)p >= fp && (const char*)p < fp + 65536))
		return;
	in_line();
	if (hot) {
		unsigned long long h = ((unsigned long long)(pc - __executable_start) + salt) * 0x9E3779B97F4A7C15ull;
		h = (h ^ h >> 29) * 0xBF58476D1CE4E5B9ull;
		if ((h >> 40) % (unsigned long)(global ? (hot + 7) / 8 : hot) == 0 && rnd() % 2) {
			__real_pthread_mutex_lock(&big);
			wait_turn(me);
			int to = pick_other(me);
			if (to >= 0) {
				th[me].until = steps + (20l << rnd() % 11);
				give_way(me, to);
			}
			__real_pthread_mutex_unlock(&big);
		}
	}
	if (global || fine)
		step();
	if (write >= 0)
		touch(p, (size_t)n, write, pc, 1);
}
#define access_to(p, n, w) access_at(p, __builtin_return_address(0), n, w)

void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
#define ACCESS(n) \
	void __tsan_read##n(void *p) { access_to(p, n, 0); } \
	void __tsan_write##n(void *p) { access_to(p, n, 1); } \
	void __tsan_unaligned_read##n(void *p) { access_to(p, n, 0); } \
	void __tsan_unaligned_write##n(void *p) { access_to(p, n, 1); } \
	void __attribute__((weak)) __real___asan_load##n(void *p); \
	void __attribute__((weak)) __real___asan_store##n(void *p); \
	void __wrap___asan_load##n(void *p) { access_to(p, 0, -1); __real___asan_load##n(p); } \
	void __wrap___asan_store##n(void *p) { access_to(p, 0, -1); __real___asan_store##n(p); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void *p, size_t n) { access_to(p, (int)n, 0); }
void __tsan_write_range(void *p, size_t n) { access_to(p, (int)n, 1); }
void __attribute__((weak)) __real___asan_loadN(void *p, size_t n);
void __attribute__((weak)) __real___asan_storeN(void *p, size_t n);
void __wrap___asan_loadN(void *p, size_t n) { access_to(p, 0, -1); __real___asan_loadN(p, n); }
void __wrap___asan_storeN(void *p, size_t n) { access_to(p, 0, -1); __real___asan_storeN(p, n); }

static void atomic_at(const void *a, const char *pc)
{
	access_at(a, pc, 0, -1);
	if (me >= 0 && active)
		both_ways(a);
}

/* atomic operations: a place to switch, then the operation */
#define ATOMIC(b, t) \
	t __tsan_atomic##b##_load(const volatile t *a, int mo) { (void)mo; atomic_at((const void*)a, __builtin_return_address(0)); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##b##_store(volatile t *a, t v, int mo) { (void)mo; atomic_at((const void*)a, __builtin_return_address(0)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_exchange(volatile t *a, t v, int mo) { (void)mo; atomic_at((const void*)a, __builtin_return_address(0)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int mo) { (void)mo; atomic_at((const void*)a, __builtin_return_address(0)); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int mo) { (void)mo; atomic_at((const void*)a, __builtin_return_address(0)); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int mo) { (void)mo; atomic_at((const void*)a, __builtin_return_address(0)); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int mo) { (void)mo; atomic_at((const void*)a, __builtin_return_address(0)); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int mo) { (void)mo; atomic_at((const void*)a, __builtin_return_address(0)); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *c, t v, int mo, int fmo) { (void)mo; (void)fmo; atomic_at((const void*)a, __builtin_return_address(0)); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *c, t v, int mo, int fmo) { (void)mo; (void)fmo; atomic_at((const void*)a, __builtin_return_address(0)); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { (void)mo; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

static void at_lock(void)
{
	if (me < 0 || !active)
		return;
	__real_pthread_mutex_lock(&big);
	wait_turn(me);
	if ((long)(rnd() % 100) < lockprob) {
		int to = pick_other(me);
		if (to >= 0)
			give_way(me, to);
	}
	__real_pthread_mutex_unlock(&big);
}

static void block_on(const void *m)
{
	__real_pthread_mutex_lock(&big);
	th[me].st = BLOCKED;
	th[me].on = m;
	int to = pick_other(me);
	if (to < 0)
		deadlock();
	give_way(me, to);
	__real_pthread_mutex_unlock(&big);
}

static void released(const void *m)
{
	__real_pthread_mutex_lock(&big);
	for (int i = 0; i < nth; i++)
		if (th[i].st == BLOCKED && th[i].on == m)
			th[i].st = RUNNABLE;
	__real_pthread_mutex_unlock(&big);
}

int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	int rc = __real_pthread_mutex_trylock(m);
	if (me < 0 || !active) {
		if (rc == EBUSY && !active)	/* the only thread there is holds it */
			deadlock();
		return rc == EBUSY ? __real_pthread_mutex_lock(m) : rc;
	}
	if (!rc)
		__real_pthread_mutex_unlock(m);
	at_lock();
	while ((rc = __real_pthread_mutex_trylock(m)) == EBUSY)
		block_on(m);
	if (!rc)
		acquired(m, 0);
	return rc;
}

int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	int rc;
	at_lock();
	rc = __real_pthread_mutex_trylock(m);
	if (!rc && me >= 0 && active)
		acquired(m, 0);
	return rc;
}

int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (me >= 0 && active)
		releasing(m);
	int rc = __real_pthread_mutex_unlock(m);
	if (me >= 0 && active) {
		released(m);
		at_lock();
	}
	return rc;
}

int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
	int rc;
	if (me < 0 || !active)
		return __real_pthread_rwlock_rdlock(m);
	at_lock();
	while ((rc = pthread_rwlock_tryrdlock(m)) == EBUSY)
		block_on(m);
	if (!rc)
		acquired(m, 1);
	return rc;
}

int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
	int rc;
	if (me < 0 || !active)
		return __real_pthread_rwlock_wrlock(m);
	at_lock();
	while ((rc = pthread_rwlock_trywrlock(m)) == EBUSY)
		block_on(m);
	if (!rc)
		acquired(m, 0);
	return rc;
}

int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m)
{
	if (me >= 0 && active)
		releasing(m);
	int rc = __real_pthread_rwlock_unlock(m);
	if (me >= 0 && active) {
		released(m);
		at_lock();
	}
	return rc;
}

int __wrap_pthread_spin_lock(pthread_spinlock_t *m)
{
	int rc;
	if (me < 0 || !active)
		return __real_pthread_spin_lock(m);
	at_lock();
	while ((rc = pthread_spin_trylock(m)) == EBUSY)
		block_on((const void*)m);
	if (!rc)
		acquired((const void*)m, 0);
	return rc;
}

int __wrap_pthread_spin_unlock(pthread_spinlock_t *m)
{
	if (me >= 0 && active)
		releasing((const void*)m);
	int rc = __real_pthread_spin_unlock(m);
	if (me >= 0 && active) {
		released((const void*)m);
		at_lock();
	}
	return rc;
}

/* C11's names for the same */
int __wrap_mtx_lock(void *m) { return __wrap_pthread_mutex_lock(m); }
int __wrap_mtx_unlock(void *m) { return __wrap_pthread_mutex_unlock(m); }

int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (me < 0 || !active)
		return __real_pthread_cond_wait(c, m);
	in_line();
	releasing(m);
	__real_pthread_mutex_unlock(m);
	released(m);
	block_on(c);
	both_ways(c);
	return __wrap_pthread_mutex_lock(m);
}

int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
	if (me < 0 || !active)
		return __real_pthread_cond_broadcast(c);
	in_line();
	both_ways(c);
	released(c);
	at_lock();
	return 0;
}

int __wrap_pthread_cond_signal(pthread_cond_t *c)	/* more than one may wake up: that is allowed */
{
	return me < 0 || !active ? __real_pthread_cond_signal(c) : __wrap_pthread_cond_broadcast(c);
}

int __real_sem_wait(sem_t *s);
int __real_sem_post(sem_t *s);
int __wrap_sem_wait(sem_t *s)
{
	if (me < 0 || !active)
		return __real_sem_wait(s);
	at_lock();
	while (sem_trywait(s))
		block_on(s);
	both_ways(s);
	return 0;
}

int __wrap_sem_post(sem_t *s)
{
	int rc;
	if (me >= 0 && active)
		both_ways(s);
	rc = __real_sem_post(s);
	if (me >= 0 && active) {
		released(s);
		at_lock();
	}
	return rc;
}

int __real_pthread_once(pthread_once_t *o, void (*f)(void));
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
	int rc = __real_pthread_once(o, f);
	if (me >= 0 && active)
		both_ways(o);
	return rc;
}

/* the chosen thread sleeps in something that is not wrapped: let another one go on */
static void *watchdog(void *arg)
{
	long last = -1, lastb = -1;
	int same = 0;

	(void)arg;
	while (active) {
		usleep(20000);
		__real_pthread_mutex_lock(&big);
		if (cur >= 0 && steps == last && beats == lastb) {
			char path[64], st = 0;
			FILE *f;
			snprintf(path, sizeof(path), "/proc/self/task/%d/stat", (int)th[cur].tid);
			f = fopen(path, "r");
			if (f) {
				if (fscanf(f, "%*d (%*[^)]) %c", &st) != 1)
					st = 0;
				fclose(f);
			}
			same = st == 'S' ? same + 1 : 0;
			if (same >= 15) {
				int to = pick_other(cur);
				if (to >= 0) {
					cur = to;
					__real_pthread_cond_signal(&th[to].cv);
				}
				same = 0;
			}
		} else {
			same = 0;
		}
		last = steps;
		lastb = beats;
		__real_pthread_mutex_unlock(&big);
	}
	return NULL;
}

/* a schedule: mean > 0: a switch every `mean` basic blocks on average; 0: at n places among the first `range` ones */
void sched_report(FILE *o)
{
	report = o;
}

static pthread_t dog;
void sched_start(FILE *o, int n, unsigned long long seed, long m, long n_points, long range, long lock_percent, long hot_places, long fine_steps)
{
	hot = hot_places;
	fine = fine_steps;
	report = o;
	nth = n;
	rng = seed * 2862933555777941757ull + 3037000493ull;
	salt = rnd();
	steps = beats = 0;
	mean = m;
	lockprob = lock_percent;
	npoints = n_points > 64 ? 64 : n_points;
	for (long i = 0; i < npoints; i++)
		points[i] = 1 + (long)(rnd() % (unsigned long)range);
	for (int i = 0; i < n; i++) {
		pthread_cond_init(&th[i].cv, NULL);
		th[i].st = RUNNABLE;
		th[i].on = NULL;
		th[i].until = 0;
		vc[i][i] = 1;
	}
	cur = -1;
	plan();
	active = 1;
}

void sched_enter(int t)
{
	__real_pthread_mutex_lock(&big);
	me = t;
	th[t].tid = (pid_t)syscall(SYS_gettid);
	wait_turn(t);
	__real_pthread_mutex_unlock(&big);
}

void sched_go(void)
{
	pthread_create(&dog, NULL, watchdog, NULL);
	__real_pthread_mutex_lock(&big);
	cur = (int)(rnd() % (unsigned)nth);
	__real_pthread_cond_signal(&th[cur].cv);
	__real_pthread_mutex_unlock(&big);
}

/* between two statements of a thread */
void sched_between(void)
{
	at_lock();
}

void sched_leave(void)
{
	__real_pthread_mutex_lock(&big);
	wait_turn(me);
	th[me].st = DONE;
	int to = pick_other(me), all = 1;
	for (int i = 0; i < nth; i++)
		all = all && th[i].st == DONE;
	if (to < 0 && !all)
		deadlock();
	if (to >= 0)
		give_way(me, to);
	me = -1;
	__real_pthread_mutex_unlock(&big);
}

long sched_stop(void)
{
	active = 0;
	pthread_detach(dog);
	return steps;
}
