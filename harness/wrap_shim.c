/*
 * wrap_shim.c - the allocations the code under test makes: counted, marked, and made to fail on demand.
 *
 * Linked with -Wl,--wrap=malloc,... so that only calls from the library's objects (and the driver's, which are not
 * counted because the driver switches the counting off) come here.  Works with and without AddressSanitizer.
 */
#include "mdrv.h"
#include <errno.h>
#include <execinfo.h>
#include <regex.h>
#include <setjmp.h>

void *__real_malloc(size_t n);
void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
int __real_regexec(const regex_t *r, const char *s, size_t n, regmatch_t m[], int f);
int __real_regcomp(regex_t *r, const char *e, int f);
void __real_regfree(regex_t *r);

struct blk { char *p; size_t n; int mark; };
static struct blk *tab;			/* open addressing, keyed by address */
static size_t tcap, tused, tlive, tbytes;
static long regexes;
static int on;
static long fail_at, fail_all, seen, failed;

static size_t slot_of(const void *p)
{
	size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 20, i = h & (tcap - 1);
	while (tab[i].p && tab[i].p != p)
		i = (i + 1) & (tcap - 1);
	return i;
}

static void track(void *p, size_t n)
{
	if (!p || !on)
		return;
	if (tused * 2 >= tcap) {
		struct blk *old = tab;
		size_t oc = tcap;
		tcap = 4096;
		while (tcap < 4 * (tlive + 1))
			tcap *= 2;
		tab = __real_calloc(tcap, sizeof(*tab));
		tused = 0;
		for (size_t i = 0; i < oc; i++)
			if (old[i].p && old[i].n != (size_t)-1) {
				tab[slot_of(old[i].p)] = old[i];
				tused++;
			}
		__real_free(old);
	}
	size_t i = slot_of(p);
	if (!tab[i].p)
		tused++;
	tab[i].p = p;
	tab[i].n = n;
	tlive++;
	tbytes += n;
}

static void untrack(void *p)
{
	if (!p || !tab)
		return;
	size_t i = slot_of(p);
	if (tab[i].p && tab[i].n != (size_t)-1) {
		tlive--;
		tbytes -= tab[i].n;
		tab[i].n = (size_t)-1;		/* a free slot that keeps the probe sequence */
	}
}

static uint32_t *calls;
static long calls_max;

static int refuse(void)
{
	if (!on)
		return 0;
	if (calls && seen < calls_max) {	/* who asks: the innermost return addresses */
		void *f[9];
		int n = backtrace(f, 9);
		uint64_t h = 1469598103934665603ull;
		for (int i = 1; i < n; i++)
			h = (h ^ (uintptr_t)f[i]) * 1099511628211ull;
		calls[seen] = (uint32_t)(h >> 20) | 1;
	}
	seen++;
	if (fail_at && (fail_all ? seen >= fail_at : seen == fail_at)) {
		failed++;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}

void *__wrap_malloc(size_t n)
{
	void *p = refuse() ? NULL : __real_malloc(n);
	track(p, n);
	return p;
}

void *__wrap_calloc(size_t a, size_t b)
{
	void *p = refuse() ? NULL : __real_calloc(a, b);
	track(p, a * b);
	return p;
}

void *__wrap_realloc(void *q, size_t n)
{
	void *p;
	if (refuse())
		return NULL;
	p = __real_realloc(q, n);
	if (p || !n)
		untrack(q);
	track(p, n);
	return p;
}

void *__wrap_reallocarray(void *q, size_t a, size_t b)
{
	return __wrap_realloc(q, a * b);
}

void __wrap_free(void *p)
{
	untrack(p);
	__real_free(p);
}

char *__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = __wrap_malloc(n);
	return p ? memcpy(p, s, n) : NULL;
}

char *__wrap_strndup(const char *s, size_t k)
{
	size_t n = strnlen(s, k);
	char *p = __wrap_malloc(n + 1);
	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return p;
}

void *__wrap_aligned_alloc(size_t a, size_t n)
{
	(void)a;
	return __wrap_malloc(n);
}

int __wrap_posix_memalign(void **out, size_t a, size_t n)
{
	(void)a;
	*out = __wrap_malloc(n);
	return *out ? 0 : ENOMEM;
}

int __wrap_regcomp(regex_t *r, const char *e, int f)
{
	int rc = refuse() ? REG_ESPACE : __real_regcomp(r, e, f);
	if (!rc && on)
		regexes++;
	return rc;
}

int __wrap_regexec(const regex_t *r, const char *s, size_t n, regmatch_t m[], int f)
{
	return refuse() ? REG_ESPACE : __real_regexec(r, s, n, m, f);
}

void __wrap_regfree(regex_t *r)
{
	if (on)
		regexes--;
	__real_regfree(r);
}

void wrap_count(int enable) { on = enable; }
void wrap_stats(long *blocks, long *bytes)
{
	*blocks = (long)tlive + regexes;	/* a compiled regular expression counts as a block */
	*bytes = (long)tbytes;
}
void wrap_fail(long at, int all) { fail_at = at; fail_all = all; seen = failed = 0; }
/* note down the callers of the next `max` allocations; NULL: no longer */
void wrap_record(uint32_t *to, long max)
{
	void *f[2];
	backtrace(f, 2);	/* loads what it needs the first time */
	calls = to;
	calls_max = max;
	seen = 0;
}
long wrap_failed(void) { return failed; }

/* ---- blocks nobody can reach any more: a conservative mark from the given roots and the program's own variables ---- */
extern char __data_start, _end;
static struct blk **byaddr;
static size_t nby;
static int cmp_blk(const void *a, const void *b)
{
	const struct blk *x = *(struct blk* const*)a, *y = *(struct blk* const*)b;
	return x->p < y->p ? -1 : x->p > y->p;
}

static struct blk **work;
static size_t nwork;

__attribute__((no_sanitize("address")))
static void scan(const char *from, size_t n)
{
	from = (const char*)(((uintptr_t)from + 7) & ~(uintptr_t)7);
	for (size_t k = 0; k + 8 <= n; k += 8) {
		char *v = *(char* const*)(from + k);
		size_t lo = 0, hi = nby;
		while (lo < hi) {
			size_t m = (lo + hi) / 2;
			if (byaddr[m]->p <= v) lo = m + 1; else hi = m;
		}
		if (!lo)
			continue;
		struct blk *b = byaddr[lo - 1];
		if (!b->mark && v >= b->p && v < b->p + (b->n ? b->n : 1)) {
			b->mark = 1;
			work[nwork++] = b;
		}
	}
}

/* rows hold VARCHAR pointers at any offset: unaligned words matter as well */
__attribute__((no_sanitize("address")))
static void scan_bytes(const char *from, size_t n)
{
	for (size_t sh = 0; sh < 8 && sh + 8 <= n; sh++) {
		for (size_t k = sh; k + 8 <= n; k += 8) {
			char *v;
			memcpy(&v, from + k, 8);
			if (nby == 0 || v < byaddr[0]->p)
				continue;
			size_t lo = 0, hi = nby;
			while (lo < hi) {
				size_t m = (lo + hi) / 2;
				if (byaddr[m]->p <= v) lo = m + 1; else hi = m;
			}
			struct blk *b = byaddr[lo - 1];
			if (!b->mark && v >= b->p && v < b->p + (b->n ? b->n : 1)) {
				b->mark = 1;
				work[nwork++] = b;
			}
		}
	}
}

long wrap_leaks(const void **roots, const size_t *sizes, size_t n)
{
	long lost = 0;

	nby = nwork = 0;
	byaddr = __real_malloc((tlive + 1) * sizeof(*byaddr));
	work = __real_malloc((tlive + 1) * sizeof(*work));
	for (size_t i = 0; i < tcap; i++)
		if (tab[i].p && tab[i].n != (size_t)-1) {
			tab[i].mark = 0;
			byaddr[nby++] = &tab[i];
		}
	qsort(byaddr, nby, sizeof(*byaddr), cmp_blk);
	for (size_t i = 0; i < n; i++)
		scan(roots[i], sizes[i]);
	scan(&__data_start, (size_t)(&_end - &__data_start));
	while (nwork) {
		struct blk *b = work[--nwork];
		scan_bytes(b->p, b->n);
	}
	for (size_t i = 0; i < nby; i++)
		lost += !byaddr[i]->mark;
	__real_free(byaddr);
	__real_free(work);
	byaddr = work = NULL;
	return lost;
}
