/*
 * Deterministic simulator for ecgen: one forked child per simulated run.
 *
 * The simulator owns: the clock and every timer, SIGALRM delivery, thread
 * scheduling, mutexes/condition variables, stdio streams and files, entropy,
 * the allocator and the PARI stack mappings.  A run is a pure function of the
 * plan text it is given.
 */
#define _GNU_SOURCE
#include <stddef.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/utsname.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

#define SEC 1000000000ULL
#define REC_MAX (48u << 20)
#define PLAN_MAX (8u << 20)

/* ------------------------------------------------------------------ */
/* shared result area */

enum outcome {
	OC_NONE = 0,     /* process ended by itself */
	OC_BUDGET = 1,   /* tick budget used up */
	OC_DEADLOCK = 2, /* no thread can ever run again */
	OC_CRASH = 3,    /* injected crash */
	OC_STUCK = 4,    /* hung computation that nothing will interrupt */
	OC_RECFULL = 5,  /* record buffer full */
	OC_SIMBUG = 6,   /* the simulator does not support what was done */
	OC_ABANDON = 7,  /* ran off the rails: undefined behaviour observed */
};

struct shm {
	u32 outcome;
	u32 exited;    /* exit()/return seen */
	u64 ticks;
	u64 clock;
	u64 hash;
	u64 nalloc;
	u64 nheavy, nealloc;
	u64 nswitch;
	u64 nblock;
	u64 nsignal;
	u64 nsync;
	u64 timers_live;
	u64 peak_heap, last_heap, peak_blocks;
	u64 ticks_pari;
	u64 reclen;
	char note[256];
	u8 rec[REC_MAX];
};
static struct shm *shm;

/* ------------------------------------------------------------------ */
/* plan */

enum { IOF_SHORT, IOF_ERR, IOF_ERRP, IOF_EOF, IOF_SLOW, IOF_CRASH };
struct iofault { int file; char op; u64 n; int kind; i64 arg; };
struct stall { u64 tick; u64 ns; };
struct sw { u64 tick; int thr; };

#define MAXF 24
#define MAXEV 100000
struct simfile {
	char path[128];
	int kind; /* 0 normal file, 1 stdin, 2 stdout, 3 stderr, 4 entropy */
	const u8 *init;
	u64 initlen;
	int exists;
	int open_errno;
	i64 cap; /* capacity in bytes, -1 unlimited */
	u64 rchunk, rseed;
	u64 nread, nwrite, nclose, nopen;
	u64 rpos;
	u64 size;
	int perr; /* persistent write error */
	int preerr;
};

static struct {
	char *argv[64];
	int argc;
	struct simfile f[MAXF];
	int nf;
	struct iofault iof[4096];
	int niof;
	struct stall stall[MAXEV];
	int nstall;
	struct sw sw[MAXEV];
	int nsw;
	struct sw blk[MAXEV];
	int nblk;
	struct sw sig[MAXEV];
	int nsig;
	struct sw spur[MAXEV];
	int nspur;
	struct sw ssw[MAXEV];
	int nssw;
	u64 hang[4096];
	int nhang;
	u64 hangto;      /* the first so many hang */
	u64 mfail[256];
	u64 efail[64];   /* allocations of ecgen's own code */
	int nefail;
	u64 hangc[16];   /* this one hangs, and all later ones on the same curve */
	int nhangc;
	u64 pid, place; /* process number; how far things are moved in memory */
	i64 entflip;     /* a bit of the first word from the entropy source */
	int nmfail;
	u64 tfail[72];
	int ntfail;
	u64 mfail_from;  /* every allocation from this one on fails */
	u64 mfail_min;   /* ...if at least this large */
	u64 entropy, nproc, tick_ns, budget, memfill, realtime;
	int reuse;
	u64 crash_tick;
	u64 sched_seed, sched_mean, sched_sync, sched_spur;
	int sched_mode; /* 0 explicit, 1 random, 2 PCT */
	int pct_depth;
	u64 pct_len;
	u64 watchdog_ms;
	int clockfail;
	int rotate;
} P;

static char planbuf[PLAN_MAX];
static u8 *blobs;
static u64 bloblen;

/* ------------------------------------------------------------------ */
static int in_child;   /* a simulated run is active */
static u64 T_base;     /* ticks consumed up to the last slow tick */
long sim_countdown = LONG_MAX / 2;
static long chunk = LONG_MAX / 2;
static u64 clock_extra; /* stalls */
u64 sim_pari_ticks;

#define NOW_T (T_base + (u64)(chunk - sim_countdown))
static u64 now_ns(void) { return NOW_T * P.tick_ns + clock_extra; }

static u64 rng_next(u64 *s) {
	u64 z = (*s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

/* ------------------------------------------------------------------ */
/* threads */
#define MAXT 72
enum { TS_FREE, TS_RUN, TS_BLOCK, TS_DONE };
struct simthread {
	int id, state;
	int go;
	pid_t tid;
	pthread_t pt;
	void *(*fn)(void *);
	void *arg, *ret;
	void *wait_mutex, *wait_cond;
	int woken;       /* cond wait satisfied */
	int join_of;
	u64 wake_at;     /* timed block, 0 = none */
	int hanging;
	u64 hang_start;
	int detached, joined;
	i64 prio;
};
static struct simthread thr[MAXT];
static int nthr = 1;
static int cur = 0;
static __thread int self_id = -1;
static int real_create;
/* what was there before on the stack */
static void __attribute__((noinline)) fill_stack(size_t n) {
	if (!P.memfill) return;
	u8 *b = __builtin_alloca(n);
	memset(b, (int)(P.memfill ^ 0x33) & 255, n);
	__asm__ volatile("" : : "r"(b) : "memory");
}
static void race_forget(void *, u64);
extern char __start_ectext[], __stop_ectext[];

struct simmutex { void *addr; int owner, count, type; };
static struct simmutex mtx[256];
static int nmtx;

struct simtimer { int used, armed, tid, thr; u64 expiry, interval; int signo; int proc; };
static struct simtimer tmr[256];

__attribute__((noreturn)) static void die(int oc) {
	shm->outcome = oc;
	shm->ticks = NOW_T;
	shm->clock = now_ns();
	syscall(SYS_exit_group, 0);
	__builtin_unreachable();
}

__attribute__((noreturn)) static void simbug(const char *msg) {
	strncpy(shm->note, msg, sizeof shm->note - 1);
	die(OC_SIMBUG);
}

static void rec(u8 type, i64 a, i64 b, const void *data, u32 len) {
	u8 h[40];
	u64 t = NOW_T, c = now_ns();
	h[0] = type; h[1] = (u8)cur; h[2] = h[3] = 0;
	memcpy(h + 4, &len, 4);
	memcpy(h + 8, &t, 8);
	memcpy(h + 16, &c, 8);
	memcpy(h + 24, &a, 8);
	memcpy(h + 32, &b, 8);
	if (shm->reclen + 40 + len > REC_MAX) die(OC_RECFULL);
	u64 hash = shm->hash;
	for (int i = 0; i < 40; i++) hash = (hash ^ h[i]) * 0x100000001b3ULL;
	for (u32 i = 0; i < len; i++) hash = (hash ^ ((const u8 *)data)[i]) * 0x100000001b3ULL;
	shm->hash = hash;
	memcpy(shm->rec + shm->reclen, h, 40);
	if (len) memcpy(shm->rec + shm->reclen + 40, data, len);
	shm->reclen += 40 + len;
	shm->ticks = t;
	shm->clock = c;
}

/* ------------------------------------------------------------------ */
/* allocator: fixed arena, size classes, deterministic */
#define ARENA ((u8 *)0x200000000000ULL)
#define ARENA_SZ (3ULL << 30)
#define SIDE ((u8 *)0x210000000000ULL)
#define SIDE_SZ (256ULL << 20)
/* for each 8 bytes of the arena: how many of them belong to a live block */
#define SHADOW ((u8 *)0x220000000000ULL)
#define GUARD 8
#define CANARY 0xc3a5c3a5c3a5c3a5ULL
struct hdr { u64 size; u32 cls; u32 magic; };
static u8 *brk_, *side_brk;
static void *freel[64];
static void *freetail[64];
static u64 heap_used, heap_blocks;

void *__real_mmap(void *, size_t, int, int, int, off_t);
static void arena_init(void) {
	if (brk_) return;
	void *p = __real_mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
	               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void *q = __real_mmap(SIDE, SIDE_SZ, PROT_READ | PROT_WRITE,
	               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void *r = __real_mmap(SHADOW, ARENA_SZ / 8, PROT_READ | PROT_WRITE,
	               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != ARENA || q != SIDE || r != SHADOW) _exit(97);
	brk_ = ARENA;
	side_brk = SIDE;
}

static int size_class(u64 n, u64 *cs) {
	/* classes: 4 per power of two, from 32 */
	u64 s = 32;
	int c = 0;
	while (1) {
		for (int q = 0; q < 4; q++) {
			u64 v = s + q * (s / 4);
			v = (v + 15) & ~15ULL;
			if (n <= v) { *cs = v; return c; }
			c++;
		}
		s <<= 1;
		if (c >= 60 || s > (1ULL << 19)) { *cs = (n + 4095) & ~4095ULL; return 63; }
	}
}

static void shadow_set(void *p, u64 n, int live) {
	u8 *b = SHADOW + ((u64)p - (u64)ARENA) / 8;
	if (live) {
		memset(b, 8, n / 8);
		if (n & 7) b[n / 8] = (u8)(n & 7);
	} else memset(b, 0, (n + 7) / 8);
}
static void bad_memory(const void *p, u64 n, int what, void *ret);
/* what: 0 read, 1 write */
static void shadow_check(const void *p_, u64 n, int what, void *ret) {
	u64 o = (u64)p_ - (u64)ARENA;
	if (o >= ARENA_SZ || !n || !in_child || self_id != cur) return;
	u64 e = o + n;
	for (u64 g = o >> 3; g <= (e - 1) >> 3; g++) {
		u64 last = e < (g + 1) << 3 ? e - (g << 3) : 8;
		if (SHADOW[g] < last) bad_memory(p_, n, what, ret);
	}
}

static void *raw_alloc(u64 n, size_t align) {
	arena_init();
	if (in_child && (real_create || self_id != cur)) {
		u8 *p = __atomic_fetch_add(&side_brk, ((n + 64 + align) + 63) & ~63ULL, __ATOMIC_SEQ_CST);
		p = (u8 *)(((u64)p + sizeof(struct hdr) + align - 1) & ~(align - 1));
		struct hdr *h = (struct hdr *)p - 1;
		h->size = n; h->cls = 99; h->magic = 0xa110c8ed;
		return p;
	}
	if (n > ARENA_SZ / 2) { errno = ENOMEM; return NULL; }
	u64 cs;
	if (align > 16) n += align;
	int c = size_class(n + GUARD, &cs);
	struct hdr *h = NULL;
	if (c != 63 && freel[c] && align <= 16) {
		h = freel[c];
		freel[c] = *(void **)(h + 1);
		if (!freel[c]) freetail[c] = NULL;
	} else {
		u8 *p = brk_;
		if (align > 16) {
			u8 *q = (u8 *)(((u64)p + sizeof(struct hdr) + align - 1) & ~(align - 1));
			h = (struct hdr *)q - 1;
			c = 62;
			cs = n;
			brk_ = (u8 *)(((u64)q + n + GUARD + 15) & ~15ULL);
		} else {
			h = (struct hdr *)p;
			brk_ = p + sizeof *h + cs;
		}
		if (brk_ > ARENA + ARENA_SZ) { errno = ENOMEM; return NULL; }
	}
	h->size = n; h->cls = c; h->magic = 0xa110c8ed;
	shadow_set(h + 1, n, 1);
	{ u64 can = CANARY; __builtin_memcpy((u8 *)(h + 1) + n, &can, GUARD); }
	heap_used += cs;
	heap_blocks++;
	if (in_child) {
		if (heap_blocks > shm->peak_blocks) shm->peak_blocks = heap_blocks;
		race_forget(h + 1, n);
		if (heap_used > shm->peak_heap) shm->peak_heap = heap_used;
		shm->last_heap = heap_used;
		if (P.memfill && n < (1 << 16)) memset(h + 1, (int)(P.memfill ^ 0x5a) & 255, n);
	}
	return h + 1;
}

static int in_pari_init; /* start-up of the library: not what is tested */
static int alloc_fault(u64 n, void *ret) {
	if (!in_child || in_pari_init || real_create || self_id != cur) return 0;
	u64 k = shm->nalloc++;
	if ((char *)ret >= __start_ectext && (char *)ret < __stop_ectext) {
		u64 e = shm->nealloc++;
		for (int i = 0; i < P.nefail; i++)
			if (P.efail[i] == e) { rec('M', (i64)k, (i64)n, 0, 0); errno = ENOMEM; return 1; }
	}
	for (int i = 0; i < P.nmfail; i++)
		if (P.mfail[i] == k) { rec('M', (i64)k, (i64)n, 0, 0); errno = ENOMEM; return 1; }
	if (k >= P.mfail_from && n >= P.mfail_min) {
		rec('M', (i64)k, (i64)n, 0, 0); errno = ENOMEM; return 1;
	}
	return 0;
}

void *malloc(size_t n) {
	if (alloc_fault(n, __builtin_return_address(0))) return NULL;
	return raw_alloc(n, 16);
}
static void canary(void *p) {
	u64 can = CANARY;
	if (in_child && __builtin_memcmp((u8 *)p + ((struct hdr *)p - 1)->size, &can, GUARD)) bad_memory(p, ((struct hdr *)p - 1)->size, 2, NULL);
}
void free(void *p) {
	if (!p) return;
	struct hdr *h = (struct hdr *)p - 1;
	if (h->magic != 0xa110c8ed) {
		if (in_child) {
			rec('B', (i64)(h->magic == 0xdeadf4ee), 0, 0, 0);
			strcpy(shm->note, h->magic == 0xdeadf4ee ? "double free" : "invalid free");
			die(OC_ABANDON);
		}
		abort();
	}
	if (h->cls == 99 || (in_child && self_id != cur)) return;
	canary(p);
	h->magic = 0xdeadf4ee;
	shadow_set(p, h->size, 0);
	heap_blocks--;
	u64 cs = 0;
	if (h->cls < 62) { size_class(h->size + GUARD, &cs); heap_used -= cs; }
	else heap_used -= h->cls == 62 ? h->size : ((h->size + GUARD + 4095) & ~4095ULL);
	if (in_child && P.memfill && h->size < (1 << 16)) memset(p, (int)(P.memfill ^ 0xa5) & 255, h->size);
	if (h->cls >= 62) return;
	if (in_child && P.reuse == 1) return; /* never reuse */
	*(void **)p = NULL;
	int c = h->cls;
	if (in_child && P.reuse == 2) { /* FIFO */
		if (freetail[c]) *(void **)((struct hdr *)freetail[c] + 1) = h; else freel[c] = h;
		freetail[c] = h;
	} else {
		*(void **)p = freel[c];
		if (!freel[c]) freetail[c] = h;
		freel[c] = h;
	}
}
void *calloc(size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	if (alloc_fault(n, __builtin_return_address(0))) return NULL;
	void *p = raw_alloc(n, 16);
	if (p) memset(p, 0, n);
	return p;
}
void *realloc(void *p, size_t n) {
	if (!p) return malloc(n);
	if (!n) { free(p); return NULL; }
	if (alloc_fault(n, __builtin_return_address(0))) return NULL;
	struct hdr *h = (struct hdr *)p - 1;
	if (h->magic != 0xa110c8ed) {
		if (in_child) { strcpy(shm->note, "invalid realloc"); die(OC_ABANDON); }
		abort();
	}
	void *q = raw_alloc(n, 16);
	if (!q) return NULL;
	memcpy(q, p, h->size < n ? h->size : n);
	free(p);
	return q;
}
void *memalign(size_t al, size_t n) { return raw_alloc(n, al < 16 ? 16 : al); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) {
	void *p = memalign(al, n);
	if (!p) return ENOMEM;
	*o = p;
	return 0;
}
size_t malloc_usable_size(void *p) { return p ? ((struct hdr *)p - 1)->size : 0; }

static void bad_memory(const void *p, u64 n, int what, void *ret) {
	rec('B', 2 + what, (i64)n, &ret, 8);
	strcpy(shm->note, what == 3 ? "index out of bounds" : what == 2 ? "block overrun" : what ? "bad write" : "bad read");
	die(OC_ABANDON);
}
/* what ecgen's code calls for these */
#define CK(p, n, w) shadow_check(p, n, w, __builtin_return_address(0))
void *sim_memcpy(void *d, const void *s, size_t n) { CK(s, n, 0); CK(d, n, 1); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { CK(s, n, 0); CK(d, n, 1); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { CK(d, n, 1); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { CK(a, n, 0); CK(b, n, 0); return memcmp(a, b, n); }
size_t sim_strlen(const char *s) { size_t n = strlen(s); CK(s, n + 1, 0); return n; }
char *sim_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; CK(s, n, 0); CK(d, n, 1); return strcpy(d, s); }
char *sim_strncpy(char *d, const char *s, size_t n) { CK(s, strnlen(s, n), 0); CK(d, n, 1); return strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { size_t n = strlen(s) + 1; CK(s, n, 0); CK(d, strlen(d) + n, 1); return strcat(d, s); }
char *sim_strncat(char *d, const char *s, size_t n) { CK(d, strlen(d) + strnlen(s, n) + 1, 1); return strncat(d, s, n); }
char *sim_strdup(const char *s) {
	size_t n = strlen(s) + 1;
	CK(s, n, 0);
	char *r = alloc_fault(n, __builtin_return_address(0)) ? NULL : raw_alloc(n, 16);
	if (r) memcpy(r, s, n);
	return r;
}
int sim_vsprintf(char *d, const char *f, va_list ap) {
	va_list q;
	va_copy(q, ap);
	int n = vsnprintf(NULL, 0, f, q);
	va_end(q);
	if (n >= 0) CK(d, (size_t)n + 1, 1);
	return vsprintf(d, f, ap);
}
int sim_sprintf(char *d, const char *f, ...) {
	va_list ap, q;
	va_start(ap, f);
	va_copy(q, ap);
	int n = vsnprintf(NULL, 0, f, q);
	va_end(q);
	if (n >= 0) CK(d, (size_t)n + 1, 1);
	n = vsprintf(d, f, ap);
	va_end(ap);
	return n;
}

/* PARI stack mappings: fixed addresses, recycled never */
#define MAPBASE 0x300000000000ULL
static u64 map_next = MAPBASE;
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
	if (a == NULL && fd == -1) {
		if (alloc_fault(n, __builtin_return_address(0))) return MAP_FAILED;
		u64 len = (n + 4095) & ~4095ULL;
		void *p = __real_mmap((void *)map_next, len, prot, flags | MAP_NORESERVE | MAP_FIXED_NOREPLACE, fd, off);
		map_next += len + (16u << 20);
		return p;
	}
	return __real_mmap(a, n, prot, flags, fd, off);
}

/* ------------------------------------------------------------------ */
/* scheduler */
static u64 sched_rng, next_sw_tick = ~0ULL;
static int swpos, stallpos;
static u64 pct_points[64];
static int npct, pctpos;
/* priorities alone would starve a thread that another one waits for by polling */
#define PCT_QUANTUM 1500000ULL
static u64 pct_since;
static i64 pct_floor = -1000;

static void futex_wait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void set_next(void);
static void sync_point(void);

static void anchor(void) { /* fold the running countdown into T_base */
	T_base = NOW_T;
	chunk = 0;
	sim_countdown = 0;
}

static void handoff(int to) {
	int me = cur;
	if (to == me) return;
	shm->nswitch++;
	rec('S', me, to, 0, 0);
	/* re-anchor the tick counter so that NOW_T is stable */
	__atomic_store_n(&thr[me].go, 0, __ATOMIC_SEQ_CST);
	cur = to;
	pct_since = T_base;
	__atomic_store_n(&thr[to].go, 1, __ATOMIC_SEQ_CST);
	futex_wake(&thr[to].go);
	if (thr[me].state == TS_DONE) return;
	while (!__atomic_load_n(&thr[me].go, __ATOMIC_SEQ_CST)) futex_wait(&thr[me].go, 0);
	anchor();
	set_next();
}

static int due_timer(int t) {
	u64 now = now_ns();
	for (int i = 0; i < 256; i++)
		if (tmr[i].used && tmr[i].armed && tmr[i].thr == t && tmr[i].expiry <= now) return i;
	return -1;
}


/* deliver due timers of the running thread; may not return (siglongjmp) */
static void deliver(void) {
	int i;
	while ((i = due_timer(cur)) >= 0) {
		if (tmr[i].interval) tmr[i].expiry += tmr[i].interval;
		else tmr[i].armed = 0;
		shm->nsignal++;
		rec('F', i, 0, 0, 0);
		struct simthread *me = &thr[cur];
		me->state = TS_RUN; /* the handler may jump away */
		me->wait_cond = me->wait_mutex = NULL;
		me->wake_at = 0;
		me->join_of = -1;
		anchor();
		set_next();
		if (me->hanging) { chunk = 0; sim_countdown = 0; }
		syscall(SYS_tgkill, syscall(SYS_getpid), thr[cur].tid, tmr[i].signo);
	}
}

static int runnable(int t) {
	return thr[t].state == TS_RUN;
}

/* earliest time at which some blocked thread can make progress */
static u64 next_wake(int *who) {
	u64 best = ~0ULL;
	*who = -1;
	for (int t = 0; t < nthr; t++) {
		if (thr[t].state != TS_BLOCK) continue;
		if (thr[t].wake_at && thr[t].wake_at < best) { best = thr[t].wake_at; *who = t; }
		for (int i = 0; i < 256; i++)
			if (tmr[i].used && tmr[i].armed && tmr[i].thr == t && tmr[i].expiry < best) {
				best = tmr[i].expiry;
				*who = t;
			}
	}
	return best;
}

static int pick(int kind_block) {
	int cand[MAXT], n = 0;
	for (int k = 1; k <= nthr; k++) {
		int t = (cur + k) % nthr;
		if (runnable(t)) cand[n++] = t;
	}
	if (!n) return -1;
	int choice = cand[0];
	u64 id = shm->nblock++;
	if (P.sched_mode == 1) {
		choice = cand[rng_next(&sched_rng) % n];
	} else if (P.sched_mode == 2) {
		for (int i = 0; i < n; i++)
			if (thr[cand[i]].prio > thr[choice].prio) choice = cand[i];
	} else {
		for (int i = 0; i < P.nblk; i++)
			if (P.blk[i].tick == id && P.blk[i].thr < nthr && runnable(P.blk[i].thr)) choice = P.blk[i].thr;
	}
	if (choice != cand[0]) rec('b', (i64)id, choice, 0, 0);
	(void)kind_block;
	return choice;
}

/* the running thread cannot continue: run someone else until we are runnable */
static void block_here(void) {
	struct simthread *me = &thr[cur];
	while (1) {
		int t = pick(1);
		if (t < 0) {
			int who;
			u64 w = next_wake(&who);
			if (who < 0) {
				int stuck = 0;
				for (int k = 0; k < nthr; k++) stuck |= thr[k].state == TS_BLOCK && thr[k].hanging;
				rec('Z', stuck, 0, 0, 0);
				die(stuck ? OC_STUCK : OC_DEADLOCK);
			}
			u64 now = now_ns();
			if (w > now) {
				clock_extra += w - now;
				rec('A', (i64)(w - now), who, 0, 0);
			}
			t = who;
			if (thr[t].wake_at && thr[t].wake_at <= w) thr[t].state = TS_RUN;
		}
		anchor();
		set_next();
		if (t != me->id) handoff(t);
		if (me->state == TS_DONE) return;
		if (due_timer(me->id) >= 0) deliver();
		if (me->state == TS_RUN) return;
	}
}

static void switch_to(int t) {
	anchor();
	set_next();
	handoff(t);
	/* we are back */
	if (due_timer(cur) >= 0) deliver();
}

static int other_runnable(u64 r) {
	int cand[MAXT], n = 0;
	for (int k = 1; k < nthr; k++) {
		int t = (cur + k) % nthr;
		if (t != cur && runnable(t)) cand[n++] = t;
	}
	if (!n) return -1;
	return cand[r % n];
}

static u64 draw_gap(void) {
	u64 r = rng_next(&sched_rng);
	/* geometric-like, wide spread */
	u64 m = P.sched_mean ? P.sched_mean : 1000;
	u64 sh = (r >> 56) % 4; /* 1x, 1/4, 1/16, 1/64 of the mean */
	u64 span = m >> (2 * sh);
	if (span < 2) span = 2;
	return 1 + r % (2 * span);
}

static void set_next(void) {
	u64 t = NOW_T, best = P.budget;
	if (P.crash_tick && P.crash_tick < best) best = P.crash_tick;
	if (stallpos < P.nstall && P.stall[stallpos].tick < best) best = P.stall[stallpos].tick;
	if (P.sched_mode == 0 && swpos < P.nsw && P.sw[swpos].tick < best) best = P.sw[swpos].tick;
	if (P.sched_mode == 1 && nthr > 1 && next_sw_tick < best) best = next_sw_tick;
	if (P.sched_mode == 2 && pctpos < npct && pct_points[pctpos] < best) best = pct_points[pctpos];
	if (P.sched_mode == 2 && nthr > 1 && pct_since + PCT_QUANTUM < best) best = pct_since + PCT_QUANTUM;
	if (P.tick_ns)
		for (int i = 0; i < 256; i++)
			if (tmr[i].used && tmr[i].armed && tmr[i].thr == cur) {
				u64 now = now_ns();
				u64 d = tmr[i].expiry > now ? (tmr[i].expiry - now + P.tick_ns - 1) / P.tick_ns : 0;
				if (t + d < best) best = t + d;
			}
	long c = best > t ? (long)(best - t) - 1 : 0;
	T_base = t;
	chunk = c;
	sim_countdown = c;
}

void sim_tick_slow(void) {
	if (!in_child) { chunk = sim_countdown = LONG_MAX / 2; return; }
	if (self_id != cur) simbug("tick from a thread without the baton");
	int go = -1;
	anchor();
	u64 t = T_base;
	if (t >= P.budget) { rec('Y', 0, 0, 0, 0); die(OC_BUDGET); }
	if (P.crash_tick && t >= P.crash_tick) { rec('K', 0, 0, 0, 0); die(OC_CRASH); }
	if (thr[cur].hanging) {
		thr[cur].hanging = 0;
		rec('h', 0, (i64)(now_ns() - thr[cur].hang_start), 0, 0);
	}
	while (stallpos < P.nstall && P.stall[stallpos].tick <= t) {
		clock_extra += P.stall[stallpos].ns;
		rec('L', (i64)P.stall[stallpos].ns, 0, 0, 0);
		stallpos++;
	}
	if (P.sched_mode == 0) {
		while (swpos < P.nsw && P.sw[swpos].tick <= t) {
			int k = P.sw[swpos++].thr;
			if (k >= 0 && k < nthr && runnable(k) && k != cur) { go = k; break; }
		}
	} else if (P.sched_mode == 1) {
		if (nthr > 1 && t >= next_sw_tick) {
			go = other_runnable(rng_next(&sched_rng));
			next_sw_tick = t + draw_gap();
		}
	} else {
		int drop = 0;
		while (pctpos < npct && pct_points[pctpos] <= t) {
			thr[cur].prio = -1 - pctpos;
			pctpos++;
			drop = 1;
		}
		if (t >= pct_since + PCT_QUANTUM) {
			if (nthr > 1) { thr[cur].prio = pct_floor--; drop = 1; }
			pct_since = t;
		}
		int b = -1;
		for (int k = 0; drop && k < nthr; k++)
			if (runnable(k) && (b < 0 || thr[k].prio > thr[b].prio)) b = k;
		if (b >= 0 && b != cur) go = b;
	}
	set_next();
	if (go >= 0) {
		rec('s', go, 0, 0, 0);
		switch_to(go);
		return;
	}
	if (due_timer(cur) >= 0) deliver();
}

static inline void tick(void) {
	if (--sim_countdown < 0) sim_tick_slow();
}

static int sswpos;
/* a synchronisation operation: extra chance of a switch */
static void sync_point(void) {
	tick();
	u64 id = shm->nsync++;
	if (nthr <= 1) return;
	if (P.sched_mode == 1 && P.sched_sync) {
		if (rng_next(&sched_rng) % 1000 < P.sched_sync) {
			int go = other_runnable(rng_next(&sched_rng));
			if (go >= 0) { rec('s', go, 1 + (i64)id, 0, 0); switch_to(go); }
		}
	} else if (P.sched_mode == 0) {
		while (sswpos < P.nssw && P.ssw[sswpos].tick < id) sswpos++;
		if (sswpos < P.nssw && P.ssw[sswpos].tick == id) {
			int go = P.ssw[sswpos++].thr;
			if (go >= 0 && go < nthr && go != cur && runnable(go)) { rec('s', go, 1 + (i64)id, 0, 0); switch_to(go); }
		}
	}
	if (P.sched_mode != 0) {
		if (P.sched_spur && rng_next(&sched_rng) % 1000 < P.sched_spur) {
			int cand[MAXT], n = 0;
			for (int k = 0; k < nthr; k++) if (thr[k].state == TS_BLOCK && thr[k].wait_cond) cand[n++] = k;
			if (n) {
				int k = cand[rng_next(&sched_rng) % n];
				thr[k].woken = 2; thr[k].state = TS_RUN; thr[k].wait_cond = NULL;
				rec('u', (i64)id, k, 0, 0);
			}
		}
	} else {
		for (int i = 0; i < P.nspur; i++)
			if (P.spur[i].tick == id) {
				int k = P.spur[i].thr;
				if (k < nthr && thr[k].state == TS_BLOCK && thr[k].wait_cond) {
					thr[k].woken = 2; thr[k].state = TS_RUN; thr[k].wait_cond = NULL;
					rec('u', (i64)id, k, 0, 0);
				}
			}
	}
}

/* happens-before: vector clocks of threads and locks, last accesses of ecgen's
 * own code to each word. Only kept while there is more than one thread. */
static u32 vc[MAXT][MAXT], lockvc[257][MAXT];
struct acc { u8 used, thr, mask, wr; u32 clk, pc, pad; };
struct cell { u64 key; struct acc e[7]; };
#define NCELL (1u << 19)
static struct cell *cells;
static u8 *stk_lo[MAXT], *stk_hi[MAXT];
static int nraces;
static u8 race_pc[1 << 16];
static void vc_join(u32 *a, const u32 *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void hb_acquire(u32 *l) { if (nthr > 1) vc_join(vc[cur], l); }
static void hb_release(u32 *l) { if (nthr > 1) { vc_join(l, vc[cur]); vc[cur][cur]++; } }
static struct cell *cell_of(u64 key, int make) {
	if (!cells) {
		if (!make) return NULL;
		cells = __real_mmap(NULL, NCELL * sizeof *cells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	u64 h = (key * 0x9e3779b97f4a7c15ULL) >> 45;
	for (int i = 0; i < 32; i++) {
		struct cell *c = &cells[(h + i) & (NCELL - 1)];
		if (c->key == key) return c;
		if (!c->key) { if (!make) return NULL; c->key = key; return c; }
	}
	return NULL;
}
static void race_forget(void *p, u64 n) {
	if (nthr < 2 || !cells || n > (1 << 20)) return;
	for (u64 k = (u64)p >> 3; k <= ((u64)p + n - 1) >> 3; k++) {
		struct cell *c = cell_of(k, 0);
		if (c) memset(c->e, 0, sizeof c->e);
	}
}
static void race_access(void *p_, u64 n, int wr, void *ret) {
	if (nthr < 2 || !in_child || self_id != cur || !n) return;
	u8 *p = p_;
	if (cur && p >= stk_lo[cur] && p < stk_hi[cur]) return;
	u32 pc = (u32)((u64)ret - (u64)__start_ectext);
	for (u64 k = (u64)p >> 3; k <= ((u64)p + n - 1) >> 3; k++) {
		u8 m = 0xff;
		if (k << 3 < (u64)p) m &= (u8)(0xff << ((u64)p & 7));
		if ((k + 1) << 3 > (u64)p + n) m &= (u8)(0xff >> (((k + 1) << 3) - ((u64)p + n)));
		struct cell *c = cell_of(k, 1);
		if (!c) continue;
		struct acc *mine = NULL, *old = NULL;
		for (int i = 0; i < 7; i++) {
			struct acc *a = &c->e[i];
			if (!a->used) { if (!old || old->used) old = a; continue; }
			if (a->thr == cur) {
				if (a->wr == wr && a->mask == m) mine = a;
				continue;
			}
			int before = vc[cur][a->thr] >= a->clk;
			if (!before && (a->mask & m) && (a->wr || wr)) {
				if (nraces < 4 && !race_pc[(pc ^ a->pc) & 0xffff]) {
					race_pc[(pc ^ a->pc) & 0xffff] = 1;
					nraces++;
					u32 d[4] = {pc, a->pc, wr, a->wr};
					rec('y', (i64)a->thr, (i64)nraces, d, sizeof d);
				}
			}
			if (before && (!old || old->used)) old = a;
		}
		if (!mine) mine = old ? old : &c->e[k % 7];
		*mine = (struct acc){1, (u8)cur, m, (u8)wr, vc[cur][cur], pc, 0};
	}
}

static struct simmutex *mutex_get(void *a) {
	for (int i = 0; i < nmtx; i++) if (mtx[i].addr == a) return &mtx[i];
	for (int i = 0; i < nmtx; i++)
		if (mtx[i].addr == NULL) { mtx[i] = (struct simmutex){a, -1, 0, 0}; return &mtx[i]; }
	if (nmtx == 256) simbug("too many mutexes");
	mtx[nmtx] = (struct simmutex){a, -1, 0, 0};
	return &mtx[nmtx++];
}
static int mutex_kind(void *m) { return ((pthread_mutex_t *)m)->__data.__kind & 3; }

int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
	if (in_child) { struct simmutex *s = mutex_get(m); s->owner = -1; s->count = 0; }
	return __real_pthread_mutex_init(m, a);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
	if (in_child) { struct simmutex *s = mutex_get(m); if (s->owner >= 0) rec('Q', 2, 0, 0, 0); s->addr = NULL; }
	return 0;
}
static void lock_blocking(struct simmutex *s, pthread_mutex_t *m) {
	while (s->owner >= 0) {
		thr[cur].wait_mutex = m;
		thr[cur].state = TS_BLOCK;
		block_here();
	}
	thr[cur].wait_mutex = NULL;
	s->owner = cur;
	s->count = 1;
	hb_acquire(lockvc[s - mtx]);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
	if (!in_child) return 0;
	sync_point();
	struct simmutex *s = mutex_get(m);
	if (s->owner == cur) {
		int k = mutex_kind(m);
		if (k == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
		if (k == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	lock_blocking(s, m);
	rec('l', (i64)(s - mtx), 0, 0, 0);
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
	if (!in_child) return 0;
	sync_point();
	struct simmutex *s = mutex_get(m);
	if (s->owner >= 0) return EBUSY;
	s->owner = cur;
	s->count = 1;
	hb_acquire(lockvc[s - mtx]);
	return 0;
}
static void unlock_raw(struct simmutex *s, pthread_mutex_t *m) {
	if (s->owner != cur) rec('Q', 1, 0, 0, 0);
	if (--s->count > 0) return;
	hb_release(lockvc[s - mtx]);
	s->owner = -1;
	for (int k = 0; k < nthr; k++)
		if (thr[k].state == TS_BLOCK && thr[k].wait_mutex == m) thr[k].state = TS_RUN;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!in_child) return 0;
	struct simmutex *s = mutex_get(m);
	unlock_raw(s, m);
	rec('k', (i64)(s - mtx), 0, 0, 0);
	sync_point();
	return 0;
}
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return __real_pthread_cond_init(c, a); }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
	if (in_child)
		for (int k = 0; k < nthr; k++)
			if (thr[k].state == TS_BLOCK && thr[k].wait_cond == c) rec('Q', 3, 0, 0, 0);
	return 0;
}
static int cond_wait_until(pthread_cond_t *c, pthread_mutex_t *m, u64 until) {
	sync_point();
	struct simmutex *s = mutex_get(m);
	int cnt = s->count;
	if (s->owner != cur) rec('Q', 4, 0, 0, 0);
	s->count = 1;
	thr[cur].wait_cond = c;
	thr[cur].woken = 0;
	thr[cur].wake_at = until;
	thr[cur].state = TS_BLOCK;
	rec('c', (i64)(s - mtx), 0, 0, 0);
	unlock_raw(s, m);
	block_here();
	thr[cur].wait_cond = NULL;
	thr[cur].wake_at = 0;
	int w = thr[cur].woken;
	lock_blocking(s, m);
	s->count = cnt > 0 ? cnt : 1;
	rec('C', (i64)(s - mtx), w, 0, 0);
	return (!w && until) ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	if (!in_child) return 0;
	return cond_wait_until(c, m, 0);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
	if (!in_child) return 0;
	u64 abs = (u64)ts->tv_sec * SEC + (u64)ts->tv_nsec;
	u64 base = P.realtime * SEC;
	u64 until = abs > base ? abs - base : 1;
	u64 now = now_ns();
	if (until <= now) until = now + 1;
	return cond_wait_until(c, m, until);
}
static int wake_cond(pthread_cond_t *c, int all) {
	int cand[MAXT], n = 0;
	for (int k = 0; k < nthr; k++)
		if (thr[k].state == TS_BLOCK && thr[k].wait_cond == c) cand[n++] = k;
	if (!n) { rec('g', -1, 0, 0, 0); return 0; }
	if (all) {
		for (int i = 0; i < n; i++) { thr[cand[i]].woken = 1; thr[cand[i]].state = TS_RUN; thr[cand[i]].wait_cond = NULL; }
		rec('g', n, 1, 0, 0);
		return 0;
	}
	u64 id = shm->nsync;
	int pick_ = 0;
	if (P.sched_mode == 1) pick_ = (int)(rng_next(&sched_rng) % n);
	else for (int i = 0; i < P.nsig; i++) if (P.sig[i].tick == id && P.sig[i].thr < n) pick_ = P.sig[i].thr;
	if (pick_) rec('q', (i64)id, pick_, 0, 0);
	int k = cand[pick_];
	thr[k].woken = 1; thr[k].state = TS_RUN; thr[k].wait_cond = NULL;
	rec('g', k, 0, 0, 0);
	return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
	if (!in_child) return 0;
	int r = wake_cond(c, 0);
	sync_point();
	return r;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
	if (!in_child) return 0;
	int r = wake_cond(c, 1);
	sync_point();
	return r;
}

static u64 ncreate;
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static void thread_done(void) {
	struct simthread *me = &thr[self_id];
	rec('e', me->id, 0, 0, 0);
	tick();
	me->state = TS_DONE;
	for (int k = 0; k < nthr; k++)
		if (thr[k].state == TS_BLOCK && thr[k].join_of == me->id) { thr[k].join_of = -1; thr[k].state = TS_RUN; }
	/* block_here() hands the baton over and returns at once for a done thread */
	block_here();
}
static void *thread_main(void *arg) {
	struct simthread *me = arg;
	self_id = me->id;
	me->tid = (pid_t)syscall(SYS_gettid);
	fill_stack(48 << 10);
	while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) futex_wait(&me->go, 0);
	anchor();
	pthread_attr_t at;
	if (!pthread_getattr_np(pthread_self(), &at)) {
		void *lo; size_t n;
		pthread_attr_getstack(&at, &lo, &n);
		stk_lo[me->id] = lo; stk_hi[me->id] = (u8 *)lo + n;
		pthread_attr_destroy(&at);
	}
	set_next();
	void *r = me->fn(me->arg);
	me->ret = r;
	thread_done();
	return r;
}
int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
	if (!in_child) return __real_pthread_create(out, at, fn, arg);
	sync_point();
	u64 nc = ncreate++;
	for (int i = 0; i < P.ntfail; i++)
		if (P.tfail[i] == nc) { rec('f', (i64)nc, 0, 0, 0); return EAGAIN; }
	if (nthr == MAXT) return EAGAIN;
	struct simthread *n = &thr[nthr];
	memset(n, 0, sizeof *n);
	n->id = nthr;
	n->fn = fn;
	n->arg = arg;
	n->join_of = -1;
	n->prio = (i64)(rng_next(&sched_rng) >> 8);
	int detached = 0;
	if (at) pthread_attr_getdetachstate(at, &detached);
	n->detached = detached == PTHREAD_CREATE_DETACHED;
	real_create = 1;
	pthread_t pt;
	int r = __real_pthread_create(&pt, NULL, thread_main, n);
	real_create = 0;
	if (r) simbug("pthread_create failed");
	*out = pt;
	n->pt = pt;
	n->state = TS_RUN;
	nthr++;
	if (!vc[cur][cur]) vc[cur][cur] = 1;
	vc_join(vc[n->id], vc[cur]);
	vc[n->id][n->id] = 1;
	vc[cur][cur]++;
	rec('t', n->id, 0, 0, 0);
	if (P.sched_mode == 1) next_sw_tick = NOW_T + draw_gap();
	anchor();
	set_next();
	sync_point();
	return 0;
}
static int find_thread(pthread_t pt) {
	for (int k = nthr - 1; k >= 0; k--) if (pthread_equal(thr[k].pt, pt)) return k;
	return -1;
}
int __wrap_pthread_join(pthread_t pt, void **ret) {
	if (!in_child) return ESRCH;
	sync_point();
	int k = find_thread(pt);
	if (k < 0) { rec('Q', 5, 0, 0, 0); return ESRCH; }
	while (thr[k].state != TS_DONE) {
		thr[cur].join_of = k;
		thr[cur].state = TS_BLOCK;
		block_here();
	}
	if (ret) *ret = thr[k].ret;
	thr[k].joined = 1;
	vc_join(vc[cur], vc[k]);
	rec('j', k, 0, 0, 0);
	/* the real thread has (almost) ended; leave it unreaped */
	return 0;
}
int __wrap_pthread_detach(pthread_t pt) { (void)pt; return 0; }
void __real_pthread_exit(void *) __attribute__((noreturn));
void __wrap_pthread_exit(void *r) {
	if (!in_child) __real_pthread_exit(r);
	thr[self_id].ret = r;
	thread_done();
	/* do not unwind: park this thread for good */
	static int never;
	while (1) futex_wait(&never, 0);
}
int __wrap_pthread_cancel(pthread_t pt) { (void)pt; simbug("pthread_cancel"); }
int __wrap_sched_yield(void) {
	if (!in_child) return 0;
	sync_point();
	return 0;
}

/* ------------------------------------------------------------------ */
/* clock and timers */
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
	if (!in_child) { ts->tv_sec = 1700000000; ts->tv_nsec = 0; return 0; }
	if (P.clockfail) { errno = EINVAL; return -1; }
	u64 n = now_ns();
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
		u64 frac = P.entropy * 2654435761ULL % SEC;
		n += P.realtime * SEC + frac;
	}
	ts->tv_sec = (time_t)(n / SEC);
	ts->tv_nsec = (long)(n % SEC);
	rec('G', id, 0, 0, 0);
	return 0;
}
/* who we are, as ecgen's code sees it */
pid_t __wrap_getpid(void) { return in_child ? (pid_t)P.pid : (pid_t)syscall(SYS_getpid); }
pid_t __wrap_getppid(void) { return in_child ? (pid_t)P.pid / 2 + 1 : (pid_t)syscall(SYS_getppid); }
pid_t __wrap_gettid(void) { return in_child ? (pid_t)P.pid + cur : (pid_t)syscall(SYS_gettid); }
clock_t __wrap_clock(void) { return in_child ? (clock_t)(now_ns() / 1000) : 0; }
clock_t __wrap_times(struct tms *t) {
	memset(t, 0, sizeof *t);
	t->tms_utime = in_child ? (clock_t)(now_ns() / (SEC / 100)) : 0;
	return t->tms_utime + (clock_t)P.realtime;
}
int __wrap_gethostname(char *b, size_t n) { snprintf(b, n, "host%u", (u32)P.pid); return 0; }
int __wrap_uname(struct utsname *u) {
	memset(u, 0, sizeof *u);
	strcpy(u->sysname, "Linux");
	sprintf(u->nodename, "host%u", (u32)P.pid);
	return 0;
}
ssize_t __wrap_getrandom(void *, size_t, unsigned);
long sim_syscall(long n, long a, long b, long c, long d, long e, long f) {
	switch (n) {
	case SYS_gettid: return __wrap_gettid();
	case SYS_getpid: return __wrap_getpid();
	case SYS_getppid: return __wrap_getppid();
	case SYS_getrandom: return __wrap_getrandom((void *)a, (size_t)b, (unsigned)c);
	}
	if (in_child) simbug("system call");
	return syscall(n, a, b, c, d, e, f);
}

time_t __wrap_time(time_t *o) {
	time_t r = in_child ? (time_t)(P.realtime + now_ns() / SEC) : 1700000000;
	if (o) *o = r;
	return r;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
	(void)tz;
	u64 n = in_child ? now_ns() + P.realtime * SEC : 1700000000ULL * SEC;
	tv->tv_sec = (time_t)(n / SEC);
	tv->tv_usec = (suseconds_t)(n % SEC / 1000);
	return 0;
}
int __wrap_getrusage(int who, struct rusage *u) {
	(void)who;
	memset(u, 0, sizeof *u);
	if (in_child) { u64 n = now_ns(); u->ru_utime.tv_sec = (time_t)(n / SEC); u->ru_utime.tv_usec = (suseconds_t)(n % SEC / 1000); }
	return 0;
}
static void sleep_until(u64 t) {
	sync_point();
	if (t <= now_ns()) return;
	thr[cur].wake_at = t;
	thr[cur].state = TS_BLOCK;
	block_here();
	thr[cur].wake_at = 0;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) {
	(void)b;
	if (in_child) sleep_until(now_ns() + (u64)a->tv_sec * SEC + (u64)a->tv_nsec);
	return 0;
}
int __wrap_clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
	(void)b;
	u64 t = (u64)a->tv_sec * SEC + (u64)a->tv_nsec;
	if (!in_child) return 0;
	if (!(fl & TIMER_ABSTIME)) t += now_ns();
	else if (id == CLOCK_REALTIME) t -= P.realtime * SEC;
	sleep_until(t);
	return 0;
}
unsigned __wrap_sleep(unsigned s) { if (in_child) sleep_until(now_ns() + s * SEC); return 0; }
int __wrap_usleep(useconds_t s) { if (in_child) sleep_until(now_ns() + s * 1000ULL); return 0; }

static int thread_of_tid(int tid) {
	for (int k = 0; k < nthr; k++) if (thr[k].tid == tid || (int)P.pid + k == tid) return k;
	return cur;
}
int __wrap_timer_create(clockid_t id, struct sigevent *sev, timer_t *out) {
	if (!in_child) return -1;
	int i;
	for (i = 0; i < 256 && tmr[i].used; i++) ;
	if (i == 256) { errno = EAGAIN; rec('Q', 6, 0, 0, 0); return -1; }
	tmr[i] = (struct simtimer){.used = 1, .thr = 0, .signo = SIGALRM};
	if (sev) {
		if (sev->sigev_notify == SIGEV_THREAD_ID) tmr[i].thr = thread_of_tid(sev->_sigev_un._tid);
		else if (sev->sigev_notify == SIGEV_SIGNAL) tmr[i].thr = 0;
		else simbug("SIGEV kind");
		tmr[i].signo = sev->sigev_signo;
	}
	*out = (timer_t)(intptr_t)(i + 1);
	shm->timers_live++;
	rec('N', i, tmr[i].thr, 0, 0);
	(void)id;
	tick();
	return 0;
}
static u64 ts2ns(const struct timespec *t) { return (u64)t->tv_sec * SEC + (u64)t->tv_nsec; }
int __wrap_timer_settime(timer_t t, int flags, const struct itimerspec *n, struct itimerspec *o) {
	int i = (int)(intptr_t)t - 1;
	if (!in_child || i < 0 || i >= 256 || !tmr[i].used) { errno = EINVAL; if (in_child) rec('Q', 7, i, 0, 0); return -1; }
	if (o) memset(o, 0, sizeof *o);
	u64 v = ts2ns(&n->it_value);
	if (!v) tmr[i].armed = 0;
	else {
		tmr[i].armed = 1;
		tmr[i].interval = ts2ns(&n->it_interval);
		tmr[i].expiry = (flags & TIMER_ABSTIME) ? v : now_ns() + v;
	}
	rec('T', i, (i64)v, 0, 0);
	anchor();
	set_next();
	tick();
	return 0;
}
int __wrap_timer_delete(timer_t t) {
	int i = (int)(intptr_t)t - 1;
	if (!in_child || i < 0 || i >= 256 || !tmr[i].used) { errno = EINVAL; if (in_child) rec('Q', 8, i, 0, 0); return -1; }
	tmr[i].used = 0;
	shm->timers_live--;
	rec('D', i, 0, 0, 0);
	anchor();
	set_next();
	return 0;
}
int __wrap_timer_gettime(timer_t t, struct itimerspec *o) {
	int i = (int)(intptr_t)t - 1;
	memset(o, 0, sizeof *o);
	if (i < 0 || i >= 256 || !tmr[i].used) { errno = EINVAL; return -1; }
	if (tmr[i].armed) {
		u64 now = now_ns(), d = tmr[i].expiry > now ? tmr[i].expiry - now : 1;
		o->it_value.tv_sec = (time_t)(d / SEC);
		o->it_value.tv_nsec = (long)(d % SEC);
	}
	return 0;
}
#define ALARM_SLOT 255
static u64 set_alarm(u64 v, u64 iv) {
	u64 old = 0;
	struct simtimer *a = &tmr[ALARM_SLOT];
	if (a->used && a->armed && a->expiry > now_ns()) old = a->expiry - now_ns();
	a->used = 1; a->thr = 0; a->signo = SIGALRM; a->interval = iv;
	a->armed = v != 0;
	a->expiry = now_ns() + v;
	rec('T', ALARM_SLOT, (i64)v, 0, 0);
	anchor();
	set_next();
	return old;
}
unsigned __wrap_alarm(unsigned s) { return in_child ? (unsigned)((set_alarm(s * SEC, 0) + SEC - 1) / SEC) : 0; }
int __wrap_setitimer(int w, const struct itimerval *n, struct itimerval *o) {
	(void)w;
	if (!in_child) return 0;
	u64 old = set_alarm((u64)n->it_value.tv_sec * SEC + (u64)n->it_value.tv_usec * 1000,
	                    (u64)n->it_interval.tv_sec * SEC + (u64)n->it_interval.tv_usec * 1000);
	if (o) { memset(o, 0, sizeof *o); o->it_value.tv_sec = (time_t)(old / SEC); o->it_value.tv_usec = (suseconds_t)(old % SEC / 1000); }
	return 0;
}
long __real_sysconf(int);
long __wrap_sysconf(int name) {
	if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return in_child ? (long)P.nproc : 1;
	return __real_sysconf(name);
}

/* heavy PARI entry points called from ecgen code: may hang */
extern u64 hash_GEN(void *);
static u64 hash_coeff(u64 *x) {
	/* an element of a binary field: hash its value, not where that is kept */
	return (x[0] >> 57) == 5 ? hash_GEN((void *)x[2]) : hash_GEN(x);
}
void sim_heavy(long id, void *ret, void *arg) {
	if (!in_child || self_id != cur) return;
	if ((char *)ret < __start_ectext || (char *)ret >= __stop_ectext) return;
	u64 k = shm->nheavy++, h[1] = {0};
	/* the coefficients of the curve, if it is one (a vector of 17 entries) */
	u64 *x = arg;
	if (x && !((u64)x & 7) && x[0] >> 57 == 17 && (x[0] & 0xffffffff) >= 15 && (x[0] & 0xffffffff) <= 19)
		for (int i = 1; i <= 5; i++) h[0] = h[0] * 0x9e3779b97f4a7c15ULL + hash_coeff((u64 *)x[i]);
	rec('V', (i64)k, id, h, sizeof h);
	static u64 bad[16];
	static int nbad;
	int hang = k < P.hangto;
	for (int i = 0; i < P.nhang; i++) hang |= P.hang[i] == k;
	for (int i = 0; i < P.nhangc; i++)
		if (P.hangc[i] == k) {
			hang = 1;
			if (h[0] && nbad < 16) bad[nbad++] = h[0];
		}
	for (int i = 0; i < nbad; i++) if (h[0]) hang |= bad[i] == h[0];
	if (hang) {
			struct simthread *me = &thr[cur];
			me->hang_start = now_ns();
			rec('H', (i64)k, id, h, sizeof h);
			while (1) {
				me->hanging = 1;
				me->state = TS_BLOCK;
				me->wake_at = 0;
				/* a signal handler may jump out of here; mark the thread as
				 * running again before every delivery (see deliver()) */
				block_here();
			}
		}
}

/* ------------------------------------------------------------------ */
/* streams */
struct cookie { int fi; u64 pos; int append, rd, wr; u64 ent, entw; };

static struct simfile *file_by_path(const char *p, int create) {
	for (int i = 0; i < P.nf; i++) if (!strcmp(P.f[i].path, p)) return &P.f[i];
	if (!create || P.nf == MAXF || strlen(p) > 127) return NULL;
	struct simfile *f = &P.f[P.nf++];
	memset(f, 0, sizeof *f);
	strcpy(f->path, p);
	f->cap = -1;
	return f;
}
static struct iofault *fault_for(int fi, char op, u64 n) {
	for (int i = 0; i < P.niof; i++)
		if (P.iof[i].file == fi && P.iof[i].op == op && P.iof[i].n == n) return &P.iof[i];
	return NULL;
}
static void slow_io(u64 ns) {
	clock_extra += ns;
	rec('L', (i64)ns, 1, 0, 0);
	anchor();
	set_next();
	if (due_timer(cur) >= 0) deliver();
}

static ssize_t ck_read(void *c_, char *buf, size_t n) {
	struct cookie *c = c_;
	struct simfile *f = &P.f[c->fi];
	u64 k = f->nread++;
	if (f->preerr) { errno = f->preerr; rec('r', c->fi, f->preerr, 0, 0); return -1; }
	struct iofault *q = fault_for(c->fi, 'r', k);
	size_t lim = n;
	if (q) {
		switch (q->kind) {
			case IOF_SHORT: if ((size_t)q->arg < lim) lim = q->arg < 1 ? 1 : (size_t)q->arg; break;
			case IOF_ERRP: f->preerr = (int)q->arg; /* fallthrough */
			case IOF_ERR: errno = (int)q->arg; rec('r', c->fi, q->arg, 0, 0); return -1;
			case IOF_EOF: f->rpos = c->pos = f->initlen; if (f->kind == 4) { rec('R', c->fi, 0, 0, 0); return 0; } break;
			case IOF_SLOW: slow_io((u64)q->arg); break;
			case IOF_CRASH: rec('K', 1, 0, 0, 0); die(OC_CRASH);
		}
	}
	if (f->rchunk) {
		u64 r = 1 + rng_next(&f->rseed) % f->rchunk;
		if (r < lim) lim = r;
	}
	if (f->kind == 4) {
		for (size_t i = 0; i < lim; i++) {
			/* the stream does not depend on how it is cut into reads */
			if (c->pos % 8 == 0) {
				c->entw = rng_next(&c->ent);
				if (c->pos == 0 && P.entflip >= 0) c->entw ^= 1ULL << (P.entflip & 63);
			}
			buf[i] = (char)(c->entw >> (8 * (c->pos++ % 8)));
		}
		rec('R', c->fi, (i64)lim, 0, 0);
		return (ssize_t)lim;
	}
	u64 *pos = f->kind == 1 ? &f->rpos : &c->pos;
	u64 avail = *pos < f->initlen ? f->initlen - *pos : 0;
	if (lim > avail) lim = avail;
	memcpy(buf, f->init + *pos, lim);
	*pos += lim;
	rec('R', c->fi, (i64)lim, 0, 0);
	return (ssize_t)lim;
}

static ssize_t put_bytes(int fi, const char *buf, size_t n) {
	/* returns bytes accepted; sets errno when fewer than n */
	struct simfile *f = &P.f[fi];
	u64 k = f->nwrite++;
	if (f->perr) { errno = f->perr; rec('w', fi, f->perr, 0, 0); return 0; }
	struct iofault *q = fault_for(fi, 'w', k);
	size_t lim = n;
	int e = 0;
	if (q) {
		size_t part = q->arg >> 16 > 0 ? (size_t)(q->arg >> 16) - 1 : 0;
		switch (q->kind) {
			case IOF_SHORT: {
				/* split write: first part lands, then the rest */
				size_t h = (size_t)q->arg;
				if (h > 0 && h < n) {
					rec('W', fi, 0, buf, (u32)h);
					f->size += h;
					buf += h; lim = n - h;
					tick();
					rec('W', fi, 0, buf, (u32)lim);
					f->size += lim;
					return (ssize_t)n;
				}
				break;
			}
			case IOF_ERRP: f->perr = (int)(q->arg & 0xffff); /* fallthrough */
			case IOF_ERR: e = (int)(q->arg & 0xffff); if (part < lim) lim = part; break;
			case IOF_SLOW: slow_io((u64)q->arg); break;
			case IOF_CRASH: {
				size_t h = (size_t)q->arg < n ? (size_t)q->arg : n;
				if (h) rec('W', fi, 0, buf, (u32)h);
				rec('K', 2, 0, 0, 0);
				die(OC_CRASH);
			}
		}
	}
	if (f->cap >= 0 && f->size + lim > (u64)f->cap) {
		lim = (u64)f->cap > f->size ? (size_t)((u64)f->cap - f->size) : 0;
		e = ENOSPC;
	}
	if (lim) { rec('W', fi, 0, buf, (u32)lim); f->size += lim; }
	if (e) { rec('w', fi, e, 0, 0); errno = e; }
	return (ssize_t)lim;
}
static ssize_t ck_write(void *c_, const char *buf, size_t n) {
	struct cookie *c = c_;
	return put_bytes(c->fi, buf, n);
}
static int ck_close(void *c_) {
	struct cookie *c = c_;
	if (!in_child) return 0;
	struct simfile *f = &P.f[c->fi];
	u64 k = f->nclose++;
	rec('x', c->fi, 0, 0, 0);
	struct iofault *q = fault_for(c->fi, 'c', k);
	if (q) { errno = (int)q->arg; rec('w', c->fi, q->arg, 0, 0); return -1; }
	return 0;
}
static int ck_seek(void *c_, off64_t *off, int wh) {
	struct cookie *c = c_;
	struct simfile *f = &P.f[c->fi];
	if (f->kind) { errno = ESPIPE; return -1; }
	i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)c->pos : (i64)f->size;
	if (b + *off < 0) { errno = EINVAL; return -1; }
	/* writers may only be positioned at the end (append model) */
	if (c->wr && (u64)(b + *off) != f->size) simbug("seek in a written file");
	c->pos = (u64)(b + *off);
	*off = (off64_t)c->pos;
	return 0;
}
static FILE *open_cookie(struct simfile *f, const char *mode) {
	struct cookie *c = raw_alloc(sizeof *c, 16);
	if (!c) { errno = ENOMEM; return NULL; }
	memset(c, 0, sizeof *c);
	c->fi = (int)(f - P.f);
	c->append = mode[0] == 'a';
	c->wr = mode[0] != 'r' || strchr(mode, '+') != NULL;
	c->rd = mode[0] == 'r' || strchr(mode, '+') != NULL;
	c->ent = P.entropy ^ (f->nopen * 0x517cc1b727220a95ULL);
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	char m[8] = {mode[0], 0};
	if (strchr(mode, '+')) m[1] = '+';
	return fopencookie(c, m, io);
}

static FILE *sim_fopen(const char *path, const char *mode) {
	tick();
	int ent = !strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random");
	struct simfile *f = file_by_path(path, 1);
	if (!f) simbug("too many files");
	if (ent) { f->kind = 4; f->exists = 1; }
	int fi = (int)(f - P.f);
	struct iofault *q = fault_for(fi, 'o', f->nopen);
	f->nopen++;
	if (q || f->open_errno) {
		errno = q ? (int)q->arg : f->open_errno;
		rec('o', fi, errno, path, (u32)strlen(path));
		return NULL;
	}
	if (mode[0] == 'r' && !f->exists) {
		errno = ENOENT;
		rec('o', fi, errno, path, (u32)strlen(path));
		return NULL;
	}
	if (mode[0] == 'w' && !ent) { f->size = 0; f->exists = 1; }
	if (mode[0] == 'a') f->exists = 1;
	rec('O', fi, mode[0], path, (u32)strlen(path));
	return open_cookie(f, mode);
}
static int real_path(const char *p) {
	return strncmp(p, "/usr/share/pari", 15) == 0 || strncmp(p, "/etc/", 5) == 0 || strncmp(p, "/proc/", 6) == 0 ||
	       strncmp(p, "/usr/", 5) == 0;
}
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
	if (!in_child || real_path(p)) return __real_fopen(p, m);
	return sim_fopen(p, m);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_freopen(const char *p, const char *m, FILE *f) {
	(void)f;
	if (!in_child) return NULL;
	return sim_fopen(p, m);
}
/* raw descriptors */
#define FDBASE 5000
static struct cookie *fds[64];
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...) {
	va_list ap;
	va_start(ap, fl);
	int mode = va_arg(ap, int);
	va_end(ap);
	if (!in_child || real_path(p)) return __real_open(p, fl, mode);
	int i;
	for (i = 0; i < 64 && fds[i]; i++) ;
	if (i == 64) { errno = EMFILE; return -1; }
	const char *m = (fl & O_ACCMODE) == O_RDONLY ? "r" : (fl & O_APPEND) ? "a" : (fl & O_TRUNC) ? "w" : "a";
	tick();
	int ent = !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random");
	struct simfile *f = file_by_path(p, 1);
	if (!f) simbug("too many files");
	if (ent) { f->kind = 4; f->exists = 1; }
	int fi = (int)(f - P.f);
	struct iofault *q = fault_for(fi, 'o', f->nopen);
	f->nopen++;
	if (q || f->open_errno) { errno = q ? (int)q->arg : f->open_errno; rec('o', fi, errno, p, (u32)strlen(p)); return -1; }
	if (!f->exists && !(fl & O_CREAT)) { errno = ENOENT; rec('o', fi, errno, p, (u32)strlen(p)); return -1; }
	if (m[0] == 'w') f->size = 0;
	f->exists = 1;
	struct cookie *c = raw_alloc(sizeof *c, 16);
	memset(c, 0, sizeof *c);
	c->fi = fi;
	c->ent = P.entropy ^ (f->nopen * 0x517cc1b727220a95ULL);
	fds[i] = c;
	rec('O', fi, m[0], p, (u32)strlen(p));
	return FDBASE + i;
}
int __wrap_open64(const char *p, int fl, ...) {
	va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
	return __wrap_open(p, fl, mode);
}
static struct cookie *fd_cookie(int fd) {
	static struct cookie std[3];
	if (fd >= 0 && fd <= 2) { std[fd].fi = fd; return &std[fd]; } /* files 0..2 are the std streams */
	if (fd >= FDBASE && fd < FDBASE + 64) return fds[fd - FDBASE];
	return NULL;
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) {
	struct cookie *c = in_child ? fd_cookie(fd) : NULL;
	return c ? ck_read(c, b, n) : __real_read(fd, b, n);
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n) {
	struct cookie *c = in_child ? fd_cookie(fd) : NULL;
	if (!c) return __real_write(fd, b, n);
	ssize_t r = put_bytes(c->fi, b, n);
	return r > 0 ? r : -1;
}
int __real_close(int);
int __wrap_close(int fd) {
	struct cookie *c = in_child ? fd_cookie(fd) : NULL;
	if (!c) return __real_close(fd);
	int r = ck_close(c);
	if (fd >= FDBASE) fds[fd - FDBASE] = NULL;
	return r;
}
FILE *__real_fdopen(int, const char *);
FILE *__wrap_fdopen(int fd, const char *m) {
	struct cookie *c = in_child ? fd_cookie(fd) : NULL;
	if (!c) return __real_fdopen(fd, m);
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	return fopencookie(c, m, io);
}
int __real_fileno(FILE *);
int __wrap_fileno(FILE *f) { int r = __real_fileno(f); return r < 0 ? 4999 : r; }
int __wrap_fsync(int fd) { (void)fd; return 0; }
int __wrap_fdatasync(int fd) { (void)fd; return 0; }
int __wrap_isatty(int fd) { (void)fd; return 0; }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl) {
	(void)fl;
	struct simfile *f = file_by_path("@getrandom", 1);
	if (!f) simbug("too many files");
	f->kind = 4;
	static struct cookie c;
	c.fi = (int)(f - P.f);
	if (!c.ent) c.ent = P.entropy ^ 0x3333;
	return ck_read(&c, b, n);
}
int __wrap_getentropy(void *b, size_t n) { return __wrap_getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
int __wrap_unlink(const char *p) { (void)p; if (in_child) rec('U', 0, 0, p, (u32)strlen(p)); return 0; }
int __wrap_remove(const char *p) { return __wrap_unlink(p); }
int __wrap_rename(const char *a, const char *b) {
	(void)a; (void)b;
	simbug("rename");
}
int __real_system(const char *);
int __wrap_system(const char *s) { if (in_child) simbug("system"); return __real_system(s); }
void *__real_popen(const char *, const char *);
FILE *__wrap_popen(const char *c, const char *m) {
	/* PARI reads compressed seadata through popen: pure data, allowed */
	return __real_popen(c, m);
}

/* ------------------------------------------------------------------ */
/* instrumentation callbacks for the ecgen sources */
static u8 *cov; /* one byte for each address of ecgen's code, shared by all runs */
void __sanitizer_cov_trace_pc(void) {
	if (cov) cov[(u8 *)__builtin_return_address(0) - (u8 *)__start_ectext] = 1;
	tick();
}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RET __builtin_return_address(0)
/* an index past the end of an array, or an object too small for what is read as it */
void __ubsan_handle_out_of_bounds(void *d, u64 i) { (void)d; if (in_child) bad_memory(NULL, i, 3, RET); }
void __ubsan_handle_type_mismatch_v1(void *d, u64 p) { (void)d; if (in_child) bad_memory(NULL, p, 3, RET); }
#define TS(n) \
	void __tsan_read##n(void *p) { shadow_check(p, n, 0, RET); race_access(p, n, 0, RET); tick(); } \
	void __tsan_write##n(void *p) { shadow_check(p, n, 1, RET); race_access(p, n, 1, RET); tick(); } \
	void __tsan_unaligned_read##n(void *p) { shadow_check(p, n, 0, RET); race_access(p, n, 0, RET); tick(); } \
	void __tsan_unaligned_write##n(void *p) { shadow_check(p, n, 1, RET); race_access(p, n, 1, RET); tick(); } \
	void __tsan_volatile_read##n(void *p) { shadow_check(p, n, 0, RET); race_access(p, n, 0, RET); tick(); } \
	void __tsan_volatile_write##n(void *p) { shadow_check(p, n, 1, RET); race_access(p, n, 1, RET); tick(); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void *p, unsigned long n) { shadow_check(p, n, 0, RET); race_access(p, n, 0, RET); tick(); }
void __tsan_write_range(void *p, unsigned long n) { shadow_check(p, n, 1, RET); race_access(p, n, 1, RET); tick(); }
/* atomics order what is before them with what is after, whatever the address */
static void hb_sync(void) { hb_acquire(lockvc[256]); hb_release(lockvc[256]); }
void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; }
#define ATOM(bits, ty) \
	ty __tsan_atomic##bits##_load(const volatile ty *p, int o) { (void)o; hb_sync(); tick(); return *p; } \
	void __tsan_atomic##bits##_store(volatile ty *p, ty v, int o) { (void)o; hb_sync(); tick(); *p = v; } \
	ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int o) { (void)o; hb_sync(); tick(); ty r = *p; *p = v; return r; } \
	ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int o) { (void)o; hb_sync(); tick(); ty r = *p; *p = r + v; return r; } \
	ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int o) { (void)o; hb_sync(); tick(); ty r = *p; *p = r - v; return r; } \
	ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int o) { (void)o; hb_sync(); tick(); ty r = *p; *p = r & v; return r; } \
	ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int o) { (void)o; hb_sync(); tick(); ty r = *p; *p = r | v; return r; } \
	ty __tsan_atomic##bits##_fetch_xor(volatile ty *p, ty v, int o) { (void)o; hb_sync(); tick(); ty r = *p; *p = r ^ v; return r; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int o, int fo) { \
		(void)o; (void)fo; hb_sync(); tick(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int o, int fo) { \
		(void)o; (void)fo; hb_sync(); tick(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int o) { (void)o; hb_sync(); tick(); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

/* ------------------------------------------------------------------ */
/* PARI start-up: done once in the server, inherited by every run */
extern void __real_pari_init(size_t, u64);
extern void paristack_setsize(size_t, size_t);
extern void initprimetable(u64);
static int preinit;
static u64 pre_primes;
extern FILE *pari_outfile, *pari_errfile, *pari_infile;
void __wrap_pari_init(size_t size, u64 maxprime) {
	if (!preinit) { __real_pari_init(size, maxprime); return; }
	pari_outfile = stdout; pari_errfile = stderr; pari_infile = stdin;
	in_pari_init = 1;
	paristack_setsize(size, 0);
	if (maxprime > pre_primes) initprimetable(maxprime);
	in_pari_init = 0;
}

/* ------------------------------------------------------------------ */
/* plan parsing */
static u8 hexv(char c) { return (u8)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10); }
static u8 *unhex(const char *s, u64 *len) {
	u8 *o = blobs + bloblen;
	u64 n = 0;
	while (s[0] && s[0] != ' ' && s[0] != '\n' && s[1]) { o[n++] = (u8)(hexv(s[0]) << 4 | hexv(s[1])); s += 2; }
	o[n] = 0;
	bloblen += n + 1;
	*len = n;
	return o;
}
static void plan_file(int idx, const char *path, int kind) {
	struct simfile *f = &P.f[idx];
	memset(f, 0, sizeof *f);
	strcpy(f->path, path);
	f->kind = kind;
	f->cap = -1;
	f->exists = 1;
}
static void bad_plan(const char *l) { dprintf(2, "bad plan line: %s\n", l); _exit(96); }

static void parse_plan(char *s) {
	memset(&P, 0, sizeof P);
	bloblen = 0;
	P.tick_ns = 0;
	P.budget = 2000000000ULL;
	P.nproc = 1;
	P.mfail_from = ~0ULL;
	P.entflip = -1;
	P.pid = 4242;
	P.realtime = 1700000000;
	P.watchdog_ms = 40000;
	plan_file(0, "@in", 1);
	plan_file(1, "@out", 2);
	plan_file(2, "@err", 3);
	P.nf = 3;
	char *save = NULL;
	for (char *l = strtok_r(s, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
		char k[16], path[128], kind[16], op;
		unsigned long long a = 0, b = 0;
		long long c = 0;
		if (sscanf(l, "%15s", k) != 1) continue;
		char *rest = strchr(l, ' ');
		rest = rest ? rest + 1 : l + strlen(l);
		u64 len;
		if (!strcmp(k, "arg")) { P.argv[P.argc++] = (char *)unhex(rest, &len); }
		else if (!strcmp(k, "in")) { P.f[0].init = unhex(rest, &len); P.f[0].initlen = len; }
		else if (!strcmp(k, "file")) {
			sscanf(rest, "%127s", path);
			char *h = strchr(rest, ' ');
			struct simfile *f = file_by_path(path, 1);
			f->init = unhex(h ? h + 1 : "", &len);
			f->initlen = len; f->size = len; f->exists = 1;
		} else if (!strcmp(k, "dir")) { struct simfile *f = file_by_path(rest, 1); f->open_errno = EISDIR; }
		else if (!strcmp(k, "noopen")) { sscanf(rest, "%127s %llu", path, &a); file_by_path(path, 1)->open_errno = (int)a; }
		else if (!strcmp(k, "cap")) { sscanf(rest, "%127s %lld", path, &c); file_by_path(path, 1)->cap = c; }
		else if (!strcmp(k, "rchunk")) {
			sscanf(rest, "%127s %llu %llu", path, &a, &b);
			struct simfile *f = file_by_path(path, 1);
			f->rchunk = a; f->rseed = b;
		} else if (!strcmp(k, "io")) {
			struct iofault q;
			if (sscanf(rest, "%127s %c %llu %15s %lld", path, &op, &a, kind, &c) != 5) bad_plan(l);
			q.file = (int)(file_by_path(path, 1) - P.f);
			q.op = op; q.n = a; q.arg = c;
			q.kind = !strcmp(kind, "short") ? IOF_SHORT : !strcmp(kind, "err") ? IOF_ERR : !strcmp(kind, "errp") ? IOF_ERRP
			         : !strcmp(kind, "eof") ? IOF_EOF : !strcmp(kind, "slow") ? IOF_SLOW : !strcmp(kind, "crash") ? IOF_CRASH : -1;
			if (q.kind < 0) bad_plan(l);
			P.iof[P.niof++] = q;
		} else if (!strcmp(k, "stall")) { sscanf(rest, "%llu %llu", &a, &b); P.stall[P.nstall++] = (struct stall){a, b}; }
		else if (P.nsw >= MAXEV || P.nblk >= MAXEV || P.nsig >= MAXEV || P.nspur >= MAXEV || P.nssw >= MAXEV || P.nstall >= MAXEV) bad_plan("too many decisions");
		else if (!strcmp(k, "ssw")) { sscanf(rest, "%llu %llu", &a, &b); P.ssw[P.nssw++] = (struct sw){a, (int)b}; }
		else if (!strcmp(k, "sw")) { sscanf(rest, "%llu %llu", &a, &b); P.sw[P.nsw++] = (struct sw){a, (int)b}; }
		else if (!strcmp(k, "blk")) { sscanf(rest, "%llu %llu", &a, &b); P.blk[P.nblk++] = (struct sw){a, (int)b}; }
		else if (!strcmp(k, "sig")) { sscanf(rest, "%llu %llu", &a, &b); P.sig[P.nsig++] = (struct sw){a, (int)b}; }
		else if (!strcmp(k, "spur")) { sscanf(rest, "%llu %llu", &a, &b); P.spur[P.nspur++] = (struct sw){a, (int)b}; }
		else if (!strcmp(k, "hangto")) P.hangto = strtoull(rest, 0, 10);
		else if (!strcmp(k, "hang")) { P.hang[P.nhang++] = strtoull(rest, 0, 10); }
		else if (!strcmp(k, "efail")) { if (P.nefail < 64) P.efail[P.nefail++] = strtoull(rest, 0, 10); }
		else if (!strcmp(k, "hangc")) { if (P.nhangc < 16) P.hangc[P.nhangc++] = strtoull(rest, 0, 10); }
		else if (!strcmp(k, "entflip")) P.entflip = atoll(rest);
		else if (!strcmp(k, "mfail")) { P.mfail[P.nmfail++] = strtoull(rest, 0, 10); }
		else if (!strcmp(k, "tfail")) { if (P.ntfail < 72) P.tfail[P.ntfail++] = strtoull(rest, 0, 10); }
		else if (!strcmp(k, "mfrom")) { sscanf(rest, "%llu %llu", &a, &b); P.mfail_from = a; P.mfail_min = b; }
		else if (!strcmp(k, "entropy")) P.entropy = strtoull(rest, 0, 10);
		else if (!strcmp(k, "nproc")) P.nproc = strtoull(rest, 0, 10);
		else if (!strcmp(k, "tickns")) P.tick_ns = strtoull(rest, 0, 10);
		else if (!strcmp(k, "budget")) P.budget = strtoull(rest, 0, 10);
		else if (!strcmp(k, "memfill")) P.memfill = strtoull(rest, 0, 10);
		else if (!strcmp(k, "reuse")) P.reuse = atoi(rest);
		else if (!strcmp(k, "pid")) P.pid = strtoull(rest, 0, 10);
		else if (!strcmp(k, "place")) P.place = strtoull(rest, 0, 10);
		else if (!strcmp(k, "realtime")) P.realtime = strtoull(rest, 0, 10);
		else if (!strcmp(k, "crash")) P.crash_tick = strtoull(rest, 0, 10);
		else if (!strcmp(k, "clockfail")) P.clockfail = 1;
		else if (!strcmp(k, "watchdog")) P.watchdog_ms = strtoull(rest, 0, 10);
		else if (!strcmp(k, "sched")) {
			unsigned long long s_ = 0, m = 0, y = 0, sp = 0; int md = 0;
			sscanf(rest, "%d %llu %llu %llu %llu", &md, &s_, &m, &y, &sp);
			P.sched_mode = md; P.sched_seed = s_; P.sched_mean = m; P.sched_sync = y; P.sched_spur = sp;
		} else bad_plan(l);
	}
	P.argv[P.argc] = NULL;
}

extern int ecgen_main(int, char **);

static void child_run(void) {
	/* the stack, the heap and the mappings start somewhere else */
	volatile u8 *room = __builtin_alloca(16 + (P.place % 997) * 16);
	room[0] = 0;
	brk_ += (P.place % 1009) * 16;
	map_next += (P.place % 1013) << 12;
	fill_stack(160 << 10);
	sched_rng = P.sched_seed;
	thr[0].id = 0;
	thr[0].state = TS_RUN;
	thr[0].go = 1;
	thr[0].tid = (pid_t)syscall(SYS_gettid);
	thr[0].pt = pthread_self();
	thr[0].join_of = -1;
	thr[0].prio = P.sched_mode == 2 ? (i64)(rng_next(&sched_rng) >> 8) : 0;
	self_id = 0;
	if (P.sched_mode == 2) {
		npct = P.sched_sync > 60 ? 60 : (int)P.sched_sync;
		for (int i = 0; i < npct; i++) pct_points[i] = 1 + rng_next(&sched_rng) % (P.sched_mean ? P.sched_mean : 1000000);
		for (int i = 0; i < npct; i++)
			for (int j = i + 1; j < npct; j++)
				if (pct_points[j] < pct_points[i]) { u64 x = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = x; }
	}
	/* std streams */
	stdin = open_cookie(&P.f[0], "r");
	stdout = open_cookie(&P.f[1], "w");
	stderr = open_cookie(&P.f[2], "w");
	setvbuf(stderr, NULL, _IONBF, 0);
	extern char *program_invocation_name, *program_invocation_short_name;
	program_invocation_name = program_invocation_short_name = P.argv[0];
	shm->hash = 0xcbf29ce484222325ULL;
	in_child = 1;
	T_base = 0;
	chunk = sim_countdown = 0;
	set_next();
	int r = ecgen_main(P.argc, P.argv);
	exit(r);
}

void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int s) {
	if (in_child) rec('X', s, 0, 0, 0);
	__real_exit(s);
}

static int rd_all(void *b, size_t n) {
	u8 *p = b;
	while (n) {
		ssize_t r = syscall(SYS_read, 0, p, n);
		if (r <= 0) return 0;
		p += r; n -= (size_t)r;
	}
	return 1;
}
static void wr_all(const void *b, size_t n) {
	const u8 *p = b;
	while (n) {
		ssize_t r = syscall(SYS_write, 1, p, n);
		if (r <= 0) _exit(1);
		p += r; n -= (size_t)r;
	}
}

extern __thread u64 avma;
extern void *ellmodulareqn(long, long, long);

int main(void) {
	arena_init();
	shm = __real_mmap(NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	blobs = __real_mmap(NULL, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (shm == MAP_FAILED || blobs == MAP_FAILED) return 97;
	const char *covfile = getenv("SIM_COV");
	if (covfile) {
		int fd = (int)syscall(SYS_openat, AT_FDCWD, covfile, O_RDWR | O_CREAT | O_CLOEXEC, 0644);
		size_t n = (size_t)(__stop_ectext - __start_ectext);
		if (fd >= 0 && !ftruncate(fd, (off_t)n)) {
			cov = __real_mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (cov == MAP_FAILED) cov = NULL;
		}
		if (fd >= 0) syscall(SYS_close, fd);
	}
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	/* warm start: exactly what ecgen's own init does first */
	pre_primes = 1000000;
	__real_pari_init(64000000, pre_primes);
	preinit = 1;
	u64 av = avma;
	ellmodulareqn(2, -1, -1);
	avma = av;
	/* requests: u64 length, plan text.  replies: see struct reply */
	while (1) {
		u64 len;
		if (!rd_all(&len, 8)) return 0;
		if (len >= PLAN_MAX) return 96;
		if (!rd_all(planbuf, len)) return 0;
		planbuf[len] = 0;
		parse_plan(planbuf);
		memset(shm, 0, offsetof(struct shm, rec));
		pid_t pid = fork();
		if (pid < 0) return 95;
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			/* keep the protocol pipes out of reach */
			syscall(SYS_close, 0);
			int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR);
			if (nul != 0) dup2(nul, 0);
			dup2(0, 1);
			child_run();
		}
		int fd = (int)syscall(SYS_pidfd_open, pid, 0);
		int killed = 0;
		if (fd >= 0) {
			struct pollfd pf = {fd, POLLIN, 0};
			if (poll(&pf, 1, (int)P.watchdog_ms) == 0) { kill(pid, SIGKILL); killed = 1; }
			syscall(SYS_close, fd);
		}
		int st;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
		struct { u64 magic; u32 outcome, status, killed, pad; u64 v[14]; char note[256]; u64 reclen; } rep;
		memset(&rep, 0, sizeof rep);
		rep.magic = 0x51e7;
		rep.outcome = shm->outcome;
		rep.status = (u32)st;
		rep.killed = (u32)killed;
		u64 v[] = {shm->ticks, shm->clock, shm->hash, shm->nalloc, shm->nheavy, shm->nswitch, shm->nblock,
		           shm->nsignal, shm->nsync, shm->timers_live, shm->peak_heap, shm->last_heap, shm->peak_blocks};
		memcpy(rep.v, v, sizeof v);
		memcpy(rep.note, shm->note, 256);
		rep.reclen = shm->reclen;
		wr_all(&rep, sizeof rep);
		wr_all(shm->rec, shm->reclen);
	}
}
