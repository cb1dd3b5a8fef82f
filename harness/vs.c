/*
 * A virtual scheduler. Threads are real, but only the one holding the token
 * runs. The threading primitives (wrapped by the linker) are simulated, and
 * are, together with the library's accesses to global variables (instrumented
 * as for the thread sanitizer), the points at which the token may move. The
 * choice at each point is a function of the strategy and its seed only.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "vs.h"

#define MAXT 512

enum { READY, BLOCKED, DONE };
enum { WMUTEX, WSEM, WBAR, WJOIN, WCOND };
struct th {
    int state, wait;
    struct ob *o;
    unsigned round;
    int target;
    volatile int go;
    int prio, spins;
    pthread_t real;
    void *(*f)(void *);
    void *arg, *ret;
    int detached, inSem;
};
/* The state of mutexes, semaphores, barriers and condition variables is kept
 * where they are, so they may be initialised by assignment. Those initialised
 * statically are all zeroes where it matters. */
struct ob {
    int owner;               /* mutexes: 1 + thread */
    unsigned count, in, live;  /* barriers */
    unsigned round;          /* barriers, condition variables */
    int value;               /* semaphores */
};
static struct th th[MAXT];
static int nth, cur, active;
static __thread int self = -1;

int vs_off;
long vs_steps, vs_switches;
int vs_npre, vs_preChoice[4], vs_maxAlt;
long vs_preStep[4], *vs_shared;
unsigned char *vs_alt;
void (*vs_stuck)(int livelock);
static int strategy, p1, p2;
static unsigned long long rs = 1;
static long change[64];
static int nchange, lowest;
static long lastProgress;
static __thread int failKind, failErr;
static __thread const void *failOb;
#define STEP_LIMIT 3000000L
#define SPIN_LIMIT 150000L

static unsigned rnd(void)
{
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return (unsigned) ((rs * 2685821657736338717ULL) >> 33);
}
int vs_self(void) { return self; }

static void park(int me)
{
    while (!__atomic_load_n(&th[me].go, __ATOMIC_ACQUIRE))
        syscall(SYS_futex, &th[me].go, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    th[me].go = 0;
}
static void hand(int to)
{
    cur = to;
    vs_switches++;
    __atomic_store_n(&th[to].go, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, &th[to].go, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

#define obj(a) ((struct ob *) (void *) (a))

static int enabled(int t)
{
    struct th *x = &th[t];
    if (x->state == READY) return 1;
    if (x->state == DONE) return 0;
    switch (x->wait) {
        case WMUTEX: return x->o->owner == 0;
        case WSEM: return x->o->value > 0;
        case WBAR: return x->o->round != x->round;
        case WJOIN: return th[x->target].state == DONE;
        case WCOND: return x->o->round != x->round;
    }
    return 1;
}

static void stuck(int livelock)
{
    active = 0;
    if (vs_stuck) vs_stuck(livelock);
    _exit(95);
}

/* who runs next? The current thread if it can, and the strategy agrees */
static int choose(int force)
{
    int en[MAXT], n = 0, i, me = self, can;
    for (i = 0; i < nth; i++) if (enabled(i)) en[n++] = i;
    if (!n) stuck(0);
    can = enabled(me);
    if (strategy == 4) {
        int others[MAXT], m = 0, def = -1;
        if (vs_shared) *vs_shared = vs_steps + 1;
        /* without a choice: the next one, in order */
        if (can && !force) def = me;
        for (i = 0; i < n && def < 0; i++) if (en[i] > me) def = en[i];
        if (def < 0) def = en[0];
        for (i = 0; i < n; i++) if (en[i] != def) others[m++] = en[i];
        if (vs_alt && vs_steps < vs_maxAlt) vs_alt[vs_steps] = (unsigned char) m;
        for (i = 0; i < vs_npre; i++) if (vs_preStep[i] == vs_steps && vs_preChoice[i] < m) return others[vs_preChoice[i]];
        return def;
    }
    if (n == 1) return en[0];
    if (strategy == 1) {
        int b = -1;
        for (i = 0; i < nchange; i++) if (change[i] == vs_steps) th[me].prio = --lowest;
        if (force && can) th[me].prio = --lowest;
        for (i = 0; i < n; i++) if (b < 0 || th[en[i]].prio > th[b].prio) b = en[i];
        return b;
    }
    if (strategy == 0) {
        if (can && !force && rnd() % (unsigned) p1) return me;
    } else {
        int go = 0;
        for (i = 0; i < nchange; i++) if (change[i] == vs_steps) go = 1;
        if (can && !force && !go) return me;
        if (strategy == 3 || (force && strategy == 2 && rnd() % 4)) {
            for (i = 0; i < n; i++) if (en[i] > me) return en[i];
            return en[0];
        }
    }
    do i = en[rnd() % (unsigned) n]; while (i == me);
    return i;
}

static void resched(int force)
{
    int me = self, n;
    if (!active || me < 0) return;
    vs_steps++;
    if (vs_steps > STEP_LIMIT || vs_steps - lastProgress > SPIN_LIMIT) stuck(1);
    n = choose(force);
    if (n == me) return;
    hand(n);
    park(me);
}
void vs_point(void)
{
    if (vs_off || !active || self < 0) return;
    /* nobody runs forever */
    if (++th[self].spins > 2000) { th[self].spins = 0; resched(1); }
    else resched(0);
}
static void progress(void) { lastProgress = vs_steps; if (self >= 0) th[self].spins = 0; }

static void blockOn(int w, struct ob *o)
{
    int me = self;
    th[me].wait = w;
    th[me].o = o;
    th[me].state = BLOCKED;
    if (!enabled(me)) {
        int n;
        vs_steps++;
        n = choose(1);
        if (n != me) { hand(n); park(me); }
    }
    th[me].state = READY;
}

/* only the thread which asked for it fails, and only with the object it said */
static int failing(int kind, const void *o, int *err)
{
    if (failKind != kind || (failOb && failOb != o)) return 0;
    failKind = 0;
    *err = failErr;
    return 1;
}
void vs_fail(int kind, const void *o, int err) { failKind = kind; failErr = err; failOb = o; }

void vs_init(int s, unsigned long seed, int a, int b)
{
    int i;
    cpu_set_t cs;
    strategy = s;
    p1 = a < 1 ? 1 : a;
    p2 = b < 1 ? 1 : b;
    rs = (seed + 1) * 0x9E3779B97F4A7C15ULL;
    for (i = 0; i < 8; i++) rnd();
    nchange = s ? (a > 64 ? 64 : a) : 0;
    for (i = 0; i < nchange; i++) change[i] = (long) (rnd() % (unsigned) p2);
    CPU_ZERO(&cs);
    i = sched_getcpu();
    if (i >= 0 && i < CPU_SETSIZE) { CPU_SET(i, &cs); sched_setaffinity(0, sizeof(cs), &cs); }
    self = 0;
    nth = 1;
    th[0].state = READY;
    th[0].prio = (int) (rnd() % 1000) + 1;
    active = 1;
}

/************************************************************* primitives */
#define W(n) __wrap_ ## n
#define R(n) __real_ ## n
#define ON (active && self >= 0)

int R(pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int R(pthread_mutex_lock)(pthread_mutex_t *);
int R(pthread_mutex_trylock)(pthread_mutex_t *);
int R(pthread_mutex_unlock)(pthread_mutex_t *);

static void *starter(void *a)
{
    struct th *x = (struct th *) a;
    int me = (int) (x - th), n;
    self = me;
    park(me);
    x->ret = x->f(x->arg);
    x->state = DONE;
    progress();
    vs_steps++;
    n = choose(1);
    hand(n);
    return NULL;
}

int W(pthread_create)(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *arg)
{
    struct th *x;
    int e, sd = 0, id;
    pthread_attr_t pa;
    vs_point();
    if (failing(VS_CREATE, NULL, &e)) return e;
    /* reuse those who've been joined */
    for (id = 0; id < nth; id++) if (th[id].state == DONE && th[id].detached == 2) break;
    if (id == MAXT) { fprintf(stderr, "vs: too many threads\n"); _exit(96); }
    x = &th[id];
    memset(x, 0, sizeof(*x));
    if (at && !pthread_attr_getdetachstate(at, &sd) && sd == PTHREAD_CREATE_DETACHED) x->detached = 1;
    x->f = f;
    x->arg = arg;
    x->prio = (int) (rnd() % 1000) + 1;
    x->state = READY;
    if (id == nth) nth++;
    pthread_attr_init(&pa);
    pthread_attr_setdetachstate(&pa, PTHREAD_CREATE_DETACHED);
    pthread_attr_setstacksize(&pa, 1 << 20);
    e = R(pthread_create)(&x->real, &pa, starter, x);
    pthread_attr_destroy(&pa);
    if (e) { fprintf(stderr, "vs: pthread_create: %s\n", strerror(e)); _exit(96); }
    /* thread numbers may be reused, so it's a number that is given out */
    *t = (pthread_t) (uintptr_t) (0x10000 + id);
    progress();
    vs_point();
    return 0;
}
int W(pthread_join)(pthread_t t, void **ret)
{
    int id = (int) ((uintptr_t) t - 0x10000), e;
    vs_point();
    if (failing(VS_JOIN, NULL, &e)) return e;
    if (id < 0 || id >= nth || th[id].detached) return ESRCH;
    if (id == self) return EDEADLK;
    th[self].target = id;
    blockOn(WJOIN, NULL);
    if (ret) *ret = th[id].ret;
    th[id].detached = 2;
    progress();
    return 0;
}
int W(pthread_detach)(pthread_t t)
{
    int id = (int) ((uintptr_t) t - 0x10000);
    if (id < 0 || id >= nth || th[id].detached) return ESRCH;
    th[id].detached = 1;
    return 0;
}
pthread_t W(pthread_self)(void) { return (pthread_t) (uintptr_t) (0x10000 + self); }

int W(pthread_mutex_init)(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    (void) a;
    memset((void *) m, 0, sizeof(*m));
    return 0;
}
int W(pthread_mutex_destroy)(pthread_mutex_t *m) { struct ob *o = obj(m); return o->owner ? EBUSY : 0; }
int W(pthread_mutex_trylock)(pthread_mutex_t *m)
{
    struct ob *o;
    if (!ON) return R(pthread_mutex_trylock)(m);
    vs_point();
    o = obj(m);
    if (o->owner) {
        /* whoever does this is likely spinning */
        if (!vs_off) resched(1);
        return EBUSY;
    }
    o->owner = 1 + self;
    progress();
    return 0;
}
int W(pthread_mutex_lock)(pthread_mutex_t *m)
{
    struct ob *o;
    int e;
    if (!ON) return R(pthread_mutex_lock)(m);
    vs_point();
    if (failing(VS_LOCK, m, &e)) return e;
    o = obj(m);
    if (o->owner) {
        if (vs_off) { fprintf(stderr, "vs: can't wait here\n"); _exit(96); }
        blockOn(WMUTEX, o);
    }
    o->owner = 1 + self;
    progress();
    return 0;
}
int W(pthread_mutex_unlock)(pthread_mutex_t *m)
{
    struct ob *o;
    if (!ON) return R(pthread_mutex_unlock)(m);
    o = obj(m);
    o->owner = 0;
    progress();
    vs_point();
    return 0;
}
/* spin locks are as good as mutexes */
int W(pthread_spin_init)(pthread_spinlock_t *m, int s) { (void) s; obj((void *) m)->owner = 0; return 0; }
int W(pthread_spin_destroy)(pthread_spinlock_t *m) { (void) m; return 0; }
int W(pthread_spin_lock)(pthread_spinlock_t *m) { return W(pthread_mutex_lock)((pthread_mutex_t *) m); }
int W(pthread_spin_trylock)(pthread_spinlock_t *m) { return W(pthread_mutex_trylock)((pthread_mutex_t *) m); }
int W(pthread_spin_unlock)(pthread_spinlock_t *m) { return W(pthread_mutex_unlock)((pthread_mutex_t *) m); }

int W(pthread_cond_init)(pthread_cond_t *c, const pthread_condattr_t *a) { (void) a; memset((void *) c, 0, sizeof(*c)); return 0; }
int W(pthread_cond_destroy)(pthread_cond_t *c) { (void) c; return 0; }
int W(pthread_cond_wait)(pthread_cond_t *c, pthread_mutex_t *m)
{
    struct ob *o = obj(c), *l = obj(m);
    th[self].round = o->round;
    l->owner = 0;
    progress();
    blockOn(WCOND, o);
    if (l->owner) blockOn(WMUTEX, l);
    l->owner = 1 + self;
    return 0;
}
/* waking up more than one is allowed */
int W(pthread_cond_broadcast)(pthread_cond_t *c) { obj(c)->round++; progress(); vs_point(); return 0; }
int W(pthread_cond_signal)(pthread_cond_t *c) { return W(pthread_cond_broadcast)(c); }

int W(pthread_barrier_init)(pthread_barrier_t *b, const pthread_barrierattr_t *a, unsigned n)
{
    struct ob *o = obj(b);
    (void) a;
    if (!n) return EINVAL;
    o->count = n;
    o->in = 0;
    o->live = 1;
    return 0;
}
int W(pthread_barrier_destroy)(pthread_barrier_t *b)
{
    struct ob *o = obj(b);
    vs_point();
    if (!o->live) return EINVAL;
    if (o->in) {
        /* undefined: somebody is still waiting, and will never get out */
        o->in = 0;
    }
    o->live = 0;
    return 0;
}
int W(pthread_barrier_wait)(pthread_barrier_t *b)
{
    struct ob *o;
    int e;
    vs_point();
    if (failing(VS_BAR, b, &e)) return e;
    o = obj(b);
    if (!o->live) return EINVAL;
    if (++o->in >= o->count) {
        o->in = 0;
        o->round++;
        progress();
        vs_point();
        return PTHREAD_BARRIER_SERIAL_THREAD;
    }
    progress();
    th[self].round = o->round;
    blockOn(WBAR, o);
    return 0;
}

int W(sem_init)(sem_t *s, int sh, unsigned v)
{
    struct ob *o = obj(s);
    (void) sh;
    o->value = (int) v;
    return 0;
}
int W(sem_destroy)(sem_t *s) { (void) s; return 0; }
int W(sem_post)(sem_t *s)
{
    vs_point();
    obj(s)->value++;
    progress();
    vs_point();
    return 0;
}
int W(sem_wait)(sem_t *s)
{
    struct ob *o;
    int e;
    vs_point();
    if (failing(VS_SEM, s, &e)) { errno = e; return -1; }
    o = obj(s);
    if (o->value <= 0) blockOn(WSEM, o);
    o->value--;
    progress();
    return 0;
}
int W(sem_trywait)(sem_t *s)
{
    struct ob *o = obj(s);
    vs_point();
    if (o->value <= 0) { if (!vs_off) resched(1); errno = EAGAIN; return -1; }
    o->value--;
    progress();
    return 0;
}
int W(sem_getvalue)(sem_t *s, int *v) { *v = obj(s)->value; return 0; }
int W(sched_yield)(void) { if (!vs_off) resched(1); return 0; }
int W(usleep)(useconds_t u) { (void) u; if (!vs_off) resched(1); return 0; }
int W(nanosleep)(const struct timespec *a, struct timespec *b) { (void) a; (void) b; if (!vs_off) resched(1); return 0; }

/********************************************************* instrumentation */
extern char __data_start[], _end[];
static void access_(void *p)
{
    if (!active || vs_off || self < 0) return;
    if ((char *) p >= (char *) __data_start && (char *) p < (char *) _end) vs_point();
    else if (strategy < 2 && (rnd() & 127) == 0) vs_point();
}
#define ACC(n) void n(void *p) { access_(p); }
ACC(__tsan_read1) ACC(__tsan_read2) ACC(__tsan_read4) ACC(__tsan_read8) ACC(__tsan_read16)
ACC(__tsan_write1) ACC(__tsan_write2) ACC(__tsan_write4) ACC(__tsan_write8) ACC(__tsan_write16)
ACC(__tsan_unaligned_read2) ACC(__tsan_unaligned_read4) ACC(__tsan_unaligned_read8) ACC(__tsan_unaligned_read16)
ACC(__tsan_unaligned_write2) ACC(__tsan_unaligned_write4) ACC(__tsan_unaligned_write8) ACC(__tsan_unaligned_write16)
ACC(__tsan_volatile_read1) ACC(__tsan_volatile_read2) ACC(__tsan_volatile_read4) ACC(__tsan_volatile_read8) ACC(__tsan_volatile_read16)
ACC(__tsan_volatile_write1) ACC(__tsan_volatile_write2) ACC(__tsan_volatile_write4) ACC(__tsan_volatile_write8) ACC(__tsan_volatile_write16)
ACC(__tsan_read_write1) ACC(__tsan_read_write2) ACC(__tsan_read_write4) ACC(__tsan_read_write8)
void __tsan_read_range(void *p, size_t n) { (void) n; access_(p); }
void __tsan_write_range(void *p, size_t n) { (void) n; access_(p); }
void __tsan_vptr_update(void **p, void *v) { (void) v; access_(p); }
void __tsan_vptr_read(void **p) { access_(p); }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_atomic_thread_fence(int o) { (void) o; vs_point(); }
void __tsan_atomic_signal_fence(int o) { (void) o; }
#define ATOM(b, T) \
T __tsan_atomic ## b ## _load(T *p, int o) { (void) o; access_((void *) p); return *p; } \
void __tsan_atomic ## b ## _store(T *p, T v, int o) { (void) o; access_((void *) p); *p = v; progress(); } \
T __tsan_atomic ## b ## _exchange(T *p, T v, int o) { T r; (void) o; access_((void *) p); r = *p; *p = v; return r; } \
T __tsan_atomic ## b ## _fetch_add(T *p, T v, int o) { T r; (void) o; access_((void *) p); r = *p; *p = (T) (r + v); return r; } \
T __tsan_atomic ## b ## _fetch_sub(T *p, T v, int o) { T r; (void) o; access_((void *) p); r = *p; *p = (T) (r - v); return r; } \
T __tsan_atomic ## b ## _fetch_and(T *p, T v, int o) { T r; (void) o; access_((void *) p); r = *p; *p = (T) (r & v); return r; } \
T __tsan_atomic ## b ## _fetch_or(T *p, T v, int o) { T r; (void) o; access_((void *) p); r = *p; *p = (T) (r | v); return r; } \
T __tsan_atomic ## b ## _fetch_xor(T *p, T v, int o) { T r; (void) o; access_((void *) p); r = *p; *p = (T) (r ^ v); return r; } \
int __tsan_atomic ## b ## _compare_exchange_strong(T *p, T *e, T v, int o, int f) \
{ (void) o; (void) f; access_((void *) p); if (*p == *e) { *p = v; return 1; } *e = *p; if (!vs_off) resched(1); return 0; } \
int __tsan_atomic ## b ## _compare_exchange_weak(T *p, T *e, T v, int o, int f) \
{ return __tsan_atomic ## b ## _compare_exchange_strong(p, e, v, o, f); } \
T __tsan_atomic ## b ## _compare_exchange_val(T *p, T e, T v, int o, int f) \
{ __tsan_atomic ## b ## _compare_exchange_strong(p, &e, v, o, f); return e; }
ATOM(8, unsigned char)
ATOM(16, unsigned short)
ATOM(32, unsigned)
ATOM(64, unsigned long)
