#define _GNU_SOURCE
#include "osmem.h"
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#ifndef GGGGC_POOL_SIZE
#define GGGGC_POOL_SIZE 24
#endif
#define POOLB ((size_t)1 << GGGGC_POOL_SIZE)
#ifdef __cplusplus
extern "C" {
#endif
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int madvise(void *, size_t, int);
long os_pools, os_poolsPeak, os_poolsEver, os_failAfter = -1, os_failAbove, os_refused;
#define MAXR 65536
static struct { uintptr_t lo, hi; int live; } rg[MAXR];
static int nrg;
static int lk;
static void lock(void) { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) ; }
static void unlock(void) { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }

int os_inside(const void *p, size_t n)
{
    uintptr_t a = (uintptr_t) p;
    int i;
    for (i = nrg - 1; i >= 0; i--)
        if (rg[i].live && a >= rg[i].lo && a + n <= rg[i].hi) return 1;
    return 0;
}

static int refuse(size_t n)
{
    if (os_failAbove && n <= (size_t) os_failAbove * POOLB) return 0;
    if (os_failAfter < 0) return 0;
    if (os_failAfter == 0) { os_refused++; return 1; }
    os_failAfter--;
    return 0;
}

static size_t ownBytes;
static void count(long by)
{
    ownBytes += (size_t) by;
    os_pools = (long) (ownBytes / POOLB);
    if (os_pools > os_poolsPeak) os_poolsPeak = os_pools;
}

/* what happened, for the log */
struct os_event os_events[OS_EVENTS];
int os_nevents;
static char *origin;
long os_coord(const void *p) { return (long) (((intptr_t) p - (intptr_t) origin + ((intptr_t) 1 << 50)) / 16 - ((intptr_t) 1 << 46)); }
static void event(int kind, const void *lo, const void *hi)
{
    if (os_nevents >= OS_EVENTS) return;
    os_events[os_nevents].kind = kind;
    os_events[os_nevents].lo = kind == OS_REFUSE ? 0 : os_coord(lo);
    os_events[os_nevents].hi = kind == OS_REFUSE ? 0 : os_coord((const char *) hi + 15);
    os_nevents++;
}

static void own(char *r, size_t n)
{
    lock();
    if (!origin) origin = (char *) ((uintptr_t) r & ~(uintptr_t) 0xFFFF);
    if (nrg < MAXR) {
        rg[nrg].lo = (uintptr_t) r; rg[nrg].hi = (uintptr_t) r + n;
        rg[nrg].live = 1;
        nrg++;
    }
    os_poolsEver += (long) (n / POOLB);
    count((long) n);
    event(OS_OBTAIN, r, r + n);
    unlock();
}
static void *obtainAt(size_t align, size_t off, size_t n)
{
    size_t pg = 4096, span, fill;
    char *m, *r;
    if (refuse(n)) { lock(); event(OS_REFUSE, NULL, NULL); unlock(); return NULL; }
    if (align < pg) align = pg;
    if (!(off & (pg - 1))) n = (n + pg - 1) & ~(pg - 1);
    span = n + align + off + 3 * pg;
    m = (char *) __real_mmap(NULL, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return NULL;
    r = (char *) (((uintptr_t) m + pg + align - 1) & ~(uintptr_t) (align - 1)) + off;
    {
        uintptr_t l = (uintptr_t) r & ~(pg - 1), h = ((uintptr_t) r + n + pg - 1) & ~(pg - 1);
        if (mprotect((void *) l, h - l, PROT_READ | PROT_WRITE)) { __real_munmap(m, span); return NULL; }
    }
    fill = n > (1 << 20) ? (1 << 18) : n;
    memset(r, 0xA5, fill);
    own(r, n);
    return r;
}
static void *obtain(size_t align, size_t n) { return obtainAt(align, 0, n); }

/* no longer own the live parts of a range. Keep the addresses, but make them
 * inaccessible */
static void drop(uintptr_t lo, uintptr_t hi)
{
    int i, n = nrg;
    for (i = 0; i < n; i++) {
        uintptr_t l, h;
        if (!rg[i].live || rg[i].hi <= lo || rg[i].lo >= hi) continue;
        l = rg[i].lo > lo ? rg[i].lo : lo;
        h = rg[i].hi < hi ? rg[i].hi : hi;
        count(-(long) (h - l));
        if (h < rg[i].hi && nrg < MAXR) {
            rg[nrg].lo = h; rg[nrg].hi = rg[i].hi; rg[nrg].live = 1;
            nrg++;
        }
        rg[i].hi = l;
        if (rg[i].lo == rg[i].hi) rg[i].live = 0;
        l = (l + 4095) & ~(uintptr_t) 4095;
        h &= ~(uintptr_t) 4095;
        if (l < h) {
            mprotect((void *) l, h - l, PROT_NONE);
            madvise((void *) l, h - l, 4 /* MADV_DONTNEED */);
        }
    }
}

static int giveBack(void *p)
{
    int i;
    lock();
    for (i = nrg - 1; i >= 0; i--) {
        if (rg[i].live && rg[i].lo == (uintptr_t) p) {
            event(OS_RETURN, p, (void *) rg[i].hi);
            drop(rg[i].lo, rg[i].hi);
            unlock();
            return 1;
        }
    }
    unlock();
    return 0;
}

/* mappings: at any page */
void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o)
{
    static unsigned k;
    size_t pages = POOLB / 4096;
    void *r;
    (void) a; (void) prot; (void) flags; (void) fd; (void) o;
    k += 7;
    r = obtainAt(POOLB, (pages ? (k % 5 == 0 ? 0 : k % pages) : 0) * 4096, n);
    if (!r) { errno = ENOMEM; return MAP_FAILED; }
    return r;
}
int __wrap_munmap(void *p, size_t n)
{
    if (((uintptr_t) p & 4095) || !n) { errno = EINVAL; return -1; }
    n = (n + 4095) & ~(size_t) 4095;
    lock();
    event(OS_RETURN, p, (char *) p + n);
    drop((uintptr_t) p, (uintptr_t) p + n);
    unlock();
    return 0;
}

/* the program break, which others move too */
void (*os_point)(void);
void *__wrap_sbrk(intptr_t by)
{
    static char *base, *cur, *top;
    static int moved;
    static unsigned k;
    char *r;
    size_t arena = (size_t) 1 << 29;
    if (os_point) os_point();
    if (!base) {
        base = (char *) __real_mmap(NULL, arena, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) { base = NULL; errno = ENOMEM; return (void *) -1; }
        cur = base + 0x1a30;
        top = base + arena;
    }
    if (by == 0) {
        if (moved) {
            moved = 0;
            k = k * 1103515245 + 12345;
            if ((k >> 16) % 3 == 0) cur += ((k >> 8) % (2 * POOLB)) & ~(size_t) 15;
        }
        return cur;
    }
    if (by < 0) {
        cur += by;
        lock();
        event(OS_RETURN, cur, cur - by);
        drop((uintptr_t) cur, (uintptr_t) (cur - by));
        unlock();
        return cur - by;
    }
    if (refuse((size_t) by) || by > top - cur) {
        lock(); event(OS_REFUSE, NULL, NULL); unlock();
        errno = ENOMEM;
        return (void *) -1;
    }
    r = cur;
    cur += by;
    {
        char *l = (char *) ((uintptr_t) r & ~(uintptr_t) 4095);
        char *h = (char *) (((uintptr_t) cur + 4095) & ~(uintptr_t) 4095);
        mprotect(l, (size_t) (h - l), PROT_READ | PROT_WRITE);
        memset(r, 0xA5, by > (1 << 20) ? (1 << 18) : (size_t) by);
    }
    own(r, (size_t) by);
    if (by >= (intptr_t) POOLB) moved = 1;
    else if ((k = k * 1103515245 + 12345, (k >> 16) % 4 == 0)) cur += ((k >> 8) % (2 * POOLB)) & ~(size_t) 15;
    return r;
}

int __wrap_posix_memalign(void **out, size_t align, size_t n)
{
    void *r = obtain(align, n);
    if (!r) return ENOMEM;
    *out = r;
    return 0;
}

void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n)
{
    if (n >= POOLB && n <= 16 * POOLB && n % POOLB == 0) {
        static unsigned k;
        void *r = obtainAt(4096, (k += 3) % 4 * 1040, n);
        if (!r) errno = ENOMEM;
        return r;
    }
    return __real_malloc(n);
}
void __real_free(void *p);
void __wrap_free(void *p)
{
    if (p && giveBack(p)) return;
    __real_free(p);
}
#ifdef __cplusplus
}
#endif
