/*
 * Threads driver: performs the programs generated from Thr.tla with real
 * threads under a virtual scheduler (vs.c), and records every thread's
 * operations in the order in which they happen.
 *
 * A program begins with "sched STRATEGY SEED P1 P2", and perhaps "bar B N"
 * and "sem S N"; each other line is THREAD OP ARGS...
 *
 * Operations which cannot yield are single events, without any point at which
 * another thread may run; the others are a call ("c") and a return ("r").
 */
#define CPU_LIMIT 10
#define RUNNER_SWEEP
#include "base.h"
#include "ggggc/gc.h"
#include "osmem.h"
#include "vs.h"
#include <pthread.h>

#define MT 8    /* thread numbers */
#define NV 3    /* variables of a frame */
#define NJ 4    /* slots of a thread */
#define NG 3    /* globals */
#define MAXOPS 4000

#define TYPE(T, n) \
typedef struct { size_t w[n]; } T ## Pad; \
GGC_TYPE(T) \
    GGC_MPTR(T, a); \
    GGC_MPTR(T, b); \
    GGC_MDATA(size_t, id); \
    GGC_MDATA(size_t, fin); \
    GGC_MDATA(T ## Pad, pad); \
GGC_END_TYPE(T, GGC_PTR(T, a) GGC_PTR(T, b))
TYPE(T1, 1)
TYPE(T2, 3)
TYPE(T3, 8)
TYPE(T4, 20)
TYPE(T5, 55)
typedef T1 Node;
static const int padw[6] = {0, 1, 3, 8, 20, 55};

typedef void *vp;
GGC_PA_TYPE(vp)

struct op { char n[12]; int a[6], na; };
struct ctx {
    int id;
    struct op *ops; int nops, pc;
    Node *fr[64][NV]; int depth;
    Node *js[NJ];
#ifdef GGGGC_FEATURE_JITPSTACK
    void *jitmem[64];
#endif
    ggc_thread_t th;
    Node ret;
};
static struct ctx cx[MT + 1];
static __thread struct ctx *me;
static Node gl[NG];
static ggc_mutex_t mtx[4];
static ggc_sem_t sems[4];
static ggc_barrier_t bars[4];
static int nid, inCollect;

/********************************************************************** log */
static int tid(void) { return me ? me->id : 0; }
static void evBegin(const char *k, const struct op *o)
{
    int i;
    lputs("{\"t\":"); lnum(tid());
    lputs(",\"k\":\""); lputs(k);
    lputs("\",\"op\":[\""); lputs(o->n); lputs("\"");
    for (i = 0; i < o->na; i++) { lputs(","); lnum(o->a[i]); }
    lputs("]");
}
static void evEnd(void) { lputs("}\n"); lflush(); }
static void evCall(const struct op *o) { evBegin("c", o); evEnd(); }
static void evRet(const struct op *o, const char *k, long r)
{
    evBegin(k, o); lputs(",\"r\":"); lnum(r); evEnd();
}
static void ev(const char *n, long x)
{
    lputs("{\"t\":"); lnum(tid());
    lputs(",\"k\":\"e\",\"op\":[\""); lputs(n); lputs("\"],\"r\":"); lnum(x); evEnd();
}

/******************************************************************* objects */
#define IDW(id, t) (((size_t) 0x5A5A << 48) | ((size_t) (id) << 8) | (size_t) (t))
static long idOf(Node n)
{
    size_t w;
    if (!n) return 0;
    if (!os_inside(n, sizeof(*n))) return -999;
    w = GGC_RD(n, id);
    if ((w >> 48) != 0x5A5A) return -998;
    return (long) ((w >> 8) & 0xFFFFFF);
}
static int typeOf(Node n) { return (int) (GGC_RD(n, id) & 0xFF); }
static size_t *padOf(Node n) { return (size_t *) (&n->fin__data + 1); }
static int whole(Node n)
{
    int t = typeOf(n), i;
    size_t *p = padOf(n);
    for (i = 0; i < padw[t]; i++) if (p[i] != GGC_RD(n, id) * 31 + (size_t) i) return 0;
    return 1;
}
static Node newNode(int t)
{
    Node n = NULL;
    size_t *p, idw;
    int i;
    switch (t) {
        case 1: n = (Node) GGC_NEW(T1); break;
        case 2: n = (Node) GGC_NEW(T2); break;
        case 3: n = (Node) GGC_NEW(T3); break;
        case 4: n = (Node) GGC_NEW(T4); break;
        default: n = (Node) GGC_NEW(T5); break;
    }
    vs_off++;
    idw = IDW(++nid, t);
    p = padOf(n);
    if (GGC_RP(n, a) || GGC_RP(n, b) || GGC_RD(n, id) || GGC_RD(n, fin)) idw = 0;
    for (i = 0; i < padw[t]; i++) if (p[i]) idw = 0;   /* wasn't zeroed */
    GGC_WD(n, id, idw);
    for (i = 0; i < padw[t]; i++) p[i] = idw * 31 + (size_t) i;
    vs_off--;
    return n;
}
#ifdef GGGGC_FEATURE_FINALIZERS
static void finNode(void *o)
{
    Node n = (Node) o;
    vs_off++;
    ev("fin", os_inside(n, sizeof(*n)) && whole(n) ? idOf(n) : -997);
    vs_off--;
}
#endif
static void churn(int k, int n)
{
    size_t bytes = (size_t) GGGGC_POOL_BYTES * (size_t) n, done = 0;
    GGC_size_t_Array d = NULL;
    vpArray p = NULL;
    Node x = NULL;
    GGC_PUSH_3(d, p, x);
    while (done < bytes) {
        size_t w;
        switch (k) {
            case 0: w = 8; x = (Node) GGC_NEW(T1); break;
            case 1: w = GGGGC_WORDS_PER_POOL / 12; d = (GGC_size_t_Array) GGC_NEW_DA(size_t, w); break;
            default: w = GGGGC_WORDS_PER_POOL / 5; p = GGC_NEW_PA(vp, w); break;
        }
        done += w * sizeof(size_t);
    }
    return;
}

/* everything which this thread can see */
static Node seen[20000];
static int nseen;
static void see(Node n)
{
    int i;
    if (!n || idOf(n) < 0) return;
    for (i = nseen - 1; i >= 0; i--) if (seen[i] == n) return;
    if (nseen < 20000) seen[nseen++] = n;
}
static void obs(const struct op *o)
{
    int i, j;
    nseen = 0;
    evBegin("s", o);
    lputs(",\"r\":0,\"f\":[");
    for (i = 0; i < me->depth; i++) {
        lputs(i ? ",[" : "[");
        for (j = 0; j < NV; j++) { if (j) lputs(","); lnum(idOf(*me->fr[i][j])); see(*me->fr[i][j]); }
        lputs("]");
    }
    lputs("],\"j\":[");
    for (j = 0; j < NJ; j++) { if (j) lputs(","); lnum(idOf(*me->js[j])); see(*me->js[j]); }
    lputs("],\"g\":[");
    for (j = 0; j < NG; j++) { if (j) lputs(","); lnum(idOf(gl[j])); see(gl[j]); }
    lputs("],\"o\":[");
    for (i = 0; i < nseen; i++) {
        Node n = seen[i], x = GGC_RP(n, a), y = GGC_RP(n, b);
        if (i) lputs(",");
        lputs("["); lnum(idOf(n)); lputs(","); lnum(whole(n) ? typeOf(n) : -1); lputs(",");
        lnum(idOf(x)); lputs(","); lnum(idOf(y)); lputs("]");
        see(x);
        see(y);
    }
    lputs("]");
    evEnd();
}

/******************************************************************* threads */
GGC_TYPE(Box)
    GGC_MPTR(Node, n);
    GGC_MDATA(int, t);
GGC_END_TYPE(Box, GGC_PTR(Box, n))

static void runFrame(Node x, Node y, Node z);
static Node slots[MT + 1][NJ]; /* without JIT stacks */

static void threadMain(GGC_ThreadArg arg)
{
    Box b = (Box) arg;
    Node n = NULL;
    GGC_PUSH_2(b, n);
    me = &cx[GGC_RD(b, t)];
    n = GGC_RP(b, n);
    me->depth = 0;
#ifdef GGGGC_FEATURE_JITPSTACK
    {
        int i;
        memset(me->jitmem, 0, sizeof(me->jitmem));
        ggc_jitPointerStackEnd = (void **) me->jitmem + 64;
        /* under external tagging, a word of tags is below what it describes */
#ifdef GGGGC_FEATURE_EXTTAG
        me->jitmem[59] = (void *) (size_t) 0xFF02000204UL;
        ggc_jitPointerStack = (void **) me->jitmem + 59;
#else
        ggc_jitPointerStack = (void **) me->jitmem + 60;
#endif
        for (i = 0; i < NJ; i++) me->js[i] = (Node *) &me->jitmem[60 + i];
        runFrame(n, NULL, NULL);
        ggc_jitPointerStack = ggc_jitPointerStackEnd;
    }
#else
    {
        Node *s = slots[me->id];
        int i;
        s[0] = s[1] = s[2] = s[3] = NULL;
        for (i = 0; i < NJ; i++) me->js[i] = &s[i];
        GGC_PUSH_4(s[0], s[1], s[2], s[3]);
        runFrame(n, NULL, NULL);
        vs_off++; me->depth = 0; vs_off--;
        GGC_POP();
    }
#endif
    vs_off++; ev("exit", 0); vs_off--;
    return;
}

/* threads which only allocate a little */
static void stormMain(GGC_ThreadArg arg)
{
    Node x = NULL;
    GGC_PUSH_2(arg, x);
    x = newNode(2);
    nid--;
    return;
}

static int err;
static long run1(struct op *o);
#define V(k) (*me->fr[me->depth-1][(k)-1])
#define SIMPLE(c) do { vs_off++; { c } vs_off--; } while (0)

static void runFrame(Node x, Node y, Node z)
{
    int d;
    GGC_PUSH_3(x, y, z);
    vs_off++;
    d = me->depth++;
    me->fr[d][0] = &x; me->fr[d][1] = &y; me->fr[d][2] = &z;
    if (d) evRet(&me->ops[me->pc - 1], "r", 0);
    else ev("start", idOf(x));
    vs_off--;
    while (me->pc < me->nops) {
        struct op *o = &me->ops[me->pc++];
        if (!strcmp(o->n, "call")) {
            SIMPLE(evCall(o););
            vs_point();
            runFrame(V(1), V(2), V(3));
        } else if (!strcmp(o->n, "ret")) {
            if (d == 0) continue;
            SIMPLE(me->ret = V(o->a[0]); evRet(o, "s", idOf(me->ret)); me->depth--; V(o->a[1]) = me->ret;);
            return;
        } else run1(o);
    }
    /* return as far as possible */
    if (d) me->depth--;
    return;
}

static int is(const struct op *o, const char *n) { return !strcmp(o->n, n); }
static const char *simple[] = {"wp", "rp", "wn", "mv", "clr", "eq", "gset", "gget", "jset", "jget", "unlock", "trylock",
                               "post", "obs", "refuse", NULL};

static long run1(struct op *o)
{
    int i, r = 0;
    int *a = o->a;
    for (i = 0; simple[i] && !is(o, simple[i]); i++);
    if (simple[i]) {
        vs_point();
        vs_off++;
        if (is(o, "wp")) {
            Node p = V(a[0]), q = V(a[2]);
            if (!p) r = -1;
            else if (a[1] == 1) GGC_WP(p, a, q);
            else GGC_WP(p, b, q);
        } else if (is(o, "wn")) {
            Node p = V(a[0]), q = NULL;
            if (!p) r = -1;
            else if (a[1] == 1) GGC_WP(p, a, q);
            else GGC_WP(p, b, q);
        } else if (is(o, "rp")) {
            Node p = V(a[0]);
            if (!p) r = -1;
            else { p = a[1] == 1 ? (Node) GGC_RP(p, a) : (Node) GGC_RP(p, b); V(a[2]) = p; r = (int) idOf(p); }
        } else if (is(o, "mv")) V(a[0]) = V(a[1]);
        else if (is(o, "clr")) V(a[0]) = NULL;
        else if (is(o, "eq")) r = V(a[0]) == V(a[1]);
        else if (is(o, "gset")) gl[a[0]-1] = V(a[1]);
        else if (is(o, "gget")) { V(a[1]) = gl[a[0]-1]; r = (int) idOf(V(a[1])); }
        else if (is(o, "jset")) *me->js[a[0]-1] = V(a[1]);
        else if (is(o, "jget")) { V(a[1]) = *me->js[a[0]-1]; r = (int) idOf(V(a[1])); }
        else if (is(o, "trylock")) { r = ggc_mutex_trylock(&mtx[a[0]]); if (!r) ggc_mutex_unlock(&mtx[a[0]]); }
        if (is(o, "obs")) obs(o); else evRet(o, "s", r);
        if (is(o, "unlock")) { ggc_mutex_unlock(&mtx[a[0]]); }
        else if (is(o, "refuse")) { os_failAfter = a[0]; }
        else if (is(o, "post")) { ggc_sem_post(&sems[a[0]]); }
        vs_off--;
        vs_point();
        return r;
    }
    SIMPLE(evCall(o););
    vs_point();
    err = 0;
    if (is(o, "new")) {
        Node n = newNode(a[1]);
        V(a[0]) = n;
        r = (int) idOf(n);
    } else if (is(o, "chain")) {
        Node n = NULL;
        static int ids[MT + 1][64];
        GGC_PUSH_1(n);
        for (i = 0; i < a[1] && i < 64; i++) {
            Node old;
            n = newNode(1 + i % 3);
            vs_off++;
            old = V(a[0]);
            GGC_WP(n, a, old);
            V(a[0]) = n;
            ids[me->id][i] = (int) idOf(n);
            vs_off--;
        }
        vs_off++;
        evBegin("r", o);
        lputs(",\"r\":0,\"ids\":[");
        for (i = 0; i < a[1] && i < 64; i++) { if (i) lputs(","); lnum(ids[me->id][i]); }
        lputs("]");
        evEnd();
        vs_off--;
        return 0;
    } else if (is(o, "churn")) churn(a[0], a[1]);
    else if (is(o, "collect")) GGC_COLLECT();
    else if (is(o, "yield")) GGC_YIELD();
    else if (is(o, "lock")) r = ggc_mutex_lock(&mtx[a[0]]);
    else if (is(o, "wait")) r = ggc_sem_wait(&sems[a[0]]);
    /* what the user may do with blocking functions of other libraries */
    else if (is(o, "bwait")) { ggc_pre_blocking(); sem_wait(&sems[a[0]]); ggc_post_blocking(); }
    else if (is(o, "nap")) { ggc_pre_blocking(); for (i = 0; i < a[0]; i++) vs_point(); ggc_post_blocking(); }
    else if (is(o, "bar")) r = ggc_barrier_wait(&bars[a[0]]);
    else if (is(o, "create")) {
        Box b = NULL;
        Node n;
        int k = a[0];
        GGC_PUSH_1(b);
        b = GGC_NEW(Box);
        n = V(a[1]);
        vs_off++;
        GGC_WP(b, n, n);
        GGC_WD(b, t, k);
        vs_off--;
        r = ggc_thread_create(&cx[a[0]].th, threadMain, (GGC_ThreadArg) b);
        GGC_POP();
    } else if (is(o, "join")) r = ggc_thread_join(cx[a[0]].th);
    /* failures: of the system's primitive, with the given error */
    else if (is(o, "xlock")) { vs_fail(VS_LOCK, &mtx[3], a[1]); r = ggc_mutex_lock(&mtx[3]); if (r) err = errno; vs_fail(0, NULL, 0); }
    else if (is(o, "xwait")) { vs_fail(VS_SEM, &sems[3], a[1]); r = ggc_sem_wait(&sems[3]); if (r) err = errno; vs_fail(0, NULL, 0); }
#if !_POSIX_BARRIERS
    else if (is(o, "xbar")) { r = -1; err = a[1]; }     /* it has no failures */
#endif
    else if (is(o, "xbar")) { vs_fail(VS_BAR, &bars[3], a[1]); r = ggc_barrier_wait(&bars[3]); if (r) err = errno; vs_fail(0, NULL, 0); }
    else if (is(o, "xjoin")) { vs_fail(VS_JOIN, NULL, a[1]); r = ggc_thread_join(cx[0].th); if (r) err = errno; vs_fail(0, NULL, 0); }
    else if (is(o, "xcreate")) {
        Box b = NULL;
        ggc_thread_t t;
        GGC_PUSH_1(b);
        b = GGC_NEW(Box);
        vs_fail(VS_CREATE, NULL, a[0]);
        r = ggc_thread_create(&t, threadMain, (GGC_ThreadArg) b);
        if (r) err = errno;
        vs_fail(0, NULL, 0);
        GGC_POP();
    } else if (is(o, "storm")) {
        Node n = NULL;
        GGC_PUSH_1(n);
        for (i = 0; i < a[0]; i++) {
            ggc_thread_t t;
            n = (Node) GGC_NEW(T1);
            if (ggc_thread_create(&t, stormMain, (GGC_ThreadArg) n)) { r = -2; break; }
            if (ggc_thread_join(t)) { r = -3; break; }
        }
        if (!r) r = (int) os_pools;
        GGC_POP();
    }
#ifdef GGGGC_FEATURE_FINALIZERS
    else if (is(o, "fin")) {
        Node n = V(a[0]);
        if (!n || GGC_RD(n, fin)) r = -1;
        else { r = (int) idOf(n); i = 1; GGC_WD(n, fin, i); GGC_FINALIZE(n, finNode); }
    }
#endif
    else { fprintf(stderr, "ht: unknown op %s\n", o->n); _exit(97); }
    vs_off++;
    evBegin("r", o);
    lputs(",\"r\":"); lnum(r);
    lputs(",\"err\":"); lnum(err);
    evEnd();
    vs_off--;
    vs_point();
    return r;
}

static void stuckNow(int livelock)
{
    ev(livelock ? "livelock" : "deadlock", vs_steps);
    _exit(0);
}


#ifdef __cplusplus
extern "C"
#endif
void ggggc_verif_collect(int begin)
{
    vs_off++;
    ev(begin ? "cb" : "ce", 0);
    vs_off--;
    vs_point();
}

static void runScript(void)
{
    int semv[4] = {0}, barv[4] = {1, 1, 1, 1};
    int i, strat = 0, p1 = 3, p2 = 0;
    unsigned long seed = 1;
    struct op *ops;
    const char *l;
    for (i = 0; i <= MT; i++) { cx[i].id = i; }
    (void) strat; (void) p1; (void) p2; (void) seed;
    GGC_PUSH_3(gl[0], gl[1], gl[2]);
    GGC_GLOBALIZE();
    ops = (struct op *) calloc((size_t) nlines + 1, sizeof(struct op));
    for (i = 0; i < 4; i++) {
        ggc_mutex_t m = GGC_MUTEX_INITIALIZER;
        mtx[i] = m;
        ggc_sem_init(&sems[i], 0);
        ggc_barrier_init(&bars[i], 1);
    }
    /* the programs of the threads */
    for (i = 1; i <= MT; i++) {
        int k;
        cx[i].ops = ops;
        for (k = 0; k < nlines; k++) {
            char n[16];
            int t, used = 0;
            l = lines[k];
            if (sscanf(l, "%d %11s%n", &t, n, &used) == 2 && t == i) {
                struct op *o = ops++;
                char *e;
                strcpy(o->n, n);
                for (l += used; *l && o->na < 6; l = e) {
                    o->a[o->na] = (int) strtol(l, &e, 10);
                    if (e == l) break;
                    o->na++;
                }
                cx[i].nops++;
            }
        }
    }
    for (i = 0; i < nlines; i++) {
        int x, y;
        l = lines[i];
        if (sscanf(l, "sched %d %lu %d %d", &strat, &seed, &p1, &p2) == 4) continue;
        if (!strncmp(l, "sweep", 5)) {
            strat = 4;
            for (x = 0; x < sw->n; x++) { vs_preStep[x] = sw->step[x]; vs_preChoice[x] = sw->choice[x]; }
            vs_npre = sw->n;
            vs_alt = sw->alt;
            vs_maxAlt = SWEEP_POINTS;
            vs_shared = &sw->steps;
            continue;
        }
        /* "preempt STEP CHOICE...": one schedule of a sweep */
        if (!strncmp(l, "preempt", 7)) {
            char *e;
            strat = 4;
            for (l += 7; vs_npre < 4; l = e) {
                long q = strtol(l, &e, 10);
                if (e == l) break;
                vs_preStep[vs_npre] = q;
                vs_preChoice[vs_npre++] = (int) strtol(e, &e, 10);
            }
            continue;
        }
        if (sscanf(l, "sem %d %d", &x, &y) == 2) { ggc_sem_init(&sems[x], y); semv[x] = y; continue; }
        if (sscanf(l, "bar %d %d", &x, &y) == 2) { ggc_barrier_destroy(&bars[x]); ggc_barrier_init(&bars[x], y); barv[x] = y; }
    }
    lputs("{\"op\":[\"begin\"],\"sem\":[");
    for (i = 0; i < 4; i++) { if (i) lputs(","); lnum(semv[i]); }
    lputs("],\"bar\":[");
    for (i = 0; i < 4; i++) { if (i) lputs(","); lnum(barv[i]); }
    lputs("]");
    evEnd();
    vs_stuck = stuckNow;
    os_point = vs_point;
    vs_init(strat, seed, p1, p2);
    {
        Box b = NULL;
        Node n = NULL;
        GGC_PUSH_2(b, n);
        b = GGC_NEW(Box);
        i = 1;
        GGC_WD(b, t, i);
        threadMain((GGC_ThreadArg) b);
        GGC_POP();
    }
    fprintf(stderr, "steps %ld switches %ld\n", vs_steps, vs_switches);
    return;
}
