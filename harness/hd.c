/*
 * Heap driver: performs the programs generated from Heap.tla on the real
 * library, and records what they observe. One process per program, so that a
 * crash or hang is itself an observation ("crash", "hang": operations which the
 * specification does not have).
 *
 *   hd SCRIPTS OUT
 *
 * SCRIPTS has one operation per line ("S n" begins a program, "E" ends it).
 * OUT gets one JSON object per operation, and the line "S n" before each
 * program.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <alloca.h>
#include <fcntl.h>
#include "ggggc/gc.h"
#include "osmem.h"

#if !defined(__cplusplus) && defined(__GNUC__) && !defined(__clang__)
#define HAVE_PUSH_N 1
#endif
#if defined(__clang__) && !defined(__cplusplus)
#define HAVE_PUSH_N 1
#endif
#ifdef NO_PUSH_N
#undef HAVE_PUSH_N
#endif

/* number of words in a header, and an object's words */
#define HDR (sizeof(struct GGGGC_Header) / sizeof(size_t))
#define W(p, i) (((size_t *) (p))[i])
#define MAGIC ((size_t) 0x5A5A)
#define IDW(id, t) ((MAGIC << 48) | ((size_t) (id) << 8) | (size_t) (t))
#define BAD (-999)

enum { TLeaf = 1, TOne, TPair, TMixed, TBig, TData, TPA = 10, TDA, TCA, TDD, TDesc, TDyn, TBlob, TDS = 18 };
#define DESC_BASE 40
#define DESC_STEP 2

typedef void *vp;
typedef struct { size_t w[20]; } W20;
typedef struct { size_t w[17]; } W17;
typedef struct { size_t w[12]; } W12;
typedef struct { int v[3]; } S12;
GGC_DA_TYPE(S12)

GGC_TYPE(Leaf)
    GGC_MDATA(size_t, id);
GGC_END_TYPE(Leaf, GGC_NO_PTRS)

GGC_TYPE(One)
    GGC_MDATA(size_t, id);
    GGC_MPTR(vp, a);
GGC_END_TYPE(One, GGC_PTR(One, a))

GGC_TYPE(Pair)
    GGC_MDATA(size_t, id);
    GGC_MPTR(vp, a);
    GGC_MDATA(size_t, x);
    GGC_MPTR(vp, b);
GGC_END_TYPE(Pair, GGC_PTR(Pair, a) GGC_PTR(Pair, b))

GGC_TYPE(Mixed)
    GGC_MDATA(size_t, id);
    GGC_MPTR(vp, a);
    GGC_MDATA(char, c);
    GGC_MPTR(vp, b);
    GGC_MDATA(short, s);
    GGC_MDATA(double, f);
    GGC_MPTR(vp, e);
GGC_END_TYPE(Mixed, GGC_PTR(Mixed, a) GGC_PTR(Mixed, b) GGC_PTR(Mixed, e))

/* more words than a description word has bits: the last pointer is the last
 * word which can be described (with a two-word header), and data follows */
GGC_TYPE(Big)
    GGC_MDATA(size_t, id);
    GGC_MDATA(W20, d1);
    GGC_MPTR(vp, a);
    GGC_MPTR(vp, b);
    GGC_MDATA(W20, d2);
    GGC_MPTR(vp, c);
    GGC_MDATA(W17, d3);
    GGC_MPTR(vp, e);
    GGC_MDATA(W12, d4);
GGC_END_TYPE(Big, GGC_PTR(Big, a) GGC_PTR(Big, b) GGC_PTR(Big, c) GGC_PTR(Big, e))

GGC_TYPE(Data)
    GGC_MDATA(size_t, id);
    GGC_MDATA(char, c);
    GGC_MDATA(short, s);
    GGC_MDATA(float, f);
    GGC_MDATA(size_t, x);
GGC_END_TYPE(Data, GGC_NO_PTRS)

/* parts of large structures */
GGC_TYPE(BNode)
    GGC_MDATA(size_t, v);
    /* searched last to first: the others wait while a list is followed */
    GGC_MPTR(vp, aux);
    GGC_MPTR(BNode, next);
    GGC_MPTR(vp, ext);
GGC_END_TYPE(BNode, GGC_PTR(BNode, next) GGC_PTR(BNode, aux) GGC_PTR(BNode, ext))
GGC_TYPE(Blob)
    GGC_MDATA(size_t, id);
    GGC_MDATA(size_t, n);
    GGC_MDATA(size_t, kind);
    GGC_MDATA(size_t, last);
    GGC_MPTR(vp, first);
GGC_END_TYPE(Blob, GGC_PTR(Blob, first))

/*********************************************************************** log */
static int outFd;
static char lbuf[1 << 20];
static size_t lpos;
static void lflush(void)
{
    size_t o = 0;
    while (o < lpos) {
        ssize_t w = write(outFd, lbuf + o, lpos - o);
        if (w <= 0) _exit(98);
        o += (size_t) w;
    }
    lpos = 0;
}
static void lputs(const char *s)
{
    size_t n = strlen(s);
    if (lpos + n + 1 > sizeof(lbuf)) lflush();
    memcpy(lbuf + lpos, s, n);
    lpos += n;
}
static void lnum(long v)
{
    char b[32];
    sprintf(b, "%ld", v);
    lputs(b);
}

/* finalizer runs during the current operation */
static char *fbuf; static size_t fpos, fcap;

/************************************************************ the collector's */
static volatile long collections;
static int corrupted; /* a guard word was overwritten */
#ifdef __cplusplus
extern "C"
#endif
void ggggc_verif_collect(int begin) { if (begin) collections++; }

/******************************************************************** values */
/* data words: small numbers, but stored as words which look like anything */
static size_t dtab[16];
static size_t imms[64];
static void initValues(void)
{
    Leaf l = NULL;
    int i;
    size_t a;
    GGC_PUSH_1(l);
    l = GGC_NEW(Leaf);
    a = (size_t) (void *) l;
    dtab[0] = 0; dtab[1] = 1; dtab[2] = ~(size_t) 0; dtab[3] = a; dtab[4] = a + 8; dtab[5] = a | 1;
    dtab[6] = a | 2; dtab[7] = (size_t) (void *) &l; dtab[8] = 8; dtab[9] = 0x0DEFACED; dtab[10] = a & ~(size_t) 0xFFF;
    dtab[11] = a + 4096; dtab[12] = 0x7FFFFFFFFFFFFFF8; dtab[13] = 3; dtab[14] = a + 64; dtab[15] = a | 7;
    for (i = 1; i < 64; i++) {
        size_t b;
        switch (i & 3) {
            case 0: b = (size_t) i << 3; break;
            case 1: b = a + 8 * (size_t) i; break;
            case 2: b = ~(size_t) 0 - 16 * (size_t) i; break;
            default: b = (size_t) 0x123456700 + 16 * (size_t) i; break;
        }
        imms[i] = (b & ~(size_t) 7) | (size_t) (1 + i % 7);
    }
    GGC_POP();
}
static long dval(size_t w)
{
    int i;
    for (i = 0; i < 16; i++) if (dtab[i] == w) return i;
    return BAD;
}
static long immval(size_t w)
{
    int i;
    for (i = 1; i < 64; i++) if (imms[i] == w) return -(long) i;
    return BAD;
}

/********************************************************************* types */
/* the words of run-time types */
#define MAXD 512
#define MAXSIZE 599
static struct { int size, plain; int exp[4]; unsigned char ptr[MAXSIZE + 1]; } dinfo[MAXD];
static int ofSize[MAXSIZE + 1];

static void layout(int id, int pat, int x)
{
    static const int edges[] = {64, 65, 66, 72, 73, 127, 128, 129, 130, 192, 193, 256, 257};
    int size = x % 2 ? edges[x / 2 % 13] : DESC_BASE + DESC_STEP * id, i, n, first = HDR + 1;
    unsigned r = (unsigned) (id * 977 + x * 131 + 7);
    /* types have different sizes, by which they're known */
    while (size < MAXSIZE && ofSize[size]) size++;
    ofSize[size] = id + 1;
    dinfo[id].size = size;
    memset(dinfo[id].ptr, 0, sizeof(dinfo[id].ptr));
    n = size - first; /* candidates: words first..size-1 */
    switch (pat) {
        case 0: for (i = 0; i < 4; i++) dinfo[id].exp[i] = first + i; break;
        case 1: for (i = 0; i < 4; i++) dinfo[id].exp[i] = size - 4 + i; break;
        case 2:
            if (size > 66) for (i = 0; i < 4; i++) dinfo[id].exp[i] = 62 + i;
            else for (i = 0; i < 4; i++) dinfo[id].exp[i] = first + 3 * i;
            break;
        default:
            for (i = 0; i < 4; i++) dinfo[id].exp[i] = first + (n / 4) * i + (x % (n / 4));
    }
    dinfo[id].plain = pat >= 6;
    if (pat >= 6) return;
    for (i = 0; i < 4; i++) dinfo[id].ptr[dinfo[id].exp[i]] = 1;
    for (i = first; i < size; i++) {
        if (pat == 3 && i % 2 == 0) dinfo[id].ptr[i] |= 2;
        if (pat == 4) dinfo[id].ptr[i] |= 2;
        r = r * 1103515245u + 12345u;
        if (pat == 5 && ((r >> 16) & 3) == 0) dinfo[id].ptr[i] |= 2;
    }
    for (i = 0; i < 4; i++) dinfo[id].ptr[dinfo[id].exp[i]] = 1;
}

static size_t objWords(void *p)
{
    return ((struct GGGGC_Header *) p)->descriptor__ptr->size;
}

/* what kind of object is this? */
static int typeOf(void *p, long *id)
{
    size_t w = W(p, HDR), e;
    *id = BAD;
    if ((w >> 48) == MAGIC) { *id = (long) ((w >> 8) & 0xFFFFFF); return (int) (w & 0xFF); }
    if (w > 0 && w < ((size_t) 1 << 40)) {
        /* an array begins with its identity, or a reference to it (which only it has) */
        e = W(p, HDR + 1);
        if ((e >> 48) == MAGIC) { *id = (long) ((e >> 8) & 0xFFFFFF); return (int) (e & 0xFF); }
        if (e && !(e & 7) && os_inside((void *) e, (HDR + 1) * sizeof(size_t))) {
            e = W((void *) e, HDR);
            if ((e >> 48) == MAGIC && (e & 0xFF) == TPA) { *id = (long) ((e >> 8) & 0xFFFFFF); return TPA; }
        }
    }
    if (w <= MAXSIZE && ofSize[w]) {
        *id = ofSize[w] - 1;
        return TDesc;
    }
    return 0;
}
static long idOf(void *p)
{
    long id;
    if (!p) return 0;
    if ((size_t) p & 7) return immval((size_t) p);
    if (!typeOf(p, &id)) return BAD;
    return id;
}

/* a large structure's data: numbered nodes, listed or in arrays (bit 0 of its
 * kind), made with garbage in between (bit 1); each time that it is thinned (4),
 * every other node goes, but not the last one */
static BNode blobLast(Blob b)
{
    BNode n;
    if (GGC_RD(b, kind) % 2 == 0) {
        n = (BNode) GGC_RP(b, first);
        while (GGC_RP(n, next)) n = GGC_RP(n, next);
        return n;
    } else {
        GGC_voidpArray top = (GGC_voidpArray) GGC_RP(b, first), sub;
        sub = (GGC_voidpArray) GGC_RAP(top, GGC_LENGTH(top) - 1);
        return (BNode) GGC_RAP(sub, GGC_LENGTH(sub) - 1);
    }
}
static int blobNodeOk(Blob b, BNode n, long id, size_t i)
{
    Leaf l;
    size_t stride = (size_t) 1 << (GGC_RD(b, kind) / 4);
    size_t v = (size_t) id * 100003 + GGC_RD(b, last) - (GGC_RD(b, n) - 1 - i) * stride;
    if (GGC_RD(n, v) != v) return 0;
    l = (Leaf) GGC_RP(n, aux);
    return l && GGC_RD(l, id) == v;
}
static int blobOk(Blob b, long id)
{
    size_t i = 0, n = GGC_RD(b, n);
    if (GGC_RD(b, kind) % 2 == 0) {
        BNode c;
        for (c = (BNode) GGC_RP(b, first); c; c = GGC_RP(c, next), i++) {
            if (i >= n || !blobNodeOk(b, c, id, i)) return 0;
            if (GGC_RP(c, next) && GGC_RP(c, ext)) return 0;
        }
    } else {
        GGC_voidpArray top = (GGC_voidpArray) GGC_RP(b, first), sub;
        size_t j, k;
        for (j = 0; j < GGC_LENGTH(top); j++) {
            sub = (GGC_voidpArray) GGC_RAP(top, j);
            for (k = 0; k < GGC_LENGTH(sub); k++) {
                BNode c = (BNode) GGC_RAP(sub, k);
                if (!c) continue;
                if (!blobNodeOk(b, c, id, i) || GGC_RP(c, next)) return 0;
                if (i < n - 1 && GGC_RP(c, ext)) return 0;
                i++;
            }
        }
    }
    return i == n;
}
static void thinBlob(Blob b)
{
    size_t n = GGC_RD(b, n), i = 0, v;
    if (GGC_RD(b, kind) % 2 == 0) {
        BNode c = (BNode) GGC_RP(b, first), d;
        if (n % 2 == 0) { c = GGC_RP(c, next); GGC_WP(b, first, c); }
        /* c stays; so does the one after the next */
        while ((d = GGC_RP(c, next))) {
            d = GGC_RP(d, next);
            GGC_WP(c, next, d);
            c = d;
        }
    } else {
        GGC_voidpArray top = (GGC_voidpArray) GGC_RP(b, first), sub;
        size_t j, k;
        for (j = 0; j < GGC_LENGTH(top); j++) {
            sub = (GGC_voidpArray) GGC_RAP(top, j);
            for (k = 0; k < GGC_LENGTH(sub); k++) {
                BNode c = (BNode) GGC_RAP(sub, k);
                if (!c) continue;
                if ((n - 1 - i) % 2) { void *none = NULL; GGC_WAP(sub, k, none); }
                i++;
            }
        }
    }
    v = GGC_RD(b, kind) + 4;
    GGC_WD(b, kind, v);
    v = (n + 1) / 2;
    GGC_WD(b, n, v);
}
static void makeBlob(void **slot, int kind, size_t n, long id)
{
    Blob b = NULL;
    BNode c = NULL, l = NULL;
    Leaf x = NULL;
    GGC_voidpArray top = NULL, sub = NULL;
    size_t i, v;
    GGC_PUSH_6(b, c, l, x, top, sub);
    b = GGC_NEW(Blob);
    v = IDW(id, TBlob);
    GGC_WD(b, id, v);
    GGC_WD(b, n, n);
    v = (size_t) kind;
    GGC_WD(b, kind, v);
    v = n - 1;
    GGC_WD(b, last, v);
    if (kind % 2) {
        top = GGC_NEW_PA(GGC_voidp, (n + 99) / 100);
        GGC_WP(b, first, top);
    }
    for (i = 0; i < n; i++) {
        c = GGC_NEW(BNode);
        v = (size_t) id * 100003 + i;
        GGC_WD(c, v, v);
        x = GGC_NEW(Leaf);
        GGC_WD(x, id, v);
        GGC_WP(c, aux, x);
        if (kind / 2) {
            /* garbage of many sizes */
            if (i % 3 == 2) GGC_NEW(Mixed);
            else if (i % 5 < 3) GGC_NEW_DA(size_t, i * 7 % 5);
        }
        if (kind % 2 == 0) {
            if (l) GGC_WP(l, next, c); else GGC_WP(b, first, c);
            l = c;
        } else {
            if (i % 100 == 0) {
                size_t m = n - i < 100 ? n - i : 100;
                sub = GGC_NEW_PA(GGC_voidp, m);
                GGC_WAP(top, i / 100, sub);
            }
            GGC_WAP(sub, i % 100, c);
        }
    }
    *slot = b;
    GGC_POP();
}

/**************************************************************** references */
/* the reference members of an object, in the specification's order */
static int nRefs(void *p, int t)
{
    switch (t) {
        case TOne: return 1;
        case TPair: return 2;
        case TMixed: return 3;
        case TBig: return 4;
        case TPA: return (int) GGC_LENGTH((GGC_voidpArray) p) - 1;
        case TDesc: return 1;
        case TDyn: return dinfo[ofSize[objWords(p)] - 1].plain ? 1 : 5;
        case TBlob: return 1;
        default: return 0;
    }
}
static void *getRef(void *p, int t, int m)
{
    switch (t) {
        case TOne: { One o = (One) p; return GGC_RP(o, a); }
        case TPair: { Pair o = (Pair) p; return m == 1 ? GGC_RP(o, a) : GGC_RP(o, b); }
        case TMixed: { Mixed o = (Mixed) p; return m == 1 ? GGC_RP(o, a) : m == 2 ? GGC_RP(o, b) : GGC_RP(o, e); }
        case TBig: { Big o = (Big) p; return m == 1 ? GGC_RP(o, a) : m == 2 ? GGC_RP(o, b) : m == 3 ? GGC_RP(o, c) : GGC_RP(o, e); }
        case TPA: { GGC_voidpArray o = (GGC_voidpArray) p; return GGC_RAP(o, m); }
        case TDesc: return ((struct GGGGC_Descriptor *) p)->user__ptr;
        case TDyn:
            if (m == 1) return ((struct GGGGC_Header *) p)->descriptor__ptr;
            else {
                GGC_voidpArray o = (GGC_voidpArray) p;
                int w = dinfo[ofSize[objWords(p)] - 1].exp[m - 2];
                return GGC_RAP(o, w - (int) HDR - 1);
            }
        case TBlob: { BNode n = blobLast((Blob) p); return GGC_RP(n, ext); }
        default: return NULL;
    }
}
static void setRef(void *p, int t, int m, void *v)
{
    switch (t) {
        case TOne: { One o = (One) p; GGC_WP(o, a, v); break; }
        case TPair: { Pair o = (Pair) p; if (m == 1) GGC_WP(o, a, v); else GGC_WP(o, b, v); break; }
        case TMixed: { Mixed o = (Mixed) p; if (m == 1) GGC_WP(o, a, v); else if (m == 2) GGC_WP(o, b, v); else GGC_WP(o, e, v); break; }
        case TBig: { Big o = (Big) p; if (m == 1) GGC_WP(o, a, v); else if (m == 2) GGC_WP(o, b, v); else if (m == 3) GGC_WP(o, c, v); else GGC_WP(o, e, v); break; }
        case TPA: { GGC_voidpArray o = (GGC_voidpArray) p; GGC_WAP(o, m, v); break; }
        case TDyn: {
            GGC_voidpArray o = (GGC_voidpArray) p;
            int w = dinfo[ofSize[objWords(p)] - 1].exp[m - 2];
            GGC_WAP(o, w - (int) HDR - 1, v);
            break;
        }
        case TBlob: { BNode n = blobLast((Blob) p); GGC_WP(n, ext, v); break; }
        default: break;
    }
}

/********************************************************************* data */
static int nData(void *p, int t)
{
    switch (t) {
        case TPair: return 1;
        case TMixed: return 3;
        case TBig: return 2;
        case TData: return 4;
        case TDA: case TDD: return (int) GGC_LENGTH((GGC_size_t_Array) p) - 1;
        case TCA: return (int) GGC_LENGTH((GGC_char_Array) p) - 8;
        case TDS: return (int) GGC_LENGTH((GGC_S12_Array) p) - 1;
        case TBlob: return 1;
        default: return 0;
    }
}
/* the rest of the data in an object which has more than the specification
 * names, set when it's made */
static int restOk(void *p, int t, long id)
{
    int i;
    if (t == TBig) {
        Big o = (Big) p;
        W20 a = GGC_RD(o, d1), b = GGC_RD(o, d2);
        W17 c = GGC_RD(o, d3);
        W12 e = GGC_RD(o, d4);
        for (i = 1; i < 20; i++) if (a.w[i] != dtab[(id + i) % 16] || b.w[i] != dtab[(id + i + 1) % 16]) return 0;
        for (i = 0; i < 17; i++) if (c.w[i] != dtab[(id + i + 2) % 16]) return 0;
        for (i = 0; i < 11; i++) if (e.w[i] != dtab[(id + i + 3) % 16]) return 0;
    } else if (t == TDyn) {
        long d = ofSize[objWords(p)] - 1;
        for (i = HDR + 1; i < dinfo[d].size; i++) {
            if (dinfo[d].ptr[i] == 1) continue;
            if (dinfo[d].ptr[i] == 2) {
                if (W(p, i) != (i % 2 ? 0 : W(p, 0))) return 0;
            } else if (W(p, i) != dtab[(id + i) % 16]) return 0;
        }
    }
    return 1;
}
static void initRest(void *p, int t, long id)
{
    int i;
    if (t == TBig) {
        Big o = (Big) p;
        W20 a, b; W17 c; W12 e;
        for (i = 0; i < 20; i++) { a.w[i] = dtab[(id + i) % 16]; b.w[i] = dtab[(id + i + 1) % 16]; }
        for (i = 0; i < 17; i++) c.w[i] = dtab[(id + i + 2) % 16];
        for (i = 0; i < 12; i++) e.w[i] = dtab[(id + i + 3) % 16];
        a.w[0] = 0; e.w[11] = 0;
        GGC_WD(o, d1, a); GGC_WD(o, d2, b); GGC_WD(o, d3, c); GGC_WD(o, d4, e);
    } else if (t == TDyn) {
        long d = ofSize[objWords(p)] - 1;
        GGC_voidpArray o = (GGC_voidpArray) p;
        for (i = HDR + 1; i < dinfo[d].size; i++) {
            if (dinfo[d].ptr[i] == 2 && i % 2 == 0) {
                void *v = (void *) W(p, 0);
                GGC_WAP(o, i - (int) HDR - 1, v);
            } else if (dinfo[d].ptr[i] == 0)
                W(p, i) = dtab[(id + i) % 16];
        }
    }
}
static long getData(void *p, int t, int m)
{
    switch (t) {
        case TPair: { Pair o = (Pair) p; return dval(GGC_RD(o, x)); }
        case TMixed: { Mixed o = (Mixed) p; return m == 1 ? (long) GGC_RD(o, c) : m == 2 ? (long) GGC_RD(o, s) : (long) GGC_RD(o, f); }
        case TBig: {
            Big o = (Big) p;
            W20 a = GGC_RD(o, d1); W12 e = GGC_RD(o, d4);
            return dval(m == 1 ? a.w[0] : e.w[11]);
        }
        case TData: {
            Data o = (Data) p;
            return m == 1 ? (long) GGC_RD(o, c) : m == 2 ? (long) GGC_RD(o, s) : m == 3 ? (long) GGC_RD(o, f) : dval(GGC_RD(o, x));
        }
        case TDA: { GGC_size_t_Array o = (GGC_size_t_Array) p; return dval(GGC_RAD(o, m)); }
        case TCA: { GGC_char_Array o = (GGC_char_Array) p; return (long) GGC_RAD(o, m + 7); }
        case TDD: { GGC_double_Array o = (GGC_double_Array) p; return (long) GGC_RAD(o, m); }
        case TDS: {
            GGC_S12_Array o = (GGC_S12_Array) p;
            S12 e = GGC_RAD(o, m);
            return e.v[0] == e.v[1] && e.v[0] == e.v[2] ? (long) e.v[0] : BAD;
        }
        case TBlob: { Blob b = (Blob) p; return (long) GGC_RD(b, kind); }
        default: return BAD;
    }
}
static void setData(void *p, int t, int m, int v)
{
    size_t x = dtab[v & 15];
    char c = (char) v; short s = (short) v; float f = (float) v; double d = (double) v;
    switch (t) {
        case TPair: { Pair o = (Pair) p; GGC_WD(o, x, x); break; }
        case TMixed: { Mixed o = (Mixed) p; if (m == 1) GGC_WD(o, c, c); else if (m == 2) GGC_WD(o, s, s); else GGC_WD(o, f, d); break; }
        case TBig: {
            Big o = (Big) p;
            W20 a = GGC_RD(o, d1); W12 e = GGC_RD(o, d4);
            if (m == 1) { a.w[0] = x; GGC_WD(o, d1, a); } else { e.w[11] = x; GGC_WD(o, d4, e); }
            break;
        }
        case TData: {
            Data o = (Data) p;
            if (m == 1) GGC_WD(o, c, c); else if (m == 2) GGC_WD(o, s, s); else if (m == 3) GGC_WD(o, f, f); else GGC_WD(o, x, x);
            break;
        }
        case TDA: { GGC_size_t_Array o = (GGC_size_t_Array) p; GGC_WAD(o, m, x); break; }
        case TCA: { GGC_char_Array o = (GGC_char_Array) p; GGC_WAD(o, m + 7, c); break; }
        case TDD: { GGC_double_Array o = (GGC_double_Array) p; GGC_WAD(o, m, d); break; }
        case TDS: { GGC_S12_Array o = (GGC_S12_Array) p; S12 e; e.v[0] = e.v[1] = e.v[2] = v; GGC_WAD(o, m, e); break; }
        default: break;
    }
}
static long getLen(void *p, int t)
{
    switch (t) {
        case TPA: return (long) GGC_LENGTH((GGC_voidpArray) p) - 1;
        case TDA: return (long) GGC_LENGTH((GGC_size_t_Array) p) - 1;
        case TDD: return (long) GGC_LENGTH((GGC_double_Array) p) - 1;
        case TCA: return (long) GGC_LENGTH((GGC_char_Array) p) - 8;
        case TDS: return (long) GGC_LENGTH((GGC_S12_Array) p) - 1;
        case TBlob: { Blob b = (Blob) p; return (long) GGC_RD(b, n); }
        default: return 0;
    }
}

/********************************************************************** dump */
#define MAXO 4096
static void *dobj[MAXO]; static int ndobj;
static int dadd(void *p)
{
    int i;
    if (!p || ((size_t) p & 7)) return 0;
    for (i = 0; i < ndobj; i++) if (dobj[i] == p) return 0;
    if (ndobj >= MAXO) return 0;
    dobj[ndobj++] = p;
    return 1;
}
struct Item { long id; int t; void *p; };
static int icmp(const void *a, const void *b)
{
    const struct Item *x = (const struct Item *) a, *y = (const struct Item *) b;
    return x->id < y->id ? -1 : x->id > y->id;
}
struct Span { size_t lo, hi; };
static int scmp(const void *a, const void *b)
{
    const struct Span *x = (const struct Span *) a, *y = (const struct Span *) b;
    return x->lo < y->lo ? -1 : x->lo > y->lo;
}
static struct Span spans[3 * MAXO]; static int nspans;
static void span(void *p)
{
    if (nspans < 3 * MAXO) {
        spans[nspans].lo = (size_t) p;
        spans[nspans].hi = (size_t) p + objWords(p) * sizeof(size_t);
        nspans++;
    }
}
/* everything reachable from the objects in dobj, as JSON. Reports problems
 * which the specification's observations can't express as an extra object */
static size_t dump(char *out, size_t cap)
{
    static struct Item items[MAXO];
    int i, j, n = 0;
    size_t pos = 0;
    const char *problem = NULL;
    nspans = 0;
    for (i = 0; i < ndobj; i++) {
        void *p = dobj[i];
        long id;
        int t, k;
        if (!os_inside(p, (HDR + 1) * sizeof(size_t))) { problem = "outside"; continue; }
        t = typeOf(p, &id);
        items[n].id = id; items[n].t = t; items[n].p = p; n++;
        if (!t) { problem = "unknown object"; continue; }
        k = nRefs(p, t);
        for (j = 1; j <= k; j++) dadd(getRef(p, t, j));
        if (!os_inside(p, objWords(p) * sizeof(size_t))) problem = "outside";
        span(p);
        if (t == TPA) span((void *) W(p, HDR + 1));
    }
    qsort(spans, (size_t) nspans, sizeof(struct Span), scmp);
    for (i = 1; i < nspans; i++) if (spans[i-1].hi > spans[i].lo) problem = "overlap";
    qsort(items, (size_t) n, sizeof(struct Item), icmp);
    for (i = 0; i < n; i++) {
        void *p = items[i].p;
        int t = items[i].t, k;
        long len;
        if (i && items[i].id == items[i-1].id) problem = "two copies";
        if (pos + 8192 > cap) { problem = "too much"; break; }
        pos += (size_t) sprintf(out + pos, "%s[%ld,%d,[", i ? "," : "", items[i].id, t);
        k = t ? nRefs(p, t) : 0;
        if (k > 400) k = 400;
        for (j = 1; j <= k; j++) pos += (size_t) sprintf(out + pos, "%s%ld", j > 1 ? "," : "", idOf(getRef(p, t, j)));
        pos += (size_t) sprintf(out + pos, "],[");
        k = t ? nData(p, t) : 0;
        if (k > 400) k = 400;
        for (j = 1; j <= k; j++) pos += (size_t) sprintf(out + pos, "%s%ld", j > 1 ? "," : "", getData(p, t, j));
        len = getLen(p, t);
        if (!restOk(p, t, items[i].id)) len = BAD;
        if (t == TBlob && !blobOk((Blob) p, items[i].id)) len = BAD;
        pos += (size_t) sprintf(out + pos, "],%ld]", len);
    }
    if (problem) pos += (size_t) sprintf(out + pos, "%s[0,0,[],[],\"%s\"]", n ? "," : "", problem);
    return pos;
}

/**************************************************************** finalizers */
static void *resSlot = NULL, *filler = NULL;
#ifdef GGGGC_FEATURE_FINALIZERS
static void finLog(void *obj, int kind)
{
    int saven = ndobj;
    static char b[1 << 18];
    size_t n;
    long id = idOf(obj);
    (void) saven;
    ndobj = 0;
    dadd(obj);
    n = dump(b, sizeof(b));
    if (fpos + n + 100 > fcap) {
        fcap = (fpos + n + 100) * 2;
        fbuf = (char *) realloc(fbuf, fcap);
    }
    fpos += (size_t) sprintf(fbuf + fpos, "%s[%ld,%d,[", fpos ? "," : "", id, kind);
    memcpy(fbuf + fpos, b, n);
    fpos += n;
    fpos += (size_t) sprintf(fbuf + fpos, "]]");
}
static void fin0(void *obj) { finLog(obj, 0); }
static void fin1(void *obj) { finLog(obj, 1); resSlot = obj; }
static void fin2(void *obj)
{
    int i;
    finLog(obj, 2);
    GGC_PUSH_1(obj);
    for (i = 0; i < 5; i++) {
        Pair p = GGC_NEW(Pair);
        GGC_WP(p, a, obj);
    }
    GGC_POP();
}
static void fin3(void *obj)
{
    finLog(obj, 3);
    GGC_PUSH_1(obj);
    GGC_FINALIZE(obj, fin0);
    GGC_POP();
}
static void fin4(void *obj)
{
    finLog(obj, 4);
    GGC_PUSH_1(obj);
    GGC_COLLECT();
    finLog(obj, 14);
    GGC_POP();
}
static void fin5(void *obj)
{
    size_t n;
    finLog(obj, 5);
    GGC_PUSH_1(obj);
    for (n = 0; n < GGGGC_WORDS_PER_POOL && n < 20000; n += 6) {
        Pair p = GGC_NEW(Pair);
        GGC_WP(p, a, obj);
    }
    finLog(obj, 15);
    GGC_POP();
}
#endif

/******************************************************************** frames */
struct FrameInfo { int n; void **v[16]; };
static struct FrameInfo frames[64];
static int nframes;
static void *globals[64];
static int nglobals;

static void interp(int fr);
static void frameSlot(int fr, int i, void *v) { frames[fr].v[i] = (void **) v; }
#include "frames.h"

static void doGlobalize(int n)
{
    void **a = &globals[nglobals], **b = a + 1, **c = a + 2, **d = a + 3;
    switch (n) {
        case 1: { GGC_PUSH_1(*a); GGC_GLOBALIZE(); GGC_POP(); break; }
        case 2: { GGC_PUSH_2(*a, *b); GGC_GLOBALIZE(); GGC_POP(); break; }
        case 3: { GGC_PUSH_3(*a, *b, *c); GGC_GLOBALIZE(); GGC_POP(); break; }
        default: { GGC_PUSH_4(*a, *b, *c, *d); GGC_GLOBALIZE(); GGC_POP(); break; }
    }
    nglobals += n;
}

/* JIT stack */
#ifdef GGGGC_FEATURE_JITPSTACK
static void *jitmem[8192];
#endif
static int jitN; /* words in the specification's jit sequence */
static struct { void **p; int ref; int fr; long dv; } jitw[4096];
static int jitFrames;

static void **slot(int f, int s)
{
    if (f == 0) return &globals[s - 1];
    if (f == -1) return jitw[s - 1].p;
    return frames[f - 1].v[s - 1];
}

static long jitDecode(int i)
{
#ifdef GGGGC_FEATURE_JITPSTACK
    if (jitw[i].ref) return idOf(*jitw[i].p);
#if defined(GGGGC_FEATURE_TAGGING)
    return (size_t) *jitw[i].p == imms[1 + jitw[i].dv] ? jitw[i].dv : BAD;
#elif defined(GGGGC_FEATURE_EXTTAG)
    return (size_t) *jitw[i].p == dtab[jitw[i].dv] ? jitw[i].dv : BAD;
#else
    return *jitw[i].p ? BAD : jitw[i].dv;
#endif
#else
    (void) i;
    return 0;
#endif
}

#ifdef GGGGC_FEATURE_JITPSTACK
static void jpush(const int *a, int n)
{
    int i;
    void **sp = ggc_jitPointerStack;
    jitFrames++;
#ifdef GGGGC_FEATURE_EXTTAG
    /* groups of up to a word's bytes of words, each under its tags */
    for (i = 0; i < n; i += (int) sizeof(size_t)) {
        int k = n - i < (int) sizeof(size_t) ? n - i : (int) sizeof(size_t), j;
        size_t tags = 0;
        for (j = 0; j < k; j++) {
            int x = a[2 * (i + j)], y = a[2 * (i + j) + 1];
            void *v = x == -2 ? (void *) dtab[y] : x == -3 ? NULL : *slot(x, y);
            /* even tags are references. The first word is the furthest */
            size_t tag = x == -2 ? (size_t) (2 * (y * 7 % 126) + 1) : (size_t) (2 * ((i * 41 + j * 67) % 126));
            *--sp = v;
            tags = (tags << 8) | tag;
            jitw[jitN].p = sp; jitw[jitN].ref = x != -2; jitw[jitN].fr = jitFrames; jitw[jitN].dv = y;
            jitN++;
        }
        if (k < (int) sizeof(size_t)) tags |= (size_t) 0xFF << (8 * k);
        *--sp = (void *) tags;
    }
#else
    for (i = 0; i < n; i++) {
        int x = a[2 * i], y = a[2 * i + 1];
        void *v;
        if (x == -2) {
#ifdef GGGGC_FEATURE_TAGGING
            v = (void *) imms[1 + y];
#else
            v = NULL;
#endif
        } else v = x == -3 ? NULL : *slot(x, y);
        *--sp = v;
        jitw[jitN].p = sp; jitw[jitN].ref = x != -2; jitw[jitN].fr = jitFrames; jitw[jitN].dv = y;
        jitN++;
    }
#endif
    ggc_jitPointerStack = sp;
}
static void jpop(void)
{
    void **end = ggc_jitPointerStackEnd;
    void **sp = end;
    while (jitN > 0 && jitw[jitN-1].fr == jitFrames) jitN--;
    jitFrames--;
    if (jitN > 0) {
        sp = jitw[jitN-1].p;
#ifdef GGGGC_FEATURE_EXTTAG
        sp--; /* its tags */
#endif
    }
    ggc_jitPointerStack = sp;
}
#endif

/******************************************************************* garbage */
static int small(void) { return GGGGC_POOL_SIZE <= 16; }
static void churn(int kind, int n)
{
    long want = collections + n;
    Pair prev = NULL, p = NULL;
    GGC_voidpArray pa = NULL;
    size_t bytes = 0, cap = ((size_t) 24 << GGGGC_POOL_SIZE);
    int i = 0;
    GGC_PUSH_3(prev, p, pa);
    while (collections < want && bytes < cap) {
        i++;
        if (!small() && kind < 2 && i % 16) {
            /* don't take forever */
            GGC_NEW_DA(size_t, 4000);
            bytes += 32000;
        } else if (kind == 0) {
            GGC_NEW(Leaf);
            bytes += 24;
        } else if (kind == 1) {
            p = GGC_NEW(Pair);
            if (i % 50) GGC_WP(p, a, prev);
            prev = p;
            bytes += 40;
        } else if (kind == 2) {
            int j, l = small() ? 20 : 3000;
            pa = GGC_NEW_PA(GGC_voidp, l);
            for (j = 0; j < l; j += 5) {
                void *v = j < nglobals ? globals[j] : nframes ? *frames[0].v[0] : NULL;
                GGC_WAP(pa, j, v);
            }
            bytes += (size_t) l * 8 + 16;
        } else {
            static const int ls[] = {1, 7, 30, 90, 3, 13};
            int l = ls[i % 6] * (small() ? 1 : 500);
            if (i % 2) GGC_NEW_DA(size_t, l); else GGC_NEW_DA(char, l);
            bytes += (size_t) l * 8 + 24;
        }
    }
    GGC_POP();
}

/* words available in a pool */
static size_t capacity(void)
{
    return (GGGGC_POOL_BYTES - sizeof(struct GGGGC_Pool)) / sizeof(size_t);
}

static int zeroed(void *p, size_t from)
{
    size_t i, n = objWords(p);
    for (i = from; i < n; i++) if (W(p, i)) return 0;
    return 1;
}

static long zeroLen(int kind)
{
    void *a = NULL, *b = NULL;
    long r = 0;
    GGC_PUSH_2(a, b);
    if (kind == 0) a = GGC_NEW_PA(GGC_voidp, 0);
    else if (kind == 1) a = GGC_NEW_DA(size_t, 0);
    else if (kind == 2) a = GGC_NEW_DA(char, 0);
    else a = GGC_NEW_DA(short, 1);
    b = a;
    if (GGC_LENGTH((GGC_size_t_Array) a) != (size_t) (kind == 3)) r |= 1;
    churn(0, 1);
    GGC_COLLECT();
    if (GGC_LENGTH((GGC_size_t_Array) a) != (size_t) (kind == 3)) r |= 2;
    if (a != b) r |= 4;
    /* the return pops, if the compiler does not */
    return r;
}

/* an object of so many tenths of a pool */
static long bigObject(int k)
{
    GGC_size_t_Array d = NULL;
    GGC_voidpArray p = NULL;
    Leaf l = NULL;
    size_t n, i, v;
    long r = 0;
    GGC_PUSH_3(d, p, l);
    n = (capacity() - 2 - HDR - 4) * (size_t) (k + 1) / 10;
    if (k == 9 || n < 4) n = capacity() - HDR - 1 - 4;
    if (k % 2) {
        d = GGC_NEW_DA(size_t, n);
        if (GGC_LENGTH(d) != n) r |= 1;
        if (!zeroed(d, HDR + 1)) r |= 2;
        for (i = 0; i < n; i++) { v = i * 0x10001 + 7; GGC_WAD(d, i, v); }
    } else {
        p = GGC_NEW_PA(GGC_voidp, n);
        if (GGC_LENGTH(p) != n) r |= 1;
        if (!zeroed(p, HDR + 1)) r |= 2;
        l = GGC_NEW(Leaf);
        v = 77;
        GGC_WD(l, id, v);
        i = n - 1;
        GGC_WAP(p, i, l);
        l = GGC_NEW(Leaf);
        v = 78;
        GGC_WD(l, id, v);
        GGC_WAP(p, 0, l);
        l = NULL;
    }
    churn(k % 3, 1);
    if (k % 4 == 0) GGC_COLLECT();
    if (k % 2) {
        if (GGC_LENGTH(d) != n) r |= 4;
        for (i = 0; i < n; i++) if (GGC_RAD(d, i) != i * 0x10001 + 7) r |= 8;
    } else {
        if (GGC_LENGTH(p) != n) r |= 4;
        for (i = 1; i < n - 1; i++) if (GGC_RAP(p, i)) r |= 8;
        l = (Leaf) GGC_RAP(p, n - 1);
        if (!l || GGC_RD(l, id) != 77) r |= 16;
        l = (Leaf) GGC_RAP(p, 0);
        if (!l || GGC_RD(l, id) != 78) r |= 32;
    }
    /* the return pops, if the compiler does not */
    return r;
}

/* Keep a bounded amount of data, forever allocating and dropping more of the
 * same. n pools' worth go by. The most pools held meanwhile */
#ifdef GGGGC_FEATURE_FINALIZERS
static volatile long finCount;
static void finNop(void *o) { (void) o; finCount++; }
#endif
static long steady(int kind, int n)
{
    size_t cap = capacity() * sizeof(size_t), bytes = 0, want = cap * (size_t) n, v;
    long long i = 0;
    int scale = small() ? 1 : 300, j;
    GGC_voidpArray ring = NULL, a = NULL;
    Pair p = NULL, q = NULL;
    void *d = NULL;
    One o = NULL;
    GGC_PUSH_6(ring, a, p, q, d, o);
    os_poolsPeak = os_pools;
    ring = GGC_NEW_PA(GGC_voidp, 10);
    while (bytes < want) {
        i++;
        switch (kind) {
            case 0: /* short-lived */
                p = GGC_NEW(Pair);
                bytes += 40;
                if (scale > 1) { GGC_NEW_DA(size_t, 500); bytes += 4024; }
                break;
            case 1: /* cycles */
                p = GGC_NEW(Pair); q = GGC_NEW(Pair);
                GGC_WP(p, a, q); GGC_WP(q, a, p); GGC_WP(q, b, q); GGC_WP(p, b, p);
                bytes += 80;
                if (scale > 1) { a = GGC_NEW_PA(GGC_voidp, 500); GGC_WAP(a, 3, p); GGC_WP(q, b, a); bytes += 4024; }
                break;
            case 2: { /* structures which get old, cyclic, then dropped */
                int k = (int) (i % 10);
                a = GGC_NEW_PA(GGC_voidp, (small() ? 6 : 400));
                for (j = 0; j < 5; j++) {
                    p = GGC_NEW(Pair);
                    GGC_WP(p, a, a);
                    GGC_WAP(a, j, p);
                }
                d = GGC_RAP(ring, k);
                GGC_WAP(ring, k, a);
                bytes += (size_t) (small() ? 6 : 400) * 8 + 240;
                if (i % 7 == 0) GGC_COLLECT();
                break;
            }
            case 3: { /* a changing table of arrays of many sizes */
                int k = (int) ((i * 7) % 10), l = (int) ((i * 13) % 23) * scale + 1;
                if (k & 1) {
                    GGC_size_t_Array da = GGC_NEW_DA(size_t, l);
                    GGC_WAP(ring, k, da);
                } else {
                    a = GGC_NEW_PA(GGC_voidp, l);
                    GGC_WAP(a, 0, ring);
                    GGC_WAP(ring, k, a);
                }
                bytes += (size_t) l * 8 + 24;
                break;
            }
            case 4: { /* run-time types */
                size_t bm[3] = {1, 0, 0};
                bm[0] |= (size_t) 1 << (HDR + 2);
                d = GGC_NEW_DESCRIPTOR(10 + i % 20, bm);
                { int k = (int) (i % 10); GGC_WAP(ring, k, d); }
                d = GGC_NEW_FROM_DESCRIPTOR((struct GGGGC_Descriptor *) d);
                bytes += 240;
                if (scale > 1) { GGC_NEW_DA(size_t, 500); bytes += 4024; }
                break;
            }
            case 6: { /* little ones everywhere, then ones larger than half a pool */
                size_t fill = (size_t) os_pools * 2 * cap, k;
                for (k = 0; k < fill; k += scale > 1 ? 4024 : 32) {
                    if (scale > 1) GGC_NEW_DA(size_t, 500); else o = GGC_NEW(One);
                }
                for (j = 0; j < 3; j++) {
                    GGC_size_t_Array da = GGC_NEW_DA(size_t, cap / sizeof(size_t) * (size_t) (11 + (i + j) % 7) / 20);
                    GGC_WAP(ring, 2, da);
                }
                a = NULL;
                GGC_WAP(ring, 2, a);
                bytes += 2 * cap;
                break;
            }
            default: /* a list that is consumed at one end, and extended at the other */
                o = GGC_NEW(One);
                v = (size_t) i;
                GGC_WD(o, id, v);
                if (i > 1) { q = (Pair) GGC_RAP(ring, 1); { One l = (One) (void *) q; GGC_WP(l, a, o); } }
                else { GGC_WAP(ring, 0, o); }
                GGC_WAP(ring, 1, o);
                if (i > 20) { One l = (One) GGC_RAP(ring, 0); d = GGC_RP(l, a); GGC_WAP(ring, 0, d); }
                bytes += 32;
                if (scale > 1) { GGC_NEW_DA(size_t, 500); bytes += 4024; }
        }
#ifdef GGGGC_FEATURE_FINALIZERS
        if (i % 3 == 0 && p) GGC_FINALIZE(p, finNop);
#endif
    }
    /* the return pops, if the compiler does not */
    return os_poolsPeak;
}

/*************************************************************** operations */
static long nobjs;
static const char **lines; static int nlines, pc;

static long doNew(int t, void **s)
{
    void *o;
    size_t w;
    long id = nobjs + 1;
    switch (t) {
        case TLeaf: o = GGC_NEW(Leaf); break;
        case TOne: o = GGC_NEW(One); break;
        case TPair: o = GGC_NEW(Pair); break;
        case TMixed: o = GGC_NEW(Mixed); break;
        case TBig: o = GGC_NEW(Big); break;
        default: o = GGC_NEW(Data); break;
    }
    *s = o;
    if (!zeroed(o, HDR)) return -2;
    nobjs = id;
    w = IDW(id, t);
    { Leaf l = (Leaf) o; GGC_WD(l, id, w); }
    initRest(o, t, id);
    return id;
}
static long doNewPA(int len, void **s)
{
    /* the variable keeps what it had while the label is allocated */
    GGC_voidpArray a = NULL;
    Leaf l = NULL;
    long id = nobjs + 1;
    size_t w;
    GGC_PUSH_2(a, l);
    a = GGC_NEW_PA(GGC_voidp, len + 1);
    if (zeroed(a, HDR + 1) && GGC_LENGTH(a) == (size_t) len + 1) {
        nobjs = id;
        l = GGC_NEW(Leaf);
        w = IDW(id, TPA);
        GGC_WD(l, id, w);
        GGC_WAP(a, 0, l);
    } else id = -2;
    *s = a;
    /* the return pops, if the compiler does not */
    return id;
}
static long doNewDA(int t, int len, void **s)
{
    long id = nobjs + 1;
    size_t w = IDW(id, t);
    if (t == TDA) {
        GGC_size_t_Array a = GGC_NEW_DA(size_t, len + 1);
        *s = a;
        if (!zeroed(a, HDR + 1) || GGC_LENGTH(a) != (size_t) len + 1) return -2;
        GGC_WAD(a, 0, w);
    } else if (t == TCA) {
        int i;
        GGC_char_Array a = GGC_NEW_DA(char, len + 8);
        *s = a;
        if (!zeroed(a, HDR + 1) || GGC_LENGTH(a) != (size_t) len + 8) return -2;
        for (i = 0; i < 8; i++) { char c = ((char *) &w)[i]; GGC_WAD(a, i, c); }
    } else if (t == TDS) {
        S12 e;
        GGC_S12_Array a = GGC_NEW_DA(S12, len + 1);
        *s = a;
        if (!zeroed(a, HDR + 1) || GGC_LENGTH(a) != (size_t) len + 1) return -2;
        memset(&e, 0, sizeof(e));
        memcpy(&e, &w, sizeof(w));
        GGC_WAD(a, 0, e);
    } else {
        double d;
        GGC_double_Array a = GGC_NEW_DA(double, len + 1);
        *s = a;
        if (!zeroed(a, HDR + 1) || GGC_LENGTH(a) != (size_t) len + 1) return -2;
        memcpy(&d, &w, sizeof(d));
        GGC_WAD(a, 0, d);
    }
    nobjs = id;
    return id;
}
/* leave k words of a pool, with an object before which stays, or doesn't */
static void fill(long k, int live)
{
    int i;
    filler = NULL;
    for (i = 0; i < 400; i++) {
        Leaf l = GGC_NEW(Leaf);
        size_t sz = HDR + 1 < 3 ? 3 : HDR + 1;
        size_t rem = 0, step;
        for (step = (size_t) 1 << 24; step; step /= 2)
            if (rem + step <= GGGGC_WORDS_PER_POOL && os_inside(l, (rem + step) * sizeof(size_t))) rem += step;
        rem -= sz;
        if (rem == (size_t) k) break;
        if (rem >= (size_t) k + HDR + 2) {
            size_t *a = (size_t *) GGC_NEW_DA(size_t, rem - (size_t) k - HDR - 1);
            if (a != (size_t *) (void *) l + sz) continue;
            if (live) filler = a;
            break;
        }
    }
}
static long doDesc(int pat, int x, void **s)
{
    long id = nobjs + 1;
    int i;
    layout((int) id, pat, x);
#ifdef GGGGC_FEATURE_EXTTAG
    if (x % 2) {
        unsigned char tags[700];
        for (i = 0; i < dinfo[id].size; i++)
            tags[i] = dinfo[id].ptr[i] || i == 0 ? (unsigned char) (2 * ((i * 41 + x) % 126)) : (unsigned char) (2 * ((i * 67 + x) % 126) + 1);
        /* whatever it says of the first word, that's the descriptor's */
        tags[0] = (unsigned char) (x % 4 == 1 ? 0 : x % 250);
        if (HDR > 1) tags[1] = 1;
        *s = pat == 6 ? GGC_NEW_DESCRIPTOR_WITH_TAGS(dinfo[id].size, NULL) : GGC_NEW_DESCRIPTOR_WITH_TAGS(dinfo[id].size, tags);
    } else
#endif
    {
        size_t bm[16];
        memset(bm, 0, sizeof(bm));
        for (i = 0; i < dinfo[id].size; i++)
            if (dinfo[id].ptr[i]) bm[i / 64] |= (size_t) 1 << (i % 64);
        bm[0] |= 1;
        *s = pat == 6 ? GGC_NEW_DESCRIPTOR(dinfo[id].size, NULL) : GGC_NEW_DESCRIPTOR(dinfo[id].size, bm);
    }
    if (W(*s, HDR) != (size_t) dinfo[id].size || ((struct GGGGC_Descriptor *) *s)->user__ptr) return -2;
    nobjs = id;
    return id;
}
static long doNewDyn(void *desc, void **s)
{
    long id = nobjs + 1;
    void *o = GGC_NEW_FROM_DESCRIPTOR((struct GGGGC_Descriptor *) desc);
    *s = o;
    if (!zeroed(o, HDR)) return -2;
    nobjs = id;
    W(o, HDR) = IDW(id, TDyn);
    initRest(o, TDyn, id);
    return id;
}

static Leaf uLeaf; static One uOne; static Pair uPair; static Mixed uMixed; static Big uBig; static Data uData;
static void *userPtr(int t)
{
    /* through the type's own descriptor, found via a prototype object */
    switch (t) {
        case TLeaf: return GGC_RUP(uLeaf);
        case TOne: return GGC_RUP(uOne);
        case TPair: return GGC_RUP(uPair);
        case TMixed: return GGC_RUP(uMixed);
        case TBig: return GGC_RUP(uBig);
        default: return GGC_RUP(uData);
    }
}

static char obuf[1 << 19];
static void obs(void)
{
    int i, j;
    size_t n;
    ndobj = 0;
    lputs(",\"g\":[");
    for (i = 0; i < nglobals; i++) { if (i) lputs(","); lnum(idOf(globals[i])); dadd(globals[i]); }
    lputs("],\"f\":[");
    for (i = 0; i < nframes; i++) {
        lputs(i ? ",[" : "[");
        for (j = 0; j < frames[i].n; j++) { void *v = *frames[i].v[j]; if (j) lputs(","); lnum(idOf(v)); dadd(v); }
        lputs("]");
    }
    lputs("],\"u\":[");
    for (i = 1; i <= 6; i++) { void *v = userPtr(i); if (i > 1) lputs(","); lnum(idOf(v)); dadd(v); }
    lputs("],\"v\":");
    lnum(idOf(resSlot)); dadd(resSlot);
    lputs(",\"j\":[");
    for (i = 0; i < jitN; i++) {
        if (i) lputs(",");
        lnum(jitDecode(i));
        if (jitw[i].ref) dadd(*jitw[i].p);
    }
    lputs("],\"o\":[");
    n = dump(obuf, sizeof(obuf));
    obuf[n] = 0;
    lputs(obuf);
    lputs("]");
}

/* where memory was obtained and given back since the last time, and where the
 * objects which the variables reach are */
static void mem(void)
{
    int i;
    char b[80];
    static char d[1 << 20];
    lputs(",\"os\":[");
    for (i = 0; i < os_nevents; i++) {
        sprintf(b, "%s[%d,%ld,%ld]", i ? "," : "", os_events[i].kind, os_events[i].lo, os_events[i].hi);
        lputs(b);
    }
    os_nevents = 0;
    lputs("],\"at\":[");
    ndobj = 0;
    for (i = 0; i < nglobals; i++) dadd(globals[i]);
    for (i = 0; i < nframes; i++) { int j; for (j = 0; j < frames[i].n; j++) dadd(*frames[i].v[j]); }
    for (i = 1; i <= 6; i++) dadd(userPtr(i));
    dump(d, sizeof(d));
    for (i = 0; i < nspans; i++) {
        long lo = os_coord((void *) spans[i].lo), hi = os_coord((void *) (spans[i].hi + 15));
#ifndef GGGGC_USE_PORTABLE_ALLOCATOR
        /* the pool is whole, too */
        lo = os_coord((void *) (spans[i].lo & ~(((size_t) 1 << GGGGC_POOL_SIZE) - 1)));
        hi = lo + (1L << GGGGC_POOL_SIZE) / 16;
#endif
        sprintf(b, "%s[%ld,%ld]", i ? "," : "", lo, hi);
        lputs(b);
    }
    lputs("]");
}

#ifdef HD_CC
#include "cc.h"
#define doPush ccPush
#else
#define ccOp(n, a, r) 0
#endif

static void interp(int fr)
{
    nframes = fr;
    while (pc < nlines) {
        int a[64], na = 0, i;
        char name[16];
        const char *l = lines[pc++], *c;
        long r = 0;
        size_t flen;
        /* parse */
        for (i = 0; l[i] && l[i] != ' ' && i < 15; i++) name[i] = l[i];
        name[i] = 0;
        for (c = l + i; *c && na < 64;) {
            char *e;
            a[na] = (int) strtol(c, &e, 10);
            if (e == c) break;
            na++;
            c = e;
        }
        fpos = 0;
        lputs("{\"op\":[\"");
        lputs(name);
        lputs("\"");
        for (i = 0; i < na; i++) { lputs(","); lnum(a[i]); }
        lputs("]");
        lflush();

#define IS(n) (!strcmp(name, n))
        /* these need an object */
        if ((IS("wp") || IS("wn") || IS("rp") || IS("wd") || IS("rd") || IS("len") || IS("wup") || IS("rup") || IS("newd") ||
             IS("fin") || IS("corrupt") || IS("cp")) && (!*slot(a[0], a[1]) || (IS("cp") && !*slot(a[4], a[5])))) _exit(95);
        if (ccOp(name, a, &r)) ;
        else if (IS("push")) {
            lputs(",\"r\":0,\"fin\":[]}\n");
            frames[fr].n = a[1];
            memset(frames[fr].v, 0, sizeof(frames[fr].v));
            doPush(a[0], a[1], fr);
            nframes = fr;
            continue;
        } else if (IS("pop")) {
            lputs(",\"r\":0,\"fin\":[]}\n");
            return;
        } else if (IS("new")) r = doNew(a[0], slot(a[1], a[2]));
        else if (IS("newpa")) r = doNewPA(a[0], slot(a[1], a[2]));
        else if (IS("newda")) r = doNewDA(a[0], a[1], slot(a[2], a[3]));
        else if (IS("blob")) { r = nobjs + 1; makeBlob(slot(a[2], a[3]), a[0], (size_t) a[1], r); nobjs = r; }
        else if (IS("thin")) thinBlob((Blob) *slot(a[0], a[1]));
        else if (IS("desc")) r = doDesc(a[0], a[1], slot(a[2], a[3]));
        else if (IS("newd")) r = doNewDyn(*slot(a[0], a[1]), slot(a[2], a[3]));
        else if (IS("wp")) setRef(*slot(a[0], a[1]), a[2], a[3], *slot(a[4], a[5]));
        else if (IS("wn")) setRef(*slot(a[0], a[1]), a[2], a[3], NULL);
        else if (IS("rp")) *slot(a[4], a[5]) = getRef(*slot(a[0], a[1]), a[2], a[3]);
        else if (IS("cp")) setRef(*slot(a[0], a[1]), a[2], a[3], getRef(*slot(a[4], a[5]), a[6], a[7]));
        else if (IS("wd")) setData(*slot(a[0], a[1]), a[2], a[3], a[4]);
        else if (IS("rd")) r = getData(*slot(a[0], a[1]), a[2], a[3]);
        else if (IS("len")) r = getLen(*slot(a[0], a[1]), a[2]);
        else if (IS("mv")) *slot(a[0], a[1]) = *slot(a[2], a[3]);
        else if (IS("clr")) *slot(a[0], a[1]) = NULL;
        else if (IS("imm")) *slot(a[0], a[1]) = (void *) imms[-a[2]];
        else if (IS("eq")) r = *slot(a[0], a[1]) == *slot(a[2], a[3]);
        else if (IS("wup")) { Leaf o = (Leaf) *slot(a[0], a[1]); void *v = *slot(a[3], a[4]); GGC_WUP(o, v); }
        else if (IS("rup")) { Leaf o = (Leaf) *slot(a[0], a[1]); *slot(a[3], a[4]) = GGC_RUP(o); }
        else if (IS("glob")) doGlobalize(a[0]);
#ifdef GGGGC_FEATURE_JITPSTACK
        else if (IS("jpush")) jpush(a, na / 2);
        else if (IS("jpop")) jpop();
#endif
#ifdef GGGGC_FEATURE_FINALIZERS
        else if (IS("fin")) {
            ggc_finalizer_t f = a[2] == 0 ? fin0 : a[2] == 1 ? fin1 : a[2] == 2 ? fin2 : a[2] == 3 ? fin3 : a[2] == 4 ? fin4 : fin5;
            GGC_FINALIZE(*slot(a[0], a[1]), f);
        }
#endif
        else if (IS("resget")) { *slot(a[0], a[1]) = resSlot; resSlot = NULL; }
        else if (IS("collect")) GGC_COLLECT();
        else if (IS("churn")) {
            long c = collections;
            churn(a[0], a[1]);
            if (corrupted && collections > c) lputs(",\"r\":0,\"fin\":[]}\n{\"op\":[\"collected\"]");
        }
        else if (IS("yield")) GGC_YIELD();
        else if (IS("fill")) fill(a[0], (int) a[1]);
        else if (IS("pad")) GGC_NEW_DA(size_t, a[0]);
        else if (IS("zero")) r = zeroLen(a[0]);
        else if (IS("big")) r = bigObject(a[0]);
        else if (IS("refuse")) { os_failAfter = a[0]; os_failAbove = na > 1 ? a[1] : 0; }
        else if (IS("try")) ;
        else if (IS("mem")) mem();
        else if (IS("steady")) {
            r = steady(a[0], a[1]);
            lputs(",\"cap\":");
            lnum((long) capacity());
            lputs(",\"gens\":");
            lnum((long) GGGGC_GENERATIONS);
#ifdef GGGGC_DEBUG_TINY_HEAP
            lputs(",\"tiny\":1");
#endif
        }
        else if (IS("over")) {
            /* more than can ever be; the program should stop with a message */
            size_t l = capacity() - HDR - 1 + (size_t) a[0];
            lputs(",\"r\":0,\"fin\":[]}\n");
            lflush();
            if (a[1] == 0) GGC_NEW_DA(size_t, l);
            else if (a[1] == 1) GGC_NEW_PA(GGC_voidp, l);
            else if (a[1] == 2) GGC_NEW_DA(char, l * 8);
            else if (a[1] == 3) { l = ~(size_t) 0 / sizeof(size_t) + 1 + (size_t) a[0]; GGC_NEW_DA(size_t, l); }
            else { l = ~(size_t) 0 - (size_t) (a[0] % 4); GGC_NEW_PA(GGC_voidp, l); }
            lputs("{\"op\":[\"survived\"]");
        }
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
        else if (IS("corrupt")) corrupted = 1, W(*slot(a[0], a[1]), 1) = a[2] == 0 ? W(*slot(a[0], a[1]), 1) ^ ((size_t) 1 << (a[3] % 64)) : a[2] == 1 ? 0 : ~(size_t) 0;
#endif
        else if (IS("obs")) obs();
        else { fprintf(stderr, "hd: unknown op %s\n", name); _exit(97); }

        lputs(",\"r\":");
        lnum(r);
        lputs(",\"fin\":[");
        flen = fpos;
        if (flen) { fbuf[flen] = 0; lputs(fbuf); }
        lputs("]}\n");
    }
    lputs("{\"op\":[\"end\"],\"r\":0,\"fin\":[]}\n");
    lflush();
    _exit(0);
}

static void runScript(void)
{
#ifdef GGGGC_FEATURE_JITPSTACK
    ggc_jitPointerStackEnd = jitmem + 8192;
    ggc_jitPointerStack = ggc_jitPointerStackEnd;
#endif
    {
        void *res = NULL;
        (void) res;
        GGC_PUSH_8(filler, resSlot, uLeaf, uOne, uPair, uMixed, uBig, uData);
        GGC_GLOBALIZE();
        initValues();
        uLeaf = GGC_NEW(Leaf); uOne = GGC_NEW(One); uPair = GGC_NEW(Pair);
        uMixed = GGC_NEW(Mixed); uBig = GGC_NEW(Big); uData = GGC_NEW(Data);
        interp(0);
        GGC_POP();
    }
}

#include "runner.h"
