/*
 * Collections driver: performs the programs generated from Coll.tla on the
 * real lists, maps and units.
 */
#include "base.h"
#include "ggggc/gc.h"
#include "ggggc/collections/list.h"
#include "ggggc/collections/map.h"
#include "ggggc/collections/unit.h"

#define NE 5
#define NL 3
#define NA 2
#define NM 3
#define NU 2
static int kmax;    /* more than any key which was put */
#define BAD (-999)

/* elements */
GGC_TYPE(Elem)
    GGC_MDATA(size_t, magic);
    GGC_MPTR(Elem, self);
    GGC_MDATA(size_t, id);
GGC_END_TYPE(Elem, GGC_PTR(Elem, self))
#define MAGIC ((size_t) 0x5A5A1234)

GGC_LIST(Elem)

/* keys */
GGC_TYPE(IKey)
    GGC_MDATA(int, pad);
    GGC_MDATA(long, k);
GGC_END_TYPE(IKey, GGC_NO_PTRS)
typedef GGC_char_Array SKey;

static volatile long collections;
#ifdef __cplusplus
extern "C"
#endif
void ggggc_verif_collect(int begin) { if (begin) collections++; }

static int mode; /* of hashing */
static size_t hashOf(long k)
{
    switch (mode) {
        case 0: return (size_t) k;
        case 1: return (size_t) k % 3;
        case 2: return 7;
        case 3: return (size_t) k * 0x9E3779B97F4A7C15ull;
        default: return ~(size_t) 0 - (size_t) (k / 2);
    }
}
static void sideEffect(void)
{
    /* hash functions may allocate, and so collect */
    static int n, next = 16;
    if (mode == 4) {
        if (++n >= next && GGGGC_POOL_SIZE <= 16) { next += 16 + n / 64; GGC_COLLECT(); }
        else if (n < 4096 || n % 64 == 0) GGC_NEW_DA(char, 100);
    }
}
static long ikeyOf(IKey k) { return GGC_RD(k, k); }
static size_t ihash(IKey k)
{
    GGC_PUSH_1(k);
    sideEffect();
    return hashOf(ikeyOf(k));
}
static int icmp(IKey x, IKey y)
{
    long p, q;
    GGC_PUSH_2(x, y);
    sideEffect();
    p = GGC_RD(x, k); q = GGC_RD(y, k);
    return p < q ? -1 : p > q ? 1000000 : 0;
}
static long skeyNum(SKey k)
{
    long r = 0;
    size_t i;
    for (i = 0; i < GGC_LENGTH(k); i++) {
        char c = GGC_RAD(k, i);
        if (c < 'a' || c > 'z') return 777777;
        r = r * 3 + (c - 'a');
    }
    return r;
}
static size_t shash(SKey k)
{
    GGC_PUSH_1(k);
    sideEffect();
    return hashOf(skeyNum(k));
}
static int scmp(SKey x, SKey y)
{
    size_t i, n;
    GGC_PUSH_2(x, y);
    sideEffect();
    n = GGC_LENGTH(x);
    if (n != GGC_LENGTH(y)) return n < GGC_LENGTH(y) ? -1 : 1;
    for (i = 0; i < n; i++) if (GGC_RAD(x, i) != GGC_RAD(y, i)) return GGC_RAD(x, i) - GGC_RAD(y, i);
    return 0;
}

GGC_MAP(IMap, IKey, Elem, ihash, icmp)
GGC_MAP(SMap, SKey, Elem, shash, scmp)

/* units */
typedef struct { int a; double b; char c; } Rec;
#define UNITS(U) U(1, char) U(2, short) U(3, int) U(4, unsigned) U(5, long) U(6, float) U(7, double) U(8, size_t)
#define DEF(n, t) GGC_UNIT(t)
UNITS(DEF)

static void uval(int t, int v, void *to)
{
    static const char c[10] = {0, 1, -1, 127, -128, 'a', 64, 2, -2, 3};
    static const short s[10] = {0, 1, -1, 32767, -32768, 255, 256, -255, 2, 3};
    static const int i[10] = {0, 1, -1, 2147483647, -2147483647 - 1, 65536, 65535, 7, 8, -8};
    static const unsigned u[10] = {0, 1, 0xFFFFFFFFu, 0x80000000u, 0x7FFFFFFFu, 2, 3, 4, 5, 65536};
    static const long l[10] = {0, 1, -1, 0x7FFFFFFFFFFFFFFFl, -0x7FFFFFFFFFFFFFFFl - 1, 0x100000000l, 0xFFFFFFFFl, 4, 8, -8};
    static const size_t z[10] = {0, 1, ~(size_t) 0, (size_t) 1 << 63, 0xFFFFFFFFu, 0x0DEFACED, 2, 3, 5, 7};
    float f[10] = {0, -0.0f, 1, -1, 1e-45f, 3.4e38f, 1.0f / 3, 1.0f / 0.0f, -1.0f / 0.0f, 0};
    double d[10] = {0, -0.0, 1, -1, 5e-324, 1.7e308, 1.0 / 3, 1.0 / 0.0, -1.0 / 0.0, 0};
    f[9] = (float) __builtin_nanf("12"); d[9] = __builtin_nan("34");
    switch (t) {
        case 1: memcpy(to, &c[v], sizeof(c[0])); break;
        case 2: memcpy(to, &s[v], sizeof(s[0])); break;
        case 3: memcpy(to, &i[v], sizeof(i[0])); break;
        case 4: memcpy(to, &u[v], sizeof(u[0])); break;
        case 5: memcpy(to, &l[v], sizeof(l[0])); break;
        case 6: memcpy(to, &f[v], sizeof(f[0])); break;
        case 7: memcpy(to, &d[v], sizeof(d[0])); break;
        default: memcpy(to, &z[v], sizeof(z[0])); break;
    }
}
static long unval(int t, void *from, size_t size)
{
    int v;
    for (v = 0; v < 10; v++) {
        char b[16];
        uval(t, v, b);
        if (!memcmp(b, from, size)) return v;
    }
    return BAD;
}

/* the program's variables */
static Elem e[NE];
static ElemList ls[NL];
static ElemArray as[NA];
static void *ms[NM];
static int mmode[NM], mkind[NM];
static GGC_voidpArray us[NU];
static int ut[NU];
static long nelem;

static Elem newElem(void)
{
    Elem x = NULL;
    size_t v;
    GGC_PUSH_1(x);
    x = GGC_NEW(Elem);
    v = MAGIC; GGC_WD(x, magic, v);
    v = (size_t) ++nelem; GGC_WD(x, id, v);
    GGC_WP(x, self, x);
    return x;
}
static long idOf(Elem x)
{
    if (!x) return 0;
    if (GGC_RD(x, magic) != MAGIC || GGC_RP(x, self) != x) return BAD;
    return (long) GGC_RD(x, id);
}
static void *newKey(int kind, int k)
{
    if (kind == 0) {
        IKey r = GGC_NEW(IKey);
        long v = k;
        GGC_WD(r, k, v);
        return r;
    } else {
        /* digits in base 3: with leading zeros they have the same number */
        int n = 0, i, d[8], z = k % 5;
        SKey s;
        while (k) { d[n++] = k % 3; k /= 3; }
        s = GGC_NEW_DA(char, n + z);
        for (i = 0; i < z; i++) { char c = 'a'; GGC_WAD(s, i, c); }
        for (i = 0; i < n; i++) { char c = (char) ('a' + d[n-1-i]); GGC_WAD(s, z + i, c); }
        return s;
    }
}
static void put(int m, int k, int x)
{
    if (k >= kmax) kmax = k + 1;
    mode = mmode[m];
    if (mkind[m] == 0) { IKey q = (IKey) newKey(0, k); IMapPut((IMap) ms[m], q, e[x]); }
    else { SKey q = (SKey) newKey(1, k); SMapPut((SMap) ms[m], q, e[x]); }
}
static int get(int m, int k, Elem *to)
{
    mode = mmode[m];
    if (mkind[m] == 0) { IKey q = (IKey) newKey(0, k); return IMapGet((IMap) ms[m], q, to); }
    else { SKey q = (SKey) newKey(1, k); return SMapGet((SMap) ms[m], q, to); }
}
static void churn(int kind)
{
    long want = collections + 1;
    Elem x = NULL;
    size_t bytes = 0, cap = (size_t) 24 << GGGGC_POOL_SIZE;
    GGC_PUSH_1(x);
    while (collections < want && bytes < cap) {
        if (kind == 0) { GGC_NEW(Elem); bytes += 32; }
        else if (kind == 1) { x = GGC_NEW(Elem); GGC_WP(x, self, x); bytes += 32; }
        else { GGC_NEW_DA(size_t, (GGGGC_POOL_SIZE <= 16 ? 30 : 4000)); bytes += 240; }
        if (GGGGC_POOL_SIZE > 16) { GGC_NEW_DA(size_t, 20000); bytes += 160000; }
    }
    GGC_POP();
}
static ElemListNode nodeAt(ElemList l, int k)
{
    ElemListNode n = GGC_RP(l, head);
    while (--k > 0 && n) n = GGC_RP(n, next);
    return n;
}

/* the list, as it appears walking it; wrong lengths and tails show, too */
static void obsList(ElemList l)
{
    ElemListNode n = NULL, last = NULL;
    long c = 0, len;
    if (!l) { lputs("[-1]"); return; }
    len = (long) GGC_RD(l, length);
    lputs("[");
    for (n = GGC_RP(l, head); n && c <= len + 3; n = GGC_RP(n, next), c++) {
        if (c) lputs(",");
        lnum(idOf(GGC_RP(n, el)));
        last = n;
    }
    if (c != len) { if (c) lputs(","); lnum(-998); c++; }
    if (GGC_RP(l, tail) != last) { if (c) lputs(","); lnum(-997); }
    lputs("]");
}
static long unitAt(int u, int i)
{
    void *o = GGC_RAP(us[u], i);
    if (!o) return -1;
    switch (ut[u]) {
#define GETU(n, t) case n: { GGC_ ## t ## _Unit x = (GGC_ ## t ## _Unit) o; t v = GGC_RD(x, v); return unval(n, &v, sizeof(v)); }
        UNITS(GETU)
    }
    return BAD;
}
static void obs(void)
{
    int i, j;
    lputs(",\"e\":[");
    for (i = 0; i < NE; i++) { if (i) lputs(","); lnum(idOf(e[i])); }
    lputs("],\"l\":[");
    for (i = 0; i < NL; i++) { if (i) lputs(","); obsList(ls[i]); }
    lputs("],\"a\":[");
    for (i = 0; i < NA; i++) {
        lputs(i ? ",[" : "[");
        for (j = 0; as[i] && j < (int) GGC_LENGTH(as[i]); j++) { if (j) lputs(","); lnum(idOf((Elem) GGC_RAP(as[i], j))); }
        lputs("]");
    }
    lputs("],\"u\":[");
    for (i = 0; i < NU; i++) {
        lputs(i ? ",[" : "[");
        for (j = 0; us[i] && j < (int) GGC_LENGTH(us[i]); j++) { if (j) lputs(","); lnum(unitAt(i, j)); }
        lputs("]");
    }
    lputs("],\"m\":[");
    for (i = 0; i < NM; i++) {
        Elem t = NULL;
        GGC_PUSH_1(t);
        lputs(i ? ",[" : "[");
        for (j = 0; ms[i] && j < kmax + 2; j++) {
            int r;
            if (j) lputs(",");
            t = NULL;
            r = get(i, j, &t);
            lnum(r ? idOf(t) : t ? -996 : -1);
        }
        lputs("]");
        GGC_POP();
    }
    lputs("]");
}

static char fbuf[1 << 16];
static size_t fpos;
#ifdef GGGGC_FEATURE_FINALIZERS
static void finElem(void *o)
{
    if (fpos > sizeof(fbuf) - 100) return;
    fpos += (size_t) sprintf(fbuf + fpos, fpos ? ",%ld" : "%ld", idOf((Elem) o));
}
#endif

/* put a new unit into an array */
static void uset(int x, int y, int val)
{
    switch (ut[x]) {
#define SETU(n, t) case n: { t v; GGC_ ## t ## _Unit o = NULL; GGC_ ## t ## _UnitArray ua = NULL; GGC_PUSH_2(o, ua); \
    o = GGC_NEW(GGC_ ## t ## _Unit); ua = (GGC_ ## t ## _UnitArray) us[x]; \
    uval(n, val, &v); GGC_WD(o, v, v); GGC_WAP(ua, y, o); GGC_POP(); break; }
        UNITS(SETU)
    }
}

static void runScript(void)
{
    int i;
    /* the typed names must name the same things */
    GGC_PUSH_5(e[0], e[1], e[2], e[3], e[4]);
    GGC_GLOBALIZE();
    {
        GGC_PUSH_8(ls[0], ls[1], ls[2], as[0], as[1], ms[0], ms[1], ms[2]);
        GGC_GLOBALIZE();
        {
            GGC_PUSH_2(us[0], us[1]);
            GGC_GLOBALIZE();
            while (nextOp()) {
                long r = 0;
                int x = a[0] - 1, y = a[1] - 1;
                fpos = 0;
                if (IS("newe")) { e[x] = newElem(); r = idOf(e[x]); }
                else if (IS("mve")) e[x] = e[y];
                else if (IS("clre")) e[x] = NULL;
                else if (IS("newl")) ls[x] = GGC_NEW(ElemList);
                else if (IS("mvl")) ls[x] = ls[y];
                else if (IS("clrl")) ls[x] = NULL;
                else if (IS("lpush")) ElemListPush(ls[x], e[y]);
                else if (IS("lunshift")) ElemListUnshift(ls[x], e[y]);
                else if (IS("lshift")) { e[y] = ElemListShift(ls[x]); r = idOf(e[y]); }
                else if (IS("lpushl")) ElemListPushList(ls[x], ls[y]);
                else if (IS("lunshiftl")) ElemListUnshiftList(ls[x], ls[y]);
                else if (IS("lins")) ElemListInsertAfter(ls[x], nodeAt(ls[x], a[1]), e[a[2]-1]);
                else if (IS("linsl")) ElemListInsertAfterList(ls[x], nodeAt(ls[x], a[1]), ls[a[2]-1]);
                else if (IS("ltoarr")) as[y] = ElemListToArray(ls[x]);
                else if (IS("ltrav")) {
                    ElemListNode n = NULL, nx = NULL;
                    GGC_PUSH_2(n, nx);
                    i = 0;
                    for (n = GGC_RP(ls[x], head); n; n = nx) {
                        nx = GGC_RP(n, next);
                        if (++i % a[1] == 0) {
                            if (i % 7 == 0) churn(i % 3);
                            ElemListInsertAfter(ls[x], n, e[a[2]-1]);
                        }
                    }
                    GGC_POP();
                } else if (IS("lfill")) {
                    Elem t = NULL;
                    GGC_PUSH_1(t);
                    r = nelem + 1;
                    for (i = 0; i < a[1]; i++) { t = newElem(); ElemListPush(ls[x], t); }
                    GGC_POP();
                } else if (IS("newm")) {
                    ms[x] = a[2] ? (void *) GGC_NEW(SMap) : (void *) GGC_NEW(IMap);
                    mmode[x] = a[1]; mkind[x] = a[2];
                } else if (IS("mvm")) { ms[x] = ms[y]; mmode[x] = mmode[y]; mkind[x] = mkind[y]; }
                else if (IS("clrm")) ms[x] = NULL;
                else if (IS("mclone")) {
                    ms[y] = mkind[x] ? (void *) SMapClone((SMap) ms[x]) : (void *) IMapClone((IMap) ms[x]);
                    mmode[y] = mmode[x]; mkind[y] = mkind[x];
                } else if (IS("put")) put(x, a[1], a[2] - 1);
                else if (IS("get")) {
                    Elem t = NULL;
                    GGC_PUSH_1(t);
                    if (get(x, a[1], &t)) { r = idOf(t); e[a[2]-1] = t; }
                    else r = t ? -996 : -1;
                    GGC_POP();
                } else if (IS("mfill")) for (i = 0; i < a[1]; i++) put(x, i, a[2] - 1);
                else if (IS("mnew")) {
                    Elem keep = NULL;
                    GGC_PUSH_1(keep);
                    keep = e[0];
                    r = nelem + 1;
                    for (i = 0; i < a[2]; i++) { e[0] = newElem(); put(x, a[1] + i, 0); }
                    e[0] = keep;
                    GGC_POP();
                }
                else if (IS("newu")) {
                    ut[x] = a[1];
                    switch (a[1]) {
#define NEWU(n, t) case n: us[x] = (GGC_voidpArray) GGC_NEW_PA(GGC_ ## t ## _Unit, a[2]); break;
                        UNITS(NEWU)
                    }
                } else if (IS("uset")) uset(x, y, a[2]);
                else if (IS("ufill")) { for (i = 0; i < (int) GGC_LENGTH(us[x]); i++) uset(x, i, (a[1] + i) % 10);
                } else if (IS("uget")) r = unitAt(x, y);
                else if (IS("deunit")) {
                    /* many times: every result must be the same; the garbage makes conversions collect */
                    lputs(",\"d\":[");
                    switch (ut[x]) {
#define DEU(n, t) case n: { \
    GGC_ ## t ## _Array d = NULL; int k, bad = 0; static long vs[1000]; int len = 0; GGC_PUSH_1(d); \
    for (k = 0; k < a[1] && !bad; k++) { \
        d = GGC_ ## t ## _UnitArrayDeunit((GGC_ ## t ## _UnitArray) us[x]); \
        if (k && len != (int) GGC_LENGTH(d)) bad = 1; \
        len = (int) GGC_LENGTH(d); \
        for (i = 0; i < len && i < 1000; i++) { \
            t v = GGC_RAD(d, i); long u = unval(n, &v, sizeof(v)); \
            if (k && vs[i] != u) bad = 1; \
            vs[i] = u; \
        } \
    } \
    for (i = 0; i < len && i < 1000; i++) { if (i) lputs(","); lnum(vs[i]); } \
    GGC_POP(); break; }
                        UNITS(DEU)
                    }
                    lputs("]");
                }
#ifdef GGGGC_FEATURE_FINALIZERS
                else if (IS("fin")) GGC_FINALIZE(e[x], finElem);
#endif
                else if (IS("collect")) GGC_COLLECT();
                else if (IS("churn")) churn(a[0]);
                else if (IS("obs")) obs();
                else { fprintf(stderr, "hcoll: unknown op %s\n", opName); _exit(97); }
                lputs(",\"r\":");
                lnum(r);
                fbuf[fpos] = 0;
                lputs(",\"fin\":[");
                lputs(fbuf);
                lputs("]}\n");
            }
            GGC_POP();
        }
        GGC_POP();
    }
    GGC_POP();
}
