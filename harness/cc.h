/* The C++ interface: the same operations as the macros', by reference objects
 * and overloaded members. How each is done depends on ccWay, which goes
 * through all of the ways. Included by hd.c when HD_CC is defined. */
typedef GGC<vp> Ref;
typedef GGCPA<vp, GGC_voidpArray> RefPA;
typedef GGCDA<size_t, GGC_size_t_Array> RefDA;
typedef GGCDA<char, GGC_char_Array> RefCA;
typedef GGCDA<double, GGC_double_Array> RefDD;

static unsigned long ccWay = 12345;
static int ways(int n)
{
    ccWay = ccWay * 6364136223846793005UL + 1442695040888963407UL;
    return (int) ((ccWay >> 33) % (unsigned long) n);
}

/******************************************************************** frames */
/* the reference objects which are the variables of frames */
static Ref *ccRefs[64][16];
static void var(int fr, int i, Ref &r) { frameSlot(fr, i, &r.ptr); ccRefs[fr][i] = &r; }
static Ref *refAt(int f, int s) { return f > 0 ? ccRefs[f - 1][s - 1] : NULL; }

static void ccNest(int fr, int i, int n)
{
    Ref w;
    var(fr, i, w);
    if (i + 1 < n) ccNest(fr, i + 1, n); else interp(fr + 1);
}
template<int N> static void ccArray(int fr, int n)
{
    Ref w[N];
    for (int i = 0; i < n; i++) var(fr, i, w[i]);
    interp(fr + 1);
}
struct CcPop {};
static void ccMixed(int fr, int i, int n)
{
    RefPA pa;
    GGC<Leaf> leaf;
    void *a = NULL, *b = NULL;
    GGC_PUSH_2(a, b);
    RefDA da(nullptr);
    GGC<Pair> pair((Pair) NULL);
    void *all[6] = {&a, &pa.ptr, &pair.ptr, &da.ptr, &b, &leaf.ptr};
    for (int k = 0; k < 6 && i + k < n; k++) frameSlot(fr, i + k, all[k]);
    if (i + 6 < n) ccMixed(fr, i + 6, n); else interp(fr + 1);
    throw CcPop();
}
static void ccValue(int fr, int i, int n, Ref x, Ref y)
{
    var(fr, i, x);
    if (i + 1 < n) var(fr, i + 1, y);
    if (i + 2 < n) ccValue(fr, i + 2, n, Ref(), nullptr); else interp(fr + 1);
}
static void ccPush(int kind, int n, int fr)
{
    for (int i = 0; i < 16; i++) ccRefs[fr][i] = NULL;
    switch (kind) {
        case 0: ccNest(fr, 0, n); break;
        case 1: if (n <= 4) ccArray<4>(fr, n); else if (n <= 11) ccArray<11>(fr, n); else ccArray<16>(fr, n); break;
        case 2: try { ccMixed(fr, 0, n); } catch (CcPop &) { } break;
        default: ccValue(fr, 0, n, nullptr, Ref((vp) NULL)); break;
    }
}

/************************************************************* single members */
#define CC_SET(o, m, v) do { \
    switch (ways(3)) { \
        case 0: (o)->m = (v); break; \
        case 1: { Ref r_(v); (o)->m = r_; break; } \
        default: { Ref r_; r_ = (v); vp &x_ = r_; (o)->m = x_; } \
    } } while (0)
#define CC_GET(o, m, v) do { \
    switch (ways(3)) { \
        case 0: (v) = (o)->m; break; \
        case 1: { Ref r_ = (vp) (o)->m; (v) = r_.get(); break; } \
        default: { Ref r_; r_ = (o)->m; (v) = r_; } \
    } } while (0)
/* (by a plain reference, a reference object, or a copy of one) */
#define CC_OBJ(T, p, DO) do { \
    switch (ways(3)) { \
        case 0: { T o = (T) (p); DO; break; } \
        case 1: { GGC<T> o((T) (p)); DO; break; } \
        default: { GGC<T> o1((T) (p)), o2; o2 = o1; const GGC<T> o(o2); DO; } \
    } } while (0)

static int ccSetRef(void *p, int t, int m, void *v)
{
    switch (t) {
        case TOne: CC_OBJ(One, p, CC_SET(o, a, v)); break;
        case TPair: if (m == 1) CC_OBJ(Pair, p, CC_SET(o, a, v)); else CC_OBJ(Pair, p, CC_SET(o, b, v)); break;
        case TMixed:
            if (m == 1) CC_OBJ(Mixed, p, CC_SET(o, a, v)); else if (m == 2) CC_OBJ(Mixed, p, CC_SET(o, b, v));
            else CC_OBJ(Mixed, p, CC_SET(o, e, v));
            break;
        case TBig:
            if (m == 1) CC_OBJ(Big, p, CC_SET(o, a, v)); else if (m == 2) CC_OBJ(Big, p, CC_SET(o, b, v));
            else if (m == 3) CC_OBJ(Big, p, CC_SET(o, c, v)); else CC_OBJ(Big, p, CC_SET(o, e, v));
            break;
        case TPA: {
            RefPA a((GGC_voidpArray) p), b(a), c;
            c = b;
            c = (GGC_voidpArray) p;
            c = (const GGC<GGC_voidpArray> &) b;
            RefPA &o = ways(2) ? a : c;
            if (ways(2)) o.put((ggc_size_t) m, v);
            else { Ref r(v); if (o.put((ggc_size_t) m, r) != v) return 0; }
            break;
        }
        case TBlob: { BNode n = blobLast((Blob) p); CC_OBJ(BNode, n, CC_SET(o, ext, v)); break; }
        default: return 0;
    }
    return 1;
}
static int ccGetRef(void *p, int t, int m, void **out)
{
    void *v = NULL;
    switch (t) {
        case TOne: CC_OBJ(One, p, CC_GET(o, a, v)); break;
        case TPair: if (m == 1) CC_OBJ(Pair, p, CC_GET(o, a, v)); else CC_OBJ(Pair, p, CC_GET(o, b, v)); break;
        case TMixed:
            if (m == 1) CC_OBJ(Mixed, p, CC_GET(o, a, v)); else if (m == 2) CC_OBJ(Mixed, p, CC_GET(o, b, v));
            else CC_OBJ(Mixed, p, CC_GET(o, e, v));
            break;
        case TBig:
            if (m == 1) CC_OBJ(Big, p, CC_GET(o, a, v)); else if (m == 2) CC_OBJ(Big, p, CC_GET(o, b, v));
            else if (m == 3) CC_OBJ(Big, p, CC_GET(o, c, v)); else CC_OBJ(Big, p, CC_GET(o, e, v));
            break;
        case TPA: {
            RefPA a((GGC_voidpArray) p), b(a);
            RefPA &o = ways(2) ? a : b;
            v = ways(2) ? o[(ggc_size_t) m] : o.get((ggc_size_t) m);
            break;
        }
        case TBlob: { BNode n = blobLast((Blob) p); CC_OBJ(BNode, n, CC_GET(o, ext, v)); break; }
        default: return 0;
    }
    *out = v;
    return 1;
}
static int ccSetData(void *p, int t, int m, int v)
{
    size_t x = dtab[v & 15];
    char c = (char) v; short s = (short) v; float f = (float) v; double d = (double) v;
    switch (t) {
        case TPair: CC_OBJ(Pair, p, o->x = x); break;
        case TMixed:
            if (m == 1) CC_OBJ(Mixed, p, o->c = c); else if (m == 2) CC_OBJ(Mixed, p, o->s = s); else CC_OBJ(Mixed, p, o->f = d);
            break;
        case TData:
            if (m == 1) CC_OBJ(Data, p, o->c = c); else if (m == 2) CC_OBJ(Data, p, o->s = s);
            else if (m == 3) CC_OBJ(Data, p, o->f = f); else CC_OBJ(Data, p, o->x = x);
            break;
        case TDA: { RefDA a((GGC_size_t_Array) p), b(a), e; e = b; e = (GGC_size_t_Array) p; if (ways(2)) e.put(m, x); else b.put(m, x); break; }
        case TCA: { RefCA a((GGC_char_Array) p), b(a), e; e = b; if (ways(2)) e.put(m + 7, c); else b.put(m + 7, c); break; }
        case TDD: { RefDD a((GGC_double_Array) p), b(a), e; e = b; if (ways(2)) e.put(m, d); else b.put(m, d); break; }
        default: return 0;
    }
    return 1;
}
static int ccGetData(void *p, int t, int m, long *r)
{
    size_t x = 0; char c = 0; short s = 0; float f = 0; double d = 0;
    switch (t) {
        case TPair: CC_OBJ(Pair, p, x = o->x); *r = dval(x); break;
        case TMixed:
            if (m == 1) { CC_OBJ(Mixed, p, c = o->c); *r = c; }
            else if (m == 2) { CC_OBJ(Mixed, p, s = o->s); *r = s; }
            else { CC_OBJ(Mixed, p, d = o->f); *r = (long) d; }
            break;
        case TData:
            if (m == 1) { CC_OBJ(Data, p, c = o->c); *r = c; }
            else if (m == 2) { CC_OBJ(Data, p, s = o->s); *r = s; }
            else if (m == 3) { CC_OBJ(Data, p, f = o->f); *r = (long) f; }
            else { CC_OBJ(Data, p, x = o->x); *r = dval(x); }
            break;
        case TDA: { RefDA a((GGC_size_t_Array) p); *r = dval(ways(2) ? a[m] : a.get(m)); break; }
        case TCA: { RefCA a((GGC_char_Array) p); *r = ways(2) ? a[m + 7] : a.get(m + 7); break; }
        case TDD: { RefDD a((GGC_double_Array) p); *r = (long) (ways(2) ? a[m] : a.get(m)); break; }
        default: return 0;
    }
    return 1;
}
/* from member to member */
static int ccCopy(void *p, int t, int m, void *q, int t2, int m2)
{
    if (t == t2 && m == m2 && ways(4)) switch (t) {
        case TOne: { One y = (One) q; CC_OBJ(One, p, o->a = y->a); return 1; }
        case TPair: { Pair y = (Pair) q; if (m == 1) CC_OBJ(Pair, p, o->a = y->a); else CC_OBJ(Pair, p, o->b = y->b); return 1; }
        case TMixed: {
            Mixed y = (Mixed) q;
            if (m == 1) CC_OBJ(Mixed, p, o->a = y->a); else if (m == 2) CC_OBJ(Mixed, p, o->b = y->b);
            else CC_OBJ(Mixed, p, o->e = y->e);
            return 1;
        }
        case TBig: {
            Big y = (Big) q;
            if (m == 1) CC_OBJ(Big, p, o->a = y->a); else if (m == 2) CC_OBJ(Big, p, o->b = y->b);
            else if (m == 3) CC_OBJ(Big, p, o->c = y->c); else CC_OBJ(Big, p, o->e = y->e);
            return 1;
        }
        default: break;
    }
    {
        void *v;
        return ccGetRef(q, t2, m2, &v) && ccSetRef(p, t, m, v);
    }
}

/**************************************************************** variables */
static void ccMove(int df, int ds, int sf, int ss)
{
    Ref *d = refAt(df, ds), *s = refAt(sf, ss);
    void **dv = slot(df, ds), **sv = slot(sf, ss);
    switch (ways(8)) {
        case 0: if (d && s) { *d = *s; break; } /* fall through */
        case 1: if (d) { *d = *sv; break; } /* fall through */
        case 2: if (s) { *dv = s->get(); break; } /* fall through */
        case 3: { Ref a(*sv), b(a), c; c = b; *dv = c; break; }
        case 4: { Ref a(*sv); if (d) { const Ref &c = a; *d = c; } else { vp &r = a; *dv = r; } break; }
        case 5: if (s) { Ref a(*s); *dv = a; break; } /* fall through */
        case 6: if (d) { Ref a; a = *sv; (*d = nullptr) = a; break; } /* fall through */
        default: { const GGC<Leaf> a((Leaf) *sv); GGC<Leaf> b(a); *dv = b.get(); }
    }
}
static int ccEqual(void *x, void *y)
{
    Ref a(x), b(y);
    const Ref ca(a);
    int n = 0, k = 0;
    n++; k += a == b;
    n++; k += ca == b;
    n++; k += a == y;
    n++; k += ca.get() == b.get();
    if (k != 0 && k != n) return BAD;
    if (!a != (x == NULL) || (a ? 1 : 0) != (x != NULL) || (bool) ca != (x != NULL)) return BAD;
    return k != 0;
}
static void ccClear(int f, int s)
{
    Ref *r = refAt(f, s);
    if (!r) { *slot(f, s) = NULL; return; }
    switch (ways(3)) {
        case 0: *r = (vp) NULL; break;
        case 1: *r = Ref(); break;
        default: { Ref n(nullptr); *r = n; }
    }
}
/* an operation which was done: its result in *r */
static int ccOp(const char *n, const int *a, long *r)
{
    if (!ways(5)) return 0;
    if (!strcmp(n, "wp")) return ccSetRef(*slot(a[0], a[1]), a[2], a[3], *slot(a[4], a[5]));
    if (!strcmp(n, "wn")) return ccSetRef(*slot(a[0], a[1]), a[2], a[3], NULL);
    if (!strcmp(n, "rp")) return ccGetRef(*slot(a[0], a[1]), a[2], a[3], slot(a[4], a[5]));
    if (!strcmp(n, "wd")) return ccSetData(*slot(a[0], a[1]), a[2], a[3], a[4]);
    if (!strcmp(n, "rd")) return ccGetData(*slot(a[0], a[1]), a[2], a[3], r);
    if (!strcmp(n, "cp")) return ccCopy(*slot(a[0], a[1]), a[2], a[3], *slot(a[4], a[5]), a[6], a[7]);
    if (!strcmp(n, "mv")) { ccMove(a[0], a[1], a[2], a[3]); return 1; }
    if (!strcmp(n, "eq")) { *r = ccEqual(*slot(a[0], a[1]), *slot(a[2], a[3])); return 1; }
    if (!strcmp(n, "clr")) { ccClear(a[0], a[1]); return 1; }
    return 0;
}
