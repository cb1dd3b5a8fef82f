#!/usr/bin/env python3
# writes frames.h: a function for every push macro and way of popping
L = "abcdefghijklmnop"
o = ["/* generated by gen_frames.py */"]
for n in range(1, 17):
    vs = ["v" + c for c in L[:n]]
    decl = " ".join("void *%s = NULL;" % v for v in vs)
    reg = " ".join("frameSlot(fr, %d, &%s);" % (i, v) for i, v in enumerate(vs))
    args = ", ".join(vs)
    o.append("static void frame0_%d(int fr) { %s GGC_PUSH_%d(%s); %s interp(fr + 1); GGC_POP(); }" % (n, decl, n, args, reg))
    o.append("static int frame1_%d(int fr) { %s GGC_PUSH_%d(%s); %s interp(fr + 1); return 0; }" % (n, decl, n, args, reg))
    o.append("static void frame2_%d(int fr) { %s GGC_PUSH_MANUAL_%d(%s); %s interp(fr + 1); GGC_POP_MANUAL(); }" % (n, decl, n, args, reg))
    o.append("#ifdef HAVE_PUSH_N\n#define PPS_%d { %s }\nstatic void frame3_%d(int fr) { %s GGC_PUSH_N(%d, PPS_%d); %s interp(fr + 1); GGC_POP(); }\n#endif"
             % (n, ", ".join("&" + v for v in vs), n, decl, n, n, reg))
    g = ["g%d_" % n + c for c in L[:n]]
o.append("static void doPush(int kind, int n, int fr) {\n  switch (kind * 100 + n) {")
for n in range(1, 17):
    o.append("  case %d: frame0_%d(fr); break;" % (n, n))
    o.append("  case %d: frame1_%d(fr); break;" % (100 + n, n))
    o.append("  case %d: frame2_%d(fr); break;" % (200 + n, n))
    o.append("#ifdef HAVE_PUSH_N\n  case %d: frame3_%d(fr); break;\n#else\n  case %d: frame0_%d(fr); break;\n#endif" % (300 + n, n, 300 + n, n))
o.append("  default: fprintf(stderr, \"bad push\\n\"); _exit(99);\n  }\n}")
open(__file__.replace("gen_frames.py", "frames.h"), "w").write("\n".join(o) + "\n")
