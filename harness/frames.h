/* generated by gen_frames.py */
static void frame0_1(int fr) { void *va = NULL; GGC_PUSH_1(va); frameSlot(fr, 0, &va); interp(fr + 1); GGC_POP(); }
static int frame1_1(int fr) { void *va = NULL; GGC_PUSH_1(va); frameSlot(fr, 0, &va); interp(fr + 1); return 0; }
static void frame2_1(int fr) { void *va = NULL; GGC_PUSH_MANUAL_1(va); frameSlot(fr, 0, &va); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_1 { &va }
static void frame3_1(int fr) { void *va = NULL; GGC_PUSH_N(1, PPS_1); frameSlot(fr, 0, &va); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_2(int fr) { void *va = NULL; void *vb = NULL; GGC_PUSH_2(va, vb); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); interp(fr + 1); GGC_POP(); }
static int frame1_2(int fr) { void *va = NULL; void *vb = NULL; GGC_PUSH_2(va, vb); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); interp(fr + 1); return 0; }
static void frame2_2(int fr) { void *va = NULL; void *vb = NULL; GGC_PUSH_MANUAL_2(va, vb); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_2 { &va, &vb }
static void frame3_2(int fr) { void *va = NULL; void *vb = NULL; GGC_PUSH_N(2, PPS_2); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_3(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; GGC_PUSH_3(va, vb, vc); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); interp(fr + 1); GGC_POP(); }
static int frame1_3(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; GGC_PUSH_3(va, vb, vc); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); interp(fr + 1); return 0; }
static void frame2_3(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; GGC_PUSH_MANUAL_3(va, vb, vc); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_3 { &va, &vb, &vc }
static void frame3_3(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; GGC_PUSH_N(3, PPS_3); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_4(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; GGC_PUSH_4(va, vb, vc, vd); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); interp(fr + 1); GGC_POP(); }
static int frame1_4(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; GGC_PUSH_4(va, vb, vc, vd); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); interp(fr + 1); return 0; }
static void frame2_4(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; GGC_PUSH_MANUAL_4(va, vb, vc, vd); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_4 { &va, &vb, &vc, &vd }
static void frame3_4(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; GGC_PUSH_N(4, PPS_4); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_5(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; GGC_PUSH_5(va, vb, vc, vd, ve); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); interp(fr + 1); GGC_POP(); }
static int frame1_5(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; GGC_PUSH_5(va, vb, vc, vd, ve); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); interp(fr + 1); return 0; }
static void frame2_5(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; GGC_PUSH_MANUAL_5(va, vb, vc, vd, ve); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_5 { &va, &vb, &vc, &vd, &ve }
static void frame3_5(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; GGC_PUSH_N(5, PPS_5); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_6(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; GGC_PUSH_6(va, vb, vc, vd, ve, vf); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); interp(fr + 1); GGC_POP(); }
static int frame1_6(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; GGC_PUSH_6(va, vb, vc, vd, ve, vf); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); interp(fr + 1); return 0; }
static void frame2_6(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; GGC_PUSH_MANUAL_6(va, vb, vc, vd, ve, vf); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_6 { &va, &vb, &vc, &vd, &ve, &vf }
static void frame3_6(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; GGC_PUSH_N(6, PPS_6); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_7(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; GGC_PUSH_7(va, vb, vc, vd, ve, vf, vg); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); interp(fr + 1); GGC_POP(); }
static int frame1_7(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; GGC_PUSH_7(va, vb, vc, vd, ve, vf, vg); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); interp(fr + 1); return 0; }
static void frame2_7(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; GGC_PUSH_MANUAL_7(va, vb, vc, vd, ve, vf, vg); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_7 { &va, &vb, &vc, &vd, &ve, &vf, &vg }
static void frame3_7(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; GGC_PUSH_N(7, PPS_7); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_8(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; GGC_PUSH_8(va, vb, vc, vd, ve, vf, vg, vh); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); interp(fr + 1); GGC_POP(); }
static int frame1_8(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; GGC_PUSH_8(va, vb, vc, vd, ve, vf, vg, vh); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); interp(fr + 1); return 0; }
static void frame2_8(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; GGC_PUSH_MANUAL_8(va, vb, vc, vd, ve, vf, vg, vh); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_8 { &va, &vb, &vc, &vd, &ve, &vf, &vg, &vh }
static void frame3_8(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; GGC_PUSH_N(8, PPS_8); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_9(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; GGC_PUSH_9(va, vb, vc, vd, ve, vf, vg, vh, vi); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); interp(fr + 1); GGC_POP(); }
static int frame1_9(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; GGC_PUSH_9(va, vb, vc, vd, ve, vf, vg, vh, vi); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); interp(fr + 1); return 0; }
static void frame2_9(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; GGC_PUSH_MANUAL_9(va, vb, vc, vd, ve, vf, vg, vh, vi); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_9 { &va, &vb, &vc, &vd, &ve, &vf, &vg, &vh, &vi }
static void frame3_9(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; GGC_PUSH_N(9, PPS_9); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_10(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; GGC_PUSH_10(va, vb, vc, vd, ve, vf, vg, vh, vi, vj); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); interp(fr + 1); GGC_POP(); }
static int frame1_10(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; GGC_PUSH_10(va, vb, vc, vd, ve, vf, vg, vh, vi, vj); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); interp(fr + 1); return 0; }
static void frame2_10(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; GGC_PUSH_MANUAL_10(va, vb, vc, vd, ve, vf, vg, vh, vi, vj); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_10 { &va, &vb, &vc, &vd, &ve, &vf, &vg, &vh, &vi, &vj }
static void frame3_10(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; GGC_PUSH_N(10, PPS_10); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_11(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; GGC_PUSH_11(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); interp(fr + 1); GGC_POP(); }
static int frame1_11(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; GGC_PUSH_11(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); interp(fr + 1); return 0; }
static void frame2_11(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; GGC_PUSH_MANUAL_11(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_11 { &va, &vb, &vc, &vd, &ve, &vf, &vg, &vh, &vi, &vj, &vk }
static void frame3_11(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; GGC_PUSH_N(11, PPS_11); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_12(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; GGC_PUSH_12(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); interp(fr + 1); GGC_POP(); }
static int frame1_12(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; GGC_PUSH_12(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); interp(fr + 1); return 0; }
static void frame2_12(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; GGC_PUSH_MANUAL_12(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_12 { &va, &vb, &vc, &vd, &ve, &vf, &vg, &vh, &vi, &vj, &vk, &vl }
static void frame3_12(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; GGC_PUSH_N(12, PPS_12); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_13(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; GGC_PUSH_13(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); interp(fr + 1); GGC_POP(); }
static int frame1_13(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; GGC_PUSH_13(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); interp(fr + 1); return 0; }
static void frame2_13(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; GGC_PUSH_MANUAL_13(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_13 { &va, &vb, &vc, &vd, &ve, &vf, &vg, &vh, &vi, &vj, &vk, &vl, &vm }
static void frame3_13(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; GGC_PUSH_N(13, PPS_13); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_14(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; GGC_PUSH_14(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm, vn); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); interp(fr + 1); GGC_POP(); }
static int frame1_14(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; GGC_PUSH_14(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm, vn); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); interp(fr + 1); return 0; }
static void frame2_14(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; GGC_PUSH_MANUAL_14(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm, vn); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_14 { &va, &vb, &vc, &vd, &ve, &vf, &vg, &vh, &vi, &vj, &vk, &vl, &vm, &vn }
static void frame3_14(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; GGC_PUSH_N(14, PPS_14); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_15(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; void *vo = NULL; GGC_PUSH_15(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm, vn, vo); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); frameSlot(fr, 14, &vo); interp(fr + 1); GGC_POP(); }
static int frame1_15(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; void *vo = NULL; GGC_PUSH_15(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm, vn, vo); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); frameSlot(fr, 14, &vo); interp(fr + 1); return 0; }
static void frame2_15(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; void *vo = NULL; GGC_PUSH_MANUAL_15(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm, vn, vo); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); frameSlot(fr, 14, &vo); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_15 { &va, &vb, &vc, &vd, &ve, &vf, &vg, &vh, &vi, &vj, &vk, &vl, &vm, &vn, &vo }
static void frame3_15(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; void *vo = NULL; GGC_PUSH_N(15, PPS_15); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); frameSlot(fr, 14, &vo); interp(fr + 1); GGC_POP(); }
#endif
static void frame0_16(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; void *vo = NULL; void *vp = NULL; GGC_PUSH_16(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm, vn, vo, vp); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); frameSlot(fr, 14, &vo); frameSlot(fr, 15, &vp); interp(fr + 1); GGC_POP(); }
static int frame1_16(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; void *vo = NULL; void *vp = NULL; GGC_PUSH_16(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm, vn, vo, vp); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); frameSlot(fr, 14, &vo); frameSlot(fr, 15, &vp); interp(fr + 1); return 0; }
static void frame2_16(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; void *vo = NULL; void *vp = NULL; GGC_PUSH_MANUAL_16(va, vb, vc, vd, ve, vf, vg, vh, vi, vj, vk, vl, vm, vn, vo, vp); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); frameSlot(fr, 14, &vo); frameSlot(fr, 15, &vp); interp(fr + 1); GGC_POP_MANUAL(); }
#ifdef HAVE_PUSH_N
#define PPS_16 { &va, &vb, &vc, &vd, &ve, &vf, &vg, &vh, &vi, &vj, &vk, &vl, &vm, &vn, &vo, &vp }
static void frame3_16(int fr) { void *va = NULL; void *vb = NULL; void *vc = NULL; void *vd = NULL; void *ve = NULL; void *vf = NULL; void *vg = NULL; void *vh = NULL; void *vi = NULL; void *vj = NULL; void *vk = NULL; void *vl = NULL; void *vm = NULL; void *vn = NULL; void *vo = NULL; void *vp = NULL; GGC_PUSH_N(16, PPS_16); frameSlot(fr, 0, &va); frameSlot(fr, 1, &vb); frameSlot(fr, 2, &vc); frameSlot(fr, 3, &vd); frameSlot(fr, 4, &ve); frameSlot(fr, 5, &vf); frameSlot(fr, 6, &vg); frameSlot(fr, 7, &vh); frameSlot(fr, 8, &vi); frameSlot(fr, 9, &vj); frameSlot(fr, 10, &vk); frameSlot(fr, 11, &vl); frameSlot(fr, 12, &vm); frameSlot(fr, 13, &vn); frameSlot(fr, 14, &vo); frameSlot(fr, 15, &vp); interp(fr + 1); GGC_POP(); }
#endif
static void doPush(int kind, int n, int fr) {
  switch (kind * 100 + n) {
  case 1: frame0_1(fr); break;
  case 101: frame1_1(fr); break;
  case 201: frame2_1(fr); break;
#ifdef HAVE_PUSH_N
  case 301: frame3_1(fr); break;
#else
  case 301: frame0_1(fr); break;
#endif
  case 2: frame0_2(fr); break;
  case 102: frame1_2(fr); break;
  case 202: frame2_2(fr); break;
#ifdef HAVE_PUSH_N
  case 302: frame3_2(fr); break;
#else
  case 302: frame0_2(fr); break;
#endif
  case 3: frame0_3(fr); break;
  case 103: frame1_3(fr); break;
  case 203: frame2_3(fr); break;
#ifdef HAVE_PUSH_N
  case 303: frame3_3(fr); break;
#else
  case 303: frame0_3(fr); break;
#endif
  case 4: frame0_4(fr); break;
  case 104: frame1_4(fr); break;
  case 204: frame2_4(fr); break;
#ifdef HAVE_PUSH_N
  case 304: frame3_4(fr); break;
#else
  case 304: frame0_4(fr); break;
#endif
  case 5: frame0_5(fr); break;
  case 105: frame1_5(fr); break;
  case 205: frame2_5(fr); break;
#ifdef HAVE_PUSH_N
  case 305: frame3_5(fr); break;
#else
  case 305: frame0_5(fr); break;
#endif
  case 6: frame0_6(fr); break;
  case 106: frame1_6(fr); break;
  case 206: frame2_6(fr); break;
#ifdef HAVE_PUSH_N
  case 306: frame3_6(fr); break;
#else
  case 306: frame0_6(fr); break;
#endif
  case 7: frame0_7(fr); break;
  case 107: frame1_7(fr); break;
  case 207: frame2_7(fr); break;
#ifdef HAVE_PUSH_N
  case 307: frame3_7(fr); break;
#else
  case 307: frame0_7(fr); break;
#endif
  case 8: frame0_8(fr); break;
  case 108: frame1_8(fr); break;
  case 208: frame2_8(fr); break;
#ifdef HAVE_PUSH_N
  case 308: frame3_8(fr); break;
#else
  case 308: frame0_8(fr); break;
#endif
  case 9: frame0_9(fr); break;
  case 109: frame1_9(fr); break;
  case 209: frame2_9(fr); break;
#ifdef HAVE_PUSH_N
  case 309: frame3_9(fr); break;
#else
  case 309: frame0_9(fr); break;
#endif
  case 10: frame0_10(fr); break;
  case 110: frame1_10(fr); break;
  case 210: frame2_10(fr); break;
#ifdef HAVE_PUSH_N
  case 310: frame3_10(fr); break;
#else
  case 310: frame0_10(fr); break;
#endif
  case 11: frame0_11(fr); break;
  case 111: frame1_11(fr); break;
  case 211: frame2_11(fr); break;
#ifdef HAVE_PUSH_N
  case 311: frame3_11(fr); break;
#else
  case 311: frame0_11(fr); break;
#endif
  case 12: frame0_12(fr); break;
  case 112: frame1_12(fr); break;
  case 212: frame2_12(fr); break;
#ifdef HAVE_PUSH_N
  case 312: frame3_12(fr); break;
#else
  case 312: frame0_12(fr); break;
#endif
  case 13: frame0_13(fr); break;
  case 113: frame1_13(fr); break;
  case 213: frame2_13(fr); break;
#ifdef HAVE_PUSH_N
  case 313: frame3_13(fr); break;
#else
  case 313: frame0_13(fr); break;
#endif
  case 14: frame0_14(fr); break;
  case 114: frame1_14(fr); break;
  case 214: frame2_14(fr); break;
#ifdef HAVE_PUSH_N
  case 314: frame3_14(fr); break;
#else
  case 314: frame0_14(fr); break;
#endif
  case 15: frame0_15(fr); break;
  case 115: frame1_15(fr); break;
  case 215: frame2_15(fr); break;
#ifdef HAVE_PUSH_N
  case 315: frame3_15(fr); break;
#else
  case 315: frame0_15(fr); break;
#endif
  case 16: frame0_16(fr); break;
  case 116: frame1_16(fr); break;
  case 216: frame2_16(fr); break;
#ifdef HAVE_PUSH_N
  case 316: frame3_16(fr); break;
#else
  case 316: frame0_16(fr); break;
#endif
  default: fprintf(stderr, "bad push\n"); _exit(99);
  }
}
