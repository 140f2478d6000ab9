#include "common.h"
static void gpool(bool mx, int nd, u32 N, u32 C, u32 H, u32 W, bool exact) {
  Tensor *x = nd == 4 ? new Tensor(N, C, H, W) : new Tensor(N, C, W), *y = nd == 4 ? new Tensor(N, C, 1, 1) : new Tensor(N, C, 1);
  for (u32 i = 0; i < N * C * H * W; i++) x->access_blob(i) = vp_f32x("x", 1); for (u32 i = 0; i < N * C; i++) y->access_blob(i) = vp_f32("dirty");
  if (mx) { auto *l = new naive::GlobalMaxPooling("g", 0, op_type::GlobalMaxPool); l->run(x, y); delete l; } else { auto *l = new naive::GlobalAveragePooling("g", 0, op_type::GlobalAveragePool); l->run(x, y); delete l; }
  for (u32 c = 0; c < N * C; c++) { float o = y->access_blob(c), s = 0, m = x->access_blob(c * H * W); int eq = 0;
    for (u32 i = 0; i < H * W; i++) { float v = x->access_blob(c * H * W + i); s += v; m = v > m ? v : m; if (exact) { vp_assert(o >= v, "global maximum is not below any element"); eq |= fbits_eq(o, v); } }
    if (exact) vp_assert(eq, "global maximum is one of the channel's elements"); else if (mx) vp_eq(o, m, "global maximum of the channel"); else vp_eq(o, s / (float)(H * W), "mean of the channel"); }
  vp_reach(nd == 4 ? "4d" : "3d"); delete x; delete y;
}
extern "C" {
void c05_small() { u32 mx = vp_pick("max", 0, 1), nd = vp_pick("rank", 3, 4), N = vp_pick("N", 1, 2), C = vp_pick("C", 1, 3), H = vp_pick("H", 1, DEEP(5, 12)), W = vp_pick("W", 1, DEEP(5, 12)); vp_assume(nd == 4 || H == 1); vp_mode(1); gpool(mx, nd, N, C, H, W, false); }
void c05_exact() { u32 nd = vp_pick("rank", 3, 4), C = vp_pick("C", 1, 2), H = vp_pick("H", 1, 3), W = vp_pick("W", 1, 4); vp_assume((nd == 4 || H == 1) && H * W <= DEEP(6, 8)); gpool(true, nd, 1, C, H, W, true); }
void c05_large() { static const u32 T[15][5] = {{4, 1, 1, 1, 150}, {4, 1, 1, 150, 1}, {4, 1, 70, 1, 2}, {3, 1, 1, 1, 200}, {3, 2, 35, 1, 3}, {4, 1, 2, 13, 13}, {4, 3, 2, 7, 5}, {4, 1, 1, 16, 17}, {3, 1, 2, 1, 129}, {4, 1, 1, 1, 1063}, {4, 1, 1, 1063, 1}, {3, 1, 1, 1, 1063}, {4, 1, 263, 2, 1}, {3, 1, 263, 1, 2}, {4, 19, 1, 1, 2}}; const u32 *t = T[vp_pick("case", 0, 14)]; u32 mx = vp_pick("max", 0, 1); vp_mode(1); gpool(mx, t[0], t[1], t[2], t[3], t[4], false); }
}
