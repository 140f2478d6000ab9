#include "common.h"
// window maximum over the real input elements; exact mode checks bit identity, real mode the value
static void maxpool(int nd, u32 N, u32 C, u32 H, u32 W, u32 kh, u32 kw, const u32 *pad, u32 sh, u32 sw, bool exact) {
  u32 pt = pad ? pad[0] : 0, pl = pad ? pad[1] : 0, pb = pad ? pad[2] : 0, pr = pad ? pad[3] : 0; // for 1-D: pt = pb = 0
  vp_assume(H + pt + pb >= kh && W + pl + pr >= kw); u32 OH = (H + pt + pb - kh) / sh + 1, OW = (W + pl + pr - kw) / sw + 1;
  Tensor *x = nd == 4 ? new Tensor(N, C, H, W) : new Tensor(N, C, W), *y = nd == 4 ? new Tensor(N, C, OH, OW) : new Tensor(N, C, OW);
  for (u32 i = 0; i < N * C * H * W; i++) x->access_blob(i) = vp_f32x("x", 1); for (u32 i = 0; i < N * C * OH * OW; i++) y->access_blob(i) = vp_f32("dirty");
  u32 k4[2] = {kh, kw}, s4[2] = {sh, sw}, p4[4] = {pt, pl, pb, pr}, k3[2] = {kw, 0}, s3[2] = {sw, 0}, p3[4] = {pl, pr, 0, 0};
  auto *l = nd == 4 ? new naive::MaxPooling("mp", 0, op_type::MaxPool, k4, s4, pad ? p4 : nullptr) : new naive::MaxPooling("mp", 0, op_type::MaxPool, k3, s3, pad ? p3 : nullptr);
  l->run(x, y);
  for (u32 c = 0; c < N * C; c++) for (u32 r = 0; r < OH; r++) for (u32 q = 0; q < OW; q++) {
    float o = y->access_blob((c * OH + r) * OW + q), m = 0; bool any = false; int eq = 0;
    for (u32 i = 0; i < kh; i++) for (u32 j = 0; j < kw; j++) {
      int32_t yy = (int32_t)(r * sh + i) - (int32_t)pt, xx = (int32_t)(q * sw + j) - (int32_t)pl; if (yy < 0 || xx < 0 || yy >= (int32_t)H || xx >= (int32_t)W) continue;
      float v = x->access_blob((c * H + yy) * W + xx); if (exact) { vp_assert(o >= v, "max pooling output is not below any element of its window"); eq |= fbits_eq(o, v); } else { m = any ? (v > m ? v : m) : v; any = true; }
    }
    if (exact) vp_assert(eq, "max pooling output is bit-identical to an element of its window"); else vp_eq(o, m, "max pooling output is the window maximum");
  }
  vp_reach(nd == 4 ? "2d" : "1d"); delete l; delete x; delete y;
}
static const u32 COL[5][5] = {{3, 1, 1, 0, 0}, {4, 3, 1, 1, 1}, {4, 2, 2, 0, 1}, {5, 2, 3, 1, 0}, {5, 3, 2, 2, 0}};
static void axis(bool rows, u32 maxE) {
  u32 e = vp_pick("extent", 1, maxE), k = vp_pick("kernel", 1, 4), s = vp_pick("stride", 1, 4), a = vp_pick("lead", 0, 2), z = vp_pick("trail", 0, 2); const u32 *q = COL[vp_pick("other", 0, 4)]; vp_assume(a < k && z < k); vp_mode(1);
  u32 pad[4] = {rows ? a : q[3], rows ? q[3] : a, rows ? z : q[4], rows ? q[4] : z}; bool none = !pad[0] && !pad[1] && !pad[2] && !pad[3];
  if (rows) maxpool(4, 1, 1, e, q[0], k, q[1], none ? nullptr : pad, s, q[2], false); else maxpool(4, 1, 1, q[0], e, q[1], k, none ? nullptr : pad, q[2], s, false);
}
extern "C" {
void c03_rows() { axis(true, DEEP(6, 9)); } void c03_cols() { axis(false, DEEP(6, 9)); }
void c03_1d() { u32 e = vp_pick("extent", 1, DEEP(8, 12)), k = vp_pick("kernel", 1, DEEP(5, 7)), s = vp_pick("stride", 1, 4), a = vp_pick("lead", 0, 3), z = vp_pick("trail", 0, 3); vp_assume(a < k && z < k); vp_mode(1); u32 pad[4] = {0, a, 0, z}; maxpool(3, 1, 1, 1, e, 1, k, a || z ? pad : nullptr, 1, s, false); }
void c03_exact() { // every bit pattern but NaN
  static const u32 T[12][10] = {{2, 2, 2, 2, 0, 0, 0, 0, 1, 1}, {3, 3, 2, 2, 0, 0, 0, 0, 1, 1}, {2, 2, 2, 2, 1, 0, 0, 1, 1, 1}, {2, 3, 3, 3, 1, 1, 1, 1, 1, 1}, {3, 4, 3, 2, 0, 1, 2, 0, 2, 1}, {1, 1, 3, 3, 1, 1, 1, 1, 1, 1}, {1, 5, 1, 3, 0, 0, 0, 0, 1, 2}, {1, 5, 1, 3, 0, 2, 0, 1, 1, 1}, {4, 1, 2, 1, 1, 0, 1, 0, 2, 1}, {4, 4, 2, 2, 0, 0, 0, 0, 2, 2}, {2, 2, 1, 1, 0, 0, 0, 0, 1, 1}, {5, 5, 3, 3, 1, 0, 0, 1, 2, 2}};
  const u32 *t = T[vp_pick("case", 0, 11)]; maxpool(4, 1, 1, t[0], t[1], t[2], t[3], t[4] + t[5] + t[6] + t[7] ? t + 4 : nullptr, t[8], t[9], true);
}
void c03_exact1d() { u32 e = vp_pick("extent", 1, 5), k = vp_pick("kernel", 1, 3), s = vp_pick("stride", 1, 2), a = vp_pick("lead", 0, 1), z = vp_pick("trail", 0, 2); vp_assume(a < k && z < k); u32 pad[4] = {0, a, 0, z}; maxpool(3, 1, 1, 1, e, 1, k, a || z ? pad : nullptr, 1, s, true); }
void c03_chan() { u32 n = vp_pick("batch", 1, 3), c = vp_pick("channels", 1, 4), k = vp_pick("kind", 0, 3); vp_mode(1); u32 p[4] = {1, 0, 0, 1}, q[4] = {0, 1, 0, 1}; if (k == 0) maxpool(4, n, c, 3, 4, 2, 2, nullptr, 1, 2, false); else if (k == 1) maxpool(4, n, c, 3, 2, 2, 2, p, 2, 1, false); else if (k == 2) maxpool(3, n, c, 1, 5, 1, 2, nullptr, 1, 2, false); else maxpool(3, n, c, 1, 4, 1, 3, q, 1, 1, false); }
void c03_large() { u32 k = vp_pick("case", 0, 20); vp_mode(1); u32 p1[4] = {1, 1, 1, 1}, p0[4] = {0, 0, 1, 1}, p2[4] = {0, 2, 0, 3}, p15[4] = {17, 12, 16, 15}, p16[4] = {0, 20, 0, 30};
  switch (k) { case 0: maxpool(4, 1, 2, 13, 13, 3, 3, nullptr, 2, 2, false); break; case 1: maxpool(4, 1, 1, 16, 20, 3, 3, p1, 2, 2, false); break; case 2: maxpool(4, 1, 40, 2, 2, 2, 2, nullptr, 2, 2, false); break; case 3: maxpool(3, 1, 1, 1, 200, 1, 5, p2, 1, 3, false); break; case 4: maxpool(4, 1, 1, 9, 9, 9, 9, nullptr, 1, 1, false); break; case 5: maxpool(4, 1, 1, 10, 12, 5, 7, p0, 3, 4, false); break; case 6: maxpool(4, 1, 1, 140, 1, 2, 1, nullptr, 2, 1, false); break; case 7: maxpool(4, 1, 1, 1, 140, 1, 2, nullptr, 1, 2, false); break; case 8: maxpool(3, 2, 33, 1, 3, 1, 2, nullptr, 1, 1, false); break;
    case 9: maxpool(4, 1, 1, 1063, 1, 2, 1, nullptr, 2, 1, false); break; case 10: maxpool(4, 1, 1, 2, 1063, 2, 2, nullptr, 1, 2, false); break; case 11: maxpool(3, 1, 1, 1, 1063, 1, 3, nullptr, 1, 2, false); break; case 12: maxpool(4, 1, 263, 2, 1, 2, 1, nullptr, 1, 1, false); break; case 13: maxpool(3, 1, 263, 1, 2, 1, 2, nullptr, 1, 1, false); break; case 14: maxpool(4, 19, 3, 2, 1, 2, 1, nullptr, 1, 1, false); break; case 15: maxpool(3, 19, 3, 1, 2, 1, 2, nullptr, 1, 1, false); break; case 16: maxpool(4, 1, 1, 17, 2, 17, 1, nullptr, 1, 1, false); break; case 17: maxpool(4, 1, 1, 2, 17, 1, 17, nullptr, 1, 1, false); break; case 18: maxpool(4, 1, 1, 40, 37, 3, 2, nullptr, 17, 19, false); break; case 19: maxpool(4, 1, 1, 6, 7, 19, 17, p15, 3, 5, false); break; case 20: maxpool(3, 1, 1, 1, 20, 1, 33, p16, 1, 3, false); break; } }
void c03_cross() { u32 H = vp_pick("H", 1, DEEP(4, 5)), W = vp_pick("W", 1, DEEP(4, 5)), kh = vp_pick("kh", 1, 3), kw = vp_pick("kw", 1, 3), sh = vp_pick("sh", 1, 2), sw = vp_pick("sw", 1, 2); u32 pad[4] = {vp_pick("pt", 0, 1), vp_pick("pl", 0, 2), vp_pick("pb", 0, 2), vp_pick("pr", 0, 1)}; vp_assume(pad[0] < kh && pad[2] < kh && pad[1] < kw && pad[3] < kw); vp_mode(1); maxpool(4, 1, 2, H, W, kh, kw, pad, sh, sw, false); }
}
