#include "common.h"
static void avgpool(int nd, u32 N, u32 C, u32 H, u32 W, u32 kh, u32 kw, const u32 *pad, u32 sh, u32 sw, bool incl) {
  u32 pt = pad ? pad[0] : 0, pl = pad ? pad[1] : 0, pb = pad ? pad[2] : 0, pr = pad ? pad[3] : 0;
  vp_assume(H + pt + pb >= kh && W + pl + pr >= kw); u32 OH = (H + pt + pb - kh) / sh + 1, OW = (W + pl + pr - kw) / sw + 1;
  Tensor *x = nd == 4 ? new Tensor(N, C, H, W) : new Tensor(N, C, W), *y = nd == 4 ? new Tensor(N, C, OH, OW) : new Tensor(N, C, OW);
  for (u32 i = 0; i < N * C * H * W; i++) x->access_blob(i) = vp_f32("x"); for (u32 i = 0; i < N * C * OH * OW; i++) y->access_blob(i) = vp_f32("dirty");
  u32 k4[2] = {kh, kw}, s4[2] = {sh, sw}, p4[4] = {pt, pl, pb, pr}, k3[2] = {kw, 0}, s3[2] = {sw, 0}, p3[4] = {pl, pr, 0, 0};
  auto *l = nd == 4 ? new naive::AveragePooling("ap", 0, op_type::AveragePool, k4, s4, pad ? p4 : nullptr, incl) : new naive::AveragePooling("ap", 0, op_type::AveragePool, k3, s3, pad ? p3 : nullptr, incl);
  l->run(x, y);
  for (u32 c = 0; c < N * C; c++) for (u32 r = 0; r < OH; r++) for (u32 q = 0; q < OW; q++) {
    float s = 0; u32 n = 0;
    for (u32 i = 0; i < kh; i++) for (u32 j = 0; j < kw; j++) { int32_t yy = (int32_t)(r * sh + i) - (int32_t)pt, xx = (int32_t)(q * sw + j) - (int32_t)pl; if (yy < 0 || xx < 0 || yy >= (int32_t)H || xx >= (int32_t)W) continue; s += x->access_blob((c * H + yy) * W + xx); n++; }
    vp_eq(y->access_blob((c * OH + r) * OW + q), s / (float)(incl ? kh * kw : n), incl ? "average over the full kernel (padding counted)" : "average over the real elements (padding not counted)");
  }
  vp_reach(nd == 4 ? "2d" : "1d"); delete l; delete x; delete y;
}
static const u32 COL[5][5] = {{3, 1, 1, 0, 0}, {4, 3, 1, 1, 1}, {4, 2, 2, 0, 1}, {5, 2, 3, 1, 0}, {5, 3, 2, 2, 0}};
static void axis(bool rows, u32 maxE) {
  u32 e = vp_pick("extent", 1, maxE), k = vp_pick("kernel", 1, 4), s = vp_pick("stride", 1, 3), a = vp_pick("lead", 0, 2), z = vp_pick("trail", 0, 2), inc = vp_pick("include_pad", 0, 1); const u32 *q = COL[vp_pick("other", 0, 4)]; vp_assume(a < k && z < k); vp_mode(1);
  u32 pad[4] = {rows ? a : q[3], rows ? q[3] : a, rows ? z : q[4], rows ? q[4] : z}; bool none = !pad[0] && !pad[1] && !pad[2] && !pad[3];
  if (rows) avgpool(4, 1, 1, e, q[0], k, q[1], none ? nullptr : pad, s, q[2], inc); else avgpool(4, 1, 1, q[0], e, q[1], k, none ? nullptr : pad, q[2], s, inc);
}
extern "C" {
void c04_rows() { axis(true, DEEP(5, 9)); } void c04_cols() { axis(false, DEEP(5, 9)); }
void c04_1d() { u32 e = vp_pick("extent", 1, DEEP(8, 12)), k = vp_pick("kernel", 1, DEEP(5, 7)), s = vp_pick("stride", 1, 4), a = vp_pick("lead", 0, 3), z = vp_pick("trail", 0, 3), inc = vp_pick("include_pad", 0, 1); vp_assume(a < k && z < k); vp_mode(1); u32 pad[4] = {0, a, 0, z}; avgpool(3, 1, 1, 1, e, 1, k, a || z ? pad : nullptr, 1, s, inc); }
void c04_zeropad() { u32 e = vp_pick("extent", 1, 5), k = vp_pick("kernel", 1, 3), s = vp_pick("stride", 1, 3), inc = vp_pick("include_pad", 0, 1), nd = vp_pick("rank", 3, 4); vp_mode(1); u32 pad[4] = {0, 0, 0, 0}; avgpool(nd, 1, 1, nd == 4 ? e : 1, e, nd == 4 ? k : 1, k, pad, nd == 4 ? s : 1, s, inc); }
void c04_chan() { u32 n = vp_pick("batch", 1, 3), c = vp_pick("channels", 1, 4), k = vp_pick("kind", 0, 3), inc = vp_pick("include_pad", 0, 1); vp_mode(1); u32 p[4] = {1, 0, 0, 1}, q[4] = {0, 1, 0, 1}; if (k == 0) avgpool(4, n, c, 3, 4, 2, 2, nullptr, 1, 2, inc); else if (k == 1) avgpool(4, n, c, 3, 2, 2, 2, p, 2, 1, inc); else if (k == 2) avgpool(3, n, c, 1, 5, 1, 2, nullptr, 1, 2, inc); else avgpool(3, n, c, 1, 4, 1, 3, q, 1, 1, inc); }
void c04_large() { u32 k = vp_pick("case", 0, 20), inc = vp_pick("include_pad", 0, 1); vp_mode(1); u32 p1[4] = {1, 1, 1, 1}, p0[4] = {0, 0, 1, 1}, p2[4] = {0, 2, 0, 3}, p15[4] = {17, 12, 16, 15}, p16[4] = {0, 20, 0, 30};
  switch (k) { case 0: avgpool(4, 1, 2, 13, 13, 3, 3, nullptr, 2, 2, inc); break; case 1: avgpool(4, 1, 1, 16, 20, 3, 3, p1, 2, 2, inc); break; case 2: avgpool(4, 1, 40, 2, 2, 2, 2, nullptr, 2, 2, inc); break; case 3: avgpool(3, 1, 1, 1, 200, 1, 5, p2, 1, 3, inc); break; case 4: avgpool(4, 1, 1, 9, 9, 9, 9, nullptr, 1, 1, inc); break; case 5: avgpool(4, 1, 1, 10, 12, 5, 7, p0, 3, 4, inc); break; case 6: avgpool(4, 1, 1, 140, 1, 2, 1, nullptr, 2, 1, inc); break; case 7: avgpool(4, 1, 1, 1, 140, 1, 2, nullptr, 1, 2, inc); break; case 8: avgpool(3, 2, 33, 1, 3, 1, 2, nullptr, 1, 1, inc); break;
    case 9: avgpool(4, 1, 1, 1063, 1, 2, 1, nullptr, 2, 1, inc); break; case 10: avgpool(4, 1, 1, 2, 1063, 2, 2, nullptr, 1, 2, inc); break; case 11: avgpool(3, 1, 1, 1, 1063, 1, 3, nullptr, 1, 2, inc); break; case 12: avgpool(4, 1, 263, 2, 1, 2, 1, nullptr, 1, 1, inc); break; case 13: avgpool(3, 1, 263, 1, 2, 1, 2, nullptr, 1, 1, inc); break; case 14: avgpool(4, 19, 3, 2, 1, 2, 1, nullptr, 1, 1, inc); break; case 15: avgpool(3, 19, 3, 1, 2, 1, 2, nullptr, 1, 1, inc); break; case 16: avgpool(4, 1, 1, 17, 2, 17, 1, nullptr, 1, 1, inc); break; case 17: avgpool(4, 1, 1, 2, 17, 1, 17, nullptr, 1, 1, inc); break; case 18: avgpool(4, 1, 1, 40, 37, 3, 2, nullptr, 17, 19, inc); break; case 19: avgpool(4, 1, 1, 6, 7, 19, 17, p15, 3, 5, inc); break; case 20: avgpool(3, 1, 1, 1, 20, 1, 33, p16, 1, 3, inc); break; } }
void c04_cross() { u32 H = vp_pick("H", 1, DEEP(4, 5)), W = vp_pick("W", 1, DEEP(4, 5)), kh = vp_pick("kh", 1, 3), kw = vp_pick("kw", 1, 3), sh = vp_pick("sh", 1, 2), sw = vp_pick("sw", 1, 2), inc = vp_pick("include_pad", 0, 1); u32 pad[4] = {vp_pick("pt", 0, 1), vp_pick("pl", 0, 2), vp_pick("pb", 0, 2), vp_pick("pr", 0, 1)}; vp_assume(pad[0] < kh && pad[2] < kh && pad[1] < kw && pad[3] < kw); vp_mode(1); avgpool(4, 1, 2, H, W, kh, kw, pad, sh, sw, inc); }
}
