#include "common.h"
using naive::Convolution;
// One configuration, all values symbolic, against the ONNX sum.
static void conv2d(u32 cin, u32 cout, u32 H, u32 W, u32 kh, u32 kw, const u32 *pad, u32 sh, u32 sw, u32 groups, bool bias) {
  u32 pt = pad ? pad[0] : 0, pl = pad ? pad[1] : 0, pb = pad ? pad[2] : 0, pr = pad ? pad[3] : 0;
  vp_assume(H + pt + pb >= kh && W + pl + pr >= kw);
  u32 OH = (H + pt + pb - kh) / sh + 1, OW = (W + pl + pr - kw) / sw + 1, cg = cin / groups, og = cout / groups;
  Tensor *x = new Tensor(1, cin, H, W), *w = new Tensor(cout, cg, kh, kw), *b = bias ? new Tensor(cout) : nullptr, *y = new Tensor(1, cout, OH, OW);
  for (u32 i = 0; i < cin * H * W; i++) x->access_blob(i) = vp_f32("x");
  for (u32 i = 0; i < cout * cg * kh * kw; i++) w->access_blob(i) = vp_f32("w");
  if (b) for (u32 i = 0; i < cout; i++) b->access_blob(i) = vp_f32("b");
  for (u32 i = 0; i < cout * OH * OW; i++) y->access_blob(i) = vp_f32("dirty");
  u32 st[2] = {sh, sw}, pd[4] = {pt, pl, pb, pr};
  Convolution *l = new Convolution("conv", 0, op_type::Conv, w, b, pad ? pd : nullptr, st, groups);
  l->run(x, y);
  for (u32 o = 0; o < cout; o++) for (u32 r = 0; r < OH; r++) for (u32 c = 0; c < OW; c++) {
    float s = b ? b->access_blob(o) : 0.0f;
    for (u32 k = 0; k < cg; k++) for (u32 i = 0; i < kh; i++) for (u32 j = 0; j < kw; j++) {
      int32_t yy = (int32_t)(r * sh + i) - (int32_t)pt, xx = (int32_t)(c * sw + j) - (int32_t)pl;
      if (yy < 0 || xx < 0 || yy >= (int32_t)H || xx >= (int32_t)W) continue;
      s += w->access_blob(((o * cg + k) * kh + i) * kw + j) * x->access_blob((((o / og) * cg + k) * H + yy) * W + xx);
    }
    vp_eq(y->access_blob((o * OH + r) * OW + c), s, "conv2d output element is the ONNX sum");
  }
  vp_reach("conv2d");
  delete l; delete x; delete w; delete b; delete y;
}
static void conv1d(u32 cin, u32 cout, u32 W, u32 kw, const u32 *pad, u32 sw, u32 groups, bool bias) {
  u32 pl = pad ? pad[0] : 0, pr = pad ? pad[1] : 0;
  vp_assume(W + pl + pr >= kw);
  u32 OW = (W + pl + pr - kw) / sw + 1, cg = cin / groups, og = cout / groups;
  Tensor *x = new Tensor(1, cin, W), *w = new Tensor(cout, cg, kw), *b = bias ? new Tensor(cout) : nullptr, *y = new Tensor(1, cout, OW);
  for (u32 i = 0; i < cin * W; i++) x->access_blob(i) = vp_f32("x");
  for (u32 i = 0; i < cout * cg * kw; i++) w->access_blob(i) = vp_f32("w");
  if (b) for (u32 i = 0; i < cout; i++) b->access_blob(i) = vp_f32("b");
  for (u32 i = 0; i < cout * OW; i++) y->access_blob(i) = vp_f32("dirty");
  u32 st[2] = {sw, 0}, pd[4] = {pl, pr, 0, 0};
  Convolution *l = new Convolution("conv", 0, op_type::Conv, w, b, pad ? pd : nullptr, st, groups);
  l->run(x, y);
  for (u32 o = 0; o < cout; o++) for (u32 c = 0; c < OW; c++) {
    float s = b ? b->access_blob(o) : 0.0f;
    for (u32 k = 0; k < cg; k++) for (u32 j = 0; j < kw; j++) {
      int32_t xx = (int32_t)(c * sw + j) - (int32_t)pl;
      if (xx < 0 || xx >= (int32_t)W) continue;
      s += w->access_blob((o * cg + k) * kw + j) * x->access_blob(((o / og) * cg + k) * W + xx);
    }
    vp_eq(y->access_blob(o * OW + c), s, "conv1d output element is the ONNX sum");
  }
  vp_reach("conv1d");
  delete l; delete x; delete w; delete b; delete y;
}
static const u32 COL[5][5] = {{3, 1, 1, 0, 0}, {4, 3, 1, 1, 1}, {5, 3, 2, 0, 2}, {4, 1, 3, 2, 0}, {6, 5, 2, 1, 0}}; // extent, kernel, stride, lead, trail
// geometry of one axis in full, against representative geometries of the other
static void axis(bool rows, u32 maxE, u32 maxP) {
  u32 e = vp_pick("extent", 1, maxE), k = 2 * vp_pick("kernel", 0, 2) + 1, s = vp_pick("stride", 1, 3), a = vp_pick("lead", 0, maxP), z = vp_pick("trail", 0, maxP); const u32 *q = COL[vp_pick("other", 0, 4)];
  vp_mode(1);
  u32 pad[4] = {rows ? a : q[3], rows ? q[3] : a, rows ? z : q[4], rows ? q[4] : z};
  bool none = !pad[0] && !pad[1] && !pad[2] && !pad[3];
  if (rows) conv2d(1, 1, e, q[0], k, q[1], none ? nullptr : pad, s, q[2], 1, true); else conv2d(1, 1, q[0], e, q[1], k, none ? nullptr : pad, q[2], s, 1, true);
}
extern "C" {
void c01_rows() { axis(true, 6, 2); }
void c01_cols() { axis(false, 6, 2); }
// channel and group structure, bias on and off, kernel 1x1, 3x3 padded, 3x1
void c01_groups() {
  u32 g = vp_pick("groups", 1, 4), cg = vp_pick("in_per_group", 1, DEEP(3, 5)), og = vp_pick("out_per_group", 1, DEEP(3, 5)), kind = vp_pick("kind", 0, 3), bias = vp_pick("bias", 0, 1); vp_mode(1);
  u32 p1[4] = {1, 1, 1, 1}, p0[4] = {0, 0, 0, 0}, p2[4] = {0, 1, 2, 0};
  if (kind == 0) conv2d(g * cg, g * og, 2, 3, 1, 1, nullptr, 1, 1, g, bias);
  else if (kind == 1) conv2d(g * cg, g * og, 3, 2, 3, 3, p1, 1, 1, g, bias);
  else if (kind == 2) conv2d(g * cg, g * og, 4, 3, 3, 1, p0, 1, 2, g, bias);
  else conv2d(g * cg, g * og, 2, 4, 1, 3, p2, 2, 1, g, bias);
}
void c01_groups1d() {
  u32 g = vp_pick("groups", 1, 4), cg = vp_pick("in_per_group", 1, DEEP(3, 5)), og = vp_pick("out_per_group", 1, DEEP(3, 5)), kind = vp_pick("kind", 0, 2), bias = vp_pick("bias", 0, 1); vp_mode(1);
  u32 p1[2] = {1, 2}, p0[2] = {0, 0};
  if (kind == 0) conv1d(g * cg, g * og, 4, 3, nullptr, 1, g, bias); else if (kind == 1) conv1d(g * cg, g * og, 4, 3, p1, 2, g, bias); else conv1d(g * cg, g * og, 3, 1, p0, 1, g, bias);
}
void c01_1d() {
  u32 e = vp_pick("extent", 1, DEEP(9, 14)), k = 2 * vp_pick("kernel", 0, DEEP(3, 4)) + 1, s = vp_pick("stride", 1, 4), a = vp_pick("lead", 0, 3), z = vp_pick("trail", 0, 3), c = vp_pick("channels", 1, 2); vp_mode(1); u32 pad[2] = {a, z};
  conv1d(c, 2, e, k, a || z ? pad : nullptr, s, 1, true);
}
// sizes well beyond the small scope, to meet code that changes behaviour with size
void c01_large() {
  u32 p3[4] = {3, 3, 3, 3}, p1[4] = {1, 1, 1, 1}, ps[4] = {0, 2, 4, 1}, pw[2] = {4, 5};
  u32 p8[4] = {8, 9, 7, 10}, p15[4] = {15, 20, 17, 0}, p16[2] = {16, 40};
  u32 k = vp_pick("case", 0, 29); vp_mode(1);
  switch (k) {
    case 0: conv2d(3, 2, 23, 19, 11, 11, nullptr, 4, 4, 1, true); break;
    case 1: conv2d(3, 2, 14, 17, 7, 7, p3, 2, 2, 1, true); break;
    case 2: conv2d(34, 2, 2, 2, 1, 1, nullptr, 1, 1, 1, true); break;
    case 3: conv2d(2, 35, 2, 2, 1, 1, nullptr, 1, 1, 1, true); break;
    case 4: conv2d(17, 17, 3, 3, 3, 3, p1, 1, 1, 17, true); break;
    case 5: conv2d(1, 1, 1, 140, 1, 3, nullptr, 1, 1, 1, false); break;
    case 6: conv2d(1, 1, 140, 1, 3, 1, ps, 1, 1, 1, false); break;
    case 7: conv1d(1, 1, 300, 5, pw, 1, 1, true); break;
    case 8: conv1d(20, 4, 20, 9, pw, 3, 2, true); break;
    case 9: conv2d(8, 8, 5, 5, 3, 3, p1, 1, 1, 2, true); break;
    case 10: conv2d(1, 2, 12, 33, 9, 5, ps, 5, 7, 1, true); break;
    case 11: conv2d(1, 1, 20, 20, 3, 3, p1, 1, 1, 1, true); break;
    case 12: conv2d(70, 1, 1, 1, 1, 1, nullptr, 1, 1, 1, true); break;
    case 13: conv2d(9, 18, 2, 3, 1, 3, nullptr, 1, 1, 9, false); break;
    case 14: conv2d(1, 1, 2, 1063, 1, 3, nullptr, 1, 1, 1, true); break;
    case 15: conv2d(1, 1, 1063, 2, 3, 1, nullptr, 1, 1, 1, true); break;
    case 16: conv2d(263, 2, 1, 2, 1, 1, nullptr, 1, 1, 1, true); break;
    case 17: conv2d(2, 263, 2, 1, 1, 1, nullptr, 1, 1, 1, true); break;
    case 18: conv2d(1, 1, 18, 19, 17, 17, p8, 1, 1, 1, true); break;
    case 19: conv2d(1, 1, 3, 37, 1, 33, nullptr, 1, 1, 1, false); break;
    case 20: conv2d(1, 1, 37, 3, 33, 1, nullptr, 1, 1, 1, false); break;
    case 21: conv2d(1, 1, 4, 3, 31, 21, p15, 1, 1, 1, true); break;
    case 22: conv2d(40, 40, 2, 2, 1, 1, nullptr, 1, 1, 40, true); break;
    case 23: conv2d(66, 33, 1, 2, 1, 1, nullptr, 1, 1, 33, true); break;
    case 24: conv2d(1, 2, 40, 43, 3, 3, p1, 17, 19, 1, true); break;
    case 25: conv1d(1, 1, 1063, 3, nullptr, 1, 1, true); break;
    case 26: conv1d(2, 1, 70, 33, p16, 17, 1, true); break;
    case 27: conv1d(263, 3, 2, 1, nullptr, 1, 1, true); break;
    case 28: conv1d(3, 263, 2, 1, nullptr, 1, 1, true); break;
    case 29: conv1d(36, 36, 4, 3, pw, 1, 36, true); break;
  }
}
// thorough: full cross of both axes
void c01_cross() {
  u32 H = vp_pick("H", 1, 4), W = vp_pick("W", 1, 4), kh = 2 * vp_pick("kh", 0, 1) + 1, kw = 2 * vp_pick("kw", 0, 1) + 1, sh = vp_pick("sh", 1, 2), sw = vp_pick("sw", 1, 2);
  u32 pad[4] = {vp_pick("pt", 0, 1), vp_pick("pl", 0, 2), vp_pick("pb", 0, 2), vp_pick("pr", 0, 1)}; vp_mode(1);
  conv2d(2, 2, H, W, kh, kw, pad, sh, sw, vp_pick("groups", 1, 2), true);
}
void c01_axis_deep() { axis(vp_pick("axis", 0, 1), 9, 4); }
}
