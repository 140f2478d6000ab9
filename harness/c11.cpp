#include "common.h"
static void dims(u32 nd, u32 N, u32 C, u32 H, u32 W, u32 *d) { if (nd == 2) { d[0] = H; d[1] = W; } else if (nd == 3) { d[0] = N; d[1] = C; d[2] = W; } else { d[0] = N; d[1] = C; d[2] = H; d[3] = W; } }
// pad: top, left, bottom, right (3-D: left, right)
static void pad(u32 nd, u32 N, u32 C, u32 H, u32 W, const u32 *p, u32 how) {
  u32 t = nd == 3 ? 0 : p[0], l = nd == 3 ? p[0] : p[1], b = nd == 3 ? 0 : p[2], r = nd == 3 ? p[1] : p[3], PH = H + t + b, PW = W + l + r, d[4], e[4]; dims(nd, N, C, H, W, d); dims(nd, N, C, PH, PW, e);
  Tensor *s = symT("x", nd, d), *o; u32 pp[4] = {p[0], p[1], nd == 3 ? 0 : p[2], nd == 3 ? 0 : p[3]}; Snap sn(s); float init = 0.0f; vp_leak_mark();
  if (how == 0) o = s->expand_with_padding(pp); else if (how == 1) { init = vp_f32("init"); o = s->expand_with_padding(pp, init); }
  else { Tensor *dst = symT("dirty", nd, e); if (how == 2) o = dst, dst->num_elements(), s->copy_with_padding_into(dst, pp); else { init = vp_f32("init"); o = s->copy_with_padding_into(dst, pp, init); } vp_assert(o == dst, "the destination is returned"); }
  vp_assert(o != s, "the result is a tensor of its own"); vp_assert(o->num_dimensions() == nd && o->num_elements() == N * C * PH * PW && o->height() == (nd == 3 ? 1 : PH) && o->width() == PW && o->num_channels() == C && o->num_batches() == N, "padded shape");
  for (u32 k = 0; k < N * C; k++) for (u32 y = 0; y < PH; y++) for (u32 x = 0; x < PW; x++) { float v = o->access_blob((k * PH + y) * PW + x); bool in = y >= t && y < t + H && x >= l && x < l + W;
    if (in) vp_biteq(v, s->access_blob((k * H + y - t) * W + x - l), "source element at its shifted place"); else vp_biteq(v, init, "border holds the initializer"); }
  sn.same(s, "padding leaves the source alone"); vp_reach(nd == 2 ? "2d" : nd == 3 ? "3d" : "4d"); delete o; vp_leak_check("padding allocates only its result"); delete s;
}
static void copy(u32 a, const u32 *d, u32 b, const u32 *e) { Tensor *s = symT("x", a, d), *o = symT("dirty", b, e); Snap sn(s); u32 n = s->num_elements(); bool ok = n == o->num_elements(); if (!ok) vp_exit_policy(1); s->copy_data_into(o); vp_assert(ok, "copying between different element counts must be refused"); for (u32 i = 0; i < n; i++) vp_biteq(o->access_blob(i), s->access_blob(i), "copied element"); sn.same(s, "copying leaves the source alone"); vp_reach("copy"); delete s; delete o; }
extern "C" {
void c11_pad4() { u32 N = vp_pick("N", 1, 2), C = vp_pick("C", 1, 2), H = vp_pick("H", 1, DEEP(3, 4)), W = vp_pick("W", 1, DEEP(3, 4)), how = vp_pick("how", 0, 3), p[4] = {vp_pick("t", 0, 2), vp_pick("l", 0, 2), vp_pick("b", 0, 2), vp_pick("r", 0, 2)}; vp_assume(N == 1 || (H == 2 && W == 2)); pad(4, N, C, H, W, p, how); }
void c11_pad3() { u32 N = vp_pick("N", 1, 2), C = vp_pick("C", 1, 3), W = vp_pick("W", 1, DEEP(5, 9)), how = vp_pick("how", 0, 3), p[4] = {vp_pick("l", 0, DEEP(3, 6)), vp_pick("r", 0, DEEP(3, 6)), 0, 0}; pad(3, N, C, 1, W, p, how); }
void c11_pad2() { u32 H = vp_pick("H", 1, 4), W = vp_pick("W", 1, 4), how = vp_pick("how", 0, 3), p[4] = {vp_pick("t", 0, 2), vp_pick("l", 0, 2), vp_pick("b", 0, 2), vp_pick("r", 0, 2)}; pad(2, 1, 1, H, W, p, how); }
void c11_large() { static const u32 T[16][9] = {{4, 1, 40, 2, 2, 1, 0, 0, 1}, {4, 1, 1, 30, 3, 2, 1, 3, 0}, {4, 3, 1, 2, 60, 0, 7, 1, 9}, {3, 1, 33, 1, 4, 2, 3, 0, 0}, {3, 2, 1, 1, 130, 5, 70, 0, 0}, {2, 1, 1, 50, 3, 20, 1, 0, 2}, {2, 1, 1, 2, 140, 0, 0, 5, 65}, {4, 1, 2, 13, 13, 5, 5, 6, 6}, {4, 1, 263, 1, 2, 1, 0, 0, 1}, {4, 1, 1, 263, 1, 2, 1, 3, 0}, {4, 1, 1, 1, 523, 0, 7, 1, 9}, {3, 1, 263, 1, 2, 0, 3, 0, 1}, {3, 1, 1, 1, 1063, 0, 70, 0, 1}, {2, 1, 1, 263, 2, 20, 1, 0, 2}, {4, 1, 1, 2, 3, 130, 1, 0, 2}, {3, 2, 2, 1, 3, 0, 131, 0, 140}}; const u32 *t = T[vp_pick("case", 0, 15)]; u32 how = vp_pick("how", 0, 3); pad(t[0], t[1], t[2], t[3], t[4], t + 5, how); }
void c11_copy() { static const u32 D[9][5] = {{1, 6}, {2, 2, 3}, {3, 1, 2, 3}, {4, 1, 2, 1, 3}, {4, 1, 6, 1, 1}, {1, 5}, {2, 1, 7}, {1, 1}, {2, 40, 3}}; const u32 *a = D[vp_pick("src", 0, 8)], *b = D[vp_pick("dst", 0, 8)]; copy(a[0], a + 1, b[0], b + 1); }
}
