#include "common.h"
#include <cmath>
static const u32 SH[11][5] = {{1, 3}, {1, 2}, {1, 1}, {2, 1, 3}, {2, 3, 1}, {2, 2, 1}, {3, 1, 1, 3}, {3, 1, 3, 1}, {4, 1, 1, 1, 3}, {4, 1, 3, 1, 1}, {2, 1, 2}};
static const u32 BIG[5][5] = {{1, 40}, {4, 1, 2, 3, 4}, {3, 1, 4, 5}, {2, 6, 5}, {4, 2, 3, 1, 5}};
static bool sameShape(const u32 *a, const u32 *b) { bool r = a[0] == b[0]; for (u32 i = 1; r && i <= a[0]; i++) r = a[i] == b[i]; return r; }
extern "C" {
// real arithmetic: any elements; pairs within 1% of a ppm of the bound itself are left open
void c14_data() { vp_mode(1); const u32 *s = SH[vp_pick("shape", 0, 10)]; Tensor *a = symT("a", s[0], s + 1), *b = symT("b", s[0], s + 1); Snap sa(a), sb(b); u32 n = a->num_elements(); bool close = true, far = false;
  for (u32 i = 0; i < n; i++) { float x = sa.d[i], y = sb.d[i]; close &= (x - y < 0.00009999f) & (y - x < 0.00009999f); far |= (x - y > 0.000100001f) | (y - x > 0.000100001f); }
  bool r = *a == *b, q = *b == *a; vp_assert(!close || r, "close tensors compare equal"); vp_assert(!far || !r, "a different element makes tensors unequal"); vp_assert(r == q, "comparison is symmetric"); sa.same(a, "comparison changes nothing"); sb.same(b, "comparison changes nothing"); vp_reach("data"); delete a; delete b; }
// one element anywhere in a larger tensor decides (real arithmetic)
void c14_pos() { vp_mode(1); const u32 *s = BIG[vp_pick("shape", 0, 4)]; Tensor *a = symT("a", s[0], s + 1), *b = mkT(s[0], s + 1); u32 n = a->num_elements(), k = vp_pick("pos", 0, 39); vp_assume(k < n); for (u32 i = 0; i < n; i++) b->access_blob(i) = a->access_blob(i); float d = vp_f32("d"); b->access_blob(k) = a->access_blob(k) + d;
  bool r = *a == *b, q = *b == *a; vp_assert(!(d < 0.00009999f && d > -0.00009999f) || r, "close tensors compare equal"); vp_assert(!(d > 0.000100001f || d < -0.000100001f) || !r, "a different element makes tensors unequal"); vp_assert(r == q, "comparison is symmetric"); vp_reach("pos"); delete a; delete b; }
// IEEE: x every bit pattern against fixed y of any magnitude
void c14_one() { static const float Y[9] = {0.0f, -0.0f, 1.0f, -1.0f, 0.0001f, 1e-40f, -123.456f, 1e30f, -3.4e38f}; float y = Y[vp_pick("y", 0, 8)], x = vp_f32("x"); u32 d[1] = {1}; vp_assume(!std::isinf(x)); Tensor *a = mkT(1, d), *b = mkT(1, d); a->access_blob(0) = x; b->access_blob(0) = y; bool r = *a == *b, q = *b == *a;
  double lo = (double)y - 0.00009999, hi = (double)y + 0.00009999, lo2 = (double)y - 0.000100001, hi2 = (double)y + 0.000100001, v = x; bool nan = x != x, same = x == y; vp_assert(!((v > lo && v < hi) || same) || r, "close elements compare equal"); vp_assert(!(nan || v < lo2 || v > hi2) || same || !r, "a different or NaN element makes tensors unequal"); vp_assert(r == q, "comparison is symmetric"); vp_reach("one"); delete a; delete b; }
// IEEE: a NaN anywhere, the other element arbitrary
void c14_nan() { const u32 *s = BIG[vp_pick("shape", 0, 4)]; Tensor *a = mkT(s[0], s + 1), *b = mkT(s[0], s + 1); u32 n = a->num_elements(), k = vp_pick("pos", 0, 39), who = vp_pick("who", 0, 2); vp_assume(k < n); for (u32 i = 0; i < n; i++) a->access_blob(i) = b->access_blob(i) = (float)i / 8; float x = vp_f32("x"), y = vp_f32("y"); vp_assume(who == 1 || x != x); vp_assume(who == 0 || y != y); a->access_blob(k) = x; b->access_blob(k) = y;
  vp_assert(!(*a == *b), "a NaN element makes tensors unequal"); vp_reach("nan"); delete a; delete b; }
// equal data, every pair of shapes
void c14_shape() { const u32 *s = SH[vp_pick("a", 0, 10)], *t = SH[vp_pick("b", 0, 10)]; vp_mode(1); Tensor *a = symT("a", s[0], s + 1), *b = mkT(t[0], t + 1); bool sm = sameShape(s, t); for (u32 i = 0; i < b->num_elements(); i++) b->access_blob(i) = i < a->num_elements() ? a->access_blob(i) : 0.0f; Snap sa(a), sb(b);
  bool r = *a == *b, q = *b == *a; vp_assert(r == sm, "equal data: equal exactly when the shapes are"); vp_assert(r == q, "comparison is symmetric"); sa.same(a, "comparison changes nothing"); sb.same(b, "comparison changes nothing"); vp_reach("shape"); delete a; delete b; }
// dimensions symbolic: one dimension differs by any amount
void c14_dims() { u32 nd = vp_pick("rank", 1, 4), k = vp_pick("dim", 0, 3), d[4] = {1, 1, 1, 1}; vp_assume(k < nd); Tensor *a = mkT(nd, d), *b = mkT(nd, d); u32 v = vp_u32("v", 1, 0xffffffff), w = vp_u32("w", 1, 0xffffffff); if (vp_symbolic()) { a->shape_[k] = v; b->shape_[k] = w; } else { v = w = 1; } bool r = *a == *b, q = *b == *a; vp_assert(r == (v == w), "shapes are compared in every dimension"); vp_assert(q == (v == w), "shapes are compared in every dimension"); vp_reach("dims"); delete a; delete b; }
}
