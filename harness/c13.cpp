#include "common.h"
static bool eqv(float a, float b) { return a == b || (a != a && b != b); }
static const u32 SH[10][5] = {{1, 4}, {2, 2, 3}, {3, 1, 2, 3}, {3, 2, 2, 2}, {4, 1, 2, 2, 2}, {4, 2, 2, 1, 3}, {4, 1, 3, 1, 1}, {1, 1}, {1, 150}, {4, 1, 35, 2, 2}};
extern "C" {
void c13_add() { const u32 *s = SH[vp_pick("shape", 0, 9)]; Tensor *a = symT("a", s[0], s + 1), *b = symT("b", s[0], s + 1); Snap sa(a), sb(b); bool r = a->add_tensor(b); vp_assert(r, "adding equal shapes succeeds"); for (u32 i = 0; i < a->num_elements(); i++) vp_assert(eqv(a->access_blob(i), sa.d[i] + sb.d[i]), "elementwise float sum"); sb.same(b, "the second operand is not modified"); vp_reach("add"); delete a; delete b; }
void c13_add_self() { const u32 *s = SH[vp_pick("shape", 0, 7)]; Tensor *a = symT("a", s[0], s + 1); Snap sa(a); a->add_tensor(a); for (u32 i = 0; i < a->num_elements(); i++) vp_assert(eqv(a->access_blob(i), sa.d[i] + sa.d[i]), "elementwise float sum with itself"); vp_reach("self"); delete a; }
void c13_reject() { const u32 *s = SH[vp_pick("a", 0, 9)], *t = SH[vp_pick("b", 0, 9)]; Tensor *a = symT("a", s[0], s + 1), *b = symT("b", t[0], t + 1); vp_assume(a->num_elements() != b->num_elements()); Snap sa(a), sb(b); bool r = a->add_tensor(b); vp_assert(!r, "adding tensors of different sizes reports failure"); sa.same(a, "a refused addition changes nothing"); sb.same(b, "a refused addition changes nothing"); vp_reach("reject"); delete a; delete b; }
void c13_channel() { static const u32 D[8][5] = {{4, 2, 3, 2, 2}, {4, 1, 2, 1, 3}, {4, 3, 1, 2, 1}, {3, 2, 3, 1, 4}, {3, 1, 2, 1, 1}, {2, 1, 1, 2, 3}, {4, 1, 4, 3, 1}, {4, 2, 33, 1, 2}}; const u32 *d = D[vp_pick("shape", 0, 7)]; u32 nd = d[0], N = d[1], C = d[2], H = d[3], W = d[4], sh[4]; if (nd == 2) { sh[0] = H; sh[1] = W; } else if (nd == 3) { sh[0] = N; sh[1] = C; sh[2] = W; } else { sh[0] = N; sh[1] = C; sh[2] = H; sh[3] = W; }
  u32 n = vp_pick("n", 0, N - 1), c = vp_pick("c", 0, C - 1); Tensor *a = symT("a", nd, sh), *b = symT("b", nd, sh); Snap sa(a), sb(b); bool r = a->add_channel(b, n, c); vp_assert(r, "adding a channel succeeds");
  for (u32 k = 0; k < N * C; k++) for (u32 i = 0; i < H * W; i++) { u32 j = k * H * W + i; if (k == n * C + c) vp_assert(eqv(a->access_blob(j), sa.d[j] + sb.d[j]), "the chosen channel is the float sum"); else vp_biteq(a->access_blob(j), sa.d[j], "other channels are unchanged"); } sb.same(b, "the second operand is not modified"); vp_reach("channel"); delete a; delete b; }
void c13_mul() { const u32 *s = SH[vp_pick("shape", 0, 7)]; u32 ip = vp_pick("inplace", 0, 1); float f = vp_f32("factor"); Tensor *a = symT("a", s[0], s + 1), *o = ip ? a : symT("dirty", s[0], s + 1); Snap sa(a); a->mul_with_factor(o, f); for (u32 i = 0; i < a->num_elements(); i++) { vp_assert(eqv(o->access_blob(i), sa.d[i] * f), "float product with the factor"); } if (!ip) sa.same(a, "scaling leaves its operand alone"); vp_reach("mul"); delete a; if (!ip) delete o; }
// larger tensors, over the reals: chunked or vectorised paths, index types
void c13_large() { static const u32 T[14][6] = {{4, 1, 1, 263, 1, 0}, {3, 2, 1, 263, 0, 0}, {1, 1063, 0, 0, 0, 0}, {4, 1, 2, 17, 19, 0}, {4, 1, 2, 5, 5, 1}, {3, 2, 2, 263, 0, 1}, {2, 15, 17, 0, 0, 1}, {4, 1, 263, 1, 1, 1}, {4, 19, 2, 1, 1, 1}, {4, 1, 2, 263, 1, 1}, {4, 1, 2, 17, 19, 1}, {2, 1, 1063, 0, 0, 2}, {4, 1, 3, 17, 19, 2}, {3, 19, 5, 7, 0, 2}};
  const u32 *t = T[vp_pick("case", 0, 13)]; u32 nd = t[0], kind = t[5]; vp_mode(1); Tensor *a = symT("a", nd, t + 1), *b = symT("b", nd, t + 1); Snap sa(a), sb(b); u32 at = 0, len = a->num_elements();
  if (kind == 0) vp_assert(a->add_tensor(b), "adding equal shapes succeeds"); else if (kind == 2) { a->mul_with_factor(b, 0.75f); } else { u32 n = 0, c = 0; len = t[nd]; if (nd == 4) len *= t[nd - 1]; else if (nd == 2) len *= t[1]; if (nd > 2) { n = vp_pick("n", 0, 1) ? t[1] - 1 : 0; c = vp_pick("c", 0, 1) ? t[2] - 1 : 0; at = (n * t[2] + c) * len; } vp_assert(a->add_channel(b, n, c), "adding a channel succeeds"); }
  for (u32 i = 0; i < a->num_elements(); i++) { if (kind == 2) vp_eq(b->access_blob(i), sa.d[i] * 0.75f, "float product with the factor"); else if (i >= at && i < at + len) vp_eq(a->access_blob(i), sa.d[i] + sb.d[i], "elementwise float sum"); else vp_eq(a->access_blob(i), sa.d[i], "other channels are unchanged"); }
  if (kind == 2) sa.same(a, "scaling leaves its operand alone"); else sb.same(b, "the second operand is not modified"); vp_reach("large"); delete a; delete b; }
}
