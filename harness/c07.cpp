#include "common.h"
static bool same(float a, float b) { return a == b || (a != a && b != b); } // zeros of either sign count as equal
// every pattern but NaN, every rank, out of place and in place
static void act(u32 kind, int nd, const u32 *d, bool inplace) {
  Tensor *x = symTx("x", nd, d, 1), *o = inplace ? x : symT("dirty", nd, d), *s = nullptr; u32 n = x->num_elements(); float *x0 = new float[n]; for (u32 i = 0; i < n; i++) x0[i] = x->access_blob(i);
  float p = 0, q = 0;
  if (kind == 0) { auto *l = new naive::ReLU("a", 0, op_type::ReLU); l->run(x, o); delete l; }
  else if (kind == 1) { p = vp_f32x("leak", 1); auto *l = new naive::LeakyReLU("a", 0, op_type::LeakyReLU, p); l->run(x, o); delete l; }
  else if (kind == 2) { s = symTx("slope", nd, d, 1); auto *l = new naive::ParameterizedReLU("a", 0, op_type::ParamReLU, s); l->run(x, o); delete l; }
  else if (kind == 3) { p = vp_f32x("min", 1); q = vp_f32x("max", 1); vp_assume(p <= q); auto *l = new naive::Clip("a", 0, op_type::Clip, p, q); l->run(x, o); delete l; }
  else { auto *l = new naive::ActivationFunction("a", 0, op_type::Unknown); l->run(x, o); delete l; }
  for (u32 i = 0; i < n; i++) { float v = x0[i], r = o->access_blob(i);
    if (kind == 0) vp_assert(same(r, v < 0 ? 0.0f : v), "ReLU is x or zero");
    else if (kind == 1) vp_assert(same(r, v < 0 ? p * v : v), "LeakyReLU is x or leak*x");
    else if (kind == 2) vp_assert(same(r, v < 0 ? s->access_blob(i) * v : v), "PReLU is x or its own slope times x");
    else if (kind == 3) vp_assert(same(r, v < p ? p : v > q ? q : v), "Clip is the nearest value in range");
    else vp_assert(fbits_eq(r, v), "Identity copies the bits"); }
  static const char *R[5] = {"relu", "leaky", "prelu", "clip", "identity"}; vp_reach(R[kind]); if (o != x) delete o; delete x; delete s; delete[] x0;
}
static const u32 SH[8][5] = {{1, 3}, {2, 2, 2}, {3, 1, 2, 2}, {4, 1, 2, 1, 2}, {4, 2, 1, 1, 1}, {1, 1}, {2, 1, 4}, {3, 2, 1, 2}};
extern "C" {
void c07_acts() { u32 k = vp_pick("kind", 0, 4), s = vp_pick("shape", 0, 7), ip = vp_pick("inplace", 0, 1); vp_assume(k != 4 || !ip); act(k, SH[s][0], SH[s] + 1, ip); }
void c07_large() { static const u32 L[9][5] = {{1, 70}, {4, 1, 3, 4, 6}, {2, 1, 130}, {3, 1, 9, 9}, {2, 1, 523}, {4, 1, 263, 1, 1}, {4, 1, 1, 263, 1}, {3, 1, 263, 1}, {1, 263}}; u32 k = vp_pick("kind", 0, 4), s = vp_pick("shape", 0, 8); vp_mode(1); // real mode for the larger ones
  int nd = L[s][0]; const u32 *d = L[s] + 1; Tensor *x = symT("x", nd, d), *o = symT("dirty", nd, d), *sl = symT("slope", nd, d); float p = vp_f32("p"), q = vp_f32("q"); vp_assume(p <= q); u32 n = x->num_elements();
  if (k == 0) { naive::ReLU l("a", 0, op_type::ReLU); l.run(x, o); } else if (k == 1) { naive::LeakyReLU l("a", 0, op_type::LeakyReLU, p); l.run(x, o); } else if (k == 2) { naive::ParameterizedReLU l("a", 0, op_type::ParamReLU, sl); l.run(x, o); } else if (k == 3) { naive::Clip l("a", 0, op_type::Clip, p, q); l.run(x, o); } else { naive::ActivationFunction l("a", 0, op_type::Unknown); l.run(x, o); }
  for (u32 i = 0; i < n; i++) { float v = x->access_blob(i), e = k == 0 ? (v < 0 ? 0.0f : v) : k == 1 ? (v < 0 ? p * v : v) : k == 2 ? (v < 0 ? sl->access_blob(i) * v : v) : k == 3 ? (v < p ? p : v > q ? q : v) : v; vp_eq(o->access_blob(i), e, "activation value"); }
  vp_reach("large"); delete x; delete o; delete sl; }
void c07_reject() { // slope of another rank, another shape or another element count
  static const u32 A[7][5] = {{2, 1, 4}, {4, 1, 2, 2, 2}, {4, 1, 2, 2, 2}, {3, 1, 2, 3}, {2, 2, 3}, {1, 4}, {4, 1, 2, 1, 3}}, B[7][5] = {{1, 4}, {4, 1, 2, 1, 1}, {4, 2, 2, 2, 2}, {3, 1, 2, 1}, {2, 3, 2}, {1, 2}, {4, 1, 3, 1, 2}}; u32 k = vp_pick("case", 0, 6);
  Tensor *x = symTx("x", A[k][0], A[k] + 1, 1), *s = symTx("slope", B[k][0], B[k] + 1, 1), *o = symT("dirty", A[k][0], A[k] + 1); vp_reach("reject"); vp_exit_policy(1); naive::ParameterizedReLU l("a", 0, op_type::ParamReLU, s); l.run(x, o); vp_fail("PReLU accepted a slope of another shape"); }
}
