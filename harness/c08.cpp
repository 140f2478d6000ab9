#include "common.h"
static void run(u32 kind, Tensor *x, Tensor *o) {
  if (kind == 0) { auto *l = new naive::Sigmoid("a", 0, op_type::Sigmoid); l->run(x, o); delete l; }
  else if (kind == 1) { auto *l = new naive::TanH("a", 0, op_type::TanH); l->run(x, o); delete l; }
  else { auto *l = new naive::Softmax("a", 0, op_type::Softmax); l->run(x, o); delete l; }
}
static const char *R[3] = {"sigmoid", "tanh", "softmax"};
static void def(u32 kind, int nd, const u32 *d, bool inplace) { // real arithmetic: the definitions
  Tensor *x = symTx("x", nd, d, 2), *o = inplace ? x : symT("dirty", nd, d); u32 n = x->num_elements(); float *x0 = new float[n]; for (u32 i = 0; i < n; i++) x0[i] = x->access_blob(i);
  if (!vp_symbolic()) for (u32 i = 0; i < n; i++) vp_assume(x0[i] < 80 && x0[i] > -80); // concrete runs: stay where float does not saturate
  run(kind, x, o);
  if (kind == 2) { float m = x0[0]; if (!vp_symbolic()) for (u32 i = 1; i < n; i++) m = x0[i] > m ? x0[i] : m; else m = 0; // e^(x-m) avoids overflow of the concrete oracle
    float s = 0, t = 0; for (u32 i = 0; i < n; i++) s += expf(x0[i] - m);
    for (u32 i = 0; i < n; i++) { vp_eq(o->access_blob(i) * s, expf(x0[i] - m), "Softmax is e^x over the sum of e^x"); t += o->access_blob(i); }
    vp_eq(t * s, s, "Softmax outputs sum to one"); }
  else for (u32 i = 0; i < n; i++) { if (kind == 0) vp_eq(o->access_blob(i), 1 / (1 + expf(-x0[i])), "Sigmoid is 1/(1+e^-x)"); else vp_eq(o->access_blob(i), tanhf(x0[i]), "TanH is tanh(x)"); }
  vp_reach(R[kind]); if (o != x) delete o; delete x; delete[] x0;
}
static void sane(u32 kind, int nd, const u32 *d) { // IEEE arithmetic, every finite input: a number in range
  Tensor *x = symTx("x", nd, d, 2), *o = symT("dirty", nd, d); u32 n = x->num_elements(); run(kind, x, o);
  for (u32 i = 0; i < n; i++) { float r = o->access_blob(i); vp_assert(r == r, "result is a number"); vp_assert(r <= 1.0f && r >= (kind == 1 ? -1.0f : 0.0f), kind == 1 ? "result lies in [-1,1]" : "result lies in [0,1]"); }
  vp_reach(R[kind]); delete x; delete o;
}
static const u32 SH[8][5] = {{1, 3}, {2, 2, 2}, {3, 1, 2, 2}, {4, 1, 2, 1, 2}, {4, 2, 1, 2, 2}, {1, 1}, {2, 1, 6}, {3, 2, 1, 2}};
static const u32 SS[9][5] = {{1, 1}, {1, 2}, {1, 3}, {2, 1, 2}, {4, 1, 1, 1, 3}, {3, 1, 1, 2}, {1, 4}, {2, 1, 6}, {4, 1, 2, 2, 2}};
extern "C" {
void c08_def() { u32 k = vp_pick("kind", 0, 2), s = vp_pick("shape", 0, 7), ip = vp_pick("inplace", 0, 1); vp_assume(k != 2 || !ip); vp_mode(1); def(k, SH[s][0], SH[s] + 1, ip); }
void c08_large() { static const u32 L[9][5] = {{1, 70}, {4, 1, 3, 4, 6}, {2, 1, 130}, {3, 1, 9, 9}, {2, 1, 523}, {4, 1, 263, 1, 1}, {4, 1, 1, 263, 1}, {3, 1, 263, 1}, {1, 263}}; u32 k = vp_pick("kind", 0, 2), s = vp_pick("shape", 0, 8); vp_mode(1); def(k, L[s][0], L[s] + 1, false); }
void c08_sane() { u32 k = vp_pick("kind", 0, 2), s = vp_pick("shape", 0, 3); sane(k, SS[s][0], SS[s] + 1); }
void c08_sane_deep() { u32 k = vp_pick("kind", 0, 2), s = vp_pick("shape", 4, DEEP(6, 8)); sane(k, SS[s][0], SS[s] + 1); }
}
