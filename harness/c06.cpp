#include "common.h"
static void bn(int nd, u32 C, u32 H, u32 W, bool inplace) {
  Tensor *x = nd == 4 ? new Tensor(1, C, H, W) : new Tensor(1, C, W), *y = nd == 4 ? new Tensor(1, C, H, W) : new Tensor(1, C, W); Tensor *g = new Tensor(C), *b = new Tensor(C), *m = new Tensor(C), *v = new Tensor(C); u32 n = C * H * W; float *x0 = new float[n];
  for (u32 i = 0; i < n; i++) x0[i] = x->access_blob(i) = vp_f32("x"); for (u32 i = 0; i < n; i++) y->access_blob(i) = vp_f32("dirty"); float eps = vp_f32("eps"); vp_assume(eps > 1e-9f && eps < 1.0f);
  for (u32 c = 0; c < C; c++) { g->access_blob(c) = vp_f32("gamma"); b->access_blob(c) = vp_f32("beta"); m->access_blob(c) = vp_f32("mean"); float q = vp_f32("var"); vp_assume(q >= 0.0f); v->access_blob(c) = q; }
  auto *l = new naive::BatchNormalization("bn", 0, op_type::BatchNormalization, g, b, m, v, eps); Tensor *o = inplace ? x : y; l->run(x, o);
  for (u32 i = 0; i < n; i++) { u32 c = i / (H * W); vp_eq(o->access_blob(i), g->access_blob(c) * (x0[i] - m->access_blob(c)) / sqrtf(v->access_blob(c) + eps) + b->access_blob(c), "batch normalization is gamma*(x-mean)/sqrt(var+eps)+beta"); }
  vp_reach(nd == 4 ? "4d" : "3d"); delete l; delete x; delete y; delete g; delete b; delete m; delete v; delete[] x0;
}
extern "C" {
void c06_small() { u32 nd = vp_pick("rank", 3, 4), C = vp_pick("C", 1, DEEP(4, 8)), H = vp_pick("H", 1, DEEP(4, 8)), W = vp_pick("W", 1, DEEP(4, 8)); vp_assume(nd == 4 || H == 1); vp_mode(1); bn(nd, C, H, W, false); }
void c06_large() { static const u32 T[10][4] = {{4, 34, 1, 2}, {4, 1, 70, 2}, {4, 1, 2, 70}, {3, 2, 1, 140}, {3, 66, 1, 1}, {4, 2, 12, 13}, {4, 263, 1, 2}, {4, 1, 523, 1}, {4, 1, 2, 523}, {3, 1, 1, 523}}; const u32 *t = T[vp_pick("case", 0, 9)]; vp_mode(1); bn(t[0], t[1], t[2], t[3], false); }
void c06_reject() {
  u32 k = vp_pick("kind", 0, 5); vp_mode(1); static const u32 D[6][5] = {{1, 4}, {2, 1, 4}, {3, 2, 2, 3}, {4, 2, 2, 1, 2}, {4, 3, 1, 1, 1}, {2, 4, 4}}; Tensor *x = symT("x", D[k][0], D[k] + 1), *y = symT("dirty", D[k][0], D[k] + 1); u32 four[1] = {4}; Tensor *p = symT("p", 1, four);
  auto *l = new naive::BatchNormalization("bn", 0, op_type::BatchNormalization, p, p, p, p, 0.5f); vp_reach("reject"); vp_exit_policy(1); l->run(x, y); vp_fail("batch normalization accepted an unsupported rank or batch size");
}
}
