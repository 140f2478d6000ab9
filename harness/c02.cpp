#include "common.h"
static Tensor *row(const char *n, u32 k) { Tensor *t = new Tensor(1, k); for (u32 i = 0; i < k; i++) t->access_blob(i) = vp_f32(n); return t; }
static void fc(u32 n, u32 m, bool bias) {
  Tensor *x = row("x", n), *w = new Tensor(m, n), *b = bias ? new Tensor(m) : nullptr, *y = row("dirty", m);
  for (u32 i = 0; i < m * n; i++) w->access_blob(i) = vp_f32("w"); if (b) for (u32 i = 0; i < m; i++) b->access_blob(i) = vp_f32("b");
  auto *l = new naive::FullyConnected("fc", 0, op_type::Gemm, w, b); l->run(x, y);
  for (u32 j = 0; j < m; j++) { float s = b ? b->access_blob(j) : 0.0f; for (u32 i = 0; i < n; i++) s += x->access_blob(i) * w->access_blob(j * n + i); vp_eq(y->access_blob(j), s, "FullyConnected output is the dot product plus bias"); }
  vp_reach("fc"); delete l; delete x; delete w; delete b; delete y;
}
static void mm(u32 n, u32 m) {
  Tensor *x = row("x", n), *w = new Tensor(n, m), *y = row("dirty", m); for (u32 i = 0; i < m * n; i++) w->access_blob(i) = vp_f32("w");
  auto *l = new naive::MatMul("mm", 0, op_type::MatMul, w); l->run(x, y);
  for (u32 j = 0; j < m; j++) { float s = 0; for (u32 i = 0; i < n; i++) s += x->access_blob(i) * w->access_blob(i * m + j); vp_eq(y->access_blob(j), s, "MatMul output is the matrix product"); }
  vp_reach("mm"); delete l; delete x; delete w; delete y;
}
static const u32 BIG[19][2] = {{70, 3}, {3, 70}, {33, 17}, {17, 33}, {140, 1}, {1, 140}, {300, 2}, {64, 8}, {16, 16}, {520, 1}, {1063, 2}, {2, 1063}, {517, 3}, {3, 517}, {259, 5}, {5, 259}, {131, 7}, {2051, 1}, {1, 2051}};
extern "C" {
void c02_fc() { u32 n = vp_pick("n", 1, DEEP(9, 24)), m = vp_pick("m", 1, DEEP(9, 24)), b = vp_pick("bias", 0, 1); vp_mode(1); fc(n, m, b); }
void c02_mm() { u32 n = vp_pick("n", 1, DEEP(9, 24)), m = vp_pick("m", 1, DEEP(9, 24)); vp_mode(1); mm(n, m); }
void c02_large() { u32 k = vp_pick("case", 0, 18), w = vp_pick("op", 0, 2); vp_mode(1); if (w == 2) mm(BIG[k][0], BIG[k][1]); else fc(BIG[k][0], BIG[k][1], w); }
// anything that is not 2-D in and 2-D out must be refused with an error exit
void c02_reject() {
  u32 a = vp_pick("in_rank", 1, 4), z = vp_pick("out_rank", 1, 4); vp_assume(a != 2 || z != 2); vp_mode(1);
  static const u32 D[5][4] = {{0}, {4}, {1, 4}, {1, 1, 4}, {1, 1, 1, 4}}; Tensor *x = symT("x", a, D[a]), *y = symT("dirty", z, D[z]); u32 wd[2] = {4, 4}; Tensor *w = symT("w", 2, wd);
  auto *l = new naive::FullyConnected("fc", 0, op_type::Gemm, w, nullptr); vp_reach("reject"); vp_exit_policy(1); l->run(x, y); vp_fail("FullyConnected accepted operands that are not 2-D");
}
}
