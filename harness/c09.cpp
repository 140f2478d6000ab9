#include "common.h"
// lo..hi: the window ONNX defines; sym: the window the pinned unit test of even sizes asks for (n/2 on both sides)
static void lrn(u32 N, u32 C, u32 H, u32 W, u32 n, bool sym, bool inplace, const char *msg) {
  (void)inplace; Tensor *x = new Tensor(N, C, H, W), *y = new Tensor(N, C, H, W); u32 c = N * C * H * W; for (u32 i = 0; i < c; i++) { x->access_blob(i) = vp_f32("x"); y->access_blob(i) = vp_f32("dirty"); }
  float alpha = vp_f32("alpha"), beta = vp_f32("beta"); vp_assume(alpha >= 0 && alpha <= 4); vp_assume(beta >= 0 && beta <= 2);
  auto *l = new naive::LRN("lrn", 0, op_type::LRN, alpha, beta, (uint16_t)n); l->run(x, y);
  for (u32 b = 0; b < N; b++) for (u32 k = 0; k < C; k++) for (u32 p = 0; p < H * W; p++) {
    int32_t lo = (int32_t)k - (int32_t)(sym ? n / 2 : (n - 1) / 2), hi = (int32_t)k + (int32_t)(n / 2); if (lo < 0) lo = 0; if (hi > (int32_t)C - 1) hi = (int32_t)C - 1; float s = 0; // ceil((n-1)/2) = n/2
    for (int32_t j = lo; j <= hi; j++) { float v = x->access_blob((b * C + j) * H * W + p); s += v * v; }
    vp_eq(y->access_blob((b * C + k) * H * W + p), x->access_blob((b * C + k) * H * W + p) / powf(1 + alpha / (float)n * s, beta), msg); }
  vp_reach("lrn"); delete l; delete x; delete y;
}
static const char *ODD = "LRN over the ONNX channel window";
extern "C" {
void c09_odd() { u32 n = 2 * vp_pick("half", 0, DEEP(4, 7)) + 1, C = vp_pick("C", 1, DEEP(6, 12)), N = vp_pick("N", 1, 2), H = vp_pick("H", 1, 2), W = vp_pick("W", 1, 3); vp_mode(1); lrn(N, C, H, W, n, false, false, ODD); }
void c09_large() { static const u32 T[14][5] = {{1, 40, 1, 1, 5}, {1, 5, 6, 7, 3}, {2, 9, 3, 2, 5}, {1, 3, 1, 70, 3}, {1, 2, 70, 1, 1}, {1, 70, 1, 1, 3}, {1, 12, 2, 2, 301}, {1, 263, 1, 1, 5}, {1, 3, 263, 1, 3}, {1, 3, 1, 263, 3}, {19, 3, 1, 1, 3}, {1, 5, 1, 1, 515}, {1, 70, 1, 1, 131}, {1, 5, 1, 1, 32769}}; const u32 *t = T[vp_pick("case", 0, 13)]; vp_mode(1); lrn(t[0], t[1], t[2], t[3], t[4], false, false, ODD); }
void c09_even() { u32 n = 2 * vp_pick("half", 1, 3), C = vp_pick("C", 1, 6), N = vp_pick("N", 1, 2), H = vp_pick("H", 1, 2), W = vp_pick("W", 1, 2); vp_mode(1); lrn(N, C, H, W, n, true, false, "LRN with an even window size: neither the ONNX window nor the documented symmetric one"); }
void c09_even_onnx() { u32 n = 2 * vp_pick("half", 1, 3), C = vp_pick("C", 1, 6); vp_mode(1); lrn(1, C, 1, 2, n, false, false, "LRN with an even window size: ONNX window"); }
void c09_reject() { u32 r = vp_pick("rank", 1, 3); static const u32 D[4][3] = {{0}, {4}, {2, 2}, {1, 2, 2}}; Tensor *x = symTx("x", r, D[r], 2), *y = symT("d", r, D[r]); vp_reach("reject"); vp_exit_policy(1); naive::LRN l("lrn", 0, op_type::LRN, 1.0f, 0.5f, 3); l.run(x, y); vp_fail("LRN accepted a tensor that is not 4-D"); }
}
