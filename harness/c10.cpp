#include "common.h"
static Tensor *make(u32 nd, u32 a, u32 b, u32 c, u32 d) { switch (nd) { case 1: return new Tensor(d); case 2: return new Tensor(c, d); case 3: return new Tensor(a, b, d); default: return new Tensor(a, b, c, d); } }
static float &at(Tensor *t, u32 nd, u32 n, u32 c, u32 y, u32 x, u32 C, u32 H, u32 W) { switch (nd) { case 1: return t->access(x); case 2: return t->access(y, x, W); case 3: return t->access(n, c, x, C, W); default: return t->access(n, c, y, x, C, H, W); } }
static void fresh(u32 nd, u32 N, u32 C, u32 H, u32 W) { // construction, sizes and zero content
  Tensor *t = make(nd, N, C, H, W); u32 n = (nd > 2 ? N * C : 1) * (nd % 2 ? 1 : H) * W;
  vp_assert(t->num_elements() == n, "element count"); vp_assert(t->size_bytes() == n * 4, "size in bytes"); vp_assert(t->num_dimensions() == nd, "rank");
  vp_assert(t->num_batches() == (nd > 2 ? N : 1), "batches"); vp_assert(t->num_channels() == (nd > 2 ? C : 1), "channels"); if (nd > 1) { vp_assert(t->height() == (nd % 2 ? 1 : H), "height"); vp_assert(t->width() == W, "width"); }
  for (u32 i = 0; i < n; i++) vp_biteq(t->access_blob(i), 0.0f, "a new tensor is zero"); vp_reach("fresh"); delete t;
}
// the address computed for any index equals the row-major one, for every dimension and index value at once (no memory is accessed)
extern "C" {
void c10_new() { u32 nd = vp_pick("rank", 1, 4), N = vp_pick("N", 1, 3), C = vp_pick("C", 1, DEEP(4, 7)), H = vp_pick("H", 1, DEEP(4, 7)), W = vp_pick("W", 1, DEEP(5, 9)); vp_assume(nd == 4 || (nd == 3 && H == 1) || (nd <= 2 && N == 1 && C == 1 && (nd == 2 || H == 1))); fresh(nd, N, C, H, W); }
void c10_new_large() { static const u32 T[18][5] = {{4, 1, 1, 300, 301}, {3, 1, 300, 1, 301}, {2, 1, 1, 300, 301}, {4, 300, 301, 1, 1}, {1, 1, 1, 1, 3000}, {2, 1, 1, 1, 700}, {2, 1, 1, 300, 2}, {3, 1, 90, 1, 7}, {3, 40, 1, 1, 3}, {4, 1, 70, 3, 3}, {4, 33, 1, 1, 4}, {4, 1, 3, 19, 23}, {2, 1, 1, 263, 5}, {3, 1, 5, 1, 263}, {3, 1, 263, 1, 5}, {4, 5, 1, 1, 263}, {4, 1, 263, 5, 1}, {1, 1, 1, 1, 70001}}; const u32 *t = T[vp_pick("case", 0, 17)]; fresh(t[0], t[1], t[2], t[3], t[4]); }
void c10_formula() { // dimensions and indices symbolic over the whole 32-bit range
  u32 C = vp_u32("C", 0, 0xffffffff), H = vp_u32("H", 0, 0xffffffff), W = vp_u32("W", 0, 0xffffffff), n = vp_u32("n", 0, 0xffffffff), c = vp_u32("c", 0, 0xffffffff), y = vp_u32("y", 0, 0xffffffff), x = vp_u32("x", 0, 0xffffffff), nd = vp_pick("rank", 1, 4);
  if (!vp_symbolic()) { C = C % 3 + 1; H = H % 3 + 1; W = W % 3 + 1; n = 0; c %= C; y %= H; x %= W; } // concrete runs
  Tensor *t = new Tensor(1, 3, 3, 3); const u32 S = 4; u32 e = nd == 1 ? x : nd == 2 ? y * W + x : nd == 3 ? (n * C + c) * W + x : ((n * C + c) * H + y) * W + x;
  vp_assert((uintptr_t)&at(t, nd, n, c, y, x, C, H, W) == (uintptr_t)t->data_ + (uintptr_t)e * S, "row-major address"); vp_assert((uintptr_t)&t->access_blob(x) == (uintptr_t)t->data_ + (uintptr_t)x * S, "blob address"); vp_reach("formula"); delete t; }
void c10_paths() { // symbolic indices in concrete tensors: all access paths lead to the same element, distinct indices to distinct ones
  static const u32 D[9][5] = {{4, 2, 3, 4, 5}, {4, 1, 7, 1, 3}, {4, 3, 1, 5, 1}, {3, 2, 3, 1, 4}, {3, 5, 1, 1, 7}, {2, 1, 1, 6, 9}, {2, 1, 1, 1, 33}, {1, 1, 1, 1, 41}, {4, 2, 2, 9, 2}}; const u32 *d = D[vp_pick("case", 0, 8)]; u32 nd = d[0], N = d[1], C = d[2], H = d[3], W = d[4];
  Tensor *t = make(nd, N, C, H, W); u32 i[2][4]; for (u32 k = 0; k < 2; k++) { i[k][0] = vp_u32("n", 0, N - 1); i[k][1] = vp_u32("c", 0, C - 1); i[k][2] = vp_u32("y", 0, H - 1); i[k][3] = vp_u32("x", 0, W - 1); }
  float *p = &at(t, nd, i[0][0], i[0][1], i[0][2], i[0][3], C, H, W), *q = &at(t, nd, i[1][0], i[1][1], i[1][2], i[1][3], C, H, W);
  bool same = i[0][0] == i[1][0] && i[0][1] == i[1][1] && i[0][2] == i[1][2] && i[0][3] == i[1][3]; vp_assert((p == q) == same, "two indices share storage exactly when they are equal");
  u32 lin = ((i[0][0] * C + i[0][1]) * H + i[0][2]) * W + i[0][3]; vp_assert(p == &t->access_blob(lin), "blob index agrees with the per-rank access"); vp_assert(lin < t->num_elements(), "every index lies inside the tensor");
  vp_assert(t->get_ptr_to_channel(i[0][0], i[0][1]) + i[0][2] * W + i[0][3] == p, "channel pointer agrees with the per-rank access");
  vp_reach("paths"); delete t; }
void c10_store() { // stores and loads through the accessors
  static const u32 D[7][5] = {{4, 2, 2, 3, 2}, {4, 1, 3, 1, 2}, {3, 2, 3, 1, 2}, {3, 1, 1, 1, 5}, {2, 1, 1, 3, 2}, {1, 1, 1, 1, 5}, {4, 2, 1, 2, 3}}; const u32 *d = D[vp_pick("case", 0, 6)]; u32 nd = d[0], N = d[1], C = d[2], H = d[3], W = d[4], E = N * C * H * W;
  Tensor *t = make(nd, N, C, H, W); u32 k = vp_pick("element", 0, 23); vp_assume(k < E); float v = vp_f32("v"); at(t, nd, k / (C * H * W), k / (H * W) % C, k / W % H, k % W, C, H, W) = v;
  for (u32 j = 0; j < E; j++) vp_biteq(t->access_blob(j), j == k ? v : 0.0f, "a store changes its own element and no other"); u32 j = vp_u32("read", 0, E - 1); vp_biteq(at(t, nd, j / (C * H * W), j / (H * W) % C, j / W % H, j % W, C, H, W), j == k ? v : 0.0f, "a stored value is read back through any index"); vp_reach("store"); delete t; }
}
