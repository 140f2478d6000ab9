#include "common.h"
static void dims(u32 nd, u32 C, u32 H, u32 W, u32 *d) { if (nd == 2) { d[0] = 1; d[1] = W; } else if (nd == 3) { d[0] = 1; d[1] = C; d[2] = W; } else { d[0] = 1; d[1] = C; d[2] = H; d[3] = W; } }
// c[i]: channels of input i (2-D: columns)
static void concat(u32 nd, u32 k, const u32 *c, u32 H, u32 W) {
  Tensor *in[24]; u32 total = 0, d[4], at = 0; Snap *sn[24]; for (u32 i = 0; i < k; i++) { if (nd == 2) dims(2, 1, 1, c[i], d); else dims(nd, c[i], H, W, d); in[i] = symT("x", nd, d); sn[i] = new Snap(in[i]); total += c[i]; }
  if (nd == 2) dims(2, 1, 1, total, d); else dims(nd, total, H, W, d); Tensor *o = symT("dirty", nd, d); vp_leak_mark(); o->concatenate_from(k, in, 1); vp_leak_check("concatenation allocates nothing");
  for (u32 i = 0; i < k; i++) { for (u32 j = 0; j < in[i]->num_elements(); j++) vp_biteq(o->access_blob(at + j), in[i]->access_blob(j), "concatenated channels are complete and in order"); at += in[i]->num_elements(); sn[i]->same(in[i], "concatenation leaves its inputs alone"); }
  vp_assert(at == o->num_elements(), "output is filled"); vp_reach(nd == 2 ? "2d" : nd == 3 ? "3d" : "4d"); for (u32 i = 0; i < k; i++) { delete sn[i]; delete in[i]; } delete o;
}
extern "C" {
void c12_small() { u32 nd = vp_pick("rank", 2, 4), k = vp_pick("inputs", 1, 4), c[4], H = vp_pick("H", 1, 2), W = vp_pick("W", 1, 3); for (u32 i = 0; i < 4; i++) c[i] = i < k ? vp_pick("channels", 1, DEEP(3, 5)) : 1; vp_assume(nd == 4 || (H == 1 && (nd == 3 || W == 1))); concat(nd, k, c, H, W); }
void c12_large() { static const u32 T[12][12] = {{4, 3, 40, 1, 35, 0, 0, 0, 0, 0, 1, 2}, {4, 2, 1, 2, 0, 0, 0, 0, 0, 0, 13, 11}, {3, 3, 33, 2, 31, 0, 0, 0, 0, 0, 1, 3}, {2, 3, 70, 1, 65, 0, 0, 0, 0, 0, 1, 1}, {4, 8, 1, 2, 3, 1, 2, 1, 4, 1, 2, 1}, {2, 8, 1, 2, 3, 4, 5, 6, 7, 8, 1, 1}, {3, 2, 1, 1, 0, 0, 0, 0, 0, 0, 1, 140}, {4, 2, 263, 129, 0, 0, 0, 0, 0, 0, 1, 1}, {3, 2, 3, 263, 0, 0, 0, 0, 0, 0, 1, 2}, {2, 2, 263, 300, 0, 0, 0, 0, 0, 0, 1, 1}, {4, 2, 1, 2, 0, 0, 0, 0, 0, 0, 1, 263}, {4, 2, 2, 1, 0, 0, 0, 0, 0, 0, 263, 1}}; const u32 *t = T[vp_pick("case", 0, 11)]; concat(t[0], t[1], t + 2, t[10], t[11]); }
void c12_many() { u32 nd = vp_pick("rank", 2, 4), k = vp_pick("inputs", 9, DEEP(20, 24)), c[24]; vp_mode(1); for (u32 i = 0; i < 24; i++) c[i] = 1 + i % 3; concat(nd, k, c, nd == 4 ? 2 : 1, nd == 2 ? 1 : 2); }
void c12_reject() { u32 nd = vp_pick("rank", 2, 4), dim = vp_u32("dim", 0, 0xffffffff); vp_assume(dim != 1); u32 d[4]; dims(nd, 2, 1, 2, d); Tensor *a = symT("x", nd, d), *b = symT("x", nd, d); dims(nd, 4, 1, nd == 2 ? 4 : 2, d); Tensor *o = symT("dirty", nd, d), *in[2] = {a, b}; vp_reach("reject"); vp_exit_policy(1); o->concatenate_from(2, in, dim); vp_fail("concatenation along another dimension was accepted"); }
}
