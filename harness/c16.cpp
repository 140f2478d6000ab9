#include "filebuf.h"
#include "pico-cnn/io/read_binary_weights.h"
// one weights file built from records with symbolic values, and the tensors a network of those layers has
enum { NK = 288, NB = 480 };
struct Net { Tensor *k[NK], *b[NB]; float *kv[NK], *bv[NB]; u32 nk, nb; Buf f; Net() : nk(0), nb(0) {}
  void kern(int nd, const u32 *d) { Tensor *t = symT("old", nd, d); u32 n = t->num_elements(); float *v = new float[n]; for (u32 i = 0; i < n; i++) { v[i] = vp_f32("w"); f.f32(v[i]); } k[nk] = t; kv[nk++] = v; }
  void bias(u32 n, bool row = false) { f.u32_(n); u32 d[2] = {1, n}; Tensor *t = row ? symT("old", 2, d) : symT("old", 1, d + 1); float *v = new float[n]; for (u32 i = 0; i < n; i++) { v[i] = vp_f32("w"); f.f32(v[i]); } b[nb] = t; bv[nb++] = v; }
  void rec(u32 type, u32 sz) {
    static const char *const TN[] = {"Conv", "Conv", "Conv", "Conv", "BatchNormalization", "Gemm", "Gemm", "MatMul", "Transpose", "Gemm", "Add", "Add", "Conv", "BatchNormalization", "MatMul", "Conv"};
    f.str(sz & 1 ? "layer_0123456789" : "l"); f.str("\n"); f.str(TN[type]); f.str("\n");
    static const u32 C4[4][4] = {{2, 3, 1, 2}, {1, 2, 3, 1}, {3, 1, 3, 3}, {4, 5, 5, 3}}; const u32 *c = C4[sz]; u32 h = sz + 1, w = sz == 0 ? 3 : 2 * sz - (sz == 2); u32 hw[2] = {h, w};
    switch (type) {
      case 0: f.u32s(c, 4); kern(4, c); bias(c[0]); break;
      case 1: f.u32s(c, 4); kern(4, c); f.u32_(0); break;
      case 2: { u32 d[4] = {c[0], c[1], 1, c[3]}, t[3] = {c[0], c[1], c[3]}; f.u32s(d, 4); kern(3, t); bias(c[0]); break; }
      case 3: { u32 z[4] = {0, 0, 0, 0}; f.u32s(z, 4); bias(c[0]); break; }
      case 4: for (int i = 0; i < 4; i++) bias(c[1]); break;
      case 5: f.u32_(1); f.u32s(hw, 2); kern(2, hw); bias(h); break;
      case 6: case 7: case 8: f.u32_(1); f.u32s(hw, 2); kern(2, hw); f.u32_(0); break;
      case 9: { u32 z[3] = {0, 0, 0}; f.u32s(z, 3); bias(h); break; }
      case 10: bias(c[2] * c[3], sz & 1); break;
      case 11: f.u32_(0); break;
      case 12: { u32 z[5] = {0, 0, 0, 0, 0}; f.u32s(z, 5); break; }
      case 13: { u32 z[4] = {0, 0, 0, 0}; f.u32s(z, 4); break; }
      case 14: { u32 z[4] = {0, 0, 0, 0}; f.u32s(z, 4); break; }
      case 15: { u32 z[4] = {c[0], c[1], sz & 1 ? 0u : c[2], sz & 1 ? c[3] : 0u}; f.u32s(z, 4); f.u32_(0); break; } // one dimension zero: no values
    }
  }
  void extra() { u32 d[4] = {2, 2, 1, 1}; k[nk] = symT("spare", 4, d); b[nb] = symT("spare", 1, d); }
  void load(const u32 *type, const u32 *sz, u32 n, const char *name) {
    f.str("FD\n"); f.str(name); f.str("\n"); f.u32_(n); for (u32 i = 0; i < n; i++) rec(type[i], sz[i]); f.str("end\n"); extra(); Snap *sk = new Snap(k[nk]), *sb = new Snap(b[nb]);
    const char *path = vp_path("weights.bin"); vp_file("weights.bin", f.d, f.n); Tensor **kp = k, **bp = b; Tensor *k0[NK], *b0[NB]; for (u32 i = 0; i <= nk; i++) k0[i] = k[i]; for (u32 i = 0; i <= nb; i++) b0[i] = b[i];
    int open0 = vp_open_files(); int r = read_binary_weights(path, &kp, &bp);
    vp_assert(r == 0, "a well-formed weights file is loaded successfully"); vp_assert(vp_open_files() == open0, "the weights file is closed");
    vp_assert(kp == k && bp == b, "the arrays of tensors stay in place"); for (u32 i = 0; i <= nk; i++) vp_assert(k[i] == k0[i], "kernel tensors stay in place"); for (u32 i = 0; i <= nb; i++) vp_assert(b[i] == b0[i], "bias tensors stay in place");
    for (u32 i = 0; i < nk; i++) for (u32 j = 0; j < k[i]->num_elements(); j++) vp_biteq(k[i]->access_blob(j), kv[i][j], "kernel holds the stored floats in order");
    for (u32 i = 0; i < nb; i++) for (u32 j = 0; j < b[i]->num_elements(); j++) vp_biteq(b[i]->access_blob(j), bv[i][j], "bias holds the stored floats in order");
    sk->same(k[nk], "a tensor without a record is not changed"); sb->same(b[nb], "a tensor without a record is not changed"); delete sk; delete sb;
    for (u32 i = 0; i <= nk; i++) { delete k[i]; if (i < nk) delete[] kv[i]; } for (u32 i = 0; i <= nb; i++) { delete b[i]; if (i < nb) delete[] bv[i]; } vp_reach("load");
  } };
extern "C" {
void c16_one() { u32 t = vp_pick("type", 0, 15), s = vp_pick("size", 0, 3); Net n; n.load(&t, &s, 1, "net"); }
void c16_pairs() { u32 t[2] = {vp_pick("t0", 0, 15), vp_pick("t1", 0, 15)}, s[2] = {0, 1}; Net n; n.load(t, s, 2, ""); }
void c16_triples() { u32 t[3] = {vp_pick("t0", 0, 15), vp_pick("t1", 0, DEEP(10, 15)), vp_pick("t2", 0, DEEP(10, 15))}, s[3] = {1, 0, 0}; Net n; n.load(t, s, 3, "a network"); }
void c16_long() { static const u32 T[6][8] = {{0, 4, 0, 4, 5, 5, 10, 7}, {8, 10, 8, 10, 2, 2, 4, 4}, {5, 9, 9, 0, 3, 3, 11, 5}, {11, 12, 13, 14, 1, 6, 0, 10}, {2, 4, 6, 9, 10, 0, 13, 8}, {0, 1, 2, 3, 5, 6, 7, 9}}; u32 m = vp_pick("m", 0, 5); static const u32 s[8] = {0, 1, 2, 3, 0, 1, 2, 3}; Net n; n.load(T[m], s, 8, "long"); }
void c16_many() { static const u32 L[4] = {9, 33, 130, 300}; u32 n = L[vp_pick("layers", 0, 3)], *t = new u32[n], *s = new u32[n]; vp_mode(1); for (u32 i = 0; i < n; i++) { t[i] = (i * 5 + i / 16) % 16; s[i] = i % 7 == 3; } Net *x = new Net; x->load(t, s, n, "many"); delete x; delete[] t; delete[] s; }
void c16_empty() { Net n; n.load(nullptr, nullptr, 0, "nothing"); }
// names of every length around the reader's buffer sizes, with any bytes but the terminator
void c16_names() { u32 len = vp_pick("len", 0, 5), which = vp_pick("which", 0, 1); static const u32 L[6] = {0, 98, 99, 100, 101, 260}; u32 nlen = L[len]; Net n; Buf &f = n.f; f.str("FD\n");
  auto nm = [&](u32 k) { for (u32 i = 0; i < k; i++) { if (i < 3 || i + 3 >= k) { u32 c = vp_u32("c", 0, 255); vp_assume(c != '\n'); f.u8(c); } else f.u8('x'); } f.str("\n"); };
  nm(which ? 2 : nlen); f.u32_(2); nm(which ? nlen : 3); f.str("Add\n"); n.bias(2); nm(which ? nlen : 0); f.str("Gemm\n"); u32 d[3] = {1, 2, 3}; f.u32s(d, 3); n.kern(2, d + 1); f.u32_(0); f.str("end\n");
  const char *path = vp_path("weights.bin"); vp_file("weights.bin", f.d, f.n); Tensor **kp = n.k, **bp = n.b; int r = read_binary_weights(path, &kp, &bp); vp_assert(r == 0, "layer and network names may have any length");
  for (u32 j = 0; j < 2; j++) vp_biteq(n.b[0]->access_blob(j), n.bv[0][j], "bias holds the stored floats in order"); for (u32 j = 0; j < 6; j++) vp_biteq(n.k[0]->access_blob(j), n.kv[0][j], "kernel holds the stored floats in order");
  delete n.k[0]; delete n.b[0]; delete[] n.kv[0]; delete[] n.bv[0]; vp_reach("names"); }
void c16_large() { u32 m = vp_pick("m", 0, 8); Net n; Buf &f = n.f; f.str("FD\nbig\n"); f.u32_(2); static const u32 D[9][4] = {{17, 9, 3, 3}, {40, 1, 5, 5}, {1, 33, 1, 7}, {3, 70, 3, 1}, {6, 2, 11, 11}, {263, 1, 1, 2}, {1, 263, 2, 1}, {2, 1, 1, 67}, {1, 2, 67, 1}}; const u32 *d = D[m]; f.str("c\nConv\n"); f.u32s(d, 4); n.kern(4, d); n.bias(d[0]); u32 hw[2] = {d[1] + 7, d[0] + 3}; f.str("g\nGemm\n"); f.u32_(1); f.u32s(hw, 2); n.kern(2, hw); n.bias(hw[0]); f.str("end\n");
  const char *path = vp_path("weights.bin"); vp_file("weights.bin", f.d, f.n); Tensor **kp = n.k, **bp = n.b; int r = read_binary_weights(path, &kp, &bp); vp_assert(r == 0, "a well-formed weights file is loaded successfully");
  for (u32 i = 0; i < 2; i++) { for (u32 j = 0; j < n.k[i]->num_elements(); j++) vp_biteq(n.k[i]->access_blob(j), n.kv[i][j], "kernel holds the stored floats in order"); for (u32 j = 0; j < n.b[i]->num_elements(); j++) vp_biteq(n.b[i]->access_blob(j), n.bv[i][j], "bias holds the stored floats in order"); delete n.k[i]; delete n.b[i]; delete[] n.kv[i]; delete[] n.bv[i]; } vp_reach("large"); }
// a layer with thousands of outputs or channels
void c16_wide() { u32 m = vp_pick("m", 0, 4), n = m == 1 ? 1100 : m == 3 ? 4100 : 2600; Net *x = new Net; Buf &f = x->f; f.str("FD\nwide\n"); f.u32_(1); f.str("l\n"); vp_mode(1);
  if (m == 0) { u32 d[4] = {n, 1, 1, 1}; f.str("Conv\n"); f.u32s(d, 4); x->kern(4, d); x->bias(n); } else if (m == 1) { f.str("BatchNormalization\n"); for (int i = 0; i < 4; i++) x->bias(n); } else if (m == 2) { u32 d[2] = {n, 2}; f.str("Gemm\n"); f.u32_(1); f.u32s(d, 2); x->kern(2, d); x->bias(n); } else if (m == 3) { f.str("Add\n"); x->bias(n, true); } else { u32 d[2] = {3, n}; f.str("MatMul\n"); f.u32_(1); f.u32s(d, 2); x->kern(2, d); f.u32_(0); }
  f.str("end\n"); const char *path = vp_path("weights.bin"); vp_file("weights.bin", f.d, f.n); Tensor **kp = x->k, **bp = x->b; int r = read_binary_weights(path, &kp, &bp); vp_assert(r == 0, "a well-formed weights file is loaded successfully");
  for (u32 i = 0; i < x->nk; i++) { for (u32 j = 0; j < x->k[i]->num_elements(); j++) vp_biteq(x->k[i]->access_blob(j), x->kv[i][j], "kernel holds the stored floats in order"); delete x->k[i]; delete[] x->kv[i]; } for (u32 i = 0; i < x->nb; i++) { for (u32 j = 0; j < x->b[i]->num_elements(); j++) vp_biteq(x->b[i]->access_blob(j), x->bv[i][j], "bias holds the stored floats in order"); delete x->b[i]; delete[] x->bv[i]; } delete x; vp_reach("large"); }
// more values than a 16-bit counter holds
void c16_huge() { u32 m = vp_pick("m", 0, 2); Buf *f = new Buf; f->str("FD\nhuge\n"); f->u32_(1); f->str("l\n"); static const u32 D[4] = {300, 26, 3, 3}, G[2] = {257, 256}, A[1] = {65540}; Tensor *k[2] = {nullptr, nullptr}, *b[2] = {nullptr, nullptr}, *t; if (m == 0) { f->str("Conv\n"); f->u32s(D, 4); t = k[0] = mkT(4, D); } else if (m == 1) { f->str("MatMul\n"); f->u32_(1); f->u32s(G, 2); t = k[0] = mkT(2, G); } else { f->str("Add\n"); f->u32_(A[0]); t = b[0] = mkT(1, A); }
  u32 n = t->num_elements(); float *v = new float[n]; for (u32 i = 0; i < n; i++) { v[i] = i == 0 || i == 65535 || i == 65536 || i + 1 == n ? vp_f32("w") : (float)(i ^ 0x155) - 7.5f; f->f32(v[i]); } if (m < 2) f->u32_(0); f->str("end\n"); const char *path = vp_path("weights.bin"); vp_file("weights.bin", f->d, f->n); Tensor **kp = k, **bp = b; int r = read_binary_weights(path, &kp, &bp); vp_assert(r == 0, "a well-formed weights file is loaded successfully");
  for (u32 j = 0; j < n; j++) vp_biteq(t->access_blob(j), v[j], m < 2 ? "kernel holds the stored floats in order" : "bias holds the stored floats in order"); delete t; delete[] v; delete f; vp_reach("large"); }
}
