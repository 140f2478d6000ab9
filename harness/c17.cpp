#include "filebuf.h"
#include "pico-cnn/io/read_binary_weights.h"
// a small network of every record type, its weights file, and the offsets of the file's fields
struct F { Buf f; Tensor *k[6], *b[12]; u32 nk, nb; u32 off[40], olen[40], kind[40], no; F() : nk(0), nb(0), no(0) {}
  void mark(u32 len, u32 kd) { off[no] = f.n; olen[no] = len; kind[no++] = kd; }
  void dim(u32 v) { mark(4, 1); f.u32_(v); } // a recorded dimension or count
  void vals(u32 n) { for (u32 i = 0; i < n; i++) f.u32_(0x3fc0000au + (i << 8)); } // a newline in each value, so that values read as a name never give another good file
  void kern(int nd, const u32 *d) { k[nk] = mkT(nd, d); vals(k[nk]->num_elements()); nk++; }
  void bias(u32 n) { dim(n); b[nb++] = new Tensor(n); vals(n); }
  void head(const char *type) { mark(2, 2); f.str("l1\n"); u32 n = 0; while (type[n]) n++; mark(n, 3); f.str(type); f.str("\n"); }
  void conv() { head("Conv"); u32 d[4] = {2, 1, 1, 3}; for (int i = 0; i < 4; i++) dim(d[i]); kern(4, d); bias(2); }
  void bn() { head("BatchNormalization"); for (int i = 0; i < 4; i++) bias(2); }
  void gemm(const char *t, bool wb) { head(t); u32 d[3] = {1, 2, 3}; for (int i = 0; i < 3; i++) dim(d[i]); kern(2, d + 1); if (wb) bias(2); else dim(0); }
  void add() { head("Add"); bias(3); }
  void start(u32 n) { mark(3, 0); f.str("FD\n"); mark(2, 2); f.str("nn\n"); mark(4, 4); f.u32_(n); }
  void end() { mark(4, 0); f.str("end\n"); }
  void make(u32 t) { switch (t) { case 0: start(1); conv(); break; case 1: start(1); bn(); break; case 2: start(1); gemm("Gemm", true); break; case 3: start(1); gemm("MatMul", false); break; case 4: start(1); add(); break; case 5: start(1); gemm("Transpose", true); break; case 6: start(3); add(); conv(); gemm("Gemm", true); break; default: start(0); } end(); }
  // ends in an assertion that the file was refused; terminating with an error status is a refusal as well
  void load(u32 len, bool full, const char *what) { const char *p = vp_path("weights.bin"); vp_file("weights.bin", f.d, len); static u32 sp[4] = {251, 1, 1, 1}; for (u32 i = nk; i < 6; i++) k[i] = mkT(4, sp); for (u32 i = nb; i < 12; i++) b[i] = new Tensor(251); Tensor **kp = k, **bp = b; int open0 = vp_open_files(); vp_exit_policy(3); vp_reach("load"); int r = read_binary_weights(p, &kp, &bp); vp_exit_policy(0); vp_assert((r == 0) == full, what); vp_assert(vp_open_files() == open0, "no file is left open"); vp_reach("back"); }
};
extern "C" {
void c17_missing() { F *x = new F; x->make(0); const char *p = vp_path("nofile.bin"); Tensor **kp = x->k, **bp = x->b; vp_exit_policy(3); int r = read_binary_weights(p, &kp, &bp); vp_assert(r != 0, "a missing file is reported"); vp_reach("back"); }
void c17_trunc() { F *x = new F; x->make(vp_pick("type", 0, 7)); u32 cut = vp_pick("cut", 0, 200); if (cut > x->f.n) vp_done(); x->load(cut, cut == x->f.n, "a truncated file is refused"); }
// one field of the file takes every other value
void c17_field() { F *x = new F; x->make(vp_pick("type", 0, 7)); u32 i = vp_pick("field", 0, 35); if (i >= x->no) vp_done(); u32 o = x->off[i], n = x->olen[i], kd = x->kind[i]; if (kd == 2) vp_done(); int diff = 0; for (u32 j = 0; j < n; j++) { u32 v = vp_u32("byte", kd == 3, 255); diff |= ((uint8_t)v != x->f.d[o + j]); x->f.d[o + j] = v; } vp_assume(diff); x->load(x->f.n, false, "a file with a wrong magic, type, dimension, count or end marker is refused"); }
// bytes of names: any value but the terminator is part of a good file, the terminator makes a broken one
void c17_name() { F *x = new F; x->make(vp_pick("type", 0, 7)); u32 i = vp_pick("field", 0, 35); if (i >= x->no || x->kind[i] != 2) vp_done(); int nl = 0; for (u32 j = 0; j < x->olen[i]; j++) { u32 v = vp_u32("byte", 0, 255); nl |= v == '\n'; x->f.d[x->off[i] + j] = v; } if (nl) x->load(x->f.n, false, "a name cut in two makes the file malformed"); else x->load(x->f.n, true, "names may hold any bytes"); }
// two recorded dimensions at once (products that agree while the dimensions do not, overflowing products)
void c17_dims2() { F *x = new F; u32 t = vp_pick("type", 0, 2); x->make(t == 0 ? 0 : t == 1 ? 2 : 3); u32 i = vp_pick("f1", 0, 12), j = vp_pick("f2", 0, 12); if (i >= j || j >= x->no || x->kind[i] != 1 || x->kind[j] != 1) vp_done(); u32 a = vp_u32("d1", 0, 0xffffffffu), b = vp_u32("d2", 0, 0xffffffffu); u32 oa, ob; __builtin_memcpy(&oa, x->f.d + x->off[i], 4); __builtin_memcpy(&ob, x->f.d + x->off[j], 4); vp_assume(a != oa || b != ob); __builtin_memcpy(x->f.d + x->off[i], &a, 4); __builtin_memcpy(x->f.d + x->off[j], &b, 4); x->load(x->f.n, false, "recorded dimensions that do not match the tensors are refused"); }
// tensors of another shape, some with the same number of elements, than the file records
void c17_shape() { F *x = new F; u32 t = vp_pick("type", 0, 6); x->make(t); static const u32 S[12][5] = {{4, 1, 2, 1, 3}, {4, 2, 1, 3, 1}, {4, 2, 3, 1, 1}, {4, 2, 1, 1, 2}, {4, 2, 1, 1, 4}, {4, 2, 2, 1, 3}, {4, 3, 1, 1, 3}, {4, 1, 1, 1, 1}, {2, 3, 2}, {2, 1, 6}, {2, 2, 2}, {4, 1, 1, 2, 3}}; u32 m = vp_pick("other", 0, 15);
  if (m < 12) { if (!x->nk) vp_done(); u32 q = vp_pick("which", 0, 1); if (q >= x->nk) vp_done(); Tensor *o = x->k[q]; bool g = o->num_dimensions() == 2; if (g == (S[m][0] == 4) && m != 11) vp_done(); if (!g && m == 11) vp_done(); if (g && m == 11) { x->k[q] = new Tensor(1, 1, 2, 3); } else x->k[q] = mkT(S[m][0], S[m] + 1); } else { if (!x->nb) vp_done(); u32 q = vp_pick("which", 0, 3); if (q >= x->nb) vp_done(); u32 n = x->b[q]->num_elements(); u32 nn = m == 12 ? n - 1 : m == 13 ? n + 1 : m == 14 ? 2 * n : 1; x->b[q] = new Tensor(nn); }
  x->load(x->f.n, false, "a file whose recorded dimensions do not match the network's tensors is refused"); }
}
