#include "filebuf.h"
#include "pico-cnn/io/read_binary_reference_data.h"
static const u32 SH[9][5] = {{4, 1, 2, 2, 3}, {4, 1, 3, 1, 2}, {4, 1, 1, 3, 1}, {3, 1, 3, 4}, {3, 1, 1, 1}, {2, 1, 5}, {2, 3, 2}, {4, 1, 1, 1, 1}, {4, 1, 4, 2, 1}};
static void dims(const Tensor *t, u32 *d) { u32 n = t->num_dimensions_; d[0] = 1; d[1] = n >= 3 ? t->shape_[1] : 1; d[2] = n == 4 ? t->shape_[2] : n == 3 ? 1 : t->shape_[0]; d[3] = n == 4 ? t->shape_[3] : n == 3 ? t->shape_[2] : t->shape_[1]; }
static int callI(const char *p, Tensor *t) { int o = vp_open_files(); Tensor *q = t; int r = read_binary_reference_input_data(p, &q); vp_assert(vp_open_files() == o, "no file is left open"); vp_assert(q == t, "the tensor stays in place"); return r; }
static int callO(const char *p, Tensor *t) { int o = vp_open_files(); Tensor *q = t; int r = read_binary_reference_output_data(p, &q); vp_assert(vp_open_files() == o, "no file is left open"); vp_assert(q == t, "the tensor stays in place"); return r; }
static void inFile(Buf &f, const Tensor *t, float *v) { u32 d[4]; dims(t, d); f.str("FCI\n"); f.u32s(d, 4); for (u32 i = 0; i < t->num_elements_; i++) { if (v) v[i] = vp_f32("v"); f.f32(v ? v[i] : 2.0f + i); } f.str("end\n"); }
static void outFile(Buf &f, const Tensor *t, float *v) { f.str("FCO\n"); f.u32_(1); f.u32_(t->num_elements_); for (u32 i = 0; i < t->num_elements_; i++) { if (v) v[i] = vp_f32("v"); f.f32(v ? v[i] : 2.0f + i); } f.str("end\n"); }
static void good(const u32 *s, bool out) { Tensor *t = symT("old", s[0], s + 1); float *v = new float[t->num_elements_]; Buf *f = new Buf; if (out) outFile(*f, t, v); else inFile(*f, t, v); const char *p = vp_path("ref.data"); vp_file("ref.data", f->d, f->n); u32 n0 = t->num_elements_; vp_leak_mark(); int r = out ? callO(p, t) : callI(p, t); vp_leak_check("the reader frees what it allocates");
  vp_assert(r == 0, "a well-formed file that matches the tensor is loaded"); vp_assert(t->num_elements_ == n0, "the tensor keeps its shape"); for (u32 i = 0; i < n0; i++) vp_biteq(t->data_[i], v[i], "the tensor holds the stored floats"); vp_reach("good"); delete t; delete[] v; delete f; }
extern "C" {
void c18_input() { good(SH[vp_pick("shape", 0, 8)], false); }
void c18_output() { u32 s[3] = {2, vp_pick("h", 1, 2), vp_pick("n", 1, DEEP(9, 40))}; good(s, true); }
void c18_large() { static const u32 L[10][5] = {{4, 1, 17, 5, 7}, {4, 1, 2, 33, 12}, {3, 1, 40, 21}, {3, 1, 1, 900}, {2, 1, 1000}, {2, 30, 31}, {4, 1, 263, 1, 2}, {4, 1, 1, 263, 2}, {3, 1, 263, 2}, {3, 1, 1, 2063}}; u32 m = vp_pick("m", 0, 11); if (m < 10) good(L[m], false); else good(L[m - 6], true); }
void c18_trunc() { u32 out = vp_pick("out", 0, 1); static const u32 S[4][5] = {{4, 1, 2, 1, 2}, {3, 1, 2, 1}, {2, 1, 3}, {2, 2, 1}}; u32 m = vp_pick("shape", out ? 2 : 0, 3); Tensor *t = mkT(S[m][0], S[m] + 1); Buf *f = new Buf; if (out) outFile(*f, t, nullptr); else inFile(*f, t, nullptr); u32 cut = vp_pick("cut", 0, 60); if (cut >= f->n) vp_done(); const char *p = vp_path("ref.data"); vp_file("ref.data", f->d, cut); vp_leak_mark(); int r = out ? callO(p, t) : callI(p, t); vp_leak_check("the reader frees what it allocates"); vp_assert(r != 0, "a truncated file is refused"); vp_reach("trunc"); }
// one field takes every other value (fields: magic, batches, channels/outputs, height, width, end marker)
void c18_field() { u32 out = vp_pick("out", 0, 1), m = vp_pick("shape", out ? 5 : 0, out ? 6 : 8); Tensor *t = mkT(SH[m][0], SH[m] + 1); Buf *f = new Buf; if (out) outFile(*f, t, nullptr); else inFile(*f, t, nullptr); u32 k = vp_pick("field", 0, 5); if (out && k > 3) vp_done(); u32 o = k == (out ? 3u : 5u) ? f->n - 4 : 4 * k; int diff = 0; for (u32 j = 0; j < 4; j++) { u32 v = vp_u32("byte", 0, 255); diff |= (uint8_t)v != f->d[o + j]; f->d[o + j] = v; } vp_assume(diff); const char *p = vp_path("ref.data"); vp_file("ref.data", f->d, f->n); vp_leak_mark(); int r = out ? callO(p, t) : callI(p, t); vp_leak_check("the reader frees what it allocates"); vp_assert(r != 0, "a file with a wrong magic, dimension or end marker is refused"); vp_reach("field"); }
void c18_dims2() { u32 m = vp_pick("shape", 0, 8), i = vp_pick("f1", 1, 4), j = vp_pick("f2", 1, 4); if (i >= j) vp_done(); Tensor *t = mkT(SH[m][0], SH[m] + 1); Buf *f = new Buf; inFile(*f, t, nullptr); u32 a = vp_u32("d1", 0, 0xffffffffu), b = vp_u32("d2", 0, 0xffffffffu), oa, ob; __builtin_memcpy(&oa, f->d + 4 * i, 4); __builtin_memcpy(&ob, f->d + 4 * j, 4); vp_assume(a != oa || b != ob); __builtin_memcpy(f->d + 4 * i, &a, 4); __builtin_memcpy(f->d + 4 * j, &b, 4); const char *p = vp_path("ref.data"); vp_file("ref.data", f->d, f->n); int r = callI(p, t); vp_assert(r != 0, "dimensions that do not match the tensor are refused"); vp_reach("dims"); }
// a good file for one tensor, read into a tensor of another shape
void c18_other() { u32 out = vp_pick("out", 0, 1), a = vp_pick("a", 0, 8), b = vp_pick("b", 0, 8); Tensor *x = mkT(SH[a][0], SH[a] + 1), *t = symT("old", SH[b][0], SH[b] + 1); u32 dx[4], dt[4]; dims(x, dx); dims(t, dt); if (!out && dx[1] == dt[1] && dx[2] == dt[2] && dx[3] == dt[3]) vp_done(); if (out && x->num_elements_ == t->num_elements_ && SH[b][0] == 2) vp_done(); Buf *f = new Buf; if (out) outFile(*f, x, nullptr); else inFile(*f, x, nullptr); const char *p = vp_path("ref.data"); vp_file("ref.data", f->d, f->n); int r = out ? callO(p, t) : callI(p, t); vp_assert(r != 0, "a file whose dimensions do not match the tensor is refused"); vp_reach("other"); }
// unsupported ranks, missing files, the other kind of file
void c18_reject() { u32 k = vp_pick("kind", 0, 4), n = vp_pick("n", 1, 3); u32 s1[1] = {n}, s2[2] = {1, n}; const char *p = vp_path(k >= 3 ? "none.data" : "ref.data"); Tensor *t; int r; Buf *f = new Buf;
  if (k == 0) { t = mkT(1, s1); Tensor *y = mkT(2, s2); inFile(*f, y, nullptr); vp_file("ref.data", f->d, f->n); r = callI(p, t); } else if (k == 1) { u32 q = vp_pick("rank", 0, 2); u32 s3[3] = {1, 1, n}, s4[4] = {1, 1, 1, n}; t = q == 0 ? mkT(1, s1) : q == 1 ? mkT(3, s3) : mkT(4, s4); outFile(*f, t, nullptr); vp_file("ref.data", f->d, f->n); r = callO(p, t); }
  else if (k == 2) { t = mkT(2, s2); u32 o = vp_pick("o", 0, 1); if (o) inFile(*f, t, nullptr); else outFile(*f, t, nullptr); vp_file("ref.data", f->d, f->n); r = o ? callO(p, t) : callI(p, t); } else { t = mkT(2, s2); r = k == 3 ? callI(p, t) : callO(p, t); }
  vp_assert(r != 0, "unsupported ranks, missing files and other kinds of files are refused"); vp_reach("reject"); }
void c18_huge() { static const u32 L[3][5] = {{4, 1, 3, 150, 150}, {3, 1, 2, 32800}, {2, 1, 65540}}; u32 m = vp_pick("m", 0, 3), out = m == 3; const u32 *s = L[out ? 2 : m]; Tensor *t = mkT(s[0], s + 1); u32 n = t->num_elements_; float *v = new float[n]; Buf *f = new Buf; f->str(out ? "FCO\n" : "FCI\n"); if (out) { f->u32_(1); f->u32_(n); } else { u32 d[4]; dims(t, d); f->u32s(d, 4); } for (u32 i = 0; i < n; i++) { v[i] = i == 0 || i == 65535 || i == 65536 || i + 1 == n ? vp_f32("v") : (float)(i ^ 0x155) - 7.5f; f->f32(v[i]); } f->str("end\n"); const char *p = vp_path("ref.data"); vp_file("ref.data", f->d, f->n); int r = out ? callO(p, t) : callI(p, t); vp_assert(r == 0, "a well-formed file that matches the tensor is loaded"); for (u32 i = 0; i < n; i++) vp_biteq(t->data_[i], v[i], "the tensor holds the stored floats"); vp_reach("good"); delete t; delete[] v; delete f; }
}
