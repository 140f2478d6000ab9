// The ONNX definitions of the operators, for the checks of generated networks.
#pragma once
#include "common.h"
struct RT { u32 nd, d[5], n; float *v; };
static inline RT mk(u32 nd, const u32 *d) { RT r; r.nd = nd; r.n = 1; for (u32 i = 0; i < nd; i++) { r.d[i] = d[i]; r.n *= d[i]; } r.v = new float[r.n ? r.n : 1]; return r; }
static inline RT mk(std::initializer_list<u32> d) { u32 t[5], k = 0; for (u32 x : d) t[k++] = x; return mk(k, t); }
static inline RT symR(const char *name, std::initializer_list<u32> d) { RT r = mk(d); for (u32 i = 0; i < r.n; i++) r.v[i] = vp_f32(name); return r; }
static inline RT of(const float *w, std::initializer_list<u32> d) { RT r = mk(d); for (u32 i = 0; i < r.n; i++) r.v[i] = w[i]; return r; }
static inline Tensor *asT(const RT &x) { Tensor *t = mkT((int)x.nd, x.d); for (u32 i = 0; i < x.n; i++) t->data_[i] = x.v[i]; return t; }
struct A4 { u32 a[4]; };
// spatial parameters, always as {rows, columns}: kernel, strides; pads as {top, left, bottom, right}; a 1-D operator has one row
static inline u32 H_(const RT &x) { return x.nd == 4 ? x.d[2] : 1; } static inline u32 W_(const RT &x) { return x.nd == 4 ? x.d[3] : x.d[2]; }
static inline RT spatial(const RT &x, u32 C, u32 oh, u32 ow) { if (x.nd == 4) { u32 d[4] = {x.d[0], C, oh, ow}; return mk(4, d); } u32 d[3] = {x.d[0], C, ow}; return mk(3, d); }
static inline RT r_conv(const RT &x, const RT &w, const float *b, A4 k, A4 s, A4 p, u32 g) {
  u32 H = H_(x), W = W_(x), C = x.d[1], M = w.d[0], oh = (H + p.a[0] + p.a[2] - k.a[0]) / s.a[0] + 1, ow = (W + p.a[1] + p.a[3] - k.a[1]) / s.a[1] + 1; RT y = spatial(x, M, oh, ow); u32 ci = C / g, co = M / g;
  for (u32 n = 0; n < x.d[0]; n++) for (u32 m = 0; m < M; m++) for (u32 r = 0; r < oh; r++) for (u32 q = 0; q < ow; q++) { float a = b ? b[m] : 0;
    for (u32 c = 0; c < ci; c++) for (u32 i = 0; i < k.a[0]; i++) for (u32 j = 0; j < k.a[1]; j++) { int32_t yy = (int32_t)(r * s.a[0] + i) - (int32_t)p.a[0], xx = (int32_t)(q * s.a[1] + j) - (int32_t)p.a[1]; if (yy < 0 || xx < 0 || yy >= (int32_t)H || xx >= (int32_t)W) continue;
      a += x.v[((n * C + (m / co) * ci + c) * H + yy) * W + xx] * w.v[((m * ci + c) * k.a[0] + i) * k.a[1] + j]; }
    y.v[((n * M + m) * oh + r) * ow + q] = a; }
  return y; }
static inline RT r_pool(const RT &x, int mx, A4 k, A4 s, A4 p, bool incl) {
  u32 H = H_(x), W = W_(x), C = x.d[1], oh = (H + p.a[0] + p.a[2] - k.a[0]) / s.a[0] + 1, ow = (W + p.a[1] + p.a[3] - k.a[1]) / s.a[1] + 1; RT y = spatial(x, C, oh, ow);
  for (u32 c = 0; c < x.d[0] * C; c++) for (u32 r = 0; r < oh; r++) for (u32 q = 0; q < ow; q++) { float a = 0; u32 cnt = 0;
    for (u32 i = 0; i < k.a[0]; i++) for (u32 j = 0; j < k.a[1]; j++) { int32_t yy = (int32_t)(r * s.a[0] + i) - (int32_t)p.a[0], xx = (int32_t)(q * s.a[1] + j) - (int32_t)p.a[1]; if (yy < 0 || xx < 0 || yy >= (int32_t)H || xx >= (int32_t)W) continue;
      float v = x.v[(c * H + yy) * W + xx]; if (mx) a = cnt ? (v > a ? v : a) : v; else a += v; cnt++; }
    y.v[(c * oh + r) * ow + q] = mx ? a : a / (float)(incl ? k.a[0] * k.a[1] : cnt); }
  return y; }
static inline RT r_gpool(const RT &x, int mx) { u32 H = H_(x), W = W_(x); RT y = spatial(x, x.d[1], 1, 1); for (u32 c = 0; c < y.n; c++) { float a = mx ? x.v[c * H * W] : 0; for (u32 i = 0; i < H * W; i++) { float v = x.v[c * H * W + i]; if (mx) a = v > a ? v : a; else a += v; } y.v[c] = mx ? a : a / (float)(H * W); } return y; }
static inline RT r_gemm(const RT &x, const RT &w, const float *b) { RT y = mk({x.d[0], w.d[0]}); for (u32 i = 0; i < x.d[0]; i++) for (u32 o = 0; o < w.d[0]; o++) { float a = b ? b[o] : 0; for (u32 k = 0; k < x.d[1]; k++) a += x.v[i * x.d[1] + k] * w.v[o * x.d[1] + k]; y.v[i * w.d[0] + o] = a; } return y; }
static inline RT r_matmul(const RT &x, const RT &w) { RT y = mk({x.d[0], w.d[1]}); for (u32 i = 0; i < x.d[0]; i++) for (u32 o = 0; o < w.d[1]; o++) { float a = 0; for (u32 k = 0; k < x.d[1]; k++) a += x.v[i * x.d[1] + k] * w.v[k * w.d[1] + o]; y.v[i * w.d[1] + o] = a; } return y; }
static inline RT r_bn(const RT &x, const float *g, const float *b, const float *m, const float *v, float eps) { RT y = mk(x.nd, x.d); u32 per = 1; for (u32 i = 2; i < x.nd; i++) per *= x.d[i]; for (u32 i = 0; i < x.n; i++) { u32 c = i / per % x.d[1]; y.v[i] = g[c] * (x.v[i] - m[c]) / sqrtf(v[c] + eps) + b[c]; } return y; }
static inline RT r_lrn(const RT &x, u32 n, float alpha, float beta) { RT y = mk(x.nd, x.d); u32 C = x.d[1], P = x.n / (x.d[0] * C); for (u32 b = 0; b < x.d[0]; b++) for (u32 k = 0; k < C; k++) for (u32 p = 0; p < P; p++) { int32_t lo = (int32_t)k - (int32_t)((n - 1) / 2), hi = (int32_t)k + (int32_t)(n / 2); if (lo < 0) lo = 0; if (hi > (int32_t)C - 1) hi = (int32_t)C - 1; float s = 0; for (int32_t j = lo; j <= hi; j++) { float v = x.v[(b * C + j) * P + p]; s += v * v; } y.v[(b * C + k) * P + p] = x.v[(b * C + k) * P + p] / powf(1 + alpha / (float)n * s, beta); } return y; }
static inline RT r_relu(const RT &x) { RT y = mk(x.nd, x.d); for (u32 i = 0; i < x.n; i++) y.v[i] = x.v[i] > 0 ? x.v[i] : 0; return y; }
static inline RT r_clip(const RT &x, float lo, float hi) { RT y = mk(x.nd, x.d); for (u32 i = 0; i < x.n; i++) y.v[i] = x.v[i] < lo ? lo : x.v[i] > hi ? hi : x.v[i]; return y; }
static inline RT r_mul(const RT &x, float f) { RT y = mk(x.nd, x.d); for (u32 i = 0; i < x.n; i++) y.v[i] = x.v[i] * f; return y; }
static inline RT r_prod(const RT &x, const RT &y) { RT z = mk(x.nd, x.d); for (u32 i = 0; i < x.n; i++) z.v[i] = x.v[i] * y.v[i]; return z; }
// elementwise sum with the ONNX broadcasting rules
static inline RT r_add(const RT &a, const RT &b) { u32 nd = a.nd > b.nd ? a.nd : b.nd, d[5]; for (u32 i = 0; i < nd; i++) { u32 p = i + a.nd >= nd ? a.d[i + a.nd - nd] : 1, q = i + b.nd >= nd ? b.d[i + b.nd - nd] : 1; d[i] = p == 1 ? q : p; } RT y = mk(nd, d);
  for (u32 i = 0; i < y.n; i++) { u32 r = i, ia = 0, ib = 0, sa = 1, sb = 1; for (u32 k = nd; k-- > 0;) { u32 c = r % d[k]; r /= d[k]; if (k + a.nd >= nd) { u32 e = a.d[k + a.nd - nd]; if (e > 1) ia += c * sa; sa *= e; } if (k + b.nd >= nd) { u32 e = b.d[k + b.nd - nd]; if (e > 1) ib += c * sb; sb *= e; } } y.v[i] = a.v[ia] + b.v[ib]; }
  return y; }
static inline RT r_concat(std::initializer_list<RT> in, u32 axis) { const RT *a = in.begin(); u32 k = (u32)in.size(), d[5]; for (u32 i = 0; i < a->nd; i++) d[i] = a->d[i]; d[axis] = 0; for (u32 i = 0; i < k; i++) d[axis] += a[i].d[axis]; RT y = mk(a->nd, d); u32 pre = 1, post = 1; for (u32 i = 0; i < axis; i++) pre *= d[i]; for (u32 i = axis + 1; i < a->nd; i++) post *= d[i];
  u32 o = 0; for (u32 p = 0; p < pre; p++) for (u32 i = 0; i < k; i++) for (u32 j = 0; j < a[i].d[axis] * post; j++) y.v[o++] = a[i].v[p * a[i].d[axis] * post + j]; return y; }
static inline RT r_transpose(const RT &x, A4 perm) { u32 d[5]; for (u32 i = 0; i < x.nd; i++) d[i] = x.d[perm.a[i]]; RT y = mk(x.nd, d);
  for (u32 i = 0; i < y.n; i++) { u32 r = i, c[5]; for (u32 k = x.nd; k-- > 0;) { c[perm.a[k]] = r % d[k]; r /= d[k]; } u32 s = 0; for (u32 k = 0; k < x.nd; k++) s = s * x.d[k] + c[k]; y.v[i] = x.v[s]; } return y; }
static inline RT r_pad(const RT &x, std::initializer_list<u32> pads, float v) { const u32 *p = pads.begin(); u32 d[5]; for (u32 i = 0; i < x.nd; i++) d[i] = p[i] + x.d[i] + p[i + x.nd]; RT y = mk(x.nd, d);
  for (u32 i = 0; i < y.n; i++) { u32 r = i, c[5]; bool in = true; for (u32 k = x.nd; k-- > 0;) { c[k] = r % d[k]; r /= d[k]; if (c[k] < p[k] || c[k] >= p[k] + x.d[k]) in = false; } if (in) { u32 s = 0; for (u32 k = 0; k < x.nd; k++) s = s * x.d[k] + c[k] - p[k]; y.v[i] = x.v[s]; } else y.v[i] = v; } return y; }
static inline RT r_shape(const RT &x, std::initializer_list<u32> s) { RT y = mk(s); for (u32 i = 0; i < y.n && i < x.n; i++) y.v[i] = x.v[i]; return y; } // reshape, flatten, squeeze, unsqueeze
static inline int64_t vp_fdiv(int64_t a, int64_t b) { int64_t q = a / b; return q * b > a ? q - 1 : q; }
static inline int64_t vp_fmod(int64_t a, int64_t b) { return a - vp_fdiv(a, b) * b; }
struct Tok { u32 pos, id; };
// the exported weights, with the values of the model's initializers in their places
static inline void data_file(const char *name, const uint8_t *skel, u32 n, const Tok *tok, u32 nt, const float *w) { uint8_t *b = new uint8_t[n ? n : 1]; for (u32 i = 0; i < n; i++) b[i] = skel[i]; for (u32 i = 0; i < nt; i++) __builtin_memcpy(b + tok[i].pos, &w[tok[i].id], 4); vp_file(name, b, n); delete[] b; }
static inline void weights_file(const uint8_t *skel, u32 n, const Tok *tok, u32 nt, const float *w) { data_file("network.weights.bin", skel, n, tok, nt, w); }
static inline u32 pk(const char *name, int64_t lo, int64_t hi) { return vp_pick(name, (u32)lo, (u32)hi); }
static inline void same(const Tensor *t, const RT &r, const char *msg) { vp_assert(t->num_elements_ == r.n, "output size of the ONNX model"); for (u32 i = 0; i < r.n; i++) vp_eq(t->data_[i], r.v[i], msg); }
// softmax over all of z
static inline void soft(const Tensor *t, const RT &z, const char *msg) { vp_assert(t->num_elements_ == z.n, "output size of the ONNX model"); float m = z.v[0]; if (!vp_symbolic()) for (u32 i = 1; i < z.n; i++) m = z.v[i] > m ? z.v[i] : m; else m = 0; float s = 0; for (u32 i = 0; i < z.n; i++) s += expf(z.v[i] - m); for (u32 i = 0; i < z.n; i++) vp_eq(t->data_[i] * s, expf(z.v[i] - m), msg); }
