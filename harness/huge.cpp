// Tensors of more than 65536 elements, over the reals: values are fixed but for a few symbolic ones around the places where narrow
// index types would wrap.
#include "ref.h"
#include <vector>
static float val(u32 i) { return (float)((i * 29 + i / 61 + 7) % 64) / 8 - 3.75f; }
static RT bigR(const char *name, std::initializer_list<u32> d, bool sym = true) { RT r = mk(d); for (u32 i = 0; i < r.n; i++) r.v[i] = sym && (i == 1 || i == 65536 || i + 1 == r.n) ? vp_f32(name) : val(i); return r; }
static Tensor *dirtyT(const RT &y) { Tensor *t = mkT(y.nd, y.d); for (u32 i = 0; i < y.n; i++) t->data_[i] = 1e9f; return t; }
template <class L> static void go(L *l, const RT &x, const RT &y, const char *msg, Tensor *a = nullptr, Tensor *b = nullptr, bool inplace = false) { Tensor *tx = asT(x), *ty = inplace ? tx : dirtyT(y); l->run(tx, ty); same(ty, y, msg); if (!inplace) for (u32 i = 0; i < x.n; i++) vp_biteq(tx->data_[i], x.v[i], "the input is not modified"); delete l; delete tx; if (!inplace) delete ty; delete a; delete b; vp_reach("huge"); }
static void conv(const RT &x, const RT &w, bool bias, A4 k, A4 s, A4 p, u32 g) { RT b; if (bias) b = bigR("b", {w.d[0]}); RT y = r_conv(x, w, bias ? b.v : nullptr, k, s, p, g); u32 st[2] = {s.a[0], s.a[1]}, pp[4] = {p.a[0], p.a[1], p.a[2], p.a[3]}; if (x.nd == 3) { st[0] = s.a[1]; pp[0] = p.a[1]; pp[1] = p.a[3]; } Tensor *tw = asT(w), *tb = bias ? asT(b) : nullptr; go(new naive::Convolution("c", 0, op_type::Conv, tw, tb, pp, st, g), x, y, "convolution of the ONNX definition", tw, tb); }
static void pool(u32 mx, const RT &x, A4 k, A4 s, A4 p, bool incl) { RT y = r_pool(x, mx, k, s, p, incl); u32 kk[2] = {k.a[0], k.a[1]}, st[2] = {s.a[0], s.a[1]}, pp[4] = {p.a[0], p.a[1], p.a[2], p.a[3]}; if (x.nd == 3) { kk[0] = k.a[1]; kk[1] = 1; st[0] = s.a[1]; pp[0] = p.a[1]; pp[1] = p.a[3]; } if (mx) go(new naive::MaxPooling("p", 0, op_type::MaxPool, kk, st, pp), x, y, "pooling of the ONNX definition"); else go(new naive::AveragePooling("p", 0, op_type::AveragePool, kk, st, pp, incl), x, y, "pooling of the ONNX definition"); }
static void pools(u32 mx) { vp_mode(1); u32 m = vp_pick("case", 0, 4), incl = mx ? 0 : vp_pick("incl", 0, 1);
  if (m == 0) pool(mx, bigR("x", {1, 1, 520, 260}), {{2, 2}}, {{2, 2}}, {{0, 0, 0, 0}}, incl); else if (m == 1) pool(mx, bigR("x", {1, 1, 260, 257}), {{1, 3}}, {{1, 1}}, {{0, 1, 0, 1}}, incl); else if (m == 2) pool(mx, bigR("x", {1, 1, 66001}), {{1, 2}}, {{1, 1}}, {{0, 0, 0, 1}}, incl); else if (m == 3) pool(mx, bigR("x", {1, 65540, 1, 2}), {{1, 2}}, {{1, 1}}, {{0, 0, 0, 0}}, incl); else pool(mx, bigR("x", {65540, 1, 3}), {{1, 2}}, {{1, 2}}, {{0, 1, 0, 0}}, incl); }
extern "C" {
void c01_huge() { vp_mode(1); switch (vp_pick("case", 0, 6)) {
  case 0: conv(bigR("x", {1, 1, 260, 256}), bigR("w", {1, 1, 1, 3}, false), true, {{1, 3}}, {{1, 1}}, {{0, 1, 0, 1}}, 1); break;
  case 1: conv(bigR("x", {1, 70, 32, 32}), bigR("w", {2, 70, 1, 1}, false), false, {{1, 1}}, {{1, 1}}, {{0, 0, 0, 0}}, 1); break;
  case 2: conv(bigR("x", {1, 1, 66001}), bigR("w", {2, 1, 3}, false), true, {{1, 3}}, {{1, 2}}, {{0, 1, 0, 1}}, 1); break;
  case 3: conv(bigR("x", {1, 26, 3, 3}, false), bigR("w", {300, 26, 3, 3}), true, {{3, 3}}, {{1, 1}}, {{0, 0, 0, 0}}, 1); break;
  case 4: conv(bigR("x", {1, 65540, 1, 1}), bigR("w", {65540, 1, 1, 1}, false), false, {{1, 1}}, {{1, 1}}, {{0, 0, 0, 0}}, 65540); break;
  case 5: conv(bigR("x", {1, 65540, 1}), bigR("w", {1, 65540, 1}, false), true, {{1, 1}}, {{1, 1}}, {{0, 0, 0, 0}}, 1); break;
  default: conv(bigR("x", {1, 1, 1, 2}, false), bigR("w", {65540, 1, 1, 1}), true, {{1, 1}}, {{1, 1}}, {{0, 0, 0, 0}}, 1); } }
void c02_huge() { vp_mode(1); u32 m = vp_pick("case", 0, 2), mm = vp_pick("matmul", 0, 1); u32 k = m == 0 ? 256 : m == 1 ? 1 : 65540, n = m == 0 ? 257 : m == 1 ? 65540 : 1; RT x = bigR("x", {1, k}, m != 0), w = mm ? bigR("w", {k, n}, m == 0) : bigR("w", {n, k}, m == 0), b = bigR("b", {1, n}); RT y = mm ? r_matmul(x, w) : r_gemm(x, w, b.v); Tensor *tw = asT(w), *tb = mm ? nullptr : asT(b); if (mm) go(new naive::MatMul("m", 0, op_type::MatMul, tw), x, y, "matrix product", tw, tb); else go(new naive::FullyConnected("f", 0, op_type::Gemm, tw, tb), x, y, "matrix product and bias", tw, tb); }
void c03_huge() { pools(1); }
void c04_huge() { pools(0); }
void c05_huge() { vp_mode(1); u32 mx = vp_pick("max", 0, 1), m = vp_pick("case", 0, 2); RT x = m == 0 ? bigR("x", {1, 1, 260, 256}) : m == 1 ? bigR("x", {1, 65540, 1, 1}) : bigR("x", {1, 1, 66001}); RT y = r_gpool(x, mx); if (mx) go(new naive::GlobalMaxPooling("g", 0, op_type::GlobalMaxPool), x, y, "the largest value of each channel"); else go(new naive::GlobalAveragePooling("g", 0, op_type::GlobalAveragePool), x, y, "the mean of each channel"); }
void c06_huge() { vp_mode(1); u32 m = vp_pick("case", 0, 2); RT x = m == 0 ? bigR("x", {1, 1, 260, 256}) : m == 1 ? bigR("x", {1, 65540, 1, 1}) : bigR("x", {1, 2, 33001}); u32 C = x.d[1]; RT g = bigR("g", {C}), b = bigR("b", {C}), mu = bigR("m", {C}), va = mk({C}); for (u32 i = 0; i < C; i++) va.v[i] = (float)(i % 7) * 0.5f + 1; RT y = r_bn(x, g.v, b.v, mu.v, va.v, 0.25f); Tensor *tg = asT(g), *tb = asT(b), *tm = asT(mu), *tv = asT(va); go(new naive::BatchNormalization("b", 0, op_type::BatchNormalization, tg, tb, tm, tv, 0.25f), x, y, "normalisation of the ONNX definition", tg, tb); delete tm; delete tv; }
void c07_huge() { vp_mode(1); u32 m = vp_pick("shape", 0, 2), k = vp_pick("kind", 0, 4), ip = vp_pick("inplace", 0, 1); if (k == 4 && ip) vp_done(); RT x = m == 0 ? bigR("x", {1, 65540}) : m == 1 ? bigR("x", {1, 1, 260, 256}) : bigR("x", {65540}), y = mk(x.nd, x.d); for (u32 i = 0; i < x.n; i++) { float v = x.v[i]; y.v[i] = k == 0 ? (v > 0 ? v : 0) : k == 1 ? (v < 0 ? v * 0.25f : v) : k == 2 ? (v < 0 ? v * val(i + 3) : v) : k == 3 ? (v < -1 ? -1 : v > 2 ? 2 : v) : v; }
  if (k == 0) go(new naive::ReLU("a", 0, op_type::ReLU), x, y, "activation value", nullptr, nullptr, ip); else if (k == 1) go(new naive::LeakyReLU("a", 0, op_type::LeakyReLU, 0.25f), x, y, "activation value", nullptr, nullptr, ip); else if (k == 2) { Tensor *s = mkT(x.nd, x.d); for (u32 i = 0; i < x.n; i++) s->data_[i] = val(i + 3); go(new naive::ParameterizedReLU("a", 0, op_type::ParamReLU, s), x, y, "activation value", s, nullptr, ip); } else if (k == 3) go(new naive::Clip("a", 0, op_type::Clip, -1.f, 2.f), x, y, "activation value", nullptr, nullptr, ip); else go(new naive::ActivationFunction("a", 0, op_type::Unknown), x, y, "activation value"); }
void c08_huge() { vp_mode(1); u32 m = vp_pick("shape", 0, 1), k = vp_pick("kind", 0, 1); RT x = m == 0 ? bigR("x", {1, 65540}, false) : bigR("x", {1, 1, 260, 256}, false), y = mk(x.nd, x.d); for (u32 i = 0; i < x.n; i++) y.v[i] = k ? tanhf(x.v[i]) : 1 / (1 + expf(-x.v[i])); if (k) go(new naive::TanH("a", 0, op_type::TanH), x, y, "tanh of each element"); else go(new naive::Sigmoid("a", 0, op_type::Sigmoid), x, y, "sigmoid of each element"); }
void c09_huge() { vp_mode(1); u32 m = vp_pick("case", 0, 2); RT x = m == 0 ? bigR("x", {1, 2, 200, 170}, false) : m == 1 ? bigR("x", {1, 65540, 1, 1}, false) : bigR("x", {1, 1, 260, 256}, false); RT y = r_lrn(x, 3, 0.5f, 0.75f); go(new naive::LRN("l", 0, op_type::LRN, 0.5f, 0.75f, 3), x, y, "normalisation of the ONNX definition"); }
void c11_huge() { vp_mode(1); u32 m = vp_pick("case", 0, 3); RT x = m == 0 ? bigR("x", {1, 1, 260, 256}) : m == 1 ? bigR("x", {1, 65540, 1, 1}) : m == 2 ? bigR("x", {1, 2, 33001}) : bigR("x", {260, 256}); RT y = m < 2 ? r_pad(x, {0, 0, 1, 0, 0, 0, 0, 1}, 2.5f) : m == 2 ? r_pad(x, {0, 0, 1, 0, 0, 2}, 2.5f) : r_pad(x, {1, 0, 0, 1}, 2.5f);
  Tensor *t = asT(x), *o = dirtyT(y); u32 p4[4] = {1, 0, 0, 1}, p2[2] = {1, 2}; bool made = vp_pick("how", 0, 1); u32 *p = m == 2 ? p2 : p4; if (made) { delete o; o = t->expand_with_padding(p, 2.5f); } else t->copy_with_padding_into(o, p, 2.5f); same(o, y, "padded content"); delete o; delete t; vp_reach("huge"); }
void c12_huge() { vp_mode(1); u32 m = vp_pick("case", 0, 3); RT a = m == 0 ? bigR("a", {1, 1, 260, 256}) : m == 1 ? bigR("a", {1, 65540, 1, 1}) : m == 2 ? bigR("a", {1, 2, 33001}) : bigR("a", {1, 65540}), b = m == 0 ? bigR("b", {1, 1, 260, 256}) : m == 1 ? bigR("b", {1, 3, 1, 1}) : m == 2 ? bigR("b", {1, 1, 33001}) : bigR("b", {1, 3}); RT y = r_concat({a, b}, 1); Tensor *ta = asT(a), *tb = asT(b), *o = dirtyT(y); std::vector<Tensor *> in = {ta, tb}; o->concatenate_from(in.size(), in.data(), 1); same(o, y, "concatenated content"); delete ta; delete tb; delete o; vp_reach("huge"); }
void c13_huge() { vp_mode(1); u32 m = vp_pick("case", 0, 2), k = vp_pick("kind", 0, 2); RT a = m == 0 ? bigR("a", {1, 2, 260, 256}) : m == 1 ? bigR("a", {1, 65541, 1, 1}) : bigR("a", {1, 3, 33001}), b = mk(a.nd, a.d); for (u32 i = 0; i < b.n; i++) b.v[i] = val(i * 3 + 1); u32 per = a.n / a.d[1], c = a.d[1] - 1; Tensor *ta = asT(a), *tb = asT(b); RT y = k == 0 ? r_add(a, b) : k == 2 ? r_mul(a, 0.75f) : a;
  if (k == 1) { y = mk(a.nd, a.d); for (u32 i = 0; i < a.n; i++) y.v[i] = i / per == c ? a.v[i] + b.v[i] : a.v[i]; } if (k == 0) vp_assert(ta->add_tensor(tb), "adding equal shapes succeeds"); else if (k == 1) vp_assert(ta->add_channel(tb, 0, c), "adding a channel succeeds"); else ta->mul_with_factor(tb, 0.75f); same(k == 2 ? tb : ta, y, "elementwise result"); delete ta; delete tb; vp_reach("huge"); }
void c14_huge() { vp_mode(1); u32 m = vp_pick("case", 0, 2), k = vp_pick("pos", 0, 3); RT a = m == 0 ? bigR("a", {1, 1, 260, 256}, false) : m == 1 ? bigR("a", {65540}, false) : bigR("a", {1, 2, 33001}, false); u32 at = k == 0 ? 0 : k == 1 ? 65535 : k == 2 ? 65536 : a.n - 1; Tensor *x = asT(a), *y = asT(a); vp_assert(*x == *y, "close tensors compare equal"); float d = vp_f32("d"); y->data_[at] += d; bool r = *x == *y; vp_assert(!(d < 0.00009999f && d > -0.00009999f) || r, "close tensors compare equal"); vp_assert(!(d > 0.000100001f || d < -0.000100001f) || !r, "a different element makes tensors unequal"); vp_reach("huge"); delete x; delete y; }
}
