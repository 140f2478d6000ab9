#include "ref.h"
// Every layer: run on x1, run again on x2 (another size), compare with a fresh object on x2; operands, parameters and the caller's
// arrays stay as they were, arrays are overwritten after construction, everything the layer allocated is gone in the end.
struct Cfg { u32 k[2], s[2], p[4]; };
static void cfgset(Cfg *c, u32 a, u32 b, u32 d, u32 e, u32 p0, u32 p1, u32 p2, u32 p3) { c->k[0] = a; c->k[1] = b; c->s[0] = d; c->s[1] = e; c->p[0] = p0; c->p[1] = p1; c->p[2] = p2; c->p[3] = p3; }
static bool cfgis(const Cfg *c, const Cfg *o) { for (int i = 0; i < 2; i++) if (c->k[i] != o->k[i] || c->s[i] != o->s[i]) return false; for (int i = 0; i < 4; i++) if (c->p[i] != o->p[i]) return false; return true; }
template <class F> static void hist(F make, Cfg *cfg, u32 nd, const u32 *i1, u32 od, const u32 *o1, const u32 *i2, const u32 *o2, Tensor *p0 = nullptr, Tensor *p1 = nullptr, Tensor *p2 = nullptr, Tensor *p3 = nullptr) {
  Tensor *x1 = symT("x", nd, i1), *y1 = symT("dirty", od, o1), *x2 = symT("x", nd, i2), *y2 = symT("dirty", od, o2), *y3 = symT("dirty", od, o2), *pp[4] = {p0, p1, p2, p3}; Snap *sp[4]; for (u32 i = 0; i < 4; i++) sp[i] = pp[i] ? new Snap(pp[i]) : nullptr;
  Snap s1(x1), s2(x2); Cfg keep = *cfg; vp_leak_mark();
  auto *l = make(cfg); vp_assert(cfgis(cfg, &keep), "construction leaves the caller's arrays alone"); cfgset(cfg, 7, 7, 5, 5, 9, 9, 9, 9); l->run(x1, y1); Snap sy1(y1); l->run(x2, y2); vp_assert(cfg->k[0] == 7 && cfg->p[3] == 9, "running leaves the caller's arrays alone"); *cfg = keep;
  auto *m = make(cfg); cfgset(cfg, 3, 3, 3, 3, 1, 1, 1, 1); m->run(x2, y3); s1.same(x1, "the input is not modified"); s2.same(x2, "the input is not modified"); sy1.same(y1, "an earlier output is not modified"); for (u32 i = 0; i < 4; i++) if (pp[i]) sp[i]->same(pp[i], "parameters are not modified");
  for (u32 i = 0; i < y2->num_elements(); i++) vp_biteq(y2->access_blob(i), y3->access_blob(i), "result depends on the input and parameters only"); delete l; l = nullptr;
  Snap sy3(y3); m->run(x1, y1); sy1.same(y1, "repeating a run reproduces its result"); m->run(x2, y3); sy3.same(y3, "repeating a run reproduces its result"); delete m; for (u32 i = 0; i < 4; i++) { if (sp[i]) { sp[i]->same(pp[i], "parameters are not modified"); } } *cfg = keep; // sy1, sy3 are released below
  { // blocks of the snapshots taken after the mark are the harness's own
    delete[] sy1.d; sy1.d = nullptr; delete[] sy3.d; sy3.d = nullptr; }
  vp_leak_check("a layer frees what it allocates"); vp_reach("hist"); for (u32 i = 0; i < 4; i++) { delete sp[i]; delete pp[i]; } delete x1; delete x2; delete y1; delete y2; delete y3;
}
static u32 out(u32 n, u32 a, u32 b, u32 k, u32 s) { return (n + a + b - k) / s + 1; }
extern "C" {
void c15_conv2d() { u32 g = vp_pick("groups", 1, 2), ci = g * vp_pick("cin", 1, 2), co = g * vp_pick("cout", 1, 2), bias = vp_pick("bias", 0, 1), c = vp_pick("case", 0, 4); static const u32 K[5][8] = {{1, 1, 1, 1, 0, 0, 0, 0}, {3, 3, 1, 1, 1, 1, 1, 1}, {3, 1, 2, 1, 0, 1, 2, 0}, {1, 3, 1, 2, 1, 0, 0, 2}, {3, 3, 2, 2, 0, 0, 0, 0}}; const u32 *k = K[c]; Cfg f; cfgset(&f, k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7]); bool pad = c != 0 && c != 4; static const u32 S[3][4] = {{3, 4, 4, 3}, {5, 3, 3, 3}, {3, 3, 4, 5}}; const u32 *s = S[vp_pick("sizes", 0, 2)];
  u32 kd[4] = {co, ci / g, k[0], k[1]}, bd[1] = {co}, i1[4] = {1, ci, s[0], s[1]}, i2[4] = {1, ci, s[2], s[3]}, o1[4] = {1, co, out(s[0], pad ? k[4] : 0, pad ? k[6] : 0, k[0], k[2]), out(s[1], pad ? k[5] : 0, pad ? k[7] : 0, k[1], k[3])}, o2[4] = {1, co, out(s[2], pad ? k[4] : 0, pad ? k[6] : 0, k[0], k[2]), out(s[3], pad ? k[5] : 0, pad ? k[7] : 0, k[1], k[3])};
  Tensor *w = symT("w", 4, kd), *b = bias ? symT("b", 1, bd) : nullptr; hist([&](Cfg *q) { return new naive::Convolution("c", 0, op_type::Conv, w, b, pad ? q->p : nullptr, q->s, g); }, &f, 4, i1, 4, o1, i2, o2, w, b); }
void c15_conv1d() { u32 g = vp_pick("groups", 1, 2), ci = g * vp_pick("cin", 1, 2), co = g * vp_pick("cout", 1, 2), bias = vp_pick("bias", 0, 1), c = vp_pick("case", 0, 3), w1 = vp_pick("W1", 3, 5), w2 = vp_pick("W2", 3, 5); static const u32 K[4][4] = {{1, 1, 0, 0}, {3, 1, 1, 1}, {3, 2, 0, 2}, {3, 2, 0, 0}}; const u32 *k = K[c]; Cfg f; cfgset(&f, 1, 1, k[1], 0, k[2], k[3], 0, 0); bool pad = c == 1 || c == 2;
  u32 kd[3] = {co, ci / g, k[0]}, bd[1] = {co}, i1[3] = {1, ci, w1}, i2[3] = {1, ci, w2}, o1[3] = {1, co, out(w1, k[2], k[3], k[0], k[1])}, o2[3] = {1, co, out(w2, k[2], k[3], k[0], k[1])}; Tensor *w = symT("w", 3, kd), *b = bias ? symT("b", 1, bd) : nullptr;
  hist([&](Cfg *q) { u32 *s = new u32[1], *p = new u32[2]; s[0] = q->s[0]; p[0] = q->p[0]; p[1] = q->p[1]; auto *l = new naive::Convolution("c", 0, op_type::Conv, w, b, pad ? p : nullptr, s, g); s[0] = 77; p[0] = p[1] = 99; delete[] s; delete[] p; return l; }, &f, 3, i1, 3, o1, i2, o2, w, b); }
void c15_pool2d() { vp_mode(1); u32 kind = vp_pick("kind", 0, 2), c = vp_pick("case", 0, 5), N = vp_pick("N", 1, 2); static const u32 K[6][8] = {{2, 2, 2, 2, 0, 0, 0, 0}, {2, 3, 1, 1, 0, 1, 1, 1}, {3, 3, 2, 2, 1, 1, 1, 1}, {1, 2, 1, 2, 0, 1, 0, 0}, {2, 1, 1, 1, 1, 0, 0, 0}, {3, 2, 3, 1, 0, 0, 0, 0}}; const u32 *k = K[c]; bool pad = c >= 1 && c <= 4; Cfg f; cfgset(&f, k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7]); static const u32 S[2][4] = {{3, 4, 4, 3}, {5, 3, 3, 3}}; const u32 *s = S[vp_pick("sizes", 0, 1)];
  u32 i1[4] = {N, 2, s[0], s[1]}, i2[4] = {N, 2, s[2], s[3]}, o1[4] = {N, 2, out(s[0], k[4], k[6], k[0], k[2]), out(s[1], k[5], k[7], k[1], k[3])}, o2[4] = {N, 2, out(s[2], k[4], k[6], k[0], k[2]), out(s[3], k[5], k[7], k[1], k[3])};
  if (kind == 0) hist([&](Cfg *q) { return new naive::MaxPooling("p", 0, op_type::MaxPool, q->k, q->s, pad ? q->p : nullptr); }, &f, 4, i1, 4, o1, i2, o2); else hist([&](Cfg *q) { return new naive::AveragePooling("p", 0, op_type::AveragePool, q->k, q->s, pad ? q->p : nullptr, kind == 2); }, &f, 4, i1, 4, o1, i2, o2); }
void c15_pool1d() { vp_mode(1); u32 kind = vp_pick("kind", 0, 2), c = vp_pick("case", 0, 3), w1 = vp_pick("W1", 3, 6), w2 = vp_pick("W2", 3, 6), N = vp_pick("N", 1, 2); static const u32 K[4][4] = {{2, 2, 0, 0}, {3, 1, 1, 2}, {2, 1, 1, 0}, {3, 3, 0, 0}}; const u32 *k = K[c]; bool pad = c == 1 || c == 2; Cfg f; cfgset(&f, k[0], 0, k[1], 0, k[2], k[3], 0, 0);
  u32 i1[3] = {N, 2, w1}, i2[3] = {N, 2, w2}, o1[3] = {N, 2, out(w1, k[2], k[3], k[0], k[1])}, o2[3] = {N, 2, out(w2, k[2], k[3], k[0], k[1])};
  if (kind == 0) hist([&](Cfg *q) { return new naive::MaxPooling("p", 0, op_type::MaxPool, q->k, q->s, pad ? q->p : nullptr); }, &f, 3, i1, 3, o1, i2, o2); else hist([&](Cfg *q) { return new naive::AveragePooling("p", 0, op_type::AveragePool, q->k, q->s, pad ? q->p : nullptr, kind == 2); }, &f, 3, i1, 3, o1, i2, o2); }
void c15_pool1d_short() { // arrays of the lengths that a one-dimensional window has, as the unit tests pass them
  vp_mode(1); u32 kind = vp_pick("kind", 0, 1), d[3] = {1, 1, 4}, e[3] = {1, 1, 2}; u32 *k = new u32[1], *s = new u32[1], *p = new u32[2]; k[0] = 2; s[0] = 2; p[0] = p[1] = 0; Tensor *x = symT("x", 3, d), *y = symT("dirty", 3, e); if (kind) { auto *l = new naive::AveragePooling("p", 0, op_type::AveragePool, k, s, p, false); l->run(x, y); delete l; } else { auto *l = new naive::MaxPooling("p", 0, op_type::MaxPool, k, s, p); l->run(x, y); delete l; } delete[] k; delete[] s; delete[] p; delete x; delete y; vp_reach("short"); }
void c15_global() { vp_mode(1); u32 kind = vp_pick("kind", 0, 1), nd = vp_pick("rank", 3, 4), N = vp_pick("N", 1, 2), C = vp_pick("C", 1, 3); u32 a[4] = {N, C, 2, 3}, b[4] = {N, C, 3, 1}, o[4] = {N, C, 1, 1}; if (nd == 3) { a[2] = 5; b[2] = 4; } Cfg f; cfgset(&f, 1, 1, 1, 1, 0, 0, 0, 0); if (kind) hist([&](Cfg *) { return new naive::GlobalAveragePooling("p", 0, op_type::GlobalAveragePool); }, &f, nd, a, nd, o, b, o); else hist([&](Cfg *) { return new naive::GlobalMaxPooling("p", 0, op_type::GlobalMaxPool); }, &f, nd, a, nd, o, b, o); }
void c15_bn() { u32 nd = vp_pick("rank", 3, 4), C = vp_pick("C", 1, 3); u32 a[4] = {1, C, 2, 3}, b[4] = {1, C, 3, 1}, c[1] = {C}; if (nd == 3) { a[2] = 5; b[2] = 2; } Cfg f; cfgset(&f, 1, 1, 1, 1, 0, 0, 0, 0); Tensor *g = symT("g", 1, c), *be = symT("be", 1, c), *m = symT("m", 1, c), *v = symT("v", 1, c); hist([&](Cfg *) { return new naive::BatchNormalization("b", 0, op_type::BatchNormalization, g, be, m, v, 1e-5f); }, &f, nd, a, nd, a, b, b, g, be, m, v); }
void c15_fc() { u32 n = vp_pick("n", 1, 4), k = vp_pick("k", 1, 4), kind = vp_pick("kind", 0, 2); u32 a[2] = {1, k}, o[2] = {1, n}, w1[2] = {n, k}, w2[2] = {k, n}, bd[2] = {1, n}; Cfg f; cfgset(&f, 1, 1, 1, 1, 0, 0, 0, 0); if (kind < 2) { Tensor *w = symT("w", 2, w1), *b = kind ? symT("b", 2, bd) : nullptr; hist([&](Cfg *) { return new naive::FullyConnected("f", 0, op_type::Gemm, w, b); }, &f, 2, a, 2, o, a, o, w, b); } else { Tensor *w = symT("w", 2, w2); hist([&](Cfg *) { return new naive::MatMul("f", 0, op_type::MatMul, w); }, &f, 2, a, 2, o, a, o, w); } }
void c15_act() { u32 kind = vp_pick("kind", 0, 6); if (kind == 6) vp_mode(1); static const u32 D[6][10] = {{1, 3, 0, 0, 0, 2, 0, 0, 0}, {2, 1, 3, 0, 0, 2, 2, 0, 0}, {2, 1, 2, 0, 0, 1, 4, 0, 0}, {3, 1, 2, 2, 0, 1, 1, 3, 0}, {4, 1, 2, 2, 1, 1, 1, 2, 2}, {4, 2, 1, 2, 1, 1, 3, 1, 1}}; const u32 *d = D[vp_pick("shape", 0, 5)]; Cfg f; cfgset(&f, 1, 1, 1, 1, 0, 0, 0, 0); u32 nd = d[0]; const u32 *a = d + 1, *b = d + 5; float lo = vp_f32x("lo", 2), hi = vp_f32x("hi", 2);
  switch (kind) {
    case 0: hist([&](Cfg *) { return new naive::ReLU("a", 0, op_type::ReLU); }, &f, nd, a, nd, a, b, b); break;
    case 1: hist([&](Cfg *) { return new naive::LeakyReLU("a", 0, op_type::LeakyReLU, lo); }, &f, nd, a, nd, a, b, b); break;
    case 2: { Tensor *s = symT("slope", nd, a); hist([&](Cfg *) { return new naive::ParameterizedReLU("a", 0, op_type::ParamReLU, s); }, &f, nd, a, nd, a, a, a, s); break; }
    case 3: hist([&](Cfg *) { return new naive::Clip("a", 0, op_type::Clip, lo, hi); }, &f, nd, a, nd, a, b, b); break;
    case 4: hist([&](Cfg *) { return new naive::Sigmoid("a", 0, op_type::Sigmoid); }, &f, nd, a, nd, a, b, b); break;
    case 5: hist([&](Cfg *) { return new naive::TanH("a", 0, op_type::TanH); }, &f, nd, a, nd, a, b, b); break;
    default: hist([&](Cfg *) { return new naive::Softmax("a", 0, op_type::Softmax); }, &f, nd, a, nd, a, b, b); } }
void c15_lrn() { vp_mode(1); u32 n = vp_pick("n", 1, 5), N = vp_pick("N", 1, 2), C = vp_pick("C", 1, 4); u32 a[4] = {N, C, 2, 1}, b[4] = {N, C, 1, 3}; Cfg f; cfgset(&f, 1, 1, 1, 1, 0, 0, 0, 0); hist([&](Cfg *) { return new naive::LRN("l", 0, op_type::LRN, 0.5f, 0.75f, n); }, &f, 4, a, 4, a, b, b); }
// larger tensors: chunked or vectorised code paths, memory checks at real sizes
void c15_large() { u32 c = vp_pick("case", 0, 9); vp_mode(1); Cfg f; cfgset(&f, 3, 3, 2, 1, 1, 0, 2, 1);
  switch (c) {
    case 0: { u32 kd[4] = {3, 1, 3, 3}, bd[1] = {3}, i1[4] = {1, 3, 40, 9}, i2[4] = {1, 3, 9, 37}, o1[4] = {1, 3, out(40, 1, 2, 3, 2), out(9, 0, 1, 3, 1)}, o2[4] = {1, 3, out(9, 1, 2, 3, 2), out(37, 0, 1, 3, 1)}; Tensor *w = symT("w", 4, kd), *b = symT("b", 1, bd); hist([&](Cfg *q) { return new naive::Convolution("c", 0, op_type::Conv, w, b, q->p, q->s, 3); }, &f, 4, i1, 4, o1, i2, o2, w, b); break; }
    case 1: case 2: { u32 i1[4] = {1, 2, 40, 9}, i2[4] = {1, 2, 9, 37}, o1[4] = {1, 2, out(40, 1, 2, 3, 2), out(9, 0, 1, 3, 1)}, o2[4] = {1, 2, out(9, 1, 2, 3, 2), out(37, 0, 1, 3, 1)}; if (c == 1) hist([&](Cfg *q) { return new naive::MaxPooling("p", 0, op_type::MaxPool, q->k, q->s, q->p); }, &f, 4, i1, 4, o1, i2, o2); else hist([&](Cfg *q) { return new naive::AveragePooling("p", 0, op_type::AveragePool, q->k, q->s, q->p, false); }, &f, 4, i1, 4, o1, i2, o2); break; }
    case 3: { u32 a[4] = {1, 35, 4, 5}, b[4] = {1, 35, 2, 3}, p[1] = {35}; Tensor *g = symT("g", 1, p), *be = symT("be", 1, p), *m = symT("m", 1, p), *v = symT("v", 1, p); vp_mode(0); hist([&](Cfg *) { return new naive::BatchNormalization("b", 0, op_type::BatchNormalization, g, be, m, v, 1e-5f); }, &f, 4, a, 4, a, b, b, g, be, m, v); break; }
    case 4: { u32 a[2] = {1, 70}, o[2] = {1, 33}, w1[2] = {33, 70}; Tensor *w = symT("w", 2, w1), *b = symT("b", 2, o); hist([&](Cfg *) { return new naive::FullyConnected("f", 0, op_type::Gemm, w, b); }, &f, 2, a, 2, o, a, o, w, b); break; }
    case 5: { u32 a[4] = {1, 3, 19, 23}, b[4] = {1, 5, 7, 9}; hist([&](Cfg *) { return new naive::ReLU("a", 0, op_type::ReLU); }, &f, 4, a, 4, a, b, b); break; }
    case 6: { u32 a[2] = {1, 300}, b[2] = {1, 129}; vp_mode(0); hist([&](Cfg *) { return new naive::Sigmoid("a", 0, op_type::Sigmoid); }, &f, 2, a, 2, a, b, b); break; }
    case 7: { u32 a[4] = {1, 33, 3, 3}, b[4] = {1, 17, 2, 5}; hist([&](Cfg *) { return new naive::LRN("l", 0, op_type::LRN, 0.5f, 0.75f, 5); }, &f, 4, a, 4, a, b, b); break; }
    case 8: { u32 a[4] = {1, 3, 13, 17}, b[4] = {1, 3, 20, 5}, o[4] = {1, 3, 1, 1}; hist([&](Cfg *) { return new naive::GlobalAveragePooling("p", 0, op_type::GlobalAveragePool); }, &f, 4, a, 4, o, b, o); break; }
    default: { u32 a[2] = {1, 40}, b[2] = {1, 19}; hist([&](Cfg *) { return new naive::Softmax("a", 0, op_type::Softmax); }, &f, 2, a, 2, a, b, b); } } }
}
// several layers in one process: what one of them computes does not depend on those that ran before it
template <class L> static void fin(L *l, const RT &x, const RT &y, Tensor *tw = nullptr, Tensor *tb = nullptr) { Tensor *tx = asT(x), *ty = symT("dirty", y.nd, y.d); l->run(tx, ty); same(ty, y, "the result of a layer does not depend on layers that ran before it"); delete l; delete tx; delete ty; delete tw; delete tb; }
static void one(u32 kind, u32 slot) { // slot: where in the sequence; the geometries differ
  static const A4 K[3] = {{{2, 3}}, {{3, 2}}, {{2, 2}}}, S[3] = {{{2, 1}}, {{1, 2}}, {{1, 1}}}, P[3] = {{{1, 1, 0, 2}}, {{0, 1, 2, 0}}, {{1, 0, 1, 1}}}; A4 k = K[slot], s = S[slot], p = P[slot]; RT x = symR("x", {slot == 1 ? 2u : 1u, 2, 3 + slot, 4}), y; u32 kk[2] = {k.a[0], k.a[1]}, ss[2] = {s.a[0], s.a[1]}, pp[4] = {p.a[0], p.a[1], p.a[2], p.a[3]}; RT w, b; Tensor *tw = nullptr, *tb = nullptr;
  if (kind <= 2) { y = r_pool(x, kind == 0, k, s, p, kind == 2); if (kind == 0) fin(new naive::MaxPooling("p", 0, op_type::MaxPool, kk, ss, pp), x, y); else fin(new naive::AveragePooling("p", 0, op_type::AveragePool, kk, ss, pp, kind == 2), x, y); }
  else if (kind == 3) { x = symR("x", {1, 2, 3 + slot, 4}); if (slot == 2) { k.a[0] = k.a[1] = 3; } else if (slot) { k.a[0] = 3; k.a[1] = 1; p.a[0] = 1; p.a[1] = p.a[3] = 0; pp[0] = 1; pp[1] = pp[3] = 0; } else { k.a[0] = 1; k.a[1] = 3; p.a[0] = p.a[2] = 0; pp[0] = pp[2] = 0; } w = symR("w", {2, 1, k.a[0], k.a[1]}); b = symR("b", {2}); y = r_conv(x, w, b.v, k, s, p, 2); tw = asT(w); tb = asT(b); fin(new naive::Convolution("c", 0, op_type::Conv, tw, tb, pp, ss, 2), x, y, tw, tb); }
  else if (kind == 4) { y = r_gpool(x, slot == 0); if (slot == 0) fin(new naive::GlobalMaxPooling("g", 0, op_type::GlobalMaxPool), x, y); else fin(new naive::GlobalAveragePooling("g", 0, op_type::GlobalAveragePool), x, y); }
  else if (kind == 5) { y = r_clip(x, slot ? -1.f : 0.f, slot ? 2.f : 6.f); fin(new naive::Clip("a", 0, op_type::Clip, slot ? -1.f : 0.f, slot ? 2.f : 6.f), x, y); }
  else if (kind == 6) { x = symR("x", {1, 3}); w = symR("w", {2 + slot, 3}); y = r_gemm(x, w, nullptr); tw = asT(w); fin(new naive::FullyConnected("f", 0, op_type::Gemm, tw, nullptr), x, y, tw, tb); }
  else { y = r_relu(x); fin(new naive::ReLU("a", 0, op_type::ReLU), x, y); }
}
extern "C" {
void c15_seq() { vp_mode(1); u32 a = vp_pick("first", 0, 7), b = vp_pick("second", 0, 7), c = vp_pick("third", 0, DEEP(1, 7)); one(a, 0); one(b, 1); one(c ? a : b, 2); vp_reach("hist"); }
}
