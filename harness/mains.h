// The programs generated next to a network (reference_input.cpp, dummy_input.cpp), run on stand-in networks and on the real one.
#pragma once
#include "ref.h"
#include "filebuf.h"
#include "pico-cnn/io/read_binary_reference_data.h"
extern "C" __attribute__((weak)) int rand(void) { return (int)vp_u32("rand", 0, 2147483647); }
typedef int (*MainFn)(int32_t, char **);
// what the stand-in network saw, and what it answers
struct Seen { u32 runs, built, gone, nin, nout, ind, outd, ish[5], osh[5]; float *x, *y, kv[2]; bool check, dummy, once; float *first; };
static Seen seen;
namespace { // one for each file
struct StandIn { Tensor **kernels, **biases;
  StandIn() { seen.built++; kernels = new Tensor*[1](); biases = new Tensor*[1](); kernels[0] = new Tensor(1, 2); }
  ~StandIn() { seen.gone++; delete kernels[0]; delete[] kernels; delete[] biases; }
  void run(Tensor *in, Tensor *out) {
    vp_assert(seen.built == seen.gone + 1, "one network is run"); vp_assert(in->num_dimensions_ == seen.ind && in->num_elements_ == seen.nin, "the input has the shape of the model"); for (u32 i = 0; i < seen.ind; i++) vp_assert(in->shape_[i] == seen.ish[i], "the input has the shape of the model");
    vp_assert(out->num_elements_ == seen.nout && out->num_dimensions_ == seen.outd, "the output has the shape of the model"); for (u32 i = 0; i < seen.outd; i++) vp_assert(out->shape_[i] == seen.osh[i], "the output has the shape of the model");
    vp_biteq(kernels[0]->data_[0], seen.kv[0], "weights are loaded before the network runs"); vp_biteq(kernels[0]->data_[1], seen.kv[1], "weights are loaded before the network runs");
    for (u32 i = 0; i < seen.nin; i++) { float v = in->data_[i]; if (!seen.dummy) vp_biteq(v, seen.x[i], "the network gets the stored input"); else { vp_assert(v >= 0.0f && v <= 1.0f, "random input lies between the bounds"); if (seen.once) { if (seen.runs) vp_biteq(v, seen.first[i], "input generated once stays the same"); else seen.first[i] = v; } } }
    for (u32 i = 0; i < seen.nout; i++) out->data_[i] = seen.y[i]; seen.runs++; }
};
static inline void wfile(const float *kv) { Buf *f = new Buf; f->str("FD\nnet\n"); f->u32_(1); f->str("l\nMatMul\n"); f->u32_(1); f->u32_(1); f->u32_(2); f->f32(kv[0]); f->f32(kv[1]); f->u32_(0); f->str("end\n"); vp_file("w.bin", f->d, f->n); delete f; }
static inline void ifile(const RT &x, u32 cut, u32 more) { Buf *f = new Buf; u32 n = x.nd; f->str("FCI\n"); f->u32_(1); f->u32_(n >= 3 ? x.d[1] : 1); f->u32_(n == 4 ? x.d[2] : n == 3 ? 1 : x.d[0]); f->u32_((n == 4 ? x.d[3] : n == 3 ? x.d[2] : x.d[1]) + more); for (u32 i = 0; i < x.n; i++) f->f32(x.v[i]); f->str("end\n"); vp_file("x.data", f->d, f->n - cut); delete f; }
static inline void ofile(const float *r, u32 n, u32 cut, u32 more) { Buf *f = new Buf; f->str("FCO\n"); f->u32_(1); f->u32_(n + more); for (u32 i = 0; i < n; i++) f->f32(r[i]); f->str("end\n"); vp_file("y.data", f->d, f->n - cut); delete f; }
static inline void setup(const RT &x, std::initializer_list<u32> osh, float *kv) { seen = Seen(); u32 k = 0; seen.nout = 1; for (u32 d : osh) { seen.osh[k++] = d; seen.nout *= d; } seen.outd = k; seen.ind = x.nd; seen.nin = x.n; for (u32 i = 0; i < x.nd; i++) seen.ish[i] = x.d[i]; seen.x = x.v; seen.kv[0] = kv[0]; seen.kv[1] = kv[1]; }
static inline char *arg(const char *s) { u32 n = 0; while (s[n]) n++; char *r = new char[n + 1]; for (u32 i = 0; i <= n; i++) r[i] = s[i]; return r; }
static inline char *longarg(u32 n) { char *r = new char[n + 1]; for (u32 i = 0; i < n; i++) r[i] = i % 50 == 49 ? '/' : 'a'; r[n] = 0; return r; }
static inline void watch() { vp_out_watch("almost equal"); vp_out_watch("not "); }
static inline bool told() { return vp_out_seen("almost equal"); }
static inline bool positive() { return told() && !vp_out_seen("not "); }
// kind 0: any real output and reference; 1: special values; 2: a missing, cut, or differently shaped file; 3: other numbers of arguments; 4: long paths
static inline void reference(MainFn mn, const RT &x, std::initializer_list<u32> osh, u32 kind) {
  float kv[2] = {vp_f32("k"), vp_f32("k")}; setup(x, osh, kv); u32 n = seen.nout; float *y = new float[n], *r = new float[n]; seen.y = y; bool far = false, close = true;
  static const float SP[8][2] = {{__builtin_nanf(""), 0}, {0, __builtin_nanf("")}, {__builtin_nanf(""), __builtin_nanf("")}, {__builtin_inff(), 1}, {1, -__builtin_inff()}, {-__builtin_inff(), __builtin_inff()}, {3e38f, -3e38f}, {1e-3f, 1e-3f}};
  if (kind == 1) { u32 at = vp_pick("at", 0, n - 1), c = vp_pick("special", 0, 7); for (u32 i = 0; i < n; i++) y[i] = r[i] = 0.5f; y[at] = SP[c][0]; r[at] = SP[c][1]; far = c != 7; close = !far; }
  else for (u32 i = 0; i < n; i++) { y[i] = vp_f32("y"); r[i] = vp_f32("r"); if (kind == 0) { float d = y[i] - r[i]; far |= d > 0.001001f || d < -0.001001f; close &= d < 0.000999f && d > -0.000999f; } }
  u32 what = kind == 2 ? vp_pick("broken", 0, 8) : 99; char *av[6] = {arg("reference_input"), arg(vp_path("w.bin")), arg(vp_path("x.data")), arg(vp_path("y.data")), arg("x"), nullptr}; int ac = 4;
  if (what != 0) wfile(kv); if (what != 1) ifile(x, what == 3, what == 5); if (what != 2) ofile(r, n, what == 4 ? 1 : what == 8 ? n * 4 + 4 : 0, what == 6); if (what == 7) { Buf *f = new Buf; f->str("FE\n"); vp_file("w.bin", f->d, f->n); delete f; }
  if (kind == 3) { ac = (int)vp_pick("args", 1, 5); vp_assume(ac != 4); for (int i = ac; i < 6; i++) { delete[] av[i]; av[i] = nullptr; } } // an argument more, or some less
  if (kind == 4) { u32 k = vp_pick("which", 1, 3); delete[] av[k]; static const u32 LN[5] = {63, 1022, 1023, 1024, 1500}; av[k] = longarg(LN[vp_pick("long", 0, 4)]); }
  vp_exit_policy(kind >= 2 ? 1 : 0); watch(); vp_leak_mark(); int rc = mn(ac, av); if (kind < 2) vp_leak_check("the program frees what it allocates"); bool pos = positive(), said = told();
  if (kind >= 2) { vp_assert(rc != 0, "the program fails when it cannot compare"); vp_assert(!pos, "nothing is reported to be equal when the program cannot compare"); vp_assert(seen.runs == 0, "the network is not run without its inputs and weights"); vp_reach("refused"); }
  else { vp_assert(rc == 0, "the program succeeds on its inputs"); vp_assert(seen.runs == 1, "the network is run once"); vp_assert(seen.gone == 1, "the network is destroyed"); vp_assert(said, "the program tells how the outputs compare"); vp_assert(!(far && pos), "outputs that differ are reported"); vp_assert(!close || pos, "outputs within 0.001 are reported to be almost equal"); vp_reach("compared"); }
  for (auto a : av) delete[] a; delete[] y; delete[] r;
}
static inline void dummy(MainFn mn, const RT &x, std::initializer_list<u32> osh, u32 kind) {
  float kv[2] = {vp_f32("k"), vp_f32("k")}; setup(x, osh, kv); u32 n = seen.nout; float *y = new float[n]; for (u32 i = 0; i < n; i++) y[i] = vp_f32("y"); seen.y = y; seen.dummy = true; seen.first = new float[x.n]; u32 runs = vp_pick("runs", 0, 3); seen.once = vp_pick("once", 0, 1); char rt[2] = {(char)('0' + runs), 0}, ot[2] = {(char)('0' + seen.once), 0};
  if (kind == 0) wfile(kv); char *av[6] = {arg("dummy_input"), arg(vp_path("w.bin")), arg(rt), arg(ot), arg("x"), nullptr}; int ac = 4;
  if (kind == 2) { ac = (int)vp_pick("args", 1, 5); vp_assume(ac != 4); for (int i = ac; i < 6; i++) { delete[] av[i]; av[i] = nullptr; } } if (kind == 3) { static const u32 LN[5] = {63, 1022, 1023, 1024, 1500}; delete[] av[1]; av[1] = longarg(LN[vp_pick("long", 0, 4)]); }
  vp_exit_policy(kind ? 1 : 0); vp_leak_mark(); int rc = mn(ac, av); if (!kind) vp_leak_check("the program frees what it allocates");
  if (kind) { vp_assert(rc != 0, "the program fails without weights"); vp_assert(seen.runs == 0, "the network is not run without weights"); vp_reach("refused"); } else { vp_assert(rc == 0, "the program succeeds"); vp_assert(seen.runs == runs, "the network is run as often as asked for"); vp_assert(seen.gone == 1, "the network is destroyed"); vp_reach("ran"); }
  for (auto a : av) delete[] a; delete[] y; delete[] seen.first;
}
// the generated network itself: with the output ONNX defines as reference the program has to report that they agree
static inline void whole(MainFn mn, const RT &x, const RT &want) { ifile(x, 0, 0); ofile(want.v, want.n, 0, 0); char *av[5] = {arg("reference_input"), arg(vp_path("network.weights.bin")), arg(vp_path("x.data")), arg(vp_path("y.data")), nullptr};
  watch(); vp_leak_mark(); int rc = mn(4, av); vp_leak_check("the program frees what it allocates"); vp_assert(rc == 0, "the program succeeds on its inputs"); vp_assert(positive(), "a network that computes the ONNX result is reported to do so"); vp_reach("whole"); for (auto a : av) delete[] a; }
}
