#pragma once
#include "vp.h"
#include "pico-cnn/pico-cnn.h"
#include <cstdio>
using namespace pico_cnn;
using naive::Tensor;
typedef uint32_t u32;
#ifdef VP_DEEP // thorough tier: wider bounds
#define DEEP(q, t) (t)
#else
#define DEEP(q, t) (q)
#endif
template <class T> static inline T *vnew(T *p) { return p; }
static inline Tensor *mkT(int nd, const u32 *d) { switch (nd) { case 1: return new Tensor(d[0]); case 2: return new Tensor(d[0], d[1]); case 3: return new Tensor(d[0], d[1], d[2]); default: return new Tensor(d[0], d[1], d[2], d[3]); } }
static inline Tensor *symT(const char *name, int nd, const u32 *d) { Tensor *t = mkT(nd, d); for (u32 i = 0; i < t->num_elements_; i++) t->data_[i] = vp_f32(name); return t; }
static inline Tensor *symTx(const char *name, int nd, const u32 *d, int cls) { Tensor *t = mkT(nd, d); for (u32 i = 0; i < t->num_elements_; i++) t->data_[i] = vp_f32x(name, cls); return t; }
// a bitwise snapshot of a tensor
struct Snap { float *d; u32 n, nd, sh[4]; const float *dp; const u32 *sp;
  Snap(const Tensor *t) { n = t->num_elements_; nd = t->num_dimensions_; d = new float[n ? n : 1]; for (u32 i = 0; i < n; i++) d[i] = t->data_[i]; for (u32 i = 0; i < nd && i < 4; i++) sh[i] = t->shape_[i]; dp = t->data_; sp = t->shape_; }
  ~Snap() { delete[] d; }
  void same(const Tensor *t, const char *msg) const { vp_assert(t->num_elements_ == n && t->num_dimensions_ == nd && t->data_ == dp && t->shape_ == sp, msg); for (u32 i = 0; i < nd && i < 4; i++) vp_assert(t->shape_[i] == sh[i], msg); for (u32 i = 0; i < n; i++) vp_biteq(t->data_[i], d[i], msg); } };
static inline bool fbits_eq(float a, float b) { u32 x, y; __builtin_memcpy(&x, &a, 4); __builtin_memcpy(&y, &b, 4); return x == y; }
static inline u32 fbits(float a) { u32 x; __builtin_memcpy(&x, &a, 4); return x; }
