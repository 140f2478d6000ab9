// Harness interface: implemented by the symbolic executor (engine/) and, for replays, by vp_native.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
  uint32_t vp_u32(const char *name, uint32_t lo, uint32_t hi);   // symbolic integer
  uint32_t vp_pick(const char *name, uint32_t lo, uint32_t hi);  // every value explored on a path of its own
  float vp_f32(const char *name);                                // mode 0: all 2^32 patterns; mode 1: a real number
  float vp_f32x(const char *name, int cls);                      // 1: not NaN, 2: finite
  void vp_assume(int c);
  void vp_assert(int c, const char *msg);
  void vp_eq(float a, float b, const char *msg);
  void vp_eqt(float a, float b, float tol, const char *msg);
  void vp_biteq(float a, float b, const char *msg);
  void vp_mode(int m);          // 0 IEEE binary32, 1 real arithmetic
  void vp_merge(int m);
  void vp_exit_policy(int p);   // 0 any process exit is a violation, 1 a non-zero exit is fine, 3 non-zero exit fine but no abort/exception
  void vp_reach(const char *name);
  void vp_leak_mark(void);
  void vp_leak_check(const char *msg);
  int vp_symbolic(void);
  void vp_fail(const char *msg) __attribute__((noreturn));
  void vp_done(void) __attribute__((noreturn));
  uint32_t vp_concrete(uint32_t v);
  int vp_isconst(uint32_t v);
  // files (stdio_stub.cpp / vp_native.cpp)
  const char *vp_path(const char *name);
  void vp_file(const char *name, const void *data, uint32_t len);
  void vp_file_text(const char *name, const void *data, uint32_t len); // as vp_file, for text that may contain vp_tok_a tokens
  uint32_t vp_file_get(const char *name, void *buf, uint32_t max); // content written by the code; 0xffffffff when there is none
  int vp_open_files(void);
  void vp_out_watch(const char *text);      // from here on, is this text printed? (needs out_stub.cpp)
  int vp_out_seen(const char *text);        // was it?
  uint32_t vp_tok_a(void *buf, float v);      // appends the text "%a" would print; returns its length
  int vp_get_a(const void *buf, uint32_t *pos, uint32_t len, float *v); // parses one such text
}
