// Concrete implementation of vp.h used to replay solver counterexamples against the real build.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <iostream>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
static std::map<std::string, std::string> *in; static std::map<std::string, int> *cnt; static std::map<std::string, std::string> *paths; static std::string *dir; static uint64_t rng = 1; static int pol = 0, finished = 0, mode = 0; static int baseFds = -1; static int quiet = 0;
static int countFds() { int n = 0; DIR *d = opendir("/dev/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static int ofd[2] = {-1, -1};
static void die(const char *m) { dprintf(ofd[1] >= 0 ? ofd[1] : 2, "VPFAIL %s\n", m); finished = 1; _exit(99); }
static void onexit_(int code, void *) { if (finished) return; if (pol == 0) die("the code terminated the process"); if ((code & 255) == 0) die("the code terminated the process with status 0"); _exit(0); }
static void init() {
  if (in) return; in = new std::map<std::string, std::string>; cnt = new std::map<std::string, int>; paths = new std::map<std::string, std::string>; dir = new std::string(getenv("VP_DIR") ? getenv("VP_DIR") : "/tmp");
  if (getenv("VP_SEED")) rng = strtoull(getenv("VP_SEED"), 0, 10) * 2654435761u + 88172645463325252ull;
  if (getenv("VP_INPUTS")) if (FILE *f = fopen(getenv("VP_INPUTS"), "r")) { char a[256], b[256]; while (fscanf(f, "%255s %255s", a, b) == 2) (*in)[a] = b; fclose(f); }
  on_exit(onexit_, nullptr);
}
static const char *look(const char *n, std::string &full) { struct Q { Q() { quiet++; } ~Q() { quiet--; } } q; init(); int k = (*cnt)[n]++; full = n; if (k) full += "~" + std::to_string(k); auto it = in->find(full); return it == in->end() ? nullptr : it->second.c_str(); }
#ifdef __SANITIZE_ADDRESS__
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static const volatile void *live[1 << 16]; static int nlive = 0; static bool tracking = false;
static void mh(const volatile void *p, size_t) { if (tracking && !quiet && nlive < (1 << 16)) live[nlive++] = p; }
static void fh(const volatile void *p) { if (tracking) for (int i = nlive - 1; i >= 0; i--) if (live[i] == p) { live[i] = live[--nlive]; break; } }
#endif
extern "C" {
uint32_t vp_u32(const char *n, uint32_t lo, uint32_t hi) { std::string f; const char *s = look(n, f); uint32_t v = s ? strtoul(s + 1, 0, 16) : lo + rnd() % ((uint64_t)hi - lo + 1); if (v < lo || v > hi) { dprintf(2, "VPINVALID %s\n", n); finished = 1; _exit(77); } return v; }
uint32_t vp_pick(const char *n, uint32_t lo, uint32_t hi) { return vp_u32(n, lo, hi); }
float vp_f32(const char *n) { std::string f; const char *s = look(n, f); if (s && *s == 'r') return strtof(s + 1, 0); uint32_t b; if (s) b = strtoul(s + 1, 0, 16); else { float g = ((int)(rnd() % 65) - 32) / 8.0f; memcpy(&b, &g, 4); } float v; memcpy(&v, &b, 4); return v; }
float vp_f32x(const char *n, int c) { float v = vp_f32(n); if ((c >= 1 && std::isnan(v)) || (c == 2 && !std::isfinite(v))) { finished = 1; _exit(77); } return v; }
void vp_assume(int c) { if (!c) { finished = 1; _exit(77); } }
void vp_assert(int c, const char *m) { if (!c) die(m); }
void vp_eqt(float a, float b, float tol, const char *m) { double d = fabs((double)a - b), s = fmax(1.0, fmax(fabs(a), fabs(b))); if (!(d <= (tol > 2e-3 ? tol : 2e-3) * s)) { dprintf(2, "%.9g vs %.9g\n", a, b); die(m); } }
void vp_eq(float a, float b, const char *m) { vp_eqt(a, b, 2e-3f, m); }
void vp_biteq(float a, float b, const char *m) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); if (mode == 1 ? !(a == b || fabs(a - b) < 1e-3 * fmax(1.0, fabs(a))) : x != y) { dprintf(2, "%a (%08x) vs %a (%08x)\n", a, x, b, y); die(m); } }
void vp_mode(int m) { mode = m; } void vp_merge(int) {} void vp_exit_policy(int p) { init(); pol = p; } void vp_reach(const char *) {}
void vp_leak_mark(void) {
#ifdef HAVE_ASAN
  static bool once = false; if (!once) { __sanitizer_install_malloc_and_free_hooks(mh, fh); once = true; } nlive = 0; tracking = true;
#endif
}
void vp_leak_check(const char *m) {
#ifdef HAVE_ASAN
  tracking = false; if (nlive) die(m);
#else
  (void)m;
#endif
}
int vp_symbolic(void) { return 0; } void vp_fail(const char *m) { die(m); for (;;) ; } void vp_done(void) { finished = 1; _exit(0); }
uint32_t vp_concrete(uint32_t v) { return v; } int vp_isconst(uint32_t) { return 1; }
const char *vp_path(const char *n) { struct Q { Q() { quiet++; } ~Q() { quiet--; } } q; init(); std::string &p = (*paths)[n]; if (p.empty()) p = *dir + "/" + n; if (baseFds < 0) baseFds = countFds(); return p.c_str(); }
void vp_file(const char *n, const void *d, uint32_t len) { FILE *f = fopen(vp_path(n), "wb"); if (!f) die("cannot write scratch file"); fwrite(d, 1, len, f); fclose(f); }
void vp_file_text(const char *n, const void *d, uint32_t len) { vp_file(n, d, len); }
uint32_t vp_file_get(const char *n, void *b, uint32_t max) { FILE *f = fopen(vp_path(n), "rb"); if (!f) return 0xffffffffu; uint32_t k = fread(b, 1, max, f); fclose(f); return k; }
int vp_open_files(void) { return baseFds < 0 ? 0 : countFds() - baseFds; }
void vp_out_watch(const char *) { if (ofd[0] >= 0) return; fflush(stdout); std::string f = *dir + "/printed"; FILE *o = fopen(f.c_str(), "w"); { ofd[0] = dup(1); ofd[1] = dup(2); } dup2(fileno(o), 1); fclose(o); o = fopen(f.c_str(), "a"); dup2(fileno(o), 1); dup2(fileno(o), 2); fclose(o); }
int vp_out_seen(const char *w) { fflush(stdout); std::cout.flush(); if (ofd[0] >= 0) { dup2(ofd[0], 1); dup2(ofd[1], 2); close(ofd[0]); close(ofd[1]); ofd[0] = -1; } static std::string t; t.clear(); if (FILE *f = fopen((*dir + "/printed").c_str(), "rb")) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f); } return t.find(w) != std::string::npos; }
uint32_t vp_tok_a(void *b, float v) { return sprintf((char *)b, "%a", v); }
int vp_get_a(const void *b, uint32_t *pos, uint32_t len, float *v) { char t[64]; uint32_t k = 0, p = *pos; while (p < len && k < 63) { char c = ((const char *)b)[p]; if (c == ' ' || c == '\n' || c == '\t') break; t[k++] = c; p++; } t[k] = 0; char *e; *v = strtof(t, &e); bool hex = strstr(t, "0x") || strstr(t, "0X") || strstr(t, "inf") || strstr(t, "nan") || strstr(t, "INF") || strstr(t, "NAN"); if (!k || *e || !hex) return 0; *pos = p; return 1; }
void VP_ENTRY(void);
}
static char obuf[1 << 16];
int main() { setvbuf(stdout, obuf, _IOFBF, sizeof obuf); init(); VP_ENTRY(); finished = 1; fflush(stdout); fflush(stderr); _exit(0); }
