// What the program prints (symbolic build only): text sent to std::cout, std::cerr, printf and puts is kept, numbers are not.
#include <cstddef>
#include <cstdint>
#include "vp.h"
#define KEEP __attribute__((section("vpstub")))
extern "C" {
enum { NW = 4 }; static const char *want[NW]; static bool hit[NW]; static uint32_t nw;
// a piece of text at a time: what is looked for is flagged when it is printed, so that paths which print different things can be merged
static void outn(const char *s, long n) { for (uint32_t j = 0; j < nw; j++) for (long i = 0; i < n; i++) { const char *w = want[j]; uint32_t k = 0; while (w[k] && i + k < n && s[i + k] == w[k]) k++; if (!w[k]) { hit[j] = true; break; } } }
static void out(const char *s) { if (!nw) return; long n = 0; while (s[n]) n++; outn(s, n); }
void vp_out_watch(const char *w) { if (nw == NW) vp_fail("stub: too many texts"); hit[nw] = false; want[nw++] = w; }
static bool eq(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
int vp_out_seen(const char *w) { for (uint32_t j = 0; j < nw; j++) if (eq(want[j], w)) return hit[j]; vp_fail("stub: text was not watched"); }
KEEP void *vp_o_cstr(void *os, const char *s) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
KEEP void *vp_o_cstr(void *os, const char *s) { out(s); return os; }
KEEP void *vp_o_char(void *os, char c) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
KEEP void *vp_o_char(void *os, char c) { outn(&c, 1); return os; }
KEEP void *vp_o_ins(void *os, const char *s, long n) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
KEEP void *vp_o_ins(void *os, const char *s, long n) { outn(s, n); return os; }
KEEP void *vp_o_str(void *os, const void *s) __asm__("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
KEEP void *vp_o_str(void *os, const void *s) { outn(*(const char *const *)s, *((const long *)s + 1)); return os; }
int printf(const char *f, ...) { out(f); return 1; }
int puts(const char *s) { out(s); return 1; }
void srand(unsigned) {}
long time(long *t) { if (t) *t = 1000; return 1000; }
}
