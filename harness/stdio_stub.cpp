// Virtual file system and stdio model for the symbolic build (-fno-builtin). Reads and writes go to a few in-memory files;
// a float printed with %a is one token that carries its 32-bit pattern (contract of %a: exact), any other float format loses it.
#include <cstddef>
#include <cstdint>
#include "vp.h"
extern "C" {
struct VFile { char name[64]; uint32_t len; bool used; };
#ifndef VP_CAP
#define VP_CAP 16384
#endif
enum { NF = 6, CAP = VP_CAP };
static VFile vf[NF]; static uint8_t vdata[NF][CAP]; static uint8_t vkind[NF][CAP]; static int vopen;
struct VStream { int f; uint32_t pos; bool rd, wr, eof, err; };
struct _IO_FILE;
typedef struct _IO_FILE FILE;
extern void *malloc(size_t); extern void free(void *); extern void *memcpy(void *, const void *, size_t);
uint64_t vp_va_u64(int i); double vp_va_f64(int i); void *vp_va_ptr(int i);
static VStream vstd[3]; FILE *stdin = (FILE *)&vstd[0], *stdout = (FILE *)&vstd[1], *stderr = (FILE *)&vstd[2];
static bool isstd(FILE *f) { return f == (FILE *)&vstd[0] || f == (FILE *)&vstd[1] || f == (FILE *)&vstd[2]; }
static int streq(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static int findf(const char *n) { for (int i = 0; i < NF; i++) if (vf[i].used && streq(vf[i].name, n)) return i; return -1; }
static int newf(const char *n) { int i = findf(n); if (i < 0) { for (i = 0; i < NF; i++) if (!vf[i].used) break; if (i == NF) vp_fail("stub: too many files"); vf[i].used = true; uint32_t k = 0; for (; n[k] && k < 63; k++) vf[i].name[k] = n[k]; vf[i].name[k] = 0; } vf[i].len = 0; return i; }
const char *vp_path(const char *n) { return n; }
void vp_file(const char *n, const void *d, uint32_t len) { int i = newf(n); if (len > CAP) vp_fail("stub: file too large"); memcpy(vdata[i], d, len); for (uint32_t k = 0; k < len; k++) vkind[i][k] = 0; vf[i].len = len; }
void vp_file_text(const char *n, const void *d, uint32_t len) { vp_file(n, d, len); int i = findf(n); for (uint32_t k = 0; k < len; k++) if (((const uint8_t *)d)[k] == 1) { vkind[i][k] = 1; for (int j = 1; j < 5 && k + j < len; j++) vkind[i][k + j] = 2; k += 4; } }
uint32_t vp_file_get(const char *n, void *b, uint32_t max) { int i = findf(n); if (i < 0) return 0xffffffffu; uint32_t k = vf[i].len < max ? vf[i].len : max; memcpy(b, vdata[i], k); return k; }
int vp_open_files(void) { return vopen; }
uint32_t vp_tok_a(void *b, float v) { uint8_t *p = (uint8_t *)b; p[0] = 1; memcpy(p + 1, &v, 4); return 5; }
// text of a number: a token, or what a program may print itself
int vp_get_a(const void *b, uint32_t *pos, uint32_t len, float *v) {
  const uint8_t *p = (const uint8_t *)b; uint32_t q = *pos; if (q + 5 <= len && p[q] == 1) { memcpy(v, p + q + 1, 4); *pos = q + 5; return 1; }
  bool neg = false; if (q < len && (p[q] == '-' || p[q] == '+')) neg = p[q++] == '-'; double x = 0;
  if (q + 3 <= len && (p[q] | 32) == 'i' && (p[q + 1] | 32) == 'n' && (p[q + 2] | 32) == 'f') { q += 3; x = __builtin_inf(); }
  else { if (q + 3 > len || p[q] != '0' || (p[q + 1] | 32) != 'x') return 0; q += 2; double f = 1; bool dot = false; int n = 0; for (; q < len; q++) { int c = p[q], d = c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : -1; if (c == '.' && !dot) { dot = true; continue; } if (d < 0) break; n++; if (dot) { f /= 16; x += d * f; } else x = x * 16 + d; }
    if (!n || q >= len || (p[q] | 32) != 'p') return 0; q++; bool en = false; if (q < len && (p[q] == '-' || p[q] == '+')) en = p[q++] == '-'; int e = 0; n = 0; for (; q < len && p[q] >= '0' && p[q] <= '9' && n < 5; q++, n++) e = e * 10 + (p[q] - '0'); if (!n) return 0; for (; e; e--) x = en ? x / 2 : x * 2; }
  *v = (float)(neg ? -x : x); *pos = q; return 1; }

FILE *fopen(const char *name, const char *mode) {
  int i; bool wr = false, rd = false, plus = false; for (const char *m = mode; *m; m++) if (*m == '+') plus = true;
  if (mode[0] == 'w') { i = newf(name); wr = true; rd = plus; } else if (mode[0] == 'a') { i = findf(name); if (i < 0) i = newf(name); wr = true; rd = plus; } else { i = findf(name); if (i < 0) return nullptr; rd = true; wr = plus; }
  VStream *s = (VStream *)malloc(sizeof(VStream)); s->f = i; s->pos = mode[0] == 'a' ? vf[i].len : 0; s->rd = rd; s->wr = wr; s->eof = s->err = false; vopen++; return (FILE *)s;
}
int fclose(FILE *f) { VStream *s = (VStream *)f; if (s->f < 0 || s->f >= NF) vp_fail("stub: bad stream"); vopen--; s->f = -1; free(s); return 0; }
int fflush(FILE *) { return 0; }
static int get(VStream *s) { if (!s->rd) { s->err = true; return -1; } if (s->pos >= vf[s->f].len) { s->eof = true; return -1; } return vdata[s->f][s->pos++]; }
static void put(VStream *s, uint8_t c, uint8_t kind) { if (!s->wr) { s->err = true; return; } if (s->pos >= CAP) vp_fail("stub: file too large"); vdata[s->f][s->pos] = c; vkind[s->f][s->pos] = kind; s->pos++; if (s->pos > vf[s->f].len) vf[s->f].len = s->pos; }
int fgetc(FILE *f) { return get((VStream *)f); }
int getc(FILE *f) { return get((VStream *)f); }
int ungetc(int c, FILE *f) { VStream *s = (VStream *)f; if (c == -1) return -1; if (s->pos) s->pos--; s->eof = false; return c; }
int fputc(int c, FILE *f) { if (isstd(f)) return c; put((VStream *)f, (uint8_t)c, 0); return c & 255; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return c; }
__attribute__((weak)) int puts(const char *) { return 1; }
int fputs(const char *t, FILE *f) { if (isstd(f)) return 1; while (*t) put((VStream *)f, *t++, 0); return 1; }
size_t fread(void *p, size_t sz, size_t n, FILE *f) {
  VStream *s = (VStream *)f; if (!sz || !n) return 0; if (!s->rd) { s->err = true; return 0; }
  uint64_t avail = vf[s->f].len - s->pos, items = n; if (n > avail / sz) items = avail / sz; uint64_t bytes = items * sz; if (items < n) { bytes = avail; s->eof = true; }
  memcpy(p, vdata[s->f] + s->pos, bytes); s->pos += bytes; return items;
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) { if (isstd(f)) return n; for (size_t i = 0; i < sz * n; i++) put((VStream *)f, ((const uint8_t *)p)[i], 0); return n; }
char *fgets(char *b, int n, FILE *f) { VStream *s = (VStream *)f; int i = 0; if (n < 1) return nullptr; while (i < n - 1) { if (s->pos < vf[s->f].len && vkind[s->f][s->pos] == 1 && i + 5 < n) { for (int k = 0; k < 5; k++) b[i++] = vdata[s->f][s->pos++]; continue; } int c = get(s); if (c < 0) break; b[i++] = (char)c; if (c == '\n') break; } if (!i) return nullptr; b[i] = 0; return b; }
int feof(FILE *f) { return ((VStream *)f)->eof; }
int ferror(FILE *f) { return ((VStream *)f)->err; }
void clearerr(FILE *f) { ((VStream *)f)->eof = ((VStream *)f)->err = false; }
long ftell(FILE *f) { return ((VStream *)f)->pos; }
int fseek(FILE *f, long o, int w) { VStream *s = (VStream *)f; long b = w == 0 ? 0 : w == 1 ? s->pos : vf[s->f].len; if (b + o < 0) return -1; s->pos = b + o; s->eof = false; return 0; }
void rewind(FILE *f) { fseek(f, 0, 0); }
int remove(const char *n) { int i = findf(n); if (i < 0) return -1; vf[i].used = false; return 0; }
void perror(const char *) {}
__attribute__((weak)) int printf(const char *, ...) { return 1; }

static void putnum(VStream *s, uint64_t v, bool neg, unsigned base, int width, bool zero, bool up) { char t[32]; int n = 0; do { unsigned d = v % base; t[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= base; } while (v); int pad = width - n - neg; if (!zero) while (pad-- > 0) put(s, ' ', 0); if (neg) put(s, '-', 0); if (zero) while (pad-- > 0) put(s, '0', 0); while (n) put(s, t[--n], 0); }
int fprintf(FILE *f, const char *fmt, ...) {
  if (isstd(f)) return 1; VStream *s = (VStream *)f; int a = 0; uint32_t p0 = s->pos;
  for (const char *p = fmt; *p; p++) {
    if (*p != '%') { put(s, *p, 0); continue; }
    p++; if (*p == '%') { put(s, '%', 0); continue; }
    bool zero = false, prec = false; int width = 0, l = 0; while (*p == '-' || *p == '+' || *p == ' ' || *p == '#' || *p == '0') { if (*p == '0') zero = true; p++; } while (*p >= '0' && *p <= '9') width = width * 10 + (*p++ - '0'); if (*p == '.') { prec = true; p++; while (*p >= '0' && *p <= '9') p++; }
    int h = 0; while (*p == 'l' || *p == 'h' || *p == 'z' || *p == 'j' || *p == 't') { if (*p == 'h') h++; else l = 1; p++; }
    switch (*p) {
      case 'd': case 'i': { uint64_t u = vp_va_u64(a++); int64_t v = l ? (int64_t)u : h == 2 ? (int8_t)u : h == 1 ? (int16_t)u : (int32_t)u; putnum(s, v < 0 ? 0 - (uint64_t)v : v, v < 0, 10, width, zero, false); break; }
      case 'u': case 'x': case 'X': { uint64_t v = vp_va_u64(a++); if (!l) v = h == 2 ? (uint8_t)v : h == 1 ? (uint16_t)v : (uint32_t)v; putnum(s, v, false, *p == 'u' ? 10 : 16, width, zero, *p == 'X'); break; }
      case 'c': put(s, (uint8_t)vp_va_u64(a++), 0); break;
      case 's': { const char *t = (const char *)vp_va_ptr(a++); while (*t) put(s, *t++, 0); break; }
      case 'a': case 'A': if (!prec) { float v = (float)vp_va_f64(a++); uint8_t b[4]; memcpy(b, &v, 4); put(s, 1, 1); for (int k = 0; k < 4; k++) put(s, b[k], 2); break; } // fallthrough: lossy
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': (void)vp_va_f64(a++); put(s, '0', 0); put(s, '.', 0); put(s, '?', 0); break;
      default: vp_fail("stub: fprintf conversion");
    }
  }
  return s->pos - p0;
}
static int peek(VStream *s) { if (s->pos >= vf[s->f].len) { s->eof = true; return -1; } return vdata[s->f][s->pos]; }
static bool ws(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static void skipws(VStream *s) { for (;;) { if (s->pos < vf[s->f].len && vkind[s->f][s->pos]) return; int c = peek(s); if (c < 0 || !ws(c)) return; s->pos++; } }
int fscanf(FILE *f, const char *fmt, ...) {
  VStream *s = (VStream *)f; int a = 0, done = 0;
  for (const char *p = fmt; *p; p++) {
    if (ws(*p)) { skipws(s); continue; }
    if (*p != '%') { int c = peek(s); if (c < 0) return done ? done : -1; if (c != (uint8_t)*p) return done; s->pos++; continue; }
    p++; bool sup = false; if (*p == '*') { sup = true; p++; } int width = 0; while (*p >= '0' && *p <= '9') width = width * 10 + (*p++ - '0'); int l = 0, h = 0; while (*p == 'l' || *p == 'h' || *p == 'z') { if (*p == 'h') h++; else l++; p++; }
    if (*p == 'c') { int n = width ? width : 1; char *d = sup ? nullptr : (char *)vp_va_ptr(a++); for (int i = 0; i < n; i++) { int c = get(s); if (c < 0) return done ? done : -1; if (d) d[i] = c; } if (!sup) done++; continue; }
    if (*p == '[') { bool inv = false; p++; if (*p == '^') { inv = true; p++; } const char *b = p; if (*p == ']') p++; while (*p && *p != ']') p++; const char *e = p; char *d = sup ? nullptr : (char *)vp_va_ptr(a++); int n = 0; for (;;) { int c = peek(s); if (c < 0) break; bool in = false; for (const char *q = b; q < e; q++) if ((uint8_t)*q == c) in = true; if (in == inv) break; if (width && n >= width) break; s->pos++; if (d) d[n] = c; n++; } if (!n) return done ? done : (s->eof ? -1 : 0); if (d) { d[n] = 0; done++; } continue; }
    skipws(s); int c = s->pos < vf[s->f].len && vkind[s->f][s->pos] == 1 ? 256 : peek(s); if (c < 0) return done ? done : -1;
    switch (*p) {
      case 'd': case 'i': case 'u': { if (c == 256) return done; bool neg = false; if (c == '-' || c == '+') { neg = c == '-'; s->pos++; c = peek(s); } uint64_t v = 0; int n = 0; while (c >= '0' && c <= '9') { v = v * 10 + (c - '0'); n++; s->pos++; c = peek(s); } if (!n) return done; if (neg) v = 0 - v; if (!sup) { void *d = vp_va_ptr(a++); if (l) *(uint64_t *)d = v; else if (h == 2) *(uint8_t *)d = v; else if (h == 1) *(uint16_t *)d = v; else *(uint32_t *)d = v; done++; } break; }
      case 'a': case 'f': case 'e': case 'g': case 'A': case 'E': case 'G': { if (c != 256) { if (c >= '0' && c <= '9') vp_fail("stub: decimal float in scanned text"); return done; } float v; memcpy(&v, vdata[s->f] + s->pos + 1, 4); s->pos += 5; if (!sup) { void *d = vp_va_ptr(a++); if (l) *(double *)d = v; else *(float *)d = v; done++; } break; }
      case 's': { char *d = sup ? nullptr : (char *)vp_va_ptr(a++); int n = 0; while (c >= 0 && !ws(c) && (!width || n < width)) { if (d) d[n] = c; n++; s->pos++; c = peek(s); } if (d) { d[n] = 0; done++; } break; }
      default: vp_fail("stub: fscanf conversion");
    }
  }
  return done;
}
int __isoc23_fscanf(FILE *f, const char *fmt, ...) __attribute__((alias("fscanf"))); int __isoc99_fscanf(FILE *f, const char *fmt, ...) __attribute__((alias("fscanf")));
float strtof(const char *s, char **e) { while (ws((uint8_t)*s)) s++; if (*s == 1) { float v; memcpy(&v, s + 1, 4); if (e) *e = (char *)s + 5; return v; } if (e) *e = (char *)s; if (*s >= '0' && *s <= '9') vp_fail("stub: strtof on decimal text"); return 0; }
double strtod(const char *s, char **e) { return strtof(s, e); }
double atof(const char *s) { return strtof(s, nullptr); }
}
