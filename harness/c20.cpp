#include "filebuf.h"
#include "pico-cnn/io/read_pgm.h"
#include "pico-cnn/io/write_pgm.h"
#include <cstdlib>
#include <cmath>
// ---- reading
static const char *const CM[6] = {"", "# comment\n", "# one\n# two\n#\n", "#\n", "# 7 7\n", "# long: 0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789\n"};
static u32 head(Buf &f, u32 w, u32 h, u32 cm, u32 style) { f.str("P5\n"); f.str(CM[cm]); f.num(w); f.str(style == 1 ? "\n" : style == 2 ? "  " : " "); f.num(h); f.str(style == 3 ? " " : style == 2 ? " \n" : "\n"); f.str("255"); f.str(style == 3 ? " " : "\n"); return f.n; }
static int rd(const Buf &f, u32 len, float **im, u32 pad, float lo, float hi, uint16_t *h, uint16_t *w) { const char *p = vp_path("a.pgm"); vp_file("a.pgm", f.d, len); int o = vp_open_files(); vp_leak_mark(); int r = read_pgm(im, p, pad, lo, hi, h, w); vp_assert(vp_open_files() == o, "no file is left open"); return r; }
static void good(u32 h, u32 w, u32 pad, u32 cm, u32 style, u32 symb, float lo, float hi) {
  Buf *f = new Buf; u32 o = head(*f, w, h, cm, style); for (u32 i = 0; i < h * w; i++) f->u8(i < symb ? vp_u32("p", 0, 255) : (i * 53 + 9) & 255); float *im = nullptr; uint16_t rh = 0, rw = 0; int r = rd(*f, f->n, &im, pad, lo, hi, &rh, &rw);
  vp_assert(r == 0, "a P5 file is read"); vp_assert(rh == h && rw == w, "height and width of the file"); float range = hi > lo ? hi - lo : lo - hi; u32 W = w + 2 * pad, H = h + 2 * pad;
  for (u32 y = 0; y < H; y++) for (u32 x = 0; x < W; x++) { if (y >= pad && y < h + pad && x >= pad && x < w + pad) vp_eq(im[y * W + x], f->d[o + (y - pad) * w + x - pad] / 255.0f * range + lo, "pixel v becomes v/255*|upper-lower|+lower at its place"); else vp_eq(im[y * W + x], lo, "the border holds the lower bound"); }
  free(im); vp_leak_check("nothing but the returned image stays allocated"); vp_reach("good"); delete f; }
static void bad(const Buf &f, u32 len, const char *msg) { float *im = nullptr; uint16_t h = 0, w = 0; int r = rd(f, len, &im, 1, 0.0f, 1.0f, &h, &w); vp_assert(r != 0, msg); vp_reach("bad"); }
// ---- writing
static void put(const float *im, u32 h, u32 w, uint8_t *px, bool rt) {
  const char *p = vp_path("b.pgm"); int o = vp_open_files(); vp_leak_mark(); int r = write_pgm(im, h, w, p); vp_leak_check("nothing stays allocated"); vp_assert(r == 0, "writing succeeds"); vp_assert(vp_open_files() == o, "no file is left open");
  static uint8_t b[VP_CAP]; u32 n = vp_file_get("b.pgm", b, sizeof b), q = 0; vp_assert(n != 0xffffffffu && n > 3 && b[0] == 'P' && b[1] == '5' && b[2] == '\n', "a P5 header"); q = 3; u32 v[3];
  for (int k = 0; k < 3; k++) { for (;;) { while (q < n && (b[q] == ' ' || b[q] == '\n' || b[q] == '\t')) q++; if (q < n && b[q] == '#') { while (q < n && b[q] != '\n') q++; } else break; } v[k] = 0; u32 q0 = q; while (q < n && b[q] >= '0' && b[q] <= '9') v[k] = v[k] * 10 + (b[q++] - '0'); vp_assert(q > q0, "width, height and largest gray value"); }
  q++; vp_assert(v[0] == w && v[1] == h && v[2] == 255, "width, height and largest gray value"); vp_assert(n == q + h * w, "one byte for each pixel"); for (u32 i = 0; i < h * w; i++) px[i] = b[q + i];
  if (rt) { float *im2 = nullptr; uint16_t h2 = 0, w2 = 0; int r2 = read_pgm(&im2, p, 0, 0.0f, 255.0f, &h2, &w2); vp_assert(r2 == 0 && h2 == h && w2 == w, "the written file can be read"); for (u32 i = 0; i < h * w; i++) vp_eq(im2[i], px[i], "reading returns the written pixels"); free(im2); } }
extern "C" {
void c20_read() { vp_mode(1); u32 h = vp_pick("h", 1, 3), w = vp_pick("w", 1, 3), pad = vp_pick("pad", 0, 2); good(h, w, pad, vp_pick("comment", 0, 1), 0, DEEP(2, 9), vp_f32("lower"), vp_f32("upper")); }
void c20_read_bytes() { vp_mode(1); good(2, 3, vp_pick("pad", 0, 1), vp_pick("comment", 0, 5), vp_pick("style", 0, 3), 6, -1.0f, 1.0f); }
void c20_read_large() { vp_mode(1); static const u32 S[11][3] = {{28, 28, 0}, {3, 100, 2}, {70, 4, 1}, {1, 300, 0}, {300, 1, 3}, {10, 12, 5}, {2, 3, 127}, {3, 2, 130}, {1, 1063, 1}, {1063, 1, 0}, {67, 65, 2}}; const u32 *s = S[vp_pick("m", 0, 10)]; good(s[0], s[1], s[2], vp_pick("comment", 0, 1), 0, 1, vp_pick("b", 0, 1) ? 0.25f : -1.0f, 1.0f); }
void c20_read_trunc() { u32 cm = vp_pick("comment", 0, 2), st = vp_pick("style", 0, 3); Buf *f = new Buf; u32 o = head(*f, 3, 2, cm, st); (void)o; for (int i = 0; i < 6; i++) f->u8(i == 5 ? 'x' : vp_u32("p", 0, 255)); u32 cut = vp_pick("cut", 0, 60); if (cut >= f->n) vp_done(); bad(*f, cut, "a truncated file is refused"); }
void c20_read_magic() { Buf *f = new Buf; head(*f, 1, 1, vp_pick("comment", 0, 1), 0); f->u8(5); int diff = 0; for (int i = 0; i < 3; i++) { u32 v = vp_u32("m", 0, 255); if (i == 2) vp_assume(v != ' ' && v != '\t' && v != '\r' && v != 11 && v != 12); diff |= (uint8_t)v != f->d[i]; f->d[i] = v; } vp_assume(diff); bad(*f, f->n, "a file that is not P5 is refused"); }
void c20_read_missing() { float *im = nullptr; uint16_t h = 0, w = 0; int r = read_pgm(&im, vp_path("none.pgm"), 1, 0.0f, 1.0f, &h, &w); vp_assert(r != 0, "a missing file is reported"); vp_reach("bad"); }
void c20_read_text() { static const char *const T[9] = {"P5\nx 2\n255\n", "P5\n2\n", "P5\n2 y\n255\n", "P5\n2 2\nz\n", "P5\n# only a comment\n", "P5\n#", "P5\n", "P5", ""}; Buf *f = new Buf; f->str(T[vp_pick("t", 0, 8)]); bad(*f, f->n, "a file without dimensions is refused"); }
void c20_write() { vp_mode(1); static const u32 S[6][2] = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}}; u32 m = vp_pick("m", 0, DEEP(4, 5)); u32 h = S[m][0], w = S[m][1], n = h * w; float im[4], mn, mx; for (u32 i = 0; i < n; i++) im[i] = vp_f32("x"); mn = mx = im[0]; for (u32 i = 1; i < n; i++) { if (im[i] < mn) mn = im[i]; if (im[i] > mx) mx = im[i]; } uint8_t px[4]; put(im, h, w, px, false);
  if (mx > mn) for (u32 i = 0; i < n; i++) { float p = px[i]; if (im[i] == mn) vp_assert(p == 0.0f, "the smallest value becomes 0"); if (im[i] == mx) vp_assert(p == 255.0f, "the largest value becomes 255"); float e = (im[i] - mn) / (mx - mn) * 255.0f; vp_assert(p <= e + 1.0f && e <= p + 1.0f, "values in between are mapped linearly"); } vp_reach("write"); }
// IEEE arithmetic, images of every magnitude and sign
void c20_write_exact() { static const float V[16] = {0, -0.0f, 1, -1, 1e-42f, -1e-42f, 1e-20f, 0.1f, -0.3f, 999.5f, 1001, -1001, 1e10f, 3.0e38f, -3.0e38f, 123456.789f}; u32 a = vp_pick("a", 0, 15), b = vp_pick("b", 0, 15), k = vp_pick("k", 0, 2); float im[6] = {V[a], V[b], V[a], V[b], V[a], V[b]}; u32 h = k == 0 ? 1 : k == 1 ? 2 : 3; uint8_t px[6]; put(im, h, 2, px, true); if (V[a] != V[b]) { bool up = V[a] < V[b]; for (u32 i = 0; i < 2 * h; i++) vp_assert(px[i] == (((i & 1) != 0) == up ? 255 : 0), "the smallest value becomes 0 and the largest 255"); } else for (u32 i = 1; i < 2 * h; i++) vp_assert(px[i] == px[0], "equal values become equal pixels"); vp_reach("exact"); }
void c20_write_large() { static const u32 S[5][2] = {{28, 28}, {3, 100}, {70, 4}, {1, 300}, {300, 1}}; u32 m = vp_pick("m", 0, 4), ext = vp_pick("ext", 0, 3), h = S[m][0], w = S[m][1], n = h * w; float *im = new float[n]; uint8_t *px = new uint8_t[n]; for (u32 i = 0; i < n; i++) im[i] = (float)((i * 29 + 3) % 101) - 40.0f; u32 lo = ext == 0 ? 0 : ext == 1 ? n - 1 : n / 2, hi = ext == 0 ? n - 1 : ext == 1 ? 0 : ext == 2 ? w - 1 : n - w; im[lo] = -90; im[hi] = 130; put(im, h, w, px, true); for (u32 i = 0; i < n; i++) { double e = ((double)im[i] + 90) / 220 * 255; vp_assert(px[i] <= e + 1 && e <= px[i] + 1.0, "each pixel at its place, mapped linearly"); } delete[] im; delete[] px; vp_reach("write"); }
void c20_huge() { vp_mode(1); u32 k = vp_pick("k", 0, 1), h = 260, w = 256, n = h * w; if (k == 0) good(h, w, 1, 0, 0, 1, -1.0f, 1.0f); else { float *im = new float[n]; uint8_t *px = new uint8_t[n]; for (u32 i = 0; i < n; i++) im[i] = (float)((i * 29 + 3) % 101) - 40.0f; im[n - 1] = 130; im[65536] = -90; put(im, h, w, px, false); for (u32 i = 0; i < n; i++) { double e = ((double)im[i] + 90) / 220 * 255; vp_assert(px[i] <= e + 1 && e <= px[i] + 1.0, "each pixel at its place, mapped linearly"); } delete[] im; delete[] px; vp_reach("good"); } }
}
