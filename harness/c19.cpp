#include "filebuf.h"
#include "pico-cnn/io/read_mnist.h"
#include <cstdlib>
static void images(u32 req, u32 prov, u32 data, u32 h, u32 w, u32 pad, float lo, float hi, int symb, u32 cut) {
  Buf *f = new Buf; f->be32(2051); f->be32(prov); f->be32(h); f->be32(w); for (u32 i = 0; i < data * h * w; i++) f->u8(i < (u32)symb ? vp_u32("p", 0, 255) : (i * 37 + 11) & 255); f->n -= cut;
  const char *p = vp_path("img"); vp_file("img", f->d, f->n); float **im = nullptr; int o = vp_open_files(); vp_leak_mark(); u32 r = read_mnist_images(p, &im, req, pad, lo, hi); vp_assert(vp_open_files() == o, "no file is left open");
  u32 have = data, e; if (cut) have = (data * h * w - cut) / (h * w); e = req < prov ? req : prov; if (have < e) e = have; vp_assert(r == e, "the number of images that are requested, announced and fully present");
  float range = hi > lo ? hi - lo : lo - hi; u32 W = w + 2 * pad, H = h + 2 * pad;
  for (u32 i = 0; i < r; i++) { for (u32 y = 0; y < H; y++) for (u32 x = 0; x < W; x++) { bool in = y >= pad && y < h + pad && x >= pad && x < w + pad; float v = im[i][y * W + x]; if (in) vp_eq(v, f->d[16 + (i * h + y - pad) * w + x - pad] / 255.0f * range + lo, "pixel v becomes v/255*|upper-lower|+lower at its place"); else vp_eq(v, lo, "the border holds the lower bound"); } free(im[i]); }
  free(im); vp_leak_check("nothing but the returned arrays stays allocated"); vp_reach("img"); delete f; }
static void broken(const uint8_t *d, u32 n, bool lab, u32 req) { const char *p = vp_path("img"); vp_file("img", d, n); int o = vp_open_files(); u32 r; if (lab) { uint8_t *l = nullptr; r = read_mnist_labels(p, &l, req); } else { float **im = nullptr; r = read_mnist_images(p, &im, req, 1, 0.0f, 1.0f); } vp_assert(vp_open_files() == o, "no file is left open"); vp_assert(r == 0, "a missing or broken file yields no items"); vp_reach("broken"); }
extern "C" {
void c19_small() { vp_mode(1); u32 h = vp_pick("h", 1, 3), w = vp_pick("w", 1, 3), pad = vp_pick("pad", 0, 2); images(2, 2, 2, h, w, pad, vp_f32("lower"), vp_f32("upper"), DEEP(3, 18), 0); }
void c19_bytes() { vp_mode(1); u32 pad = vp_pick("pad", 0, 1), b = vp_pick("bounds", 0, 3); static const float L[4] = {0, -1, 0.5f, 1}, U[4] = {1, 1, -0.75f, 0}; images(2, 2, 2, 2, 3, pad, L[b], U[b], 12, 0); }
void c19_counts() { vp_mode(1); u32 req = vp_pick("req", 0, 3), prov = vp_pick("prov", 0, 4), data = vp_pick("data", 0, 4); images(req, prov, data, 1, 2, 1, -1.0f, 1.0f, 1, 0); }
void c19_trunc() { vp_mode(1); u32 cut = vp_pick("cut", 1, 12); images(3, 3, 2, 2, 3, 1, 0.0f, 1.0f, 1, cut); }
void c19_large() { vp_mode(1); static const u32 S[9][4] = {{28, 28, 2, 1}, {5, 40, 3, 2}, {60, 3, 0, 2}, {17, 31, 7, 1}, {1, 300, 1, 1}, {2, 2, 127, 1}, {2, 3, 130, 1}, {1, 2, 1, 263}, {67, 65, 1, 1}}; const u32 *s = S[vp_pick("m", 0, 8)]; images(s[3], s[3], s[3], s[0], s[1], s[2], -1.0f, 1.0f, 1, 0); }
void c19_magic() { u32 lab = vp_pick("labels", 0, 1); u32 m = vp_u32("magic", 0, 0xffffffffu); vp_assume(m != (lab ? 2049u : 2051u)); Buf *f = new Buf; f->be32(m); f->be32(1); if (!lab) { f->be32(1); f->be32(1); } f->u8(7); broken(f->d, f->n, lab, 1); }
void c19_missing() { u32 lab = vp_pick("labels", 0, 1); const char *p = vp_path("none"); u32 r; uint8_t *l = nullptr; float **im = nullptr; r = lab ? read_mnist_labels(p, &l, 3) : read_mnist_images(p, &im, 3, 0, 0.0f, 1.0f); vp_assert(r == 0, "a missing file yields no items"); vp_reach("missing"); }
void c19_header() { u32 lab = vp_pick("labels", 0, 1), cut = vp_pick("cut", 0, 15); if (lab && cut > 7) vp_done(); Buf *f = new Buf; f->be32(lab ? 2049 : 2051); f->be32(5); if (!lab) { f->be32(2); f->be32(2); } broken(f->d, cut, lab, 4); }
// announced counts and dimensions of every size, without or with a single byte of data behind them
void c19_hugecount() { u32 n = vp_u32("provided", 0, 0xffffffffu), req = vp_pick("req", 0, 3), data = vp_pick("data", 0, 3); Buf *f = new Buf; f->be32(2051); f->be32(n); f->be32(1); f->be32(1); for (u32 i = 0; i < data; i++) f->u8(9); const char *p = vp_path("img"); vp_file("img", f->d, f->n); float **im = nullptr; u32 r = read_mnist_images(p, &im, req, 0, 0.0f, 1.0f); u32 e = req < data ? req : data; if (n < e) e = n; vp_assert(r == e, "the number of images that are requested, announced and fully present"); vp_reach("count"); }
void c19_hugedims() { static const u32 D[12] = {0, 1, 2, 255, 256, 65535, 65536, 65537, 0x10000000, 0x40000001, 0x80000000, 0xffffffffu}; u32 h = D[vp_pick("h", 0, 11)], w = D[vp_pick("w", 0, 11)], pad = vp_pick("pad", 0, 1); if (h == 0 || w == 0 || (h <= 2 && w <= 2)) vp_done(); if (h <= 65535 && w <= 65535 && (uint64_t)h * w > 70000) vp_done(); Buf *f = new Buf; f->be32(2051); f->be32(1); f->be32(h); f->be32(w); f->u8(1); const char *p = vp_path("img"); vp_file("img", f->d, f->n); float **im = nullptr; int o = vp_open_files(); u32 r = read_mnist_images(p, &im, 1, pad * 255, 0.0f, 1.0f); vp_assert(r == 0, "an image without its pixels is not returned"); vp_assert(vp_open_files() == o, "no file is left open"); vp_reach("dims"); }
void c19_labels() { u32 req = vp_pick("req", 0, 5), prov = vp_pick("prov", 0, 5), data = vp_pick("data", 0, 5); Buf *f = new Buf; f->be32(2049); f->be32(prov); for (u32 i = 0; i < data; i++) f->u8(vp_u32("l", 0, 255)); const char *p = vp_path("lab"); vp_file("lab", f->d, f->n); uint8_t *l = nullptr; int o = vp_open_files(); vp_leak_mark(); u32 r = read_mnist_labels(p, &l, req); u32 e = req < prov ? req : prov; if (data < e) e = data; vp_assert(vp_open_files() == o, "no file is left open"); vp_assert(r == e, "the number of labels that are requested, announced and present"); for (u32 i = 0; i < r; i++) vp_assert(l[i] == f->d[8 + i], "label i"); free(l); vp_leak_check("nothing but the returned array stays allocated"); vp_reach("labels"); }
void c19_labels_count() { static const u32 RQ[8] = {0, 1, 2, 5, 255, 256, 257, 300}, PR[6] = {1, 255, 256, 257, 0x10001u, 0xffffffffu}; u32 big = vp_pick("big", 0, 1), req = RQ[vp_pick("req", 0, 7)], dn = big ? 280 : 3, n = big ? PR[vp_pick("prov", 0, 5)] : vp_u32("provided", 0, 0xffffffffu); Buf *f = new Buf; f->be32(2049); f->be32(n); for (u32 i = 0; i < dn; i++) f->u8(i * 3); const char *p = vp_path("lab"); vp_file("lab", f->d, f->n); uint8_t *l = nullptr; u32 r = read_mnist_labels(p, &l, req); u32 e = req < dn ? req : dn; if (n < e) e = n; vp_assert(r == e, "the number of labels that are requested, announced and present"); for (u32 i = 0; i < r; i++) vp_assert(l[i] == f->d[8 + i], "label i"); vp_reach("labels"); }
void c19_endian() { u32 v = vp_u32("v", 0, 0xffffffffu); u32 r = change_endianess(v); vp_assert(r == ((v >> 24) | ((v >> 8) & 0xff00) | ((v << 8) & 0xff0000) | (v << 24)), "bytes reversed"); vp_reach("endian"); }
// more pixels, more labels than a 16-bit counter holds
void c19_huge() { vp_mode(1); images(1, 1, 1, 260, 256, vp_pick("pad", 0, 1), -1.0f, 1.0f, 1, 0); }
void c19_many() { vp_mode(1); images(65540, 65540, 65540, 1, 1, 0, 0.0f, 1.0f, 1, 0); }
void c19_manylabels() { u32 n = 65540; Buf *f = new Buf; f->be32(2049); f->be32(n); for (u32 i = 0; i < n; i++) f->u8(i == 0 || i > 65534 ? vp_u32("l", 0, 255) : (i ^ (i >> 8)) & 255); const char *p = vp_path("lab"); vp_file("lab", f->d, f->n); uint8_t *l = nullptr; u32 r = read_mnist_labels(p, &l, n); vp_assert(r == n, "the number of labels that are requested, announced and present"); for (u32 i = 0; i < n; i++) vp_assert(l[i] == f->d[8 + i], "label i"); free(l); delete f; vp_reach("labels"); }
}
