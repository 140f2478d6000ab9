#include "filebuf.h"
#include "vp_jpeg.h"
#include "pico-cnn/io/read_jpeg.h"
#include <cstdlib>
static void img(u32 h, u32 w, int comps, u32 symb, float lo, float hi) {
  u32 n = h * w * comps; uint8_t *d = new uint8_t[n]; for (u32 i = 0; i < n; i++) d[i] = i < symb || i + symb >= n ? vp_u32("v", 0, 255) : (i * 71 + 5) & 255; Buf *f = new Buf; f->str("jpegjpeg"); const char *p = vp_path("j.jpg"); vp_file("j.jpg", f->d, f->n); vp_jpeg_set(h, w, comps, d); float **im = nullptr; uint16_t rh = 0, rw = 0; int o = vp_open_files(); vp_leak_mark(); int r = read_jpeg(&im, p, lo, hi, &rh, &rw);
  vp_assert(r == 0, "a decodable image is read"); vp_assert(rh == h && rw == w, "the image's height and width"); vp_assert(vp_open_files() == o, "no file is left open"); vp_assert(vp_jpeg_live() == 0, "the decoder is destroyed"); float range = hi > lo ? hi - lo : lo - hi;
  for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) for (int c = 0; c < 3; c++) { u32 v = d[(y * w + x) * comps + (comps == 3 ? c : 0)]; vp_eq(im[2 - c][y * w + x], v / 255.0f * range + lo, "planes hold blue, green, red; entry row*width+column is v/255*|upper-lower|+lower"); }
  for (int c = 0; c < 3; c++) free(im[c]); free(im); vp_leak_check("nothing but the planes stays allocated"); delete[] d; delete f; vp_reach("img"); }
extern "C" {
void c23_small() { vp_mode(1); u32 h = vp_pick("h", 1, 3), w = vp_pick("w", 1, 3); img(h, w, vp_pick("grey", 0, 1) ? 1 : 3, DEEP(2, 27), vp_f32("lower"), vp_f32("upper")); }
void c23_bytes() { vp_mode(1); static const float L[3] = {0, -1, 1}, U[3] = {1, 1, -0.5f}; u32 b = vp_pick("b", 0, 2); img(2, 2, vp_pick("grey", 0, 1) ? 1 : 3, 12, L[b], U[b]); }
void c23_large() { vp_mode(1); static const u32 S[8][2] = {{3, 100}, {90, 2}, {1, 300}, {300, 1}, {17, 23}, {1, 1063}, {1063, 1}, {67, 65}}; u32 m = vp_pick("m", 0, 7); img(S[m][0], S[m][1], vp_pick("grey", 0, 1) ? 1 : 3, 2, -1.0f, 1.0f); }
void c23_wide() { vp_mode(1); static const u32 S[3][2] = {{1, 21846}, {1, 65500}, {2, 22000}}; u32 m = vp_pick("m", 0, DEEP(0, 2)); img(S[m][0], S[m][1], 3, 1, 0.0f, 1.0f); }
void c23_missing() { float **im = nullptr; uint16_t h = 0, w = 0; int r = read_jpeg(&im, vp_path("none"), 0.0f, 1.0f, &h, &w); vp_assert(r != 0, "a missing file is reported"); vp_reach("missing"); }
void c23_huge() { vp_mode(1); img(260, 256, vp_pick("grey", 0, 1) ? 1 : 3, 1, -1.0f, 1.0f); }
}
