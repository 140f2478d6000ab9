#include "filebuf.h"
#include "pico-cnn/io/write_float.h"
#include "pico-cnn/io/read_means.h"
static const float SV[8] = {-0.0f, 1.0f, -3.40282347e38f, 1.4e-45f, 0.1f, -1.17549421e-38f, 16777215.0f, -1234.5f};
static void dump(u32 h, u32 w, bool all = true) { u32 n = h * w; float *im = new float[n]; for (u32 i = 0; i < n; i++) im[i] = all || i < 2 || i == w || i == n / 2 || i + 1 == n ? vp_f32x("x", 1) : (i < 64 ? SV[i & 7] : (float)i * 0.37f); const char *p = vp_path("f.txt"); int o = vp_open_files(); vp_leak_mark(); int r = write_float(im, h, w, p); vp_leak_check("nothing stays allocated"); vp_assert(r == 0, "writing succeeds"); vp_assert(vp_open_files() == o, "no file is left open");
  static uint8_t b[VP_CAP * 5]; u32 len = vp_file_get("f.txt", b, sizeof b), q; Buf *e = new Buf; e->str("FF\n"); e->num(h); e->str("\n"); e->num(w); e->str("\n"); vp_assert(len != 0xffffffffu && len >= e->n, "the file is written"); for (q = 0; q < e->n; q++) vp_assert(b[q] == e->d[q], "magic, height and width"); 
  for (u32 i = 0; i < n; i++) { float v; vp_assert(vp_get_a(b, &q, len, &v), "one hexadecimal float for each pixel"); vp_biteq(v, im[i], "no bit is lost, row-major order"); vp_assert(q < len && b[q] == '\n', "one float on each line"); q++; } vp_assert(q == len, "nothing after the last pixel"); delete[] im; delete e; vp_reach("dump"); }
static int means(const Buf &f, u32 len, float *m) { const char *p = vp_path("m.txt"); vp_file_text("m.txt", f.d, len); int o = vp_open_files(); vp_leak_mark(); int r = read_means(p, m); vp_leak_check("nothing stays allocated"); vp_assert(vp_open_files() == o, "no file is left open"); return r; }
extern "C" {
void c21_dump() { dump(vp_pick("h", 1, 4), vp_pick("w", 1, 4)); }
void c21_dump_large() { static const u32 S[8][2] = {{3, 40}, {35, 2}, {1, 300}, {270, 1}, {12, 12}, {1, 1063}, {1063, 1}, {41, 43}}; u32 m = vp_pick("m", 0, 7); dump(S[m][0], S[m][1], false); }
void c21_dump_fail() { float x = 1; int r = write_float(&x, 1, 1, "/nonexistent-directory/x/y"); vp_assert(vp_symbolic() || r != 0, "a file that cannot be created is reported"); vp_reach("fail"); }
void c21_means() { Buf *f = new Buf; float v[3], m[5]; f->str("FD\n"); for (int i = 0; i < 3; i++) { v[i] = vp_f32x("m", 1); f->n += vp_tok_a(f->d + f->n, v[i]); if (i < 2 || vp_pick("nl", 0, 1)) f->str("\n"); } for (int i = 0; i < 5; i++) m[i] = 7.5f; int r = means(*f, f->n, m + 1); vp_assert(r == 0, "a means file is read"); for (int i = 0; i < 3; i++) vp_biteq(m[1 + i], v[i], "the stored floats, exactly and in order"); vp_assert(m[0] == 7.5f && m[4] == 7.5f, "three values are stored"); vp_reach("means"); }
void c21_few() { Buf *f = new Buf; u32 k = vp_pick("k", 0, 2), bad = vp_pick("bad", 0, 2); float m[3] = {1, 2, 3}; f->str("FD\n"); for (u32 i = 0; i < k; i++) { f->n += vp_tok_a(f->d + f->n, vp_f32x("m", 1)); f->str("\n"); } if (bad == 1) f->str("zzz\n"); if (bad == 2) { f->str("?\n"); f->n += vp_tok_a(f->d + f->n, 1.0f); f->str("\n"); } int r = means(*f, f->n, m); vp_assert(r != 0, "a file without three values is refused"); vp_reach("refuse"); }
void c21_magic() { Buf *f = new Buf; u32 len = vp_pick("len", 0, 4); int diff = len != 3; static const char G[] = "FD\n"; for (u32 i = 0; i < len; i++) { u32 c = vp_u32("c", 1, 255); vp_assume(i + 1 == len || c != '\n'); if (i < 3) diff |= (char)c != G[i]; f->u8(c); } vp_assume(diff); if (!len || f->d[len - 1] != '\n') f->str("\n"); for (int i = 0; i < 3; i++) { f->n += vp_tok_a(f->d + f->n, 1.0f + i); f->str("\n"); } if (len == 2 && f->d[0] == 'F' && f->d[1] == 'D') vp_done(); float m[3] = {1, 2, 3}; int r = means(*f, f->n, m); vp_assert(r != 0, "a wrong magic is refused"); vp_reach("refuse"); }
void c21_trunc() { static const char G[] = "FD\n"; u32 cut = vp_pick("cut", 0, 2); Buf *f = new Buf; f->str(G); float m[3] = {1, 2, 3}; int r = means(*f, cut, m); vp_assert(r != 0, "a truncated file is refused"); vp_reach("refuse"); }
void c21_missing() { float m[3]; int r = read_means(vp_path("none"), m); vp_assert(r != 0, "a missing file is reported"); vp_reach("refuse"); }
void c21_huge() { dump(260, 256, false); }
}
