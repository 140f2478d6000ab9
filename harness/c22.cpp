#include "filebuf.h"
#include "pico-cnn/io/read_imagenet_labels.h"
#include "pico-cnn/io/read_imagenet_validation_labels.h"
#include "pico-cnn/parameters.h"
#include <cstdlib>
static void labels(const Buf &f, u32 req) {
  const char *p = vp_path("l.txt"); vp_file("l.txt", f.d, f.n); char **l = nullptr; int o = vp_open_files(); vp_leak_mark(); int r = read_imagenet_labels(p, &l, req); vp_assert(vp_open_files() == o, "no file is left open");
  u32 q = 0, k = 0; while (k < req && q < f.n) { u32 e = q; while (e < f.n && f.d[e] != '\n') e++; vp_assert(r > (int)k, "the count covers every line up to the requested number"); for (u32 i = 0; i < e - q; i++) vp_assert((uint8_t)l[k][i] == f.d[q + i], "the text of the line"); vp_assert(l[k][e - q] == 0, "without its newline, terminated"); q = e + 1; k++; }
  vp_assert(r == (int)k, "the count of labels stored"); for (u32 i = 0; i < k; i++) free(l[i]); free(l); vp_leak_check("nothing but the returned labels stays allocated"); vp_reach("labels"); }
static void val(Buf &f, const u32 *v, u32 lines, u32 req, bool nl) { if (!nl) f.n--; const char *p = vp_path("v.txt"); vp_file("v.txt", f.d, f.n); u32 *l = nullptr; int o = vp_open_files(); vp_leak_mark(); int r = read_imagenet_validation_labels(p, &l, req); vp_assert(vp_open_files() == o, "no file is left open"); vp_assert(r != 0, "not reported as an error"); for (u32 i = 0; i < lines && i < req; i++) vp_assert(l[i + 1] == v[i], "the label of validation image i is stored at index i"); free(l); vp_leak_check("nothing but the returned labels stays allocated"); vp_reach("val"); }
extern "C" {
// any text of up to n bytes: newlines anywhere
void c22_bytes() { u32 n = vp_pick("n", 1, DEEP(5, 6)), req = vp_pick("req", 1, 4); Buf *f = new Buf; for (u32 i = 0; i < n; i++) f->u8(vp_u32("c", 1, 255)); for (u32 i = 0; i < n; i++) if (f->d[i] == '\n') f->d[i] = '\n'; labels(*f, req); delete f; }
void c22_lines() { u32 nl = vp_pick("lines", 0, 4), req = vp_pick("req", 0, 5), last = vp_pick("lastnl", 0, 1); Buf *f = new Buf; for (u32 i = 0; i < nl; i++) { u32 len = (i * 3 + 1) % 7; for (u32 j = 0; j < len; j++) { u32 c = vp_u32("c", 1, 255); vp_assume(c != '\n'); f->u8(c); } if (i + 1 < nl || last || !len) f->str("\n"); } labels(*f, req); delete f; }
void c22_long() { static const u32 L[8] = {250, 251, 252, 253, 100, 128, 200, 1}; u32 a = L[vp_pick("a", 0, 7)], b = L[vp_pick("b", 0, 7)], last = vp_pick("lastnl", 0, 1); Buf *f = new Buf; for (u32 k = 0; k < 2; k++) { u32 len = k ? b : a; for (u32 j = 0; j < len; j++) { if (j + 2 >= len) { u32 c = vp_u32("c", 1, 255); vp_assume(c != '\n'); f->u8(c); } else f->u8('a' + j % 26); } if (!k || last) f->str("\n"); } labels(*f, vp_pick("req", 1, 3)); delete f; }
void c22_many() { static const u32 N[4] = {999, 1000, 1001, 1500}; u32 n = N[vp_pick("n", 0, 3)], req = vp_pick("req", 0, 3) ; static const u32 RQ[4] = {1000, 1001, 7, 2000}; req = RQ[req]; Buf *f = new Buf; for (u32 i = 0; i < n; i++) { f->num(i); f->str("\n"); } labels(*f, req); delete f; }
void c22_missing() { char **l = nullptr; u32 *v = nullptr; vp_assert(read_imagenet_labels(vp_path("none"), &l, 3) == 0, "a missing file is reported"); vp_assert(read_imagenet_validation_labels(vp_path("none"), &v, 3) == 0, "a missing file is reported"); vp_reach("missing"); }
void c22_val() { u32 n = vp_pick("lines", 0, DEEP(2, 3)), req = vp_pick("req", 0, DEEP(3, 4)), nl = n ? vp_pick("nl", 0, 1) : 1; Buf *f = new Buf; u32 v[4]; for (u32 i = 0; i < n; i++) { for (u32 j = 0; j < FILE_NAME_LENGTH; j++) { if (j < 2) { u32 c = vp_u32("name", 1, 255); vp_assume(c != '\n'); f->u8(c); } else f->u8('A' + j); } f->u8(' '); u32 dg = vp_pick("digits", 1, 4); v[i] = 0; for (u32 j = 0; j < dg; j++) { u32 d = vp_u32("d", 0, 9); f->u8('0' + d); v[i] = v[i] * 10 + d; } f->str("\n"); } val(*f, v, n, req, nl); delete f; }
void c22_val_many() { static const u32 N[3] = {60, 255, 300}; u32 n = N[vp_pick("n", 0, 2)]; static const u32 RQ[4] = {10, 300, 256, 400}; u32 req = RQ[vp_pick("req", 0, 3)]; Buf *f = new Buf; u32 *v = new u32[n]; for (u32 i = 0; i < n; i++) { for (u32 j = 0; j < FILE_NAME_LENGTH; j++) f->u8('a' + (i + j) % 26); f->u8(' '); v[i] = (i * 37) % 1000; f->num(v[i]); f->str("\n"); } val(*f, v, n, req, true); delete f; delete[] v; }
// lines of any length, including ones too short to hold a file name: nothing is accessed outside of the arrays
void c22_val_any() { u32 len = vp_pick("len", 0, 40), k = vp_pick("k", 0, 2), req = vp_pick("req", 0, 3); Buf *f = new Buf; for (u32 i = 0; i <= k; i++) { u32 L = i == 0 ? len : 34; for (u32 j = 0; j < L; j++) { if (i < 2 && j > FILE_NAME_LENGTH && j < FILE_NAME_LENGTH + (i ? 2u : 4u)) { u32 c = vp_u32("c", 1, 255); vp_assume(c != '\n'); f->u8(c); } else f->u8('q'); } if (i < k || len & 1) f->str("\n"); } const char *p = vp_path("v.txt"); vp_file("v.txt", f->d, f->n); u32 *l = nullptr; int o = vp_open_files(); int r = read_imagenet_validation_labels(p, &l, req); (void)r; vp_assert(vp_open_files() == o, "no file is left open"); free(l); delete f; vp_reach("any"); }
}
