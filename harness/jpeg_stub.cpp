// Model of the part of libjpeg that read_jpeg uses. It delivers the rows registered by the harness and, as libjpeg may, reads the
// source stream until decompression is finished. Linked in both builds in place of libjpeg.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <jpeglib.h>
#include "vp.h"
#include "vp_jpeg.h"
static uint32_t jh, jw; static int jc; static const uint8_t *jd; static FILE *src; static int live; static JSAMPROW rows[64]; static int nrows; static int phase; static jpeg_memory_mgr mgr;
extern "C" {
void vp_jpeg_set(uint32_t h, uint32_t w, int c, const uint8_t *d) { jh = h; jw = w; jc = c; jd = d; phase = 0; nrows = 0; }
int vp_jpeg_live(void) { return live; }
static JSAMPARRAY sarray(j_common_ptr, int pool, JDIMENSION w, JDIMENSION n) { (void)pool; JSAMPARRAY a = (JSAMPARRAY)malloc(n * sizeof(JSAMPROW)); for (JDIMENSION i = 0; i < n; i++) { a[i] = (JSAMPROW)malloc(w); rows[nrows++] = a[i]; } rows[nrows++] = (JSAMPROW)a; return a; }
struct jpeg_error_mgr *jpeg_std_error(struct jpeg_error_mgr *e) { return e; }
void jpeg_CreateDecompress(j_decompress_ptr c, int, size_t) { struct jpeg_error_mgr *e = c->err; memset(c, 0, sizeof(*c)); c->err = e; mgr.alloc_sarray = sarray; c->mem = &mgr; live++; phase = 1; }
void jpeg_stdio_src(j_decompress_ptr, FILE *f) { src = f; }
int jpeg_read_header(j_decompress_ptr c, boolean) { if (phase != 1) vp_fail("libjpeg used out of order"); (void)fgetc(src); c->image_width = jw; c->image_height = jh; c->num_components = jc; phase = 2; return 1; }
boolean jpeg_start_decompress(j_decompress_ptr c) { if (phase != 2) vp_fail("libjpeg used out of order"); c->output_width = jw; c->output_height = jh; c->output_components = jc; c->out_color_components = jc; c->output_scanline = 0; phase = 3; return 1; }
JDIMENSION jpeg_read_scanlines(j_decompress_ptr c, JSAMPARRAY b, JDIMENSION n) { if (phase != 3) vp_fail("libjpeg used out of order"); (void)fgetc(src); if (c->output_scanline >= jh || !n) return 0; for (uint32_t i = 0; i < jw * jc; i++) b[0][i] = jd[c->output_scanline * jw * jc + i]; c->output_scanline++; return 1; }
boolean jpeg_finish_decompress(j_decompress_ptr c) { if (phase != 3) vp_fail("libjpeg used out of order"); if (c->output_scanline < jh) vp_fail("jpeg_finish_decompress before all rows were read"); (void)fgetc(src); phase = 4; return 1; }
void jpeg_abort_decompress(j_decompress_ptr) { phase = 4; }
void jpeg_destroy_decompress(j_decompress_ptr) { for (int i = 0; i < nrows; i++) free(rows[i]); nrows = 0; live--; phase = 5; }
void jpeg_destroy(j_common_ptr) { for (int i = 0; i < nrows; i++) free(rows[i]); nrows = 0; live--; phase = 5; }
}
