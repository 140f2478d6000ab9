#pragma once
#include "common.h"
#ifndef BUFSZ
#define BUFSZ 16384
#endif
struct Buf { uint8_t d[BUFSZ]; u32 n; Buf() : n(0) {}
  void u8(u32 v) { d[n++] = (uint8_t)v; } void u32_(u32 v) { for (int i = 0; i < 4; i++) u8(v >> (8 * i)); } void be32(u32 v) { for (int i = 3; i >= 0; i--) u8(v >> (8 * i)); }
  void u32s(const u32 *v, int k) { for (int i = 0; i < k; i++) u32_(v[i]); } void f32(float v) { __builtin_memcpy(d + n, &v, 4); n += 4; } void str(const char *s) { while (*s) u8((uint8_t)*s++); }
  void num(u32 v) { char t[12]; int k = 0; do { t[k++] = '0' + v % 10; v /= 10; } while (v); while (k) u8(t[--k]); } };
