#pragma once
#include <cstdint>
// libjpeg model: the image the decoder will deliver
extern "C" void vp_jpeg_set(uint32_t h, uint32_t w, int comps, const uint8_t *data);
extern "C" int vp_jpeg_live(void);
