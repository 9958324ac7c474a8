#pragma once
#include <cstdint>
struct Big { int32_t sign; int32_t n; uint32_t* limb; };
struct Ctx {
    Big in[4];       // 0
    int64_t k[8];    // 64
    uint8_t* buf;    // 128
    int64_t len;     // 136
    Big out[8];      // 144
    int64_t r[16];   // 272
    uint8_t* obuf;   // 400
    int64_t olen;    // 408
};
static_assert(sizeof(Ctx) == 416, "layout");
