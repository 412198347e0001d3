/* independent reference MD5 (RFC 1321) and SHA-1 (FIPS 180) of whole messages */
#pragma once
#include <stdint.h>
static const uint32_t ref_k5[64] = { 0xd76aa478u, 0xe8c7b756u, 0x242070dbu, 0xc1bdceeeu, 0xf57c0fafu, 0x4787c62au, 0xa8304613u, 0xfd469501u, 0x698098d8u, 0x8b44f7afu, 0xffff5bb1u, 0x895cd7beu, 0x6b901122u, 0xfd987193u, 0xa679438eu, 0x49b40821u, 0xf61e2562u, 0xc040b340u, 0x265e5a51u, 0xe9b6c7aau, 0xd62f105du, 0x02441453u, 0xd8a1e681u, 0xe7d3fbc8u, 0x21e1cde6u, 0xc33707d6u, 0xf4d50d87u, 0x455a14edu, 0xa9e3e905u, 0xfcefa3f8u, 0x676f02d9u, 0x8d2a4c8au, 0xfffa3942u, 0x8771f681u, 0x6d9d6122u, 0xfde5380cu, 0xa4beea44u, 0x4bdecfa9u, 0xf6bb4b60u, 0xbebfbc70u, 0x289b7ec6u, 0xeaa127fau, 0xd4ef3085u, 0x04881d05u, 0xd9d4d039u, 0xe6db99e5u, 0x1fa27cf8u, 0xc4ac5665u, 0xf4292244u, 0x432aff97u, 0xab9423a7u, 0xfc93a039u, 0x655b59c3u, 0x8f0ccc92u, 0xffeff47du, 0x85845dd1u, 0x6fa87e4fu, 0xfe2ce6e0u, 0xa3014314u, 0x4e0811a1u, 0xf7537e82u, 0xbd3af235u, 0x2ad7d2bbu, 0xeb86d391u };
static const unsigned char ref_s5[16] = { 7,12,17,22, 5,9,14,20, 4,11,16,23, 6,10,15,21 };
static uint32_t ref_rol(uint32_t x, unsigned n) { return (x << n) | (x >> (32 - n)); }
#define REF_MAX 320
static void ref_md5(const unsigned char *m, size_t n, unsigned char out[16]) {
    unsigned char b[REF_MAX];
    uint32_t h[4] = { 0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u };
    size_t blocks = (n + 8) / 64 + 1;
    for(size_t i = 0; i < blocks * 64; i++) { b[i] = i < n ? m[i] : 0; }
    b[n] = 0x80;
    for(size_t i = 0; i < 8; i++) { b[blocks * 64 - 8 + i] = (unsigned char)(((uint64_t) n * 8) >> (8 * i)); }
    for(size_t k = 0; k < blocks; k++) {
        uint32_t x[16], A = h[0], B = h[1], C = h[2], D = h[3];
        for(size_t i = 0; i < 16; i++) { const unsigned char *p = b + k * 64 + i * 4; x[i] = p[0] | (uint32_t) p[1] << 8 | (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24; }
        for(unsigned i = 0; i < 64; i++) {
            uint32_t f; unsigned g;
            if(i < 16) { f = (B & C) | (~B & D); g = i; }
            else if(i < 32) { f = (D & B) | (~D & C); g = (5 * i + 1) % 16; }
            else if(i < 48) { f = B ^ C ^ D; g = (3 * i + 5) % 16; }
            else { f = C ^ (B | ~D); g = (7 * i) % 16; }
            f = f + A + ref_k5[i] + x[g];
            A = D; D = C; C = B;
            B = B + ref_rol(f, ref_s5[(i / 16) * 4 + i % 4]);
        }
        h[0] += A; h[1] += B; h[2] += C; h[3] += D;
    }
    for(size_t i = 0; i < 16; i++) { out[i] = (unsigned char)(h[i / 4] >> (8 * (i % 4))); }
}
static void ref_sha1(const unsigned char *m, size_t n, unsigned char out[20]) {
    unsigned char b[REF_MAX];
    uint32_t h[5] = { 0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u };
    size_t blocks = (n + 8) / 64 + 1;
    for(size_t i = 0; i < blocks * 64; i++) { b[i] = i < n ? m[i] : 0; }
    b[n] = 0x80;
    for(size_t i = 0; i < 8; i++) { b[blocks * 64 - 1 - i] = (unsigned char)(((uint64_t) n * 8) >> (8 * i)); }
    for(size_t k = 0; k < blocks; k++) {
        uint32_t w[80], A = h[0], B = h[1], C = h[2], D = h[3], E = h[4];
        for(size_t i = 0; i < 16; i++) { const unsigned char *p = b + k * 64 + i * 4; w[i] = (uint32_t) p[0] << 24 | (uint32_t) p[1] << 16 | (uint32_t) p[2] << 8 | p[3]; }
        for(size_t i = 16; i < 80; i++) { w[i] = ref_rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1); }
        for(unsigned i = 0; i < 80; i++) {
            uint32_t f, q;
            if(i < 20) { f = (B & C) | (~B & D); q = 0x5a827999u; }
            else if(i < 40) { f = B ^ C ^ D; q = 0x6ed9eba1u; }
            else if(i < 60) { f = (B & C) | (B & D) | (C & D); q = 0x8f1bbcdcu; }
            else { f = B ^ C ^ D; q = 0xca62c1d6u; }
            uint32_t t = ref_rol(A, 5) + f + E + q + w[i];
            E = D; D = C; C = ref_rol(B, 30); B = A; A = t;
        }
        h[0] += A; h[1] += B; h[2] += C; h[3] += D; h[4] += E;
    }
    for(size_t i = 0; i < 20; i++) { out[i] = (unsigned char)(h[i / 4] >> (24 - 8 * (i % 4))); }
}
