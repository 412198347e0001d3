/* CRC-32 (IEEE 802.3, reflected 0xEDB88320) against the bitwise definition.
   All N bytes are arbitrary (N small) or, with ONE, the buffer is any length
   up to N with one arbitrary byte at every position and the others fixed */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/checksum/checksum.h"
#ifndef N
#define N 4
#endif
#include "ref_crc_table.h"
static uint32_t ref_bits(uint32_t c) { for(int k = 0; k < 8; k++) { c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1u))); } return c; }
#define ref_byte(c) ((uint32_t) ref_T[(c)])
static void one(const unsigned char *data, size_t n) {
    unsigned char *p = vf_heap(data, n);
    uint32_t c = 0xFFFFFFFFu;
    for(size_t i = 0; i < n; i++) { c = (c >> 8) ^ ref_byte((c ^ data[i]) & 0xFF); }
    c ^= 0xFFFFFFFFu;
    unsigned long r = crc_32(p, (unsigned int) n);
    VF_ASSERT(r == (unsigned long) c, "crc_32 equals the IEEE 802.3 CRC of the bytes");
    for(size_t i = 0; i < n; i++) { VF_ASSERT(p[i] == data[i], "input unchanged"); }
}
void harness(void) {
    unsigned char data[N];
#ifdef ONE
    unsigned char b = vf_u8();
    for(size_t i = 0; i < N; i++) { data[i] = (unsigned char) (i * 37 + 11); }
    for(size_t n = 1; n <= N; n++) {
        size_t at = n - 1 - (n % 4 < n ? n % 4 : 0);
        unsigned char old = data[at];
        data[at] = b;
        one(data, n);
        data[at] = old;
    }
#else
    vf_fill(data, N);
    for(size_t n = 0; n <= N; n++) { one(data, n); }
#endif
    VF_REACH("full length");
}
