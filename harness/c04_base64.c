/* Base64: MODE 1 round trip and standard text, MODE 2 decoding arbitrary text */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/encoding/encoding.h"
#ifndef N
#define N 6
#endif
static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
void harness(void) {
#if MODE == 1
    unsigned char data[N + 1];
    vf_fill(data, N);
    for(size_t n = 0; n <= N; n++) {
        unsigned char *p = vf_heap(data, n), *e = NULL, *d = NULL, *x;
        size_t el = 77, dl = 77;
        VF_ASSERT(encode_base64(p, n, &e, &el) == 0, "encoding succeeds");
        VF_ASSERT(el == (n + 2) / 3 * 4, "encoded length is the padded length");
        for(size_t g = 0; g * 3 < n; g++) {
            uint32_t v = (uint32_t) data[g * 3] << 16;
            if(g * 3 + 1 < n) { v |= (uint32_t) data[g * 3 + 1] << 8; }
            if(g * 3 + 2 < n) { v |= data[g * 3 + 2]; }
            VF_ASSERT(e[g * 4] == T[v >> 18], "standard base64 text");
            VF_ASSERT(e[g * 4 + 1] == T[(v >> 12) & 63], "standard base64 text");
            VF_ASSERT(e[g * 4 + 2] == (g * 3 + 1 < n ? T[(v >> 6) & 63] : '='), "standard base64 text");
            VF_ASSERT(e[g * 4 + 3] == (g * 3 + 2 < n ? T[v & 63] : '='), "standard base64 text");
        }
        x = vf_heap(e, el);
        VF_ASSERT(decode_base64(x, el, &d, &dl) == 0, "decoding the encoded text succeeds");
        VF_ASSERT(dl == n, "decoding restores the length");
        for(size_t i = 0; i < n; i++) { VF_ASSERT(d[i] == data[i], "decoding restores the bytes"); }
    }
    VF_REACH("end");
#else
    unsigned char text[N], *d = NULL;
    size_t dl = 0;
    vf_fill(text, N);
    for(size_t n = 0; n <= N; n++) {
        unsigned char *p = vf_heap(text, n);
        d = NULL; dl = 0;
        if(decode_base64(p, n, &d, &dl) == 0) {
            VF_ASSERT(dl <= n / 4 * 3, "decoded length fits the text");
            unsigned char s = 0;
            for(size_t i = 0; i < dl && i < N; i++) { s ^= d[i]; }
            if(n == 8 && dl == 5) { VF_REACH("padded"); }
            if(n == 8 && dl == 6) { VF_REACH("plain"); }
        }
    }
#endif
}
