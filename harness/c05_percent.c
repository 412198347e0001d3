/* percent encoding: MODE 1 round trip, MODE 2 decoding arbitrary text */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/encoding/encoding.h"
#ifndef N
#define N 4
#endif
static int unreserved(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~'; }
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void harness(void) {
#if MODE == 1
    unsigned char data[N + 1];
    vf_fill(data, N);
#ifdef ONLYN
    for(size_t n = N; n <= N; n++) {
#else
    for(size_t n = 0; n <= N; n++) {
#endif
        unsigned char *p = vf_heap(data, n), *e = NULL, *d = NULL, *x;
        size_t el = 0, dl = 77;
#ifdef RAW
        unsigned char be[3 * N + 1]; e = be;
        VF_ASSERT(encode_percent(p, n, be, &el) == 0, "encoding succeeds");
#else
        VF_ASSERT(url_encode(p, n, &e, &el) == 0, "encoding succeeds");
#endif
        VF_ASSERT(el >= n && el <= 3 * n, "encoded length is within one to three characters per byte");
        VF_ASSERT(e[el] == 0, "encoded text is terminated");
        for(size_t i = 0; i < el; i++) {
            if(e[i] == '%') { VF_ASSERT(i + 2 < el && hexv(e[i + 1]) >= 0 && hexv(e[i + 2]) >= 0, "escape is complete"); }
            else { VF_ASSERT(unreserved(e[i]) || e[i] == '+', "encoded text only has unreserved characters and escapes"); }
        }
        x = e;
#ifdef RAW
        unsigned char bd[N + 1]; d = bd;
        VF_ASSERT(decode_percent(x, el, bd, &dl) == 0, "decoding the encoded text succeeds");
#else
        VF_ASSERT(url_decode(x, el, &d, &dl) == 0, "decoding the encoded text succeeds");
#endif
        VF_ASSERT(dl == n, "decoding restores the length");
        VF_ASSERT(d[dl] == 0, "decoded text is terminated");
        for(size_t i = 0; i < n; i++) { VF_ASSERT(d[i] == data[i], "decoding restores the bytes"); }
    }
    VF_REACH("end");
#else
    unsigned char text[N];
    vf_fill(text, N);
    for(size_t n = 0; n <= N; n++) {
        unsigned char *p = vf_heap(text, n), *d = NULL;
        size_t dl = 0, k = 0, at = 0;
        ERROR_CODE r = url_decode(p, n, &d, &dl);
        int wellformed = 1, broken = 0;
        for(size_t i = 0; i < n; i++) {
            if(text[i] == '%') { if(i + 2 < n && hexv(text[i + 1]) >= 0 && hexv(text[i + 2]) >= 0) { i += 2; } else { wellformed = 0; if(i + 2 >= n) { broken = 1; } break; } }
        }
        if(wellformed) {
            VF_ASSERT(r == 0, "well formed text decodes");
            for(size_t i = 0; i < n; i++) {
                unsigned char want = text[i] == '+' ? ' ' : text[i];
                if(text[i] == '%') { want = (unsigned char)(hexv(text[i + 1]) * 16 + hexv(text[i + 2])); i += 2; }
                VF_ASSERT(k < dl && d[k] == want, "every escape decodes to its byte");
                k++;
            }
            VF_ASSERT(dl == k, "decoded length is the number of bytes");
            VF_ASSERT(d[dl] == 0, "decoded text is terminated");
            if(n == N && dl == N - 2) { VF_REACH("one escape"); }
        } else if(broken) { VF_ASSERT(r != 0, "an incomplete escape is an error"); VF_REACH("incomplete"); }
        else if(r == 0) { VF_ASSERT(dl <= n && d[dl] == 0, "decoded text fits"); }
    }
#endif
}
