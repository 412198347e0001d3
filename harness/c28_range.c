/* C28: the limits of a byte range.  MODE 1: ranges assembled from numbers of
   known values (A and B digits, 0: absent), file of any size.  MODE 2: any text */
#include "vf.h"
#include "viriatum/stdafx.h"
#include "viriatum/http/http_util.h"
#define MAX 64
static size_t at;
static unsigned char text[MAX];
static void put(const char *s) { for(size_t i = 0; s[i]; i++) { text[at++] = (unsigned char) s[i]; } }
/* a number of n arbitrary digits, huge: it does not fit 64 bits */
static unsigned long long number(size_t n, int *huge) {
    unsigned long long v = 0;
    *huge = 0;
    for(size_t i = 0; i < n; i++) {
        /* of long numbers only the last digit is arbitrary */
        unsigned d = n > 3 && i + 1 < n ? (unsigned) ("18446744073709551610"[i % 20] - '0') : (unsigned) vf_range(0, 9);
        text[at++] = (unsigned char) ('0' + d);
        if(i >= 19 && (v > 1844674407370955161ULL || (v == 1844674407370955161ULL && d > 5))) { *huge = 1; }
        v = (v << 3) + (v << 1) + d;
    }
    return v;
}
static void shape(size_t a, size_t b, const char *prefix, const char *rest) {
    unsigned char *p;
    size_t initial = 7777, final = 8888, size = vf_size(), i, f;
    unsigned long long x, y;
    int xh, yh, ok;
    at = 0;
    put(prefix);
    x = number(a, &xh);
    put("-");
    y = number(b, &yh);
    put(rest);
    text[at] = 0;
    p = vf_heap(text, at + 1);
    ERROR_CODE r = get_http_range_limits(p, &initial, &final, size);
    /* what was asked for, limited to the file */
    if(a == 0) { ok = size > 0 && (yh || y > 0); i = yh || y >= size ? 0 : size - y; f = size - 1; }
    else { f = b == 0 || yh || y >= size ? size - 1 : y; i = x; ok = size > 0 && !xh && x < size && x <= f; }
    if(a == 0 && b == 0) { ok = 0; }
    if(ok) {
        VF_ASSERT(!IS_ERROR_CODE(r), "a range inside the file is accepted");
        VF_ASSERT(initial == i && final == f, "the limits are those requested, limited to the file");
    } else {
        VF_ASSERT(IS_ERROR_CODE(r), "a range that selects no byte is refused");
    }
}
void harness(void) {
#if MODE == 1
    static const unsigned char shapes[][2] = { SHAPES };
    for(size_t i = 0; i < sizeof(shapes) / 2; i++) { shape(shapes[i][0], shapes[i][1], PREFIX, REST); }
    VF_REACH("end");
#elif MODE == 2
    size_t initial = 0, final = 0, size = vf_size();
    vf_fill(text, N);
    text[N] = 0;
    ERROR_CODE r = get_http_range_limits(vf_heap(text, N + 1), &initial, &final, size);
    if(!IS_ERROR_CODE(r)) {
        VF_ASSERT(initial <= final && final < size, "the limits are bytes of the file");
        VF_REACH("accepted");
    } else { VF_REACH("refused"); }
#endif
}
