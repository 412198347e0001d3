/* C21: text helpers, on texts of every length up to N with arbitrary bytes that
   lie in blocks of exactly their size */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/util/string_util.h"
#ifndef N
#define N 5
#endif
static char *text(size_t n) { char *t = (char *) malloc(n + 1); for(size_t i = 0; i < n; i++) { t[i] = (char) vf_u8(); vf_assume(t[i] != 0); } t[n] = 0; return t; }
static char was[N + 1];
static void keep(const char *t, size_t n) { for(size_t i = 0; i <= n; i++) { was[i] = t[i]; } }
static void same(const char *t, size_t n) { for(size_t i = 0; i <= n; i++) { VF_ASSERT(t[i] == was[i], "the text is left as it is"); } }
static int letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
void harness(void) {
    for(size_t n = 0; n <= N; n++) {
#if MODE == 1
        /* parts of a path */
        char *t = text(n), *r; size_t base = 0, dot = n;
        keep(t, n);
        for(size_t i = 0; i < n; i++) { if(t[i] == '/' || t[i] == '\\') { base = i + 1; } if(t[i] == '.') { dot = i; } }
        r = (char *) base_string_value((unsigned char *) t);
        VF_ASSERT(r == t + base, "the last element begins after the last separator");
        if(n > 1 && base == 1) { VF_REACH("root"); }
        r = extension_path(t);
        if(dot < n) { VF_ASSERT(r == t + dot, "the extension begins at the last dot"); VF_REACH("dot"); }
        else { VF_ASSERT(r == t, "without a dot there is only the name"); }
        same(t, n);
        for(size_t m = 0; m <= N; m++) {
            char *e = text(m); int is = m <= n;
            for(size_t i = 0; i < m && m <= n; i++) { if(e[i] != t[n - m + i]) { is = 0; } }
            VF_ASSERT(ends_with_string((unsigned char *) t, (unsigned char *) e) == is, "a suffix is told");
            if(is && m == N) { VF_REACH("suffix"); }
            free(e);
        }
        same(t, n);
        free(t);
#elif MODE == 2
        /* case, separators and trimming */
        char *t = text(n);
        keep(t, n);
        lowercase(t);
        for(size_t i = 0; i <= n; i++) { char c = was[i]; VF_ASSERT(t[i] == (c >= 'A' && c <= 'Z' ? c + 32 : c == '_' ? '-' : c), "lower case"); }
        for(size_t i = 0; i < n; i++) { t[i] = was[i]; }
        uppercase(t);
        for(size_t i = 0; i <= n; i++) { char c = was[i]; VF_ASSERT(t[i] == (c >= 'a' && c <= 'z' ? c - 32 : c == '-' ? '_' : c), "upper case"); }
        for(size_t i = 0; i < n; i++) { t[i] = was[i]; }
        normalize_path(t);
        for(size_t i = 0; i <= n; i++) { VF_ASSERT(t[i] == (was[i] == '\\' ? '/' : was[i]), "separators"); }
        for(size_t i = 0; i < n; i++) { t[i] = was[i]; }
        unsigned char *r = trim((unsigned char *) t);
        if(n >= 3) {
            for(size_t i = 0; i < n - 2; i++) { VF_ASSERT(r[i] == (unsigned char) was[i + 1], "the text without its ends"); }
            VF_ASSERT(r[n - 2] == 0, "is shorter by its ends");
            r = untrim(r, was[n - 1]);
            VF_REACH("trimmed");
        }
        VF_ASSERT((char *) r == t, "and is restored");
        same(t, n);
        VF_ASSERT(atob(t) == ((n == 2 && t[0] == 'O' && t[1] == 'n') || (n == 1 && t[0] == '1') || (n == 4 && t[0] == 'T' && t[1] == 'r' && t[2] == 'u' && t[3] == 'e')), "what counts as true");
        if(n == N && letter(t[0])) { VF_REACH("letters"); }
        free(t);
#elif MODE == 3
        /* blanks at the ends, of blocks that are not texts */
        char *t = (char *) malloc(n ? n : 1);
        vf_fill((unsigned char *) t, n ? n : 1);
        size_t a = 0, b = n;
        while(a < n && t[a] == ' ') { a++; }
        while(b > 0 && t[b - 1] == ' ') { b--; }
        VF_ASSERT(leading_offset(n ? t : t + 1, n) == a, "the blanks at the start");
        VF_ASSERT(trailing_size(n ? t : t, n) == b, "what is before the blanks at the end");
        if(n == N && a == n) { VF_REACH("blank"); }
        if(n == N && a == 1 && b == n - 1) { VF_REACH("padded"); }
        free(t);
#elif MODE == 4
        /* splitting, with elements that take all of a piece or a part of it */
        for(size_t e = 1; e <= 3; e += 2) {
            char *t = text(n), token = (char) vf_u8(), out[(N + 1) * 3];
            size_t count = 0, from = 0;
            vf_assume(token != 0);
            for(size_t i = 0; i < sizeof(out); i++) { out[i] = 0x7e; }
            keep(t, n);
            size_t r = split(t, out, e, token);
            same(t, n);
            for(size_t i = 0; i <= n; i++) {
                if(t[i] != token && t[i] != 0) { continue; }
                for(size_t k = 0; k < e; k++) {
                    char w = k + 1 < e && from + k < i ? t[from + k] : 0;
                    if(k <= i - from) { VF_ASSERT(out[count * e + k] == w, "the piece"); }
                }
                count++; from = i + 1;
            }
            VF_ASSERT(r == count, "the number of pieces");
            for(size_t k = 0; k < sizeof(out); k++) { VF_ASSERT(k < count * e || out[k] == 0x7e, "nothing is written after the pieces"); }
            if(count == N) { VF_REACH("pieces"); }
            free(t);
        }
#else
        /* periods of time, as listed */
        static const struct { unsigned long long d; size_t counts; const char *t; } periods[] = {
            {0, 4, "0 seconds"}, {1, 2, "1 second"}, {59, 1, "59 seconds"}, {60, 2, "1 minute 0 seconds"}, {61, 1, "1 minute"}, {7325, 2, "2 hours 2 minutes"}, {7325, 9, "2 hours 2 minutes 5 seconds"},
            {86400, 4, "1 day 0 hours 0 minutes 0 seconds"}, {90061, 3, "1 day 1 hour 1 minute"}, {18446744073709551615ULL, 1, "213503982334601 days"}, {90061, 0, ""} };
        static const size_t sizes[] = {64, 1, 2, 9, 20, 10};
        if(n > 0) { break; }
        for(size_t p = 0; p < sizeof(periods) / sizeof(periods[0]); p++) { for(size_t s = 0; s < 6; s++) {
            char *b = (char *) malloc(sizes[s]);
            size_t length = strlen(periods[p].t);
            for(size_t i = 0; i < sizes[s]; i++) { b[i] = 0x7e; }
            format_delta(b, sizes[s], periods[p].d, periods[p].counts);
            size_t got = strlen(b);
            if(got > 0 && b[got - 1] == ' ') { got--; }
            if(sizes[s] > length + 1) { VF_ASSERT(got == length, "the period"); }
            VF_ASSERT(got <= length, "not more than the period");
            for(size_t i = 0; i < got; i++) { VF_ASSERT(b[i] == periods[p].t[i], "the parts of the period"); }
            free(b);
        } }
#endif
    }
    VF_REACH("end");
}
