/* CBMC-only bodies: C library functions CBMC has no body for, plus light
   versions of the project's error and logging sinks (their text is outside
   every claim) */
#include "vf.h"
#ifdef __CPROVER__
#include "viriatum_commons/stdafx.h"

static size_t vf_put(char *b, size_t cap, size_t at, char c) { if(at + 1 < cap) { b[at] = c; } return at + 1; }
static size_t vf_putnum(char *b, size_t cap, size_t at, unsigned long long v, unsigned base, int upper, int width, int zero, int left, int neg) {
    char t[24]; int n = 0, total;
    do { unsigned d = (unsigned)(v % base); t[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10)); v /= base; } while(v != 0);
    total = n + (neg ? 1 : 0);
    if(!zero && !left) { while(total < width) { at = vf_put(b, cap, at, ' '); total++; } }
    if(neg) { at = vf_put(b, cap, at, '-'); }
    if(zero) { while(total < width) { at = vf_put(b, cap, at, '0'); total++; } }
    while(n > 0) { at = vf_put(b, cap, at, t[--n]); }
    return at;
}
int vf_vsnprintf(char *b, size_t cap, const char *f, va_list a) {
    size_t at = 0;
    for(size_t i = 0; f[i] != 0; i++) {
        if(f[i] != '%') { at = vf_put(b, cap, at, f[i]); continue; }
        i++;
        int zero = 0, left = 0, width = 0, lng = 0, prec = -1;
        while(f[i] == '0' || f[i] == '-' || f[i] == '+' || f[i] == '#' || f[i] == ' ') { if(f[i] == '0') { zero = 1; } if(f[i] == '-') { left = 1; } i++; }
        while(f[i] >= '0' && f[i] <= '9') { width = width * 10 + (f[i] - '0'); i++; }
        if(f[i] == '.') { i++; prec = 0; if(f[i] == '*') { prec = va_arg(a, int); i++; } while(f[i] >= '0' && f[i] <= '9') { prec = prec * 10 + (f[i] - '0'); i++; } }
        while(f[i] == 'l' || f[i] == 'z' || f[i] == 'h' || f[i] == 'j') { if(f[i] != 'h') { lng = 1; } i++; }
        switch(f[i]) {
            case '%': at = vf_put(b, cap, at, '%'); break;
            case 'c': at = vf_put(b, cap, at, (char) va_arg(a, int)); break;
            case 's': {
                const char *s = va_arg(a, const char *);
                for(size_t k = 0; (prec < 0 || k < (size_t) prec) && s[k] != 0; k++) { at = vf_put(b, cap, at, s[k]); }
                break;
            }
            case 'd': case 'i': {
                long long v = lng ? (long long) va_arg(a, long) : (long long) va_arg(a, int);
                at = vf_putnum(b, cap, at, v < 0 ? 0ULL - (unsigned long long) v : (unsigned long long) v, 10, 0, width, zero, left, v < 0);
                break;
            }
            case 'u': at = vf_putnum(b, cap, at, lng ? va_arg(a, unsigned long) : va_arg(a, unsigned int), 10, 0, width, zero, left, 0); break;
            case 'x': case 'X': at = vf_putnum(b, cap, at, lng ? va_arg(a, unsigned long) : va_arg(a, unsigned int), 16, f[i] == 'X', width, zero, left, 0); break;
            case 'o': at = vf_putnum(b, cap, at, lng ? va_arg(a, unsigned long) : va_arg(a, unsigned int), 8, 0, width, zero, left, 0); break;
            case 'p': (void) va_arg(a, void *); at = vf_put(b, cap, at, 'P'); break;
            case 'f': case 'g': case 'e': (void) va_arg(a, double); at = vf_put(b, cap, at, 'F'); break;
            default: __CPROVER_assert(0, "model: format conversion not modelled"); break;
        }
    }
    if(cap > 0) { b[at < cap ? at : cap - 1] = 0; }
    return (int) at;
}
int vf_vsprintf(char *b, const char *f, va_list a) { return vf_vsnprintf(b, (size_t) 1 << 40, f, a); }
int vf_sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = vf_vsnprintf(b, (size_t) 1 << 40, f, a); va_end(a); return r; }
int vf_snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vf_vsnprintf(b, n, f, a); va_end(a); return r; }

#ifdef VF_MEMCPY_WITNESS
size_t vf_witness;
void *vf_memcpy(void *d, const void *s, size_t n) {
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "memcpy source region readable");
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "memcpy destination region writeable");
    if(vf_witness < n) { ((unsigned char *) d)[vf_witness] = ((const unsigned char *) s)[vf_witness]; }
    return d;
}
#endif
#ifdef VF_MEMCPY_BYTES
void *vf_memcpy(void *d, const void *s, size_t n) { unsigned char *x = d; const unsigned char *y = s; for(size_t i = 0; i < n; i++) { x[i] = y[i]; } return d; }
void *vf_memmove(void *d, const void *s, size_t n) {
    unsigned char *x = d; const unsigned char *y = s;
    if(__CPROVER_same_object(d, s) && x > y) { for(size_t i = n; i > 0; i--) { x[i - 1] = y[i - 1]; } }
    else { for(size_t i = 0; i < n; i++) { x[i] = y[i]; } }
    return d;
}
void *vf_memset(void *d, int c, size_t n) { unsigned char *x = d; for(size_t i = 0; i < n; i++) { x[i] = (unsigned char) c; } return d; }
#endif
#ifndef VF_NO_STRFUN
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for(size_t i = 0; i < n; i++) { if(p[i] == (unsigned char) c) { return (void *) (p + i); } } return 0; }
char *strstr(const char *h, const char *n) {
    for(size_t i = 0; ; i++) {
        size_t k = 0;
        while(n[k] != 0 && h[i + k] == n[k]) { k++; }
        if(n[k] == 0) { return (char *) h + i; }
        if(h[i] == 0) { return 0; }
    }
}
unsigned long long strtoull(const char *s, char **e, int base) {
    unsigned long long v = 0; size_t i = 0; int neg = 0;
    while(s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) { i++; }
    if(s[i] == '+' || s[i] == '-') { neg = s[i] == '-'; i++; }
    if(base == 10) {
        /* the first 19 digits can not overflow, so there the check is free */
        size_t n = 0; int over = 0;
        for(;; i++, n++) {
            unsigned d = (unsigned) (unsigned char) s[i] - '0';
            if(d > 9) { break; }
            if(n >= 19 && (v > 1844674407370955161ULL || (v == 1844674407370955161ULL && d > 5))) { over = 1; }
            v = (v << 3) + (v << 1) + d;
        }
        if(over) { v = ~0ULL; neg = 0; }
    } else {
        for(;; i++) {
            int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'z' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'Z' ? s[i] - 'A' + 10 : 99;
            if(d >= base) { break; }
            if(v > (~0ULL - (unsigned) d) / (unsigned) base) { v = ~0ULL; } else { v = v * (unsigned) base + (unsigned) d; }
        }
    }
    if(e != 0) { *e = (char *) s + i; }
    return neg ? 0ULL - v : v;
}
unsigned long strtoul(const char *s, char **e, int base) { return (unsigned long) strtoull(s, e, base); }
long long strtoll(const char *s, char **e, int base) {
    unsigned long long v; size_t i = 0; int neg;
    while(s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) { i++; }
    neg = s[i] == '-';
    v = strtoull(s, e, base);
    if(neg) { v = 0ULL - v; return v > 1ULL << 63 ? (long long) (1ULL << 63) : (long long) (0ULL - v); }
    return v > ~0ULL >> 1 ? (long long) (~0ULL >> 1) : (long long) v;
}
long long atoll(const char *s) { return strtoll(s, 0, 10); }
size_t strspn(const char *s, const char *a) {
    for(size_t i = 0; ; i++) { size_t k = 0; while(a[k] != 0 && a[k] != s[i]) { k++; } if(s[i] == 0 || a[k] == 0) { return i; } }
}
size_t strcspn(const char *s, const char *a) {
    for(size_t i = 0; ; i++) { size_t k = 0; while(a[k] != 0 && a[k] != s[i]) { k++; } if(s[i] == 0 || a[k] != 0) { return i; } }
}
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *) s : 0; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while(i < n && s[i] != 0) { i++; } return i; }
char *strchrnul(const char *s, int c) { while(*s != 0 && *s != (char) c) { s++; } return (char *) s; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; for(size_t i = n; i > 0; i--) { if(p[i - 1] == (unsigned char) c) { return (void *) (p + i - 1); } } return 0; }
char *stpcpy(char *d, const char *s) { size_t i = 0; for(; s[i] != 0; i++) { d[i] = s[i]; } d[i] = 0; return d + i; }
#endif
#endif
