/* C29: basic credentials.  The password file gives the pairs in USERS (C18).
   MODE 1: the header is SCHEME and the base 64 of N arbitrary bytes after
   PLAIN; granted exactly for the pairs.  MODE 2: N arbitrary header bytes
   after PREFIX: never granted when they are not of that form.
   MODE 3: the selection of auth_http: no file, the default pair, and a file
   that cannot be read */
#include "vf.h"
#include "viriatum/stdafx.h"
#include "viriatum/http/http.h"
#include "vf_map.h"
#ifndef PLAIN
#define PLAIN ""
#endif
#ifndef SUFFIX
#define SUFFIX ""
#endif
#ifndef PREFIX
#define PREFIX ""
#endif
#ifdef __CPROVER__
#undef malloc
void *vf_malloc(size_t n) {
    for(size_t k = 0; k < 16; k++) { if(n == k) { return malloc(k); } }
    return malloc(256);
}
#undef memset
void *vf_zero(void *p, int c, size_t n) { return memset(p, c, n); }
#endif
static int unreadable, processed;
#ifdef ANYPW
static char any[2];
#endif
static const char *users[] = { USERS };
#define PAIRS (sizeof(users) / sizeof(users[0]) / 2)
ERROR_CODE process_passwd_file(char *path, struct hash_map_t **m) {
    VF_ASSERT(path[0] == 'f' && path[1] == 0, "the file of the location is used");
    processed++;
    if(unreadable) { RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "x"); }
    create_hash_map(m, 0);
    for(size_t i = 0; i < PAIRS; i++) {
        char *v = (char *) malloc(8);
        size_t k = 0;
        for(; users[2 * i + 1][k] != 0; k++) { v[k] = users[2 * i + 1][k]; }
        v[k] = 0;
        set_value_string_hash_map(*m, (unsigned char *) users[2 * i], v);
    }
    RAISE_NO_ERROR;
}
static int listed(const unsigned char *t, size_t n) {
    for(size_t i = 0; i < PAIRS; i++) {
        size_t k = 0, j;
        int same = 1;
        for(j = 0; users[2 * i][j] != 0; j++, k++) { if(k >= n || t[k] != (unsigned char) users[2 * i][j]) { same = 0; } }
        if(k >= n || t[k] != ':') { same = 0; }
        k++;
        for(j = 0; users[2 * i + 1][j] != 0; j++, k++) { if(k >= n || t[k] != (unsigned char) users[2 * i + 1][j]) { same = 0; } }
        if(same && k == n) { return 1; }
    }
    return 0;
}
static const char *b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static unsigned char sym(unsigned v) {
    v &= 63;
    return (unsigned char) (v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/');
}
void harness(void) {
    unsigned char result = (unsigned char) vf_u8();
    (void) b64;
#ifdef ANYPW
    any[0] = (char) vf_u8();
    vf_assume(any[0] != 0);
#endif
    unreadable = 0; processed = 0;
#if MODE == 1
    unsigned char t[N + sizeof(PLAIN) + 2], h[(N + sizeof(PLAIN) + 2) / 3 * 4 + 8];
    size_t n = 0, k = 0;
    const char *scheme = SCHEME;
    for(size_t i = 0; i + 1 < sizeof(PLAIN); i++) { t[n++] = (unsigned char) PLAIN[i]; }
    for(size_t i = 0; i < N; i++) { t[n++] = vf_u8(); }
    t[n] = t[n + 1] = 0;
    for(size_t i = 0; scheme[i] != 0; i++) { h[k++] = (unsigned char) scheme[i]; }
    for(size_t i = 0; i < n; i += 3) {
        unsigned b1 = i + 1 < n ? t[i + 1] : 0, b2 = i + 2 < n ? t[i + 2] : 0;
        h[k++] = sym(t[i] >> 2); h[k++] = sym((unsigned) t[i] << 4 | b1 >> 4);
        h[k++] = i + 1 < n ? sym(b1 << 2 | b2 >> 6) : '='; h[k++] = i + 2 < n ? sym(b2) : '=';
    }
    h[k++] = 0;
    char *a = (char *) vf_heap(h, k);
#ifdef UNREADABLE
    unreadable = 1;
#endif
    auth_http((char *) "f", a, &result);
    VF_ASSERT((result != 0) == (listed(t, n) && !unreadable), "granted exactly to the listed pairs");
    VF_ASSERT(vf_maps == 0, "the pairs are released");
    if(result) { VF_REACH("granted"); } else { VF_REACH("refused"); }
    free(a);
#elif MODE == 2
    unsigned char h[N + sizeof(PREFIX) + sizeof(SUFFIX)];
    size_t k = 0;
    for(size_t i = 0; i + 1 < sizeof(PREFIX); i++) { h[k++] = (unsigned char) PREFIX[i]; }
    for(size_t i = 0; i < N; i++) { h[k++] = vf_u8(); }
    for(size_t i = 0; i + 1 < sizeof(SUFFIX); i++) { h[k++] = (unsigned char) SUFFIX[i]; }
    h[k++] = 0;
#ifdef SCHEME
    vf_assume((h[0] | 32) != 'b' || (h[1] | 32) != 'a' || (h[2] | 32) != 's' || (h[3] | 32) != 'i' || (h[4] | 32) != 'c');
#endif
    char *a = (char *) vf_heap(h, k);
    auth_http((char *) "f", a, &result);
    VF_ASSERT(result == 0, "what cannot be the credential of a listed pair is refused");
    VF_ASSERT(vf_maps == 0, "the pairs are released");
    VF_REACH("refused");
    free(a);
#else
    char h[] = "Basic dTpw", w[] = "Basic dTpx";
    result = 1;
    auth_http(NULL, h, &result);
    VF_ASSERT(result == 0 && processed == 0, "no file grants nothing");
    result = vf_u8();
    auth_http((char *) "f", h, &result);
    VF_ASSERT(result != 0 && processed == 1, "the listed pair is granted");
    result = vf_u8();
    auth_http((char *) "f", w, &result);
    VF_ASSERT(result == 0, "another password is refused");
    for(size_t at = 0; at < 18; at += 5) {
        char d[] = "Basic cm9vdDpyb290", x = (char) vf_u8();
        vf_assume(x != 0);
        int same = d[at] == x;
        d[at] = x;
        result = vf_u8();
        auth_http((char *) "$default", d, &result);
        VF_ASSERT((result != 0) == same, "the default pair, and no other, is granted");
    }
    VF_ASSERT(processed == 2, "the default needs no file");
    unreadable = 1;
    result = 1;
    auth_http((char *) "f", h, &result);
    VF_ASSERT(result == 0, "a file that cannot be read grants nothing");
    VF_REACH("end");
#endif
}
