/* RC4. MODE 1: N stream bytes are the standard key stream and cutting the data
   gives the same bytes (ANYY: from any position of the y index).
   MODE 2: key schedule and round trip for keys with an arbitrary bit pattern */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/crypto/crypto.h"
#ifndef N
#define N 2
#endif
struct ref { unsigned char S[256]; unsigned char i, j; };
static unsigned char ref_next(struct ref *r) {
    r->i = (unsigned char)(r->i + 1); r->j = (unsigned char)(r->j + r->S[r->i]);
    unsigned char t = r->S[r->i]; r->S[r->i] = r->S[r->j]; r->S[r->j] = t;
    return r->S[(unsigned char)(r->S[r->i] + r->S[r->j])];
}
static void ref_key(struct ref *r, const unsigned char *k, size_t n) {
    unsigned char j = 0;
    for(int i = 0; i < 256; i++) { r->S[i] = (unsigned char) i; }
    for(int i = 0; i < 256; i++) { j = (unsigned char)(j + r->S[i] + k[i % n]); unsigned char t = r->S[i]; r->S[i] = r->S[j]; r->S[j] = t; }
    r->i = r->j = 0;
}
void harness(void) {
#if MODE == 1
    struct rc4_t *a, *c; struct ref r;
    create_rc4("Wiki", &a); create_rc4("Wiki", &c);
    ref_key(&r, (const unsigned char *) "Wiki", 4);
#ifdef ANYY
    r.i = a->x = c->x = (unsigned char)(254 + vf_bool()); r.j = a->y = c->y = vf_u8();
#endif
    struct rc4_t b = *c;
    delete_rc4(c);
    unsigned char data[N], whole[N], parts[N];
    vf_fill(data, N);
    for(size_t i = 3; i + 1 < N; i++) { data[i] = (unsigned char) i; }
    size_t cut = CUT;
    cipher_rc4(a, (char *) data, N, (char *) whole);
    cipher_rc4(&b, (char *) data, cut, (char *) parts);
    cipher_rc4(&b, (char *) data + cut, N - cut, (char *) parts + cut);
    for(int i = 0; i < N; i++) {
        VF_ASSERT(whole[i] == (unsigned char)(data[i] ^ ref_next(&r)), "RC4 output is data xor the standard key stream");
        VF_ASSERT(parts[i] == whole[i], "RC4 does not depend on the chunking");
    }
    delete_rc4(a);
#else
    static const char *keys[] = { KEYS };
    for(size_t k = 0; k < sizeof(keys) / sizeof(keys[0]); k++) {
        struct rc4_t *a, *b; struct ref r;
        size_t n = strlen(keys[k]);
        char *key = (char *) vf_heap((const unsigned char *) keys[k], n + 1);
        unsigned char data[N], enc[N], dec[N];
        vf_fill(data, N);
        create_rc4(key, &a); create_rc4(key, &b);
        ref_key(&r, (const unsigned char *) keys[k], n);
        cipher_rc4(a, (char *) data, N, (char *) enc);
        cipher_rc4(b, (char *) enc, N, (char *) dec);
        for(int i = 0; i < N; i++) {
            VF_ASSERT(enc[i] == (unsigned char)(data[i] ^ ref_next(&r)), "RC4 output is data xor the standard key stream");
            VF_ASSERT(dec[i] == data[i], "RC4 decrypts what it encrypted");
        }
        delete_rc4(a); delete_rc4(b);
    }
#endif
    VF_REACH("end");
}
