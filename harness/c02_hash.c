/* MD5 / SHA-1: MODE 1 any chunking of a fully arbitrary message gives the
   digest of the one-shot call; MODE 2 digest equals the standard one for
   messages of the given lengths with an arbitrary byte */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/checksum/checksum.h"
#include "ref_hash.h"
#ifdef SHA
#define CTX struct sha1_context_t
#define INIT(c) init_sha1(c)
#define UPD(c, d, n) update_sha1(c, d, n)
#define FIN(c, d) final_sha1(c, d)
#define ONE(b, n, d) sha1(b, n, d)
#define REF ref_sha1
#define DS 20
#else
#define CTX struct md5_context_t
#define INIT(c) init_md5(c)
#define UPD(c, d, n) update_md5(c, d, n)
#define FIN(c, d) final_md5(c, d)
#define ONE(b, n, d) md5(b, n, d)
#define REF ref_md5
#define DS 16
#endif
#ifndef L
#define L 70
#endif
static void copy(unsigned char *d, const unsigned char *s, size_t n) { for(size_t i = 0; i < n; i++) { d[i] = s[i]; } }
static void chunked(const unsigned char *m, size_t n, size_t a, size_t b, const unsigned char *want) {
    CTX c; unsigned char w[L + 1], got[DS];
    copy(w, m, n);
    INIT(&c);
    UPD(&c, w, a); UPD(&c, w + a, b - a); UPD(&c, w + b, n - b);
    FIN(&c, got);
    for(int i = 0; i < DS; i++) { VF_ASSERT(got[i] == want[i], "digest does not depend on the chunking"); }
    for(size_t i = 0; i < n; i++) { VF_ASSERT(w[i] == m[i], "message unchanged by the digest"); }
}
void harness(void) {
    unsigned char m[L + 1], one[DS];
#if MODE == 1
    static const int cuts[][2] = { CUTS };
    vf_fill(m, L);
    { unsigned char w[L + 1]; copy(w, m, L); ONE(w, L, one); }
    for(size_t k = 0; k < sizeof(cuts) / sizeof(cuts[0]); k++) { chunked(m, L, cuts[k][0], cuts[k][1], one); }
#else
    static const int lens[] = { LENS };
    unsigned char b = vf_u8() & MASK;
    for(size_t k = 0; k < sizeof(lens) / sizeof(lens[0]); k++) {
        size_t n = lens[k];
        unsigned char w[L + 1], want[DS];
        for(size_t i = 0; i < n; i++) { m[i] = (unsigned char)(i * 31 + 7); }
        if(n > 0) { m[n / 2] ^= b; }
        copy(w, m, n);
        ONE(w, n, one);
        REF(m, n, want);
        for(int i = 0; i < DS; i++) { VF_ASSERT(one[i] == want[i], "digest is the standard one"); }
        for(size_t i = 0; i < n; i++) { VF_ASSERT(w[i] == m[i], "message unchanged by the digest"); }
#ifdef CUTS
        static const int cuts[][2] = { CUTS };
        for(size_t j = 0; j < sizeof(cuts) / sizeof(cuts[0]); j++) { if((size_t) cuts[j][1] <= n) { chunked(m, n, cuts[j][0], cuts[j][1], want); } }
#endif
    }
#endif
    VF_REACH("end");
}
