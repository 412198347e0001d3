/* URL parsing. MODE 1: well formed URLs built from arbitrary components;
   MODE 2: arbitrary text; MODE 3: one component as long as or longer than the
   fixed-size copy has room for */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/formats/url.h"
#ifdef __CPROVER__
#undef memset
/* the result is cleared as a structure, not as bytes */
void *vf_zero(void *p, int c, size_t n) {
    static const struct url_t none;
    static const struct url_static_t nothing;
    VF_ASSERT(c == 0, "results are cleared with zeros");
    if(n == sizeof(struct url_t)) { *(struct url_t *) p = none; return p; }
    if(n == sizeof(struct url_static_t)) { *(struct url_static_t *) p = nothing; return p; }
    return memset(p, c, n);
}
#undef malloc
void *vf_malloc(size_t n) { return malloc(n); }
#endif
#ifndef MAX
#define MAX 64
#endif
#define NONE 99
struct part { size_t at, n; int has; };
static unsigned char text[MAX];
static size_t size;
static void put(char c) { text[size++] = (unsigned char) c; }
static struct part fill(size_t n, const char *not) {
    struct part p = { size, n == NONE ? 0 : n, n != NONE };
    for(size_t i = 0; i < p.n; i++) {
        unsigned char c = vf_u8();
        vf_assume(c != 0);
        for(size_t k = 0; not[k]; k++) { vf_assume(c != (unsigned char) not[k]); }
        text[size++] = c;
    }
    return p;
}
static void same(struct string_t s, struct part p, const unsigned char *u) {
    VF_ASSERT(p.has || s.buffer == NULL, "an absent component is reported as absent");
    VF_ASSERT(p.has || s.length == 0, "an absent component is empty");
    VF_ASSERT(!p.has || s.buffer == u + p.at, "a component starts after its delimiter");
    VF_ASSERT(!p.has || s.length == p.n, "a component ends before its delimiter");
}
static void same_static(const char *s, size_t room, struct part p) {
    for(size_t i = 0; i < p.n; i++) { VF_ASSERT((unsigned char) s[i] == text[p.at + i], "the copy of a component is unchanged"); }
    VF_ASSERT(s[p.n] == '\0', "the copy of a component is terminated");
}
#define S(f, p) same_static(c.f, sizeof(c.f), p)
#if MODE == 1
/* sizes of scheme, user, password, host, port, path, query, fragment */
static void one(const unsigned char *n) {
    struct url_t u;
    struct url_static_t c;
    struct part scheme, user = { 0, 0, 0 }, pass = { 0, 0, 0 }, host, port = { 0, 0, 0 }, path, query = { 0, 0, 0 }, frag = { 0, 0, 0 };
    unsigned number = 0;
    unsigned char *b;
    size = 0;
    scheme = fill(n[0], ":");
    put(':'); put('/'); put('/');
    if(n[1] != NONE) {
        user = fill(n[1], ":/@?#"); put(':');
        pass = fill(n[2], "/@?#"); put('@');
    }
    host = fill(n[3], ":/@?#");
    if(n[4] != NONE) {
        put(':');
        port.at = size; port.n = n[4]; port.has = 1;
        for(size_t i = 0; i < n[4]; i++) { unsigned char d = vf_u8(); vf_assume(d <= 9); number = number * 10 + d; put((char) ('0' + d)); }
    }
    path.at = size; put('/'); path.n = 1 + fill(n[5], "?#").n; path.has = 1;
    if(n[6] != NONE) { put('?'); query = fill(n[6], "#"); }
    if(n[7] != NONE) { put('#'); frag = fill(n[7], ""); }
    b = vf_heap(text, size);
    VF_ASSERT(parse_url((char *) b, size, &u) == 0, "a well formed URL is accepted");
    same(u.scheme, scheme, b); same(u.username, user, b); same(u.password, pass, b); same(u.host, host, b);
    same(u.port_s, port, b); same(u.path, path, b); same(u.query, query, b); same(u.fragment, frag, b);
    VF_ASSERT(u.port == number, "the port is its number");
    for(size_t i = 0; i < size; i++) { VF_ASSERT(b[i] == text[i], "parsing leaves the text alone"); }
    free(b);
}
void harness(void) {
    static const unsigned char shapes[][8] = { SHAPES };
    for(size_t i = 0; i < sizeof(shapes) / 8; i++) { one(shapes[i]); }
    VF_REACH("end");
}
#elif MODE == 2
static void in(struct string_t s, const unsigned char *b, size_t n) {
    if(s.buffer == NULL) { return; }
    VF_ASSERT(s.buffer >= b && s.buffer + s.length <= b + n && s.length <= n, "a component is a part of the text");
}
void harness(void) {
    struct url_t u;
    struct url_static_t c;
    unsigned char *b;
    /* a fixed beginning, so that every state is reached within the bound */
    static const char *prefix = PREFIX;
    for(size = 0; prefix[size]; size++) { text[size] = (unsigned char) prefix[size]; }
    for(size_t k = 0; k < N; k++) { text[size++] = vf_u8(); }
    b = vf_heap(text, size);
    if(parse_url((char *) b, size, &u) == 0) {
        in(u.scheme, b, size); in(u.username, b, size); in(u.password, b, size); in(u.host, b, size);
        in(u.port_s, b, size); in(u.path, b, size); in(u.query, b, size); in(u.fragment, b, size);
        VF_REACH("accepted");
    } else { VF_REACH("rejected"); }
    free(b);
}
#elif MODE == 4
static void one(size_t n) {
    struct url_t u;
    unsigned char *b;
    size = 0;
    put('s'); put(':'); put('/'); put('/'); put('h'); put(':');
    for(size_t i = 0; i < n; i++) { put(i + 2 < n ? '0' : '8'); }
    put('/');
    b = vf_heap(text, size);
    parse_url((char *) b, size, &u);
    free(b);
}
void harness(void) { one(127); one(128); one(200); VF_REACH("end"); }
#else
/* the components parse_url may find in a text: one of any size, the others of
   one byte; in the native replay the text is such that it finds exactly them */
static const char pre[][12] = { "", "s://", "s://u:", "s://", "s://h:", "s://h", "s://h/?", "s://h/?q#" };
static const char post[][12] = { "://h/", ":p@h/", "@h/", "/", "/", "", "", "" };
static struct url_t found;
static unsigned char *base;
unsigned char *vf_text(size_t n);
static struct string_t str(size_t at, size_t n) { struct string_t s; s.buffer = base + at; s.length = n; return s; }
ERROR_CODE vf_parse(char *url, size_t url_size, struct url_t *u) { *u = found; return 0; }
static void one(int field, size_t room) {

    struct url_static_t *h = (struct url_static_t *) malloc(sizeof(*h));
    size_t n = vf_range(field == 5, MAX - 16), at = 0, p, k = WITNESS;
    struct part part;
    int r;
    while(pre[field][at]) { at++; }
    p = at + n;
    size = at + n;
    for(const char *x = post[field]; *x; x++) { size++; }
#ifdef __CPROVER__
    vf_witness = k;
    base = malloc(MAX);
#else
    {
        size_t i = 0;
        const char *x;
        base = malloc(size);
        for(x = pre[field]; *x; x++) { base[i++] = (unsigned char) *x; }
        for(; i < p; i++) { base[i] = field == 5 && i == at ? '/' : 'A' + i % 23; }
        for(x = post[field]; *x; x++) { base[i++] = (unsigned char) *x; }
    }
#endif
    memset(&found, 0, sizeof(found));
    part.at = at; part.n = n; part.has = 1;
    if(field != 0) { found.scheme = str(0, 1); } else { found.scheme = str(0, n); found.host = str(n + 3, 1); found.path = str(n + 4, 1); }
    if(field == 1) { found.username = str(4, n); found.password = str(p + 1, 1); found.host = str(p + 3, 1); found.path = str(p + 4, 1); }
    if(field == 2) { found.username = str(4, 1); found.password = str(6, n); found.host = str(p + 1, 1); found.path = str(p + 2, 1); }
    if(field == 3) { found.host = str(4, n); found.path = str(p, 1); }
    if(field >= 5) { found.host = str(4, 1); found.path = str(5, 1); }
    if(field == 5) { found.path = str(5, n); }
    if(field == 6) { found.query = str(7, n); }
    if(field == 7) { found.query = str(7, 1); found.fragment = str(9, n); }
    r = parse_url_static((char *) base, size, h);
    if(n < room) { VF_ASSERT(r == 0, "a component that has room is copied"); }
    if(r == 0) {
        const char *s = field == 0 ? h->scheme : field == 1 ? h->username : field == 2 ? h->password : field == 3 ? h->host : field == 5 ? h->path : field == 6 ? h->query : h->fragment;
        VF_ASSERT(n < room, "a component that has no room is rejected");
        VF_ASSERT(k >= n || (unsigned char) s[k] == base[at + k], "the copy of a component is unchanged");
        VF_ASSERT(s[n] == '\0', "the copy of a component is terminated");
        VF_ASSERT(h->host[field == 3 ? n : 1] == '\0' && h->path[field == 5 ? n : 1] == '\0', "the other copies are terminated");
        if(field == 1 || field == 2) { VF_ASSERT(k > 0 || (unsigned char) h->password[0] == found.password.buffer[0] || found.password.length == 0, "the other copies are unchanged"); }
    }
    VF_ASSERT(h->port == 0, "there is no port");
    free(base); free(h);
}
void harness(void) {
    static const size_t rooms[] = { 64, 128, 128, 256, 0, 1024, 1024, 256 };
    one(FIELD, rooms[FIELD]);
    VF_REACH("end");
}
#endif
