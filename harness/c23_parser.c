/* C23/C24: the HTTP parser from an arbitrary state it can be in between two
   pieces of data.  MODE 1: one step is safe and ends in such a state again
   (so, by induction, does any sequence of pieces).  MODE 2: K bytes at once
   and cut at every place have the same effect. */
#include "vf.h"
#include "viriatum_commons/viriatum_commons.h"
#include "viriatum/http/http_parser.h"
#ifndef K
#define K 2
#endif
#define P 2
#define TOTAL (P + K)
#ifndef LO
#define LO 1
#define HI 55
#endif
#ifndef LOGN
#define LOGN (3 * K + 2)
#endif
static unsigned char *buf;
struct ev { unsigned char t; unsigned char at, n; };
struct run { struct http_parser_t p; struct ev log[LOGN]; unsigned n; int done; int end; } ;
static struct run *cur;
static int hc;
static void put(unsigned char t, size_t at, size_t n) {
    if(t == 'b' && cur->n > 0 && cur->log[cur->n - 1].t == 'b' && (size_t) cur->log[cur->n - 1].at + cur->log[cur->n - 1].n == at) { cur->log[cur->n - 1].n += n; return; }
    VF_ASSERT(cur->n < LOGN, "a bounded number of callbacks per byte");
    if(cur->n < LOGN) { cur->log[cur->n].t = t; cur->log[cur->n].at = (unsigned char) at; cur->log[cur->n].n = (unsigned char) n; cur->n++; }
}
static size_t place(const unsigned char *d, size_t n) {
#ifdef __CPROVER__
    __CPROVER_assert(__CPROVER_same_object(d, buf), "callback data lies in the given data");
#endif
    size_t at = (size_t) (d - buf);
    VF_ASSERT(at <= TOTAL && n <= TOTAL - at, "callback data lies in the given data");
    return at;
}
#define EV(name, c) static ERROR_CODE name(struct http_parser_t *p) { put(c, 0, 0); return 0; }
#define EVD(name, c) static ERROR_CODE name(struct http_parser_t *p, const unsigned char *d, size_t n) { put(c, place(d, n), n); return 0; }
EV(on_begin, 'B') EV(on_line, 'L') EV(on_complete, 'C')
EVD(on_url, 'u') EVD(on_field, 'f') EVD(on_value, 'v') EVD(on_body, 'b')
static ERROR_CODE on_headers(struct http_parser_t *p) { put('H', 0, 0); return hc; }
static const unsigned char lens[25] = { 0, 6, 3, 4, 4, 3, 7, 7, 5, 4, 4, 5, 4, 8, 9, 6, 6, 10, 8, 5, 8, 6, 9, 11, 5 };
#define REQ(s) ((s) >= STATE_START_REQ && (s) <= STATE_REQ_LINE_ALMOST_DONE)
#define RES(s) ((s) >= STATE_START_RES && (s) <= STATE_RES_LINE_ALMOST_DONE)
#define CHUNK(s) ((s) == STATE_CHUNK_SIZE_START || (s) == STATE_CHUNK_SIZE || (s) == STATE_CHUNK_PARAMETERS || (s) == STATE_CHUNK_SIZE_ALMOST_DONE || (s) == STATE_CHUNK_DATA || (s) == STATE_CHUNK_DATA_ALMOST_DONE || (s) == STATE_CHUNK_DATA_DONE)
#define URL(s) ((s) >= STATE_REQ_SCHEMA && (s) <= STATE_REQ_FRAGMENT)
static int mark(unsigned char *m, int want, size_t limit) { return want ? m != NULL && (size_t) (m - buf) < limit : m == NULL; }
/* what holds between two pieces of data */
static int inv(struct http_parser_t *p, size_t limit) {
    int s = p->state, h = p->header_state;
    if(p->type != HTTP_REQUEST && p->type != HTTP_RESPONSE) { return 0; }
    if(s <= STATE_RES_OR_RESP_H || s > STATE_BODY_IDENTITY_EOF) { return 0; }
    if(REQ(s) && p->type != HTTP_REQUEST) { return 0; }
    if(RES(s) && p->type != HTTP_RESPONSE) { return 0; }
    if(p->method > 24 || (p->type == HTTP_RESPONSE && p->method != 0)) { return 0; }
    if(s >= STATE_REQ_METHOD && p->type == HTTP_REQUEST && p->method == 0) { return 0; }
    if(s == STATE_REQ_METHOD && (p->index < 1 || p->index > lens[p->method])) { return 0; }
    if(p->http_major > 999 || p->http_minor > 999 || p->status_code > 999 || p->content_length < -1) { return 0; }
    if(CHUNK(s) && !(p->flags & FLAG_CHUNKED)) { return 0; }
    if((p->flags & FLAG_TRAILING) && !(p->flags & FLAG_CHUNKED)) { return 0; }
    if((s == STATE_CHUNK_SIZE || s == STATE_CHUNK_PARAMETERS || s == STATE_CHUNK_SIZE_ALMOST_DONE) && p->content_length < 0) { return 0; }
    if((s == STATE_CHUNK_DATA || s == STATE_BODY_IDENTITY) && p->content_length < 1) { return 0; }
    if(s == STATE_HEADER_FIELD) {
        if(h < HEADER_STATE_GENERAL || h > HEADER_STATE_UPGRADE || p->index > 18) { return 0; }
        if(h == HEADER_STATE_C && p->index != 0) { return 0; }
        if(h == HEADER_STATE_CO && p->index != 1) { return 0; }
        if(h == HEADER_STATE_CON && p->index != 2) { return 0; }
        if(h == HEADER_STATE_MATCHING_CONNECTION && (p->index < 3 || p->index > 8)) { return 0; }
        if(h == HEADER_STATE_MATCHING_CONTENT_LENGTH && (p->index < 3 || p->index > 12)) { return 0; }
        if(h == HEADER_STATE_MATCHING_PROXY_CONNECTION && p->index > 14) { return 0; }
        if(h == HEADER_STATE_MATCHING_TRANSFER_ENCODING && p->index > 15) { return 0; }
        if(h == HEADER_STATE_MATCHING_UPGRADE && p->index > 5) { return 0; }
    }
    if(s == STATE_HEADER_VALUE) {
        if(h != HEADER_STATE_GENERAL && h != HEADER_STATE_CONTENT_LENGTH && h < HEADER_STATE_MATCHING_TRANSFER_ENCODING_CHUNKED) { return 0; }
        if(h > HEADER_STATE_CONNECTION_CLOSE || p->index > 18) { return 0; }
        if(h == HEADER_STATE_MATCHING_TRANSFER_ENCODING_CHUNKED && p->index > 5) { return 0; }
        if(h == HEADER_STATE_MATCHING_CONNECTION_KEEP_ALIVE && p->index > 8) { return 0; }
        if(h == HEADER_STATE_MATCHING_CONNECTION_CLOSE && p->index > 3) { return 0; }
        if(h == HEADER_STATE_CONTENT_LENGTH && p->content_length < 0) { return 0; }
    }
    if(s >= STATE_HEADER_FIELD_START && h > HEADER_STATE_CONNECTION_CLOSE) { return 0; }
    return mark(p->url_mark, URL(s), limit) && mark(p->header_field_mark, s == STATE_HEADER_FIELD, limit) && mark(p->header_value_mark, s == STATE_HEADER_VALUE, limit);
}
static void any(struct http_parser_t *p) {
    size_t m = vf_range(0, P - 1);
    p->type = (enum http_request_type_e) vf_range(1, 2);
    p->flags = vf_u8() & 63;
    p->state = (enum http_parser_state_e) vf_range(LO, HI);
    p->header_state = (enum http_header_state_e) vf_range(0, 19);
    p->index = vf_u8(); p->read_count = 0; p->content_length = vf_int();
    p->http_major = vf_u16(); p->http_minor = vf_u16(); p->status_code = vf_u16(); p->method = vf_u8(); p->upgrade = vf_bool();
    p->context = NULL; p->parameters = NULL; p->_content_length = 0;
    p->url_mark = URL(p->state) ? buf + m : NULL;
    p->header_field_mark = p->state == STATE_HEADER_FIELD ? buf + m : NULL;
    p->header_value_mark = p->state == STATE_HEADER_VALUE ? buf + m : NULL;
    vf_assume(inv(p, P));
}
static struct http_settings_t st;
/* feeds the bytes a..b of the data the way a connection does: stops at the
   end of a message or at an error */
static void feed(struct run *r, size_t a, size_t b) {
    int n;
    cur = r;
    if(r->end) { return; }
    n = process_data_http_parser(&r->p, &st, buf + P + a, b - a);
    VF_ASSERT(n >= -1 && n <= (int) (b - a), "consumes at most the data it is given");
    if(n < 0) { r->done = -1; r->end = 1; return; }
    r->done += n;
    for(unsigned i = 0; i < LOGN; i++) { if(i < r->n && r->log[i].t == 'C') { r->end = 1; } }
}
void harness(void) {
    static unsigned char data[TOTAL];
    static struct run x, y;
    st.on_message_begin = on_begin; st.on_url = on_url; st.on_line = on_line; st.on_header_field = on_field; st.on_header_value = on_value;
    st.on_headers_complete = on_headers; st.on_body = on_body; st.on_message_complete = on_complete;
    hc = vf_bool();
    vf_fill(data, TOTAL);
    buf = vf_heap(data, TOTAL);
#if MODE == 0
    struct http_parser_t *p;
    create_http_parser(&p, vf_bool());
    VF_ASSERT(p->state == (p->type == HTTP_REQUEST ? STATE_START_REQ : STATE_START_RES), "a new parser waits for a message");
    p->index = 0;
    VF_ASSERT(inv(p, 0), "a new parser is in a valid state");
    VF_REACH("end");
    return;
#endif
    any(&x.p);
    y.p = x.p;
#if MODE == 1
    size_t n = vf_range(1, K);
    cur = &x;
    int r = process_data_http_parser(&x.p, &st, buf + P, n);
    VF_ASSERT(r >= -1 && r <= (int) n, "consumes at most the data it is given");
    VF_ASSERT(r == -1 || inv(&x.p, TOTAL), "parsing ends in a state it can go on from");
    if(r == -1) { VF_REACH("error"); }
    else if(r == K) { VF_REACH("all consumed"); }
    else if(r > 0) { VF_REACH("stops at the end of a message"); }
#elif MODE == 2
    feed(&x, 0, K);
    feed(&y, 0, CUT); if(!y.end) { feed(&y, CUT, K); }
    VF_ASSERT(x.done == y.done, "the same bytes are consumed");
    VF_ASSERT(x.n == y.n, "the same number of callbacks");
    for(unsigned i = 0; i < LOGN; i++) {
        if(i < x.n && i < y.n) { VF_ASSERT(x.log[i].t == y.log[i].t && x.log[i].at == y.log[i].at && x.log[i].n == y.log[i].n, "the same callbacks with the same data"); }
    }
    if(x.done >= 0) {
        VF_ASSERT(x.p.state == y.p.state && x.p.flags == y.p.flags && x.p.content_length == y.p.content_length && x.p.method == y.p.method && x.p.upgrade == y.p.upgrade && x.p.type == y.p.type, "the same state");
        VF_ASSERT(x.p.http_major == y.p.http_major && x.p.http_minor == y.p.http_minor && x.p.status_code == y.p.status_code, "the same version and status");
        VF_ASSERT(x.p.url_mark == y.p.url_mark && x.p.header_field_mark == y.p.header_field_mark && x.p.header_value_mark == y.p.header_value_mark, "the same open pieces");
        if((x.p.state == STATE_HEADER_FIELD || x.p.state == STATE_HEADER_VALUE)) { VF_ASSERT(x.p.header_state == y.p.header_state && x.p.index == y.p.index, "the same header match"); }
        if(x.p.state == STATE_REQ_METHOD) { VF_ASSERT(x.p.index == y.p.index, "the same method match"); }
        if(x.n > 0) { VF_REACH("something reported"); }
    }
#endif
}
