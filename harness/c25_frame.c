/* C25: well formed messages are reported exactly.  A message is a list of
   segments; bytes 1..6 in a segment's text stand for an arbitrary byte of a
   class.  The bytes are fed one by one (C24: cuts make no difference), next to
   a twin fed with one representative of each class: arbitrary bytes of a class
   must leave the parser in the state the representative does, which keeps the
   control state constant for the solver while the data stays arbitrary. */
#include "vf.h"
#include "viriatum_commons/viriatum_commons.h"
#include "viriatum/http/http_parser.h"
int http_should_keep_alive(struct http_parser_t *http_parser);
#include "c25_msgs.h"
#define MAXN 300
#define LOGN 40
struct ev { unsigned char t; size_t at, n; };
struct run { struct http_parser_t *p; unsigned char *buf; struct ev log[LOGN]; unsigned n; };
static struct run x, y, *cur, want;
static size_t cl;
static void put(struct run *r, unsigned char t, size_t at, size_t n) {
    if(t == 'b' && r->n > 0 && r->log[r->n - 1].t == 'b' && r->log[r->n - 1].at + r->log[r->n - 1].n == at) { r->log[r->n - 1].n += n; return; }
    VF_ASSERT(r->n < LOGN, "no more callbacks than the message has parts");
    if(r->n < LOGN) { r->log[r->n].t = t; r->log[r->n].at = at; r->log[r->n].n = n; r->n++; }
}
#define EV(name, c) static ERROR_CODE name(struct http_parser_t *p) { put(cur, c, 0, 0); return 0; }
#define EVD(name, c) static ERROR_CODE name(struct http_parser_t *p, const unsigned char *d, size_t n) { put(cur, c, (size_t) (d - cur->buf), n); return 0; }
EV(on_begin, 'B') EV(on_line, 'L') EV(on_complete, 'C') EV(on_headers, 'H')
EVD(on_url, 'u') EVD(on_field, 'f') EVD(on_value, 'v') EVD(on_body, 'b')
static struct http_settings_t st;
struct seg { char k; const char *s; };
/* what a segment is: M method, u url, m major, n minor, s status, L end of
   line, f field, v value, H end of headers, b body, C end of message, x other */
struct msg { int request; struct seg g[34]; int keep; int upgrade; int method; };
static const struct msg msgs[] = { MSGS };
static int url_char(unsigned char c) { return c > 32 && c != 127 && c != '#' && c != '?'; }
static int token_char(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '!' || c == '$' || c == '%' || c == '&' || c == '*' || c == '+' || c == '-' || c == '.' || c == '^' || c == '_' || c == '`' || c == '|' || c == '~' || c == '#' || c == '\''; }
static unsigned char rep(unsigned char c) { return c == 1 ? 'x' : c == 2 ? 'x' : c == 3 ? 'x' : c == 4 || c == 6 ? 'x' : c == 5 ? '7' : c; }
static unsigned char any(unsigned char c) {
    unsigned char b;
    if(c < 1 || c > 6) { return c; }
    b = vf_u8();
    if(c == 1) { vf_assume(url_char(b)); }
    else if(c == 2) { vf_assume(token_char(b) && (b | 32) != 'c' && (b | 32) != 'p' && (b | 32) != 't' && (b | 32) != 'u'); }
    else if(c == 3) { vf_assume(b != '\r' && b != '\n'); }
    else if(c == 6) { vf_assume(b != '\r' && b != '\n' && b != ' ' && b != '\t'); }
    else if(c == 5) { vf_assume(b >= '0' && b <= '9'); }
    return b;
}
static struct http_parser_t *fresh(int request) { struct http_parser_t *p; create_http_parser(&p, (char) request); p->index = 0; return p; }
static void same(void) {
    VF_ASSERT(x.p->state == y.p->state, "bytes of a class are treated alike");
    VF_ASSERT(x.p->header_state == y.p->header_state, "bytes of a class are matched alike");
    VF_ASSERT(x.n == y.n, "bytes of a class are reported alike");
    x.p->state = y.p->state; x.p->header_state = y.p->header_state; x.n = y.n; x.p->index = y.p->index; x.p->method = y.p->method; x.p->flags = y.p->flags; x.p->type = y.p->type;
    VF_ASSERT((x.p->url_mark == NULL) == (y.p->url_mark == NULL) && (y.p->url_mark == NULL || x.p->url_mark - x.buf == y.p->url_mark - y.buf), "same open url");
    x.p->url_mark = y.p->url_mark == NULL ? NULL : x.buf + (y.p->url_mark - y.buf);
    VF_ASSERT((x.p->header_field_mark == NULL) == (y.p->header_field_mark == NULL) && (y.p->header_field_mark == NULL || x.p->header_field_mark - x.buf == y.p->header_field_mark - y.buf), "same open field");
    x.p->header_field_mark = y.p->header_field_mark == NULL ? NULL : x.buf + (y.p->header_field_mark - y.buf);
    VF_ASSERT((x.p->header_value_mark == NULL) == (y.p->header_value_mark == NULL) && (y.p->header_value_mark == NULL || x.p->header_value_mark - x.buf == y.p->header_value_mark - y.buf), "same open value");
    x.p->header_value_mark = y.p->header_value_mark == NULL ? NULL : x.buf + (y.p->header_value_mark - y.buf);
}
static void feed(struct run *r, size_t at) {
    cur = r;
    int n = process_data_http_parser(r->p, &st, r->buf + at, 1);
    VF_ASSERT(n == 1, "every byte of a well formed message is accepted");
}
static void one(const struct msg *m) {
    size_t at = 0, i, k;
    unsigned major = 0, minor = 0, status = 0;
    x.n = y.n = want.n = 0;
    x.p = fresh(m->request); y.p = fresh(m->request);
    x.buf = malloc(MAXN); y.buf = malloc(MAXN);
    put(&want, 'B', 0, 0);
    for(k = 0; m->g[k].s != NULL; k++) {
        char t = m->g[k].k;
        const char *s = m->g[k].s;
        size_t from = at;
        for(i = 0; s[i] != 0; i++) {
            unsigned char c = any((unsigned char) s[i]);
            x.buf[at] = c; y.buf[at] = rep((unsigned char) s[i]);
            if(t == 'm') { major = major * 10 + (unsigned) (c - '0'); }
            if(t == 'n') { minor = minor * 10 + (unsigned) (c - '0'); }
            if(t == 's') { status = status * 10 + (unsigned) (c - '0'); }
            at++;
        }
        if(t == 'u' || t == 'f' || t == 'v' || t == 'b') { put(&want, (unsigned char) t, from, at - from); }
        if(t == 'L' || t == 'H' || t == 'C') { put(&want, (unsigned char) t, 0, 0); }
    }
    for(i = 0; i < at; i++) { feed(&x, i); feed(&y, i); same(); }
    VF_ASSERT(x.n == want.n, "the message has exactly these parts");
    for(i = 0; i < LOGN; i++) {
        if(i < want.n && i < x.n) {
            VF_ASSERT(x.log[i].t == want.log[i].t, "the parts are reported in order");
            VF_ASSERT(x.log[i].at == want.log[i].at && x.log[i].n == want.log[i].n, "each part is exactly its bytes");
        }
    }
    if(major == 0) { minor = 9; } /* no version: HTTP/0.9 */
    VF_ASSERT(x.p->http_major == major && x.p->http_minor == minor, "the version is the one sent");
    if(m->request) { VF_ASSERT(x.p->method == m->method, "the method is the one sent"); }
    else { VF_ASSERT(x.p->status_code == status, "the status is the one sent"); }
    if(m->keep != 2) { VF_ASSERT((http_should_keep_alive(x.p) != 0) == (m->keep != 0), "the connection persists as HTTP says"); }
    VF_ASSERT(x.p->upgrade == m->upgrade, "upgrade is reported");
    /* the whole message at once, with another one behind it */
    if(want.log[want.n - 1].t == 'C') {
        struct run w;
        w.n = 0; w.p = fresh(m->request); w.buf = y.buf; cur = &w;
        w.buf[at] = m->request ? 'G' : 'H'; w.buf[at + 1] = m->request ? 'E' : 'T';
        int n = process_data_http_parser(w.p, &st, w.buf, at + 2);
        VF_ASSERT(n == (int) at, "the next message starts right behind the last byte");
        VF_ASSERT(w.n == want.n, "the next message is not part of this one");
        free(w.p);
    }
    free(x.buf); free(y.buf); free(x.p); free(y.p);
}
void harness(void) {
    st.on_message_begin = on_begin; st.on_url = on_url; st.on_line = on_line; st.on_header_field = on_field; st.on_header_value = on_value;
    st.on_headers_complete = on_headers; st.on_body = on_body; st.on_message_complete = on_complete;
    for(unsigned i = 0; i < sizeof(msgs) / sizeof(msgs[0]); i++) { one(&msgs[i]); }
    VF_REACH("end");
}
