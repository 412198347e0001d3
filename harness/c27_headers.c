/* C27: response headers and small responses. Each situation names the writer and its
   texts; the size of the buffer and the bytes of bodies are arbitrary. */
#include "vf.h"
#include "viriatum/stdafx.h"
#include "viriatum/http/http_util.h"
#ifndef CAP
#define CAP 400
#endif
#ifndef FROM
#define FROM 0
#endif
#ifndef MODE
#define MODE 1
#endif
static struct service_t serv;
static struct service_options_t opts;
static struct connection_t conn;
static char expected[2 * CAP];
static size_t elen;
static void put(const char *s) { while(*s) { expected[elen++] = *s++; } expected[elen] = 0; }
static void num(size_t v) { char t[24]; int n = 0; do { t[n++] = (char) ('0' + v % 10); v /= 10; } while(v); while(n) { expected[elen++] = t[--n]; } expected[elen] = 0; }
static const char *const versions[] = {"HTTP/0.9", "HTTP/1.0", "HTTP/1.1"};
static const char *const keeps[] = {"close", "keep-alive"};
static const char *const caches[] = {"no-cache, must-revalidate", "max-age=604800"};
struct situation { int kind; int version, code; const char *status; int keep; int close; size_t length; int cache; const char *realm; const char *description; };
/* what the response starts with; a length of -1 has no length and cache lines */
static void expect(const struct situation *s, long length, const char *realm, int close) {
    elen = 0;
    put(versions[s->version]); put(" "); num((size_t) s->code); put(" "); put(s->status); put("\r\nConnection: "); put(keeps[s->keep]);
    put("\r\nServer: "); put(s->description); put("\r\n");
    if(length >= 0) { put("Content-Length: "); num((size_t) length); put("\r\nCache-Control: "); put(caches[s->cache]); put("\r\n"); }
    if(realm) { put("WWW-Authenticate: Basic realm=\""); put(realm); put("\"\r\n"); }
    if(close) { put("\r\n"); }
}
#if MODE == 1
static const struct situation situations[] = {
    {1, 2, 200, "OK", 1, 1, 0, 0, NULL, "v/1"}, {1, 1, 404, "", 0, 0, 0, 0, NULL, ""},
    {2, 2, 206, "Partial Content", 1, 0, 0, 1, NULL, "v"}, {2, 0, 200, "OK", 0, 1, 18446744073709551615UL, 0, NULL, "v"}, {2, 2, 304, "Not Modified", 1, 1, 1234567, 1, NULL, "d"},
    {3, 2, 401, "Unauthorized", 1, 1, 12, 0, "r", "v"}, {3, 1, 401, "U", 0, 0, 100, 1, "", "v"} };
void harness(void) {
    static char buffer[CAP + 8];
    for(size_t i = FROM; i < sizeof(situations) / sizeof(situations[0]) && i < FROM + 2; i++) {
        const struct situation *s = &situations[i];
      /* the buffer ends before, at and after the end of the header, and far from it */
      static const int ends[] = {ENDS};
      for(size_t e = 0; e < sizeof(ends) / sizeof(ends[0]); e++) {
        size_t size, n = 0;
        char before[8];
        vf_fill(before, 8);
        conn.service = &serv; strcpy((char *) serv.description, s->description);
        if(s->kind == 1) { expect(s, -1, NULL, s->close); }
        if(s->kind == 2) { expect(s, (long) s->length < 0 ? 0 : (long) s->length, NULL, s->close); }
        if(s->kind == 2 && (long) s->length < 0) { elen = 0; put("HTTP/0.9 200 OK\r\nConnection: close\r\nServer: v\r\nContent-Length: 18446744073709551615\r\nCache-Control: no-cache, must-revalidate\r\n\r\n"); }
        if(s->kind == 3) { expect(s, (long) s->length, s->realm, s->close); }
        size = ends[e] >= 1000 ? (size_t) ends[e] - 1000 : elen + (size_t) ends[e];
        for(size_t k = 0; k < 8; k++) { buffer[size + k] = before[k]; }
        if(s->kind == 1) { n = write_http_headers(&conn, buffer, size, s->version + 1, s->code, (char *) s->status, s->keep + 1, (char) s->close); }
        if(s->kind == 2) {
            n = write_http_headers_c(&conn, buffer, size, s->version + 1, s->code, (char *) s->status, s->keep + 1, s->length, s->cache + 1, s->close); }
        if(s->kind == 3) { n = write_http_headers_a(&conn, buffer, size, s->version + 1, s->code, (char *) s->status, s->keep + 1, s->length, s->cache + 1, (char *) s->realm, s->close); }
        for(size_t k = 0; k < 8; k++) { VF_ASSERT(buffer[size + k] == before[k], "nothing is written past the size of the buffer"); }
        if(elen < size) {
            VF_ASSERT(n == elen, "the number of bytes written");
            for(size_t k = 0; k <= elen; k++) { VF_ASSERT(buffer[k] == expected[k], "the header"); }
            VF_REACH("fits");
        }
        else {
            VF_ASSERT(n < size, "the count stays inside the buffer");
            for(size_t k = 0; k < n; k++) { VF_ASSERT(buffer[k] == expected[k], "what fits of the header"); }
            VF_ASSERT(buffer[n] == 0, "the text ends");
            VF_REACH("truncated");
        }
      }
    }
    VF_REACH("end");
}
#elif MODE == 2
/* headers and a message, in a buffer of every listed size */
struct sized { size_t size, length; };
static const struct sized sizes[] = {SIZES};
void harness(void) {
    static const struct situation s = {4, 2, 200, "OK", 1, 1, 0, 0, NULL, "v"};
    static unsigned char message[64];
    conn.service = &serv; strcpy((char *) serv.description, s.description);
    for(size_t i = 0; i < sizeof(sizes) / sizeof(sizes[0]); i++) {
        size_t size = sizes[i].size, length = sizes[i].length, fit = length, n;
        char *buffer = (char *) malloc(size);
        vf_fill(message, length + 1);
        n = write_http_headers_m(&conn, buffer, size, 3, 200, "OK", 2, length, 1, (char *) message);
        for(;;) { expect(&s, (long) fit, NULL, 1); if(elen + fit < size) { break; } fit--; }
        VF_ASSERT(fit == length || elen + fit + 2 >= size, "bound: the oracle");
        /* as much of the message as fits, and the length of exactly that */
        for(size_t k = 0; k < elen; k++) {
            if(fit == length) { VF_ASSERT(buffer[k] == expected[k], "the header"); }
        }
        if(fit == length) {
            VF_ASSERT(n == elen, "the message begins after the header");
            for(size_t k = 0; k < length; k++) { VF_ASSERT((unsigned char) buffer[elen + k] == message[k], "the message"); }
            VF_ASSERT(buffer[elen + length] == 0, "the end");
            VF_REACH("whole");
        } else {
            /* what is announced is what follows */
            size_t a = 0, h = 0, announced = 0;
            for(size_t k = 0; k + 16 < n; k++) { if(buffer[k] == 'L' && buffer[k + 1] == 'e' && buffer[k + 6] == ':') { a = k + 8; } }
            for(h = a; buffer[h] >= '0' && buffer[h] <= '9'; h++) { announced = announced * 10 + (size_t) (buffer[h] - '0'); }
            VF_ASSERT(a > 0 && h > a && announced <= length && n + announced < size && n + announced + 3 >= size, "the announced length is that of the part that fits");
            VF_ASSERT(buffer[n - 2] == '\r' && buffer[n - 1] == '\n' && buffer[n + announced] == 0, "the message follows the header");
            for(size_t k = 0; k < announced; k++) { VF_ASSERT((unsigned char) buffer[n + k] == message[k], "the message is cut at its end"); }
            VF_REACH("cut");
        }
        free(buffer);
    }
    VF_REACH("end");
}
#else
/* whole responses, as they are queued */
static unsigned char *queued;
static size_t queued_size;
static connection_data_callback queued_callback;
static void *queued_parameters;
static int writes, templates;
static unsigned char *body;
ERROR_CODE write_connection(struct connection_t *c, unsigned char *data, unsigned int size, connection_data_callback cb, void *p) {
    VF_ASSERT(c == &conn, "the connection");
    queued = data; queued_size = size; queued_callback = cb; queued_parameters = p; writes++;
    RAISE_NO_ERROR;
}
void create_template_handler(struct template_handler_t **p) { *p = (struct template_handler_t *) malloc(sizeof(struct template_handler_t)); (*p)->string_value = NULL; templates++; }
void delete_template_handler(struct template_handler_t *t) { free(t->string_value); free(t); templates--; }
static int code_seen; static char *message_seen;
void assign_integer_template_handler(struct template_handler_t *t, unsigned char *n, int v) { (void) t; if(n[6] == 'c') { code_seen = v; } }
void assign_string_template_handler(struct template_handler_t *t, unsigned char *n, char *v) { (void) t; if(n[6] == 'm') { message_seen = v; } }
void process_template_handler(struct template_handler_t *t, unsigned char *path) {
    (void) path;
    t->string_value = (unsigned char *) malloc(body ? strlen((char *) body) + 1 : 1);
    t->string_value[0] = 0;
    if(body) { for(size_t k = 0; k <= strlen((char *) body); k++) { t->string_value[k] = body[k]; } }
}
/* the string buffer (its own claim) is used for one response at a time */
static struct string_buffer_t sb;
static const unsigned char *parts[4];
static int nparts, buffers;
void create_string_buffer(struct string_buffer_t **p) { *p = &sb; sb.string_length = 0; nparts = 0; buffers++; }
void delete_string_buffer(struct string_buffer_t *b) { VF_ASSERT(b == &sb && buffers == 1, "the string buffer is released once"); buffers--; }
void append_string_buffer(struct string_buffer_t *b, unsigned char *v) { VF_ASSERT(b == &sb && nparts < 4, "bound: parts"); parts[nparts++] = v; sb.string_length += strlen((char *) v); }
void join_string_buffer(struct string_buffer_t *b, unsigned char **out) {
    size_t at = 0; (void) b;
    *out = (unsigned char *) malloc(sb.string_length + 1);
    for(int i = 0; i < nparts; i++) { for(size_t k = 0; parts[i][k]; k++) { (*out)[at++] = parts[i][k]; } }
    (*out)[at] = 0;
}
static ERROR_CODE sent(struct connection_t *c, struct data_t *d, void *p) { (void) c; (void) d; (void) p; RAISE_NO_ERROR; }
static void check(const char *text, size_t length) {
    VF_ASSERT(writes == 1 && queued_callback == (connection_data_callback) sent && queued_parameters == (void *) &sent, "one response is queued, with its callback");
    VF_ASSERT(queued_size == elen + length, "the length announced is the length of what follows");
    for(size_t k = 0; k < elen; k++) { VF_ASSERT(queued[k] == (unsigned char) expected[k], "the header"); }
    for(size_t k = 0; k < length; k++) { VF_ASSERT(queued[elen + k] == (unsigned char) text[k], "the body"); }
    free(queued);
    writes = 0;
}
void harness(void) {
    static const struct situation m = {5, 2, 200, "OK", 1, 1, 0, 0, NULL, "v"}, e = {6, 2, 404, "Not Found", 0, 1, 0, 0, NULL, "v"}, u = {7, 1, 401, "U", 1, 1, 0, 0, "rr", "v"};
    static char text[VIRIATUM_HTTP_SIZE + 8];
    conn.service = &serv; serv.options = &opts; strcpy((char *) serv.description, "v");
    /* messages, also longer than any buffer the server has at hand */
    size_t lengths[] = {0, 1, 9, 10, VIRIATUM_HTTP_SIZE - 1, VIRIATUM_HTTP_SIZE, VIRIATUM_HTTP_SIZE + 5};
    for(size_t i = 0; i < sizeof(lengths) / sizeof(lengths[0]); i++) {
        for(size_t k = 0; k < lengths[i]; k++) { text[k] = (char) ('a' + k % 26); }
        text[lengths[i]] = 0;
        write_http_message(&conn, NULL, 0, HTTP11, 200, "OK", text, KEEP_ALIVE, (connection_data_callback_hu) sent, (void *) &sent);
        expect(&m, (long) lengths[i], NULL, 1); check(text, lengths[i]);
    }
    /* errors with the template, which may give anything */
    opts.use_template = 1;
    static unsigned char page[12];
    const char *const pages[] = {"", "<p>404</p>", NULL};
    for(int i = 0; pages[i]; i++) {
        body = (unsigned char *) pages[i];
        write_http_error(&conn, (char *) malloc(VIRIATUM_HTTP_SIZE), VIRIATUM_HTTP_SIZE, HTTP11, 404, "Not Found", "secret", KEEP_CLOSE, (connection_data_callback_hu) sent, (void *) &sent);
        expect(&e, (long) strlen(pages[i]), NULL, 1); check(pages[i], strlen(pages[i]));
        VF_ASSERT(templates == 0 && buffers == 0 && code_seen == 404 && message_seen != NULL, "the page is about the error");
        write_http_error_a(&conn, NULL, 0, HTTP10, 401, "U", NULL, "rr", KEEP_ALIVE, (connection_data_callback_hu) sent, (void *) &sent);
        expect(&u, (long) strlen(pages[i]), "rr", 1); check(pages[i], strlen(pages[i]));
    }
    /* and without: the code, the message and the server (the reason is not given away) */
    opts.use_template = 0;
    write_http_error(&conn, NULL, 0, HTTP11, 404, "Not Found", "secret", KEEP_CLOSE, (connection_data_callback_hu) sent, (void *) &sent);
    expect(&e, 19, NULL, 1); check("404 - Not Found - v", 19);
    VF_REACH("end");
    (void) page;
}
#endif
