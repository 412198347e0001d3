/* C31 (and the enforcement of C29): the response of the file handler.
   MODE 1: the chunks of the body, from the context the headers left.
   MODE 2: which response is given, what it announces and how it continues.
   Files, folders, header writing, ranges (C28) and credentials (C29) are the
   harness's; what it checks is what the handler does with them. */
#include "vf.h"
#include "vf_file.h"
#include "viriatum/stdafx.h"
#include "viriatum/handlers/handlers.h"
#include "viriatum/stream/stream.h"
#ifdef LONGEST
#define P2 'x'
#else
#define P2 0
#endif
static struct http_parser_t parser;
static struct http_settings_t settings;
static struct connection_t conn;
static struct io_connection_t io;
static struct http_connection_t http;
static struct http_handler_t handler;
static struct service_t serv;
static struct file_location_t loc;
static struct file_handler_t files;
static int closed, released, acquired, exists, folder, wrote, unset_calls;
static unsigned char sent[32], disk[16];
static size_t sent_size;
static connection_data_callback pending;
static int kind; /* which continuation, kept apart from the pointer so that paths may merge */
enum { CLEANUP = 1, CHUNK, DATA };
static void *pending_parameters;
static unsigned char *last_data;
static unsigned int last_size;
#ifdef __CPROVER__
#undef malloc
void *vf_malloc(size_t n) {
    if(n == sizeof(struct handler_file_context_t)) { return malloc(sizeof(struct handler_file_context_t)); }
    for(size_t k = 0; k <= 4; k++) { if(n == k) { return malloc(k); } }
    return malloc(n);
}
#undef memset
void *vf_zero(void *p, int c, size_t n) { return memset(p, c, n); }
#endif
int vf_lookup(const char *p, int w) { VF_ASSERT(!w && p[0] == '/' && p[1] == 'f' && p[2] == 0, "the file of the request is opened for reading"); return exists ? 0 : -1; }
ERROR_CODE open_file(char *p, char *m, FILE **f) { *f = fopen(p, m); if(*f == NULL) { RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "x"); } RAISE_NO_ERROR; }
ERROR_CODE write_connection(struct connection_t *c, unsigned char *d, unsigned int n, connection_data_callback cb, void *p) {
    VF_ASSERT(c == &conn && !closed && released == 0, "the response goes to the connection of the request");
    VF_ASSERT(pending == NULL, "one write at a time");
    kind = cb == _cleanup_handler_file ? CLEANUP : cb == _send_chunk_handler_file ? CHUNK : cb == _send_data_handler_file ? DATA : 0;
    pending = cb; pending_parameters = p; last_data = d; last_size = n;
    wrote++;
    RAISE_NO_ERROR;
}
/* ---- what the handler asks about files, credentials, ranges and templates */
static size_t announced, limit_first, limit_last;
static int code_sent, kept, realm, terminated, granted, asked, in_range;
static int the_path(const char *p) { return p[0] == '/' && p[1] == 'f' && p[2] == P2; }
ERROR_CODE count_file(char *p, size_t *n) {
    VF_ASSERT(the_path(p), "the file of the request");
    if(!exists) { RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "x"); }
    *n = vf_disk[0].size;
    RAISE_NO_ERROR;
}

ERROR_CODE get_write_time_file(char *p, struct date_time_t *t) { VF_ASSERT(the_path(p), "the file of the request"); t->year = 2020; t->month = 1; t->day = 2; t->hour = 3; t->minute = 4; t->second = 5; RAISE_NO_ERROR; }
ERROR_CODE is_directory_file(char *p, unsigned int *d) { VF_ASSERT(the_path(p), "the file of the request"); *d = folder ? TRUE : FALSE; RAISE_NO_ERROR; }
static struct linked_list_t list;
ERROR_CODE list_directory_file(char *p, struct linked_list_t *l) { VF_ASSERT(the_path(p) && l == &list, "the folder of the request"); RAISE_NO_ERROR; }
ERROR_CODE entries_to_map_file(struct linked_list_t *l, struct linked_list_t **m) { (void) l; *m = &list; RAISE_NO_ERROR; }
ERROR_CODE delete_directory_entries_file(struct linked_list_t *l) { (void) l; RAISE_NO_ERROR; }
ERROR_CODE delete_directory_entries_map_file(struct linked_list_t *l) { (void) l; RAISE_NO_ERROR; }
void create_linked_list(struct linked_list_t **l) { *l = &list; }
void delete_linked_list(struct linked_list_t *l) { (void) l; }
static struct template_handler_t tmpl;
static int templates;
void create_template_handler(struct template_handler_t **t) { *t = &tmpl; tmpl.string_value = NULL; templates++; }
void delete_template_handler(struct template_handler_t *t) {
    VF_ASSERT(t == &tmpl && templates == 1, "the template is released once");
    templates--;
    if(t->string_value != NULL) { free(t->string_value); }
}
void process_template_handler(struct template_handler_t *t, unsigned char *p) { (void) p; t->string_value = (unsigned char *) malloc(4); t->string_value[0] = 'a'; t->string_value[1] = 'b'; t->string_value[2] = 'c'; t->string_value[3] = 0; }
void assign_integer_template_handler(struct template_handler_t *t, unsigned char *n, int v) { (void) t; (void) n; (void) v; }
void assign_string_template_handler(struct template_handler_t *t, unsigned char *n, char *v) { (void) t; (void) n; (void) v; }
void assign_list_template_handler(struct template_handler_t *t, unsigned char *n, struct linked_list_t *v) { (void) t; (void) n; (void) v; }

static size_t heading(struct connection_t *c, char *b, size_t n, int code, enum http_keep_alive_e k, size_t length, int end) {
    VF_ASSERT(c == &conn && code_sent == 0, "one response");
    VF_ASSERT(n >= 16, "room for the headers");
    code_sent = code; kept = k == KEEP_ALIVE; announced = length; terminated = end;
    b[0] = 'H'; b[1] = 0;
    return 1;
}
size_t write_http_headers(struct connection_t *c, char *b, size_t n, enum http_version_e v, int s, char *m, enum http_keep_alive_e k, char end) { (void) v; (void) m; return heading(c, b, n, s, k, (size_t) -2, end); }
size_t write_http_headers_c(struct connection_t *c, char *b, size_t n, enum http_version_e v, int s, char *m, enum http_keep_alive_e k, size_t l, enum http_cache_e e, int end) { (void) v; (void) m; (void) e; return heading(c, b, n, s, k, l, end); }
ERROR_CODE write_http_error_a(struct connection_t *c, char *b, size_t n, enum http_version_e v, int s, char *m, char *d, char *r, enum http_keep_alive_e k, connection_data_callback cb, void *p) {
    (void) v; (void) m; (void) d;
    heading(c, b, n, s, k, (size_t) -3, 1);
    realm = r != NULL && r[0] == 'R';
    return write_connection(c, (unsigned char *) b, 1, cb, p);
}
ERROR_CODE write_http_error(struct connection_t *c, char *b, size_t n, enum http_version_e v, int s, char *m, char *d, enum http_keep_alive_e k, connection_data_callback cb, void *p) { return write_http_error_a(c, b, n, v, s, m, d, NULL, k, cb, p); }
ERROR_CODE get_http_range_limits(unsigned char *r, size_t *a, size_t *b, size_t n) {
    VF_ASSERT(r[0] == 'r' && n == vf_disk[0].size, "the range of the request, for this file");
    if(!in_range) { RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "x"); }
    *a = limit_first; *b = limit_last;
    RAISE_NO_ERROR;
}
ERROR_CODE auth_http(char *f, char *a, unsigned char *r) {
    VF_ASSERT(f != NULL && f[0] == 'p' && a[0] == 'A', "the credentials of the request and the file of the location");
    asked++;
    *r = granted ? TRUE : FALSE;
    RAISE_NO_ERROR;
}
static ERROR_CODE vf_close(struct connection_t *c) { VF_ASSERT(c == &conn, "the connection of the request"); closed++; RAISE_NO_ERROR; }
static ERROR_CODE vf_release(struct http_connection_t *c) { VF_ASSERT(c == &http, "the connection of the request"); released++; RAISE_NO_ERROR; }
static ERROR_CODE vf_acquire(struct http_connection_t *c) { VF_ASSERT(c == &http, "the connection of the request"); acquired++; RAISE_NO_ERROR; }
static ERROR_CODE vf_unset(struct http_connection_t *c) { unset_calls++; return unset_handler_file(c); }
static void setup(void) {
    closed = released = acquired = wrote = unset_calls = 0; sent_size = 0; pending = NULL;
    conn.lower = &io; conn.service = &serv; conn.close_connection = vf_close;
    io.lower = &http; io.connection = &conn;
    http.http_parser = &parser; http.http_settings = &settings; http.http_handler = &handler; http.release = vf_release; http.acquire = vf_acquire; http.io_connection = &io;
    handler.unset = vf_unset; handler.lower = &files;
    files.locations = &loc; files.locations_count = 1;
    parser.parameters = &conn; parser.method = HTTP_GET;
    set_handler_file(&http);
}
/* the end of a response: handler put away once, then closed or released */
static void ended(int keep) {
    VF_ASSERT(unset_calls == 1 && http.http_handler == NULL, "the handler is put away once");
    VF_ASSERT(keep ? (released == 1 && closed == 0) : (closed == 1 && released == 0), "the connection is kept or closed as negotiated");
    VF_ASSERT(vf_open_files == 0, "the file is closed");
}
#if MODE == 1
static void body(size_t first, size_t last, int there, size_t actual, int keep, size_t stop) {
    struct handler_file_context_t *c;
    size_t want = last - first + 1, steps = 0, have;
    setup();
    c = (struct handler_file_context_t *) parser.context;
    c->file_path_d[0] = '/'; c->file_path_d[1] = 'f'; c->file_path_d[2] = 0;
    c->initial_byte = first; c->final_byte = last;
    c->flags = keep ? (unsigned char) (vf_u8() | FLAG_KEEP_ALIVE) : (unsigned char) (vf_u8() & ~FLAG_KEEP_ALIVE);
    exists = there;
    vf_disk[0].data = disk; vf_disk[0].size = actual; vf_disk[0].cap = sizeof(disk);
    have = actual <= first ? 0 : actual - first < want ? actual - first : want;
    if(!there) { have = 0; }
    _send_chunk_handler_file(&conn, NULL, c);
    while(pending != NULL) {
        connection_data_callback cb = pending;
        VF_ASSERT(cb == _send_chunk_handler_file && pending_parameters == c, "the rest of the file follows");
        VF_ASSERT(last_size > 0 && sent_size + last_size <= have, "no more than what is selected is sent");
        for(unsigned i = 0; i < last_size; i++) { VF_ASSERT(last_data[i] == disk[first + sent_size + i], "the bytes are those of the file"); }
        sent_size += last_size;
        free(last_data);
        pending = NULL;
        if(++steps == stop) {
            /* the connection went away in the middle */
            http.http_handler->unset(&http);
            VF_ASSERT(vf_open_files == 0, "the file is closed with the connection");
            VF_REACH("went away");
            return;
        }
        cb(&conn, NULL, c);
    }
    VF_ASSERT(sent_size == have, "every selected byte is sent");
    ended(keep && have == want);
    VF_REACH("complete");
}
void harness(void) {
    for(size_t i = 0; i < sizeof(disk); i++) { disk[i] = vf_u8(); }
    /* every range of every file up to SIZE bytes, whole and cut short */
    for(size_t n = 1; n <= SIZE; n++) { for(size_t a = 0; a < n; a++) { for(size_t b = a; b < n; b++) { body(a, b, 1, n, (int) (a & 1), 0); } } }
    body(0, (size_t) -1, 1, 0, 1, 0);
    body(0, (size_t) -1, 1, 0, 0, 0);
    body(0, SIZE - 1, 1, SIZE, 1, 0);
    body(0, SIZE - 1, 1, SIZE, 0, 0);
    /* the file is gone, or shorter than it was announced */
    body(0, SIZE - 1, 0, 0, 1, 0);
    for(size_t n = 0; n < SIZE; n++) { body(0, SIZE - 1, 1, n, 1, 0); body(1, SIZE - 1, 1, n, 1, 0); }
    /* the client goes away after the first or the second piece */
    body(0, SIZE - 1, 1, SIZE, 1, 1);
    body(0, SIZE - 1, 1, SIZE, 0, 2);
}
#endif

#if MODE == 2
static const char *vf_mime(struct service_t *v, char *e) { VF_ASSERT(v == &serv, "the service"); return MIMES; }
static int has(const char *text, const char *what) { return strstr(text, what) != NULL; }
static int same_text(const char *a, const char *b) { size_t i = 0; while(a[i] != 0 && a[i] == b[i]) { i++; } return a[i] == b[i]; }
static void situation(unsigned bits) {
    struct handler_file_context_t *c;
    static char stamp[20], tag[16];
    setup();
    code_sent = realm = asked = terminated = 0;
    c = (struct handler_file_context_t *) parser.context;
    serv.get_mime_type = vf_mime;
    c->file_path_d[0] = '/'; c->file_path_d[1] = 'f'; c->file_path_d[2] = 0;
    /* the situation */
    exists = (bits & 3) != 0; folder = bits >> 1 & 1; granted = bits >> 2 & 1; in_range = bits >> 3 & 1;
    int keep = vf_bool(), slash = bits >> 4 & 1, protect = bits >> 5 & 1, credentials = bits >> 6 & 1, conditional = bits >> 7 & 1, ranged = bits >> 8 & 1;
    parser.flags = (unsigned char) (vf_u8() & ~FLAG_KEEP_ALIVE);
    if(keep) { parser.flags |= FLAG_KEEP_ALIVE; }
    vf_disk[0].size = SIZE;
    limit_first = FIRST; limit_last = LAST;
    /* the request, as the callbacks leave it */
    c->url[0] = '/'; c->url[1] = 'd'; c->url[2] = slash ? '/' : 'e'; c->url[3] = 0;
    c->url_d[0] = '/'; c->url_d[1] = 'd'; c->url_d[2] = c->url[2]; c->url_d[3] = 0;
#ifdef LONGEST
    /* the longest path and target there may be */
    for(size_t i = 2; i < sizeof(c->file_path_d) - 1; i++) { c->file_path_d[i] = 'x'; }
    c->file_path_d[sizeof(c->file_path_d) - 1] = 0;
    for(size_t i = 1; i < VIRIATUM_MAX_PATH_SIZE - 2; i++) { c->url_d[i] = 'x'; c->url[i] = 'x'; }
    c->url_d[VIRIATUM_MAX_PATH_SIZE - 2] = 0; c->url[VIRIATUM_MAX_PATH_SIZE - 2] = 0;
#endif
    c->auth_basic = protect ? (unsigned char *) "R" : NULL;
    c->auth_file = (unsigned char *) "p";

    SPRINTF(stamp, 20, "%04d-%02d-%02d %02d:%02d:%02d", 2020, 1, 2, 3, 4, 5);
    SPRINTF(tag, 11, "\"%08x\"", (unsigned int) crc_32((unsigned char *) stamp, 19));
    header_field_callback_handler_file(&parser, (const unsigned char *) "Host", 4);
    header_value_callback_handler_file(&parser, (const unsigned char *) "x", 1);
    if(credentials) { header_field_callback_handler_file(&parser, (const unsigned char *) "Authorization", 13); header_value_callback_handler_file(&parser, (const unsigned char *) "A", 1); }
    if(ranged) { header_field_callback_handler_file(&parser, (const unsigned char *) "Range", 5); header_value_callback_handler_file(&parser, (const unsigned char *) "r", 1); }
    int match = 0;
    if(conditional) {
        unsigned char mine[10];
#ifdef ANYTAG
        size_t at = vf_range(0, 9);
        unsigned char x = vf_u8();
#else
        size_t at = AT;
        unsigned char x = bits >> 9 & 1 ? 0 : 'x';
#endif
        for(size_t i = 0; i < 10; i++) { mine[i] = (unsigned char) tag[i]; if(i == at) { mine[i] ^= x; } }
        match = x == 0;
        header_field_callback_handler_file(&parser, (const unsigned char *) "If-None-Match", 13);
        header_value_callback_handler_file(&parser, mine, 10);
    }
    message_complete_callback_handler_file(&parser);
    VF_ASSERT(acquired == 1, "no other request is handled meanwhile");
    VF_ASSERT(wrote == 1 && code_sent != 0, "there is one response");
    VF_ASSERT(kept == keep, "the response announces what was negotiated");
    int allowed = !protect || (credentials && granted);
    int cb = kind;
    char *text = (char *) last_data;
    if(!exists) { VF_ASSERT(code_sent == 404 && cb == CLEANUP, "a missing file is answered with not found"); VF_REACH("404"); }
    else if(!allowed) { VF_ASSERT(code_sent == 401 && realm && cb == CLEANUP, "without a granted credential nothing is served"); VF_REACH("401"); }
    else if(folder && !slash) {
        VF_ASSERT(code_sent == 307 && cb == CLEANUP, "a folder without slash is redirected");
#ifndef LONGEST
        VF_ASSERT(same_text(text, "HContent-Length: 0\r\nLocation: /de/\r\n\r\n"), "the redirection is to the same path and a slash");
#endif
        VF_REACH("307");
    } else if(folder) {
        VF_ASSERT(code_sent == 200 && announced == 3 && terminated && cb == DATA, "a folder is listed");
        VF_REACH("list");
    } else if(match) { VF_ASSERT(code_sent == 304 && announced == 0 && terminated && cb == CLEANUP, "the current tag is answered with not modified"); VF_REACH("304"); }
    else if(ranged && in_range) {
        VF_ASSERT(code_sent == 206 && cb == CHUNK, "the range is served");
        VF_ASSERT(announced == limit_last - limit_first + 1, "the length is that of the range");
        VF_ASSERT(c->initial_byte == limit_first && c->final_byte == limit_last, "the bytes are those of the range");
        VF_ASSERT(!terminated && has(text, "Content-Range: bytes " RANGETEXT "\r\n\r\n"), "the range is announced");
        VF_REACH("206");
    } else {
        VF_ASSERT(code_sent == 200 && cb == CHUNK, "the file is served");
        VF_ASSERT(announced == vf_disk[0].size, "the length is that of the file");
        VF_ASSERT(c->initial_byte == 0 && c->final_byte + 1 == vf_disk[0].size, "the bytes are all of the file");
        VF_ASSERT(!terminated && has(text, "Accept-Ranges: bytes\r\nETag: ") && has(text, tag), "the tag is announced");
        VF_ASSERT(has(text, "\r\n\r\n"), "the headers end");
        VF_REACH("200");
    }
    VF_ASSERT(code_sent == 401 || code_sent == 404 || code_sent == 307 || allowed, "nothing of a protected place is served");
    VF_ASSERT(strlen(text) == last_size, "the headers are sent whole");
    /* and how it goes on, for those without file */
    free(last_data);
    pending = NULL;
    if(cb == DATA) {
        _send_data_handler_file(&conn, NULL, c);
        VF_ASSERT(wrote == 2 && last_size == 3 && last_data[0] == 'a' && last_data[2] == 'c' && kind == DATA, "the listing is the body");
        free(last_data);
        pending = NULL;
        _send_data_handler_file(&conn, NULL, c);
        VF_ASSERT(wrote == 2 && templates == 0, "the listing is sent once");
        ended(keep);
    } else if(cb == CLEANUP) { _cleanup_handler_file(&conn, NULL, c); ended(keep); }
    else { unset_handler_file(&http); }
}
void harness(void) {
    /* every situation under the mask */
    unsigned m = 0;
    do { situation(BITS | m); m = ((m | ~(unsigned) (MASK)) + 1) & (unsigned) (MASK); } while(m != 0);
}
#endif
