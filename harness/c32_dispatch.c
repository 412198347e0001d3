/* C32: which handler gets a request and what it is told.
   The regular expression engine is a contract: for the path (as asked, and
   with the index file) every location matches or not, with any end.
   TARGETS: {path, query} texts, 'x' in a path is an arbitrary byte.
   Every end of a match up to ENDS is tried. INDEX: which index file exists (-1 none). */
#include "vf.h"
#include "viriatum/stdafx.h"
#include "viriatum/handlers/handlers.h"
#include "viriatum/stream/stream.h"
#ifndef ENDLO
#define ENDLO 0
#endif
#define NLOC 3
#define MAXT VIRIATUM_MAX_URL_SIZE
static struct http_parser_t parser;
static struct http_settings_t settings;
static struct connection_t conn;
static struct io_connection_t io;
static struct http_connection_t http;
static struct service_t serv;
static struct service_options_t options;
static struct http_handler_t dispatch, handlers[2];
static struct dispatch_handler_t d;
static unsigned char *names[NLOC] = { (unsigned char *) "one", (unsigned char *) "file", (unsigned char *) "gone" };
static pcre *regex[NLOC];
static char regexes[NLOC];
static int verdict[2][NLOC], asked[2], which_index, unset_calls, set_calls[2], calls;
static size_t ends[2][NLOC], path_size, full_size, query_at, target_size;
static unsigned char target[MAXT + 8], full[MAXT + 64];
void (*pcre_free)(void *);
pcre *pcre_compile(const char *p, int o, const char **e, int *eo, const unsigned char *t) { (void) p; (void) o; (void) e; (void) eo; (void) t; return NULL; }
static void same(const unsigned char *a, const unsigned char *b, size_t n, const char *what) { (void) what; for(size_t i = 0; i < n; i++) { VF_ASSERT(a[i] == b[i], "the bytes given are those of the target"); } }
int pcre_exec(const pcre *r, const pcre_extra *x, const char *subject, int n, int start, int opt, int *offsets, int no) {
    int resolved = (size_t) n != path_size, k = 0;
    while(k < NLOC && (const void *) r != (const void *) regex[k]) { k++; }
    VF_ASSERT(k < NLOC && x == NULL && start == 0 && opt == 0 && no == 3, "a location of the table is tried");
    VF_ASSERT((size_t) n == (resolved ? full_size : path_size), "the whole path is matched");
    same((const unsigned char *) subject, full, (size_t) n, "subject");
    asked[resolved]++;
    VF_ASSERT(k + 1 == asked[resolved], "locations are tried in order");
    if(verdict[resolved][k] < 0) { return verdict[resolved][k]; }
    offsets[0] = 0;
    offsets[1] = (int) ends[resolved][k];
    return verdict[resolved][k];
}
int vf_access(const char *p, int m) {
    static int k;
    (void) m;
    (void) p;
    k = calls++;
    /* the slots are probed in order */
    return k == which_index ? 0 : -1;
}
static int text_is(const unsigned char *a, const char *b) { size_t i = 0; while(b[i] != 0 && a[i] == (unsigned char) b[i]) { i++; } return a[i] == (unsigned char) b[i]; }
void get_value_string_hash_map(struct hash_map_t *m, unsigned char *key, void **v) {
    (void) m;
    *v = text_is(key, "one") ? (void *) &handlers[0] : text_is(key, "file") ? (void *) &handlers[1] : NULL;
}
/* ---- the handlers: record what they are told */
static int began, got_url, got_path, got_location, got_virtual, chosen;
static ERROR_CODE on_begin(struct http_parser_t *p) { VF_ASSERT(p == &parser && !got_url, "the request begins"); began++; RAISE_NO_ERROR; }
static ERROR_CODE on_url(struct http_parser_t *p, const unsigned char *x, size_t n) {
    VF_ASSERT(p == &parser && began == 1 && n == target_size, "the whole target is given");
    same(x, target, n, "url");
    got_url++;
    RAISE_NO_ERROR;
}
static size_t path_given_size;
static ERROR_CODE on_path(struct http_parser_t *p, const unsigned char *x, size_t n) {
    VF_ASSERT(p == &parser && got_url == 1, "the path follows the url");
    got_path++;
    path_given_size = n;
    VF_ASSERT(n == path_size || n == full_size, "the path is without query");
    same(x, full, n, "path");
    RAISE_NO_ERROR;
}
static size_t location_index, location_offset;
static ERROR_CODE on_location(struct http_parser_t *p, size_t i, size_t o) { VF_ASSERT(p == &parser && got_path == 1, "the location follows the path"); got_location++; location_index = i; location_offset = o; RAISE_NO_ERROR; }
static ERROR_CODE on_virtual(struct http_parser_t *p, const unsigned char *x, size_t n) {
    VF_ASSERT(p == &parser && got_location == 1, "the rest follows the location");
    got_virtual++;
    VF_ASSERT(location_offset <= path_given_size && n == path_given_size - location_offset + (target_size - query_at), "the rest is that of the target");
#ifdef BYTES
    for(size_t i = 0; i < path_given_size + (target_size - query_at); i++) {
        if(i < location_offset) { continue; }
        VF_ASSERT(x[i - location_offset] == (i < path_given_size ? full[i] : target[query_at + i - path_given_size]), "the rest is that of the target");
    }
#endif
    RAISE_NO_ERROR;
}
static ERROR_CODE do_unset(struct http_connection_t *c) { VF_ASSERT(c == &http, "the connection"); unset_calls++; RAISE_NO_ERROR; }
static ERROR_CODE do_set(struct http_connection_t *c) {
    VF_ASSERT(c == &http && unset_calls == 1, "the handler is installed after the dispatcher left");
    set_calls[0]++;
    settings.on_message_begin = on_begin; settings.on_url = on_url; settings.on_path = on_path; settings.on_location = on_location; settings.on_virtual_url = on_virtual;
    RAISE_NO_ERROR;
}
static int first(int r) { for(int k = 0; k < NLOC; k++) { if(verdict[r][k] >= 0) { return k; } } return NLOC; }
/* 0: "one", 1: "file", -1: missing */
static int owner(int k) { return k == NLOC ? 1 : k == 0 ? 0 : k == 1 ? 1 : -1; }
static void one(const char *path, const char *query, int index, int resolve, int with_index, size_t end, int match0, int match1) {
    static const char *files[2] = { "i", "in.h" };
    unsigned char *data;
    target_size = 0;
    for(size_t i = 0; path[i] != 0; i++) { unsigned char v = path[i] == 'x' ? vf_u8() : (unsigned char) path[i]; if(path[i] == 'x') { vf_assume(v != '?' && v != '/'); } target[target_size++] = v; }
    path_size = query_at = target_size;
    for(size_t i = 0; query[i] != 0; i++) { target[target_size++] = i == 0 ? '?' : vf_u8(); }
    for(size_t i = 0; i < path_size; i++) { full[i] = target[i]; }
    full_size = path_size;
    if(index >= 0) { for(size_t i = 0; files[index][i] != 0; i++) { full[full_size++] = (unsigned char) files[index][i]; } }
    for(int r = 0; r < 2; r++) { asked[r] = 0; for(int k = 0; k < NLOC; k++) {
#ifdef BYTES
        verdict[r][k] = k < (r ? match1 : match0) ? -1 : k;
#else
        verdict[r][k] = (int) vf_range(0, 3) - 2;
#endif
        ends[r][k] = end < (r ? full_size : path_size) ? end : (r ? full_size : path_size);
    } }
    which_index = index; unset_calls = calls = set_calls[0] = 0;
    began = got_url = got_path = got_location = got_virtual = 0;
    options.default_index = (unsigned char) with_index;
    handlers[1].resolve_index = (char) resolve;
    settings.on_message_begin = NULL;
    http.http_handler = &dispatch;
    data = vf_heap(target, target_size);
    url_callback_handler_dispatch(&parser, data, target_size);
    int k = first(0), h = owner(k), r = 0;
    int asks_folder = path_size == 0 || path[path_size - 1] == '/';
    if(h == 1 && resolve && with_index && asks_folder && index >= 0) { r = 1; k = first(1); h = owner(k); }
    if(h < 0) {
        VF_ASSERT(http.http_handler == &dispatch && set_calls[0] == 0 && unset_calls == 0, "without handler the request stays with the dispatcher");
        VF_REACH("no handler");
    } else {
        VF_ASSERT(http.http_handler == &handlers[h], "the handler is that of the first location that matches");
        VF_ASSERT(set_calls[0] == 1 && unset_calls == 1 && began == 1 && got_url == 1 && got_path == 1, "the handler is told once");
        VF_ASSERT(path_given_size == (r ? full_size : path_size), "the path is that of the file to serve");
        if(k < NLOC) {
            size_t e = ends[r][k];
            if(e > 0 && full[e - 1] == '/') { e--; }
            VF_ASSERT(got_location == 1 && got_virtual == 1, "the location is told");
            VF_ASSERT(location_index == (size_t) k && location_offset == e, "the location is the one that matched, and where it ended");
            VF_REACH("location");
        } else { VF_ASSERT(got_location == 0 && got_virtual == 0, "without location none is told"); VF_REACH("default"); }
        if(r) { VF_REACH("index"); }
    }
    free(data);
}
#ifdef BYTES
#define ONE(p, q, w, e) for(int m = 0; m <= 15; m++) { if(!(0x2e3b >> m & 1)) { continue; } one(p, q, INDEX, RESOLVE, w, e, m & 3, m >> 2); }
#else
#define ONE(p, q, w, e) one(p, q, INDEX, RESOLVE, w, e, 0, 0);
#endif
void harness(void) {
    for(int k = 0; k < NLOC; k++) { regex[k] = (pcre *) &regexes[k]; }
    d.regex = regex; d.names = names; d.regex_count = NLOC;
    dispatch.lower = &d; dispatch.unset = do_unset;
    for(int k = 0; k < 2; k++) { handlers[k].set = do_set; handlers[k].unset = do_unset; }
    parser.parameters = &conn; conn.lower = &io; conn.service = &serv; io.lower = &http; io.connection = &conn;
    http.http_parser = &parser; http.http_settings = &settings;
    serv.options = &options;
    options.index[0][0] = 'i'; options.index[1][0] = 'i'; options.index[1][1] = 'n'; options.index[1][2] = '.'; options.index[1][3] = 'h';
#ifdef LONGEST
    /* too long for the buffers: nothing is selected, nothing is touched */
    static unsigned char t[MAXT + 8];
    for(size_t n = MAXT - 140; n < sizeof(t); n += 20) {
        unsigned char *data;
        t[n - 1] = '/';
        target_size = query_at = path_size = full_size = n;
        data = vf_heap(t, n);
        data[0] = 'a';
        for(size_t i = 0; i < n; i++) { target[i] = full[i] = data[i]; }
        for(int k = 0; k < NLOC; k++) { verdict[0][k] = (int) vf_range(0, 2) - 2; verdict[1][k] = -1; ends[0][k] = n - (size_t) k; }
        asked[0] = asked[1] = 0; which_index = -1; unset_calls = set_calls[0] = calls = 0;
        began = got_url = got_path = got_location = got_virtual = 0;
        options.default_index = 1; handlers[1].resolve_index = 1;
        http.http_handler = &dispatch;
        url_callback_handler_dispatch(&parser, data, n);
        VF_ASSERT(http.http_handler == &dispatch ? unset_calls == 0 : unset_calls == 1 && got_path == 1, "served or left alone");
        free(data);
    }
    VF_REACH("long");
#else
    static const char *const targets[][2] = { TARGETS };
    for(size_t i = 0; i < sizeof(targets) / sizeof(targets[0]); i++) { for(size_t e = ENDLO; e <= ENDS; e++) { ONE(targets[i][0], targets[i][1], 1, e) } }
    ONE("/", "", 0, 1)
#endif
}
