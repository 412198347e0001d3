/* C30: the path the file handler opens for a target.  Targets of N arbitrary
   bytes (after PREFIX), through the callbacks in the order the dispatcher
   uses; with LOC the location's folder is BASE and the offset is OFF. */
#include "vf.h"
#include "vf_file.h"
#include "viriatum/stdafx.h"
#include "viriatum/handlers/handlers.h"
#include "viriatum/stream/stream.h"
#ifndef BASE
#define BASE VF_WWW
#endif
#ifndef PREFIX
#define PREFIX ""
#endif
#ifndef SUFFIX
#define SUFFIX ""
#endif
/* inside: empty (no file), or the folder itself, or below it without ever
   leaving it */
static int inside(const unsigned char *p, const char *base, size_t limit) {
    size_t b = strlen(base), seg = 0;
    int depth = 0;
    if(p[0] == 0) { return 1; }
    for(size_t i = 0; i < b; i++) { if(p[i] != (unsigned char) base[i]) { return 0; } }
    if(p[b] != 0 && p[b] != '/' && (b == 0 || base[b - 1] != '/')) { return 0; }
    for(size_t i = b; i < limit; i++) {
        if(p[i] == '/' || p[i] == 0) {
            if(seg == 2 && p[i - 1] == '.' && p[i - 2] == '.') { depth--; }
            else if(seg > 1 || (seg == 1 && p[i - 1] != '.')) { depth++; }
            if(depth < 0) { return 0; }
            seg = 0;
            if(p[i] == 0) { return 1; }
        } else { seg++; }
    }
    return 0;
}
int vf_lookup(const char *path, int writing) { (void) path; (void) writing; return -1; }
void harness(void) {
    static struct http_parser_t parser;
    static struct connection_t connection;
    static struct io_connection_t io;
    static struct http_connection_t http;
    static struct http_handler_t handler;
    static struct file_handler_t files;
    static struct file_location_t location;
    static struct handler_file_context_t *c;
    unsigned char t[N + sizeof(PREFIX) + sizeof(SUFFIX)], *d;
    size_t n = 0, full = 0;
    for(size_t i = 0; i + 1 < sizeof(PREFIX); i++) { t[n++] = (unsigned char) PREFIX[i]; }
    for(size_t i = 0; i < N; i++) { t[n++] = vf_u8(); }
    for(size_t i = 0; i + 1 < sizeof(SUFFIX); i++) { t[n++] = (unsigned char) SUFFIX[i]; }
    /* what the parser lets through */
    for(size_t i = 0; i < n; i++) { vf_assume(t[i] != 0 && t[i] != ' ' && t[i] != '\r' && t[i] != '\n'); }
    d = vf_heap(t, n);
#ifdef SAFE
    create_handler_file_context(&c);
#else
    static struct handler_file_context_t context;
    c = &context;
    c->file_path_d[0] = 0;
#endif
    parser.method = HTTP_GET; parser.context = c; parser.parameters = &connection;
    connection.lower = &io; io.lower = &http;
    http.http_handler = &handler; handler.lower = &files;
    files.locations = &location; files.locations_count = 1;
#ifdef URL
    url_callback_handler_file(&parser, d, n);
    VF_ASSERT(inside(c->file_path_d, VF_WWW, VIRIATUM_MAX_PATH_SIZE), "the file is inside the contents folder");
#else
    path_callback_handler_file(&parser, d, n);
    VF_ASSERT(inside(c->file_path_d, VF_WWW, VIRIATUM_MAX_PATH_SIZE), "the file is inside the contents folder");
#endif
#ifdef LOC
    location.base_path = (unsigned char *) BASE;
    location_callback_handler_file(&parser, 0, OFF);
    VF_ASSERT(inside(c->file_path_d, BASE, VIRIATUM_MAX_PATH_SIZE), "the file is inside the folder of the location");
    full = strlen(BASE);
#else
    full = strlen(VF_WWW);
#endif
    if(c->file_path_d[0] == 0) { VF_REACH("no file"); }
    else { VF_REACH("a file"); }
    /* plain targets are served from the same place below the folder */
#ifdef TOOLONG
    VF_ASSERT(c->file_path_d[0] == 0, "targets that do not fit have no file");
    n = 0;
#endif
    int plain = n > 0 && t[0] == '/';
    for(size_t i = 1; i < n; i++) { plain = plain && (t[i] == '/' || t[i] == '-' || (t[i] >= 'a' && t[i] <= 'z')); }
    if(plain) {
#ifdef LOC
        size_t from = OFF;
        if(from < n && t[from] != '/') { VF_ASSERT(c->file_path_d[full] == '/', "separated from the folder"); full++; }
#else
        size_t from = 0;
#endif
        for(size_t i = from; i < n; i++) { VF_ASSERT(c->file_path_d[full + i - from] == t[i], "plain targets name the same path below the folder"); }
        VF_ASSERT(c->file_path_d[full + n - from] == 0, "plain targets name the same path below the folder");
        for(size_t i = 0; i < n; i++) { VF_ASSERT(c->url_d[i] == t[i], "the decoded target is shown"); }
    }
#ifdef SAFE
    delete_handler_file_context(c);
#endif
}
