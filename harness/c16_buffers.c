/* string buffer and linked buffer: appended pieces, joined, appended more,
   joined again */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/structures/structures.h"
#define MAX 16
static unsigned char want[MAX];
static size_t wn;
static unsigned char *piece(size_t n) {
    unsigned char b[4];
    vf_fill(b, n);
    for(size_t i = 0; i < n; i++) { want[wn++] = b[i]; }
    return vf_heap(b, n);
}
static unsigned char *text(const char *s) {
    size_t n = strlen(s);
    unsigned char *p = (unsigned char *) malloc(n + 1);
    for(size_t i = 0; i <= n; i++) { p[i] = (unsigned char) s[i]; if(i < n) { want[wn++] = (unsigned char) s[i]; } }
    return p;
}
static void strings(const char *script) {
    struct string_buffer_t *b;
    struct string_t st;
    unsigned char *out = NULL, *keep[MAX], *sent[MAX];
    size_t kn = 0, sn = 0;
    wn = 0;
    create_string_buffer(&b);
    for(const char *p = script; *p; p++) {
        switch(*p) {
            case '0': keep[kn] = piece(0); append_string_l_buffer(b, keep[kn++], 0); break;
            case '1': keep[kn] = piece(1); append_string_l_buffer(b, keep[kn++], 1); break;
            case '2': keep[kn] = piece(2); append_string_l_buffer(b, keep[kn++], 2); break;
            case 'o': _append_string_l_buffer(b, piece(2), 2); break;
            case 't': keep[kn] = piece(3); st.buffer = keep[kn++]; st.length = 3; append_string_t_buffer(b, &st); break;
            case 'T': st.buffer = piece(1); st.length = 1; _append_string_t_buffer(b, &st); break;
            case 's': keep[kn] = text("ab"); append_string_buffer(b, keep[kn++]); break;
            case 'S': _append_string_buffer(b, text("c")); break;
            case 'e': keep[kn] = text(""); append_string_buffer(b, keep[kn++]); break;
            case 'j':
                join_string_buffer(b, &out);
                VF_ASSERT(b->string_length == wn, "length is the total of the pieces");
                for(size_t i = 0; i < wn; i++) { VF_ASSERT(out[i] == want[i], "join is the concatenation of the pieces"); }
                VF_ASSERT(out[wn] == 0, "join is terminated");
                free(out);
                break;
        }
    }
    delete_string_buffer(b);
    (void) sent; (void) sn;
    /* pieces that were not handed over still belong to the caller */
    for(size_t i = 0; i < kn; i++) { free(keep[i]); }
}
static void buffers(const char *script) {
    struct linked_buffer_t *b;
    unsigned char *out = NULL, *keep[MAX];
    size_t kn = 0;
    wn = 0;
    create_linked_buffer(&b);
    for(const char *p = script; *p; p++) {
        switch(*p) {
            case '0': keep[kn] = piece(0); append_linked_buffer(b, keep[kn++], 0, 0); break;
            case '1': keep[kn] = piece(1); append_linked_buffer(b, keep[kn++], 1, 0); break;
            case '2': keep[kn] = piece(2); append_linked_buffer(b, keep[kn++], 2, 0); break;
            case 'o': append_linked_buffer(b, piece(2), 2, 1); break;
            case 'O': _append_linked_buffer(b, piece(3), 3); break;
            case 'j':
                join_linked_buffer(b, &out);
                VF_ASSERT(b->buffer_length == wn, "length is the total of the pieces");
                for(size_t i = 0; i < wn; i++) { VF_ASSERT(out[i] == want[i], "join is the concatenation of the pieces"); }
                free(out);
                break;
        }
    }
    delete_linked_buffer(b);
    for(size_t i = 0; i < kn; i++) { free(keep[i]); }
}
void harness(void) {
    static char s[][12] = { SSCRIPTS };
    static char l[][12] = { LSCRIPTS };
    for(size_t i = 0; i < sizeof(s) / sizeof(s[0]); i++) { strings(s[i]); }
    for(size_t i = 0; i < sizeof(l) / sizeof(l[0]); i++) { buffers(l[i]); }
    VF_REACH("end");
}
