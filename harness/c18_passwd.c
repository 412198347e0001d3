/* C18: password files.  The file is PREFIX + N arbitrary bytes + SUFFIX; the
   pairs are compared with those a separate reading of the text gives */
#include "vf.h"
#include "vf_file.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/structures/structures.h"
#include "viriatum_commons/formats/formats.h"
#include "vf_map.h"
#ifndef PREFIX
#define PREFIX ""
#endif
#ifndef SUFFIX
#define SUFFIX ""
#endif
#define FULL (N + sizeof(PREFIX) + sizeof(SUFFIX) - 2)
#ifdef __CPROVER__
#undef malloc
void *vf_malloc(size_t n) {
#if defined(SAFE)
    for(size_t k = 0; k < FULL + 2; k++) { if(n == k) { return malloc(k); } }
    VF_ASSERT(0, "model: small objects");
#endif
    return malloc(FULL + 2);
}
#undef memset
void *vf_zero(void *p, int c, size_t n) { return memset(p, c, n); }
#endif
int vf_lookup(const char *path, int writing) { VF_ASSERT(!writing && path[0] == 'f', "the file is read"); return 0; }
void harness(void) {
    unsigned char t[FULL + 1];
    size_t n = 0, count = 0, lines = 0;
    struct hash_map_t *m = NULL;
    struct { size_t u, ue, p, pe; int on; } pair[FULL + 2];
    for(size_t i = 0; i + 1 < sizeof(PREFIX); i++) { t[n++] = (unsigned char) PREFIX[i]; }
    for(size_t i = 0; i < N; i++) { t[n++] = vf_u8(); }
    for(size_t i = 0; i + 1 < sizeof(SUFFIX); i++) { t[n++] = (unsigned char) SUFFIX[i]; }
    /* text, so no null bytes */
    for(size_t i = 0; i < n; i++) { vf_assume(t[i] != 0); }
#ifdef OTHER
    for(size_t i = 0; i < n; i++) { if(i % OTHER) { vf_assume(t[i] != ':' && t[i] != '\n'); } }
#endif
    vf_disk[0].data = t; vf_disk[0].size = n; vf_disk[0].cap = n;
    ERROR_CODE e = process_passwd_file((char *) "f", &m);
    VF_ASSERT(!IS_ERROR_CODE(e) && m != NULL, "a file that can be read gives pairs");
    VF_ASSERT(vf_open_files == 0, "the file is closed");
    if(IS_ERROR_CODE(e)) { return; }
#ifdef LONG
    void *v = NULL;
    vf_assume(t[sizeof(PREFIX) - 1] != ':' && t[sizeof(PREFIX) - 1] != '\n');
    get_value_string_hash_map(m, (unsigned char *) "b", &v);
    VF_ASSERT(v != NULL && ((unsigned char *) v)[0] == t[sizeof(PREFIX) - 1] && ((char *) v)[1] == 0, "a long line does not change the next one");
    VF_ASSERT(vf_pairs_count == 1 + LONG, "users that do not fit are left out");
    VF_REACH("end");
    return;
#endif
    /* the separate reading: lines, split at the first and the second colon */
    t[n] = '\n';
    size_t from = 0, c1 = 0, c2 = 0; int colons = 0;
    for(size_t i = 0; i <= n; i++) {
        if(t[i] == '\n') {
            pair[lines].on = colons > 0 && c1 - from < 128;
            pair[lines].u = from; pair[lines].ue = c1; pair[lines].p = c1 + 1; pair[lines].pe = colons > 1 ? c2 : i;
            lines++;
            from = i + 1; colons = 0;
        } else if(t[i] == ':') {
            if(colons == 0) { c1 = i; }
            if(colons == 1) { c2 = i; }
            colons++;
        }
    }
    /* a later line of the same user replaces the former */
    for(size_t a = 0; a < FULL + 1; a++) { for(size_t b = a + 1; b < FULL + 1; b++) {
        if(b < lines && pair[a].on && pair[b].on && pair[a].ue - pair[a].u == pair[b].ue - pair[b].u) {
            int same = 1;
            for(size_t i = 0; i < FULL; i++) { if(i < pair[a].ue - pair[a].u && t[pair[a].u + i] != t[pair[b].u + i]) { same = 0; } }
            if(same) { pair[a].on = 0; }
        }
    } }
    for(size_t a = 0; a < FULL + 1; a++) { if(a < lines && pair[a].on) {
        int found = 0;
        count++;
        for(size_t k = 0; k < VF_PAIRS; k++) { if(k < vf_pairs_count) {
            int same = vf_pairs[k].key[pair[a].ue - pair[a].u] == 0;
            for(size_t i = 0; i < FULL; i++) { if(i < pair[a].ue - pair[a].u && vf_pairs[k].key[i] != t[pair[a].u + i]) { same = 0; } }
            if(same) {
                unsigned char *v = (unsigned char *) vf_pairs[k].value;
                size_t l = pair[a].pe - pair[a].p;
                found = 1;
                for(size_t i = 0; i < FULL; i++) { if(i < l) { VF_ASSERT(v[i] == t[pair[a].p + i], "the password is the one of the line"); } }
                VF_ASSERT(v[l] == 0, "the password is the one of the line");
            }
        } }
        VF_ASSERT(found, "every line with a user is there");
    } }
    VF_ASSERT(vf_pairs_count == count, "nothing else is there");
    if(count > 1) { VF_REACH("two users"); }
    delete_values_hash_map(m);
    delete_hash_map(m);
#if defined(SAFE)
    VF_REACH("end");
#endif
}
