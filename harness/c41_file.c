/* C41: files are read and written whole, or an error says that they were not;
   nothing stays open or allocated */
#include "vf.h"
#include "vf_file.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/io/io.h"
#ifndef N
#define N 5
#endif
static int exists, path_seen;
int vf_lookup(const char *p, int w) { (void) w; VF_ASSERT(p[0] == 'd' && p[1] == '/' && p[2] == 'f' && p[3] == 0, "the named file is opened"); path_seen++; return exists ? 0 : -1; }
#ifdef __CPROVER__
#undef malloc
void *vf_malloc(size_t n) {
    if(n > N + 4) { return NULL; }
    for(size_t k = 0; k <= N + 4; k++) { if(n == k) { return malloc(k); } }
    return NULL;
}
#undef memset
void *vf_zero(void *p, int c, size_t n) { return memset(p, c, n); }
#endif
void harness(void) {
    static unsigned char disk[N + 2], data[N + 2], was[N + 2];
    vf_disk[0].data = disk; vf_disk[0].cap = N + 1;
    exists = vf_bool();
#if MODE == 1
    /* reading and counting: any content, a read may give less, the file may be missing or have no size */
    unsigned char *b = (unsigned char *) &exists;
    size_t n = N + 7, c = N + 7, size = vf_range(0, N);
    vf_fill(disk, N + 2);
    vf_disk[0].size = size;
    vf_read_limit = vf_range(0, N + 1);
    vf_unseekable = vf_bool();
    ERROR_CODE e = read_file((char *) "d/f", &b, &n);
    VF_ASSERT(path_seen == 1 && vf_open_files == 0, "the file is opened once and closed");
    int good = exists && !vf_unseekable && vf_read_limit >= size;
    VF_ASSERT((int) !IS_ERROR_CODE(e) == good, "a file is read exactly if all of it can be read");
    if(!IS_ERROR_CODE(e) && good) {
        VF_ASSERT(n == size, "the size is that of the file");
        for(size_t i = 0; i < size; i++) { VF_ASSERT(b[i] == disk[i], "the content is that of the file"); }
        if(size == N) { VF_REACH("read"); }
        if(size == 0) { VF_REACH("empty"); }
        free(b);
    } else { VF_REACH("not read"); }
    e = count_file((char *) "d/f", &c);
    VF_ASSERT(path_seen == 2 && vf_open_files == 0, "the file is closed again");
    VF_ASSERT((int) !IS_ERROR_CODE(e) == (exists && !vf_unseekable), "a file is counted if it can be");
    if(!IS_ERROR_CODE(e)) { VF_ASSERT(c == size, "counting gives the length"); VF_REACH("counted"); }
#elif MODE == 2
    /* writing over a file of any size, on a disk that may be full, and reading back */
    size_t size = vf_range(0, N), n = 0;
    unsigned char *b = NULL;
    vf_fill(data, N + 2); vf_fill(disk, N + 2);
    for(size_t i = 0; i < N + 2; i++) { was[i] = data[i]; }
    vf_disk[0].size = vf_range(0, N);
    vf_disk[0].cap = vf_range(0, N + 1);
    vf_close_result = vf_bool() ? -1 : 0;
    ERROR_CODE e = write_file((char *) "d/f", data, size);
    VF_ASSERT(path_seen == 1 && vf_open_files == 0, "the file is opened once and closed");
    int good = exists && vf_disk[0].cap >= size && vf_close_result == 0;
    VF_ASSERT((int) !IS_ERROR_CODE(e) == good, "writing succeeds exactly if all of it could be written");
    for(size_t i = 0; i < N + 2; i++) { VF_ASSERT(data[i] == was[i], "what is written stays as it is"); }
    if(!IS_ERROR_CODE(e)) {
        e = read_file((char *) "d/f", &b, &n);
        VF_ASSERT(!IS_ERROR_CODE(e) && n == size, "what was written can be read, with its length");
        if(!IS_ERROR_CODE(e)) {
            for(size_t i = 0; i < size; i++) { VF_ASSERT(b[i] == data[i], "and is the same"); }
            free(b);
        }
        VF_REACH("written");
    } else { VF_REACH("not written"); }
#else
    /* joining: any folder and name without separators at its start, in a buffer that just fits */
    static const int lengths[] = {0, 1, 2, N};
    for(int i = 0; i < 4; i++) { for(int j = 0; j < 4; j++) {
        size_t a = (size_t) lengths[i], b = (size_t) lengths[j], k, at = 0;
        char *base = (char *) malloc(a + 1), *name = (char *) malloc(b + 1), *out;
        for(k = 0; k < a; k++) { base[k] = (char) vf_u8(); vf_assume(base[k] != 0); }
        for(k = 0; k < b; k++) { name[k] = (char) vf_u8(); vf_assume(name[k] != 0); }
        base[a] = 0; name[b] = 0;
        int sep = a > 0 && base[a - 1] == '/';
        if(sep) { out = (char *) malloc(a + b + 1); } else { out = (char *) malloc(a + b + 2); }
        ERROR_CODE e = join_path_file(base, name, out);
        VF_ASSERT(!IS_ERROR_CODE(e), "joining succeeds");
        for(k = 0; k < a; k++) { VF_ASSERT(out[at] == base[k], "the folder comes first"); at++; }
        if(!sep) { VF_ASSERT(out[at] == '/', "one separator"); at++; }
        for(k = 0; k < b; k++) { VF_ASSERT(out[at] == name[k], "the name follows"); at++; }
        VF_ASSERT(out[at] == 0, "the path ends");
        if(sep) { VF_REACH("separated"); } else { VF_REACH("joined"); }
        free(base); free(name); free(out);
    } }
#endif
    VF_REACH("end");
}
