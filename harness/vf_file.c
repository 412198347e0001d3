#include "vf.h"
#include "vf_file.h"
struct vf_disk_t vf_disk[4];
int vf_open_files;
int vf_unseekable, vf_close_result;
size_t vf_read_limit = (size_t) -1, vf_write_limit = (size_t) -1;
struct vf_handle { int used, index, writing, eof; size_t pos; };
static struct vf_handle vf_handles[4];
static struct vf_handle *vf_of(FILE *f) {
    struct vf_handle *h = (struct vf_handle *) (void *) f;
    VF_ASSERT(h != NULL && h->used == 1, "file operations are on open files");
    return h;
}
FILE *vf_fopen(const char *p, const char *m) {
    int w = m[0] != 'r', i = vf_lookup(p, w), k;
    if(i < 0) { return NULL; }
    for(k = 0; k < 4; k++) { if(vf_handles[k].used == 0) { break; } }
    VF_ASSERT(k < 4, "model: few files at once");
    if(k >= 4) { return NULL; }
    vf_handles[k].used = 1; vf_handles[k].index = i; vf_handles[k].writing = w; vf_handles[k].pos = 0; vf_handles[k].eof = 0;
    if(m[0] == 'w') { vf_disk[i].size = 0; }
    if(m[0] == 'a') { vf_handles[k].pos = vf_disk[i].size; }
    vf_open_files++;
    return (FILE *) (void *) &vf_handles[k];
}
int vf_fclose(FILE *f) { struct vf_handle *h = vf_of(f); h->used = 0; vf_open_files--; return h->writing ? vf_close_result : 0; }
size_t vf_fread(void *b, size_t s, size_t n, FILE *f) {
    struct vf_handle *h = vf_of(f);
    struct vf_disk_t *d = &vf_disk[h->index];
    size_t k = 0, want = s * n;
    unsigned char *o = (unsigned char *) b;
    while(k < want && k < vf_read_limit && h->pos < d->size) { o[k++] = d->data[h->pos++]; }
    if(k < want && h->pos >= d->size) { h->eof = 1; }
    return s == 0 ? 0 : s == 1 ? k : k / s;
}
size_t vf_fwrite(const void *b, size_t s, size_t n, FILE *f) {
    struct vf_handle *h = vf_of(f);
    struct vf_disk_t *d = &vf_disk[h->index];
    size_t k = 0, want = s * n;
    const unsigned char *o = (const unsigned char *) b;
    VF_ASSERT(h->writing, "writes go to files open for writing");
    while(k < want && k < vf_write_limit && h->pos < d->cap) { d->data[h->pos++] = o[k++]; if(h->pos > d->size) { d->size = h->pos; } }
    return s == 0 ? 0 : s == 1 ? k : k / s;
}
int vf_fseeko(FILE *f, off_t o, int w) {
    struct vf_handle *h = vf_of(f);
    long base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long) h->pos : (long) vf_disk[h->index].size;
    if(vf_unseekable || base + o < 0) { return -1; }
    h->pos = (size_t) (base + o); h->eof = 0;
    return 0;
}
int vf_fseek(FILE *f, long o, int w) { return vf_fseeko(f, o, w); }
long vf_ftell(FILE *f) { return vf_unseekable ? -1 : (long) vf_of(f)->pos; }
off_t vf_ftello(FILE *f) { return vf_unseekable ? -1 : (off_t) vf_of(f)->pos; }
int vf_feof(FILE *f) { return vf_of(f)->eof; }
int vf_ferror(FILE *f) { vf_of(f); return 0; }
void vf_rewind(FILE *f) { vf_fseek(f, 0, SEEK_SET); }
int vf_getc(FILE *f) {
    struct vf_handle *h = vf_of(f);
    struct vf_disk_t *d = &vf_disk[h->index];
    if(h->pos >= d->size) { h->eof = 1; return -1; }
    return d->data[h->pos++];
}
int vf_fputc(int c, FILE *f) { unsigned char x = (unsigned char) c; return vf_fwrite(&x, 1, 1, f) == 1 ? x : -1; }
char *vf_fgets(char *b, int n, FILE *f) {
    int k = 0, c = 0;
    while(k + 1 < n) {
        c = vf_getc(f);
        if(c < 0) { break; }
        b[k++] = (char) c;
        if(c == '\n') { break; }
    }
    if(k == 0) { return NULL; }
    b[k] = 0;
    return b;
}
