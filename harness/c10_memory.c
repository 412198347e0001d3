/* memory stream against a growable file: histories of writes, reads and seeks
   with arbitrary data; buffer increments are scaled down */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/stream/stream.h"
#define MAX 24
static unsigned char file[MAX];
static size_t fsize, fpos;
/* w<digit> writes, r<digit> reads, s<digit> seeks (a for 10, b for 11, ...), o reopens */
static size_t num(char c) { return c >= 'a' ? (size_t) (c - 'a' + 10) : (size_t) (c - '0'); }
static void history(const char *p) {
    struct memory_stream_t *m;
    struct stream_t *s;
    fsize = fpos = 0;
    create_memory_stream(&m);
    s = get_stream_memory_stream(m);
    s->open(s);
    for(; *p; p += 2) {
        size_t n = num(p[1]), k, r;
        unsigned char *b, d[MAX];
        switch(p[0]) {
            case 'w':
                vf_fill(d, n);
                b = vf_heap(d, n);
                r = s->write(s, b, n);
                VF_ASSERT(r == n, "a write takes everything");
                for(size_t i = fsize; i < fpos && n > 0; i++) { file[i] = 0; }
                for(size_t i = 0; i < n; i++) { VF_ASSERT(b[i] == d[i], "a write leaves its data alone"); file[fpos + i] = d[i]; }
                if(n > 0) { fpos += n; if(fpos > fsize) { fsize = fpos; } }
                free(b);
                break;
            case 'r':
                for(size_t i = 0; i < n; i++) { d[i] = 0xa5; }
                b = vf_heap(d, n);
                k = fpos >= fsize ? 0 : fsize - fpos < n ? fsize - fpos : n;
                r = s->read(s, b, n);
                VF_ASSERT(r == k, "a read yields what is left, up to the size asked");
                for(size_t i = 0; i < n; i++) { VF_ASSERT(b[i] == (i < k ? file[fpos + i] : 0xa5), "a read yields the bytes last written there"); }
                fpos += k;
                free(b);
                break;
            case 's': s->seek(s, n); fpos = n; break;
            case 'f': s->flush(s); break;
            case 'o': s->close(s); s->open(s); fsize = fpos = 0; break;
        }
        VF_ASSERT(s->size(s) == fsize, "size is the end of the last byte written");
        VF_ASSERT(s->tell(s) == fpos, "position advances by the bytes transferred");
    }
    s->close(s);
    delete_memory_stream(m);
}
void harness(void) {
    static char h[][24] = { HIST };
    for(size_t i = 0; i < sizeof(h) / sizeof(h[0]); i++) { history(h[i]); }
    VF_REACH("end");
}
