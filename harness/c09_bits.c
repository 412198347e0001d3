/* bit stream over a memory stream: codes of arbitrary values written, the bytes
   produced, and the codes read back, also after moving back */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/stream/stream.h"
#define BITS (8 * NB)
static unsigned char bits[BITS + 64];
static size_t nbits;
static void keep_open(struct stream_t *s) { }
static unsigned value(size_t pos, size_t n) {
    unsigned v = 0;
    for(size_t i = 0; i < n; i++) { v = (v << 1) | (pos + i < nbits ? bits[pos + i] : 0); }
    return v;
}
/* a..p are codes of 1 to 16 bits; in the second part B<nn> moves back nn bits
   (C<nnnn> moves back nnnn bits) and "*nn<code>" repeats a code */
static void history(const char *w, const char *r) {
    struct memory_stream_t *m;
    struct bit_stream_t *b;
    struct stream_t *s;
    size_t bytes, pos = 0;
    nbits = 0;
    create_memory_stream(&m);
    s = get_stream_memory_stream(m);
    create_bit_stream(&b, s);
    open_bit_stream(b);
    s->close = keep_open;
    for(; *w; w++) {
        size_t rep = 1;
        if(*w == '*') { rep = (size_t) (w[1] - '0') * 100 + (size_t) (w[2] - '0') * 10 + (size_t) (w[3] - '0'); w += 4; }
        for(; rep > 0; rep--) {
            size_t n = (size_t) (*w - 'a') + 1;
            unsigned short v = rep > 1 ? (unsigned short) ((rep * 37 + 5) & ((1u << n) - 1)) : vf_u16();
            vf_assume((v >> (n - 1)) <= 1);
            if(n <= 8 && (nbits & 1)) { write_byte_bit_stream(b, (unsigned char) v, (unsigned char) n); }
            else { write_word_bit_stream(b, v, (unsigned char) n); }
            for(size_t i = 0; i < n; i++) { bits[nbits++] = (v >> (n - 1 - i)) & 1; }
            VF_ASSERT(b->bit_counter_write == nbits, "the bits written are counted");
        }
    }
    close_bit_stream(b);
    delete_bit_stream(b);
    bytes = (nbits + 7) / 8;
    VF_ASSERT(s->size(s) == bytes, "closing writes out the incomplete last byte, and nothing else");
    for(size_t i = 0; i < bytes; i++) { VF_ASSERT(m->buffer[i] == value(i * 8, 8), "codes are laid out from the highest bit on, padded with zeros"); }

    s->seek(s, 0);
    create_bit_stream(&b, s);
    for(; *r; r++) {
        if(*r == 'B' || *r == 'C') {
            size_t k = 0;
            if(*r == 'C') { k = (size_t) (r[1] - '0') * 1000 + (size_t) (r[2] - '0') * 100; r += 2; }
            k += (size_t) (r[1] - '0') * 10 + (size_t) (r[2] - '0');
            r += 2;
            seek_bit_stream(b, (long long) k);
            pos -= k;
        }
        else {
            size_t rep = 1;
            if(*r == '*') { rep = (size_t) (r[1] - '0') * 100 + (size_t) (r[2] - '0') * 10 + (size_t) (r[3] - '0'); r += 4; }
            for(; rep > 0; rep--) {
                size_t n = (size_t) (*r - 'a') + 1;
                unsigned short v = 0xa5a5;
                unsigned char y = 0xa5;
                if(n <= 8 && (pos & 1)) { read_byte_bit_stream(b, &y, (unsigned char) n); v = y; }
                else { read_word_bit_stream(b, &v, (unsigned char) n); }
                VF_ASSERT(v == value(pos, n), "codes read are the codes written, zeros past the end");
                pos += n;
            }
        }
        VF_ASSERT(b->bit_counter_read == pos, "the bits read are counted");
    }
    delete_bit_stream(b);
    delete_memory_stream(m);
}
void harness(void) {
    static char h[][2][48] = { HIST };
    for(size_t i = 0; i < sizeof(h) / sizeof(h[0]); i++) { history(h[i][0], h[i][1]); }
    VF_REACH("end");
}
