/* Huffman coding. MODE 1: arbitrary frequencies, the codes are prefix free;
   MODE 2: given frequencies, arbitrary data encoded and decoded through the
   table and through the tree; MODE 3: frequencies are counted */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/compression/huffman.h"
#ifndef CAP
#define CAP 24
#endif
#define CHUNK 3
#ifdef __CPROVER__
#undef malloc
#undef memset
/* typed objects for the structures, so that they are not arrays of bytes */
#define BOX(T) if(n == sizeof(T)) { return malloc(sizeof(T)); }
static struct huffman_t *last;
void *vf_malloc(size_t n) {
    if(n == sizeof(struct huffman_t)) { return last = malloc(sizeof(struct huffman_t)); }
    BOX(struct huffman_node_t) 
    return malloc(n);
}
void *vf_zero(void *p, int c, size_t n) {
    VF_ASSERT(c == 0 && n == S * sizeof(void *), "the tables are cleared");
    if(__CPROVER_POINTER_OFFSET(p) == offsetof(struct huffman_t, nodes)) { for(size_t i = 0; i < S; i++) { last->nodes[i] = NULL; } }
    else if(__CPROVER_POINTER_OFFSET(p) == offsetof(struct huffman_t, freqs)) { for(size_t i = 0; i < S; i++) { last->freqs[i] = 0; } }
    else { VF_ASSERT(0, "only the tables are cleared"); }
    return p;
}
#endif
struct file { struct stream_t stream; unsigned char data[CAP]; size_t size, pos; int open; };
void f_open(struct stream_t *s) { struct file *f = (struct file *) s->lower; VF_ASSERT(!f->open, "a stream is opened once"); f->open = 1; f->pos = 0; }
void f_close(struct stream_t *s) { struct file *f = (struct file *) s->lower; VF_ASSERT(f->open, "an open stream is closed"); f->open = 0; }
size_t f_read(struct stream_t *s, unsigned char *b, size_t n) {
    struct file *f = (struct file *) s->lower;
    size_t k = f->pos >= f->size ? 0 : f->size - f->pos < n ? f->size - f->pos : n;
    for(size_t i = 0; i < k; i++) { b[i] = f->data[f->pos + i]; }
    f->pos += k;
    return k;
}
size_t f_write(struct stream_t *s, unsigned char *b, size_t n) {
    struct file *f = (struct file *) s->lower;
    VF_ASSERT(f->pos + n <= CAP, "no more is written than expected");
    for(size_t i = 0; i < CHUNK; i++) { if(i < n) { f->data[f->pos + i] = b[i]; } }
    f->pos += n;
    if(f->pos > f->size) { f->size = f->pos; }
    return n;
}
void f_seek(struct stream_t *s, size_t p) { ((struct file *) s->lower)->pos = p; }
size_t f_tell(struct stream_t *s) { return ((struct file *) s->lower)->pos; }
static void make(struct file *f, int input) {
    f->size = f->pos = 0; f->open = 0;
    f->stream.lower = f;
    f->stream.open = f_open; f->stream.close = f_close; f->stream.read = f_read;
    f->stream.write = f_write; f->stream.seek = f_seek; f->stream.tell = f_tell;
}
#ifdef LONG
#define RELAXED 1
#else
#define RELAXED 0
#endif
static size_t want[S];
/* the priority queue as C15 establishes it: pop yields a least element */
static struct priority_queue_t queue;
static int queueing;
static size_t freq[S];
static void *held[2 * S];
static comparator order;
void create_priority_queue(struct priority_queue_t **q, comparator c) { *q = &queue; queue.size = 0; order = c; queueing = !RELAXED; }
void delete_priority_queue(struct priority_queue_t *q) { }
void push_priority_queue(struct priority_queue_t *q, void *v) {
    VF_ASSERT(q->size < S, "no more nodes than symbols are queued"); 
    struct huffman_node_t *node = (struct huffman_node_t *) v;
    /* a symbol's node gets its (arbitrary) frequency here, so that how many are queued stays known */
    if(queueing) { VF_ASSERT(node->value == 1, "a node carries the frequency of its symbol"); node->value = freq[node->symbol]; }
    held[q->size++] = v;
}
void pop_priority_queue(struct priority_queue_t *q, void **v) {
    queueing = 0;
    if(q->size == 0) { *v = NULL; return; }
    for(size_t i = q->size - 1; i > 0; i--) {
        if(order(held[i], held[i - 1]) < 0) { void *t = held[i]; held[i] = held[i - 1]; held[i - 1] = t; }
    }
    *v = held[0];
    for(size_t i = 1; i < q->size; i++) { held[i - 1] = held[i]; }
    q->size--;
}

/* the bit stream as C09 establishes it: a sequence of bits with a position */
static unsigned char bits[8 * CAP];
static size_t bw, br;
static struct bit_stream_t model;
static struct stream_t *under;
void create_bit_stream(struct bit_stream_t **b, struct stream_t *s) { *b = &model; under = s; }
void delete_bit_stream(struct bit_stream_t *b) { }
void open_bit_stream(struct bit_stream_t *b) { under->open(under); br = 0; }
void close_bit_stream(struct bit_stream_t *b) {
    struct file *f = (struct file *) under->lower;
    if(f->size == 0) {
        /* some zero bytes more than needed, so that the size is known */
        f->size = (N * BITMODEL + 7) / 8;
        for(size_t i = 0; i < f->size; i++) { unsigned v = 0; for(size_t j = 0; j < 8; j++) { v = v << 1 | bits[8 * i + j]; } f->data[i] = (unsigned char) v; }
    }
    under->close(under);
}
void write_word_bit_stream(struct bit_stream_t *b, unsigned short w, unsigned char n) {
    VF_ASSERT(n <= BITMODEL, "no code is longer than the longest");
    for(size_t i = 0; i < BITMODEL; i++) { if(i < n) { bits[bw + i] = (w >> (n - 1 - i)) & 1; } }
    bw += n;
}
void read_word_bit_stream(struct bit_stream_t *b, unsigned short *w, unsigned char n) {
    unsigned v = 0;
    for(size_t i = 0; i < n; i++) { v = v << 1 | bits[br + i]; }
    *w = (unsigned short) v;
    br += n;
}
void seek_bit_stream(struct bit_stream_t *b, long long n) {
    VF_ASSERT(n >= 0 && (size_t) n <= br, "only bits that were read are put back");
    br -= (size_t) n;
}
void vf_freqs(struct huffman_t *h, struct stream_t *stream) {
    for(size_t i = 0; i < S; i++) { h->freqs[i] = want[i]; }
}
/* produces bytes with the wanted frequencies (native replay, where counting is not replaced) */
static size_t done;
void g_open(struct stream_t *s) { done = 0; }
void g_close(struct stream_t *s) { }
size_t g_read(struct stream_t *s, unsigned char *b, size_t n) {
    size_t k = 0, at = done;
    for(; k < n; k++, at++) {
        size_t i = 0, sum = 0;
        while(i < S && at >= sum + want[i]) { sum += want[i++]; }
        if(i == S) { break; }
        b[k] = (unsigned char) i;
    }
    done += k;
    return k;
}
static struct stream_t gen = { .open = g_open, .close = g_close, .read = g_read };
#if MODE == 1
static void codes(unsigned used) {
    struct huffman_t *h;
    size_t count = 0, max = 0;
    for(size_t i = 0; i < S; i++) {
        freq[i] = (size_t) (vf_u16() & FMASK);
        want[i] = 0;
#ifdef LONG
        static const unsigned char fs[S] = { LONG };
        want[i] = freq[i] = fs[i];
        count++;
        continue;
#endif
        if(used & 1u << i) { vf_assume(freq[i] > 0); want[i] = 1; count++; }
    }
    create_huffman(&h);
    generate_table_huffman(h, &gen);
    for(size_t i = 0; i < S; i++) {
        struct huffman_node_t *n = h->nodes[i];
        VF_ASSERT((n != NULL) == (want[i] > 0), "exactly the bytes that occur have a code");
        if(n == NULL) { continue; }
        VF_ASSERT(n->symbol == i, "a code belongs to its byte");
        VF_ASSERT(n->bit_count >= 1 && n->bit_count <= HUFFMAN_CODE_SIZE, "codes have 1 to 16 bits");
        VF_ASSERT((n->code >> n->bit_count) == 0, "codes have no bits beyond their length");
        if(n->bit_count > max) { max = n->bit_count; }
        for(size_t j = 0; j < i; j++) {
            struct huffman_node_t *m = h->nodes[j];
            if(m == NULL) { continue; }
            size_t k = m->bit_count < n->bit_count ? m->bit_count : n->bit_count;
            VF_ASSERT((m->code >> (m->bit_count - k)) != (n->code >> (n->bit_count - k)), "no code is the beginning of another");
            VF_ASSERT(RELAXED || freq[i] <= freq[j] || n->bit_count <= m->bit_count, "a byte that occurs more often has no longer code");
        }
    }
    VF_ASSERT(h->prefix_size == max, "the longest code is known");
    delete_huffman(h);
}
void harness(void) {
    static const unsigned char u[] = { USED };
    for(size_t i = 0; i < sizeof(u); i++) { codes(u[i]); }
    VF_REACH("end");
}
#elif MODE == 2
static void round_trip(const unsigned char *f, size_t n) {
    struct huffman_t *h;
    struct file in, code, out, tree;
    make(&in, 1); make(&code, 0); make(&out, 0); make(&tree, 0);
    bw = br = 0;
    for(size_t i = 0; i < 8 * CAP; i++) { bits[i] = 0; }
    for(size_t i = 0; i < S; i++) { freq[i] = f[i]; want[i] = f[i] > 0; }
    for(size_t i = 0; i < n; i++) {
        in.data[i] = vf_u8();
        vf_assume(in.data[i] < S && want[in.data[i]] > 0);
    }
    in.size = n;
    create_huffman(&h);
    generate_table_huffman(h, &gen);
    encode_huffman(h, &in.stream, &code.stream);
    VF_ASSERT(!in.open && !code.open, "encoding closes its streams");
    VF_ASSERT((size_t) h->bit_count == bw, "the bits written are counted");
    code.pos = 0;
    tree.stream.close = f_close;
    decode_huffman(h, &code.stream, &tree.stream);
    VF_ASSERT(tree.size == n, "decoding by the tree restores the size");
    for(size_t i = 0; i < n; i++) { VF_ASSERT(tree.data[i] == in.data[i], "decoding by the tree restores the data"); }
    VF_ASSERT(!tree.open && !code.open, "decoding closes its streams");
    generate_prefix_huffman(h);
    decode_huffman(h, &code.stream, &out.stream);
    VF_ASSERT(out.size == n, "decoding by the table restores the size");
    for(size_t i = 0; i < n; i++) { VF_ASSERT(out.data[i] == in.data[i], "decoding by the table restores the data"); }
    VF_ASSERT(!out.open && !code.open, "decoding closes its streams");
    delete_huffman(h);
}
void harness(void) {
    static unsigned char f[][S] = { FREQS };
    for(size_t i = 0; i < sizeof(f) / sizeof(f[0]); i++) { round_trip(f[i], f[i][0] + f[i][1] + f[i][2] + f[i][3] == 0 ? 0 : N); }
    VF_REACH("end");
}
#else
void harness(void) {
    struct huffman_t *h;
    struct file in;
    make(&in, 1);
    in.size = vf_range(0, N);
    for(size_t i = 0; i < N; i++) { in.data[i] = vf_u8(); vf_assume(in.data[i] < S); }
    create_huffman(&h);
    calc_freqs_huffman(h, &in.stream);
    VF_ASSERT(!in.open, "counting closes its stream");
    for(size_t s = 0; s < S; s++) {
        size_t k = 0;
        for(size_t i = 0; i < N; i++) { k += i < in.size && in.data[i] == s; }
        VF_ASSERT(h->freqs[s] == k, "every byte is counted");
    }
    VF_REACH("end");
}
#endif
