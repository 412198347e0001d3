/* sorting: ordered permutation, nothing outside the range touched.

   Recursive calls made by the sort are replaced (--replace-calls) by the
   contract being proved: the sub range has to be smaller and inside the range,
   and is then sorted by an independent insertion sort.  The call under test is
   is not replaced: induction over the size */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/structures/structures.h"
#include "viriatum_commons/sorting/sorting.h"
#ifndef N
#define N 4
#endif
static struct { uint8_t key; } cells[N];
static unsigned char ids[N];
static void **base;
static size_t lo, hi;
#define KEYOF(p) (((uint8_t *) (p))[0])
static uint8_t keys[N];
static size_t idof(void *p) { for(size_t i = 0; i < N; i++) { if(p == &cells[i]) { return i; } } return N; }
int vf_cmp(void *a, void *b) {
    uint8_t x = 0, y = 0;
    for(size_t i = 0; i < N; i++) { if(a == &cells[i]) { x = keys[i]; } if(b == &cells[i]) { y = keys[i]; } }
    return (int) x - (int) y;
}
void vf_sorted(void **sequence, size_t beginning, size_t end, int (*c)(void *, void *)) {
    VF_ASSERT(sequence == base, "recursion stays in the sequence");
    if(end <= beginning) { return; }
    VF_ASSERT(beginning >= lo && end <= hi, "recursion stays in the range");
    VF_ASSERT(end - beginning < hi - lo, "recursion is on a smaller range");
    for(size_t r = 0; r + 1 < N; r++) {
        for(size_t i = 0; i + 1 < N; i++) {
            if(lo + i >= beginning && lo + i + 1 < end && vf_cmp(sequence[lo + i], sequence[lo + i + 1]) > 0) {
                void *t = sequence[lo + i]; sequence[lo + i] = sequence[lo + i + 1]; sequence[lo + i + 1] = t;
            }
        }
    }
}
static void judge(void **s, size_t n) {
    for(size_t i = 0; i < n; i++) {
        size_t c = 0;
        for(size_t j = 0; j < n; j++) { if(s[j] == &cells[i]) { c++; } }
        VF_ASSERT(c == 1, "every element is there exactly once");
    }
    for(size_t i = 0; i + 1 < n; i++) { VF_ASSERT(vf_cmp(s[i], s[i + 1]) <= 0, "elements are in order"); }
}
void harness(void) {
    for(size_t i = 0; i < N; i++) { keys[i] = vf_u8(); }
    for(size_t n = LO; n <= N; n++) {
#if MODE == 1
        /* the sequence is a range of a larger one, or the whole of it */
        void *s[N + PAD + PAD];
        
        for(size_t i = 0; i < N + PAD + PAD; i++) { s[i] = NULL; }
        for(size_t i = 0; i < n; i++) { s[PAD + i] = &cells[i]; }
        base = s; lo = PAD; hi = PAD + n;
        sort_quicksort(s, PAD, PAD + n, vf_cmp);
        for(size_t i = 0; i < N + PAD + PAD; i++) { if(i < PAD || i >= PAD + n) { VF_ASSERT(s[i] == NULL, "nothing outside the range is written"); } }
        judge(s + PAD, n);
#else
        struct linked_list_t *l;
        struct linked_list_node_t *node;
        void *s[N];
        create_linked_list(&l);
        for(size_t i = 0; i < n; i++) { append_value_linked_list(l, &cells[i]); }
        sort_linked_list(l, vf_cmp);
        VF_ASSERT(l->size == n, "sorting keeps the size");
        node = l->first;
        for(size_t i = 0; i < n; i++) { s[i] = node->value; node = node->next; }
        VF_ASSERT(node == NULL, "sorting keeps the size");
        judge(s, n);
        delete_linked_list(l);
#endif
    }
    VF_REACH("end");
}
