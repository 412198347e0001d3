/* priority queue: a history of pushes and pops of elements with arbitrary keys */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/structures/structures.h"
typedef struct { uint8_t key; unsigned char in; } cell;
static cell cells[16];
static int cmp(void *a, void *b) { return (int) ((cell *) a)->key - (int) ((cell *) b)->key; }
static const char *script[] = { SCRIPTS };
void harness(void) {
    for(size_t k = 0; k < sizeof(script) / sizeof(script[0]); k++) {
        struct priority_queue_t *q;
        size_t used = 0, n = 0;
        create_priority_queue(&q, cmp);
        for(const char *p = script[k]; *p; p++) {
            if(*p == '+') {
                cells[used].key = vf_u8(); cells[used].in = 1;
                push_priority_queue(q, &cells[used]);
                used++; n++;
            } else {
                void *v = (void *) 1;
                pop_priority_queue(q, &v);
                if(n == 0) { VF_ASSERT(v == NULL, "popping an empty queue yields nothing"); }
                else {
                    VF_ASSERT(v != NULL && v != (void *) 1, "popping yields an element");
                    VF_ASSERT(((cell *) v)->in == 1, "the popped element was in the queue");
                    for(size_t i = 0; i < used; i++) { if(cells[i].in) { VF_ASSERT(((cell *) v)->key <= cells[i].key, "no remaining element precedes the popped one"); } }
                    ((cell *) v)->in = 0; n--;
                }
            }
            VF_ASSERT(q->size == n, "size is the number of elements in the queue");
        }
        for(size_t i = 0; i < used; i++) { cells[i].in = 0; }
        delete_priority_queue(q);
    }
    VF_REACH("end");
}
