/* linked list: an arbitrary history of operations against a plain array */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/structures/structures.h"
#ifndef K
#define K 4
#endif
static unsigned char cells[256];
static size_t m[K + 2], n;
static void *val(size_t i) { return (void *) &cells[i]; }
static void ins(size_t at, size_t v) {
    for(size_t i = K; i > 0; i--) { if(i > at && i <= n) { m[i] = m[i - 1]; } }
    for(size_t i = 0; i <= K; i++) { if(i == at) { m[i] = v; } }
    n++;
}
static void del(size_t at) {
    for(size_t i = 0; i < K; i++) { if(i >= at && i + 1 < n) { m[i] = m[i + 1]; } }
    n--;
}
static void check(struct linked_list_t *l) {
    struct linked_list_node_t *node = l->first, *prev = NULL;
    VF_ASSERT(l->size == n, "size is the number of elements");
    for(size_t i = 0; i < K + 1; i++) {
        if(i >= n) { break; }
        VF_ASSERT(node != NULL, "there is a node for every element");
        VF_ASSERT(node->value == val(m[i]), "elements are in order");
        VF_ASSERT(node->previous == prev, "back link");
        prev = node;
        node = node->next;
    }
    VF_ASSERT(node == NULL, "nothing after the last element");
    if(n > 0) { VF_ASSERT(l->last == prev, "last element"); }
    else { VF_ASSERT(l->first == NULL && l->last == NULL, "an empty list has no first or last element"); }
}
static int cmp(void *a, void *b) { return a < b ? -1 : a > b ? 1 : 0; }
#ifndef OPS
#define OPS 12
#endif
static struct linked_list_node_t *spare;
static void step(struct linked_list_t *l, size_t op, size_t v, size_t at) {
    void *x = (void *) 1;
    struct linked_list_node_t *node;
    switch(op) {
        case 0: append_value_linked_list(l, val(v)); ins(n, v); break;
        case 1: append_front_value_linked_list(l, val(v)); ins(0, v); break;
        case 2: if(at <= n) { append_index_value_linked_list(l, val(v), at); ins(at, v); } break;
        case 3: pop_value_linked_list(l, &x, 1);
            VF_ASSERT(x == (n ? val(m[0]) : NULL), "pop takes the first element");
            if(n) { del(0); } break;
        case 4: pop_top_value_linked_list(l, &x, 1);
            VF_ASSERT(x == (n ? val(m[n - 1]) : NULL), "pop top takes the last element");
            if(n) { del(n - 1); } break;
        case 5: { size_t f = K + 5;
            for(size_t i = 0; i < K; i++) { if(i < n && m[i] == v && f == K + 5) { f = i; } }
            remove_value_linked_list(l, val(v), 1);
            if(f != K + 5) { del(f); } break; }
        case 6: remove_index_linked_list(l, at, 1); if(at < n) { del(at); } break;
        case 7: clear_linked_list(l); n = 0; break;
        case 8: get_value_linked_list(l, at, &x);
            VF_ASSERT(x == (at < n ? val(m[at]) : NULL), "get by position");
            peek_value_linked_list(l, &x); VF_ASSERT(x == (n ? val(m[0]) : NULL), "peek is the first element");
            peek_top_value_linked_list(l, &x); VF_ASSERT(x == (n ? val(m[n - 1]) : NULL), "peek top is the last element");
            break;
        case 9: { struct iterator_t *it; create_iterator_linked_list(l, &it);
            for(size_t i = 0; i < K + 1; i++) { if(i > n) { break; } get_next_iterator(it, &x);
                VF_ASSERT(x == (i < n ? val(m[i]) : NULL), "iteration visits the elements in order, then nothing"); }
            delete_iterator_linked_list(l, it); break; }
        case 10: /* move an element: the node popped is appended again */
            if(at & 1) { pop_linked_list(l, &node); } else { pop_top_linked_list(l, &node); }
            VF_ASSERT((node == NULL) == (n == 0), "there is a node to pop unless the list is empty");
            if(n) { size_t w = at & 1 ? m[0] : m[n - 1];
                VF_ASSERT(node->value == val(w), "the popped node holds the element");
                del(at & 1 ? 0 : n - 1);
                if(at & 2) { append_linked_list(l, node); ins(n, w); } else { append_front_linked_list(l, node); ins(0, w); } }
            break;
        case 11: sort_linked_list(l, cmp);
            for(size_t i = 0; i < K; i++) { for(size_t j = 0; j + 1 < K; j++) { if(j + 1 < n && m[j] > m[j + 1]) { size_t t = m[j]; m[j] = m[j + 1]; m[j + 1] = t; } } }
            break;
    }
}
/* one operation of every kind at every position, from every well formed list of
   up to INIT elements with arbitrary values, leaves a well formed list holding
   what a sequence holds: by induction any history does.  PAIR adds a second
   operation */
void harness(void) {
    for(size_t a = 0; a < OPS; a++) {
        if(!((ONLY >> a) & 1)) { continue; }
        for(size_t at = 0; at < 4; at++) {
            if(at > 0 && (a < 2 || (a > 2 && a < 6) || a == 7 || a == 9 || a == 11)) { continue; }
            for(size_t init = 0; init <= INIT; init++) {
                struct linked_list_t *l;
                create_linked_list(&l);
                n = 0;
                for(size_t i = 0; i < init; i++) { size_t v = vf_range(0, 3); append_value_linked_list(l, val(v)); ins(n, v); }
                step(l, a, vf_range(0, 3), at);
                check(l);
#ifdef PAIR
                step(l, PAIR, vf_range(0, 3), at);
                check(l);
#endif
                delete_linked_list(l);
            }
        }
    }
    VF_REACH("end");
}
