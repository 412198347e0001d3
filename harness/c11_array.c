/* array list: a history of indexed sets against a plain array */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/structures/structures.h"
#ifndef K
#define K 3
#endif
#ifndef IDX
#define IDX 4
#endif
typedef uint32_t elem;
static void history(size_t a, size_t b, size_t c) {
    size_t at[3], size = 0;
    struct array_list_t *l;
    elem model[IDX + 1], *p;
    unsigned char known[IDX + 1];
    at[0] = a; at[1] = b; at[2] = c;
    for(size_t i = 0; i <= IDX; i++) { known[i] = 0; model[i] = 0; }
    create_array_list(&l, sizeof(elem), CAP);
    for(int k = 0; k < 3; k++) {
        size_t i = at[k];
        elem v = vf_u32();
        set_array_list(l, i, (void *) &v);
        model[i] = v; known[i] = 1;
        v = ~v;
        if(i + 1 > size) { size = i + 1; }
        VF_ASSERT(l->size == size, "size is one past the last element set");
    }
    for(size_t j = 0; j <= IDX + 1; j++) {
        p = (elem *) &size;
        get_array_list(l, j, (void **) &p);
        if(j >= size) { VF_ASSERT(p == NULL, "reading beyond the end yields nothing"); }
        else {
            VF_ASSERT(p != NULL, "element within the size is there");
            elem x = *p; /* must be readable */
            if(known[j]) { VF_ASSERT(x == model[j], "element is the one last set"); } }
    }
    delete_array_list(l);
}
void harness(void) {
    for(size_t a = 0; a <= IDX; a++) { for(size_t b = 0; b <= IDX; b++) { for(size_t c = 0; c <= IDX; c++) { history(a, b, c); } } }
    VF_REACH("end");
}
