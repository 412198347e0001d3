/* hash map (or, with SORTED, sort map): a history of sets, then gets and an iteration.
   MODE 1: arbitrary integer keys.  MODE 2: text keys whose hashes are
   arbitrary (also equal for different texts); the pattern of repeated texts is
   every one of K letters.  MODE 3: text keys through the real hash */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/structures/structures.h"
#ifndef K
#define K 3
#endif
#ifndef SIZE
#define SIZE 2
#endif
#ifdef __CPROVER__
#undef malloc
#undef memset
#define BOX(k) if(n == k * sizeof(struct hash_map_element_t)) { return malloc(sizeof(struct hash_map_element_t[k])); }
void *vf_malloc(size_t n) {
    BOX(1) BOX(2) BOX(3) BOX(4) BOX(6) BOX(8) BOX(12) BOX(16) BOX(32)
    return malloc(n);
}
void *vf_zero(void *p, int c, size_t n) {
    struct hash_map_element_t *e = (struct hash_map_element_t *) p;
    static const struct hash_map_element_t zero;
    if(c != 0 || n % sizeof(zero)) { return memset(p, c, n); }
    for(size_t i = 0; i < n / sizeof(zero); i++) { e[i].value = NULL; e[i].key = 0; e[i].key_string = NULL; e[i].used = 0; }
    return p;
}
#endif
#ifdef SORTED
#define MAP struct sort_map_t
#define NAME(x) x##_sort_map
#define HASHMAP(m) ((m)->hash_map)
#define COUNT(m) ((m)->hash_map->size)
#define NEXT(x) x##_sort_map
#else
#define MAP struct hash_map_t
#define NAME(x) x##_hash_map
#define HASHMAP(m) (m)
#define COUNT(m) ((m)->size)
#endif
static unsigned char cells[8];
#ifdef KEYS8
#define ANYKEY ((size_t) (vf_u8() & KEYS8))
#else
#define ANYKEY vf_size()
#endif
#if MODE == 4
/* growth with given keys, that share slots and are next to each other */
static void pattern(const size_t *p) {
    MAP *m;
    NAME(create)(&m, SIZE);
    for(size_t i = 0; i < K; i++) { NAME(set_value)(m, p[i], NULL, &cells[i]); VF_ASSERT(COUNT(m) == i + 1, "size is the number of distinct keys"); }
    for(size_t k = 0; k < 40; k++) {
        void *v = &cells[7], *want = NULL;
        for(size_t i = 0; i < K; i++) { if(p[i] == k) { want = &cells[i]; } }
        NAME(get_value)(m, k, NULL, &v);
        VF_ASSERT(v == want, "a key yields the value last set for it, or nothing when never set");
    }
    NAME(delete)(m);
}
#elif MODE == 1
static size_t key[K + 1], other;
static void rest(MAP *m, const size_t *p, size_t from, size_t n);
/* p[i] is the first position holding the same key as position i: the case
   split over which keys are equal keeps the map size concrete */
static void pattern(const size_t *p) {
    MAP *m;
    size_t n = 0;
    for(size_t i = 0; i < K; i++) {
        if(p[i] < i) { key[i] = key[p[i]]; continue; }
        key[i] = ANYKEY;
        for(size_t j = 0; j < i; j++) { vf_assume(key[j] != key[i]); }
    }
    other = ANYKEY;
    NAME(create)(&m, SIZE);
#ifdef RESIZE
    /* case split on where the first keys went, so that growth copies
       concrete slots */
    for(size_t i = 0; i < RESIZE; i++) {
        NAME(set_value)(m, key[i], NULL, &cells[i]);
        n += p[i] == i;
        VF_ASSERT(COUNT(m) == n, "size is the number of distinct keys");
        COUNT(m) = n;
    }
    for(size_t r = 0; r < 1u << SIZE; r++) {
        size_t here = 1, bits = 0;
        for(size_t j = 0; j < SIZE; j++) { bits += r >> j & 1; }
        if(bits != n) { continue; }
        for(size_t j = 0; j < SIZE; j++) { if((HASHMAP(m)->elements_buffer[j].used != 0) != (r >> j & 1)) { here = 0; } }
        if(here) {
            for(size_t j = 0; j < SIZE; j++) { HASHMAP(m)->elements_buffer[j].used = r >> j & 1; }
            rest(m, p, RESIZE, n);
            return;
        }
    }
    VF_ASSERT(0, "the first keys are stored");
#else
    rest(m, p, 0, n);
#endif
}
static void rest(MAP *m, const size_t *p, size_t from, size_t n) {
    for(size_t i = from; i < K; i++) {
        NAME(set_value)(m, key[i], NULL, &cells[i]);
        n += p[i] == i;
        VF_ASSERT(COUNT(m) == n, "size is the number of distinct keys");
        COUNT(m) = n; /* as just asserted: keeps the value concrete */
    }
#ifndef ITER
    {
        /* one arbitrary key, set or not */
        void *want = NULL, *v = &cells[7];
        for(size_t j = 0; j < K; j++) { if(key[j] == other) { want = &cells[j]; } }
        NAME(get_value)(m, other, NULL, &v);
        VF_ASSERT(v == want, "a key yields the value last set for it, or nothing when never set");
    }
#else
    {
        struct iterator_t *it;
        size_t *k, seen[K + 1], c = 0, first = 0;
        NAME(create_iterator)(m, &it);
        for(size_t i = 0; i <= K; i++) {
            get_next_iterator(it, (void **) &k);
            if(k == NULL) { break; }
            VF_ASSERT(c < n, "iteration visits no more than the distinct keys");
            for(size_t j = 0; j < c; j++) { VF_ASSERT(seen[j] != *k, "no key is visited twice"); }
            int known = 0;
            for(size_t j = 0; j < K; j++) { if(key[j] == *k) { known = 1; } }
            VF_ASSERT(known, "only keys that were set are visited");
#ifdef SORTED
            for(size_t t = 0; t < K; t++) { int old = 0; for(size_t j = 0; j < first && j < K; j++) { if(first < K && key[j] == key[first]) { old = 1; } } if(old) { first++; } }
            VF_ASSERT(first < K && *k == key[first], "keys are visited in order of first insertion");
            first++;
#endif
            seen[c++] = *k;
        }
        (void) first;
        VF_ASSERT(c == n, "every key is visited");
        NAME(delete_iterator)(m, it);
    }
    NAME(delete)(m);
#endif
}
#else
static char text[4][3] = { "a", "b", "cc", "" };
static void pattern(const size_t *p) {
    MAP *m;
    size_t hash[4], n = 0;
    for(size_t i = 0; i < 4; i++) { hash[i] = MODE == 2 ? vf_size() : 0; }
    NAME(create)(&m, SIZE);
    for(size_t i = 0; i < K; i++) {
        unsigned char key[3];
        int fresh = 1;
        for(size_t j = 0; j < i; j++) { if(p[j] == p[i]) { fresh = 0; } }
        for(size_t j = 0; j < 3; j++) { key[j] = 0; }
        for(size_t j = 0; text[p[i]][j]; j++) { key[j] = text[p[i]][j]; }
#if MODE == 2
        NAME(set_value)(m, hash[p[i]], key, &cells[i]);
#else
        NAME(set_value_string)(m, key, &cells[i]);
#endif
        key[0] = key[1] = 'z'; /* the map keeps its own copy */
        n += fresh;
        VF_ASSERT(COUNT(m) == n, "size is the number of distinct keys");
        COUNT(m) = n;
    }
    for(size_t t = 0; t < 4; t++) {
        void *want = NULL, *v = &cells[7];
        for(size_t j = 0; j < K; j++) { if(p[j] == t) { want = &cells[j]; } }
#if MODE == 2
        NAME(get_value)(m, hash[t], (unsigned char *) text[t], &v);
#else
        NAME(get_value_string)(m, (unsigned char *) text[t], &v);
#endif
        VF_ASSERT(v == want, "a key yields the value last set for it, or nothing when never set");
    }
    {
        struct iterator_t *it;
        struct hash_map_element_t *e;
        size_t c = 0, first = 0;
        unsigned char seen[4] = { 0, 0, 0, 0 };
        NAME(create_element_iterator)(m, &it);
        for(size_t i = 0; i <= K; i++) {
            get_next_iterator(it, (void **) &e);
            if(e == NULL) { break; }
            VF_ASSERT(e->key_string != NULL, "elements keep their text");
            for(size_t t = 0; t < 4; t++) { if(strcmp((char *) e->key_string, text[t]) == 0) {
                void *want = NULL;
                for(size_t j = 0; j < K; j++) { if(p[j] == t) { want = &cells[j]; } }
                seen[t]++;
                VF_ASSERT(e->value == want && want != NULL, "iteration yields keys with their values");
#ifdef SORTED
                while(first < K) { int old = 0; for(size_t j = 0; j < first; j++) { if(p[j] == p[first]) { old = 1; } } if(!old) { break; } first++; }
                VF_ASSERT(first < K && p[first] == t, "keys are visited in order of first insertion");
                first++;
#endif
            } }
            c++;
        }
        (void) first;
        for(size_t t = 0; t < 4; t++) {
            int set = 0;
            for(size_t j = 0; j < K; j++) { if(p[j] == t) { set = 1; } }
            VF_ASSERT(seen[t] == set, "every key is visited exactly once");
        }
        VF_ASSERT(c == n, "only keys that were set are visited");
        NAME(delete_iterator)(m, it);
    }
    NAME(delete)(m);
}
#endif
static void history(void) {
    static size_t pats[][4] = { PATS };
    for(size_t i = 0; i < sizeof(pats) / sizeof(pats[0]); i++) { pattern(pats[i]); }
}
void harness(void) { history(); VF_REACH("end"); }
