/* hash maps with text keys by their contract (which C12 establishes): an
   association list.  Keys are copied, as the maps do */
#include "vf.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/structures/structures.h"
#include "vf_map.h"
struct vf_pair_t vf_pairs[VF_PAIRS];
size_t vf_pairs_count;
int vf_maps;
static struct hash_map_t vf_map;
static struct hash_map_element_t vf_element;
static int vf_same(const unsigned char *a, const unsigned char *k) {
    for(size_t i = 0; i < VF_KEY; i++) { if(a[i] != k[i]) { return 0; } if(a[i] == 0) { return 1; } }
    return 0;
}
void create_hash_map(struct hash_map_t **p, size_t n) { (void) n; VF_ASSERT(vf_maps == 0, "model: one map at a time"); vf_maps++; vf_pairs_count = 0; *p = &vf_map; }
void delete_hash_map(struct hash_map_t *m) { VF_ASSERT(m == &vf_map && vf_maps == 1, "the map is deleted once"); vf_maps--; }
void get_value_string_hash_map(struct hash_map_t *m, unsigned char *k, void **v) {
    VF_ASSERT(m == &vf_map && vf_maps == 1, "the map is in use");
    *v = NULL;
    for(size_t i = 0; i < VF_PAIRS; i++) { if(i < vf_pairs_count && vf_same(vf_pairs[i].key, k)) { *v = vf_pairs[i].value; } }
}
void set_value_string_hash_map(struct hash_map_t *m, unsigned char *k, void *v) {
    VF_ASSERT(m == &vf_map && vf_maps == 1, "the map is in use");
    for(size_t i = 0; i < VF_PAIRS; i++) { if(i < vf_pairs_count && vf_same(vf_pairs[i].key, k)) { vf_pairs[i].value = v; return; } }
    VF_ASSERT(vf_pairs_count < VF_PAIRS, "model: few pairs");
    if(vf_pairs_count >= VF_PAIRS) { return; }
    size_t i;
    for(i = 0; i < VF_KEY; i++) { vf_pairs[vf_pairs_count].key[i] = k[i]; if(k[i] == 0) { break; } }
    VF_ASSERT(i < VF_KEY, "model: short keys");
    vf_pairs[vf_pairs_count].value = v;
    vf_pairs_count++;
}
void delete_values_hash_map(struct hash_map_t *m) {
    VF_ASSERT(m == &vf_map && vf_maps == 1, "the map is in use");
    for(size_t i = 0; i < VF_PAIRS; i++) { if(i < vf_pairs_count) { free(vf_pairs[i].value); } }
}
