#pragma once
#ifndef VF_PAIRS
#define VF_PAIRS 4
#endif
#ifndef VF_KEY
#define VF_KEY 10
#endif
struct vf_pair_t { unsigned char key[VF_KEY]; void *value; };
extern struct vf_pair_t vf_pairs[VF_PAIRS];
extern size_t vf_pairs_count;
extern int vf_maps;
