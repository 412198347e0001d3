/* common interface of the verification harnesses.

   Under CBMC every vf_* input is an unconstrained symbolic value; in the
   replay build (VF_REPLAY) the same calls return, in order, the values the
   solver chose, read from the file named by VF_INPUT. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifdef __CPROVER__
unsigned long long vf_in;
uint8_t vf_nd_u8(void); uint16_t vf_nd_u16(void); uint32_t vf_nd_u32(void);
uint64_t vf_nd_u64(void); int vf_nd_int(void); size_t vf_nd_size(void);
#define VF_MK(T, n) static inline T vf_##n(void) { T x = vf_nd_##n(); vf_in = (unsigned long long) x; return x; }
VF_MK(uint8_t, u8) VF_MK(uint16_t, u16) VF_MK(uint32_t, u32) VF_MK(uint64_t, u64)
VF_MK(int, int) VF_MK(size_t, size)
#define vf_assume(c) __CPROVER_assume(c)
#define VF_ASSERT(c, m) __CPROVER_assert(c, m)
#define VF_REACH(m) __CPROVER_assert(0, "reach: " m)
#define VF_SAME_OBJECT(a, b) __CPROVER_same_object(a, b)
#else
unsigned long long vf_next(void);
void vf_assume_(int c);
void vf_assert_(int c, const char *m);
void vf_reach_(const char *m);
#define VF_MK(T, n) static inline T vf_##n(void) { return (T) vf_next(); }
VF_MK(uint8_t, u8) VF_MK(uint16_t, u16) VF_MK(uint32_t, u32) VF_MK(uint64_t, u64)
VF_MK(int, int) VF_MK(size_t, size)
#define vf_assume(c) vf_assume_(!!(c))
#define VF_ASSERT(c, m) vf_assert_(!!(c), m)
#define VF_REACH(m) vf_reach_(m)
#endif
/* a value in lo..hi (inclusive) */
static inline size_t vf_range(size_t lo, size_t hi) { size_t x = vf_size(); vf_assume(x >= lo && x <= hi); return x; }
static inline int vf_bool(void) { return vf_u8() & 1; }
static inline void vf_fill(unsigned char *p, size_t n) { for(size_t i = 0; i < n; i++) { p[i] = vf_u8(); } }
/* exactly sized heap copy, so that one byte too far is an out of bounds access */
static inline unsigned char *vf_heap(const unsigned char *src, size_t n) {
    unsigned char *p = (unsigned char *) malloc(n ? n : 1);
    for(size_t i = 0; i < n; i++) { p[i] = src[i]; }
    return p;
}
void harness(void);
