/* Shared by the harnesses of the algebraic properties. */
#ifndef ALG_H
#define ALG_H
#include <sodium.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "oprf.h"
#include "toprf.h"
#include "dkg.h"
#include "mpmult.h"
#include "sodium_model.h"
typedef uint8_t sharebuf[TOPRF_Share_BYTES];
typedef uint8_t partbuf[TOPRF_Part_BYTES];
static inline size_t nd_pos(size_t n) { size_t k = nd_u32(); ASSUME(k < n); return k; }
/* q[0..k): any k distinct elements of 0..n-1, in any order */
static inline void nd_select(unsigned *q, unsigned k, unsigned n) {
  for(unsigned i = 0; i < k; i++) {
    q[i] = nd_u8();
    ASSUME(q[i] < n);
    for(unsigned j = 0; j < i; j++) ASSUME(q[i] != q[j]);
  }
}
static inline void pick(uint8_t *dst, const sharebuf *src, unsigned n, unsigned q) {
  for(unsigned j = 0; j < n; j++) if(j == q) for(unsigned b = 0; b < TOPRF_Share_BYTES; b++) dst[b] = src[j][b];
}
#endif
