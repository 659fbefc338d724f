/* C05: MODE 0 client interpolates, 1 holders apply the coefficient, 2 too many responses,
 * 3 combining any responses with any distinct indices is adding them.
 * INDICES: the holders' indices; their shares are computed here */
#include "alg.h"
#ifndef RLEN
#define RLEN TT
#endif
void vp_harness(void) {
  uint8_t s[32], alpha[32], out[32];
#if MODE == 2
  static partbuf p[2];
  /* constants, so that what follows the refusal is not explored */
  static const size_t ns[] = {256, 257, 258, 511, 512, 0xff01, 0x10000, 0x10002, (size_t) 1 << 32, ((size_t) 1 << 32) + 2, SIZE_MAX};
  nd_bytes(p, sizeof p);
  for(unsigned i = 0; i < sizeof ns / sizeof ns[0]; i++) {
    CHECK(toprf_thresholdmult(ns[i], p, out) != 0, "interpolation accepted more than 255 responses");
    CHECK(toprf_thresholdcombine(ns[i], p, out) != 0, "combination accepted more than 255 responses");
  }
  REACHED("refused");
#elif MODE == 3
  static partbuf part[RLEN];
  unsigned sum = 0;
  for(int i = 0; i < RLEN; i++) {
    part[i][0] = nd_u8();
    for(int k = 0; k < i; k++) ASSUME(part[i][0] != part[k][0]);
    sum = vp_mod(sum + nd_point(part[i] + 1));
  }
  int e = toprf_thresholdcombine(RLEN, part, out);
  CHECK(e == 0, "combining failed");
  CHECK(vp_pt_ok(out) && vp_pt(out) == sum, "combined result is not the sum of the responses");
  REACHED("combined");
#else
#ifndef INDICES
  static sharebuf sh[NN];
#endif
  static partbuf part[RLEN];
  unsigned sv = nd_scalar(s), av = nd_point(alpha);
#ifndef INDICES
  toprf_create_shares(s, NN, TT, sh);
#endif
  unsigned q[RLEN]; uint8_t idx[RLEN];
#ifdef INDICES
  static const uint8_t ix[RLEN] = {INDICES};
  unsigned co[TT];
  co[0] = sv;
  ASSUME(sv < SMALL && av == 3);
  for(int k = 1; k < TT; k++) { co[k] = nd_u8(); ASSUME(co[k] < SMALL); }
  for(int i = 0; i < RLEN; i++) q[i] = ix[i] - 1u;
#elif defined ORDERED
  for(int i = 0; i < RLEN; i++) q[i] = (unsigned) (NN - 1 - i);
#else
  nd_select(q, RLEN, NN);
#endif
  for(int i = 0; i < RLEN; i++) idx[i] = (uint8_t) (q[i] + 1);
  for(int i = 0; i < RLEN; i++) {
    uint8_t k[33];
#ifdef INDICES
    unsigned v = 0;
    for(int z = TT - 1; z >= 0; z--) v = vp_mod(vp_mulp(v, ix[i]) + co[z]);
    vp_put_sc(k + 1, v);
    k[0] = ix[i];
#else
    pick(k, sh, NN, q[i]);
#endif
    ASSUME(vp_sc(k + 1) != 0); /* probability 2^-252; evaluation reports it */
    part[i][0] = k[0];
#if MODE == 0
    int e = oprf_Evaluate(k + 1, alpha, part[i] + 1);
#else
    int e = toprf_Evaluate(k, alpha, k[0], idx, RLEN, part[i]);
    part[i][0] = k[0];
#endif
    CHECK(e == 0, "evaluation by a holder failed");
  }
#if MODE == 0
  int e = toprf_thresholdmult(RLEN, part, out);
#else
  int e = toprf_thresholdcombine(RLEN, part, out);
#endif
  CHECK(e == 0, "combining failed");
  CHECK(vp_pt_ok(out) && vp_pt(out) == vp_mulp(sv, av), "combined result is not the key times the element");
  REACHED("combined");
#endif
}
