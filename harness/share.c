/* C04: toprf_create_shares; MODE 0 reconstruction from RLEN shares, 1 secrecy */
#include "alg.h"
void vp_harness(void) {
  uint8_t s[32];
  static sharebuf sh[NN + 1], sh2[NN];
  unsigned sv = nd_scalar(s);
  nd_bytes(sh[NN], 33);
  uint8_t guard[33];
  for(int i = 0; i < 33; i++) guard[i] = sh[NN][i];
  vp_rnd_n = 0;
  toprf_create_shares(s, NN, TT, sh);
#ifdef SMALL /* keeps large fields tractable */
  ASSUME(sv < SMALL);
  for(unsigned i = 0; i < TT - 1; i++) ASSUME(vp_rnd[i] < SMALL);
#endif
  CHECK(vp_eq(sh[NN], guard, 33), "wrote more than n shares");
  CHECK(vp_sc(s) == sv, "secret modified");
  for(int i = 0; i < NN; i++) CHECK(sh[i][0] == i + 1, "shares not numbered 1 to n");
#if MODE == 0
  unsigned q[RLEN]; TOPRF_Share r[RLEN]; uint8_t out[32];
#ifdef ORDERED /* the last RLEN holders in descending order */
  for(int i = 0; i < RLEN; i++) q[i] = (unsigned) (NN - 1 - i);
#else
  nd_select(q, RLEN, NN);
#endif
  for(int i = 0; i < RLEN; i++) pick((uint8_t*) &r[i], sh, NN, q[i]);
  dkg_reconstruct(RLEN, r, out);
  CHECK(vp_sc(out) == sv, "shares do not reconstruct the secret");
  REACHED("reconstructed");
#else
  /* For a fixed secret, the coefficients are determined by any t-1 shares:
   * the map is a bijection, whatever the secret, so the shares say nothing. */
  unsigned n1 = vp_rnd_n, c1[VP_RND_MAX];
  for(unsigned i = 0; i < VP_RND_MAX; i++) c1[i] = vp_rnd[i];
  CHECK(n1 >= TT - 1, "fewer than t-1 fresh random coefficients");
  vp_rnd_n = 0;
  toprf_create_shares(s, NN, TT, sh2);
  CHECK(vp_rnd_n == n1, "number of random coefficients varies");
  unsigned q[TT]; int same = 1;
  nd_select(q, TT - 1, NN);
  for(int i = 0; i < TT - 1; i++) {
    uint8_t a[33], b[33];
    pick(a, sh, NN, q[i]); pick(b, sh2, NN, q[i]);
    if(vp_sc(a + 1) != vp_sc(b + 1)) same = 0;
  }
  if(same) {
    for(unsigned i = 0; i < TT - 1; i++) CHECK(c1[i] == vp_rnd[i], "t-1 shares do not have the full range of values");
    REACHED("equal views");
  }
#endif
}
