/* C09: MODE 0 multiplication, 1 matrix, 2 refused operands */
#include "alg.h"
void vp_harness(void) {
#if MODE == 0
  /* a, b shared with threshold TT among NN; DN dealers take part */
  uint8_t a[32], b[32], out[32];
  static sharebuf as[NN], bs[NN], mul[DN][NN], res[NN];
  unsigned av = nd_scalar(a), bv = nd_scalar(b), d[DN], q[TT];
  toprf_create_shares(a, NN, TT, as);
  toprf_create_shares(b, NN, TT, bs);
  uint8_t idx[DN];
#ifdef DEALERS
  static const unsigned dl[DN] = {DEALERS}; /* holder numbers, 0-based, in their order */
  for(int i = 0; i < DN; i++) d[i] = dl[i];
#else
  nd_select(d, DN, NN);
#endif
  for(int i = 0; i < DN; i++) {
    sharebuf x, y;
    pick(x, (const sharebuf*) as, NN, d[i]); pick(y, (const sharebuf*) bs, NN, d[i]);
    idx[i] = (uint8_t) (d[i] + 1);
    CHECK(toprf_mpc_mul_start(x, y, NN, TT, mul[i]) == 0, "first phase failed");
    for(int j = 0; j < NN; j++) CHECK(mul[i][j][0] == j + 1, "output share has the wrong index");
  }
  for(int j = 0; j < NN; j++) {
    static sharebuf in[DN];
    for(int i = 0; i < DN; i++) memcpy(in[i], mul[i][j], 33);
    toprf_mpc_mul_finish(DN, idx, (uint8_t) (j + 1), in, res[j]);
    CHECK(res[j][0] == j + 1, "result carries the wrong index");
  }
#ifdef SMALL /* keeps large fields tractable: the last holders, small coefficients */
  ASSUME(av < SMALL && bv < SMALL);
  for(unsigned i = 0; i < vp_rnd_n && i < VP_RND_MAX; i++) ASSUME(vp_rnd[i] < SMALL);
  for(int i = 0; i < TT; i++) q[i] = (unsigned) (NN - 1 - i);
#else
  nd_select(q, TT, NN);
#endif
  TOPRF_Share r[TT];
  for(int i = 0; i < TT; i++) pick((uint8_t*) &r[i], (const sharebuf*) res, NN, q[i]);
  dkg_reconstruct(TT, r, out);
  CHECK(vp_sc(out) == vp_mulp(av, bv), "results do not reconstruct the product");
  REACHED("multiplied");
#elif MODE == 1
  /* inverse times Vandermonde is the identity, for every choice of distinct indices */
  uint8_t idx[DN]; unsigned q[DN];
  static uint8_t inv[DN][DN][32];
  nd_select(q, DN, VP_P - 1);
  for(int i = 0; i < DN; i++) idx[i] = (uint8_t) (q[i] + 1);
  invertedVDMmatrix(DN, idx, inv);
  for(int i = 0; i < DN; i++) for(int j = 0; j < DN; j++) {
    unsigned s = 0;
    /* V[k][c] = idx[k]^c; (inv * V)[i][j] */
    for(int k = 0; k < DN; k++) {
      unsigned pw = 1;
      for(int c = 0; c < j; c++) pw = vp_mulp(pw, idx[k]);
      s = vp_mod(s + vp_mulp(vp_sc(inv[i][k]), pw));
    }
    CHECK(s == (i == j), "not the inverse of the Vandermonde matrix");
  }
  REACHED("inverted");
#else
  uint8_t a[33], b[33];
  static sharebuf out[NN];
  a[0] = nd_u8(); b[0] = nd_u8(); nd_scalar(a + 1); nd_scalar(b + 1);
  /* constants: the sizes of local arrays depend on them */
  static const uint8_t ts[] = {0, 1, 2, 3, 4, 128, 255};
  for(unsigned k = 0; k < sizeof ts; k++) for(uint8_t n = 0; n <= NN; n++) {
    uint8_t t = ts[k];
    int sane = t > 0 && n >= t;
    int e = toprf_mpc_mul_start(a, b, n, t, out);
    CHECK((e == 0) == (sane && a[0] == b[0]), "bad operands accepted or good ones refused");
    if(e && sane) REACHED("refused");
    if(!e && t == 2) REACHED("accepted");
  }
#endif
}
