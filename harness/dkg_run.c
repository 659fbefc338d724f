/* C08: NN honest dealers, threshold TT, RLEN shares used for reconstruction.
 * DEALER: what one dealer deals is a polynomial with the committed coefficients */
#include "alg.h"
#ifdef DEALER
void vp_harness(void) {
  static uint8_t c[TT][32];
  static TOPRF_Share dealt[NN];
  CHECK(dkg_start(NN, TT, c, dealt) == 0, "dealing failed");
  for(unsigned k = 0; k < vp_rnd_n && k < TT; k++) ASSUME(vp_rnd[k] < SMALL);
  for(int k = 0; k < TT; k++) CHECK(vp_pt_ok(c[k]), "commitment invalid");
  for(unsigned j = 0; j < NN; j++) {
    unsigned v = 0;
    for(int k = TT - 1; k >= 0; k--) v = vp_mod(vp_mulp(v, j + 1) + vp_pt(c[k]));
    CHECK(dealt[j].index == j + 1, "dealt share has the wrong index");
    CHECK(vp_sc(dealt[j].value) == v, "dealt share is not the committed polynomial's value");
  }
  TOPRF_Share r[RLEN]; uint8_t out[32];
  for(int i = 0; i < RLEN; i++) r[i] = dealt[NN - 1 - i];
  dkg_reconstruct(RLEN, r, out);
  CHECK(vp_sc(out) == vp_pt(c[0]), "shares do not reconstruct the dealer's secret");
  REACHED("reconstructed");
}
#else
void vp_harness(void) {
  static uint8_t c[NN][TT][32];
  static TOPRF_Share dealt[NN][NN], recv[NN][NN], fin[NN];
  unsigned sum = 0;
  for(int i = 0; i < NN; i++) {
    vp_rnd_n = 0;
    int e = dkg_start(NN, TT, c[i], dealt[i]);
    CHECK(e == 0, "dealing failed");
    CHECK(vp_rnd_n >= TT, "fewer than t random coefficients");
    for(int j = 0; j < NN; j++) CHECK(dealt[i][j].index == j + 1, "dealt share has the wrong index");
    CHECK(vp_pt_ok(c[i][0]), "commitment invalid");
    sum = vp_mod(sum + vp_pt(c[i][0]));
    for(int j = 0; j < NN; j++) recv[j][i] = dealt[i][j];
  }
  uint8_t self = nd_u8(), fails[NN], len = 0;
  ASSUME(self >= 1 && self <= NN);
  for(int j = 0; j < NN; j++) {
    if(j + 1 == self) {
      CHECK(dkg_verify_commitments(NN, TT, self, c, recv[j], fails, &len) == 0 && len == 0, "honestly dealt share does not verify");
      /* one's own share is not verified above */
      uint8_t other = (uint8_t) (self == 1 ? 2 : 1);
      CHECK(dkg_verify_commitment(NN, TT, self, other, c[j], recv[j][j]) == 0, "own share does not match own commitments");
    }
    fin[j].index = (uint8_t) (j + 1);
    dkg_finish(NN, recv[j], (uint8_t) (j + 1), &fin[j]);
  }
  unsigned q[RLEN]; TOPRF_Share r[RLEN]; uint8_t out[32];
  nd_select(q, RLEN, NN);
  for(int i = 0; i < RLEN; i++) pick((uint8_t*) &r[i], (const sharebuf*) fin, NN, q[i]);
  for(int i = 0; i < RLEN; i++) CHECK(r[i].index == q[i] + 1, "final share lost its index");
  dkg_reconstruct(RLEN, r, out);
  CHECK(vp_sc(out) == sum, "shares do not reconstruct the sum of the dealers' secrets");
  REACHED("reconstructed");
}
#endif
