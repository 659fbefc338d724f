/* C06: SL session identifier length; MODE 0 one response, 1 combination of RLEN responses */
#include "alg.h"
#define SN (SL ? SL : 1)
void vp_harness(void) {
  static uint8_t ssid[SN];
  uint8_t alpha[32];
  nd_bytes(ssid, SL);
  unsigned av = nd_point(alpha);
#if MODE == 0
  uint8_t k[33], z[33], beta[33];
  k[0] = nd_u8(); z[0] = nd_u8();
  unsigned kv = nd_scalar_nz(k + 1), zv = nd_scalar_nz(z + 1);
  int e = toprf_3hashtdh(k, z, alpha, ssid, SL, beta);
  CHECK(e == 0, "evaluation failed");
  vp_hash_settle(6);
  /* the derived element: hash of length, session identifier, request */
  static uint8_t m[2 + SN + 32];
  m[0] = SL >> 8; m[1] = SL & 0xff;
  for(int i = 0; i < SL; i++) m[2 + i] = ssid[i];
  for(int i = 0; i < 32; i++) m[2 + SL + i] = alpha[i];
  uint8_t h[64], p[32];
  crypto_generichash(h, 64, m, 2 + SL + 32, NULL, 0);
  CHECK(voprf_hash_to_group(h, 64, p) == 0, "hashing to the group failed");
  CHECK(beta[0] == k[0], "response does not carry the index of the share");
  CHECK(vp_pt_ok(beta + 1) && vp_pt(beta + 1) == vp_mod(vp_mulp(kv, av) + vp_mulp(zv, vp_pt(p))), "response is not k*request + z*H(session, request)");
  REACHED("evaluated");
#else
  uint8_t s[32], zero[32], out[32];
  static sharebuf ks[NN], zs[NN];
  static partbuf part[RLEN];
  unsigned sv = nd_scalar(s);
  vp_put_sc(zero, 0);
  toprf_create_shares(s, NN, TT, ks);
  toprf_create_shares(zero, NN, TT, zs);
  unsigned q[RLEN];
  nd_select(q, RLEN, NN);
  for(int i = 0; i < RLEN; i++) {
    uint8_t k[33], z[33];
    pick(k, ks, NN, q[i]); pick(z, zs, NN, q[i]);
    ASSUME(vp_sc(k + 1) != 0 && vp_sc(z + 1) != 0);
    CHECK(toprf_3hashtdh(k, z, alpha, ssid, SL, part[i]) == 0, "evaluation failed");
    vp_hash_settle(4 * ((unsigned) i + 1));
    ASSUME(vp_pt(part[i] + 1) != 0);
  }
  int e = toprf_thresholdmult(RLEN, part, out);
  CHECK(e == 0, "combining failed");
  CHECK(vp_pt_ok(out) && vp_pt(out) == vp_mulp(sv, av), "combined result is not the key times the request");
  REACHED("combined");
#endif
}
