/* C01: Blind, Evaluate, Unblind, Finalize on every input of XLEN bytes. */
#include "alg.h"
#ifndef XLEN
#define XLEN 3
#endif
#define XN (XLEN ? XLEN : 1)
void vp_harness(void) {
  static uint8_t x[XN];
  nd_bytes(x, XLEN);
#ifndef FINALIZE
  uint8_t k[32], r1[32], r2[32], b1[32], b2[32], z1[32], z2[32], n1[32], n2[32], h[32];
  vp_rnd_n = 0;
  oprf_KeyGen(k);
  CHECK(vp_rnd_n == 1 && vp_sc(k) == vp_rnd[0], "key is not a fresh random scalar");
  unsigned kv = vp_sc(k);
  int rh = voprf_hash_to_group(x, XLEN, h);
  CHECK(rh == 0 && vp_pt_ok(h), "hashing to the group failed");
  ASSUME(rh == 0);
  for(int i = 0; i < 32; i++) r1[i] = r2[i] = 0;
  int e = oprf_Blind(x, XLEN, r1, b1);
  CHECK(e == 0, "blinding failed");
  CHECK(vp_rnd_n == 2 && vp_sc(r1) == vp_rnd[1], "blinding factor is not a fresh random scalar");
  CHECK(vp_pt_ok(b1) && vp_pt(b1) == vp_mulp(vp_sc(r1), vp_pt(h)), "blinded element is not the blinding factor times the hashed input");
  e = oprf_Blind(x, XLEN, r2, b2);
  CHECK(e == 0, "blinding failed");
  CHECK(oprf_Evaluate(k, b1, z1) == 0 && oprf_Evaluate(k, b2, z2) == 0, "evaluation failed");
  CHECK(oprf_Unblind(r1, z1, n1) == 0 && oprf_Unblind(r2, z2, n2) == 0, "unblinding failed");
  CHECK(vp_pt_ok(n1) && vp_pt(n1) == vp_mulp(kv, vp_pt(h)), "unblinded element is not the key times the hashed input");
  CHECK(vp_eq(n1, n2, 32), "result depends on the blinding factor");
  if(vp_sc(r1) != vp_sc(r2)) REACHED("two blinding factors");
#else
  uint8_t n[32], out[OPRF_BYTES];
  nd_bytes(n, 32);
  int e = oprf_Finalize(x, XLEN, n, out);
  CHECK(e == 0, "finalizing failed");
  CHECK(vp_nstreams == 1 && vp_stream_at(0)->alg == VP_SHA512 && vp_stream_at(0)->len == 2 + XLEN + 2 + 32 + 8, "length of the hashed string");
  const uint8_t *s = vp_stream_at(0)->b;
  CHECK(s[0] == (XLEN >> 8) && s[1] == (XLEN & 0xff), "input length");
  if(XLEN) { size_t p = nd_pos(XN); CHECK(s[2 + p] == x[p], "input"); }
  CHECK(s[2 + XLEN] == 0 && s[3 + XLEN] == 32, "element length");
  CHECK(vp_eq(s + 4 + XLEN, n, 32), "element");
  static const uint8_t fin[8] = {'F','i','n','a','l','i','z','e'};
  CHECK(vp_eq(s + 36 + XLEN, fin, 8), "suffix");
  uint8_t want[64];
  crypto_hash_sha512_state st;
  crypto_hash_sha512_init(&st);
  crypto_hash_sha512_update(&st, s, 44 + XLEN);
  crypto_hash_sha512_final(&st, want);
  CHECK(vp_eq(out, want, 64), "output is not the digest");
  REACHED("finalized");
#endif
}
