/* C03: FN 0 Evaluate, 1 Unblind, 2 toprf_Evaluate, 3 toprf_3hashtdh,
 * 4 thresholdmult, 5 thresholdcombine; CNT elements */
#include "alg.h"
#ifndef CNT
#define CNT 1
#endif
void vp_harness(void) {
  uint8_t k[33], z[33], el[32], out[33], r[32];
  unsigned kv = nd_scalar(k + 1), zv = nd_scalar(z + 1), rv = nd_scalar(r);
  k[0] = z[0] = nd_u8();
  nd_bytes(el, 32); nd_bytes(out, 33);
  int ok = vp_pt_ok(el), neutral = ok && vp_pt(el) == 0;
  (void) kv; (void) zv; (void) rv;
#if FN == 0
  int e = oprf_Evaluate(k + 1, el, out);
  if(!ok || neutral) CHECK(e != 0, "evaluation accepted an invalid or neutral element");
  else if(kv) CHECK(e == 0, "evaluation refused a valid element");
#elif FN == 1
  int e = oprf_Unblind(r, el, out);
  if(!ok || neutral) CHECK(e != 0, "unblinding accepted an invalid or neutral element");
  else if(rv == 0) CHECK(e != 0, "unblinding accepted a zero blinding factor");
  else CHECK(e == 0, "unblinding refused a valid element");
#elif FN == 2
  uint8_t idx[2]; unsigned q[2];
  nd_select(q, 2, 16);
  idx[0] = (uint8_t) (q[0] + 1); idx[1] = (uint8_t) (q[1] + 1);
  int e = toprf_Evaluate(k, el, idx[0], idx, 2, out);
  if(!ok || neutral) CHECK(e != 0, "threshold evaluation accepted an invalid or neutral element");
  else if(kv) CHECK(e == 0, "threshold evaluation refused a valid element");
#elif FN == 3
  uint8_t ssid[4];
  nd_bytes(ssid, 4);
  int e = toprf_3hashtdh(k, z, el, ssid, 4, out);
  if(!ok || neutral) CHECK(e != 0, "3HashTDH accepted an invalid or neutral element");
  else if(kv && zv) CHECK(e == 0, "3HashTDH refused a valid element");
#else
  partbuf p[CNT]; unsigned q[CNT]; int bad = 0, zero = 0;
  nd_select(q, CNT, 16);
  for(int i = 0; i < CNT; i++) {
    p[i][0] = (uint8_t) (q[i] + 1); nd_bytes(p[i] + 1, 32);
    if(!vp_pt_ok(p[i] + 1)) bad = 1;
    else if(vp_pt(p[i] + 1) == 0) zero = 1;
  }
#if FN == 4
  int e = toprf_thresholdmult(CNT, p, out);
  if(bad || zero) CHECK(e != 0, "interpolation accepted an invalid or neutral element");
  else CHECK(e == 0, "interpolation refused valid elements");
#else
  int e = toprf_thresholdcombine(CNT, p, out);
  if(bad) CHECK(e != 0, "combination accepted an invalid element");
  else CHECK(e == 0, "combination refused valid elements");
#endif
#endif
  if(e == 0) REACHED("accepted"); else REACHED("rejected");
}
