/* C07: MODE 0 one dealer, 1 all dealers */
#include "alg.h"
/* does the share match? */
static int matches(uint8_t c[TT][32], unsigned x, unsigned sv) {
  unsigned e = 0, pw = 1; int ok = 1;
  for(int k = 0; k < TT; k++) {
    if(!vp_pt_ok(c[k]) || (k > 0 && vp_pt(c[k]) == 0)) ok = 0;
    else e = vp_mod(e + vp_mulp(pw, vp_pt(c[k])));
    pw = vp_mulp(pw, x);
  }
  return ok && e == vp_mod(sv);
}
void vp_harness(void) {
#ifdef SELF
  uint8_t self = SELF;
#else
  uint8_t self = nd_u8();
  ASSUME(self >= 1 && self <= NN);
#endif
#if MODE == 0
  static uint8_t c[TT][32];
  TOPRF_Share s;
  nd_bytes(c, sizeof c);
  s.index = nd_u8();
  unsigned sv = nd_scalar(s.value);
#ifdef SMALL
  for(int k = 0; k < TT; k++) ASSUME(vp_pt_ok(c[k]) && vp_pt(c[k]) < SMALL);
#endif
  uint8_t i = nd_u8();
  ASSUME(i >= 1 && i <= NN && i != self);
  int e = dkg_verify_commitment(NN, TT, self, i, c, s);
  CHECK((e == 0) == matches(c, self, sv), "share accepted although it does not match, or refused although it does");
  if(e == 0) REACHED("verified"); else REACHED("refused");
#else
  static uint8_t c[NN][TT][32];
  TOPRF_Share s[NN]; unsigned sv[NN];
  uint8_t fails[NN + 1], len = nd_u8();
  nd_bytes(c, sizeof c); nd_bytes(fails, sizeof fails);
  uint8_t guard = fails[NN];
  for(int i = 0; i < NN; i++) { s[i].index = nd_u8(); sv[i] = nd_scalar(s[i].value); }
  int e = dkg_verify_commitments(NN, TT, self, c, s, fails, &len);
  unsigned cnt = 0;
  CHECK(len <= NN && fails[NN] == guard, "too many failing dealers");
  for(int i = 0; i < NN; i++) {
    if(i + 1 == self || matches(c[i], self, sv[i])) continue;
    CHECK(cnt < len && fails[cnt < NN ? cnt : 0] == i + 1, "failing dealer not listed in its place");
    cnt++;
  }
  CHECK(cnt == len, "dealer listed without cause");
  CHECK((e != 0) == (cnt != 0), "return value contradicts the list");
  if(cnt == NN - 1) REACHED("all fail");
  if(cnt == 0) REACHED("all verify");
#endif
}
