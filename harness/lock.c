/* C21: every memory lock may fail, inputs are arbitrary bytes.
 * MODE 0 Blind, 1 Unblind, 2 hash to group, 3 Finalize, 4 DKG dealing */
#include "alg.h"
#ifndef XLEN
#define XLEN 4
#endif
void vp_harness(void) {
  uint8_t x[XLEN], r[32], p[32], out[64];
  nd_bytes(x, XLEN); nd_bytes(r, 32); nd_bytes(p, 32);
  vp_mlock_may_fail = 1;
#if MODE == 0
  int e = oprf_Blind(x, XLEN, r, out);
#elif MODE == 1
  int e = oprf_Unblind(r, p, out);
#elif MODE == 2
  int e = voprf_hash_to_group(x, XLEN, out);
#elif MODE == 3
  int e = oprf_Finalize(x, XLEN, p, out);
#else
  static uint8_t c[TT][32];
  static TOPRF_Share s[NN];
  int e = dkg_start(NN, TT, c, s);
#endif
  CHECK(vp_lock_errors == 0, "memory unlocked that was not locked, or not in the same extent");
  CHECK(vp_locks_live == 0, "memory left locked and not wiped");
  CHECK(!vp_lock_failures || e != 0, "success although locking failed");
  CHECK(e != 0 || vp_locks_total > 0, "secrets not locked at all");
  if(vp_lock_failures) REACHED("locking failed");
  else if(e == 0) REACHED("succeeded");
#if MODE == 1
  else REACHED("failed otherwise");
#endif
}
