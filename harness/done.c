/* C13, C17: another step after the run has ended.  ROLE 0 trusted party, 1 peer */
#include "common.h"
#define BUF(name, type, cnt) static type name[(cnt) ? (cnt) : 1]
#if ROLE
static TP_DKG_PeerState ctx;
#define NEXT tpdkg_peer_next
#define NOT_DONE tpdkg_peer_not_done
#define FIRST 11
#else
static TP_DKG_TPState ctx;
#define NEXT tpdkg_tp_next
#define NOT_DONE tpdkg_tp_not_done
#define FIRST 10
#endif
void vp_harness(void) {
  static uint8_t in[64], out[64];
  nd_clock();
  nd_bytes(in, 64);
  ctx.n = NN; ctx.t = TT;
#if ROLE
  nd_bytes(&ctx.share, sizeof ctx.share);
  TOPRF_Share share0 = ctx.share;
#else
  static TP_DKG_Cheater cheaters[4];
  ctx.cheaters = (void*) cheaters; ctx.cheater_max = 4;
  size_t n0 = nd_u8();
  ASSUME(n0 <= 4);
  ctx.cheater_len = (uint8_t) n0;
#endif
  /* constants, so that the steps before the end are not explored */
  for(int step = FIRST; step <= 110; step++) {
    ctx.step = step;
    CHECK(!NOT_DONE(&ctx), "a finished run is reported as not finished");
    size_t il = nd_u8(), ol = nd_u8();
    ASSUME(il <= 64 && ol <= 64);
    CHECK(NEXT(&ctx, in, il, out, ol) != 0, "a step after the end of the run succeeds");
    CHECK(!NOT_DONE(&ctx), "a finished run comes back to life");
  }
#if ROLE
  CHECKEQ(PROP, (uint8_t*) &ctx.share, (uint8_t*) &share0, sizeof share0, "key share changed after the end of the run");
#else
  CHECK(ctx.cheater_len == n0, "records changed after the end of the run");
#endif
  REACHED("refused");
}
