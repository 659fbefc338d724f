/* The sizes both sides announce fit together, and the messages for the peers
 * are handed out from within the buffer, for all n and t.
 *
 *   NMAX  largest number of peers
 *   STEP  step that produces the messages
 *   MODE  0: from the trusted party to a peer, 1: from a peer to the trusted party
 */
#include "common.h"
#define M8 (HDR+64+33+16+32)
static TP_DKG_TPState tp;
static TP_DKG_PeerState peer;
#if MODE==0
static uint8_t base[(size_t) NMAX*NMAX*M8];
#else
static size_t sizes[256];
#endif

void vp_harness(void) {
  uint8_t n = nd_u8(), t = nd_u8();
#ifdef NFIX
  n = NFIX;
#endif
  ASSUME(n >= 2 && n <= NMAX && t >= 2 && t <= n);
  tp.n = peer.n = n; tp.t = peer.t = t;
#if MODE==0
  tp.step = STEP;
  size_t out = tpdkg_tp_output_size(&tp);
  CHECK(out <= sizeof base, "output larger than the largest messages together");
  tp.prev = STEP; tp.step = STEP + 1;
  peer.step = STEP == 8 ? 9 : STEP;
  peer.complaints_len = 0;
  size_t want = tpdkg_peer_input_size(&peer);
  const uint8_t *m = NULL; size_t l = 0;
  uint8_t p = nd_u8();
  size_t given = nd_u32();
  ASSUME(given <= sizeof base);
  int r = tpdkg_tp_peer_msg(&tp, base, given, p, &m, &l);
  CHECK((r == 0) || p >= n || given < out, "message for a peer not available");
  if(r == 0) {
    CHECK(p < n, "message for a peer that does not exist");
    CHECK(l == want, "message for a peer is not as long as the peer expects");
    size_t off = (size_t) (m - base);
    CHECK(off <= given && l <= given - off, "message for a peer reaches beyond the buffer");
    CHECK(out == want ? off == 0 : off == (size_t) p*want, "message of another peer");
    REACHED("handed out");
  } else if(p < n) REACHED("refused");
#else
  peer.step = STEP;
  tp.step = STEP < 8 ? STEP + 1 : STEP;
  size_t each = tpdkg_peer_output_size(&peer);
  CHECK(tpdkg_tp_input_sizes(&tp, sizes) == 1, "messages of different sizes announced");
  size_t k = nd_pos(NMAX);
  if(k < n) CHECK(sizes[k] == each, "trusted party expects another size than the peer sends");
  CHECK(tpdkg_tp_input_size(&tp) == (size_t) n*each, "total is not the sum");
  REACHED("compared");
#endif
}
