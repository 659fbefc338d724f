/* One call of tpdkg_tp_next() in the step that resolves complaints, on
 * arbitrary disclosed keys, stored share messages and commitments.
 *
 *   NN, TT      protocol parameters
 *   COMPLAINTS  complaints made, (complainer << 8) | accused
 *   ANSWERS     whom the disclosures name, in the order of the messages;
 *               ANY: as the solver pleases
 *   GOOD        envelopes of the disclosures are in order
 *   FROMS       otherwise: the sender each message claims
 *   CHMAX       size of the cheater list
 */
#include "common.h"
#define ANY 0x1ff
#define M8 (HDR+64+33+16+32)
#ifndef CHMAX
#define CHMAX 12
#endif
static const uint16_t complaint[] = {COMPLAINTS};
static const uint16_t answer[] = {ANSWERS};
#ifdef FROMS
static const uint8_t froms[NN] = {FROMS};
#endif
#define NC (sizeof complaint / sizeof complaint[0])
#define IN_MAX (NN*HDR + 33*NC)
#define PRE 5
static TP_DKG_TPState tp;

void vp_harness(void) {
  typedef uint8_t b32[32];
  typedef uint8_t msg8[M8];
  static b32 commitments[NN*TT], pks[NN], lts[NN];
  static uint16_t complaints[NN*NN];
  static msg8 enc[NN*NN];
  static TP_DKG_Cheater cheaters[CHMAX];
  static uint64_t last[NN];
  uint64_t last0[NN];
  unsigned ctr[NN], nmsg = 0;
  for(int i = 0; i < NN; i++) ctr[i] = 0;
  for(unsigned c = 0; c < NC; c++) if(ctr[(complaint[c] & 0xff) - 1]++ == 0) nmsg++;
  static uint8_t in[NMSG*HDR + 33*NC];

  nd_clock();
  tp.step = 7; tp.prev = 6; tp.n = NN; tp.t = TT;
  tp.ts_epsilon = GOOD ? GOOD_EPS : nd_u32();
  ASSUME(tp.ts_epsilon < TS_MIN);
  nd_id(tp.sessionid, 32, 0x50);
  nd_id(tp.sig_pk, 32, 0x70); nd_id(tp.sig_sk, 64, 0x90);
  crypto_generichash_init(&tp.transcript, NULL, 0, 32);
  tpdkg_tp_set_bufs(&tp, (void*) commitments, (void*) complaints, (void*) enc, (void*) cheaters, CHMAX, (void*) pks, (void*) lts, last);
  for(int i = 0; i < NN; i++) {
    nd_id(pks[i], 32, (uint8_t) (16*i));
    last[i] = last0[i] = nd_last();
  }
  tp.cheater_len = 0;
  tp.complaints_len = NC;
  for(unsigned c = 0; c < NC; c++) complaints[c] = complaint[c];
  for(int i = 0; i < NN*TT; i++) nd_bytes(commitments[i], 32);
  /* the stored share messages were accepted when they came in */
  vp_slot_force = 1;
  for(unsigned c = 0; c < NC; c++) {
    unsigned a = complaint[c] & 0xff, b = complaint[c] >> 8;
    uint8_t *p = enc[(a-1)*NN + (b-1)];
    nd_bytes(p, M8);
    good_envelope(p, M8, 8, (uint8_t) a, (uint8_t) b, tp.sessionid, GOOD_LAST);
    vp_slot_add(p, p + 64, M8 - 64, pks[a-1]);
  }
  vp_slot_force = GOOD;

  CHECKP(14, tpdkg_tp_input_size(&tp) == sizeof in && tpdkg_tp_output_size(&tp) == 0, "announced sizes");
  size_t sizes[NN];
  CHECKP(14, tpdkg_tp_input_sizes(&tp, sizes) == 0, "announced sizes differ from peer to peer");
  for(int i = 0; i < NN; i++) CHECKP(14, sizes[i] == (ctr[i] ? HDR + 33*ctr[i] : 0), "announced message sizes");
  nd_bytes(in, sizeof in);

  /* what has to be recorded */
  unsigned v[NN]; int fr = 0;                  /* envelopes */
  int answered[NC];
  unsigned unasked[NN], uc[NC], nun = 0;      /* disclosures nobody asked for */
  int mac[NC], dec[NC], idx[NC], ver[NC];
  for(unsigned c = 0; c < NC; c++) answered[c] = mac[c] = dec[c] = idx[c] = ver[c] = 0;
  for(int i = 0; i < NN; i++) unasked[i] = 0;
  uint8_t *p = in;
  unsigned e = 0;
  for(unsigned i = 0; i < NN; i++) {
    v[i] = 0;
    if(!ctr[i]) continue;
    size_t l = HDR + 33*ctr[i];
    if(GOOD) good_envelope(p, l, 11, (uint8_t) (i+1), 0, tp.sessionid, GOOD_LAST + 1);
#ifdef FROMS
    p[O_FROM] = froms[i];
#endif
    int valid = vp_slot_add(p, p + 64, l - 64, pks[i]);
    v[i] = envelope(p, l, 11, (uint8_t) (i+1), 0, tp.sessionid, tp.ts_epsilon, last0[i], valid, &fr);
    for(unsigned k = 0; k < ctr[i]; k++, e++) {
      uint8_t *d = p + HDR + 33*k;
      if(answer[e] != ANY) d[0] = (uint8_t) answer[e];
      int hit = 0;
      for(unsigned c = 0; c < NC; c++) if(!hit && !answered[c] && complaint[c] == (uint16_t) ((d[0] << 8) | (i+1))) {
        hit = answered[c] = 1;
        const uint8_t *m = enc[i*NN + (complaint[c] >> 8) - 1];
        /* ideal authenticator and encryption for this message and key */
        vp_macslot *ms = &vp_macs[c]; vp_aeadslot *as = &vp_aeads[c];
        ms->m = m + HDR + 64; ms->mlen = 49; ms->mac = m + HDR + 64 + 49; ms->valid = mac[c] = nd_bool();
        as->c = m + HDR + 64; as->clen = 49; as->valid = dec[c] = nd_bool();
        for(int z = 0; z < 32; z++) ms->k[z] = as->k[z] = d[1+z];
        nd_bytes(as->pt, 33);
        idx[c] = as->pt[0] == (complaint[c] >> 8);
        unsigned sum = 0; int ok = 1;
        for(int q = TT - 1; q >= 0; q--) {
          const uint8_t *C = commitments[i*TT + (unsigned) q];
          if(!vp_pt_ok(C) || (q && vp_pt(C) == 0)) ok = 0;
          sum = vp_mod(vp_mulp(sum, complaint[c] >> 8) + vp_pt(C));
        }
        ver[c] = ok && sum == vp_sc(as->pt + 1);
      }
      if(!hit) { uc[nun] = d[0]; nun++; unasked[i]++; }
    }
    p += l;
  }
  vp_nmacs = vp_naeads = NC;
  vp_region = (const uint8_t*) enc; vp_region_len = sizeof enc;

  int ret = tpdkg_tp_next(&tp, in, sizeof in, NULL, 0);

  if(PROP == 15 || PROP == 13) {
    CHECK(ret != 0, "success in spite of complaints");
    CHECK(!tpdkg_tp_not_done(&tp), "not finished after complaints");
    CHECK(tp.cheater_len <= CHMAX, "cheater list overrun");
    ASSUME(tp.cheater_len <= CHMAX);
    unsigned want = 0;
    for(unsigned i = 0; i < NN; i++) {
      if(!ctr[i]) continue;
      /* the discloser itself */
      unsigned env = 0, un = 0;
      for(unsigned r = 0; r < CHMAX; r++) if(r < tp.cheater_len && cheaters[r].peer == i+1) {
        int x = cheaters[r].error;
        if(x > 32 && x <= 32 + 7) { env++; if(!fr) CHECK((v[i] >> (x - 32)) & 1, "recorded code names a rule the peer did not break"); }
        if(x == 6) un++;
      }
      if(!fr) CHECK(env == (v[i] ? 1 : 0), "bad disclosure message not recorded exactly once, or a good one recorded");
      if(!fr) CHECK(un == (v[i] ? 0 : unasked[i]), "disclosures nobody asked for");
      want += v[i] ? 1 : unasked[i];
    }
    for(unsigned c = 0; c < NC; c++) {
      unsigned a = complaint[c] & 0xff, b = complaint[c] >> 8, cnt = 0, env = v[a-1];
      want++;
      for(unsigned r = 0; r < CHMAX; r++) if(r < tp.cheater_len && cheaters[r].peer == a && cheaters[r].other_peer == b && cheaters[r].error != 6) {
        int x = cheaters[r].error;
        cnt++;
        CHECK(cheaters[r].step == 18, "verdict recorded for another step");
        if(fr) continue;
        if(env || !answered[c]) CHECK(x == 7, "accused not blamed for not disclosing the key");
        else if(!mac[c] || !dec[c] || !idx[c]) {
          CHECK((x == 3 && !mac[c]) || (x == 4 && !dec[c]) || (x == 5 && !idx[c]), "accused not blamed for a share it cannot prove");
          if(x == 5) CHECK(cheaters[r].invalid_index == vp_aeads[c].pt[0], "index of the bad share not recorded");
        } else if(ver[c]) CHECK(x == 128, "complainer not blamed although the share is correct");
        else CHECK(x == 129 || x == 127, "accused not blamed although the share is wrong");
      }
      CHECK(cnt == 1, "not exactly one verdict for a complaint");
    }
    if(!fr) CHECK(tp.cheater_len == want, "number of records");
#ifdef BLAMED
    if(ver[0] && mac[0] && dec[0] && idx[0] && answered[0] && !v[(complaint[0] & 0xff) - 1]) REACHED("complainer blamed");
    if(!ver[0] && mac[0] && dec[0] && idx[0] && answered[0]) REACHED("accused blamed");
#endif
  }
  CHECKP(14, ret != 0, "success in spite of complaints");
  CHECKP(12, tp.cheater_len <= CHMAX, "cheater list overrun");
  REACHED("resolved");
}
