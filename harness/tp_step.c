/* One call of tpdkg_tp_next() in step STEP, from an arbitrary state of the
 * trusted party, on arbitrary input bytes.
 *
 *   STEP    0..9 without 7 (7 is in tp_resolve.c)
 *   NN, TT  protocol parameters
 *   PROP    number of the property whose obligations are generated
 *   CHMAX   size of the cheater list (default: enough for every violation)
 */
#include "common.h"

#if STEP==0
#define MPP 1
#define MSZ 0
#define MLEN 0
#define MSGNO 0
#define OUTSZ (NN*HDR)
#elif STEP==1
#define MPP 1
#define MSZ (HDR+64+64)
#define MLEN (HDR+64)
#define MSGNO 2
#define OUTSZ (HDR+NN*MLEN)
#define OUTNO 3
#define SLABEL 4
#elif STEP==2 || STEP==3
#define MPP NN
#define MSZ (HDR+48)
#define MLEN MSZ
#define MSGNO (2+STEP)
#define OUTSZ (NN*NN*MSZ)
#define SLABEL (STEP==2 ? 6 : 8)
#elif STEP==4
#define MPP 1
#define MSZ (HDR+32*TT)
#define MLEN MSZ
#define MSGNO 6
#define OUTSZ (HDR+NN*MSZ)
#define OUTNO 7
#define SLABEL 12
#elif STEP==5
#define MPP NN
#define MSZ (HDR+64+33+16+32)
#define MLEN MSZ
#define MSGNO 8
#define OUTSZ (NN*NN*MSZ)
#define SLABEL 14
#elif STEP==6
#define MPP 1
#define MSZ (HDR+NN+1)
#define MLEN MSZ
#define MSGNO 9
#define OUTSZ (HDR+NN*MSZ)
#define OUTNO 10
#define SLABEL 16
#elif STEP==8
#define MPP 1
#define MSZ (HDR+32)
#define MLEN MSZ
#define MSGNO 20
#define OUTSZ (HDR+2)
#define OUTNO 21
#define SLABEL 20
#elif STEP==9
#define MPP 1
#define MSZ (HDR+2)
#define MLEN MSZ
#define MSGNO 22
#define OUTSZ 0
#define SLABEL 22
#endif
#define INSZ ((size_t) NN*MPP*MSZ)
#define TO (MPP!=1 ? 0 : STEP>=8 ? 0 : 0xff)
#ifndef CHMAX
#define CHMAX (NN*NN+2*NN+2)
#endif
#define PRE 5 /* bytes absorbed by the transcript before the step */

static TP_DKG_TPState tp;

#define BUF(name, type, cnt) static type name[(cnt) ? (cnt) : 1]

void vp_harness(void) {
  typedef uint8_t b32[32];
  typedef uint8_t msg8[HDR+64+33+16+32];
  BUF(commitments, b32, NN*TT);
  BUF(complaints, uint16_t, NN*NN);
  BUF(enc, msg8, NN*NN);
  BUF(cheaters, TP_DKG_Cheater, CHMAX);
  BUF(pks, b32, NN);
  BUF(lts, b32, NN);
  BUF(last, uint64_t, NN);
  BUF(in, uint8_t, INSZ);
  BUF(out, uint8_t, OUTSZ);
  uint64_t last0[NN];

  nd_clock();
  tp.step = STEP; tp.prev = STEP - 1; tp.n = NN; tp.t = TT;
  tp.ts_epsilon = GOOD ? GOOD_EPS : nd_u32();
  ASSUME(tp.ts_epsilon < TS_MIN);
  nd_id(tp.sessionid, 32, 0x50);
  nd_id(tp.sig_pk, 32, 0x70); nd_id(tp.sig_sk, 64, 0x90);
  crypto_generichash_init(&tp.transcript, NULL, 0, 32);
  uint8_t pre[PRE];
  nd_bytes(pre, PRE);
  crypto_generichash_update(&tp.transcript, pre, PRE);
#if STEP==8
  uint8_t want[32];
  { crypto_generichash_state h; crypto_generichash_init(&h, NULL, 0, 32); crypto_generichash_update(&h, pre, PRE); crypto_generichash_final(&h, want, 32); }
#endif
  tpdkg_tp_set_bufs(&tp, (void*) commitments, (void*) complaints, (void*) enc, (void*) cheaters, CHMAX, (void*) pks, (void*) lts, last);
  for(int i = 0; i < NN; i++) {
    CHECKP(11, last[i] == vp_now, "a fresh state does not refer to the current time");
    nd_id(pks[i], 32, (uint8_t) (16*i)); nd_id(lts[i], 32, (uint8_t) (16*i + 128));
    last0[i] = nd_last();
    last[i] = last0[i];
  }
  tp.complaints_len = 0; tp.cheater_len = 0;

  size_t in_len = tpdkg_tp_input_size(&tp), out_len = tpdkg_tp_output_size(&tp);
  CHECKP(14, in_len == INSZ, "announced input size");
  CHECKP(14, out_len == OUTSZ, "announced output size");
  size_t sizes[NN];
  CHECKP(14, tpdkg_tp_input_sizes(&tp, sizes) == 1 && sizes[NN-1] == MPP*MSZ && sizes[0] == MPP*MSZ, "announced message sizes");
  ASSUME(in_len == INSZ && out_len == OUTSZ);
  nd_bytes(in, INSZ);
  vp_region = in; vp_region_len = INSZ;
#if STEP==6 && defined SHAPE
  { /* number of complaints per peer; 0xff: any */
    static const uint8_t shape[NN] = {SHAPE};
    for(int j = 0; j < NN; j++) if(shape[j] != 0xff) in[j*MSZ + HDR] = shape[j];
  }
#endif

#if STEP!=0
  unsigned v[NN][MPP]; int fr = 0;
  for(int j = 0; j < NN; j++) for(int i = 0; i < MPP; i++) {
    uint8_t *p = in + (size_t)(j*MPP + i)*MSZ;
    if(GOOD) { vp_slot_force = 1; good_envelope(p, MLEN, MSGNO, (uint8_t)(j+1), (uint8_t)(MPP==1 ? TO : i+1), tp.sessionid, GOOD_LAST + 3*(uint64_t) i + (uint64_t) j); }
    int valid = vp_slot_add(p, p + 64, MLEN - 64, STEP==1 ? p + HDR : pks[j]);
    v[j][i] = envelope(p, MLEN, MSGNO, (uint8_t)(j+1), (uint8_t)(MPP==1 ? TO : i+1), tp.sessionid, tp.ts_epsilon,
                       i==0 ? last0[j] : be64(in + (size_t)(j*MPP + i-1)*MSZ + O_TS), valid, &fr);
  }
#endif
  int ltok = 1;
#if STEP==1
  for(int j = 0; j < NN; j++) { const uint8_t *p = in + j*MSZ; if(!vp_slot_add(p + MLEN, p, MLEN, lts[j])) ltok = 0; }
#endif

  int ret = tpdkg_tp_next(&tp, STEP==0 ? NULL : in, in_len, OUTSZ ? out : NULL, out_len);

#if PROP==12
  CHECK(tp.cheater_len <= CHMAX, "cheater list overrun");
  CHECK(tp.complaints_len <= NN*NN, "complaint list overrun");
  if(ret == 0) { /* what is announced for the next step depends on the complaints kept */
    tpdkg_tp_input_size(&tp); tpdkg_tp_input_sizes(&tp, sizes); tpdkg_tp_output_size(&tp);
  }
#endif
#if STEP==0
  CHECKP(10, ret == 0, "assigning indices failed");
  CHECKP(14, ret == 0, "assigning indices failed");
  for(int i = 0; i < NN; i++) {
    CHECKP(10, well_formed(out + i*HDR, HDR, 1, 0, (uint8_t)(i+1), tp.sessionid, tp.sig_sk), "index message not well formed or not signed");
    CHECKP(14, out[i*HDR + O_TO] == i+1, "index message to the wrong peer");
  }
  CHECKP(13, ret == 0 && tp.cheater_len == 0, "cheater recorded without any message");
#else
  /* content rules */
  unsigned content[NN]; /* bit e: the peer broke the content rule with code e */
  int toomany = 0;
  for(int j = 0; j < NN; j++) content[j] = 0;
#if STEP==6
  int total = 0;
  for(int j = 0; j < NN; j++) {
    const uint8_t *d = in + j*MSZ + HDR;
    if(d[0] > NN) content[j] |= BIT(1);
    else for(int k = 0; k < NN; k++) if(k < d[0]) {
      int dup = 0;
      for(int l = 0; l < k; l++) if(d[1+l] == d[1+k]) dup = 1;
      if(d[1+k] < 1 || d[1+k] > NN) content[j] |= BIT(7);
      else if(dup) content[j] |= BIT(8);
      else if(!v[j][0]) total++;
    }
  }
  if(total >= TT*TT) toomany = 1;
#elif STEP==8
  for(int j = 0; j < NN; j++) if(!vp_eq(in + j*MSZ + HDR, want, 32)) content[j] = BIT(1);
#elif STEP==9
  for(int j = 0; j < NN; j++) if(in[j*MSZ + HDR] != 'O' || in[j*MSZ + HDR + 1] != 'K') content[j] = BIT(1);
#endif

  int anyenv = 0, anyts = 0, anycontent = 0, bad[NN];
  for(int j = 0; j < NN; j++) {
    bad[j] = content[j] != 0;
    if(content[j]) anycontent = 1;
    for(int i = 0; i < MPP; i++) {
      if(v[j][i]) bad[j] = 1;
      if(v[j][i] & ~BIT(V_TS)) anyenv = 1;
      if(v[j][i] & BIT(V_TS)) anyts = 1;
    }
  }
  int good = !anyenv && !anyts && !fr && !anycontent && !toomany && ltok;

  if(ret == 0) {
    CHECKP(10, !anyenv, "accepted a message with a bad envelope");
    CHECKP(10, ltok, "accepted a message without the long-term signature");
    CHECKP(11, !anyts, "accepted a stale, future or reordered message");
    for(int j = 0; j < NN; j++)
      CHECKP(11, last[j] == be64(in + (size_t)(j*MPP + MPP-1)*MSZ + O_TS), "reference timestamp not advanced");
    CHECKP(13, !anycontent && !toomany, "accepted a message with bad content");
    CHECKP(16, !anycontent, "success with a differing transcript");
    CHECKP(13, tp.cheater_len == 0, "cheater recorded in a successful step");
    CHECKP(13, tp.step == (STEP==6 ? (tp.complaints_len ? 7 : 8) : STEP+1), "wrong successor step");
#ifndef NEVER_ACCEPTED
    REACHED("accepted");
#endif
  } else {
    if(PROP == 10 || PROP == 11 || PROP == 13 || PROP == 14) CHECK(!good, "correct messages refused");
    CHECKP(13, !tpdkg_tp_not_done(&tp), "not finished after a failed step");
#if !GOOD
    REACHED("refused");
#endif
  }

#if PROP==13
  /* attribution */
  CHECK(tp.cheater_len <= CHMAX, "cheater list overrun");
  ASSUME(tp.cheater_len <= CHMAX);
  unsigned rec[NN]; int anon = 0;
  for(int j = 0; j < NN; j++) rec[j] = 0;
  for(size_t c = 0; c < CHMAX; c++) if(c < tp.cheater_len) {
    const TP_DKG_Cheater *x = &cheaters[c];
    CHECK(x->step == SLABEL, "cheater recorded for the wrong step");
    if(STEP==6 && x->error == 6) { CHECK(toomany, "too many complaints recorded although there were not"); anon = 1; continue; }
    CHECK(x->peer >= 1 && x->peer <= NN, "recorded peer does not exist");
    ASSUME(x->peer >= 1 && x->peer <= NN);
    int j = x->peer - 1;
    CHECK(bad[j], "honest peer recorded as cheater");
    rec[j] = 1;
    unsigned env = 0; int earlier = 0;
    if(MPP == 1) env = v[j][0];
    else {
      CHECK(x->other_peer >= 1 && x->other_peer <= NN, "recorded recipient does not exist");
      ASSUME(x->other_peer >= 1 && x->other_peer <= NN);
      for(int i = 0; i < MPP; i++) { if(i < x->other_peer - 1 && v[j][i]) earlier = 1; if(i == x->other_peer - 1) env = v[j][i]; }
      CHECK(env || earlier, "recorded message was correct");
    }
    int base = STEP==8 ? 1 : 64, ok = 0;
    if(x->error > base && x->error <= base + 7) ok = earlier || (env >> (x->error - base)) & 1;
    if(!env && !earlier) {
      if(STEP==6 && x->error == 64 + 1) ok = (content[j] >> 1) & 1;
      else if(x->error >= 1 && x->error <= 8) ok = (content[j] >> x->error) & 1;
    }
    CHECK(ok, "recorded code names a rule the peer did not break");
  }
  if(!fr && ltok) for(int j = 0; j < NN; j++) CHECK(!bad[j] || rec[j], "misbehaving peer not recorded");
  if(STEP==6 && !fr) CHECK(anon == toomany, "too many complaints not recorded");
#endif

#if GOOD || STEP==8 || STEP==9
  if(ret == 0) {
    /* routing */
    const uint8_t *m; size_t l;
    for(int i = 0; i < NN; i++) {
      int r = tpdkg_tp_peer_msg(&tp, out, out_len, (uint8_t) i, &m, &l);
      CHECKP(14, r == 0, "message for a peer not available");
#if OUTSZ == 0
      CHECKP(14, l == 0, "message for a peer where there is none");
#elif defined OUTNO
      CHECKP(14, m == out && l == OUTSZ, "peer not handed the whole broadcast");
#else
      CHECKP(14, m == out + (size_t) i*NN*MSZ && l == (size_t) NN*MSZ, "peer not handed its own messages");
#endif
    }
#if defined OUTNO
    CHECKP(10, well_formed(out, OUTSZ, OUTNO, 0, 0xff, tp.sessionid, tp.sig_sk), "broadcast not well formed or not signed");
#endif
#if STEP==1 || STEP==4 || STEP==6
    for(int j = 0; j < NN; j++)
      CHECKEQ(14, out + HDR + (size_t) j*MLEN, in + (size_t) j*MSZ, MLEN, "broadcast does not contain the peer's message");
#elif STEP==2 || STEP==3 || STEP==5
    if(PROP==14) {
      size_t j = nd_pos(NN), i = nd_pos(NN), k = nd_pos(MSZ);
      CHECK(out[(i*NN + j)*MSZ + k] == in[(j*NN + i)*MSZ + k], "message routed to the wrong place or altered");
    }
#endif
#if STEP==1
    for(int j = 0; j < NN; j++) CHECKEQ(10, pks[j], in + j*MSZ + HDR, 32, "session key of a peer not the announced one");
#else
    for(int j = 0; j < NN; j++) CHECKP(10, vp_slots[j*MPP].mlen && vp_eq(vp_slots[j*MPP].pk, pks[j], 32), "session key of a peer changed");
#endif
#if STEP==4
    for(int j = 0; j < NN*TT; j++) CHECKEQ(15, commitments[j], in + (size_t)(j/TT)*MSZ + HDR + (size_t)(j%TT)*32, 32, "commitment kept for complaints differs");
#elif STEP==5
    if(PROP==15) {
      size_t j = nd_pos(NN*NN), k = nd_pos(MSZ);
      CHECK(enc[j][k] == in[j*MSZ + k], "share message kept for complaints differs");
    }
#elif STEP==6
    { /* the complaints kept are exactly those made */
      size_t cnt = 0;
      for(int j = 0; j < NN; j++) {
        const uint8_t *d = in + j*MSZ + HDR;
        for(int k = 0; k < NN; k++) if(k < d[0]) {
          int hit = 0;
          for(int c = 0; c < NN*NN; c++) if(c < tp.complaints_len && complaints[c] == (uint16_t)(((j+1) << 8) | d[1+k])) hit++;
          CHECKP(15, hit == 1, "complaint not kept exactly once");
          cnt++;
        }
      }
      CHECKP(15, tp.complaints_len == cnt, "number of complaints");
    }
#endif
#if STEP==8
    CHECKP(16, out[HDR] == 'O' && out[HDR+1] == 'K', "no positive confirmation after success");
#endif
  }
#endif
#if STEP==8
  if(ret != 0) {
    CHECKP(16, out[HDR] == 'N' && out[HDR+1] == 'O', "no negative confirmation after failure");
    CHECKP(16, well_formed(out, OUTSZ, OUTNO, 0, 0xff, tp.sessionid, tp.sig_sk), "negative confirmation not well formed or not signed");
    if(!fr && !anyenv && !anyts) CHECKP(16, anycontent, "failure although all transcripts agree");
  }
#endif
#endif /* STEP!=0 */

#if PROP==16 && STEP!=8
  if(ret == 0) { /* transcript: what was absorbed before, and the broadcast with its length */
    const vp_stream *s = vp_stream_of(&tp.transcript);
    size_t n = vp_absorbed(&tp.transcript);
    CHECK(vp_eq(s->b, pre, PRE), "transcript altered");
#if defined OUTNO
    CHECK(n == PRE + 4 + OUTSZ, "broadcast not in the transcript");
    CHECK(be32(s->b + PRE) == OUTSZ, "broadcast length not in the transcript");
    CHECKEQ(16, s->b + PRE + 4, out, OUTSZ, "transcript differs from the broadcast");
#else
    CHECK(n == PRE, "transcript changed without a broadcast");
#endif
  }
#endif
}
