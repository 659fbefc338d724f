/* One call of tpdkg_peer_next() in step STEP, from an arbitrary state of a
 * peer as left behind by successful earlier steps, on arbitrary input bytes.
 *
 *   STEP    0..10
 *   NN, TT  protocol parameters
 *   IDX     index of this peer (default: 2)
 *   PROP    number of the property whose obligations are generated
 *   FAIL    operations of the secure channel library may fail
 */
#include "common.h"
#include "noise_model.h"
#ifndef IDX
#define IDX 2
#endif
#ifndef FAIL
#define FAIL 0
#endif

/* OUTER: a broadcast of the trusted party carrying one message per peer */
#if STEP==0
#define TPMSG 1
#define INSZ HDR
#define OUTSZ (HDR+64+64)
#define TPNO 1
#elif STEP==1
#define OUTER HDR
#define TPNO 3
#define MSZ (HDR+64)
#define MSGNO 2
#define OSZ (HDR+48)
#define OUTSZ (NN*OSZ)
#elif STEP==2 || STEP==3
#define MSZ (HDR+48)
#define MSGNO (2+STEP)
#if STEP==2
#define OSZ (HDR+48)
#define OUTSZ (NN*OSZ)
#else
#define OUTSZ (HDR+32*TT)
#endif
#elif STEP==4
#define OUTER HDR
#define TPNO 7
#define MSZ (HDR+32*TT)
#define MSGNO 6
#define OSZ (HDR+64+33+16+32)
#define OUTSZ (NN*OSZ)
#elif STEP==5
#define MSZ (HDR+64+33+16+32)
#define MSGNO 8
#define OUTSZ (HDR+NN+1)
#elif STEP==6
#define OUTER HDR
#define TPNO 10
#define MSZ (HDR+NN+1)
#define MSGNO 9
#define OUTSZ 0
#elif STEP==7
#define INSZ 0
#define OUTSZ (CNT ? HDR + CNT*33 : 0)
#elif STEP==8
#define INSZ 0
#define OUTSZ (HDR+32)
#elif STEP==9
#define TPMSG 1
#define INSZ (HDR+2)
#define OUTSZ (HDR+2)
#define TPNO 21
#elif STEP==10
#define INSZ 0
#define OUTSZ 0
#endif
#ifndef OUTER
#define OUTER 0
#endif
#ifndef INSZ
#define INSZ (OUTER + NN*MSZ)
#endif
#define PRE 5
#if STEP==7
#ifndef CNT   /* number of peers complaining about this one */
#define CNT 1
#endif
#endif
#define BUF(name, type, cnt) static type name[(cnt) ? (cnt) : 1]

static TP_DKG_PeerState ctx;

void vp_harness(void) {
  typedef uint8_t b32[32];
  BUF(pks, b32, NN); BUF(npks, b32, NN);
  static Noise_XK_session_t *outs[NN], *ins[NN];
  BUF(shares, TOPRF_Share, NN); BUF(xshares, TOPRF_Share, NN);
  BUF(commitments, b32, NN*TT);
  BUF(complaints, uint16_t, NN*NN);
  BUF(mine, uint8_t, NN);
  BUF(last, uint64_t, NN);
  BUF(in, uint8_t, INSZ);
  BUF(out, uint8_t, OUTSZ);
  uint64_t last0[NN], tplast0;

  nd_clock();
  ctx.step = STEP; ctx.prev = STEP - 1; ctx.n = NN; ctx.t = TT; ctx.index = STEP ? IDX : 0;
  ctx.ts_epsilon = GOOD ? GOOD_EPS : nd_u32();
  ASSUME(ctx.ts_epsilon < TS_MIN);
  nd_id(ctx.sessionid, 32, 0x50);
  nd_id(ctx.sig_pk, 32, 0x70); nd_id(ctx.sig_sk, 64, 0x90); nd_id(ctx.tp_sig_pk, 32, 0x30);
  nd_bytes(ctx.lt_sk, 64);
  nd_bytes(ctx.noise_sk, 32); nd_bytes(ctx.noise_pk, 32);
  nd_bytes(&ctx.share, sizeof ctx.share);
  TOPRF_Share share0 = ctx.share;
  uint8_t lt0[64];
  for(int i = 0; i < 64; i++) lt0[i] = ctx.lt_sk[i];
  crypto_generichash_init(&ctx.transcript, NULL, 0, 32);
  uint8_t pre[PRE];
  nd_bytes(pre, PRE);
  crypto_generichash_update(&ctx.transcript, pre, PRE);
#if STEP==8
  uint8_t want[32];
  { crypto_generichash_state h; crypto_generichash_init(&h, NULL, 0, 32); crypto_generichash_update(&h, pre, PRE); crypto_generichash_final(&h, want, 32); }
#endif
  tpdkg_peer_set_bufs(&ctx, (void*) pks, (void*) npks, (void*) outs, (void*) ins, (void*) shares, (void*) xshares, (void*) commitments, complaints, mine, last);
  for(int i = 0; i < NN; i++) {
    CHECKP(11, last[i] == 0, "a fresh state remembers timestamps");
    CHECKP(19, outs[i] == NULL && ins[i] == NULL, "a fresh state has sessions");
  }
  ctx.complaints_len = 0; ctx.my_complaints_len = 0;
  ctx.tp_last_ts = tplast0 = nd_last();
  for(int i = 0; i < NN; i++) {
    last[i] = last0[i] = STEP <= 1 ? 0 : nd_last();
    nd_id(pks[i], 32, (uint8_t) (16*i));
    if(STEP > 1) nd_bytes(npks[i], 32);
  }
  ctx.dev = NULL;
  if(STEP > 1) { vp_device(ctx.noise_sk); ctx.dev = vp_dev; }
  for(int i = 0; i < NN; i++) {
    if(STEP > 1) outs[i] = vp_session(1, STEP <= 3 ? ST_I_READ2 : STEP == 4 ? ST_I_WRITE3 : ST_TRANSPORT);
  }
  for(int i = 0; i < NN; i++) {
    if(STEP > 2) ins[i] = vp_session(0, STEP <= 5 ? ST_R_READ3 : ST_TRANSPORT);
  }
#if STEP>=4
  for(int i = 0; i < NN; i++) { shares[i].index = (uint8_t) (i + 1); nd_bytes(shares[i].value, 32); }
#endif
#if STEP>=5
  nd_bytes(commitments, sizeof commitments);
#endif
#if STEP>=6
  unsigned sum = 0;
  for(int i = 0; i < NN; i++) { xshares[i].index = IDX; sum = vp_mod(sum + nd_scalar(xshares[i].value)); }
#endif
#if STEP==7
  /* CNT distinct peers complain about this one, and there may be other complaints */
  for(int i = 0; i < CNT; i++) {
    mine[i] = nd_u8();
    ASSUME(mine[i] >= 1 && mine[i] <= NN);
    for(int j = 0; j < i; j++) ASSUME(mine[j] != mine[i]);
    complaints[i] = (uint16_t) ((mine[i] << 8) | IDX);
  }
  ctx.my_complaints_len = CNT;
  ctx.complaints_len = (uint16_t) (CNT + 1);
  complaints[CNT] = (uint16_t) (((IDX == 1 ? 2 : 1) << 8) | (IDX == 3 ? 2 : 3));
#endif
  vp_noise_may_fail = FAIL;

  size_t in_len = tpdkg_peer_input_size(&ctx), out_len = tpdkg_peer_output_size(&ctx);
  CHECKP(14, in_len == INSZ, "announced input size");
  CHECKP(14, out_len == OUTSZ, "announced output size");
  ASSUME(in_len == INSZ && out_len == OUTSZ);
  nd_bytes(in, INSZ);
  vp_region = in; vp_region_len = INSZ;
#if STEP==6 && defined SHAPE
  { static const uint8_t shape[NN] = {SHAPE};
    for(int j = 0; j < NN; j++) if(shape[j] != 0xff) in[OUTER + j*MSZ + HDR] = shape[j]; }
#endif

  /* envelopes */
  unsigned bad = 0; int fr = 0;
  if(GOOD) vp_slot_force = 1;
#if defined TPNO
  {
#if STEP==0
    uint8_t to = in[O_TO];
#ifdef IDX0
    to = IDX0;
#endif
#else
    uint8_t to = 0xff;
#endif
    size_t l = INSZ;
    if(GOOD) good_envelope(in, l, TPNO, 0, to, ctx.sessionid, GOOD_LAST + 2);
    int valid = vp_slot_add(in, in + 64, l - 64, ctx.tp_sig_pk);
    bad |= envelope(in, l, TPNO, 0, to, ctx.sessionid, ctx.ts_epsilon, tplast0, valid, &fr);
  }
#endif
#if defined MSGNO
  for(int i = 0; i < NN; i++) {
    uint8_t *p = in + OUTER + i*MSZ, to = OUTER ? 0xff : IDX;
    if(GOOD) good_envelope(p, MSZ, MSGNO, (uint8_t) (i+1), to, ctx.sessionid, STEP == 1 ? GOOD_NOW + 1 : GOOD_LAST + (uint64_t) i);
    int valid = vp_slot_add(p, p + 64, MSZ - 64, STEP==1 ? p + HDR : pks[i]);
    bad |= envelope(p, MSZ, MSGNO, (uint8_t) (i+1), to, ctx.sessionid, ctx.ts_epsilon, last0[i], valid, &fr);
  }
#endif

  /* contents the step must not accept */
  int content = 0;
#if STEP==0
  if(in[O_TO] < 1 || in[O_TO] > NN) content = 1;
#elif STEP==6
  int count = 0, about[NN];
  for(int j = 0; j < NN; j++) {
    const uint8_t *d = in + OUTER + j*MSZ + HDR;
    about[j] = 0;
    if(d[0] > NN) content = 1;
    else for(int k = 0; k < NN; k++) if(k < d[0]) { count++; if(d[1+k] == IDX) about[j] = 1; }
  }
#elif STEP==9
  if(in[HDR] != 'O' || in[HDR+1] != 'K') content = 1;
#endif
#if STEP==5
  int macbad = 0;
#endif

  int ret = tpdkg_peer_next(&ctx, INSZ ? in : NULL, in_len, OUTSZ ? out : NULL, out_len);

#if PROP==12
  CHECK(ctx.complaints_len <= NN*NN && ctx.my_complaints_len <= NN, "complaint list overrun");
  if(ret == 0) { tpdkg_peer_input_size(&ctx); tpdkg_peer_output_size(&ctx); }
#endif
#if STEP==5
  macbad = vp_macs_refused != 0;
  content |= macbad;
#endif
  if(ret == 0) {
    CHECKP(10, !(bad & ~BIT(V_TS)), "accepted a message with a bad envelope");
    CHECKP(18, !(bad & ~BIT(V_TS)), "accepted a message with a bad envelope");
    CHECKP(17, !(bad & ~BIT(V_TS)), "accepted a message with a bad envelope");
    CHECKP(11, !(bad & BIT(V_TS)), "accepted a stale, future or reordered message");
#if defined TPNO
    CHECKP(11, ctx.tp_last_ts == be64(in + O_TS), "reference timestamp not advanced");
#endif
#if defined MSGNO
    for(int i = 0; i < NN; i++) CHECKP(11, last[i] == be64(in + OUTER + i*MSZ + O_TS), "reference timestamp not advanced");
#endif
#if STEP==0
    CHECKP(18, !content, "accepted an index out of range");
    CHECKP(18, ctx.index == in[O_TO], "adopted another index than assigned");
    CHECKP(18, ctx.n == NN && ctx.t == TT, "parameters changed");
#elif STEP==9
    CHECKP(17, !content, "success although the confirmation is negative");
#elif STEP==5
    CHECKP(22, !content, "accepted a share whose authenticator is wrong");
#endif
    CHECKP(19, !vp_noise_failed, "success although a channel operation failed");
    if(STEP != 10) CHECKP(17, tpdkg_peer_not_done(&ctx) == (STEP != 7), "finished state wrong after a successful step");
#if STEP==6
    CHECKP(17, ctx.step == (count ? 7 : 8), "complaints do not lead to their resolution, or the absence of complaints does not lead on");
#elif STEP!=7
    CHECKP(17, ctx.step == STEP + 1, "wrong successor step");
#endif
#ifndef ADDFAIL
    REACHED("accepted");
#endif
  } else {
    if(PROP == 10 || PROP == 11 || PROP == 17 || PROP == 18) if(!FAIL) CHECK(bad || fr || content, "correct messages refused");
    CHECKP(17, !tpdkg_peer_not_done(&ctx), "not finished after a failed step");
#if (!GOOD && INSZ > 0) || (FAIL && STEP >= 1 && STEP <= 5)
    REACHED("refused");
#endif
  }

  /* the key share */
#if STEP==9
  if(ret == 0) {
    CHECKP(17, ctx.share.index == IDX, "share without the peer's index");
    CHECKP(17, vp_sc(ctx.share.value) == sum, "share is not the sum of the shares received");
  } else
#endif
  CHECKEQ(17, (uint8_t*) &ctx.share, (uint8_t*) &share0, sizeof share0, "share released without confirmed success");

#if PROP==19
  /* sessions: complete after success, and all of them released at the end */
  if(ret == 0) {
    if(STEP >= 1) for(int i = 0; i < NN; i++) CHECK(outs[i] != NULL, "outgoing session missing");
    if(STEP >= 2) for(int i = 0; i < NN; i++) CHECK(ins[i] != NULL, "incoming session missing");
  }
  tpdkg_peer_free(&ctx);
  for(unsigned k = 0; k < VP_NSESS; k++) CHECK(!vp_sess_live[k], "session leaked");
  CHECK(!vp_dev_live, "channel device leaked");
#endif

#if PROP==16
  { const vp_stream *s = vp_stream_of(&ctx.transcript);
    size_t n = vp_absorbed(&ctx.transcript);
    if(ret == 0) {
#if STEP==8
      CHECKEQ(16, out + HDR, want, 32, "transcript message is not the transcript");
#else
      CHECK(vp_eq(s->b, pre, PRE), "transcript altered");
#if OUTER
      CHECK(n == PRE + 4 + INSZ, "broadcast not in the transcript");
      CHECK(be32(s->b + PRE) == INSZ, "broadcast length not in the transcript");
      CHECKEQ(16, s->b + PRE + 4, in, INSZ, "transcript differs from the broadcast");
#else
      CHECK(n == PRE, "transcript changed without a broadcast");
#endif
#endif
    }
  }
#endif

#if GOOD || STEP==0 || STEP>=7
  if(ret == 0) {
    /* outgoing messages: envelope (C10) and contents (C22) */
#if STEP==0
    CHECKP(10, well_formed(out, HDR+64, 2, ctx.index, 0xff, ctx.sessionid, ctx.sig_sk), "key message not well formed or not signed");
    CHECKP(10, vp_signed(out + HDR + 64, out, HDR + 64, lt0), "key message lacks the long-term signature");
    CHECKEQ(10, out + HDR, ctx.sig_pk, 32, "announced session key is another");
    CHECKEQ(22, out + HDR, ctx.sig_pk, 32, "key message contains something else");
    CHECKEQ(22, out + HDR + 32, ctx.noise_pk, 32, "key message contains something else");
    for(int i = 0; i < 64; i++) CHECKP(21, ctx.lt_sk[i] == 0, "long-term key not erased");
    if(PROP == 23) {
      int sig = 0, noise = 0;
      size_t k = nd_pos(64);
      for(size_t o = 0; o + 64 <= vp_pool_n; o += 32) if(vp_pool[o + k] == ctx.sig_sk[k]) sig = 1;
      for(size_t o = 0; o + 32 <= vp_pool_n; o += 32) if(vp_pool[o + k % 32] == ctx.noise_sk[k % 32]) noise = 1;
      CHECK(sig, "signing key is not fresh");
      CHECK(noise, "channel key is not fresh");
      CHECK(vp_pool_n >= 64 + 32, "fewer random bytes than needed");
    }
#elif STEP==1 || STEP==2
    for(int i = 0; i < NN; i++) {
      const uint8_t *p = out + (size_t) i*OSZ;
      unsigned s = (unsigned) (STEP==1 ? i : NN + i);
      CHECKP(10, well_formed(p, OSZ, 3+STEP, IDX, (uint8_t) (i+1), ctx.sessionid, ctx.sig_sk), "handshake message not well formed or not signed");
      CHECKP(22, (STEP==1 ? outs[i] : ins[i]) == vp_sess[s], "session of another peer");
      CHECKP(22, vp_nwrites[s] == 1 && vp_write_len[s][0] == 0, "handshake carries something");
      CHECKEQ(22, p + HDR, vp_write_ct[s], 48, "handshake message is not what the channel produced");
      CHECKP(14, vp_sess_init[s] == (STEP==1), "wrong role in the handshake");
#if STEP==1
      CHECKEQ(10, pks[i], in + OUTER + i*MSZ + HDR, 32, "session key of a peer not the announced one");
      CHECKEQ(22, vp_peer_key[vp_sess_peer[s]], in + OUTER + i*MSZ + HDR + 32, 32, "channel not bound to the peer's channel key");
#else
      CHECKP(22, vp_nreads[s] == 1, "handshake message not read");
      CHECKEQ(22, vp_read_ct[s], in + OUTER + i*MSZ + HDR, 48, "handshake of another peer");
#endif
    }
#if STEP==1
    CHECKEQ(22, vp_dev_sk, ctx.noise_sk, 32, "channel device with another key");
#endif
#elif STEP==3
    CHECKP(10, well_formed(out, OUTSZ, 6, IDX, 0xff, ctx.sessionid, ctx.sig_sk), "commitments not well formed or not signed");
    for(int i = 0; i < NN; i++) {
      CHECKP(22, vp_nreads[i] == 1, "handshake message not read");
      CHECKEQ(22, vp_read_ct[i], in + OUTER + i*MSZ + HDR, 48, "handshake of another peer");
    }
    if(PROP == 23) {
      for(unsigned i = 0; i < 8; i++) for(unsigned j = 0; j < i; j++) if(i < vp_rnd_n) ASSUME(vp_rnd[i] != vp_rnd[j]);
      for(int i = 0; i < TT; i++) {
        int hit = 0;
        for(unsigned j = 0; j < 8; j++) if(j < vp_rnd_n && vp_pt_ok(out + HDR + 32*i) && vp_rnd[j] == vp_pt(out + HDR + 32*i)) hit = 1;
        CHECK(hit, "coefficient is not a fresh random scalar");
        for(int j = 0; j < i; j++) CHECK(vp_pt(out + HDR + 32*i) != vp_pt(out + HDR + 32*j), "two coefficients from one draw");
      }
    }
    for(int i = 0; i < NN; i++) CHECKP(22, shares[i].index == i+1, "dealt share has the wrong index");
    for(int i = 0; i < NN; i++) {
      unsigned e = 0;
      for(int k = TT - 1; k >= 0; k--) e = vp_mod(vp_mulp(e, (unsigned) i + 1) + (vp_pt_ok(out + HDR + 32*k) ? vp_pt(out + HDR + 32*k) : 0));
      CHECKP(22, vp_pt_ok(out + HDR + 32*(i % TT)), "commitment is not a group element");
      CHECKP(22, e == vp_sc(shares[i].value), "commitments do not belong to the dealt shares");
    }
#elif STEP==4
    for(int i = 0; i < NN; i++) {
      const uint8_t *p = out + (size_t) i*OSZ;
      unsigned s = (unsigned) i;
      CHECKP(10, well_formed(p, OSZ, 8, IDX, (uint8_t) (i+1), ctx.sessionid, ctx.sig_sk), "share message not well formed or not signed");
      CHECKP(22, vp_nwrites[s] == 2 && vp_write_len[s][0] == 0 && vp_write_len[s][1] == 33, "channel was given something else than the share");
      CHECKEQ(22, vp_write_pt[s] + 40, (uint8_t*) &shares[i], 33, "channel was given another share");
      CHECKEQ(22, p + HDR, vp_write_ct[s], 64, "end of the handshake is not what the channel produced");
      CHECKEQ(22, p + HDR + 64, vp_write_ct[s] + 72, 49, "share message is not what the channel produced");
      if(PROP == 22) {
        int hit = 0;
        size_t q = nd_pos(49), r = nd_pos(32), z = nd_pos(32);
        for(unsigned a = 0; a < NN; a++) if(a < vp_nauths)
          if(vp_auths[a].mlen == 49 && vp_auths[a].m[q] == vp_write_ct[s][72 + q] && vp_auths[a].k[r] == vp_sess_key[s][r] && vp_auths[a].out[z] == p[HDR + 64 + 49 + z]) hit = 1;
        CHECK(hit, "authenticator is not that of the encrypted share under the channel's key");
      }
      for(int k = 0; k < TT; k++) CHECKEQ(15, commitments[i*TT + k], in + OUTER + i*MSZ + HDR + 32*k, 32, "commitment differs from the broadcast one");
    }
#elif STEP==5
    CHECKP(10, well_formed(out, OUTSZ, 9, IDX, 0xff, ctx.sessionid, ctx.sig_sk), "complaints not well formed or not signed");
    for(int i = 0; i < NN; i++) {
      unsigned s = NN + (unsigned) i;
      CHECKP(15, vp_nreads[s] == 2, "share message not read");
      CHECKEQ(15, vp_read_ct[s] + 72, in + i*MSZ + HDR + 64, 49, "share taken from another message");
      CHECKEQ(15, (uint8_t*) &xshares[i], vp_read_pt[s], 33, "received share altered");
    }
    if(PROP == 15) {
      /* whom this peer has to complain about */
      const uint8_t *d = out + HDR;
      unsigned cnt = 0;
      for(int i = 0; i < NN; i++) {
        int ok = 1;
        unsigned e = 0;
        for(int k = TT - 1; k >= 0; k--) {
          const uint8_t *c = commitments[i*TT + k];
          if(!vp_pt_ok(c)) ok = 0;
          if(k && vp_pt(c) == 0) ok = 0; /* the neutral element is no commitment to a coefficient */
          e = vp_mod(vp_mulp(e, IDX) + vp_pt(c));
        }
        if(ok && e != vp_sc(xshares[i].value)) ok = 0;
        int listed = 0;
        for(int k = 0; k < NN; k++) if(k < d[0] && d[1+k] == i+1) listed++;
        if(i + 1 != IDX) CHECK(listed == (ok ? 0 : 1), "complaint missing, repeated or unjustified");
        cnt += (unsigned) listed;
      }
      CHECK(d[0] == cnt && d[0] <= NN, "complaint about nobody");
    }
    { size_t k = nd_pos(NN); if(k >= out[HDR]) CHECKP(22, out[HDR + 1 + k] == 0, "complaint message contains something else"); }
#elif STEP==6
    if(PROP == 15 || PROP == 22) {
      int nm = 0;
      for(int j = 0; j < NN; j++) {
        int hit = 0;
        for(int k = 0; k < NN; k++) if(k < ctx.my_complaints_len && mine[k] == j+1) hit++;
        CHECK(hit == about[j], "complaint about this peer missed, invented or counted twice");
        nm += about[j];
      }
      CHECK(ctx.my_complaints_len == nm, "number of complaints about this peer");
    }
#elif STEP==7
#if CNT > 0
    CHECKP(10, well_formed(out, OUTSZ, 11, IDX, 0, ctx.sessionid, ctx.sig_sk), "disclosure not well formed or not signed");
    for(int j = 0; j < NN; j++) {
      int want = 0, hit = 0;
      size_t q = nd_pos(32);
      for(int k = 0; k < CNT; k++) if(mine[k] == j+1) want = 1;
      for(int k = 0; k < CNT; k++) if(out[HDR + 33*k] == j+1) {
        hit++;
        CHECKP(22, out[HDR + 33*k + 1 + q] == vp_sess_key[j][q], "disclosed key is not that of the complainer's channel");
      }
      CHECKP(22, hit == want, "key disclosed without a complaint, twice or not at all");
    }
#endif
#elif STEP==8
    CHECKP(10, well_formed(out, OUTSZ, 20, IDX, 0, ctx.sessionid, ctx.sig_sk), "transcript message not well formed or not signed");
#elif STEP==9
    CHECKP(10, well_formed(out, OUTSZ, 22, IDX, 0, ctx.sessionid, ctx.sig_sk), "acknowledgement not well formed or not signed");
    CHECKP(17, out[HDR] == 'O' && out[HDR+1] == 'K', "success not acknowledged");
    CHECKP(22, out[HDR] == 'O' && out[HDR+1] == 'K', "acknowledgement contains something else");
#endif
  }
#endif
}
