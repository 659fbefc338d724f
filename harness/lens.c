/* C24: a step called with buffers of other sizes than announced.
 * STEP, ROLE 0 trusted party, 1 peer; CASE 0 input too short, 1 output too
 * short, 2 neither, but one of them too long.  An input shorter than announced is
 * one byte long, so that touching it is out of bounds; an output shorter than
 * announced is followed by bytes that must stay as they are.  What a buffer of the
 * right size or longer holds is what the step accepts. */
#define GOOD 1
#include "common.h"
#if ROLE
#include "noise_model.h"
#endif
#define INMAX (OUTER + CNT*STRIDE)
#define MAXLEN (NN*NN*(HDR+64+33+16+32))
#ifdef VP_NATIVE
#include <sanitizer/asan_interface.h>
#endif
/* what is received: CNT messages of LEN bytes, STRIDE apart, after a header of the trusted party */
#if !ROLE
#if STEP==1
#define CNT NN
#define LEN (HDR+64)
#define STRIDE (LEN+64)
#define MSGNO 2
#elif STEP==2 || STEP==3
#define CNT (NN*NN)
#define LEN (HDR+48)
#define MSGNO (2+STEP)
#elif STEP==4
#define CNT NN
#define LEN (HDR+32*TT)
#define MSGNO 6
#elif STEP==5
#define CNT (NN*NN)
#define LEN (HDR+64+33+16+32)
#define MSGNO 8
#elif STEP==6
#define CNT NN
#define LEN (HDR+NN+1)
#define MSGNO 9
#elif STEP==8
#define CNT NN
#define LEN (HDR+32)
#define MSGNO 20
#elif STEP==9
#define CNT NN
#define LEN (HDR+2)
#define MSGNO 22
#endif
#define TO(i) (CNT == NN ? (STEP >= 8 ? 0 : 0xff) : (i) % NN + 1)
#define FROM(i) (CNT == NN ? (i) : (i) / NN)
#else
#if STEP==0
#define TPNO 1
#elif STEP==1
#define TPNO 3
#define LEN (HDR+64)
#define MSGNO 2
#elif STEP==2 || STEP==3
#define LEN (HDR+48)
#define MSGNO (2+STEP)
#elif STEP==4
#define TPNO 7
#define LEN (HDR+32*TT)
#define MSGNO 6
#elif STEP==5
#define LEN (HDR+64+33+16+32)
#define MSGNO 8
#elif STEP==6
#define TPNO 10
#define LEN (HDR+NN+1)
#define MSGNO 9
#elif STEP==9
#define TPNO 21
#endif
#define CNT NN
#define TO(i) (OUTER ? 0xff : 2)
#define FROM(i) (i)
#endif
#ifdef TPNO
#define OUTER HDR
#else
#define OUTER 0
#endif
#ifndef LEN   /* no messages of peers, or those that answer complaints */
#define LEN (HDR+33)
#undef CNT
#define CNT 1
#endif
#ifndef STRIDE
#define STRIDE LEN
#endif
#define BUF(name, type, cnt) static type name[(cnt) ? (cnt) : 1]
#if ROLE
static TP_DKG_PeerState ctx;
#else
static TP_DKG_TPState ctx;
#endif
void vp_harness(void) {
  typedef uint8_t b32[32];
  typedef uint8_t msg8[HDR+64+33+16+32];
  BUF(pks, b32, NN); BUF(last, uint64_t, NN); BUF(commitments, b32, NN*TT); BUF(complaints, uint16_t, NN*NN);
  static uint8_t in1[INMAX], out1[MAXLEN];
#ifdef VP_NATIVE   /* one byte followed by a poisoned area that no access can skip */
  static uint8_t in0[1 << 16];
  ASAN_POISON_MEMORY_REGION(in0 + 8, sizeof in0 - 8);
#else
  static uint8_t in0[1];
#endif
  nd_clock();
  ctx.step = STEP; ctx.prev = STEP - 1; ctx.n = NN; ctx.t = TT;
  ctx.ts_epsilon = GOOD_EPS;
  nd_id(ctx.sessionid, 32, 0x50);
  nd_id(ctx.sig_pk, 32, 0x70); nd_id(ctx.sig_sk, 64, 0x90);
  crypto_generichash_init(&ctx.transcript, NULL, 0, 32);
  uint8_t pre[5];
  nd_bytes(pre, 5);
  crypto_generichash_update(&ctx.transcript, pre, 5);
#if ROLE
  BUF(npks, b32, NN); BUF(shares, TOPRF_Share, NN); BUF(xshares, TOPRF_Share, NN); BUF(mine, uint8_t, NN);
  static Noise_XK_session_t *outs[NN], *ins[NN];
  tpdkg_peer_set_bufs(&ctx, (void*) pks, (void*) npks, (void*) outs, (void*) ins, (void*) shares, (void*) xshares, (void*) commitments, complaints, mine, last);
  ctx.index = STEP ? 2 : 0;
  ctx.dev = NULL;
  ctx.tp_last_ts = nd_last();
  nd_id(ctx.tp_sig_pk, 32, 0x30);
  if(STEP > 1) { vp_device(ctx.noise_sk); ctx.dev = vp_dev; }
  for(int i = 0; i < NN; i++) {
    if(STEP > 1) outs[i] = vp_session(1, STEP <= 3 ? ST_I_READ2 : STEP == 4 ? ST_I_WRITE3 : ST_TRANSPORT);
    xshares[i].index = 2; vp_put_sc(xshares[i].value, 1);
    shares[i].index = (uint8_t) (i + 1);
  }
  for(int i = 0; i < NN; i++) if(STEP > 2) ins[i] = vp_session(0, STEP <= 5 ? ST_R_READ3 : ST_TRANSPORT);
  nd_bytes(&ctx.share, sizeof ctx.share);
  TOPRF_Share share0 = ctx.share;
  ctx.complaints_len = ctx.my_complaints_len = 0;
  if(STEP == 7) { ctx.complaints_len = ctx.my_complaints_len = 1; complaints[0] = 0x0102; mine[0] = 1; }
  size_t ia = tpdkg_peer_input_size(&ctx), oa = tpdkg_peer_output_size(&ctx);
#else
  BUF(enc, msg8, NN*NN); BUF(lts, b32, NN); BUF(cheaters, TP_DKG_Cheater, CHMAX);
  tpdkg_tp_set_bufs(&ctx, (void*) commitments, (void*) complaints, (void*) enc, (void*) cheaters, CHMAX, (void*) pks, (void*) lts, last);
  ctx.complaints_len = 0; ctx.cheater_len = 0;
  if(STEP == 7) { ctx.complaints_len = 1; complaints[0] = 0x0102; }
  size_t ia = tpdkg_tp_input_size(&ctx), oa = tpdkg_tp_output_size(&ctx);
#endif
  for(int i = 0; i < NN; i++) last[i] = ROLE && STEP <= 1 ? 0 : nd_last();
  vp_slot_force = 1;
  vp_region = in1; vp_region_len = INMAX;
#ifdef TPNO
  good_envelope(in1, ia, TPNO, 0, STEP ? 0xff : 1, ctx.sessionid, GOOD_LAST + 2);
  vp_slot_add(in1, in1 + 64, ia - 64, ctx.tp_sig_pk);
#endif
#ifdef MSGNO
  for(int i = 0; i < CNT; i++) {
    uint8_t *p = in1 + OUTER + i*STRIDE;
    good_envelope(p, LEN, MSGNO, (uint8_t) (FROM(i) + 1), (uint8_t) TO(i), ctx.sessionid, ROLE && STEP == 1 ? GOOD_NOW + 1 : GOOD_LAST + (uint64_t) i);
    vp_slot_add(p, p + 64, LEN - 64, STEP == 1 ? p + HDR : pks[FROM(i)]);
#if STEP==1 && !ROLE
    vp_slot_add(p + LEN, p, LEN, lts[i]);
#elif STEP==9
    p[HDR] = 'O'; p[HDR+1] = 'K';
#endif
  }
#endif
#if STEP==9 && ROLE
  in1[HDR] = 'O'; in1[HDR+1] = 'K';
#endif
  uint64_t last1 = last[1];
  size_t in_len = CASE == 1 ? ia : nd_u64(), out_len = nd_u64();
#if CASE==0
  ASSUME(in_len < ia);
#elif CASE==1
  ASSUME(out_len < oa && oa <= MAXLEN);
  uint8_t fill = nd_u8();
  memset(out1, fill, MAXLEN);
#else
  ASSUME(in_len >= ia && out_len >= oa && (in_len != ia || out_len != oa));
#endif
  uint8_t *in = CASE == 0 ? in0 : in1, *out = out1;
#if ROLE
  int ret = tpdkg_peer_next(&ctx, in, in_len, out, out_len);
#else
  int ret = tpdkg_tp_next(&ctx, in, in_len, out, out_len);
#endif
  CHECK(ret != 0, "buffers of the wrong size accepted");
#if ROLE
  CHECK(!tpdkg_peer_not_done(&ctx), "not finished after a failed step");
  CHECKEQ(PROP, (uint8_t*) &ctx.share, (uint8_t*) &share0, sizeof share0, "key share changed");
#else
  CHECK(!tpdkg_tp_not_done(&ctx), "not finished after a failed step");
  CHECK(ctx.cheater_len == 0, "a peer is blamed for the caller's mistake");
#endif
#if CASE==1
  size_t k = nd_u64();
  ASSUME(k >= out_len && k < MAXLEN);
  CHECK(out1[k] == fill, "written beyond the end of the output");
#else
  if(in_len != ia) {
    CHECK(last[1] == last1, "reference timestamp changed");
    CHECK(vp_absorbed(&ctx.transcript) == 5, "transcript changed");
  }
#endif
  REACHED("wrong size");
}
