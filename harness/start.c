/* C18, C16: MODE 0 tpdkg_start_tp, 1 tpdkg_start_peer */
#include "common.h"
#define M0 (HDR + 32 + 32 + 2)
#define LABEL "tp dkg session transcript"
#define DSTL "TP DKG for protocol "
static void check_transcript(const crypto_generichash_state *st, const uint8_t *msg) {
  const vp_stream *s = vp_stream_of(st);
  CHECK(vp_absorbed(st) == 25 + 4 + M0, "transcript does not cover the start message");
  CHECK(vp_eq(s->b, LABEL, 25), "label of the transcript");
  CHECK(be32(s->b + 25) == M0, "length of the start message not in the transcript");
  size_t k = nd_pos(M0);
  CHECK(s->b[29 + k] == msg[k], "start message not in the transcript");
}
#if MODE == 0
static TP_DKG_TPState tp;
void vp_harness(void) {
  static uint8_t msg[M0];
  static char name[NLEN && NLEN <= 1024 ? NLEN : 1];
  nd_bytes(name, NLEN && NLEN <= 1024 ? NLEN : 1);
  nd_clock();
  uint8_t n = nd_u8(), t = nd_u8();
  size_t mlen = nd_u64();
  uint64_t eps = nd_u64();
  int ok = t >= 2 && t < n && n <= 128 && NLEN >= 1 && NLEN <= 1024 && mlen == M0;
#ifdef ONLYGOOD
  ASSUME(ok);
  mlen = M0;
#endif
  int e = tpdkg_start_tp(&tp, eps, n, t, name, (size_t) NLEN, mlen, (TP_DKG_Message*) msg);
  vp_hash_settle(3); /* the name, the transcript, one to spare */
#ifndef ONLYGOOD
  CHECKP(18, (e == 0) == ok, "bad parameters accepted or good ones refused");
  if(e) REACHED("refused");
#if NLEN >= 1 && NLEN <= 1024
  else REACHED("started");
#endif
#else
  CHECKP(18, e == 0, "good parameters refused");
  CHECKP(18, tp.n == n && tp.t == t && tp.ts_epsilon == eps && tp.step == 0 && tp.cheater_len == 0 && tp.complaints_len == 0, "parameters not adopted");
  CHECKP(18, tpdkg_tp_not_done(&tp), "finished before it began");
  CHECKP(18, well_formed(msg, M0, 0, 0, 0xff, tp.sessionid, tp.sig_sk), "start message not well formed or not signed");
  CHECKP(18, vp_randbuf_len == 32 && vp_eq(vp_randbuf, tp.sessionid, 32), "session identifier is not fresh");
  CHECKP(18, vp_key_made && vp_eq(vp_key_pk, tp.sig_pk, 32) && vp_eq(vp_key_sk, tp.sig_sk, 64), "signing key is not fresh");
  CHECKEQ(18, msg + HDR, tp.sig_pk, 32, "start message carries another key");
  CHECKP(18, msg[HDR+64] == n && msg[HDR+65] == t, "start message carries other parameters");
#if PROP == 18
  { static uint8_t s[2 + 20 + NLEN];
    uint8_t dst[32];
    s[0] = (NLEN + 20) >> 8; s[1] = (NLEN + 20) & 0xff;
    for(int i = 0; i < 20; i++) s[2+i] = (uint8_t) DSTL[i];
    for(int i = 0; i < NLEN; i++) s[22+i] = (uint8_t) name[i];
    crypto_generichash(dst, 32, s, 22 + NLEN, NULL, 0);
    CHECK(vp_eq(dst, msg + HDR + 32, 32), "start message does not carry the hash of the protocol name"); }
#else
  check_transcript(&tp.transcript, msg);
#endif
  REACHED("started");
#endif
}
#else
static TP_DKG_PeerState ctx;
void vp_harness(void) {
  static uint8_t msg[M0];
  uint8_t sk[64];
  nd_bytes(sk, 64);
  nd_bytes(msg, M0);
  nd_clock();
  uint64_t eps = nd_u32();
  ASSUME(eps < TS_MIN);
  vp_region = msg; vp_region_len = M0;
  int fr = 0;
  int valid = vp_slot_add(msg, msg + 64, M0 - 64, msg + HDR);
  unsigned bad = envelope(msg, M0, 0, 0, 0xff, msg + O_SID, eps, 0, valid, &fr);
  uint8_t n = msg[HDR+64], t = msg[HDR+65];
  int params = t >= 2 && t < n && n <= 128;
  int e = tpdkg_start_peer(&ctx, eps, sk, (const TP_DKG_Message*) msg);
  if(!fr) CHECKP(18, (e == 0) == (!bad && params), "bad start message accepted or a good one refused");
  if(e == 0) {
    CHECKP(18, !(bad & ~BIT(V_TS)) && params, "bad start message accepted");
    CHECKP(11, !(bad & BIT(V_TS)), "stale or future start message accepted");
    CHECKP(11, ctx.tp_last_ts == be64(msg + O_TS), "reference timestamp not set");
    CHECKP(10, !(bad & ~BIT(V_TS)), "start message with a bad envelope accepted");
    CHECKP(18, ctx.n == n && ctx.t == t && ctx.step == 0 && ctx.ts_epsilon == eps, "parameters not adopted");
    CHECKP(18, ctx.complaints_len == 0 && ctx.my_complaints_len == 0, "complaints before the beginning");
    CHECKEQ(18, ctx.sessionid, msg + O_SID, 32, "another session adopted");
    CHECKEQ(18, ctx.tp_sig_pk, msg + HDR, 32, "another key of the trusted party adopted");
    CHECKEQ(18, ctx.lt_sk, sk, 64, "another long-term key adopted");
    if(PROP == 16) check_transcript(&ctx.transcript, msg);
    CHECKP(19, ctx.dev == NULL, "a fresh state has a channel device");
    REACHED("started");
  } else REACHED("refused");
}
#endif
