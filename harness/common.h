/* Shared by the tp-dkg harnesses: message layout and the envelope rules, as
 * documented in docs/tp-dkg.txt and tp-dkg.h. */
#ifndef COMMON_H
#define COMMON_H
#include <sodium.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "tp-dkg.h"
#include "sodium_model.h"

#ifndef PROP
#define PROP 0
#endif
/* CHECKP(p, ...) is an obligation of property Cp only */
#define CHECKP(p, c, what) do { if((p) == PROP) CHECK(c, what); } while(0)

/* a[0..n) == b[0..n): decided at one position the solver picks */
static inline size_t nd_pos(size_t n) { size_t k = nd_u32(); ASSUME(k < n); return k; }
#define CHECKEQ(p, a, b, n, what) do { if((p) == PROP) { size_t k_ = nd_pos(n); CHECK((a)[k_] == (b)[k_], what); } } while(0)

#define HDR 111UL
#define O_SIG 0
#define O_MSGNO 64
#define O_LEN 65
#define O_FROM 69
#define O_TO 70
#define O_TS 71
#define O_SID 79

#define TS_MIN 0x40000000ULL
#define TS_MAX 0x100000000ULL

#define V_LEN 1
#define V_MSGNO 2
#define V_FROM 3
#define V_TO 4
#define V_TS 5
#define V_SIG 6
#define V_SID 7
#define BIT(e) (1u << (e))

static inline uint64_t be64(const uint8_t *p) { uint64_t v = 0; for(int i = 0; i < 8; i++) v = (v << 8) | p[i]; return v; }
static inline uint32_t be32(const uint8_t *p) { uint32_t v = 0; for(int i = 0; i < 4; i++) v = (v << 8) | p[i]; return v; }

/* The set of envelope rules a message breaks.  `free_` is set when the
 * timestamp is exactly at the upper end of the window, where both verdicts are
 * acceptable. */
static inline unsigned envelope(const uint8_t *p, size_t len, uint8_t msgno, uint8_t from, uint8_t to, const uint8_t *sid,
                         uint64_t eps, uint64_t last, int valid, int *free_) {
  unsigned v = 0;
  uint64_t ts = be64(p + O_TS);
  if(be32(p + O_LEN) != len) v |= BIT(V_LEN);
  if(p[O_MSGNO] != msgno) v |= BIT(V_MSGNO);
  if(p[O_FROM] != from) v |= BIT(V_FROM);
  if(p[O_TO] != to) v |= BIT(V_TO);
  if(last == 0) {
    if(ts > vp_now + eps || (ts < vp_now && vp_now - ts > eps)) v |= BIT(V_TS);
    if(ts == vp_now + eps || (ts < vp_now && vp_now - ts == eps)) *free_ = 1;
  } else {
    if(ts < last || ts > last + eps) v |= BIT(V_TS);
    if(ts == last + eps) *free_ = 1;
  }
  if(!valid) v |= BIT(V_SIG);
  if(!vp_eq(p + O_SID, sid, 32)) v |= BIT(V_SID);
  return v;
}

/* a message produced by the code under test */
static inline int well_formed(const uint8_t *p, size_t len, uint8_t msgno, uint8_t from, uint8_t to, const uint8_t *sid, const uint8_t *sk) {
  return be32(p + O_LEN) == len && p[O_MSGNO] == msgno && p[O_FROM] == from && p[O_TO] == to && be64(p + O_TS) == vp_now
      && vp_eq(p + O_SID, sid, 32) && vp_signed(p, p + 64, len - 64, sk);
}

/* GOOD: the envelopes of all incoming messages are as they should be, clock,
 * session identifier and verification keys are fixed, so that only payloads vary.  Used for what a step
 * does with messages it accepts; which ones it accepts is decided without. */
#ifndef GOOD
#define GOOD 0
#endif
#define GOOD_NOW 0x60000000ULL
#define GOOD_LAST 0x50000000ULL
#define GOOD_EPS 0x20000000ULL
static inline void good_envelope(uint8_t *p, size_t len, uint8_t msgno, uint8_t from, uint8_t to, const uint8_t *sid, uint64_t ts) {
  p[O_MSGNO] = msgno; p[O_FROM] = from; p[O_TO] = to;
  for(int i = 0; i < 4; i++) p[O_LEN + i] = (uint8_t) (len >> (24 - 8*i));
  for(int i = 0; i < 8; i++) p[O_TS + i] = (uint8_t) (ts >> (56 - 8*i));
  for(int i = 0; i < 32; i++) p[O_SID + i] = sid[i];
}

/* bytes that are fixed in GOOD runs */
static inline void nd_id(uint8_t *p, size_t n, uint8_t tag) {
  if(GOOD) for(size_t i = 0; i < n; i++) p[i] = (uint8_t) (tag + i);
  else nd_bytes(p, n);
}
static inline void nd_clock(void) {
  if(GOOD) { vp_now = GOOD_NOW; return; }
   vp_now = nd_u64(); ASSUME(vp_now > TS_MIN && vp_now < TS_MAX); }
static inline uint64_t nd_last(void) {
  if(GOOD) return GOOD_LAST;
   uint64_t v = nd_u64(); ASSUME(v > TS_MIN && v < TS_MAX); return v; }
#endif
