/* C23: MODE 0 key, 1 blinding factor, 2 dealing, 3 sharing, 4 multiplication,
 * 5 start of the trusted party.  Everything is done twice. */
#if MODE == 5
#include "common.h"
#else
#include "alg.h"
#endif
#ifndef NN
#define NN 3
#define TT 2
#endif
#ifndef XLEN
#define XLEN 4
#endif
/* v is among the scalars drawn since the from-th */
static int drawn(unsigned from, unsigned v) {
  int hit = 0;
  for(unsigned i = 0; i < VP_RND_MAX; i++) if(i >= from && i < vp_rnd_n && vp_rnd[i] == v) hit = 1;
  return hit;
}
static void distinct(unsigned from) {
  for(unsigned i = 0; i < 8; i++) for(unsigned j = 0; j < i; j++) if(j >= from && i < vp_rnd_n) ASSUME(vp_rnd[i] != vp_rnd[j]);
}
#if MODE == 5
/* p[0..n) lies, as it is, among the bytes drawn at off, off+32, ... */
static int pooled(size_t from, const uint8_t *p, size_t n) {
  int hit = 0;
  size_t k = nd_pos(n);
  for(size_t o = from; o + n <= vp_pool_n; o += 32) if(vp_pool[o + k] == p[k]) hit = 1;
  return hit;
}
static TP_DKG_TPState tp;
#endif
void vp_harness(void) {
  vp_rnd_n = 0;
  for(int round = 0; round < 2; round++) {
    unsigned from = vp_rnd_n;
#if MODE == 0
    uint8_t k[32];
    nd_bytes(k, 32);
    oprf_KeyGen(k);
    CHECK(drawn(from, vp_sc(k)), "key is not a fresh random scalar");
    if(round) REACHED("generated");
#elif MODE == 1
    uint8_t x[XLEN ? XLEN : 1], r[32], b[32];
    nd_bytes(x, XLEN ? XLEN : 1); nd_bytes(r, 32);
    int e = oprf_Blind(x, XLEN, r, b);
    CHECK(e != 0 || drawn(from, vp_sc(r)), "blinding factor is not a fresh random scalar");
    if(round && !e) REACHED("blinded");
#elif MODE == 2
    static uint8_t c[TT][32];
    static TOPRF_Share s[NN];
    CHECK(dkg_start(NN, TT, c, s) == 0, "dealing failed");
    distinct(from);
    for(int i = 0; i < TT; i++) {
      CHECK(vp_pt_ok(c[i]) && drawn(from, vp_pt(c[i])), "coefficient is not a fresh random scalar");
      for(int j = 0; j < i; j++) CHECK(vp_pt(c[i]) != vp_pt(c[j]), "two coefficients from one draw");
    }
    if(round) REACHED("dealt");
#elif MODE == 3 || MODE == 4
    uint8_t a[33], b[33];
    static sharebuf s[NN];
    a[0] = b[0] = 1;
    unsigned sv = nd_scalar(a + 1);
#if MODE == 3
    toprf_create_shares(a + 1, NN, TT, s);
#else
    sv = vp_mulp(sv, nd_scalar(b + 1));
    CHECK(toprf_mpc_mul_start(a, b, NN, TT, s) == 0, "first phase failed");
#endif
    /* t = 2: the slope */
    CHECK(drawn(from, vp_mod(vp_sc(s[0] + 1) + VP_P - sv)), "coefficient is not a fresh random scalar");
    if(round) REACHED("shared");
#else
    static uint8_t msg[HDR + 66];
    size_t pf = vp_pool_n;
    nd_clock();
    nd_bytes(tp.sessionid, 32);
    CHECK(tpdkg_start_tp(&tp, 30, 3, 2, "x", 1, sizeof msg, (TP_DKG_Message*) msg) == 0, "start failed");
    CHECK(pooled(pf, tp.sessionid, 32), "session identifier is not fresh");
    CHECK(pooled(pf, tp.sig_sk, 64), "signing key is not fresh");
    /* two purposes, two draws */
    CHECK(vp_pool_n - pf >= 32 + 64, "fewer random bytes than needed");
    if(round) REACHED("started");
#endif
  }
}
