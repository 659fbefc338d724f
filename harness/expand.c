/* C02: expand_message_xmd and hash-to-group against RFC 9380.
 * ML, DL: message and tag length; OL: output length, -1 for any. */
#include "alg.h"
#define GUARD 8
#define OMAX 255
static void H(uint8_t out[64], const uint8_t *a, size_t al, const uint8_t *b, size_t bl) {
  crypto_hash_sha512_state st;
  crypto_hash_sha512_init(&st);
  crypto_hash_sha512_update(&st, a, al);
  crypto_hash_sha512_update(&st, b, bl);
  crypto_hash_sha512_final(&st, out);
}
static void rfc9380(const uint8_t *msg, size_t ml, const uint8_t *dst, size_t dl, unsigned len, unsigned ell, uint8_t *out) {
  static uint8_t mp[128 + 255 + 3 + 256]; static uint8_t t[1 + 256];
  size_t p = 0;
  for(unsigned i = 0; i < 128; i++) mp[p++] = 0;
  for(size_t i = 0; i < ml; i++) mp[p++] = msg[i];
  mp[p++] = (uint8_t) (len >> 8); mp[p++] = (uint8_t) len; mp[p++] = 0;
  for(size_t i = 0; i < dl; i++) { mp[p++] = dst[i]; t[1 + i] = dst[i]; }
  mp[p++] = (uint8_t) dl; t[1 + dl] = (uint8_t) dl;
  uint8_t b0[64], bi[64], x[64];
  H(b0, mp, p, t, 0);
  for(unsigned i = 0; i < 64; i++) { x[i] = b0[i]; bi[i] = 0; }
  for(unsigned e = 1; e <= ell; e++) {
    t[0] = (uint8_t) e;
    for(unsigned i = 0; i < 64; i++) x[i] = b0[i] ^ bi[i];
    H(bi, x, 64, t, 2 + dl);
    for(unsigned i = 0; i < 64; i++) out[(e-1)*64 + i] = bi[i];
  }
}
void vp_harness(void) {
  static uint8_t msg[ML ? ML : 1], dst[DL ? DL : 1], got[OMAX + GUARD], canary[OMAX + GUARD], want[256];
#ifdef GROUP
  static const uint8_t tag[] = "HashToGroup-OPRFV1-\0-ristretto255-SHA512";
  nd_bytes(msg, ML);
  uint8_t p[32], q[32];
  int e = voprf_hash_to_group(msg, ML, p);
  CHECK(e == 0, "hashing to the group failed");
  rfc9380(msg, ML, tag, sizeof tag - 1, 64, 1, want);
  crypto_core_ristretto255_from_hash(q, want);
  CHECK(vp_eq(p, q, 32), "element differs from RFC 9497");
  CHECK(vp_hashed_n == 2 && vp_eq(vp_hashed[0], vp_hashed[1], 64), "the element is not mapped from the whole expansion");
  REACHED("hashed to the group");
#else
  nd_bytes(msg, ML); nd_bytes(dst, DL); nd_bytes(got, sizeof got);
  unsigned ol = OL < 0 ? nd_u8() : OL;
  for(unsigned i = 0; i < sizeof got; i++) canary[i] = got[i];
  int e = expand_message_xmd(msg, ML, dst, DL, (uint8_t) ol, got);
#if DL == 255
  CHECK(e != 0, "tag of 255 bytes accepted");
  CHECK(vp_eq(got, canary, sizeof got), "output written although refused");
  REACHED("refused");
#else
  CHECK(e == 0, "expansion failed");
  rfc9380(msg, ML, dst, DL, ol, OL < 0 ? 4 : (OL + 63) / 64, want);
  size_t p = nd_pos(OMAX + GUARD);
  if(p < ol) CHECK(got[p] == want[p], "expansion differs from RFC 9380");
  else CHECK(got[p] == canary[p], "bytes beyond the requested length written");
  REACHED("expanded");
#endif
#endif
}
