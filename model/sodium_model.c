#include <sodium.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include "sodium_model.h"

int vp_eq(const void *a_, const void *b_, size_t n) {
  const uint8_t *a = a_, *b = b_;
  if(a == b) return 1;
  uint8_t d = 0;
  for(size_t i = 0; i < n; i++) d |= (uint8_t) (a[i] != b[i]);
  return d == 0;
}

/* Slots are identified by address inside the harness's own input region, and
 * by content for copies the code under test made elsewhere. */
const uint8_t *vp_region; size_t vp_region_len;
#ifdef VP_NATIVE
static int in_region(const void *p_) { const uint8_t *p = p_; return p >= vp_region && p < vp_region + vp_region_len; }
#define SAME_REGION(a, b) (in_region(a) && in_region(b))
#else
#define SAME_REGION(a, b) __CPROVER_same_object(a, b)
#endif

/* ------------------------------------------------------------- misc */
int sodium_init(void) { return 0; }
void sodium_memzero(void *const p, const size_t n) {
  uint8_t *b = p;
  for(size_t i = 0; i < n; i++) b[i] = 0;
}
int sodium_memcmp(const void *const a, const void *const b, size_t n) { return vp_eq(a, b, n) ? 0 : -1; }
int sodium_is_zero(const unsigned char *p, const size_t n) {
  uint8_t d = 0;
  for(size_t i = 0; i < n; i++) d |= p[i];
  return d == 0;
}
int crypto_verify_16(const unsigned char *x, const unsigned char *y) { return vp_eq(x, y, 16) ? 0 : -1; }
int crypto_verify_32(const unsigned char *x, const unsigned char *y) { return vp_eq(x, y, 32) ? 0 : -1; }
int crypto_verify_64(const unsigned char *x, const unsigned char *y) { return vp_eq(x, y, 64) ? 0 : -1; }
void *sodium_malloc(const size_t n) { return malloc(n); }
void sodium_free(void *p) { free(p); }

#define NLOCK 16
static void *lock_p[NLOCK]; static size_t lock_n[NLOCK]; static unsigned locks;
int vp_mlock_may_fail, vp_locks_live, vp_locks_total, vp_lock_errors, vp_lock_failures;
int sodium_mlock(void *const p, const size_t n) {
  if(vp_mlock_may_fail && nd_bool()) { vp_lock_failures = 1; return -1; }
  if(locks < NLOCK) { lock_p[locks] = p; lock_n[locks] = n; locks++; }
  vp_locks_live++; vp_locks_total++;
  return 0;
}
int sodium_munlock(void *const p, const size_t n) {
  int hit = 0;
  for(unsigned i = 0; i < NLOCK; i++) if(i < locks)
    if(!hit && lock_p[i] == p && lock_n[i] == n) { hit = 1; lock_p[i] = NULL; }
  if(hit) vp_locks_live--; else vp_lock_errors++;
  sodium_memzero(p, n);
  return 0;
}

uint8_t vp_randbuf[64], vp_pool[VP_POOL];
size_t vp_randbuf_len, vp_pool_n;
static void pool(const uint8_t *p, size_t n) {
  for(size_t i = 0; i < n; i++) if(vp_pool_n < VP_POOL) vp_pool[vp_pool_n++] = p[i];
}
void randombytes_buf(void *const p, const size_t n) {
  nd_bytes(p, n);
  pool(p, n);
  if(n <= sizeof vp_randbuf) for(size_t i = 0; i < n; i++) vp_randbuf[i] = ((uint8_t*) p)[i];
  vp_randbuf_len = n;
}
void randombytes(unsigned char *const p, const unsigned long long n) { randombytes_buf(p, (size_t) n); }
uint32_t randombytes_random(void) { return nd_u32(); }

#ifndef VP_NO_TIME
uint64_t vp_now;
time_t time(time_t *t) { if(t) *t = (time_t) vp_now; return (time_t) vp_now; }
#endif

#ifndef VP_REAL_SODIUM
/* ------------------------------------------------------------- toy group */
/* p = 2^k+1.  Both are for arguments below p*p+p, written so that the solver
 * sees a few bits instead of a 32-bit division. */
#define KB (VP_P == 5 ? 2 : VP_P == 17 ? 4 : 8)
unsigned vp_mod(unsigned x) {
  unsigned r = x & (VP_P - 2), q = (x >> KB) & (2*VP_P - 3);
  return r >= q ? r - q : r + VP_P - q;
}
unsigned vp_mulp(unsigned a, unsigned b) { return vp_mod((a & (2*VP_P - 3)) * (b & (2*VP_P - 3))); }
unsigned vp_invp(unsigned a) {
  /* a^(p-2); p = 2^k+1, so the exponent is k ones in binary */
  unsigned r = 1;
  for(unsigned e = VP_P - 1; e > 1; e >>= 1) { r = vp_mulp(r, a); a = vp_mulp(a, a); }
  return r;
}
/* Scalars: the bits of the value are spread over both ends of the encoding. */
#if VP_P < 256
unsigned vp_sc(const uint8_t *s) { return vp_mod((unsigned) (s[0] | s[31])); }
void vp_put_sc(uint8_t *s, unsigned v) {
  for(unsigned i = 1; i < 31; i++) s[i] = 0;
  s[0] = (uint8_t) (v & 0x15);
  s[31] = (uint8_t) (v & 0x0a);
}
int vp_pt_ok(const uint8_t *p) {
  uint8_t d = p[0] ^ p[31];
  for(unsigned i = 1; i < 31; i++) d |= p[i];
  return d == 0 && p[0] < VP_P;
}
unsigned vp_pt(const uint8_t *p) { return p[0]; }
void vp_put_pt(uint8_t *p, unsigned e) {
  for(unsigned i = 1; i < 31; i++) p[i] = 0;
  p[0] = p[31] = (uint8_t) e;
}
#else
unsigned vp_sc(const uint8_t *s) { return vp_mod((unsigned) (s[0] | s[31]) + 256u * (s[1] | s[30])); }
void vp_put_sc(uint8_t *s, unsigned v) {
  for(unsigned i = 2; i < 30; i++) s[i] = 0;
  s[0] = (uint8_t) (v & 0x55); s[1] = 0;
  s[31] = (uint8_t) (v & 0xaa); s[30] = (uint8_t) (v >> 8);
}
int vp_pt_ok(const uint8_t *p) {
  uint8_t d = (p[0] ^ p[31]) | (p[1] ^ p[30]);
  for(unsigned i = 2; i < 30; i++) d |= p[i];
  return d == 0 && (unsigned) p[0] + 256u * p[1] < VP_P;
}
unsigned vp_pt(const uint8_t *p) { return (unsigned) p[0] + 256u * p[1]; }
void vp_put_pt(uint8_t *p, unsigned e) {
  for(unsigned i = 2; i < 30; i++) p[i] = 0;
  p[0] = p[31] = (uint8_t) e; p[1] = p[30] = (uint8_t) (e >> 8);
}
#endif
unsigned nd_scalar(uint8_t *s) {
  unsigned v = VP_P < 256 ? nd_u8() : nd_u16();
  ASSUME(v < VP_P);
  vp_put_sc(s, v);
  return v;
}
unsigned nd_scalar_nz(uint8_t *s) {
  unsigned v = nd_scalar(s);
  ASSUME(v != 0);
  return v;
}
unsigned nd_point(uint8_t *p) {
  unsigned v = VP_P < 256 ? nd_u8() : nd_u16();
  ASSUME(v > 0 && v < VP_P);
  vp_put_pt(p, v);
  return v;
}
unsigned vp_rnd[VP_RND_MAX];
unsigned vp_rnd_n;

size_t crypto_core_ristretto255_bytes(void) { return 32; }
int crypto_core_ristretto255_is_valid_point(const unsigned char *p) { return vp_pt_ok(p); }
int crypto_core_ristretto255_add(unsigned char *r, const unsigned char *p, const unsigned char *q) {
  if(!vp_pt_ok(p) || !vp_pt_ok(q)) return -1;
  vp_put_pt(r, vp_mod(vp_pt(p) + vp_pt(q)));
  return 0;
}
int crypto_core_ristretto255_sub(unsigned char *r, const unsigned char *p, const unsigned char *q) {
  if(!vp_pt_ok(p) || !vp_pt_ok(q)) return -1;
  vp_put_pt(r, vp_mod(vp_pt(p) + VP_P - vp_pt(q)));
  return 0;
}
uint8_t vp_hashed[2][64];
unsigned vp_hashed_n;
int crypto_core_ristretto255_from_hash(unsigned char *p, const unsigned char *r) {
  /* any fixed function of the 64 bytes will do; the identity only on request */
  unsigned s = 0;
  for(unsigned i = 0; i < 64; i++) {
    s ^= r[i];
    if(vp_hashed_n < 2) vp_hashed[vp_hashed_n][i] = r[i];
  }
  if(vp_hashed_n < 2) vp_hashed_n++;
#ifdef VP_ZERO_HASH /* for what happens on that path, however unlikely */
  if(nd_bool()) { vp_put_pt(p, 0); return 0; }
#endif
  vp_put_pt(p, 1 + (s & (VP_P - 2) & 0xff));
  return 0;
}
void crypto_core_ristretto255_random(unsigned char *p) { nd_point(p); }
void crypto_core_ristretto255_scalar_random(unsigned char *r) {
  unsigned v = nd_scalar_nz(r);
  if(vp_rnd_n < VP_RND_MAX) vp_rnd[vp_rnd_n] = v;
  vp_rnd_n++;
}
int crypto_core_ristretto255_scalar_invert(unsigned char *r, const unsigned char *s) {
  unsigned v = vp_sc(s);
  vp_put_sc(r, vp_invp(v));
  return v == 0 ? -1 : 0;
}
void crypto_core_ristretto255_scalar_negate(unsigned char *r, const unsigned char *s) { vp_put_sc(r, vp_mod(VP_P - vp_sc(s))); }
void crypto_core_ristretto255_scalar_complement(unsigned char *r, const unsigned char *s) { vp_put_sc(r, vp_mod(1 + VP_P - vp_sc(s))); }
void crypto_core_ristretto255_scalar_add(unsigned char *z, const unsigned char *x, const unsigned char *y) { vp_put_sc(z, vp_mod(vp_sc(x) + vp_sc(y))); }
void crypto_core_ristretto255_scalar_sub(unsigned char *z, const unsigned char *x, const unsigned char *y) { vp_put_sc(z, vp_mod(vp_sc(x) + VP_P - vp_sc(y))); }
void crypto_core_ristretto255_scalar_mul(unsigned char *z, const unsigned char *x, const unsigned char *y) { vp_put_sc(z, vp_mulp(vp_sc(x), vp_sc(y))); }
void crypto_core_ristretto255_scalar_reduce(unsigned char *r, const unsigned char *s) {
  unsigned v = 0;
  for(unsigned i = 0; i < 64; i++) v ^= s[i];
  vp_put_sc(r, vp_mod(v));
}
int crypto_scalarmult_ristretto255(unsigned char *q, const unsigned char *n, const unsigned char *p) {
  if(!vp_pt_ok(p)) return -1;
  unsigned e = vp_mulp(vp_sc(n), vp_pt(p));
  vp_put_pt(q, e);
  return e == 0 ? -1 : 0;
}
int crypto_scalarmult_ristretto255_base(unsigned char *q, const unsigned char *n) {
  unsigned e = vp_sc(n);
  vp_put_pt(q, e);
  return e == 0 ? -1 : 0;
}

/* ------------------------------------------------------------- hashes */
/* separate objects, because symbolic execution pays for the size of the
 * object behind a pointer */
#define EACH(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
#if VP_NSTREAM > 16
#error "at most 16 hash streams"
#endif
#define X(i) static vp_stream stream##i;
EACH(X)
#undef X
#define X(i) case i: return &stream##i;
vp_stream *vp_stream_at(unsigned k) { switch(k) { EACH(X) } return &stream0; }
#undef X
unsigned vp_nstreams;
void vp_hash_settle(unsigned n) { ASSUME(vp_nstreams <= n); vp_nstreams = n; }
/* A hash state names a stream and how much of it it has absorbed, so that
 * states can be copied by the code under test. */
typedef struct { uint32_t id, outlen; size_t len; } hstate;
static void h_init(hstate *h, int alg, size_t outlen) {
  CHECK(vp_nstreams < VP_NSTREAM, "model capacity: hash streams");
  ASSUME(vp_nstreams < VP_NSTREAM);
  h->id = vp_nstreams; h->outlen = (uint32_t) outlen; h->len = 0;
  vp_stream *s = vp_stream_at(vp_nstreams++);
  s->len = 0; s->alg = alg; s->final = 0;
}
static hstate blake_get(const crypto_generichash_state *st) {
  const uint8_t *o = (const uint8_t*) st;
  hstate h;
  h.id = o[0]; h.outlen = o[1]; h.len = o[2] + 256u * o[3];
  return h;
}
static void blake_put(crypto_generichash_state *st, const hstate *h) {
  uint8_t *o = (uint8_t*) st;
  o[0] = (uint8_t) h->id; o[1] = (uint8_t) h->outlen; o[2] = (uint8_t) h->len; o[3] = (uint8_t) (h->len >> 8);
}
static hstate sha_get(const crypto_hash_sha512_state *st) {
  hstate h;
  h.id = (uint32_t) st->state[0]; h.outlen = 64; h.len = (size_t) st->state[1];
  return h;
}
static void sha_put(crypto_hash_sha512_state *st, const hstate *h) { st->state[0] = h->id; st->state[1] = h->len; }
vp_stream *vp_stream_of(const void *state) { return vp_stream_at(blake_get(state).id); }
size_t vp_absorbed(const void *state) { return blake_get(state).len; }
static void h_update(hstate *h, const uint8_t *in, unsigned long long n) {
  vp_stream *s = vp_stream_at(h->id);
  size_t l = (size_t) h->len;
#ifdef VP_STREAM_CLIP /* for calls that must be refused before anything is hashed: what does not fit is not recorded */
  if(n > VP_STREAMMAX - l) return;
#endif
  CHECK(l + n <= VP_STREAMMAX, "model capacity: hash stream length");
  ASSUME(l + n <= VP_STREAMMAX);
  if(s->len != l) { /* a copy of this state went on: continue on a stream of our own */
    hstate c;
    h_init(&c, s->alg, h->outlen);
    vp_stream *o = s;
    s = vp_stream_at(c.id);
    for(size_t i = 0; i < l; i++) s->b[i] = o->b[i];
    h->id = c.id;
  }
  for(size_t i = 0; i < n; i++) s->b[l + i] = in[i];
  s->len = l + (size_t) n;
  h->len = s->len;
}
static void h_final(hstate *h, uint8_t *out, size_t outlen) {
  vp_stream *s = vp_stream_at(h->id);
  size_t l = h->len;
  unsigned id = h->id;
  if(s->len != l || (s->final && (s->final != l + 1 || s->outlen != outlen))) {
    hstate c;
    h_init(&c, s->alg, h->outlen);
    vp_stream *o = s;
    id = c.id;
    s = vp_stream_at(id);
    for(size_t i = 0; i < l; i++) s->b[i] = o->b[i];
    s->len = l;
  }
  if(!s->final) {
    s->final = l + 1; s->outlen = outlen;
    nd_bytes(s->dig, outlen);
    /* a random oracle: equal inputs, equal outputs */
    for(unsigned k = 0; k < VP_NSTREAM; k++) if(k < vp_nstreams && k != id) {
      const vp_stream *o = vp_stream_at(k);
      if(o->alg != s->alg || o->final != l + 1 || o->outlen != outlen) continue;
      int eq = vp_eq(o->b, s->b, l);
      for(size_t i = 0; i < outlen; i++) s->dig[i] = eq ? o->dig[i] : s->dig[i];
    }
  }
  for(size_t i = 0; i < outlen; i++) out[i] = s->dig[i];
}
int crypto_generichash_init(crypto_generichash_state *st, const unsigned char *key, const size_t keylen, const size_t outlen) {
  hstate h;
  h_init(&h, VP_BLAKE + (int) keylen, outlen);
  if(keylen) h_update(&h, key, keylen);
  blake_put(st, &h);
  return 0;
}
int crypto_generichash_update(crypto_generichash_state *st, const unsigned char *in, unsigned long long n) {
  hstate h = blake_get(st);
  h_update(&h, in, n);
  blake_put(st, &h);
  return 0;
}
int crypto_generichash_final(crypto_generichash_state *st, unsigned char *out, const size_t outlen) {
  hstate h = blake_get(st);
  h_final(&h, out, outlen);
  return 0;
}
int crypto_generichash(unsigned char *out, size_t outlen, const unsigned char *in, unsigned long long n, const unsigned char *key, size_t keylen) {
  hstate h;
  h_init(&h, VP_BLAKE + (int) keylen, outlen);
  if(keylen) h_update(&h, key, keylen);
  h_update(&h, in, n); h_final(&h, out, outlen); return 0;
}
int crypto_hash_sha512_init(crypto_hash_sha512_state *st) {
  hstate h;
  h_init(&h, VP_SHA512, 64);
  sha_put(st, &h);
  return 0;
}
int crypto_hash_sha512_update(crypto_hash_sha512_state *st, const unsigned char *in, unsigned long long n) {
  hstate h = sha_get(st);
  h_update(&h, in, n);
  sha_put(st, &h);
  return 0;
}
int crypto_hash_sha512_final(crypto_hash_sha512_state *st, unsigned char *out) {
  hstate h = sha_get(st);
  h_final(&h, out, 64);
  return 0;
}
int crypto_hash_sha512(unsigned char *out, const unsigned char *in, unsigned long long n) {
  hstate h;
  h_init(&h, VP_SHA512, 64); h_update(&h, in, n); h_final(&h, out, 64); return 0;
}

/* ------------------------------------------------------------- signatures */
vp_slot vp_slots[VP_NSLOT];
unsigned vp_nslots;
int vp_slot_force;
/* flat, because symbolic execution pays for every element of an aggregate it touches */
static uint8_t sig_m[VP_NSIGS * VP_SIGMAX], sig_sk[VP_NSIGS * 64], sig_sig[VP_NSIGS * 64];
static size_t sig_len[VP_NSIGS];
unsigned vp_nsigs;
int vp_slot_add(const uint8_t *sig, const uint8_t *m, size_t mlen, const uint8_t *pk) {
  vp_slot *s = &vp_slots[vp_nslots++];
  s->sig = sig; s->m = m; s->mlen = mlen;
  for(unsigned i = 0; i < 32; i++) s->pk[i] = pk[i];
  s->valid = vp_slot_force ? 1 : nd_bool();
  return s->valid;
}
int vp_key_made;
uint8_t vp_key_pk[32], vp_key_sk[64];
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk) {
  nd_bytes(pk, 32); nd_bytes(sk, 32);
  for(unsigned i = 0; i < 32; i++) sk[32 + i] = pk[i];
  pool(sk, 64);
  vp_key_made = 1;
  for(unsigned i = 0; i < 32; i++) vp_key_pk[i] = pk[i];
  for(unsigned i = 0; i < 64; i++) vp_key_sk[i] = sk[i];
  return 0;
}
int crypto_sign_detached(unsigned char *sig, unsigned long long *siglen, const unsigned char *m, unsigned long long mlen, const unsigned char *sk) {
  CHECK(vp_nsigs < VP_NSIGS && mlen <= VP_SIGMAX, "model capacity: signatures");
  ASSUME(vp_nsigs < VP_NSIGS && mlen <= VP_SIGMAX);
  unsigned k = vp_nsigs++;
  sig_len[k] = (size_t) mlen;
  for(size_t i = 0; i < mlen; i++) sig_m[k*VP_SIGMAX + i] = m[i];
  for(unsigned i = 0; i < 64; i++) sig_sk[k*64 + i] = sk[i];
  for(unsigned i = 0; i < 64; i++) sig[i] = sig_sig[k*64 + i] = (uint8_t) (vp_nsigs * 3 + i);
  if(siglen) *siglen = 64;
  return 0;
}
/* Only for use in obligations: the comparisons are made at positions the
 * solver picks, so "true" means equal everywhere only if it holds always. */
int vp_signed(const uint8_t *sig, const uint8_t *m, size_t mlen, const uint8_t *sk) {
  int r = 0;
  size_t p = nd_u32(), q = nd_u8() & 63;
  ASSUME(p < mlen);
  for(unsigned k = 0; k < VP_NSIGS; k++) if(k < vp_nsigs)
    if(!r && sig_len[k] == mlen && vp_eq(sig_sig + k*64, sig, 64) && sig_sk[k*64 + q] == sk[q] && sig_m[k*VP_SIGMAX + p] == m[p]) r = 1;
  return r;
}
int crypto_sign_verify_detached(const unsigned char *sig, const unsigned char *m, unsigned long long mlen, const unsigned char *pk) {
  int r = -1;
  for(unsigned k = 0; k < VP_NSLOT; k++) if(k < vp_nslots) {
    vp_slot *s = &vp_slots[k];
    if(s->mlen != mlen) continue;
    /* compare by content; identical pointers need no comparison.  Two
     * distinct harness regions are treated as different messages. */
    if(r < 0 && (s->m == m || (!SAME_REGION(s->m, m) && vp_eq(s->m, m, (size_t) mlen)))
             && (s->sig == sig || (!SAME_REGION(s->sig, sig) && vp_eq(s->sig, sig, 64)))
             && vp_eq(s->pk, pk, 32)) r = s->valid ? 1 : 0;
  }
  if(r < 0) r = nd_bool();
  return r ? 0 : -1;
}

/* ------------------------------------------------------------- x25519, HMAC, AEAD */
int crypto_scalarmult_base(unsigned char *q, const unsigned char *n) { (void) n; nd_bytes(q, 32); return 0; }
int crypto_scalarmult(unsigned char *q, const unsigned char *n, const unsigned char *p) { (void) n; (void) p; nd_bytes(q, 32); return nd_bool() ? 0 : -1; }

vp_macslot vp_macs[VP_NMAC];
unsigned vp_nmacs;
int vp_macs_refused;
vp_aeadslot vp_aeads[VP_NMAC];
unsigned vp_naeads;
vp_authrec vp_auths[VP_NMAC];
unsigned vp_nauths;
int crypto_auth(unsigned char *out, const unsigned char *in, unsigned long long n, const unsigned char *k) {
  CHECK(vp_nauths < VP_NMAC && n <= 64, "model capacity: MACs");
  ASSUME(vp_nauths < VP_NMAC && n <= 64);
  vp_authrec *r = &vp_auths[vp_nauths++];
  r->mlen = (size_t) n;
  for(size_t i = 0; i < n; i++) r->m[i] = in[i];
  for(unsigned i = 0; i < 32; i++) r->k[i] = k[i];
  nd_bytes(r->out, 32);
  for(unsigned i = 0; i < 32; i++) out[i] = r->out[i];
  return 0;
}
int crypto_auth_verify(const unsigned char *h, const unsigned char *in, unsigned long long n, const unsigned char *k) {
  int r = -1;
  for(unsigned i = 0; i < VP_NMAC; i++) if(i < vp_nmacs) {
    vp_macslot *s = &vp_macs[i];
    if(s->mlen != n) continue;
    if(r < 0 && (s->m == in || (!SAME_REGION(s->m, in) && vp_eq(s->m, in, (size_t) n)))
             && (s->mac == h || (!SAME_REGION(s->mac, h) && vp_eq(s->mac, h, 32)))
             && vp_eq(s->k, k, 32)) r = s->valid ? 1 : 0;
  }
  if(r < 0) r = nd_bool();
  if(!r) vp_macs_refused = 1;
  return r ? 0 : -1;
}
int crypto_aead_chacha20poly1305_ietf_decrypt(unsigned char *m, unsigned long long *mlen, unsigned char *nsec, const unsigned char *c, unsigned long long clen,
                                              const unsigned char *ad, unsigned long long adlen, const unsigned char *npub, const unsigned char *k) {
  int r = -1; (void) nsec; (void) ad;
  if(clen < 16) return -1;
  size_t pl = (size_t) clen - 16;
  int z = sodium_is_zero(npub, 12) && adlen == 0;
  for(unsigned i = 0; i < VP_NMAC; i++) if(i < vp_naeads) {
    vp_aeadslot *s = &vp_aeads[i];
    if(!z || s->clen != clen) continue;
    if(r < 0 && (s->c == c || (!SAME_REGION(s->c, c) && vp_eq(s->c, c, (size_t) clen))) && vp_eq(s->k, k, 32)) {
      r = s->valid ? 1 : 0;
      if(r) for(size_t j = 0; j < pl; j++) m[j] = s->pt[j];
    }
  }
  if(r < 0) { r = nd_bool(); if(r) nd_bytes(m, pl); }
  if(mlen) *mlen = r ? pl : 0;
  return r ? 0 : -1;
}
int crypto_aead_chacha20poly1305_ietf_encrypt(unsigned char *c, unsigned long long *clen, const unsigned char *m, unsigned long long mlen, const unsigned char *ad, unsigned long long adlen,
                                              const unsigned char *nsec, const unsigned char *npub, const unsigned char *k) {
  (void) m; (void) ad; (void) adlen; (void) nsec; (void) npub; (void) k;
  nd_bytes(c, (size_t) mlen + 16);
  if(clen) *clen = mlen + 16;
  return 0;
}
#endif
