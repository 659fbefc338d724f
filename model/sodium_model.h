/* Idealised libsodium used by the solver harnesses.  See DESIGN.md, section
 * "Model of libsodium", for what is exact and what is abstracted. */
#ifndef VP_SODIUM_MODEL_H
#define VP_SODIUM_MODEL_H
#include <stdint.h>
#include <stddef.h>
#include "vp.h"

/* ---- toy prime-order group ---- */
#ifndef VP_P
#define VP_P 17u
#endif
unsigned vp_mod(unsigned x);
unsigned vp_mulp(unsigned a, unsigned b);
unsigned vp_invp(unsigned a);
unsigned vp_sc(const uint8_t *s);              /* value of a scalar */
void     vp_put_sc(uint8_t *s, unsigned v);    /* canonical encoding */
int      vp_pt_ok(const uint8_t *p);           /* valid encoding? */
unsigned vp_pt(const uint8_t *p);              /* exponent of a valid point */
void     vp_put_pt(uint8_t *p, unsigned e);
unsigned nd_scalar(uint8_t *s);                /* any scalar, value returned */
unsigned nd_scalar_nz(uint8_t *s);
unsigned nd_point(uint8_t *p);                 /* any valid non-identity point */

/* values handed out by crypto_core_ristretto255_scalar_random */
#define VP_RND_MAX 64
extern unsigned vp_rnd[VP_RND_MAX];
extern unsigned vp_rnd_n;

/* everything randombytes_buf and crypto_sign_keypair handed out, in order */
#ifndef VP_POOL
#define VP_POOL 1
#endif
extern uint8_t vp_pool[VP_POOL];
extern size_t vp_pool_n;

/* first inputs of crypto_core_ristretto255_from_hash */
extern uint8_t vp_hashed[2][64];
extern unsigned vp_hashed_n;

/* ---- ideal signatures ---- */
/* A registered slot is a (signature, message) pair lying in harness memory;
 * `valid` says whether it verifies under `pk`.  Any other combination of
 * bytes, range and key verifies or not as the solver pleases. */
typedef struct { const uint8_t *sig, *m; size_t mlen; uint8_t pk[32]; int valid; } vp_slot;
#ifndef VP_NSLOT
#define VP_NSLOT 20
#endif
extern vp_slot vp_slots[VP_NSLOT];
extern unsigned vp_nslots;
extern int vp_slot_force; /* register only valid slots from now on */
int vp_slot_add(const uint8_t *sig, const uint8_t *m, size_t mlen, const uint8_t *pk);

#ifndef VP_SIGMAX
#define VP_SIGMAX 1
#endif
#ifndef VP_NSIGS
#define VP_NSIGS 1
#endif
extern unsigned vp_nsigs;
/* the key pair generated last */
extern int vp_key_made;
extern uint8_t vp_key_pk[32], vp_key_sk[64];
/* is the message currently at msg (sig|body) signed, unmodified, with sk? */
int vp_signed(const uint8_t *sig, const uint8_t *m, size_t mlen, const uint8_t *sk);

/* ---- ideal hashes ---- */
#ifndef VP_NSTREAM
#define VP_NSTREAM 4
#endif
#ifndef VP_STREAMMAX
#define VP_STREAMMAX 64
#endif
typedef struct { size_t len; int alg; uint8_t b[VP_STREAMMAX]; size_t final, outlen; uint8_t dig[64]; } vp_stream;
/* forget how many streams there are exactly: at most n */
void vp_hash_settle(unsigned n);
vp_stream *vp_stream_at(unsigned k);
extern unsigned vp_nstreams;
#define VP_BLAKE 100
#define VP_SHA512 2
vp_stream *vp_stream_of(const void *state);   /* the stream behind a hash state */
size_t vp_absorbed(const void *state);

/* ---- ideal MACs and AEAD: same idea as the signature slots ---- */
typedef struct { const uint8_t *mac, *m; size_t mlen; uint8_t k[32]; int valid; } vp_macslot;
#ifndef VP_NMAC
#define VP_NMAC 10
#endif
extern vp_macslot vp_macs[VP_NMAC];
extern unsigned vp_nmacs;
extern int vp_macs_refused;   /* did a verification fail? */
typedef struct { const uint8_t *c; size_t clen; uint8_t k[32]; int valid; uint8_t pt[40]; } vp_aeadslot;
extern vp_aeadslot vp_aeads[VP_NMAC];
extern unsigned vp_naeads;
typedef struct { uint8_t out[32], m[64], k[32]; size_t mlen; } vp_authrec;
extern vp_authrec vp_auths[VP_NMAC];
extern unsigned vp_nauths;

/* ---- locked memory bookkeeping ---- */
extern int vp_mlock_may_fail;
extern int vp_locks_live, vp_locks_total, vp_lock_errors, vp_lock_failures;
/* what randombytes_buf handed out last */
extern uint8_t vp_randbuf[64];
extern size_t vp_randbuf_len;

/* ---- wall clock ---- */
extern uint64_t vp_now;

extern const uint8_t *vp_region; extern size_t vp_region_len;
int vp_eq(const void *a, const void *b, size_t n);
#endif
