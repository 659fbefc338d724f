#include <stdlib.h>
#include <string.h>
#include "noise_model.h"
#ifndef PROP
#define PROP 0
#endif
/* how the library may be used is part of C19 */
#define USE(c, what) do { if(PROP == 19 || PROP == 12) CHECK(c, what); ASSUME(c); } while(0)

int vp_noise_may_fail, vp_noise_failed;
unsigned vp_nsess, vp_npeers;
int vp_sess_live[VP_NSESS], vp_sess_init[VP_NSESS], vp_sess_stage[VP_NSESS], vp_dev_live, vp_dev_made;
Noise_XK_session_t *vp_sess[VP_NSESS];
unsigned vp_sess_peer[VP_NSESS];
uint8_t *vp_sess_key[VP_NSESS], *vp_sess_other[VP_NSESS];
uint8_t vp_dev_sk[32], vp_peer_key[VP_NPEER][32];
unsigned vp_nwrites[VP_NSESS], vp_nreads[VP_NSESS];
size_t vp_write_len[VP_NSESS][2];
uint8_t vp_write_ct[VP_NSESS][2*72], vp_write_pt[VP_NSESS][2*40];
uint8_t vp_read_ct[VP_NSESS][2*72];
uint8_t vp_read_pt[VP_NSESS][40];
static uint8_t devmem[8], peermem[VP_NPEER][8];
Noise_XK_device_t *vp_dev = (Noise_XK_device_t*) devmem;

struct Noise_XK_encap_message_t_s { uint32_t len; uint8_t level; uint8_t *data; };

static int fails(void) {
  if(!vp_noise_may_fail || !nd_bool()) return 0;
  vp_noise_failed = 1;
  return 1;
}
static Noise_XK_rcode rcode(int ok) {
  Noise_XK_rcode r;
  r.val.case_Error = 0;
  r.tag = ok ? Noise_XK_Success : Noise_XK_Error;
  return r;
}
bool Noise_XK_rcode_is_success(Noise_XK_rcode c) { return c.tag == Noise_XK_Success; }
bool Noise_XK_rcode_is_error(Noise_XK_rcode c) { return c.tag == Noise_XK_Error; }
bool Noise_XK_rcode_is_stuck(Noise_XK_rcode c) { return c.tag == Noise_XK_Stuck; }

/* A session's number is kept in the session, and all counters advance whether
 * an operation fails or not, so that they are constants for symbolic execution. */
typedef struct { Noise_XK_session_t s; unsigned k; } sess;
static int broken[VP_NSESS]; /* after a failure nothing works any more */

/* ---- device and peers */
void vp_device(const uint8_t *sk) { vp_dev_live = vp_dev_made = 1; for(int i = 0; i < 32; i++) vp_dev_sk[i] = sk[i]; }
Noise_XK_device_t *Noise_XK_device_create(uint32_t prlg_len, uint8_t *prlg, Noise_XK_noise_string info, uint8_t *sk, uint8_t *spriv) {
  (void) prlg_len; (void) prlg; (void) info; (void) sk;
  USE(!vp_dev_live, "second channel device created");
  vp_device(spriv);
  if(fails()) { vp_dev_live = 0; return NULL; }
  return vp_dev;
}
void Noise_XK_device_free(Noise_XK_device_t *d) {
  USE(d == vp_dev && vp_dev_live, "channel device freed twice or never created");
  for(unsigned k = 0; k < VP_NSESS; k++) USE(!vp_sess_live[k], "channel device freed before its sessions");
  vp_dev_live = 0;
}
Noise_XK_peer_t *Noise_XK_device_add_peer(Noise_XK_device_t *d, Noise_XK_noise_string info, uint8_t *key) {
  (void) info;
  USE(d == vp_dev && vp_dev_live, "channel device used after free");
  CHECK(vp_npeers < VP_NPEER, "model capacity: channel peers");
  ASSUME(vp_npeers < VP_NPEER);
  unsigned k = vp_npeers++;
  for(int i = 0; i < 32; i++) vp_peer_key[k][i] = key[i];
  peermem[k][0] = (uint8_t) k;
#ifdef ADDFAIL /* which of these calls fails is fixed by the job */
  if(k == ADDFAIL) { vp_noise_failed = 1; return NULL; }
#endif
  return (Noise_XK_peer_t*) peermem[k];
}
uint32_t Noise_XK_peer_get_id(Noise_XK_peer_t *p) {
  USE(p != NULL, "peer of the channel device missing");
  return *(uint8_t*) p + 1u;
}
Noise_XK_peer_t *Noise_XK_device_lookup_peer_by_id(Noise_XK_device_t *d, uint32_t id) { (void) d; return id >= 1 && id <= VP_NPEER ? (Noise_XK_peer_t*) peermem[id - 1] : NULL; }
void Noise_XK_peer_get_info(Noise_XK_noise_string *out, Noise_XK_peer_t *p) { (void) p; *out = malloc(4); }

/* ---- sessions */
static unsigned sidx(const Noise_XK_session_t *s) {
  const sess *w = (const sess*) s;
  USE(w != NULL, "missing channel session used");
  unsigned k = w->k;
  USE(k < VP_NSESS && vp_sess_live[k], "channel session used after it was freed");
  return k;
}
static void transport(unsigned k) {
  Noise_XK_session_t *s = vp_sess[k];
  vp_sess_stage[k] = ST_TRANSPORT;
  nd_bytes(vp_sess_key[k], 32);
  nd_bytes(vp_sess_other[k], 32);
  if(vp_sess_init[k]) {
    s->val.case_DS_Initiator.state.tag = Noise_XK_IMS_Transport;
    s->val.case_DS_Initiator.state.val.case_IMS_Transport.send_key = vp_sess_key[k];
    s->val.case_DS_Initiator.state.val.case_IMS_Transport.receive_key = vp_sess_other[k];
  } else {
    s->val.case_DS_Responder.state.tag = Noise_XK_IMS_Transport;
    s->val.case_DS_Responder.state.val.case_IMS_Transport.receive_key = vp_sess_key[k];
    s->val.case_DS_Responder.state.val.case_IMS_Transport.send_key = vp_sess_other[k];
  }
}
Noise_XK_session_t *vp_session(int initiator, int stage) {
  CHECK(vp_nsess < VP_NSESS, "model capacity: channel sessions");
  ASSUME(vp_nsess < VP_NSESS);
  unsigned k = vp_nsess++;
  sess *w = malloc(sizeof *w);
  ASSUME(w != NULL);
  w->k = k;
  Noise_XK_session_t *s = &w->s;
  vp_sess[k] = s;
  vp_sess_live[k] = 1; vp_sess_init[k] = initiator; vp_sess_stage[k] = stage;
  vp_sess_key[k] = malloc(32); vp_sess_other[k] = malloc(32);
  ASSUME(vp_sess_key[k] != NULL && vp_sess_other[k] != NULL);
  s->tag = initiator ? Noise_XK_DS_Initiator : Noise_XK_DS_Responder;
  if(initiator) s->val.case_DS_Initiator.state.tag = Noise_XK_IMS_Handshake;
  else s->val.case_DS_Responder.state.tag = Noise_XK_IMS_Handshake;
  if(stage == ST_TRANSPORT) transport(k);
  return s;
}
static Noise_XK_session_t *made(Noise_XK_session_t *s) {
  if(!fails()) return s;
  vp_sess_live[((sess*) s)->k] = 0;
  return NULL;
}
Noise_XK_session_t *Noise_XK_session_create_initiator(Noise_XK_device_t *d, uint32_t pid) {
  USE(d == vp_dev && vp_dev_live, "channel device used after free");
  USE(pid >= 1 && pid <= vp_npeers, "session with an unregistered peer");
  Noise_XK_session_t *s = vp_session(1, ST_I_WRITE1);
  vp_sess_peer[vp_nsess - 1] = pid - 1;
  return made(s);
}
Noise_XK_session_t *Noise_XK_session_create_responder(Noise_XK_device_t *d) {
  USE(d == vp_dev && vp_dev_live, "channel device used after free");
  return made(vp_session(0, ST_R_READ1));
}
void Noise_XK_session_free(Noise_XK_session_t *s) {
  unsigned k = sidx(s);
  vp_sess_live[k] = 0;
  free(vp_sess_key[k]); free(vp_sess_other[k]);
  free(s);
}
uint32_t Noise_XK_session_get_peer_id(Noise_XK_session_t *s) { return vp_sess_peer[sidx(s)] + 1; }

/* ---- messages */
static Noise_XK_encap_message_t *encap(uint32_t len, const uint8_t *d) {
  Noise_XK_encap_message_t *m = malloc(sizeof *m);
  ASSUME(m != NULL);
  m->len = len; m->level = 0; m->data = NULL;
  if(len) { m->data = malloc(len); ASSUME(m->data != NULL); for(uint32_t i = 0; i < len; i++) m->data[i] = d[i]; }
  return m;
}
Noise_XK_encap_message_t *Noise_XK_pack_message_with_conf_level(uint8_t level, uint32_t len, uint8_t *d) {
  Noise_XK_encap_message_t *m = encap(len, d);
  m->level = level;
  return m;
}
void Noise_XK_encap_message_p_free(Noise_XK_encap_message_t *m) { if(m->data) free(m->data); free(m); }
bool Noise_XK_unpack_message_with_auth_level(uint32_t *len, uint8_t **out, uint8_t level, Noise_XK_encap_message_t *m) {
  (void) level;
  uint8_t *c = NULL;
  uint32_t n = m->len;
  if(n == 33) { c = malloc(33); ASSUME(c != NULL); for(uint32_t i = 0; i < 33; i++) c[i] = m->data[i]; }
  else if(n) { c = malloc(40); ASSUME(c != NULL); for(uint32_t i = 0; i < 40; i++) if(i < n) c[i] = m->data[i]; }
  /* after a failure the caller must not look at the results; they are the
   * same, so that symbolic execution knows their sizes */
  *len = n;
  *out = c;
  return !fails();
}
Noise_XK_rcode Noise_XK_session_write(Noise_XK_encap_message_t *m, Noise_XK_session_t *s, uint32_t *len, uint8_t **out) {
  unsigned k = sidx(s);
  *len = m->len + 16; *out = NULL;
  uint32_t over;
  int st = vp_sess_stage[k];
  if(st == ST_TRANSPORT) over = 16;
  else if(vp_sess_init[k] && st == ST_I_WRITE1) over = 48;
  else if(vp_sess_init[k] && st == ST_I_WRITE3) over = 64;
  else if(!vp_sess_init[k] && st == ST_R_WRITE2) over = 48;
  else { vp_noise_failed = 1; return rcode(0); }
  uint32_t n = m->len + over;
  *len = n;
  uint8_t *c = malloc(n);
  ASSUME(c != NULL);
  nd_bytes(c, n);
  unsigned w = vp_nwrites[k]++;
  CHECK(w < 2 && m->len <= 40 && n <= 72, "model capacity: channel messages");
  ASSUME(w < 2 && m->len <= 40 && n <= 72);
  vp_write_len[k][w] = m->len;
  for(uint32_t i = 0; i < m->len; i++) vp_write_pt[k][w*40 + i] = m->data[i];
  for(uint32_t i = 0; i < n; i++) vp_write_ct[k][w*72 + i] = c[i];
  if(vp_sess_init[k] && st == ST_I_WRITE3) transport(k);
  else if(st != ST_TRANSPORT) vp_sess_stage[k] = st + 1;
  *out = c;
  if(broken[k] || fails()) { broken[k] = 1; vp_noise_failed = 1; return rcode(0); }
  return rcode(1);
}
Noise_XK_rcode Noise_XK_session_read(Noise_XK_encap_message_t **m, Noise_XK_session_t *s, uint32_t n, uint8_t *in) {
  unsigned k = sidx(s);
  *m = NULL;
  uint32_t over;
  int st = vp_sess_stage[k];
  if(st == ST_TRANSPORT) over = 16;
  else if(vp_sess_init[k] && st == ST_I_READ2) over = 48;
  else if(!vp_sess_init[k] && st == ST_R_READ1) over = 48;
  else if(!vp_sess_init[k] && st == ST_R_READ3) over = 64;
  else { vp_noise_failed = 1; return rcode(0); }
  if(n < over || (st != ST_TRANSPORT && n != over)) { vp_noise_failed = 1; return rcode(0); }
  USE(n - over <= 40, "channel message of a length nobody sends");
  unsigned r = vp_nreads[k]++;
  CHECK(r < 2, "model capacity: channel messages");
  ASSUME(r < 2);
  for(uint32_t i = 0; i < n; i++) vp_read_ct[k][r*72 + i] = in[i];
  for(uint32_t i = 0; i < n - over; i++) vp_read_pt[k][i] = nd_u8();
  Noise_XK_encap_message_t *e = encap(n - over, vp_read_pt[k]);
  if(!vp_sess_init[k] && st == ST_R_READ3) transport(k);
  else if(st != ST_TRANSPORT) vp_sess_stage[k] = st + 1;
  *m = e;
  if(broken[k] || fails()) { broken[k] = 1; vp_noise_failed = 1; return rcode(0); }
  return rcode(1);
}
