/* Idealised secure channel library (the Noise_XK_* functions tp-dkg.c uses). */
#ifndef VP_NOISE_MODEL_H
#define VP_NOISE_MODEL_H
#include "XK.h"
#include "noise_private.h"
#include "vp.h"
#define VP_NSESS 8
#define VP_NPEER 4
/* may any operation fail as the solver pleases? */
extern int vp_noise_may_fail;
extern int vp_noise_failed;                  /* did one? */
extern unsigned vp_nsess;                    /* sessions created so far */
extern int vp_sess_live[VP_NSESS], vp_sess_init[VP_NSESS], vp_sess_stage[VP_NSESS];
extern Noise_XK_session_t *vp_sess[VP_NSESS];
extern unsigned vp_sess_peer[VP_NSESS];      /* initiator: which registered peer */
extern uint8_t *vp_sess_key[VP_NSESS];       /* transport key of the direction initiator to responder */
extern uint8_t *vp_sess_other[VP_NSESS];     /* and of the other direction */
extern int vp_dev_live, vp_dev_made;
extern uint8_t vp_dev_sk[32];
extern unsigned vp_npeers;
extern uint8_t vp_peer_key[VP_NPEER][32];
/* what was written to and read from each session, in order */
extern unsigned vp_nwrites[VP_NSESS], vp_nreads[VP_NSESS];
extern size_t vp_write_len[VP_NSESS][2];     /* of the plain text */
extern uint8_t vp_write_ct[VP_NSESS][2*72], vp_write_pt[VP_NSESS][2*40];
extern uint8_t vp_read_ct[VP_NSESS][2*72];
extern uint8_t vp_read_pt[VP_NSESS][40];     /* last plain text */
/* a session in the given stage, as left behind by earlier steps */
Noise_XK_session_t *vp_session(int initiator, int stage);
#define ST_I_WRITE1 0 /* initiator: about to write the first message ... */
#define ST_I_READ2 1
#define ST_I_WRITE3 2
#define ST_R_READ1 0
#define ST_R_WRITE2 1
#define ST_R_READ3 2
#define ST_TRANSPORT 3
void vp_device(const uint8_t *sk);           /* the device, as left behind by earlier steps */
extern Noise_XK_device_t *vp_dev;
#endif
