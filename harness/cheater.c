/* C20: tpdkg_cheater_msg() for every record the trusted party can produce. */
#include "common.h"
extern char *vp_text; extern size_t vp_text_len;
static int can_happen(int step, int e) {
  int env = e > 64 && e <= 64 + 7;
  switch(step) {
  case 4: case 6: case 8: case 12: case 14: case 22: return env || (step == 22 && e == 1);
  case 16: return env || e == 6 || e == 7 || e == 8;
  case 18: return (e >= 3 && e <= 7) || (e > 16 && e <= 16 + 7) || (e > 32 && e <= 32 + 7) || e == 127 || e == 128 || e == 129;
  case 20: return e >= 1 && e <= 8;
  }
  return 0;
}
void vp_harness(void) {
  static char text[256];
  TP_DKG_Cheater c;
  c.step = (int) nd_u32(); c.error = (int) nd_u32(); c.peer = nd_u8(); c.other_peer = nd_u8(); c.invalid_index = (int) nd_u32();
  size_t len = nd_u16();
  ASSUME(len <= sizeof text);
  for(unsigned i = 0; i < sizeof text; i++) text[i] = 'x';
  vp_text = text; vp_text_len = len;
  uint8_t r = tpdkg_cheater_msg(&c, text, len);
  size_t k = nd_pos(sizeof text);
  if(k >= len) CHECK(text[k] == 'x', "report written outside the buffer");
  if(len) { int z = 0; for(unsigned i = 0; i < sizeof text; i++) if(i < len && text[i] == 0) z = 1; CHECK(z, "report not terminated inside the buffer"); }
  if(can_happen(c.step, c.error)) {
    if(c.step == 16 && c.error == 6) { CHECK(r == 0, "a peer is blamed although nobody can be named"); REACHED("nobody"); }
    else if(c.step == 18 && c.error == 128) { CHECK(r == c.other_peer, "refuted complaint not blamed on the complainer"); REACHED("complainer"); }
    else { CHECK(r == c.peer, "the recorded peer is not blamed"); REACHED("peer"); }
  }
}
