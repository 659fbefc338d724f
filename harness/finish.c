/* C08: the final share is the sum of NN dealt shares.  All but the last SYM of
 * them have fixed values, different from zero. */
#include "alg.h"
void vp_harness(void) {
  static TOPRF_Share dealt[NN], fin;
  unsigned sum = 0;
  uint8_t self = nd_u8();
  for(int i = 0; i < NN; i++) {
    unsigned v = (unsigned) (i * 7) % (VP_P - 1) + 1;
    if(i < NN - SYM) vp_put_sc(dealt[i].value, v);
    else v = nd_scalar(dealt[i].value);
    dealt[i].index = self;
    sum = vp_mod(sum + v);
  }
  nd_bytes(&fin, sizeof fin);
  dkg_finish(NN, dealt, self, &fin);
  CHECK(vp_sc(fin.value) == sum, "final share is not the sum of the shares dealt");
  REACHED("finished");
}
