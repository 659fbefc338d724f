/* Verification environment shared by every harness.
 *
 * The same file is used twice: with goto-cc, where ND_* are solver variables
 * and CHECK is a proof obligation, and with gcc (-DVP_NATIVE) for replaying a
 * counterexample, where ND_* are read back from the solver's trace.
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>

uint8_t  nd_u8(void);
uint16_t nd_u16(void);
uint32_t nd_u32(void);
uint64_t nd_u64(void);
int      nd_bool(void);
void     nd_bytes(void *p, size_t n);

#ifdef VP_NATIVE
void vp_assume(int c, const char *what, int line);
void vp_check(int c, const char *what, const char *file, int line);
#define ASSUME(c)      vp_assume(!!(c), #c, __LINE__)
#define CHECK(c, what) vp_check(!!(c), what, __FILE__, __LINE__)
#else
#define ASSUME(c)      __CPROVER_assume(c)
#define CHECK(c, what) __CPROVER_assert(c, "VP: " what)
#endif

/* Reachability witness: an assertion that the solver must find violated, at a
 * place the harness says can be reached.  Guards against vacuous success. */
#ifdef VP_NATIVE
#define REACHED(what)  ((void)0)
#else
#define REACHED(what)  __CPROVER_assert(0, "TWIN: " what)
#endif

void vp_harness(void);
#endif
