#include "vp.h"
#ifndef VP_NATIVE
uint8_t  nondet_uint8(void);
uint16_t nondet_uint16(void);
uint32_t nondet_uint32(void);
uint64_t nondet_uint64(void);

/* every solver variable passes through vp_nd, so that the counterexample
 * trace lists them in execution order */
uint64_t vp_nd;
uint8_t  nd_u8(void)  { uint8_t v = nondet_uint8();   vp_nd = v; return v; }
uint16_t nd_u16(void) { uint16_t v = nondet_uint16(); vp_nd = v; return v; }
uint32_t nd_u32(void) { uint32_t v = nondet_uint32(); vp_nd = v; return v; }
uint64_t nd_u64(void) { uint64_t v = nondet_uint64(); vp_nd = v; return v; }
int      nd_bool(void){ return nd_u8() & 1; }
void nd_bytes(void *p, size_t n) {
  uint8_t *b = p;
  for(size_t i = 0; i < n; i++) b[i] = nd_u8();
}
int main(void) { vp_harness(); return 0; }
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t *vals; static size_t nvals, pos;
static int loaded;
static void load(void) {
  if(loaded) return;
  loaded = 1;
  const char *fn = getenv("VP_REPLAY");
  if(!fn) return;
  FILE *f = fopen(fn, "r");
  if(!f) { fprintf(stderr, "cannot open %s\n", fn); exit(3); }
  unsigned long long v; size_t cap = 0;
  while(fscanf(f, "%llu", &v) == 1) {
    if(nvals == cap) { cap = cap ? 2*cap : 1024; vals = realloc(vals, cap * sizeof *vals); }
    vals[nvals++] = v;
  }
  fclose(f);
}
static uint64_t next(void) { load(); return pos < nvals ? vals[pos++] : 0; }
uint8_t  nd_u8(void)  { return (uint8_t) next(); }
uint16_t nd_u16(void) { return (uint16_t) next(); }
uint32_t nd_u32(void) { return (uint32_t) next(); }
uint64_t nd_u64(void) { return next(); }
int      nd_bool(void){ return nd_u8() & 1; }
void nd_bytes(void *p, size_t n) { uint8_t *b = p; for(size_t i=0;i<n;i++) b[i] = nd_u8(); }
void vp_assume(int c, const char *what, int line) {
  if(c) return;
  printf("REPLAY-DIVERGED assumption %s line %d\n", what, line);
  fflush(stdout);
  _Exit(3);
}
void vp_check(int c, const char *what, const char *file, int line) {
  if(c) return;
  printf("REPLAY-VIOLATED %s (%s:%d)\n", what, file, line);
  fflush(stdout);
  _Exit(42);
}
int main(void) { vp_harness(); printf("REPLAY-HELD\n"); return 0; }
#endif
