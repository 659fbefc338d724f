/* stdio as the library uses it: only ever for logging and for small names. */
#include <stdarg.h>
#include <stdio.h>
#include <stddef.h>
#include <stdint.h>
#include "vp.h"
unsigned vp_snprintf_calls;
/* a text buffer of the harness, to see that nothing is written behind its end */
char *vp_text; size_t vp_text_len;
#ifdef VP_NATIVE
#undef snprintf
int vp_snprintf(char *out, size_t n, const char *fmt, ...) {
  CHECK(!vp_text || out != vp_text || n <= vp_text_len, "text may exceed its buffer");
  va_list ap;
  va_start(ap, fmt);
  int r = vsnprintf(out, n, fmt, ap);
  va_end(ap);
  return r;
}
#endif
#ifndef VP_NATIVE
int fprintf(FILE *f, const char *fmt, ...) { (void) fmt; CHECK(f != NULL, "log written to a NULL stream"); return 0; }
int vfprintf(FILE *f, const char *fmt, va_list ap) { (void) fmt; (void) ap; CHECK(f != NULL, "log written to a NULL stream"); return 0; }
int fputs(const char *s, FILE *f) { (void) s; CHECK(f != NULL, "log written to a NULL stream"); return 0; }
int fputc(int c, FILE *f) { (void) c; CHECK(f != NULL, "log written to a NULL stream"); return 0; }
size_t fwrite(const void *p, size_t a, size_t n, FILE *f) { (void) p; (void) a; CHECK(f != NULL, "log written to a NULL stream"); return n; }
int printf(const char *fmt, ...) { (void) fmt; return 0; }
int snprintf(char *out, size_t n, const char *fmt, ...) {
  (void) fmt;
  vp_snprintf_calls++;
  /* content is irrelevant to every property; the extent is not */
  if(vp_text && out == vp_text) {
    CHECK(n <= vp_text_len, "text may exceed its buffer");
    if(n) out[0] = 0;
    return 1;
  }
  for(size_t i = 0; i < n; i++) out[i] = 0;
  return 1;
}
/* byte by byte: constant positions stay constant for the symbolic execution,
 * unlike with CBMC's own whole-object versions */
void *memcpy(void *d, const void *s, size_t n) {
  for(size_t i = 0; i < n; i++) ((uint8_t*) d)[i] = ((const uint8_t*) s)[i];
  return d;
}
void *memmove(void *d, const void *s, size_t n) {
  if(__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s))
    for(size_t i = n; i > 0; i--) ((uint8_t*) d)[i-1] = ((const uint8_t*) s)[i-1];
  else
    for(size_t i = 0; i < n; i++) ((uint8_t*) d)[i] = ((const uint8_t*) s)[i];
  return d;
}
/* see vpmem.h */
#define MEMSET(bits) void *vp_memset##bits(void *d, int c, size_t n) { \
  uint##bits##_t v = (uint##bits##_t) (0x0101010101010101ULL * (uint8_t) c); \
  for(size_t i = 0; i < n / sizeof v; i++) ((uint##bits##_t*) d)[i] = v; \
  for(size_t i = n - n % sizeof v; i < n; i++) ((uint8_t*) d)[i] = (uint8_t) c; \
  return d; }
MEMSET(16)
MEMSET(32)
MEMSET(64)
void *memset(void *d, int c, size_t n) {
  for(size_t i = 0; i < n; i++) ((uint8_t*) d)[i] = (uint8_t) c;
  return d;
}
int memcmp(const void *a, const void *b, size_t n) {
  int r = 0;
  for(size_t i = 0; i < n; i++) if(!r) r = (int) ((const uint8_t*) a)[i] - (int) ((const uint8_t*) b)[i];
  return r;
}
uint16_t htons(uint16_t v) { return (uint16_t) ((v >> 8) | (v << 8)); }
uint16_t ntohs(uint16_t v) { return (uint16_t) ((v >> 8) | (v << 8)); }
uint32_t htonl(uint32_t v) { return (v >> 24) | ((v >> 8) & 0xff00u) | ((v << 8) & 0xff0000u) | (v << 24); }
uint32_t ntohl(uint32_t v) { return (v >> 24) | ((v >> 8) & 0xff00u) | ((v << 8) & 0xff0000u) | (v << 24); }
#endif
