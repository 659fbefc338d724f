/* Included before every file of the repository: memset() of counters goes
 * element by element, because symbolic execution does not put a constant
 * together from single bytes. */
#ifndef VPMEM_H
#define VPMEM_H
#include <string.h>
#include <stdint.h>
void *vp_memset16(void *d, int c, size_t n);
void *vp_memset32(void *d, int c, size_t n);
void *vp_memset64(void *d, int c, size_t n);
#define memset(d, c, n) _Generic((d)+0, unsigned short*: vp_memset16, unsigned int*: vp_memset32, int*: vp_memset32, unsigned long*: vp_memset64, default: (memset))((d), (c), (n))
#endif
