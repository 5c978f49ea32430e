/* stand-in for the interface of libgcrypt the library uses; implemented in heap.c */
#ifndef SIM_GCRYPT_H
#define SIM_GCRYPT_H
#include <stddef.h>
void *gcry_malloc(size_t n); void *gcry_calloc(size_t n, size_t m); void *gcry_malloc_secure(size_t n); void *gcry_calloc_secure(size_t n, size_t m);
void *gcry_xmalloc(size_t n); void *gcry_xcalloc(size_t n, size_t m); void *gcry_xmalloc_secure(size_t n); void *gcry_xcalloc_secure(size_t n, size_t m);
int gcry_is_secure(const void *p); void gcry_free(void *p); int gcry_fips_mode_active(void);
#endif
