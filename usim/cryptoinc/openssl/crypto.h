/* stand-in for the interface of OpenSSL and AWS-LC the library uses; implemented in heap.c */
#ifndef SIM_OSSL_CRYPTO_H
#define SIM_OSSL_CRYPTO_H
#include <stddef.h>
void *OPENSSL_malloc(size_t n); void *OPENSSL_zalloc(size_t n); void OPENSSL_free(void *p); void OPENSSL_clear_free(void *p, size_t n); void OPENSSL_cleanse(void *p, size_t n);
#ifndef AWSLC
void *OPENSSL_secure_malloc(size_t n); void *OPENSSL_secure_zalloc(size_t n); void OPENSSL_secure_free(void *p); void OPENSSL_secure_clear_free(void *p, size_t n);
int CRYPTO_secure_malloc_initialized(void); int CRYPTO_secure_allocated(const void *p);
#else
int FIPS_mode(void);
#endif
#endif
