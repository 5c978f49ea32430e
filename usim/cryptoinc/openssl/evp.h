#ifndef SIM_OSSL_EVP_H
#define SIM_OSSL_EVP_H
typedef struct ossl_lib_ctx_st OSSL_LIB_CTX;
int EVP_default_properties_is_fips_enabled(OSSL_LIB_CTX *ctx);
#endif
