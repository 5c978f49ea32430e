/* Independent Keccak/SHA3/SHAKE reference used by the model (FIPS 202). */
#ifndef V_KECCAK_H
#define V_KECCAK_H
#include <stdint.h>
#include <string.h>
typedef struct { uint64_t a[25]; unsigned pos; unsigned char pad; } sponge_t;
extern uint64_t ref_rc[24];
void ref_sponge_init(sponge_t *s, unsigned char pad);
void ref_absorb(sponge_t *s, const void *p, size_t n);
void ref_squeeze_once(sponge_t *s, void *out, size_t n); /* finalise + squeeze, n <= 136 */
#endif
