#include "keccak.h"
#define RATE 136
uint64_t ref_rc[24] = {
0x0000000000000001ULL,0x0000000000008082ULL,0x800000000000808aULL,0x8000000080008000ULL,
0x000000000000808bULL,0x0000000080000001ULL,0x8000000080008081ULL,0x8000000000008009ULL,
0x000000000000008aULL,0x0000000000000088ULL,0x0000000080008009ULL,0x000000008000000aULL,
0x000000008000808bULL,0x800000000000008bULL,0x8000000000008089ULL,0x8000000000008003ULL,
0x8000000000008002ULL,0x8000000000000080ULL,0x000000000000800aULL,0x800000008000000aULL,
0x8000000080008081ULL,0x8000000000008080ULL,0x0000000080000001ULL,0x8000000080008008ULL};
static const unsigned rotc[24]={1,3,6,10,15,21,28,36,45,55,2,14,27,41,56,8,25,43,62,18,39,61,20,44};
static const unsigned piln[24]={10,7,11,17,18,3,5,16,8,21,24,4,15,23,19,13,12,2,20,14,22,9,6,1};
#define ROL(x,n) (((x)<<(n))|((x)>>(64-(n))))
__attribute__((optimize("O3")))
static void f1600(uint64_t *st)
{
	uint64_t s[25], b[25], c[5], d[5];
	memcpy(s, st, sizeof s);
	for (int r = 0; r < 24; r++) {
#pragma GCC unroll 5
		for (int i = 0; i < 5; i++) c[i] = s[i]^s[i+5]^s[i+10]^s[i+15]^s[i+20];
#pragma GCC unroll 5
		for (int i = 0; i < 5; i++) d[i] = c[(i+4)%5] ^ ROL(c[(i+1)%5],1);
		b[0] = s[0] ^ d[0];
#define RP(i, from) b[piln[i]] = ROL(s[from] ^ d[(from)%5], rotc[i])
		RP(0,1); RP(1,10); RP(2,7); RP(3,11); RP(4,17); RP(5,18); RP(6,3); RP(7,5); RP(8,16); RP(9,8); RP(10,21); RP(11,24);
		RP(12,4); RP(13,15); RP(14,23); RP(15,19); RP(16,13); RP(17,12); RP(18,2); RP(19,20); RP(20,14); RP(21,22); RP(22,9); RP(23,6);
#pragma GCC unroll 5
		for (int j = 0; j < 25; j += 5) {
#pragma GCC unroll 5
			for (int i = 0; i < 5; i++) s[j+i] = b[j+i] ^ (~b[j+(i+1)%5] & b[j+(i+2)%5]);
		}
		s[0] ^= ref_rc[r];
	}
	memcpy(st, s, sizeof s);
}
void ref_sponge_init(sponge_t *s, unsigned char pad) { memset(s, 0, sizeof *s); s->pad = pad; }
void ref_absorb(sponge_t *s, const void *p, size_t n)
{
	const unsigned char *d = p;
	while (n) {
		if (!(s->pos & 7) && n >= 8) {
			uint64_t w; memcpy(&w, d, 8); s->a[s->pos >> 3] ^= w; s->pos += 8; d += 8; n -= 8;
		} else {
			((unsigned char *)s->a)[s->pos++] ^= *d++; n--;
		}
		if (s->pos == RATE) { f1600(s->a); s->pos = 0; }
	}
}
void ref_squeeze_once(sponge_t *s, void *out, size_t n)
{
	((unsigned char *)s->a)[s->pos] ^= s->pad;
	((unsigned char *)s->a)[RATE-1] ^= 0x80;
	f1600(s->a);
	memcpy(out, s->a, n);
}
