/*
 * Executable reference model of the library's observable behaviour.
 *
 * Written from the documentation (jitterentropy(3), doc/, header comments,
 * SP800-90B, XDRBG paper), structured independently of the library: one
 * sample pipeline, table/formula driven health tests, one accounting record.
 * The model never looks at library memory.  It obtains every time stamp and
 * every environment answer through the env_* hooks below, which the simulator
 * serves in lockstep with the library under test.
 */
#ifndef V_MODEL_H
#define V_MODEL_H
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>
#include "keccak.h"

/* published API constants */
enum { F_NOMEM = 1<<2, F_FORCE_INT = 1<<3, F_DIS_INT = 1<<4, F_FIPS = 1<<5,
       F_NTG1 = 1<<6, F_CACHE_ALL = 1<<7, F_SECMEM = 1<<8 };
enum { I_ENOTIME=1, I_ECOARSE=2, I_ENOMONO=3, I_EMINVARVAR=6, I_ESTUCK=8,
       I_EHEALTH=9, I_ERCT=10, I_EHASH=11, I_EMEM=12, I_EGCD=13 };
enum { E_INVAL=-1, E_RCT=-2, E_APT=-3, E_NOTIME=-4, E_LAG=-5, E_RCTP=-6,
       E_APTP=-7, E_LAGP=-8, E_MEM=-9, E_MEMP=-10, E_SELF=-11 };
enum { H_RCT=1, H_APT=2, H_LAG=4, H_MEM=8, H_PERM=16 };	/* H_x << H_PERM */

#define M_MAX_OSR 20
#define M_MIN_OSR 3

/* what the model is measuring when it asks for time stamps */
enum tkind { TK_NORMAL, TK_STARTMEM, TK_SHA3 };

typedef struct mec {
	unsigned osr, flags;
	int fips, ntg1, mem, capped;
	int startup;			/* 2 memory, 1 hash, 0 done */
	unsigned hashloops;
	uint64_t gcd, prev;
	/* health */
	unsigned rct, rct_cut, rct_pcut;
	uint64_t apt_base; int apt_open; unsigned apt_n, apt_obs, apt_cut, apt_pcut;
	unsigned lag_obs, lag_hits, lag_run, lag_best, lag_score[8];
	uint64_t lag_hist[8];
	unsigned lg, lgp, ll, llp;
	unsigned short memctr, memwin, memcnt; unsigned memcut, mempcut; int recovering;
	unsigned fail;
	/* conditioning */
	sponge_t sp; int seeded;
	/* accounting */
	unsigned reinit; uint64_t invocations, bytes;
	int selftest_failed;
	int uuid_id;
	char uuid[37];
	/* statistics for coverage */
	uint64_t samples;
} mec;

typedef struct mproc {
	int tests_ok;		/* start-up tests passed in this process */
	int gcd_set; uint64_t gcd;
	int forced;		/* internal timer forced */
	int blocked;		/* configuration window closed */
	int cb;			/* failure callback registered */
} mproc;

extern mproc MP;
extern mec *m_cur;		/* instance currently measuring */
extern int m_abort;		/* set: unwind */

/* environment hooks, provided by the simulator */
void env_time(enum tkind k, int mix, int nout, uint64_t *out);
int env_alloc(unsigned flags);		/* 0 ok, else fails */
int env_sysfips(void);
int env_kat_broken(void);
long env_ncpu(void);
unsigned env_cache_bits(int all);	/* log2 of working set; 0 = unknown */
void env_cb(mec *e, unsigned mask);
void env_uuid(mec *e);

int m_init(void);
int m_init_ex(unsigned osr, unsigned flags);
mec *m_alloc(unsigned osr, unsigned flags);
ssize_t m_read(mec *e, unsigned char *out, size_t len);
ssize_t m_safe(mec **e, unsigned char *out, size_t len);
void m_free(mec *e);
int m_selftest(mec *e);
unsigned m_memsize_field(unsigned flags);
uint32_t m_memsize(unsigned flags);
unsigned m_hashloop(unsigned flags);
int m_code_of(unsigned mask);
uint64_t m_hist_val(const mec *e, unsigned back);
unsigned m_window(const mec *e);
#endif
