/* openHiTLS-specific harness helpers: library initialisation, deterministic randomness, allocator hooks. */
#ifndef HX_H
#define HX_H
#include "mc.h"
#include "bsl_sal.h"
#include "bsl_err.h"
#include "bsl_init.h"
#include "crypt_errno.h"
#include "crypt_algid.h"
#include "crypt_types.h"
#include "crypt_eal_init.h"
#include "crypt_eal_md.h"
#include "crypt_eal_mac.h"
#include "crypt_eal_cipher.h"
#include "crypt_eal_kdf.h"
#include "crypt_eal_pkey.h"
#include "crypt_eal_rand.h"
#include "ref.h"
void hx_init(void);                 /* allocator + CRYPT_EAL_Init + deterministic random source */
void hx_init_alloc(void);           /* allocator hooks only (call before anything else) */
/* tracking allocator */
extern int64_t hx_live;             /* blocks currently allocated through the library */
extern int64_t hx_live_bytes;
extern uint64_t hx_nalloc;          /* allocation calls so far */
extern uint64_t hx_fail_at;         /* fail the allocation with this ordinal (1-based, from hx_fail_arm) */
extern bool hx_fail_forever;        /* ... and all later ones */
extern uint64_t hx_fail_cnt;        /* number of allocations since armed */
extern uint64_t hx_failed;          /* allocations refused since armed */
void hx_fail_arm(uint64_t at, bool forever);
void hx_fail_off(void);
extern void (*hx_on_free)(const void *p, size_t n);
size_t hx_block_size(const void *p);
bool hx_leak_begin(int64_t *mark);
/* random source */
extern uint64_t hx_rand_calls;
extern int hx_rand_mode;            /* 0 normal, 1 fail */
const char *hx_mdname(int id);
typedef struct { int id; RefMd ref; const char *name; } HxMd;
extern const HxMd hx_md[]; extern const int hx_nmd;
#endif
