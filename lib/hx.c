#include "hx.h"
int64_t hx_live, hx_live_bytes; uint64_t hx_nalloc, hx_fail_at, hx_fail_cnt, hx_failed, hx_rand_calls; bool hx_fail_forever; int hx_rand_mode;
void (*hx_on_free)(const void *p, size_t n);
#define MAGIC 0x48584d4147494331ULL
typedef struct { uint64_t magic; uint64_t size; } Hdr;
size_t hx_block_size(const void *p) { return ((const Hdr *)p)[-1].size; }
static void *h_malloc(uint32_t n)
{
    __atomic_add_fetch(&hx_nalloc, 1, __ATOMIC_RELAXED);
    if (hx_fail_at) { hx_fail_cnt++; if (hx_fail_cnt == hx_fail_at || (hx_fail_forever && hx_fail_cnt > hx_fail_at)) { hx_failed++; return NULL; } }
    Hdr *h = malloc(sizeof(Hdr) + n); if (!h) { return NULL; }
    h->magic = MAGIC; h->size = n; __atomic_add_fetch(&hx_live, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&hx_live_bytes, n, __ATOMIC_RELAXED);
    memset(h + 1, 0xA5, n);
    return h + 1;
}
static void h_free(void *p)
{
    if (!p) { return; }
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != MAGIC) { fprintf(stderr, "free of a block that is not live: %p\n", p); abort(); }
    if (hx_on_free) { hx_on_free(p, h->size); }
    h->magic = 0xdeadULL; __atomic_sub_fetch(&hx_live, 1, __ATOMIC_RELAXED); __atomic_sub_fetch(&hx_live_bytes, h->size, __ATOMIC_RELAXED);
    free(h);
}
void hx_fail_arm(uint64_t at, bool forever) { hx_fail_cnt = 0; hx_failed = 0; hx_fail_forever = forever; hx_fail_at = at; }
void hx_fail_off(void) { hx_fail_at = 0; }
void hx_init_alloc(void)
{
    BSL_SAL_CallBack_Ctrl(BSL_SAL_MEM_MALLOC, h_malloc);
    BSL_SAL_CallBack_Ctrl(BSL_SAL_MEM_FREE, h_free);
}
static int32_t h_rand(uint8_t *p, uint32_t n) { hx_rand_calls++; if (hx_rand_mode == 1) { return CRYPT_NO_REGIST_RAND; } mc_rand_bytes(p, n); return CRYPT_SUCCESS; }
/* linked with --wrap: the library's own generator (seeded from the OS) is replaced by the deterministic source too */
int32_t __wrap_CRYPT_EAL_RandbytesEx(CRYPT_EAL_LibCtx *c, uint8_t *p, uint32_t n) { (void)c; return h_rand(p, n); }
static int32_t h_randex(void *c, uint8_t *p, uint32_t n) { (void)c; return h_rand(p, n); }
void hx_init(void)
{
    hx_init_alloc();
    BSL_ERR_Init();
    int32_t r = CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL);
    if (r != CRYPT_SUCCESS) { mc_fatal("CRYPT_EAL_Init %x", r); }
    CRYPT_EAL_SetRandCallBack(h_rand);
    CRYPT_EAL_SetRandCallBackEx(h_randex);
}
const HxMd hx_md[] = {
    {CRYPT_MD_MD5, R_MD5, "md5"}, {CRYPT_MD_SHA1, R_SHA1, "sha1"}, {CRYPT_MD_SHA224, R_SHA224, "sha224"}, {CRYPT_MD_SHA256, R_SHA256, "sha256"},
    {CRYPT_MD_SHA384, R_SHA384, "sha384"}, {CRYPT_MD_SHA512, R_SHA512, "sha512"}, {CRYPT_MD_SHA3_224, R_SHA3_224, "sha3-224"}, {CRYPT_MD_SHA3_256, R_SHA3_256, "sha3-256"},
    {CRYPT_MD_SHA3_384, R_SHA3_384, "sha3-384"}, {CRYPT_MD_SHA3_512, R_SHA3_512, "sha3-512"}, {CRYPT_MD_SHAKE128, R_SHAKE128, "shake128"}, {CRYPT_MD_SHAKE256, R_SHAKE256, "shake256"},
    {CRYPT_MD_BLAKE2S256, R_BLAKE2S, "blake2s"}, {CRYPT_MD_SM3, R_SM3, "sm3"}};
const int hx_nmd = MC_LEN(hx_md);
