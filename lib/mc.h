/* Exhaustive-enumeration harness core.  A harness implements mc_explore(), which walks a finite space of
 * cases; mc_case() says whether this worker has to execute the case just reached.  Every case is numbered, so
 * the space is partitioned between workers, and named by a descriptor, so that one case can be replayed. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>

void mc_explore(void);                       /* provided by the harness */

extern bool mc_thorough;                     /* deeper bounds wanted */
extern uint64_t mc_seed;                     /* VERIF_SEED */
extern bool mc_replaying;                    /* one case only, verbose */

bool mc_case(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   /* property violated in current case */
#define MC_CHECK(c, ...) do { if (!(c)) { mc_fail(__VA_ARGS__); } } while (0)
extern bool mc_mute;                         /* while set, mc_fail is ignored (set-up outside a case) */
bool mc_failed(void);                        /* has the current case failed already? */
void mc_fatal(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn)); /* harness error: no verdict */
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   /* printed on replay only */
void mc_space(const char *name);             /* names the part of the space, for the statistics */
void mc_outcome(const void *p, size_t n);    /* adds a hash to the set of distinct observed outcomes */
void mc_outcome_str(const char *s);
void mc_state(uint64_t h);                   /* distinct model/implementation state reached */
void mc_transitions(uint64_t n);             /* executed transitions (operations) */
void mc_trace(uint64_t n);                   /* traces replayed against the implementation */
void mc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_case_cost(double seconds);           /* allow this much CPU time per case (default 20) */

uint64_t mc_hash(const void *p, size_t n);
uint64_t mc_hash2(uint64_t a, uint64_t b);

/* deterministic random source */
void mc_rand_reseed(uint64_t s);
uint64_t mc_rand_state(void);
uint64_t mc_rand64(void);
int mc_rand_bytes(uint8_t *p, uint32_t n);
void mc_fill(uint8_t *p, size_t n, uint64_t tag);    /* stateless pseudo-random pattern */

/* helpers */
const char *mc_hex(const void *p, size_t n);         /* rotating static buffers, truncated at 96 bytes */
#define MC_LEN(a) (sizeof(a) / sizeof((a)[0]))
#endif
