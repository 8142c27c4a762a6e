#define _GNU_SOURCE
#include "mc.h"
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>

bool mc_thorough, mc_replaying;
uint64_t mc_seed = 1;

#define MAXW 64
#define DESC 4096
#define NSPACE 256
#define HSZ (1u << 22)

typedef struct {
    volatile uint64_t idx;        /* case being executed (1-based), 0 none */
    volatile int done;            /* worker finished the enumeration */
    volatile int fatal;
    volatile double costLimit;
    char desc[DESC];
    uint64_t total;               /* cases enumerated */
    uint64_t run;                 /* cases executed */
    uint64_t trans, traces;
    struct { char name[96]; uint64_t n; } space[NSPACE];
    int nspace;
    volatile int nfail;
} Slot;

static Slot *g_slots;
static Slot *S;                   /* mine */
static int g_nw = 1, g_me;
static uint64_t g_idx, g_resume;
static uint64_t g_upto = UINT64_MAX;
static const char *g_replay;
static const char *g_out;
static int g_maxfail = 12;
static bool g_caseFailed, g_inCase;
static char g_desc[DESC];
static uint64_t *g_oset, *g_sset; /* shared open-addressing sets of distinct outcome/state hashes */
static int g_curSpace = -1;
static int g_samples;
static uint64_t g_nextSample = 1;

uint64_t mc_hash(const void *p, size_t n)
{
    const uint8_t *b = p; uint64_t h = 0xcbf29ce484222325ULL ^ n;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32;
    return h;
}
uint64_t mc_hash2(uint64_t a, uint64_t b) { uint64_t v[2] = {a, b}; return mc_hash(v, sizeof v); }

static uint64_t g_rs;
void mc_rand_reseed(uint64_t s) { g_rs = s; }
uint64_t mc_rand_state(void) { return g_rs; }
uint64_t mc_rand64(void)
{
    uint64_t z = (__atomic_add_fetch(&g_rs, 0x9e3779b97f4a7c15ULL, __ATOMIC_RELAXED));
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
int mc_rand_bytes(uint8_t *p, uint32_t n)
{
    while (n > 0) { uint64_t v = mc_rand64(); uint32_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; }
    return 0;
}
void mc_fill(uint8_t *p, size_t n, uint64_t tag)
{
    uint64_t s = tag * 0x9e3779b97f4a7c15ULL + 0x1234567;
    for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0) { s += 0x9e3779b97f4a7c15ULL; }
        uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; z ^= z >> 31;
        p[i] = (uint8_t)(z >> (8 * (i % 8)));
    }
}
const char *mc_hex(const void *p, size_t n)
{
    static char bufs[8][200]; static int k; char *o = bufs[k++ & 7]; size_t m = n > 96 ? 96 : n;
    for (size_t i = 0; i < m; i++) { sprintf(o + 2 * i, "%02x", ((const uint8_t *)p)[i]); }
    o[2 * m] = 0; if (n > m) { strcat(o, ".."); }
    return o;
}
static void set_add(uint64_t *set, uint64_t h)
{
    if (h == 0) { h = 1; }
    for (uint32_t i = (uint32_t)h & (HSZ - 1), k = 0; k < 64; k++, i = (i + 1) & (HSZ - 1)) {
        uint64_t v = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
        if (v == h) { return; }
        if (v == 0) {
            uint64_t exp = 0;
            if (__atomic_compare_exchange_n(&set[i], &exp, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED) || exp == h) { return; }
        }
    }
}
void mc_outcome(const void *p, size_t n) { set_add(g_oset, mc_hash(p, n)); }
void mc_outcome_str(const char *s) { mc_outcome(s, strlen(s)); }
void mc_state(uint64_t h) { set_add(g_sset, h); }
void mc_transitions(uint64_t n) { S->trans += n; }
void mc_trace(uint64_t n) { S->traces += n; }
void mc_case_cost(double s) { S->costLimit = s; }

static void json_str(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c < 32 || c > 126) { fprintf(f, "\\u%04x", c); }
        else { fputc(c, f); }
    }
    fputc('"', f);
}
static void record(const char *kind, int w, uint64_t idx, const char *desc, const char *msg)
{
    char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
    fprintf(f, "{\"kind\":\"%s\",\"worker\":%d,\"nw\":%d,\"idx\":%llu,\"case\":", kind, w, g_nw, (unsigned long long)idx);
    json_str(f, desc); fprintf(f, ",\"msg\":"); json_str(f, msg); fprintf(f, "}\n"); fclose(f);
    int fd = open(g_out, O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd >= 0) { if (write(fd, b, n) < 0) {} close(fd); }
    free(b);
}
bool mc_mute;
void mc_fail(const char *fmt, ...)
{
    if (mc_mute) { return; }
    char m[2048]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    if (mc_replaying) { printf("FAIL [%s]: %s\n", g_desc, m); fflush(stdout); }
    if (g_caseFailed) { return; }   /* first failure of a case is the one reported */
    g_caseFailed = true;
    S->nfail++;
    record("fail", g_me, g_idx, g_desc, m);
    if (S->nfail >= g_maxfail) { S->done = 2; fflush(NULL); _exit(0); }
}
bool mc_failed(void) { return g_caseFailed; }
void mc_fatal(const char *fmt, ...)
{
    char m[2048]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    fprintf(stderr, "HARNESS ERROR [%s]: %s\n", g_desc, m);
    record("fatal", g_me, g_idx, g_desc, m);
    S->fatal = 1; fflush(NULL); _exit(3);
}
void mc_note(const char *fmt, ...)
{
    if (!mc_replaying) { return; }
    va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); fflush(stdout);
}
void mc_sample(const char *fmt, ...)
{
    if (g_samples >= 4 || mc_replaying) { return; }
    g_samples++;
    char m[1024]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    record("sample", g_me, g_idx, g_desc, m);
}
void mc_space(const char *name)
{
    for (int i = 0; i < S->nspace; i++) { if (!strcmp(S->space[i].name, name)) { g_curSpace = i; return; } }
    if (S->nspace < NSPACE) { g_curSpace = S->nspace++; snprintf(S->space[g_curSpace].name, 96, "%s", name); }
}
static double profNow(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
bool mc_case(const char *fmt, ...)
{
    static int prof = -1; static double profT; if (prof < 0) { prof = getenv("MC_PROF") != NULL; } if (prof && g_inCase) { fprintf(stderr, "PROF %.3f %s\n", profNow() - profT, g_desc); }
    if (g_inCase) { S->idx = 0; g_inCase = false; if (mc_replaying && g_replay && !strcmp(g_replay, g_desc)) { S->done = 1; fflush(NULL); _exit(g_caseFailed ? 1 : 0); } }
    g_idx++;
    S->total = g_idx;
    if (g_idx > g_upto) { S->done = 1; fflush(NULL); _exit(0); }
    if (!g_replay && ((g_idx - 1) % g_nw != (uint64_t)g_me || g_idx <= g_resume)) { return false; }
    va_list ap; va_start(ap, fmt); vsnprintf(g_desc, sizeof g_desc, fmt, ap); va_end(ap);
    if (g_replay && strcmp(g_replay, g_desc)) { return false; }
    memcpy(S->desc, g_desc, strlen(g_desc) + 1);
    S->idx = g_idx; g_inCase = true; g_caseFailed = false; if (prof) { profT = profNow(); }
    S->run++;
    if (g_curSpace >= 0) { S->space[g_curSpace].n++; }
    mc_rand_reseed(mc_hash2(mc_hash(g_desc, strlen(g_desc)), mc_seed));
    if (S->run == g_nextSample && g_samples < 3) { g_nextSample = g_nextSample * 7 + 3; mc_sample("case"); }
    return true;
}

static double worker_cpu(pid_t p)
{
    char fn[64]; snprintf(fn, sizeof fn, "/proc/%d/stat", (int)p);
    FILE *f = fopen(fn, "r"); if (!f) { return 0; }
    char b[1024]; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0;
    char *q = strrchr(b, ')'); if (!q) { return 0; }
    unsigned long ut = 0, st = 0; long cu = 0, cs = 0;
    sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %ld %ld", &ut, &st, &cu, &cs);
    return (double)(ut + st + cu + cs) / sysconf(_SC_CLK_TCK);
}
static void worker(int w, uint64_t resume)
{
    g_me = w; S = &g_slots[w]; g_resume = resume; S->nspace = S->nspace; 
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    mc_explore();
    if (g_inCase && mc_replaying) { S->done = 1; fflush(NULL); _exit(g_caseFailed ? 1 : 0); }
    S->idx = 0; S->done = 1; fflush(NULL);
    _exit(mc_replaying ? 4 : 0);
}
int main(int argc, char **argv)
{
    const char *e;
    if ((e = getenv("VERIF_SEED"))) { mc_seed = strtoull(e, NULL, 10); }
    if ((e = getenv("VERIF_TIER")) && !strcmp(e, "thorough")) { mc_thorough = true; }
    g_nw = 8; g_out = "/dev/null"; const char *stats = NULL; int only = -1;
    double budget = 1e9;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--workers")) { g_nw = atoi(argv[++i]); }
        else if (!strcmp(argv[i], "--out")) { g_out = argv[++i]; }
        else if (!strcmp(argv[i], "--stats")) { stats = argv[++i]; }
        else if (!strcmp(argv[i], "--replay")) { g_replay = argv[++i]; mc_replaying = true; }
        else if (!strcmp(argv[i], "--only")) { only = atoi(argv[++i]); }
        else if (!strcmp(argv[i], "--upto")) { g_upto = strtoull(argv[++i], NULL, 10); }
        else if (!strcmp(argv[i], "--budget")) { budget = atof(argv[++i]); }
        else if (!strcmp(argv[i], "--maxfail")) { g_maxfail = atoi(argv[++i]); }
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
    }
    if (g_nw > MAXW) { g_nw = MAXW; }
    int fl = MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE;
    g_slots = mmap(NULL, sizeof(Slot) * MAXW, PROT_READ | PROT_WRITE, fl, -1, 0);
    g_oset = mmap(NULL, HSZ * 8, PROT_READ | PROT_WRITE, fl, -1, 0);
    g_sset = mmap(NULL, HSZ * 8, PROT_READ | PROT_WRITE, fl, -1, 0);
    if (g_slots == MAP_FAILED || g_oset == MAP_FAILED || g_sset == MAP_FAILED) { return 2; }
    for (int i = 0; i < MAXW; i++) { g_slots[i].costLimit = 20; }
    if (g_replay) { g_nw = 1; g_maxfail = 1 << 30; }
    pid_t pid[MAXW]; uint64_t lastIdx[MAXW] = {0}; double cpuAt[MAXW] = {0}; double wallAt[MAXW] = {0}; int live = 0, crashes = 0, fatal = 0, replayRc = 0;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    fflush(NULL);
    for (int w = 0; w < g_nw; w++) {
        if (only >= 0 && w != only) { pid[w] = -1; continue; }
        pid[w] = fork();
        if (pid[w] == 0) { worker(w, 0); }
        live++;
    }
    bool timedout = false;
    while (live > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double wall = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1e9;
        if (p > 0) {
            int w; for (w = 0; w < g_nw && pid[w] != p; w++) {}
            if (w == g_nw) { continue; }
            Slot *s = &g_slots[w];
            live--; pid[w] = -1;
            if (WIFEXITED(st)) { replayRc = WEXITSTATUS(st); }
            if (s->fatal) { fatal = 1; continue; }
            if (s->done) { continue; }
            char m[128];
            if (WIFSIGNALED(st)) { snprintf(m, sizeof m, "process died: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
            else { snprintf(m, sizeof m, "process ended by sanitizer or exit, status %d", WEXITSTATUS(st)); }
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { snprintf(m, sizeof m, "no answer: case exceeded %.0f s of CPU time", s->costLimit); }
            if (s->idx == 0) { fprintf(stderr, "HARNESS ERROR: worker %d ended outside a case: %s\n", w, m); fatal = 1; record("fatal", w, 0, "(outside a case)", m); continue; }
            record("crash", w, s->idx, s->desc, m);
            if (mc_replaying) { printf("FAIL [%s]: %s\n", s->desc, m); replayRc = 1; continue; }
            if (++crashes < 4) {
                uint64_t r = s->idx; s->idx = 0;
                pid[w] = fork();
                if (pid[w] == 0) { worker(w, r); }
                live++;
            }
            continue;
        }
        for (int w = 0; w < g_nw; w++) {
            if (pid[w] <= 0) { continue; }
            Slot *s = &g_slots[w];
            if (s->idx == 0 || s->idx != lastIdx[w]) { lastIdx[w] = s->idx; cpuAt[w] = worker_cpu(pid[w]); wallAt[w] = wall; continue; }
            /* CPU time decides about a hang; a case blocked without using CPU is given much more wall time */
            if (worker_cpu(pid[w]) - cpuAt[w] > s->costLimit || wall - wallAt[w] > 12 * s->costLimit + 60) { kill(pid[w], SIGXCPU); lastIdx[w] = 0; usleep(200000); kill(pid[w], SIGKILL); }
        }
        if (wall > budget && !timedout) {
            timedout = true;
            for (int w = 0; w < g_nw; w++) { if (pid[w] > 0) { g_slots[w].done = 3; kill(pid[w], SIGKILL); } }
        }
        usleep(g_replay ? 2000 : 10000);
    }
    uint64_t total = 0, run = 0, trans = 0, traces = 0, no = 0, ns = 0; int fails = 0;
    bool complete = !timedout;
    for (int w = 0; w < g_nw; w++) {
        Slot *s = &g_slots[w];
        if (s->total > total) { total = s->total; }
        run += s->run; trans += s->trans; traces += s->traces; fails += s->nfail;
        if (s->done != 1) { complete = false; }
    }
    for (uint32_t i = 0; i < HSZ; i++) { no += g_oset[i] != 0; ns += g_sset[i] != 0; }
    FILE *f = stats ? fopen(stats, "w") : NULL;
    if (f) {
        fprintf(f, "{\"cases\":%llu,\"enumerated\":%llu,\"transitions\":%llu,\"traces\":%llu,\"outcomes\":%llu,\"states\":%llu,\"fails\":%d,\"crashes\":%d,\"complete\":%s,\"spaces\":{",
            (unsigned long long)run, (unsigned long long)total, (unsigned long long)trans, (unsigned long long)traces,
            (unsigned long long)no, (unsigned long long)ns, fails, crashes, complete ? "true" : "false");
        bool first = true;
        for (int w = 0; w < g_nw; w++) {
            for (int i = 0; i < g_slots[w].nspace; i++) {
                uint64_t n = g_slots[w].space[i].n; bool seen = false;
                for (int v = 0; v < w && !seen; v++) { for (int j = 0; j < g_slots[v].nspace; j++) { if (!strcmp(g_slots[v].space[j].name, g_slots[w].space[i].name)) { seen = true; break; } } }
                if (seen) { continue; }
                for (int v = w + 1; v < g_nw; v++) { for (int j = 0; j < g_slots[v].nspace; j++) { if (!strcmp(g_slots[v].space[j].name, g_slots[w].space[i].name)) { n += g_slots[v].space[j].n; } } }
                fprintf(f, "%s", first ? "" : ","); json_str(f, g_slots[w].space[i].name); fprintf(f, ":%llu", (unsigned long long)n); first = false;
            }
        }
        fprintf(f, "}}\n"); fclose(f);
    }
    if (fatal) { return 3; }
    if (mc_replaying) { return replayRc == 4 ? 4 : (replayRc || fails ? 1 : 0); }
    return fails || crashes ? 1 : 0;
}
