/* C27: containers, error stack, parameter lists and I/O objects against abstract models, over every operation sequence up to a depth. */
#include "hx.h"
#include "bsl_list.h"
#include "bsl_params.h"
#include "bsl_uio.h"
#include "bsl_hash.h"
#include "bsl_err_internal.h"
#include "bsl_buffer.h"
#include "uio_abstraction.h"
/* generic enumeration of all sequences of length 1..depth over nops operations */
typedef void (*RunFn)(int cfg, const int *seq, int n);
static void all_seq(const char *name, int cfg, const char *cfgName, const char *const *opn, int nops, int from, int depth, RunFn fn)
{
    int idx[12];
    for (int n = from; n <= depth; n++) {
        memset(idx, 0, sizeof idx);
        for (;;) {
            char d[256]; int k = 0; for (int i = 0; i < n; i++) { k += snprintf(d + k, sizeof d - k, " %s", opn[idx[i]]); }
            if (mc_case("%s %s:%s", name, cfgName, d)) { fn(cfg, idx, n); mc_trace(1); BSL_ERR_ClearError(); }
            int i = n - 1; while (i >= 0 && ++idx[i] == nops) { idx[i--] = 0; }
            if (i < 0) { break; }
        }
    }
}
/* ---------- BSL_LIST ---------- */
enum { L_BEF, L_AFT, L_BEG, L_END, L_DELC, L_DETC, L_FIRST, L_LAST, L_NEXT, L_PREV, L_SRCH, L_SRCH0, L_IDX1, L_REV, L_SORT, L_DELN1, L_DETN, L_COPY, L_CAT, L_N };
static const char *LN[] = {"before", "after", "begin", "end", "delCurr", "detachCurr", "first", "last", "next", "prev", "search1", "search9", "index1", "reverse", "sort", "delNode1", "detachNodeLast", "copy", "concat"};
typedef struct { int v; int id; } El;
static int g_freed; static void el_free(void *p) { g_freed++; BSL_SAL_Free(p); }
static void *el_dup(const void *p) { El *e = BSL_SAL_Malloc(sizeof(El)); *e = *(const El *)p; e->id += 1000; return e; }
static int32_t el_find(const void *a, const void *b) { return ((const El *)a)->v == *(const int *)b ? 0 : 1; }
static int32_t el_cmp(const void *a, const void *b) { const El *x = *(El *const *)a, *y = *(El *const *)b; return x->v != y->v ? x->v - y->v : x->id - y->id; }
static bool list_check(BslList *l, El **m, int n, int cur, const char *op)
{
    if (BSL_LIST_COUNT(l) != n) { mc_fail("after %s: count %d, expected %d", op, BSL_LIST_COUNT(l), n); return false; }
    BslListNode *x = BSL_LIST_FirstNode(l), *last = NULL; int i = 0;
    for (; x && i < n + 1; x = BSL_LIST_GetNextNode(l, x), i++) { if (i >= n || BSL_LIST_GetData(x) != m[i]) { mc_fail("after %s: element %d wrong", op, i); return false; } if (BSL_LIST_GetPrevNode(x) != last) { mc_fail("after %s: backward link of element %d wrong", op, i); return false; } last = x; }
    if (i != n) { mc_fail("after %s: %d elements reachable, expected %d", op, i, n); return false; }
    if (BSL_LIST_LastNode(l) != last) { mc_fail("after %s: last element wrong", op); return false; }
    void **c = BSL_LIST_Curr(l); if (cur < 0 ? c != NULL : (c == NULL || *c != m[cur])) { mc_fail("after %s: cursor wrong (expected %d)", op, cur); return false; }
    if (BSL_LIST_EMPTY(l) != (n == 0) || BSL_LIST_FirstNodeData(l) != (n ? m[0] : NULL)) { mc_fail("after %s: emptiness or first element wrong", op); return false; }
    return true;
}
static void list_run(int init, const int *seq, int n)
{
    BslList *l = BSL_LIST_New(sizeof(El)); El *m[64]; int cnt = 0, cur = -1, id = 0; int64_t live = hx_live; bool ok = true; El *det[32]; int nd = 0;
    for (int i = 0; i < init; i++) { El *e = BSL_SAL_Malloc(sizeof *e); e->v = (i * 2 + 1) % 3; e->id = id++; BSL_LIST_AddElement(l, e, BSL_LIST_POS_END); m[cnt++] = e; cur = cnt - 1; }
    for (int k = 0; k < n && ok; k++) {
        const char *op = LN[seq[k]];
        switch (seq[k]) {
            case L_BEF: case L_AFT: case L_BEG: case L_END: {
                El *e = BSL_SAL_Malloc(sizeof *e); e->v = id % 3; e->id = id++; static const BslListPosition P[] = {BSL_LIST_POS_BEFORE, BSL_LIST_POS_AFTER, BSL_LIST_POS_BEGIN, BSL_LIST_POS_END};
                int at = seq[k] == L_BEG ? 0 : seq[k] == L_END ? cnt : cur < 0 ? (seq[k] == L_AFT ? cnt : 0) : seq[k] == L_AFT ? cur + 1 : cur;
                if (BSL_LIST_AddElement(l, e, P[seq[k]])) { mc_fail("adding failed"); ok = false; BSL_SAL_Free(e); break; }
                memmove(m + at + 1, m + at, (cnt - at) * sizeof m[0]); m[at] = e; cnt++; cur = at; break; }
            case L_DELC: { int f = g_freed; BSL_LIST_DeleteCurrent(l, el_free); if ((g_freed - f) != (cur >= 0)) { mc_fail("delete freed %d elements", g_freed - f); } if (cur >= 0) { memmove(m + cur, m + cur + 1, (cnt - cur - 1) * sizeof m[0]); cnt--; if (cur >= cnt) { cur = -1; } } break; }
            case L_DETC: { El *e = cur >= 0 ? m[cur] : NULL; BSL_LIST_DetachCurrent(l); if (cur >= 0) { memmove(m + cur, m + cur + 1, (cnt - cur - 1) * sizeof m[0]); cnt--; if (cur >= cnt) { cur = cnt - 1; } det[nd++] = e; } break; }
            case L_FIRST: BSL_LIST_First(l); cur = cnt ? 0 : -1; break; case L_LAST: BSL_LIST_Last(l); cur = cnt - 1; break;
            case L_NEXT: BSL_LIST_Next(l); cur = cur < 0 ? (cnt ? 0 : -1) : cur + 1 < cnt ? cur + 1 : -1; break;
            case L_PREV: BSL_LIST_Prev(l); cur = cur < 0 ? cnt - 1 : cur - 1; break;
            case L_SRCH: case L_SRCH0: { int v = seq[k] == L_SRCH ? 1 : 9, f = -1; for (int i = 0; i < cnt && f < 0; i++) { if (m[i]->v == v) { f = i; } } void *r2 = BSL_LIST_SearchDataConst(l, &v, el_find, NULL); if (r2 != (f < 0 ? NULL : m[f])) { mc_fail("stateless search result wrong"); } void *r = BSL_LIST_Search(l, &v, el_find, NULL); if (r != (f < 0 ? NULL : m[f])) { mc_fail("search result wrong"); } if (f >= 0) { cur = f; } break; }
            case L_IDX1: { void *r = BSL_LIST_GetIndexNode(1, l); if (r != (cnt > 1 ? m[1] : NULL)) { mc_fail("index 1 wrong"); } if (cnt > 1) { cur = 1; } for (int i = 0; i < cnt; i++) { if (BSL_LIST_GetElmtIndex(m[i], l) != i) { mc_fail("element index wrong"); } } int x; if (BSL_LIST_GetElmtIndex(&x, l) != -1) { mc_fail("foreign element found"); } break; }
            case L_REV: { BSL_LIST_RevList(l); for (int i = 0; i < cnt / 2; i++) { El *t = m[i]; m[i] = m[cnt - 1 - i]; m[cnt - 1 - i] = t; } cur = cnt ? 0 : -1; break; }
            case L_SORT: { if (cnt == 0) { break; } BslList *r = BSL_LIST_Sort(l, el_cmp); if (r != l) { mc_fail("sort failed"); } qsort(m, cnt, sizeof m[0], (int (*)(const void *, const void *))el_cmp); cur = -1; break; }
            case L_DELN1: { if (cnt < 2) { break; } BslListNode *x = BSL_LIST_GetNextNode(l, BSL_LIST_FirstNode(l)); BSL_LIST_DeleteNode(l, x, el_free); memmove(m + 1, m + 2, (cnt - 2) * sizeof m[0]); cnt--; if (cur == 1) { cur = cnt > 1 ? 1 : -1; } else if (cur > 1) { cur--; } break; }
            case L_DETN: { if (cnt < 1) { break; } BslListNode *x = BSL_LIST_LastNode(l); det[nd++] = m[cnt - 1]; BSL_LIST_DetachNode(l, &x); cnt--; if (cur == cnt) { cur = cnt - 1; } if ((x ? BSL_LIST_GetData(x) : NULL) != (cnt ? m[cnt - 1] : NULL)) { mc_fail("detach returns the wrong neighbour"); } break; }
            case L_COPY: { BslList *c = BSL_LIST_Copy(l, el_dup, el_free); if (cnt == 0) { if (c) { mc_fail("copy of an empty list"); } break; } if (!c || BSL_LIST_COUNT(c) != cnt) { mc_fail("copy has wrong size"); break; } int i = 0; for (BslListNode *x = BSL_LIST_FirstNode(c); x; x = BSL_LIST_GetNextNode(c, x), i++) { El *e = BSL_LIST_GetData(x); if (i >= cnt || e == m[i] || e->v != m[i]->v) { mc_fail("copy differs"); break; } } BSL_LIST_FREE(c, el_free); break; }
            case L_CAT: { BslList *o = BSL_LIST_New(sizeof(El)); for (int i = 0; i < 2; i++) { El *e = BSL_SAL_Malloc(sizeof *e); e->v = id % 3; e->id = id++; BSL_LIST_AddElement(o, e, BSL_LIST_POS_END); m[cnt + i] = e; } if (BSL_LIST_Concat(l, o) != l) { mc_fail("concat failed"); } if (cnt == 0) { cur = 0; } cnt += 2; BSL_SAL_Free(o); break; }
            default: break;
        }
        mc_transitions(1); ok = ok && !mc_failed() && list_check(l, m, cnt, cur, op);
    }
    uint64_t h = cnt * 64 + cur + 1; for (int i = 0; i < cnt; i++) { h = h * 3 + m[i]->v; } mc_state(h); mc_outcome(&h, 8);
    for (int i = 0; i < nd; i++) { BSL_SAL_Free(det[i]); }
    if (ok) { int f = g_freed; BSL_LIST_DeleteAll(l, el_free); if (g_freed - f != cnt || BSL_LIST_COUNT(l) != 0) { mc_fail("delete all freed %d of %d", g_freed - f, cnt); } BSL_SAL_Free(l); if (hx_live != live - 1) { mc_fail("%lld blocks lost", (long long)(hx_live - live + 1)); } }
}
/* ---------- BSL_HASH ---------- */
#define NK 5
static const char *HN[] = {"ins0", "ins1", "ins2", "ins3", "ins4", "put0", "put2", "era0", "era1", "era2", "era3", "era4", "clear"};
static uint32_t h_id(uintptr_t k) { return (uint32_t)k; } static uint32_t h_zero(uintptr_t k) { (void)k; return 0; } static uint32_t h_big(uintptr_t k) { return 0xfffffff0u + (uint32_t)k * 3; }
static bool hash_check(BSL_HASH_Hash *h, const int *val, int nk, const char *op)
{
    int n = 0; for (int i = 0; i < nk; i++) { n += val[i] >= 0; }
    if (BSL_HASH_Size(h) != (uint32_t)n || BSL_HASH_Empty(h) != (n == 0)) { mc_fail("after %s: size %u, expected %d", op, BSL_HASH_Size(h), n); return false; }
    for (int i = 0; i < nk; i++) {
        uintptr_t v = 0; int32_t r = BSL_HASH_At(h, i, &v); if ((r == 0) != (val[i] >= 0) || (r == 0 && v != (uintptr_t)val[i])) { mc_fail("after %s: key %d -> %x/%d, expected %d", op, i, r, (int)v, val[i]); return false; }
        BSL_HASH_Iterator it = BSL_HASH_Find(h, i); if ((it != BSL_HASH_IterEnd(h)) != (val[i] >= 0)) { mc_fail("after %s: find %d wrong", op, i); return false; }
    }
    static int seen[512]; memset(seen, 0, sizeof(int) * nk); int c = 0;
    for (BSL_HASH_Iterator it = BSL_HASH_IterBegin(h); it != BSL_HASH_IterEnd(h) && c <= nk; it = BSL_HASH_IterNext(h, it), c++) { uintptr_t k = BSL_HASH_HashIterKey(h, it), v = BSL_HASH_IterValue(h, it); if (k >= (uintptr_t)nk || val[k] < 0 || (uintptr_t)val[k] != v || seen[k]++) { mc_fail("after %s: iteration yields %d twice or wrongly", op, (int)k); return false; } }
    if (c != n) { mc_fail("after %s: iteration yields %d of %d", op, c, n); return false; }
    return true;
}
static BSL_HASH_Hash *hash_new(int cfg) { static const uint32_t bs[] = {1, 2, 3}; return BSL_HASH_Create(bs[cfg % 3], cfg / 3 == 0 ? h_id : cfg / 3 == 1 ? h_zero : cfg / 3 == 2 ? h_big : NULL, NULL, NULL, NULL); }
static void hash_run(int cfg, const int *seq, int n)
{
    BSL_ERR_PushError(1, "c27", 1); BSL_HASH_Hash *h = hash_new(cfg); int val[NK]; for (int i = 0; i < NK; i++) { val[i] = -1; } int64_t live = hx_live; if (!h) { mc_fail("create"); return; }
    for (int k = 0; k < n; k++) {
        int o = seq[k]; int32_t r;
        if (o < 5) { r = BSL_HASH_Insert(h, o, 0, 10 + k, 0); if ((r == 0) != (val[o] < 0)) { mc_fail("insert %d returned %x", o, r); break; } if (!r) { val[o] = 10 + k; } }
        else if (o < 7) { int key = o == 5 ? 0 : 2; r = BSL_HASH_Put(h, key, 0, 50 + k, 0, NULL); if (r) { mc_fail("put returned %x", r); break; } val[key] = 50 + k; }
        else if (o < 12) { BSL_HASH_Erase(h, o - 7); val[o - 7] = -1; } else { BSL_HASH_Clear(h); for (int i = 0; i < NK; i++) { val[i] = -1; } }
        mc_transitions(1); if (!hash_check(h, val, NK, HN[o])) { break; }
    }
    uint64_t s = cfg; for (int i = 0; i < NK; i++) { s = s * 2 + (val[i] >= 0); } mc_state(s); mc_outcome(&s, 8);
    BSL_HASH_Destroy(h); if (hx_live >= live) { mc_fail("blocks lost"); }
}
static int order(int kind, int i, int n) { switch (kind) { case 0: return i; case 1: return n - 1 - i; case 2: return (i % 2) ? n / 2 + i / 2 >= n ? n - 1 : n / 2 + i / 2 : i / 2; default: return (int)((i * 7LL + 3) % n); } }
static void hash_grow(int cfg, int n, int ok1, int ok2)
{
    BSL_HASH_Hash *h = hash_new(cfg); static int val[512]; for (int i = 0; i < n; i++) { val[i] = -1; }
    for (int i = 0; i < n; i++) { int k = order(ok1, i, n); int32_t r = BSL_HASH_Insert(h, k, 0, k + 1, 0); if ((r == 0) != (val[k] < 0)) { mc_fail("insert of key %d returned %x", k, r); } val[k] = k + 1; if ((i < 40 || i % 16 == 0) && !hash_check(h, val, n, "insert")) { break; } mc_transitions(1); }
    hash_check(h, val, n, "insertions");
    for (int i = 0; i < n && !mc_failed(); i++) { int k = order(ok2, i, n); BSL_HASH_Erase(h, k); val[k] = -1; if (i < 40 || i % 16 == 0) { hash_check(h, val, n, "erase"); } if (i % 5 == 4) { BSL_HASH_Put(h, k, 0, k + 7, 0, NULL); val[k] = k + 7; hash_check(h, val, n, "put"); } mc_transitions(1); }
    BSL_HASH_Destroy(h);
}
/* keys and values with dup/free hooks: nothing leaks, nothing is freed twice (checked by the sanitizer) */
static void *sdup(void *p, size_t n) { (void)n; return p ? strcpy(BSL_SAL_Malloc(strlen(p) + 1), p) : NULL; } static void sfree(void *p) { BSL_SAL_Free(p); }
static void hash_str(int cfg, const int *seq, int n)
{
    BSL_ERR_PushError(1, "c27", 1); ListDupFreeFuncPair f = {sdup, sfree}; int64_t live = hx_live; BSL_HASH_Hash *h = BSL_HASH_Create(1 + cfg, BSL_HASH_CodeCalcStr, BSL_HASH_MatchStr, &f, &f); int val[NK]; for (int i = 0; i < NK; i++) { val[i] = -1; } char kb[8], vb[8];
    for (int k = 0; k < n && !mc_failed(); k++) {
        int o = seq[k], key = o < 5 ? o : o < 7 ? (o == 5 ? 0 : 2) : o - 7; sprintf(kb, "key%d", key); sprintf(vb, "v%d", k);
        if (o < 5) { int32_t r = BSL_HASH_Insert(h, (uintptr_t)kb, 5, (uintptr_t)vb, 3); if ((r == 0) != (val[key] < 0)) { mc_fail("insert %d returned %x", key, r); } if (!r) { val[key] = k; } } else if (o < 7) { if (BSL_HASH_Put(h, (uintptr_t)kb, 5, (uintptr_t)vb, 3, NULL)) { mc_fail("put"); } val[key] = k; } else if (o < 12) { BSL_HASH_Erase(h, (uintptr_t)kb); val[key] = -1; } else { BSL_HASH_Clear(h); for (int i = 0; i < NK; i++) { val[i] = -1; } }
        for (int i = 0; i < NK; i++) { sprintf(kb, "key%d", i); sprintf(vb, "v%d", val[i]); uintptr_t v = 0; int32_t r = BSL_HASH_At(h, (uintptr_t)kb, &v); if ((r == 0) != (val[i] >= 0) || (r == 0 && strcmp((char *)v, vb))) { mc_fail("after %s: key%d wrong", HN[o], i); } }
        mc_transitions(1);
    }
    BSL_HASH_Destroy(h); if (hx_live != live) { mc_fail("%lld blocks lost", (long long)(hx_live - live)); }
}
/* ---------- error stack ---------- */
enum { E_PUSH, E_PUSH0, E_GLAST, E_PLAST, E_GFIRST, E_PFIRST, E_MARK, E_POPM, E_CLRM, E_CLEAR, E_N };
static const char *EN[] = {"push", "push0", "getLast", "peekLast", "getFirst", "peekFirst", "setMark", "popToMark", "clearLastMark", "clear"};
#define ECAP 20
typedef struct { int e; uint32_t line; bool mark; } Er;
static void err_run(int init, const int *seq, int n)
{
    Er q[ECAP]; int c = 0, id = 1; BSL_ERR_ClearError(); const char *file; uint32_t line;
    for (int k = -init; k < n && !mc_failed(); k++) {
        int o = k < 0 ? E_PUSH : seq[k]; int32_t r;
        switch (o) {
            case E_PUSH: BSL_ERR_PushError(0x1000 + id, "f.c", id); if (c == ECAP) { memmove(q, q + 1, (ECAP - 1) * sizeof q[0]); c--; } q[c++] = (Er){0x1000 + id, id, false}; id++; break;
            case E_PUSH0: BSL_ERR_PushError(BSL_SUCCESS, "f.c", 1); break;
            case E_GLAST: line = 0; r = BSL_ERR_GetLastErrorFileLine(&file, &line); if (r != (c ? q[c - 1].e : 0) || (c && line != q[c - 1].line)) { mc_fail("last error is %x line %u, expected %x", r, line, c ? q[c - 1].e : 0); } if (c) { c--; } break;
            case E_PLAST: r = BSL_ERR_PeekLastError(); if (r != (c ? q[c - 1].e : 0)) { mc_fail("peek last %x, expected %x", r, c ? q[c - 1].e : 0); } break;
            case E_GFIRST: line = 0; r = BSL_ERR_GetErrorFileLine(&file, &line); if (r != (c ? q[0].e : 0) || (c && line != q[0].line)) { mc_fail("first error is %x, expected %x", r, c ? q[0].e : 0); } if (c) { memmove(q, q + 1, (c - 1) * sizeof q[0]); c--; } break;
            case E_PFIRST: r = BSL_ERR_PeekError(); if (r != (c ? q[0].e : 0)) { mc_fail("peek first %x, expected %x", r, c ? q[0].e : 0); } break;
            case E_MARK: r = BSL_ERR_SetMark(); if ((r == 0) != (c > 0)) { mc_fail("set mark returned %x with %d errors", r, c); } if (c) { q[c - 1].mark = true; } break;
            case E_POPM: { r = BSL_ERR_PopToMark(); while (c && !q[c - 1].mark) { c--; } if ((r == 0) != (c > 0)) { mc_fail("pop to mark returned %x, %d errors expected to remain", r, c); } if (c) { q[c - 1].mark = false; } break; }
            case E_CLRM: { BSL_ERR_ClearLastMark(); int i = c; while (i && !q[i - 1].mark) { i--; } if (i) { q[i - 1].mark = false; } break; }
            case E_CLEAR: BSL_ERR_ClearError(); c = 0; break;
        }
        mc_transitions(1);
        if (k >= 0) { r = BSL_ERR_PeekLastError(); int32_t f = BSL_ERR_PeekError(); if (r != (c ? q[c - 1].e : 0) || f != (c ? q[0].e : 0)) { mc_fail("after %s: ends are %x/%x, expected %x/%x", EN[o], f, r, c ? q[0].e : 0, c ? q[c - 1].e : 0); } }
    }
    uint64_t s = c; for (int i = 0; i < c; i++) { s = s * 2 + q[i].mark; } mc_state(s); mc_outcome(&s, 8);
    for (int i = 0; i < c && !mc_failed(); i++) { int32_t r = BSL_ERR_GetError(); if (r != q[i].e) { mc_fail("draining: error %d is %x, expected %x", i, r, q[i].e); } }
    if (!mc_failed() && BSL_ERR_GetError() != 0) { mc_fail("an error remains after draining"); }
}
/* ---------- memory I/O object ---------- */
static const char *MN[] = {"w1", "w3", "w70", "puts", "r1", "r2", "r40", "gets4", "gets64", "pending", "reset", "ptr", "info"};
static void mem_run(int ro, const int *seq, int n)
{
    BSL_UIO *u = BSL_UIO_New(BSL_UIO_MemMethod()); static uint8_t q[4096]; size_t h = 0, t = 0; uint8_t b[256]; static char src[] = "ab\ncdefg\nhijklmnop\n\nqr"; uint32_t w; int ctr = 1; if (!u) { mc_fail("new"); return; }
    if (ro) { int32_t r = BSL_UIO_Ctrl(u, BSL_UIO_MEM_NEW_BUF, sizeof src - 1, src); if (r) { mc_fail("read-only buffer: %x", r); } memcpy(q, src, sizeof src - 1); t = sizeof src - 1; }
    for (int k = 0; k < n && !mc_failed(); k++) {
        int32_t r; int o = seq[k];
        if (o < 4) {
            int len = o == 0 ? 1 : o == 1 ? 3 : o == 2 ? 70 : 4; for (int i = 0; i < len; i++) { b[i] = ctr++ % 9 == 4 ? '\n' : 'A' + ctr % 50; } b[len] = 0; w = 77;
            r = o == 3 ? BSL_UIO_Puts(u, (char *)b, &w) : BSL_UIO_Write(u, b, len, &w);
            if (ro) { if (r == 0) { mc_fail("write to read-only memory accepted"); } } else if (r || w != (uint32_t)len) { mc_fail("write returned %x, %u", r, w); } else { memcpy(q + t, b, len); t += len; }
        } else if (o < 7) {
            uint32_t len = o == 4 ? 1 : o == 5 ? 2 : 40; memset(b, 0xee, sizeof b); w = 99; r = BSL_UIO_Read(u, b, len, &w); uint32_t e = t - h < len ? t - h : len;
            if (r || w != e || memcmp(b, q + h, e) || b[len] != 0xee) { mc_fail("read of %u returned %x, %u bytes, expected %u", len, r, w, e); } h += e;
        } else if (o < 9) {
            uint32_t cap = o == 7 ? 4 : 64, e = 0; w = cap; memset(b, 0xee, sizeof b); while (e < cap - 1 && h + e < t) { if (q[h + e++] == '\n') { break; } }
            r = BSL_UIO_Gets(u, (char *)b, &w); if (r || w != e || memcmp(b, q + h, e) || b[e] != 0 || b[cap] != 0xee) { mc_fail("gets returned %x, %u bytes, expected %u", r, w, e); } h += e;
        } else if (o == 9) { uint64_t p = 99; r = BSL_UIO_Ctrl(u, BSL_UIO_PENDING, sizeof p, &p); if (r || p != t - h) { mc_fail("pending %llu, expected %zu", (unsigned long long)p, t - h); }
        } else if (o == 10) { r = BSL_UIO_Ctrl(u, BSL_UIO_RESET, 0, NULL); if (!r) { h = 0; if (!ro) { t = 0; } } else if (t) { mc_fail("reset returned %x", r); }
        } else if (o == 11) { BSL_BufMem *m = NULL; r = BSL_UIO_Ctrl(u, BSL_UIO_MEM_GET_PTR, sizeof m, &m); if (r || !m || m->length != t - h || memcmp(m->data ? m->data : (char *)q, q + h, t - h)) { mc_fail("pointer access wrong: %x", r); }
        } else { BSL_UIO_CtrlGetInfoParam in = {0}; if (t == h && !ro) { continue; } r = BSL_UIO_Ctrl(u, BSL_UIO_MEM_GET_INFO, sizeof in, &in); if (r || in.size != t - h || memcmp(in.data, q + h, t - h)) { mc_fail("info wrong: %x", r); } }
        mc_transitions(1);
    }
    uint64_t s = (t - h) * 1000 + h; mc_state(s); mc_outcome(&s, 8); BSL_UIO_Free(u);
}
/* ---------- buffering I/O object over a transport that accepts a prescribed amount per call ---------- */
static const char *BN[] = {"w1", "w100", "w207", "w208", "w209", "w450", "flush", "busy", "acc1", "acc60", "accAll"};
static uint8_t low[65536]; static size_t nlow; static uint32_t acc;
static int32_t l_write(BSL_UIO *u, const void *p, uint32_t n, uint32_t *w) { BSL_UIO_ClearFlags(u, BSL_UIO_FLAGS_RWS | BSL_UIO_FLAGS_SHOULD_RETRY); uint32_t k = n < acc ? n : acc; if (!k) { BSL_UIO_SetFlags(u, BSL_UIO_FLAGS_WRITE | BSL_UIO_FLAGS_SHOULD_RETRY); *w = 0; return BSL_SUCCESS; } memcpy(low + nlow, p, k); nlow += k; *w = k; return BSL_SUCCESS; }
static int32_t l_ctrl(BSL_UIO *u, int32_t c, int32_t l, void *p) { (void)u; (void)c; (void)l; (void)p; return BSL_SUCCESS; }
static void buf_run(int start, const int *seq, int n)
{
    BSL_UIO_Method *m = BSL_UIO_NewMethod(); BSL_UIO_SetMethodType(m, BSL_UIO_TCP); BSL_UIO_SetMethod(m, BSL_UIO_WRITE_CB, l_write); BSL_UIO_SetMethod(m, BSL_UIO_CTRL_CB, l_ctrl); BSL_UIO *lo = BSL_UIO_New(m), *b = BSL_UIO_New(BSL_UIO_BufferMethod()); BSL_UIO_FreeMethod(m); BSL_UIO_SetInit(lo, true);
    uint32_t sz = 208; static uint8_t sent[65536], d[512]; size_t ns = 0; uint8_t ctr = 0; nlow = 0; acc = start == 0 ? 100000 : start == 1 ? 60 : 0;
    if (BSL_UIO_Ctrl(b, BSL_UIO_SET_BUFFER_SIZE, 4, &sz) || BSL_UIO_Append(b, lo)) { mc_fail("set-up"); }
    for (int k = 0; k < n + 1 && !mc_failed(); k++) {
        int o = k < n ? seq[k] : 6; if (k == n) { acc = 100000; }
        if (o < 6) {
            static const uint32_t L[] = {1, 100, 207, 208, 209, 450}; for (uint32_t i = 0; i < L[o]; i++) { d[i] = ctr++; } uint32_t w = 0; int32_t r = BSL_UIO_Write(b, d, L[o], &w);
            if (r) { mc_fail("write returned %x", r); } if (w > L[o]) { mc_fail("write of %u reports %u", L[o], w); break; }
            memcpy(sent + ns, d, w); ns += w; ctr -= (uint8_t)(L[o] - w);
            if (acc == 100000 && w != L[o]) { mc_fail("write of %u took %u although the transport accepts everything", L[o], w); }
        } else if (o == 6) { int32_t r = BSL_UIO_Ctrl(b, BSL_UIO_FLUSH, 0, NULL); if (acc >= 1 && r) { mc_fail("flush returned %x", r); } if (r == 0 && nlow != ns) { mc_fail("flush reported success with %zu of %zu bytes passed on", nlow, ns); } }
        else { acc = o == 7 ? 0 : o == 8 ? 1 : o == 9 ? 60 : 100000; }
        if (nlow > ns || memcmp(low, sent, nlow)) { mc_fail("after %s: the transport got %zu bytes that are not a prefix of the %zu accepted ones", BN[o], nlow, ns); }
        if (ns - nlow > sz) { mc_fail("more than the buffer size is outstanding"); }
        mc_transitions(1);
    }
    uint64_t s = ns * 4096 + nlow; mc_state(s); mc_outcome(&s, 8); BSL_UIO_Free(b); BSL_UIO_Free(lo);
}
/* ---------- parameter lists ---------- */
static const char *PN[] = {"u8", "u16", "u32", "i32", "bool", "oct0", "oct5", "str0", "str3", "deepoct", "deepstr", "octptr", "u32ptr", "ctxptr", "badkey", "badlen"};
static void par_run(int same, const int *seq, int n)
{
    BSL_ParamMaker *mk = BSL_PARAM_MAKER_New(); int64_t live = hx_live; struct { int key; uint32_t type, len; uint8_t v[8]; void *ptr; } ex[16]; int c = 0; uint8_t num[16][8]; uint32_t pv = 5;
    for (int k = 0; k < n && !mc_failed(); k++) {
        static const uint32_t T[] = {BSL_PARAM_TYPE_UINT8, BSL_PARAM_TYPE_UINT16, BSL_PARAM_TYPE_UINT32, BSL_PARAM_TYPE_INT32, BSL_PARAM_TYPE_BOOL, BSL_PARAM_TYPE_OCTETS, BSL_PARAM_TYPE_OCTETS, BSL_PARAM_TYPE_UTF8_STR, BSL_PARAM_TYPE_UTF8_STR, BSL_PARAM_TYPE_OCTETS, BSL_PARAM_TYPE_UTF8_STR, BSL_PARAM_TYPE_OCTETS_PTR, BSL_PARAM_TYPE_UINT32_PTR, BSL_PARAM_TYPE_CTX_PTR};
        static const uint32_t L[] = {1, 2, 4, 4, 1, 0, 5, 0, 3, 5, 3, 5, 4, 0}; int o = seq[k], key = same ? 7 + k % 2 : 7 + k; for (int i = 0; i < 8; i++) { num[k][i] = o == 4 ? 1 : 0x11 * (k + 1) + i; }
        if (o >= 14) { int32_t r = o == 14 ? BSL_PARAM_MAKER_PushValue(mk, 0, BSL_PARAM_TYPE_UINT32, num[k], 4) : BSL_PARAM_MAKER_PushValue(mk, key, BSL_PARAM_TYPE_UINT32, num[k], 3); if (r == 0) { mc_fail("bad parameter accepted"); } continue; }
        void *v = o >= 11 ? (void *)num[k] : num[k]; int32_t r = o == 9 || o == 10 ? BSL_PARAM_MAKER_DeepPushValue(mk, key, T[o], v, L[o]) : BSL_PARAM_MAKER_PushValue(mk, key, T[o], v, L[o]);
        if (r) { mc_fail("push %s returned %x", PN[o], r); break; }
        ex[c].key = key; ex[c].type = T[o]; ex[c].len = L[o]; memcpy(ex[c].v, num[k], 8); ex[c].ptr = o >= 11 ? v : NULL; c++;
        if (o < 5 || o == 9 || o == 10) { memset(num[k], 0xee, 8); }         /* numbers and deep copies do not refer to the caller's memory any more */
        mc_transitions(1);
    }
    BSL_Param *p = mc_failed() ? NULL : BSL_PARAM_MAKER_ToParam(mk); BSL_PARAM_MAKER_Free(mk); memset(num, 0xdd, sizeof num);
    if (!p && !mc_failed()) { mc_fail("conversion failed"); }
    for (int i = 0; p && i < c; i++) {
        int f = 0; while (ex[f].key != ex[i].key) { f++; } const BSL_Param *x = BSL_PARAM_FindConstParam(p, ex[i].key); if (x != &p[f] || BSL_PARAM_FindParam(p, ex[i].key) != &p[f]) { mc_fail("key %d is not found at its first position", ex[i].key); break; }
        if (p[i].key != ex[i].key || p[i].valueType != ex[i].type || (p[i].valueLen != ex[i].len)) { mc_fail("entry %d has type %u length %u", i, p[i].valueType, p[i].valueLen); break; }
        if (ex[i].ptr) { void *q = NULL; uint32_t ql = 0; if (BSL_PARAM_GetPtrValue(&p[i], ex[i].key, ex[i].type, &q, &ql) || q != ex[i].ptr) { mc_fail("pointer entry %d wrong", i); } continue; }
        if (ex[i].len && memcmp(p[i].value, ex[i].v, ex[i].len)) { mc_fail("entry %d has value %s", i, mc_hex(p[i].value, ex[i].len)); }
        if (ex[i].type == BSL_PARAM_TYPE_UTF8_STR && ((char *)p[i].value)[ex[i].len] != 0) { mc_fail("string entry %d is not terminated", i); }
        if (ex[i].type != BSL_PARAM_TYPE_UTF8_STR && ex[i].len) { uint8_t o[8]; for (uint32_t cap = 0; cap < 8; cap++) { memset(o, 0xaa, 8); uint32_t l = cap; int32_t r = BSL_PARAM_GetValue(&p[i], ex[i].key, ex[i].type, o, &l); if ((r == 0) != (cap >= ex[i].len) || (r == 0 && (l != ex[i].len || memcmp(o, ex[i].v, l) || o[l] != 0xaa))) { mc_fail("reading entry %d with capacity %u", i, cap); } } if (BSL_PARAM_GetValue(&p[i], ex[i].key + 100, ex[i].type, o, &(uint32_t){8}) == 0) { mc_fail("wrong key accepted"); } }
    }
    if (p && (p[c].key != 0 || BSL_PARAM_FindParam(p, 4242) != NULL)) { mc_fail("list is not terminated"); }
    BSL_PARAM_Free(p); if (!mc_failed() && hx_live > live) { mc_fail("blocks lost"); } (void)pv; uint64_t s = c; mc_state(s); for (int i = 0; i < n; i++) { s = s * 16 + seq[i]; } mc_outcome(&s, 8);
}
void mc_explore(void)
{
    hx_init(); BSL_ERR_Init(); int T = mc_thorough ? 1 : 0; char cn[32];
    mc_space("list"); for (int i = 0; i <= 3; i++) { sprintf(cn, "n%d", i); all_seq("list", i, cn, LN, L_N, 1, 4 + (T && i < 3 ? 1 : 0), list_run); }
    mc_space("hash"); for (int c = 0; c < 12; c++) { sprintf(cn, "cfg%d", c); all_seq("hash", c, cn, HN, 13, 1, c == 0 || T ? 5 : 4, hash_run); }
    for (int c = 0; c < 12; c++) { for (int n = 1; n <= (T ? 300 : 100); n++) { for (int o = 0; o < 16; o++) { if (mc_case("hash grow cfg%d n%d order%d", c, n, o)) { hash_grow(c, n, o / 4, o % 4); mc_trace(1); } } } }
    for (int c = 0; c < 2; c++) { sprintf(cn, "b%d", c + 1); all_seq("hash-str", c, cn, HN, 13, 1, 4, hash_str); }
    mc_space("error stack"); static const int ei[] = {0, 1, 2, 17, 18, 19, 20, 21, 39, 40}; for (unsigned i = 0; i < MC_LEN(ei); i++) { sprintf(cn, "p%d", ei[i]); all_seq("err", ei[i], cn, EN, E_N, 1, T ? 6 : 4, err_run); }
    mc_space("memory uio"); for (int r = 0; r < 2; r++) { all_seq("mem", r, r ? "ro" : "rw", MN, 13, 1, T ? 6 : 5, mem_run); }
    mc_space("buffer uio"); for (int r = 0; r < 3; r++) { sprintf(cn, "s%d", r); all_seq("buf", r, cn, BN, 11, 1, T ? 6 : 5, buf_run); }
    mc_space("params"); for (int r = 0; r < 2; r++) { all_seq("par", r, r ? "same" : "uniq", PN, 16, 1, T ? 5 : 4, par_run); }
}
