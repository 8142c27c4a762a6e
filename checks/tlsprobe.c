#include "tlsx.h"
#include <time.h>
static void rec(Ep *f, Ep *t, int idx, Buf *r, void *a) { if (mc_replaying) { printf("  %s #%d %zu bytes: %s\n", f->name, idx, r->n, mc_hex(r->p, r->n < 24 ? r->n : 24)); } tx_deliver(t, r->p, r->n); }
void mc_explore(void)
{
    tx_init();
    int vers[] = {V12, V13, VTLCP, VD12, VD13, VDTLCP};
    for (int i = 0; i < 6; i++) for (int ca = 0; ca < 2; ca++) for (int k = 0; k < 2; k++) {
        if (!mc_case("v%x ca%d k%d", vers[i], ca, k)) { continue; }
        struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
        TxOpt o = {.ver = vers[i], .kind = k ? PK_RSA2048 : PK_EC256, .clientAuth = ca, .ticket = 1};
        int n = mc_replaying ? 1 : 50;
        for (int q = 0; q < n; q++) {
        HITLS_Config *cc = tx_cfg(&o, true), *sc = tx_cfg(&o, false);
        if (!cc || !sc) { mc_fail("cfg"); break; }
        TxLink l = {.c = tx_ep(cc, true, tx_is_dgram(vers[i])), .s = tx_ep(sc, false, tx_is_dgram(vers[i])), .mitm = rec};
        tx_handshake(&l);
        uint8_t e1[32], e2[32]; bool x1 = tx_export(l.c, e1), x2 = tx_export(l.s, e2);
        if (!tx_both(&l)) { mc_fail("handshake c %x s %x", l.c->ret, l.s->ret); }
        else if (memcmp(e1, e2, 32)) { mc_fail("export %d %d", x1, x2); }
        if (tx_both(&l)) { int32_t w = tx_write(l.c, "hello", 5); tx_move(&l, l.c); int32_t rr = tx_drain(l.s); int32_t w2 = tx_write(l.s, "world", 5); tx_move(&l, l.s); int32_t r2 = tx_drain(l.c);
          if (l.s->app.n != 5 || l.c->app.n != 5) { mc_fail("app %x %x %x %x", w, rr, w2, r2); } }
        tx_ep_free(l.c); tx_ep_free(l.s); HITLS_CFG_FreeConfig(cc); HITLS_CFG_FreeConfig(sc);
        }
        clock_gettime(CLOCK_MONOTONIC, &b); fprintf(stderr, "v%x ca%d k%d: %.3f ms\n", vers[i], ca, k, ((b.tv_sec - a.tv_sec) * 1e3 + (b.tv_nsec - a.tv_nsec) / 1e6) / n);
    }
}
