#include "drvmain.inc"
#include "bitvector.h"
#include "internal.h"
#define NR 8
static BitVector *R[NR];
static void put(int k, BitVector *b) { if (R[k] && R[k] != b) bv_destroy(R[k]); R[k] = b; }
void episode_reset(void) { int i; for (i = 0; i < NR; i++) { put(i, NULL); R[i] = bv_new(); } }
static int bvmod(const char *c)
{
    int a = ntok > 1 ? (int)ti(1) : 0;
    if (!strcmp(c, "new")) put(a, ti(2) ? bv_new_capa(ti(2)) : bv_new());
    else if (!strcmp(c, "set")) bv_set(R[a], ti(2));
    else if (!strcmp(c, "unset")) bv_unset(R[a], ti(2));
    else if (!strcmp(c, "fast")) { int i; put(a, bv_new_capa(ti(2))); for (i = 3; i < ntok; i++) bv_set_fast(R[a], ti(i)); }
    else if (!strcmp(c, "clear")) bv_clear(R[a]);
    else if (!strcmp(c, "bin")) { /* bin op d a b : in place when d = a */
        int x = ti(3), y = ti(4), d = ti(2); BitVector *r = NULL;
        if (!strcmp(tok[1], "and")) r = d == x ? bv_and_x(R[x], R[y]) : bv_and(R[x], R[y]);
        else if (!strcmp(tok[1], "or")) r = d == x ? bv_or_x(R[x], R[y]) : bv_or(R[x], R[y]);
        else r = d == x ? bv_xor_x(R[x], R[y]) : bv_xor(R[x], R[y]);
        put(d, r);
    }
    else if (!strcmp(c, "not")) { int x = ti(2); put(a, a == x ? bv_not_x(R[x]) : bv_not(R[x])); }
    else if (!strcmp(c, "recount")) J("{\"v\":%d}", bv_recount(R[a]));
    else if (!strcmp(c, "next")) J("{\"v\":%d}", bv_scan_next_from(R[a], ti(2)));
    else if (!strcmp(c, "nextunset")) J("{\"v\":%d}", bv_scan_next_unset_from(R[a], ti(2)));
    else if (!strcmp(c, "eq")) J("{\"eq\":%d,\"ha\":\"%lx\",\"hb\":\"%lx\"}", !!bv_eq(R[a], R[ti(2)]), bv_hash(R[a]), bv_hash(R[ti(2)]));
    else if (!strcmp(c, "dump")) {
        int i, v, n; BitVector *b = R[a];
        J("{\"count\":%d,\"pos\":[", b->count);
        for (i = 2; i < ntok; i++) J("%s%ld", i > 2 ? "," : "", ti(i));
        J("],\"get\":[");
        for (i = 2; i < ntok; i++) J("%s%d", i > 2 ? "," : "", !!bv_get(b, ti(i)));
        J("],\"scan\":[");
        bv_scan_reset(b);
        for (n = 0; n < 4000 && (v = bv_scan_next(b)) >= 0; n++) J("%s%d", n ? "," : "", v);
        J("],\"unscan\":[");
        bv_scan_reset(b);
        for (n = 0; n < 4000 && (v = bv_scan_next_unset(b)) >= 0; n++) J("%s%d", n ? "," : "", v);
        J("]}");
    }
    else return 0;
    return 1;
}
mod_fn modules[] = { bvmod, NULL };
