/* hash tables, hash sets, priority queues, arrays: every call as a command; what was freed is reported */
#include "drvmain.inc"
#include "hash.h"
#include "hashset.h"
#include "priorityqueue.h"
#include "array.h"
#include "internal.h"
#define N 8
static Hash *H[N]; static int HK[N];           /* kind: 0 str, 1 int, 2 all colliding */
static HashSet *HS[N]; static int SK[N];
static PriorityQueue *PQ[N]; static void **A[N];
static long fv[200000]; static int nfv; static char *fk[200000]; static int nfk;
typedef struct V { long id, key; } V;
static V *val(long id, long key) { V *v = malloc(sizeof(V)); v->id = id; v->key = key; return v; }
static void freev(void *p) { V *v = p; if (!v) { fv[nfv++] = -1; return; } fv[nfv++] = v->id; v->id = -99; free(v); }
static void freek(void *p) { fk[nfk++] = strdup(p); memset(p, '?', strlen(p)); free(p); }
static void *dupk(void *p) { return strdup(p); }
static void *dupv(void *p) { V *v = p; return val(v->id, v->key); }
static int lt(const void *a, const void *b) { return ((V *)a)->key < ((V *)b)->key; }
static unsigned long h1(const void *k) { return 5; }
static unsigned long h2(const void *k) { return strlen(k) * 64; }
static int seq(const void *a, const void *b) { return !strcmp(a, b); }
static void freed(void)
{
    int i; J(",\"f\":["); for (i = 0; i < nfv; i++) J("%s%ld", i ? "," : "", fv[i]);
    J("],\"fk\":["); for (i = 0; i < nfk; i++) { J(i ? "," : ""); Jstr(fk[i], strlen(fk[i])); free(fk[i]); }
    J("]}"); nfv = nfk = 0;
}
void episode_reset(void) { int i; for (i = 0; i < N; i++) { H[i] = NULL; HS[i] = NULL; PQ[i] = NULL; A[i] = NULL; } nfv = nfk = 0; }
static int cnt;
static void each_i(void *k, void *v, void *a) { J(cnt++ ? ",[" : "["); if (a) Jstr(k, strlen(k)); else J("\"\""); J(",%ld]", v ? ((V *)v)->id : -1); }
static const char *lit = "";                   /* a caller's own empty string */
static void *key(int i) { char *s = ts(i, NULL); if (!*s) { free(s); return strdup(lit); } return s; }
static int mod(const char *c)
{
    int a = ntok > 1 ? (int)ti(1) : 0; void *p; V *v;
    /* hash tables */
    if (!strcmp(c, "hnew")) { int k = HK[a] = ti(2); H[a] = k == 0 ? h_new_str(freek, freev) : k == 1 ? h_new_int(freev) : h_new(k == 2 ? h1 : h2, seq, freek, freev); J("{\"v\":0"); }
    else if (!strcmp(c, "hset")) J("{\"v\":%d", HK[a] == 1 ? h_set_int(H[a], strtoul(tok[2], NULL, 10), val(ti(3), 0)) : h_set(H[a], key(2), val(ti(3), 0)));
    else if (!strcmp(c, "hsame")) {     /* the value a key has, stored again */
        char *q = HK[a] == 1 ? NULL : key(2); v = HK[a] == 1 ? h_get_int(H[a], strtoul(tok[2], NULL, 10)) : h_get(H[a], q);
        if (!v) { free(q); J("{\"v\":-1"); } else J("{\"v\":%d", HK[a] == 1 ? h_set_int(H[a], strtoul(tok[2], NULL, 10), v) : h_set(H[a], q, v));
    }
    else if (!strcmp(c, "hsets")) {
        int r; v = val(ti(3), 0);
        if (HK[a] == 1) r = h_set_safe_int(H[a], strtoul(tok[2], NULL, 10), v); else { p = key(2); r = h_set_safe(H[a], p, v); if (!r) free(p); }
        if (!r) free(v);
        J("{\"v\":%d", !!r);
    }
    else if (!strcmp(c, "hget")) { v = HK[a] == 1 ? h_get_int(H[a], strtoul(tok[2], NULL, 10)) : h_get(H[a], p = key(2)); J("{\"v\":%ld", v ? v->id : -1); }
    else if (!strcmp(c, "hhas")) J("{\"v\":%d", !!(HK[a] == 1 ? h_has_key_int(H[a], strtoul(tok[2], NULL, 10)) : h_has_key(H[a], key(2))));
    else if (!strcmp(c, "hdel")) J("{\"v\":%d", !!(HK[a] == 1 ? h_del_int(H[a], strtoul(tok[2], NULL, 10)) : h_del(H[a], key(2))));
    else if (!strcmp(c, "hrem")) { v = HK[a] == 1 ? h_rem_int(H[a], strtoul(tok[2], NULL, 10)) : h_rem(H[a], key(2), true); J("{\"v\":%ld", v ? v->id : -1); }
    else if (!strcmp(c, "hclear")) { h_clear(H[a]); J("{\"v\":0"); }
    else if (!strcmp(c, "hdestroy")) { h_destroy(H[a]); H[a] = NULL; J("{\"v\":0"); }
    else if (!strcmp(c, "hclone")) { int s = ti(2); HK[a] = HK[s]; H[a] = h_clone(H[s], HK[s] == 1 ? NULL : dupk, dupv); J("{\"v\":0"); }
    else if (!strcmp(c, "heach")) { cnt = 0; J("{\"size\":%d,\"v\":[", H[a]->size); h_each(H[a], each_i, HK[a] == 1 ? NULL : (void *)1); J("]"); }
    /* hash sets of strings */
    else if (!strcmp(c, "snew")) { int k = SK[a] = ti(2); HS[a] = k == 0 ? hs_new_str(freek) : hs_new(k == 2 ? h1 : h2, seq, freek); J("{\"v\":0"); }
    else if (!strcmp(c, "sadd")) J("{\"v\":%d", hs_add(HS[a], key(2)));
    else if (!strcmp(c, "sadds")) { int r; p = key(2); r = hs_add_safe(HS[a], p); if (!r) free(p); J("{\"v\":%d", !!r); }
    else if (!strcmp(c, "saddsame")) { p = hs_orig(HS[a], key(2)); J("{\"v\":%d", p ? hs_add(HS[a], p) : 2); }
    else if (!strcmp(c, "sdel")) J("{\"v\":%d", !!hs_del(HS[a], key(2)));
    else if (!strcmp(c, "srem")) { p = hs_rem(HS[a], key(2)); J("{\"v\":%d", !!p); }
    else if (!strcmp(c, "shas")) J("{\"v\":%d", !!hs_exists(HS[a], key(2)));
    else if (!strcmp(c, "sorig")) { p = hs_orig(HS[a], key(2)); J("{\"v\":"); Jstr(p ? p : "!", p ? strlen(p) : 1); }
    else if (!strcmp(c, "smerge")) { int b = ti(2); hs_merge(HS[a], HS[b]); HS[b] = NULL; J("{\"v\":0"); }
    else if (!strcmp(c, "sclear")) { hs_clear(HS[a]); J("{\"v\":0"); }
    else if (!strcmp(c, "sdestroy")) { hs_destroy(HS[a]); HS[a] = NULL; J("{\"v\":0"); }
    else if (!strcmp(c, "sdump")) {
        HashSetEntry *e; int n = 0; J("{\"size\":%d,\"v\":[", HS[a]->size);
        for (e = HS[a]->first; e && n < 3000; e = e->next) { J(n++ ? "," : ""); Jstr(e->elem, strlen(e->elem)); }
        J("],\"rev\":["); n = 0;
        for (e = HS[a]->last; e && n < 3000; e = e->prev) { J(n++ ? "," : ""); Jstr(e->elem, strlen(e->elem)); }
        J("]");
    }
    /* priority queues */
    else if (!strcmp(c, "pnew")) { PQ[a] = pq_new(ti(2), lt, freev); J("{\"v\":0"); }
    else if (!strcmp(c, "pins")) J("{\"v\":%d", pq_insert(PQ[a], val(ti(2), ti(3))));
    else if (!strcmp(c, "ppush")) { pq_push(PQ[a], val(ti(2), ti(3))); J("{\"v\":0"); }
    else if (!strcmp(c, "ppop")) { v = pq_pop(PQ[a]); J("{\"v\":%ld", v ? v->id : -1); free(v); }
    else if (!strcmp(c, "ptop")) { v = pq_top(PQ[a]); J("{\"v\":%ld", v ? v->id : -1); }
    else if (!strcmp(c, "pdown")) { v = pq_top(PQ[a]); if (v) { v->key = ti(2); pq_down(PQ[a]); } J("{\"v\":%ld", v ? v->id : -1); }
    else if (!strcmp(c, "pclear")) { pq_clear(PQ[a]); J("{\"v\":0"); }
    else if (!strcmp(c, "pclone")) { int i, b = ti(2); PQ[a] = pq_clone(PQ[b]); for (i = 1; i <= PQ[a]->size; i++) PQ[a]->heap[i] = dupv(PQ[a]->heap[i]); J("{\"v\":0"); }
    else if (!strcmp(c, "psize")) J("{\"v\":%d,\"full\":%d", PQ[a]->size, !!pq_full(PQ[a]));
    else if (!strcmp(c, "pdestroy")) { pq_destroy(PQ[a]); PQ[a] = NULL; J("{\"v\":0"); }
    /* arrays */
    else if (!strcmp(c, "anew")) { A[a] = ti(2) ? ary_new_capa(ti(2)) : ary_new(); J("{\"v\":0"); }
    else if (!strcmp(c, "apush")) { ary_push(A[a], val(ti(2), 0)); J("{\"v\":0"); }
    else if (!strcmp(c, "aunshift")) { ary_unshift(A[a], val(ti(2), 0)); J("{\"v\":0"); }
    else if (!strcmp(c, "apop")) { v = ary_pop(A[a]); J("{\"v\":%ld", v ? v->id : -1); }
    else if (!strcmp(c, "ashift")) { v = ary_shift(A[a]); J("{\"v\":%ld", v ? v->id : -1); }
    else if (!strcmp(c, "aset")) { ary_set(A[a], ti(2), val(ti(3), 0)); J("{\"v\":0"); }
    else if (!strcmp(c, "aget")) { v = ary_get(A[a], ti(2)); J("{\"v\":%ld", v ? v->id : -1); }
    else if (!strcmp(c, "aremove")) { v = ary_remove(A[a], ti(2)); J("{\"v\":%ld", v ? v->id : -1); }
    else if (!strcmp(c, "adelete")) { ary_delete(A[a], ti(2), freev); J("{\"v\":0"); }
    else if (!strcmp(c, "aresize")) { ary_resize(A[a], ti(2)); J("{\"v\":0"); }
    else if (!strcmp(c, "agrow")) { ary_grow(A[a]); J("{\"v\":0"); }
    else if (!strcmp(c, "adump")) { int i; J("{\"size\":%d,\"v\":[", ary_size(A[a])); for (i = 0; i < ary_size(A[a]); i++) { v = A[a][i]; J("%s%ld", i ? "," : "", v ? v->id : -1); } J("]"); }
    else if (!strcmp(c, "adestroy")) { ary_destroy(A[a], freev); A[a] = NULL; J("{\"v\":0"); }
    else return 0;
    freed();
    return 1;
}
mod_fn modules[] = { mod, NULL };
