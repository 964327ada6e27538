/* stores and streams: every call of the interface as a command */
#include "drvmain.inc"
#include "store.h"
#include "index.h"
#include <sys/stat.h>
#include "internal.h"
#define N 24
static Store *S[N]; static OutStream *O[N]; static InStream *IN[N]; static int Ob[N];
static char *keep[4096]; static int nkeep;
static char *nm(int i) { char *s = ts(i, NULL); if (nkeep < 4096) keep[nkeep++] = s; return s; }
static int ep_no;
void episode_reset(void)
{
    int i;
    for (i = 0; i < N; i++) { IN[i] = NULL; O[i] = NULL; S[i] = NULL; }   /* abandoned, like the handles of an ended process */
    ep_no++;
}
static void jbytes(const uchar *b, int n) { int i; J("["); for (i = 0; i < n; i++) J("%s%d", i ? "," : "", b[i]); J("]"); }
static void groups(u64 v) { int k = 0; J("{\"v\":["); while (v) { J("%s%d", k++ ? "," : "", (int)(v & 0x7f)); v >>= 7; } J("]}"); }
static char *names[4096]; static int nn;
static void each_i(const char *f, void *a) { names[nn++] = strdup(f); }
static int mod(const char *c)
{
    int a = ntok > 1 ? (int)ti(1) : 0;
    if (!strcmp(c, "st")) {
        if (!strcmp(tok[2], "ram")) S[a] = open_ram_store();
        else { char p[400]; snprintf(p, 400, "%s/e%d-%s", getenv("FV_DIR"), ep_no, tok[3]); mkdir(p, 0700); S[a] = open_fs_store(p); }
    }
    else if (!strcmp(c, "stclose")) { store_deref(S[a]); S[a] = NULL; }
    else if (!strcmp(c, "touch")) { char *f = ts(2, NULL); S[a]->touch(S[a], f); memset(f, 'X', strlen(f)); free(f); }
    else if (!strcmp(c, "exists")) J("{\"v\":%d}", !!S[a]->exists(S[a], nm(2)));
    else if (!strcmp(c, "remove")) S[a]->remove(S[a], nm(2));
    else if (!strcmp(c, "rename")) S[a]->rename(S[a], nm(2), nm(3));
    else if (!strcmp(c, "count")) J("{\"v\":%d}", S[a]->count(S[a]));
    else if (!strcmp(c, "length")) J("{\"v\":%ld}", (long)S[a]->length(S[a], nm(2)));
    else if (!strcmp(c, "each")) { int i; nn = 0; S[a]->each(S[a], each_i, NULL); J("{\"v\":["); for (i = 0; i < nn; i++) { J(i ? "," : ""); Jtxt(names[i]); free(names[i]); } J("]}"); }
    else if (!strcmp(c, "tos")) { char *s = store_to_s(S[a]), *p; int k = 0; J("{\"v\":["); for (p = strtok(s, "\n"); p; p = strtok(NULL, "\n")) { J(k++ ? "," : ""); Jtxt(p); } J("]}"); free(s); }
    else if (!strcmp(c, "clear")) S[a]->clear(S[a]);
    else if (!strcmp(c, "clearall")) S[a]->clear_all(S[a]);
    else if (!strcmp(c, "clearlocks")) S[a]->clear_locks(S[a]);
    else if (!strcmp(c, "copy")) S[a] = open_ram_store_and_copy(S[ti(2)], false);
    else if (!strcmp(c, "cw")) {           /* cw store name file... : pack files into a compound file */
        int i; CompoundWriter *cw = open_cw(S[a], nm(2));
        for (i = 3; i < ntok; i++) cw_add_file(cw, nm(i));
        cw_close(cw);
    }
    else if (!strcmp(c, "cmpd")) S[a] = open_cmpd_store(S[ti(2)], nm(3));
    /* output */
    else if (!strcmp(c, "out")) { O[a] = S[ti(2)]->new_output(S[ti(2)], nm(3)); Ob[a] = 0; }
    else if (!strcmp(c, "buf")) { O[a] = ram_new_buffer(); Ob[a] = 1; }
    else if (!strcmp(c, "w")) {
        OutStream *o = O[a]; const char *k = tok[2]; int n; char *b;
        if (!strcmp(k, "b")) { b = ts(3, &n); os_write_byte(o, (uchar)b[0]); free(b); }
        else if (!strcmp(k, "bs")) { b = ts(3, &n); os_write_bytes(o, (uchar *)b, n); free(b); }
        else if (!strcmp(k, "i32")) os_write_i32(o, (i32)strtol(tok[3], NULL, 10));
        else if (!strcmp(k, "u32")) os_write_u32(o, (u32)strtoul(tok[3], NULL, 10));
        else if (!strcmp(k, "i64")) os_write_i64(o, (i64)strtoll(tok[3], NULL, 10));
        else if (!strcmp(k, "u64")) os_write_u64(o, (u64)strtoull(tok[3], NULL, 10));
        else if (!strcmp(k, "vint")) os_write_vint(o, (unsigned int)strtoul(tok[3], NULL, 10));
        else if (!strcmp(k, "voff")) os_write_voff_t(o, (off_t)strtoll(tok[3], NULL, 10));
        else if (!strcmp(k, "vll")) os_write_vll(o, (u64)strtoull(tok[3], NULL, 10));
        else if (!strcmp(k, "str")) { b = ts(3, &n); os_write_string(o, b); free(b); }
        else return 0;
    }
    else if (!strcmp(c, "oseek")) os_seek(O[a], ti(2));
    else if (!strcmp(c, "opos")) J("{\"v\":%ld}", (long)os_pos(O[a]));
    else if (!strcmp(c, "oflush")) os_flush(O[a]);
    else if (!strcmp(c, "oclose")) { if (Ob[a]) ram_destroy_buffer(O[a]); else os_close(O[a]); O[a] = NULL; }
    else if (!strcmp(c, "olen")) J("{\"v\":%ld}", (long)ramo_length(O[a]));
    else if (!strcmp(c, "reset")) ramo_reset(O[a]);
    else if (!strcmp(c, "to")) ramo_write_to(O[a], O[ti(2)]);
    /* input */
    else if (!strcmp(c, "in")) IN[a] = S[ti(2)]->open_input(S[ti(2)], nm(3));
    else if (!strcmp(c, "clone")) IN[a] = is_clone(IN[ti(2)]);
    else if (!strcmp(c, "iclose")) { is_close(IN[a]); IN[a] = NULL; }
    else if (!strcmp(c, "iseek")) is_seek(IN[a], ti(2));
    else if (!strcmp(c, "ipos")) J("{\"v\":%ld}", (long)is_pos(IN[a]));
    else if (!strcmp(c, "ilen")) J("{\"v\":%ld}", (long)is_length(IN[a]));
    else if (!strcmp(c, "r")) {
        InStream *s = IN[a]; const char *k = tok[2]; uchar b[8]; int i;
        if (!strcmp(k, "b")) { int n = ti(3); uchar *x = malloc(n + 1); for (i = 0; i < n; i++) x[i] = is_read_byte(s); J("{\"v\":"); jbytes(x, n); J("}"); free(x); }
        else if (!strcmp(k, "bs")) { int n = ti(3); uchar *x = malloc(n + 1); is_read_bytes(s, x, n); J("{\"v\":"); jbytes(x, n); J("}"); free(x); }
        else if (!strcmp(k, "i32")) { i32 v = is_read_i32(s); for (i = 0; i < 4; i++) b[i] = (uchar)((u32)v >> (24 - 8 * i)); J("{\"v\":"); jbytes(b, 4); J("}"); }
        else if (!strcmp(k, "u32")) { u32 v = is_read_u32(s); for (i = 0; i < 4; i++) b[i] = (uchar)(v >> (24 - 8 * i)); J("{\"v\":"); jbytes(b, 4); J("}"); }
        else if (!strcmp(k, "i64")) { i64 v = is_read_i64(s); for (i = 0; i < 8; i++) b[i] = (uchar)((u64)v >> (56 - 8 * i)); J("{\"v\":"); jbytes(b, 8); J("}"); }
        else if (!strcmp(k, "u64")) { u64 v = is_read_u64(s); for (i = 0; i < 8; i++) b[i] = (uchar)(v >> (56 - 8 * i)); J("{\"v\":"); jbytes(b, 8); J("}"); }
        else if (!strcmp(k, "vint")) groups(is_read_vint(s));
        else if (!strcmp(k, "voff")) groups((u64)is_read_voff_t(s));
        else if (!strcmp(k, "vll")) groups(is_read_vll(s));
        else if (!strcmp(k, "str")) { char *x = is_read_string(s); J("{\"v\":"); jbytes((uchar *)x, strlen(x)); J("}"); free(x); }
        else if (!strcmp(k, "strs")) { char *x = is_read_string_safe(s); J("{\"v\":"); jbytes((uchar *)x, strlen(x)); J("}"); free(x); }
        else return 0;
    }
    else if (!strcmp(c, "skipv")) is_skip_vints(IN[a], ti(2));
    else if (!strcmp(c, "cpb")) is2os_copy_bytes(IN[a], O[ti(2)], ti(3));
    else if (!strcmp(c, "cpv")) is2os_copy_vints(IN[a], O[ti(2)], ti(3));
    else return 0;
    return 1;
}
mod_fn modules[] = { mod, NULL };
