/* analysis: token streams, analyzers, mappers */
#include "drvmain.inc"
#include <locale.h>
#include "analysis.h"
#include "multimapper.h"
#include "symbol.h"
#include "libstemmer.h"
#include "internal.h"
#define N 8
static TokenStream *T[N]; static char *TX[N]; static Analyzer *AN[N]; static MultiMapper *M[N];
static char *AC[N][16]; static int AL[N];      /* how analyzers were made: for the stem table */
static char *TC[N][16]; static int TL[N];
static int PD[N], PN[N], PA[N][9]; static char *PF[N][9];
void episode_reset(void)
{
    int i; setlocale(LC_CTYPE, "C.UTF-8");
    for (i = 0; i < N; i++) { T[i] = NULL; TX[i] = NULL; AN[i] = NULL; M[i] = NULL; AL[i] = TL[i] = 0; }
}
static char *unhex(const char *h, int n) { char *r = malloc(n / 2 + 1); int i; for (i = 0; i + 1 < n; i += 2) { unsigned x; sscanf(h + i, "%2x", &x); r[i / 2] = x; } r[n / 2] = 0; return r; }
static int words(const char *s, char **w)      /* comma separated hex */
{ int n = 0; while (*s) { int l = strcspn(s, ","); w[n++] = unhex(s, l); s += l; if (*s) s++; } w[n] = NULL; return n; }
static TokenStream *elem(TokenStream *s, char *e)
{
    char *w[300]; int n;
    if (!strcmp(e, "non")) return non_tokenizer_new();
    if (!strcmp(e, "ws")) return whitespace_tokenizer_new();
    if (!strcmp(e, "mbws")) return mb_whitespace_tokenizer_new(false);
    if (!strcmp(e, "mbwslc")) return mb_whitespace_tokenizer_new(true);
    if (!strcmp(e, "lt")) return letter_tokenizer_new();
    if (!strcmp(e, "mblt")) return mb_letter_tokenizer_new(false);
    if (!strcmp(e, "mbltlc")) return mb_letter_tokenizer_new(true);
    if (!strcmp(e, "std")) return standard_tokenizer_new();
    if (!strcmp(e, "mbstd")) return mb_standard_tokenizer_new();
    if (!strcmp(e, "ustd")) return utf8_standard_tokenizer_new();
    if (!strcmp(e, "leg")) return legacy_standard_tokenizer_new();
    if (!strcmp(e, "mbleg")) return mb_legacy_standard_tokenizer_new();
    if (!strcmp(e, "lc")) return lowercase_filter_new(s);
    if (!strcmp(e, "mblc")) return mb_lowercase_filter_new(s);
    if (!strcmp(e, "hyphen")) return hyphen_filter_new(s);
    if (!strncmp(e, "stop:", 5)) { n = words(e + 5, w); return stop_filter_new_with_words_len(s, (const char **)w, n); }
    if (!strncmp(e, "stopz:", 6)) { words(e + 6, w); return stop_filter_new_with_words(s, (const char **)w); }
    if (!strncmp(e, "stem:", 5)) { char a[99], *c; strcpy(a, e + 5); c = strchr(a, ':'); *c++ = 0; return stem_filter_new(s, a, c); }
    if (!strncmp(e, "map:", 4)) { int i; n = words(e + 4, w); s = mapping_filter_new(s); for (i = 0; i + 1 < n; i += 2) mapping_filter_add(s, w[i], w[i + 1]); return s; }
    bad("elem"); return NULL;
}
static TokenStream *chain(char **e, int n) { TokenStream *s = NULL; int i; for (i = 0; i < n; i++) s = elem(s, e[i]); return s; }
static void Jb(const char *s, int n) { int i; J("["); for (i = 0; i < n; i++) J("%s%d", i ? "," : "", (unsigned char)s[i]); J("]"); }
static void Jtk(Token *t) { J("["); Jb(t->text, strlen(t->text)); J(",%ld,%ld,%d,%d]", (long)t->start, (long)t->end, t->pos_inc, t->len); }
/* what the stemmer itself makes of the words that reach the stem filter */
static void stems(char **e, int n, char *text)
{
    int i, k = -1, c = 0; char a[99], *p; for (i = 0; i < n; i++) if (!strncmp(e[i], "stem:", 5)) k = i;
    J("{\"st\":[");
    if (k >= 0) {
        TokenStream *s = chain(e, k); Token *t; struct sb_stemmer *st; strcpy(a, e[k] + 5); p = strchr(a, ':'); *p++ = 0;
        s->reset(s, text); st = sb_stemmer_new(a, p);
        while ((t = s->next(s))) { const char *w = (char *)sb_stemmer_stem(st, (sb_symbol *)t->text, strlen(t->text)); J(c++ ? ",[" : "["); Jb(t->text, strlen(t->text)); J(","); Jb(w, sb_stemmer_length(st)); J("]"); }
        sb_stemmer_delete(st); ts_deref(s);
    }
    J("]}");
}
static void settext(int k, int i) { int l; char *s = ts(i, &l); char *r = malloc(l + 1); memcpy(r, s, l); r[l] = 0; TX[k] = r; free(s); }
static int mod(const char *c)
{
    int k = ntok > 1 ? (int)ti(1) : 0, i, n; char *s;
    if (!strcmp(c, "ts")) { n = ti(2); for (i = 0; i < n; i++) TC[k][i] = strdup(tok[3 + i]); TL[k] = n; T[k] = chain(TC[k], n); J("{}"); }
    else if (!strcmp(c, "reset")) { settext(k, 2); T[k]->reset(T[k], TX[k]); stems(TC[k], TL[k], TX[k]); }
    else if (!strcmp(c, "next")) {
        Token *t = NULL; J("{\"t\":["); n = ti(2);
        for (i = 0; i < n && (t = T[k]->next(T[k])); i++) { if (i) J(","); Jtk(t); }
        J("],\"end\":%d}", i < n);
    }
    else if (!strcmp(c, "tsfree")) { ts_deref(T[k]); T[k] = NULL; J("{}"); }
    else if (!strcmp(c, "an")) { n = ti(2); for (i = 0; i < n; i++) AC[k][i] = strdup(tok[3 + i]); AL[k] = n; AN[k] = analyzer_new(chain(AC[k], n), NULL, NULL); J("{}"); }
    else if (!strcmp(c, "pa")) {               /* ready-made analyzers: pa a kind lower words(hex,comma | none) */
        char *w[300]; int lc = ti(3); const char **sw; AL[k] = 0; s = tok[2]; n = -1; if (strcmp(tok[4], "~")) n = words(strcmp(tok[4], "-") ? tok[4] : "", w); sw = (const char **)w;
#define K(name) if (!strcmp(s, #name)) AN[k] = n < 0 ? name##_analyzer_new(lc) : ntok > 5 ? name##_analyzer_new_with_words(sw, lc) : name##_analyzer_new_with_words_len(sw, n, lc);
        K(standard) K(mb_standard) K(utf8_standard) K(legacy_standard) K(mb_legacy_standard)
        if (!strcmp(s, "ws")) AN[k] = whitespace_analyzer_new(lc);
        if (!strcmp(s, "mbws")) AN[k] = mb_whitespace_analyzer_new(lc);
        if (!strcmp(s, "lt")) AN[k] = letter_analyzer_new(lc);
        if (!strcmp(s, "mblt")) AN[k] = mb_letter_analyzer_new(lc);
        if (!strcmp(s, "non")) AN[k] = non_analyzer_new();
        J("{\"w\":["); if (n < 0) for (i = 0; FULL_ENGLISH_STOP_WORDS[i]; i++) { if (i) J(","); Jb(FULL_ENGLISH_STOP_WORDS[i], strlen(FULL_ENGLISH_STOP_WORDS[i])); } J("]}");
    }
    else if (!strcmp(c, "pfa")) {
        AN[k] = per_field_analyzer_new(AN[ti(2)]); REF(AN[ti(2)]); n = PN[k] = ti(3); PD[k] = ti(2); AL[k] = -1;
        for (i = 0; i < n; i++) { PF[k][i] = ts(4 + 2 * i, NULL); PA[k][i] = ti(5 + 2 * i); REF(AN[ti(5 + 2 * i)]); pfa_add_field(AN[k], intern(ts(4 + 2 * i, NULL)), AN[ti(5 + 2 * i)]); }
        J("{}");
    }
    else if (!strcmp(c, "afree")) { a_deref(AN[k]); AN[k] = NULL; J("{}"); }
    else if (!strcmp(c, "get")) { int a = ti(2); settext(k, 4); T[k] = a_get_ts(AN[a], intern(ts(3, NULL)), TX[k]); if (AL[a] < 0) { int p = a; s = ts(3, NULL); a = PD[p]; for (i = 0; i < PN[p]; i++) if (!strcmp(PF[p][i], s)) a = PA[p][i]; } TL[k] = AL[a]; memcpy(TC[k], AC[a], sizeof(TC[k])); stems(TC[k], TL[k], TX[k]); }
    else if (!strcmp(c, "mm")) { M[k] = mulmap_new(); J("{}"); }
    else if (!strcmp(c, "mmadd")) { mulmap_add_mapping(M[k], ts(2, NULL), ts(3, NULL)); J("{}"); }
    else if (!strcmp(c, "mmmap")) { int cap = ti(2), l; char *to = malloc(cap); l = mulmap_map_len(M[k], to, ts(3, NULL), cap); J("{\"v\":"); Jb(to, strlen(to)); J(",\"len\":%d}", l); }
    else if (!strcmp(c, "mmdyn")) { s = mulmap_dynamic_map(M[k], ts(2, NULL)); J("{\"v\":"); Jb(s, strlen(s)); J(",\"len\":%d}", (int)strlen(s)); free(s); }
    else if (!strcmp(c, "mmfree")) { mulmap_destroy(M[k]); M[k] = NULL; J("{}"); }
    else return 0;
    return 1;
}
mod_fn modules[] = { mod, NULL };
