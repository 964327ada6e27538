/* main loop shared by the drivers: reads "#ep n" / commands, replies one JSON line each */
#include "drv.h"
#define MAXTOK 200000
char *tok[MAXTOK]; int ntok;
static char *jb; static size_t jlen, jc;
static int is_bad;
void J(const char *fmt, ...)
{
    va_list a; int n;
    for (;;) {
        va_start(a, fmt); n = vsnprintf(jb + jlen, jc - jlen, fmt, a); va_end(a);
        if (jlen + n + 1 < jc) { jlen += n; return; }
        jc = (jc + n + 16) * 2; jb = (char *)realloc(jb, jc);
    }
}
void Jstr(const char *s, int len)
{
    int i; J("\"");
    for (i = 0; i < len; i++) J("%02x", (unsigned char)s[i]);
    J("\"");
}
void Jtxt(const char *s)
{
    J("\"");
    for (; *s; s++) { unsigned char c = *s; if (c < 32 || c > 126 || c == '"' || c == '\\') J("?"); else J("%c", c); }
    J("\"");
}
void bad(const char *why) { is_bad = 1; jlen = 0; J("{\"bad_command\":"); Jtxt(why); J("}"); }
long ti(int i) { if (i >= ntok) { fprintf(stderr, "missing token\n"); exit(99); } return strtol(tok[i], NULL, 10); }
static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
char *ts(int i, int *len)
{
    char *t, *b; int n, k;
    if (i >= ntok) { fprintf(stderr, "missing token\n"); exit(99); }
    t = tok[i];
    if (t[0] == '-' && !t[1]) n = 0; else n = strlen(t) / 2;
    b = (char *)malloc(n + 1);
    for (k = 0; k < n; k++) b[k] = (char)(hv(t[2 * k]) * 16 + hv(t[2 * k + 1]));
    b[n] = 0; if (len) *len = n;
    return b;
}
extern mod_fn modules[];
extern void episode_reset(void);
int main(int argc, char **argv)
{
    static char *line; size_t cap = 0; ssize_t n; char *p; int i;
    FILE *out = stdout;
    {   /* keep the default (or sanitizer's) crash handlers */
        static const int sg[] = { SIGILL, SIGABRT, SIGFPE, SIGBUS, SIGSEGV }; struct sigaction o[5];
        for (i = 0; i < 5; i++) sigaction(sg[i], NULL, &o[i]);
        frt_init(argc, (const char *const *)argv);
        for (i = 0; i < 5; i++) sigaction(sg[i], &o[i], NULL);
    }
    jc = 1 << 20; jb = (char *)malloc(jc);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        while (n && (line[n-1] == '\n' || line[n-1] == '\r')) line[--n] = 0;
        if (!n) continue;
        if (!strncmp(line, "#ep ", 4)) { episode_reset(); fprintf(out, "%s\n", line); fflush(out); continue; }
        if (!strcmp(line, "#end")) { episode_reset(); break; }
        ntok = 0;
        for (p = strtok(line, " "); p && ntok < MAXTOK; p = strtok(NULL, " ")) tok[ntok++] = p;
        jlen = 0; jb[0] = 0; is_bad = 0; alarm(10);
        FRT_TRY
            for (i = 0; modules[i]; i++) if (modules[i](tok[0])) break;
            if (!modules[i]) bad("unknown command");
        FRT_XCATCHALL
            FRT_HANDLED();
            jlen = 0; J("{\"err\":\"%d\",\"msg\":", xcontext.excode);
            { const char *m = xcontext.msg ? strrchr(xcontext.msg, '\t') : NULL; Jtxt(m ? m + 1 : (xcontext.msg ? xcontext.msg : "")); }
            J("}");
        FRT_XENDTRY
        if (!jlen) J("{}");
        fputs(jb, out); fputc('\n', out); fflush(out);
    }
    fputs("#end\n", out); fflush(out);
    return 0;
}
