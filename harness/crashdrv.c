/* The index driver with the file system under control: every call of the library that changes a
 * file of the tracked directory is a point at which the process may stop (cr), the call may fail
 * (fl), or a reader elsewhere may look (jstart, race).  Linked with --wrap for the calls below. */
#define _GNU_SOURCE
#define NO_MODULES
#include "idxdrv.c"
#include <fcntl.h>
#include <errno.h>
#include <sys/wait.h>
int __real_open64(const char *, int, ...); int __real_open(const char *, int, ...);
int __real_creat64(const char *, mode_t); int __real_creat(const char *, mode_t);
ssize_t __real_write(int, const void *, size_t); ssize_t __real_read(int, void *, size_t);
int __real_close(int); int __real_rename(const char *, const char *);
int __real_remove(const char *); int __real_unlink(const char *);
DIR *__real_opendir(const char *);
void __real_frt_micro_sleep(const int);

typedef struct { int kind; char *path, *to; long off; long len; char *data; } Ent;   /* c create/truncate, w write, r rename, u unlink */
static Ent *jr; static int jn_, jcap;
static char trk[600]; static int trklen;      /* directory whose changes are recorded */
static char rc[600]; static int rclen;        /* directory a racing reader looks at */
static char *fdp[1024];                        /* paths of descriptors open for writing */
static int failat, failmode, nmut, failing, tripped;  /* failure injection */
static char failkind[16], failname[128];
static int recording;
static char nd[800]; static int ndlen, needn; static char need[512][64];     /* files opened while reading directory nd */

static const char *rel(const char *p, const char *d, int n)
{ return n && !strncmp(p, d, n) && p[n] == '/' ? p + n + 1 : NULL; }
static int is_lockname(const char *f) { int n = strlen(f); return n > 4 && !strcmp(f + n - 4, ".lck"); }
static void rec(int kind, const char *path, const char *to, long off, const void *data, long len)
{
    Ent *e;
    if (!recording) return;
    if (jn_ == jcap) { jcap = jcap * 2 + 256; jr = (Ent *)realloc(jr, jcap * sizeof(Ent)); }
    e = &jr[jn_++]; e->kind = kind; e->path = strdup(path); e->to = to ? strdup(to) : NULL; e->off = off; e->len = len; e->data = NULL;
    if (len > 0) { e->data = (char *)malloc(len); memcpy(e->data, data, len); }
}
static void jclear(void) { int i; for (i = 0; i < jn_; i++) { free(jr[i].path); free(jr[i].to); free(jr[i].data); } jn_ = 0; }
/* should this changing call fail? */
static int mut(const char *kind, const char *f)
{
    if (!failat || is_lockname(f)) return 0;
    nmut++;
    if (nmut == failat || (failing && (!strcmp(kind, "create") || !strcmp(kind, "write")))) {
        if (nmut == failat) { tripped = 1; snprintf(failkind, sizeof failkind, "%s", kind); snprintf(failname, sizeof failname, "%s", f); if (failmode == 1) failing = 1; }
        return 1;
    }
    return 0;
}
static void tick(void);
static int do_open(const char *p, int fl, mode_t m)
{
    const char *f = rel(p, trk, trklen); int fd;
    if (rel(p, rc, rclen) && !(fl & (O_WRONLY | O_RDWR))) tick();
    if (f && (fl & (O_CREAT | O_TRUNC))) {
        struct stat st; int had = !stat(p, &st);
        if (mut("create", f)) { errno = ENOSPC; return -1; }
        fd = __real_open64(p, fl, m);
        if (fd >= 0 && (!had || ((fl & O_TRUNC) && st.st_size))) rec(had ? 't' : 'c', f, NULL, 0, NULL, 0);
    }
    else fd = __real_open64(p, fl, m);
    if (fd >= 0 && fd < 1024 && (fl & (O_WRONLY | O_RDWR))) { free(fdp[fd]); fdp[fd] = strdup(p); }
    if (ndlen && fd >= 0 && !(fl & (O_WRONLY | O_RDWR)) && (f = rel(p, nd, ndlen))) {
        int i; for (i = 0; i < needn && strcmp(need[i], f); i++) ;
        if (i == needn && needn < 512) snprintf(need[needn++], 64, "%s", f);
    }
    return fd;
}
#include <stdarg.h>
int __wrap_open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return do_open(p, fl, m); }
int __wrap_open(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return do_open(p, fl, m); }
int __wrap_creat64(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (fd >= 0 && fd < 1024 && fdp[fd]) {
        long off = lseek(fd, 0, SEEK_CUR); ssize_t r; const char *f = rel(fdp[fd], trk, trklen);
        if (!f) return __real_write(fd, b, n);
        if (mut("write", f)) {
            if (failmode == 2 && n > 1) { r = __real_write(fd, b, n / 2); if (r > 0) rec('w', f, NULL, off, b, r); errno = ENOSPC; return r; }
            errno = ENOSPC; return -1;
        }
        r = __real_write(fd, b, n);
        if (r > 0) {
            if (r > 1) { rec('w', f, NULL, off, b, r / 2); rec('w', f, NULL, off + r / 2, (const char *)b + r / 2, r - r / 2); }
            else rec('w', f, NULL, off, b, r);
        }
        return r;
    }
    return __real_write(fd, b, n);
}
ssize_t __wrap_read(int fd, void *b, size_t n) { if (rclen) tick(); return __real_read(fd, b, n); }
int __wrap_close(int fd)
{
    if (fd >= 0 && fd < 1024 && fdp[fd]) {
        const char *f = rel(fdp[fd], trk, trklen); int bad = f && mut("close", f);
        free(fdp[fd]); fdp[fd] = NULL;
        __real_close(fd);
        if (bad) { errno = EIO; return -1; }
        return 0;
    }
    return __real_close(fd);
}
int __wrap_rename(const char *a, const char *b)
{
    const char *f = rel(a, trk, trklen), *g = rel(b, trk, trklen); int r;
    if (f && g && mut("rename", f)) { errno = EIO; return -1; }
    r = __real_rename(a, b);
    if (!r && f && g) rec('r', f, g, 0, NULL, 0);
    return r;
}
int __wrap_remove(const char *p)
{
    const char *f = rel(p, trk, trklen); int r;
    if (f && mut("remove", f)) { errno = EIO; return -1; }
    r = __real_remove(p);
    if (!r && f) rec('u', f, NULL, 0, NULL, 0);
    return r;
}
int __wrap_unlink(const char *p)
{
    const char *f = rel(p, trk, trklen); int r;
    if (f && mut("remove", f)) { errno = EIO; return -1; }
    r = __real_unlink(p);
    if (!r && f) rec('u', f, NULL, 0, NULL, 0);
    return r;
}
DIR *__wrap_opendir(const char *p) { if (rclen && !strcmp(p, rc)) tick(); return __real_opendir(p); }
void __wrap_frt_micro_sleep(const int us) { if (rclen) { tick(); tick(); return; } if (trklen || failat) return; __real_frt_micro_sleep(us > 2000 ? 2000 : us); }

/* ---------------------------------------------------------------- directories */
static void cpfile(const char *a, const char *b)
{
    char buf[8192]; ssize_t n; int i = __real_open64(a, O_RDONLY), o = __real_open64(b, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (i >= 0 && o >= 0) while ((n = __real_read(i, buf, sizeof buf)) > 0) __real_write(o, buf, n);
    if (i >= 0) __real_close(i);
    if (o >= 0) __real_close(o);
}
static void cpdir(const char *a, const char *b)
{
    DIR *d = __real_opendir(a); struct dirent *e; char x[2048], y[2048];
    mkdir(b, 0755);
    if (!d) return;
    while ((e = readdir(d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(x, sizeof x, "%s/%s", a, e->d_name); snprintf(y, sizeof y, "%s/%s", b, e->d_name); cpfile(x, y);
    }
    closedir(d);
}
static void wipe(const char *d)
{
    DIR *dd = __real_opendir(d); struct dirent *e; char b[2048];
    if (!dd) return;
    while ((e = readdir(dd))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(b, sizeof b, "%s/%s", d, e->d_name); __real_unlink(b); }
    closedir(dd);
}
static void rmdirall(const char *d) { wipe(d); rmdir(d); }
/* hold keeps the very files of d (hard links) so that descriptors open on them stay good; refresh puts d back to what base says */
static void holddir(const char *d, const char *h)
{
    DIR *dd = __real_opendir(d); struct dirent *e; char x[2048], y[2048];
    mkdir(h, 0755);
    if (!dd) return;
    while ((e = readdir(dd))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(x, sizeof x, "%s/%s", d, e->d_name); snprintf(y, sizeof y, "%s/%s", h, e->d_name); link(x, y); }
    closedir(dd);
}
static void refresh(const char *d, const char *h, const char *base)
{
    DIR *dd; struct dirent *e; char x[2048], y[2048], z[2048];
    wipe(d); dd = __real_opendir(h);
    if (!dd) return;
    while ((e = readdir(dd))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(x, sizeof x, "%s/%s", d, e->d_name); snprintf(y, sizeof y, "%s/%s", h, e->d_name); snprintf(z, sizeof z, "%s/%s", base, e->d_name);
        cpfile(z, y); link(y, x);
    }
    closedir(dd);
}
static void apply(const char *d, Ent *e)
{
    char a[2048], b[2048]; int fd;
    snprintf(a, sizeof a, "%s/%s", d, e->path);
    if (e->kind == 'u') __real_unlink(a);
    else if (e->kind == 'r') { snprintf(b, sizeof b, "%s/%s", d, e->to); __real_rename(a, b); }
    else if (e->kind == 'c' || e->kind == 't') { fd = __real_open64(a, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) __real_close(fd); }
    else { fd = __real_open64(a, O_WRONLY | O_CREAT, 0644); if (fd >= 0) { pwrite(fd, e->data, e->len, e->off); __real_close(fd); } }
}
static char base[700];
static char *tmpd(const char *what) { static char b[64][800]; static int i; i = (i + 1) % 64; snprintf(b[i], sizeof b[i], "%s/e%d_x_%s", getenv("FV_DIR"), epno, what); return b[i]; }

/* ---------------------------------------------------------------- what an index holds */
static unsigned long H1(unsigned long h, const void *p, int n) { const unsigned char *c = (const unsigned char *)p; while (n-- > 0) h = (h ^ *c++) * 1099511628211UL; return h; }
static unsigned long Hs(unsigned long h, const char *s) { return H1(h, s, strlen(s) + 1); }
static void digest(IndexReader *ir)     /* [[id, digest of everything known of the document], ...] of the live documents */
{
    int n = ir->max_doc(ir), i, j, k, fc = ir->fis->size, c = 0; Symbol id = intern("id");
    unsigned long *h = (unsigned long *)calloc(n + 1, sizeof *h);
    uchar *nb = (uchar *)malloc(n + 1);
    for (i = 0; i < n; i++) {
        h[i] = 14695981039346656037UL;
        if (ir->is_deleted(ir, i)) continue;
        Document *d = ir->get_doc(ir, i);
        for (j = 0; j < d->size; j++) { unsigned long x = Hs(7, d->fields[j]->name); for (k = 0; k < d->fields[j]->size; k++) x = H1(x, d->fields[j]->data[k], d->fields[j]->lengths[k] + 1); h[i] += x; }
        doc_destroy(d);
        Hash *tv = ir->term_vectors(ir, i); tvn = 0;
        if (tv) {
            h_each(tv, &tvcb, NULL);
            for (j = 0; j < tvn; j++) { unsigned long x = Hs(11, tvf[j]); for (k = 0; k < tvv[j]->term_cnt; k++) { x = Hs(x, tvv[j]->terms[k].text); x = H1(x, &tvv[j]->terms[k].freq, sizeof(int)); } h[i] += x; }
            h_destroy(tv);
        }
    }
    for (i = 0; i < fc; i++) {
        FieldInfo *fi = ir->fis->fields[i]; TermEnum *te; char *t;
        if (!fi_is_indexed(fi)) continue;
        te = ir_terms(ir, fi->name);
        if (te) {
            while ((t = te->next(te))) {
                TermDocEnum *tp = ir_term_positions_for(ir, fi->name, t);
                if (tp) {
                    while (tp->next(tp)) { int f = tp->freq(tp), dn = tp->doc_num(tp); unsigned long x = Hs(Hs(3, fi->name), t); for (j = 0; j < f; j++) { k = tp->next_position(tp); x = H1(x, &k, sizeof k); } if (dn >= 0 && dn < n) h[dn] += x; else h[0] += 1; }
                    tp->close(tp);
                }
            }
            te->close(te);
        }
        if (fi_has_norms(fi)) { memset(nb, 0, n + 1); ir_get_norms_into(ir, fi->name, nb); for (j = 0; j < n; j++) h[j] += Hs(5, fi->name) * nb[j]; }
    }
    J("[");
    for (i = 0; i < n; i++) {
        if (ir->is_deleted(ir, i)) continue;
        Document *d = ir->get_doc(ir, i); DocField *f = doc_get_field(d, id);
        J("%s[", c++ ? "," : ""); if (f && f->size) Jstr(f->data[0], f->lengths[0]); else J("-1"); J(",\"%lx\"]", h[i] & 0xffffffff);
        doc_destroy(d);
    }
    J("]");
    free(h); free(nb);
}
/* contents of the index in directory d as "c":[...], or "e":"code" */
static void content(const char *d, const char *key)
{
    Store *volatile s = NULL; IndexReader *volatile ir = NULL; size_t at = jlen;
    int t = trklen, q = failat; trklen = 0; failat = 0;
    TRY
        s = open_fs_store(d); ir = ir_open(s);
        J("\"%s\":", key); digest(ir); J(",\"%se\":\"\"", key);
    XCATCHALL
        HANDLED(); jlen = at; J("\"%s\":[],\"%se\":\"%d\"", key, key, xcontext.excode);
    XENDTRY
    if (ir) { TRY ir_close(ir); XCATCHALL HANDLED(); XENDTRY }
    if (s) { TRY store_deref(s); XCATCHALL HANDLED(); XENDTRY }
    trklen = t; failat = q;
}
static int isidx(const char *f)     /* a name the index uses */
{
    if (strlen(f) > 99) return 0;
    static const char *ex[] = { "frq", "prx", "fdx", "fdt", "tfx", "tix", "tis", "del", "gen", "cfs", NULL }; const char *p = strrchr(f, '.'); int i;
    if (!strncmp(f, "segments", 8)) { if (!f[8]) return 1; if (f[8] != '_') return 0; for (p = f + 9; *p; p++) if (!((*p >= '0' && *p <= '9') || (*p >= 'a' && *p <= 'z'))) return 0; return 1; }
    if (!p || f[0] != '_') return 0;
    for (i = 0; ex[i]; i++) if (!strcmp(p + 1, ex[i])) return 1;
    return (p[1] == 'f' || p[1] == 's') && p[2] >= '0' && p[2] <= '9';
}
static void names(const char *d, int idx_only)
{
    int i, k = 0; DIR *dd = __real_opendir(d); struct dirent *e; char *v[512]; int n = 0;
    if (dd) { while ((e = readdir(dd))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && !is_lockname(e->d_name) && isidx(e->d_name) == idx_only && n < 512) v[n++] = strdup(e->d_name); closedir(dd); }
    qsort(v, n, sizeof(char *), cmpp);
    J("["); for (i = 0; i < n; i++) { J("%s", k++ ? "," : ""); Jtxt(v[i]); free(v[i]); } J("]");
}
/* foreign files: name and digest */
static void foreign(const char *d)
{
    int i, k = 0; DIR *dd = __real_opendir(d); struct dirent *e; char *v[512], b[2048], buf[4096]; int n = 0;
    if (dd) { while ((e = readdir(dd))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && !is_lockname(e->d_name) && !isidx(e->d_name) && n < 512) v[n++] = strdup(e->d_name); closedir(dd); }
    qsort(v, n, sizeof(char *), cmpp);
    J("["); for (i = 0; i < n; i++) { int fd, m; snprintf(b, sizeof b, "%s/%s", d, v[i]); fd = __real_open64(b, O_RDONLY); m = fd >= 0 ? __real_read(fd, buf, sizeof buf) : -1; if (fd >= 0) __real_close(fd);
        J("%s[", k++ ? "," : ""); Jtxt(v[i]); J(",\"%lx\"]", H1(1, buf, m > 0 ? m : 0) & 0xffffff); free(v[i]); } J("]");
}
static Config lastcf; static int havecf;
/* go on from the state in d: a writer opens (lock cleared), garbage is looked for, a document goes in; or a reader deletes one */
static char *cont_id = "7a7a";
static void go_on(const char *d, int how)
{
    Store *volatile s = NULL; IndexWriter *volatile w = NULL; IndexReader *volatile ir = NULL; size_t at;
    int t = trklen, q = failat; trklen = 0; failat = 0;
    at = jlen;
    TRY
        s = open_fs_store(d); s->clear_locks(s);
        if (how == 1) {             /* through a reader: delete the first document */
            int i, n; ir = ir_open(s); n = ir->max_doc(ir);
            for (i = 0; i < n && ir->is_deleted(ir, i); i++) ;
            if (i < n) ir_delete_doc(ir, i);
            ir_commit(ir); ir_close(ir); ir = NULL;
            J(",\"how\":1,"); content(d, "after");
        }
        else {
            w = iw_open(s, whitespace_analyzer_new(false), havecf ? &lastcf : NULL);
            J(",\"how\":%d,\"files\":", how); names(d, 1); J(",");
            snprintf(nd, sizeof nd, "%s", d); ndlen = strlen(nd); needn = 0; content(d, "open"); ndlen = 0;
            { int i; J(",\"need\":["); for (i = 0; i < needn; i++) { J("%s", i ? "," : ""); Jtxt(need[i]); } J("]"); }
            if (how == 2) { iw_close(w); w = NULL; J(","); content(d, "after"); }
            else {
                Document *dc = doc_new(); DocField *df = df_new(intern("id")); df->destroy_data = true;
                { int len; char *v = (char *)malloc(3); v[0] = 'z'; v[1] = 'z'; v[2] = 0; len = 2; df_add_data_len(df, v, len); }
                doc_add_field(dc, df);
                iw_add_doc(w, dc); doc_destroy(dc); iw_close(w); w = NULL; J(","); content(d, "after");
            }
        }
        J(",\"ge\":\"\"");
    XCATCHALL
        HANDLED(); jlen = at; J(",\"how\":%d,\"files\":[],\"need\":[],\"open\":[],\"opene\":\"\",\"after\":[],\"aftere\":\"\",\"ge\":\"%d\"", how, xcontext.excode);
    XENDTRY
    if (how == 1 && jlen > at) J(",\"files\":[],\"need\":[],\"open\":[],\"opene\":\"\"");
    if (s) { TRY store_deref(s); XCATCHALL HANDLED(); XENDTRY }
    trklen = t; failat = q;
}
static void track(int k) { snprintf(trk, sizeof trk, "%s", sdir[k]); trklen = strlen(trk); }
static void keepfds(void) { trklen = 0; }
static void shift(int n) { int i; for (i = n; i < ntok; i++) tok[i - n] = tok[i]; ntok -= n; }
static int sub(void)       /* run the rest of the command line; its outcome as "res":...,"oe":"code" */
{
    volatile int err = 0; size_t at = jlen;
    J("\"res\":"); { size_t b = jlen;
    TRY
        if (!idx(tok[0])) bad("unknown command");
        if (jlen == b) J("{}");
    XCATCHALL
        HANDLED(); jlen = b; J("{}"); err = xcontext.excode;
    XENDTRY
    }
    J(",\"oe\":\""); if (err) J("%d", err); J("\"");
    (void)at;
    return err;
}
static void notecf(void) { if (!strcmp(tok[0], "wopen")) { lastcf = default_config; lastcf.merge_factor = ti(3); lastcf.max_buffered_docs = ti(4); lastcf.max_merge_docs = ti(5); lastcf.index_interval = ti(6); lastcf.skip_interval = ti(7); lastcf.use_compound_file = ti(8); havecf = 1; } }
static unsigned rs; static unsigned rnd(void) { rs = rs * 1103515245u + 12345u; return (rs >> 8) & 0xffffff; }

/* ---------------------------------------------------------------- racing readers */
static int rpos, rend, rplan, rcall, rat, rto, rlow;   /* journal position, its end, plan */
static void adv(int to) { while (rpos < to && rpos < rend) apply(rc, &jr[rpos++]); }
static int atseg(int i) { return !strncmp(jr[i].path, "segments", 8); }
static void tick(void)
{
    int i, keep = rclen;
    rclen = 0;                       /* our own calls do not tick */
    rcall++;
    if (rplan == 0) { if (rcall == rat) adv(rto); }
    else if (rplan == 1) { while (rnd() % rlow == 0 && rpos < rend) adv(rpos + 1); }
    else if (rplan == 2) { if (rnd() % 3 == 0) { for (i = rpos; i < rend && !atseg(i); i++) ; adv(i + 1 + rnd() % 4); } }
    else if (rplan == 3) { if (rnd() % 2) adv(rpos + 1 + rnd() % rlow); }
    rclen = keep;
}
static int crash_(const char *c)
{
    int a = ntok > 1 ? (int)strtol(tok[1], NULL, 10) : 0, i;
    alarm(120);
    if (!strcmp(c, "cr")) {             /* cr k cont seed cmd... : run cmd, then look at the directory as it was after every change */
        int cont = ti(2), err, m = 0; char *d = tmpd("cr"), *g = tmpd("go");
        rs = ti(3); shift(4); notecf();
        snprintf(base, sizeof base, "%s", tmpd("base")); rmdirall(base); cpdir(sdir[a], base);
        jclear(); track(a); recording = 1;
        J("{"); err = sub();
        recording = 0; keepfds();
        rmdirall(d); cpdir(base, d);
        J(",\"pts\":[");
        for (i = 0; i <= jn_; i++) {
            if (i) { apply(d, &jr[i - 1]); if (is_lockname(jr[i - 1].path)) { if (i < jn_) continue; } }
            J("%s{", m++ ? "," : ""); content(d, "c");
            J(",\"at\":"); Jtxt(i ? jr[i - 1].path : ""); J(",\"k\":\"%c\"", i ? jr[i - 1].kind : '-');
            if (cont && (cont == 1 || (int)(rnd() % cont) == 0 || i == jn_)) { rmdirall(g); cpdir(d, g); go_on(g, rnd() % 3); rmdirall(g); }
            else J(",\"how\":-1");
            J(",\"foreign\":"); foreign(d);
            J("}");
        }
        J("],\"n\":%d}", m);
        rmdirall(d); rmdirall(base); jclear();
        (void)err;
        return 1;
    }
    if (!strcmp(c, "crashat")) {        /* crashat k seed cmd... : run cmd, then the process "stops" after one of its changes; handles are lost, locks stale */
        int at; rs = ti(2); rnd(); shift(3); notecf();
        snprintf(base, sizeof base, "%s", tmpd("base")); rmdirall(base); cpdir(sdir[a], base);
        jclear(); track(a); recording = 1;
        J("{"); sub();
        recording = 0; keepfds();
        at = rnd() % 3 ? (int)(rnd() % (jn_ + 1)) : jn_;
        if (rnd() % 3 == 0) { int x = rnd() % (jn_ + 1); for (i = x; i < jn_ && strncmp(jr[i].path, "segments", 8); i++) ; if (i < jn_) at = i + 1 + rnd() % 2; if (at > jn_) at = jn_; }
        wipe(sdir[a]); cpdir(base, sdir[a]);
        for (i = 0; i < at; i++) apply(sdir[a], &jr[i]);
        for (i = 0; i < NK; i++) { if (W[i] && !strcmp(W[i]->store->dir.path, sdir[a])) W[i] = NULL; if (R[i] && !rmulti[i] && R[i]->store && !strcmp(R[i]->store->dir.path, sdir[a])) R[i] = NULL; }
        S[a]->clear_locks(S[a]);
        J(",\"at\":%d,\"n\":%d,", at, jn_); content(sdir[a], "c"); J("}");
        rmdirall(base); jclear();
        return 1;
    }
    if (!strcmp(c, "fl")) {             /* fl k mode step seed close cmd... : run cmd in children whose n-th change fails, n = 1, 1+step, ... */
        int mode = ti(2), step = ti(3), n, m = 0, dead = 0, cl = ti(5), pfd[2]; char *g = tmpd("go"), *h = tmpd("hold"); long offs[1024]; rs = ti(4); shift(6); notecf();
        snprintf(base, sizeof base, "%s", tmpd("base")); rmdirall(base); cpdir(sdir[a], base);
        rmdirall(h); holddir(sdir[a], h);
        for (i = 0; i < 1024; i++) offs[i] = fdp[i] ? lseek(i, 0, SEEK_CUR) : -1;
        J("{\"flt\":[");
        for (n = 1 + rnd() % step; n < 4000; n += 1 + rnd() % (2 * step - 1)) {
            pid_t pid; int stt; char *buf = NULL; size_t bn = 0, bc = 0; ssize_t r;
            pipe(pfd); fflush(stdout);
            pid = fork();
            if (!pid) {
                __real_close(pfd[0]); alarm(5); jlen = 0;
                failat = n; failmode = mode; nmut = 0; failing = 0; tripped = 0; track(a);
                J("{"); { int err = sub(); int left = !tripped;
                if (cl != 2) { keepfds(); failat = 0; failing = 0; }
                if (left) _exit(7);
                J(",\"kind\":\"%s\",\"name\":", failkind); Jtxt(failname); J(",\"cl\":%d,", cl); content(sdir[a], "c");
                /* then the handle is closed as a careful user would, nothing failing any more */
                if (cl) {
                    volatile int e2 = 0;
                    TRY
                        for (i = 0; i < NK; i++) if (W[i] && !strcmp(W[i]->store->dir.path, sdir[a])) { IndexWriter *w = W[i]; W[i] = NULL; iw_close(w); }
                    XCATCHALL
                        HANDLED(); e2 = xcontext.excode;
                    XENDTRY
                    keepfds(); failat = 0; failing = 0;
                    J(",\"cle\":\""); if (e2) J("%d", e2); J("\",");
                    content(sdir[a], "f");
                }
                rmdirall(g); cpdir(sdir[a], g); go_on(g, rnd() % 3); rmdirall(g);
                J("}");
                (void)err; }
                { size_t o = 0; while (o < jlen) { ssize_t k = __real_write(pfd[1], jb + o, jlen - o); if (k <= 0) break; o += k; } }
                _exit(0);
            }
            __real_close(pfd[1]);
            for (;;) { if (bc - bn < 4096) { bc = bc * 2 + 8192; buf = (char *)realloc(buf, bc); } r = __real_read(pfd[0], buf + bn, bc - bn - 1); if (r <= 0) break; bn += r; }
            __real_close(pfd[0]); buf[bn] = 0;
            waitpid(pid, &stt, 0);
            refresh(sdir[a], h, base);
            for (i = 0; i < 1024; i++) if (offs[i] >= 0) lseek(i, offs[i], SEEK_SET);
            if (WIFEXITED(stt) && WEXITSTATUS(stt) == 7) { free(buf); break; }
            if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) J("%s%s", m++ ? "," : "", buf);
            else if (dead++ < 3) J("%s{\"dead\":\"%d\",\"n\":%d}", m++ ? "," : "", WIFSIGNALED(stt) ? WTERMSIG(stt) : 1000 + WEXITSTATUS(stt), n);
            free(buf);
            if (dead) break;
        }
        rmdirall(h);
        J("],"); sub(); J(","); content(sdir[a], "c"); J(",\"n\":%d}", m);
        rmdirall(base);
        return 1;
    }
    if (!strcmp(c, "jstart")) {         /* jstart k : what follows is recorded */
        snprintf(base, sizeof base, "%s", tmpd("base")); rmdirall(base); cpdir(sdir[a], base);
        jclear(); track(a); recording = 1; return 1;
    }
    if (!strcmp(c, "jend")) {           /* jend : the contents after every change, each as number of a distinct content */
        char *d = tmpd("cr"), *seen[512]; int ns = 0, k; size_t at; recording = 0; keepfds();
        rmdirall(d); cpdir(base, d);
        J("{\"pos\":["); { char *pos = (char *)malloc(16 * (jn_ + 2)); size_t pn = 0; size_t keep = jlen;
        for (i = 0; i <= jn_; i++) {
            if (i) apply(d, &jr[i - 1]);
            at = jlen; content(d, "c"); J("%c", 0); jlen = at;
            for (k = 0; k < ns && strcmp(seen[k], jb + at); k++) ;
            if (k == ns && ns < 512) seen[ns++] = strdup(jb + at);
            pn += sprintf(pos + pn, "%s%d", i ? "," : "", k + 1);
        }
        jlen = keep; J("%s],\"cs\":[", pos); free(pos); }
        for (k = 0; k < ns; k++) { J("%s{%s}", k ? "," : "", seen[k]); free(seen[k]); }
        J("]}");
        rmdirall(d);
        return 1;
    }
    if (!strcmp(c, "race")) {           /* race seed starts per : readers open while the recorded changes happen */
        int st = ti(2), per = ti(3), x, y, m = 0; char *b = tmpd("rb"), *d = tmpd("rr"); rs = ti(1); rend = jn_;
        J("{\"o\":[");
        for (x = 0; x < st; x++) {
            int start = rnd() % (jn_ + 1), calls = 0;
            rmdirall(b); cpdir(base, b); for (i = 0; i < start; i++) apply(b, &jr[i]);
            for (y = 0; y < per; y++) {
                rmdirall(d); cpdir(b, d);
                snprintf(rc, sizeof rc, "%s", d); rpos = start; rcall = 0;
                rplan = y == 0 ? 0 : rnd() % 4; rat = y == 0 ? 0 : 1 + rnd() % (calls + 1); rto = start + 1 + rnd() % (jn_ - start + 1); rlow = 1 + rnd() % 12;
                {   /* the opening itself races; reading the contents must not need the directory any more */
                    Store *volatile s = NULL; IndexReader *volatile ir = NULL; volatile int e = 0;
                    rclen = strlen(rc);
                    TRY s = open_fs_store(d); ir = ir_open(s); XCATCHALL HANDLED(); e = xcontext.excode; XENDTRY
                    rclen = 0; if (y == 0) calls = rcall;
                    J("%s[%d,%d,\"", m++ ? "," : "", start, rpos); if (e) J("%d", e); J("\",");
                    { int fin = rend; snprintf(rc, sizeof rc, "%s", d); if (rnd() % 2) adv(fin); }   /* and goes on afterwards */
                    if (ir) { size_t at = jlen; TRY digest(ir); XCATCHALL HANDLED(); jlen = at; J("[[-2,\"%d\"]]", xcontext.excode); XENDTRY } else J("[]");
                    J("]");
                    if (ir) { TRY ir_close(ir); XCATCHALL HANDLED(); XENDTRY }
                    if (s) { TRY store_deref(s); XCATCHALL HANDLED(); XENDTRY }
                }
                rmdirall(d);
            }
        }
        J("]}"); rmdirall(b);
        return 1;
    }
    if (!strcmp(c, "foreign")) {        /* foreign k name hex : a file of somebody else's in the directory */
        char b[2048]; int len; char *v = ts(3, &len); int fd; snprintf(b, sizeof b, "%s/%s", sdir[a], tok[2]);
        fd = __real_open64(b, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { __real_write(fd, v, len); __real_close(fd); } free(v);
        J("{\"foreign\":"); foreign(sdir[a]); J("}"); return 1;
    }
    if (!strcmp(c, "ls")) { J("{\"files\":"); names(sdir[a], 1); J(",\"foreign\":"); foreign(sdir[a]); J("}"); return 1; }
    return 0;
}
mod_fn modules[] = { crash_, idx, NULL };
