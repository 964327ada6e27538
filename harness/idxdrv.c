/* Driver for the index and search layers: executes the operations named on its input on the real
 * library and reports what the library answered. */
#include "drvmain.inc"
#include <sys/stat.h>
#include <math.h>
#include <locale.h>
#include <dirent.h>
#include "global.h"
#include "index.h"
#include "search.h"
#include "store.h"
#include "symbol.h"
#include "array.h"
#include "internal.h"
#define NK 64
static Store *S[NK]; static char *sdir[NK];
static IndexWriter *W[NK];
static IndexReader *R[NK]; static int rmulti[NK];
static Searcher *SE[NK];
static Filter *FI[NK]; static Query *QH[NK];
static QParser *QP[NK];
static int epno;
#define HANDLE(x) ((x) >= 0 && (x) < NK)

static void rmrf(const char *d)
{
    DIR *dd = opendir(d); struct dirent *e; char b[2048];
    if (!dd) return;
    while ((e = readdir(dd))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(b, sizeof b, "%s/%s", d, e->d_name);
        if (unlink(b)) rmrf(b);
    }
    closedir(dd); rmdir(d);
}
void episode_reset(void)
{
    int i;
    epno++;
#define SAFE(x) TRY x; XCATCHALL HANDLED(); XENDTRY
    for (i = 0; i < NK; i++) if (SE[i]) { SAFE(SE[i]->close(SE[i])) SE[i] = NULL; }
    for (i = 0; i < NK; i++) if (R[i] && rmulti[i]) { SAFE(ir_close(R[i])) R[i] = NULL; }
    for (i = 0; i < NK; i++) if (R[i]) { SAFE(ir_close(R[i])) R[i] = NULL; }
    for (i = 0; i < NK; i++) if (W[i]) { SAFE(iw_close(W[i])) W[i] = NULL; }
    for (i = 0; i < NK; i++) if (QH[i]) { SAFE(q_deref(QH[i])) QH[i] = NULL; }
    for (i = 0; i < NK; i++) if (FI[i]) { SAFE(filt_deref(FI[i])) FI[i] = NULL; }
    for (i = 0; i < NK; i++) if (QP[i]) { SAFE(qp_destroy(QP[i])) QP[i] = NULL; }
    for (i = 0; i < NK; i++) if (S[i]) { SAFE(store_deref(S[i])) S[i] = NULL; }
    for (i = 0; i < NK; i++) if (sdir[i]) { rmrf(sdir[i]); free(sdir[i]); sdir[i] = NULL; }
}
static int fbits(float f) { int i; memcpy(&i, &f, 4); return i; }
static float tf(int i) { return (float)atof(tok[i]); }
static Symbol tsym(int i) { char *s = ts(i, NULL); Symbol y = intern(s); free(s); return y; }

/* ---------------------------------------------------------------- queries from prefix tokens */
static int qp;              /* cursor */
static Query *mkq(void);
static char *optterm(void) { if (!strcmp(tok[qp], "~")) { qp++; return NULL; } return ts(qp++, NULL); }
static Filter *mkf(void)
{
    const char *k = tok[qp++];
    if (!strcmp(k, "RF") || !strcmp(k, "TF")) {
        Symbol f = tsym(qp++); char *lo = optterm(), *hi = optterm(); int il = ti(qp++), iu = ti(qp++);
        Filter *r = !strcmp(k, "RF") ? rfilt_new(f, lo, hi, il, iu) : trfilt_new(f, lo, hi, il, iu);
        free(lo); free(hi); return r;
    }
    if (!strcmp(k, "QF")) return qfilt_new_nr(mkq());
    if (!strcmp(k, "F")) { Filter *f = FI[ti(qp++)]; REF(f); return f; }
    RAISE(ARG_ERROR, "bad filter %s", k); return NULL;
}
static Query *mkq(void)
{
    const char *k = tok[qp++]; Query *q = NULL; int i, n;
    if (!strcmp(k, "T")) { Symbol f = tsym(qp++); char *t = ts(qp++, NULL); q = tq_new(f, t); free(t); }
    else if (!strcmp(k, "B")) {
        int nc = ti(qp++); n = ti(qp++); q = bq_new(nc);
        for (i = 0; i < n; i++) { int o = ti(qp++); bq_add_query_nr(q, mkq(), (BCType)o); }
    }
    else if (!strcmp(k, "P")) {
        Symbol f = tsym(qp++); int slop = ti(qp++); n = ti(qp++); q = phq_new(f); phq_set_slop(q, slop);
        for (i = 0; i < n; i++) {
            int inc = ti(qp++), m = ti(qp++), j;
            for (j = 0; j < m; j++) { char *t = ts(qp++, NULL); if (!j) phq_add_term(q, t, inc); else phq_append_multi_term(q, t); free(t); }
        }
    }
    else if (!strcmp(k, "PX")) { Symbol f = tsym(qp++); char *t = ts(qp++, NULL); q = prefixq_new(f, t); free(t); }
    else if (!strcmp(k, "WC")) { Symbol f = tsym(qp++); char *t = ts(qp++, NULL); q = wcq_new(f, t); free(t); }
    else if (!strcmp(k, "FZ")) { Symbol f = tsym(qp++); char *t = ts(qp++, NULL); float ms = tf(qp); int pl = ti(qp + 1), mt = ti(qp + 2); qp += 3;
        q = fuzq_new_conf(f, t, ms, pl, mt); free(t); }
    else if (!strcmp(k, "MT") || !strcmp(k, "SM")) {
        Symbol f = tsym(qp++); int span = k[0] == 'S'; n = ti(qp++); q = span ? spanmtq_new(f) : multi_tq_new(f);
        for (i = 0; i < n; i++) { char *t = ts(qp++, NULL); if (span) spanmtq_add_term(q, t); else multi_tq_add_term(q, t); free(t); }
    }
    else if (!strcmp(k, "RG") || !strcmp(k, "TR")) {
        Symbol f = tsym(qp++); char *lo = optterm(), *hi = optterm(); int il = ti(qp++), iu = ti(qp++);
        if (k[0] == 'R') q = !lo ? rq_new_less(f, hi, iu) : !hi ? rq_new_more(f, lo, il) : rq_new(f, lo, hi, il, iu);
        else q = !lo ? trq_new_less(f, hi, iu) : !hi ? trq_new_more(f, lo, il) : trq_new(f, lo, hi, il, iu);
        free(lo); free(hi);
    }
    else if (!strcmp(k, "MA")) q = maq_new();
    else if (!strcmp(k, "CS")) q = csq_new_nr(mkf());
    else if (!strcmp(k, "FQ")) { Query *a = mkq(); q = fq_new(a, mkf()); }
    else if (!strcmp(k, "ST")) { Symbol f = tsym(qp++); char *t = ts(qp++, NULL); q = spantq_new(f, t); free(t); }
    else if (!strcmp(k, "SP")) { Symbol f = tsym(qp++); char *t = ts(qp++, NULL); q = spanprq_new(f, t); free(t); }
    else if (!strcmp(k, "SF")) { int end = ti(qp++); q = spanfq_new_nr(mkq(), end); }
    else if (!strcmp(k, "SO")) { n = ti(qp++); q = spanoq_new(); for (i = 0; i < n; i++) spanoq_add_clause_nr(q, mkq()); }
    else if (!strcmp(k, "SN")) { int slop = ti(qp), io = ti(qp + 1); n = ti(qp + 2); qp += 3; q = spannq_new(slop, io); for (i = 0; i < n; i++) spannq_add_clause_nr(q, mkq()); }
    else if (!strcmp(k, "SX")) { Query *a = mkq(); Query *b = mkq(); q = spanxq_new_nr(a, b); }
    else if (!strcmp(k, "^")) { float b = tf(qp++); q = mkq(); q->boost = b; }
    else if (!strcmp(k, "H")) { q = QH[ti(qp++)]; REF(q); }
    else if (!strcmp(k, "QS")) { int p = ti(qp++); char *s = ts(qp++, NULL); q = qp_parse(QP[p], s); free(s); }
    else RAISE(ARG_ERROR, "bad query %s", k);
    return q;
}
static Sort *mksort(void)   /* n (type field rev)* */
{
    int n = ti(qp++), i; Sort *s;
    if (n < 0) return NULL;
    s = sort_new();
    for (i = 0; i < n; i++) {
        const char *t = tok[qp++]; Symbol f = tsym(qp++); int rev = ti(qp++);
        SortField *sf = !strcmp(t, "score") ? sort_field_score_new(rev) : !strcmp(t, "doc") ? sort_field_doc_new(rev)
            : !strcmp(t, "int") ? sort_field_int_new(f, rev) : !strcmp(t, "float") ? sort_field_float_new(f, rev)
            : !strcmp(t, "string") ? sort_field_string_new(f, rev) : !strcmp(t, "byte") ? sort_field_byte_new(f, rev)
            : sort_field_auto_new(f, rev);
        sort_add_sort_field(s, sf);
    }
    return s;
}
static Filter *optf(void) { if (!strcmp(tok[qp], "0")) { qp++; return NULL; } return mkf(); }

/* ---------------------------------------------------------------- reading */
static void dump(IndexReader *ir)
{
    int i, n = ir->max_doc(ir); Symbol id = intern("id");
    J("{\"max\":%d,\"num\":%d,\"hasdel\":%d,\"slots\":[", n, ir->num_docs(ir), !!ir->has_deletions(ir));
    for (i = 0; i < n; i++) {
        if (i) J(",");
        if (ir->is_deleted(ir, i)) J("0");
        else {
            Document *d = ir->get_doc(ir, i); DocField *f = doc_get_field(d, id);
            if (f && f->size) Jstr(f->data[0], f->lengths[0]); else J("-1");
            doc_destroy(d);
        }
    }
    J("]}");
}
/* slot of the live document with the id given as hex token i, or -1 */
static int slot_of(IndexReader *ir, int i)
{
    int k, n = ir->max_doc(ir), len, r = -1; Symbol id = intern("id"); char *v = ts(i, &len);
    for (k = 0; k < n && r < 0; k++) {
        if (ir->is_deleted(ir, k)) continue;
        Document *d = ir->get_doc(ir, k); DocField *f = doc_get_field(d, id);
        if (f && f->size && f->lengths[0] == len && !memcmp(f->data[0], v, len)) r = k;
        doc_destroy(d);
    }
    free(v);
    return r;
}
static void postings(IndexReader *ir, Symbol f, const char *term)
{
    TermDocEnum *tpe = ir_term_positions_for(ir, f, term); int n = 0, i, fr;
    J("[");
    if (tpe) while (tpe->next(tpe)) {
        J("%s[%d,[", n++ ? "," : "", tpe->doc_num(tpe));
        fr = tpe->freq(tpe);
        for (i = 0; i < fr; i++) J("%s%d", i ? "," : "", tpe->next_position(tpe));
        J("]]");
    }
    J("]");
    if (tpe) tpe->close(tpe);
}
static int cmpp(const void *a, const void *b) { return strcmp(*(const char **)a, *(const char **)b); }
static char *tvf[64]; static int tvn; static TermVector *tvv[64];
static void tvcb(void *k, void *v, void *a) { (void)a; if (tvn < 64) { tvf[tvn] = (char *)k; tvv[tvn++] = (TermVector *)v; } }
static void jtv(TermVector *tv)
{
    int i, j;
    J("{\"t\":[");
    for (i = 0; i < tv->term_cnt; i++) {
        J("%s[", i ? "," : ""); Jstr(tv->terms[i].text, strlen(tv->terms[i].text)); J(",%d,[", tv->terms[i].freq);
        if (tv->terms[i].positions) for (j = 0; j < tv->terms[i].freq; j++) J("%s%d", j ? "," : "", tv->terms[i].positions[j]);
        J("],%d]", tv->terms[i].positions ? 1 : 0);
    }
    J("],\"o\":[");
    for (i = 0; i < tv->offset_cnt; i++) J("%s[%ld,%ld]", i ? "," : "", (long)tv->offsets[i].start, (long)tv->offsets[i].end);
    J("]}");
}
static void each_cb(Searcher *s, int doc, float score, void *arg) { int *n = (int *)arg; (void)s; J("%s[%d,%d]", (*n)++ ? "," : "", doc, fbits(score)); }
static int nf; static char **fnames; static int fcap;
static void fcb(const char *f, void *a) { (void)a; if (nf >= fcap) { fcap = fcap * 2 + 64; fnames = (char **)realloc(fnames, fcap * sizeof(char *)); } fnames[nf++] = strdup(f); }

/* ---------------------------------------------------------------- the query parser */
static const char *qpstop[] = { "the", "and", NULL };
static Analyzer *qpan1(const char *k)
{
    if (!strcmp(k, "ws")) return whitespace_analyzer_new(false);
    if (!strcmp(k, "wslc")) return whitespace_analyzer_new(true);
    if (!strcmp(k, "ltlc")) return letter_analyzer_new(true);
    if (!strcmp(k, "std")) return standard_analyzer_new_with_words(qpstop, true);
    return NULL;
}
static Analyzer *qpan(char *d)          /* kind[,field:kind]* */
{
    char *p = strchr(d, ','), *n; Analyzer *a;
    if (!p) return qpan1(d);
    *p++ = 0; a = per_field_analyzer_new(qpan1(d));
    for (; p; p = n) { char *c = strchr(p, ':'); n = strchr(p, ','); if (n) *n++ = 0; *c++ = 0; pfa_add_field(a, intern(p), qpan1(c)); }
    return a;
}
static void leaves(Query *q, double b, int *k)
{
    b *= q->boost;
    if (q->type == BOOLEAN_QUERY) { int i; for (i = 0; i < ((BooleanQuery *)q)->clause_cnt; i++) leaves(((BooleanQuery *)q)->clauses[i]->query, b, k); }
    else if (q->type != MATCH_ALL_QUERY) J("%s%ld", (*k)++ ? "," : "", b > -1e9 && b < 1e9 ? lround(b * 4096) : -1L);
}
static int idx(const char *c)
{
    int a = ntok > 1 ? (int)strtol(tok[1], NULL, 10) : 0;
    int i, j, n;
    static const char *wops = " wclose add wdel wdels commit optimize wcount addreaders ";
    static const char *rops = " rclose rcommit dump rdel undel rnorm latest stored bytes terms seek skip bulk df docwith tvs norms ";
    char cc[32]; snprintf(cc, sizeof cc, " %s ", c);
    if ((strstr(wops, cc) && !W[a]) || (strstr(rops, cc) && !R[a])) { J("{\"err\":\"nohandle\"}"); return 1; }
    if (!strcmp(c, "store")) {          /* store k ram|fs */
        if (!strcmp(tok[2], "ram")) S[a] = open_ram_store();
        else {
            char b[1024];
            snprintf(b, sizeof b, "%s/e%d_%s", getenv("FV_DIR"), epno, tok[3]);
            mkdir(b, 0755); if (!sdir[a]) sdir[a] = strdup(b); S[a] = open_fs_store(b);
        }
    }
    else if (!strcmp(c, "storeclose")) { Store *s = S[a]; S[a] = NULL; store_deref(s); }
    else if (!strcmp(c, "create")) {    /* create k dstore dindex dtv n (name store index tv boost)* */
        FieldInfos *fis = fis_new((StoreValue)ti(2), (IndexValue)ti(3), (TermVectorValue)ti(4));
        n = ti(5);
        for (i = 0; i < n; i++) {
            FieldInfo *fi = fi_new(tsym(6 + 5 * i), (StoreValue)ti(7 + 5 * i), (IndexValue)ti(8 + 5 * i), (TermVectorValue)ti(9 + 5 * i));
            fi->boost = tf(10 + 5 * i); fis_add_field(fis, fi);
        }
        index_create(S[a], fis); fis_deref(fis);
    }
    else if (!strcmp(c, "wopen")) {     /* wopen w k mf maxbuf maxmerge ii si cmpd mem chunk analyzer */
        Config cf = default_config; Analyzer *an;
        cf.merge_factor = ti(3); cf.max_buffered_docs = ti(4); cf.max_merge_docs = ti(5); cf.index_interval = ti(6);
        cf.skip_interval = ti(7); cf.use_compound_file = ti(8);
        if (ti(9)) cf.max_buffer_memory = ti(9);
        if (ntok > 10 && ti(10)) cf.max_field_length = ti(10);
        an = whitespace_analyzer_new(false);
        W[a] = iw_open(S[ti(2)], an, &cf);
    }
    else if (!strcmp(c, "wclose")) { IndexWriter *w = W[a]; W[a] = NULL; iw_close(w); }
    else if (!strcmp(c, "add")) {       /* add w boost nf (name boost nv val*)* */
        Document *d = doc_new(); int p = 4; n = ti(3); d->boost = tf(2);
        for (i = 0; i < n; i++) {
            Symbol f = tsym(p); float b = tf(p + 1); int nv = ti(p + 2); DocField *df = df_new(f); p += 3;
            df->boost = b; df->destroy_data = true;
            for (j = 0; j < nv; j++) { int len; char *v = ts(p++, &len); df_add_data_len(df, v, len); }
            doc_add_field(d, df);
        }
        TRY iw_add_doc(W[a], d); XFINALLY doc_destroy(d); XENDTRY
    }
    else if (!strcmp(c, "wdel")) { char *t = ts(3, NULL); iw_delete_term(W[a], tsym(2), t); free(t); }
    else if (!strcmp(c, "wdels")) {
        char *tt[64]; n = ntok - 3; for (i = 0; i < n; i++) tt[i] = ts(3 + i, NULL);
        iw_delete_terms(W[a], tsym(2), tt, n); for (i = 0; i < n; i++) free(tt[i]);
    }
    else if (!strcmp(c, "commit")) iw_commit(W[a]);
    else if (!strcmp(c, "optimize")) iw_optimize(W[a]);
    else if (!strcmp(c, "wcount")) J("{\"v\":%d}", iw_doc_count(W[a]));
    else if (!strcmp(c, "addreaders")) { IndexReader *rr[NK]; n = ntok - 2; for (i = 0; i < n; i++) rr[i] = R[ti(2 + i)]; iw_add_readers(W[a], rr, n); }
    else if (!strcmp(c, "ropen")) { R[a] = ir_open(S[ti(2)]); rmulti[a] = 0; dump(R[a]); }
    else if (!strcmp(c, "mropen")) {
        IndexReader **rr = ALLOC_N(IndexReader *, NK); n = ntok - 2;
        for (i = 0; i < n; i++) { rr[i] = R[ti(2 + i)]; REF(rr[i]); }
        R[a] = mr_open(rr, n); rmulti[a] = 1; dump(R[a]);
    }
    else if (!strcmp(c, "rclose")) { IndexReader *r = R[a]; R[a] = NULL; ir_close(r); }
    else if (!strcmp(c, "dump")) dump(R[a]);
    else if (!strcmp(c, "rdel")) { n = slot_of(R[a], 2); if (n >= 0) ir_delete_doc(R[a], n); J("{\"slot\":%d}", n); }
    else if (!strcmp(c, "undel")) { ir_undelete_all(R[a]); dump(R[a]); }
    else if (!strcmp(c, "rcommit")) ir_commit(R[a]);
    else if (!strcmp(c, "rnorm")) { n = slot_of(R[a], 2); if (n >= 0) ir_set_norm(R[a], n, tsym(3), (uchar)ti(4)); J("{\"slot\":%d}", n); }
    else if (!strcmp(c, "latest")) J("{\"v\":%d}", !!ir_is_latest(R[a]));
    else if (!strcmp(c, "locked")) J("{\"v\":%d}", !!index_is_locked(S[a]));
    else if (!strcmp(c, "exists")) J("{\"v\":%d}", !!ir_index_exists(S[a]));
    else if (!strcmp(c, "stored")) {    /* stored r doc lazy : fields in order, all values */
        int doc = slot_of(R[a], 2), mode = ti(3);
        if (doc < 0) { J("{\"slot\":-1,\"f\":[]}"); return 1; }
        J("{\"slot\":%d,\"f\":[", doc);
        if (!mode) {
            Document *d = R[a]->get_doc(R[a], doc);
            for (i = 0; i < d->size; i++) {
                DocField *f = d->fields[i]; J("%s[", i ? "," : ""); Jstr(f->name, strlen(f->name)); J(",[");
                for (j = 0; j < f->size; j++) { J("%s", j ? "," : ""); Jstr(f->data[j], f->lengths[j]); }
                J("]]");
            }
            doc_destroy(d);
        }
        else {
            LazyDoc *d = R[a]->get_lazy_doc(R[a], doc);
            for (i = 0; i < d->size; i++) {
                LazyDocField *f = d->fields[mode == 2 ? d->size - 1 - i : i];
                if (lazy_doc_get(d, f->name) != f) J("\"lost\",");
                J("%s[", i ? "," : ""); Jstr(f->name, strlen(f->name)); J(",[");
                for (j = 0; j < f->size; j++) {
                    int k = mode == 2 ? f->size - 1 - j : j; char *v = lazy_df_get_data(f, k);
                    J("%s", j ? "," : ""); Jstr(v, f->data[k].length);
                }
                J("]]");
            }
            lazy_doc_close(d);
        }
        J("]}");
    }
    else if (!strcmp(c, "bytes")) {     /* bytes r doc field start len : byte range of the joined value */
        int doc = slot_of(R[a], 2); LazyDoc *d; LazyDocField *f; int len = ti(5); char *b;
        if (doc < 0) { J("{\"slot\":-1,\"v\":\"none\"}"); return 1; }
        d = R[a]->get_lazy_doc(R[a], doc); f = lazy_doc_get(d, tsym(3));
        b = (char *)malloc(len + 1);
        if (!f) J("{\"slot\":%d,\"v\":\"none\"}", doc);
        else { if (ti(6)) lazy_df_get_data(f, 0); lazy_df_get_bytes(f, b, ti(4), len); J("{\"slot\":%d,\"v\":", doc); Jstr(b, len); J("}"); }
        free(b); lazy_doc_close(d);
    }
    else if (!strcmp(c, "terms")) {     /* terms r field : all terms with df and postings */
        Symbol f = tsym(2); IndexReader *r = R[a]; TermEnum *te; char *t;
        if (fis_get_field_num(r->fis, f) < 0) { J("{\"t\":[],\"nofield\":1}"); return 1; }
        te = ir_terms(r, f); n = 0;
        J("{\"t\":[");
        if (te) while ((t = te->next(te))) {
            J("%s[", n++ ? "," : ""); Jstr(t, te->curr_term_len); J(",%d,%d,", te->curr_ti.doc_freq, ir_doc_freq(r, f, t)); postings(r, f, t); J("]");
        }
        J("]}"); if (te) te->close(te);
    }
    else if (!strcmp(c, "seek")) {      /* seek r field term k mode : terms_from / skip_to then k more */
        Symbol f = tsym(2); IndexReader *r = R[a]; char *t = ts(3, NULL), *u; int k = ti(4), mode = ti(5); TermEnum *te = NULL;
        if (fis_get_field_num(r->fis, f) < 0) { J("{\"t\":[],\"nofield\":1}"); free(t); return 1; }
        J("{\"t\":["); n = 0;
        if (mode == 0) { te = ir_terms_from(r, f, t); u = te ? (te->curr_term_len || te->curr_term[0] ? te->curr_term : te->curr_term) : NULL; if (u && !u[0]) u = NULL; }
        else { te = ir_terms(r, f); for (i = 1; i < mode && te; i++) te->next(te); u = te ? te->skip_to(te, t) : NULL; }
        while (u && n <= k) { J("%s", n++ ? "," : ""); Jstr(u, strlen(u)); u = te->next(te); }
        J("]}"); if (te) te->close(te); free(t);
    }
    else if (!strcmp(c, "skip")) {      /* skip r field term pos (n|target)* : n = next, number = skip_to */
        Symbol f = tsym(2); IndexReader *r = R[a]; char *t = ts(3, NULL); TermDocEnum *td; int pos = ti(4), k;
        td = pos ? ir_term_positions_for(r, f, t) : ir_term_docs_for(r, f, t);
        J("{\"d\":["); n = 0;
        if (td) for (i = 5; i < ntok; i++) {
            bool ok = tok[i][0] == 'n' ? td->next(td) : td->skip_to(td, ti(i));
            J("%s", n++ ? "," : "");
            if (!ok) { J("[-1,0,[]]"); break; }
            J("[%d,%d,[", td->doc_num(td), td->freq(td));
            if (pos) { int m = pos == 1 ? td->freq(td) : (pos - 1 < td->freq(td) ? pos - 1 : td->freq(td)); for (k = 0; k < m; k++) J("%s%d", k ? "," : "", td->next_position(td)); }
            J("]]");
        }
        J("],\"none\":%d}", td ? 0 : 1); if (td) td->close(td); free(t);
    }
    else if (!strcmp(c, "bulk")) {      /* bulk r field term chunk : TermDocEnum.read */
        Symbol f = tsym(2); IndexReader *r = R[a]; char *t = ts(3, NULL); int ch = ti(4), docs[256], fr[256], k;
        TermDocEnum *td = ir_term_docs_for(r, f, t); n = 0;
        J("{\"d\":[");
        if (td) while ((k = td->read(td, docs, fr, ch)) > 0) for (i = 0; i < k; i++) J("%s[%d,%d]", n++ ? "," : "", docs[i], fr[i]);
        J("]}"); if (td) td->close(td); free(t);
    }
    else if (!strcmp(c, "df")) { char *t = ts(3, NULL); J("{\"v\":%d}", ir_doc_freq(R[a], tsym(2), t)); free(t); }
    else if (!strcmp(c, "docwith")) {
        char *t = ts(3, NULL); Document *d = ir_get_doc_with_term(R[a], tsym(2), t); DocField *f = d ? doc_get_field(d, intern("id")) : NULL;
        J("{\"v\":"); if (!d) J("0"); else if (f) Jstr(f->data[0], f->lengths[0]); else J("-1"); J("}"); if (d) doc_destroy(d); free(t);
    }
    else if (!strcmp(c, "tvs")) {       /* tvs r doc : all term vectors of the document, plus each field asked singly */
        int doc = slot_of(R[a], 2); Hash *h;
        if (doc < 0) { J("{\"slot\":-1,\"all\":[],\"one\":[]}"); return 1; }
        h = R[a]->term_vectors(R[a], doc);
        tvn = 0; if (h) h_each(h, &tvcb, NULL);
        J("{\"slot\":%d,\"all\":[", doc);
        for (i = 0; i < tvn; i++) { J("%s[", i ? "," : ""); Jstr(tvf[i], strlen(tvf[i])); J(","); jtv(tvv[i]); J("]"); }
        J("],\"one\":[");
        for (i = 3; i < ntok; i++) {
            TermVector *tv = R[a]->term_vector(R[a], doc, tsym(i));
            J("%s[\"%s\",", i > 3 ? "," : "", tok[i]); if (tv) { jtv(tv); tv_destroy(tv); } else J("{\"t\":[],\"o\":[],\"none\":1}"); J("]");
        }
        J("]}"); if (h) h_destroy(h);
    }
    else if (!strcmp(c, "norms")) {     /* norms r field */
        IndexReader *r = R[a]; Symbol f = tsym(2); int m = r->max_doc(r); uchar *b, *b2 = (uchar *)malloc(m + 1);
        J("{\"n\":["); b = ir_get_norms(r, f);
        if (b) for (i = 0; i < m; i++) J("%s%d", i ? "," : "", b[i]);
        J("],\"null\":%d,\"into\":[", b ? 0 : 1);
        memset(b2, 77, m + 1); ir_get_norms_into(r, f, b2);
        for (i = 0; i < m; i++) J("%s%d", i ? "," : "", b2[i]);
        J("]}"); free(b2);
    }
    else if (!strcmp(c, "files")) {     /* directory listing through the store */
        nf = 0; S[a]->each(S[a], &fcb, NULL); qsort(fnames, nf, sizeof(char *), cmpp);
        J("{\"f\":["); for (i = 0; i < nf; i++) { J("%s", i ? "," : ""); Jtxt(fnames[i]); free(fnames[i]); } J("]}");
    }
    /* ------------------------------------------------------------ searching */
    else if (!strcmp(c, "sopen")) { IndexReader *r = R[ti(2)]; REF(r); SE[a] = isea_new(r); }
    else if (!strcmp(c, "msopen")) {
        Searcher **ss = ALLOC_N(Searcher *, NK); n = ntok - 2;
        for (i = 0; i < n; i++) { IndexReader *r = R[ti(2 + i)]; REF(r); ss[i] = isea_new(r); }
        SE[a] = msea_new(ss, n, true);
    }
    else if (!strcmp(c, "sclose")) { Searcher *s = SE[a]; SE[a] = NULL; s->close(s); }
    else if (!strcmp(c, "query")) { qp = 2; QH[a] = mkq(); }
    else if (!strcmp(c, "qadd")) { qp = 3; bq_add_query_nr(QH[a], mkq(), (BCType)ti(2)); }
    else if (!strcmp(c, "filter")) { qp = 2; FI[a] = mkf(); }
    else if (!strcmp(c, "search")) {    /* search s first num filter sort query */
        Filter *f; Sort *so; Query *q; TopDocs *td = NULL; int fd = ti(2), nd = ti(3); qp = 4;
        f = optf(); so = mksort(); q = mkq();
        TRY
            td = SE[a]->search(SE[a], q, fd, nd, f, so, NULL, false);
            J("{\"total\":%d,\"max\":%d,\"hits\":[", td->total_hits, fbits(td->max_score));
            for (i = 0; i < td->size; i++) J("%s[%d,%d]", i ? "," : "", td->hits[i]->doc, fbits(td->hits[i]->score));
            J("]}");
        XFINALLY
            if (td) td_destroy(td);
            if (f) filt_deref(f);
            if (so) sort_destroy(so);
            q_deref(q);
        XENDTRY
    }
    else if (!strcmp(c, "each")) {      /* each s filter query */
        Filter *f; Query *q; int k = 0; qp = 2; f = optf(); q = mkq();
        TRY
            J("{\"hits\":["); SE[a]->search_each(SE[a], q, f, NULL, &each_cb, &k); J("]}");
        XFINALLY
            if (f) filt_deref(f);
            q_deref(q);
        XENDTRY
    }
    else if (!strcmp(c, "unscored")) {  /* unscored s limit offset query */
        int lim = ti(2), off = ti(3), *buf = (int *)malloc(sizeof(int) * (lim + 1)), k; Query *q; qp = 4; q = mkq();
        TRY
            k = SE[a]->search_unscored(SE[a], q, buf, lim, off);
            J("{\"d\":["); for (i = 0; i < k; i++) J("%s%d", i ? "," : "", buf[i]); J("]}");
        XFINALLY
            free(buf); q_deref(q);
        XENDTRY
    }
    else if (!strcmp(c, "explain")) {   /* explain s doc query */
        int d = ti(2); Query *q; Explanation *e; qp = 3;
        if (d >= SE[a]->max_doc(SE[a])) { J("{\"v\":-1}"); return 1; }
        q = mkq();
        TRY
            e = SE[a]->explain(SE[a], q, d); J("{\"v\":%d}", fbits(e->value)); expl_destroy(e);
        XFINALLY
            q_deref(q);
        XENDTRY
    }
    else if (!strcmp(c, "matchv")) {    /* matchv s doc field query */
        int d = ti(2); Symbol f = tsym(3); Query *q; MatchVector *mv; qp = 4; q = mkq();
        mv = searcher_get_match_vector(SE[a], q, d, f);
        J("{\"m\":["); if (mv) for (i = 0; i < mv->size; i++) J("%s[%d,%d]", i ? "," : "", mv->matches[i].start, mv->matches[i].end); J("]}");
        if (mv) matchv_destroy(mv); q_deref(q);
    }
    else if (!strcmp(c, "highlight")) { /* highlight s doc field len num pre post ell query */
        int d = ti(2); Symbol f = tsym(3); char *p1 = ts(6, NULL), *p2 = ts(7, NULL), *p3 = ts(8, NULL), **r; Query *q; qp = 9; q = mkq();
        r = searcher_highlight(SE[a], q, d, f, ti(4), ti(5), p1, p2, p3);
        J("{\"null\":%d,\"x\":[", r ? 0 : 1);
        if (r) { for (i = 0; i < ary_size(r); i++) { size_t j, m = strlen(r[i]); J("%s[", i ? "," : ""); for (j = 0; j < m; j++) J("%s%d", j ? "," : "", (unsigned char)r[i][j]); J("]"); } ary_destroy(r, &free); }
        J("]}"); free(p1); free(p2); free(p3); q_deref(q);
    }
    else if (!strcmp(c, "qp")) {        /* qp k or wildlower clean handle any keywords typed slop analyzer nf (name def tok)* */
        QParser *p = qp_new(qpan(tok[10]));
        p->or_default = ti(2); p->wild_lower = ti(3); p->clean_str = ti(4); p->handle_parse_errors = ti(5); p->allow_any_fields = ti(6);
        p->use_keywords = ti(7); p->use_typed_range_query = ti(8); p->def_slop = ti(9); n = ti(11);
        for (i = 0; i < n; i++) qp_add_field(p, tsym(12 + 3 * i), ti(13 + 3 * i), ti(14 + 3 * i) == 1);
        if (n && ti(14) == 2) { hs_destroy(p->tokenized_fields); p->tokenized_fields = NULL; }
        QP[a] = p;
    }
    else if (!strcmp(c, "parse")) {     /* parse s qp string : what the parsed query matches, the boosts of its leaves */
        char *t = ts(3, NULL), *u = strdup(t); Query *q = NULL; int k = 0; free(t);
        TRY
            q = qp_parse(QP[ti(2)], u);
            t = q->to_s(q, intern("f")); free(t);
            J("{\"b\":["); leaves(q, 1.0, &k); k = 0; J("],\"hits\":["); SE[a]->search_each(SE[a], q, NULL, NULL, &each_cb, &k); J("]}");
        XFINALLY
            if (q) q_deref(q);
            free(u);
        XENDTRY
    }
    else return 0;
    return 1;
}
#ifndef NO_MODULES
mod_fn modules[] = { idx, NULL };
#endif
