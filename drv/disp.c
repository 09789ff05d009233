/* the dispatch table, dispatch and query */
#include "vals.h"
#include "osc_vtable.h"
#include "osc_dispatch.h"
#include "osc_query.h"
#include "osc_rset.h"

static t_osc_vtable *V;
static S dlog;
static int nlog;
static char *cur;              /* the bundle being dispatched */
static long curlen;

static void s_bs(S *s, t_osc_bndl_s *b)
{
	if(!b || !osc_bundle_s_getPtr(b)) sstr(s, "[]");
	else sbytes(s, osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b));
}
static void handler(int k, t_osc_vtable_entry *e, long n, char *p, t_osc_bndl_s *part, t_osc_bndl_s *comp, void *ctx)
{
	sfmt(&dlog, "%s{\"m\":%d,\"c\":%ld,\"s\":", nlog++ ? "," : "", k, (long)(intptr_t)ctx);
	if(e) sbytesz(&dlog, osc_vtable_entry_getSelector(e));
	else sstr(&dlog, "[-1]");
	sfmt(&dlog, ",\"same\":%d,\"part\":", n == curlen && (n == 0 || !memcmp(p, cur, n)));
	s_bs(&dlog, part);
	sstr(&dlog, ",\"comp\":");
	s_bs(&dlog, comp);
	sstr(&dlog, "}");
}
static void m1(t_osc_vtable_entry *e, long n, char *p, t_osc_bndl_s *a, t_osc_bndl_s *b, void *c){ handler(1, e, n, p, a, b, c); }
static void m2(t_osc_vtable_entry *e, long n, char *p, t_osc_bndl_s *a, t_osc_bndl_s *b, void *c){ handler(2, e, n, p, a, b, c); }
static void m3(t_osc_vtable_entry *e, long n, char *p, t_osc_bndl_s *a, t_osc_bndl_s *b, void *c){ handler(3, e, n, p, a, b, c); }
static void deleg(long n, char *p, t_osc_bndl_s *un, void *c){ handler(0, NULL, n, p, NULL, un, c); }
static t_osc_vtable_method M[] = {m1, m1, m2, m3};

static void logopen(void){ dlog.n = 0; nlog = 0; cur = NULL; curlen = 0; }
static void logclose(S *out, long r){ sfmt(out, "{\"r\":%ld,\"log\":[", r); sput(out, dlog.p ? dlog.p : "", dlog.n); sstr(out, "]}"); }
static char *sel(J *in, const char *k){ return jcstr(jneed(in, k)); }

static void vfree(void)
{
	if(V) osc_vtable_free(V);
	V = NULL;
}
static void op_vt_new(J *in, S *out)
{
	vfree();
	logopen();
	V = osc_vtable_alloc(jint(in, "n"));
	logclose(out, osc_vtable_getNumEntries(V));
}
static void op_vt_add(J *in, S *out)
{
	char *s = sel(in, "s");
	logopen();
	long r = osc_vtable_addEntry(V, s, M[jint(in, "m")], (void *)(intptr_t)jint(in, "c"));
	memset(s, 'X', strlen(s));
	free(s);
	logclose(out, r);
}
static void op_vt_rebind(J *in, S *out)
{
	char *s = sel(in, "s");
	logopen();
	long r = jint(in, "ctx") ? osc_vtable_rebindSelectorWithContext(V, s, M[jint(in, "m")], (void *)(intptr_t)jint(in, "c"))
				 : osc_vtable_rebindSelector(V, s, M[jint(in, "m")]);
	free(s);
	logclose(out, r != 0);
}
static void op_vt_rename(J *in, S *out)
{
	char *s = sel(in, "s"), *n = sel(in, "n");
	logopen();
	long r;
	t_osc_vtable_entry *e = osc_vtable_getEntryBySelector(V, s);
	/* the old name may be given as the table's own copy of it */
	if(jintd(in, "own", 0) && e) r = osc_vtable_renameEntry(V, osc_vtable_entry_getSelector(e), n);
	else r = osc_vtable_renameEntry(V, s, n);
	memset(n, 'X', strlen(n));
	free(s);
	free(n);
	logclose(out, r != 0);
}
static void op_vt_look(J *in, S *out)
{
	char *s = sel(in, "s");
	logopen();
	t_osc_vtable_entry *e = osc_vtable_getEntryBySelector(V, s);
	long i = osc_vtable_getIndexForSelector(V, s);
	if(osc_vtable_getIndexForEntry(V, e) != i) i = -9;
	if(e && osc_vtable_getEntryByIndex(V, i) != e) i = -8;
	if(e) osc_vtable_callWithEntry(V, e, 0, NULL, NULL, NULL);
	free(s);
	logclose(out, i);
}
static void op_vt_call(J *in, S *out)
{
	char *s = sel(in, "s");
	logopen();
	long r = osc_vtable_call(V, s, 0, NULL, NULL, NULL);
	free(s);
	logclose(out, r != 0);
}
static void op_vt_all(J *in, S *out)
{
	logopen();
	int n = osc_vtable_getNumEntries(V);
	for(int i = 0; i < n; i++) osc_vtable_callWithEntry(V, osc_vtable_getEntryByIndex(V, i), 0, NULL, NULL, NULL);
	logclose(out, osc_vtable_getEntryByIndex(V, n) || osc_vtable_getEntryByIndex(V, n + 7) ? -1 : n);
}
static void op_vt_deleg(J *in, S *out)
{
	logopen();
	osc_vtable_setDelegationMethod(V, jint(in, "on") ? deleg : NULL, (void *)(intptr_t)jint(in, "c"));
	logclose(out, 0);
}
static char **sels(J *l)
{
	char **r = calloc(l->n + 1, sizeof(char *));
	for(int i = 0; i < l->n; i++) if(!(l->v[i]->n == 1 && l->v[i]->v[0]->i == -1)) r[i] = jcstr(l->v[i]);
	return r;
}
static void sels_free(char **l, int n){ for(int i = 0; i < n; i++) free(l[i]); free(l); }
static void op_vt_dispatch(J *in, S *out)
{
	logopen();
	long n, r;
	char *b = jbytes(jneed(in, "b"), &n);
	cur = malloc(n + 1);
	memcpy(cur, b, n);
	curlen = n;
	J *l = jneed(in, "ss");
	if(jint(in, "sel")){
		char **ss = sels(l);
		r = osc_dispatch_selectors(V, l->n, ss, n, jintd(in, "null", 0) ? NULL : b, jint(in, "strip"));
		sels_free(ss, l->n);
	}else r = osc_dispatch(V, n, jintd(in, "null", 0) ? NULL : b, jint(in, "strip"));
	if(memcmp(b, cur, n)) r = 77777;             /* dispatching leaves the bundle alone */
	free(cur);
	free(b);
	logclose(out, r != 0 ? (r == 77777 ? 2 : 1) : 0);
}
static void op_query(J *in, S *out)
{
	long n;
	char *b = jbytes(jneed(in, "b"), &n);
	J *l = jneed(in, "ss");
	char **ss = sels(l);
	t_osc_rset *rs = jintd(in, "own", 0) ? osc_rset_alloc() : NULL;
	t_osc_err e = osc_query_select(l->n, ss, n, jintd(in, "null", 0) ? NULL : b, jint(in, "strip"), &rs);
	sfmt(out, "{\"r\":%d,\"un\":", e != 0);
	s_bs(out, osc_rset_getUnmatched(rs));
	sstr(out, ",\"rs\":[");
	osc_rset_initIterator(rs);
	int k = 0;
	while(osc_rset_hasNext(rs)){
		t_osc_rset_result *r = osc_rset_next(rs);
		sfmt(out, "%s{\"s\":", k++ ? "," : "");
		sbytesz(out, osc_rset_result_getSelector(r));
		sfmt(out, ",\"sel\":%d,\"part\":", osc_rset_select(rs, osc_rset_result_getSelector(r)) == r);
		s_bs(out, osc_rset_result_getPartialMatches(r));
		sstr(out, ",\"comp\":");
		s_bs(out, osc_rset_result_getCompleteMatches(r));
		sstr(out, "}");
	}
	sstr(out, "],\"by\":[");
	for(int i = 0; i < l->n; i++){
		t_osc_rset_result *r = osc_rset_select(rs, ss[i]);
		sfmt(out, "%s{\"k\":%d,\"part\":", i ? "," : "", r != NULL);
		s_bs(out, osc_rset_result_getPartialMatches(r));
		sstr(out, ",\"comp\":");
		s_bs(out, osc_rset_result_getCompleteMatches(r));
		sstr(out, "}");
	}
	sfmt(out, "],\"more\":%d}", osc_rset_next(rs) != NULL);
	osc_rset_free(rs);
	sels_free(ss, l->n);
	free(b);
}
static OP T[] = {{"vt_new", op_vt_new}, {"vt_add", op_vt_add}, {"vt_rebind", op_vt_rebind}, {"vt_rename", op_vt_rename}, {"vt_look", op_vt_look},
		 {"vt_call", op_vt_call}, {"vt_all", op_vt_all}, {"vt_deleg", op_vt_deleg}, {"vt_dispatch", op_vt_dispatch}, {"query", op_query}, {0}};
static void reset(void){ vfree(); }
void fam_disp(void){ reg(T); regreset(reset); }
