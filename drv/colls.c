/* the containers: hash tables, linked lists, arrays */
#include "vals.h"
#include "osc_hashtab.h"
#include "osc_linkedlist.h"
#include "osc_atom_array_s.h"

/* ---- hash tables: two of them; keys are copies the destructor frees; values are numbers > 0 ---- */
#define NT 2
static t_osc_hashtab *H[NT];
static S hlog;
static int nlog;
static void note(char *key, long val)
{
	if(nlog++) sput(&hlog, ",", 1);
	sstr(&hlog, "[");
	sbytes(&hlog, key, strlen(key));
	sfmt(&hlog, ",%ld]", val);
}
static void dtor(char *key, void *val){ note(key, (long)(intptr_t)val); free(key); }
static void visit(char *key, void *val, void *context){ if(context != (void *)&hlog) die("context"); note(key, (long)(intptr_t)val); }
static void logopen(void){ hlog.n = 0; nlog = 0; }
static void logclose(S *out, long r){ sfmt(out, "{\"r\":%ld,\"log\":[", r); sput(out, hlog.p ? hlog.p : "", hlog.n); sstr(out, "]}"); }
static void op_h_new(J *in, S *out)
{
	int t = jint(in, "t");
	logopen();
	osc_hashtab_destroy(H[t]);
	H[t] = osc_hashtab_new(jint(in, "slots"), dtor);
	logclose(out, H[t] != NULL);
}
static void op_h_store(J *in, S *out)
{
	int t = jint(in, "t");
	char *k = jcstr(jneed(in, "k"));
	logopen();
	if(jintd(in, "safe", 0)){
		void *old = osc_hashtab_lookup(H[t], strlen(k), k);
		osc_hashtab_storeSafe(H[t], strlen(k), k, (void *)(intptr_t)jint(in, "v"));
		if(old || !H[t]) free(k);
	}else{
		osc_hashtab_store(H[t], strlen(k), k, (void *)(intptr_t)jint(in, "v"));
		if(!H[t]) free(k);
	}
	logclose(out, 0);
}
static void op_h_look(J *in, S *out)
{
	char *k = jcstr(jneed(in, "k"));
	logopen();
	long r = (long)(intptr_t)osc_hashtab_lookup(H[jint(in, "t")], strlen(k), k);
	free(k);
	logclose(out, r);
}
static void op_h_remove(J *in, S *out)
{
	char *k = jcstr(jneed(in, "k"));
	logopen();
	osc_hashtab_remove(H[jint(in, "t")], strlen(k), k, jint(in, "d") ? dtor : NULL);
	free(k);
	logclose(out, 0);
}
static void op_h_each(J *in, S *out){ logopen(); osc_hashtab_foreach(H[jint(in, "t")], visit, (void *)&hlog); logclose(out, 0); }
static void op_h_clear(J *in, S *out){ logopen(); osc_hashtab_clear(H[jint(in, "t")]); logclose(out, 0); }
static void op_h_destroy(J *in, S *out){ int t = jint(in, "t"); logopen(); osc_hashtab_destroy(H[t]); H[t] = NULL; logclose(out, 0); }

/* ---- lists of numbers > 0, stored as pointers to one-byte blocks so that the destructor's use is exact ---- */
static t_osc_linkedlist *L[NT];
static void *box(long v){ long *p = malloc(sizeof(long)); *p = v; return p; }
static long unbox(void *p){ return p ? *(long *)p : 0; }
static void ldtor(void *p){ if(nlog++) sput(&hlog, ",", 1); sfmt(&hlog, "%ld", unbox(p)); free(p); }
static void lcopy(void **d, void *s){ *d = box(unbox(s)); }
static void lvisit(void *c, int i, void *d)
{
	if(c != (void *)&hlog) die("context");
	if(nlog++) sput(&hlog, ",", 1);
	sfmt(&hlog, "[%d,%ld]", i, unbox(d));
}
static int popat;
static t_osc_linkedlist *poplist;
/* removes the element it is shown, from inside the iteration */
static void lpop(void *c, int i, void *d)
{
	long v = i >= 0 ? unbox(d) : 0;
	if(i >= 0 && v % popat == 0)
		for(int k = 0; k < (int)osc_linkedlist_getCount(poplist); k++) if(osc_linkedlist_peekNth(poplist, k) == d){
			if(osc_linkedlist_popNth(poplist, k) != d) die("pop");
			free(d);
			break;
		}
	if(nlog++) sput(&hlog, ",", 1);
	sfmt(&hlog, "[%d,%ld]", i, v);
}
static void lres(S *out, long r)
{
	logclose(out, r);
	out->n--;               /* reopen the object */
	sfmt(out, ",\"n\":[");
	for(int i = 0; i < NT; i++) sfmt(out, i ? ",%ld" : "%ld", L[i] ? (long)osc_linkedlist_getCount(L[i]) : -1L);
	sstr(out, "],\"ends\":[");
	for(int i = 0; i < NT; i++) sfmt(out, i ? ",%ld,%ld" : "%ld,%ld", unbox(osc_linkedlist_peekHead(L[i])), unbox(osc_linkedlist_peekTail(L[i])));
	sstr(out, "]}");
}
static void op_l_new(J *in, S *out)
{
	int t = jint(in, "t");
	logopen();
	osc_linkedlist_destroy(L[t]);
	L[t] = osc_linkedlist_new(ldtor);
	lres(out, 0);
}
static void op_l_add(J *in, S *out)
{
	int t = jint(in, "t");
	long v = jint(in, "v");
	void *b = L[t] && v ? box(v) : NULL;
	logopen();
	if(jstr(in, "w")[0] == 'p') osc_linkedlist_prepend(L[t], b); else osc_linkedlist_append(L[t], b);
	lres(out, 0);
}
static void op_l_peek(J *in, S *out){ logopen(); lres(out, unbox(osc_linkedlist_peekNth(L[jint(in, "t")], jint(in, "k")))); }
static void op_l_pop(J *in, S *out)
{
	int t = jint(in, "t");
	char w = jstr(in, "w")[0];
	logopen();
	void *p = w == 'h' ? osc_linkedlist_popHead(L[t]) : w == 't' ? osc_linkedlist_popTail(L[t]) : osc_linkedlist_popNth(L[t], jint(in, "k"));
	long r = unbox(p);
	free(p);
	lres(out, r);
}
static void op_l_each(J *in, S *out){ logopen(); osc_linkedlist_iterate(L[jint(in, "t")], lvisit, (void *)&hlog); lres(out, 0); }
static void op_l_clear(J *in, S *out){ logopen(); osc_linkedlist_clear(L[jint(in, "t")]); lres(out, 0); }
static void op_l_destroy(J *in, S *out){ int t = jint(in, "t"); logopen(); osc_linkedlist_destroy(L[t]); L[t] = NULL; lres(out, 0); }
static void op_l_clone(J *in, S *out)
{
	int t = jint(in, "t"), to = jint(in, "to");
	logopen();
	if(L[t]){
		t_osc_linkedlist *c = osc_linkedlist_clone(L[t], lcopy);
		osc_linkedlist_destroy(L[to]);
		L[to] = c;
	}
	lres(out, 0);
}
static void op_l_sweep(J *in, S *out)
{
	poplist = L[jint(in, "t")];
	popat = jint(in, "every");
	logopen();
	osc_linkedlist_iterate(poplist, lpop, (void *)&hlog);
	lres(out, 0);
}

/* ---- arrays of 1..8-byte elements ---- */
#define NAR 3
static t_osc_array *R[NAR];
static long W[NAR];
static void rres(S *out, long r)
{
	sfmt(out, "{\"r\":%ld,\"a\":[", r);
	for(int i = 0; i < NAR; i++){
		if(i) sput(out, ",", 1);
		if(!R[i]){ sstr(out, "[[-1]]"); continue; }
		long n = osc_array_getLen(R[i]);
		sput(out, "[", 1);
		for(long k = 0; k < n; k++){ if(k) sput(out, ",", 1); void *p = osc_array_get(R[i], k); if(p) sbytes(out, p, W[i]); else sstr(out, "[-2]"); }
		sput(out, "]", 1);
	}
	sstr(out, "]}");
}
static void op_r_new(J *in, S *out)
{
	int k = jint(in, "k");
	osc_array_free(R[k]);
	R[k] = osc_array_allocWithSize(jint(in, "n"), W[k] = jint(in, "w"));
	rres(out, 0);
}
static void op_r_put(J *in, S *out)
{
	int k = jint(in, "k");
	long n;
	char *p = osc_array_get(R[k], jint(in, "i")), *b = jbytes(jneed(in, "v"), &n);
	if(p && n == W[k]) memcpy(p, b, n);
	free(b);
	rres(out, p != NULL);
}
static void op_r_clear(J *in, S *out){ osc_array_clear(R[jint(in, "k")]); rres(out, 0); }
static void op_r_resize(J *in, S *out){ rres(out, osc_array_resize(R[jint(in, "k")], jint(in, "n")) != OSC_ERR_NONE); }
static void op_r_copy(J *in, S *out)
{
	int k = jint(in, "k"), to = jint(in, "to");
	t_osc_array *c = osc_array_copy(R[k]);
	osc_array_free(R[to]);
	R[to] = c;
	W[to] = W[k];
	rres(out, 0);
}
static void op_r_into(J *in, S *out)
{
	int k = jint(in, "k"), to = jint(in, "to");
	if(R[k] && R[to] && W[k] != W[to]){ osc_array_free(R[to]); R[to] = NULL; }
	if(R[k]) W[to] = W[k];
	rres(out, osc_array_copyInto(&R[to], R[k], jint(in, "off")) != OSC_ERR_NONE);
}
static void op_r_free(J *in, S *out){ int k = jint(in, "k"); osc_array_free(R[k]); R[k] = NULL; rres(out, 0); }

/* ---- arrays of atoms ---- */
static t_osc_atom_ar_u *V[NAR];
static void vres(S *out, long r)
{
	sfmt(out, "{\"r\":%ld,\"a\":[", r);
	for(int i = 0; i < NAR; i++){
		if(i) sput(out, ",", 1);
		if(!V[i]){ sstr(out, "[{\"t\":\"none\",\"v\":[]}]"); continue; }
		sput(out, "[", 1);
		for(long k = 0; k < osc_atom_array_u_getLen(V[i]); k++){
			if(k) sput(out, ",", 1);
			t_osc_atom_u *a = osc_atom_array_u_get(V[i], k);
			if(a && !osc_atom_u_getTypetag(a)) sstr(out, "{\"t\":\"unset\",\"v\":[]}");
			else s_atom_u(out, a);
		}
		sput(out, "]", 1);
	}
	sstr(out, "]}");
}
static void op_v_new(J *in, S *out){ int k = jint(in, "k"); osc_atom_array_u_free(V[k]); V[k] = osc_atom_array_u_alloc(jint(in, "n")); vres(out, 0); }
static void op_v_put(J *in, S *out)
{
	t_osc_atom_u *a = osc_atom_array_u_get(V[jint(in, "k")], jint(in, "i"));
	if(a) atom_set(a, jneed(in, "x"));
	vres(out, a != NULL);
}
static void op_v_copy(J *in, S *out)
{
	int to = jint(in, "to");
	t_osc_atom_ar_u *c = osc_atom_array_u_copy(V[jint(in, "k")]);
	osc_atom_array_u_free(V[to]);
	V[to] = c;
	vres(out, 0);
}
static void op_v_into(J *in, S *out){ vres(out, osc_atom_array_u_copyInto(&V[jint(in, "to")], V[jint(in, "k")], jint(in, "off")) != OSC_ERR_NONE); }
static void op_v_grow(J *in, S *out)
{
	int k = jint(in, "k");
	long n = jint(in, "n");
	vres(out, n >= osc_atom_array_u_getLen(V[k]) ? osc_atom_array_u_resize(V[k], n) != OSC_ERR_NONE : 0);
}
static void op_v_free(J *in, S *out){ int k = jint(in, "k"); osc_atom_array_u_free(V[k]); V[k] = NULL; vres(out, 0); }
/* the typed arrays of an array, and of its serialised form: each must be the elements' accessors */
#define CHECK(T, NAME, G) do{ \
	T *o = NULL, *o2 = NULL; \
	int ok = osc_atom_array_u_get##NAME##Array(ar, &o) == OSC_ERR_NONE && osc_atom_array_s_get##NAME##Array(as, &o2) == OSC_ERR_NONE; \
	for(long i = 0; ok && i < n; i++){ \
		T x = osc_atom_u_get##G(osc_atom_array_u_get(ar, i)), y = osc_atom_s_get##G(osc_atom_array_s_get(as, i)); \
		if(memcmp(&o[i], &x, sizeof(T)) || memcmp(&o2[i], &y, sizeof(T))) ok = 0; \
	} \
	T *o3 = malloc(sizeof(T) * (n ? n : 1)), *keep = o3; \
	osc_atom_array_u_get##NAME##Array(ar, &o3); \
	if(ok && n && (o3 != keep || memcmp(o3, o, sizeof(T) * n))) ok = 0; \
	free(keep); osc_mem_free(o); osc_mem_free(o2); \
	sfmt(out, "%d,", ok); }while(0)
static void op_v_typed(J *in, S *out)
{
	J *xs = jneed(in, "xs");
	long n = xs->n;
	t_osc_atom_ar_u *ar = osc_atom_array_u_alloc(n);
	t_osc_atom_ar_s *as = osc_atom_array_s_alloc(n);
	char **w = malloc(sizeof(char *) * (n + 1));
	for(long i = 0; i < n; i++){
		t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
		atom_set(a, xs->v[i]);
		long l = osc_atom_u_getSerializedSize(a);
		w[i] = malloc(l ? l : 1);
		osc_atom_u_nserialize(w[i], l, a);
		osc_atom_s_set(osc_atom_array_s_get(as, i), osc_atom_u_getTypetag(a), w[i]);
	}
	sstr(out, "{\"ok\":[");
	CHECK(double, Double, Double);
	CHECK(float, Float, Float);
	CHECK(int32_t, Int32, Int32);
	CHECK(int64_t, Int64, Int64);
	CHECK(uint32_t, UInt32, UInt32);
	CHECK(uint64_t, UInt64, UInt64);
	CHECK(char, Bool, Bool);
	out->n--;
	sstr(out, "],\"text\":");
	char *sep = jcstr(jneed(in, "sep")), *z = NULL;
	long l = 0, room = jint(in, "room");
	if(room){ z = osc_mem_alloc(room); l = room; }
	osc_atom_array_u_getStringArray(ar, &l, &z, sep);
	sbytes(out, z, l);
	osc_mem_free(z);
	free(sep);
	sput(out, "}", 1);
	osc_atom_array_u_free(ar);
	osc_array_free(as);
	for(long i = 0; i < n; i++) free(w[i]);
	free(w);
}
static void creset(void)
{
	logopen();
	for(int i = 0; i < NT; i++){ osc_hashtab_destroy(H[i]); H[i] = NULL; osc_linkedlist_destroy(L[i]); L[i] = NULL; }
	for(int i = 0; i < NAR; i++){ osc_array_free(R[i]); R[i] = NULL; osc_atom_array_u_free(V[i]); V[i] = NULL; }
}
static OP T[] = {{"h_new", op_h_new}, {"h_store", op_h_store}, {"h_look", op_h_look}, {"h_remove", op_h_remove}, {"h_each", op_h_each}, {"h_clear", op_h_clear}, {"h_destroy", op_h_destroy},
	{"l_new", op_l_new}, {"l_add", op_l_add}, {"l_peek", op_l_peek}, {"l_pop", op_l_pop}, {"l_each", op_l_each}, {"l_clear", op_l_clear}, {"l_destroy", op_l_destroy},
	{"l_clone", op_l_clone}, {"l_sweep", op_l_sweep},
	{"r_new", op_r_new}, {"r_put", op_r_put}, {"r_clear", op_r_clear}, {"r_resize", op_r_resize}, {"r_copy", op_r_copy}, {"r_into", op_r_into}, {"r_free", op_r_free},
	{"v_new", op_v_new}, {"v_put", op_v_put}, {"v_copy", op_v_copy}, {"v_into", op_v_into}, {"v_grow", op_v_grow}, {"v_free", op_v_free}, {"v_typed", op_v_typed}, {0}};
void fam_colls(void){ reg(T); regreset(creset); }
