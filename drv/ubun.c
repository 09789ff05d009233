/* unserialised messages and bundles held in slots */
#include "vals.h"
#define NM 4
#define NB 4
static t_osc_msg_u *M[NM];
static t_osc_bndl_u *B[NB];

static void reset(void)
{
	for(int i = 0; i < NM; i++){ osc_message_u_free(M[i]); M[i] = NULL; }
	for(int i = 0; i < NB; i++){ osc_bundle_u_free(B[i]); B[i] = NULL; }
}
/* the state: every slot, as read through the public API */
static void state(S *out)
{
	sstr(out, "\"M\":[");
	for(int i = 0; i < NM; i++){
		if(i) sstr(out, ",");
		if(M[i]) s_msg_u(out, M[i]); else sstr(out, "{\"a\":[-2],\"d\":[]}");
	}
	sstr(out, "],\"B\":[");
	for(int i = 0; i < NB; i++){
		if(i) sstr(out, ",");
		if(B[i]) s_bndl_u(out, B[i]); else sstr(out, "[{\"a\":[-2],\"d\":[]}]");
	}
	sstr(out, "]}");
}
#define BEGIN sstr(out, "{\"r\":");
#define END sstr(out, ","); state(out);
#define R(x) do{ BEGIN sfmt(out, "%ld", (long)(x)); END }while(0)

static t_osc_msg_u *kth(t_osc_bndl_u *b, int k)
{
	t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
	t_osc_msg_u *m = NULL;
	for(int i = 0; i <= k && osc_bndl_it_u_hasNext(it); i++) m = osc_bndl_it_u_next(it);
	osc_bndl_it_u_destroy(it);
	return m;
}
/* a message: [slot] or [bundle slot, position modulo the number of messages]; NULL if there is none */
static t_osc_msg_u *mref(J *j)
{
	if(j->t != 'a') die("message reference");
	if(j->n == 2){
		t_osc_bndl_u *b = B[j->v[0]->i];
		int n = b ? osc_bundle_u_getMsgCount(b) : 0;
		return n > 0 ? kth(b, j->v[1]->i % n) : NULL;
	}
	return M[j->v[0]->i];
}
#define SKIP(c) do{ if(c){ R(-9); return; } }while(0)
static int pick(t_osc_msg_u *m, J *in)
{
	int n = m ? osc_message_u_getArgCount(m) : 0;
	return n > 0 ? jint(in, "k") % n : -1;
}
static int noaddr(t_osc_bndl_u *b)
{
	int r = 0;
	t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
	while(osc_bndl_it_u_hasNext(it)) if(!osc_message_u_getAddress(osc_bndl_it_u_next(it))) r = 1;
	osc_bndl_it_u_destroy(it);
	return r;
}
static int mi(J *in, const char *k){ int i = jint(in, k) ; if(i < 0 || i >= NM) die("slot"); return i; }
static int bi(J *in, const char *k){ int i = jint(in, k) ; if(i < 0 || i >= NB) die("slot"); return i; }
static void setM(int i, t_osc_msg_u *m){ if(M[i]) osc_message_u_free(M[i]); M[i] = m; }
static void setB(int i, t_osc_bndl_u *b){ if(B[i]) osc_bundle_u_free(B[i]); B[i] = b; }

static void m_new(J *in, S *out)
{
	char *z = jcstr(jneed(in, "a"));
	setM(mi(in, "m"), z ? osc_message_u_allocWithAddress(z) : osc_message_u_alloc());
	free(z);
	R(0);
}
static void m_with(J *in, S *out)
{
	char *z = jcstr(jneed(in, "a"));
	J *v = jneed(in, "v");
	t_osc_atom_u *a = atom_new(v);
	t_osc_msg_u *m = NULL;
	switch(jstr(v, "t")[0]){
	case 'f': m = osc_message_u_allocWithFloat(z, osc_atom_u_getFloat(a)); break;
	case 'd': m = osc_message_u_allocWithDouble(z, osc_atom_u_getDouble(a)); break;
	case 'i': m = osc_message_u_allocWithInt(z, osc_atom_u_getInt32(a)); break;
	case 's': m = osc_message_u_allocWithString(z, osc_atom_u_getStringPtr(a)); break;
	case 't': m = osc_message_u_allocWithTimetag(z, osc_atom_u_getTimetag(a)); break;
	case 'b': m = osc_message_u_allocWithBlob(z, osc_atom_u_getBlob(a)); break;
	default: die("m_with");
	}
	osc_atom_u_free(a);
	free(z);
	setM(mi(in, "m"), m);
	R(0);
}
static void m_setaddr(J *in, S *out)
{
	SKIP(!mref(jneed(in, "r")));
	char *z = jcstr(jneed(in, "a"));
	t_osc_err e = osc_message_u_setAddress(mref(jneed(in, "r")), z);
	free(z);
	R(e != 0);
}
static void m_add(J *in, S *out)
{
	t_osc_msg_u *m = mref(jneed(in, "r"));
	SKIP(!m);
	t_osc_atom_u *a = msg_add(m, jneed(in, "v"), jstr(in, "w")[0], jintd(in, "pos", 0), jintd(in, "alt", 0));
	R(a != NULL);
}
static void m_rm(J *in, S *out)
{
	t_osc_msg_u *m = mref(jneed(in, "r"));
	int k = pick(m, in);
	SKIP(k < 0);
	t_osc_atom_u *a = osc_message_u_getArg(m, k);
	osc_message_u_removeAtom(m, a);
	osc_atom_u_free(a);
	R(osc_message_u_getArgCount(m));
}
static void m_move(J *in, S *out)
{
	/* take an argument out of one message and put the same object into another (or the same) */
	t_osc_msg_u *m = mref(jneed(in, "r")), *d = mref(jneed(in, "to"));
	int k = pick(m, in);
	SKIP(k < 0 || !d);
	t_osc_atom_u *a = osc_message_u_getArg(m, k);
	osc_message_u_removeAtom(m, a);
	char w = jstr(in, "w")[0];
	if(w == 'a') osc_message_u_appendAtom(d, a);
	else if(w == 'p') osc_message_u_prependAtom(d, a);
	else osc_message_u_insertAtom(d, a, jint(in, "pos"));
	R(osc_message_u_getArgCount(d));
}
static void m_set(J *in, S *out)
{
	t_osc_msg_u *m = mref(jneed(in, "r"));
	int k = pick(m, in);
	SKIP(k < 0);
	atom_set(osc_message_u_getArg(m, k), jneed(in, "v"));
	R(0);
}
static void m_neg(J *in, S *out)
{
	t_osc_msg_u *m = mref(jneed(in, "r"));
	int k = pick(m, in);
	SKIP(k < 0);
	osc_atom_u_negate(osc_message_u_getArg(m, k));
	R(0);
}
static void m_clear(J *in, S *out){ SKIP(!mref(jneed(in, "r"))); osc_message_u_clearArgs(mref(jneed(in, "r"))); R(0); }
static void m_dup(J *in, S *out)
{
	SKIP(!mref(jneed(in, "r")));
	t_osc_msg_u *c = NULL;
	osc_message_u_deepCopy(&c, mref(jneed(in, "r")));
	setM(mi(in, "to"), c);
	R(0);
}
static void m_args(J *in, S *out)
{
	SKIP(!mref(jneed(in, "r")) || !mref(jneed(in, "to")));
	t_osc_array *ar = osc_message_u_getArgArrayCopy(mref(jneed(in, "r")));
	long n = ar ? osc_array_getLen(ar) : -1;
	osc_message_u_setArgArrayCopy(mref(jneed(in, "to")), ar);
	if(ar) osc_atom_array_u_free(ar);
	R(n);
}
static void m_free(J *in, S *out){ setM(mi(in, "m"), NULL); R(0); }
/* every way of reading one message */
static void m_look(J *in, S *out)
{
	t_osc_msg_u *m = mref(jneed(in, "r"));
	SKIP(!m);
	BEGIN
	int n = osc_message_u_getArgCount(m);
	sfmt(out, "{\"argc\":%d,\"args\":[", n);
	/* by position, from the last to the first, reported in order */
	t_osc_atom_u *at[n + 1];
	for(int k = n - 1; k >= 0; k--) at[k] = osc_message_u_getArg(m, k);
	for(int k = 0; k < n; k++){ if(k) sstr(out, ","); s_atom_u(out, at[k]); }
	sfmt(out, "],\"past\":%d,\"it\":[", osc_message_u_getArg(m, n) != NULL || osc_message_u_getArg(m, n + 3) != NULL);
	t_osc_msg_it_u *it = osc_msg_it_u_get(m);
	int k = 0;
	/* a partial traversal, a reset, then next() without asking hasNext() */
	for(; k < n / 2 && osc_msg_it_u_hasNext(it); k++) osc_msg_it_u_next(it);
	osc_msg_it_u_reset(it);
	t_osc_atom_u *a;
	for(k = 0; (a = osc_msg_it_u_next(it)) && k < n + 2; k++){
		if(k) sstr(out, ",");
		sfmt(out, "%d", k < n && a == at[k]);
	}
	sfmt(out, "],\"more\":%d", osc_msg_it_u_hasNext(it) != 0);
	osc_msg_it_u_destroy(it);
	sfmt(out, ",\"size\":%ld,\"bytes\":", osc_message_u_getSerializedSize(m));
	t_osc_msg_s *ms = osc_message_u_serialize(m);
	if(ms) sbytes(out, osc_message_s_getPtr(ms), osc_message_s_getSize(ms) + 4);
	else sstr(out, "[]");
	if(ms) osc_message_s_deepFree(ms);
	sstr(out, "}");
	END
}
/* atoms one by one: serialised size, bytes, sizeof */
static void m_atoms(J *in, S *out)
{
	t_osc_msg_u *m = mref(jneed(in, "r"));
	SKIP(!m);
	BEGIN
	sstr(out, "[");
	for(int k = 0; k < osc_message_u_getArgCount(m); k++){
		t_osc_atom_u *a = osc_message_u_getArg(m, k);
		long n = osc_atom_u_getSerializedSize(a);
		char *b = malloc(n ? n : 1);
		memset(b, 0x5a, n);
		size_t w = osc_atom_u_nserialize(b, n, a);
		/* too small a buffer: nothing beyond it is written, at most that much is reported */
		int ok = 1;
		for(long x = 0; x < n; x++){
			char *c = malloc(x ? x : 1);
			if((long)osc_atom_u_nserialize(c, x, a) > x) ok = 0;
			free(c);
		}
		t_osc_atom_u *cp = osc_atom_u_copy(a);
		if(k) sstr(out, ",");
		sfmt(out, "{\"n\":%ld,\"w\":%ld,\"ok\":%d,\"b\":", n, (long)w, ok);
		sbytes(out, b, n);
		sstr(out, ",\"cp\":");
		s_atom_u(out, cp);
		osc_atom_u_free(cp);
		free(b);
		t_osc_atom_s *as = osc_atom_u_serialize(a);
		t_osc_atom_u *back = osc_atom_s_deserialize(as);
		sstr(out, ",\"s\":");
		s_atom_s(out, as);
		sstr(out, ",\"back\":");
		s_atom_u(out, back);
		osc_atom_u_free(back);
		if(osc_atom_s_getData(as)) osc_mem_free(osc_atom_s_getData(as));
		osc_atom_s_free(as);
		sstr(out, "}");
	}
	sstr(out, "]");
	END
}

static void b_new(J *in, S *out){ setB(bi(in, "b"), osc_bundle_u_alloc()); R(0); }
static void b_add(J *in, S *out)
{
	t_osc_bndl_u *b = B[bi(in, "b")];
	int i = mi(in, "m");
	SKIP(!b || !M[i]);
	char *how = jstr(in, "how");
	t_osc_err e;
	if(!strcmp(how, "add")){ e = osc_bundle_u_addMsg(b, M[i]); M[i] = NULL; }
	else if(!strcmp(how, "nodup")){ e = osc_bundle_u_addMsgWithoutDups(b, M[i]); M[i] = NULL; }
	else if(!strcmp(how, "replace")){ e = osc_bundle_u_replaceMessage(b, M[i]); M[i] = NULL; }
	else if(!strcmp(how, "addcopy")) e = osc_bundle_u_addMsgCopy(b, M[i]);
	else if(!strcmp(how, "nodupcopy")) e = osc_bundle_u_addMsgWithoutDupsCopy(b, M[i]);
	else if(!strcmp(how, "array")){
		t_osc_msg_ar_u *ar = osc_message_array_u_alloc(1);
		t_osc_msg_u *p = osc_message_array_u_get(ar, 0);
		osc_message_u_initMsg(p);
		osc_message_u_deepCopy(&p, M[i]);
		e = osc_bundle_u_addMsgArrayCopy(b, ar);
		osc_message_array_u_free(ar);
	}else die("how");
	R(e != 0);
}
/* chain the messages of several slots and give the chain to the bundle */
static void b_list(J *in, S *out)
{
	J *ms = jneed(in, "ms");
	for(int i = 0; i < ms->n; i++){
		SKIP(!M[ms->v[i]->i]);
		for(int k = 0; k < i; k++) if(ms->v[k]->i == ms->v[i]->i) die("repeated message");
	}
	SKIP(!B[bi(in, "b")] || !ms->n);
	t_osc_msg_u *h = M[ms->v[0]->i];
	for(int i = 1; i < ms->n; i++) osc_message_u_append(h, M[ms->v[i]->i]);
	for(int i = 0; i < ms->n; i++) M[ms->v[i]->i] = NULL;
	t_osc_err e = osc_bundle_u_addMsgList(B[bi(in, "b")], h);
	R(e != 0);
}
static void b_take(J *in, S *out)
{
	t_osc_bndl_u *b = B[bi(in, "b")];
	SKIP(!b || !osc_bundle_u_getMsgCount(b));
	t_osc_msg_u *m = kth(b, jint(in, "k") % osc_bundle_u_getMsgCount(b));
	osc_bundle_u_removeMsg(b, m);
	setM(mi(in, "to"), m);
	R(osc_bundle_u_getMsgCount(b));
}
static void b_rmaddr(J *in, S *out)
{
	SKIP(!B[bi(in, "b")]);
	char *z = jcstr(jneed(in, "a"));
	osc_bundle_u_removeMessage(B[bi(in, "b")], z);
	free(z);
	R(osc_bundle_u_getMsgCount(B[bi(in, "b")]));
}
static void b_clear(J *in, S *out){ SKIP(!B[bi(in, "b")]); osc_bundle_u_clear(B[bi(in, "b")]); R(osc_bundle_u_getMsgCount(B[bi(in, "b")])); }
static void b_free(J *in, S *out){ setB(bi(in, "b"), NULL); R(0); }
static void b_copy(J *in, S *out)
{
	SKIP(!B[bi(in, "b")]);
	t_osc_bndl_u *c = NULL;
	t_osc_err e = osc_bundle_u_copy(&c, B[bi(in, "b")]);
	setB(bi(in, "to"), c);
	R(e != 0);
}
static void b_des(J *in, S *out)
{
	long n;
	char *p = jbytes(jneed(in, "bytes"), &n);
	setB(bi(in, "b"), osc_bundle_s_deserialize(n, p));
	free(p);
	R(0);
}
static void b_ser(J *in, S *out)
{
	t_osc_bndl_u *b = B[bi(in, "b")];
	SKIP(!b);
	BEGIN
	long n = osc_bundle_u_getSerializedSize(b);
	t_osc_bndl_s *s = osc_bundle_u_serialize(b);
	sfmt(out, "{\"n\":%ld,\"len\":%ld,\"bytes\":", n, osc_bundle_s_getLen(s));
	sbytes(out, osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s));
	/* buffers of every size: bounds, and the full encoding as soon as it fits */
	int ok = 1, full = 1;
	long len = osc_bundle_s_getLen(s);
	long step = len > 400 ? 4 : 1;
	for(long x = 0; x <= len + 9; x += (x >= len - 9 ? 1 : step)){
		char *c = malloc(x ? x : 1);
		memset(c, 0x5a, x ? x : 1);
		long w = osc_bundle_u_nserialize(c, x, b);
		if(w > x) ok = 0;
		if(x >= len && (w != len || memcmp(c, osc_bundle_s_getPtr(s), len))) full = 0;
		free(c);
	}
	sfmt(out, ",\"ok\":%d,\"full\":%d}", ok, full);
	osc_bundle_s_deepFree(s);
	END
}
static void cb(t_osc_msg_u *m, void *c){ S *out = c; if(out->p[out->n - 1] != '[') sstr(out, ","); sbytesz(out, osc_message_u_getAddress(m)); }
static void b_look(J *in, S *out)
{
	t_osc_bndl_u *b = B[bi(in, "b")];
	SKIP(!b);
	BEGIN
	sfmt(out, "{\"count\":%d,\"first\":", osc_bundle_u_getMsgCount(b));
	t_osc_msg_u *f = osc_bundle_u_getFirstMsg(b);
	if(f) sbytesz(out, osc_message_u_getAddress(f)); else sstr(out, "[-2]");
	sstr(out, ",\"cb\":[");
	osc_bundle_u_getMessagesWithCallback(b, cb, out);
	sstr(out, "],\"it\":[");
	t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
	int n = osc_bundle_u_getMsgCount(b);
	for(int k = 0; k < n / 2 && osc_bndl_it_u_hasNext(it); k++) osc_bndl_it_u_next(it);
	osc_bndl_it_u_reset(it);
	t_osc_msg_u *m, *last = NULL;
	while((m = osc_bndl_it_u_next(it))){ cb(m, out); last = m; }
	sfmt(out, "],\"more\":%d,\"next\":[", osc_bndl_it_u_hasNext(it) != 0);
	osc_bndl_it_u_destroy(it);
	/* following the messages' own links */
	for(m = f; m; m = osc_message_u_next(m)) cb(m, out);
	sstr(out, "],\"q\":[");
	J *q = jget(in, "q");
	for(int i = 0; q && i < q->n; i++){
		char *z = jcstr(q->v[i]);
		if(i) sstr(out, ",");
		sstr(out, "{");
		for(int full = 0; full < 2; full++){
			int ex = -1, bd = -1;
			osc_bundle_u_addressExists(b, z, full, &ex);
			osc_bundle_u_addressIsBound(b, z, full, &bd);
			sfmt(out, "\"%s\":[%d,%d],\"%s\":[", full ? "full" : "part", ex, bd, full ? "lf" : "lp");
			t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(b, z, full);
			for(int k = 0; k < osc_message_array_u_getLen(ar); k++){
				if(k) sstr(out, ",");
				s_msg_u(out, osc_message_array_u_get(ar, k));
			}
			sstr(out, "],");
			osc_message_array_u_free(ar);
		}
		t_osc_msg_u *ff = osc_bundle_u_getFirstFullMatch(b, z);
		sstr(out, "\"ff\":");
		if(ff) s_msg_u(out, ff); else sstr(out, "{\"a\":[-2],\"d\":[]}");
		sstr(out, "}");
		free(z);
	}
	sstr(out, "]}");
	END
}
static void b_union(J *in, S *out)
{
	SKIP(!B[bi(in, "x")] || !B[bi(in, "y")]);
	t_osc_bndl_u *d = NULL;
	t_osc_err e = osc_bundle_u_union(B[bi(in, "x")], B[bi(in, "y")], &d);
	setB(bi(in, "to"), d);
	R(e != 0);
}
static void b_inter(J *in, S *out)
{
	SKIP(!B[bi(in, "x")] || !B[bi(in, "y")]);
	t_osc_bndl_u *d = NULL;
	t_osc_err e = osc_bundle_u_intersection(B[bi(in, "x")], B[bi(in, "y")], &d);
	setB(bi(in, "to"), d);
	R(e != 0);
}
/* the separator is an array of characters */
static char *sepbuf(J *in)
{
	static char b[64];
	J *a = jneed(in, "sep");
	for(int i = 0; i < a->n; i++) b[i] = a->v[i]->i;
	b[a->n] = 0;
	return b;
}
static void b_flatten(J *in, S *out)
{
	SKIP(!B[bi(in, "b")] || noaddr(B[bi(in, "b")]));
	t_osc_bndl_u *d = NULL;
	t_osc_err e = osc_bundle_u_flatten(&d, B[bi(in, "b")], jint(in, "max"), sepbuf(in), jint(in, "rm"));
	setB(bi(in, "to"), d);
	R(e != 0);
}
static void b_explode(J *in, S *out)
{
	SKIP(!B[bi(in, "b")] || noaddr(B[bi(in, "b")]));
	t_osc_bndl_u *d = NULL;
	t_osc_err e = osc_bundle_u_explode(&d, B[bi(in, "b")], jint(in, "max"), sepbuf(in));
	setB(bi(in, "to"), d);
	R(e != 0);
}
/* the serialised form of the same operations, on the serialisation of the slots */
static void b_flatten_s(J *in, S *out)
{
	SKIP(!B[bi(in, "b")] || noaddr(B[bi(in, "b")]));
	t_osc_bndl_s *s = osc_bundle_u_serialize(B[bi(in, "b")]), *d = NULL;
	t_osc_err e;
	if(!strcmp(jstr(in, "what"), "flatten")) e = osc_bundle_s_flatten(&d, s, jint(in, "max"), sepbuf(in), jint(in, "rm"));
	else e = osc_bundle_s_explode(&d, s, jint(in, "max"), sepbuf(in));
	setB(bi(in, "to"), d ? osc_bundle_s_deserialize(osc_bundle_s_getLen(d), osc_bundle_s_getPtr(d)) : NULL);
	osc_bundle_s_deepFree(s);
	if(d) osc_bundle_s_deepFree(d);
	R(e != 0);
}
static OP T[] = {
	{"m_new", m_new}, {"m_with", m_with}, {"m_setaddr", m_setaddr}, {"m_add", m_add}, {"m_rm", m_rm}, {"m_move", m_move},
	{"m_set", m_set}, {"m_neg", m_neg}, {"m_clear", m_clear}, {"m_dup", m_dup}, {"m_args", m_args}, {"m_free", m_free}, {"m_look", m_look},
	{"m_atoms", m_atoms},
	{"b_new", b_new}, {"b_add", b_add}, {"b_list", b_list}, {"b_take", b_take}, {"b_rmaddr", b_rmaddr}, {"b_clear", b_clear},
	{"b_free", b_free}, {"b_copy", b_copy}, {"b_des", b_des}, {"b_ser", b_ser}, {"b_look", b_look}, {"b_union", b_union},
	{"b_inter", b_inter}, {"b_flatten", b_flatten}, {"b_explode", b_explode}, {"b_fx_s", b_flatten_s},
	{0}};
void fam_ubun(void){ reg(T); regreset(reset); }
