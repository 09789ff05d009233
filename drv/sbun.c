/* serialised bundles held in slots */
#include "vals.h"
#include "osc_error.h"
#define NS 4
static char *P[NS];
static long L[NS];

static void drop(int i){ if(P[i]) osc_mem_free(P[i]); P[i] = NULL; L[i] = 0; }
static void put(int i, char *p, long n){ if(P[i] != p) drop(i); P[i] = p; L[i] = n; }
static void reset(void){ for(int i = 0; i < NS; i++) drop(i); }
static void state(S *out)
{
	sstr(out, "\"S\":[");
	for(int i = 0; i < NS; i++){
		if(i) sstr(out, ",");
		if(P[i]) sbytes(out, P[i], L[i]); else sstr(out, "[-2]");
	}
	sstr(out, "]}");
}
#define BEGIN sstr(out, "{\"r\":");
#define END sstr(out, ","); state(out);
#define R(x) do{ BEGIN sfmt(out, "%ld", (long)(x)); END }while(0)
#define SKIP(c) do{ if(c){ R(-9); return; } }while(0)
static int si(J *in, const char *k){ int i = jint(in, k); if(i < 0 || i >= NS) die("slot"); return i; }
/* copies given bytes into memory of the library's allocator, exactly sized */
static char *own(const char *p, long n){ char *b = osc_mem_alloc(n ? n : 1); memcpy(b, p, n); return b; }
static long be4(const char *p){ return (long)(unsigned char)p[0] << 24 | (long)(unsigned char)p[1] << 16 | (long)(unsigned char)p[2] << 8 | (unsigned char)p[3]; }
/* the driver's own walk over the messages: start of message k, NULL past the end */
static char *mstart(int b, int k)
{
	char *p = P[b] + 16;
	while(p < P[b] + L[b] && k-- > 0) p += be4(p) + 4;
	return p < P[b] + L[b] ? p : NULL;
}
static int mcount(int b){ int n = 0; while(mstart(b, n)) n++; return n; }
static int midx(int b, char *p)
{
	if(!p) return -1;
	for(int i = 0; mstart(b, i); i++) if(mstart(b, i) == p) return i;
	return -3;
}
static t_osc_msg_s *wrapped(char *p)
{
	t_osc_msg_s *m = osc_message_s_alloc();
	osc_message_s_wrap(m, p);
	return m;
}

static void s_load(J *in, S *out)
{
	int b = si(in, "b");
	long n;
	char *p = jbytes(jneed(in, "bytes"), &n);
	put(b, own(p, n), n);
	free(p);
	R(0);
}
static void s_free(J *in, S *out){ drop(si(in, "b")); R(0); }
static void s_empty(J *in, S *out)
{
	int b = si(in, "b");
	t_osc_bndl_s *x = osc_bundle_s_allocEmptyBundle();
	put(b, osc_bundle_s_getPtr(x), osc_bundle_s_getLen(x));
	osc_bundle_s_free(x);
	R(0);
}
static void s_copy(J *in, S *out)
{
	int b = si(in, "b"), to = si(in, "to");
	SKIP(!P[b]);
	t_osc_bndl_s *x = osc_bundle_s_alloc(L[b], P[b]), *y = NULL;
	int e = osc_bundle_s_deepCopy(&y, x);
	put(to, osc_bundle_s_getPtr(y), osc_bundle_s_getLen(y));
	osc_bundle_s_free(y);
	osc_bundle_s_free(x);
	R(e);
}
/* everything the reading calls say about one message */
static void msgview(S *out, t_osc_msg_s *m, char *at)
{
	int n = osc_message_s_getArgCount(m);
	char *tt = osc_message_s_getTypetags(m);
	sstr(out, "{\"a\":"); sbytesz(out, osc_message_s_getAddress(m));
	sstr(out, ",\"tt\":"); sbytesz(out, tt);
	sfmt(out, ",\"n\":%d,\"size\":%d,\"data\":%ld,\"ptr\":%d", n, osc_message_s_getSize(m),
	     osc_message_s_getData(m) ? (long)(osc_message_s_getData(m) - at) : -1L, osc_message_s_getPtr(m) == at);
	sstr(out, ",\"tags\":[");
	for(int i = 0; i <= n; i++) sfmt(out, "%s%d", i ? "," : "", osc_message_s_getTypetag(m, i));
	sstr(out, "],\"args\":[");
	S first = {0};
	char **r = calloc(n + 1, sizeof(char *));
	int ok = 1;
	for(int i = 0; i < n; i++){
		t_osc_atom_s *a = NULL;
		osc_message_s_getArg(m, i, &a);
		S x = {0};
		s_atom_s(&x, a);
		sfmt(&x, ",%ld,%ld", a ? (long)osc_atom_s_sizeof(a) : -1L, a ? (long)(osc_atom_s_getData(a) - at) : -1L);
		r[i] = x.p;
		if(i) sstr(out, ",");
		sstr(out, "["); sstr(out, x.p); sstr(out, "]");
		if(a) osc_atom_s_free(a);
	}
#define SAME(i, at_) do{ S x_ = {0}; s_atom_s(&x_, at_); sfmt(&x_, ",%ld,%ld", (at_) ? (long)osc_atom_s_sizeof(at_) : -1L, (at_) ? (long)(osc_atom_s_getData(at_) - at) : -1L); \
	if(strcmp(x_.p, r[i])) ok = 0; free(x_.p); }while(0)
	/* descending, with one atom used again and again, then repeatedly with the offsets cached */
	for(int pass = 0; pass < 2; pass++){
		t_osc_atom_s *a = osc_atom_s_alloc('N', NULL);
		if(pass) osc_message_s_cacheDataOffsets(m);
		for(int i = n - 1; i >= 0; i--){ osc_message_s_getArg(m, i, &a); SAME(i, a); }
		for(int i = 0; i < n; i += 2){ osc_message_s_getArg(m, i, &a); SAME(i, a); }
		osc_atom_s_free(a);
		a = NULL;
		osc_message_s_getArg(m, n, &a);
		if(a) ok = 0;
		t_osc_msg_it_s *it = osc_msg_it_s_get(m);
		for(int round = 0; round < 2; round++){
			int i = 0;
			while(osc_msg_it_s_hasNext(it) && osc_msg_it_s_hasNext(it)){
				t_osc_atom_s *y = osc_msg_it_s_next(it);
				if(i < n && y) SAME(i, y); else{ ok = 0; break; }
				i++;
			}
			if(i != n || osc_msg_it_s_next(it)) ok = 0;
			osc_msg_it_s_reset(it);
		}
		osc_msg_it_s_destroy(it);
	}
	sfmt(out, "],\"ok\":%d}", ok);
	for(int i = 0; i < n; i++) free(r[i]);
	free(r);
	free(first.p);
}
static S *cbout;
static int cbn;
static int cbb;
static void cb(t_osc_msg_s *m, void *ctx)
{
	if(ctx != (void *)&cbb) die("context");
	sfmt(cbout, "%s%d", cbn++ ? "," : "", midx(cbb, osc_message_s_getPtr(m)));
}
static void matches(S *out, int b, t_osc_msg_ar_s *ar)
{
	sstr(out, "[");
	for(int i = 0; ar && i < osc_message_array_s_getLen(ar); i++)
		sfmt(out, "%s%d", i ? "," : "", midx(b, osc_message_s_getPtr(osc_message_array_s_get(ar, i))));
	sstr(out, "]");
	if(ar) osc_message_array_s_free(ar);
}
static void s_look(J *in, S *out)
{
	int b = si(in, "b");
	SKIP(!P[b]);
	char *before = malloc(L[b]);
	memcpy(before, P[b], L[b]);
	BEGIN
	int count = -7;
	int e = osc_bundle_s_getMsgCount(L[b], P[b], &count);
	sfmt(out, "{\"err\":%d,\"count\":%d,\"time\":", e, count);
	s_tt(out, osc_bundle_s_getTimetag(L[b], P[b]));
	t_osc_bndl_s *x = osc_bundle_s_alloc(L[b], P[b]);
	t_osc_msg_s *f = osc_bundle_s_getFirstMsg(x);
	sfmt(out, ",\"first\":%d,\"cb\":[", f ? midx(b, osc_message_s_getPtr(f)) : -1);
	osc_message_s_free(f);
	cbout = out; cbn = 0; cbb = b;
	e = osc_bundle_s_getMessagesWithCallback(L[b], P[b], cb, &cbb);
	sfmt(out, "],\"cberr\":%d,\"msgs\":[", e);
	t_osc_bndl_it_s *it = osc_bndl_it_s_get(L[b], P[b]);
	int i = 0;
	while(osc_bndl_it_s_hasNext(it) && osc_bndl_it_s_hasNext(it)){
		t_osc_msg_s *m = osc_bndl_it_s_next(it);
		if(i++) sstr(out, ",");
		char *p = osc_message_s_getPtr(m);
		if(midx(b, p) != i - 1){ sstr(out, "{\"ok\":-3}"); break; }
		t_osc_msg_s *w = wrapped(p);
		msgview(out, w, p);
		osc_message_s_free(w);
	}
	/* again after a reset */
	osc_bndl_it_s_reset(it);
	int again = 0;
	while(osc_bndl_it_s_hasNext(it) && again <= i) if(midx(b, osc_message_s_getPtr(osc_bndl_it_s_next(it))) != again++) again = -99;
	sfmt(out, "],\"again\":%d,\"q\":[", again);
	osc_bndl_it_s_destroy(it);
	J *q = jneed(in, "q");
	for(int k = 0; k < q->n; k++){
		char *z = jcstr(q->v[k]);
		int v[4] = {-7, -7, -7, -7};
		osc_bundle_s_addressExists(L[b], P[b], z, 1, v);
		osc_bundle_s_addressIsBound(L[b], P[b], z, 1, v + 1);
		osc_bundle_s_addressExists(L[b], P[b], z, 0, v + 2);
		osc_bundle_s_addressIsBound(L[b], P[b], z, 0, v + 3);
		sfmt(out, "%s{\"full\":[%d,%d],\"part\":[%d,%d],\"lf\":", k ? "," : "", v[0], v[1], v[2], v[3]);
		matches(out, b, osc_bundle_s_lookupAddress(L[b], P[b], z, 1));
		sstr(out, ",\"lp\":");
		matches(out, b, osc_bundle_s_lookupAddress_b(x, z, 0));
		sfmt(out, ",\"ff\":%d,\"fe\":%d}", midx(b, osc_bundle_s_getFirstFullMatch(L[b], P[b], z)), midx(b, osc_bundle_s_getFirstEqualAddr(L[b], P[b], z)));
		free(z);
	}
	osc_bundle_s_free(x);
	sfmt(out, "],\"kept\":%d}", !memcmp(before, P[b], L[b]));
	free(before);
	END
}
static void s_append(J *in, S *out)
{
	int b = si(in, "b"), e;
	long n;
	char *mb = jbytes(jneed(in, "m"), &n);
	t_osc_msg_s *m = wrapped(mb);
	if(jint(in, "how")){
		t_osc_bndl_s *x = P[b] ? osc_bundle_s_alloc(L[b], P[b]) : NULL;
		e = osc_bundle_s_appendMessage_b(&x, m);
		P[b] = osc_bundle_s_getPtr(x); L[b] = osc_bundle_s_getLen(x);
		osc_bundle_s_free(x);
	}else e = osc_bundle_s_appendMessage(&L[b], &P[b], m);
	osc_message_s_free(m);
	free(mb);
	R(e);
}
static void s_replace(J *in, S *out)
{
	int b = si(in, "b");
	int c = P[b] ? mcount(b) : 0;
	SKIP(!c);
	long n, extra = jint(in, "extra");
	char *mb = jbytes(jneed(in, "m"), &n);
	t_osc_msg_s *m = wrapped(mb);
	if(extra) P[b] = osc_mem_resize(P[b], L[b] + extra);
	long cap = L[b] + extra, pos = L[b];
	t_osc_msg_s *o = wrapped(mstart(b, jint(in, "k") % c));
	int e = osc_bundle_s_replaceMessage(&cap, &pos, &P[b], o, m);
	L[b] = pos;
	osc_message_s_free(o);
	osc_message_s_free(m);
	free(mb);
	R(e ? e : cap >= pos ? 0 : -5);
}
static void s_remove(J *in, S *out)
{
	int b = si(in, "b");
	SKIP(!P[b]);
	char *z = jcstr(jneed(in, "a"));
	long n = L[b];
	int e = osc_bundle_s_removeMessage(z, &n, P[b], 1);
	P[b] = osc_mem_resize(P[b], n);
	L[b] = n;
	free(z);
	R(e);
}
/* a renamed copy of a message, appended to slot to */
static void s_rename(J *in, S *out)
{
	int b = si(in, "b"), to = si(in, "to");
	int c = P[b] ? mcount(b) : 0;
	SKIP(!c);
	long an;
	char *z = jcstr(jneed(in, "a"));
	an = strlen(z);
	t_osc_msg_s *m = wrapped(mstart(b, jint(in, "k") % c));
	long oldpad = (strlen(osc_message_s_getAddress(m)) + 4) / 4 * 4;
	char *dest = malloc(osc_message_s_getSize(m) + 4 - oldpad + (an + 4) / 4 * 4);
	long n = osc_message_s_renameCopy(dest, m, an, z);
	if(n > 0){
		t_osc_msg_s *w = wrapped(dest);
		osc_bundle_s_appendMessage(&L[to], &P[to], w);
		osc_message_s_free(w);
	}
	osc_message_s_free(m);
	free(dest);
	free(z);
	R(n);
}
static void s_wrap(J *in, S *out)
{
	int b = si(in, "b"), to = si(in, "to");
	int c = P[b] ? mcount(b) : 0;
	SKIP(!c);
	char *p = mstart(b, jint(in, "k") % c);
	long n = be4(p), len = -7;
	char *body = malloc(n);
	memcpy(body, p + 4, n);
	char alloc = 9;
	char *dst = jint(in, "alloc") ? NULL : osc_mem_alloc(n + 20);
	char *given = dst;
	int e = osc_bundle_s_wrapMessage(n, body, &len, &dst, &alloc);
	free(body);
	put(to, dst, len);
	R(e ? e : alloc == (given ? 0 : 1) ? 0 : -5);
}
static void s_settime(J *in, S *out)
{
	int b = si(in, "b");
	SKIP(!P[b]);
	osc_bundle_s_setTimetag(L[b], P[b], tt_of(jneed(in, "t")));
	R(0);
}
static void s_concat(J *in, S *out)
{
	int x = si(in, "x"), y = si(in, "y"), to = si(in, "to");
	long n = L[x] + L[y] - (P[x] && P[y] ? 16 : 0);
	char *d = n > 0 ? osc_mem_alloc(n) : NULL;
	long r = osc_bundle_s_concat(L[x], P[x], L[y], P[y], d);
	if(d) put(to, d, r); else drop(to);
	R(r);
}
static void s_set(J *in, S *out)
{
	int x = si(in, "x"), y = si(in, "y"), to = si(in, "to");
	char *what = jstr(in, "what");
	long n = -7;
	char *d = NULL;
	int e = 0;
	char *cx = malloc(L[x] + 1), *cy = malloc(L[y] + 1);
	memcpy(cx, P[x] ? P[x] : "", L[x]);
	memcpy(cy, P[y] ? P[y] : "", L[y]);
	if(jint(in, "pre") && strcmp(what, "union")){
		long cap = L[x] + L[y] > 16 ? L[x] + L[y] : 16;
		d = osc_mem_alloc(cap);
		memset(d, 0x5a, cap);
	}
	if(!strcmp(what, "union")){
		int w = jint(in, "pre"); // an empty slot as a bundle of no bytes rather than as no bundle
		t_osc_bndl_s *a = P[x] || w ? osc_bundle_s_alloc(L[x], P[x]) : NULL, *b = P[y] || w ? osc_bundle_s_alloc(L[y], P[y]) : NULL;
		t_osc_bndl_s *u = osc_bundle_s_union(a, b);
		d = osc_bundle_s_getPtr(u); n = osc_bundle_s_getLen(u);
		osc_bundle_s_free(u); osc_bundle_s_free(a); osc_bundle_s_free(b);
	}else if(!strcmp(what, "inter")) e = osc_bundle_s_intersection(L[x], P[x], L[y], P[y], &n, &d);
	else e = osc_bundle_s_difference(L[x], P[x], L[y], P[y], &n, &d);
	if((P[x] && memcmp(cx, P[x], L[x])) || (P[y] && memcmp(cy, P[y], L[y]))) e = -5;
	free(cx); free(cy);
	if(d) put(to, own(d, n), n); else drop(to);
	if(d) osc_mem_free(d);
	R(e);
}
static void s_check(J *in, S *out)
{
	long n;
	char *p = jbytes(jneed(in, "bytes"), &n);
	char *q = malloc(n ? n : 1);
	memcpy(q, p, n);
	int e = osc_error_bundleSanityCheck(n, p);
	int count = -7;
	int c = osc_bundle_s_getMsgCount(n, p, &count);
	sfmt(out, "[%d,%d,%d,%d]", e, c, count, !memcmp(p, q, n));
	free(p); free(q);
}
static void s_checkmsg(J *in, S *out)
{
	long n;
	char *p = jbytes(jneed(in, "bytes"), &n);
	sfmt(out, "%d", osc_error_msgSanityCheck(p));
	free(p);
}
static void s_checkaddr(J *in, S *out)
{
	char *z = jcstr(jneed(in, "a"));
	sfmt(out, "%d", osc_error_validateAddress(z));
	free(z);
}
static OP ops[] = {
	{"s_load", s_load}, {"s_free", s_free}, {"s_empty", s_empty}, {"s_copy", s_copy}, {"s_look", s_look},
	{"s_append", s_append}, {"s_replace", s_replace}, {"s_remove", s_remove}, {"s_rename", s_rename},
	{"s_wrap", s_wrap}, {"s_settime", s_settime}, {"s_concat", s_concat}, {"s_set", s_set},
	{"s_check", s_check}, {"s_checkmsg", s_checkmsg}, {"s_checkaddr", s_checkaddr}, {NULL, NULL}
};
void fam_sbun(void){ reg(ops); regreset(reset); }
