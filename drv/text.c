/* bundles as text */
#include "vals.h"
#include "osc_parser.h"
typedef long (*nfn)(char *, long, void *);
static long bu(char *z, long n, void *b){ return osc_bundle_u_nformat(z, n, b, 0); }
static long bs(char *z, long n, void *b){ return osc_bundle_s_nformat(z, n, osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b), 0); }
static long mu(char *z, long n, void *m){ return osc_message_u_nformat(z, n, m, 0); }
static long ms(char *z, long n, void *m){ return osc_message_s_nformat(z, n, m, 0); }
/* what a buffer of n bytes gets */
static void cut(S *out, const char *k, nfn f, void *p, long n)
{
	char *z = malloc(n);
	if(n) memset(z, '#', n);
	long r = f(z, n, p);
	sfmt(out, ",\"%s\":{\"r\":%ld,\"t\":", k, r);
	sbytes(out, z, n ? strnlen(z, n) : 0);
	sfmt(out, ",\"end\":%d}", n == 0 || strnlen(z, n) < (size_t)n);
	free(z);
}
static void text(S *out, const char *k, char *t)
{
	sfmt(out, "\"%s\":", k);
	sbytesz(out, t);
	sstr(out, ",");
	osc_mem_free(t);
}
static void readback(S *out, char *s)
{
	t_osc_bndl_u *b = NULL;
	t_osc_err e = osc_parser_parseString(strlen(s), s, &b);
	sfmt(out, "{\"err\":%d,\"b\":", e != 0);
	s_bndl_u(out, b);
	sstr(out, "}");
	osc_bundle_u_free(b);
}
static void op_fmt(J *in, S *out)
{
	t_osc_bndl_u *b = bndl_new(jneed(in, "b"));
	t_osc_bndl_s *s = osc_bundle_u_serialize(b);
	long n = jint(in, "n");
	char *t = osc_bundle_u_format(b), *copy = strdup(t);
	sstr(out, "{");
	text(out, "u", t);
	text(out, "s", osc_bundle_s_format(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s)));
	text(out, "p", osc_bundle_s_pformat(s));
	sfmt(out, "\"size\":[%ld,%ld]", osc_bundle_u_getFormattedSize(b), osc_bundle_s_getFormattedSize(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s)));
	cut(out, "un", bu, b, n);
	cut(out, "sn", bs, s, n);
	sstr(out, ",\"m\":[");
	t_osc_bndl_it_u *iu = osc_bndl_it_u_get(b);
	t_osc_bndl_it_s *is = osc_bndl_it_s_get(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s));
	for(int i = 0; osc_bndl_it_u_hasNext(iu) && osc_bndl_it_s_hasNext(is); i++){
		t_osc_msg_u *u = osc_bndl_it_u_next(iu);
		t_osc_msg_s *m = osc_bndl_it_s_next(is);
		sstr(out, i ? ",{" : "{");
		text(out, "u", osc_message_u_format(u));
		text(out, "s", osc_message_s_format(m));
		sfmt(out, "\"size\":[%ld,%ld]", osc_message_u_getFormattedSize(u), osc_message_s_getFormattedSize(m));
		cut(out, "un", mu, u, n);
		cut(out, "sn", ms, m, n);
		sstr(out, "}");
	}
	osc_bndl_it_u_destroy(iu);
	osc_bndl_it_s_destroy(is);
	sstr(out, "],\"back\":");
	readback(out, copy);
	sstr(out, "}");
	free(copy);
	osc_bundle_s_deepFree(s);
	osc_bundle_u_free(b);
}
static void op_read(J *in, S *out)
{
	char *s = jcstr(jneed(in, "s"));
	readback(out, s);
	free(s);
}
static OP T[] = {{"fmt", op_fmt}, {"read", op_read}, {0}};
void fam_text(void){ reg(T); }
