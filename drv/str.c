/* quoting and measuring strings */
#include "vals.h"
#include "osc_strfmt.h"
#include "osc_util.h"
int osc_strfmt_addQuotes(int len, char *buf, char **out);
typedef int (*sfn)(char *, size_t, char *);
static void fmt1(S *out, const char *k, sfn f, char *s, long n)
{
	int full = f(NULL, 0, s);
	char *z = malloc(n + 1);
	memset(z, '#', n + 1);
	int r = f(z, n, s);
	int over = z[n] != '#';
	sfmt(out, ",\"%s\":{\"full\":%d,\"r\":%d,\"over\":%d,\"end\":%d,\"t\":", k, full, r, over, n == 0 || strnlen(z, n) < (size_t)n);
	sbytes(out, z, n ? strnlen(z, n) : 0);
	sstr(out, "}");
	free(z);
}
typedef int (*qfn)(int, char *, char **);
static void quote1(S *out, const char *k, qfn f, char *s, int len, int given)
{
	char *o = given ? malloc(2 * len + 3) : NULL, *mine = o;
	int r = f(len, s, &o);
	sfmt(out, ",\"%s\":{\"r\":%d,\"t\":", k, r);
	sbytesz(out, o);
	sstr(out, "}");
	if(mine) free(mine); else osc_mem_free(o);
}
static void op_quote(J *in, S *out)
{
	char *s = jcstr(jneed(in, "s"));
	int len = strlen(s);
	char *exact = malloc(len + 1);
	memcpy(exact, s, len + 1);
	long n = jint(in, "n");
	sfmt(out, "{\"meta\":%d,\"is\":[", osc_strfmt_countMeta(len, exact));
	for(int i = 0; i < len; i++) sfmt(out, i ? ",%d" : "%d", osc_strfmt_isMeta(s[i]) != 0);
	sfmt(out, "],\"pad\":[%d,%ld]", osc_strfmt_strlenPadded(exact), (long)osc_util_getPaddedStringLen(exact));
	fmt1(out, "q", osc_strfmt_quotedString, exact, n);
	fmt1(out, "m", osc_strfmt_stringWithQuotedMeta, exact, n);
	fmt1(out, "qm", osc_strfmt_quotedStringWithQuotedMeta, exact, n);
	quote1(out, "aq", osc_strfmt_addQuotes, exact, len, n & 1);
	quote1(out, "aqm", osc_strfmt_addQuotesAndQuoteMeta, exact, len, n & 1);
	char *d = NULL;
	int r = osc_util_strdup(&d, exact);
	sfmt(out, ",\"dup\":{\"r\":%d,\"t\":", r);
	sbytesz(out, d);
	sstr(out, "}}");
	osc_mem_free(d);
	free(exact);
	free(s);
}
static OP T[] = {{"quote", op_quote}, {0}};
void fam_str(void){ reg(T); }
