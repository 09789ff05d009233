#include "core.h"
#include "osc.h"
#include "osc_match.h"

/* exactly sized copies, so that any read past the terminator is an ASan report */
static char *codes(J *a)
{
	char *b = malloc(a->n + 1);
	for(int i = 0; i < a->n; i++) b[i] = (char)a->v[i]->i;
	b[a->n] = 0;
	return b;
}
static char *addrs[4096];
static int naddrs;
static void one(S *out, const char *p, const char *a)
{
	int po = -7, ao = -7;
	int r = osc_match(p, a, &po, &ao);
	sfmt(out, "[%d,%d,%d]", r, po, ao);
}
static void op_match(J *in, S *out)
{
	char *p = codes(jneed(in, "p")), *a = codes(jneed(in, "a"));
	one(out, p, a);
	free(p);
	free(a);
}
static void op_addrs(J *in, S *out)
{
	J *l = jneed(in, "as");
	for(int i = 0; i < naddrs; i++) free(addrs[i]);
	for(naddrs = 0; naddrs < l->n; naddrs++) addrs[naddrs] = codes(l->v[naddrs]);
	sfmt(out, "%d", naddrs);
}
static void op_matchall(J *in, S *out)
{
	char *p = codes(jneed(in, "p"));
	sstr(out, "[");
	for(int i = 0; i < naddrs; i++){
		if(i) sstr(out, ",");
		one(out, p, addrs[i]);
	}
	sstr(out, "]");
	free(p);
}
static OP T[] = {{"match", op_match}, {"addrs", op_addrs}, {"matchall", op_matchall}, {0}};
void fam_match(void){ reg(T); }
