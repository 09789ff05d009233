/* evaluating expressions over a bundle */
#include "vals.h"
#include "osc_expr.h"
#include "osc_expr_parser.h"
static void op_ev(J *in, S *out)
{
	t_osc_bndl_u *b = bndl_new(jneed(in, "b"));
	t_osc_bndl_s *s = osc_bundle_u_serialize(b);
	osc_bundle_u_free(b);
	long len = osc_bundle_s_getLen(s);
	char *ptr = osc_bundle_s_getPtr(s), *text = jcstr(jneed(in, "text"));
	osc_bundle_s_free(s);
	osc_bundle_s_setTimetag(len, ptr, tt_of(jneed(in, "t")));
	t_osc_expr *e = NULL;
	t_osc_err pe = osc_expr_parser_parseExpr(text, &e, NULL);
	free(text);
	int n = 0, err = 0;
	for(t_osc_expr *x = e; x; x = osc_expr_next(x)) n++;
	t_osc_atom_ar_u *ar = NULL;
	if(!pe) for(t_osc_expr *x = e; x && !err; x = osc_expr_next(x)){
		if(ar) osc_atom_array_u_free(ar);
		ar = NULL;
		err = osc_expr_eval(x, &len, &ptr, &ar, NULL);
	}
	sfmt(out, "{\"parse\":%d,\"n\":%d,\"err\":%d,\"out\":[", pe != 0, n, err != 0);
	if(ar && !err) for(int i = 0; i < osc_atom_array_u_getLen(ar); i++){
		if(i) sstr(out, ",");
		s_atom_u(out, osc_atom_array_u_get(ar, i));
	}
	if(ar) osc_atom_array_u_free(ar);
	osc_expr_free(e);
	sstr(out, "],\"b\":");
	b = NULL;
	b = osc_bundle_s_deserialize(len, ptr);
	s_bndl_u(out, b);
	osc_bundle_u_free(b);
	sstr(out, ",\"t\":");
	s_tt(out, osc_bundle_s_getTimetag(len, ptr));
	sstr(out, "}");
	osc_mem_free(ptr);
}
static OP T[] = {{"ev", op_ev}, {0}};
void fam_expr(void){ reg(T); }
