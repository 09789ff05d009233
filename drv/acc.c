/* single arguments: accessors in both forms, text, setters, copies */
#include "vals.h"
#define NA 4
static t_osc_atom_u *A[NA];
static char *wire(t_osc_atom_u *a, long *n)
{
	*n = osc_atom_u_getSerializedSize(a);
	char *b = malloc(*n ? *n : 1);
	osc_atom_u_nserialize(b, *n, a);
	return b;
}
static void num(S *s, const char *k, uint64_t v, int n, int first)
{
	sfmt(s, first ? "\"%s\":" : ",\"%s\":", k);
	sbe(s, v, n);
}
static uint64_t fb(float f){ uint32_t i; memcpy(&i, &f, 4); return i; }
static uint64_t db(double f){ uint64_t i; memcpy(&i, &f, 8); return i; }
#define READ(s, X, a) do{ \
	sput(s, "{", 1); \
	num(s, "f", fb(X##getFloat(a)), 4, 1); \
	num(s, "d", db(X##getDouble(a)), 8, 0); \
	num(s, "c", (uint8_t)X##getInt8(a), 1, 0); \
	num(s, "C", X##getUInt8(a), 1, 0); \
	num(s, "u", (uint16_t)X##getInt16(a), 2, 0); \
	num(s, "U", X##getUInt16(a), 2, 0); \
	num(s, "i", (uint32_t)X##getInt32(a), 4, 0); \
	num(s, "I", X##getUInt32(a), 4, 0); \
	num(s, "h", (uint64_t)X##getInt64(a), 8, 0); \
	num(s, "H", X##getUInt64(a), 8, 0); \
	num(s, "n", (uint32_t)X##getInt(a), 4, 0); \
	sfmt(s, ",\"z\":%d,\"t\":", X##getBool(a)); \
	s_tt(s, X##getTimetag(a)); \
	sput(s, "}", 1); }while(0)
static void op_acc(J *in, S *out)
{
	t_osc_atom_u *u = atom_new(jneed(in, "x"));
	long n;
	char *w = wire(u, &n);
	t_osc_atom_s *s = osc_atom_s_alloc(osc_atom_u_getTypetag(u), w);
	sstr(out, "{\"u\":");
	READ(out, osc_atom_u_, u);
	sstr(out, ",\"s\":");
	READ(out, osc_atom_s_, s);
	sfmt(out, ",\"size\":[%ld,%ld]}", osc_atom_u_getSerializedSize(u), n);
	osc_atom_s_free(s);
	osc_atom_u_free(u);
	free(w);
}
/* getStringLen, getString into a fresh buffer, getString into a buffer of n bytes (exactly sized, filled with '#') */
#define TEXT(s, X, a, n) do{ \
	char *z = NULL; \
	int r = X##getString(a, 0, &z); \
	sfmt(s, "{\"len\":%d,\"r\":%d,\"all\":", X##getStringLen(a), r); \
	sbytes(s, z ? z : "", z && r >= 0 ? r + 1 : 0); \
	osc_mem_free(z); \
	char *b = malloc(n ? n : 1), *bb = b; \
	memset(b, '#', n); \
	r = X##getString(a, n, &bb); \
	sfmt(s, ",\"rn\":%d,\"n\":", r); \
	sbytes(s, b, n); \
	free(b); \
	sput(s, "}", 1); }while(0)
static void op_text(J *in, S *out)
{
	t_osc_atom_u *u = atom_new(jneed(in, "x"));
	long n, k = jint(in, "n");
	char *w = wire(u, &n);
	t_osc_atom_s *s = osc_atom_s_alloc(osc_atom_u_getTypetag(u), w);
	sstr(out, "{\"u\":");
	TEXT(out, osc_atom_u_, u, k);
	sstr(out, ",\"s\":");
	TEXT(out, osc_atom_s_, s, k);
	sput(out, "}", 1);
	osc_atom_s_free(s);
	osc_atom_u_free(u);
	free(w);
}
/* blob copies, into fresh memory and into a large enough buffer */
static void blobres(S *out, const char *k, char *b, long len)
{
	long n = b ? (long)((uint32_t)(uint8_t)b[0] << 24 | (uint8_t)b[1] << 16 | (uint8_t)b[2] << 8 | (uint8_t)b[3]) : -1;
	sfmt(out, "\"%s\":", k);
	if(n < 0 || n + 4 > len) sfmt(out, "[-1,%ld,%ld]", n, len);
	else sbytes(out, b + 4, n);
}
static void op_blob(J *in, S *out)
{
	t_osc_atom_u *u = atom_new(jneed(in, "x"));
	long n, k = jint(in, "room");
	char *w = wire(u, &n);
	t_osc_atom_s *s = osc_atom_s_alloc(osc_atom_u_getTypetag(u), w);
	char *b = NULL;
	int32_t l = 0;
	sput(out, "{", 1);
	osc_atom_u_getBlobCopy(u, &l, &b);
	blobres(out, "u", b, l);
	osc_mem_free(b);
	b = NULL; l = 0;
	osc_atom_s_getBlobCopy(&b, &l, s);
	sput(out, ",", 1);
	blobres(out, "s", b, l);
	osc_mem_free(b);
	l = k;
	b = malloc(k);
	osc_atom_u_getBlobCopy(u, &l, &b);
	sput(out, ",", 1);
	blobres(out, "ub", b, l);
	l = k;
	osc_atom_s_getBlobCopy(&b, &l, s);
	sput(out, ",", 1);
	blobres(out, "sb", b, l);
	free(b);
	sfmt(out, ",\"isblob\":[%d,%d]}", osc_atom_u_getBlob(u) != NULL, osc_atom_s_getBlob(s) != NULL);
	osc_atom_s_free(s);
	osc_atom_u_free(u);
	free(w);
}
/* ---- a table of atoms ---- */
static void all(S *out)
{
	sstr(out, "[");
	for(int i = 0; i < NA; i++){ if(i) sput(out, ",", 1); if(A[i]) s_atom_u(out, A[i]); else sstr(out, "{\"t\":\"nil\",\"v\":[]}"); }
	sstr(out, "]");
}
static void op_aset(J *in, S *out)
{
	int k = jint(in, "k"), alt = jintd(in, "alt", 0);
	J *x = jneed(in, "x");
	char t = jstr(x, "t")[0];
	J *v = jneed(x, "v");
	if(!A[k]) A[k] = osc_atom_u_alloc();
	if(alt && t == 'T') osc_atom_u_setBool(A[k], 7);
	else if(alt && t == 'F') osc_atom_u_setBool(A[k], 0);
	else if(alt && t == 's'){ char *z = jcstr(v); char *o = osc_mem_alloc(strlen(z) + 1); strcpy(o, z); free(z); osc_atom_u_setStringPtr(A[k], o); osc_atom_u_setShouldFreePtr(A[k], 1); }
	else if(alt && t == '.'){ long n; char *b = jbytes(v, &n); osc_atom_u_setBndl_u(A[k], osc_bundle_s_deserialize(n, b)); free(b); }
	else atom_set(A[k], x);
	all(out);
}
static void op_acopy(J *in, S *out)
{
	int k = jint(in, "k"), j = jint(in, "j");
	if(A[j]){
		if(!A[k]) A[k] = osc_atom_u_copy(A[j]);
		else osc_atom_u_copyInto(&A[k], A[j]);
	}
	all(out);
}
static void op_aneg(J *in, S *out){ osc_atom_u_negate(A[jint(in, "k")]); all(out); }
static void op_afree(J *in, S *out){ int k = jint(in, "k"); osc_atom_u_free(A[k]); A[k] = NULL; all(out); }
static void op_aser(J *in, S *out)
{
	/* through the wire and back */
	int k = jint(in, "k"), j = jint(in, "j");
	if(A[j]){
		t_osc_atom_s *s = osc_atom_u_serialize(A[j]);
		if(A[k]) osc_atom_s_deserializeInto(&A[k], s); else A[k] = osc_atom_s_deserialize(s);
		osc_mem_free(osc_atom_s_getData(s));
		osc_atom_s_free(s);
	}
	all(out);
}
/* ---- serialised atoms in place ---- */
static void op_sset(J *in, S *out)
{
	/* a buffer that holds the old value, written over with the new one, whose wire form is not longer */
	t_osc_atom_u *u = atom_new(jneed(in, "x")), *v = atom_new(jneed(in, "y"));
	long n;
	char *w = wire(u, &n);
	t_osc_atom_s *s = osc_atom_s_alloc(osc_atom_u_getTypetag(u), jintd(in, "fresh", 0) ? NULL : w);
	switch(osc_atom_u_getTypetag(v)){
	case 'c': osc_atom_s_setInt8(s, osc_atom_u_getInt8(v)); break;
	case 'C': osc_atom_s_setUInt8(s, osc_atom_u_getUInt8(v)); break;
	case 'u': osc_atom_s_setInt16(s, osc_atom_u_getInt16(v)); break;
	case 'U': osc_atom_s_setUInt16(s, osc_atom_u_getUInt16(v)); break;
	case 'i': osc_atom_s_setInt32(s, osc_atom_u_getInt32(v)); break;
	case 'I': osc_atom_s_setUInt32(s, osc_atom_u_getUInt32(v)); break;
	case 'h': osc_atom_s_setInt64(s, osc_atom_u_getInt64(v)); break;
	case 'H': osc_atom_s_setUInt64(s, osc_atom_u_getUInt64(v)); break;
	case 'f': osc_atom_s_setFloat(s, osc_atom_u_getFloat(v)); break;
	case 'd': osc_atom_s_setDouble(s, osc_atom_u_getDouble(v)); break;
	case 's': osc_atom_s_setString(s, osc_atom_u_getStringPtr(v)); break;
	case 'T': osc_atom_s_setTrue(s); break;
	case 'F': osc_atom_s_setFalse(s); break;
	case 'N': osc_atom_s_setNil(s); break;
	case 't': osc_atom_s_setTimetag(s, osc_atom_u_getTimetag(v)); break;
	}
	if(jintd(in, "neg", 0)) osc_atom_s_negate(s);
	s_atom_s(out, s);
	if(osc_atom_s_getData(s) != w) osc_mem_free(osc_atom_s_getData(s));
	osc_atom_s_free(s);
	osc_atom_u_free(u);
	osc_atom_u_free(v);
	free(w);
}
static void op_sneg(J *in, S *out)
{
	t_osc_atom_u *u = atom_new(jneed(in, "x"));
	long n;
	char *w = wire(u, &n);
	t_osc_atom_s *s = osc_atom_s_alloc(osc_atom_u_getTypetag(u), w);
	osc_atom_s_negate(s);
	s_atom_s(out, s);
	osc_atom_s_free(s);
	osc_atom_u_free(u);
	free(w);
}
static void areset(void){ for(int i = 0; i < NA; i++){ osc_atom_u_free(A[i]); A[i] = NULL; } }
static OP T[] = {{"acc", op_acc}, {"text", op_text}, {"blob", op_blob}, {"aset", op_aset}, {"acopy", op_acopy}, {"aneg", op_aneg}, {"afree", op_afree},
	{"aser", op_aser}, {"sset", op_sset}, {"sneg", op_sneg}, {0}};
void fam_acc(void){ reg(T); regreset(areset); }
