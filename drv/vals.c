#include "vals.h"

char *jbytes(J *a, long *n)
{
	if(a->t != 'a') die("expected bytes");
	char *b = malloc(a->n ? a->n : 1);
	for(int i = 0; i < a->n; i++) b[i] = (char)a->v[i]->i;
	*n = a->n;
	return b;
}
char *jcstr(J *a)
{
	if(a->t == 'n') return NULL;
	if(a->t == 's') return strdup(a->s);
	if(a->n == 1 && a->v[0]->i == -1) return NULL;
	char *b = malloc(a->n + 1);
	for(int i = 0; i < a->n; i++) b[i] = (char)a->v[i]->i;
	b[a->n] = 0;
	return b;
}
void sbytes(S *s, const void *p, long n)
{
	const unsigned char *b = p;
	sput(s, "[", 1);
	for(long i = 0; i < n; i++) sfmt(s, i ? ",%u" : "%u", b[i]);
	sput(s, "]", 1);
}
void sbytesz(S *s, const char *z){ if(z) sbytes(s, z, strlen(z)); else sstr(s, "[-1]"); }
uint64_t jbe(J *a)
{
	uint64_t v = 0;
	for(int i = 0; i < a->n; i++) v = v << 8 | (a->v[i]->i & 255);
	return v;
}
void sbe(S *s, uint64_t v, int bytes)
{
	unsigned char b[8];
	for(int i = 0; i < bytes; i++) b[i] = v >> (8 * (bytes - 1 - i));
	sbytes(s, b, bytes);
}
t_osc_timetag tt_of(J *bytes)
{
	uint64_t v = jbe(bytes);
	char b[8];
	for(int i = 0; i < 8; i++) b[i] = v >> (8 * (7 - i));
	return osc_timetag_decodeFromHeader(b);
}
void s_tt(S *s, t_osc_timetag t)
{
	sbe(s, ((uint64_t)osc_timetag_ntp_getSeconds(t) << 32) | osc_timetag_ntp_getFraction(t), 8);
}
static float fl(uint32_t i){ float f; memcpy(&f, &i, 4); return f; }
static double db(uint64_t i){ double f; memcpy(&f, &i, 8); return f; }
/* a blob argument: 4-byte size then the data, in an exactly sized buffer */
static char *blobbuf(J *v)
{
	long n;
	char *d = jbytes(v, &n);
	char *b = malloc(n + 4);
	b[0] = n >> 24; b[1] = n >> 16; b[2] = n >> 8; b[3] = n;
	memcpy(b + 4, d, n);
	free(d);
	return b;
}
void atom_set(t_osc_atom_u *a, J *j)
{
	J *v = jneed(j, "v");
	switch(jstr(j, "t")[0]){
	case 'c': osc_atom_u_setInt8(a, (int8_t)jbe(v)); break;
	case 'C': osc_atom_u_setUInt8(a, (uint8_t)jbe(v)); break;
	case 'u': osc_atom_u_setInt16(a, (int16_t)jbe(v)); break;
	case 'U': osc_atom_u_setUInt16(a, (uint16_t)jbe(v)); break;
	case 'i': osc_atom_u_setInt32(a, (int32_t)jbe(v)); break;
	case 'I': osc_atom_u_setUInt32(a, (uint32_t)jbe(v)); break;
	case 'h': osc_atom_u_setInt64(a, (int64_t)jbe(v)); break;
	case 'H': osc_atom_u_setUInt64(a, jbe(v)); break;
	case 'f': osc_atom_u_setFloat(a, fl(jbe(v))); break;
	case 'd': osc_atom_u_setDouble(a, db(jbe(v))); break;
	case 's': { char *z = jcstr(v); osc_atom_u_setString(a, z); free(z); break; }
	case 'T': osc_atom_u_setTrue(a); break;
	case 'F': osc_atom_u_setFalse(a); break;
	case 'N': osc_atom_u_setNil(a); break;
	case 't': osc_atom_u_setTimetag(a, tt_of(v)); break;
	case 'b': { char *b = blobbuf(v); osc_atom_u_setBlob(a, b); free(b); break; }
	case '.': { long n; char *b = jbytes(v, &n); osc_atom_u_setBndl(a, n, b); free(b); break; }
	default: die("bad type");
	}
}
t_osc_atom_u *atom_new(J *v)
{
	t_osc_atom_u *a = osc_atom_u_alloc();
	atom_set(a, v);
	return a;
}
#define ADD(NAME, VAL) (where == 'a' ? osc_message_u_append##NAME(m, VAL) : where == 'p' ? osc_message_u_prepend##NAME(m, VAL) : osc_message_u_insert##NAME(m, VAL, pos))
#define ADD0(NAME) (where == 'a' ? osc_message_u_append##NAME(m) : where == 'p' ? osc_message_u_prepend##NAME(m) : osc_message_u_insert##NAME(m, pos))
#define ADD2(NAME, V1, V2) (where == 'a' ? osc_message_u_append##NAME(m, V1, V2) : where == 'p' ? osc_message_u_prepend##NAME(m, V1, V2) : osc_message_u_insert##NAME(m, V1, V2, pos))
t_osc_atom_u *msg_add(t_osc_msg_u *m, J *j, char where, int pos, int alt)
{
	J *v = jneed(j, "v");
	if(alt == 3){ /* the generic calls */
		t_osc_atom_u *a = atom_new(j);
		if(where == 'a') osc_message_u_appendAtom(m, a);
		else if(where == 'p') osc_message_u_prependAtom(m, a);
		else osc_message_u_insertAtom(m, a, pos);
		return a;
	}
	switch(jstr(j, "t")[0]){
	case 'c': return ADD(Int8, (int8_t)jbe(v));
	case 'C': return ADD(UInt8, (uint8_t)jbe(v));
	case 'u': return ADD(Int16, (int16_t)jbe(v));
	case 'U': return ADD(UInt16, (uint16_t)jbe(v));
	case 'i': return ADD(Int32, (int32_t)jbe(v));
	case 'I': return ADD(UInt32, (uint32_t)jbe(v));
	case 'h': return ADD(Int64, (int64_t)jbe(v));
	case 'H': return ADD(UInt64, jbe(v));
	case 'f': return ADD(Float, fl(jbe(v)));
	case 'd': return ADD(Double, db(jbe(v)));
	case 's': {
		char *z = jcstr(v);
		t_osc_atom_u *a;
		if(alt == 1 && where != 'i'){
			/* the pointer variants hand the string over; the atom frees it */
			char *own = osc_mem_alloc(strlen(z) + 1);
			strcpy(own, z);
			{ a = ADD(StringPtr, own); osc_atom_u_setShouldFreePtr(a, 1); }
		}else a = ADD(String, z);
		free(z);
		return a;
	}
	case 'T': return alt == 1 ? ADD(Bool, 1) : alt == 2 ? ADD(Bool, -5) : ADD0(True);
	case 'F': return alt == 1 ? ADD(Bool, 0) : ADD0(False);
	case 'N': return ADD0(Nil);
	case 't': return ADD(Timetag, tt_of(v));
	case 'b': { char *b = blobbuf(v); t_osc_atom_u *a = ADD(Blob, b); free(b); return a; }
	case '.': {
		long n;
		char *b = jbytes(v, &n);
		t_osc_atom_u *a;
		if(alt == 1) a = ADD2(Bndl_s, n, b);
		else if(alt == 2){ t_osc_bndl_u *u = osc_bundle_s_deserialize(n, b); a = ADD(Bndl_u, u); }
		else a = ADD2(Bndl, n, b);
		free(b);
		return a;
	}
	default: die("bad type");
	}
	return NULL;
}
t_osc_msg_u *msg_new(J *v)
{
	t_osc_msg_u *m = osc_message_u_alloc();
	char *a = jcstr(jneed(v, "a"));
	osc_message_u_setAddress(m, a);
	free(a);
	J *d = jneed(v, "d");
	for(int i = 0; i < d->n; i++) msg_add(m, d->v[i], 'a', 0, 3);
	return m;
}
t_osc_bndl_u *bndl_new(J *v)
{
	t_osc_bndl_u *b = osc_bundle_u_alloc();
	for(int i = 0; i < v->n; i++) osc_bundle_u_addMsg(b, msg_new(v->v[i]));
	return b;
}
static void val(S *s, char t)
{
	char b[3] = {t, 0};
	sfmt(s, "{\"t\":\"%s\",\"v\":", t > 32 && t != '"' && t != '\\' ? b : "?");
}
void s_atom_u(S *s, t_osc_atom_u *a)
{
	if(!a){ sstr(s, "{\"t\":\"null\",\"v\":[]}"); return; }
	char t = osc_atom_u_getTypetag(a);
	val(s, t);
	switch(t){
	case 'c': sbe(s, (uint32_t)(int32_t)osc_atom_u_getInt8(a), 4); break;
	case 'C': sbe(s, osc_atom_u_getUInt8(a), 4); break;
	case 'u': sbe(s, (uint32_t)(int32_t)osc_atom_u_getInt16(a), 4); break;
	case 'U': sbe(s, osc_atom_u_getUInt16(a), 4); break;
	case 'i': sbe(s, (uint32_t)osc_atom_u_getInt32(a), 4); break;
	case 'I': sbe(s, osc_atom_u_getUInt32(a), 4); break;
	case 'h': sbe(s, (uint64_t)osc_atom_u_getInt64(a), 8); break;
	case 'H': sbe(s, osc_atom_u_getUInt64(a), 8); break;
	case 'f': { float f = osc_atom_u_getFloat(a); uint32_t i; memcpy(&i, &f, 4); sbe(s, i, 4); break; }
	case 'd': { double f = osc_atom_u_getDouble(a); uint64_t i; memcpy(&i, &f, 8); sbe(s, i, 8); break; }
	case 's': sbytesz(s, osc_atom_u_getStringPtr(a)); break;
	case 't': s_tt(s, osc_atom_u_getTimetag(a)); break;
	case 'b': sbytes(s, osc_atom_u_getBlob(a) + 4, osc_atom_u_getBlobLen(a)); break;
	case '.': {
		t_osc_bndl_s *b = osc_bundle_u_serialize(osc_atom_u_getBndl(a));
		if(!b) sstr(s, "[-1]");
		else{
			sbytes(s, osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b));
			osc_bundle_s_deepFree(b);
		}
		break;
	}
	default: sstr(s, "[]"); break;
	}
	sput(s, "}", 1);
}
void s_msg_u(S *s, t_osc_msg_u *m)
{
	if(!m){ sstr(s, "{\"a\":[-1],\"d\":[]}"); return; }
	sstr(s, "{\"a\":");
	sbytesz(s, osc_message_u_getAddress(m));
	sstr(s, ",\"d\":[");
	t_osc_msg_it_u *it = osc_msg_it_u_get(m);
	int i = 0;
	while(osc_msg_it_u_hasNext(it)){
		if(i++) sput(s, ",", 1);
		s_atom_u(s, osc_msg_it_u_next(it));
	}
	osc_msg_it_u_destroy(it);
	sstr(s, "]}");
}
void s_bndl_u(S *s, t_osc_bndl_u *b)
{
	sstr(s, "[");
	if(b){
		t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
		int i = 0;
		while(osc_bndl_it_u_hasNext(it)){
			if(i++) sput(s, ",", 1);
			s_msg_u(s, osc_bndl_it_u_next(it));
		}
		osc_bndl_it_u_destroy(it);
	}
	sstr(s, "]");
}
void s_atom_s(S *s, t_osc_atom_s *a)
{
	if(!a){ sstr(s, "{\"t\":\"null\",\"v\":[]}"); return; }
	char t = osc_atom_s_getTypetag(a);
	val(s, t);
	switch(t){
	case 'c': sbe(s, (uint32_t)(int32_t)osc_atom_s_getInt8(a), 4); break;
	case 'C': sbe(s, osc_atom_s_getUInt8(a), 4); break;
	case 'u': sbe(s, (uint32_t)(int32_t)osc_atom_s_getInt16(a), 4); break;
	case 'U': sbe(s, osc_atom_s_getUInt16(a), 4); break;
	case 'i': sbe(s, (uint32_t)osc_atom_s_getInt32(a), 4); break;
	case 'I': sbe(s, osc_atom_s_getUInt32(a), 4); break;
	case 'h': sbe(s, (uint64_t)osc_atom_s_getInt64(a), 8); break;
	case 'H': sbe(s, osc_atom_s_getUInt64(a), 8); break;
	case 'f': { float f = osc_atom_s_getFloat(a); uint32_t i; memcpy(&i, &f, 4); sbe(s, i, 4); break; }
	case 'd': { double f = osc_atom_s_getDouble(a); uint64_t i; memcpy(&i, &f, 8); sbe(s, i, 8); break; }
	case 's': {
		char *z = NULL;
		int n = osc_atom_s_getString(a, 0, &z);
		if(z && n == (int)strlen(z)) sbytesz(s, z); else sstr(s, "[-2]");
		osc_mem_free(z);
		break;
	}
	case 't': s_tt(s, osc_atom_s_getTimetag(a)); break;
	case 'b': sbytes(s, osc_atom_s_getBlob(a) + 4, osc_atom_s_getBlobLen(a)); break;
	case '.': {
		t_osc_bndl_s *b = osc_atom_s_getBndl(a);
		if(!b) sstr(s, "[-1]");
		else{
			sbytes(s, osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b));
			osc_bundle_s_free(b);
		}
		break;
	}
	default: sstr(s, "[]"); break;
	}
	sput(s, "}", 1);
}
void s_msg_s(S *s, t_osc_msg_s *m)
{
	if(!m){ sstr(s, "{\"a\":[-1],\"d\":[]}"); return; }
	sstr(s, "{\"a\":");
	sbytesz(s, osc_message_s_getAddress(m));
	sstr(s, ",\"d\":[");
	t_osc_msg_it_s *it = osc_msg_it_s_get(m);
	int i = 0;
	while(osc_msg_it_s_hasNext(it)){
		if(i++) sput(s, ",", 1);
		s_atom_s(s, osc_msg_it_s_next(it));
	}
	osc_msg_it_s_destroy(it);
	sstr(s, "]}");
}
