#include "core.h"
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

static int outfd = 1;

void die(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "PROTOCOL: ");
	vfprintf(stderr, fmt, ap);
	fprintf(stderr, "\n");
	_exit(97);
}

/* ---- the library's allocator, watched: every op reports the blocks taken (+id) and given back (-id, 0 if never taken) ---- */
void osc_set_mem(void *(*)(size_t), void (*)(void *), void *(*)(void *, size_t));
void __asan_describe_address(void *);
typedef struct { void *p; long id; int live; } BLK;
static BLK *blk;
static long nblk, lastid;
static long nbuck;
static long *evs;
static long nev, capev;
static int watching, showing;
static void note(long id)
{
	if(nev == capev) evs = realloc(evs, (capev = capev ? capev * 2 : 256) * sizeof(long));
	evs[nev++] = id;
}
static BLK *slot(void *p)
{
	unsigned long h = ((unsigned long)p >> 4) * 0x9e3779b97f4a7c15ul;
	for(long i = h % nbuck; ; i = (i + 1) % nbuck) if(!blk[i].p || blk[i].p == p) return blk + i;
}
static void took(void *p)
{
	if(!p) return;
	if(nblk * 2 >= nbuck){
		BLK *old = blk;
		long n = nbuck;
		nbuck = nbuck ? nbuck * 2 : 4096;
		blk = calloc(nbuck, sizeof(BLK));
		for(long i = 0; i < n; i++) if(old[i].p) *slot(old[i].p) = old[i];
		free(old);
	}
	BLK *b = slot(p);
	if(!b->p) nblk++;
	*b = (BLK){p, ++lastid, 1};
	note(lastid);
}
/* 1 if the block may really be given back */
static int gave(void *p)
{
	if(!p) return 0;
	BLK *b = nbuck ? slot(p) : NULL;
	if(!b || !b->p){ note(0); return 0; }
	note(-b->id);
	int live = b->live;
	b->live = 0;
	return live;
}
static void *w_malloc(size_t n){ void *p = malloc(n); took(p); return p; }
static void w_free(void *p){ if(gave(p)) free(p); }
static void *w_realloc(void *p, size_t n)
{
	if(p && !gave(p)) return NULL;
	void *q = realloc(p, n);
	took(q);
	return q;
}
static void showlive(void)
{
	for(long i = 0; i < nbuck; i++) if(blk[i].p && blk[i].live){
		fprintf(stderr, "LIVE %ld\n", blk[i].id);
#ifndef PLAIN
		__asan_describe_address(blk[i].p);
#endif
		blk[i].live = 0;
	}
}

/* ---- input ---- */
static const char *P;
static J *jnew(char t){ J *j = calloc(1, sizeof(J)); j->t = t; return j; }
static void ws(void){ while(*P == ' ' || *P == '\t') P++; }
static J *jparse(void);
static char *jstring(int *n)
{
	if(*P != '"') die("expected string at %.20s", P);
	P++;
	char *b = malloc(strlen(P) + 1);
	int i = 0;
	while(*P && *P != '"'){
		if(*P == '\\'){
			P++;
			switch(*P){
			case 'n': b[i++] = '\n'; P++; break;
			case 't': b[i++] = '\t'; P++; break;
			case 'r': b[i++] = '\r'; P++; break;
			case 'b': b[i++] = '\b'; P++; break;
			case 'f': b[i++] = '\f'; P++; break;
			case 'u': {
				char h[5] = {P[1], P[2], P[3], P[4], 0};
				b[i++] = (char)strtol(h, NULL, 16);
				P += 5;
				break;
			}
			default: b[i++] = *P++; break;
			}
		}else{
			b[i++] = *P++;
		}
	}
	if(*P != '"') die("unterminated string");
	P++;
	b[i] = 0;
	*n = i;
	return b;
}
static J *jparse(void)
{
	ws();
	J *j;
	if(*P == '{' || *P == '['){
		char open = *P, close = open == '{' ? '}' : ']';
		P++;
		j = jnew(open == '{' ? 'o' : 'a');
		ws();
		if(*P == close){ P++; return j; }
		int cap = 0;
		while(1){
			if(j->n == cap){
				cap = cap ? cap * 2 : 8;
				j->v = realloc(j->v, cap * sizeof(J *));
				if(j->t == 'o') j->k = realloc(j->k, cap * sizeof(char *));
			}
			if(j->t == 'o'){
				int n;
				ws();
				j->k[j->n] = jstring(&n);
				ws();
				if(*P++ != ':') die("expected colon");
			}
			j->v[j->n++] = jparse();
			ws();
			if(*P == ','){ P++; continue; }
			if(*P == close){ P++; break; }
			die("bad container at %.20s", P);
		}
		return j;
	}
	if(*P == '"'){
		j = jnew('s');
		j->s = jstring(&j->n);
		return j;
	}
	if(!strncmp(P, "true", 4)){ P += 4; j = jnew('b'); j->i = 1; return j; }
	if(!strncmp(P, "false", 5)){ P += 5; return jnew('b'); }
	if(!strncmp(P, "null", 4)){ P += 4; return jnew('n'); }
	char *e;
	long v = strtol(P, &e, 10);
	if(e == P) die("bad value at %.20s", P);
	P = e;
	j = jnew('i');
	j->i = v;
	return j;
}
static void jfree(J *j)
{
	if(!j) return;
	for(int i = 0; i < j->n && (j->t == 'o' || j->t == 'a'); i++){
		if(j->k) free(j->k[i]);
		jfree(j->v[i]);
	}
	free(j->k); free(j->v); free(j->s); free(j);
}
J *jget(J *o, const char *key)
{
	for(int i = 0; o && o->t == 'o' && i < o->n; i++)
		if(!strcmp(o->k[i], key)) return o->v[i];
	return NULL;
}
J *jneed(J *o, const char *key)
{
	J *j = jget(o, key);
	if(!j) die("missing %s", key);
	return j;
}
long jint(J *o, const char *key){ return jneed(o, key)->i; }
long jintd(J *o, const char *key, long d){ J *j = jget(o, key); return j ? j->i : d; }
char *jstr(J *o, const char *key)
{
	J *j = jneed(o, key);
	if(j->t != 's') die("%s is not a string", key);
	return j->s;
}
char *jstrd(J *o, const char *key, char *d){ J *j = jget(o, key); return j ? j->s : d; }

/* ---- output ---- */
void sput(S *s, const char *p, long n)
{
	if(s->n + n + 1 > s->cap){
		s->cap = (s->n + n + 1) * 2;
		s->p = realloc(s->p, s->cap);
	}
	memcpy(s->p + s->n, p, n);
	s->n += n;
	s->p[s->n] = 0;
}
void sstr(S *s, const char *z){ sput(s, z, strlen(z)); }
void sfmt(S *s, const char *fmt, ...)
{
	char b[512];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if(n >= (int)sizeof b) die("sfmt overflow");
	sput(s, b, n);
}
void sq(S *s, const char *z, long n)
{
	sput(s, "\"", 1);
	for(long i = 0; i < n; i++){
		unsigned char c = z[i];
		if(c == '"' || c == '\\'){ char b[2] = {'\\', c}; sput(s, b, 2); }
		else if(c < 32 || c >= 127) sfmt(s, "\\u%04x", c);
		else sput(s, (char *)&c, 1);
	}
	sput(s, "\"", 1);
}
void sqz(S *s, const char *z){ if(!z) z = "<null>"; sq(s, z, strlen(z)); }
void shex(S *s, const void *p, long n)
{
	static const char *d = "0123456789abcdef";
	const unsigned char *b = p;
	sput(s, "\"", 1);
	for(long i = 0; i < n; i++){ char h[2] = {d[b[i] >> 4], d[b[i] & 15]}; sput(s, h, 2); }
	sput(s, "\"", 1);
}
void shexu(S *s, uint64_t v, int bytes)
{
	unsigned char b[8];
	for(int i = 0; i < bytes; i++) b[i] = v >> (8 * (bytes - 1 - i));
	shex(s, b, bytes);
}
static int nib(char c){ return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
char *unhex(const char *h, long *n)
{
	long k = strlen(h) / 2;
	char *b = malloc(k ? k : 1);
	for(long i = 0; i < k; i++) b[i] = nib(h[2 * i]) << 4 | nib(h[2 * i + 1]);
	*n = k;
	return b;
}
uint64_t hexu(const char *h)
{
	uint64_t v = 0;
	for(; *h; h++) v = v << 4 | nib(*h);
	return v;
}

/* ---- registry ---- */
static OP ops[1024];
static int nops;
static void (*resets[64])(void);
static int nresets;
void reg(OP *o){ for(; o->name; o++) ops[nops++] = *o; }
void regreset(void (*fn)(void)){ resets[nresets++] = fn; }
static int cmp(const void *a, const void *b){ return strcmp(((OP *)a)->name, ((OP *)b)->name); }

static void onalarm(int s){ static const char m[] = "HANG: op did not finish\n"; if(write(2, m, sizeof m - 1)); _exit(98); }

void fam_init(void);

int main(void)
{
	outfd = dup(1);
	int nul = open("/dev/null", O_WRONLY);
	dup2(nul, 1);
	FILE *out = fdopen(outfd, "w");
	fam_init();
	watching = getenv("VP_WATCH") != NULL;
	showing = getenv("VP_SHOW") != NULL;
	if(watching) osc_set_mem(w_malloc, w_free, w_realloc);
	qsort(ops, nops, sizeof(OP), cmp);
	signal(SIGALRM, onalarm);
	char *line = NULL;
	size_t cap = 0;
	ssize_t n;
	S s = {0};
	while((n = getline(&line, &cap, stdin)) > 0){
		while(n > 0 && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
		if(!n) continue;
		P = line;
		J *j = jparse();
		char *name = jstr(j, "op");
		s.n = 0;
		sstr(&s, "@ ");
		sput(&s, line, n - 1);
		sstr(&s, ",\"res\":");
		alarm(12);
		if(!strcmp(name, "reset")){
			for(int i = 0; i < nresets; i++) resets[i]();
			sstr(&s, "0");
		}else{
			OP key = {name, NULL}, *o = bsearch(&key, ops, nops, sizeof(OP), cmp);
			if(!o) die("unknown op %s", name);
			o->fn(j, &s);
		}
		alarm(0);
		if(watching){
			sstr(&s, ",\"al\":[");
			for(long i = 0; i < nev; i++) sfmt(&s, i ? ",%ld" : "%ld", evs[i]);
			sstr(&s, "]");
			nev = 0;
			if(showing && !strcmp(name, "reset")) showlive();
			if(!strcmp(name, "reset")){ lastid = 0; for(long i = 0; i < nbuck; i++) blk[i] = (BLK){0}; nblk = 0; }
		}
		sstr(&s, "}\n");
		fwrite(s.p, 1, s.n, out);
		fflush(out);
		jfree(j);
	}
	return 0;
}
