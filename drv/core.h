#ifndef CORE_H
#define CORE_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>

/* ---- JSON in ---- */
typedef struct J {
	char t;              /* o a s i b n */
	int n;               /* members / length of string */
	char **k;            /* keys (object) */
	struct J **v;        /* values (object, array) */
	char *s;             /* string bytes, NUL terminated */
	long i;
} J;
J *jget(J *o, const char *key);              /* NULL if absent */
J *jneed(J *o, const char *key);             /* protocol error if absent */
long jint(J *o, const char *key);
long jintd(J *o, const char *key, long dflt);
char *jstr(J *o, const char *key);
char *jstrd(J *o, const char *key, char *dflt);
void die(const char *fmt, ...);

/* ---- JSON out ---- */
typedef struct S { char *p; long n, cap; } S;
void sput(S *s, const char *p, long n);
void sstr(S *s, const char *z);
void sfmt(S *s, const char *fmt, ...);
void sq(S *s, const char *z, long n);        /* quoted string of n bytes */
void sqz(S *s, const char *z);               /* quoted C string, NULL -> "<null>" */
void shex(S *s, const void *p, long n);      /* quoted hex */
void shexu(S *s, uint64_t v, int bytes);     /* quoted big-endian hex of a number */

/* ---- hex ---- */
char *unhex(const char *h, long *n);         /* malloc'd exactly n bytes (ASan sees any overrun) */
uint64_t hexu(const char *h);

/* ---- registry ---- */
typedef void (*opfn)(J *in, S *out);         /* appends the JSON value of "res" */
typedef struct { const char *name; opfn fn; } OP;
void reg(OP *ops);
void regreset(void (*fn)(void));

#define NSLOT 16
#endif
