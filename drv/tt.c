/* time tags */
#include "vals.h"
#include "osc_timetag.h"
#include <sys/time.h>
#include <time.h>

static long fake_sec = -1, fake_usec;
int gettimeofday(struct timeval *tv, void *tz)
{
	struct timespec ts;
	if(tz) memset(tz, 0, 2 * sizeof(int));
	if(fake_sec >= 0){ tv->tv_sec = fake_sec; tv->tv_usec = fake_usec; return 0; }
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
static t_osc_timetag tt(J *in, const char *k)
{
	t_osc_timetag t;
	long n;
	unsigned char *b = (unsigned char *)jbytes(jneed(in, k), &n);
	if(n != 8) die("time tag");
	t.sec = (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3];
	t.frac_sec = (uint32_t)b[4] << 24 | b[5] << 16 | b[6] << 8 | b[7];
	free(b);
	return t;
}
static void stt(S *out, t_osc_timetag t)
{
	unsigned char b[8] = {t.sec >> 24, t.sec >> 16, t.sec >> 8, t.sec, t.frac_sec >> 24, t.frac_sec >> 16, t.frac_sec >> 8, t.frac_sec};
	sbytes(out, b, 8);
}
static void op_tt_arith(J *in, S *out)
{
	t_osc_timetag a = tt(in, "a"), b = tt(in, "b");
	sstr(out, "{\"add\":"); stt(out, osc_timetag_add(a, b));
	sstr(out, ",\"sub\":"); stt(out, osc_timetag_subtract(a, b));
	sfmt(out, ",\"cmp\":%d}", osc_timetag_compare(a, b));
}
static void op_tt_parts(J *in, S *out)
{
	t_osc_timetag a = tt(in, "a");
	uint32_t s = osc_timetag_ntp_getSeconds(a), f = osc_timetag_ntp_getFraction(a);
	char h[8];
	osc_timetag_encodeForHeader(a, h);
	sstr(out, "{\"sec\":"); sbe(out, s, 4);
	sstr(out, ",\"frac\":"); sbe(out, f, 4);
	sstr(out, ",\"head\":"); sbytes(out, h, 8);
	sstr(out, ",\"back\":"); stt(out, osc_timetag_decodeFromHeader(h));
	sfmt(out, ",\"imm\":%d}", osc_timetag_isImmediate(a));
}
static void op_tt_text(J *in, S *out)
{
	t_osc_timetag a = tt(in, "a"), b;
	char *f = osc_timetag_format(a);
	long n = jint(in, "n"), l = osc_timetag_nformat(NULL, 0, a), k = strlen(f);
	char *z = malloc(n ? n : 1);
	long r = osc_timetag_nformat(z, n, a);
	osc_timetag_fromISO8601(f, &b);
	sstr(out, "{\"text\":"); sbytes(out, f, k);
	sfmt(out, ",\"size\":%ld,\"r\":%ld,\"cut\":", l, r);
	if(n) sbytes(out, z, strnlen(z, n)); else sstr(out, "[]");
	sfmt(out, ",\"end\":%d,\"back\":", n == 0 || strnlen(z, n) < (size_t)n);
	stt(out, b);
	sstr(out, "}");
	free(z);
	osc_mem_free(f);
}
static void op_tt_parse(J *in, S *out)
{
	t_osc_timetag t;
	char *s = jcstr(jneed(in, "s"));
	memset(&t, 0xbe, sizeof(t));
	osc_timetag_fromISO8601(s, &t);
	stt(out, t);
	free(s);
}
static void op_tt_float(J *in, S *out)
{
	long n;
	unsigned char *b = (unsigned char *)jbytes(jneed(in, "d"), &n);
	uint64_t u = 0;
	double d;
	for(int i = 0; i < 8; i++) u = u << 8 | b[i];
	memcpy(&d, &u, 8);
	free(b);
	stt(out, osc_timetag_floatToTimetag(d));
}
static void op_tt_secs(J *in, S *out)
{
	double d = osc_timetag_timetagToFloat(tt(in, "a"));
	uint64_t u;
	memcpy(&u, &d, 8);
	sbe(out, u, 8);
}
static void op_tt_now(J *in, S *out)
{
	fake_sec = jint(in, "sec");
	fake_usec = jint(in, "usec");
	t_osc_timetag t = osc_timetag_now();
	fake_sec = -1;
	stt(out, t);
}
static OP T[] = {{"tt_arith", op_tt_arith}, {"tt_parts", op_tt_parts}, {"tt_text", op_tt_text}, {"tt_parse", op_tt_parse}, {"tt_float", op_tt_float}, {"tt_secs", op_tt_secs}, {"tt_now", op_tt_now}, {0}};
void fam_tt(void){ reg(T); }
