/* the byte-by-byte packet checker */
#include "vals.h"
#include "osc_serial.h"
uint32_t osc_serial_counter(uint64_t s);
static void op_serial(J *in, S *out)
{
	long n, i;
	char *b = jbytes(jneed(in, "b"), &n);
	uint64_t s = OSC_SERIAL_INIT;
	for(i = 0; i < n; i++){
		s = osc_serial_processByte(b[i], s);
		if(osc_serial_errorp(s)) break;
	}
	char *z = osc_serial_errstr(s);
	int e = (int)((s & OSC_SERIAL_ERROR_MASK) >> 32);
	sfmt(out, "{\"n\":%ld,\"e\":%d,\"left\":%ld}", i, z && (!*z) == !e ? e : 99, (long)osc_serial_counter(s));
	free(b);
}
static OP T[] = {{"serial", op_serial}, {0}};
void fam_serial(void){ reg(T); }
