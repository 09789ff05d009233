#ifndef VALS_H
#define VALS_H
#include "core.h"
#include "osc.h"
#include "osc_mem.h"
#include "osc_atom_u.h"
#include "osc_atom_s.h"
#include "osc_message_u.h"
#include "osc_message_s.h"
#include "osc_message_iterator_u.h"
#include "osc_message_iterator_s.h"
#include "osc_bundle_u.h"
#include "osc_bundle_s.h"
#include "osc_bundle_iterator_u.h"
#include "osc_bundle_iterator_s.h"
#include "osc_timetag.h"
#include "osc_array.h"
#include "osc_atom_array_u.h"

/* byte sequences are JSON arrays of small integers */
char *jbytes(J *a, long *n);                  /* malloc'd exactly n bytes */
char *jcstr(J *a);                            /* malloc'd, NUL terminated */
void sbytes(S *s, const void *p, long n);     /* [1,2,3] */
void sbytesz(S *s, const char *z);            /* C string; NULL -> [-1] */
uint64_t jbe(J *a);                           /* big-endian number */
void sbe(S *s, uint64_t v, int bytes);

/* atoms: {"t":"i","v":[0,0,0,1]}  (c,C,u,U,i,I,f: 4 bytes; h,H,d,t: 8; s: the characters; b: the data; ".": serialised bundle) */
void atom_set(t_osc_atom_u *a, J *v);
t_osc_atom_u *atom_new(J *v);
/* append 'a', prepend 'p', insert 'i' at pos with the typed call; alt selects among equivalent calls */
t_osc_atom_u *msg_add(t_osc_msg_u *m, J *v, char where, int pos, int alt);
t_osc_msg_u *msg_new(J *v);                   /* {"a":[..],"d":[atoms]} */
t_osc_bndl_u *bndl_new(J *v);                 /* [messages] */
void s_atom_u(S *s, t_osc_atom_u *a);
void s_msg_u(S *s, t_osc_msg_u *m);
void s_bndl_u(S *s, t_osc_bndl_u *b);
void s_atom_s(S *s, t_osc_atom_s *a);
void s_msg_s(S *s, t_osc_msg_s *m);
t_osc_timetag tt_of(J *bytes);
void s_tt(S *s, t_osc_timetag t);
#endif
