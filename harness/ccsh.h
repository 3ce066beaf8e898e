/* shared helpers of the harnesses */
#ifndef CCSH_H
#define CCSH_H
#include <cconfigspace.h>
#include "vp.h"
/* a choice that a task can pin with a parameter of the same name */
#define CH(n, name) (vp_param(name, -1) >= 0 ? (unsigned)vp_param(name, -1) : vp_choice(n, name))
/* the call must succeed */
#define OK(e) vp_assert_((e) == CCS_RESULT_SUCCESS, "succeeds: " #e)
/* the call must report an error and leave the thread error set */
#define ERR(e)                                                                                                         \
	do {                                                                                                           \
		ccs_clear_thread_error();                                                                              \
		vp_assert_((e) < 0, "refused: " #e);                                                                   \
		drop_error();                                                                                          \
	} while (0)
/* fetch (and so clear) the recorded error */
static inline void drop_error(void)
{
	ccs_error_stack_t e = ccs_get_thread_error();
	vp_assert_(e != NULL, "a refused call records its error");
	if (e)
		ccs_release_object(e);
}
/* same type and same bits (strings: same characters) */
static inline int same_datum(ccs_datum_t a, ccs_datum_t b)
{
	if (a.type != b.type)
		return 0;
	switch (a.type) {
	case CCS_DATA_TYPE_STRING:
		if (!a.value.s || !b.value.s)
			return a.value.s == b.value.s;
		return !strcmp(a.value.s, b.value.s);
	case CCS_DATA_TYPE_NONE:
	case CCS_DATA_TYPE_INACTIVE:
		return 1;
	default:
		return a.value.i == b.value.i;
	}
}
static inline int64_t f2i(double d)
{
	int64_t i;
	memcpy(&i, &d, 8);
	return i;
}
static inline double i2f(int64_t i)
{
	double d;
	memcpy(&d, &i, 8);
	return d;
}
/* symbolic short string of at most n characters (n+1 bytes), each length its own path */
static inline const char *sym_str(unsigned n, const char *name)
{
	char *s = malloc(n + 1);
	unsigned l = vp_choice(n + 1, "len");
	vp_symbolic(s, n + 1, name);
	for (unsigned i = 0; i < l; i++)
		vp_assume(s[i] != 0);
	s[l] = 0;
	return s;
}
/* datum of the chosen type with any content */
static inline ccs_datum_t sym_datum_of(unsigned type, const char *name)
{
	switch (type) {
	case 0: return ccs_int(vp_i64(name));
	case 1: return ccs_float(vp_num(name));
	case 2: return ccs_bool(vp_bool(name) ? CCS_TRUE : CCS_FALSE);
	case 3: return ccs_none;
	default: return ccs_inactive;
	}
}
static inline ccs_parameter_t mk_int(const char *name, int64_t lo, int64_t hi, int64_t d)
{
	ccs_parameter_t p = NULL;
	OK(ccs_create_int_numerical_parameter(name, lo, hi, 0, d, &p));
	return p;
}
static inline ccs_parameter_t mk_flt(const char *name, double lo, double hi, double d)
{
	ccs_parameter_t p = NULL;
	OK(ccs_create_float_numerical_parameter(name, lo, hi, 0., d, &p));
	return p;
}
static inline ccs_expression_t mk_var(ccs_parameter_t p)
{
	ccs_expression_t e = NULL;
	OK(ccs_create_variable(p, &e));
	return e;
}
static inline ccs_expression_t mk_bin(ccs_expression_type_t t, ccs_datum_t a, ccs_datum_t b)
{
	ccs_expression_t e = NULL;
	OK(ccs_create_binary_expression(t, a, b, &e));
	return e;
}
static inline void hash_mode(void) { vp_hash_mask = (unsigned)vp_param("hash", 0); }
static inline void rel(void *o) { OK(ccs_release_object(o)); }
#endif
