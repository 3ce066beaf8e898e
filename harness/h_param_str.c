#include "ccsh.h"
/* P05: string parameters accept exactly the strings. */
void vp_main(void)
{
	ccs_init();
	hash_mode();
	int64_t         live = vp_heap_live();
	ccs_parameter_t p = NULL;
	OK(ccs_create_string_parameter("s", &p));
	ccs_parameter_type_t pt;
	const char          *nm;
	ccs_datum_t          d = ccs_true;
	OK(ccs_parameter_get_type(p, &pt));
	OK(ccs_parameter_get_name(p, &nm));
	OK(ccs_parameter_get_default_value(p, &d));
	vp_assert(pt == CCS_PARAMETER_TYPE_STRING && !strcmp(nm, "s") && d.type == CCS_DATA_TYPE_NONE, "a string parameter has no default");
	char a[3], b[3], ka[3], kb[3];
	vp_symbolic(a, 2, "a");
	vp_symbolic(b, 2, "b");
	a[2] = b[2] = 0;
	memcpy(ka, a, 3);
	memcpy(kb, b, 3);
	ccs_datum_t x[3] = {ccs_string(a), sym_datum_of(vp_choice(5, "type"), "x"), ccs_string(b)}, y[3] = {ccs_none, ccs_none, ccs_none};
	ccs_bool_t  r[3] = {7, 7, 7}, q[3] = {7, 7, 7};
	OK(ccs_parameter_check_values(p, 3, x, r));
	vp_assert(r[0] == CCS_TRUE && r[1] == CCS_FALSE && r[2] == CCS_TRUE, "exactly strings are valid");
	OK(ccs_parameter_check_value(p, x[1], &r[0]));
	vp_assert(r[0] == CCS_FALSE, "single check agrees");
	OK(ccs_parameter_validate_values(p, 3, x, y, q));
	vp_assert(q[0] == CCS_TRUE && q[1] == CCS_FALSE && q[2] == CCS_TRUE, "exactly strings validate");
	a[0] = b[0] = 'Z';
	vp_assert(y[0].type == CCS_DATA_TYPE_STRING && y[2].type == CCS_DATA_TYPE_STRING && y[1].type == CCS_DATA_TYPE_INACTIVE, "validated types");
	vp_assert(!strcmp(y[0].value.s, ka) && !strcmp(y[2].value.s, kb), "validated strings are kept by the parameter");
	/* a second validation of an equal string returns the same content */
	ccs_datum_t z = ccs_none;
	ccs_bool_t  zb = 7;
	OK(ccs_parameter_validate_value(p, ccs_string(ka), &z, &zb));
	vp_assert(zb == CCS_TRUE && z.type == CCS_DATA_TYPE_STRING && !strcmp(z.value.s, ka) && !strcmp(y[0].value.s, ka), "repeated validation agrees");
	ccs_distribution_t dist = NULL;
	ERR(ccs_parameter_get_default_distribution(p, &dist));
	vp_assert(dist == NULL, "no distribution for strings");
	rel(p);
	vp_assert(vp_heap_live() == live, "nothing is leaked");
}
