#include "ccsh.h"
/* P05: sampled parameter values always belong to the domain, whatever the
 * distribution and whatever is drawn; failing to find one is reported. */
extern unsigned vp_draw_limit;
void vp_main(void)
{
	ccs_init();
	vp_draw_limit = (unsigned)vp_param("draws", 0);
	int64_t            live = vp_heap_live();
	int                kind = CH(3, "kind"); /* int, float, categorical */
	unsigned           n = (unsigned)vp_param("n", 1);
	ccs_parameter_t    p = NULL;
	ccs_distribution_t d = NULL;
	ccs_rng_t          rng = NULL;
	ccs_datum_t        pv[3] = {ccs_int(10), ccs_string("b"), ccs_float(3.0)}, v[3];
	ccs_bool_t         b[3] = {7, 7, 7};
	OK(ccs_create_rng(&rng));
	int side = CH(2, "side"); /* which end of the domain can be missed */
	if (kind == 0) {
		int64_t b = vp_range(-200, 200, "bound");
		vp_assume(side ? b > -200 : b < 200);
		OK(ccs_create_int_numerical_parameter("p", side ? -200 : b, side ? b : 200, 0, side ? -200 : b, &p));
		OK(ccs_create_uniform_int_distribution(-100, 100, CCS_SCALE_TYPE_LINEAR, 0, &d));
	} else if (kind == 1) {
		double b = vp_fin("fbound");
		vp_assume(b > -1e300 && b < 1e300);
		OK(ccs_create_float_numerical_parameter("p", side ? -1e300 : b, side ? b : 1e300, 0., side ? -1e300 : b, &p));
		/* mean -0.0 and deviation 1 leave the drawn value as it is */
		OK(ccs_create_normal_float_distribution(-0.0, 1.0, CCS_SCALE_TYPE_LINEAR, 0.0, &d));
	} else {
		OK(ccs_create_categorical_parameter("p", 3, pv, 0, &p));
		OK(ccs_create_uniform_int_distribution(side ? 1 : -3, side ? 6 : 2, CCS_SCALE_TYPE_LINEAR, 0, &d));
	}
	ccs_result_t r = n == 1 ? ccs_parameter_sample(p, d, rng, v) : ccs_parameter_samples(p, d, rng, n, v);
	if (r == CCS_RESULT_SUCCESS) {
		OK(ccs_parameter_check_values(p, n, v, b));
		for (unsigned i = 0; i < n; i++)
			vp_assert(b[i] == CCS_TRUE, "sampled values belong to the domain");
		vp_reach("sampled");
	} else {
		vp_assert(r == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL || r == CCS_RESULT_ERROR_INVALID_DISTRIBUTION, "only unsuccessful sampling is reported");
		drop_error();
		vp_reach("unsuccessful");
	}
	rel(d);
	rel(p);
	rel(rng);
	vp_assert(vp_heap_live() == live, "nothing is leaked");
}
