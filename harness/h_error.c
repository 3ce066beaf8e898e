#include "ccsh.h"
/* P21: the error state of the thread. */
static ccs_error_stack_t mk(ccs_result_t c, const char *m)
{
	ccs_error_stack_t e = NULL;
	vp_assert(ccs_create_error_stack(&e, c, m) == CCS_RESULT_SUCCESS && e, "an error is created");
	return e;
}
static void is(ccs_error_stack_t e, ccs_result_t c, const char *m, size_t n, ccs_error_stack_elem_t *want)
{
	ccs_result_t            code = (ccs_result_t)7;
	const char             *msg = NULL;
	size_t                  k = 77;
	ccs_error_stack_elem_t *el = NULL;
	vp_assert(ccs_error_stack_get_code(e, &code) == CCS_RESULT_SUCCESS && code == c, "an error keeps its code");
	vp_assert(ccs_error_stack_get_message(e, &msg) == CCS_RESULT_SUCCESS && msg && !strcmp(msg, m), "an error keeps its message");
	vp_assert(ccs_error_stack_get_elems(e, &k, &el) == CCS_RESULT_SUCCESS && k == n && (n ? el != NULL : el == NULL), "an error keeps its trace");
	int ok = 1;
	for (size_t i = 0; i < n; i++)
		ok &= el[i].file == want[i].file && el[i].line == want[i].line && el[i].func == want[i].func;
	vp_assert(ok, "an error keeps its trace");
}
void vp_main(void)
{
	ccs_init();
	int64_t      live = vp_heap_live();
	ccs_result_t c = (ccs_result_t)vp_i32("code"), c2 = (ccs_result_t)vp_i32("code2");
	unsigned     what = (unsigned)CH(5, "what");
	static const char *fi[3] = {"f0", "f1", "f2"}, *fn[3] = {"g0", "g1", "g2"};
	ccs_error_stack_elem_t w[12];
	unsigned n = vp_choice(10, "pushes");
	for (unsigned i = 0; i < 12; i++) {
		w[i].file = fi[i % 3];
		w[i].func = fn[(i + 1) % 3];
		w[i].line = vp_i32("line");
	}
	char m[4];
	vp_symbolic(m, 4, "message");
	vp_assume(m[3] == 0);
	for (unsigned i = 0; i < 3; i++)
		vp_assume(m[i] != '%' && (m[i] != 0 || i == 2));
	ccs_error_stack_t e, g;
	switch (what) {
	case 0: /* an error of one's own */
		e = mk(c, vp_choice(2, "message") ? m : (m[0] = 0, (const char *)NULL));
		for (unsigned i = 0; i < n; i++)
			vp_assert(ccs_error_stack_push(e, w[i].file, w[i].line, w[i].func) == CCS_RESULT_SUCCESS, "a position is added");
		is(e, c, m, n, w);
		vp_assert(ccs_get_thread_error() == NULL, "an error of one's own is not the thread's");
		rel(e);
		break;
	case 1: /* the thread's */
		vp_assert(ccs_create_thread_error(c, m) == CCS_RESULT_SUCCESS, "an error is created");
		for (unsigned i = 0; i < n; i++)
			vp_assert(ccs_thread_error_stack_push(w[i].file, w[i].line, w[i].func) == CCS_RESULT_SUCCESS, "a position is added");
		e = ccs_get_thread_error();
		is(e, c, m, n, w);
		vp_assert(ccs_get_thread_error() == NULL, "an error is given once");
		rel(e);
		break;
	case 2: /* replaced by another */
		vp_assert(ccs_create_thread_error(c, m) == CCS_RESULT_SUCCESS, "an error is created");
		if (vp_choice(2, "how")) {
			vp_assert(ccs_create_thread_error(c2, "other") == CCS_RESULT_SUCCESS, "an error is created");
			e = ccs_get_thread_error();
			is(e, c2, "other", 0, NULL);
		} else {
			g = mk(c2, "given");
			vp_assert(ccs_set_thread_error(g) == CCS_RESULT_SUCCESS, "an error is set");
			e = ccs_get_thread_error();
			vp_assert(e == g, "the error that was set is given back");
			is(e, c2, "given", 0, NULL);
		}
		rel(e);
		break;
	case 3: /* cleared; nothing to add to */
		vp_assert(ccs_create_thread_error(c, m) == CCS_RESULT_SUCCESS, "an error is created");
		ccs_clear_thread_error();
		vp_assert(ccs_get_thread_error() == NULL, "a cleared error is gone");
		ccs_clear_thread_error();
		vp_assert(ccs_thread_error_stack_push("f", 1, "g") < 0, "there is no error to add to");
		vp_assert(ccs_set_thread_error(NULL) < 0 && ccs_error_stack_push(NULL, "f", 1, "g") < 0, "a missing error is refused");
		ccs_clear_thread_error();
		break;
	default: { /* missing arguments */
		ccs_parameter_t p = mk_int("p", 0, 1, 0);
		vp_assert(ccs_create_error_stack(NULL, c, "m") < 0, "a missing output is refused");
		vp_assert(ccs_set_thread_error((ccs_error_stack_t)p) < 0 && ccs_error_stack_push((ccs_error_stack_t)p, "f", 1, "g") < 0, "an object that is no error is refused");
		vp_assert(ccs_retain_object(NULL) < 0 && ccs_release_object(NULL) < 0, "a missing object is refused");
		ccs_clear_thread_error();
		rel(p);
	}
	}
	vp_assert(vp_heap_live() == live, "everything is released");
	ccs_fini();
}
