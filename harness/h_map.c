#include "ccsh.h"
/* P15: a map is a dictionary keyed by value, for any history of operations. */
#define MAX 4
static struct { ccs_datum_t k, v; } ref[MAX];
static unsigned nref;
static char    *pool[16];
static unsigned npool;
static ccs_parameter_t obj[2];
/* a key or value of any type; the second datum is the harness' own copy */
static ccs_datum_t mk(unsigned type, const char *name, ccs_datum_t *own)
{
	ccs_datum_t d;
	if (type == 5) {
		char *s = malloc(2), *c = malloc(2);
		s[0] = c[0] = (char)vp_u8(name);
		s[1] = c[1] = 0;
		pool[npool++] = s;
		pool[npool++] = c;
		d = ccs_string(s);
		d.flags = CCS_DATUM_FLAG_TRANSIENT;
		*own = ccs_string(c);
		return d;
	}
	if (type == 6)
		d = ccs_object(obj[vp_choice(2, "obj")]);
	else
		d = sym_datum_of(type, name);
	*own = d;
	return d;
}
static void scribble(ccs_datum_t d)
{
	if (d.type == CCS_DATA_TYPE_STRING)
		((char *)d.value.s)[0] = '!';
}
static int find(ccs_datum_t k)
{
	for (unsigned i = 0; i < nref; i++)
		if (same_datum(ref[i].k, k))
			return (int)i;
	return -1;
}
static int32_t refs(void *o)
{
	int32_t c = 0;
	OK(ccs_object_get_refcount(o, &c));
	return c;
}
void vp_main(void)
{
	ccs_init();
	hash_mode();
	int64_t   live = vp_heap_live();
	ccs_map_t m = NULL;
	unsigned  n = (unsigned)vp_param("n", 3), ktypes = (unsigned)vp_param("ktypes", 7), vtypes = (unsigned)vp_param("vtypes", 1);
	obj[0] = mk_int("a", 0, 10, 0);
	obj[1] = mk_int("b", 0, 10, 0);
	OK(ccs_create_map(&m));
	for (unsigned step = 0; step < n; step++) {
		ccs_datum_t k, kown, v, vown;
		unsigned    op = step == 0 ? 0 : vp_choice(vp_param("listed", 0) ? 5 : 3, "op");
		if (op == 2) {
			OK(ccs_map_clear(m));
			nref = 0;
			continue;
		}
		if (op >= 3) { /* with a key the map gave */
			ccs_datum_t ks[MAX];
			size_t      c = 0;
			if (!nref)
				vp_kill();
			OK(ccs_map_get_keys(m, MAX, ks, &c));
			k = ks[vp_choice(nref, "listed")];
			int at = find(k);
			vp_assert(c == nref && at >= 0, "a listed key is a stored key");
			if (op == 3) {
				ccs_datum_t w = vp_choice(2, "same") ? k : mk(0, "val", &vown);
				OK(ccs_map_set(m, k, w));
				ref[at].v = w.type == CCS_DATA_TYPE_STRING ? ref[at].k : w;
				vp_reach("a listed key is given a value");
			} else {
				OK(ccs_map_del(m, k));
				ref[at] = ref[--nref];
				vp_reach("a listed key is deleted");
			}
			continue;
		}
		k = mk(vp_choice(ktypes, "ktype"), "key", &kown);
		int at = find(kown);
		if (op == 0) {
			v = mk(vtypes == 1 ? 0 : vp_choice(vtypes, "vtype"), "val", &vown);
			OK(ccs_map_set(m, k, v));
			if (at >= 0)
				ref[at].v = vown;
			else {
				ref[nref].k = kown;
				ref[nref++].v = vown;
			}
			scribble(v);
			scribble(k);
		} else if (at >= 0) {
			OK(ccs_map_del(m, k));
			ref[at] = ref[--nref];
			vp_reach("deleted");
		} else {
			ERR(ccs_map_del(m, k));
			vp_reach("missing key");
		}
	}
	unsigned part = vp_choice(2, "part");
	if (part == 0) {
		/* probe with any key */
		ccs_datum_t k, kown, v = ccs_true;
		ccs_bool_t  ex = 7;
		k = mk(vp_choice(ktypes, "ptype"), "probe", &kown);
		int at = find(kown);
		OK(ccs_map_exist(m, k, &ex));
		vp_assert(ex == (at >= 0 ? CCS_TRUE : CCS_FALSE), "a key exists exactly when stored and not removed");
		OK(ccs_map_get(m, k, &v));
		if (at >= 0)
			vp_assert(same_datum(v, ref[at].v), "the latest value of the key is returned");
		else
			vp_assert(v.type == CCS_DATA_TYPE_NONE, "a missing key gives nothing");
	} else {
		ccs_datum_t ks[MAX + 1], vs[MAX + 1], pk[MAX + 1], pv[MAX + 1];
		size_t      c1 = 99, c2 = 99, c3 = 99;
		OK(ccs_map_get_keys(m, MAX + 1, ks, &c1));
		OK(ccs_map_get_values(m, MAX + 1, vs, &c2));
		OK(ccs_map_get_pairs(m, MAX + 1, pk, pv, &c3));
		vp_assert(c1 == nref && c2 == nref && c3 == nref, "counts are the number of stored keys");
		for (unsigned i = 0; i < nref; i++) {
			int at = find(pk[i]);
			vp_assert(at >= 0 && same_datum(pv[i], ref[at].v), "pairs are stored keys with their values");
			vp_assert(same_datum(ks[i], pk[i]) && same_datum(vs[i], pv[i]), "keys, values and pairs list the same content");
			for (unsigned j = 0; j < i; j++)
				vp_assert(!same_datum(pk[i], pk[j]), "a key is listed once");
		}
		vp_assert(ks[nref].type == CCS_DATA_TYPE_NONE && vs[nref].type == CCS_DATA_TYPE_NONE && pk[nref].type == CCS_DATA_TYPE_NONE && pv[nref].type == CCS_DATA_TYPE_NONE,
			  "extra slots are padded");
	}
	int32_t want[2] = {1, 1};
	for (unsigned i = 0; i < nref; i++)
		for (int o = 0; o < 2; o++) {
			want[o] += ref[i].k.type == CCS_DATA_TYPE_OBJECT && ref[i].k.value.o == obj[o];
			want[o] += ref[i].v.type == CCS_DATA_TYPE_OBJECT && ref[i].v.value.o == obj[o];
		}
	vp_assert(refs(obj[0]) == want[0] && refs(obj[1]) == want[1], "stored objects are referenced by the map");
	rel(m);
	vp_assert(refs(obj[0]) == 1 && refs(obj[1]) == 1, "releasing the map releases its objects");
	rel(obj[0]);
	rel(obj[1]);
	while (npool)
		free(pool[--npool]);
	vp_assert(vp_heap_live() == live, "nothing is leaked");
}
