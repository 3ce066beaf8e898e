#include "zoo.h"
/* P01/P02: what is read back is the same object, for any content. */
static unsigned char  ud_byte[300], ud_got[300];
static size_t         ud_size = 2;
static unsigned       ud_calls, ud_reads;
static ccs_object_t   ud_top;
static ccs_result_t ser_cb(ccs_object_t o, size_t size, void *data, size_t *size_ret, void *ud)
{
	void *p = NULL;
	vp_assert(ud == &ud_calls, "the serialization callback gets its user data");
	OK(ccs_object_get_user_data(o, &p));
	vp_assert(p == ud_byte, "the serialization callback is called for the object that has user data");
	if (data) {
		vp_assert(size == ud_size, "the serialization callback gets the room it asked for");
		memcpy(data, p, ud_size);
	}
	if (size_ret)
		*size_ret = ud_size;
	ud_calls++;
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t deser_cb(ccs_object_t o, size_t size, const void *data, void *ud)
{
	vp_assert(ud == &ud_reads, "the deserialization callback gets its user data");
	vp_assert(size == ud_size, "the deserialization callback gets the bytes that were written");
	memcpy(ud_got, data, ud_size);
	ud_top = o;
	ud_reads++;
	return ccs_object_set_user_data(o, ud_got);
}
/* serialize into a buffer of exactly the announced size */
static char *freeze(ccs_object_t o, size_t *sz, int cb)
{
	size_t n = 0;
	if (cb)
		OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_CALLBACK, &ser_cb, &ud_calls, CCS_SERIALIZE_OPTION_END));
	else
		OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_END));
	n = (size_t)vp_concretize(n);
	char *b = malloc(n);
	if (cb)
		OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_SERIALIZE_OPTION_CALLBACK, &ser_cb, &ud_calls, CCS_SERIALIZE_OPTION_END));
	else
		OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_SERIALIZE_OPTION_END));
	*sz = n;
	return b;
}
void vp_main(void)
{
	ccs_init();
	unsigned what = (unsigned)vp_param("what", 0), kind = CH(Z_KINDS, "kind");
	int      direct = CH(2, "direct");
	int64_t  live = vp_heap_live();
	zoo_t    z;
	if (what == 0) {
		z_f = (int)CH(48, "f");
		if (vp_param("pairs", 0)) {
			z_g = (int)vp_choice(48, "g");
			if (z_g >= z_f)
				vp_kill();
		}
	}
	zoo_make(&z, kind);
	vp_reach("an object is built");
	if (what == 2) {
		static const size_t sizes[6] = {2, 127, 128, 129, 255, 256};
		ud_size = sizes[CH(6, "udsize")];
		memset(ud_byte, 'u', sizeof(ud_byte));
		vp_symbolic(ud_byte + (ud_size > 2 ? ud_size - 2 : 0), 2, "user data");
		OK(ccs_object_set_user_data(z.o, ud_byte));
		if (direct)
			OK(ccs_object_set_serialize_callback(z.o, &ser_cb, &ud_calls));
	}
	if (what == 1) { /* no smaller buffer will do */
		size_t sz = 0;
		char  *b = freeze(z.o, &sz, 0);
		free(b);
		size_t n = vp_choice((unsigned)sz, "size");
		b = n ? malloc(n) : NULL;
		if (n)
			b[0] = 'x';
		if (n) {
			ERR(ccs_object_serialize(z.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_SERIALIZE_OPTION_END));
			vp_reach("a smaller buffer is refused");
		}
		free(b);
	} else {
		ccs_object_t dep2[3] = {NULL, NULL, NULL}, o2 = NULL;
		ccs_map_t    m = NULL;
		int          use_map = z.ndep || !direct;
		if (use_map)
			OK(ccs_create_map(&m));
		for (unsigned i = 0; i < z.ndep; i++) {
			size_t sz = 0;
			char  *b = freeze(z.dep[i], &sz, 0);
			OK(ccs_object_deserialize(&dep2[i], CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END));
			free(b);
		}
		size_t sz = 0;
		char  *b = freeze(z.o, &sz, what == 2 && !direct);
		/* there may be anything after the object */
		if (use_map && z.vector)
			OK(ccs_object_deserialize(&o2, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_VECTOR, z.vector, CCS_DESERIALIZE_OPTION_DATA, z.data2, CCS_DESERIALIZE_OPTION_CALLBACK, &deser_cb, &ud_reads, CCS_DESERIALIZE_OPTION_END));
		else if (z.vector)
			OK(ccs_object_deserialize(&o2, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_DESERIALIZE_OPTION_VECTOR, z.vector, CCS_DESERIALIZE_OPTION_DATA, z.data2, CCS_DESERIALIZE_OPTION_CALLBACK, &deser_cb, &ud_reads, CCS_DESERIALIZE_OPTION_END));
		else if (use_map)
			OK(ccs_object_deserialize(&o2, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_CALLBACK, &deser_cb, &ud_reads, CCS_DESERIALIZE_OPTION_END));
		else
			OK(ccs_object_deserialize(&o2, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_DESERIALIZE_OPTION_CALLBACK, &deser_cb, &ud_reads, CCS_DESERIALIZE_OPTION_END));
		memset(b, 0x55, sz);
		free(b);
		vp_assert(o2 != NULL, "an object is returned");
		/* the handle of the original leads to the copy */
		if (m) {
			ccs_datum_t d = ccs_none;
			OK(ccs_map_get(m, ccs_object(z.o), &d));
			vp_assert(d.type == CCS_DATA_TYPE_OBJECT && d.value.o == o2, "the handle map leads to the rebuilt object");
		}
		zoo_same(&z, kind, o2, dep2);
		if (what == 2) {
			vp_assert(ud_reads == 1 && ud_top == o2, "the deserialization callback is called once, for the object that has user data");
			vp_assert(!memcmp(ud_got, ud_byte, ud_size), "user data survive");
		} else
			vp_assert(ud_reads == 0, "no deserialization callback without user data");
		rel(o2);
		if (m)
			rel(m);
		for (unsigned i = z.ndep; i; i--)
			rel(dep2[i - 1]);
		vp_reach("an object is rebuilt");
	}
	zoo_free(&z);
	vp_assert(vp_heap_live() == live, "everything is released");
	ccs_fini();
}
