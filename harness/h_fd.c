#include "zoo.h"
#include <errno.h>
/* P19: files and descriptors, however transfers are split and fail. */
typedef struct { char data[4096]; size_t size, rpos; int open, eof; } vp_stream_t;
extern vp_stream_t vp_io[3];
extern unsigned    vp_io_short, vp_io_again, vp_io_intr, vp_io_fail, vp_io_calls, vp_io_blocked, vp_io_failed;
extern int         vp_fs_exists, vp_fs_errno, vp_fs_failed;
extern unsigned    vp_fs_fail;
int                vp_fs_idle(void);
static char *freeze(ccs_object_t o, size_t *sz)
{
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, sz, CCS_SERIALIZE_OPTION_END));
	*sz = (size_t)vp_concretize(*sz);
	char *b = malloc(*sz);
	OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, *sz, b, CCS_SERIALIZE_OPTION_END));
	return b;
}
/* one call; blocking when st is NULL */
static ccs_result_t put(ccs_object_t o, int fd, void **st)
{
	if (st)
		return ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_SERIALIZE_OPTION_NON_BLOCKING, st, CCS_SERIALIZE_OPTION_END);
	return ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_SERIALIZE_OPTION_END);
}
static ccs_result_t get(ccs_object_t *o, int fd, void **st, ccs_map_t m)
{
	if (st)
		return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_DESERIALIZE_OPTION_NON_BLOCKING, st, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END);
	return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END);
}
static int same_bytes(const char *a, const char *b, size_t n)
{
	int ok = 1;
	for (size_t i = 0; i < n; i++)
		ok &= a[i] == b[i];
	return ok;
}
static void grant(void)
{
	vp_io_short = (unsigned)vp_param("short", 1);
	vp_io_again = (unsigned)vp_param("again", 1);
	vp_io_intr = (unsigned)vp_param("intr", 1);
	vp_io_fail = (unsigned)vp_param("fail", 0);
}
static void grant_none(void) { vp_io_short = vp_io_again = vp_io_intr = vp_io_fail = 0; }
#define TRIES 8
void vp_main(void)
{
	ccs_init();
	unsigned what = (unsigned)vp_param("what", 0), kind = CH(Z_KINDS, "kind");
	int64_t  live = vp_heap_live();
	zoo_t    z, y;
	z_f = (int)vp_param("f", -1);
	zoo_make(&z, kind);
	z_f = -1;
	zoo_make(&y, Z_RNG);
	vp_io[0].open = vp_io[1].open = 1;
	size_t    sz = 0, sy = 0;
	char     *b = freeze(z.o, &sz), *c = freeze(y.o, &sy);
	void     *st = NULL, *st2 = NULL;
	ccs_map_t m = NULL;
	OK(ccs_create_map(&m));
	if (what == 0 || what == 1) { /* writing, blocking or not */
		void       **ps = what ? &st : NULL;
		ccs_result_t r;
		unsigned     i = 0;
		grant();
		do {
			unsigned blocked = vp_io_blocked;
			r = put(z.o, 3, ps);
			if (!what)
				vp_assert(r != CCS_RESULT_AGAIN, "a blocking transfer does not ask for another try");
			if (r == CCS_RESULT_AGAIN) {
				vp_assert(vp_io_blocked > blocked && st != NULL, "another try is asked only for a transfer that would block");
				vp_reach("writing is tried again");
				if (vp_param("wrong", 0)) {
					void *keep = st;
					ERR(put(z.o, 4, &st));
					vp_assert(st == keep && vp_io[1].size == 0, "continuing on another descriptor is refused");
					vp_reach("another descriptor is refused");
				}
			}
		} while (r == CCS_RESULT_AGAIN && ++i < TRIES);
		if (r < 0) {
			vp_assert(vp_io_failed && r == CCS_RESULT_ERROR_SYSTEM, "only a failed transfer is an error");
			drop_error();
			vp_assert(vp_io[0].size <= sz && same_bytes(vp_io[0].data, b, vp_io[0].size), "what was written before the failure is right");
			vp_reach("a failed write is an error");
		} else {
			vp_assert(r == CCS_RESULT_SUCCESS, "the object is written");
			vp_assert(!vp_io_failed, "a failed transfer is an error");
			vp_assert(vp_io[0].size == sz && same_bytes(vp_io[0].data, b, sz), "the bytes are those of the memory form");
			vp_reach("an object is written");
			grant_none();
			OK(put(y.o, 3, NULL));
			vp_assert(vp_io[0].size == sz + sy && same_bytes(vp_io[0].data + sz, c, sy), "another object follows");
		}
		vp_assert(st == NULL, "no state remains");
	} else if (what == 2 || what == 3) { /* reading, blocking or not, up to the end of the file */
		void       **ps = what == 3 ? &st : NULL;
		ccs_object_t o2 = NULL, o3 = NULL;
		ccs_object_t dep2[3] = {NULL, NULL, NULL};
		ccs_result_t r;
		unsigned     i = 0;
		size_t       n = sz + sy;
		for (unsigned k = 0; k < z.ndep; k++) {
			size_t s = 0;
			char  *t = freeze(z.dep[k], &s);
			OK(ccs_object_deserialize(&dep2[k], CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, s, t, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END));
			free(t);
		}
		memcpy(vp_io[0].data, b, sz);
		memcpy(vp_io[0].data + sz, c, sy);
		if (vp_param("eof", 0))
			n = vp_choice((unsigned)sz, "end of file");
		vp_io[0].size = n;
		grant();
		do {
			unsigned blocked = vp_io_blocked;
			r = get(&o2, 3, ps, m);
			if (what == 2)
				vp_assert(r != CCS_RESULT_AGAIN, "a blocking transfer does not ask for another try");
			if (r == CCS_RESULT_AGAIN) {
				vp_assert(vp_io_blocked > blocked && st != NULL && o2 == NULL, "another try is asked only for a transfer that would block");
				vp_reach("reading is tried again");
				if (vp_param("wrong", 0)) {
					void *keep = st;
					ERR(get(&o2, 4, &st, m));
					vp_assert(st == keep && o2 == NULL, "continuing on another descriptor is refused");
					vp_reach("another descriptor is refused");
				}
			}
		} while (r == CCS_RESULT_AGAIN && ++i < TRIES);
		vp_assert(vp_io[0].rpos <= sz, "nothing is read beyond the object");
		if (r < 0) {
			vp_assert(o2 == NULL, "no object is returned on error");
			if (vp_io_failed)
				vp_assert(r == CCS_RESULT_ERROR_SYSTEM, "a failed transfer is a system error");
			else
				vp_assert(n < sz, "only a failed transfer or the end of the file is an error");
			drop_error();
			vp_reach("a failed or short read is an error");
		} else {
			vp_assert(r == CCS_RESULT_SUCCESS && o2 != NULL, "the object is read");
			vp_assert(!vp_io_failed && n >= sz, "a failed transfer or the end of the file is an error");
			vp_assert(vp_io[0].rpos == sz, "the whole object is read");
			zoo_same(&z, kind, o2, dep2);
			grant_none();
			OK(get(&o3, 3, NULL, m));
			zoo_same(&y, Z_RNG, o3, NULL);
			rel(o3);
			rel(o2);
			vp_reach("an object is read");
		}
		vp_assert(st == NULL, "no state remains");
		rel(m);
		m = NULL;
		for (unsigned k = z.ndep; k; k--)
			rel(dep2[k - 1]);
	} else if (what == 4) { /* two transfers at once, each in steps */
		unsigned     dir = (unsigned)vp_param("dir", 0);
		ccs_object_t o2 = NULL, o3 = NULL;
		ccs_result_t r = CCS_RESULT_AGAIN, q = CCS_RESULT_AGAIN;
		unsigned     i = 0;
		if (dir) {
			memcpy(vp_io[0].data, b, sz);
			vp_io[0].size = sz;
			memcpy(vp_io[1].data, c, sy);
			vp_io[1].size = sy;
		}
		grant();
		while ((r == CCS_RESULT_AGAIN || q == CCS_RESULT_AGAIN) && i++ < TRIES) {
			int first = r == CCS_RESULT_AGAIN && (q != CCS_RESULT_AGAIN || vp_choice(2, "turn") == 0);
			if (first)
				r = dir ? get(&o2, 3, &st, m) : put(z.o, 3, &st);
			else
				q = dir ? get(&o3, 4, &st2, m) : put(y.o, 4, &st2);
		}
		vp_assert(r == CCS_RESULT_SUCCESS && q == CCS_RESULT_SUCCESS, "both transfers end");
		vp_assert(st == NULL && st2 == NULL, "no state remains");
		if (dir) {
			zoo_same(&z, kind, o2, NULL);
			zoo_same(&y, Z_RNG, o3, NULL);
			rel(o2);
			rel(o3);
			vp_reach("two objects are read at once");
		} else {
			vp_assert(vp_io[0].size == sz && same_bytes(vp_io[0].data, b, sz), "the first object is written");
			vp_assert(vp_io[1].size == sy && same_bytes(vp_io[1].data, c, sy), "the second object is written");
			vp_reach("two objects are written at once");
		}
	} else if (what == 6) { /* a damaged header */
		ccs_object_t o2 = NULL;
		ccs_result_t r;
		unsigned     at = vp_choice(17, "offset"), i = 0;
		int          nb = (int)vp_choice(2, "non blocking");
		vp_io_again = 1;
		memcpy(vp_io[0].data, b, sz);
		memcpy(vp_io[0].data + sz, c, sy);
		vp_symbolic(vp_io[0].data + at, 1, "byte");
		vp_io[0].size = sz + sy;
		do
			r = get(&o2, 3, nb ? &st : NULL, m);
		while (r == CCS_RESULT_AGAIN && ++i < TRIES);
		vp_assert(r == CCS_RESULT_SUCCESS || r < 0, "success or an error is returned");
		if (r) {
			vp_assert(o2 == NULL, "no object is returned on error");
			drop_error();
			vp_reach("a damaged header is refused");
		} else
			rel(o2);
		vp_assert(st == NULL, "no state remains");
	} else { /* a file, of which any operation may fail */
		ccs_object_t o2 = NULL;
		ccs_result_t r;
		unsigned     dir = (unsigned)vp_param("dir", 0);
		size_t       n = sz;
		vp_fs_fail = vp_choice(6, "failing call");
		vp_fs_errno = vp_fs_fail == 3 ? (int[]){ENOMEM, EACCES, EIO}[vp_choice(3, "errno")] : EIO;
		/* an older, longer file */
		vp_fs_exists = !dir ? (int)vp_choice(2, "exists") : 1;
		memset(vp_io[2].data, 'o', sizeof(vp_io[2].data));
		vp_io[2].size = vp_fs_exists ? sz + 3 : 0;
		if (!dir) {
			r = ccs_object_serialize(z.o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, "f", CCS_SERIALIZE_OPTION_END);
			if (!r) {
				vp_assert(vp_io[2].size == sz && same_bytes(vp_io[2].data, b, sz), "the content of the file is the memory form");
				vp_reach("a file is written");
			}
		} else {
			unsigned v = vp_choice(3, "content");
			memcpy(vp_io[2].data, b, sz);
			n = v == 0 ? sz : v == 1 ? vp_choice((unsigned)sz, "end of file") : 0;
			vp_io[2].size = n;
			if (v == 2)
				vp_fs_exists = 0;
			r = ccs_object_deserialize(&o2, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, "f", CCS_DESERIALIZE_OPTION_END);
			if (!r) {
				vp_assert(n == sz, "a truncated file is refused");
				zoo_same(&z, kind, o2, NULL);
				rel(o2);
				vp_reach("a file is read");
			} else
				vp_assert(o2 == NULL, "no object is returned on error");
		}
		vp_assert(!r == (!vp_fs_failed && n == sz), "the failure of a file operation is an error, and only that");
		if (r) {
			if (vp_fs_failed) {
				vp_assert(vp_fs_fail != 3 || (r == CCS_RESULT_ERROR_OUT_OF_MEMORY) == (vp_fs_errno == ENOMEM), "lack of memory for a mapping is told apart");
				vp_assert((vp_fs_fail != 1) || r == CCS_RESULT_ERROR_INVALID_FILE_PATH, "a file that cannot be opened is an invalid path");
			}
			drop_error();
			vp_reach("a file operation fails");
		}
		vp_assert(vp_fs_idle(), "the file is closed and unmapped");
	}
	free(b);
	free(c);
	if (m)
		rel(m);
	zoo_free(&y);
	zoo_free(&z);
	vp_assert(vp_heap_live() == live, "everything is released");
	ccs_fini();
}
