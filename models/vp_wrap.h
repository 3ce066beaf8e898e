#include <stdlib.h>
void *vp_malloc(size_t), *vp_calloc(size_t, size_t), *vp_realloc(void *, size_t);
void  vp_free(void *);
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
