#ifndef SIMHEAP_H
#define SIMHEAP_H
#ifndef __ASSEMBLER__
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* sim_malloc(size_t);
void* sim_calloc(size_t, size_t);
void* sim_realloc(void*, size_t);
void  sim_free(void*);
int   sim_posix_memalign(void**, size_t, size_t);
void* sim_aligned_alloc(size_t, size_t);
char* sim_strdup(const char*);
void* sim_memcpy(void*, const void*, size_t);
void* sim_memset(void*, int, size_t);
int   sim_crand(void);
void  sim_csrand(unsigned);
#ifdef __cplusplus
}
#endif
#ifndef __cplusplus
#define malloc sim_malloc
#define calloc sim_calloc
#define realloc sim_realloc
#define free sim_free
#define posix_memalign sim_posix_memalign
#define aligned_alloc sim_aligned_alloc
#define strdup sim_strdup
#undef memcpy
#undef memset
#undef memmove
#define memcpy sim_memcpy
#define memmove sim_memcpy
#define memset sim_memset
#define rand sim_crand
#define random(...) sim_crand()
#define srand sim_csrand
#endif
#endif
#endif
