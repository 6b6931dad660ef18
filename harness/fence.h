/* forced include for the real sources in bounded runs: every heap block ends at an inaccessible page and starts out as garbage */
#ifndef FENCE_H
#define FENCE_H
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void *fence_malloc(size_t n);
void *fence_calloc(size_t a, size_t b);
void *fence_realloc(void *p, size_t n);
void fence_free(void *p);
#ifdef __cplusplus
}
#endif
#define malloc fence_malloc
#define calloc fence_calloc
#define realloc fence_realloc
#define free fence_free
#endif
