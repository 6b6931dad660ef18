#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
#define NB 65536
typedef struct B { void *user; char *base; size_t len, size; struct B *next; } B;
static B *tab[NB];
static size_t live_blocks;
static unsigned h(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % NB; }
void *fence_malloc(size_t n)
{
  size_t pg = 4096, len = (n + pg - 1) / pg * pg;
  char *b;
  B *e;
  if (live_blocks > 20000 || n > ((size_t)1 << 24)) { char *q = malloc(n ? n : 1); if (q) { memset(q, 0xFF, 65536 < n ? 65536 : n); if (n > 65536) memset(q + n - 65536, 0xFF, 65536); } return q; }
  b = mmap(NULL, len + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (b == MAP_FAILED) return NULL;
  mprotect(b + len, pg, PROT_NONE);
  if (len) memset(b, 0xFF, len); /* NaN / -1: reading it before writing shows */
  e = malloc(sizeof *e);
  e->base = b; e->len = len + pg; e->size = n; e->user = b + len - n;
  e->next = tab[h(e->user)]; tab[h(e->user)] = e;
  live_blocks++;
  return e->user;
}
void *fence_calloc(size_t a, size_t c) { void *p = fence_malloc(a * c); if (p) memset(p, 0, a * c); return p; }
void fence_free(void *p)
{
  B **q;
  if (!p) return;
  for (q = &tab[h(p)]; *q; q = &(*q)->next)
    if ((*q)->user == p) { B *e = *q; *q = e->next; munmap(e->base, e->len); free(e); live_blocks--; return; }
  free(p);
}
void *fence_realloc(void *p, size_t n)
{
  B *e;
  void *r;
  if (!p) return fence_malloc(n);
  for (e = tab[h(p)]; e; e = e->next) if (e->user == p) break;
  if (!e) return realloc(p, n);
  r = fence_malloc(n);
  memcpy(r, p, e->size < n ? e->size : n);
  fence_free(p);
  return r;
}
