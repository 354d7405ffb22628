/* Preloaded allocator monitor: peak of the live heap bytes, written at exit
 * into the file named by MPEAK_OUT. */
#define _GNU_SOURCE
#include <malloc.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <string.h>
#include <errno.h>
#include <stdint.h>
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t), *__libc_calloc(size_t, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static volatile long live, peak, calls;
static void *in(void *p) {
  if (p) { long l = __sync_add_and_fetch(&live, (long)malloc_usable_size(p)); if (l > peak) peak = l; ++calls; }
  return p;
}
void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void free(void *p) { if (p) { __sync_sub_and_fetch(&live, (long)malloc_usable_size(p)); __libc_free(p); } }
void *realloc(void *p, size_t n) {
  long old = p ? (long)malloc_usable_size(p) : 0;
  void *q = __libc_realloc(p, n);
  if (q || n == 0) { __sync_sub_and_fetch(&live, old); return q ? in(q) : q; }
  return q;
}
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = in(__libc_memalign(a, n)); if (!p) return ENOMEM; *r = p; return 0; }
__attribute__((destructor)) static void out(void) {
  const char *f = getenv("MPEAK_OUT");
  char b[100];
  int fd, n;
  if (!f) return;
  fd = open(f, O_CREAT | O_WRONLY | O_TRUNC, 0600);
  if (fd < 0) return;
  n = snprintf(b, sizeof b, "%ld %ld %ld\n", peak, live, calls);
  if (write(fd, b, n) != n) {}
  close(fd);
}
