/* Preloaded allocator that fails on demand.  MFAIL_MIN: only requests of at
 * least this many bytes count.  MFAIL_AT: number (from 1) of the request that
 * fails, 0 for none.  MFAIL_ALL: the later ones fail too.  MFAIL_OUT: file that
 * gets "<requests seen> <requests failed>"; rewritten at the first failure, so
 * that the number is there after an abort as well. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t), *__libc_calloc(size_t, size_t), *__libc_memalign(size_t, size_t);
static long seen, failed, at = -1, min, all;
static const char *to;
static void note(void) {
  char b[64], *e = b + sizeof b;
  long v[2] = {failed, seen};
  int i, fd;
  if (!to) return;
  *--e = '\n';
  for (i = 0; i < 2; ++i) {
    long x = v[i];
    do *--e = '0' + x % 10; while (x /= 10);
    if (!i) *--e = ' ';
  }
  fd = open(to, O_CREAT | O_WRONLY | O_TRUNC, 0600);
  if (fd < 0) return;
  if (write(fd, e, b + sizeof b - e) < 0) {}
  close(fd);
}
static void init(void) {
  const char *s;
  to = getenv("MFAIL_OUT");
  min = (s = getenv("MFAIL_MIN")) ? atol(s) : 0;
  all = (s = getenv("MFAIL_ALL")) ? atol(s) : 0;
  at = (s = getenv("MFAIL_AT")) ? atol(s) : 0;
}
static int fails(size_t n) {
  if (at < 0) init();
  if ((long)n < min) return 0;
  ++seen;
  if (at && (seen == at || (all && seen > at))) {
    if (!failed++) note();
    errno = ENOMEM;
    return 1;
  }
  return 0;
}
void *malloc(size_t n) { return fails(n) ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return fails(a * b) ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return n && fails(n) ? NULL : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return fails(n) ? NULL : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
__attribute__((destructor)) static void out(void) { note(); }
