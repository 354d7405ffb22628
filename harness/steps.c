/* Counts executed basic blocks of code compiled with
   -fsanitize-coverage=trace-pc (and, by length, of memcpy, memmove and memset); the total goes to the file named by
   VERIF_STEPS when the program ends. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define PLAIN __attribute__((no_sanitize_coverage))
static unsigned long long steps;
void PLAIN __sanitizer_cov_trace_pc(void) { ++steps; }
/* bulk operations of the C library count by their length (linker option --wrap) */
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* PLAIN __wrap_memcpy(void* d, const void* s, size_t n) { steps += n >> 4; return __real_memcpy(d, s, n); }
void* PLAIN __wrap_memmove(void* d, const void* s, size_t n) { steps += n >> 4; return __real_memmove(d, s, n); }
void* PLAIN __wrap_memset(void* d, int c, size_t n) { steps += n >> 4; return __real_memset(d, c, n); }
static void PLAIN __attribute__((destructor)) report(void) {
  const char* p = getenv("VERIF_STEPS");
  FILE* f = p ? fopen(p, "w") : 0;
  if (f) { fprintf(f, "%llu\n", steps); fclose(f); }
}
