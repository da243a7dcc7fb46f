/* memcpy and its kind, charging what the code under test moves to its step count (one step for 16 bytes). */
#include <stddef.h>
#include <stdint.h>
void sim_moved(size_t n);
static inline void fwd(char *d, const char *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline void bwd(char *d, const char *s, size_t n) {
  d += n; s += n;
  while (n & 7) { *--d = *--s; n--; }
  while (n) { d -= 8; s -= 8; n -= 8; uint64_t v; __builtin_memcpy(&v, s, 8); __builtin_memcpy(d, &v, 8); __asm__ volatile("" ::: "memory"); }
}
void *memcpy(void *d, const void *s, size_t n) { sim_moved(n / 16); fwd(d, s, n); return d; }
void *memmove(void *d, const void *s, size_t n) {
  sim_moved(n / 16);
  if ((uintptr_t)d - (uintptr_t)s >= n) fwd(d, s, n); else bwd(d, s, n);
  return d;
}
void *memset(void *d, int c, size_t n) {
  sim_moved(n / 16);
  void *p = d; size_t m = n;
  __asm__ volatile("rep stosb" : "+D"(p), "+c"(m) : "a"(c) : "memory");
  return d;
}
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  sim_moved(n / 16);
  for (size_t i = 0; i < n; i++) { if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; __asm__ volatile("" ::: "memory"); }
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
