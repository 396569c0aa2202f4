// Library functions given to the symbolic executor as code.  Native replays use
// the real library instead.
#include <cstddef>
#include <cstdint>
extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  while (*a && *a == *b) a++, b++;
  return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) {
    if (*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b;
  }
  return 0;
}
void *memchr(const void *p, int c, size_t n) {
  const unsigned char *s = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i);
  return nullptr;
}
}
