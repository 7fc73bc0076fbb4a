// Counts executed basic blocks, allocated and scanned or copied bytes, and stack depth of the measured region (not instrumented itself).
#include <stdint.h>
#include <stdlib.h>

#include <new>

#include "cov_rt.h"
uint64_t cov_blocks = 0, cov_bytes = 0, cov_limit = ~0ull;
uintptr_t cov_low = ~0ull;
bool cov_on = false;
int cov_lib = 0;
void (*cov_over)() = nullptr;
extern "C" void __sanitizer_cov_trace_pc() {
  if (!cov_on) return;
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  if (sp < cov_low) cov_low = sp;
  if (++cov_blocks > cov_limit) {
    cov_on = false;
    cov_over();
  }
}
void* operator new(size_t n) {
  if (cov_on && !cov_lib) cov_bytes += n;
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// What the measured code does in memory and string functions counts too, also where the C++ library calls them.
static inline void scanned(size_t n) {
  if (cov_on && !cov_lib) cov_bytes += n;
}
extern "C" {
void* memcpy(void* d, const void* s, size_t n) {
  scanned(n);
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n) {
  scanned(n);
  char* x = (char*)d;
  const char* y = (const char*)s;
  if ((uintptr_t)x - (uintptr_t)y >= n) {
    void* dd = d;
    asm volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(n) : : "memory");
  } else {
    while (n--) x[n] = y[n];
  }
  return d;
}
void* memset(void* d, int c, size_t n) {
  scanned(n);
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
void* memchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  size_t i = 0;
  while (i < n && p[i] != (unsigned char)c) ++i;
  scanned(i);
  return i < n ? (void*)(p + i) : nullptr;
}
void* memrchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  size_t i = n;
  while (i > 0 && p[i - 1] != (unsigned char)c) --i;
  scanned(n - i);
  return i > 0 ? (void*)(p + i - 1) : nullptr;
}
int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  size_t i = 0;
  while (i < n && x[i] == y[i]) ++i;
  scanned(i);
  return i < n ? (int)x[i] - (int)y[i] : 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char* s) {
  size_t i = 0;
  while (s[i]) ++i;
  scanned(i);
  return i;
}
}
