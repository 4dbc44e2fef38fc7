// A library to be preloaded: it perturbs what a program must not depend on, that is: the order and the contents of the memory blocks that
// it gets, the time, and the process id. All is derived from the environment variable PPP_SHUFFLE.
#include <malloc.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>

namespace {

uint64_t g_state = 0;
bool g_init = false;
void* g_spare[512];

uint64_t next() {
  if (!g_init) {
    const char* s = getenv("PPP_SHUFFLE");
    g_state = 0x9e3779b97f4a7c15ull * (1 + (s ? strtoull(s, nullptr, 10) : 0));
    g_init = true;
  }
  g_state ^= g_state << 13;
  g_state ^= g_state >> 7;
  g_state ^= g_state << 17;
  return g_state * 0x2545f4914f6cdd1dull >> 16;
}

void* get(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) { throw std::bad_alloc(); }
  if (n <= 4096) {
    // Get some more blocks, take any of them, and give the others back sooner or later.
    for (uint64_t k = next() % 4; k > 0; k--) {
      void* q = malloc(n ? n : 1);
      if (next() & 1) { void* t = p; p = q; q = t; }
      uint64_t i = next() % 512;
      free(g_spare[i]);
      g_spare[i] = q;
    }
  }
  memset(p, static_cast<int>(next()), n);
  return p;
}

void put(void* p) {
  if (!p) { return; }
  memset(p, static_cast<int>(next()), malloc_usable_size(p));
  free(p);
}

}  // namespace

void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }

extern "C" time_t time(time_t* t) {
  time_t r = static_cast<time_t>(next() % 4000000000u);
  if (t) { *t = r; }
  return r;
}
extern "C" pid_t getpid() { return static_cast<pid_t>(1 + next() % 4000000); }
