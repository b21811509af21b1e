/* LD_PRELOAD allocator: the order of addresses is random (seeded by
   SHUFFLE_SEED) and fresh memory is filled with junk. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
extern void *__libc_malloc(size_t);
extern char **environ;
#define CLASSES 40
#define POOL 24
static void *pool[CLASSES][POOL];
static int have[CLASSES];
static uint64_t state;
static volatile int lock_;
static uint64_t rnd(void) {
  if (!state) {
    state = 88172645463325252ull;
    for (char **e = environ; e && *e; ++e)
      if (!strncmp(*e, "SHUFFLE_SEED=", 13))
        state ^= strtoull(*e + 13, 0, 10) * 0x9E3779B97F4A7C15ull;
  }
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  return state;
}
void *malloc(size_t n) {
  int c = 0;
  size_t size = 32;
  while (size < n && c < CLASSES - 1) {
    size += size / 2 / 16 * 16;
    ++c;
  }
  void *p;
  if (size < n || size > (1u << 20)) {
    p = __libc_malloc(n);
  } else {
    while (__sync_lock_test_and_set(&lock_, 1)) {
    }
    while (have[c] < (size > 65536 ? 4 : POOL)) {
      void *q = __libc_malloc(size);
      if (!q) break;
      pool[c][have[c]++] = q;
    }
    if (have[c]) {
      int i = rnd() % have[c];
      p = pool[c][i];
      pool[c][i] = pool[c][--have[c]];
    } else {
      p = 0;
    }
    __sync_lock_release(&lock_);
  }
  if (p) memset(p, (int)(rnd() & 0xff), n);
  return p;
}
extern void *__libc_memalign(size_t, size_t);
void *aligned_alloc(size_t a, size_t n) {
  return a <= 16 ? malloc(n) : __libc_memalign(a, n);
}
void *memalign(size_t a, size_t n) { return aligned_alloc(a, n); }
int posix_memalign(void **p, size_t a, size_t n) {
  *p = aligned_alloc(a, n);
  return *p ? 0 : 12;
}
