// P11: the scheduler.  The library and the programs are compiled with the
// instrumentation of ThreadSanitizer, but its run-time is here: every access
// to a managed buffer is a scheduling point.  This file is not instrumented.
#include "race.hpp"

namespace race {
alignas(64) char pool[SLOTS][SLOT];
Meta meta[SLOTS];
int nthreads, current = -1;
unsigned preemptions_left;
mc::Chooser *chooser;
uint64_t points;

struct Fiber {
  ucontext_t ctx;
  char *stack;
  bool done;
  void (*body)(int);
};
static Fiber fibers[MAXT];
static ucontext_t main_ctx;

static void switch_to(int next) {
  const int prev = current;
  current = next;
  if (prev != next)
    swapcontext(&fibers[prev].ctx, &fibers[next].ctx);
}
static void point() {
  if (current < 0)
    return;
  ++points;
  if (!preemptions_left)
    return;
  int others[MAXT], n = 0;
  for (int i = 0; i < nthreads; ++i)
    if (i != current && !fibers[i].done)
      others[n++] = i;
  if (!n)
    return;
  const uint32_t c = chooser->choose(uint32_t(n) + 1);
  if (c) {
    --preemptions_left;
    switch_to(others[c - 1]);
  }
}
static int slot_of(const void *p) {
  const char *c = static_cast<const char *>(p);
  if (c < pool[0] || c >= pool[0] + sizeof pool)
    return -1;
  return int((c - pool[0]) / SLOT);
}
static void access(const void *p, size_t n, bool write) {
  if (current < 0)
    return;
  int s = slot_of(p);
  if (s < 0)
    return;
  point();
  MC_CHECK(meta[s].live, "thread %d %s a buffer which is already freed",
           current, write ? "writes to" : "reads");
  MC_CHECK(static_cast<const char *>(p) + n <= pool[s] + meta[s].bytes,
           "thread %d %s outside of a buffer", current,
           write ? "writes" : "reads");
}

//----------------------------------------------------------------- allocator
static hippeus_buffer_t *borrow(hippeus_allot_t *, size_t wanna, bool,
                         hippeus_actor_t);
static void repay(hippeus_allot_t *, hippeus_buffer_t *b, hippeus_actor_t);
static bool valid(const hippeus_allot_t *, bool, bool) { return true; }
static hippeus_allot_t allot = {SLOT, 0, borrow, repay, valid};
hippeus::buffer_tag tag() { return hippeus::buffer_tag(&allot, false); }
hippeus_buffer_t *borrow(hippeus_allot_t *, size_t wanna, bool,
                         hippeus_actor_t) {
  const size_t bytes = wanna + hippeus::buffer_solid::space_overhead();
  if (bytes > SLOT)
    mc::harness_error("slot of the allocator is too small: %zu", bytes);
  for (unsigned i = 0; i < SLOTS; ++i)
    if (!meta[i].live && !meta[i].freed) {
      meta[i] = {true, false, uint32_t(bytes)};
      return new (pool[i]) hippeus::buffer_solid(tag(), bytes);
    }
  mc::harness_error("out of slots of the allocator");
}
void repay(hippeus_allot_t *, hippeus_buffer_t *b, hippeus_actor_t) {
  const int i = slot_of(b);
  MC_CHECK(i >= 0 && reinterpret_cast<char *>(b) == pool[i],
           "something which is not a buffer is returned to the allocator");
  MC_CHECK(!meta[i].freed, "thread %d frees a buffer for the second time",
           current);
  point();
  MC_CHECK(!meta[i].freed, "thread %d frees a buffer for the second time",
           current);
  meta[i].live = false;
  meta[i].freed = true; // never reused, to be able to see late accesses
}


static void fiber_main(int tid) {
  fibers[tid].body(tid);
  fibers[tid].done = true;
  int others[MAXT], n = 0;
  for (int i = 0; i < nthreads; ++i)
    if (!fibers[i].done)
      others[n++] = i;
  if (n) {
    const uint32_t c = n > 1 ? chooser->choose(uint32_t(n)) : 0;
    switch_to(others[c]);
  } else {
    current = -1;
    swapcontext(&fibers[tid].ctx, &main_ctx);
  }
}
void start(int i, void (*body)(int)) {
  Fiber &f = fibers[i];
  if (!f.stack)
    f.stack = static_cast<char *>(malloc(STACK));
  getcontext(&f.ctx);
  f.ctx.uc_stack.ss_sp = f.stack;
  f.ctx.uc_stack.ss_size = STACK;
  f.ctx.uc_link = nullptr;
  makecontext(&f.ctx, reinterpret_cast<void (*)()>(fiber_main), 1, i);
  f.done = false;
  f.body = body;
}
void run(int first) {
  current = first;
  swapcontext(&main_ctx, &fibers[current].ctx);
}
} // namespace race
using race::access;

//------------------------------------------------- run-time of instrumentation
extern "C" {
#define ACC(N)                                                                 \
  void __tsan_read##N(void *p) { access(p, N, false); }                        \
  void __tsan_write##N(void *p) { access(p, N, true); }                        \
  void __tsan_unaligned_read##N(void *p) { access(p, N, false); }              \
  void __tsan_unaligned_write##N(void *p) { access(p, N, true); }              \
  void __tsan_volatile_read##N(void *p) { access(p, N, false); }               \
  void __tsan_volatile_write##N(void *p) { access(p, N, true); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void *, void *) {}
void __tsan_vptr_read(void *) {}
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
#define ATOM(B, T)                                                             \
  T __tsan_atomic##B##_load(const volatile T *p, int) {                        \
    access(const_cast<T *>(p), sizeof(T), false);                              \
    return *p;                                                                 \
  }                                                                            \
  void __tsan_atomic##B##_store(volatile T *p, T v, int) {                     \
    access(const_cast<T *>(p), sizeof(T), true);                               \
    *p = v;                                                                    \
  }                                                                            \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int) {                     \
    access(const_cast<T *>(p), sizeof(T), true);                               \
    T o = *p;                                                                  \
    *p = v;                                                                    \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) {                    \
    access(const_cast<T *>(p), sizeof(T), true);                               \
    T o = *p;                                                                  \
    *p = T(o + v);                                                             \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) {                    \
    access(const_cast<T *>(p), sizeof(T), true);                               \
    T o = *p;                                                                  \
    *p = T(o - v);                                                             \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) {                    \
    access(const_cast<T *>(p), sizeof(T), true);                               \
    T o = *p;                                                                  \
    *p = T(o & v);                                                             \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) {                     \
    access(const_cast<T *>(p), sizeof(T), true);                               \
    T o = *p;                                                                  \
    *p = T(o | v);                                                             \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) {                    \
    access(const_cast<T *>(p), sizeof(T), true);                               \
    T o = *p;                                                                  \
    *p = T(o ^ v);                                                             \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) {                   \
    access(const_cast<T *>(p), sizeof(T), true);                               \
    T o = *p;                                                                  \
    *p = T(~(o & v));                                                          \
    return o;                                                                  \
  }                                                                            \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v,     \
                                                 int, int) {                   \
    access(const_cast<T *>(p), sizeof(T), true);                               \
    if (*p == *e) {                                                            \
      *p = v;                                                                  \
      return 1;                                                                \
    }                                                                          \
    *e = *p;                                                                   \
    return 0;                                                                  \
  }                                                                            \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v,       \
                                               int a, int b) {                 \
    return __tsan_atomic##B##_compare_exchange_strong(p, e, v, a, b);          \
  }                                                                            \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int,      \
                                            int) {                             \
    access(const_cast<T *>(p), sizeof(T), true);                               \
    T o = *p;                                                                  \
    if (o == e)                                                                \
      *p = v;                                                                  \
    return o;                                                                  \
  }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  access(s, n, false);
  access(d, n, true);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  access(s, n, false);
  access(d, n, true);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  access(d, n, true);
  return __real_memset(d, c, n);
}
}

