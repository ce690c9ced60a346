// A controlled scheduler for real threads running the library. The library is compiled as for the thread sanitizer; the
// callbacks below replace the sanitizer's runtime. Exactly one thread runs at a time; it may lose the processor at each
// access to memory that is not its own (its stack, its arena of the heap, read-only data) and around calls of C library
// functions with memory or hidden state of that kind.
#pragma once
#include "mc.hpp"
#include <atomic>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
extern "C" {
extern char __start_lmdata[], __stop_lmdata[], __start_lmbss[], __stop_lmbss[];
extern char __executable_start, __data_start, __etext;
void *__libc_malloc (size_t); void *__libc_calloc (size_t, size_t); void *__libc_realloc (void *, size_t); void __libc_free (void *); void *__libc_memalign (size_t, size_t);
}
namespace sched {
static const int MAXT = 3;
static const size_t ARENA = 256 << 20, STACK = 1 << 20, SHARED = 8 << 20, TOTAL = MAXT * (ARENA + STACK) + SHARED;
struct Thread { char *heap = NULL, *top = NULL, *stack = NULL; sem_t go; bool done = true; uint64_t points = 0; std::function<void ()> fn; pthread_t id; };
struct Plan { int who; uint64_t after; }; // after so many points of the running thread, this one continues
struct World
{
  Thread t[MAXT]; int n = 0; bool active = false; std::vector<Plan> plan; size_t next = 0; uint64_t since = 0; sem_t all;
  bool record = false; std::set<uintptr_t> reads[MAXT], writes[MAXT]; const std::set<uintptr_t> *only = NULL; uint64_t switches = 0; bool spun = false;
  std::string pristine_data, pristine_bss, pristine_shared; char *base = NULL, *shared = NULL, *stop = NULL; bool sharing = false;
};
inline World &W () { static World w; return w; }
static thread_local int me = -1;
static thread_local int inhook = 0;
inline bool mine (uintptr_t a)
{
  Thread &t = W ().t[me];
  if (a - (uintptr_t)t.heap < ARENA || a - (uintptr_t)t.stack < STACK) return true;
  return a >= (uintptr_t)&__executable_start && a < (uintptr_t)&__data_start; // code and constants
}
inline void to (int k)
{
  World &w = W (); int self = me; w.switches++;
  sem_post (&w.t[k].go); while (sem_wait (&w.t[self].go)) ;
}
inline void point (uintptr_t a, size_t n, bool write)
{
  World &w = W ();
  if (w.record) for (uintptr_t g = a / 8; g <= (a + (n ? n - 1 : 0)) / 8; g++) (write ? w.writes : w.reads)[me].insert (g);
  if (w.only) { bool hit = false; for (uintptr_t g = a / 8; g <= (a + (n ? n - 1 : 0)) / 8 && !hit; g++) hit = w.only->count (g); if (!hit) return; }
  w.t[me].points++;
  if (w.next < w.plan.size () && w.since++ == w.plan[w.next].after)
  {
    int k = w.plan[w.next].who; w.next++; w.since = 0;
    if (k != me && !w.t[k].done) to (k);
  }
}
inline void access (const void *p, size_t n, bool write)
{
  if (me < 0 || inhook || !W ().active) return;
  uintptr_t a = (uintptr_t)p; if (mine (a)) return;
  inhook = 1; point (a, n, write); inhook = 0;
}
inline void hidden (int which) { static char cell[8 * 16]; access (cell + 8 * which, 1, true); }
inline void *entry (void *arg)
{
  World &w = W (); int k = (int)(intptr_t)arg; while (sem_wait (&w.t[k].go)) ;
  me = k; w.t[k].fn (); me = -1;
  w.t[k].done = true; w.since = 0;
  int nx = -1; for (int i = 1; i < w.n && nx < 0; i++) if (!w.t[(k + i) % w.n].done) nx = (k + i) % w.n;
  if (nx >= 0) sem_post (&w.t[nx].go); else sem_post (&w.all);
  return NULL;
}
inline void prepare ()
{
  World &w = W (); if (w.base) return;
  w.base = (char *)mmap (NULL, TOTAL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXT; i++) { w.t[i].stack = w.base + i * STACK; w.t[i].heap = w.base + MAXT * STACK + i * ARENA; sem_init (&w.t[i].go, 0, 0); }
  w.shared = w.stop = w.base + MAXT * (ARENA + STACK);
  sem_init (&w.all, 0, 0);
  w.pristine_data.assign (__start_lmdata, __stop_lmdata); w.pristine_bss.assign (__start_lmbss, __stop_lmbss);
}
// What this makes is shared by the threads: its memory is as made before every execution.
inline void make_shared (const std::function<void ()> &f)
{
  prepare (); World &w = W (); w.sharing = true; f (); w.sharing = false; w.pristine_shared.assign (w.shared, w.stop);
}
// Run the functions (an empty one: no such thread) in threads of their own, starting with the given one, switching as planned; the library's
// variables are as at program start before, and as the run left them after.
inline void run (const std::vector<std::function<void ()>> &fns, int first, const std::vector<Plan> &plan, bool record = false, const std::set<uintptr_t> *only = NULL)
{
  prepare (); World &w = W ();
  memcpy (__start_lmdata, w.pristine_data.data (), w.pristine_data.size ()); memcpy (__start_lmbss, w.pristine_bss.data (), w.pristine_bss.size ());
  memcpy (w.shared, w.pristine_shared.data (), w.pristine_shared.size ());
  w.n = fns.size (); w.plan = plan; w.next = 0; w.since = 0; w.record = record; w.only = only; w.active = true;
  for (int i = 0; i < w.n; i++)
  {
    Thread &t = w.t[i]; t.fn = fns[i]; t.done = !fns[i]; if (t.done) continue; t.points = 0; t.top = t.heap; if (record) { w.reads[i].clear (); w.writes[i].clear (); }
    pthread_attr_t a; pthread_attr_init (&a); pthread_attr_setstack (&a, t.stack, STACK); if (pthread_create (&t.id, &a, entry, (void *)(intptr_t)i)) mc::fail ("pthread_create"); pthread_attr_destroy (&a);
  }
  sem_post (&w.t[first].go); while (sem_wait (&w.all)) ;
  w.active = false; w.record = false; w.only = NULL;
  for (int i = 0; i < w.n; i++) if (fns[i]) pthread_join (w.t[i].id, NULL);
}
inline bool globals_changed () { World &w = W (); return memcmp (__start_lmdata, w.pristine_data.data (), w.pristine_data.size ()) || memcmp (__start_lmbss, w.pristine_bss.data (), w.pristine_bss.size ()); }
inline void *arena_alloc (size_t n, size_t al = 16)
{
  World &w = W (); char *&top = me < 0 ? w.stop : w.t[me].top; char *end = me < 0 ? w.shared + SHARED : w.t[me].heap + ARENA;
  uintptr_t p = ((uintptr_t)top + 16 + al - 1) / al * al; if (p + n > (uintptr_t)end) return NULL;
  ((size_t *)p)[-1] = n; top = (char *)p + n; return (void *)p;
}
inline bool in_arena (void *p) { World &w = W (); return w.base && (uintptr_t)p - (uintptr_t)w.base < TOTAL; }
inline bool own () { return me >= 0 || W ().sharing; }
} // namespace sched
extern "C" {
void *malloc (size_t n) { return sched::own () ? sched::arena_alloc (n) : __libc_malloc (n); }
void free (void *p) { if (p && !sched::in_arena (p)) __libc_free (p); }
void *calloc (size_t a, size_t b) { if (!sched::own ()) return __libc_calloc (a, b); void *p = sched::arena_alloc (a * b); if (p) memset (p, 0, a * b); return p; }
void *realloc (void *o, size_t n)
{
  if (!sched::own () && !(o && sched::in_arena (o))) return __libc_realloc (o, n);
  void *p = malloc (n); if (p && o) { size_t m = sched::in_arena (o) ? ((size_t *)o)[-1] : n; memcpy (p, o, m < n ? m : n); } return p;
}
void *memalign (size_t al, size_t n) { return sched::own () ? sched::arena_alloc (n, al) : __libc_memalign (al, n); }
void *aligned_alloc (size_t al, size_t n) { return memalign (al, n); }
int posix_memalign (void **p, size_t al, size_t n) { *p = memalign (al, n); return *p ? 0 : 12; }

// ---- what instrumented code calls
void __tsan_init () {}
void __tsan_func_entry (void *) {}
void __tsan_func_exit () {}
void __tsan_ignore_thread_begin () {}
void __tsan_ignore_thread_end () {}
#define ACC(N) \
  void __tsan_read##N (void *p) { sched::access (p, N, false); } void __tsan_write##N (void *p) { sched::access (p, N, true); } \
  void __tsan_unaligned_read##N (void *p) { sched::access (p, N, false); } void __tsan_unaligned_write##N (void *p) { sched::access (p, N, true); } \
  void __tsan_read_write##N (void *p) { sched::access (p, N, false); sched::access (p, N, true); } void __tsan_unaligned_read_write##N (void *p) { sched::access (p, N, false); sched::access (p, N, true); } \
  void __tsan_volatile_read##N (void *p) { sched::access (p, N, false); } void __tsan_volatile_write##N (void *p) { sched::access (p, N, true); }
ACC (1) ACC (2) ACC (4) ACC (8) ACC (16)
void __tsan_vptr_read (void **p) {}
void __tsan_vptr_update (void **p, void *) {}
void __tsan_read_range (void *p, size_t n) { sched::access (p, n, false); }
void __tsan_write_range (void *p, size_t n) { sched::access (p, n, true); }
void *__tsan_memcpy (void *d, const void *s, size_t n) { sched::access (s, n, false); sched::access (d, n, true); void *r = memcpy (d, s, n); sched::access (d, n, true); return r; }
void *__tsan_memmove (void *d, const void *s, size_t n) { sched::access (s, n, false); sched::access (d, n, true); void *r = memmove (d, s, n); sched::access (d, n, true); return r; }
void *__tsan_memset (void *d, int c, size_t n) { sched::access (d, n, true); void *r = memset (d, c, n); sched::access (d, n, true); return r; }
#define ATOMIC(B, T) \
  T __tsan_atomic##B##_load (const volatile T *p, int) { sched::access ((void *)p, sizeof (T), false); return __atomic_load_n (p, 5); } \
  void __tsan_atomic##B##_store (volatile T *p, T v, int) { sched::access ((void *)p, sizeof (T), true); __atomic_store_n (p, v, 5); } \
  T __tsan_atomic##B##_exchange (volatile T *p, T v, int) { sched::access ((void *)p, sizeof (T), true); return __atomic_exchange_n (p, v, 5); } \
  T __tsan_atomic##B##_fetch_add (volatile T *p, T v, int) { sched::access ((void *)p, sizeof (T), true); return __atomic_fetch_add (p, v, 5); } \
  T __tsan_atomic##B##_fetch_sub (volatile T *p, T v, int) { sched::access ((void *)p, sizeof (T), true); return __atomic_fetch_sub (p, v, 5); } \
  T __tsan_atomic##B##_fetch_or (volatile T *p, T v, int) { sched::access ((void *)p, sizeof (T), true); return __atomic_fetch_or (p, v, 5); } \
  T __tsan_atomic##B##_fetch_and (volatile T *p, T v, int) { sched::access ((void *)p, sizeof (T), true); return __atomic_fetch_and (p, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong (volatile T *p, T *c, T v, int, int) { sched::access ((void *)p, sizeof (T), true); return __atomic_compare_exchange_n (p, c, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak (volatile T *p, T *c, T v, int, int) { sched::access ((void *)p, sizeof (T), true); return __atomic_compare_exchange_n (p, c, v, 0, 5, 5); } \
  T __tsan_atomic##B##_compare_exchange_val (volatile T *p, T c, T v, int, int) { sched::access ((void *)p, sizeof (T), true); __atomic_compare_exchange_n (p, &c, v, 0, 5, 5); return c; }
ATOMIC (8, uint8_t) ATOMIC (16, uint16_t) ATOMIC (32, uint32_t) ATOMIC (64, uint64_t)
void __tsan_atomic_thread_fence (int) {}
void __tsan_atomic_signal_fence (int) {}

// ---- C library functions called from the library (ld --wrap)
#define DST(R, NAME, ARGS, CALL, D, N) R __real_##NAME ARGS; R __wrap_##NAME ARGS { sched::access (D, N, true); R r = __real_##NAME CALL; sched::access (D, N, true); return r; }
DST (char *, strcpy, (char *d, const char *s), (d, s), d, strlen (s) + 1)
DST (char *, strncpy, (char *d, const char *s, size_t n), (d, s, n), d, n)
DST (char *, strcat, (char *d, const char *s), (d, s), d, strlen (d) + strlen (s) + 1)
DST (char *, strncat, (char *d, const char *s, size_t n), (d, s, n), d, strlen (d) + 1)
DST (int, vsnprintf, (char *d, size_t n, const char *f, va_list a), (d, n, f, a), d, n)
DST (char *, fgets, (char *d, int n, FILE *f), (d, n, f), d, n)
DST (size_t, fread, (void *d, size_t s, size_t n, FILE *f), (d, s, n, f), d, s *n)
int __wrap_snprintf (char *d, size_t n, const char *f, ...) { sched::access (d, n, true); va_list a; va_start (a, f); int r = vsnprintf (d, n, f, a); va_end (a); sched::access (d, n, true); return r; }
int __wrap_sprintf (char *d, const char *f, ...) { sched::access (d, 1, true); va_list a; va_start (a, f); int r = vsprintf (d, f, a); va_end (a); sched::access (d, r + 1, true); return r; }
// functions with state of their own: it is shared by all threads
#define HIDDEN(R, NAME, ARGS, CALL, K) R __real_##NAME ARGS; R __wrap_##NAME ARGS { sched::hidden (K); R r = __real_##NAME CALL; sched::hidden (K); return r; }
struct tm;
HIDDEN (char *, strtok, (char *s, const char *d), (s, d), 0)
HIDDEN (struct tm *, localtime, (const time_t *t), (t), 1)
HIDDEN (struct tm *, gmtime, (const time_t *t), (t), 1)
HIDDEN (char *, asctime, (const struct tm *t), (t), 1)
HIDDEN (char *, ctime, (const time_t *t), (t), 1)
HIDDEN (int, rand, (), (), 2)
HIDDEN (char *, setlocale, (int c, const char *l), (c, l), 3)
HIDDEN (int, setenv, (const char *n, const char *v, int o), (n, v, o), 4)
HIDDEN (int, chdir, (const char *p), (p), 5)
HIDDEN (mode_t, umask, (mode_t m), (m), 5)
// a lock that is held: another thread continues
int __real_pthread_mutex_lock (pthread_mutex_t *m);
int __wrap_pthread_mutex_lock (pthread_mutex_t *m)
{
  if (sched::me < 0 || !sched::W ().active) return __real_pthread_mutex_lock (m);
  for (;;)
  {
    if (!pthread_mutex_trylock (m)) return 0;
    int k = -1; auto &w = sched::W (); for (int i = 1; i < w.n && k < 0; i++) if (!w.t[(sched::me + i) % w.n].done) k = (sched::me + i) % w.n;
    if (k < 0) mc::fail ("a lock is never released"); sched::to (k);
  }
}
}
