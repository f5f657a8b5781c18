// Records what is allocated (operator new and, linked with --wrap, malloc and friends)
// while recording is on.  The link needs -Wl,--wrap for malloc, calloc, free,
// posix_memalign, memalign.  Include in one translation unit.
#ifndef VT_ALLOC_HPP
#define VT_ALLOC_HPP
#include <new>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <mutex>
#include <execinfo.h>
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t); void *__real_memalign(size_t, size_t);}
namespace alloc
{
struct Rec { Rec *next; void *p; size_t n; long seq; char const *label; void *bt[10]; int nbt;};
static size_t const buckets = 1 << 14;
static Rec *head[buckets], *spare; static long count, bytes, seq; static int want_bt = -1; static char const *label = ""; static std::mutex mx;
static thread_local int on;      // >0: allocations of this thread are recorded
static Rec **bucket(void *p) { return head + ((uintptr_t(p) >> 4) * 0x9E3779B97F4A7C15ull >> 50);}
static void add(void *p, size_t n)
{
  if (!p || on <= 0) return;
  int was = on; on = 0;
  {
    std::lock_guard<std::mutex> g(mx);
    if (want_bt < 0) want_bt = getenv("VT_ALLOC_BT") ? 1 : 0;
    Rec *r = spare; if (r) spare = r->next; else r = static_cast<Rec*>(__real_malloc(sizeof(Rec)));
    Rec **h = bucket(p); r->next = *h; *h = r;
    r->p = p; r->n = n; r->seq = ++seq; r->label = label; r->nbt = want_bt ? backtrace(r->bt, 10) : 0; ++count; bytes += n;
  }
  on = was;
}
static void del(void *p)
{
  if (!p || !count) return;
  std::lock_guard<std::mutex> g(mx);
  for (Rec **h = bucket(p); *h; h = &(*h)->next)
    if ((*h)->p == p) { Rec *r = *h; *h = r->next; --count; bytes -= r->n; r->next = spare; spare = r; return;}
}
struct On { On() { ++on;} ~On() { --on;}};
struct Off { int was; Off() : was(on) { on = 0;} ~Off() { on = was;}};
// what is live and was allocated after 'since'
template <typename F> void each(long since, F f) { for (size_t i = 0; i < buckets; ++i) for (Rec *r = head[i]; r; r = r->next) if (r->seq > since) f(*r);}
static void report(long since)   // debugging aid
{
  if (want_bt > 0) each(since, [](Rec &r) { fprintf(stderr, "-- %zu bytes in %s\n", r.n, r.label); backtrace_symbols_fd(r.bt, r.nbt, 2);});
}
}
extern "C" void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); alloc::add(p, n); return p;}
extern "C" void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); alloc::add(p, n * m); return p;}
extern "C" void *__wrap_memalign(size_t n, size_t m) { void *p = __real_memalign(n, m); alloc::add(p, m); return p;}
extern "C" int __wrap_posix_memalign(void **q, size_t n, size_t m) { int r = __real_posix_memalign(q, n, m); if (!r) alloc::add(*q, m); return r;}
extern "C" void __wrap_free(void *p) { alloc::del(p); __real_free(p);}
void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); alloc::add(p, n); return p;}
void *operator new[](size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); alloc::add(p, n); return p;}
void operator delete(void *p) noexcept { alloc::del(p); __real_free(p);}
void operator delete[](void *p) noexcept { alloc::del(p); __real_free(p);}
void operator delete(void *p, size_t) noexcept { alloc::del(p); __real_free(p);}
void operator delete[](void *p, size_t) noexcept { alloc::del(p); __real_free(p);}
#endif
