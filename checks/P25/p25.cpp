// Every allocation the library makes in an operation is made to fail once.
#include "vt.hpp"
#include <new>
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t); void *__real_memalign(size_t, size_t);}
namespace inj
{
static bool on = false; static long at = 0, seen = 0; static bool hit = false; static long live = 0; static long what = 0;
struct Quiet { bool was; Quiet() : was(on) { on = false;} ~Quiet() { on = was;}};
static std::set<void *> *held = 0; static long wrong = 0;
static bool fails() { if (!on) return false; ++seen; if (seen == at) { hit = true; return true;} return false;}
static void add(void *p) { if (held && p) { bool w = on; on = false; std::set<void *> *h = held; held = 0; h->insert(p); held = h; on = w;}}
static void del(void *p) { if (held && p) { std::set<void *> *h = held; held = 0; if (!h->erase(p)) { } held = h;}}
}
extern "C" void *__wrap_malloc(size_t n) { if (inj::fails()) return 0; void *p = __real_malloc(n); inj::add(p); return p;}
extern "C" void *__wrap_calloc(size_t n, size_t m) { if (inj::fails()) return 0; void *p = __real_calloc(n, m); inj::add(p); return p;}
extern "C" void *__wrap_memalign(size_t n, size_t m) { if (inj::fails()) return 0; void *p = __real_memalign(n, m); inj::add(p); return p;}
extern "C" int __wrap_posix_memalign(void **q, size_t n, size_t m) { if (inj::fails()) return 12; int r = __real_posix_memalign(q, n, m); if (!r) inj::add(*q); return r;}
extern "C" void __wrap_free(void *p) { inj::del(p); __real_free(p);}
void *operator new(size_t n) { if (inj::fails()) throw std::bad_alloc(); void *p = __real_malloc(n ? n : 1); inj::add(p); return p;}
void *operator new[](size_t n) { if (inj::fails()) throw std::bad_alloc(); void *p = __real_malloc(n ? n : 1); inj::add(p); return p;}
void operator delete(void *p) noexcept { inj::del(p); __real_free(p);}
void operator delete[](void *p) noexcept { inj::del(p); __real_free(p);}
void operator delete(void *p, size_t) noexcept { inj::del(p); __real_free(p);}
void operator delete[](void *p, size_t) noexcept { inj::del(p); __real_free(p);}

#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <vsip/signal.hpp>
#include <vsip/selgen.hpp>
#include <vsip/solvers.hpp>
#include <vsip/random.hpp>
#include <vsip/dda.hpp>
#include <vsip/map.hpp>
#include <ovxx/strided.hpp>
#include <functional>
#include <exception>
#include <sys/wait.h>
using namespace vsip;
using vt::Ctx; using vt::Rng; using vt::str;
typedef std::complex<float> cf; typedef std::complex<double> cd;
struct Arm { Arm() { inj::on = true;} ~Arm() { inj::on = false;}};

// operands that must survive whatever happens
struct World
{
  Vector<float> v; Vector<cf> z; Matrix<float> m; Matrix<cf> c; Matrix<double> d; Matrix<cd> e; Tensor<float> t;
  typedef ovxx::Strided<1, cf, Layout<1, row1_type, dense, split_complex> > S1; Vector<cf, S1> s;
  typedef ovxx::Strided<2, cf, Layout<2, row2_type, dense, split_complex> > S2; Matrix<cf, S2> q;
  World(Rng &r) : v(16), z(16), m(6, 8), c(6, 8), d(5, 5), e(5, 5), t(3, 4, 5), s(16), q(6, 8)
  {
    for (int i = 0; i < 16; ++i) { v.put(i, r.sym()); z.put(i, cf(r.sym(), i)); s.put(i, cf(i, r.sym()));}
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 8; ++j) { m.put(i, j, r.sym()); c.put(i, j, cf(r.sym(), i)); q.put(i, j, cf(r.sym(), j));}
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) { d.put(i, j, r.sym() + 8 * (i == j)); e.put(i, j, cd(r.sym() + 8 * (i == j), i == j ? 0 : r.sym()));}
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 5; ++k) t.put(i, j, k, r.sym());
  }
  double sum() const
  {
    double o = 0; int w = 1; auto add = [&](double x) { o += x * (1 + (w++ % 37));};
    for (int i = 0; i < 16; ++i) { add(v.get(i)); add(z.get(i).real()); add(z.get(i).imag()); add(s.get(i).real()); add(s.get(i).imag());}
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 8; ++j) { add(m.get(i, j)); add(c.get(i, j).real()); add(c.get(i, j).imag()); add(q.get(i, j).real()); add(q.get(i, j).imag());}
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) { add(d.get(i, j)); add(e.get(i, j).real()); add(e.get(i, j).imag());}
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 5; ++k) add(t.get(i, j, k));
    return o;
  }
};
static double num(float x) { return x;} static double num(double x) { return x;} static double num(int x) { return x;} static double num(bool x) { return x;} static double num(cf x) { return x.real() + 2.5 * x.imag();} static double num(cd x) { return x.real() + 2.5 * x.imag();}
template <typename T, typename B> static double sig(const_Vector<T, B> x) { double o = 0; for (index_type i = 0; i < x.size(); ++i) o += num(x.get(i)) * (1 + i % 7); return o;}
template <typename T, typename B> static double sig(const_Matrix<T, B> x) { double o = 0; for (index_type i = 0; i < x.size(0); ++i) for (index_type j = 0; j < x.size(1); ++j) o += num(x.get(i, j)) * (1 + (i * 3 + j) % 7); return o;}
template <typename T, typename B> static double sig(const_Tensor<T, B> x) { double o = 0; for (index_type i = 0; i < x.size(0); ++i) for (index_type j = 0; j < x.size(1); ++j) for (index_type k = 0; k < x.size(2); ++k) o += num(x.get(i, j, k)) * (1 + (i * 3 + j * 5 + k) % 7); return o;}

struct Op { char const *name; std::function<double(World &)> f;};
static std::vector<Op> ops;
static void op(char const *n, std::function<double(World &)> f) { Op o = {n, f}; ops.push_back(o);}
// BODY is run while allocations may fail; VALUE afterwards
#define OP(NAME, BODY, VALUE) op(NAME, [](World &w) -> double { (void)w; inj::on = true; BODY; inj::on = false; return VALUE;});
// only what is not declared noexcept can report a failure
#define NOEX(X) (noexcept(X))

static std::set<std::string> const &musts();
// outcome of one execution in which the k-th allocation fails
struct Outcome { char code; char text[400];};      // K ok, P point not reached, S survived with the right result, T terminate, F failed
static Outcome attempt(Op const &o, World &w, long k, double want, double before)
{
  Outcome r; memset(&r, 0, sizeof r); double got = 0; std::set<void *> held; int threw = 0; std::string why, key;
  inj::held = &held; inj::seen = 0; inj::at = k; inj::hit = false;
  try { got = o.f(w); inj::on = false;} catch (std::bad_alloc const &) { inj::on = false; threw = 1;} catch (std::exception const &x) { inj::on = false; inj::held = 0; threw = 2; why = x.what();}
  inj::held = 0; size_t left = held.size(); held.clear(); inj::at = -1;
  auto close = [](double a, double b) { return std::abs(a - b) <= 1e-3 * (1 + std::abs(b));};
  std::string bad;
  if (!inj::hit) { r.code = 'P'; return r;}
  if (threw == 0 && !close(got, want)) bad = str("unreported|no exception, and the result is ", got, " instead of ", want);
  else if (threw == 2) bad = "other-exception|" + why;
  else if (left) bad = str("leak|", left, " allocations of the failed operation are still held");
  else if (w.sum() != before) bad = "operands|existing views changed";
  else
  {
    double again = o.f(w); inj::on = false;
    if (!close(again, want)) bad = str("retry|repeated, the operation gives ", again, " instead of ", want);
    else if (w.sum() != before) bad = "operands|existing views changed by the repetition";
  }
  if (bad.empty()) r.code = threw ? 'K' : 'S'; else { r.code = 'F'; strncpy(r.text, bad.c_str(), sizeof r.text - 1);}
  return r;
}
static int report = -1;
static void ended() { Outcome r; memset(&r, 0, sizeof r); r.code = 'T'; if (write(report, &r, sizeof r) < 0) {} _exit(0);}
static void one(Ctx &c, Op const &o, World &w)
{
  c.begin(o.name);
  double before = w.sum(), want = 0;
  for (int i = 0; i < 2; ++i) { want = o.f(w); inj::on = false;}                    // warm up
  inj::seen = 0; inj::at = -1; inj::hit = false; double got = o.f(w); inj::on = false; long n = inj::seen;
  if (!(std::abs(got - want) <= 1e-3 * (1 + std::abs(want)))) { c.fail(str("repeat:", o.name), str("value ", got, " then ", want)); return;}
  c.count("allocation points", n); if (!n) c.count("operations without allocation");
  bool must = musts().count(o.name); long reported = 0;
  for (long k = 1; k <= n && k <= 400; ++k)
  {
    c.begin(str(o.name, " allocation ", k, " of ", n)); Outcome r; memset(&r, 0, sizeof r); std::string at = str(o.name, ", allocation ", k, " of ", n, " fails: ");
    if (must) r = attempt(o, w, k, want, before);          // must report, so nothing can end this program
    else
    {
      // may end the program: in a process of its own
      int fd[2]; if (pipe(fd)) continue; fflush(stdout); fflush(stderr); pid_t p = fork();
      if (!p) { close(fd[0]); report = fd[1]; std::set_terminate(ended); alarm(60); Outcome x = attempt(o, w, k, want, before); if (write(fd[1], &x, sizeof x) < 0) {} _exit(0);}
      close(fd[1]); ssize_t g = read(fd[0], &r, sizeof r); close(fd[0]); int st = 0; waitpid(p, &st, 0);
      if (g != sizeof r) { c.fail(str("crash:", o.name), str(at, "the program ended with status ", st)); continue;}
    }
    if (r.code == 'F') { std::string t = r.text; size_t q = t.find('|'); c.fail(str(t.substr(0, q), ":", o.name), at + t.substr(q + 1)); continue;}
    c.count(r.code == 'K' ? "reported by an exception" : r.code == 'S' ? "survived with the right result" : r.code == 'T' ? "ended by terminate" : "points not reached again");
    if (r.code == 'K') ++reported; if (r.code != 'P') c.ok(str(o.name, k, r.code));
  }
  if (must && n && !reported) c.fail(str("never-reported:", o.name), "no allocation failure was reported");
}
static void list();
#include "ops.inc"
void vt_main(Ctx &c)
{
  list();
  for (int rep = 0; rep < c.n(1); ++rep)
  {
    Rng r(c.rng.next()); World w(r);
    for (Op const &o : ops) one(c, o, w);
  }
  c.count("operations", ops.size());
}
#include "main.hpp"
