// P15: random streams against an independent implementation of the specified recurrences.
#include "model.hpp"
#include <vsip/random.hpp>
#include "main.hpp"
#include <memory>
using namespace vt;
typedef P_T T; typedef scalar<T>::type S;
static Ctx *C;
typedef uint64_t u64;
static u64 const MOD = 1ull << 32, A0 = 1664525, C0 = 1013904223, A1 = 69069;

static long prime(long n) { long p = 2; for (long c = 0;; ++p) { bool q = true; for (long d = 2; d * d <= p; ++d) if (p % d == 0) q = false; if (q && p > 2 && ++c == n) return p;} }
// the affine map x -> a x + c, composed n times
struct Aff { u64 a, c; };
static Aff power(u64 n) { Aff r = {1, 0}, b = {A0, C0}; while (n) { if (n & 1) { r.c = (b.a * r.c + b.c) % MOD; r.a = r.a * b.a % MOD;} b.c = (b.a * b.c + b.c) % MOD; b.a = b.a * b.a % MOD; n >>= 1;} return r;}
struct Model
{
  bool portable; Aff step; u64 x, y, z, c1;
  Model(u64 seed, u64 k, u64 id, bool p) : portable(p)
  {
    seed %= MOD;
    if (p)
    {
      Aff j = power((MOD - 1) / k * (id - 1));                 // subsequences start at evenly spaced points
      x = (j.a * seed + j.c) % MOD; y = z = 1; c1 = prime(long(id)); step = power(1);
    }
    else
    {
      Aff j = power(id); x = (j.a * seed + j.c) % MOD;         // every k-th number, starting at number id
      step = power(k); y = z = c1 = 0;
    }
  }
  u64 raw()
  {
    x = (step.a * x + step.c) % MOD;
    if (!portable) return x;
    y = (A1 * y + c1) % MOD;
    u64 v = (x + MOD - y) % MOD;
    if (y == z) { y = (y + 1) % MOD; z = (z + 1) % MOD;}
    return v;
  }
  long double u() { return (long double)raw() / MOD;}
};
// expected value and tolerance
static std::complex<long double> uniform(Model &m, float const *) { return m.u();}
static std::complex<long double> uniform(Model &m, double const *) { return m.u();}
template <typename X> static std::complex<long double> uniform(Model &m, std::complex<X> const *) { long double a = m.u(), b = m.u(); return std::complex<long double>(a, b);}
template <typename X> static std::complex<long double> normal(Model &m, X const *) { long double s = 0; for (int i = 0; i < 12; ++i) s += m.u(); return m.portable ? 6 - s : s - 6;}
template <typename X> static std::complex<long double> normal(Model &m, std::complex<X> const *)
{ long double a = 0, b = 0; for (int i = 0; i < 3; ++i) a += m.u(); for (int i = 0; i < 3; ++i) b += m.u(); return std::complex<long double>(3 - b - a, a - b);}
template <typename X> std::complex<long double> wide(X x) { return std::complex<long double>(x, 0);}
template <typename X> std::complex<long double> wide(std::complex<X> x) { return std::complex<long double>(x.real(), x.imag());}

struct Stream { std::unique_ptr<vsip::Rand<T>> g; Model m; };
static std::vector<Stream> pool; static std::string trace;
static std::string g_key;
static bool near(T got, std::complex<long double> want, bool norm) { return std::abs(wide(got) - want) <= (norm ? 60 : 2) * eps_of<S>::get();}
static bool inside(T v) { auto w = wide(v); return w.real() >= 0 && w.real() <= 1 && w.imag() >= 0 && w.imag() <= 1;}
static bool check(T got, Stream &s, bool norm, char const *how)
{
  auto want = norm ? normal(s.m, (T *)0) : uniform(s.m, (T *)0);
  if (!near(got, want, norm)) { C->fail(g_key + ":" + how, str("drew ", got, " expected ", want, " history ", trace)); return false;}
  if (!norm && !inside(got)) { C->fail(g_key + ":interval", str(got)); return false;}
  return true;
}
static void fresh()
{
  Rng &r = C->rng; pool.clear(); trace.clear(); g_key = str("rand:", tname<T>::get());
  std::string d;
  for (int i = 0, n = int(r.range(1, 3)); i < n; ++i)
  {
    u64 seed = r.coin(1, 4) ? r.range(0, 3) : r.coin(1, 6) ? r.next() : r.next() % MOD; bool p = r.coin();
    u64 k = 1, id = 1; bool sub = r.coin();
    if (sub) { k = r.coin(1, 5) ? 1ull << r.range(0, 6) : r.range(1, 100); id = r.range(1, k);}
    if (!i || !r.coin(1, 3)) {}
    Stream s = {std::unique_ptr<vsip::Rand<T>>(sub ? new vsip::Rand<T>(seed, k, id, p) : new vsip::Rand<T>(seed, p)), Model(seed, k, id, p)};
    pool.push_back(std::move(s)); d += str(p ? " portable(" : " plain(", seed, ",", k, ",", id, ")");
  }
  C->begin(str("rand ", tname<T>::get(), d));
}
// the numbers of a lazily generated view, drawn into the given storage form
template <int D, int K> __attribute__((noinline)) bool fill(Stream &s, bool norm, size_t w)
{
  Rng &r = C->rng; long n[3]; rshape(r, D, n, 7); if (D == 1) n[0] = std::min(n[0], 40L); if (D == 2) { n[0] = std::min(n[0], 12L); n[1] = std::min(n[1], 12L);}
  auto o = erase(ZooD<D, T>::template mk<K>(r, n)); o.guards(r);
  trace += str(norm ? "N" : "U", w, "[", sshape(D, n), "]");
  long t = n[0] * n[1] * n[2];
#if 1
  if (D == 1) { if (norm) draw1(o.v, s, n, true); else draw1(o.v, s, n, false);}
  else draw1(o.v, s, n, norm);
#endif
  std::vector<T> got = o.read(); std::vector<std::complex<long double>> want;
  for (long i = 0; i < t; ++i) want.push_back(norm ? normal(s.m, (T *)0) : uniform(s.m, (T *)0));
  std::string q = o.verify(got); if (!q.empty()) { C->fail(g_key + ":outside", q); return false;}
  bool ordered = D == 1 || K == 0;
  if (ordered)
  {
    for (long i = 0; i < t; ++i)
      if (!near(got[i], want[i], norm)) { C->fail(g_key + str(":fill", D, "d"), str(o.what, " element #", i, " = ", got[i], " expected ", want[i], " history ", trace)); return false;}
  }
  else
  { // the same numbers in some order
    auto less = [](std::complex<long double> a, std::complex<long double> b) { return a.real() != b.real() ? a.real() < b.real() : a.imag() < b.imag();};
    std::vector<std::complex<long double>> g; for (T x : got) g.push_back(wide(x));
    std::vector<std::complex<long double>> rest = want; std::sort(g.begin(), g.end(), less); std::sort(rest.begin(), rest.end(), less);
    std::vector<char> used(rest.size());
    for (auto x : g)
    {
      bool f = false;
      for (size_t j = 0; j < rest.size() && !f; ++j) if (!used[j] && std::abs(x - rest[j]) <= 60 * eps_of<S>::get()) { used[j] = 1; f = true;}
      if (!f) { C->fail(g_key + str(":fill", D, "d"), str(o.what, " holds ", x, " that is not among the next numbers of the stream; history ", trace)); return false;}
    }
  }
  C->ok(C->label + trace + o.what, t);
  return true;
}
template <typename V> typename std::enable_if<V::dim == 1>::type draw1(V v, Stream &s, long const *n, bool norm) { if (norm) v = s.g->randn(n[0]); else v = s.g->randu(n[0]);}
template <typename V> typename std::enable_if<V::dim == 2>::type draw1(V v, Stream &s, long const *n, bool norm) { if (norm) v = s.g->randn(n[0], n[1]); else v = s.g->randu(n[0], n[1]);}
template <typename V> typename std::enable_if<V::dim == 3>::type draw1(V v, Stream &s, long const *n, bool norm) { if (norm) v = s.g->randn(n[0], n[1], n[2]); else v = s.g->randu(n[0], n[1], n[2]);}

template <int LO, int HI> struct each { static void go(long n)
{
  Rng &r = C->rng;
  for (long q = 0; q < n; ++q)
  {
    fresh();
    for (int step = 0; step < 10; ++step)
    {
      size_t w = r.range(0, long(pool.size()) - 1); Stream &s = pool[w]; bool norm = r.coin(), good = true;
      switch (r.range(0, 4))
      {
      case 0: { long m = r.coin(1, 20) ? 3000 : r.range(1, 30); trace += str(norm ? "n" : "u", w, "*", m);
                for (long i = 0; i < m && good; ++i) good = check(norm ? s.g->randn() : s.g->randu(), s, norm, "single");
                if (good) C->ok(C->label + trace, m); break;}
      case 1: good = fill<1, LO % 10>(s, norm, w); break;
      case 2: good = fill<2, LO % 12>(s, norm, w); break;
      case 3: good = fill<3, LO % 8>(s, norm, w); break;
      default: good = fill<2, 0>(s, norm, w);
      }
      if (!good) break;
    }
  }
  each<LO + 1, HI>::go(n);
} };
template <int HI> struct each<HI, HI> { static void go(long) {} };
#ifdef P_PERIOD
// past the period of the second recurrence, where the specification steps it to another cycle
void vt_main(Ctx &c)
{
  C = &c; long id = c.rng.range(1, 100); u64 seed = c.rng.next() % MOD;
  c.begin(str("rand period seed ", seed, " id ", id));
  Stream s = { std::unique_ptr<vsip::Rand<T>>(new vsip::Rand<T>(seed, 100, id, true)), Model(seed, 100, id, true)}; g_key = "rand:period";
  vsip::Rand<T> &g = *s.g; Model &m = s.m;
  uint32_t x = uint32_t(m.x), y = 1, z = 1, c1 = uint32_t(m.c1); bool stepped = false;
  // P_PERIOD 0: past the step with uniform numbers; 1, 2: meet it inside a normal one (in its second half)
  int const w = ovxx::is_complex<T>::value ? 2 : 1;
  u64 const stop = P_PERIOD ? MOD - 60 : MOD + 100000;
  u64 i = 0;
  for (; i < stop; i += w)
  {
    double v[2];
    for (int k = 0; k < w; ++k)
    {
      x = uint32_t(A0) * x + uint32_t(C0); y = uint32_t(A1) * y + c1;
      v[k] = uint32_t(x - y) / 4294967296.0;
      if (y == z) { ++y; ++z; stepped = true;}
    }
    T got = g.randu(); auto q = wide(got);
    if (q.real() != v[0] || (w == 2 && q.imag() != v[1])) { c.fail("rand:period", str("draw ", i, " = ", got, " expected ", v[0])); return;}
  }
  if (P_PERIOD)
  {
    m.x = x; m.y = y; m.z = z;
    // the period ends with draw MOD - 1
    u64 const len = w == 2 ? 6 : 12, at = w == 2 ? (P_PERIOD == 1 ? 1 : c.rng.coin() ? 3 : 5) : c.rng.range(0, 11);
    while ((MOD - 1 - i) % len != at && i < MOD - 30) { if (!check(g.randu(), s, false, "uniform")) return; i += w;}
    for (int k = 0; k < 20; ++k) { if (!check(g.randn(), s, true, "normal")) return;}
    stepped = m.z != 1;
  }
  c.count("second recurrence stepped", stepped);
  c.ok(c.label, 4294967296l); c.ok(c.label + " end");
}
#else
void vt_main(Ctx &c) { C = &c; each<0, 12>::go(c.n(P_REPS));}
#endif
