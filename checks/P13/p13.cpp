// P13: histograms against exact bin arithmetic, with conservation of counts.
#include "model.hpp"
#include <vsip/impl/signal/histo.hpp>
#include "main.hpp"
#include <memory>
using namespace vt;
typedef P_T T;
static Ctx *C;
typedef long double L;
template <int D> struct HT;
template <> struct HT<1> { typedef vsip::Histogram<vsip::const_Vector, T> type;};
template <> struct HT<2> { typedef vsip::Histogram<vsip::const_Matrix, T> type;};

struct Model
{
  T lo, hi; long bins; std::vector<long> lower, upper;    // bounds of what may be counted below each bin boundary
  long seen;
};
// bins v may be counted in
static void bins_of(Model const &m, T v, long &a, long &b)
{
  if (v < m.lo) { a = b = 0; return;}
  if (v >= m.hi) { a = b = m.bins - 1; return;}
  L x = (L(v) - L(m.lo)) * (m.bins - 2) / (L(m.hi) - L(m.lo));
  if (std::is_integral<T>::value)
  { a = b = 1 + long((__int128(v) - __int128(m.lo)) * (m.bins - 2) / (__int128(m.hi) - __int128(m.lo))); return;}
  // the representable distances and the width are rounded to T
  L e = 4 * L(std::numeric_limits<T>::epsilon()) * (1 + x);
  a = 1 + std::max(0L, long(floorl(x - e))); b = 1 + long(floorl(x + e));
  if (b > m.bins - 1) b = m.bins - 1;    // next to the end of the range
}
static T value(Rng &r, Model const &m)
{
  L w = L(m.hi) - L(m.lo);
  switch (r.range(0, 7))
  {
  case 0: return m.lo;
  case 1: return m.hi;
  case 2: return T(L(m.lo) - w * r.unit() * 2);
  case 3: return T(L(m.hi) + w * r.unit() * 2);
  case 4: { T e = T(L(m.lo) + w * r.range(0, m.bins - 2) / (m.bins - 2)); return e;}                 // an edge
  case 5: { T e = T(L(m.lo) + w * r.range(0, m.bins - 2) / (m.bins - 2));                            // next to an edge
            return std::is_integral<T>::value ? T(e + r.range(-1, 1)) : T(std::nextafter(double(e), r.coin() ? 1e30 : -1e30));}
  default: return T(L(m.lo) + w * r.unit());
  }
}
static void count_in(Model &m, T v)
{
  long a, b; bins_of(m, v, a, b);
  for (long i = 0; i < m.bins; ++i) { if (b < i + 1) ++m.lower[i]; if (a < i + 1) ++m.upper[i];}   // counted in bins 0..i for sure / possibly
  ++m.seen;
}
static void restart(Model &m) { m.seen = 0; m.lower.assign(m.bins, 0); m.upper.assign(m.bins, 0);}
template <int D, int K> __attribute__((noinline)) void histo()
{
  typedef typename HT<D>::type H;
  Rng &r = C->rng;
  Model m; m.bins = r.coin(1, 4) ? r.range(3, 5) : r.range(3, 60);
  if (std::is_integral<T>::value)
  {
    long w = r.coin(1, 3) ? 1 + r.range(0, 5) : r.coin(1, 8) ? 2000000000L : r.range(1, 200);
    long lo = w > 1000 ? -1000000000L : r.range(-100, 100);
    m.lo = T(lo); m.hi = T(lo + w);
  }
  else
  {
    double s = r.coin(1, 3) ? 1 : std::pow(10., r.sym() * 6);
    m.lo = T(r.coin() ? r.range(-8, 8) : s * r.sym()); m.hi = T(L(m.lo) + (r.coin() ? r.range(1, 20) : s * (0.01 + r.unit())));
    if (!(m.hi > m.lo)) m.hi = m.lo + T(1) + std::fabs(m.lo);
  }
  restart(m);
  long n[3] = {1, 1, 1}; for (int d = 0; d < D; ++d) n[d] = r.range(1, D == 1 ? 60 : 9);
  auto in = erase(ZooD<D, T>::template mk<K>(r, n));
  C->begin(str("histogram", D, "d ", tname<T>::get(), " range ", m.lo, " .. ", m.hi, " bins ", m.bins, " in ", sshape(D, n), " ", in.what));
  std::string key = str("histogram", D, "d:", tname<T>::get());
  std::vector<std::unique_ptr<H>> hs; std::vector<Model> ms;
  if (r.coin(1, 4))
  {
    vsip::Vector<int> init(m.bins); m.seen = 0; long below = 0;
    for (long i = 0; i < m.bins; ++i) { long c = r.range(0, 9); init.put(i, int(c)); below += c; m.lower[i] = m.upper[i] = below;}
    m.seen = below;
    hs.emplace_back(new H(m.lo, m.hi, init)); init = 77;      // the object has its own copy
  }
  else hs.emplace_back(new H(m.lo, m.hi, length_type(m.bins)));
  ms.push_back(m);
  std::string trace;
  for (int step = 0; step < 10; ++step)
  {
    size_t i = r.range(0, long(hs.size()) - 1);
    int op = int(r.range(0, 9));
    if (op == 0 && hs.size() < 3) { hs.emplace_back(new H(*hs[i])); ms.push_back(Model(ms[i])); trace += str("c", i); continue;}
    if (op == 1 && hs.size() > 1) { size_t j = r.range(0, long(hs.size()) - 1); *hs[j] = *hs[i]; Model t = ms[i]; ms[j] = t; trace += str("=", i, j); continue;}
    bool acc = r.coin();
    std::vector<T> x; for (long q = 0; q < n[0] * n[1]; ++q) x.push_back(value(r, m));
    in.guards(r); in.setup(x);
    if (!acc) restart(ms[i]);
    for (T v : x) count_in(ms[i], v);
    trace += str(acc ? "a" : "n", i);
    std::vector<int> got;
    { auto res = (*hs[i])(in.v, acc); got = readall(res);}
    if (long(got.size()) != m.bins) { C->fail(key + ":bins", str(got.size())); return;}
    long sum = 0;
    for (long b = 0; b < m.bins; ++b)
    {
      if (got[b] < 0) { C->fail(key + ":negative", str("bin ", b, " = ", got[b])); return;}
      sum += got[b];
      if (sum < ms[i].lower[b] || sum > ms[i].upper[b])
      { C->fail(key + (acc ? ":accumulated" : ":counts"), str("bins 0..", b, " hold ", sum, " expected ", ms[i].lower[b], "..", ms[i].upper[b], " history ", trace)); return;}
    }
    if (sum != ms[i].seen) { C->fail(key + ":conservation", str("sum ", sum, " of ", ms[i].seen, " history ", trace)); return;}
    std::string q = in.verify(in.values()); if (!q.empty()) { C->fail(key + ":input-changed", q); return;}
    C->ok(C->label + trace, long(x.size()));
  }
}
template <int LO, int HI> struct each { static void go(long n)
{
  for (long q = 0; q < n; ++q) { histo<1, LO % 10>(); histo<2, (LO + 3) % 12>();}
  each<LO + 1, HI>::go(n);
} };
template <int HI> struct each<HI, HI> { static void go(long) {} };
void vt_main(Ctx &c) { C = &c; each<0, 12>::go(c.n(P_REPS));}
