// P08: reductions against an independent sequential reduction of the elements.
#include "model.hpp"
#include "main.hpp"
#include <vsip/selgen.hpp>
using namespace vt;
typedef std::complex<double> cd;
typedef P_T T;
static int const D = P_D;
static Ctx *C;
typedef typename scalar<T>::type S;
template <typename X> cd wide(X x) { return cd(double(x), 0);}
template <typename X> cd wide(std::complex<X> x) { return cd(x.real(), x.imag());}

struct Got { char const *name; cd value; bool has_idx; long idx[3];};
typedef std::vector<Got> Gots;
static void put(Gots &g, char const *n, cd v) { Got x = {n, v, false, {0, 0, 0}}; g.push_back(x);}
static void puti(Gots &g, char const *n, cd v, Index<D> const &i)
{ Got x = {n, v, true, {0, 0, 0}}; for (int d = 0; d < D; ++d) x.idx[d] = long(i[d]); g.push_back(x);}

struct tag_bool {}; struct tag_int {}; struct tag_real {}; struct tag_cplx {};
typedef std::conditional<is_cplx<T>::value, tag_cplx, std::conditional<std::is_same<T, bool>::value, tag_bool,
        std::conditional<std::is_integral<T>::value, tag_int, tag_real>::type>::type>::type Tag;

template <typename V> void red(Gots &g, V v, tag_bool)
{
  put(g, "alltrue", wide(alltrue(v))); put(g, "anytrue", wide(anytrue(v))); put(g, "sumval", wide(sumval(v)));
}
template <typename V> void sums(Gots &g, V v)
{
  put(g, "sumval", wide(sumval(v))); put(g, "meanval", wide(meanval(v)));
  put(g, "sumsqval", wide(sumsqval(v))); put(g, "meansqval", wide(meansqval(v)));
}
template <typename V> void extrema(Gots &g, V v)
{
  Index<D> i; cd r;
  r = wide(maxval(v, i)); puti(g, "maxval", r, i); r = wide(minval(v, i)); puti(g, "minval", r, i);
}
template <typename V> void mags(Gots &g, V v)
{
  Index<D> i; cd r;
  r = wide(maxmgval(v, i)); puti(g, "maxmgval", r, i); r = wide(minmgval(v, i)); puti(g, "minmgval", r, i);
}
template <typename V> void red(Gots &g, V v, tag_int)
{ put(g, "alltrue", wide(alltrue(v))); put(g, "anytrue", wide(anytrue(v))); sums(g, v); extrema(g, v);}
template <typename V> void red(Gots &g, V v, tag_real) { sums(g, v); extrema(g, v); mags(g, v);}
template <typename V> void red(Gots &g, V v, tag_cplx)
{
  sums(g, v); mags(g, v); Index<D> i; cd r;
  r = wide(maxmgsqval(v, i)); puti(g, "maxmgsqval", r, i); r = wide(minmgsqval(v, i)); puti(g, "minmgsqval", r, i);
}
static T band_all(std::vector<T> const &x, bool all, tag_bool)
{ bool r = all; for (auto e : x) { bool b = wide(e).real() != 0; r = all ? (r && b) : (r || b);} return T(r);}
static T band_all(std::vector<T> const &x, bool all, tag_int)
{ long r = all ? -1 : 0; for (auto e : x) r = all ? (r & long(wide(e).real())) : (r | long(wide(e).real())); return T(r);}
template <typename Q> static T band_all(std::vector<T> const &, bool, Q) { return T();}

static void judge(Gots const &g, std::vector<T> const &x, long const *n, std::string const &sig, bool exact)
{
  Ctx &c = *C;
  long N = long(x.size());
  typedef std::complex<long double> L;
  L sum = 0, sq = 0; long double msq = 0, mabs = 0;
  for (auto e : x) { cd w = wide(e); L z(w.real(), w.imag()); sum += z; sq += z * z; msq += std::norm(z); mabs += std::abs(z);}
  double eps = std::is_integral<S>::value ? 0 : eps_of<S>::get();
  for (auto &r : g)
  {
    std::string nm = r.name, key = str(nm, ":", tname<T>::get(), D);
    cd want; double tol = 0;
    bool idx = r.has_idx;
    if (idx)
    {
      for (int d = 0; d < D; ++d)
        if (r.idx[d] < 0 || r.idx[d] >= n[d]) { c.fail(key + ":index", str(sig, ": index ", r.idx[0], ",", r.idx[1], ",", r.idx[2], " outside")); return;}
      auto f = [&](T e) -> double
      { cd w = wide(e); return nm[3] == 'v' ? w.real() : nm.find("sq") != std::string::npos ? std::norm(w) : std::abs(w);};
      double best = f(x[0]);
      for (auto e : x) best = nm[1] == 'a' ? std::max(best, f(e)) : std::min(best, f(e));
      tol = nm[3] == 'v' ? 0 : 4 * eps * best;
      if (std::abs(r.value.real() - best) > tol) { c.fail(key, str(sig, ": ", nm, " = ", r.value.real(), " expected ", best)); continue;}
      long l = D == 1 ? r.idx[0] : D == 2 ? r.idx[0] * n[1] + r.idx[1] : (r.idx[0] * n[1] + r.idx[1]) * n[2] + r.idx[2];
      if (std::abs(f(x[l]) - best) > tol)
      { c.fail(key + ":index", str(sig, ": ", nm, " = ", best, " reported at #", l, " which holds ", f(x[l]))); continue;}
      c.ok(sig + " " + nm); continue;
    }
    double k = exact ? 4 * eps : (2 * double(N) + 8) * eps;
    if (nm == "alltrue" || nm == "anytrue") want = wide(band_all(x, nm[1] == 'l', Tag()));
    else if (nm == "sumval") { want = cd(double(sum.real()), double(sum.imag())); tol = (exact ? 0 : k) * double(mabs);}
    else if (nm == "meanval") { want = cd(double(sum.real() / N), double(sum.imag() / N)); tol = eps == 0 ? 0.9999999 : k * double(mabs) / N;}
    else if (nm == "sumsqval") { want = cd(double(sq.real()), double(sq.imag())); tol = (exact ? 0 : k) * double(msq);}
    else { want = double(msq / N); tol = eps == 0 ? 0.9999999 : k * double(msq) / N;}
    if (!(std::abs(r.value - want) <= tol)) { c.fail(key, str(sig, ": ", nm, " = ", r.value, " expected ", want, " tol ", tol)); continue;}
    c.ok(sig + " " + nm);
  }
}
__attribute__((noinline)) static std::vector<T> fill(Erased<T, D> &e, long const *n, bool &exact, int it)
{
  Ctx &c = *C;
  e.guards(c.rng);
  long N = e.s.total();
  exact = std::is_integral<S>::value || c.rng.coin();
  std::vector<T> x;
  bool nearly = c.rng.coin(1, 3);
  T base = gen<T>::small(c.rng);
  for (long i = 0; i < N; ++i)
    x.push_back(nearly ? base : exact ? gen<T>::small(c.rng, -5, 5) : gen<T>::real(c.rng, 3));
  // one element that decides, anywhere
  if (nearly) x[c.rng.range(0, N - 1)] = gen<T>::small(c.rng);
  if (c.rng.coin(1, 4)) x[N - 1] = gen<T>::small(c.rng, -9, 9);
  if (c.rng.coin(1, 4)) x[0] = gen<T>::small(c.rng, -9, 9);
  e.setup(x);
  return x;
}
template <typename V> __attribute__((noinline)) void run(V v, std::vector<T> const &x, long const *n, std::string const &sig, bool exact)
{ Gots g; red(g, v, Tag()); judge(g, x, n, sig, exact);}
struct Each
{
  template <int K> void operator()(kint<K>)
  {
    Ctx &c = *C;
    for (int q = 0; q < int(c.n(P_REPS)); ++q)
    {
      long n[3]; rshape(c.rng, D, n);
      if (D == 1 && q % 4 == 0) { static long const L[] = {4095, 4096, 4097, 8192, 8191, 12289}; n[0] = c.rng.coin() ? L[c.rng.range(0, 5)] : c.rng.range(1000, 20000);}
      if (K == 4 && D == 1 && n[0] > 150) n[0] = c.rng.range(100, 150);
      auto it = ZooD<D, T>::template mk<K>(c.rng, n);
      auto &e = erase(it);
      std::string sig = str(tname<T>::get(), " ", it.what, " [", sshape(D, n), "]");
      c.begin(sig);
      bool exact; std::vector<T> x = fill(e, n, exact, q);
      run(it.v, x, n, sig, exact);
      std::string m = e.verify(x); if (!m.empty()) c.fail("operand-changed", sig + ": " + m);
      if (K % 3 == P_D % 3) expr(it, x, n, sig, exact, Tag());
    }
  }
  template <typename I, typename Q> void expr(I &it, std::vector<T> const &x, long const *n, std::string const &sig, bool exact, Q)
  {
    std::vector<T> y; for (auto e : x) y.push_back(e * T(2) - T(1));
    run(it.v * T(2) - T(1), y, n, "2*" + sig + "-1", exact);
    y.clear(); for (auto e : x) y.push_back(e + e);
    run(it.v + it.v, y, n, "sum of two " + sig, exact);
  }
  template <typename I> void expr(I &it, std::vector<T> const &x, long const *n, std::string const &sig, bool exact, tag_bool)
  {
    std::vector<T> y; for (bool e : x) y.push_back(!e);
    run(lnot(it.v), y, n, "not " + sig, exact);
  }
};
void vt_main(Ctx &c)
{
  C = &c;
  Each e; for_kinds<P_LO, P_HI>::go(e);
#if P_D == 1
  // a generator, of type index or value
  for (int q = 0; q < int(c.n(20)); ++q)
  {
    long n[3] = {c.rng.range(1, 40), 1, 1};
    T a = gen<T>::small(c.rng), b = gen<T>::small(c.rng);
    if (std::is_same<T, bool>::value) break;
    std::vector<T> x; for (long i = 0; i < n[0]; ++i) x.push_back(a + T(S(i)) * b);
    std::string sig = str("ramp ", a, ",", b, " ", n[0]); c.begin(sig);
    run(vsip::ramp(a, b, n[0]), x, n, sig, true);
  }
#endif
}
