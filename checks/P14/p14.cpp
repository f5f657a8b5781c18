// P14: window coefficients against closed forms, frequency swap against the permutation it denotes.
#include "model.hpp"
#include <vsip/signal.hpp>
#include <ovxx/signal/window.hpp>
#include "main.hpp"
using namespace vt;
static Ctx *C;
typedef long double L;
static L const PI = acosl(-1.0L);

// ---- windows --------------------------------------------------------------
static L bessel_i0(L x) { L t = 1, s = 1; for (int k = 1; k < 2000; ++k) { t *= x / 2 / k; s += t * t; if (t * t < s * 1e-22L) break;} return s;}
static std::vector<L> ref_blackman(long n)
{ std::vector<L> w; for (long i = 0; i < n; ++i) w.push_back(0.42L - 0.5L * cosl(2 * PI * i / (n - 1)) + 0.08L * cosl(4 * PI * i / (n - 1))); return w;}
static std::vector<L> ref_hanning(long n)
{ std::vector<L> w; for (long i = 0; i < n; ++i) w.push_back(0.5L * (1 - cosl(2 * PI * (i + 1) / (n + 1)))); return w;}
static std::vector<L> ref_kaiser(long n, L beta)
{
  std::vector<L> w;
  for (long i = 0; i < n; ++i) { L c = 2.0L * i / (n - 1) - 1; w.push_back(bessel_i0(beta * sqrtl(std::max(0.0L, 1 - c * c))) / bessel_i0(beta));}
  return w;
}
// Dolph-Chebyshev: samples of the Chebyshev polynomial of order n-1, transformed and normalized to its centre
static L cheb(long m, L y) { return std::fabs(y) <= 1 ? cosl(m * acosl(y)) : (y < 0 && m % 2 ? -1 : 1) * coshl(m * acoshl(std::fabs(y)));}
static std::vector<L> ref_cheby(long n, L ripple)
{
  L dp = powl(10, -ripple / 20), y0 = coshl(acoshl((1 + dp) / dp) / (n - 1));
  std::vector<L> w, W;
  for (long k = 0; k < n; ++k) W.push_back(cheb(n - 1, y0 * cosl(PI * k / n)));
  for (long i = 0; i < n; ++i)
  {
    L s = 0; L t = i - (n - 1) / 2.0L;
    // the sample at k for an even length changes sign halfway: periodic in 2n
    for (long k = 0; k < n; ++k) s += W[k] * cosl(2 * PI * k * t / n);
    w.push_back(s);
  }
  L c = w[n / 2]; for (L &x : w) x /= c;
  return w;
}
template <typename T, typename V> void window(char const *name, V v, std::vector<L> const &want, L tol, L symtol, std::string const &sig)
{
  std::string key = str("window:", name, ":", tname<T>::get());
  std::vector<T> w = readall(v); long n = long(want.size());
  if (long(w.size()) != n) { C->fail(key + ":length", str(w.size(), " expected ", n)); return;}
  for (long i = 0; i < n; ++i)
    if (!(std::fabs(L(w[i]) - want[i]) <= tol)) { C->fail(key, str("coefficient ", i, " = ", w[i], " expected ", double(want[i]), " tolerance ", double(tol))); return;}
  for (long i = 0; i < n; ++i)
    if (!(std::fabs(L(w[i]) - L(w[n - 1 - i])) <= symtol)) { C->fail(key + ":symmetry", str("coefficient ", i)); return;}
  C->ok(sig, n);
}
template <typename T> struct W;
template <> struct W<float>
{
  static vsip::const_Vector<float> blackman(long n) { return vsip::blackman(n);} static vsip::const_Vector<float> hanning(long n) { return vsip::hanning(n);}
  static vsip::const_Vector<float> kaiser(long n, float b) { return vsip::kaiser(n, b);} static vsip::const_Vector<float> cheby(long n, float b) { return vsip::cheby(n, b);}
};
template <> struct W<double>
{
  static vsip::const_Vector<double> blackman(long n) { return ovxx::signal::blackman<double>(n);} static vsip::const_Vector<double> hanning(long n) { return ovxx::signal::hanning<double>(n);}
  static vsip::const_Vector<double> kaiser(long n, double b) { return ovxx::signal::kaiser<double>(n, b);} static vsip::const_Vector<double> cheby(long n, double b) { return ovxx::signal::cheby<double>(n, b);}
};
template <typename T> void windows(long n)
{
  Rng &r = C->rng; L e = eps_of<T>::get();
  C->begin(str("blackman ", tname<T>::get(), " ", n)); window<T>("blackman", W<T>::blackman(n), ref_blackman(n), 40 * e, 40 * e, C->label);
  C->begin(str("hanning ", tname<T>::get(), " ", n)); window<T>("hanning", W<T>::hanning(n), ref_hanning(n), 20 * e, 20 * e, C->label);
  T beta = r.coin(1, 6) ? T(0) : T(r.unit() * (r.coin() ? 4 : 40));
  // the polynomial used for small arguments is documented to 1.6e-7
  C->begin(str("kaiser ", tname<T>::get(), " ", n, " beta ", beta)); window<T>("kaiser", W<T>::kaiser(n, beta), ref_kaiser(n, beta), 4e-7L + 10 * e * (1 + beta), 20 * e * (1 + beta), C->label);
  if (n <= 400)
  {
    T ripple = T(20 + 80 * r.unit());
    // rounding of the arguments is amplified by the order of the polynomial
    if (std::is_same<T, double>::value || n <= 100)
    { C->begin(str("cheby ", tname<T>::get(), " ", n, " ripple ", ripple)); window<T>("cheby", W<T>::cheby(n, ripple), ref_cheby(n, ripple), 4 * e * (40 + L(n) * n), 4 * e * (40 + L(n) * n), C->label);}
  }
}
// ---- frequency swap ---------------------------------------------------------
static long moved(long i, long n) { return (i + (n + 1) / 2) % n;}      // the element found at i afterwards
template <typename T, int D> std::vector<T> swapped(std::vector<T> const &x, long const *n, bool rows = true, bool cols = true)
{
  std::vector<T> y(x.size());
  for (long i = 0; i < n[0]; ++i) for (long j = 0; j < n[1]; ++j)
    y[i * n[1] + j] = x[(rows && n[0] > 1 ? moved(i, n[0]) : i) * n[1] + (cols && n[1] > 1 ? moved(j, n[1]) : j)];
  return y;
}
template <typename T, int D> struct Alone;
template <typename T> struct Alone<T, 1> { template <typename A, typename B> static void go(std::string const &, std::vector<T> const &, long const *, A &, B &) {} };
template <typename T> struct Alone<T, 2>
{
  // rows or columns only
  template <typename A, typename B> static void go(std::string const &key, std::vector<T> const &x, long const *n, A &a, B &o)
  {
    C->begin(str("freqswap rows ", tname<T>::get(), " ", sshape(2, n), " ", a.what, " -> ", o.what));
    o.setup(rvals<T>(C->rng, n[0] * n[1])); ovxx::signal::freqswap<vsip::row>(a.v, o.v);
    std::string q = o.verify(swapped<T, 2>(x, n, false, true)); if (!q.empty()) C->fail(key + ":rows", q); else C->ok(C->label, n[0] * n[1]);
    C->begin(str("freqswap columns ", tname<T>::get(), " ", sshape(2, n), " ", a.what, " -> ", o.what));
    o.setup(rvals<T>(C->rng, n[0] * n[1])); ovxx::signal::freqswap<vsip::col>(a.v, o.v);
    q = o.verify(swapped<T, 2>(x, n, true, false)); if (!q.empty()) C->fail(key + ":columns", q); else C->ok(C->label, n[0] * n[1]);
  }
};
template <typename T, int D, int KA, int KO> __attribute__((noinline)) void swaps()
{
  Rng &r = C->rng; long n[3]; rshape(r, D, n, 12); long t = n[0] * n[1];
  auto a = erase(ZooD<D, T>::template mk<KA>(r, n)); auto o = erase(ZooD<D, T>::template mk<KO>(r, n));
  std::string key = str("freqswap", D, "d"), desc = str(tname<T>::get(), " ", sshape(D, n), " ", a.what, " -> ", o.what), q;
  std::vector<T> x, y;
  for (long i = 0; i < t; ++i) { x.push_back(uid<T>::of(i)); y.push_back(uid<T>::of(i + 5000));}
  auto fresh = [&](char const *w) { a.guards(r); a.setup(x); o.guards(r); o.setup(y); C->begin(str("freqswap ", w, " ", desc));};
  auto done = [&](char const *w, std::string const &q) { if (!q.empty()) C->fail(key + ":" + w, q); else C->ok(C->label, t);};
  fresh("assigned"); o.v = vsip::freqswap(a.v); q = o.verify(swapped<T, D>(x, n)); if (q.empty()) q = a.verify(x); done("assigned", q);
  fresh("in place"); a.v = vsip::freqswap(a.v); done("in-place", a.verify(swapped<T, D>(x, n)));
  fresh("by reference"); ovxx::signal::freqswap(a.v, o.v); q = o.verify(swapped<T, D>(x, n)); if (q.empty()) q = a.verify(x); done("by-reference", q);
  fresh("of an expression"); o.v = vsip::freqswap(a.v + a.v);
  { std::vector<T> z = swapped<T, D>(x, n); for (T &e : z) e = T(e + e); q = o.verify(z); if (q.empty()) q = a.verify(x); done("of-expression", q);}
  fresh("in an expression"); o.v = vsip::freqswap(a.v) - o.v;
  { std::vector<T> z = swapped<T, D>(x, n); for (long i = 0; i < t; ++i) z[i] = T(z[i] - y[i]); q = o.verify(z); if (q.empty()) q = a.verify(x); done("in-expression", q);}
  a.guards(r); a.setup(x); o.guards(r);
  Alone<T, D>::go(key, x, n, a, o);
}
template <typename T, int LO, int HI> struct each { static void go(long n)
{
  for (long q = 0; q < n; ++q) { swaps<T, 1, LO % 10, (LO * 3 + 1) % 10>(); swaps<T, 2, LO % 12, (LO * 5 + 1) % 12>();}
  each<T, LO + 1, HI>::go(n);
} };
template <typename T, int HI> struct each<T, HI, HI> { static void go(long) {} };
void vt_main(Ctx &c)
{
  C = &c;
#ifdef P_W
  for (long n = 2; n <= 130; ++n) windows<P_T>(n);
  for (long q = 0; q < c.n(100); ++q) windows<P_T>(c.rng.coin(1, 8) ? c.rng.range(2, 5000) : c.rng.range(2, 300));
#else
  each<P_T, P_LO, P_HI>::go(c.n(P_REPS));
#endif
}
